//! background reasoning loses and corrupts nothing
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use vh::rules::*;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C15", 16.0, 240.0, "runs from 1..5 told judgements (built so that rules apply) with up to 60 cycles; cycle by cycle every new content of beliefs, pending work and lookup must be told, licensed by the rules from known content, or pooled evidence of it; at the end every conclusion of each told judgement and of each related pair, of which one was processed, must be found under every term it mentions; also with concurrent derivation and telling in between; distinct by new sentence");
    par(&cfg, 8, 15, |i, r| {
        let mut n = 0;
        until(cfg.deadline(), || {
            n += 1;
            match (i, n % 4) {
                (7, 1) | (7, 3) => (0..5).for_each(|_| tight(r)),
                (7, _) => crowd(r),
                (6, 0) | (2, 2) => {
                    for _ in 0..4 {
                        let (info, bad) = together(r);
                        if let Some(b) = bad {
                            viol("lost", format!("{} | {}", info, b));
                            return;
                        }
                        cnt("runs with several telling threads", 1);
                    }
                }
                (_, 0) => later(r),
                _ => run(r, i % 4 != 3),
            }
        })
    });
    finish();
}

fn one(g: &G, r: &mut Rng) -> R {
    let n = |r: &mut Rng| nm(r.pick(&g.names));
    let x = || R::I("x".to_string());
    match r.n(14) {
        0 | 1 | 2 | 3 => inh(n(r), n(r)),
        4 => st(Cop::Sim, n(r), n(r)),
        5 => st(Cop::Impl, inh(n(r), n(r)), inh(n(r), n(r))),
        6 => st(Cop::Impl, inh(x(), n(r)), inh(x(), n(r))),
        7 => st(Cop::Impl, R::Conj((0..2 + r.n(3)).map(|_| inh(if r.chance(0.5) { x() } else { n(r) }, n(r))).collect()), inh(x(), n(r))),
        8 => inh(R::Prod(vec![n(r), n(r)]), n(r)),
        9 => inh(n(r), R::SInt(vec![n(r)])),
        10 => neg(inh(n(r), n(r))),
        11 => {
            let k = 2 + r.n(3);
            let v: Vec<R> = (0..k).map(|_| n(r)).collect();
            if r.chance(0.5) {
                inh(R::IInt(v), n(r))
            } else {
                inh(n(r), R::IInt(v))
            }
        }
        12 => inh(n(r), img(n(r), r.n(2), n(r))),
        _ => g.stmt(r, 3),
    }
}

fn told_now(nar: &mut Nar, hist: &mut String, t: &R, tv: V) -> S {
    let id = next_id(&nar.mem);
    hist.push_str(&format!("{}. {{{} {}}} #{} ", t.src(), tv.f, tv.c, id));
    set_input(hist);
    inputT(nar, &t.t(), P::J.e(), &tv.t());
    S { t: t.clone(), p: P::J, v: Some(tv), cnt: None, ids: vec![id], dt: None, used: (0, 0) }
}

/// c with some of the inputs in ids must be found under every term it mentions
fn found(bs: &[CB], cap: usize, c: &R, ids: &[i64], why: &str, hist: &str) -> bool {
    if c.complexity() > 64 {
        return true;
    }
    for s in c.usubs() {
        let con = bs.iter().find(|x| x.name == s);
        for which in 0..2 {
            let tab: Vec<&S> = con.map(|x| if which == 0 { x.by_exp.iter() } else { x.by_use.iter() }.collect()).unwrap_or_default();
            if tab.len() >= cap || bs.len() >= 3000 {
                continue;
            }
            if !tab.iter().any(|b| b.t == *c && b.ids.iter().any(|i| ids.contains(i))) {
                viol("lost", format!("{} | {} licenses {} but it isn't found under {}", hist, why, c.src(), s.src()));
                return false;
            }
            cnt("conclusions looked up", 1);
        }
    }
    true
}

/// a judgement which is told long after knowledge that mentions its whole term
fn later(r: &mut Rng) {
    let g = G::new(&["a", "b", "c", "d"]).novar();
    let mut nar = createNar();
    vh::sys::late_aligned(&mut nar, r);
    let mut hist = String::new();
    let x = loop {
        let t = one(&g, r);
        if t.complexity() < 14 && !matches!(t, R::St(Cop::Pred, _, _)) && t.usubs().iter().all(|s| !s.is_var()) {
            break t;
        }
    };
    let n = |r: &mut Rng| inh(nm(r.pick(&g.names)), nm(r.pick(&g.names)));
    let mut kb = vec![];
    for _ in 0..1 + r.n(3) {
        let t = match r.n(6) {
            0 | 1 => st(Cop::Impl, x.clone(), n(r)),
            2 => {
                let mut v = vec![n(r), x.clone()];
                if r.chance(0.5) {
                    v.push(n(r));
                }
                r.shuffle(&mut v);
                st(Cop::Impl, R::Conj(v), n(r))
            }
            3 => st(Cop::Equiv, x.clone(), n(r)),
            4 => st(Cop::Impl, n(r), x.clone()),
            _ => x.clone(),
        };
        kb.push(told_now(&mut nar, &mut hist, &t, gv(r)));
    }
    // everything is processed and forgotten as pending work
    if r.chance(0.5) {
        for _ in 0..kb.len() + r.n(4) {
            if guarded(|| cycle(&mut nar)).is_none() {
                return;
            }
            tick();
        }
        drain(&nar.mem);
        let mut q = false;
        nar20_1::NarInputFacade::input(&mut nar, &"!dtf".to_string(), &mut q);
        hist.push_str("!s.. !dtf ");
    } else {
        let end = (cycles_done(&nar.mem) / 111 + 1) * 111;
        while cycles_done(&nar.mem) < end + 1 {
            if guarded(|| cycle(&mut nar)).is_none() {
                return;
            }
            tick();
            if r.chance(0.2) {
                drain(&nar.mem);
            }
            if tasks(&nar.mem).len() > 60 {
                let mut q = false;
                drain(&nar.mem);
                nar20_1::NarInputFacade::input(&mut nar, &"!dtf".to_string(), &mut q);
            }
        }
        drain(&nar.mem);
        hist.push_str("!s.. until a cleanup ");
    }
    let before = beliefs(&nar.mem);
    let sx = told_now(&mut nar, &mut hist, &x, gv_plain(r));
    for _ in 0..90 {
        if !tasks(&nar.mem).iter().any(|q| q.ids == sx.ids && q.t == sx.t) {
            break;
        }
        hist.push_str("!s ");
        set_input(&hist);
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        drain(&nar.mem);
    }
    if tasks(&nar.mem).iter().any(|q| q.ids == sx.ids && q.t == sx.t) {
        cnt("late judgements not processed in time", 1);
        return;
    }
    drain(&nar.mem);
    let bs = beliefs(&nar.mem);
    let px = Pr { t: sx.t.clone(), p: P::J, v: sx.v };
    for k in &kb {
        // still known?
        let mut ids: Vec<i64> = before.iter().filter(|c| c.name == x).flat_map(|c| c.by_exp.iter().filter(|b| b.t == k.t && b.ids.contains(&k.ids[0])).flat_map(|b| b.ids.clone())).collect();
        // telling the same again pools both at once
        if ids.is_empty() || k.t == x {
            continue;
        }
        ids.push(sx.ids[0]);
        let pk = Pr { t: k.t.clone(), p: P::J, v: k.v };
        let cs = binary(&px, &pk);
        if cs.is_empty() {
            ev_trivial();
        }
        for c in cs {
            if !found(&bs, 20, &c.t, &ids, &format!("{} told later with {}", px.txt(), pk.txt()), &hist) {
                return;
            }
            ev(("later", &x, &k.t, &c.t));
            cnt("conclusions of judgements told later", 1);
        }
    }
    cnt("runs with later told judgement", 1);
}

/// knowledge which is only held because of its use, or only because of its certainty, is a partner as well
fn tight(r: &mut Rng) {
    let cap = 3 + r.n(5);
    let mut nar = nar_with(64, cap);
    let mut hist = format!("{} beliefs per concept ", cap);
    let x = inh(nm(r.pick(&["a", "b"])), nm("m"));
    let mut kb = vec![];
    for k in 0..cap + 1 + r.n(2 * cap) {
        let w = inh(nm("s"), nm(&format!("w{}", k)));
        let t = if r.chance(0.9) { st(Cop::Impl, x.clone(), w) } else { st(Cop::Impl, w, x.clone()) };
        // the first ones are less certain
        let c = if k < cap { 0.05 + 0.4 * r.f() } else { 0.5 + 0.4 * r.f() };
        kb.push(told_now(&mut nar, &mut hist, &t, V { f: 1.0, c }));
    }
    let mut q = false;
    nar20_1::NarInputFacade::input(&mut nar, &"!dtf".to_string(), &mut q);
    hist.push_str("!dtf ");
    let sx = told_now(&mut nar, &mut hist, &x, V { f: 1.0, c: 0.3 + 0.6 * r.f() });
    let held = beliefs(&nar.mem);
    for _ in 0..3 {
        hist.push_str("!s ");
        set_input(&hist);
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        drain(&nar.mem);
        if !tasks(&nar.mem).iter().any(|q| q.ids == sx.ids && q.t == sx.t) {
            break;
        }
    }
    if tasks(&nar.mem).iter().any(|q| q.ids == sx.ids && q.t == sx.t) {
        cnt("late judgements not processed in time", 1);
        return;
    }
    let bs = beliefs(&nar.mem);
    let px = Pr { t: sx.t.clone(), p: P::J, v: sx.v };
    for k in &kb {
        let is = |l: &Vec<S>| l.iter().any(|b| b.t == k.t && b.ids == k.ids);
        let (e, u) = held.iter().find(|c| c.name == x).map(|c| (is(&c.by_exp), is(&c.by_use))).unwrap_or((false, false));
        if !e && !u {
            continue;
        }
        let pk = Pr { t: k.t.clone(), p: P::J, v: k.v };
        for c in binary(&px, &pk) {
            // looked up under the whole conclusion, under which nearly nothing is stored
            let con = bs.iter().find(|b| b.name == c.t);
            let n = con.map(|b| b.by_exp.len().max(b.by_use.len())).unwrap_or(0);
            if n >= cap {
                continue;
            }
            if !con.map(|b| b.by_exp.iter().chain(b.by_use.iter()).any(|s| s.t == c.t && (s.ids.contains(&k.ids[0]) || s.ids.contains(&sx.ids[0])))).unwrap_or(false) {
                viol("lost", format!("{} | {} told later with the held {} licenses {} but it isn't held", hist, px.txt(), pk.txt(), c.t.src()));
                return;
            }
            ev(("tight", cap, &k.t, &c.t));
            cnt(if e && u { "partners held for both reasons" } else if e { "partners held for certainty" } else { "partners held for use" }, 1);
        }
    }
}

/// many judgements about the same term
fn crowd(r: &mut Rng) {
    let n = 15 + r.n(34);
    let mut nar = nar_with(64, 4000);
    let mut hist = String::new();
    let kind = r.n(3);
    let mut told = vec![];
    let off = r.n(1000);
    for k in 0..n {
        let o = nm(&format!("w{}", k + off));
        let left = match kind {
            0 => true,
            1 => false,
            _ => r.chance(0.5),
        };
        let t = if left { inh(o, nm("m")) } else { inh(nm("m"), o) };
        told.push(told_now(&mut nar, &mut hist, &t, gv_plain(r)));
    }
    for k in 0..100 {
        let q = tasks(&nar.mem);
        if !told.iter().any(|s| q.iter().any(|x| x.ids == s.ids && x.t == s.t)) {
            break;
        }
        // the told ones are processed first, this keeps the derived ones from exploding
        if k >= n {
            break;
        }
        hist.push_str("!s ");
        set_input(&hist);
        set_what(&hist);
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        drain(&nar.mem);
    }
    let q = tasks(&nar.mem);
    let done: Vec<bool> = told.iter().map(|s| !q.iter().any(|x| x.ids == s.ids && x.t == s.t)).collect();
    let bs = beliefs(&nar.mem);
    let by: std::collections::HashMap<&R, Vec<(&R, &Vec<i64>)>> = bs.iter().map(|c| (&c.name, c.by_exp.iter().map(|b| (&b.t, &b.ids)).collect())).collect();
    for i in 0..n {
        for j in i + 1..n {
            if !done[i] && !done[j] {
                continue;
            }
            let (a, b) = (&told[i], &told[j]);
            let pa = Pr { t: a.t.clone(), p: P::J, v: a.v };
            let pb = Pr { t: b.t.clone(), p: P::J, v: b.v };
            for c in binary(&pa, &pb) {
                let ok = by.get(&c.t).map(|l| l.iter().any(|x| *x.0 == c.t && (x.1.contains(&a.ids[0]) || x.1.contains(&b.ids[0])))).unwrap_or(false);
                if !ok {
                    viol("lost", format!("{} | {} with {} licenses {} but it isn't held", hist, pa.txt(), pb.txt(), c.t.src()));
                    return;
                }
                cnt("conclusions of many partners", 1);
            }
            ev(("crowd", &a.t, &b.t));
        }
    }
    cnt("runs with many partners", 1);
    cnt("judgements processed with many partners", done.iter().filter(|x| **x).count() as u64);
}

fn run(r: &mut Rng, step: bool) {
    let mut g = G::new(&["a", "b", "c"]);
    g.pvar = 0.1;
    g.parens = 2;
    if r.chance(0.3) {
        g.names.push("d".to_string());
    }
    let m = 1 + r.n(if step { 4 } else { 5 });
    let mut kb: Vec<(R, V)> = vec![];
    let mut guard = 0;
    while kb.len() < m && guard < 100 {
        guard += 1;
        let t = one(&g, r);
        if matches!(t, R::St(Cop::Pred, _, _)) || t.complexity() > 40 {
            continue;
        }
        kb.push((t, gv(r)));
    }
    let late = r.n(kb.len() + 1).min(2);
    let mut nar = createNar();
    vh::sys::late_aligned(&mut nar, r);
    let mut hist = String::new();
    let mut known = Known::default();
    let mut told: Vec<S> = vec![];
    let tell = |nar: &mut Nar, hist: &mut String, known: &mut Known, told: &mut Vec<S>, x: &(R, V)| {
        let id = next_id(&nar.mem);
        let s = S { t: x.0.clone(), p: P::J, v: Some(x.1), cnt: None, ids: vec![id], dt: None, used: (0, 0) };
        known.add(&s);
        hist.push_str(&format!("{}. {{{} {}}} #{} ", x.0.src(), x.1.f, x.1.c, id));
        set_input(hist);
        // a pooling at the moment of telling
        inputT(nar, &x.0.t(), P::J.e(), &x.1.t());
        told.push(s);
    };
    let k = kb.len() - late.min(kb.len() - 1);
    for x in &kb[..k] {
        tell(&mut nar, &mut hist, &mut known, &mut told, x);
    }
    let mut rest: Vec<(R, V)> = kb[k..].to_vec();
    // how many cycles: fewer when the content explodes
    let total = if step { 2 + r.n(12) } else { 3 + r.n(40) };
    let mut primary: Vec<i64> = vec![];
    for c in 0..total {
        if !rest.is_empty() && r.chance(0.4) {
            let x = rest.pop().unwrap();
            tell(&mut nar, &mut hist, &mut known, &mut told, &x);
        }
        hist.push_str("!s ");
        set_input(&hist);
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        if step {
            drain(&nar.mem);
            let now = content(&nar.mem);
            let mut new: Vec<S> = vec![];
            for s in now {
                if s.v.is_none() || s.p != P::J {
                    viol("content", format!("{} | memory holds {} without a truth value", hist, s.txt()));
                    return;
                }
                if !known.has(&s) && !new.iter().any(|x| x.t == s.t && x.sorted_ids() == s.sorted_ids() && x.v == s.v) {
                    new.push(s);
                }
            }
            let mut pend: Vec<S> = new;
            let mut changed = true;
            while changed && !pend.is_empty() {
                changed = false;
                let mut left = vec![];
                for s in pend {
                    let lic = known.has_near(&s) || known.licensed(&s);
                    if lic || known.pooled(&s) {
                        ev((&s.t, s.v.map(|x| (x.f.to_bits(), x.c.to_bits()))));
                        cnt(if lic { "licensed conclusions" } else { "pooled beliefs" }, 1);
                        known.add(&s);
                        changed = true;
                    } else {
                        left.push(s);
                    }
                }
                pend = left;
            }
            if let Some(s) = pend.first() {
                viol("unlicensed", format!("{} | {} is neither told nor licensed nor pooled", hist, s.txt()));
                return;
            }
            if known.all.len() > 700 {
                cnt("runs cut because of many conclusions", 1);
                let _ = c;
                break;
            }
        }
    }
    drain(&nar.mem);
    // which told judgements were processed as first premise?
    let queue = tasks(&nar.mem);
    for s in &told {
        if !queue.iter().any(|q| q.ids == s.ids && q.t == s.t) {
            primary.push(s.ids[0]);
        }
    }
    let bs = beliefs(&nar.mem);
    let find = |c: &R, ids: &[i64], why: &str| -> bool {
        if c.complexity() > 64 {
            return true;
        }
        for s in c.usubs() {
            let con = bs.iter().find(|x| x.name == s);
            for which in 0..2 {
                let tab: Vec<&S> = con.map(|x| if which == 0 { x.by_exp.iter() } else { x.by_use.iter() }.collect()).unwrap_or_default();
                if tab.len() >= 20 || bs.len() >= 3000 {
                    continue;
                }
                if !tab.iter().any(|b| b.t == *c && b.ids.iter().any(|i| ids.contains(i))) {
                    viol("lost", format!("{} | {} licenses {} but it isn't found under {}", hist, why, c.src(), s.src()));
                    return false;
                }
                cnt("conclusions looked up", 1);
            }
        }
        true
    };
    for s in &told {
        if primary.contains(&s.ids[0]) {
            let p = Pr { t: s.t.clone(), p: P::J, v: s.v };
            for c in single(&p) {
                if !find(&c.t, &s.ids, &p.txt()) {
                    return;
                }
                ev((&hist, &c.t));
            }
        }
    }
    // only so many partners are considered per term
    let crowded = {
        let g = nar.mem.read();
        let sh = g.shared.read();
        let by = sh.judgementTasksByTerm.read();
        let m = by.values().map(|l| l.len()).max().unwrap_or(0);
        m > 50 || by.values().map(|l| l.len()).sum::<usize>() > 1200
    };
    if crowded {
        cnt("crowded runs, partners not judged", 1);
    }
    for i in 0..told.len() {
        for j in i + 1..told.len() {
            if crowded {
                continue;
            }
            let (a, b) = (&told[i], &told[j]);
            // the later one of both was processed, or both were there when the earlier was processed
            let both_early = j < k;
            if !(primary.contains(&b.ids[0]) || both_early && primary.contains(&a.ids[0])) {
                continue;
            }
            let ub = b.t.usubs();
            if !a.t.usubs().iter().any(|x| ub.contains(x)) {
                continue;
            }
            let pa = Pr { t: a.t.clone(), p: P::J, v: a.v };
            let pb = Pr { t: b.t.clone(), p: P::J, v: b.v };
            for c in binary(&pa, &pb) {
                if !find(&c.t, &[a.ids[0], b.ids[0]], &format!("{} with {}", pa.txt(), pb.txt())) {
                    return;
                }
                ev((&hist, &c.t));
            }
        }
    }
    cnt(if step { "runs observed cycle by cycle" } else { "runs with concurrent derivation" }, 1);
    sample(hist);
}
