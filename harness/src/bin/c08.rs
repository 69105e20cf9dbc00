//! no piece of evidence is counted twice
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarInfProcedural::infGoalBelief;
use nar20_1::NarStamp::*;
use nar20_1::NarWorkingCycle::{infSinglePremise2, inference, memAddTask};
use std::collections::BTreeSet;
use std::sync::Arc;
use vh::rules::*;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C08", 13.0, 200.0, "evidence bases are random sets of inputs, often sharing one input, up to the limit of 120; every input has a fixed amount of evidence, so the evidence of every stored sentence can be recomputed from the inputs it lists; stamp functions, inference, telling with given evidence bases, pooling of procedural evidence, and live runs with concurrent telling, cycles and derivation are watched; distinct by bases and outcome");
    assume("told inputs are identified by the numbers the system gives them");
    par(&cfg, 8, 8, |i, r| {
        until(cfg.deadline(), || match i {
            0 => {
                for _ in 0..20 {
                    stamps(r)
                }
            }
            1 => {
                for _ in 0..20 {
                    premises(r)
                }
            }
            2 | 3 => ledger(r),
            4 | 5 => procedural(r),
            _ => live(r),
        })
    });
    finish();
}

fn base(r: &mut Rng, max: usize, pool: i64) -> Vec<i64> {
    let n = match r.n(5) {
        0 => 1,
        1 => 2,
        2 => max.min(60),
        _ => 1 + r.n(max),
    };
    let mut s: Vec<i64> = vec![];
    let mut guard = 0;
    while s.len() < n && guard < 1000 {
        guard += 1;
        let x = r.range(0, pool - 1);
        if !s.contains(&x) {
            s.push(x);
        }
    }
    s
}

/// two bases: disjoint, or sharing exactly a few inputs at random places
fn two(r: &mut Rng) -> (Vec<i64>, Vec<i64>, usize) {
    let a = base(r, 60, 100_000);
    let mut b = base(r, 60, 100_000);
    b.retain(|x| !a.contains(x));
    if b.is_empty() {
        b.push(200_000);
    }
    let mut shared = 0;
    if r.chance(0.5) {
        shared = 1 + r.n(2).min(a.len() - 1);
        let mut k = a.clone();
        r.shuffle(&mut k);
        for x in k.iter().take(shared) {
            let at = r.n(b.len() + 1);
            if r.chance(0.5) && b.len() > 0 && !a.contains(&b[at.min(b.len() - 1)]) {
                let at = at.min(b.len() - 1);
                b[at] = *x;
            } else if b.len() < 60 {
                b.insert(at, *x);
            } else {
                let at = at.min(b.len() - 1);
                b[at] = *x;
            }
        }
        shared = b.iter().filter(|x| a.contains(x)).count();
    }
    (a, b, shared)
}

/// up to the longest, sharing at most one input at any place
fn two_long(r: &mut Rng) -> (Vec<i64>, Vec<i64>, usize) {
    let (x, y) = (1 + r.n(120), if r.chance(0.5) { 121 - 1 - r.n(20) } else { 1 + r.n(120) });
    let mut ids: Vec<i64> = vec![];
    let mut at = r.range(0, 1000);
    for _ in 0..x + y {
        at += 1 + r.n(50) as i64;
        ids.push(at);
    }
    r.shuffle(&mut ids);
    let a = ids[..x].to_vec();
    let mut b = ids[x..].to_vec();
    let mut shared = 0;
    if r.chance(0.6) {
        shared = 1;
        let at = if r.chance(0.4) { y - 1 } else { r.n(y) };
        b[at] = if r.chance(0.4) { a[x - 1] } else { a[r.n(x)] };
    }
    if r.chance(0.5) {
        (a, b, shared)
    } else {
        (b, a, shared)
    }
}

fn sorted(v: &[i64]) -> Vec<i64> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn stamps(r: &mut Rng) {
    let (a, b, shared) = if r.chance(0.3) { two_long(r) } else { two(r) };
    set_input(&format!("{:?} {:?}", a, b));
    let (sa, sb) = (newStamp(&a), newStamp(&b));
    let _ = guarded(|| {
        if sa.ids != a {
            viol("stamp", format!("new evidence base of {:?} is {:?}", a, sa.ids));
        }
        if checkOverlap(&sa, &sb) != (shared > 0) || checkOverlap(&sb, &sa) != (shared > 0) {
            viol("overlap", format!("{:?} and {:?} share {} inputs, overlap test says {}", a, b, shared, checkOverlap(&sa, &sb)));
        }
        let m = merge(&sa, &sb);
        let mut w = a.clone();
        w.extend(&b);
        if shared == 0 && w.len() <= 120 && sorted(&m.ids) != sorted(&w) {
            viol("merge", format!("merging {:?} and {:?} gives {:?}", a, b, m.ids));
        }
        if (checkSame(&sa, &sb) && sorted(&a) != sorted(&b)) || !checkSame(&sa, &newStamp(&a)) {
            viol("same", format!("{:?} {:?}", a, b));
        }
        // beyond the limit: only inputs of the two, no more than 120
        let mut big = base(r, 119, 100_000);
        while big.len() < 100 {
            let x = r.range(300_000, 400_000);
            if !big.contains(&x) {
                big.push(x);
            }
        }
        big.retain(|x| !a.contains(x));
        let m = merge(&newStamp(&big), &sa);
        if m.ids.len() != (big.len() + a.len()).min(120) || m.ids.iter().collect::<BTreeSet<_>>().len() != m.ids.len() || m.ids.iter().any(|x| !a.contains(x) && !big.contains(x)) {
            viol("merge", format!("merging {} and {} inputs: {:?}", big.len(), a.len(), m.ids));
        }
    });
    ev(("stamp", a, b, shared > 0));
    cnt(if shared > 0 { "overlapping bases" } else { "disjoint bases" }, 1);
}

/// premises which rules apply to
fn premises(r: &mut Rng) {
    let g = G::new(&["a", "b", "c"]).novar();
    let n = |r: &mut Rng| nm(r.pick(&g.names));
    let (ta, tb) = match r.n(6) {
        0 => {
            let (x, y, z) = (n(r), n(r), n(r));
            (inh(x, y.clone()), inh(y, z))
        }
        1 => {
            let (x, y, z) = (n(r), n(r), n(r));
            (inh(x.clone(), y), inh(x, z))
        }
        2 => {
            let (x, y) = (inh(n(r), n(r)), inh(n(r), n(r)));
            (st(Cop::Impl, x.clone(), y), x)
        }
        3 => {
            let (x, y, z) = (n(r), n(r), n(r));
            (st(Cop::Sim, x.clone(), y), st(Cop::Sim, x, z))
        }
        4 => {
            let (x, y, z) = (n(r), n(r), n(r));
            (inh(x.clone(), R::SInt(vec![y])), inh(x, R::SInt(vec![z])))
        }
        _ => {
            let c = *r.pick(&[Cop::Impl, Cop::Pred]);
            let (x, y, z) = (n(r), n(r), n(r));
            (st(c, x, y.clone()), st(c, y, z))
        }
    };
    let (va, vb) = (gv_plain(r), gv_plain(r));
    let (a, b, shared) = two(r);
    let (sa, sb) = (sentence(&ta, P::J, Some(va), &a), sentence(&tb, P::J, Some(vb), &b));
    let want = binary(&Pr { t: ta.clone(), p: P::J, v: Some(va) }, &Pr { t: tb.clone(), p: P::J, v: Some(vb) }).len();
    set_input(&format!("{} {:?} with {} {:?}", ta.src(), a, tb.src(), b));
    for k in 0..2 {
        let mut flag = false;
        let res = match guarded(|| if k == 0 { inference(&sa, &sb, &mut flag) } else { inference(&sb, &sa, &mut flag) }) {
            Some(x) => x,
            None => return,
        };
        if shared > 0 && !res.is_empty() {
            viol("inference-overlap", format!("{} {:?} and {} {:?} share inputs but give {:?}", ta.src(), a, tb.src(), b, res.iter().map(|x| s_of(&x.0).txt()).collect::<Vec<_>>()));
        }
        if shared == 0 {
            if res.is_empty() && want > 0 {
                viol("inference-lost", format!("{} {:?} and {} {:?} are independent but give nothing", ta.src(), a, tb.src(), b));
            }
            let mut w = a.clone();
            w.extend(&b);
            for (c, _) in &res {
                if sorted(&c.stamp.ids) != sorted(&w) {
                    viol("inference-evidence", format!("{} {:?} and {} {:?} give {}", ta.src(), a, tb.src(), b, s_of(c).txt()));
                }
            }
            cnt("conclusions of independent premises", res.len() as u64);
        }
    }
    // one premise
    let t1 = match r.n(3) {
        0 => neg(ta.clone()),
        1 => inh(R::Prod(vec![n(r), n(r)]), n(r)),
        _ => inh(R::IInt(vec![n(r), n(r)]), n(r)),
    };
    if let Some(res) = guarded(|| infSinglePremise2(&sentence(&t1, P::J, Some(va), &a))) {
        if res.is_empty() {
            viol("single-lost", t1.src());
        }
        for (c, _) in res {
            if sorted(&c.stamp.ids) != sorted(&a) {
                viol("single-evidence", format!("{} {:?} gives {}", t1.src(), a, s_of(&c).txt()));
            }
        }
    }
    // goal and temporal knowledge
    let gt = n(r);
    let bt = st(Cop::Pred, R::Seq(vec![n(r), op("^o", vec![selfr()])]), gt.clone());
    let goal = sentence(&gt, P::G, Some(va), &a);
    let bel = sentence_cnt(&bt, 5, 6, None, &b);
    if let Some(res) = guarded(|| infGoalBelief(&goal, &bel)) {
        match res {
            Some(c) => {
                let mut w = a.clone();
                w.extend(&b);
                if shared > 0 {
                    viol("goal-overlap", format!("goal {:?} and knowledge {:?} share inputs, derived {}", a, b, s_of(&c).txt()));
                } else if sorted(&c.stamp.ids) != sorted(&w) {
                    viol("goal-evidence", format!("goal {:?} and knowledge {:?} derived {}", a, b, s_of(&c).txt()));
                }
            }
            None => {
                if shared == 0 {
                    viol("goal-lost", format!("goal {:?} and knowledge {:?} derived nothing", a, b));
                }
            }
        }
    }
    ev((ta, tb, a.len(), b.len(), shared));
}

/// sentences with given evidence bases are added to the memory; each input stands for a fixed amount of evidence for each statement
fn ledger(r: &mut Rng) {
    let terms: Vec<R> = match r.n(3) {
        0 => vec![inh(nm("a"), nm("b"))],
        1 => vec![inh(nm("a"), nm("b")), inh(nm("b"), nm("a"))],
        _ => vec![inh(nm("a"), nm("b")), inh(inh(nm("a"), nm("b")), nm("c")), nm("a")],
    };
    let pool = *r.pick(&[6i64, 12, 40, 119]);
    let w: Vec<Vec<(f64, f64)>> = terms.iter().map(|_| (0..pool).map(|_| (0.05 + 3.0 * r.f(), r.range(0, 4) as f64 / 4.0)).collect()).collect();
    let tv_of = |ti: usize, ids: &[i64]| {
        let tot: f64 = ids.iter().map(|i| w[ti][*i as usize].0).sum();
        let pos: f64 = ids.iter().map(|i| w[ti][*i as usize].0 * w[ti][*i as usize].1).sum();
        v(pos / tot, w2c(tot))
    };
    let nar = createNar();
    let shared = Arc::clone(&nar.mem.read().shared);
    let steps = 3 + r.n(25);
    let maxb = *r.pick(&[1usize, 2, 4, 30]);
    let mut hist = String::new();
    let mut told: Vec<(usize, Vec<i64>)> = vec![];
    for k in 0..steps {
        let ti = r.n(terms.len());
        let ids = base(r, maxb.min(pool as usize), pool);
        let tv = tv_of(ti, &ids);
        hist.push_str(&format!("{} {:?}; ", terms[ti].src(), ids));
        set_input(&hist);
        let s = sentence(&terms[ti], P::J, Some(tv), &ids);
        if guarded(|| memAddTask(Arc::clone(&shared), &s, true, 64, 20, 1.0, k as i64)).is_none() {
            return;
        }
        told.push((ti, sorted(&ids)));
        for s in content(&nar.mem) {
            let ti = match terms.iter().position(|t| *t == s.t) {
                Some(x) => x,
                None => {
                    viol("foreign", format!("{} | {}", hist, s.txt()));
                    return;
                }
            };
            let ids = s.sorted_ids();
            let mut d = ids.clone();
            d.dedup();
            if d.len() != ids.len() {
                viol("twice", format!("{} | {} lists an input twice", hist, s.txt()));
                return;
            }
            if ids.iter().any(|x| *x < 0 || *x >= pool) {
                viol("untold", format!("{} | {}", hist, s.txt()));
                return;
            }
            let want = tv_of(ti, &ids);
            let have = s.v.unwrap_or(v(-1.0, -1.0));
            if (want.f - have.f).abs() > 1e-7 || (want.c - have.c).abs() > 1e-7 {
                viol("evidence", format!("{} | {} but its inputs hold {:?}", hist, s.txt(), want));
                return;
            }
            // the base must be a union of disjoint told bases
            if ids.len() <= 40 && !union(&ids, &told.iter().filter(|x| x.0 == ti).map(|x| x.1.clone()).collect::<Vec<_>>(), 8) {
                viol("base", format!("{} | {} is no union of independent bases", hist, s.txt()));
                return;
            }
            cnt("stored sentences recomputed", 1);
        }
        ev(("ledger", &hist));
    }
    // no two beliefs about the same statement in the same table may be left which could have been pooled: checked by C09
    sample(hist);
}

fn union(ids: &[i64], told: &[Vec<i64>], depth: usize) -> bool {
    if ids.is_empty() {
        return true;
    }
    if depth == 0 {
        return true; // not decided
    }
    told.iter().any(|b| {
        b.contains(&ids[0]) && b.iter().all(|x| ids.contains(x)) && {
            let rest: Vec<i64> = ids.iter().filter(|x| !b.contains(x)).cloned().collect();
            union(&rest, told, depth - 1)
        }
    })
}

/// pooling of counted evidence by the storage thread
fn procedural(r: &mut Rng) {
    let nar = nar20_1::NarProc::narInit();
    let g = G::new(&["a", "b", "c"]).novar();
    let o = op("^o", vec![selfr()]);
    let nterm = 1 + r.n(3);
    let mut terms: Vec<R> = vec![];
    while terms.len() < nterm {
        let d1 = 1 + r.n(3);
        let x = g.term(r, d1);
        let y = g.term(r, 1);
        let t = st(Cop::Pred, R::Seq(vec![x, o.clone()]), y);
        if !terms.contains(&t) {
            terms.push(t);
        }
    }
    let pool = *r.pick(&[8i64, 20, 119]);
    let w: Vec<(i64, i64)> = (0..pool)
        .map(|_| {
            let c = r.range(1, 4);
            (r.range(0, c), c)
        })
        .collect();
    let sum = |ids: &[i64]| ids.iter().fold((0i64, 0i64), |s, i| (s.0 + w[*i as usize].0, s.1 + w[*i as usize].1));
    let mut hist = String::new();
    let steps = 2 + r.n(20);
    let same = r.chance(0.5);
    for k in 0..steps {
        let t = r.pick(&terms).clone();
        let ids = base(r, 3, pool);
        let (p, c) = sum(&ids);
        let dt = if same { Some(2) } else { *r.pick(&[None, Some(0), Some(1), Some(3)]) };
        hist.push_str(&format!("{} {:?} {:?} {}/{}; ", t.src(), ids, dt, p, c));
        set_input(&hist);
        set_what(&hist);
        let s = sentence_cnt(&t, p, c, dt, &ids);
        if nar.storeWorkersTx[0].send((s, k as i64)).is_err() {
            viol("worker-dead", hist.clone());
            return;
        }
        drain_store(&nar, k as i64);
        if stop_requested() {
            return;
        }
        for c in beliefs_of(&nar.evidenceMem.read()) {
            for s in c.by_exp.iter().chain(c.by_use.iter()) {
                let ids = s.sorted_ids();
                let mut d = ids.clone();
                d.dedup();
                if d.len() != ids.len() {
                    viol("twice", format!("{} | {}", hist, s.txt()));
                    return;
                }
                if ids.iter().any(|x| *x < 0 || *x >= pool) {
                    viol("untold", format!("{} | {}", hist, s.txt()));
                    return;
                }
                if s.cnt != Some(sum(&ids)) {
                    viol("count", format!("{} | {} but its inputs hold {:?}", hist, s.txt(), sum(&ids)));
                    return;
                }
                cnt("procedural evidence recomputed", 1);
            }
        }
        ev(("procedural", &hist));
    }
}

/// live system: telling from two threads while it reasons
fn live(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let g = G::new(&["a", "b", "c", "d"]).novar();
    let shared = Arc::clone(&nar.mem.read().shared);
    let n = 4 + r.n(8);
    let mut lines: Vec<String> = vec![];
    for _ in 0..n {
        let t = match r.n(4) {
            0 => st(Cop::Sim, g.leaf(r), g.leaf(r)),
            1 => st(Cop::Impl, inh(g.leaf(r), g.leaf(r)), inh(g.leaf(r), g.leaf(r))),
            _ => inh(g.leaf(r), g.leaf(r)),
        };
        let tv = gv_plain(r);
        lines.push(format!("{}. {{{} {}}}", t.src(), tv.f, tv.c));
    }
    set_input(&lines.join(" "));
    set_what(&lines.join(" "));
    // another thread adds evidence of its own
    let extra: Vec<(R, V)> = (0..6).map(|_| (inh(g.leaf(r), g.leaf(r)), gv_plain(r))).collect();
    let sh2 = Arc::clone(&shared);
    let h = std::thread::spawn(move || {
        for (t, tv) in extra {
            let id = sh2.read().stampIdCounter.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let s = sentence(&t, P::J, Some(tv), &[id]);
            memAddTask(Arc::clone(&sh2), &s, true, 64, 20, 1.0, 0);
            std::thread::yield_now();
        }
    });
    let cycles = 10 + r.n(60);
    let mut li = 0;
    for c in 0..cycles {
        if li < lines.len() && r.chance(0.4) {
            if guarded(|| inputN(&mut nar, &lines[li])).is_none() {
                return;
            }
            li += 1;
        }
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        if c % 10 == 9 {
            look(&nar, &lines);
        }
        tick();
    }
    let _ = h.join();
    drain(&nar.mem);
    look(&nar, &lines);
}

fn look(nar: &Nar, lines: &[String]) {
    let cont = content(&nar.mem);
    // inputs are numbered before they are used
    let nid = next_id(&nar.mem);
    for s in cont {
        let mut ids = s.sorted_ids();
        let k = ids.len();
        ids.dedup();
        if ids.len() != k && k < 120 {
            viol("live-twice", format!("{:?} | {}", lines, s.txt()));
            return;
        }
        if ids.iter().any(|x| *x < 0 || *x >= nid) {
            viol("live-untold", format!("{:?} | {}", lines, s.txt()));
            return;
        }
        if k > 1 {
            ev((&s.t, ids));
        } else {
            ev_trivial();
        }
        cnt("sentences watched in live runs", 1);
    }
}
