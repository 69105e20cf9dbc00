//! C22: generalised temporal knowledge is a faithful abstraction
use nar20_1::Nar::*;
use nar20_1::NarInfProcedural::{matchandintro_var1, matchandintro_var1_sentence};
use nar20_1::NarMem;
use nar20_1::NarProc::mem_add_evidence;
use parking_lot::RwLock;
use std::collections::HashMap;
use std::sync::Arc;
use vh::rules::P;
use vh::sys::*;
use vh::*;

/// occurrences, the relation of an image is not looked into
fn count(t: &R, s: &R) -> usize {
    if t == s {
        return 1;
    }
    match t {
        R::Img(_, _, v) => v.iter().map(|x| count(x, s)).sum(),
        t => t.kids().iter().map(|x| count(x, s)).sum(),
    }
}
fn replace(t: &R, s: &R, w: &R) -> R {
    if t == s {
        return w.clone();
    }
    match t {
        R::Img(rel, i, v) => R::Img(rel.clone(), *i, v.iter().map(|x| replace(x, s, w)).collect()),
        t => t.map_kids(&mut |x| replace(x, s, w)),
    }
}
/// the subject which is generalised
fn subject(t: &R) -> Option<R> {
    if let R::St(Cop::Pred, a, _) = t {
        if let R::Seq(v) = &**a {
            if v.len() == 2 {
                if let R::St(Cop::Inh, s, p) = &v[0] {
                    if matches!(**p, R::SInt(_)) && count(t, s) >= 2 {
                        return Some((**s).clone());
                    }
                }
            }
        }
    }
    None
}
/// the new variable, if b is a with the subject replaced
fn var_of(a: &R, b: &R, s: &R) -> Option<R> {
    let mut cand: Vec<R> = b.subs().into_iter().filter(|x| x.is_var()).collect();
    cand.sort();
    cand.dedup();
    let old = a.subs();
    cand.into_iter().find(|x| matches!(x, R::I(_)) && !old.contains(x) && replace(a, s, x) == *b)
}

fn gen(r: &mut Rng, writable: bool) -> R {
    let mut g = G::new(&["a", "b", "c", "d"]);
    g.writable = writable;
    g.pvar = if r.chance(0.5) { 0.0 } else { 0.2 };
    g.img = r.chance(0.3);
    g.parens = 3;
    let s = match r.n(6) {
        0 => R::SExt(vec![nm("a")]),
        1 => g.term(r, 3),
        2 => R::Prod(vec![nm("a"), nm("b")]),
        3 if r.chance(0.5) => R::I("x".into()),
        _ => nm("a"),
    };
    let place = |r: &mut Rng, s: &R| {
        // somewhere inside
        match r.n(13) {
            0 => s.clone(),
            1 => inh(s.clone(), R::SInt(vec![nm("b")])),
            2 => op("^o", vec![selfr(), s.clone()]),
            3 => inh(R::Prod(vec![nm("c"), s.clone()]), nm("r")),
            4 => st(Cop::Sim, nm("b"), s.clone()),
            5 => R::Neg(Box::new(inh(s.clone(), nm("b")))),
            6 => R::Conj(vec![inh(s.clone(), nm("b")), nm("c")]),
            7 => inh(R::SExt(vec![s.clone()]), R::SInt(vec![s.clone()])),
            8 => R::IInt(vec![nm("b"), s.clone()]),
            9 => R::EInt(vec![s.clone(), nm("b")]),
            10 => inh(R::Img(Box::new(nm("r")), r.n(2), vec![s.clone()]), nm("d")),
            11 => R::Seq(vec![s.clone(), nm("d")]),
            _ => inh(nm("c"), nm("d")),
        }
    };
    let p = match r.n(8) {
        0 => nm("p"),
        1 => R::SExt(vec![nm("p")]),
        2 => R::SInt(vec![s.clone()]),
        _ => R::SInt(vec![nm("p")]),
    };
    let cop = if r.chance(0.9) { Cop::Inh } else { *r.pick(&COPS) };
    let first = if r.chance(0.93) { st(cop, s.clone(), p) } else { g.term(r, 3) };
    let mut sq = vec![first];
    let n = if r.chance(0.85) { 1 } else { r.n(3) };
    for _ in 0..n {
        sq.push(if r.chance(0.8) { place(r, &s) } else { g.term(r, 3) });
    }
    if sq.len() == 1 && writable {
        sq.push(nm("d"));
    }
    let subj = if r.chance(0.95) { R::Seq(sq) } else { sq.pop().unwrap() };
    let pred = if r.chance(0.8) { place(r, &s) } else { g.term(r, 3) };
    let cop2 = if r.chance(0.97) || writable { Cop::Pred } else { *r.pick(&COPS) };
    st(cop2, subj, pred)
}

fn judge(r: &mut Rng) {
    let t = gen(r, false);
    let want = subject(&t);
    set_input(&t.src());
    let tt = t.t();
    let got: Vec<R> = match guarded(|| matchandintro_var1(&tt, &mut rand::thread_rng())) {
        Some(g) => g.iter().map(R::of).collect(),
        None => return,
    };
    let ok = match &want {
        None => got.is_empty(),
        Some(s) => got.len() == 1 && var_of(&t, &got[0], s).is_some(),
    };
    if !ok {
        viol("variant", format!("{} | generalised to {:?}, subject to generalise: {:?}", t.src(), got.iter().map(|x| x.src()).collect::<Vec<_>>(), want.map(|x| x.src())));
        return;
    }
    match want {
        Some(s) => {
            cnt("generalised statements", 1);
            // fresh: two generalisations never share the variable
            let again: Vec<R> = matchandintro_var1(&tt, &mut rand::thread_rng()).iter().map(R::of).collect();
            if again.len() != 1 || var_of(&t, &again[0], &s) == var_of(&t, &got[0], &s) {
                viol("fresh", format!("{} | the same variable again: {:?} and {:?}", t.src(), got[0].src(), again.iter().map(|x| x.src()).collect::<Vec<_>>()));
                return;
            }
            ev(&t);
            if matches!(t, R::St(Cop::Pred, _, _)) {
                let se = sentence_cnt(&t, 3, 4, Some(2), &[4, 9]);
                let ss = matchandintro_var1_sentence(&se, &mut rand::thread_rng());
                let bad = ss.len() != 1 || {
                    let x = s_of(&ss[0]);
                    x.cnt != Some((3, 4)) || x.dt != Some(2) || x.ids != vec![4, 9] || x.p != P::J || var_of(&t, &x.t, &s).is_none()
                };
                if bad {
                    viol("sentence", format!("{} | generalised sentences {:?}", t.src(), ss.iter().map(|x| s_of(x).txt()).collect::<Vec<_>>()));
                }
            }
        }
        None => {
            cnt("statements which must not be generalised", 1);
            ev_trivial();
        }
    }
}

/// what is in memory after storing
fn stored_terms(m: &NarMem::Mem) -> HashMap<R, Vec<S>> {
    let mut h: HashMap<R, Vec<S>> = HashMap::new();
    for c in beliefs_of(m) {
        for s in c.by_exp.into_iter().chain(c.by_use.into_iter()) {
            h.entry(s.t.clone()).or_default().push(s);
        }
    }
    h
}

fn check_mem(m: &NarMem::Mem, told: &[(R, Option<(i64, i64)>, Option<i64>, Option<Vec<i64>>)], info: &str) -> bool {
    let h = stored_terms(m);
    let mut used: Vec<&R> = vec![];
    for (t, c, dt, ids) in told {
        let ids = ids.clone().or_else(|| h.get(t).map(|v| v[0].ids.clone()));
        let fits = |s: &S| s.cnt == *c && s.dt == *dt && ids.as_ref().map(|i| *i == s.ids).unwrap_or(true);
        match h.get(t) {
            Some(v) if v.iter().any(fits) => {
                used.push(h.get_key_value(t).unwrap().0);
            }
            x => {
                viol("stored", format!("{} | {} is stored as {:?}", info, t.src(), x.map(|v| v.iter().map(|s| s.txt()).collect::<Vec<_>>())));
                return false;
            }
        }
        if let Some(s) = subject(t) {
            // all copies of it are the same
            let vs: Vec<&R> = h.keys().filter(|k| var_of(t, k, &s).is_some()).collect();
            let good = vs.iter().find(|k| h[**k].iter().all(|x| fits(x)));
            match good {
                Some(k) => {
                    used.push(k);
                    // found under what it mentions
                    let mut names: Vec<R> = vec![];
                    if let R::St(_, a, b) = k {
                        if let R::Seq(v) = &**a {
                            names.extend(v[0].usubs());
                        }
                        names.extend(b.usubs());
                    }
                    for c in beliefs_of(m) {
                        if names.contains(&c.name) && !c.by_exp.iter().any(|x| x.t == **k) {
                            viol("stored", format!("{} | variant {} is not found under {}", info, k.src(), c.name.src()));
                            return false;
                        }
                    }
                    cnt("stored variants", 1);
                    ev(("stored", t, c, dt));
                }
                None => {
                    viol("stored", format!("{} | no variant of {} with evidence {:?} interval {:?} is stored, stored are {:?}", info, t.src(), c, dt, h.values().flatten().map(|s| s.txt()).collect::<Vec<_>>()));
                    return false;
                }
            }
        }
    }
    for k in h.keys() {
        if !used.contains(&k) {
            viol("invented", format!("{} | stored {} without reason", info, h[k][0].txt()));
            return false;
        }
    }
    true
}

fn store(r: &mut Rng) {
    let mem = Arc::new(RwLock::new(NarMem::make()));
    let mut told = vec![];
    let n = 1 + r.n(3);
    let mut id = 10;
    for _ in 0..n {
        let mut t = gen(r, false);
        if let R::St(c, _, _) = &mut t {
            *c = Cop::Pred;
        }
        if told.iter().any(|x: &(R, Option<(i64, i64)>, Option<i64>, Option<Vec<i64>>)| x.0 == t) {
            continue;
        }
        if matches!(&t, R::St(_, a, _) if matches!(&**a, R::Seq(v) if v.is_empty())) {
            continue;
        }
        let c = 1 + r.n(9) as i64;
        let p = r.n(c as usize + 1) as i64;
        let dt = if r.chance(0.3) { None } else { Some(r.n(9) as i64) };
        id += 3;
        let ids = vec![id, id + 1];
        let s = sentence_cnt(&t, p, c, dt, &ids);
        told.push((t, Some((p, c)), dt, Some(ids)));
        let info = format!("{:?}", told.iter().map(|x| x.0.src()).collect::<Vec<_>>());
        set_input(&info);
        if guarded(|| mem_add_evidence(Arc::clone(&mem), &s, 100, 0, &mut rand::thread_rng())).is_none() {
            return;
        }
        if !check_mem(&mem.read(), &told, &info) {
            return;
        }
    }
    cnt("memories compared", 1);
}

fn through_nar(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.cfgVerbosityInput = 0;
    let mut told = vec![];
    for _ in 0..1 + r.n(4) {
        let t = gen(r, true);
        if !t.writable() || t.depth() > 20 || told.iter().any(|x: &(R, Option<(i64, i64)>, Option<i64>, Option<Vec<i64>>)| x.0 == t) {
            continue;
        }
        let line = format!("{}.", t.src());
        set_input(&line);
        set_what(&line);
        match guarded(|| inputN(&mut nar, &line)) {
            Some(true) => {}
            Some(false) => {
                cnt("not readable", 1);
                continue;
            }
            None => return,
        }
        told.push((t, Some((10, 10)), None, None));
        let info = format!("told {:?}", told.iter().map(|x| x.0.src()).collect::<Vec<_>>());
        if !check_mem(&nar.procNar.evidenceMem.read(), &told, &info) {
            return;
        }
        cnt("told temporal knowledge compared", 1);
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

fn main() {
    let cfg = init("C22", 7.0, 90.0, "one evaluation per temporal statement compared with the reference generalisation, directly and as stored in memory; distinct by statement and evidence");
    assume("the relation of an image is not looked into for occurrences");
    let dl = cfg.deadline();
    par(&cfg, 6, 22, |_i, r| {
        until(dl, || {
            for _ in 0..50 {
                judge(r);
            }
            for _ in 0..5 {
                store(r);
            }
            if r.chance(0.2) {
                through_nar(r);
            }
        });
    });
    sample(get_input());
    finish();
}
