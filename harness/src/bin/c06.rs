//! two-premise inference against reference rules
#![allow(non_snake_case)]
use nar20_1::NarWorkingCycle::inference;
use vh::rules::*;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C06", 12.0, 180.0, "pairs of premises built so that rules apply (shared subject/predicate/middle term, implications with matching conditions, conjunctions) plus near misses and unrelated pairs, all punctuations, arbitrary truth values; non-trivial when at least one rule licenses a conclusion; distinct by both premises");
    par(&cfg, 8, 1, |_, r| {
        let mut g = G::new(&["a", "b", "c"]);
        until(cfg.deadline(), || {
            g.pvar = [0.0, 0.1, 0.3][r.n(3)];
            g.pleaf = 0.3 + 0.4 * r.f();
            g.writable = r.chance(0.7);
            for _ in 0..20 {
                let (ta, tb) = pair(&g, r);
                let pa = prem(ta, r);
                let pb = prem(tb, r);
                check(&pa, &pb);
            }
        });
    });
    finish();
}

fn prem(t: R, r: &mut Rng) -> Pr {
    let p = match r.n(12) {
        0 | 1 => P::Q,
        2 => P::G,
        _ => P::J,
    };
    let v = if p == P::Q { None } else { Some(gv(r)) };
    Pr { t, p, v }
}

fn sub(g: &G, r: &mut Rng) -> R {
    let d = 1 + r.n(3);
    g.term(r, d)
}

fn pair(g: &G, r: &mut Rng) -> (R, R) {
    let c0 = *r.pick(&[Cop::Inh, Cop::Inh, Cop::Inh, Cop::Sim, Cop::Pred, Cop::Impl, Cop::Equiv]);
    let c1 = if r.chance(0.7) { c0 } else { *r.pick(&COPS) };
    let (x, y, z) = (sub(g, r), sub(g, r), sub(g, r));
    let (a, b) = match r.n(14) {
        0 | 1 => (st(c0, x.clone(), y), st(c1, x, z)),
        2 | 3 => (st(c0, y, x.clone()), st(c1, z, x)),
        4 | 5 => (st(c0, x, y.clone()), st(c1, y, z)),
        6 => (st(c0, x.clone(), y.clone()), st(c1, y, x)),
        7 => {
            let n = if g.writable { 1 } else { 1 + r.n(2) };
            (inh(x.clone(), R::SInt((0..n).map(|_| sub(g, r)).collect())), inh(x, R::SInt((0..n).map(|_| sub(g, r)).collect())))
        }
        8 | 9 => {
            // implication and an instance of its condition
            let d = 2 + r.n(2);
            let cond = g.term(r, d);
            let (inst, m) = g.ground(r, &cond, 2);
            let pred = if r.chance(0.5) && !m.is_empty() { inh(m[0].0.clone(), y) } else { y };
            let inst = if r.chance(0.2) { g.mutate(r, &inst) } else { inst };
            (st(if r.chance(0.85) { Cop::Impl } else { *r.pick(&COPS) }, cond, pred), inst)
        }
        10 | 11 => {
            let n = 2 + r.n(3);
            let parts: Vec<R> = (0..n).map(|_| g.stmt(r, 2)).collect();
            let k = r.n(n);
            let (inst, _) = g.ground(r, &parts[k], 2);
            let inst = if r.chance(0.2) { g.mutate(r, &inst) } else { inst };
            (st(if r.chance(0.85) { Cop::Impl } else { Cop::Pred }, R::Conj(parts), y), inst)
        }
        12 => {
            let cons = g.stmt(r, 3);
            let (inst, _) = g.ground(r, &cons, 2);
            (st(Cop::Impl, x, cons), inst)
        }
        _ => (sub(g, r), sub(g, r)),
    };
    if r.chance(0.5) {
        (a, b)
    } else {
        (b, a)
    }
}

fn check(a: &Pr, b: &Pr) {
    let want = binary(a, b);
    let txt = format!("{}   {}", a.txt(), b.txt());
    set_input(&txt);
    if want.is_empty() {
        ev_trivial();
    } else {
        ev(&txt);
        for w in &want {
            cnt(w.rule, 1);
        }
        if want.len() > 3 {
            sample(txt.clone());
        }
    }
    guarded(|| {
        let sa = sentence(&a.t, a.p, a.v, &[1, 2]);
        let sb = sentence(&b.t, b.p, b.v, &[3]);
        let mut applied = false;
        for rev in [false, true] {
            let res = if rev { inference(&sb, &sa, &mut applied) } else { inference(&sa, &sb, &mut applied) };
            let got: Vec<S> = res.iter().map(|x| s_of(&x.0)).collect();
            for w in &want {
                if !got.iter().any(|s| s.t == w.t && s.p == P::J && s.v.map(|x| x.near(&w.v)) == Some(true)) {
                    let same: Vec<String> = got.iter().filter(|s| s.t == w.t).map(|s| s.txt()).collect();
                    viol(w.rule, format!("premises {} | rule {} licenses {} {:?}, got for this term: {:?} (premises swapped: {})", txt, w.rule, w.t.src(), w.v, same, rev));
                }
            }
            for s in &got {
                if !want.iter().any(|w| s.t == w.t && s.p == P::J && s.v.map(|x| x.near(&w.v)) == Some(true)) {
                    viol("unlicensed", format!("premises {} | conclusion {} is not licensed (premises swapped: {})", txt, s.txt(), rev));
                }
                let mut ids = s.sorted_ids();
                ids.dedup();
                if ids != vec![1, 2, 3] {
                    viol("evidence", format!("premises {} | conclusion {} doesn't carry the evidence of both", txt, s.txt()));
                }
            }
        }
    });
}
