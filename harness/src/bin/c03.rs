//! matching and substitution against a reference
#![allow(non_snake_case)]
use nar20_1::NarUnify::{unify, unifySubst, Asgnment};
use vh::*;

fn main() {
    let cfg = init("C03", 10.0, 150.0, "pairs of terms: instances of a pattern, near misses (one place of an instance changed), abstractions of a term, and unrelated pairs; non-trivial when the pattern contains a variable or the pair differs in one place; distinct by both terms");
    par(&cfg, 8, 1, |_, r| {
        let mut g = G::new(&["a", "b", "c"]).any();
        until(cfg.deadline(), || {
            g.pleaf = 0.1 + r.f() * 0.4;
            g.pvar = [0.0, 0.2, 0.5][r.n(3)];
            g.vars = if r.chance(0.5) { strs(&["x"]) } else { strs(&["x", "y", "z"]) };
            let depth = 2 + r.n(4);
            let p = g.term(r, depth);
            let d2 = 1 + r.n(3);
            let (inst, _) = g.ground(r, &p, d2);
            one(&p, &inst);
            let near = g.mutate(r, &inst);
            one(&p, &near);
            let t = g.term(r, depth);
            let ab = g.abstr(r, &t);
            one(&ab, &t);
            one(&p, &t);
            one(&p, &p);
            subst(&p, &g, r);
        });
    });
    // all twelve compounds: repeated variable must bind consistently
    let (a, b, x) = (nm("a"), nm("b"), R::D("x".into()));
    let mk: Vec<fn(Vec<R>) -> R> = vec![
        |v| R::Seq(v), |v| R::Conj(v), |v| R::Prod(v), |v| R::IInt(v), |v| R::EInt(v), |v| R::Par(v), |v| R::SInt(v), |v| R::SExt(v),
        |v| img(v[0].clone(), 0, v[1].clone()), |v| img(v[0].clone(), 1, v[1].clone()),
        |v| st(Cop::Inh, v[0].clone(), v[1].clone()), |v| st(Cop::Sim, v[0].clone(), v[1].clone()), |v| st(Cop::Impl, v[0].clone(), v[1].clone()),
        |v| st(Cop::Pred, v[0].clone(), v[1].clone()), |v| st(Cop::Equiv, v[0].clone(), v[1].clone()), |v| R::Seq(vec![neg(v[0].clone()), neg(v[1].clone())]),
    ];
    for f in &mk {
        for g in &mk {
            one(&g(vec![f(vec![x.clone(), x.clone()]), a.clone()]), &g(vec![f(vec![a.clone(), b.clone()]), a.clone()]));
            one(&g(vec![f(vec![x.clone(), x.clone()]), a.clone()]), &g(vec![f(vec![b.clone(), b.clone()]), a.clone()]));
            one(&g(vec![f(vec![x.clone(), a.clone()]), x.clone()]), &g(vec![f(vec![b.clone(), a.clone()]), b.clone()]));
            one(&g(vec![f(vec![x.clone(), a.clone()]), x.clone()]), &g(vec![f(vec![b.clone(), a.clone()]), a.clone()]));
            one(&f(vec![a.clone(), b.clone()]), &g(vec![a.clone(), b.clone()]));
        }
    }
    finish();
}

fn one(p: &R, t: &R) {
    let txt = format!("{}  with  {}", p.src(), t.src());
    set_input(&txt);
    if p.has_var() {
        ev((p, t));
    } else {
        ev_trivial();
    }
    let want = runify(p, t);
    guarded(|| {
        let got = unify(&p.t(), &t.t());
        match (&want, &got) {
            (None, None) => cnt("no match", 1),
            (Some(_), None) => viol("missed", format!("pattern doesn't match but should: {}", txt)),
            (None, Some(_)) => viol("spurious", format!("pattern matches but should not: {}", txt)),
            (Some(w), Some(g)) => {
                cnt("match", 1);
                let mut ga: Vec<(R, R)> = g.iter().map(|x| (R::of(&x.var), R::of(&x.val))).collect();
                let mut wa = w.clone();
                let n = ga.len();
                ga.sort();
                wa.sort();
                ga.dedup();
                if ga.len() != n {
                    viol("assignment", format!("assignment names a variable twice: {}", txt));
                }
                if ga != wa {
                    viol("assignment", format!("wrong assignment {:?} for {}", ga, txt));
                }
                let back = R::of(&unifySubst(&p.t(), g));
                if back != *t {
                    viol("substituted", format!("substituting the assignment gives {} for {}", back.src(), txt));
                }
                if wa.len() > 1 {
                    sample(txt.clone());
                }
            }
        }
    });
}

/// substitution of an arbitrary assignment into an arbitrary term
fn subst(p: &R, g: &G, r: &mut Rng) {
    let n = r.n(4);
    let mut m: Vec<(R, R)> = vec![];
    let mut g2 = g.clone();
    g2.pvar = if r.chance(0.3) { 0.3 } else { 0.0 };
    for _ in 0..n {
        let var = g.var(r);
        if m.iter().any(|x| x.0 == var) {
            continue;
        }
        let val = g2.term(r, 2);
        m.push((var, val));
    }
    let txt = format!("substitution {:?} into {}", m, p.src());
    set_input(&txt);
    ev(("subst", p, &m));
    guarded(|| {
        let asg: Vec<Asgnment> = m.iter().map(|(a, b)| Asgnment { var: a.t(), val: b.t() }).collect();
        let got = R::of(&unifySubst(&p.t(), &asg));
        let want = rsubst(p, &m);
        if got != want {
            viol("substitution", format!("{} gives {} instead of {}", txt, got.src(), want.src()));
        }
        cnt("substitutions", 1);
    });
}
