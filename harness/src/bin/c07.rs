//! one-premise inference against reference rules
#![allow(non_snake_case)]
use nar20_1::NarWorkingCycle::infSinglePremise2;
use vh::rules::*;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C07", 8.0, 120.0, "premises of every form with random content, punctuation, truth value and evidence; non-trivial when at least one transformation is licensed; distinct by premise");
    par(&cfg, 8, 1, |_, r| {
        let mut g = G::new(&["a", "b", "c", "d"]);
        until(cfg.deadline(), || {
            g.pvar = [0.0, 0.2][r.n(2)];
            g.pleaf = 0.2 + 0.5 * r.f();
            g.writable = r.chance(0.5);
            for _ in 0..20 {
                let t = form(&g, r);
                let p = match r.n(8) {
                    0 => P::G,
                    1 => P::Q,
                    _ => P::J,
                };
                if p == P::Q && t.has_img() {
                    continue; // questions aren't submitted to structural inference
                }
                let pr = Pr { t, p, v: if p == P::Q { None } else { Some(gv(r)) } };
                let n = 1 + r.n(4);
                let ids: Vec<i64> = (0..n).map(|i| 10 * i as i64 + r.n(9) as i64).collect();
                check(&pr, &ids);
            }
        });
    });
    finish();
}

fn sub(g: &G, r: &mut Rng) -> R {
    let d = 1 + r.n(3);
    g.term(r, d)
}

fn form(g: &G, r: &mut Rng) -> R {
    let c = if r.chance(0.8) { Cop::Inh } else { *r.pick(&COPS) };
    let n = 1 + r.n(3);
    match r.n(11) {
        0 => neg(sub(g, r)),
        1 => st(c, R::IInt((0..n).map(|_| sub(g, r)).collect()), sub(g, r)),
        2 => st(c, sub(g, r), R::IInt((0..n).map(|_| sub(g, r)).collect())),
        3 => st(c, R::Prod((0..1 + r.n(4)).map(|_| sub(g, r)).collect()), sub(g, r)),
        4 | 5 => {
            let k = if r.chance(0.9) { 1 } else { 2 };
            st(c, sub(g, r), R::Img(Box::new(sub(g, r)), r.n(2), (0..k).map(|_| sub(g, r)).collect()))
        }
        6 | 7 => {
            let c = if r.chance(0.8) { Cop::Sim } else { *r.pick(&COPS) };
            let k = if r.chance(0.8) { 1 } else { 2 };
            let x: Vec<R> = (0..k).map(|_| sub(g, r)).collect();
            let y: Vec<R> = (0..1).map(|_| sub(g, r)).collect();
            match r.n(4) {
                0 => st(c, R::SInt(x), R::SInt(y)),
                1 => st(c, R::SExt(x), R::SExt(y)),
                2 => st(c, R::SExt(x), R::SInt(y)),
                _ => st(c, R::SInt(x), R::SExt(y)),
            }
        }
        8 => st(if r.chance(0.8) { Cop::Pred } else { *r.pick(&COPS) }, sub(g, r), R::Par((0..1 + r.n(4)).map(|_| sub(g, r)).collect())),
        9 => st(c, R::Prod(vec![sub(g, r), sub(g, r)]), R::IInt(vec![sub(g, r), sub(g, r)])),
        _ => g.term(r, 4),
    }
}

fn check(a: &Pr, ids: &[i64]) {
    let want = single(a);
    let txt = a.txt();
    set_input(&txt);
    if want.is_empty() {
        ev_trivial();
    } else {
        ev(&txt);
        for w in &want {
            cnt(w.rule, 1);
        }
        sample(txt.clone());
    }
    guarded(|| {
        let got: Vec<S> = infSinglePremise2(&sentence(&a.t, a.p, a.v, ids)).iter().map(|x| s_of(&x.0)).collect();
        for w in &want {
            if !got.iter().any(|s| s.t == w.t && s.p == P::J && s.v.map(|x| x.near(&w.v)) == Some(true)) {
                viol(w.rule, format!("{} | rule {} licenses {} {:?}, got {:?}", txt, w.rule, w.t.src(), w.v, got.iter().map(|s| s.txt()).collect::<Vec<_>>()));
            }
        }
        for s in &got {
            if !want.iter().any(|w| s.t == w.t && s.p == P::J && s.v.map(|x| x.near(&w.v)) == Some(true)) {
                viol("unlicensed", format!("{} | conclusion {} is not licensed", txt, s.txt()));
            }
            if s.ids != ids {
                viol("evidence", format!("{} with evidence {:?} | conclusion has {:?}", txt, ids, s.ids));
            }
        }
    });
}
