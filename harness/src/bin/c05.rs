//! truth functions against their definitions
#![allow(non_snake_case)]
use nar20_1::Tv;
use vh::*;

fn main() {
    let cfg = init("C05", 8.0, 120.0, "a pair of truth values is non-trivial when at least one of frequency or confidence of it is strictly inside (0,1); distinct by bit pattern");
    let edge = [0.0, 1e-300, 1e-12, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 0.999999, 1.0 - 1e-12, 1.0 - f64::EPSILON];
    let edgef = [0.0, 1e-300, 1e-12, 0.1, 0.5, 0.9, 1.0 - f64::EPSILON, 1.0];
    // systematic part: all combinations of the edge values
    for &f0 in &edgef {
        for &c0 in &edge {
            for &f1 in &edgef {
                for &c1 in &edge {
                    check(v(f0, c0), v(f1, c1));
                }
            }
        }
    }
    par(&cfg, 8, 1, |_, r| {
        let d = cfg.deadline();
        until(d, || {
            for _ in 0..200 {
                let a = gen1(r);
                let b = gen1(r);
                check(a, b);
            }
            vecs(r);
            chain(r);
        });
    });
    sample(format!("rev({{0.9 0.9}},{{0.1 0.5}}) = {:?}", rev(v(0.9, 0.9), v(0.1, 0.5))));
    assume("truth values are IEEE doubles; agreement up to a relative error of 1e-9 (1e-6 near confidence 1, where the conversion to evidence amounts is ill-conditioned)");
    finish();
}

fn gen1(r: &mut Rng) -> V {
    let f = match r.n(8) {
        0 => 0.0,
        1 => 1.0,
        2 => 1.0 - r.f() * 1e-9,
        3 => r.f() * 1e-9,
        4 => 10f64.powf(-9.0 * r.f()),
        _ => r.f(),
    };
    let c = match r.n(8) {
        0 => 0.0,
        1 => 1.0 - r.f() * 1e-6,
        2 => r.f() * 1e-6,
        3 => 0.9,
        4 => 10f64.powf(-9.0 * r.f()),
        _ => r.f(),
    };
    v(f, c.min(1.0 - f64::EPSILON))
}

/// tolerance: absolute, wider where c2w is ill-conditioned
fn same(x: &V, y: &V) -> bool {
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()));
    near(x.f, y.f) && near(x.c, y.c)
}

fn bin(name: &str, got: Tv::Tv, want: V, a: V, b: V) {
    let g = V::of(&got);
    if !g.legal() {
        viol("illegal", format!("{}({:?},{:?}) = {:?} is not a legal truth value", name, a, b, g));
    }
    let tight = a.c < 0.999 && b.c < 0.999;
    let ok = if tight { g.near(&want) } else { same(&g, &want) };
    if !ok {
        viol(name, format!("{}({:?},{:?}) = {:?}, definition gives {:?}", name, a, b, g, want));
    }
}

fn check(a: V, b: V) {
    let key = (a.f.to_bits(), a.c.to_bits(), b.f.to_bits(), b.c.to_bits());
    let inner = |x: f64| x > 0.0 && x < 1.0;
    if inner(a.f) || inner(a.c) || inner(b.f) || inner(b.c) {
        ev(key);
    } else {
        ev_trivial();
    }
    let (x, y) = (a.t(), b.t());
    guarded(|| {
        bin("ded", Tv::ded(&x, &y), ded(a, b), a, b);
        // where both alternatives are equally confident either is right
        let (d0, d1) = (ded(a, b), negv(ded(negv(a), b)));
        let g = V::of(&Tv::dedGoal(&x, &y));
        if (d0.c - d1.c).abs() > 1e-9 {
            bin("dedGoal", g.t(), ded_goal(a, b), a, b);
        } else if !(g.near(&d0) || g.near(&d1)) {
            viol("dedGoal", format!("dedGoal({:?},{:?}) = {:?}", a, b, g));
        }
        bin("abd", Tv::abd(&x, &y), abd(a, b), a, b);
        bin("ind", Tv::ind(&x, &y), ind(a, b), a, b);
        // the frequency of a comparison without positive cases is not defined
        let o = a.f + b.f - a.f * b.f;
        let g = Tv::comp(&x, &y);
        if o > 1e-7 {
            bin("comp", g, comp(a, b), a, b);
        } else {
            bin("comp", v(0.0, g.c).t(), v(0.0, comp(a, b).c), a, b);
            if !V::of(&g).legal() {
                viol("illegal", format!("comp({:?},{:?}) = {:?}", a, b, V::of(&g)));
            }
        }
        bin("int", Tv::int(&x, &y), int(a, b), a, b);
        bin("neg", Tv::neg(&x), negv(a), a, b);
        if c2w(a.c) + c2w(b.c) > 0.0 {
            bin("rev", Tv::rev(&x, &y), rev(a, b), a, b);
            let p = V::of(&Tv::rev(&x, &y));
            let q = V::of(&Tv::rev(&y, &x));
            if !same(&p, &q) {
                viol("rev-order", format!("revision of {:?} and {:?} depends on the order: {:?} {:?}", a, b, p, q));
            }
            if p.c < a.c.max(b.c) - 1e-9 {
                viol("rev-conf", format!("revision of {:?} and {:?} lowers the confidence: {:?}", a, b, p));
            }
            let (lo, hi) = (a.f.min(b.f), a.f.max(b.f));
            if p.f < lo - 1e-6 || p.f > hi + 1e-6 {
                viol("rev-freq", format!("revision of {:?} and {:?} leaves the range of the frequencies: {:?}", a, b, p));
            }
        } else if !V::of(&Tv::rev(&x, &y)).legal() {
            viol("illegal", format!("revision of {:?} and {:?} is illegal", a, b));
        }
        let e = Tv::calcExp(&x);
        if !close(e, exp(a)) {
            viol("exp", format!("expectation of {:?} is {}", a, e));
        }
        let w = Tv::c2w(a.c);
        if a.c < 0.9999 && !close(w, c2w(a.c)) {
            viol("c2w", format!("evidence of confidence {} is {}", a.c, w));
        }
        let c = Tv::w2c(w);
        if (c - a.c).abs() > 1e-6 || !(c < 1.0) {
            viol("w2c", format!("confidence {} -> evidence {} -> confidence {}", a.c, w, c));
        }
    });
}

/// many revisions stay legal and add up
fn chain(r: &mut Rng) {
    let n = 1 + r.n(200);
    let mut acc = gen1(r);
    let mut w = c2w(acc.c);
    let mut wp = w * acc.f;
    let mut illcond = acc.c > 0.9999;
    let mut t = acc.t();
    guarded(|| {
        for _ in 0..n {
            let b = gen1(r);
            if c2w(b.c) + w == 0.0 {
                continue;
            }
            illcond |= b.c > 0.9999;
            w += c2w(b.c);
            wp += c2w(b.c) * b.f;
            t = Tv::rev(&t, &b.t());
            acc = V::of(&t);
            if !acc.legal() {
                viol("illegal", format!("chain of revisions gives {:?}", acc));
                return;
            }
        }
        if !illcond && w > 0.0 && (!close(acc.f, wp / w) || (acc.c - w2c(w)).abs() > 1e-9) {
            viol("rev-chain", format!("{} revisions give {:?}, pooled evidence is {:?}", n, acc, v(wp / w, w2c(w))));
        }
        cnt("revision chains", 1);
    });
}

fn vecs(r: &mut Rng) {
    use nar20_1::TvVec;
    let most = if r.chance(0.1) { 60 } else { 6 };
    let n = r.n(most);
    let one = |r: &mut Rng| v(if r.chance(0.2) { [0.0, 1.0][r.n(2)] } else { r.f() }, match r.n(4) {
        0 => 0.0001 + 0.02 * r.f(),
        1 => 0.9 + 0.09 * r.f(),
        _ => 0.01 + 0.98 * r.f(),
    });
    let a: Vec<V> = (0..n).map(|_| one(r)).collect();
    let b: Vec<V> = (0..n).map(|_| one(r)).collect();
    let ta: Vec<Tv::Tv> = a.iter().map(|x| x.t()).collect();
    let tb: Vec<Tv::Tv> = b.iter().map(|x| x.t()).collect();
    guarded(|| {
        let want: Vec<V> = a.iter().zip(b.iter()).map(|(x, y)| rev(*x, *y)).collect();
        let got: Vec<V> = TvVec::revVec(&ta, &tb).iter().map(V::of).collect();
        if want.len() != got.len() || !want.iter().zip(got.iter()).all(|(x, y)| x.near(y)) {
            viol("revVec", format!("revVec({:?},{:?}) = {:?}", a, b, got));
        }
        let want: Vec<V> = a.iter().zip(b.iter()).map(|(x, y)| comp(*x, *y)).collect();
        let got: Vec<V> = TvVec::compVec(&ta, &tb).iter().map(V::of).collect();
        if want.len() != got.len() || !want.iter().zip(got.iter()).all(|(x, y)| x.near(y)) {
            viol("compVec", format!("compVec({:?},{:?}) = {:?}", a, b, got));
        }
        if n > 0 {
            let w: f64 = a.iter().map(|x| c2w(x.c)).sum();
            let wp: f64 = a.iter().map(|x| c2w(x.c) * x.f).sum();
            let got = V::of(&TvVec::foldVec(&ta));
            if !got.near(&v(wp / w, w2c(w))) {
                viol("foldVec", format!("foldVec({:?}) = {:?}", a, got));
            }
        }
        cnt("truth vectors", 1);
    });
}
