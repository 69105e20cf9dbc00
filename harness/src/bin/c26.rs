//! C26: automatic differentiation against reverse mode differentiation of the same expression
#![allow(non_snake_case)]
use nar20_1::ad;
use nar20_1::Nn;
use vh::*;

#[derive(Clone, Debug)]
enum X {
    Var(usize),
    Const(f64),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Div(usize, usize),
    Exp(usize),
    Dot(Vec<usize>, Vec<usize>),
    Relu(usize),
    Sig(usize),
    /// inputs, weights, bias, kind
    Neuron(Vec<usize>, Vec<usize>, usize, u32),
}

fn sig(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}

/// values of all nodes; None if something is not well inside the defined range
/// the values; `noise` disturbs each intermediate value by that relative amount, to find ill-conditioned expressions
fn values(g: &[X], xs: &[f64], noise: f64, r: &mut Rng) -> Option<Vec<f64>> {
    let mut v: Vec<f64> = vec![];
    for n in g {
        let y = match n {
            X::Var(i) => xs[*i],
            X::Const(c) => *c,
            X::Add(a, b) => v[*a] + v[*b],
            X::Sub(a, b) => v[*a] - v[*b],
            X::Mul(a, b) => v[*a] * v[*b],
            X::Div(a, b) => {
                if v[*b].abs() < 1e-3 {
                    return None;
                }
                v[*a] / v[*b]
            }
            X::Exp(a) => v[*a].exp(),
            X::Dot(a, b) => a.iter().zip(b).map(|(i, j)| v[*i] * v[*j]).sum(),
            X::Relu(a) => {
                if v[*a].abs() < 1e-9 {
                    return None;
                }
                v[*a].max(0.0)
            }
            X::Sig(a) => {
                if v[*a].abs() > 300.0 {
                    return None;
                }
                sig(v[*a])
            }
            X::Neuron(i, w, b, k) => {
                let s = i.iter().zip(w).map(|(i, j)| v[*i] * v[*j]).sum::<f64>() + v[*b];
                if *k == 0 {
                    if s.abs() < 1e-9 {
                        return None;
                    }
                    s.max(0.0)
                } else {
                    if s.abs() > 300.0 {
                        return None;
                    }
                    sig(s)
                }
            }
        };
        if !y.is_finite() || y.abs() > 1e9 {
            return None;
        }
        v.push(if noise == 0.0 { y } else { y * (1.0 + noise * (2.0 * r.f() - 1.0)) });
    }
    Some(v)
}

/// derivatives of the last node for all variables, backwards
fn grads(g: &[X], v: &[f64], nv: usize) -> (Vec<f64>, f64) {
    let mut b = vec![0.0; g.len()];
    let mut res = vec![0.0; nv];
    // sum of absolute contributions, for the tolerance
    let mut mag: f64 = 1.0;
    *b.last_mut().unwrap() = 1.0;
    for k in (0..g.len()).rev() {
        let d = b[k];
        let mut put = |b: &mut Vec<f64>, i: usize, x: f64| {
            b[i] += x;
            if x.abs() > mag {
                mag = x.abs();
            }
        };
        match &g[k] {
            X::Var(i) => res[*i] += d,
            X::Const(_) => {}
            X::Add(x, y) => {
                put(&mut b, *x, d);
                put(&mut b, *y, d);
            }
            X::Sub(x, y) => {
                put(&mut b, *x, d);
                put(&mut b, *y, -d);
            }
            X::Mul(x, y) => {
                put(&mut b, *x, d * v[*y]);
                put(&mut b, *y, d * v[*x]);
            }
            X::Div(x, y) => {
                put(&mut b, *x, d / v[*y]);
                put(&mut b, *y, -d * v[*x] / (v[*y] * v[*y]));
            }
            X::Exp(x) => put(&mut b, *x, d * v[k]),
            X::Dot(x, y) => {
                for (i, j) in x.iter().zip(y) {
                    put(&mut b, *i, d * v[*j]);
                    put(&mut b, *j, d * v[*i]);
                }
            }
            X::Relu(x) => {
                if v[*x] > 0.0 {
                    put(&mut b, *x, d)
                }
            }
            X::Sig(x) => put(&mut b, *x, d * v[k] * (1.0 - v[k])),
            X::Neuron(i, w, bias, kind) => {
                let e = if *kind == 0 {
                    if v[k] > 0.0 {
                        d
                    } else {
                        0.0
                    }
                } else {
                    d * v[k] * (1.0 - v[k])
                };
                for (i, j) in i.iter().zip(w) {
                    put(&mut b, *i, e * v[*j]);
                    put(&mut b, *j, e * v[*i]);
                }
                put(&mut b, *bias, e);
            }
        }
    }
    (res, mag)
}

fn run(g: &[X], xs: &[f64], wrt: usize) -> Vec<ad::Ad> {
    let mut v: Vec<ad::Ad> = vec![];
    for n in g {
        let l = |ix: &Vec<usize>, v: &Vec<ad::Ad>| ix.iter().map(|i| v[*i].clone()).collect::<Vec<_>>();
        let y = match n {
            X::Var(i) => ad::Ad { r: xs[*i], d: if *i == wrt { 1.0 } else { 0.0 } },
            X::Const(c) => ad::Ad { r: *c, d: 0.0 },
            X::Add(a, b) => ad::add(&v[*a], &v[*b]),
            X::Sub(a, b) => ad::sub(&v[*a], &v[*b]),
            X::Mul(a, b) => ad::mul(&v[*a], &v[*b]),
            X::Div(a, b) => ad::div(&v[*a], &v[*b]),
            X::Exp(a) => ad::exp(&v[*a]),
            X::Dot(a, b) => ad::dot(&l(a, &v), &l(b, &v)),
            X::Relu(a) => ad::reluAct(&v[*a]),
            X::Sig(a) => ad::sigmoidAct(&v[*a]),
            X::Neuron(i, w, b, k) => ad::calc(&l(i, &v), &ad::Neuron { weights: l(w, &v), bias: v[*b].clone(), act: *k }),
        };
        v.push(y);
    }
    v
}

fn gen(r: &mut Rng, nv: usize) -> Vec<X> {
    let mut g: Vec<X> = (0..nv).map(X::Var).collect();
    let big = r.chance(0.2);
    let n = 1 + r.n(if big { 25 } else { 7 });
    for _ in 0..n {
        let k = g.len();
        let p = |r: &mut Rng| if r.chance(0.5) { k - 1 } else { r.n(k) };
        let x = match r.n(12) {
            0 => X::Const((r.f() - 0.5) * 6.0),
            1 => X::Add(p(r), p(r)),
            2 => X::Sub(p(r), p(r)),
            3 | 4 => X::Mul(p(r), p(r)),
            5 | 6 => X::Div(p(r), p(r)),
            7 => X::Exp(p(r)),
            8 => {
                let most = if r.chance(0.1) { 40 } else { 5 };
                let m = 1 + r.n(most);
                X::Dot((0..m).map(|_| p(r)).collect(), (0..m).map(|_| p(r)).collect())
            }
            9 => X::Relu(p(r)),
            10 => X::Sig(p(r)),
            _ => {
                let most = if r.chance(0.1) { 40 } else { 5 };
                let m = 1 + r.n(most);
                X::Neuron((0..m).map(|_| p(r)).collect(), (0..m).map(|_| p(r)).collect(), p(r), r.n(2) as u32)
            }
        };
        g.push(x);
    }
    g
}

fn expr(r: &mut Rng) {
    let nv = 1 + r.n(4);
    let g = gen(r, nv);
    let xs: Vec<f64> = (0..nv)
        .map(|_| match r.n(8) {
            0 => -1.0,
            1 => 1.0,
            2 => 2.0,
            3 => (r.f() - 0.5) * 40.0,
            _ => (r.f() - 0.5) * 4.0,
        })
        .collect();
    let v = match values(&g, &xs, 0.0, r) {
        Some(v) => v,
        None => {
            ev_trivial();
            return;
        }
    };
    let (d, mag) = grads(&g, &v, nv);
    if mag > 1e6 {
        ev_trivial();
        return;
    }
    let big = v.iter().fold(1.0f64, |m, x| m.max(x.abs()));
    // rounding must not matter: disturbances a thousand times as large as rounding change nothing
    for _ in 0..3 {
        let stable = match values(&g, &xs, 1e-13, r) {
            Some(w) => {
                let (e, _) = grads(&g, &w, nv);
                let mut m = 0.0f64;
                v.iter().zip(&w).all(|(x, y)| {
                    m = m.max(x.abs());
                    (x - y).abs() <= 1e-10 * (1.0 + m)
                }) && d.iter().zip(&e).all(|(x, y)| (x - y).abs() <= 1e-10 * mag * big)
            }
            None => false,
        };
        if !stable {
            ev_trivial();
            return;
        }
    }
    let info = format!("expression {:?} at {:?}", g, xs);
    set_input(&info);
    for wrt in 0..nv {
        let res = match guarded(|| run(&g, &xs, wrt)) {
            Some(x) => x,
            None => return,
        };
        for (k, y) in res.iter().enumerate() {
            if (y.r - v[k]).abs() > 1e-9 * (1.0 + v[..=k].iter().fold(0.0f64, |m, x| m.max(x.abs()))) {
                viol("value", format!("{} | node {} {:?} has value {}, should be {}", info, k, g[k], y.r, v[k]));
                return;
            }
        }
        let y = res.last().unwrap();
        if !((y.d - d[wrt]).abs() <= 1e-9 * mag * big) {
            viol("derivative", format!("{} | derivative for variable {} is {}, should be {}", info, wrt, y.d, d[wrt]));
            return;
        }
        ev((format!("{:?}", g), xs[0].to_bits(), wrt));
        if d[wrt] != 0.0 {
            cnt("non-zero derivatives", 1);
        }
    }
    cnt("expressions", 1);
    if r.chance(0.0005) {
        sample(info);
    }
}

/// single operations on values of any size, both parts of the operands given
fn elementary(r: &mut Rng) {
    let any = |r: &mut Rng| {
        let m = 10f64.powf((r.f() - 0.5) * *r.pick(&[2.0, 10.0, 24.0]));
        match r.n(12) {
            0 => 0.0,
            1 => 1.0,
            _ if r.chance(0.5) => -m,
            _ => m,
        }
    };
    let (a, b) = (ad::Ad { r: any(r), d: any(r) }, ad::Ad { r: any(r), d: any(r) });
    let e = |x: f64| ad::Ad { r: x, d: a.d };
    let s = (r.f() - 0.5) * 400.0;
    let info = format!("operands {:?} {:?} {}", a, b, s);
    set_input(&info);
    let got = match guarded(|| (ad::add(&a, &b), ad::sub(&a, &b), ad::mul(&a, &b), if b.r != 0.0 { Some(ad::div(&a, &b)) } else { None }, ad::exp(&e(s / 4.0)), ad::sigmoidAct(&e(s)), ad::reluAct(&e(s)))) {
        Some(x) => x,
        None => return,
    };
    // value, derivative and the size of what is added up for both
    let mut want = vec![
        ("sum", got.0.clone(), a.r + b.r, a.d + b.d, a.r.abs() + b.r.abs(), a.d.abs() + b.d.abs()),
        ("difference", got.1.clone(), a.r - b.r, a.d - b.d, a.r.abs() + b.r.abs(), a.d.abs() + b.d.abs()),
        ("product", got.2.clone(), a.r * b.r, a.r * b.d + a.d * b.r, (a.r * b.r).abs(), (a.r * b.d).abs() + (a.d * b.r).abs()),
        ("exponential", got.4.clone(), (s / 4.0).exp(), (s / 4.0).exp() * a.d, (s / 4.0).exp(), ((s / 4.0).exp() * a.d).abs()),
        ("rectifier", got.6.clone(), s.max(0.0), if s > 0.0 { a.d } else { 0.0 }, s.abs(), if s == 0.0 { f64::INFINITY } else { a.d.abs() }),
    ];
    let y = sig(s);
    let dy = (-s.abs()).exp() / (1.0 + (-s.abs()).exp()).powi(2);
    // the derivative loses precision where the sigmoid is nearly one
    let z = s.exp();
    want.push(("sigmoid", got.5.clone(), y, dy * a.d, y, (dy * a.d).abs() + a.d.abs() * if s > 0.0 { 1e-3 } else { dy } + if z.is_finite() && (z * z).is_finite() { 0.0 } else { f64::INFINITY }));
    if let Some(q) = &got.3 {
        let (x, d) = (a.r / b.r, (a.d - a.r / b.r * b.d) / b.r);
        want.push(("quotient", q.clone(), x, d, x.abs(), (a.d / b.r).abs() + (x * b.d / b.r).abs()));
    }
    for (n, g, x, d, mx, md) in want {
        if !x.is_finite() || !d.is_finite() || mx > 1e100 || md > 1e100 {
            continue;
        }
        if !((g.r - x).abs() <= 1e-9 * mx + 1e-280) || !((g.d - d).abs() <= 1e-9 * md + 1e-280) {
            viol("elementary", format!("{} of {} is {:?}, should be {} with derivative {}", n, info, g, x, d));
            return;
        }
        ev((n, a.r.to_bits(), b.r.to_bits(), a.d.to_bits()));
    }
    cnt("elementary operations", 7);
}

/// vectors
fn vectors(r: &mut Rng) {
    use nar20_1::mlutils as M;
    let n = if r.chance(0.1) { r.n(200) } else { r.n(8) };
    let sc = *r.pick(&[1.0, 1e-3, 50.0]);
    let mut gen = |r: &mut Rng| (0..n).map(|_| if r.chance(0.1) { 0.0 } else { (r.f() - 0.5) * 4.0 * sc }).collect::<Vec<f64>>();
    let a = gen(r);
    let b = match r.n(6) {
        0 => a.clone(),
        1 => a.iter().map(|x| -x * 2.0).collect(),
        _ => gen(r),
    };
    let w = (r.f() - 0.5) * 6.0;
    let info = format!("vectors {:?} {:?} factor {}", a, b, w);
    set_input(&info);
    let (s, sw, k, d, la, lb, c) = match guarded(|| (M::vecAdd(&a, &b), M::vecAddScale(&a, &b, w), M::vecScale(&a, w), M::vecDot(&a, &b), M::vecLen(&a), M::vecLen(&b), M::calcCosineSim(&a, &b))) {
        Some(x) => x,
        None => return,
    };
    let same = |x: &[f64], f: &dyn Fn(usize) -> f64| x.len() == n && (0..n).all(|i| (x[i] - f(i)).abs() <= 1e-12 * (1.0 + f(i).abs()));
    let dot: f64 = (0..n).map(|i| a[i] * b[i]).sum();
    let mag: f64 = (0..n).map(|i| (a[i] * b[i]).abs()).sum();
    let (na, nb) = (a.iter().map(|x| x * x).sum::<f64>().sqrt(), b.iter().map(|x| x * x).sum::<f64>().sqrt());
    let ok = same(&s, &|i| a[i] + b[i])
        && same(&sw, &|i| a[i] + b[i] * w)
        && same(&k, &|i| a[i] * w)
        && (d - dot).abs() <= 1e-11 * (mag + 1e-12)
        && (la - na).abs() <= 1e-11 * (na + 1e-12)
        && (lb - nb).abs() <= 1e-11 * (nb + 1e-12)
        && (na == 0.0 || nb == 0.0 || (c - dot / (na * nb)).abs() <= 1e-9);
    if !ok {
        viol("vectors", format!("{} | sum {:?} weighted {:?} scaled {:?} dot {} lengths {} {} cosine {}", info, s, sw, k, d, la, lb, c));
        return;
    }
    ev(("vec", n, d.to_bits(), w.to_bits()));
    cnt("vectors", 1);
}

fn net(r: &mut Rng) {
    let wide = r.chance(0.2);
    let nin = 1 + r.n(if wide { 30 } else { 5 }) as i64;
    let n0 = 1 + r.n(if wide { 24 } else { 5 }) as i64;
    let n1 = 1 + r.n(if wide { 16 } else { 4 }) as i64;
    let total = (n0 * (nin + 1) + n1 * (n0 + 1)) as usize;
    let start = r.n(5);
    let params: Vec<f64> = (0..start + total + r.n(4)).map(|_| (r.f() - 0.5) * 2.0).collect();
    let act0 = r.n(2) as u32;
    let input: Vec<f64> = (0..nin).map(|_| (r.f() - 0.5) * 4.0).collect();
    let diff: Option<usize> = if r.chance(0.1) { None } else { Some(start + r.n(total)) };
    let info = format!("network {}-{}-{} act {} parameters {:?} from {} derivative for {:?} input {:?}", nin, n0, n1, act0, params, start, diff, input);
    set_input(&info);
    let mut idx = start as i64;
    let nn = match guarded(|| Nn::buildNnFromParameters(&mut idx, &params, nin, act0, n0, n1, diff)) {
        Some(x) => x,
        None => return,
    };
    if idx as usize != start + total {
        viol("net-params", format!("{} | index after building is {}, should be {}", info, idx, start + total));
        return;
    }
    // reference: parameters in order, the last of each neuron is its boosted bias
    let mut k = start;
    let mut weights: Vec<(usize, Vec<usize>, usize, f64)> = vec![];
    for (layer, cnt_, inn, boost) in [(0, n0, nin, 15.0), (1, n1, n0, 8.0)] {
        for _ in 0..cnt_ {
            let w: Vec<usize> = (0..inn as usize).map(|i| k + i).collect();
            k += inn as usize;
            weights.push((layer, w, k, boost));
            k += 1;
        }
    }
    if nn.neuronsLayer0.len() != n0 as usize || nn.neuronsLayer1.len() != n1 as usize {
        viol("net-shape", format!("{} | layers have {} and {} neurons", info, nn.neuronsLayer0.len(), nn.neuronsLayer1.len()));
        return;
    }
    for (i, (layer, w, b, boost)) in weights.iter().enumerate() {
        let n = if *layer == 0 { &nn.neuronsLayer0[i] } else { &nn.neuronsLayer1[i - n0 as usize] };
        let kind = if *layer == 0 { act0 } else { 1 };
        let ok = n.weights.len() == w.len()
            && n.weights.iter().zip(w).all(|(x, p)| x.r == params[*p] && x.d == if diff == Some(*p) { 1.0 } else { 0.0 })
            && close(n.bias.r, params[*b] * boost)
            && (n.bias.d != 0.0) == (diff == Some(*b))
            && (n.act == 0) == (kind == 0);
        if !ok {
            viol("net-params", format!("{} | neuron {} is {:?}", info, i, n));
            return;
        }
    }
    // run it
    let din: Vec<ad::Ad> = input.iter().map(|x| ad::Ad { r: *x, d: 0.0 }).collect();
    let is_weight = weights.iter().any(|w| w.1.iter().any(|p| Some(*p) == diff)) || diff.is_none();
    let h: Vec<ad::Ad> = nn.neuronsLayer0.iter().map(|n| ad::calc(&din, n)).collect();
    let out: Vec<ad::Ad> = nn.neuronsLayer1.iter().map(|n| ad::calc(&h, n)).collect();
    // the same as an expression over the parameters
    let mut g: Vec<X> = (0..params.len()).map(X::Var).collect();
    let base = g.len();
    for x in &input {
        g.push(X::Const(*x));
    }
    let mut bias: Vec<usize> = vec![];
    for w in &weights {
        let c = g.len();
        g.push(X::Const(w.3));
        g.push(X::Mul(w.2, c));
        bias.push(c + 1);
    }
    let hid: Vec<usize> = (0..n0 as usize)
        .map(|i| {
            g.push(X::Neuron((0..nin as usize).map(|j| base + j).collect(), weights[i].1.clone(), bias[i], act0));
            g.len() - 1
        })
        .collect();
    for o in 0..n1 as usize {
        let q = n0 as usize + o;
        let mut g2 = g.clone();
        g2.push(X::Neuron(hid.clone(), weights[q].1.clone(), bias[q], 1));
        if let Some(v) = values(&g2, &params, 0.0, r) {
            let (d, mag) = grads(&g2, &v, params.len());
            let want_d = diff.map(|p| d[p]).unwrap_or(0.0);
            if !close(out[o].r, *v.last().unwrap()) || (is_weight && (out[o].d - want_d).abs() > 1e-9 * mag) {
                viol("net-output", format!("{} | output {} is {:?}, should be {} with derivative {}", info, o, out[o], v.last().unwrap(), want_d));
                return;
            }
            ev(("net", nin, n0, n1, act0, diff.map(|x| x - start), o, out[o].r.to_bits()));
            cnt("network outputs", 1);
        }
    }
}

fn main() {
    let cfg = init("C26", 6.0, 90.0, "one evaluation per expression and variable, or per network output; expressions outside the moderate range are trivial; distinct by expression and inputs");
    assume("in expressions values below 1e9 and divisors above 1e-3 in size (single operations: any size whose result is finite); agreement up to rounding; the derivative for a bias parameter of a network is not judged, because it is boosted");
    let dl = cfg.deadline();
    par(&cfg, 4, 26, |_i, r| {
        until(dl, || {
            for _ in 0..40 {
                expr(r);
                elementary(r);
            }
            for _ in 0..10 {
                vectors(r);
            }
            net(r);
        });
    });
    finish();
}
