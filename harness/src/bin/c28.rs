//! C28: visual classifiers, a reference classifier is stepped beside the real ones; convolution and filter kernels
#![allow(non_snake_case)]
use nar20_1::Map2d::*;
use nar20_1::ModVisionB as B;
use nar20_1::ModVisionC as C;
use nar20_1::ModVisionD as D;
use vh::*;

/// index of the best, None if none reaches a half; Err if rounding decides
fn best(sims: &[f64]) -> Result<Option<Vec<usize>>, ()> {
    let m = sims.iter().cloned().fold(-1.0, f64::max);
    if (m - 0.5).abs() < 1e-9 {
        return Err(());
    }
    if m < 0.5 {
        return Ok(None);
    }
    Ok(Some((0..sims.len()).filter(|i| (sims[*i] - m).abs() < 1e-9).collect()))
}

fn same_tv(a: &[Vec<V>], b: &[B::Channel]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.v.len() && x.iter().zip(&y.v).all(|(p, q)| p.near(&V::of(q))))
}

fn vision_b(r: &mut Rng) {
    let n_ch = 1 + if r.chance(0.1) { r.n(9) } else { r.n(3) };
    let q = 2 + if r.chance(0.1) { r.n(20) } else { r.n(4) } as i64;
    let conf = *r.pick(&[0.01, 0.05, 0.1, 0.3, 0.9]);
    let most = if r.chance(0.05) { 16 } else { 4 };
    let (w, h) = (1 + r.n(most) as i32, 1 + r.n(most) as i32);
    let mut cls = B::PrototypeClassifier { prototypes: vec![], n_quantize: q, stimulus_conf: conf };
    let mut rf: Vec<(Vec<Vec<V>>, i64)> = vec![];
    // images which are repeated with noise
    let long = r.chance(0.05);
    let base: Vec<Vec<f64>> = (0..if long { 1 } else { 2 + r.n(4) }).map(|_| (0..n_ch as i32 * w * h).map(|_| r.f()).collect()).collect();
    let mut time = r.n(5) as i64;
    for step in 0..if long { 300 } else { 12 } {
        let mut img = r.pick(&base).clone();
        for x in img.iter_mut() {
            if r.chance(if long { 0.02 } else { 0.15 }) {
                *x = match r.n(4) {
                    0 => 0.0,
                    1 => 1.0,
                    _ => r.f(),
                };
            }
        }
        let info = format!("truth classifier: {} channels {}x{} quantised {} confidence {} step {} image {:?}, {} prototypes", n_ch, w, h, q, conf, step, img, rf.len());
        set_input(&info);
        let mut stim: Vec<B::Channel> = vec![];
        let mut rs: Vec<Vec<V>> = vec![];
        for ch in 0..n_ch {
            let mut m = makeMap2d(h, w);
            let mut want: Vec<V> = vec![];
            for y in 0..h {
                for x in 0..w {
                    let val = img[ch * (w * h) as usize + (y * w + x) as usize];
                    writeAt(&mut m, y, x, val);
                    let level = (val * (q - 1) as f64).floor() as i64;
                    for l in 0..q {
                        want.push(v(if l == level { 1.0 } else { 0.0 }, conf));
                    }
                }
            }
            let got = match guarded(|| B::conv_img_to_tv_vec(&m, q, conf)) {
                Some(g) => g,
                None => return,
            };
            if got.len() != want.len() || !got.iter().zip(&want).all(|(a, b)| V::of(a).near(b)) {
                viol("quantise", format!("{} | channel {} is encoded as {:?}", info, ch, got.iter().map(|x| (x.f, x.c)).collect::<Vec<_>>()));
                return;
            }
            stim.push(B::Channel { v: got });
            rs.push(want);
        }
        let sims: Vec<f64> = rf
            .iter()
            .map(|p| {
                let mut acc = v(0.0, 0.0);
                for ch in 0..n_ch {
                    let mut c = v(0.0, 0.0);
                    for (a, b) in rs[ch].iter().zip(&p.0[ch]) {
                        c = rev(c, comp(*a, *b));
                    }
                    acc = rev(acc, c);
                }
                exp(acc)
            })
            .collect();
        let got_s = match guarded(|| B::calc_sims(&stim, &cls)) {
            Some(x) => x,
            None => return,
        };
        if got_s.len() != sims.len() || !got_s.iter().zip(&sims).all(|(a, b)| close(*a, *b)) {
            viol("similarity", format!("{} | similarities are {:?}, should be {:?}", info, got_s, sims));
            return;
        }
        let learn = r.chance(0.7);
        // any time may be given
        time += if r.chance(0.1) { r.n(200) as i64 - 100 } else { r.n(4) as i64 };
        let res = match guarded(|| B::classify(&mut cls, &stim, time, learn)) {
            Some(x) => x,
            None => return,
        };
        match best(&sims) {
            Err(()) => return, // decided by rounding
            Ok(None) => {
                let want = if learn { Some(rf.len()) } else { None };
                if res != want {
                    viol("classify", format!("{} | learning {} gives {:?}, should be {:?}; similarities {:?}", info, learn, res, want, sims));
                    return;
                }
                if learn {
                    rf.push((rs.clone(), time));
                    cnt("new prototypes", 1);
                } else {
                    cnt("not recognised", 1);
                }
            }
            Ok(Some(c)) => {
                let i = match res {
                    Some(i) if c.contains(&i) => i,
                    _ => {
                        viol("classify", format!("{} | learning {} gives {:?}, should be one of {:?}; similarities {:?}", info, learn, res, c, sims));
                        return;
                    }
                };
                if learn {
                    for ch in 0..n_ch {
                        for (a, b) in rf[i].0[ch].iter_mut().zip(&rs[ch]) {
                            *a = rev(*a, *b);
                        }
                    }
                    rf[i].1 = time;
                }
                cnt("recognised", 1);
            }
        }
        if cls.prototypes.len() != rf.len() {
            viol("prototypes", format!("{} | {} prototypes are stored, should be {}", info, cls.prototypes.len(), rf.len()));
            return;
        }
        for (i, (p, e)) in cls.prototypes.iter().zip(&rf).enumerate() {
            if !same_tv(&e.0, &p.channels) || p.last_use_time != e.1 {
                viol("prototypes", format!("{} | learning {}, result {:?}: prototype {} is not as it should be (used {}, should be {})", info, learn, res, i, p.last_use_time, e.1));
                return;
            }
        }
        if cls.n_quantize != q || cls.stimulus_conf != conf {
            viol("prototypes", format!("{} | the settings of the classifier changed", info));
            return;
        }
        ev(("b", n_ch, q, w, h, step, rf.len(), res, learn, sims.iter().map(|x| (x * 1e6) as i64).collect::<Vec<_>>()));
    }
}

fn vision_d(r: &mut Rng) {
    let n_ch = 1 + if r.chance(0.1) { r.n(9) } else { r.n(3) };
    let most = if r.chance(0.05) { 16 } else { 4 };
    let (w, h) = (1 + r.n(most) as i32, 1 + r.n(most) as i32);
    let n = (w * h) as usize;
    let mut cls = D::RealPrototypeClassifier { prototypes: vec![] };
    // sum, count, time
    let mut rf: Vec<(Vec<Vec<f64>>, i64, i64)> = vec![];
    let spread = *r.pick(&[0.3, 1.0, 3.0]);
    let long = r.chance(0.05);
    let base: Vec<Vec<f64>> = (0..if long { 1 } else { 2 + r.n(4) }).map(|_| (0..n_ch * n).map(|_| (r.f() - 0.3) * spread).collect()).collect();
    let mut time = r.n(5) as i64;
    for step in 0..if long { 300 } else { 12 } {
        let mut img = r.pick(&base).clone();
        for x in img.iter_mut() {
            if r.chance(0.3) {
                *x += (r.f() - 0.5) * spread * if long { 0.1 } else { 0.8 };
            }
        }
        let info = format!("real classifier: {} channels {}x{} step {} image {:?}, {} prototypes", n_ch, w, h, step, img, rf.len());
        set_input(&info);
        let mut stim: Vec<D::Channel> = vec![];
        for ch in 0..n_ch {
            let mut m = makeMap2d(h, w);
            for y in 0..h {
                for x in 0..w {
                    writeAt(&mut m, y, x, img[ch * n + (y * w + x) as usize]);
                }
            }
            stim.push(D::Channel { v: m });
        }
        let sims: Vec<f64> = rf
            .iter()
            .map(|p| {
                let mut d = 0.0;
                for ch in 0..n_ch {
                    for k in 0..n {
                        let e = img[ch * n + k] - p.0[ch][k] / p.1 as f64;
                        d += e * e;
                    }
                }
                (-0.5 * d).exp()
            })
            .collect();
        let got_s = match guarded(|| D::calc_sims(&stim, &cls)) {
            Some(x) => x,
            None => return,
        };
        if got_s.len() != sims.len() || !got_s.iter().zip(&sims).all(|(a, b)| close(*a, *b)) {
            viol("similarity", format!("{} | similarities are {:?}, should be {:?}", info, got_s, sims));
            return;
        }
        let learn = r.chance(0.7);
        // any time may be given
        time += if r.chance(0.1) { r.n(200) as i64 - 100 } else { r.n(4) as i64 };
        let res = match guarded(|| D::classify(&mut cls, &stim, time, learn)) {
            Some(x) => x,
            None => return,
        };
        match best(&sims) {
            Err(()) => return,
            Ok(None) => {
                let want = if learn { Some(rf.len()) } else { None };
                if res != want {
                    viol("classify", format!("{} | learning {} gives {:?}, should be {:?}; similarities {:?}", info, learn, res, want, sims));
                    return;
                }
                if learn {
                    rf.push(((0..n_ch).map(|c| img[c * n..(c + 1) * n].to_vec()).collect(), 1, time));
                    cnt("new prototypes", 1);
                } else {
                    cnt("not recognised", 1);
                }
            }
            Ok(Some(c)) => {
                let i = match res {
                    Some(i) if c.contains(&i) => i,
                    _ => {
                        viol("classify", format!("{} | learning {} gives {:?}, should be one of {:?}; similarities {:?}", info, learn, res, c, sims));
                        return;
                    }
                };
                if learn {
                    for ch in 0..n_ch {
                        for k in 0..n {
                            rf[i].0[ch][k] += img[ch * n + k];
                        }
                    }
                    rf[i].1 += 1;
                    rf[i].2 = time;
                }
                cnt("recognised", 1);
            }
        }
        if cls.prototypes.len() != rf.len() {
            viol("prototypes", format!("{} | {} prototypes are stored, should be {}", info, cls.prototypes.len(), rf.len()));
            return;
        }
        for (i, (p, e)) in cls.prototypes.iter().zip(&rf).enumerate() {
            let mut ok = p.evidence_count == e.1 && p.last_use_time == e.2 && p.channels.len() == n_ch;
            for ch in 0..n_ch {
                for y in 0..h {
                    for x in 0..w {
                        ok = ok && close(readAt(&p.channels[ch].v, y, x), e.0[ch][(y * w + x) as usize]);
                    }
                }
            }
            if !ok {
                viol("prototypes", format!("{} | learning {}, result {:?}: prototype {} is not as it should be (count {} used {}, should be {} {})", info, learn, res, i, p.evidence_count, p.last_use_time, e.1, e.2));
                return;
            }
        }
        ev(("d", n_ch, w, h, step, rf.len(), res, learn, sims.iter().map(|x| (x * 1e6) as i64).collect::<Vec<_>>()));
    }
}

fn conv(r: &mut Rng) {
    let big = r.chance(0.05);
    let (w, h) = (1 + r.n(if big { 50 } else { 14 }) as i32, 1 + r.n(if big { 50 } else { 14 }) as i32);
    let (kw, kh) = (1 + r.n(if big { 13 } else { 6 }) as i32, 1 + r.n(if big { 13 } else { 6 }) as i32);
    let mut m = makeMap2d(h, w);
    let mut k = makeMap2d(kh, kw);
    for y in 0..h {
        for x in 0..w {
            writeAt(&mut m, y, x, (r.f() - 0.5) * 4.0);
        }
    }
    for y in 0..kh {
        for x in 0..kw {
            writeAt(&mut k, y, x, (r.f() - 0.5) * 4.0);
        }
    }
    let info = format!("convolution of a grid w={} h={} with a kernel w={} h={}", w, h, kw, kh);
    set_input(&info);
    let (a, b) = match guarded(|| (C::convo(&m, &k), C::convWithoutBorder(&m, &k))) {
        Some(x) => x,
        None => return,
    };
    if (a.w, a.h, b.w, b.h) != (w, h, w, h) {
        viol("convolution", format!("{} | the results have another size", info));
        return;
    }
    for y in 0..h {
        for x in 0..w {
            let mut s = 0.0;
            for ky in 0..kh {
                for kx in 0..kw {
                    let (yy, xx) = (y + ky - kh / 2, x + kx - kw / 2);
                    if yy >= 0 && xx >= 0 && yy < h && xx < w {
                        s += k.arr[(ky * kw + kx) as usize] * m.arr[(yy * w + xx) as usize];
                    }
                }
            }
            let inner = y >= kh / 2 + 1 && y < h - (kh / 2 + 1) && x >= kw / 2 + 1 && x < w - (kw / 2 + 1);
            let (ga, gb) = (readAt(&a, y, x), readAt(&b, y, x));
            if !close(ga, s) || !close(gb, if inner { s } else { 0.0 }) {
                viol("convolution", format!("{} | cell y={} x={}: {} and without border {}, should be {} and {}", info, y, x, ga, gb, s, if inner { s } else { 0.0 }));
                return;
            }
        }
    }
    ev(("conv", w, h, kw, kh, a.arr[0].to_bits()));
    cnt("convolutions", 1);
}

fn gabor(r: &mut Rng) {
    let n = 1 + if r.chance(0.1) { r.n(70) } else { r.n(16) } as i32;
    let (phi, lambda, off, asp) = ((r.f() - 0.5) * 8.0, 0.1 + r.f() * 2.0, (r.f() - 0.5) * 6.0, 0.2 + r.f() * 2.0);
    let info = format!("filter kernel width {} angle {} wavelength {} phase {} aspect {}", n, phi, lambda, off, asp);
    set_input(&info);
    let k = match guarded(|| C::generateGaborKernel(n, phi, lambda, off, asp)) {
        Some(x) => x,
        None => return,
    };
    if k.w != n || k.h != n {
        viol("kernel", format!("{} | size {}x{}", info, k.w, k.h));
        return;
    }
    let sigma = 0.56 * lambda;
    for iy in 0..n {
        for ix in 0..n {
            let x = (ix - n / 2) as f64 / n as f64 * 2.0;
            let y = (iy - n / 2) as f64 / n as f64 * 2.0;
            let (c, s) = (phi.cos(), phi.sin());
            let (u, t) = (c * x + s * y, c * y - s * x);
            let want = (-(u * u + (asp * t) * (asp * t)) / (2.0 * sigma * sigma)).exp() * (2.0 * std::f64::consts::PI * u / lambda + off).cos();
            if !close(readAt(&k, iy, ix), want) {
                viol("kernel", format!("{} | cell y={} x={} is {}, should be {}", info, iy, ix, readAt(&k, iy, ix), want));
                return;
            }
        }
    }
    ev(("gabor", n, phi.to_bits()));
    cnt("filter kernels", 1);
}

/// the decision itself, with similarities exactly at the limit
fn decide(r: &mut Rng) {
    let n = if r.chance(0.1) { r.n(60) } else { r.n(6) };
    let sims: Vec<f64> = (0..n)
        .map(|_| match r.n(5) {
            0 => 0.5,
            1 => 0.5 - f64::EPSILON,
            2 => 0.5 + f64::EPSILON,
            3 => r.f() * 0.5,
            _ => r.f(),
        })
        .collect();
    let m = sims.iter().cloned().fold(-1.0, f64::max);
    for (name, got) in [("truth", guarded(|| B::classify_max(&sims))), ("real", guarded(|| D::classify_max(&sims)))] {
        let ok = match got {
            None => return,
            Some(None) => m < 0.5,
            Some(Some((i, s))) => m >= 0.5 && i < n && sims[i] == m && s == m,
        };
        ev(format!("decide {} {:?}", name, sims));
        if !ok {
            viol("decide", format!("{} classifier: similarities {:?} decided as {:?}", name, sims, got));
            return;
        }
    }
    cnt("decisions", 1);
}

fn main() {
    let cfg = init("C28", 6.0, 90.0, "one evaluation per classified stimulus (all prototypes compared with the reference afterwards), per convolution and per filter kernel; distinct by inputs and history");
    assume("stimuli have values between 0 and 1 for the truth-valued classifier, and as many channels of the same size as the prototypes; ties within rounding may be decided either way");
    let dl = cfg.deadline();
    par(&cfg, 4, 28, |_i, r| {
        until(dl, || {
            vision_b(r);
            vision_d(r);
            for _ in 0..5 {
                conv(r);
            }
            gabor(r);
            decide(r);
        });
    });
    sample(get_input());
    finish();
}
