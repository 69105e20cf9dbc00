//! C27: grids, per cell reference geometry
#![allow(non_snake_case)]
use nar20_1::Map2d::*;
use vh::*;

#[derive(Clone)]
struct Ref {
    w: i64,
    h: i64,
    c: Vec<f64>,
}
impl Ref {
    fn at(&self, y: i64, x: i64) -> f64 {
        if x < 0 || y < 0 || x >= self.w || y >= self.h {
            0.0
        } else {
            self.c[(y * self.w + x) as usize]
        }
    }
}

fn same(m: &Map2d<f64>, e: &Ref) -> Option<String> {
    if m.w as i64 != e.w || m.h as i64 != e.h || m.arr.len() != e.c.len() {
        return Some(format!("size is {}x{} with {} cells, should be {}x{}", m.w, m.h, m.arr.len(), e.w, e.h));
    }
    for y in 0..e.h {
        for x in 0..e.w {
            let g = readAt(m, y as i32, x as i32);
            let w = e.at(y, x);
            if g != w && !close(g, w) {
                return Some(format!("cell y={} x={} is {}, should be {}", y, x, g, w));
            }
        }
    }
    None
}

fn coord(r: &mut Rng, n: i64) -> i64 {
    match r.n(10) {
        0 => 0,
        1 => n - 1,
        2 => n,
        3 => -1,
        4 => -r.range(1, 12),
        5 => n + r.range(0, 12),
        6 if r.chance(0.3) => r.range(-1_000_000, 1_000_000),
        _ => r.range(0, (n - 1).max(0)),
    }
}

fn diff_or_viol(class: &str, info: &str, m: &Map2d<f64>, e: &Ref) -> bool {
    if let Some(d) = same(m, e) {
        viol(class, format!("{} | {}", info, d));
        return false;
    }
    true
}

fn random_grid(r: &mut Rng, w: i64, h: i64) -> (Map2d<f64>, Ref) {
    let mut m = makeMap2d(h as i32, w as i32);
    let mut e = Ref { w, h, c: vec![0.0; (w * h) as usize] };
    if !r.chance(0.15) {
        for y in 0..h {
            for x in 0..w {
                let val = if r.chance(0.2) { 0.0 } else { ((r.f() - 0.5) * 200.0).round() / 8.0 };
                writeAt(&mut m, y as i32, x as i32, val);
                e.c[(y * w + x) as usize] = val;
            }
        }
    }
    (m, e)
}

fn run(r: &mut Rng) {
    let dim = |r: &mut Rng| match r.n(6) {
        0 => 1,
        1 => 2,
        2 => r.range(0, 40),
        3 if r.chance(0.05) => r.range(40, 150),
        _ => r.range(1, 14),
    };
    let (w, h) = (dim(r), dim(r));
    let info0 = format!("grid w={} h={}", w, h);
    set_input(&info0);
    let z = match guarded(|| makeMap2d(h as i32, w as i32)) {
        Some(z) => z,
        None => return,
    };
    if !diff_or_viol("new", &info0, &z, &Ref { w, h, c: vec![0.0; (w * h) as usize] }) {
        return;
    }
    let (mut m, mut e) = random_grid(r, w, h);
    if !diff_or_viol("write", &format!("{} filled cell by cell", info0), &m, &e) {
        return;
    }
    for _ in 0..12 {
        let val = ((r.f() - 0.5) * 100.0).round() / 4.0;
        let k = r.n(12);
        let (x, y) = (coord(r, w), coord(r, h));
        match k {
            0 => {
                let info = format!("{} read y={} x={}", info0, y, x);
                set_input(&info);
                if let Some(g) = guarded(|| readAt(&m, y as i32, x as i32)) {
                    if g != e.at(y, x) {
                        viol("read", format!("{} | gives {}, should be {}", info, g, e.at(y, x)));
                        return;
                    }
                } else {
                    return;
                }
                ev(("r", w, h, x, y));
            }
            1 => {
                let info = format!("{} write y={} x={}", info0, y, x);
                set_input(&info);
                if guarded(|| writeAt(&mut m, y as i32, x as i32, val)).is_none() {
                    return;
                }
                if x >= 0 && y >= 0 && x < w && y < h {
                    e.c[(y * w + x) as usize] = val;
                }
                if !diff_or_viol("write", &info, &m, &e) {
                    return;
                }
                ev(("w", w, h, x, y));
            }
            2 => {
                let most = if r.chance(0.1) { 70 } else { 16 };
                let (sx, sy) = (r.range(0, most), r.range(0, most));
                let info = format!("{} crop x={} y={} sx={} sy={}", info0, x, y, sx, sy);
                set_input(&info);
                let c = match guarded(|| crop(&m, x as i32, y as i32, sx as i32, sy as i32)) {
                    Some(c) => c,
                    None => return,
                };
                let mut want = Ref { w: sx, h: sy, c: vec![] };
                for iy in 0..sy {
                    for ix in 0..sx {
                        want.c.push(e.at(y + iy, x + ix));
                    }
                }
                if !diff_or_viol("crop", &info, &c, &want) || !diff_or_viol("crop-source", &info, &m, &e) {
                    return;
                }
                ev(("crop", w, h, x, y, sx, sy));
            }
            3 | 4 => {
                let (bw, bh) = (r.range(-2, 20), r.range(-2, 20));
                let info = format!("{} box x={} y={} w={} h={}", info0, x, y, bw, bh);
                set_input(&info);
                if guarded(|| map2dDrawBox(&mut m, x as i32, y as i32, bw as i32, bh as i32, val)).is_none() {
                    return;
                }
                for iy in 0..h {
                    for ix in 0..w {
                        if ix >= x && ix < x + bw && iy >= y && iy < y + bh {
                            e.c[(iy * w + ix) as usize] = val;
                        }
                    }
                }
                if !diff_or_viol("box", &info, &m, &e) {
                    return;
                }
                ev(("box", w, h, x, y, bw, bh));
            }
            5 | 6 => {
                let rad = if r.chance(0.15) { r.range(12, 80) } else { r.range(-1, 12) };
                let info = format!("{} disc x={} y={} r={}", info0, x, y, rad);
                set_input(&info);
                if guarded(|| map2dDrawCircle(&mut m, x as i32, y as i32, rad as i32, val)).is_none() {
                    return;
                }
                for iy in 0..h {
                    for ix in 0..w {
                        let d2 = (ix - x) * (ix - x) + (iy - y) * (iy - y);
                        if rad >= 0 && d2 <= rad * rad {
                            e.c[(iy * w + ix) as usize] = val;
                        }
                    }
                }
                if !diff_or_viol("disc", &info, &m, &e) {
                    return;
                }
                ev(("disc", w, h, x, y, rad));
            }
            7 | 8 => {
                let (bx, by) = (coord(r, w), coord(r, h));
                let far = x.abs().max(y.abs()).max(bx.abs()).max(by.abs());
                if (bx, by) == (x, y) || far > 2000 {
                    continue;
                }
                let info = format!("{} line from x={} y={} to x={} y={}", info0, x, y, bx, by);
                set_input(&info);
                if guarded(|| drawLine(&mut m, x as i32, y as i32, bx as i32, by as i32, val)).is_none() {
                    return;
                }
                // in integers: projection between the ends, distance at most 1.5
                let (dx, dy) = (bx - x, by - y);
                let l2 = dx * dx + dy * dy;
                for iy in 0..h {
                    for ix in 0..w {
                        let (px, py) = (ix - x, iy - y);
                        let dot = px * dx + py * dy;
                        let cross = px * dy - py * dx;
                        let c2 = 4 * cross * cross;
                        let g = readAt(&m, iy as i32, ix as i32);
                        let old = e.at(iy, ix);
                        // borders are subject to rounding
                        if dot == 0 || dot == l2 || c2 == 9 * l2 {
                            if dot == 0 && cross == 0 && g != val {
                                viol("line", format!("{} | the start is not drawn", info));
                                return;
                            }
                            if g != val && g != old {
                                viol("line", format!("{} | cell y={} x={} is {}, was {}", info, iy, ix, g, old));
                                return;
                            }
                            e.c[(iy * w + ix) as usize] = g;
                            continue;
                        }
                        let want = if dot > 0 && dot < l2 && c2 < 9 * l2 { val } else { old };
                        if g != want {
                            viol("line", format!("{} | cell y={} x={} is {}, should be {}", info, iy, ix, g, want));
                            return;
                        }
                        e.c[(iy * w + ix) as usize] = want;
                    }
                }
                ev(("line", w, h, x, y, bx, by));
            }
            9 => {
                let (w2, h2) = if r.chance(0.6) { (w, h) } else { (dim(r), dim(r)) };
                let (m2, e2) = random_grid(r, w2, h2);
                let info = format!("{} combined with w={} h={}", info0, w2, h2);
                set_input(&info);
                let (a, s) = match guarded(|| (add(&m, &m2), sub(&m, &m2))) {
                    Some(x) => x,
                    None => return,
                };
                let mk = |f: &dyn Fn(f64, f64) -> f64| {
                    let mut o = Ref { w, h, c: vec![] };
                    for iy in 0..h {
                        for ix in 0..w {
                            o.c.push(f(e.at(iy, ix), e2.at(iy, ix)));
                        }
                    }
                    o
                };
                let ok = diff_or_viol("add", &info, &a, &mk(&|p, q| p + q)) && diff_or_viol("sub", &info, &s, &mk(&|p, q| p - q)) && diff_or_viol("operand", &info, &m, &e) && diff_or_viol("operand", &info, &m2, &e2);
                if !ok {
                    return;
                }
                ev(("addsub", w, h, w2, h2, val.to_bits()));
            }
            10 => {
                let d = match r.n(4) {
                    0 => 1.0,
                    1 => -4.0,
                    _ => 0.25 + r.f() * 10.0,
                };
                let info = format!("{} divided by {}", info0, d);
                set_input(&info);
                let q = match guarded(|| divScalar(&m, d)) {
                    Some(x) => x,
                    None => return,
                };
                let want = Ref { w, h, c: e.c.iter().map(|x| x / d).collect() };
                if !diff_or_viol("div", &info, &q, &want) {
                    return;
                }
                ev(("div", w, h, d.to_bits()));
            }
            _ => {
                let info = format!("{} measured and copied", info0);
                set_input(&info);
                let (d, c) = match guarded(|| (distPow2(&m), nar20_1::Map2d::clone(&m))) {
                    Some(x) => x,
                    None => return,
                };
                let want: f64 = e.c.iter().map(|x| x * x).sum();
                if !close(d, want) {
                    viol("measure", format!("{} | square of the length is {}, should be {}", info, d, want));
                    return;
                }
                if !diff_or_viol("copy", &info, &c, &e) {
                    return;
                }
                ev(("dist", w, h, d.to_bits()));
            }
        }
        cnt(
            match k {
                0 => "reads",
                1 => "writes",
                2 => "crops",
                3 | 4 => "boxes",
                5 | 6 => "discs",
                7 | 8 => "lines",
                9 => "sums and differences",
                10 => "divisions",
                _ => "measures and copies",
            },
            1,
        );
    }
}

fn main() {
    let cfg = init("C27", 5.0, 60.0, "one evaluation per call, compared cell by cell with the geometric definition; distinct by grid size and arguments");
    assume("coordinates within a million cells of the grid (2000 for lines), sizes not negative for cropped parts; cells exactly on the border of a line are not judged");
    let dl = cfg.deadline();
    par(&cfg, 4, 27, |_i, r| {
        until(dl, || run(r));
    });
    sample(get_input());
    finish();
}
