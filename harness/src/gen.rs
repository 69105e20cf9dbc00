//! workload generators
use crate::r::R::*;
use crate::r::*;
use crate::tvr::{v, V};
use crate::Rng;

#[derive(Clone)]
pub struct G {
    pub names: Vec<String>,
    pub vars: Vec<String>,
    /// probability that a leaf is a variable
    pub pvar: f64,
    /// probability to stop at an inner node
    pub pleaf: f64,
    /// only terms which can be written
    pub writable: bool,
    pub img: bool,
    /// maximal nesting of round brackets
    pub parens: usize,
    /// copulas to use
    pub cops: Vec<Cop>,
}

pub fn strs(s: &[&str]) -> Vec<String> {
    s.iter().map(|x| x.to_string()).collect()
}

impl G {
    pub fn new(names: &[&str]) -> G {
        G {
            names: strs(names),
            vars: strs(&["x", "y"]),
            pvar: 0.15,
            pleaf: 0.3,
            writable: true,
            img: true,
            parens: 3,
            cops: COPS.to_vec(),
        }
    }
    pub fn novar(mut self) -> G {
        self.pvar = 0.0;
        self
    }
    pub fn any(mut self) -> G {
        self.writable = false;
        self
    }
    pub fn leaf(&self, r: &mut Rng) -> R {
        if r.chance(self.pvar) {
            self.var(r)
        } else {
            Nm(r.pick(&self.names).clone())
        }
    }
    pub fn var(&self, r: &mut Rng) -> R {
        let n = r.pick(&self.vars).clone();
        match r.n(3) {
            0 => Q(n),
            1 => D(n),
            _ => I(n),
        }
    }
    pub fn many(&self, r: &mut Rng, lo: usize, hi: usize, depth: usize, parens: usize) -> Vec<R> {
        if hi > 2 && r.chance(0.04) {
            // long ones, of mostly small parts
            let n = r.range(hi as i64 + 1, 10) as usize;
            return (0..n).map(|_| self.term_p(r, depth.min(2), 0)).collect();
        }
        let n = r.range(lo as i64, hi as i64) as usize;
        (0..n).map(|_| self.term_p(r, depth, parens)).collect()
    }
    pub fn term(&self, r: &mut Rng, depth: usize) -> R {
        self.term_p(r, depth, self.parens)
    }
    fn term_p(&self, r: &mut Rng, depth: usize, parens: usize) -> R {
        if depth <= 1 || r.chance(self.pleaf) {
            return self.leaf(r);
        }
        let d = depth - 1;
        if parens == 0 || r.chance(0.45) {
            return match r.n(6) {
                0 => SInt(if self.writable { vec![self.term_p(r, d, parens)] } else { self.many(r, 1, 3, d, parens) }),
                1 => SExt(if self.writable { vec![self.term_p(r, d, parens)] } else { self.many(r, 1, 3, d, parens) }),
                _ => self.stmt_p(r, d, parens),
            };
        }
        let p = parens - 1;
        let w = self.writable;
        match r.n(if w { 8 } else { 9 }) {
            0 => Seq(self.many(r, if w { 2 } else { 1 }, 4, d, p)),
            1 if w => {
                let n = 2 + r.n(3);
                Conj((0..n).map(|_| self.term_p(r, d, p)).collect())
            }
            1 => Conj(self.many(r, 2, 4, d, p)),
            2 => Prod(self.many(r, if w { 2 } else { 1 }, 4, d, p)),
            3 => IInt(if w { self.many(r, 2, 2, d, p) } else { self.many(r, 1, 4, d, p) }),
            4 => EInt(if w { self.many(r, 2, 2, d, p) } else { self.many(r, 1, 4, d, p) }),
            5 => Neg(Box::new(self.term_p(r, d, p))),
            6 | 7 => {
                if self.img {
                    let rel = self.term_p(r, d, p);
                    let i = r.n(2);
                    let n = if w { 1 } else { 1 + r.n(2) };
                    Img(Box::new(rel), i, (0..n).map(|_| self.term_p(r, d, p)).collect())
                } else {
                    Prod(self.many(r, 2, 3, d, p))
                }
            }
            _ => Par(self.many(r, 1, 3, d, p)),
        }
    }
    fn stmt_p(&self, r: &mut Rng, d: usize, parens: usize) -> R {
        let c = *r.pick(&self.cops);
        let a = self.term_p(r, d, parens);
        let b = self.term_p(r, d, parens);
        st(c, a, b)
    }
    /// statement at the top
    pub fn stmt(&self, r: &mut Rng, depth: usize) -> R {
        self.stmt_p(r, depth.max(2) - 1, self.parens)
    }

    /// change exactly one place
    pub fn mutate(&self, r: &mut Rng, t: &R) -> R {
        let n = t.subs().len();
        let at = r.n(n);
        let mut i = 0;
        fn go(g: &G, t: &R, r: &mut Rng, at: usize, i: &mut usize) -> R {
            let me = *i;
            *i += 1;
            if me == at {
                return g.change(r, t);
            }
            t.map_kids(&mut |k| go(g, k, r, at, i))
        }
        go(self, t, r, at, &mut i)
    }

    /// change of the node itself
    fn change(&self, r: &mut Rng, t: &R) -> R {
        match r.n(5) {
            0 => return self.term(r, 2),
            1 => return self.leaf(r),
            _ => {}
        }
        match t {
            St(c, a, b) => match r.n(3) {
                0 => St(*c, b.clone(), a.clone()),
                _ => St(*r.pick(&self.cops), a.clone(), b.clone()),
            },
            Nm(s) => {
                let s = s.clone();
                match r.n(4) {
                    0 => Q(s),
                    1 => D(s),
                    2 => I(s),
                    _ => SInt(vec![Nm(s)]),
                }
            }
            Q(s) => [D(s.clone()), I(s.clone()), Nm(s.clone())][r.n(3)].clone(),
            D(s) => [Q(s.clone()), I(s.clone()), Nm(s.clone())][r.n(3)].clone(),
            I(s) => [D(s.clone()), Q(s.clone()), Nm(s.clone())][r.n(3)].clone(),
            SInt(v) => SExt(v.clone()),
            SExt(v) => SInt(v.clone()),
            Neg(x) => (**x).clone(),
            Img(rel, i, v) => match r.n(3) {
                0 => Img(rel.clone(), 1 - (*i).min(1), v.clone()),
                1 if v.len() == 1 => Img(Box::new(v[0].clone()), *i, vec![(**rel).clone()]),
                _ => Prod(vec![(**rel).clone(), v[0].clone()]),
            },
            Seq(v) | Conj(v) | Prod(v) | IInt(v) | EInt(v) | Par(v) => {
                let mut v = v.clone();
                match r.n(4) {
                    0 => v.reverse(),
                    1 => {
                        let x = self.leaf(r);
                        v.push(x)
                    }
                    2 if v.len() > 1 => {
                        v.pop();
                    }
                    _ => {}
                }
                match (r.n(3), t) {
                    (0, _) => match r.n(5) {
                        0 => Seq(v),
                        1 => Conj(v),
                        2 => Prod(v),
                        3 => IInt(v),
                        _ => EInt(v),
                    },
                    (_, Seq(_)) => Seq(v),
                    (_, Conj(_)) => Conj(v),
                    (_, Prod(_)) => Prod(v),
                    (_, IInt(_)) => IInt(v),
                    (_, EInt(_)) => EInt(v),
                    (_, _) => Par(v),
                }
            }
        }
    }

    /// replace the variables by terms
    pub fn ground(&self, r: &mut Rng, t: &R, depth: usize) -> (R, Vec<(R, R)>) {
        let mut m: Vec<(R, R)> = vec![];
        for s in t.usubs() {
            if s.is_var() {
                let mut g = self.clone();
                g.pvar = 0.0;
                m.push((s, g.term(r, depth)));
            }
        }
        (rsubst(t, &m), m)
    }
    /// replace some subterms by variables
    pub fn abstr(&self, r: &mut Rng, t: &R) -> R {
        let subs = t.usubs();
        let n = 1 + r.n(2);
        let mut m: Vec<(R, R)> = vec![];
        for i in 0..n {
            let x = r.pick(&subs).clone();
            if x.is_var() {
                continue;
            }
            let name = format!("v{}", i);
            let w = match r.n(3) {
                0 => Q(name),
                1 => D(name),
                _ => I(name),
            };
            m.push((x, w));
        }
        rsubst(t, &m)
    }
}

/// legal truth value, often at the extremes
pub fn gv(r: &mut Rng) -> V {
    let f = match r.n(6) {
        0 => 0.0,
        1 | 2 => 1.0,
        _ => r.f(),
    };
    let c = match r.n(8) {
        0 => 0.0,
        1 | 2 => 0.9,
        3 => 0.99,
        4 => 0.999,
        _ => r.f() * 0.9999,
    };
    v(f, c)
}
/// ordinary truth value with some confidence
pub fn gv_plain(r: &mut Rng) -> V {
    v(r.range(1, 20) as f64 / 20.0, r.range(1, 19) as f64 / 20.0)
}
