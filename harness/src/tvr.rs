//! reference truth functions, written from the NAL definitions
use nar20_1::Tv::Tv;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct V {
    pub f: f64,
    pub c: f64,
}
pub fn v(f: f64, c: f64) -> V {
    V { f, c }
}
impl V {
    pub fn t(&self) -> Tv {
        Tv { f: self.f, c: self.c }
    }
    pub fn of(t: &Tv) -> V {
        V { f: t.f, c: t.c }
    }
    pub fn near(&self, o: &V) -> bool {
        crate::close(self.f, o.f) && crate::close(self.c, o.c)
    }
    pub fn legal(&self) -> bool {
        self.f >= 0.0 && self.f <= 1.0 && self.c >= 0.0 && self.c < 1.0
    }
}

/// amount of evidence to confidence, horizon 1
pub fn w2c(w: f64) -> f64 {
    let c = w / (w + 1.0);
    c.min(1.0 - f64::EPSILON)
}
pub fn c2w(c: f64) -> f64 {
    c / (1.0 - c)
}
pub fn exp(a: V) -> f64 {
    a.c * (a.f - 0.5) + 0.5
}
pub fn negv(a: V) -> V {
    v(1.0 - a.f, a.c)
}
pub fn ded(a: V, b: V) -> V {
    v(a.f * b.f, a.f * b.f * a.c * b.c)
}
pub fn ded_goal(a: V, b: V) -> V {
    let x = ded(a, b);
    let y = negv(ded(negv(a), b));
    if x.c >= y.c {
        x
    } else {
        y
    }
}
/// {P->M, S->M} |- S->P ... frequency of the first premise, evidence only when the second is positive
pub fn abd(a: V, b: V) -> V {
    v(a.f, w2c(b.f * a.c * b.c))
}
pub fn ind(a: V, b: V) -> V {
    v(b.f, w2c(a.f * a.c * b.c))
}
pub fn rev(a: V, b: V) -> V {
    let (wa, wb) = (c2w(a.c), c2w(b.c));
    let w = wa + wb;
    v(if w > 0.0 { (wa * a.f + wb * b.f) / w } else { 0.0 }, w2c(w))
}
pub fn comp(a: V, b: V) -> V {
    let o = a.f + b.f - a.f * b.f;
    v(if o < 1.0e-8 { 0.0 } else { a.f * b.f / o }, w2c(o * a.c * b.c))
}
pub fn int(a: V, b: V) -> V {
    v(a.f * b.f, a.c * b.c)
}
