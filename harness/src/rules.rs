//! reference inference rules, written from their textual definition
use crate::r::R::*;
use crate::r::*;
use crate::tvr::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum P {
    J,
    Q,
    G,
}
impl P {
    pub fn e(self) -> nar20_1::NarSentence::EnumPunctation {
        use nar20_1::NarSentence::EnumPunctation as E;
        match self {
            P::J => E::JUGEMENT,
            P::Q => E::QUESTION,
            P::G => E::GOAL,
        }
    }
    pub fn of(p: nar20_1::NarSentence::EnumPunctation) -> P {
        use nar20_1::NarSentence::EnumPunctation as E;
        match p {
            E::JUGEMENT => P::J,
            E::QUESTION => P::Q,
            E::GOAL => P::G,
        }
    }
    pub fn s(self) -> &'static str {
        match self {
            P::J => ".",
            P::Q => "?",
            P::G => "!",
        }
    }
}

/// premise
#[derive(Clone, Debug)]
pub struct Pr {
    pub t: R,
    pub p: P,
    pub v: Option<V>,
}
impl Pr {
    pub fn txt(&self) -> String {
        match self.v {
            Some(x) => format!("{}{} {{{} {}}}", self.t.src(), self.p.s(), x.f, x.c),
            None => format!("{}{}", self.t.src(), self.p.s()),
        }
    }
}

pub struct Cl {
    pub t: R,
    pub v: V,
    pub rule: &'static str,
}

/// conclusions of two judgements (or an implication question and a judgement); both orders
pub fn binary(a: &Pr, b: &Pr) -> Vec<Cl> {
    let mut res = ordered(a, b);
    res.extend(ordered(b, a));
    res
}

fn ordered(a: &Pr, b: &Pr) -> Vec<Cl> {
    let mut res: Vec<Cl> = vec![];
    let mut add = |t: R, v: V, rule: &'static str| res.push(Cl { t, v, rule });
    if a.p == P::Q && b.p == P::J {
        // a ==> x?   x'.  |- (a ==> x)' with the truth of x'
        if let St(Cop::Impl, _, x) = &a.t {
            if let Some(s) = runify(x, &b.t) {
                add(rsubst(&a.t, &s), b.v.unwrap(), "impl-backward");
            }
        }
        return res;
    }
    if a.p != P::J || b.p != P::J {
        return res;
    }
    let (av, bv) = (a.v.unwrap(), b.v.unwrap());

    if let St(Cop::Impl, s, x) = &a.t {
        if let Some(m) = runify(s, &b.t) {
            add(rsubst(x, &m), ded(av, bv), "modus-ponens");
        }
        if let Conj(parts) = &**s {
            for i in 0..parts.len().min(4) {
                if let Some(m) = runify(&parts[i], &b.t) {
                    let rest: Vec<R> = parts.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, p)| rsubst(p, &m)).collect();
                    let cond = if rest.len() == 1 { rest[0].clone() } else { Conj(rest) };
                    add(st(Cop::Impl, cond, rsubst(x, &m)), ded(av, bv), "conj-elimination");
                }
            }
        }
    }

    if let (St(ca, sa, pa), St(cb, sb, pb)) = (&a.t, &b.t) {
        let simlike = |c: &Cop| matches!(c, Cop::Inh | Cop::Sim);
        if *ca == Cop::Inh && *cb == Cop::Inh {
            if sa == sb {
                if let (SInt(x), SInt(y)) = (&**pa, &**pb) {
                    let mut u = x.clone();
                    u.extend(y.clone());
                    add(inh((**sa).clone(), SInt(u)), int(av, bv), "property-set");
                }
                if pa != pb {
                    add(inh((**sa).clone(), EInt(vec![(**pa).clone(), (**pb).clone()])), int(av, bv), "intersection");
                    add(inh((**pa).clone(), (**pb).clone()), ind(av, bv), "induction");
                }
            }
            if pa == pb && sa != sb {
                add(inh((**sa).clone(), (**sb).clone()), abd(av, bv), "abduction");
            }
        }
        if simlike(ca) && simlike(cb) {
            if sa == sb && pa != pb {
                add(st(Cop::Sim, (**pa).clone(), (**pb).clone()), comp(av, bv), "compare-pred");
            }
            if pa == pb && sa != sb {
                add(st(Cop::Sim, (**sa).clone(), (**sb).clone()), comp(av, bv), "compare-subj");
            }
        }
        if ca == cb && matches!(ca, Cop::Inh | Cop::Impl | Cop::Pred) && pa == sb && sa != pb {
            add(st(*ca, (**sa).clone(), (**pb).clone()), ded(av, bv), "chain");
        }
    }
    res
}

/// conclusions of one judgement
pub fn single(a: &Pr) -> Vec<Cl> {
    let mut res: Vec<Cl> = vec![];
    if a.p != P::J {
        return res;
    }
    let av = a.v.unwrap();
    let mut add = |t: R, v: V, rule: &'static str| res.push(Cl { t, v, rule });
    match &a.t {
        Neg(x) => add((**x).clone(), negv(av), "negation"),
        St(Cop::Inh, s, p) => {
            if let IInt(v) = &**s {
                for x in v.iter().take(3) {
                    add(inh(x.clone(), (**p).clone()), av, "split-subject");
                }
            }
            if let IInt(v) = &**p {
                for x in v.iter().take(3) {
                    add(inh((**s).clone(), x.clone()), av, "split-predicate");
                }
            }
            if let Prod(v) = &**s {
                if v.len() == 2 {
                    add(inh(v[0].clone(), img((**p).clone(), 0, v[1].clone())), av, "image-1");
                    add(inh(v[1].clone(), img((**p).clone(), 1, v[0].clone())), av, "image-2");
                }
            }
            if let Img(rel, i, v) = &**p {
                if v.len() == 1 && *i == 0 {
                    add(inh(Prod(vec![(**s).clone(), v[0].clone()]), (**rel).clone()), av, "product-1");
                }
                if v.len() == 1 && *i == 1 {
                    add(inh(Prod(vec![v[0].clone(), (**s).clone()]), (**rel).clone()), av, "product-2");
                }
            }
        }
        St(Cop::Sim, s, p) => match (&**s, &**p) {
            (SInt(x), SInt(y)) | (SExt(x), SExt(y)) if x.len() == 1 && y.len() == 1 => {
                add(st(Cop::Sim, x[0].clone(), y[0].clone()), av, "lift-similarity");
            }
            _ => {}
        },
        St(Cop::Pred, s, p) => {
            if let Par(v) = &**p {
                for x in v {
                    add(st(Cop::Pred, (**s).clone(), x.clone()), av, "split-parallel");
                }
            }
        }
        _ => {}
    }
    res
}
