//! independent model of terms
use nar20_1::Term::{Copula, Term};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cop {
    Sim,
    Inh,
    Pred,
    Impl,
    Equiv,
}
pub const COPS: [Cop; 5] = [Cop::Sim, Cop::Inh, Cop::Pred, Cop::Impl, Cop::Equiv];

impl Cop {
    pub fn s(self) -> &'static str {
        match self {
            Cop::Sim => "<->",
            Cop::Inh => "-->",
            Cop::Pred => "=/>",
            Cop::Impl => "==>",
            Cop::Equiv => "<=>",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum R {
    St(Cop, Box<R>, Box<R>),
    Nm(String),
    Seq(Vec<R>),
    SInt(Vec<R>),
    SExt(Vec<R>),
    Q(String),
    D(String),
    I(String),
    Conj(Vec<R>),
    Prod(Vec<R>),
    Img(Box<R>, usize, Vec<R>),
    IInt(Vec<R>),
    EInt(Vec<R>),
    Par(Vec<R>),
    Neg(Box<R>),
}
use R::*;

pub fn nm(s: &str) -> R {
    Nm(s.to_string())
}
pub fn st(c: Cop, a: R, b: R) -> R {
    St(c, Box::new(a), Box::new(b))
}
pub fn inh(a: R, b: R) -> R {
    st(Cop::Inh, a, b)
}
pub fn neg(a: R) -> R {
    Neg(Box::new(a))
}
pub fn img(r: R, i: usize, x: R) -> R {
    Img(Box::new(r), i, vec![x])
}
/// operation call
pub fn op(name: &str, args: Vec<R>) -> R {
    inh(SExt(vec![Prod(args)]), nm(name))
}
pub fn selfr() -> R {
    SExt(vec![nm("SELF")])
}

fn bx(v: &[R]) -> Vec<Box<Term>> {
    v.iter().map(|x| Box::new(x.t())).collect()
}
fn ux(v: &[Box<Term>]) -> Vec<R> {
    v.iter().map(|x| R::of(x)).collect()
}

impl R {
    pub fn t(&self) -> Term {
        match self {
            St(c, a, b) => Term::Stmt(
                match c {
                    Cop::Sim => Copula::SIM,
                    Cop::Inh => Copula::INH,
                    Cop::Pred => Copula::PREDIMPL,
                    Cop::Impl => Copula::IMPL,
                    Cop::Equiv => Copula::EQUIV,
                },
                Box::new(a.t()),
                Box::new(b.t()),
            ),
            Nm(s) => Term::Name(s.to_string()),
            Seq(v) => Term::Seq(bx(v)),
            SInt(v) => Term::SetInt(bx(v)),
            SExt(v) => Term::SetExt(bx(v)),
            Q(s) => Term::QVar(s.to_string()),
            D(s) => Term::DepVar(s.to_string()),
            I(s) => Term::IndepVar(s.to_string()),
            Conj(v) => Term::Conj(bx(v)),
            Prod(v) => Term::Prod(bx(v)),
            Img(r, i, v) => Term::Img(Box::new(r.t()), *i, bx(v)),
            IInt(v) => Term::IntInt(bx(v)),
            EInt(v) => Term::ExtInt(bx(v)),
            Par(v) => Term::Par(bx(v)),
            Neg(x) => Term::Neg(Box::new(x.t())),
        }
    }

    pub fn of(t: &Term) -> R {
        match t {
            Term::Stmt(c, a, b) => St(
                match c {
                    Copula::SIM => Cop::Sim,
                    Copula::INH => Cop::Inh,
                    Copula::PREDIMPL => Cop::Pred,
                    Copula::IMPL => Cop::Impl,
                    Copula::EQUIV => Cop::Equiv,
                },
                Box::new(R::of(a)),
                Box::new(R::of(b)),
            ),
            Term::Name(s) => Nm(s.to_string()),
            Term::Seq(v) => Seq(ux(v)),
            Term::SetInt(v) => SInt(ux(v)),
            Term::SetExt(v) => SExt(ux(v)),
            Term::QVar(s) => Q(s.to_string()),
            Term::DepVar(s) => D(s.to_string()),
            Term::IndepVar(s) => I(s.to_string()),
            Term::Conj(v) => Conj(ux(v)),
            Term::Prod(v) => Prod(ux(v)),
            Term::Img(r, i, v) => Img(Box::new(R::of(r)), *i, ux(v)),
            Term::IntInt(v) => IInt(ux(v)),
            Term::ExtInt(v) => EInt(ux(v)),
            Term::Par(v) => Par(ux(v)),
            Term::Neg(x) => Neg(Box::new(R::of(x))),
        }
    }

    /// direct children, for images: elements, then relation
    pub fn kids(&self) -> Vec<&R> {
        match self {
            St(_, a, b) => vec![a, b],
            Seq(v) | SInt(v) | SExt(v) | Conj(v) | Prod(v) | IInt(v) | EInt(v) | Par(v) => v.iter().collect(),
            Img(r, _, v) => {
                let mut k: Vec<&R> = v.iter().collect();
                k.push(r);
                k
            }
            Neg(x) => vec![x],
            _ => vec![],
        }
    }

    pub fn map_kids(&self, f: &mut dyn FnMut(&R) -> R) -> R {
        match self {
            St(c, a, b) => {
                let a2 = f(a);
                let b2 = f(b);
                st(*c, a2, b2)
            }
            Seq(v) => Seq(v.iter().map(|x| f(x)).collect()),
            SInt(v) => SInt(v.iter().map(|x| f(x)).collect()),
            SExt(v) => SExt(v.iter().map(|x| f(x)).collect()),
            Conj(v) => Conj(v.iter().map(|x| f(x)).collect()),
            Prod(v) => Prod(v.iter().map(|x| f(x)).collect()),
            IInt(v) => IInt(v.iter().map(|x| f(x)).collect()),
            EInt(v) => EInt(v.iter().map(|x| f(x)).collect()),
            Par(v) => Par(v.iter().map(|x| f(x)).collect()),
            Img(r, i, v) => {
                let v2 = v.iter().map(|x| f(x)).collect();
                Img(Box::new(f(r)), *i, v2)
            }
            Neg(x) => Neg(Box::new(f(x))),
            x => x.clone(),
        }
    }

    pub fn is_var(&self) -> bool {
        matches!(self, Q(_) | D(_) | I(_))
    }

    /// all nested terms including itself, with repetitions
    pub fn subs(&self) -> Vec<R> {
        let mut res = vec![];
        fn go(t: &R, res: &mut Vec<R>) {
            res.push(t.clone());
            for k in t.kids() {
                go(k, res);
            }
        }
        go(self, &mut res);
        res
    }
    pub fn usubs(&self) -> Vec<R> {
        let mut v = self.subs();
        v.sort();
        v.dedup();
        v
    }
    pub fn has_var(&self) -> bool {
        self.subs().iter().any(|x| x.is_var())
    }
    pub fn has_img(&self) -> bool {
        self.subs().iter().any(|x| matches!(x, Img(..)))
    }

    pub fn complexity(&self) -> u64 {
        match self {
            St(_, a, b) => 1 + a.complexity() + b.complexity(),
            Neg(x) => 1 + x.complexity(),
            Nm(_) | Q(_) | D(_) | I(_) => 1,
            x => x.kids().iter().map(|k| k.complexity()).sum(),
        }
    }

    pub fn depth(&self) -> usize {
        1 + self.kids().iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    /// nesting of round brackets
    pub fn parens(&self) -> usize {
        let own = match self {
            Seq(_) | Conj(_) | Prod(_) | IInt(_) | EInt(_) | Par(_) | Img(..) | Neg(_) => 1,
            _ => 0,
        };
        own + self.kids().iter().map(|k| k.parens()).max().unwrap_or(0)
    }

    pub fn kind(&self) -> u8 {
        match self {
            St(c, _, _) => 20 + *c as u8,
            Nm(_) => 1,
            Seq(_) => 2,
            SInt(_) => 3,
            SExt(_) => 4,
            Q(_) => 5,
            D(_) => 6,
            I(_) => 7,
            Conj(_) => 8,
            Prod(_) => 9,
            Img(_, i, _) => 10 + *i as u8,
            IInt(_) => 12,
            EInt(_) => 13,
            Par(_) => 14,
            Neg(_) => 15,
        }
    }

    /// input text; star = text for the product operator
    pub fn src_star(&self, star: &str) -> String {
        let j = |v: &[R], sep: &str| v.iter().map(|x| x.src_star(star)).collect::<Vec<_>>().join(sep);
        match self {
            St(c, a, b) => format!("<{} {} {}>", a.src_star(star), c.s(), b.src_star(star)),
            Nm(s) => s.clone(),
            Seq(v) => format!("({})", j(v, ",")),
            SInt(v) => format!("[{}]", j(v, " ")),
            SExt(v) => format!("{{{}}}", j(v, " ")),
            Q(s) => format!("?{}", s),
            D(s) => format!("#{}", s),
            I(s) => format!("${}", s),
            Conj(v) => format!("({})", j(v, "&&")),
            Prod(v) => format!("({})", j(v, star)),
            Img(r, i, v) => format!("({} /{} {})", r.src_star(star), i + 1, j(v, " ")),
            IInt(v) => format!("({})", j(v, "|")),
            EInt(v) => format!("({})", j(v, "&")),
            Par(v) => format!("({})", j(v, ";")),
            Neg(x) => format!("(!{})", x.src_star(star)),
        }
    }
    pub fn src(&self) -> String {
        self.src_star("*")
    }

    /// can it be written by a user?
    pub fn writable(&self) -> bool {
        (match self {
            Seq(v) | Prod(v) => v.len() >= 2,
            SInt(v) | SExt(v) => v.len() == 1,
            Conj(v) => v.len() >= 2 && v.len() <= 4,
            IInt(v) | EInt(v) => v.len() == 2,
            Img(_, i, v) => *i <= 1 && v.len() == 1,
            Par(_) => false,
            _ => true,
        }) && self.kids().iter().all(|k| k.writable())
    }
}

/// reference matching of a pattern (with variables) against a term
pub fn runify(a: &R, b: &R) -> Option<Vec<(R, R)>> {
    let mut m: Vec<(R, R)> = vec![];
    fn go(a: &R, b: &R, m: &mut Vec<(R, R)>) -> bool {
        if a.is_var() {
            if b.is_var() {
                return false;
            }
            for (v, x) in m.iter() {
                if v == a {
                    return x == b;
                }
            }
            m.push((a.clone(), b.clone()));
            return true;
        }
        if a.kind() != b.kind() {
            return false;
        }
        match (a, b) {
            (Nm(x), Nm(y)) => x == y,
            (Img(_, i, _), Img(_, j, _)) if i != j => false,
            _ => {
                let (ka, kb) = (a.kids(), b.kids());
                ka.len() == kb.len() && ka.iter().zip(kb.iter()).all(|(x, y)| go(x, y, m))
            }
        }
    }
    if go(a, b, &mut m) {
        Some(m)
    } else {
        None
    }
}

pub fn rsubst(t: &R, m: &[(R, R)]) -> R {
    for (v, x) in m {
        if v == t {
            return x.clone();
        }
    }
    t.map_kids(&mut |k| rsubst(k, m))
}
