//! identity of terms
#![allow(non_snake_case)]
use nar20_1::NarseseParser::parseNarsese;
use nar20_1::Term::*;
use nar20_1::TermUtils::{decodeOp, encodeOp};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use vh::*;

fn main() {
    let cfg = init("C31", 10.0, 150.0, "random terms of every kind and pairs differing in one place; non-trivial: compound terms; distinct by term or pair");
    par(&cfg, 8, 1, |_, r| {
        let mut g = G::new(&["a", "b", "ab", "c", "日"]).any();
        let mut seen: HashMap<String, R> = HashMap::new();
        until(cfg.deadline(), || {
            g.writable = r.chance(0.5);
            g.pvar = 0.2;
            g.pleaf = 0.1 + 0.4 * r.f();
            let depth = 1 + r.n(5);
            let t = g.term(r, depth);
            let u = g.mutate(r, &t);
            pair(&t, &u);
            pair(&t, &t);
            let d = 1 + r.n(4);
            pair(&t, &g.term(r, d));
            tree(&t, r);
            ops(&g, r);
            build(&g, r);
            if t.writable() {
                print(&t, &mut seen);
            }
            if u.writable() {
                print(&u, &mut seen);
            }
            if seen.len() > 200_000 {
                seen.clear();
            }
        });
    });
    finish();
}

fn h(t: &Term) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn pair(a: &R, b: &R) {
    let txt = format!("{}  and  {}", a.src(), b.src());
    set_input(&txt);
    ev((a, b));
    guarded(|| {
        let (x, y) = (a.t(), b.t());
        let same = a == b;
        for (p, q) in [(&x, &y), (&y, &x)] {
            if checkEqTerm(p, q) != same || (p == q) != same {
                viol("equality", format!("comparison is wrong: {}", txt));
            }
        }
        if same {
            if h(&x) != h(&y) {
                viol("hash", format!("equal terms hash differently: {}", txt));
            }
            cnt("equal pairs", 1);
        } else {
            cnt("different pairs", 1);
        }
        // a table keyed by terms finds exactly the equal one
        let mut m = HashMap::new();
        m.insert(x.clone(), 1);
        if m.contains_key(&y) != same {
            viol("lookup", format!("lookup is wrong: {}", txt));
        }
    });
}

fn tree(t: &R, r: &mut Rng) {
    let txt = t.src();
    set_input(&txt);
    ev(t);
    guarded(|| {
        let x = t.t();
        let c = x.clone();
        if R::of(&c) != *t || !checkEqTerm(&x, &c) {
            viol("copy", format!("copy of {} is {}", txt, R::of(&c).src()));
        }
        let mut subs: Vec<R> = retSubterms(&x).iter().map(R::of).collect();
        let mut want = t.subs();
        subs.sort();
        want.sort();
        if subs != want {
            viol("subterms", format!("nested terms of {} are {:?}", txt, subs.iter().map(|s| s.src()).collect::<Vec<_>>()));
        }
        let mut us: Vec<R> = retUniqueSubterms(&x).iter().map(R::of).collect();
        us.sort();
        if us != t.usubs() {
            viol("subterms", format!("unique nested terms of {} are {:?}", txt, us.iter().map(|s| s.src()).collect::<Vec<_>>()));
        }
        if calcComplexity(&x) != t.complexity() {
            viol("complexity", format!("complexity of {} is {}", txt, calcComplexity(&x)));
        }
        if !t.has_img() {
            let all = t.subs();
            let s = r.pick(&all).clone();
            let n = occurrences(t, &s);
            let got = count_occurence_subterms(&x, &s.t());
            if got != n {
                viol("occurrences", format!("{} occurs {} times in {}, reported {}", s.src(), n, txt, got));
            }
        }
    });
}

fn occurrences(t: &R, s: &R) -> i64 {
    if t == s {
        return 1;
    }
    t.kids().iter().map(|k| occurrences(k, s)).sum()
}

fn ops(g: &G, r: &mut Rng) {
    let n = 1 + r.n(4);
    let args: Vec<R> = (0..n).map(|_| g.term(r, 2)).collect();
    let name = format!("^{}", r.pick(&["left", "op", "x"]));
    let want = op(&name, args.clone());
    set_input(&want.src());
    guarded(|| {
        let t = encodeOp(&args.iter().map(|a| a.t()).collect(), &name);
        if R::of(&t) != want {
            viol("encode", format!("encoded call is {} instead of {}", R::of(&t).src(), want.src()));
        }
        match decodeOp(&t) {
            Some((a, nm2)) => {
                let a: Vec<R> = a.iter().map(R::of).collect();
                if a != args || nm2 != name {
                    viol("decode", format!("decoding {} gives {:?} {}", want.src(), a, nm2));
                }
            }
            None => viol("decode", format!("can't decode {}", want.src())),
        }
        // other terms are no calls
        let mut near = g.mutate(r, &want);
        if r.chance(0.3) {
            // a set with several members, a call with something beside
            let mut v = vec![R::Prod(args.clone())];
            for _ in 0..1 + r.n(3) {
                let x = if r.chance(0.3) { R::Prod(args.clone()) } else { g.term(r, 1) };
                let at = r.n(v.len() + 1);
                v.insert(at, x);
            }
            near = inh(if r.chance(0.5) { R::SExt(v) } else { R::Prod(v) }, nm(&name));
        }
        let is = match &near {
            R::St(Cop::Inh, s, p) => match (&**s, &**p) {
                (R::SExt(v), R::Nm(_)) if v.len() == 1 => matches!(&v[0], R::Prod(a) if !a.is_empty()),
                _ => false,
            },
            _ => false,
        };
        if decodeOp(&near.t()).is_some() != is {
            viol("decode", format!("{} is recognised as call: {}", near.src(), !is));
        }
        cnt("operation calls", 1);
    });
}

/// printed form: distinct, and reads back
fn print(t: &R, seen: &mut HashMap<String, R>) {
    set_input(&t.src());
    guarded(|| {
        let s = convTermToStr(&t.t());
        if let Some(o) = seen.get(&s) {
            if o != t {
                viol("print-collision", format!("{} and {} both print as {}", o.src(), t.src(), s));
            }
        } else {
            seen.insert(s.clone(), t.clone());
        }
        if t.parens() <= 3 {
            // blanks next to round brackets and separators aren't significant
            let mut n = s.clone();
            for (a, b) in [("( ", "("), (" )", ")"), (" , ", ","), (" && ", "&&"), (" | ", "|"), (" & ", "&"), (" * ", "*"), ("(! ", "(!")] {
                n = n.replace(a, b);
            }
            match parseNarsese(&(n.clone() + ".")) {
                Some((x, _, _, _)) if R::of(&x) == *t => {}
                Some((x, _, _, _)) => viol("print", format!("{} prints as {}, which reads as {}", t.src(), s, R::of(&x).src())),
                None => viol("print", format!("{} prints as {}, which can't be read", t.src(), s)),
            }
            cnt("printed and read back", 1);
        }
    });
}

/// terms put together from parts
fn build(g: &G, r: &mut Rng) {
    use nar20_1::TermApi as A;
    let k: Vec<R> = (0..1 + r.n(6)).map(|_| { let d = r.n(3); g.term(r, d) }).collect();
    let ts: Vec<nar20_1::Term::Term> = k.iter().map(|x| x.t()).collect();
    let c = *r.pick(&[Cop::Inh, Cop::Sim, Cop::Impl, Cop::Pred, Cop::Equiv]);
    let x = |i: usize| k[i % k.len()].clone();
    let y = |i: usize| ts[i % ts.len()].clone();
    let cop = match st(c, nm("a"), nm("b")).t() { nar20_1::Term::Term::Stmt(c, _, _) => c, _ => unreachable!() };
    let res = guarded(|| vec![
        (A::p2(&y(0), &y(1)), R::Prod(vec![x(0), x(1)])),
        (A::p3(&y(0), &y(1), &y(2)), R::Prod(vec![x(0), x(1), x(2)])),
        (A::p(&ts), R::Prod(k.clone())),
        (A::s(cop, &y(0), &y(1)), st(c, x(0), x(1))),
        (A::seq(&ts), R::Seq(k.clone())),
        (A::conj(&ts), R::Conj(k.clone())),
    ]);
    if let Some(res) = res {
        for (a, b) in res {
            if R::of(&a) != b {
                viol("build", format!("built {} instead of {}", R::of(&a).src(), b.src()));
            }
            cnt("terms built of parts", 1);
        }
    }
}
