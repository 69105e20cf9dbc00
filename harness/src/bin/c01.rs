//! parser against the written term
#![allow(non_snake_case)]
use nar20_1::NarSentence::EnumPunctation as E;
use nar20_1::NarseseParser::parseNarsese;
use vh::rules::P;
use vh::sys;
use vh::*;

fn main() {
    let cfg = init("C01", 10.0, 150.0, "sentences are generated from random term trees (bracket nesting up to 10, single chains of brackets up to 100) and written as text with random blanks around product stars, then read; non-trivial: at least one compound inside; distinct by text. Negative cases: punctuation removed, one closing bracket removed, illegal truth value appended");
    let names = ["a", "b", "cat", "x1", "0", "12", "under_score", "da-sh", "^op", "SELF", "Zz", "q--", "日本", "äöß", "Ω", "_", "N0name", "é-è"];
    // every constructor alone and inside every other
    systematic();
    par(&cfg, 8, 1, |i, r| {
        let mut g = G::new(&names);
        g.pvar = 0.2;
        g.vars = strs(&["x", "1", "var", "ä", "X-1"]);
        until(cfg.deadline(), || {
            if r.chance(0.3) {
                g.names = (0..12).map(|_| rname(r)).collect();
                g.vars = (0..6).map(|_| rname(r)).collect();
            }
            g.pleaf = 0.1 + r.f() * 0.5;
            g.parens = 1 + r.n(3);
            let depth = 1 + r.n(6);
            let mut t = g.term(r, depth);
            if r.chance(0.05) {
                let mut h = g.clone();
                h.parens = 10;
                h.pleaf = 0.55;
                t = h.term(r, 11);
            }
            if r.chance(0.01) {
                // long chain of brackets
                let n = 5 + r.n(95);
                let same = r.chance(0.5);
                let k0 = r.n(10);
                for _ in 0..n {
                    let o = g.leaf(r);
                    let b = |x: R| Box::new(x);
                    t = match if same { k0 } else { r.n(10) } {
                        0 => R::Seq(vec![t, o]),
                        1 => R::Seq(vec![o, t]),
                        2 => R::Prod(vec![o, t]),
                        3 => R::Conj(vec![o.clone(), t, o]),
                        4 => R::Neg(b(t)),
                        5 => R::Img(b(t), r.n(2), vec![o]),
                        6 => R::IInt(vec![t, o]),
                        7 => R::SInt(vec![t]),
                        8 => R::St(*r.pick(&COPS), b(o), b(t)),
                        _ => R::EInt(vec![o, t]),
                    };
                }
                cnt("long chains", 1);
            }
            if r.chance(0.02) {
                let n = [1, 2, 255, 256, 511, 512][r.n(6)];
                let c = *r.pick(&['a', 'Z', '9', 'ü', '語']);
                t = R::St(*r.pick(&COPS), Box::new(R::Nm(std::iter::repeat(c).take(n).collect())), Box::new(t));
            }
            positive(&t, r);
            if r.chance(0.4) {
                negative(&t, r);
            }
            if i < 2 && r.chance(0.05) {
                whole(&g, r);
            }
        });
    });
    assume("what is accepted after a complete sentence text (trailing characters) is not specified and not tried");
    finish();
}

/// any name of legal signs
fn rname(r: &mut Rng) -> String {
    let most = [2, 4, 12, 40][r.n(4)];
    let n = 1 + r.n(most);
    (0..n)
        .map(|_| match r.n(6) {
            0 => *r.pick(&['0', '1', '0', '9', '5']),
            1 => *r.pick(&['-', '_', '^']),
            2 => *r.pick(&['é', 'Я', '中', 'ß', '٣']),
            3 => *r.pick(&['A', 'S', 'Z', 'X']),
            _ => *r.pick(&['a', 'b', 'x', 'e', 'o', 'r']),
        })
        .collect()
}

fn fmt_num(r: &mut Rng, x: f64) -> String {
    match r.n(4) {
        0 => format!("{}", x),
        1 => format!("{:.3}", x),
        2 => format!("{:.1}", x),
        _ => format!("{:.10}", x),
    }
}

/// (text, term, truth, punctuation, event)
fn write(t: &R, r: &mut Rng) -> (String, V, P, bool) {
    let star = *r.pick(&["*", " * ", "* ", " *", "  *   ", "*"]);
    let p = *r.pick(&[P::J, P::Q, P::G]);
    let mut s = t.src_star(star);
    s.push_str(p.s());
    let mut tv = v(1.0, 0.9);
    if r.chance(0.5) {
        let (f, c) = match r.n(6) {
            0 => ("0".to_string(), "0".to_string()),
            1 => ("1".to_string(), "0.9999".to_string()),
            2 => ("1.0".to_string(), "0.0".to_string()),
            _ => {
                let (x, y) = (r.f(), r.f() * 0.9);
                (fmt_num(r, x), fmt_num(r, y))
            }
        };
        tv = v(f.parse().unwrap(), c.parse().unwrap());
        s.push_str(&format!(" {{{} {}}}", f, c));
    }
    let event = r.chance(0.3);
    if event {
        s.push_str(" :|:");
    }
    (s, tv, p, event)
}

fn positive(t: &R, r: &mut Rng) {
    let (s, tv, p, event) = write(t, r);
    set_input(&s);
    if t.kids().is_empty() {
        ev_trivial();
    } else {
        ev(&s);
    }
    if t.depth() > 4 {
        sample(s.clone());
    }
    guarded(|| match parseNarsese(&s) {
        None => viol("rejected", format!("well-formed sentence was rejected: {}", s)),
        Some((term, tv2, p2, event2)) => {
            let got = R::of(&term);
            if got != *t {
                viol("term", format!("{} was understood as {}", s, got.src()));
            }
            if tv2.f.to_bits() != tv.f.to_bits() || tv2.c.to_bits() != tv.c.to_bits() {
                viol("truth", format!("{} was understood with truth {} {}", s, tv2.f, tv2.c));
            }
            if P::of(p2) != p {
                viol("punctuation", format!("{} was understood with another punctuation", s));
            }
            if event != event2 {
                viol("event", format!("{} was understood with event flag {}", s, event2));
            }
            cnt(match p2 { E::JUGEMENT => "judgements", E::QUESTION => "questions", E::GOAL => "goals" }, 1);
        }
    });
}

/// (text, what is wrong with it)
fn broken(t: &R, r: &mut Rng) -> Option<(String, &'static str)> {
    let base = t.src();
    match r.n(3) {
        0 => Some((base + *r.pick(&["", " {1.0 0.9}", " :|:"]), "no punctuation")),
        1 => {
            let cs: Vec<char> = base.chars().collect();
            let close: Vec<usize> = (0..cs.len())
                .filter(|&i| match cs[i] {
                    ')' | ']' | '}' => true,
                    '>' => i > 0 && !matches!(cs[i - 1], '-' | '=' | '/'),
                    _ => false,
                })
                .collect();
            if close.is_empty() || base.contains("->") && base.contains("- ") || base.contains("->>") {
                return None;
            }
            let k = *r.pick(&close);
            let s: String = cs.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, c)| *c).collect();
            Some((s + ".", "unclosed bracket"))
        }
        _ => {
            let tail = r.pick(&["{1.1 0.9}", "{0.5 1.0}", "{0.5 1}", "{-0.1 0.5}", "{0.5 -0.5}", "{2 2}", "{a b}", "{0.5}", "{0.5 0.5 0.5}", "{NaN 0.5}", "{0.5 NaN}", "{inf 0.5}", "{0.5 inf}", "{0,5 0,5}", "{}", "{ }", "{1.0 0.9", "{0.5  0.5}"]);
            Some((format!("{}{} {}", base, r.pick(&[".", "!", "?"]), tail), "illegal truth value"))
        }
    }
}

fn negative(t: &R, r: &mut Rng) {
    // names which end with a dash make the removal of brackets ambiguous
    if t.src().contains("- ") || t.src().contains("->>") {
        return;
    }
    if let Some((s, why)) = broken(t, r) {
        set_input(&s);
        ev(("neg", &s));
        cnt(why, 1);
        guarded(|| {
            if let Some((term, tv, _, _)) = parseNarsese(&s) {
                viol("accepted", format!("sentence with {} was accepted: {} as {} {} {}", why, s, R::of(&term).src(), tv.f, tv.c));
            }
        });
    }
}

/// through the input of the reasoner: accepted ones are stored as written, rejected ones change nothing
fn whole(g: &G, r: &mut Rng) {
    let mut nar = nar20_1::Nar::createNar();
    for _ in 0..8 {
        let t = g.term(r, 4);
        if t.complexity() > 64 {
            continue;
        }
        let before = sys::mem_key(&nar.mem);
        let (nt, nq) = (sys::tasks(&nar.mem).len(), sys::questions(&nar.mem).len());
        if r.chance(0.5) {
            if t.src().contains("- ") || t.src().contains("->>") {
                continue;
            }
            if let Some((s, why)) = broken(&t, r) {
                set_input(&s);
                let ok = guarded(|| nar20_1::Nar::inputN(&mut nar, &s));
                if ok == Some(true) {
                    viol("accepted", format!("sentence with {} was accepted: {}", why, s));
                }
                if sys::mem_key(&nar.mem) != before || sys::tasks(&nar.mem).len() != nt || sys::questions(&nar.mem).len() != nq {
                    viol("rejected-change", format!("rejected sentence changed the memory: {}", s));
                }
                cnt("rejected inputs to a reasoner", 1);
            }
        } else {
            let (s, tv, p, event) = write(&t, r);
            let temporal = matches!(t, R::St(Cop::Pred, _, _));
            set_input(&s);
            let ok = guarded(|| nar20_1::Nar::inputN(&mut nar, &s));
            if ok == Some(false) {
                viol("rejected", format!("well-formed sentence was rejected by the reasoner: {}", s));
            }
            cnt("accepted inputs to a reasoner", 1);
            if ok == Some(true) && !temporal && !event && p == P::J {
                let ts = sys::tasks(&nar.mem);
                let found = ts.iter().any(|x| x.t == t && x.v.map(|y| y.near(&tv)) == Some(true));
                if !found {
                    viol("stored", format!("{} isn't pending as written", s));
                }
            }
            if ok == Some(true) && p == P::Q {
                let qs = sys::questions(&nar.mem);
                if !(qs.len() == nq + 1 && qs[nq].0.t == t) {
                    viol("stored", format!("question {} wasn't registered as written", s));
                }
            }
            if ok == Some(true) && event && p == P::J {
                let view = nar.procNar.trace.ret_view();
                if !view.last().map(|e| R::of(&e.name) == t).unwrap_or(false) {
                    viol("stored", format!("event {} wasn't recorded as written", s));
                }
            }
        }
        ev(("whole", t.src()));
    }
    sys::stop_workers(&nar.mem);
    sys::stop_store(&mut nar.procNar);
}

fn systematic() {
    let mut r = Rng::new(5);
    let a = nm("a");
    let b = nm("b");
    let c = nm("c");
    let d = nm("d");
    let two = |x: R, y: R| -> Vec<R> {
        let mut v = vec![
            R::Seq(vec![x.clone(), y.clone()]),
            R::Seq(vec![x.clone(), y.clone(), c.clone()]),
            R::Seq(vec![c.clone(), x.clone(), y.clone(), d.clone()]),
            R::Conj(vec![x.clone(), y.clone()]),
            R::Conj(vec![x.clone(), c.clone(), y.clone()]),
            R::Conj(vec![x.clone(), c.clone(), d.clone(), y.clone()]),
            R::Prod(vec![x.clone(), y.clone()]),
            R::Prod(vec![x.clone(), y.clone(), c.clone()]),
            R::Prod(vec![x.clone(), c.clone(), y.clone(), d.clone()]),
            R::Prod(vec![x.clone(), c.clone(), d.clone(), y.clone(), a.clone()]),
            R::IInt(vec![x.clone(), y.clone()]),
            R::EInt(vec![x.clone(), y.clone()]),
            img(x.clone(), 0, y.clone()),
            img(x.clone(), 1, y.clone()),
            neg(x.clone()),
            R::SInt(vec![x.clone()]),
            R::SExt(vec![x.clone()]),
        ];
        for c in COPS {
            v.push(st(c, x.clone(), y.clone()));
        }
        v
    };
    let l0 = vec![a.clone(), R::Q("x".into()), R::D("x".into()), R::I("x".into())];
    let mut l1 = vec![];
    for x in &l0 {
        for y in &l0 {
            l1.extend(two(x.clone(), y.clone()));
        }
    }
    let base = two(a.clone(), b.clone());
    let mut l2 = vec![];
    for x in &base {
        l2.extend(two(x.clone(), b.clone()));
        l2.extend(two(a.clone(), x.clone()));
    }
    let mut l3 = vec![];
    for (i, x) in l2.iter().enumerate() {
        let w = two(x.clone(), b.clone());
        l3.push(w[i % w.len()].clone());
    }
    for t in l0.iter().chain(l1.iter()).chain(l2.iter()).chain(l3.iter()) {
        positive(t, &mut r);
        negative(t, &mut r);
    }
    cnt("systematic nestings", (l0.len() + l1.len() + l2.len() + l3.len()) as u64);
}
