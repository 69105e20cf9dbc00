//! hostile sessions over the line interface
#![allow(non_snake_case)]
use nar20_1::Nar::{createNar, Nar};
use nar20_1::NarInputFacade;
use std::sync::Arc;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C02", 14.0, 240.0, "sessions of 5..150 lines: Narsese of every kind, all commands with good and bad arguments, comments, damaged lines, garbage with any Unicode, very long and very deep lines; monitors: panic of any thread, line which doesn't return, fact told at the end not stored or question about it not answered; distinct by the line and the position in the session");
    par(&cfg, 8, 2, |_, r| until(cfg.deadline(), || session(r)));
    assume("cycle counts above 40 in one command are not tried; the natural-language command needs a trained network and isn't tried");
    finish();
}

fn gen(r: &mut Rng) -> G {
    let mut g = G::new(&["a", "b", "c", "d", "SELF", "^left", "^nal9_exeAndInject", "^nlpRel0", "and"]);
    g.pvar = [0.0, 0.15, 0.4][r.n(3)];
    g.pleaf = 0.35;
    g
}

fn tail(r: &mut Rng) -> String {
    let mut s = String::new();
    s.push_str(*r.pick(&[".", ".", ".", "?", "!"]));
    if r.chance(0.4) {
        s.push_str(*r.pick(&[" {1.0 0.9}", " {0.0 0.9}", " {0.5 0.0}", " {0 0}", " {1 0.999999}", " {0.3 0.4}", " {1 0.9999999999999999}"]));
    }
    if r.chance(0.4) {
        s.push_str(" :|:");
    }
    s
}

fn opt(r: &mut Rng, g: &G) -> R {
    let n = ["^left", "^right", "^nal9_exeAndInject", "^nlpRel0", "^unknown"][r.n(5)];
    let mut args = vec![R::SExt(vec![nm("SELF")])];
    match (n, r.n(3)) {
        ("^nal9_exeAndInject", 0 | 1) => {
            let m = 2 + r.n(2);
            args.push(R::Seq(
                (0..m)
                    .map(|_| if r.chance(0.6) { op("^left", vec![R::SExt(vec![nm("SELF")]), nm("x")]) } else { g.term(r, 2) })
                    .collect(),
            ));
            args.push(g.term(r, 2));
        }
        ("^nlpRel0", 0 | 1) => {
            let x = if r.chance(0.5) { R::Prod(vec![nm("a"), R::Seq(vec![nm("b"), nm("and"), nm("c")])]) } else { g.term(r, 3) };
            args = vec![args[0].clone(), if r.chance(0.5) { R::St(Cop::Inh, Box::new(x), Box::new(nm("r"))) } else { x }];
        }
        _ => {
            for _ in 0..r.n(3) {
                args.push(g.term(r, 2));
            }
            if args.len() < 2 {
                args.push(nm("x"));
            }
        }
    }
    op(n, args)
}

fn line(r: &mut Rng) -> String {
    let g = gen(r);
    match r.n(100) {
        0..=29 => {
            let d = 1 + r.n(5);
            g.term(r, d).src() + &tail(r)
        }
        30..=34 => g.stmt(r, 3).src() + &tail(r),
        35..=49 => {
            // procedural
            let o = opt(r, &g);
            match r.n(7) {
                0 => format!("{}{}", o.src(), [". :|:", "! :|:", ".", "?"][r.n(4)]),
                1 | 2 => {
                    let c = g.term(r, 2);
                    let p = g.term(r, 2);
                    format!("{}.", st(Cop::Pred, R::Seq(vec![c, o]), p).src())
                }
                3 => format!("{}.", st(Cop::Pred, if r.chance(0.5) { o } else { R::Seq(vec![o.clone(), g.term(r, 2)]) }, g.term(r, 2)).src()),
                4 => format!("{}! :|:", R::Seq(vec![g.term(r, 2), o]).src()),
                5 => {
                    let m = 3 + r.n(2);
                    let mut v: Vec<R> = (0..m).map(|_| g.term(r, 2)).collect();
                    v.push(o);
                    format!("{}.", st(Cop::Pred, R::Seq(v), g.term(r, 2)).src())
                }
                _ => format!("{}{} :|:", ["a", "b", "c", "<a --> [p]>", "<b --> [p]>"][r.n(5)], [".", "!"][r.n(2)]),
            }
        }
        50..=69 => r
            .pick(&[
                "!s", "!s1", "!s3", "!s20", "!s0", "!s-5", "!sX", "!s 3", "!s99999999999999999999999", "!s3.5", "!sp", "!sp", "!sp", "!spA", "!spB", "!spX", "!sp3", "!dt", "!dtf", "!dmd", "!pse", "!QQ", "", "//", "// x", "!", "!!", "!.nlp", "!.nlp Tom is fat", "!.nlp ", "!.nlp what?", "!.nlp é",
                "!por", "!por ", "!por NOP", "!por NOP ^left", "!por NOP ^right", "!por NOP x y", "!por execinj", "!por nlpRel0", "!por foo", "!por foo bar", "!peb 0", "!peb 1", "!peb 2", "!peb", "!é", "!sé", "!porä x", "!spé", "!dté", " !s", "/", "/é",
                "\n", "\r\n", "a.\n", "a.\r\n", "\t", " ",
            ])
            .to_string(),
        70..=89 => {
            // damaged line
            let mut base: Vec<char> = loop {
                let s = match r.n(3) {
                    0 => g.term(r, 3).src() + &tail(r),
                    1 => g.stmt(r, 4).src() + &tail(r),
                    _ => ["!s3", "!por NOP ^left", "!peb 1", "<a --> b>. {0.5 0.5} :|:", "(a, b).", "<(a*b) --> c>?", "//", "!.nl"][r.n(8)].to_string(),
                };
                if !s.is_empty() {
                    break s.chars().collect();
                }
            };
            for _ in 0..1 + r.n(3) {
                if base.is_empty() {
                    break;
                }
                let i = r.n(base.len());
                match r.n(5) {
                    0 => {
                        base.remove(i);
                    }
                    1 => base.insert(i, ch(r)),
                    2 => base[i] = ch(r),
                    3 => base.truncate(i),
                    _ => {
                        let j = r.n(base.len());
                        base.swap(i, j);
                    }
                }
            }
            base.into_iter().collect()
        }
        90..=95 => (0..r.n(30)).map(|_| ch(r)).collect(),
        96 => {
            // long line of any signs after any beginning
            let n = r.n(600);
            format!("{}{}", r.pick(&["//", "//", "!", "!s", "!por NOP ", "!.nlp ", "!sp", "<", "(", "", "a. ", "!peb "]), (0..n).map(|_| ch(r)).collect::<String>())
        }
        97 => {
            let n = [50, 128, 129, 1000, 50000][r.n(5)];
            let o = *r.pick(&["(", "<", "{", "[", "(!", "<a --> ", "(a,", "(a*", "{a", "*", " *", "(a&&"]);
            let c = *r.pick(&["", ")", ">", "}"]);
            format!("{}x{}{}", o.repeat(n), c.repeat(n), tail(r))
        }
        98 => {
            let n = [511, 512, 513, 1024, 100000][r.n(5)];
            let c = ch(r).to_string();
            format!("{}.", c.repeat(n))
        }
        _ => format!("<a --> b>. {{{} {}}}", num(r), num(r)),
    }
}

fn num(r: &mut Rng) -> String {
    r.pick(&["0", "1", "-1", "1e400", "-1e400", "NaN", "inf", "0.5", "1e-400", "0.99999999999999999999", "+0.5", ".5", "5.", "0x1", "é", "", "1_0", "--1"]).to_string()
}

fn ch(r: &mut Rng) -> char {
    match r.n(4) {
        0 => *r.pick(&['<', '>', '(', ')', '{', '}', '[', ']', '*', ',', '&', '|', '!', '.', '?', ':', ' ', '-', '=', '/', '#', '$', '"', '\\', '\'', '%']),
        1 => *r.pick(&['a', 'b', '0', '9', '_', '^', 'S', '-']),
        2 => *r.pick(&['é', 'ß', '日', '😀', '\u{0}', '\u{7f}', '\u{a0}', '\u{200b}', '\u{feff}', 'İ', '²', '½', '\u{301}', '\u{2028}', '٣', '\t', '\n', '\r']),
        _ => char::from_u32((r.u64() % 0x3000) as u32).unwrap_or('x'),
    }
}

fn too_long(l: &str) -> bool {
    // would legitimately run very many cycles
    let t = l.trim_end_matches(|c| c == '\n' || c == '\r');
    t.starts_with("!s") && t.get(2..).and_then(|x| x.parse::<i64>().ok()).map(|n| n > 40).unwrap_or(false)
}

fn feed(nar: &mut Nar, l: &str) -> bool {
    set_input(&format!("line {:?}", l.chars().take(300).collect::<String>()));
    let mut quit = false;
    let line = l.to_string();
    guarded(|| NarInputFacade::input(nar, &line, &mut quit)).is_some()
}

fn session(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.procNar.cfg__resourceExpectedTime = 0.002;
    if r.chance(0.5) {
        let l = Arc::clone(&nar.procNar.evidenceMem);
        nar.mem.read().shared.write().procMem = l;
    }
    let log = listen(&nar);
    let n = 5 + r.n(146);
    let mut hist: Vec<String> = vec![];
    for k in 0..n {
        let l = line(r);
        if too_long(&l) {
            continue;
        }
        set_what(&format!("session, last lines {:?}", hist.iter().rev().take(4).collect::<Vec<_>>()));
        if !feed(&mut nar, &l) {
            return;
        }
        ev((k, &l));
        cnt(if l.starts_with('!') { "command lines" } else { "other lines" }, 1);
        hist.push(l.chars().take(200).collect());
    }
    if r.chance(0.02) {
        sample(hist.iter().take(5).cloned().collect::<Vec<_>>().join(" ¦ "));
    }
    // session must still be usable
    let id = r.u64() % 1_000_000;
    let fact = inh(nm(&format!("zq{}", id)), nm(&format!("zp{}", id)));
    if !feed(&mut nar, "!dtf") || !feed(&mut nar, &format!("{}. {{1.0 0.99}}", fact.src())) {
        return;
    }
    if !drain(&nar.mem) {
        viol("worker-dead", format!("background derivation ended during a session | last lines: {:?}", hist));
        return;
    }
    let key = fact.t();
    let found = {
        let g = nar.mem.read();
        let s = g.shared.read();
        let m = s.mem.read();
        m.concepts.get(&key).map(|c| c.payload.beliefsByExp.iter().any(|b| R::of(&b.read().term) == fact)).unwrap_or(false)
    };
    if !found {
        viol("fact-lost", format!("fact told after the session isn't stored | last lines: {:?}", hist));
        return;
    }
    if !feed(&mut nar, &format!("{}?", fact.src())) {
        return;
    }
    let nq = questions(&nar.mem).len();
    let mut ok = false;
    for _ in 0..60 * nq {
        if !feed(&mut nar, "!s") {
            return;
        }
        if log.lock().unwrap().iter().any(|(q, a)| *q == fact && a.t == fact) {
            ok = true;
            break;
        }
        tick();
    }
    if !ok {
        viol("not-answered", format!("question about a fact told after the session isn't answered within {} cycles, open questions {} | last lines: {:?}", 60 * nq, nq, hist));
    }
    drain_store(&nar.procNar, id as i64);
    cnt("sessions", 1);
}
