//! told knowledge is found under everything it mentions
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarInputFacade;
use nar20_1::NarWorkingCycle::memAddTask;
use std::sync::Arc;
use vh::rules::P;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C10", 12.0, 180.0, "histories of told distinct judgements of any form through all input routes, mixed with questions, too complex judgements, events, goals and rejected lines; the whole belief memory (every concept, both tables) is compared after each input; then reasoning cycles run and every told judgement is looked up again; non-trivial: judgement with at least three nested terms; distinct by judgement and history");
    par(&cfg, 8, 10, |_, r| until(cfg.deadline(), || history(r)));
    finish();
}

fn history(r: &mut Rng) {
    let all = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "m", "abc", "n-1", "o_2", "p", "q", "r", "s", "t", "u", "w", "x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"];
    let k = if r.chance(0.3) { 30 } else { 2 + r.n(9) };
    let mut g = G::new(&all[..k]);
    g.pvar = [0.0, 0.2][r.n(2)];
    g.pleaf = 0.2 + 0.3 * r.f();
    let mut nar = createNar();
    late(&mut nar, r);
    let mut told: Vec<(R, V, Vec<i64>)> = vec![];
    let m = if r.chance(0.1) { 20 + r.n(60) } else { 1 + r.n(14) };
    let mut txt = String::new();
    let jumps = r.chance(0.5);
    for _ in 0..m {
        if jumps && r.chance(0.5) {
            // as if other things had been told in between
            bump(&nar.mem, *r.pick(&[1, 7, 31, 63, 64, 99, 127, 128, 255, 256, 999, 1000, 65535, 65536, 1 << 31, 1 << 32]));
        }
        let what = r.n(12);
        let d = 1 + r.n(6);
        let mut t = g.term(r, d);
        if what == 0 {
            // too complex
            while t.complexity() <= 64 {
                t = if r.chance(0.5) { st(Cop::Inh, t, g.term(r, 4)) } else { R::Conj(vec![t, g.term(r, 4), g.term(r, 3)]) };
                if t.parens() > 6 {
                    t = inh(t.clone(), inh(t.clone(), t));
                }
            }
        } else if what == 1 && r.chance(0.5) {
            // just within the limit
            let mut n = 0;
            while t.complexity() < 62 && n < 40 {
                let u = inh(t.clone(), g.term(r, 2));
                if u.complexity() <= 64 {
                    t = u;
                }
                n += 1;
            }
        }
        if matches!(t, R::St(Cop::Pred, _, _)) || told.iter().any(|x| x.0 == t) {
            continue;
        }
        if t.complexity() > 64 && what != 0 {
            continue;
        }
        // capacity per concept
        let full = t.usubs().iter().any(|s| told.iter().filter(|x| x.0.usubs().contains(s)).count() >= 20);
        if full {
            continue;
        }
        let tv = gv(r);
        let id = next_id(&nar.mem);
        let mut p = P::J;
        let mut suffix = "";
        match what {
            2 => p = P::Q,
            3 => p = P::G,
            4 => {
                suffix = " :|:";
                p = *r.pick(&[P::J, P::G, P::Q]);
            }
            5 => suffix = " rejected",
            _ => {}
        }
        let line = format!("{}{} {{{} {}}}{}", t.src(), p.s(), tv.f, tv.c, suffix);
        txt.push_str(&line);
        txt.push_str(" | ");
        set_input(&txt);
        let stored = p == P::J && suffix == "" && t.complexity() <= 64;
        if guarded(|| match r.n(4) {
            0 if suffix == "" => inputT(&mut nar, &t.t(), p.e(), &tv.t()),
            1 if suffix == "" && p != P::G => {
                let s = sentence(&t, p, if p == P::Q { None } else { Some(tv) }, &[id]);
                nar.mem.read().shared.read().stampIdCounter.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let sh = Arc::clone(&nar.mem.read().shared);
                memAddTask(sh, &s, true, 64, 20, 1.0, 0);
            }
            2 => {
                let mut q = false;
                NarInputFacade::input(&mut nar, &line, &mut q);
            }
            _ => {
                let ok = inputN(&mut nar, &line);
                if ok != (suffix != " rejected") {
                    viol("accepted", format!("{} accepted: {}", line, ok));
                }
            }
        })
        .is_none()
        {
            return;
        }
        if stored {
            told.push((t.clone(), tv, vec![id]));
            cnt("told judgements", 1);
        } else {
            cnt("inputs which must not change beliefs", 1);
        }
        if t.usubs().len() >= 3 {
            ev(&txt);
        } else {
            ev_trivial();
        }
        if let Some(x) = diff_mem(&nar.mem, &told) {
            viol("stored", format!("after {}: {}", txt, x));
            return;
        }
    }
    // after reasoning it is still there
    if r.chance(0.3) && !told.is_empty() {
        if guarded(|| {
            for _ in 0..1 + r.n(40) {
                cycle(&mut nar);
                tick();
            }
        })
        .is_none()
        {
            return;
        }
        drain(&nar.mem);
        let bs = beliefs(&nar.mem);
        let n = bs.len();
        for (t, _, ids) in &told {
            for s in t.usubs() {
                let c = bs.iter().find(|c| c.name == s);
                match c {
                    None => {
                        if n < 3000 {
                            viol("lost", format!("after reasoning from {}: concept {} is gone", txt, s.src()));
                            return;
                        }
                    }
                    Some(c) => {
                        for tab in [&c.by_exp, &c.by_use] {
                            if tab.len() < 20 && !tab.iter().any(|b| b.t == *t && b.ids.contains(&ids[0])) {
                                viol("lost", format!("after reasoning from {}: {} isn't found under {} any more", txt, t.src(), s.src()));
                                return;
                            }
                            cnt("lookups after reasoning", 1);
                        }
                    }
                }
            }
        }
    }
    sample(txt);
    cnt("histories", 1);
}
