//! answerable questions are answered
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarWorkingCycle::flushTasks;
use vh::rules::*;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C13", 16.0, 240.0, "knowledge bases of up to 15 judgements, 1..30 open questions (concrete or with variables, eternal or now) asked before or after; every question must get an answer at least as good as the best matching belief found under a term it mentions; plus questions which need one or two inference steps over 2..4 judgements and up to 2 unrelated ones; distinct by knowledge and question");
    par(&cfg, 8, 13, |i, r| {
        until(cfg.deadline(), || match i % 4 {
            0 | 1 => held(r),
            2 => one_step(r),
            _ => two_steps(r),
        })
    });
    assume("question sampling is random: a question counts as not served after 60 times as many cycles as there are open questions");
    finish();
}

fn tv_in() -> nar20_1::Tv::Tv {
    nar20_1::Tv::Tv { f: 1.0, c: 0.9 }
}

fn held(r: &mut Rng) {
    let mut g = G::new(&["a", "b", "c", "d", "e", "f"]);
    g.pvar = 0.0;
    g.parens = 2;
    g.pleaf = 0.5;
    let mut nar = createNar();
    late_aligned(&mut nar, r);
    if r.chance(0.3) {
        nar.procNar.t = r.n(200) as i64;
    }
    let log = listen(&nar);
    let n = 1 + r.n(15);
    let mut ts: Vec<R> = vec![];
    let mut guard = 0;
    while ts.len() < n && guard < 300 {
        guard += 1;
        let t = if r.chance(0.5) { g.stmt(r, 3) } else { g.term(r, 3) };
        if matches!(t, R::St(Cop::Pred, _, _)) || ts.contains(&t) || t.complexity() > 60 {
            continue;
        }
        ts.push(t);
    }
    // questions
    let mut qs: Vec<R> = vec![];
    let nq = if r.chance(0.15) { 11 + r.n(20) } else { 1 + r.n(10) };
    for _ in 0..nq {
        let x = r.pick(&ts).clone();
        let q = match r.n(3) {
            0 => x,
            _ => g.abstr(r, &x),
        };
        if !qs.contains(&q) && !matches!(q, R::St(Cop::Pred, _, _)) {
            qs.push(q);
        }
    }
    let mut order: Vec<(bool, R)> = ts.iter().map(|t| (false, t.clone())).chain(qs.iter().map(|q| (true, q.clone()))).collect();
    match r.n(3) {
        0 => {}
        1 => order.reverse(),
        _ => r.shuffle(&mut order),
    }
    let mut hist = String::new();
    let think = r.chance(0.4);
    for (isq, t) in &order {
        if *isq {
            let now = r.chance(0.3);
            hist.push_str(&format!("{}? {}", t.src(), if now { ":|: " } else { "" }));
            set_input(&hist);
            inputT2(&mut nar, &t.t(), P::Q.e(), &tv_in(), now);
        } else {
            let tv = gv(r);
            hist.push_str(&format!("{}. {{{} {}}} ", t.src(), tv.f, tv.c));
            set_input(&hist);
            inputT(&mut nar, &t.t(), P::J.e(), &tv.t());
        }
        if think && r.chance(0.3) {
            let k = 1 + r.n(6);
            for _ in 0..k {
                if guarded(|| cycle(&mut nar)).is_none() {
                    return;
                }
            }
            hist.push_str(&format!("!s{} ", k));
            drain(&nar.mem);
        }
    }
    // no further derivation, so that the beliefs stay as they are
    flushTasks(&nar.mem.read());
    drain(&nar.mem);
    flushTasks(&nar.mem.read());
    if questions(&nar.mem).len() != qs.len() {
        viol("open-questions", format!("{} | {} questions are open, {} were asked", hist, questions(&nar.mem).len(), qs.len()));
        return;
    }
    let bs = beliefs(&nar.mem);
    let mut want: Vec<Option<(f64, S)>> = vec![None; qs.len()];
    for (i, q) in qs.iter().enumerate() {
        for s in q.usubs() {
            if let Some(c) = bs.iter().find(|c| c.name == s) {
                for b in c.by_exp.iter().chain(c.by_use.iter()) {
                    if runify(q, &b.t).is_some() {
                        let e = exp(b.v.unwrap());
                        if want[i].as_ref().map(|x| e > x.0).unwrap_or(e > 0.0) {
                            want[i] = Some((e, b.clone()));
                        }
                    }
                }
            }
        }
    }
    let best = |q: &R| log.lock().unwrap().iter().filter(|(x, _)| x == q).map(|(_, a)| exp(a.v.unwrap_or(v(0.0, 0.99)))).fold(-1.0f64, f64::max);
    let max = 60 * qs.len() + 10;
    let mut done = false;
    for _ in 0..max {
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        if qs.iter().zip(want.iter()).all(|(q, w)| w.as_ref().map(|w| best(q) >= w.0 - 1e-12).unwrap_or(true)) {
            done = true;
            break;
        }
    }
    for (q, w) in qs.iter().zip(want.iter()) {
        match w {
            Some(w) => {
                ev((&hist, q));
                cnt("questions with a held answer", 1);
                if !done && best(q) < w.0 - 1e-12 {
                    viol("not-answered", format!("{} | {}? isn't answered by {} within {} cycles (best reported expectation {})", hist, q.src(), w.1.txt(), max, best(q)));
                }
            }
            None => ev_trivial(),
        }
    }
    sample(hist);
}

fn ask_derived(r: &mut Rng, kb: Vec<(R, V)>, q: R, need: f64, kind: &str, bound: usize) {
    let mut nar = createNar();
    late_aligned(&mut nar, r);
    let log = listen(&nar);
    let mut hist = format!("{}? ", q.src());
    let q_first = r.chance(0.5);
    if q_first {
        inputT(&mut nar, &q.t(), P::Q.e(), &tv_in());
    }
    let mut kb = kb;
    // unrelated knowledge
    for i in 0..r.n(3) {
        kb.push((inh(nm(&format!("u{}", i)), nm(&format!("w{}", i))), v(1.0, 0.9)));
    }
    r.shuffle(&mut kb);
    for (t, x) in &kb {
        hist.push_str(&format!("{}. {{{} {}}} ", t.src(), x.f, x.c));
        inputT(&mut nar, &t.t(), P::J.e(), &x.t());
    }
    if !q_first {
        inputT(&mut nar, &q.t(), P::Q.e(), &tv_in());
    }
    set_input(&hist);
    let sync = r.chance(0.7);
    let mut ok = false;
    let mut n = 0;
    let good = |log: &std::sync::Arc<std::sync::Mutex<Vec<(R, S)>>>| log.lock().unwrap().iter().any(|(x, a)| *x == q && runify(&q, &a.t).is_some() && exp(a.v.unwrap_or(v(0.0, 0.99))) >= need - 1e-9);
    for k in 0..bound {
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        // without waiting, cycles run ahead of the background work
        if sync || k % 20 == 19 {
            drain(&nar.mem);
        }
        n = k + 1;
        if good(&log) {
            ok = true;
            break;
        }
    }
    if !ok {
        drain(&nar.mem);
        ok = good(&log);
    }
    ev((&hist, kind));
    cnt(kind, 1);
    let mx = format!("most cycles needed: {} (up to {})", kind, if n <= 5 { 5 } else if n <= 10 { 10 } else if n <= 20 { 20 } else if n <= 50 { 50 } else { 300 });
    cnt(&mx, 1);
    if !ok {
        let got: Vec<String> = log.lock().unwrap().iter().map(|(x, a)| format!("{}: {}", x.src(), a.txt())).collect();
        viol("not-derived", format!("{} | {}: {}? isn't answered with expectation {} within {} cycles, answers: {:?}", hist, kind, q.src(), need, bound, got));
    }
    sample(hist);
}

fn fresh(k: usize, r: &mut Rng) -> Vec<R> {
    let mut v: Vec<R> = ["a", "b", "c", "d", "e", "f"].iter().map(|x| nm(x)).collect();
    r.shuffle(&mut v);
    v.truncate(k);
    v
}

fn tvp(r: &mut Rng) -> V {
    v(r.range(10, 20) as f64 / 20.0, r.range(50, 99) as f64 / 100.0)
}

fn one_step(r: &mut Rng) {
    let n = fresh(5, r);
    let i = |x: usize, y: usize| inh(n[x].clone(), n[y].clone());
    let x = R::I("x".to_string());
    let kb: Vec<R> = match r.n(10) {
        0 => vec![i(0, 1), i(1, 2)],
        1 => vec![i(0, 1), i(0, 2)],
        2 => vec![i(0, 2), i(1, 2)],
        3 => vec![st(Cop::Impl, i(0, 1), i(2, 3)), i(0, 1)],
        4 => vec![st(Cop::Impl, inh(x.clone(), n[1].clone()), inh(x, n[2].clone())), i(0, 1)],
        5 => vec![st(Cop::Impl, R::Conj(vec![i(0, 1), i(2, 3)]), i(0, 4)), i(2, 3)],
        6 => vec![st(Cop::Sim, n[0].clone(), n[1].clone()), st(Cop::Sim, n[2].clone(), n[1].clone())],
        7 => vec![inh(R::Prod(vec![n[0].clone(), n[1].clone()]), n[2].clone())],
        8 => vec![inh(n[0].clone(), R::SInt(vec![n[1].clone()])), inh(n[0].clone(), R::SInt(vec![n[2].clone()]))],
        _ => vec![[neg(i(0, 1)), inh(R::IInt(vec![n[0].clone(), n[1].clone()]), n[2].clone()), st(Cop::Sim, R::SExt(vec![n[0].clone()]), R::SExt(vec![n[1].clone()])), inh(n[0].clone(), img(n[1].clone(), r.n(2), n[2].clone()))][r.n(4)].clone()],
    };
    let kb: Vec<(R, V)> = kb.into_iter().map(|t| (t, tvp(r))).collect();
    let pr: Vec<Pr> = kb.iter().map(|(t, x)| Pr { t: t.clone(), p: P::J, v: Some(*x) }).collect();
    let cs = if pr.len() == 2 { binary(&pr[0], &pr[1]) } else { single(&pr[0]) };
    if cs.is_empty() {
        return;
    }
    let c = r.pick(&cs);
    let mut q = c.t.clone();
    if r.chance(0.3) {
        // ask for a part
        if let R::St(cop, a, b) = &c.t {
            q = if r.chance(0.5) { R::St(*cop, Box::new(R::Q("v".to_string())), b.clone()) } else { R::St(*cop, a.clone(), Box::new(R::Q("v".to_string()))) };
        }
    }
    let need = exp(c.v);
    if need <= 0.0 {
        return;
    }
    cnt(&format!("rule {}", c.rule), 1);
    ask_derived(r, kb, q, need, "one step", 40);
}

fn two_steps(r: &mut Rng) {
    let n = fresh(5, r);
    let i = |x: usize, y: usize| inh(n[x].clone(), n[y].clone());
    let x = R::I("x".to_string());
    let im = |a: usize, b: usize| st(Cop::Impl, inh(x.clone(), n[a].clone()), inh(x.clone(), n[b].clone()));
    let (a, b, c) = (tvp(r), tvp(r), tvp(r));
    let (kb, q, need): (Vec<(R, V)>, R, f64) = match r.n(6) {
        // chains; the order in which the steps are combined doesn't matter for deduction with these frequencies only roughly, so the weaker one is required
        0 => {
            let e1 = exp(ded(ded(a, b), c));
            let e2 = exp(ded(a, ded(b, c)));
            (vec![(i(0, 1), a), (i(1, 2), b), (i(2, 3), c)], i(0, 3), e1.min(e2))
        }
        1 => (vec![(i(0, 1), a), (im(1, 2), b), (im(2, 3), c)], i(0, 3), exp(ded(c, ded(b, a)))),
        2 => (vec![(st(Cop::Impl, R::Conj(vec![i(0, 1), i(0, 2)]), i(0, 3)), a), (i(0, 1), b), (i(0, 2), c)], i(0, 3), exp(ded(ded(a, b), c)).min(exp(ded(ded(a, c), b)))),
        3 => {
            // relation to image, then chain
            (vec![(inh(R::Prod(vec![n[0].clone(), n[1].clone()]), n[2].clone()), a), (inh(n[3].clone(), n[0].clone()), b)], inh(n[3].clone(), img(n[2].clone(), 0, n[1].clone())), exp(ded(b, a)))
        }
        4 => (vec![(neg(i(0, 1)), a), (i(1, 2), b)], i(0, 2), exp(ded(negv(a), b))),
        _ => (vec![(inh(R::IInt(vec![n[0].clone(), n[1].clone()]), n[2].clone()), a), (i(2, 3), b)], i(0, 3), exp(ded(a, b))),
    };
    ask_derived(r, kb, q, need, "two steps", 100);
}
