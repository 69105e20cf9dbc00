//! answers are genuine, improving and reported once
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarWorkingCycle::{qaTryAnswer, QHandler, Task2};
use parking_lot::RwLock;
use std::sync::{Arc, Mutex};
use vh::rules::P;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C12", 14.0, 200.0, "runs of 2..8 random related judgements and 1..8 questions (with and without variables, before, between and after the judgements) with 1..6 global listeners and sometimes one of the question itself; every reported answer is checked against the history of the memory content (observed after each cycle) and the inference rules; non-trivial: an answer was reported; distinct by question and answer with truth value");
    par(&cfg, 8, 12, |i, r| until(cfg.deadline(), || if r.chance(0.2) { for _ in 0..20 { offer(r) } } else { run(r, i % 4 != 3) }));
    finish();
}

struct Own {
    log: Arc<Mutex<Vec<(R, S)>>>,
}
impl QHandler for Own {
    fn answer(&mut self, q: &nar20_1::Term::Term, a: &nar20_1::NarSentence::Sentence) {
        self.log.lock().unwrap().push((R::of(q), s_of(a)));
    }
}

fn kb(r: &mut Rng) -> (G, Vec<R>) {
    let mut g = G::new(&["a", "b", "c", "d"]);
    g.pvar = 0.0;
    g.cops = vec![Cop::Inh, Cop::Inh, Cop::Inh, Cop::Sim, Cop::Impl];
    g.parens = 2;
    g.pleaf = 0.6;
    let n = 2 + r.n(7);
    let mut ts: Vec<R> = vec![];
    let mut guard = 0;
    while ts.len() < n && guard < 200 {
        guard += 1;
        let t = match r.n(6) {
            0 | 1 | 2 => inh(nm(r.pick(&g.names)), nm(r.pick(&g.names))),
            3 => g.stmt(r, 3),
            4 => {
                let mut h = g.clone();
                h.pvar = 0.5;
                h.vars = strs(&["x"]);
                R::St(Cop::Impl, Box::new(inh(R::I("x".to_string()), nm(r.pick(&g.names)))), Box::new(inh(R::I("x".to_string()), nm(r.pick(&g.names)))))
            }
            _ => g.term(r, 3),
        };
        if matches!(t, R::St(Cop::Pred, _, _)) || t.complexity() > 30 {
            continue;
        }
        ts.push(t);
    }
    (g, ts)
}

fn question(g: &G, ts: &[R], r: &mut Rng) -> R {
    let mut t = match r.n(4) {
        0 | 1 => r.pick(ts).clone(),
        2 => inh(nm(r.pick(&g.names)), nm(r.pick(&g.names))),
        _ => {
            let x = r.pick(ts).clone();
            g.mutate(r, &x)
        }
    };
    if r.chance(0.3) {
        // an instance of something with variables is not answered by it
        let m: Vec<(R, R)> = t.usubs().into_iter().filter(|x| x.is_var()).map(|x| (x, nm(r.pick(&g.names)))).collect();
        t = rsubst(&t, &m);
    } else if r.chance(0.6) {
        t = g.abstr(r, &t);
    }
    t
}

fn run(r: &mut Rng, step: bool) {
    let (g, ts) = kb(r);
    let mut nar = createNar();
    late(&mut nar, r);
    let l1 = listen(&nar);
    let others: Vec<_> = (0..r.n(6)).map(|_| listen(&nar)).collect();
    let own: Arc<Mutex<Vec<(R, S)>>> = Arc::new(Mutex::new(vec![]));
    let mut own_q: Option<R> = None;
    let mut qs: Vec<R> = vec![];
    let mut told: Vec<i64> = vec![];
    let mut hist = String::new();
    let mut known = Known::default();
    let mut seen = 0usize;
    let mut best: Vec<(R, f64)> = vec![];
    let mut pending: Vec<(u8, R)> = ts.iter().map(|t| (0u8, t.clone())).collect();
    for _ in 0..1 + r.n(8) {
        let q = question(&g, &ts, r);
        if q.writable() && !matches!(q, R::St(Cop::Pred, _, _)) {
            pending.push((1, q));
        }
    }
    r.shuffle(&mut pending);
    let total = 5 + r.n(40);
    for k in 0..total {
        while !pending.is_empty() && (k == 0 && r.chance(0.7) || r.chance(0.15)) {
            let (what, t) = pending.pop().unwrap();
            if what == 0 {
                let tv = gv(r);
                let id = next_id(&nar.mem);
                let s = S { t: t.clone(), p: P::J, v: Some(tv), cnt: None, ids: vec![id], dt: None, used: (0, 0) };
                known.add(&s);
                told.push(id);
                hist.push_str(&format!("{}. {{{} {}}} #{} ", t.src(), tv.f, tv.c, id));
                inputT(&mut nar, &t.t(), P::J.e(), &tv.t());
            } else if !qs.contains(&t) {
                hist.push_str(&format!("{}? ", t.src()));
                set_input(&hist);
                if own_q.is_none() && r.chance(0.3) {
                    own_q = Some(t.clone());
                    let h: Arc<RwLock<dyn QHandler>> = Arc::new(RwLock::new(Own { log: Arc::clone(&own) }));
                    let m = nar.mem.read();
                    let s = m.shared.read();
                    let mut q = s.questionTasks.write();
                    q.push(Box::new(Task2 { sentence: sentence(&t, P::Q, None, &[-5]), handler: Some(h), bestAnswerExp: 0.0, prio: 1.0 }));
                } else {
                    inputT(&mut nar, &t.t(), P::Q.e(), &nar20_1::Tv::Tv { f: 1.0, c: 0.9 });
                }
                qs.push(t);
            }
        }
        hist.push_str("!s ");
        set_input(&hist);
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        if step {
            drain(&nar.mem);
            for s in content(&nar.mem) {
                known.add(&s);
            }
            check(&l1, &mut seen, &mut best, &qs, &told, Some(&known), &hist);
        }
        if stop_requested() {
            return;
        }
    }
    drain(&nar.mem);
    check(&l1, &mut seen, &mut best, &qs, &told, if step { Some(&known) } else { None }, &hist);
    let f = |l: &Arc<Mutex<Vec<(R, S)>>>| -> Vec<String> { l.lock().unwrap().iter().map(|(q, a)| format!("{} {}", q.src(), a.txt())).collect() };
    let a = f(&l1);
    for (k, l) in others.iter().enumerate() {
        let b = f(l);
        if a != b {
            viol("listeners", format!("{} | of {} listeners two were told different answers: first {:?} {}: {:?}", hist, 1 + others.len(), a, k + 2, b));
        }
    }
    if let Some(q) = own_q {
        let mine: Vec<String> = l1.lock().unwrap().iter().filter(|(x, _)| *x == q).map(|(q, a)| format!("{} {}", q.src(), a.txt())).collect();
        if f(&own) != mine {
            viol("listeners", format!("{} | the listener of the question was told {:?}, the others {:?}", hist, f(&own), mine));
        }
        cnt("runs with own listener", 1);
    }
    cnt(if step { "runs observed cycle by cycle" } else { "runs with concurrent derivation" }, 1);
    if a.len() > 2 {
        sample(format!("{} -> {:?}", hist, a));
    }
}

/// candidates are offered to a single question
fn offer(r: &mut Rng) {
    let (g, ts) = kb(r);
    let q = question(&g, &ts, r);
    let own: Arc<Mutex<Vec<(R, S)>>> = Arc::new(Mutex::new(vec![]));
    let all: Vec<Arc<Mutex<Vec<(R, S)>>>> = (0..r.n(5)).map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let mk = |l: &Arc<Mutex<Vec<(R, S)>>>| -> Arc<RwLock<dyn QHandler>> { Arc::new(RwLock::new(Own { log: Arc::clone(l) })) };
    let has_own = r.chance(0.5);
    let mut task = Task2 { sentence: sentence(&q, P::Q, None, &[-5]), handler: if has_own { Some(mk(&own)) } else { None }, bestAnswerExp: 0.0, prio: 1.0 };
    let hs: Vec<Arc<RwLock<dyn QHandler>>> = all.iter().map(|l| mk(l)).collect();
    let mut want: Vec<String> = vec![];
    let mut best = 0.0;
    let mut hist = format!("{}? ", q.src());
    for k in 0..2 + r.n(12) {
        let t = if r.chance(0.6) { fill(&q, &g, r) } else { r.pick(&ts).clone() };
        let p = *r.pick(&[P::J, P::J, P::J, P::G, P::Q]);
        let tv = gv(r);
        let s = sentence(&t, p, if p == P::Q { None } else { Some(tv) }, &[100 + k as i64]);
        hist.push_str(&format!("{} ", s_of(&s).txt()));
        set_input(&hist);
        set_what(&hist);
        if guarded(|| qaTryAnswer(&mut task, &s, &hs)).is_none() {
            return;
        }
        tick();
        let e = tv.c * (tv.f - 0.5) + 0.5;
        if (e - best as f64).abs() < 1e-12 {
            // as good as the last one up to rounding
            return;
        }
        if p == P::J && e > best && runify(&q, &t).is_some() {
            best = e;
            want.push(s_of(&s).txt());
            ev(("offer", &q, &t));
        }
        cnt(match p { P::J => "judgements offered", _ => "goals and questions offered" }, 1);
    }
    for (i, l) in all.iter().chain(if has_own { Some(&own) } else { None }).enumerate() {
        let got: Vec<String> = l.lock().unwrap().iter().map(|x| x.1.txt()).collect();
        if got != want || l.lock().unwrap().iter().any(|x| x.0 != q) {
            viol("offered", format!("{} | listener {} was told {:?} instead of {:?}", hist, i, got, want));
            return;
        }
    }
}

/// variables of a term replaced
fn fill(t: &R, g: &G, r: &mut Rng) -> R {
    let mut m: Vec<(R, R)> = vec![];
    for s in t.usubs() {
        if s.is_var() && !m.iter().any(|x| x.0 == s) {
            let v = if r.chance(0.7) { nm(r.pick(&g.names)) } else { inh(nm(r.pick(&g.names)), nm("z")) };
            m.push((s, v));
        }
    }
    rsubst(t, &m)
}

fn check(l: &Arc<Mutex<Vec<(R, S)>>>, seen: &mut usize, best: &mut Vec<(R, f64)>, qs: &[R], told: &[i64], known: Option<&Known>, hist: &str) {
    let new: Vec<(R, S)> = l.lock().unwrap()[*seen..].to_vec();
    *seen += new.len();
    for (q, a) in new {
        ev((&q, &a.t, a.v.map(|x| (x.f.to_bits(), x.c.to_bits()))));
        cnt("answers", 1);
        let txt = format!("{} | answer {} to {}", hist, a.txt(), q.src());
        if !qs.contains(&q) {
            viol("not-asked", format!("{}: question wasn't asked", txt));
            continue;
        }
        if a.p != P::J || a.v.is_none() {
            viol("no-judgement", format!("{}: no judgement", txt));
            continue;
        }
        let av = a.v.unwrap();
        if !av.legal() {
            viol("illegal", format!("{}: illegal truth value", txt));
        }
        if runify(&q, &a.t).is_none() {
            viol("no-instance", format!("{}: not an instance of the question", txt));
            continue;
        }
        let e = exp(av);
        match best.iter_mut().find(|x| x.0 == q) {
            Some(b) => {
                if e <= b.1 {
                    viol("not-better", format!("{}: expectation {} after an answer with {}", txt, e, b.1));
                }
                b.1 = b.1.max(e);
            }
            None => best.push((q.clone(), e)),
        }
        if !a.ids.iter().all(|i| told.contains(i)) {
            viol("evidence", format!("{}: rests on inputs which were never told", txt));
        }
        if let Some(k) = known {
            if !k.has_near(&a) && !k.licensed(&a) && !k.pooled(&a) {
                viol("invented", format!("{}: neither held nor licensed by the rules", txt));
            }
        }
    }
}
