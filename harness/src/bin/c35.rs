//! C35: attention goes where priority says
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem as GS;
use nar20_1::NarWorkingCycle as W;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use vh::gen::*;
use vh::rules::*;
use vh::sys::*;
use vh::*;

/// is it out of question that c of n happened by chance with probability p? (Chernoff bound)
fn impossible(c: u64, n: u64, p: f64) -> bool {
    if p <= 0.0 {
        return c > 0;
    }
    if p >= 1.0 {
        return c < n;
    }
    let (n, x) = (n as f64, c as f64 / n as f64);
    let mut kl = 0.0;
    if x > 0.0 {
        kl += x * (x / p).ln();
    }
    if x < 1.0 {
        kl += (1.0 - x) * ((1.0 - x) / (1.0 - p)).ln();
    }
    n * kl > 30.0 // below 1e-13
}

// ---------- goals ----------

struct RefGoal {
    term: R,
    level: i64,
    desired: bool,
    ptr: usize,
}

fn goals(r: &mut Rng) {
    let nar = createNar();
    let depth_max = *r.pick(&[1i64, 3, 5, 12, 30]);
    let cap = *r.pick(&[4i64, 10, 1000]);
    let gs = Arc::new(parking_lot::RwLock::new(GS::makeGoalSystem(cap, depth_max)));
    let satisfy = r.chance(0.85);
    gs.write().cfg__enGoalSatisfaction = satisfy;
    let names = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"];
    let nn = if r.chance(0.2) { 16 } else { 1 + r.n(5) };
    let many = if r.chance(0.15) { 40 } else { 6 };
    let mut id = 0;
    let mut t = 0;
    let mut hist: Vec<String> = vec![];
    let mut known: Vec<RefGoal> = vec![];
    let mut keep: Vec<Arc<nar20_1::NarSentence::Sentence>> = vec![]; // so that addresses are not used again
    let mut rng = rand::thread_rng();
    for _ in 0..3 + r.n(6) {
        for _ in 0..1 + r.n(many) {
            t += 1 + r.n(20) as i64;
            match r.n(8) {
                0 => {
                    let x = nm(names[r.n(nn)]);
                    hist.push(format!("event {}", x.src()));
                    GS::event_occurred(&mut gs.write(), &x.t());
                    if satisfy {
                        for k in known.iter_mut() {
                            if k.term == x {
                                k.desired = false;
                            }
                        }
                    }
                }
                1 => {
                    hist.push("cleanup".into());
                    GS::limitMemory(&gs, &nar.mem.read(), t);
                    let left: BTreeSet<usize> = GS::retEntries(&gs.read()).iter().map(|e| Arc::as_ptr(&e.read().sentence) as usize).collect();
                    known.retain(|k| left.contains(&k.ptr));
                }
                _ => {
                    id += 1;
                    let x = if r.chance(0.1) { op("^x", vec![selfr()]) } else { nm(names[r.n(nn)]) };
                    let d = r.n(depth_max as usize + 2) as i64;
                    let s = Arc::new(sentence(&x, P::G, Some(v(1.0, 0.5 + r.f() * 0.4)), &[id]));
                    hist.push(format!("goal {} depth {}", x.src(), d));
                    GS::addEntry(&gs, &nar.mem.read(), t, Arc::clone(&s), None, d);
                    known.push(RefGoal { term: x, level: d.min(depth_max - 1), desired: true, ptr: Arc::as_ptr(&s) as usize });
                    keep.push(s);
                }
            }
        }
        // operations are handled apart
        let ks: Vec<&RefGoal> = known.iter().filter(|k| matches!(k.term, R::Nm(_))).collect();
        let mut levels: BTreeMap<i64, (f64, f64)> = BTreeMap::new();
        for k in &ks {
            let e = levels.entry(k.level).or_insert((0.0, 0.0));
            e.0 += 1.0;
            if k.desired {
                e.1 += 1.0;
            }
        }
        let n = 1500u64;
        let info = format!("goals, {} levels, capacity {}, satisfaction {}: {:?}", depth_max, cap, satisfy, hist);
        set_input(&info);
        set_what(&info);
        let mut counts: HashMap<usize, u64> = HashMap::new();
        let mut none = 0u64;
        let ok = guarded(|| {
            for _ in 0..n {
                match GS::sample(&gs.read(), &mut rng) {
                    Some((s, _)) => *counts.entry(Arc::as_ptr(&s) as usize).or_insert(0) += 1,
                    None => none += 1,
                }
            }
        });
        tick();
        if ok.is_none() {
            return;
        }
        let nl = levels.len() as f64;
        let mut total = 0;
        let txt = |k: &RefGoal| format!("{} at level {} (desired {})", k.term.src(), k.level, k.desired);
        for k in &ks {
            let p = if k.desired { 1.0 / nl / levels[&k.level].1 } else { 0.0 };
            let c = *counts.get(&k.ptr).unwrap_or(&0);
            total += c;
            if impossible(c, n, p) {
                viol("goals", format!("{} | {} was sampled {} of {} times, its share is {}; goals {:?}", info, txt(k), c, n, p, ks.iter().map(|k| txt(k)).collect::<Vec<_>>()));
                return;
            }
        }
        if total + none != n {
            viol("goals", format!("{} | {} samples are goals which are not held", info, n - total - none));
            return;
        }
        let p0 = if levels.is_empty() { 1.0 } else { levels.values().filter(|x| x.1 == 0.0).count() as f64 / nl };
        if impossible(none, n, p0) {
            viol("goals", format!("{} | nothing was sampled {} of {} times, should be a share of {}", info, none, n, p0));
            return;
        }
        cnt("goal samples", n);
        ev(("goals", levels.iter().map(|x| (*x.0, x.1 .0 as i64, x.1 .1 as i64)).collect::<Vec<_>>(), ks.len(), hist.len()));
    }
}

// ---------- judgements ----------

#[derive(Clone, Debug)]
struct T {
    id: i64,
    term: R,
    credit: f64,
    qa: f64,
    mul: f64,
    deriv: i64,
}
fn pending(nar: &Nar) -> Vec<T> {
    let g = nar.mem.read();
    let s = g.shared.read();
    s.judgementTasks
        .iter()
        .map(|x| {
            let x = x.read();
            T { id: x.id, term: R::of(&x.sentence.term), credit: x.credit, qa: x.qaCredit, mul: x.mulCredit, deriv: x.derivTime }
        })
        .collect()
}
fn worth(t: &T, cycle: i64) -> f64 {
    (t.qa * 0.2 + t.credit) * (-0.001 * (cycle - t.deriv) as f64).exp() * t.mul
}

fn cycles_done_of(sh: &W::DeclarativeShared) -> i64 {
    sh.cycleCounter.load(Ordering::SeqCst)
}

fn judgements(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.cfgVerbosityInput = 0;
    let rx = detach(&nar.mem);
    let g = G::new(&["a", "b", "c", "d", "e", "f", "g", "h"]).novar();
    let mut hist: Vec<String> = vec![];
    // every judgement which was pending since the last cleanup, in order
    let mut index: Vec<(i64, R)> = vec![];
    let mut qs: Vec<R> = vec![];
    // also right before a cleanup
    if r.chance(0.3) {
        let c = 60 + r.n(50) as i64;
        nar.mem.read().shared.read().cycleCounter.store(c, Ordering::SeqCst);
    }
    let dense = r.chance(0.15);
    let flushing = !dense && r.chance(0.3);
    // judgements with many terms, each of which has many partners of its own
    let wide = !dense && r.chance(0.06);
    let mut ready: Vec<R> = vec![];
    if wide {
        let n = 3 + r.n(4);
        let names: Vec<R> = (0..n).map(|i| nm(&format!("n{}", i))).collect();
        let each = 12 + r.n(26);
        for x in &names {
            for k in 0..each {
                let u = nm(&format!("u{}", r.n(100_000) * 40 + k));
                ready.push(if r.chance(0.5) { inh(x.clone(), u) } else { inh(u, x.clone()) });
            }
        }
        r.shuffle(&mut ready);
        ready.push(inh(R::Prod(names[1..].to_vec()), names[0].clone()));
    }
    let many = ready.len();
    for step in 0..if wide { 4 } else { 20 + r.n(60) } {
        let k = if step == 0 && wide { many } else if dense { r.n(12) } else { r.n(4) };
        for k in 0..k {
            let prepared = if step == 0 && wide { Some(ready[k].clone()) } else { None };
            let q = prepared.is_none() && r.chance(0.15);
            let t = if let Some(t) = prepared.clone() { t } else if dense || r.chance(0.6) { inh(g.leaf(r), g.leaf(r)) } else { g.stmt(r, 2) };
            if matches!(t, R::St(Cop::Pred, _, _)) || t.complexity() > 60 {
                continue;
            }
            let tv = gv_plain(r);
            hist.push(format!("{}{}", t.src(), if q { "?" } else { "." }));
            let before = pending(&nar);
            inputT2(&mut nar, &t.t(), if q { P::Q.e() } else { P::J.e() }, &tv.t(), false);
            if q {
                qs.push(t);
            } else {
                // other creation times and factors, as derived ones have
                let gd = nar.mem.read();
                let sh = gd.shared.read();
                for x in sh.judgementTasks.iter() {
                    let id = x.read().id;
                    if before.iter().any(|b| b.id == id) {
                        continue;
                    }
                    let y = R::of(&x.read().sentence.term);
                    if (x.read().credit - 1.0 / y.complexity() as f64).abs() > 1e-9 {
                        viol("credit", format!("{:?} | new judgement {} has credit {}, should be {}", hist, y.src(), x.read().credit, 1.0 / y.complexity() as f64));
                        return;
                    }
                    let eff = W::taskCalcCredit(&x.read(), cycles_done_of(&sh));
                    if (eff - 1.0 / y.complexity() as f64).abs() > 1e-9 {
                        viol("credit", format!("{:?} | new judgement {} counts {} in cycle {}, should be {}", hist, y.src(), eff, cycles_done_of(&sh), 1.0 / y.complexity() as f64));
                        return;
                    }
                    index.push((id, y));
                    if prepared.is_some() {
                        x.write().mulCredit = if k + 1 == many { 1.0 } else { 0.001 };
                        continue;
                    }
                    if r.chance(0.3) {
                        x.write().derivTime -= r.n(400) as i64;
                    }
                    if r.chance(0.3) {
                        x.write().mulCredit = r.f();
                    }
                }
            }
        }
        if flushing && r.chance(0.06) {
            // pending judgements are discarded
            hist.push("!dtf".into());
            let mut quit = false;
            if guarded(|| nar20_1::NarInputFacade::input(&mut nar, &"!dtf".to_string(), &mut quit)).is_none() {
                return;
            }
            index.clear();
            cnt("flushes", 1);
        }
        let before = pending(&nar);
        let c = cycles_done(&nar.mem) + 1;
        let info = format!("cycle {} after {:?}", c, hist);
        set_input(&info);
        set_what(&info);
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        hist.push("!s1".into());
        // credits in this cycle
        let mut want = before.clone();
        for t in want.iter_mut() {
            let own = t.term.subs();
            for q in &qs {
                for s in q.subs() {
                    t.qa += own.iter().filter(|x| **x == s).count() as f64;
                }
            }
            let k = t.term.complexity() as f64;
            t.credit = (t.credit + 0.5) / k;
            t.qa /= k;
        }
        let mut msgs = vec![];
        while let Ok(m) = rx.try_recv() {
            msgs.push(m);
        }
        if msgs.len() != if before.is_empty() { 0 } else { 1 } {
            viol("selection", format!("{} | {} judgements were taken up, {} were pending", info, msgs.len(), before.len()));
            return;
        }
        let cleanup = c % 111 == 0;
        let after = pending(&nar);
        let mut taken = None;
        if let Some(m) = msgs.first() {
            let id = m.primary.read().id;
            let best = want.iter().map(|t| worth(t, c)).fold(f64::MIN, f64::max);
            match want.iter().find(|t| t.id == id) {
                Some(t) => {
                    if worth(t, c) < best - 1e-9 * best.abs() {
                        viol("selection", format!("{} | took up {} with credit {}, but {:?} are pending", info, t.term.src(), worth(t, c), want.iter().map(|t| (t.term.src(), worth(t, c))).collect::<Vec<_>>()));
                        return;
                    }
                    taken = Some(t.clone());
                }
                None => {
                    viol("selection", format!("{} | took up {} which is not pending", info, R::of(&m.primary.read().sentence.term).src()));
                    return;
                }
            }
            // partners
            let own = taken.as_ref().unwrap().term.usubs();
            let sec: Vec<(i64, R)> = m.secondary.iter().map(|x| (x.read().id, R::of(&x.read().sentence.term))).collect();
            let ids: BTreeSet<i64> = sec.iter().map(|x| x.0).collect();
            if ids.len() != sec.len() {
                viol("partners", format!("{} | {} gets the same partner twice", info, own[0].src()));
                return;
            }
            let mut per_term: HashMap<&R, usize> = HashMap::new();
            let mut crowded = false;
            let mut should: BTreeSet<i64> = BTreeSet::new();
            for (i, x) in &index {
                let subs = x.subs();
                for s in &own {
                    let n = subs.iter().filter(|y| *y == s).count();
                    if n > 0 {
                        should.insert(*i);
                        let e = per_term.entry(s).or_insert(0);
                        *e += n;
                        crowded |= *e > 40;
                    }
                }
            }
            crowded |= should.len() > 250;
            let show = |v: &BTreeSet<i64>| v.iter().map(|i| index.iter().find(|x| x.0 == *i).map(|x| x.1.src()).unwrap_or_default()).collect::<Vec<_>>();
            if let Some((_, x)) = sec.iter().find(|x| !should.contains(&x.0)) {
                viol("partners", format!("{} | {} is combined with {} which shares no term or was forgotten", info, own[0].src(), x.src()));
                return;
            }
            if !crowded && ids != should {
                let miss: BTreeSet<i64> = should.difference(&ids).cloned().collect();
                viol("partners", format!("{} | {} is not combined with {:?}", info, own[0].src(), show(&miss)));
                return;
            }
            if sec.len() > 300 {
                viol("partners", format!("{} | {} has {} partners", info, own[0].src(), sec.len()));
                return;
            }
            cnt(if crowded { "crowded selections" } else { "exact selections" }, 1);
            cnt("partners", sec.len() as u64);
            if !crowded && sec.len() > 100 {
                cnt("exact selections with more than 100 partners", 1);
            }
            ev(("sel", own[0].src(), sec.len(), before.len()));
        }
        if cleanup {
            // what is pending is what can be found
            index = after.iter().map(|t| (t.id, t.term.clone())).collect();
            cnt("cleanups", 1);
        } else {
            let rest: Vec<&T> = want.iter().filter(|t| Some(t.id) != taken.as_ref().map(|x| x.id)).collect();
            if rest.len() != after.len() {
                viol("selection", format!("{} | {} judgements are pending afterwards, should be {}", info, after.len(), rest.len()));
                return;
            }
            for t in rest {
                match after.iter().find(|x| x.id == t.id) {
                    Some(x) if close(x.credit, t.credit) && close(x.qa, t.qa) && x.mul == t.mul && x.deriv == t.deriv => {}
                    x => {
                        viol("credit", format!("{} | {} should have credit {} question credit {}, is {:?}; questions {:?}", info, t.term.src(), t.credit, t.qa, x, qs.iter().map(|q| q.src()).collect::<Vec<_>>()));
                        return;
                    }
                }
            }
        }
    }
    // reported credits
    let p = pending(&nar);
    let c = cycles_done(&nar.mem);
    let rep = W::debugCreditsOfTasks(&nar.mem.read());
    for (t, l) in p.iter().zip(&rep) {
        let x: Option<f64> = l.rsplit("credit=").next().and_then(|x| x.trim().parse().ok());
        if !matches!(x, Some(x) if close(x, worth(t, c))) {
            viol("credit", format!("{:?} | reported as {:?}, credit is {}", hist, l, worth(t, c)));
            return;
        }
    }
    drop(rx);
    stop_store(&mut nar.procNar);
}

// ---------- questions ----------

fn questions_sel(r: &mut Rng) {
    let n = 1 + r.n(12);
    let prios: Vec<f64> = (0..n).map(|_| if r.chance(0.4) { 1.0 } else { r.f() + 1e-3 }).collect();
    let arr: Vec<Box<W::Task2>> = prios
        .iter()
        .map(|p| Box::new(W::Task2 { sentence: sentence(&nm("q"), P::Q, None, &[]), handler: None, bestAnswerExp: 0.0, prio: *p }))
        .collect();
    let sum: f64 = prios.iter().sum();
    for _ in 0..50 {
        let x = match r.n(10) {
            0 => 0.0,
            1 => 1.0 - 1e-12,
            _ => r.f(),
        };
        let mut acc = 0.0;
        let mut want = n - 1;
        let mut near = false;
        for (i, p) in prios.iter().enumerate() {
            acc += p;
            near |= (acc - x * sum).abs() < 1e-9 && i + 1 < n;
            if acc >= x * sum {
                want = i;
                break;
            }
        }
        let info = format!("questions with priorities {:?}, random value {}", prios, x);
        set_input(&info);
        match guarded(|| W::task2SelByCreditRandom(x, &arr)) {
            Some(k) => {
                if k != want && !near {
                    viol("questions", format!("{} | selected {}, should be {}", info, k, want));
                    return;
                }
            }
            None => return,
        }
        ev(("q", n, want));
    }
    cnt("question selections", 50);
    tick();
}

/// every open question gets its share of the cycles
fn questions_run(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.cfgVerbosityInput = 0;
    let rx = detach(&nar.mem);
    let n = 2 + r.n(8);
    let mut served: Vec<u64> = vec![0; n];
    let log = listen(&nar);
    for k in 0..n {
        inputN(&mut nar, &format!("<s{} --> p{}>?", k, k));
        inputN(&mut nar, &format!("<s{} --> p{}>.", k, k));
    }
    let rounds = 600u64;
    for _ in 0..rounds {
        let info = format!("{} questions with one answer each, question forgets its answer after each cycle", n);
        set_input(&info);
        set_what(&info);
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        // forget the answers, so that serving a question can be seen
        {
            let g = nar.mem.read();
            let s = g.shared.read();
            for q in s.questionTasks.write().iter_mut() {
                q.bestAnswerExp = 0.0;
            }
        }
        let mut l = log.lock().unwrap();
        if l.len() != 1 {
            viol("questions", format!("{} questions, each with one answer | {} answers in one cycle: {:?}", n, l.len(), l.iter().map(|x| x.0.src()).collect::<Vec<_>>()));
            return;
        }
        let q = l[0].0.src();
        l.clear();
        for k in 0..n {
            if q == nm_stmt(k).src() {
                served[k] += 1;
            }
        }
        while rx.try_recv().is_ok() {}
    }
    for k in 0..n {
        if impossible(served[k], rounds, 1.0 / n as f64) {
            viol("questions", format!("{} open questions of same priority were served {:?} of {} times", n, served, rounds));
            return;
        }
    }
    cnt("cycles with served question", rounds);
    ev(("serve", n, served));
    drop(rx);
    stop_store(&mut nar.procNar);
}
fn nm_stmt(k: usize) -> R {
    inh(nm(&format!("s{}", k)), nm(&format!("p{}", k)))
}

/// judgements told by several threads at once
fn several(r: &mut Rng) {
    for _ in 0..4 {
        let (info, bad) = together(r);
        if let Some(b) = bad {
            viol("partners", format!("{} | {}", info, b));
            return;
        }
        cnt("runs with several telling threads", 1);
        ev(("several", r.u64() % 100000));
    }
}

/// a conclusion carries on the attention factor of the judgement it was derived from
fn inherited(r: &mut Rng) {
    let mut nar = createNar();
    let mut g = G::new(&["a", "b", "c"]).novar();
    g.cops = vec![Cop::Inh, Cop::Inh, Cop::Sim, Cop::Impl];
    let mut hist: Vec<String> = vec![];
    let mut seen: Vec<nar20_1::NarSentence::Sentence> = vec![];
    for k in 0..1 + r.n(3) {
        let t = match r.n(5) {
            0 => neg(g.stmt(r, 2)),
            1 => inh(R::Prod(vec![g.leaf(r), g.leaf(r)]), g.leaf(r)),
            2 => st(Cop::Sim, R::SExt(vec![g.leaf(r)]), R::SExt(vec![g.leaf(r)])),
            _ => g.stmt(r, 2),
        };
        if t.complexity() > 30 || matches!(t, R::St(Cop::Pred, _, _)) {
            continue;
        }
        let s = sentence(&t, P::J, Some(gv_plain(r)), &[7000 + k as i64]);
        let mul = *r.pick(&[1.0, 0.9, 0.5, 0.2, 0.05]);
        hist.push(format!("{} factor {}", s_of(&s).txt(), mul));
        let sh = Arc::clone(&nar.mem.read().shared);
        W::memAddTask(sh, &s, true, 64, 20, mul, 0);
        seen.push(s);
    }
    for _ in 0..r.n(6) {
        let list = |nar: &Nar| -> Vec<(i64, f64, nar20_1::NarSentence::Sentence)> { nar.mem.read().shared.read().judgementTasks.iter().map(|x| { let x = x.read(); (x.id, x.mulCredit, x.sentence.clone()) }).collect() };
        let before = list(&nar);
        let info = format!("{:?} and some cycles", hist);
        set_input(&info);
        set_what(&info);
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        drain(&nar.mem);
        tick();
        let after = list(&nar);
        let gone: Vec<_> = before.iter().filter(|b| !after.iter().any(|a| a.0 == b.0)).collect();
        if gone.len() != 1 {
            break;
        }
        let (_, pm, prim) = gone[0];
        let mut rules: Vec<(R, f64)> = W::infSinglePremise2(prim).iter().map(|c| (R::of(&c.0.term), c.1)).collect();
        // conclusions of two judgements carry it on unchanged
        for o in &seen {
            let mut applied = false;
            rules.extend(W::inference(prim, o, &mut applied).iter().map(|c| (R::of(&c.0.term), 1.0)));
        }
        for (_, m, s) in after.iter().filter(|a| !before.iter().any(|b| b.0 == a.0)) {
            let t = R::of(&s.term);
            let fs: Vec<f64> = rules.iter().filter(|x| x.0 == t).map(|x| pm * x.1).collect();
            if fs.is_empty() {
                // other checks judge what follows
                continue;
            }
            if !fs.iter().any(|f| (f - m).abs() < 1e-9) {
                viol("factor", format!("{} | {} derived from {} with factor {} has factor {}, should be one of {:?}", info, t.src(), s_of(prim).txt(), pm, m, fs));
                return;
            }
            cnt("inherited factors", 1);
            ev(("mul", t.src(), m.to_bits()));
        }
        seen.extend(after.into_iter().map(|a| a.2));
        if seen.len() > 150 {
            break;
        }
    }
    stop_workers(&nar.mem);
}

fn main() {
    let cfg = init("C35", 10.0, 150.0, "one evaluation per cycle whose selected judgement, partners and credits were compared with the reference, per set of 1500 goal samples compared with the shares, per question selection; distinct by selection, goals per level, questions");
    assume("shares are judged with a Chernoff bound: an alarm has a chance below 1e-12 if the shares are right; more than 40 judgements per shared term are only checked for soundness");
    let dl = cfg.deadline();
    par(&cfg, 6, 35, |i, r| {
        let mut n = 0;
        until(dl, || {
            n += 1;
            match (i + n) % 8 {
                0 | 1 | 2 => judgements(r),
                3 | 4 => goals(r),
                5 => {
                    for _ in 0..20 {
                        questions_sel(r)
                    }
                }
                6 => {
                    several(r);
                    for _ in 0..10 {
                        inherited(r)
                    }
                }
                _ => questions_run(r),
            }
        });
    });
    sample(get_input());
    finish();
}
