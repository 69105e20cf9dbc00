//! C19: operations are executed only when warranted
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem as GS;
use nar20_1::NarProc::mem_add_evidence;
use std::sync::Arc;
use vh::sys::*;
use vh::*;

struct Goal {
    s: S,
    evi: Option<S>,
    desired: bool,
    ptr: usize,
}

fn goal_of(e: &Arc<parking_lot::RwLock<GS::Entry>>) -> Goal {
    let g = e.read();
    Goal { s: s_of(&g.sentence), evi: g.evidence.as_ref().map(|x| s_of(&x.read())), desired: g.desirability > 0.0001, ptr: Arc::as_ptr(e) as usize }
}

fn as_op(t: &R) -> Option<(Vec<R>, String)> {
    match t {
        R::St(Cop::Inh, a, b) => match (&**a, &**b) {
            (R::SExt(v), R::Nm(n)) if v.len() == 1 => match &v[0] {
                R::Prod(a) => Some((a.clone(), n.to_string())),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}

/// operation at the end of a sequence, and the condition before it
fn seq_op(t: &R) -> Option<(R, R)> {
    match t {
        R::Seq(v) if v.len() >= 2 && as_op(v.last().unwrap()).is_some() => {
            let c = if v.len() == 2 { v[0].clone() } else { R::Seq(v[..v.len() - 1].to_vec()) };
            Some((c, v.last().unwrap().clone()))
        }
        _ => None,
    }
}

fn e_of(s: &S) -> f64 {
    s.v.map(exp).unwrap_or(0.0)
}

fn run(r: &mut Rng, steps: usize) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.procNar.cfg__resourceGoalDeriverPrio = 0.0;
    let learning = r.chance(0.25);
    if !learning {
        nar.procNar.cfg__perceptionSamplesPerStep = 0;
    }
    let babble = r.chance(0.35);
    nar.procNar.cfgEnBabbling = babble;
    nar.procNar.cfg__enAnticipation = r.chance(0.7);
    let log = op_log();
    let mut regs: Vec<(String, bool)> = vec![];
    for n in ["^go", "^pick", "^say"] {
        if r.chance(0.8) {
            let b = r.chance(0.6);
            add_op(&mut nar.procNar, n, b, 1 + r.n(3) as i64, &log);
            regs.push((n.to_string(), b));
        }
    }
    if r.chance(0.3) {
        // many operations
        for i in 0..3 + r.n(8) {
            let n = format!("^more{}", i);
            let b = r.chance(0.3);
            add_op(&mut nar.procNar, &n, b, 1 + r.n(3) as i64, &log);
            regs.push((n, b));
        }
    }
    let prop = |x: &str| R::SInt(vec![nm(x)]);
    let conds: Vec<R> = vec![
        nm("a"),
        nm("b"),
        inh(nm("s1"), prop("q")),
        inh(nm("s2"), prop("q")),
        inh(R::Prod(vec![nm("s1"), nm("s2")]), nm("on")),
        inh(R::Prod(vec![nm("s2"), nm("s3")]), nm("on")),
        R::Seq(vec![nm("a"), nm("b")]),
        inh(R::Prod(vec![nm("s1"), nm("s2"), nm("s3")]), nm("tri")),
        inh(R::Prod(vec![nm("s4"), nm("s3"), nm("s2"), nm("s1"), nm("s5")]), nm("five")),
    ];
    let mut facts: Vec<R> = vec![nm("g"), nm("h"), inh(nm("s1"), prop("r"))];
    facts.extend(conds[..4].iter().cloned());
    let gen_op = |r: &mut Rng, vars: &[R]| {
        let n = *r.pick(&["^go", "^pick", "^say", "^nope"]);
        let mut args = vec![selfr()];
        for _ in 0..if r.chance(0.1) { 3 + r.n(8) } else if vars.len() > 2 { 1 + r.n(4) } else { r.n(3) } {
            args.push(if !vars.is_empty() && r.chance(0.7) { r.pick(vars).clone() } else { nm(*r.pick(&["k", "s1", "s3"])) });
        }
        match r.n(24) {
            // things which only look like operations
            0 => inh(R::SInt(vec![R::Prod(args)]), nm(n)),
            1 => inh(R::SExt(args), nm(n)),
            2 => st(Cop::Sim, R::SExt(vec![R::Prod(args)]), nm(n)),
            3 => inh(R::SExt(vec![R::Prod(args.clone()), R::Prod(args)]), nm(n)),
            _ => op(n, args),
        }
    };
    let gen_hyp = |r: &mut Rng| {
        let x = R::I("x".into());
        let y = R::I("y".into());
        let vs: Vec<R> = ["x", "y", "z", "u", "w"].iter().map(|n| R::I((*n).into())).collect();
        let (c, vars) = match r.n(7) {
            5 => (inh(R::Prod(vs[..3].to_vec()), nm("tri")), vs[..3].to_vec()),
            6 => (inh(R::Prod(vs.clone()), nm("five")), vs.clone()),
            0 => (inh(x.clone(), prop("q")), vec![x.clone()]),
            1 => (inh(R::Prod(vec![x.clone(), y.clone()]), nm("on")), vec![x.clone(), y.clone()]),
            _ => (r.pick(&conds).clone(), vec![]),
        };
        let mut sq = match c {
            R::Seq(v) => v,
            c => vec![c],
        };
        if r.chance(0.9) {
            sq.push(gen_op(r, &vars));
        } else {
            sq.push(r.pick(&facts).clone());
        }
        st(Cop::Pred, R::Seq(sq), r.pick(&facts).clone())
    };
    let mut eid = 1_000_000;
    let mut hyps: Vec<String> = vec![];
    let mut exps: Vec<f64> = vec![0.58, 0.58, 0.3, 0.8];
    for _ in 0..1 + r.n(8) {
        let h = gen_hyp(r);
        let c = 1 + r.n(20) as i64;
        let p = if r.chance(0.7) { c } else { r.n(c as usize + 1) as i64 };
        let dt = if r.chance(0.3) { None } else { Some(r.n(6) as i64) };
        eid += 10;
        let s = sentence_cnt(&h, p, c, dt, &[eid, eid + 1]);
        exps.push(e_of(&s_of(&s)));
        hyps.push(format!("{} {}/{}", h.src(), p, c));
        mem_add_evidence(Arc::clone(&nar.procNar.evidenceMem), &s, 100, 0, &mut nar.procNar.rng);
    }
    // also exactly the expectation of something known
    let thr = *r.pick(&exps);
    nar.procNar.cfgDescnThreshold = thr;
    let mut hist: Vec<String> = vec![];
    for _ in 0..steps {
        let t = nar.procNar.t;
        for _ in 0..r.n(3) {
            let e = if r.chance(0.8) { r.pick(&conds).clone() } else { r.pick(&facts).clone() };
            hist.push(format!("{}@{}", e.src(), t));
            event(&mut nar, &e);
        }
        if r.chance(0.4) {
            let g = match r.n(12) {
                0 => gen_op(r, &[]),
                1 => R::Seq(vec![r.pick(&conds).clone(), gen_op(r, &[])]),
                _ => r.pick(&facts).clone(),
            };
            let tv = if r.chance(0.7) { v(1.0, 0.99) } else { gv_plain(r) };
            hist.push(format!("{}! {} {}@{}", g.src(), tv.f, tv.c, t));
            goal(&mut nar, &g, tv);
        }
        if r.chance(0.12) {
            // goal which was derived earlier, with its evidence
            let h = gen_hyp(r);
            if let R::St(_, a, _) = &h {
                eid += 10;
                let c = 1 + r.n(20) as i64;
                let evi = sentence_cnt(&h, c - r.n(2) as i64, c, Some(0), &[eid]);
                let t2 = match (r.chance(0.5), &**a) {
                    (true, R::Seq(v)) => v.last().unwrap().clone(),
                    _ => (**a).clone(),
                };
                let tv = if r.chance(0.3) { v(1.0, (thr * 2.0 - 1.0).max(0.0).min(0.99)) } else { gv_plain(r) };
                eid += 10;
                let gs = sentence(&t2, vh::rules::P::G, Some(tv), &[eid]);
                hist.push(format!("derived {}! {} {} from {}@{}", t2.src(), tv.f, tv.c, h.src(), t));
                let m = nar.mem.read();
                GS::addEntry(&nar.procNar.goalSystem, &m, t, Arc::new(gs), Some(Arc::new(parking_lot::RwLock::new(evi))), r.n(4) as i64);
            }
        }
        let from = hist.len().saturating_sub(40);
        let info = format!("knowledge {:?}, threshold {}, operations {:?}, babbling {}, learning {}, history {:?}", hyps, thr, regs, babble, learning, &hist[from..]);
        set_input(&info);
        set_what(&info);
        if guarded(|| step0(&mut nar)).is_none() {
            return;
        }
        if learning {
            drain_store(&nar.procNar, t);
        }
        for _ in 0..r.n(3) {
            let ok = guarded(|| {
                let m = nar.mem.read();
                let em = nar.procNar.evidenceMem.read();
                GS::sampleAndInference(&nar.procNar.goalSystem, &m, t, &em, &mut rand::thread_rng());
            });
            if ok.is_none() {
                return;
            }
        }
        // what would be warranted
        let (held, active) = {
            let g = nar.procNar.goalSystem.read();
            let held: Vec<Goal> = GS::retEntries(&g).iter().map(goal_of).collect();
            let active: Vec<Goal> = g.activeSet.set.iter().map(goal_of).collect();
            (held, active)
        };
        let mut known: Vec<S> = vec![];
        for c in beliefs_of(&nar.procNar.evidenceMem.read()) {
            for s in c.by_exp.into_iter().chain(c.by_use.into_iter()) {
                if matches!(&s.t, R::St(Cop::Pred, a, _) if matches!(&**a, R::Seq(_))) && !known.iter().any(|k| k.t == s.t && k.cnt == s.cnt) {
                    known.push(s);
                }
            }
        }
        let tr = trace_of(&nar.procNar);
        let window: Vec<R> = tr.iter().rev().take(2).map(|e| e.0.clone()).collect();
        // (operation, expectation with which it is pending, why, without doubt)
        let mut w: Vec<(R, f64, &str)> = vec![];
        // every way leads to an execution
        let mut clean = true;
        let mut cut_off = false;
        let mut must = false;
        let is_reg = |t: &R| as_op(t).map(|o| regs.iter().any(|x| x.0 == o.1)).unwrap_or(false);
        for g in &held {
            let (c, _) = match seq_op(&g.s.t) {
                Some(x) => x,
                None => {
                    if let R::Seq(v) = &g.s.t {
                        if v.len() == 1 {
                            clean = false;
                        }
                    }
                    continue;
                }
            };
            for e in &window {
                if let Some(m) = runify(&c, e) {
                    let o = seq_op(&rsubst(&g.s.t, &m)).unwrap().1;
                    let over = e_of(&g.s) > thr;
                    match &g.evi {
                        Some(x) if over && e_of(x) > thr => {
                            if !is_reg(&o) || active.iter().any(|a| a.s.t == o) {
                                clean = false;
                            }
                            w.push((o, e_of(x), "condition"));
                            must = true;
                        }
                        _ if over => clean = false,
                        _ => {}
                    }
                }
            }
        }
        if let Some(e) = window.first() {
            // chains of up to three steps
            let mut level: Vec<(R, Vec<&S>)> = vec![(e.clone(), vec![])];
            for _ in 0..3 {
                let mut next = vec![];
                for (cur, chain) in &level {
                    for k in &known {
                        if let R::St(Cop::Pred, a, b) = &k.t {
                            if let R::Seq(v) = &**a {
                                if v[0] == *cur {
                                    let mut c2 = chain.clone();
                                    c2.push(k);
                                    for g in held.iter().filter(|g| g.s.t == **b) {
                                        let mut tv = g.s.v.unwrap();
                                        for x in c2.iter().rev() {
                                            tv = ded_goal(tv, x.v.unwrap());
                                        }
                                        if let R::St(_, s0, _) = &c2[0].t {
                                            if let Some((_, o)) = seq_op(s0) {
                                                if exp(tv) > thr {
                                                    if e_of(c2[0]) > thr {
                                                        if !is_reg(&o) || active.iter().any(|a| a.s.t == o) {
                                                            clean = false;
                                                        }
                                                        w.push((o, e_of(c2[0]), "chain"));
                                                    } else {
                                                        clean = false;
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    if next.len() < 400 {
                                        next.push(((**b).clone(), c2));
                                    } else {
                                        cut_off = true;
                                    }
                                }
                            }
                        }
                    }
                }
                level = next;
            }
        }
        let mut best_pending = 0.0;
        for a in &active {
            if a.desired && e_of(&a.s) > thr {
                if e_of(&a.s) > best_pending {
                    best_pending = e_of(&a.s);
                }
                if a.evi.is_some() {
                    if !is_reg(&a.s.t) {
                        clean = false;
                    }
                    w.push((a.s.t.clone(), e_of(&a.s), "pending"));
                    must = true;
                } else {
                    clean = false;
                }
            }
        }
        let n0 = log.borrow().len();
        if guarded(|| step1(&mut nar)).is_none() {
            return;
        }
        tick();
        let calls: Vec<(String, Vec<R>, i64)> = log.borrow()[n0..].to_vec();
        if calls.len() > 1 {
            viol("several", format!("{} | at {} executed {:?}", info, t, calls));
            return;
        }
        let mut want: Vec<(R, i64)> = tr.clone();
        let mut reason = "none";
        if let Some(c) = calls.first() {
            let o = op(&c.0, c.1.clone());
            want.push((o.clone(), t));
            hist.push(format!("executed {}@{}", o.src(), t));
            let mine: Vec<&(R, f64, &str)> = w.iter().filter(|x| x.0 == o).collect();
            let babbled = babble && c.1 == vec![selfr()] && regs.iter().any(|x| x.0 == c.0 && x.1);
            if !mine.is_empty() {
                reason = mine[0].2;
                if !babbled && !mine.iter().any(|x| x.1 >= best_pending - 1e-12) {
                    viol("not-best", format!("{} | at {} {} was executed with expectation {:?}, although an operation with expectation {} was pending", info, t, o.src(), mine.iter().map(|x| x.1).collect::<Vec<_>>(), best_pending));
                    return;
                }
                // the executed goal is not pending anymore
                if !babbled && t % 13 != 1 {
                    let after: Vec<Goal> = nar.procNar.goalSystem.read().activeSet.set.iter().map(goal_of).collect();
                    let gone = active.iter().filter(|a| !after.iter().any(|b| b.ptr == a.ptr)).count();
                    let new = after.iter().filter(|a| !active.iter().any(|b| b.ptr == a.ptr)).count();
                    if gone + 1 < new + 1 && gone + new > 1 || gone > 1 || new > 1 {
                        viol("pending-goals", format!("{} | at {} {} was executed, {} pending operations disappeared and {} are new", info, t, o.src(), gone, new));
                        return;
                    }
                    if gone == 1 && new == 0 {
                        let g = active.iter().find(|a| !after.iter().any(|b| b.ptr == a.ptr)).unwrap();
                        if g.s.t != o {
                            viol("pending-goals", format!("{} | at {} {} was executed, but the pending {} was removed", info, t, o.src(), g.s.t.src()));
                            return;
                        }
                    }
                }
            } else if babbled {
                reason = "babbling";
            } else if cut_off {
                cnt("chains cut off, not judged", 1);
            } else {
                let ws: Vec<String> = w.iter().map(|x| format!("{} ({}, {})", x.0.src(), x.1, x.2)).collect();
                let hs: Vec<String> = held.iter().map(|x| format!("{} [evidence {}]", x.s.txt(), x.evi.as_ref().map(|e| e.txt()).unwrap_or_default())).collect();
                viol("unwarranted", format!("{} | at {} {} was executed, warranted were {:?}; latest events {:?}; goals {:?}", info, t, o.src(), ws, window.iter().map(|x| x.src()).collect::<Vec<_>>(), hs));
                return;
            }
            if c.2 != t {
                viol("time", format!("{} | {} was executed at {} instead of {}", info, o.src(), c.2, t));
                return;
            }
        } else if must && clean && !cut_off {
            let ws: Vec<String> = w.iter().map(|x| format!("{} ({}, {})", x.0.src(), x.1, x.2)).collect();
            viol("not-executed", format!("{} | at {} nothing was executed, warranted were {:?}; latest events {:?}", info, t, ws, window.iter().map(|x| x.src()).collect::<Vec<_>>()));
            return;
        }
        if must && clean {
            cnt("steps where an operation had to be executed", 1);
        }
        let cut = want.len().saturating_sub(20);
        let got = trace_of(&nar.procNar);
        if got != want[cut..] && got != want {
            viol("recorded", format!("{} | at {} executed {:?}, the remembered events are {:?}, should be {:?}", info, t, calls, got, &want[cut..]));
            return;
        }
        if nar.procNar.t != t + 1 {
            viol("time", format!("{} | time after step {} is {}", info, t, nar.procNar.t));
            return;
        }
        cnt(&format!("executed: {}", reason), 1);
        if reason == "none" {
            if w.is_empty() && !held.is_empty() {
                cnt("steps with goals where nothing was warranted", 1);
            }
            ev_trivial();
        } else {
            ev((reason, calls[0].1.len(), window.clone(), w.len(), held.len()));
        }
    }
    cnt("runs", 1);
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

fn main() {
    let cfg = init("C19", 10.0, 180.0, "every step of live runs is compared with the operations which the goals, knowledge and latest events warranted immediately before the decision; distinct by reason, arguments, latest events and number of alternatives");
    assume("goal derivation is called between the halves of a step instead of inside it, so that the state before the decision is known; at most one operation per decision is configured (default)");
    let dl = cfg.deadline();
    par(&cfg, 6, 19, |_i, r| {
        until(dl, || {
            let n = 15 + r.n(40);
            run(r, n)
        });
    });
    sample(get_input());
    finish();
}
