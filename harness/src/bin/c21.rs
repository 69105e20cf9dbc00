//! C21: a known way to reach a goal is taken
use nar20_1::Nar::*;
use std::sync::Arc;
use vh::sys::*;
use vh::*;

const BOUND: usize = 200;

fn prop(x: &str) -> R {
    R::SInt(vec![nm(x)])
}

/// ground condition or goal
fn fact(r: &mut Rng, tag: &str) -> R {
    let n = |r: &mut Rng| nm(&format!("{}{}", tag, r.n(3)));
    match r.n(9) {
        0 | 1 => nm(tag),
        6 => inh(R::Prod(vec![n(r), R::SExt(vec![n(r)]), n(r), inh(n(r), n(r))]), R::SInt(vec![nm(&format!("l{}", tag))])),
        7 => R::Neg(Box::new(inh(n(r), prop(&format!("n{}", tag))))),
        8 => R::Conj(vec![inh(n(r), prop(&format!("k{}", tag))), st(Cop::Sim, n(r), n(r)), nm(tag)]),
        2 => inh(n(r), prop(&format!("p{}", tag))),
        3 => inh(R::Prod(vec![n(r), n(r)]), nm(&format!("r{}", tag))),
        4 => inh(R::SExt(vec![n(r)]), prop(&format!("p{}", tag))),
        _ => st(Cop::Sim, n(r), nm(&format!("q{}", tag))),
    }
}

/// condition with variables, operation using them, and the instances
fn step_with_vars(r: &mut Rng, tag: &str, opn: &str) -> (R, R, R, R) {
    let x = R::I("x".into());
    let y = R::I("y".into());
    let vx = nm(&format!("{}x{}", tag, r.n(4)));
    let vy = nm(&format!("{}y{}", tag, r.n(4)));
    let (c, vars) = if r.chance(0.5) { (inh(x.clone(), prop(&format!("p{}", tag))), vec![x.clone()]) } else { (inh(R::Prod(vec![x.clone(), y.clone()]), nm(&format!("r{}", tag))), vec![x.clone(), y.clone()]) };
    let mut args = vec![selfr()];
    for _ in 0..1 + r.n(2) {
        args.push(if r.chance(0.8) { r.pick(&vars).clone() } else { nm("k") });
    }
    let o = op(opn, args);
    let m = vec![(x, vx), (y, vy)];
    (c.clone(), o.clone(), rsubst(&c, &m), rsubst(&o, &m))
}

fn ground_op(r: &mut Rng, opn: &str) -> R {
    let mut args = vec![selfr()];
    for _ in 0..r.n(3) {
        args.push(nm(*r.pick(&["k", "l", "m"])));
    }
    op(opn, args)
}

fn say(nar: &mut Nar, line: &str, hist: &mut Vec<String>) -> bool {
    hist.push(format!("{}@{}", line, nar.procNar.t));
    let l = line.to_string();
    match guarded(|| inputN(nar, &l)) {
        Some(true) => true,
        Some(false) => {
            viol("rejected", format!("{} was rejected; history {:?}", line, hist));
            false
        }
        None => false,
    }
}

/// told as text if it can be written, else as term
fn tell(nar: &mut Nar, t: &R, punct: &str, event: bool, hist: &mut Vec<String>) -> bool {
    if t.writable() {
        return say(nar, &format!("{}{}{}", t.src(), punct, if event { " :|:" } else { "" }), hist);
    }
    hist.push(format!("{}{} event {}@{}", t.src(), punct, event, nar.procNar.t));
    let p = if punct == "!" { vh::rules::P::G } else { vh::rules::P::J };
    guarded(|| inputT2(nar, &t.t(), p.e(), &v(1.0, 0.9).t(), event)).is_some()
}

fn one_step(nar: &mut Nar) -> bool {
    let a = guarded(|| step0(nar)).is_some() && guarded(|| step1(nar)).is_some();
    tick();
    a
}

fn fresh(r: &mut Rng, ops: &[String], log: &OpLog) -> Nar {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.procNar.cfg__resourceExpectedTime = 0.02;
    nar.procNar.cfgEnBabbling = false;
    nar.cfgVerbosityInput = 0;
    let mut o: Vec<String> = ops.to_vec();
    r.shuffle(&mut o);
    for n in &o {
        add_op(&mut nar.procNar, n, true, 3, log);
    }
    nar
}

fn end(nar: &mut Nar) {
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// told knowledge: chain of 1..3 steps which the environment follows
fn told(r: &mut Rng) {
    let n = 1 + r.n(3);
    let names: Vec<String> = (0..n).map(|i| format!("^op{}", i)).collect();
    let log = op_log();
    let mut all_ops = names.clone();
    all_ops.push("^other".into());
    let mut nar = fresh(r, &all_ops, &log);
    if r.chance(0.5) {
        nar.procNar.cfg__perceptionSamplesPerStep = 0;
    }
    let mut hist: Vec<String> = vec![];
    // condition and operation of each step as known and as they will be
    let mut know: Vec<R> = vec![];
    let mut conds: Vec<R> = vec![];
    let mut ops: Vec<R> = vec![];
    let goal_t = fact(r, "goal");
    let vars = r.chance(0.35);
    let mut next = goal_t.clone();
    for i in (0..n).rev() {
        let tag = format!("c{}", i);
        // only the first condition may be abstract, later ones must equal what was predicted
        let (ck, ok, c, o) = if vars && i == 0 { step_with_vars(r, &tag, &names[i]) } else { let c = fact(r, &tag); let o = ground_op(r, &names[i]); (c.clone(), o.clone(), c, o) };
        // the condition may be a sequence itself
        let (ck, c) = if n == 1 && r.chance(0.2) {
            let more: Vec<R> = (0..1 + r.n(3)).map(|k| fact(r, &format!("s{}", k))).collect();
            cnt("conditions which are sequences", 1);
            let mut a = vec![ck];
            a.extend(more.clone());
            let mut b = vec![c];
            b.extend(more);
            (a, R::Seq(b))
        } else {
            (vec![ck], c)
        };
        let mut seq = ck;
        seq.push(ok);
        know.push(st(Cop::Pred, R::Seq(seq), next.clone()));
        next = c.clone();
        conds.insert(0, c);
        ops.insert(0, o);
    }
    if vars && n > 1 && r.chance(0.5) {
        // fine as it is: the first condition is what is observed
    }
    // things which do not matter: their conditions are never observed
    let many = n == 1 && r.chance(0.3);
    for i in 0..if many { 8 + r.n(10) } else { r.n(4) } {
        let c = fact(r, &format!("d{}", i));
        let t = if r.chance(if many { 0.9 } else { 0.5 }) { goal_t.clone() } else { fact(r, &format!("e{}", i)) };
        let arg = ground_op(r, "^other");
        know.push(st(Cop::Pred, R::Seq(vec![c, arg]), t));
    }
    r.shuffle(&mut know);
    for k in &know {
        if !tell(&mut nar, k, ".", false, &mut hist) {
            return;
        }
        if r.chance(0.2) && !one_step(&mut nar) {
            return;
        }
    }
    let goal_first = r.chance(0.5);
    if goal_first && !tell(&mut nar, &goal_t, "!", true, &mut hist) {
        return;
    }
    for _ in 0..r.n(5) {
        if !one_step(&mut nar) {
            return;
        }
    }
    let mut told_goal = goal_first;
    let repeat = r.chance(0.5);
    let noise = r.chance(0.3);
    for i in 0..n {
        let mut done = false;
        let mut steps = 0;
        while !done {
            if steps > 0 && !repeat && steps < 3 {
                // the condition stays the latest event
            } else {
                if noise {
                    say(&mut nar, &format!("noise{}. :|:", r.n(3)), &mut hist);
                }
                if !tell(&mut nar, &conds[i], ".", true, &mut hist) {
                    return;
                }
            }
            if !told_goal || steps % 20 == 19 {
                if !tell(&mut nar, &goal_t, "!", true, &mut hist) {
                    return;
                }
                told_goal = true;
            }
            let info = format!("told {} steps, history {:?}", n, &hist[hist.len().saturating_sub(30)..]);
            set_input(&info);
            set_what(&info);
            let n0 = log.borrow().len();
            if !one_step(&mut nar) {
                return;
            }
            let calls: Vec<(String, Vec<R>, i64)> = log.borrow()[n0..].to_vec();
            steps += 1;
            for c in &calls {
                let o = op(&c.0, c.1.clone());
                hist.push(format!("executed {}", o.src()));
                if o == ops[i] {
                    done = true;
                    cnt("operations executed as known", 1);
                    ev(("told", n, i, &ops[i], steps.min(5), vars));
                } else {
                    viol("wrong", format!("{} | executed {} instead of {}", info, o.src(), ops[i].src()));
                    return;
                }
            }
            if steps >= BOUND && !done {
                let gs = nar20_1::NarGoalSystem::dbgRetGoalsAsText(&nar.procNar.goalSystem.read());
                viol("not-taken", format!("{} | knowledge {:?}: {} was not executed within {} steps; goals {}", info, know.iter().map(|k| k.src()).collect::<Vec<_>>(), ops[i].src(), BOUND, gs));
                return;
            }
        }
        cnt(&format!("steps needed: {}", if steps <= 2 { "up to 2" } else if steps <= 10 { "3 to 10" } else { "more than 10" }), 1);
        // the environment reacts at the next turn of the loop
    }
    cnt(&format!("told chains of {}{}", n, if vars { " with variables" } else { "" }), 1);
    end(&mut nar);
}

/// without any time for goal derivation, a way of one or two steps is found by prediction
fn predicted(r: &mut Rng) {
    let n = 1 + r.n(2);
    let names: Vec<String> = (0..n).map(|i| format!("^op{}", i)).collect();
    let log = op_log();
    let mut all_ops = names.clone();
    all_ops.push("^other".into());
    let mut nar = fresh(r, &all_ops, &log);
    nar.procNar.cfg__resourceGoalDeriverPrio = 0.0;
    nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let mut hist: Vec<String> = vec![];
    let conds: Vec<R> = (0..n).map(|i| fact(r, &format!("c{}", i))).collect();
    let ops: Vec<R> = (0..n).map(|i| ground_op(r, &names[i])).collect();
    let goal_t = fact(r, "goal");
    let mut know: Vec<R> = (0..n).map(|i| st(Cop::Pred, R::Seq(vec![conds[i].clone(), ops[i].clone()]), if i + 1 < n { conds[i + 1].clone() } else { goal_t.clone() })).collect();
    for i in 0..r.n(5) {
        // dead ends, from the same conditions too
        let c = if r.chance(0.4) { r.pick(&conds).clone() } else { fact(r, &format!("d{}", i)) };
        let e = fact(r, &format!("e{}", i));
        let o = ground_op(r, "^other");
        know.push(st(Cop::Pred, R::Seq(vec![c, o]), e));
    }
    r.shuffle(&mut know);
    for k in &know {
        if !tell(&mut nar, k, ".", false, &mut hist) {
            return;
        }
    }
    if !tell(&mut nar, &goal_t, "!", true, &mut hist) {
        return;
    }
    let mut steps = 0;
    loop {
        if (steps == 0 || r.chance(0.5)) && !tell(&mut nar, &conds[0], ".", true, &mut hist) {
            return;
        }
        if steps % 20 == 19 && !tell(&mut nar, &goal_t, "!", true, &mut hist) {
            return;
        }
        let info = format!("prediction only, knowledge {:?}, history {:?}", know.iter().map(|k| k.src()).collect::<Vec<_>>(), &hist[hist.len().saturating_sub(10)..]);
        set_input(&info);
        set_what(&info);
        let n0 = log.borrow().len();
        if !one_step(&mut nar) {
            return;
        }
        steps += 1;
        let calls: Vec<(String, Vec<R>, i64)> = log.borrow()[n0..].to_vec();
        for c in &calls {
            if op(&c.0, c.1.clone()) != ops[0] {
                viol("wrong", format!("{} | executed {} instead of {}", info, op(&c.0, c.1.clone()).src(), ops[0].src()));
                return;
            }
        }
        if !calls.is_empty() {
            cnt(&format!("operations executed by prediction over {} steps", n), 1);
            ev(("predicted", n, &conds[0], &ops[0], steps.min(5)));
            break;
        }
        if steps >= BOUND {
            viol("not-predicted", format!("{} | {} was not executed within {} steps", info, ops[0].src(), BOUND));
            return;
        }
    }
    end(&mut nar);
}

/// knowledge learned from repeated observation
fn learned(r: &mut Rng) {
    let n = 1;
    let names: Vec<String> = (0..n).map(|i| format!("^op{}", i)).collect();
    let log = op_log();
    let mut nar = fresh(r, &names, &log);
    let mut hist: Vec<String> = vec![];
    let goal_t = fact(r, "goal");
    let conds: Vec<R> = (0..n).map(|i| fact(r, &format!("c{}", i))).collect();
    let ops: Vec<R> = (0..n).map(|i| ground_op(r, &names[i])).collect();
    let gap = r.n(3);
    let reps = 12 + r.n(8);
    // inputs before, so that goals and events are numbered differently
    for i in 0..r.n(30) {
        if !say(&mut nar, &format!("<x{} --> y>.", i), &mut hist) {
            return;
        }
    }
    let hyp = |i: usize| st(Cop::Pred, R::Seq(vec![conds[i].clone(), ops[i].clone()]), if i + 1 < n { conds[i + 1].clone() } else { goal_t.clone() });
    for _ in 0..reps {
        for i in 0..n {
            for e in [&conds[i], &ops[i], if i + 1 < n { &conds[i + 1] } else { &goal_t }] {
                if !tell(&mut nar, e, ".", true, &mut hist) || !one_step(&mut nar) {
                    return;
                }
                for _ in 0..r.n(gap + 1) {
                    if !one_step(&mut nar) {
                        return;
                    }
                }
            }
        }
    }
    drain_store(&nar.procNar, nar.procNar.t);
    let stored = |nar: &Nar, h: &R| {
        let mut best = 0.0;
        for c in beliefs_of(&nar.procNar.evidenceMem.read()) {
            for s in c.by_exp.iter().chain(c.by_use.iter()) {
                if s.t == *h {
                    let e = exp(s.v.unwrap());
                    if e > best {
                        best = e;
                    }
                }
            }
        }
        best
    };
    for i in 0..n {
        let e = stored(&nar, &hyp(i));
        if e <= nar.procNar.cfgDescnThreshold {
            viol("not-learned", format!("after {} observations {} has expectation {}; history {:?}", reps, hyp(i).src(), e, &hist[hist.len().saturating_sub(40)..]));
            return;
        }
    }
    // now it is wanted, told once
    nar.procNar.cfg__perceptionSamplesPerStep = if r.chance(0.5) { 0 } else { 4 };
    let mut told_goal = false;
    for i in 0..n {
        let mut steps = 0;
        loop {
            if !tell(&mut nar, &conds[i], ".", true, &mut hist) {
                return;
            }
            if !told_goal && !tell(&mut nar, &goal_t, "!", true, &mut hist) {
                return;
            }
            told_goal = true;
            let info = format!("learned {} steps from {} observations, history {:?}", n, reps, &hist[hist.len().saturating_sub(12)..]);
            set_input(&info);
            set_what(&info);
            let n0 = log.borrow().len();
            if !one_step(&mut nar) {
                return;
            }
            steps += 1;
            let calls: Vec<(String, Vec<R>, i64)> = log.borrow()[n0..].to_vec();
            let mut done = false;
            for c in &calls {
                let o = op(&c.0, c.1.clone());
                hist.push(format!("executed {}", o.src()));
                done |= o == ops[i];
            }
            if done {
                cnt("learned operations executed", 1);
                ev(("learned", n, i, &conds[i], &ops[i], steps.min(5)));
                break;
            }
            if steps >= BOUND {
                // the knowledge may have been refuted meanwhile
                let e = stored(&nar, &hyp(i));
                if e <= nar.procNar.cfgDescnThreshold {
                    cnt("learned knowledge refuted meanwhile", 1);
                    end(&mut nar);
                    return;
                }
                let gs = nar20_1::NarGoalSystem::dbgRetGoalsAsText(&nar.procNar.goalSystem.read());
                let ks: Vec<String> = beliefs_of(&nar.procNar.evidenceMem.read()).iter().flat_map(|c| c.by_exp.iter().map(|s| s.clone()).collect::<Vec<_>>()).filter(|s| s.t == hyp(i)).map(|s| s.txt()).collect();
                viol("not-taken", format!("{} | {} was not executed within {} steps although {} has expectation {} ({:?}); goals {}", info, ops[i].src(), BOUND, hyp(i).src(), e, ks, gs));
                return;
            }
        }
        cnt(&format!("steps needed: {}", if steps <= 2 { "up to 2" } else if steps <= 10 { "3 to 10" } else { "more than 10" }), 1);
    }
    cnt(&format!("learned chains of {}", n), 1);
    end(&mut nar);
}

/// what was learned with one subject is done with another
fn generalised(r: &mut Rng) {
    let log = op_log();
    let names = vec!["^op0".to_string(), "^op1".to_string()];
    let mut nar = fresh(r, &names, &log);
    let mut hist: Vec<String> = vec![];
    let goal_var = r.chance(0.3);
    let subj = |i: usize| nm(&format!("s{}", i));
    let cond = |i: usize| inh(subj(i), prop("seen"));
    let two = r.chance(0.5);
    let on = r.pick(&names).clone();
    let the_op = |i: usize| op(&on, if two { vec![selfr(), nm("k"), subj(i)] } else { vec![selfr(), subj(i)] });
    let goal_t = nm("goal");
    let _ = goal_var;
    let reps = 10 + r.n(8);
    let n_subj = 1 + r.n(3);
    for k in 0..reps {
        let i = k % n_subj;
        for e in [cond(i), the_op(i), goal_t.clone()] {
            if !tell(&mut nar, &e, ".", true, &mut hist) || !one_step(&mut nar) {
                return;
            }
        }
        // long pause between the episodes
        for _ in 0..r.n(3) {
            if !one_step(&mut nar) {
                return;
            }
        }
    }
    drain_store(&nar.procNar, nar.procNar.t);
    nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let i = n_subj + r.n(3);
    let want = the_op(i);
    for steps in 1.. {
        if !tell(&mut nar, &cond(i), ".", true, &mut hist) {
            return;
        }
        if (steps == 1 || steps % 10 == 0) && !tell(&mut nar, &goal_t, "!", true, &mut hist) {
            return;
        }
        let info = format!("generalised from {} observations of {} subjects, history {:?}", reps, n_subj, &hist[hist.len().saturating_sub(12)..]);
        set_input(&info);
        set_what(&info);
        let n0 = log.borrow().len();
        if !one_step(&mut nar) {
            return;
        }
        let calls: Vec<(String, Vec<R>, i64)> = log.borrow()[n0..].to_vec();
        if calls.iter().any(|c| op(&c.0, c.1.clone()) == want) {
            cnt("operations executed with a new subject", 1);
            ev(("general", n_subj, i, two, steps.min(5), reps));
            cnt(&format!("steps needed: {}", if steps <= 2 { "up to 2" } else if steps <= 10 { "3 to 10" } else { "more than 10" }), 1);
            break;
        }
        for c in &calls {
            hist.push(format!("executed {}", op(&c.0, c.1.clone()).src()));
        }
        if steps >= BOUND {
            let gs = nar20_1::NarGoalSystem::dbgRetGoalsAsText(&nar.procNar.goalSystem.read());
            viol("not-generalised", format!("{} | {} was not executed within {} steps; goals {}", info, want.src(), BOUND, gs));
            return;
        }
    }
    end(&mut nar);
}

fn main() {
    let cfg = init("C21", 13.0, 200.0, "one evaluation per operation which had to be executed; distinct by scenario, chain position, condition, operation and steps needed");
    assume("the environment repeats the condition until the operation is executed; a step gets about one millisecond of goal derivation; bound of 200 steps (usual: one or two)");
    let dl = cfg.deadline();
    par(&cfg, 6, 21, |_i, r| {
        until(dl, || match r.n(12) {
            10 | 11 => predicted(r),
            0..=5 => told(r),
            6 | 7 => learned(r),
            _ => generalised(r),
        });
    });
    sample(get_input());
    finish();
}
