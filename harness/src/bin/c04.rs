//! every truth value in the running system is legal
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem;
use nar20_1::NarMem;
use nar20_1::NarSentence::{retTv, Evidence, Sentence};
use nar20_1::NarWorkingCycle::DeclarativeShared;
use nar20_1::Tv;
use parking_lot::RwLock;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use vh::rules::*;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C04", 13.0, 200.0, "live sessions (declarative: hostile truth values told many times, questions, cycles with background derivation; procedural: events, goals with any desire, operations of any evidence amount, failing anticipations); a monitor thread scans all beliefs, pending work, goals, temporal evidence and answers during the run; also random compositions of the truth functions; distinct by truth value seen");
    par(&cfg, 8, 4, |i, r| {
        until(cfg.deadline(), || match i {
            0 | 1 | 2 => declarative(r),
            3 | 4 => hammer(r),
            5 | 6 => procedural(r),
            _ => functions(r),
        })
    });
    finish();
}

fn check(s: &Sentence, wher: &str, info: &str) {
    match &s.evi {
        Some(Evidence::CNT { pos, cnt: c }) => {
            if *c < 1 || *pos < 0 || *pos > *c {
                viol("count", format!("{} holds {}: {} of {} | {}", wher, R::of(&s.term).src(), pos, c, info));
            }
            cnt("counted evidence seen", 1);
        }
        _ => {}
    }
    if let Some(t) = retTv(s) {
        let x = V::of(&t);
        if !x.legal() {
            viol("illegal", format!("{} holds {} with {:?} {:?} | {}", wher, R::of(&s.term).src(), t.f, t.c, info));
        }
        ev((x.f.to_bits(), x.c.to_bits()));
        cnt(wher, 1);
    } else if P::of(s.punct) != P::Q {
        viol("no-truth", format!("{} holds {} without truth value | {}", wher, R::of(&s.term).src(), info));
    }
}

fn scan_mem(m: &NarMem::Mem, wher: &str, info: &str) {
    for c in m.concepts.values() {
        for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
            check(&b.read(), wher, info);
        }
    }
}

fn scan(shared: &Arc<RwLock<DeclarativeShared>>, info: &str) {
    let (mem, tasks) = {
        let s = shared.read();
        (Arc::clone(&s.mem), s.judgementTasks.iter().map(|t| Arc::clone(t)).collect::<Vec<_>>())
    };
    scan_mem(&mem.read(), "belief memory", info);
    for t in tasks {
        check(&t.read().sentence, "pending work", info);
    }
    let s = shared.read();
    for q in s.questionTasks.read().iter() {
        if q.bestAnswerExp.is_nan() || q.bestAnswerExp < 0.0 || q.bestAnswerExp > 1.0 {
            viol("answer", format!("best expectation {} | {}", q.bestAnswerExp, info));
        }
    }
}

fn scan_goals(g: &Arc<RwLock<NarGoalSystem::GoalSystem>>, info: &str) {
    let es = NarGoalSystem::retEntries(&g.read());
    for e in es {
        let e = e.read();
        check(&e.sentence, "goals", info);
        if !(e.desirability >= -1.0 && e.desirability <= 1.0) {
            viol("desire", format!("desirability {} of {} | {}", e.desirability, R::of(&e.sentence.term).src(), info));
        }
        if let Some(b) = &e.evidence {
            check(&b.read(), "evidence of goals", info);
        }
    }
}

fn hostile(r: &mut Rng) -> (String, String) {
    let f = match r.n(8) {
        0 => "0.0".to_string(),
        1 | 2 => "1.0".to_string(),
        3 => "0.9999999999999999".to_string(),
        4 => "0.0000000000000001".to_string(),
        5 => "1".to_string(),
        _ => format!("{}", r.f()),
    };
    let c = match r.n(9) {
        0 => "0.0".to_string(),
        1 => "0.9999999999999999".to_string(),
        2 => "0.99999999999".to_string(),
        3 => "0.9999999".to_string(),
        4 => "0.999".to_string(),
        5 => "0.0000000000000001".to_string(),
        6 => "0.9".to_string(),
        _ => format!("{}", r.f()),
    };
    (f, c)
}

fn declarative(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let g = G::new(&["a", "b", "c", "d"]);
    let mut lines: Vec<String> = vec![];
    let n = 3 + r.n(15);
    for _ in 0..n {
        let x = || R::I("x".to_string());
        let t = match r.n(10) {
            0 => neg(inh(g.leaf(r), g.leaf(r))),
            1 => st(Cop::Sim, g.leaf(r), g.leaf(r)),
            2 => st(Cop::Impl, inh(x(), g.leaf(r)), inh(x(), g.leaf(r))),
            3 => inh(R::Prod(vec![g.leaf(r), g.leaf(r)]), g.leaf(r)),
            4 => inh(g.leaf(r), R::SInt(vec![g.leaf(r)])),
            _ => inh(g.leaf(r), g.leaf(r)),
        };
        if r.chance(0.15) {
            lines.push(format!("{}?", t.src()));
        } else {
            let (f, c) = hostile(r);
            lines.push(format!("{}. {{{} {}}}", t.src(), f, c));
        }
    }
    let info = lines.join(" ");
    set_input(&info);
    set_what(&info);
    let log = listen(&nar);
    let shared = Arc::clone(&nar.mem.read().shared);
    let stop = Arc::new(AtomicBool::new(false));
    let (st2, sh2, inf2) = (Arc::clone(&stop), Arc::clone(&shared), info.clone());
    let h = std::thread::spawn(move || {
        while !st2.load(Ordering::SeqCst) && !stop_requested() {
            scan(&sh2, &inf2);
            cnt("scans during runs", 1);
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
    });
    let m = 20 + r.n(80);
    for k in 0..m {
        if k < lines.len() || r.chance(0.2) {
            let l = if k < lines.len() { &lines[k] } else { r.pick(&lines) };
            if guarded(|| inputN(&mut nar, l)).is_none() {
                break;
            }
        }
        if guarded(|| cycle(&mut nar)).is_none() {
            break;
        }
        tick();
    }
    drain(&nar.mem);
    scan(&shared, &info);
    stop.store(true, Ordering::SeqCst);
    let _ = h.join();
    for (_, a) in log.lock().unwrap().iter() {
        match a.v {
            Some(x) if x.legal() => {
                ev((x.f.to_bits(), x.c.to_bits()));
                cnt("answers seen", 1)
            }
            _ => viol("answer", format!("answer {} | {}", a.txt(), info)),
        }
    }
    sample(info);
}

/// the same few statements again and again with extreme confidence, so that evidence piles up
fn hammer(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let shared = Arc::clone(&nar.mem.read().shared);
    let ts = ["<a --> b>", "<b --> c>", "<a <-> b>"];
    let mut info = String::new();
    let (f0, c0) = hostile(r);
    let fixed = r.chance(0.5);
    let n = 20 + r.n(100);
    for k in 0..n {
        let (f, c) = if fixed { (f0.clone(), c0.clone()) } else { hostile(r) };
        let l = format!("{}. {{{} {}}}", r.pick(&ts), f, c);
        info.push_str(&l);
        info.push(' ');
        set_input(&info);
        if guarded(|| inputN(&mut nar, &l)).is_none() {
            return;
        }
        if r.chance(0.1) {
            if guarded(|| cycle(&mut nar)).is_none() {
                return;
            }
            drain(&nar.mem);
        }
        if k % 5 == 0 {
            scan(&shared, &info);
        }
    }
    scan(&shared, &info);
}

fn procedural(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.procNar.cfg__resourceExpectedTime = 0.002;
    let log = op_log();
    let evi = *r.pick(&[1i64, 3, 10, 1000, 1_000_000_000]);
    for n in ["^l", "^r"] {
        add_op(&mut nar.procNar, n, true, evi, &log);
    }
    nar.procNar.cfg__enAnticipation = r.chance(0.9);
    let names = ["a", "b", "c", "g"];
    let mut info = format!("operations with {}; ", evi);
    if r.chance(0.7) {
        for _ in 0..1 + r.n(3) {
            let l = format!("<({},<({{SELF}}*x)-->^l>) =/> {}>.", r.pick(&names), r.pick(&names)).replace("<({SELF}*x)-->^l>", "<{({SELF}*x)} --> ^l>");
            info.push_str(&l);
            if guarded(|| inputN(&mut nar, &l)).is_none() {
                return;
            }
        }
    }
    let em = Arc::clone(&nar.procNar.evidenceMem);
    let stop = Arc::new(AtomicBool::new(false));
    let (st2, inf2) = (Arc::clone(&stop), info.clone());
    let h = std::thread::spawn(move || {
        while !st2.load(Ordering::SeqCst) && !stop_requested() {
            scan_mem(&em.read(), "temporal evidence", &inf2);
            cnt("scans during runs", 1);
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
    });
    let m = 30 + r.n(60);
    for _ in 0..m {
        let mut k = r.n(3);
        while k > 0 {
            event(&mut nar, &nm(r.pick(&names)));
            k -= 1;
        }
        if r.chance(0.3) {
            let (f, c) = hostile(r);
            let l = format!("{}! :|: {{{} {}}}", r.pick(&names), f, c);
            let l2 = format!("{}! {{{} {}}} :|:", r.pick(&names), f, c);
            info.push_str(&l2);
            set_input(&info);
            let _ = l;
            if guarded(|| inputN(&mut nar, &l2)).is_none() {
                break;
            }
        }
        if guarded(|| {
            step0(&mut nar);
            step1(&mut nar)
        })
        .is_none()
        {
            break;
        }
        // the goals belong to the thread of the procedural reasoner
        scan_goals(&nar.procNar.goalSystem, &info);
        tick();
    }
    stop.store(true, Ordering::SeqCst);
    let _ = h.join();
    scan_goals(&nar.procNar.goalSystem, &info);
    scan_mem(&nar.procNar.evidenceMem.read(), "temporal evidence", &info);
    cnt("operations executed", log.borrow().len() as u64);
}

/// random compositions of truth functions
fn functions(r: &mut Rng) {
    let mut pool: Vec<V> = (0..4)
        .map(|_| {
            let (f, c) = hostile(r);
            v(f.parse().unwrap(), c.parse().unwrap())
        })
        .filter(|x| x.legal())
        .collect();
    if pool.is_empty() {
        return;
    }
    let mut hist = format!("{:?}", pool);
    for _ in 0..60 {
        let a = r.pick(&pool).t();
        let b = r.pick(&pool).t();
        let k = r.n(8);
        set_input(&hist);
        let c = match guarded(|| match k {
            0 => Tv::ded(&a, &b),
            1 => Tv::abd(&a, &b),
            2 => Tv::ind(&a, &b),
            3 => Tv::comp(&a, &b),
            4 => Tv::int(&a, &b),
            5 => Tv::neg(&a),
            6 => Tv::dedGoal(&a, &b),
            _ => Tv::rev(&a, &b),
        }) {
            Some(x) => x,
            None => return,
        };
        hist.push_str(&format!(" {}({},{} {},{})", k, a.f, a.c, b.f, b.c));
        let x = V::of(&c);
        if !x.legal() {
            viol("function", format!("function {} of {:?} {:?} and {:?} {:?} gives {:?} {:?}", k, a.f, a.c, b.f, b.c, c.f, c.c));
            return;
        }
        let e = Tv::calcExp(&c);
        if !(e >= 0.0 && e <= 1.0) {
            viol("expectation", format!("expectation {} of {} {}", e, c.f, c.c));
            return;
        }
        ev((x.f.to_bits(), x.c.to_bits()));
        pool.push(x);
        if pool.len() > 12 {
            let i = r.n(pool.len());
            pool.swap_remove(i);
        }
    }
}
