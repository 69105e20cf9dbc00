//! memory stays within its bounds
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem;
use vh::rules::*;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C11", 14.0, 240.0, "sustained load on live reasoners with default and small capacities: many judgements about the same terms, conclusions near the complexity limit, thousands of concepts, repeated telling beyond 120 inputs, event streams with operations, goals and failing anticipations; the bounds are watched after every step or cleanup; distinct by bound, size and load");
    par(&cfg, 8, 11, |i, r| {
        until(cfg.deadline(), || match i {
            0 | 1 => beliefs_load(r),
            2 => tasks_load(r, false),
            3 => tasks_load(r, true),
            4 => concepts_load(r, cfg.q(1, 3)),
            5 => evidence_load(r),
            _ => procedural(r),
        })
    });
    finish();
}

fn tables(nar: &Nar, cap: usize, maxc: u64, what: &str) -> bool {
    let mut worst = 0;
    for c in beliefs(&nar.mem) {
        let n = c.by_exp.len().max(c.by_use.len());
        worst = worst.max(n);
        if n > cap {
            viol("beliefs", format!("concept {} holds {} and {} beliefs, capacity {} | {}", c.name.src(), c.by_exp.len(), c.by_use.len(), cap, what));
            return false;
        }
        for s in c.by_exp.iter().chain(c.by_use.iter()) {
            if s.t.complexity() > maxc {
                viol("complexity", format!("{} has complexity {} above {} | {}", s.t.src(), s.t.complexity(), maxc, what));
                return false;
            }
            if s.ids.len() > 120 {
                viol("stamp", format!("{} lists {} inputs | {}", s.t.src(), s.ids.len(), what));
                return false;
            }
        }
    }
    for s in content(&nar.mem) {
        if s.t.complexity() > maxc || s.ids.len() > 120 {
            viol("pending", format!("{} complexity {} (limit {}), {} inputs | {}", s.t.src(), s.t.complexity(), maxc, s.ids.len(), what));
            return false;
        }
    }
    if worst == cap {
        cnt("concepts filled to capacity", 1);
    }
    ev(("tables", cap, worst, what));
    true
}

fn beliefs_load(r: &mut Rng) {
    let cap = *r.pick(&[1usize, 2, 5, 20]);
    let maxc = *r.pick(&[3i64, 7, 12, 64]);
    let mut nar = nar_with(maxc, cap);
    let g = G::new(&["a", "b", "c", "d"]);
    let n = 20 + r.n(60);
    let what = format!("capacity {} complexity {} load {}", cap, maxc, r.u64());
    set_input(&what);
    for k in 0..n {
        let t = match r.n(5) {
            0 => inh(nm("a"), nm(&format!("p{}", r.n(40)))),
            1 => inh(nm(&format!("s{}", r.n(40))), nm("a")),
            2 => {
                let d = 2 + r.n(4);
                inh(nm("a"), g.term(r, d))
            }
            3 => st(Cop::Impl, inh(R::I("x".into()), nm("a")), inh(R::I("x".into()), nm(&format!("q{}", r.n(20))))),
            _ => g.stmt(r, 4),
        };
        if matches!(t, R::St(Cop::Pred, _, _)) {
            continue;
        }
        let tv = gv(r);
        if guarded(|| inputT(&mut nar, &t.t(), P::J.e(), &tv.t())).is_none() {
            return;
        }
        if r.chance(0.7) {
            if guarded(|| cycle(&mut nar)).is_none() {
                return;
            }
        }
        if k % 10 == 9 && !tables(&nar, cap, maxc as u64, &what) {
            return;
        }
        tick();
    }
    drain(&nar.mem);
    tables(&nar, cap, maxc as u64, &what);
}

fn tasks_load(r: &mut Rng, live: bool) {
    let mut nar = createNar();
    late(&mut nar, r);
    let _rx = if live { None } else { Some(detach(&nar.mem)) };
    let per = *r.pick(&[0.2, 1.0, 4.0]);
    let rounds = if live { 2 } else { 4 };
    let nq = if r.chance(0.5) { 1 + r.n(3) } else { 0 };
    let what = format!("live {} {} per cycle {} questions {}", live, per, r.u64(), nq);
    set_input(&what);
    for k in 0..nq {
        let q = if r.chance(0.5) { inh(R::Q("q".into()), nm(&format!("w{}", r.n(12)))) } else { inh(nm("never"), nm(&format!("w{}", k))) };
        inputT(&mut nar, &q.t(), P::Q.e(), &v(1.0, 0.9).t());
    }
    let mut acc = 0.0;
    let mut k = 0;
    for _ in 0..111 * rounds {
        acc += per;
        while acc >= 1.0 {
            acc -= 1.0;
            k += 1;
            let t = if live { inh(nm(&format!("u{}", r.n(12))), nm(&format!("w{}", r.n(12)))) } else { inh(nm(&format!("u{}", k)), nm(&format!("w{}", r.n(200)))) };
            let tv = gv_plain(r);
            if guarded(|| inputT(&mut nar, &t.t(), P::J.e(), &tv.t())).is_none() {
                return;
            }
        }
        let due = (cycles_done(&nar.mem) + 1) % 111 == 0;
        if due && live {
            drain(&nar.mem);
        }
        let next = nar.mem.read().shared.read().taskIdCounter.load(std::sync::atomic::Ordering::SeqCst);
        let before = tasks(&nar.mem).len();
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        if due {
            // conclusions of this very cycle may come in after the cleanup
            let shared = std::sync::Arc::clone(&nar.mem.read().shared);
            let g = shared.read();
            let n = g.judgementTasks.iter().filter(|t| t.read().id < next).count();
            let mut seen = std::collections::BTreeSet::new();
            for l in g.judgementTasksByTerm.read().values() {
                for t in l {
                    let id = t.read().id;
                    if id < next {
                        seen.insert(id);
                    }
                }
            }
            if n > 30 || seen.len() > 30 {
                viol("tasks", format!("{} pending judgements and {} reachable by term after the cleanup (before: {}) | {}", n, seen.len(), before, what));
                return;
            }
            cnt("cleanups of pending judgements", 1);
            if before > 31 {
                cnt("cleanups which had to drop", 1);
            }
            ev(("tasks", before, n));
        }
    }
}

fn concepts_load(r: &mut Rng, rounds: usize) {
    let mut nar = createNar();
    late(&mut nar, r);
    let _rx = detach(&nar.mem);
    let mut k = 0;
    let nq = if r.chance(0.5) { 1 + r.n(3) } else { 0 };
    for k in 0..nq {
        let q = inh(if r.chance(0.5) { R::Q("q".into()) } else { nm("never") }, nm(&format!("y{}", k + 1)));
        inputT(&mut nar, &q.t(), P::Q.e(), &v(1.0, 0.9).t());
    }
    for round in 0..rounds {
        let n = 1050 + r.n(600);
        for _ in 0..n {
            k += 1;
            let t = inh(nm(&format!("x{}", k)), nm(&format!("y{}", k)));
            let tv = gv_plain(r);
            inputT(&mut nar, &t.t(), P::J.e(), &tv.t());
            tick();
        }
        loop {
            let due = (cycles_done(&nar.mem) + 1) % 173 == 0;
            let before = nar.mem.read().shared.read().mem.read().concepts.len();
            if guarded(|| cycle(&mut nar)).is_none() {
                return;
            }
            tick();
            if due {
                let after = nar.mem.read().shared.read().mem.read().concepts.len();
                if after > 3000 {
                    viol("concepts", format!("{} concepts after the cleanup, before {}", after, before));
                    return;
                }
                if before > 3000 && after < 3000 {
                    viol("concepts", format!("only {} concepts after the cleanup, before {}", after, before));
                    return;
                }
                ev(("concepts", before, after, round));
                cnt("cleanups of concepts", 1);
                break;
            }
        }
    }
}

/// the same statement told more often than its list of inputs may be long
fn evidence_load(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let n = 100 + r.n(120);
    let what = format!("telling {} times", n);
    set_input(&what);
    for k in 0..n {
        let t = if r.chance(0.9) { inh(nm("a"), nm("b")) } else { inh(nm("b"), nm("c")) };
        inputT(&mut nar, &t.t(), P::J.e(), &v(r.f(), 0.5).t());
        tick();
        if k % 16 == 0 {
            guarded(|| cycle(&mut nar));
        }
        if k % 20 == 19 || k + 1 == n {
            if !tables(&nar, 20, 64, &what) {
                return;
            }
        }
    }
    drain(&nar.mem);
    tables(&nar, 20, 64, &what);
    // procedural evidence
    let o = op("^o", vec![selfr()]);
    let t = st(Cop::Pred, R::Seq(vec![nm("a"), o]), nm("b"));
    for k in 0..60 {
        let ids: Vec<i64> = (0..3).map(|j| 3 * k + j).collect();
        if nar.procNar.storeWorkersTx[0].send((sentence_cnt(&t, 1, 1, Some(0), &ids), k)).is_err() {
            viol("worker-dead", what.clone());
            return;
        }
    }
    for k in 0..130 {
        let t = st(Cop::Pred, R::Seq(vec![nm(&format!("c{}", k)), op("^o", vec![selfr()])]), nm("b"));
        let c = r.range(1, 9);
        if nar.procNar.storeWorkersTx[0].send((sentence_cnt(&t, r.range(0, c), c, Some(0), &[1000 + k]), k)).is_err() {
            viol("worker-dead", what.clone());
            return;
        }
    }
    drain_store(&nar.procNar, 1);
    for c in beliefs_of(&nar.procNar.evidenceMem.read()) {
        if c.by_exp.len() > 100 || c.by_use.len() > 100 {
            viol("evidence-table", format!("{} and {} beliefs about {} | {}", c.by_exp.len(), c.by_use.len(), c.name.src(), what));
            return;
        }
    }
    for c in beliefs_of(&nar.procNar.evidenceMem.read()) {
        for s in c.by_exp.iter().chain(c.by_use.iter()) {
            if s.ids.len() > 120 {
                viol("stamp", format!("{} lists {} inputs", s.txt(), s.ids.len()));
            }
            ev(("procedural stamp", s.ids.len(), s.cnt));
        }
    }
}

fn procedural(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let log = op_log();
    for n in ["^l", "^r", "^u"] {
        add_op(&mut nar.procNar, n, true, 1 + r.n(4) as i64, &log);
    }
    // goal derivation within the step would add goals after the cleanup
    let derive = r.chance(0.5);
    nar.procNar.cfg__resourceExpectedTime = 0.0015;
    if !derive {
        nar.procNar.cfg__resourceGoalDeriverPrio = 0.0;
    }
    let gmax = *r.pick(&[3i64, 20]);
    nar.procNar.goalSystem = std::sync::Arc::new(parking_lot::RwLock::new(NarGoalSystem::makeGoalSystem(gmax, 8)));
    let cmax = *r.pick(&[4i64, 15, 1000]);
    nar.procNar.cfg__nConcepts = cmax;
    let names: Vec<String> = (0..4 + r.n(12)).map(|i| format!("e{}", i)).collect();
    let table_max = *nar.procNar.expIntervalsTable.iter().max().unwrap();
    let opn = ["^l", "^r", "^u"];
    for _ in 0..r.n(12) {
        let t = st(Cop::Pred, R::Seq(vec![nm(r.pick(&names)), op(r.pick(&opn), vec![selfr()])]), nm(r.pick(&names)));
        inputT(&mut nar, &t.t(), P::J.e(), &v(1.0, 0.9).t());
    }
    let what = format!("derive {} goals {} concepts {} events {}", derive, gmax, cmax, names.len());
    set_input(&what);
    let steps = 110 + r.n(120);
    let goals_per = *r.pick(&[0.3, 1.0, 3.0]);
    for k in 0..steps {
        let mut m = r.n(3);
        if r.chance(0.05) {
            m += 30;
        }
        while m > 0 {
            event(&mut nar, &nm(r.pick(&names)));
            m -= 1;
        }
        let mut ng = goals_per;
        while ng >= 1.0 || r.chance(ng) {
            ng -= 1.0;
            let t = match r.n(4) {
                0 => op(r.pick(&opn), vec![selfr(), nm(&format!("k{}", r.n(50)))]),
                1 => R::Seq(vec![nm(r.pick(&names)), op(r.pick(&opn), vec![selfr()])]),
                2 => nm(&format!("g{}", r.n(100))),
                _ => nm(r.pick(&names)),
            };
            goal(&mut nar, &t, gv_plain(r));
            if ng <= 0.0 {
                break;
            }
        }
        if guarded(|| step0(&mut nar)).is_none() {
            return;
        }
        let t = nar.procNar.t;
        if let Some(a) = nar.procNar.anticipatedEvents.iter().find(|a| a.deadline <= t || a.deadline > t + table_max) {
            viol("anticipation", format!("anticipation with deadline {} at time {} | {}", a.deadline, t, what));
            return;
        }
        if nar.procNar.anticipatedEvents.len() as i64 > table_max + 1 {
            viol("anticipation", format!("{} anticipations in flight | {}", nar.procNar.anticipatedEvents.len(), what));
            return;
        }
        cnt("anticipations seen", nar.procNar.anticipatedEvents.len() as u64);
        let evi_due = t % 101 == 1;
        if evi_due {
            drain_store(&nar.procNar, k as i64);
        }
        let nc = nar.procNar.evidenceMem.read().concepts.len();
        let ng = NarGoalSystem::retEntries(&nar.procNar.goalSystem.read()).len();
        if guarded(|| step1(&mut nar)).is_none() {
            return;
        }
        tick();
        let tr = trace_of(&nar.procNar).len();
        if tr > 20 {
            viol("trace", format!("{} events remembered after a step | {}", tr, what));
            return;
        }
        if evi_due {
            let n = nar.procNar.evidenceMem.read().concepts.len();
            if n as i64 > cmax {
                viol("evidence-concepts", format!("{} concepts of temporal knowledge after the cleanup, capacity {} | {}", n, cmax, what));
                return;
            }
            ev(("evidence concepts", nc, n, cmax));
            cnt("cleanups of temporal knowledge", 1);
        }
        if t % 13 == 1 {
            if derive {
                let mem = std::sync::Arc::clone(&nar.mem);
                let g = mem.read();
                if guarded(|| NarGoalSystem::limitMemory(&nar.procNar.goalSystem, &g, t)).is_none() {
                    return;
                }
            }
            let n = NarGoalSystem::retEntries(&nar.procNar.goalSystem.read()).len();
            if n as i64 > gmax {
                viol("goals", format!("{} goals after the cleanup (before {}), capacity {} | {}", n, ng, gmax, what));
                return;
            }
            ev(("goals", ng, n, gmax));
            cnt("cleanups of goals", 1);
        }
        for c in beliefs_of(&nar.procNar.evidenceMem.read()) {
            if c.by_exp.len() > 100 || c.by_use.len() > 100 {
                viol("evidence-table", format!("{} {} beliefs in {} | {}", c.by_exp.len(), c.by_use.len(), c.name.src(), what));
                return;
            }
        }
        ev(("trace", tr, k, &what));
    }
}
