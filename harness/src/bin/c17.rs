//! C17: what is learned from events is what happened
use nar20_1::Nar::*;
use nar20_1::NarProc::{ProcNar, SimpleSentence};
use nar20_1::NarSentence::Sentence;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use std::sync::mpsc::{sync_channel, Receiver};
use vh::sys::*;
use vh::*;

/// reference interval table
fn table(base: f64, max: i64) -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    let mut x = 1.0f64;
    let mut i = 0;
    while x.floor() as i64 <= max {
        let k = x.floor() as i64;
        if v.last() != Some(&k) {
            v.push(k);
        }
        i += 1;
        x = base.powi(i);
    }
    v
}
/// class of an elapsed time
fn class(dt: i64, tab: &[i64]) -> i64 {
    let mut c = 0;
    for (i, x) in tab.iter().enumerate() {
        if *x <= dt {
            c = i as i64;
        }
    }
    c
}

/// name of the registered operation the term calls
fn op_of(t: &R, ops: &[(String, i64)]) -> Option<usize> {
    if let R::St(Cop::Inh, a, b) = t {
        if let (R::SExt(x), R::Nm(n)) = (&**a, &**b) {
            if x.len() == 1 {
                if let R::Prod(args) = &x[0] {
                    if !args.is_empty() {
                        return ops.iter().position(|o| o.0 == *n);
                    }
                }
            }
        }
    }
    None
}

/// all hypotheses which the remembered events license: (term, class, sorted times, count)
fn licensed(tr: &[(R, i64)], ops: &[(String, i64)], tab: &[i64], n_ops: usize) -> HashSet<(R, i64, Vec<i64>, i64)> {
    let mut res = HashSet::new();
    let n = tr.len();
    if n < 3 {
        return res;
    }
    for k in [n - 1, n - 2] {
        if op_of(&tr[k].0, ops).is_some() {
            continue;
        }
        for j in 1..k {
            let o = match op_of(&tr[j].0, ops) {
                Some(o) => o,
                None => continue,
            };
            for i in 0..j {
                if op_of(&tr[i].0, ops).is_some() || tr[i].0 == tr[k].0 {
                    continue;
                }
                let t = st(Cop::Pred, R::Seq(vec![tr[i].0.clone(), tr[j].0.clone()]), tr[k].0.clone());
                let mut ids = vec![tr[i].1, tr[j].1, tr[k].1];
                ids.sort();
                res.insert((t, class(tr[k].1 - tr[j].1, tab), ids, ops[o].1));
            }
        }
        if n_ops > 1 {
            // several operations at once: as many as configured, or all there are
            let all: Vec<usize> = (0..n).filter(|j| op_of(&tr[*j].0, ops).is_some()).collect();
            let m = all.len().min(n_ops);
            if m < 2 {
                continue;
            }
            let mut sets: Vec<Vec<usize>> = vec![vec![]];
            for _ in 0..m {
                sets = sets.into_iter().flat_map(|s| all.iter().filter(|j| s.last().map(|l| *l < **j).unwrap_or(true)).map(|j| [s.clone(), vec![*j]].concat()).collect::<Vec<_>>()).collect();
            }
            for s in sets {
                if *s.last().unwrap() >= k {
                    continue;
                }
                for i in 0..s[0] {
                    if op_of(&tr[i].0, ops).is_some() || tr[i].0 == tr[k].0 {
                        continue;
                    }
                    let idx: Vec<usize> = [vec![i], s.clone()].concat();
                    let t = st(Cop::Pred, R::Seq(idx.iter().map(|x| tr[*x].0.clone()).collect()), tr[k].0.clone());
                    let mut ids: Vec<i64> = idx.iter().map(|x| tr[*x].1).collect();
                    ids.push(tr[k].1);
                    ids.sort();
                    res.insert((t, class(tr[k].1 - tr[*s.last().unwrap()].1, tab), ids, ops[op_of(&tr[s[0]].0, ops).unwrap()].1));
                }
            }
        }
    }
    res
}

fn key(s: &S) -> (R, i64, Vec<i64>, i64) {
    let mut ids: Vec<i64> = s.ids.iter().map(|i| ev_time(*i)).collect();
    ids.sort();
    (s.t.clone(), s.dt.unwrap_or(-1), ids, s.cnt.map(|c| c.1).unwrap_or(-1))
}

struct W {
    ops: Vec<(String, i64)>,
    terms: Vec<R>,
}

fn world(r: &mut Rng, nar: &mut ProcNar, log: &OpLog) -> W {
    let n = 1 + r.n(3);
    let mut ops = vec![];
    // names which are part of each other
    let mut pool = ["^op0", "^op1", "^op", "^op10", "^op01", "^o", "op0"];
    if r.chance(0.6) {
        for i in (1..pool.len()).rev() {
            let j = r.n(i + 1);
            pool.swap(i, j);
        }
    }
    for i in 0..n {
        let name = pool[i].to_string();
        let e = 1 + r.n(6) as i64;
        add_op(nar, &name, r.chance(0.8), e, log);
        ops.push((name, e));
    }
    let g = G::new(&["a", "b", "c", "d"]);
    let mut terms: Vec<R> = ["a", "b", "c"].iter().map(|x| nm(x)).collect();
    for _ in 0..3 {
        terms.push(g.term(r, 3));
    }
    // no generalised variants here, see C22
    terms.retain(|t| !matches!(t, R::St(Cop::Inh, _, p) if matches!(**p, R::SInt(_))));
    // calls of operations which are registered and of others, and things which only look like calls
    for o in &ops {
        terms.push(op(&o.0, vec![selfr()]));
        terms.push(op(&o.0, vec![selfr(), nm("x")]));
        if r.chance(0.3) {
            terms.push(inh(R::SExt(vec![selfr()]), nm(&o.0)));
        }
        if r.chance(0.3) {
            terms.push(inh(R::SInt(vec![R::Prod(vec![selfr()])]), nm(&o.0)));
        }
        if r.chance(0.3) {
            terms.push(st(Cop::Sim, R::SExt(vec![R::Prod(vec![selfr()])]), nm(&o.0)));
        }
        if r.chance(0.4) {
            let mut a = vec![selfr()];
            for i in 0..2 + r.n(9) {
                a.push(nm(&format!("y{}", i)));
            }
            terms.push(op(&o.0, a));
        }
    }
    terms.push(op("^other", vec![selfr()]));
    terms.push(op(pool[n], vec![selfr()]));
    terms.push(op(pool[n + 1], vec![selfr()]));
    W { ops, terms }
}

fn pick(r: &mut Rng, w: &W) -> R {
    if r.chance(0.35) {
        let o = r.pick(&w.ops).0.clone();
        op(&o, vec![selfr()])
    } else {
        r.pick(&w.terms).clone()
    }
}

fn intercept(nar: &mut ProcNar) -> Receiver<(Sentence, i64)> {
    stop_store(nar);
    let (tx, rx) = sync_channel(100_000);
    nar.storeWorkersTx.push(tx);
    rx
}

/// events in the memory are fixed: what is sampled must be licensed, and all of it is sampled in the long run
fn frozen(r: &mut Rng) {
    let mut nar = nar20_1::NarProc::narInit();
    let log = op_log();
    let w = world(r, &mut nar, &log);
    let tab = table(nar.cfgIntervalExpBase, nar.cfgIntervalMax);
    if tab != nar.expIntervalsTable {
        viol("intervals", format!("interval table is {:?}, should be {:?}", nar.expIntervalsTable, tab));
        return;
    }
    let rx = intercept(&mut nar);
    let n = if r.chance(0.3) { 9 + r.n(14) } else { r.n(9) };
    let multi = if r.chance(0.25) { 2 + r.n(2) } else { 1 };
    nar.cfg__nOpsMax = multi as i64;
    let mut t = if r.chance(0.3) { r.n(100_000) as i64 } else { r.n(50) as i64 };
    for _ in 0..n {
        if r.chance(0.75) {
            t += match r.n(5) {
                0 => r.n(40) as i64,
                _ => r.n(5) as i64,
            };
        }
        let x = pick(r, &w);
        nar.trace.event_happened(Rc::new(SimpleSentence { name: x.t(), evi: t, occT: t }));
    }
    nar.trace.limit();
    nar.t = t + r.n(3) as i64;
    let tr = trace_of(&nar);
    let txt: Vec<String> = tr.iter().map(|e| format!("{}@{}", e.0.src(), e.1)).collect();
    let info = format!("events {:?} operations {:?} up to {} at once", txt, w.ops, multi);
    set_input(&info);
    let lic = licensed(&tr, &w.ops, &tab, multi);
    let mut seen: HashSet<(R, i64, Vec<i64>, i64)> = HashSet::new();
    let n_ops = tr.iter().filter(|e| op_of(&e.0, &w.ops).is_some()).count();
    // least probability of a combination in one sample
    let pm = if multi > 1 && r.chance(0.7) { 0.5 } else { nar.cfg__multiOpProbability };
    nar.cfg__multiOpProbability = pm;
    let p = 1.0 / ((n_ops.max(1) * tr.len().max(1) * 2) as f64) * if multi > 1 { 1.0 - pm } else { 1.0 };
    // of one with several operations
    let k_ops = n_ops.min(multi);
    let choose = (0..k_ops).fold(1.0, |a, i| a * (n_ops - i) as f64 / (i + 1) as f64);
    let p2 = pm / choose / (tr.len().max(1) * 2) as f64;
    let mut steps = (26.0 / p / 4.0) as usize + 20;
    if k_ops > 1 && 26.0 / p2 / 4.0 < 12_000.0 {
        steps = steps.max((26.0 / p2 / 4.0) as usize + 20);
    }
    for _ in 0..steps {
        if guarded(|| nar.trace.step(&nar)).is_none() {
            return;
        }
        tick();
        let mut k = 0;
        while let Ok((s, at)) = rx.try_recv() {
            k += 1;
            let s = s_of(&s);
            if at != nar.t {
                viol("time", format!("{} | learned at {} is recorded as learned at {}", info, nar.t, at));
                return;
            }
            if s.cnt.map(|c| c.0 != c.1) != Some(false) || s.p != rules::P::J {
                viol("not-positive", format!("{} | learned {}", info, s.txt()));
                return;
            }
            let key = key(&s);
            if !lic.contains(&key) {
                viol("unlicensed", format!("{} | learned {} which the events do not license (allowed are e.g. {:?})", info, s.txt(), lic.iter().filter(|x| x.0 == s.t).take(3).collect::<Vec<_>>()));
                return;
            }
            ev(&key);
            cnt("observations checked", 1);
            if key.2.len() > 3 {
                cnt("observations of several operations", 1);
            }
            seen.insert(key);
        }
        if k > nar.cfg__perceptionSamplesPerStep {
            viol("too-many", format!("{} | {} observations in one step, configured are {}", info, k, nar.cfg__perceptionSamplesPerStep));
            return;
        }
    }
    let miss = (1.0 - p).powf((steps * 4) as f64);
    let miss2 = (1.0 - p2).powf((steps * 4) as f64);
    if miss < 1e-10 {
        if k_ops > 1 && miss2 < 1e-10 {
            cnt("complete sets of several operations", 1);
        }
        for l in &lic {
            // sets of several operations are rarer
            let single = matches!(&l.0, R::St(_, a, _) if matches!(&**a, R::Seq(v) if v.len() == 2));
            if !seen.contains(l) && (single || miss2 < 1e-10) {
                viol("never-learned", format!("{} | {} with class {} is never learned from events which are observed for {} steps", info, l.0.src(), l.1, steps));
                return;
            }
        }
        cnt("complete sets of combinations", 1);
        cnt("combinations", lic.len() as u64);
    }
}

/// storing: ledger of the evidence
fn ledger(r: &mut Rng) {
    let nar = nar20_1::NarProc::narInit();
    #[derive(Clone, Debug)]
    struct E {
        t: R,
        dt: i64,
        pos: i64,
        cnt: i64,
        ids: Vec<i64>,
    }
    let mut model: Vec<E> = vec![];
    let g = G::new(&["a", "b", "c"]);
    let mut hyps: Vec<R> = vec![];
    for _ in 0..1 + r.n(4) {
        let a = if r.chance(0.7) { g.leaf(r) } else { g.term(r, 2) };
        let b = if r.chance(0.7) { g.leaf(r) } else { g.term(r, 2) };
        if matches!(&a, R::St(Cop::Inh, _, p) if matches!(**p, R::SInt(_))) {
            continue;
        }
        hyps.push(st(Cop::Pred, R::Seq(vec![a, op(r.pick(&["^op0", "^op1"]), vec![selfr()])]), b));
    }
    if hyps.is_empty() {
        return;
    }
    let pool = 6 + r.n(40) as i64;
    let wide = r.chance(0.5);
    let n = 3 + r.n(20);
    let mut hist: Vec<String> = vec![];
    for k in 0..n {
        let t = r.pick(&hyps).clone();
        let c = 1 + r.n(5) as i64;
        let dt = (if wide { r.n(14) } else { r.n(5) }) as i64;
        let mut ids: Vec<i64> = vec![];
        while ids.len() < 3 {
            let x = r.range(0, pool);
            if !ids.contains(&x) {
                ids.push(x);
            }
        }
        let s = sentence_cnt(&t, c, c, Some(dt), &ids);
        hist.push(format!("{} +{} class {} ids {:?}", t.src(), c, dt, ids));
        let info = hist.join("; ");
        set_input(&info);
        set_what(&info);
        if nar.storeWorkersTx[0].send((s, k as i64)).is_err() {
            viol("worker-dead", format!("background storage of procedural evidence ended | {}", info));
            return;
        }
        drain_store(&nar, k as i64);
        tick();
        // reference
        let mut revised = 0;
        for e in model.iter_mut() {
            if e.t == t && e.dt >= dt && !e.ids.iter().any(|i| ids.contains(i)) {
                e.pos += c;
                e.cnt += c;
                e.ids.extend(&ids);
                e.ids.sort();
                revised += 1;
            }
        }
        let mut fresh = false;
        if revised == 0 && !model.iter().any(|e| e.t == t && e.ids.iter().any(|i| ids.contains(i))) {
            let mut i2 = ids.clone();
            i2.sort();
            model.push(E { t: t.clone(), dt, pos: c, cnt: c, ids: i2 });
            fresh = true;
        }
        cnt(if revised > 0 { "observations pooled" } else if fresh { "observations stored as new" } else { "observations sharing evidence" }, 1);
        // every copy, everywhere it belongs
        let mem = { beliefs_of(&nar.evidenceMem.read()) };
        let mut want: BTreeMap<R, Vec<usize>> = Default::default();
        for (i, e) in model.iter().enumerate() {
            if let R::St(_, a, b) = &e.t {
                let cond = match &**a {
                    R::Seq(v) => v[0].clone(),
                    x => x.clone(),
                };
                let mut subs = cond.usubs();
                subs.extend(b.usubs());
                subs.sort();
                subs.dedup();
                for s in subs {
                    want.entry(s).or_default().push(i);
                }
            }
        }
        let names: Vec<&R> = mem.iter().filter(|c| !c.by_exp.is_empty() || !c.by_use.is_empty()).map(|c| &c.name).collect();
        let wn: Vec<&R> = want.keys().collect();
        if names != wn {
            viol("concepts", format!("{} | concepts are {:?} should be {:?}", info, names.iter().map(|x| x.src()).collect::<Vec<_>>(), wn.iter().map(|x| x.src()).collect::<Vec<_>>()));
            return;
        }
        for c in &mem {
            for (nme, tab) in [("expectation", &c.by_exp), ("usage", &c.by_use)] {
                let mut have: Vec<String> = tab.iter().map(|s| format!("{} {:?} {:?} {:?}", s.t.src(), s.dt, s.cnt, s.sorted_ids())).collect();
                let mut should: Vec<String> = want.get(&c.name).map(|l| l.iter().map(|i| &model[*i]).map(|e| format!("{} {:?} {:?} {:?}", e.t.src(), Some(e.dt), Some((e.pos, e.cnt)), e.ids)).collect()).unwrap_or_default();
                have.sort();
                should.sort();
                if have != should {
                    viol("ledger", format!("{} | concept {} by {} holds {:?} should hold {:?}", info, c.name.src(), nme, have, should));
                    return;
                }
            }
        }
        ev(("ledger", &t, dt, c, revised, fresh, k));
    }
}

/// live run: everything in memory must be justified by the recorded events
fn live(r: &mut Rng, steps: usize) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.procNar.cfg__resourceGoalDeriverPrio = 0.0;
    nar.procNar.cfgEnBabbling = r.chance(0.5);
    let log = op_log();
    let w = world(r, &mut nar.procNar, &log);
    let tab = table(nar.procNar.cfgIntervalExpBase, nar.procNar.cfgIntervalMax);
    // everything which may be learned so far: term -> observations
    let mut lic: HashSet<(R, i64, Vec<i64>, i64)> = HashSet::new();
    let mut by_term: BTreeMap<R, Vec<(i64, Vec<i64>, i64)>> = Default::default();
    let mut events: Vec<String> = vec![];
    // a pattern which repeats
    let pat = r.chance(0.6);
    let (pa, po, pg) = (nm("pa"), op(&w.ops[0].0.clone(), vec![selfr()]), nm("pg"));
    let mut reps = 0;
    for s in 0..steps {
        let mut now: Vec<R> = vec![];
        if pat {
            match s % 4 {
                0 => now.push(pa.clone()),
                1 => now.push(po.clone()),
                2 => {
                    now.push(pg.clone());
                    reps += 1;
                }
                _ => {
                    if r.chance(0.5) {
                        now.push(pick(r, &w));
                    }
                }
            }
        } else {
            for _ in 0..r.n(3) {
                now.push(pick(r, &w));
            }
        }
        for x in &now {
            event(&mut nar, x);
            if events.len() < 60 {
                events.push(format!("{}@{}", x.src(), nar.procNar.t));
            }
        }
        let tr = trace_of(&nar.procNar);
        for l in licensed(&tr, &w.ops, &tab, 1) {
            if lic.insert(l.clone()) {
                by_term.entry(l.0).or_default().push((l.1, l.2, l.3));
            }
        }
        let info = format!("live, babbling {}, operations {:?}, events {:?}", nar.procNar.cfgEnBabbling, w.ops, events);
        set_input(&info);
        set_what(&info);
        if guarded(|| step0(&mut nar)).is_none() || guarded(|| step1(&mut nar)).is_none() {
            return;
        }
        tick();
    }
    let info = get_input();
    drain_store(&nar.procNar, 1);
    let mem = { beliefs_of(&nar.procNar.evidenceMem.read()) };
    let mut seen: HashSet<String> = HashSet::new();
    for c in &mem {
        for s in c.by_exp.iter().chain(c.by_use.iter()) {
            if !seen.insert(s.txt()) {
                continue;
            }
            let obs = match by_term.get(&s.t) {
                Some(o) => o,
                None => {
                    viol("live-unlicensed", format!("{} | memory holds {} which the events do not license", info, s.txt()));
                    return;
                }
            };
            let (pos, n) = s.cnt.unwrap_or((-1, -2));
            let k = obs[0].2;
            if pos != n || n < k || n % k != 0 {
                viol("live-count", format!("{} | memory holds {} but each observation counts {} and only positive evidence was given", info, s.txt(), k));
                return;
            }
            // the evidence must be pooled from observations with at most its interval
            let dt = s.dt.unwrap_or(-1);
            let m = (n / k) as usize;
            let times: Vec<i64> = s.ids.iter().map(|i| ev_time(*i)).collect();
            if s.ids.len() < 120 {
                if s.ids.len() != 3 * m {
                    viol("live-count", format!("{} | {} counts {} observations but lists the evidence of {}", info, s.txt(), m, s.ids.len() / 3));
                    return;
                }
                let cand: Vec<&(i64, Vec<i64>, i64)> = obs.iter().filter(|o| o.0 <= dt && o.1.iter().all(|t| times.contains(t))).collect();
                if !cand.iter().any(|o| o.0 == dt) {
                    viol("live-interval", format!("{} | {} has an interval class which no observation with its evidence has: {:?}", info, s.txt(), cand));
                    return;
                }
                // exact cover by observations (events of the same time share evidence, so compare as multiset)
                if !cover(&times, &cand, &mut 20000) {
                    viol("live-evidence", format!("{} | the evidence of {} is not made of observations which happened: {:?}", info, s.txt(), cand));
                    return;
                }
            }
            ev((&s.t, dt, m));
            cnt("learned hypotheses justified", 1);
            if m > 1 {
                cnt("hypotheses with pooled evidence", 1);
            }
        }
    }
    if pat && reps >= 25 {
        let h = st(Cop::Pred, R::Seq(vec![pa, po]), pg);
        let best = mem.iter().flat_map(|c| c.by_exp.iter()).filter(|s| s.t == h).map(|s| s.cnt.unwrap().1).max().unwrap_or(0);
        if best < 2 * w.ops[0].1 {
            viol("not-learned", format!("{} | after {} repetitions {} has evidence {}", info, reps, h.src(), best));
            return;
        }
        cnt("repeated patterns learned", 1);
    }
}

fn cover(times: &[i64], cand: &[&(i64, Vec<i64>, i64)], fuel: &mut i64) -> bool {
    if times.is_empty() {
        return true;
    }
    *fuel -= 1;
    if *fuel < 0 {
        return true; // undecided, counts as fine
    }
    let mut v = times.to_vec();
    v.sort();
    let first = v[0];
    for c in cand {
        if !c.1.contains(&first) {
            continue;
        }
        let mut rest = v.clone();
        let mut ok = true;
        for t in &c.1 {
            match rest.iter().position(|x| x == t) {
                Some(i) => {
                    rest.remove(i);
                }
                None => {
                    ok = false;
                    break;
                }
            }
        }
        if ok && cover(&rest, cand, fuel) {
            return true;
        }
    }
    false
}

fn main() {
    let cfg = init("C17", 12.0, 200.0, "random traces of events with registered, unregistered and lookalike operations; every observation handed to storage is compared with the set of all combinations the events license; storage is compared with a ledger; live runs are justified from the recorded events; distinct by hypothesis, interval class, evidence and outcome");
    let dl = cfg.deadline();
    par(&cfg, 6, 17, |i, r| {
        let mut k = i;
        until(dl, || {
            match k % 3 {
                0 => frozen(r),
                1 => {
                    for _ in 0..4 {
                        ledger(r)
                    }
                }
                _ => {
                    let n = 110 + r.n(80);
                    live(r, n)
                }
            }
            k += 1;
        });
    });
    sample(format!("{} observations, {} complete sets", get_cnt("observations checked"), get_cnt("complete sets of combinations")));
    finish();
}
