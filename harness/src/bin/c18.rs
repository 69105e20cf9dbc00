//! C18: anticipations are confirmed or count once against the hypothesis
use nar20_1::Nar::*;
use nar20_1::NarProc::mem_add_evidence;
use nar20_1::NarSentence::{Evidence, Sentence};
use parking_lot::RwLock;
use std::collections::HashMap;
use std::sync::Arc;
use vh::sys::*;
use vh::*;

type A = Arc<RwLock<Sentence>>;

fn counts(a: &A) -> (i64, i64) {
    match &a.read().evi {
        Some(Evidence::CNT { pos, cnt }) => (*pos, *cnt),
        _ => (-1, -1),
    }
}
fn ptr(a: &A) -> usize {
    Arc::as_ptr(a) as usize
}

/// all stored hypotheses
fn all(nar: &Nar) -> Vec<A> {
    let g = nar.procNar.evidenceMem.read();
    let mut v = vec![];
    for c in g.concepts.values() {
        for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
            v.push(Arc::clone(b));
        }
    }
    v
}

fn pred_of(t: &R) -> R {
    match t {
        R::St(_, _, b) => (**b).clone(),
        x => x.clone(),
    }
}
fn op_of_hyp(t: &R) -> Option<R> {
    match t {
        R::St(_, a, _) => match &**a {
            R::Seq(v) => v.last().cloned(),
            _ => None,
        },
        _ => None,
    }
}

fn run(r: &mut Rng, steps: usize) {
    let mut nar = createNar();
    late(&mut nar, r);
    let learning = r.chance(0.4);
    nar.procNar.cfg__resourceExpectedTime = 0.012;
    if !learning {
        nar.procNar.cfg__perceptionSamplesPerStep = 0;
    }
    nar.procNar.cfgEnBabbling = !learning && r.chance(0.4);
    let babble = nar.procNar.cfgEnBabbling;
    nar.procNar.cfg__enAnticipation = r.chance(0.9);
    let en = nar.procNar.cfg__enAnticipation;
    let log = op_log();
    add_op(&mut nar.procNar, "^op0", true, 3, &log);
    add_op(&mut nar.procNar, "^op1", true, 2, &log);
    let prop = |x: &str| R::SInt(vec![nm(x)]);
    let conds: Vec<R> = vec![nm("a"), nm("b"), inh(nm("s1"), nm("p1")), inh(nm("s1"), prop("q")), inh(nm("s2"), prop("q"))];
    let facts: Vec<R> = vec![nm("g"), nm("h"), inh(nm("s1"), prop("r")), inh(nm("s2"), prop("r"))];
    let mut goals = facts.clone();
    goals.push(inh(R::I("y".into()), prop("r")));
    let mut hyps: Vec<String> = vec![];
    let mut eid = 1_000_000;
    let n_h = 1 + r.n(5);
    for _ in 0..n_h {
        // calls made because of knowledge have two arguments, babbling has one
        let o = op(*r.pick(&["^op0", "^op1", "^op0", "^opUnknown"]), vec![selfr(), nm("k")]);
        let mut h = st(Cop::Pred, R::Seq(vec![r.pick(&conds).clone(), o]), r.pick(&goals).clone());
        if r.chance(0.2) {
            h = st(Cop::Pred, R::Seq(vec![inh(R::I("x".into()), prop("q")), op("^op1", vec![selfr(), nm("k")])]), r.pick(&goals).clone());
        }
        let dt = if r.chance(0.3) { None } else { Some(if r.chance(0.2) { r.n(nar.procNar.expIntervalsTable.len()) } else { r.n(6) } as i64) };
        let c = if r.chance(0.2) { 6 + r.n(300) as i64 } else { 6 + r.n(20) as i64 };
        let p = c - r.n(2) as i64;
        eid += 10;
        let s = sentence_cnt(&h, p, c, dt, &[eid, eid + 1]);
        hyps.push(format!("{} {}/{} class {:?}", h.src(), p, c, dt));
        let mem = Arc::clone(&nar.procNar.evidenceMem);
        mem_add_evidence(mem, &s, 100, 0, &mut nar.procNar.rng);
    }
    let tab = nar.procNar.expIntervalsTable.clone();
    // expected number of negative observations of each stored copy
    let mut neg: HashMap<usize, (A, i64, (i64, i64))> = HashMap::new();
    let mut hist: Vec<String> = vec![];
    // the halves of a step are also run alone, as by the commands for it
    let irregular = r.chance(0.25);
    for _ in 0..steps {
        let (do0, do1) = if irregular { (r.chance(0.6), r.chance(0.8)) } else { (true, true) };
        let t = nar.procNar.t;
        for _ in 0..r.n(3) {
            let e = match r.n(6) {
                0 | 1 => r.pick(&facts).clone(),
                2 => nm("other"),
                // executed by someone else, for learning
                3 if learning => op(*r.pick(&["^op0", "^op1"]), vec![selfr(), nm("k")]),
                _ => r.pick(&conds).clone(),
            };
            hist.push(format!("{}@{}", e.src(), t));
            event(&mut nar, &e);
        }
        if r.chance(0.5) {
            let g = r.pick(&goals).clone();
            hist.push(format!("{}!@{}", g.src(), t));
            goal(&mut nar, &g, v(1.0, 0.99));
        }
        let from = hist.len().saturating_sub(40);
        let info = format!("hypotheses {:?}, babbling {}, learning {}, anticipation {}, history {:?}", hyps, babble, learning, en, &hist[from..]);
        set_input(&info);
        set_what(&info);
        if learning {
            drain_store(&nar.procNar, t);
        }
        // register what exists
        for a in all(&nar) {
            let (p, c) = counts(&a);
            let k = ptr(&a);
            neg.entry(k).or_insert_with(|| (Arc::clone(&a), c - p, (p, c)));
        }
        let before: Vec<(A, i64)> = nar.procNar.anticipatedEvents.iter().map(|x| (Arc::clone(&x.evi), x.deadline)).collect();
        let tr = trace_of(&nar.procNar);
        let window: Vec<R> = tr.iter().rev().take(2).map(|e| e.0.clone()).collect();
        let mut keep: Vec<(usize, i64)> = vec![];
        let mut failed = 0;
        if !do0 {
            keep = before.iter().map(|(a, d)| (ptr(a), *d)).collect();
            cnt("steps without first half", 1);
        }
        for (a, d) in before.iter().filter(|_| do0) {
            let p = pred_of(&R::of(&a.read().term));
            if window.iter().any(|w| runify(&p, w).is_some() || p == *w) {
                cnt("anticipations confirmed", 1);
                continue;
            }
            if *d <= t {
                failed += 1;
                let e = neg.get_mut(&ptr(a)).map(|x| {
                    x.1 += 1;
                    (x.2).1 += 1;
                });
                if e.is_none() {
                    // not in memory anymore, but still referenced
                    let (p, c) = counts(a);
                    neg.insert(ptr(a), (Arc::clone(a), c - p + 1, (p, c + 1)));
                }
                cnt("anticipations failed", 1);
            } else {
                keep.push((ptr(a), *d));
                cnt("anticipations pending", 1);
            }
        }
        if irregular {
            hist.push(format!("{}{}", if do0 { "!spA " } else { "" }, if do1 { "!spB" } else { "" }));
        }
        if do0 && guarded(|| step0(&mut nar)).is_none() {
            return;
        }
        tick();
        if learning {
            drain_store(&nar.procNar, t);
        }
        let after: Vec<(usize, i64)> = nar.procNar.anticipatedEvents.iter().map(|x| (ptr(&x.evi), x.deadline)).collect();
        let mut a2 = after.clone();
        let mut k2 = keep.clone();
        a2.sort();
        k2.sort();
        if a2 != k2 {
            viol("pending", format!("{} | at {} {} anticipations are pending, {} should be; deadlines {:?} should be {:?}", info, t, after.len(), keep.len(), after.iter().map(|x| x.1).collect::<Vec<_>>(), keep.iter().map(|x| x.1).collect::<Vec<_>>()));
            return;
        }
        for (a, n, (p0, c0)) in neg.values() {
            let (p, c) = counts(a);
            if c - p != *n || (!learning && (p, c) != (*p0, *c0)) {
                viol("counts", format!("{} | at {} hypothesis {} has {}/{}, should have {} negative observations ({} anticipations failed in this step)", info, t, s_of(&a.read()).txt(), p, c, n, failed));
                return;
            }
            if *n > 0 {
                cnt("hypotheses with counted failures watched", 1);
            }
        }
        let n_before = log.borrow().len();
        let n_ant = nar.procNar.anticipatedEvents.len();
        if do1 && guarded(|| step1(&mut nar)).is_none() {
            return;
        }
        tick();
        let calls: Vec<(String, Vec<R>, i64)> = log.borrow()[n_before..].to_vec();
        let by_knowledge = calls.iter().filter(|c| c.1.len() == 2).count();
        let ants: Vec<(A, i64)> = nar.procNar.anticipatedEvents.iter().map(|x| (Arc::clone(&x.evi), x.deadline)).collect();
        let want = if en { by_knowledge } else { 0 };
        if ants.len() != n_ant + want {
            viol("anticipation", format!("{} | at {} {} operations were executed because of knowledge, {} anticipations were added", info, t, by_knowledge, ants.len() as i64 - n_ant as i64));
            return;
        }
        let old: Vec<(usize, i64)> = ants[..n_ant].iter().map(|x| (ptr(&x.0), x.1)).collect();
        if old != after {
            viol("anticipation", format!("{} | at {} the pending anticipations changed while deciding", info, t));
            return;
        }
        for (i, (a, d)) in ants[n_ant..].iter().enumerate() {
            let s = s_of(&a.read());
            let call = calls.iter().filter(|c| c.1.len() == 2).nth(i).unwrap();
            let ct = op(&call.0, call.1.clone());
            let fits = op_of_hyp(&s.t).map(|o| o == ct || runify(&o, &ct).is_some()).unwrap_or(false);
            let dl = t + tab[s.dt.unwrap_or(0).max(0) as usize];
            if !fits || *d != dl {
                viol("wrong-anticipation", format!("{} | {} was executed at {}, the anticipation is of {} with deadline {}, should be {}", info, ct.src(), t, s.txt(), d, dl));
                return;
            }
            neg.entry(ptr(a)).or_insert_with(|| {
                let (p, c) = counts(a);
                (Arc::clone(a), c - p, (p, c))
            });
            hist.push(format!("executed {} because of {}", ct.src(), s.txt()));
            ev(("exec", &s.t, s.dt, window.len(), failed));
            cnt("executions because of knowledge", 1);
        }
        if calls.len() > by_knowledge {
            cnt("babbled operations", 1);
        }
        ev((before.len(), failed, keep.len(), by_knowledge, learning, t % 8));
    }
    // at the end nothing was lost: exact counts
    cnt("runs", 1);
}

fn main() {
    let cfg = init("C18", 12.0, 180.0, "every step of live runs with executed hypotheses is compared with a reference ledger of anticipations; distinct by hypothesis, interval class, confirmations, failures and pending anticipations");
    assume("goal derivation within a step gets a small time slice; whether an operation is executed is not judged here, only what follows from it");
    let dl = cfg.deadline();
    par(&cfg, 6, 18, |_i, r| {
        until(dl, || {
            let n = 25 + r.n(60);
            run(r, n)
        });
    });
    sample(get_input());
    finish();
}
