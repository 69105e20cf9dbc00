//! observation of a running reasoner
use crate::r::R;
use crate::rules::P;
use crate::tvr::V;
use nar20_1::Nar::Nar;
use nar20_1::NarMem;
use nar20_1::NarSentence::{retTv, Evidence, Sentence, Usage};
use nar20_1::NarStamp::newStamp;
use nar20_1::NarWorkingCycle::{DeriverWorkMessage, Mem2, Task};
use parking_lot::RwLock;
use std::sync::Arc;
use std::time::{Duration, Instant};

/// sentence in plain data
#[derive(Clone, Debug)]
pub struct S {
    pub t: R,
    pub p: P,
    pub v: Option<V>,
    /// positive and total count if the evidence is counted
    pub cnt: Option<(i64, i64)>,
    pub ids: Vec<i64>,
    pub dt: Option<i64>,
    pub used: (i64, i64),
}

pub fn s_of(s: &Sentence) -> S {
    let cnt = match &s.evi {
        Some(Evidence::CNT { pos, cnt }) => Some((*pos, *cnt)),
        _ => None,
    };
    let used = match s.usage.try_read() {
        Some(u) => (u.lastUsed, u.useCount),
        None => (0, 0),
    };
    S {
        t: R::of(&s.term),
        p: P::of(s.punct),
        v: retTv(s).map(|x| V::of(&x)),
        cnt,
        ids: s.stamp.ids.clone(),
        dt: s.expDt,
        used,
    }
}

impl S {
    pub fn sorted_ids(&self) -> Vec<i64> {
        let mut v = self.ids.clone();
        v.sort();
        v
    }
    pub fn txt(&self) -> String {
        format!("{}{} {:?} cnt={:?} ids={:?} dt={:?}", self.t.src(), self.p.s(), self.v.map(|x| (x.f, x.c)), self.cnt, self.ids, self.dt)
    }
}

pub fn sentence(t: &R, p: P, v: Option<V>, ids: &[i64]) -> Sentence {
    Sentence {
        term: Arc::new(t.t()),
        t: None,
        punct: p.e(),
        stamp: newStamp(&ids.to_vec()),
        expDt: None,
        evi: v.map(|x| Evidence::TV(x.t())),
        usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })),
    }
}

pub fn sentence_cnt(t: &R, pos: i64, cnt: i64, dt: Option<i64>, ids: &[i64]) -> Sentence {
    Sentence {
        term: Arc::new(t.t()),
        t: None,
        punct: P::J.e(),
        stamp: newStamp(&ids.to_vec()),
        expDt: dt,
        evi: Some(Evidence::CNT { pos, cnt }),
        usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })),
    }
}

/// polling which gets slow after a while, so that the watchdog can see that nothing happens
pub fn nap(start: Instant) {
    let e = start.elapsed();
    crate::tick_if(e < Duration::from_secs(20));
    std::thread::sleep(if e < Duration::from_millis(500) { Duration::from_micros(100) } else { Duration::from_millis(50) });
}

/// wait until the background derivation handled everything which was submitted.
/// sends a message with an unrelated task and waits until the worker dropped it
pub fn drain(mem: &Arc<RwLock<Mem2>>) -> bool {
    let task = Arc::new(RwLock::new(Task {
        sentence: sentence(&crate::nm("zzDrainBarrier"), P::J, Some(crate::v(1.0, 0.9)), &[-77]),
        credit: 0.0,
        qaCredit: 0.0,
        mulCredit: 1.0,
        id: -77,
        derivTime: 0,
    }));
    let tx = mem.read().deriverWorkersTx[0].clone();
    if tx
        .send(DeriverWorkMessage {
            primary: Arc::clone(&task),
            secondary: vec![],
            cycleCounter: 0,
        })
        .is_err()
    {
        return false;
    }
    drop(tx);
    let start = Instant::now();
    while Arc::strong_count(&task) > 1 {
        nap(start);
    }
    true
}

/// stop the background derivation after everything submitted was handled
pub fn stop_workers(mem: &Arc<RwLock<Mem2>>) {
    let handles = {
        let mut g = mem.write();
        g.deriverWorkersTx.clear();
        std::mem::take(&mut g.deriverWorkers)
    };
    for h in handles {
        let _ = h.join();
    }
}

/// stop the background storage of procedural evidence after everything submitted was handled
pub fn stop_store(nar: &mut nar20_1::NarProc::ProcNar) {
    nar.storeWorkersTx.clear();
    for h in std::mem::take(&mut nar.storeWorkers) {
        let _ = h.join();
    }
}

/// wait until the storage worker handled all: its queue has four places; send nothing, but wait for the channel by
/// a message which only stores a marker which can be recognised
pub fn drain_store(nar: &nar20_1::NarProc::ProcNar, marker: i64) {
    let name = format!("zzStoreBarrier{}", marker);
    let t = crate::st(crate::Cop::Pred, R::Seq(vec![crate::nm(&name), crate::nm("zzop")]), crate::nm(&name));
    let s = sentence_cnt(&t, 1, 1, Some(0), &[-1_000_000 - marker]);
    let key = crate::nm(&name).t();
    if nar.storeWorkersTx[0].send((s, 0)).is_err() {
        crate::viol("worker-dead", format!("background storage of procedural evidence ended | {}", crate::get_input()));
        return;
    }
    let start = Instant::now();
    loop {
        {
            let g = nar.evidenceMem.read();
            if g.concepts.contains_key(&key) {
                break;
            }
        }
        nap(start);
    }
    nar.evidenceMem.write().concepts.remove(&key);
}

/// beliefs of one concept
#[derive(Clone, Debug)]
pub struct CB {
    pub name: R,
    pub by_exp: Vec<S>,
    pub by_use: Vec<S>,
}

pub fn beliefs_of(mem: &NarMem::Mem) -> Vec<CB> {
    let mut v: Vec<CB> = mem
        .concepts
        .iter()
        .map(|(k, c)| {
            let _ = k;
            CB {
                name: R::of(k),
                by_exp: c.payload.beliefsByExp.iter().map(|b| s_of(&b.read())).collect(),
                by_use: c.payload.beliefsByUsage.iter().map(|b| s_of(&b.read())).collect(),
            }
        })
        .collect();
    v.sort_by(|a, b| a.name.cmp(&b.name));
    v
}

pub fn beliefs(mem: &Arc<RwLock<Mem2>>) -> Vec<CB> {
    let m = {
        let g = mem.read();
        let s = g.shared.read();
        Arc::clone(&s.mem)
    };
    let g = m.read();
    beliefs_of(&g)
}

/// (sentence, credit data)
pub fn tasks(mem: &Arc<RwLock<Mem2>>) -> Vec<S> {
    let g = mem.read();
    let s = g.shared.read();
    s.judgementTasks.iter().map(|t| s_of(&t.read().sentence)).collect()
}

pub fn questions(mem: &Arc<RwLock<Mem2>>) -> Vec<(S, f64)> {
    let g = mem.read();
    let s = g.shared.read();
    let q = s.questionTasks.read();
    q.iter().map(|t| (s_of(&t.sentence), t.bestAnswerExp)).collect()
}

pub fn next_id(mem: &Arc<RwLock<Mem2>>) -> i64 {
    let g = mem.read();
    let s = g.shared.read();
    s.stampIdCounter.load(std::sync::atomic::Ordering::SeqCst)
}

/// sometimes the reasoner has been running (idle) for a while, and was told other things
pub fn late(nar: &mut nar20_1::Nar::Nar, r: &mut crate::Rng) {
    late2(nar, r, 1)
}
/// as above, with the next cleaning of the working tasks as far away as from the start
pub fn late_aligned(nar: &mut nar20_1::Nar::Nar, r: &mut crate::Rng) {
    late2(nar, r, 111)
}
fn late2(nar: &mut nar20_1::Nar::Nar, r: &mut crate::Rng, align: i64) {
    if !r.chance(0.35) {
        return;
    }
    let mut k = || -> i64 {
        let b = *r.pick(&[0i64, 20, 64, 100, 256, 400, 1000, 5000, 10_000, 100_000, 1_000_000]);
        (b + r.n(9) as i64 - 4).max(0)
    };
    let (a, b, c) = (k(), k(), k() / align * align);
    nar.procNar.t = a;
    nar.currentTime.store(c, std::sync::atomic::Ordering::SeqCst);
    bump(&nar.mem, b);
    nar.mem.read().shared.read().cycleCounter.store(c, std::sync::atomic::Ordering::SeqCst);
}

/// skips input numbers, as if other things had been told
pub fn bump(mem: &Arc<RwLock<Mem2>>, n: i64) {
    let g = mem.read();
    let s = g.shared.read();
    s.stampIdCounter.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
}

/// the whole belief memory as comparable text
pub fn mem_key(mem: &Arc<RwLock<Mem2>>) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in beliefs(mem) {
        for (i, tab) in [&c.by_exp, &c.by_use].iter().enumerate() {
            for s in tab.iter() {
                v.push(format!("{}|{}|{}", c.name.src(), i, s.txt()));
            }
        }
    }
    v.sort();
    v
}

/// recording listener for answers
pub struct Listener {
    pub log: Arc<std::sync::Mutex<Vec<(R, S)>>>,
}
impl nar20_1::NarWorkingCycle::QHandler for Listener {
    fn answer(&mut self, question: &nar20_1::Term::Term, answer: &Sentence) {
        let e = (R::of(question), s_of(answer));
        self.log.lock().unwrap().push(e);
    }
}
pub fn listen(nar: &Nar) -> Arc<std::sync::Mutex<Vec<(R, S)>>> {
    let log = Arc::new(std::sync::Mutex::new(vec![]));
    let l = Listener { log: Arc::clone(&log) };
    nar.mem.read().globalQaHandlers.write().push(Arc::new(RwLock::new(l)));
    log
}

/// the belief memory must hold exactly these beliefs, each under every term nested in it, in both tables.
/// returns the first difference
pub fn diff_mem(mem: &Arc<RwLock<Mem2>>, told: &[(R, V, Vec<i64>)]) -> Option<String> {
    let bs = beliefs(mem);
    let mut want: std::collections::BTreeMap<R, Vec<usize>> = Default::default();
    for (i, x) in told.iter().enumerate() {
        for s in x.0.usubs() {
            want.entry(s).or_default().push(i);
        }
    }
    for c in &bs {
        if c.by_exp.is_empty() && c.by_use.is_empty() {
            continue;
        }
        if !want.contains_key(&c.name) {
            return Some(format!("concept {} exists but nothing told mentions it", c.name.src()));
        }
    }
    for (name, idx) in &want {
        let c = match bs.iter().find(|c| c.name == *name) {
            Some(c) => c,
            None => return Some(format!("no concept {} although {} mentions it", name.src(), told[idx[0]].0.src())),
        };
        for (tn, tab) in [("expectation", &c.by_exp), ("usage", &c.by_use)] {
            for &i in idx {
                let (t, tv, ids) = &told[i];
                let m: Vec<&S> = tab.iter().filter(|s| s.t == *t).collect();
                if m.len() != 1 {
                    return Some(format!("concept {} table by {} holds {} beliefs {}, should hold one", name.src(), tn, m.len(), t.src()));
                }
                let mut w = ids.clone();
                w.sort();
                if m[0].p != P::J || m[0].v.map(|x| x.near(tv)) != Some(true) || m[0].sorted_ids() != w {
                    return Some(format!("concept {} table by {} holds {}, should be {} {:?} ids {:?}", name.src(), tn, m[0].txt(), t.src(), tv, w));
                }
            }
            if tab.len() != idx.len() {
                return Some(format!("concept {} table by {} holds {} beliefs, should hold {}", name.src(), tn, tab.len(), idx.len()));
            }
        }
    }
    None
}

/// everything which was seen in a run, to decide if new content is licensed
#[derive(Default)]
pub struct Known {
    pub all: Vec<S>,
    keys: std::collections::HashSet<(R, Vec<i64>, u64, u64)>,
    by_ids: std::collections::HashMap<Vec<i64>, Vec<usize>>,
}

fn rk(x: f64) -> u64 {
    (x * 1e10).round() as u64
}

impl Known {
    pub fn has(&self, s: &S) -> bool {
        let tv = s.v.unwrap();
        self.keys.contains(&(s.t.clone(), s.sorted_ids(), rk(tv.f), rk(tv.c)))
    }
    /// also with rounding
    pub fn has_near(&self, s: &S) -> bool {
        if self.has(s) {
            return true;
        }
        let tv = s.v.unwrap();
        match self.by_ids.get(&s.sorted_ids()) {
            Some(l) => l.iter().any(|&i| self.all[i].t == s.t && self.all[i].v.unwrap().near(&tv)),
            None => false,
        }
    }
    pub fn add(&mut self, s: &S) {
        if s.v.is_none() || self.has(s) {
            return;
        }
        let tv = s.v.unwrap();
        let ids = s.sorted_ids();
        self.keys.insert((s.t.clone(), ids.clone(), rk(tv.f), rk(tv.c)));
        self.by_ids.entry(ids).or_default().push(self.all.len());
        self.all.push(s.clone());
    }
    fn pr(s: &S) -> crate::rules::Pr {
        crate::rules::Pr { t: s.t.clone(), p: P::J, v: s.v }
    }
    /// is it a conclusion of known sentences?
    pub fn licensed(&self, c: &S) -> bool {
        let ids = c.sorted_ids();
        let cv = match c.v {
            Some(x) => x,
            None => return false,
        };
        if let Some(l) = self.by_ids.get(&ids) {
            for &i in l {
                for x in crate::rules::single(&Self::pr(&self.all[i])) {
                    if x.t == c.t && x.v.near(&cv) {
                        return true;
                    }
                }
            }
        }
        for (ia, l) in &self.by_ids {
            if ia.len() >= ids.len() || !ia.iter().all(|x| ids.contains(x)) {
                continue;
            }
            let ib: Vec<i64> = ids.iter().filter(|x| !ia.contains(x)).cloned().collect();
            if let Some(lb) = self.by_ids.get(&ib) {
                for &i in l {
                    for &j in lb {
                        for x in crate::rules::binary(&Self::pr(&self.all[i]), &Self::pr(&self.all[j])) {
                            if x.t == c.t && x.v.near(&cv) {
                                return true;
                            }
                        }
                    }
                }
            }
        }
        false
    }
    /// is it the pooled evidence of known sentences with the same term?
    pub fn pooled(&self, c: &S) -> bool {
        let ids = c.sorted_ids();
        let cv = match c.v {
            Some(x) => x,
            None => return false,
        };
        let cand: Vec<(Vec<i64>, V)> = self
            .all
            .iter()
            .filter(|s| s.t == c.t && s.ids.len() < ids.len() && s.ids.iter().all(|x| ids.contains(x)))
            .map(|s| (s.sorted_ids(), s.v.unwrap()))
            .collect();
        fn go(rest: &[i64], cand: &[(Vec<i64>, V)], acc: V, first: bool, want: &V, depth: usize) -> bool {
            if rest.is_empty() {
                return acc.near(want) || ((acc.f - want.f).abs() < 1e-7 && (acc.c - want.c).abs() < 1e-7);
            }
            if depth == 0 {
                return false;
            }
            // the part which holds the first id
            cand.iter().any(|(i, x)| {
                i.contains(&rest[0]) && i.iter().all(|k| rest.contains(k)) && {
                    let r2: Vec<i64> = rest.iter().filter(|k| !i.contains(k)).cloned().collect();
                    go(&r2, cand, if first { *x } else { crate::rev(acc, *x) }, false, want, depth - 1)
                }
            })
        }
        go(&ids, &cand, crate::v(0.0, 0.0), true, &cv, 6)
    }
}

/// everything the declarative part holds: beliefs, pending work and work kept for lookup
pub fn content(mem: &Arc<RwLock<Mem2>>) -> Vec<S> {
    let mut res: Vec<S> = vec![];
    for c in beliefs(mem) {
        res.extend(c.by_exp);
        res.extend(c.by_use);
    }
    res.extend(tasks(mem));
    let by_term = {
        let g = mem.read();
        let s = g.shared.read();
        Arc::clone(&s.judgementTasksByTerm)
    };
    let mut ids: std::collections::HashSet<i64> = Default::default();
    for l in by_term.read().values() {
        for t in l {
            let t = t.read();
            if ids.insert(t.id) {
                res.push(s_of(&t.sentence));
            }
        }
    }
    res
}

/// operation which records its calls
pub struct RecOp {
    pub name: String,
    pub babble: bool,
    pub evi: i64,
    /// (name, arguments, time)
    pub log: std::rc::Rc<std::cell::RefCell<Vec<(String, Vec<R>, i64)>>>,
}
pub type OpLog = std::rc::Rc<std::cell::RefCell<Vec<(String, Vec<R>, i64)>>>;
impl nar20_1::NarProc::Op for RecOp {
    fn retName(&self) -> String {
        self.name.clone()
    }
    fn call(&self, nar: &mut nar20_1::NarProc::ProcNar, _mem: &Option<Arc<RwLock<Mem2>>>, args: &Vec<nar20_1::Term::Term>) {
        self.log.borrow_mut().push((self.name.clone(), args.iter().map(|a| R::of(a)).collect(), nar.t));
    }
    fn isBabbleable(&self) -> bool {
        self.babble
    }
    fn ret_evi_cnt(&self) -> i64 {
        self.evi
    }
}
pub fn op_log() -> OpLog {
    std::rc::Rc::new(std::cell::RefCell::new(vec![]))
}
pub fn add_op(nar: &mut nar20_1::NarProc::ProcNar, name: &str, babble: bool, evi: i64, log: &OpLog) {
    nar.ops.push(std::rc::Rc::new(Box::new(RecOp { name: name.to_string(), babble, evi, log: std::rc::Rc::clone(log) })));
}
pub fn step0(nar: &mut Nar) {
    nar20_1::NarProc::narStep0(&mut nar.procNar);
}
pub fn step1(nar: &mut Nar) {
    let m = Some(Arc::clone(&nar.mem));
    nar20_1::NarProc::narStep1(&mut nar.procNar, &m);
}
/// put an event into the trace
pub fn event(nar: &mut Nar, t: &R) {
    nar20_1::Nar::inputT2(nar, &t.t(), P::J.e(), &crate::v(1.0, 0.9).t(), true);
}
pub fn goal(nar: &mut Nar, t: &R, tv: V) {
    nar20_1::Nar::inputT2(nar, &t.t(), P::G.e(), &tv.t(), true);
}
/// (term, occurrence time) of the remembered events
pub fn trace_of(nar: &nar20_1::NarProc::ProcNar) -> Vec<(R, i64)> {
    nar.trace.ret_view().iter().map(|e| (R::of(&e.name), e.occT)).collect()
}
/// events have evidence numbers which tell their time
pub fn ev_time(id: i64) -> i64 {
    if id < 0 {
        -2 - id
    } else {
        id
    }
}

/// the background derivation is replaced by a collector of the work messages, so that only told content is added
pub fn detach(mem: &Arc<RwLock<Mem2>>) -> std::sync::mpsc::Receiver<DeriverWorkMessage> {
    let (tx, rx) = std::sync::mpsc::sync_channel(100_000);
    let handles = {
        let mut g = mem.write();
        g.deriverWorkersTx.clear();
        g.deriverWorkersTx.push(tx);
        std::mem::take(&mut g.deriverWorkers)
    };
    for h in handles {
        let _ = h.join();
    }
    rx
}
pub fn cycles_done(mem: &Arc<RwLock<Mem2>>) -> i64 {
    let g = mem.read();
    let s = g.shared.read();
    s.cycleCounter.load(std::sync::atomic::Ordering::SeqCst)
}
/// reasoner with other capacities
pub fn nar_with(max_complexity: i64, n_beliefs: usize) -> Nar {
    let mut nar = nar20_1::Nar::createNar();
    nar.mem = nar20_1::NarWorkingCycle::createMem2(max_complexity, n_beliefs);
    nar.cfg__maxComplexity = max_complexity;
    nar.cfg__nConceptBeliefs = n_beliefs;
    nar
}

/// judgements told by several threads at the same moment: each is pending exactly once, and the one which is taken up meets every other one
/// returns what was told and what is wrong
pub fn together(r: &mut crate::Rng) -> (String, Option<String>) {
    use nar20_1::NarWorkingCycle as W;
    let mut nar = nar_with(64, 200);
    let rx = detach(&nar.mem);
    let n = 16 + r.n(33);
    let k = 2 + r.n(5);
    let rels = ["r", "s"];
    let ts: Vec<R> = (0..n).map(|i| if r.chance(0.7) { crate::inh(crate::nm(&format!("x{}", i)), crate::nm("m")) } else { crate::inh(crate::nm("m"), R::Prod(vec![crate::nm(&format!("x{}", i)), crate::nm(r.pick(&rels))])) }).collect();
    let told: Vec<Sentence> = ts.iter().enumerate().map(|(i, t)| sentence(t, crate::rules::P::J, Some(crate::v(r.f(), 0.9)), &[5000 + i as i64])).collect();
    let info = format!("{} threads tell at the same time {}", k, ts.iter().map(|t| t.src() + ".").collect::<Vec<_>>().join(" "));
    crate::set_input(&info);
    crate::set_what(&info);
    let shared = Arc::clone(&nar.mem.read().shared);
    let start = std::sync::Barrier::new(k);
    let ok = std::thread::scope(|sc| {
        let mut hs = vec![];
        for c in 0..k {
            let (shared, start, told) = (Arc::clone(&shared), &start, &told);
            hs.push(sc.spawn(move || {
                start.wait();
                for s in told.iter().skip(c).step_by(k) {
                    W::memAddTask(Arc::clone(&shared), s, true, 64, 200, 1.0, 0);
                }
            }));
        }
        hs.into_iter().all(|h| h.join().is_ok())
    });
    drop(shared);
    crate::tick();
    if !ok {
        return (info, None);
    }
    let pend = tasks(&nar.mem);
    for (i, t) in ts.iter().enumerate() {
        let c = pend.iter().filter(|p| p.t == *t && p.ids == [5000 + i as i64]).count();
        if c != 1 {
            return (info, Some(format!("{} is pending {} times", t.src(), c)));
        }
    }
    if pend.len() != n {
        return (info, Some(format!("{} judgements are pending", pend.len())));
    }
    if crate::guarded(|| nar20_1::Nar::cycle(&mut nar)).is_none() {
        return (info, None);
    }
    let msg = match rx.try_recv() {
        Ok(m) => m,
        Err(_) => return (info, Some("nothing was taken up in the next cycle".to_string())),
    };
    let prim = s_of(&msg.primary.read().sentence);
    let part: Vec<S> = msg.secondary.iter().map(|x| s_of(&x.read().sentence)).collect();
    for t in ts.iter().filter(|t| **t != prim.t) {
        let c = part.iter().filter(|p| p.t == *t).count();
        if c != 1 {
            return (info, Some(format!("{} was taken up and meets {} {} times", prim.t.src(), t.src(), c)));
        }
    }
    (info, None)
}
