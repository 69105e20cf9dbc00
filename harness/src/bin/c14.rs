//! C14: no deadlock, no starvation, threads end
use nar20_1::Nar::*;
use nar20_1::NarInputFacade;
use nar20_1::NarWorkingCycle::memAddTask;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vh::rules::P;
use vh::sys::*;
use vh::*;

fn n_threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn gterm(g: &G, r: &mut Rng) -> R {
    match r.n(8) {
        0 => st(Cop::Sim, g.leaf(r), g.leaf(r)),
        1 => st(Cop::Impl, inh(g.leaf(r), g.leaf(r)), inh(g.leaf(r), g.leaf(r))),
        2 => inh(R::Prod(vec![g.leaf(r), g.leaf(r)]), g.leaf(r)),
        3 => g.stmt(r, 3),
        _ => inh(g.leaf(r), g.leaf(r)),
    }
}

/// random pause of a thread
fn jitter(r: &mut Rng) {
    match r.n(12) {
        0 => std::thread::sleep(Duration::from_micros(r.n(300) as u64)),
        1 | 2 => std::thread::yield_now(),
        3 => {
            for _ in 0..r.n(2000) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

/// records in which order the threads act
#[derive(Clone)]
struct Order {
    log: Arc<Mutex<Vec<u8>>>,
}
impl Order {
    fn mark(&self, who: u8) {
        self.log.lock().unwrap().push(who);
        tick();
    }
}

fn scenario(r: &mut Rng, big: bool) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.procNar.cfg__resourceExpectedTime = 0.0005;
    if r.chance(0.7) {
        let m = Arc::clone(&nar.procNar.evidenceMem);
        nar.mem.read().shared.write().procMem = m;
    }
    let log = op_log();
    add_op(&mut nar.procNar, "^op0", true, 3, &log);
    add_op(&mut nar.procNar, "^op1", true, 3, &log);
    let answers = listen(&nar);
    let names: Vec<&str> = ["a", "b", "c", "d", "e", "f"][..3 + r.n(4)].to_vec();
    let g = G::new(&names).novar();
    let mut gq = G::new(&names);
    gq.pvar = 0.4;
    let shared = Arc::clone(&nar.mem.read().shared);
    let order = Order { log: Arc::new(Mutex::new(vec![])) };
    let stop = Arc::new(AtomicBool::new(false));
    let calls = Arc::new(AtomicUsize::new(0));
    let n_other = 1 + r.n(4);
    let proc_heavy = r.chance(0.3);
    let per = if big { 60 } else { 15 } + r.n(20);
    let info = format!("names {:?}, {} other threads with {} calls each, mostly procedural {}", names, n_other, per, proc_heavy);
    set_what(&info);
    set_input(&info);
    let mut hs = vec![];
    for i in 0..n_other {
        let kind = r.n(4);
        let mut rr = r.fork();
        let (sh, g2, gq2, od, calls2) = (Arc::clone(&shared), g.clone(), gq.clone(), order.clone(), Arc::clone(&calls));
        hs.push(std::thread::spawn(move || {
            let r = &mut rr;
            for k in 0..per {
                let what = if r.chance(0.2) { r.n(4) } else { kind };
                match what {
                    0 => {
                        let id = sh.read().stampIdCounter.fetch_add(1, Ordering::SeqCst);
                        let s = sentence(&gterm(&g2, r), P::J, Some(gv_plain(r)), &[id]);
                        memAddTask(Arc::clone(&sh), &s, true, 64, 20, 1.0, k as i64);
                        cnt("judgements added by other threads", 1);
                    }
                    1 => {
                        let id = sh.read().stampIdCounter.fetch_add(1, Ordering::SeqCst);
                        let mut t = gterm(&gq2, r);
                        if r.chance(0.2) {
                            t = st(Cop::Pred, R::Seq(vec![g2.leaf(r), op("^op0", vec![selfr()])]), g2.leaf(r));
                        }
                        let s = sentence(&t, P::Q, Some(v(1.0, 0.9)), &[id]);
                        memAddTask(Arc::clone(&sh), &s, true, 64, 20, 1.0, k as i64);
                        cnt("questions added by other threads", 1);
                    }
                    2 => {
                        // reads the belief memory
                        let m = { Arc::clone(&sh.read().mem) };
                        let n = { beliefs_of(&m.read()).len() };
                        cnt("inspections of memory by other threads", 1);
                        let _ = n;
                    }
                    _ => {
                        // reads pending work and questions
                        let n = {
                            let s = sh.read();
                            s.judgementTasks.iter().map(|t| t.read().credit).count()
                        };
                        let q = { Arc::new(sh.read().questionTasks.read().len()) };
                        let bt = { Arc::clone(&sh.read().judgementTasksByTerm) };
                        let k = { bt.read().len() };
                        cnt("inspections of pending work by other threads", 1);
                        let _ = (n, q, k);
                    }
                }
                calls2.fetch_add(1, Ordering::Relaxed);
                od.mark(b'0' + i as u8);
                jitter(r);
            }
        }));
    }
    // this thread owns the reasoner
    let mut mine = 0;
    let steps = if big { 150 } else { 40 };
    let mut all_done = false;
    let mut extra = 0;
    let mut ok = true;
    while ok && (mine < steps || !all_done) {
        let x = if proc_heavy { [4, 4, 4, 5, 6, 6, 7, 7, 7, 8, 9][r.n(11)] } else { r.n(20) };
        ok = guarded(|| match x {
            0 => {
                let mut q = false;
                NarInputFacade::input(&mut nar, &"!dt".to_string(), &mut q);
                cnt("listings of pending work", 1);
            }
            1 => {
                let mut q = false;
                NarInputFacade::input(&mut nar, &"!dmd".to_string(), &mut q);
            }
            2 => {
                inputN(&mut nar, &format!("{}.", gterm(&g, r).src()));
            }
            3 => {
                inputN(&mut nar, &format!("{}?", gterm(&gq, r).src()));
            }
            4 => {
                let k = if r.chance(0.5) { g.leaf(r) } else { gterm(&g, r) };
                event(&mut nar, &k);
                if proc_heavy && r.chance(0.5) {
                    event(&mut nar, &op("^op1", vec![selfr(), g.leaf(r)]));
                }
            }
            5 => {
                let k = g.leaf(r);
                goal(&mut nar, &k, v(1.0, 0.9));
            }
            6 => {
                let c = if r.chance(0.5) { g.leaf(r) } else { inh(g.leaf(r), R::SInt(vec![g.leaf(r)])) };
                let e = if r.chance(0.5) { g.leaf(r) } else { gterm(&g, r) };
                let t = st(Cop::Pred, R::Seq(vec![c, op("^op0", vec![selfr(), g.leaf(r)])]), e);
                inputN(&mut nar, &format!("{}.", t.src()));
            }
            7 | 8 => {
                step0(&mut nar);
                step1(&mut nar);
                cnt("procedural steps", 1);
            }
            _ => {
                cycle(&mut nar);
                cnt("reasoning cycles", 1);
            }
        })
        .is_some();
        mine += 1;
        order.mark(b'm');
        if r.chance(0.1) {
            jitter(r);
        }
        if !all_done {
            all_done = hs.iter().all(|h| h.is_finished());
            if mine > steps {
                // the others are slower: go on for a while with small steps, no call may wait forever
                extra += 1;
                if extra > 2000 {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
        }
    }
    stop.store(true, Ordering::SeqCst);
    if !ok {
        return;
    }
    for h in hs {
        let _ = h.join();
    }
    if calls.load(Ordering::SeqCst) != n_other * per {
        viol("lost-thread", format!("only {} of {} calls returned | {}", calls.load(Ordering::SeqCst), n_other * per, info));
        return;
    }
    // background work still alive?
    let worker_ends = r.chance(0.6);
    if worker_ends {
        if !drain(&nar.mem) {
            viol("worker-dead", format!("the background derivation does not take work anymore | {}", info));
            return;
        }
        drain_store(&nar.procNar, 1);
        // and does what it should
        let (x, y, z) = (nm("zp"), nm("zq"), nm("zr"));
        let before = n_viol();
        let okl = liveness(&mut nar, &x, &y, &z);
        if !okl && n_viol() == before {
            viol("starved", format!("a conclusion of told judgements was not derived within the bound | {}", info));
            return;
        }
        cnt("liveness probes of the background derivation", 1);
    } else {
        // leave work behind
        for _ in 0..r.n(5) {
            let t = gterm(&g, r);
            inputN(&mut nar, &format!("{}.", t.src()));
            cycle(&mut nar);
        }
        cnt("discarded with work left", 1);
    }
    cnt("answers received", answers.lock().unwrap().len() as u64);
    let h = {
        let l = order.log.lock().unwrap();
        let mut h = DefaultHasher::new();
        l.hash(&mut h);
        cnt("events ordered", l.len() as u64);
        h.finish()
    };
    ev(h);
    cnt("reasoners discarded", 1);
    cnt("concepts of temporal knowledge when discarded", nar.procNar.evidenceMem.read().concepts.len() as u64);
    // discard
    let weak_shared = Arc::downgrade(&shared);
    let weak_evi = Arc::downgrade(&nar.procNar.evidenceMem);
    drop(shared);
    drop(nar);
    let start = Instant::now();
    loop {
        if weak_shared.strong_count() == 0 && weak_evi.strong_count() == 0 {
            break;
        }
        if start.elapsed() > Duration::from_secs(60) {
            viol("not-ended", format!("60 s after the reasoner was discarded its background threads still hold memory ({} and {} references) | {}", weak_shared.strong_count(), weak_evi.strong_count(), info));
            return;
        }
        tick();
        std::thread::sleep(Duration::from_micros(200));
    }
}

/// told x->y and y->z must lead to x->z in a bounded number of cycles while nothing else is added
fn liveness(nar: &mut Nar, x: &R, y: &R, z: &R) -> bool {
    let mut q = false;
    NarInputFacade::input(nar, &"!dtf".to_string(), &mut q);
    inputN(nar, &format!("{}.", inh(x.clone(), y.clone()).src()));
    inputN(nar, &format!("{}.", inh(y.clone(), z.clone()).src()));
    let want = inh(x.clone(), z.clone());
    let name = x.t();
    for i in 0..400 {
        if guarded(|| cycle(nar)).is_none() {
            return false;
        }
        tick();
        if i % 4 == 3 {
            drain(&nar.mem);
            let m = {
                let g = nar.mem.read();
                let s = g.shared.read();
                Arc::clone(&s.mem)
            };
            let g = m.read();
            if let Some(c) = g.concepts.get(&name) {
                if c.payload.beliefsByExp.iter().any(|b| R::of(&b.read().term) == want) {
                    cnt("cycles until the probe was derived", i as u64 + 1);
                    return true;
                }
            }
        }
    }
    false
}

fn main() {
    let cfg = init("C14", 14.0, 240.0, "one evaluation per discarded reasoner after a concurrent run; distinct by the recorded order in which the threads acted");
    assume("goals are looked at only by the thread which owns the reasoner (it cannot be moved to other threads)");
    let base = n_threads();
    let dl = cfg.deadline();
    let thorough = cfg.thorough;
    par(&cfg, 4, 14, |i, r| {
        let mut k = 0;
        until(dl, || {
            k += 1;
            scenario(r, thorough || (i == 0 && k % 4 == 0));
        });
    });
    // every background thread must be gone
    if n_viol() == 0 {
        let start = Instant::now();
        loop {
            let n = n_threads();
            if n <= base {
                cnt("threads left at the end", 0);
                break;
            }
            if start.elapsed() > Duration::from_secs(40) {
                viol("threads-left", format!("{} threads are left 40 s after the last reasoner was discarded, {} were there at the start", n, base));
                break;
            }
            tick();
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    sample(format!("{} reasoners, {} cycles, {} procedural steps", get_cnt("reasoners discarded"), get_cnt("reasoning cycles"), get_cnt("procedural steps")));
    finish();
}
