//! C24: the composite operation runs its parts in order and injects its event; the relation operation adds its relation
use nar20_1::Nar::*;
use nar20_1::NarProc::{mem_add_evidence, Op, ProcNar};
use nar20_1::OpLib::*;
use parking_lot::RwLock;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use vh::rules::P;
use vh::sys::*;
use vh::*;

/// what was observed, in order: calls of recording operations with the length of the trace at this moment
type Log = Rc<RefCell<Vec<(String, Vec<R>, i64, usize)>>>;
struct Rec {
    name: String,
    log: Log,
}
impl Op for Rec {
    fn retName(&self) -> String {
        self.name.clone()
    }
    fn call(&self, nar: &mut ProcNar, _m: &Option<Arc<RwLock<nar20_1::NarWorkingCycle::Mem2>>>, args: &Vec<nar20_1::Term::Term>) {
        self.log.borrow_mut().push((self.name.clone(), args.iter().map(|a| R::of(a)).collect(), nar.t, nar.trace.ret_view().len()));
    }
    fn isBabbleable(&self) -> bool {
        false
    }
    fn ret_evi_cnt(&self) -> i64 {
        2
    }
}

fn as_op(t: &R) -> Option<(Vec<R>, String)> {
    match t {
        R::St(Cop::Inh, a, b) => match (&**a, &**b) {
            (R::SExt(v), R::Nm(n)) if v.len() == 1 => match &v[0] {
                R::Prod(a) => Some((a.clone(), n.to_string())),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}

const INJ: &str = "^nal9_exeAndInject";
const REL: &str = "^nlpRel0";

/// reference
#[derive(Default)]
struct Want {
    calls: Vec<(String, Vec<R>, usize)>,
    events: Vec<R>,
    rels: Vec<R>,
}
fn rewrite(t: &R) -> R {
    if let R::St(Cop::Inh, s, p) = t {
        if let R::Prod(v) = &**s {
            if let [x, R::Seq(q)] = v.as_slice() {
                if q.len() == 3 && q[1] == nm("and") {
                    return inh(R::Prod(vec![x.clone(), R::EInt(vec![q[0].clone(), q[2].clone()])]), (**p).clone());
                }
            }
        }
    }
    t.clone()
}
fn reference(name: &str, args: &[R], regs: &[String], base: usize, w: &mut Want) {
    match name {
        INJ => {
            if let [_, R::Seq(v), e] = args {
                for x in v {
                    if let Some((a, n)) = as_op(x) {
                        if regs.contains(&n) {
                            reference(&n, &a, regs, base, w);
                        }
                    }
                }
                w.events.push(e.clone());
            }
        }
        REL => {
            if let [_, rel] = args {
                w.rels.push(rewrite(rel));
            }
        }
        n => {
            let l = base + w.events.len();
            w.calls.push((n.to_string(), args.to_vec(), l));
        }
    }
}

fn small(r: &mut Rng) -> R {
    match r.n(6) {
        0 => inh(nm("s"), nm("p")),
        1 => R::Prod(vec![nm("a"), nm("b")]),
        2 => R::SExt(vec![nm("x")]),
        3 => R::I("v".into()),
        4 if r.chance(0.3) => {
            let n = 2 + r.n(30);
            R::Prod((0..n).map(|i| nm(&format!("e{}", i))).collect())
        }
        _ => nm(*r.pick(&["a", "b", "c", "k", "and"])),
    }
}
fn relation(r: &mut Rng, k: &mut usize) -> R {
    *k += 1;
    let u = nm(&format!("u{}", k));
    let right = match r.n(6) {
        0 | 1 => {
            let x = if r.chance(0.3) { small(r) } else { nm("x") };
            let y = match r.n(5) {
                0 => x.clone(),
                1 => small(r),
                _ => nm("y"),
            };
            R::Seq(vec![x, nm("and"), y])
        }
        2 => R::Seq(vec![nm("x"), nm(*r.pick(&["or", "And"])), nm("y")]),
        3 => R::Seq(vec![nm("x"), nm("and"), nm("y"), nm("z")]),
        4 => R::Seq(vec![nm("and"), nm("x"), nm("and")]),
        _ => small(r),
    };
    match r.n(9) {
        0 => inh(R::Prod(vec![u, right, nm("w")]), nm("rel")),
        1 => inh(R::Prod(vec![u]), nm("rel")),
        2 => inh(R::Prod(vec![right, u]), nm("rel")),
        3 => st(Cop::Sim, R::Prod(vec![u, right]), nm("rel")),
        4 => inh(u, nm("rel")),
        5 => u,
        _ => inh(R::Prod(vec![u, right]), nm(*r.pick(&["rel", "is"]))),
    }
}
fn part(r: &mut Rng, depth: usize, k: &mut usize) -> R {
    match r.n(12) {
        0 if depth > 0 => composite(r, depth - 1, k),
        1 => op(REL, vec![selfr(), relation(r, k)]),
        2 => small(r),
        3 => inh(R::SExt(vec![R::Prod(vec![nm("a")]), nm("b")]), nm("^o1")),
        4 => inh(R::SInt(vec![R::Prod(vec![nm("a")])]), nm("^o1")),
        5 => st(Cop::Sim, R::SExt(vec![R::Prod(vec![nm("a")])]), nm("^o1")),
        _ => {
            let n = *r.pick(&["^o1", "^o2", "^o3", "^unknown", "o1"]);
            let mut a = vec![selfr()];
            for _ in 0..if r.chance(0.15) { 3 + r.n(9) } else { r.n(3) } {
                a.push(small(r));
            }
            op(n, a)
        }
    }
}
fn composite(r: &mut Rng, depth: usize, k: &mut usize) -> R {
    let mut args = composite_args(r, depth, k);
    if args.is_empty() {
        args.push(selfr());
    }
    op(INJ, args)
}
fn composite_args(r: &mut Rng, depth: usize, k: &mut usize) -> Vec<R> {
    let n = if r.chance(0.1) { 6 + r.n(25) } else { 1 + r.n(5) };
    let parts: Vec<R> = (0..n).map(|_| part(r, depth, k)).collect();
    let second = match r.n(12) {
        0 => R::Prod(parts),
        1 => R::Conj(parts),
        2 => parts[0].clone(),
        _ => R::Seq(parts),
    };
    let mut a = vec![selfr(), second, small(r)];
    match r.n(12) {
        0 => {
            a.pop();
        }
        1 => {
            let x = small(r);
            a.push(x);
        }
        2 => a.truncate(r.n(2)),
        _ => {}
    }
    a
}

fn direct(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.cfgVerbosityInput = 0;
    nar.procNar.cfgEnBabbling = false;
    nar.procNar.cfg__perceptionSamplesPerStep = 0;
    let _rx = detach(&nar.mem);
    let log: Log = Default::default();
    let mut regs: Vec<String> = vec![];
    let mut names = vec!["^o1", "^o2", "^o3", "o1", INJ, REL];
    r.shuffle(&mut names);
    for n in names {
        if !r.chance(0.75) {
            continue;
        }
        regs.push(n.to_string());
        let o: Box<dyn Op> = match n {
            INJ => Box::new(Op_nal9__exec_and_inject {}),
            REL => Box::new(Op__nlp_rel_0 {}),
            n => Box::new(Rec { name: n.to_string(), log: Rc::clone(&log) }),
        };
        nar.procNar.ops.push(Rc::new(o));
    }
    let mut k = 0;
    let mut told: Vec<(R, V, Vec<i64>)> = vec![];
    let mut n_tasks = 0;
    let mut hist: Vec<String> = vec![];
    for _ in 0..12 {
        // time passes and other things happen between
        for _ in 0..r.n(3) {
            if r.chance(0.5) {
                event(&mut nar, &nm("other"));
            }
            step0(&mut nar);
            step1(&mut nar);
        }
        let before = trace_of(&nar.procNar);
        log.borrow_mut().clear();
        let with_mem = r.chance(0.85);
        let m = if with_mem { Some(Arc::clone(&nar.mem)) } else { None };
        let (name, args) = if r.chance(0.65) {
            (INJ, composite_args(r, 2, &mut k))
        } else {
            let mut a = vec![selfr(), relation(r, &mut k)];
            match r.n(8) {
                0 => {
                    a.pop();
                }
                1 => a.push(nm("z")),
                _ => {}
            }
            (REL, a)
        };
        hist.push(format!("{} ({})", name, args.iter().map(|a| a.src()).collect::<Vec<_>>().join(" , ")));
        let info = format!("operations {:?} memory {} calls {:?}", regs, with_mem, hist);
        set_input(&info);
        set_what(&info);
        let mut w = Want::default();
        reference(name, &args, &regs, before.len(), &mut w);
        let ta: Vec<nar20_1::Term::Term> = args.iter().map(|a| a.t()).collect();
        let id0 = next_id(&nar.mem);
        let t = nar.procNar.t;
        let ok = guarded(|| {
            if name == INJ {
                Op_nal9__exec_and_inject {}.call(&mut nar.procNar, &m, &ta)
            } else {
                Op__nlp_rel_0 {}.call(&mut nar.procNar, &m, &ta)
            }
        });
        tick();
        if ok.is_none() {
            return;
        }
        let got = log.borrow().clone();
        let want: Vec<(String, Vec<R>, i64, usize)> = w.calls.iter().map(|(n, a, l)| (n.clone(), a.clone(), t, *l)).collect();
        if got != want {
            viol("calls", format!("{} | called {:?}, should be {:?}", info, got, want));
            return;
        }
        let mut wt = before.clone();
        wt.extend(w.events.iter().map(|e| (e.clone(), t)));
        if trace_of(&nar.procNar) != wt {
            viol("event", format!("{} | events are {:?}, should be {:?}", info, trace_of(&nar.procNar), wt));
            return;
        }
        if nar.procNar.t != t {
            viol("event", format!("{} | time changed", info));
            return;
        }
        let rels = if with_mem { w.rels.clone() } else { vec![] };
        let id1 = next_id(&nar.mem);
        if id1 - id0 != rels.len() as i64 {
            viol("relation", format!("{} | {} inputs were counted, should be {}", info, id1 - id0, rels.len()));
            return;
        }
        for (i, x) in rels.iter().enumerate() {
            told.push((x.clone(), v(1.0, 0.9), vec![id0 + i as i64]));
        }
        if let Some(d) = diff_mem(&nar.mem, &told) {
            viol("relation", format!("{} | {}", info, d));
            return;
        }
        n_tasks += rels.len();
        let ts = tasks(&nar.mem);
        if ts.len() != n_tasks || rels.iter().any(|x| !ts.iter().any(|s| s.t == *x && s.p == P::J)) {
            viol("relation", format!("{} | {} judgements are pending, should be {}", info, ts.len(), n_tasks));
            return;
        }
        cnt("calls of parts", want.len() as u64);
        cnt("events injected", w.events.len() as u64);
        cnt("relations added", rels.len() as u64);
        if want.is_empty() && w.events.is_empty() && w.rels.is_empty() {
            cnt("calls with other arguments which do nothing", 1);
        }
        ev((name, &args, &regs, with_mem));
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// executed because of temporal knowledge
fn executed(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.cfgVerbosityInput = 0;
    nar.procNar.cfgEnBabbling = false;
    nar.procNar.cfg__perceptionSamplesPerStep = 0;
    nar.procNar.cfg__enAnticipation = false;
    let _rx = detach(&nar.mem);
    let log: Log = Default::default();
    let mut regs = vec![];
    for n in ["^o1", "^o2"] {
        regs.push(n.to_string());
        nar.procNar.ops.push(Rc::new(Box::new(Rec { name: n.to_string(), log: Rc::clone(&log) })));
    }
    nar.procNar.ops.push(Rc::new(Box::new(Op_nal9__exec_and_inject {})));
    nar.procNar.ops.push(Rc::new(Box::new(Op__nlp_rel_0 {})));
    regs.push(INJ.into());
    regs.push(REL.into());
    let x = R::I("x".into());
    let n = 2 + r.n(3);
    let sq: Vec<R> = (0..n).map(|_| op(*r.pick(&["^o1", "^o2", "^no"]), vec![selfr(), if r.chance(0.5) { x.clone() } else { nm("k") }])).collect();
    let mut k = 0;
    let (call, rel_call) = if r.chance(0.6) {
        (op(INJ, vec![selfr(), R::Seq(sq), if r.chance(0.5) { inh(x.clone(), nm("done")) } else { nm("done") }]), false)
    } else {
        (op(REL, vec![selfr(), relation(r, &mut k)]), true)
    };
    let prop = |y: &R| inh(y.clone(), R::SInt(vec![nm("q")]));
    let h = st(Cop::Pred, R::Seq(vec![prop(&x), call.clone()]), nm("g"));
    let s = sentence_cnt(&h, 20, 20, Some(3), &[1_000_000]);
    mem_add_evidence(Arc::clone(&nar.procNar.evidenceMem), &s, 100, 0, &mut nar.procNar.rng);
    let subj = nm(*r.pick(&["tim", "tom"]));
    let info = format!("executed because of {} with {}", h.src(), subj.src());
    set_input(&info);
    set_what(&info);
    goal(&mut nar, &nm("g"), v(1.0, 0.99));
    let bound = rsubst(&call, &[(x.clone(), subj.clone())]);
    for _ in 0..40 {
        event(&mut nar, &prop(&subj));
        let before = trace_of(&nar.procNar);
        let t = nar.procNar.t;
        let id0 = next_id(&nar.mem);
        if guarded(|| {
            step0(&mut nar);
            step1(&mut nar);
        })
        .is_none()
        {
            return;
        }
        tick();
        let after = trace_of(&nar.procNar);
        let ran = after.iter().any(|e| e.0 == bound);
        let mut w = Want::default();
        if ran {
            let (a, n) = as_op(&bound).unwrap();
            reference(&n, &a, &regs, before.len(), &mut w);
        }
        let got: Vec<(String, Vec<R>, i64)> = log.borrow().iter().map(|x| (x.0.clone(), x.1.clone(), x.2)).collect();
        let want: Vec<(String, Vec<R>, i64)> = w.calls.iter().map(|x| (x.0.clone(), x.1.clone(), t)).collect();
        if got != want {
            viol("calls", format!("{} | called {:?}, should be {:?}", info, got, want));
            return;
        }
        // the new events: the operation itself and the injected one
        let cut = before.len().saturating_sub(20);
        let mut new: Vec<(R, i64)> = after[(before.len() - cut).min(after.len())..].to_vec();
        let mut wn: Vec<(R, i64)> = w.events.iter().map(|e| (e.clone(), t)).collect();
        if ran {
            wn.push((bound.clone(), t));
        }
        new.sort_by_key(|e| e.0.src());
        wn.sort_by_key(|e| e.0.src());
        if new != wn {
            viol("event", format!("{} | new events {:?}, should be {:?}", info, new, wn));
            return;
        }
        if ran {
            let told: Vec<(R, V, Vec<i64>)> = w.rels.iter().map(|x| (x.clone(), v(1.0, 0.9), vec![id0])).collect();
            if let Some(d) = diff_mem(&nar.mem, &told) {
                viol("relation", format!("{} | {}", info, d));
                return;
            }
            cnt(if rel_call { "relation operation executed by decision" } else { "composite executed by decision" }, 1);
            ev(("executed", &bound));
            break;
        }
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

fn nop(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let name = r.pick(&["^a", "^b", "x"]).to_string();
    let o = OpNop { name: name.clone() };
    event(&mut nar, &nm("e"));
    let b = trace_of(&nar.procNar);
    o.call(&mut nar.procNar, &Some(Arc::clone(&nar.mem)), &vec![nm("q").t()]);
    if o.retName() != name || trace_of(&nar.procNar) != b || !tasks(&nar.mem).is_empty() || next_id(&nar.mem) != next_id(&nar.mem) {
        viol("nop", format!("operation {} which does nothing changed something", name));
    }
    ev(("nop", name));
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

fn main() {
    let cfg = init("C24", 8.0, 90.0, "one evaluation per call of one of the two operations whose calls of other operations, events, time and whole belief memory were compared with the reference, direct or by decision making; distinct by arguments and registered operations");
    assume("background derivation is detached so that the belief memory holds exactly what the operation added");
    let dl = cfg.deadline();
    par(&cfg, 6, 24, |i, r| {
        let mut n = 0;
        until(dl, || {
            n += 1;
            match (i + n) % 8 {
                0 => nop(r),
                1 | 2 => executed(r),
                _ => direct(r),
            }
        });
    });
    sample(get_input());
    finish();
}
