//! C20: derived goals are licensed, satisfied goals fade
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem as GS;
use nar20_1::NarProc::mem_add_evidence;
use nar20_1::NarSentence::Sentence;
use parking_lot::RwLock;
use std::collections::BTreeSet;
use std::sync::Arc;
use vh::rules::P;
use vh::sys::*;
use vh::*;

#[derive(Clone)]
struct Goal {
    s: S,
    ids: BTreeSet<i64>,
    /// the knowledge it was derived with
    evi: Option<(S, usize)>,
    des: f32,
    depth: i64,
    created: i64,
    ptr: usize,
}

fn goal_of(e: &Arc<RwLock<GS::Entry>>) -> Goal {
    let g = e.read();
    let s = s_of(&g.sentence);
    Goal {
        ids: s.ids.iter().cloned().collect(),
        s,
        evi: g.evidence.as_ref().map(|x| (s_of(&x.read()), Arc::as_ptr(x) as usize)),
        des: g.desirability,
        depth: g.depth,
        created: g.createTime,
        ptr: Arc::as_ptr(e) as usize,
    }
}
fn goals(nar: &Nar) -> Vec<Goal> {
    GS::retEntries(&nar.procNar.goalSystem.read()).iter().map(goal_of).collect()
}
fn is_op(t: &R) -> bool {
    match t {
        R::St(Cop::Inh, a, b) => matches!((&**a, &**b), (R::SExt(v), R::Nm(_)) if v.len() == 1 && matches!(&v[0], R::Prod(_))),
        _ => false,
    }
}

/// stored temporal knowledge with its identity
fn knowledge(nar: &Nar) -> Vec<(S, usize)> {
    let g = nar.procNar.evidenceMem.read();
    let mut v: Vec<(S, usize)> = vec![];
    for c in g.concepts.values() {
        for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) {
            let p = Arc::as_ptr(b) as usize;
            if !v.iter().any(|x| x.1 == p) {
                v.push((s_of(&b.read()), p));
            }
        }
    }
    v
}

/// conclusions from a goal: term, desire, evidence ids, depth, by which knowledge
#[derive(Clone, Debug)]
struct C {
    t: R,
    v: V,
    ids: BTreeSet<i64>,
    depth: i64,
    by: Option<(R, BTreeSet<i64>)>,
}
fn derive(t: &R, tv: V, ids: &BTreeSet<i64>, depth: i64, know: &[S]) -> Vec<C> {
    if let R::Seq(v) = t {
        return vec![C { t: v[0].clone(), v: tv, ids: ids.clone(), depth: depth + 1, by: None }];
    }
    let mut out = vec![];
    for k in know {
        if let R::St(Cop::Pred, a, b) = &k.t {
            if **b == *t && !k.ids.iter().any(|i| ids.contains(i)) {
                let mut u = ids.clone();
                u.extend(k.ids.iter());
                out.push(C { t: (**a).clone(), v: ded_goal(tv, k.v.unwrap()), ids: u, depth: depth + 1, by: Some((k.t.clone(), k.ids.iter().cloned().collect())) });
            }
        }
    }
    out
}
fn fits(c: &C, g: &Goal) -> bool {
    c.t == g.s.t && c.v.near(&g.s.v.unwrap()) && c.ids == g.ids
}
fn fits_all(c: &C, g: &Goal) -> bool {
    fits(c, g)
        && c.depth == g.depth
        && match (&c.by, &g.evi) {
            (None, None) => true,
            (Some((t, i)), Some((s, _))) => s.t == *t && s.ids.iter().cloned().collect::<BTreeSet<i64>>() == *i,
            _ => false,
        }
}
fn txt(g: &Goal) -> String {
    format!("{} depth {} desirability {} from {}", g.s.txt(), g.depth, g.des, g.evi.as_ref().map(|e| e.0.txt()).unwrap_or("nothing".into()))
}

fn gen_know(r: &mut Rng, names: &[R], ops: bool) -> R {
    let pick = |r: &mut Rng| r.pick(names).clone();
    let s = match r.n(10) {
        0 => pick(r),
        1 => {
            let n = 2 + if r.chance(0.3) { r.n(5) } else { 0 };
            R::Seq((0..n).map(|_| pick(r)).chain(std::iter::once(op("^o", vec![selfr()]))).collect())
        }
        2 => R::Seq(vec![pick(r), pick(r)]),
        3 if ops => op("^o", vec![selfr(), nm("z")]),
        4 if ops => R::Seq(vec![op("^o", vec![selfr()]), pick(r)]),
        _ => R::Seq(vec![pick(r), op(*r.pick(&["^o", "^p"]), vec![selfr(), nm("k")])]),
    };
    let p = if r.chance(0.1) { R::Seq(vec![pick(r), op("^p", vec![selfr()])]) } else { pick(r) };
    st(Cop::Pred, s, p)
}

fn derivation(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let prop = |x: &str| R::SInt(vec![nm(x)]);
    let names: Vec<R> = vec![nm("a"), nm("b"), nm("c"), inh(nm("s"), prop("p")), inh(R::I("x".into()), prop("p")), inh(R::Prod(vec![nm("s"), nm("u")]), nm("on"))];
    let mut ids = 1000;
    let mut what = vec![];
    let n_know = r.n(9);
    for _ in 0..n_know {
        let t = gen_know(r, &names, true);
        let c = 1 + r.n(20) as i64;
        let p = if r.chance(0.6) { c } else { r.n(c as usize + 1) as i64 };
        // evidence sometimes shared
        let n = 1 + r.n(3);
        let mut st: Vec<i64> = (0..n).map(|_| if r.chance(0.15) { 1001 + r.n(6) as i64 } else { ids += 1; ids }).collect();
        st.sort();
        st.dedup();
        what.push(format!("{} {}/{} {:?}", t.src(), p, c, st));
        let s = sentence_cnt(&t, p, c, Some(r.n(4) as i64), &st);
        mem_add_evidence(Arc::clone(&nar.procNar.evidenceMem), &s, 100, 0, &mut nar.procNar.rng);
    }
    let n_g = 1 + r.n(4);
    for _ in 0..n_g {
        let t = match r.n(8) {
            0 => R::Seq(vec![r.pick(&names).clone(), op("^o", vec![selfr()])]),
            1 => R::Seq(vec![r.pick(&names).clone(), r.pick(&names).clone(), op("^o", vec![selfr()])]),
            2 => op("^o", vec![selfr()]),
            3 => {
                let n = 4 + r.n(5);
                R::Seq((0..n).map(|_| if r.chance(0.3) { op("^o", vec![selfr()]) } else { r.pick(&names).clone() }).collect())
            }
            _ => r.pick(&names).clone(),
        };
        let tv = if r.chance(0.5) { v(1.0, 0.99) } else { gv_plain(r) };
        let id = if r.chance(0.2) { 1001 + r.n(6) as i64 } else { ids += 1; ids };
        let depth = if r.chance(0.6) { 0 } else { r.n(9) as i64 };
        what.push(format!("{}! {} {} [{}] depth {}", t.src(), tv.f, tv.c, id, depth));
        let m = nar.mem.read();
        GS::addEntry(&nar.procNar.goalSystem, &m, 0, Arc::new(sentence(&t, P::G, Some(tv), &[id])), None, depth);
    }
    let know_p = knowledge(&nar);
    let mut know: Vec<S> = vec![];
    for k in &know_p {
        if !know.iter().any(|x| x.t == k.0.t && x.ids == k.0.ids && x.cnt == k.0.cnt) {
            know.push(k.0.clone());
        }
    }
    let mut t = 0;
    for round in 0..6 {
        t += r.n(3) as i64;
        let old = goals(&nar);
        let info = format!("{:?} round {}", what, round);
        set_input(&info);
        set_what(&info);
        if old.len() > 300 {
            break;
        }
        let ok = guarded(|| {
            let m = nar.mem.read();
            let em = nar.procNar.evidenceMem.read();
            GS::sampleAndInference(&nar.procNar.goalSystem, &m, t, &em, &mut rand::thread_rng());
        });
        if ok.is_none() {
            return;
        }
        tick();
        let new = goals(&nar);
        // nothing which was held is changed
        for o in &old {
            let same = new.iter().find(|n| n.ptr == o.ptr);
            let ok = match same {
                Some(n) => n.s.t == o.s.t && n.s.v.unwrap().near(&o.s.v.unwrap()) && n.ids == o.ids && n.des == o.des && n.depth == o.depth && n.created == o.created,
                None => false,
            };
            if !ok {
                viol("changed", format!("{} | goal {} became {}", info, txt(o), same.map(txt).unwrap_or("nothing".into())));
                return;
            }
        }
        // everything new is licensed
        let added: Vec<&Goal> = new.iter().filter(|n| !old.iter().any(|o| o.ptr == n.ptr)).collect();
        // no goal is held twice
        for a in &added {
            if let Some(o) = new.iter().find(|o| o.ptr != a.ptr && o.s.t == a.s.t && o.s.ids == a.s.ids && o.s.v.unwrap().near(&a.s.v.unwrap()) && o.s.ids.len() <= 100) {
                viol("twice", format!("{} | the goal {} is held twice, also as {}", info, txt(a), txt(o)));
                return;
            }
        }
        // all conclusions which can follow from what was held
        let mut closure: Vec<C> = vec![];
        let mut front: Vec<C> = vec![];
        for o in old.iter().filter(|o| !is_op(&o.s.t)) {
            front.extend(derive(&o.s.t, o.s.v.unwrap(), &o.ids, o.depth, &know));
        }
        let mut full = true;
        for _ in 0..16 {
            let mut next = vec![];
            for c in &front {
                if closure.len() > 4000 {
                    full = false;
                    break;
                }
                if closure.iter().any(|x| x.t == c.t && x.ids == c.ids && x.depth == c.depth && x.v.near(&c.v) && x.by == c.by) {
                    continue;
                }
                closure.push(c.clone());
                next.extend(derive(&c.t, c.v, &c.ids, c.depth, &know));
            }
            front = next;
            if front.is_empty() {
                break;
            }
        }
        if !full {
            cnt("too many possible conclusions, not judged", 1);
            break;
        }
        for a in &added {
            let fit = closure.iter().any(|c| fits_all(c, a));
            let evi_real = a.evi.as_ref().map(|e| know_p.iter().any(|k| k.1 == e.1)).unwrap_or(true);
            if !fit || !evi_real || a.des != 1.0 || a.created != t || a.s.p != P::G {
                let near: Vec<String> = closure.iter().filter(|c| c.t == a.s.t).map(|c| format!("{:?}", c)).collect();
                viol("unlicensed", format!("{} | derived goal {} created {} at {} (knowledge known {}); goals were {:?}; licensed with this term {:?}", info, txt(a), a.created, t, evi_real, old.iter().map(txt).collect::<Vec<_>>(), near));
                return;
            }
            ev((&a.s.t, a.depth, a.ids.len(), (a.s.v.unwrap().c * 50.0) as i64));
            cnt(if a.evi.is_some() { "goals derived by knowledge" } else { "goals detached from sequences" }, 1);
        }
        // some desired goal has all its conclusions
        let cand: Vec<&Goal> = old.iter().filter(|o| !is_op(&o.s.t)).collect();
        if !cand.is_empty() && cand.iter().all(|c| c.des > 0.5) {
            let held = |c: &C| new.iter().any(|g| g.s.t == c.t && g.ids == c.ids);
            let miss: Vec<String> = cand
                .iter()
                .map(|g| derive(&g.s.t, g.s.v.unwrap(), &g.ids, g.depth, &know).into_iter().find(|c| !held(c)))
                .map(|c| c.map(|c| format!("{:?}", c)).unwrap_or_default())
                .collect();
            if !miss.iter().any(|m| m.is_empty()) {
                viol("missing", format!("{} | no goal of {:?} has all its conclusions, missing are {:?}", info, cand.iter().map(|g| txt(g)).collect::<Vec<_>>(), miss));
                return;
            }
            if cand.len() == 1 {
                cnt("known sampled goals with all conclusions", 1);
            }
        }
        if added.is_empty() {
            ev_trivial();
        }
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// single goal, everything which follows by one step must follow
fn single(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let mut ids = 100;
    let long = 4 + r.n(6);
    let g = r.pick(&[nm("g"), inh(nm("s"), R::SInt(vec![nm("p")])), R::Seq(vec![nm("g"), op("^o", vec![selfr()])]), R::Seq(vec![nm("g"), nm("h"), nm("i")]), R::Seq("gabcdefghi".chars().take(long).map(|c| nm(&c.to_string())).collect())]).clone();
    let names = vec![nm("a"), nm("b"), nm("c"), nm("d"), g.clone()];
    let mut what = vec![];
    let many = r.chance(0.15);
    let names = if many { (0..60).map(|i| nm(&format!("n{}", i))).chain(names).collect() } else { names };
    for _ in 0..if many { 20 + r.n(75) } else { 1 + r.n(14) } {
        let mut t = gen_know(r, &names, true);
        if r.chance(0.7) {
            if let R::St(c, a, _) = t {
                t = R::St(c, a, Box::new(g.clone()));
            }
        }
        ids += 1;
        let st = if r.chance(0.15) { vec![7, ids] } else { vec![ids] };
        let c = 1 + r.n(9) as i64;
        what.push(format!("{} {}/{} {:?}", t.src(), c, c, st));
        let s = sentence_cnt(&t, c, c, None, &st);
        mem_add_evidence(Arc::clone(&nar.procNar.evidenceMem), &s, 100, 0, &mut nar.procNar.rng);
    }
    let tv = if r.chance(0.5) { v(1.0, 0.9) } else { gv_plain(r) };
    let depth = r.n(12) as i64;
    let info = format!("single goal {}! {} {} depth {} with {:?}", g.src(), tv.f, tv.c, depth, what);
    set_input(&info);
    set_what(&info);
    let ok = guarded(|| {
        let m = nar.mem.read();
        GS::addEntry(&nar.procNar.goalSystem, &m, 0, Arc::new(sentence(&g, P::G, Some(tv), &[7])), None, depth);
        let em = nar.procNar.evidenceMem.read();
        GS::sampleAndInference(&nar.procNar.goalSystem, &m, 3, &em, &mut rand::thread_rng());
    });
    if ok.is_none() {
        return;
    }
    tick();
    let know: Vec<S> = knowledge(&nar).into_iter().map(|k| k.0).collect();
    let held = goals(&nar);
    let want = derive(&g, tv, &[7].into_iter().collect(), depth, &know);
    for w in &want {
        // an operation goal with the same evidence counts once
        if !held.iter().any(|h| fits(w, h)) {
            viol("missing", format!("{} | conclusion {:?} is missing, held are {:?}", info, w, held.iter().map(txt).collect::<Vec<_>>()));
            return;
        }
        ev(("single", &w.t, (w.v.c * 50.0) as i64, depth));
    }
    cnt("single goals with all conclusions", 1);
    cnt("conclusions of single goals", want.len() as u64);
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// goals fade when they happen
fn satisfaction(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.procNar.cfg__resourceGoalDeriverPrio = 0.0;
    nar.procNar.cfg__perceptionSamplesPerStep = 0;
    nar.procNar.cfgEnBabbling = false;
    let en = r.chance(0.8);
    nar.procNar.goalSystem.write().cfg__enGoalSatisfaction = en;
    let terms: Vec<R> = vec![
        nm("a"),
        nm("b"),
        nm("A"),
        inh(nm("a"), nm("b")),
        inh(nm("b"), nm("a")),
        st(Cop::Sim, nm("a"), nm("b")),
        inh(R::I("x".into()), nm("b")),
        inh(nm("a"), R::SInt(vec![nm("b")])),
        R::Seq(vec![nm("a"), nm("b")]),
        R::Seq(vec![nm("b"), nm("a")]),
        op("^o", vec![selfr()]),
        op("^o", vec![selfr(), nm("k")]),
    ];
    let mut hist: Vec<String> = vec![];
    let mut ids = 100;
    for _ in 0..10 {
        for _ in 0..r.n(4) {
            let t = r.pick(&terms).clone();
            ids += 1;
            hist.push(format!("{}!", t.src()));
            let evi: Option<Arc<RwLock<Sentence>>> = if r.chance(0.5) { Some(Arc::new(RwLock::new(sentence_cnt(&st(Cop::Pred, t.clone(), nm("z")), 1, 1, None, &[ids])))) } else { None };
            let m = nar.mem.read();
            // too weak to be decided for
            GS::addEntry(&nar.procNar.goalSystem, &m, nar.procNar.t, Arc::new(sentence(&t, P::G, Some(v(1.0, 0.05)), &[ids])), evi, r.n(9) as i64);
        }
        let n_ev = r.n(3);
        for _ in 0..n_ev {
            let e = r.pick(&terms).clone();
            hist.push(format!("{}.", e.src()));
            event(&mut nar, &e);
        }
        let newest = trace_of(&nar.procNar).last().map(|x| x.0.clone());
        let info = format!("satisfaction {} history {:?}", en, hist);
        set_input(&info);
        set_what(&info);
        let old = goals(&nar);
        if guarded(|| step0(&mut nar)).is_none() {
            return;
        }
        tick();
        let new = goals(&nar);
        for o in &old {
            let hit = en && Some(&o.s.t) == newest.as_ref();
            let want = if hit { 0.0 } else { o.des };
            match new.iter().find(|n| n.ptr == o.ptr) {
                Some(n) if n.des == want && n.depth == o.depth && n.ids == o.ids => {
                    if hit {
                        cnt(if o.des > 0.0 { "goals satisfied" } else { "satisfied goals met again" }, 1);
                        ev(("sat", &o.s.t, o.depth, old.len()));
                    } else {
                        cnt("goals not affected", 1);
                    }
                }
                n => {
                    viol("satisfaction", format!("{} | newest event {:?}: goal {} became {}, desirability should be {}", info, newest.map(|x| x.src()), txt(o), n.map(txt).unwrap_or("nothing".into()), want));
                    return;
                }
            }
        }
        if new.len() != old.len() {
            viol("satisfaction", format!("{} | {} goals became {}", info, old.len(), new.len()));
            return;
        }
        if r.chance(0.5) {
            if guarded(|| step1(&mut nar)).is_none() {
                return;
            }
        }
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// a goal which was forgotten can be derived again
fn again(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    let g = nm("g");
    let n = 1 + r.n(6);
    for i in 0..n {
        let s = if r.chance(0.5) { nm(&format!("a{}", i)) } else { R::Seq(vec![nm(&format!("a{}", i)), op("^o", vec![selfr()])]) };
        // weak, so that it is forgotten first
        let s = sentence_cnt(&st(Cop::Pred, s, g.clone()), 1, 4 + i as i64, None, &[100 + i as i64]);
        mem_add_evidence(Arc::clone(&nar.procNar.evidenceMem), &s, 100, 0, &mut nar.procNar.rng);
    }
    let know: Vec<S> = knowledge(&nar).into_iter().map(|k| k.0).collect();
    let tv = v(1.0, 0.95);
    let rounds = 1 + r.n(3);
    let want = derive(&g, tv, &[7].into_iter().collect(), 0, &know);
    {
        let m = nar.mem.read();
        GS::addEntry(&nar.procNar.goalSystem, &m, 3, Arc::new(sentence(&g, P::G, Some(tv), &[7])), None, 0);
    }
    let cap = nar.procNar.goalSystem.read().nMaxEntries as usize;
    let mut nf = 0;
    for round in 0..=rounds {
        let info = format!("goal g with {} ways to reach it, forgotten {} times", n, round);
        set_input(&info);
        set_what(&info);
        let ok = guarded(|| {
            let m = nar.mem.read();
            let em = nar.procNar.evidenceMem.read();
            for _ in 0..60 {
                GS::sampleAndInference(&nar.procNar.goalSystem, &m, 3, &em, &mut rand::thread_rng());
                tick();
                let held = goals(&nar);
                if want.iter().all(|w| held.iter().any(|h| fits(w, h))) {
                    break;
                }
            }
        });
        if ok.is_none() {
            return;
        }
        let held = goals(&nar);
        for w in &want {
            if !held.iter().any(|h| fits(w, h)) {
                viol("missing", format!("{} | conclusion {:?} is missing after 60 samples, held are {:?}", info, w, held.iter().map(txt).collect::<Vec<_>>()));
                return;
            }
            if held.iter().filter(|h| fits(w, h)).count() > know.iter().filter(|k| matches!(&k.t, R::St(_, a, _) if **a == w.t)).count().max(1) {
                viol("twice", format!("{} | {:?} is held several times", info, w));
                return;
            }
        }
        cnt(if round == 0 { "goals derived once" } else { "goals derived again after they were forgotten" }, want.len() as u64);
        ev(("again", n, round, nf));
        // strong goals of another depth replace the derived ones
        let m = nar.mem.read();
        for _ in 0..cap {
            nf += 1;
            GS::addEntry(&nar.procNar.goalSystem, &m, 3, Arc::new(sentence(&nm(&format!("f{}", nf)), P::G, Some(v(1.0, 0.9)), &[1000 + nf])), None, 6);
        }
        if guarded(|| GS::limitMemory(&nar.procNar.goalSystem, &m, 3)).is_none() {
            return;
        }
        let held = goals(&nar);
        if !held.iter().any(|h| h.s.t == g) || want.iter().any(|w| held.iter().any(|h| fits(w, h))) {
            // other checks judge what is forgotten
            cnt("not forgotten as expected", 1);
            break;
        }
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// the same goal is held once per evidence
fn duplicates(r: &mut Rng) {
    let mut nar = createNar();
    let terms = [nm("a"), inh(nm("a"), nm("b")), op("^o", vec![selfr()]), R::Seq(vec![nm("a"), op("^o", vec![selfr()])])];
    let mut seen: Vec<(R, Vec<i64>)> = vec![];
    let len = if r.chance(0.5) { 1 + r.n(4) } else { 1 + r.n(100) };
    let base: Vec<i64> = (0..len).map(|i| 10 + 3 * i as i64).collect();
    for _ in 0..6 {
        let t = r.pick(&terms).clone();
        let mut ids = base.clone();
        if r.chance(0.6) {
            // a single other input
            let at = r.n(len);
            ids[at] += 1;
        }
        if r.chance(0.2) {
            ids.pop();
            ids.push(5000);
        }
        let info = format!("{}! {:?} after {:?}", t.src(), ids, seen.iter().map(|s| format!("{}! {:?}", s.0.src(), s.1)).collect::<Vec<_>>());
        set_input(&info);
        set_what(&info);
        let m = nar.mem.read();
        if guarded(|| GS::addEntry(&nar.procNar.goalSystem, &m, 0, Arc::new(sentence(&t, P::G, Some(v(1.0, 0.9)), &ids)), None, r.n(3) as i64)).is_none() {
            return;
        }
        tick();
        let known = seen.contains(&(t.clone(), ids.clone()));
        if !known {
            seen.push((t.clone(), ids.clone()));
        }
        let held = goals(&nar);
        let c = held.iter().filter(|h| h.s.t == t && h.s.ids == ids).count();
        if c != 1 || held.len() != seen.len() {
            viol(if c == 1 || c == 0 { "missing" } else { "twice" }, format!("{} | this goal is held {} times, {} goals are held instead of {}", info, c, held.len(), seen.len()));
            return;
        }
        cnt(if known { "goals told again" } else { "goals with other evidence" }, 1);
        ev(("dup", &t, len, known));
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// the rule itself: a goal and knowledge, related or not
fn rule(r: &mut Rng) {
    let prop = |x: &str| R::SInt(vec![nm(x)]);
    let names: Vec<R> = vec![nm("a"), nm("b"), inh(nm("a"), nm("b")), inh(nm("b"), nm("a")), st(Cop::Sim, nm("a"), nm("b")), inh(nm("s"), prop("p")), inh(R::I("x".into()), prop("p")), op("^o", vec![selfr()]), R::Seq(vec![nm("a"), nm("b")]), R::Seq(vec![nm("a"), op("^o", vec![selfr()])])];
    for _ in 0..200 {
        let g = r.pick(&names).clone();
        let s = if r.chance(0.1) { g.clone() } else { r.pick(&names).clone() };
        let p = if r.chance(0.4) { g.clone() } else { r.pick(&names).clone() };
        let c = *r.pick(&[Cop::Pred, Cop::Pred, Cop::Pred, Cop::Impl, Cop::Inh, Cop::Equiv]);
        let k = if r.chance(0.1) { p.clone() } else { st(c, s.clone(), p.clone()) };
        let n = 1 + r.n(20) as i64;
        let m = r.n(n as usize + 1) as i64;
        let gi: Vec<i64> = (0..1 + r.n(3)).map(|i| 10 * i as i64 + r.n(3) as i64).collect();
        let ki: Vec<i64> = (0..1 + r.n(3)).map(|i| 10 * i as i64 + if r.chance(0.8) { 3 + r.n(6) as i64 } else { r.n(3) as i64 }).collect();
        let tv = gv_plain(r);
        let info = format!("{}! {} {} {:?} with {} {}/{} {:?}", g.src(), tv.f, tv.c, gi, k.src(), m, n, ki);
        set_input(&info);
        let goal = sentence(&g, P::G, Some(tv), &gi);
        let know = sentence_cnt(&k, m, n, None, &ki);
        let got = match guarded(|| nar20_1::NarInfProcedural::infGoalBelief(&goal, &know)) {
            Some(x) => x.map(|x| s_of(&x)),
            None => return,
        };
        tick();
        let kt = s_of(&know);
        let licensed = matches!(&kt.t, R::St(Cop::Pred, _, b) if **b == g) && !gi.iter().any(|i| ki.contains(i));
        match &got {
            None => {
                if licensed {
                    viol("rule", format!("{} | nothing follows", info));
                    return;
                }
                cnt("goals and knowledge from which nothing follows", 1);
            }
            Some(x) => {
                let ids: BTreeSet<i64> = x.ids.iter().cloned().collect();
                let want: BTreeSet<i64> = gi.iter().chain(ki.iter()).cloned().collect();
                if !licensed || x.t != s || x.p != P::G || !x.v.unwrap().near(&ded_goal(tv, kt.v.unwrap())) || ids != want {
                    viol("rule", format!("{} | {} follows, licensed {}", info, x.txt(), licensed));
                    return;
                }
                cnt("goals derived by the rule", 1);
                ev(("rule", &k, (tv.c * 20.0) as i64));
            }
        }
    }
}

fn main() {
    let cfg = init("C20", 9.0, 150.0, "one evaluation per derived goal compared with the reference closure of its possible parents, per conclusion of a known sampled goal, per satisfied goal; distinct by term, desire, depth and number of inputs");
    assume("stored temporal knowledge is not changed while goals are derived; which goal is sampled is random and not judged");
    let dl = cfg.deadline();
    par(&cfg, 6, 20, |_i, r| {
        until(dl, || match r.n(5) {
            0 | 1 => derivation(r),
            2 if r.chance(0.1) => rule(r),
            2 if r.chance(0.25) => again(r),
            2 if r.chance(0.3) => duplicates(r),
            2 => single(r),
            _ => satisfaction(r),
        });
    });
    sample(get_input());
    finish();
}
