//! forgetting drops the least valuable first
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem;
use nar20_1::NarMem;
use nar20_1::NarSentence::Usage;
use nar20_1::NarWorkingCycle::Task;
use parking_lot::RwLock;
use std::collections::BTreeMap;
use std::sync::Arc;
use vh::rules::*;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C32", 12.0, 180.0, "belief tables, concept memories, pending judgements and goal sets with random content, value and capacity (also with nothing to drop and with equal values) are recorded before a cleanup; afterwards the number kept, the values of kept against dropped (recomputed independently) and the unchangedness of the kept are judged; distinct by sizes, capacity and values");
    par(&cfg, 8, 32, |i, r| {
        until(cfg.deadline(), || match i {
            0 if r.chance(0.3) => used(r),
            0 | 1 => tables(r),
            2 | 3 => concepts(r),
            4 | 5 => pending(r),
            _ => goals(r),
        })
    });
    finish();
}

fn usefulness(last: i64, count: i64, now: i64) -> f64 {
    let rec = if now > last { (now - last) as f64 } else { 0.0 };
    let u = count as f64 / (rec + 1.0);
    u / (u + 1.0)
}

/// kept and dropped values: exactly the capacity kept, none dropped is better than a kept one
fn judge(class: &str, kept: &[f64], dropped: &[f64], cap: usize, info: &dyn Fn() -> String) -> bool {
    let total = kept.len() + dropped.len();
    if kept.len() != total.min(cap) {
        viol(class, format!("{} of {} kept, capacity {} | {}", kept.len(), total, cap, info()));
        return false;
    }
    let lo = kept.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = dropped.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    if hi > lo + 1e-9 {
        viol(class, format!("dropped one with value {} but kept one with {} (capacity {}) | {}", hi, lo, cap, info()));
        return false;
    }
    if !dropped.is_empty() {
        cnt(&format!("{}: cleanups which dropped", class), 1);
    }
    true
}

/// what takes part in reasoning counts as used at that time, nothing else does
fn used(r: &mut Rng) {
    let mut nar = nar_with(64, 20);
    late(&mut nar, r);
    nar.cfgVerbosityInput = 0;
    let rx = detach(&nar.mem);
    let names = ["a", "b", "c", "d"];
    let mut hist: Vec<String> = vec![];
    let tell = |nar: &mut Nar, r: &mut Rng, hist: &mut Vec<String>| {
        let l = format!("<{} --> {}>.", r.pick(&names), r.pick(&names));
        hist.push(l.clone());
        inputN(nar, &l);
    };
    for _ in 0..2 + r.n(6) {
        tell(&mut nar, r, &mut hist);
    }
    type U = Arc<RwLock<Usage>>;
    let see = |u: &U| (u.read().useCount, u.read().lastUsed);
    // the usage record is shared between the copies of a judgement
    let mut know: BTreeMap<usize, ((i64, i64), U)> = BTreeMap::new();
    for _ in 0..10 + r.n(90) {
        if r.chance(0.35) {
            tell(&mut nar, r, &mut hist);
        }
        let held: Vec<U> = nar.mem.read().shared.read().judgementTasks.iter().map(|t| Arc::clone(&t.read().sentence.usage)).collect();
        for u in held {
            let x = see(&u);
            know.entry(Arc::as_ptr(&u) as usize).or_insert((x, u));
        }
        hist.push("!s1".into());
        set_input(&format!("{:?}", hist));
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        let now = nar.currentTime.load(std::sync::atomic::Ordering::SeqCst);
        let mut times: BTreeMap<usize, i64> = BTreeMap::new();
        while let Ok(m) = rx.try_recv() {
            for t in std::iter::once(&m.primary).chain(m.secondary.iter()) {
                *times.entry(Arc::as_ptr(&t.read().sentence.usage) as usize).or_insert(0) += 1;
            }
        }
        for (p, (old, u)) in know.iter_mut() {
            let x = see(u);
            let n = times.get(p).copied().unwrap_or(0);
            let ok = if n == 0 { x == *old } else { x.0 >= old.0 + 1 && x.0 <= old.0 + n && x.1 == now };
            if !ok {
                viol("usage", format!("{:?} | judgement took part {} times in the cycle at time {}, its usage (count, time) was {:?}, is {:?}", hist, n, now, old, x));
                return;
            }
            *old = x;
            if n > 0 {
                ev(("used", n, x.0));
                cnt("uses seen", n as u64);
            } else {
                cnt("judgements seen unused", 1);
            }
        }
    }
}

fn tables(r: &mut Rng) {
    let mut mem = NarMem::make();
    let cap = 1 + r.n(6);
    let n = 2 + r.n(25);
    let mut now = 0i64;
    let mut hist = format!("capacity {}: ", cap);
    let ties = r.chance(0.3);
    let scale = *r.pick(&[1i64, 1, 1, 60, 5000]);
    for k in 0..n {
        now += r.range(0, 20) * scale;
        // use of what is stored changes over time
        for c in mem.concepts.values() {
            for b in c.payload.beliefsByUsage.iter() {
                if r.chance(0.2) {
                    let b = b.read();
                    let mut u = b.usage.write();
                    u.lastUsed = r.range(0, now);
                    u.useCount += 1;
                }
            }
        }
        let t = match r.n(3) {
            0 => inh(nm("a"), nm(&format!("p{}", k))),
            1 => inh(nm(&format!("p{}", k)), nm("a")),
            _ => inh(R::Prod(vec![nm("a"), nm("b")]), nm(&format!("p{}", k))),
        };
        let tv = if ties { v(r.n(3) as f64 / 2.0, 0.5) } else { gv(r) };
        let mut s = sentence(&t, P::J, Some(tv), &[k as i64]);
        s.usage = Arc::new(RwLock::new(Usage { lastUsed: r.range(0, now + 3), useCount: r.range(0, 6) }));
        let news = s_of(&s);
        hist.push_str(&format!("{} {{{} {}}} used {:?} at {}; ", t.src(), tv.f, tv.c, news.used, now));
        set_input(&hist);
        let before: BTreeMap<R, CB> = beliefs_of(&mem).into_iter().map(|c| (c.name.clone(), c)).collect();
        if guarded(|| NarMem::storeInConcepts(&mut mem, &s, cap, now)).is_none() {
            return;
        }
        let after: BTreeMap<R, CB> = beliefs_of(&mem).into_iter().map(|c| (c.name.clone(), c)).collect();
        let subs = t.usubs();
        for (name, c) in &before {
            if !after.contains_key(name) {
                viol("table", format!("{} | concept {} vanished", hist, name.src()));
                return;
            }
            if !subs.contains(name) {
                let a = &after[name];
                if txts(&a.by_exp) != txts(&c.by_exp) || txts(&a.by_use) != txts(&c.by_use) {
                    viol("table", format!("{} | unrelated concept {} changed", hist, name.src()));
                    return;
                }
            }
        }
        for name in &subs {
            let a = match after.get(name) {
                Some(x) => x,
                None => {
                    viol("table", format!("{} | no concept {}", hist, name.src()));
                    return;
                }
            };
            for which in 0..2 {
                let mut all: Vec<S> = before.get(name).map(|c| if which == 0 { c.by_exp.clone() } else { c.by_use.clone() }).unwrap_or_default();
                all.push(news.clone());
                let tab = if which == 0 { &a.by_exp } else { &a.by_use };
                let value = |s: &S| if which == 0 { exp(s.v.unwrap()) } else { usefulness(s.used.0, s.used.1, now) };
                let (mut kept, mut dropped) = (vec![], vec![]);
                let mut rest: Vec<String> = tab.iter().map(|s| s.txt()).collect();
                for s in &all {
                    match rest.iter().position(|x| *x == s.txt()) {
                        Some(i) => {
                            rest.remove(i);
                            kept.push(value(s));
                        }
                        None => dropped.push(value(s)),
                    }
                }
                if !rest.is_empty() {
                    viol("table", format!("{} | concept {} holds {} which was not stored like this", hist, name.src(), rest[0]));
                    return;
                }
                if !judge(if which == 0 { "table by expectation" } else { "table by usage" }, &kept, &dropped, cap, &|| format!("{} concept {}", hist, name.src())) {
                    return;
                }
                ev((which, cap, all.len(), kept.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
            }
        }
    }
    sample(hist);
}

fn txts(v: &[S]) -> Vec<String> {
    let mut x: Vec<String> = v.iter().map(|s| s.txt()).collect();
    x.sort();
    x
}

fn concepts(r: &mut Rng) {
    let mut mem = NarMem::make();
    let n = 1 + r.n(14);
    let mut hist = String::new();
    let ties = r.chance(0.2);
    let counted = r.chance(0.3);
    for k in 0..n {
        let t = if r.chance(0.5) { nm(&format!("n{}", r.n(12))) } else { inh(nm(&format!("n{}", r.n(6))), nm(&format!("m{}", r.n(6)))) };
        let s = if counted {
            let c = r.range(1, 9);
            sentence_cnt(&t, r.range(0, c), c, None, &[k as i64])
        } else {
            let tv = if ties { v(r.n(3) as f64 / 2.0, 0.5) } else { gv(r) };
            sentence(&t, P::J, Some(tv), &[k as i64])
        };
        hist.push_str(&format!("{} ", s_of(&s).txt()));
        NarMem::storeInConcepts(&mut mem, &s, 20, 0);
    }
    // what is held changes afterwards by pooling, failed predictions and further observations
    if r.chance(0.5) {
        for k in 0..1 + r.n(6) {
            let all: Vec<CB> = beliefs_of(&mem);
            let c = r.pick(&all);
            if c.by_exp.is_empty() {
                continue;
            }
            let i = r.n(c.by_exp.len());
            let b = c.by_exp[i].clone();
            if counted {
                let pos = r.n(8) as i64;
                let cnt = pos + r.n(8) as i64;
                let (p0, c0) = b.cnt.unwrap();
                for l in [&mem.concepts[&c.name.t()].payload.beliefsByExp, &mem.concepts[&c.name.t()].payload.beliefsByUsage] {
                    for x in l {
                        let mut x = x.write();
                        if R::of(&x.term) == b.t && s_of(&x).ids == b.ids {
                            x.evi = Some(nar20_1::NarSentence::Evidence::CNT { pos: p0 + pos, cnt: c0 + cnt });
                        }
                    }
                }
                hist.push_str(&format!("{} later {}/{} ", b.txt(), p0 + pos, c0 + cnt));
            } else {
                let s = sentence(&b.t, P::J, Some(if ties { v(r.n(3) as f64 / 2.0, 0.5) } else { gv(r) }), &[100 + k as i64]);
                hist.push_str(&format!("pooled with {} ", s_of(&s).txt()));
                set_input(&hist);
                if guarded(|| nar20_1::NarWorkingCycle::memReviseBelief(&mut mem, &s)).is_none() {
                    return;
                }
            }
        }
        cnt("cleanups after changes", 1);
    }
    let before = beliefs_of(&mem);
    let cap = r.n(before.len() + 4);
    let hist = format!("{} cleaned up to {} of {}", hist, cap, before.len());
    set_input(&hist);
    if guarded(|| NarMem::limitMemory(&mut mem, cap)).is_none() {
        return;
    }
    let after: BTreeMap<R, CB> = beliefs_of(&mem).into_iter().map(|c| (c.name.clone(), c)).collect();
    let (mut kept, mut dropped) = (vec![], vec![]);
    for c in &before {
        let val = c.by_exp.iter().map(|s| exp(s.v.unwrap())).fold(0.0, f64::max);
        match after.get(&c.name) {
            Some(a) => {
                if txts(&a.by_exp) != txts(&c.by_exp) || txts(&a.by_use) != txts(&c.by_use) {
                    viol("concepts", format!("{} | kept concept {} changed", hist, c.name.src()));
                    return;
                }
                kept.push(val);
            }
            None => dropped.push(val),
        }
    }
    if after.len() != kept.len() {
        viol("concepts", format!("{} | new concept", hist));
        return;
    }
    if judge("concepts", &kept, &dropped, cap, &|| hist.clone()) {
        ev((cap, before.len(), kept.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    }
}

fn pending(r: &mut Rng) {
    let mut nar = createNar();
    late_aligned(&mut nar, r);
    let base = cycles_done(&nar.mem);
    let rx = detach(&nar.mem);
    let n = match r.n(3) {
        0 => r.n(31),
        1 => 28 + r.n(8),
        _ => 30 + r.n(60),
    };
    if r.chance(0.5) {
        for _ in 0..1 + r.n(2) {
            inputN(&mut nar, &format!("<n{} --> ?x>?", r.n(6)));
        }
    }
    let shared = Arc::clone(&nar.mem.read().shared);
    while cycles_done(&nar.mem) < base + 110 {
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
    }
    for k in 0..n {
        let t = match r.n(4) {
            0 => inh(nm(&format!("n{}", r.n(6))), nm(&format!("m{}", k))),
            1 => inh(R::Prod(vec![nm(&format!("n{}", r.n(6))), nm("z"), nm("y")]), nm(&format!("m{}", k))),
            2 => inh(inh(nm("z"), nm(&format!("n{}", r.n(6)))), inh(inh(nm("a"), nm("b")), nm(&format!("m{}", k)))),
            _ => nm(&format!("m{}", k)),
        };
        inputT(&mut nar, &t.t(), P::J.e(), &gv_plain(r).t());
    }
    while rx.try_recv().is_ok() {}
    let ties = r.chance(0.2);
    let held: Vec<Arc<RwLock<Task>>> = shared.read().judgementTasks.iter().cloned().collect();
    for t in &held {
        let mut t = t.write();
        if !ties {
            t.credit = match r.n(4) {
                0 => 0.0,
                1 => 10.0 * r.f(),
                _ => r.f(),
            };
            t.qaCredit = if r.chance(0.3) { 5.0 * r.f() } else { 0.0 };
            t.mulCredit = match r.n(6) {
                0 => 0.0001,
                1 => 0.5,
                _ => 1.0,
            };
            t.derivTime = base + r.range(-3000, 110);
        }
    }
    let before: Vec<String> = held.iter().map(|t| s_of(&t.read().sentence).txt()).collect();
    set_input(&format!("{} pending judgements {:?}", held.len(), held.iter().map(|t| (t.read().credit, t.read().qaCredit, t.read().mulCredit, t.read().derivTime)).collect::<Vec<_>>()));
    if guarded(|| cycle(&mut nar)).is_none() {
        return;
    }
    let now = cycles_done(&nar.mem);
    if now != base + 111 {
        viol("pending", format!("cycle counter {} after 111 cycles from {}", now, base));
        return;
    }
    let primary = rx.try_recv().ok().map(|m| m.primary);
    let g = shared.read();
    let value = |t: &Task| (0.2 * t.qaCredit + t.credit) * (-0.001 * (now - t.derivTime) as f64).exp() * t.mulCredit;
    let (mut kept, mut dropped, mut negl) = (vec![], vec![], 0);
    let mut kept_ids: Vec<(i64, R)> = vec![];
    for (i, t) in held.iter().enumerate() {
        if let Some(p) = &primary {
            if Arc::ptr_eq(p, t) {
                continue; // taken for work
            }
        }
        let val = value(&t.read());
        if g.judgementTasks.iter().any(|x| x.read().id == t.read().id) {
            if s_of(&t.read().sentence).txt() != before[i] {
                viol("pending", format!("{} became {}", before[i], s_of(&t.read().sentence).txt()));
                return;
            }
            kept.push(val);
            kept_ids.push((t.read().id, R::of(&t.read().sentence.term)));
        } else if val <= 0.001 * 1.000001 {
            negl += 1;
        } else {
            dropped.push(val);
        }
    }
    let info = || get_input();
    if kept.len() != g.judgementTasks.len() {
        viol("pending", format!("{} judgements pending, {} of them were pending before | {}", g.judgementTasks.len(), kept.len(), info()));
        return;
    }
    if let Some(x) = kept.iter().find(|x| **x < 0.001 * 0.999999) {
        // negligible ones may be dropped, they need not be
        cnt("negligible judgements kept", 1);
        let _ = x;
    }
    if !judge("pending", &kept, &dropped, 30, &info) {
        return;
    }
    // the lookup must show exactly the kept ones
    let by = g.judgementTasksByTerm.read();
    for (id, t) in &kept_ids {
        for s in t.usubs() {
            let ok = by.get(&s.t()).map(|l| l.iter().any(|x| x.read().id == *id)).unwrap_or(false);
            if !ok {
                viol("pending-lookup", format!("kept judgement {} is not found under {} | {}", t.src(), s.src(), info()));
                return;
            }
        }
    }
    for l in by.values() {
        for x in l {
            if !kept_ids.iter().any(|k| k.0 == x.read().id) {
                viol("pending-lookup", format!("dropped judgement is still found by term | {}", info()));
                return;
            }
        }
    }
    cnt("negligible judgements dropped", negl);
    ev((kept.len(), dropped.len(), negl, kept.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
}

fn goals(r: &mut Rng) {
    let mut nar = createNar();
    nar.cfgVerbosityInput = 0;
    let mem = Arc::clone(&nar.mem);
    // told as input
    let own = r.chance(0.3);
    let cap = if own { 20 } else { 1 + r.n(12) };
    let gs = if own { Arc::clone(&nar.procNar.goalSystem) } else { Arc::new(RwLock::new(NarGoalSystem::makeGoalSystem(cap as i64, 1 + r.n(8) as i64))) };
    let mut times: BTreeMap<i64, i64> = BTreeMap::new();
    let n = r.n(2 * cap + 8);
    let ties = r.chance(0.2);
    let mut hist = format!("capacity {}: ", cap);
    let t_now = r.range(0, 600);
    for k in 0..n {
        let t = match r.n(3) {
            0 => op(r.pick(&["^a", "^b"]), vec![selfr(), nm(&format!("k{}", r.n(5)))]),
            1 => R::Seq(vec![nm(&format!("e{}", r.n(5))), op("^a", vec![selfr()])]),
            _ => nm(&format!("g{}", r.n(8))),
        };
        let tv = if ties { v(1.0, 0.5) } else { gv(r) };
        let e = if r.chance(0.4) { Some(Arc::new(RwLock::new(sentence_cnt(&st(Cop::Pred, t.clone(), nm("g")), 3, 4, Some(1), &[1000 + k as i64])))) } else { None };
        let ct = if ties { 0 } else { r.range(0, t_now) };
        let depth = r.range(0, 9);
        hist.push_str(&format!("{}! {{{} {}}} at {} depth {}; ", t.src(), tv.f, tv.c, ct, depth));
        set_input(&hist);
        if own {
            nar.procNar.t = ct;
            times.insert(next_id(&nar.mem), ct);
            let tt = t.t();
            let tv2 = nar20_1::Tv::Tv { f: tv.f, c: tv.c };
            if guarded(|| nar20_1::Nar::inputT2(&mut nar, &tt, P::G.e(), &tv2, true)).is_none() {
                return;
            }
            continue;
        }
        times.insert(k as i64, ct);
        let s = sentence(&t, P::G, Some(tv), &[k as i64]);
        if guarded(|| NarGoalSystem::addEntry(&gs, &mem.read(), ct, Arc::new(s), e, depth)).is_none() {
            return;
        }
    }
    let m = mem.read();
    let held = NarGoalSystem::retEntries(&gs.read());
    for e in &held {
        if !ties && r.chance(0.5) {
            e.write().desirability = *r.pick(&[0.0f32, 0.25, 0.5, 1.0, -0.5]);
        }
    }
    let show = |e: &NarGoalSystem::Entry| format!("{} depth {} created {} desirability {} evidence {:?}", s_of(&e.sentence).txt(), e.depth, e.createTime, e.desirability, e.evidence.as_ref().map(|b| s_of(&b.read()).txt()));
    let before: Vec<(String, f64)> = held
        .iter()
        .map(|e| {
            let e = e.read();
            let val = exp(s_of(&e.sentence).v.unwrap()) * (e.desirability as f64).abs() * (-0.01 * (t_now - times.get(&e.sentence.stamp.ids[0]).copied().unwrap_or(e.createTime)) as f64).exp();
            (show(&e), val)
        })
        .collect();
    let hist = format!("{:?} capacity {} at {}", before, cap, t_now);
    set_input(&hist);
    if guarded(|| NarGoalSystem::limitMemory(&gs, &m, t_now)).is_none() {
        return;
    }
    let after: Vec<String> = NarGoalSystem::retEntries(&gs.read()).iter().map(|e| show(&e.read())).collect();
    let mut rest = after.clone();
    let (mut kept, mut dropped) = (vec![], vec![]);
    for (s, val) in &before {
        match rest.iter().position(|x| x == s) {
            Some(i) => {
                rest.remove(i);
                kept.push(*val);
            }
            None => dropped.push(*val),
        }
    }
    if !rest.is_empty() {
        viol("goals", format!("goal {} was not held before | {}", rest[0], hist));
        return;
    }
    if judge("goals", &kept, &dropped, cap, &|| hist.clone()) {
        ev((cap, before.len(), kept.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    }
    // and nothing is lost for later: each kept goal can still be found
    for e in NarGoalSystem::retEntries(&gs.read()) {
        let t = e.read().sentence.term.clone();
        if NarGoalSystem::query(&gs.read(), &t).is_none() {
            viol("goals", format!("kept goal {} can not be found | {}", R::of(&t).src(), hist));
            return;
        }
    }
}
