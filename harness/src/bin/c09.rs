//! repeated observation adds up
#![allow(non_snake_case)]
use nar20_1::Nar::*;
use vh::rules::P;
use vh::sys::*;
use vh::*;

fn main() {
    let cfg = init("C09", 12.0, 180.0, "histories of 2..100 tellings of a few statements in random order with random truth values, the whole belief memory is compared with the pooled evidence after each telling; and races, where the background derivation concludes the same statement at the moment it is told; non-trivial: at least one statement told twice; distinct by history (races: by timing and result)");
    let n = 8;
    par(&cfg, n, 9, |i, r| {
        until(cfg.deadline(), || {
            if i < 4 {
                history(r)
            } else {
                race(r)
            }
        });
    });
    finish();
}

fn history(r: &mut Rng) {
    let mut g = G::new(&["a", "b", "c", "d"]);
    g.pvar = if r.chance(0.3) { 0.2 } else { 0.0 };
    // up to as many statements as a concept can hold
    let crowded = r.chance(0.25);
    let nt = if crowded { 12 + r.n(9) } else { 1 + r.n(5) };
    let mut terms: Vec<R> = vec![];
    while terms.len() < nt {
        let d = 1 + r.n(4);
        let mut t = g.term(r, if crowded { 1 } else { d });
        if crowded {
            let p = nm(&format!("p{}", terms.len()));
            t = match r.n(4) {
                0 => inh(p, nm("s")),
                1 => inh(nm("s"), R::Prod(vec![p, t])),
                _ => inh(nm("s"), p),
            };
        }
        // similar statements must be told apart
        let t = if !terms.is_empty() && !crowded && r.chance(0.3) { g.mutate(r, &terms[0]) } else { t };
        if matches!(t, R::St(Cop::Pred, _, _)) || !t.writable() || t.complexity() > 60 || terms.contains(&t) {
            continue;
        }
        terms.push(t);
    }
    let mut nar = createNar();
    late(&mut nar, r);
    let m = match r.n(4) {
        0 => 2 + r.n(3),
        1 => 40 + r.n(60),
        _ if crowded => 30 + r.n(40),
        _ => 2 + r.n(20),
    };
    let mut told: Vec<(R, V, Vec<i64>)> = vec![];
    let mut acc: Vec<(f64, f64)> = vec![];
    let mut txt = String::new();
    let mut rep = false;
    let sure = r.chance(0.25);
    for _ in 0..m {
        let t = r.pick(&terms).clone();
        let c = if sure && r.chance(0.6) { *r.pick(&[0.99, 0.995, 0.998, 0.999, 0.9995, 0.9999]) } else { r.range(1, 99) as f64 / 100.0 };
        let tv = v(r.range(0, 20) as f64 / 20.0, c);
        let id = next_id(&nar.mem);
        txt.push_str(&format!("{}. {{{} {}}} ", t.src(), tv.f, tv.c));
        set_input(&txt);
        let ok = match r.n(3) {
            0 => guarded(|| {
                inputT(&mut nar, &t.t(), P::J.e(), &tv.t());
            })
            .is_some(),
            _ => {
                let l = format!("{}. {{{} {}}}", t.src(), tv.f, tv.c);
                let res = guarded(|| inputN(&mut nar, &l));
                if res == Some(false) {
                    viol("rejected", format!("{} was rejected", l));
                }
                res == Some(true)
            }
        };
        if !ok {
            return;
        }
        let w = c2w(tv.c);
        match told.iter().position(|x| x.0 == t) {
            Some(i) => {
                rep = true;
                acc[i].0 += w * tv.f;
                acc[i].1 += w;
                told[i].1 = v(acc[i].0 / acc[i].1, w2c(acc[i].1));
                told[i].2.push(id);
            }
            None => {
                acc.push((w * tv.f, w));
                told.push((t.clone(), tv, vec![id]));
            }
        }
        if let Some(d) = diff_mem(&nar.mem, &told) {
            viol("pooling", format!("after telling {}: {}", txt, d));
            return;
        }
        // both the told and the pooled one are reasoned with
        let k = told.iter().find(|x| x.0 == t).unwrap();
        let mut all = k.2.clone();
        all.sort();
        let pend: Vec<S> = tasks(&nar.mem).into_iter().filter(|x| x.t == t).collect();
        for (val, ids) in [(tv, vec![id]), (k.1, all)] {
            if ids.len() <= 120 && !pend.iter().any(|x| x.sorted_ids() == ids && x.v.map_or(false, |y| y.near(&val))) {
                viol("not-pending", format!("after telling {}: {} {:?} with evidence {:?} is not pending", txt, t.src(), val, ids));
                return;
            }
        }
        cnt("told and pooled judgements pending", 1);
        if rep {
            ev(&txt);
        } else {
            ev_trivial();
        }
    }
    cnt("histories", 1);
    if crowded && told.len() > 15 {
        cnt("histories with more than 15 statements about the same subject", 1);
    }
    cnt("tellings", m as u64);
    sample(txt);
}

/// the reasoner concludes a statement while the user tells it
fn race(r: &mut Rng) {
    let tvs: Vec<V> = (0..3).map(|_| v(r.range(10, 20) as f64 / 20.0, r.range(50, 99) as f64 / 100.0)).collect();
    let (pre, target): (Vec<&str>, &str) = match r.n(5) {
        0 => (vec!["<a --> b>", "<b --> c>"], "<a --> c>"),
        1 => (vec!["<<a --> b> ==> <c --> d>>", "<a --> b>"], "<c --> d>"),
        2 => (vec!["<(a*b) --> c>"], "<a --> (c /1 b)>"),
        3 => (vec!["<a --> b>", "<a --> c>"], "<a --> (b&c)>"),
        _ => (vec!["<[a] <-> [b]>"], "<a <-> b>"),
    };
    let mut nar = createNar();
    late(&mut nar, r);
    let first = next_id(&nar.mem);
    for (i, p) in pre.iter().enumerate() {
        inputN(&mut nar, &format!("{}. {{{} {}}}", p, tvs[i].f, tvs[i].c));
    }
    let l = format!("{}. {{{} {}}}", target, tvs[2].f, tvs[2].c);
    let (tt, _, _, _) = nar20_1::NarseseParser::parseNarsese(&l).expect("reads");
    let tr = R::of(&tt);
    set_input(&format!("race of {:?} and telling {}", pre, l));
    let early = r.chance(0.3);
    let n = 1 + r.n(2);
    let d = std::time::Duration::from_micros(r.n(400) as u64);
    let id = next_id(&nar.mem);
    if guarded(|| {
        for _ in 0..n {
            cycle(&mut nar);
        }
        if !early {
            let t0 = std::time::Instant::now();
            while t0.elapsed() < d {
                std::hint::spin_loop();
            }
        }
        inputN(&mut nar, &l);
    })
    .is_none()
    {
        return;
    }
    drain(&nar.mem);
    let mut want: Vec<i64> = (first..=id).collect();
    want.sort();
    let mut derived = false;
    let bs = beliefs(&nar.mem);
    let mut seen: Vec<String> = vec![];
    for s in tr.usubs() {
        let c = bs.iter().find(|c| c.name == s);
        for which in 0..2 {
            let m: Vec<&S> = c.map(|c| if which == 0 { c.by_exp.iter() } else { c.by_use.iter() }.filter(|x| x.t == tr).collect()).unwrap_or_default();
            if m.iter().any(|x| x.ids.iter().any(|i| *i < id)) {
                derived = true;
            }
            seen.push(format!("{} {}: {:?}", s.src(), which, m.iter().map(|x| (x.sorted_ids(), x.v.map(|q| ((q.f * 1e9).round() / 1e9, (q.c * 1e9).round() / 1e9)))).collect::<Vec<_>>()));
            if m.len() != 1 {
                viol("race", format!("{} told while concluded from {:?}: concept {} holds {} such beliefs", l, pre, s.src(), m.len()));
                return;
            }
            if !m[0].ids.contains(&id) {
                viol("race", format!("{} told while concluded from {:?}: concept {} holds {} without the told evidence", l, pre, s.src(), m[0].txt()));
                return;
            }
            if derived && m[0].sorted_ids() != want {
                viol("race", format!("{} told while concluded from {:?}: concept {} holds {}, other concepts hold more evidence", l, pre, s.src(), m[0].txt()));
                return;
            }
        }
    }
    ev((seen, d.as_micros() as u64 / 20, n, target));
    cnt(if derived { "races with pooled conclusion" } else { "races without" }, 1);
}
