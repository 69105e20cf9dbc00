//! C25: temporal knowledge can be told, found and asked for
use nar20_1::Nar::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Arc;
use vh::rules::P;
use vh::sys::*;
use vh::*;

fn link(nar: &Nar) {
    nar.mem.read().shared.write().procMem = Arc::clone(&nar.procNar.evidenceMem);
}

fn parts(t: &R) -> Option<(R, R)> {
    match t {
        R::St(Cop::Pred, a, b) => {
            let c = match &**a {
                R::Seq(v) => v[0].clone(),
                x => x.clone(),
            };
            Some((c, (**b).clone()))
        }
        _ => None,
    }
}
/// concepts under which it is kept
fn keys(t: &R) -> Vec<R> {
    let (c, p) = parts(t).unwrap();
    let mut v = c.usubs();
    v.extend(p.usubs());
    v.sort();
    v.dedup();
    v
}

fn gen(r: &mut Rng, g: &G) -> R {
    let mut el = |r: &mut Rng| match r.n(5) {
        0 => g.stmt(r, 2),
        1 => inh(g.leaf(r), R::SInt(vec![nm("q")])),
        2 => inh(R::Prod(vec![g.leaf(r), g.leaf(r)]), nm("on")),
        _ => g.leaf(r),
    };
    let mut ops = |r: &mut Rng| {
        let mut a = vec![selfr()];
        a.push(g.leaf(r));
        op(*r.pick(&["^go", "^pick"]), a)
    };
    let ante = match r.n(8) {
        0 => el(r),
        1 => g.term(r, 2),
        2 => R::Seq(vec![el(r), ops(r), el(r), ops(r)]),
        3 => R::Seq(vec![el(r), el(r)]),
        4 => R::Seq(vec![ops(r), el(r)]),
        5 => R::Seq(vec![el(r), el(r), ops(r)]),
        _ => R::Seq(vec![el(r), ops(r)]),
    };
    let cons = match r.n(5) {
        0 => g.term(r, 2),
        1 => R::Par(vec![el(r), el(r)]),
        _ => el(r),
    };
    st(Cop::Pred, ante, cons)
}

/// is it the told one with something replaced by a new variable?
fn variant(b: &R, t: &R) -> bool {
    let old = t.subs();
    b.usubs().iter().filter(|x| matches!(x, R::I(_)) && !old.contains(x)).any(|x| old.iter().any(|s| rsubst(b, &[(x.clone(), s.clone())]) == *t))
}

/// concept -> beliefs (term, pos/cnt, interval, ids), of both tables
type Img = BTreeMap<R, Vec<(R, String, Vec<i64>)>>;
fn image(nar: &Nar) -> Result<Img, String> {
    let mut m: Img = Default::default();
    for c in beliefs_of(&nar.procNar.evidenceMem.read()) {
        let f = |v: &Vec<S>| {
            let mut x: Vec<(R, String, Vec<i64>)> = v.iter().map(|s| (s.t.clone(), format!("{:?} {:?} {:?}", s.cnt, s.dt, s.p.s()), s.sorted_ids())).collect();
            x.sort();
            x
        };
        let (a, b) = (f(&c.by_exp), f(&c.by_use));
        if a != b {
            return Err(format!("tables of {} differ: {:?} and {:?}", c.name.src(), a, b));
        }
        m.insert(c.name.clone(), a);
    }
    Ok(m)
}

fn session(r: &mut Rng) {
    let mut nar = createNar();
    late(&mut nar, r);
    nar.cfgVerbosityInput = 0;
    nar.cfg__nConceptBeliefs = 400;
    nar.procNar.cfgEnBabbling = false;
    nar.procNar.cfg__resourceExpectedTime = 0.002;
    nar.procNar.cfg__enAnticipation = false;
    link(&nar);
    let log = listen(&nar);
    let mut g = G::new(&["a", "b", "c", "d", "e", "f", "tim"]);
    g.parens = 2;
    g.pleaf = 0.5;
    g.pvar = *r.pick(&[0.0, 0.0, 0.25]);
    g.writable = true;
    let mut hist: Vec<String> = vec![];
    let mut told: Vec<(R, i64)> = vec![];
    let mut asked: Vec<R> = vec![];
    let mut other: Vec<R> = vec![];
    let n = 1 + r.n(14);
    let learn = r.chance(0.3);
    if learn {
        let l = op_log();
        add_op(&mut nar.procNar, "^go", false, 2, &l);
        nar.procNar.cfgDescnThreshold = 2.0;
    }
    for _ in 0..n {
        let k = r.n(12);
        let before = image(&nar);
        match k {
            0..=6 => {
                let t = if !told.is_empty() && r.chance(0.15) { r.pick(&told).0.clone() } else { gen(r, &g) };
                let id = next_id(&nar.mem);
                let as_text = t.writable() && t.parens() <= 3 && r.chance(0.5);
                hist.push(format!("{}.", t.src()));
                set_input(&hist.join(" "));
                set_what(&hist.join(" "));
                let bel = mem_key(&nar.mem);
                let nt = tasks(&nar.mem).len();
                let ok = guarded(|| {
                    if as_text {
                        let tail = *r.pick(&["", "", " {0.3 0.2}", " {1.0 0.99}"]);
                        inputN(&mut nar, &format!("{}.{}", t.src(), tail))
                    } else {
                        inputT2(&mut nar, &t.t(), P::J.e(), &gv(r).t(), false);
                        true
                    }
                });
                if ok.is_none() {
                    return;
                }
                if ok == Some(false) {
                    viol("told", format!("{} | was not accepted", hist.join(" ")));
                    return;
                }
                if mem_key(&nar.mem) != bel || tasks(&nar.mem).len() != nt {
                    viol("told", format!("{} | got into the declarative memory", hist.join(" ")));
                    return;
                }
                told.push((t, id));
                cnt("temporal judgements told", 1);
            }
            7 => {
                // no effect on temporal knowledge
                let t = gen(r, &g);
                hist.push(format!("{}!", t.src()));
                set_input(&hist.join(" "));
                if guarded(|| inputT2(&mut nar, &t.t(), P::G.e(), &v(1.0, 0.9).t(), false)).is_none() {
                    return;
                }
                if image(&nar) != before {
                    viol("told", format!("{} | the goal changed temporal knowledge", hist.join(" ")));
                    return;
                }
            }
            8 => {
                let t = match r.n(4) {
                    0 => g.leaf(r),
                    1 => inh(g.leaf(r), nm("f")),
                    _ => g.stmt(r, 2),
                };
                if !matches!(t, R::St(Cop::Pred, _, _)) {
                    hist.push(format!("{}.", t.src()));
                    set_input(&hist.join(" "));
                    if guarded(|| inputT2(&mut nar, &t.t(), P::J.e(), &v(1.0, 0.9).t(), false)).is_none() {
                        return;
                    }
                }
            }
            _ => {
                // questions
                let base = if !told.is_empty() && r.chance(0.8) { r.pick(&told).0.clone() } else { gen(r, &g) };
                let q = match r.n(8) {
                    0 => base,
                    1 => g.leaf(r),
                    2 => match &base {
                        R::St(_, a, b) => st(*r.pick(&[Cop::Inh, Cop::Impl]), (**a).clone(), (**b).clone()),
                        x => x.clone(),
                    },
                    3 => match &base {
                        R::St(c, a, _) => R::St(*c, a.clone(), Box::new(R::Q("y".into()))),
                        x => x.clone(),
                    },
                    4 => match &base {
                        R::St(c, _, b) => R::St(*c, Box::new(R::Q("y".into())), b.clone()),
                        x => x.clone(),
                    },
                    _ => g.abstr(r, &base),
                };
                if asked.contains(&q) || other.contains(&q) {
                    continue;
                }
                hist.push(format!("{}?", q.src()));
                set_input(&hist.join(" "));
                if guarded(|| inputT2(&mut nar, &q.t(), P::Q.e(), &v(1.0, 0.9).t(), false)).is_none() {
                    return;
                }
                if image(&nar) != before {
                    viol("told", format!("{} | the question changed temporal knowledge", hist.join(" ")));
                    return;
                }
                if matches!(q, R::St(Cop::Pred, _, _)) {
                    asked.push(q);
                } else {
                    other.push(q);
                }
            }
        }
        if r.chance(0.2) {
            for _ in 0..1 + r.n(5) {
                if guarded(|| cycle(&mut nar)).is_none() {
                    return;
                }
            }
            drain(&nar.mem);
        }
    }
    tick();
    // exact content, variants with a new variable are the matter of C22
    let info = hist.join(" ");
    let im = match image(&nar) {
        Ok(i) => i,
        Err(e) => {
            viol("told", format!("{} | {}", info, e));
            return;
        }
    };
    let mut want: Img = Default::default();
    for (t, id) in &told {
        let b = (t.clone(), format!("{:?} {:?} {:?}", Some((10i64, 10i64)), None::<i64>, "."), vec![*id]);
        for k in keys(t) {
            want.entry(k).or_default().push(b.clone());
        }
    }
    for v in want.values_mut() {
        v.sort();
    }
    let tt: Vec<&R> = told.iter().map(|x| &x.0).collect();
    let mut got: Img = Default::default();
    for (k, v) in &im {
        let x: Vec<(R, String, Vec<i64>)> = v.iter().filter(|b| tt.contains(&&b.0)).cloned().collect();
        if !x.is_empty() {
            got.insert(k.clone(), x);
        }
        for b in v {
            if !tt.contains(&&b.0) {
                // must be a variant
                if !told.iter().any(|(t, id)| b.2 == vec![*id] && variant(&b.0, t)) {
                    viol("told", format!("{} | holds {} {:?} which was not told", info, b.0.src(), b));
                    return;
                }
                if !keys(&b.0).contains(k) {
                    viol("told", format!("{} | {} is kept under {}", info, b.0.src(), k.src()));
                    return;
                }
            }
        }
    }
    if got != want {
        let k = got.keys().chain(want.keys()).find(|k| got.get(*k) != want.get(*k)).unwrap().clone();
        viol("told", format!("{} | under {} is {:?}, should be {:?}", info, k.src(), got.get(&k), want.get(&k)));
        return;
    }
    cnt("places of temporal knowledge compared", want.values().map(|v| v.len() as u64).sum());
    for (t, _) in &told {
        ev(("told", t));
    }
    // learned knowledge
    if learn {
        let goo = op("^go", vec![selfr(), nm("a")]);
        let seq = [nm("a"), goo, nm("b")];
        let mut rounds = 0;
        while rounds < 12 {
            rounds += 1;
            for e in &seq {
                event(&mut nar, e);
                if guarded(|| {
                    step0(&mut nar);
                    step1(&mut nar);
                })
                .is_none()
                {
                    return;
                }
            }
        }
        drain_store(&nar.procNar, nar.procNar.t);
        tick();
        let q = st(Cop::Pred, R::Seq(vec![nm("a"), R::Q("o".into())]), nm("b"));
        let q2 = st(Cop::Pred, R::Seq(vec![R::Q("x".into()), seq[1].clone()]), R::Q("y".into()));
        for q in [q, q2] {
            if !asked.contains(&q) && r.chance(0.7) {
                hist.push(format!("(learning) {}?", q.src()));
                inputT2(&mut nar, &q.t(), P::Q.e(), &v(1.0, 0.9).t(), false);
                asked.push(q);
            }
        }
    }
    let info = hist.join(" ");
    set_input(&info);
    set_what(&info);
    // what has to be answered
    let im2: Vec<CB> = beliefs_of(&nar.procNar.evidenceMem.read());
    let mut want: Vec<Option<(f64, S)>> = vec![None; asked.len()];
    for (i, q) in asked.iter().enumerate() {
        for c in im2.iter().filter(|c| !c.name.is_var() && q.usubs().contains(&c.name)) {
            for b in c.by_exp.iter() {
                if runify(q, &b.t).is_some() {
                    let e = exp(b.v.unwrap());
                    if want[i].as_ref().map(|x| e > x.0).unwrap_or(true) {
                        want[i] = Some((e, b.clone()));
                    }
                }
            }
        }
    }
    let best = |q: &R| log.lock().unwrap().iter().filter(|(x, _)| x == q).map(|(_, a)| exp(a.v.unwrap_or(v(0.0, 0.99)))).fold(-1.0f64, f64::max);
    let total = asked.len() + other.len();
    let max = 60 * total + 10;
    let mut done = want.iter().all(|w| w.is_none());
    let extra = 5 * total;
    let mut n = 0;
    while n < max {
        n += 1;
        if guarded(|| cycle(&mut nar)).is_none() {
            return;
        }
        tick();
        done = asked.iter().zip(want.iter()).all(|(q, w)| w.as_ref().map(|w| best(q) >= w.0 - 1e-12).unwrap_or(true));
        if done && n > extra {
            break;
        }
    }
    for (q, w) in asked.iter().zip(want.iter()) {
        match w {
            Some(w) => {
                ev(("asked", q, &w.1.t));
                cnt("temporal questions which can be answered", 1);
                if w.1.dt.is_some() {
                    cnt("temporal questions answered by learned knowledge", 1);
                }
                if !done && best(q) < w.0 - 1e-12 {
                    viol("not-answered", format!("{} | {}? isn't answered by {} within {} cycles (best reported expectation {})", info, q.src(), w.1.txt(), n, best(q)));
                }
            }
            None => cnt("temporal questions without match", 1),
        }
    }
    cnt("other questions", other.len() as u64);
    // what was answered
    for (q, a) in log.lock().unwrap().iter() {
        cnt("answers checked", 1);
        let temporal = matches!(q, R::St(Cop::Pred, _, _));
        if !asked.contains(q) && !other.contains(q) {
            viol("answer", format!("{} | answer {} to {} which was not asked", info, a.txt(), q.src()));
        } else if runify(q, &a.t).is_none() || a.p != P::J {
            viol("answer", format!("{} | answer {} does not match {}", info, a.txt(), q.src()));
        } else if temporal && !im2.iter().any(|c| c.by_exp.iter().any(|b| b.t == a.t && (b.dt.is_some() || (b.cnt == a.cnt && b.sorted_ids() == a.sorted_ids())))) {
            viol("answer", format!("{} | answer {} to {} is not temporal knowledge held", info, a.txt(), q.src()));
        } else if !temporal && matches!(a.t, R::St(Cop::Pred, _, _)) && told.iter().any(|(_, id)| a.ids == vec![*id]) {
            viol("answer", format!("{} | the non-temporal question {} was answered by temporal knowledge {}", info, q.src(), a.txt()));
        }
    }
    if n_viol() == 0 && r.chance(0.01) {
        sample(info);
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// the program in interactive mode links both memories
fn program(r: &mut Rng) {
    let a = *r.pick(&["a", "b1", "<k --> [l]>"]);
    let o = *r.pick(&["^go", "^pick"]);
    let t = format!("<({},<{{({{SELF}}*x)}} --> {}>) =/> {}>", a, o, "g7");
    let q = match r.n(3) {
        0 => t.clone(),
        1 => format!("<({},?1) =/> g7>", a),
        _ => "<?1 =/> g7>".to_string(),
    };
    let text = format!("{}.\n{}?\n!s150\n!QQ\n", t, q);
    let info = format!("program, input {:?}", text);
    set_input(&info);
    set_what(&info);
    let exe = std::env::current_exe().unwrap().with_file_name("nar20_main");
    let mut ch = std::process::Command::new(exe).arg("it").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let _ = ch.stdin.take().unwrap().write_all(text.as_bytes());
    let out = ch.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
    tick();
    let sq = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let n = out.lines().filter(|l| l.contains("answer") && sq(l).contains(&sq(&t)) && sq(l).contains(&format!("{}?", sq(&q)))).count();
    if n != 1 {
        viol("program", format!("{} | the answer was reported {} times, output {:?}", info, n, out));
        return;
    }
    cnt("programs", 1);
    ev(("program", text));
}

fn main() {
    let cfg = init("C25", 11.0, 150.0, "one evaluation per told temporal judgement whose places in temporal memory were compared exactly, per temporal question with held matching knowledge which was answered at least as well, per run of the program; distinct by term and question");
    assume("question sampling is random: a question counts as not served after 60 times as many cycles as there are open questions");
    assume("variants with a new variable are only required to be an abstraction of something told here, see C22");
    let dl = cfg.deadline();
    par(&cfg, 6, 25, |i, r| {
        let mut n = 0;
        until(dl, || {
            n += 1;
            if (i + n) % 20 == 0 {
                program(r)
            } else {
                session(r)
            }
        });
    });
    sample(get_input());
    finish();
}
