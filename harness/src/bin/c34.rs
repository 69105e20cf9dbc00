//! C34: the benchmarks and the built-in worlds report what really happened
use nar20_1::Nar::*;
use std::io::{BufRead, BufReader, Read};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vh::sys::*;
use vh::*;

/// records in which cycle answers came
struct At {
    shared: Arc<parking_lot::RwLock<nar20_1::NarWorkingCycle::DeclarativeShared>>,
    log: Arc<Mutex<Vec<i64>>>,
}
impl nar20_1::NarWorkingCycle::QHandler for At {
    fn answer(&mut self, _q: &nar20_1::Term::Term, _a: &nar20_1::NarSentence::Sentence) {
        let c = match self.shared.try_read_recursive() {
            Some(s) => s.cycleCounter.load(std::sync::atomic::Ordering::SeqCst),
            None => -1,
        };
        self.log.lock().unwrap().push(c);
    }
}

/// the question is answered in exactly the cycle which is reported
fn exact(r: &mut Rng) {
    let mut nar = createNar();
    nar.cfgVerbosityInput = 0;
    let rx = detach(&nar.mem);
    let log = Arc::new(Mutex::new(vec![]));
    let at = At { shared: Arc::clone(&nar.mem.read().shared), log: Arc::clone(&log) };
    nar.mem.read().globalQaHandlers.write().push(Arc::new(parking_lot::RwLock::new(at)));
    let mut lines = vec![];
    let nq = *r.pick(&[0usize, 1, 1, 2, 5, 40, 200]);
    let hit = r.n(3);
    for k in 0..nq {
        // the first ones can be answered
        if k < hit {
            lines.push(format!("<a{} --> b>?", k));
        } else {
            lines.push(format!("<u{} --> w{}>?", k, r.n(1000)));
        }
    }
    for k in 0..3 {
        let p = match r.n(8) {
            0 => "{0.0 0.9}",
            1 => "{0.5 0.0}",
            _ => "",
        };
        lines.push(format!("<a{} --> b>. {}", k, p));
    }
    r.shuffle(&mut lines);
    let pre = *r.pick(&[0usize, 0, 0, 1, 5]);
    let info = format!("detached, lines {:?}, {} cycles before", lines, pre);
    set_input(&info);
    set_what(&info);
    for l in &lines {
        inputN(&mut nar, &l.trim().to_string());
    }
    for _ in 0..pre {
        cycle(&mut nar);
    }
    let mut n = 0;
    for _ in 0..1 + r.n(3) {
        let c0 = cycles_done(&nar.mem);
        let before = log.lock().unwrap().len();
        let res = match guarded(|| nar20_1::Eval::run(&mut nar)) {
            Some(x) => x,
            None => return,
        };
        tick();
        let c1 = cycles_done(&nar.mem);
        let l: Vec<i64> = log.lock().unwrap()[before..].to_vec();
        if l.contains(&-1) {
            return; // not observable
        }
        // the k-th cycle (from 0) has the number c0+k+1
        let want = l.first().map(|c| c - c0 - 1);
        let ran = c1 - c0;
        let should = want.map(|k| k + 1).unwrap_or(180);
        if res != want || ran != should {
            viol("benchmark", format!("{} | run {} returned {:?} after {} cycles, answers came in {:?}: should be {:?} after {}", info, n, res, ran, l.iter().map(|c| c - c0 - 1).collect::<Vec<_>>(), want, should));
            return;
        }
        cnt(if want.is_some() { "answered runs" } else { "unanswered runs" }, 1);
        ev(("exact", want, nq, n, lines.len()));
        n += 1;
    }
    drop(rx);
    stop_store(&mut nar.procNar);
}

/// what the program prints and how it ends
fn program(args: &[String], limit: u64, info: &str) -> Option<String> {
    program_at(args, limit, info, None)
}
fn program_at(args: &[String], limit: u64, info: &str, fast: Option<i64>) -> Option<String> {
    set_input(info);
    set_what(info);
    let exe = std::env::current_exe().unwrap().with_file_name("nar20_main");
    let mut cmd = Command::new(exe);
    if let (Some(k), Ok(lib)) = (fast, std::env::var("VH_CLOCKLIB")) {
        cmd.env("LD_PRELOAD", lib).env("VH_CLOCK", k.to_string());
    }
    let mut ch = cmd.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let mut out = ch.stdout.take().unwrap();
    let mut err = ch.stderr.take().unwrap();
    let ro = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = out.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let re = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                tick();
                let e = re.join().unwrap_or_default();
                let o = ro.join().unwrap_or_default();
                if !st.success() || e.contains("panicked") {
                    viol("program", format!("{} | ended with {:?}, {:?}", info, st, e));
                    return None;
                }
                return Some(o);
            }
            _ => {
                if t0.elapsed() > Duration::from_secs(limit) {
                    let _ = ch.kill();
                    viol("program", format!("{} | did not end within {} s", info, limit));
                    return None;
                }
                tick();
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
}

/// (content, exactly known result)
fn qfile(r: &mut Rng) -> (String, Option<Option<i64>>) {
    let t = |k: usize| format!("<s{} --> p{}>", k, k);
    match r.n(9) {
        // reading ends at the quit command
        6 => (format!("{}.\n{}?\n!QQ\n<x --> y>?\n!s30\n", t(1), t(1)), Some(Some(0))),
        7 => (format!("{}.\n!QQ\n{}?\n", t(1), t(1)), Some(None)),
        // no question
        0 => (format!("{}.\n{}.\n", t(1), t(2)), Some(None)),
        // nothing is known about it
        1 => ("<s1 --> p1>.\n<x --> y>?\n".to_string(), Some(None)),
        // known
        2 => (format!("{}.\n// comment\n{}?\n", t(1), t(1)), Some(Some(0))),
        3 => (format!("{}?\n{}. {{1.0 0.{}}}\n", t(1), t(1), 1 + r.n(9)), Some(Some(0))),
        // answered while reading
        4 => ("<s1 --> p1>.\n<s1 --> p1>?\n!s20\n".to_string(), Some(None)),
        // among others
        5 => (format!("{}.\n{}?\n<x --> y>?\n<z --> y>?\n", t(3), t(3)), None),
        // has to be derived
        _ => ("<a --> b>.\n<b --> c>.\n<a --> c>?\n".to_string(), None),
    }
}

fn bench(r: &mut Rng, dir: &std::path::Path, id: usize) {
    let n = 1 + r.n(4);
    let mut files = vec![];
    let mut wants = vec![];
    let mut texts = vec![];
    for k in 0..n {
        let (t, w) = qfile(r);
        let p = dir.join(format!("q{}_{}.nal", id, k));
        std::fs::write(&p, &t).unwrap();
        files.push(p.to_str().unwrap().to_string());
        wants.push(w);
        texts.push(t);
    }
    let two = r.chance(0.6);
    let runs = if two { r.n(4) + 1 } else { 1 };
    let mut args: Vec<String> = vec![if two { "bQA2".into() } else { "bQA".into() }];
    if two {
        args.push(runs.to_string());
    }
    args.extend(files.iter().cloned());
    let info = format!("program {:?} with files {:?}", &args[..args.len() - n], texts);
    let out = match program(&args, 120, &info) {
        Some(x) => x,
        None => return,
    };
    for f in &files {
        let _ = std::fs::remove_file(f);
    }
    let mut res: Vec<Option<i64>> = vec![];
    for l in out.lines() {
        let x = if two {
            match l.strip_prefix("CYCLES ") {
                Some(x) => x,
                None => continue,
            }
        } else {
            l
        };
        if x == "None" {
            res.push(None);
        } else if !x.is_empty() && x.chars().all(|c| c.is_ascii_digit()) {
            res.push(Some(x.parse().unwrap_or(-1)));
        }
    }
    let bad = |what: String| viol("benchmark", format!("{} | {}, output {:?}", info, what, out));
    if res.len() != runs * n {
        bad(format!("{} results instead of {}", res.len(), runs * n));
        return;
    }
    for (i, x) in res.iter().enumerate() {
        if let Some(w) = &wants[i % n] {
            if x != w {
                bad(format!("result {} is {:?}, should be {:?}", i, x, w));
                return;
            }
        }
        if let Some(k) = x {
            if *k < 0 || *k >= 180 {
                bad(format!("result {} is {}", i, k));
                return;
            }
        }
    }
    if two {
        let get = |p: &str| out.lines().find_map(|l| l.strip_prefix(p)).and_then(|x| x.trim().parse::<f64>().ok());
        let un = res.iter().filter(|x| x.is_none()).count() as f64 / res.len() as f64;
        let score = res.iter().flatten().map(|k| (-0.002 * *k as f64).exp()).sum::<f64>() / runs as f64;
        for (p, w) in [("H # runs ", runs as f64), ("H unanswered ratio ", un), ("SCORE ", score)] {
            match get(p) {
                Some(x) if (x - w).abs() < 1e-9 => {}
                x => {
                    bad(format!("{:?} is {:?}, should be {}", p, x, w));
                    return;
                }
            }
        }
    }
    cnt("benchmark programs", 1);
    ev(("bench", two, runs, &texts, &res));
}

/// the agent perceives where the ball is, its operations move the bat, and the score is counted
fn pong(dl: Instant, whole: bool, fast: Option<i64>, pe: bool) {
    let info = &format!("program {} clock x{:?}", if pe { "pe" } else { "envPong3" }, fast);
    set_input(info);
    set_what(info);
    let exe = std::env::current_exe().unwrap().with_file_name("nar20_main");
    let mut cmd = Command::new(exe);
    if let (Some(k), Ok(lib)) = (fast, std::env::var("VH_CLOCKLIB")) {
        cmd.env("LD_PRELOAD", lib).env("VH_CLOCK", k.to_string());
    }
    let mut ch = cmd.arg(if pe { "pe" } else { "envPong3" }).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let mut err = ch.stderr.take().unwrap();
    let re = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let out = BufReader::new(ch.stdout.take().unwrap());
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for l in out.lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        return;
                    }
                }
                Err(_) => return,
            }
        }
    });
    let int = |l: &str, k: &str| -> Option<i64> {
        let p = l.find(k)? + k.len();
        let s: String = l[p..].chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
        s.parse().ok()
    };
    let mut last: Vec<String> = vec![];
    let mut vx = 0i64; // direction of the bat
    let mut calls = 0;
    let mut bat: Option<i64> = None; // where the bat has to be
    let (mut hits, mut misses, mut good, mut bads, mut steps) = (0i64, 0i64, 0i64, 0i64, 0i64);
    let mut seen = false;
    let mut done = false;
    let mut runs: Vec<f64> = vec![];
    let mut avg: Option<f64> = None;
    let mut bad = false;
    let mut quiet = Instant::now();
    let mut state: (i64, i64) = (0, 0);
    let fail = |last: &Vec<String>, what: String| {
        viol("pong", format!("{} | {}, last lines {:?}", info, what, &last[last.len().saturating_sub(8)..]));
    };
    let began = Instant::now();
    loop {
        if !whole && Instant::now() > dl {
            break;
        }
        if whole && fast.is_some() && (steps > 400_000 || began.elapsed() > Duration::from_secs(300)) {
            fail(&last, format!("does not end after {} steps and {} s", steps, began.elapsed().as_secs()));
            break;
        }
        let l = match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(l) => {
                quiet = Instant::now();
                l
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                if quiet.elapsed() > Duration::from_secs(60) {
                    fail(&last, "nothing happens since 60 s".into());
                    break;
                }
                if quiet.elapsed() < Duration::from_secs(30) {
                    tick();
                }
                continue;
            }
            Err(_) => {
                done = true;
                break;
            }
        };
        tick();
        last.push(l.clone());
        if last.len() > 200 {
            last.drain(..100);
        }
        if l.starts_with("0-1-x") && l.contains(" ballX=") {
            let (bx, px, d) = match (int(&l, "ballX="), int(&l, "batX="), int(&l, "diff=")) {
                (Some(a), Some(b), Some(c)) => (a, b, c),
                _ => continue,
            };
            let want = if (bx - px).abs() <= 6 {
                "0-1-xc "
            } else if bx < px {
                "0-1-xl "
            } else {
                "0-1-xr "
            };
            if !l.starts_with(want) || d != bx - px {
                fail(&last, format!("ball at {} bat at {} should be perceived as {}", bx, px, want));
                break;
            }
            if let Some(b) = bat {
                if b != px {
                    fail(&last, format!("bat is at {}, should be at {}", px, b));
                    break;
                }
            }
            bat = Some(px);
            state = (bx, px);
            seen = true;
            calls = 0;
        } else if l == "CALL ^L" || l == "CALL ^R" {
            calls += 1;
            if calls > 1 {
                fail(&last, "two operations in a step".into());
                break;
            }
            vx = if l == "CALL ^L" { 1 } else { -1 };
            cnt("pong operations", 1);
        } else if l == "env: good" {
            good += 1;
        } else if l == "env: bad" {
            bads += 1;
        } else if l.starts_with("PONG ") {
            let (h, m, t) = match (int(&l, "Hits="), int(&l, "misses="), int(&l, "time=")) {
                (Some(a), Some(b), Some(c)) => (a, b, c),
                _ => continue,
            };
            steps += 1;
            if t != steps || !seen {
                fail(&last, format!("step {} of the world, should be {}; perceived {}", t, steps, seen));
                break;
            }
            if h != good || m != bads {
                fail(&last, format!("{} hits and {} misses counted, {} and {} happened", h, m, good, bads));
                break;
            }
            hits = h;
            misses = m;
            if let Some(b) = bat {
                bat = Some((b + vx * 6 / 2).min(50 - 1 + 6).max(12));
            }
            seen = false;
            ev(("pong", state, vx, h, m));
            cnt("pong steps", 1);
        } else if l.starts_with("[i] env hits=") {
            let fin = int(&l, "hits=").zip(int(&l, "misses="));
            if fin != Some((hits, misses)) || steps != 5001 {
                fail(&last, format!("ended after {} steps with {:?} reported, should be 5001 steps and {:?}", steps, fin, (hits, misses)));
                bad = true;
                break;
            }
            runs.push(hits as f64 / (hits + misses) as f64);
            cnt("whole pong runs", 1);
            // next run starts anew
            vx = 0;
            calls = 0;
            bat = None;
            hits = 0;
            misses = 0;
            good = 0;
            bads = 0;
            steps = 0;
            seen = false;
        } else if l.starts_with("avg score = ") {
            avg = l[12..].parse().ok();
        }
    }
    if done {
        let st = ch.wait();
        let e = re.join().unwrap_or_default();
        if !matches!(&st, Ok(s) if s.success()) || e.contains("panicked") {
            viol("pong", format!("{} | ended with {:?} {:?} after {} steps", info, st, e, steps));
        } else if runs.len() != if pe { 10 } else { 1 } || steps != 0 {
            viol("pong", format!("{} | ended after {} whole runs and {} steps", info, runs.len(), steps));
        } else if pe {
            let want: f64 = runs.iter().sum::<f64>() / runs.len() as f64;
            if !matches!(avg, Some(a) if close(a, want) || (a.is_nan() && want.is_nan())) {
                viol("pong", format!("{} | average {:?} of the runs {:?}, should be {}", info, avg, runs, want));
            }
            cnt("procedural evaluations", 1);
        }
    } else {
        let _ = ch.kill();
        let _ = ch.wait();
        let e = re.join().unwrap_or_default();
        if e.contains("panicked") {
            viol("pong", format!("{} | {:?}", info, e));
        }
    }
}

fn main() {
    let cfg = init("C34", 10.0, 120.0, "one evaluation per run of the benchmark whose result was compared with the cycle in which a listener recorded the first answer, per run of the benchmark program, per step of the pong world of the real program; distinct by result, files, state of the world");
    assume("files with several questions or derived answers are only checked for a result within 180 cycles or none");
    let dir = std::env::current_dir().unwrap().join("c34_files");
    let _ = std::fs::create_dir_all(&dir);
    let d = &dir;
    let dl = cfg.deadline();
    par(&cfg, 7, 34, |i, r| {
        let mut n = 0;
        if i == 0 {
            pong(dl, cfg.thorough, None, false);
            return;
        }
        if i == 1 {
            pong(dl, true, Some(800), true);
        }
        if i == 3 && std::env::var("VH_CLOCKLIB").is_ok() {
            for _ in 0..4 {
                if stop_requested() {
                    break;
                }
                let k = [50, 200, 1000][r.n(3)];
                if let Some(o) = program_at(&["chaos".to_string()], 240, "program chaos", Some(k)) {
                    if !o.contains("DONE") {
                        viol("program", format!("program chaos | did not report its end: {:?}", &o[o.len().saturating_sub(500)..]));
                    }
                    cnt("chaos programs", 1);
                }
                if let Some(o) = program_at(&["envTTTprof".to_string()], 240, "program envTTTprof", Some(k)) {
                    if !o.contains("WINNER") && !o.contains("DRAW") {
                        viol("program", format!("program envTTTprof | no game was played: {:?}", &o[o.len().saturating_sub(500)..]));
                    }
                    cnt("tic-tac-toe programs", 1);
                }
            }
        }
        if i == 2 {
            until(dl, || pong(dl, false, Some([20, 100, 500][r.n(3)]), false));
            return;
        }
        if i == 1 && cfg.thorough {
            if let Some(o) = program(&["chaos".to_string()], 300, "program chaos") {
                if !o.contains("DONE") {
                    viol("program", format!("program chaos | did not report its end: {:?}", &o[o.len().saturating_sub(500)..]));
                }
            }
        }
        until(dl, || {
            n += 1;
            if (i + n) % 4 == 0 {
                bench(r, d, i * 1_000_000 + n)
            } else {
                exact(r)
            }
        });
    });
    sample(get_input());
    let _ = std::fs::remove_dir_all(&dir);
    finish();
}
