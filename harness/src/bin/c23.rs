//! C23: commands and files do what they say
use nar20_1::Nar::*;
use nar20_1::NarGoalSystem as GS;
use nar20_1::NarInputFacade;
use nar20_1::Term::convTermToStr;
use std::io::{BufRead, Read, Write};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::sys::*;
use vh::*;

#[derive(Clone, PartialEq, Debug)]
struct Snap {
    cycles: i64,
    t: i64,
    ops: Vec<String>,
    babble: bool,
    tasks: Vec<String>,
    questions: Vec<String>,
    beliefs: Vec<String>,
    concepts: usize,
    trace: Vec<(R, i64)>,
    goals: Vec<String>,
    temporal: Vec<String>,
    anticipated: usize,
    ids: i64,
}

fn snap(nar: &Nar) -> Snap {
    drain(&nar.mem);
    drain_store(&nar.procNar, nar.procNar.t);
    let mut temporal = vec![];
    for c in beliefs_of(&nar.procNar.evidenceMem.read()) {
        for s in c.by_exp.iter() {
            temporal.push(format!("{} {}", c.name.src(), s.txt()));
        }
    }
    temporal.sort();
    let mut goals: Vec<String> = GS::retEntries(&nar.procNar.goalSystem.read()).iter().map(|e| format!("{} {}", s_of(&e.read().sentence).txt(), e.read().desirability)).collect();
    goals.sort();
    Snap {
        cycles: cycles_done(&nar.mem),
        t: nar.procNar.t,
        ops: nar.procNar.ops.iter().map(|o| o.retName()).collect(),
        babble: nar.procNar.cfgEnBabbling,
        tasks: tasks(&nar.mem).iter().map(|s| s.txt()).collect(),
        questions: questions(&nar.mem).iter().map(|q| q.0.txt()).collect(),
        beliefs: mem_key(&nar.mem),
        concepts: beliefs(&nar.mem).len(),
        trace: trace_of(&nar.procNar),
        goals,
        temporal,
        anticipated: nar.procNar.anticipatedEvents.len(),
        ids: next_id(&nar.mem),
    }
}

/// what may have changed
fn diff(a: &Snap, b: &Snap) -> Vec<&'static str> {
    let mut v = vec![];
    if a.cycles != b.cycles {
        v.push("cycles");
    }
    if a.t != b.t {
        v.push("time");
    }
    if a.ops != b.ops {
        v.push("operations");
    }
    if a.babble != b.babble {
        v.push("babbling");
    }
    if a.tasks != b.tasks {
        v.push("pending judgements");
    }
    if a.questions != b.questions {
        v.push("questions");
    }
    if a.beliefs != b.beliefs {
        v.push("beliefs");
    }
    if a.concepts != b.concepts {
        v.push("concepts");
    }
    if a.trace != b.trace {
        v.push("events");
    }
    if a.goals != b.goals {
        v.push("goals");
    }
    if a.temporal != b.temporal {
        v.push("temporal knowledge");
    }
    if a.anticipated != b.anticipated {
        v.push("anticipations");
    }
    if a.ids != b.ids {
        v.push("inputs");
    }
    v
}

fn gen_line(r: &mut Rng, often: Option<usize>) -> String {
    let nm = |r: &mut Rng| format!("{}", r.pick(&["a", "b", "c", "d", "e"]));
    let k = r.n(30);
    match if r.chance(0.5) { often.unwrap_or(k) } else { k } {
        0 => "".into(),
        1 => format!("// {}", r.n(100)),
        2 => "//!s5".into(),
        3 => "!s".into(),
        4 | 5 => format!("!s{}", if r.chance(0.02) { 100 + r.n(1500) } else { *r.pick(&[0usize, 1, 2, 3, 7, 12]) }),
        6 => r.pick(&["!sx", "!s-2", "!s 3", "!s1.5", "!s2x", "!s99999999999999999999"]).to_string(),
        7 | 8 => "!sp".into(),
        9 => "!spA".into(),
        10 => "!spB".into(),
        11 => "!dtf".into(),
        12 if r.chance(0.2) => format!("!por NOP ^{}", nm(r).repeat(1 + r.n(90))),
        12 => format!("!por NOP ^{}{}", nm(r), r.n(3)),
        13 => r.pick(&["!por execinj", "!por nlpRel0"]).to_string(),
        14 => r.pick(&["!por", "!por ", "!por x", "!por NOP", "!por NOP a b", "!por execinj x", "!por nop ^a", "!por  NOP   ^two"]).to_string(),
        15 => r.pick(&["!peb 0", "!peb 1"]).to_string(),
        16 => r.pick(&["!peb", "!peb 2", "!peb0", "!xyz", "!", "!QQQ", "!qq", "!dtx", "!dm"]).to_string(),
        17 | 18 => "!dt".into(),
        19 => "!dmd".into(),
        20 => "!pse".into(),
        21 => "!QQ".into(),
        22 => format!("{}. :|:", nm(r)),
        23 => format!("{}! :|:", nm(r)),
        24 => format!("<({},<{{({{SELF}}*x)}} --> ^{}>) =/> {}>.", nm(r), nm(r), nm(r)),
        25 => format!("<{} --> {}>?", nm(r), nm(r)),
        26 => r.pick(&["<a --> b", "a. b. :|:", "(((", "<a => b>.", "x"]).to_string(),
        27 => format!("<{} --> {}>. {{1.0 {}}}", nm(r), nm(r), r.pick(&["0.99", "0.999", "0.0"])),
        _ => format!("<{} --> {}>. {{{} 0.{}}}", nm(r), nm(r), if r.chance(0.5) { "1.0" } else { "0.5" }, 1 + r.n(9)),
    }
}

fn ending(r: &mut Rng) -> &'static str {
    *r.pick(&["", "\n", "\r\n", "\n\n", "\r"])
}

fn session(r: &mut Rng) {
    let mut nar = createNar();
    nar.cfgVerbosityInput = 0;
    nar.procNar.cfg__resourceExpectedTime = 0.002;
    // deterministic: operations are not executed by chance
    nar.procNar.cfgDescnThreshold = 2.0;
    nar.procNar.cfgEnBabbling = false;
    let learning = r.chance(0.5);
    if !learning {
        nar.procNar.cfg__perceptionSamplesPerStep = 0;
    }
    let mut hist: Vec<String> = vec![];
    let mut before = snap(&nar);
    // some sessions are long and repeat a kind of line
    let often = if r.chance(0.25) { Some(*r.pick(&[12usize, 12, 13, 14, 15, 22, 23, 24, 25, 7, 11, 17, 29, 29])) } else { None };
    for _ in 0..if often.is_some() { 60 + r.n(40) } else { 30 } {
        let core = gen_line(r, often);
        let line = format!("{}{}", core, ending(r));
        hist.push(line.clone());
        let info = format!("lines {:?}", &hist[hist.len().saturating_sub(30)..]);
        set_input(&info);
        set_what(&info);
        let mut quit = r.chance(0.5);
        let out = match guarded(|| NarInputFacade::input(&mut nar, &line, &mut quit)) {
            Some(o) => o,
            None => return,
        };
        tick();
        let after = snap(&nar);
        let d = diff(&before, &after);
        let bad = |why: String| viol("command", format!("{} | {:?}: {}; changed {:?}", info, line, why, d));
        if quit != (core == "!QQ") {
            bad(format!("quit flag is {}", quit));
            return;
        }
        if core != "!dt" && core != "!dmd" && !out.is_empty() {
            bad(format!("returned {:?}", out));
            return;
        }
        let only = |allowed: &[&str]| d.iter().all(|x| allowed.contains(x));
        let num: Option<i64> = if core.starts_with("!s") && !core.starts_with("!sp") { Some(if core == "!s" { 1 } else { core[2..].parse::<i64>().unwrap_or(0).max(0) }) } else { None };
        let kind;
        if let Some(n) = num {
            kind = "cycles";
            if after.cycles != before.cycles + n {
                bad(format!("{} cycles were run", after.cycles - before.cycles));
                return;
            }
            if !only(&["cycles", "pending judgements", "beliefs", "concepts", "questions", "inputs"]) || (n == 0 && !d.is_empty()) {
                bad("something else changed".into());
                return;
            }
        } else if core == "!sp" || core == "!spB" || core == "!spA" {
            kind = "procedural steps";
            let n = if core == "!spA" { 0 } else { 1 };
            if after.t != before.t + n {
                bad(format!("time went from {} to {}", before.t, after.t));
                return;
            }
            if !only(&["time", "goals", "temporal knowledge", "anticipations", "events"]) {
                bad("something else changed".into());
                return;
            }
            // goals which equal the newest event are satisfied in the first half only
            if let Some((e, _)) = before.trace.last() {
                let pre = format!("{}! ", e.src());
                let was = before.goals.iter().filter(|g| g.starts_with(&pre) && g.ends_with(" 1")).count();
                let is = after.goals.iter().filter(|g| g.starts_with(&pre) && g.ends_with(" 1")).count();
                if core == "!spA" && is > 0 {
                    bad("the goal equal to the newest event is still desired".into());
                    return;
                }
                if core == "!spB" && is < was && before.goals.len() < 15 {
                    bad("the first half of a step was run".into());
                    return;
                }
                if core == "!spA" && was > 0 {
                    cnt("goals satisfied by the first half of a step", 1);
                }
            }
            if core == "!spB" && after.temporal != before.temporal {
                bad("the second half of a step learned".into());
                return;
            }
            // the second half forgets old events
            let cut = if core == "!spA" { 0 } else { before.trace.len().saturating_sub(20) };
            let mut kept = after.trace.clone();
            let base = &before.trace[cut..];
            // an operation which was babbled may be counted among the events to be kept or come on top
            let mut base = base;
            if before.babble && core != "!spA" && base.len() == 20 && kept.len() == 20 && kept[..19] == base[1..] && kept != base {
                base = &base[1..];
            }
            if before.babble && core != "!spA" && kept.len() == base.len() + 1 && kept[..base.len()] == *base {
                // babbled: one of the registered operations, tried with the system itself
                let (e, te) = kept.pop().unwrap();
                if te != before.t || !before.ops.iter().any(|o| e == op(o, vec![selfr()])) {
                    bad(format!("babbled {} at {}", e.src(), te));
                    return;
                }
                cnt("babbled", 1);
            }
            if kept != base {
                bad(format!("remembered events are {:?}", after.trace));
                return;
            }
        } else if core == "!dtf" {
            kind = "flush";
            if !after.tasks.is_empty() || !only(&["pending judgements"]) {
                bad(format!("{} judgements are still pending", after.tasks.len()));
                return;
            }
            if !before.tasks.is_empty() {
                cnt("pending judgements flushed", before.tasks.len() as u64);
            }
        } else if core.starts_with("!por ") {
            kind = "registration";
            let a: Vec<&str> = core[5..].split_whitespace().collect();
            let new = match a.as_slice() {
                ["NOP", n] => Some(n.to_string()),
                ["execinj"] => Some("^nal9_exeAndInject".to_string()),
                ["nlpRel0"] => Some("^nlpRel0".to_string()),
                _ => None,
            };
            let mut want = before.ops.clone();
            want.extend(new);
            if after.ops != want || !only(&["operations"]) {
                bad(format!("registered operations are {:?}, should be {:?}", after.ops, want));
                return;
            }
        } else if core == "!peb 0" || core == "!peb 1" {
            kind = "babbling";
            if after.babble != (core == "!peb 1") || !only(&["babbling"]) {
                bad(format!("babbling is {}", after.babble));
                return;
            }
        } else if core == "!dt" {
            kind = "pending report";
            let ts = tasks(&nar.mem);
            let ok = out.len() == ts.len()
                && out.iter().zip(&ts).all(|(o, s)| {
                    let ids: Vec<String> = s.ids.iter().map(|i| i.to_string()).collect();
                    o.contains(&convTermToStr(&s.t.t())) && o.contains(&format!(" {}  credit=", ids.join(",")))
                });
            if !ok || !d.is_empty() {
                bad(format!("reported {:?}, pending are {:?}", out, after.tasks));
                return;
            }
            cnt("pending judgements reported", out.len() as u64);
        } else if core == "!dmd" {
            kind = "memory report";
            if out != vec![format!("concept count = {}", after.concepts)] || !d.is_empty() {
                bad(format!("reported {:?}, there are {} concepts", out, after.concepts));
                return;
            }
        } else if core.is_empty() || core.starts_with("//") || core == "!QQ" || core == "!pse" {
            kind = "no effect";
            if !d.is_empty() {
                bad("something changed".into());
                return;
            }
        } else if core.starts_with('!') {
            kind = "unknown command";
            if !d.is_empty() {
                bad("something changed".into());
                return;
            }
        } else {
            kind = "narsese";
            if !only(&["pending judgements", "beliefs", "concepts", "questions", "inputs", "events", "goals", "temporal knowledge"]) {
                bad("something else changed".into());
                return;
            }
            // facts get into memory, events into the trace, goals into the goals
            let ev_line = core.ends_with(". :|:") && core.len() == 6;
            if ev_line && after.trace.len() != before.trace.len() + 1 {
                bad("the event was not recorded once".into());
                return;
            }
            if core.starts_with('<') && core.contains(" --> ") && core.contains(">. {") && (after.ids != before.ids + 1 || (after.tasks == before.tasks && after.beliefs == before.beliefs)) {
                bad("the judgement was not added".into());
                return;
            }
        }
        cnt(kind, 1);
        ev((kind, &core, d.clone(), before.tasks.len().min(20), before.ops.len()));
        before = after;
    }
    stop_store(&mut nar.procNar);
    stop_workers(&nar.mem);
}

/// which of the lines have an effect that does not depend on chance
fn plain_line(r: &mut Rng, k: &mut usize) -> String {
    *k += 1;
    match r.n(14) {
        0 => "".into(),
        1 => "// comment".into(),
        2 => format!("!s{}", r.n(4)),
        3 => "!sp".into(),
        4 => format!("!por NOP ^o{}", k),
        5 => "!dmd".into(),
        6 => format!("e{}. :|:", k),
        7 => "!dt".into(),
        8 => r.pick(&["!peb 0", "!peb 1", "!peb 0"]).to_string(),
        9 => r.pick(&["<ä --> ü>.", "(((", "!nope"]).to_string(),
        10 => "!dtf".into(),
        11 => format!("<<u{} --> v{}> =/> w{}>.", k, k, k),
        _ => format!("<s{} --> p{}>.", k, k),
    }
}

/// the same lines from a file and entered
fn file(r: &mut Rng, dir: &std::path::Path, id: usize) {
    let mut k = 0;
    let n = r.n(25);
    let mut lines: Vec<String> = (0..n).map(|_| plain_line(r, &mut k)).collect();
    if r.chance(0.3) {
        let at = r.n(lines.len() + 1);
        lines.insert(at, "!QQ".into());
    }
    let end = *r.pick(&["\n", "\r\n"]);
    let mut text: Vec<u8> = lines.join(end).into_bytes();
    if r.chance(0.5) {
        text.extend(end.as_bytes());
    }
    let path = dir.join(format!("f{}.nal", id));
    std::fs::write(&path, &text).unwrap();
    let info = format!("file {:?}", String::from_utf8_lossy(&text));
    set_input(&info);
    set_what(&info);
    let mk = || {
        let mut n = createNar();
        n.cfgVerbosityInput = 0;
        n.procNar.cfg__resourceExpectedTime = 0.002;
        n.procNar.cfg__perceptionSamplesPerStep = 0;
        n.procNar.cfgDescnThreshold = 2.0;
        n
    };
    let mut a = mk();
    let mut b = mk();
    let mut qa = false;
    let p = path.to_string_lossy().to_string();
    // babbling would make both differ by chance: nothing registered can be babbled before it is off
    a.procNar.cfgEnBabbling = false;
    b.procNar.cfgEnBabbling = false;
    let lines2: Vec<String> = lines.iter().map(|l| if l == "!peb 1" { "!peb 0".to_string() } else { l.clone() }).collect();
    std::fs::write(&path, &String::from_utf8(text).unwrap().replace("!peb 1", "!peb 0")).unwrap();
    if guarded(|| nar20_1::NarUtilReadn::readNarseseFile(&mut a, &p, &mut qa)).is_none() {
        return;
    }
    tick();
    let mut qb = false;
    for l in &lines2 {
        if guarded(|| NarInputFacade::input(&mut b, l, &mut qb)).is_none() {
            return;
        }
        if qb {
            break;
        }
    }
    let (sa, sb) = (snap(&a), snap(&b));
    let mut d = diff(&sa, &sb);
    // the order of pending judgements depends on timing of the derivation
    if d == vec!["pending judgements"] {
        let (mut x, mut y) = (sa.tasks.clone(), sb.tasks.clone());
        x.sort();
        y.sort();
        if x == y {
            d.clear();
        }
    }
    if !d.is_empty() || qa != qb {
        viol("file", format!("{} | reading the file and entering its lines differ in {:?}; quit {} and {}; {:?} and {:?}", info, d, qa, qb, sa, sb));
        return;
    }
    cnt("files compared", 1);
    cnt("file lines", lines.len() as u64);
    ev(("file", lines, end));
    let _ = std::fs::remove_file(&path);
    for n in [&mut a, &mut b] {
        stop_store(&mut n.procNar);
        stop_workers(&n.mem);
    }
}

fn odd_paths(dir: &std::path::Path) {
    for p in [dir.to_string_lossy().to_string(), dir.join("missing").to_string_lossy().to_string(), "".to_string()] {
        set_input(&format!("file path {:?}", p));
        set_what(&format!("file path {:?}", p));
        let mut nar = createNar();
        let a = snap(&nar);
        let mut q = false;
        if guarded(|| nar20_1::NarUtilReadn::readNarseseFile(&mut nar, &p, &mut q)).is_none() {
            return;
        }
        tick();
        if !diff(&a, &snap(&nar)).is_empty() || q {
            viol("file", format!("path {:?} which is no file changed something", p));
        }
        cnt("paths which are no file", 1);
        ev(("path", p));
    }
    // a line which is no text is ignored
    let path = dir.join("binary.nal");
    std::fs::write(&path, b"<a1 --> b1>.\n\xff\xfe\x00\n<a2 --> b2>.\n").unwrap();
    let mut nar = createNar();
    nar.cfgVerbosityInput = 0;
    let mut q = false;
    if guarded(|| nar20_1::NarUtilReadn::readNarseseFile(&mut nar, &path.to_string_lossy().to_string(), &mut q)).is_none() {
        return;
    }
    let c = content(&nar.mem);
    for t in [inh(nm("a1"), nm("b1")), inh(nm("a2"), nm("b2"))] {
        if !c.iter().any(|s| s.t == t) {
            viol("file", format!("{} of a file with a binary line is not known", t.src()));
        }
    }
    ev("binary line");
}

/// the real program in interactive mode
fn interactive(r: &mut Rng, dir: &std::path::Path, id: usize) {
    let mut k = 0;
    let mut args: Vec<String> = vec!["it".into()];
    let mut ended = false;
    let mut want_echo: Vec<String> = vec![];
    let mut concepts: Vec<String> = vec![];
    let mut want_counts: Vec<usize> = vec![];
    let mut told: Vec<(String, usize)> = vec![];
    // one fact: statement, subject and predicate are concepts
    let mut fact = |k: &mut usize, concepts: &mut Vec<String>| {
        *k += 1;
        let l = format!("<s{} --> p{}>.", k, k);
        concepts.push(format!("c{}", k));
        l
    };
    for i in 0..r.n(3) {
        let mut text = String::new();
        for _ in 0..if r.chance(0.04) { 300 + r.n(500) } else { r.n(4) } {
            if !ended {
                text += &fact(&mut k, &mut concepts);
            } else {
                text += "// not reached";
            }
            text += "\n";
        }
        if !ended && r.chance(0.1) {
            text += "!QQ\n";
            ended = true;
        }
        let p = dir.join(format!("it{}_{}.nal", id, i));
        std::fs::write(&p, text).unwrap();
        args.push(p.to_string_lossy().to_string());
    }
    let mut lines: Vec<String> = vec![];
    let mut last = String::new();
    let mut dead = ended;
    for _ in 0..r.n(25) {
        let l = match r.n(8) {
            0 => "".to_string(),
            1 => format!("// m{}", lines.len()),
            2 => "!dmd".to_string(),
            3 => format!("!s{}", r.n(3)),
            4 => "!sp".to_string(),
            5 if r.chance(0.15) => "!QQ".to_string(),
            _ => {
                if dead {
                    "// dead".to_string()
                } else {
                    fact(&mut k, &mut concepts)
                }
            }
        };
        lines.push(l.clone());
        if dead {
            continue;
        }
        let eff = if l.is_empty() { last.clone() } else { l.clone() };
        if !l.is_empty() {
            last = l.clone();
        }
        want_echo.push(eff.clone());
        if eff.starts_with('<') {
            told.push((eff.clone(), 1));
        }
        if eff == "!dmd" {
            want_counts.push(concepts.len() * 3);
        }
        if eff == "!QQ" {
            dead = true;
        }
    }
    let end = *r.pick(&["\n", "\r\n"]);
    let mut text = lines.join(end);
    if !text.is_empty() && r.chance(0.7) {
        text += end;
    } else if text.ends_with(end) || lines.last().map(|l| l.is_empty()).unwrap_or(false) {
        // an unfinished empty line is no line
        if !dead && lines.last().map(|l| l.is_empty()).unwrap_or(false) {
            want_echo.pop();
            if last == "!dmd" {
                want_counts.pop();
            }
        }
    }
    if lines.len() == 1 && lines[0].is_empty() && text.is_empty() {
        want_echo.clear();
        want_counts.clear();
    }
    let info = format!("program {:?} input {:?}", args, text);
    set_input(&info);
    set_what(&info);
    let exe = std::env::current_exe().unwrap().with_file_name("nar20_main");
    let mut ch = std::process::Command::new(exe)
        .args(&args)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut inp = ch.stdin.take().unwrap();
    let _ = inp.write_all(text.as_bytes());
    // half of the sessions end by the end of the input, those with a quit command stay open
    let keep = dead && (ended || text.ends_with('\n'));
    let hold = if keep { Some(inp) } else { drop(inp); None };
    let out = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = vec![];
        let mut b = std::io::BufReader::new(out);
        let _ = b.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ => {
                if t0.elapsed() > Duration::from_secs(60) {
                    break None;
                }
                std::thread::sleep(Duration::from_millis(5));
                if t0.elapsed() < Duration::from_secs(30) {
                    tick();
                }
            }
        }
    };
    tick();
    drop(hold);
    let status = match status {
        Some(s) => s,
        None => {
            let _ = ch.kill();
            viol("interactive", format!("{} | the program did not end within 60 s", info));
            return;
        }
    };
    let got = rd.join().unwrap_or_default();
    if !status.success() {
        viol("interactive", format!("{} | the program ended with {:?}; output {:?}", info, status, got));
        return;
    }
    // echoes in order; other output lies between
    let gl: Vec<&str> = got.lines().collect();
    let mut at = 0;
    for (n, w) in want_echo.iter().enumerate() {
        match gl[at..].iter().position(|l| l == w) {
            Some(p) => at += p + 1,
            None => {
                viol("interactive", format!("{} | line {} {:?} was not echoed in order, output {:?}", info, n, w, got));
                return;
            }
        }
    }
    for m in want_echo.iter().filter(|w| w.starts_with("// m")) {
        let n1 = want_echo.iter().filter(|x| *x == m).count();
        let n2 = gl.iter().filter(|x| *x == m).count();
        if n1 != n2 {
            viol("interactive", format!("{} | {:?} was processed {} times instead of {}, output {:?}", info, m, n2, n1, got));
            return;
        }
    }
    if gl.iter().any(|l| l.starts_with("// dead") || l.starts_with("// not reached")) {
        viol("interactive", format!("{} | lines after the quit command were processed, output {:?}", info, got));
        return;
    }
    let counts: Vec<usize> = gl.iter().filter(|l| l.starts_with("concept count = ")).map(|l| l[16..].trim().parse().unwrap_or(99999)).collect();
    if counts != want_counts {
        viol("interactive", format!("{} | reported concept counts {:?}, should be {:?}, output {:?}", info, counts, want_counts, got));
        return;
    }
    cnt("interactive programs", 1);
    cnt("interactive lines", want_echo.len() as u64);
    ev(("interactive", text, args.len()));
    for a in &args[1..] {
        let _ = std::fs::remove_file(a);
    }
}

/// flushed judgements take part in no inference any more
fn flushed(r: &mut Rng) {
    let mut nar = createNar();
    nar.cfgVerbosityInput = 0;
    let rx = detach(&nar.mem);
    let mut hist: Vec<String> = vec![];
    let mut live: Vec<R> = vec![];
    let mut told: Vec<R> = vec![];
    let mut quit = false;
    for _ in 0..4 + r.n(20) {
        let l = match r.n(6) {
            0 | 1 => "!s1".to_string(),
            2 => "!dtf".to_string(),
            _ => {
                let t = inh(nm(&format!("x{}", told.len())), nm(r.pick(&["a", "b"])));
                told.push(t.clone());
                live.push(t.clone());
                t.src() + "."
            }
        };
        hist.push(l.clone());
        let txt = format!("{:?}", hist);
        set_input(&txt);
        set_what(&txt);
        if guarded(|| NarInputFacade::input(&mut nar, &l, &mut quit)).is_none() {
            return;
        }
        tick();
        if l == "!dtf" {
            live.clear();
        }
        while let Ok(m) = rx.try_recv() {
            for x in std::iter::once(&m.primary).chain(m.secondary.iter()) {
                let t = R::of(&x.read().sentence.term);
                if !live.contains(&t) {
                    viol("flush", format!("{} | {} takes part in inference after it was flushed", txt, t.src()));
                    return;
                }
            }
            cnt("inferences around flushes", 1);
            ev(("flushed", live.len(), m.secondary.len(), hist.len()));
        }
    }
}

/// many concepts
fn big() {
    let mut nar = createNar();
    nar.cfgVerbosityInput = 0;
    let rx = detach(&nar.mem);
    for i in 0..1300 {
        let mut q = false;
        NarInputFacade::input(&mut nar, &format!("<s{} --> p{}>.", i, i), &mut q);
        if i % 100 == 99 {
            tick();
            let out = NarInputFacade::input(&mut nar, &"!dmd".to_string(), &mut q);
            let n = nar.mem.read().shared.read().mem.read().concepts.len();
            if out != vec![format!("concept count = {}", n)] || n != 3 * (i + 1) {
                viol("command", format!("after telling {} statements about distinct things !dmd gives {:?}, memory holds {} concepts", i + 1, out, n));
                return;
            }
            cnt("memory report", 1);
        }
    }
    drop(rx);
}

fn main() {
    let cfg = init("C23", 11.0, 150.0, "one evaluation per line whose whole effect on the reasoner was compared with the reference, per file compared with entering its lines, per run of the program in interactive mode; distinct by line, effect, file and input");
    assume("background work is finished before the state is compared; concepts which only come from derivation are avoided where counts are compared");
    let dl = cfg.deadline();
    let dir = std::env::current_dir().unwrap().join("c23_files");
    let _ = std::fs::create_dir_all(&dir);
    odd_paths(&dir);
    big();
    let d = &dir;
    par(&cfg, 6, 23, |i, r| {
        let mut n = 0;
        until(dl, || {
            n += 1;
            match (i + n) % 3 {
                0 => {
                    session(r);
                    for _ in 0..5 {
                        flushed(r);
                    }
                }
                1 => file(r, d, i * 1_000_000 + n),
                _ => interactive(r, d, i * 1_000_000 + n),
            }
        });
    });
    sample(get_input());
    let _ = std::fs::remove_dir_all(&dir);
    finish();
}
