//! C16: TCP server, trace checker over recorded sessions
//! the server runs in a process of its own (this binary with the argument "serve"), the clients are threads of the monitor
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vh::*;

const ADDR: &str = "127.0.0.1:2039";

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32;
}

fn serve() -> ! {
    // ends when the monitor ends
    std::thread::spawn(|| {
        let mut b = [0u8; 16];
        loop {
            match std::io::stdin().read(&mut b) {
                Ok(0) | Err(_) => std::process::exit(7),
                Ok(_) => {}
            }
        }
    });
    nar20_1::NarServer::run();
    std::process::exit(9)
}

struct Server {
    child: Child,
    err: Arc<Mutex<String>>,
}

impl Server {
    fn start() -> Option<Server> {
        // port must be free, otherwise this is not a statement about the server
        let t0 = Instant::now();
        loop {
            match std::net::TcpListener::bind(ADDR) {
                Ok(l) => {
                    drop(l);
                    break;
                }
                Err(_) => {
                    if t0.elapsed() > Duration::from_secs(60) {
                        return None;
                    }
                    tick();
                    std::thread::sleep(Duration::from_millis(50));
                }
            }
        }
        let mut child = Command::new(std::env::current_exe().unwrap()).arg("serve").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().ok()?;
        let err = Arc::new(Mutex::new(String::new()));
        let e2 = Arc::clone(&err);
        let mut se = child.stderr.take().unwrap();
        std::thread::spawn(move || {
            let mut b = [0u8; 1024];
            while let Ok(n) = se.read(&mut b) {
                if n == 0 {
                    break;
                }
                let mut g = e2.lock().unwrap();
                if g.len() < 20000 {
                    g.push_str(&String::from_utf8_lossy(&b[..n]));
                }
            }
        });
        let mut s = Server { child, err };
        let t0 = Instant::now();
        loop {
            if TcpStream::connect(ADDR).is_ok() {
                return Some(s);
            }
            if !s.alive() || t0.elapsed() > Duration::from_secs(60) {
                viol("no-server", format!("the server does not accept connections: {}", s.err.lock().unwrap()));
                return None;
            }
            tick();
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    fn alive(&mut self) -> bool {
        matches!(self.child.try_wait(), Ok(None))
    }
    /// nothing in the server may have failed
    fn check(&mut self, info: &str) -> bool {
        let alive = self.alive();
        let e = self.err.lock().unwrap().clone();
        // assertions of the networking library which are only compiled into debug builds do not end the server: it is probed for that
        let failed = e.lines().any(|l| l.contains("panicked at") && !l.contains("/registry/"));
        if !alive || failed {
            viol("server-failed", format!("{} | server process alive: {} | {}", info, alive, e.chars().take(600).collect::<String>()));
            return false;
        }
        true
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

struct Client {
    s: TcpStream,
    /// received bytes
    got: Arc<Mutex<Vec<u8>>>,
    slow: Arc<std::sync::atomic::AtomicBool>,
}
impl Client {
    fn new() -> Option<Client> {
        Client::opt(false)
    }
    fn opt(slow: bool) -> Option<Client> {
        let t0 = Instant::now();
        let s = loop {
            match TcpStream::connect(ADDR) {
                Ok(s) => break s,
                Err(_) => {
                    if t0.elapsed() > Duration::from_secs(45) {
                        return None;
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        };
        let _ = s.set_nodelay(true);
        let _ = s.set_write_timeout(Some(Duration::from_secs(60)));
        let got = Arc::new(Mutex::new(vec![]));
        let g2 = Arc::clone(&got);
        let mut rs = s.try_clone().ok()?;
        let slow = Arc::new(std::sync::atomic::AtomicBool::new(slow));
        let sl2 = Arc::clone(&slow);
        std::thread::spawn(move || {
            let mut b = vec![0u8; 65536];
            loop {
                while sl2.load(std::sync::atomic::Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(1));
                }
                match rs.read(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => g2.lock().unwrap().extend_from_slice(&b[..n]),
                }
            }
        });
        Some(Client { s, got, slow })
    }
    fn send(&mut self, line: &str) -> bool {
        let t = format!("{}\n", line);
        self.s.write_all(t.as_bytes()).is_ok()
    }
    /// complete lines which were received
    fn lines(&self) -> Vec<String> {
        let g = self.got.lock().unwrap();
        let t = String::from_utf8_lossy(&g).to_string();
        let mut v: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
        v.pop(); // after the last newline
        v
    }
    fn n_lines(&self) -> usize {
        self.got.lock().unwrap().iter().filter(|c| **c == b'\n').count()
    }
    /// a single line which has no effect, then wait
    fn after_one(&mut self, line: &str, pred: &dyn Fn(&[String]) -> bool) -> bool {
        let t0 = Instant::now();
        if pred(&self.lines()) {
            return true;
        }
        if !self.send(line) {
            return false;
        }
        while t0.elapsed() < Duration::from_secs(30) {
            if pred(&self.lines()) {
                return true;
            }
            tick();
            std::thread::sleep(Duration::from_millis(1));
        }
        false
    }
    /// poll with comment lines until the line arrives
    fn until(&mut self, pred: &dyn Fn(&[String]) -> bool) -> bool {
        let t0 = Instant::now();
        let mut n = 0;
        loop {
            if pred(&self.lines()) {
                return true;
            }
            if t0.elapsed() > Duration::from_secs(45) {
                return false;
            }
            if !self.send("// poll") {
                return false;
            }
            n += 1;
            tick();
            std::thread::sleep(Duration::from_millis(if n < 20 { 1 } else { 10 }));
        }
    }
}
impl Drop for Client {
    fn drop(&mut self) {
        self.slow.store(false, std::sync::atomic::Ordering::SeqCst);
        let _ = self.s.shutdown(std::net::Shutdown::Both);
    }
}

/// close by reset
fn reset(s: TcpStream) {
    let l: [i32; 2] = [1, 0];
    unsafe {
        setsockopt(s.as_raw_fd(), 1, 13, l.as_ptr() as *const u8, 8);
    }
    drop(s);
}

fn cc(n: usize) -> String {
    format!("concept count = {}", n)
}

/// one client sends its lines at once, others listen, come and go
fn one_writer(r: &mut Rng, n: usize, slow_reader: bool) -> Option<()> {
    let mut srv = Server::start()?;
    let mut w = Client::new()?;
    let mut keep: Vec<Client> = vec![]; // connected before anything was sent
    for _ in 0..1 + r.n(3) {
        keep.push(Client::new()?);
    }
    // each client is known to the server once one of its lines arrived: tell a fact each
    let mut k = 0;
    for (i, c) in keep.iter_mut().enumerate() {
        c.send(&format!("<hello{} --> world{}>.", i, i));
        k += 1;
    }
    let kk = keep.len();
    // wait until all arrived
    let t0 = Instant::now();
    loop {
        w.send("!dmd");
        std::thread::sleep(Duration::from_millis(2));
        if w.lines().last() == Some(&cc(3 * kk)) {
            break;
        }
        w.send("//");
        tick();
        if t0.elapsed() > Duration::from_secs(45) {
            if srv.check("clients say hello") {
                viol("lost-line", format!("{} clients told one fact each, the server counts: {:?}", kk, w.lines().last()));
            }
            return None;
        }
    }
    // everything up to here is over when this client gets nothing anymore
    w.send("<sync0 --> sync1>.");
    w.send("!dmd");
    k += 1;
    let mark = cc(3 * k);
    if !w.until(&|l| l.last() == Some(&mark)) {
        if srv.check("start") {
            viol("lost-line", format!("expected {} but got {:?}", mark, w.lines().last()));
        }
        return None;
    }
    for c in keep.iter_mut() {
        let m = mark.clone();
        if !c.until(&|l| l.last() == Some(&m)) {
            if srv.check("start") {
                viol("lost-message", format!("a connected client did not get {:?}, it got {:?}", m, c.lines().last()));
            }
            return None;
        }
    }
    let start_w = w.n_lines();
    let start_k: Vec<usize> = keep.iter().map(|c| c.n_lines()).collect();
    // the writer sends everything without waiting for anything, the messages are known in advance
    let mut expected: Vec<String> = vec![];
    let mut text = String::new();
    let long = if slow_reader { "x".repeat(400) } else { String::new() };
    let mut big = false;
    for i in 0..n {
        match r.n(10) {
            0 => text.push_str("// nothing\n"),
            1 => text.push_str("\n"),
            2 => text.push_str("!dtf\n"),
            3 => text.push_str("this is not narsese\n"),
            4 => {
                text.push_str("!dmd\n");
                expected.push(cc(3 * k));
            }
            _ if slow_reader && i % 12 == 0 => {
                // a listing of long sentences
                text.push_str("!dtf\n");
                for j in 0..12 {
                    text.push_str(&format!("<{}a{}_{} --> {}b{}_{}>.\n", long, i, j, long, i, j));
                    k += 1;
                    expected.push(format!("task  <{}a{}_{} --> {}b{}_{}>.", long, i, j, long, i, j));
                }
                text.push_str("!dt\n");
                big = true;
            }
            _ => {
                text.push_str(&format!("<s{} --> p{}>.\n!dmd\n", i, i));
                k += 1;
                expected.push(cc(3 * k));
            }
        }
    }
    text.push_str("<end0 --> end1>.\n!dmd\n");
    k += 1;
    let last = cc(3 * k);
    expected.push(last.clone());
    let info = format!("one writer, {} messages, {} listeners, long lines {}", expected.len(), keep.len(), slow_reader);
    set_input(&info);
    set_what(&info);
    if slow_reader {
        for c in &keep {
            c.slow.store(r.chance(0.6), std::sync::atomic::Ordering::SeqCst);
        }
    }
    // in pieces which do not respect the lines
    let bytes = text.into_bytes();
    let mut ws = w.s.try_clone().ok()?;
    let mut rr = r.fork();
    let sender = std::thread::spawn(move || {
        let mut i = 0;
        while i < bytes.len() {
            let most = if rr.chance(0.5) { 2000 } else { 30 };
            let m = (1 + rr.n(most)).min(bytes.len() - i);
            if ws.write_all(&bytes[i..i + m]).is_err() {
                return;
            }
            i += m;
            if rr.chance(0.05) {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
    });
    // others listen meanwhile, some disturb
    let mut visitors: Vec<(Vec<String>, bool)> = vec![];
    let t0 = Instant::now();
    while !sender.is_finished() || t0.elapsed() < Duration::from_millis(20) {
        for c in keep.iter_mut() {
            c.send("//");
        }
        if r.chance(0.15) && visitors.len() < 6 {
            let mut v = Client::new()?;
            for _ in 0..1 + r.n(6) {
                v.send("// visitor");
                std::thread::sleep(Duration::from_micros(r.n(2500) as u64));
            }
            let abrupt = r.chance(0.5);
            if !abrupt {
                std::thread::sleep(Duration::from_millis(3));
            }
            visitors.push((v.lines(), abrupt));
        }
        if r.chance(0.1) {
            disturb(r);
        }
        tick();
        std::thread::sleep(Duration::from_micros(300));
        if t0.elapsed() > Duration::from_secs(60) {
            break;
        }
    }
    let _ = sender.join();
    for c in &keep {
        c.slow.store(false, std::sync::atomic::Ordering::SeqCst);
    }
    // all must get everything: at most 50 messages between two of their lines can only be guaranteed for the frequent pollers,
    // so completeness is decided below
    let okw = w.until(&|l| l.last() == Some(&last));
    if !srv.check(&info) {
        return None;
    }
    if !okw {
        viol("lost-line", format!("{} | the writer did not get the last message {}, last is {:?}", info, last, w.lines().last().map(|s| s.chars().take(80).collect::<String>())));
        return None;
    }
    // listings carry more than the sentence
    let same = |a: &String, e: &String| if e.starts_with("task  ") { a.starts_with(e.as_str()) && a.contains("credit=") } else { a == e };
    // a client gets a part of the expected messages, in order, nothing twice, nothing else
    let subseq = |l: &[String]| -> Option<(usize, bool)> {
        let mut j = 0;
        let mut gap = false;
        let mut first = true;
        for m in l {
            let from = j;
            while j < expected.len() && !same(m, &expected[j]) {
                j += 1;
            }
            if j == expected.len() {
                return None;
            }
            if j != from && !first {
                gap = true;
            }
            first = false;
            j += 1;
        }
        Some((j, gap))
    };
    let check = |who: &str, l: &[String], all: bool| -> bool {
        match subseq(l) {
            None => {
                viol("wrong-messages", format!("{} | {} received messages which are not the produced ones in order, once: {:?} | produced {:?}", info, who, short(l), short(&expected)));
                false
            }
            Some((_, gap)) => {
                if all && (gap || l.len() != expected.len()) {
                    // a client which sends at least a line per message can't miss any
                    viol("lost-message", format!("{} | {} received {} of {} messages: {:?} | produced {:?}", info, who, l.len(), expected.len(), short(l), short(&expected)));
                    return false;
                }
                true
            }
        }
    };
    // with at most 50 messages altogether nobody may miss one
    let complete = expected.len() <= 50;
    let lw = w.lines();
    // the writer sends several lines for each message, but the reasoner may lag behind all of them
    if !check("the writer", &lw[start_w..], complete) {
        return None;
    }
    for (i, c) in keep.iter_mut().enumerate() {
        let l2 = last.clone();
        if !c.until(&|l| l.last() == Some(&l2)) {
            if srv.check(&info) {
                viol("lost-message", format!("{} | listener {} did not get the last message, last is {:?}", info, i, c.lines().last().map(|s| s.chars().take(80).collect::<String>())));
            }
            return None;
        }
        let l = c.lines();
        if !check("a listener", &l[start_k[i]..], complete) {
            return None;
        }
        cnt("messages checked", l.len() as u64);
    }
    for (l, abrupt) in &visitors {
        let _ = abrupt;
        if !check("a visitor", l, false) {
            return None;
        }
        let seg = l.len() <= expected.len() && (0..=expected.len() - l.len()).any(|i| l.iter().zip(&expected[i..]).all(|(a, e)| same(a, e)));
        if complete && !seg {
            viol("lost-message", format!("{} | a visitor missed messages in between: {:?} | produced {:?}", info, short(l), short(&expected)));
            return None;
        }
        cnt("messages checked", l.len() as u64);
    }
    cnt("messages checked", lw.len() as u64);
    cnt("visitors", visitors.len() as u64);
    if big {
        cnt("sessions with long listings", 1);
    }
    cnt("sessions with one writer", 1);
    ev(("one", expected.len(), keep.len(), visitors.iter().map(|v| v.0.len()).collect::<Vec<_>>(), r.u64() % 4));
    Some(())
}

fn short(l: &[String]) -> Vec<String> {
    l.iter().map(|s| s.chars().take(60).collect::<String>()).take(80).collect()
}

/// clients which misbehave
fn disturb(r: &mut Rng) {
    if let Ok(mut s) = TcpStream::connect(ADDR) {
        match r.n(7) {
            0 => reset(s),
            5 => {
                // ends only an interactive session
                let _ = s.write_all(b"!QQ\n");
            }
            1 => {
                let _ = s.write_all(b"// half a li");
                reset(s);
            }
            2 => {
                let _ = s.write_all(b"// not text \xff\xfe\xc0\n// more\n");
            }
            3 => {
                let _ = s.write_all(b"// a\n// b\n// c\n// d\n");
                // answers are not read
                reset(s);
            }
            4 => {
                let _ = s.write_all(&vec![b'/'; 40000]);
            }
            _ => {
                let _ = s.shutdown(std::net::Shutdown::Write);
            }
        }
        cnt("misbehaving clients", 1);
    }
}

/// several clients send at the same time; the messages must be those of some interleaving which keeps the order of each client
fn several_writers(r: &mut Rng) -> Option<()> {
    let mut srv = Server::start()?;
    let nc = 2 + r.n(2);
    let mut cs: Vec<Client> = vec![];
    for _ in 0..nc {
        cs.push(Client::new()?);
    }
    // (number of new concepts) or a request
    let per = 5 + r.n(if nc == 2 { 20 } else { 8 });
    let mut scripts: Vec<Vec<usize>> = vec![];
    let mut texts: Vec<String> = vec![];
    for c in 0..nc {
        let mut s = vec![];
        let mut t = String::new();
        for i in 0..per {
            if r.chance(0.5) {
                s.push(0);
                t.push_str("!dmd\n");
            } else {
                let k = r.n(2);
                if k == 0 {
                    t.push_str(&format!("<c{}i{}a --> c{}i{}b>.\n", c, i, c, i));
                    s.push(3);
                } else {
                    t.push_str(&format!("<(c{}i{}a*c{}i{}b) --> c{}i{}d>.\n", c, i, c, i, c, i));
                    s.push(5);
                }
            }
        }
        scripts.push(s);
        texts.push(t);
    }
    let total: usize = scripts.iter().map(|s| s.iter().sum::<usize>()).sum();
    let n_req: usize = scripts.iter().map(|s| s.iter().filter(|x| **x == 0).count()).sum();
    let info = format!("{} writers at the same time: {:?}", nc, scripts);
    set_input(&info);
    set_what(&info);
    // an observer which is known to the server before
    let mut obs = Client::new()?;
    obs.send("!dmd");
    if !obs.until(&|l| l.len() == 1) {
        if srv.check(&info) {
            viol("lost-message", format!("{} | a client which asked for the concept count got {:?}", info, obs.lines()));
        }
        return None;
    }
    let mut hs = vec![];
    for (i, t) in texts.iter().enumerate() {
        let mut s = cs[i].s.try_clone().ok()?;
        let t = t.clone();
        let mut rr = r.fork();
        hs.push(std::thread::spawn(move || {
            for l in t.lines() {
                let _ = s.write_all(format!("{}\n", l).as_bytes());
                if rr.chance(0.3) {
                    std::thread::sleep(Duration::from_micros(rr.n(200) as u64));
                }
            }
        }));
    }
    while !hs.iter().all(|h| h.is_finished()) {
        obs.send("//");
        tick();
        std::thread::sleep(Duration::from_micros(200));
    }
    for h in hs {
        let _ = h.join();
    }
    // wait for all
    if !obs.until(&|l| l.len() >= 1 + n_req) {
        if srv.check(&info) {
            viol("lost-line", format!("{} | {} requests were sent, only {} were answered", info, n_req, obs.lines().len() - 1));
        }
        return None;
    }
    // all facts arrived?
    let t0 = Instant::now();
    loop {
        obs.send("!dmd");
        std::thread::sleep(Duration::from_millis(2));
        obs.send("//");
        std::thread::sleep(Duration::from_millis(2));
        if obs.lines().last() == Some(&cc(total)) {
            break;
        }
        tick();
        if t0.elapsed() > Duration::from_secs(45) {
            if srv.check(&info) {
                viol("lost-line", format!("{} | the facts have {} concepts, the server counts {:?}", info, total, obs.lines().last()));
            }
            return None;
        }
    }
    obs.send("<endA --> endB>.");
    obs.send("!dmd");
    let endm = cc(total + 3);
    if !obs.until(&|l| l.last() == Some(&endm)) {
        if srv.check(&info) {
            viol("lost-message", format!("{} | the observer did not get the last message, it got {:?}", info, obs.lines().last()));
        }
        return None;
    }
    let log: Vec<String> = obs.lines()[1..1 + n_req].to_vec();
    let nums: Vec<usize> = log.iter().map(|s| s.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(usize::MAX)).collect();
    // simulate all interleavings: set of positions which explain the messages so far
    let mut states: std::collections::HashSet<Vec<usize>> = Default::default();
    states.insert(vec![0; nc]);
    let sum_of = |p: &Vec<usize>| -> usize { (0..nc).map(|c| scripts[c][..p[c]].iter().sum::<usize>()).sum() };
    let close_facts = |states: std::collections::HashSet<Vec<usize>>, limit: usize| {
        // all positions reachable by facts alone, without exceeding the count
        let mut all = states.clone();
        let mut todo: Vec<Vec<usize>> = states.into_iter().collect();
        while let Some(p) = todo.pop() {
            for c in 0..nc {
                if p[c] < scripts[c].len() && scripts[c][p[c]] > 0 {
                    let mut q = p.clone();
                    q[c] += 1;
                    if sum_of(&q) <= limit && all.insert(q.clone()) {
                        todo.push(q);
                    }
                }
            }
        }
        all
    };
    for (k, n) in nums.iter().enumerate() {
        let s2 = close_facts(states, *n);
        let mut next: std::collections::HashSet<Vec<usize>> = Default::default();
        for p in &s2 {
            if sum_of(p) != *n {
                continue;
            }
            for c in 0..nc {
                if p[c] < scripts[c].len() && scripts[c][p[c]] == 0 {
                    let mut q = p.clone();
                    q[c] += 1;
                    next.insert(q);
                }
            }
        }
        if next.is_empty() {
            viol("order", format!("{} | no order of the lines which keeps the order of each client explains message {} of {:?}", info, k, nums));
            return None;
        }
        states = next;
    }
    // the writers got the same, in the same order, each a part without gaps (fewer than 50 messages between their lines)
    for c in cs.iter_mut() {
        let l2 = endm.clone();
        if !c.until(&|l| l.last() == Some(&l2)) {
            if srv.check(&info) {
                viol("lost-message", format!("{} | a writer did not get the last message, it got {:?}", info, c.lines()));
            }
            return None;
        }
        let whole = obs.lines();
        let l = c.lines();
        let tail_of = l.len() <= whole.len() && whole[whole.len() - l.len()..] == l[..];
        if whole.len() <= 50 && !tail_of {
            viol("wrong-messages", format!("{} | a writer received {:?}, produced were {:?}", info, short(&l), short(&whole)));
            return None;
        }
        cnt("messages checked", l.len() as u64);
    }
    if !srv.check(&info) {
        return None;
    }
    cnt("sessions with several writers", 1);
    cnt("requests explained", nums.len() as u64);
    ev(("several", scripts, nums));
    Some(())
}

/// questions are answered to all connected clients
fn answers(r: &mut Rng) -> Option<()> {
    let mut srv = Server::start()?;
    let nc = 2 + r.n(3);
    let mut cs: Vec<Client> = vec![];
    for _ in 0..nc {
        cs.push(Client::new()?);
    }
    let n = 2 + r.n(4);
    // all are known to the server before
    for (i, c) in cs.iter_mut().enumerate() {
        c.send(&format!("// {}", i));
        c.send("!dmd");
        let want = i + 1;
        let _ = want;
        if !c.until(&|l| !l.is_empty()) {
            if srv.check("answers") {
                viol("lost-message", format!("a client which asked for the concept count got {:?}", c.lines()));
            }
            return None;
        }
    }
    let mut text: Vec<String> = vec![];
    let mut want: Vec<String> = vec![];
    let mut tvs: Vec<(f64, f64)> = vec![];
    for i in 0..n {
        let tv = (*r.pick(&[1.0, 0.8, 0.65]), *r.pick(&[0.9, 0.5, 0.25]));
        tvs.push(tv);
        text.push(format!("<s{} --> p{}>. {{{:.2} {:.2}}}", i, i, tv.0, tv.1));
        let q = match r.n(3) {
            0 => format!("<?v --> p{}>", i),
            1 => format!("<s{} --> ?v>", i),
            _ => format!("<s{} --> p{}>", i, i),
        };
        text.push(format!("{}?", q));
        want.push(format!("TRACE answer: {}? <s{} --> p{}>.", q.replace(' ', "").replace("-->", " --> "), i, i));
    }
    let asker = r.n(nc);
    let info = format!("{} clients, client {} sends {:?}", nc, asker, text);
    set_input(&info);
    set_what(&info);
    let cycles = 400 + 300 * n;
    let mut k = 0;
    for t in &text {
        cs[asker].send(t);
    }
    let mut done = 0;
    while done < cycles {
        cs[asker].send("!s20");
        done += 20;
        k += 1;
        let j = r.n(nc);
        cs[j].send("//");
        if k % 10 == 0 {
            std::thread::sleep(Duration::from_millis(1));
        }
        tick();
    }
    // end mark: the listing of a single pending sentence which names it; asked for by the asker so that it is after its lines
    cs[asker].send("!dtf");
    cs[asker].send("<endmarkA --> endmarkB>.");
    cs[asker].send("!dt");
    for i in 0..nc {
        let ok = cs[i].until(&|l| l.iter().any(|x| x.contains("task  <endmarkA --> endmarkB>.")));
        if !ok {
            if srv.check(&info) {
                viol("lost-message", format!("{} | client {} did not get the listing at the end; it got {:?}", info, i, short(&cs[i].lines())));
            }
            return None;
        }
    }
    if !srv.check(&info) {
        return None;
    }
    let logs: Vec<Vec<String>> = cs
        .iter()
        .map(|c| {
            let l = c.lines();
            let e = l.iter().position(|x| x.contains("task  <endmarkA --> endmarkB>.")).unwrap();
            l[..e].iter().filter(|x| x.starts_with("TRACE answer: ")).cloned().collect()
        })
        .collect();
    for i in 1..nc {
        if logs[i] != logs[0] {
            viol("differ", format!("{} | clients 0 and {} got different answers: {:?} and {:?}", info, i, logs[0], logs[i]));
            return None;
        }
    }
    for (w, tv) in want.iter().zip(&tvs) {
        let m: Vec<&String> = logs[0].iter().filter(|x| x.starts_with(w.as_str())).collect();
        if m.is_empty() {
            viol("no-answer", format!("{} | no answer {:?} within {} cycles; messages: {:?}", info, w, cycles, short(&logs[0])));
            return None;
        }
        let mut u: Vec<&String> = m.clone();
        u.sort();
        u.dedup();
        if u.len() != m.len() {
            viol("twice", format!("{} | the same answer twice: {:?}", info, m));
            return None;
        }
        // there is nothing else to be known: the answer is what was told
        for x in m {
            let nums: Vec<f64> = x[w.len()..].split(|c: char| !c.is_ascii_digit() && c != '.').filter_map(|y| y.parse().ok()).collect();
            if nums.len() != 2 || (nums[0] - tv.0).abs() > 0.006 || (nums[1] - tv.1).abs() > 0.006 {
                viol("truth", format!("{} | the answer {:?} does not carry the truth value {:?} of what was told", info, x, tv));
                return None;
            }
            cnt("answers delivered", 1);
        }
    }
    cnt("sessions with questions", 1);
    ev(("answers", nc, text, asker));
    Some(())
}

/// many answers are produced between two lines of a client, some of them alike
fn crowd(r: &mut Rng) -> Option<()> {
    let mut srv = Server::start()?;
    let mut asker = Client::new()?;
    let mut poller = Client::new()?;
    let mut silent = Client::new()?;
    // all are known to the server before
    for c in [&mut asker, &mut poller, &mut silent] {
        c.send("!dmd");
        if !c.until(&|l| !l.is_empty()) {
            if srv.check("many answers") {
                viol("lost-message", format!("a client which asked for the concept count got {:?}", c.lines()));
            }
            return None;
        }
    }
    let n = 5 + r.n(36);
    let dup = 1 + r.n(8);
    let info = format!("{} questions about told facts, of which {} are asked twice, while a client says nothing", n, dup);
    set_input(&info);
    set_what(&info);
    let mut want: Vec<String> = vec![];
    for i in 0..n {
        asker.send(&format!("<s{} --> p{}>.", i, i));
        for _ in 0..if i < dup { 2 } else { 1 } {
            asker.send(&format!("<s{} --> p{}>?", i, i));
            want.push(format!("TRACE answer: <s{} --> p{}>? <s{} --> p{}>. ", i, i, i, i));
        }
    }
    want.sort();
    silent.send("//");
    let k = want.len();
    let mut done = 0;
    while done < 400 * k {
        asker.send("!s50");
        done += 50;
        let have = poller.lines().iter().filter(|x| x.starts_with("TRACE answer: ")).count();
        poller.send("//");
        if have >= k {
            break;
        }
        tick();
        std::thread::sleep(Duration::from_millis(1));
    }
    asker.send("!dtf");
    asker.send("<endmarkA --> endmarkB>.");
    asker.send("!dt");
    let end = |l: &[String]| l.iter().any(|x| x.contains("task  <endmarkA --> endmarkB>."));
    if !poller.until(&end) || !silent.until(&end) {
        if srv.check(&info) {
            viol("lost-message", format!("{} | the listing at the end did not arrive: {:?} {:?}", info, short(&poller.lines()), short(&silent.lines())));
        }
        return None;
    }
    let cut = |c: &Client| -> Vec<String> {
        let l = c.lines();
        let e = l.iter().position(|x| x.contains("task  <endmarkA --> endmarkB>.")).unwrap();
        l[..e].iter().filter(|x| x.starts_with("TRACE answer: ")).cloned().collect()
    };
    let (a, b) = (cut(&poller), cut(&silent));
    let mut have: Vec<String> = a.clone();
    have.sort();
    let ok = have.len() == want.len() && have.iter().zip(&want).all(|(h, w)| h.starts_with(w.as_str()));
    if !ok {
        viol("answers", format!("{} | {} answers arrived, should be {}: {:?}", info, have.len(), want.len(), short(&have)));
        return None;
    }
    if a != b {
        viol("differ", format!("{} | the silent client got {} answers, the other {}: {:?} and {:?}", info, b.len(), a.len(), short(&b), short(&a)));
        return None;
    }
    cnt("answers delivered", 2 * k as u64);
    cnt("sessions with many answers at once", 1);
    ev(("crowd", n, dup));
    Some(())
}

/// clients which connect and vanish must not end the server
fn hostile(r: &mut Rng) -> Option<()> {
    let mut srv = Server::start()?;
    let mut good = Client::new()?;
    let info = "many clients which connect and reset at once".to_string();
    set_input(&info);
    set_what(&info);
    let n = 40 + r.n(60);
    std::thread::scope(|s| {
        for _ in 0..4 {
            let mut rr = r.fork();
            s.spawn(move || {
                for _ in 0..n {
                    if rr.chance(0.7) {
                        if let Ok(s) = TcpStream::connect(ADDR) {
                            reset(s);
                            cnt("misbehaving clients", 1);
                        }
                    } else {
                        disturb(&mut rr);
                    }
                    tick();
                }
            });
        }
    });
    good.send("<zz --> yy>.");
    good.send("!dmd");
    let want = cc(3);
    let ok = good.until(&|l| l.last() == Some(&want));
    if !srv.check(&info) {
        return None;
    }
    if !ok {
        viol("not-working", format!("{} | a client which stayed got {:?} instead of {:?}", info, good.lines(), want));
        return None;
    }
    let mut fresh = match Client::new() {
        Some(c) => c,
        None => {
            viol("not-working", format!("{} | no new connection is accepted", info));
            return None;
        }
    };
    fresh.send("!dmd");
    if !fresh.until(&|l| l.last() == Some(&want)) {
        if srv.check(&info) {
            viol("not-working", format!("{} | a new client got {:?} instead of {:?}", info, fresh.lines(), want));
        }
        return None;
    }
    cnt("sessions with vanishing clients", 1);
    ev(("hostile", n, r.u64() % 1000));
    Some(())
}

/// long messages to a client which reads slowly must arrive complete
fn heavy(r: &mut Rng) -> Option<()> {
    let mut srv = Server::start()?;
    let mut obs = Client::new()?;
    let mut slow = Client::new()?;
    obs.send("!dmd");
    if !obs.until(&|l| l.len() >= 1) {
        if srv.check("slow client") {
            viol("lost-message", "a client which asked for the concept count got nothing".to_string());
        }
        return None;
    }
    let n = 4 + r.n(4);
    let parts = 25 + r.n(30);
    let mut want: Vec<String> = vec![];
    for i in 0..n {
        let names: Vec<String> = (0..parts).map(|j| format!("n{}_{}_{}", i, j, "y".repeat(400))).collect();
        slow.send(&format!("<({}) --> rel{}>.", names.join("*"), i));
        want.push(format!("--> rel{}>.", i));
    }
    let info = format!("{} sentences of {} bytes are listed again and again for a client which does not read", n, parts * 410);
    set_input(&info);
    set_what(&info);
    // known to the server
    slow.send("!dt");
    if !slow.until(&|l| l.len() >= n) || !obs.until(&|l| l.len() >= 1 + n) {
        if srv.check(&info) {
            viol("lost-message", format!("{} | the listing did not arrive: {} and {} lines", info, slow.n_lines(), obs.n_lines()));
        }
        return None;
    }
    let listing: Vec<String> = obs.lines()[1..1 + n].to_vec();
    for (l, w) in listing.iter().zip(&want) {
        if !l.starts_with("task  ") || !l.contains(w.as_str()) || !l.contains("credit=") {
            viol("wrong-messages", format!("{} | listing holds {}", info, l.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>()));
            return None;
        }
    }
    slow.slow.store(true, std::sync::atomic::Ordering::SeqCst);
    let rounds = 14_000_000 / (n * parts * 410) + 10;
    for k in 0..rounds {
        let have = obs.n_lines();
        slow.send("//");
        obs.send("!dt");
        if !obs.until(&|l| l.len() >= have + n) {
            if srv.check(&info) {
                viol("lost-message", format!("{} | round {}: the other client did not get the listing", info, k));
            }
            return None;
        }
        tick();
    }
    slow.slow.store(false, std::sync::atomic::Ordering::SeqCst);
    obs.send("<endA --> endB>.");
    obs.send("!dmd");
    let ok = slow.until(&|l| l.last().map(|x| x.starts_with("concept count = ")).unwrap_or(false));
    if !srv.check(&info) {
        return None;
    }
    let l = slow.lines();
    if !ok {
        viol("lost-message", format!("{} | the slow client did not get the last message, {} lines, {} bytes, ends with {:?}", info, l.len(), slow.got.lock().unwrap().len(), l.last().map(|x| x.chars().take(60).collect::<String>())));
        return None;
    }
    for (i, m) in l[..l.len() - 1].iter().enumerate() {
        if !listing.contains(m) && !m.starts_with("concept count = ") {
            viol("damaged", format!("{} | message {} of {} which the slow client got is damaged, length {}, begins {:?}", info, i, l.len(), m.len(), m.chars().take(60).collect::<String>()));
            return None;
        }
    }
    cnt("bytes delivered to slow clients", slow.got.lock().unwrap().len() as u64);
    cnt("sessions with a slow client", 1);
    ev(("heavy", n, parts));
    Some(())
}

/// clients which send rarely must get everything as long as at most 50 messages are produced between two of their lines
fn lagging(r: &mut Rng) -> Option<()> {
    let mut srv = Server::start()?;
    let mut w = Client::new()?;
    let mut lag: Vec<(Client, usize)> = vec![];
    for _ in 0..1 + r.n(3) {
        lag.push((Client::new()?, 0));
    }
    // each client is known to the server once one of its lines arrived
    let n0 = lag.len();
    for (i, (c, _)) in lag.iter_mut().enumerate() {
        c.send(&format!("<hello{} --> world{}>.", i, i));
    }
    let t0 = Instant::now();
    loop {
        w.send("!dmd");
        std::thread::sleep(Duration::from_millis(3));
        if w.lines().last() == Some(&cc(3 * n0)) {
            break;
        }
        w.send("//");
        tick();
        if t0.elapsed() > Duration::from_secs(45) {
            if srv.check("clients say hello") {
                viol("lost-line", format!("{} clients told one fact each, the server counts: {:?}", n0, w.lines().last()));
            }
            return None;
        }
    }
    let mut k = n0 + 1;
    w.send("<sync0 --> sync1>.");
    w.send("!dmd");
    let mark = cc(3 * k);
    let mut start: Vec<usize> = vec![];
    for (c, _) in lag.iter_mut() {
        let m = mark.clone();
        if !c.until(&|l| l.last() == Some(&m)) {
            if srv.check("start") {
                viol("lost-message", format!("a connected client did not get {:?}, it got {:?}", m, c.lines().last()));
            }
            return None;
        }
        start.push(c.n_lines());
    }
    let m = mark.clone();
    if !w.until(&|l| l.last() == Some(&m)) {
        return None;
    }
    let mut expected: Vec<String> = vec![];
    let mut plan: Vec<usize> = vec![];
    let rounds = 3 + r.n(5);
    let q = if r.chance(0.8) { 1 + r.n(4) } else { 0 };
    for round in 0..rounds {
        // at last exactly as many as are kept, together with the answers
        let full = round + 1 == rounds && r.chance(0.7);
        let batch = if full { 50 - q } else if r.chance(0.5) { 35 + r.n(16) } else { 1 + r.n(50) };
        let info = format!("{} clients which send rarely, messages in batches {:?} and now {}", lag.len(), plan, batch);
        set_input(&info);
        set_what(&info);
        for i in 0..lag.len() {
            // must send a line before more than 50 are outstanding
            if lag[i].1 + batch > 50 || r.chance(0.2) {
                let c = &mut lag[i].0;
                if let Some(last) = expected.last().cloned() {
                    // one line of the client is enough to get everything outstanding
                    if !c.after_one(r.pick(&["// once", "", " ", "no narsese", "!dtf"]), &|l| l.last() == Some(&last)) {
                        if srv.check(&info) {
                            viol("lost-message", format!("{} | a client which sent a line did not get the last message {}, last is {:?}", info, last, c.lines().last()));
                        }
                        return None;
                    }
                }
                lag[i].1 = 0;
            }
        }
        let mut text = String::new();
        for _ in 0..batch {
            // the messages are distinct
            k += 1;
            text.push_str(&format!("<s{} --> p{}>.\n!dmd\n", k, k));
            expected.push(cc(3 * k));
        }
        if !w.send(text.trim_end()) {
            return None;
        }
        let last = expected.last().cloned().unwrap();
        if !w.until(&|l| l.last() == Some(&last)) {
            if srv.check(&info) {
                viol("lost-line", format!("{} | the writer did not get the last message {}, last is {:?}", info, last, w.lines().last()));
            }
            return None;
        }
        for l in lag.iter_mut() {
            l.1 += batch;
        }
        plan.push(batch);
    }
    // the answers to questions count as well
    if q > 0 {
        let info = format!("{} clients which send rarely, messages in batches {:?}, then {} questions", lag.len(), plan, q);
        set_input(&info);
        set_what(&info);
        for i in 0..lag.len() {
            if lag[i].1 + q > 50 {
                let c = &mut lag[i].0;
                let last = expected.last().cloned().unwrap();
                if !c.after_one("// once", &|l| l.last() == Some(&last)) {
                    if srv.check(&info) {
                        viol("lost-message", format!("{} | a client which sent a line did not get the last message {}, last is {:?}", info, last, c.lines().last()));
                    }
                    return None;
                }
                lag[i].1 = 0;
            }
        }
        let have = w.n_lines();
        w.send("!dtf"); // nothing else to think about
        for i in 0..q {
            w.send(&format!("<qs{} --> qp{}>.\n<qs{} --> qp{}>?", i, i, i, i));
        }
        let t0 = Instant::now();
        while w.n_lines() < have + q && t0.elapsed() < Duration::from_secs(30) {
            w.send("!s20");
            tick();
            std::thread::sleep(Duration::from_millis(2));
        }
        if !srv.check(&info) {
            return None;
        }
        // all got the same, whatever it is
        let new: Vec<String> = w.lines()[have..].to_vec();
        if new.len() > q || new.iter().any(|x| !x.starts_with("TRACE answer: ")) {
            viol("wrong-messages", format!("{} | messages after {} questions with one fact each: {:?}", info, q, short(&new)));
            return None;
        }
        if new.len() < q {
            viol("no-answer", format!("{} | {} answers: {:?}", info, new.len(), short(&new)));
            return None;
        }
        cnt("answers to clients which send rarely", q as u64);
        expected.extend(new);
        plan.push(q);
        for l in lag.iter_mut() {
            l.1 += q;
        }
    }
    let asked = expected.last().map(|x| x.starts_with("TRACE")).unwrap_or(false);
    let info = format!("{} clients which send rarely, messages in batches {:?}", lag.len(), plan);
    for (i, (c, out)) in lag.iter_mut().enumerate() {
        let last = expected.last().cloned().unwrap();
        let ok = c.until(&|l| l.last() == Some(&last));
        if !srv.check(&info) {
            return None;
        }
        let l = c.lines();
        if !ok || l[start[i]..] != expected[..] {
            viol("lost-message", format!("{} | a client got {} of {} messages although at most 50 were produced between two of its lines (last {}): {:?}", info, l.len() - start[i], expected.len(), out, short(&l[start[i]..])));
            return None;
        }
        cnt("messages checked", l.len() as u64);
    }
    // who comes later gets nothing from before
    for _ in 0..1 + r.n(3) {
        let mut c = Client::new()?;
        if r.chance(0.5) {
            c.send("// new");
        }
        k += 1;
        c.send(&format!("<s{} --> p{}>.\n!dmd", k, k));
        let want = if asked { "concept count = ".to_string() } else { cc(3 * k) };
        let ok = c.until(&|l| l.last().map(|x| if asked { x.starts_with(&want) } else { *x == want }).unwrap_or(false));
        if !srv.check(&info) {
            return None;
        }
        let l = c.lines();
        if !ok || l.len() != 1 {
            viol("old-message", format!("{} | a client which came later should get {:?} only, got {:?}", info, want, short(&l)));
            return None;
        }
        cnt("late comers", 1);
    }
    cnt("sessions with clients which send rarely", 1);
    ev(("lag", lag.len(), plan));
    Some(())
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        serve();
    }
    let cfg = init("C16", 16.0, 240.0, "one evaluation per server session whose recorded messages were checked; distinct by script, message counts and clients");
    let dl = cfg.deadline();
    let mut r = Rng::new(cfg.seed.wrapping_mul(977) + 16);
    let r = &mut r;
    let mut k = 0;
    until(dl, || {
        let _ = match k % 9 {
            0 => hostile(r),
            1 => {
                let n = 10 + r.n(20);
                one_writer(r, n, false)
            }
            2 => several_writers(r),
            3 => answers(r),
            6 => lagging(r),
            8 => crowd(r),
            4 => {
                let n = 60 + r.n(300);
                one_writer(r, n, true)
            }
            5 if k < 8 || cfg.thorough => heavy(r),
            _ => {
                let n = 60 + r.n(300);
                one_writer(r, n, false)
            }
        };
        k += 1;
    });
    sample(get_input());
    finish();
}
