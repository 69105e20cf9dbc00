//! recording of what the monitors observed, panic monitor, hang watchdog
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// deterministic random numbers for every choice the harness makes
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % (n as u64)) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

#[derive(Default)]
struct State {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    viol_classes: BTreeMap<String, u64>,
    harness_errors: Vec<String>,
    rule: String,
    assumptions: Vec<String>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static DONE: AtomicBool = AtomicBool::new(false);
static WATCH_ON: AtomicBool = AtomicBool::new(true);
static WHAT: Mutex<String> = Mutex::new(String::new());
static PANICS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static INPUT: RefCell<String> = RefCell::new(String::new());
}

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub budget: Duration,
    pub start: Instant,
}

impl Cfg {
    pub fn deadline(&self) -> Instant {
        self.start + self.budget
    }
    /// quick or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("not initialised"))
}

pub fn init(prop: &str, quick_s: f64, thorough_s: f64, rule: &str) -> Cfg {
    *STATE.lock().unwrap() = Some(State {
        rule: rule.to_string(),
        ..State::default()
    });
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let budget = match std::env::var("VH_BUDGET").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(b) => b,
        None => {
            if thorough {
                thorough_s
            } else {
                quick_s
            }
        }
    };
    panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let input = INPUT.try_with(|i| i.try_borrow().map(|s| s.clone()).unwrap_or_default()).unwrap_or_default();
        let what = WHAT.try_lock().map(|s| s.clone()).unwrap_or_default();
        // code of the harness itself is compiled with a relative path
        let inHarness = loc.starts_with("src/");
        let text = format!("panic at {}: {} | input: {} | scenario: {}", loc, msg, input, what);
        eprintln!("{}", text);
        if inHarness {
            if let Ok(mut g) = STATE.lock() {
                if let Some(s) = g.as_mut() {
                    s.harness_errors.push(text);
                }
            }
        } else {
            viol("panic", text);
        }
    }));
    std::thread::spawn(watchdog);
    Cfg {
        prop: prop.to_string(),
        seed,
        thorough,
        budget: Duration::from_secs_f64(budget),
        start: Instant::now(),
    }
}

pub fn assume(s: &str) {
    with(|st| st.assumptions.push(s.to_string()));
}

/// one evaluation of the oracle; key identifies distinct non-trivial cases
pub fn ev<K: Hash>(key: K) {
    tick();
    let mut h = DefaultHasher::new();
    key.hash(&mut h);
    let k = h.finish();
    with(|st| {
        st.evaluations += 1;
        if st.distinct.len() < 3_000_000 {
            st.distinct.insert(k);
        }
    });
}

/// evaluation which is trivial by the rule
pub fn ev_trivial() {
    tick();
    with(|st| st.evaluations += 1);
}

pub fn cnt(name: &str, n: u64) {
    with(|st| {
        if let Some(v) = st.counters.get_mut(name) {
            *v += n;
        } else {
            st.counters.insert(name.to_string(), n);
        }
    });
}

pub fn get_cnt(name: &str) -> u64 {
    with(|st| st.counters.get(name).copied().unwrap_or(0))
}

pub fn sample(s: String) {
    with(|st| {
        if st.samples.len() < 12 {
            st.samples.push(s.chars().take(600).collect());
        }
    });
}

pub fn viol(class: &str, detail: String) {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(st) = g.as_mut() {
        let n = {
            let c = st.viol_classes.entry(class.to_string()).or_insert(0);
            *c += 1;
            *c
        };
        if n <= 5 {
            eprintln!("VIOL [{}] {}", class, detail);
            st.violations.push((class.to_string(), detail));
        }
        if n >= 5 || st.violations.len() >= 20 {
            STOP.store(true, Ordering::SeqCst);
        }
    }
}

pub fn n_viol() -> u64 {
    with(|st| st.viol_classes.values().sum())
}

pub fn stop_requested() -> bool {
    STOP.load(Ordering::SeqCst)
}

pub fn panics() -> u64 {
    PANICS.load(Ordering::SeqCst)
}

/// description of the input of the case which runs in this thread
pub fn set_input(s: &str) {
    INPUT.with(|i| {
        let mut b = i.borrow_mut();
        b.clear();
        b.push_str(s);
    });
}
pub fn get_input() -> String {
    INPUT.with(|i| i.borrow().clone())
}

/// description of what the process does, for panics in other threads and for hangs
pub fn set_what(s: &str) {
    let mut w = WHAT.lock().unwrap_or_else(|e| e.into_inner());
    w.clear();
    w.push_str(s);
}

pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

/// run code under test, a panic is recorded by the panic monitor
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).ok()
}

/// run f in n threads, each with its own random numbers
pub fn par(cfg: &Cfg, n: usize, salt: u64, f: impl Fn(usize, &mut Rng) + Sync) {
    std::thread::scope(|s| {
        for i in 0..n {
            let f = &f;
            let seed = cfg.seed.wrapping_mul(1_000_003).wrapping_add(salt.wrapping_mul(7919)).wrapping_add(i as u64);
            std::thread::Builder::new()
                .name(format!("w{}", i))
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut rng = Rng::new(seed);
                    let _ = panic::catch_unwind(panic::AssertUnwindSafe(|| f(i, &mut rng)));
                })
                .unwrap();
        }
    });
}

/// repeat f until the time is over or enough violations were seen
pub fn until(deadline: Instant, mut f: impl FnMut()) {
    while Instant::now() < deadline && !stop_requested() {
        f();
    }
}

fn cpu_ticks() -> u64 {
    // utime + stime of the process
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let v: Vec<&str> = rest.split_whitespace().collect();
    if v.len() > 13 {
        v[11].parse::<u64>().unwrap_or(0) + v[12].parse::<u64>().unwrap_or(0)
    } else {
        0
    }
}

pub fn watch(on: bool) {
    WATCH_ON.store(on, Ordering::SeqCst);
}

/// detects hangs: no progress of the workload while the process uses no CPU (deadlock), or while it burned a lot of CPU (endless loop)
fn watchdog() {
    let mut last = PROGRESS.load(Ordering::Relaxed);
    let mut cpu_at = cpu_ticks();
    let mut idle_samples = 0;
    let mut cpu_prev = cpu_at;
    loop {
        std::thread::sleep(Duration::from_millis(500));
        if DONE.load(Ordering::SeqCst) {
            return;
        }
        let p = PROGRESS.load(Ordering::Relaxed);
        let c = cpu_ticks();
        if p != last || !WATCH_ON.load(Ordering::SeqCst) {
            last = p;
            cpu_at = c;
            idle_samples = 0;
        } else {
            if c <= cpu_prev + 1 {
                idle_samples += 1;
            } else {
                idle_samples = 0;
            }
            let burned_s = (c - cpu_at) as f64 / 100.0;
            let what = WHAT.try_lock().map(|s| s.clone()).unwrap_or_default();
            if idle_samples >= 60 {
                viol("hang", format!("no progress and no CPU use during 30 s (deadlock) | scenario: {}", what));
                finish_now();
            }
            if burned_s > 240.0 {
                viol("hang", format!("no progress while {} s of CPU were used | scenario: {}", burned_s, what));
                finish_now();
            }
        }
        cpu_prev = c;
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_result() {
    let path = std::env::var("VH_OUT").unwrap_or_else(|_| "/dev/stderr".to_string());
    let txt = {
        let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
        let st = g.as_mut().unwrap();
        let viols: Vec<String> = st.violations.iter().map(|(c, d)| format!("{{\"class\":{},\"detail\":{}}}", esc(c), esc(d))).collect();
        let cnts: Vec<String> = st.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let samples: Vec<String> = st.samples.iter().map(|s| esc(s)).collect();
        let errs: Vec<String> = st.harness_errors.iter().map(|s| esc(s)).collect();
        let assumptions: Vec<String> = st.assumptions.iter().map(|s| esc(s)).collect();
        format!(
            "{{\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}],\"counters\":{{{}}},\"violations\":[{}],\"n_violations\":{},\"harness_errors\":[{}],\"assumptions\":[{}],\"complete\":true}}\n",
            st.evaluations,
            st.distinct.len(),
            esc(&st.rule),
            samples.join(","),
            cnts.join(","),
            viols.join(","),
            st.viol_classes.values().sum::<u64>(),
            errs.join(","),
            assumptions.join(",")
        )
    };
    let _ = std::fs::write(path, txt);
}

/// write result and end the process, also when other threads hang
pub fn finish_now() -> ! {
    DONE.store(true, Ordering::SeqCst);
    write_result();
    // skip destructors and output buffers, other threads may still hold locks
    unsafe_exit()
}

fn unsafe_exit() -> ! {
    std::process::exit(0)
}

pub fn finish() -> ! {
    finish_now()
}

/// close enough for double precision computations in another order
pub fn close(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return false;
    }
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

/// progress only while waiting is not suspicious
pub fn tick_if(c: bool) {
    if c {
        tick();
    }
}
