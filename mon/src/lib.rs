//! What every monitor shares: the seeded generator, the verdict (violations, known findings,
//! evidence), panic capture, and a deterministic single-threaded executor that knows when its
//! tasks are stuck.
/// for crates that shadow std
pub use ::std as realstd;
use serde_json::{json, Map, Value};
use std::{
    any::Any, collections::{BTreeMap, HashSet}, future::Future, hash::{Hash, Hasher}, panic::{self, AssertUnwindSafe},
    path::PathBuf, pin::Pin, sync::{atomic::{AtomicBool, AtomicU64, Ordering}, Arc, Mutex}, task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- generator
/// xorshift64* seeded through splitmix64
#[derive(Clone, Debug)]
pub struct Rng(std::cell::Cell<u64>);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(std::cell::Cell::new(mix(seed) | 1)) }
    /// An independent generator for case `n`
    pub fn case(seed: u64, n: u64) -> Self { Rng::new(mix(seed).wrapping_add(mix(n ^ 0xabcdef))) }
    pub fn next(&self) -> u64 {
        let mut x = self.0.get();
        x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
        self.0.set(x);
        x.wrapping_mul(0x2545f4914f6cdd1d)
    }
    /// In [0, n)
    pub fn below(&self, n: u64) -> u64 { if n == 0 { 0 } else { (((self.next() >> 11) as u128 * n as u128) >> 53) as u64 } }
    /// In [a, b]
    pub fn range(&self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn usize(&self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn chance(&self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    pub fn shuffle<T>(&self, v: &mut [T]) { for i in (1..v.len()).rev() { v.swap(i, self.usize(i + 1)); } }
    pub fn fill(&self, b: &mut [u8]) { for c in b.chunks_mut(8) { let x = self.next().to_le_bytes(); let n = c.len(); c.copy_from_slice(&x[..n]); } }
    pub fn bytes(&self, n: usize) -> Vec<u8> { let mut v = vec![0; n]; self.fill(&mut v); v }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 { mix(self.0) }
        fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
    }
    let mut f = F(0xcbf29ce484222325); t.hash(&mut f); f.finish()
}

// ---------------------------------------------------------------- verdicts
pub struct Check {
    pub property: String, pub tier: String, pub seed: u64, pub level: &'static str, start: Instant, budget: Duration,
    pub evals: u64, distinct: HashSet<u64>, rule: String, samples: Vec<Value>, max_samples: usize,
    counters: BTreeMap<String, u64>, extra: Map<String, Value>, assumptions: Vec<String>,
    known: Vec<(String, String)>, hit: BTreeMap<String, u64>, root: PathBuf,
}
pub fn root() -> PathBuf { std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif")) }
impl Check {
    pub fn new(property: &str, level: &'static str, rule: &str) -> Self {
        let root = root();
        let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or_else(|| "quick".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = Vec::new();
        for l in std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default().lines() {
            // known: property=ID key=KEY | text
            if let Some(r) = l.strip_prefix("known: property=") {
                let (id, r) = r.split_once(' ').unwrap_or((r, ""));
                if id == property {
                    let r = r.strip_prefix("key=").expect("known-findings.txt: no key=");
                    let (key, text) = r.split_once(" | ").unwrap_or((r, ""));
                    known.push((key.trim().to_string(), text.to_string()));
                }
            }
        }
        let quick = tier == "quick";
        let budget = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 40 } else { 420 });
        install_hook();
        watchdog(property.to_string(), tier.clone(), seed, root.clone());
        Check { property: property.into(), tier, seed, level, start: Instant::now(), budget: Duration::from_secs(budget), evals: 0, distinct: HashSet::new(),
            rule: rule.into(), samples: vec![], max_samples: 4, counters: BTreeMap::new(), extra: Map::new(), assumptions: vec![], known,
            hit: BTreeMap::new(), root }
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    /// A count that depends on the tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough() { thorough } else { quick } }
    /// Still within the time budget?  (Ends exploration early; never decides anything.)
    pub fn time_left(&self) -> bool { beat(); self.start.elapsed() < self.budget }
    pub fn frac_left(&self, f: f64) -> bool { self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * f }
    pub fn eval(&mut self) { beat(); self.evals += 1; }
    pub fn evals(&mut self, n: u64) { beat(); self.evals += n; }
    pub fn distinct(&mut self, h: u64) { self.distinct.insert(h); }
    pub fn count(&mut self, k: &str, n: u64) { beat(); *self.counters.entry(k.into()).or_default() += n; }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.counters.entry(k.into()).or_default(); *e = (*e).max(n); }
    pub fn get(&self, k: &str) -> u64 { self.counters.get(k).copied().unwrap_or(0) }
    pub fn extra(&mut self, k: &str, v: Value) { self.extra.insert(k.into(), v); }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
    pub fn sample(&mut self, v: Value) { if self.samples.len() < self.max_samples { self.samples.push(v); } }
    pub fn wants_sample(&self) -> bool { self.samples.len() < self.max_samples }
    pub fn is_known(&self, key: &str) -> bool { self.known.iter().any(|(k, _)| k == key) }
    /// A violation identified by `key`.  If known-findings.txt lists it, it is only noted;
    /// otherwise the verdict is given here and the process ends.
    pub fn violation(&mut self, key: &str, detail: &Value) {
        if self.is_known(key) { *self.hit.entry(key.into()).or_default() += 1; return; }
        let dir = self.root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.property));
        let v = json!({"property": self.property, "key": key, "seed": self.seed, "tier": self.tier, "detail": detail,
            "replay": format!("VERIF_SEED={} VERIF_TIER={} python3 /verif/run.py {}", self.seed, self.tier, self.property)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        println!("violated: {key}: {}", short(&detail.to_string()));
        println!("VIOLATION property={} replay={}", self.property, path.display());
        self.write(1);
        use std::io::Write; let _ = std::io::stdout().flush();
        if let Some(d) = SCRATCH.lock().unwrap().take() { let _ = std::fs::remove_dir_all(d); }
        // Not exit(): nothing of what was being tested may run any more
        unsafe { _exit(1) }
    }
    /// Give the verdict
    pub fn finish(mut self) -> ! {
        // A listed finding that this run did not meet is listed all the same
        for (k, text) in self.known.clone() {
            let n = self.hit.get(&k).copied().unwrap_or(0);
            println!("KNOWN-FINDING: property={} {} ({}; seen {} times in this run)", self.property, k, text, n);
            self.counters.insert(format!("known_finding {k}"), n);
        }
        if self.evals == 0 || self.distinct.is_empty() {
            eprintln!("nothing was observed: inconclusive");
            unsafe { _exit(3) }
        }
        self.write(0);
        println!("held property={} evaluations={} distinct={} wall={:.1}s {:?}", self.property, self.evals, self.distinct.len(), self.start.elapsed().as_secs_f64(), self.counters);
        use std::io::Write; let _ = std::io::stdout().flush();
        unsafe { _exit(0) }
    }
    fn write(&self, violations: u64) {
        let mut cov = self.extra.clone();
        cov.insert("evaluations".into(), json!(self.evals));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), Value::Array(self.samples.clone()));
        cov.insert("style".into(), json!(self.level));
        cov.insert("observed".into(), json!(self.counters));
        let e = json!({"property": self.property, "tier": self.tier, "seed": self.seed, "level": if self.level == "fault_enumeration" { "fault_enumeration" } else { "exploration" }, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": violations});
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.property)), serde_json::to_string_pretty(&e).unwrap());
    }
}
// ---------------------------------------------------------------- what never ends
static BEATS: AtomicU64 = AtomicU64::new(0);
fn beat() { BEATS.fetch_add(1, Ordering::Relaxed); }
/// Seconds of processor time this process has used
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    (f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)) as f64 / 100.0
}
/// An operation that keeps the processor busy for this long (processor time, of all threads) never ends.
/// Under way between two evaluations of any monitor are a few seconds' worth of work.
const BUSY: f64 = 360.0;
fn watchdog(property: String, tier: String, seed: u64, root: PathBuf) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| { std::thread::spawn(move || {
        let (mut n, mut since, mut max) = (0, cpu(), 0.0f64);
        let v = std::env::var_os("MON_BEAT").is_some();
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let (m, c) = (BEATS.load(Ordering::Relaxed), cpu());
            if c - since > max { max = c - since; if v { eprintln!("{max:.1} s of processor time without an evaluation"); } }
            if m != n { n = m; since = c; continue; }
            if c - since < BUSY { continue; }
            let dir = root.join("evidence"); let path = dir.join("replay").join(format!("{property}.json"));
            let _ = std::fs::create_dir_all(dir.join("replay"));
            let what = format!("what was called {m} evaluations into the run has used {BUSY} s of processor time without an answer");
            let e = json!({"property": property, "tier": tier, "seed": seed, "level": "exploration", "coverage": {"evaluations": m.max(1), "distinct_nontrivial": 1, "rule": "the run never ended", "samples": [what]}, "wall_s": c, "violations": 1});
            let _ = std::fs::write(dir.join(format!("{property}.json")), serde_json::to_string_pretty(&e).unwrap());
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": property, "key": "never ends", "seed": seed, "tier": tier, "detail": what, "replay": format!("VERIF_SEED={seed} VERIF_TIER={tier} python3 /verif/run.py {property}")})).unwrap());
            println!("violated: never ends: {what}");
            println!("VIOLATION property={property} replay={}", path.display());
            use std::io::Write; let _ = std::io::stdout().flush();
            if let Ok(mut d) = SCRATCH.try_lock() { if let Some(d) = d.take() { let _ = std::fs::remove_dir_all(d); } }
            unsafe { _exit(1) }
        }
    }); });
}
/// A directory to remove before leaving
pub static SCRATCH: std::sync::Mutex<Option<std::path::PathBuf>> = std::sync::Mutex::new(None);
extern "C" { fn _exit(c: i32) -> !; }
pub fn short(s: &str) -> String { if s.len() > 600 { let mut e = 600; while !s.is_char_boundary(e) { e -= 1; } format!("{}...", &s[..e]) } else { s.into() } }

// ---------------------------------------------------------------- panics
thread_local! { static LAST: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
pub static PANICS: AtomicU64 = AtomicU64::new(0);
pub static ALL_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static QUIET_ALL: AtomicBool = AtomicBool::new(false);
fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        panic::set_hook(Box::new(|i| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
            let s = format!("{} at {}", m, i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
            if std::env::var_os("MON_BT").is_some() { eprintln!("{s}\n{}", std::backtrace::Backtrace::force_capture()); }
            PANICS.fetch_add(1, Ordering::SeqCst);
            if let Ok(mut a) = ALL_PANICS.lock() { if a.len() < 100 { a.push(s.clone()); } }
            let _ = LAST.try_with(|l| *l.borrow_mut() = Some(s.clone()));
            if QUIET.try_with(|q| q.get()).unwrap_or(0) == 0 && !QUIET_ALL.load(Ordering::Relaxed) { eprintln!("panic: {s}"); }
        }));
    });
}
/// Run `f`; a panic becomes Err(message and place)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    QUIET.with(|q| q.set(q.get() + 1));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| { let m = LAST.with(|l| l.borrow_mut().take()); m.unwrap_or_else(|| payload(&*e)) })
}
fn payload(e: &(dyn Any + Send)) -> String { e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into()) }
/// The part of a panic message that does not vary with the line it came from
pub fn panic_key(m: &str) -> String { m.rsplit_once(" at ").map(|x| x.0).unwrap_or(m).chars().take(80).collect() }

// ---------------------------------------------------------------- executor
struct Flag { woken: AtomicBool, wakes: AtomicU64 }
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) { self.woken.store(true, Ordering::SeqCst); self.wakes.fetch_add(1, Ordering::SeqCst); }
}
/// A set of futures polled by hand, only when woken
pub struct Tasks<T> { v: Vec<Option<(Pin<Box<dyn Future<Output = T>>>, Arc<Flag>)>>, pub done: Vec<Option<T>>, pub polls: u64 }
impl<T> Default for Tasks<T> { fn default() -> Self { Tasks { v: vec![], done: vec![], polls: 0 } } }
impl<T> Tasks<T> {
    pub fn spawn(&mut self, f: impl Future<Output = T> + 'static) -> usize {
        self.v.push(Some((Box::pin(f), Arc::new(Flag { woken: AtomicBool::new(true), wakes: 0.into() })))); self.done.push(None); self.v.len() - 1
    }
    pub fn ready(&self) -> Vec<usize> { self.v.iter().enumerate().filter(|(_, t)| t.as_ref().is_some_and(|t| t.1.woken.load(Ordering::SeqCst))).map(|x| x.0).collect() }
    pub fn pending(&self) -> Vec<usize> { self.v.iter().enumerate().filter(|(_, t)| t.is_some()).map(|x| x.0).collect() }
    pub fn is_pending(&self, i: usize) -> bool { self.v[i].is_some() }
    /// Drop an unfinished task
    pub fn cancel(&mut self, i: usize) { self.v[i] = None; }
    /// Poll task `i` once; true if it finished
    pub fn poll(&mut self, i: usize) -> bool {
        let Some((f, flag)) = self.v[i].as_mut() else { return true };
        flag.woken.store(false, Ordering::SeqCst);
        self.polls += 1;
        let w = Waker::from(flag.clone());
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(t) => { self.v[i] = None; self.done[i] = Some(t); true }
            Poll::Pending => false,
        }
    }
    /// Poll woken tasks in random order until none is woken
    pub fn run(&mut self, rng: &mut Rng, limit: u64) -> bool {
        for _ in 0..limit { let r = self.ready(); if r.is_empty() { return true; } let i = *rng.pick(&r); self.poll(i); }
        false
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().take(64).map(|x| format!("{x:02x}")).collect() }
