//! The runner: deterministic sharded generation, shrinking, replay, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
/// Distinct non-trivial cases are told apart up to this many per shard (memory); beyond it the
/// reported number is a lower bound.
const SEEN_MAX: usize = 5_000_000;

/// What a check observed about one case, for the evidence.
#[derive(Default)]
pub struct Obs { pub nontrivial: bool, pub labels: Vec<&'static str> }
impl Obs {
    pub fn nt(&mut self, b: bool) { self.nontrivial |= b; }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn label_if(&mut self, b: bool, l: &'static str) { if b { self.labels.push(l); } }
}

pub trait Prop: Sized + 'static {
    type Case: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    /// Random cases in the debug-assertion build: (quick, thorough).
    const N: (u64, u64);
    fn strategy(thorough: bool) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, obs: &mut Obs) -> Result<(), String>;
    /// Small-scope enumeration; every case goes through `Sink::eval`.
    fn enumerate(_thorough: bool, _sink: &mut Sink<Self>) {}
}

pub enum Fail { Violation(String), Harness(String) }

thread_local! { static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

fn install_hook() {
    // SAFETY: the handler only touches atomics and sleeps.
    unsafe { signal(6, on_abort as extern "C" fn(std::ffi::c_int) as usize); }
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs `f`, turning a panic raised in the code under test into a message; a panic raised by
/// this harness's own code is an error of the check, never a violation.
pub fn guard<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(m)) => Err(Fail::Violation(m)),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let text = format!("panic at {loc}: {msg}");
            if loc.starts_with("src/") || loc.contains("/verif/harness/") { Err(Fail::Harness(text)) }
            else { Err(Fail::Violation(text)) }
        }
    }
}

fn eval<P: Prop>(case: &P::Case, obs: &mut Obs) -> Result<(), Fail> { guard(|| P::check(case, obs)) }

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Where a case has arrays (JSON pointers), but for arrays inside arrays.
fn arrays_of(v: &serde_json::Value, at: &str, out: &mut Vec<String>) {
    match v {
        serde_json::Value::Array(a) if a.len() > 1 => out.push(at.into()),
        serde_json::Value::Object(o) => for (k, x) in o { arrays_of(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out); },
        _ => {}
    }
}

pub struct Failure<C> { pub case: C, pub msg: String, pub harness: bool }

pub struct Sink<P: Prop> {
    pub shard: u64,
    pub thorough: bool,
    turn: u64,
    pub evals: u64,
    pub enumerated: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    failure: Option<Failure<P::Case>>,
    stop: Arc<AtomicBool>,
    late: Arc<AtomicBool>,
    progress: Arc<AtomicU64>,
    slot: Arc<Slot<P::Case>>,
}

/// What a shard is evaluating, for the watchdog.
struct Slot<C> { case: Mutex<Option<C>>, tick: AtomicU64, thread: Mutex<String> }
impl<C> Slot<C> {
    fn new() -> Self { Slot { case: Mutex::new(None), tick: AtomicU64::new(0), thread: Mutex::new(String::new()) } }
    fn register(&self, index: u64) {
        SHARD.with(|s| s.set(index + 1));
        let t = std::fs::read_link("/proc/thread-self").map(|p| p.display().to_string()).unwrap_or_default();
        if let Ok(mut g) = self.thread.lock() { *g = t; }
    }
    fn set(&self, c: Option<C>) {
        if let Ok(mut g) = self.case.lock() { *g = c; }
        self.tick.fetch_add(1, Ordering::Relaxed);
    }
    /// CPU seconds the shard's thread has used.
    fn cpu(&self) -> Option<f64> {
        let t = self.thread.lock().ok()?.clone();
        let stat = std::fs::read_to_string(format!("/proc/{t}/stat")).ok()?;
        let f: Vec<&str> = stat.rsplit_once(") ")?.1.split(' ').collect();
        Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
    }
}
/// Code under test that overflows its stack, aborts, or allocates without end stops its thread
/// here; the watchdog then reports the case that thread was evaluating.
static CRASH: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static SHARD: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
const CRASH_ABORT: u64 = 1;
const CRASH_MEMORY: u64 = 2;
/// Bytes one case may hold (on the unchanged tree a case holds some kilobytes).
const CASE_BYTES: i64 = 1 << 30;

fn crash_here(kind: u64) {
    #[cfg(feature = "fuzz")]
    guided::crash(kind);
    let shard = SHARD.try_with(Cell::get).unwrap_or(0);
    if shard == 0 { return; }
    let _ = CRASH.compare_exchange(0, kind << 8 | shard, Ordering::SeqCst, Ordering::SeqCst);
    loop { std::thread::sleep(Duration::from_secs(1)); }
}
extern "C" fn on_abort(_: std::ffi::c_int) { crash_here(CRASH_ABORT); }
extern "C" { fn signal(sig: std::ffi::c_int, f: usize) -> usize; }

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { held(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { held(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { held(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
fn held(d: i64) {
    let over = LIVE.try_with(|c| { let v = c.get() + d; c.set(v); d > 0 && v > CASE_BYTES }).unwrap_or(false);
    if over { crash_here(CRASH_MEMORY); }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// CPU seconds after which a case counts as not finishing (on the unchanged tree a case takes
/// well under a millisecond).
const HANG_CPU_S: f64 = 60.0;

impl<P: Prop> Sink<P> {
    /// Whether the next enumerated case belongs to this shard. Call once per case.
    pub fn mine(&mut self) -> bool { self.turn += 1; self.turn % SHARDS == self.shard }
    pub fn done(&self) -> bool { self.failure.is_some() || self.stop.load(Ordering::Relaxed) || self.late.load(Ordering::Relaxed) }

    fn watched(&self, case: &P::Case, obs: &mut Obs) -> Result<(), Fail> {
        LIVE.with(|c| c.set(0));
        self.slot.set(Some(case.clone()));
        let r = eval::<P>(case, obs);
        self.slot.set(None);
        r
    }
    fn note(&mut self, case: &P::Case, obs: &Obs) {
        self.evals += 1;
        self.progress.fetch_add(1, Ordering::Relaxed);
        for l in &obs.labels { *self.labels.entry(l).or_default() += 1; }
        if obs.nontrivial && self.seen.len() < SEEN_MAX {
            let fresh = self.seen.insert(hash_of(case));
            if fresh && (self.samples.is_empty() || self.seen.len() % 997 == 0) && self.samples.len() < 3 {
                self.samples.push(serde_json::to_value(case).unwrap_or_default());
            }
        }
    }

    /// Evaluates an enumerated case. Returns false when the enumeration should end.
    pub fn eval(&mut self, case: P::Case) -> bool {
        if self.failure.is_some() || self.stop.load(Ordering::Relaxed) { return false; }
        self.enumerated += 1;
        let mut obs = Obs::default();
        let r = self.watched(&case, &mut obs);
        self.note(&case, &obs);
        if let Err(f) = r { let (case, f) = self.prune(case, f); self.fail(case, f); return false; }
        true
    }
    /// Shrinks an enumerated case: leaves out runs of the elements of its sequences while it
    /// goes on failing.
    fn prune(&mut self, case: P::Case, f: Fail) -> (P::Case, Fail) {
        let (mut best, mut budget, t0) = ((case, f), 5_000u32, Instant::now());
        if matches!(best.1, Fail::Harness(_)) { return best; }
        let Ok(mut v) = serde_json::to_value(&best.0) else { return best };
        let mut arrays = vec![];
        arrays_of(&v, "", &mut arrays);
        for at in arrays {
            let len = |v: &serde_json::Value| v.pointer(&at).and_then(|a| a.as_array()).map_or(0, |a| a.len());
            let mut chunk = len(&v);
            while chunk > 0 {
                let mut from = 0;
                while from < len(&v) {
                    if budget == 0 || t0.elapsed() > Duration::from_secs(60) { return best; }
                    budget -= 1;
                    self.progress.fetch_add(1, Ordering::Relaxed);
                    let mut w = v.clone();
                    if let Some(a) = w.pointer_mut(&at).and_then(|a| a.as_array_mut()) { a.drain(from..(from + chunk).min(a.len())); }
                    // What is no sequence (a pair, say) cannot be read back, and stays.
                    let Ok(c) = serde_json::from_value::<P::Case>(w.clone()) else { from += chunk; continue };
                    match self.watched(&c, &mut Obs::default()) {
                        Err(f @ Fail::Violation(_)) => { best = (c, f); v = w; }
                        _ => from += chunk,
                    }
                }
                chunk /= 2;
            }
        }
        best
    }
    /// Counts a transition that an enumeration evaluated itself.
    pub fn step(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        self.enumerated += 1;
        self.progress.fetch_add(1, Ordering::Relaxed);
        if nontrivial && self.seen.len() < SEEN_MAX { self.seen.insert(key); }
    }
    /// Evaluates an enumerated case if it is this shard's turn.
    pub fn turn(&mut self, case: impl FnOnce() -> P::Case) -> bool {
        if self.done() { false } else if self.mine() { self.eval(case()) } else { true }
    }
    fn fail(&mut self, case: P::Case, f: Fail) {
        let (msg, harness) = match f { Fail::Violation(m) => (m, false), Fail::Harness(m) => (m, true) };
        self.failure = Some(Failure { case, msg, harness });
        self.stop.store(true, Ordering::Relaxed);
    }

    fn random(&mut self, seed: u64, n: u64) {
        let mut bytes = [0u8; 32];
        for (i, chunk) in bytes.chunks_mut(8).enumerate() {
            chunk.copy_from_slice(&hash_of(&(seed, P::ID, self.shard, i as u64, "nicheck")).to_le_bytes());
        }
        let config = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
        let strat = P::strategy(self.thorough);
        for _ in 0..n {
            if self.done() { return; }
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => { eprintln!("generator rejected: {e}"); std::process::exit(2) }
            };
            let case = tree.current();
            let mut obs = Obs::default();
            let r = self.watched(&case, &mut obs);
            self.note(&case, &obs);
            if let Err(f) = r {
                let (case, f) = self.shrink(&mut tree, case, f);
                self.fail(case, f);
                return;
            }
        }
    }

    fn shrink(&mut self, tree: &mut impl ValueTree<Value = P::Case>, case: P::Case, f: Fail) -> (P::Case, Fail) {
        let mut best = (case, f);
        if matches!(best.1, Fail::Harness(_)) { return best; }
        let mut budget = 20_000u32;
        let t0 = Instant::now();
        let mut more = tree.simplify();
        while more && budget > 0 && t0.elapsed() < Duration::from_secs(60) {
            budget -= 1;
            self.progress.fetch_add(1, Ordering::Relaxed);
            let c = tree.current();
            match self.watched(&c, &mut Obs::default()) {
                Err(f @ Fail::Violation(_)) => { best = (c, f); more = tree.simplify(); }
                _ => more = tree.complicate(),
            }
        }
        best
    }
}

struct Args { seed: u64, thorough: bool, sub: bool, scale: f64, release: Option<String>, guided: Option<String> }

fn profile() -> &'static str { if cfg!(debug_assertions) { "debug-assertions" } else if cfg!(feature = "with-serde") { "release" } else { "release, without the serde feature" } }

fn verif_dir() -> std::path::PathBuf {
    std::env::var("NICHECK_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

fn write_replay<P: Prop>(f: &Failure<P::Case>) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:016x}.json", P::ID, if cfg!(debug_assertions) { "debug" } else { "release" }, hash_of(&f.case)));
    let v = serde_json::json!({"property": P::ID, "profile": profile(), "message": f.msg,
        "case": serde_json::to_value(&f.case).unwrap_or_else(|_| format!("{:?}", f.case).into())});
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default()) {
        eprintln!("cannot write replay: {e}");
    }
    path.display().to_string()
}

/// The outcome of one process's share: 0 held, 1 violation printed, 2 error.
fn run_share<P: Prop>(a: &Args) -> i32 {
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let late = Arc::new(AtomicBool::new(false));
    let progress = Arc::new(AtomicU64::new(0));
    let finished = Arc::new(AtomicBool::new(false));
    let slots: Vec<Arc<Slot<P::Case>>> = (0..=SHARDS).map(|_| Arc::new(Slot::new())).collect();
    {
        let (progress, finished, slots, late) = (progress.clone(), finished.clone(), slots.clone(), late.clone());
        let limit = if a.thorough { 5400 } else { 800 };
        // Much slower code (or machine) than when the numbers of cases were chosen: end the search
        // with what was explored until then, and say so in the evidence.
        let soft = match (a.thorough, a.sub) { (true, _) => 5000, (false, false) => 400, (false, true) => 250 };
        std::thread::spawn(move || {
            let (mut last, mut at) = (0, Instant::now());
            let mut since: Vec<(u64, Option<f64>)> = vec![(u64::MAX, None); slots.len()];
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(250));
                let crash = CRASH.load(Ordering::SeqCst);
                if crash != 0 {
                    let case = slots.get((crash & 255) as usize - 1).and_then(|s| s.case.lock().ok().and_then(|g| g.clone()));
                    match case {
                        None => { eprintln!("ERROR {}: aborted outside a case", P::ID); std::process::exit(2) }
                        Some(case) => {
                            let m = if crash >> 8 == CRASH_ABORT { "aborts the process (stack overflow or abort)".to_string() }
                                else { format!("allocates without end: holds more than {CASE_BYTES} bytes") };
                            std::process::exit(report::<P>(case, Fail::Violation(m)));
                        }
                    }
                }
                // A case that never finishes is a violation: no operation here may hang.
                for (s, was) in slots.iter().zip(&mut since) {
                    let (tick, cpu) = (s.tick.load(Ordering::Relaxed), s.cpu());
                    if tick != was.0 { *was = (tick, cpu); continue; }
                    if let (Some(c0), Some(c1)) = (was.1, cpu) {
                        if c1 - c0 > HANG_CPU_S {
                            let case = s.case.lock().ok().and_then(|g| g.clone());
                            if let (Some(case), true) = (case, s.tick.load(Ordering::Relaxed) == tick) {
                                let m = format!("does not finish: still running after {HANG_CPU_S} s of processor time");
                                std::process::exit(report::<P>(case, Fail::Violation(m)));
                            }
                        }
                    }
                }
                if t0.elapsed() > Duration::from_secs(soft) { late.store(true, Ordering::Relaxed); }
                let p = progress.load(Ordering::Relaxed);
                if p != last { last = p; at = Instant::now(); }
                if at.elapsed() > Duration::from_secs(300) || t0.elapsed() > Duration::from_secs(limit) {
                    eprintln!("ERROR {}: no answer (no case finishes, or the time limit passed); inconclusive", P::ID);
                    std::process::exit(2);
                }
            }
        });
    }

    // Saved inputs first.
    let mut corpus = 0u64;
    let dir = verif_dir().join("corpus").join(P::ID);
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let case = match load::<P>(&f.display().to_string()) { Ok(c) => c, Err(e) => { eprintln!("ERROR corpus {}: {e}", f.display()); return 2 } };
        corpus += 1;
        slots[SHARDS as usize].register(SHARDS);
        slots[SHARDS as usize].set(Some(case.clone()));
        if let Err(e) = eval::<P>(&case, &mut Obs::default()) { return report::<P>(case, e); }
        slots[SHARDS as usize].set(None);
    }

    let n = if a.thorough { P::N.1 } else { P::N.0 };
    let n = ((n as f64) * a.scale).ceil() as u64;
    let mut handles = vec![];
    for shard in 0..SHARDS {
        let (stop, late, progress, slot) = (stop.clone(), late.clone(), progress.clone(), slots[shard as usize].clone());
        let (seed, thorough) = (a.seed, a.thorough);
        handles.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut s: Sink<P> = Sink { shard, thorough, turn: 0, evals: 0, enumerated: 0, seen: HashSet::new(), labels: BTreeMap::new(),
                samples: vec![], failure: None, stop, late, progress, slot };
            s.slot.register(s.shard);
            P::enumerate(thorough, &mut s);
            s.random(seed, n / SHARDS + 1);
            s
        }).expect("spawn"));
    }
    let mut evals = corpus;
    let mut enumerated = 0;
    let mut seen = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut failure = None;
    for h in handles {
        let s = match h.join() { Ok(s) => s, Err(_) => {
            let p = PANIC.with(|p| p.borrow_mut().take());
            eprintln!("ERROR {}: harness thread panicked {:?}", P::ID, p);
            return 2
        } };
        evals += s.evals;
        enumerated += s.enumerated;
        seen.extend(s.seen);
        for (l, n) in s.labels { *labels.entry(l.into()).or_default() += n; }
        if samples.len() < 6 { samples.extend(s.samples.into_iter().take(2)); }
        if failure.is_none() { failure = s.failure; }
    }
    finished.store(true, Ordering::Relaxed);

    let mut sub = serde_json::Value::Null;
    let mut code = 0;
    if let Some(f) = failure {
        code = report::<P>(f.case, if f.harness { Fail::Harness(f.msg) } else { Fail::Violation(f.msg) });
    } else if let Some(bin) = &a.release {
        // The same property on the build users ship, with its own random cases.
        let out = std::process::Command::new(bin)
            .args(["run", P::ID, "--sub", "--seed", &(a.seed ^ 0x5eed).to_string(), "--tier", if a.thorough { "thorough" } else { "quick" }])
            .stderr(std::process::Stdio::inherit()).output();
        match out {
            Err(e) => { eprintln!("ERROR cannot run {bin}: {e}"); return 2 }
            Ok(o) => {
                let text = String::from_utf8_lossy(&o.stdout);
                for l in text.lines() {
                    if let Some(j) = l.strip_prefix("SUB ") { sub = serde_json::from_str(j).unwrap_or_default(); } else { println!("{l}"); }
                }
                code = o.status.code().unwrap_or(2);
            }
        }
    }
    if code == 2 { return 2; }
    let mut guided = serde_json::Value::Null;
    if let (0, Some(bin)) = (code, &a.guided) {
        let (c, v) = guided_share::<P>(bin, a);
        if c == 2 { return 2; }
        (code, guided) = (c, v);
    }

    let mut coverage = serde_json::json!({
        "evaluations": evals, "distinct_nontrivial": seen.len(), "rule": P::RULE, "samples": samples,
        "enumerated": enumerated, "random": evals - enumerated - corpus, "corpus_replayed": corpus,
        "distinct_is_lower_bound": seen.len() >= SEEN_MAX, "labels": labels, "shards": SHARDS, "profile": profile(),
        "ended_by_time": late.load(Ordering::Relaxed),
    });
    if a.sub { println!("SUB {}", coverage); return code; }
    if !sub.is_null() {
        coverage["evaluations"] = (evals + sub["evaluations"].as_u64().unwrap_or(0)).into();
        if let Some(o) = sub.as_object_mut() { o.remove("rule"); o.remove("samples"); }
        coverage["release_build_share"] = sub;
    }
    if !guided.is_null() {
        coverage["evaluations"] = (coverage["evaluations"].as_u64().unwrap_or(0) + guided["evaluations"].as_u64().unwrap_or(0)).into();
        coverage["coverage_guided_share"] = guided;
    }
    let ev = serde_json::json!({
        "property": P::ID, "tier": if a.thorough { "thorough" } else { "quick" }, "seed": a.seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": ["the reference model in /verif/harness is right", "rustc and the standard library are right",
            "point types are lawful: Ord, Eq, Hash, Clone and Finite agree with each other"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": code,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap_or_default() + "\n") {
        eprintln!("ERROR cannot write evidence: {e}");
        return 2;
    }
    println!("{} {}: {} evaluations, {} distinct non-trivial, {:.1}s", P::ID, if code == 0 { "held" } else { "VIOLATED" },
        ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], t0.elapsed().as_secs_f64());
    code
}

/// The coverage-guided share: one libFuzzer process per shard, each with its own seed.
fn guided_share<P: Prop>(bin: &str, a: &Args) -> (i32, serde_json::Value) {
    let seconds = ((if a.thorough { 900.0 } else { 20.0 }) * a.scale).ceil() as u64;
    let scratch = std::env::temp_dir().join(format!("nicheck-{}-{}", P::ID, std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&scratch) { eprintln!("ERROR scratch: {e}"); return (2, serde_json::Value::Null) }
    let threads: Vec<_> = (0..SHARDS).map(|i| {
        let crash = scratch.join(format!("crash-{i}"));
        let mut cmd = std::process::Command::new(bin);
        cmd.args(["fuzz", P::ID, "--seed", &(a.seed * 100 + i).to_string(), "--seconds", &seconds.to_string(), "--crash"]).arg(&crash)
            .env("NICHECK_DIR", verif_dir()).current_dir(&scratch).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
        std::thread::spawn(move || (cmd.spawn().and_then(|c| c.wait_with_output()), crash))
    }).collect();
    let (mut code, mut evals, mut distinct, mut edges, mut features, mut broken) = (0, 0, 0, 0u64, 0u64, 0);
    for t in threads {
        let Ok((Ok(out), crash)) = t.join() else { broken += 1; continue };
        let text = String::from_utf8_lossy(&out.stdout);
        for l in text.lines() {
            match l.strip_prefix("SUB ").and_then(|j| serde_json::from_str::<serde_json::Value>(j).ok()) {
                Some(v) => { evals += v["evaluations"].as_u64().unwrap_or(0); distinct += v["distinct_nontrivial"].as_u64().unwrap_or(0); }
                None => if code == 0 { println!("{l}") },
            }
        }
        let err = String::from_utf8_lossy(&out.stderr);
        let last = |key: &str| err.lines().rev().find_map(|l| l.split_once(key).and_then(|(_, r)| r.trim().split(' ').next().and_then(|n| n.parse::<u64>().ok()))).unwrap_or(0);
        (edges, features) = (edges.max(last(" cov: ")), features.max(last(" ft: ")));
        match out.status.code() {
            Some(0) => (),
            Some(1) => code = 1,
            Some(77) if code == 0 => {
                let Ok(mut bytes) = std::fs::read(&crash) else { broken += 1; continue };
                let kind = bytes.pop();
                let m = if kind == Some(CRASH_ABORT as u8) { "aborts the process (stack overflow or abort)".to_string() }
                    else if kind == Some(CRASH_MEMORY as u8) { format!("allocates without end: holds more than {CASE_BYTES} bytes") }
                    else { format!("does not finish: still running after {HANG_CPU_S} s of processor time") };
                match serde_json::from_slice::<P::Case>(&bytes) { Ok(c) => code = report::<P>(c, Fail::Violation(m)), Err(_) => broken += 1 }
            }
            Some(77) => (),
            other => { eprintln!("coverage-guided process ended with {other:?}: {}", err.lines().last().unwrap_or_default()); broken += 1; }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    (code, serde_json::json!({"engine": "libFuzzer; cases mutated by structure", "processes": SHARDS, "seconds": seconds, "evaluations": evals,
        "distinct_nontrivial_per_process_summed": distinct, "most_edges": edges, "most_features": features, "processes_without_result": broken}))
}

/// A libFuzzer process: its inputs are cases written as JSON, its mutator grafts parts of cases
/// onto one another.
#[cfg(feature = "fuzz")]
mod guided {
    use super::*;
    use serde_json::Value;
    use std::ffi::{c_char, c_int, CString};
    use std::sync::atomic::{AtomicI32, AtomicPtr, AtomicUsize};

    extern "C" {
        fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, one: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
        fn LLVMFuzzerMutate(data: *mut u8, n: usize, max: usize) -> usize;
        fn _exit(code: c_int) -> !;
        fn write(fd: c_int, data: *const u8, n: usize) -> isize;
    }
    static DATA: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
    static LEN: AtomicUsize = AtomicUsize::new(0);
    static FD: AtomicI32 = AtomicI32::new(-1);
    static TICK: AtomicU64 = AtomicU64::new(0);

    /// Saves the input being evaluated and ends the process.
    pub fn crash(kind: u64) {
        let (fd, data, n) = (FD.load(Ordering::SeqCst), DATA.load(Ordering::SeqCst), LEN.load(Ordering::SeqCst));
        if fd < 0 || data.is_null() { return; }
        let kind = kind as u8;
        // SAFETY: libFuzzer's buffer outlives the evaluation; the rest is async-signal-safe.
        unsafe { write(fd, data, n); write(fd, &kind, 1); _exit(77) }
    }
    struct State<P: Prop> { sink: Sink<P>, strat: BoxedStrategy<P::Case>, t0: Instant, seconds: u64, rejected: u64 }
    trait Machine { fn evaluate(&mut self, bytes: &[u8]) -> c_int; fn mutate(&mut self, bytes: &[u8], max: usize, seed: u32) -> Vec<u8>; }
    thread_local! { static STATE: RefCell<Option<Box<dyn Machine>>> = const { RefCell::new(None) }; }
    fn with<R: Default>(f: impl FnOnce(&mut dyn Machine) -> R) -> R {
        STATE.with(|s| s.borrow_mut().as_mut().map(|m| f(&mut **m)).unwrap_or_default())
    }
    // SAFETY of the slices below: libFuzzer passes valid buffers.
    fn slice<'a>(data: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, n) } } }

    extern "C" fn one(data: *const u8, n: usize) -> c_int {
        DATA.store(data as *mut u8, Ordering::SeqCst);
        LEN.store(n, Ordering::SeqCst);
        TICK.fetch_add(1, Ordering::SeqCst);
        with(|m| m.evaluate(slice(data, n)))
    }
    #[no_mangle]
    pub extern "C" fn LLVMFuzzerCustomMutator(data: *mut u8, n: usize, max: usize, seed: u32) -> usize {
        let out = with(|m| m.mutate(slice(data, n), max, seed));
        unsafe { std::ptr::copy_nonoverlapping(out.as_ptr(), data, out.len().min(max)) };
        out.len().min(max)
    }

    struct Rng(u64);
    impl Rng {
        fn below(&mut self, n: usize) -> usize {
            self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (self.0 >> 33) as usize % n.max(1)
        }
    }
    /// The places in a value: how it is reached, and that with every array index left out.
    fn places(v: &Value, at: &mut String, kind: &mut String, out: &mut Vec<(String, String)>) {
        if out.len() > 5_000 { return; }
        out.push((at.clone(), kind.clone()));
        let (n, k) = (at.len(), kind.len());
        match v {
            Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push_str(&format!("/{i}")); kind.push_str("/*"); places(x, at, kind, out); at.truncate(n); kind.truncate(k); },
            Value::Object(o) => for (key, x) in o {
                let key = key.replace('~', "~0").replace('/', "~1");
                at.push('/'); at.push_str(&key); kind.push('/'); kind.push_str(&key);
                places(x, at, kind, out);
                at.truncate(n); kind.truncate(k);
            },
            _ => {}
        }
    }
    fn places_of(v: &Value) -> Vec<(String, String)> { let mut out = vec![]; places(v, &mut String::new(), &mut String::new(), &mut out); out }

    impl<P: Prop> State<P> {
        fn fresh(&self, seed: u64) -> Option<Value> {
            let mut bytes = [0u8; 32];
            bytes[..8].copy_from_slice(&seed.to_le_bytes());
            let config = Config { failure_persistence: None, ..Config::default() };
            let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
            self.strat.new_tree(&mut runner).ok().and_then(|t| serde_json::to_value(t.current()).ok())
        }
        /// One change of the value, unless it would make it unreadable.
        fn change(&self, v: &Value, r: &mut Rng) -> Option<Value> {
            let mut w = v.clone();
            let mine = places_of(v);
            let (at, kind) = &mine[r.below(mine.len())];
            let what = r.below(8);
            let len = w.pointer(at).and_then(Value::as_array).map_or(0, Vec::len);
            if let (Some(Value::String(t)), true) = (w.pointer_mut(at), what < 6) {
                let mut bytes = t.clone().into_bytes();
                let n = bytes.len();
                bytes.resize(n + 64, 0);
                let n = unsafe { LLVMFuzzerMutate(bytes.as_mut_ptr(), n, n + 64) };
                bytes.truncate(n);
                *t = String::from_utf8_lossy(&bytes).into_owned();
            } else if len > 0 && what < 4 {
                let other = self.fresh(r.below(usize::MAX) as u64)?;
                let a = w.pointer_mut(at)?.as_array_mut()?;
                let (i, j) = (r.below(len), r.below(len));
                match what {
                    0 => { let k = (i + 1 + r.below(3)).min(len); a.drain(i..k); }
                    1 => { let x = a[i].clone(); a.insert(j, x); }
                    2 => a.swap(i, j),
                    _ => {
                        let of = format!("{kind}/*");
                        let theirs: Vec<_> = places_of(&other).into_iter().filter(|(_, k)| *k == of).collect();
                        if theirs.is_empty() { return None; }
                        for _ in 0..1 + r.below(3) { let x = other.pointer(&theirs[r.below(theirs.len())].0)?.clone(); let i = r.below(a.len() + 1); a.insert(i, x); }
                    }
                }
            } else {
                // The like part of another place in this case, or of a fresh case.
                let other = if what % 2 == 0 { v.clone() } else { self.fresh(r.below(usize::MAX) as u64)? };
                let theirs: Vec<_> = places_of(&other).into_iter().filter(|(_, k)| k == kind).collect();
                if theirs.is_empty() { return None; }
                let x = other.pointer(&theirs[r.below(theirs.len())].0)?.clone();
                *w.pointer_mut(at)? = x;
            }
            serde_json::from_value::<P::Case>(w.clone()).ok().map(|_| w)
        }
    }
    impl<P: Prop> Machine for State<P> {
        fn mutate(&mut self, bytes: &[u8], max: usize, seed: u32) -> Vec<u8> {
            let mut r = Rng(u64::from(seed) << 20 | 1);
            for _ in 0..3 { r.below(1); }
            let read = serde_json::from_slice::<Value>(bytes).ok().filter(|v| v.is_object() || v.is_string());
            let mut v = match read {
                Some(v) if r.below(40) != 0 => v,
                _ => return self.fresh(r.0).and_then(|v| serde_json::to_vec(&v).ok()).filter(|b| b.len() <= max).unwrap_or_default(),
            };
            for _ in 0..1 + r.below(3) {
                for _ in 0..4 { if let Some(w) = self.change(&v, &mut r) { v = w; break; } }
            }
            serde_json::to_vec(&v).ok().filter(|b| b.len() <= max).unwrap_or_default()
        }
        fn evaluate(&mut self, bytes: &[u8]) -> c_int {
            let mut kept = -1;
            if let Ok(case) = serde_json::from_slice::<P::Case>(bytes) {
                kept = 0;
                let mut obs = Obs::default();
                match self.sink.watched(&case, &mut obs) {
                    // The mutator went where the generators do not go.
                    Err(Fail::Harness(_)) => { self.rejected += 1; kept = -1; }
                    Err(f) => {
                        let (case, f) = self.sink.prune(case, f);
                        let code = report::<P>(case, f);
                        // SAFETY: ends the process.
                        unsafe { _exit(code) }
                    }
                    Ok(()) => self.sink.note(&case, &obs),
                }
            }
            if self.t0.elapsed() > Duration::from_secs(self.seconds) {
                println!("SUB {}", serde_json::json!({"evaluations": self.sink.evals, "distinct_nontrivial": self.sink.seen.len(), "outside": self.rejected}));
                // SAFETY: ends the process.
                unsafe { _exit(0) }
            }
            kept
        }
    }
    pub fn run<P: Prop>(argv: &[String]) -> i32 {
        let get = |k: &str| argv.iter().position(|x| x == k).and_then(|i| argv.get(i + 1)).cloned();
        let seed: u32 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
        let seconds = get("--seconds").and_then(|x| x.parse().ok()).unwrap_or(20);
        if let Some(f) = get("--crash").and_then(|p| std::fs::File::create(p).ok()) {
            use std::os::fd::IntoRawFd;
            FD.store(f.into_raw_fd(), Ordering::SeqCst);
        }
        let slot = Arc::new(Slot::new());
        slot.register(0);
        let sink = Sink { shard: 0, thorough: true, turn: 0, evals: 0, enumerated: 0, seen: HashSet::new(), labels: BTreeMap::new(), samples: vec![], failure: None,
            stop: Arc::default(), late: Arc::default(), progress: Arc::default(), slot: slot.clone() };
        STATE.with(|s| *s.borrow_mut() = Some(Box::new(State::<P> { sink, strat: P::strategy(true), t0: Instant::now(), seconds, rejected: 0 })));
        // A case that never finishes.
        std::thread::spawn(move || {
            let (mut tick, mut was) = (u64::MAX, 0.0);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let (t, c) = (TICK.load(Ordering::SeqCst), slot.cpu().unwrap_or(0.0));
                if t != tick { (tick, was) = (t, c) } else if c - was > HANG_CPU_S && slot.case.lock().is_ok_and(|g| g.is_some()) { crash(0) }
            }
        });
        std::hint::black_box(LLVMFuzzerCustomMutator as extern "C" fn(*mut u8, usize, usize, u32) -> usize);
        let args: Vec<CString> = ["nicheck".into(), format!("-seed={}", seed % 1_000_000 + 1), "-max_len=40000".into(), "-len_control=0".into(), "-timeout=1000000".into(),
            "-rss_limit_mb=0".into(), "-malloc_limit_mb=0".into(), format!("-use_value_profile={}", seed % 2), "-detect_leaks=0".into(), "-reload=0".into()]
            .into_iter().filter_map(|x: String| CString::new(x).ok()).collect();
        let mut ptrs: Vec<*mut c_char> = args.iter().map(|a| a.as_ptr() as *mut c_char).chain([std::ptr::null_mut()]).collect();
        let (mut argc, mut argv) = (args.len() as c_int, ptrs.as_mut_ptr());
        // SAFETY: the arguments are a C argument vector that outlives the call.
        unsafe { LLVMFuzzerRunDriver(&mut argc, &mut argv, one) }
    }
}

fn report<P: Prop>(case: P::Case, f: Fail) -> i32 {
    match f {
        Fail::Harness(m) => { eprintln!("ERROR {} harness: {m}\ncase {:?}", P::ID, case); 2 }
        Fail::Violation(m) => {
            let f = Failure { case, msg: m, harness: false };
            let path = write_replay::<P>(&f);
            println!("{}: {}\n  minimal case: {}", P::ID, f.msg, serde_json::to_string(&f.case).unwrap_or_default());
            println!("VIOLATION property={} replay={}", P::ID, path);
            1
        }
    }
}

fn load<P: Prop>(path: &str) -> Result<P::Case, String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    serde_json::from_value(v["case"].clone()).map_err(|e| e.to_string())
}

pub type Entry = (&'static str, fn(&[String]) -> i32);

/// Entry point of one property: `run <id> …` or `replay <id> <file>`.
pub fn entry<P: Prop>(argv: &[String]) -> i32 {
    if argv[0] == "replay" {
        let case = match load::<P>(&argv[2]) { Ok(c) => c, Err(e) => { eprintln!("ERROR {e}"); return 2 } };
        return match eval::<P>(&case, &mut Obs::default()) {
            Ok(()) => { println!("{} replay holds", P::ID); 0 }
            Err(Fail::Harness(m)) => { eprintln!("ERROR harness: {m}"); 2 }
            Err(Fail::Violation(m)) => { println!("{}: {m}\nVIOLATION property={} replay={}", P::ID, P::ID, argv[2]); 1 }
        };
    }
    if argv[0] == "fuzz" {
        #[cfg(feature = "fuzz")]
        return guided::run::<P>(argv);
        #[cfg(not(feature = "fuzz"))]
        { eprintln!("ERROR built without the feature `fuzz`"); return 2 }
    }
    let mut a = Args { seed: 1, thorough: false, sub: false, scale: 1.0, release: None, guided: None };
    let mut it = argv[2..].iter();
    while let Some(x) = it.next() {
        match x.as_str() {
            "--seed" => a.seed = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            "--tier" => a.thorough = it.next().map(String::as_str) == Some("thorough"),
            "--scale" => a.scale = it.next().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            "--release-bin" => a.release = it.next().cloned(),
            "--fuzz-bin" => a.guided = it.next().cloned(),
            "--sub" => { a.sub = true; a.scale = 0.3; }
            other => { eprintln!("ERROR unknown argument {other}"); return 2 }
        }
    }
    run_share::<P>(&a)
}

pub fn main(entries: &[Entry]) -> ! {
    install_hook();
    let argv: Vec<String> = std::env::args().skip(1).collect();
    if argv.len() < 2 { eprintln!("usage: run|replay <id> …"); std::process::exit(2) }
    for (id, f) in entries {
        if *id == argv[1] { std::process::exit(f(&argv)) }
    }
    eprintln!("ERROR unknown property {}", argv[1]);
    std::process::exit(2)
}
