//! The generate / judge / shrink / report loop.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::fs;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};

/// Number of generation streams. Fixed, so that a run does not depend on the machine.
const WORKERS: usize = 8;

/// A case failed. `sig` identifies the kind of failure, for the known findings.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

impl Fail {
    pub fn new(sig: &str, msg: String) -> Fail {
        Fail { sig: sig.to_string(), msg }
    }
}

/// An unexpected error of the library on a valid input fails the case.
impl From<quantmath::core::qm::Error> for Fail {
    fn from(e: quantmath::core::qm::Error) -> Fail {
        Fail::new("unexpected-error", format!("unexpected error from the library: {}", e))
    }
}

impl From<serde_json::Error> for Fail {
    fn from(e: serde_json::Error) -> Fail {
        Fail::new("unexpected-json-error", format!("unexpected json error: {}", e))
    }
}

macro_rules! say {
    ($($arg:tt)*) => { say(format!($($arg)*)) };
}

#[macro_export]
macro_rules! bail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::Fail::new($sig, format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::Fail::new($sig, format!($($arg)*))); }
    };
}

/// What one evaluation of a case reports besides pass or fail.
pub struct Obs {
    nontrivial: bool,
    tags: BTreeSet<String>,
    counts: BTreeMap<String, u64>,
    findings: Vec<(String, String)>,
    known: Arc<HashSet<String>>,
}

impl Obs {
    fn new(known: Arc<HashSet<String>>) -> Obs {
        Obs { nontrivial: false, tags: BTreeSet::new(), counts: BTreeMap::new(), findings: Vec::new(), known }
    }
    /// Marks the case as non-trivial by the rule stated for the sub.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
    pub fn tag(&mut self, t: &str) {
        self.tags.insert(t.to_string());
    }
    pub fn tag_if(&mut self, b: bool, t: &str) {
        if b {
            self.tag(t);
        }
    }
    pub fn count(&mut self, t: &str, n: u64) {
        *self.counts.entry(t.to_string()).or_insert(0) += n;
    }
    /// A deviation which may be listed as a known finding. If it is, it is counted and
    /// the case carries on; otherwise it fails the case.
    pub fn finding(&mut self, sig: &str, msg: String) -> R {
        if self.known.contains(sig) {
            self.findings.push((sig.to_string(), msg));
            Ok(())
        } else {
            Err(Fail::new(sig, msg))
        }
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.contains(sig)
    }
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<Value>,
    findings: BTreeMap<String, (u64, String)>,
}

impl Tally {
    fn merge(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.tags {
            *self.tags.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        if self.samples.len() < 3 {
            self.samples.extend(o.samples);
            self.samples.truncate(3);
        }
        for (k, (n, m)) in o.findings {
            let e = self.findings.entry(k).or_insert((0, m));
            e.0 += n;
        }
    }
}

struct Failure {
    worker: usize,
    case: Value,
    original: Value,
    shrink_steps: u64,
    fail: Fail,
}

trait SubRun {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn run(&self, ctx: &Ctx) -> (Tally, Option<Failure>);
    fn replay(&self, ctx: &Ctx, case: &Value) -> Result<Result<Tally, Fail>, String>;
}

struct Sub<T> {
    name: String,
    rule: String,
    quick: u64,
    thorough: u64,
    isolate: bool,
    gen: Arc<dyn Fn() -> BoxedStrategy<T> + Send + Sync>,
    test: Arc<dyn Fn(&T, &mut Obs) -> R + Send + Sync>,
}

struct Ctx {
    property: String,
    seed: u64,
    thorough: bool,
    known: Arc<HashSet<String>>,
    scale: f64,
    journal: Option<PathBuf>,
    deadline: Option<Instant>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", what, loc));
    }));
}

/// Runs library code that must not panic, giving the panic message if it does.
pub fn no_panic<A>(f: impl FnOnce() -> A) -> Result<A, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn judge<T>(test: &(dyn Fn(&T, &mut Obs) -> R + Send + Sync), case: &T, known: &Arc<HashSet<String>>) -> (Obs, R) {
    let mut obs = Obs::new(known.clone());
    let r = match catch_unwind(AssertUnwindSafe(|| test(case, &mut obs))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Fail::new("panic", format!("panicked on a valid input: {}", m)))
        }
    };
    (obs, r)
}

fn hash64<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn seed_bytes(parts: &[u64]) -> [u8; 32] {
    // splitmix over the parts, enough to separate the streams
    let mut x: u64 = 0x9e3779b97f4a7c15;
    let mut out = [0u8; 32];
    for p in parts {
        x ^= *p;
        x = x.wrapping_mul(0xbf58476d1ce4e5b9).rotate_left(31).wrapping_add(0x94d049bb133111eb);
    }
    for i in 0..4 {
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        out[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn clip(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v.clone()
    } else {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        json!(format!("{} ... ({} characters)", &s[..end], s.len()))
    }
}

impl<T> Sub<T>
where
    T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
{
    fn note(&self, tally: &mut Tally, case: &T, obs: Obs) {
        tally.evaluations += 1;
        if obs.nontrivial {
            tally.nontrivial += 1;
            let text = serde_json::to_string(case).unwrap_or_else(|_| format!("{:?}", case));
            tally.distinct.insert(hash64(&text));
            if tally.samples.len() < 1 {
                tally.samples.push(clip(&serde_json::to_value(case).unwrap_or(Value::Null)));
            }
        }
        for t in obs.tags {
            *tally.tags.entry(t).or_insert(0) += 1;
        }
        for (k, n) in obs.counts {
            *tally.counts.entry(k).or_insert(0) += n;
        }
        for (sig, msg) in obs.findings {
            let e = tally.findings.entry(sig).or_insert((0, msg));
            e.0 += 1;
        }
    }

    fn worker(&self, ctx: &Ctx, w: usize, stop: &AtomicBool) -> (Tally, Option<Failure>) {
        let total = ((if ctx.thorough { self.thorough } else { self.quick }) as f64 * ctx.scale).ceil() as u64;
        let n = total / WORKERS as u64 + if (w as u64) < total % WORKERS as u64 { 1 } else { 0 };
        let seed = seed_bytes(&[ctx.seed, fnv(&ctx.property), fnv(&self.name), w as u64]);
        let config = Config { failure_persistence: None, max_local_rejects: 10_000_000, max_global_rejects: 10_000_000, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let strategy = (self.gen)();
        let mut tally = Tally::default();
        for _ in 0..n {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let mut tree = match strategy.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("generator of {}/{} failed: {}", ctx.property, self.name, e);
                    exit(4);
                }
            };
            let case = tree.current();
            self.journal(ctx, w, &case);
            let (obs, r) = judge(&*self.test, &case, &ctx.known);
            match r {
                Ok(()) => self.note(&mut tally, &case, obs),
                Err(first) => {
                    stop.store(true, Ordering::Relaxed);
                    tally.evaluations += 1;
                    let original = serde_json::to_value(&case).unwrap_or(Value::Null);
                    let mut best = case;
                    let mut best_fail = first;
                    let mut steps = 0u64;
                    let start = Instant::now();
                    let limit = Duration::from_secs(30);
                    'shrink: while steps < 4000 && start.elapsed() < limit {
                        if !tree.simplify() {
                            break;
                        }
                        loop {
                            steps += 1;
                            let c = tree.current();
                            self.journal(ctx, w, &c);
                            let (_, r) = judge(&*self.test, &c, &ctx.known);
                            match r {
                                Err(f) => {
                                    best = c;
                                    best_fail = f;
                                    break;
                                }
                                Ok(()) => {
                                    if !tree.complicate() {
                                        break 'shrink;
                                    }
                                }
                            }
                            if steps >= 4000 || start.elapsed() >= limit {
                                break 'shrink;
                            }
                        }
                    }
                    let case = serde_json::to_value(&best).unwrap_or(Value::Null);
                    return (tally, Some(Failure { worker: w, case, original, shrink_steps: steps, fail: best_fail }));
                }
            }
        }
        (tally, None)
    }

    fn journal(&self, ctx: &Ctx, w: usize, case: &T) {
        if self.isolate {
            if let Some(dir) = &ctx.journal {
                let v = json!({ "property": ctx.property, "sub": self.name, "case": case });
                let _ = fs::write(dir.join(format!("w{}.json", w)), v.to_string());
            }
        }
    }
}

impl<T> SubRun for Sub<T>
where
    T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
{
    fn name(&self) -> &str {
        &self.name
    }
    fn rule(&self) -> &str {
        &self.rule
    }
    fn run(&self, ctx: &Ctx) -> (Tally, Option<Failure>) {
        let stop = AtomicBool::new(false);
        let results = Mutex::new(Vec::new());
        thread::scope(|s| {
            for w in 0..WORKERS {
                let stop = &stop;
                let results = &results;
                thread::Builder::new()
                    .stack_size(64 << 20)
                    .name(format!("w{}", w))
                    .spawn_scoped(s, move || {
                        let r = self.worker(ctx, w, stop);
                        results.lock().unwrap().push((w, r));
                    })
                    .unwrap();
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut tally = Tally::default();
        let mut failure: Option<Failure> = None;
        for (_, (t, f)) in results {
            tally.merge(t);
            if failure.is_none() {
                failure = f;
            }
        }
        (tally, failure)
    }
    fn replay(&self, ctx: &Ctx, case: &Value) -> Result<Result<Tally, Fail>, String> {
        let case: T = serde_json::from_value(case.clone()).map_err(|e| format!("cannot read case: {}", e))?;
        // on a worker-like thread, with the same stack
        let known = ctx.known.clone();
        let out = thread::scope(|s| {
            thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let (obs, r) = judge(&*self.test, &case, &known);
                    let mut tally = Tally::default();
                    self.note(&mut tally, &case, obs);
                    r.map(|_| tally)
                })
                .unwrap()
                .join()
                .unwrap()
        });
        Ok(out)
    }
}

pub struct Check {
    property: String,
    assumptions: Vec<String>,
    subs: Vec<Box<dyn SubRun>>,
    any_isolated: bool,
    quiet: bool,
}

static EXIT_AT: AtomicU64 = AtomicU64::new(0);

fn verif_dir() -> PathBuf {
    // the harness is always at <verif>/harness
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn env_seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse::<u64>().unwrap_or_else(|_| s.trim().parse::<i64>().map(|i| i as u64).unwrap_or_else(|_| fnv(&s))) & 0x7fff_ffff_ffff_ffff,
        Err(_) => 1,
    }
}

/// Reads `known: property=<id> sig=<sig> <text>` lines.
fn read_known(property: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let text = fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let s = it.next().unwrap_or("");
            let t = it.next().unwrap_or("");
            if p == format!("property={}", property) {
                if let Some(sig) = s.strip_prefix("sig=") {
                    out.insert(sig.to_string(), t.to_string());
                }
            }
        }
    }
    out
}

impl Check {
    pub fn new(property: &str) -> Check {
        Check { property: property.to_string(), assumptions: Vec::new(), subs: Vec::new(), any_isolated: false, quiet: false }
    }

    pub fn assume(mut self, text: &str) -> Check {
        self.assumptions.push(text.to_string());
        self
    }

    /// What the code under test prints on the standard output is thrown away.
    pub fn silent(mut self) -> Check {
        self.quiet = true;
        self
    }

    /// Adds a sub-check: `quick` and `thorough` cases, the rule for non-trivial cases,
    /// the generator and the oracle.
    pub fn sub<T, S, G, F>(self, name: &str, quick: u64, thorough: u64, rule: &str, gen: G, test: F) -> Check
    where
        T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
        S: Strategy<Value = T> + 'static,
        G: Fn() -> S + Send + Sync + 'static,
        F: Fn(&T, &mut Obs) -> R + Send + Sync + 'static,
    {
        self.add(name, quick, thorough, rule, false, gen, test)
    }

    /// As `sub`, for code which could bring the process down: the case under way is
    /// recorded, and a crash of the process is reported as a violation.
    pub fn sub_isolated<T, S, G, F>(mut self, name: &str, quick: u64, thorough: u64, rule: &str, gen: G, test: F) -> Check
    where
        T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
        S: Strategy<Value = T> + 'static,
        G: Fn() -> S + Send + Sync + 'static,
        F: Fn(&T, &mut Obs) -> R + Send + Sync + 'static,
    {
        self.any_isolated = true;
        self.add(name, quick, thorough, rule, true, gen, test)
    }

    fn add<T, S, G, F>(mut self, name: &str, quick: u64, thorough: u64, rule: &str, isolate: bool, gen: G, test: F) -> Check
    where
        T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
        S: Strategy<Value = T> + 'static,
        G: Fn() -> S + Send + Sync + 'static,
        F: Fn(&T, &mut Obs) -> R + Send + Sync + 'static,
    {
        self.subs.push(Box::new(Sub {
            name: name.to_string(),
            rule: rule.to_string(),
            quick,
            thorough,
            isolate,
            gen: Arc::new(move || gen().boxed()),
            test: Arc::new(test),
        }));
        self
    }

    fn find(&self, name: &str) -> Option<&Box<dyn SubRun>> {
        self.subs.iter().find(|s| s.name() == name)
    }

    fn replay_dir(&self) -> PathBuf {
        verif_dir().join("replays")
    }

    fn write_replay(&self, sub: &str, case: &Value, original: Option<&Value>, fail: &Fail, seed: u64, steps: u64) -> PathBuf {
        let dir = self.replay_dir();
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{:016x}.json", self.property, sub.replace(" ", "-"), hash64(&case.to_string())));
        let doc = json!({
            "property": self.property, "sub": sub, "case": case, "signature": fail.sig,
            "message": fail.msg, "seed": seed, "shrink_steps": steps,
            "original_case": original.map(|v| if v.to_string().len() < 20000 { v.clone() } else { Value::Null })
        });
        let _ = fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        path
    }

    fn replay_file(&self, ctx: &Ctx, path: &Path) -> Result<Result<Tally, Fail>, String> {
        let text = fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
        let doc: Value = serde_json::from_str(&text).map_err(|e| format!("{}: {}", path.display(), e))?;
        let name = doc["sub"].as_str().unwrap_or("").to_string();
        let sub = self.find(&name).ok_or_else(|| format!("{}: no sub {}", path.display(), name))?;
        sub.replay(ctx, &doc["case"]).map_err(|e| format!("{}: {}", path.display(), e))
    }

    fn violation(&self, sub: &str, path: &Path, fail: &Fail) {
        say!("property {} sub {}: [{}] {}", self.property, sub, fail.sig, fail.msg);
        say!("VIOLATION property={} replay={}", self.property, path.display());
    }

    /// Runs the check and ends the process.
    pub fn main(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        let is_child = std::env::var("VH_CHILD").is_ok();
        let replaying = args.len() >= 3 && args[1] == "--replay";
        if self.any_isolated && !is_child {
            self.supervise(&args, replaying);
        }
        if self.quiet {
            silence();
        }
        install_panic_hook();
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = env_seed();
        let known = read_known(&self.property);
        let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let only = std::env::var("VH_ONLY").ok();
        let ctx = Ctx {
            property: self.property.clone(),
            seed,
            thorough,
            known: Arc::new(known.keys().cloned().collect()),
            scale,
            journal: std::env::var("VH_CHILD").ok().map(PathBuf::from),
            deadline: None,
        };

        // a hang is an error of the check, not a violation
        let limit = std::env::var("VH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(840u64);
        EXIT_AT.store(limit, Ordering::Relaxed);
        let began = Instant::now();
        thread::spawn(move || loop {
            thread::sleep(Duration::from_millis(500));
            if began.elapsed().as_secs() > EXIT_AT.load(Ordering::Relaxed) {
                eprintln!("watchdog: the check ran out of time");
                say!("ERROR: watchdog: the check ran out of time");
                exit(3);
            }
        });

        if replaying {
            match self.replay_file(&ctx, Path::new(&args[2])) {
                Err(e) => {
                    say!("ERROR: {}", e);
                    exit(2)
                }
                Ok(Ok(_)) => {
                    say!("replay passed: property={} {}", self.property, args[2]);
                    exit(0)
                }
                Ok(Err(f)) => {
                    self.violation("replay", Path::new(&args[2]), &f);
                    exit(1)
                }
            }
        }

        let mut per_sub = Vec::new();
        let mut violations = 0u64;
        let mut findings: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut total = Tally::default();

        // recorded cases first
        let corpus = verif_dir().join("corpus").join(&self.property);
        let mut recorded: Vec<PathBuf> =
            fs::read_dir(&corpus).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
        recorded.retain(|p| p.extension().map(|e| e == "json").unwrap_or(false));
        recorded.sort();
        let mut recorded_run = 0u64;
        for path in recorded.iter() {
            match self.replay_file(&ctx, path) {
                Err(e) => {
                    say!("ERROR: {}", e);
                    exit(2)
                }
                Ok(Ok(t)) => {
                    recorded_run += 1;
                    for (k, (n, m)) in t.findings {
                        let e = findings.entry(k).or_insert((0, m));
                        e.0 += n;
                    }
                }
                Ok(Err(f)) => {
                    recorded_run += 1;
                    violations += 1;
                    self.violation("corpus", path, &f);
                }
            }
        }

        let mut ran = Vec::new();
        for sub in self.subs.iter() {
            if let Some(o) = &only {
                if !sub.name().contains(o.as_str()) {
                    continue;
                }
            }
            if violations > 0 {
                break;
            }
            let start = Instant::now();
            let (tally, failure) = sub.run(&ctx);
            ran.push(sub.name().to_string());
            let wall = start.elapsed().as_secs_f64();
            if let Some(f) = failure {
                violations += 1;
                let path = self.write_replay(sub.name(), &f.case, Some(&f.original), &f.fail, seed, f.shrink_steps);
                self.violation(sub.name(), &path, &f.fail);
            }
            per_sub.push(json!({
                "name": sub.name(), "rule": sub.rule(), "evaluations": tally.evaluations,
                "nontrivial": tally.nontrivial, "distinct_nontrivial": tally.distinct.len(),
                "tags": tally.tags, "counts": tally.counts, "wall_s": (wall * 1000.0).round() / 1000.0
            }));
            if std::env::var("VH_VERBOSE").is_ok() {
                eprintln!("{} {}: {} cases, {} distinct non-trivial, {:.2}s {:?} {:?}", self.property, sub.name(),
                    tally.evaluations, tally.distinct.len(), wall, tally.tags, tally.counts);
            }
            for (k, (n, m)) in tally.findings.iter() {
                let e = findings.entry(k.clone()).or_insert((0, m.clone()));
                e.0 += n;
            }
            total.evaluations += tally.evaluations;
            total.nontrivial += tally.nontrivial;
            let salt = fnv(sub.name());
            total.distinct.extend(tally.distinct.iter().map(|d| d ^ salt));
            for s in tally.samples.into_iter().take(1) {
                total.samples.push(json!({ "sub": sub.name(), "case": s }));
            }
        }

        for (sig, (n, msg)) in findings.iter() {
            let text = known.get(sig).cloned().unwrap_or_default();
            say!("KNOWN-FINDING: property={} sig={} {} ({} cases; e.g. {})", self.property, sig, text, n, msg);
        }

        let rule = self.subs.iter().map(|s| format!("{}: {}", s.name(), s.rule())).collect::<Vec<_>>().join("; ");
        let evidence = json!({
            "property": self.property,
            "tier": if thorough { "thorough" } else { "quick" },
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total.evaluations,
                "distinct_nontrivial": total.distinct.len(),
                "rule": rule,
                "samples": total.samples,
                "recorded_cases_replayed": recorded_run,
                "subs": per_sub,
                "known_findings_met": findings.iter().map(|(k, (n, _))| (k.clone(), *n)).collect::<BTreeMap<_, _>>()
            },
            "assumptions": self.assumptions,
            "violations": violations,
            "wall_s": (began.elapsed().as_secs_f64() * 1000.0).round() / 1000.0
        });
        let dir = verif_dir().join("evidence");
        let _ = fs::create_dir_all(&dir);
        if only.is_none() {
            if let Err(e) = fs::write(dir.join(format!("{}.json", self.property)), serde_json::to_string_pretty(&evidence).unwrap()) {
                say!("ERROR: cannot write evidence: {}", e);
                exit(2);
            }
        }
        say!("property {}: {} cases, {} distinct non-trivial, {} violations, {:.1} s", self.property,
            total.evaluations, total.distinct.len(), violations, began.elapsed().as_secs_f64());
        exit(if violations > 0 { 1 } else { 0 })
    }

    /// Runs the check in a child process; if that is brought down by a signal, finds the
    /// case that did it and reports it.
    fn supervise(&self, args: &[String], replaying: bool) -> ! {
        use std::os::unix::process::ExitStatusExt;
        let exe = std::env::current_exe().unwrap();
        let scratch = std::env::temp_dir().join(format!("vh-{}-{}", self.property, std::process::id()));
        let _ = fs::create_dir_all(&scratch);
        let crash = |s: Option<i32>| matches!(s, Some(4) | Some(6) | Some(7) | Some(8) | Some(11));
        let status = Command::new(&exe).args(&args[1..]).env("VH_CHILD", &scratch).status();
        let code = match status {
            Ok(s) if s.code().is_some() => s.code().unwrap(),
            Ok(s) if crash(s.signal()) && replaying => {
                let f = Fail::new("crash", format!("the process was ended by signal {}", s.signal().unwrap()));
                self.violation("replay", Path::new(&args[2]), &f);
                1
            }
            Ok(s) if crash(s.signal()) => {
                let mut code = 2;
                let mut journals: Vec<PathBuf> =
                    fs::read_dir(&scratch).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
                journals.sort();
                for j in journals {
                    let again = Command::new(&exe).arg("--replay").arg(&j).env("VH_CHILD", &scratch).status();
                    if let Ok(a) = again {
                        if crash(a.signal()) {
                            let doc: Value = serde_json::from_str(&fs::read_to_string(&j).unwrap_or_default()).unwrap_or(Value::Null);
                            let f = Fail::new("crash", format!("the process was ended by signal {}", a.signal().unwrap()));
                            let sub = doc["sub"].as_str().unwrap_or("").to_string();
                            let path = self.write_replay(&sub, &doc["case"], None, &f, env_seed(), 0);
                            self.violation(&sub, &path, &f);
                            code = 1;
                            break;
                        }
                    }
                }
                if code != 1 {
                    say!("ERROR: ended by signal {:?}, not reproduced by any single case", s.signal());
                }
                code
            }
            Ok(s) => {
                say!("ERROR: ended by signal {:?}", s.signal());
                2
            }
            Err(e) => {
                say!("ERROR: cannot start: {}", e);
                2
            }
        };
        let _ = fs::remove_dir_all(&scratch);
        exit(code)
    }
}

/// Where the results go while the standard output is silenced
static OUT: Mutex<Option<fs::File>> = Mutex::new(None);

fn say(line: String) {
    use std::io::Write;
    match OUT.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        Some(f) => {
            let _ = writeln!(f, "{}", line);
        }
        None => println!("{}", line),
    }
}

extern "C" {
    fn dup2(from: i32, to: i32) -> i32;
}

/// Throws away what the code under test prints.
fn silence() {
    use std::os::fd::{AsFd, AsRawFd};
    let kept = std::io::stdout().as_fd().try_clone_to_owned();
    let null = fs::OpenOptions::new().write(true).open("/dev/null");
    if let (Ok(kept), Ok(null)) = (kept, null) {
        *OUT.lock().unwrap_or_else(|e| e.into_inner()) = Some(fs::File::from(kept));
        unsafe { dup2(null.as_raw_fd(), 1) };
    }
}
