//! Drives the checks: seeded proptest runners on fixed shards, shrinking, case statistics,
//! replay files and evidence.  Nothing here knows about elasticlunr.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

/// The number of shards is part of the definition of a run (not the machine's core count),
/// so that a run is a function of the code and the seed only.
pub const SHARDS: u64 = 8;
/// Every case runs on a thread with this stack, so that the crate's recursion over the
/// characters of one word (see known_findings.json) cannot be what decides a case.
pub const STACK: usize = 512 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a case reports about itself while it is being checked.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub known: Vec<String>,
}

impl Obs {
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
    /// The case shows a listed known finding (by its exact signature).
    pub fn known(&mut self, id: &str) {
        self.known.push(id.to_string());
    }
}

pub type Verdict = Result<(), String>;

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
}

pub struct Failure {
    pub section: String,
    pub case: Value,
    pub message: String,
}

impl Report {
    fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        if self.failure.is_none() {
            self.failure = o.failure;
        }
    }
}

pub struct RunCtx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    /// Where each shard writes the case it is about to run (only when re-running after the
    /// process was killed by a signal).
    pub breadcrumbs: Option<PathBuf>,
    /// How many threads share a section's cases.
    pub shards: u64,
}

pub struct Section {
    pub name: &'static str,
    /// Run in one thread, so that nothing else uses the crate at the time.
    pub alone: bool,
    pub rule: &'static str,
    pub run: Box<dyn Fn(&RunCtx) -> Report>,
    pub replay: Box<dyn Fn(&Value) -> Result<Obs, String>>,
}

static LISTED: OnceLock<HashSet<String>> = OnceLock::new();

/// The known findings of the property being checked.
pub fn set_listed(ids: Vec<String>) {
    let _ = LISTED.set(ids.into_iter().collect());
}

/// A finding that the known-findings file does not list is a failure like any other.
fn unlisted(obs: &Obs) -> Verdict {
    let l = LISTED.get();
    match obs.known.iter().find(|k| !l.map_or(false, |l| l.contains(*k))) {
        Some(k) => Err(format!("shows {k:?}, which known_findings.json does not list for this property")),
        None => Ok(()),
    }
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(info.payload());
        PANIC_AT.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
        if loc.starts_with("src/") || loc.starts_with(concat!(env!("CARGO_MANIFEST_DIR"), "/src/")) {
            // A panic of the harness itself: an error of the check, never a verdict.
            eprintln!("HARNESS-ERROR: {msg} at {loc}");
            std::process::exit(3);
        }
    }));
}

pub fn payload(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

/// Runs code under test; a panic in it becomes an `Err` with its message and place.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panicked: {}", PANIC_AT.with(|p| p.borrow().clone())))
}

pub fn hash_of<T: Hash + ?Sized>(v: &T) -> u64 {
    // SipHash with fixed keys: the same in every run.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// A case that takes longer than this never ends, for all a user can tell: cases take
/// milliseconds, the largest a few seconds.
pub const HANG: Duration = Duration::from_secs(150);
/// The worker's exit code when a case hangs.
pub const HUNG: i32 = 7;

/// When each thread's current case began.
static RUNNING: Mutex<BTreeMap<u64, Instant>> = Mutex::new(BTreeMap::new());
static THREADS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ME: u64 = THREADS.fetch_add(1, Ordering::Relaxed);
}

struct Running;
impl Running {
    fn start() -> Running {
        ME.with(|m| RUNNING.lock().unwrap().insert(*m, Instant::now()));
        Running
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        ME.with(|m| RUNNING.lock().unwrap().remove(m));
    }
}

/// Work of the harness inside a case that takes long for reasons of its own.
pub fn untimed<T>(f: impl FnOnce() -> T) -> T {
    let was = ME.with(|m| RUNNING.lock().unwrap().remove(m));
    let r = f();
    if was.is_some() {
        ME.with(|m| RUNNING.lock().unwrap().insert(*m, Instant::now()));
    }
    r
}

/// Ends the process with `HUNG` when a case does not end.
pub fn watch_for_hangs() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        if RUNNING.lock().unwrap().values().any(|t| t.elapsed() > HANG) {
            std::process::exit(HUNG);
        }
    });
}

/// Memory that grows without end becomes an abort of the process rather than trouble for
/// the machine.
pub fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

struct ShardState {
    report: RefCell<Report>,
    failing: Cell<bool>,
    crumb: Option<PathBuf>,
    want_samples: usize,
}

impl ShardState {
    fn new(ctx: &RunCtx, section: &str, shard: u64) -> Self {
        ShardState {
            report: RefCell::new(Report::default()),
            failing: Cell::new(false),
            crumb: ctx.breadcrumbs.as_ref().map(|d| d.join(format!("{section}.{shard}"))),
            want_samples: if shard == 0 { 3 } else { 0 },
        }
    }

    fn eval<T: Serialize>(&self, case: &T, check: &dyn Fn(&T, &mut Obs) -> Verdict) -> Verdict {
        let mut text = None;
        if let Some(p) = &self.crumb {
            let s = serde_json::to_string(case).unwrap();
            std::fs::write(p, &s).unwrap();
            text = Some(s);
        }
        let mut obs = Obs::default();
        let running = Running::start();
        let out = guarded(|| check(case, &mut obs)).and_then(|r| r).and_then(|_| unlisted(&obs));
        drop(running);
        if !self.failing.get() {
            let mut r = self.report.borrow_mut();
            r.evaluations += 1;
            for l in &obs.labels {
                *r.labels.entry(l.to_string()).or_default() += 1;
            }
            for k in &obs.known {
                *r.known.entry(k.clone()).or_default() += 1;
            }
            if obs.nontrivial {
                let s = text.unwrap_or_else(|| serde_json::to_string(case).unwrap());
                let fresh = r.nontrivial.insert(hash_of(&s));
                if fresh && r.samples.len() < self.want_samples && s.len() < 2000 {
                    r.samples.push(serde_json::from_str(&s).unwrap());
                }
            }
            if out.is_err() {
                self.failing.set(true);
            }
        }
        out
    }
}

/// Turns a section into one that runs in a single thread: state the whole process shares is then
/// that of the case alone.
pub fn alone(mut s: Section) -> Section {
    s.alone = true;
    s
}

fn spawn_shards(shards: u64, f: impl Fn(u64) -> Report + Send + Sync + 'static) -> Report {
    let f = Arc::new(f);
    let handles: Vec<_> = (0..shards)
        .map(|i| {
            let f = f.clone();
            std::thread::Builder::new().stack_size(STACK).spawn(move || f(i)).unwrap()
        })
        .collect();
    let mut total = Report::default();
    for h in handles {
        match h.join() {
            Ok(r) => total.merge(r),
            Err(_) => {
                eprintln!("HARNESS-ERROR: a shard panicked outside a case");
                std::process::exit(3);
            }
        }
    }
    total
}

/// A section whose cases are drawn from a proptest strategy.
pub fn generated<T>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strategy: impl Fn() -> BoxedStrategy<T> + Send + Sync + Clone + 'static,
    check: impl Fn(&T, &mut Obs) -> Verdict + Send + Sync + Clone + 'static,
) -> Section
where
    T: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    let rc = check.clone();
    Section {
        name,
        alone: false,
        rule,
        run: Box::new(move |ctx| {
            let cases = match ctx.tier {
                Tier::Quick => quick * 3,
                Tier::Thorough => thorough,
            } / ctx.shards as u32;
            let (strategy, check) = (strategy.clone(), check.clone());
            let ctx = RunCtx { prop: ctx.prop.clone(), breadcrumbs: ctx.breadcrumbs.clone(), ..*ctx };
            spawn_shards(ctx.shards, move |shard| {
                let st = ShardState::new(&ctx, name, shard);
                let mut seed = [0u8; 32];
                for (i, part) in [
                    ctx.seed,
                    hash_of(ctx.prop.as_str()),
                    hash_of(name),
                    shard.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (ctx.tier as u64),
                ]
                .iter()
                .enumerate()
                {
                    seed[i * 8..i * 8 + 8].copy_from_slice(&part.to_le_bytes());
                }
                let config = Config {
                    cases: cases.max(1),
                    failure_persistence: None,
                    max_shrink_iters: 4000,
                    max_shrink_time: 60_000,
                    max_global_rejects: 1 << 20,
                    max_local_rejects: 1 << 20,
                    source_file: None,
                    ..Config::default()
                };
                let mut runner = TestRunner::new_with_rng(
                    config,
                    TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                );
                let result = runner.run(&strategy(), |case| {
                    st.eval(&case, &check).map_err(TestCaseError::fail)
                });
                let mut report = st.report.into_inner();
                match result {
                    Ok(()) => {}
                    Err(TestError::Fail(why, case)) => {
                        let why = why.message().to_string();
                        // The message belongs to the shrunk case.
                        let why = guarded(|| check(&case, &mut Obs::default()))
                            .and_then(|r| r)
                            .err()
                            .unwrap_or(why);
                        report.failure = Some(Failure {
                            section: name.into(),
                            case: serde_json::to_value(&case).unwrap(),
                            message: why,
                        });
                    }
                    Err(TestError::Abort(why)) => {
                        eprintln!("HARNESS-ERROR: {name}: generator gave up: {why}");
                        std::process::exit(3);
                    }
                }
                report
            })
        }),
        replay: Box::new(move |v| replay_case(v, &rc)),
    }
}

/// A section that goes through a finite list of cases, simplest first.
pub fn enumerated<T>(
    name: &'static str,
    rule: &'static str,
    list: impl Fn(Tier) -> Vec<T> + Send + Sync + Clone + 'static,
    check: impl Fn(&T, &mut Obs) -> Verdict + Send + Sync + Clone + 'static,
) -> Section
where
    T: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static,
{
    let rc = check.clone();
    Section {
        name,
        alone: false,
        rule,
        run: Box::new(move |ctx| {
            let all = Arc::new(list(ctx.tier));
            let check = check.clone();
            let ctx = RunCtx { prop: ctx.prop.clone(), breadcrumbs: ctx.breadcrumbs.clone(), ..*ctx };
            let first_bad: Arc<Mutex<Option<(usize, Failure)>>> = Arc::default();
            let fb = first_bad.clone();
            let mut total = spawn_shards(ctx.shards, move |shard| {
                let st = ShardState::new(&ctx, name, shard);
                for (i, case) in all.iter().enumerate() {
                    if i as u64 % ctx.shards != shard {
                        continue;
                    }
                    if let Err(message) = st.eval(case, &check) {
                        let mut g = fb.lock().unwrap();
                        if g.as_ref().map_or(true, |(j, _)| i < *j) {
                            let f = Failure {
                                section: name.into(),
                                case: serde_json::to_value(case).unwrap(),
                                message,
                            };
                            *g = Some((i, f));
                        }
                        break;
                    }
                }
                st.report.into_inner()
            });
            total.failure = first_bad.lock().unwrap().take().map(|x| x.1);
            total
        }),
        replay: Box::new(move |v| replay_case(v, &rc)),
    }
}

fn replay_case<T: DeserializeOwned>(
    v: &Value,
    check: &dyn Fn(&T, &mut Obs) -> Verdict,
) -> Result<Obs, String> {
    let case: T = match serde_json::from_value(v.clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("HARNESS-ERROR: replay file does not hold a case: {e}");
            std::process::exit(3);
        }
    };
    let mut obs = Obs::default();
    let _running = Running::start();
    guarded(|| check(&case, &mut obs)).and_then(|r| r)?;
    unlisted(&obs)?;
    Ok(obs)
}

pub struct Outcome {
    pub report: Report,
    pub sections: Vec<Value>,
}

pub fn run_sections(ctx: &RunCtx, sections: &[Section]) -> Outcome {
    let mut total = Report::default();
    let mut out = vec![];
    for s in sections {
        let t = std::time::Instant::now();
        let here = RunCtx { prop: ctx.prop.clone(), breadcrumbs: ctx.breadcrumbs.clone(), shards: if s.alone { 1 } else { SHARDS }, ..*ctx };
        let r = (s.run)(&here);
        out.push(json!({
            "section": s.name,
            "rule": s.rule,
            "evaluations": r.evaluations,
            "distinct_nontrivial": r.nontrivial.len(),
            "classes": r.labels,
            "samples": r.samples,
            "wall_s": t.elapsed().as_secs_f64(),
        }));
        let mut r = r;
        // keep hashes of different sections apart
        r.nontrivial = r.nontrivial.iter().map(|h| h ^ hash_of(s.name)).collect();
        r.labels.clear();
        r.samples.truncate(1);
        total.merge(r);
        if total.failure.is_some() {
            break;
        }
    }
    Outcome { report: total, sections: out }
}

pub fn write_json(path: &Path, v: &Value) {
    if let Some(d) = path.parent() {
        std::fs::create_dir_all(d).unwrap();
    }
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n").unwrap();
}

/// Runs `f` on a thread with a given stack.
pub fn with_stack<T: Send + 'static>(bytes: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(bytes).spawn(f).unwrap().join().unwrap()
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
