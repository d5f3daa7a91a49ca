//! The search driver: every check is a list of parts, a part is a generator
//! (a proptest strategy or an enumeration) plus an oracle. Everything random
//! comes from proptest runners seeded from (VERIF_SEED, property, part, shard);
//! a failure is shrunk by proptest and the shrunk value becomes the replay file.

use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub const SHARDS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What an oracle says about a case it accepted.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info {
            nontrivial,
            classes: Vec::new(),
        }
    }
    pub fn class(mut self, cond: bool, name: &'static str) -> Info {
        if cond {
            self.classes.push(name);
        }
        self
    }
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property does not hold for this case.
    Violation(String),
    /// The machinery could not decide (spawn failure, missing tool, ...).
    Machinery(String),
}

impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail::Violation(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Fail {
        Fail::Violation(s.to_string())
    }
}

pub type Checked = Result<Info, Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(From::from(format!($($arg)*)));
        }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Panics are part of the observed behaviour: keep them quiet, remember the text.
pub fn install_quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{}", info).replace('\n', " ");
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = text;
            }
        });
    }));
}

/// Run code under test; a panic is returned as its message.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

static SAW_MACHINERY: Mutex<Option<String>> = Mutex::new(None);
static STOP: AtomicBool = AtomicBool::new(false);

fn note_machinery(msg: &str) {
    let mut m = SAW_MACHINERY.lock().unwrap();
    if m.is_none() {
        *m = Some(msg.to_string());
    }
    STOP.store(true, Ordering::SeqCst);
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
}

impl Tally {
    fn merge(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

pub struct PartReport {
    name: &'static str,
    exhaustive: bool,
    evaluations: u64,
    nontrivial: u64,
    distinct: u64,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    wall: Duration,
    longest: Duration,
    failure: Option<(serde_json::Value, String)>,
}

pub trait Part: Send + Sync {
    fn name(&self) -> &'static str;
    fn run(&self, env: &Env) -> PartReport;
    fn replay(&self, value: &serde_json::Value) -> Result<Checked, String>;
}

#[derive(Clone, Copy)]
pub struct Env {
    pub tier: Tier,
    pub seed: u64,
    pub prop: &'static str,
    /// percentage by which case counts are scaled (for development only)
    pub scale: u64,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn rng_for(env: &Env, part: &str, shard: usize) -> TestRng {
    let mut seed = [0u8; 32];
    for (i, chunk) in seed.chunks_mut(8).enumerate() {
        let text = format!("{}/{}/{}/{}/{}", env.seed, env.prop, part, shard, i);
        // two rounds so that nearby seeds give unrelated streams
        let h = fnv(format!("{:x}", fnv(text.as_bytes())).as_bytes()) ^ fnv(text.as_bytes()).rotate_left(29);
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &seed)
}

struct DefaultHash;
impl DefaultHash {
    fn of(bytes: &[u8]) -> u64 {
        // SipHash with fixed keys: same result in every process
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        bytes.hash(&mut h);
        h.finish()
    }
}

/// A case being checked by some thread.
struct Running {
    since: Instant,
    /// time it may take beyond the usual
    extra: Duration,
    part: &'static str,
    value: *const (),
    json: unsafe fn(*const ()) -> serde_json::Value,
}
// The pointer is used only while the slot's lock is held and the case runs.
unsafe impl Send for Running {}

const SLOTS: usize = 64;
static RUNNING: [Mutex<Option<Running>>; SLOTS] = [const { Mutex::new(None) }; SLOTS];
/// milliseconds the longest case of the part took
static LONGEST: AtomicU64 = AtomicU64::new(0);
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::SeqCst) % SLOTS;
    static JOURNAL: RefCell<Option<Option<std::fs::File>>> = const { RefCell::new(None) };
}

/// The case this thread is checking may take this much longer.
pub fn allow(extra: Duration) {
    if let Some(r) = RUNNING[SLOT.with(|s| *s)].lock().unwrap().as_mut() {
        r.extra = extra;
    }
}

unsafe fn to_json<V: Serialize>(p: *const ()) -> serde_json::Value {
    serde_json::to_value(unsafe { &*(p as *const V) }).unwrap()
}

/// Only after the process died once: write every case down before it is run.
fn journal<V: Serialize>(part: &str, v: &V) {
    use std::os::unix::fs::FileExt;
    JOURNAL.with(|j| {
        let mut j = j.borrow_mut();
        let file = j.get_or_insert_with(|| {
            let dir = std::env::var_os("ATCHECK_JOURNAL")?;
            std::fs::File::create(Path::new(&dir).join(SLOT.with(|s| s.to_string()))).ok()
        });
        if let Some(f) = file {
            let text = serde_json::json!({"part": part, "value": v}).to_string();
            let _ = f.set_len(0);
            let _ = f.write_all_at(text.as_bytes(), 0);
        }
    });
}

fn guarded<V: Serialize>(part: &'static str, check: &(dyn Fn(&V) -> Checked + Send + Sync), v: &V) -> Checked {
    let slot = SLOT.with(|s| *s);
    journal(part, v);
    *RUNNING[slot].lock().unwrap() = Some(Running {
        since: Instant::now(),
        extra: Duration::ZERO,
        part,
        value: v as *const V as *const (),
        json: to_json::<V>,
    });
    let r = guarded_inner(check, v);
    if let Some(done) = RUNNING[slot].lock().unwrap().take() {
        LONGEST.fetch_max(done.since.elapsed().as_millis() as u64, Ordering::Relaxed);
    }
    r
}

fn guarded_inner<V>(check: &(dyn Fn(&V) -> Checked + Send + Sync), v: &V) -> Checked {
    match catch_unwind(AssertUnwindSafe(|| check(v))) {
        Ok(r) => r,
        Err(_) => {
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Fail::Violation(format!("unexpected panic: {}", msg)))
        }
    }
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        serde_json::Value::String(format!("{}... ({} chars of JSON)", &s[..end], s.len()))
    }
}

// ---------------------------------------------------------------- random part

pub struct Random<S, F, C> {
    name: &'static str,
    strat: F,
    cases: (u32, u32),
    check: C,
    _p: std::marker::PhantomData<fn() -> S>,
}

/// `cases` = (quick, thorough) totals over all shards.
pub fn random<S, F, C>(name: &'static str, cases: (u32, u32), strat: F, check: C) -> Box<dyn Part>
where
    S: Strategy + 'static,
    S::Value: Serialize + DeserializeOwned + Debug + Clone + 'static,
    F: Fn(Tier) -> S + Send + Sync + 'static,
    C: Fn(&S::Value) -> Checked + Send + Sync + 'static,
{
    Box::new(Random {
        name,
        strat,
        cases,
        check,
        _p: std::marker::PhantomData,
    })
}

impl<S, F, C> Part for Random<S, F, C>
where
    S: Strategy + 'static,
    S::Value: Serialize + DeserializeOwned + Debug + Clone + 'static,
    F: Fn(Tier) -> S + Send + Sync + 'static,
    C: Fn(&S::Value) -> Checked + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, env: &Env) -> PartReport {
        let start = Instant::now();
        let total = match env.tier {
            Tier::Quick => self.cases.0,
            Tier::Thorough => self.cases.1,
        };
        let total = ((total as u64 * env.scale).div_ceil(100)) as u32;
        let per = total.div_ceil(SHARDS as u32).max(1);

        let results: Vec<(Tally, Option<(serde_json::Value, String)>)> =
            std::thread::scope(|sc| {
                let handles: Vec<_> = (0..SHARDS)
                    .map(|shard| {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sc, move || self.shard(env, shard, per))
                            .unwrap()
                    })
                    .collect();
                handles
                    .into_iter()
                    .map(|h| match h.join() {
                        Ok(r) => r,
                        Err(_) => {
                            note_machinery("a search thread died");
                            (Tally::default(), None)
                        }
                    })
                    .collect()
            });
        report(self.name, false, results, start)
    }

    fn replay(&self, value: &serde_json::Value) -> Result<Checked, String> {
        let v: S::Value = serde_json::from_value(value.clone()).map_err(|e| e.to_string())?;
        Ok(guarded::<S::Value>(self.name, &self.check, &v))
    }
}

impl<S, F, C> Random<S, F, C>
where
    S: Strategy + 'static,
    S::Value: Serialize + DeserializeOwned + Debug + Clone + 'static,
    F: Fn(Tier) -> S + Send + Sync + 'static,
    C: Fn(&S::Value) -> Checked + Send + Sync + 'static,
{
    fn shard(
        &self,
        env: &Env,
        shard: usize,
        cases: u32,
    ) -> (Tally, Option<(serde_json::Value, String)>) {
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 4000,
            max_shrink_time: 45_000,
            max_global_rejects: 1 << 20,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng_for(env, self.name, shard));
        let strat = (self.strat)(env.tier);
        let tally = RefCell::new(Tally::default());
        let failed = RefCell::new(false);

        let outcome = runner.run(&strat, |v| {
            if STOP.load(Ordering::SeqCst) && !*failed.borrow() {
                return Ok(());
            }
            match guarded::<S::Value>(self.name, &self.check, &v) {
                Ok(info) => {
                    if !*failed.borrow() {
                        let mut t = tally.borrow_mut();
                        t.evaluations += 1;
                        for c in info.classes {
                            *t.classes.entry(c).or_default() += 1;
                        }
                        if info.nontrivial {
                            t.nontrivial += 1;
                            let json = serde_json::to_vec(&v).unwrap();
                            let fresh = t.distinct.insert(DefaultHash::of(&json));
                            if fresh && t.samples.len() < 2 && (t.nontrivial % 7 == 1) {
                                t.samples
                                    .push(clip(serde_json::to_value(&v).unwrap()));
                            }
                        }
                    }
                    Ok(())
                }
                Err(Fail::Violation(msg)) => {
                    *failed.borrow_mut() = true;
                    Err(TestCaseError::fail(msg))
                }
                Err(Fail::Machinery(msg)) => {
                    note_machinery(&msg);
                    Ok(())
                }
            }
        });

        let failure = match outcome {
            Ok(()) => None,
            Err(TestError::Fail(reason, v)) => Some((
                serde_json::to_value(&v).unwrap(),
                reason.message().to_string(),
            )),
            Err(TestError::Abort(reason)) => {
                note_machinery(&format!("generation aborted: {}", reason.message()));
                None
            }
        };
        (tally.into_inner(), failure)
    }
}

// ----------------------------------------------------------- enumerated part

pub struct Enumerated<V, I, C> {
    name: &'static str,
    iter: I,
    check: C,
    _p: std::marker::PhantomData<fn() -> V>,
}

/// All values of a finite space; `iter(tier, shard, shards)` gives one shard's share.
pub fn enumerated<V, I, C>(name: &'static str, iter: I, check: C) -> Box<dyn Part>
where
    V: Serialize + DeserializeOwned + Debug + Clone + 'static,
    I: Fn(Tier, usize, usize) -> Box<dyn Iterator<Item = V>> + Send + Sync + 'static,
    C: Fn(&V) -> Checked + Send + Sync + 'static,
{
    Box::new(Enumerated {
        name,
        iter,
        check,
        _p: std::marker::PhantomData,
    })
}

/// Enumerate a list (split round-robin over the shards).
pub fn listed<V, L, C>(name: &'static str, list: L, check: C) -> Box<dyn Part>
where
    V: Serialize + DeserializeOwned + Debug + Clone + 'static,
    L: Fn(Tier) -> Vec<V> + Send + Sync + 'static,
    C: Fn(&V) -> Checked + Send + Sync + 'static,
{
    enumerated(
        name,
        move |tier, shard, shards| {
            Box::new(
                list(tier)
                    .into_iter()
                    .enumerate()
                    .filter(move |(i, _)| i % shards == shard)
                    .map(|(_, v)| v),
            )
        },
        check,
    )
}

impl<V, I, C> Part for Enumerated<V, I, C>
where
    V: Serialize + DeserializeOwned + Debug + Clone + 'static,
    I: Fn(Tier, usize, usize) -> Box<dyn Iterator<Item = V>> + Send + Sync + 'static,
    C: Fn(&V) -> Checked + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, env: &Env) -> PartReport {
        let start = Instant::now();
        let results: Vec<(Tally, Option<(serde_json::Value, String)>)> =
            std::thread::scope(|sc| {
                let handles: Vec<_> = (0..SHARDS)
                    .map(|shard| {
                        sc.spawn(move || {
                            let mut t = Tally::default();
                            let mut seen = 0u64;
                            for v in (self.iter)(env.tier, shard, SHARDS) {
                                if STOP.load(Ordering::SeqCst) {
                                    break;
                                }
                                match guarded::<V>(self.name, &self.check, &v) {
                                    Ok(info) => {
                                        t.evaluations += 1;
                                        for c in info.classes {
                                            *t.classes.entry(c).or_default() += 1;
                                        }
                                        if info.nontrivial {
                                            t.nontrivial += 1;
                                            seen += 1;
                                            if t.samples.len() < 2 && seen % 101 == 3 {
                                                t.samples
                                                    .push(clip(serde_json::to_value(&v).unwrap()));
                                            }
                                        }
                                    }
                                    Err(Fail::Violation(msg)) => {
                                        let v = serde_json::to_value(&v).unwrap();
                                        return (t, Some((v, msg)));
                                    }
                                    Err(Fail::Machinery(msg)) => note_machinery(&msg),
                                }
                            }
                            (t, None)
                        })
                    })
                    .collect();
                handles
                    .into_iter()
                    .map(|h| match h.join() {
                        Ok(r) => r,
                        Err(p) => {
                            let why = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_default();
                            note_machinery(&format!("an enumeration thread died: {}", why));
                            (Tally::default(), None)
                        }
                    })
                    .collect()
            });
        report(self.name, true, results, start)
    }

    fn replay(&self, value: &serde_json::Value) -> Result<Checked, String> {
        let v: V = serde_json::from_value(value.clone()).map_err(|e| e.to_string())?;
        Ok(guarded::<V>(self.name, &self.check, &v))
    }
}

fn report(
    name: &'static str,
    exhaustive: bool,
    results: Vec<(Tally, Option<(serde_json::Value, String)>)>,
    start: Instant,
) -> PartReport {
    let mut all = Tally::default();
    let mut failure: Option<(serde_json::Value, String)> = None;
    for (t, f) in results {
        all.merge(t);
        if let Some(f) = f {
            // the smallest counterexample, ties by shard
            let better = match &failure {
                None => true,
                Some(old) => f.0.to_string().len() < old.0.to_string().len(),
            };
            if better {
                failure = Some(f);
            }
        }
    }
    let distinct = if exhaustive {
        all.nontrivial // enumerations produce each value once
    } else {
        all.distinct.len() as u64
    };
    all.samples.sort_by_key(|s| s.to_string().len());
    let n = all.samples.len();
    let samples = if n <= 3 {
        all.samples
    } else {
        vec![
            all.samples[n / 4].clone(),
            all.samples[n / 2].clone(),
            all.samples[n - 1].clone(),
        ]
    };
    PartReport {
        name,
        exhaustive,
        evaluations: all.evaluations,
        nontrivial: all.nontrivial,
        distinct,
        classes: all.classes,
        samples,
        wall: start.elapsed(),
        longest: Duration::from_millis(LONGEST.swap(0, Ordering::Relaxed)),
        failure,
    }
}

// ------------------------------------------------------------------- property

#[derive(Clone, Copy)]
pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: fn() -> Vec<Box<dyn Part>>,
}

/// A single case takes milliseconds, the largest ones seconds: one that runs for
/// `hang` is code under test that does not come to an end.
fn start_hang_watch(p: Property, env: Env, verif: PathBuf, hang: Duration, saved: Option<PathBuf>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        for slot in &RUNNING {
            let Ok(r) = slot.lock() else { continue };
            if let Some(r) = r.as_ref().filter(|r| r.since.elapsed() > hang + r.extra) {
                let value = unsafe { (r.json)(r.value) };
                let msg = format!("no end after {} s", hang.as_secs());
                let path = match &saved {
                    Some(f) => f.clone(),
                    None => {
                        write_evidence(&p, &env, &[], true, r.since.elapsed(), &verif);
                        write_replay(&p, &env, r.part, &value, &msg, &verif)
                    }
                };
                println!("{} [{}]: {}", p.id, r.part, msg);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                std::process::exit(1);
            }
        }
    });
}

fn settings(p: &Property) -> Env {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let scale: u64 = std::env::var("ATCHECK_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 250 } else { 100 });
    Env {
        tier,
        seed,
        prop: p.id,
        scale,
    }
}

/// Run this program again with other arguments, in a bounded address space.
fn rerun(args: &[String], journal: Option<&Path>) -> std::io::Result<(Option<i32>, String)> {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(std::env::current_exe()?);
    c.args(args).stdout(std::process::Stdio::piped());
    if let Some(j) = journal {
        c.env("ATCHECK_JOURNAL", j);
    }
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            limit_memory(12 << 30);
            Ok(())
        });
    }
    let out = c.spawn()?.wait_with_output()?;
    Ok((out.status.code(), String::from_utf8_lossy(&out.stdout).into_owned()))
}

/// Allocations beyond this fail, so that a runaway one ends its process only.
pub fn limit_memory(bytes: u64) {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        if libc::getrlimit(libc::RLIMIT_AS, &mut l) == 0 {
            l.rlim_cur = bytes.min(l.rlim_max);
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
    }
}

/// Whether the run came to its own end.
fn concluded(code: Option<i32>, text: &str) -> bool {
    let last = text.lines().last().unwrap_or("");
    match code {
        Some(0) => last.starts_with("OK "),
        Some(1) => last.starts_with("VIOLATION "),
        Some(2) => last.starts_with("ERROR"),
        Some(3) => last.starts_with("INCONCLUSIVE"),
        _ => false,
    }
}

/// Run a check in a process of its own. If the code under test ends that process
/// (exit, abort, stack overflow, endless allocation), find the case that does it.
pub fn supervise(p: &Property, verif: &Path, rest: &[String]) -> i32 {
    let mut args = vec!["check-inner".to_string()];
    args.extend(rest.iter().cloned());
    let trouble = |m: String| {
        println!("ERROR: {}", m);
        2
    };
    let (code, text) = match rerun(&args, None) {
        Ok(r) => r,
        Err(e) => return trouble(e.to_string()),
    };
    print!("{}", text);
    if concluded(code, &text) {
        return code.unwrap();
    }
    eprintln!("the check ended with status {:?}; searching for the case that ended it", code);
    let dir = verif.join("evidence").join("replay").join(format!("journal-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        return trouble(e.to_string());
    }
    let again = rerun(&args, Some(&dir));
    let mut cases = vec![];
    for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        if let Ok(t) = std::fs::read_to_string(f.path()) {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                cases.push(v);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    match again {
        Err(e) => return trouble(e.to_string()),
        Ok((code, text)) if concluded(code, &text) => {
            print!("{}", text);
            return if code == Some(1) { 1 } else { trouble("the check ended once for no reason that shows again".into()) };
        }
        Ok(_) => {}
    }
    cases.sort_by_key(|c| c.to_string().len());
    let env = settings(p);
    for c in cases {
        let Some(part) = c["part"].as_str() else { continue };
        let msg = "the code under test ends the process it runs in";
        let path = write_replay(p, &env, part, &c["value"], msg, verif);
        let args = ["replay-inner".to_string(), path.display().to_string()];
        match rerun(&args, None) {
            Ok((code, text)) if !concluded(code, &text) => {
                write_evidence(p, &env, &[], true, Duration::ZERO, verif);
                println!("{} [{}]: {} (status {:?})", p.id, part, msg, code);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                return 1;
            }
            _ => {
                let _ = std::fs::remove_file(&path);
            }
        }
    }
    trouble(format!("the check ends with status {:?}, but no single case does that", code))
}

/// Replay a saved case in a process of its own.
pub fn supervised_replay(file: &Path) -> i32 {
    match rerun(&["replay-inner".to_string(), file.display().to_string()], None) {
        Ok((code, text)) => {
            print!("{}", text);
            if concluded(code, &text) {
                return code.unwrap();
            }
            let doc: serde_json::Value = std::fs::read_to_string(file)
                .ok()
                .and_then(|t| serde_json::from_str(&t).ok())
                .unwrap_or_default();
            println!("the code under test ends the process it runs in (status {:?})", code);
            println!("VIOLATION property={} replay={}", doc["property"].as_str().unwrap_or("?"), file.display());
            1
        }
        Err(e) => {
            println!("ERROR: {}", e);
            2
        }
    }
}

fn start_watchdog(limit: Duration) {
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        println!("INCONCLUSIVE: time limit reached; nothing is reported");
        std::process::exit(3);
    });
}

pub fn run_property(p: &Property, verif: &Path, only: Option<&str>) -> i32 {
    let env = settings(p);
    start_watchdog(match env.tier {
        Tier::Quick => Duration::from_secs(780),
        Tier::Thorough => Duration::from_secs(6 * 3600),
    });
    let hang = match env.tier {
        Tier::Quick => Duration::from_secs(240),
        Tier::Thorough => Duration::from_secs(3600),
    };
    start_hang_watch(*p, env, verif.to_path_buf(), hang, None);
    let start = Instant::now();
    let mut reports = Vec::new();
    for part in (p.parts)() {
        if let Some(only) = only {
            if only != part.name() {
                continue;
            }
        }
        let r = part.run(&env);
        eprintln!(
            "{} {:<28} {:>9} cases, {:>9} distinct non-trivial, {:.1}s{}",
            p.id,
            r.name,
            r.evaluations,
            r.distinct,
            r.wall.as_secs_f64(),
            if r.failure.is_some() { "  FAILED" } else { "" }
        );
        let failed = r.failure.is_some();
        reports.push(r);
        if failed || STOP.load(Ordering::SeqCst) {
            break;
        }
    }

    let failure = reports
        .iter()
        .find_map(|r| r.failure.clone().map(|f| (r.name, f)));
    let machinery = SAW_MACHINERY.lock().unwrap().clone();

    write_evidence(p, &env, &reports, failure.is_some(), start.elapsed(), verif);

    if let Some((part, (value, msg))) = failure {
        let path = write_replay(p, &env, part, &value, &msg, verif);
        println!("{} [{}]: {}", p.id, part, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if let Some(msg) = machinery {
        println!("ERROR: the check could not be carried out: {}", msg);
        return 2;
    }
    if reports.is_empty() {
        println!("ERROR: no such part");
        return 2;
    }
    println!(
        "OK property={} cases={}",
        p.id,
        reports.iter().map(|r| r.evaluations).sum::<u64>()
    );
    0
}

fn write_replay(
    p: &Property,
    env: &Env,
    part: &str,
    value: &serde_json::Value,
    msg: &str,
    verif: &Path,
) -> PathBuf {
    let dir = verif.join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", p.id, part));
    let doc = serde_json::json!({
        "property": p.id,
        "part": part,
        "seed": env.seed,
        "message": msg,
        "value": value,
        "how": format!("/verif/run.sh replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    path
}

fn write_evidence(
    p: &Property,
    env: &Env,
    reports: &[PartReport],
    violated: bool,
    wall: Duration,
    verif: &Path,
) {
    let parts: Vec<_> = reports
        .iter()
        .map(|r| {
            serde_json::json!({
                "part": r.name,
                "search": if r.exhaustive { "enumeration" } else { "random generation with shrinking" },
                "evaluations": r.evaluations,
                "nontrivial": r.nontrivial,
                "distinct_nontrivial": r.distinct,
                "classes": r.classes,
                "wall_s": r.wall.as_secs_f64(),
                "longest_case_s": r.longest.as_secs_f64(),
            })
        })
        .collect();
    let samples: Vec<_> = reports
        .iter()
        .flat_map(|r| {
            r.samples
                .iter()
                .map(move |s| serde_json::json!({"part": r.name, "case": s}))
        })
        .collect();
    let doc = serde_json::json!({
        "property": p.id,
        "tier": if env.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": env.seed,
        "level": p.level,
        "coverage": {
            "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reports.iter().map(|r| r.distinct).sum::<u64>(),
            "rule": p.rule,
            "samples": samples,
            "parts": parts,
        },
        "assumptions": p.assumptions,
        "wall_s": wall.as_secs_f64(),
        "violations": violated as u32,
    });
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", p.id));
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) {
        note_machinery(&format!("cannot write {}: {}", path.display(), e));
    }
}

pub fn replay(all: &[Property], file: &Path) -> i32 {
    start_watchdog(Duration::from_secs(780));
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("ERROR: {}: {}", file.display(), e);
            return 2;
        }
    };
    let doc: serde_json::Value = match serde_json::from_str(&text) {
        Ok(d) => d,
        Err(e) => {
            println!("ERROR: {}", e);
            return 2;
        }
    };
    let id = doc["property"].as_str().unwrap_or("");
    let part = doc["part"].as_str().unwrap_or("");
    let Some(p) = all.iter().find(|p| p.id == id) else {
        println!("ERROR: unknown property {}", id);
        return 2;
    };
    let parts = (p.parts)();
    let Some(part) = parts.iter().find(|x| x.name() == part) else {
        println!("ERROR: unknown part {}", part);
        return 2;
    };
    let hang = Duration::from_secs(400);
    start_hang_watch(*p, settings(p), file.to_path_buf(), hang, Some(file.to_path_buf()));
    match part.replay(&doc["value"]) {
        Err(e) => {
            println!("ERROR: cannot read the case: {}", e);
            2
        }
        Ok(Ok(_)) => {
            println!("OK property={} (the saved case passes)", id);
            0
        }
        Ok(Err(Fail::Violation(msg))) => {
            println!("{}: {}", id, msg);
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        Ok(Err(Fail::Machinery(msg))) => {
            println!("ERROR: {}", msg);
            2
        }
    }
}
