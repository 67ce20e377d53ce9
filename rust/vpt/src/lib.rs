//! Small property-based-testing runner on top of proptest's generators.
//!
//! A *check* decides one listed property. It is made of *laws*: executable
//! statements over generated inputs. Every generated input is a plain value
//! that serialises to JSON, so that a shrunk failure is written out as a replay
//! file which reproduces without the generators (`--replay FILE`).
//!
//! A run is a pure function of the code under test, VERIF_SEED and the tier:
//! fixed amounts of work, no clocks, no ambient randomness.

use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, Ordering},
        Mutex, OnceLock,
    },
    time::Instant,
};

use proptest::{
    strategy::{Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};

pub mod gen;

/// Outcome of one case.
pub type CaseResult = Result<(), Failure>;

/// Why a case failed.
#[derive(Debug, Clone)]
pub struct Failure {
    /// Exact signature of the failure (used only to match known findings).
    pub sig: Option<String>,
    pub msg: String,
}

impl From<String> for Failure {
    fn from(msg: String) -> Self {
        Failure { sig: None, msg }
    }
}
impl From<&str> for Failure {
    fn from(msg: &str) -> Self {
        Failure { sig: None, msg: msg.to_string() }
    }
}

/// Fails the case with a formatted message.
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::Failure::from(format!($($a)*))) };
}
/// Fails the case unless the condition holds.
#[macro_export]
macro_rules! check {
    ($c:expr) => { if !$c { return Err($crate::Failure::from(format!("failed: {} ({}:{})", stringify!($c), file!(), line!()))); } };
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::Failure::from(format!($($a)*))); } };
}
/// Fails the case unless both sides are equal.
#[macro_export]
macro_rules! check_eq {
    ($l:expr, $r:expr) => {{
        let (l, r) = (&$l, &$r);
        if l != r { return Err($crate::Failure::from(format!("{} != {} ({}:{})\n  left:  {}\n  right: {}", stringify!($l), stringify!($r), file!(), line!(), $crate::trunc(l), $crate::trunc(r)))); }
    }};
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if l != r { return Err($crate::Failure::from(format!("{}\n  left:  {}\n  right: {}", format!($($a)*), $crate::trunc(l), $crate::trunc(r)))); }
    }};
}

pub fn trunc<T: Debug + ?Sized>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}... ({} chars)", &s[..n], s.len())
    } else {
        s
    }
}

/// Per-case context: classification of the case.
#[derive(Default)]
pub struct Cx {
    nontrivial: bool,
    labels: Vec<String>,
}

impl Cx {
    /// Marks the case as non-trivial (by the rule the check states).
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    /// Counts the case under a label.
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.into());
        }
    }
    /// A context outside of the runner, for helper calls.
    pub fn scratch() -> Self {
        Self::default()
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn install_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        let msg = payload(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
        if !quiet {
            prev(info);
        }
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|p| PANIC.with(|m| m.borrow_mut().take()).unwrap_or_else(|| payload(&*p)))
}

/// How much work a law does in each tier.
#[derive(Clone, Copy)]
pub struct Budget {
    pub quick: u64,
    pub thorough: u64,
}

pub const fn cases(quick: u64) -> Budget {
    Budget { quick, thorough: quick * 20 }
}

#[derive(Default)]
struct Shard {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    failure: Option<Found>,
}

#[derive(Clone)]
struct Found {
    shard: usize,
    case: u64,
    shrinks: u64,
    input: Value,
    failure: Failure,
}

pub struct LawReport {
    name: String,
    evals: u64,
    distinct: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    failure: Option<Found>,
    wall_s: f64,
    exhaustive: bool,
}

/// One executable statement.
pub trait Law: Send + Sync {
    fn name(&self) -> &str;
    fn run(&self, env: &Env) -> LawReport;
    fn replay(&self, input: &Value) -> Result<CaseResult, String>;
    /// The input of one case.
    fn input(&self, env: &Env, shard: usize, case: u64) -> Value;
}

#[derive(Clone)]
pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub known: HashSet<String>,
    pub threads: usize,
    pub scale: f64,
    /// The place of the law that runs.
    pub law: u64,
}

fn hash64(parts: &[&[u8]]) -> u64 {
    // FNV-1a: stable across runs and toolchains.
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn rng_for(seed: u64, law: &str, shard: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    for i in 0..4u64 {
        let h = hash64(&[&seed.to_le_bytes(), law.as_bytes(), &(shard as u64).to_le_bytes(), &i.to_le_bytes()]);
        bytes[(i as usize) * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

fn config() -> Config {
    Config { failure_persistence: None, max_local_rejects: 1 << 20, max_global_rejects: 1 << 20, ..Config::default() }
}

struct PropLaw<S, V, F>
where
    S: Strategy<Value = V>,
{
    name: &'static str,
    budget: Budget,
    make: Box<dyn Fn() -> S + Send + Sync>,
    test: F,
}

/// A law over generated inputs.
pub fn law<S, V, M, F>(name: &'static str, budget: Budget, make: M, test: F) -> Box<dyn Law>
where
    S: Strategy<Value = V> + 'static,
    V: Debug + Serialize + DeserializeOwned + 'static,
    M: Fn() -> S + Send + Sync + 'static,
    F: Fn(&V, &mut Cx) -> CaseResult + Send + Sync + 'static,
{
    Box::new(PropLaw { name, budget, make: Box::new(make), test })
}

fn run_case<V, F>(test: &F, v: &V) -> (CaseResult, Cx)
where
    F: Fn(&V, &mut Cx) -> CaseResult,
{
    let mut cx = Cx::default();
    let r = catch(|| test(v, &mut cx));
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(Failure { sig: None, msg: p }),
    };
    (r, cx)
}

const MAX_SHRINK: u64 = 4000;

/// Which case each thread is at, for a case that never ends or takes the process
/// with it. `[kind, law, shard, case, start in ms]`; kind 1 is a generated case, 2
/// an input of known-findings.jsonl.
type Mark = [u64; 5];
static MARKS: Mutex<Vec<Option<Mark>>> = Mutex::new(Vec::new());
static MARK_FILE: OnceLock<std::fs::File> = OnceLock::new();
static EPOCH: OnceLock<Instant> = OnceLock::new();
static MAX_MS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// No case takes a hundredth of this on a slow machine.
const CASE_LIMIT_MS: u64 = 150_000;

thread_local! {
    static SLOT: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}

fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64
}
fn mark(m: Option<[u64; 4]>) {
    let m = m.map(|m| [m[0], m[1], m[2], m[3], now_ms()]);
    let mut all = MARKS.lock().unwrap();
    let slot = SLOT.get().unwrap_or_else(|| {
        let n = all.iter().position(|s| s.is_none()).unwrap_or(all.len());
        if n == all.len() {
            all.push(None);
        }
        SLOT.set(Some(n));
        n
    });
    if let Some(old) = all[slot] {
        MAX_MS.fetch_max(now_ms() - old[4], Ordering::Relaxed);
    }
    all[slot] = m;
    drop(all);
    if m.is_none() {
        SLOT.set(None);
    }
    if let Some(f) = MARK_FILE.get() {
        use std::os::unix::fs::FileExt;
        let b: Vec<u8> = m.unwrap_or_default().iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = f.write_at(&b, slot as u64 * 40);
    }
}

impl<S, V, F> Law for PropLaw<S, V, F>
where
    S: Strategy<Value = V> + 'static,
    V: Debug + Serialize + DeserializeOwned + 'static,
    F: Fn(&V, &mut Cx) -> CaseResult + Send + Sync + 'static,
{
    fn name(&self) -> &str {
        self.name
    }

    fn replay(&self, input: &Value) -> Result<CaseResult, String> {
        let v: V = serde_json::from_value(input.clone()).map_err(|e| format!("replay input: {e}"))?;
        Ok(run_case(&self.test, &v).0)
    }

    fn input(&self, env: &Env, shard: usize, case: u64) -> Value {
        let strat = (self.make)();
        let mut runner = TestRunner::new_with_rng(config(), rng_for(env.seed, self.name, shard));
        for _ in 0..case {
            strat.new_tree(&mut runner).expect("generate");
        }
        serde_json::to_value(strat.new_tree(&mut runner).expect("generate").current()).unwrap()
    }

    fn run(&self, env: &Env) -> LawReport {
        let start = Instant::now();
        let total = if env.thorough { self.budget.thorough } else { self.budget.quick };
        let total = ((total as f64 * env.scale) as u64).max(1);
        const SHARDS: usize = 16;
        let stop = AtomicBool::new(false);
        let next = Mutex::new(0usize);
        let done: Mutex<Vec<Shard>> = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..env.threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = {
                            let mut n = next.lock().unwrap();
                            let i = *n;
                            *n += 1;
                            i
                        };
                        if i >= SHARDS || stop.load(Ordering::SeqCst) {
                            return;
                        }
                        let cases = total / SHARDS as u64 + ((i as u64) < total % SHARDS as u64) as u64;
                        let sh = self.shard(env, i, cases);
                        if sh.failure.is_some() {
                            // Shards already started run to their end, so the lowest
                            // failing shard among those started is deterministic enough;
                            // the verdict itself does not depend on it.
                            stop.store(true, Ordering::SeqCst);
                        }
                        done.lock().unwrap().push(sh);
                    })
                    .expect("spawn");
            }
        });
        let mut rep = LawReport {
            name: self.name.to_string(),
            evals: 0,
            distinct: 0,
            labels: BTreeMap::new(),
            samples: vec![],
            known: BTreeMap::new(),
            failure: None,
            wall_s: 0.0,
            exhaustive: false,
        };
        let mut seen = HashSet::new();
        for sh in done.into_inner().unwrap() {
            rep.evals += sh.evals;
            seen.extend(sh.nontrivial);
            for (k, v) in sh.labels {
                *rep.labels.entry(k).or_default() += v;
            }
            for (k, v) in sh.known {
                *rep.known.entry(k).or_default() += v;
            }
            if rep.samples.len() < 2 {
                rep.samples.extend(sh.samples.into_iter().take(1));
            }
            if let Some(f) = sh.failure {
                if rep.failure.as_ref().is_none_or(|g| f.shard < g.shard) {
                    rep.failure = Some(f);
                }
            }
        }
        rep.distinct = seen.len() as u64;
        rep.wall_s = start.elapsed().as_secs_f64();
        rep
    }
}

impl<S, V, F> PropLaw<S, V, F>
where
    S: Strategy<Value = V> + 'static,
    V: Debug + Serialize + DeserializeOwned + 'static,
    F: Fn(&V, &mut Cx) -> CaseResult + Send + Sync + 'static,
{
    fn shard(&self, env: &Env, shard: usize, cases: u64) -> Shard {
        let mut out = Shard::default();
        let strat = (self.make)();
        let mut runner = TestRunner::new_with_rng(config(), rng_for(env.seed, self.name, shard));
        for case in 0..cases {
            let at = [1, env.law, shard as u64, case];
            let mut tree = strat.new_tree(&mut runner).unwrap_or_else(|e| panic!("{}: generator rejected too much: {e}", self.name));
            let v = tree.current();
            mark(Some(at));
            let (r, cx) = run_case(&self.test, &v);
            out.evals += 1;
            for l in cx.labels {
                *out.labels.entry(l).or_default() += 1;
            }
            if cx.nontrivial {
                let js = serde_json::to_vec(&v).expect("serialise input");
                let fresh = out.nontrivial.insert(hash64(&[&js]));
                if fresh && out.samples.is_empty() && js.len() < 1500 {
                    out.samples.push(serde_json::from_slice(&js).unwrap());
                }
            }
            let Err(f) = r else { continue };
            if let Some(sig) = f.sig.as_ref().filter(|s| env.known.contains(*s)) {
                *out.known.entry(sig.clone()).or_default() += 1;
                continue;
            }
            // Shrink.
            let (mut best, mut best_f) = (serde_json::to_value(&v).unwrap(), f);
            let mut steps = 0;
            let mut wins = 0;
            if tree.simplify() {
                loop {
                    steps += 1;
                    if steps > MAX_SHRINK {
                        break;
                    }
                    let v = tree.current();
                    mark(Some(at));
                    let (r, _) = run_case(&self.test, &v);
                    let fails = match r {
                        Err(f) if !f.sig.as_ref().is_some_and(|s| env.known.contains(s)) => Some(f),
                        _ => None,
                    };
                    if let Some(f) = fails {
                        best = serde_json::to_value(&v).unwrap();
                        best_f = f;
                        wins += 1;
                        if !tree.simplify() {
                            break;
                        }
                    } else if !tree.complicate() {
                        break;
                    }
                }
            }
            out.failure = Some(Found { shard, case, shrinks: wins, input: best, failure: best_f });
            mark(None);
            return out;
        }
        mark(None);
        out
    }
}

struct EnumLaw<V, F> {
    name: &'static str,
    make: Box<dyn Fn() -> Vec<V> + Send + Sync>,
    test: F,
}

/// A law over a finite domain, enumerated completely on every run.
pub fn exhaustive<V, M, F>(name: &'static str, make: M, test: F) -> Box<dyn Law>
where
    V: Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
    M: Fn() -> Vec<V> + Send + Sync + 'static,
    F: Fn(&V, &mut Cx) -> CaseResult + Send + Sync + 'static,
{
    Box::new(EnumLaw { name, make: Box::new(make), test })
}

impl<V, F> Law for EnumLaw<V, F>
where
    V: Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
    F: Fn(&V, &mut Cx) -> CaseResult + Send + Sync + 'static,
{
    fn name(&self) -> &str {
        self.name
    }
    fn replay(&self, input: &Value) -> Result<CaseResult, String> {
        let v: V = serde_json::from_value(input.clone()).map_err(|e| format!("replay input: {e}"))?;
        Ok(run_case(&self.test, &v).0)
    }
    fn input(&self, _: &Env, _: usize, case: u64) -> Value {
        serde_json::to_value(&(self.make)()[case as usize]).unwrap()
    }
    fn run(&self, env: &Env) -> LawReport {
        let start = Instant::now();
        let mut rep = LawReport {
            name: self.name.to_string(),
            evals: 0,
            distinct: 0,
            labels: BTreeMap::new(),
            samples: vec![],
            known: BTreeMap::new(),
            failure: None,
            wall_s: 0.0,
            exhaustive: true,
        };
        let mut seen = HashSet::new();
        for (i, v) in (self.make)().iter().enumerate() {
            mark(Some([1, env.law, 0, i as u64]));
            let (r, cx) = run_case(&self.test, v);
            rep.evals += 1;
            for l in cx.labels {
                *rep.labels.entry(l).or_default() += 1;
            }
            if cx.nontrivial {
                let js = serde_json::to_vec(v).unwrap();
                seen.insert(hash64(&[&js]));
                if rep.samples.is_empty() && js.len() < 1500 {
                    rep.samples.push(serde_json::from_slice(&js).unwrap());
                }
            }
            if let Err(f) = r {
                if let Some(sig) = f.sig.as_ref().filter(|s| env.known.contains(*s)) {
                    *rep.known.entry(sig.clone()).or_default() += 1;
                    continue;
                }
                rep.failure = Some(Found { shard: 0, case: i as u64, shrinks: 0, input: serde_json::to_value(v).unwrap(), failure: f });
                break;
            }
        }
        mark(None);
        rep.distinct = seen.len() as u64;
        rep.wall_s = start.elapsed().as_secs_f64();
        rep
    }
}

/// One check: decides one property.
pub struct Check {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub laws: Vec<Box<dyn Law>>,
}

#[derive(Deserialize)]
struct Known {
    property: String,
    law: String,
    signature: String,
    what: String,
    input: Value,
    #[serde(default)]
    fixed: Option<String>,
}

fn load_known(root: &str) -> Vec<Known> {
    let path = format!("{root}/known-findings.jsonl");
    let Ok(text) = std::fs::read_to_string(&path) else { return vec![] };
    text.lines()
        .map(str::trim)
        .filter(|l| l.starts_with('{'))
        .map(|l| serde_json::from_str(l).unwrap_or_else(|e| panic!("{path}: {e}")))
        .collect()
}

/// Writes down the input of a case that does not end.
fn write_lost(root: &str, id: &str, check: &Check, known: &[Known], env: &Env, m: &Mark, why: &str) -> String {
    let dir = format!("{root}/replays");
    std::fs::create_dir_all(&dir).expect("replays dir");
    let law = &check.laws[m[1] as usize];
    let input = if m[0] == 2 { known[m[3] as usize].input.clone() } else { law.input(env, m[2] as usize, m[3]) };
    let path = format!("{dir}/{id}-{}-{}-{}.json", law.name(), m[2], m[3]);
    let body = json!({"property": id, "law": law.name(), "seed": env.seed, "shard": m[2], "case": m[3], "message": why, "input": input});
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
    path
}

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Runs the check in a process of its own, so that a case that takes the process
/// with it (stack overflow, abort) is reported as well.
fn supervise(id: &str, args: &[String], lost: impl Fn(&Mark, &str) -> String) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let marks = std::env::temp_dir().join(format!("vpt-{}.marks", std::process::id()));
    let file = std::fs::File::create(&marks).ok();
    let status = std::process::Command::new(&exe).args(args).env("VPT_CHILD", "1").env("VPT_MARK", &marks).status().expect("start");
    let at = std::fs::read(&marks).unwrap_or_default();
    drop(file);
    let _ = std::fs::remove_file(&marks);
    let Some(sig) = status.signal() else { return status.code().unwrap_or(2) };
    eprintln!("the run was ended by signal {sig}");
    // Not by one from outside.
    if ![4, 6, 7, 8, 11].contains(&sig) {
        return 2;
    }
    let marks = at.chunks_exact(40).map(|c| -> Mark { std::array::from_fn(|i| u64::from_le_bytes(c[i * 8..][..8].try_into().unwrap())) });
    let mut found: Option<(bool, String)> = None;
    for m in marks.filter(|m| m[0] != 0) {
        let path = lost(&m, &format!("the process was ended by signal {sig}"));
        let mut c = std::process::Command::new(&exe).args([id, "--replay", &path]).env("VPT_CHILD", "1").stdout(std::process::Stdio::null()).spawn().expect("start");
        let mut end = None;
        for _ in 0..100 {
            end = c.try_wait().ok().flatten();
            if end.is_some() {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(300));
        }
        let _ = c.kill();
        let _ = c.wait();
        // One that ends the process again counts before one that only fails.
        let bad = end.filter(|e| e.code() != Some(0)).map(|e| e.signal().is_some());
        match bad {
            Some(killed) if found.as_ref().is_none_or(|f| killed && !f.0) => {
                if let Some((_, old)) = found.replace((killed, path)) {
                    let _ = std::fs::remove_file(old);
                }
            }
            _ => {
                let _ = std::fs::remove_file(path);
            }
        }
    }
    if let Some((_, path)) = found {
        println!("law fails: the process was ended by signal {sig}");
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    2
}

/// Entry point of a check binary: `BIN ID [--replay FILE] [--law NAME] [--list]`.
pub fn main(mk: impl Fn() -> Vec<Check>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let checks = mk();
    if args.iter().any(|a| a == "--list") {
        for c in &checks {
            println!("{}", c.id);
        }
        std::process::exit(0);
    }
    let id = args.first().cloned().unwrap_or_default();
    let Some(check) = checks.into_iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id:?}");
        std::process::exit(2);
    };
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();

    if let Some(path) = opt("--replay") {
        let text = std::fs::read_to_string(&path).expect("read replay file");
        let v: Value = serde_json::from_str(&text).expect("parse replay file");
        let lawname = v["law"].as_str().expect("law").to_string();
        let law = check.laws.iter().find(|l| l.name() == lawname).expect("no such law");
        // With the stack the runs have.
        let r = std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || law.replay(&v["input"]).expect("replay")).expect("spawn").join().expect("replay")
        });
        match r {
            Ok(()) => {
                println!("replay: law {lawname} holds on this input");
                std::process::exit(0);
            }
            Err(f) => {
                println!("replay: law {lawname} fails: {}", f.msg);
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
    }

    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) || args.iter().any(|a| a == "--thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VPT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let threads = std::env::var("VPT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit = if thorough { 4 * 3600 } else { 780 };

    let start = Instant::now();
    let known: Vec<Known> = load_known(&root).into_iter().filter(|k| k.property == id).collect();
    let mut env = Env {
        seed,
        thorough,
        known: known.iter().filter(|k| k.fixed.is_none()).map(|k| k.signature.clone()).collect(),
        threads,
        scale,
        law: 0,
    };
    if std::env::var_os("VPT_CHILD").is_none() {
        let status = supervise(&id, &args, |m, why| write_lost(&root, &id, &check, &known, &env, m, why));
        std::process::exit(status);
    }
    // The child ends with its parent.
    unsafe { prctl(1, 9, 0, 0, 0) };
    if let Some(p) = std::env::var_os("VPT_MARK") {
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open(p) {
            let _ = MARK_FILE.set(f);
        }
    }
    let check = std::sync::Arc::new(check);
    {
        let (check, env2, id) = (check.clone(), env.clone(), id.clone());
        let (root, known) = (root.clone(), load_known(&root).into_iter().filter(|k| k.property == id).collect::<Vec<_>>());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            if start.elapsed().as_secs() > limit {
                eprintln!("INCONCLUSIVE: the run did not finish within {limit} s");
                std::process::exit(3);
            }
            let now = now_ms();
            let late = MARKS.lock().unwrap().iter().flatten().find(|m| now > m[4] + CASE_LIMIT_MS).copied();
            if let Some(m) = late {
                let path = write_lost(&root, &id, &check, &known, &env2, &m, "the case did not end");
                println!("law {} fails: a case did not end within {} s", check.laws[m[1] as usize].name(), CASE_LIMIT_MS / 1000);
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        });
    }
    for (i, k) in known.iter().enumerate().filter(|(_, k)| k.fixed.is_none()) {
        // A listed finding is replayed on its recorded input.
        if let Some((l, law)) = check.laws.iter().enumerate().find(|(_, l)| l.name() == k.law) {
            mark(Some([2, l as u64, 0, i as u64]));
            if let Ok(Err(f)) = law.replay(&k.input) {
                if f.sig.as_deref() == Some(&k.signature) {
                    println!("KNOWN-FINDING: property={id} {}", k.what);
                }
            }
        }
    }
    // Inputs of repaired defects come first: a repair that is undone is reported at once.
    let mut regressions = vec![];
    for (n, k) in known.iter().enumerate().filter(|(_, k)| k.fixed.is_some()) {
        if let Some((l, law)) = check.laws.iter().enumerate().find(|(_, l)| l.name() == k.law) {
            mark(Some([2, l as u64, 0, n as u64]));
            if let Ok(Err(f)) = law.replay(&k.input) {
                let dir = format!("{root}/replays");
                std::fs::create_dir_all(&dir).expect("replays dir");
                let path = format!("{dir}/{id}-fixed-{n}.json");
                let body = json!({"property": id, "law": k.law, "message": f.msg, "signature": f.sig, "input": k.input});
                std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
                println!("law {} fails on the input of a repaired defect: {}", k.law, f.msg);
                regressions.push(path);
            }
        }
    }
    let only = opt("--law");
    let mut reports = vec![];
    mark(None);
    for (i, law) in check.laws.iter().enumerate() {
        env.law = i as u64;
        if only.as_ref().is_some_and(|o| o != law.name()) {
            continue;
        }
        let rep = law.run(&env);
        println!(
            "{id} {:<34} cases={:<8} distinct-nontrivial={:<8} {:.1}s{}",
            rep.name,
            rep.evals,
            rep.distinct,
            rep.wall_s,
            if rep.failure.is_some() { "  FAILED" } else { "" }
        );
        if std::env::var("VPT_LABELS").is_ok() {
            for (k, v) in &rep.labels {
                println!("      {v:>8} {k}");
            }
        }
        reports.push(rep);
    }

    let mut violations = regressions;
    for r in &reports {
        if let Some(f) = &r.failure {
            let dir = format!("{root}/replays");
            std::fs::create_dir_all(&dir).expect("replays dir");
            let path = format!("{dir}/{id}-{}.json", r.name);
            let body = json!({
                "property": id, "law": r.name, "seed": seed, "shard": f.shard, "case": f.case,
                "shrink_steps": f.shrinks, "message": f.failure.msg, "signature": f.failure.sig, "input": f.input,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
            println!("law {} fails: {}", r.name, f.failure.msg);
            println!("  minimal input: {}", trunc(&f.input.to_string()));
            violations.push(path);
        }
    }
    let evals: u64 = reports.iter().map(|r| r.evals).sum();
    let distinct: u64 = reports.iter().map(|r| r.distinct).sum();
    let samples: Vec<Value> = reports
        .iter()
        .flat_map(|r| r.samples.iter().take(1).map(|s| json!({"law": r.name, "case": s})))
        .collect();
    let laws: Vec<Value> = reports
        .iter()
        .map(|r| json!({"law": r.name, "evaluations": r.evals, "distinct_nontrivial": r.distinct, "exhaustive": r.exhaustive, "wall_s": (r.wall_s*100.0).round()/100.0, "known_finding_hits": r.known, "classes": r.labels}))
        .collect();
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": check.rule,
            "samples": samples,
            "laws": laws,
        },
        "assumptions": check.assumptions,
        "wall_s": (start.elapsed().as_secs_f64()*100.0).round()/100.0,
        "violations": violations.len(),
    });
    let evdir = format!("{root}/evidence");
    std::fs::create_dir_all(&evdir).expect("evidence dir");
    std::fs::write(format!("{evdir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");

    if evals == 0 || distinct == 0 {
        eprintln!("no non-trivial case was evaluated");
        std::process::exit(2);
    }
    if std::env::var("VPT_LABELS").is_ok() {
        println!("slowest case: {} ms", MAX_MS.load(Ordering::Relaxed));
    }
    println!("{id}: {evals} cases, {distinct} distinct non-trivial, {} laws, {:.1}s", reports.len(), start.elapsed().as_secs_f64());
    for v in &violations {
        println!("VIOLATION property={id} replay={v}");
    }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}

/// Hash of any hashable value (for classification only).
pub fn quick_hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
