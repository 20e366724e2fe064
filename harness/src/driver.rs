//! Suites, workers, shrinking, crash isolation, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn parse(s: &str) -> Tier {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    }
}

/// What a check notes about the case it judged.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub discarded: bool,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
}

pub type Res = Result<(), String>;

// ------------------------------------------------------------------ panics of the code under test

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("HARNESS PANIC: {text}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// Whether this thread is inside the code under test.
pub fn guarded() -> bool {
    GUARDED.try_with(|g| g.get() > 0).unwrap_or(false)
}

/// Calls the code under test; a panic becomes an error that names the call.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| format!("{what} panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

/// Like [`guard`], on a fresh thread whose random numbers derive from `seed`.
pub fn seeded<T: Send>(what: &str, seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    getrandom::set_seed(seed);
    std::thread::scope(|s| {
        s.spawn(|| guard(what, f)).join().expect("guarded thread ends normally")
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ------------------------------------------------------------------ suites

trait Tree {
    fn simplify(&mut self) -> bool;
    fn complicate(&mut self) -> bool;
    fn json(&self) -> Value;
}

struct TypedTree<C, T: ValueTree<Value = C>>(T);

impl<C: Serialize, T: ValueTree<Value = C>> Tree for TypedTree<C, T> {
    fn simplify(&mut self) -> bool {
        self.0.simplify()
    }
    fn complicate(&mut self) -> bool {
        self.0.complicate()
    }
    fn json(&self) -> Value {
        serde_json::to_value(self.0.current()).expect("case serialises")
    }
}

struct FixedTree(Value);
impl Tree for FixedTree {
    fn simplify(&mut self) -> bool {
        false
    }
    fn complicate(&mut self) -> bool {
        false
    }
    fn json(&self) -> Value {
        self.0.clone()
    }
}

type TreeFn = Box<dyn Fn(&mut TestRunner, u64, Tier) -> Box<dyn Tree>>;
type CheckFn = Box<dyn Fn(&Value, &mut Cx) -> Res>;
type ShrinkFn = Box<dyn Fn(&Value) -> Vec<Value>>;

pub struct Suite {
    pub name: &'static str,
    /// What is generated and what counts as non-trivial.
    pub rule: &'static str,
    quick: u64,
    thorough: u64,
    exhaustive: bool,
    /// Whether `Property::times` applies.
    scales: bool,
    tree: TreeFn,
    check: CheckFn,
    shrink: Option<ShrinkFn>,
}

impl Suite {
    /// Cases drawn from a proptest strategy.
    pub fn random<C, F, S, K>(
        name: &'static str,
        rule: &'static str,
        quick: u64,
        thorough: u64,
        strategy: F,
        check: K,
    ) -> Suite
    where
        C: Serialize + DeserializeOwned + std::fmt::Debug + 'static,
        F: Fn(Tier) -> S,
        S: Strategy<Value = C> + 'static,
        K: Fn(&C, &mut Cx) -> Res + 'static,
    {
        let (q, t): (BoxedStrategy<C>, BoxedStrategy<C>) =
            (strategy(Tier::Quick).boxed(), strategy(Tier::Thorough).boxed());
        Suite {
            name,
            rule,
            quick,
            thorough,
            exhaustive: false,
            scales: true,
            tree: Box::new(move |runner, _, tier| {
                let s = if tier == Tier::Quick { &q } else { &t };
                Box::new(TypedTree(s.new_tree(runner).expect("strategies here never reject")))
            }),
            check: Box::new(move |v, cx| {
                let c: C = serde_json::from_value(v.clone()).expect("case deserialises");
                check(&c, cx)
            }),
            shrink: None,
        }
    }

    /// A finite space, all of it (`quick` = `thorough` = its size) or an even sample of it.
    pub fn enumerated<C, F, K>(
        name: &'static str,
        rule: &'static str,
        quick: u64,
        thorough: u64,
        total: u64,
        at: F,
        check: K,
    ) -> Suite
    where
        C: Serialize + DeserializeOwned + std::fmt::Debug + 'static,
        F: Fn(u64) -> C + 'static,
        K: Fn(&C, &mut Cx) -> Res + 'static,
    {
        let (quick, thorough) = (quick.min(total), thorough.min(total));
        Suite {
            name,
            rule,
            quick,
            thorough,
            exhaustive: quick == total,
            scales: false,
            tree: Box::new(move |_, i, tier| {
                let n = if tier == Tier::Quick { quick } else { thorough };
                let at_index = (i as u128 * total as u128 / n as u128) as u64;
                Box::new(FixedTree(
                    serde_json::to_value(at(at_index)).expect("case serialises"),
                ))
            }),
            check: Box::new(move |v, cx| {
                let c: C = serde_json::from_value(v.clone()).expect("case deserialises");
                check(&c, cx)
            }),
            shrink: None,
        }
    }

    /// Adds a domain-specific shrinking step, tried after proptest's.
    pub fn with_shrink<C, F>(mut self, f: F) -> Suite
    where
        C: Serialize + DeserializeOwned + 'static,
        F: Fn(&C) -> Vec<C> + 'static,
    {
        self.shrink = Some(Box::new(move |v| {
            let c: C = serde_json::from_value(v.clone()).expect("case deserialises");
            f(&c)
                .iter()
                .map(|c| serde_json::to_value(c).expect("case serialises"))
                .collect()
        }));
        self
    }

    /// For suites whose cases are whole batches: the number of cases stays as given.
    pub fn batches(mut self) -> Suite {
        self.scales = false;
        self
    }

    pub fn cases(&self, tier: Tier) -> u64 {
        let n = match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((n as f64 * f) as u64).max(1),
            None => n,
        }
    }
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub suites: Vec<Suite>,
}

impl Property {
    /// Multiplies the cases of the random suites; the thorough tier runs 20 times the quick one or more.
    pub fn times(mut self, k: u64) -> Property {
        for s in self.suites.iter_mut().filter(|s| s.scales) {
            s.quick *= k;
            s.thorough = s.thorough.max(s.quick * 20);
        }
        self
    }
}

// ------------------------------------------------------------------ seeds

pub fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    bytes.iter().fold(0xcbf2_9ce4_8422_2325, |h, &b| {
        (h ^ b as u64).wrapping_mul(0x100_0000_01b3)
    })
}

fn case_seed(seed: u64, prop: &str, suite: &str, index: u64) -> [u8; 32] {
    let mut out = [0; 32];
    let base = splitmix(seed ^ splitmix(fnv(prop.as_bytes()) ^ splitmix(fnv(suite.as_bytes()))));
    for (i, c) in out.chunks_mut(8).enumerate() {
        c.copy_from_slice(&splitmix(base ^ splitmix(index * 4 + i as u64)).to_le_bytes());
    }
    out
}

fn make_tree(prop: &str, s: &Suite, seed: u64, index: u64, tier: Tier) -> Box<dyn Tree> {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &case_seed(seed, prop, s.name, index));
    let config = Config {
        failure_persistence: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, rng);
    (s.tree)(&mut runner, index, tier)
}

// ------------------------------------------------------------------ results

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub suite: String,
    pub index: u64,
    pub case: Value,
    pub message: String,
    pub shrink_steps: u64,
}

#[derive(Serialize, Deserialize, Default)]
struct SuiteStats {
    evaluations: u64,
    nontrivial: u64,
    discarded: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerResult {
    suites: BTreeMap<String, SuiteStats>,
    failure: Option<Failure>,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    suite: String,
    case: Value,
    message: String,
    /// Set when the failure needs the cases before it: (seed, tier, shard, shards, index).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    range: Option<(u64, String, u64, u64, u64)>,
}

pub const HARNESS_ERROR: i32 = 66;

/// Distinct cases a worker counts; beyond it the count in the evidence is a lower bound.
const MOST_HASHES: usize = 8_000_000;

/// A case that computes for this many seconds does not end: the slowest one takes a few seconds.
fn patience(tier: Tier) -> u32 {
    if tier == Tier::Quick {
        90
    } else {
        600
    }
}

/// Nor does one that takes this many times as long without computing.
const WAITING: u32 = 3;

/// Seconds of processor time used by a worker.
fn cpu_seconds(pid: u32) -> u64 {
    let stat = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let fields: Vec<u64> = stat
        .rsplit(')')
        .next()
        .unwrap_or("")
        .split_whitespace()
        .skip(11)
        .take(2)
        .filter_map(|f| f.parse().ok())
        .collect();
    fields.iter().sum::<u64>() / (unsafe { libc::sysconf(libc::_SC_CLK_TCK) }.max(1) as u64)
}

const NO_END: &str = "no result within";

/// Runs the check; a panic that the check does not attribute to the code under test ends the worker.
fn run_check(s: &Suite, case: &Value, cx: &mut Cx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (s.check)(case, cx))) {
        Ok(r) => r,
        Err(_) => {
            eprintln!(
                "harness error in suite {} on case {}",
                s.name,
                serde_json::to_string(case).unwrap_or_default()
            );
            std::process::exit(HARNESS_ERROR)
        }
    }
}

fn shrink(
    s: &Suite,
    mut tree: Box<dyn Tree>,
    first: Value,
    message: String,
    fails: &mut dyn FnMut(&Value) -> Option<String>,
) -> (Value, String, u64) {
    let start = Instant::now();
    let (mut best, mut msg, mut steps) = (first, message, 0u64);
    let limit = |steps: u64| steps < 20_000 && start.elapsed() < Duration::from_secs(60);
    if tree.simplify() {
        while limit(steps) {
            steps += 1;
            let v = tree.json();
            if let Some(m) = fails(&v) {
                best = v;
                msg = m;
                if !tree.simplify() {
                    break;
                }
            } else if !tree.complicate() {
                break;
            }
        }
    }
    if let Some(f) = &s.shrink {
        'again: while limit(steps) {
            for v in f(&best) {
                steps += 1;
                if let Some(m) = fails(&v) {
                    best = v;
                    msg = m;
                    continue 'again;
                }
                if !limit(steps) {
                    break;
                }
            }
            break;
        }
    }
    (best, msg, steps)
}

// ------------------------------------------------------------------ worker

pub struct WorkerArgs {
    pub tier: Tier,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub dir: PathBuf,
    /// Stop after this (suite number, case) has run: used to repeat a crash.
    pub until: Option<(u64, u64)>,
}

pub fn worker(p: &Property, a: &WorkerArgs) -> i32 {
    let journal = fs::File::create(a.dir.join(format!("journal.{}", a.shard))).expect("journal");
    let mut result = WorkerResult::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    'suites: for (si, s) in p.suites.iter().enumerate() {
        let stats = result.suites.entry(s.name.to_string()).or_default();
        let mut i = a.shard;
        while i < s.cases(a.tier) {
            let mut note = [0u8; 16];
            note[..8].copy_from_slice(&(si as u64).to_le_bytes());
            note[8..].copy_from_slice(&i.to_le_bytes());
            journal.write_all_at(&note, 0).expect("journal");
            let tree = make_tree(p.id, s, a.seed, i, a.tier);
            let case = tree.json();
            let mut cx = Cx::default();
            let r = run_check(s, &case, &mut cx);
            stats.evaluations += 1;
            for l in cx.labels {
                *stats.labels.entry(l.to_string()).or_default() += 1;
            }
            if cx.discarded {
                stats.discarded += 1;
            }
            if cx.nontrivial {
                stats.nontrivial += 1;
                let text = serde_json::to_vec(&case).expect("case serialises");
                if hashes.len() < MOST_HASHES {
                    hashes.insert(fnv(&text) ^ splitmix(si as u64));
                }
                if stats.samples.len() < 2 && text.len() < 4000 && a.shard < 2 {
                    stats.samples.push(case.clone());
                }
            }
            if let Err(m) = r {
                let (case, message, steps) = shrink(s, tree, case, m, &mut |v| {
                    run_check(s, v, &mut Cx::default()).err()
                });
                result.failure = Some(Failure {
                    suite: s.name.to_string(),
                    index: i,
                    case,
                    message,
                    shrink_steps: steps,
                });
                break 'suites;
            }
            if a.until == Some((si as u64, i)) {
                break 'suites;
            }
            i += a.shards;
        }
    }
    let mut raw = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        raw.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(a.dir.join(format!("hashes.{}", a.shard)), raw).expect("hashes");
    fs::write(
        a.dir.join(format!("result.{}", a.shard)),
        serde_json::to_vec(&result).expect("result serialises"),
    )
    .expect("result");
    0
}

/// Runs one evaluation in a forked child. `None`: passed, or no verdict.
fn forked_check(s: &Suite, case: &Value, errlog: &Path, seconds: u32) -> Option<String> {
    let _ = fs::write(errlog, b"");
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            let path = std::ffi::CString::new(errlog.to_str().unwrap()).unwrap();
            let fd = libc::open(path.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o600);
            libc::dup2(fd, 2);
            let cpu = libc::rlimit { rlim_cur: seconds as u64, rlim_max: seconds as u64 + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            libc::alarm(seconds * WAITING);
            if let Err(m) = run_check(s, case, &mut Cx::default()) {
                let b = m.as_bytes();
                libc::write(fds[1], b.as_ptr() as *const _, b.len().min(60_000));
                libc::_exit(1);
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            if sig == libc::SIGALRM || sig == libc::SIGXCPU {
                return Some(format!("{NO_END} {seconds} s of computing"));
            }
            return crash_signal(sig).map(|n| format!("the process died with {n}{}", tail_of(errlog)));
        }
        match libc::WEXITSTATUS(status) {
            0 => None,
            1 => Some(String::from_utf8_lossy(&out).into_owned()),
            _ => None,
        }
    }
}

fn crash_signal(sig: i32) -> Option<&'static str> {
    match sig {
        libc::SIGSEGV => Some("SIGSEGV"),
        libc::SIGBUS => Some("SIGBUS"),
        libc::SIGABRT => Some("SIGABRT"),
        libc::SIGILL => Some("SIGILL"),
        libc::SIGFPE => Some("SIGFPE"),
        libc::SIGTRAP => Some("SIGTRAP"),
        libc::SIGALRM => Some("a time-out"),
        _ => None,
    }
}

/// The telling lines of a crashed process's stderr.
fn tail_of(path: &Path) -> String {
    let text = fs::read(path).unwrap_or_default();
    let text = String::from_utf8_lossy(&text);
    let telling: Vec<&str> = text
        .lines()
        .filter(|l| {
            l.contains("ERROR: AddressSanitizer")
                || l.contains("VERIF-OVERSIZE")
                || l.contains("overflowed its stack")
                || l.contains("panicked")
                || l.contains("memory allocation")
                || l.contains("unsafe precondition")
                || (l.trim_start().starts_with('#') && l.contains("/repo/"))
        })
        .take(6)
        .collect();
    if telling.is_empty() {
        String::new()
    } else {
        format!(": {}", telling.join(" | "))
    }
}

/// Repeats one case in forked children and shrinks it there.
pub fn isolate(p: &Property, suite: u64, index: u64, a: &WorkerArgs) -> i32 {
    let s = &p.suites[suite as usize];
    let errlog = a.dir.join("isolate.err");
    let tree = make_tree(p.id, s, a.seed, index, a.tier);
    let case = tree.json();
    let limit = patience(a.tier);
    let Some(m) = forked_check(s, &case, &errlog, limit) else {
        return 3;
    };
    let (case, message, steps) = if m.starts_with(NO_END) {
        (case, m, 0)
    } else {
        shrink(s, tree, case, m, &mut |v| {
            forked_check(s, v, &errlog, limit).filter(|m| !m.starts_with(NO_END))
        })
    };
    let f = Failure {
        suite: s.name.to_string(),
        index,
        case,
        message,
        shrink_steps: steps,
    };
    fs::write(a.dir.join("isolate.result"), serde_json::to_vec(&f).unwrap()).expect("result");
    0
}

// ------------------------------------------------------------------ replay

pub enum ReplayOutcome {
    Holds,
    Fails(String),
    /// The suite it comes from is not part of this build.
    NotHere(String),
    Error(String),
}

pub fn replay_file(find: &dyn Fn(&str) -> Option<Property>, path: &Path) -> ReplayOutcome {
    let text = match fs::read(path) {
        Ok(t) => t,
        Err(e) => return ReplayOutcome::Error(format!("{}: {e}", path.display())),
    };
    let r: Replay = match serde_json::from_slice(&text) {
        Ok(r) => r,
        Err(e) => return ReplayOutcome::Error(format!("{}: {e}", path.display())),
    };
    let Some(p) = find(&r.property) else {
        return ReplayOutcome::Error(format!("unknown property {}", r.property));
    };
    let errlog = std::env::temp_dir().join(format!("verif-replay-{}.err", std::process::id()));
    let Some(si) = p.suites.iter().position(|s| s.name == r.suite) else {
        return ReplayOutcome::NotHere(format!("unknown suite {}", r.suite));
    };
    if let Some((seed, tier, shard, shards, index)) = r.range {
        let si = si as u64;
        let dir = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
        fs::create_dir_all(&dir).expect("scratch");
        let status = spawn_worker(&p, Tier::parse(&tier), seed, shard, shards, &dir, Some((si, index)))
            .wait()
            .expect("worker");
        let out = match status.signal().and_then(crash_signal) {
            Some(n) => ReplayOutcome::Fails(format!("the process died with {n}")),
            None if status.success() => ReplayOutcome::Holds,
            None => ReplayOutcome::Error(format!("worker: {status}")),
        };
        let _ = fs::remove_dir_all(&dir);
        return out;
    }
    let out = match forked_check(&p.suites[si], &r.case, &errlog, patience(Tier::Quick)) {
        Some(m) => ReplayOutcome::Fails(m),
        None => ReplayOutcome::Holds,
    };
    let _ = fs::remove_file(&errlog);
    out
}

// ------------------------------------------------------------------ parent

fn spawn_worker(
    p: &Property,
    tier: Tier,
    seed: u64,
    shard: u64,
    shards: u64,
    dir: &Path,
    until: Option<(u64, u64)>,
) -> Child {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.arg("worker")
        .arg(p.id)
        .arg(tier.name())
        .arg(seed.to_string())
        .arg(shard.to_string())
        .arg(shards.to_string())
        .arg(dir);
    if let Some((s, i)) = until {
        c.arg(s.to_string()).arg(i.to_string());
    }
    let err = fs::File::create(dir.join(format!("stderr.{shard}"))).expect("stderr file");
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
    c.env(
        "ASAN_OPTIONS",
        "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64",
    );
    c.spawn().expect("worker starts")
}

pub struct CheckArgs {
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub level: &'static str,
}

/// Exit status of the whole check.
pub fn check(p: &Property, a: &CheckArgs, find: &dyn Fn(&str) -> Option<Property>) -> i32 {
    let start = Instant::now();
    let deadline = start + Duration::from_secs(if a.tier == Tier::Quick { 780 } else { 6 * 3600 });
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).expect("scratch directory");
    let code = check_in(p, a, find, &dir, start, deadline);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn check_in(
    p: &Property,
    a: &CheckArgs,
    find: &dyn Fn(&str) -> Option<Property>,
    dir: &Path,
    start: Instant,
    deadline: Instant,
) -> i32 {
    // Saved inputs first.
    let mut failure: Option<(Failure, Option<(u64, String, u64, u64, u64)>)> = None;
    let mut regressions = 0u64;
    let mut files: Vec<PathBuf> = fs::read_dir(a.verif.join("regressions").join(p.id))
        .map(|d| d.filter_map(|e| Some(e.ok()?.path())).collect())
        .unwrap_or_default();
    files.sort();
    for f in files.iter().filter(|f| f.extension().is_some_and(|e| e == "json")) {
        regressions += 1;
        match replay_file(find, f) {
            ReplayOutcome::Holds => (),
            ReplayOutcome::Fails(message) => {
                let r: Replay = serde_json::from_slice(&fs::read(f).unwrap()).unwrap();
                failure = Some((
                    Failure {
                        suite: r.suite,
                        index: 0,
                        case: r.case,
                        message: format!("(saved input {}) {message}", f.display()),
                        shrink_steps: 0,
                    },
                    None,
                ));
                break;
            }
            ReplayOutcome::NotHere(_) => regressions -= 1,
            ReplayOutcome::Error(e) => {
                println!("ERROR property={} {e}", p.id);
                return 2;
            }
        }
    }

    let shards = std::thread::available_parallelism().map_or(8, |n| n.get().clamp(2, 16)) as u64;
    let mut merged = WorkerResult::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    if failure.is_none() {
        let mut running: Vec<(u64, Child)> = (0..shards)
            .map(|i| (i, spawn_worker(p, a.tier, a.seed, i, shards, dir, None)))
            .collect();
        let kill_all = |running: &mut Vec<(u64, Child)>| {
            for (_, c) in running.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            running.clear();
        };
        let mut last: BTreeMap<u64, (Vec<u8>, Instant, u64)> = BTreeMap::new();
        while !running.is_empty() && failure.is_none() {
            if Instant::now() > deadline {
                kill_all(&mut running);
                println!("ERROR property={} no verdict: time limit reached", p.id);
                return 2;
            }
            let mut ended = None;
            for (k, (shard, c)) in running.iter_mut().enumerate() {
                if let Some(st) = c.try_wait().expect("wait") {
                    ended = Some((k, *shard, st));
                    break;
                }
            }
            let Some((k, shard, status)) = ended else {
                std::thread::sleep(Duration::from_millis(10));
                // A worker that stays at one case for long.
                for (shard, c) in running.iter_mut() {
                    let j = fs::read(dir.join(format!("journal.{shard}"))).unwrap_or_default();
                    let e = last.entry(*shard).or_insert_with(|| (Vec::new(), Instant::now(), 0));
                    let limit = patience(a.tier) as u64;
                    if e.0 != j {
                        *e = (j, Instant::now(), cpu_seconds(c.id()));
                    } else if e.1.elapsed() > Duration::from_secs(limit)
                        && (cpu_seconds(c.id()) > e.2 + limit
                            || e.1.elapsed() > Duration::from_secs(limit * WAITING as u64))
                    {
                        let _ = unsafe { libc::kill(c.id() as i32, libc::SIGALRM) };
                        e.1 = Instant::now();
                    }
                }
                continue;
            };
            running.remove(k);
            if status.success() {
                let r: WorkerResult = serde_json::from_slice(
                    &fs::read(dir.join(format!("result.{shard}"))).expect("worker result"),
                )
                .expect("worker result parses");
                for (name, s) in r.suites {
                    let m = merged.suites.entry(name).or_default();
                    m.evaluations += s.evaluations;
                    m.nontrivial += s.nontrivial;
                    m.discarded += s.discarded;
                    for (l, n) in s.labels {
                        *m.labels.entry(l).or_default() += n;
                    }
                    m.samples.extend(s.samples);
                }
                let raw = fs::read(dir.join(format!("hashes.{shard}"))).expect("hashes");
                distinct.extend(
                    raw.chunks_exact(8)
                        .map(|c| u64::from_le_bytes(c.try_into().unwrap())),
                );
                failure = r.failure.map(|f| (f, None));
            } else if let Some(name) = status.signal().and_then(crash_signal) {
                kill_all(&mut running);
                let j = fs::read(dir.join(format!("journal.{shard}"))).unwrap_or_default();
                if j.len() != 16 {
                    println!("ERROR property={} worker died before its first case", p.id);
                    return 2;
                }
                let si = u64::from_le_bytes(j[..8].try_into().unwrap());
                let index = u64::from_le_bytes(j[8..].try_into().unwrap());
                let why = tail_of(&dir.join(format!("stderr.{shard}")));
                eprintln!("worker {shard} died with {name}{why}; isolating suite {si} case {index}");
                let st = Command::new(std::env::current_exe().unwrap())
                    .arg("isolate")
                    .arg(p.id)
                    .arg(a.tier.name())
                    .arg(a.seed.to_string())
                    .arg(si.to_string())
                    .arg(index.to_string())
                    .arg(dir)
                    .env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
                    .status()
                    .expect("isolate runs");
                if st.success() {
                    let f: Failure =
                        serde_json::from_slice(&fs::read(dir.join("isolate.result")).unwrap()).unwrap();
                    failure = Some((f, None));
                } else if name == "a time-out" {
                    println!("ERROR property={} a case took too long, but not when repeated", p.id);
                    return 2;
                } else {
                    // Not by this case alone: confirm that the same sequence crashes again.
                    let st = spawn_worker(p, a.tier, a.seed, shard, shards, dir, Some((si, index)))
                        .wait()
                        .expect("worker");
                    if st.signal().and_then(crash_signal).is_none() {
                        println!("ERROR property={} a worker died with {name}{why}, which did not happen again", p.id);
                        return 2;
                    }
                    failure = Some((
                        Failure {
                            suite: p.suites[si as usize].name.to_string(),
                            index,
                            case: Value::Null,
                            message: format!("after the cases before it, case {index} kills the process with {name}{why}"),
                            shrink_steps: 0,
                        },
                        Some((a.seed, a.tier.name().to_string(), shard, shards, index)),
                    ));
                }
            } else {
                kill_all(&mut running);
                let err = fs::read(dir.join(format!("stderr.{shard}"))).unwrap_or_default();
                let err = String::from_utf8_lossy(&err);
                let tail: Vec<&str> = err.lines().rev().take(15).collect();
                println!("ERROR property={} worker {shard} ended with {status}", p.id);
                for l in tail.iter().rev() {
                    println!("  {l}");
                }
                return 2;
            }
        }
        kill_all(&mut running);
    }

    // Evidence.
    let evaluations: u64 = merged.suites.values().map(|s| s.evaluations).sum();
    let mut rules = Vec::new();
    let mut samples = Vec::new();
    let mut per_suite = serde_json::Map::new();
    let mut all_exhaustive = true;
    for s in &p.suites {
        let empty = SuiteStats::default();
        let st = merged.suites.get(s.name).unwrap_or(&empty);
        rules.push(format!("{}: {}", s.name, s.rule));
        all_exhaustive &= s.exhaustive;
        for v in st.samples.iter().take(2) {
            samples.push(json!({"suite": s.name, "case": v}));
        }
        per_suite.insert(
            s.name.to_string(),
            json!({"evaluations": st.evaluations, "nontrivial": st.nontrivial, "discarded": st.discarded,
                   "labels": st.labels, "exhaustive": s.exhaustive}),
        );
    }
    if let Some((f, _)) = &failure {
        samples.push(json!({"suite": f.suite, "violation": f.case, "message": f.message}));
    }
    let evidence = json!({
        "property": p.id,
        "tier": a.tier.name(),
        "seed": a.seed,
        "level": a.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": rules.join(" || "),
            "samples": samples,
            "suites": per_suite,
            "saved_inputs_replayed": regressions,
            "exhaustive": all_exhaustive && failure.is_none(),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failure.is_some() as u32,
    });
    let ev = a.verif.join("evidence");
    fs::create_dir_all(&ev).expect("evidence directory");
    fs::write(
        ev.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("evidence file");

    match failure {
        None => {
            println!(
                "OK property={} evaluations={evaluations} distinct_nontrivial={} wall_s={:.1}",
                p.id,
                distinct.len(),
                start.elapsed().as_secs_f64()
            );
            0
        }
        Some((f, range)) => {
            let rdir = a.verif.join("replays").join(p.id);
            fs::create_dir_all(&rdir).expect("replay directory");
            let r = Replay {
                property: p.id.to_string(),
                suite: f.suite.clone(),
                case: f.case.clone(),
                message: f.message.clone(),
                range,
            };
            let text = serde_json::to_string_pretty(&r).unwrap() + "\n";
            let path = rdir.join(format!("{:016x}.json", fnv(text.as_bytes())));
            fs::File::create(&path)
                .and_then(|mut o| o.write_all(text.as_bytes()))
                .expect("replay file");
            println!("suite {} case {} ({} shrink steps)", f.suite, f.index, f.shrink_steps);
            println!("{}", f.message);
            let c = serde_json::to_string(&f.case).unwrap();
            println!("input {}", if c.len() > 2000 { &c[..c.char_indices().take_while(|(i, _)| *i < 2000).count().min(c.len())] } else { &c });
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}
