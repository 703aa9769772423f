//! Runner: workers, scratch directories, the tool under test, evidence and replay files.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken
    Violation(String),
    /// The check could not be carried out
    Infra(String),
}

impl From<std::io::Error> for Fail {
    fn from(e: std::io::Error) -> Self {
        Fail::Infra(format!("io: {e}"))
    }
}

pub type Res<T> = Result<T, Fail>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::core::Fail::Violation(format!($($a)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::core::Fail::Violation(format!($($a)*))); } };
}

/// What a case exercised. `nontrivial` by the property's rule.
#[derive(Default, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// executions of the tool
    pub extra: u64,
}

impl Info {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn label(&mut self, l: &'static str, on: bool) {
        if on {
            self.labels.push(l);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Prop: Sync {
    type Case: Debug + Clone + Serialize + DeserializeOwned;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u32;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(&self, case: &Self::Case, env: &Env) -> Res<Info>;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// Probes for recorded findings: (signature, still failing?)
    fn known(&self, _env: &Env) -> Res<Vec<(&'static str, bool)>> {
        Ok(vec![])
    }
}

pub struct Env {
    root: PathBuf,
    bin: PathBuf,
    next: AtomicU64,
    pub execs: AtomicU64,
}

/// Directory of one case; removed when dropped
pub struct Dir(pub PathBuf);

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

impl Dir {
    pub fn path(&self, p: &str) -> PathBuf {
        self.0.join(p)
    }
    pub fn write(&self, p: &str, data: impl AsRef<[u8]>) -> Res<()> {
        let path = self.0.join(p);
        if let Some(d) = path.parent() {
            std::fs::create_dir_all(d)?;
        }
        std::fs::write(path, data)?;
        Ok(())
    }
    /// report written by the tool; its absence is a violation
    pub fn report(&self, p: &str) -> Res<Vec<u8>> {
        std::fs::read(self.0.join(p))
            .map_err(|e| Fail::Violation(format!("report {p} was not written: {e}")))
    }
    pub fn report_str(&self, p: &str) -> Res<String> {
        String::from_utf8(self.report(p)?)
            .map_err(|e| Fail::Violation(format!("report {p} is not UTF-8: {e}")))
    }
    pub fn report_json<T: DeserializeOwned>(&self, p: &str) -> Res<T> {
        parse_json(&self.report(p)?, p)
    }
}

pub fn parse_json<T: DeserializeOwned>(data: &[u8], what: &str) -> Res<T> {
    serde_json::from_slice(data)
        .map_err(|e| Fail::Violation(format!("report {what} is not the expected JSON: {e}")))
}

#[derive(Debug, Clone)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Run {
    pub fn describe(&self) -> String {
        let e = String::from_utf8_lossy(&self.stderr);
        let e: String = e.chars().take(600).collect();
        match self.code {
            Some(c) => format!("exit status {c}, stderr: {e}"),
            None => format!("killed by signal {:?}, stderr: {e}", self.signal),
        }
    }
    /// status 0/1/2, anything else is a crash
    pub fn status(&self) -> Res<i32> {
        match self.code {
            Some(c @ 0..=2) => Ok(c),
            _ => Err(Fail::Violation(format!("the tool crashed: {}", self.describe()))),
        }
    }
    /// status 0/1 (jobs could be run)
    pub fn ran(&self) -> Res<i32> {
        match self.status()? {
            2 => Err(Fail::Violation(format!("fatal error: {}", self.describe()))),
            c => Ok(c),
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Opts {
    /// limit for the size of written files, in bytes
    pub fsize: Option<u64>,
    /// stdout goes to this file
    pub stdout: Option<PathBuf>,
    /// stdout is a pipe nobody reads
    pub broken_pipe: bool,
    pub log: Option<&'static str>,
    pub env: Vec<(&'static str, &'static str)>,
    /// only the given arguments, no log level
    pub raw: bool,
    /// stdin is an endless or large input
    pub stdin: Option<PathBuf>,
    /// home directory and the like are in here
    pub home: Option<PathBuf>,
    /// file that receives the names of all files the tool looks at
    pub looks: Option<PathBuf>,
}

/// records the files a process looks at; nothing where no C compiler is
fn shim(env: &Env) -> Option<&'static Path> {
    static SHIM: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    SHIM.get_or_init(|| {
        let (c, so) = (env.root.join("shim.c"), env.root.join("shim.so"));
        std::fs::create_dir_all(&env.root).ok()?;
        std::fs::write(&c, include_str!("shim.c")).ok()?;
        let run = |c: &mut Command| c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok_and(|s| s.success());
        let made = run(Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(&c).arg("-ldl"));
        (made && run(Command::new("true").env("LD_PRELOAD", &so))).then_some(so)
    })
    .as_deref()
}

const CPU_SECONDS: u64 = 20;

/// variables that programs commonly look at
const VARIABLES: &[&str] = &[
    "CI", "GITHUB_ACTIONS", "GITLAB_CI", "JENKINS_URL", "TEAMCITY_VERSION", "TRAVIS", "BUILD_NUMBER", "TERM", "COLORTERM", "NO_COLOR", "FORCE_COLOR",
    "CLICOLOR", "CLICOLOR_FORCE", "COLUMNS", "LINES", "LANG", "LANGUAGE", "LC_ALL", "LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_NUMERIC", "TZ",
    "SOURCE_DATE_EPOCH", "HOME", "USER", "LOGNAME", "HOSTNAME", "SHELL", "PWD", "OLDPWD", "EDITOR", "VISUAL", "PAGER", "DEBUG", "VERBOSE", "QUIET", "TRACE",
    "LOG", "LOG_LEVEL", "RUST_LOG", "RUST_LOG_STYLE", "RUST_BACKTRACE", "REQTRACE_LOG", "REQTRACE_CONFIG", "REQTRACE_BASE", "REQTRACE_JOBS", "REQTRACE_OPTS",
    "REQTRACE", "REQTRACE_DEBUG", "REQTRACE_STRICT", "REQTRACE_CACHE", "REQTRACE_FORMAT", "CARGO", "CARGO_MANIFEST_DIR", "MAKEFLAGS", "MAKELEVEL", "EMACS",
    "INSIDE_EMACS", "VIM", "VIMRUNTIME", "GIT_DIR", "DISPLAY", "SSH_CONNECTION", "POSIXLY_CORRECT", "TEST", "TESTING", "RUST_TEST_THREADS", "TMPDIR",
];
const VALUES: &[&str] = &["1", "true", "0", "", "/nonexistent", "always", "tr_TR.UTF-8", "2", "off", "80"];

/// the words of a binary that may be names of environment variables
fn words(bin: &Path) -> Vec<&'static str> {
    let b = std::fs::read(bin).unwrap_or_default();
    let n = |at: usize, len: usize| -> usize {
        b.get(at..at + len).map_or(0, |s| s.iter().rev().fold(0, |a, x| a << 8 | *x as usize))
    };
    let mut found = std::collections::BTreeSet::new();
    // section headers of a 64 bit ELF file
    let (off, size, num, names) = (n(40, 8), n(58, 2), n(60, 2), n(62, 2));
    let names = n(off + names * size + 24, 8);
    for k in 0..num {
        let h = off + k * size;
        let name = names + n(h, 4);
        if b.get(name..name + 8) != Some(b".rodata\0") {
            continue;
        }
        let at = n(h + 24, 8);
        let Some(data) = b.get(at..at + n(h + 32, 8)) else { continue };
        for w in data.split(|c| !(c.is_ascii_uppercase() || c.is_ascii_digit() || *c == b'_')) {
            let w = String::from_utf8_lossy(w);
            let w = w.trim_start_matches(|c: char| c.is_ascii_digit());
            let harmful = ["LD_", "MALLOC", "GLIBC", "RUST_MIN_STACK"].iter().any(|x| w.starts_with(x));
            if (2..40).contains(&w.len()) && !harmful {
                found.insert(w.to_owned());
            }
        }
    }
    found.into_iter().take(4000).map(|w| &*w.leak()).collect()
}

/// an environment that should not matter
pub fn noise(env: &Env, seed: u64) -> Vec<(&'static str, &'static str)> {
    static WORDS: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let words = WORDS.get_or_init(|| words(&env.bin));
    let mut x = seed | 1;
    let mut next = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x >> 8
    };
    let mut v = vec![];
    let value = VALUES[next() as usize % VALUES.len()];
    if seed % 8 == 0 {
        v.extend(words.iter().map(|w| (*w, value)));
    }
    for name in VARIABLES {
        if next() % 3 == 0 {
            v.push((*name, VALUES[next() as usize % VALUES.len()]));
        }
    }
    v
}

impl Env {
    pub fn new(root: PathBuf, bin: PathBuf) -> Self {
        Self { root, bin, next: AtomicU64::new(0), execs: AtomicU64::new(0) }
    }
    pub fn dir(&self) -> Res<Dir> {
        let n = self.next.fetch_add(1, Ordering::Relaxed);
        let d = self.root.join(format!("c{n}"));
        std::fs::create_dir_all(&d)?;
        Ok(Dir(d))
    }

    pub fn run(&self, cwd: &Path, args: &[&str]) -> Res<Run> {
        self.run_opts(cwd, args, &Opts::default())
    }

    pub fn run_opts(&self, cwd: &Path, args: &[&str], o: &Opts) -> Res<Run> {
        self.execs.fetch_add(1, Ordering::Relaxed);
        let mut c = Command::new(&self.bin);
        c.current_dir(cwd).env_clear().stdin(Stdio::null()).stderr(Stdio::piped());
        c.envs(o.env.iter().copied());
        if let Some(h) = &o.home {
            for v in ["HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR", "TMPDIR", "TMP", "TEMP"] {
                c.env(v, h);
            }
        }
        if let Some(log) = &o.looks {
            if let Some(so) = shim(self) {
                c.env("LD_PRELOAD", so).env("RT_SHIM_LOG", log);
            }
        }
        match &o.stdout {
            None if o.broken_pipe => {
                let mut fds = [0; 2];
                if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
                    return Err(std::io::Error::last_os_error().into());
                }
                use std::os::fd::FromRawFd;
                let (r, w) = unsafe { (std::os::fd::OwnedFd::from_raw_fd(fds[0]), std::os::fd::OwnedFd::from_raw_fd(fds[1])) };
                drop(r);
                // a child that another thread is about to start may still hold the other end
                let mut ends = libc::pollfd { fd: fds[1], events: libc::POLLOUT, revents: 0 };
                for k in 0.. {
                    unsafe { libc::poll(&mut ends, 1, 0) };
                    if ends.revents & libc::POLLERR != 0 {
                        break;
                    }
                    if k > 2000 {
                        return Err(Fail::Infra("somebody keeps the pipe open".into()));
                    }
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
                c.stdout(Stdio::from(w))
            }
            None => c.stdout(Stdio::piped()),
            Some(p) => c.stdout(std::fs::OpenOptions::new().write(true).create(true).open(p)?),
        };
        if let Some(p) = &o.stdin {
            c.stdin(std::fs::File::open(p)?);
        }
        if !o.raw {
            c.arg("-l").arg(o.log.unwrap_or("off"));
        }
        c.args(args);
        let fsize = o.fsize;
        unsafe {
            c.pre_exec(move || {
                let lim = |r, v: u64| {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                };
                lim(libc::RLIMIT_CORE, 0);
                let cpu = libc::rlimit { rlim_cur: CPU_SECONDS, rlim_max: CPU_SECONDS + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &cpu);
                lim(libc::RLIMIT_AS, 4 << 30);
                if let Some(f) = fsize {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    lim(libc::RLIMIT_FSIZE, f);
                }
                Ok(())
            });
        }
        let out = c.output().map_err(|e| Fail::Infra(format!("cannot run the tool: {e}")))?;
        let signal = out.status.signal();
        // what is generated takes a few milliseconds; the limit is the tool's own CPU time
        if signal == Some(libc::SIGXCPU) {
            return Err(Fail::Violation(format!("the tool did not end within {CPU_SECONDS} s of CPU time")));
        }
        if signal == Some(libc::SIGKILL) {
            return Err(Fail::Infra("the tool was killed".into()));
        }
        Ok(Run { code: out.status.code(), signal, stdout: out.stdout, stderr: out.stderr })
    }
}

fn hash64(s: &str) -> u64 {
    // FNV-1a with a final mix: stable over versions of std
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// A failing case is run so many times again
const AGAIN: usize = 10;

struct Shared {
    /// cases that failed once only
    once: std::sync::atomic::AtomicU32,
    stop: AtomicBool,
    infra: Mutex<Option<String>>,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

struct Failure {
    worker: u64,
    reason: String,
    case: serde_json::Value,
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub bin: PathBuf,
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub cases_override: Option<u32>,
}

const WORKERS: u64 = 8;

fn worker<P: Prop>(p: &P, ctx: &Ctx, w: u64, n: u32, sh: &Shared) -> (Stats, Option<Failure>, u64) {
    let env = Env::new(ctx.scratch.join(format!("w{w}")), ctx.bin.clone());
    let mut seed = [0u8; 32];
    for i in 0..4 {
        let x = hash64(&format!("{}/{}/{}/{}", ctx.seed, p.id(), w, i));
        seed[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
    }
    let cfg = Config {
        cases: n,
        failure_persistence: None,
        max_shrink_iters: 4000,
        max_global_rejects: 100_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let strat = p.strategy(ctx.tier);
    let stats = std::cell::RefCell::new(Stats::default());
    let failed = std::cell::Cell::new(false);
    let first_reason = std::cell::RefCell::new(String::new());
    let shrink_start = std::cell::Cell::new(None::<Instant>);
    let res = runner.run(&strat, |case| {
        if failed.get() {
            // shrinking; bounded in time, the result is then only less small
            if shrink_start.get().is_some_and(|t| t.elapsed().as_secs() > 60) {
                return Ok(());
            }
        } else if sh.stop.load(Ordering::Relaxed) {
            return Ok(());
        }
        match p.check(&case, &env) {
            Ok(info) => {
                if !failed.get() {
                    let mut s = stats.borrow_mut();
                    s.evaluations += 1;
                    for l in &info.labels {
                        *s.labels.entry(l).or_default() += 1;
                    }
                    if info.nontrivial {
                        let text = serde_json::to_string(&case).unwrap_or_default();
                        let h = hash64(&text);
                        if s.distinct.insert(h) {
                            s.samples.push(text);
                            if s.samples.len() > 8 {
                                s.samples.sort_by_key(|t| (t.len() as i64 - 700).abs());
                                s.samples.truncate(2);
                            }
                        }
                    }
                }
                Ok(())
            }
            Err(Fail::Violation(r)) => {
                if !failed.get() {
                    // what fails once in many runs is as likely the machine's fault, unless it happens again
                    if !(0..AGAIN).any(|_| matches!(p.check(&case, &env), Err(Fail::Violation(_)))) {
                        eprintln!("failed once, not again: {r}");
                        if sh.once.fetch_add(1, Ordering::Relaxed) < 2 {
                            stats.borrow_mut().evaluations += 1;
                            return Ok(());
                        }
                    }
                    first_reason.replace(r.clone());
                    failed.set(true);
                    shrink_start.set(Some(Instant::now()));
                    sh.stop.store(true, Ordering::Relaxed);
                    stats.borrow_mut().evaluations += 1;
                }
                Err(TestCaseError::fail(r))
            }
            Err(Fail::Infra(r)) => {
                if !failed.get() {
                    sh.infra.lock().unwrap().get_or_insert(r);
                    sh.stop.store(true, Ordering::Relaxed);
                }
                Ok(())
            }
        }
    });
    let failure = match res {
        Ok(()) => None,
        Err(TestError::Fail(_, v)) => {
            let reason = (0..AGAIN)
                .find_map(|_| match p.check(&v, &env) {
                    Err(Fail::Violation(r)) => Some(r),
                    _ => None,
                })
                .unwrap_or_else(|| format!("not in every run: {}", first_reason.take()));
            Some(Failure {
                worker: w,
                reason,
                case: serde_json::to_value(&v).unwrap_or(serde_json::Value::Null),
            })
        }
        Err(TestError::Abort(r)) => {
            sh.infra.lock().unwrap().get_or_insert(format!("generator gave up: {r}"));
            None
        }
    };
    let execs = env.execs.load(Ordering::Relaxed);
    (stats.into_inner(), failure, execs)
}

/// Runs a check. Returns the exit code.
pub fn run_check<P: Prop>(p: &P, ctx: &Ctx) -> i32 {
    let start = Instant::now();
    let total = ctx.cases_override.unwrap_or_else(|| p.cases(ctx.tier));
    let sh = Shared { once: 0.into(), stop: AtomicBool::new(false), infra: Mutex::new(None) };
    let env = Env::new(ctx.scratch.join("probe"), ctx.bin.clone());
    let mut known_lines = vec![];
    match known_findings(p, ctx, &env) {
        Ok(k) => known_lines = k,
        Err(Fail::Infra(r)) => {
            sh.infra.lock().unwrap().get_or_insert(r);
        }
        Err(Fail::Violation(r)) => {
            sh.infra.lock().unwrap().get_or_insert(r);
        }
    }

    let mut outs: Vec<(Stats, Option<Failure>, u64)> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..WORKERS)
            .map(|w| {
                let sh = &sh;
                let n = total / WORKERS as u32 + u32::from(w < u64::from(total) % WORKERS);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || worker(p, ctx, w, n, sh))
                    .expect("spawn")
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(o) => outs.push(o),
                Err(_) => {
                    sh.infra.lock().unwrap().get_or_insert("harness worker panicked".into());
                }
            }
        }
    });

    let mut evaluations = 0;
    let mut execs = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut failures = vec![];
    for (s, f, e) in outs {
        evaluations += s.evaluations;
        execs += e;
        distinct.extend(s.distinct);
        for (l, n) in s.labels {
            *labels.entry(l).or_default() += n;
        }
        samples.extend(s.samples);
        failures.extend(f);
    }
    samples.sort_by_key(|t| (t.len() as i64 - 700).abs());
    samples.truncate(3);
    let samples: Vec<serde_json::Value> = samples
        .iter()
        .map(|t| {
            if t.len() > 20_000 {
                serde_json::Value::String(t.chars().take(20_000).collect())
            } else {
                serde_json::from_str(t).unwrap_or(serde_json::Value::Null)
            }
        })
        .collect();
    failures.sort_by_key(|f| f.worker);

    let evidence = serde_json::json!({
        "property": p.id(),
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": p.level(),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule(),
            "samples": samples,
            "tool_executions": execs,
            "classes": labels,
            "exhaustive": false,
        },
        "assumptions": p.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": failures.len().min(1),
    });
    let ev = ctx.verif.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(
        ev.join(format!("{}.json", p.id())),
        serde_json::to_string_pretty(&evidence).unwrap(),
    ) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }

    println!(
        "{} cases={} nontrivial={} executions={} wall={:.1}s",
        p.id(),
        evaluations,
        distinct.len(),
        execs,
        start.elapsed().as_secs_f64()
    );
    for (l, n) in &labels {
        println!("  class {l}: {n}");
    }
    for k in known_lines {
        println!("KNOWN-FINDING: property={} {}", p.id(), k);
    }

    if let Some(f) = failures.first() {
        let dir = ctx.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let doc = serde_json::json!({"property": p.id(), "reason": f.reason, "case": f.case});
        let text = serde_json::to_string_pretty(&doc).unwrap();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        text.hash(&mut h);
        let path = dir.join(format!("{}-{:016x}.json", p.id(), h.finish()));
        let _ = std::fs::write(&path, &text);
        println!("reason: {}", f.reason);
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        return 1;
    }
    if let Some(r) = sh.infra.lock().unwrap().as_ref() {
        eprintln!("ERROR: {r}");
        return 3;
    }
    if evaluations < u64::from(total) || distinct.len() * 10 < evaluations as usize {
        eprintln!("ERROR: only {evaluations} of {total} cases, {} non-trivial", distinct.len());
        return 3;
    }
    0
}

/// Lines to print for the findings listed in known_findings.txt that still fail
fn known_findings<P: Prop>(p: &P, ctx: &Ctx, env: &Env) -> Res<Vec<String>> {
    let text = std::fs::read_to_string(ctx.verif.join("known_findings.txt")).unwrap_or_default();
    let mut lines = vec![];
    for (sig, failing) in p.known(env)? {
        let prefix = format!("known: property={} {sig}", p.id());
        let listed = text.lines().find(|l| l.starts_with(&prefix));
        if failing {
            match listed {
                Some(l) => lines.push(
                    l.trim_start_matches(&format!("known: property={} ", p.id())).to_owned(),
                ),
                None => return Err(Fail::Infra(format!("unlisted finding {sig}"))),
            }
        }
    }
    Ok(lines)
}

pub fn replay<P: Prop>(p: &P, ctx: &Ctx, doc: &serde_json::Value) -> i32 {
    let env = Env::new(ctx.scratch.join("replay"), ctx.bin.clone());
    let case: P::Case = match serde_json::from_value(doc["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("bad replay file: {e}");
            return 3;
        }
    };
    match p.check(&case, &env) {
        Ok(_) => {
            println!("{}: the case passes", p.id());
            0
        }
        Err(Fail::Violation(r)) => {
            println!("{}: {r}", p.id());
            1
        }
        Err(Fail::Infra(r)) => {
            eprintln!("ERROR: {r}");
            3
        }
    }
}
