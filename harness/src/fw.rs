//! Check framework: suites of generated cases, sharded over worker processes,
//! shrunk by proptest, confirmed, written as replay files, summed into evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Why a case failed. `Hard` failures are wrong under any timing; `Soft`
/// ones (something did not happen in time) only count when they repeat.
#[derive(Debug, Clone)]
pub enum Fail {
    Hard(String),
    Soft(String),
    /// The case could not be carried out (environment); counted, never a violation.
    Skip(String),
}

impl Fail {
    pub fn msg(&self) -> &str {
        match self {
            Fail::Hard(m) | Fail::Soft(m) | Fail::Skip(m) => m,
        }
    }
}

pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! hard {
    ($($a:tt)*) => { return Err($crate::fw::Fail::Hard(format!($($a)*))) };
}
#[macro_export]
macro_rules! soft {
    ($($a:tt)*) => { return Err($crate::fw::Fail::Soft(format!($($a)*))) };
}
#[macro_export]
macro_rules! skip {
    ($($a:tt)*) => { return Err($crate::fw::Fail::Skip(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::fw::Fail::Hard(format!($($a)*))) } };
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub shard: usize,
    #[allow(dead_code)]
    pub nshards: usize,
    /// Private scratch directory of this worker, removed at the end.
    pub scratch: PathBuf,
}

impl Ctx {
    /// A loopback address of this worker's own, so workers never race for ports.
    pub fn ip(&self) -> String {
        let p = std::process::id();
        format!("127.{}.{}.{}", 1 + (self.shard % 200), (p >> 7) & 0xff, 1 + (p & 0x7f))
    }
}

/// What one case tells about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<String>,
    pub sub: u64,
}
impl Obs {
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
    pub fn class_if(&mut self, c: bool, s: &str) {
        if c {
            self.classes.push(s.to_string());
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

#[derive(Default, Serialize, Deserialize, Debug)]
pub struct Violation {
    pub message: String,
    pub case: serde_json::Value,
    pub minimised: bool,
}

#[derive(Default, Serialize, Deserialize, Debug)]
pub struct ShardReport {
    pub evaluations: u64,
    pub sub: u64,
    pub nontrivial: Vec<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub skipped: BTreeMap<String, u64>,
    pub unconfirmed: Vec<String>,
    pub violation: Option<Violation>,
    pub error: Option<String>,
    /// A case that did not end in time; to be run again alone.
    pub hang: Option<serde_json::Value>,
    /// The violation is still being shrunk.
    #[serde(default)]
    pub preliminary: bool,
}

pub struct Suite {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub shards: usize,
    pub worker: Box<dyn Fn(&Ctx, u32, bool) -> ShardReport>,
    pub replay: Box<dyn Fn(&Ctx, &serde_json::Value) -> R>,
}

pub struct Opts {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub shards: usize,
    pub shrink: u32,
    /// In-process and single-threaded: using very much CPU time on one case is a violation.
    pub pure: bool,
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn seed_bytes(a: u64, s: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        let v = hash_of(&(a, s, shard, i as u64));
        out[i * 8..i * 8 + 8].copy_from_slice(&v.to_le_bytes());
    }
    out
}

pub static PANICS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

pub fn panics() -> u64 {
    PANICS.load(Ordering::SeqCst)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        let s = info.to_string();
        if std::env::var("VH_SHOW_PANICS").is_ok() {
            eprintln!("{}", s);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

/// Runs `f`, turning a panic into an Err with its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(last_panic()),
    }
}

fn run_case<C>(run: &dyn Fn(&Ctx, &C, &mut Obs) -> R, ctx: &Ctx, c: &C, o: &mut Obs) -> R {
    match catch_unwind(AssertUnwindSafe(|| run(ctx, c, o))) {
        Ok(r) => r,
        Err(_) => Err(Fail::Hard(format!("panic: {}", last_panic()))),
    }
}

/// A soft failure has to repeat to count.
fn confirmed<C>(run: &dyn Fn(&Ctx, &C, &mut Obs) -> R, ctx: &Ctx, c: &C, o: &mut Obs, unc: &mut Vec<String>) -> R {
    match run_case(run, ctx, c, o) {
        Err(Fail::Soft(m)) => {
            let mut again = 0;
            for _ in 0..2 {
                let mut o2 = Obs::default();
                match run_case(run, ctx, c, &mut o2) {
                    Err(Fail::Hard(m)) => return Err(Fail::Hard(m)),
                    Err(Fail::Soft(_)) => again += 1,
                    _ => (),
                }
            }
            if again == 2 {
                Err(Fail::Hard(m))
            } else {
                unc.push(m);
                Ok(())
            }
        }
        r => r,
    }
}

struct Watch {
    case: Mutex<Option<(Instant, String, Duration)>>,
    tid_clock: Mutex<Option<libc::clockid_t>>,
}

fn cpu_of(clock: libc::clockid_t) -> Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

/// How long the other workers may go on once one has a minimal failing case.
const SETTLED_GRACE: Duration = Duration::from_secs(40);
pub const CASE_CPU_LIMIT: Duration = Duration::from_secs(20);
pub const CASE_WALL_LIMIT: Duration = Duration::from_secs(200);

static RESULT_FILE: Mutex<Option<PathBuf>> = Mutex::new(None);

fn read_report(file: &Path) -> Option<ShardReport> {
    std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok())
}

fn write_report(rep: &ShardReport) {
    if let Some(p) = RESULT_FILE.lock().unwrap().clone() {
        let tmp = p.with_extension("tmp");
        std::fs::write(&tmp, serde_json::to_vec(rep).unwrap()).unwrap();
        std::fs::rename(&tmp, &p).unwrap();
    }
}

pub fn suite<C, S, F>(o: Opts, strat: S, run: F) -> Suite
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Fn(&Ctx) -> BoxedStrategy<C> + 'static,
    F: Fn(&Ctx, &C, &mut Obs) -> R + 'static,
{
    let run: std::rc::Rc<dyn Fn(&Ctx, &C, &mut Obs) -> R> = std::rc::Rc::new(run);
    let run2 = run.clone();
    let (name, shrink, pure) = (o.name, o.shrink, o.pure);
    let worker = move |ctx: &Ctx, cases: u32, trace: bool| -> ShardReport {
        let rep = RefCell::new(ShardReport::default());
        let seen: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        let failed = AtomicBool::new(false);
        let watch = Arc::new(Watch { case: Mutex::new(None), tid_clock: Mutex::new(None) });
        unsafe {
            let mut c: libc::clockid_t = 0;
            libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
            *watch.tid_clock.lock().unwrap() = Some(c);
        }
        {
            let watch = watch.clone();
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                let w = watch.case.lock().unwrap();
                if let Some((t0, case, cpu0)) = &*w {
                    let cpu = cpu_of(watch.tid_clock.lock().unwrap().unwrap());
                    let used = cpu.saturating_sub(*cpu0);
                    if pure && used > CASE_CPU_LIMIT {
                        let mut r = ShardReport::default();
                        r.evaluations = 1;
                        r.violation = Some(Violation {
                            message: format!("spins: more than {:?} of CPU time used on one case", CASE_CPU_LIMIT),
                            case: serde_json::from_str(case).unwrap_or_default(),
                            minimised: false,
                        });
                        write_report(&r);
                        std::process::exit(0);
                    }
                    if t0.elapsed() > CASE_WALL_LIMIT {
                        let file = RESULT_FILE.lock().unwrap().clone();
                        if file.and_then(|f| read_report(&f)).is_some_and(|r| r.violation.is_some()) {
                            // While shrinking: there is a violation to report already.
                            std::process::exit(0);
                        }
                        let mut r = ShardReport::default();
                        r.evaluations = 1;
                        r.hang = serde_json::from_str(case).ok();
                        write_report(&r);
                        std::process::exit(0);
                    }
                }
            });
        }
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: shrink,
            max_shrink_time: if ctx.tier == Tier::Quick { 90_000 } else { 600_000 },
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx.seed, name, ctx.shard));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = strat(ctx);
        let res = runner.run(&strategy, |case: C| {
            let js = serde_json::to_string(&case).unwrap();
            if trace {
                let _ = std::fs::write(ctx.scratch.join("current-case.json"), &js);
            }
            *watch.case.lock().unwrap() =
                Some((Instant::now(), js.clone(), cpu_of(watch.tid_clock.lock().unwrap().unwrap())));
            let mut obs = Obs::default();
            let mut unc = Vec::new();
            let r = confirmed(&*run, ctx, &case, &mut obs, &mut unc);
            *watch.case.lock().unwrap() = None;
            let mut rep = rep.borrow_mut();
            if !failed.load(Ordering::Relaxed) {
                rep.evaluations += 1;
                rep.sub += obs.sub;
                for c in obs.classes {
                    *rep.classes.entry(c).or_default() += 1;
                }
                rep.unconfirmed.extend(unc);
                if obs.nontrivial && seen.borrow_mut().insert(hash_of(&js)) && rep.samples.len() < 3 && js.len() < 1500 {
                    rep.samples.push(serde_json::from_str(&js).unwrap());
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(Fail::Skip(m)) => {
                    *rep.skipped.entry(m).or_default() += 1;
                    Ok(())
                }
                Err(f) => {
                    if !failed.swap(true, Ordering::Relaxed) {
                        // For the case that there is no time left to shrink it.
                        write_report(&ShardReport {
                            evaluations: rep.evaluations,
                            preliminary: true,
                            violation: Some(Violation {
                                message: f.msg().to_string(),
                                case: serde_json::from_str(&js).unwrap(),
                                minimised: false,
                            }),
                            ..ShardReport::default()
                        });
                    }
                    Err(TestCaseError::fail(f.msg().to_string()))
                }
            }
        });
        let mut rep = rep.into_inner();
        rep.nontrivial = seen.into_inner().into_iter().collect();
        match res {
            Ok(()) => (),
            Err(TestError::Fail(why, case)) => {
                rep.violation = Some(Violation {
                    message: why.message().to_string(),
                    case: serde_json::to_value(&case).unwrap(),
                    minimised: true,
                })
            }
            Err(TestError::Abort(why)) => rep.error = Some(format!("generator aborted: {}", why)),
        }
        rep
    };
    let replay = move |ctx: &Ctx, v: &serde_json::Value| -> R {
        let case: C = serde_json::from_value(v.clone()).map_err(|e| Fail::Skip(format!("unreadable replay: {}", e)))?;
        let mut obs = Obs::default();
        let mut unc = Vec::new();
        confirmed(&*run2, ctx, &case, &mut obs, &mut unc)
    };
    Suite {
        name: o.name,
        rule: o.rule,
        quick: o.quick,
        thorough: o.thorough,
        shards: o.shards,
        worker: Box::new(worker),
        replay: Box::new(replay),
    }
}

pub struct Property {
    pub id: &'static str,
    pub suites: Vec<Suite>,
    pub assumptions: &'static [&'static str],
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn scale() -> f64 {
    std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

pub fn mk_ctx(seed: u64, tier: Tier, shard: usize, nshards: usize) -> Ctx {
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), shard));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    Ctx { seed, tier, shard, nshards, scratch }
}

struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct N;
        impl std::fmt::Write for N {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut N, *r.args());
    }
    fn flush(&self) {}
}

pub fn worker_main(p: &Property, suite: &str, shard: usize, nshards: usize, out: &str, trace: bool) -> i32 {
    install_panic_hook();
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    // In half of the workers every log line is formatted (and thrown away).
    if shard % 2 == 1 && p.id != "C22" {
        let _ = log::set_boxed_logger(Box::new(NullLog));
        log::set_max_level(log::LevelFilter::Trace);
    }
    *RESULT_FILE.lock().unwrap() = Some(PathBuf::from(out));
    let s = p.suites.iter().find(|s| s.name == suite).expect("suite");
    let ctx = mk_ctx(env_seed(), env_tier(), shard, nshards);
    let total = match ctx.tier {
        Tier::Quick => s.quick,
        Tier::Thorough => s.thorough,
    };
    let total = ((total as f64) * scale()).ceil() as u32;
    let per = total.div_ceil(nshards as u32).max(1);
    let rep = (s.worker)(&ctx, per, trace);
    write_report(&rep);
    let _ = std::fs::remove_dir_all(&ctx.scratch);
    // Do not wait for leftover server threads.
    std::process::exit(0)
}

pub fn replay_main(props: &dyn Fn(&str) -> Option<Property>, file: &str) -> i32 {
    install_panic_hook();
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read replay")).expect("json");
    let id = v["property"].as_str().unwrap().to_string();
    let p = props(&id).expect("property");
    let s = p.suites.iter().find(|s| s.name == v["suite"].as_str().unwrap()).expect("suite");
    let ctx = mk_ctx(v["seed"].as_u64().unwrap_or(1), Tier::Quick, 0, 1);
    let r = (s.replay)(&ctx, &v["case"]);
    let _ = std::fs::remove_dir_all(&ctx.scratch);
    match r {
        Ok(()) => {
            println!("replay: the property held");
            0
        }
        Err(Fail::Skip(m)) => {
            println!("replay: not carried out: {}", m);
            2
        }
        Err(f) => {
            println!("replay: {}", f.msg());
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
    }
}

fn spawn_worker(exe: &Path, id: &str, suite: &str, shard: usize, nshards: usize, out: &Path, trace: bool) -> Child {
    let mut c = Command::new(exe);
    c.args(["worker", id, suite, &shard.to_string(), &nshards.to_string()]).arg(out);
    if trace {
        c.arg("trace");
    }
    c.stdin(Stdio::null());
    if std::env::var("VH_SHOW_PANICS").is_err() {
        c.stderr(Stdio::null()).stdout(Stdio::null());
    }
    c.spawn().expect("spawn worker")
}

pub fn run_main(p: Property) -> i32 {
    let t0 = Instant::now();
    let seed = env_seed();
    let tier = env_tier();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let only = std::env::var("VH_SUITE").ok();
    let exe = std::env::current_exe().unwrap();
    let budget = match tier {
        Tier::Quick => Duration::from_secs(std::env::var("VH_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(780)),
        Tier::Thorough => Duration::from_secs(6 * 3600),
    };
    let tmp = std::env::temp_dir().join(format!("vh-run-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&tmp);
    std::fs::create_dir_all(&tmp).unwrap();
    let mut evaluations = 0u64;
    let mut sub = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = Vec::new();
    let mut suites_js = serde_json::Map::new();
    let mut violations: Vec<(String, Violation, usize)> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut rules = Vec::new();
    for s in &p.suites {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let ts = Instant::now();
        let mut procs: Vec<(usize, Child, PathBuf)> = Vec::new();
        for shard in 0..s.shards {
            let out = tmp.join(format!("{}-{}.json", s.name, shard));
            procs.push((shard, spawn_worker(&exe, p.id, s.name, shard, s.shards, &out, false), out));
        }
        let mut ev = 0;
        let mut ssub = 0;
        let mut sdist = HashSet::new();
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        let mut skipped: BTreeMap<String, u64> = BTreeMap::new();
        let mut unconfirmed = Vec::new();
        let mut settled: Option<Instant> = None;
        let mut ended: Vec<Option<Option<std::process::ExitStatus>>> = procs.iter().map(|_| None).collect();
        while ended.iter().any(|e| e.is_none()) {
            // Once there is a minimal case, the others need not look for theirs.
            let stop = t0.elapsed() > budget || settled.is_some_and(|t: Instant| t.elapsed() > SETTLED_GRACE);
            for ((_, ch, out), e) in procs.iter_mut().zip(&mut ended).filter(|(_, e)| e.is_none()) {
                if let Some(st) = ch.try_wait().unwrap() {
                    *e = Some(Some(st));
                    if settled.is_none() && read_report(out).is_some_and(|r| r.violation.is_some() && !r.preliminary) {
                        settled = Some(Instant::now());
                    }
                } else if stop {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    *e = Some(None);
                }
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        for ((shard, ch, out), status) in procs.into_iter().zip(ended) {
            let status = status.flatten();
            let pid = ch.id();
            let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vh-{}-{}", pid, shard)));
            let rep = read_report(&out);
            if status.is_none() && rep.is_none() {
                if settled.is_none() {
                    errors.push(format!("{} shard {}: time budget used up", s.name, shard));
                }
                continue;
            }
            // A worker that died while shrinking.
            let rep = match (rep, status) {
                (Some(r), Some(st)) if r.preliminary && !st.success() => match crashed_case(&exe, &p, s, shard, &tmp) {
                    Ok((case, how)) => Some(ShardReport {
                        evaluations: r.evaluations,
                        violation: Some(Violation { message: format!("the process was ended: {}", how), case, minimised: false }),
                        ..ShardReport::default()
                    }),
                    Err(_) => Some(r),
                },
                (r, _) => r,
            };
            match rep {
                Some(mut r) => {
                    ev += r.evaluations;
                    ssub += r.sub;
                    for h in &r.nontrivial {
                        sdist.insert(*h);
                    }
                    for (k, v) in r.classes {
                        *classes.entry(k).or_default() += v;
                    }
                    for (k, v) in r.skipped {
                        *skipped.entry(k).or_default() += v;
                    }
                    unconfirmed.append(&mut r.unconfirmed);
                    if samples.len() < 12 && shard == 0 {
                        for c in r.samples.drain(..).take(2) {
                            samples.push(serde_json::json!({"suite": s.name, "case": c}));
                        }
                    }
                    if let Some(v) = r.violation {
                        violations.push((s.name.to_string(), v, shard));
                    }
                    if let Some(case) = r.hang {
                        if settled.is_none() && hangs_again(&exe, &p, s, &case, &tmp, budget.saturating_sub(t0.elapsed())) {
                            let message = "the case does not end".to_string();
                            violations.push((s.name.to_string(), Violation { message, case, minimised: false }, shard));
                            settled.get_or_insert(Instant::now());
                        } else {
                            unconfirmed.push("a case did not end in time".to_string());
                        }
                    }
                    if let Some(e) = r.error {
                        errors.push(format!("{} shard {}: {}", s.name, shard, e));
                    }
                }
                None => match crashed_case(&exe, &p, s, shard, &tmp) {
                    Ok((case, how)) => violations.push((
                        s.name.to_string(),
                        Violation { message: format!("the process was ended: {}", how), case, minimised: false },
                        shard,
                    )),
                    Err(e) => errors.push(format!("{} shard {}: worker ended {:?}; {}", s.name, shard, status, e)),
                },
            }
        }
        evaluations += ev;
        sub += ssub;
        let nd = sdist.len();
        for h in sdist {
            distinct.insert(hash_of(&(s.name, h)));
        }
        rules.push(format!("{}: {}", s.name, s.rule));
        suites_js.insert(
            s.name.to_string(),
            serde_json::json!({
                "evaluations": ev, "checks_inside_cases": ssub, "distinct_nontrivial": nd, "classes": classes,
                "skipped": skipped, "unconfirmed_timing_failures": unconfirmed, "shards": s.shards,
                "wall_s": ts.elapsed().as_secs_f64(),
            }),
        );
        if !violations.is_empty() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    // Known findings: run the listed inputs, print them.
    for line in crate::known::check(p.id) {
        println!("{}", line);
    }
    let mut code = 0;
    let n_viol = violations.len();
    if let Some((suite, v, shard)) = violations.into_iter().min_by_key(|v| v.1.case.to_string().len()) {
        let dir = PathBuf::from(&verif).join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let js = serde_json::json!({
            "property": p.id, "suite": suite, "seed": seed, "shard": shard, "message": v.message,
            "minimised": v.minimised, "case": v.case,
        });
        let file = dir.join(format!("{}-{}-{:016x}.json", p.id, suite.replace(' ', "-"), hash_of(&v.case.to_string())));
        let mut f = std::fs::File::create(&file).unwrap();
        f.write_all(serde_json::to_string_pretty(&js).unwrap().as_bytes()).unwrap();
        println!("{} [{}]: {}", p.id, suite, clip(&v.message, 1500));
        println!("minimal case: {}", clip(&v.case.to_string(), 1500));
        println!("VIOLATION property={} replay={}", p.id, file.display());
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}", clip(e, 800));
        }
        code = 2;
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "checks_inside_cases": sub,
            "rule": rules.join(" | "),
            "samples": samples,
            "suites": suites_js,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": n_viol,
        "errors": errors,
    });
    let dir = PathBuf::from(&verif).join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1}s, exit {}",
        p.id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        evaluations,
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        code
    );
    code
}

/// Runs a case that did not end in time again, alone.
fn hangs_again(exe: &Path, p: &Property, s: &Suite, case: &serde_json::Value, tmp: &Path, left: Duration) -> bool {
    let f = tmp.join("hang.json");
    let js = serde_json::json!({"property": p.id, "suite": s.name, "seed": env_seed(), "case": case});
    if std::fs::write(&f, js.to_string()).is_err() {
        return false;
    }
    let t0 = Instant::now();
    let limit = left.min(CASE_WALL_LIMIT);
    let mut ch = match Command::new(exe).arg("replay").arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        Ok(ch) => ch,
        Err(_) => return false,
    };
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => return st.code() == Some(1),
            Ok(None) if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                return limit >= Duration::from_secs(60);
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

/// A worker process died: find the case by running the shard again while
/// writing each case down first, then confirm with that case alone.
fn crashed_case(exe: &Path, p: &Property, s: &Suite, shard: usize, tmp: &Path) -> Result<(serde_json::Value, String), String> {
    use std::os::unix::process::ExitStatusExt;
    let out = tmp.join("trace.json");
    let _ = std::fs::remove_file(&out);
    let mut ch = spawn_worker(exe, p.id, s.name, shard, s.shards, &out, true);
    let pid = ch.id();
    let st = ch.wait().map_err(|e| e.to_string())?;
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", pid, shard));
    let case = std::fs::read_to_string(scratch.join("current-case.json"));
    let _ = std::fs::remove_dir_all(&scratch);
    if st.signal().is_none() || st.signal() == Some(libc::SIGKILL) {
        return Err(format!("not reproduced by the second run ({:?})", st));
    }
    let case: serde_json::Value =
        serde_json::from_str(&case.map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let f = tmp.join("crash.json");
    std::fs::write(&f, serde_json::json!({"property": p.id, "suite": s.name, "seed": env_seed(), "case": case}).to_string())
        .map_err(|e| e.to_string())?;
    let st = Command::new(exe).arg("replay").arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).status().map_err(|e| e.to_string())?;
    match st.signal() {
        Some(sig) if sig != libc::SIGKILL => Ok((case, format!("signal {}", sig))),
        _ => Err(format!("the last case alone does not end the process ({:?})", st)),
    }
}
