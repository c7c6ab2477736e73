//! Running one property: case generation with proptest in several child processes, a panic
//! recorder, a hang detector that judges work and blocked threads instead of wall-clock time,
//! shrinking, replay files and evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type R = Result<(), String>;

/// Handed to each case.
pub struct Ctx {
    /// scratch directory of this case, empty at the start and removed at the end
    pub dir: PathBuf,
    pub tier: Tier,
    labels: BTreeMap<String, u64>,
    nontrivial: bool,
    findings: Vec<(String, String)>,
}

impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        *self.labels.entry(s.into()).or_insert(0) += 1;
    }
    pub fn count(&mut self, s: impl Into<String>, n: u64) {
        *self.labels.entry(s.into()).or_insert(0) += n;
    }
    /// A label that is counted when the condition holds.
    pub fn when(&mut self, c: bool, s: &str) {
        if c {
            self.label(s);
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
    /// Report something that is on the committed list of known findings; anything not on the list is a failure.
    #[allow(dead_code)]
    pub fn finding(&mut self, prop: &str, id: &str, text: String) -> R {
        if known_findings().iter().any(|k| k.property == prop && k.id == id && k.status == "known") {
            self.findings.push((id.to_string(), text));
            Ok(())
        } else {
            Err(text)
        }
    }
}

pub trait Prop {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const LEVEL: &'static str = "exploration";
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// processes that share the cases; few where osm-io's own threads spin
    const SHARDS: u32 = 8;
    fn cases(tier: Tier) -> u32;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(case: &Self::Case, ctx: &mut Ctx) -> R;
    /// cases that are always run first (by shard 0)
    fn fixed(_tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
}

#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub status: String,
    pub property: String,
    #[serde(default)]
    pub id: String,
    #[serde(default)]
    pub text: String,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn known_findings() -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    match std::fs::read_to_string(p) {
        Ok(s) => serde_json::from_str(&s).expect("known_findings.json"),
        Err(_) => vec![],
    }
}

// ---------------------------------------------------------------- panics

static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_recorder() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let name = std::thread::current().name().unwrap_or("?").to_string();
        let mut g = match PANICS.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        if g.len() < 200 {
            g.push(format!("[{name}] {msg} ({loc})"));
        }
    }));
}

/// Panics of any thread since the case began.
pub fn panics() -> Vec<String> {
    match PANICS.lock() {
        Ok(g) => g.clone(),
        Err(e) => e.into_inner().clone(),
    }
}

fn clear_panics() {
    match PANICS.lock() {
        Ok(mut g) => g.clear(),
        Err(e) => e.into_inner().clear(),
    }
}

/// Run f, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

// ---------------------------------------------------------------- one case

pub enum Outcome {
    Done { res: R, labels: BTreeMap<String, u64>, nontrivial: bool, findings: Vec<(String, String)> },
    /// the case never returned: judged by blocked threads or by CPU work
    Stuck(String),
}

const CPU_LIMIT_S: f64 = 120.0;

fn cpu_seconds() -> f64 {
    unsafe {
        let mut ru: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut ru);
        (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) as f64 + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) as f64 / 1e6
    }
}

/// Signature of the other threads: None if one of them is runnable or in I/O; otherwise
/// their ids with consumed CPU ticks.
fn blocked_signature() -> Option<Vec<(u32, u64)>> {
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as u32;
    let mut out = vec![];
    for e in std::fs::read_dir("/proc/self/task").ok()? {
        let e = e.ok()?;
        let tid: u32 = e.file_name().to_str()?.parse().ok()?;
        if tid == me {
            continue;
        }
        let s = std::fs::read_to_string(e.path().join("stat")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f[0] != "S" {
            return None;
        }
        out.push((tid, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?));
    }
    out.sort();
    Some(out)
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);

pub fn run_case<P: Prop>(case: &P::Case, scratch: &Path, tier: Tier) -> Outcome
where
    P: 'static,
{
    let n = CASE_NO.fetch_add(1, Ordering::Relaxed);
    let dir = scratch.join(format!("c{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    clear_panics();
    let (tx, rx) = mpsc::channel();
    let c = case.clone();
    let d2 = dir.clone();
    let h = std::thread::Builder::new()
        .name("case".into())
        .stack_size(8 << 20)
        .spawn(move || {
            let mut ctx = Ctx { dir: d2, tier, labels: Default::default(), nontrivial: false, findings: vec![] };
            let r = catch(|| P::run(&c, &mut ctx));
            let res = match r {
                Ok(r) => r,
                Err(p) => {
                    let at = panics().into_iter().filter(|x| x.starts_with("[case]")).last().unwrap_or_default();
                    Err(format!("panicked: {p} {at}"))
                }
            };
            let _ = tx.send((res, ctx.labels, ctx.nontrivial, ctx.findings));
        })
        .expect("spawn");
    let t0 = Instant::now();
    let cpu0 = cpu_seconds();
    let mut sig: Option<Vec<(u32, u64)>> = None;
    let mut same = 0;
    let out = loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((res, labels, nontrivial, findings)) => {
                let _ = h.join();
                break Outcome::Done { res, labels, nontrivial, findings };
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                break Outcome::Stuck("case thread vanished".into());
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
        }
        if t0.elapsed() > Duration::from_secs(8) {
            let s = blocked_signature();
            if s.is_some() && s == sig {
                same += 1;
            } else {
                same = 0;
                sig = s;
            }
            if same >= 75 {
                break Outcome::Stuck(format!(
                    "the call never returns: every thread of the process is blocked and has made no progress; panics so far: {:?}",
                    panics()
                ));
            }
            if cpu_seconds() - cpu0 > CPU_LIMIT_S {
                break Outcome::Stuck(format!("the call used more than {CPU_LIMIT_S} s of CPU on this small input without returning; panics so far: {:?}", panics()));
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    out
}

// ---------------------------------------------------------------- shard

#[derive(Serialize, Deserialize, Default)]
pub struct ShardResult {
    pub evaluations: u64,
    pub nontrivial: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<Failure>,
    pub findings: Vec<(String, String)>,
    pub error: Option<String>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub reason: String,
    pub case: serde_json::Value,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub reason: String,
    pub seed: u64,
    pub case: serde_json::Value,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn seed_bytes(seed: u64, id: &str, tier: Tier, shard: u32) -> [u8; 32] {
    let base = crate::gen::mix(seed ^ crate::gen::mix(fnv(format!("{id}/{tier:?}/{shard}").as_bytes())));
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&crate::gen::mix(base.wrapping_add(i as u64)).to_le_bytes());
    }
    out
}

pub fn shard<P: Prop + 'static>(tier: Tier, seed: u64, shard: u32, nshards: u32, out: &Path, scratch: &Path) {
    install_panic_recorder();
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| P::cases(tier));
    let n = total / nshards + u32::from(shard < total % nshards);
    let mut res = ShardResult::default();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let cur = out.with_extension("current");
    let finish = |res: &ShardResult| {
        std::fs::write(out, serde_json::to_vec(res).unwrap()).expect("write shard result");
        let _ = std::fs::remove_file(&cur);
    };

    // on a slow machine the search stops early instead of giving no answer
    let t0 = Instant::now();
    let budget = Duration::from_secs(
        std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 420 } else { 5 * 3600 }),
    );
    let st = std::cell::RefCell::new((&mut res, &mut nontrivial, false));
    let one = |case: &P::Case| -> R {
        if t0.elapsed() > budget && !st.borrow().2 {
            *st.borrow_mut().0.labels.entry("not run: time budget used up".into()).or_insert(0) += 1;
            return Ok(());
        }
        let js = serde_json::to_vec(case).unwrap();
        std::fs::write(&cur, &js).expect("write current case");
        let o = run_case::<P>(case, scratch, tier);
        let mut g = st.borrow_mut();
        match o {
            Outcome::Stuck(m) => {
                g.0.evaluations += 1;
                g.0.failure = Some(Failure { reason: m, case: serde_json::from_slice(&js).unwrap() });
                finish(g.0);
                std::process::exit(0);
            }
            Outcome::Done { res, labels, nontrivial, findings } => {
                if !g.2 {
                    g.0.evaluations += 1;
                    for (k, v) in labels {
                        *g.0.labels.entry(k).or_insert(0) += v;
                    }
                    if nontrivial {
                        let h = fnv(&js);
                        if g.1.insert(h) {
                            let k = g.0.samples.len();
                            if k < 2 {
                                g.0.samples.push(sample_of(&js));
                            }
                        }
                    }
                    for f in findings {
                        if g.0.findings.len() < 50 {
                            g.0.findings.push(f);
                        }
                    }
                }
                if res.is_err() {
                    g.2 = true;
                }
                res
            }
        }
    };

    let mut failure = None;
    if shard == 0 {
        let mut fixed: Vec<P::Case> = P::fixed(tier);
        let dir = verif_dir().join("corpus").join(P::ID);
        if let Ok(rd) = std::fs::read_dir(&dir) {
            let mut files: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files {
                let r: Replay = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap_or_else(|e| panic!("{f:?}: {e}"));
                fixed.push(serde_json::from_value(r.case).unwrap_or_else(|e| panic!("{f:?}: {e}")));
            }
        }
        for c in fixed {
            if let Err(reason) = one(&c) {
                failure = Some(Failure { reason, case: serde_json::to_value(&c).unwrap() });
                break;
            }
        }
    }
    if failure.is_none() {
        let cfg = Config {
            cases: n,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: if tier == Tier::Quick { 45_000 } else { 120_000 },
            max_global_rejects: 1_000_000,
            max_local_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, P::ID, tier, shard));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let r = runner.run(&P::strategy(tier), |case| one(&case).map_err(TestCaseError::fail));
        match r {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                failure = Some(Failure { reason: reason.message().to_string(), case: serde_json::to_value(&case).unwrap() });
            }
            Err(TestError::Abort(reason)) => {
                st.borrow_mut().0.error = Some(format!("proptest aborted: {reason}"));
            }
        }
    }
    drop(st);
    res.failure = failure;
    res.nontrivial = nontrivial.into_iter().collect();
    finish(&res);
}

fn sample_of(js: &[u8]) -> serde_json::Value {
    if js.len() <= 3000 {
        serde_json::from_slice(js).unwrap()
    } else {
        let mut end = 2800;
        let s = String::from_utf8_lossy(js);
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes of JSON)", &s[..end], js.len()))
    }
}

// ---------------------------------------------------------------- one case from a file

/// exit code 0 passes, 1 fails (reason on stdout)
pub fn one<P: Prop + 'static>(file: &Path, scratch: &Path, repeat: u32) -> i32 {
    install_panic_recorder();
    let b = std::fs::read(file).expect("read replay file");
    let case: P::Case = match serde_json::from_slice::<Replay>(&b) {
        Ok(r) => serde_json::from_value(r.case).expect("case"),
        Err(_) => serde_json::from_slice(&b).expect("case"),
    };
    for _ in 0..repeat {
        match run_case::<P>(&case, scratch, Tier::Quick) {
            Outcome::Stuck(m) => {
                println!("{m}");
                return 1;
            }
            Outcome::Done { res: Err(m), .. } => {
                println!("{m}");
                return 1;
            }
            Outcome::Done { labels, nontrivial, .. } => {
                println!("ok nontrivial={nontrivial} labels={labels:?}");
            }
        }
    }
    0
}

// ---------------------------------------------------------------- supervisor

pub struct Entry {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub shards: u32,
    pub shard: fn(Tier, u64, u32, u32, &Path, &Path),
    pub one: fn(&Path, &Path, u32) -> i32,
}

pub fn entry<P: Prop + 'static>() -> Entry {
    Entry { id: P::ID, rule: P::RULE, level: P::LEVEL, assumptions: P::ASSUMPTIONS, shards: P::SHARDS, shard: shard::<P>, one: one::<P> }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// /dev/shm when it has room (creating many small files is several times faster there), else /tmp
fn scratch_base() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    unsafe {
        let mut v: libc::statvfs = std::mem::zeroed();
        let room = libc::statvfs(b"/dev/shm\0".as_ptr() as *const libc::c_char, &mut v) == 0
            && v.f_bavail as u64 * v.f_frsize as u64 > 1 << 30;
        let probe = shm.join(format!("osm-io-verif-probe.{}", std::process::id()));
        if room && std::fs::write(&probe, b"x").is_ok() {
            let _ = std::fs::remove_file(&probe);
            return shm;
        }
    }
    std::env::temp_dir()
}

pub fn new_scratch() -> PathBuf {
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| scratch_base());
    let p = base.join(format!("osm-io-verif.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).expect("scratch dir");
    p
}

pub fn supervise(e: &Entry, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let nshards: u32 = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(e.shards);
    let scratch = Scratch(new_scratch());
    let exe = std::env::current_exe().expect("exe");
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut kids = vec![];
    for i in 0..nshards {
        let out = scratch.0.join(format!("shard{i}.json"));
        let sdir = scratch.0.join(format!("s{i}"));
        std::fs::create_dir_all(&sdir).unwrap();
        let child = std::process::Command::new(&exe)
            .args(["shard", e.id, tier_s, &seed.to_string(), &i.to_string(), &nshards.to_string()])
            .arg(&out)
            .arg(&sdir)
            .env("TMPDIR", &sdir)
            .env_remove("RUST_BACKTRACE")
            .stdout(std::process::Stdio::null())
            .stderr(std::fs::File::create(scratch.0.join(format!("shard{i}.err"))).unwrap())
            .spawn()
            .expect("spawn shard");
        kids.push((i, child, out));
    }
    let deadline = Duration::from_secs(
        std::env::var("VERIF_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 780 } else { 6 * 3600 }),
    );
    let mut results: Vec<ShardResult> = vec![];
    let mut failure: Option<Failure> = None;
    let mut error: Option<String> = None;
    let mut running = kids;
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(30));
        let mut still = vec![];
        let mut done = vec![];
        for (i, mut c, out) in running {
            match c.try_wait() {
                Ok(Some(st)) => done.push((i, st, out)),
                _ => still.push((i, c, out)),
            }
        }
        running = still;
        for (i, st, out) in done {
            match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<ShardResult>(&b).ok()) {
                Some(r) => {
                    if failure.is_none() {
                        failure = r.failure.clone();
                    }
                    if let Some(x) = &r.error {
                        error = Some(x.clone());
                    }
                    results.push(r);
                }
                None => {
                    // the process died: repeat its last case alone
                    let err = std::fs::read_to_string(scratch.0.join(format!("shard{i}.err"))).unwrap_or_default();
                    let cur = out.with_extension("current");
                    let msg = format!("shard {i} ended with {st}: {}", err.chars().take(2000).collect::<String>());
                    let mut confirmed = false;
                    if cur.exists() {
                        let r = std::process::Command::new(&exe).args(["one", e.id]).arg(&cur).arg(scratch.0.join("confirm")).output().expect("confirm");
                        use std::os::unix::process::ExitStatusExt;
                        if matches!(r.status.signal(), Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL)) {
                            confirmed = true;
                            let case = serde_json::from_slice(&std::fs::read(&cur).unwrap()).unwrap();
                            failure.get_or_insert(Failure {
                                reason: format!("the process is aborted ({}) by this input: {}", r.status, String::from_utf8_lossy(&r.stderr).chars().take(1500).collect::<String>()),
                                case,
                            });
                        } else if r.status.code() == Some(1) {
                            confirmed = true;
                            let case = serde_json::from_slice(&std::fs::read(&cur).unwrap()).unwrap();
                            failure.get_or_insert(Failure { reason: String::from_utf8_lossy(&r.stdout).to_string(), case });
                        }
                    }
                    if !confirmed {
                        error = Some(msg);
                    }
                }
            }
        }
        if failure.is_some() || t0.elapsed() > deadline {
            if failure.is_none() {
                error = Some(format!("time limit of {deadline:?} reached"));
            }
            for (_, c, _) in running.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            break;
        }
    }

    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut nt: HashSet<u64> = HashSet::new();
    let mut evals = 0;
    let mut samples = vec![];
    let mut findings: BTreeMap<String, String> = BTreeMap::new();
    for r in &results {
        evals += r.evaluations;
        nt.extend(r.nontrivial.iter());
        for (k, v) in &r.labels {
            *labels.entry(k.clone()).or_insert(0) += v;
        }
        for s in &r.samples {
            if samples.len() < 4 {
                samples.push(s.clone());
            }
        }
        for (k, v) in &r.findings {
            findings.entry(k.clone()).or_insert(v.clone());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut assumptions: Vec<String> = e.assumptions.iter().map(|s| s.to_string()).collect();
    assumptions.push("proptest 1.12 (ChaCha RNG) seeded from VERIF_SEED, property, tier and shard; number of cases fixed per tier".into());
    let ev = serde_json::json!({
        "property": e.id,
        "tier": tier_s,
        "seed": seed,
        "level": e.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nt.len(),
            "rule": e.rule,
            "samples": samples,
            "labels": labels,
            "shards": nshards,
        },
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", e.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");

    for k in known_findings().iter().filter(|k| k.property == e.id && k.status == "known") {
        println!("KNOWN-FINDING: property={} {}", e.id, k.text);
    }
    if let Some(f) = failure {
        let rd = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let h = fnv(serde_json::to_string(&f.case).unwrap().as_bytes());
        let p = rd.join(format!("{}-{:016x}.json", e.id, h));
        let rp = Replay { property: e.id.into(), reason: f.reason.clone(), seed, case: f.case };
        std::fs::write(&p, serde_json::to_string_pretty(&rp).unwrap()).expect("replay");
        println!("{}", f.reason.chars().take(4000).collect::<String>());
        println!("VIOLATION property={} replay={}", e.id, p.display());
        return 1;
    }
    if let Some(m) = error {
        println!("ERROR {}: {m}", e.id);
        return 2;
    }
    println!("{} {tier_s}: held on {evals} cases ({} distinct non-trivial) in {wall:.1} s", e.id, nt.len());
    let _ = std::io::stdout().flush();
    0
}
