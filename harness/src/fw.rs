//! Property runner: seeded, sharded proptest execution with shrinking, replay
//! files, class counters and crash attribution.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub type R = Result<(), String>;

pub const SHARDS: u32 = 8;

/// A replay file is being run, not a search.
pub static REPLAYING: AtomicBool = AtomicBool::new(false);

/// A case that takes this long is reported as hanging (they take milliseconds).
const HANG: std::time::Duration = std::time::Duration::from_secs(75);

/// Per-case context handed to a check.
pub struct Cx {
    dir: PathBuf,
    made: bool,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
}

static CASE_NO: AtomicU64 = AtomicU64::new(0);

impl Cx {
    fn new(base: &Path) -> Cx {
        let n = CASE_NO.fetch_add(1, Ordering::Relaxed);
        Cx {
            dir: base.join(format!("k{}", n)),
            made: false,
            labels: vec![],
            nontrivial: false,
        }
    }
    /// A fresh empty directory of this case, removed after it.
    pub fn dir(&mut self) -> PathBuf {
        if !self.made {
            std::fs::create_dir_all(&self.dir).expect("scratch");
            self.made = true;
        }
        self.dir.clone()
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

impl Drop for Cx {
    fn drop(&mut self) {
        if self.made {
            // `dir` is always a directory this case created under the scratch root.
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => { if !($c) { return Err(format!($($fmt)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {
        match (&$a, &$b) {
            (a, b) => if a != b { return Err(format!("{}: got {}, expected {}", format!($($fmt)+), $crate::fw::short(a), $crate::fw::short(b))); }
        }
    };
}

pub fn short<T: Debug + ?Sized>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.chars().count() > 400 {
        let h: String = s.chars().take(300).collect();
        format!("{}... ({} chars)", h, s.len())
    } else {
        s
    }
}

pub struct RunCtx {
    pub seed: u64,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub prop: String,
    pub scale: f64,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failure: Option<(u32, String, Value)>,
    aborted: Option<String>,
}

pub struct Sub {
    pub name: &'static str,
    pub run: Box<dyn Fn(&RunCtx) -> Value + Send + Sync>,
    pub replay: Box<dyn Fn(&Value, &Path) -> R + Send + Sync>,
}

fn run_case<V>(
    case: &V,
    base: &Path,
    test: &(dyn Fn(&V, &mut Cx) -> R + Sync),
) -> (R, Vec<&'static str>, bool) {
    let mut cx = Cx::new(base);
    let r = match no_panic(|| test(case, &mut cx)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    (r, std::mem::take(&mut cx.labels), cx.nontrivial)
}

fn seed_bytes(seed: u64, prop: &str, sub: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (seed, prop, sub, shard, i).hash(&mut h);
        out[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

/// Number of cases per run (over all shards) in the quick and thorough tier.
#[derive(Clone, Copy)]
pub struct Cases(pub u32, pub u32);

pub fn sub<V, S, F>(
    name: &'static str,
    cases: Cases,
    strategy: fn() -> S,
    test: F,
) -> Sub
where
    V: Serialize + DeserializeOwned + Clone + Debug + 'static,
    S: Strategy<Value = V> + 'static,
    F: Fn(&V, &mut Cx) -> R + Sync + Send + Clone + 'static,
{
    sub_sharded(name, cases, SHARDS, strategy, test)
}

pub fn sub_sharded<V, S, F>(
    name: &'static str,
    cases: Cases,
    shards: u32,
    strategy: fn() -> S,
    test: F,
) -> Sub
where
    V: Serialize + DeserializeOwned + Clone + Debug + 'static,
    S: Strategy<Value = V> + 'static,
    F: Fn(&V, &mut Cx) -> R + Sync + Send + Clone + 'static,
{
    let test2 = test.clone();
    Sub {
        name,
        run: Box::new(move |rc| {
            let total = if rc.thorough { cases.1 } else { cases.0 };
            // A sub-check without cases is only there to be replayed.
            let total = if total == 0 { 0 } else { ((total as f64 * rc.scale).ceil() as u32).max(1) };
            let per = (total + shards - 1) / shards;
            let merged = Mutex::new(Stats::default());
            let stop = AtomicBool::new(false);
            let t0 = std::time::Instant::now();
            // When each shard's current case began, in ms (0: none).
            let began: Vec<AtomicU64> = (0..shards).map(|_| AtomicU64::new(0)).collect();
            let running = AtomicU64::new(shards as u64);
            std::thread::scope(|sc| {
                let (began, running) = (&began, &running);
                sc.spawn(move || {
                    while running.load(Ordering::SeqCst) > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        let now = t0.elapsed().as_millis() as u64;
                        for (shard, b) in began.iter().enumerate() {
                            let b = b.load(Ordering::SeqCst);
                            if b > 0 && now > b + HANG.as_millis() as u64 {
                                let _ = std::fs::write(rc.scratch.join("hang"), json!({"sub": name, "shard": shard}).to_string());
                                std::process::exit(3);
                            }
                        }
                    }
                });
                for shard in 0..shards {
                    let merged = &merged;
                    let stop = &stop;
                    let test = &test;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let clock = |on: bool| began[shard as usize].store(if on { 1 + t0.elapsed().as_millis() as u64 } else { 0 }, Ordering::SeqCst);
                            let st = catch_unwind(AssertUnwindSafe(|| run_shard(rc, name, shard, per, strategy, test, stop, &clock)));
                            running.fetch_sub(1, Ordering::SeqCst);
                            let st = st.unwrap_or_else(|_| std::process::exit(2));
                            let mut m = merged.lock().unwrap();
                            m.evaluations += st.evaluations;
                            m.hashes.extend(st.hashes);
                            for (k, v) in st.labels {
                                *m.labels.entry(k).or_default() += v;
                            }
                            if m.samples.len() < 3 {
                                m.samples.extend(st.samples.into_iter().take(1));
                            }
                            if let Some(f) = st.failure {
                                if m.failure.as_ref().map_or(true, |g| f.0 < g.0) {
                                    m.failure = Some(f);
                                }
                            }
                            if st.aborted.is_some() {
                                m.aborted = st.aborted;
                            }
                        })
                        .unwrap();
                }
            });
            let m = merged.into_inner().unwrap();
            json!({
                "name": name,
                "evaluations": m.evaluations,
                "distinct_nontrivial": m.hashes.len(),
                "classes": m.labels,
                "samples": m.samples,
                "wall_s": t0.elapsed().as_secs_f64(),
                "aborted": m.aborted,
                "failure": m.failure.map(|(shard, msg, case)| json!({"shard": shard, "message": msg, "case": case})),
            })
        }),
        replay: Box::new(move |v, base| {
            let case: V = serde_json::from_value(v.clone()).map_err(|e| format!("replay file: {}", e))?;
            run_case(&case, base, &test2).0
        }),
    }
}

fn run_shard<V, S, F>(
    rc: &RunCtx,
    name: &'static str,
    shard: u32,
    per: u32,
    strategy: fn() -> S,
    test: &F,
    stop: &AtomicBool,
    clock: &dyn Fn(bool),
) -> Stats
where
    V: Serialize + DeserializeOwned + Clone + Debug + 'static,
    S: Strategy<Value = V>,
    F: Fn(&V, &mut Cx) -> R + Sync,
{
    let base = rc.scratch.join(format!("{}-{}", name, shard));
    std::fs::create_dir_all(&base).expect("scratch shard dir");
    let mut cur = std::fs::File::create(rc.scratch.join(format!("cur-{}-{}", name, shard))).expect("cur file");
    let config = Config {
        cases: per,
        max_shrink_iters: 4000,
        max_shrink_time: 60_000,
        max_local_rejects: 1_000_000,
        max_global_rejects: 1_000_000,
        failure_persistence: None,
        source_file: None,
        verbose: 0,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(rc.seed, &rc.prop, name, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let stats = RefCell::new(Stats::default());
    let failed = Cell::new(false);
    let stopped = Cell::new(false);
    let strat = strategy();
    let cur = RefCell::new(&mut cur);
    let res = runner.run(&strat, |case| {
        if stop.load(Ordering::Relaxed) && !failed.get() {
            stopped.set(true);
            return Ok(());
        }
        let text = serde_json::to_string(&case).expect("case serializes");
        {
            let mut c = cur.borrow_mut();
            let _ = c.seek(SeekFrom::Start(0));
            let _ = c.write_all(text.as_bytes());
            let _ = c.set_len(text.len() as u64);
        }
        clock(true);
        let (r, labels, nontrivial) = run_case(&case, &base, test);
        clock(false);
        if !failed.get() {
            let mut st = stats.borrow_mut();
            st.evaluations += 1;
            for l in labels {
                *st.labels.entry(l.to_string()).or_default() += 1;
            }
            if nontrivial {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                text.hash(&mut h);
                if st.hashes.insert(h.finish()) && st.samples.len() < 3 && st.evaluations > 5 && text.len() < 3000 {
                    st.samples.push(serde_json::from_str(&text).unwrap());
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                failed.set(true);
                stop.store(true, Ordering::Relaxed);
                Err(TestCaseError::fail(m))
            }
        }
    });
    {
        let c = cur.borrow_mut();
        let _ = c.set_len(0);
    }
    let mut st = stats.into_inner();
    match res {
        Ok(()) => {}
        Err(TestError::Fail(reason, case)) => {
            let v = serde_json::to_value(&case).unwrap();
            // The message of the minimal case, not of the first failing one. Where
            // schedules matter it may take some runs.
            let msg = (0..100)
                .find_map(|_| run_case(&case, &base, test).0.err())
                .unwrap_or_else(|| format!("{} (in the search, but not when re-run)", reason.message()));
            st.failure = Some((shard, msg, v));
        }
        Err(TestError::Abort(r)) => {
            st.aborted = Some(format!("generator aborted: {}", r));
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    st
}

pub fn drop_privileges(scratch: &Path) -> Result<(), String> {
    use std::os::unix::ffi::OsStrExt;
    unsafe {
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        if libc::geteuid() == 0 {
            let c = std::ffi::CString::new(scratch.as_os_str().as_bytes()).unwrap();
            if libc::chown(c.as_ptr(), 65534, 65534) != 0 {
                return Err("chown scratch".into());
            }
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                return Err("cannot drop privileges".into());
            }
            if libc::setuid(0) == 0 {
                return Err("privileges were not dropped".into());
            }
        }
    }
    std::env::set_current_dir(scratch).map_err(|e| e.to_string())
}
