//! The search engine: every property is a generator (a function of a choice sequence drawn by
//! proptest), an executable oracle over the generated case, and counters describing what was covered.
//!
//! proptest draws the choice sequence, shrinks it on failure, and is seeded from VERIF_SEED; the
//! shrunk case is written as a self-contained JSON replay file.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// A source of choices. Choices come from proptest; a draw past the end is 0, the simplest choice.
pub struct Gen<'a> {
    choices: &'a [u64],
    pos: usize,
    /// grows the sizes of what is generated
    pub thorough: bool,
}

impl<'a> Gen<'a> {
    pub fn new(choices: &'a [u64], thorough: bool) -> Self {
        Gen {
            choices,
            pos: 0,
            thorough,
        }
    }
    pub fn u64(&mut self) -> u64 {
        let v = self.choices.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// lo..=hi, lo being the simplest
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        let span = hi - lo;
        if span == u64::MAX {
            return self.u64();
        }
        lo + self.u64() % (span + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true n times out of d; false is the simplest
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.u64() % d >= d - n
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.usize(0, xs.len() - 1);
        xs[i].clone()
    }
    /// index drawn with weights, the first being the simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut r = self.u64() % total;
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        unreachable!()
    }
}

/// The choices of an input of the coverage-guided search
pub fn choices_of_bytes(data: &[u8]) -> Vec<u64> {
    data.chunks(8)
        .map(|c| {
            let mut b = [0; 8];
            b[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect()
}

#[derive(Default)]
pub struct Stats {
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Stats {
    pub fn class(&mut self, c: &str) {
        *self.classes.entry(c.to_owned()).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, cond: bool, c: &str) {
        if cond {
            self.class(c)
        }
    }
    pub fn add(&mut self, c: &str, n: u64) {
        *self.classes.entry(c.to_owned()).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type CheckResult = Result<(), String>;

/// One generated check. A property has one or several of them.
pub trait Check: Sync {
    fn name(&self) -> &'static str;
    /// how cases are made, and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn run_choices(
        &self,
        choices: &[u64],
        thorough: bool,
        stats: Option<&mut Collector>,
    ) -> Result<(), (String, String)>;
    fn case_json(&self, choices: &[u64], thorough: bool) -> String;
    fn replay(&self, json: &str) -> CheckResult;
    fn num_choices(&self) -> usize;
}

pub struct Simple<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub num_choices: usize,
    pub gen: fn(&mut Gen) -> C,
    pub check: fn(&C, &mut Stats) -> CheckResult,
}

/// What a worker measured
#[derive(Default, Serialize, Deserialize)]
pub struct Collector {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static TRACE: RefCell<Option<std::path::PathBuf>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if !IN_CASE.with(|c| c.get()) {
            default(info);
            return;
        }
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_owned()
    }
}

/// Runs the code under test; a panic is a failure of the case
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(before));
    r.map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

impl<C> Check for Simple<C>
where
    C: Serialize + DeserializeOwned + Debug + Hash,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 3 * self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn num_choices(&self) -> usize {
        self.num_choices
    }
    fn run_choices(
        &self,
        choices: &[u64],
        thorough: bool,
        col: Option<&mut Collector>,
    ) -> Result<(), (String, String)> {
        let mut g = Gen::new(choices, thorough);
        let case = (self.gen)(&mut g);
        TRACE.with(|t| {
            if let Some(p) = &*t.borrow() {
                let js = serde_json::to_string(&case).unwrap();
                std::fs::write(p, format!("{{\"check\":{:?},\"case\":{js}}}", self.name)).unwrap();
            }
        });
        let mut stats = Stats::default();
        let res = guarded(|| (self.check)(&case, &mut stats)).unwrap_or_else(Err);
        if let Some(col) = col {
            col.evaluations += 1;
            for (k, v) in &stats.classes {
                *col.classes.entry(k.clone()).or_insert(0) += v;
            }
            if stats.nontrivial {
                col.nontrivial += 1;
                let mut h = DefaultHasher::new();
                case.hash(&mut h);
                let new = col.distinct_nontrivial.insert(h.finish());
                if new && col.samples.len() < 3 {
                    let v = serde_json::to_value(&case).unwrap();
                    if v.to_string().len() < 6000 {
                        col.samples.push(v);
                    }
                }
            }
        }
        match res {
            Ok(()) => Ok(()),
            Err(msg) => Err((msg, serde_json::to_string(&case).unwrap())),
        }
    }
    fn case_json(&self, choices: &[u64], thorough: bool) -> String {
        let mut g = Gen::new(choices, thorough);
        serde_json::to_string(&(self.gen)(&mut g)).unwrap()
    }
    fn replay(&self, json: &str) -> CheckResult {
        let case: C = serde_json::from_str(json).map_err(|e| format!("bad replay file: {e}"))?;
        let mut stats = Stats::default();
        guarded(|| (self.check)(&case, &mut stats)).unwrap_or_else(Err)
    }
}

pub struct Failure {
    pub check: &'static str,
    pub message: String,
    pub case: String,
}

fn seed_bytes(seed: u64, name: &str, worker: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
    for b in name.bytes() {
        x = splitmix(&mut { x }) ^ b as u64;
    }
    x ^= worker.wrapping_mul(0xd134_2543_de82_ef95);
    for chunk in out.chunks_mut(8) {
        chunk.copy_from_slice(&splitmix(&mut x).to_le_bytes());
    }
    out
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub const WORKERS: u64 = 8;

/// A case that takes more processor time than this does not end (cases take milliseconds, the
/// biggest about a second). Processor time, not wall time: a busy machine changes nothing.
pub const CASE_CPU_SECONDS: u64 = 60;

/// processor time used so far by the thread of this clock, in seconds
fn cpu_seconds(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    if unsafe { libc::clock_gettime(clock, &mut ts) } != 0 {
        return 0;
    }
    ts.tv_sec as u64
}

fn own_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    let r = unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    assert_eq!(r, 0);
    c
}

/// The case a worker is running
struct Running {
    clock: libc::clockid_t,
    since: u64,
    choices: Vec<u64>,
}

/// Runs f on a worker's stack; None when it has used up the processor time of a case
pub fn with_deadline<T: Send>(f: impl FnOnce() -> T + Send) -> Option<T> {
    std::thread::scope(|s| {
        let (tx, rx) = std::sync::mpsc::channel();
        let (ctx, crx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                ctx.send(own_clock()).unwrap();
                let _ = tx.send(f());
            })
            .unwrap();
        let clock = crx.recv().unwrap();
        loop {
            match rx.recv_timeout(std::time::Duration::from_millis(500)) {
                Ok(v) => return Some(v),
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                    if cpu_seconds(clock) > CASE_CPU_SECONDS {
                        println!("no end within {CASE_CPU_SECONDS} s of processor time");
                        std::process::exit(1);
                    }
                }
                Err(_) => return None,
            }
        }
    })
}

/// Explore one check with 8 workers
pub fn explore(
    check: &dyn Check,
    tier: Tier,
    seed: u64,
    divide: u64,
    trace_dir: Option<&std::path::Path>,
    on_hang: &(dyn Fn(Failure) + Sync),
) -> (Collector, Option<Failure>) {
    let total = Mutex::new(Collector::default());
    let failures: Mutex<Vec<(u64, Failure)>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let per_worker = check.cases(tier).div_ceil(WORKERS * divide);

    let running: Vec<Mutex<Option<Running>>> = (0..WORKERS).map(|_| Mutex::new(None)).collect();

    std::thread::scope(|s| {
        let (alive, ended) = std::sync::mpsc::channel::<()>();
        let watched = &running;
        s.spawn(move || {
            use std::sync::mpsc::RecvTimeoutError;
            while let Err(RecvTimeoutError::Timeout) =
                ended.recv_timeout(std::time::Duration::from_millis(500))
            {
                for r in watched {
                    if let Some(r) = &*r.lock().unwrap() {
                        if cpu_seconds(r.clock) > r.since + CASE_CPU_SECONDS {
                            on_hang(Failure {
                                check: check.name(),
                                message: format!(
                                    "no end within {CASE_CPU_SECONDS} s of processor time"
                                ),
                                case: check.case_json(&r.choices, tier == Tier::Thorough),
                            });
                        }
                    }
                }
            }
        });
        for w in 0..WORKERS {
            let (total, failures, stop) = (&total, &failures, &stop);
            let alive = alive.clone();
            let running = &running[w as usize];
            let trace = trace_dir.map(|d| d.join(format!("{w}.json")));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let _alive = alive;
                    TRACE.with(|t| *t.borrow_mut() = trace);
                    let clock = own_clock();
                    let config = Config {
                        cases: per_worker as u32,
                        failure_persistence: None,
                        max_shrink_iters: 3_000,
                        max_shrink_time: 40_000,
                        result_cache: proptest::test_runner::noop_result_cache,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(
                        RngAlgorithm::ChaCha,
                        &seed_bytes(seed, check.name(), w),
                    );
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let n = check.num_choices();
                    // short sequences give small cases
                    let strategy = prop_oneof![
                        1 => vec(any::<u64>(), 0..=(n / 6).max(1)),
                        3 => vec(any::<u64>(), (n / 6).max(1)..=n),
                    ];
                    let col = RefCell::new(Collector::default());
                    let failed = Cell::new(false);
                    let thorough = tier == Tier::Thorough;
                    let r = runner.run(&strategy, |choices| {
                        if stop.load(Ordering::Relaxed) && !failed.get() {
                            return Ok(());
                        }
                        *running.lock().unwrap() = Some(Running {
                            clock,
                            since: cpu_seconds(clock),
                            choices: choices.clone(),
                        });
                        let mut c = col.borrow_mut();
                        // while shrinking nothing is counted
                        let c = if failed.get() { None } else { Some(&mut *c) };
                        match check.run_choices(&choices, thorough, c) {
                            Ok(()) => Ok(()),
                            Err((msg, _)) => {
                                failed.set(true);
                                stop.store(true, Ordering::Relaxed);
                                Err(TestCaseError::fail(msg))
                            }
                        }
                    });
                    *running.lock().unwrap() = None;
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(_, choices)) => {
                            if let Err((message, case)) =
                                check.run_choices(&choices, thorough, None)
                            {
                                failures.lock().unwrap().push((
                                    w,
                                    Failure {
                                        check: check.name(),
                                        message,
                                        case,
                                    },
                                ));
                            } else {
                                eprintln!("{}: a failure did not reproduce", check.name());
                                std::process::exit(3);
                            }
                        }
                        Err(TestError::Abort(r)) => {
                            eprintln!("{}: aborted: {r}", check.name());
                            std::process::exit(3);
                        }
                    }
                    let c = col.into_inner();
                    let mut t = total.lock().unwrap();
                    t.evaluations += c.evaluations;
                    t.nontrivial += c.nontrivial;
                    t.distinct_nontrivial.extend(c.distinct_nontrivial);
                    for (k, v) in c.classes {
                        *t.classes.entry(k).or_insert(0) += v;
                    }
                    if t.samples.len() < 4 {
                        t.samples.extend(c.samples.into_iter().take(1));
                    }
                })
                .unwrap();
        }
        drop(alive);
    });

    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|(w, f)| (f.case.len(), *w));
    let failure = failures.into_iter().next().map(|(_, f)| f);
    (total.into_inner().unwrap(), failure)
}

/// Shrinks a failing sequence of choices: shorter, then smaller
pub fn shrink(check: &dyn Check, mut choices: Vec<u64>, thorough: bool) -> Vec<u64> {
    let mut left = 4000;
    let mut fails = |c: &[u64]| {
        left -= 1;
        left > 0 && check.run_choices(c, thorough, None).is_err()
    };
    loop {
        let before = choices.clone();
        let mut size = choices.len();
        while size > 0 {
            let mut at = 0;
            while at < choices.len() {
                let end = (at + size).min(choices.len());
                let mut shorter = choices.clone();
                shorter.drain(at..end);
                let mut zeroed = choices.clone();
                zeroed[at..end].fill(0);
                if fails(&shorter) {
                    choices = shorter;
                } else if zeroed != choices && fails(&zeroed) {
                    choices = zeroed;
                    at = end;
                } else {
                    at = end;
                }
            }
            size /= 2;
        }
        for i in 0..choices.len() {
            for smaller in [choices[i] & 0xff, choices[i] >> 32, choices[i] / 2, choices[i].saturating_sub(1)] {
                if smaller < choices[i] {
                    let mut c = choices.clone();
                    c[i] = smaller;
                    if fails(&c) {
                        choices = c;
                    }
                }
            }
        }
        if choices == before {
            return choices;
        }
    }
}
