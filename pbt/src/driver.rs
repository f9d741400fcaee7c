use crate::alloc_guard;
use crate::known::{self, Finding};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

const SHARDS: usize = 32;
const THOROUGH: u64 = 40;
/// Distinct non-trivial cases remembered per shard (beyond that the reported
/// number is a lower bound).
const MAX_DISTINCT: usize = 2_000_000;
const MAX_SHRINK: usize = 20_000;
/// Wall-clock seconds after which a case counts as not returning when the
/// process burns CPU time meanwhile (in threads of the code under test).
const HANG_WALL_S: u64 = 300;
/// Wall-clock seconds one case may take before the run is *abandoned* with an
/// error exit.  Never reported as a violation.
const WATCHDOG_S: u64 = 400;
/// CPU seconds one case may burn (all take well below one second) before the
/// call under test counts as one that does not return: a violation.
const HANG_CPU_S: f64 = 60.0;
/// The same for checks whose code under test keeps all cores busy.
const HANG_CPU_SERIAL_S: f64 = 240.0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one evaluation of a check records about its case.
#[derive(Default)]
pub struct Rec {
    nontrivial: bool,
    labels: BTreeSet<&'static str>,
    counts: BTreeMap<&'static str, u64>,
    findings: BTreeSet<String>,
    listed: Vec<String>,
}
impl Rec {
    /// The case is non-trivial by the property's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label(&mut self, l: &'static str) {
        let _ = self.labels.insert(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.counts.entry(l).or_insert(0) += n;
    }
    /// The case shows exactly the signature of the recorded finding `key`.
    /// Returns Ok if the finding is listed, the failure message otherwise.
    pub fn known(&mut self, key: &str, msg: impl FnOnce() -> String) -> Result<(), String> {
        if self.listed.iter().any(|k| k == key) {
            let _ = self.findings.insert(key.to_string());
            Ok(())
        } else {
            Err(msg())
        }
    }
}

#[derive(Default)]
struct SubStats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    counts: BTreeMap<&'static str, u64>,
    findings: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

pub struct Failure {
    sub: String,
    case: Value,
    message: String,
}

pub struct Ctx {
    prop: &'static str,
    rule: &'static str,
    tier: Tier,
    seed: u64,
    mult: f64,
    only: Option<String>,
    replay: Option<(String, Value)>,
    replay_hit: bool,
    verif: PathBuf,
    stats: Vec<(String, SubStats)>,
    failures: Vec<Failure>,
    known: Vec<Finding>,
    listed: Vec<String>,
    assumptions: Vec<String>,
    start: Instant,
    threads: usize,
    stack: usize,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static CLOCK: Cell<Option<libc::clockid_t>> = const { Cell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CASE_PTR: Cell<Option<(*const (), fn(*const ()) -> Value)>> = const { Cell::new(None) };
    static CASE_SUB: RefCell<String> = const { RefCell::new(String::new()) };
}
struct CasePtr(*const (), fn(*const ()) -> Value, String);
unsafe impl Send for CasePtr {}
static SERIAL_PTR: Mutex<Option<CasePtr>> = Mutex::new(None);
/// The case each worker is busy with, for the watchdog.
struct Busy {
    case: *const (),
    ser: fn(*const ()) -> Value,
    sub: String,
    clock: libc::clockid_t,
    start: f64,
    /// process CPU time and wall time at the same moment
    process: f64,
    wall: u64,
}
unsafe impl Send for Busy {}
static BUSY: [Mutex<Option<Busy>>; 64] = [const { Mutex::new(None) }; 64];
fn cpu_s(clock: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
        return 0.0;
    }
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
fn my_clock() -> libc::clockid_t {
    if SERIAL.load(Ordering::Relaxed) {
        return libc::CLOCK_PROCESS_CPUTIME_ID;
    }
    let mut c: libc::clockid_t = 0;
    if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) } != 0 {
        return libc::CLOCK_PROCESS_CPUTIME_ID;
    }
    c
}
static SLOTS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static GLOBAL: Mutex<Option<(String, PathBuf)>> = Mutex::new(None);

fn case_to_value<C: Serialize>(p: *const ()) -> Value {
    let c = unsafe { &*(p as *const C) };
    serde_json::to_value(c).unwrap_or(Value::Null)
}

fn replay_path(verif: &std::path::Path, prop: &str, sub: &str) -> PathBuf {
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{prop}-{sub}.json"))
}

fn write_replay(verif: &std::path::Path, prop: &str, f: &Failure) -> PathBuf {
    let p = replay_path(verif, prop, &f.sub);
    let v = json!({"property": prop, "sub": f.sub, "case": f.case, "message": f.message,
        "replay_with": format!("bash /verif/check.sh {prop} replay {}", p.display())});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap_or_default());
    p
}

/// One case made the code under test hold more than the budget: the call does
/// not terminate with a bounded result.  Deterministic, hence a violation.
pub fn die_case_memory(budget: i64) -> ! {
    let (prop, verif) = GLOBAL
        .lock()
        .ok()
        .and_then(|g| g.clone())
        .unwrap_or_else(|| ("?".into(), PathBuf::from("/verif")));
    let mut sub = CASE_SUB.with(|s| s.borrow().clone());
    let case = CASE_PTR.with(|c| match c.get() {
        Some((p, f)) => f(p),
        None => match SERIAL_PTR.lock().ok().and_then(|mut g| g.take()) {
            Some(c) => {
                sub = c.2.clone();
                (c.1)(c.0)
            }
            None => Value::Null,
        },
    });
    let f = Failure {
        sub,
        case,
        message: format!("unbounded growth: the call held more than {budget} bytes"),
    };
    let p = write_replay(&verif, &prop, &f);
    println!("  {}", f.message);
    println!("VIOLATION property={prop} replay={}", p.display());
    unsafe { libc::_exit(1) }
}

/// The call under test does not return.
fn die_hang(b: Busy) -> ! {
    let (prop, verif) = GLOBAL
        .lock()
        .ok()
        .and_then(|g| g.clone())
        .unwrap_or_else(|| ("?".into(), PathBuf::from("/verif")));
    let f = Failure {
        case: (b.ser)(b.case),
        sub: b.sub,
        message: "does not return: a case that takes milliseconds ran for a minute of CPU time".into(),
    };
    let p = write_replay(&verif, &prop, &f);
    println!("  {}", f.message);
    println!("VIOLATION property={prop} replay={}", p.display());
    unsafe { libc::_exit(1) }
}

/// Stack overflow or another deadly signal inside a case.
extern "C" fn on_signal(sig: libc::c_int) {
    unsafe {
        let _ = libc::signal(sig, libc::SIG_DFL);
    }
    alloc_guard::disarm();
    let Some((p, ser)) = CASE_PTR.with(|c| c.get()) else {
        unsafe {
            let _ = libc::raise(sig);
        }
        return;
    };
    let sub = CASE_SUB.with(|s| s.borrow().clone());
    let (prop, verif) = GLOBAL
        .try_lock()
        .ok()
        .and_then(|g| g.clone())
        .unwrap_or_else(|| ("?".into(), PathBuf::from("/verif")));
    let f = Failure {
        sub,
        case: ser(p),
        message: format!("the call under test died of signal {sig} (stack overflow?)"),
    };
    let p = write_replay(&verif, &prop, &f);
    println!("  {}", f.message);
    println!("VIOLATION property={prop} replay={}", p.display());
    unsafe { libc::_exit(1) }
}
/// Deadly signals of the calling thread are handled on a stack of their own.
fn alt_stack() {
    const SIZE: usize = 1 << 20;
    unsafe {
        let mem = Box::leak(vec![0u8; SIZE].into_boxed_slice());
        let st = libc::stack_t { ss_sp: mem.as_mut_ptr() as *mut _, ss_flags: 0, ss_size: SIZE };
        let _ = libc::sigaltstack(&st, std::ptr::null_mut());
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            let _ = libc::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

pub fn die_process_memory() -> ! {
    eprintln!("ERROR: process memory budget exceeded; no verdict");
    unsafe { libc::_exit(3) }
}

fn fnv(bytes: &[u8], mut h: u64) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn seed_bytes(seed: u64, prop: &str, sub: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = fnv(&seed.to_le_bytes(), 0xcbf29ce484222325 ^ (i.wrapping_mul(0x9E3779B97F4A7C15)));
        h = fnv(prop.as_bytes(), h);
        h = fnv(sub.as_bytes(), h);
        h = fnv(&(shard as u64).to_le_bytes(), h);
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

/// Run one check on one case; a panic of the code under test is a failure.
fn eval<C: Serialize, F>(check: &F, case: &C, rec: &mut Rec) -> Result<(), String>
where
    F: Fn(&C, &mut Rec) -> Result<(), String> + Sync,
{
    CASE_PTR.with(|c| c.set(Some((case as *const C as *const (), case_to_value::<C>))));
    let slot = SLOT.with(|s| s.get());
    if slot < SLOTS.len() {
        SLOTS[slot].store(now_s() + 1, Ordering::Relaxed);
        let clock = CLOCK.with(|c| match c.get() {
            Some(c) => c,
            None => {
                let k = my_clock();
                c.set(Some(k));
                k
            }
        });
        // the start is taken by the watchdog, which looks once a second
        *BUSY[slot].lock().unwrap() = Some(Busy {
            case: case as *const C as *const (),
            ser: case_to_value::<C>,
            sub: CASE_SUB.with(|s| s.borrow().clone()),
            clock,
            start: f64::NAN,
            process: 0.0,
            wall: 0,
        });
    }
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    let serial = SERIAL.load(Ordering::Relaxed);
    if serial {
        *SERIAL_PTR.lock().unwrap() = Some(CasePtr(
            case as *const C as *const (),
            case_to_value::<C>,
            CASE_SUB.with(|s| s.borrow().clone()),
        ));
        alloc_guard::serial_begin();
    }
    alloc_guard::arm();
    let r = catch_unwind(AssertUnwindSafe(|| check(case, rec)));
    alloc_guard::disarm();
    if serial {
        alloc_guard::serial_end();
        *SERIAL_PTR.lock().unwrap() = None;
    }
    if slot < SLOTS.len() {
        SLOTS[slot].store(0, Ordering::Relaxed);
        *BUSY[slot].lock().unwrap() = None;
    }
    CASE_PTR.with(|c| c.set(None));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = PANIC_MSG.with(|p| p.borrow_mut().take());
            let m = m.unwrap_or_else(|| {
                if let Some(s) = e.downcast_ref::<&str>() {
                    format!("panicked: {s}")
                } else if let Some(s) = e.downcast_ref::<String>() {
                    format!("panicked: {s}")
                } else {
                    "panicked".to_string()
                }
            });
            Err(m)
        }
    }
}

static SERIAL: AtomicBool = AtomicBool::new(false);
static EPOCH: Mutex<Option<Instant>> = Mutex::new(None);
fn now_s() -> u64 {
    let mut g = EPOCH.lock().unwrap();
    g.get_or_insert_with(Instant::now).elapsed().as_secs()
}

impl Ctx {
    pub fn new(prop: &'static str, rule: &'static str) -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        let mode = args.get(1).map(|s| s.as_str()).unwrap_or("quick");
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse::<u64>().ok())
            .unwrap_or(1);
        let mut replay = None;
        let tier = match mode {
            "thorough" => Tier::Thorough,
            "replay" => {
                let p = args.get(2).expect("replay needs a file");
                let v: Value =
                    serde_json::from_str(&std::fs::read_to_string(p).expect("replay file"))
                        .expect("replay json");
                replay = Some((
                    v["sub"].as_str().unwrap_or("").to_string(),
                    v["case"].clone(),
                ));
                Tier::Quick
            }
            _ => Tier::Quick,
        };
        let mult = std::env::var("PBT_MULT")
            .ok()
            .and_then(|s| s.parse::<f64>().ok())
            .unwrap_or(1.0);
        let only = std::env::var("PBT_SUB").ok();
        *GLOBAL.lock().unwrap() = Some((prop.to_string(), verif.clone()));
        let _ = now_s();
        install_hook();
        let _ = std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = now_s();
            for b in BUSY.iter() {
                let mut g = b.lock().unwrap();
                if let Some(b) = g.as_mut() {
                    let cpu = cpu_s(b.clock);
                    let limit = if b.clock == libc::CLOCK_PROCESS_CPUTIME_ID {
                        HANG_CPU_SERIAL_S
                    } else {
                        HANG_CPU_S
                    };
                    if b.start.is_nan() {
                        b.start = cpu;
                        b.process = cpu_s(libc::CLOCK_PROCESS_CPUTIME_ID);
                        b.wall = now;
                    } else if cpu - b.start > limit {
                        die_hang(g.take().unwrap());
                    } else if now > b.wall + HANG_WALL_S
                        && cpu_s(libc::CLOCK_PROCESS_CPUTIME_ID) - b.process > 0.5 * HANG_WALL_S as f64
                    {
                        // the worker waits for threads of the code under test
                        die_hang(g.take().unwrap());
                    }
                }
            }
            for s in SLOTS.iter() {
                let t = s.load(Ordering::Relaxed);
                if t != 0 && now + 1 > t + WATCHDOG_S {
                    eprintln!("ERROR: a case ran longer than {WATCHDOG_S} s; no verdict");
                    unsafe { libc::_exit(4) }
                }
            }
        });
        let known: Vec<Finding> = known::load(&verif.join("known_findings.txt"))
            .into_iter()
            .filter(|f| f.property == prop)
            .collect();
        let listed = known.iter().map(|k| k.key.clone()).collect();
        let threads = std::env::var("PBT_THREADS")
            .ok()
            .and_then(|s| s.parse::<usize>().ok())
            .or_else(|| std::thread::available_parallelism().ok().map(|n| n.get()))
            .unwrap_or(8)
            .clamp(1, 32);
        Ctx {
            prop,
            rule,
            tier,
            seed,
            mult,
            only,
            replay,
            replay_hit: false,
            verif,
            stats: vec![],
            failures: vec![],
            known,
            listed,
            assumptions: vec![],
            start: Instant::now(),
            threads,
            stack: 16 << 20,
        }
    }

    pub fn tier(&self) -> Tier {
        self.tier
    }
    /// One case at a time: for checks whose code under test brings its own
    /// threads (all of which are then charged to that case).
    pub fn serial(&mut self) {
        // (rayon's workers have stacks of their own)
        self.threads = 1;
        SERIAL.store(true, Ordering::Relaxed);
    }
    /// The stack size of the threads the following sub-checks run on.
    pub fn stack(&mut self, bytes: usize) {
        self.stack = bytes;
    }
    pub fn verif(&self) -> &std::path::Path {
        &self.verif
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// One named sub-check: `quick` generated cases, [`THOROUGH`] times as many
    /// in the thorough tier.
    pub fn sub<C, S, M, F>(&mut self, name: &str, quick: u64, strategy: M, check: F)
    where
        C: Debug + Clone + Serialize + DeserializeOwned + Sync,
        S: Strategy<Value = C>,
        M: Fn() -> S + Sync,
        F: Fn(&C, &mut Rec) -> Result<(), String> + Sync,
    {
        if let Some((sub, case)) = &self.replay {
            if sub != name {
                return;
            }
            self.replay_hit = true;
            let case: C = serde_json::from_value(case.clone()).expect("replay case");
            println!("replaying {}/{name}: {case:?}", self.prop);
            let mut rec = Rec {
                listed: self.listed.clone(),
                ..Rec::default()
            };
            let mut go = || {
                CASE_SUB.with(|s| *s.borrow_mut() = name.to_string());
                SLOT.with(|s| s.set(0));
                alt_stack();
                eval(&check, &case, &mut rec)
            };
            let r = std::thread::scope(|sc| {
                std::thread::Builder::new().stack_size(self.stack).spawn_scoped(sc, &mut go).expect("spawn").join()
            })
            .expect("replay");
            let mut st = SubStats::default();
            st.evaluations = 1;
            match r {
                Ok(()) => println!("  holds (findings shown: {:?})", rec.findings),
                Err(message) => {
                    println!("  {message}");
                    self.failures.push(Failure {
                        sub: name.into(),
                        case: serde_json::to_value(&case).unwrap(),
                        message,
                    });
                }
            }
            self.stats.push((name.into(), st));
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        let total = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => quick * THOROUGH,
        };
        let total = ((total as f64 * self.mult).ceil() as u64).max(SHARDS as u64);
        let per = total.div_ceil(SHARDS as u64);
        let next = AtomicUsize::new(0);
        let min_fail = AtomicUsize::new(usize::MAX);
        let fails: Mutex<Vec<(usize, Failure)>> = Mutex::new(vec![]);
        let merged: Mutex<Vec<(usize, SubStats)>> = Mutex::new(vec![]);
        let t0 = Instant::now();
        let worker = |slot: usize| {
            SLOT.with(|s| s.set(slot));
            alt_stack();
            CASE_SUB.with(|s| *s.borrow_mut() = name.to_string());
            loop {
                let shard = next.fetch_add(1, Ordering::Relaxed);
                if shard >= SHARDS {
                    break;
                }
                let mut st = SubStats::default();
                let cfg = Config {
                    failure_persistence: None,
                    max_shrink_iters: MAX_SHRINK as u32,
                    ..Config::default()
                };
                let rng = TestRng::from_seed(
                    RngAlgorithm::ChaCha,
                    &seed_bytes(self.seed, self.prop, name, shard),
                );
                let mut runner = TestRunner::new_with_rng(cfg, rng);
                let strat = strategy();
                for i in 0..per {
                    if min_fail.load(Ordering::Relaxed) < shard {
                        break;
                    }
                    let mut tree = strat
                        .new_tree(&mut runner)
                        .expect("strategy rejected too much");
                    let case = tree.current();
                    let mut rec = Rec {
                        listed: self.listed.clone(),
                        ..Rec::default()
                    };
                    let r = eval(&check, &case, &mut rec);
                    st.evaluations += 1;
                    for l in &rec.labels {
                        *st.labels.entry(l).or_insert(0) += 1;
                    }
                    for (l, n) in &rec.counts {
                        *st.counts.entry(l).or_insert(0) += n;
                    }
                    for f in &rec.findings {
                        *st.findings.entry(f.clone()).or_insert(0) += 1;
                    }
                    if rec.nontrivial {
                        let b = serde_json::to_vec(&case).unwrap_or_default();
                        if st.nontrivial.len() < MAX_DISTINCT {
                            let _ = st.nontrivial.insert(fnv(&b, 0xcbf29ce484222325));
                        }
                        if shard == 0 && st.samples.len() < 2 && (i % 7 == 3) && b.len() < 1500 {
                            st.samples.push(serde_json::to_value(&case).unwrap());
                        }
                    }
                    if let Err(message) = r {
                        let _ = min_fail.fetch_min(shard, Ordering::Relaxed);
                        let mut best = (case, message);
                        let mut iters = 0;
                        // the verdict is already known
                        let (t_fail, patience) = (Instant::now(), if self.failures.len() < 3 { 60 } else { 10 });
                        if tree.simplify() {
                            loop {
                                iters += 1;
                                if iters > MAX_SHRINK || t_fail.elapsed().as_secs() > patience {
                                    break;
                                }
                                let c = tree.current();
                                let mut rec = Rec {
                                    listed: self.listed.clone(),
                                    ..Rec::default()
                                };
                                match eval(&check, &c, &mut rec) {
                                    Err(m) => {
                                        best = (c, m);
                                        if !tree.simplify() {
                                            break;
                                        }
                                    }
                                    Ok(()) => {
                                        if !tree.complicate() {
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        fails.lock().unwrap().push((
                            shard,
                            Failure {
                                sub: name.to_string(),
                                case: serde_json::to_value(&best.0).unwrap(),
                                message: best.1,
                            },
                        ));
                        break;
                    }
                }
                merged.lock().unwrap().push((shard, st));
            }
        };
        std::thread::scope(|sc| {
            for slot in 0..self.threads {
                let w = &worker;
                let _ = std::thread::Builder::new()
                    .stack_size(self.stack)
                    .spawn_scoped(sc, move || w(slot))
                    .expect("spawn");
            }
        });
        let mut all = merged.into_inner().unwrap();
        all.sort_by_key(|x| x.0);
        let mut tot = SubStats::default();
        for (_, s) in all {
            tot.evaluations += s.evaluations;
            tot.nontrivial.extend(s.nontrivial);
            for (k, v) in s.labels {
                *tot.labels.entry(k).or_insert(0) += v;
            }
            for (k, v) in s.counts {
                *tot.counts.entry(k).or_insert(0) += v;
            }
            for (k, v) in s.findings {
                *tot.findings.entry(k).or_insert(0) += v;
            }
            tot.samples.extend(s.samples);
        }
        println!(
            "  {}/{name}: {} cases, {} distinct non-trivial, {:.1}s {:?}",
            self.prop,
            tot.evaluations,
            tot.nontrivial.len(),
            t0.elapsed().as_secs_f64(),
            tot.labels
        );
        self.stats.push((name.to_string(), tot));
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|f| f.0);
        if let Some((_, f)) = fails.into_iter().next() {
            println!("  FAIL {}/{name}: {}", self.prop, f.message);
            println!("       case {}", f.case);
            self.failures.push(f);
        }
    }

    /// A listed finding, re-demonstrated on its specific input on every run.
    pub fn show_finding(&mut self, key: &str, still_fails: impl FnOnce() -> bool) {
        if self.replay.is_some() {
            return;
        }
        let Some(k) = self.known.iter().find(|k| k.key == key) else {
            return;
        };
        let fails = catch_unwind(AssertUnwindSafe(still_fails)).unwrap_or(true);
        if fails {
            println!("KNOWN-FINDING: property={} {} {}", self.prop, k.key, k.text);
        } else {
            println!("note: listed finding {key} did not reproduce");
        }
    }

    pub fn finish(self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        if self.replay.is_some() {
            if !self.replay_hit {
                eprintln!("ERROR: no such sub-check");
                std::process::exit(2);
            }
            if let Some(f) = self.failures.first() {
                let p = std::env::args().nth(2).unwrap_or_default();
                let _ = f;
                println!("VIOLATION property={} replay={}", self.prop, p);
                std::process::exit(1);
            }
            std::process::exit(0);
        }
        let evals: u64 = self.stats.iter().map(|s| s.1.evaluations).sum();
        let nontriv: u64 = self.stats.iter().map(|s| s.1.nontrivial.len() as u64).sum();
        let mut samples = vec![];
        let mut subs = serde_json::Map::new();
        for (n, s) in &self.stats {
            for x in s.samples.iter().take(2) {
                samples.push(json!({"sub": n, "case": x}));
            }
            let _ = subs.insert(
                n.clone(),
                json!({"evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial.len(),
                    "classes": s.labels, "counts": s.counts, "known_findings_seen": s.findings}),
            );
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nontriv,
                "rule": self.rule,
                "samples": samples,
                "sub_checks": subs,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.failures.len(),
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        ) {
            eprintln!("ERROR: cannot write evidence: {e}");
            std::process::exit(5);
        }
        println!(
            "{}: {evals} evaluations, {nontriv} distinct non-trivial, {wall:.1}s",
            self.prop
        );
        if self.failures.is_empty() {
            println!("OK property={}", self.prop);
            std::process::exit(0);
        }
        for f in &self.failures {
            let p = write_replay(&self.verif, self.prop, f);
            println!("VIOLATION property={} replay={}", self.prop, p.display());
        }
        std::process::exit(1);
    }
}
