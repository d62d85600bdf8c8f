//! The engine: drives generators and checks over many cases on all cores,
//! shrinks failures, records statistics, samples and replay files.

use crate::oracle::Fonts;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check reports about one case besides pass or fail
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// The case is outside of the property (why); counted, not judged
    pub excluded: Option<&'static str>,
    /// For a case that stands for a whole range: how many inputs it covered
    pub inner: u64,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
}

pub type Res = Result<(), String>;

#[derive(Default)]
struct Stats {
    evaluations: u64,
    excluded: BTreeMap<&'static str, u64>,
    labels: BTreeMap<String, u64>,
    phases: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    samples: Vec<serde_json::Value>,
    /// How many non-trivial cases each phase has had
    sampled: BTreeMap<String, u64>,
    exhaustive: Vec<String>,
    enumerated: u64,
}

#[derive(Clone, Serialize, serde::Deserialize)]
pub struct Failure {
    pub property: String,
    pub phase: String,
    pub message: String,
    pub case: serde_json::Value,
    #[serde(default)]
    pub profile: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub scale: f64,
    pub threads: usize,
    pub profile: String,
    pub fonts: Arc<Fonts>,
    pub repo: PathBuf,
    pub out_dir: PathBuf,
    pub replay: Option<Failure>,
    pub replayed: AtomicBool,
    stats: Mutex<Stats>,
    pub failure: Mutex<Option<Failure>>,
    pub known: Mutex<Vec<String>>,
    pub rule: Mutex<String>,
    pub notes: Mutex<Vec<String>>,
    stop: AtomicBool,
    slots: Vec<Slot>,
}

/// Where one worker announces what it is working on: for the watchdog, and (in a
/// mapped file that outlives the process) for finding the case after a crash
struct Slot {
    thread: AtomicU64,
    case_start_ns: AtomicU64,
    mem: *mut u8,
}
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

const SLOT_LEN: usize = 1 << 20;
/// CPU time limit of a single case (they take micro- to milliseconds)
const CASE_CPU_NS: u64 = 20_000_000_000;

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}

fn thread_cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0;
        }
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run code under test; a panic in it is a failure of the property being checked
pub fn imp<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("the library panicked: {}", last_panic()))
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, scale: f64, profile: &str, fonts: Arc<Fonts>, repo: PathBuf, out_dir: PathBuf, replay: Option<Failure>) -> Ctx {
        let threads = std::env::var("PBT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        let mut slots = vec![];
        for i in 0..threads {
            let path = out_dir.join(format!("journal-{}", i));
            let mem = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(&path)
                .and_then(|f| {
                    f.set_len(SLOT_LEN as u64)?;
                    use std::os::unix::io::AsRawFd;
                    let p = unsafe {
                        libc::mmap(std::ptr::null_mut(), SLOT_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
                    };
                    if p == libc::MAP_FAILED {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(p as *mut u8)
                })
                .unwrap_or(std::ptr::null_mut());
            slots.push(Slot { thread: AtomicU64::new(0), case_start_ns: AtomicU64::new(0), mem });
        }
        Ctx {
            id: id.to_string(),
            tier,
            seed,
            scale,
            threads,
            profile: profile.to_string(),
            fonts,
            repo,
            out_dir,
            replay,
            replayed: AtomicBool::new(false),
            stats: Mutex::new(Stats::default()),
            failure: Mutex::new(None),
            known: Mutex::new(vec![]),
            rule: Mutex::new(String::new()),
            notes: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            slots,
        }
    }

    pub fn rule(&self, r: &str) {
        *self.rule.lock().unwrap() = r.to_string();
    }

    pub fn note(&self, s: String) {
        self.notes.lock().unwrap().push(s);
    }

    pub fn exhaustive(&self, what: &str) {
        self.stats.lock().unwrap().exhaustive.push(what.to_string());
    }

    /// Number of cases for this tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.tier == Tier::Quick { quick } else { thorough };
        ((n as f64 * self.scale) as u64).max(1)
    }

    pub fn failed(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    fn announce(&self, slot: usize, phase: &str, json: &[u8]) {
        let s = &self.slots[slot];
        if !s.mem.is_null() {
            let head = format!("{{\"property\":{:?},\"message\":\"\",\"profile\":{:?},\"phase\":{:?},\"case\":", self.id, self.profile, phase);
            let total = head.len() + json.len() + 1;
            if total + 1 < SLOT_LEN {
                unsafe {
                    std::ptr::copy_nonoverlapping(head.as_ptr(), s.mem, head.len());
                    std::ptr::copy_nonoverlapping(json.as_ptr(), s.mem.add(head.len()), json.len());
                    *s.mem.add(head.len() + json.len()) = b'}';
                    *s.mem.add(total) = 0;
                }
            }
        }
        s.case_start_ns.store(thread_cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID) + 1, Ordering::Release);
    }

    fn retire(&self, slot: usize) {
        let s = &self.slots[slot];
        s.case_start_ns.store(0, Ordering::Release);
        if !s.mem.is_null() {
            unsafe { *s.mem = 0 };
        }
    }

    pub fn fail(&self, f: Failure) {
        self.stop.store(true, Ordering::Relaxed);
        let mut g = self.failure.lock().unwrap();
        if g.is_none() {
            *g = Some(f);
        }
    }

    /// Judge one case. Err is a failure of the property.
    fn judge<C: Serialize>(&self, slot: usize, phase: &str, case: &C, count: bool, check: &(impl Fn(&C, &mut Obs) -> Res + Sync)) -> Res {
        let json = serde_json::to_vec(case).expect("case serialises");
        self.announce(slot, phase, &json);
        let mut obs = Obs::default();
        let r = catch_unwind(AssertUnwindSafe(|| check(case, &mut obs)));
        self.retire(slot);
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                eprintln!("HARNESS-ERROR property={} phase={} {} case={}", self.id, phase, last_panic(), String::from_utf8_lossy(&json));
                std::process::exit(3);
            }
        };
        if count {
            let mut st = self.stats.lock().unwrap();
            let n = obs.inner.max(1);
            st.evaluations += n;
            *st.phases.entry(phase.to_string()).or_default() += n;
            for l in &obs.labels {
                *st.labels.entry(l.to_string()).or_default() += 1;
            }
            if let Some(e) = obs.excluded {
                *st.excluded.entry(e).or_default() += 1;
            } else if obs.inner > 0 {
                st.enumerated += n;
            } else if obs.nontrivial {
                let new = st.nontrivial.insert(hash64(&json) ^ hash64(phase.as_bytes()));
                let k = st.sampled.entry(phase.to_string()).or_default();
                *k += new as u64;
                if new && [2, 40, 1000].contains(k) && st.samples.len() < 9 {
                    // Large cases (whole sets of font sources) are shown by their beginning
                    let v: serde_json::Value = if json.len() < 4000 { serde_json::from_slice(&json).unwrap() } else { String::from_utf8_lossy(&json[..2000]).into_owned().into() };
                    st.samples.push(serde_json::json!({"phase": phase, "case": v, "bytes": json.len(), "labels": obs.labels}));
                }
            }
        }
        r
    }

    /// Replay mode: judge the recorded case if it belongs to this phase
    fn try_replay<C: Serialize + DeserializeOwned>(&self, phase: &str, check: &(impl Fn(&C, &mut Obs) -> Res + Sync)) -> bool {
        let f = match &self.replay {
            None => return false,
            Some(f) => f,
        };
        if f.phase == phase {
            let case: C = serde_json::from_value(f.case.clone()).expect("replay file fits the phase");
            self.replayed.store(true, Ordering::Relaxed);
            self.slots[0].thread.store(unsafe { libc::pthread_self() } as u64, Ordering::Release);
            if let Err(m) = self.judge(0, phase, &case, true, check) {
                self.fail(Failure { message: m, ..f.clone() });
            }
        }
        true
    }

    /// Random search: n cases of the strategy, sharded over threads, failures shrunk
    pub fn prop<C, S>(&self, phase: &str, n: u64, strat: impl Fn() -> S + Sync, check: impl Fn(&C, &mut Obs) -> Res + Sync)
    where
        C: Serialize + DeserializeOwned + Debug + Clone,
        S: Strategy<Value = C>,
    {
        self.prop_shrink(phase, n, self.threads, 20_000, 30_000, strat, check)
    }

    pub fn prop_shrink<C, S>(&self, phase: &str, n: u64, threads: usize, shrink_iters: u32, shrink_ms: u32, strat: impl Fn() -> S + Sync, check: impl Fn(&C, &mut Obs) -> Res + Sync)
    where
        C: Serialize + DeserializeOwned + Debug + Clone,
        S: Strategy<Value = C>,
    {
        if self.try_replay(phase, &check) || self.failed() {
            return;
        }
        let threads = threads.min(self.threads);
        let per = (n + threads as u64 - 1) / threads as u64;
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (strat, check) = (&strat, &check);
                let first = (t as u64 * per).min(n);
                let count = per.min(n - first);
                let body = move || {
                    self.slots[t].thread.store(unsafe { libc::pthread_self() } as u64, Ordering::Release);
                    let key = format!("{}/{}/{}/{}/{}", self.seed, self.id, phase, t, self.profile);
                    let mut seed = [0u8; 32];
                    for (i, c) in seed.chunks_mut(8).enumerate() {
                        c.copy_from_slice(&hash64(format!("{}#{}", key, i).as_bytes()).to_le_bytes());
                    }
                    let mut done = 0u64;
                    // Batches keep the search alive under every case count
                    let cfg = Config {
                        cases: count.min(u32::MAX as u64) as u32,
                        failure_persistence: None,
                        max_shrink_iters: shrink_iters,
                        max_shrink_time: shrink_ms,
                        max_global_rejects: u32::MAX,
                        max_local_rejects: u32::MAX,
                        ..Config::default()
                    };
                    if cfg.cases == 0 {
                        return;
                    }
                    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                    let failing = std::cell::Cell::new(false);
                    let msg = std::cell::RefCell::new(String::new());
                    let r = runner.run(&strat(), |case| {
                        if !failing.get() && self.failed() {
                            // Another thread has found a failure: skip the rest
                            return Ok(());
                        }
                        let r = self.judge(t, phase, &case, !failing.get(), check);
                        match r {
                            Ok(()) => Ok(()),
                            Err(m) => {
                                failing.set(true);
                                *msg.borrow_mut() = m.clone();
                                self.stop.store(true, Ordering::Relaxed);
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    done += 1;
                    let _ = done;
                    match r {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, case)) => self.fail(Failure {
                            property: self.id.clone(),
                            phase: phase.to_string(),
                            message: reason.message().to_string(),
                            case: serde_json::to_value(&case).unwrap(),
                            profile: self.profile.clone(),
                        }),
                        Err(TestError::Abort(r)) => {
                            eprintln!("HARNESS-ERROR property={} phase={} aborted: {}", self.id, phase, r);
                            std::process::exit(3);
                        }
                    }
                    self.slots[t].thread.store(0, Ordering::Release);
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, body).expect("spawn");
            }
        });
    }

    /// Judge every listed case (exhaustive enumerations, regression cases)
    pub fn each<C>(&self, phase: &str, cases: Vec<C>, check: impl Fn(&C, &mut Obs) -> Res + Sync)
    where
        C: Serialize + DeserializeOwned + Debug + Clone + Sync,
    {
        self.each_shrink(phase, cases, |_| vec![], check)
    }

    /// As each; smaller(case) lists simpler cases to try when a case fails
    pub fn each_shrink<C>(&self, phase: &str, cases: Vec<C>, smaller: impl Fn(&C) -> Vec<C> + Sync, check: impl Fn(&C, &mut Obs) -> Res + Sync)
    where
        C: Serialize + DeserializeOwned + Debug + Clone + Sync,
    {
        if self.try_replay(phase, &check) || self.failed() {
            return;
        }
        let next = AtomicU64::new(0);
        let chunk = (cases.len() / self.threads / 4).clamp(1, 16);
        std::thread::scope(|sc| {
            for t in 0..self.threads {
                let (check, cases, next, smaller) = (&check, &cases, &next, &smaller);
                let body = move || {
                    self.slots[t].thread.store(unsafe { libc::pthread_self() } as u64, Ordering::Release);
                    loop {
                        let i = next.fetch_add(chunk as u64, Ordering::Relaxed) as usize;
                        if i >= cases.len() || self.failed() {
                            break;
                        }
                        for c in &cases[i..(i + chunk).min(cases.len())] {
                            if let Err(m) = self.judge(t, phase, c, true, check) {
                                let (mut c, mut m) = (c.clone(), m);
                                let mut budget = 20_000;
                                'shrink: while budget > 0 {
                                    for d in smaller(&c) {
                                        budget -= 1;
                                        if let Err(e) = self.judge(t, phase, &d, false, check) {
                                            c = d;
                                            m = e;
                                            continue 'shrink;
                                        }
                                    }
                                    break;
                                }
                                self.fail(Failure {
                                    property: self.id.clone(),
                                    phase: phase.to_string(),
                                    message: m,
                                    case: serde_json::to_value(&c).unwrap(),
                                    profile: self.profile.clone(),
                                });
                                break;
                            }
                        }
                    }
                    self.slots[t].thread.store(0, Ordering::Release);
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, body).expect("spawn");
            }
        });
    }

    /// Ends the process when a single case uses too much CPU time: a call that
    /// does not finish has no result, whatever the property asks of it
    pub fn spawn_watchdog(self: &Arc<Ctx>, started: Instant) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in &me.slots {
                let th = s.thread.load(Ordering::Acquire);
                let st = s.case_start_ns.load(Ordering::Acquire);
                if th == 0 || st == 0 {
                    continue;
                }
                let mut clock: libc::clockid_t = 0;
                if unsafe { libc::pthread_getcpuclockid(th as libc::pthread_t, &mut clock) } != 0 {
                    continue;
                }
                let now = thread_cpu_ns(clock);
                if s.case_start_ns.load(Ordering::Acquire) == st && now > st + CASE_CPU_NS {
                    let mut f = None;
                    if !s.mem.is_null() {
                        let b = unsafe { std::slice::from_raw_parts(s.mem, SLOT_LEN) };
                        let n = b.iter().position(|c| *c == 0).unwrap_or(0);
                        f = serde_json::from_slice::<Failure>(&b[..n]).ok();
                    }
                    let f = f.unwrap_or(Failure {
                        property: me.id.clone(),
                        phase: "?".into(),
                        message: String::new(),
                        case: serde_json::Value::Null,
                        profile: me.profile.clone(),
                    });
                    me.fail(Failure { message: "no result after 20 s of CPU time".into(), ..f });
                    let code = me.report(started);
                    std::process::exit(code);
                }
            }
        });
    }

    /// Write result.json (and the set of case hashes) into the output directory
    pub fn report(&self, started: Instant) -> i32 {
        let st = self.stats.lock().unwrap();
        let fail = self.failure.lock().unwrap().clone();
        let mut hashes: Vec<u8> = Vec::with_capacity(st.nontrivial.len() * 8);
        for h in &st.nontrivial {
            hashes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(self.out_dir.join("hashes.bin"), hashes).expect("write hashes");
        let v = serde_json::json!({
            "property": self.id,
            "profile": self.profile,
            "evaluations": st.evaluations,
            "distinct_hashed": st.nontrivial.len(),
            "distinct_enumerated": st.enumerated,
            "excluded": st.excluded,
            "labels": st.labels,
            "phases": st.phases,
            "samples": st.samples,
            "exhaustive": st.exhaustive,
            "rule": *self.rule.lock().unwrap(),
            "notes": *self.notes.lock().unwrap(),
            "known": *self.known.lock().unwrap(),
            "failure": fail,
            "wall_s": started.elapsed().as_secs_f64(),
        });
        std::fs::write(self.out_dir.join("result.json"), serde_json::to_string_pretty(&v).unwrap()).expect("write result");
        if fail.is_some() {
            1
        } else {
            0
        }
    }
}
