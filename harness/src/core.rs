//! Exploration engine: deterministic, exhaustive case enumeration over worker
//! threads, panic capture, watchdog, crash attribution, evidence and replay.

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub what: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.states.extend(o.states);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("fcb_core/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let short: String = msg.chars().take(300).collect();
        if !IN_CASE.with(|c| c.get()) {
            eprintln!("panic outside a case: {short} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{short} [{loc}]")));
    }));
}

/// Runs `f`, turning a panic into `Err("panicked: ...")`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(prev));
    r.map_err(|_| {
        let m = LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into());
        format!("panicked: {m}")
    })
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const SLOT: usize = 512;

/// Current case per worker, in a shared memory mapping that the supervising
/// process can still read after the exploring process died.
pub struct Slots {
    ptr: AtomicPtr<u8>,
    pub n: usize,
    started: Vec<AtomicU64>,
    t0: Instant,
}

impl Slots {
    pub fn new(ptr: *mut u8, n: usize) -> Slots {
        Slots {
            ptr: AtomicPtr::new(ptr),
            n,
            started: (0..n).map(|_| AtomicU64::new(0)).collect(),
            t0: Instant::now(),
        }
    }
    pub fn bytes(n: usize) -> usize {
        n * SLOT
    }
    fn set(&self, tid: usize, id: &str) {
        let p = self.ptr.load(Ordering::Relaxed);
        if p.is_null() {
            return;
        }
        let b = id.as_bytes();
        let l = b.len().min(SLOT - 3);
        unsafe {
            let base = p.add(tid * SLOT);
            std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(2), l);
            *(base as *mut u16) = l as u16;
        }
        self.started[tid].store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    }
    fn clear(&self, tid: usize) {
        let p = self.ptr.load(Ordering::Relaxed);
        if !p.is_null() {
            unsafe { *(p.add(tid * SLOT) as *mut u16) = 0 };
        }
        self.started[tid].store(0, Ordering::Relaxed);
    }
    pub fn read(ptr: *const u8, n: usize) -> Vec<String> {
        (0..n)
            .filter_map(|i| unsafe {
                let base = ptr.add(i * SLOT);
                let l = *(base as *const u16) as usize;
                if l == 0 || l > SLOT - 2 {
                    return None;
                }
                let s = std::slice::from_raw_parts(base.add(2), l);
                Some(String::from_utf8_lossy(s).into_owned())
            })
            .collect()
    }
}

pub struct Known {
    /// (case prefix or "*", substring of the description, id)
    pub entries: Vec<(String, String, String)>,
}

pub struct Ctx {
    pub tier: Tier,
    pub tid: usize,
    pub nthreads: usize,
    counter: u64,
    only: Option<String>,
    pub stats: Stats,
    slots: Arc<Slots>,
    known: Arc<Known>,
    stop: Arc<AtomicBool>,
    cur: String,
    /// Prefixes of cases that are no cases here.
    pub skip: &'static [&'static str],
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `a` in the quick tier, `b` in the thorough one.
    pub fn t<T>(&self, a: T, b: T) -> T {
        if self.quick() {
            a
        } else {
            b
        }
    }

    /// One case of the enumeration. Every worker walks the whole enumeration and
    /// executes its own residue class, so the set of executed cases is exactly
    /// the enumerated one whatever the number of workers.
    pub fn case<I, F>(&mut self, id: I, f: F)
    where
        I: FnOnce() -> String,
        F: FnOnce(&mut Ctx) -> Result<(), String>,
    {
        let k = self.counter;
        self.counter += 1;
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        if let Some(only) = &self.only {
            if &id() != only {
                return;
            }
            self.run_case(only.clone(), f);
            return;
        }
        if (k % self.nthreads as u64) as usize != self.tid {
            return;
        }
        let id = id();
        if !self.skip.iter().any(|p| id.starts_with(p)) {
            self.run_case(id, f);
        }
    }

    fn run_case<F>(&mut self, id: String, f: F)
    where
        F: FnOnce(&mut Ctx) -> Result<(), String>,
    {
        self.slots.set(self.tid, &id);
        self.cur = id;
        self.stats.evaluations += 1;
        let n0 = self.stats.outcomes.len();
        let r = guarded(|| f(self)).and_then(|r| r);
        self.slots.clear(self.tid);
        let id = std::mem::take(&mut self.cur);
        if self.stats.samples.len() < 8 && (self.stats.samples.is_empty() || self.stats.outcomes.len() > n0)
        {
            self.stats.samples.push(id.clone());
        }
        if let Err(what) = r {
            for (c, w, kid) in &self.known.entries {
                if (c == "*" || id.starts_with(c.as_str())) && what.contains(w.as_str()) {
                    *self.stats.known.entry(kid.clone()).or_default() += 1;
                    return;
                }
            }
            self.stats.violations.push(Violation { case: id, what });
            if self.stats.violations.len() >= 25 && std::env::var_os("FCBMC_ALL").is_none() {
                self.stop.store(true, Ordering::Relaxed);
            }
        }
    }

    /// Visits a state of the explored space (deduplicated by hash).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = hash_of(t);
        self.stats.states.insert(h);
    }
    /// Counts operations applied to the implementation and compared.
    pub fn trans(&mut self, n: u64) {
        self.stats.transitions += n;
    }
    /// Counts a complete run compared with the reference model.
    pub fn trace(&mut self) {
        self.stats.traces += 1;
    }
    pub fn outcome(&mut self, s: &str) {
        match self.stats.outcomes.get_mut(s) {
            Some(n) => *n += 1,
            None => {
                self.stats.outcomes.insert(s.to_string(), 1);
            }
        }
    }
}

pub struct RunOut {
    pub stats: Stats,
    pub wall: f64,
    pub hung: Option<String>,
    pub enumerated: u64,
}

pub type PropFn = fn(&mut Ctx);

pub fn run(
    f: PropFn,
    tier: Tier,
    only: Option<String>,
    slots: Arc<Slots>,
    known: Arc<Known>,
    case_limit: Duration,
) -> RunOut {
    let t0 = Instant::now();
    let n = if only.is_some() { 1 } else { slots.n };
    let stop = Arc::new(AtomicBool::new(false));
    let results: Arc<Mutex<Vec<(Stats, u64)>>> = Arc::default();
    let mut handles = Vec::new();
    for tid in 0..n {
        let (slots, known, stop, only, results) = (
            slots.clone(),
            known.clone(),
            stop.clone(),
            only.clone(),
            results.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ctx = Ctx {
                        tier,
                        tid,
                        nthreads: n,
                        counter: 0,
                        only,
                        stats: Stats::default(),
                        slots,
                        known,
                        stop,
                        cur: String::new(),
                        skip: &[],
                    };
                    f(&mut ctx);
                    results.lock().unwrap().push((ctx.stats, ctx.counter));
                })
                .unwrap(),
        );
    }
    let mut hung = None;
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
        let now = slots.t0.elapsed().as_millis() as u64;
        for i in 0..n {
            let s = slots.started[i].load(Ordering::Relaxed);
            if s != 0 && now.saturating_sub(s) > case_limit.as_millis() as u64 {
                hung = Some(Slots::read(
                    unsafe { slots.ptr.load(Ordering::Relaxed).add(i * SLOT) },
                    1,
                )
                .pop()
                .unwrap_or_default());
            }
        }
        if hung.is_some() {
            break;
        }
    }
    let mut total = Stats::default();
    let mut enumerated = 0;
    if hung.is_none() {
        for h in handles {
            if h.join().is_err() {
                eprintln!("a worker thread failed outside a case");
                std::process::exit(3);
            }
        }
    }
    for (s, c) in results.lock().unwrap().drain(..) {
        enumerated = enumerated.max(c);
        total.merge(s);
    }
    total.violations.sort_by(|a, b| a.case.cmp(&b.case));
    RunOut {
        stats: total,
        wall: t0.elapsed().as_secs_f64(),
        hung,
        enumerated,
    }
}
