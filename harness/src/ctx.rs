//! Case running, verdict bookkeeping and result output.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::{hash_bytes, mix, Rng};

/// Advanced by every case; the watchdog looks only at this.
pub static HEARTBEAT: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
pub struct PanicInfo { pub msg: String, pub file: String, pub line: u32, pub thread: String }

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}
/// Panics on any thread during the current case (pool threads included).
pub static PANICS: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());
static PRINTED: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|pi| {
        let msg = if let Some(s) = pi.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = pi.payload().downcast_ref::<String>() { s.clone() }
            else { "(payload)".to_string() };
        let (file, line) = pi.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let thread = std::thread::current().name().unwrap_or("-").to_string();
        let info = PanicInfo { msg, file, line, thread };
        if std::env::var_os("VH_DEBUG").is_some() {
            eprintln!("panic: {:?}\n{}", info, std::backtrace::Backtrace::force_capture());
        }
        if info.in_harness() { eprintln!("HARNESS-PANIC {}", info.show()); } else if PRINTED.fetch_add(1, SeqCst) < 100 { eprintln!("library {}", info.show()); }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(info.clone()));
        if let Ok(mut v) = PANICS.lock() { if v.len() < 64 { v.push(info); } }
    }));
}

pub fn take_last_panic() -> Option<PanicInfo> { LAST_PANIC.with(|p| p.borrow_mut().take()) }

impl PanicInfo {
    /// Harness sources are compiled with paths relative to the harness
    /// package; everything else is code under test or a dependency.
    pub fn in_harness(&self) -> bool {
        self.file.starts_with("src/") || self.file.contains("/verif/harness/")
    }
    pub fn show(&self) -> String { format!("panic '{}' at {}:{} (thread {})", self.msg, self.file, self.line, self.thread) }
}

/// Payload a mock uses to abort an operation exceeding its step budget.
pub struct StepBudget(pub String);

#[derive(Clone, Debug)]
pub struct Violation { pub scenario: String, pub case: u64, pub what: String, pub detail: String }

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub scratch: PathBuf,
    pub start: Instant,
    pub budget: Duration,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub only: Option<(String, u64)>,
    pub minima: Vec<(String, u64)>,
    pub truncated: bool,
    /// Part of the cases to run, in thousandths; requirements hold for all only.
    pub scale: u64,
    sampled: BTreeMap<String, u32>,
}

/// One execution of a scenario.
pub struct Case<'a> {
    pub rng: Rng,
    pub dir: PathBuf,
    pub thorough: bool,
    pub seed: u64,
    pub index: u64,
    pub trace: Vec<String>,
    pub ctx: &'a mut Shared,
    pub replay: bool,
}

#[derive(Default)]
pub struct Shared {
    pub distinct: Vec<u64>,
    pub counts: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, Vec<u64>>,
}

/// Why a case ended: a refuted property, or trouble in the harness itself.
#[derive(Debug)]
pub enum Stop { Violation(String), Harness(String) }

impl From<std::io::Error> for Stop {
    fn from(e: std::io::Error) -> Stop { Stop::Harness(format!("harness io: {}", e)) }
}

pub type CaseResult = Result<(), Stop>;

pub fn violation<T>(s: impl Into<String>) -> Result<T, Stop> { Err(Stop::Violation(s.into())) }

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err($crate::ctx::Stop::Violation(format!($($a)+))); } };
}

impl<'a> Case<'a> {
    pub fn step(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.replay { eprintln!("  step: {}", s); }
        if self.trace.len() < 400 { self.trace.push(s); }
    }
    /// Declare what makes this case distinct and non-trivial.
    pub fn distinct(&mut self, h: u64) { self.ctx.distinct.push(h); }
    pub fn distinct_str(&mut self, s: &str) { self.ctx.distinct.push(hash_bytes(s.as_bytes())); }
    pub fn count(&mut self, k: &str, n: u64) { *self.ctx.counts.entry(k.to_string()).or_insert(0) += n; }
    pub fn in_set(&mut self, k: &str, h: u64) { self.ctx.sets.entry(k.to_string()).or_default().push(h); }
    pub fn in_set_str(&mut self, k: &str, s: &str) { self.in_set(k, hash_bytes(s.as_bytes())); }
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, scratch: PathBuf, only: Option<(String, u64)>) -> Ctx {
        Ctx {
            prop: prop.to_string(), thorough, seed, scratch,
            start: Instant::now(),
            budget: Duration::from_secs(if thorough { 420 } else { 75 }),
            evals: 0, distinct: HashSet::new(), counters: BTreeMap::new(), sets: BTreeMap::new(),
            samples: Vec::new(), violations: Vec::new(), errors: Vec::new(), only,
            minima: Vec::new(), truncated: false, scale: 1000, sampled: BTreeMap::new(),
        }
    }

    /// The observation is meaningless unless counter `k` reached `n`.
    pub fn require(&mut self, k: &str, n: u64) { if self.scale >= 1000 { self.minima.push((k.to_string(), n)); } }

    pub fn count(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n; }

    pub fn tier(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }

    /// Run `n` cases of a scenario.
    pub fn run(&mut self, scenario: &str, n: u64, mut f: impl FnMut(&mut Case<'_>) -> CaseResult) {
        if let Some((s, _)) = &self.only { if s != scenario { return; } }
        let n = (n * self.scale / 1000).max(1);
        let mut bad = 0;
        let share = Instant::now();
        for i in 0..n {
            let seed = match &self.only {
                Some((_, c)) => *c,
                None => mix(mix(self.seed) ^ hash_bytes(scenario.as_bytes()) ^ mix(i)),
            };
            if self.start.elapsed() > self.budget { self.truncated = true; break; }
            let replay = self.only.is_some();
            self.one(scenario, seed, i, replay, &mut f, &mut bad);
            if replay || (bad >= 3 && self.scale >= 1000) { break; }
        }
        if std::env::var_os("VH_TIMES").is_some() { eprintln!("{}: {:?}", scenario, share.elapsed()); }
    }

    fn one(&mut self, scenario: &str, seed: u64, index: u64, replay: bool,
           f: &mut impl FnMut(&mut Case<'_>) -> CaseResult, bad: &mut u32)
    {
        HEARTBEAT.fetch_add(1, SeqCst);
        crate::watchdog::current(scenario, seed);
        let dir = self.scratch.join("case");
        crate::interpose::quiet(|| {
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).expect("scratch");
        });
        if let Ok(mut p) = PANICS.lock() { p.clear(); }
        let _ = take_last_panic();
        let mut shared = Shared::default();
        let mut case = Case {
            rng: Rng::new(seed), dir, thorough: self.thorough, seed, index,
            trace: Vec::new(), ctx: &mut shared, replay,
        };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        let trace = std::mem::take(&mut case.trace);
        drop(case);
        // One evaluation per declared input, or one for the whole case.
        self.evals += (shared.distinct.len() as u64).max(1);
        for d in shared.distinct { self.distinct.insert(mix(d ^ hash_bytes(scenario.as_bytes()))); }
        for (k, v) in shared.counts { *self.counters.entry(k).or_insert(0) += v; }
        for (k, v) in shared.sets { self.sets.entry(k).or_default().extend(v); }
        *self.counters.entry(format!("cases {}", scenario)).or_insert(0) += 1;
        let outcome = match r {
            Ok(r) => r,
            Err(payload) => Err(classify(payload)),
        };
        match outcome {
            Ok(()) => {
                // A panic swallowed on another thread still counts.
                let lib: Option<PanicInfo> = PANICS.lock().unwrap().iter().find(|p| !p.in_harness() && !EXPECTED.with(|e| e.borrow().iter().any(|x| p.msg.contains(x.as_str())))).cloned();
                if let Some(p) = lib {
                    self.push_violation(scenario, seed, format!("library {}", p.show()), trace);
                    *bad += 1;
                    return;
                }
                let n = self.sampled.entry(scenario.to_string()).or_insert(0);
                if *n < 1 && self.samples.len() < 40 {
                    *n += 1;
                    let mut t = trace.join("; ");
                    if t.len() > 700 { let mut k = 700; while !t.is_char_boundary(k) { k -= 1; } t.truncate(k); t.push_str(" ..."); }
                    self.samples.push(format!("{} case={:#x}: {}", scenario, seed, t));
                }
            }
            Err(Stop::Violation(what)) => { *bad += 1; self.push_violation(scenario, seed, what, trace); }
            Err(Stop::Harness(e)) => {
                if self.errors.len() < 10 { self.errors.push(format!("{} case={:#x}: {} [{}]", scenario, seed, e, trace.join("; "))); }
                *bad += 1;
            }
        }
    }

    pub fn push_violation(&mut self, scenario: &str, case: u64, what: String, trace: Vec<String>) {
        if self.violations.len() < 12 {
            self.violations.push(Violation { scenario: scenario.to_string(), case, what, detail: trace.join("; ") });
        }
    }

    pub fn write_result(&self, path: &Path) -> std::io::Result<()> {
        let mut s = String::new();
        s.push_str("{\n");
        s.push_str(&format!(" \"property\": {},\n \"evaluations\": {},\n \"distinct\": {},\n", js(&self.prop), self.evals, self.distinct.len()));
        s.push_str(&format!(" \"wall_ms\": {},\n \"truncated\": {},\n", self.start.elapsed().as_millis(), self.truncated));
        s.push_str(" \"counters\": {");
        let mut all: Vec<(String, u64)> = self.counters.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (k, v) in &self.sets { all.push((format!("distinct {}", k), v.len() as u64)); }
        s.push_str(&all.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
        s.push_str("},\n \"missing\": [");
        let lookup = |k: &str| all.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0);
        let miss: Vec<String> = self.minima.iter().filter(|(k, n)| lookup(k) < *n)
            .map(|(k, n)| js(&format!("{}: {} < {}", k, lookup(k), n))).collect();
        s.push_str(&miss.join(", "));
        s.push_str("],\n \"samples\": [");
        s.push_str(&self.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n  "));
        s.push_str("],\n \"errors\": [");
        s.push_str(&self.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n  "));
        s.push_str("],\n \"violations\": [");
        s.push_str(&self.violations.iter().map(|v| format!(
            "{{\"scenario\": {}, \"case\": \"{:#x}\", \"what\": {}, \"trace\": {}}}",
            js(&v.scenario), v.case, js(&v.what), js(&v.detail))).collect::<Vec<_>>().join(",\n  "));
        s.push_str("]\n}\n");
        std::fs::write(path, s)
    }
}

thread_local! {
    /// Messages of panics a scenario provokes on purpose.
    pub static EXPECTED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn classify(payload: Box<dyn Any + Send>) -> Stop {
    if let Some(b) = payload.downcast_ref::<StepBudget>() {
        return Stop::Violation(format!("no progress: {}", b.0));
    }
    match take_last_panic() {
        Some(p) if p.in_harness() => Stop::Harness(p.show()),
        Some(p) => Stop::Violation(format!("library {}", p.show())),
        None => Stop::Harness("panic without information".into()),
    }
}

/// Run `f`, turning a library panic into `Err`. Harness panics propagate.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, PanicInfo> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.downcast_ref::<StepBudget>().is_some() { std::panic::resume_unwind(p); }
            match take_last_panic() {
                Some(i) if !i.in_harness() => {
                    if let Ok(mut v) = PANICS.lock() { v.retain(|x| x.msg != i.msg || x.line != i.line); }
                    Err(i)
                }
                _ => std::panic::resume_unwind(p),
            }
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// First difference between two byte strings, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("got {} bytes, want {}; first difference at {}", got.len(), want.len(), i)
}
