//! One simulated run: choices, event log, statistics, verdict.

use crate::env::{alloc, sink, InjectedPanic};
use crate::rng::{hash_str, mix, Source};
use std::any::Any;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Violation>;

pub struct Ctx {
    pub src: Source,
    pub verbose: bool,
    pub log: Vec<String>,
    /// Hash of the shape of the run: operations, outcomes, fault positions, schedule.
    pub shape: u64,
    /// Injected and actually fired faults.
    pub faults: Vec<(&'static str, u32)>,
    /// Rare conditions reached.
    pub probes: Vec<(&'static str, u32)>,
    pub steps: u64,
    pub ops: u32,
    /// Hashes of what was observed (C22): with any feature set, and with owned types only.
    pub seen: [u64; 2],
    /// Generate very long values now and then.
    pub long_values: bool,
}

fn bump(v: &mut Vec<(&'static str, u32)>, k: &'static str, n: u32) {
    for e in v.iter_mut() {
        if e.0 == k {
            e.1 += n;
            return;
        }
    }
    v.push((k, n));
}

impl Ctx {
    pub fn new(src: Source, verbose: bool) -> Self {
        Ctx {
            src,
            verbose,
            log: Vec::new(),
            shape: 0,
            faults: Vec::new(),
            probes: Vec::new(),
            steps: 0,
            ops: 0,
            seen: [0; 2],
            long_values: false,
        }
    }
    pub fn below(&mut self, n: u32) -> u32 {
        self.src.below(n)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        // Zero (the simplest choice) means "no".
        self.src.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.src.below(v.len() as u32) as usize;
        &v[i]
    }
    pub fn fault(&mut self, k: &'static str) {
        bump(&mut self.faults, k, 1);
        self.shape = mix(self.shape ^ hash_str(k));
    }
    pub fn probe(&mut self, k: &'static str) {
        bump(&mut self.probes, k, 1);
    }
    pub fn shape(&mut self, k: u64) {
        self.shape = mix(self.shape ^ mix(k));
    }
    /// A step of the history.
    pub fn op(&mut self, k: &'static str) {
        self.ops += 1;
        self.steps += 1;
        self.shape = mix(self.shape ^ hash_str(k));
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
    /// Observed behaviour that must not depend on the feature set.
    pub fn see(&mut self, s: &str) {
        self.seen[0] = mix(self.seen[0] ^ hash_str(s));
        self.note(|| s.to_string());
    }
    pub fn see_alloc(&mut self, s: &str) {
        self.seen[1] = mix(self.seen[1] ^ hash_str(s));
        self.note(|| format!("[alloc] {s}"));
    }
    /// Where allocation fails during the next armed call.
    pub fn alloc_plan(&mut self) -> alloc::Plan {
        use alloc::Plan::*;
        match self.below(6) {
            0 => Never,
            1 => Mask(1 << self.below(4)),
            2 => From(0),
            3 => Mask(self.below(64) as u64),
            4 => From(self.below(6)),
            _ => Larger(self.below(80)),
        }
    }
    /// Runs fallible library code with that plan in force.
    pub fn armed<T>(&mut self, plan: alloc::Plan, f: impl FnOnce() -> T) -> (T, alloc::Ledger) {
        let (r, l) = alloc::with_plan(plan, f);
        self.steps += l.attempts as u64;
        for _ in 0..l.failed {
            self.fault(match plan {
                alloc::Plan::Never => unreachable!(),
                alloc::Plan::Mask(_) => "alloc_single_or_several",
                alloc::Plan::From(_) => "alloc_out_of_memory",
                alloc::Plan::Larger(_) => "alloc_too_large",
            });
        }
        self.shape(l.attempts as u64);
        (r, l)
    }
    /// Records what a sink did.
    pub fn sink_done(&mut self, s: &sink::Sink) {
        self.steps += s.writes as u64;
        if s.failed {
            self.fault(s.plan.name());
            self.shape(s.writes as u64);
        }
    }
}

pub fn vio<T>(class: &str, msg: String) -> Res<T> {
    Err(Violation { class: class.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::ctx::Violation { class: ($class).to_string(), msg: format!($($arg)*) });
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $class:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::ctx::Violation {
                class: ($class).to_string(),
                msg: format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b),
            });
        }
    }};
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::env::alloc::suspended(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let harness = loc.starts_with("src/");
            let text = format!("{m} at {loc}");
            if harness && std::env::var_os("SIM_BT").is_some() {
                eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
            }
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = text);
        })
    }));
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Outcome<T> {
    Done(T),
    /// Unwound because of a panic the simulator injected.
    Injected,
}

/// Calls into the library. A panic which was not injected is a violation.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Res<Outcome<T>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(Outcome::Done(v)),
        Err(e) => {
            if e.is::<InjectedPanic>() {
                Ok(Outcome::Injected)
            } else {
                Err(panic_violation(what, e))
            }
        }
    }
}

/// Same, where nothing injects panics.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match guarded(what, f)? {
        Outcome::Done(v) => Ok(v),
        Outcome::Injected => panic!("harness: injected panic out of place in {what}"),
    }
}

pub fn panic_violation(what: &str, e: Box<dyn Any + Send>) -> Violation {
    if let Some(h) = e.downcast_ref::<HarnessBug>() {
        std::panic::panic_any(h.clone());
    }
    let m = LAST_PANIC.with(|l| l.borrow().clone());
    if let Some(i) = m.rfind(" at ") {
        if m.starts_with("harness:") {
            // The simulator itself is wrong, not the code under test.
            std::panic::panic_any(HarnessBug(m));
        }
        if m[i + 4..].starts_with("src/") {
            // The simulator took a result for granted (unwrap, index): the library gave
            // something which it never gives.
            return Violation { class: "unexpected result".into(), msg: format!("{what}: {m}") };
        }
    }
    Violation { class: format!("panic in {what}"), msg: format!("{what} panicked: {m}") }
}

#[derive(Clone)]
pub struct HarnessBug(pub String);

/// Aggregated over the runs of a worker.
#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub ops: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub shapes: HashSet<u64>,
    pub faulted_runs: u64,
}
impl Stats {
    pub fn add(&mut self, c: &Ctx) {
        self.runs += 1;
        self.steps += c.steps;
        self.ops += c.ops as u64;
        for (k, n) in &c.faults {
            *self.faults.entry(k).or_default() += *n as u64;
        }
        for (k, n) in &c.probes {
            *self.probes.entry(k).or_default() += *n as u64;
        }
        if !c.faults.is_empty() {
            self.faulted_runs += 1;
        }
        if c.ops >= 2 || !c.faults.is_empty() {
            self.nontrivial += 1;
            // Bounded memory: what does not fit is not counted as distinct.
            if self.shapes.len() < 12_000_000 {
                self.shapes.insert(c.shape);
            }
        }
    }
}
