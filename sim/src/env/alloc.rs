//! Simulated memory: the process allocator, with failures injected only while armed.
//!
//! All state is thread-local, so runs on different threads do not affect each other, and
//! the harness's own allocations (suspended or outside the armed region) never fail.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Plan {
    /// Count only.
    Never,
    /// Fails the allocations whose index (0..64) is set in the mask.
    Mask(u64),
    /// Fails every allocation from this index on.
    From(u32),
    /// Fails every allocation larger than this many bytes.
    Larger(u32),
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static PLAN: Cell<Plan> = const { Cell::new(Plan::Never) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
    static FAILED: Cell<u32> = const { Cell::new(0) };
    /// Balance of bytes allocated while armed (frees of older memory make it negative).
    static BALANCE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct SimAlloc;

fn should_fail(size: usize) -> bool {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) {
        return false;
    }
    let i = COUNT.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    });
    let f = match PLAN.with(|p| p.get()) {
        Plan::Never => false,
        Plan::Mask(m) => i < 64 && (m >> i) & 1 == 1,
        Plan::From(n) => i >= n,
        Plan::Larger(n) => size > n as usize,
    };
    if f {
        FAILED.with(|c| c.set(c.get() + 1));
    }
    f
}

fn account(delta: i64) {
    if ARMED.try_with(|a| a.get()).unwrap_or(false) {
        let b = BALANCE.with(|b| {
            b.set(b.get() + delta);
            b.get()
        });
        PEAK.with(|p| p.set(p.get().max(b)));
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if should_fail(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        account(l.size() as i64);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if should_fail(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        account(l.size() as i64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if should_fail(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        account(n as i64 - l.size() as i64);
        q
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ledger {
    pub attempts: u32,
    pub failed: u32,
    pub balance: i64,
    /// Highest balance.
    pub peak: i64,
}

/// Runs `f` with the plan in force.
pub fn with_plan<T>(plan: Plan, f: impl FnOnce() -> T) -> (T, Ledger) {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
        }
    }
    PLAN.with(|p| p.set(plan));
    COUNT.with(|p| p.set(0));
    FAILED.with(|p| p.set(0));
    BALANCE.with(|p| p.set(0));
    PEAK.with(|p| p.set(0));
    let d = Disarm;
    ARMED.with(|a| a.set(true));
    let r = f();
    drop(d);
    let l = Ledger {
        attempts: COUNT.with(|c| c.get()),
        failed: FAILED.with(|c| c.get()),
        balance: BALANCE.with(|c| c.get()),
        peak: PEAK.with(|c| c.get()),
    };
    (r, l)
}

/// Runs environment code (sinks, values) in the middle of an armed region.
pub fn suspended<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            let v = self.0;
            ARMED.with(|a| a.set(v));
        }
    }
    let was = ARMED.with(|a| a.replace(false));
    let _r = Restore(was);
    f()
}
