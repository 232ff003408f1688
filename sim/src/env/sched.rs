//! Seeded cooperative scheduler.
//!
//! Every task is a real OS thread, but exactly one runs at a time: the one holding the
//! baton. At every yield point (writes, value pieces, callbacks) the run's choice source
//! decides who goes on. Outside a simulation `yield_point` does nothing.

use crate::rng::Source;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

struct State {
    src: Option<Source>,
    current: usize,
    alive: Vec<bool>,
    /// Who ran at each switch.
    pub trace: Vec<u8>,
    /// Task changes so far, and after how many everything runs in order.
    changes: u32,
    max_changes: u32,
    /// A task goes on at a yield point with probability 1 - 1/rate.
    rate: u32,
}

struct Shared {
    st: Mutex<State>,
    /// One per task.
    cvs: Vec<Condvar>,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

fn pick(st: &mut State) {
    let stays = st.alive.get(st.current) == Some(&true);
    // Zero, and whatever comes after the budget: go on with the current task.
    if stays && (st.changes >= st.max_changes || st.src.as_mut().unwrap().below(st.rate) < st.rate - 1) {
        return;
    }
    let others: Vec<usize> = (0..st.alive.len()).filter(|i| st.alive[*i] && *i != st.current).collect();
    if others.is_empty() {
        return;
    }
    st.current = others[st.src.as_mut().unwrap().below(others.len() as u32) as usize];
    st.changes += 1;
    st.trace.push(st.current as u8);
}

thread_local! {
    static HOOK: Cell<Option<*mut dyn FnMut()>> = const { Cell::new(None) };
}

/// Runs `f` with `hook` called at every yield point of this thread (but not inside the
/// hook itself): that is how a callback re-enters the library.
pub fn with_hook<T>(hook: &mut dyn FnMut(), f: impl FnOnce() -> T) -> T {
    struct Reset(Option<*mut dyn FnMut()>);
    impl Drop for Reset {
        fn drop(&mut self) {
            HOOK.with(|h| h.set(self.0));
        }
    }
    // Only used while `hook` is borrowed: `Reset` takes it back.
    let p: *mut (dyn FnMut() + 'static) = unsafe { std::mem::transmute(hook as *mut dyn FnMut()) };
    let _reset = Reset(HOOK.with(|h| h.replace(Some(p))));
    f()
}

pub fn yield_point() {
    if let Some(p) = HOOK.with(|h| h.take()) {
        super::alloc::suspended(|| unsafe { (*p)() });
        HOOK.with(|h| h.set(Some(p)));
    }
    let me = ME.with(|m| m.borrow().clone());
    let Some((sh, id)) = me else { return };
    // Allocation faults belong to the task, not to the scheduler.
    super::alloc::suspended(|| {
        let mut st = sh.st.lock().unwrap();
        pick(&mut st);
        if st.current != id {
            sh.cvs[st.current].notify_one();
            while st.current != id {
                st = sh.cvs[id].wait(st).unwrap();
            }
        }
    })
}

pub fn in_sim() -> bool {
    ME.with(|m| m.borrow().is_some())
}

/// Lets a value cross threads although its type may not say it can: only the baton
/// holder ever touches it, and the baton is passed through a mutex.
pub struct Baton<T>(pub T);
unsafe impl<T> Send for Baton<T> {}
unsafe impl<T> Sync for Baton<T> {}
impl<T> Baton<T> {
    pub fn get(self) -> T {
        self.0
    }
}

pub type TaskFn<'a> = Box<dyn FnOnce() + 'a>;

/// Runs the tasks to completion under a schedule drawn from `src`. Returns the source and
/// the trace of scheduling decisions. A task that unwinds ends there (its closure decides
/// what that means).
pub fn run(mut src: Source, tasks: Vec<TaskFn<'_>>, max_changes: u32) -> (Source, Vec<u8>) {
    let n = tasks.len();
    let rate = [2, 3, 6, 12][src.below(4) as usize];
    let sh = Arc::new(Shared {
        st: Mutex::new(State {
            src: Some(src),
            current: usize::MAX,
            alive: vec![true; n],
            trace: Vec::new(),
            changes: 0,
            max_changes,
            rate,
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
    });
    std::thread::scope(|scope| {
        for (id, t) in tasks.into_iter().enumerate() {
            let sh = sh.clone();
            let b = Baton(t);
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(scope, move || {
                    let t = b.get();
                    ME.with(|m| *m.borrow_mut() = Some((sh.clone(), id)));
                    {
                        let mut st = sh.st.lock().unwrap();
                        while st.current != id {
                            st = sh.cvs[id].wait(st).unwrap();
                        }
                    }
                    let _ = catch_unwind(AssertUnwindSafe(t));
                    ME.with(|m| *m.borrow_mut() = None);
                    let mut st = sh.st.lock().unwrap();
                    st.alive[id] = false;
                    pick(&mut st);
                    if st.current != id {
                        sh.cvs[st.current].notify_one();
                    }
                })
                .expect("spawn");
        }
        {
            let mut st = sh.st.lock().unwrap();
            st.current = st.src.as_mut().unwrap().below(n as u32) as usize;
            let first = st.current;
            st.trace.push(first as u8);
            sh.cvs[first].notify_one();
        }
    });
    let mut st = sh.st.lock().unwrap();
    let src = st.src.take().unwrap();
    let trace = std::mem::take(&mut st.trace);
    drop(st);
    (src, trace)
}
