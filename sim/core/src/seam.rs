//! The seams between nt-hive and the simulator.
//!
//! * `SimBytes` / `SimBytesMut` implement the byte-slice traits `Hive<B>` is generic over, so each
//!   access of nt-hive to hive bytes is an event here.
//! * `__sanitizer_cov_trace_pc_guard` is called by the instrumented build of nt-hive (and of the
//!   driver crate holding its monomorphised generics) at every basic block.
//!
//! Both feed `tick`, where the simulator counts work, probes the stack, preempts the running task and
//! observes the buffer. Outside a public call (`armed` false) ticks do nothing.
use std::cell::Cell;
use std::ops::{Deref, DerefMut};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::{Condvar, Mutex};
use zerocopy::{ByteSlice, SplitByteSlice};

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_STACK: i32 = 78;
pub const EXIT_ALLOC: i32 = 79;

pub struct Ctx {
    pub armed: Cell<bool>,
    pub steps: Cell<u64>,
    pub derefs: Cell<u64>,
    next_event: Cell<u64>,
    soft: Cell<u64>,
    hard: Cell<u64>,
    stack_base: Cell<usize>,
    stack_max: Cell<usize>,
    over: Cell<u8>,
    sched: Cell<*const Sched>,
    task: Cell<usize>,
    next_switch: Cell<u64>,
    hook: Cell<Option<(*mut (dyn FnMut(u64) + 'static), u64)>>,
    next_hook: Cell<u64>,
    pub allocs: Cell<u64>,
    pub live: Cell<i64>,
    pub peak: Cell<i64>,
    pub max_single: Cell<u64>,
    pub churn: Cell<u64>,
}

thread_local! {
    static CTX: Ctx = const { Ctx {
        armed: Cell::new(false), steps: Cell::new(0), derefs: Cell::new(0), next_event: Cell::new(u64::MAX),
        soft: Cell::new(u64::MAX), hard: Cell::new(u64::MAX), stack_base: Cell::new(0), stack_max: Cell::new(0),
        over: Cell::new(0), sched: Cell::new(std::ptr::null()), task: Cell::new(0), next_switch: Cell::new(u64::MAX),
        hook: Cell::new(None), next_hook: Cell::new(u64::MAX),
        allocs: Cell::new(0), live: Cell::new(0), peak: Cell::new(0), max_single: Cell::new(0), churn: Cell::new(0),
    } };
}

#[inline]
pub fn ctx<R>(f: impl FnOnce(&Ctx) -> R) -> R {
    CTX.with(f)
}

extern "C" {
    fn _exit(code: i32) -> !;
}
pub fn fatal(code: i32) -> ! {
    if cfg!(miri) {
        std::process::exit(code)
    }
    unsafe { _exit(code) }
}

/// Most stack one public call may use. Threads have 2 MiB by default.
pub const STACK_SOFT: usize = 1 << 20;
const STACK_HARD: usize = 24 << 20;

impl Ctx {
    fn recompute(&self) {
        self.next_event
            .set(self.soft.get().min(self.next_switch.get()).min(self.next_hook.get()));
    }

    #[inline]
    fn tick(&self) {
        let s = self.steps.get() + 1;
        self.steps.set(s);
        let probe = 0u8;
        let used = self.stack_base.get().wrapping_sub(&probe as *const u8 as usize);
        if !cfg!(miri) && used < isize::MAX as usize && used > self.stack_max.get() {
            self.stack_max.set(used);
            if used > STACK_SOFT {
                self.over.set(2);
                if used > STACK_HARD {
                    fatal(EXIT_STACK);
                }
            }
        }
        if s >= self.next_event.get() {
            self.slow(s);
        }
    }

    #[cold]
    fn slow(&self, s: u64) {
        if s >= self.next_hook.get() {
            if let Some((h, every)) = self.hook.get() {
                self.armed.set(false);
                unsafe { (*h)(s) };
                self.armed.set(true);
                self.next_hook.set(s + every);
            } else {
                self.next_hook.set(u64::MAX);
            }
        }
        if s >= self.next_switch.get() {
            self.armed.set(false);
            self.switch_point();
            self.armed.set(true);
        }
        if s >= self.soft.get() {
            self.over.set(1);
            if s >= self.hard.get() {
                fatal(EXIT_STEPS);
            }
            self.soft.set(self.hard.get());
        }
        self.recompute();
    }

    /// Give the baton away as the schedule says, and wait for it to come back.
    fn switch_point(&self) {
        let sched = self.sched.get();
        if sched.is_null() {
            self.next_switch.set(u64::MAX);
        } else {
            let gap = unsafe { &*sched }.preempt(self.task.get());
            self.next_switch.set(self.steps.get().saturating_add(gap));
        }
    }

    #[inline]
    fn deref_tick(&self) {
        if self.armed.get() {
            self.derefs.set(self.derefs.get() + 1);
            self.tick();
            if self.over.get() != 0 {
                let o = self.over.get();
                self.over.set(0);
                self.armed.set(false);
                panic_any(Cut(o));
            }
        }
    }
}

/// Payload with which the simulator unwinds a call that exceeded its budget.
pub struct Cut(pub u8);

pub const COV_SIZE: usize = 1 << 16;
pub static COV: [AtomicU8; COV_SIZE] = [const { AtomicU8::new(0) }; COV_SIZE];

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            *p = NEXT.fetch_add(1, Ordering::Relaxed);
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    CTX.with(|c| {
        if c.armed.get() {
            let id = unsafe { *guard } as usize & (COV_SIZE - 1);
            if COV[id].load(Ordering::Relaxed) == 0 {
                COV[id].store(1, Ordering::Relaxed);
            }
            c.tick();
        }
    })
}

pub fn covered_blocks() -> Vec<u32> {
    (0..COV_SIZE as u32).filter(|&i| COV[i as usize].load(Ordering::Relaxed) != 0).collect()
}

/// What one public call cost.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Usage {
    pub steps: u64,
    pub derefs: u64,
    pub allocs: u64,
    pub peak: i64,
    pub max_single: u64,
    /// Bytes of all allocations and reallocations together.
    pub churn: u64,
    pub stack: usize,
}

pub enum Fail {
    Panic(String),
    Steps,
    Stack,
}

thread_local! {
    static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
}

/// Silences panics of the code under test and remembers what they said.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let in_probe = ctx(|c| c.stack_base.get() != 0);
        if !in_probe {
            default(info);
            // The simulator itself is broken (or, in the second case, nt-hive where nobody watched).
            let theirs = info.location().is_some_and(|l| l.file().contains("repo/src/"));
            fatal(if theirs { 80 } else { 3 })
        }
        ctx(|c| c.armed.set(false));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        // File name without line: the class of the failure must survive unrelated edits.
        let file = info.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
        PANIC_MSG.with(|p| p.set(Some(format!("{file}: {msg}"))));
    }));
}

pub const DEFAULT_SOFT: u64 = 60_000_000;

/// Runs one public call of nt-hive under the simulator's eyes.
pub fn probe<T>(f: impl FnOnce() -> T) -> (Result<T, Fail>, Usage) {
    probe_budget(DEFAULT_SOFT, f)
}

pub fn probe_budget<T>(budget: u64, f: impl FnOnce() -> T) -> (Result<T, Fail>, Usage) {
    if cfg!(any(miri, target_family = "wasm")) {
        // No instrumentation there.
        ctx(|c| c.stack_base.set(1));
        let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| Fail::Panic(PANIC_MSG.with(|m| m.take()).unwrap_or_default()));
        ctx(|c| c.stack_base.set(0));
        return (r, Usage::default());
    }
    let base = 0u8;
    let (s0, d0) = ctx(|c| {
        c.allocs.set(0);
        c.live.set(0);
        c.peak.set(0);
        c.max_single.set(0);
        c.churn.set(0);
        c.over.set(0);
        c.stack_base.set(&base as *const u8 as usize);
        c.stack_max.set(0);
        c.soft.set(c.steps.get().saturating_add(budget));
        c.hard.set(c.steps.get().saturating_add(budget.saturating_mul(4)));
        c.recompute();
        let r = (c.steps.get(), c.derefs.get());
        c.armed.set(true);
        r
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let usage = ctx(|c| {
        c.armed.set(false);
        c.stack_base.set(0);
        c.soft.set(u64::MAX);
        c.recompute();
        Usage {
            steps: c.steps.get() - s0,
            derefs: c.derefs.get() - d0,
            allocs: c.allocs.get(),
            peak: c.peak.get(),
            max_single: c.max_single.get(),
            churn: c.churn.get(),
            stack: c.stack_max.get(),
        }
    });
    let over = ctx(|c| c.over.replace(0));
    let r = match r {
        Ok(_) if over == 1 => Err(Fail::Steps),
        Ok(_) if over == 2 => Err(Fail::Stack),
        Ok(v) => Ok(v),
        Err(p) => match p.downcast_ref::<Cut>() {
            Some(Cut(2)) => Err(Fail::Stack),
            Some(Cut(_)) => Err(Fail::Steps),
            None => Err(Fail::Panic(PANIC_MSG.with(|m| m.take()).unwrap_or_default())),
        },
    };
    (r, usage)
}

/// Calls `hook` every `every` ticks of the calls made inside `f`.
pub fn with_hook<T>(every: u64, hook: &mut dyn FnMut(u64), f: impl FnOnce() -> T) -> T {
    let h: *mut (dyn FnMut(u64) + 'static) = unsafe { std::mem::transmute(hook as *mut dyn FnMut(u64)) };
    ctx(|c| {
        c.hook.set(Some((h, every)));
        c.next_hook.set(c.steps.get() + every);
        c.recompute();
    });
    let r = f();
    ctx(|c| {
        c.hook.set(None);
        c.next_hook.set(u64::MAX);
        c.recompute();
    });
    r
}

// ---------------------------------------------------------------- byte stores

/// Shared byte store. Reads go through the simulator.
#[derive(Clone, Copy)]
pub struct SimBytes {
    ptr: *const u8,
    len: usize,
}
unsafe impl Send for SimBytes {}
unsafe impl Sync for SimBytes {}

impl SimBytes {
    /// # Safety
    /// The memory must stay valid while the store is used.
    pub unsafe fn new(ptr: *const u8, len: usize) -> Self {
        SimBytes { ptr, len }
    }
}

impl Deref for SimBytes {
    type Target = [u8];
    #[inline(never)]
    fn deref(&self) -> &[u8] {
        CTX.with(|c| c.deref_tick());
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
unsafe impl ByteSlice for SimBytes {}
unsafe impl SplitByteSlice for SimBytes {
    unsafe fn split_at_unchecked(self, mid: usize) -> (Self, Self) {
        (
            SimBytes { ptr: self.ptr, len: mid },
            SimBytes { ptr: self.ptr.add(mid), len: self.len - mid },
        )
    }
}

/// Exclusive byte store. Reads and writes go through the simulator.
pub struct SimBytesMut {
    ptr: *mut u8,
    len: usize,
}

impl SimBytesMut {
    /// # Safety
    /// The memory must stay valid and otherwise unused by Rust references while the store is used.
    pub unsafe fn new(ptr: *mut u8, len: usize) -> Self {
        SimBytesMut { ptr, len }
    }
}

impl Deref for SimBytesMut {
    type Target = [u8];
    #[inline(never)]
    fn deref(&self) -> &[u8] {
        CTX.with(|c| c.deref_tick());
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
impl DerefMut for SimBytesMut {
    #[inline(never)]
    fn deref_mut(&mut self) -> &mut [u8] {
        CTX.with(|c| c.deref_tick());
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}
unsafe impl ByteSlice for SimBytesMut {}
unsafe impl SplitByteSlice for SimBytesMut {
    unsafe fn split_at_unchecked(self, mid: usize) -> (Self, Self) {
        (
            SimBytesMut { ptr: self.ptr, len: mid },
            SimBytesMut { ptr: self.ptr.add(mid), len: self.len - mid },
        )
    }
}

// ---------------------------------------------------------------- scheduler

/// Hands one baton to real threads; who runs is decided by the plan alone.
pub struct Sched {
    st: Mutex<St>,
    cv: Vec<Condvar>,
}

struct St {
    cur: usize,
    done: Vec<bool>,
    plan: Vec<(u64, u32)>,
    pos: usize,
    /// (task switched to, plan position): the interleaving that really happened.
    trace: Vec<u32>,
    inside: u64,
}

impl Sched {
    pub fn new(tasks: usize, plan: Vec<(u64, u32)>) -> Self {
        Sched {
            st: Mutex::new(St { cur: 0, done: vec![false; tasks], plan, pos: 0, trace: Vec::with_capacity(256), inside: 0 }),
            cv: (0..tasks).map(|_| Condvar::new()).collect(),
        }
    }

    fn next_gap(st: &St) -> u64 {
        st.plan.get(st.pos).map(|p| p.0.max(1)).unwrap_or(u64::MAX)
    }

    /// Called by a task's thread before it does anything.
    pub fn start(&self, me: usize) {
        let mut st = self.st.lock().unwrap();
        while st.cur != me {
            st = self.cv[me].wait(st).unwrap();
        }
        let gap = Self::next_gap(&st);
        drop(st);
        ctx(|c| {
            c.sched.set(self);
            c.task.set(me);
            c.next_switch.set(c.steps.get().saturating_add(gap));
            c.recompute();
        });
    }

    fn preempt(&self, me: usize) -> u64 {
        let mut st = self.st.lock().unwrap();
        if let Some(&(_, target)) = st.plan.get(st.pos) {
            st.pos += 1;
            let alive: Vec<usize> = (0..st.done.len()).filter(|&i| !st.done[i]).collect();
            let to = alive[target as usize % alive.len()];
            if to != me {
                st.inside += 1;
                if st.trace.len() < 4096 {
                    st.trace.push(to as u32);
                }
                st.cur = to;
                self.cv[to].notify_one();
                while st.cur != me {
                    st = self.cv[me].wait(st).unwrap();
                }
            }
        }
        Self::next_gap(&st)
    }

    /// A scheduling point between two calls.
    pub fn point(&self) {
        ctx(|c| {
            let s = c.steps.get() + 1;
            c.steps.set(s);
            if s >= c.next_switch.get() {
                c.switch_point();
                c.recompute();
            }
        })
    }

    pub fn finish(&self, me: usize) {
        ctx(|c| {
            c.sched.set(std::ptr::null());
            c.next_switch.set(u64::MAX);
            c.recompute();
        });
        let mut st = self.st.lock().unwrap();
        st.done[me] = true;
        if let Some(to) = (0..st.done.len()).find(|&i| !st.done[i]) {
            st.cur = to;
            self.cv[to].notify_one();
        }
    }

    /// (switches that happened, the sequence of tasks switched to)
    pub fn summary(&self) -> (u64, Vec<u32>) {
        let st = self.st.lock().unwrap();
        (st.inside, st.trace.clone())
    }
}
