//! Seams of the library simulator: everything nondeterministic a caller thread can meet
//! (who runs next, blocking, time, randomness, the allocator) is decided here.
#![feature(alloc_error_hook)]
#![allow(static_mut_refs, clippy::missing_safety_doc)]

pub mod alloc;
pub mod rng;
pub mod sched;
pub mod seams;
pub mod sys;

use std::cell::Cell;

thread_local! {
    /// Simulated task running on this OS thread, or -1.
    pub static TASK: Cell<i32> = const { Cell::new(-1) };
    /// Depth of library code on this thread (>0: allocations are the library's).
    pub static INLIB: Cell<u32> = const { Cell::new(0) };
    /// >0: simulator bookkeeping; no scheduling points, no tracking.
    pub static RT: Cell<u32> = const { Cell::new(0) };
    /// Remaining tracked allocations before one fails; <0: never.
    pub static OOM_IN: Cell<i64> = const { Cell::new(-1) };
    /// Tracked allocations made by the current operation.
    pub static OP_ALLOCS: Cell<u64> = const { Cell::new(0) };
    /// Stream from which this thread's hash seeds are drawn.
    pub static HASH_STREAM: Cell<u64> = const { Cell::new(0x5EED) };
}

/// Payload of every injected panic.
pub struct Injected(pub &'static str);

/// Runs `f` as simulator bookkeeping.
pub fn rt<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            RT.set(RT.get() - 1);
        }
    }
    RT.set(RT.get() + 1);
    let _g = G;
    f()
}

/// Marks a call into the library (or, with `leave`, out of it again).
pub struct LibGuard(u32);
impl LibGuard {
    pub fn enter() -> Self {
        let old = INLIB.get();
        INLIB.set(old + 1);
        LibGuard(old)
    }
    pub fn leave() -> Self {
        let old = INLIB.get();
        INLIB.set(0);
        LibGuard(old)
    }
}
impl Drop for LibGuard {
    fn drop(&mut self) {
        INLIB.set(self.0);
    }
}

/// Runs library code.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let _g = LibGuard::enter();
    f()
}
/// Runs user code that the library called.
pub fn user<T>(f: impl FnOnce() -> T) -> T {
    let _g = LibGuard::leave();
    f()
}
