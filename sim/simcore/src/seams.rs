//! The symbols through which library code reaches the outside world.
use crate::sched::{self, kind, point};
use crate::{rng, sys, HASH_STREAM, INLIB, RT, TASK};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering};

// ---- instrumentation callbacks: preemption points and coverage ----
pub const MAX_EDGES: usize = 1 << 16;
pub static EDGE_HITS: [AtomicU32; MAX_EDGES] = [const { AtomicU32::new(0) }; MAX_EDGES];
pub static N_EDGES: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = (N_EDGES.fetch_add(1, Ordering::Relaxed) + 1) as u32;
        }
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard as usize;
    if g < MAX_EDGES {
        let c = &EDGE_HITS[g];
        c.store(c.load(Ordering::Relaxed).saturating_add(1), Ordering::Relaxed);
    }
    point(kind::EDGE);
}
macro_rules! access {
    ($($n:ident $k:ident),*) => {$(
        #[no_mangle]
        pub extern "C" fn $n(p: *const u8) { sched::access(kind::$k, p as usize); }
    )*};
}
access!(
    __sanitizer_cov_load1 LOAD, __sanitizer_cov_load2 LOAD, __sanitizer_cov_load4 LOAD,
    __sanitizer_cov_load8 LOAD, __sanitizer_cov_load16 LOAD,
    __sanitizer_cov_store1 STORE, __sanitizer_cov_store2 STORE, __sanitizer_cov_store4 STORE,
    __sanitizer_cov_store8 STORE, __sanitizer_cov_store16 STORE
);

// ---- randomness ----
/// Hash seeds (and anything else random) come from a stream derived from the run's seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    point(kind::RANDOM);
    let mut s = HASH_STREAM.get();
    for i in 0..len {
        if i % 8 == 0 {
            s = rng::mix(s);
        }
        *buf.add(i) = (s >> (8 * (i % 8))) as u8;
    }
    HASH_STREAM.set(s);
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    getrandom(buf, len, 0);
    0
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

// ---- blocking ----
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize,
) -> i64 {
    if n == 202 && TASK.get() >= 0 && RT.get() == 0 {
        let op = b & 0x7f;
        point(kind::FUTEX);
        // WAIT, WAIT_BITSET
        if op == 0 || op == 9 {
            let word = &*(a as *const AtomicU32);
            if word.load(Ordering::SeqCst) != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            let deadline = if d == 0 {
                u64::MAX
            } else {
                let ts = &*(d as *const [i64; 2]);
                let v = (ts[0] as u64).saturating_mul(1_000_000_000).saturating_add(ts[1] as u64);
                if op == 9 { v } else { v.saturating_add(sched::state().now) }
            };
            if sched::futex_wait(a, deadline) {
                return 0;
            }
            *__errno_location() = 110;
            return -1;
        }
        // WAKE, WAKE_BITSET
        if op == 1 || op == 10 {
            // (a thread that is no task, or no longer, waits for real)
            sys::raw(n, a, b, c, 0, 0, 0);
            return i64::from(sched::futex_wake(a, c as u32));
        }
    }
    if n == 202 && INLIB.get() > 0 && RT.get() == 0 && matches!(b & 0x7f, 0 | 9) && d == 0 && !sched::state().active {
        // nobody else is there to wake it (save a thread of the library's own, which is given time)
        let ts: [i64; 2] = [10, 0];
        let r = sys::raw(n, a, b & !0x7f, c, ts.as_ptr() as usize, 0, 0);
        if r == -110 && (*(a as *const AtomicU32)).load(Ordering::SeqCst) == c as u32 {
            sched::fatal("deadlock", "the only thread waits for itself");
        }
        return if r < 0 {
            *__errno_location() = -r as i32;
            -1
        } else {
            r
        };
    }
    if n == 318 {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    let r = sys::raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    sched::give_way();
    if TASK.get() < 0 {
        sched::outside(1000);
    }
    0
}

// ---- time ----
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if TASK.get() >= 0 && RT.get() == 0 {
        point(kind::CLOCK);
        let now = sched::state().now;
        *ts = [(now / 1_000_000_000) as i64, (now % 1_000_000_000) as i64];
        return 0;
    }
    sys::raw(228, clk as usize, ts as usize, 0, 0, 0, 0) as i32
}
unsafe fn sleep_rel(ts: *const [i64; 2]) {
    let d = ((*ts)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*ts)[1] as u64);
    sched::sleep_until(sched::state().now.saturating_add(d));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if TASK.get() >= 0 {
        sleep_rel(ts);
        return 0;
    }
    if INLIB.get() > 0 && RT.get() == 0 {
        sched::outside(100_000);
        return 0;
    }
    sys::raw(35, ts as usize, rem as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: i32, flags: i32, ts: *const [i64; 2], rem: *mut [i64; 2],
) -> i32 {
    if TASK.get() >= 0 {
        if flags & 1 != 0 {
            let v = ((*ts)[0] as u64) * 1_000_000_000 + (*ts)[1] as u64;
            sched::sleep_until(v);
        } else {
            sleep_rel(ts);
        }
        return 0;
    }
    if INLIB.get() > 0 && RT.get() == 0 {
        sched::outside(100_000);
        return 0;
    }
    -(sys::raw(230, clk as usize, flags as usize, ts as usize, rem as usize, 0, 0) as i32)
}

// ---- crashes ----
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn sigaltstack(ss: *const [usize; 3], old: *mut [usize; 3]) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" fn on_signal(sig: i32) {
    if (sig == 4 || sig == 6) && crate::OOM_IN.get() == -2 {
        // std gives up by itself where an allocation that fails may not unwind
        sched::fatal("skip", "std aborted after a failed allocation");
    }
    if sig == 14 {
        return tick();
    }
    let (class, msg) = match sig {
        11 => ("crash", "SIGSEGV"),
        7 => ("crash", "SIGBUS"),
        6 => ("crash", "SIGABRT"),
        4 => ("crash", "SIGILL"),
        8 => ("crash", "SIGFPE"),
        _ => ("crash", "signal"),
    };
    sched::fatal(class, msg);
}
/// Makes fatal signals report the run they happened in.
pub fn install_crash_handlers() {
    for sig in [11, 7, 6, 4, 8, 14] {
        let act = SigAction {
            handler: on_signal as extern "C" fn(i32) as usize,
            mask: [0; 16],
            flags: 0x0800_0000 | 0x4000_0000 | 0x1000_0000, // SA_ONSTACK | SA_NODEFER | SA_RESTART
            restorer: 0,
        };
        unsafe { sigaction(sig, &act, core::ptr::null_mut()) };
    }
}
/// Gives this thread a stack on which the handlers can run after a stack overflow.
pub fn alt_stack() {
    const SIZE: usize = 64 * 1024;
    // std installs a (small) alternate stack of its own on each thread; ours lives as
    // long as the thread.
    thread_local!(static ALT: std::cell::UnsafeCell<[u8; SIZE]> = const { std::cell::UnsafeCell::new([0; SIZE]) });
    ALT.with(|a| unsafe {
        let ss = [a.get() as usize, 0, SIZE];
        sigaltstack(&ss, core::ptr::null_mut());
    });
}
/// Seconds between two looks at a run's progress.
const TICK: u32 = 5;
static TICKS: AtomicU32 = AtomicU32::new(0);
static IDLE: AtomicU32 = AtomicU32::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);
static CPU: AtomicU64 = AtomicU64::new(0);
fn cpu_ms() -> u64 {
    let mut ts = [0_i64; 2];
    // CLOCK_PROCESS_CPUTIME_ID
    unsafe { sys::raw(228, 2, ts.as_mut_ptr() as usize, 0, 0, 0, 0) };
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}
/// A loop without any scheduling point is seen by nothing else. (The step bounds end all others, which does
/// not hang on how fast the machine is.)
fn tick() {
    let now = sched::progress();
    let cpu = cpu_ms();
    let busy = cpu - CPU.swap(cpu, Ordering::Relaxed) > u64::from(TICK) * 500;
    if now == SEEN.swap(now, Ordering::Relaxed) {
        // (a machine that gave this process no time says nothing)
        IDLE.fetch_add(u32::from(busy), Ordering::Relaxed);
    } else {
        IDLE.store(0, Ordering::Relaxed);
    }
    if IDLE.load(Ordering::Relaxed) >= 4 || TICKS.fetch_sub(1, Ordering::Relaxed) <= 1 {
        sched::fatal("hang", "no scheduling point for too long");
    }
    unsafe { sys::raw(37, TICK as usize, 0, 0, 0, 0, 0) };
}
/// Ends the process if it is busy for 20 seconds without any progress, or after that many (0: never).
pub fn alarm(secs: u32) {
    TICKS.store(secs / TICK, Ordering::Relaxed);
    IDLE.store(0, Ordering::Relaxed);
    SEEN.store(u64::MAX, Ordering::Relaxed);
    CPU.store(cpu_ms(), Ordering::Relaxed);
    unsafe { sys::raw(37, secs.min(TICK) as usize, 0, 0, 0, 0, 0) };
}
