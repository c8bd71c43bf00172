//! The simulated scheduler: real threads, exactly one of which is released at a time.
//! All its state is touched only by the thread that holds the token.
use crate::{rng::Rng, rt, sys, INLIB, RT, TASK};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

pub const MAX_TASKS: usize = 8;
pub const MAX_DECISIONS: usize = 1 << 16;

/// Kinds of scheduling points.
pub mod kind {
    pub const EDGE: u8 = 0;
    pub const LOAD: u8 = 1;
    pub const STORE: u8 = 2;
    pub const ALLOC: u8 = 3;
    pub const FREE: u8 = 4;
    pub const CALLBACK: u8 = 5;
    pub const OP: u8 = 6;
    pub const RANDOM: u8 = 7;
    pub const FUTEX: u8 = 8;
    pub const WRITER: u8 = 9;
    pub const CLOCK: u8 = 10;
    pub const N: usize = 11;
    pub const NAMES: [&str; N] = [
        "edge", "load", "store", "alloc", "free", "callback", "op", "getrandom", "futex", "writer",
        "clock",
    ];
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Absent,
    Ready,
    /// Waiting on a futex word, with an optional simulated deadline.
    Blocked { addr: usize, deadline: u64 },
    /// Waiting for a simulated instant.
    Sleeping { until: u64 },
    /// In a user function that does not return before everybody else is done (or, with
    /// `until`, before that many scheduling points passed).
    Stalled { until: u64 },
    Finished,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Never preempt.
    Sequential,
    /// Preempt after random gaps with this mean.
    Gaps(u64),
    /// Priority schedule: `d` change points spread over about `len` steps.
    Pct { d: u64, len: u64 },
    /// Preempt with probability 1/`den` at points that are not edges, loads or stores.
    Events { den: u64 },
    /// Preempt with probability 1/`den` at accesses to writable statics and to memory that
    /// another task touched too, then stay away for a while; elsewhere after random gaps.
    Shared { den: u64, gap: u64 },
    /// Exactly these switches: (step, task).
    Fixed(Vec<(u64, u8)>),
}

pub struct Sched {
    pub active: bool,
    pub n: usize,
    pub cur: usize,
    pub status: [Status; MAX_TASKS],
    pub step: u64,
    next: u64,
    pub max_steps: u64,
    strategy: Strategy,
    fixed_at: usize,
    rng: Rng,
    prio: [u64; MAX_TASKS],
    pct: Vec<u64>,
    /// Simulated clock in nanoseconds.
    pub now: u64,
    pub kinds: [u64; kind::N],
    pub decisions: usize,
    pub voluntary: u64,
    pub hash: u64,
    /// Tasks that were blocked when nothing but a stalled task was left.
    pub blocked_by_stall: u32,
    pub stalls: u64,
    /// How often tasks gave way, slept or waited in this run.
    pub waits: u64,
    pub op_of: [u32; MAX_TASKS],
    pub run_id: u64,
    /// Probability 1/`watch` of a switch at shared memory; 0: accesses are not looked at.
    watch: u64,
    /// Accesses to writable statics or to memory of another task.
    pub shared: u64,
    stack: [usize; MAX_TASKS],
    generation: u32,
    /// The current task gives way: it waits for something without saying so.
    yielding: bool,
    /// When the current task got its turn.
    since: u64,
}
/// Nobody runs longer than this while others could: a task may be waiting for them in a loop.
const TURN: u64 = 4_000_000;

/// Who read and who wrote an address in this run.
#[derive(Clone, Copy)]
struct Touched {
    addr: usize,
    generation: u32,
    readers: u8,
    writers: u8,
}
const TABLE: usize = 1 << 16;
static mut TOUCHED: [Touched; TABLE] = [Touched { addr: 0, generation: 0, readers: 0, writers: 0 }; TABLE];
const STACK_BELOW: usize = 64 << 20;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

static SLOTS: [sys::Slot; MAX_TASKS] = [const { sys::Slot::new() }; MAX_TASKS];
static STARTED: [sys::Slot; MAX_TASKS] = [const { sys::Slot::new() }; MAX_TASKS];
static CONTROLLER: sys::Slot = sys::Slot::new();
static mut S: Option<Sched> = None;
static mut DECISIONS: [(u64, u8); MAX_DECISIONS] = [(0, 0); MAX_DECISIONS];
static FATAL: AtomicBool = AtomicBool::new(false);
pub static TOTAL_STEPS: AtomicU64 = AtomicU64::new(0);

#[allow(clippy::mut_from_ref)]
pub fn state() -> &'static mut Sched {
    unsafe {
        if S.is_none() {
            rt(|| {
                S = Some(Sched {
                    active: false,
                    n: 0,
                    cur: 0,
                    status: [Status::Absent; MAX_TASKS],
                    step: 0,
                    next: u64::MAX,
                    max_steps: u64::MAX,
                    strategy: Strategy::Sequential,
                    fixed_at: 0,
                    rng: Rng::new(0),
                    prio: [0; MAX_TASKS],
                    pct: Vec::new(),
                    now: 0,
                    kinds: [0; kind::N],
                    decisions: 0,
                    voluntary: 0,
                    hash: 0,
                    blocked_by_stall: 0,
                    stalls: 0,
                    waits: 0,
                    op_of: [0; MAX_TASKS],
                    run_id: 0,
                    watch: 0,
                    shared: 0,
                    stack: [0; MAX_TASKS],
                    generation: 0,
                    yielding: false,
                    since: 0,
                });
            });
        }
        S.as_mut().unwrap()
    }
}

pub fn decisions() -> Vec<(u64, u8)> {
    let s = state();
    unsafe { DECISIONS[..s.decisions.min(MAX_DECISIONS)].to_vec() }
}

/// Prepares a run of `n` tasks. Called by the controller before the tasks start.
pub fn begin(n: usize, strategy: Strategy, seed: u64, max_steps: u64) {
    let s = state();
    s.active = true;
    s.n = n;
    s.status = [Status::Absent; MAX_TASKS];
    for t in 0..n {
        s.status[t] = Status::Ready;
        SLOTS[t].reset();
        STARTED[t].reset();
    }
    CONTROLLER.reset();
    s.step = 0;
    s.yielding = false;
    s.since = 0;
    s.max_steps = max_steps;
    s.fixed_at = 0;
    s.rng = Rng::new(seed);
    s.pct.clear();
    for p in &mut s.prio {
        *p = (1 << 32) + s.rng.below(1 << 20);
    }
    if let Strategy::Pct { d, len } = strategy {
        for _ in 0..d {
            // log-uniform position: early points matter as much as late ones
            let bits = s.rng.range(1, 64 - u64::from(len.max(2).leading_zeros()));
            let at = s.rng.below(1 << bits);
            s.pct.push(at);
        }
        s.pct.sort_unstable();
    }
    s.strategy = strategy;
    s.now = 1_000_000_000;
    s.kinds = [0; kind::N];
    s.decisions = 0;
    s.voluntary = 0;
    s.hash = 0;
    s.blocked_by_stall = 0;
    s.stalls = 0;
    s.waits = 0;
    s.op_of = [0; MAX_TASKS];
    s.watch = match s.strategy {
        Strategy::Shared { den, .. } => den,
        _ => 0,
    };
    s.shared = 0;
    s.generation += 1;
    s.plan_next();
}

/// Runs the tasks to completion; returns once all have finished.
pub fn drive() {
    let s = state();
    // a thread takes locks of std's when it starts, which is not simulated yet
    for t in &STARTED[..s.n] {
        t.wait();
    }
    let first = s.pick_forced();
    s.note(first);
    s.cur = first;
    SLOTS[first].post();
    CONTROLLER.wait();
    s.active = false;
    TOTAL_STEPS.fetch_add(s.step, Ordering::Relaxed);
}

/// First thing a task does: waits for its first turn.
pub fn task_start(id: usize) {
    TASK.set(id as i32);
    STARTED[id].post();
    SLOTS[id].wait();
    let here = 0u8;
    state().stack[id] = core::ptr::from_ref(&here) as usize;
}

/// Last thing a task does.
pub fn task_finish(id: usize) {
    let s = state();
    s.status[id] = Status::Finished;
    TASK.set(-1);
    if (0..s.n).all(|t| s.status[t] == Status::Finished) {
        CONTROLLER.post();
        return;
    }
    let to = s.pick_forced();
    s.note(to);
    s.cur = to;
    SLOTS[to].post();
}

/// Tasks that wait this often in one run wait for what nobody does.
const MAX_WAITS: u64 = 200_000;
/// The most a run was seen to take is two million.
const MAX_SWITCHES: u64 = 25_000_000;

impl Sched {
    fn waited(&mut self) {
        self.waits += 1;
        if self.waits > MAX_WAITS {
            fatal("livelock", "tasks give way, sleep and wait without end");
        }
    }

    fn note(&mut self, to: usize) {
        if self.decisions < MAX_DECISIONS {
            unsafe { DECISIONS[self.decisions] = (self.step, to as u8) };
            self.decisions += 1;
        }
        self.hash = crate::rng::mix(self.hash ^ (self.step << 4) ^ to as u64);
    }

    fn plan_next(&mut self) {
        self.next = match self.strategy {
            Strategy::Sequential => u64::MAX,
            Strategy::Gaps(m) | Strategy::Shared { gap: m, .. } => self.step + self.rng.gap(m),
            Strategy::Pct { .. } => {
                while self.pct.first().is_some_and(|&p| p <= self.step) {
                    self.pct.remove(0);
                }
                self.pct.first().copied().unwrap_or(u64::MAX)
            }
            Strategy::Events { .. } => self.step + 1,
            Strategy::Fixed(ref v) => {
                while v.get(self.fixed_at).is_some_and(|d| d.0 < self.step) {
                    self.fixed_at += 1;
                }
                v.get(self.fixed_at).map_or(u64::MAX, |d| d.0.max(self.step + 1))
            }
        };
        if self.n > 1 {
            self.wake_sleepers_bound();
            if !matches!(self.strategy, Strategy::Fixed(_)) {
                self.next = self.next.min((self.since + TURN).max(self.step + 1));
            }
        }
    }

    /// A task stalled for a bounded number of steps must get a chance to resume.
    fn wake_sleepers_bound(&mut self) {
        for t in 0..self.n {
            if let Status::Stalled { until } = self.status[t] {
                if until != u64::MAX {
                    self.next = self.next.min(until.max(self.step + 1));
                }
            }
        }
    }

    fn turn_over(&self) -> bool {
        !matches!(self.strategy, Strategy::Fixed(_)) && (self.yielding || self.step >= self.since + TURN)
    }

    fn release_due(&mut self) {
        for t in 0..self.n {
            match self.status[t] {
                Status::Stalled { until } if until <= self.step => self.status[t] = Status::Ready,
                Status::Sleeping { until } if until <= self.now => self.status[t] = Status::Ready,
                Status::Blocked { deadline, .. } if deadline <= self.now => {
                    self.status[t] = Status::Ready;
                }
                _ => {}
            }
        }
    }

    fn ready(&self, t: usize) -> bool {
        t < self.n && self.status[t] == Status::Ready
    }

    fn choose(&mut self, voluntary: bool) -> usize {
        if voluntary && self.turn_over() {
            self.since = self.step;
            // behind everybody else
            self.prio[self.cur] = (0..self.n).map(|t| self.prio[t]).min().unwrap().saturating_sub(1);
            let others = (0..self.n).filter(|&t| t != self.cur && self.ready(t)).count();
            if others > 0 {
                let i = self.rng.usize(others);
                return (0..self.n).filter(|&t| t != self.cur && self.ready(t)).nth(i).unwrap();
            }
        }
        if let Strategy::Fixed(ref v) = self.strategy {
            while v.get(self.fixed_at).is_some_and(|d| d.0 < self.step) {
                self.fixed_at += 1;
            }
            if let Some(&(at, to)) = v.get(self.fixed_at) {
                if at == self.step && self.ready(usize::from(to)) {
                    self.fixed_at += 1;
                    return usize::from(to);
                }
            }
            if voluntary {
                return self.cur;
            }
            return (0..self.n).find(|&t| self.ready(t)).unwrap();
        }
        if let Strategy::Pct { .. } = self.strategy {
            if voluntary && self.pct.first().is_some_and(|&p| p <= self.step) {
                self.prio[self.cur] = 1000 - (self.pct.len() as u64).min(999);
            }
            let mut best = None::<usize>;
            for t in 0..self.n {
                if self.ready(t) && best.map_or(true, |b| self.prio[t] > self.prio[b]) {
                    best = Some(t);
                }
            }
            return best.unwrap();
        }
        let k = (0..self.n).filter(|&t| self.ready(t)).count();
        let mut i = self.rng.usize(k);
        for t in 0..self.n {
            if self.ready(t) {
                if i == 0 {
                    return t;
                }
                i -= 1;
            }
        }
        unreachable!()
    }

    /// Picks a task when the current one cannot go on.
    fn pick_forced(&mut self) -> usize {
        self.release_due();
        loop {
            if (0..self.n).any(|t| self.ready(t)) {
                return self.choose(false);
            }
            // Nobody can run: let simulated time pass.
            let next = (0..self.n)
                .filter_map(|t| match self.status[t] {
                    Status::Sleeping { until } => Some(until),
                    Status::Blocked { deadline, .. } if deadline != u64::MAX => Some(deadline),
                    _ => None,
                })
                .min();
            if let Some(next) = next {
                self.now = self.now.max(next);
                self.release_due();
                continue;
            }
            // Only stalled and blocked tasks are left: end a stall.
            let stalled = (0..self.n).find(|&t| matches!(self.status[t], Status::Stalled { .. }));
            if let Some(t) = stalled {
                for b in 0..self.n {
                    if matches!(self.status[b], Status::Blocked { .. }) {
                        self.blocked_by_stall |= 1 << b;
                    }
                }
                self.status[t] = Status::Ready;
                continue;
            }
            fatal("deadlock", "every unfinished task is blocked");
        }
    }

    fn switch(&mut self, me: usize, to: usize) {
        self.note(to);
        if to == me {
            return;
        }
        self.cur = to;
        self.since = self.step;
        SLOTS[to].post();
        SLOTS[me].wait();
    }
}

thread_local! {
    static OUTSIDE: Cell<u64> = const { Cell::new(0) };
}
static ALL_OUTSIDE: AtomicU64 = AtomicU64::new(0);
/// Changes with every step anywhere.
pub fn progress() -> u64 {
    let own = unsafe { S.as_ref() }.map_or(0, |s| s.step ^ s.run_id << 40);
    own ^ ALL_OUTSIDE.load(Ordering::Relaxed) << 20
}
/// Steps of the library on this thread while it was no task.
pub fn outside_steps() -> u64 {
    OUTSIDE.get()
}
/// What the library does on a thread that is no task (before the tasks start, or after they ended) must end, too.
pub fn outside(steps: u64) {
    if INLIB.get() > 0 && RT.get() == 0 {
        OUTSIDE.set(OUTSIDE.get() + steps);
        ALL_OUTSIDE.store(ALL_OUTSIDE.load(Ordering::Relaxed) + steps, Ordering::Relaxed);
        if OUTSIDE.get() > 250_000_000 {
            fatal("livelock", "no end within the step bound");
        }
    }
}

/// A scheduling point.
#[inline]
pub fn point(k: u8) {
    let t = TASK.get();
    if t < 0 {
        return outside(1);
    }
    if RT.get() > 0 {
        return;
    }
    let s = state();
    s.step += 1;
    s.now += 100;
    s.kinds[k as usize] += 1;
    if s.step >= s.next || s.step >= s.max_steps {
        slow(t as usize, k);
    }
}

/// A scheduling point that is a load or a store.
#[inline]
pub fn access(k: u8, p: usize) {
    let t = TASK.get();
    if t < 0 {
        return outside(1);
    }
    if RT.get() > 0 {
        return;
    }
    let s = state();
    s.step += 1;
    s.now += 100;
    s.kinds[k as usize] += 1;
    if s.step >= s.next || s.step >= s.max_steps {
        slow(t as usize, k);
    } else if s.watch > 0 {
        watched(t as usize, k, p);
    }
}

/// Whether this access is to memory that more than one task can reach.
fn is_shared(s: &Sched, me: usize, k: u8, p: usize) -> bool {
    let (lo, hi) = (core::ptr::addr_of!(__data_start) as usize, core::ptr::addr_of!(_end) as usize);
    if (lo..hi).contains(&p) {
        return true;
    }
    let top = s.stack[me];
    if p < top + (1 << 16) && p > top.saturating_sub(STACK_BELOW) {
        return false;
    }
    let addr = p & !7;
    let mut i = crate::rng::mix(addr as u64) as usize % TABLE;
    for _ in 0..32 {
        let e = unsafe { &mut TOUCHED[i] };
        if e.generation != s.generation {
            *e = Touched { addr, generation: s.generation, readers: 0, writers: 0 };
        }
        if e.addr == addr {
            let me = 1u8 << me;
            let others = if k == kind::STORE { e.readers | e.writers } else { e.writers };
            if k == kind::STORE {
                e.writers |= me;
            } else {
                e.readers |= me;
            }
            return others & !me != 0;
        }
        i = (i + 1) % TABLE;
    }
    false
}

/// New memory: who touched it before does not matter.
pub fn forget(p: usize, len: usize) {
    if TASK.get() < 0 {
        return;
    }
    let s = state();
    if s.watch == 0 || !s.active {
        return;
    }
    let mut addr = p & !7;
    while addr < p + len.min(1 << 14) {
        let mut i = crate::rng::mix(addr as u64) as usize % TABLE;
        for _ in 0..32 {
            let e = unsafe { &mut TOUCHED[i] };
            if e.generation != s.generation {
                break;
            }
            if e.addr == addr {
                e.readers = 0;
                e.writers = 0;
                break;
            }
            i = (i + 1) % TABLE;
        }
        addr += 8;
    }
}

#[cold]
fn watched(me: usize, k: u8, p: usize) {
    RT.set(RT.get() + 1);
    let s = state();
    if is_shared(s, me, k, p) {
        s.shared += 1;
        if s.rng.below(s.watch) == 0 {
            s.release_due();
            let n = (0..s.n).filter(|&t| t != me && s.ready(t)).count();
            if n > 0 {
                let i = s.rng.usize(n);
                let to = (0..s.n).filter(|&t| t != me && s.ready(t)).nth(i).unwrap();
                // nobody else takes over for a while
                let bits = s.rng.range(1, 14);
                s.next = s.step + 1 + s.rng.below(1 << bits);
                s.wake_sleepers_bound();
                s.voluntary += 1;
            if s.voluntary > MAX_SWITCHES {
                fatal("livelock", "no end within the bound on switches");
            }
                s.switch(me, to);
            }
        }
    }
    RT.set(RT.get() - 1);
}

/// The current task gives way.
pub fn give_way() {
    if TASK.get() < 0 || RT.get() > 0 {
        return;
    }
    let s = state();
    s.waited();
    if !matches!(s.strategy, Strategy::Fixed(_)) {
        s.yielding = true;
        s.next = s.step + 1;
    }
    point(kind::FUTEX);
    state().yielding = false;
}

#[cold]
fn slow(me: usize, k: u8) {
    RT.set(RT.get() + 1);
    let s = state();
    if s.step >= s.max_steps {
        fatal("livelock", "no end within the step bound");
    }
    s.release_due();
    let act = match s.strategy {
        _ if s.turn_over() => true,
        Strategy::Events { den } => k >= kind::ALLOC && s.rng.below(den) == 0,
        _ => true,
    };
    if act {
        let to = s.choose(true);
        s.yielding = false;
        s.plan_next();
        if to != me {
            s.voluntary += 1;
            s.switch(me, to);
        }
    } else {
        s.plan_next();
    }
    RT.set(RT.get() - 1);
}

fn park_as(me: usize, st: Status) {
    RT.set(RT.get() + 1);
    let s = state();
    s.waited();
    s.status[me] = st;
    let to = s.pick_forced();
    s.plan_next();
    s.switch(me, to);
    RT.set(RT.get() - 1);
}

/// The current task, inside a user function, stops until everybody else is done.
/// Returns a bit set of the tasks that could not get done because they were blocked.
pub fn stall_until_quiet() -> u32 {
    let t = TASK.get();
    if t < 0 {
        return 0;
    }
    let s = state();
    s.stalls += 1;
    s.blocked_by_stall = 0;
    park_as(t as usize, Status::Stalled { until: u64::MAX });
    let b = s.blocked_by_stall;
    s.blocked_by_stall = 0;
    b
}

/// The current task, inside a user function, stops for `n` scheduling points.
pub fn stall_for(n: u64) {
    let t = TASK.get();
    if t < 0 {
        return;
    }
    let s = state();
    s.stalls += 1;
    let until = s.step + n;
    park_as(t as usize, Status::Stalled { until });
}

pub fn sleep_until(until: u64) {
    let t = TASK.get();
    if t >= 0 {
        park_as(t as usize, Status::Sleeping { until });
    }
}

/// Simulated FUTEX_WAIT. True if woken, false on timeout.
pub fn futex_wait(addr: usize, deadline: u64) -> bool {
    let t = TASK.get() as usize;
    park_as(t, Status::Blocked { addr, deadline });
    state().now < deadline
}

pub fn futex_wake(addr: usize, max: u32) -> u32 {
    let s = state();
    let mut n = 0;
    for t in 0..s.n {
        if n >= max {
            break;
        }
        if matches!(s.status[t], Status::Blocked { addr: a, .. } if a == addr) {
            s.status[t] = Status::Ready;
            n += 1;
        }
    }
    n
}

pub fn set_op(op: u32) {
    let t = TASK.get();
    if t >= 0 {
        state().op_of[t as usize] = op;
    }
}

static mut BUF: [u8; 1 << 21] = [0; 1 << 21];

struct W(usize);
impl W {
    fn s(&mut self, t: &str) {
        for &b in t.as_bytes() {
            unsafe {
                if self.0 < BUF.len() {
                    BUF[self.0] = b;
                    self.0 += 1;
                }
            }
        }
    }
    fn u(&mut self, mut v: u64) {
        let mut d = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            d[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        for &b in &d[i..] {
            self.s(unsafe { core::str::from_utf8_unchecked(&[b]) });
        }
    }
}

/// Reports an end of the process that no later code can report, and ends it.
/// Async-signal-safe.
pub fn fatal(class: &str, msg: &str) -> ! {
    if FATAL.swap(true, Ordering::Relaxed) {
        sys::exit_now(78);
    }
    let s = unsafe { S.as_ref() };
    let mut w = W(0);
    w.s("{\"fatal\":\"");
    w.s(class);
    w.s("\",\"msg\":\"");
    w.s(msg);
    w.s("\",\"task\":");
    let t = TASK.get();
    if t < 0 {
        w.s("-1");
    } else {
        w.u(t as u64);
    }
    if let Some(s) = s {
        w.s(",\"op\":");
        w.u(if t < 0 { 0 } else { u64::from(s.op_of[t as usize]) });
        w.s(",\"run\":");
        w.u(s.run_id);
        w.s(",\"step\":");
        w.u(s.step);
        w.s(",\"sched\":[");
        for i in 0..s.decisions {
            if i > 0 {
                w.s(",");
            }
            w.s("[");
            w.u(unsafe { DECISIONS[i].0 });
            w.s(",");
            w.u(u64::from(unsafe { DECISIONS[i].1 }));
            w.s("]");
        }
        w.s("]");
    }
    w.s("}\n");
    sys::write_all(1, unsafe { &BUF[..w.0] });
    sys::exit_now(77);
}
