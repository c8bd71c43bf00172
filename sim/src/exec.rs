//! Runs a case: the real library under the simulated scheduler, in lockstep with the model.
use crate::ast::{self, close, Bad, Def, Func, Rec, T};
use crate::case::{BindHow, Case, EvalHow, Fault, FnDef, FnHow, Op, Sched, SimpHow, Step, Style, Wr, P};
use crate::obj::{self, violation, violated, BoundNames, BoundObj, Expr, Model, NameStore, Obj, Par, Text, Violation};
use simcore::sched::{self, kind, point, Strategy};
use simcore::{alloc, rng::{mix, Rng}, rt, seams, Injected, HASH_STREAM, INLIB, OOM_IN};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, RwLock};
use xdriver as d;

pub const LOCALS: usize = 12;
pub const SHARED: usize = 8;
pub const LOCKS: usize = 4;
pub const BOXES: usize = 4;
pub const PEJMDAS: bool = cfg!(feature = "pejmdas");
pub const MAX_STEPS: u64 = 250_000_000;

pub type Counts = BTreeMap<&'static str, u64>;

#[derive(Default, serde::Serialize, serde::Deserialize, Clone)]
pub struct RunOut {
    pub violation: Option<Violation>,
    pub transcript: Vec<Vec<String>>,
    pub counts: BTreeMap<String, u64>,
    pub kinds: [u64; kind::N],
    pub outside: u64,
    pub steps: u64,
    pub preemptions: u64,
    pub shared: u64,
    pub sched_hash: u64,
    pub schedule: Vec<(u64, u8)>,
    pub sim_ns: u64,
    pub live_blocks: i64,
    pub tracked: u64,
}

struct World<'c> {
    case: &'c Case,
    locks: Vec<RwLock<Option<Obj>>>,
    boxes: Vec<Mutex<Option<Obj>>>,
    memo: Mutex<BTreeMap<(u16, String), String>>,
}
struct Task<'w> {
    w: &'w World<'w>,
    local: RefCell<Vec<Option<Obj>>>,
    shared: RefCell<Vec<Option<Arc<Obj>>>>,
    out: RefCell<Vec<String>>,
    cnt: RefCell<Counts>,
    single: bool,
}
unsafe impl Sync for World<'_> {}
unsafe impl Send for World<'_> {}
unsafe impl Send for Task<'_> {}

/// The operation in progress on this thread.
struct OpState<'w> {
    log: Vec<Rec>,
    n: u32,
    fault: &'w Fault,
    task: &'w Task<'w>,
    fired: bool,
    blocked: u32,
}
thread_local! {
    static CUR: Cell<*mut ()> = const { Cell::new(std::ptr::null_mut()) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static AT_DROP: Cell<*mut ()> = const { Cell::new(std::ptr::null_mut()) };
}

pub fn install() {
    d::set_hooks(on_call, on_drop);
    std::panic::set_hook(Box::new(|_| {}));
    alloc::install_oom_hook();
    seams::install_crash_handlers();
}

/// The value of every evaluation so far, by all that it depends on.
static SEEN: std::sync::Mutex<BTreeMap<u128, u64>> = std::sync::Mutex::new(BTreeMap::new());

/// What a user function does.
fn on_call(key: u64, token: u64, args: &[f64]) -> f64 {
    point(kind::CALLBACK);
    if token != 0 && obj::token_state(token) != obj::LIVE {
        violation("token", format!("function {key} was called after its captured value was dropped"));
    }
    let p = CUR.get().cast::<OpState<'static>>();
    if p.is_null() {
        violation("calls", format!("function {key} was called outside any operation"));
        return ast::user_value(key, args);
    }
    let n = unsafe {
        (*p).log.push((key, token, args.to_vec()));
        (*p).n += 1;
        (*p).n - 1
    };
    let (fault, task) = unsafe { ((*p).fault, (*p).task) };
    match fault {
        Fault::Panic(k) if *k == n => {
            unsafe { (*p).fired = true };
            task.count("fault: user function panicked");
            inject("user function");
        }
        Fault::PanicBusy(k, step) if *k == n => {
            unsafe { (*p).fired = true };
            task.count("fault: user function panicked and used the library on its way out");
            let _busy = OnTheWay(task, step);
            inject("user function");
        }
        Fault::Stall(k, steps) if *k == n => {
            unsafe { (*p).fired = true };
            task.count("fault: user function stalled");
            match steps {
                None => {
                    let b = sched::stall_until_quiet();
                    unsafe { (*p).blocked |= b };
                }
                Some(s) => sched::stall_for(*s),
            }
        }
        Fault::Reenter(v) if DEPTH.get() < 3 => {
            if let Some((_, step)) = v.iter().find(|(k, _)| *k == n) {
                unsafe { (*p).fired = true };
                task.count("fault: user function re-entered the library");
                DEPTH.set(DEPTH.get() + 1);
                task.step(step);
                DEPTH.set(DEPTH.get() - 1);
            }
        }
        Fault::Deep(levels, op, stall) if n == 0 => {
            unsafe { (*p).fired = true };
            let at = DEPTH.get();
            if at < *levels {
                task.count("fault: user function re-entered the library, deeply");
                DEPTH.set(at + 1);
                task.op(op, fault);
                DEPTH.set(at);
            } else if *stall {
                task.count("fault: user function stalled, deeply");
                let b = sched::stall_until_quiet();
                unsafe { (*p).blocked |= b };
            }
        }
        _ => {}
    }
    ast::user_value(key, args)
}
/// Uses the library while a panic passes.
struct OnTheWay<'w>(&'w Task<'w>, &'w Step);
impl Drop for OnTheWay<'_> {
    fn drop(&mut self) {
        DEPTH.set(DEPTH.get() + 1);
        self.0.step(self.1);
        DEPTH.set(DEPTH.get() - 1);
    }
}
/// What the destructor of a captured value does.
fn on_drop(token: u64) {
    obj::on_drop(token);
    point(kind::CALLBACK);
    let p = AT_DROP.get().cast::<AtDrop<'static>>();
    if p.is_null() {
        return;
    }
    let at = unsafe { &*p };
    let n = at.n.get();
    at.n.set(n + 1);
    let Fault::AtDrop(k, stall, step) = at.fault else { return };
    if *k != n {
        return;
    }
    let task = at.task;
    task.count("fault: destructor of a captured value used the library");
    match stall {
        Some(None) => {
            task.count("fault: destructor of a captured value stalled");
            let b = sched::stall_until_quiet();
            if b != 0 && task.w.case.prop == "C05" {
                violation("blocked", format!("tasks (bit set {b:#b}) could not proceed while a destructor was stalled"));
            }
        }
        Some(Some(n)) => {
            task.count("fault: destructor of a captured value stalled");
            sched::stall_for(*n);
        }
        None => {}
    }
    DEPTH.set(DEPTH.get() + 1);
    task.step(step);
    DEPTH.set(DEPTH.get() - 1);
}
struct AtDrop<'w> {
    n: Cell<u32>,
    fault: &'w Fault,
    task: &'w Task<'w>,
}
fn inject(what: &'static str) -> ! {
    resume_unwind(Box::new(Injected(what)))
}
/// User code inside a number's conversion.
fn on_into() {
    point(kind::CALLBACK);
    let p = CUR.get().cast::<OpState<'static>>();
    if !p.is_null() {
        let (fault, task) = unsafe { ((*p).fault, (*p).task) };
        if matches!(fault, Fault::Panic(_)) {
            unsafe { (*p).fired = true };
            task.count("fault: user conversion panicked");
            inject("user conversion");
        }
    }
}

/// The value given to a variable by an operation with this seed.
pub fn val_for(seed: u64, name: &str) -> f64 {
    let mut h = seed;
    for b in name.bytes() {
        h = mix(h ^ u64::from(b));
    }
    if seed % 8 == 0 && h % 3 == 0 {
        let e = [0.0, 1.0, -1.0, 2.0, 0.0, 1.0, -0.0, 1e300, f64::INFINITY, f64::NAN];
        return e[(h >> 8) as usize % e.len()];
    }
    if seed % 8 == 1 {
        // whole numbers
        return (h >> 8) as f64 % 45.0;
    }
    if seed % 8 == 2 {
        // neighbours, also across the seeds of a case
        return ((seed >> 16) % 80 + (h >> 8) % 4) as f64;
    }
    let v = ((h >> 8) % 1900 + 70) as f64 / 64.0;
    if h >> 60 & 1 == 1 { -v } else { v }
}
fn show(v: f64) -> String {
    if v.is_nan() { "NaN".to_owned() } else { format!("{v:?}") }
}

/// How an operation on the library ended.
enum Cut {
    Injected,
    /// A panic nobody injected; already reported.
    Foreign,
}

fn match_calls(log: &[Rec], want: &[Rec], exact: bool) -> Result<(), String> {
    let mut used = vec![false; want.len()];
    for r in log {
        let hit = (0..want.len()).find(|&i| {
            let w = &want[i];
            !used[i]
                && w.0 == r.0
                && w.1 == r.1
                && w.2.len() == r.2.len()
                && w.2.iter().zip(&r.2).all(|(a, b)| close(*a, *b))
        });
        match hit {
            Some(i) => used[i] = true,
            None => {
                return Err(format!(
                    "function {} (captured {}) was called with {:?}, which is not a call left to make; calls to make: {want:?}; calls made: {log:?}",
                    r.0, r.1, r.2
                ))
            }
        }
    }
    if exact {
        if let Some(i) = used.iter().position(|u| !u) {
            return Err(format!("the call {:?} was not made; calls made: {log:?}", want[i]));
        }
    }
    Ok(())
}

/// Whether a text mentions a number.
fn has_number(s: &str, n: u64) -> bool {
    s.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string())
}

/// The calls made while parts of a tree were replaced by their values.
fn match_folded(log: &[Rec], t: &T, a: &BTreeMap<String, f64>) -> Result<(), String> {
    if log.is_empty() {
        return Ok(());
    }
    // Whatever the variables that are left stand for: a value that hangs on them is not
    // known yet.
    let mut r = Ok(());
    for seed in [1_001, 2_005, 3_003] {
        let mut env: BTreeMap<String, f64> = ast::vars(t).into_iter().map(|n| (n.clone(), val_for(seed, &n))).collect();
        env.extend(a.iter().map(|(k, v)| (k.clone(), *v)));
        let mut e = ast::Eval::new(&env);
        e.go(t);
        r = match_calls(log, &e.calls, false);
        if r.is_err() && (e.risky || !ast::steady(t, &env)) {
            // the arguments hang on how they are computed
            let plain = |v: &[Rec]| v.iter().map(|r| (r.0, r.1, Vec::new())).collect::<Vec<Rec>>();
            r = match_calls(&plain(log), &plain(&e.calls), false);
        }
        if r.is_err() {
            break;
        }
    }
    r
}

impl<'w> Task<'w> {
    fn new(w: &'w World<'w>, shared: Vec<Option<Arc<Obj>>>, single: bool) -> Self {
        Task {
            w,
            local: RefCell::new((0..LOCALS).map(|_| None).collect()),
            shared: RefCell::new(shared),
            out: RefCell::default(),
            cnt: RefCell::default(),
            single,
        }
    }
    fn count(&self, what: &'static str) {
        rt(|| *self.cnt.borrow_mut().entry(what).or_insert(0) += 1);
    }
    fn say(&self, s: String) {
        rt(|| self.out.borrow_mut().push(s));
    }

    /// Calls the library under the step's fault. The state says which user calls were made.
    fn guarded<R>(&self, fault: &Fault, f: impl FnOnce() -> R) -> (Result<R, Cut>, OpState<'_>) {
        let mut st = OpState {
            log: Vec::new(),
            n: 0,
            // the step outlives the operation
            fault: unsafe { &*std::ptr::from_ref(fault) },
            task: self,
            fired: false,
            blocked: 0,
        };
        let prev = CUR.replace(std::ptr::from_mut(&mut st).cast());
        let oom = OOM_IN.replace(match fault {
            Fault::Oom(n) => i64::from(*n),
            _ => -1,
        });
        let inlib = INLIB.replace(0);
        let r = catch_unwind(AssertUnwindSafe(f));
        INLIB.set(inlib);
        if matches!(fault, Fault::Oom(_)) && OOM_IN.get() < 0 {
            st.fired = true;
            self.count("fault: allocation failed");
        }
        OOM_IN.set(oom);
        CUR.set(prev);
        if st.blocked != 0 && self.w.case.prop == "C05" {
            violation(
                "blocked",
                format!("tasks (bit set {:#b}) could not proceed while a user function was stalled", st.blocked),
            );
        }
        let r = r.map_err(|p| {
            if p.is::<Injected>() {
                self.count("operations interrupted");
                return Cut::Injected;
            }
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                .unwrap_or_default();
            if matches!(fault, Fault::Oom(_)) && st.fired && msg.contains("alloc") {
                return Cut::Injected;
            }
            violation("panic", format!("the library panicked: {msg}"));
            Cut::Foreign
        });
        (r, st)
    }

    // ---- places ----
    fn peek<R>(&self, p: P, f: impl FnOnce(&Obj) -> R) -> Option<R> {
        match p {
            P::L(i) => {
                let o = self.local.borrow_mut().get_mut(usize::from(i))?.take()?;
                let r = f(&o);
                self.restore(i, Some(o));
                Some(r)
            }
            P::S(i) => {
                let o = self.shared.borrow().get(usize::from(i))?.clone()?;
                let r = f(&o);
                drop(o);
                Some(r)
            }
            P::K(i) => {
                let g = self.w.locks.get(usize::from(i))?.read().unwrap();
                g.as_ref().map(f)
            }
            P::B(_) => None,
        }
    }
    fn modify<R>(&self, p: P, f: impl FnOnce(&mut Option<Obj>) -> R) -> Option<R> {
        match p {
            P::L(i) => {
                let mut o = self.local.borrow_mut().get_mut(usize::from(i))?.take();
                let r = f(&mut o);
                self.restore(i, o);
                Some(r)
            }
            P::K(i) => {
                let mut g = self.w.locks.get(usize::from(i))?.write().unwrap();
                Some(f(&mut g))
            }
            P::S(_) | P::B(_) => None,
        }
    }
    /// Puts back what an operation worked on; something may have been put in its place meanwhile.
    fn restore(&self, i: u8, o: Option<Obj>) {
        let other = std::mem::replace(&mut self.local.borrow_mut()[usize::from(i)], o);
        if other.is_some() {
            self.release(other);
        }
    }
    fn put(&self, p: P, o: Obj) {
        let old = match p {
            P::L(i) => match self.local.borrow_mut().get_mut(usize::from(i)) {
                Some(s) => s.replace(o),
                None => Some(o),
            },
            P::K(i) => match self.w.locks.get(usize::from(i)) {
                Some(l) => l.write().unwrap().replace(o),
                None => Some(o),
            },
            P::B(i) => match self.w.boxes.get(usize::from(i)) {
                Some(l) => rt(|| l.lock().unwrap().replace(o)),
                None => Some(o),
            },
            P::S(_) => Some(o),
        };
        self.release(old);
    }
    fn take(&self, p: P) -> Option<Obj> {
        match p {
            P::L(i) => self.local.borrow_mut().get_mut(usize::from(i))?.take(),
            P::K(i) => self.w.locks.get(usize::from(i))?.write().unwrap().take(),
            P::B(i) => rt(|| self.w.boxes.get(usize::from(i))?.lock().unwrap().take()),
            P::S(_) => None,
        }
    }
    fn release<X>(&self, o: X) {
        let (r, st) = self.guarded(&Fault::None, || drop(o));
        if r.is_ok() && !st.log.is_empty() {
            violation("calls", format!("dropping an object called {:?}", st.log));
        }
    }

    // ---- steps ----
    fn step(&self, s: &Step) {
        for _ in 0..s.times {
            if violated() {
                return;
            }
            point(kind::OP);
            self.count("operations");
            let at = AtDrop { n: Cell::new(0), fault: &s.fault, task: self };
            let here = std::ptr::from_ref(&at).cast_mut().cast();
            let prev = AT_DROP.replace(if matches!(s.fault, Fault::AtDrop(..)) { here } else { std::ptr::null_mut() });
            self.op(&s.op, &s.fault);
            AT_DROP.set(prev);
            if self.single && DEPTH.get() == 0 {
                self.check_tokens(None);
            }
        }
    }

    fn op(&self, op: &Op, fault: &Fault) {
        match op {
            Op::NewParser { to, ctx } => {
                let (r, _) = self.guarded(fault, || {
                    if *ctx { d::parser_with(d::Context::default()) } else { d::parser_default() }
                });
                if let Ok(p) = r {
                    let m = ast::Ctx::default();
                    self.put(*to, Obj::Parser(Par { p: Some(p), m, names: Arc::default() }));
                }
            }
            Op::CloneParser { p, to } => {
                let n = self.peek(*p, |o| {
                    let Obj::Parser(p) = o else { return None };
                    let (r, _) = self.guarded(fault, || d::parser_clone(p.p.as_ref().unwrap()));
                    Some(Par { p: Some(r.ok()?), m: p.m.clone(), names: p.names.clone() })
                });
                if let Some(Some(n)) = n {
                    self.put(*to, Obj::Parser(n));
                }
            }
            Op::EqParser { a, b } => self.eq_parser(*a, *b),
            Op::SetVar { p, name, val, with } => {
                let n = self.name(*name);
                self.update(*p, fault, *with, &n, |m| {
                    m.defs.insert(n.clone(), Def::Var(val.0));
                }, |p, store| {
                    let num = d::Num(val.0, on_into);
                    let n = store.add(&n);
                    (num, n, p)
                }, |(num, n, p), with| {
                    if with {
                        let q = d::with_def(p, n, d::Def::Var(num));
                        d::drop_it(std::mem::replace(p, q));
                    } else {
                        d::set_var(p, n, num);
                    }
                });
            }
            Op::SetFn { p, f, with } => {
                let Some(def) = self.w.case.fns.get(usize::from(*f)) else { return };
                let (func, model) = self.make_fn(def);
                let mut func = Some(func);
                let name = model.name.clone();
                self.update(*p, fault, *with, &name, |m| {
                    m.defs.insert(name.clone(), Def::Fn(model.clone()));
                }, |p, _| (func.take().unwrap(), p), |(func, p), with| {
                    if with {
                        let q = d::with_def(p, "", d::Def::Fn(func));
                        d::drop_it(std::mem::replace(p, q));
                    } else {
                        d::set_fn(p, func);
                    }
                });
                if let Some(f) = func {
                    self.release(f);
                }
            }
            Op::Expect { p, names, with } => {
                let names: Vec<String> = names.iter().map(|n| self.name(*n)).collect();
                self.update(*p, fault, *with, "", |m| {
                    m.expected = Some(names.iter().cloned().collect());
                }, |p, store| {
                    let v: Vec<&'static str> = names.iter().map(|n| store.add(n)).collect();
                    (p, v)
                }, |(p, v), with| {
                    if with {
                        let q = d::with_expected(p, &v);
                        d::drop_it(std::mem::replace(p, q));
                    } else {
                        d::set_expected(p, &v);
                    }
                });
            }
            Op::Symbols { p, vars, fns } => {
                let mut model = BTreeMap::new();
                let mut real: Vec<(String, d::Symbol)> = Vec::new();
                for (n, v) in vars {
                    let n = self.name(*n);
                    if model.insert(n.clone(), Def::Var(v.0)).is_none() {
                        real.push((n, d::symbol_var(v.0)));
                    } else {
                        real.retain(|r| r.0 != n);
                        real.push((n, d::symbol_var(v.0)));
                    }
                }
                for (n, f) in fns {
                    let Some(def) = self.w.case.fns.get(usize::from(*f)) else { continue };
                    let n = self.name(*n);
                    let (func, m) = self.make_fn(def);
                    model.insert(n.clone(), Def::Fn(m));
                    let old = real.iter().position(|r| r.0 == n).map(|i| real.remove(i));
                    self.release(old);
                    real.push((n, d::symbol_fn(func)));
                }
                // `with_symbols` consumes: not interrupted, so that the parser survives
                let mut real = Some(real);
                self.update(*p, &Fault::None, false, "", |m| m.defs = model.clone(), |p, store| {
                    let real: Vec<(&'static str, d::Symbol)> =
                        real.take().unwrap().into_iter().map(|(n, s)| (store.add(&n), s)).collect();
                    (p, real)
                }, |(p, real), _| d::with_symbols(p, real));
                self.release(real);
            }
            Op::CheckCtx { p } => {
                self.peek(*p, |o| {
                    if let Obj::Parser(p) = o {
                        self.check_ctx(p, "ctx");
                        if self.w.case.prop == "C07" {
                            for pretty in [false, true] {
                                let (r, _) = self.guarded(&Fault::None, || d::debug_parser(p.p.as_ref().unwrap(), pretty));
                                if let Ok(text) = r {
                                    // (a text of the simulator's own: the library's is released)
                                    self.say(text.clone());
                                }
                            }
                        }
                    }
                });
            }
            Op::CallSymbol { p, f, seed } => self.call_symbol(*p, *f, *seed, fault),
            Op::Parse { p, src, to } => {
                let o = self.peek(*p, |o| match o {
                    Obj::Parser(p) => self.parse(p, *src, fault),
                    _ => None,
                });
                if let Some(Some(e)) = o {
                    self.put(*to, Obj::Expr(e));
                }
            }
            Op::TryFrom { src, to } => {
                let Some(text) = self.w.case.srcs.get(usize::from(*src)) else { return };
                let buf = Arc::new(Text::new(text));
                let s = buf.get();
                let (r, st) = self.guarded(fault, || d::try_from(s));
                if let Some(e) = self.parsed(r, st, *src, text, &ast::Ctx::default(), buf) {
                    self.put(*to, Obj::Expr(e));
                }
            }
            Op::Transient { p, srcs, seed } => {
                self.peek(*p, |o| {
                    if let Obj::Parser(p) = o {
                        self.transient(p, srcs, *seed, fault);
                    }
                });
            }
            Op::Eval { x, how, seed, omit, extra } => {
                self.peek(*x, |o| {
                    if let Obj::Expr(e) = o {
                        self.eval(e, *how, *seed, *omit, *extra, fault);
                    }
                });
            }
            Op::Simplify { x, how, seed, pick, absent } => {
                self.modify(*x, |slot| self.simplify(slot, *how, *seed, pick, *absent, fault));
            }
            Op::OnCopy { x, how, seed, pick } => {
                let o = self.peek(*x, |o| match o {
                    Obj::Expr(e) => self.clone_expr(e, &Fault::None),
                    _ => None,
                });
                if let Some(Some(e)) = o {
                    let mut slot = Some(Obj::Expr(e));
                    self.simplify(&mut slot, *how, *seed, pick, false, fault);
                    if let Some(Obj::Expr(e)) = &slot {
                        self.eval(e, EvalHow::Checked, *seed, 0, false, &Fault::None);
                    }
                    self.release(slot);
                }
            }
            Op::Clone { x, to } => {
                let o = self.peek(*x, |o| match o {
                    Obj::Expr(e) => self.clone_expr(e, fault),
                    _ => None,
                });
                if let Some(Some(e)) = o {
                    self.put(*to, Obj::Expr(e));
                }
            }
            Op::Eq { a, b } => {
                // both may be the same place
                let first = self.peek(*a, |o| match o {
                    Obj::Expr(a) => self.clone_expr(a, &Fault::None),
                    _ => None,
                });
                let Some(Some(a)) = first else { return };
                self.peek(*b, |o| {
                    if let Obj::Expr(b) = o {
                        self.eq_expr(&a, b, fault);
                    }
                });
                self.release(a);
            }
            Op::Bind { x, how, seed, omit, extra, to } => {
                let o = self.peek(*x, |o| match o {
                    Obj::Expr(e) => self.bind(e, *how, *seed, *omit, *extra, fault),
                    _ => None,
                });
                if let Some(Some(b)) = o {
                    self.put(*to, Obj::Bound(b));
                }
            }
            Op::Call { b, seed, short, long } => {
                self.peek(*b, |o| {
                    if let Obj::Bound(b) = o {
                        self.call(b, *seed, *short, *long, fault);
                    }
                });
            }
            Op::Render { x, style, wr } => {
                self.peek(*x, |o| {
                    if let Obj::Expr(e) = o {
                        // indented text of a deep tree takes cubic time
                        let style = if *style == Style::Pretty && e.m.disp.len() > 600 { &Style::Debug } else { style };
                        let known = (*style == Style::Display).then_some(&*e.m.disp);
                        self.render(e.x.as_ref().unwrap(), known, *style, *wr, fault);
                    }
                });
            }
            Op::RenderErr { p, src, style, wr } => {
                self.peek(*p, |o| {
                    if let Obj::Parser(p) = o {
                        self.render_err(p, *src, *style, *wr, fault);
                    }
                });
            }
            Op::Drop { x } => match x {
                P::S(i) => {
                    let o = self.shared.borrow_mut().get_mut(usize::from(*i)).and_then(Option::take);
                    self.release(o);
                }
                x => {
                    let o = self.take(*x);
                    self.release(o);
                }
            },
            Op::Move { from, to } => {
                if let Some(o) = self.take(*from) {
                    self.put(*to, o);
                }
            }
        }
    }

    fn name(&self, i: u8) -> String {
        let n = &self.w.case.names;
        n.get(usize::from(i) % n.len().max(1)).cloned().unwrap_or_else(|| "n".to_owned())
    }
    fn make_fn(&self, def: &FnDef) -> (d::Function, Arc<Func>) {
        let name = intern(&def.name);
        let dynamic = |token| Arc::new(Func { name: def.name.clone(), key: def.key, token, arity: def.arity });
        match def.how {
            FnHow::Static(i) => {
                let i = i % d::N_STATIC;
                let f = d::new_static(name, i);
                let key = d::STATIC_KEY + i as u64;
                (f, Arc::new(Func { name: def.name.clone(), key, token: 0, arity: d::static_arity(i) }))
            }
            FnHow::DynMacro if def.arity.is_none_or(|n| (1..=9).contains(&n)) => {
                let t = obj::new_token();
                let f = d::new_dyn_macro(name, def.key, t, def.arity.unwrap_or(0));
                (f.unwrap(), dynamic(t))
            }
            _ => {
                let t = obj::new_token();
                (d::new_dyn(name, def.key, t, def.arity), dynamic(t))
            }
        }
    }

    /// A context update: entirely or, if interrupted, entirely or not at all.
    #[allow(clippy::too_many_arguments)]
    fn update<A>(
        &self, place: P, fault: &Fault, with: bool, _name: &str,
        model: impl FnOnce(&mut ast::Ctx),
        prep: impl FnOnce(&'static mut d::Pa, &NameStore) -> A,
        go: impl FnOnce(A, bool),
    ) {
        self.modify(place, |slot| {
            let Some(Obj::Parser(p)) = slot else { return };
            let before = p.m.clone();
            let mut after = p.m.clone();
            model(&mut after);
            let real = unsafe { &mut *std::ptr::from_mut(p.p.as_mut().unwrap()) };
            let a = prep(real, &p.names);
            let (r, st) = self.guarded(fault, || go(a, with));
            if !st.log.is_empty() {
                violation("calls", format!("a context update called {:?}", st.log));
            }
            match r {
                Ok(()) => {
                    p.m = after;
                    self.check_ctx(p, "ctx");
                    self.say("update".to_owned());
                }
                Err(_) => {
                    p.m = after;
                    if self.ctx_diff(p).is_some() {
                        p.m = before;
                    }
                    self.check_ctx(p, "trace");
                    self.say("update cut".to_owned());
                }
            }
        });
    }
    fn ctx_diff(&self, p: &Par) -> Option<String> {
        let real = p.p.as_ref().unwrap();
        let mut names: BTreeSet<&str> = self.w.case.names.iter().map(String::as_str).collect();
        names.extend(self.w.case.fns.iter().map(|f| f.name.as_str()));
        names.extend(p.m.defs.keys().map(String::as_str));
        names.extend(["sin", "pi", "max"]);
        for n in names {
            let want = match p.m.defs.get(n) {
                None => d::Seen::None,
                Some(Def::Var(v)) => d::Seen::Var(*v),
                Some(Def::Fn(f)) => d::Seen::Fn(intern(&f.name), f.arity),
            };
            let got = d::get(real, n);
            let eq = match (&got, &want) {
                (d::Seen::Var(a), d::Seen::Var(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
                (a, b) => a == b,
            };
            if !eq {
                return Some(format!("the context has {got:?} for {n}, it should have {want:?}"));
            }
            if let Some(Def::Fn(f)) = p.m.defs.get(n) {
                // of the same name and arity, but is it the same one?
                let args = vec![1.25; usize::from(f.arity.unwrap_or(2))];
                let (r, st) = self.guarded(&Fault::None, || d::call_symbol(real, n, &args));
                if r.is_ok() && (st.log.len() != 1 || st.log[0].0 != f.key || st.log[0].1 != f.token) {
                    return Some(format!("the context's {n} is not the function defined last, calling it called {:?}", st.log));
                }
            }
        }
        let want = p.m.expected.as_ref().map(|s| s.iter().cloned().collect::<Vec<_>>());
        let got = d::expected(real);
        if got != want {
            return Some(format!("the context expects {got:?}, it should expect {want:?}"));
        }
        None
    }
    fn check_ctx(&self, p: &Par, class: &str) {
        let (r, _) = self.guarded(&Fault::None, || self.ctx_diff(p));
        if let Ok(Some(m)) = r {
            violation(class, m);
        }
    }
    fn eq_parser(&self, a: P, b: P) {
        let first = self.peek(a, |o| match o {
            Obj::Parser(p) => {
                let (r, _) = self.guarded(&Fault::None, || d::parser_clone(p.p.as_ref().unwrap()));
                Some(Par { p: Some(r.ok()?), m: p.m.clone(), names: p.names.clone() })
            }
            _ => None,
        });
        let Some(Some(a)) = first else { return };
        self.peek(b, |o| {
            let Obj::Parser(b) = o else { return };
            let (r, _) = self.guarded(&Fault::None, || {
                d::parser_eq(a.p.as_ref().unwrap(), b.p.as_ref().unwrap())
            });
            let nan = |c: &ast::Ctx| c.defs.values().any(|d| matches!(d, Def::Var(v) if v.is_nan()));
            if nan(&a.m) || nan(&b.m) {
                return;
            }
            let want = a.m.defs == b.m.defs && a.m.expected == b.m.expected;
            if r.is_ok_and(|r| r != want) {
                violation("eq", format!("comparing two parsers gave {}, their contents are {}equal", !want, if want { "" } else { "not " }));
            }
            self.say(format!("eq {want}"));
        });
        self.release(a);
    }
    fn call_symbol(&self, p: P, f: u8, seed: u64, fault: &Fault) {
        let Some(def) = self.w.case.fns.get(usize::from(f)) else { return };
        self.peek(p, |o| {
            let Obj::Parser(p) = o else { return };
            let Some(Def::Fn(m)) = p.m.defs.get(&def.name) else { return };
            let n = usize::from(m.arity.unwrap_or(3));
            let args: Vec<f64> = (0..n).map(|i| val_for(seed, &format!("a{i}"))).collect();
            let (r, st) = self.guarded(fault, || d::call_symbol(p.p.as_ref().unwrap(), &def.name, &args));
            let want = ast::user_value(m.key, &args);
            let rec = [(m.key, m.token, args)];
            match r {
                Ok(v) => {
                    if !v.is_some_and(|v| close(v, want)) {
                        violation("value", format!("calling {} directly gave {v:?}, not {want}", def.name));
                    }
                    if let Err(e) = match_calls(&st.log, &rec, true) {
                        violation("calls", e);
                    }
                    self.say(format!("call {}", show(want)));
                }
                Err(_) => {
                    if let Err(e) = match_calls(&st.log, &rec, false) {
                        violation("calls", e);
                    }
                    self.say("call cut".to_owned());
                }
            }
        });
    }

    fn parse(&self, p: &Par, src: u16, fault: &Fault) -> Option<Expr> {
        let text = self.w.case.srcs.get(usize::from(src))?;
        let buf = Arc::new(Text::new(text));
        let s = buf.get();
        let (r, st) = self.guarded(fault, || d::parse(p.p.as_ref().unwrap(), s));
        self.parsed(r, st, src, text, &p.m, buf)
    }

    /// Judges a parse and takes its result.
    fn parsed(
        &self, r: Result<Result<d::Ex, d::ParseError>, Cut>, st: OpState<'_>, src: u16, text: &str,
        ctx: &ast::Ctx, buf: Arc<Text>,
    ) -> Option<Expr> {
        let want = ast::parse(text, ctx, PEJMDAS);
        if !d::OPT && !st.log.is_empty() {
            violation("calls", format!("parsing {text:?} called {:?} although nothing is evaluated while parsing", st.log));
        }
        let none = BTreeMap::new();
        if let Ok(t) = &want {
            if let Err(m) = match_folded(&st.log, t, &none) {
                violation("calls", format!("parsing {text:?}: {m}"));
            }
        }
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                self.say("parse cut".to_owned());
                return None;
            }
        };
        self.count("parses");
        let x = match r {
            Err(e) => {
                let s = e.to_string();
                let full = format!("{s} | {} | {e:?}", d::help(&e));
                drop(e);
                self.memo(src, ctx, &full);
                self.say(format!("parse error {full}"));
                match &want {
                    Ok(_) => violation("snapshot", format!("parsing {text:?} failed: {s}")),
                    Err(Bad::Undeclared(v, _)) if !v.iter().any(|v| s.contains(&format!("`{v}`"))) => {
                        violation("snapshot", format!("parsing {text:?}: the error {s:?} names none of the undeclared variables {v:?}"));
                    }
                    Err(Bad::Few(a, g) | Bad::Many(a, g)) if !has_number(&s, u64::from(*a)) || !has_number(&s, *g as u64) => {
                        violation("snapshot", format!("parsing {text:?} under the context in force should report {a} arguments expected, {g} given, not {s:?}"));
                    }
                    Err(_) => {}
                }
                return None;
            }
            Ok(x) => x,
        };
        let mut banned = BTreeSet::new();
        let tree = match want {
            Ok(t) => Arc::new(t),
            // what optimisation at parse time removes is not there to be declared
            Err(Bad::Undeclared(un, t)) if d::OPT && ast::may_eliminate(&t, &none) => {
                banned = un;
                Arc::new(*t)
            }
            Err(b) => {
                violation("snapshot", format!("parsing {text:?} succeeded; it should have failed: {b:?}"));
                d::drop_it(x);
                return None;
            }
        };
        let funcs = ast::funcs(&tree);
        let wild = ast::ambiguous(&tree);
        let mut m = Model {
            tree,
            bound: BTreeMap::new(),
            disp: String::new(),
            lit: None,
            vars: BTreeSet::new(),
            funcs,
            wild,
            debug: String::new(),
        };
        self.refresh(&x, &mut m, &format!("parsing {text:?}"));
        self.memo(src, ctx, &format!("{} | {:?} | {}", m.disp, m.vars, m.debug));
        self.say(format!("parse {} {:?}", m.disp, m.vars));
        if let Some(v) = banned.iter().find(|v| m.vars.contains(*v)) {
            violation("snapshot", format!("parsing {text:?} succeeded although {v} is not declared"));
        }
        if let Some(lit) = m.lit.clone() {
            if !d::OPT && !ast::same(&m.tree, &lit) {
                violation("snapshot", format!("parsing {text:?} under {ctx:?} gave {}", m.disp));
            }
            self.check_shape(&m.tree, &none, &lit, &st.log, &format!("parsing {text:?}"));
            self.check_model(&m, &format!("parsing {text:?} under {ctx:?}"));
        }
        Some(Expr { x: Some(x), m, src: buf })
    }
    fn memo(&self, src: u16, ctx: &ast::Ctx, got: &str) {
        let key = (src, format!("{ctx:?}"));
        let old = rt(|| {
            let mut m = self.w.memo.lock().unwrap();
            m.entry(key).or_insert_with(|| got.to_owned()).clone()
        });
        if old != got {
            violation("differs", format!("parsing {:?} gave first {old:?} and later, under the same context, {got:?}", self.w.case.srcs[usize::from(src)]));
        }
    }
    /// Records what the expression now is.
    fn refresh(&self, x: &d::Xprs<'_>, m: &mut Model, what: &str) {
        let (r, st) = self.guarded(&Fault::None, || (render_text(x), d::vars(x)));
        if !st.log.is_empty() {
            violation("calls", format!("rendering called {:?}", st.log));
        }
        let Ok((disp, vars)) = r else { return };
        m.lit = if m.wild { None } else { ast::unrender(&disp, &m.funcs).map(Arc::new) };
        m.disp = disp;
        if matches!(&*self.w.case.prop, "C06" | "C07") {
            let (r, _) = self.guarded(&Fault::None, || debug_text(x));
            m.debug = r.unwrap_or_default();
        }
        m.vars = vars.into_iter().collect();
        match &m.lit {
            None if !m.wild => violation("render", format!("{what}: the rendering {:?} cannot be read", m.disp)),
            None => {}
            Some(lit) => {
                let occ = ast::vars(lit);
                if occ != m.vars {
                    violation("vars", format!("{what}: {} reports the variables {:?}, but has {occ:?}", m.disp, m.vars));
                }
            }
        }
    }
    /// No call and no variable of `before` got lost or appeared on the way to `after`.
    fn check_shape(&self, before: &T, a: &BTreeMap<String, f64>, after: &T, log: &[Rec], what: &str) {
        let elim = ast::may_eliminate(before, a);
        let cb = ast::count_calls(before);
        let ca = ast::count_calls(after);
        let mut cl: BTreeMap<u64, i64> = BTreeMap::new();
        for r in log {
            *cl.entry(r.0).or_insert(0) += 1;
        }
        for k in cb.keys().chain(ca.keys()).chain(cl.keys()) {
            let (b, n) = (cb.get(k).unwrap_or(&0), ca.get(k).unwrap_or(&0) + cl.get(k).unwrap_or(&0));
            if n > *b || !elim && n != *b {
                violation("calls", format!("{what}: of {b} calls of function {k}, {} were made and {} are left", cl.get(k).unwrap_or(&0), ca.get(k).unwrap_or(&0)));
            }
        }
        let mut vb = ast::vars(before);
        vb.retain(|v| !a.contains_key(v));
        let va = ast::vars(after);
        if !va.is_subset(&vb) || !elim && va != vb {
            violation("vars", format!("{what}: variables {vb:?} became {va:?}"));
        }
    }
    /// What is there now has the value of what was parsed.
    fn check_model(&self, m: &Model, what: &str) {
        let Some(lit) = &m.lit else { return };
        for seed in [1_001, 77] {
            let mut env: BTreeMap<String, f64> =
                ast::vars(&m.tree).iter().map(|n| (n.clone(), val_for(seed, n))).collect();
            env.extend(m.bound.clone());
            let mut a = ast::Eval::new(&env);
            let mut b = ast::Eval::new(&env);
            if let (Some(x), Some(y)) = (a.go(&m.tree), b.go(lit)) {
                if !a.risky && !close(x, y) && ast::steady(&m.tree, &env) {
                    violation("value", format!("{what} gave {}, which is {y} where {x} is right ({env:?})", m.disp));
                }
            }
        }
    }

    fn env(&self, m: &Model, seed: u64, omit: u8, extra: bool) -> BTreeMap<String, f64> {
        let mut names: Vec<&String> = m.vars.iter().collect();
        let mut r = Rng::new(seed);
        for _ in 0..omit {
            if !names.is_empty() {
                names.remove(r.usize(names.len()));
            }
        }
        let mut env: BTreeMap<String, f64> = names.iter().map(|n| ((*n).clone(), val_for(seed, n))).collect();
        if extra {
            for n in ["unused", "sin", "pi", "zzz"].iter().map(|s| (*s).to_owned()).chain(m.bound.keys().cloned()) {
                if !m.vars.contains(&n) {
                    let v = val_for(seed ^ 5, &n);
                    env.insert(n, v);
                }
            }
        }
        env
    }
    fn eval(&self, e: &Expr, how: EvalHow, seed: u64, omit: u8, extra: bool, fault: &Fault) {
        let x = e.x.as_ref().unwrap();
        let how = match how {
            EvalHow::NoVarsUnchecked if !e.m.vars.is_empty() => EvalHow::NoVars,
            h => h,
        };
        let omit = if how == EvalHow::Unchecked { 0 } else { omit };
        let env = if matches!(how, EvalHow::NoVars | EvalHow::NoVarsUnchecked) {
            BTreeMap::new()
        } else {
            self.env(&e.m, seed, omit, extra)
        };
        let mut list: Vec<(&str, f64)> = env.iter().map(|(k, v)| (k.as_str(), *v)).collect();
        if seed & 2 != 0 {
            list.reverse();
        }
        let (r, st) = self.guarded(fault, || match how {
            EvalHow::Checked => d::eval(x, &list).map_err(|e| e.to_string()),
            EvalHow::Unchecked => Ok(d::eval_unchecked(x, &list)),
            EvalHow::NoVars => d::eval_no_vars(x).map_err(|e| e.to_string()),
            EvalHow::NoVarsUnchecked => Ok(d::eval_no_vars_unchecked(x)),
        });
        self.evaluated(&e.m, &env, r, &st.log, "evaluating");
    }
    /// What the same evaluation gave before, on any thread and in any run, if it was different to the last bit.
    fn seen_before(&self, lit: &T, env: &BTreeMap<String, f64>, v: f64) -> Option<f64> {
        let v = if v.is_nan() { f64::NAN } else { v };
        let mut seen = SEEN.lock().unwrap_or_else(|e| e.into_inner());
        if seen.len() > 300_000 {
            seen.clear();
        }
        let w = *seen.entry(ast::identity(lit, env)).or_insert(v.to_bits());
        if w == v.to_bits() {
            self.count("evaluations compared with all before");
            return None;
        }
        Some(f64::from_bits(w))
    }
    fn evaluated(
        &self, m: &Model, env: &BTreeMap<String, f64>, r: Result<Result<f64, String>, Cut>, log: &[Rec], what: &str,
    ) {
        self.count("evaluations");
        let Some(lit) = &m.lit else {
            self.say(format!("eval {:?}", r.ok().map(|r| r.map(show))));
            return;
        };
        let mut e = ast::Eval::new(env);
        let want = e.go(lit);
        match r {
            Err(_) => {
                if let Err(s) = match_calls(log, &e.calls, false) {
                    violation("calls", format!("{what} {} (interrupted): {s}", m.disp));
                }
                self.say("eval cut".to_owned());
            }
            Ok(Err(s)) => {
                if let Err(s) = match_calls(log, &e.calls, false) {
                    violation("calls", format!("{what} {} (refused): {s}", m.disp));
                }
                if !e.missing.iter().any(|n| s.contains(&format!("'{n}'"))) {
                    violation("vars", format!("{what} {} with {env:?} was refused: {s}; missing: {:?}", m.disp, e.missing));
                }
                self.say(format!("eval refused {s}"));
            }
            Ok(Ok(v)) => {
                let Some(want) = want else {
                    violation("vars", format!("{what} {} without {:?} gave {v}", m.disp, e.missing));
                    return;
                };
                if let Err(s) = match_calls(log, &e.calls, true) {
                    violation("calls", format!("{what} {} with {env:?}: {s}", m.disp));
                }
                if !close(v, want) {
                    violation("value", format!("{what} {} with {env:?} gave {v}, not {want}", m.disp));
                }
                let before = self.seen_before(lit, env, v);
                if let Some(w) = before {
                    violation("differs", format!("{what} {} with {env:?} gave {v:?}; the same evaluation gave {w:?} before", m.disp));
                }
                if !m.wild {
                    let mut env = env.clone();
                    env.extend(m.bound.clone());
                    let mut s = ast::Eval::new(&env);
                    if let Some(w) = s.go(&m.tree) {
                        if !s.risky && !close(v, w) && ast::steady(&m.tree, &env) {
                            violation("value", format!("{what} {} with {env:?} gave {v}; what was parsed is worth {w}", m.disp));
                        }
                    }
                }
                self.say(format!("eval {}", show(v)));
            }
        }
    }

    fn simplify(
        &self, slot: &mut Option<Obj>, how: SimpHow, seed: u64, pick: &[u8], absent: bool, fault: &Fault,
    ) {
        let Some(Obj::Expr(e)) = slot else { return };
        let vars: Vec<String> = e.m.vars.iter().cloned().collect();
        let mut asg: Vec<(String, f64)> = Vec::new();
        for p in pick {
            if !vars.is_empty() {
                let n = &vars[usize::from(*p) % vars.len()];
                asg.push((n.clone(), val_for(seed, n)));
            }
        }
        if absent {
            for n in ["absent", "pi"].iter().map(|s| (*s).to_owned()).chain(e.m.bound.keys().cloned()) {
                if !e.m.vars.contains(&n) {
                    asg.insert(asg.len() / 2, (n, 3.25));
                    break;
                }
            }
        }
        let multi = matches!(how, SimpHow::MultiInPlace | SimpHow::MultiConsume);
        if !multi {
            asg.truncate(1);
            if asg.is_empty() {
                return;
            }
        }
        let mut a: BTreeMap<String, f64> = BTreeMap::new();
        for (n, v) in &asg {
            a.entry(n.clone()).or_insert(*v);
        }
        let list: Vec<(&str, f64)> = asg.iter().map(|(n, v)| (n.as_str(), *v)).collect();
        let in_place = matches!(how, SimpHow::InPlace | SimpHow::MultiInPlace);
        let before = if in_place && !fault.is_none() { self.clone_expr(e, &Fault::None) } else { None };
        let x = e.x.take().unwrap();
        let mut hold = Some(x);
        let (r, st) = self.guarded(fault, || match how {
            SimpHow::InPlace => {
                d::simplify_in_place(hold.as_mut().unwrap(), list[0]);
            }
            SimpHow::MultiInPlace => d::simplify_multiple_in_place(hold.as_mut().unwrap(), &list),
            SimpHow::Consume => hold = Some(d::simplify(hold.take().unwrap(), list[0])),
            SimpHow::MultiConsume => hold = Some(d::simplify_multiple(hold.take().unwrap(), &list)),
        });
        e.x = hold;
        let what = format!("simplifying {} for {list:?}", e.m.disp);
        if let Some(lit) = &e.m.lit {
            if let Err(s) = match_folded(&st.log, lit, &a) {
                violation("calls", format!("{what}: {s}"));
            }
        }
        if r.is_err() {
            self.say("simplify cut".to_owned());
            if !in_place {
                *slot = None;
                self.release(before);
                return;
            }
            if matches!(fault, Fault::Oom(_)) {
                // Only released properly: nothing is promised about its contents.
                let old = slot.take();
                self.release(old);
                self.release(before);
                return;
            }
            let mut m = e.m.clone();
            self.refresh(e.x.as_ref().unwrap(), &mut m, &format!("{what}, interrupted"));
            if m.disp != e.m.disp || m.vars != e.m.vars {
                violation("trace", format!("{what} was interrupted and left {} with variables {:?}", m.disp, m.vars));
            }
            if let Some(before) = before {
                self.eq_expr(e, &before, &Fault::None);
                self.release(before);
            }
            self.eval(e, EvalHow::Checked, seed ^ 9, 0, false, &Fault::None);
            return;
        }
        self.release(before);
        self.count("simplifications");
        let lit0 = e.m.lit.clone();
        for (n, v) in a {
            if e.m.vars.contains(&n) {
                e.m.bound.insert(n, v);
            }
        }
        let bound: BTreeMap<String, f64> = e.m.bound.clone();
        let mut m = e.m.clone();
        self.refresh(e.x.as_ref().unwrap(), &mut m, &what);
        e.m = m;
        self.say(format!("simplify {} {:?}", e.m.disp, e.m.vars));
        let lit1 = e.m.lit.clone();
        for (n, _) in &asg {
            if e.m.vars.contains(n) || lit1.as_ref().is_some_and(|l| ast::vars(l).contains(n)) {
                violation("unreplaced", format!("{what} left {n} in {}", e.m.disp));
            }
        }
        if let (Some(l0), Some(l1)) = (lit0, lit1) {
            self.check_shape(&l0, &bound, &l1, &st.log, &what);
        }
        if !e.m.wild {
            self.check_model(&e.m, &what);
        }
    }

    fn clone_expr(&self, e: &Expr, fault: &Fault) -> Option<Expr> {
        let (r, st) = self.guarded(fault, || d::clone(e.x.as_ref().unwrap()));
        if !st.log.is_empty() {
            violation("calls", format!("copying called {:?}", st.log));
        }
        let Ok(x) = r else {
            self.say("clone cut".to_owned());
            return None;
        };
        let n = Expr { x: Some(x), m: e.m.clone(), src: e.src.clone() };
        let mut m = e.m.clone();
        self.refresh(n.x.as_ref().unwrap(), &mut m, "copying");
        if m.disp != e.m.disp || m.vars != e.m.vars {
            violation("copy", format!("a copy of {} {:?} is {} {:?}", e.m.disp, e.m.vars, m.disp, m.vars));
        }
        if m.debug != e.m.debug {
            violation("text", format!("a copy of {:?} is rendered {:?}", e.m.debug, m.debug));
        }
        Some(n)
    }
    fn eq_expr(&self, a: &Expr, b: &Expr, fault: &Fault) {
        let (r, st) = self.guarded(fault, || d::eq(a.x.as_ref().unwrap(), b.x.as_ref().unwrap()));
        if !st.log.is_empty() {
            violation("calls", format!("comparing called {:?}", st.log));
        }
        let Ok(got) = r else { return };
        self.say(format!("eq {got}"));
        if a.m.has_nan() || b.m.has_nan() {
            return;
        }
        let (Some(la), Some(lb)) = (&a.m.lit, &b.m.lit) else { return };
        if ast::same(la, lb) && !got {
            violation("eq", format!("{} is not equal to {}", a.m.disp, b.m.disp));
        }
        if got && (a.m.vars != b.m.vars || ast::parts(la) != ast::parts(lb)) {
            violation("eq", format!("{} is equal to {}", a.m.disp, b.m.disp));
        }
    }

    fn bind(&self, e: &Expr, how: BindHow, seed: u64, omit: u16, extra: u8, fault: &Fault) -> Option<BoundObj> {
        let mut names: Vec<String> = e.m.vars.iter().cloned().collect();
        let mut r = Rng::new(seed);
        for i in (1..names.len()).rev() {
            names.swap(i, r.usize(i + 1));
        }
        names.truncate(names.len().saturating_sub(usize::from(omit)));
        for i in 0..extra {
            let n = ["unused", "more", "x9", "sin", "qq"][usize::from(i) % 5].to_owned();
            if !e.m.vars.contains(&n) && !names.contains(&n) {
                names.insert(r.usize(names.len() + 1), n);
            }
        }
        let mut kind = match how {
            BindHow::Fixed => d::Kind::Fixed,
            BindHow::Array => d::Kind::Array,
            BindHow::Slice => d::Kind::Slice,
        };
        if kind == d::Kind::Fixed && names.is_empty() {
            names.push("unused".to_owned());
        }
        if kind == d::Kind::Fixed && names.len() > 9 || kind == d::Kind::Array && names.len() > d::MAX_ARRAY {
            kind = d::Kind::Slice;
        }
        let given: BTreeSet<String> = names.iter().cloned().collect();
        let missing: BTreeSet<String> = e.m.vars.difference(&given).cloned().collect();
        let keep = BoundNames::new(&names);
        let slice = keep.get();
        let (r, st) = self.guarded(fault, || {
            let x = d::clone(e.x.as_ref().unwrap());
            d::bind(x, kind, slice)
        });
        if !st.log.is_empty() {
            violation("calls", format!("binding called {:?}", st.log));
        }
        match r {
            Err(_) => {
                self.say("bind cut".to_owned());
                None
            }
            Ok(Err(err)) => {
                let s = err.to_string();
                let inner = s.split_once('\'').and_then(|s| s.1.rsplit_once('\'')).map_or("", |s| s.0);
                let listed: Vec<&str> = inner.split(", ").filter(|s| !s.is_empty()).collect();
                let set: BTreeSet<String> = listed.iter().map(|s| (*s).to_owned()).collect();
                if set != missing || listed.len() != missing.len() {
                    violation("vars", format!("binding {} to {names:?} was refused: {s:?}; omitted: {missing:?}", e.m.disp));
                }
                self.say(format!("bind refused {s} {err:?}"));
                None
            }
            Ok(Ok(f)) => {
                if !missing.is_empty() {
                    violation("vars", format!("binding {} to {names:?} succeeded without {missing:?}", e.m.disp));
                }
                self.say("bind".to_owned());
                Some(BoundObj {
                    f: Some(f),
                    names,
                    slice_kind: kind == d::Kind::Slice,
                    m: e.m.clone(),
                    _keep: (e.src.clone(), keep),
                })
            }
        }
    }
    fn call(&self, b: &BoundObj, seed: u64, short: u8, long: u8, fault: &Fault) {
        let mut vals: Vec<f64> = b.names.iter().map(|n| val_for(seed, n)).collect();
        if b.slice_kind {
            vals.truncate(vals.len().saturating_sub(usize::from(short)));
        }
        let env: BTreeMap<String, f64> = b.names.iter().cloned().zip(vals.iter().copied()).collect();
        if b.slice_kind && vals.len() == b.names.len() {
            vals.extend((0..long).map(f64::from));
        }
        let (r, st) = self.guarded(fault, || d::call_bound(b.f.as_ref().unwrap(), &vals).map_err(|e| e.to_string()));
        self.evaluated(&b.m, &env, r, &st.log, "calling the bound");
    }

    fn render<X: Display + Debug>(&self, t: &X, known: Option<&str>, style: Style, wr: Wr, fault: &Fault) {
        let st = match style {
            Style::Display => d::Style::Display,
            Style::Debug => d::Style::Debug,
            Style::Pretty => d::Style::Pretty,
        };
        let full = |_: ()| {
            let mut s = String::new();
            let (r, _) = self.guarded(&Fault::None, || {
                d::render(t, st, &mut |p| {
                    s.push_str(p);
                    Ok(())
                })
            });
            r.ok().map(|_| s)
        };
        let Some(want) = full(()) else { return };
        if known.is_some_and(|k| k != want) {
            violation("render", format!("{known:?} is now rendered as {want:?}"));
        }
        self.count("renderings");
        let mut got = String::new();
        let mut n = 0u32;
        let mut failed = false;
        let mut after = false;
        let (r, _) = self.guarded(fault, || {
            d::render(t, st, &mut |p| {
                point(kind::WRITER);
                after |= failed;
                n += 1;
                match wr {
                    Wr::Err(k) if k < n => {
                        failed = true;
                        return Err(std::fmt::Error);
                    }
                    Wr::Once(k) if k + 1 == n => {
                        failed = true;
                        return Err(std::fmt::Error);
                    }
                    Wr::ErrByte(k) if got.len() + p.len() > k as usize => {
                        failed = true;
                        let mut room = (k as usize).saturating_sub(got.len()).min(p.len());
                        while !p.is_char_boundary(room) {
                            room -= 1;
                        }
                        got.push_str(&p[..room]);
                        return Err(std::fmt::Error);
                    }
                    Wr::Panic(k) if k < n => {
                        failed = true;
                        inject("writer");
                    }
                    _ => {}
                }
                got.push_str(p);
                Ok(())
            })
        });
        if failed {
            self.count(if matches!(wr, Wr::Panic(_)) { "fault: writer panicked" } else { "fault: writer failed" });
        }
        if after {
            violation("writer", format!("rendering {want:?}: the writer was used after it had failed"));
        }
        if !want.starts_with(&got) {
            violation("writer", format!("rendering {want:?} to a failing writer wrote {got:?}"));
        }
        match (&r, failed) {
            (Ok(Ok(())), true) => violation("writer", format!("rendering {want:?} succeeded although the writer failed after {got:?}")),
            (Ok(Err(_)), false) => violation("writer", format!("rendering {want:?} failed although the writer did not")),
            (Ok(Ok(())), false) if got != want => violation("writer", format!("rendering {want:?} wrote {got:?}")),
            _ => {}
        }
        match full(()) {
            Some(again) if again != want => {
                violation("writer", format!("rendering {want:?} again gives {again:?}"));
            }
            _ => {}
        }
        self.say(format!("render {failed} {got}"));
    }
    fn render_err(&self, p: &Par, src: u16, style: Style, wr: Wr, fault: &Fault) {
        let Some(text) = self.w.case.srcs.get(usize::from(src)) else { return };
        let buf = Text::new(text);
        let (r, _) = self.guarded(&Fault::None, || d::parse(p.p.as_ref().unwrap(), buf.get()));
        match r {
            Err(_) => {}
            Ok(Err(e)) => {
                self.render(&e, None, style, wr, fault);
                self.say(e.to_string());
            }
            Ok(Ok(x)) => {
                let (r, _) = self.guarded(&Fault::None, || d::eval_no_vars(&x));
                if let Ok(Err(e)) = r {
                    self.render(&e, None, style, wr, fault);
                    self.say(e.to_string());
                }
                let (r, _) = self.guarded(&Fault::None, || d::bind(x, d::Kind::Slice, &[]));
                match r {
                    Ok(Err(e)) => {
                        self.render(&e, None, style, wr, fault);
                        self.say(e.to_string());
                    }
                    Ok(Ok(b)) => self.release(b),
                    Err(_) => {}
                }
            }
        }
    }

    /// Expressions that live only inside one function, all over the same buffer.
    fn transient(&self, p: &Par, srcs: &[u16], seed: u64, fault: &Fault) {
        let texts: Vec<&String> = srcs.iter().filter_map(|s| self.w.case.srcs.get(usize::from(*s))).collect();
        let cap = texts.iter().map(|t| t.len()).max().unwrap_or(0);
        let mut buf = String::with_capacity(cap);
        for (i, text) in texts.iter().enumerate() {
            buf.clear();
            buf.push_str(text);
            let want = ast::parse(text, &p.m, PEJMDAS);
            let (r, st) = self.guarded(fault, || d::parse(p.p.as_ref().unwrap(), &buf));
            let x = match r {
                Err(_) => continue,
                Ok(Err(e)) => {
                    if want.is_ok() {
                        violation("snapshot", format!("parsing {text:?} failed: {e}"));
                    }
                    continue;
                }
                Ok(Ok(x)) => x,
            };
            let tree = match want {
                Ok(t) => t,
                Err(Bad::Undeclared(_, t)) => *t,
                Err(_) => {
                    d::drop_it(x);
                    continue;
                }
            };
            let mut m = Model {
                wild: ast::ambiguous(&tree),
                funcs: ast::funcs(&tree),
                tree: Arc::new(tree),
                bound: BTreeMap::new(),
                disp: String::new(),
                lit: None,
                vars: BTreeSet::new(),
                debug: String::new(),
            };
            self.refresh(&x, &mut m, &format!("parsing {text:?} in a reused buffer"));
            if let Some(lit) = &m.lit {
                self.check_shape(&m.tree, &BTreeMap::new(), lit, &st.log, &format!("parsing {text:?} in a reused buffer"));
            }
            let env = self.env(&m, seed.wrapping_add(i as u64), 0, false);
            let list: Vec<(&str, f64)> = env.iter().map(|(k, v)| (k.as_str(), *v)).collect();
            let (r, st) = self.guarded(fault, || d::eval(&x, &list).map_err(|e| e.to_string()));
            self.evaluated(&m, &env, r, &st.log, "evaluating (reused buffer)");
            let (_, _) = self.guarded(&Fault::None, || d::drop_it(x));
        }
    }

    // ---- captured values ----
    /// With nobody else running: exactly the captured values something refers to are there.
    fn check_tokens(&self, left: Option<&[Obj]>) {
        let mut may = BTreeSet::new();
        let mut must = BTreeSet::new();
        let mut see = |o: &Obj| {
            let (a, b) = o.tokens();
            may.extend(a);
            must.extend(b);
        };
        match left {
            Some(l) => l.iter().for_each(&mut see),
            None => {
                self.local.borrow().iter().flatten().for_each(&mut see);
                self.shared.borrow().iter().flatten().for_each(|o| see(o));
                self.w.locks.iter().for_each(|l| l.read().unwrap().iter().for_each(&mut see));
                self.w.boxes.iter().for_each(|l| l.lock().unwrap().iter().for_each(&mut see));
            }
        }
        for t in 1..obj::tokens() {
            let live = obj::token_state(t) == obj::LIVE;
            if live && !may.contains(&t) {
                violation("token", format!("captured value {t} was not dropped although nothing refers to it"));
                return;
            }
            if !live && must.contains(&t) {
                violation("token", format!("captured value {t} was dropped although an object refers to it"));
                return;
            }
        }
    }

    /// A last look at an object.
    fn verify(&self, o: &Obj) {
        match o {
            Obj::Expr(e) => {
                let mut m = e.m.clone();
                self.refresh(e.x.as_ref().unwrap(), &mut m, "at the end");
                if m.disp != e.m.disp || m.vars != e.m.vars {
                    violation("trace", format!("{} {:?} has become {} {:?}", e.m.disp, e.m.vars, m.disp, m.vars));
                }
                if m.debug != e.m.debug {
                    violation("text", format!("what was rendered {:?} is now rendered {:?}", e.m.debug, m.debug));
                }
                self.eval(e, EvalHow::Checked, 31, 0, false, &Fault::None);
                if !e.m.vars.is_empty() {
                    self.eval(e, EvalHow::Checked, 33, 1, true, &Fault::None);
                }
            }
            Obj::Bound(b) => self.call(b, 35, 0, 0, &Fault::None),
            Obj::Parser(p) => {
                self.check_ctx(p, "ctx");
                for s in 0..self.w.case.srcs.len().min(4) {
                    if let Some(e) = self.parse(p, s as u16, &Fault::None) {
                        self.release(e);
                    }
                }
            }
        }
    }
}

fn render_text(x: &d::Xprs<'_>) -> String {
    let mut s = String::new();
    let _ = d::render(x, d::Style::Display, &mut |p| {
        s.push_str(p);
        Ok(())
    });
    s
}

fn debug_text(x: &d::Xprs<'_>) -> String {
    let mut s = String::new();
    let _ = d::render(x, d::Style::Debug, &mut |p| {
        s.push_str(p);
        Ok(())
    });
    s
}

fn intern(s: &str) -> &'static str {
    static NAMES: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
    rt(|| {
        let mut m = NAMES.lock().unwrap();
        if let Some(n) = m.get(s) {
            return *n;
        }
        let n: &'static str = Box::leak(s.to_owned().into_boxed_str());
        m.insert(s.to_owned(), n);
        n
    })
}

const STACK: usize = 256 << 20;

/// Ends a task's turn after everything else its thread keeps to itself is gone: what is made
/// first goes last.
struct Finish(Cell<Option<usize>>);
impl Drop for Finish {
    fn drop(&mut self) {
        if let Some(i) = self.0.get() {
            sched::task_finish(i);
        }
    }
}
thread_local! {
    static FINISH: Finish = const { Finish(Cell::new(None)) };
}

/// Runs a case on fresh threads.
pub fn run(case: &Case) -> RunOut {
    let mut out = RunOut::default();
    *VIOL.lock().unwrap() = None;
    obj::reset_tokens();
    static EPOCH: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let epoch = EPOCH.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1;
    let tracked0 = alloc::TRACKED.load(std::sync::atomic::Ordering::Relaxed);
    alloc::begin(epoch, if case.reuse { alloc::Reuse::Immediately } else { alloc::Reuse::Never });
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                HASH_STREAM.set(mix(case.hash_seed));
                seams::alt_stack();
                control(case, &mut out);
                out.outside = sched::outside_steps();
            })
            .expect("thread")
            // (with what it keeps to itself: a scope does not wait for that)
            .join()
            .expect("controller");
    });
    let ended = alloc::end();
    out.tracked = alloc::TRACKED.load(std::sync::atomic::Ordering::Relaxed) - tracked0;
    out.live_blocks = ended.live_blocks;
    if ended.written_after_free > 0 {
        violation("memory", format!("{} freed blocks were written to", ended.written_after_free));
    }
    if d::UNSHAREABLE.load(std::sync::atomic::Ordering::Relaxed) {
        violation("shareable", "a bound function has a type that cannot be shared between threads".to_owned());
    }
    out.violation = VIOL.lock().unwrap().take();
    out
}
use crate::obj::VIOLATION as VIOL;

fn control(case: &Case, out: &mut RunOut) {
    let mut shared: Vec<Option<Arc<Obj>>> = (0..SHARED).map(|_| None).collect();
    let mut w = World {
        case,
        locks: (0..LOCKS).map(|_| RwLock::new(None)).collect(),
        boxes: (0..BOXES).map(|_| Mutex::new(None)).collect(),
        memo: Mutex::default(),
    };
    let mut total = Counts::new();
    {
        // setup, on a world without shared objects
        let empty = World {
            case,
            locks: Vec::new(),
            boxes: Vec::new(),
            memo: Mutex::default(),
        };
        let t = Task::new(&empty, Vec::new(), true);
        for s in &case.setup {
            t.step(s);
        }
        for (i, o) in t.local.take().into_iter().enumerate() {
            if i < SHARED {
                shared[i] = o.map(Arc::new);
            } else if i - SHARED < LOCKS {
                w.locks[i - SHARED] = RwLock::new(o);
            }
        }
        out.transcript.push(t.out.take());
        add(&mut total, &t.cnt.take());
    }
    let n = case.tasks.len();
    let mut left: Vec<Obj> = Vec::new();
    if n > 0 && !violated() {
        let strategy = match &case.sched {
            Sched::Seq => Strategy::Sequential,
            Sched::Gaps(g) => Strategy::Gaps(*g),
            Sched::Pct { d, len } => Strategy::Pct { d: *d, len: *len },
            Sched::Shared { den, gap } => Strategy::Shared { den: *den, gap: *gap },
            Sched::Events(n) => Strategy::Events { den: *n },
            Sched::Fixed(v) => Strategy::Fixed(v.clone()),
        };
        sched::begin(n, strategy, case.sched_seed, MAX_STEPS);
        type Left = (Vec<String>, Counts, Vec<Obj>, Vec<Option<Arc<Obj>>>);
        let results: Vec<Mutex<Left>> = (0..n).map(|_| Mutex::default()).collect();
        let tasks: Vec<Task> = (0..n).map(|_| Task::new(&w, shared.clone(), n == 1)).collect();
        shared.clear();
        std::thread::scope(|s| {
            let mut threads = Vec::new();
            for (i, t) in tasks.into_iter().enumerate() {
                let r = &results[i];
                let thread = std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let t = t;
                        HASH_STREAM.set(mix(case.hash_seed ^ (i as u64 + 1)));
                        seams::alt_stack();
                        sched::task_start(i);
                        FINISH.with(|f| f.0.set(Some(i)));
                        for (k, step) in t.w.case.tasks[i].iter().enumerate() {
                            sched::set_op(k as u32 + 1);
                            t.step(step);
                        }
                        let objs: Vec<Obj> = t.local.take().into_iter().flatten().collect();
                        let shared = t.shared.take();
                        rt(|| *r.lock().unwrap() = (t.out.take(), t.cnt.take(), objs, shared));
                    })
                    .expect("thread");
                threads.push(thread);
            }
            sched::drive();
            for t in threads {
                t.join().expect("task");
            }
        });
        let st = sched::state();
        out.kinds = st.kinds;
        out.steps = st.step;
        out.preemptions = st.voluntary;
        out.shared = st.shared;
        out.sched_hash = st.hash;
        out.sim_ns = st.now - 1_000_000_000;
        out.schedule = sched::decisions();
        for r in results {
            let (o, c, objs, sh) = r.into_inner().unwrap();
            out.transcript.push(o);
            add(&mut total, &c);
            left.extend(objs);
            shared.extend(sh);
        }
    }
    // every object is looked at once more, then they go one by one
    // every holder but the last gives up its reference
    for o in shared.into_iter().flatten() {
        left.extend(Arc::into_inner(o));
    }
    for l in &w.locks {
        left.extend(l.write().unwrap().take());
    }
    for b in &w.boxes {
        left.extend(b.lock().unwrap().take());
    }
    let t = Task::new(&w, Vec::new(), false);
    let mut r = Rng::new(case.seed ^ 0xD409);
    if !violated() {
        for o in &left {
            t.verify(o);
        }
    }
    while !left.is_empty() {
        let o = left.swap_remove(r.usize(left.len()));
        // what it was made from may be gone by now
        if !violated() {
            t.verify(&o);
        }
        t.release(o);
        if !violated() {
            t.check_tokens(Some(&left));
        }
    }
    out.transcript.push(t.out.take());
    add(&mut total, &t.cnt.take());
    out.counts = total.into_iter().map(|(k, v)| (k.to_owned(), v)).collect();
}
fn add(a: &mut Counts, b: &Counts) {
    for (k, v) in b {
        *a.entry(k).or_insert(0) += v;
    }
}
