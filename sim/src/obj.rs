//! The objects of a run, each with its model, and the state the user functions share.
use crate::ast::{self, Ctx, Func, T};
use simcore::{lib, rt};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
use std::sync::{Arc, Mutex};
use xdriver as d;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    pub task: i32,
    pub op: u32,
}
pub static VIOLATION: Mutex<Option<Violation>> = Mutex::new(None);
pub fn violated() -> bool {
    rt(|| VIOLATION.lock().unwrap().is_some())
}
pub fn violation(class: &str, msg: String) {
    rt(|| {
        let task = simcore::TASK.get();
        let op = if task < 0 { 0 } else { simcore::sched::state().op_of[task as usize] };
        let mut v = VIOLATION.lock().unwrap();
        if v.is_none() {
            *v = Some(Violation { class: class.to_owned(), msg, task, op });
        }
    });
}

// ---- captured values ----
const MAX_TOKENS: usize = 1 << 16;
static TOKENS: [AtomicU8; MAX_TOKENS] = [const { AtomicU8::new(0) }; MAX_TOKENS];
static NEXT_TOKEN: AtomicU64 = AtomicU64::new(1);
pub const LIVE: u8 = 1;
pub const DROPPED: u8 = 2;
pub fn new_token() -> u64 {
    let t = NEXT_TOKEN.fetch_add(1, Ordering::Relaxed);
    assert!((t as usize) < MAX_TOKENS, "too many captured values in one run");
    TOKENS[t as usize].store(LIVE, Ordering::Relaxed);
    t
}
pub fn token_state(t: u64) -> u8 {
    TOKENS[t as usize].load(Ordering::Relaxed)
}
pub fn tokens() -> u64 {
    NEXT_TOKEN.load(Ordering::Relaxed)
}
pub fn reset_tokens() {
    for t in 1..NEXT_TOKEN.swap(1, Ordering::Relaxed) {
        TOKENS[t as usize].store(0, Ordering::Relaxed);
    }
}
pub fn on_drop(t: u64) {
    // A value dropped by a library object that outlived its run is reported by that run.
    match TOKENS[t as usize].swap(DROPPED, Ordering::Relaxed) {
        LIVE => {}
        DROPPED => violation("token", format!("captured value {t} was dropped twice")),
        _ => {}
    }
}

/// An immutable byte range whose owner may go away; overwritten when it does.
pub struct Text(Box<str>);
impl Text {
    pub fn new(s: &str) -> Self {
        // the library sees the address, so let it be one that was just freed
        Text(lib(|| s.to_owned().into_boxed_str()))
    }
    /// # Safety: the caller keeps `self` alive longer than the result.
    pub fn get(&self) -> &'static str {
        unsafe { &*std::ptr::from_ref::<str>(&self.0) }
    }
}
impl Drop for Text {
    fn drop(&mut self) {
        unsafe { self.0.as_bytes_mut().fill(b'?') };
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    /// What was parsed.
    pub tree: Arc<T>,
    /// What has been replaced since.
    pub bound: BTreeMap<String, f64>,
    /// What is there now, by its rendering.
    pub disp: String,
    pub lit: Option<Arc<T>>,
    pub vars: BTreeSet<String>,
    pub funcs: Vec<Arc<Func>>,
    /// Its debug rendering.
    pub debug: String,
    /// The rendering does not tell its functions apart, so `lit` is not known.
    pub wild: bool,
}
impl Model {
    pub fn has_nan(&self) -> bool {
        self.disp.contains("NaN")
    }
}

pub struct Expr {
    pub x: Option<d::Ex>,
    pub m: Model,
    pub src: Arc<Text>,
}
impl Drop for Expr {
    fn drop(&mut self) {
        if let Some(x) = self.x.take() {
            d::drop_it(x);
        }
    }
}
pub struct BoundNames {
    pub slice: Box<[&'static str]>,
    _texts: Vec<Text>,
}
impl BoundNames {
    pub fn new(names: &[String]) -> Self {
        let t: Vec<Text> = names.iter().map(|n| Text::new(n)).collect();
        BoundNames { slice: t.iter().map(Text::get).collect(), _texts: t }
    }
    pub fn get(&self) -> d::Names {
        unsafe { &*std::ptr::from_ref::<[&'static str]>(&self.slice) }
    }
}
pub struct BoundObj {
    pub f: Option<d::Bound>,
    pub names: Vec<String>,
    pub slice_kind: bool,
    pub m: Model,
    pub _keep: (Arc<Text>, BoundNames),
}
impl Drop for BoundObj {
    fn drop(&mut self) {
        if let Some(f) = self.f.take() {
            d::drop_it(f);
        }
    }
}
/// Names given to a context; they live as long as the context and its copies.
#[derive(Default)]
pub struct NameStore(Mutex<Vec<Text>>);
impl NameStore {
    pub fn add(&self, n: &str) -> &'static str {
        let t = Text::new(n);
        let s = t.get();
        rt(|| self.0.lock().unwrap().push(t));
        s
    }
}
pub struct Par {
    pub p: Option<d::Pa>,
    pub m: Ctx,
    pub names: Arc<NameStore>,
}
impl Drop for Par {
    fn drop(&mut self) {
        if let Some(p) = self.p.take() {
            d::drop_it(p);
        }
    }
}
pub enum Obj {
    Expr(Expr),
    Bound(BoundObj),
    Parser(Par),
}
impl Obj {
    /// Tokens this object may keep alive, and tokens it must keep alive.
    pub fn tokens(&self) -> (BTreeSet<u64>, BTreeSet<u64>) {
        fn of(m: &Model) -> (BTreeSet<u64>, BTreeSet<u64>) {
            let may = m.funcs.iter().map(|f| f.token).filter(|&t| t != 0).collect();
            let must = m.lit.iter().flat_map(|l| ast::funcs(l)).map(|f| f.token);
            (may, must.filter(|&t| t != 0).collect())
        }
        match self {
            Obj::Expr(e) => of(&e.m),
            Obj::Bound(b) => of(&b.m),
            Obj::Parser(p) => {
                let s: BTreeSet<u64> = p
                    .m
                    .defs
                    .values()
                    .filter_map(|d| match d {
                        ast::Def::Fn(f) if f.token != 0 => Some(f.token),
                        _ => None,
                    })
                    .collect();
                (s.clone(), s)
            }
        }
    }
}
