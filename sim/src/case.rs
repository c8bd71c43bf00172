//! A case: everything one simulated run is made of. A case is generated from a seed and is
//! also what a replay file holds.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub hash_seed: u64,
    /// Freed memory is handed out again at once (or, if false, never).
    pub reuse: bool,
    pub sched: Sched,
    pub sched_seed: u64,
    pub fns: Vec<FnDef>,
    pub srcs: Vec<String>,
    pub names: Vec<String>,
    /// Runs before the tasks; its slots become the shared (0..8) and locked (8..) objects.
    pub setup: Vec<Step>,
    pub tasks: Vec<Vec<Step>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sched {
    Seq,
    Gaps(u64),
    Pct { d: u64, len: u64 },
    Events(u64),
    Shared { den: u64, gap: u64 },
    /// The task chosen at each of these steps.
    Fixed(Vec<(u64, u8)>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FnDef {
    pub name: String,
    pub key: u64,
    /// `None`: any number.
    pub arity: Option<u8>,
    pub how: FnHow,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum FnHow {
    Dyn,
    DynMacro,
    Static(usize),
}

/// Where an object is.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum P {
    /// The task's own.
    L(u8),
    /// Shared by all tasks, immutable.
    S(u8),
    /// Shared by all tasks, behind a readers-writer lock of the caller's.
    K(u8),
    /// A mailbox between tasks.
    B(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Fault::is_none")]
    pub fault: Fault,
    #[serde(default = "one", skip_serializing_if = "is_one")]
    pub times: u32,
}
fn one() -> u32 {
    1
}
fn is_one(n: &u32) -> bool {
    *n == 1
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub enum Fault {
    #[default]
    None,
    /// The n-th user call of the operation panics.
    Panic(u32),
    /// The n-th user call stalls: for that many scheduling points, or (`None`) until every
    /// other task is done.
    Stall(u32, Option<u64>),
    /// The n-th allocation of the operation fails.
    Oom(u32),
    /// The n-th user call performs another operation.
    Reenter(Vec<(u32, Step)>),
    /// The first user call performs this operation, whose first user call performs it again,
    /// that many levels deep; the innermost may stall until every other task is done.
    Deep(u32, Box<Op>, bool),
    /// The n-th user call panics, and while its frame is left a destructor of the user's
    /// performs another operation.
    PanicBusy(u32, Box<Step>),
    /// When the step lets go of the n-th captured value, its destructor stalls (as above) and
    /// performs another operation.
    AtDrop(u32, Option<Option<u64>>, Box<Step>),
}
impl Fault {
    pub fn is_none(&self) -> bool {
        *self == Fault::None
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum EvalHow {
    Checked,
    Unchecked,
    NoVars,
    NoVarsUnchecked,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum SimpHow {
    InPlace,
    MultiInPlace,
    Consume,
    MultiConsume,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum BindHow {
    Fixed,
    Array,
    Slice,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Display,
    Debug,
    Pretty,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Wr {
    Ok,
    /// The n-th write fails (or all from byte n on, for `ErrByte`).
    Err(u32),
    /// Only the n-th write fails.
    Once(u32),
    ErrByte(u32),
    Panic(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    NewParser { to: P, ctx: bool },
    CloneParser { p: P, to: P },
    EqParser { a: P, b: P },
    /// `with`: the builder on a copy, which replaces the parser.
    SetVar { p: P, name: u8, val: Val, with: bool },
    SetFn { p: P, f: u8, with: bool },
    Expect { p: P, names: Vec<u8>, with: bool },
    /// (name, constant or function)
    Symbols { p: P, vars: Vec<(u8, Val)>, fns: Vec<(u8, u8)> },
    CheckCtx { p: P },
    CallSymbol { p: P, f: u8, seed: u64 },
    Parse { p: P, src: u16, to: P },
    TryFrom { src: u16, to: P },
    Transient { p: P, srcs: Vec<u16>, seed: u64 },
    /// `omit` leaves out that many of the variables needed, `extra` adds others.
    Eval { x: P, how: EvalHow, seed: u64, omit: u8, extra: bool },
    Simplify { x: P, how: SimpHow, seed: u64, pick: Vec<u8>, absent: bool },
    /// Simplifies and evaluates a copy.
    OnCopy { x: P, how: SimpHow, seed: u64, pick: Vec<u8> },
    Clone { x: P, to: P },
    Eq { a: P, b: P },
    /// Binds a copy of the expression.
    Bind { x: P, how: BindHow, seed: u64, omit: u16, extra: u8, to: P },
    Call { b: P, seed: u64, short: u8, long: u8 },
    Render { x: P, style: Style, wr: Wr },
    RenderErr { p: P, src: u16, style: Style, wr: Wr },
    Drop { x: P },
    /// Moves between a slot and a mailbox.
    Move { from: P, to: P },
}

/// A number as text: JSON has none for infinities.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Val(pub f64);
impl Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&self.0)
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(Val).map_err(serde::de::Error::custom)
    }
}
