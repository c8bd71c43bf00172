//! The callers of the library under test. This crate is instrumented like the library, so
//! the library's inlined and generic code keeps its preemption points here. Each function
//! is one call a user makes; nothing here decides anything.
use simcore::{lib, user};
use std::collections::{HashMap, HashSet};
use std::fmt::{self, Debug, Display, Write};
use std::sync::OnceLock;
pub use xprs::{BindError, Context, EvalError, Function, ParseError, Parser, Symbol, Xprs};

pub const OPT: bool = cfg!(feature = "opt");

pub type Ex = Xprs<'static>;
pub type Pa = Parser<'static>;
pub type Names = &'static [&'static str];
pub type Bound = Box<dyn Fn(&[f64]) -> Result<f64, EvalError> + Send + Sync>;
type Hook = fn(u64, u64, &[f64]) -> f64;
static ON_CALL: OnceLock<Hook> = OnceLock::new();
static ON_DROP: OnceLock<fn(u64)> = OnceLock::new();

/// What every user function does: (key, token, arguments) to the simulator.
pub fn set_hooks(call: Hook, drop: fn(u64)) {
    let _ = ON_CALL.set(call);
    let _ = ON_DROP.set(drop);
}
fn call(key: u64, token: u64, args: &[f64]) -> f64 {
    user(|| ON_CALL.get().expect("hook")(key, token, args))
}

/// A value captured by a user function.
pub struct Token(u64);
impl Token {
    // a method, so that closures capture the whole
    fn id(&self) -> u64 {
        self.0
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        user(|| ON_DROP.get().expect("hook")(self.0));
    }
}

pub fn new_dyn(name: &'static str, key: u64, token: u64, nb_args: Option<u8>) -> Function {
    let t = Token(token);
    lib(|| Function::new_dyn(name, move |args| call(key, t.id(), args), nb_args))
}
/// A user function of fixed arity, or (0) of any, made with the library's macro.
pub fn new_dyn_macro(name: &'static str, key: u64, token: u64, n: u8) -> Option<Function> {
    let t = Token(token);
    lib(|| {
        Some(match n {
            0 => xprs::xprs_fn!(name, dyn move |args: &[f64]| call(key, t.id(), args)),
            1 => xprs::xprs_fn!(name, dyn (|a: f64| call(key, t.id(), &[a])), 1),
            2 => xprs::xprs_fn!(name, dyn (|a: f64, b: f64| call(key, t.id(), &[a, b])), 2),
            3 => xprs::xprs_fn!(name, dyn (|a: f64, b: f64, c: f64| call(key, t.id(), &[a, b, c])), 3),
            4 => xprs::xprs_fn!(name, dyn (|a: f64, b: f64, c: f64, d: f64| call(key, t.id(), &[a, b, c, d])), 4),
            5 => xprs::xprs_fn!(name, dyn (|a: f64, b: f64, c: f64, d: f64, e: f64| call(key, t.id(), &[a, b, c, d, e])), 5),
            6 => xprs::xprs_fn!(name, dyn (|a: f64, b: f64, c: f64, d: f64, e: f64, f: f64| call(key, t.id(), &[a, b, c, d, e, f])), 6),
            7 => xprs::xprs_fn!(name, dyn (|a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64| call(key, t.id(), &[a, b, c, d, e, f, g])), 7),
            8 => xprs::xprs_fn!(name, dyn (|a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64| call(key, t.id(), &[a, b, c, d, e, f, g, h])), 8),
            9 => xprs::xprs_fn!(name, dyn (|a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64| call(key, t.id(), &[a, b, c, d, e, f, g, h, i])), 9),
            _ => return None,
        })
    })
}

/// Key of the static user function number `i`.
pub const STATIC_KEY: u64 = 1 << 40;
pub const N_STATIC: usize = 8;
pub fn static_arity(i: usize) -> Option<u8> {
    [Some(1), Some(2), Some(3), Some(9), None, Some(1), Some(5), None][i]
}
fn s(i: u64, args: &[f64]) -> f64 {
    call(STATIC_KEY + i, 0, args)
}
pub fn new_static(name: &'static str, i: usize) -> Function {
    fn s0(a: f64) -> f64 {
        s(0, &[a])
    }
    fn s1(a: f64, b: f64) -> f64 {
        s(1, &[a, b])
    }
    fn s2(a: f64, b: f64, c: f64) -> f64 {
        s(2, &[a, b, c])
    }
    #[allow(clippy::too_many_arguments)]
    fn s3(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64) -> f64 {
        s(3, &[a, b, c, d, e, f, g, h, i])
    }
    fn s4(args: &[f64]) -> f64 {
        s(4, args)
    }
    fn s5(args: &[f64]) -> f64 {
        s(5, args)
    }
    fn s6(args: &[f64]) -> f64 {
        s(6, args)
    }
    fn s7(args: &[f64]) -> f64 {
        s(7, args)
    }
    lib(|| match i {
        0 => xprs::xprs_fn!(name, s0, 1),
        1 => xprs::xprs_fn!(name, s1, 2),
        2 => xprs::xprs_fn!(name, s2, 3),
        3 => xprs::xprs_fn!(name, s3, 9),
        4 => xprs::xprs_fn!(name, s4),
        5 => Function::new_static(name, s5, Some(1)),
        6 => Function::new_static(name, s6, Some(5)),
        _ => Function::new_static(name, s7, None),
    })
}

// ---- parsers and contexts ----
pub fn parser_default() -> Pa {
    lib(Parser::default)
}
pub fn parser_with(ctx: Context<'static>) -> Pa {
    lib(|| Parser::new_with_ctx(ctx))
}
pub fn parser_clone(p: &Pa) -> Pa {
    lib(|| p.clone())
}
pub fn parser_eq(a: &Pa, b: &Pa) -> bool {
    lib(|| a == b)
}
/// A number whose conversion is user code.
pub struct Num(pub f64, pub fn());
impl From<Num> for f64 {
    fn from(n: Num) -> f64 {
        user(n.1);
        n.0
    }
}
pub fn set_var(p: &mut Pa, name: &'static str, v: Num) {
    lib(|| p.ctx_mut().set_var(name, v));
}
pub fn set_fn(p: &mut Pa, f: Function) {
    lib(|| p.ctx_mut().set_fn(f));
}
pub fn set_expected(p: &mut Pa, names: &[&'static str]) {
    let set: HashSet<&'static str> = names.iter().copied().collect();
    lib(|| p.ctx_mut().set_expected_vars(set));
}
pub enum Def {
    Var(Num),
    Fn(Function),
}
/// The `with_*` builders, on a copy of the context.
pub fn with_def(p: &Pa, name: &'static str, d: Def) -> Pa {
    lib(|| {
        let c: Context<'static> = context_of(p);
        Parser::new_with_ctx(match d {
            Def::Var(v) => c.with_var(name, v),
            Def::Fn(f) => c.with_fn(f),
        })
    })
}
pub fn with_expected(p: &Pa, names: &[&'static str]) -> Pa {
    let set: HashSet<&'static str> = names.iter().copied().collect();
    lib(|| Parser::new_with_ctx(context_of(p).with_expected_vars(set)))
}
fn context_of(p: &Pa) -> Context<'static> {
    let mut p = p.clone();
    std::mem::take(p.ctx_mut())
}
/// Replaces all symbols.
pub fn with_symbols(p: &mut Pa, defs: Vec<(&'static str, Symbol)>) {
    let map: HashMap<&'static str, Symbol> = defs.into_iter().collect();
    lib(|| {
        let c = std::mem::take(p.ctx_mut()).with_symbols(map);
        *p.ctx_mut() = c;
    });
}
pub fn symbol_var(v: f64) -> Symbol {
    Symbol::Variable(v)
}
pub fn symbol_fn(f: Function) -> Symbol {
    lib(|| Symbol::Function(f))
}
#[derive(Debug, PartialEq, Clone)]
pub enum Seen {
    None,
    Var(f64),
    Fn(&'static str, Option<u8>),
    Other,
}
pub fn get(p: &Pa, name: &str) -> Seen {
    lib(|| match p.ctx().get(name) {
        None => Seen::None,
        Some(Symbol::Variable(v)) => Seen::Var(*v),
        Some(Symbol::Function(f)) => Seen::Fn(f.name, f.nb_args),
        Some(_) => Seen::Other,
    })
}
/// Calls the definition of a name directly.
pub fn call_symbol(p: &Pa, name: &str, args: &[f64]) -> Option<f64> {
    lib(|| match p.ctx().get(name) {
        Some(Symbol::Function(f)) => Some((f.func)(args)),
        _ => None,
    })
}
pub fn expected(p: &Pa) -> Option<Vec<String>> {
    lib(|| p.ctx().get_expected_vars().map(|s| user(|| sorted(s.iter().copied()))))
}
fn sorted<'a>(it: impl Iterator<Item = &'a str>) -> Vec<String> {
    let mut v: Vec<String> = it.map(str::to_owned).collect();
    v.sort();
    v
}

// ---- expressions ----
pub fn parse<'i>(p: &Pa, input: &'i str) -> Result<Xprs<'i>, ParseError> {
    lib(|| p.parse(input))
}
pub fn try_from(input: &'static str) -> Result<Ex, ParseError> {
    lib(|| Xprs::try_from(input))
}
pub fn vars(x: &Xprs<'_>) -> Vec<String> {
    sorted(x.vars.iter().copied())
}
fn assignment<'a>(a: &[(&'a str, f64)]) -> HashMap<&'a str, f64> {
    a.iter().copied().collect()
}
pub fn eval(x: &Xprs<'_>, a: &[(&str, f64)]) -> Result<f64, EvalError> {
    let m = assignment(a);
    lib(|| x.eval(&m))
}
pub fn eval_unchecked(x: &Xprs<'_>, a: &[(&str, f64)]) -> f64 {
    let m = assignment(a);
    lib(|| x.eval_unchecked(&m))
}
pub fn eval_no_vars(x: &Xprs<'_>) -> Result<f64, EvalError> {
    lib(|| x.eval_no_vars())
}
pub fn eval_no_vars_unchecked(x: &Xprs<'_>) -> f64 {
    lib(|| x.eval_no_vars_unchecked())
}
pub fn simplify_in_place(x: &mut Xprs<'_>, a: (&str, f64)) {
    lib(|| x.simplify_for_in_place(a));
}
pub fn simplify_multiple_in_place(x: &mut Xprs<'_>, a: &[(&str, f64)]) {
    lib(|| x.simplify_for_multiple_in_place(a));
}
pub fn simplify(x: Ex, a: (&str, f64)) -> Ex {
    lib(|| x.simplify_for(a))
}
pub fn simplify_multiple(x: Ex, a: &[(&str, f64)]) -> Ex {
    lib(|| x.simplify_for_multiple(a))
}
pub fn clone(x: &Ex) -> Ex {
    lib(|| x.clone())
}
pub fn eq(a: &Ex, b: &Ex) -> bool {
    lib(|| a == b)
}
pub fn drop_it<T>(x: T) {
    lib(|| drop(x));
}

/// How to bind.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// `bind`, `bind2` .. `bind9` by the number of names.
    Fixed,
    /// `bind_n` over an array.
    Array,
    /// `bind_n_runtime` over a slice.
    Slice,
}
pub const MAX_ARRAY: usize = 12;
struct Ptr<T>(T);
// The closures the library returns are sent and shared between threads here whether or
// not the compiler would let a user do so; `shareable!` records whether it would.
unsafe impl<T> Send for Ptr<T> {}
unsafe impl<T> Sync for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
/// Set if a value that users may share between threads has a type that forbids it.
pub static UNSHAREABLE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Probe<T>(pub std::marker::PhantomData<T>);
impl<T: Send + Sync> Probe<T> {
    pub fn ok(&self) -> bool {
        true
    }
}
pub trait ProbeFallback {
    fn ok(&self) -> bool {
        false
    }
}
impl<T> ProbeFallback for &Probe<T> {}
macro_rules! shareable {
    ($v:expr) => {{
        fn probe<T>(_: &T) -> Probe<T> {
            Probe(std::marker::PhantomData)
        }
        let p = probe(&$v);
        #[allow(clippy::needless_borrow)]
        if !(&p).ok() {
            UNSHAREABLE.store(true, std::sync::atomic::Ordering::Relaxed);
        }
    }};
}
pub fn bind(x: Ex, kind: Kind, v: Names) -> Result<Bound, BindError> {
    macro_rules! arr {
        ($($n:literal)*) => { match v.len() {
            $($n => {
                let names: [&'static str; $n] = v.try_into().expect("length");
                let f = lib(|| x.bind_n(names))?;
                shareable!(f);
                let f = Ptr(f);
                Ok(lib(|| Box::new(move |a: &[f64]| {
                    let vals: [f64; $n] = a.try_into().expect("length");
                    Ok(lib(|| f.get()(vals)))
                }) as Bound))
            })*
            _ => unreachable!("array size"),
        }};
    }
    macro_rules! fix {
        ($x:ident; $($n:literal $f:ident ($($i:literal)*);)*) => { match v.len() {
            $($n => {
                let f = Ptr(lib(|| $x.$f($(v[$i]),*))?);
                Ok(lib(|| Box::new(move |a: &[f64]| Ok(lib(|| f.get()($(a[$i]),*)))) as Bound))
            })*
            _ => unreachable!("number of names"),
        }};
    }
    match kind {
        Kind::Fixed => fix!(x;
            1 bind (0);
            2 bind2 (0 1);
            3 bind3 (0 1 2);
            4 bind4 (0 1 2 3);
            5 bind5 (0 1 2 3 4);
            6 bind6 (0 1 2 3 4 5);
            7 bind7 (0 1 2 3 4 5 6);
            8 bind8 (0 1 2 3 4 5 6 7);
            9 bind9 (0 1 2 3 4 5 6 7 8);
        ),
        Kind::Array => arr!(0 1 2 3 4 5 6 7 8 9 10 11 12),
        Kind::Slice => {
            let f = lib(|| x.bind_n_runtime(v))?;
            shareable!(f);
            let f = Ptr(f);
            Ok(lib(|| Box::new(move |a: &[f64]| lib(|| f.get()(a))) as Bound))
        }
    }
}
pub fn call_bound(f: &Bound, a: &[f64]) -> Result<f64, EvalError> {
    f(a)
}

// ---- rendering ----
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Display,
    Debug,
    Pretty,
}
/// The user's writer.
struct W<'a>(&'a mut dyn FnMut(&str) -> fmt::Result);
impl Write for W<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        user(|| (self.0)(s))
    }
}
pub fn render<T: Display + Debug>(
    t: &T, style: Style, out: &mut dyn FnMut(&str) -> fmt::Result,
) -> fmt::Result {
    lib(|| match style {
        Style::Display => write!(W(out), "{t}"),
        Style::Debug => write!(W(out), "{t:?}"),
        Style::Pretty => write!(W(out), "{t:#?}"),
    })
}
pub fn debug_parser(p: &Pa, pretty: bool) -> String {
    lib(|| if pretty { format!("{:#?}", p.ctx()) } else { format!("{p:?}") })
}
pub fn help(e: &ParseError) -> String {
    lib(|| miette_help(e))
}
fn miette_help(e: &ParseError) -> String {
    use miette::Diagnostic;
    e.help().map(|h| h.to_string()).unwrap_or_default()
}
