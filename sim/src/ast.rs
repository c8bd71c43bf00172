//! The reference model: what a source text means under a context, what an expression
//! evaluates to, and which calls that makes.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// A function as the model sees it.
#[derive(Clone, Debug, PartialEq)]
pub struct Func {
    pub name: String,
    /// 0: built-in.
    pub key: u64,
    pub token: u64,
    pub arity: Option<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Var(f64),
    Fn(Arc<Func>),
}

#[derive(Clone, Debug, Default)]
pub struct Ctx {
    pub defs: BTreeMap<String, Def>,
    pub expected: Option<BTreeSet<String>>,
}

#[derive(Clone, Debug)]
pub enum T {
    Num(f64),
    Var(String),
    Bin(u8, Box<T>, Box<T>),
    /// `-`, `+` or `!`.
    Un(u8, Box<T>),
    Call(Arc<Func>, Vec<T>),
}

#[derive(Clone, Debug)]
pub enum Bad {
    /// Some syntax error.
    Syntax,
    Few(u8, usize),
    Many(u8, usize),
    /// And the tree without the restriction.
    Undeclared(BTreeSet<String>, Box<T>),
}

pub fn builtin_const(name: &str) -> Option<f64> {
    match name {
        "pi" => Some(std::f64::consts::PI),
        "e" => Some(std::f64::consts::E),
        _ => None,
    }
}
pub const BUILTINS: [(&str, Option<u8>); 37] = [
    ("sin", Some(1)), ("sinh", Some(1)), ("asin", Some(1)), ("asinh", Some(1)),
    ("cos", Some(1)), ("cosh", Some(1)), ("acos", Some(1)), ("acosh", Some(1)),
    ("tan", Some(1)), ("tanh", Some(1)), ("atan", Some(1)), ("atan2", Some(2)),
    ("atanh", Some(1)), ("ln", Some(1)), ("log", Some(1)), ("logn", Some(2)),
    ("sqrt", Some(1)), ("cbrt", Some(1)), ("exp", Some(1)), ("abs", Some(1)),
    ("floor", Some(1)), ("ceil", Some(1)), ("round", Some(1)), ("trunc", Some(1)),
    ("sum", None), ("mean", None), ("recip", Some(1)), ("invert", Some(1)), ("min", None),
    ("max", None), ("hypot", Some(2)), ("fract", Some(1)), ("gamma", Some(1)),
    ("factorial", Some(1)), ("sinh", Some(1)), ("cosh", Some(1)), ("tanh", Some(1)),
];
pub fn builtin_fn(name: &str) -> Option<Func> {
    let &(n, arity) = BUILTINS.iter().find(|b| b.0 == name)?;
    let shown = if n == "invert" { "recip" } else { n };
    Some(Func { name: shown.to_owned(), key: 0, token: 0, arity })
}
extern "C" {
    fn tgamma(x: f64) -> f64;
}
pub fn factorial(n: f64) -> f64 {
    if n < 0.0 || n.fract() != 0.0 && n.is_finite() || n.is_nan() {
        return f64::NAN;
    }
    if n > 170.0 {
        return f64::INFINITY;
    }
    (1..=n as u64).fold(1.0, |a, i| a * i as f64)
}
fn builtin_call(name: &str, a: &[f64]) -> f64 {
    match name {
        "sin" => a[0].sin(),
        "sinh" => a[0].sinh(),
        "asin" => a[0].asin(),
        "asinh" => a[0].asinh(),
        "cos" => a[0].cos(),
        "cosh" => a[0].cosh(),
        "acos" => a[0].acos(),
        "acosh" => a[0].acosh(),
        "tan" => a[0].tan(),
        "tanh" => a[0].tanh(),
        "atan" => a[0].atan(),
        "atan2" => a[0].atan2(a[1]),
        "atanh" => a[0].atanh(),
        "ln" => a[0].ln(),
        "log" => a[0].log10(),
        "logn" => a[0].log(a[1]),
        "sqrt" => a[0].sqrt(),
        "cbrt" => a[0].cbrt(),
        "exp" => a[0].exp(),
        "abs" => a[0].abs(),
        "floor" => a[0].floor(),
        "ceil" => a[0].ceil(),
        "round" => a[0].round(),
        "trunc" => a[0].trunc(),
        "sum" => a.iter().sum(),
        "mean" => a.iter().sum::<f64>() / a.len() as f64,
        "recip" => a[0].recip(),
        "min" => a.iter().fold(f64::INFINITY, |x, &y| x.min(y)),
        "max" => a.iter().fold(f64::NEG_INFINITY, |x, &y| x.max(y)),
        "hypot" => a[0].hypot(a[1]),
        "fract" => a[0].fract(),
        "gamma" => unsafe { tgamma(a[0]) },
        "factorial" => factorial(a[0]),
        _ => f64::NAN,
    }
}
/// Built-ins whose result jumps (so a last-bit difference, or the sign of a zero, shows).
fn delicate(name: &str) -> bool {
    matches!(
        name,
        "floor" | "ceil" | "round" | "trunc" | "fract" | "factorial" | "gamma" | "atan2" | "recip"
            | "tan" | "logn" | "log" | "ln"
    )
}

/// What the user function with this key returns: a smooth bounded function of its arguments
/// that differs for different keys, argument orders and argument counts.
pub fn user_value(key: u64, args: &[f64]) -> f64 {
    match key & 31 {
        29 => return 0.0,
        30 => return 1.0,
        31 => return f64::NAN,
        _ => {}
    }
    let mut h = simcore::rng::mix(key);
    let mut v = 1.5 + (h % 97) as f64 / 8.0 + args.len() as f64 / 16.0;
    for &a in args {
        h = simcore::rng::mix(h);
        let c = 0.75 + (h % 61) as f64 / 16.0;
        v += if a.is_finite() { c * a / (1.0 + a.abs()) } else { c * 2.0 };
    }
    v
}

pub fn close(a: f64, b: f64) -> bool {
    a == b
        || a.is_nan() && b.is_nan()
        || a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1.0)
}

// ---- parsing ----
struct P<'a> {
    s: &'a [u8],
    i: usize,
    ctx: &'a Ctx,
    pejmdas: bool,
    vars: BTreeSet<String>,
}

/// The tree a text denotes under a context.
pub fn parse(src: &str, ctx: &Ctx, pejmdas: bool) -> Result<T, Bad> {
    let mut p = P { s: src.as_bytes(), i: 0, ctx, pejmdas, vars: BTreeSet::new() };
    let t = p.element(0)?;
    if p.peek().is_some() {
        return Err(Bad::Syntax);
    }
    if let Some(exp) = &ctx.expected {
        let un: BTreeSet<String> = vars(&t).difference(exp).cloned().collect();
        if !un.is_empty() {
            return Err(Bad::Undeclared(un, Box::new(t)));
        }
    }
    Ok(t)
}
impl P<'_> {
    fn peek(&mut self) -> Option<u8> {
        while self.s.get(self.i).is_some_and(u8::is_ascii_whitespace) {
            self.i += 1;
        }
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> bool {
        let ok = self.peek() == Some(c);
        self.i += usize::from(ok);
        ok
    }
    fn element(&mut self, prec: u8) -> Result<T, Bad> {
        let mut l = self.atom()?;
        if self.eat(b'!') {
            l = T::Un(b'!', Box::new(l));
        }
        let implicit = if self.pejmdas { 3 } else { 2 };
        loop {
            let Some(c) = self.peek() else { return Ok(l) };
            let (op, p) = match c {
                b'+' | b'-' => (c, 1),
                b'*' | b'/' | b'%' => (c, 2),
                b'^' => (c, 4),
                b'a'..=b'z' | b'(' => (b'*', implicit),
                b'0'..=b'9' if !matches!(l, T::Num(_)) => (b'*', implicit),
                _ => return Ok(l),
            };
            if p <= prec {
                return Ok(l);
            }
            if matches!(c, b'+' | b'-' | b'*' | b'/' | b'%' | b'^') {
                self.i += 1;
            }
            let r = self.element(p)?;
            l = T::Bin(op, Box::new(l), Box::new(r));
        }
    }
    fn atom(&mut self) -> Result<T, Bad> {
        match self.peek() {
            Some(c @ (b'+' | b'-')) => {
                self.i += 1;
                Ok(T::Un(c, Box::new(self.element(3)?)))
            }
            Some(b'(') => {
                self.i += 1;
                let t = self.element(0)?;
                if self.eat(b')') { Ok(t) } else { Err(Bad::Syntax) }
            }
            Some(b'0'..=b'9' | b'.') => self.number(),
            Some(b'a'..=b'z' | b'A'..=b'Z') => self.name(),
            _ => Err(Bad::Syntax),
        }
    }
    fn number(&mut self) -> Result<T, Bad> {
        let b = self.i;
        let at = |i: usize| self.s.get(i).copied().unwrap_or(0);
        let mut i = b;
        while matches!(at(i), b'0'..=b'9' | b'.' | b'_') {
            i += 1;
        }
        if matches!(at(i), b'e' | b'E') {
            if at(i + 1).is_ascii_digit() {
                i += 1;
            } else if matches!(at(i + 1), b'+' | b'-') && at(i + 2).is_ascii_digit() {
                i += 2;
            }
        }
        while at(i).is_ascii_digit() {
            i += 1;
        }
        self.i = i;
        let t: String = self.s[b..i].iter().filter(|&&c| c != b'_').map(|&c| c as char).collect();
        t.parse().map(T::Num).map_err(|_| Bad::Syntax)
    }
    fn name(&mut self) -> Result<T, Bad> {
        let b = self.i;
        while self
            .s
            .get(self.i)
            .is_some_and(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'\''))
        {
            self.i += 1;
        }
        let n = std::str::from_utf8(&self.s[b..self.i]).unwrap();
        let f = match self.ctx.defs.get(n) {
            Some(Def::Var(v)) => return Ok(T::Num(*v)),
            Some(Def::Fn(f)) => f.clone(),
            None => match (builtin_const(n), builtin_fn(n)) {
                (Some(v), _) => return Ok(T::Num(v)),
                (_, Some(f)) => Arc::new(f),
                _ => {
                    self.vars.insert(n.to_owned());
                    return Ok(T::Var(n.to_owned()));
                }
            },
        };
        if !self.eat(b'(') {
            return Err(Bad::Syntax);
        }
        let mut args = Vec::new();
        loop {
            args.push(self.element(0)?);
            if self.eat(b',') {
                continue;
            }
            if self.eat(b')') {
                break;
            }
            return Err(Bad::Syntax);
        }
        match f.arity {
            Some(a) if args.len() < usize::from(a) => Err(Bad::Few(a, args.len())),
            Some(a) if args.len() > usize::from(a) => Err(Bad::Many(a, args.len())),
            _ => Ok(T::Call(f, args)),
        }
    }
}

/// Reads back a rendering. `fns` are the functions the expression may refer to.
pub fn unrender(s: &str, fns: &[Arc<Func>]) -> Option<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let t = un(b, &mut i, fns)?;
    (i == b.len()).then_some(t)
}
fn un(b: &[u8], i: &mut usize, fns: &[Arc<Func>]) -> Option<T> {
    let c = *b.get(*i)?;
    if c == b'(' {
        *i += 1;
        let c = *b.get(*i)?;
        // "(-x)" is a negation, "(-2 + x)" begins with a number
        if matches!(c, b'-' | b'+' | b'!') {
            let save = *i;
            *i += 1;
            if let Some(t) = un(b, i, fns) {
                if b.get(*i) == Some(&b')') {
                    *i += 1;
                    return Some(T::Un(c, Box::new(t)));
                }
            }
            *i = save;
        }
        let l = un(b, i, fns)?;
        if b.get(*i) != Some(&b' ') || b.get(*i + 2) != Some(&b' ') {
            return None;
        }
        let op = b[*i + 1];
        *i += 3;
        let r = un(b, i, fns)?;
        if b.get(*i) != Some(&b')') {
            return None;
        }
        *i += 1;
        return Some(T::Bin(op, Box::new(l), Box::new(r)));
    }
    let start = *i;
    if c == b'-' || c.is_ascii_digit() {
        *i += 1;
        if b[start..].starts_with(b"-inf") {
            *i += 3;
            return Some(T::Num(f64::NEG_INFINITY));
        }
        while b.get(*i).is_some_and(|c| c.is_ascii_digit() || *c == b'.') {
            *i += 1;
        }
        return std::str::from_utf8(&b[start..*i]).ok()?.parse().ok().map(T::Num);
    }
    while b.get(*i).is_some_and(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'\'')) {
        *i += 1;
    }
    let n = std::str::from_utf8(&b[start..*i]).ok()?;
    if n.is_empty() {
        return None;
    }
    if b.get(*i) != Some(&b'(') {
        return Some(match n {
            "NaN" => T::Num(f64::NAN),
            "inf" => T::Num(f64::INFINITY),
            _ => T::Var(n.to_owned()),
        });
    }
    *i += 1;
    let mut args = Vec::new();
    loop {
        args.push(un(b, i, fns)?);
        match b.get(*i)? {
            b',' if b.get(*i + 1) == Some(&b' ') => *i += 2,
            b')' => {
                *i += 1;
                break;
            }
            _ => return None,
        }
    }
    let f = match fns.iter().find(|f| f.name == n) {
        Some(f) => f.clone(),
        None => Arc::new(builtin_fn(n)?),
    };
    Some(T::Call(f, args))
}

/// Stands for a tree with values for its variables, as far as its evaluation goes.
pub fn identity(t: &T, env: &BTreeMap<String, f64>) -> u128 {
    use simcore::rng::mix;
    let two = |a: u64, x: u128, y: u128| {
        let f = |k: u64| {
            [x as u64, (x >> 64) as u64, y as u64, (y >> 64) as u64].iter().fold(mix(a ^ k), |h, v| mix(h ^ v))
        };
        u128::from(f(0x1357_9BDF)) << 64 | u128::from(f(0x2468_ACE0))
    };
    match t {
        T::Num(v) => two(1, u128::from(v.to_bits()), 0),
        T::Var(n) => two(1, u128::from(env.get(n).map_or(u64::MAX, |v| v.to_bits())), 0),
        T::Bin(op, l, r) => two(u64::from(*op) << 8 | 2, identity(l, env), identity(r, env)),
        T::Un(op, x) => two(u64::from(*op) << 8 | 3, identity(x, env), 0),
        T::Call(f, args) => {
            let mut h = two(4, u128::from(f.key), 0);
            if f.key == 0 {
                for b in f.name.bytes() {
                    h = two(5, h, u128::from(b));
                }
            }
            args.iter().fold(h, |h, a| two(6, h, identity(a, env)))
        }
    }
}

// ---- facts about trees ----
pub fn vars(t: &T) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    walk(t, &mut |t| {
        if let T::Var(n) = t {
            v.insert(n.clone());
        }
    });
    v
}
pub fn walk(t: &T, f: &mut dyn FnMut(&T)) {
    f(t);
    match t {
        T::Num(_) | T::Var(_) => {}
        T::Bin(_, l, r) => {
            walk(l, f);
            walk(r, f);
        }
        T::Un(_, x) => walk(x, f),
        T::Call(_, a) => a.iter().for_each(|a| walk(a, f)),
    }
}
/// The user functions a tree refers to.
pub fn funcs(t: &T) -> Vec<Arc<Func>> {
    let mut v: Vec<Arc<Func>> = Vec::new();
    walk(t, &mut |t| {
        if let T::Call(f, _) = t {
            if f.key != 0 && !v.iter().any(|g| g == f) {
                v.push(f.clone());
            }
        }
    });
    v
}
/// Whether different functions of this tree look the same when rendered: a context may give
/// a function any name.
pub fn ambiguous(t: &T) -> bool {
    let mut v: Vec<Arc<Func>> = Vec::new();
    let mut twice = false;
    walk(t, &mut |t| {
        if let T::Call(f, _) = t {
            twice |= v.iter().any(|g| g.name == f.name && g != f);
            if !v.contains(f) {
                v.push(f.clone());
            }
        }
    });
    twice
}
/// What a tree is made of, whatever the order of its operands.
pub fn parts(t: &T) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    walk(t, &mut |t| {
        let part = match t {
            T::Num(n) => format!("{:?}", n + 0.0),
            T::Var(v) => format!("${v}"),
            T::Bin(o, ..) => format!("binary {o}"),
            T::Un(o, _) => format!("unary {o}"),
            T::Call(f, a) => format!("{} {} {} of {}", f.name, f.key, f.token, a.len()),
        };
        *m.entry(part).or_insert(0) += 1;
    });
    m
}
pub fn count_calls(t: &T) -> BTreeMap<u64, i64> {
    let mut m = BTreeMap::new();
    walk(t, &mut |t| {
        if let T::Call(f, _) = t {
            if f.key != 0 {
                *m.entry(f.key).or_insert(0) += 1;
            }
        }
    });
    m
}
fn has_calls(t: &T) -> bool {
    let mut b = false;
    walk(t, &mut |t| b |= matches!(t, T::Call(f, _) if f.key != 0));
    b
}
pub fn same(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Num(a), T::Num(b)) => a == b || a.is_nan() && b.is_nan(),
        (T::Var(a), T::Var(b)) => a == b,
        (T::Bin(o, a, b), T::Bin(p, c, d)) => o == p && same(a, c) && same(b, d),
        (T::Un(o, a), T::Un(p, b)) => o == p && same(a, b),
        (T::Call(f, a), T::Call(g, b)) => {
            f == g && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b))
        }
        _ => false,
    }
}
pub fn substitute(t: &T, a: &BTreeMap<String, f64>) -> T {
    match t {
        T::Num(n) => T::Num(*n),
        T::Var(n) => a.get(n).map_or_else(|| t.clone(), |v| T::Num(*v)),
        T::Bin(o, l, r) => T::Bin(*o, Box::new(substitute(l, a)), Box::new(substitute(r, a))),
        T::Un(o, x) => T::Un(*o, Box::new(substitute(x, a))),
        T::Call(f, x) => T::Call(f.clone(), x.iter().map(|x| substitute(x, a)).collect()),
    }
}

pub type Rec = (u64, u64, Vec<f64>);
/// Evaluates literally.
pub struct Eval<'a> {
    pub env: &'a BTreeMap<String, f64>,
    /// (key, token, arguments) of the calls made, in order.
    pub calls: Vec<Rec>,
    /// Some algebraic rule that is not an IEEE identity could have changed the value.
    pub risky: bool,
    pub missing: BTreeSet<String>,
    /// Not 0: every result is off by a random last-digits error.
    pub noise: u64,
}
/// Whether value and calls do not hang on the last digits of an intermediate result.
pub fn steady(t: &T, env: &BTreeMap<String, f64>) -> bool {
    let mut a = Eval::new(env);
    let v = a.go(t);
    (1..=24).all(|n| {
        let mut b = Eval::new(env);
        b.noise = n;
        let w = b.go(t);
        let eq = |x: f64, y: f64| {
            x == y || x.is_nan() && y.is_nan() || (x - y).abs() <= 1e-10 * x.abs().max(y.abs()).max(1.0)
        };
        v.is_some() == w.is_some()
            && v.zip(w).map_or(true, |(v, w)| eq(v, w))
            && a.calls.len() == b.calls.len()
            && a.calls.iter().zip(&b.calls).all(|(x, y)| x.2.iter().zip(&y.2).all(|(x, y)| eq(*x, *y)))
    })
}
impl<'a> Eval<'a> {
    pub fn new(env: &'a BTreeMap<String, f64>) -> Self {
        Eval { env, calls: Vec::new(), risky: false, missing: BTreeSet::new(), noise: 0 }
    }
    /// Evaluates everything that can be evaluated.
    pub fn go(&mut self, t: &T) -> Option<f64> {
        let v = self.exact(t)?;
        if self.noise == 0 || matches!(t, T::Num(_) | T::Var(_)) {
            return Some(v);
        }
        self.noise = simcore::rng::mix(self.noise) | 1;
        Some(v * (1.0 + ((self.noise >> 32 & 0xff) as f64 - 127.5) * 1e-15))
    }
    fn exact(&mut self, t: &T) -> Option<f64> {
        Some(match t {
            T::Num(n) => *n,
            T::Var(n) => match self.env.get(n) {
                Some(v) => *v,
                None => {
                    self.missing.insert(n.clone());
                    return None;
                }
            },
            T::Un(op, x) => {
                let v = self.go(x)?;
                match op {
                    b'-' => -v,
                    b'+' => v,
                    _ => factorial(v),
                }
            }
            T::Bin(op, l, r) => {
                let (l, r) = (self.go(l), self.go(r));
                let (l, r) = (l?, r?);
                let fin = l.is_finite() && r.is_finite();
                self.risky |= match op {
                    b'+' | b'-' => !fin,
                    b'*' => !fin && (l == 0.0 || r == 0.0 || l.is_nan() || r.is_nan()),
                    b'/' => r == 0.0 || !fin,
                    b'^' => l == 0.0 && (r < 0.0 || r.is_nan()) || r == 0.0,
                    _ => !fin || r == 0.0 || r == 1.0 && l.fract() != 0.0,
                };
                match op {
                    b'+' => l + r,
                    b'-' => l - r,
                    b'*' => l * r,
                    b'/' => l / r,
                    b'^' => l.powf(r),
                    _ => l % r,
                }
            }
            T::Call(f, a) => {
                let v: Vec<Option<f64>> = a.iter().map(|a| self.go(a)).collect();
                let v: Vec<f64> = v.into_iter().collect::<Option<_>>()?;
                if f.key == 0 {
                    self.risky |= delicate(&f.name) && v.iter().any(|v| *v == 0.0);
                    builtin_call(&f.name, &v)
                } else {
                    self.calls.push((f.key, f.token, v.clone()));
                    user_value(f.key, &v)
                }
            }
        })
    }
}

/// Whether the algebraic simplifications could remove a subtree that contains a call or a
/// variable, once the given variables are replaced.
pub fn may_eliminate(t: &T, a: &BTreeMap<String, f64>) -> bool {
    let t = substitute(t, a);
    elim(&t)
}
fn elim(t: &T) -> bool {
    match t {
        T::Num(_) | T::Var(_) => false,
        T::Un(_, x) => elim(x),
        T::Call(_, x) => x.iter().any(elim),
        T::Bin(op, l, r) => {
            if elim(l) || elim(r) {
                return true;
            }
            let none = BTreeMap::new();
            // a constant, and whether its value hangs on the order of simplifications
            let constant = |t: &T| {
                let mut e = Eval::new(&none);
                let v = e.go(t)?;
                Some(if e.risky { 0.0 } else { v })
            };
            let (cl, cr) = (constant(l), constant(r));
            let content = |t: &T| has_calls(t) || !vars(t).is_empty();
            if !content(l) && !content(r) {
                return false;
            }
            let near = |v: Option<f64>| {
                v.is_some_and(|v| v.abs() < 1e-9 || (v.abs() - 1.0).abs() < 1e-9 || v.is_nan())
            };
            near(cl) || near(cr) || similar(op, l, r)
        }
    }
}
fn similar(op: &u8, l: &T, r: &T) -> bool {
    fn strip(t: &T) -> &T {
        match t {
            T::Un(b'-' | b'+', x) => strip(x),
            _ => t,
        }
    }
    *op != b'*' && *op != b'^' && alike(strip(l), strip(r))
}
/// A superset of "equal after simplification": the same variables, and calls by name unless
/// they may be folded to their values.
fn alike(a: &T, b: &T) -> bool {
    // whether it has variables
    fn names(t: &T, v: &mut Vec<String>) -> bool {
        match t {
            T::Num(_) => false,
            T::Var(n) => {
                v.push(n.clone());
                true
            }
            T::Un(_, x) => names(x, v),
            T::Bin(_, l, r) => names(l, v) | names(r, v),
            T::Call(f, x) => {
                let any = x.iter().fold(false, |any, x| any | names(x, v));
                if any {
                    v.push(format!("{}()", f.name));
                }
                any
            }
        }
    }
    let key = |t: &T| {
        let mut v: Vec<String> = Vec::new();
        names(t, &mut v);
        v.sort();
        v
    };
    key(a) == key(b)
}
