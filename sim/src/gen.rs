//! Draws a case from a seed: what exists, what the tasks do, which faults hit them and how
//! they are scheduled. The property only sets the mix.
use crate::ast::BUILTINS;
use crate::case::*;
use simcore::rng::{mix, Rng};

pub fn seed_of(base: u64, index: u64) -> u64 {
    mix(mix(base ^ 0x5EED) ^ index.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

const VARS: [&str; 30] = [
    "PI", "E", "Sin", "e1", "pi2", "sinh2", "ABS", "Max",
    "x", "y", "z", "a", "b", "c", "foo", "x1", "x'", "y_2", "velocity", "alpha", "n", "t", "w", "k2",
    "a_rather_long_variable_name_with_7_parts", "X", "Total", "u", "v", "bar''",
];
const OVER: [&str; 8] = ["sin", "pi", "e", "max", "sqrt", "sum", "abs", "ln"];
const FNS: [&str; 14] =
    ["f", "g", "h", "f1", "go", "fn_two", "q'", "F", "sin", "max", "pi", "call_me_when_needed", "abs", "x"];
const UNARY: [&str; 40] = [
    "sin", "cos", "abs", "sqrt", "exp", "atan", "cbrt", "tanh", "sin", "cos", "abs", "sqrt", "exp", "atan", "cbrt", "tanh",
    "sinh", "asin", "asinh", "cosh", "acos", "acosh", "tan", "atanh", "ln", "log", "floor", "ceil", "round", "trunc",
    "recip", "invert", "fract", "gamma", "factorial", "factorial", "gamma", "ln", "floor", "round",
];
const NARY: [&str; 4] = ["sum", "max", "min", "mean"];
const BINARY: [&str; 3] = ["hypot", "atan2", "logn"];

/// Relative frequencies of the operations.
#[derive(Clone, Copy)]
struct Mix {
    update: u32,
    parse: u32,
    transient: u32,
    eval: u32,
    simplify: u32,
    clone: u32,
    eq: u32,
    bind: u32,
    call: u32,
    render: u32,
    render_err: u32,
    drop: u32,
    mv: u32,
    check_ctx: u32,
    call_symbol: u32,
    parser: u32,
}
impl Mix {
    fn weights(&self) -> [u32; 16] {
        [
            self.update, self.parse, self.transient, self.eval, self.simplify, self.clone, self.eq,
            self.bind, self.call, self.render, self.render_err, self.drop, self.mv, self.check_ctx,
            self.call_symbol, self.parser,
        ]
    }
}

struct G<'a> {
    r: Rng,
    prop: &'a str,
    vars: Vec<String>,
    /// Indices into `names` that may be given constants.
    names: Vec<String>,
    fns: Vec<FnDef>,
    srcs: Vec<String>,
    bad: Vec<u16>,
    mix: Mix,
    edgy: bool,
    locks: bool,
    shared_only: bool,
    huge: bool,
    /// Few texts and few values, met over and over.
    focus: Vec<u64>,
    tasks: usize,
    /// How many of the texts, the last, are much alike.
    kin: usize,
    /// Two functions of the same name and arity.
    alike: Option<(u8, u8)>,
    cold: bool,
}

/// From here on, runs each have a process of their own, and nothing is used before its threads
/// start: whatever is made at first use is made by them.
pub const COLD: u64 = 1 << 40;

pub fn case(prop: &str, seed: u64, cold: bool) -> Case {
    let mut r = Rng::new(seed);
    let base = Mix {
        update: 4, parse: 10, transient: 2, eval: 12, simplify: 6, clone: 4, eq: 3, bind: 5, call: 7,
        render: 3, render_err: 2, drop: 3, mv: 2, check_ctx: 1, call_symbol: 1, parser: 2,
    };
    let mix = match prop {
        "C01" => Mix { simplify: 24, eval: 8, clone: 6, eq: 5, bind: 2, call: 2, update: 1, transient: 1, ..base },
        "C02" => Mix { update: 8, eval: 14, call: 10, parse: 14, render: 5, call_symbol: 3, ..base },
        "C03" => Mix { update: 9, drop: 9, mv: 4, parser: 5, clone: 6, ..base },
        "C04" => Mix { eval: 16, call: 16, parse: 12, clone: 5, mv: 4, update: 2, transient: 4, ..base },
        "C05" => Mix { eval: 16, call: 14, parse: 10, call_symbol: 3, update: 3, mv: 0, ..base },
        "C06" => Mix { update: 22, parse: 18, check_ctx: 4, parser: 7, drop: 4, eval: 10, call_symbol: 4, ..base },
        "C07" => Mix { check_ctx: 3, render: 5, parse: 16, render_err: 10, eq: 6, bind: 7, parser: 4, update: 7, transient: 4, ..base },
        "C08" => Mix { eval: 18, call: 12, simplify: 9, parse: 12, update: 3, call_symbol: 2, ..base },
        "C09" => Mix { simplify: 18, eval: 14, bind: 10, call: 5, clone: 5, eq: 4, update: 2, ..base },
        "C10" => Mix { render: 24, render_err: 16, simplify: 5, ..base },
        _ => base,
    };
    let tasks = match prop {
        _ if cold => 2 + r.usize(2),
        "C04" => 2 + r.usize(4),
        "C05" => 2 + r.usize(3),
        "C06" | "C07" | "C08" => 1 + r.weighted(&[5, 3, 1]),
        _ => 1 + r.weighted(&[6, 2, 2, 1]),
    };
    let locks = !cold && !matches!(prop, "C05" | "C07") && r.chance(1, 2);
    let mut g = G {
        vars: Vec::new(),
        names: Vec::new(),
        fns: Vec::new(),
        srcs: Vec::new(),
        bad: Vec::new(),
        mix,
        edgy: r.chance(if prop == "C09" { 2 } else { 1 }, 4),
        locks,
        shared_only: false,
        huge: r.chance(1, 24),
        focus: Vec::new(),
        tasks,
        kin: 0,
        alike: None,
        cold,
        prop,
        r,
    };
    if g.r.chance(if matches!(prop, "C04" | "C05" | "C07") { 3 } else { 1 }, 10) {
        g.huge = false;
        let base = g.r.below(1 << 20) << 16;
        let whole = if g.r.chance(2, 3) { 2 } else { 3 };
        for _ in 0..2 + g.r.usize(4) {
            let s = g.r.below(1 << 13) * 8 + whole;
            g.focus.push(base + s);
        }
    }
    g.vocab();
    if g.focus.is_empty() {
        g.sources();
    } else {
        g.vars.truncate(2);
        g.few_sources();
    }
    if g.vars.len() >= 2 && g.r.chance(1, if matches!(prop, "C04" | "C06" | "C07") { 3 } else { 8 }) {
        g.kin();
    }
    let setup = if cold { Vec::new() } else { g.setup() };
    let mut out = Vec::new();
    for _ in 0..tasks {
        out.push(g.task());
    }
    if cold {
        out = g.chill(out);
    }
    let sched = match (tasks, g.r.weighted(&[1, 6, 4, 3, 5])) {
        (1, _) => Sched::Seq,
        _ if cold && g.r.chance(3, 4) => Sched::Gaps(*g.r.pick(&[3, 10, 30, 100, 300, 1000])),
        _ if cold => Sched::Shared { den: 1, gap: *g.r.pick(&[20, 200]) },
        (_, 0) => Sched::Seq,
        (_, 1) => Sched::Gaps(*g.r.pick(&[3, 8, 20, 60, 200, 800, 3000])),
        (_, 2) => Sched::Pct { d: g.r.range(1, 6), len: *g.r.pick(&[2_000, 20_000, 200_000]) },
        (_, 4) => Sched::Shared { den: *g.r.pick(&[1, 2, 5]), gap: *g.r.pick(&[20, 200, 2_000, 50_000]) },
        _ => Sched::Events(*g.r.pick(&[1, 2, 4, 10])),
    };
    Case {
        prop: prop.to_owned(),
        seed,
        hash_seed: g.r.next(),
        reuse: g.r.chance(3, 5),
        sched,
        sched_seed: g.r.next(),
        fns: g.fns,
        srcs: g.srcs,
        names: g.names,
        setup,
        tasks: out,
    }
}

fn step(op: Op) -> Step {
    Step { op, fault: Fault::None, times: 1 }
}
fn paren(s: &str) -> String {
    format!("({s})")
}

impl G<'_> {
    fn vocab(&mut self) {
        let many = self.focus.is_empty() && self.r.chance(if matches!(self.prop, "C07" | "C09") { 2 } else { 1 }, 16);
        let n = match many {
            true if self.r.chance(1, 6) => 40 + self.r.usize(100),
            true => 7 + self.r.usize(30),
            false => 2 + self.r.usize(5),
        };
        for _ in 0..n {
            let mut v = (*self.r.pick(&VARS)).to_owned();
            if self.r.chance(1, 4) {
                // a name no other run uses
                v = format!("{v}{}", self.r.below(1 << 40));
            }
            if !self.vars.contains(&v) {
                self.vars.push(v);
            }
        }
        if self.r.chance(1, 40) {
            let long: String = (0..200).map(|i| if i % 7 == 3 { '_' } else { 'q' }).collect();
            self.vars.push(long);
        }
        self.names.clone_from(&self.vars);
        for _ in 0..self.r.usize(3) {
            let n = if self.r.chance(1, 2) { *self.r.pick(&OVER) } else { self.r.pick(&BUILTINS).0 };
            self.names.push(n.to_owned());
        }
        let n = 2 + self.r.usize(5);
        for i in 0..n {
            let name = if i > 0 && self.r.chance(1, 4) {
                self.fns[0].name.clone()
            } else if self.r.chance(1, 16) {
                self.r.pick(&BUILTINS).0.to_owned()
            } else if self.r.chance(3, 4) {
                FNS[self.r.usize(8)].to_owned()
            } else {
                (*self.r.pick(&FNS)).to_owned()
            };
            let special = if self.r.chance(1, 8) { 29 + self.r.below(3) } else { self.r.below(29) };
            let arity = match self.r.weighted(&[6, 5, 2, 1, 3]) {
                0 => Some(1),
                1 => Some(2),
                2 => Some(3),
                3 => Some(4 + self.r.below(6) as u8),
                _ => None,
            };
            // can be defined, but not called: an argument list is never empty
            let arity = if self.r.chance(1, 60) { Some(0) } else { arity };
            let how = match self.r.weighted(&[4, 3, 2]) {
                _ if arity == Some(0) => FnHow::Dyn,
                0 => FnHow::Dyn,
                1 => FnHow::DynMacro,
                _ => FnHow::Static(self.r.usize(8)),
            };
            let arity = match how {
                FnHow::Static(i) => xdriver::static_arity(i),
                _ => arity,
            };
            self.fns.push(FnDef { name, key: (i as u64 + 1) * 32 + special, arity, how });
        }
        if self.r.chance(if matches!(self.prop, "C06" | "C07") { 1 } else { 0 }, 3) {
            // another one of the same name and arity
            let first = self.r.usize(self.fns.len());
            let FnDef { name, arity, how, .. } = self.fns[first].clone();
            let other: Vec<usize> = (0..8).filter(|&j| xdriver::static_arity(j) == arity && how != FnHow::Static(j)).collect();
            let how = match how {
                _ if !other.is_empty() && self.r.chance(1, 2) => FnHow::Static(*self.r.pick(&other)),
                _ if self.r.chance(1, 2) => FnHow::Dyn,
                _ => FnHow::DynMacro,
            };
            let special = self.r.below(29);
            self.alike = Some((first as u8, n as u8));
            self.fns.push(FnDef { name, key: (n as u64 + 1) * 32 + special, arity, how });
        }
    }

    fn number(&mut self) -> String {
        let r = &mut self.r;
        if self.edgy && r.chance(1, 2) {
            return (*r.pick(&["0", "1", "0", "1", "2", "0.0", "1.0"])).to_owned();
        }
        match r.weighted(&[6, 3, 2, 1]) {
            0 => r.range(0, 12).to_string(),
            1 => format!("{}.{}", r.range(0, 30), r.pick(&["5", "25", "125", "75", "0"])),
            2 => format!("{}", r.range(2, 400)),
            _ => (*r.pick(&["1e1", "2.5e0", "1_0", "3E0", "5e-1", ".5", "7.", "1_2.5_0"])).to_owned(),
        }
    }
    fn atom(&mut self) -> String {
        match self.r.weighted(&[5, 7, 1]) {
            0 => self.number(),
            1 if self.r.chance(1, if self.prop == "C06" { 8 } else { 50 }) => self.r.pick(&self.names.clone()).clone(),
            1 => self.r.pick(&self.vars.clone()).clone(),
            _ => (*self.r.pick(&["pi", "e"])).to_owned(),
        }
    }
    fn args(&mut self, n: usize, depth: u32) -> String {
        let v: Vec<String> = (0..n).map(|_| self.tree(depth)).collect();
        v.join(if self.r.chance(1, 3) { "," } else { ", " })
    }
    fn user_call(&mut self, depth: u32) -> String {
        let fns = self.fns.clone();
        let f = self.r.pick(&fns);
        let n = match f.arity {
            Some(a) => usize::from(a),
            None if self.huge && self.r.chance(1, 3) => 40,
            None => 1 + self.r.usize(5),
        };
        let args = self.args(n, if n > 4 { 0 } else { depth });
        format!("{}({args})", f.name)
    }
    fn tree(&mut self, depth: u32) -> String {
        if depth == 0 {
            return self.atom();
        }
        match self.r.weighted(&[12, 7, 2, 2, 3, 1, 2, 1, 1]) {
            7 => {
                let f = *self.r.pick(&BINARY);
                let args = self.args(2, depth - 1);
                format!("{f}({args})")
            }
            8 => {
                let x = if self.r.chance(2, 3) { self.atom() } else { self.tree(depth - 1) };
                format!("({x}!)")
            }
            0 => {
                let l = self.tree(depth - 1);
                let op = *self.r.pick(&["+", "-", "*", "/", "+", "*", "-", "%"]);
                let right = if self.r.chance(1, 8) { l.clone() } else { self.tree(depth - 1) };
                format!("({l} {op} {right})")
            }
            1 => self.user_call(depth - 1),
            2 => {
                let x = self.tree(depth - 1);
                let op = if self.r.chance(4, 5) { "-" } else { "+" };
                format!("({op}{x})")
            }
            3 => {
                let f = *self.r.pick(&UNARY);
                format!("{f}({})", self.tree(depth - 1))
            }
            4 => {
                let f = *self.r.pick(&NARY);
                let n = 1 + self.r.usize(4);
                format!("{f}({})", self.args(n, depth - 1))
            }
            5 => {
                if self.r.chance(1, 4) {
                    return self.special();
                }
                let x = self.tree(depth - 1);
                format!("({x} ^ {})", self.r.pick(&["2", "0", "1", "3", "0.5"]))
            }
            _ => {
                // the same call more than once
                let c = self.user_call(0);
                let op = *self.r.pick(&["+", "-", "*", "/"]);
                let mid = self.tree(depth - 1);
                format!("(({c} {op} {mid}) + {c})")
            }
        }
    }
    /// An operator or a function with a number that may decide its result alone, or stand for
    /// nothing, next to something with a variable.
    fn special(&mut self) -> String {
        let v = self.r.pick(&self.vars.clone()).clone();
        let x = match self.r.weighted(&[6, 2, 1, 1, 2]) {
            0 => v,
            1 => {
                let f = *self.r.pick(&UNARY);
                format!("{f}({v})")
            }
            2 => format!("(-{v})"),
            3 => format!("({v}!)"),
            _ => {
                let f = self.r.pick(&self.fns.clone()).clone();
                let n = f.arity.map_or(1, usize::from);
                format!("{}({})", f.name, vec![v; n].join(", "))
            }
        };
        let k = *self.r.pick(&["0", "1", "-1", "2", "0.5", "(0 - 0)", "(0 - 2)", "pi", "(1 / 0)", "-0"]);
        let (a, b) = if self.r.chance(1, 2) { (x.as_str(), k) } else { (k, x.as_str()) };
        let s = match self.r.weighted(&[10, 2, 2]) {
            0 => {
                let op = *self.r.pick(&["+", "-", "*", "/", "^", "^", "%"]);
                let b = if b.starts_with('-') { paren(b) } else { b.to_owned() };
                let a = if op == "^" && a.starts_with('-') { paren(a) } else { a.to_owned() };
                format!("({a} {op} {b})")
            }
            1 => format!("{}({a}, {b})", self.r.pick(&BINARY)),
            _ => format!("{}({a}, {b})", self.r.pick(&NARY)),
        };
        match self.r.usize(4) {
            0 => s,
            1 => format!("({s} + {})", self.atom()),
            2 => format!("({} * {s})", self.r.pick(&self.vars.clone())),
            _ => {
                let f = self.r.pick(&self.fns.clone()).clone();
                let n = f.arity.map_or(2, usize::from);
                format!("{}({})", f.name, vec![s; n].join(", "))
            }
        }
    }
    /// Every variable there is, in any order.
    fn many(&mut self) -> String {
        let mut v = self.vars.clone();
        for i in (1..v.len()).rev() {
            v.swap(i, self.r.usize(i + 1));
        }
        if self.r.chance(1, 3) {
            let f = *self.r.pick(&NARY);
            let args = v.join(", ");
            let a = self.atom();
            return format!("{f}({args}) - {a}");
        }
        let mut s = v[0].clone();
        for x in &v[1..] {
            let op = *self.r.pick(&[" + ", " - ", " * ", " / ", " + ", " "]);
            s = format!("{s}{op}{x}");
        }
        s
    }
    fn flat(&mut self) -> String {
        let n = 2 + self.r.usize(8);
        let mut s = String::new();
        for i in 0..n {
            let mut what = self.r.weighted(&[6, 2, 2, 1]);
            if i > 0 {
                let op = *self.r.pick(&["+", " - ", "*", " / ", " + ", "*", "%", " "]);
                s.push_str(op);
                if op == " " {
                    // a digit is not a factor if what is before it was folded to a number
                    what = 2;
                }
            }
            match what {
                0 => s.push_str(&self.atom()),
                1 => s.push_str(&self.user_call(0)),
                2 => {
                    let t = self.tree(1);
                    s.push_str(&paren(&t));
                }
                _ => {
                    s.push('-');
                    s.push_str(&self.atom());
                }
            }
        }
        s
    }
    fn implicit(&mut self) -> String {
        let n = 2 + self.r.usize(4);
        let mut s = String::new();
        for i in 0..n {
            let op = i == 0 || self.r.chance(1, 3);
            if i > 0 && op {
                s.push_str(self.r.pick(&[" + ", "/", " - "]));
            }
            let v = self.r.pick(&self.vars.clone()).clone();
            match self.r.usize(4) {
                0 if op => s.push_str(&format!("{}{v}", self.r.range(2, 9))),
                1 => {
                    let t = self.tree(1);
                    s.push_str(&paren(&t));
                }
                2 => s.push_str(&format!(" {v}")),
                _ => s.push_str(&format!("({v})")),
            }
        }
        s
    }
    /// All arguments constant: can be computed while parsing.
    fn constant(&mut self) -> String {
        let vars = std::mem::replace(&mut self.vars, vec!["2".to_owned(), "1.5".to_owned()]);
        let a = self.user_call(1);
        let b = self.tree(1);
        self.vars = vars;
        let op = *self.r.pick(&["+", "-", "*", "/"]);
        let tail = if self.r.chance(1, 2) { self.atom() } else { self.user_call(1) };
        format!("(({a} {op} {b}) + {tail})")
    }
    fn wrong(&mut self) -> String {
        let good = self.tree(2);
        let v = self.r.pick(&self.vars.clone()).clone();
        match self.r.usize(15) {
            0 => {
                let mut cut = self.r.usize(good.len() + 1);
                while !good.is_char_boundary(cut) {
                    cut -= 1;
                }
                good[..cut].to_owned()
            }
            1 => {
                let at = self.r.usize(good.len() + 1);
                let c = *self.r.pick(&["@", "#", "é", "=", "漢", "\\", "\"", "~", "😀"]);
                format!("{} {c}{}", &good[..at], &good[at..])
            }
            2 => self.fns[self.r.usize(self.fns.len())].name.clone(),
            3 => {
                let f = self.r.pick(&self.fns.clone()).clone();
                let n = f.arity.map_or(2, |a| usize::from(a) + 1 + self.r.usize(3));
                format!("{}({})", f.name, self.args(n, 0))
            }
            4 => {
                let f = self.r.pick(&self.fns.clone()).clone();
                let n = f.arity.map_or(1, |a| usize::from(a).saturating_sub(1).max(1));
                format!("{v} + {}({})", f.name, self.args(n, 0))
            }
            5 => format!("({good}"),
            6 => format!("{good})"),
            7 => String::new(),
            8 => "   ".to_owned(),
            9 => "1..2 + x".to_owned(),
            10 => format!("{good} + * 3"),
            11 => format!("{}()", self.fns[0].name),
            12 => format!("{v}!!2"),
            13 => format!("{good} + {v}_unknown + another_{v}"),
            _ => format!("sin({good}, 2)"),
        }
    }
    fn big(&mut self) -> String {
        match self.r.usize(6) {
            0 => {
                let n = 60 + self.r.usize(60);
                let v = self.r.pick(&self.vars.clone()).clone();
                format!("{}{v}{}", "(1 + ".repeat(n), ")".repeat(n))
            }
            1 => {
                let n = 200 + self.r.usize(130);
                (0..n).map(|i| format!("v{i}")).collect::<Vec<_>>().join(" + ")
            }
            2 => {
                let n = 20 + self.r.usize(40);
                let mut s = self.r.pick(&self.vars.clone()).clone();
                let name = self.fns.iter().find(|f| f.arity == Some(1)).map_or("abs", |f| &f.name).to_owned();
                for _ in 0..n {
                    s = format!("{name}({s})");
                }
                s
            }
            3 => {
                // optimising a chain at each step of its parse takes quadratic time
                let n = 100 + self.r.usize(200);
                let mut s = self.user_call(0);
                for _ in 0..n {
                    if s.len() < 2_500 {
                        s = format!("{s} + {}", self.user_call(0));
                    }
                }
                s
            }
            4 => {
                let s = self.tree(7);
                if s.len() < 4_000 { s } else { self.tree(4) }
            }
            _ => {
                let n = 30 + self.r.usize(60);
                format!("sum({}) - max({})", self.args(n, 1), self.args(n, 0))
            }
        }
    }
    fn sources(&mut self) {
        let n = 3 + self.r.usize(6);
        let err = match self.prop {
            "C07" | "C10" => 6,
            "C06" => 3,
            _ => 2,
        };
        for _ in 0..n {
            let depth = 1 + self.r.weighted(&[3, 5, 3, 1]) as u32;
            let s = match self.r.weighted(&[14, 4, 3, 4, 2, err, if self.prop == "C09" { 7 } else { 2 }, if self.vars.len() > 6 { 8 } else { 1 }]) {
                6 => self.special(),
                7 => self.many(),
                0 => self.tree(depth),
                1 => self.flat(),
                2 => self.implicit(),
                3 => self.constant(),
                4 => {
                    let t = self.tree(depth);
                    format!("  {} \t", t.replace(' ', "  "))
                }
                _ => {
                    self.bad.push(self.srcs.len() as u16);
                    self.wrong()
                }
            };
            self.srcs.push(s);
        }
        if self.huge {
            let s = self.big();
            self.srcs.push(s);
        }
        // texts of one length that differ in one place
        let s = self.tree(2);
        let digits: Vec<usize> = s.bytes().enumerate().filter(|(_, b)| b.is_ascii_digit()).map(|(i, _)| i).collect();
        if !digits.is_empty() && self.r.chance(1, 2) {
            let at = *self.r.pick(&digits);
            for d in ["3", "7"] {
                let mut t = s.clone();
                t.replace_range(at..=at, d);
                self.srcs.push(t);
            }
        }
        if self.vars.len() >= 2 && self.r.chance(1, 3) {
            for op in ["+", "-", "*"] {
                self.srcs.push(format!("{} {op} {}", self.vars[0], self.vars[1]));
            }
        }
    }

    /// Texts that differ in an operator or a name.
    fn kin(&mut self) {
        let f = self.user_call(0);
        let (x, y) = (self.vars[0].clone(), self.vars[1].clone());
        let tail = match self.r.usize(4) {
            0 => format!(" + {f}"),
            1 => format!(" - {x}"),
            _ => String::new(),
        };
        let g = self.r.pick(&UNARY[..32]).to_string();
        for op in ["+", "-", "*", "/", "%"] {
            let (a, b) = if self.r.chance(1, 2) { (&x, &y) } else { (&y, &x) };
            self.srcs.push(match self.r.usize(5) {
                0 => format!("(({a}) {op} 3){tail}"),
                1 => format!("({g}({a}) {op} {b}){tail}"),
                _ => format!("({a} {op} {b}){tail}"),
            });
            self.kin += 1;
        }
    }

    /// Variations on one or two functions.
    fn few_sources(&mut self) {
        let f = self.r.pick(&UNARY).to_string();
        let g = self.fns[0].clone();
        let v = self.vars.clone();
        let call = |s: &mut Self, x: &str| match s.r.weighted(&[4, 3, 2, 1, 1]) {
            0 => format!("{f}({x})"),
            1 => format!("({x}!)"),
            2 => {
                let n = g.arity.map_or(2, usize::from);
                format!("{}({})", g.name, vec![x; n].join(", "))
            }
            3 => format!("{}({x}, 3)", s.r.pick(&BINARY)),
            _ => format!("{}({x}, {x}, 1)", s.r.pick(&NARY)),
        };
        for _ in 0..2 + self.r.usize(3) {
            let x = self.r.pick(&v).clone();
            let arg = match self.r.usize(4) {
                0 => format!("({x} + {})", self.r.range(1, 4)),
                1 => format!("({x} - 1)"),
                _ => x,
            };
            let mut s = call(self, &arg);
            if self.r.chance(1, 2) {
                let y = self.r.pick(&v).clone();
                let t = call(self, &y);
                let op = *self.r.pick(&["+", "*", "-", "/"]);
                s = format!("({s} {op} {t})");
            }
            self.srcs.push(s);
        }
        for _ in 0..self.r.usize(3) {
            let n = self.r.range(0, 60);
            let a = call(self, &n.to_string());
            let b = call(self, &(n + 1).to_string());
            let x = self.r.pick(&v).clone();
            self.srcs.push(format!("({x} * ({a} + {b}))"));
            self.srcs.push(format!("({x} - {a})"));
        }
        if self.r.chance(1, 3) {
            self.bad.push(self.srcs.len() as u16);
            let w = self.wrong();
            self.srcs.push(w);
        }
    }

    // ---- places ----
    fn src(&mut self) -> u16 {
        self.r.usize(self.srcs.len()) as u16
    }
    fn parser(&mut self) -> P {
        let w = [if self.shared_only { 0 } else { 5 }, if self.shared_only { 0 } else { 2 }, 4, u32::from(self.locks)];
        match self.r.weighted(&w) {
            0 => P::L(0),
            1 => P::L(1),
            2 => P::S(0),
            _ => P::K(0),
        }
    }
    fn own_parser(&mut self) -> P {
        match self.r.weighted(&[5, 2, if self.locks { 2 } else { 0 }]) {
            0 => P::L(0),
            1 => P::L(1),
            _ => P::K(0),
        }
    }
    fn own_expr(&mut self) -> P {
        if self.locks && self.r.chance(1, 6) {
            return P::K(1 + self.r.below(2) as u8);
        }
        P::L(2 + self.r.below(6) as u8)
    }
    fn expr(&mut self) -> P {
        let s = if matches!(self.prop, "C04" | "C05") { 6 } else { 2 };
        if self.shared_only || self.r.chance(s, 8) {
            return P::S(1 + self.r.below(4) as u8);
        }
        self.own_expr()
    }
    fn own_bound(&mut self) -> P {
        if self.locks && self.r.chance(1, 6) {
            return P::K(3);
        }
        P::L(8 + self.r.below(4) as u8)
    }
    fn bound(&mut self) -> P {
        let s = if matches!(self.prop, "C04" | "C05") { 6 } else { 2 };
        if self.shared_only || self.r.chance(s, 8) {
            return P::S(5 + self.r.below(3) as u8);
        }
        self.own_bound()
    }
    fn local_of(&mut self, p: P, lo: u8, n: u64) -> P {
        // one lock at a time
        match p {
            P::K(_) => P::L(lo + self.r.below(n) as u8),
            _ if self.locks && self.r.chance(1, 12) && lo == 2 => P::K(1 + self.r.below(2) as u8),
            _ => P::L(lo + self.r.below(n) as u8),
        }
    }

    fn val(&mut self) -> f64 {
        if self.edgy && self.r.chance(1, 2) {
            return *self.r.pick(&[0.0, 1.0, -1.0, 2.0, -0.0]);
        }
        if self.r.chance(1, 40) {
            return *self.r.pick(&[f64::INFINITY, f64::NAN, 1e300, 1e-300]);
        }
        if self.r.chance(1, 5) {
            return self.r.range(0, 60) as f64;
        }
        let v = self.r.range(1, 1900) as f64 / 64.0;
        if self.r.chance(1, 4) { -v } else { v }
    }
    fn seed(&mut self) -> u64 {
        if !self.focus.is_empty() && self.r.chance(7, 8) {
            return *self.r.pick(&self.focus.clone());
        }
        // a multiple of 8 draws edgy values
        let s = self.r.below(1 << 40) * 8;
        if self.r.chance(if self.edgy { 2 } else { 1 }, 4) { s } else { s + 1 + self.r.below(7) }
    }
    fn update(&mut self, p: P) -> Op {
        let with = self.r.chance(1, 4);
        match self.r.weighted(&[7, 8, 3, 2]) {
            0 => Op::SetVar { p, name: self.r.usize(self.names.len()) as u8, val: Val(self.val()), with },
            1 => Op::SetFn { p, f: self.r.usize(self.fns.len()) as u8, with },
            2 => {
                let mut names: Vec<u8> = (0..self.names.len() as u8).collect();
                if self.r.chance(2, 3) {
                    let k = self.r.usize(names.len() + 1);
                    for i in (1..names.len()).rev() {
                        names.swap(i, self.r.usize(i + 1));
                    }
                    names.truncate(k);
                }
                Op::Expect { p, names, with }
            }
            _ => {
                let n = if self.names.len() > 6 && self.r.chance(2, 3) { 2 * self.names.len() } else { self.r.usize(3) };
                let vars = (0..n).map(|_| (self.r.usize(self.names.len()) as u8, Val(self.val()))).collect();
                // one function per name: an expression then never has two of one name
                let mut fns: Vec<(u8, u8)> = Vec::new();
                for i in 0..self.r.usize(3).min(self.fns.len()) {
                    let n = self.r.usize(self.names.len()) as u8;
                    if !fns.iter().any(|f| self.fns[usize::from(f.1)].name == self.fns[i].name) {
                        fns.push((n, i as u8));
                    }
                }
                Op::Symbols { p, vars, fns }
            }
        }
    }

    fn op(&mut self) -> Op {
        let w = self.mix.weights();
        let seed = self.seed();
        match self.r.weighted(&w) {
            0 => {
                let p = self.own_parser();
                self.update(p)
            }
            1 => {
                if self.r.chance(1, 20) {
                    let src = self.src();
                    return Op::TryFrom { src, to: P::L(2 + self.r.below(6) as u8) };
                }
                let p = self.parser();
                let to = self.local_of(p, 2, 6);
                Op::Parse { p, src: self.src(), to }
            }
            2 => {
                let n = 2 + self.r.usize(4);
                let p = self.parser();
                let srcs = (0..n).map(|_| self.src()).collect();
                Op::Transient { p, srcs, seed }
            }
            3 => {
                let x = self.expr();
                let how = match self.r.weighted(&[8, 3, 2, 1]) {
                    0 => EvalHow::Checked,
                    1 => EvalHow::Unchecked,
                    2 => EvalHow::NoVars,
                    _ => EvalHow::NoVarsUnchecked,
                };
                let o = if matches!(self.prop, "C09" | "C08") { 3 } else { 1 };
                let omit = if self.r.chance(o, 10) { 1 + self.r.below(3) as u8 } else { 0 };
                Op::Eval { x, how, seed, omit, extra: self.r.chance(1, 4) }
            }
            4 => {
                let x = self.own_expr();
                let how = match self.r.weighted(&[4, 4, 2, 2]) {
                    0 => SimpHow::InPlace,
                    1 => SimpHow::MultiInPlace,
                    2 => SimpHow::Consume,
                    _ => SimpHow::MultiConsume,
                };
                let n = self.r.weighted(&[1, 6, 4, 2, 1]);
                let pick = (0..n).map(|_| self.r.below(8) as u8).collect();
                Op::Simplify { x, how, seed, pick, absent: self.r.chance(1, 6) }
            }
            5 => {
                let x = self.expr();
                let to = self.local_of(x, 2, 6);
                Op::Clone { x, to }
            }
            6 => {
                let a = self.expr();
                let b = match a {
                    P::K(_) => P::L(2 + self.r.below(6) as u8),
                    _ if self.r.chance(1, 3) => a,
                    _ => self.expr(),
                };
                Op::Eq { a, b }
            }
            7 => {
                let x = self.expr();
                let how = *self.r.pick(&[BindHow::Fixed, BindHow::Fixed, BindHow::Array, BindHow::Slice]);
                let omit = if self.r.chance(1, 5) {
                    *self.r.pick(&[1, 1, 2, 3, 255, 256, 257, 300])
                } else {
                    0
                };
                let extra = if self.r.chance(1, 3) { 1 + self.r.below(3) as u8 } else { 0 };
                let to = match x {
                    P::K(_) => P::L(8 + self.r.below(4) as u8),
                    _ => self.own_bound(),
                };
                Op::Bind { x, how, seed, omit, extra, to }
            }
            8 => {
                let b = self.bound();
                let short = if self.r.chance(1, 10) { 1 + self.r.below(2) as u8 } else { 0 };
                let long = if self.r.chance(1, 10) { 1 + self.r.below(2) as u8 } else { 0 };
                Op::Call { b, seed, short, long }
            }
            9 => Op::Render { x: self.expr(), style: self.style(), wr: self.wr() },
            10 => {
                let p = self.parser();
                let src = if !self.bad.is_empty() && self.r.chance(3, 4) {
                    *self.r.pick(&self.bad.clone())
                } else {
                    self.src()
                };
                Op::RenderErr { p, src, style: self.style(), wr: self.wr() }
            }
            11 => {
                let x = match self.r.weighted(&[4, 3, 1, if self.prop == "C03" || self.prop == "C04" { 2 } else { 0 }]) {
                    0 => self.own_expr(),
                    1 => self.own_bound(),
                    2 => P::L(1),
                    _ => P::S(self.r.below(8) as u8),
                };
                Op::Drop { x }
            }
            12 => {
                if self.prop == "C07" || self.tasks == 1 {
                    return Op::Clone { x: self.expr(), to: P::L(2 + self.r.below(6) as u8) };
                }
                let (l, b) = if self.r.chance(2, 3) {
                    (P::L(2 + self.r.below(6) as u8), P::B(self.r.below(2) as u8))
                } else {
                    (P::L(8 + self.r.below(4) as u8), P::B(2 + self.r.below(2) as u8))
                };
                if self.r.chance(1, 2) { Op::Move { from: l, to: b } } else { Op::Move { from: b, to: l } }
            }
            13 => Op::CheckCtx { p: self.parser() },
            14 => Op::CallSymbol { p: self.parser(), f: self.r.usize(self.fns.len()) as u8, seed },
            _ => match self.r.usize(4) {
                0 => Op::NewParser { to: P::L(1), ctx: self.r.chance(1, 2) },
                1 | 2 => Op::CloneParser { p: self.parser(), to: P::L(self.r.below(2) as u8) },
                _ => {
                    let a = self.parser();
                    let b = if matches!(a, P::K(_)) { P::L(0) } else { self.parser() };
                    Op::EqParser { a, b }
                }
            },
        }
    }
    fn style(&mut self) -> Style {
        *self.r.pick(&[Style::Display, Style::Display, Style::Debug, Style::Pretty])
    }
    fn wr(&mut self) -> Wr {
        let faulty = if self.prop == "C10" { 4 } else { 1 };
        if !self.r.chance(faulty, 5) {
            return Wr::Ok;
        }
        let bits = self.r.range(0, 8);
        let at = self.r.below(1 << bits) as u32;
        match self.r.usize(4) {
            0 => Wr::Err(at),
            1 => Wr::Once(at),
            2 => Wr::ErrByte(at),
            _ => Wr::Panic(at),
        }
    }

    fn panic_at(&mut self) -> u32 {
        let m = *self.r.pick(&[1, 2, 4, 8, 32]);
        self.r.below(m) as u32
    }
    fn faulty(&mut self, op: Op) -> Step {
        let calls = matches!(
            op,
            Op::Eval { .. } | Op::Simplify { .. } | Op::Call { .. } | Op::CallSymbol { .. } | Op::Parse { .. } | Op::Transient { .. }
        );
        let shared = match op {
            Op::Eval { x, .. } | Op::Simplify { x, .. } => !matches!(x, P::K(_)),
            Op::Call { b, .. } => !matches!(b, P::K(_)),
            Op::CallSymbol { p, .. } | Op::Parse { p, .. } | Op::Transient { p, .. } => !matches!(p, P::K(_)),
            _ => false,
        };
        let simp = matches!(op, Op::Simplify { .. });
        let user = calls || matches!(op, Op::SetVar { .. });
        let p = self.prop;
        let lets_go = matches!(
            op,
            Op::SetVar { .. } | Op::SetFn { .. } | Op::Symbols { .. } | Op::Drop { .. } | Op::Simplify { .. } | Op::Parse { .. }
                | Op::NewParser { .. } | Op::CloneParser { .. } | Op::Bind { .. } | Op::Clone { .. } | Op::Transient { .. }
        );
        let at_drop = match p {
            "C03" | "C04" | "C06" | "C08" => 2,
            "C05" => 8,
            _ => 0,
        };
        let (panic, oom, stall, reenter) = match p {
            "C01" => (if simp { 24 } else { 4 }, 0, 0, 1),
            "C02" => (14, 12, 0, 2),
            "C03" => (8, 10, 0, 3),
            "C04" => (2, 0, 3, 1),
            "C05" => (1, 0, 14, 12),
            "C06" => (3, 3, 0, 1),
            "C07" => (3, 0, 0, 1),
            "C08" => (8, 0, 2, 2),
            "C09" => (if simp { 10 } else { 3 }, 0, 0, 1),
            "C10" => (1, 3, 0, 0),
            _ => (4, 4, 4, 4),
        };
        let oom_ok = match op {
            // an interrupted in-place simplification is only bound to leak nothing
            Op::Simplify { .. } => p == "C03",
            Op::Symbols { .. } => false,
            // std gives up by itself where sorting many names fails
            Op::Render { style: Style::Debug | Style::Pretty, .. } => self.vars.len() <= 11,
            Op::Eq { .. } | Op::Move { .. } | Op::Drop { .. } => false,
            _ => true,
        };
        let w = [
            30,
            if user { panic } else { 0 },
            if oom_ok { oom } else { 0 },
            if calls && shared { stall } else { 0 },
            if calls && shared { reenter } else { 0 },
            if lets_go { at_drop } else { 0 },
            if calls && shared { panic / 3 } else { 0 },
        ];
        let fault = match self.r.weighted(&w) {
            0 => Fault::None,
            1 => Fault::Panic(self.panic_at()),
            2 => {
                let bits = self.r.range(0, if self.huge { 9 } else { 7 });
                Fault::Oom(self.r.below(1 << bits) as u32)
            }
            3 => {
                let n = match self.r.usize(3) {
                    0 if p == "C05" && !self.locks => None,
                    _ => {
                        let bits = self.r.range(1, 14);
                        Some(self.r.below(1 << bits))
                    }
                };
                Fault::Stall(self.panic_at(), n)
            }
            5 => self.at_drop(),
            6 => Fault::PanicBusy(self.panic_at(), Box::new(self.nested_alone())),
            _ if self.r.chance(1, 3) => {
                // functions within functions; what they call takes no room here
                let levels = *self.r.pick(&[4, 9, 17, 33, 65, 90, 90, 150, 300, 600]);
                let op = self.nested_call();
                let stall = p == "C05" && !self.locks && self.r.chance(1, 3);
                Fault::Deep(levels, Box::new(op), stall)
            }
            _ => {
                let n = 1 + self.r.usize(3);
                let keep = std::mem::replace(&mut self.shared_only, true);
                let v = (0..n)
                    .map(|_| {
                        let k = self.panic_at();
                        (k, self.nested(0))
                    })
                    .collect();
                self.shared_only = keep;
                Fault::Reenter(v)
            }
        };
        // more user calls for a panic in a constant expression
        Step { op, fault, times: 1 }
    }
    /// One that calls user functions, made from within one.
    fn nested_call(&mut self) -> Op {
        let seed = self.seed();
        // (one operation at each level: two would double at each)
        match self.r.weighted(&[5, 5, 2]) {
            0 => Op::Eval { x: P::S(1 + self.r.below(4) as u8), how: EvalHow::Checked, seed, omit: 0, extra: false },
            1 => Op::Call { b: P::S(5 + self.r.below(3) as u8), seed, short: 0, long: 0 },
            _ => Op::CallSymbol { p: P::S(0), f: self.r.usize(self.fns.len()) as u8, seed },
        }
    }
    fn nested_alone(&mut self) -> Step {
        let keep = std::mem::replace(&mut self.shared_only, true);
        let s = self.nested(1);
        self.shared_only = keep;
        s
    }
    /// An operation made from within a user function: on shared objects only.
    fn nested(&mut self, depth: u32) -> Step {
        let seed = self.seed();
        let op = match self.r.weighted(&[5, 5, 3, 2, 2, 2, 4, 8]) {
            6 => {
                let how = *self.r.pick(&[SimpHow::InPlace, SimpHow::MultiInPlace, SimpHow::Consume, SimpHow::MultiConsume]);
                let pick = (0..1 + self.r.usize(3)).map(|_| self.r.below(8) as u8).collect();
                Op::OnCopy { x: P::S(1 + self.r.below(4) as u8), how, seed, pick }
            }
            7 => {
                // anything, on the task's own objects too (but for what is in use)
                let locks = std::mem::replace(&mut self.locks, false);
                let shared_only = std::mem::replace(&mut self.shared_only, false);
                let op = self.op();
                (self.locks, self.shared_only) = (locks, shared_only);
                op
            }
            0 => Op::Eval { x: P::S(1 + self.r.below(4) as u8), how: EvalHow::Checked, seed, omit: 0, extra: false },
            1 => Op::Call { b: P::S(5 + self.r.below(3) as u8), seed, short: 0, long: 0 },
            2 => {
                let n = 1 + self.r.usize(3);
                let srcs = (0..n).map(|_| self.src()).collect();
                Op::Transient { p: P::S(0), srcs, seed }
            }
            3 => Op::CallSymbol { p: P::S(0), f: self.r.usize(self.fns.len()) as u8, seed },
            4 => Op::Render { x: P::S(1 + self.r.below(4) as u8), style: self.style(), wr: Wr::Ok },
            _ => {
                let a = P::S(1 + self.r.below(4) as u8);
                Op::Eq { a, b: a }
            }
        };
        let mut s = step(op);
        if depth < 2 && self.r.chance(1, 3) {
            let k = self.panic_at();
            s.fault = Fault::Reenter(vec![(k, self.nested(depth + 1))]);
        } else if self.r.chance(1, 8) {
            s.fault = Fault::Panic(self.panic_at());
        }
        s
    }

    // ---- parts of a case ----
    fn good_src(&mut self) -> u16 {
        for _ in 0..6 {
            let s = self.src();
            if !self.bad.contains(&s) {
                return s;
            }
        }
        0
    }
    fn equip(&mut self, v: &mut Vec<Step>, p: P) {
        for f in 0..self.fns.len() {
            // the first definition of each name, mostly
            let dup = self.fns[..f].iter().any(|g| g.name == self.fns[f].name);
            if self.r.chance(if dup { 1 } else { 9 }, 10) {
                v.push(step(Op::SetFn { p, f: f as u8, with: false }));
            }
        }
        for _ in 0..self.r.usize(3) {
            let o = self.update(p);
            if !matches!(o, Op::Symbols { .. }) && (!matches!(o, Op::Expect { .. }) || self.r.chance(1, 3)) {
                v.push(step(o));
            }
        }
    }
    fn setup(&mut self) -> Vec<Step> {
        let mut v = vec![step(Op::NewParser { to: P::L(0), ctx: self.r.chance(1, 2) })];
        self.equip(&mut v, P::L(0));
        for i in 1..5 {
            let src = self.good_src();
            v.push(step(Op::Parse { p: P::L(0), src, to: P::L(i) }));
        }
        for i in 5..8 {
            let x = P::L(1 + self.r.below(4) as u8);
            let how = *self.r.pick(&[BindHow::Fixed, BindHow::Array, BindHow::Slice]);
            let seed = self.seed();
            v.push(step(Op::Bind { x, how, seed, omit: 0, extra: 0, to: P::L(i) }));
        }
        if self.locks {
            v.push(step(Op::NewParser { to: P::L(8), ctx: false }));
            self.equip(&mut v, P::L(8));
            for i in 9..11 {
                let src = self.good_src();
                v.push(step(Op::Parse { p: P::L(8), src, to: P::L(i) }));
            }
            v.push(step(Op::Bind { x: P::L(9), how: BindHow::Slice, seed: 5, omit: 0, extra: 0, to: P::L(11) }));
        }
        v
    }
    /// An expression takes the place of another much like it, under the same values.
    fn replaced(&mut self, v: &mut Vec<Step>) {
        let at = P::L(2 + self.r.below(6) as u8);
        let p = if self.r.chance(1, 2) { P::L(0) } else { P::S(0) };
        let seed = self.seed();
        let first = (self.srcs.len() - self.kin) as u16;
        let clone = self.r.chance(1, 3);
        for _ in 0..2 + self.r.usize(3) {
            let src = first + self.r.below(self.kin as u64) as u16;
            let x = if clone {
                v.push(step(Op::Parse { p, src, to: P::L(8) }));
                v.push(step(Op::Clone { x: P::L(8), to: at }));
                at
            } else {
                v.push(step(Op::Parse { p, src, to: at }));
                at
            };
            let how = if self.r.chance(1, 2) { EvalHow::Checked } else { EvalHow::Unchecked };
            v.push(step(Op::Eval { x, how, seed, omit: 0, extra: false }));
            v.push(step(Op::Drop { x: at }));
        }
    }
    /// Two parsers, and what they parse, that differ in a function at most.
    fn same_name(&mut self, v: &mut Vec<Step>, f: u8, g: u8) {
        let (p, q) = (P::L(0), P::L(1));
        let (a, b) = (P::L(2 + self.r.below(3) as u8), P::L(5 + self.r.below(3) as u8));
        v.push(step(Op::SetFn { p, f, with: false }));
        v.push(step(Op::CloneParser { p, to: q }));
        let other = if self.r.chance(1, 5) { f } else { g };
        v.push(step(Op::SetFn { p: q, f: other, with: self.r.chance(1, 2) }));
        v.push(step(Op::EqParser { a: p, b: q }));
        let src = self.good_src();
        v.push(step(Op::Parse { p, src, to: a }));
        v.push(step(Op::Parse { p: q, src, to: b }));
        v.push(step(Op::Eq { a, b }));
    }
    /// A function nobody else knows goes with the last object that holds it.
    fn last_holder(&mut self, v: &mut Vec<Step>) {
        let (p, x) = (P::L(1), P::L(7));
        let f = self.r.usize(self.fns.len()) as u8;
        v.push(step(Op::NewParser { to: p, ctx: self.r.chance(1, 2) }));
        for f in [f, self.r.usize(self.fns.len()) as u8] {
            v.push(step(Op::SetFn { p, f, with: false }));
        }
        let src = self.good_src();
        v.push(step(Op::Parse { p, src, to: x }));
        let seed = self.seed();
        let last = match self.r.usize(6) {
            0 => Op::SetFn { p, f, with: self.r.chance(1, 2) },
            1 => Op::NewParser { to: p, ctx: false },
            2 => Op::CloneParser { p: P::S(0), to: p },
            3 => {
                v.push(step(Op::NewParser { to: p, ctx: false }));
                Op::Simplify { x, how: SimpHow::MultiInPlace, seed, pick: (0..8).collect(), absent: false }
            }
            4 => {
                v.push(step(Op::NewParser { to: p, ctx: false }));
                Op::Drop { x }
            }
            _ => {
                v.push(step(Op::NewParser { to: p, ctx: false }));
                let src = self.good_src();
                Op::Parse { p: P::S(0), src, to: x }
            }
        };
        let fault = self.at_drop();
        v.push(Step { op: last, fault, times: 1 });
    }
    fn at_drop(&mut self) -> Fault {
        let stall = match self.r.usize(5) {
            0 if self.prop == "C05" && !self.locks => Some(None),
            1 | 2 => Some(Some(1 << self.r.range(1, 12))),
            _ => None,
        };
        let k = self.r.below(3) as u32 * self.r.below(2) as u32;
        Fault::AtDrop(k, stall, Box::new(self.nested_alone()))
    }
    /// No shared objects; all start with the same.
    fn chill(&mut self, tasks: Vec<Vec<Step>>) -> Vec<Vec<Step>> {
        fn own(v: &mut serde_json::Value) {
            match v {
                serde_json::Value::Object(m) => {
                    if let (1, Some(i)) = (m.len(), m.get("S").and_then(serde_json::Value::as_u64)) {
                        let to = [0, 2, 3, 4, 5, 8, 9, 10][i as usize];
                        *v = serde_json::json!({"L": to});
                        return;
                    }
                    m.values_mut().for_each(own);
                }
                serde_json::Value::Array(a) => a.iter_mut().for_each(own),
                _ => {}
            }
        }
        let mut v = serde_json::to_value(tasks).expect("steps");
        own(&mut v);
        let mut tasks: Vec<Vec<Step>> = serde_json::from_value(v).expect("steps");
        let same = self.r.chance(2, 3);
        let src = self.good_src();
        let kind = self.r.usize(3);
        for t in &mut tasks {
            t.truncate(10);
            let src = if same { src } else { self.good_src() };
            let first = match kind {
                0 => vec![Op::TryFrom { src, to: P::L(2) }, Op::Eval { x: P::L(2), how: EvalHow::Checked, seed: 77, omit: 0, extra: false }],
                1 => vec![Op::NewParser { to: P::L(0), ctx: false }, Op::Parse { p: P::L(0), src, to: P::L(2) }],
                _ => vec![],
            };
            t.splice(0..0, first.into_iter().map(step));
        }
        tasks
    }
    fn task(&mut self) -> Vec<Step> {
        let mut v = Vec::new();
        if !self.cold && self.r.chance(2, 3) {
            v.push(step(Op::CloneParser { p: P::S(0), to: P::L(0) }));
        } else {
            v.push(step(Op::NewParser { to: P::L(0), ctx: self.r.chance(1, 2) }));
            self.equip(&mut v, P::L(0));
        }
        // something to work on
        for i in 0..1 + self.r.usize(3) {
            let src = self.good_src();
            let p = if self.r.chance(3, 4) { P::L(0) } else { P::S(0) };
            v.push(step(Op::Parse { p, src, to: P::L(2 + i as u8) }));
        }
        if self.r.chance(1, 2) {
            let seed = self.seed();
            let how = *self.r.pick(&[BindHow::Fixed, BindHow::Array, BindHow::Slice]);
            v.push(step(Op::Bind { x: P::L(2), how, seed, omit: 0, extra: 0, to: P::L(8) }));
        }
        let n = 3 + self.r.usize(if self.tasks > 2 { 7 } else { 11 });
        for _ in 0..n {
            if matches!(self.prop, "C03" | "C04" | "C05" | "C06" | "C08") && self.r.chance(1, 12) {
                self.last_holder(&mut v);
                continue;
            }
            if let Some((f, g)) = self.alike.filter(|_| self.r.chance(1, 10)) {
                self.same_name(&mut v, f, g);
                continue;
            }
            if self.kin > 0 && self.r.chance(1, 5) {
                self.replaced(&mut v);
                continue;
            }
            let op = self.op();
            let mut s = self.faulty(op);
            if matches!(s.fault, Fault::Panic(_) | Fault::PanicBusy(..) | Fault::Oom(_)) {
                let hammer = self.tasks <= 2
                    && !self.huge
                    && matches!(self.prop, "C01" | "C02" | "C03")
                    && !matches!(s.op, Op::Simplify { how: SimpHow::Consume | SimpHow::MultiConsume, .. })
                    && self.r.chance(1, 25);
                if hammer {
                    s.times = self.r.range(10, 150) as u32;
                    if self.r.chance(1, 20) {
                        s.times *= 40;
                    }
                }
                let again = self.r.chance(if self.prop == "C02" { 8 } else { 4 }, 10);
                let same = step(s.op.clone());
                v.push(s);
                if again {
                    v.push(same);
                }
            } else {
                // unfaulted repetitions: what is remembered between calls
                if self.r.chance(1, 40) && !self.huge && self.tasks <= 2 {
                    s.times = self.r.range(2, 40) as u32;
                }
                let twin = match s.op {
                    Op::Parse { p, src, to: to @ P::L(i) } if self.r.chance(if self.prop == "C07" { 4 } else { 1 }, 12) => {
                        let other = P::L(2 + (i - 1) % 6);
                        Some((Op::Parse { p, src, to: other }, Op::Eq { a: to, b: other }))
                    }
                    _ => None,
                };
                v.push(s);
                if let Some((a, b)) = twin {
                    v.push(step(a));
                    v.push(step(b));
                }
            }
        }
        v
    }
}
