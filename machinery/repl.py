"""The REPL simulator: the real `repl` binary, with every read, write, getrandom, clock and sleep
answered by this simulator, one call at a time. A seed decides the session, how input arrives,
what each call returns and where it fails."""
import copy
import errno
import hashlib
import json
import multiprocessing
import os
import random
import re
import resource
import signal
import socket
import struct
import subprocess

import common
from common import CONFIGS, REPLAYS, REPO, TARGET, VERIF, Broken, Clock, base_env, configs, known_findings, note, parallel, run_build

BUDGET = {"quick": (96, 100), "thorough": (100_000, 540)}  # (chunks of cases per build, seconds)
CHUNK = 25
MAX_CALLS = 400_000
PATIENCE = 30  # seconds without a call


# ---------------------------------------------------------------- builds
def shim():
    out = os.path.join(TARGET, "shim.so")
    os.makedirs(TARGET, exist_ok=True)
    run_build(["gcc", "-O1", "-shared", "-fPIC", "-o", out, os.path.join(VERIF, "repl", "shim.c"), "-lpthread"], dict(os.environ), VERIF)
    return out


def build_repl(name):
    c = CONFIGS[name]
    env = base_env()
    env.update(RUSTUP_TOOLCHAIN=c["toolchain"], CARGO_TARGET_DIR=os.path.join(TARGET, "repl-" + name), CARGO_PROFILE_DEV_DEBUG="0")
    feats = c["prec"] + (" compile-time-optimizations" if c["opt"] else "")
    run_build(
        ["cargo", "build", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--bin", "repl", "--locked", "--offline",
         "--no-default-features", "--features", feats], env, VERIF)
    return repl_bin(name)


def repl_bin(name):
    return os.path.join(TARGET, "repl-" + name, "debug", "repl")


# ---------------------------------------------------------------- one execution
class Plan:
    """What the simulated system does. Everything is drawn from one generator."""

    def __init__(self, seed=0, hash_seed=0, frag=0, eintr=0, script=None):
        self.r = random.Random(seed)
        self.h = random.Random(hash_seed)
        self.frag = frag  # per cent of calls that are cut short
        self.eintr = eintr  # per cent of calls that are interrupted
        self.script = script  # decisions to repeat, instead of drawing them
        self.log = []  # the decisions made: one per call
        self.n = 0
        self.counts = {}

    def decide(self, kind, n):
        """How a call for n bytes goes: bytes allowed, or -errno."""
        if self.script is not None:
            d = self.script[self.n] if self.n < len(self.script) else None
            self.n += 1
            if d is None:
                d = n
            elif d > 0:
                d = min(d, n)
        else:
            d = n
            if self.eintr and self.r.randrange(100) < self.eintr:
                d = -errno.EINTR
            elif self.frag and n > 1 and self.r.randrange(100) < self.frag:
                d = self.r.choice((1, 1, 2, 3, self.r.randint(1, n), n - 1))
                d = max(1, min(d, n))
        self.log.append(d if d != n else None)
        if d == -errno.EINTR:
            self.count(f"{kind} interrupted (EINTR)")
        elif 0 < d < n:
            self.count(f"short {kind}")
        return d

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1


class Result:
    def __init__(self):
        self.out = bytearray()
        self.err = bytearray()
        self.status = None
        self.waits = []  # (bytes of input given, output delivered) whenever it waited
        self.calls = 0
        self.reads_after_end = 0
        self.calls_after_end = 0
        self.over = None
        self.given = 0
        self.fault_at = None  # output delivered when the fault struck
        self.seen = {}  # calls of each kind


def spawn(binary, fds):
    actions = [(os.POSIX_SPAWN_DUP2, fds[1], 3)]
    for fd, flag in ((0, os.O_RDONLY), (1, os.O_WRONLY), (2, os.O_WRONLY)):
        actions.append((os.POSIX_SPAWN_OPEN, fd, "/dev/null", flag, 0))
    env = {"LD_PRELOAD": os.path.join(TARGET, "shim.so"), "PATH": "/usr/bin:/bin"}
    return os.posix_spawn(binary, [binary], env, file_actions=actions)


def execute(binary, plan, source, fault=None, limit=MAX_CALLS):
    """Runs the REPL to its end.

    source(result) is called when it waits for input: more bytes, or b"" for the end of input.
    fault = (kind, n, what): the n-th read or write (on the given stream) and all later ones, or
    only that one, fails."""
    a, b = socket.socketpair()
    a.settimeout(PATIENCE)
    fds = (a.fileno(), b.fileno())
    if fds[1] == 3:
        os.set_inheritable(3, True)
    pid = spawn(binary, fds)
    b.close()
    res = Result()
    pending = b""
    ended = False  # the end of input was reported
    seen = {"R": 0, "W1": 0, "W2": 0, "G": 0}
    failing = None
    idle = 0  # calls without progress after the end
    rd = a.makefile("rb", 1 << 16)
    try:
        while True:
            head = rd.read(8)
            if not head or len(head) < 8:
                break
            kind, fd, _, n = struct.unpack("<BBHI", head)
            kind = chr(kind)
            data = rd.read(n) if kind == "W" else b""
            if kind == "W" and len(data) < n:
                break
            res.calls += 1
            if ended or failing:
                res.calls_after_end += 1
                idle += 1
            if res.calls > limit or idle > 200 or res.reads_after_end > 8:
                res.over = f"{res.calls} calls so far; since its input ended or failed, {res.reads_after_end} reads and {res.calls_after_end} calls"
                os.kill(pid, signal.SIGKILL)
                break
            key = kind + (str(fd) if kind == "W" else "")
            at = seen.get(key, 0)
            seen[key] = at + 1
            payload = b""
            code = None
            cut = False
            if fault and fault["on"] == key and (at == fault["n"] or at > fault["n"] and fault["lasts"]):
                if fault.get("part") and at == fault["n"] and n > 1:
                    # a part of this one is accepted: the next one fails
                    fault = dict(fault, n=at + 1, part=0)
                    cut = True
                else:
                    code = fault["code"]
            elif fault and failing and fault["on"] == "W1" and key == "W2" and fault["lasts"] and fault.get("both"):
                code = fault["code"]
            if code is not None:
                if failing is None:
                    failing = True
                    res.fault_at = len(res.out)
                    plan.count(f"{'read' if key == 'R' else 'write'} failed ({errno.errorcode.get(-code, code)})")
                if key == "R":
                    res.reads_after_end += 1
            if kind == "R":
                if code is None:
                    if not pending:
                        # blocking: whoever types sees what was delivered
                        res.waits.append((res.given, len(res.out)))
                        pending = b"" if ended else source(res)
                        if pending == b"":
                            ended = True
                            res.reads_after_end += 1
                            plan.count("end of input")
                        res.given += len(pending)
                    m = min(n, len(pending))
                    code = plan.decide("read", m) if m else 0
                    if code > 0:
                        payload, pending = pending[:code], pending[code:]
            elif kind == "W":
                if code is None:
                    code = n // 2 if cut else plan.decide("write", n) if n else 0
                    if code > 0:
                        idle = 0
                        (res.out if fd == 1 else res.err).extend(data[:code])
            elif kind == "G":
                code = plan.decide("getrandom", n) if n else 0
                if code > 0:
                    payload = plan.h.randbytes(code)
            else:
                code = 0
            a.sendall(struct.pack("<q", code) + payload)
    except (socket.timeout, TimeoutError):
        res.over = f"no call for {PATIENCE} s"
        os.kill(pid, signal.SIGKILL)
    except (BrokenPipeError, ConnectionResetError):
        pass
    finally:
        rd.close()
        a.close()
    _, st = os.waitpid(pid, 0)
    res.status = os.waitstatus_to_exitcode(st)
    res.seen = seen
    return res


# ---------------------------------------------------------------- sessions
NAMES = ["x", "y", "z", "t", "alpha", "b2", "k_1", "w'", "Velocity", "QQ", "omega_3", "v"]
BAD_VALUES = ["abc", "", "1,5", "--3", "1 2", "0x10", "exit", "3..2", "x", "1/2", "½", "１", "…", "3 4 5", ">>", "1_000", "x" * 9000, "é" * 5000, "nope\t", "\x00",
    "= 3", "3;", "3 # three", "// 3", "quit", "q", "help", "skip", "-", "+", "e", "pi", "1e", "-x", "(3)", "3+4", "$1", "#", "?", "cancel", "back", "ans", "1e5 m", "3%", "'3'", "\"3\"", "none", "null", "true", "abort", "^C", "^D", "\x04", "\x03", "\x1b"]
GOOD_VALUES = ["3", "-2.5", " 7 ", "+4", "1e2", ".5", "5.", "12.0625", "-0.25", "1000000", "0.1", "\t8\t", "2.5e-1", "inf", "nan", "-0", "INF", "Infinity", "-infinity", "NaN", "1e400", "-1e400", "1e-400", "000.5", "4e0", "9007199254740993", "1E2", "-.5e+1"]
INVALID = [
    "", " ", "\t", "(", ")", "1 +", "* 3", "2 2", "3!!2", "3!!", "sin", "sin()", "sin(1, 2)", "max(1,)", "max(,1)", "1..2", "#", "é", "x + é",
    "日本語", "1 + 日", "sin(é)", "max(1, é", "(((", "1 ^", "5 %", "a b c )", "pow(2,3", "$HOME", "1 = 2", "\x00", "\x1b[31m", "''", "_a", "x y )",
    "max(1 2)", "sum(", "sum(1,", "1e", "1e+", ".", "..", "1_", "_", "exit()", "quit 1)", "é" * 40, "x" * 300 + ")", "😀", "1😀", "x😀y", "(😀",
    "max(😀,1)", "max(1,😀", "sin(1)😀", "\u2028", "\ufeff1", "a\u0301", "12345678901234567890123456789x)", "1.2.3.4", "((1)", "logn(1)", "sin(sin())",
]


# no commands of this REPL: mere names, or errors
COMMANDS = ("quit", "help", "Exit", "EXIT", "bye", "exit exit", "exit x", "x exit", "ans", "ans + 1", "clear", "vars", ":q", "?", "exit;", "q", "exits", "exit2", "e xit", "last", "it", "_1")


# in front of what would be an expression
MARKS = ("//", "// ", "#", "# ", ";", "--", "/*", "!", ":", "\\", "@", "%", "=", "$ ", "> ", ">> ", "let x = ", "x = ", "x := ", "f(x) = ", "[", "{", "\"", "|", "&", "~", "`", "?", ",", "<", "*", "/", "^", ".x", ":let ", "!!", "\x04", "\x03", "\x1b[A", "\x08", "\x7f")
# and behind it
TAILS = (";", " // x", " # x", " ;", "\\", " = ?", " =", ",", " ?", "\"", "]", "}", " &", " | x", " /* x */", " @", ":", " \\", "\x04", "\x03", "\x08", "\x7f", "\x1b[D", "$", "`")


class Tree:
    """An expression of known variables and value, written with all its parentheses."""

    def __init__(self, r, names, depth):
        self.vars = []
        self.free = list(names)
        self.text = self.build(r, depth)
        if not self.vars:
            n = self.free.pop(0) if self.free else "x"
            if r.random() < 0.6:
                self.vars.append(n)
                self.text = (f"({self.text[0]} + {n})", ("+", self.text[1], ("v", n)))
        self.text, self.ast = self.text
        self.sure = not hollow(self.ast)

    def build(self, r, depth):
        if depth == 0 or r.random() < 0.15:
            if self.free and r.random() < 0.7:
                n = self.free.pop(r.randrange(len(self.free)))
                self.vars.append(n)
                return n, ("v", n)
            k = r.randint(2, 90) + r.choice((0, 0.5, 0.25))
            return f"{k:g}", ("n", k)
        op = r.choice("++--**/^")
        if op == "^":
            a = self.build(r, depth - 1)
            return f"({a[0]} ^ 2)", ("^", a[1], ("n", 2.0))
        if r.random() < 0.12:
            a = self.build(r, depth - 1)
            f = r.choice(("abs", "floor", "max"))
            if f == "max":
                b = self.build(r, 0)
                return f"max({a[0]}, {b[0]})", ("max", a[1], b[1])
            return f"{f}({a[0]})", (f, a[1])
        a, b = self.build(r, depth - 1), self.build(r, depth - 1)
        sp = r.choice((" ", " ", ""))
        return f"({a[0]}{sp}{op}{sp}{b[0]})", (op, a[1], b[1])


def hollow(t):
    """Whether it has an operation on constants only."""
    def names(t):
        return t[0] == "v" or t[0] != "n" and any([names(x) for x in t[1:]])
    return t[0] not in "vn" and (not names(t) or any(hollow(x) for x in t[1:]))


def value(t, env):
    k = t[0]
    if k == "n":
        return t[1]
    if k == "v":
        return env[t[1]]
    a = [value(x, env) for x in t[1:]]
    if None in a:
        return None
    try:
        if k == "+":
            return a[0] + a[1]
        if k == "-":
            return a[0] - a[1]
        if k == "*":
            return a[0] * a[1]
        if k == "/":
            return a[0] / a[1]
        if k == "^":
            return a[0] ** a[1]
        if k == "abs":
            return abs(a[0])
        if k == "floor":
            return float(int(a[0] // 1))
        if k == "max":
            return max(a)
    except (ZeroDivisionError, OverflowError, ValueError):
        pass
    return None


def nudged(t, env, rng):
    """The tree with each of its leaves replaced by a number very close to it."""
    if t[0] == "n":
        return ("n", t[1] * (1 + rng.choice((-1, 1)) * 1e-12))
    if t[0] == "v":
        return ("n", env[t[1]] * (1 + rng.choice((-1, 1)) * 1e-12))
    if t[0] == "^":
        return ("^", nudged(t[1], env, rng), t[2])
    return (t[0],) + tuple(nudged(x, env, rng) for x in t[1:])


def steady(t, env):
    """The value and how far off it may be by rounding, unless it hangs on how extremes are treated."""
    v = value(t, env)
    if v is None or v != v or abs(v) > 1e200:
        return None
    rng, spread = random.Random(1), 0.0
    for _ in range(6):
        w = value(nudged(t, env, rng), env)
        if w is None or w != w or abs(w - v) > 1e-6 * max(1e-3, abs(v)):
            return None
        spread = max(spread, abs(w - v))
    return v, 4 * spread


def make_line(r):
    """A line of input: its text and what is known about it."""
    k = r.random()
    if k < 0.50:
        names = r.sample(NAMES, r.randint(0, min(6, len(NAMES))))
        t = Tree(r, names, r.randint(0, 4))
        text = r.choice(("", "", " ", "\t")) + t.text + r.choice(("", "", " ", "  "))
        return dict(text=text, kind="valid", vars=sorted(t.vars), ast=t.ast) if not t.vars or t.sure else dict(text=text, kind="any")
    if k < 0.53:
        t = r.choice(("1 + 1", "x", "2", "x + y", "sin(1)", "exit", "", "quit", "x y", "(3)"))
        s = r.choice(MARKS) + t if r.random() < 0.6 else t + r.choice(TAILS)
        # what no expression contains
        never = any(c in s for c in "#;!:\\@=$><[]{}\"|&~`?\x04\x03\x1b\x08\x7f") and "!" not in s
        return dict(text=s, kind="invalid" if never else "any")
    if k < 0.58:
        return dict(text=r.choice(("sin(pi) x", "2x", "3(4)", "x!", "e", "pi", "2 * 3", "7", "x - x", "0 * y", "z / z", "a + a", "sum(p, q, p)", "-(-u)", "x x", "max(h, h)", "f1 f2 f3", "q % 1", "5!") + COMMANDS), kind="any")
    if k < 0.61:
        n = r.choice((300, 1000, 3000, 8185, 8192, 9000))
        if r.random() < 0.3:
            return dict(text=r.choice(("é", "日", "😀")) * (n // 2), kind="invalid")
        return dict(text="v" * n if n > 2000 else " + ".join(f"n{i}" for i in range(n // 60)), kind="any")
    if k < 0.64:
        s = r.choice(INVALID) + r.choice("+*(, ") + r.choice(INVALID)
        return dict(text=s.replace("\n", " "), kind="any")
    if k < 0.70:
        alphabet = "0123456789.+-*/^%!(), xyzabe_'\té日"
        return dict(text="".join(r.choice(alphabet) for _ in range(r.randint(1, 24))), kind="any")
    s = r.choice(INVALID)
    valid = s in ("''", "_a", "1e", "1_", "_", ".", "\ufeff1", "x + é")
    return dict(text=s, kind="any" if valid else "invalid")


def make_case(prop, seed):
    r = random.Random(seed)
    n = r.choice((1, 2, 3, 4, 6, 9)) if prop != "C12" else r.choice((2, 4, 7, 12))
    if r.random() < (0.06 if prop == "C12" else 0.02):
        n = r.choice((30, 50, 80, 130))
    lines = [make_line(r) for _ in range(n)]
    if n > 1 and r.random() < 0.3:
        # lines met before
        for _ in range(r.randint(1, n)):
            lines[r.randrange(n)] = dict(lines[r.randrange(n)])
    if prop == "C13" and r.random() < 0.5 or r.random() < 0.25:
        lines.insert(r.randint(0, len(lines)), dict(text=r.choice(("exit", " exit", "exit ", "\texit\t", "  exit  ")), kind="exit"))
    case = dict(prop=prop, seed=seed, lines=lines, eol=r.choice(("\n", "\n", "\n", "\r\n")), junk=r.choice((0, 0, 15, 40, 40)), variants=[])
    case["stubborn"] = r.choice((3, 3, 3, 12, 40)) if n < 30 else 3
    if case["stubborn"] > 3:
        case["junk"] = r.choice((60, 90))
    for _ in range({"C11": 5, "C12": 2, "C13": 9, "C14": 4}[prop]):
        v = dict(hash_seed=r.getrandbits(32), seed=r.getrandbits(48), frag=0, eintr=0)
        v["mode"] = r.choice(("typed", "typed", "lines", "file", "pieces"))
        if prop in ("C11", "C12") or r.random() < 0.5:
            v["frag"] = r.choice((0, 10, 50, 100))
            v["eintr"] = r.choice((0, 0, 10, 40))
        if prop == "C13":
            v["end"] = r.choice(("eof", "eof", "eof", "read", "write", "write", "decode", "tail"))
            v["at"] = r.random()
            v["lasts"] = r.random() < 0.5
            if v["end"] == "read":
                v["code"] = -r.choice((errno.EIO, errno.EAGAIN, errno.ENOMEM, errno.EINVAL, errno.EISDIR))
            elif v["end"] == "write":
                v["code"] = -r.choice((errno.EIO, errno.ENOSPC, errno.EPIPE, errno.EAGAIN, errno.EFBIG)) if r.random() < 0.85 else 0
                v["part"] = r.random() < 0.4
                v["both"] = r.random() < 0.3
        case["variants"].append(v)
    return case


def prop_seed(prop, base, index):
    return random.Random(f"{prop}/{base}/{index}").getrandbits(60)


# ---------------------------------------------------------------- the user who types
PROMPT = re.compile(rb"(?:\A|\n)(?:(>> )|([A-Za-z_][A-Za-z0-9_']*): )\Z", re.S)


class Bad(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


def answer_for(case, i, line, name, attempt):
    r = random.Random(f"{case['seed']}/{line['text']}/{name}/{attempt}")
    if attempt < case.get("stubborn", 3) and r.randrange(100) < case["junk"]:
        return None, r.choice(BAD_VALUES)
    k = r.random()
    t = r.choice(GOOD_VALUES) if k < 0.6 else f"{r.randint(-400, 900) / 16}" if k < 0.75 else f"{r.randint(-10**15, 10**15)}" if k < 0.8 else repr(r.uniform(-200, 400))
    return float(t), t


class User:
    """Types the lines of a case, answering prompts as they come, and checks the dialogue."""

    def __init__(self, case, lines):
        self.case, self.lines = case, lines
        self.typed = bytearray()
        self.marks = []  # (line number, output before, output after) of each line
        self.i = -1
        self.at = 0
        self.seg = 0
        self.values = {}
        self.tries = {}

    def __call__(self, res):
        seg = bytes(res.out[self.seg:])
        self.seg = len(res.out)
        if self.i >= 0 and self.i < len(self.lines) and self.lines[self.i]["kind"] == "exit":
            raise Bad("left", f"after exit it goes on reading, having delivered {seg[-60:]!r}")
        m = PROMPT.search(seg)
        if not m:
            raise Bad("prompt", f"it waits for input, but what it delivered ends with {seg[-60:]!r}")
        if m.group(1):
            self.finish(res)
            return self.next_line(res)
        name = m.group(2).decode()
        if self.i < 0:
            raise Bad("prompt", f"it asks for {name} before any line was given")
        line = self.lines[self.i]
        if name in self.values:
            raise Bad("asked", f"it asks for {name} again, which has the usable value {self.values[name]}")
        if line["kind"] == "valid" and name not in line["vars"]:
            raise Bad("asked", f"it asks for {name}, which is no variable of {line['text']!r}")
        if line["kind"] == "invalid":
            raise Bad("asked", f"it asks for {name} after the invalid line {line['text']!r}")
        n = self.tries.get(name, 0)
        self.tries[name] = n + 1
        v, text = answer_for(self.case, self.i, line, name, n)
        if v is not None:
            self.values[name] = v
        return self.send(text)

    def finish(self, res):
        """The response to the last line is complete."""
        if self.i < 0:
            return
        line = self.lines[self.i]
        out = bytes(res.out[self.at:])
        self.marks.append((self.i, self.at, len(res.out)))
        if line["kind"] == "valid":
            missing = [v for v in line["vars"] if v not in self.values]
            if missing:
                raise Bad("asked", f"it never asked for {missing} of {line['text']!r}")
            m = re.search(rb"Evaluated: (\S+)\n", out)
            if not m:
                raise Bad("answer", f"{line['text']!r} was not evaluated: {out[-300:]!r}")
            want = steady(line["ast"], self.values)
            got = float(m.group(1))
            if want is not None and not abs(got - want[0]) <= want[1]:
                raise Bad("answer", f"{line['text']!r} with {self.values} gave {got}, not {want[0]}")
        elif line["kind"] == "invalid":
            if b"Evaluated:" in out:
                raise Bad("answer", f"the invalid line {line['text']!r} was evaluated: {out[-300:]!r}")
            if not out[:-3].strip():
                raise Bad("answer", f"the invalid line {line['text']!r} was not reported")
        elif line["kind"] == "any" and not out[:-3].strip():
            raise Bad("answer", f"the line {line['text']!r} was neither evaluated nor reported")

    def next_line(self, res):
        self.i += 1
        self.at = len(res.out)
        self.values, self.tries = {}, {}
        if self.i >= len(self.lines):
            return b""
        return self.send(self.lines[self.i]["text"])

    def send(self, text):
        b = (text + self.case["eol"]).encode()
        self.typed += b
        return b


def interactive(binary, case, lines, hash_seed):
    u = User(case, lines)
    plan = Plan(hash_seed=hash_seed)
    fail = []

    def source(res):
        try:
            return u(res)
        except Bad as e:
            fail.append(e)
            return b""
    res = execute(binary, plan, source)
    res.plan = plan
    if fail:
        raise fail[0]
    if res.over:
        raise Bad("endless", f"the session does not end: {res.over}")
    exits = [i for i, l in enumerate(lines) if l["kind"] == "exit"]
    if res.status != 0:
        what = f"line {lines[u.i]['text']!r}" if 0 <= u.i < len(lines) else "the end of input"
        raise Bad("died", f"the session ended with status {res.status} after {what}: {bytes(res.err)[-300:]!r}")
    last = exits[0] if exits else len(lines)
    if u.i != last:
        raise Bad("ended", f"the session ended after line {u.i} of {len(lines)}: {lines[min(u.i, len(lines) - 1)]['text']!r}")
    return u, res


# ---------------------------------------------------------------- the checks on a case
# which of the deviations belong to which property
OWN = {
    "C11": {"transcript", "waits", "died", "endless"},
    "C12": {"died", "ended", "endless", "answer", "history", "asked", "prompt"},
    "C13": {"status", "died", "ended", "endless", "left"},
    "C14": {"prompt", "asked", "answer", "waits", "transcript"},
}


class Stats:
    def __init__(self):
        self.runs = self.calls = self.waits = self.bytes_in = self.bytes_out = 0
        self.counts = {}
        self.shapes = set()
        self.nontrivial = 0
        self.cases = 0
        self.others = {}
        self.longest = 0

    def add(self, res, plan, salt=""):
        self.runs += 1
        self.calls += res.calls
        self.longest = max(self.longest, res.calls)
        self.waits += len(res.waits)
        self.bytes_in += res.given
        self.bytes_out += len(res.out)
        for k, v in plan.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        if plan.counts:
            self.nontrivial += 1
            self.shapes.add(hash_of([salt, plan.log, res.waits, res.fault_at, res.status]))

    def merge(self, o):
        for k in ("runs", "calls", "waits", "bytes_in", "bytes_out", "nontrivial", "cases"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.longest = max(self.longest, o.longest)
        self.shapes |= o.shapes
        for a, b in ((self.counts, o.counts), (self.others, o.others)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v


def hash_of(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


def differ(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{a[max(0, i - 40):i + 60]!r} (from byte {i}), where {b[max(0, i - 40):i + 60]!r}"


def feeder(mode, data, seed):
    """How the input arrives: at once, by lines, in pieces that ignore lines, or as typed."""
    r = random.Random(seed)
    pos = [0]

    def source(res):
        p = pos[0]
        if p >= len(data):
            return b""
        if mode == "file":
            q = len(data)
        elif mode == "pieces":
            q = min(len(data), p + r.choice((1, 2, 7, 30, 200)))
        else:
            q = data.find(b"\n", p) + 1 or len(data)
            if mode == "lines" and r.random() < 0.5:
                q = data.find(b"\n", q) + 1 or len(data)
        pos[0] = q
        return data[p:q]
    return source


class Reference:
    """The session as typed by a user, on a system that does nothing unusual."""

    def __init__(self, binary, case, stats):
        self.user, res = interactive(binary, case, case["lines"], 1)
        stats.add(res, res.plan, case["seed"])
        self.data, self.out, self.err = bytes(self.user.typed), bytes(res.out), bytes(res.err)
        self.waits = {}
        for given, seen in res.waits:
            self.waits.setdefault(given, seen)
        self.exits = any(l["kind"] == "exit" for l in case["lines"])
        self.log = [hash_of((self.out, self.err, res.waits, res.calls))]

    def due(self, given):
        """The output due when the input up to `given`, which ends a line, is used up."""
        seen = self.waits.get(given)
        return None if seen is None else self.out[:seen]


def judge(binary, case, memo, stats):
    """Runs a case. Raises Bad for what is wrong; returns what identifies the executions."""
    own = OWN[case["prop"]]
    stats.cases += 1
    log = []
    try:
        ref = Reference(binary, case, stats)
        log += ref.log
        if case["prop"] in ("C12", "C14"):
            fresh(binary, case, ref, memo, stats)
    except Bad as e:
        if e.cls in own:
            raise
        stats.others[f"{e.cls}: {e.msg[:200]}"] = stats.others.get(f"{e.cls}: {e.msg[:200]}", 0) + 1
        return log
    for v in case["variants"]:
        try:
            log.append(variant(binary, case, v, ref, stats))
        except Bad as e:
            msg = f"{e.msg} [{json.dumps({k: x for k, x in v.items() if k not in ('script', 'log')})}]"
            if e.cls in own:
                raise Bad(e.cls, msg) from None
            stats.others[f"{e.cls}: {e.msg[:200]}"] = stats.others.get(f"{e.cls}: {e.msg[:200]}", 0) + 1
    return log


def fresh(binary, case, ref, memo, stats):
    """Every line is answered as it would be in a fresh session."""
    for i, a, b in ref.user.marks:
        line = case["lines"][i]
        key = (binary, case["seed"] if line["kind"] != "invalid" else 0, line["text"], case["eol"])
        if key not in memo:
            fu, fr = interactive(binary, case, [line], 2 + case["seed"] % 1000)
            stats.add(fr, fr.plan, case["seed"])
            _, x, y = fu.marks[0]
            memo[key] = bytes(fr.out[x:y])
        if ref.out[a:b] != memo[key]:
            raise Bad("history", f"line {i} {line['text'][:80]!r} of the session was answered {differ(ref.out[a:b], memo[key])} is the answer in a fresh session")


def decodes(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


UNDECODABLE = [b"\xff", b"\xc3\x28", b"\xe6\x97", b"\x80", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"1 + \xfe\n"]


def variant(binary, case, v, ref, stats):
    end = v.get("end")
    fault = None
    data, out = ref.data, ref.out
    feed, flood = data, b""
    if end == "eof":
        feed = data[:int(v["at"] * (len(data) + 1))]
    elif end == "decode":
        k = int(v["at"] * (len(data) + 1))
        feed = data[:k] + UNDECODABLE[int(v["at"] * 1e6) % len(UNDECODABLE)] + data[k:]
    elif end == "tail" and ref.exits:
        feed = data + (b"1 + 1\n", b"\xff\xff\n", b"exit\n", b"(\n" * 9000, b"\n")[int(v["at"] * 1e6) % 5]
        # and what follows may never end
        flood = (b"", b"2\n", b"\n", b"exit\n", b"\xff\n", b"x" * 100)[int(v["at"] * 1e8) % 6]
    # the session is as it was up to here
    same = next((i for i, (a, b) in enumerate(zip(data, feed)) if a != b), min(len(data), len(feed)))
    same = feed.rfind(b"\n", 0, same) + 1

    def plan():
        return Plan(v["seed"], v["hash_seed"], v["frag"], v["eintr"], v.get("script"))
    if end in ("read", "write"):
        kind = "R" if end == "read" else "W1"
        dry = execute(binary, plan(), feeder(v["mode"], feed, v["seed"]))
        stats.add(dry, Plan())
        fault = dict(on=kind, n=int(v["at"] * max(1, dry.seen.get(kind, 0))), lasts=v["lasts"], code=v["code"], part=v.get("part"), both=v.get("both"))
    p = plan()
    source = feeder(v["mode"], feed, v["seed"])
    floods = [0]

    def endless(r):
        q = source(r)
        if q or not flood:
            return q
        floods[0] += 1
        p.count("input that goes on after exit")
        return flood * 100 if floods[0] <= 300 else b""
    res = execute(binary, p, endless, fault)
    v["log"] = p.log
    stats.add(res, p, case["seed"])
    # std names the thread that panicked by its number
    got, err = bytes(res.out), re.sub(rb"thread 'main' \(\d+\)", b"thread 'main'", bytes(res.err))
    tail = err[-300:]
    if res.over:
        raise Bad("endless", f"the session does not end: {res.over}")
    if res.status < 0:
        raise Bad("died", f"the session was ended by signal {-res.status}: {tail!r}")
    # whenever it waited, exactly what was due had been delivered
    for given, seen in res.waits:
        whole = feed.rfind(b"\n", 0, given) + 1
        if whole > same or given == len(feed) and whole < given:
            break  # an unfinished last line may be answered
        want = ref.due(whole)
        if want is not None and got[:seen] != want:
            raise Bad("waits", f"waiting after {whole} bytes of input it had delivered {differ(got[:seen], want)} was due")
    if end is None or end == "tail" and ref.exits:
        if floods[0] > 300:
            raise Bad("endless", "the session does not end at `exit`: it read all of what followed, which does not end")
        if end and res.status != 0:
            raise Bad("status", f"the session ended with status {res.status} after exit: {tail!r}")
        if end and got.startswith(out) and got != out:
            raise Bad("left", f"after exit the session went on: {got[len(out):][:200]!r}")
        if got != out:
            raise Bad("transcript", f"the output became {differ(got, out)} is right")
        if err != ref.err:
            raise Bad("transcript", f"the error output became {differ(err, ref.err)} is right")
        if res.status != 0:
            raise Bad("died", f"the session ended with status {res.status}: {tail!r}")
    elif fault and res.fault_at is not None:
        if res.status == 0:
            raise Bad("status", f"the session ended with success although {'input could not be read' if end == 'read' else 'output could not be written'}")
        if not out.startswith(got[:res.fault_at]):
            raise Bad("transcript", f"the output before the failure became {differ(got[:res.fault_at], out)} is right")
        if end == "read" and got[res.fault_at:].count(b"\n") > 3:
            raise Bad("left", f"after input could not be read the session went on: {got[res.fault_at:][:200]!r}")
    elif fault:
        if res.status != 0 or got != out:
            raise Bad("transcript", f"nothing failed, but the session ended with status {res.status} and output {differ(got, out)} is right")
    else:
        # cut short, or holding what cannot be decoded, somewhere after `same`
        want = ref.due(same)
        ended = same > 0 and same not in ref.waits  # by `exit`, before that
        if want is not None and not got.startswith(want):
            raise Bad("transcript", f"the output before the input changed became {differ(got, want)} is right")
        if ended or end == "eof" and decodes(feed):
            if res.status != 0:
                raise Bad("status", f"the session ended with status {res.status} after {'exit' if ended else 'the end of input'}: {tail!r}")
        elif end == "eof" or end == "decode":
            if end == "decode" and decodes(feed):
                return hash_of((got, err, res.waits, res.status))  # completed what was there
            if res.status == 0:
                raise Bad("status", "the session ended with success although its input could not be decoded")
    return hash_of((got, err, res.waits, res.status))


# ---------------------------------------------------------------- known findings
def known_probes():
    """The recorded findings of C12: their exact lines, and how they are reported."""
    for k in known_findings()["findings"]:
        if k["property"] == "C12":
            yield k, k["line"]["repeat"] * k["line"]["times"] + k["line"].get("then", "")


def run_known(names):
    out = []
    for k, line in known_probes():
        hit = []
        for n in names:
            lines = [dict(text=line, kind="any"), dict(text="1 + 1", kind="any")]
            try:
                interactive(repl_bin(n), dict(seed=1, junk=0, eol="\n", prop="C12"), lines, 1)
            except Bad as e:
                if e.cls == "died":
                    hit.append(n)
        if hit:
            out.append(f"{k['what']} ({', '.join(hit)})")
    return out


# ---------------------------------------------------------------- exploration
def work(job):
    prop, name, base, start, count, again = job
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    binary = repl_bin(name)
    stats, memo, logs, found = Stats(), {}, [], None
    for i in range(start, start + count):
        case = make_case(prop, prop_seed(prop, base, i))
        try:
            logs.append(judge(binary, case, memo, stats))
        except Bad as e:
            found = dict(config=name, run=i, cls=e.cls, msg=e.msg)
            break
    return job, stats, found, hash_of(logs)


def explore(prop, tier, seed):
    clock = Clock()
    names = configs(tier)
    shim()
    parallel(build_repl, names)
    built = clock.s()
    chunks, secs = BUDGET[tier]
    chunks = int(os.environ.get("XSIM_CHUNKS", chunks))
    base = {n: seed * 16 + list(CONFIGS).index(n) for n in names}
    jobs = [(prop, n, base[n], k * CHUNK, CHUNK, False) for k in range(chunks) for n in names]
    stats, found, prints, differed = Stats(), [], {}, 0
    per = {n: 0 for n in names}
    runs = Clock()
    ctx = multiprocessing.get_context("fork")
    violations, doubtful, done = [], [], set()
    while True:
        todo = [j for j in jobs if j not in done]
        with ctx.Pool(8) as pool:
            it = pool.imap_unordered(work, todo, 1)
            for _ in todo:
                job, st, f, h = it.next(timeout=800)
                done.add(job)
                stats.merge(st)
                per[job[1]] += st.cases
                prints[job[:5]] = h
                if f:
                    found.append(f)
                    break
                if runs.s() > secs:
                    break
            pool.terminate()
        if not found:
            break
        v = report(prop, seed, base[found[0]["config"]], found[0])
        if v:
            violations.append(v)
            break
        # not to be had again: there may be others, further on
        doubtful += found
        if len(doubtful) == 6 or runs.s() > secs:
            break
        found.clear()
    ran = runs.s()
    repeated = 0
    if not found:
        # one seed is one execution: some chunks again, in other processes
        with ctx.Pool(8) as pool:
            for job, _, _, h in pool.imap_unordered(work, [(prop, n, base[n], k * CHUNK, CHUNK, True) for n in names for k in (0, 1)], 1):
                if job[:5] in prints:
                    repeated += CHUNK
                    differed += prints[job[:5]] != h
    known = run_known(names) if prop == "C12" else []
    return summary(prop, names, stats, per, violations, doubtful, known, repeated, differed, built, ran, base)


def determinism(prop, seed):
    """Chunks of sessions twice, in different processes."""
    names = configs("thorough")
    shim()
    parallel(build_repl, names)
    prints, same, diff = {}, 0, 0
    jobs = [(prop, n, seed * 16 + list(CONFIGS).index(n), k * CHUNK, CHUNK, again) for again in (False, True) for n in names for k in range(6)]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for job, _, _, h in pool.imap_unordered(work, jobs, 1):
            if job[:5] in prints:
                ok = prints[job[:5]] == h
                same, diff = same + CHUNK * ok, diff + CHUNK * (not ok)
            prints[job[:5]] = h
    return same, diff


def report(prop, seed, base, f):
    """Minimises a failure and writes its replay file."""
    global PATIENCE
    binary = repl_bin(f["config"])
    case = make_case(prop, prop_seed(prop, base, f["run"]))

    def fails(c, cls=None):
        try:
            judge(binary, c, {}, Stats())
        except Bad as e:
            return e if cls in (None, e.cls) else None
        return None

    r = fails(case)
    if not r:
        note(f"{prop}: {f} was not reproduced")
        return None
    clock, budget = Clock(), 75
    PATIENCE = 6

    def attempt(change):
        nonlocal case, r
        if clock.s() > budget:
            return False
        c = copy.deepcopy(case)
        if change(c) is False:
            return False
        e = fails(c, r.cls)
        if e:
            case, r = c, e
            return True
        return False

    def drop(get):
        size = max(1, len(get(case)) // 2)
        while size >= 1 and clock.s() < budget:
            j = 0
            while j < len(get(case)) and clock.s() < budget:
                def cut(c):
                    del get(c)[j:j + size]
                if not attempt(cut):
                    j += size
            size //= 2

    drop(lambda c: c["variants"])
    for _ in range(2):
        drop(lambda c: c["lines"])
        for key, val in (("junk", 0), ("eol", "\n")):
            attempt(lambda c: None if c[key] != val and not c.update({key: val}) else False)
        for i in range(len(case["variants"])):
            for key, val in (("frag", 0), ("eintr", 0), ("mode", "typed"), ("lasts", True), ("part", False), ("both", False), ("code", -errno.EIO), ("at", 0.0), ("at", 0.5), ("hash_seed", 1)):
                attempt(lambda c: None if c["variants"][i].get(key, val) != val and not c["variants"][i].update({key: val}) else False)
        for i in range(len(case["lines"])):
            if case["lines"][i]["kind"] == "valid":
                # keep what is known about it
                for t, vs, ast in (("x", ["x"], ["v", "x"]), ("(x + y)", ["x", "y"], ["+", ["v", "x"], ["v", "y"]])):
                    if len(case["lines"][i]["text"]) > len(t) and attempt(lambda c: c["lines"].__setitem__(i, dict(text=t, kind="valid", vars=vs, ast=ast))):
                        break
            elif len(case["lines"][i]["text"]) > 1 and case["lines"][i]["kind"] == "any":
                size = len(case["lines"][i]["text"]) // 2
                while size >= 1 and clock.s() < budget:
                    j = 0
                    while j < len(case["lines"][i]["text"]) and clock.s() < budget:
                        def cut(c):
                            t = c["lines"][i]["text"]
                            t = t[:j] + t[j + size:]
                            if t.strip() == "exit":
                                return False
                            c["lines"][i]["text"] = t
                        if not attempt(cut):
                            j += size
                    size //= 2
    # the decisions it took, written out, and as few of them as will do
    for i in range(len(case["variants"])):
        log = case["variants"][i].pop("log", [])
        if any(d is not None for d in log) and attempt(lambda c: c["variants"][i].update(script=log, frag=0, eintr=0)):
            odd = [k for k, d in enumerate(log) if d is not None]
            size = max(1, len(odd) // 2)
            while size >= 1 and clock.s() < budget:
                j = 0
                while j < len(odd) and clock.s() < budget:
                    def plain(c):
                        for k in odd[j:j + size]:
                            c["variants"][i]["script"][k] = None
                    if attempt(plain):
                        del odd[j:j + size]
                    else:
                        j += size
                size //= 2
            while case["variants"][i]["script"] and case["variants"][i]["script"][-1] is None:
                case["variants"][i]["script"].pop()
    for v in case["variants"]:
        v.pop("log", None)
    again = fails(copy.deepcopy(case), r.cls)
    if not again or again.msg != fails(copy.deepcopy(case), r.cls).msg:
        note(f"{prop}: the minimised case is not stable: {r.msg[:300]}")
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{f['config']}-{seed}-{f['run']}.json")
    with open(path, "w") as h:
        json.dump(dict(engine="repl", property=prop, config=f["config"], verif_seed=seed, run=f["run"], cls=r.cls, message=r.msg, case=case), h, indent=1)
    return dict(path=path, cls=r.cls, msg=r.msg, config=f["config"], run=f["run"])


def replay(doc, path):
    shim()
    build_repl(doc["config"])
    try:
        judge(repl_bin(doc["config"]), doc["case"], {}, Stats())
    except Bad as e:
        return (e.cls, e.msg)
    return None


REAL = [
    "the repl binary from /repo (debug profile, the configuration's toolchain and features): its line loop, prompts and error reports",
    "xprs and miette within it, std's BufReader, LineWriter, println! and their handling of short counts and EINTR, the process's exit",
]
STUB = [
    "read, readv, write, writev on the standard streams, getrandom, clock_gettime, nanosleep: answered by the simulator, one call at a time",
    "the user: types lines and answers prompts from the seed; or a pipe or file in arbitrary pieces",
]


def summary(prop, names, stats, per, violations, doubtful, known, repeated, differed, built, ran, base):
    samples = []
    for n in names[:2]:
        c = make_case(prop, prop_seed(prop, base[n], 1))
        samples.append(json.dumps(dict(config=n, run=1, lines=[l["text"][:80] for l in c["lines"][:5]], eol=c["eol"], variants=c["variants"][:2])))
    return dict(
        coverage=dict(
            evaluations=stats.runs,
            distinct_nontrivial=len(stats.shapes),
            rule="a run is one execution of the real binary over a generated session; it is non-trivial if at least one call was cut short, interrupted or failed, or the input ended, and distinct by session, decisions taken, waits, point of failure and status",
            samples=samples,
            builds=names,
            sessions=stats.cases,
            sessions_per_build=per,
            runs_per_hour=int(stats.runs / max(ran, 0.1) * 3600),
            seeds_per_hour=int(stats.cases / max(ran, 0.1) * 3600),
            exploration_s=round(ran, 1),
            build_s=round(built, 1),
            simulated_calls=stats.calls,
            longest_run_calls=stats.longest,
            simulated_time_s=round(stats.calls * 2e-6, 3),
            waits_checked=stats.waits,
            bytes_typed=stats.bytes_in,
            bytes_delivered=stats.bytes_out,
            faults_injected=dict(sorted(stats.counts.items())),
            deviations_of_other_properties=sorted(stats.others)[:5],
            determinism=dict(sessions_rerun_in_other_process=repeated, chunks_differed=differed),
            real_components=REAL,
            simulated_components=STUB,
            unreproduced=doubtful,
        ),
        violations=violations,
        known=known,
    )
