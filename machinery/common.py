"""Configurations, builds, evidence, known findings: what both engines share."""
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XPRS_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "target", "replays")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"

# the CI matrix: toolchain x precedence x parse-time optimisation
CONFIGS = {
    f"{t}-{p}-{'opt' if o else 'plain'}": dict(toolchain=tc, prec=p, opt=o)
    for t, tc in (("stable", STABLE), ("nightly", NIGHTLY))
    for p in ("pemdas", "pejmdas")
    for o in (True, False)
}
# each of the three choices at both values, and with each value of the others at least once
QUICK = ["stable-pemdas-opt", "stable-pejmdas-plain", "nightly-pejmdas-opt", "nightly-pemdas-plain"]


def configs(tier):
    return QUICK if tier == "quick" else list(CONFIGS)


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    return env


class Broken(Exception):
    """The check itself cannot give an answer."""


def run_build(cmd, env, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Broken("build failed: " + " ".join(cmd) + "\n" + p.stdout[-6000:])


def build_lib(name):
    c = CONFIGS[name]
    env = base_env()
    env.update(
        RUSTUP_TOOLCHAIN=c["toolchain"],
        RUSTC_BOOTSTRAP="simcore",
        RUSTC_WRAPPER=os.path.join(VERIF, "sim", "rustc-wrapper.sh"),
        CARGO_TARGET_DIR=os.path.join(TARGET, "lib-" + name),
    )
    feats = c["prec"] + (",opt" if c["opt"] else "")
    run_build(
        ["cargo", "build", "--offline", "--locked", "--no-default-features", "--features", feats],
        env, os.path.join(VERIF, "sim"))
    return lib_bin(name)


def lib_bin(name):
    return os.path.join(TARGET, "lib-" + name, "debug", "xsim")


def parallel(fn, items, n=8):
    """fn over items on n threads; the results in order, or the first failure."""
    out = [None] * len(items)
    err = []
    it = iter(list(enumerate(items)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                j = next(it, None)
            if j is None or err:
                return
            try:
                out[j[0]] = fn(j[1])
            except BaseException as e:  # noqa: BLE001
                err.append(e)

    ts = [threading.Thread(target=work) for _ in range(min(n, len(items)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return out


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def write_evidence(prop, doc):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def note(*a):
    print(*a, file=sys.stderr, flush=True)


class Clock:
    def __init__(self):
        self.t = time.monotonic()

    def s(self):
        return time.monotonic() - self.t
