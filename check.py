#!/usr/bin/env python3
"""check.py check C01 [quick|thorough]   decide a property; VERIF_SEED is the base of every choice
check.py replay FILE                     run a replay file again
check.py setup                           build everything once
check.py determinism [PROP..]            run many seeds twice in different processes and compare"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "machinery"))
import common  # noqa: E402
from common import Broken, Clock, note  # noqa: E402
import lib  # noqa: E402

LIB = [f"C{i:02}" for i in range(1, 11)]
REPL = [f"C{i:02}" for i in range(11, 15)]


def engine(prop):
    if prop in LIB:
        return lib
    if prop in REPL:
        import repl
        return repl
    raise Broken(f"unknown property {prop}")


def main():
    args = sys.argv[1:]
    cmd = args[0] if args else ""
    if cmd == "check":
        prop = args[1]
        tier = args[2] if len(args) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        clock = Clock()
        r = engine(prop).explore(prop, tier, seed)
        common.write_evidence(prop, dict(
            property=prop, tier=tier, seed=seed, level="exploration", coverage=r["coverage"],
            assumptions=r.get("assumptions", []), wall_s=round(clock.s(), 1), violations=len(r["violations"])))
        for k in r["known"]:
            print(f"KNOWN-FINDING: property={prop} {k}")
        for v in r["violations"]:
            note(f"{prop}: {v['cls']}: {v['msg'][:600]} ({v['config']})")
            print(f"VIOLATION property={prop} replay={v['path']}", flush=True)
        cov = r["coverage"]
        print(f"{prop} {tier} seed={seed}: {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct, {len(r['violations'])} violations, {clock.s():.0f} s")
        return 1 if r["violations"] else 0
    if cmd == "replay":
        with open(args[1]) as f:
            doc = json.load(f)
        e = lib if doc["engine"] == "lib" else engine(doc["property"])
        r = e.replay(doc, os.path.abspath(args[1]))
        if r:
            note(f"{r[0]}: {r[1]}")
            print(f"VIOLATION property={doc['property']} replay={os.path.abspath(args[1])}")
            return 1
        print("no violation")
        return 0
    if cmd == "determinism":
        bad = 0
        for prop in args[1:] or LIB + REPL:
            same, diff = engine(prop).determinism(prop, int(os.environ.get("VERIF_SEED", "1")))
            print(f"{prop}: {same + diff} runs made twice in different processes, {diff} differed", flush=True)
            bad += diff
        return 1 if bad else 0
    if cmd == "setup":
        import repl
        repl.shim()
        jobs = [(f, n) for n in common.QUICK for f in (common.build_lib, repl.build_repl)]
        common.parallel(lambda j: j[0](j[1]), jobs)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        code = main()
    except Broken as e:
        note(f"ERROR: {e}")
        code = 2
    sys.exit(code)
