"""The library simulator: many seeded runs of sim/ over several builds; minimisation of what fails."""
import copy
import json
import os
import queue
import subprocess
import threading

from common import CONFIGS, REPLAYS, Broken, Clock, build_lib, configs, lib_bin, note, parallel

# (chunks of runs per build, runs per chunk, seconds)
BUDGET = {"quick": (48, 400, 100), "thorough": (10_000, 500, 560)}
STRIDE = 1 << 20
# runs in a process each, per build
COLD = 1 << 40
COLD_RUNS = {"quick": 400, "thorough": 20_000}


def base_of(seed, config):
    """Every build runs seeds of its own."""
    return seed * 16 + list(CONFIGS).index(config)


def parse_lines(text):
    out = []
    for line in text.splitlines():
        try:
            out.append(json.loads(line))
        except ValueError:
            # a fatal report may be cut off or glued to other output
            i = line.find('{"fatal"')
            if i >= 0:
                try:
                    out.append(json.loads(line[i:].replace(",}", "}")))
                except ValueError:
                    out.append({"fatal": "crash", "msg": line[i:200], "run": -1})
    return out


def judge(binary, path, timeout=200):
    """Replays a file in a fresh process: (class, message) of the violation, or None."""
    try:
        p = subprocess.run([binary, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env={"PATH": "/usr/bin:/bin"})
    except subprocess.TimeoutExpired:
        return ("hang", "the run did not end", None)
    docs = parse_lines(p.stdout.decode("utf-8", "replace"))
    for d in docs:
        if d.get("fatal") == "skip":
            return None
        if "fatal" in d:
            return (d["fatal"], d.get("msg", ""), d.get("sched"))
    for d in reversed(docs):
        if "violation" in d:
            v = d["violation"]
            return (v["class"], v["msg"], d.get("schedule")) if v else None
    if p.returncode != 0:
        return ("crash", f"the process ended with status {p.returncode}", None)
    return None


def rerun(binary, prop, base, first, index):
    """Runs a whole stretch of seeds again, as the search did."""
    try:
        p = subprocess.run(
            [binary, "run", "--prop", prop, "--seed", str(base), "--start", str(first), "--count", str(index + 1 - first), "--max", "1"],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={"PATH": "/usr/bin:/bin"}, timeout=600)
    except subprocess.TimeoutExpired:
        return None
    for d in parse_lines(p.stdout.decode("utf-8", "replace")):
        if "violation" in d:
            return (d["violation"]["class"], d["violation"]["msg"], d.get("schedule"))
        if "fatal" in d and d["fatal"] != "skip":
            return (d["fatal"], d.get("msg", ""), d.get("sched"))
    return None


def gen(binary, prop, seed, index):
    p = subprocess.run([binary, "gen", "--prop", prop, "--seed", str(seed), "--index", str(index)], stdout=subprocess.PIPE, check=True)
    return json.loads(p.stdout)


def explore(prop, tier, seed):
    clock = Clock()
    names = configs(tier)
    parallel(build_lib, names)
    built = clock.s()
    chunks, per, secs = BUDGET[tier]
    chunks = int(os.environ.get("XSIM_CHUNKS", chunks))
    jobs = queue.Queue()
    cold = int(os.environ.get("XSIM_COLD", COLD_RUNS[tier]))
    for k in range(max(chunks, cold // 10)):
        for n in names:
            if k < chunks:
                jobs.put((n, k * STRIDE, per))
            for i in range(10 * k, min(10 * k + 10, cold)):
                jobs.put((n, COLD + i, 1))
    found, stats, repeat, skipped = [], [], [], []
    stop = threading.Event()
    runs = Clock()

    def work():
        while not stop.is_set() and runs.s() < secs:
            try:
                n, start, count = jobs.get_nowait()
            except queue.Empty:
                return
            end = start + count
            while start < end and not stop.is_set():
                p = subprocess.run(
                    [lib_bin(n), "run", "--prop", prop, "--seed", str(base_of(seed, n)), "--start", str(start), "--count", str(end - start), "--max", "1"],
                    stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={"PATH": "/usr/bin:/bin"})
                docs = parse_lines(p.stdout.decode("utf-8", "replace"))
                first, start = start, end
                done = False
                for d in docs:
                    if d.get("fatal") == "skip" and d.get("run", -1) >= first:
                        skipped.append((n, d["run"]))
                        start = d["run"] + 1
                    elif "violation" in d:
                        found.append(dict(config=n, run=d["run"], first=first, cls=d["violation"]["class"], msg=d["violation"]["msg"]))
                    elif "fatal" in d:
                        found.append(dict(config=n, run=d.get("run", -1), first=first, cls=d["fatal"], msg=d.get("msg", "")))
                    elif d.get("done"):
                        done = True
                        stats.append((n, d))
                if not done and not any("fatal" in d for d in docs):
                    found.append(dict(config=n, run=-1, first=first, cls="crash", msg=f"the process ended with status {p.returncode}"))
                if found:
                    stop.set()

    violations, doubtful = [], []
    while True:
        ts = [threading.Thread(target=work) for _ in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        found.sort(key=lambda f: (names.index(f["config"]), f["run"]))
        if not found:
            break
        v = report(prop, seed, found[0], per)
        if v:
            violations.append(v)
            break
        # not to be had again: there may be others, further on
        doubtful.append(found[0])
        if len(doubtful) == 6:
            break
        found.clear()
        stop.clear()
    ran = runs.s()

    # one seed is one execution: the first runs again, in other processes, in another order
    if not found:
        parts = parallel(lambda j: digests(prop, seed, *j), [(n, s, c) for n in names for s, c in ((0, 40), (20, 40))])
        for i, n in enumerate(names):
            a, b = parts[2 * i], parts[2 * i + 1]
            both = set(a) & set(b)
            repeat.append((len(both), sum(a[k] != b[k] for k in both)))

    return summary(prop, seed, tier, names, stats, violations, doubtful, repeat, skipped, built, ran)


def digests(prop, seed, name, start, count):
    """The digests of the transcripts of a stretch of runs, by run, in a process of their own."""
    p = subprocess.run([lib_bin(name), "digest", "--prop", prop, "--seed", str(base_of(seed, name)), "--start", str(start), "--count", str(count)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={"PATH": "/usr/bin:/bin"})
    return {d["run"]: d["digest"] for d in parse_lines(p.stdout.decode()) if "digest" in d}


def determinism(prop, seed):
    """Every run twice, the second time in another process with other runs before it."""
    names = configs("thorough")
    parallel(build_lib, names)
    jobs = [(n, s, 50) for n in names for s in range(0, 400, 50)] + [(n, s, 50) for n in names for s in range(25, 400, 50)]
    parts = parallel(lambda j: digests(prop, seed, *j), jobs)
    same = diff = 0
    seen = {}
    for (n, _, _), part in zip(jobs, parts):
        for run, d in part.items():
            if (n, run) in seen:
                ok = seen[n, run] == d
                same, diff = same + ok, diff + (not ok)
            else:
                seen[n, run] = d
    return same, diff


def report(prop, seed, f, per):
    """Minimises a failure and writes its replay file."""
    binary = lib_bin(f["config"])
    base = base_of(seed, f["config"])
    os.makedirs(REPLAYS, exist_ok=True)
    tmp = os.path.join(REPLAYS, f".{prop}.tmp.json")

    def fails(prelude, case, want=None):
        with open(tmp, "w") as h:
            json.dump(dict(prelude=prelude, case=case), h)
        r = judge(binary, tmp)
        return r if r and (want is None or r[0] == want) else None

    index = f["run"]
    if index < 0:
        # the process died without a word: find the run
        for i in range(f["first"], f["first"] + (1 if f["first"] >= COLD else per)):
            c = gen(binary, prop, base, i)
            if fails([], c):
                index = i
                break
        else:
            note(f"{prop}: {f['msg']} in {f['config']}, not reproduced")
            return None
    case = gen(binary, prop, base, index)
    prelude = []
    r = fails([], case)
    if not r:
        prelude = [gen(binary, prop, base, i) for i in range(f["first"], index)]
        r = fails(prelude, case)
        if not r:
            # it takes more than the cases: the search as it was
            r = rerun(binary, prop, base, f["first"], index)
            if not r or r[0] != f["cls"]:
                note(f"{prop}: {f} was not reproduced")
                return None
            path = os.path.join(REPLAYS, f"{prop}-{f['config']}-{seed}-{index}.json")
            with open(path, "w") as h:
                json.dump(dict(engine="lib", property=prop, config=f["config"], verif_seed=seed, run=index, cls=r[0], message=r[1], rerun=dict(base=base, first=f["first"], index=index)), h, indent=1)
            return dict(path=path, cls=r[0], msg=r[1], config=f["config"], run=index)
    cls = r[0]
    clock = Clock()
    budget = 75

    def shrink_list(get, set_, check):
        changed = False
        size = max(1, len(get()) // 2)
        while size >= 1 and clock.s() < budget:
            j = 0
            while j < len(get()) and clock.s() < budget:
                old = get()
                set_(old[:j] + old[j + size:])
                if check():
                    changed = True
                else:
                    set_(old)
                    j += size
            size //= 2
        return changed

    if prelude:
        box = [prelude]
        shrink_list(lambda: box[0], lambda v: box.__setitem__(0, v), lambda: fails(box[0], case, cls))
        prelude = box[0]

    def ok():
        return fails(prelude, case, cls)

    changed = True
    while changed and clock.s() < budget:
        changed = False
        for path in [("setup", None)] + [("tasks", i) for i in range(len(case["tasks"]))]:
            def get():
                return case[path[0]] if path[1] is None else case[path[0]][path[1]]

            def set_(v):
                if path[1] is None:
                    case[path[0]] = v
                else:
                    case[path[0]][path[1]] = v
            changed |= shrink_list(get, set_, ok)
        # simpler steps: no fault, once
        for path in [("setup", None)] + [("tasks", i) for i in range(len(case["tasks"]))]:
            steps = case[path[0]] if path[1] is None else case[path[0]][path[1]]
            for s in steps:
                for key in ("fault", "times"):
                    if key in s and clock.s() < budget:
                        old = s.pop(key)
                        if ok():
                            changed = True
                        else:
                            s[key] = old
    if case["sched"] != "Seq":
        old = case["sched"]
        case["sched"] = "Seq"
        if not ok():
            case["sched"] = old
            # the schedule it took, written out, and as little of it as will do
            r = ok()
            if r and r[2]:
                case["sched"] = {"Fixed": r[2]}
                if ok():
                    shrink_list(lambda: case["sched"]["Fixed"], lambda v: case["sched"].__setitem__("Fixed", v), ok)
                else:
                    case["sched"] = old
    while case["tasks"] and not case["tasks"][-1]:
        last = case["tasks"].pop()
        if not ok():
            case["tasks"].append(last)
            break
    r = fails(prelude, case, cls)
    again = fails(prelude, case, cls)
    os.remove(tmp)
    if not r or not again or r[:2] != again[:2]:
        note(f"{prop}: {f}: the minimised case is not stable: {r} / {again}")
        if not r and not again:
            return None
        r = r or again
    path = os.path.join(REPLAYS, f"{prop}-{f['config']}-{seed}-{index}.json")
    with open(path, "w") as h:
        json.dump(dict(engine="lib", property=prop, config=f["config"], verif_seed=seed, run=index, cls=r[0], message=r[1], prelude=prelude, case=case), h, indent=1)
    return dict(path=path, cls=r[0], msg=r[1], config=f["config"], run=index)


def replay(doc, path):
    build_lib(doc["config"])
    if "rerun" in doc:
        return rerun(lib_bin(doc["config"]), doc["property"], **doc["rerun"])
    return judge(lib_bin(doc["config"]), path)


REAL = [
    "xprs (the whole library crate from /repo, compiled with the configuration's toolchain and features, instrumented at every edge, load and store)",
    "std collections, formatting and panic unwinding used by it",
    "OS threads (one released at a time)",
]
STUB = [
    "scheduler: the simulator releases one thread at a time and preempts at any instrumented edge, load, store, allocation, lock or callback",
    "allocator: tracking allocator with quarantine or immediate reuse, poisoning and injected failures",
    "futex, clock_gettime and getrandom: simulated",
    "the user: generated functions, conversions, writers and operation sequences",
]


def summary(prop, seed, tier, names, stats, violations, doubtful, repeat, skipped, built, ran):
    total = lambda k: sum(d[k] for _, d in stats)
    counts, points = {}, {}
    scheds = set()
    for _, d in stats:
        for k, v in d["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in d["points"].items():
            points[k] = points.get(k, 0) + v
    for n, d in stats:
        scheds.update((n, s) for s in d["schedules"])
    runs = total("runs")
    sample = []
    for n in names[:2]:
        try:
            c = gen(lib_bin(n), prop, base_of(seed, n), 1)
            sample.append(json.dumps(dict(config=n, run=1, seed=c["seed"], sched=c["sched"], srcs=[s[:120] for s in c["srcs"][:4]], setup=c["setup"][:3], tasks=[t[:4] for t in c["tasks"]])))
        except Exception:  # noqa: BLE001
            pass
    faults = {k[7:]: v for k, v in sorted(counts.items()) if k.startswith("fault: ")}
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(scheds),
        rule="a run is a generated workload (operations, sources, functions, faults) with a seeded schedule; it is non-trivial if a fault fired, a thread was preempted or at least 6 operations ran, and distinct by its workload seed, build and hash of the schedule taken",
        samples=sample,
        builds=names,
        runs_per_build={n: sum(d["runs"] for m, d in stats if m == n) for n in names},
        seeds_per_hour=int(runs / max(ran, 0.1) * 3600),
        exploration_s=round(ran, 1),
        build_s=round(built, 1),
        simulated_steps=total("steps"),
        longest_run_steps=max((d["longest"] for _, d in stats), default=0),
        simulated_time_s=round(total("sim_ns") / 1e9, 3),
        preemptions=total("preemptions"),
        accesses_to_shared_memory=total("shared"),
        faults_injected=faults,
        operations={k: v for k, v in sorted(counts.items()) if not k.startswith("fault: ")},
        scheduling_points=points,
        tracked_allocations=total("tracked"),
        library_edges=dict(reached_most_in_one_process=max((d["edges"] for _, d in stats), default=0), instrumented=max((d["edges_total"] for _, d in stats), default=0)),
        deviations_of_other_properties=sorted({k for _, d in stats for k in d["ignored"]})[:5],
        determinism=dict(
            rerun_in_process=total("rechecked"), differed=total("recheck_differed"),
            rerun_in_other_process=sum(a for a, _ in repeat), differed_across_processes=sum(b for _, b in repeat)),
        real_components=REAL,
        simulated_components=STUB,
        runs_given_up=dict(why="std aborts by itself where a failed allocation may not unwind; the counts of the runs before it in its process are lost", runs=len(skipped)),
        unreproduced=doubtful,
    )
    return dict(coverage=cov, violations=violations, known=[])
