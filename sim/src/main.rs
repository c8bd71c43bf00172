mod ast;
mod case;
mod exec;
mod gen;
mod obj;

use case::{Case, Sched};
use serde::{Deserialize, Serialize};
use simcore::rng::mix;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize)]
struct Replay {
    /// Cases run before, in the same process.
    #[serde(default)]
    prelude: Vec<Case>,
    case: Case,
}

/// Runs a case and whatever else its property compares it with.
fn judge(case: &Case) -> exec::RunOut {
    let mut out = exec::run(case);
    if case.prop == "C07" && out.violation.is_none() {
        let mut other = case.clone();
        other.hash_seed = mix(case.hash_seed ^ 0xC07);
        other.reuse = !case.reuse;
        other.sched = match case.sched {
            Sched::Seq => Sched::Gaps(200),
            _ => Sched::Seq,
        };
        let b = exec::run(&other);
        if b.violation.is_some() {
            out.violation = b.violation;
        } else if let Some(m) = difference(&out.transcript, &b.transcript) {
            out.violation = Some(obj::Violation { class: "differs".to_owned(), msg: m, task: -1, op: 0 });
        }
    }
    // (whatever else ended a run, all its objects were released)
    let quiet = |o: &exec::RunOut| o.violation.as_ref().is_none_or(|v| !relevant(&case.prop, &v.class));
    if quiet(&out) && relevant(&case.prop, "leak") && out.live_blocks != 0 {
        // Once-per-process state is not a leak: what grows with each run is.
        let a = exec::run(case);
        let b = exec::run(case);
        if a.live_blocks != 0 && b.live_blocks != 0 && quiet(&a) && quiet(&b) {
            out.violation = Some(obj::Violation {
                class: "leak".to_owned(),
                msg: format!("{} blocks were never released", b.live_blocks),
                task: -1,
                op: 0,
            });
        } else if quiet(&out) {
            // a run of another kind would leave more behind
            static LEFT: AtomicI64 = AtomicI64::new(0);
            static RUNS: AtomicI64 = AtomicI64::new(0);
            let left = LEFT.fetch_add(out.live_blocks, Relaxed) + out.live_blocks;
            let runs = RUNS.fetch_add(1, Relaxed) + 1;
            if runs > 20 {
                out.violation = Some(obj::Violation {
                    class: "leak".to_owned(),
                    msg: format!("{runs} different runs each left memory behind for good, {left} blocks in all"),
                    task: -1,
                    op: 0,
                });
            }
        }
    }
    out
}
fn difference(a: &[Vec<String>], b: &[Vec<String>]) -> Option<String> {
    for (t, (x, y)) in a.iter().zip(b).enumerate() {
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            if p != q {
                return Some(format!("part {t}, result {i}: {p:?} in one run, {q:?} under other hash seeds"));
            }
        }
        if x.len() != y.len() {
            return Some(format!("part {t}: {} results in one run, {} under other hash seeds", x.len(), y.len()));
        }
    }
    None
}

fn relevant(prop: &str, class: &str) -> bool {
    if matches!(class, "memory" | "token" | "panic" | "copy") {
        return true;
    }
    let own: &[&str] = match prop {
        "C01" => &["trace", "unreplaced", "value", "vars", "eq", "snapshot", "render", "text", "differs", "calls", "blocked", "leak"],
        "C02" => &["trace", "value", "snapshot", "ctx", "differs", "vars", "render", "text", "calls", "eq", "leak", "writer", "blocked", "unreplaced"],
        "C03" => &["leak"],
        "C04" => &["value", "snapshot", "render", "text", "vars", "eq", "differs", "shareable", "trace", "calls", "ctx", "unreplaced", "writer", "blocked"],
        "C05" => &["value", "snapshot", "render", "text", "vars", "eq", "differs", "trace", "calls", "ctx", "blocked", "unreplaced", "writer"],
        "C06" => &["text", "value", "snapshot", "ctx", "differs", "trace", "vars", "eq", "calls", "render", "unreplaced"],
        "C07" => &["text", "render", "differs", "value", "eq", "snapshot", "trace", "vars", "ctx", "calls", "unreplaced"],
        "C08" => &["calls", "value"],
        "C09" => &["vars", "unreplaced", "trace", "snapshot"],
        "C10" => &["writer", "render", "trace", "text"],
        _ => return true,
    };
    own.contains(&class)
}

fn main() {
    no_aslr();
    exec::install();
    simcore::seams::alt_stack();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().expect("number"));
    let prop = get("--prop").unwrap_or_default();
    match args.get(1).map(String::as_str) {
        Some("gen") => {
            let c = gen::case(&prop, gen::seed_of(num("--seed", 1), num("--index", 0)), num("--index", 0) >= gen::COLD);
            println!("{}", serde_json::to_string(&c).unwrap());
        }
        Some("run") => run(&prop, num("--seed", 1), num("--start", 0), num("--count", 100), num("--secs", 1 << 30), num("--max", 3)),
        Some("digest") => {
            let (base, start) = (num("--seed", 1), num("--start", 0));
            for i in start..start + num("--count", 40) {
                let case = gen::case(&prop, gen::seed_of(base, i), i >= gen::COLD);
                simcore::seams::alarm(120);
                let out = exec::run(&case);
                let mut h = out.sched_hash ^ out.steps;
                for b in format!("{:?}{:?}{:?}", out.transcript, out.counts, out.schedule).bytes() {
                    h = mix(h ^ u64::from(b));
                }
                println!("{}", serde_json::json!({"run": i, "digest": format!("{h:016x}")}));
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let r: Replay = serde_json::from_str(&text).expect("replay file format");
            for c in &r.prelude {
                simcore::seams::alarm(120);
                let _ = judge(c);
            }
            simcore::seams::alarm(120);
            let mut out = judge(&r.case);
            if args.iter().any(|a| a == "--show") {
                for (i, t) in out.transcript.iter().enumerate() {
                    for l in t {
                        eprintln!("[{i}] {l}");
                    }
                }
            }
            out.violation = out.violation.filter(|v| relevant(&r.case.prop, &v.class));
            out.transcript.clear();
            println!("{}", serde_json::to_string(&out).unwrap());
        }
        _ => {
            eprintln!("usage: xsim run|gen|digest|replay");
            std::process::exit(2);
        }
    }
}

#[derive(Serialize, Default)]
struct Stats {
    done: bool,
    runs: u64,
    nontrivial: u64,
    counts: BTreeMap<String, u64>,
    points: BTreeMap<&'static str, u64>,
    steps: u64,
    longest: u64,
    most_switches: u64,
    most_waits: u64,
    most_outside: u64,
    preemptions: u64,
    shared: u64,
    sim_ns: u64,
    tracked: u64,
    schedules: BTreeSet<u64>,
    edges: usize,
    edges_total: usize,
    ignored: BTreeMap<String, u64>,
    rechecked: u64,
    recheck_differed: u64,
    next: u64,
}

fn run(prop: &str, base: u64, start: u64, count: u64, secs: u64, max: u64) {
    let mut found = 0;
    let t0 = std::time::Instant::now();
    let mut s = Stats::default();
    let mut i = start;
    while i < start + count && found < max && t0.elapsed().as_secs() < secs {
        let seed = gen::seed_of(base, i);
        let case = gen::case(prop, seed, i >= gen::COLD);
        simcore::sched::state().run_id = i;
        simcore::seams::alarm(120);
        let out = judge(&case);
        s.runs += 1;
        for (k, v) in &out.counts {
            *s.counts.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in simcore::sched::kind::NAMES.iter().zip(out.kinds) {
            *s.points.entry(k).or_insert(0) += v;
        }
        s.steps += out.steps;
        s.longest = s.longest.max(out.steps);
        s.most_switches = s.most_switches.max(out.preemptions);
        s.most_outside = s.most_outside.max(out.outside);
        s.most_waits = s.most_waits.max(simcore::sched::state().waits);
        s.preemptions += out.preemptions;
        s.shared += out.shared;
        s.sim_ns += out.sim_ns;
        s.tracked += out.tracked;
        let fired = out.counts.iter().any(|(k, v)| k.starts_with("fault") && *v > 0);
        if fired || out.preemptions > 0 || out.counts.get("operations").is_some_and(|n| *n >= 6) {
            s.nontrivial += 1;
            // a run is distinct by its case and the schedule it took
            s.schedules.insert(mix(out.sched_hash ^ mix(seed)));
        }
        if let Some(v) = &out.violation {
            if relevant(prop, &v.class) {
                found += 1;
                println!(
                    "{}",
                    serde_json::json!({"violation": v, "run": i, "schedule": out.schedule, "start": start})
                );
            } else {
                *s.ignored.entry(format!("{}: {}", v.class, v.msg)).or_insert(0) += 1;
                if s.ignored.len() > 5 {
                    s.ignored.pop_last();
                }
            }
        } else if i % 97 == 0 {
            // one seed is one execution
            let again = exec::run(&case);
            s.rechecked += 1;
            if again.sched_hash != out.sched_hash || again.transcript != out.transcript {
                s.recheck_differed += 1;
                eprintln!("run {i}: not repeatable: {:?}", difference(&out.transcript, &again.transcript));
            }
        }
        i += 1;
    }
    simcore::seams::alarm(0);
    s.next = i;
    s.done = true;
    s.edges_total = simcore::seams::N_EDGES.load(std::sync::atomic::Ordering::Relaxed);
    s.edges = simcore::seams::EDGE_HITS
        .iter()
        .filter(|e| e.load(std::sync::atomic::Ordering::Relaxed) > 0)
        .count();
    println!("{}", serde_json::to_string(&s).unwrap());
}

/// Addresses are the same in every process.
fn no_aslr() {
    extern "C" {
        fn personality(p: u64) -> i32;
        fn execv(path: *const std::ffi::c_char, argv: *const *const std::ffi::c_char) -> i32;
    }
    const ADDR_NO_RANDOMIZE: u64 = 0x0004_0000;
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur < 0 || cur as u64 & ADDR_NO_RANDOMIZE != 0 || personality(cur as u64 | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
        let args: Vec<std::ffi::CString> =
            std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut ptrs: Vec<*const std::ffi::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr());
    }
}
