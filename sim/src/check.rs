//! The check proper: seeded search, reporting, evidence, replay.

use crate::byz;
use crate::gen;
use crate::plan::Plan;
use crate::run::{run, Outcome};
use crate::shrink::shrink;
use serde_json::{json, Value};
use simrt::rng::hash3;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    std::env::var("OVSIM_ROOT").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}

fn text_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}

pub fn seed_of(prop: &str, base: u64, k: u64) -> u64 {
    hash3(hash3(base, 0x5eed, text_hash(prop)), 0x5eed, k)
}

#[derive(Default)]
struct Tally {
    runs: u64,
    nontrivial: u64,
    histories: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    states: BTreeSet<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    sim_ns: u128,
    polls: u64,
    switches: u64,
    timers: u64,
    msgs: u64,
    delivered: u64,
    decided: u64,
    commits: u64,
    later_round_commits: u64,
    max_round: u64,
    errors: Vec<String>,
    samples: Vec<Value>,
    others: BTreeMap<String, u64>,
}

fn summary(p: &Plan, o: &Outcome) -> Value {
    json!({
        "seed": p.seed.to_string(), "family": p.family, "members": p.n, "byzantine": p.byz,
        "interval_ms": p.interval, "planned_faults": p.faults.iter().take(6).map(|f| format!("{}us {:?}", f.at_us, f.kind)).collect::<Vec<_>>(),
        "planned_fault_count": p.faults.len(),
        "faults_injected": o.faults, "heights": o.heights, "max_round": o.max_round,
        "simulated_ms": o.sim_ns / 1_000_000, "messages": o.msgs, "polls": o.stats.polls,
        "ended": o.end, "history_hash": format!("{:016x}", o.log_hash), "schedule_hash": format!("{:016x}", o.sched_hash),
    })
}

/// A run counts when something was at stake: blocks were decided and, except where the property is
/// about fault-free runs, something was injected.
fn nontrivial(p: &Plan, o: &Outcome) -> bool {
    match p.family.as_str() {
        "sync" => o.decided >= 2,
        "timing" => o.decided >= 1 && o.max_round > 0,
        "early" => o.decided >= 2 && o.faults.contains_key("node stalled"),
        "stop" => o.faults.contains_key("stop requested"),
        _ => o.decided >= 1 && !(o.faults.is_empty() && o.adv.is_empty()),
    }
}

impl Tally {
    fn add(&mut self, p: &Plan, o: &Outcome) {
        self.runs += 1;
        *self.families.entry(p.family.clone()).or_insert(0) += 1;
        *self.ends.entry(o.end.to_string()).or_insert(0) += 1;
        if let Some(e) = &o.harness_err {
            if self.errors.len() < 20 {
                self.errors.push(format!("family {} seed {}: {e}", p.family, p.seed));
            }
            return;
        }
        let fresh = self.histories.insert(o.log_hash);
        self.schedules.insert(o.sched_hash);
        if fresh && nontrivial(p, o) {
            self.nontrivial += 1;
            if self.samples.len() < 3 {
                self.samples.push(summary(p, o));
            }
        }
        if self.states.len() < 2_000_000 {
            self.states.extend(o.states.iter());
        }
        for (k, v) in &o.faults {
            *self.faults.entry((*k).to_string()).or_insert(0) += v;
        }
        for (_, bit) in &o.adv {
            let k = bit.trailing_zeros() as usize;
            let name = byz::NAMES.get(k).copied().unwrap_or("byz: other");
            *self.faults.entry(name.to_string()).or_insert(0) += 1;
        }
        for (k, v) in &o.probes {
            *self.probes.entry((*k).to_string()).or_insert(0) += v;
        }
        for v in &o.violations {
            if v.prop != p.prop {
                *self.others.entry(format!("{} {}", v.prop, v.rule)).or_insert(0) += 1;
            }
        }
        self.sim_ns += u128::from(o.sim_ns);
        self.polls += o.stats.polls;
        self.switches += o.stats.switches;
        self.timers += o.stats.timers;
        self.msgs += o.msgs;
        self.delivered += o.delivered;
        self.decided += o.decided;
        for (r, c) in &o.commit_rounds {
            self.commits += c;
            if *r > 0 {
                self.later_round_commits += c;
            }
        }
        self.max_round = self.max_round.max(o.max_round);
    }
}

struct Found {
    k: u64,
    plan: Plan,
    out: Option<Outcome>,
}

#[derive(Clone)]
struct Known {
    property: String,
    rule: String,
    family: Option<String>,
    contains: String,
    what: String,
}

fn known() -> Vec<Known> {
    let p = root().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let Ok(v) = serde_json::from_str::<Value>(&t) else { return vec![] };
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|e| Known {
                    property: e["property"].as_str().unwrap_or("").into(),
                    rule: e["rule"].as_str().unwrap_or("").into(),
                    family: e["family"].as_str().map(Into::into),
                    contains: e["contains"].as_str().unwrap_or("").into(),
                    what: e["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

fn is_known<'a>(ks: &'a [Known], p: &Plan, prop: &str, rule: &str, msg: &str) -> Option<&'a Known> {
    ks.iter().find(|k| {
        k.property == prop
            && k.rule == rule
            && k.family.as_ref().is_none_or(|f| *f == p.family)
            && msg.contains(&k.contains)
    })
}

fn hang_prop(prop: &str) -> bool {
    matches!(prop, "R04" | "R05" | "L01" | "L03")
}

fn hang_report(prop: &str, plan: &Plan) -> Value {
    json!({
        "property": prop, "rule": "hang", "message": "a task of the node never returns from one poll: the runtime thread is lost",
        "plan": plan, "hang": true,
    })
}

fn hangs_again(prop: &str, plan: &Plan) -> bool {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-hang-{}.json", std::process::id()));
    let _ = std::fs::write(&path, hang_report(prop, plan).to_string());
    let ok = std::env::current_exe()
        .and_then(|exe| std::process::Command::new(exe).arg("replay").arg(&path).output())
        .is_ok_and(|o| String::from_utf8_lossy(&o.stdout).contains("hang exactly reproduced"));
    let _ = std::fs::remove_file(&path);
    ok
}

pub fn check(prop: &str, tier: &str, seed: u64, seconds: u64, jobs: usize) -> i32 {
    let t0 = Instant::now();
    let secs = if seconds > 0 {
        seconds
    } else if tier == "thorough" {
        600
    } else {
        40
    };
    let jobs = if jobs > 0 {
        jobs
    } else {
        std::thread::available_parallelism().map_or(4, |n| n.get())
    };
    let until = t0 + Duration::from_secs(secs);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let tally = Arc::new(Mutex::new(Tally::default()));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(Vec::new()));
    let hit_known: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let ks = known();
    // What each worker is at, for the watchdog.
    let beats: Vec<Arc<AtomicU64>> = (0..jobs).map(|_| Arc::new(AtomicU64::new(0))).collect();
    let at: Vec<Arc<AtomicU64>> = (0..jobs).map(|_| Arc::new(AtomicU64::new(u64::MAX))).collect();
    let (done_tx, done_rx) = std::sync::mpsc::channel::<usize>();
    for j in 0..jobs {
        let (next, stop, tally, found) = (next.clone(), stop.clone(), tally.clone(), found.clone());
        let (beat, at, ks, hit_known) = (beats[j].clone(), at[j].clone(), ks.clone(), hit_known.clone());
        let prop = prop.to_string();
        let done = done_tx.clone();
        std::thread::spawn(move || {
            while !stop.load(Ordering::Relaxed) && Instant::now() < until {
                let k = next.fetch_add(1, Ordering::Relaxed);
                at.store(k, Ordering::Relaxed);
                let plan = gen::make(&prop, seed_of(&prop, seed, k));
                let out = run(&plan, false, Some(beat.clone()));
                at.store(u64::MAX, Ordering::Relaxed);
                tally.lock().unwrap().add(&plan, &out);
                let mut bad = false;
                for v in out.violations.iter().filter(|v| v.prop == prop) {
                    match is_known(&ks, &plan, v.prop, v.rule, &v.msg) {
                        Some(x) => *hit_known.lock().unwrap().entry(x.what.clone()).or_insert(0) += 1,
                        None => bad = true,
                    }
                }
                if bad {
                    stop.store(true, Ordering::Relaxed);
                    found.lock().unwrap().push(Found { k, plan, out: Some(out) });
                }
            }
            let _ = done.send(j);
        });
    }
    drop(done_tx);
    // Watchdog: a worker whose simulation makes no step any more is inside one poll for good.
    let mut left: BTreeSet<usize> = (0..jobs).collect();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); jobs];
    let mut hung = 0u64;
    while !left.is_empty() {
        if let Ok(j) = done_rx.recv_timeout(Duration::from_millis(200)) {
            left.remove(&j);
        }
        for j in left.clone() {
            let b = beats[j].load(Ordering::Relaxed);
            if b != last[j].0 {
                last[j] = (b, Instant::now());
            } else if last[j].1.elapsed() > Duration::from_secs(20) {
                let k = at[j].load(Ordering::Relaxed);
                if k == u64::MAX {
                    last[j].1 = Instant::now();
                    continue;
                }
                left.remove(&j);
                hung += 1;
                let plan = gen::make(prop, seed_of(prop, seed, k));
                eprintln!("a poll of simulation {k} (family {}, seed {}) does not return", plan.family, plan.seed);
                // Only believed if it hangs again, in a process of its own.
                if hang_prop(prop) && !stop.load(Ordering::Relaxed) && hangs_again(prop, &plan) {
                    stop.store(true, Ordering::Relaxed);
                    found.lock().unwrap().push(Found { k, plan, out: None });
                }
            }
        }
    }
    let explored = t0.elapsed().as_secs_f64();

    // Same seed, same run: a few are run again and compared.
    let mut again = 0u64;
    let mut differ = 0u64;
    let ran = next.load(Ordering::Relaxed);
    if found.lock().unwrap().is_empty() && hung == 0 {
        for k in 0..8u64.min(ran) {
            let plan = gen::make(prop, seed_of(prop, seed, k));
            let a = run(&plan, false, None);
            let b = run(&plan, true, None);
            again += 1;
            if a.log_hash != b.log_hash || a.sched_hash != b.sched_hash {
                differ += 1;
            }
        }
        if differ > 0 {
            eprintln!("WARNING: {differ} of {again} repeated runs differ: the simulation is not deterministic");
        }
    }

    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| f.k);
    let mut replay_path = None;
    let mut shrink_runs = 0;
    if let Some(f) = found.into_iter().next() {
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{tier}-{seed}-{}.json", f.k));
        match f.out {
            None => {
                let mut v = hang_report(prop, &f.plan);
                v["found_as"] = json!({"property": prop, "base_seed": seed, "index": f.k});
                println!("{prop} hang: a task of the node never returns from one poll");
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            }
            Some(out) => {
                let v0 = out
                    .violations
                    .iter()
                    .find(|v| v.prop == prop && is_known(&ks, &f.plan, v.prop, v.rule, &v.msg).is_none())
                    .cloned()
                    .unwrap();
                println!("{prop} {} in simulation {} (family {}, seed {}): {}", v0.rule, f.k, f.plan.family, f.plan.seed, v0.msg);
                let budget = Duration::from_secs(if tier == "thorough" { 120 } else { 45 });
                let s = shrink(&f.plan, prop, v0.rule, out, budget);
                shrink_runs = s.runs;
                println!("minimised in {} runs: {} planned faults, {} random faults, {} adversary actions; at {} us: {}",
                    s.runs, s.plan.faults.len(), s.outcome.rolled.len(), s.outcome.adv.len(), s.violation.at, s.violation.msg);
                let tail: Vec<&String> = s.outcome.trace.iter().rev().take(600).rev().collect();
                let v = json!({
                    "property": prop, "rule": s.violation.rule, "message": s.violation.msg, "at_us": s.violation.at,
                    "found_as": {"property": prop, "base_seed": seed, "index": f.k, "first_message": v0.msg},
                    "plan": s.plan, "history_hash": format!("{:016x}", s.outcome.log_hash),
                    "schedule_hash": format!("{:016x}", s.outcome.sched_hash),
                    "faults_injected": s.outcome.faults, "trace": tail,
                });
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                // in another process, from the file alone
                if let Ok(exe) = std::env::current_exe() {
                    let again = std::process::Command::new(exe).arg("replay").arg(&path).output();
                    let ok = again.is_ok_and(|o| String::from_utf8_lossy(&o.stdout).contains("exactly reproduced"));
                    println!("replay in a fresh process: {}", if ok { "reproduced exactly" } else { "NOT reproduced" });
                }
            }
        }
        replay_path = Some(path);
    }

    let t = tally.lock().unwrap();
    let hits = hit_known.lock().unwrap().clone();
    let violations = u64::from(replay_path.is_some());
    let per_hour = if explored > 0.0 { (t.runs as f64 / explored * 3600.0) as u64 } else { 0 };
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial,
            "rule": format!("one evaluation is one simulated run of a whole cluster, its plan (members, weights, delays, faults, adversary, scheduling) drawn from the seed; families {:?}. It counts when its event history is distinct and {}",
                gen::mix_of(prop).iter().map(|m| m.0).collect::<Vec<_>>(),
                match prop { "L02" => "at least two heights were decided", "T01" => "a height was decided and a round above the first was reached", "L04" => "a node stalled and heights were decided meanwhile", "R04" => "a node was told to stop", _ => "a height was decided and at least one fault or adversary action was injected" }),
            "samples": t.samples,
            "runs_per_hour": per_hour,
            "simulated_seconds": (t.sim_ns / 1_000_000_000) as u64,
            "seconds_simulated_per_wall_second": if explored > 0.0 { (t.sim_ns as f64 / 1e9 / explored) as u64 } else { 0 },
            "families": t.families,
            "faults_injected": t.faults,
            "distinct_histories": t.histories.len(),
            "distinct_schedules": t.schedules.len(),
            "distinct_cluster_states": t.states.len(),
            "cluster_state_measure": "per node: height behind the top, round, step, up/stalled; hashed over the cluster at each log save and each stored block",
            "task_polls": t.polls, "task_switches": t.switches, "timers_armed": t.timers,
            "messages_sent": t.msgs, "messages_delivered": t.delivered,
            "heights_decided": t.decided, "commits": t.commits, "commits_in_later_rounds": t.later_round_commits,
            "highest_round": t.max_round,
            "reached": t.probes,
            "run_endings": t.ends,
            "repeated_runs_compared": again, "repeated_runs_differing": differ,
            "shrinking_runs": shrink_runs,
            "runs_abandoned_in_one_poll": hung,
            "known_findings_seen": hits,
            "harness_errors": t.errors,
            "violations_of_other_properties_noticed": t.others,
            "real_code": ["overlord::Overlord/State/SMR/Timer/collectors/parallel verification/codec/leader and weight functions, every line as built from /repo/src"],
            "stubs": ["tokio runtime, channels, timers and futures::select (simulated, seeded)", "network", "application (Consensus trait)", "Crypto trait (MAC scheme with BLS-like additive aggregates)", "Wal trait (one record, crash may keep or lose a save under way)", "clock_gettime and getrandom inside a run"],
        },
        "assumptions": [
            "signatures are unforgeable and hashes collision-free: faulty members sign with their own keys only",
            "simulated tasks interleave at await points (and random early wakes); the engine shares no memory across threads other than channels and a mutex held within one poll",
            "absence of a violation is evidence from the explored seeds only, not a proof",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    println!(
        "{prop} {tier}: {} runs ({} distinct and non-trivial), {} s simulated, {} states, {:.0} s wall",
        t.runs,
        t.nontrivial,
        t.sim_ns / 1_000_000_000,
        t.states.len(),
        t0.elapsed().as_secs_f64()
    );
    for e in t.errors.iter().take(5) {
        eprintln!("harness: {e}");
    }
    for k in ks.iter().filter(|k| k.property == prop) {
        println!("KNOWN-FINDING: property={prop} {}", k.what);
    }
    if let Some(p) = replay_path {
        println!("VIOLATION property={prop} replay={}", p.display());
        return 1;
    }
    if t.runs == 0 || t.errors.len() as u64 * 2 > t.runs {
        eprintln!("the simulator did not work");
        return 2;
    }
    0
}

pub fn replay(file: &str, verbose: bool) -> i32 {
    let t = std::fs::read_to_string(Path::new(file)).expect("replay file");
    let v: Value = serde_json::from_str(&t).expect("json");
    let plan: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let rule = v["rule"].as_str().unwrap_or("").to_string();
    if v["hang"].as_bool() == Some(true) {
        let beat = Arc::new(AtomicU64::new(0));
        let (b, p) = (beat.clone(), plan);
        let h = std::thread::spawn(move || run(&p, false, Some(b)));
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            if h.is_finished() {
                println!("not reproduced: the run ended");
                return 0;
            }
            let n = beat.load(Ordering::Relaxed);
            if n != last.0 {
                last = (n, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(10) {
                println!("hang exactly reproduced after {n} steps");
                println!("VIOLATION property={prop} replay={file}");
                return 1;
            }
        }
    }
    let o = run(&plan, true, None);
    if verbose {
        for l in &o.trace {
            println!("{l}");
        }
    }
    let hash = format!("{:016x}", o.log_hash);
    match o.violations.iter().find(|x| x.prop == prop && x.rule == rule) {
        Some(x) => {
            let same = v["history_hash"].as_str() == Some(&hash);
            println!(
                "{} ({}; history {hash}): {}",
                if same { "exactly reproduced" } else { "reproduced with another history" },
                rule,
                x.msg
            );
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => {
            println!("not reproduced: {prop} {rule} does not occur (history {hash})");
            0
        }
    }
}

/// Development: many runs, every property's violations counted.
pub fn sweep(family: Option<String>, prop: Option<String>, seed: u64, count: u64, jobs: usize, only: Option<String>) -> i32 {
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let tally = Arc::new(Mutex::new(Tally::default()));
    let seen: Arc<Mutex<BTreeMap<String, (u64, u64, String, String)>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let hs: Vec<_> = (0..jobs)
        .map(|_| {
            let (next, tally, seen) = (next.clone(), tally.clone(), seen.clone());
            let (family, prop) = (family.clone(), prop.clone());
            std::thread::spawn(move || loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= count {
                    return;
                }
                let s = seed_of(prop.as_deref().unwrap_or("none"), seed, k);
                let plan = match (&family, &prop) {
                    (Some(f), p) => gen::family(p.as_deref().unwrap_or("none"), f, s),
                    (None, Some(p)) => gen::make(p, s),
                    _ => gen::family("none", gen::FAMILIES[k as usize % gen::FAMILIES.len()], s),
                };
                let o = run(&plan, false, None);
                tally.lock().unwrap().add(&plan, &o);
                let mut seen = seen.lock().unwrap();
                let mut mine = BTreeSet::new();
                for v in &o.violations {
                    let key = format!("{} {}", v.prop, v.rule);
                    if mine.insert(key.clone()) {
                        let e = seen.entry(key).or_insert((0, plan.seed, plan.family.clone(), v.msg.clone()));
                        e.0 += 1;
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let t = tally.lock().unwrap();
    println!(
        "{} runs in {:.1} s; nontrivial {}; sim {} s; states {}; polls {}; decided {}; later-round commits {}/{}; max round {}",
        t.runs, t0.elapsed().as_secs_f64(), t.nontrivial, t.sim_ns / 1_000_000_000, t.states.len(), t.polls, t.decided, t.later_round_commits, t.commits, t.max_round
    );
    println!("ends {:?}", t.ends);
    if only.is_none() {
        println!("faults {:?}", t.faults);
        println!("probes {:?}", t.probes);
    }
    for e in &t.errors {
        println!("ERR {e}");
    }
    for (k, v) in seen.lock().unwrap().iter() {
        if only.as_ref().is_none_or(|o| k.contains(o.as_str())) {
            println!("{k}: {} runs; e.g. family {} seed {}: {}", v.0, v.2, v.1, v.3);
        }
    }
    0
}

pub fn one(family: &str, prop: Option<String>, seed: u64, verbose: bool) -> i32 {
    let plan = gen::family(prop.as_deref().unwrap_or("none"), family, seed);
    if verbose {
        println!("{}", serde_json::to_string(&plan).unwrap());
    }
    let o = run(&plan, verbose, None);
    for l in &o.trace {
        println!("{l}");
    }
    println!("{}", serde_json::to_string_pretty(&summary(&plan, &o)).unwrap());
    for v in &o.violations {
        println!("{} {} at {}: {}", v.prop, v.rule, v.at, v.msg);
    }
    println!("{:?}", o.harness_err);
    0
}

pub fn selftest(seed: u64, count: u64) -> i32 {
    let mut bad = 0;
    for k in 0..count {
        for f in gen::FAMILIES {
            let p = gen::family("none", f, seed_of("none", seed, k));
            let a = run(&p, false, None);
            let b = run(&p, true, None);
            if a.log_hash != b.log_hash || a.sched_hash != b.sched_hash || a.log_len != b.log_len {
                bad += 1;
                println!("family {f} seed {} differs: {} {} / {} {}", p.seed, a.log_len, a.log_hash, b.log_len, b.log_hash);
            } else {
                println!("{f} {k} {:016x} {:016x} {}", a.log_hash, a.sched_hash, a.log_len);
            }
        }
    }
    println!("{bad} differ");
    i32::from(bad > 0)
}
