//! Run one plan on a thread of its own and say what happened.

use crate::plan::*;
use crate::world::*;
use overlord::types::OverlordMsg;
use overlord::Context;
use simrt::rng::hash3;
use simrt::{RtCfg, RtStats, Step};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::AtomicU64;
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub sched_hash: u64,
    pub log_hash: u64,
    pub log_len: u64,
    pub sim_ns: u64,
    pub stats: RtStats,
    pub trace: Vec<String>,
    pub heights: u64,
    pub decided: u64,
    pub max_round: u64,
    pub commit_rounds: BTreeMap<u64, u64>,
    pub msgs: u64,
    pub delivered: u64,
    pub end: &'static str,
    pub harness_err: Option<String>,
    pub rolled: Vec<u64>,
    pub adv: Vec<(u64, u32)>,
}

/// Run on a fresh thread, so that nothing thread-local leaks from one run into the next.
pub fn run(plan: &Plan, verbose: bool, hb: Option<Arc<AtomicU64>>) -> Outcome {
    let plan = plan.clone();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || run_here(plan, verbose, hb))
        .expect("thread")
        .join()
        .unwrap_or_else(|e| Outcome {
            harness_err: Some(format!("simulation thread panicked: {}", simrt::payload(&e))),
            ..Outcome::default()
        })
}

fn run_here(plan: Plan, verbose: bool, hb: Option<Arc<AtomicU64>>) -> Outcome {
    simrt::interpose::seed_thread(plan.seed | 1);
    simrt::init(RtCfg {
        seed: hash3(plan.seed, 0x5c4e, 0),
        fifo: plan.rt.fifo,
        jitter_ppm: plan.rt.jitter_ppm,
        jitter_max_ns: plan.rt.jitter_us * US,
        yield_ppm: plan.rt.yield_ppm,
        shuffle_ppm: plan.rt.shuffle_ppm,
    });
    if let Some(h) = hb {
        simrt::set_heartbeat(h);
    }
    if plan.family == "memory" {
        simrt::mem::start();
    }
    let p = plan.clone();
    install(World::new(plan, verbose));

    let n_insts = with(|w| w.insts.len());
    for i in 0..n_insts {
        let skip = with(|w| {
            p.absent.contains(&i) || (w.insts[i].byz && p.byz_mode == ByzMode::Silent)
        });
        if skip {
            continue;
        }
        let at = p.start_us.get(i).copied().unwrap_or(0);
        simrt::after(at * US, move || {
            if with(|w| !w.insts[i].alive && w.insts[i].inc == 0) {
                start(i);
            }
        });
    }
    for f in &p.faults {
        let k = f.kind.clone();
        simrt::after(f.at_us * US, move || apply_fault(k));
    }
    if p.sync_us > 0 {
        for i in 0..n_insts {
            let off = p.sync_us * (i as u64 + 1) / (n_insts as u64 + 1);
            sync_tick(i, p.sync_us + off, p.sync_us);
        }
    }
    if p.quiesce_us > 0 {
        simrt::after(p.quiesce_us * US, || {
            quiesce();
        });
    }

    let end_ns = T0 + p.end_us * US;
    let mut steps = 0u64;
    let mut same = 0u64;
    let mut last_now = 0;
    let mut quiet_goal: Option<(u64, u64)> = None;
    let mut growth: Vec<(u64, u64)> = vec![(0, simrt::now()); n_insts];
    let mut next_look = 0;
    let mut stall = 0;
    let end;
    loop {
        steps += 1;
        match simrt::step() {
            Step::Idle => {
                end = "idle";
                break;
            }
            Step::Polled(node) if simrt::mem::on() => {
                let who = node / simrt::NODE_RUNS;
                if who > 0 {
                    let used = simrt::mem::used(who);
                    with(|w| {
                        let i = who as usize - 1;
                        let h = w.insts[i].height();
                        let e = w.held[i].entry(h).or_insert(used);
                        *e = used.min(*e);
                    });
                }
            }
            Step::Polled(_) | Step::Advanced => {}
        }
        if simrt::has_panics() {
            for pi in simrt::take_panics() {
                on_panic(pi);
            }
        }
        let now = simrt::now();
        if now == last_now {
            same += 1;
            if same > 400_000 {
                with(|w| {
                    for prop in ["R05", "R04", "L01", "L03"] {
                        w.violate(prop, "livelock", "the node's tasks run on and on while time stands still".into());
                    }
                });
                end = "livelock";
                break;
            }
        } else {
            last_now = now;
            same = 0;
        }
        if now >= end_ns {
            end = "end";
            break;
        }
        if steps >= p.max_steps {
            end = "steps";
            break;
        }
        let (stop, bad) = with(|w| {
            (
                w.stop_run || w.harness_err.is_some(),
                w.violations.iter().any(|v| v.prop == p.prop),
            )
        });
        if bad {
            end = "violation";
            break;
        }
        if stop {
            end = "stopped";
            break;
        }
        if now < next_look && steps % 64 != 0 {
            continue;
        }
        next_look = now + 10 * MS;
        // a planned stall
        if let Some((x, from, to)) = p.stall {
            let top = with(|w| w.insts.iter().map(|i| i.height()).max().unwrap_or(0));
            if stall == 0 && top + 1 >= from {
                stall = 1;
                apply_fault(Kind::Pause { inst: x, dur_us: p.end_us });
            } else if stall == 1 && top >= to {
                stall = 2;
                let node = with(|w| {
                    w.probe("stalled node woken with everything waiting");
                    w.insts[x].node
                });
                resume(x, node);
            }
        }
        // progress
        let quiet = with(|w| w.quiet);
        if quiet && quiet_goal.is_none() {
            let top = with(|w| w.insts.iter().filter(|i| !i.byz).map(|i| i.height()).max().unwrap_or(0));
            quiet_goal = Some((top + 2, now + p.bound_us * US));
        }
        if let Some((goal, by)) = quiet_goal {
            let all = with(|w| w.correct().all(|i| i.height() >= goal || i.stop_at.is_some()));
            if all {
                with(|w| w.probe("progress after faults stopped"));
                end = "progress";
                break;
            }
            if now > by && p.bound_us > 0 {
                with(|w| {
                    let msg = format!(
                        "faults stopped at {} us; {} us later the heights are {:?}, all should have reached {goal}",
                        p.quiesce_us,
                        p.bound_us,
                        w.correct().map(|i| i.height()).collect::<Vec<_>>()
                    );
                    w.violate("L01", "no-progress", msg.clone());
                    if p.family == "garbage" {
                        w.violate("R05", "no-service", msg);
                    }
                });
                end = "no progress";
                break;
            }
        }
        if p.family == "minority" || p.family == "sync" || p.family == "early" {
            let mut stuck = None;
            with(|w| {
                for i in w.insts.iter() {
                    if i.byz || p.absent.contains(&i.id) {
                        continue;
                    }
                    let g = &mut growth[i.id];
                    let dead = !i.alive || i.paused;
                    if i.height() > g.0 || dead {
                        *g = (i.height(), now);
                    } else if now > g.1 + p.bound_us * US && p.bound_us > 0 {
                        stuck = Some((i.id, i.height(), g.1));
                    }
                }
            });
            if let Some((i, h, since)) = stuck {
                with(|w| {
                    let msg = format!(
                        "i{i} is at height {h} since {} us, for more than {} us; heights {:?}",
                        (since - T0) / US,
                        p.bound_us,
                        w.correct().map(|i| i.height()).collect::<Vec<_>>()
                    );
                    let prop = match p.family.as_str() {
                        "minority" => "L03",
                        "early" => "L04",
                        _ => "L02",
                    };
                    w.violate(prop, "no-progress", msg);
                });
                end = "no progress";
                break;
            }
        }
        if p.target > 0 && quiet_goal.is_none() && p.quiesce_us == 0 {
            let all = with(|w| w.correct().all(|i| i.height() >= p.target || i.stop_at.is_some() || (!i.alive && i.inc > 0)));
            let any_stop = p.family == "stop";
            if all && !any_stop {
                end = "target";
                break;
            }
        }
    }
    finish(&p, end);

    let sim_ns = simrt::now() - T0;
    let stats = simrt::stats();
    let sched_hash = simrt::sched_hash();
    simrt::shutdown();
    let mut w = remove();
    let trace = w.trace.take().unwrap_or_default();
    Outcome {
        sched_hash,
        log_hash: w.log_hash,
        log_len: w.log_len,
        sim_ns,
        stats,
        trace,
        heights: w.insts.iter().filter(|i| !i.byz).map(|i| i.height()).max().unwrap_or(0),
        decided: w.oracle.decided.len() as u64,
        max_round: w.oracle.max_round,
        commit_rounds: std::mem::take(&mut w.oracle.commit_rounds),
        msgs: w.msgs_sent,
        delivered: w.msgs_delivered,
        end,
        harness_err: w.harness_err.take(),
        rolled: std::mem::take(&mut w.oracle.rolled),
        adv: std::mem::take(&mut w.adv.log),
        violations: std::mem::take(&mut w.violations),
        faults: std::mem::take(&mut w.faults),
        probes: std::mem::take(&mut w.probes),
        states: std::mem::take(&mut w.states),
    }
}

fn sync_tick(i: usize, at_us: u64, every: u64) {
    simrt::after(at_us * US, move || {
        sync(i);
        if !with(|w| w.stop_run) {
            sync_tick(i, every, every);
        }
    });
}

fn on_panic(pi: simrt::PanicInfo) {
    with(|w| {
        if pi.msg.contains("src/world.rs")
            || pi.msg.contains("src/oracle.rs")
            || pi.msg.contains("src/byz.rs")
            || pi.msg.contains("src/model.rs")
            || pi.msg.contains("simrt/")
        {
            w.harness_err = Some(pi.msg.clone());
            return;
        }
        let i = (pi.node / 1000) as usize;
        if i == 0 || i > w.insts.len() {
            w.harness_err = Some(format!("panic outside any node: {}", pi.msg));
            return;
        }
        let i = i - 1;
        let m = w.insts[i].member;
        if w.insts[i].byz {
            w.probe("a faulty member's own node panicked");
            return;
        }
        let stopping = w.insts[i].stop_at.is_some();
        let msg = format!("i{i} (m{m}): {}", pi.msg.replace('\n', " "));
        if stopping {
            w.violate("R04", "panic-on-stop", msg);
        } else {
            w.violate("R05", "panic", msg);
        }
    });
}

/// What can only be judged when the run is over.
fn finish(p: &Plan, end: &str) {
    if end == "violation" {
        return;
    }
    // after stop: run returned in time, and the handler refuses
    let now = simrt::now();
    let n = with(|w| w.insts.len());
    for i in 0..n {
        let (stop_at, done, alive, byz, h, node) = with(|w| {
            let x = &w.insts[i];
            (x.stop_at, x.run_done, x.alive && !x.paused, x.byz, x.handler.clone(), x.node)
        });
        if byz || !alive {
            continue;
        }
        let Some(t) = stop_at else { continue };
        match done {
            None => {
                if p.family == "stop" && p.bound_us > 0 && now > t + p.bound_us * US {
                    with(|w| {
                        let m = format!("i{i} was told to stop {} us ago and its run has not returned", (now - t) / US);
                        w.violate("R04", "run-not-returned", m);
                    });
                }
            }
            Some(d) if now > d + 100 * MS => {
                if let Some(h) = h {
                    let r = simrt::enter(node, || h.send_msg(Context::new(), OverlordMsg::Stop));
                    with(|w| {
                        if r.is_ok() {
                            w.violate("R04", "handler-still-open", format!("i{i}: the handler accepts messages after run returned"));
                        } else {
                            w.probe("handler refuses after stop");
                        }
                    });
                }
            }
            _ => {}
        }
    }
    if p.family == "memory" {
        with(held);
    }
    if p.family == "sync" {
        with(|w| {
            let rounds: Vec<(u64, u64)> = w
                .oracle
                .decided_round_max
                .iter()
                .filter(|x| *x.1 > 0)
                .map(|x| (*x.0, *x.1))
                .collect();
            if let Some((h, r)) = rounds.first() {
                w.violate("L02", "later-round", format!("height {h} was decided in round {r} though nothing was wrong"));
            }
            if w.reports > 0 {
                let k = w.reports;
                w.violate("L02", "view-change", format!("{k} view changes were reported though nothing was wrong"));
            }
            let low: Vec<u64> = w.correct().map(|i| i.height()).collect();
            if end != "target" && end != "no progress" && low.iter().any(|h| *h < w.plan.target) {
                let t = w.plan.target;
                w.violate("L02", "too-slow", format!("heights {low:?} after {} us, expected {t} everywhere", t_us()));
            }
        });
    }
    if p.family == "early" && end != "target" && end != "no progress" {
        with(|w| {
            let low: Vec<u64> = w.correct().map(|i| i.height()).collect();
            let t = w.plan.target;
            if low.iter().any(|h| *h < t) {
                w.violate("L04", "not-caught-up", format!("heights {low:?} after {} us, expected {t} everywhere", t_us()));
            }
        });
    }
}

/// Some four times what was ever seen without a leak.
const SLACK: i64 = 1500;

/// What a node keeps does not grow with the heights that are decided or the messages it refuses.
fn held(w: &mut World) {
    for i in 0..w.insts.len() {
        let x = &w.insts[i];
        if x.byz || x.inc != 1 || x.height() < 60 {
            continue;
        }
        let top = x.height();
        let span = |from: u64, to: u64| w.held[i].range(from..to).map(|x| *x.1);
        let mut v: Vec<i64> = span(top / 10, top / 4).collect();
        v.sort_unstable();
        let before = v.get(v.len() / 2).copied();
        let after = span(top - top / 6, top).min();
        let later = span(top / 2, top).min();
        let (Some(a), Some(c), Some(b)) = (before, later, after) else { continue };
        w.probe("memory compared over many heights");
        // a node whose statuses come at other moments for a while holds other amounts then: what
        // leaks has grown half way, too
        if b > a + SLACK && c > a + SLACK / 2 {
            let msg = format!("i{i} held {a} bytes around height {}, and never less than {b} at the last {} heights", top / 6, top / 6);
            w.violate("B01", "growth", msg);
        }
    }
}
