//! Plans from seeds. Each property has a mix of families; a family is a kind of deployment and
//! fault load under which what it judges must hold.

use crate::byz;
use crate::model::*;
use crate::plan::*;
use simrt::rng::hash3;
use simrt::Rng;

pub const FAMILIES: [&str; 14] = [
    "sync", "chaos", "byz", "lock", "timing", "minority", "early", "stop", "garbage", "epochs", "status", "stale", "memory",
    "prompt",
];

/// (family, weight) per property.
/// The families a property is searched in: mostly those that stress it, now and then any other one
/// its rules apply to.
pub fn mix_of(prop: &str) -> Vec<(&'static str, u64)> {
    let mut mix = main_mix(prop);
    if ["L02", "L03", "R04", "T01", "B01"].contains(&prop) {
        return mix;
    }
    let total: u64 = mix.iter().map(|m| m.1).sum();
    for m in &mut mix {
        m.1 *= 60;
    }
    for f in FAMILIES {
        if f != "memory" && mix.iter().all(|m| m.0 != f) {
            mix.push((f, total));
        }
    }
    mix
}

fn main_mix(prop: &str) -> Vec<(&'static str, u64)> {
    match prop {
        "S01" => vec![("lock", 3), ("byz", 4), ("chaos", 2), ("epochs", 1)],
        "S02" => vec![("byz", 5), ("chaos", 1), ("lock", 1), ("epochs", 3), ("garbage", 1)],
        "S03" => vec![("byz", 6), ("stale", 2), ("lock", 1), ("chaos", 1), ("garbage", 1)],
        "S04" => vec![("lock", 4), ("chaos", 3), ("byz", 3)],
        "S05" => vec![("chaos", 3), ("lock", 3), ("byz", 2), ("epochs", 2), ("status", 1)],
        "S06" => vec![("lock", 6), ("byz", 3), ("chaos", 1)],
        "S07" => vec![("byz", 5), ("lock", 2), ("chaos", 1), ("epochs", 1)],
        "S08" => vec![("stale", 5), ("byz", 4), ("lock", 2), ("chaos", 3), ("garbage", 1)],
        "S09" => vec![("byz", 5), ("lock", 1), ("chaos", 1), ("epochs", 2), ("garbage", 1)],
        "S10" => vec![("byz", 5), ("lock", 2), ("chaos", 2), ("epochs", 2), ("garbage", 1)],
        "S11" => vec![("byz", 4), ("garbage", 4), ("epochs", 1)],
        "L01" => vec![("chaos", 5), ("lock", 3), ("epochs", 1), ("status", 1)],
        "L02" => vec![("sync", 1)],
        "L03" => vec![("minority", 1)],
        "L04" => vec![("early", 1)],
        "L05" => vec![("prompt", 6), ("lock", 2), ("chaos", 2), ("byz", 2), ("early", 1), ("stale", 1), ("minority", 1)],
        "R01" => vec![("chaos", 4), ("lock", 3), ("byz", 1), ("status", 1)],
        "R02" => vec![("chaos", 4), ("lock", 4), ("byz", 1)],
        "R03" => vec![("chaos", 3), ("status", 3), ("lock", 2), ("byz", 1)],
        "R04" => vec![("stop", 1)],
        "R05" => vec![("garbage", 6), ("byz", 1), ("chaos", 1)],
        "T01" => vec![("timing", 1)],
        "T02" => vec![("timing", 3), ("sync", 2), ("chaos", 1), ("epochs", 1)],
        "M01" => vec![("epochs", 1)],
        "V01" => vec![("lock", 3), ("chaos", 3), ("byz", 2), ("timing", 1), ("epochs", 1)],
        "P01" => vec![("lock", 3), ("chaos", 3), ("timing", 2), ("epochs", 2), ("sync", 1), ("byz", 1)],
        "P02" => vec![("sync", 3), ("epochs", 3), ("chaos", 2), ("lock", 1), ("status", 1)],
        "A01" => vec![("byz", 4), ("garbage", 3), ("stale", 2), ("epochs", 3), ("status", 2), ("chaos", 2), ("lock", 1)],
        "B01" => vec![("memory", 1)],
        "N01" => vec![("byz", 3), ("lock", 3), ("chaos", 3), ("epochs", 1), ("status", 1), ("timing", 1)],
        "C01" => vec![("garbage", 5), ("byz", 3), ("epochs", 2)],
        "C02" => vec![("epochs", 4), ("chaos", 3), ("byz", 2), ("sync", 2)],
        "H01" => vec![("status", 5), ("epochs", 3), ("chaos", 2)],
        _ => vec![("chaos", 1)],
    }
}

pub fn make(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(hash3(seed, 0x9e4, 1));
    let mix = mix_of(prop);
    let total: u64 = mix.iter().map(|m| m.1).sum();
    let mut x = r.below(total);
    let mut fam = mix[0].0;
    for (f, w) in mix {
        if x < w {
            fam = f;
            break;
        }
        x -= w;
    }
    family(prop, fam, seed)
}

pub fn family(prop: &str, fam: &str, seed: u64) -> Plan {
    let mut r = Rng::new(hash3(seed, 0x9e4, 2));
    let mut p = blank(prop, fam, seed);
    match fam {
        "sync" => sync(&mut p, &mut r),
        "chaos" => chaos(&mut p, &mut r),
        "byz" => byzantine(&mut p, &mut r),
        "lock" => lock(&mut p, &mut r),
        "timing" => timing(&mut p, &mut r),
        "minority" => minority(&mut p, &mut r),
        "early" => early(&mut p, &mut r),
        "stop" => stop(&mut p, &mut r),
        "garbage" => garbage(&mut p, &mut r),
        "epochs" => epochs(&mut p, &mut r),
        "stale" => stale(&mut p, &mut r),
        "memory" => memory(&mut p, &mut r),
        "prompt" => prompt(&mut p, &mut r),
        _ => status(&mut p, &mut r),
    }
    // Somebody must be able to lead where leaders are drawn by weight.
    for e in &mut p.epochs {
        if e.members.iter().all(|m| m.pw == 0) {
            if let Some(m) = e.members.first_mut() {
                m.pw = 1;
            }
        }
        // And somebody must be able to decide.
        if e.members.iter().all(|m| m.vw == 0) {
            e.members.iter_mut().for_each(|m| m.vw = 1);
        }
    }
    p
}

fn blank(prop: &str, fam: &str, seed: u64) -> Plan {
    Plan {
        prop: prop.into(),
        family: fam.into(),
        seed,
        n: 0,
        epochs: vec![],
        interval: 200,
        timer: None,
        byz: vec![],
        byz_mode: ByzMode::Silent,
        adv: Adv::default(),
        net: Net::default(),
        app: App::default(),
        wal: WalCfg::default(),
        rt: Rt::default(),
        clock_ppm: vec![],
        start_us: vec![],
        snapshot: false,
        greet_us: 0,
        faults: vec![],
        stall: None,
        absent: vec![],
        sync_us: 0,
        push_sync: false,
        quiesce_us: 0,
        end_us: 60_000_000,
        target: 0,
        bound_us: 0,
        max_steps: 3_000_000,
        mute: Default::default(),
        mute_from: None,
        adv_mute: Default::default(),
    }
}

// ---------------------------------------------------------------- pieces

fn equal(n: usize) -> Vec<Member> {
    (0..n).map(|idx| Member { idx, pw: 1, vw: 1 }).collect()
}

/// Members with some spread of weights.
fn members(r: &mut Rng, n: usize) -> Vec<Member> {
    let style = r.below(11);
    (0..n)
        .map(|idx| {
            let (pw, vw) = match style {
                0..=5 => (1, 1),
                6 | 7 => (1 + r.below(5) as u32, 1 + r.below(5) as u32),
                8 => (r.below(3) as u32 + u32::from(idx == 0), 100 + r.below(900) as u32),
                // Members whose votes weigh nothing.
                9 => (1 + r.below(2) as u32, if idx == n / 2 { 2 } else { r.below(3) as u32 }),
                _ => (
                    (u32::MAX - r.below(1000) as u32) / n as u32,
                    u32::MAX - r.below(1000) as u32,
                ),
            };
            Member { idx, pw, vw }
        })
        .collect()
}

fn single(p: &mut Plan, m: Vec<Member>) {
    p.n = p.n.max(m.iter().map(|x| x.idx + 1).max().unwrap_or(1));
    p.epochs = vec![Epoch {
        from: 0,
        members: m,
        interval: None,
        timer: None,
    }];
}

fn below_third(all: &[Member], some: &[usize]) -> bool {
    let total: u64 = all.iter().map(|m| u64::from(m.vw)).sum();
    let w: u64 = all
        .iter()
        .filter(|m| some.contains(&m.idx))
        .map(|m| u64::from(m.vw))
        .sum();
    let c = all.iter().filter(|m| some.contains(&m.idx)).count();
    w * 3 < total && c * 3 < all.len()
}

/// As many faulty members as the list allows (or fewer).
fn pick_faulty(r: &mut Rng, all: &[Member], fewer: bool) -> Vec<usize> {
    let mut ids: Vec<usize> = all.iter().map(|m| m.idx).collect();
    for i in (1..ids.len()).rev() {
        ids.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut out: Vec<usize> = Vec::new();
    for i in ids {
        let mut t = out.clone();
        t.push(i);
        if below_third(all, &t) {
            out = t;
            if fewer && r.chance(300_000) {
                break;
            }
        }
    }
    out.sort_unstable();
    out
}

fn rt(r: &mut Rng) -> Rt {
    match r.below(4) {
        0 => Rt {
            fifo: true,
            ..Rt::default()
        },
        1 => Rt {
            fifo: false,
            shuffle_ppm: 500_000,
            ..Rt::default()
        },
        2 => Rt {
            fifo: false,
            jitter_ppm: 50_000,
            jitter_us: 2_000,
            yield_ppm: 50_000,
            shuffle_ppm: 500_000,
        },
        _ => Rt {
            fifo: false,
            jitter_ppm: 10_000,
            jitter_us: 50_000,
            yield_ppm: 200_000,
            shuffle_ppm: 500_000,
        },
    }
}

fn timer(r: &mut Rng) -> Option<[u64; 4]> {
    match r.below(3) {
        0 => None,
        1 => Some([24, 10, 5, 3]),
        _ => Some([
            15 + r.below(30),
            6 + r.below(14),
            4 + r.below(12),
            2 + r.below(8),
        ]),
    }
}

fn t_or(t: Option<[u64; 4]>) -> [u64; 4] {
    t.unwrap_or([24, 10, 5, 3])
}

/// How long the longest round takes, in us.
fn long_round(interval: u64, t: Option<[u64; 4]>) -> u64 {
    let t = t_or(t);
    interval * 1000 * (t[0] + t[1] + t[2]) / 10 * 32 + interval * 1000 * t[3] / 10
}

fn max_round_of(p: &Plan) -> u64 {
    let mut m = long_round(p.interval, p.timer);
    for e in &p.epochs {
        let i = e.interval.unwrap_or(p.interval);
        m = m.max(long_round(i, p.timer)).max(long_round(i, e.timer.or(p.timer)));
    }
    m
}

fn insts(p: &Plan) -> usize {
    p.n + if p.byz_mode == ByzMode::Twins {
        p.byz.len()
    } else {
        0
    }
}

fn starts(p: &mut Plan, r: &mut Rng, spread_us: u64) {
    p.start_us = (0..insts(p)).map(|_| r.below(spread_us + 1)).collect();
}

/// A member comes later, when there are blocks already.
fn late(p: &mut Plan, r: &mut Rng) {
    if !r.chance(250_000) || p.start_us.is_empty() {
        return;
    }
    p.snapshot = true;
    let k = r.below(p.start_us.len() as u64) as usize;
    p.start_us[k] += r.below(p.quiesce_us.max(if p.quiesce_us == 0 { p.end_us } else { 0 }) / 2 + 1);
    if r.chance(500_000) {
        p.greet_us = r.below(p.interval * 4000 + 1);
    }
}

fn clocks(p: &mut Plan, r: &mut Rng, max_ppm: i64) {
    p.clock_ppm = (0..insts(p))
        .map(|_| r.below(2 * max_ppm as u64 + 1) as i64 - max_ppm)
        .collect();
}

const POINTS: [Point; 10] = [
    Point::WalStart,
    Point::WalMid,
    Point::WalDone,
    Point::BeforeSend,
    Point::AfterSend,
    Point::CommitStart,
    Point::CommitDurable,
    Point::CommitReturn,
    Point::CheckDone,
    Point::GetBlock,
];

fn some_down(r: &mut Rng, unit_us: u64) -> u64 {
    match r.below(4) {
        0 => 1 + r.below(2_000),
        1 => 1 + r.below(unit_us),
        2 => unit_us + r.below(5 * unit_us),
        _ => 5 * unit_us + r.below(30 * unit_us),
    }
}

/// A random sequence of discrete faults over `[from, to)`.
fn storm(p: &mut Plan, r: &mut Rng, count: u64, from: u64, to: u64, kinds: &[u8]) {
    let n = insts(p);
    let unit = p.interval * 1000;
    let ok: Vec<usize> = (0..n).filter(|i| !p.absent.contains(i)).collect();
    for _ in 0..count {
        let at_us = from + r.below((to - from).max(1));
        let inst = *r.pick(&ok);
        let kind = match *r.pick(kinds) {
            0 => Kind::Crash {
                inst,
                down_us: some_down(r, unit),
            },
            1 => Kind::CrashAt {
                inst,
                point: *r.pick(&POINTS),
                k: 1 + r.below(6) as u32,
                down_us: some_down(r, unit),
            },
            2 => Kind::Partition {
                groups: (0..n).map(|_| r.below(2) as u8).collect(),
                dur_us: some_down(r, unit),
            },
            3 => Kind::Cut {
                from: inst,
                to: *r.pick(&ok),
                dur_us: some_down(r, unit),
            },
            4 => Kind::Isolate {
                inst,
                dur_us: some_down(r, unit),
            },
            5 => Kind::Pause {
                inst,
                dur_us: some_down(r, unit),
            },
            6 => Kind::Clock {
                inst,
                ppm: r.below(600_000) as i64 - 300_000,
            },
            7 => Kind::Status {
                inst,
                delta: -(r.below(4) as i64),
            },
            8 => Kind::Sync { inst },
            9 => Kind::WalFail {
                inst,
                dur_us: 1 + r.below(3 * unit),
            },
            _ => {
                // a burst: everybody crashes at nearly the same time
                for i in &ok {
                    p.faults.push(Fault {
                        at_us: at_us + r.below(unit),
                        kind: Kind::Crash {
                            inst: *i,
                            down_us: some_down(r, unit),
                        },
                    });
                }
                continue;
            }
        };
        p.faults.push(Fault { at_us, kind });
    }
    p.faults.sort_by_key(|f| f.at_us);
}

fn pick_interval(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => 20 + r.below(80),
        1 => 100 + r.below(200),
        2 => 300 + r.below(700),
        _ => 1000 + r.below(3000),
    }
}

/// Bound for progress once faults have stopped.
fn settle(p: &mut Plan) {
    p.bound_us = 24 * max_round_of(p) + 20 * p.sync_us + 5_000_000;
    p.end_us = p.quiesce_us + p.bound_us + 10_000_000;
}

// ---------------------------------------------------------------- families

/// Nothing is wrong: everybody up, timely network, prompt callbacks.
fn sync(p: &mut Plan, r: &mut Rng) {
    let n = [1, 2, 3, 4, 4, 5, 6, 7, 8, 10, 17][r.below(11) as usize];
    let m = members(r, n);
    single(p, m);
    p.interval = pick_interval(r).max(40);
    p.timer = match r.below(3) {
        0 => None,
        _ => Some([
            18 + r.below(20),
            6 + r.below(14),
            4 + r.below(12),
            2 + r.below(8),
        ]),
    };
    let t = t_or(p.timer);
    let l = p.interval * 1000 * (t[0] - 10).min(t[1]).min(t[2]) / 10;
    p.net.min_us = r.below(l / 60 + 1);
    p.net.max_us = p.net.min_us + r.below(l / 20 + 1);
    p.net.dup_ppm = [0, 100_000][r.below(2) as usize];
    p.app.get_us = r.below(l / 25 + 1);
    p.app.check_us = r.below(l / 25 + 1);
    p.app.commit_us = r.below(l / 40 + 1);
    p.app.send_us = r.below(l / 120 + 1);
    p.wal.save_us = r.below(l / 120 + 1);
    p.rt = rt(r);
    p.rt.jitter_us = p.rt.jitter_us.min(l / 200);
    p.rt.jitter_ppm = p.rt.jitter_ppm.min(20_000);
    p.greet_us = r.below(l / 12 + 1);
    clocks(p, r, 5_000);
    p.target = 8 + r.below(20);
    p.bound_us = p.interval * 1000 * 4;
    p.end_us = (p.target + 6) * (p.interval * 1000 * 2 + l);
}

fn chaos(p: &mut Plan, r: &mut Rng) {
    let n = [3, 4, 4, 4, 5, 6, 7, 9][r.below(8) as usize];
    let m = members(r, n);
    single(p, m);
    p.interval = pick_interval(r).min(1000);
    p.timer = timer(r);
    net(p, r);
    p.net.loss_ppm = [0, 5_000, 50_000, 200_000][r.below(4) as usize];
    app(p, r);
    if r.chance(400_000) {
        p.app.get_err_ppm = r.below(100_000) as u32;
        p.app.check_err_ppm = r.below(100_000) as u32;
        p.app.commit_err_ppm = r.below(100_000) as u32;
        p.app.send_err_ppm = r.below(50_000) as u32;
        p.app.sign_err_ppm = r.below(20_000) as u32;
        p.app.check_hang_ppm = r.below(50_000) as u32;
    }
    p.app.slow_ppm = [0, 0, 10_000][r.below(3) as usize];
    p.wal.err_ppm = [0, 0, 5_000, 50_000][r.below(4) as usize];
    p.wal.err_durable_ppm = 500_000;
    p.rt = rt(r);
    let spread = p.interval * 3000;
    starts(p, r, spread);
    clocks(p, r, 100_000);
    p.sync_us = p.interval * 1000 * (2 + r.below(12));
    p.quiesce_us = p.interval * 1000 * (20 + r.below(80));
    let k = 1 + r.below(14);
    let to = p.quiesce_us;
    let kinds: Vec<u8> = match r.below(4) {
        0 => vec![0, 1, 1, 1, 10],
        1 => vec![1, 2, 3, 4],
        2 => vec![1, 5, 6, 8, 9],
        _ => vec![0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10],
    };
    storm(p, r, k, 0, to, &kinds);
    late(p, r);
    settle(p);
}

fn net(p: &mut Plan, r: &mut Rng) {
    let unit = p.interval * 1000;
    p.net.min_us = r.below(unit / 40 + 1);
    p.net.max_us = p.net.min_us + r.below(unit / 6 + 1);
    p.net.dup_ppm = [0, 20_000, 200_000][r.below(3) as usize];
    p.net.tail_ppm = [0, 10_000, 100_000][r.below(3) as usize];
    p.net.tail_us = unit * (1 + r.below(8));
}

fn app(p: &mut Plan, r: &mut Rng) {
    let unit = p.interval * 1000;
    p.app.get_us = r.below(unit / 20 + 1);
    p.app.check_us = r.below(unit / 10 + 1);
    p.app.commit_us = r.below(unit / 20 + 1);
    p.app.send_us = r.below(unit / 100 + 1);
    p.wal.save_us = r.below(unit / 50 + 1);
    p.greet_us = [0, unit / 4, 2 * unit][r.below(3) as usize];
}

/// Tuned to make nodes lock, lose certificates, and meet again in later rounds.
fn lock(p: &mut Plan, r: &mut Rng) {
    let n = [4, 4, 4, 4, 5, 7, 10][r.below(7) as usize];
    let m = if r.chance(700_000) { equal(n) } else { members(r, n) };
    single(p, m.clone());
    if r.chance(350_000) {
        p.byz = pick_faulty(r, &m, true);
        p.byz_mode = [ByzMode::Shadow, ByzMode::Twins, ByzMode::Silent][r.below(3) as usize];
        p.adv = Adv {
            act_ppm: 50_000 + r.below(300_000) as u32,
            actions: byz::LEAD | byz::HELP | byz::REAL_QC | byz::DOUBLE_VOTE | byz::BAD_PROPOSAL | byz::POLC,
            tick_us: 0,
            budget: 400,
        };
    }
    p.interval = 60 + r.below(200);
    p.timer = Some([
        12 + r.below(20),
        3 + r.below(8),
        2 + r.below(8),
        2 + r.below(6),
    ]);
    let unit = p.interval * 1000;
    p.net.min_us = r.below(unit / 20 + 1);
    p.net.max_us = p.net.min_us + unit / 20 + r.below(unit / 4 + 1);
    p.net.loss_ppm = [0, 50_000, 150_000, 300_000][r.below(4) as usize];
    p.net.tail_ppm = [50_000, 150_000, 300_000][r.below(3) as usize];
    p.net.tail_us = unit * (1 + r.below(12));
    p.net.dup_ppm = [0, 50_000][r.below(2) as usize];
    app(p, r);
    p.app.check_us = r.below(unit / 4 + 1);
    if r.chance(200_000) {
        p.app.check_err_ppm = r.below(150_000) as u32;
        p.app.check_hang_ppm = r.below(50_000) as u32;
    }
    p.rt = rt(r);
    starts(p, r, unit);
    clocks(p, r, 200_000);
    p.sync_us = if r.chance(700_000) { 0 } else { unit * (3 + r.below(10)) };
    p.quiesce_us = unit * (60 + r.below(200));
    let k = r.below(12);
    let to = p.quiesce_us;
    let kinds: Vec<u8> = if r.chance(500_000) {
        vec![1, 1, 1, 2, 2, 3, 4]
    } else {
        vec![0, 1, 2, 3, 4, 5, 6]
    };
    storm(p, r, k, 0, to, &kinds);
    if p.sync_us == 0 {
        p.sync_us = unit * 40;
    }
    late(p, r);
    settle(p);
}

/// The node itself is quick, and timeouts are long; the network and the block checks are not: what
/// comes last of all that an act needs is left to chance, and waiting for a timeout instead shows.
fn prompt(p: &mut Plan, r: &mut Rng) {
    let n = [3, 4, 4, 5, 6, 7][r.below(6) as usize];
    let m = if r.chance(700_000) { equal(n) } else { members(r, n) };
    single(p, m.clone());
    if r.chance(250_000) {
        p.byz = pick_faulty(r, &m, true);
        p.byz_mode = [ByzMode::Shadow, ByzMode::Twins, ByzMode::Silent][r.below(3) as usize];
        p.adv = Adv {
            act_ppm: 20_000 + r.below(200_000) as u32,
            actions: byz::LEAD | byz::HELP | byz::REAL_QC | byz::DOUBLE_VOTE | byz::POLC,
            tick_us: 0,
            budget: 200,
        };
    }
    p.interval = 2000 + r.below(8000);
    p.timer = Some([15 + r.below(30), 6 + r.below(14), 6 + r.below(14), 3 + r.below(8)]);
    let unit = p.interval * 1000;
    p.net.min_us = r.below(unit / 40 + 1);
    let most = [unit / 20, unit / 3, unit][r.below(3) as usize];
    p.net.max_us = p.net.min_us + r.below(most + 1);
    p.net.loss_ppm = [0, 20_000, 100_000, 200_000][r.below(4) as usize];
    p.net.tail_ppm = [0, 50_000, 200_000, 400_000][r.below(4) as usize];
    p.net.tail_us = unit * (1 + r.below(6));
    p.net.dup_ppm = [0, 50_000][r.below(2) as usize];
    p.app.get_us = r.below(4_000);
    let most = [unit / 10, unit, unit * 3][r.below(3) as usize];
    p.app.check_us = r.below(most + 1);
    p.app.commit_us = r.below(2_000);
    p.app.send_us = r.below(500);
    p.wal.save_us = r.below(1_000);
    if r.chance(150_000) {
        p.app.check_err_ppm = r.below(100_000) as u32;
        p.app.check_hang_ppm = r.below(50_000) as u32;
    }
    p.greet_us = [0, unit / 4, 2 * unit][r.below(3) as usize];
    p.rt = rt(r);
    p.rt.jitter_us = p.rt.jitter_us.min(500);
    starts(p, r, unit);
    p.sync_us = unit * (3 + r.below(12));
    p.quiesce_us = unit * (30 + r.below(80));
    let k = r.below(8);
    let to = p.quiesce_us;
    storm(p, r, k, 0, to, &[0, 1, 1, 2, 3, 4, 5, 8]);
    late(p, r);
    settle(p);
}

fn byzantine(p: &mut Plan, r: &mut Rng) {
    let n = [4, 4, 6, 5, 6, 7, 9, 10][r.below(8) as usize];
    let m = members(r, n);
    single(p, m.clone());
    p.byz = pick_faulty(r, &m, true);
    p.byz_mode = [ByzMode::Silent, ByzMode::Shadow, ByzMode::Shadow, ByzMode::Twins][r.below(4) as usize];
    p.interval = pick_interval(r).min(400);
    p.timer = timer(r);
    net(p, r);
    p.net.loss_ppm = [0, 0, 20_000, 100_000][r.below(4) as usize];
    app(p, r);
    if r.chance(200_000) {
        p.app.check_err_ppm = r.below(100_000) as u32;
        p.app.check_hang_ppm = r.below(100_000) as u32;
    }
    p.adv = adversary(r);
    p.rt = rt(r);
    let unit = p.interval * 1000;
    if r.chance(250_000) {
        // checks that outlive their height
        p.app.check_us = unit / 100 + r.below(unit / 20);
        p.app.check_hang_ppm = 0;
        p.app.slow_ppm = [20_000, 150_000][r.below(2) as usize];
        p.adv.actions |= byz::STALE | byz::LEAD;
    }
    starts(p, r, unit);
    clocks(p, r, 50_000);
    p.sync_us = unit * (2 + r.below(30));
    p.quiesce_us = unit * (30 + r.below(80));
    if r.chance(500_000) {
        let k = r.below(8);
        let to = p.quiesce_us;
        storm(p, r, k, 0, to, &[1, 1, 2, 3, 4, 5]);
    }
    p.end_us = p.quiesce_us;
    p.quiesce_us = 0;
    late(p, r);
}

/// Block checks that outlive rounds and heights, while faulty leaders propose old blocks again.
fn stale(p: &mut Plan, r: &mut Rng) {
    let n = [4, 4, 4, 5, 7, 9][r.below(6) as usize];
    let m = if r.chance(700_000) { equal(n) } else { members(r, n) };
    single(p, m.clone());
    p.byz = pick_faulty(r, &m, false);
    p.byz_mode = [ByzMode::Silent, ByzMode::Silent, ByzMode::Shadow][r.below(3) as usize];
    p.interval = 60 + r.below(200);
    p.timer = timer(r);
    let unit = p.interval * 1000;
    p.net.min_us = r.below(unit / 40 + 1);
    p.net.max_us = p.net.min_us + r.below(unit / 10 + 1);
    p.net.loss_ppm = [0, 0, 20_000][r.below(3) as usize];
    app(p, r);
    p.app.check_us = unit / 100 + r.below(unit / 12);
    p.app.slow_ppm = [50_000, 150_000, 400_000][r.below(3) as usize];
    p.app.commit_us = 0;
    p.app.get_us = 0;
    p.app.send_us = 0;
    p.adv = Adv {
        act_ppm: [100_000, 300_000, 600_000][r.below(3) as usize],
        actions: byz::STALE
            | byz::LEAD
            | if r.chance(300_000) { byz::BAD_PROPOSAL | byz::HELP } else { 0 }
            | if r.chance(400_000) { byz::REUSE } else { 0 },
        tick_us: 0,
        budget: 2000,
    };
    p.rt = rt(r);
    starts(p, r, unit);
    clocks(p, r, 20_000);
    p.sync_us = unit / 2 + r.below(unit * 4);
    let to = unit * (30 + r.below(60));
    let k = r.below(6);
    storm(p, r, k, 0, to, &[1, 4, 8, 8, 7, 2]);
    p.end_us = to;
}

fn adversary(r: &mut Rng) -> Adv {
    let actions = match r.below(4) {
        0 => byz::ALL,
        1 => 1 << r.below(u64::from(byz::NACTIONS)) | 1 << r.below(u64::from(byz::NACTIONS)),
        _ => {
            let mut a = 0;
            for k in 0..byz::NACTIONS {
                if r.chance(400_000) {
                    a |= 1 << k;
                }
            }
            a | 1 << r.below(u64::from(byz::NACTIONS))
        }
    };
    let mut actions = actions;
    for (bit, p) in [(byz::LEAD, 600_000), (byz::EDGE, 300_000), (byz::FLOOD, 100_000), (byz::VOUCH, 150_000), (byz::RELABEL, 150_000)] {
        if r.chance(p) {
            actions |= bit;
        }
    }
    Adv {
        act_ppm: [20_000, 100_000, 400_000][r.below(3) as usize],
        actions,
        tick_us: 0,
        budget: if actions & (byz::FLOOD | byz::EDGE) != 0 {
            3000
        } else {
            [20, 200, 3000][r.below(3) as usize]
        },
    }
}

/// Every delay is nil, so every wait is a timeout that can be read off exactly.
fn timing(p: &mut Plan, r: &mut Rng) {
    let n = [4, 4, 5, 6, 7, 11][r.below(6) as usize];
    let m = equal(n);
    single(p, m.clone());
    p.interval = 50 + r.below(2000);
    p.timer = timer(r);
    p.rt = Rt {
        fifo: true,
        ..Rt::default()
    };
    match r.below(4) {
        0 => p.absent = pick_faulty(r, &m, true),
        1 => p.app.get_err_ppm = 300_000 + r.below(700_000) as u32,
        2 => p.app.check_err_ppm = 200_000 + r.below(700_000) as u32,
        _ => {
            p.absent = pick_faulty(r, &m, true);
            p.app.get_err_ppm = 300_000 + r.below(600_000) as u32;
        }
    }
    if r.chance(500_000) {
        // settings change on the way
        let mut from = 0;
        // both change, or one alone
        let (some_interval, some_timer) = [(700_000, 700_000), (0, 800_000), (800_000, 0)][r.below(3) as usize];
        for _ in 0..(1 + r.below(3)) {
            from += 1 + r.below(3);
            p.epochs.push(Epoch {
                from,
                members: m.clone(),
                interval: if r.chance(some_interval) { Some(50 + r.below(2000)) } else { None },
                timer: if r.chance(some_timer) { timer(r) } else { None },
            });
        }
    }
    if r.chance(400_000) {
        let up: Vec<usize> = (0..n).filter(|i| !p.absent.contains(i)).collect();
        for _ in 0..1 + r.below(3) {
            let inst = *r.pick(&up);
            p.faults.push(Fault {
                at_us: r.below(p.interval * 1000 * 20),
                kind: Kind::Crash {
                    inst,
                    down_us: 1 + r.below(p.interval * 1000),
                },
            });
        }
        p.faults.sort_by_key(|f| f.at_us);
    }
    starts(p, r, 0);
    p.target = 6 + r.below(12);
    p.end_us = p.interval * 1000 * 400;
    p.max_steps = 400_000;
}

fn minority(p: &mut Plan, r: &mut Rng) {
    let n = [4, 4, 4, 5, 6, 7, 9][r.below(7) as usize];
    let m = equal(n);
    single(p, m.clone());
    p.interval = 100 + r.below(500);
    p.timer = timer(r);
    let unit = p.interval * 1000;
    let t = t_or(p.timer);
    let l = p.interval * 1000 * (t[0] - 10).min(t[1]).min(t[2]) / 10;
    p.net.min_us = r.below(l / 60 + 1);
    p.net.max_us = p.net.min_us + r.below(l / 20 + 1);
    p.app.get_us = r.below(l / 25 + 1);
    p.app.check_us = r.below(l / 25 + 1);
    p.app.commit_us = r.below(l / 40 + 1);
    p.wal.save_us = r.below(l / 120 + 1);
    p.rt = rt(r);
    p.rt.jitter_us = p.rt.jitter_us.min(l / 200);
    p.rt.jitter_ppm = p.rt.jitter_ppm.min(20_000);
    p.greet_us = r.below(l / 12 + 1);
    clocks(p, r, 5_000);
    let bad = pick_faulty(r, &m, false);
    match r.below(4) {
        0 => p.absent = bad,
        1 => {
            // crashed for good at some instant, any instant
            for b in bad {
                let kind = if r.chance(500_000) {
                    Kind::Crash { inst: b, down_us: 0 }
                } else {
                    Kind::CrashAt {
                        inst: b,
                        point: *r.pick(&POINTS),
                        k: 1 + r.below(10) as u32,
                        down_us: 0,
                    }
                };
                p.faults.push(Fault {
                    at_us: r.below(unit * 10),
                    kind,
                });
            }
        }
        _ => {
            p.byz = bad;
            p.byz_mode = [ByzMode::Silent, ByzMode::Shadow, ByzMode::Twins][r.below(3) as usize];
            p.adv = adversary(r);
        }
    }
    p.sync_us = unit * (2 + r.below(5));
    p.target = 6 + r.below(10);
    p.bound_us = 8 * long_round(p.interval, p.timer) + 4 * p.sync_us;
    p.end_us = p.bound_us * 4;
}

/// A node stalls while everything it needs arrives; then it has to catch up from that alone.
fn early(p: &mut Plan, r: &mut Rng) {
    let n = [4, 5, 6, 7, 9][r.below(5) as usize];
    let m = equal(n);
    single(p, m);
    p.interval = 100 + r.below(400);
    let unit = p.interval * 1000;
    p.timer = Some([30 + r.below(20), 15 + r.below(10), 15 + r.below(10), 5]);
    let l = unit;
    p.net.min_us = r.below(l / 60 + 1);
    p.net.max_us = p.net.min_us + r.below(l / 20 + 1);
    p.net.dup_ppm = [0, 100_000][r.below(2) as usize];
    p.app.get_us = r.below(l / 40 + 1);
    p.app.check_us = r.below(l / 40 + 1);
    p.app.commit_us = r.below(l / 60 + 1);
    p.wal.save_us = r.below(l / 200 + 1);
    p.rt = rt(r);
    p.rt.jitter_us = p.rt.jitter_us.min(l / 200);
    p.rt.jitter_ppm = p.rt.jitter_ppm.min(20_000);
    p.greet_us = r.below(l / 12 + 1);
    // who stalls, from which height on
    let keys = Keys::new(p.seed, p.n + 1);
    let list = List::of(p, &keys, 1);
    let mut best = None;
    for _ in 0..40 {
        let from = 1 + r.below(8);
        let x = r.below(n as u64) as usize;
        let mut k = 0;
        while k < 4 && list.leader(&keys, from + k, 0) != x {
            k += 1;
        }
        if k > 1 && best.is_none_or(|b: (usize, u64, u64)| b.2 < k) {
            best = Some((x, from, k));
        }
    }
    let Some((x, from, k)) = best else { return };
    // It stalls during height `from` and wakes before height `from + k` has begun: k - 1 whole
    // intervals at most.
    let _ = k;
    p.stall = Some((x, from, from + k - 1));
    p.target = from + k + 4;
    p.bound_us = unit * 12;
    p.end_us = unit * 4 * (p.target + 10);
}

fn stop(p: &mut Plan, r: &mut Rng) {
    let n = [1, 2, 3, 4, 4, 5][r.below(6) as usize];
    let m = members(r, n);
    single(p, m.clone());
    if r.chance(200_000) {
        // one node that is no member
        p.n += 1;
    }
    p.interval = 50 + r.below(400);
    p.timer = timer(r);
    net(p, r);
    p.net.tail_ppm = 0;
    p.net.loss_ppm = [0, 50_000][r.below(2) as usize];
    app(p, r);
    if r.chance(300_000) {
        p.app.get_err_ppm = r.below(300_000) as u32;
        p.app.check_err_ppm = r.below(300_000) as u32;
        p.app.commit_err_ppm = r.below(200_000) as u32;
        p.wal.err_ppm = r.below(100_000) as u32;
        p.app.sign_err_ppm = r.below(50_000) as u32;
        p.app.send_err_ppm = r.below(50_000) as u32;
    }
    p.rt = rt(r);
    let unit = p.interval * 1000;
    starts(p, r, unit);
    clocks(p, r, 5_000);
    p.sync_us = unit * (2 + r.below(10));
    let span = unit * (1 + r.below(12));
    for i in 0..p.n {
        if r.chance(700_000) {
            p.faults.push(Fault {
                at_us: match r.below(6) {
                    0 => p.start_us[i] + r.below(200),
                    _ => p.start_us[i] + r.below(span),
                },
                kind: Kind::Stop { inst: i },
            });
        }
    }
    if r.chance(300_000) {
        let k = 1 + r.below(3);
        storm(p, r, k, 0, span, &[0, 1, 4, 7]);
    }
    p.faults.sort_by_key(|f| f.at_us);
    p.bound_us = 4_000_000 + 20 * unit;
    p.end_us = span + p.bound_us + 4 * unit + 4_000_000;
    p.max_steps = 1_000_000;
}

fn garbage(p: &mut Plan, r: &mut Rng) {
    let n = [1, 2, 3, 3, 4, 5, 6, 7][r.below(8) as usize];
    let m = members(r, n);
    single(p, m.clone());
    if n > 3 && r.chance(500_000) {
        p.byz = pick_faulty(r, &m, true);
        p.byz_mode = [ByzMode::Silent, ByzMode::Shadow][r.below(2) as usize];
    }
    p.interval = pick_interval(r).min(400);
    p.timer = timer(r);
    net(p, r);
    p.net.loss_ppm = [0, 20_000][r.below(2) as usize];
    p.net.corrupt_ppm = [0, 10_000, 100_000][r.below(3) as usize];
    app(p, r);
    if r.chance(600_000) {
        let hi = [20_000, 300_000][r.below(2) as usize];
        p.app.get_err_ppm = r.below(hi) as u32;
        p.app.check_err_ppm = r.below(hi) as u32;
        p.app.commit_err_ppm = r.below(hi) as u32;
        p.app.send_err_ppm = r.below(hi) as u32;
        p.app.sign_err_ppm = r.below(hi) as u32;
        p.wal.err_ppm = r.below(hi) as u32;
        p.wal.err_durable_ppm = 500_000;
    }
    p.adv = adversary(r);
    p.adv.actions |= byz::EXTREME | byz::MUTATE | byz::OUTSIDER;
    p.rt = rt(r);
    let unit = p.interval * 1000;
    starts(p, r, unit);
    p.sync_us = unit * (2 + r.below(10));
    p.quiesce_us = unit * (20 + r.below(60));
    let k = r.below(6);
    let to = p.quiesce_us;
    storm(p, r, k, 0, to, &[0, 1, 4, 7, 9]);
    if r.chance(300_000) {
        // the log rots while a node is down
        let inst = r.below(p.n as u64) as usize;
        if !p.byz.contains(&inst) {
            let at = r.below(to);
            p.faults.push(Fault {
                at_us: at,
                kind: Kind::Crash { inst, down_us: 20_000 },
            });
            for k in 0..1 + r.below(3) {
                p.faults.push(Fault {
                    at_us: at + 1 + k,
                    kind: Kind::RotWal {
                        inst,
                        at: r.next() as u32 >> 8,
                        xor: r.next() as u8,
                    },
                });
            }
            p.faults.sort_by_key(|f| f.at_us);
        }
    }
    late(p, r);
    settle(p);
}

fn epochs(p: &mut Plan, r: &mut Rng) {
    let universe = [5, 6, 6, 7, 8, 8, 11][r.below(7) as usize];
    p.n = universe;
    let byz = r.chance(300_000);
    let faulty = r.below(universe as u64) as usize;
    let mut from = 0;
    let count = 2 + r.below(4);
    let mut prev: Option<Vec<Member>> = None;
    for _ in 0..count {
        let all = members(r, universe);
        let size = 4 + r.below((universe - 3) as u64) as usize;
        let mut ids: Vec<usize> = (0..universe).collect();
        for i in (1..ids.len()).rev() {
            ids.swap(i, r.below(i as u64 + 1) as usize);
        }
        let mut m: Vec<Member> = all.into_iter().filter(|x| ids[..size].contains(&x.idx)).collect();
        if let Some(pm) = &prev {
            match r.below(4) {
                0 => m = pm.clone(),
                1 if pm.len() > 4 => {
                    m = pm.clone();
                    let k = r.below(m.len() as u64) as usize;
                    m.remove(k);
                }
                _ => {}
            }
        }
        if byz && m.iter().any(|x| x.idx == faulty) && !below_third(&m, &[faulty]) {
            for x in &mut m {
                x.vw = 1;
            }
        }
        p.epochs.push(Epoch {
            from,
            members: m.clone(),
            interval: if r.chance(300_000) { Some(50 + r.below(300)) } else { None },
            timer: if r.chance(300_000) { timer(r) } else { None },
        });
        prev = Some(m);
        from += 1 + r.below(5) + u64::from(from == 0);
    }
    if byz {
        p.byz = vec![faulty];
        p.byz_mode = [ByzMode::Silent, ByzMode::Shadow][r.below(2) as usize];
        p.adv = adversary(r);
    }
    p.interval = 60 + r.below(300);
    p.timer = timer(r);
    net(p, r);
    p.net.loss_ppm = [0, 0, 20_000][r.below(3) as usize];
    app(p, r);
    p.rt = rt(r);
    let unit = p.interval * 1000;
    starts(p, r, unit);
    clocks(p, r, 20_000);
    p.sync_us = unit * (1 + r.below(4));
    p.quiesce_us = unit * (20 + r.below(40));
    let k = r.below(8);
    let to = p.quiesce_us;
    storm(p, r, k, 0, to, &[1, 1, 2, 4, 5, 7, 8]);
    if byz {
        p.end_us = p.quiesce_us;
        p.quiesce_us = 0;
        late(p, r);
    } else {
        late(p, r);
        settle(p);
    }
}

/// Many heights of one kind, so that what is kept of each of them shows.
fn memory(p: &mut Plan, r: &mut Rng) {
    let n = [1, 3, 4, 4, 4, 5, 6, 7][r.below(8) as usize];
    let m = members(r, n);
    single(p, m.clone());
    p.interval = 40 + r.below(60);
    let unit = p.interval * 1000;
    p.net.min_us = r.below(unit / 60 + 1);
    p.net.max_us = p.net.min_us + r.below(unit / 12 + 1);
    p.net.dup_ppm = [0, 100_000][r.below(2) as usize];
    p.app.get_us = r.below(unit / 25 + 1);
    p.app.check_us = r.below(unit / 25 + 1);
    p.app.commit_us = r.below(unit / 40 + 1);
    p.rt = rt(r);
    p.rt.jitter_us = p.rt.jitter_us.min(unit / 200);
    p.rt.jitter_ppm = p.rt.jitter_ppm.min(20_000);
    p.target = 120 + r.below(200);
    let mut slow = 3;
    match r.below(5) {
        // two lists in turns
        0 if n >= 5 => {
            let k = 1 + r.below(5);
            let out = r.below(n as u64) as usize;
            let other = (out + 1 + r.below(n as u64 - 1) as usize) % n;
            let all = equal(n);
            let list = |x: usize| -> Vec<Member> { all.iter().filter(|m| m.idx != x).cloned().collect() };
            p.epochs.clear();
            for e in 0..=p.target / k + 1 {
                p.epochs.push(Epoch {
                    from: e * k,
                    members: list(if e % 2 == 0 { out } else { other }),
                    interval: None,
                    timer: None,
                });
            }
        }
        // rounds that fail
        1 => {
            p.net.loss_ppm = [5_000, 30_000][r.below(2) as usize];
            p.app.check_err_ppm = r.below(20_000) as u32;
            slow = 12;
        }
        // messages of which nothing may remain
        2..=3 if n >= 4 => {
            p.byz = pick_faulty(r, &m, true);
            p.byz_mode = [ByzMode::Silent, ByzMode::Shadow, ByzMode::Shadow][r.below(3) as usize];
            let any = [byz::OUTSIDER, byz::REPLAY, byz::FUTURE, byz::EXTREME, byz::MUTATE, byz::DOUBLE_VOTE, byz::FLOOD, byz::VOUCH, byz::RELABEL, byz::CHOKE, byz::BAD_PROPOSAL];
            let mut actions = *r.pick(&any);
            for a in any {
                if r.chance(300_000) {
                    actions |= a;
                }
            }
            p.adv = Adv {
                act_ppm: [100_000, 300_000, 600_000][r.below(3) as usize],
                actions,
                tick_us: 0,
                budget: 60_000,
            };
            slow = 12;
        }
        _ => {}
    }
    if p.net.loss_ppm > 0 || !p.byz.is_empty() || p.epochs.len() > 1 {
        p.sync_us = unit * (1 + r.below(4));
    }
    p.max_steps = 6_000_000;
    p.end_us = p.target * unit * slow;
}

fn status(p: &mut Plan, r: &mut Rng) {
    let n = [4, 4, 5, 7][r.below(4) as usize];
    let m = members(r, n);
    single(p, m);
    p.interval = 50 + r.below(300);
    p.timer = timer(r);
    net(p, r);
    p.net.loss_ppm = [0, 20_000, 100_000][r.below(3) as usize];
    app(p, r);
    p.app.commit_us = r.below(p.interval * 1000);
    p.app.commit_err_ppm = [0, 100_000][r.below(2) as usize];
    p.rt = rt(r);
    let unit = p.interval * 1000;
    starts(p, r, unit * 4);
    clocks(p, r, 20_000);
    p.sync_us = unit / 2 + r.below(unit * 3);
    p.quiesce_us = unit * (20 + r.below(60));
    let k = 4 + r.below(24);
    let to = p.quiesce_us;
    storm(p, r, k, 0, to, &[1, 2, 4, 4, 7, 7, 7, 8, 8, 9]);
    late(p, r);
    settle(p);
}
