//! The simulated deployment: nodes running the real engine on stub application, network, log and
//! keys, plus the fault machinery. One world per simulation, thread local.

use crate::byz::Adversary;
use crate::model::*;
use crate::oracle::Oracle;
use crate::plan::*;
use async_trait::async_trait;
use bytes::Bytes;
use overlord::error::ConsensusError;
use overlord::types::*;
use overlord::{Consensus, Context, Crypto, DurationConfig, Overlord, OverlordHandler, Wal};
use simrt::rng::hash3;
use simrt::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error;
use std::rc::Rc;
use std::sync::Arc;

pub type Msg = OverlordMsg<Blk>;
type Res<T> = Result<T, Box<dyn Error + Send>>;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// Start of simulated time.
pub const T0: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub rule: &'static str,
    pub msg: String,
    pub at: u64,
}

/// One message on the simulated wire.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Wire {
    pub kind: u8,
    pub body: Bytes,
}

pub fn to_wire(m: &Msg) -> Option<Wire> {
    let (kind, body) = match m {
        OverlordMsg::SignedProposal(x) => (0, rlp::encode(x)),
        OverlordMsg::SignedVote(x) => (1, rlp::encode(x)),
        OverlordMsg::AggregatedVote(x) => (2, rlp::encode(x)),
        OverlordMsg::SignedChoke(x) => (3, rlp::encode(x)),
        _ => return None,
    };
    Some(Wire {
        kind,
        body: Bytes::from(body.to_vec()),
    })
}

pub fn from_wire(w: &Wire) -> Option<Msg> {
    Some(match w.kind {
        0 => OverlordMsg::SignedProposal(rlp::decode(&w.body).ok()?),
        1 => OverlordMsg::SignedVote(rlp::decode(&w.body).ok()?),
        2 => OverlordMsg::AggregatedVote(rlp::decode(&w.body).ok()?),
        3 => OverlordMsg::SignedChoke(rlp::decode(&w.body).ok()?),
        _ => return None,
    })
}

#[derive(Clone, Debug)]
pub struct Stored {
    pub hash: Hash,
    pub content: Bytes,
}

/// What a log record says.
#[derive(Clone, Debug)]
pub struct Rec {
    pub h: u64,
    pub r: u64,
    pub step: u8,
    pub lock: Option<(u64, AggregatedVote, Bytes)>,
    pub from: UpdateFrom,
}

pub fn parse_rec(b: &Bytes) -> Option<Rec> {
    let w: overlord::WalInfo<Blk> = rlp::decode(b).ok()?;
    Some(Rec {
        h: w.height,
        r: w.round,
        step: w.step.into(),
        lock: w.lock.map(|l| (l.lock_round, l.lock_votes, l.content.0)),
        from: w.from,
    })
}

pub struct Inst {
    pub id: usize,
    pub member: usize,
    pub byz: bool,
    pub inc: u32,
    pub node: u32,
    pub alive: bool,
    pub paused: bool,
    pub resumed_at: u64,
    pub started_at: u64,
    pub handler: Option<Rc<OverlordHandler<Blk>>>,
    /// Blocks the application has stored; entry i is height i + 1.
    pub chain: Vec<Stored>,
    /// What the log holds durably.
    pub wal: Option<Bytes>,
    /// A save under way.
    pub saving: Option<Bytes>,
    /// Last record the node knows to be saved.
    pub acked: Option<Rec>,
    pub wal_fail_until: u64,
    pub stop_at: Option<u64>,
    pub run_done: Option<u64>,
    pub points: BTreeMap<Point, u32>,
    pub crash_at: Vec<(Point, u32, u64)>,
    /// (height, round, step) the node last tried to log.
    pub view: (u64, u64, u8),
    pub crashes: u32,
    pub synced_to: u64,
    /// Log saves that failed in this run.
    pub wal_fails: u32,
    /// A decision could not be logged in this run.
    pub unlogged: bool,
}

impl Inst {
    pub fn height(&self) -> u64 {
        self.chain.len() as u64
    }
}

struct Cutoff {
    from: u64,
    groups: Vec<u8>,
}

pub struct World {
    pub plan: Plan,
    pub keys: Keys,
    pub lists: BTreeMap<u64, Rc<List>>,
    pub insts: Vec<Inst>,
    pub seq: u64,
    pub quiet: bool,
    pub nonce: u64,
    pub blocks: BTreeMap<Hash, Bytes>,
    partitions: Vec<Cutoff>,
    cuts: BTreeMap<(usize, usize), u32>,
    isolated: BTreeMap<usize, u32>,
    pub oracle: Oracle,
    pub adv: Adversary,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub violations: Vec<Violation>,
    pub trace: Option<Vec<String>>,
    pub log_hash: u64,
    pub log_len: u64,
    pub states: BTreeSet<u64>,
    pub msgs_sent: u64,
    pub msgs_delivered: u64,
    pub reports: u64,
    pub harness_err: Option<String>,
    pub stop_run: bool,
    /// Who was seen to lead which round of which height.
    pub led: BTreeMap<u64, BTreeMap<u64, usize>>,
    /// The least memory each node held while its application was at each height.
    pub held: Vec<BTreeMap<u64, i64>>,
}

const LEADERS_BREAK: [&str; 6] = ["S01", "S05", "C02", "L02", "M01", "R05"];

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn install(w: World) {
    WORLD.with(|c| *c.borrow_mut() = Some(w));
}
pub fn remove() -> World {
    WORLD.with(|c| c.borrow_mut().take().unwrap())
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _g = simrt::mem::as_harness();
    WORLD.with(|c| f(c.borrow_mut().as_mut().expect("no world")))
}

/// Bytes that go from a node to the harness or back. Where accounts of memory are kept they must
/// not share what they hold.
pub fn own(b: &Bytes) -> Bytes {
    if simrt::mem::on() {
        Bytes::copy_from_slice(b)
    } else {
        b.clone()
    }
}
fn own_msg(m: Msg) -> Msg {
    if simrt::mem::on() {
        to_wire(&m).and_then(|w| from_wire(&w)).unwrap_or(m)
    } else {
        m
    }
}
fn own_status(s: Status) -> Status {
    if !simrt::mem::on() {
        return s;
    }
    let mut s = s;
    s.authority_list = s
        .authority_list
        .iter()
        .map(|n| {
            let mut m = n.clone();
            m.address = own(&n.address);
            m
        })
        .collect();
    s
}

pub fn t_us() -> u64 {
    (simrt::now() - T0) / US
}

impl World {
    pub fn new(plan: Plan, verbose: bool) -> World {
        // After the members come the outsider and more strangers.
        let keys = Keys::new(plan.seed, 2 * plan.n + 2);
        let mut insts = Vec::new();
        for m in 0..plan.n {
            insts.push(new_inst(m, m, plan.is_byz(m)));
        }
        if plan.byz_mode == ByzMode::Twins {
            for m in plan.byz.clone() {
                let id = insts.len();
                insts.push(new_inst(id, m, true));
            }
        }
        let adv = Adversary::new(&plan);
        let n = insts.len();
        let n_insts = insts.len();
        World {
            keys,
            lists: BTreeMap::new(),
            insts,
            seq: 0,
            quiet: false,
            nonce: 1,
            blocks: BTreeMap::new(),
            partitions: Vec::new(),
            cuts: BTreeMap::new(),
            isolated: BTreeMap::new(),
            oracle: Oracle::new(plan.n, n),
            adv,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            violations: Vec::new(),
            trace: if verbose { Some(Vec::new()) } else { None },
            log_hash: 0xcbf2_9ce4_8422_2325,
            log_len: 0,
            states: BTreeSet::new(),
            msgs_sent: 0,
            msgs_delivered: 0,
            reports: 0,
            harness_err: None,
            stop_run: false,
            led: BTreeMap::new(),
            held: vec![BTreeMap::new(); n_insts],
            plan,
        }
    }

    pub fn list(&mut self, h: u64) -> Rc<List> {
        let from = self.plan.epoch(h).from;
        if let Some(l) = self.lists.get(&from) {
            return l.clone();
        }
        let l = Rc::new(List::of(&self.plan, &self.keys, h));
        self.lists.insert(from, l.clone());
        l
    }

    /// Settings in force at a height.
    pub fn interval_at(&self, h: u64) -> u64 {
        self.plan
            .epochs
            .iter()
            .rev()
            .filter(|e| e.from <= h)
            .find_map(|e| e.interval)
            .unwrap_or(self.plan.interval)
    }
    pub fn timer_at(&self, h: u64) -> Option<[u64; 4]> {
        self.plan
            .epochs
            .iter()
            .rev()
            .filter(|e| e.from <= h)
            .find_map(|e| e.timer)
            .or(self.plan.timer)
    }
    fn dur(t: Option<[u64; 4]>) -> Option<DurationConfig> {
        t.map(|t| DurationConfig::new(t[0], t[1], t[2], t[3]))
    }
    pub fn status_for(&mut self, h: u64) -> Status {
        // Settings that never change may also be left out.
        let x = hash3(self.plan.seed, 0x57a7, h) % 6;
        let same_interval = self.plan.epochs.iter().all(|e| e.interval.is_none());
        let same_timer = self.plan.epochs.iter().all(|e| e.timer.is_none());
        let list = self.list(h);
        let st = Status {
            height: h,
            interval: if same_interval && [0, 1, 2].contains(&x) { None } else { Some(self.interval_at(h)) },
            timer_config: if same_timer && [0, 1, 3].contains(&x) {
                None
            } else {
                World::dur(self.timer_at(h))
            },
            authority_list: list_shuffled(&list, self.plan.seed ^ h),
        };
        crate::pure::status(self, &st);
        st
    }

    pub fn count(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }

    /// One seeded fault decision. It consumes a sequence number whatever the answer, and can be
    /// muted without shifting any other decision.
    pub fn roll(&mut self, ppm: u32, kind: &'static str) -> bool {
        self.seq += 1;
        if ppm == 0 || self.quiet {
            return false;
        }
        if self.plan.mute.contains(&self.seq)
            || self.plan.mute_from.is_some_and(|m| self.seq >= m)
        {
            return false;
        }
        let hit = hash3(self.plan.seed, 0xfa17, self.seq) % 1_000_000 < u64::from(ppm);
        if hit {
            self.count(kind);
            self.oracle.rolled.push(self.seq);
        }
        hit
    }
    /// A seeded value for the decision just made.
    pub fn value(&mut self, salt: u64, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        hash3(self.plan.seed, 0x7a1e ^ salt, self.seq) % n
    }

    pub fn ev(&mut self, tag: u64, a: u64, b: u64, c: u64, text: impl FnOnce(&World) -> String) {
        let mut h = self.log_hash;
        for x in [tag, a, b, c, simrt::now()] {
            h = (h ^ x).wrapping_mul(0x100_0000_01b3);
            h ^= h >> 31;
        }
        self.log_hash = h;
        self.log_len += 1;
        if self.trace.is_some() {
            let s = format!("{:>10}us {}", t_us(), text(self));
            if let Some(t) = self.trace.as_mut() {
                t.push(s);
            }
        }
    }

    pub fn violate(&mut self, prop: &'static str, rule: &'static str, msg: String) {
        // A node whose log was damaged has no duties left but not to crash; the others are not
        // promised anything about it either.
        if rule != "panic" && self.plan.faults.iter().any(|f| matches!(f.kind, Kind::RotWal { .. })) {
            return;
        }
        if self.violations.len() < 200 {
            let at = t_us();
            self.ev(0xbad, 0, 0, 0, |_| format!("!! {prop} {rule}: {msg}"));
            // In the other build the leaders are what is new: whatever they break is P02's.
            if cfg!(feature = "random_leader") && prop != "P02" && self.plan.prop == "P02" && LEADERS_BREAK.contains(&prop) {
                self.violations.push(Violation {
                    prop: "P02",
                    rule,
                    msg: msg.clone(),
                    at,
                });
            }
            self.violations.push(Violation {
                prop,
                rule,
                msg,
                at,
            });
        }
    }

    pub fn blocked(&self, from: usize, to: usize) -> bool {
        if self.quiet {
            return false;
        }
        if self.isolated.contains_key(&from) || self.isolated.contains_key(&to) {
            return true;
        }
        if self.cuts.contains_key(&(from, to)) {
            return true;
        }
        self.partitions
            .iter()
            .any(|p| p.groups.get(from).unwrap_or(&0) != p.groups.get(to).unwrap_or(&0))
    }

    /// Twins talk to disjoint halves of the others.
    fn twin_blocked(&self, from: usize, to: usize) -> bool {
        if self.plan.byz_mode != ByzMode::Twins {
            return false;
        }
        let side = |i: usize| -> Option<u64> {
            let m = self.insts[i].member;
            if !self.plan.is_byz(m) {
                return None;
            }
            Some(u64::from(i >= self.plan.n))
        };
        match (side(from), side(to)) {
            (Some(a), Some(b)) => a != b,
            (Some(a), None) => hash3(self.plan.seed, 0x7713, to as u64 + t_us() / 4_000_000) % 3 == a,
            (None, Some(b)) => hash3(self.plan.seed, 0x7713, from as u64 + t_us() / 4_000_000) % 3 == b,
            _ => false,
        }
    }

    /// Put a message on the wire to one instance.
    pub fn post(&mut self, from: usize, to: usize, wire: &Wire) {
        let net = self.plan.net.clone();
        self.msgs_sent += 1;
        let span = net.max_us.saturating_sub(net.min_us) + 1;
        let lost = self.roll(net.loss_ppm, "message lost");
        let tail = self.roll(net.tail_ppm, "message delayed long");
        let copies = if self.roll(net.dup_ppm, "message duplicated") {
            2
        } else {
            1
        };
        let corrupt = self.roll(net.corrupt_ppm, "message corrupted");
        let mut body = wire.clone();
        if corrupt && !body.body.is_empty() {
            let mut v = body.body.to_vec();
            let k = self.value(1, 2) + 1;
            for i in 0..k {
                let at = self.value(2 + i, v.len() as u64) as usize;
                v[at] ^= 1 + self.value(10 + i, 255) as u8;
            }
            body.body = Bytes::from(v);
        }
        if lost {
            return;
        }
        for c in 0..copies {
            let mut d = net.min_us + self.value(20 + c, span);
            if tail {
                d = net.max_us + self.value(30 + c, net.tail_us.max(1));
            }
            if c > 0 {
                d += self.value(40, 4 * net.max_us + 1);
            }
            let w = body.clone();
            simrt::after(d * US, move || deliver(from, to, w));
        }
    }

    pub fn broadcast(&mut self, from: usize, wire: &Wire) {
        let n = self.insts.len();
        for to in 0..n {
            if to != from {
                self.post(from, to, wire);
            }
        }
    }

    pub fn state_hash(&mut self) {
        let top = self.insts.iter().map(|i| i.view.0).max().unwrap_or(0);
        let mut h = 0x1234_5678u64;
        for i in &self.insts {
            let x = if i.alive {
                (top - i.view.0).min(7) << 8 | i.view.1.min(9) << 4 | u64::from(i.view.2)
            } else {
                0xffff
            };
            h = hash3(h, x, u64::from(i.paused));
        }
        self.states.insert(h);
    }

    pub fn correct(&self) -> impl Iterator<Item = &Inst> {
        self.insts
            .iter()
            .filter(|i| !i.byz && !self.plan.absent.contains(&i.id))
    }
}

fn new_inst(id: usize, member: usize, byz: bool) -> Inst {
    Inst {
        id,
        member,
        byz,
        inc: 0,
        node: 0,
        alive: false,
        paused: false,
        resumed_at: 0,
        started_at: 0,
        handler: None,
        chain: Vec::new(),
        wal: None,
        saving: None,
        acked: None,
        wal_fail_until: 0,
        stop_at: None,
        run_done: None,
        points: BTreeMap::new(),
        crash_at: Vec::new(),
        view: (0, 0, 0),
        crashes: 0,
        synced_to: 0,
        wal_fails: 0,
        unlogged: false,
    }
}

fn list_shuffled(l: &List, seed: u64) -> Vec<Node> {
    let mut v = l.nodes.clone();
    let mut r = Rng::new(seed);
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
    v
}

pub fn describe(m: &Msg, keys: &Keys) -> String {
    let who = |a: &[u8]| keys.index(a).map_or("?".to_string(), |i| format!("m{i}"));
    let qc = |q: &AggregatedVote| {
        format!(
            "{}QC({},{},{} by {:02x?})",
            if q.is_prevote_qc() { "prevote" } else { "precommit" },
            q.height,
            q.round,
            hx(&q.block_hash),
            q.signature.address_bitmap.as_ref()
        )
    };
    match m {
        OverlordMsg::SignedProposal(p) => format!(
            "proposal({},{},{} by {}{})",
            p.proposal.height,
            p.proposal.round,
            hx(&p.proposal.block_hash),
            who(&p.proposal.proposer),
            p.proposal
                .lock
                .as_ref()
                .map_or(String::new(), |l| format!(" polc@{} {}", l.lock_round, qc(&l.lock_votes)))
        ),
        OverlordMsg::SignedVote(v) => format!(
            "{}({},{},{} by {})",
            if v.is_prevote() { "prevote" } else { "precommit" },
            v.vote.height,
            v.vote.round,
            hx(&v.vote.block_hash),
            who(&v.voter)
        ),
        OverlordMsg::AggregatedVote(q) => qc(q),
        OverlordMsg::SignedChoke(c) => format!(
            "choke({},{} by {} from {})",
            c.choke.height,
            c.choke.round,
            who(&c.address),
            match &c.choke.from {
                UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => qc(q),
                UpdateFrom::ChokeQC(a) => format!(
                    "chokeQC({},{} by {})",
                    a.height,
                    a.round,
                    a.voters.iter().map(|v| who(v)).collect::<Vec<_>>().join("+")
                ),
            }
        ),
        OverlordMsg::RichStatus(s) => format!("status({})", s.height),
        OverlordMsg::Stop => "stop".into(),
    }
}

/// A message arrives.
pub fn deliver(from: usize, to: usize, w: Wire) {
    let got = with(|wd| {
        let cut = from < wd.insts.len() && (wd.blocked(from, to) || wd.twin_blocked(from, to));
        if cut {
            wd.count("message cut off");
            return None;
        }
        if !wd.insts[to].alive || wd.insts[to].handler.is_none() {
            return None;
        }
        let Ok(dec) = std::panic::catch_unwind(|| from_wire(&w)) else {
            if !wd.insts[to].byz {
                wd.violate(
                    "R05",
                    "decoder-panic",
                    format!("decoding {} bytes of kind {} from the network panicked", w.body.len(), w.kind),
                );
            }
            return None;
        };
        let Some(msg) = dec else {
            wd.probe("undecodable message refused");
            return None;
        };
        wd.msgs_delivered += 1;
        let node = wd.insts[to].node;
        let tag = mixw(&w);
        let d = describe(&msg, &wd.keys);
        wd.ev(1, to as u64, from as u64, tag, |_| format!("  i{to} <- i{from} {d}"));
        crate::oracle::on_deliver(wd, to, &msg);
        Some((wd.insts[to].handler.clone().unwrap(), node, msg))
    });
    if let Some((h, node, msg)) = got {
        simrt::enter(node, || {
            let _ = h.send_msg(Context::new(), own_msg(msg));
        });
    }
}

pub fn mixw(w: &Wire) -> u64 {
    let mut h = u64::from(w.kind);
    for b in w.body.iter() {
        h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// The application tells the node about a status.
pub fn send_status(i: usize, st: Status) {
    let got = with(|w| {
        if !w.insts[i].alive {
            return None;
        }
        let h = st.height;
        w.ev(2, i as u64, h, 0, |_| format!("i{i} app: status({h})"));
        crate::oracle::on_told(w, i, &st);
        w.insts[i].handler.clone().map(|x| (x, w.insts[i].node))
    });
    if let Some((h, node)) = got {
        simrt::enter(node, || {
            let _ = h.send_msg(Context::new(), OverlordMsg::RichStatus(own_status(st)));
        });
    }
}

/// Start (or restart) an instance from its durable state.
pub fn start(i: usize) {
    let (node, addr, init, interval, list, timer, first) = with(|w| {
        let seed = w.plan.seed;
        if w.plan.snapshot && w.insts[i].inc == 0 && !w.insts[i].byz {
            let best = (0..w.insts.len()).filter(|j| !w.insts[*j].byz).max_by_key(|j| w.insts[*j].height());
            let blocks = best.map(|j| w.insts[j].chain.clone()).unwrap_or_default();
            if !blocks.is_empty() {
                w.count("first start from others' blocks, without a log");
                w.insts[i].synced_to = blocks.len() as u64;
                w.insts[i].chain = blocks;
            }
        }
        let inst = &mut w.insts[i];
        inst.inc += 1;
        inst.node = (i as u32 + 1) * 1000 + inst.inc;
        inst.alive = true;
        inst.paused = false;
        inst.stop_at = None;
        inst.run_done = None;
        inst.saving = None;
        inst.acked = None;
        inst.started_at = simrt::now();
        inst.points.clear();
        inst.wal_fails = 0;
        inst.unlogged = false;
        inst.view = (0, 0, 0);
        let node = inst.node;
        let h = inst.height();
        let member = inst.member;
        let inc = inst.inc;
        let next = h + 1;
        let init = if h == 0 { 0 } else { next };
        let addr = w.keys.addr[member].clone();
        let list = w.list(next);
        let list = list_shuffled(&list, seed ^ u64::from(node));
        let interval = w.interval_at(next);
        let timer = World::dur(w.timer_at(next));
        let st = w.status_for(next);
        let ppm = w.plan.clock_ppm.get(i).copied().unwrap_or(0);
        let off = hash3(seed, 0xc10c, u64::from(node)) % (3600 * SEC);
        simrt::set_clock(node, off, ppm);
        w.ev(3, i as u64, u64::from(inc), h, |_| {
            format!("i{i} start run {inc}: run({init}), application at {h}")
        });
        crate::oracle::on_start(w, i);
        w.seq += 1;
        let g = w.plan.greet_us;
        let wait = w.value(78, g + 1);
        (node, addr, init, interval, list, timer, (st, wait))
    });
    let stub = Stub { inst: i, node };
    simrt::enter(node, || {
        let ov = Arc::new(Overlord::new(
            addr,
            Arc::new(stub.clone()),
            Arc::new(stub.clone()),
            Arc::new(stub),
        ));
        let handler = Rc::new(ov.get_handler());
        with(|w| w.insts[i].handler = Some(handler));
        simrt::spawn_on(
            node,
            Box::pin(async move {
                let _ = ov.run(init, interval, list, timer).await;
                with(|w| {
                    if w.insts[i].node == node && w.insts[i].alive {
                        w.insts[i].run_done = Some(simrt::now());
                        w.ev(4, i as u64, 0, 0, |_| format!("i{i} run returned"));
                        crate::oracle::on_run_returned(w, i);
                    }
                });
            }),
        );
    });
    let (st, wait) = first;
    if wait == 0 {
        send_status(i, st);
    } else {
        simrt::after(wait * US, move || {
            // by then the application may have stored more
            let st = with(|w| {
                if w.insts[i].node != node || !w.insts[i].alive {
                    return None;
                }
                let next = w.insts[i].height() + 1;
                Some(w.status_for(next.max(st.height)))
            });
            if let Some(st) = st {
                send_status(i, st);
            }
        });
    }
}

/// Crash an instance at this instant; what it had durably stored stays.
pub fn crash(i: usize, down_us: u64, why: &'static str) {
    let node = with(|w| {
        if !w.insts[i].alive {
            return None;
        }
        w.count(why);
        w.seq += 1;
        let coin = w.value(77, 2) == 1;
        let mut torn = false;
        let inst = &mut w.insts[i];
        inst.alive = false;
        inst.paused = false;
        inst.handler = None;
        inst.crashes += 1;
        if let Some(b) = inst.saving.take() {
            torn = true;
            if coin {
                inst.wal = Some(b);
            }
        }
        let node = inst.node;
        if torn {
            w.count("crash inside a log save");
        }
        w.ev(5, i as u64, 0, 0, |_| format!("i{i} CRASH ({why})"));
        crate::oracle::on_crash(w, i);
        Some(node)
    });
    let Some(node) = node else { return };
    simrt::kill_node(node);
    if down_us > 0 {
        simrt::after(down_us * US, move || {
            let go = with(|w| !w.insts[i].alive && !w.stop_run);
            if go {
                start(i);
            }
        });
    }
}

/// A place where a planned crash may strike. True: the node is gone.
fn point(i: usize, node: u32, p: Point) -> bool {
    let hit = with(|w| {
        let quiet = w.quiet;
        let inst = &mut w.insts[i];
        if inst.node != node || !inst.alive {
            return None;
        }
        let c = inst.points.entry(p).or_insert(0);
        *c += 1;
        if quiet {
            return None;
        }
        let mut hit = None;
        inst.crash_at.retain_mut(|(q, k, down)| {
            if *q == p && hit.is_none() {
                if *k <= 1 {
                    hit = Some(*down);
                    return false;
                }
                *k -= 1;
            }
            true
        });
        hit
    });
    if let Some(down) = hit {
        let why = match p {
            Point::WalStart => "crash before a log save",
            Point::WalMid => "crash during a log save",
            Point::WalDone => "crash after a log save",
            Point::BeforeSend => "crash before a send",
            Point::AfterSend => "crash after a send",
            Point::CommitStart => "crash before storing a commit",
            Point::CommitDurable => "crash right after storing a commit",
            Point::CommitReturn => "crash when commit returns",
            Point::CheckDone => "crash after a block check",
            Point::GetBlock => "crash while making a block",
        };
        crash(i, down, why);
        return true;
    }
    false
}

// ---------------------------------------------------------------- stubs

#[derive(Clone, Debug)]
pub struct Stub {
    pub inst: usize,
    pub node: u32,
}

impl Stub {
    /// Is this still the current run of the instance? (A dead one is never polled again.)
    fn live(&self) -> bool {
        with(|w| w.insts[self.inst].node == self.node && w.insts[self.inst].alive)
    }
    async fn pause(&self, us: u64) {
        if us > 0 {
            simrt::sleep_global(us * US).await;
        }
    }
    fn delay(&self, base: u64) -> u64 {
        with(|w| {
            let slow = w.plan.app.slow_ppm;
            if base == 0 {
                return 0;
            }
            if w.roll(slow, "slow callback") {
                return base * 50 + w.value(3, base * 50);
            }
            w.value(4, base * 2 + 1)
        })
    }
    async fn gone<T>(&self) -> T {
        std::future::pending().await
    }
    async fn dispatch(&self, to: Option<Address>, msg: Msg) -> Res<()> {
        let i = self.inst;
        if !self.live() || point(i, self.node, Point::BeforeSend) {
            return self.gone().await;
        }
        let us = with(|w| {
            let msg = own_msg(msg);
            let us = w.plan.app.send_us;
            let target = to.as_ref().and_then(|a| w.keys.index(a));
            let d = describe(&msg, &w.keys);
            let wire = to_wire(&msg);
            let tag = wire.as_ref().map_or(0, mixw);
            w.ev(6, i as u64, target.map_or(999, |t| t as u64), tag, |_| {
                format!(
                    "i{i} -> {} {d}",
                    target.map_or("all".to_string(), |t| format!("m{t}"))
                )
            });
            crate::oracle::on_callback(w, i, "send");
            crate::pure::message(w, &msg);
            crate::oracle::on_send(w, i, &msg, target);
            let failed = w.roll(w.plan.app.send_err_ppm, "send failed");
            if let Some(wire) = wire {
                if !failed {
                    match (&to, target) {
                        (None, _) => w.broadcast(i, &wire),
                        (Some(_), Some(t)) => {
                            let ids: Vec<usize> = w
                                .insts
                                .iter()
                                .filter(|x| x.member == t && x.id != i)
                                .map(|x| x.id)
                                .collect();
                            for x in ids {
                                w.post(i, x, &wire);
                            }
                        }
                        _ => {}
                    }
                }
                crate::byz::tap(w, i, &msg, &wire);
            }
            if failed {
                return Err(us);
            }
            Ok(us)
        });
        if point(i, self.node, Point::AfterSend) {
            return self.gone().await;
        }
        match us {
            Ok(us) => {
                let d = self.delay(us);
                self.pause(d).await;
                Ok(())
            }
            Err(us) => {
                let d = self.delay(us);
                self.pause(d).await;
                err("send")
            }
        }
    }
}

#[async_trait]
impl Consensus<Blk> for Stub {
    async fn get_block(&self, _ctx: Context, height: u64) -> Res<(Blk, Hash)> {
        let i = self.inst;
        with(|w| {
            crate::oracle::on_callback(w, i, "get_block");
            crate::oracle::on_get(w, i, height);
        });
        let d = self.delay(with(|w| w.plan.app.get_us));
        self.pause(d).await;
        if point(i, self.node, Point::GetBlock) {
            return self.gone().await;
        }
        with(|w| {
            let ppm = w.plan.app.get_err_ppm;
            if w.roll(ppm, "get_block failed") {
                return err("get_block");
            }
            let n = w.nonce;
            w.nonce += 1;
            let b = Blk::new(height, w.insts[i].member, n, 0);
            let h = b.hash();
            w.blocks.insert(h.clone(), b.0.clone());
            crate::oracle::on_got(w, i, height, &h, &b.0);
            Ok((b, h))
        })
        .map(|(b, h)| (Blk(own(&b.0)), own(&h)))
    }

    async fn check_block(&self, _ctx: Context, height: u64, hash: Hash, block: Blk) -> Res<()> {
        let i = self.inst;
        with(|w| {
            crate::oracle::on_callback(w, i, "check_block");
            crate::oracle::on_check(w, i, height, &own(&hash), &own(&block.0));
        });
        let d = self.delay(with(|w| w.plan.app.check_us));
        self.pause(d).await;
        let hang = with(|w| {
            let p = w.plan.app.check_hang_ppm;
            if w.roll(p, "block check hangs") {
                20_000_000 + w.value(5, 60_000_000)
            } else {
                0
            }
        });
        self.pause(hang).await;
        let ok = with(|w| {
            let p = w.plan.app.check_err_ppm;
            let fail = w.roll(p, "block check failed");
            let ok = block.valid_for(height, &hash) && !fail;
            w.ev(7, i as u64, height, u64::from(ok), |_| {
                format!("i{i} check({height},{}) = {ok}", hx(&hash))
            });
            if ok {
                crate::oracle::on_check_passed(w, i, height, &own(&hash), &own(&block.0));
            } else {
                w.probe("block refused by the application");
            }
            ok
        });
        if point(i, self.node, Point::CheckDone) {
            return self.gone().await;
        }
        if ok {
            Ok(())
        } else {
            err("check_block")
        }
    }

    async fn commit(&self, _ctx: Context, height: u64, c: Commit<Blk>) -> Res<Status> {
        let i = self.inst;
        let c = with(|_| Commit {
            height: c.height,
            content: Blk(own(&c.content.0)),
            proof: if simrt::mem::on() { rlp::decode(&rlp::encode(&c.proof)).unwrap_or(c.proof) } else { c.proof },
        });
        if point(i, self.node, Point::CommitStart) {
            return self.gone().await;
        }
        with(|w| {
            let hs = hx(&c.proof.block_hash);
            w.ev(8, i as u64, height, mixb(&c.content.0), |_| {
                format!("i{i} commit({height},{hs} round {})", c.proof.round)
            });
            crate::oracle::on_callback(w, i, "commit");
            crate::pure::commit(w, &c);
            crate::oracle::on_commit(w, i, height, &c);
        });
        let base = with(|w| w.plan.app.commit_us);
        let d = self.delay(base);
        self.pause(d).await;
        let failed = with(|w| {
            let p = w.plan.app.commit_err_ppm;
            w.roll(p, "commit failed")
        });
        if failed {
            with(|w| crate::oracle::on_commit_failed(w, i, height));
            // The application recovers by itself: it stores the block a little later and tells
            // the node with a status.
            let node = self.node;
            let later = with(|w| 50_000 + w.value(6, 2_000_000));
            let stored = Stored {
                hash: c.proof.block_hash.clone(),
                content: c.content.0.clone(),
            };
            simrt::after(later * US, move || {
                let st = with(|w| {
                    if w.insts[i].node != node || !w.insts[i].alive {
                        return None;
                    }
                    if w.insts[i].height() + 1 == height {
                        w.insts[i].chain.push(stored);
                    }
                    let next = w.insts[i].height() + 1;
                    Some(w.status_for(next))
                });
                if let Some(st) = st {
                    send_status(i, st);
                }
            });
            return err("commit");
        }
        with(|w| {
            let inst = &mut w.insts[i];
            if inst.height() + 1 == height {
                inst.chain.push(Stored {
                    hash: c.proof.block_hash.clone(),
                    content: c.content.0.clone(),
                });
                w.state_hash();
            }
        });
        if point(i, self.node, Point::CommitDurable) {
            return self.gone().await;
        }
        let d = self.delay(base / 4);
        self.pause(d).await;
        if point(i, self.node, Point::CommitReturn) {
            return self.gone().await;
        }
        Ok(own_status(with(|w| {
            let next = w.insts[i].height() + 1;
            let st = w.status_for(next);
            crate::oracle::on_commit_return(w, i, height, &st);
            st
        })))
    }

    async fn get_authority_list(&self, _ctx: Context, height: u64) -> Res<Vec<Node>> {
        Ok(with(|w| w.list(height).nodes.clone()))
    }

    async fn broadcast_to_other(&self, _ctx: Context, msg: Msg) -> Res<()> {
        self.dispatch(None, msg).await
    }

    async fn transmit_to_relayer(&self, _ctx: Context, addr: Address, msg: Msg) -> Res<()> {
        self.dispatch(Some(addr), msg).await
    }

    fn report_error(&self, _ctx: Context, _error: ConsensusError) {
        let i = self.inst;
        with(|w| {
            w.probe("error reported");
            crate::oracle::on_callback(w, i, "report_error");
        });
    }

    fn report_view_change(&self, _ctx: Context, height: u64, round: u64, reason: ViewChangeReason) {
        let i = self.inst;
        with(|w| {
            w.reports += 1;
            let s = reason.to_string();
            w.ev(9, i as u64, height, round, |_| {
                format!("i{i} view change reported ({height},{round}): {s}")
            });
            crate::oracle::on_callback(w, i, "report_view_change");
            crate::oracle::on_report(w, i, height, round, &reason);
        });
    }
}

fn mixb(b: &[u8]) -> u64 {
    let mut h = 17u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Crypto for Stub {
    fn hash(&self, msg: Bytes) -> Hash {
        let d = h32(&msg);
        with(|w| crate::oracle::on_hash(w, self.inst, &own(&msg), &own(&d)));
        d
    }
    fn sign(&self, hash: Hash) -> Res<Signature> {
        let i = self.inst;
        with(|w| {
            crate::oracle::on_callback(w, i, "sign");
            let p = w.plan.app.sign_err_ppm;
            if w.roll(p, "signing failed") {
                crate::oracle::on_sign_failed(w, i);
                return err("sign");
            }
            let m = w.insts[i].member;
            crate::oracle::on_signed(w, i, &own(&hash));
            Ok(w.keys.sign(m, &hash))
        })
        .map(|s| own(&s))
    }
    fn aggregate_signatures(&self, sigs: Vec<Signature>, voters: Vec<Address>) -> Res<Signature> {
        let i = self.inst;
        let fail = with(|w| {
            let p = w.plan.app.sign_err_ppm;
            crate::oracle::on_callback(w, i, "aggregate");
            w.roll(p, "aggregating failed")
        });
        if fail || sigs.len() != voters.len() {
            return err("aggregate");
        }
        match Keys::aggregate(&sigs) {
            Some(s) => Ok(s),
            None => err("aggregate"),
        }
    }
    fn verify_signature(&self, sig: Signature, hash: Hash, voter: Address) -> Res<()> {
        let i = self.inst;
        with(|w| {
            crate::oracle::on_callback(w, i, "verify");
            if w.keys.verify(&sig, &hash, &voter) {
                Ok(())
            } else {
                w.probe("bad signature refused");
                err("bad signature")
            }
        })
    }
    fn verify_aggregated_signature(&self, sig: Signature, hash: Hash, voters: Vec<Address>) -> Res<()> {
        let i = self.inst;
        with(|w| {
            crate::oracle::on_callback(w, i, "verify_aggregate");
            if w.keys.verify_agg(&sig, &hash, &voters) {
                Ok(())
            } else {
                w.probe("bad aggregate refused");
                err("bad aggregate")
            }
        })
    }
}

#[async_trait]
impl Wal for Stub {
    async fn save(&self, info: Bytes) -> Res<()> {
        let i = self.inst;
        let info = with(|_| own(&info));
        if point(i, self.node, Point::WalStart) {
            return self.gone().await;
        }
        let (us, fail, durable, rec_step) = with(|w| {
            let rec = std::panic::catch_unwind(|| parse_rec(&info)).ok().flatten();
            let Some(rec) = rec else {
                if !w.insts[i].byz {
                    w.violate("R02", "unreadable-record", format!("i{i} saves a log record that does not decode"));
                }
                return (0, false, false, 0);
            };
            w.ev(10, i as u64, rec.h * 100 + rec.r, u64::from(rec.step), |w| {
                format!(
                    "i{i} log save ({},{},{}{})",
                    rec.h,
                    rec.r,
                    ["propose", "prevote", "precommit", "brake", "commit"][rec.step as usize],
                    rec.lock.as_ref().map_or(String::new(), |l| format!(
                        " lock {}@{}",
                        hx(&l.1.block_hash),
                        l.0
                    )) + if w.insts[i].byz { " (byz)" } else { "" }
                )
            });
            crate::oracle::on_callback(w, i, "wal_save");
            w.insts[i].view = (rec.h, rec.r, rec.step);
            w.state_hash();
            crate::pure::record(w, &info);
            crate::oracle::on_wal_attempt(w, i, &rec);
            let p = w.plan.wal.clone();
            let mut fail = w.roll(p.err_ppm, "log save failed");
            if !w.quiet && simrt::now() < w.insts[i].wal_fail_until {
                fail = true;
                w.count("log save failed");
            }
            let durable = fail && w.value(8, 1_000_000) < u64::from(p.err_durable_ppm);
            if !fail {
                w.insts[i].saving = Some(info.clone());
            }
            let us = if p.save_us == 0 { 0 } else { w.value(9, p.save_us * 2 + 1) };
            (us, fail, durable, rec.step)
        });
        self.pause(us / 2).await;
        if point(i, self.node, Point::WalMid) {
            return self.gone().await;
        }
        self.pause(us - us / 2).await;
        let late = with(|w| {
            let quiet = w.quiet;
            let inst = &mut w.insts[i];
            inst.saving = None;
            if !fail || durable {
                inst.wal = Some(info.clone());
            }
            let mut late = false;
            if fail {
                inst.wal_fails += 1;
                inst.unlogged |= rec_step == 4;
                // Under way when the faults stopped, so quiesce() saw nothing.
                late = quiet && rec_step == 4 && !inst.byz && inst.stop_at.is_none();
            } else {
                inst.acked = parse_rec(&info);
                if let Some(rec) = inst.acked.clone() {
                    crate::oracle::on_wal_saved(w, i, &rec);
                }
            }
            late
        });
        if late {
            let node = self.node;
            simrt::after(US, move || {
                if with(|w| w.insts[i].alive && w.insts[i].node == node && !w.stop_run) {
                    crash(i, 1000, "restart by the operator");
                }
            });
        }
        if point(i, self.node, Point::WalDone) {
            return self.gone().await;
        }
        if fail {
            return err("log save");
        }
        Ok(())
    }

    async fn load(&self) -> Res<Option<Bytes>> {
        let i = self.inst;
        with(|w| {
            crate::oracle::on_callback(w, i, "wal_load");
            let b = w.insts[i].wal.clone();
            let rec = b.as_ref().and_then(|b| {
                std::panic::catch_unwind(|| parse_rec(b)).ok().flatten()
            });
            w.insts[i].acked = rec.clone();
            crate::oracle::on_wal_load(w, i, rec);
            Ok(b)
        })
        .map(|b| b.map(|b| own(&b)))
    }
}

// ---------------------------------------------------------------- planned faults

pub fn apply_fault(k: Kind) {
    if with(|w| w.quiet || w.stop_run) {
        return;
    }
    match k {
        Kind::Crash { inst, down_us } => crash(inst, down_us, "crash"),
        Kind::CrashAt {
            inst,
            point,
            k,
            down_us,
        } => with(|w| w.insts[inst].crash_at.push((point, k, down_us))),
        Kind::Partition { groups, dur_us } => {
            let id = with(|w| {
                w.count("partition");
                w.ev(11, 0, 0, 0, |_| format!("PARTITION {groups:?}"));
                let id = simrt::now();
                w.partitions.push(Cutoff { from: id, groups });
                id
            });
            simrt::after(dur_us * US, move || {
                with(|w| {
                    w.partitions.retain(|p| p.from != id);
                    w.ev(11, 1, 0, 0, |_| "HEAL".into());
                })
            });
        }
        Kind::Cut { from, to, dur_us } => {
            with(|w| {
                w.count("one-way link cut");
                w.ev(12, from as u64, to as u64, 0, |_| format!("CUT i{from}->i{to}"));
                *w.cuts.entry((from, to)).or_insert(0) += 1;
            });
            simrt::after(dur_us * US, move || {
                with(|w| {
                    if let Some(c) = w.cuts.get_mut(&(from, to)) {
                        *c -= 1;
                        if *c == 0 {
                            w.cuts.remove(&(from, to));
                        }
                    }
                    w.ev(12, from as u64, to as u64, 1, |_| format!("MEND i{from}->i{to}"));
                })
            });
        }
        Kind::Isolate { inst, dur_us } => {
            with(|w| {
                w.count("node isolated");
                w.ev(13, inst as u64, 0, 0, |_| format!("ISOLATE i{inst}"));
                *w.isolated.entry(inst).or_insert(0) += 1;
            });
            simrt::after(dur_us * US, move || {
                with(|w| {
                    if let Some(c) = w.isolated.get_mut(&inst) {
                        *c -= 1;
                        if *c == 0 {
                            w.isolated.remove(&inst);
                        }
                    }
                    w.ev(13, inst as u64, 1, 0, |_| format!("REJOIN i{inst}"));
                })
            });
        }
        Kind::Pause { inst, dur_us } => {
            let node = with(|w| {
                if !w.insts[inst].alive || w.insts[inst].paused {
                    return None;
                }
                w.count("node stalled");
                w.ev(14, inst as u64, 0, 0, |_| format!("STALL i{inst}"));
                w.insts[inst].paused = true;
                Some(w.insts[inst].node)
            });
            if let Some(node) = node {
                simrt::pause_node(node);
                simrt::after(dur_us * US, move || resume(inst, node));
            }
        }
        Kind::Clock { inst, ppm } => with(|w| {
            if w.insts[inst].alive {
                w.count("clock speed changed");
                let node = w.insts[inst].node;
                simrt::set_clock(node, 0, ppm);
                w.ev(15, inst as u64, ppm as u64, 0, |_| format!("CLOCK i{inst} {ppm} ppm"));
            }
        }),
        Kind::Status { inst, delta } => {
            let st = with(|w| {
                if !w.insts[inst].alive {
                    return None;
                }
                let base = w.insts[inst].view.0.max(w.insts[inst].height() + 1) as i64;
                let h = (base + delta.min(0)).max(0) as u64;
                w.count("stale status");
                // A stale status may carry anything: it must not be looked at.
                let mut st = w.status_for(h.max(1));
                st.height = h;
                if h > crate::oracle::moved(w, inst) {
                    return Some(w.status_for(h)); // not certain to be stale
                }
                st.interval = Some(1 + w.value(11, 50));
                st.timer_config = Some(DurationConfig::new(1, 1, 1, 1));
                let m = w.insts[inst].member;
                st.authority_list = vec![Node::new(w.keys.addr[m].clone())];
                Some(st)
            });
            if let Some(st) = st {
                send_status(inst, st);
            }
        }
        Kind::Stop { inst } => {
            let got = with(|w| {
                if !w.insts[inst].alive || w.insts[inst].stop_at.is_some() {
                    return None;
                }
                w.count("stop requested");
                w.insts[inst].stop_at = Some(simrt::now());
                w.ev(16, inst as u64, 0, 0, |_| format!("STOP i{inst}"));
                w.insts[inst].handler.clone().map(|h| (h, w.insts[inst].node))
            });
            if let Some((h, node)) = got {
                simrt::enter(node, || {
                    let _ = h.send_msg(Context::new(), OverlordMsg::Stop);
                });
            }
        }
        Kind::Sync { inst } => sync(inst),
        Kind::RotWal { inst, at, xor } => with(|w| {
            if let Some(b) = w.insts[inst].wal.clone() {
                w.count("log byte flipped");
                let mut v = b.to_vec();
                let k = at as usize % v.len();
                v[k] ^= xor.max(1);
                w.insts[inst].wal = Some(Bytes::from(v));
            }
        }),
        Kind::WalFail { inst, dur_us } => with(|w| {
            w.count("log outage");
            w.insts[inst].wal_fail_until = simrt::now() + dur_us * US;
            w.ev(17, inst as u64, 0, 0, |_| format!("LOG OUTAGE i{inst}"));
        }),
    }
}

pub fn resume(inst: usize, node: u32) {
    let go = with(|w| {
        let i = &mut w.insts[inst];
        if i.node == node && i.paused {
            i.paused = false;
            i.resumed_at = simrt::now();
            w.ev(14, inst as u64, 1, 0, |_| format!("RESUME i{inst}"));
            return true;
        }
        false
    });
    if go {
        simrt::resume_node(node);
    }
}

/// Block synchronisation: copy what the best reachable correct peer has stored, tell the node.
pub fn sync(i: usize) {
    let st = with(|w| {
        if !w.insts[i].alive || w.insts[i].run_done.is_some() {
            return None;
        }
        let mine = w.insts[i].height();
        let mut best: Option<usize> = None;
        for j in 0..w.insts.len() {
            if j == i || !w.insts[j].alive || w.insts[j].byz || w.blocked(j, i) || w.blocked(i, j) {
                continue;
            }
            if w.insts[j].height() > mine
                && best.is_none_or(|b| w.insts[b].height() < w.insts[j].height())
            {
                best = Some(j);
            }
        }
        let j = best?;
        let more: Vec<Stored> = w.insts[j].chain[mine as usize..].to_vec();
        let to = mine + more.len() as u64;
        w.insts[i].chain.extend(more);
        w.insts[i].synced_to = to;
        w.count("block synchronisation");
        w.ev(18, i as u64, to, 0, |_| format!("i{i} app: synchronised {mine} -> {to} from i{j}"));
        w.state_hash();
        // The statuses of the heights in between may come as well, before or late.
        let mut all = vec![w.status_for(to + 1)];
        if !w.quiet && to > mine + 1 {
            match w.value(12, 4) {
                0 => {
                    w.count("status of every height passed over");
                    all = (mine + 2..=to + 1).map(|h| w.status_for(h)).collect();
                }
                1 => {
                    w.count("late status of a height passed over");
                    let h = mine + 2 + w.value(13, to - mine - 1);
                    all.push(w.status_for(h));
                }
                _ => {}
            }
        }
        Some(all)
    });
    for st in st.into_iter().flatten() {
        send_status(i, st);
    }
}

/// End of the fault window: everything heals, everyone is up.
pub fn quiesce() {
    let (paused, down, unlogged) = with(|w| {
        w.quiet = true;
        w.ev(19, 0, 0, 0, |_| "QUIESCE".into());
        w.cuts.clear();
        w.isolated.clear();
        w.partitions.clear();
        let paused: Vec<(usize, u32)> = w
            .insts
            .iter()
            .filter(|i| i.paused)
            .map(|i| (i.id, i.node))
            .collect();
        let mut down = Vec::new();
        for i in &w.insts {
            let runs = !i.byz || w.plan.byz_mode != ByzMode::Silent;
            if !i.alive && runs && !w.plan.absent.contains(&i.id) {
                down.push(i.id);
            }
        }
        // A node that could not log its decision is restarted by its operator.
        let unlogged: Vec<usize> = w
            .insts
            .iter()
            .filter(|i| i.alive && !i.byz && i.unlogged && i.stop_at.is_none())
            .map(|i| i.id)
            .collect();
        (paused, down, unlogged)
    });
    for i in unlogged {
        crash(i, 1000, "restart by the operator");
    }
    for (i, n) in paused {
        resume(i, n);
    }
    for i in down {
        start(i);
    }
}
