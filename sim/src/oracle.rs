//! What must hold, judged while the run proceeds. The oracle sees every callback of every node,
//! every durable record and everything anybody really signed.

use crate::model::*;
use crate::plan::Kind;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// Everything that was really signed, by whomever.
#[derive(Default)]
pub struct Ledger {
    pub votes: BTreeMap<(u64, u64, u8), BTreeMap<Hash, BTreeSet<usize>>>,
    pub props: BTreeMap<(u64, u64), Vec<(usize, Hash, Bytes)>>,
    pub chokes: BTreeMap<(u64, u64), BTreeSet<usize>>,
}

impl Ledger {
    pub fn vote(&mut self, m: usize, h: u64, r: u64, ty: u8, hash: &Hash) {
        self.votes
            .entry((h, r, ty))
            .or_default()
            .entry(hash.clone())
            .or_default()
            .insert(m);
    }
    pub fn choke(&mut self, m: usize, h: u64, r: u64) {
        self.chokes.entry((h, r)).or_default().insert(m);
    }
    pub fn prop(&mut self, m: usize, h: u64, r: u64, hash: &Hash, content: &Bytes) {
        let v = self.props.entry((h, r)).or_default();
        if !v.iter().any(|x| x.0 == m && x.1 == *hash && x.2 == *content) {
            v.push((m, hash.clone(), content.clone()));
        }
    }
    pub fn quorum(&self, list: &List, h: u64, r: u64, ty: u8, hash: &Hash) -> bool {
        self.votes
            .get(&(h, r, ty))
            .and_then(|m| m.get(hash))
            .is_some_and(|s| list.quorum(s))
    }
    fn any_quorum(&self, list: &List, h: u64, r: u64, ty: u8, f: impl Fn(&Hash) -> bool) -> bool {
        self.votes
            .get(&(h, r, ty))
            .is_some_and(|m| m.iter().any(|(k, s)| f(k) && list.quorum(s)))
    }
    fn voted(&self, m: usize, h: u64, r: u64, ty: u8, hash: &Hash) -> bool {
        self.votes
            .get(&(h, r, ty))
            .and_then(|x| x.get(hash))
            .is_some_and(|s| s.contains(&m))
    }
}

#[derive(Default)]
pub struct NodeO {
    // --- this run
    cur: Option<(u64, u64)>,
    reported: Option<(u64, u64)>,
    attempt_max: (u64, u64),
    acted_now: (u64, u64),
    moved_max: u64,
    /// Log saves begun, messages sent and decisions handed over since the start.
    acts: u64,
    sign_failed: bool,
    last_commit: Option<u64>,
    start_h: BTreeMap<u64, u64>,
    /// When it first logged a round, and what it has sent of it: proposals, prevotes, precommits,
    /// chokes, prevote and precommit certificates.
    round_at: BTreeMap<(u64, u64), u64>,
    /// Local time of the last record written in this run (or of its start): a
    /// round is entered no earlier.
    wrote: u64,
    sent: BTreeMap<(u64, u64), [u32; 6]>,
    commit_ret: BTreeMap<u64, u64>,
    /// When it last began a round or was handed a proposal (local time), and the latest moment
    /// pacing may let it begin a height.
    last_move: u64,
    pace_end: BTreeMap<u64, u64>,
    from_proposal: BTreeSet<(u64, u64)>,
    /// Proposals of rounds, and certificates (type, height, round, of a block), that reached it or
    /// that it made, and those of its own.
    props_got: BTreeMap<(u64, u64), BTreeSet<Hash>>,
    certs_got: BTreeSet<(u8, u64, u64, bool)>,
    certs_sent: BTreeSet<(u8, u64, u64, bool)>,
    reason: Option<(u64, u64, ViewChangeReason)>,
    /// Sound proposals (signature and lock proof) it was ever handed.
    handed: BTreeSet<(u64, u64, Hash)>,
    /// Blocks it may ask its application about: proposed to it soundly, or made by itself.
    offered: BTreeSet<(u64, Hash, Bytes)>,
    made: BTreeSet<(u64, Hash, Bytes)>,
    pend_status: Option<(u64, u32)>,
    /// Heights told through the handler in this run: the highest, and for each whether any of the
    /// statuses for it came before a higher one.
    told_max: u64,
    told: BTreeMap<u64, bool>,
    pend_redeliver: Option<(u64, Hash)>,
    pub in_flight: u32,
    timing: Timing,
    mem: crate::early::Mem,
    // --- all runs
    votes: BTreeMap<(u64, u64, u8), Hash>,
    props: BTreeMap<(u64, u64), Bytes>,
    precommits: BTreeMap<u64, Vec<(u64, Hash, u32)>>,
    acted_before: (u64, u64),
    checks: BTreeSet<(u64, Hash)>,
    saved: BTreeMap<(u64, u64), u8>,
    got: BTreeSet<(u8, u64, u64)>,
    recent: VecDeque<(Hash, Bytes)>,
    pub commits: u64,
}

#[derive(Default, Clone)]
struct Timing {
    at: (u64, u64),
    start: Option<u64>,
    prevote: Option<u64>,
    precommit: Option<u64>,
    choke: Option<u64>,
    restarted: bool,
}

pub struct Oracle {
    pub rolled: Vec<u64>,
    pub ledger: Ledger,
    pub nodes: Vec<NodeO>,
    pub decided: BTreeMap<u64, (Hash, Bytes, usize)>,
    /// Who (correct) accepted what.
    accepted: BTreeMap<(u64, Hash, Bytes), BTreeSet<usize>>,
    /// Certificates sent by correct nodes.
    certs: BTreeMap<(u64, u64, u8), (Hash, usize)>,
    qc_seen: BTreeSet<Bytes>,
    pub max_round: u64,
    pub commit_rounds: BTreeMap<u64, u64>,
    pub decided_round_max: BTreeMap<u64, u64>,
}

impl Oracle {
    pub fn new(_n: usize, insts: usize) -> Oracle {
        Oracle {
            rolled: Vec::new(),
            ledger: Ledger::default(),
            nodes: (0..insts).map(|_| NodeO::default()).collect(),
            decided: BTreeMap::new(),
            accepted: BTreeMap::new(),
            certs: BTreeMap::new(),
            qc_seen: BTreeSet::new(),
            max_round: 0,
            commit_rounds: BTreeMap::new(),
            decided_round_max: BTreeMap::new(),
        }
    }
}

fn judged(w: &World, i: usize) -> bool {
    !w.insts[i].byz
}
fn local(w: &World, i: usize) -> u64 {
    simrt::local_now(w.insts[i].node)
}
fn name(i: usize) -> String {
    format!("i{i}")
}

// ---------------------------------------------------------------- signing

pub fn on_hash(w: &mut World, i: usize, msg: &Bytes, digest: &Hash) {
    let q = &mut w.oracle.nodes[i].recent;
    if q.len() >= 8 {
        q.pop_front();
    }
    q.push_back((digest.clone(), msg.clone()));
}

pub fn on_signed(w: &mut World, i: usize, digest: &Hash) {
    let m = w.insts[i].member;
    let Some(bytes) = w.oracle.nodes[i]
        .recent
        .iter()
        .rev()
        .find(|x| x.0 == *digest)
        .map(|x| x.1.clone())
    else {
        return;
    };
    let r = rlp::Rlp::new(&bytes);
    match r.item_count() {
        Ok(2) => {
            if let (Ok(h), Ok(rd)) = (r.val_at::<u64>(0), r.val_at::<u64>(1)) {
                w.oracle.ledger.choke(m, h, rd);
            }
        }
        Ok(4) => {
            if let Ok(v) = rlp::decode::<Vote>(&bytes) {
                w.oracle
                    .ledger
                    .vote(m, v.height, v.round, ty_num(&v.vote_type), &v.block_hash);
            }
        }
        Ok(6) => {
            if let Ok(p) = rlp::decode::<Proposal<Blk>>(&bytes) {
                w.oracle
                    .ledger
                    .prop(m, p.height, p.round, &p.block_hash, &p.content.0);
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- evidence

/// Did enough members really leave round `r - 1` of height `h`?
fn round_evidence(w: &mut World, h: u64, r: u64) -> bool {
    if r == 0 {
        return true;
    }
    let list = w.list(h);
    let l = &w.oracle.ledger;
    if let Some(c) = l.chokes.get(&(h, r - 1)) {
        if list.count_quorum(c) {
            return true;
        }
    }
    l.quorum(&list, h, r - 1, 2, &Hash::new()) || l.any_quorum(&list, h, r - 1, 1, |_| true)
}

/// The block this node is bound to when acting at (h, r): it precommitted it at an earlier round
/// and no quorum has really prevoted anything else since.
fn bound_to(w: &mut World, i: usize, h: u64, r: u64) -> Option<(u64, Hash, u32)> {
    let list = w.list(h);
    let pcs = w.oracle.nodes[i].precommits.get(&h)?.clone();
    for (r0, x, inc) in pcs {
        if r0 > r {
            continue;
        }
        let l = &w.oracle.ledger;
        if l
            .votes
            .range((h, r0, 0)..=(h, r, 9))
            .any(|(k, m)| k.2 == 1 && m.iter().any(|(z, s)| *z != x && list.quorum(s)))
        {
            continue;
        }
        return Some((r0, x, inc));
    }
    None
}

fn check_qc(w: &mut World, i: usize, qc: &AggregatedVote, what: &str, sent: bool) {
    let me = name(i);
    let ty = ty_num(&qc.vote_type);
    let enc = Bytes::from(rlp::encode(qc).to_vec());
    if sent {
        let key = (qc.height, qc.round, ty);
        match w.oracle.certs.get(&key) {
            Some((h, j)) if *h != qc.block_hash => {
                let m = format!(
                    "{me} and i{j} sent certificates of type {ty} for ({},{}) on {} and {}",
                    qc.height,
                    qc.round,
                    hx(&qc.block_hash),
                    hx(h)
                );
                w.violate("S10", "two-certificates", m);
            }
            None => {
                w.oracle.certs.insert(key, (qc.block_hash.clone(), i));
            }
            _ => {}
        }
    }
    if w.oracle.qc_seen.contains(&enc) {
        return;
    }
    let list = w.list(qc.height);
    let keys = w.keys.clone();
    match qc_ok(&keys, &list, qc) {
        Err(e) => {
            let m = format!(
                "{me} sent as {what} a type {ty} certificate for ({},{},{}) that does not verify: {e}",
                qc.height,
                qc.round,
                hx(&qc.block_hash)
            );
            if w.plan.epochs.len() > 1 {
                w.violate("M01", "wrong-quorum", m.clone());
            }
            w.violate("S10", "unsound-certificate", m);
        }
        Ok(who) => {
            crate::pure::voters(w, qc.height, &qc.signature.address_bitmap, &who, what);
            for m in who {
                if !w
                    .oracle
                    .ledger
                    .voted(m, qc.height, qc.round, ty, &qc.block_hash)
                {
                    w.violate(
                        "S10",
                        "voter-never-signed",
                        format!(
                            "{me} sent as {what} a certificate for ({},{},{}) naming m{m}, who never signed that",
                            qc.height,
                            qc.round,
                            hx(&qc.block_hash)
                        ),
                    );
                    return;
                }
            }
            w.oracle.qc_seen.insert(enc);
        }
    }
}

fn got_from(n: &mut NodeO, from: &UpdateFrom) {
    if let UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) = from {
        if !is_mock(q) {
            n.certs_got.insert((ty_num(&q.vote_type), q.height, q.round, !q.block_hash.is_empty()));
        }
    }
}

fn is_mock(qc: &AggregatedVote) -> bool {
    qc.height == 0 && qc.signature.address_bitmap.is_empty() && qc.block_hash.is_empty()
}

// ---------------------------------------------------------------- life cycle

pub fn on_start(w: &mut World, i: usize) {
    let chain = w.insts[i].height();
    let lt = local(w, i);
    let n = &mut w.oracle.nodes[i];
    n.acted_before = n.acted_before.max(n.acted_now);
    n.acted_now = (0, 0);
    n.cur = if chain > 0 { Some((chain + 1, 0)) } else { None };
    n.reported = None;
    n.attempt_max = (0, 0);
    n.moved_max = 0;
    n.acts = 0;
    n.sign_failed = false;
    n.last_commit = None;
    n.start_h.clear();
    n.round_at.clear();
    n.wrote = lt;
    n.sent.clear();
    n.commit_ret.clear();
    n.last_move = lt;
    n.pace_end.clear();
    n.from_proposal.clear();
    n.props_got.clear();
    n.certs_got.clear();
    n.certs_sent.clear();
    n.reason = None;
    n.pend_status = None;
    n.told_max = 0;
    n.told.clear();
    n.pend_redeliver = None;
    n.in_flight = 0;
    n.timing = Timing::default();
    n.mem = Default::default();
}

pub fn mem(w: &mut World, i: usize) -> &mut crate::early::Mem {
    &mut w.oracle.nodes[i].mem
}
/// The round of height `h` the node is in, as far as its log and reports show.
pub fn round_of(w: &World, i: usize, h: u64) -> Option<u64> {
    let n = &w.oracle.nodes[i];
    n.cur.filter(|c| c.0 == h).map(|c| c.1)
}
pub fn committed(w: &World, i: usize, h: u64) -> bool {
    w.oracle.nodes[i].last_commit.is_some_and(|c| c >= h)
}

/// The highest height the node is known to have moved to in this run.
pub fn moved(w: &World, i: usize) -> u64 {
    w.oracle.nodes[i].moved_max
}

pub fn on_crash(w: &mut World, i: usize) {
    let n = &mut w.oracle.nodes[i];
    n.pend_status = None;
    n.pend_redeliver = None;
}

pub fn on_wal_load(w: &mut World, i: usize, rec: Option<Rec>) {
    if !judged(w, i) {
        return;
    }
    let chain = w.insts[i].height();
    let Some(rec) = rec else {
        if w.insts[i].wal.is_none() && chain > 0 {
            // it is at its height from the start
            w.probe("start without a log above the first height");
            let n = &mut w.oracle.nodes[i];
            n.moved_max = n.moved_max.max(chain + 1);
            if n.pend_status.is_some_and(|p| p.0 <= chain + 1) {
                n.pend_status = None;
            }
        }
        return;
    };
    let member = w.insts[i].member;
    let inc = w.insts[i].inc;
    let on_list = w.list(rec.h).has(member);
    let now = simrt::now();
    {
        let n = &mut w.oracle.nodes[i];
        if let Some((_, q, _)) = &rec.lock {
            n.certs_got.insert((ty_num(&q.vote_type), q.height, q.round, !q.block_hash.is_empty()));
        }
        got_from(n, &rec.from);
        let e = n.saved.entry((rec.h, rec.r)).or_insert(0);
        *e = (*e).max(rec.step);
        n.cur = Some((rec.h, rec.r));
        n.moved_max = n.moved_max.max(rec.h);
        if n.pend_status.is_some_and(|p| p.0 <= rec.h) {
            n.pend_status = None;
        }
        n.attempt_max = (rec.h, rec.r);
        n.timing.at = (rec.h, rec.r);
        n.timing.restarted = true;
        match rec.step {
            0 => n.timing.start = Some(now),
            1 => n.timing.prevote = Some(now),
            2 => n.timing.precommit = Some(now),
            _ => {}
        }
    }
    if rec.step < 4 && on_list && w.list(chain + 1).has(member) {
        takes_part_again(w, i, &rec);
    }
    if rec.step == 4 && chain + 1 == rec.h && on_list {
        if let Some((_, qc, _)) = &rec.lock {
            w.probe("restart with a logged decision the application lacks");
            let hash = qc.block_hash.clone();
            let h = rec.h;
            w.oracle.nodes[i].pend_redeliver = Some((h, hash));
            let bound = redeliver_bound(w);
            simrt::after(bound, move || {
                with(|w| {
                    let inst = &w.insts[i];
                    if inst.inc != inc
                        || !inst.alive
                        || inst.paused
                        || inst.stop_at.is_some()
                        || inst.wal_fails > 0
                        || inst.height() >= h
                        || w.plan.faults.iter().any(|f| matches!(f.kind, Kind::Pause { .. }))
                    {
                        return;
                    }
                    if w.oracle.nodes[i].pend_redeliver.as_ref().is_some_and(|x| x.0 == h) {
                        w.violate(
                            "R02",
                            "decision-forgotten",
                            format!("i{i} had logged its decision of height {h}, restarted, and never handed it to the application again"),
                        );
                    }
                });
            });
        }
    }
}

/// A vote, an abandonment, a record: something has to come of a node that goes on from its log,
/// at the latest when the timers of the round and its repeated abandonments are due.
fn takes_part_again(w: &mut World, i: usize, rec: &Rec) {
    let slow = |k: &Kind| matches!(k, Kind::Pause { .. } | Kind::Clock { .. });
    if w.plan.faults.iter().any(|f| slow(&f.kind)) {
        return;
    }
    w.probe("restart in the middle of a round");
    let (inc, h, r, step) = (w.insts[i].inc, rec.h, rec.r, rec.step);
    let chain = w.insts[i].height();
    let epochs: Vec<u64> = w.plan.epochs.iter().map(|e| e.from).collect();
    let round: u64 = epochs
        .iter()
        .map(|e| {
            let t = timeouts(w, *e, r);
            t[0] + t[1] + t[2] + 6 * t[3]
        })
        .max()
        .unwrap_or(0);
    let bound = 2 * round + redeliver_bound(w);
    simrt::after(bound, move || {
        with(|w| {
            let inst = &w.insts[i];
            let n = &w.oracle.nodes[i];
            if inst.inc == inc && inst.alive && !inst.paused && inst.stop_at.is_none() && inst.height() == chain && n.told_max <= h && n.acts == 0 && !n.sign_failed && judged(w, i) {
                // (a node told of a height without it has nothing left to do)
                w.violate("R02", "mute-after-restart", format!("i{i} was restarted at ({h},{r}) step {step} of its log {} us ago and has neither voted nor abandoned the round nor written to its log since", bound / US));
            }
        });
    });
}

pub fn on_sign_failed(w: &mut World, i: usize) {
    w.oracle.nodes[i].sign_failed = true;
}

fn redeliver_bound(w: &World) -> u64 {
    2 * SEC + 400 * US * (w.plan.app.send_us + w.plan.wal.save_us)
}

pub fn on_run_returned(w: &mut World, i: usize) {
    if !judged(w, i) {
        return;
    }
    if w.insts[i].stop_at.is_none() {
        w.violate("R05", "run-returned", format!("i{i}: run returned although nobody stopped the node"));
    }
}

/// A callback of the node is being invoked.
pub fn on_callback(w: &mut World, i: usize, what: &'static str) {
    if !judged(w, i) {
        return;
    }
    if let Some(t) = w.insts[i].run_done {
        let grace = w.plan.rt.jitter_us * US * 4 + 5 * MS;
        if simrt::now() > t + grace
            && !w.plan.faults.iter().any(|f| matches!(f.kind, Kind::Pause { .. }))
        {
            w.violate(
                "R04",
                "activity-after-stop",
                format!(
                    "i{i} invoked {what} {} us after its run had returned",
                    (simrt::now() - t) / US
                ),
            );
        } else if what == "send" || what == "commit" || what == "wal_save" {
            w.violate("R04", "activity-after-stop", format!("i{i} invoked {what} after its run had returned"));
        }
    }
}

// ---------------------------------------------------------------- statuses

/// Statuses given through the handler take effect in the order given.
pub fn on_told(w: &mut World, i: usize, st: &Status) {
    let n = &mut w.oracle.nodes[i];
    let in_order = st.height > n.told_max;
    n.told_max = n.told_max.max(st.height);
    *n.told.entry(st.height).or_insert(false) |= in_order;
    if in_order {
        on_status(w, i, st);
    }
}

pub fn on_status(w: &mut World, i: usize, st: &Status) {
    if !judged(w, i) {
        return;
    }
    let h = st.height;
    let member = w.insts[i].member;
    if h <= w.oracle.nodes[i].moved_max || !w.list(h).has(member) {
        return;
    }
    if w.oracle.nodes[i].pend_status.is_some_and(|p| p.0 >= h) {
        return;
    }
    let inc = w.insts[i].inc;
    w.oracle.nodes[i].pend_status = Some((h, inc));
    let a = w.plan.app.clone();
    if a.slow_ppm > 0 || w.plan.faults.iter().any(|f| matches!(f.kind, Kind::Pause { .. })) {
        return; // a node may then be held up for long by its own callbacks
    }
    if h > 0 && !w.list(h - 1).has(member) {
        w.probe("a node is told of a height whose list adds it");
    }
    let longest = w.plan.epochs.iter().filter_map(|e| e.interval).max().unwrap_or(0).max(w.plan.interval);
    let bound = 5 * SEC + 3 * longest * MS + 100 * US * (a.get_us + a.commit_us + a.send_us + w.plan.wal.save_us);
    simrt::after(bound, move || {
        with(|w| {
            let inst = &w.insts[i];
            if inst.inc != inc || !inst.alive || inst.stop_at.is_some() || inst.run_done.is_some() {
                return;
            }
            if w.oracle.nodes[i].pend_status == Some((h, inc)) {
                if h > 0 && !w.list(h - 1).has(member) {
                    w.violate("M01", "added-idle", format!("i{i} is added by the list of height {h}, was told of it, and did not start the height"));
                }
                w.violate(
                    "H01",
                    "status-ignored",
                    format!("i{i} was told status({h}) and did not start height {h}"),
                );
            }
        });
    });
}

// ---------------------------------------------------------------- log

pub fn on_wal_attempt(w: &mut World, i: usize, rec: &Rec) {
    if !judged(w, i) {
        return;
    }
    w.oracle.nodes[i].acts += 1;
    let (h, r) = (rec.h, rec.r);
    let me = name(i);
    w.oracle.max_round = w.oracle.max_round.max(r);
    // heights and rounds never go back
    let am = w.oracle.nodes[i].attempt_max;
    if (h, r) < am {
        let prop = if h < am.0 { "H01" } else { "R02" };
        w.violate(
            prop,
            "record-goes-back",
            format!("{me} logs ({h},{r}) after it was at ({},{})", am.0, am.1),
        );
    }
    w.oracle.nodes[i].attempt_max = am.max((h, r));
    let lt = local(w, i);
    let n = &mut w.oracle.nodes[i];
    let earliest = n.wrote;
    n.round_at.entry((h, r)).or_insert(earliest);
    n.wrote = lt;
    if rec.step == 0 {
        reason_and_from(w, i, rec);
        // entering a round
        let lt = local(w, i);
        w.oracle.nodes[i].last_move = lt;
        if r == 0 {
            let n = &mut w.oracle.nodes[i];
            n.moved_max = n.moved_max.max(h);
            n.start_h.entry(h).or_insert(lt);
            if n.told.get(&h) == Some(&false) && (h == 0 || !n.commit_ret.contains_key(&(h - 1))) && h < n.told_max {
                let m = n.told_max;
                w.violate("H01", "late-status-obeyed", format!("{me} starts height {h} on a status that came after the one for {m}"));
            }
            let n = &mut w.oracle.nodes[i];
            if n.pend_status.is_some_and(|p| p.0 <= h) {
                n.pend_status = None;
            }
        }
        let n = &w.oracle.nodes[i];
        match n.cur {
            Some((ch, cr)) if ch == h && cr != r => match n.reported {
                Some((rh, _)) if rh == h => {}
                _ => {
                    w.violate(
                        "V01",
                        "silent-view-change",
                        format!("{me} went from round {cr} to round {r} of height {h} without a report"),
                    );
                }
            },
            Some((ch, _)) if ch != h && r != 0 => {
                w.violate(
                    "V01",
                    "wrong-first-round",
                    format!("{me} entered height {h} at round {r}"),
                );
            }
            _ => {}
        }
        if let Some((rh, rr)) = w.oracle.nodes[i].reported {
            if rh == h && rr == r {
                w.violate("V01", "gave-up-and-stayed", format!("{me} reported giving up ({h},{r}) and entered it again"));
            }
        }
        let n = &mut w.oracle.nodes[i];
        n.reported = None;
        n.cur = Some((h, r));
        if r > 0 && !round_evidence(w, h, r) {
            w.violate(
                "S09",
                "round-without-evidence",
                format!("{me} entered ({h},{r}) although no quorum had left round {}", r - 1),
            );
        }
        let member = w.insts[i].member;
        if !w.list(h).has(member) {
            w.violate("M01", "non-member-acts", format!("{me} starts ({h},{r}) though it is no member there"));
        }
        timing_round(w, i, h, r);
        crate::early::on_enter(w, i, h, r);
    }
    if let 1 | 2 = rec.step {
        crate::early::on_voted(w, i, h, r, rec.step);
    }
    match rec.step {
        1 | 2 => timing_vote(w, i, h, r, rec.step),
        3 => timing_choke(w, i, h, r),
        _ => {}
    }
    // what it is bound to must be in the record
    if let Some((r0, x, _)) = bound_to(w, i, h, r) {
        let keys = w.keys.clone();
        let list = w.list(h);
        let bad = match &rec.lock {
            None => Some("holds no block".to_string()),
            Some((_, qc, content)) => {
                if rec.step == 4 && ty_num(&qc.vote_type) == 2 && qc.height == h && h32(content) == qc.block_hash && qc_ok(&keys, &list, qc).is_ok() {
                    // a decision, perhaps of a later round, replaces the lock
                    None
                } else if qc.block_hash != x {
                    Some(format!("holds {}", hx(&qc.block_hash)))
                } else if h32(content) != x {
                    Some("holds other content".to_string())
                } else if qc.height != h {
                    Some("holds a certificate of another height".to_string())
                } else {
                    qc_ok(&keys, &list, qc).err()
                }
            }
        };
        if let Some(b) = bad {
            w.violate(
                "R01",
                "lock-not-logged",
                format!(
                    "{me} precommitted {} at ({h},{r0}), is still bound to it, and its record ({h},{r},{}) {b}",
                    hx(&x),
                    rec.step
                ),
            );
        }
    }
}

pub fn on_wal_saved(w: &mut World, i: usize, rec: &Rec) {
    let lt = local(w, i);
    let n = &mut w.oracle.nodes[i];
    if rec.step == 0 {
        n.last_move = lt;
    }
    let e = n.saved.entry((rec.h, rec.r)).or_insert(0);
    *e = (*e).max(rec.step);
}

// ---------------------------------------------------------------- messages

/// Something binding at (h, r, step) leaves the node.
fn on_act(w: &mut World, i: usize, h: u64, r: u64, step: u8, what: &str) {
    let me = name(i);
    let member = w.insts[i].member;
    if !w.list(h).has(member) {
        w.violate("M01", "non-member-acts", format!("{me} sent a {what} at ({h},{r}) though it is no member there"));
    }
    let acked = w.insts[i].acked.clone();
    let n = &w.oracle.nodes[i];
    let saved = n.saved.get(&(h, r)).copied();
    if saved.is_none_or(|s| s < step) {
        w.violate(
            "R01",
            "sent-before-logged",
            format!("{me} sent a {what} at ({h},{r}); logged there: step {saved:?}, needed {step}"),
        );
    } else if acked.as_ref().is_none_or(|a| (a.h, a.r, a.step) < (h, r, step)) {
        w.violate(
            "R01",
            "log-behind",
            format!("{me} sent a {what} at ({h},{r}) but its log is at {:?}", acked.map(|a| (a.h, a.r, a.step))),
        );
    }
    let n = &w.oracle.nodes[i];
    let (before, now, moved) = (n.acted_before, n.acted_now, n.moved_max);
    if (h, r) < before {
        w.violate(
            "R02",
            "acts-in-the-past",
            format!("{me} sent a {what} at ({h},{r}) although it had acted at ({},{}) before its restart", before.0, before.1),
        );
    }
    if h < now.0 || h < moved {
        w.violate(
            "H01",
            "height-went-back",
            format!("{me} sent a {what} at height {h} after moving to height {}", now.0.max(moved)),
        );
    } else if (h, r) < now {
        w.violate("R02", "round-went-back", format!("{me} sent a {what} at ({h},{r}) after ({},{})", now.0, now.1));
    }
    let n = &mut w.oracle.nodes[i];
    n.acted_now = n.acted_now.max((h, r));
    if n.reported.is_none() {
        if let Some(c) = n.cur {
            if c != (h, r) {
                w.violate(
                    "V01",
                    "silent-view-change",
                    format!("{me} sent a {what} at ({h},{r}) though by its reports it is at ({},{})", c.0, c.1),
                );
            }
        }
    }
    if r > 0 && !round_evidence(w, h, r) {
        w.violate(
            "S09",
            "round-without-evidence",
            format!("{me} sent a {what} at ({h},{r}) although no quorum had left round {}", r - 1),
        );
    }
}

fn on_vote(w: &mut World, i: usize, h: u64, r: u64, ty: u8, x: &Hash) {
    let me = name(i);
    let tn = if ty == 1 { "prevote" } else { "precommit" };
    let member = w.insts[i].member;
    w.oracle.ledger.vote(member, h, r, ty, x);
    if !judged(w, i) {
        return;
    }
    on_act(w, i, h, r, ty, tn);
    let list = w.list(h);
    match w.oracle.nodes[i].votes.get(&(h, r, ty)) {
        Some(y) if y != x => {
            let m = format!("{me} sent {tn}s for {} and for {} at ({h},{r})", hx(y), hx(x));
            w.violate("S04", "equivocation", m);
        }
        Some(_) => return,
        None => {
            w.oracle.nodes[i].votes.insert((h, r, ty), x.clone());
        }
    }
    if x.is_empty() {
        if ty == 1 {
            let own = w.oracle.nodes[i].precommits.get(&h).is_some_and(|v| !v.is_empty());
            let logged = w.insts[i].acked.as_ref().is_some_and(|a| a.h == h && a.lock.is_some());
            crate::early::on_nil_prevote(w, i, h, r, own || logged);
        }
        return;
    }
    // bound to another block?
    if r > 0 {
        if let Some((r0, y, inc)) = bound_to(w, i, h, r) {
            if r0 < r && y != *x {
                let m = format!(
                    "{me} precommitted {} at ({h},{r0}) and now sent a {tn} for {} at round {r}; no quorum had prevoted anything else since",
                    hx(&y),
                    hx(x)
                );
                if inc != w.insts[i].inc {
                    w.violate("R02", "lock-forgotten", m.clone());
                }
                w.violate("S06", "lock-broken", m);
            }
        }
    }
    if ty == 1 {
        let leader = list.leader(&w.keys, h, r);
        let l = &w.oracle.ledger;
        let proposed = l
            .props
            .get(&(h, r))
            .is_some_and(|v| v.iter().any(|p| p.0 == leader && p.1 == *x));
        // bound to it: by a precommit of its own, or by what its log holds
        let quorum = l
            .votes
            .range((h, 0, 0)..(h, r, 0))
            .any(|(k, m)| k.2 == 1 && m.get(x).is_some_and(|s| list.quorum(s)));
        let own = w.oracle.nodes[i].precommits.get(&h).is_some_and(|v| v.iter().any(|p| p.0 < r && p.1 == *x));
        let logged = w.insts[i]
            .acked
            .as_ref()
            .is_some_and(|a| a.h == h && a.lock.as_ref().is_some_and(|k| k.1.block_hash == *x));
        let carried = quorum && (own || logged);
        if !proposed && !carried {
            w.violate(
                "S11",
                "prevote-from-nowhere",
                format!("{me} prevoted {} at ({h},{r}) though m{leader} never proposed it there and it is not bound to it", hx(x)),
            );
        }
        let me_leads = leader == member;
        if proposed && !carried && !me_leads && !w.oracle.nodes[i].handed.contains(&(h, r, x.clone())) {
            w.violate(
                "S11",
                "prevote-on-unsound-proposal",
                format!("{me} prevoted {} at ({h},{r}) though no proposal of it with the leader's signature and, if any, a genuine lock proof reached it, and it is not bound to it", hx(x)),
            );
        }
        if proposed && !carried {
            w.oracle.nodes[i].from_proposal.insert((h, r));
        }
    } else {
        let l = &w.oracle.ledger;
        let q = l.quorum(&list, h, r, 1, x) || (r > 0 && l.quorum(&list, h, r - 1, 1, x));
        if !q {
            w.violate(
                "S07",
                "precommit-without-quorum",
                format!("{me} precommitted {} at ({h},{r}) without a prevote quorum for it", hx(x)),
            );
        }
        if !w.oracle.nodes[i].checks.contains(&(h, x.clone())) {
            w.violate(
                "S08",
                "precommit-unchecked",
                format!("{me} precommitted {} at ({h},{r}) though its application had not accepted it", hx(x)),
            );
        }
        let keys = w.keys.clone();
        let ok = match w.insts[i].acked.as_ref().and_then(|a| a.lock.as_ref()) {
            None => Err("no block".to_string()),
            Some((_, qc, content)) => {
                if qc.block_hash != *x {
                    Err(format!("block {}", hx(&qc.block_hash)))
                } else if h32(content) != *x {
                    Err("other content".into())
                } else {
                    qc_ok(&keys, &list, qc).map(|_| ())
                }
            }
        };
        if let Err(e) = ok {
            w.violate(
                "R01",
                "lock-not-logged",
                format!("{me} precommitted {} at ({h},{r}) while its log holds: {e}", hx(x)),
            );
        }
        let inc = w.insts[i].inc;
        w.oracle.nodes[i].precommits.entry(h).or_default().push((r, x.clone(), inc));
        w.probe("precommit for a block");
        if r > 0 {
            w.probe("precommit for a block in a later round");
        }
    }
}

pub fn on_send(w: &mut World, i: usize, msg: &Msg, target: Option<usize>) {
    let member = w.insts[i].member;
    let me = name(i);
    let correct = judged(w, i);
    if correct {
        w.oracle.nodes[i].acts += 1;
        once(w, i, msg, target);
    }
    match msg {
        OverlordMsg::SignedVote(v) => {
            if correct {
                let own = w.keys.addr[member].clone();
                let d = vote_hash(v.vote.height, v.vote.round, v.vote.vote_type.clone(), &v.vote.block_hash);
                if v.voter != own || !w.keys.verify(&v.signature, &d, &v.voter) {
                    w.violate("S10", "bad-own-vote", format!("{me} sent a vote that is not its own or not properly signed"));
                }
            }
            if let (true, Some(t)) = (correct, target) {
                let (h, r) = (v.vote.height, v.vote.round);
                let l = w.list(h).leader(&w.keys, h, r);
                if l != t {
                    w.violate("M01", "wrong-leader", format!("{me} sent its vote of ({h},{r}) to m{t}; by the list of that height m{l} leads"));
                }
                crate::pure::leader(w, v.vote.height, v.vote.round, t, "sent its vote to");
            }
            on_vote(w, i, v.vote.height, v.vote.round, ty_num(&v.vote.vote_type), &v.vote.block_hash);
        }
        OverlordMsg::AggregatedVote(qc) => {
            if correct {
                let list = w.list(qc.height);
                if list.voters(&qc.signature.address_bitmap).contains(&member) {
                    on_vote(w, i, qc.height, qc.round, ty_num(&qc.vote_type), &qc.block_hash);
                }
                check_qc(w, i, qc, "aggregated vote", true);
                crate::early::on_cert_sent(w, i, qc);
                let n = &mut w.oracle.nodes[i];
                n.got.insert((ty_num(&qc.vote_type), qc.height, qc.round));
                let k = (ty_num(&qc.vote_type), qc.height, qc.round, !qc.block_hash.is_empty());
                n.certs_got.insert(k);
                n.certs_sent.insert(k);
                w.probe("certificate formed");
            }
        }
        OverlordMsg::SignedProposal(p) => {
            let pr = &p.proposal;
            w.oracle.ledger.prop(member, pr.height, pr.round, &pr.block_hash, &pr.content.0);
            if correct {
                crate::pure::leader(w, pr.height, pr.round, member, "has the proposal made by");
                on_proposal(w, i, p);
            }
        }
        OverlordMsg::SignedChoke(c) => {
            w.oracle.ledger.choke(member, c.choke.height, c.choke.round);
            if correct {
                on_choke(w, i, c);
            }
        }
        _ => {}
    }
}

/// Each thing is said once, to those it is for; only the call to abandon a round is repeated, at
/// the pace of its timeout.
fn once(w: &mut World, i: usize, msg: &Msg, target: Option<usize>) {
    let (h, r, k) = match msg {
        OverlordMsg::SignedProposal(p) => (p.proposal.height, p.proposal.round, 0),
        OverlordMsg::SignedVote(v) => (v.vote.height, v.vote.round, ty_num(&v.vote.vote_type) as usize),
        OverlordMsg::SignedChoke(c) => (c.choke.height, c.choke.round, 3),
        OverlordMsg::AggregatedVote(q) => (q.height, q.round, 3 + ty_num(&q.vote_type) as usize),
        _ => return,
    };
    const WHAT: [&str; 6] = ["proposal", "prevote", "precommit", "call to abandon", "prevote certificate", "precommit certificate"];
    if target.is_some() != (k == 1 || k == 2) {
        let to = if target.is_some() { "to one member only" } else { "to everybody" };
        w.violate("N01", "wrong-audience", format!("i{i} sends its {} of ({h},{r}) {to}", WHAT[k]));
    }
    let lt = local(w, i);
    let n = &mut w.oracle.nodes[i];
    let c = &mut n.sent.entry((h, r)).or_default()[k];
    *c += 1;
    let c = u64::from(*c);
    while n.sent.len() > 200 {
        n.sent.pop_first();
    }
    if k != 3 {
        // a leader announces a certificate again whenever it counts the votes again
        if c > 1 && k < 3 {
            w.violate("N01", "said-again", format!("i{i} sends a {} of ({h},{r}) for the {c}. time in this run", WHAT[k]));
        }
        return;
    }
    // a node whose task was starved may work off several rounds at once, but enters none of
    // this height before its first record of it
    let rounds = n.round_at.range((h, 0)..(h + 1, 0)).count() as u64;
    let Some(from) = n.round_at.range((h, 0)..(h + 1, 0)).map(|(_, t)| *t).min() else { return };
    let all: u64 = n.sent.range((h, 0)..(h + 1, 0)).map(|(_, c)| u64::from(c[3])).sum();
    let pace = (0..w.plan.epochs.len())
        .map(|e| {
            let h = w.plan.epochs[e].from;
            w.interval_at(h) * w.timer_at(h).unwrap_or([24, 10, 5, 3])[3] / 10 * MS
        })
        .min()
        .unwrap_or(0)
        .max(1);
    if c > 2 {
        w.probe("call to abandon a round repeated");
    }
    if all > 2 * rounds + (lt - from) / pace {
        w.violate(
            "N01",
            "calls-too-often",
            format!("i{i} has sent {all} calls to abandon {rounds} rounds of height {h} within {} us; the timeout is {} us", (lt - from) / US, pace / US),
        );
    }
}

fn on_proposal(w: &mut World, i: usize, sp: &SignedProposal<Blk>) {
    let me = name(i);
    let p = &sp.proposal;
    let (h, r) = (p.height, p.round);
    let member = w.insts[i].member;
    on_act(w, i, h, r, 0, "proposal");
    let list = w.list(h);
    let leader = list.leader(&w.keys, h, r);
    if leader != member {
        let m = format!("{me} proposed at ({h},{r}) where m{leader} leads");
        w.violate("M01", "wrong-leader", m.clone());
        w.violate("S05", "not-the-leader", m);
    }
    let enc = Bytes::from(rlp::encode(p).to_vec());
    if p.proposer != w.keys.addr[member] || !w.keys.verify(&sp.signature, &h32(&enc), &p.proposer) {
        w.violate("S05", "not-its-own", format!("{me} sent a proposal at ({h},{r}) with a wrong proposer or signature"));
    }
    match w.oracle.nodes[i].props.get(&(h, r)) {
        Some(e) if *e != enc => {
            w.violate("S05", "two-proposals", format!("{me} sent two different proposals at ({h},{r})"));
        }
        _ => {
            w.oracle.nodes[i].props.insert((h, r), enc);
        }
    }
    if p.content.hash() != p.block_hash {
        w.violate("S03", "proposal-mismatch", format!("{me} proposed content that does not hash to its block hash at ({h},{r})"));
    }
    let k = (h, p.block_hash.clone(), p.content.0.clone());
    let n = &w.oracle.nodes[i];
    if !n.made.contains(&k) && (p.lock.is_none() || !n.offered.contains(&k)) {
        w.violate("A01", "proposed-not-made", format!("{me} proposed {} at ({h},{r}), which is no block its application made for that height", hx(&p.block_hash)));
    }
    if r > 0 {
        if let Some((r0, x, inc)) = bound_to(w, i, h, r) {
            if r0 < r {
                let bad = if p.block_hash != x {
                    Some(format!("proposed {}", hx(&p.block_hash)))
                } else if p.lock.as_ref().is_none_or(|l| {
                    l.lock_votes.block_hash != x
                        || !l.lock_votes.is_prevote_qc()
                        || l.lock_votes.height != h
                        || l.lock_round != l.lock_votes.round
                }) {
                    Some("proposed it without a certificate".to_string())
                } else {
                    None
                };
                if let Some(b) = bad {
                    let m = format!("{me} is bound to {} since ({h},{r0}) but {b} at round {r}", hx(&x));
                    if inc != w.insts[i].inc {
                        w.violate("R02", "lock-forgotten", m.clone());
                    }
                    w.violate("S06", "proposal-breaks-lock", m);
                } else {
                    w.probe("locked block proposed again");
                }
            }
        }
    }
    if let Some(polc) = &p.lock {
        check_qc(w, i, &polc.lock_votes, "lock proof", true);
        let q = &polc.lock_votes;
        if q.block_hash != p.block_hash || !q.is_prevote_qc() || q.height != h || q.round != polc.lock_round || q.round >= r {
            w.violate(
                "S10",
                "lock-proof-mismatch",
                format!("{me} proposed {} at ({h},{r}) with a lock proof that is not one for it", hx(&p.block_hash)),
            );
        }
    }
    // pacing
    if r == 0 && h > 1 {
        pacing(w, i, h);
    }
}

fn on_choke(w: &mut World, i: usize, sc: &SignedChoke) {
    let me = name(i);
    let (h, r) = (sc.choke.height, sc.choke.round);
    let member = w.insts[i].member;
    on_act(w, i, h, r, 3, "choke");
    let own = w.keys.addr[member].clone();
    if sc.address != own || !w.keys.verify(&sc.signature, &choke_hash(h, r), &sc.address) {
        w.violate("S10", "bad-own-choke", format!("{me} sent a choke that is not its own or not properly signed"));
    }
    w.probe("round abandoned");
    match &sc.choke.from {
        UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => {
            if !is_mock(q) {
                check_qc(w, i, q, "evidence", true);
            } else if r > 0 {
                w.violate("S10", "no-evidence", format!("{me} sent a choke at ({h},{r}) without evidence of how that round was reached"));
            }
        }
        UpdateFrom::ChokeQC(c) => {
            let list = w.list(c.height);
            let mut who = BTreeSet::new();
            let mut bad = None;
            for v in &c.voters {
                match w.keys.index(v) {
                    Some(m) if list.has(m) => {
                        if !who.insert(m) {
                            bad = Some(format!("names m{m} twice"));
                        } else if !w.oracle.ledger.chokes.get(&(c.height, c.round)).is_some_and(|s| s.contains(&m)) {
                            bad = Some(format!("names m{m}, who never signed it"));
                        }
                    }
                    _ => bad = Some("names a non-member".to_string()),
                }
            }
            if bad.is_none() && !list.count_quorum(&who) {
                bad = Some(format!("names only {who:?}"));
            }
            if bad.is_none() && !w.keys.verify_agg(&c.signature, &choke_hash(c.height, c.round), &c.voters) {
                bad = Some("has a wrong aggregate".into());
            }
            if let Some(b) = bad {
                w.violate(
                    "S10",
                    "unsound-choke-certificate",
                    format!("{me} sent a choke at ({h},{r}) with a choke certificate for ({},{}) that {b}", c.height, c.round),
                );
            }
        }
    }
}

// ---------------------------------------------------------------- blocks

/// The application is asked for a block.
pub fn on_get(w: &mut World, i: usize, h: u64) {
    if !judged(w, i) {
        return;
    }
    let m = w.insts[i].member;
    let list = w.list(h);
    let cur = w.oracle.nodes[i].cur;
    let (mine, at) = match cur {
        Some((ch, r)) if ch == h => ((r..=r + 1).any(|r| list.leader(&w.keys, h, r) == m), r),
        _ => (list.leader(&w.keys, h, 0) == m, 0),
    };
    w.probe("block asked of the application");
    if !list.has(m) || !mine {
        w.violate("A01", "block-asked-out-of-turn", format!("i{i} asks its application for a block of height {h} at round {at}, where it does not lead"));
    }
    if cur.is_some_and(|c| c.0 > h) {
        w.violate("A01", "block-asked-too-late", format!("i{i} asks its application for a block of height {h} and is beyond it"));
    }
    if w.insts[i].height() + 1 < h {
        let have = w.insts[i].height();
        w.violate("A01", "block-asked-too-early", format!("i{i} asks its application for a block of height {h}; it has stored {have}"));
    }
}

pub fn on_got(w: &mut World, i: usize, h: u64, hash: &Hash, content: &Bytes) {
    w.oracle.nodes[i].made.insert((h, hash.clone(), content.clone()));
}

/// The application is asked to check a block.
pub fn on_check(w: &mut World, i: usize, h: u64, hash: &Hash, content: &Bytes) {
    if !judged(w, i) {
        return;
    }
    let k = (h, hash.clone(), content.clone());
    let n = &w.oracle.nodes[i];
    if !n.offered.contains(&k) && !n.made.contains(&k) {
        w.violate("A01", "check-of-unproposed", format!("i{i} asks its application to check {} at height {h}, which no leader of that height has proposed to it", hx(hash)));
    }
    let n = &w.oracle.nodes[i];
    if n.attempt_max.0.max(n.cur.map_or(0, |c| c.0)) < h {
        w.violate("A01", "check-too-early", format!("i{i} asks its application to check {} at height {h}, where it has not got to", hx(hash)));
    }
    let m = w.insts[i].member;
    if !w.list(h).has(m) {
        w.violate("A01", "check-by-non-member", format!("i{i} asks its application to check {} at height {h}, where it is no member", hx(hash)));
    }
}

pub fn on_check_passed(w: &mut World, i: usize, h: u64, hash: &Hash, content: &Bytes) {
    w.oracle.nodes[i].checks.insert((h, hash.clone()));
    crate::early::on_check_passed(w, i, h, hash);
    if judged(w, i) {
        w.oracle
            .accepted
            .entry((h, hash.clone(), content.clone()))
            .or_default()
            .insert(i);
    }
}

pub fn on_commit(w: &mut World, i: usize, h: u64, c: &Commit<Blk>) {
    if !judged(w, i) {
        return;
    }
    w.oracle.nodes[i].acts += 1;
    let me = name(i);
    let hash = c.proof.block_hash.clone();
    let content = c.content.0.clone();
    let member = w.insts[i].member;
    let list = w.list(h);
    let keys = w.keys.clone();
    w.oracle.nodes[i].commits += 1;
    *w.oracle.commit_rounds.entry(c.proof.round).or_insert(0) += 1;
    let e = w.oracle.decided_round_max.entry(h).or_insert(0);
    *e = (*e).max(c.proof.round);
    // agreement
    match w.oracle.decided.get(&h).cloned() {
        Some((dh, dc, j)) => {
            if dh != hash || dc != content {
                w.violate(
                    "S01",
                    "disagreement",
                    format!("{me} delivers {} at height {h}, i{j} delivered {}", hx(&hash), hx(&dh)),
                );
            }
        }
        None => {
            w.oracle.decided.insert(h, (hash.clone(), content.clone(), i));
        }
    }
    // proof
    if c.height != h || c.proof.height != h || hash.is_empty() {
        w.violate("S02", "proof-of-another-height", format!("{me} delivers height {h} with a proof for ({},{})", c.proof.height, hx(&hash)));
    }
    let qc = AggregatedVote {
        signature: c.proof.signature.clone(),
        vote_type: VoteType::Precommit,
        height: c.proof.height,
        round: c.proof.round,
        block_hash: hash.clone(),
        leader: Address::new(),
    };
    let mut quorum = Vec::new();
    match qc_ok(&keys, &list, &qc) {
        Err(e) => w.violate("S02", "bad-proof", format!("{me} delivers height {h} with a proof that does not verify: {e}")),
        Ok(who) => {
            for m in &who {
                if !w.oracle.ledger.voted(*m, h, c.proof.round, 2, &hash) {
                    w.violate("S02", "voter-never-signed", format!("{me} delivers height {h}; its proof names m{m}, who never precommitted that"));
                }
            }
            // what a third party does: the published bitmap reader
            let mut nodes = list.nodes.clone();
            match overlord::extract_voters(&mut nodes, &c.proof.signature.address_bitmap) {
                Ok(v) => {
                    let a: Vec<Address> = who.iter().map(|m| keys.addr[*m].clone()).collect();
                    if v != a {
                        w.violate("S02", "published-reader-disagrees", format!("extract_voters reads other voters from the proof of height {h}"));
                    }
                }
                Err(_) => w.violate("S02", "published-reader-fails", format!("extract_voters fails on the proof of height {h}")),
            }
            quorum = who;
        }
    }
    // content
    if c.content.hash() != hash || c.content.height() != h {
        w.violate("S03", "other-content", format!("{me} delivers content at height {h} that is not the block {}", hx(&hash)));
    }
    let proposed = w
        .oracle
        .ledger
        .props
        .range((h, 0)..=(h, u64::MAX))
        .any(|(_, v)| v.iter().any(|p| p.1 == hash && p.2 == content));
    if !proposed {
        w.violate("S03", "never-proposed", format!("{me} delivers a block at height {h} that nobody proposed there"));
    }
    let accepted = w
        .oracle
        .accepted
        .get(&(h, hash.clone(), content.clone()))
        .is_some_and(|s| s.iter().any(|j| quorum.contains(&w.insts[*j].member)));
    if !quorum.is_empty() && !accepted {
        w.violate("S03", "accepted-by-none", format!("{me} delivers {} at height {h}; no correct member of its quorum had accepted that content", hx(&hash)));
    }
    if !w.oracle.nodes[i].checks.contains(&(h, hash.clone())) {
        w.violate("S08", "commit-unchecked", format!("{me} delivers {} at height {h} though its application had not accepted it", hx(&hash)));
    }
    if !list.has(member) {
        w.violate("M01", "non-member-acts", format!("{me} commits at height {h} though it is no member there"));
    }
    // log first
    let bad = match &w.insts[i].acked {
        None => Some("its log is empty".to_string()),
        Some(a) if a.step != 4 || a.h != h => Some(format!("its log is at ({},{},{})", a.h, a.r, a.step)),
        Some(a) => match &a.lock {
            None => Some("the commit record holds no block".into()),
            Some((_, q, ct)) => {
                if *ct != content || q.block_hash != hash || q.is_prevote_qc() || q.height != h {
                    Some("the commit record holds something else".to_string())
                } else {
                    qc_ok(&keys, &list, q).err()
                }
            }
        },
    };
    if let Some(b) = bad {
        w.violate("R01", "commit-before-logged", format!("{me} delivers height {h} but {b}"));
    }
    // order
    let app = w.insts[i].height();
    let n = &w.oracle.nodes[i];
    if n.last_commit.is_some_and(|l| l >= h) {
        let l = n.last_commit;
        w.violate("R03", "not-increasing", format!("{me} delivers height {h} after height {l:?} in the same run"));
    } else if h > app + 1 {
        w.violate("R03", "gap", format!("{me} delivers height {h} while the application is at {app}"));
    } else if h < n.moved_max {
        let m = n.moved_max;
        w.violate("R03", "late", format!("{me} delivers height {h} after moving to height {m}"));
    }
    if let Some((rh, x)) = w.oracle.nodes[i].pend_redeliver.clone() {
        if rh == h && x != hash {
            w.violate("R02", "decision-changed", format!("{me} had logged {} for height {h} and delivers {}", hx(&x), hx(&hash)));
        }
        w.oracle.nodes[i].pend_redeliver = None;
        w.probe("logged decision delivered after a restart");
    }
    let n = &mut w.oracle.nodes[i];
    n.last_commit = Some(h);
    n.acted_now = n.acted_now.max((h, 0));
    w.probe("commit");
}

/// The application refused it: it may be handed over again.
pub fn on_commit_failed(w: &mut World, i: usize, h: u64) {
    let n = &mut w.oracle.nodes[i];
    if n.last_commit == Some(h) {
        n.last_commit = h.checked_sub(1);
    }
}

pub fn on_commit_return(w: &mut World, i: usize, h: u64, st: &Status) {
    if !judged(w, i) {
        return;
    }
    let t = local(w, i);
    if st.height == h + 1 {
        w.oracle.nodes[i].commit_ret.insert(h, t);
        let node = w.insts[i].node;
        if w.plan.family == "timing" || w.plan.family == "sync" {
            // The others move on at once; the next leader when the pace allows.
            let list = w.list(h + 1);
            let m = w.insts[i].member;
            if list.has(m) {
                let next = list.leader(&w.keys, h + 1, 0) == m;
                // (a node that replays this height after a restart runs with the settings of the next one)
                let end = w.oracle.nodes[i].last_move + w.interval_at(h).max(w.interval_at(h + 1)) * MS;
                w.oracle.nodes[i].pace_end.insert(h, end);
                let wait = if next { end.saturating_sub(t) } else { 0 } + pace_slack(w, h);
                simrt::after(wait, move || {
                    with(|w| {
                        let inst = &w.insts[i];
                        if inst.node != node || !inst.alive || inst.run_done.is_some() || inst.stop_at.is_some() {
                            return;
                        }
                        if w.oracle.nodes[i].moved_max <= h {
                            w.violate(
                                "T02",
                                "held-back",
                                format!("i{i} ({}) had not begun height {} {} us after its commit of {h}",
                                    if next { "next leader" } else { "not the next leader" }, h + 1, wait / US),
                            );
                        }
                    });
                });
            }
        }
    }
    on_status(w, i, st);
}

/// Delays of tasks, waits behind a save or a send before a message is looked at, clock speed.
fn pace_slack(w: &World, h: u64) -> u64 {
    if w.plan.family == "timing" {
        return MS;
    }
    MS + 4 * (w.plan.rt.jitter_us + w.plan.wal.save_us + w.plan.app.send_us) * US + w.interval_at(h) * MS / 100
}

fn pacing(w: &mut World, i: usize, h: u64) {
    if w.plan.faults.iter().any(|f| matches!(f.kind, Kind::Clock { .. })) {
        return;
    }
    let t = local(w, i);
    let interval = w.interval_at(h - 1) * MS;
    let n = &w.oracle.nodes[i];
    let (Some(s), Some(c)) = (n.start_h.get(&(h - 1)).copied(), n.commit_ret.get(&(h - 1)).copied()) else {
        return;
    };
    let pace_end = n.pace_end.get(&(h - 1)).copied();
    w.probe("paced proposal");
    if t + MS / 10 < s + interval {
        w.violate(
            "T02",
            "too-early",
            format!("i{i} proposes height {h} {} us after it began height {}; the interval is {} us", (t - s) / US, h - 1, interval / US),
        );
    }
    if let Some(end) = pace_end {
        if w.plan.family == "timing" && t > c.max(end) + 2 * MS {
            w.violate(
                "T02",
                "too-late",
                format!("i{i} proposes height {h} {} us after its commit of {}, {} us later than the pace of {} us asks for",
                    (t - c) / US, h - 1, (t - c.max(end)) / US, interval / US),
            );
        }
    }
}

// ---------------------------------------------------------------- view changes

pub fn on_report(w: &mut World, i: usize, h: u64, r: u64, reason: &ViewChangeReason) {
    if !judged(w, i) {
        return;
    }
    let me = name(i);
    let n = &w.oracle.nodes[i];
    match n.reported {
        Some((rh, rr)) if rh == h && r <= rr => {
            w.violate("V01", "reported-twice", format!("{me} reports giving up ({h},{r}) after it already gave up ({rh},{rr})"));
        }
        Some(_) => {}
        None => {
            if n.cur != Some((h, r)) {
                let c = n.cur;
                w.violate("V01", "wrong-round-reported", format!("{me} reports giving up ({h},{r}) while it is at {c:?}"));
            }
        }
    }
    w.oracle.nodes[i].reported = Some((h, r));
    w.oracle.nodes[i].reason = Some((h, r, reason.clone()));
    let member = w.insts[i].member;
    let leads = w.list(h).leader(&w.keys, h, r) == member;
    let n = &w.oracle.nodes[i];
    let got = |ty: u8, block: bool| n.certs_got.contains(&(ty, h, r, block));
    let voted = |ty: u8| n.votes.get(&(h, r, ty)).filter(|x| !x.is_empty());
    let prevoted = n.from_proposal.contains(&(h, r));
    // it had its leader's proposal, the block checked, and the prevote certificate
    let precommitted = prevoted && voted(2).is_some() && voted(1) == voted(2);
    let untrue = match reason {
        ViewChangeReason::UpdateFromHigherPrevoteQC(a, b)
        | ViewChangeReason::UpdateFromHigherPrecommitQC(a, b)
        | ViewChangeReason::UpdateFromHigherChokeQC(a, b)
            if *a != r || b <= a =>
        {
            Some("which is not what it gave up, or not later".to_string())
        }
        ViewChangeReason::UpdateFromHigherPrevoteQC(_, b) if !n.certs_got.iter().any(|c| c.0 == 1 && c.1 == h && c.2 == *b) => {
            Some("which had not reached it".to_string())
        }
        ViewChangeReason::UpdateFromHigherPrecommitQC(_, b) if !n.certs_got.iter().any(|c| c.0 == 2 && c.1 == h && c.2 == *b) => {
            Some("which had not reached it".to_string())
        }
        ViewChangeReason::LeaderReceivedVoteBelowThreshold(_) if !leads => Some("though it did not lead it".to_string()),
        ViewChangeReason::LeaderReceivedVoteBelowThreshold(VoteType::Prevote) if n.certs_sent.contains(&(1, h, r, true)) => {
            Some("though it had made a prevote certificate of it".to_string())
        }
        ViewChangeReason::LeaderReceivedVoteBelowThreshold(VoteType::Precommit) if !got(1, true) => {
            Some("though there was no prevote certificate of a block yet".to_string())
        }
        ViewChangeReason::NoProposalFromNetwork if prevoted => Some("though it had prevoted its proposal".to_string()),
        ViewChangeReason::CheckBlockNotPass
        | ViewChangeReason::NoPrevoteQCFromNetwork
        | ViewChangeReason::NoPrecommitQCFromNetwork
            if leads =>
        {
            Some("though it led it".to_string())
        }
        ViewChangeReason::CheckBlockNotPass
        | ViewChangeReason::NoPrevoteQCFromNetwork
        | ViewChangeReason::NoPrecommitQCFromNetwork
            if !n.props_got.contains_key(&(h, r)) =>
        {
            Some("though no proposal of it had reached it".to_string())
        }
        ViewChangeReason::NoPrevoteQCFromNetwork | ViewChangeReason::NoPrecommitQCFromNetwork | ViewChangeReason::Others
            if !leads && n.props_got.get(&(h, r)).is_some_and(|all| all.iter().all(|x| !x.is_empty() && !n.checks.contains(&(h, x.clone())))) =>
        {
            Some("though its application had not accepted the block proposed in it".to_string())
        }
        ViewChangeReason::CheckBlockNotPass | ViewChangeReason::NoPrevoteQCFromNetwork if precommitted => {
            Some("though it had precommitted its proposal".to_string())
        }
        ViewChangeReason::NoPrecommitQCFromNetwork if !got(1, true) && !got(1, false) => {
            Some("though it lacks the prevote certificate too".to_string())
        }
        _ => None,
    };
    w.probe(match reason {
        ViewChangeReason::UpdateFromHigherPrevoteQC(..)
        | ViewChangeReason::UpdateFromHigherPrecommitQC(..)
        | ViewChangeReason::UpdateFromHigherChokeQC(..) => "round skipped on a later certificate",
        ViewChangeReason::LeaderReceivedVoteBelowThreshold(VoteType::Prevote) => "reason given: too few prevotes",
        ViewChangeReason::LeaderReceivedVoteBelowThreshold(VoteType::Precommit) => "reason given: too few precommits",
        ViewChangeReason::NoProposalFromNetwork => "reason given: no proposal",
        ViewChangeReason::NoPrevoteQCFromNetwork => "reason given: no prevote certificate",
        ViewChangeReason::NoPrecommitQCFromNetwork => "reason given: no precommit certificate",
        ViewChangeReason::CheckBlockNotPass => "reason given: block not checked",
        ViewChangeReason::Others => "reason given: other",
    });
    if let Some(why) = untrue {
        w.violate("V01", "untrue-reason", format!("{me} gave up ({h},{r}) and says: {reason}, {why}"));
    }
}

/// The round entered now was reached by `from`; the round given up for it was left for the reason.
fn reason_and_from(w: &mut World, i: usize, rec: &Rec) {
    let Some((h, r, reason)) = w.oracle.nodes[i].reason.clone() else { return };
    if h != rec.h || r >= rec.r {
        return;
    }
    w.oracle.nodes[i].reason = None;
    let (k, b) = match &rec.from {
        UpdateFrom::PrevoteQC(q) => (1, q.round),
        UpdateFrom::PrecommitQC(q) => (2, q.round),
        UpdateFrom::ChokeQC(q) => (3, q.round),
    };
    let told = match &reason {
        ViewChangeReason::UpdateFromHigherPrevoteQC(_, b) => (1, *b),
        ViewChangeReason::UpdateFromHigherPrecommitQC(_, b) => (2, *b),
        ViewChangeReason::UpdateFromHigherChokeQC(_, b) => (3, *b),
        ViewChangeReason::NoPrevoteQCFromNetwork if (k, b) == (1, r) => (0, r),
        ViewChangeReason::NoPrecommitQCFromNetwork if (k, b) == (2, r) => (0, r),
        _ => (k, r),
    };
    w.probe("reason compared with what the round was left by");
    if told != (k, b) {
        const KIND: [&str; 4] = ["", "a prevote certificate", "a precommit certificate", "abandonments"];
        w.violate(
            "V01",
            "untrue-reason",
            format!("i{i} gave up ({h},{r}) and says: {reason}; it enters round {} by {} of round {b}", rec.r, KIND[k as usize]),
        );
    }
}

// ---------------------------------------------------------------- deliveries and timing

pub fn on_deliver(w: &mut World, to: usize, msg: &Msg) {
    crate::early::on_deliver(w, to, msg);
    let n = &mut w.oracle.nodes[to];
    match msg {
        OverlordMsg::SignedProposal(p) => {
            n.props_got.entry((p.proposal.height, p.proposal.round)).or_default().insert(p.proposal.block_hash.clone());
            if let Some(l) = &p.proposal.lock {
                let q = &l.lock_votes;
                n.certs_got.insert((ty_num(&q.vote_type), q.height, q.round, !q.block_hash.is_empty()));
            }
        }
        OverlordMsg::AggregatedVote(q) => {
            n.certs_got.insert((ty_num(&q.vote_type), q.height, q.round, !q.block_hash.is_empty()));
        }
        OverlordMsg::SignedChoke(c) => got_from(n, &c.choke.from),
        _ => {}
    }
    if let OverlordMsg::SignedProposal(sp) = msg {
        let lt = local(w, to);
        w.oracle.nodes[to].last_move = lt;
        if judged(w, to) && sound(w, sp) {
            let p = &sp.proposal;
            w.oracle.nodes[to].handed.insert((p.height, p.round, p.block_hash.clone()));
            w.oracle.nodes[to].offered.insert((p.height, p.block_hash.clone(), p.content.0.clone()));
        }
    }
    if w.plan.family != "timing" {
        return;
    }
    let k = match msg {
        OverlordMsg::SignedProposal(p) => (0, p.proposal.height, p.proposal.round),
        OverlordMsg::AggregatedVote(q) => (ty_num(&q.vote_type), q.height, q.round),
        OverlordMsg::SignedChoke(c) => match &c.choke.from {
            UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => (ty_num(&q.vote_type), q.height, q.round),
            UpdateFrom::ChokeQC(q) => (3, q.height, q.round),
        },
        _ => return,
    };
    w.oracle.nodes[to].got.insert(k);
}

/// A proposal with its leader's signature and, if it has one, a genuine lock proof.
pub fn sound(w: &mut World, sp: &SignedProposal<Blk>) -> bool {
    let p = &sp.proposal;
    let (h, r) = (p.height, p.round);
    let list = w.list(h);
    if list.nodes.is_empty() {
        return false;
    }
    let l = list.leader(&w.keys, h, r);
    if p.proposer != w.keys.addr[l] || !w.keys.verify(&sp.signature, &h32(&rlp::encode(p)), &p.proposer) {
        return false;
    }
    match &p.lock {
        None => true,
        Some(k) => {
            let q = &k.lock_votes;
            q.is_prevote_qc()
                && q.height == h
                && q.round == k.lock_round
                && q.round < r
                && q.block_hash == p.block_hash
                && qc_ok(&w.keys.clone(), &list, q).is_ok()
        }
    }
}

const TOL: u64 = MS;

/// (propose, prevote, precommit, brake) timeouts at (h, r) in ns.
fn timeouts(w: &World, h: u64, r: u64) -> [u64; 4] {
    let t = w.timer_at(h).unwrap_or([24, 10, 5, 3]);
    let iv = w.interval_at(h);
    let f = 1u64 << r.min(5);
    let base = |k: usize| iv * t[k] / 10 * MS;
    [base(0) * f, base(1) * f, base(2) * f, base(3)]
}

fn timing_on(w: &World) -> bool {
    w.plan.family == "timing"
}

fn timing_round(w: &mut World, i: usize, h: u64, r: u64) {
    if !timing_on(w) {
        return;
    }
    let now = simrt::now();
    let inc = w.insts[i].inc;
    let restarted = w.oracle.nodes[i].timing.restarted;
    w.oracle.nodes[i].timing = Timing {
        at: (h, r),
        start: Some(now),
        restarted,
        ..Timing::default()
    };
    let to = timeouts(w, h, r)[0];
    simrt::after(to + TOL, move || {
        with(|w| {
            let t = &w.oracle.nodes[i].timing;
            let inst = &w.insts[i];
            if t.at == (h, r) && t.start == Some(now) && t.prevote.is_none() && inst.inc == inc && inst.alive && inst.stop_at.is_none()
                && w.oracle.nodes[i].last_commit != Some(h)
            {
                w.violate("T01", "proposal-wait-overdue", format!("i{i} still waits at ({h},{r}) {} us after entering it; the timeout is {} us", (simrt::now() - now) / US, to / US));
            }
        });
    });
}

fn timing_vote(w: &mut World, i: usize, h: u64, r: u64, ty: u8) {
    if !timing_on(w) || w.oracle.nodes[i].timing.at != (h, r) {
        return;
    }
    let now = simrt::now();
    let to = timeouts(w, h, r);
    let inc = w.insts[i].inc;
    let t = w.oracle.nodes[i].timing.clone();
    let (from, lim, k) = if ty == 1 { (t.start, to[0], 0u8) } else { (t.prevote, to[1], 1u8) };
    if let Some(s) = from {
        let leads = w.list(h).leader(&w.keys, h, r) == w.insts[i].member;
        let had = w.oracle.nodes[i].got.contains(&(k, h, r)) || leads;
        let d = now - s;
        let what = if ty == 1 { "prevote" } else { "precommit" };
        if d > lim + TOL {
            w.violate("T01", "late-timeout", format!("i{i} sent its {what} at ({h},{r}) {} us after the step began; the timeout is {} us", d / US, lim / US));
        } else if !had && d + TOL < lim {
            w.violate("T01", "early-timeout", format!("i{i} gave up waiting and sent a {what} at ({h},{r}) {} us after the step began; the timeout is {} us", d / US, lim / US));
        } else if !had {
            w.probe(if ty == 1 { "proposal timeout on time" } else { "prevote timeout on time" });
            if r > 0 {
                w.probe("escalated timeout on time");
            }
        }
    }
    let t = &mut w.oracle.nodes[i].timing;
    if ty == 1 {
        t.prevote = Some(now);
    } else {
        t.precommit = Some(now);
        t.prevote.get_or_insert(now);
    }
    let to_next = if ty == 1 { to[1] } else { to[2] };
    simrt::after(to_next + TOL, move || {
        with(|w| {
            let t = &w.oracle.nodes[i].timing;
            let inst = &w.insts[i];
            let still = if ty == 1 { t.precommit.is_none() && t.prevote == Some(now) } else { t.choke.is_none() && t.precommit == Some(now) };
            if t.at == (h, r) && still && inst.inc == inc && inst.alive && inst.stop_at.is_none()
                && w.oracle.nodes[i].last_commit != Some(h)
            {
                w.violate("T01", "certificate-wait-overdue", format!("i{i} still waits at ({h},{r}) {} us after its vote; the timeout is {} us", (simrt::now() - now) / US, to_next / US));
            }
        });
    });
}

fn timing_choke(w: &mut World, i: usize, h: u64, r: u64) {
    if !timing_on(w) || w.oracle.nodes[i].timing.at != (h, r) {
        return;
    }
    let now = simrt::now();
    let to = timeouts(w, h, r);
    let inc = w.insts[i].inc;
    let t = w.oracle.nodes[i].timing.clone();
    match (t.choke, t.precommit) {
        (Some(c), _) => {
            let d = now - c;
            if d + TOL < to[3] || d > to[3] + TOL {
                w.violate("T01", "brake-repeat", format!("i{i} repeated its choke at ({h},{r}) after {} us; the brake time is {} us", d / US, to[3] / US));
            } else {
                w.probe("choke repeated on time");
            }
        }
        (None, Some(p)) => {
            let d = now - p;
            if d + TOL < to[2] || d > to[2] + TOL {
                w.violate("T01", "precommit-timeout", format!("i{i} abandoned ({h},{r}) {} us after its precommit; the timeout is {} us", d / US, to[2] / US));
            } else {
                w.probe("precommit timeout on time");
            }
        }
        _ => {}
    }
    w.oracle.nodes[i].timing.choke = Some(now);
    simrt::after(to[3] + TOL, move || {
        with(|w| {
            let t = &w.oracle.nodes[i].timing;
            let inst = &w.insts[i];
            if t.at == (h, r) && t.choke == Some(now) && inst.inc == inc && inst.alive && inst.stop_at.is_none()
                && w.oracle.nodes[i].last_commit != Some(h)
            {
                w.violate("T01", "brake-not-repeated", format!("i{i} did not repeat its choke at ({h},{r})"));
            }
        });
    });
}
