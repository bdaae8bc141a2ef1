//! The adversary: it sees every message as it is sent, holds the keys of the faulty members (if
//! any) and an outsider's, and injects what it likes into the network. It cannot forge the
//! signature of anybody else.

use crate::model::*;
use crate::plan::*;
use crate::world::*;
use bytes::Bytes;
use overlord::types::*;
use simrt::rng::hash3;
use simrt::Rng;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub const DOUBLE_VOTE: u32 = 1 << 0;
pub const BAD_PROPOSAL: u32 = 1 << 1;
pub const SMALL_QC: u32 = 1 << 2;
pub const REAL_QC: u32 = 1 << 3;
pub const CHOKE: u32 = 1 << 4;
pub const REPLAY: u32 = 1 << 5;
pub const FUTURE: u32 = 1 << 6;
pub const OUTSIDER: u32 = 1 << 7;
pub const MUTATE: u32 = 1 << 8;
pub const EXTREME: u32 = 1 << 9;
pub const HELP: u32 = 1 << 10;
pub const REUSE: u32 = 1 << 11;
pub const POLC: u32 = 1 << 12;
pub const STALE: u32 = 1 << 13;
pub const LEAD: u32 = 1 << 14;
pub const EDGE: u32 = 1 << 15;
pub const FLOOD: u32 = 1 << 16;
pub const FORGE: u32 = 1 << 17;
pub const VOUCH: u32 = 1 << 18;
pub const RELABEL: u32 = 1 << 19;
pub const NACTIONS: u32 = 20;
pub const ALL: u32 = (1 << NACTIONS) - 1;
pub const NAMES: [&str; NACTIONS as usize] = [
    "byz: double vote",
    "byz: equivocating or invalid proposal",
    "byz: certificate below quorum",
    "byz: real certificate to chosen targets",
    "byz: choke with forged evidence",
    "byz: replay",
    "byz: forged message for a later height",
    "byz: outsider's message",
    "byz: altered message",
    "byz: extreme values",
    "byz: helpful vote at an odd time",
    "byz: hash reused for other content",
    "byz: proposal with bogus lock proof",
    "byz: block of an earlier height proposed again",
    "byz: certificate gathered as the faulty leader",
    "byz: certificate just short of a quorum",
    "byz: outsider's vote or proposal for every round",
    "byz: proposal forged in the leader's name",
    "byz: certificate forged for the block at hand",
    "byz: genuine signatures under another label",
];

type VoteKey = (u64, u64, u8, Hash);

pub struct Adversary {
    on: bool,
    idx: u64,
    done: u32,
    votes: BTreeMap<VoteKey, BTreeMap<usize, Bytes>>,
    chokes: BTreeMap<(u64, u64), BTreeMap<usize, Bytes>>,
    qcs: VecDeque<AggregatedVote>,
    wires: VecDeque<Wire>,
    props: VecDeque<SignedProposal<Blk>>,
    led: BTreeSet<VoteKey>,
    edged: BTreeSet<VoteKey>,
    edged_chokes: BTreeSet<(u64, u64)>,
    flooded: BTreeSet<(VoteKey, u8)>,
    /// Actions taken: (index, action bit).
    pub log: Vec<(u64, u32)>,
    nonce: u64,
}

impl Adversary {
    pub fn new(p: &Plan) -> Adversary {
        Adversary {
            on: p.adv.act_ppm > 0 && p.adv.actions != 0,
            idx: 0,
            done: 0,
            votes: BTreeMap::new(),
            chokes: BTreeMap::new(),
            qcs: VecDeque::new(),
            wires: VecDeque::new(),
            props: VecDeque::new(),
            led: Default::default(),
            edged: Default::default(),
            edged_chokes: Default::default(),
            flooded: Default::default(),
            log: Vec::new(),
            nonce: 1 << 40,
        }
    }
    fn see(&mut self, m: usize, msg: &Msg, wire: &Wire) {
        match msg {
            OverlordMsg::SignedVote(v) => {
                self.votes
                    .entry((v.vote.height, v.vote.round, ty_num(&v.vote.vote_type), v.vote.block_hash.clone()))
                    .or_default()
                    .insert(m, v.signature.clone());
            }
            OverlordMsg::AggregatedVote(q) => {
                self.qcs.push_back(q.clone());
                if self.qcs.len() > 24 {
                    self.qcs.pop_front();
                }
            }
            OverlordMsg::SignedChoke(c) => {
                self.chokes
                    .entry((c.choke.height, c.choke.round))
                    .or_default()
                    .insert(m, c.signature.clone());
            }
            OverlordMsg::SignedProposal(p) => {
                self.props.push_back(p.clone());
                if self.props.len() > 24 {
                    self.props.pop_front();
                }
            }
            _ => {}
        }
        self.wires.push_back(wire.clone());
        if self.wires.len() > 160 {
            self.wires.pop_front();
        }
        while self.votes.len() > 200 {
            self.votes.pop_first();
        }
    }
}

fn msg_hr(m: &Msg) -> (u64, u64) {
    match m {
        OverlordMsg::SignedProposal(p) => (p.proposal.height, p.proposal.round),
        OverlordMsg::SignedVote(v) => (v.vote.height, v.vote.round),
        OverlordMsg::AggregatedVote(q) => (q.height, q.round),
        OverlordMsg::SignedChoke(c) => (c.choke.height, c.choke.round),
        _ => (0, 0),
    }
}

pub fn tap(w: &mut World, inst: usize, msg: &Msg, wire: &Wire) {
    if !w.adv.on {
        return;
    }
    let m = w.insts[inst].member;
    w.adv.see(m, msg, wire);
    if let OverlordMsg::SignedVote(v) = msg {
        let key = (v.vote.height, v.vote.round, ty_num(&v.vote.vote_type), v.vote.block_hash.clone());
        lead(w, key.clone());
        edge(w, key.clone());
        flood(w, key.clone());
        vouch(w, (key.0, key.1, 0, key.3));
    }
    if let OverlordMsg::SignedProposal(p) = msg {
        let p = &p.proposal;
        vouch(w, (p.height, p.round, 0, p.block_hash.clone()));
    }
    if let OverlordMsg::SignedChoke(c) = msg {
        edge_choke(w, c.choke.height, c.choke.round);
    }
    relabel(w, msg_hr(msg));
    // A few independent chances per message.
    for k in 0..2 {
        w.adv.idx += 1;
        let idx = w.adv.idx;
        if w.adv.done >= w.plan.adv.budget || w.plan.adv_mute.contains(&idx) {
            continue;
        }
        let mut r = Rng::new(hash3(w.plan.seed, 0xad5e, idx));
        if k == 1 && !r.chance(300_000) {
            continue;
        }
        if !r.chance(w.plan.adv.act_ppm) {
            continue;
        }
        let bits: Vec<u32> = (0..NACTIONS).filter(|b| w.plan.adv.actions & (1 << b) != 0).collect();
        let bit = *r.pick(&bits);
        if act(w, 1 << bit, msg, &mut r) {
            w.adv.done += 1;
            w.adv.log.push((idx, bit));
            w.count(NAMES[bit as usize]);
        }
    }
}

/// A faulty leader gathers what is voted in its round, and hands the certificate to all or some.
fn lead(w: &mut World, key: VoteKey) {
    if w.plan.adv.actions & LEAD == 0 || !sane(key.0, key.1) || w.adv.led.contains(&key) {
        return;
    }
    let list = w.list(key.0);
    let b = list.leader(&w.keys, key.0, key.1);
    let byz = w.plan.byz.clone();
    if !byz.contains(&b) {
        return;
    }
    let mut who: Vec<usize> = w.adv.votes.get(&key).map(|m| m.keys().copied().collect()).unwrap_or_default();
    for x in &byz {
        if !who.contains(x) {
            who.push(*x);
        }
    }
    if !list.quorum(&who) {
        return;
    }
    let Some((idx, mut r)) = turn(w) else { return };
    w.adv.led.insert(key.clone());
    if r.chance(200_000) {
        return;
    }
    for x in byz {
        let _ = signed_vote(w, x, key.0, key.1, key.2, &key.3);
    }
    let Some(q) = qc_from_pool(w, &key, None, b) else { return };
    w.adv.qcs.push_back(q.clone());
    let m = OverlordMsg::AggregatedVote(q);
    if r.chance(600_000) {
        inject(w, &mut r, None, &m);
    } else {
        for t in 0..w.insts.len() {
            if r.chance(500_000) {
                inject(w, &mut r, Some(t), &m);
            }
        }
    }
    took(w, idx, 14);
}

/// Take the next action number, unless the adversary is out of actions or this one is muted.
fn turn(w: &mut World) -> Option<(u64, Rng)> {
    w.adv.idx += 1;
    let idx = w.adv.idx;
    if w.adv.done >= w.plan.adv.budget || w.plan.adv_mute.contains(&idx) {
        return None;
    }
    Some((idx, Rng::new(hash3(w.plan.seed, 0xad5e, idx))))
}
fn took(w: &mut World, idx: u64, bit: u32) {
    w.adv.done += 1;
    w.adv.log.push((idx, bit));
    w.count(NAMES[bit as usize]);
}

/// The heaviest part of `who` that is no quorum, if it lacks next to nothing.
fn just_short(list: &List, who: &[usize]) -> Option<Vec<usize>> {
    let mut v = who.to_vec();
    while list.quorum(&v) {
        // drop the lightest
        let (k, _) = v.iter().enumerate().min_by_key(|(_, m)| list.weight(**m))?;
        v.remove(k);
    }
    if v.is_empty() || v.len() * 2 < list.idx.len() {
        return None;
    }
    Some(v)
}

/// A certificate made of as many real votes as can be had below the quorum.
fn edge(w: &mut World, key: VoteKey) {
    if w.plan.adv.actions & EDGE == 0 || !sane(key.0, key.1) || w.adv.edged.contains(&key) {
        return;
    }
    let list = w.list(key.0);
    let byz = w.plan.byz.clone();
    let mut who: Vec<usize> = w.adv.votes.get(&key).map(|m| m.keys().copied().filter(|m| list.has(*m)).collect()).unwrap_or_default();
    for x in &byz {
        if list.has(*x) && !who.contains(x) {
            who.push(*x);
        }
    }
    let full: u64 = list.idx.iter().map(|m| list.weight(*m)).sum();
    let have: u64 = who.iter().map(|m| list.weight(*m)).sum();
    if have * 100 < full * 60 {
        return;
    }
    let Some(part) = just_short(&list, &who) else { return };
    let Some((idx, mut r)) = turn(w) else { return };
    w.adv.edged.insert(key.clone());
    for x in byz {
        if part.contains(&x) {
            let _ = signed_vote(w, x, key.0, key.1, key.2, &key.3);
        }
    }
    let Some(pool) = w.adv.votes.get(&key).cloned() else { return };
    let sigs: Vec<Bytes> = part.iter().filter_map(|m| pool.get(m).cloned()).collect();
    let Some(sig) = Keys::aggregate(&sigs) else { return };
    let leader = list.leader(&w.keys, key.0, key.1);
    let q = AggregatedVote {
        signature: AggregatedSignature {
            signature: sig,
            address_bitmap: list.bitmap(&part),
        },
        vote_type: num_ty(key.2),
        height: key.0,
        round: key.1,
        block_hash: key.3.clone(),
        leader: w.keys.addr[leader].clone(),
    };
    w.adv.qcs.push_back(q.clone());
    let to = if r.chance(600_000) { None } else { some_target(w, &mut r) };
    inject(w, &mut r, to, &OverlordMsg::AggregatedVote(q));
    took(w, idx, 15);
}

fn edge_choke(w: &mut World, h: u64, rd: u64) {
    if w.plan.adv.actions & EDGE == 0 || !sane(h, rd) || w.adv.edged_chokes.contains(&(h, rd)) {
        return;
    }
    let list = w.list(h);
    let Some(b) = w.plan.byz.iter().copied().find(|b| list.has(*b)) else { return };
    let n = list.idx.len();
    let mut have: BTreeMap<usize, Bytes> = w.adv.chokes.get(&(h, rd)).cloned().unwrap_or_default();
    have.retain(|m, _| list.has(*m));
    for x in w.plan.byz.clone() {
        if list.has(x) {
            w.oracle.ledger.choke(x, h, rd);
            let s = w.keys.sign(x, &choke_hash(h, rd));
            have.insert(x, s);
        }
    }
    let want = n * 2 / 3; // the most that is no quorum
    if have.len() != want {
        return;
    }
    let Some((idx, mut r)) = turn(w) else { return };
    w.adv.edged_chokes.insert((h, rd));
    let (voters, sigs): (Vec<Address>, Vec<Bytes>) = have.iter().map(|(m, s)| (w.keys.addr[*m].clone(), s.clone())).unzip();
    w.oracle.ledger.choke(b, h, rd + 1);
    let d = choke_hash(h, rd + 1);
    let m = OverlordMsg::SignedChoke(SignedChoke {
        signature: w.keys.sign(b, &d),
        choke: Choke {
            height: h,
            round: rd + 1,
            from: UpdateFrom::ChokeQC(AggregatedChoke {
                height: h,
                round: rd,
                signature: Keys::aggregate(&sigs).unwrap(),
                voters,
            }),
        },
        address: w.keys.addr[b].clone(),
    });
    if r.chance(500_000) {
        // at once, before anything else
        if let Some(wire) = to_wire(&m) {
            let n = w.insts.len();
            for t in 0..n {
                if !w.insts[t].byz {
                    let wr = wire.clone();
                    simrt::after(1, move || deliver(n, t, wr));
                }
            }
        }
    } else {
        inject(w, &mut r, None, &m);
    }
    took(w, idx, 15);
}

/// Somebody without any rights in the round speaks up in every one of them.
fn flood(w: &mut World, key: VoteKey) {
    if w.plan.adv.actions & FLOOD == 0 || !sane(key.0, key.1) {
        return;
    }
    let n = w.insts.len();
    let list = w.list(key.0);
    let outsider = w.plan.n;
    if !w.adv.flooded.contains(&(key.clone(), 0)) {
        let Some((idx, mut r)) = turn(w) else { return };
        w.adv.flooded.insert((key.clone(), 0));
        let d = vote_hash(key.0, key.1, num_ty(key.2), &key.3);
        let m = OverlordMsg::SignedVote(SignedVote {
            signature: w.keys.sign(outsider, &d),
            vote: Vote {
                height: key.0,
                round: key.1,
                vote_type: num_ty(key.2),
                block_hash: key.3.clone(),
            },
            voter: w.keys.addr[outsider].clone(),
        });
        let l = list.leader(&w.keys, key.0, key.1);
        if let Some(wire) = to_wire(&m) {
            for t in 0..n {
                if w.insts[t].member == l && !w.insts[t].byz {
                    let wr = wire.clone();
                    let d = r.below(3) * w.plan.net.min_us.max(1);
                    simrt::after(d * US + 1, move || deliver(n, t, wr));
                }
            }
        }
        took(w, idx, 16);
    }
    // a bogus proposal for the places to come
    for (h, rd) in [(key.0, key.1 + 1), (key.0 + 1, 0)] {
        let slot = ((h, rd, 0, Hash::new()), 1);
        if w.adv.flooded.contains(&slot) {
            continue;
        }
        let Some((idx, mut r)) = turn(w) else { return };
        w.adv.flooded.insert(slot);
        let list = w.list(h);
        let l = list.leader(&w.keys, h, rd);
        let byz = w.plan.byz.clone();
        w.adv.nonce += 1;
        let content = Blk::new(h, outsider, w.adv.nonce, 0);
        // a member out of turn, or anybody in the leader's name
        let (signer, named) = match byz.iter().copied().find(|b| *b != l) {
            Some(b) if w.plan.seed & 1 == 0 => (b, b),
            Some(b) => (b, l),
            None => (outsider, if w.plan.seed & 1 == 0 { outsider } else { l }),
        };
        let p = Proposal {
            height: h,
            round: rd,
            block_hash: content.hash(),
            content,
            lock: None,
            proposer: w.keys.addr[named].clone(),
        };
        w.blocks.entry(p.block_hash.clone()).or_insert(p.content.0.clone());
        let d = h32(&rlp::encode(&p));
        let m = OverlordMsg::SignedProposal(SignedProposal {
            signature: w.keys.sign(signer, &d),
            proposal: p,
        });
        inject(w, &mut r, None, &m);
        took(w, idx, 16);
    }
}

/// As soon as a block is known, certificates of it and of nothing, complete but for the signatures:
/// those who are still a height or a round behind keep them for later.
fn vouch(w: &mut World, key: VoteKey) {
    let slot = (key.clone(), 2);
    if w.plan.adv.actions & VOUCH == 0 || !sane(key.0, key.1) || key.3.is_empty() || w.adv.flooded.contains(&slot) {
        return;
    }
    let Some((idx, mut r)) = turn(w) else { return };
    w.adv.flooded.insert(slot);
    let signer = w.plan.byz.first().copied().unwrap_or(w.plan.n);
    let kinds: Vec<(u64, u64, u8, Hash)> = vec![
        (key.0, key.1, 2, key.3.clone()),
        (key.0, key.1, 1, key.3.clone()),
        (key.0, key.1, 2, Hash::new()),
        (key.0, key.1, 1, Hash::new()),
        (key.0, key.1 + 1, 1, key.3.clone()),
        (key.0 + 1, 0, 2, Hash::new()),
        (key.0 + 1, 0, 1, Hash::new()),
    ];
    let some = r.below(3);
    for (h, rd, ty, x) in kinds {
        if some > 0 && !r.chance(350_000) {
            continue;
        }
        let list = w.list(h);
        let l = list.leader(&w.keys, h, rd);
        let d = vote_hash(h, rd, num_ty(ty), &x);
        let q = AggregatedVote {
            signature: AggregatedSignature {
                signature: if r.chance(500_000) { w.keys.sign(signer, &d) } else { Bytes::from(vec![9u8; 16]) },
                address_bitmap: list.bitmap(&list.idx.clone()),
            },
            vote_type: num_ty(ty),
            height: h,
            round: rd,
            block_hash: x,
            leader: w.keys.addr[l].clone(),
        };
        let m = OverlordMsg::AggregatedVote(q);
        let to = if r.chance(600_000) { None } else { some_target(w, &mut r) };
        inject(w, &mut r, to, &m);
    }
    took(w, idx, 18);
}

/// What was really signed elsewhere, at another height, round, for another block or as another
/// kind of vote, is presented as of here.
fn relabel(w: &mut World, at: (u64, u64)) {
    let slot = ((at.0, at.1, 0, Hash::new()), 3);
    if w.plan.adv.actions & RELABEL == 0 || !sane(at.0, at.1) || w.adv.flooded.contains(&slot) {
        return;
    }
    let Some((idx, mut r)) = turn(w) else { return };
    w.adv.flooded.insert(slot);
    let (h, rd) = at;
    let list = w.list(h);
    let n = list.idx.len();
    let byz = w.plan.byz.iter().copied().find(|b| list.has(*b));
    let which = r.below(8);
    let mut out: Vec<Msg> = vec![];
    // abandonments of other places
    if which & 1 == 0 {
        let mut from: Vec<((u64, u64), BTreeMap<usize, Bytes>)> = w
            .adv
            .chokes
            .iter()
            .filter(|x| *x.0 != at)
            .map(|x| (*x.0, x.1.iter().filter(|y| list.has(*y.0)).map(|y| (*y.0, y.1.clone())).collect()))
            .collect();
        from.sort_by_key(|x| std::cmp::Reverse((x.1.len(), x.0 .1 == rd)));
        if let Some((_, have)) = from.first() {
            for (m, s) in have {
                out.push(OverlordMsg::SignedChoke(SignedChoke {
                    signature: s.clone(),
                    choke: Choke {
                        height: h,
                        round: rd,
                        from: match w.adv.qcs.back() {
                            Some(q) => UpdateFrom::PrevoteQC(q.clone()),
                            None => UpdateFrom::PrecommitQC(bogus_qc(w, h, rd, 2, &Hash::new(), &mut r)),
                        },
                    },
                    address: w.keys.addr[*m].clone(),
                }));
            }
            if let (Some(b), true) = (byz, have.len() * 3 > n * 2) {
                let (voters, sigs): (Vec<Address>, Vec<Bytes>) = have.iter().map(|(m, s)| (w.keys.addr[*m].clone(), s.clone())).unzip();
                w.oracle.ledger.choke(b, h, rd + 1);
                out.push(OverlordMsg::SignedChoke(SignedChoke {
                    signature: w.keys.sign(b, &choke_hash(h, rd + 1)),
                    choke: Choke {
                        height: h,
                        round: rd + 1,
                        from: UpdateFrom::ChokeQC(AggregatedChoke {
                            height: h,
                            round: rd,
                            signature: Keys::aggregate(&sigs).unwrap(),
                            voters,
                        }),
                    },
                    address: w.keys.addr[b].clone(),
                }));
            }
        }
    }
    // votes and certificates of other places, blocks and kinds
    let near = |x: &&VoteKey| x.0.saturating_add(2) >= h && x.0 <= h;
    let keys: Vec<VoteKey> = w.adv.votes.keys().filter(near).cloned().collect();
    if which & 2 == 0 && !keys.is_empty() {
        for _ in 0..3 {
            let key = r.pick(&keys).clone();
            let mut as_ = (h, rd, key.2, key.3.clone());
            match r.below(4) {
                0 => as_.2 = 3 - key.2,
                1 => as_ = (key.0, key.1, 3 - key.2, key.3.clone()),
                2 => as_.3 = known_hash(w, h, &mut r).unwrap_or_default(),
                _ => {}
            }
            if as_ == key {
                continue;
            }
            let have = w.adv.votes[&key].clone();
            for (m, s) in &have {
                out.push(OverlordMsg::SignedVote(SignedVote {
                    signature: s.clone(),
                    vote: Vote {
                        height: as_.0,
                        round: as_.1,
                        vote_type: num_ty(as_.2),
                        block_hash: as_.3.clone(),
                    },
                    voter: w.keys.addr[*m].clone(),
                }));
            }
            let list = w.list(as_.0);
            let who: Vec<usize> = have.keys().copied().filter(|m| list.has(*m)).collect();
            if list.quorum(&who) {
                let sigs: Vec<Bytes> = who.iter().map(|m| have[m].clone()).collect();
                let l = list.leader(&w.keys, as_.0, as_.1);
                out.push(OverlordMsg::AggregatedVote(AggregatedVote {
                    signature: AggregatedSignature {
                        signature: Keys::aggregate(&sigs).unwrap(),
                        address_bitmap: list.bitmap(&who),
                    },
                    vote_type: num_ty(as_.2),
                    height: as_.0,
                    round: as_.1,
                    block_hash: as_.3,
                    leader: w.keys.addr[l].clone(),
                }));
            }
        }
    }
    // what the leader proposed elsewhere, and certificates that were sent
    if which & 4 == 0 {
        let l = list.leader(&w.keys, h, rd);
        let old = w.adv.props.iter().rev().find(|p| p.proposal.proposer == w.keys.addr[l] && (p.proposal.height, p.proposal.round) != at);
        if let Some(mut p) = old.cloned() {
            (p.proposal.height, p.proposal.round) = at;
            p.proposal.lock = None;
            out.push(OverlordMsg::SignedProposal(p));
        }
        let qcs: Vec<AggregatedVote> = w.adv.qcs.iter().cloned().collect();
        for mut q in qcs.into_iter().rev().take(3) {
            match r.below(4) {
                0 => q.vote_type = num_ty(3 - ty_num(&q.vote_type)),
                1 => q.round += 1,
                2 => (q.height, q.round) = at,
                _ => q.block_hash = known_hash(w, q.height, &mut r).unwrap_or_default(),
            }
            out.push(OverlordMsg::AggregatedVote(q));
        }
    }
    if out.is_empty() {
        return;
    }
    for m in &out {
        let to = if r.chance(700_000) { None } else { some_target(w, &mut r) };
        inject(w, &mut r, to, m);
    }
    took(w, idx, 19);
}

/// Post to one instance or to all, after a short delay.
fn inject(w: &mut World, r: &mut Rng, to: Option<usize>, msg: &Msg) {
    crate::pure::message(w, msg);
    let Some(wire) = to_wire(msg) else { return };
    inject_wire(w, r, to, wire);
}
fn inject_wire(w: &mut World, r: &mut Rng, to: Option<usize>, wire: Wire) {
    let n = w.insts.len();
    let max = w.plan.net.max_us.max(1);
    let targets: Vec<usize> = match to {
        Some(t) => vec![t],
        None => (0..n).collect(),
    };
    for t in targets {
        if w.insts[t].byz {
            continue;
        }
        let d = match r.below(4) {
            0 => 0,
            1 => r.below(max),
            2 => r.below(4 * max),
            _ => r.below(w.plan.interval * 300),
        };
        let wr = wire.clone();
        simrt::after(d * US + 1, move || deliver(n, t, wr));
    }
}

fn some_target(w: &World, r: &mut Rng) -> Option<usize> {
    if r.chance(350_000) {
        None
    } else {
        let c: Vec<usize> = w.insts.iter().filter(|i| !i.byz).map(|i| i.id).collect();
        Some(*r.pick(&c))
    }
}

fn sane(h: u64, r: u64) -> bool {
    h < 1 << 40 && r < 1 << 40
}

fn signed_vote(w: &mut World, b: usize, h: u64, r: u64, ty: u8, hash: &Hash) -> SignedVote {
    let d = vote_hash(h, r, num_ty(ty), hash);
    w.oracle.ledger.vote(b, h, r, ty, hash);
    let sig = w.keys.sign(b, &d);
    w.adv.votes.entry((h, r, ty, hash.clone())).or_default().insert(b, sig.clone());
    SignedVote {
        signature: sig,
        vote: Vote {
            height: h,
            round: r,
            vote_type: num_ty(ty),
            block_hash: hash.clone(),
        },
        voter: w.keys.addr[b].clone(),
    }
}

fn signed_proposal(w: &mut World, b: usize, p: Proposal<Blk>) -> SignedProposal<Blk> {
    w.oracle.ledger.prop(b, p.height, p.round, &p.block_hash, &p.content.0);
    let d = h32(&rlp::encode(&p));
    SignedProposal {
        signature: w.keys.sign(b, &d),
        proposal: p,
    }
}

fn known_hash(w: &World, h: u64, r: &mut Rng) -> Option<Hash> {
    let v: Vec<Hash> = w
        .oracle
        .ledger
        .props
        .range((h, 0)..=(h, u64::MAX))
        .flat_map(|(_, v)| v.iter().map(|p| p.1.clone()))
        .collect();
    if v.is_empty() {
        None
    } else {
        Some(r.pick(&v).clone())
    }
}

fn some_hash(w: &World, h: u64, r: &mut Rng) -> Hash {
    match r.below(4) {
        0 => Hash::new(),
        1 => Bytes::from(h32(&r.next().to_le_bytes())),
        _ => known_hash(w, h, r).unwrap_or_default(),
    }
}

/// A certificate built from signatures the adversary really has.
fn qc_from_pool(w: &mut World, key: &VoteKey, take: Option<usize>, leader: usize) -> Option<AggregatedVote> {
    let list = w.list(key.0);
    let sigs = w.adv.votes.get(key)?.clone();
    let mut who: Vec<usize> = sigs.keys().copied().filter(|m| list.has(*m)).collect();
    if let Some(k) = take {
        who.truncate(k);
    }
    if who.is_empty() {
        return None;
    }
    let s: Vec<Bytes> = who.iter().map(|m| sigs[m].clone()).collect();
    Some(AggregatedVote {
        signature: AggregatedSignature {
            signature: Keys::aggregate(&s)?,
            address_bitmap: list.bitmap(&who),
        },
        vote_type: num_ty(key.2),
        height: key.0,
        round: key.1,
        block_hash: key.3.clone(),
        leader: w.keys.addr[leader].clone(),
    })
}

/// One that does not hold: below quorum, padded bitmap, wrong aggregate.
fn bogus_qc(w: &mut World, h: u64, rd: u64, ty: u8, hash: &Hash, r: &mut Rng) -> AggregatedVote {
    let list = w.list(h);
    let n = list.idx.len();
    let signer = w.plan.byz.first().copied().unwrap_or(w.plan.n);
    for b in w.plan.byz.clone() {
        let _ = signed_vote(w, b, h, rd, ty, hash);
    }
    let key = (h, rd, ty, hash.clone());
    let base = qc_from_pool(w, &key, Some(1 + r.below(n as u64) as usize), signer);
    let d = vote_hash(h, rd, num_ty(ty), hash);
    let mut qc = base.unwrap_or_else(|| AggregatedVote {
        signature: AggregatedSignature {
            signature: w.keys.sign(signer, &d),
            address_bitmap: list.bitmap(&list.idx[..1]),
        },
        vote_type: num_ty(ty),
        height: h,
        round: rd,
        block_hash: hash.clone(),
        leader: w.keys.addr[signer].clone(),
    });
    match r.below(6) {
        0 => qc.signature.address_bitmap = list.bitmap(&list.idx.clone()),
        1 => {
            // the aggregate of one signature counted for everybody
            let s = w.keys.sign(signer, &d);
            let all: Vec<Bytes> = (0..n).map(|_| s.clone()).collect();
            qc.signature.signature = Keys::aggregate(&all).unwrap();
            qc.signature.address_bitmap = list.bitmap(&list.idx.clone());
        }
        2 => {
            let mut v = qc.signature.address_bitmap.to_vec();
            v.push(0xff);
            qc.signature.address_bitmap = Bytes::from(v);
        }
        3 => qc.signature.address_bitmap = Bytes::new(),
        _ => {}
    }
    qc
}

fn some_qc(w: &mut World, h: u64, rd: u64, r: &mut Rng) -> AggregatedVote {
    let real: Vec<AggregatedVote> = w.adv.qcs.iter().cloned().collect();
    if !real.is_empty() && r.chance(450_000) {
        let mut q = r.pick(&real).clone();
        match r.below(6) {
            0 => q.round = rd,
            1 => q.height = h,
            2 => {
                q.vote_type = if q.is_prevote_qc() { VoteType::Precommit } else { VoteType::Prevote }
            }
            3 => q.block_hash = some_hash(w, h, r),
            _ => {}
        }
        return q;
    }
    let hash = some_hash(w, h, r);
    let ty = 1 + r.below(2) as u8;
    bogus_qc(w, h, rd, ty, &hash, r)
}

fn act(w: &mut World, action: u32, msg: &Msg, r: &mut Rng) -> bool {
    let (mut h, mut rd) = msg_hr(msg);
    if !sane(h, rd) {
        return false;
    }
    match r.below(8) {
        0 => rd += 1,
        1 => {
            h += 1;
            rd = 0
        }
        2 if rd > 0 => rd -= 1,
        3 => rd += r.below(4),
        _ => {}
    }
    let byz = w.plan.byz.clone();
    let b = if byz.is_empty() { None } else { Some(*r.pick(&byz)) };
    let outsider = w.plan.n;
    match action {
        DOUBLE_VOTE | HELP => {
            let Some(b) = b else { return false };
            let ty = 1 + r.below(2) as u8;
            let hash = if action == HELP {
                match msg {
                    OverlordMsg::SignedVote(v) => v.vote.block_hash.clone(),
                    _ => known_hash(w, h, r).unwrap_or_default(),
                }
            } else {
                some_hash(w, h, r)
            };
            let list = w.list(h);
            let v = signed_vote(w, b, h, rd, ty, &hash);
            let to = if r.chance(700_000) {
                let l = list.leader(&w.keys, h, rd);
                Some(l)
            } else {
                some_target(w, r)
            };
            inject(w, r, to, &OverlordMsg::SignedVote(v));
            true
        }
        BAD_PROPOSAL | POLC | REUSE => {
            let Some(b) = b else { return false };
            // only where this member leads, most of the time
            let list = w.list(h);
            let mut at = None;
            for dh in 0..3u64 {
                for dr in 0..4u64 {
                    let (hh, rr) = (h + dh, if dh == 0 { rd + dr } else { dr });
                    let l = w.list(hh);
                    if at.is_none() && l.leader(&w.keys, hh, rr) == b {
                        at = Some((hh, rr));
                    }
                }
            }
            let (h, rd) = match at {
                Some(x) if r.chance(900_000) => x,
                _ => (h, rd),
            };
            let _ = list;
            let versions = 1 + r.below(3);
            for _ in 0..versions {
                w.adv.nonce += 1;
                let n = w.adv.nonce;
                let flags = if r.chance(250_000) { FLAG_INVALID } else { 0 };
                let mut content = Blk::new(h, b, n, flags);
                let mut hash = content.hash();
                let old: Vec<SignedProposal<Blk>> = w.adv.props.iter().cloned().collect();
                if action == REUSE {
                    if old.is_empty() {
                        return false;
                    }
                    let here: Vec<SignedProposal<Blk>> = old.iter().filter(|x| x.proposal.height == h).cloned().collect();
                    let o = if here.is_empty() || r.chance(400_000) { r.pick(&old) } else { r.pick(&here) }.proposal.clone();
                    match r.below(3) {
                        0 => hash = o.block_hash, // other content under a known hash
                        1 => {
                            content = o.content;
                            hash = o.block_hash;
                        }
                        _ => content = o.content,
                    }
                } else if !old.is_empty() && r.chance(300_000) {
                    let o = r.pick(&old).proposal.clone();
                    content = o.content;
                    hash = o.block_hash;
                }
                if r.chance(50_000) {
                    hash = Hash::new();
                }
                let lock = if action == POLC || r.chance(150_000) {
                    let q = some_qc(w, h, rd.saturating_sub(1), r);
                    if r.chance(400_000) {
                        hash = q.block_hash.clone();
                        if let Some(c) = w.blocks.get(&hash) {
                            content = Blk(c.clone());
                        }
                    }
                    let lr = match r.below(4) {
                        0 => rd,
                        1 => rd.saturating_sub(1),
                        2 => r.below(12),
                        _ => q.round,
                    };
                    Some(PoLC {
                        lock_round: lr,
                        lock_votes: q,
                    })
                } else {
                    None
                };
                w.blocks.entry(hash.clone()).or_insert(content.0.clone());
                let p = Proposal {
                    height: h,
                    round: rd,
                    content,
                    block_hash: hash,
                    lock,
                    proposer: w.keys.addr[b].clone(),
                };
                let sp = signed_proposal(w, b, p);
                let all = versions == 1 && r.chance(500_000);
                let m = OverlordMsg::SignedProposal(sp.clone());
                w.adv.props.push_back(sp);
                if all {
                    inject(w, r, None, &m);
                } else {
                    let n = w.insts.len();
                    for t in 0..n {
                        if r.chance(1_000_000 / (versions as u32).max(2)) {
                            inject(w, r, Some(t), &m);
                        }
                    }
                }
            }
            true
        }
        STALE => {
            let Some(b) = b else { return false };
            // the next place where this member leads, at this height or one of the two after it
            let mut at = None;
            let skip = r.below(3);
            'found: for dh in 0..3u64 {
                let l = w.list(h + dh);
                for dr in 0..5u64 {
                    let rr = if dh == 0 { rd + dr } else { dr };
                    if dh * 5 + dr >= skip && l.leader(&w.keys, h + dh, rr) == b {
                        at = Some((h + dh, rr));
                        break 'found;
                    }
                }
            }
            let Some((h, rd)) = at else { return false };
            let old: Vec<SignedProposal<Blk>> = w
                .adv
                .props
                .iter()
                .filter(|p| p.proposal.height < h && p.proposal.height + 3 >= h)
                .cloned()
                .collect();
            if old.is_empty() {
                return false;
            }
            let o = r.pick(&old).proposal.clone();
            let p = Proposal {
                height: h,
                round: rd,
                content: o.content,
                block_hash: o.block_hash,
                lock: None,
                proposer: w.keys.addr[b].clone(),
            };
            let sp = signed_proposal(w, b, p);
            let m = OverlordMsg::SignedProposal(sp.clone());
            w.adv.props.push_back(sp);
            inject(w, r, None, &m);
            true
        }
        LEAD | EDGE | FLOOD | VOUCH => false,
        FORGE => {
            // what the leader of a coming round might say, but did not
            let list = w.list(h);
            let cands: Vec<AggregatedVote> = w
                .adv
                .qcs
                .iter()
                .filter(|q| q.is_prevote_qc() && q.height == h && !q.block_hash.is_empty() && sane(q.height, q.round))
                .cloned()
                .collect();
            let lock = if cands.is_empty() || r.chance(200_000) { None } else { Some(r.pick(&cands).clone()) };
            let rr = match &lock {
                Some(q) => q.round + 1 + r.below(2),
                None => rd,
            };
            let l = list.leader(&w.keys, h, rr);
            let (content, hash) = match &lock {
                Some(q) if w.blocks.contains_key(&q.block_hash) => (Blk(w.blocks[&q.block_hash].clone()), q.block_hash.clone()),
                _ => {
                    w.adv.nonce += 1;
                    let c = Blk::new(h, l, w.adv.nonce, 0);
                    let x = c.hash();
                    (c, x)
                }
            };
            let p = Proposal {
                height: h,
                round: rr,
                content,
                block_hash: hash,
                lock: lock.map(|q| PoLC {
                    lock_round: q.round,
                    lock_votes: q,
                }),
                proposer: w.keys.addr[l].clone(),
            };
            w.blocks.entry(p.block_hash.clone()).or_insert(p.content.0.clone());
            let d = h32(&rlp::encode(&p));
            let signer = b.filter(|b| *b != l).unwrap_or(outsider);
            let m = OverlordMsg::SignedProposal(SignedProposal {
                signature: w.keys.sign(signer, &d),
                proposal: p,
            });
            inject(w, r, None, &m);
            true
        }
        SMALL_QC => {
            let hash = some_hash(w, h, r);
            let ty = 1 + r.below(2) as u8;
            let q = bogus_qc(w, h, rd, ty, &hash, r);
            let to = some_target(w, r);
            inject(w, r, to, &OverlordMsg::AggregatedVote(q));
            true
        }
        REAL_QC => {
            let keys: Vec<VoteKey> = w
                .adv
                .votes
                .keys()
                .filter(|k| k.0.saturating_add(1) >= h && sane(k.0, k.1))
                .cloned()
                .collect();
            if keys.is_empty() {
                return false;
            }
            let k = r.pick(&keys).clone();
            for b in byz {
                let _ = signed_vote(w, b, k.0, k.1, k.2, &k.3);
            }
            let list = w.list(k.0);
            let who: Vec<usize> = w.adv.votes.get(&k).map(|m| m.keys().copied().collect()).unwrap_or_default();
            if !list.quorum(&who) {
                return false;
            }
            let leader = b.unwrap_or(outsider);
            let Some(q) = qc_from_pool(w, &k, None, leader) else { return false };
            w.adv.qcs.push_back(q.clone());
            let to = some_target(w, r);
            inject(w, r, to, &OverlordMsg::AggregatedVote(q));
            true
        }
        CHOKE => {
            let signer = b.unwrap_or(outsider);
            let list = w.list(h);
            let mut crd = rd + r.below(4);
            // a genuine certificate of an earlier height, for the round the others are in or later
            let old = w
                .adv
                .chokes
                .range(..(h, 0))
                .rev()
                .take(40)
                .find(|(k, m)| k.1 >= rd && k.1 != u64::MAX && w.plan.epoch(k.0).from == w.plan.epoch(h).from && list.count_quorum(m.keys()))
                .map(|(k, m)| (*k, m.clone()));
            let old = old.filter(|_| r.chance(300_000));
            if let Some((k, _)) = &old {
                crd = k.1 + 1;
            }
            let from = match r.below(4) {
                _ if old.is_some() => {
                    let ((ch, cr), m) = old.unwrap();
                    let (voters, sigs): (Vec<Address>, Vec<Bytes>) = m.iter().map(|(a, b)| (w.keys.addr[*a].clone(), b.clone())).unzip();
                    w.probe("choke certificate of an earlier height presented");
                    UpdateFrom::ChokeQC(AggregatedChoke {
                        height: ch,
                        round: cr,
                        signature: Keys::aggregate(&sigs).unwrap(),
                        voters,
                    })
                }
                0 => UpdateFrom::PrevoteQC(some_qc(w, h, crd.saturating_sub(1), r)),
                1 => UpdateFrom::PrecommitQC(some_qc(w, h, crd.saturating_sub(1), r)),
                _ => {
                    let cr = match r.below(5) {
                        0 => u64::MAX,
                        1 => crd + r.below(20),
                        _ => crd.saturating_sub(1),
                    };
                    let ch = if r.chance(150_000) { h + 1 } else { h };
                    let d = choke_hash(ch, cr);
                    w.oracle.ledger.choke(signer, ch, cr);
                    let own = w.keys.sign(signer, &d);
                    let n = list.idx.len();
                    let have: Vec<(usize, Bytes)> = w
                        .adv
                        .chokes
                        .get(&(ch, cr))
                        .map(|m| m.iter().map(|(a, b)| (*a, b.clone())).collect())
                        .unwrap_or_default();
                    let (sigs, voters): (Vec<Bytes>, Vec<Address>) = match r.below(5) {
                        // one signature many times over
                        0 => (0..n).map(|_| (own.clone(), w.keys.addr[signer].clone())).unzip(),
                        // everybody named, one signature
                        1 => (vec![own], list.idx.iter().map(|m| w.keys.addr[*m].clone()).collect()),
                        // strangers
                        2 => {
                            // some that are real, if any, and as many strangers as it takes
                            let mut who: Vec<usize> = w.plan.byz.clone();
                            if r.chance(500_000) {
                                who.extend(have.iter().map(|x| x.0));
                            }
                            who.retain(|m| list.has(*m));
                            who.sort_unstable();
                            who.dedup();
                            let mut x = outsider;
                            while who.len() * 3 <= n * 2 && x + 1 < w.keys.addr.len() {
                                who.push(x);
                                x += 1;
                            }
                            who.iter()
                                .map(|m| {
                                    let s = have.iter().find(|y| y.0 == *m).map(|y| y.1.clone());
                                    if w.plan.is_byz(*m) {
                                        w.oracle.ledger.choke(*m, ch, cr);
                                    }
                                    (s.unwrap_or_else(|| w.keys.sign(*m, &d)), w.keys.addr[*m].clone())
                                })
                                .unzip()
                        }
                        // real ones, too few or padded
                        _ => {
                            let mut v: Vec<(Bytes, Address)> =
                                have.iter().map(|(m, s)| (s.clone(), w.keys.addr[*m].clone())).collect();
                            v.push((own.clone(), w.keys.addr[signer].clone()));
                            if r.chance(500_000) {
                                while v.len() * 3 <= n * 2 {
                                    let x = v[r.below(v.len() as u64) as usize].clone();
                                    v.push(x);
                                }
                            }
                            v.into_iter().unzip()
                        }
                    };
                    UpdateFrom::ChokeQC(AggregatedChoke {
                        height: ch,
                        round: cr,
                        signature: Keys::aggregate(&sigs).unwrap(),
                        voters,
                    })
                }
            };
            w.oracle.ledger.choke(signer, h, crd);
            let d = choke_hash(h, crd);
            let sc = SignedChoke {
                signature: w.keys.sign(signer, &d),
                choke: Choke {
                    height: h,
                    round: crd,
                    from,
                },
                address: w.keys.addr[signer].clone(),
            };
            let to = some_target(w, r);
            inject(w, r, to, &OverlordMsg::SignedChoke(sc));
            true
        }
        REPLAY => {
            let v: Vec<Wire> = w.adv.wires.iter().cloned().collect();
            if v.is_empty() {
                return false;
            }
            let x = r.pick(&v).clone();
            let to = some_target(w, r);
            let times = 1 + r.below(3);
            for _ in 0..times {
                inject_wire(w, r, to, x.clone());
            }
            true
        }
        FUTURE => {
            // really signed by a faulty member, and up to where no node will ever get
            if let (Some(b), true) = (b, r.chance(400_000)) {
                let hh = match r.below(4) {
                    0 => h,
                    1 => h + r.below(7),
                    2 => h + 5 + r.below(300),
                    _ => h + r.below(1 << 40),
                };
                let rr = [r.below(12), r.below(1 << 40)][r.below(2) as usize];
                let hash = some_hash(w, hh, r);
                let m = if r.chance(700_000) {
                    OverlordMsg::SignedVote(signed_vote(w, b, hh, rr, 1 + r.below(2) as u8, &hash))
                } else {
                    w.adv.nonce += 1;
                    let content = Blk::new(hh, b, w.adv.nonce, 0);
                    OverlordMsg::SignedProposal(signed_proposal(
                        w,
                        b,
                        Proposal {
                            height: hh,
                            round: rr,
                            block_hash: content.hash(),
                            content,
                            lock: None,
                            proposer: w.keys.addr[b].clone(),
                        },
                    ))
                };
                let to = some_target(w, r);
                inject(w, r, to, &m);
                return true;
            }
            let hh = h + r.below(7);
            let rr = r.below(12);
            let m = match r.below(3) {
                0 => {
                    let hash = some_hash(w, hh, r);
                    let list = w.list(hh);
                    let voter = *r.pick(&list.idx);
                    OverlordMsg::SignedVote(SignedVote {
                        signature: Bytes::from(vec![7u8; 16]),
                        vote: Vote {
                            height: hh,
                            round: rr,
                            vote_type: num_ty(1 + r.below(2) as u8),
                            block_hash: hash,
                        },
                        voter: w.keys.addr[voter].clone(),
                    })
                }
                1 => {
                    let hash = some_hash(w, hh, r);
                    let list = w.list(hh);
                    OverlordMsg::AggregatedVote(AggregatedVote {
                        signature: AggregatedSignature {
                            signature: Bytes::from(vec![9u8; 16]),
                            address_bitmap: list.bitmap(&list.idx.clone()),
                        },
                        vote_type: num_ty(1 + r.below(2) as u8),
                        height: hh,
                        round: rr,
                        block_hash: hash,
                        leader: Bytes::new(),
                    })
                }
                _ => {
                    let list = w.list(hh);
                    let l = list.leader(&w.keys, hh, rr);
                    w.adv.nonce += 1;
                    let content = Blk::new(hh, l, w.adv.nonce, 0);
                    OverlordMsg::SignedProposal(SignedProposal {
                        signature: Bytes::from(vec![5u8; 16]),
                        proposal: Proposal {
                            height: hh,
                            round: rr,
                            block_hash: content.hash(),
                            content,
                            lock: None,
                            proposer: w.keys.addr[l].clone(),
                        },
                    })
                }
            };
            let to = some_target(w, r);
            inject(w, r, to, &m);
            true
        }
        OUTSIDER => {
            let addr = w.keys.addr[outsider].clone();
            let m = match r.below(3) {
                0 => {
                    let hash = some_hash(w, h, r);
                    OverlordMsg::SignedVote(signed_vote(w, outsider, h, rd, 1 + r.below(2) as u8, &hash))
                }
                1 => {
                    w.adv.nonce += 1;
                    let content = Blk::new(h, outsider, w.adv.nonce, 0);
                    let list = w.list(h);
                    // its own name, or the leader's over its own signature
                    let l = list.leader(&w.keys, h, rd);
                    let proposer = if r.chance(500_000) { addr } else { w.keys.addr[l].clone() };
                    let p = Proposal {
                        height: h,
                        round: rd,
                        block_hash: content.hash(),
                        content,
                        lock: None,
                        proposer,
                    };
                    let d = h32(&rlp::encode(&p));
                    OverlordMsg::SignedProposal(SignedProposal {
                        signature: w.keys.sign(outsider, &d),
                        proposal: p,
                    })
                }
                _ => {
                    let d = choke_hash(h, rd);
                    OverlordMsg::SignedChoke(SignedChoke {
                        signature: w.keys.sign(outsider, &d),
                        choke: Choke {
                            height: h,
                            round: rd,
                            from: UpdateFrom::PrevoteQC(some_qc(w, h, rd, r)),
                        },
                        address: addr,
                    })
                }
            };
            let to = some_target(w, r);
            inject(w, r, to, &m);
            true
        }
        MUTATE => {
            let v: Vec<Wire> = w.adv.wires.iter().cloned().collect();
            if v.is_empty() {
                return false;
            }
            let x = r.pick(&v).clone();
            let Some(mut m) = from_wire(&x) else { return false };
            match &mut m {
                OverlordMsg::SignedVote(v) => match r.below(5) {
                    0 => v.vote.height += 1,
                    1 => v.vote.round += 1,
                    2 => v.vote.block_hash = some_hash(w, h, r),
                    3 => {
                        let list = w.list(h);
                        let k = *r.pick(&list.idx);
                        v.voter = w.keys.addr[k].clone();
                    }
                    _ => {
                        v.vote.vote_type = if v.is_prevote() { VoteType::Precommit } else { VoteType::Prevote }
                    }
                },
                OverlordMsg::AggregatedVote(q) => match r.below(5) {
                    0 => q.round += 1,
                    1 => q.height += 1,
                    2 => q.block_hash = some_hash(w, h, r),
                    3 => {
                        q.vote_type = if q.is_prevote_qc() { VoteType::Precommit } else { VoteType::Prevote }
                    }
                    _ => {
                        let list = w.list(h);
                        q.signature.address_bitmap = list.bitmap(&list.idx.clone());
                    }
                },
                OverlordMsg::SignedProposal(p) => match r.below(5) {
                    0 => p.proposal.round += 1,
                    1 => {
                        w.adv.nonce += 1;
                        p.proposal.content = Blk::new(h, 0, w.adv.nonce, 0);
                    }
                    2 => {
                        w.adv.nonce += 1;
                        let c = Blk::new(p.proposal.height.min(1 << 40), 0, w.adv.nonce, 0);
                        p.proposal.block_hash = c.hash();
                        p.proposal.content = c;
                    }
                    3 => p.proposal.lock = None,
                    _ => {
                        let q = some_qc(w, h, rd, r);
                        p.proposal.lock = Some(PoLC {
                            lock_round: q.round,
                            lock_votes: q,
                        });
                    }
                },
                OverlordMsg::SignedChoke(c) => match r.below(4) {
                    0 => c.choke.round += 1,
                    1 => {
                        let list = w.list(h);
                        let k = *r.pick(&list.idx);
                        c.address = w.keys.addr[k].clone();
                    }
                    2 => c.choke.height += 1,
                    _ => c.choke.from = UpdateFrom::PrecommitQC(some_qc(w, h, rd, r)),
                },
                _ => {}
            }
            let to = some_target(w, r);
            inject(w, r, to, &m);
            true
        }
        EXTREME => {
            let signer = b.unwrap_or(outsider);
            const XS: [u64; 7] = [0, 1, u64::MAX, u64::MAX - 1, 1 << 63, u32::MAX as u64, u64::MAX / 2];
            let hx = if r.chance(500_000) { h } else { *r.pick(&XS) };
            let rx = *r.pick(&XS);
            let odd = |r: &mut Rng, b: Bytes| -> Bytes {
                match r.below(6) {
                    0 => Bytes::new(),
                    1 => Bytes::from(vec![0xff; 1]),
                    2 => Bytes::from(vec![0u8; 300]),
                    _ => b,
                }
            };
            let m = match r.below(5) {
                0 => {
                    let hash = odd(r, Bytes::from(vec![3u8; 32]));
                    let mut v = signed_vote(w, signer, hx, rx, 1 + r.below(2) as u8, &hash);
                    v.voter = odd(r, v.voter);
                    OverlordMsg::SignedVote(v)
                }
                1 => {
                    let content = Blk::new(hx, signer, 1, 0);
                    let lock = if r.chance(500_000) {
                        let mut q = bogus_qc(w, h, rd, 1, &content.hash(), r);
                        q.round = *r.pick(&XS);
                        q.height = *r.pick(&XS);
                        Some(PoLC {
                            lock_round: *r.pick(&XS),
                            lock_votes: q,
                        })
                    } else {
                        None
                    };
                    let p = Proposal {
                        height: hx,
                        round: rx,
                        block_hash: odd(r, content.hash()),
                        content,
                        lock,
                        proposer: w.keys.addr[signer].clone(),
                    };
                    OverlordMsg::SignedProposal(signed_proposal(w, signer, p))
                }
                2 => {
                    let hash = known_hash(w, h, r).unwrap_or_default();
                    let mut q = bogus_qc(w, h, rd, 1 + r.below(2) as u8, &hash, r);
                    q.height = hx;
                    q.round = rx;
                    q.block_hash = odd(r, q.block_hash);
                    q.leader = odd(r, q.leader);
                    OverlordMsg::AggregatedVote(q)
                }
                _ => {
                    let from = match r.below(3) {
                        0 => {
                            let hash = known_hash(w, h, r).unwrap_or_default();
                            let mut q = bogus_qc(w, h, rd, 1, &hash, r);
                            q.round = *r.pick(&XS);
                            UpdateFrom::PrevoteQC(q)
                        }
                        1 => {
                            let mut q = bogus_qc(w, h, rd, 2, &Hash::new(), r);
                            q.round = *r.pick(&XS);
                            UpdateFrom::PrecommitQC(q)
                        }
                        _ => {
                            let cr = *r.pick(&XS);
                            let list = w.list(h);
                            let voters: Vec<Address> = (0..list.idx.len() + 3).map(|_| w.keys.addr[signer].clone()).collect();
                            w.oracle.ledger.choke(signer, h, cr);
                            let s = w.keys.sign(signer, &choke_hash(h, cr));
                            let sigs: Vec<Bytes> = voters.iter().map(|_| s.clone()).collect();
                            UpdateFrom::ChokeQC(AggregatedChoke {
                                height: h,
                                round: cr,
                                signature: Keys::aggregate(&sigs).unwrap(),
                                voters,
                            })
                        }
                    };
                    w.oracle.ledger.choke(signer, hx, rx);
                    let d = choke_hash(hx, rx);
                    OverlordMsg::SignedChoke(SignedChoke {
                        signature: w.keys.sign(signer, &d),
                        choke: Choke {
                            height: hx,
                            round: rx,
                            from,
                        },
                        address: w.keys.addr[signer].clone(),
                    })
                }
            };
            let to = some_target(w, r);
            inject(w, r, to, &m);
            true
        }
        _ => false,
    }
}
