//! What was delivered takes effect (L04): proposals, votes and decisions that reached a node, in
//! time or early, are used once the node is where they belong. Quorums are acted on when they
//! are complete, not at the next timeout (L05).

use crate::model::*;
use crate::plan::Kind;
use crate::world::*;
use overlord::types::*;
use std::collections::{BTreeMap, BTreeSet};

/// What this run of a node has been handed.
#[derive(Default)]
pub struct Mem {
    /// The leader's proposal for (h, r): when, for which block; None if there were several.
    props: BTreeMap<(u64, u64), Option<(u64, Hash)>>,
    /// Precommit certificates for a block.
    decided: BTreeMap<u64, BTreeMap<Hash, u64>>,
    checked: BTreeSet<(u64, Hash)>,
    votes: BTreeMap<(u64, u64, u8), BTreeMap<Hash, BTreeMap<usize, u64>>>,
    certs: BTreeSet<(u64, u64, u8)>,
    entered: BTreeMap<(u64, u64), u64>,
    /// Prevote certificates handed to it, or made by it, when it could use them: (h, r), block.
    prevoted: BTreeSet<(u64, u64, Hash)>,
    /// Its own prevote there is logged.
    voted: BTreeSet<(u64, u64)>,
    /// Calls to abandon the round it was in.
    chokes: BTreeMap<(u64, u64), BTreeSet<usize>>,
}

/// Nothing else goes wrong that would excuse a node.
fn calm(w: &World) -> bool {
    let p = &w.plan;
    p.epochs.len() == 1
        && p.app.sign_err_ppm == 0
        && p.app.send_err_ppm == 0
        && p.app.commit_err_ppm == 0
        && p.app.slow_ppm == 0
        && p.wal.err_ppm == 0
        && !p.faults.iter().any(|f| matches!(f.kind, Kind::WalFail { .. } | Kind::RotWal { .. } | Kind::Stop { .. }))
}

/// More than everything a node may have to do before it gets to a message.
fn slack(w: &World) -> u64 {
    let a = &w.plan.app;
    let calls = a.get_us + a.commit_us + a.send_us + w.plan.wal.save_us;
    (100_000 + 40 * calls + 40 * w.plan.rt.jitter_us) * US
}

/// Will a message of (h, r) be kept or used by the node as it is now?
fn in_reach(w: &World, i: usize, h: u64, r: u64) -> bool {
    let at = crate::oracle::moved(w, i);
    if at == 0 || h < at || h > at + 4 || r >= 9 {
        return false;
    }
    h > at || crate::oracle::round_of(w, i, h).is_none_or(|cr| cr <= r)
}

pub fn on_deliver(w: &mut World, i: usize, msg: &Msg) {
    if w.insts[i].byz || !calm(w) {
        return;
    }
    let now = simrt::now();
    match msg {
        OverlordMsg::SignedProposal(sp) => {
            let p = &sp.proposal;
            let (h, r) = (p.height, p.round);
            if !in_reach(w, i, h, r) {
                return;
            }
            let list = w.list(h);
            let l = list.leader(&w.keys, h, r);
            if p.proposer != w.keys.addr[l] || !w.keys.verify(&sp.signature, &h32(&rlp::encode(p)), &p.proposer) {
                return;
            }
            let sound = crate::oracle::sound(w, sp);
            let plain = sound && !p.block_hash.is_empty();
            let m = crate::oracle::mem(w, i);
            match m.props.get(&(h, r)) {
                None => {
                    m.props.insert((h, r), if plain { Some((now, p.block_hash.clone())) } else { None });
                }
                Some(Some((_, x))) if *x != p.block_hash => {
                    m.props.insert((h, r), None);
                }
                _ => {}
            }
        }
        OverlordMsg::SignedVote(v) => {
            let (h, r, ty) = (v.vote.height, v.vote.round, ty_num(&v.vote.vote_type));
            if !in_reach(w, i, h, r) {
                return;
            }
            let list = w.list(h);
            let Some(m) = w.keys.index(&v.voter) else { return };
            let d = vote_hash(h, r, v.vote.vote_type.clone(), &v.vote.block_hash);
            if !list.has(m) || !w.keys.verify(&v.signature, &d, &v.voter) {
                return;
            }
            crate::oracle::mem(w, i)
                .votes
                .entry((h, r, ty))
                .or_default()
                .entry(v.vote.block_hash.clone())
                .or_default()
                .entry(m)
                .or_insert(now);
        }
        OverlordMsg::AggregatedVote(q) => {
            let (h, r, ty) = (q.height, q.round, ty_num(&q.vote_type));
            let at = crate::oracle::moved(w, i);
            if at == 0 || h < at || h > at + 4 || r >= 9 {
                return;
            }
            let list = w.list(h);
            if qc_ok(&w.keys.clone(), &list, q).is_err() {
                return;
            }
            crate::oracle::mem(w, i).certs.insert((h, r, ty));
            let l = list.leader(&w.keys, h, r);
            if q.leader == w.keys.addr[l] {
                on_cert(w, i, q);
            }
            if ty == 2 && !q.block_hash.is_empty() && q.leader == w.keys.addr[l] {
                let x = q.block_hash.clone();
                let m = crate::oracle::mem(w, i);
                m.decided.entry(h).or_default().entry(x.clone()).or_insert(now);
                if m.checked.contains(&(h, x.clone())) {
                    expect_commit(w, i, h, x);
                }
            }
        }
        OverlordMsg::SignedChoke(c) => {
            if let UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) = &c.choke.from {
                let k = (q.height, q.round, ty_num(&q.vote_type));
                crate::oracle::mem(w, i).certs.insert(k);
            }
            on_choke(w, i, c);
        }
        _ => {}
    }
}

pub fn on_cert_sent(w: &mut World, i: usize, q: &AggregatedVote) {
    let k = (q.height, q.round, ty_num(&q.vote_type));
    crate::oracle::mem(w, i).certs.insert(k);
    if !w.insts[i].byz && calm(w) {
        on_cert(w, i, q);
        let (h, x) = (q.height, q.block_hash.clone());
        if k.2 == 2 && !x.is_empty() {
            let now = simrt::now();
            let m = crate::oracle::mem(w, i);
            m.decided.entry(h).or_default().entry(x.clone()).or_insert(now);
            if m.checked.contains(&(h, x.clone())) {
                expect_commit(w, i, h, x);
            }
        }
    }
}

/// A genuine certificate is in the node's hands.
fn on_cert(w: &mut World, i: usize, q: &AggregatedVote) {
    let (h, r, ty, x) = (q.height, q.round, ty_num(&q.vote_type), q.block_hash.clone());
    if crate::oracle::moved(w, i) != h || crate::oracle::round_of(w, i, h).is_none_or(|cr| cr > r) {
        return;
    }
    if ty == 2 {
        if x.is_empty() {
            w.probe("no block precommitted by a quorum, and that known");
            expect(w, i, "is to leave it: a quorum precommitted nothing there", h, r, 5);
        }
        return;
    }
    crate::oracle::mem(w, i).prevoted.insert((h, r, x.clone()));
    precommit_ready(w, i, h, r, &x);
}

fn precommit_ready(w: &mut World, i: usize, h: u64, r: u64, x: &Hash) {
    let m = crate::oracle::mem(w, i);
    if m.voted.contains(&(h, r)) && m.prevoted.contains(&(h, r, x.clone())) && (x.is_empty() || m.checked.contains(&(h, x.clone()))) {
        w.probe("prevote certificate and accepted block in hand");
        expect(w, i, "is to precommit: it has prevoted, and has the prevote certificate and the block", h, r, 2);
    }
}

fn on_choke(w: &mut World, i: usize, c: &SignedChoke) {
    let (h, r) = (c.choke.height, c.choke.round);
    // who may say what is told by the evidence carried: only where nobody forges any
    if !w.plan.byz.is_empty() || w.plan.net.corrupt_ppm > 0 || (w.plan.adv.act_ppm > 0 && w.plan.adv.actions != 0) {
        return;
    }
    if crate::oracle::moved(w, i) != h || crate::oracle::round_of(w, i, h) != Some(r) {
        return;
    }
    let list = w.list(h);
    let Some(m) = w.keys.index(&c.address) else { return };
    if !list.has(m) || !w.keys.verify(&c.signature, &choke_hash(h, r), &c.address) {
        return;
    }
    let n = list.nodes.len();
    let all = crate::oracle::mem(w, i).chokes.entry((h, r)).or_default();
    if all.insert(m) && all.len() * 3 > n * 2 {
        w.probe("enough calls to abandon a round in hand");
        expect(w, i, "is to leave it: more than two thirds of the members abandon it", h, r, 5);
    }
}

/// It has all it needs to get, in (h, r), at least to this step (5: to a later round).
fn expect(w: &mut World, i: usize, why: &'static str, h: u64, r: u64, step: u8) {
    let inc = w.insts[i].inc;
    let wait = slack(w);
    simrt::after(wait, move || with(|w| step_due(w, i, inc, why, h, r, step)));
}

fn step_due(w: &mut World, i: usize, inc: u32, why: &'static str, h: u64, r: u64, step: u8) {
    let inst = &w.insts[i];
    if inst.inc != inc || !inst.alive || inst.stop_at.is_some() || inst.run_done.is_some() {
        return;
    }
    if crate::oracle::moved(w, i) != h || crate::oracle::round_of(w, i, h) != Some(r) || crate::oracle::committed(w, i, h) {
        return;
    }
    let at = inst.view;
    if (at.0, at.1) == (h, r) && (at.2 >= step || at.2 == 4) {
        return;
    }
    let wait = slack(w);
    if inst.paused || simrt::now() < inst.resumed_at + wait {
        simrt::after(wait, move || with(|w| step_due(w, i, inc, why, h, r, step)));
        return;
    }
    w.violate("L05", "quorum-unused", format!("i{i} is in ({h},{r}) and {why}; {} us later it has not", wait / US));
}

pub fn on_check_passed(w: &mut World, i: usize, h: u64, x: &Hash) {
    if w.insts[i].byz || !calm(w) {
        return;
    }
    let m = crate::oracle::mem(w, i);
    m.checked.insert((h, x.clone()));
    let rounds: Vec<u64> = m.prevoted.iter().filter(|p| p.0 == h && p.2 == *x).map(|p| p.1).collect();
    if m.decided.get(&h).is_some_and(|d| d.contains_key(x)) {
        expect_commit(w, i, h, x.clone());
    }
    for r in rounds {
        precommit_ready(w, i, h, r, x);
    }
}

/// It has the decision and has accepted the block: it must hand the block over.
fn expect_commit(w: &mut World, i: usize, h: u64, x: Hash) {
    let inc = w.insts[i].inc;
    let wait = slack(w);
    w.probe("decision and accepted block in hand");
    simrt::after(wait, move || with(|w| commit_due(w, i, inc, h, x)));
}

fn commit_due(w: &mut World, i: usize, inc: u32, h: u64, x: Hash) {
    let inst = &w.insts[i];
    if inst.inc != inc || !inst.alive || inst.stop_at.is_some() || inst.run_done.is_some() {
        return;
    }
    if crate::oracle::moved(w, i) > h || crate::oracle::committed(w, i, h) {
        return;
    }
    let wait = slack(w);
    if inst.paused || simrt::now() < inst.resumed_at + wait {
        simrt::after(wait, move || with(|w| commit_due(w, i, inc, h, x)));
        return;
    }
    w.violate(
        "L04",
        "decision-unused",
        format!("i{i} holds a precommit certificate for {} at height {h} and has accepted the block, and does not commit it", hx(&x)),
    );
}

/// The node prevotes nothing at (h, r).
pub fn on_nil_prevote(w: &mut World, i: usize, h: u64, r: u64, bound: bool) {
    if bound || !calm(w) {
        return;
    }
    let s = slack(w);
    let now = simrt::now();
    let resumed = w.insts[i].resumed_at;
    let m = crate::oracle::mem(w, i);
    let Some(e) = m.entered.get(&(h, r)).copied() else { return };
    if let Some(Some((t, x))) = m.props.get(&(h, r)).cloned() {
        if (*[e, t, resumed].iter().max().unwrap()) + s < now {
            w.violate(
                "L04",
                "proposal-unused",
                format!(
                    "i{i} prevotes nothing at ({h},{r}) though its leader's proposal of {} had reached it {} us earlier and it is in that round since {} us",
                    hx(&x),
                    (now - t) / US,
                    (now - e) / US
                ),
            );
        }
    }
}

pub fn on_enter(w: &mut World, i: usize, h: u64, r: u64) {
    if w.insts[i].byz {
        return;
    }
    let now = simrt::now();
    let m = crate::oracle::mem(w, i);
    m.entered.entry((h, r)).or_insert(now);
    m.props = m.props.split_off(&(h, 0));
    m.votes = m.votes.split_off(&(h, 0, 0));
    m.decided = m.decided.split_off(&h);
    m.voted = m.voted.split_off(&(h, 0));
    m.prevoted = m.prevoted.split_off(&(h, 0, Hash::new()));
    m.chokes = m.chokes.split_off(&(h, 0));
}

/// The node has logged its own vote of this type at (h, r). Whoever leads there must turn the
/// votes it has been handed into a certificate.
pub fn on_voted(w: &mut World, i: usize, h: u64, r: u64, ty: u8) {
    if w.insts[i].byz || !calm(w) {
        return;
    }
    if ty == 1 {
        let m = crate::oracle::mem(w, i);
        m.voted.insert((h, r));
        let have: Vec<Hash> = m.prevoted.iter().filter(|p| (p.0, p.1) == (h, r)).map(|p| p.2.clone()).collect();
        for x in have {
            precommit_ready(w, i, h, r, &x);
        }
    }
    let list = w.list(h);
    if list.leader(&w.keys, h, r) != w.insts[i].member {
        return;
    }
    let inc = w.insts[i].inc;
    let s = slack(w);
    simrt::after(s, move || with(|w| cert_due(w, i, inc, h, r, ty)));
}

fn cert_due(w: &mut World, i: usize, inc: u32, h: u64, r: u64, ty: u8) {
    let inst = &w.insts[i];
    if inst.inc != inc || !inst.alive || inst.stop_at.is_some() || inst.run_done.is_some() {
        return;
    }
    if crate::oracle::moved(w, i) != h || crate::oracle::round_of(w, i, h) != Some(r) || crate::oracle::committed(w, i, h) {
        return;
    }
    let s = slack(w);
    let now = simrt::now();
    if inst.paused || now < inst.resumed_at + s {
        simrt::after(s, move || with(|w| cert_due(w, i, inc, h, r, ty)));
        return;
    }
    let list = w.list(h);
    let m = crate::oracle::mem(w, i);
    if m.certs.contains(&(h, r, ty)) {
        return;
    }
    let Some(v) = m.votes.get(&(h, r, ty)) else { return };
    // A member that voted twice is counted for one of its votes, whichever came first.
    let twice = |m: usize| v.values().filter(|who| who.contains_key(&m)).count() > 1;
    let due = v.iter().find(|(_, who)| {
        let old: Vec<usize> = who.iter().filter(|(m, t)| **t + s < now && !twice(**m)).map(|(m, _)| *m).collect();
        list.quorum(&old)
    });
    if let Some((x, who)) = due {
        let msg = format!(
            "i{i} leads ({h},{r}), has been handed the type {ty} votes of {:?} for {}, has voted itself, and makes no certificate of them",
            who.keys().collect::<Vec<_>>(),
            hx(x)
        );
        w.violate("L04", "votes-unused", msg);
    }
}
