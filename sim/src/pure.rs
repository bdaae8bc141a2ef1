//! What the published encodings and helpers answer, asked for every value a run produces: by the
//! nodes about their messages and records, by their applications about commits and statuses, and by
//! the adversary's extreme ones.

use crate::model::*;
use crate::plan::Plan;
use crate::world::*;
use overlord::types::*;
use overlord::{extract_voters, get_leader};
use rlp::{Decodable, Encodable};
use serde::{de::DeserializeOwned, Serialize};
use simrt::rng::{hash3, Rng};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn asked(p: &Plan, prop: &str) -> bool {
    p.prop == prop || p.prop == "none"
}

fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn trip<T: Encodable + Decodable + PartialEq + Debug>(w: &mut World, what: &str, x: &T) {
    let back = quiet(|| rlp::decode::<T>(&rlp::encode(x)));
    let bad = match back {
        None => Some("makes the codec panic".to_string()),
        Some(Err(e)) => Some(format!("does not decode ({e:?})")),
        Some(Ok(y)) if y != *x => Some(format!("decodes to {y:?}")),
        _ => None,
    };
    w.probe("value taken through its encoding");
    if let Some(b) = bad {
        w.violate("C01", "encoding", format!("{what}: the encoding of {x:?} {b}"));
    }
}

fn json<T: Serialize + DeserializeOwned + PartialEq + Debug>(w: &mut World, what: &str, x: &T) {
    let back = quiet(|| serde_json::to_string(x).ok().and_then(|s| serde_json::from_str::<T>(&s).ok()));
    w.probe("value taken through its JSON form");
    let bad = match back {
        None => Some("makes it panic".to_string()),
        Some(None) => Some("does not come back".to_string()),
        Some(Some(y)) if y != *x => Some(format!("comes back as {y:?}")),
        _ => None,
    };
    if let Some(b) = bad {
        w.violate("C01", "json", format!("{what}: the JSON form of {x:?} {b}"));
    }
}

fn qc(w: &mut World, what: &str, q: &AggregatedVote) {
    trip(w, what, q);
    json(w, what, q);
    trip(w, what, &q.signature);
    json(w, what, &q.signature);
    json(w, what, &q.vote_type);
}

/// A message leaves a node or the adversary.
pub fn message(w: &mut World, m: &Msg) {
    if !asked(&w.plan, "C01") {
        return;
    }
    match m {
        OverlordMsg::SignedProposal(p) => {
            trip(w, "proposal", p);
            trip(w, "proposal", &p.proposal);
            if let Some(l) = &p.proposal.lock {
                trip(w, "proposal", l);
            }
        }
        OverlordMsg::SignedVote(v) => {
            trip(w, "vote", v);
            trip(w, "vote", &v.vote);
        }
        OverlordMsg::AggregatedVote(q) => qc(w, "certificate", q),
        OverlordMsg::SignedChoke(c) => {
            trip(w, "choke", c);
            let f = &c.choke.from;
            trip(w, "choke", &c.choke);
            trip(w, "choke reason", f);
            json(w, "choke reason", f);
            match f {
                UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => qc(w, "certificate in a choke", q),
                UpdateFrom::ChokeQC(q) => {
                    trip(w, "choke certificate", q);
                    json(w, "choke certificate", q);
                }
            }
        }
        _ => {}
    }
}

pub fn status(w: &mut World, s: &Status) {
    if !asked(&w.plan, "C01") {
        return;
    }
    trip(w, "status", s);
    for n in &s.authority_list {
        trip(w, "member", n);
        json(w, "member", n);
    }
    if let Some(c) = &s.timer_config {
        trip(w, "timer settings", c);
        json(w, "timer settings", c);
    }
}

pub fn commit(w: &mut World, c: &Commit<Blk>) {
    if asked(&w.plan, "C01") {
        trip(w, "commit", c);
        trip(w, "proof", &c.proof);
    }
}

/// A log record, as bytes.
pub fn record(w: &mut World, b: &bytes::Bytes) {
    if !asked(&w.plan, "C01") {
        return;
    }
    let back = quiet(|| rlp::decode::<overlord::WalInfo<Blk>>(b).map(|r| rlp::encode(&r).to_vec()));
    w.probe("log record decoded and encoded again");
    let bad = match back {
        None => "makes the codec panic",
        Some(Err(_)) => "does not decode",
        Some(Ok(v)) if v != b.to_vec() => "encodes to other bytes",
        _ => return,
    };
    w.violate("C01", "record", format!("a log record of {} bytes, read back, {bad}", b.len()));
}

fn shuffled(w: &World, l: &List, salt: u64) -> Vec<Node> {
    let mut v = l.nodes.clone();
    let mut r = Rng::new(hash3(w.plan.seed, 0x5f1e, salt));
    for k in (1..v.len()).rev() {
        v.swap(k, r.below(k as u64 + 1) as usize);
    }
    v
}

/// The engine treats member m as leader of (h, r).
pub fn leader(w: &mut World, h: u64, r: u64, m: usize, how: &str) {
    let list = w.list(h);
    if list.nodes.is_empty() {
        return;
    }
    turns(w, h, r, m, how);
    if !asked(&w.plan, "C02") && !asked(&w.plan, "P02") {
        return;
    }
    let l = shuffled(w, &list, h ^ (r << 32));
    w.probe("leader asked of the helper");
    let got = quiet(|| get_leader(h, r, l));
    if got.as_ref() != Some(&w.keys.addr[m]) {
        let g = got.and_then(|a| w.keys.index(&a)).map_or("nobody".into(), |g| format!("m{g}"));
        w.violate("C02", "leader", format!("get_leader({h},{r}) names {g}; the engine {how} m{m}"));
    }
}

/// Members of the default build take turns; in the other one they lead by weight.
fn turns(w: &mut World, h: u64, r: u64, m: usize, how: &str) {
    let n = w.list(h).nodes.len() as u64;
    if w.led.entry(h).or_default().insert(r, m).is_some() {
        return;
    }
    if cfg!(feature = "random_leader") {
        if asked(&w.plan, "P02") {
            let a = w.keys.addr[m].clone();
            if w.list(h).nodes.iter().any(|x| x.address == a && x.propose_weight == 0) {
                w.violate("P02", "weightless-leader", format!("({h},{r}) {how} m{m}, whose propose weight there is 0"));
            }
            if r == 0 {
                shares(w, h);
            }
        }
        return;
    }
    if !asked(&w.plan, "P01") {
        return;
    }
    let other = w.led[&h].iter().find(|(x, y)| **x != r && x.abs_diff(r) < n && **y == m).map(|x| *x.0);
    if w.led[&h].len() > 1 {
        w.probe("leaders of two rounds of a height compared");
    }
    if let Some(x) = other {
        w.violate("P01", "leads-twice", format!("m{m} leads both round {x} and round {r} of height {h}, though there are {n} members"));
    }
    if r == 0 {
        let from = w.plan.epoch(h).from;
        let others: Vec<(u64, usize)> = w
            .led
            .range(h.saturating_sub(n - 1)..h.saturating_add(n))
            .filter(|x| *x.0 != h)
            .filter_map(|x| x.1.get(&0).map(|y| (*x.0, *y)))
            .collect();
        for (x, y) in others {
            if w.plan.epoch(x).from != from {
                continue;
            }
            w.probe("leaders of two heights compared");
            if y == m {
                w.violate("P01", "leads-twice", format!("m{m} leads the first round of both height {x} and height {h}, though there are {n} members"));
            }
        }
    }
}

/// How often the helper names each member, against the weights.
fn shares(w: &mut World, h: u64) {
    const ASKED: u64 = 400;
    let list = w.list(h);
    let from = h.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ w.plan.seed;
    let mut got = vec![0u64; list.nodes.len()];
    for k in 0..ASKED {
        let Some(a) = quiet(|| get_leader(from.wrapping_add(k), 0, list.nodes.clone())) else {
            continue;
        };
        if let Some(i) = list.nodes.iter().position(|x| x.address == a) {
            got[i] += 1;
        }
    }
    w.probe("shares of leadership compared with the weights");
    let total: f64 = list.nodes.iter().map(|x| f64::from(x.propose_weight)).sum();
    for (i, x) in list.nodes.iter().enumerate() {
        let q = f64::from(x.propose_weight) / total;
        let want = q * ASKED as f64;
        let sigma = (want * (1.0 - q)).sqrt();
        if (got[i] as f64 - want).abs() > 8.0 * sigma + 2.0 {
            let msg = format!("of {ASKED} heights a member with propose weight {} of {total} leads {}", x.propose_weight, got[i]);
            w.violate("P02", "share", msg);
        }
    }
}

/// A certificate a correct node made: who voted is known.
pub fn voters(w: &mut World, h: u64, bitmap: &bytes::Bytes, who: &[usize], what: &str) {
    if !asked(&w.plan, "C02") {
        return;
    }
    let list = w.list(h);
    let mut l = shuffled(w, &list, h);
    w.probe("voters asked of the helper");
    let got = quiet(|| extract_voters(&mut l, bitmap).ok()).flatten();
    let mut want: Vec<Address> = who.iter().map(|m| w.keys.addr[*m].clone()).collect();
    want.sort();
    let ok = got.as_ref().is_some_and(|g| {
        let mut g = g.clone();
        g.sort();
        g == want
    });
    if !ok {
        let g = got.map(|g| g.iter().map(|a| w.keys.index(a)).collect::<Vec<_>>());
        w.violate("C02", "voters", format!("extract_voters for the {what} at height {h} gives {g:?}; it was made of the votes of {who:?}"));
    }
}
