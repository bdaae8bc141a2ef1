//! Blocks, hashes, keys and signatures of the simulated deployment, and small helpers over the
//! authority lists. Signatures are MACs over per-member secrets: nobody but the holder can make
//! one, and an aggregate is the sum of its parts (as with BLS), so it verifies for exactly the
//! multiset of signers it was built from.

use crate::plan::Plan;
use bytes::Bytes;
use overlord::types::{Address, AggregatedVote, Hash, Node, Vote, VoteType};
use simrt::rng::splitmix;
use std::error::Error;

#[derive(Clone, PartialEq, Eq)]
pub struct Blk(pub Bytes);

impl std::fmt::Debug for Blk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Blk(h{} n{} f{})", self.height(), self.nonce(), self.flags())
    }
}

pub const FLAG_INVALID: u8 = 1;

#[derive(Debug)]
pub struct Injected(pub &'static str);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected: {}", self.0)
    }
}
impl Error for Injected {}
pub fn err<T>(s: &'static str) -> Result<T, Box<dyn Error + Send>> {
    Err(Box::new(Injected(s)))
}

impl overlord::Codec for Blk {
    fn encode(&self) -> Result<Bytes, Box<dyn Error + Send>> {
        Ok(self.0.clone())
    }
    fn decode(data: Bytes) -> Result<Self, Box<dyn Error + Send>> {
        if data.len() < 18 {
            return err("short block");
        }
        Ok(Blk(data))
    }
}

impl Blk {
    pub fn new(height: u64, proposer: usize, nonce: u64, flags: u8) -> Blk {
        let mut v = Vec::with_capacity(18);
        v.extend_from_slice(&height.to_le_bytes());
        v.push(proposer as u8);
        v.extend_from_slice(&nonce.to_le_bytes());
        v.push(flags);
        Blk(Bytes::from(v))
    }
    pub fn height(&self) -> u64 {
        u64::from_le_bytes(self.0[0..8].try_into().unwrap())
    }
    pub fn nonce(&self) -> u64 {
        u64::from_le_bytes(self.0[9..17].try_into().unwrap())
    }
    pub fn flags(&self) -> u8 {
        self.0[17]
    }
    pub fn hash(&self) -> Hash {
        h32(&self.0)
    }
    pub fn valid_for(&self, height: u64, hash: &Hash) -> bool {
        self.height() == height && self.flags() & FLAG_INVALID == 0 && &self.hash() == hash
    }
}

fn mix_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ (b.len() as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        let mut x = h ^ u64::from_le_bytes(w);
        h = splitmix(&mut x);
    }
    let mut x = h;
    splitmix(&mut x)
}

pub fn h32(b: &[u8]) -> Hash {
    let mut v = Vec::with_capacity(32);
    for i in 0..4u64 {
        v.extend_from_slice(&mix_bytes(0xabcd + i, b).to_le_bytes());
    }
    Bytes::from(v)
}

/// A short printable name of a hash.
pub fn hx(h: &[u8]) -> String {
    if h.is_empty() {
        "nil".into()
    } else {
        h.iter().take(3).map(|b| format!("{b:02x}")).collect()
    }
}

/// Keys and addresses of the universe.
#[derive(Clone)]
pub struct Keys {
    pub addr: Vec<Address>,
    secret: Vec<u64>,
}

impl Keys {
    pub fn new(seed: u64, n: usize) -> Keys {
        let mut s = seed ^ 0x4b45_5953;
        let mut addr = Vec::new();
        let mut secret = Vec::new();
        for _ in 0..n {
            let mut a = Vec::with_capacity(20);
            for _ in 0..3 {
                a.extend_from_slice(&splitmix(&mut s).to_le_bytes());
            }
            a.truncate(20);
            addr.push(Bytes::from(a));
            secret.push(splitmix(&mut s));
        }
        Keys { addr, secret }
    }
    pub fn index(&self, a: &[u8]) -> Option<usize> {
        self.addr.iter().position(|x| x.as_ref() == a)
    }
    fn mac(&self, m: usize, hash: &[u8]) -> u128 {
        let a = mix_bytes(self.secret[m], hash);
        let b = mix_bytes(self.secret[m].rotate_left(32) ^ 0x77, hash);
        (u128::from(a) << 64) | u128::from(b)
    }
    pub fn sign(&self, m: usize, hash: &[u8]) -> Bytes {
        Bytes::from(self.mac(m, hash).to_le_bytes().to_vec())
    }
    pub fn verify(&self, sig: &[u8], hash: &[u8], addr: &[u8]) -> bool {
        match self.index(addr) {
            Some(m) => sig == self.mac(m, hash).to_le_bytes(),
            None => false,
        }
    }
    pub fn aggregate(sigs: &[Bytes]) -> Option<Bytes> {
        let mut acc = 0u128;
        for s in sigs {
            let a: [u8; 16] = s.as_ref().try_into().ok()?;
            acc = acc.wrapping_add(u128::from_le_bytes(a));
        }
        Some(Bytes::from(acc.to_le_bytes().to_vec()))
    }
    pub fn verify_agg(&self, sig: &[u8], hash: &[u8], voters: &[Address]) -> bool {
        if voters.is_empty() {
            return false;
        }
        let mut acc = 0u128;
        for v in voters {
            match self.index(v) {
                Some(m) => acc = acc.wrapping_add(self.mac(m, hash)),
                None => return false,
            }
        }
        sig == acc.to_le_bytes()
    }
}

/// The authority list of one height, sorted as the protocol sorts it.
#[derive(Clone, Debug)]
pub struct List {
    pub nodes: Vec<Node>,
    pub idx: Vec<usize>,
    pub w: Vec<u64>,
    pub total: u64,
}

impl List {
    pub fn of(plan: &Plan, keys: &Keys, h: u64) -> List {
        let mut v: Vec<(Node, usize)> = plan
            .epoch(h)
            .members
            .iter()
            .map(|m| {
                let mut n = Node::new(keys.addr[m.idx].clone());
                n.set_propose_weight(m.pw);
                n.set_vote_weight(m.vw);
                (n, m.idx)
            })
            .collect();
        v.sort_by(|a, b| a.0.address.cmp(&b.0.address));
        List {
            idx: v.iter().map(|x| x.1).collect(),
            w: v.iter().map(|x| u64::from(x.0.vote_weight)).collect(),
            total: v.iter().map(|x| u64::from(x.0.vote_weight)).sum(),
            nodes: v.into_iter().map(|x| x.0).collect(),
        }
    }
    pub fn has(&self, m: usize) -> bool {
        self.idx.contains(&m)
    }
    pub fn weight(&self, m: usize) -> u64 {
        self.idx
            .iter()
            .position(|x| *x == m)
            .map_or(0, |i| self.w[i])
    }
    pub fn quorum<'a>(&self, who: impl IntoIterator<Item = &'a usize>) -> bool {
        let w: u64 = who.into_iter().map(|m| self.weight(*m)).sum();
        w * 3 > self.total * 2
    }
    pub fn count_quorum<'a>(&self, who: impl IntoIterator<Item = &'a usize>) -> bool {
        let c = who.into_iter().filter(|m| self.has(**m)).count();
        c * 3 > self.idx.len() * 2
    }
    /// Members named by a bitmap.
    pub fn voters(&self, bitmap: &[u8]) -> Vec<usize> {
        let mut out = Vec::new();
        for (i, m) in self.idx.iter().enumerate() {
            if i / 8 < bitmap.len() && bitmap[i / 8] & (0x80 >> (i % 8)) != 0 {
                out.push(*m);
            }
        }
        out
    }
    pub fn bitmap(&self, who: &[usize]) -> Bytes {
        let mut b = vec![0u8; self.idx.len().div_ceil(8)];
        for (i, m) in self.idx.iter().enumerate() {
            if who.contains(m) {
                b[i / 8] |= 0x80 >> (i % 8);
            }
        }
        Bytes::from(b)
    }
    pub fn leader(&self, keys: &Keys, h: u64, r: u64) -> usize {
        if cfg!(feature = "random_leader") {
            let a = overlord::get_leader(h, r, self.nodes.clone());
            return keys.index(&a).unwrap();
        }
        // Rotation in steps of the largest prime below the number of members.
        let n = self.idx.len() as u128;
        let p = (2..n).rev().find(|p| (2..*p).all(|d| p % d != 0)).unwrap_or(1);
        self.idx[((u128::from(h) * p + u128::from(r)) % n) as usize]
    }
}

pub fn vote_hash(h: u64, r: u64, ty: VoteType, hash: &Hash) -> Hash {
    h32(&rlp::encode(&Vote {
        height: h,
        round: r,
        vote_type: ty,
        block_hash: hash.clone(),
    }))
}
pub fn choke_hash(h: u64, r: u64) -> Hash {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(&h).append(&r);
    h32(&s.out())
}

pub fn ty_num(t: &VoteType) -> u8 {
    match t {
        VoteType::Prevote => 1,
        VoteType::Precommit => 2,
    }
}
pub fn num_ty(n: u8) -> VoteType {
    if n == 1 {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}

/// Is this certificate valid for the list: above two thirds by weight, and the aggregate is the
/// one of exactly the members its bitmap names?
pub fn qc_ok(keys: &Keys, list: &List, qc: &AggregatedVote) -> Result<Vec<usize>, String> {
    let who = list.voters(&qc.signature.address_bitmap);
    if !list.quorum(&who) {
        return Err(format!("voters {who:?} are no quorum"));
    }
    let addrs: Vec<Address> = who.iter().map(|m| keys.addr[*m].clone()).collect();
    let h = vote_hash(qc.height, qc.round, qc.vote_type.clone(), &qc.block_hash);
    if !keys.verify_agg(&qc.signature.signature, &h, &addrs) {
        return Err(format!("aggregate is not that of {who:?}"));
    }
    Ok(who)
}
