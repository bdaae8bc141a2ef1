//! One real node; everything around it is a puppet.
#![allow(dead_code)]
use async_trait::async_trait;
use bytes::Bytes;
pub use overlord::types::*;
use overlord::error::ConsensusError;
use overlord::{Codec, Consensus, Context, Crypto, DurationConfig, Overlord, OverlordHandler, Wal};
use std::collections::HashSet;
use std::error::Error;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Msg = OverlordMsg<Blk>;
pub type Res<T> = Result<T, Box<dyn Error + Send>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk(pub Bytes);
impl Codec for Blk {
    fn encode(&self) -> Res<Bytes> {
        Ok(self.0.clone())
    }
    fn decode(data: Bytes) -> Res<Self> {
        Ok(Blk(data))
    }
}
#[derive(Debug)]
struct E(&'static str);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl Error for E {}
pub fn fail<T>(s: &'static str) -> Res<T> {
    Err(Box::new(E(s)))
}

pub fn mix(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8_feb8_6659_fd93);
    h ^ (h >> 32)
}
pub fn h32(b: &[u8]) -> Hash {
    let mut v = Vec::new();
    for i in 0..4 {
        v.extend_from_slice(&mix(i, b).to_le_bytes());
    }
    Bytes::from(v)
}
pub fn blk(s: &str) -> Blk {
    Blk(Bytes::from(s.as_bytes().to_vec()))
}
pub fn bh(s: &str) -> Hash {
    h32(s.as_bytes())
}
pub fn nil() -> Hash {
    Hash::new()
}

/// Member i (address order is index order).
pub fn addr(i: usize) -> Address {
    Bytes::from(vec![i as u8 + 1; 20])
}
fn mac(a: &Address, hash: &[u8]) -> u64 {
    mix(0x5eed ^ u64::from(a[0]) << 20, hash)
}
pub fn sign(i: usize, hash: &Hash) -> Bytes {
    Bytes::from(mac(&addr(i), hash).to_le_bytes().to_vec())
}
pub fn agg(sigs: &[Bytes]) -> Bytes {
    let mut acc = 0u64;
    for s in sigs {
        let mut b = [0; 8];
        b.copy_from_slice(&s[..8]);
        acc = acc.wrapping_add(u64::from_le_bytes(b));
    }
    Bytes::from(acc.to_le_bytes().to_vec())
}
pub fn list(n: usize) -> Vec<Node> {
    (0..n).map(|i| Node::new(addr(i))).collect()
}
pub fn leader(h: u64, r: u64, l: &[Node]) -> usize {
    let a = overlord::get_leader(h, r, l.to_vec());
    (0..64).find(|i| addr(*i) == a).unwrap()
}
/// The first height >= `from` at which `who` leads round `r`.
pub fn height_led_by(who: usize, r: u64, from: u64, l: &[Node]) -> u64 {
    (from..from + 100).find(|h| leader(*h, r, l) == who).unwrap()
}

pub fn vote(i: usize, h: u64, r: u64, ty: VoteType, hash: &Hash) -> SignedVote {
    let vote = Vote { height: h, round: r, vote_type: ty, block_hash: hash.clone() };
    let d = h32(&rlp::encode(&vote));
    SignedVote { signature: sign(i, &d), vote, voter: addr(i) }
}
pub fn qc(who: &[usize], n: usize, h: u64, r: u64, ty: VoteType, hash: &Hash) -> AggregatedVote {
    let mut bm = vec![0u8; (n + 7) / 8];
    let mut sigs = vec![];
    for i in who {
        bm[i / 8] |= 0x80 >> (i % 8);
        sigs.push(vote(*i, h, r, ty.clone(), hash).signature);
    }
    AggregatedVote {
        signature: AggregatedSignature { signature: agg(&sigs), address_bitmap: Bytes::from(bm) },
        vote_type: ty,
        height: h,
        round: r,
        block_hash: hash.clone(),
        leader: addr(leader(h, r, &list(n))),
    }
}
pub fn proposal(i: usize, h: u64, r: u64, b: &str, lock: Option<AggregatedVote>) -> SignedProposal<Blk> {
    let p = Proposal {
        height: h,
        round: r,
        content: blk(b),
        block_hash: bh(b),
        lock: lock.map(|q| PoLC { lock_round: q.round, lock_votes: q }),
        proposer: addr(i),
    };
    let d = h32(&rlp::encode(&p));
    SignedProposal { signature: sign(i, &d), proposal: p }
}
pub fn choke_digest(h: u64, r: u64) -> Hash {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(&h).append(&r);
    h32(&s.out())
}
pub fn mock_from() -> UpdateFrom {
    UpdateFrom::PrecommitQC(AggregatedVote {
        signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
        vote_type: VoteType::Precommit,
        height: 0,
        round: 0,
        block_hash: nil(),
        leader: Bytes::new(),
    })
}
pub fn choke(i: usize, h: u64, r: u64, from: UpdateFrom) -> SignedChoke {
    SignedChoke {
        signature: sign(i, &choke_digest(h, r)),
        choke: Choke { height: h, round: r, from },
        address: addr(i),
    }
}
pub fn choke_qc(who: &[usize], h: u64, r: u64) -> AggregatedChoke {
    let d = choke_digest(h, r);
    AggregatedChoke {
        height: h,
        round: r,
        signature: agg(&who.iter().map(|i| sign(*i, &d)).collect::<Vec<_>>()),
        voters: who.iter().map(|i| addr(*i)).collect(),
    }
}
pub fn status(h: u64, n: usize, interval: u64) -> Status {
    Status { height: h, interval: Some(interval), timer_config: None, authority_list: list(n) }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Sent(Option<Address>, Msg),
    Get(u64),
    Check(u64, Hash),
    Commit(u64, Commit<Blk>),
    Report(u64, u64, ViewChangeReason),
    Saved(Bytes),
    SaveFailed(Bytes),
    Returned,
    Error(String),
}

/// What the application, the disk and the keys do; the scenario replaces the parts it needs.
pub struct Script {
    pub get: Box<dyn Fn(u64) -> Option<String> + Send + Sync>,
    /// (delay in ms, passes)
    pub check: Box<dyn Fn(u64, &Hash) -> (u64, bool) + Send + Sync>,
    /// (delay in ms, the answer)
    pub commit: Box<dyn Fn(u64) -> (u64, Option<Status>) + Send + Sync>,
    /// (delay in ms, saved)
    pub save: Box<dyn Fn(&Bytes) -> (u64, bool) + Send + Sync>,
    /// whether messages to one member get away
    pub transmit: Box<dyn Fn(&Msg) -> bool + Send + Sync>,
}
impl Script {
    pub fn new(n: usize, interval: u64) -> Script {
        Script {
            get: Box::new(|h| Some(format!("own block of height {h}"))),
            check: Box::new(|_, _| (0, true)),
            commit: Box::new(move |h| (0, Some(status(h + 1, n, interval)))),
            save: Box::new(|_| (0, true)),
            transmit: Box::new(|_| true),
        }
    }
}

pub struct Outer {
    me: usize,
    script: Script,
    tx: Mutex<Sender<Ev>>,
    disk: Arc<Mutex<Option<Bytes>>>,
}
impl Outer {
    fn ev(&self, e: Ev) {
        let _ = self.tx.lock().unwrap().send(e);
    }
}
#[async_trait]
impl Consensus<Blk> for Outer {
    async fn get_block(&self, _: Context, height: u64) -> Res<(Blk, Hash)> {
        self.ev(Ev::Get(height));
        match (self.script.get)(height) {
            Some(s) => Ok((blk(&s), bh(&s))),
            None => fail("no block"),
        }
    }
    async fn check_block(&self, _: Context, height: u64, hash: Hash, _: Blk) -> Res<()> {
        self.ev(Ev::Check(height, hash.clone()));
        let (d, ok) = (self.script.check)(height, &hash);
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        if ok { Ok(()) } else { fail("bad block") }
    }
    async fn commit(&self, _: Context, height: u64, commit: Commit<Blk>) -> Res<Status> {
        self.ev(Ev::Commit(height, commit));
        let (d, s) = (self.script.commit)(height);
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        match s {
            Some(s) => Ok(s),
            None => fail("commit refused"),
        }
    }
    async fn get_authority_list(&self, _: Context, _: u64) -> Res<Vec<Node>> {
        Ok(list(4))
    }
    async fn broadcast_to_other(&self, _: Context, msg: Msg) -> Res<()> {
        self.ev(Ev::Sent(None, msg));
        Ok(())
    }
    async fn transmit_to_relayer(&self, _: Context, a: Address, msg: Msg) -> Res<()> {
        let ok = (self.script.transmit)(&msg);
        self.ev(Ev::Sent(Some(a), msg));
        if ok { Ok(()) } else { fail("network") }
    }
    fn report_error(&self, _: Context, e: ConsensusError) {
        self.ev(Ev::Error(format!("{e:?}")));
    }
    fn report_view_change(&self, _: Context, h: u64, r: u64, why: ViewChangeReason) {
        self.ev(Ev::Report(h, r, why));
    }
}
#[async_trait]
impl Wal for Outer {
    async fn save(&self, info: Bytes) -> Res<()> {
        let (d, ok) = (self.script.save)(&info);
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        if ok {
            *self.disk.lock().unwrap() = Some(info.clone());
            self.ev(Ev::Saved(info));
            Ok(())
        } else {
            self.ev(Ev::SaveFailed(info));
            fail("disk")
        }
    }
    async fn load(&self) -> Res<Option<Bytes>> {
        Ok(self.disk.lock().unwrap().clone())
    }
}
impl Crypto for Outer {
    fn hash(&self, msg: Bytes) -> Hash {
        h32(&msg)
    }
    fn sign(&self, hash: Hash) -> Res<Bytes> {
        Ok(sign(self.me, &hash))
    }
    fn aggregate_signatures(&self, s: Vec<Bytes>, _: Vec<Address>) -> Res<Bytes> {
        Ok(agg(&s))
    }
    fn verify_signature(&self, s: Bytes, hash: Hash, voter: Address) -> Res<()> {
        if s.as_ref() == mac(&voter, &hash).to_le_bytes() { Ok(()) } else { fail("signature") }
    }
    fn verify_aggregated_signature(&self, s: Bytes, hash: Hash, voters: Vec<Address>) -> Res<()> {
        let all = agg(&voters.iter().map(|v| Bytes::from(mac(v, &hash).to_le_bytes().to_vec())).collect::<Vec<_>>());
        if s == all { Ok(()) } else { fail("aggregate") }
    }
}

pub struct Puppet {
    pub me: usize,
    pub handler: OverlordHandler<Blk>,
    rx: Receiver<Ev>,
    pub seen: Vec<Ev>,
    pub disk: Arc<Mutex<Option<Bytes>>>,
    rt: Option<tokio::runtime::Runtime>,
}
pub static PANICS: AtomicU64 = AtomicU64::new(0);

impl Puppet {
    /// Start member `me` at `height`; `disk` is what an earlier run left.
    pub fn start(me: usize, n: usize, height: u64, interval: u64, timer: Option<DurationConfig>, disk: Option<Bytes>, script: Script) -> Puppet {
        std::panic::set_hook(Box::new(|i| {
            PANICS.fetch_add(1, Ordering::SeqCst);
            eprintln!("panic: {i}");
        }));
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
        let (tx, rx) = channel();
        let disk = Arc::new(Mutex::new(disk));
        let o = Arc::new(Outer { me, script, tx: Mutex::new(tx.clone()), disk: disk.clone() });
        let ov = Overlord::new(addr(me), o.clone(), o.clone(), o);
        let handler = ov.get_handler();
        rt.spawn(async move {
            let _ = ov.run(height, interval, list(n), timer).await;
            let _ = tx.send(Ev::Returned);
        });
        let p = Puppet { me, handler, rx, seen: vec![], disk, rt: Some(rt) };
        if height == 0 || p.disk.lock().unwrap().is_none() {
            // the application greets it with the height to start at
        }
        p
    }
    /// Stop it as a crash would; what its log holds is returned.
    pub fn crash(mut self) -> Option<Bytes> {
        self.rt.take().unwrap().shutdown_background();
        std::thread::sleep(Duration::from_millis(100));
        let d = self.disk.lock().unwrap().clone();
        d
    }
    pub fn tell(&self, m: Msg) {
        let _ = self.handler.send_msg(Context::new(), m);
    }
    pub fn vote(&self, i: usize, h: u64, r: u64, ty: VoteType, hash: &Hash) {
        self.tell(OverlordMsg::SignedVote(vote(i, h, r, ty, hash)));
    }
    pub fn propose(&self, i: usize, h: u64, r: u64, b: &str, lock: Option<AggregatedVote>) {
        self.tell(OverlordMsg::SignedProposal(proposal(i, h, r, b, lock)));
    }
    pub fn qc(&self, q: AggregatedVote) {
        self.tell(OverlordMsg::AggregatedVote(q));
    }
    pub fn choke(&self, i: usize, h: u64, r: u64, from: UpdateFrom) {
        self.tell(OverlordMsg::SignedChoke(choke(i, h, r, from)));
    }
    pub fn status(&self, s: Status) {
        self.tell(OverlordMsg::RichStatus(s));
    }
    fn pump(&mut self, d: Duration) -> Option<Ev> {
        let e = self.rx.recv_timeout(d).ok()?;
        if std::env::var_os("DEMO_TRACE").is_some() {
            eprintln!("{}", brief(&e));
        }
        self.seen.push(e.clone());
        Some(e)
    }
    /// Wait for an event, or give up.
    pub fn wait<T>(&mut self, ms: u64, mut f: impl FnMut(&Ev) -> Option<T>) -> Option<T> {
        let end = Instant::now() + Duration::from_millis(ms);
        loop {
            let left = end.checked_duration_since(Instant::now())?;
            if let Some(e) = self.pump(left) {
                if let Some(t) = f(&e) {
                    return Some(t);
                }
            }
        }
    }
    /// Let it run for a while.
    pub fn idle(&mut self, ms: u64) {
        self.wait(ms, |_| None::<()>);
    }
    pub fn wait_vote(&mut self, ms: u64, h: u64, r: u64, ty: VoteType) -> Option<Hash> {
        self.wait(ms, |e| as_vote(e, h, r, &ty))
    }
    pub fn wait_proposal(&mut self, ms: u64, h: u64, r: u64) -> Option<SignedProposal<Blk>> {
        self.wait(ms, |e| match e {
            Ev::Sent(_, OverlordMsg::SignedProposal(p)) if p.proposal.height == h && p.proposal.round == r => Some(p.clone()),
            _ => None,
        })
    }
    pub fn wait_choke(&mut self, ms: u64, h: u64, r: u64) -> Option<SignedChoke> {
        self.wait(ms, |e| match e {
            Ev::Sent(_, OverlordMsg::SignedChoke(c)) if c.choke.height == h && c.choke.round == r => Some(c.clone()),
            _ => None,
        })
    }
    pub fn wait_qc(&mut self, ms: u64, h: u64, r: u64, ty: VoteType) -> Option<AggregatedVote> {
        self.wait(ms, |e| match e {
            Ev::Sent(_, OverlordMsg::AggregatedVote(q)) if q.height == h && q.round == r && q.vote_type == ty => Some(q.clone()),
            _ => None,
        })
    }
    pub fn wait_commit(&mut self, ms: u64, h: u64) -> Option<Commit<Blk>> {
        self.wait(ms, |e| match e {
            Ev::Commit(x, c) if *x == h => Some(c.clone()),
            _ => None,
        })
    }
    /// All different votes it has sent so far for this height, round and type.
    pub fn votes(&self, h: u64, r: u64, ty: VoteType) -> HashSet<Hash> {
        self.seen.iter().filter_map(|e| as_vote(e, h, r, &ty)).collect()
    }
    pub fn has(&self, mut f: impl FnMut(&Ev) -> bool) -> bool {
        self.seen.iter().any(|e| f(e))
    }
}
fn as_vote(e: &Ev, h: u64, r: u64, ty: &VoteType) -> Option<Hash> {
    match e {
        Ev::Sent(_, OverlordMsg::SignedVote(v)) if v.vote.height == h && v.vote.round == r && v.vote.vote_type == *ty => Some(v.vote.block_hash.clone()),
        _ => None,
    }
}
pub fn brief(e: &Ev) -> String {
    match e {
        Ev::Saved(_) => "saved".into(),
        Ev::SaveFailed(_) => "save failed".into(),
        Ev::Sent(a, m) => {
            let to = a.as_ref().map_or("all".to_string(), |a| (a[0] - 1).to_string());
            match m {
                OverlordMsg::SignedVote(v) => format!("-> {to}: {:?} {}/{} {:02x?}", v.vote.vote_type, v.vote.height, v.vote.round, &v.vote.block_hash.iter().take(2).collect::<Vec<_>>()),
                OverlordMsg::AggregatedVote(v) => format!("-> {to}: QC {:?} {}/{} {:02x?}", v.vote_type, v.height, v.round, &v.block_hash.iter().take(2).collect::<Vec<_>>()),
                OverlordMsg::SignedProposal(p) => format!("-> {to}: proposal {}/{} lock {:?}", p.proposal.height, p.proposal.round, p.proposal.lock.as_ref().map(|l| l.lock_round)),
                OverlordMsg::SignedChoke(c) => format!("-> {to}: choke {}/{}", c.choke.height, c.choke.round),
                _ => format!("-> {to}: ?"),
            }
        }
        Ev::Commit(h, _) => format!("commit {h}"),
        e => format!("{e:?}"),
    }
}
/// The end of a demonstration.
pub fn verdict(ok: bool, what: &str) -> ! {
    println!("{}: {what}", if ok { "as it should be" } else { "BROKEN" });
    std::process::exit(i32::from(!ok));
}
/// The scenario itself did not come about.
pub fn lost(what: &str) -> ! {
    println!("BROKEN (scenario not reached): {what}");
    std::process::exit(2);
}
