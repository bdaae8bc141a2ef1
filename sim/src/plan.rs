//! A plan is one simulated run, written out: everything the run depends on besides the code.
//! It is generated from a seed, shrunk on failure, and saved as the replay file.

use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Member {
    pub idx: usize,
    pub pw: u32,
    pub vw: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Epoch {
    /// First height this list and these settings are for.
    pub from: u64,
    pub members: Vec<Member>,
    pub interval: Option<u64>,
    pub timer: Option<[u64; 4]>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Net {
    pub min_us: u64,
    pub max_us: u64,
    pub loss_ppm: u32,
    pub dup_ppm: u32,
    /// Chance that a message takes up to `tail_us` instead.
    pub tail_ppm: u32,
    pub tail_us: u64,
    pub corrupt_ppm: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct App {
    pub get_us: u64,
    pub check_us: u64,
    pub commit_us: u64,
    pub send_us: u64,
    pub get_err_ppm: u32,
    pub check_err_ppm: u32,
    pub check_hang_ppm: u32,
    pub commit_err_ppm: u32,
    pub send_err_ppm: u32,
    /// Chance that a fixed delay range is stretched a hundredfold.
    pub slow_ppm: u32,
    pub sign_err_ppm: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct WalCfg {
    pub save_us: u64,
    pub err_ppm: u32,
    /// Of the failing saves, how many are durable all the same (the acknowledgement was lost).
    pub err_durable_ppm: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Rt {
    pub fifo: bool,
    pub jitter_ppm: u32,
    pub jitter_us: u64,
    pub yield_ppm: u32,
    pub shuffle_ppm: u32,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Point {
    WalStart,
    WalMid,
    WalDone,
    BeforeSend,
    AfterSend,
    CommitStart,
    CommitDurable,
    CommitReturn,
    CheckDone,
    GetBlock,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    /// Crash a node and restart it after a while (`down_us` 0: never).
    Crash { inst: usize, down_us: u64 },
    /// Crash it the next time it passes this point for the k-th time.
    CrashAt { inst: usize, point: Point, k: u32, down_us: u64 },
    /// Split the nodes by group bit for a while.
    Partition { groups: Vec<u8>, dur_us: u64 },
    /// One direction of one link.
    Cut { from: usize, to: usize, dur_us: u64 },
    /// Nothing in or out of one node.
    Isolate { inst: usize, dur_us: u64 },
    /// The node's tasks do not run for a while; its clock and inbox go on.
    Pause { inst: usize, dur_us: u64 },
    /// Change the speed of a node's clock.
    Clock { inst: usize, ppm: i64 },
    /// The application announces a status: its own height + `delta` (only stale or current ones
    /// are ever sent with `delta` <= 1).
    Status { inst: usize, delta: i64 },
    /// The application stops the node.
    Stop { inst: usize },
    /// Block synchronisation to the best reachable peer, now.
    Sync { inst: usize },
    /// Flip a byte of the stored log record (found at the next restart).
    RotWal { inst: usize, at: u32, xor: u8 },
    /// Log saves fail for a while.
    WalFail { inst: usize, dur_us: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub at_us: u64,
    pub kind: Kind,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Adv {
    /// Chance per observed message that the adversary acts.
    pub act_ppm: u32,
    /// Bit set of enabled actions (see byz.rs).
    pub actions: u32,
    pub tick_us: u64,
    /// Upper bound on its actions in a run.
    pub budget: u32,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum ByzMode {
    /// Keys in the adversary's hands, no node running.
    Silent,
    /// One honest-looking node runs with the same key.
    Shadow,
    /// Two nodes run with the same key and talk to different peers.
    Twins,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub family: String,
    pub seed: u64,
    /// Members of the universe (some may be in no list).
    pub n: usize,
    pub epochs: Vec<Epoch>,
    pub interval: u64,
    pub timer: Option<[u64; 4]>,
    pub byz: Vec<usize>,
    pub byz_mode: ByzMode,
    pub adv: Adv,
    pub net: Net,
    pub app: App,
    pub wal: WalCfg,
    pub rt: Rt,
    pub clock_ppm: Vec<i64>,
    pub start_us: Vec<u64>,
    /// An instance that starts for the first time while others are ahead starts from their blocks,
    /// with no log.
    #[serde(default)]
    pub snapshot: bool,
    /// The application's first status comes up to this long after the start.
    #[serde(default)]
    pub greet_us: u64,
    pub faults: Vec<Fault>,
    /// Stall (node, from height, to height): the node's tasks stop when the cluster is at the
    /// first height and go on when the second one is decided.
    #[serde(default)]
    pub stall: Option<(usize, u64, u64)>,
    /// Members that never start.
    pub absent: Vec<usize>,
    pub sync_us: u64,
    /// Push a status to non-members as soon as any node commits.
    pub push_sync: bool,
    /// When random faults end (0: never).
    pub quiesce_us: u64,
    pub end_us: u64,
    pub target: u64,
    /// How long progress may take after quiescence.
    pub bound_us: u64,
    pub max_steps: u64,
    /// Random message/callback faults (by sequence number) switched off while shrinking.
    #[serde(default)]
    pub mute: BTreeSet<u64>,
    /// Random faults from this sequence number on are off (shrinking).
    #[serde(default)]
    pub mute_from: Option<u64>,
    #[serde(default)]
    pub adv_mute: BTreeSet<u64>,
}

impl Plan {
    pub fn epoch(&self, h: u64) -> &Epoch {
        self.epochs
            .iter()
            .rev()
            .find(|e| e.from <= h)
            .unwrap_or(&self.epochs[0])
    }
    pub fn is_byz(&self, m: usize) -> bool {
        self.byz.contains(&m)
    }
}
