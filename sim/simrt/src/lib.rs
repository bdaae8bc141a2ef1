//! Deterministic single-threaded executor, virtual clock and seeded scheduler.
//!
//! One simulation runs on one OS thread; all of its state is thread local, so several simulations
//! can run side by side on different threads without seeing each other. Every scheduling choice,
//! delay, yield and random number comes from one seed.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap};
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub mod interpose;
pub mod mem;
pub mod rng;
pub use rng::Rng;

pub type NodeId = u32;
pub type TaskId = u64;
pub const HARNESS: NodeId = 0;
/// Nodes k * NODE_RUNS .. are the runs of one and the same deployment member.
pub const NODE_RUNS: NodeId = 1000;

#[derive(Clone, Debug, Default)]
pub struct RtCfg {
    pub seed: u64,
    /// Pick the ready task in FIFO order instead of at random.
    pub fifo: bool,
    /// Chance (ppm) that a wake-up makes its task runnable only after a random delay.
    pub jitter_ppm: u32,
    pub jitter_max_ns: u64,
    /// Chance (ppm) that a channel receive yields although a message may be there.
    pub yield_ppm: u32,
    /// Chance (ppm) that `select!` polls its branches in a shuffled order (the rest: as written).
    pub shuffle_ppm: u32,
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub node: NodeId,
    pub msg: String,
    pub at: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct RtStats {
    pub polls: u64,
    pub wakes: u64,
    pub spawns: u64,
    pub timers: u64,
    pub jitters: u64,
    pub yields: u64,
    pub switches: u64,
    pub max_ready: u64,
}

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    node: NodeId,
    fut: Option<BoxFut>,
    queued: bool,
}

enum Ev {
    Call(Box<dyn FnOnce()>),
    Wake(Waker),
    Ready(TaskId),
}

struct HeapItem {
    at: u64,
    seq: u64,
    ev: Ev,
    node: NodeId,
}
impl PartialEq for HeapItem {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for HeapItem {}
impl PartialOrd for HeapItem {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for HeapItem {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

#[derive(Clone, Copy)]
struct Clock {
    base_global: u64,
    base_local: u64,
    ppm: i64,
}

struct Cx {
    cfg: RefCell<RtCfg>,
    active: Cell<bool>,
    now: Cell<u64>,
    node: Cell<NodeId>,
    seq: Cell<u64>,
    next_task: Cell<TaskId>,
    tasks: RefCell<HashMap<TaskId, Task, Fixed>>,
    ready: RefCell<Vec<TaskId>>,
    heap: RefCell<BinaryHeap<HeapItem>>,
    sched: RefCell<Rng>,
    clocks: RefCell<BTreeMap<NodeId, Clock>>,
    paused: RefCell<BTreeMap<NodeId, Vec<TaskId>>>,
    dead: RefCell<BTreeSet<NodeId>>,
    panics: RefCell<Vec<PanicInfo>>,
    stats: Cell<RtStats>,
    last_task: Cell<TaskId>,
    sched_hash: Cell<u64>,
    heartbeat: RefCell<Option<Arc<std::sync::atomic::AtomicU64>>>,
}

#[derive(Clone, Copy, Default)]
struct Fixed;
impl std::hash::BuildHasher for Fixed {
    type Hasher = FixedHasher;
    fn build_hasher(&self) -> FixedHasher {
        FixedHasher(0)
    }
}
struct FixedHasher(u64);
impl std::hash::Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
}

thread_local! {
    static CX: Cx = Cx {
        cfg: RefCell::new(RtCfg::default()),
        active: Cell::new(false),
        now: Cell::new(0),
        node: Cell::new(HARNESS),
        seq: Cell::new(0),
        next_task: Cell::new(1),
        tasks: RefCell::new(HashMap::default()),
        ready: RefCell::new(Vec::new()),
        heap: RefCell::new(BinaryHeap::new()),
        sched: RefCell::new(Rng::new(0)),
        clocks: RefCell::new(BTreeMap::new()),
        paused: RefCell::new(BTreeMap::new()),
        dead: RefCell::new(BTreeSet::new()),
        panics: RefCell::new(Vec::new()),
        stats: Cell::new(RtStats::default()),
        last_task: Cell::new(0),
        sched_hash: Cell::new(0),
        heartbeat: RefCell::new(None),
    };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Install once per process: panics inside a simulation are recorded, not printed.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if is_active() {
            let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(info.to_string()));
        } else {
            default(info);
        }
    }));
}

pub fn is_active() -> bool {
    CX.try_with(|c| c.active.get()).unwrap_or(false)
}

/// Start a simulation on this thread.
pub fn init(cfg: RtCfg) {
    CX.with(|c| {
        assert!(!c.active.get());
        *c.sched.borrow_mut() = Rng::new(cfg.seed ^ 0x5ced_u64);
        *c.cfg.borrow_mut() = cfg;
        c.now.set(1_000_000_000);
        c.node.set(HARNESS);
        c.seq.set(0);
        c.next_task.set(1);
        c.stats.set(RtStats::default());
        c.sched_hash.set(0xcbf2_9ce4_8422_2325);
        c.active.set(true);
    });
}

/// End the simulation: drop every task and pending event.
pub fn shutdown() {
    CX.with(|c| {
        c.active.set(false);
        let tasks = std::mem::take(&mut *c.tasks.borrow_mut());
        drop(tasks);
        let heap = std::mem::take(&mut *c.heap.borrow_mut());
        drop(heap);
        c.ready.borrow_mut().clear();
        c.clocks.borrow_mut().clear();
        c.paused.borrow_mut().clear();
        c.dead.borrow_mut().clear();
        c.panics.borrow_mut().clear();
    });
}

pub fn set_heartbeat(h: Arc<std::sync::atomic::AtomicU64>) {
    CX.with(|c| *c.heartbeat.borrow_mut() = Some(h));
}

pub fn update_cfg(f: impl FnOnce(&mut RtCfg)) {
    CX.with(|c| f(&mut c.cfg.borrow_mut()));
}

pub fn stats() -> RtStats {
    CX.with(|c| c.stats.get())
}
fn stat(f: impl FnOnce(&mut RtStats)) {
    CX.with(|c| {
        let mut s = c.stats.get();
        f(&mut s);
        c.stats.set(s);
    });
}

/// Hash of all scheduling decisions so far.
pub fn sched_hash() -> u64 {
    CX.with(|c| c.sched_hash.get())
}
fn mix(x: u64) {
    CX.with(|c| {
        let h = (c.sched_hash.get() ^ x).wrapping_mul(0x100_0000_01b3);
        c.sched_hash.set(h ^ (h >> 29));
    });
}

/// Global simulated time in nanoseconds.
pub fn now() -> u64 {
    CX.try_with(|c| c.now.get()).unwrap_or(0)
}

pub fn current_node() -> NodeId {
    CX.try_with(|c| c.node.get()).unwrap_or(HARNESS)
}

/// Run `f` as if on `node` (what it spawns belongs to that node, what it reads is its clock).
pub fn enter<R>(node: NodeId, f: impl FnOnce() -> R) -> R {
    let _g = mem::owned_by(node / NODE_RUNS);
    let old = CX.with(|c| c.node.replace(node));
    let r = f();
    CX.with(|c| c.node.set(old));
    r
}

/// The monotonic clock of a node at the current instant.
pub fn local_now(node: NodeId) -> u64 {
    CX.with(|c| {
        let now = c.now.get();
        match c.clocks.borrow().get(&node) {
            None => now,
            Some(k) => to_local(k, now),
        }
    })
}
fn to_local(k: &Clock, g: u64) -> u64 {
    let d = (g - k.base_global) as i128;
    (k.base_local as i128 + d + d * k.ppm as i128 / 1_000_000) as u64
}

/// Set how fast a node's clock runs from now on (0 ppm: real time), keeping it monotonic.
pub fn set_clock(node: NodeId, offset: u64, ppm: i64) {
    CX.with(|c| {
        let now = c.now.get();
        let mut m = c.clocks.borrow_mut();
        let base_local = match m.get(&node) {
            Some(k) => to_local(k, now) + offset,
            None => now + offset,
        };
        m.insert(
            node,
            Clock {
                base_global: now,
                base_local,
                ppm,
            },
        );
    });
}

/// How long (global) a node has to wait for its own clock to advance by `d`.
fn local_to_global_dur(node: NodeId, d: u64) -> u64 {
    CX.with(|c| match c.clocks.borrow().get(&node) {
        None => d,
        Some(k) => {
            let num = d as u128 * 1_000_000u128;
            let den = (1_000_000i64 + k.ppm) as u128;
            num.div_ceil(den) as u64
        }
    })
}

fn next_seq(c: &Cx) -> u64 {
    let s = c.seq.get();
    c.seq.set(s + 1);
    s
}

fn push_ev(at: u64, node: NodeId, ev: Ev) {
    let _g = mem::as_harness();
    CX.with(|c| {
        let seq = next_seq(c);
        c.heap.borrow_mut().push(HeapItem { at, seq, ev, node });
    });
}

/// Run `f` at global time `at` (harness event: it survives crashes of any node).
pub fn at(at: u64, f: impl FnOnce() + 'static) {
    push_ev(at.max(now()), HARNESS, Ev::Call(Box::new(f)));
}
pub fn after(d: u64, f: impl FnOnce() + 'static) {
    at(now().saturating_add(d), f);
}

/// Uniform choice from the scheduling stream: 0..n.
pub fn choose(n: usize) -> usize {
    CX.try_with(|c| {
        if !c.active.get() || n <= 1 {
            return n.saturating_sub(1);
        }
        let ppm = c.cfg.borrow().shuffle_ppm;
        let mut r = c.sched.borrow_mut();
        if !r.chance(ppm) {
            return n - 1; // identity for a Fisher-Yates step
        }
        r.below(n as u64) as usize
    })
    .unwrap_or(n - 1)
}

/// Should this channel receive yield although something may be ready?
pub fn should_yield() -> bool {
    CX.try_with(|c| {
        if !c.active.get() {
            return false;
        }
        let ppm = c.cfg.borrow().yield_ppm;
        if ppm == 0 {
            return false;
        }
        let y = c.sched.borrow_mut().chance(ppm);
        if y {
            stat(|s| s.yields += 1);
        }
        y
    })
    .unwrap_or(false)
}

// ---------------------------------------------------------------- tasks

struct TaskWaker(TaskId);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        wake_task(self.0)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        wake_task(self.0)
    }
}

fn wake_task(id: TaskId) {
    let _g = mem::as_harness();
    let _ = CX.try_with(|c| {
        if !c.active.get() {
            return;
        }
        {
            let mut tasks = c.tasks.borrow_mut();
            match tasks.get_mut(&id) {
                Some(t) if !t.queued => t.queued = true,
                _ => return,
            }
        }
        stat(|s| s.wakes += 1);
        let cfg = c.cfg.borrow();
        if cfg.jitter_ppm > 0 && c.sched.borrow_mut().chance(cfg.jitter_ppm) {
            let d = c.sched.borrow_mut().below(cfg.jitter_max_ns.max(1));
            stat(|s| s.jitters += 1);
            push_ev(c.now.get() + d, HARNESS, Ev::Ready(id));
        } else {
            c.ready.borrow_mut().push(id);
        }
    });
}

/// Spawn a task on the current node.
pub fn spawn_raw(fut: BoxFut) -> TaskId {
    spawn_on(current_node(), fut)
}

pub fn spawn_on(node: NodeId, fut: BoxFut) -> TaskId {
    let _g = mem::as_harness();
    CX.with(|c| {
        if !c.active.get() || c.dead.borrow().contains(&node) {
            return 0;
        }
        let id = c.next_task.get();
        c.next_task.set(id + 1);
        c.tasks.borrow_mut().insert(
            id,
            Task {
                node,
                fut: Some(fut),
                queued: false,
            },
        );
        stat(|s| s.spawns += 1);
        wake_task(id);
        id
    })
}

/// Drop a task (its future is destroyed at once, or when its current poll ends).
pub fn abort_task(id: TaskId) {
    let t = CX.with(|c| c.tasks.borrow_mut().remove(&id));
    drop(t);
}

/// Crash a node: all of its tasks vanish at this instant.
pub fn kill_node(node: NodeId) -> usize {
    let dead: Vec<Task> = CX.with(|c| {
        c.dead.borrow_mut().insert(node);
        c.paused.borrow_mut().remove(&node);
        let mut tasks = c.tasks.borrow_mut();
        let mut ids: Vec<TaskId> = tasks
            .iter()
            .filter(|(_, t)| t.node == node)
            .map(|(i, _)| *i)
            .collect();
        ids.sort_unstable();
        ids.iter().filter_map(|i| tasks.remove(i)).collect()
    });
    let n = dead.len();
    drop(dead);
    n
}

pub fn is_dead(node: NodeId) -> bool {
    CX.with(|c| c.dead.borrow().contains(&node))
}

pub fn node_tasks(node: NodeId) -> usize {
    CX.with(|c| c.tasks.borrow().values().filter(|t| t.node == node).count())
}

/// Stop scheduling a node's tasks until `resume_node`; its timers still expire meanwhile.
pub fn pause_node(node: NodeId) {
    CX.with(|c| {
        c.paused.borrow_mut().entry(node).or_default();
    });
}
pub fn resume_node(node: NodeId) {
    CX.with(|c| {
        if let Some(v) = c.paused.borrow_mut().remove(&node) {
            c.ready.borrow_mut().extend(v);
        }
    });
}

pub fn take_panics() -> Vec<PanicInfo> {
    CX.with(|c| std::mem::take(&mut *c.panics.borrow_mut()))
}
pub fn has_panics() -> bool {
    CX.with(|c| !c.panics.borrow().is_empty())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Step {
    Polled(NodeId),
    Advanced,
    Idle,
}

/// One scheduler step: poll one ready task, or move the clock to the next event.
pub fn step() -> Step {
    if let Some(h) = CX.with(|c| c.heartbeat.borrow().clone()) {
        h.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    loop {
        let picked = CX.with(|c| {
            let mut ready = c.ready.borrow_mut();
            if ready.is_empty() {
                return None;
            }
            let n = ready.len();
            let i = if c.cfg.borrow().fifo || n == 1 {
                0
            } else {
                c.sched.borrow_mut().below(n as u64) as usize
            };
            stat(|s| s.max_ready = s.max_ready.max(n as u64));
            Some(if c.cfg.borrow().fifo {
                ready.remove(0)
            } else {
                ready.swap_remove(i)
            })
        });
        let Some(id) = picked else { break };
        // take the future out
        let got = CX.with(|c| {
            let mut tasks = c.tasks.borrow_mut();
            let t = tasks.get_mut(&id)?;
            let mut paused = c.paused.borrow_mut();
            if let Some(q) = paused.get_mut(&t.node) {
                q.push(id);
                return None;
            }
            t.queued = false;
            let node = t.node;
            t.fut.take().map(|f| (node, f))
        });
        let Some((node, mut fut)) = got else { continue };
        CX.with(|c| {
            if c.last_task.replace(id) != id {
                stat(|s| s.switches += 1);
            }
            stat(|s| s.polls += 1);
            mix(id);
        });
        let waker = Waker::from(Arc::new(TaskWaker(id)));
        let mut cx = Context::from_waker(&waker);
        let res = enter(node, || {
            std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)))
        });
        match res {
            Ok(Poll::Pending) => CX.with(|c| {
                let mut tasks = c.tasks.borrow_mut();
                if let Some(t) = tasks.get_mut(&id) {
                    t.fut = Some(fut);
                } else {
                    drop(tasks);
                    drop(fut); // aborted or crashed while running
                }
            }),
            Ok(Poll::Ready(())) => {
                CX.with(|c| c.tasks.borrow_mut().remove(&id));
                enter(node, || drop(fut));
            }
            Err(p) => {
                CX.with(|c| c.tasks.borrow_mut().remove(&id));
                let msg = PANIC_MSG
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or_else(|| payload(&p));
                let _ = std::panic::catch_unwind(AssertUnwindSafe(|| enter(node, || drop(fut))));
                CX.with(|c| {
                    c.panics.borrow_mut().push(PanicInfo {
                        node,
                        msg,
                        at: c.now.get(),
                    })
                });
            }
        }
        return Step::Polled(node);
    }
    // nothing ready: advance the clock
    let item = CX.with(|c| c.heap.borrow_mut().pop());
    match item {
        None => Step::Idle,
        Some(it) => {
            CX.with(|c| {
                if it.at > c.now.get() {
                    c.now.set(it.at);
                }
            });
            match it.ev {
                Ev::Call(f) => enter(it.node, f),
                Ev::Wake(w) => w.wake(),
                Ev::Ready(id) => CX.with(|c| {
                    if c.tasks.borrow().contains_key(&id) {
                        c.ready.borrow_mut().push(id);
                    }
                }),
            }
            Step::Advanced
        }
    }
}

/// Time of the next event, if nothing is runnable now.
pub fn next_event_at() -> Option<u64> {
    CX.with(|c| {
        if !c.ready.borrow().is_empty() {
            return Some(c.now.get());
        }
        c.heap.borrow().peek().map(|i| i.at)
    })
}

pub fn payload(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

// ---------------------------------------------------------------- sleeping

struct SleepState {
    fired: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}

/// A timer on the clock of the node that created it.
pub struct Sleep {
    deadline: u64,
    state: SleepCell,
}
struct SleepCell(Option<Rc<SleepState>>);
// A simulation never leaves its thread; `tokio::spawn` wants `Send` futures all the same.
unsafe impl Send for SleepCell {}
unsafe impl Sync for SleepCell {}

impl std::fmt::Debug for Sleep {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Sleep").finish()
    }
}

/// Sleep for `d` nanoseconds of the current node's clock.
pub fn sleep(d: u64) -> Sleep {
    let node = current_node();
    let g = local_to_global_dur(node, d);
    stat(|s| s.timers += 1);
    Sleep {
        deadline: now().saturating_add(g),
        state: SleepCell(None),
    }
}

/// Sleep for `d` nanoseconds of global time.
pub fn sleep_global(d: u64) -> Sleep {
    Sleep {
        deadline: now().saturating_add(d),
        state: SleepCell(None),
    }
}

impl Sleep {
    pub fn is_elapsed(&self) -> bool {
        now() >= self.deadline
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match &self.state.0 {
            None => {
                if now() >= self.deadline {
                    return Poll::Ready(());
                }
                let _g = mem::as_harness();
                let st = Rc::new(SleepState {
                    fired: Cell::new(false),
                    waker: RefCell::new(Some(cx.waker().clone())),
                });
                self.state.0 = Some(st.clone());
                let deadline = self.deadline;
                at(deadline, move || {
                    st.fired.set(true);
                    let w = st.waker.borrow_mut().take();
                    if let Some(w) = w {
                        w.wake();
                    }
                });
                Poll::Pending
            }
            Some(st) => {
                if st.fired.get() {
                    Poll::Ready(())
                } else {
                    *st.waker.borrow_mut() = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(st) = &self.state.0 {
            *st.waker.borrow_mut() = None;
        }
    }
}

/// Wake a waker at a global time.
pub fn wake_at(t: u64, w: Waker) {
    push_ev(t, HARNESS, Ev::Wake(w));
}

/// Yield once to the scheduler.
pub struct YieldNow(bool);
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
