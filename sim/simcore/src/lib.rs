//! The deterministic simulator: one seeded source of every decision, a virtual
//! clock, an event queue, a simulated network, simulated pipes and the
//! bookkeeping (choice trace, statistics, log) that makes a run repeatable.
//!
//! Everything lives in thread-locals of the one thread that executes a run, so
//! several runs can proceed in parallel in different threads or processes
//! without seeing each other.

pub mod coop;
pub mod net;
pub mod pipe;
pub mod rng;
pub mod stdio;
pub mod sys;

use rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BinaryHeap, HashMap};
use std::path::PathBuf;
use std::task::Waker;

macro_rules! kinds {
    ($($name:ident = $text:literal),* $(,)?) => {
        /// The kinds of decision the simulator takes. A decision is identified
        /// by its kind and its ordinal among the decisions of that kind, and the
        /// value 0 is always the benign default (no fault, first in, first out).
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum K { $($name),* }
        pub const KINDS: &[(K, &str)] = &[$((K::$name, $text)),*];
    };
}

kinds! {
    Sched = "sched",
    Poll = "poll-io-early",
    Yield = "preempt",
    Stall = "task-stall",
    UdpDrop = "udp-drop",
    UdpDup = "udp-dup",
    UdpDelay = "udp-delay",
    UdpCorrupt = "udp-corrupt",
    UdpSendErr = "udp-send-error",
    UdpSendBlock = "udp-send-wouldblock",
    UdpRecvErr = "udp-recv-error",
    UdpIcmp = "udp-port-unreachable",
    TcpSplit = "tcp-split",
    TcpDelay = "tcp-delay",
    TcpShortWrite = "tcp-short-write",
    TcpShortRead = "tcp-short-read",
    TcpReset = "tcp-reset",
    TcpAcceptErr = "tcp-accept-error",
    BlockDelay = "blocking-delay",
    FsErr = "fs-error",
    FsShort = "fs-short-io",
    FsTorn = "fs-torn-write",
    ProcDelay = "proc-delay",
    ProcShort = "proc-short-io",
    ProcSpawnErr = "proc-spawn-error",
    ProcReap = "proc-reap-delay",
    ClockJump = "wallclock-jump",
    Coop = "thread-switch",
    Partition = "partition",
    Crash = "crash",
    Adversary = "adversary",
    SyscallErr = "syscall-error",
}

pub const NK: usize = KINDS.len();

pub fn kind_by_name(name: &str) -> Option<K> {
    KINDS.iter().find(|(_, n)| *n == name).map(|(k, _)| *k)
}

/// One decision with a value other than the default
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Choice {
    pub kind: K,
    pub nth: u32,
    pub value: u32,
}

pub enum Mode {
    /// Draw every decision from the seeded generator
    Search(u64),
    /// Take the listed values, the default for every other decision
    Replay(Vec<Choice>),
}

#[derive(Clone)]
pub struct Config {
    /// Probability (in millionths) that a decision of the kind is not the default
    pub prob: [u32; NK],
    /// Entropy handed to the code under test (keys, nonces, ids)
    pub entropy_seed: u64,
    /// Network parameters
    pub net: net::NetCfg,
    /// Stop injecting (everything becomes the default except scheduling) once true
    pub scratch: PathBuf,
    pub verbose: bool,
    /// Abort the run after so many scheduler steps
    pub max_steps: u64,
}

impl Config {
    pub fn quiet() -> Self {
        Config {
            prob: [0; NK],
            entropy_seed: 1,
            net: net::NetCfg::default(),
            scratch: PathBuf::from("/nonexistent-scratch"),
            verbose: false,
            max_steps: 3_000_000,
        }
    }
    pub fn set(&mut self, k: K, ppm: u32) {
        self.prob[k as usize] = ppm;
    }
}

struct Ev {
    at: u64,
    seq: u64,
    f: Box<dyn FnOnce()>,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

struct TaskInfo {
    node: u32,
    waker: Option<Waker>,
}

pub struct Sim {
    pub cfg: Config,
    rng: Option<Rng>,
    replay: HashMap<(u8, u32), u32>,
    counts: [u32; NK],
    pub injected: [u64; NK],
    pub trace: Vec<Choice>,
    entropy: Rng,
    events: BinaryHeap<Ev>,
    seq: u64,
    pub steps: u64,
    busy: u64,
    pub max_busy: u64,
    pub events_run: u64,
    hash: u64,
    sched_hash: u64,
    pub log: Vec<String>,
    pub panics: Vec<String>,
    pub task_panics: Vec<(u32, String)>,
    pub stalls: Vec<(u64, u64)>,
    pub notes: Vec<String>,
    tasks: BTreeMap<u64, TaskInfo>,
    next_task: u64,
    epochs: HashMap<u32, u32>,
    pub fault_free: bool,
    pub net: net::Net,
    pub exhausted: bool,
    pub counters: BTreeMap<&'static str, u64>,
    live_jobs: u64,
}

thread_local! {
    static OWN: Cell<u32> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static NODE: Cell<u32> = const { Cell::new(0) };
    static NESTED: Cell<u64> = const { Cell::new(0) };
    static REALTIME_OFF: Cell<i64> = const { Cell::new(0) };
    static SIM: RefCell<Option<Box<Sim>>> = const { RefCell::new(None) };
}

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// True on a thread that executes a run
pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}
/// Virtual nanoseconds since the run began
pub fn now() -> u64 {
    NOW.with(|n| n.get())
}
pub fn set_now(t: u64) {
    NOW.with(|n| {
        debug_assert!(t >= n.get());
        n.set(t)
    })
}
pub fn realtime_offset() -> i64 {
    REALTIME_OFF.with(|n| n.get())
}
pub fn jump_wall_clock(by_ns: i64) {
    REALTIME_OFF.with(|n| n.set(n.get() + by_ns));
}
/// Node whose code is executing
pub fn node() -> u32 {
    NODE.with(|n| n.get())
}
pub fn set_node(n: u32) -> u32 {
    NODE.with(|c| c.replace(n))
}
pub fn on_node<R>(n: u32, f: impl FnOnce() -> R) -> R {
    let old = set_node(n);
    let r = f();
    set_node(old);
    r
}

/// Memory allocated within belongs to the simulator
pub struct Own(());
impl Own {
    pub fn new() -> Own {
        let _ = OWN.try_with(|c| c.set(c.get() + 1));
        Own(())
    }
}
impl Default for Own {
    fn default() -> Self {
        Own::new()
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        let _ = OWN.try_with(|c| c.set(c.get() - 1));
    }
}
pub fn owning() -> bool {
    OWN.try_with(|c| c.get() > 0).unwrap_or(false)
}

pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let _own = Own::new();
    SIM.with(|s| {
        let mut b = s.borrow_mut();
        f(b.as_mut().expect("no simulation on this thread"))
    })
}
pub fn try_with<R>(f: impl FnOnce(&mut Sim) -> R) -> Option<R> {
    let _own = Own::new();
    SIM.try_with(|s| match s.try_borrow_mut() {
        Ok(mut b) => b.as_mut().map(|b| f(b)),
        Err(_) => {
            NESTED.with(|n| n.set(n.get() + 1));
            None
        }
    })
    .ok()
    .flatten()
}

/// Begin a run on this thread
pub fn begin(cfg: Config, mode: Mode) {
    let (rng, replay) = match mode {
        Mode::Search(seed) => (Some(Rng::new(seed ^ 0x5ca1ab1e)), HashMap::new()),
        Mode::Replay(t) => (
            None,
            t.into_iter()
                .map(|c| ((c.kind as u8, c.nth), c.value))
                .collect(),
        ),
    };
    let entropy = Rng::new(cfg.entropy_seed ^ 0xe17709);
    let netcfg = cfg.net.clone();
    let sim = Sim {
        cfg,
        rng,
        replay,
        counts: [0; NK],
        injected: [0; NK],
        trace: Vec::new(),
        entropy,
        events: BinaryHeap::new(),
        seq: 0,
        steps: 0,
        busy: 0,
        max_busy: 0,
        events_run: 0,
        hash: 0xcbf29ce484222325,
        sched_hash: 0xcbf29ce484222325,
        log: Vec::new(),
        panics: Vec::new(),
        task_panics: Vec::new(),
        stalls: Vec::new(),
        notes: Vec::new(),
        tasks: BTreeMap::new(),
        next_task: 1,
        epochs: HashMap::new(),
        fault_free: false,
        net: net::Net::new(netcfg),
        exhausted: false,
        counters: BTreeMap::new(),
        live_jobs: 0,
    };
    NESTED.with(|n| n.set(0));
    net::reset_thread_state();
    NOW.with(|n| n.set(0));
    NODE.with(|n| n.set(0));
    REALTIME_OFF.with(|n| n.set(0));
    SIM.with(|s| *s.borrow_mut() = Some(Box::new(sim)));
    ACTIVE.with(|a| a.set(true));
}

/// What a finished run leaves behind
pub struct Outcome {
    pub trace: Vec<Choice>,
    pub injected: [u64; NK],
    pub decisions: [u32; NK],
    pub steps: u64,
    pub events: u64,
    pub max_busy: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub log: Vec<String>,
    pub panics: Vec<String>,
    pub notes: Vec<String>,
    pub virtual_ns: u64,
    pub exhausted: bool,
    pub counters: BTreeMap<&'static str, u64>,
    /// accesses that found the simulator busy: must be 0
    pub nested: u64,
}

/// Run every queued event closure's destructor outside of the borrow
pub fn drop_events() {
    loop {
        let evs = with(|s| std::mem::take(&mut s.events));
        if evs.is_empty() {
            break;
        }
        drop(evs);
    }
}

pub fn end() -> Outcome {
    drop_events();
    // wakers held by sockets must be dropped outside of the borrow too
    let net = with(|s| std::mem::replace(&mut s.net, net::Net::new(net::NetCfg::default())));
    drop(net);
    let tasks = with(|s| std::mem::take(&mut s.tasks));
    drop(tasks);
    let sim = SIM.with(|s| s.borrow_mut().take()).unwrap();
    ACTIVE.with(|a| a.set(false));
    Outcome {
        trace: sim.trace,
        injected: sim.injected,
        decisions: sim.counts,
        steps: sim.steps,
        events: sim.events_run,
        max_busy: sim.max_busy,
        hash: sim.hash,
        sched_hash: sim.sched_hash,
        log: sim.log,
        panics: sim.panics,
        notes: sim.notes,
        virtual_ns: now(),
        exhausted: sim.exhausted,
        counters: sim.counters,
        nested: NESTED.with(|n| n.get()),
    }
}

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9e3779b97f4a7c15);
    x = x.wrapping_mul(0x100000001b3);
    x ^ (x >> 29)
}

impl Sim {
    pub fn note_hash(&mut self, v: u64) {
        self.hash = mix(self.hash, v);
    }

    /// Decide between `n` alternatives; 0 is the default
    pub fn choose(&mut self, k: K, n: u32) -> u32 {
        let ki = k as usize;
        let nth = self.counts[ki];
        self.counts[ki] += 1;
        if n < 2 {
            return 0;
        }
        let faulty = !matches!(k, K::Sched | K::Poll | K::Yield | K::Coop);
        let v = match &mut self.rng {
            Some(r) => {
                let p = self.cfg.prob[ki];
                if p == 0 || (faulty && self.fault_free) {
                    0
                } else if p >= 1_000_000 || r.below(1_000_000) < p as u64 {
                    1 + r.below(n as u64 - 1) as u32
                } else {
                    0
                }
            }
            None => {
                if faulty && self.fault_free {
                    0
                } else {
                    let v = self.replay.get(&(k as u8, nth)).copied().unwrap_or(0);
                    if v >= n {
                        v % n
                    } else {
                        v
                    }
                }
            }
        };
        if v != 0 {
            self.injected[ki] += 1;
            self.trace.push(Choice {
                kind: k,
                nth,
                value: v,
            });
            let h = ((k as u64) << 56) ^ ((nth as u64) << 20) ^ v as u64;
            self.hash = mix(self.hash, h);
        }
        v
    }
    pub fn chance(&mut self, k: K) -> bool {
        self.choose(k, 2) == 1
    }
    pub fn at(&mut self, at: u64, f: Box<dyn FnOnce()>) {
        self.seq += 1;
        let seq = self.seq;
        self.events.push(Ev { at, seq, f });
    }
    pub fn count(&mut self, c: &'static str, n: u64) {
        *self.counters.entry(c).or_insert(0) += n;
    }
}

pub fn choose(k: K, n: u32) -> u32 {
    with(|s| s.choose(k, n))
}
pub fn chance(k: K) -> bool {
    with(|s| s.chance(k))
}
pub fn count(c: &'static str, n: u64) {
    let _ = try_with(|s| s.count(c, n));
}
/// Schedule `f` at virtual time `at`
pub fn at(at: u64, f: impl FnOnce() + 'static) {
    let _own = Own::new();
    let at = at.max(now());
    let node = node();
    with(|s| {
        s.at(
            at,
            Box::new(move || {
                let old = set_node(node);
                f();
                set_node(old);
            }),
        )
    })
}
pub fn after(ns: u64, f: impl FnOnce() + 'static) {
    at(now() + ns, f)
}
/// Tasks of some node did not run from now on for so long
pub fn stall_note(ns: u64) {
    let t = now();
    with(|s| s.stalls.push((t, t + ns)))
}
/// For how long tasks were stalled between two instants, all tasks taken together
pub fn stalled(from: u64, to: u64) -> u64 {
    with(|s| {
        s.stalls
            .iter()
            .map(|(a, b)| to.min(*b).saturating_sub(from.max(*a)))
            .sum()
    })
}
/// No faults from here on: scheduling stays random, everything else is benign
pub fn stop_faults() {
    with(|s| s.fault_free = true)
}
pub fn resume_faults() {
    with(|s| s.fault_free = false)
}

/// Time of the next queued event
pub fn next_event() -> Option<u64> {
    with(|s| s.events.peek().map(|e| e.at))
}
/// Run one event due at or before `limit`; advances the clock to it
pub fn run_event(limit: u64) -> bool {
    let ev = with(|s| match s.events.peek() {
        Some(e) if e.at <= limit => {
            s.events_run += 1;
            s.events.pop()
        }
        _ => None,
    });
    match ev {
        Some(e) => {
            if e.at > now() {
                idle();
                set_now(e.at);
            }
            (e.f)();
            true
        }
        None => false,
    }
}
fn idle() {
    with(|s| {
        if s.busy > s.max_busy {
            s.max_busy = s.busy;
        }
        s.busy = 0;
    })
}
/// The scheduler found nothing ready and lets time pass
pub fn advance_to(t: u64) {
    if t > now() {
        idle();
        set_now(t);
    }
}

/// Called by the scheduler before each step: charges CPU time so that a task
/// that never waits cannot freeze the virtual clock
pub fn step() {
    let cost = with(|s| {
        s.steps += 1;
        s.busy += 1;
        if s.steps > s.cfg.max_steps {
            s.exhausted = true;
        }
        if s.busy > 20_000 {
            200_000
        } else {
            1_000
        }
    });
    set_now(now() + cost);
}
pub fn exhausted() -> bool {
    try_with(|s| s.exhausted).unwrap_or(true)
}
pub fn sched_note(v: u64) {
    with(|s| {
        s.sched_hash = mix(s.sched_hash, v);
        s.hash = mix(s.hash, v);
    })
}
pub fn note_hash(v: u64) {
    let _ = try_with(|s| s.note_hash(v));
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h
}

// ---- tasks and nodes ----

pub struct TaskKey {
    pub id: u64,
    pub node: u32,
    epoch: u32,
}
pub fn task_register() -> TaskKey {
    let node = node();
    with(|s| {
        let id = s.next_task;
        s.next_task += 1;
        let epoch = *s.epochs.get(&node).unwrap_or(&0);
        s.tasks.insert(
            id,
            TaskInfo {
                node,
                waker: None,
            },
        );
        TaskKey { id, node, epoch }
    })
}
pub fn task_alive(k: &TaskKey) -> bool {
    with(|s| *s.epochs.get(&k.node).unwrap_or(&0) == k.epoch)
}
pub fn task_waker(k: &TaskKey, w: &Waker) {
    let old = with(|s| {
        s.tasks.get_mut(&k.id).and_then(|t| match &t.waker {
            Some(x) if x.will_wake(w) => None,
            _ => t.waker.replace(w.clone()),
        })
    });
    drop(old);
}
pub fn task_unregister(k: &TaskKey) {
    let old = try_with(|s| s.tasks.remove(&k.id)).flatten();
    drop(old);
}
pub fn live_tasks(node: u32) -> usize {
    with(|s| s.tasks.values().filter(|t| t.node == node).count())
}
pub fn epoch(node: u32) -> u32 {
    with(|s| *s.epochs.get(&node).unwrap_or(&0))
}
/// The process of `node` dies: none of its tasks runs again and its sockets close
pub fn crash(node: u32) {
    let wakers: Vec<Waker> = with(|s| {
        *s.epochs.entry(node).or_insert(0) += 1;
        s.count("node-crash", 1);
        s.tasks
            .values()
            .filter(|t| t.node == node)
            .filter_map(|t| t.waker.clone())
            .collect()
    });
    net::crash(node);
    for w in wakers {
        w.wake();
    }
    log(|| format!("node {} crashed", node));
}

// ---- blocking jobs ----

pub fn job_started() {
    with(|s| s.live_jobs += 1)
}
pub fn job_done() {
    let _ = try_with(|s| s.live_jobs -= 1);
}
/// Virtual time a blocking operation takes
pub fn blocking_delay() -> u64 {
    with(|s| {
        let c = s.choose(K::BlockDelay, 16) as u64;
        20_000 + c * c * 300_000
    })
}

// ---- log ----

pub fn log(f: impl FnOnce() -> String) {
    let v = try_with(|s| s.cfg.verbose).unwrap_or(false);
    if v {
        let _own = Own::new();
        let t = now();
        let n = node();
        let m = f();
        let line = format!("{:>12.6}ms n{} {}", t as f64 / 1e6, n, m);
        let _ = try_with(|s| {
            if s.log.len() < 200_000 {
                s.log.push(line)
            }
        });
    }
}
/// A fact about the run that an oracle must look at
pub fn note(m: String) {
    let _ = try_with(|s| s.notes.push(m));
}
pub fn record_panic(m: String) {
    if active() {
        let _ = try_with(|s| s.panics.push(m));
    }
}

/// A task of `node` ends by the panic reported last
pub fn task_panicked(node: u32) {
    if active() {
        let _ = try_with(|s| {
            let m = s.panics.last().cloned().unwrap_or_default();
            s.task_panics.push((node, m))
        });
    }
}

thread_local! {
    static SEEDING: Cell<Option<u64>> = const { Cell::new(None) };
}
/// Fix the keys of this thread's hash maps, which are drawn when the thread
/// makes its first one
pub fn seed_hash_keys(seed: u64) {
    SEEDING.with(|s| s.set(Some(seed)));
    let _ = std::collections::hash_map::RandomState::new();
    SEEDING.with(|s| s.set(None));
}
pub fn fill_seeding(buf: &mut [u8]) -> bool {
    match SEEDING.try_with(|s| s.get()) {
        Ok(Some(x)) => {
            let mut r = rng::Rng::new(x ^ 0x5eed);
            for b in buf.iter_mut() {
                *b = r.next() as u8;
            }
            true
        }
        _ => false,
    }
}

/// Entropy for the code under test
pub fn fill_entropy(buf: &mut [u8]) -> bool {
    if !active() {
        return false;
    }
    try_with(|s| {
        for b in buf.iter_mut() {
            *b = s.entropy.next() as u8;
        }
    })
    .is_some()
}

// ---- file system seam ----

const EIO: i32 = 5;
const EACCES: i32 = 13;
const ENOSPC: i32 = 28;
const EMFILE: i32 = 24;
const EINTR: i32 = 4;

/// Decide whether the file operation fails. `mutates` operations outside of the
/// scratch folder are refused and noted, never carried out.
pub fn fs_op(op: &str, path: &std::path::Path, mutates: bool) -> std::io::Result<()> {
    if !active() {
        return Ok(());
    }
    let v = with(|s| {
        s.count("fs-ops", 1);
        if mutates && outside(&s.cfg.scratch, path) {
            s.notes
                .push(format!("fs-escape: {} on {}", op, path.display()));
            return 1000;
        }
        s.choose(K::FsErr, 4)
    });
    log(|| format!("fs {} {} -> {}", op, path.display(), v));
    match v {
        0 => Ok(()),
        1000 => Err(std::io::Error::from_raw_os_error(EACCES)),
        1 => Err(std::io::Error::from_raw_os_error(EIO)),
        2 => Err(std::io::Error::from_raw_os_error(if mutates {
            ENOSPC
        } else {
            EMFILE
        })),
        _ => Err(std::io::Error::from_raw_os_error(EACCES)),
    }
}
fn outside(scratch: &std::path::Path, p: &std::path::Path) -> bool {
    use std::path::Component;
    if !p.is_absolute() {
        return true;
    }
    let mut n = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                n.pop();
            }
            c => n.push(c),
        }
    }
    !n.starts_with(scratch) || n == scratch
}
/// Refuse a second path of an operation if it leaves the scratch folder
pub fn fs_guard(op: &str, path: &std::path::Path) -> std::io::Result<()> {
    if active() && with(|s| outside(&s.cfg.scratch, path)) {
        note(format!("fs-escape: {} on {}", op, path.display()));
        return Err(std::io::Error::from_raw_os_error(EACCES));
    }
    Ok(())
}
pub enum IoPlan {
    Full,
    Short(usize),
    /// write that many bytes, then fail
    Torn(usize, i32),
    Fail(i32),
}
pub fn fs_io(write: bool, len: usize) -> IoPlan {
    if !active() {
        return IoPlan::Full;
    }
    with(|s| {
        s.count(if write { "fs-writes" } else { "fs-reads" }, 1);
        match s.choose(K::FsErr, 4) {
            0 => {}
            1 => return IoPlan::Fail(EIO),
            2 => return IoPlan::Fail(if write { ENOSPC } else { EIO }),
            _ => return IoPlan::Fail(EINTR),
        }
        if write && len > 0 {
            let c = s.choose(K::FsTorn, 9) as usize;
            if c > 0 {
                return IoPlan::Torn(len * (c - 1) / 8, ENOSPC);
            }
        }
        if len > 1 {
            let c = s.choose(K::FsShort, 8) as usize;
            if c > 0 {
                return IoPlan::Short((len * c / 8).max(1));
            }
        }
        IoPlan::Full
    })
}
