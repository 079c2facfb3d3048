//! C15: what one client does neither delays nor disturbs another
use super::*;
use crate::exec::{in_runtime, scratch, INTENDED};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, ConnectedClient, Msg, Reply, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::net::{TcpStream, UdpSocket};

pub static PROP: Prop = Prop {
    id: "C15",
    gen,
    run,
    quick_runs: 6000,
    batch: 20,
    rule: "1-2 well-behaved clients with fully predictable requests (heartbeats, custom requests, batches, sequences, their own files, directories and processes, one at a time and in bursts) share a server with 1-4 antagonists that flood it, never read their replies, stop in mid-message, send nonsense, open and abandon connections, crash, are cut off and reset, cancel requests, hold files and processes, run nested and panicking requests that take every lock, while cleanup runs as often as every few milliseconds. Every request of the former must be answered, correctly, exactly once, over TCP in the order of sending, within a bound that is the sum of the work the antagonists declared plus a constant; a new client afterwards too. Two variants cover known findings: an antagonist whose unread replies fill the window and the server's queue, and one whose request takes long.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: true,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    victims: u32,
    antas: u32,
    /// time within which everything is answered (ms)
    limit: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Q {
    Heartbeat,
    Version,
    Caps,
    One(Probe),
    Batch(Vec<Probe>),
    Seq(Vec<Probe>),
    NoFile(u32),
    Deep(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum V {
    Burst(Vec<Q>),
    File(u32, Vec<usize>),
    Proc(Vec<usize>),
    Sleep(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum W {
    Open(u32),
    Write(usize),
    Read,
    Rename(u32),
    Remove(u32),
    List,
    Dir(u32, bool),
    Exec(String),
    Stdin(usize),
    Out,
    Status,
    Kill,
    /// everything locked one after the other, then a panic
    Debug,
    Panic(bool),
    Probes(Vec<Probe>, bool),
    Deep(u32),
    Forward,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum A {
    /// requests in a row, and whether the connection is kept
    Flood(u32, Probe, bool),
    /// requests whose replies nobody reads; then close, reset, or neither; after so long (ms)
    Mute(u32, Probe, u8, u64),
    Half(usize, u8, u64),
    Garbage(u8, usize, u64),
    Connects(u32, u64),
    /// a request, given up after so long (us) if not 0
    Work(W, u64),
    Sleep(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Ev {
    Crash(u32, u64),
    Cut(u32, u64),
    Reset(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    V(u32, V),
    A(u32, A),
    Ctl(u64, Ev),
}

fn small(id: u64, rng: &mut Rng, delays: &[u64]) -> Probe {
    Probe {
        id,
        delay: *rng.pick(delays),
        reply: *rng.pick(&[0, 10, 300, 2000, 9000]),
        fill: *rng.pick(&[0, 10, 300, 2000, 9000]),
        fail: false,
    }
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let variant = match rng.below(100) {
        0 => "unread",
        1 => "slow",
        _ => "mixed",
    };
    let tcp = variant == "unread" || rng.below(5) < 3;
    let mut p = Plan::new("C15", variant, rng);
    let victims = rng.range(1, 2) as u32;
    let antas = rng.range(1, if thorough { 4 } else { 3 }) as u32;
    let mut sec = Sec::any(rng);
    if rng.below(3) > 0 {
        sec.auth = 0;
        sec.crypt = 0;
    }
    // files and processes of the well-behaved may only expire if they have none
    let short = rng.below(3) == 0;
    let net = Net {
        tcp,
        v6: rng.below(6) == 0,
        sec,
        buffer: if variant == "unread" { *rng.pick(&[1, 2, 8]) } else { *rng.pick(&[1, 1, 2, 8, 1000]) },
        client_buffer: *rng.pick(&[1, 8, 1000]),
        cleanup: *rng.pick(&[3, 20, 200, 60_000]),
        file_ttl: if short { *rng.pick(&[1, 30]) } else { 120_000 },
        proc_ttl: if short { *rng.pick(&[1, 30]) } else { 300_000 },
        dead_ttl: *rng.pick(&[10, 30_000]),
        ..Default::default()
    };
    let mut ops = vec![];
    let mut id = 1000;
    let mut next = |rng: &mut Rng| {
        id += 1 + rng.below(50);
        id
    };
    let delays: &[u64] = &[0, 0, 0, 0, 2, 20];
    for v in 0..victims {
        for _ in 0..rng.range(2, if thorough { 14 } else { 8 }) {
            let x = match rng.below(if short { 5 } else { 9 }) {
                0..=3 => V::Burst(
                    (0..*rng.pick(&[1, 1, 2, 6]))
                        .map(|_| match rng.below(10) {
                            0 => Q::Heartbeat,
                            1 => Q::Version,
                            2 => Q::Caps,
                            3..=5 => Q::One(small(next(rng), rng, delays)),
                            6 => Q::Batch((0..rng.range(1, 4)).map(|_| small(next(rng), rng, delays)).collect()),
                            7 => Q::Seq((0..rng.range(1, 4)).map(|_| small(next(rng), rng, delays)).collect()),
                            8 => Q::NoFile(rng.below(1 << 30) as u32 + (1 << 30)),
                            _ => Q::Deep(rng.range(6, 12) as u32),
                        })
                        .collect(),
                ),
                4 => V::Sleep(*rng.pick(&[1, 10, 50])),
                5..=6 => V::File(
                    rng.below(3) as u32,
                    (0..rng.range(1, 3)).map(|_| *rng.pick(&[0, 10, 3000, 20_000])).collect(),
                ),
                _ => V::Proc((0..rng.range(1, 3)).map(|_| rng.range(1, 3000) as usize).collect()),
            };
            ops.push(Op::V(v, x));
        }
    }
    let mut work = 0;
    for a in 0..antas {
        for _ in 0..rng.range(1, if thorough { 16 } else { 9 }) {
            let cap = net.buffer as u64;
            let x = match rng.below(24) {
                0..=1 => {
                    let n = *rng.pick(&[3, 10, 60]);
                    let q = small(next(rng), rng, &[0, 0, 0, 5]);
                    work += n as u64 * q.delay;
                    A::Flood(n, q, rng.below(2) == 0)
                }
                2..=5 => {
                    let n = rng.range(1, cap.min(20)) as u32;
                    let mut q = small(next(rng), rng, &[0, 0, 0, 5]);
                    q.reply = *rng.pick(&[10, 3000, 30_000]);
                    work += n as u64 * q.delay;
                    A::Mute(n, q, rng.below(3) as u8, *rng.pick(&[0, 1, 30]))
                }
                6..=7 => A::Half(rng.range(1, 4000) as usize, rng.below(3) as u8, *rng.pick(&[0, 3, 40])),
                8 => A::Garbage(rng.below(7) as u8, rng.below(3000) as usize, rng.next()),
                9 => A::Connects(rng.range(1, 30) as u32, *rng.pick(&[0, 1, 50])),
                10 => A::Sleep(*rng.pick(&[1, 10, 50])),
                _ => {
                    work += 700;
                    let w = match rng.below(20) {
                        0..=1 => W::Open(rng.below(3) as u32),
                        2..=3 => W::Write(*rng.pick(&[0, 100, 30_000])),
                        4 => W::Read,
                        5 => W::Rename(rng.below(3) as u32),
                        6 => W::Remove(rng.below(3) as u32),
                        7 => W::List,
                        8 => W::Dir(rng.below(2) as u32, rng.below(2) == 0),
                        9..=10 => W::Exec(
                            rng.pick(&["hang", "cat", "out:hello exit:3", "fill:200000:5 hang", "efill:200000:5", "sleep:20 signal:9"])
                                .to_string(),
                        ),
                        11 => W::Stdin(rng.below(3000) as usize),
                        12 => W::Out,
                        13 => W::Status,
                        14 => W::Kill,
                        15..=16 => W::Debug,
                        17 => W::Panic(rng.below(2) == 0),
                        18 => {
                            let ps: Vec<Probe> = (0..rng.range(1, 4)).map(|_| small(next(rng), rng, &[0, 10, 100])).collect();
                            work += ps.iter().map(|p| p.delay).sum::<u64>();
                            W::Probes(ps, rng.below(2) == 0)
                        }
                        _ => {
                            if rng.below(2) == 0 {
                                W::Deep(rng.range(2, 12) as u32)
                            } else {
                                W::Forward
                            }
                        }
                    };
                    A::Work(w, *rng.pick(&[0, 0, 0, 100, 1000, 10_000]))
                }
            };
            ops.push(Op::A(a, x));
        }
        for _ in 0..rng.below(3) {
            let at = *rng.pick(&[1, 5, 20, 100, 300]) + rng.below(20);
            let e = match rng.below(3) {
                0 => Ev::Crash(a, *rng.pick(&[0, 10])),
                1 => {
                    let len = *rng.pick(&[5, 100, 1000]);
                    work += 2 * len;
                    Ev::Cut(a, len)
                }
                _ => Ev::Reset(a),
            };
            ops.push(Op::Ctl(at, e));
        }
    }
    let window = *rng.pick(&[4000, 20_000, 65_536]);
    match variant {
        "unread" => {
            let q = Probe {
                id: 5,
                delay: 0,
                reply: 3000,
                fill: 0,
                fail: false,
            };
            let n = (window / 3000 + net.buffer + 4) as u32;
            ops.retain(|o| !matches!(o, Op::Ctl(..)));
            ops.insert(victims as usize, Op::A(0, A::Mute(n, q, 2, 0)));
        }
        "slow" => {
            let q = Probe {
                id: 5,
                delay: *rng.pick(&[100_000, 200_000]),
                reply: 10,
                fill: 0,
                fail: false,
            };
            ops.insert(victims as usize, Op::A(0, A::Mute(1, q, 2, 0)));
        }
        _ => {}
    }
    // their own work also counts
    let own: u64 = ops
        .iter()
        .map(|o| match o {
            Op::V(_, V::Burst(q)) => q.len() as u64 * 100,
            Op::V(..) => 1500,
            _ => 0,
        })
        .sum();
    let par = Params {
        net,
        victims,
        antas,
        limit: 3000 + work + own,
    };
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 300, 1000]);
    p.net.jitter_us = *rng.pick(&[10, 100, 400]);
    p.net.window = window;
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    p.swarm(rng, K::UdpDelay, 50, 50_000, 900_000);
    p.swarm(rng, K::UdpSendBlock, 30, 20_000, 300_000);
    p.swarm(rng, K::UdpRecvErr, 40, 10_000, 200_000);
    p.swarm(rng, K::UdpIcmp, 60, 100_000, 1_000_000);
    p.swarm(rng, K::TcpDelay, 50, 50_000, 500_000);
    p.swarm(rng, K::TcpSplit, 50, 50_000, 500_000);
    p.swarm(rng, K::TcpShortRead, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpShortWrite, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpAcceptErr, 40, 20_000, 400_000);
    p.swarm(rng, K::ProcDelay, 40, 50_000, 900_000);
    p.swarm(rng, K::ProcReap, 40, 50_000, 900_000);
    p.max_steps = 2_000_000;
    p
}

#[derive(Default)]
struct World {
    /// problems: signature, text
    bad: Vec<(String, String)>,
    late: Vec<String>,
    done: u32,
    answered: u64,
    slowest: u64,
    /// next operation of each antagonist
    next: Vec<usize>,
    /// well-behaved clients that are connected, and whether they may begin
    ready: u32,
    go: bool,
    stop: bool,
}
type Shared = Arc<Mutex<World>>;

fn expect(q: &Q) -> Request {
    match q {
        Q::Heartbeat => Request::Heartbeat,
        Q::Version => Request::Version,
        Q::Caps => Request::Capabilities,
        Q::One(p) => p.request(),
        Q::Batch(ps) => Request::Batch(ps.iter().map(|p| p.request()).collect::<Vec<_>>().into()),
        Q::Seq(ps) => Request::Sequence(
            ps.iter()
                .map(|p| p.request().into_lazily_transformed(vec![]))
                .collect::<Vec<_>>()
                .into(),
        ),
        Q::NoFile(id) => Request::ReadFile(request::ReadFileArgs { id: *id, sig: 1 }),
        Q::Deep(n) => (0..*n).fold(Request::Heartbeat, |r, _| Request::Batch(vec![r].into())),
    }
}
fn fits(q: &Q, r: &Reply) -> bool {
    match (q, r) {
        (Q::Heartbeat, Reply::Heartbeat) => true,
        (Q::Version, Reply::Version(v)) => !v.version.is_empty(),
        (Q::Caps, Reply::Capabilities(c)) => !c.capabilities.is_empty(),
        (Q::One(p), r) => p.fits(r),
        (Q::Batch(ps), Reply::Batch(b)) => {
            b.results.len() == ps.len() && ps.iter().zip(&b.results).all(|(p, r)| p.fits(r))
        }
        (Q::Seq(ps), Reply::Sequence(b)) => {
            b.results.len() == ps.len() && ps.iter().zip(&b.results).all(|(p, r)| p.fits(r))
        }
        (Q::NoFile(_), Reply::Error(_)) => true,
        // the limit of nesting is reported at some level
        (Q::Deep(_), Reply::Batch(_)) => format!("{:?}", r).contains("maximum"),
        _ => false,
    }
}

struct Ask<'a> {
    v: u32,
    peer: &'a mut Peer,
    par: &'a Params,
    w: &'a Shared,
    sent: Vec<u32>,
}
impl<'a> Ask<'a> {
    async fn send(&mut self, r: Request) -> u32 {
        let m = Msg::from(r);
        self.sent.push(m.header.id);
        let _ = tokio::time::timeout(Duration::from_millis(self.par.limit), self.peer.send(&m)).await;
        m.header.id
    }
    /// None if it is late
    async fn wait(&mut self, id: u32, since: u64, what: &str) -> Option<Reply> {
        loop {
            if let Some(r) = self.peer.replies(id).pop() {
                let mut w = self.w.lock().unwrap();
                w.answered += 1;
                w.slowest = w.slowest.max(simcore::now() - since);
                return Some(r);
            }
            if simcore::now() > since + self.par.limit * MS {
                let t = format!("client {}: no reply to {} after {} ms", self.v, what, self.par.limit);
                self.w.lock().unwrap().late.push(t);
                return None;
            }
            sleep_ms(1).await;
        }
    }
    async fn ask(&mut self, r: Request) -> Option<Reply> {
        let what = format!("{:.80?}", r);
        let t = simcore::now();
        let id = self.send(r).await;
        self.wait(id, t, &what).await
    }
    fn wrong(&self, what: &str, r: &Reply) {
        let t = format!("client {}: {} got {:.200?}", self.v, what, r);
        self.w.lock().unwrap().bad.push(("disturbed".into(), t));
    }
}

async fn victim(v: u32, par: Params, mine: Vec<V>, w: Shared) {
    let r = work(v, &par, mine, &w).await;
    let mut w = w.lock().unwrap();
    if let Some(e) = r {
        w.late.push(e);
    }
    w.done += 1;
}
async fn work(v: u32, par: &Params, mine: Vec<V>, w: &Shared) -> Option<String> {
    let mut peer = match tokio::time::timeout(Duration::from_millis(par.limit), Peer::new(&par.net)).await {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Some(format!("client {} cannot connect: {}", v, e)),
        Err(_) => return Some(format!("client {} cannot connect in time", v)),
    };
    w.lock().unwrap().ready += 1;
    while !w.lock().unwrap().go {
        sleep_ms(1).await;
    }
    let dir = scratch().join(format!("v{}", v));
    let mut names = std::collections::BTreeSet::new();
    let mut a = Ask {
        v,
        peer: &mut peer,
        par,
        w,
        sent: vec![],
    };
    'all: for (k, step) in mine.iter().enumerate() {
        match step {
            V::Sleep(n) => sleep_ms(*n).await,
            V::Burst(qs) => {
                let t = simcore::now();
                let mut ids = vec![];
                for q in qs {
                    ids.push(a.send(expect(q)).await);
                }
                for (id, q) in ids.iter().zip(qs) {
                    match a.wait(*id, t, &format!("{:.80?}", q)).await {
                        Some(r) if fits(q, &r) => {}
                        Some(r) => a.wrong(&format!("{:.200?}", q), &r),
                        None => break 'all,
                    }
                }
            }
            V::File(name, sizes) => {
                let path = dir.join(format!("f{}", name)).to_string_lossy().into_owned();
                let open = Request::OpenFile(request::OpenFileArgs {
                    path: path.clone(),
                    create_if_missing: true,
                    write_access: true,
                    read_access: true,
                });
                let (id, mut sig) = match a.ask(open).await {
                    Some(Reply::FileOpened(x)) => (x.id, x.sig),
                    Some(r) => {
                        a.wrong("opening its file", &r);
                        break 'all;
                    }
                    None => break 'all,
                };
                names.insert(path.clone());
                for (j, n) in sizes.iter().enumerate() {
                    let data = filler((v as u64) << 32 | (k as u64) << 8 | j as u64, *n);
                    let wr = Request::WriteFile(request::WriteFileArgs {
                        id,
                        sig,
                        contents: data.clone(),
                    });
                    match a.ask(wr).await {
                        Some(Reply::FileWritten(x)) if x.id == id => sig = x.sig,
                        Some(r) => {
                            a.wrong("writing its file", &r);
                            break 'all;
                        }
                        None => break 'all,
                    }
                    match a.ask(Request::ReadFile(request::ReadFileArgs { id, sig })).await {
                        Some(Reply::FileContents(x)) if x.contents == data => {}
                        Some(r) => {
                            a.wrong("reading back its file", &r);
                            break 'all;
                        }
                        None => break 'all,
                    }
                }
                let list = Request::ListDirContents(request::ListDirContentsArgs {
                    path: dir.to_string_lossy().into_owned(),
                });
                match a.ask(list).await {
                    Some(Reply::DirContentsList(x)) => {
                        let got: std::collections::BTreeSet<String> = x.entries.iter().map(|e| e.path.clone()).collect();
                        let same = got.len() == names.len()
                            && got.iter().all(|g| names.iter().any(|n| n == g || n.ends_with(&format!("/{}", g))));
                        if !same {
                            a.wrong(&format!("listing its directory with {:?}", names), &Reply::DirContentsList(x));
                        }
                    }
                    Some(r) => a.wrong("listing its directory", &r),
                    None => break 'all,
                }
                if k % 2 == 0 {
                    match a.ask(Request::CloseFile(request::CloseFileArgs { id, sig })).await {
                        Some(Reply::FileClosed(_)) => {}
                        Some(r) => a.wrong("closing its file", &r),
                        None => break 'all,
                    }
                }
            }
            V::Proc(sizes) => {
                let exec = Request::ExecProc(request::ExecProcArgs {
                    command: "sim".into(),
                    args: vec!["cat".into()],
                    stdin: true,
                    stdout: true,
                    stderr: true,
                    current_dir: None,
                });
                let id = match a.ask(exec).await {
                    Some(Reply::ProcStarted(x)) => x.id,
                    Some(r) => {
                        a.wrong("starting its process", &r);
                        break 'all;
                    }
                    None => break 'all,
                };
                for (j, n) in sizes.iter().enumerate() {
                    let data = filler((v as u64) << 32 | (k as u64) << 8 | j as u64, *n);
                    match a
                        .ask(Request::WriteProcStdin(request::WriteProcStdinArgs {
                            id,
                            input: data.clone(),
                        }))
                        .await
                    {
                        Some(Reply::ProcStdinWritten(_)) => {}
                        Some(r) => {
                            a.wrong("writing to its process", &r);
                            break 'all;
                        }
                        None => break 'all,
                    }
                    let mut out = vec![];
                    let t = simcore::now();
                    while out.len() < data.len() {
                        match a.ask(Request::ReadProcStdout(request::ReadProcStdoutArgs { id })).await {
                            Some(Reply::ProcStdoutContents(x)) => out.extend(x.output),
                            Some(r) => {
                                a.wrong("reading from its process", &r);
                                break 'all;
                            }
                            None => break 'all,
                        }
                        if simcore::now() > t + par.limit * MS {
                            a.w.lock().unwrap().late.push(format!("client {}: its process does not echo", v));
                            break 'all;
                        }
                        sleep_ms(5).await;
                    }
                    if out != data {
                        a.wrong("the echo of its process", &Reply::Ignore);
                    }
                }
                match a.ask(Request::KillProc(request::KillProcArgs { id })).await {
                    Some(Reply::ProcKilled(_)) => {}
                    Some(r) => a.wrong("killing its process", &r),
                    None => break 'all,
                }
            }
        }
    }
    let sent = std::mem::take(&mut a.sent);
    drop(a);
    // anything else?
    sleep_ms(200).await;
    let got: Vec<Option<u32>> = peer
        .got
        .lock()
        .unwrap()
        .iter()
        .map(|(_, m)| m.parent_header.as_ref().map(|h| h.id))
        .collect();
    let mut w = w.lock().unwrap();
    if w.late.is_empty() {
        let mut a: Vec<u32> = sent.clone();
        let mut b: Vec<u32> = got.iter().flatten().cloned().collect();
        if par.net.tcp && a != b && got.len() == sent.len() {
            w.bad.push(("reply-order".into(), format!("client {}: replies {:?} to {:?}", v, b, a)));
        }
        a.sort_unstable();
        b.sort_unstable();
        if a != b || got.len() != sent.len() {
            w.bad.push(("reply-count".into(), format!("client {}: {} replies to {} requests", v, got.len(), sent.len())));
        }
    }
    None
}

async fn antagonist(n: u32, par: Params, mine: Vec<A>, w: Shared) {
    let net = par.net.clone();
    let dir = scratch().join(format!("a{}", n));
    let mut cl: Option<ConnectedClient> = None;
    let mut peers = vec![];
    let mut conns = vec![];
    let (mut files, mut procs): (Vec<(u32, u32)>, Vec<u32>) = (vec![], vec![]);
    loop {
        let at = {
            let mut w = w.lock().unwrap();
            let i = &mut w.next[n as usize];
            *i += 1;
            *i - 1
        };
        if at >= mine.len() || w.lock().unwrap().stop {
            break;
        }
        match &mine[at] {
            A::Sleep(n) => sleep_ms(*n).await,
            A::Flood(k, q, keep) => {
                if let Ok(Ok(mut p)) = tokio::time::timeout(Duration::from_millis(500), Peer::new(&net)).await {
                    for i in 0..*k {
                        let m = match i % 3 {
                            0 => Msg::from(Request::Heartbeat),
                            _ => Msg::from(q.request()),
                        };
                        let _ = tokio::time::timeout(Duration::from_millis(1000), p.send(&m)).await;
                    }
                    if *keep {
                        peers.push(p);
                    }
                }
            }
            A::Mute(k, q, how, ms) => {
                let b: Vec<Vec<u8>> = (0..*k).flat_map(|_| packets(&net, &Msg::from(q.request()))).collect();
                if net.tcp {
                    if let Ok(mut s) = TcpStream::connect(net.addr()).await {
                        let b = b.concat();
                        let _ = tokio::time::timeout(Duration::from_millis(500), s.write_all(&b)).await;
                        let id = s.local_addr().ok().and_then(simcore::net::tcp_conn_by_addr);
                        sleep_ms(*ms).await;
                        match (how, id) {
                            (1, Some(id)) => simcore::net::tcp_reset(id),
                            (2, _) => conns.push(s),
                            _ => {}
                        }
                    }
                } else {
                    let a: std::net::SocketAddr = if net.v6 { "[::]:0" } else { "0.0.0.0:0" }.parse().unwrap();
                    if let Ok(mut s) = UdpSocket::bind(a).await {
                        for d in b {
                            let _ = s.send_to(&d, net.addr()).await;
                        }
                        if *how == 2 {
                            // never read
                            std::mem::forget(spawn_on(20 + n, async move {
                                sleep_ms(100_000).await;
                                drop(s);
                            }));
                        } else {
                            sleep_ms(*ms).await;
                        }
                    }
                }
            }
            A::Half(bytes, how, ms) => {
                let q = Probe {
                    id: 9,
                    delay: 0,
                    reply: 10,
                    fill: 5000,
                    fail: false,
                };
                let b = packets(&net, &Msg::from(q.request()));
                if net.tcp {
                    if let Ok(mut s) = TcpStream::connect(net.addr()).await {
                        let mut b = b.concat();
                        b.truncate(*bytes);
                        let _ = tokio::time::timeout(Duration::from_millis(500), s.write_all(&b)).await;
                        let id = s.local_addr().ok().and_then(simcore::net::tcp_conn_by_addr);
                        sleep_ms(*ms).await;
                        match (how, id) {
                            (1, Some(id)) => simcore::net::tcp_reset(id),
                            (2, _) => conns.push(s),
                            _ => {}
                        }
                    }
                } else {
                    let from = std::net::SocketAddr::new(
                        if net.v6 { simcore::net::node_ip6(20 + n) } else { simcore::net::node_ip(20 + n) },
                        999,
                    );
                    let k = bytes % b.len();
                    for d in b.into_iter().take(k) {
                        simcore::net::udp_inject(from, net.addr(), d, 1000);
                    }
                }
            }
            A::Garbage(shape, size, seed) => {
                let b = super::c07::nonsense(*shape, *size, *seed, &net.sec);
                if net.tcp {
                    if let Ok(mut s) = TcpStream::connect(net.addr()).await {
                        let _ = tokio::time::timeout(Duration::from_millis(500), s.write_all(&b)).await;
                        conns.push(s);
                    }
                } else {
                    let from = std::net::SocketAddr::new(
                        if net.v6 { simcore::net::node_ip6(20 + n) } else { simcore::net::node_ip(20 + n) },
                        999,
                    );
                    simcore::net::udp_inject(from, net.addr(), b, 1000);
                }
            }
            A::Connects(k, ms) => {
                if net.tcp {
                    let mut v = vec![];
                    for _ in 0..*k {
                        v.push(TcpStream::connect(net.addr()).await);
                    }
                    sleep_ms(*ms).await;
                }
            }
            A::Work(x, give_up) => {
                if cl.is_none() {
                    cl = tokio::time::timeout(Duration::from_millis(500), connect(&net, 300))
                        .await
                        .ok()
                        .and_then(|r| r.ok());
                }
                let c = match cl.as_mut() {
                    Some(c) => c,
                    None => continue,
                };
                let f = files.last().cloned().unwrap_or((1, 1));
                let p = procs.last().cloned().unwrap_or(1);
                let path = |k: &u32| dir.join(format!("f{}", k)).to_string_lossy().into_owned();
                let boom = Probe {
                    id: 7,
                    delay: PANIC,
                    reply: 0,
                    fill: 0,
                    fail: false,
                }
                .request();
                let r = match x {
                    W::Open(k) => Request::OpenFile(request::OpenFileArgs {
                        path: path(k),
                        create_if_missing: true,
                        write_access: true,
                        read_access: true,
                    }),
                    W::Write(n) => Request::WriteFile(request::WriteFileArgs {
                        id: f.0,
                        sig: f.1,
                        contents: filler(3, *n),
                    }),
                    W::Read => Request::ReadFile(request::ReadFileArgs { id: f.0, sig: f.1 }),
                    W::Rename(k) => Request::RenameFile(request::RenameFileArgs {
                        id: f.0,
                        sig: f.1,
                        to: path(k),
                    }),
                    W::Remove(k) => Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: path(k) }),
                    W::List => Request::ListDirContents(request::ListDirContentsArgs {
                        path: dir.to_string_lossy().into_owned(),
                    }),
                    W::Dir(k, true) => Request::CreateDir(request::CreateDirArgs {
                        path: dir.join(format!("d{}", k)).to_string_lossy().into_owned(),
                        include_components: false,
                    }),
                    W::Dir(k, false) => Request::RemoveDir(request::RemoveDirArgs {
                        path: dir.join(format!("d{}", k)).to_string_lossy().into_owned(),
                        non_empty: true,
                    }),
                    W::Exec(s) => Request::ExecProc(request::ExecProcArgs {
                        command: "sim".into(),
                        args: s.split(' ').map(|s| s.to_string()).collect(),
                        stdin: true,
                        stdout: true,
                        stderr: true,
                        current_dir: None,
                    }),
                    W::Stdin(n) => Request::WriteProcStdin(request::WriteProcStdinArgs {
                        id: p,
                        input: filler(4, *n),
                    }),
                    W::Out => Request::ReadProcStdout(request::ReadProcStdoutArgs { id: p }),
                    W::Status => Request::ReadProcStatus(request::ReadProcStatusArgs { id: p }),
                    W::Kill => Request::KillProc(request::KillProcArgs { id: p }),
                    // the text of the debug reply is not repeatable and is never sent
                    W::Debug => Request::Sequence(
                        vec![
                            Request::InternalDebug(request::InternalDebugArgs { input: vec![] }).into_lazily_transformed(vec![]),
                            boom.into_lazily_transformed(vec![]),
                        ]
                        .into(),
                    ),
                    W::Panic(batch) => {
                        if *batch {
                            Request::Batch(vec![Request::Version, boom].into())
                        } else {
                            boom
                        }
                    }
                    W::Probes(ps, batch) => expect(&if *batch { Q::Batch(ps.clone()) } else { Q::Seq(ps.clone()) }),
                    W::Deep(n) => expect(&Q::Deep(*n)),
                    W::Forward => Request::Forward(request::ForwardArgs {
                        address: "10.0.0.9:1".parse().unwrap(),
                        request: Box::new(Request::Heartbeat),
                    }),
                };
                let d = Duration::from_micros(if *give_up == 0 { 5_000_000 } else { *give_up });
                match tokio::time::timeout(d, c.ask(r)).await {
                    Ok(Ok(Reply::FileOpened(x))) => files.push((x.id, x.sig)),
                    Ok(Ok(Reply::FileWritten(x))) => files.push((x.id, x.sig)),
                    Ok(Ok(Reply::ProcStarted(x))) => procs.push(x.id),
                    Ok(Err(over_there::core::AskError::Failure { .. })) | Ok(Ok(_)) | Err(_) => {}
                    Ok(Err(_)) => cl = None,
                }
            }
        }
    }
    // stays, with all it holds
    sleep_ms(10_000_000).await;
    drop((cl, peers, conns));
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let variant = plan.scenario.clone();
    let log: ExecLog = Default::default();
    let w: Shared = Arc::new(Mutex::new(World {
        next: vec![0; par.antas as usize],
        ..Default::default()
    }));
    let (w2, rep2) = (w.clone(), rep.clone());
    for v in 0..par.victims {
        std::fs::create_dir_all(scratch().join(format!("v{}", v))).expect("harness: folder");
    }
    for a in 0..par.antas {
        std::fs::create_dir_all(scratch().join(format!("a{}", a))).expect("harness: folder");
    }
    in_runtime(rep, async move {
        simcore::stop_faults();
        let server = match serve(&par.net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let start = |a: u32| {
            let mine: Vec<A> = ops
                .iter()
                .filter_map(|o| match o {
                    Op::A(k, d) if *k == a => Some(d.clone()),
                    _ => None,
                })
                .collect();
            spawn_on(20 + a, antagonist(a, par.clone(), mine, w2.clone()));
        };
        for v in 0..par.victims {
            let mine: Vec<V> = ops
                .iter()
                .filter_map(|o| match o {
                    Op::V(k, d) if *k == v => Some(d.clone()),
                    _ => None,
                })
                .collect();
            spawn_on(10 + v, victim(v, par.clone(), mine, w2.clone()));
        }
        // an error of accepting may cost them the connection
        while w2.lock().unwrap().ready < par.victims && w2.lock().unwrap().late.is_empty() {
            sleep_ms(1).await;
        }
        simcore::resume_faults();
        for a in 0..par.antas {
            start(a);
        }
        if variant != "mixed" {
            // let it take hold
            sleep_ms(20).await;
        }
        w2.lock().unwrap().go = true;
        enum Act {
            Ev(Ev),
            Start(u32),
            Heal(u32),
        }
        let mut line: Vec<(u64, usize, Act)> = vec![];
        for o in &ops {
            if let Op::Ctl(at, e) = o {
                let n = line.len();
                line.push((*at, n, Act::Ev(e.clone())));
            }
        }
        let t0 = simcore::now();
        while !line.is_empty() {
            line.sort_by_key(|x| (std::cmp::Reverse(x.0), std::cmp::Reverse(x.1)));
            let (at, seq, act) = line.pop().unwrap();
            let due = t0 + at * MS;
            if due > simcore::now() {
                tokio::time::delay_for(Duration::from_nanos(due - simcore::now())).await;
            }
            let n = seq + 1000;
            match act {
                Act::Ev(Ev::Crash(a, down)) => {
                    simcore::log(|| format!("antagonist {} crashes", a));
                    simcore::crash(20 + a);
                    line.push((at + down, n, Act::Start(a)));
                }
                Act::Start(a) => start(a),
                Act::Ev(Ev::Cut(a, len)) => {
                    simcore::net::cut(20 + a, SERVER);
                    simcore::net::cut(SERVER, 20 + a);
                    line.push((at + len, n, Act::Heal(a)));
                }
                Act::Heal(a) => {
                    simcore::net::heal(20 + a, SERVER);
                    simcore::net::heal(SERVER, 20 + a);
                }
                Act::Ev(Ev::Reset(a)) => {
                    for i in simcore::net::tcp_alive_from(20 + a) {
                        simcore::net::tcp_reset(i);
                    }
                }
            }
        }
        let steps = ops.iter().filter(|o| matches!(o, Op::V(..))).count() as u64;
        let end = simcore::now() + (steps * 10 + 10) * par.limit * MS;
        while w2.lock().unwrap().done < par.victims {
            if simcore::now() > end {
                w2.lock().unwrap().late.push("a client does not finish".into());
                break;
            }
            sleep_ms(10).await;
        }
        simcore::stop_faults();
        // somebody new
        let fresh = {
            let par = par.clone();
            let done: Arc<Mutex<Option<Result<(), String>>>> = Default::default();
            let d2 = done.clone();
            spawn_on(50, async move {
                let r = match tokio::time::timeout(Duration::from_millis(par.limit), connect(&par.net, par.limit)).await {
                    Ok(Ok(mut x)) => {
                        let p = Probe {
                            id: 900_000,
                            delay: 0,
                            reply: 30,
                            fill: 30,
                            fail: false,
                        };
                        match x.ask(p.request()).await {
                            Ok(r) if p.fits(&r) => Ok(()),
                            Ok(r) => Err(format!("wrong reply {:.100?}", r)),
                            Err(e) => Err(ask_err(&e).to_string()),
                        }
                    }
                    Ok(Err(e)) => Err(format!("connect: {}", e)),
                    Err(_) => Err("connect takes too long".into()),
                };
                *d2.lock().unwrap() = Some(r);
            });
            for _ in 0..par.limit / 5 {
                if done.lock().unwrap().is_some() {
                    break;
                }
                sleep_ms(10).await;
            }
            let r = done.lock().unwrap().take();
            r.unwrap_or_else(|| Err("stuck".into()))
        };
        w2.lock().unwrap().stop = true;
        let mut rep = rep2.borrow_mut();
        let late = match variant.as_str() {
            "unread" => "unread-replies-block-server",
            "slow" => "slow-request-blocks-others",
            _ => "unanswered",
        };
        let g = w2.lock().unwrap();
        rep.check(g.late.is_empty(), late, || g.late.join("; "));
        rep.check(fresh.is_ok(), late, || format!("a new client: {:?}", fresh));
        for (s, d) in &g.bad {
            rep.fail(s.clone(), d.clone());
        }
        rep.checked += g.answered;
        rep.probe("requests answered next to antagonists", g.answered);
        rep.probe("operations of antagonists", g.next.iter().map(|n| *n as u64).sum());
        rep.mix_state(g.answered);
        for (node, m) in simcore::with(|s| s.task_panics.clone()) {
            if m.contains(INTENDED) {
                continue;
            }
            rep.check(node != SERVER, "task-panicked", || format!("a task of the server ended: {}", m));
        }
        drop(rep);
        drop(g);
        drop(server);
    });
}
