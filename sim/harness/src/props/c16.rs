//! C16: what is retained does not grow with the traffic
use super::*;
use crate::alloc;
use crate::exec::{in_runtime, scratch, INTENDED};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, ConnectedClient, Msg, Reply, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;

pub static PROP: Prop = Prop {
    id: "C16",
    gen,
    run,
    quick_runs: 1000,
    batch: 4,
    rule: "a server and 1-3 clients go through 4 equal segments of traffic (rounds of answered, failing, timed out and cancelled requests of all sizes, lone fragments, nonsense, reconnecting, crashing and vanishing peers, files and processes that are closed, removed, killed, exit or are abandoned) over a network that loses, repeats and delays. After each segment all faults stop, every configured lifetime passes, and the live heap (bytes and blocks, without the simulator's own), the open sockets, tasks, file descriptors and processes are measured: counts of resources must be what they were after the first segment, and the heap must not have grown by more than the allowance from every segment to the next; in some runs a segment is 300 rounds of one small operation instead. In the end all clients are dropped, and nothing of them may be left.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: true,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    timeout: u64,
    rounds: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum End {
    Close,
    Remove,
    Abandon,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum R {
    Ask(Probe),
    /// given up after so long (us)
    Cancel(Probe, u64),
    Tell(u32, Probe),
    File(u32, usize, End),
    /// script, kill it
    Proc(String, usize, bool),
    Dir(u32),
    Bad(u32),
    Batch(Vec<Probe>, bool),
    /// a further client, so many requests, then dropped
    Extra(u32, Probe),
    /// all connections of the client are reset
    Reset,
    /// the client's process dies
    Crash,
    /// so many unfinished messages of a stranger; how its connection ends
    Frag(u32, usize, u8),
    Garbage(u8, usize, u64),
    Connects(u32, u8),
    Sleep(u64),
}
/// client, what
type Op = (u32, R);

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C16", if tcp { "tcp" } else { "udp" }, rng);
    let clients = rng.range(1, 3) as u32;
    let mut sec = Sec::any(rng);
    if rng.below(2) == 0 {
        sec.auth = 0;
        sec.crypt = 0;
    }
    if sec.crypt > 0 && rng.below(2) == 0 {
        sec.cache = *rng.pick(&[1, 4]);
    }
    let net = Net {
        tcp,
        v6: rng.below(6) == 0,
        sec,
        packet_ttl: *rng.pick(&[20, 200, 2000]),
        buffer: *rng.pick(&[2, 8, 1000]),
        client_buffer: *rng.pick(&[2, 8, 1000]),
        cleanup: 1000,
        file_ttl: *rng.pick(&[30, 300, 3000]),
        proc_ttl: *rng.pick(&[30, 300, 3000]),
        dead_ttl: *rng.pick(&[10, 1000]),
    };
    // few kinds at a time, so that a leak of one shows
    let kinds: Vec<u64> = (0..rng.range(1, 5)).map(|_| rng.below(20)).collect();
    let n = rng.range(2, if thorough { 12 } else { 8 });
    let ops: Vec<Op> = (0..n)
        .map(|i| {
            let q = Probe {
                id: (i + 1) * 1000,
                delay: *rng.pick(&[0, 0, 0, 3]),
                reply: *rng.pick(&[0, 10, 700, 5000]),
                fill: *rng.pick(&[0, 10, 700, 5000]),
                fail: rng.below(6) == 0,
            };
            let r = match rng.pick(&kinds) {
                0..=1 => R::Ask(q),
                // later than the timeout
                2 => R::Ask(Probe { delay: 90, ..q }),
                3 => R::Cancel(q, *rng.pick(&[0, 50, 400, 2000])),
                4 => R::Tell(rng.range(1, 6) as u32, q),
                5..=6 => R::File(
                    rng.below(2) as u32,
                    *rng.pick(&[0, 100, 5000]),
                    match rng.below(3) {
                        0 => End::Close,
                        1 => End::Remove,
                        _ => End::Abandon,
                    },
                ),
                7..=8 => R::Proc(
                    rng.pick(&["hang", "cat", "out:hello exit:3", "fill:3000:5 hang", "efill:3000:5", "sleep:20 signal:9", "eof exit:0"])
                        .to_string(),
                    rng.below(500) as usize,
                    rng.below(2) == 0,
                ),
                9 => R::Dir(rng.below(2) as u32),
                10 => R::Bad(rng.below(6) as u32),
                11 => R::Batch((0..3).map(|k| Probe { id: q.id + k, ..q.clone() }).collect(), rng.below(2) == 0),
                12..=13 => R::Extra(rng.below(4) as u32, q),
                14 => R::Reset,
                15 => R::Crash,
                16..=17 => R::Frag(rng.range(1, 5) as u32, rng.range(1, 6000) as usize, rng.below(3) as u8),
                18 => R::Garbage(rng.below(7) as u8, rng.below(2000) as usize, rng.next()),
                19 => R::Connects(rng.range(1, 5) as u32, rng.below(2) as u8),
                _ => R::Sleep(*rng.pick(&[1, 30, 300])),
            };
            (rng.below(clients as u64) as u32, r)
        })
        .collect();
    // or very many rounds of something small
    let busy = rng.below(6) == 0;
    let ops = if busy {
        p.scenario = format!("{}-busy", p.scenario);
        let q = Probe {
            id: 1000,
            delay: *rng.pick(&[0, 0, 90]),
            reply: 3,
            fill: 0,
            fail: rng.below(3) == 0,
        };
        let other = if rng.below(2) == 0 { R::Dir(0) } else { R::Bad(rng.range(1, 5) as u32) };
        let r = match rng.below(9) {
            0..=1 => R::Ask(q),
            2 => R::Cancel(q, 400),
            3 => R::Tell(1, q),
            4 => R::Frag(1, 100, 1),
            5 => R::Garbage(0, 200, 1),
            6 => R::File(0, 10, End::Close),
            7 => R::Extra(1, q),
            _ => other,
        };
        vec![(0, r)]
    } else {
        ops
    };
    let par = Params {
        net,
        clients: if busy { 1 } else { clients },
        timeout: 60,
        rounds: match (busy, thorough) {
            (true, _) => 300,
            (_, true) => 16,
            _ => 8,
        },
    };
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 300, 1000]);
    p.net.jitter_us = *rng.pick(&[10, 100, 400]);
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    p.swarm(rng, K::UdpDrop, 60, 20_000, 300_000);
    p.swarm(rng, K::UdpDup, 40, 20_000, 300_000);
    p.swarm(rng, K::UdpDelay, 40, 50_000, 500_000);
    p.swarm(rng, K::UdpSendErr, 30, 10_000, 200_000);
    p.swarm(rng, K::UdpRecvErr, 30, 10_000, 200_000);
    p.swarm(rng, K::UdpIcmp, 50, 100_000, 1_000_000);
    p.swarm(rng, K::TcpDelay, 40, 50_000, 500_000);
    p.swarm(rng, K::TcpSplit, 40, 50_000, 500_000);
    p.swarm(rng, K::TcpShortRead, 20, 50_000, 500_000);
    p.swarm(rng, K::TcpShortWrite, 20, 50_000, 500_000);
    p.swarm(rng, K::TcpAcceptErr, 30, 20_000, 300_000);
    p.swarm(rng, K::TcpReset, 30, 500, 20_000);
    p.swarm(rng, K::FsErr, 30, 20_000, 200_000);
    p.swarm(rng, K::ProcSpawnErr, 20, 50_000, 300_000);
    p.swarm(rng, K::ProcDelay, 30, 50_000, 900_000);
    p.max_steps = 8_000_000;
    p
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Res {
    /// server: tasks, connection ends, UDP sockets; clients: the same
    server: (usize, usize, usize),
    clients: Vec<(usize, usize, usize)>,
    files: usize,
    procs: usize,
}
#[derive(Clone, Debug)]
struct Meas {
    bytes: i64,
    blocks: i64,
    res: Res,
}

fn node(n: u32) -> (usize, usize, usize) {
    (simcore::live_tasks(n), simcore::net::tcp_open_ends(n), simcore::net::udp_open(n))
}
fn open_files() -> usize {
    let dir = scratch();
    std::fs::read_dir("/proc/self/fd")
        .map(|d| {
            d.flatten()
                .filter(|e| std::fs::read_link(e.path()).map_or(false, |p| p.starts_with(&dir)))
                .count()
        })
        .unwrap_or(0)
}
fn measure(par: &Params) -> Meas {
    let (bytes, blocks) = (alloc::live(), alloc::blocks());
    let _own = simcore::Own::new();
    Meas {
        bytes,
        blocks,
        res: Res {
            server: node(SERVER),
            clients: (0..par.clients).map(|c| node(10 + c)).chain([node(60), node(40)]).collect(),
            files: open_files(),
            procs: tokio::sim::proc_truth().iter().filter(|t| t.ended.is_none()).count(),
        },
    }
}

type Seat = Arc<tokio::sync::Mutex<Option<ConnectedClient>>>;

async fn ready(par: &Params, seat: &Seat, c: u32) -> bool {
    let mut g = seat.lock().await;
    let alive = !par.net.tcp || simcore::with(|s| s.fault_free) || !simcore::net::tcp_alive_from(10 + c).is_empty();
    if g.is_some() && !alive {
        *g = None;
    }
    if g.is_none() {
        *g = tokio::time::timeout(Duration::from_millis(500), connect(&par.net, par.timeout))
            .await
            .ok()
            .and_then(|r| r.ok());
    }
    g.is_some()
}

async fn act(par: &Params, seat: &Seat, c: u32, r: &R) {
    let dir = scratch().join(format!("c{}", c));
    if !ready(par, seat, c).await {
        return;
    }
    let mut g = seat.lock().await;
    let x = match g.as_mut() {
        Some(x) => x,
        None => return,
    };
    let t = Duration::from_millis(par.timeout + 1000);
    match r {
        R::Ask(q) => {
            let _ = tokio::time::timeout(t, x.ask(q.request())).await;
        }
        R::Cancel(q, us) => {
            let _ = tokio::time::timeout(Duration::from_micros(*us), x.ask(q.request())).await;
        }
        R::Tell(n, q) => {
            for _ in 0..*n {
                let _ = tokio::time::timeout(t, x.tell(q.request())).await;
            }
        }
        R::Batch(qs, seq) => {
            let r = if *seq {
                Request::Sequence(
                    qs.iter()
                        .map(|q| q.request().into_lazily_transformed(vec![]))
                        .collect::<Vec<_>>()
                        .into(),
                )
            } else {
                Request::Batch(qs.iter().map(|q| q.request()).collect::<Vec<_>>().into())
            };
            let _ = tokio::time::timeout(t, x.ask(r)).await;
        }
        R::File(k, n, end) => {
            let open = x
                .ask(Request::OpenFile(request::OpenFileArgs {
                    path: dir.join(format!("f{}", k)).to_string_lossy().into_owned(),
                    create_if_missing: true,
                    write_access: true,
                    read_access: true,
                }))
                .await;
            if let Ok(Reply::FileOpened(f)) = open {
                let w = x
                    .ask(Request::WriteFile(request::WriteFileArgs {
                        id: f.id,
                        sig: f.sig,
                        contents: filler(1, *n),
                    }))
                    .await;
                let sig = match w {
                    Ok(Reply::FileWritten(w)) => w.sig,
                    _ => f.sig,
                };
                let id = f.id;
                let _ = x.ask(Request::ReadFile(request::ReadFileArgs { id, sig })).await;
                match end {
                    End::Close => drop(x.ask(Request::CloseFile(request::CloseFileArgs { id, sig })).await),
                    End::Remove => drop(x.ask(Request::RemoveFile(request::RemoveFileArgs { id, sig })).await),
                    End::Abandon => {}
                }
            }
        }
        R::Proc(s, n, kill) => {
            let e = x
                .ask(Request::ExecProc(request::ExecProcArgs {
                    command: "sim".into(),
                    args: s.split(' ').map(|s| s.to_string()).collect(),
                    stdin: true,
                    stdout: true,
                    stderr: true,
                    current_dir: None,
                }))
                .await;
            if let Ok(Reply::ProcStarted(q)) = e {
                let id = q.id;
                let _ = x
                    .ask(Request::WriteProcStdin(request::WriteProcStdinArgs {
                        id,
                        input: filler(2, *n),
                    }))
                    .await;
                for _ in 0..3 {
                    let _ = x.ask(Request::ReadProcStdout(request::ReadProcStdoutArgs { id })).await;
                    let _ = x.ask(Request::ReadProcStderr(request::ReadProcStderrArgs { id })).await;
                    let _ = x.ask(Request::ReadProcStatus(request::ReadProcStatusArgs { id })).await;
                }
                if *kill {
                    let _ = x.ask(Request::KillProc(request::KillProcArgs { id })).await;
                }
            }
        }
        R::Dir(k) => {
            let path = dir.join(format!("d{}", k)).to_string_lossy().into_owned();
            let _ = x
                .ask(Request::CreateDir(request::CreateDirArgs {
                    path: path.clone(),
                    include_components: false,
                }))
                .await;
            let _ = x.ask(Request::ListDirContents(request::ListDirContentsArgs { path: path.clone() })).await;
            let _ = x
                .ask(Request::RemoveDir(request::RemoveDirArgs { path, non_empty: true }))
                .await;
        }
        R::Bad(k) => {
            let boom = Probe {
                id: 7,
                delay: PANIC,
                reply: 0,
                fill: 0,
                fail: false,
            }
            .request();
            let r = match k {
                0 => boom,
                1 => Request::Batch(vec![Request::Version, boom].into()),
                2 => Request::ReadFile(request::ReadFileArgs { id: 3, sig: 3 }),
                3 => Request::KillProc(request::KillProcArgs { id: 3 }),
                4 => Request::Forward(request::ForwardArgs {
                    address: "10.0.0.9:1".parse().unwrap(),
                    request: Box::new(Request::Heartbeat),
                }),
                _ => (0..9).fold(Request::Heartbeat, |r, _| Request::Batch(vec![r].into())),
            };
            let _ = tokio::time::timeout(t, x.ask(r)).await;
        }
        R::Extra(n, q) => {
            if let Ok(Ok(mut y)) = tokio::time::timeout(Duration::from_millis(500), connect(&par.net, par.timeout)).await {
                for _ in 0..*n {
                    let _ = tokio::time::timeout(t, y.ask(q.request())).await;
                }
            }
        }
        R::Reset => {
            for i in simcore::net::tcp_alive_from(10 + c) {
                simcore::net::tcp_reset(i);
            }
        }
        R::Sleep(n) => {
            drop(g);
            sleep_ms(*n).await;
        }
        _ => {}
    }
}

async fn stranger(par: &Params, r: &R) {
    let net = &par.net;
    let q = Probe {
        id: 9,
        delay: 0,
        reply: 10,
        fill: 4000,
        fail: false,
    };
    let from = std::net::SocketAddr::new(
        if net.v6 { simcore::net::node_ip6(60) } else { simcore::net::node_ip(60) },
        999,
    );
    match r {
        R::Frag(n, bytes, how) => {
            for _ in 0..*n {
                let b = packets(net, &Msg::from(q.request()));
                if net.tcp {
                    if let Ok(mut s) = TcpStream::connect(net.addr()).await {
                        let mut b = b.concat();
                        b.truncate(*bytes);
                        let _ = tokio::time::timeout(Duration::from_millis(500), s.write_all(&b)).await;
                        if *how == 0 {
                            if let Some(id) = s.local_addr().ok().and_then(simcore::net::tcp_conn_by_addr) {
                                simcore::net::tcp_reset(id);
                            }
                        }
                    }
                } else {
                    let k = 1 + bytes % (b.len() - 1);
                    // to the server, or to a client from the server's address
                    for d in b.into_iter().take(k) {
                        simcore::net::udp_inject(from, net.addr(), d, 1000);
                    }
                }
            }
        }
        R::Garbage(shape, size, seed) => {
            let b = super::c07::nonsense(*shape, *size, *seed, &net.sec);
            if net.tcp {
                if let Ok(mut s) = TcpStream::connect(net.addr()).await {
                    let _ = tokio::time::timeout(Duration::from_millis(500), s.write_all(&b)).await;
                }
            } else {
                simcore::net::udp_inject(from, net.addr(), b, 1000);
            }
        }
        R::Connects(n, how) => {
            if net.tcp {
                for _ in 0..*n {
                    let s = TcpStream::connect(net.addr()).await;
                    if *how == 0 {
                        sleep_ms(1).await;
                    }
                    drop(s);
                }
            }
        }
        _ => {}
    }
}

/// Everything in `f` on a node, even if the node crashes meanwhile
async fn on<F>(n: u32, limit: u64, f: F) -> bool
where
    F: std::future::Future<Output = ()> + Send + 'static,
{
    let done = Arc::new(Mutex::new(false));
    let d2 = done.clone();
    spawn_on(n, async move {
        f.await;
        *d2.lock().unwrap() = true;
    });
    for _ in 0..limit {
        if *done.lock().unwrap() {
            return true;
        }
        sleep_ms(1).await;
    }
    false
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let rep2 = rep.clone();
    for c in 0..par.clients {
        std::fs::create_dir_all(scratch().join(format!("c{}", c))).expect("harness: folder");
    }
    in_runtime(rep, async move {
        simcore::stop_faults();
        let log: ExecLog = Default::default();
        let server = match serve(&par.net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let seats: Vec<Seat> = (0..par.clients).map(|_| Default::default()).collect();
        let mut at: Vec<Meas> = vec![];
        let mut asked = 0u64;
        for seg in 0..4 {
            simcore::resume_faults();
            for _ in 0..par.rounds {
                // each client its part, all at once
                let mut parts = vec![];
                for c in 0..par.clients {
                    let mine: Vec<R> = ops.iter().filter(|o| o.0 == c).map(|o| o.1.clone()).collect();
                    let (par, seat) = (par.clone(), seats[c as usize].clone());
                    parts.push(async move {
                        for r in mine {
                            match r {
                                R::Crash => {
                                    simcore::crash(10 + c);
                                    if let Ok(mut g) = seat.try_lock() {
                                        *g = None;
                                    }
                                }
                                R::Frag(..) | R::Garbage(..) | R::Connects(..) => {
                                    let par = par.clone();
                                    on(60, 5000, async move { stranger(&par, &r).await }).await;
                                }
                                r => {
                                    let (par, seat) = (par.clone(), seat.clone());
                                    on(10 + c, 60_000, async move { act(&par, &seat, c, &r).await }).await;
                                }
                            }
                        }
                    });
                }
                futures::future::join_all(parts).await;
                asked += ops.len() as u64;
                log.lock().unwrap().clear();
            }
            simcore::stop_faults();
            // every lifetime passes: clients are forgotten after 5 minutes
            sleep_ms(302_000).await;
            for c in 0..par.clients {
                let (par2, seat) = (par.clone(), seats[c as usize].clone());
                let ok: Arc<Mutex<bool>> = Default::default();
                let ok2 = ok.clone();
                on(10 + c, 5000, async move {
                    for _ in 0..2 {
                        let good = {
                            let mut g = seat.lock().await;
                            match g.as_mut() {
                                Some(x) => x.ask(Request::Heartbeat).await.is_ok(),
                                None => false,
                            }
                        };
                        if good {
                            *ok2.lock().unwrap() = true;
                            return;
                        }
                        *seat.lock().await = None;
                        ready(&par2, &seat, c).await;
                    }
                    let mut g = seat.lock().await;
                    if let Some(x) = g.as_mut() {
                        *ok2.lock().unwrap() = x.ask(Request::Heartbeat).await.is_ok();
                    }
                })
                .await;
                // what is kept of recent messages is kept again
                let seat = seats[c as usize].clone();
                on(10 + c, 5000, async move {
                    for _ in 0..6 {
                        if let Some(x) = seat.lock().await.as_mut() {
                            let _ = x.ask(Request::Heartbeat).await;
                        }
                    }
                })
                .await;
                let ok = *ok.lock().unwrap();
                if !ok {
                    rep2.borrow_mut().fail("no-service", format!("client {} gets no reply after segment {}", c, seg));
                    return;
                }
            }
            sleep_ms(4000).await;
            log.lock().unwrap().clear();
            let m = measure(&par);
            simcore::log(|| format!("segment {}: {:?}", seg, m));
            at.push(m);
        }
        // nobody left
        let conns = par.net.tcp;
        for (c, s) in seats.iter().enumerate() {
            let s = s.clone();
            on(10 + c as u32, 1000, async move {
                *s.lock().await = None;
            })
            .await;
        }
        sleep_ms(305_000).await;
        let last = measure(&par);
        simcore::log(|| format!("in the end: {:?}", last));
        let mut rep = rep2.borrow_mut();
        for i in 1..4 {
            let same = at[i].res == at[0].res;
            rep.check(same, "resources-grow", || {
                format!("after 1 segment {:?}, after {} {:?}", at[0].res, i + 1, at[i].res)
            });
        }
        // channels keep up to 3 spare blocks, tables keep their capacity: what
        // grows with the traffic grows from every segment to the next
        let rounds = par.rounds as i64;
        let step = |f: &dyn Fn(&Meas) -> i64| at.windows(2).map(|w| f(&w[1]) - f(&w[0])).min().unwrap();
        let bytes = step(&|m| m.bytes);
        let blocks = step(&|m| m.blocks);
        rep.check(bytes <= if rounds > 100 { 12_000 } else { 24_000 }, "heap-grows", || {
            let b: Vec<i64> = at.iter().map(|m| m.bytes).collect();
            format!("live bytes after each segment of {} rounds: {:?}", rounds, b)
        });
        rep.check(blocks <= 3.max(rounds / 8), "blocks-grow", || {
            let b: Vec<i64> = at.iter().map(|m| m.blocks).collect();
            format!("live blocks after each segment of {} rounds: {:?}", rounds, b)
        });
        // a table doubles now and then only
        let total = at[3].bytes - at[0].bytes;
        let mut steps: Vec<i64> = at.windows(2).map(|w| w[1].bytes - w[0].bytes).collect();
        steps.sort();
        rep.check(rounds < 100 || total <= 60_000 || steps[1] <= 20_000, "tables-grow", || {
            let b: Vec<i64> = at.iter().map(|m| m.bytes).collect();
            format!("live bytes after each segment of {} rounds: {:?}", rounds, b)
        });
        simcore::log(|| format!("least steps: {} bytes, {} blocks", bytes, blocks));
        for (i, c) in last.res.clients.iter().enumerate() {
            rep.check(*c == (0, 0, 0), "client-left-behind", || {
                format!("a dropped client ({}) leaves (tasks, connections, sockets) {:?}", i, c)
            });
        }
        let base = if conns { (last.res.server.0, 0, 0) } else { (last.res.server.0, 0, 1) };
        rep.check(last.res.server == base && last.res.files == 0 && last.res.procs == 0, "server-left-behind", || {
            format!("without any client the server holds {:?}", last.res)
        });
        rep.probe("operations", asked);
        let same = at.windows(2).any(|w| w[0].bytes == w[1].bytes);
        rep.probe(if same { "heap exactly as before" } else { "heap within allowance" }, 1);
        rep.mix_state(asked);
        for (node, m) in simcore::with(|s| s.task_panics.clone()) {
            if m.contains(INTENDED) {
                continue;
            }
            rep.check(node != SERVER, "task-panicked", || format!("a task of the server ended: {}", m));
        }
        drop(rep);
        drop(server);
    });
}
