//! C18: shutting the server down stops it
use super::*;
use crate::exec::{in_runtime, scratch};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, AskError, ConnectedClient, ListeningServer, Msg, Reply, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::{K, MS};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;

pub static PROP: Prop = Prop {
    id: "C18",
    gen,
    run,
    quick_runs: 5000,
    batch: 20,
    rule: "1-4 clients over UDP or TCP send custom requests, directory creations, file openings, writes and remote processes, alone, in sequences and batches, one at a time or in bursts that fill the server's queue, next to idle, mute and half-finished connections, to a server that is started and shut down 1-3 times at drawn moments (right after listening, when idle, in the middle of requests, with a full queue), with wait called at once, later, again after a second shutdown, or the server only dropped. From the call of shutdown on, handlers and directories of at most the one message under way may still start or appear; wait must return within the declared work of that message plus a constant; within a cleanup period after that the server's node must have no task, socket, open file or process left; a new server must be able to take the same address at once and must serve new requests; every answer must fit its request, what was executed for a client that sends one request at a time must be answered (when the network loses nothing), requests must end within their timeout, and requests sent while there is no server must fail.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    /// what a client does not get round to in time it gives up (ms)
    timeout: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Part {
    Probe(Probe),
    Dir,
    Open,
    Proc(String),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Form {
    One,
    Seq,
    Batch,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    /// client, message, parts, form, only wait for the reply if so
    Msg(u32, u64, Vec<Part>, Form),
    /// several messages without waiting
    Burst(u32, u64, u32, Part),
    Sleep(u32, u64),
    /// connections of a stranger: how many, what they do
    Odd(u64, u32, u8),
    /// shut down after so long; how it is done, how long until the next start
    Life(u64, u8, u64),
}

const GRACE: u64 = 2000;

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mute = tcp && rng.below(8) == 0;
    let mut p = Plan::new("C18", if mute { "mute" } else if tcp { "tcp" } else { "udp" }, rng);
    let clients = rng.range(1, 4) as u32;
    let mut sec = Sec::any(rng);
    if rng.below(2) == 0 {
        sec.auth = 0;
        sec.crypt = 0;
    }
    let net = Net {
        tcp,
        v6: rng.below(6) == 0,
        sec,
        buffer: if mute { *rng.pick(&[1, 2, 8]) } else { *rng.pick(&[1, 2, 8, 1000]) },
        client_buffer: *rng.pick(&[1, 2, 8, 1000]),
        cleanup: *rng.pick(&[5, 50, 300, 1000, 60_000]),
        file_ttl: *rng.pick(&[50, 120_000]),
        proc_ttl: *rng.pick(&[50, 120_000]),
        dead_ttl: *rng.pick(&[10, 30_000]),
        ..Default::default()
    };
    let par = Params {
        net,
        clients,
        timeout: *rng.pick(&[30, 300, 3000]),
    };
    let sizes: &[usize] = if tcp { &[0, 10, 1500, 20_000] } else { &[0, 10, 300, 3000] };
    let part = |rng: &mut Rng, id: u64, long: bool| match rng.below(8) {
        0 | 1 => Part::Dir,
        2 => Part::Open,
        3 => Part::Proc(rng.pick(&["hang", "cat", "out:hi exit:0", "fill:5000:5 hang", "sleep:200 exit:3"]).to_string()),
        _ => Part::Probe(Probe {
            id,
            delay: *rng.pick(if long { &[0, 1, 20, 100, 400] } else { &[0, 0, 1, 5] }),
            reply: *rng.pick(sizes),
            fill: *rng.pick(sizes),
            fail: rng.below(12) == 0,
        }),
    };
    let mut ops = vec![];
    for i in 0..rng.range(3, if thorough { 40 } else { 20 }) {
        let c = rng.below(clients as u64) as u32;
        let m = i + 1;
        ops.push(match rng.below(12) {
            0 => Op::Sleep(c, *rng.pick(&[1, 30, 300])),
            1 | 2 => {
                let n = rng.range(2, 12) as u32;
                Op::Burst(c, m, n, part(rng, 0, false))
            }
            3 | 4 => {
                let form = if rng.below(2) == 0 { Form::Seq } else { Form::Batch };
                let n = rng.range(2, 4);
                let parts = (0..n).map(|k| part(rng, m * 100 + k, true)).collect();
                Op::Msg(c, m, parts, form)
            }
            _ => {
                let q = part(rng, m * 100, true);
                Op::Msg(c, m, vec![q], Form::One)
            }
        });
    }
    if rng.below(3) == 0 {
        for _ in 0..rng.range(1, 3) {
            ops.push(Op::Odd(rng.below(500), rng.range(1, 4) as u32, rng.below(3) as u8));
        }
    }
    for _ in 0..rng.range(1, 3) {
        ops.push(Op::Life(
            *rng.pick(&[0, 1, 10, 40, 150, 500, 1500]),
            rng.below(5) as u8,
            *rng.pick(&[0, 0, 20, 400]),
        ));
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 300, 2000, 20_000]);
    p.net.jitter_us = *rng.pick(&[10, 100, 400]);
    p.net.window = *rng.pick(&[4000, 65536]);
    p.swarm_sched(rng);
    p.swarm(rng, K::UdpDrop, 40, 20_000, 400_000);
    p.swarm(rng, K::UdpDup, 40, 20_000, 300_000);
    p.swarm(rng, K::UdpDelay, 40, 50_000, 700_000);
    p.swarm(rng, K::UdpSendBlock, 30, 20_000, 400_000);
    p.swarm(rng, K::UdpSendErr, 30, 10_000, 200_000);
    p.swarm(rng, K::UdpRecvErr, 30, 10_000, 200_000);
    p.swarm(rng, K::UdpIcmp, 60, 100_000, 1_000_000);
    p.swarm(rng, K::TcpDelay, 40, 50_000, 700_000);
    p.swarm(rng, K::TcpSplit, 40, 50_000, 500_000);
    p.swarm(rng, K::TcpShortRead, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpShortWrite, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpReset, 25, 500, 20_000);
    p.swarm(rng, K::TcpAcceptErr, 20, 20_000, 200_000);
    p.swarm(rng, K::FsErr, 20, 20_000, 200_000);
    p.swarm(rng, K::ProcSpawnErr, 20, 20_000, 200_000);
    p.swarm(rng, K::ProcDelay, 30, 50_000, 900_000);
    p.max_steps = 4_000_000;
    p
}

fn dir_of(m: u64, k: u64) -> std::path::PathBuf {
    scratch().join(format!("d{}-{}", m, k))
}
fn request(m: u64, k: u64, p: &Part) -> Request {
    match p {
        Part::Probe(q) => {
            let mut q = q.clone();
            q.id = m * 100 + k;
            q.request()
        }
        Part::Dir => Request::CreateDir(request::CreateDirArgs {
            path: dir_of(m, k).to_string_lossy().into_owned(),
            include_components: false,
        }),
        Part::Open => Request::OpenFile(request::OpenFileArgs {
            path: scratch().join(format!("f{}-{}", m, k)).to_string_lossy().into_owned(),
            create_if_missing: true,
            write_access: true,
            read_access: true,
        }),
        Part::Proc(s) => Request::ExecProc(request::ExecProcArgs {
            command: "sim".into(),
            args: s.split(' ').map(|s| s.to_string()).collect(),
            stdin: true,
            stdout: true,
            stderr: true,
            current_dir: None,
        }),
    }
}
fn compound(m: u64, parts: &[Part], f: &Form) -> Request {
    let rs: Vec<Request> = parts.iter().enumerate().map(|(k, p)| request(m, k as u64, p)).collect();
    match f {
        Form::One => rs.into_iter().next().expect("harness: a part"),
        Form::Seq => Request::Sequence(
            rs.into_iter()
                .map(|r| r.into_lazily_transformed(vec![]))
                .collect::<Vec<_>>()
                .into(),
        ),
        Form::Batch => Request::Batch(rs.into()),
    }
}
/// Is this an answer to the part?
fn fits(m: u64, k: u64, p: &Part, r: &Reply) -> bool {
    match (p, r) {
        (Part::Probe(q), r) => {
            let mut q = q.clone();
            q.id = m * 100 + k;
            if q.fail {
                matches!(r, Reply::Error(e) if e.to_string().contains(&format!("fail {}", q.id)))
            } else {
                q.fits(r)
            }
        }
        (_, Reply::Error(_)) => true,
        (Part::Dir, Reply::DirCreated(a)) => a.path.ends_with(&format!("d{}-{}", m, k)),
        (Part::Open, Reply::FileOpened(a)) => a.path.ends_with(&format!("f{}-{}", m, k)),
        (Part::Proc(_), Reply::ProcStarted(_)) => true,
        _ => false,
    }
}
/// What a failed part of a sequence does to the later ones
fn fits_all(m: u64, parts: &[Part], f: &Form, r: &Reply) -> bool {
    let list: Vec<Reply> = match (f, r) {
        (Form::One, r) => vec![r.clone()],
        (Form::Seq, Reply::Sequence(a)) => a.results.clone(),
        (Form::Batch, Reply::Batch(a)) => a.results.clone(),
        _ => return false,
    };
    if list.len() != parts.len() {
        return false;
    }
    let mut failed = false;
    for (k, (p, r)) in parts.iter().zip(&list).enumerate() {
        if failed {
            if !matches!(r, Reply::Error(_)) {
                return false;
            }
        } else if !fits(m, k as u64, p, r) {
            return false;
        }
        failed |= *f == Form::Seq && matches!(r, Reply::Error(_));
    }
    true
}

/// One life of the server
#[derive(Clone, Default)]
struct Span {
    up: u64,
    /// when shutdown was called
    down: Option<u64>,
}
#[derive(Default)]
struct World {
    spans: Vec<Span>,
    over: bool,
    done: Vec<bool>,
    bad: Vec<(String, String)>,
    /// message, asked at, ended at, how
    asks: Vec<(u64, u64, u64, &'static str)>,
    /// messages of clients that had something else under way
    piped: BTreeSet<u64>,
}
type Shared = Arc<Mutex<World>>;

async fn client(c: u32, par: Params, mine: Vec<Op>, w: Shared) {
    let mut x: Option<ConnectedClient> = None;
    let mut peer: Option<Peer> = None;
    for op in mine {
        if w.lock().unwrap().over {
            break;
        }
        match op {
            Op::Sleep(_, n) => sleep_ms(n).await,
            Op::Msg(_, m, parts, form) => {
                // a connection of an earlier server is of no use
                let alive = |i: &Option<usize>| i.map_or(false, |i| simcore::net::tcp_alive_from(10 + c).contains(&i));
                let mut conn = simcore::net::tcp_last_from(10 + c);
                if par.net.tcp && x.is_some() && !alive(&conn) {
                    x = None;
                }
                if x.is_none() {
                    x = tokio::time::timeout(Duration::from_millis(300), connect(&par.net, par.timeout))
                        .await
                        .ok()
                        .and_then(|r| r.ok());
                    conn = simcore::net::tcp_last_from(10 + c);
                }
                let k = match x.as_mut() {
                    Some(k) => k,
                    None => {
                        sleep_ms(10).await;
                        continue;
                    }
                };
                let t0 = simcore::now();
                let r = tokio::time::timeout(Duration::from_millis(par.timeout + 5000), k.ask(compound(m, &parts, &form))).await;
                let t1 = simcore::now();
                let mut g = w.lock().unwrap();
                simcore::log(|| format!("client {} message {} of {} ends with {:.60?}", c, m, t0, r));
                let how = match r {
                    Err(_) => {
                        g.bad.push(("request-stuck".into(), format!("client {} message {} timeout {} ms", c, m, par.timeout)));
                        "stuck"
                    }
                    Ok(Ok(r)) => {
                        if !fits_all(m, &parts, &form, &r) {
                            g.bad.push(("wrong-answer".into(), format!("client {} message {} {:?} {:?}: {:.300?}", c, m, form, parts, r)));
                        }
                        "ok"
                    }
                    Ok(Err(AskError::Failure { .. })) => {
                        // the answer was an error
                        if let (Form::One, Part::Probe(q)) = (&form, &parts[0]) {
                            if !q.fail {
                                g.bad.push(("wrong-answer".into(), format!("client {} message {} fails", c, m)));
                            }
                        }
                        "ok"
                    }
                    Ok(Err(e)) => ask_err(&e),
                };
                if how == "invalid" {
                    g.bad.push(("wrong-answer".into(), format!("client {} message {}: invalid response", c, m)));
                }
                g.asks.push((m, t0, t1, how));
                if t1 - t0 > par.timeout * MS + 5 * MS + simcore::stalled(t0, t1) {
                    g.bad.push(("late-return".into(), format!("client {} message {} took {} us of {} ms", c, m, (t1 - t0) / 1000, par.timeout)));
                }
            }
            Op::Burst(_, m, n, part) => {
                if peer.is_none() {
                    peer = tokio::time::timeout(Duration::from_millis(300), Peer::new(&par.net))
                        .await
                        .ok()
                        .and_then(|r| r.ok());
                }
                let k = match peer.as_mut() {
                    Some(k) => k,
                    None => {
                        sleep_ms(10).await;
                        continue;
                    }
                };
                let mut sent = vec![];
                for i in 0..n as u64 {
                    let id = m + 1000 * (i + 1);
                    w.lock().unwrap().piped.insert(id);
                    let msg = Msg::from(request(id, 0, &part));
                    sent.push((id, msg.header.id));
                    if !matches!(
                        tokio::time::timeout(Duration::from_millis(300), k.send(&msg)).await,
                        Ok(true)
                    ) {
                        break;
                    }
                }
                sleep_ms(5).await;
                for (id, h) in sent {
                    for r in k.replies(h) {
                        if !fits(id, 0, &part, &r) {
                            w.lock().unwrap().bad.push(("wrong-answer".into(), format!("client {} message {} {:?}: {:.300?}", c, id, part, r)));
                        }
                    }
                }
                if par.net.tcp && m % 3 == 0 {
                    peer = None;
                }
            }
            _ => {}
        }
    }
    w.lock().unwrap().done[c as usize] = true;
    // stay connected until the end
    while !w.lock().unwrap().over {
        sleep_ms(20).await;
    }
    drop(x);
    drop(peer);
}

/// Connections that nobody makes proper use of
async fn odd(par: Params, at: u64, n: u32, how: u8, w: Shared) {
    sleep_ms(at).await;
    let mut keep = vec![];
    for i in 0..n {
        if !par.net.tcp {
            let q = Probe {
                id: 1,
                delay: 0,
                reply: 0,
                fill: 4000,
                fail: false,
            };
            let ps = packets(&par.net, &Msg::from(q.request()));
            let from = std::net::SocketAddr::new(
                if par.net.v6 { simcore::net::node_ip6(60) } else { simcore::net::node_ip(60) },
                4000 + i as u16,
            );
            simcore::net::udp_inject(from, par.net.addr(), ps[0].clone(), 1000);
            continue;
        }
        if let Ok(Ok(mut s)) = tokio::time::timeout(Duration::from_millis(200), TcpStream::connect(par.net.addr())).await {
            if how == 1 {
                let q = Probe {
                    id: 1,
                    delay: 0,
                    reply: 0,
                    fill: 4000,
                    fail: false,
                };
                let ps = packets(&par.net, &Msg::from(q.request()));
                let _ = tokio::time::timeout(Duration::from_millis(100), s.write_all(&ps[0])).await;
            }
            if how == 2 {
                // asks and never reads
                for k in 0..40u64 {
                    let q = Probe {
                        id: 5_000_000 + (at * 10 + i as u64) * 100 + k,
                        delay: 0,
                        reply: 3000,
                        fill: 0,
                        fail: false,
                    };
                    w.lock().unwrap().piped.insert(q.id / 100);
                    let ps = packets(&par.net, &Msg::from(q.request())).concat();
                    if !matches!(tokio::time::timeout(Duration::from_millis(50), s.write_all(&ps)).await, Ok(Ok(_))) {
                        break;
                    }
                }
            }
            keep.push(s);
        }
    }
    while !w.lock().unwrap().over {
        sleep_ms(20).await;
    }
    drop(keep);
}

fn dirs() -> BTreeSet<u64> {
    std::fs::read_dir(scratch())
        .map(|d| {
            d.flatten()
                .filter_map(|e| {
                    let n = e.file_name().to_string_lossy().into_owned();
                    if !n.starts_with('d') && !n.starts_with('f') {
                        return None;
                    }
                    n[1..].split('-').next().and_then(|m| m.parse().ok())
                })
                .collect()
        })
        .unwrap_or_default()
}
fn open_files() -> usize {
    let dir = scratch();
    std::fs::read_dir("/proc/self/fd")
        .map(|d| {
            d.flatten()
                .filter(|e| std::fs::read_link(e.path()).map_or(false, |p| p.starts_with(&dir)))
                .count()
        })
        .unwrap_or(0)
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let w: Shared = Arc::new(Mutex::new(World {
        done: vec![false; par.clients as usize],
        ..Default::default()
    }));
    let lossless = ["udp-drop", "udp-delay", "udp-send-error", "udp-recv-error", "tcp-reset", "tcp-accept-error"]
        .iter()
        .all(|f| plan.faults.get(*f).is_none());
    let mute = plan.scenario == "mute";
    let (rep2, w2) = (rep.clone(), w.clone());
    let (lat, win) = (plan.net.latency_us + plan.net.jitter_us, plan.net.window as u64);
    in_runtime(rep, async move {
        let fail = |sig: &str, d: String| rep2.borrow_mut().fail(sig, d);
        // the longest a single message may take
        let work = |parts: &[Part]| -> u64 {
            parts
                .iter()
                .map(|p| match p {
                    Part::Probe(q) => q.delay + ((q.fill + q.reply) as u64 * 2 / win + 2) * 16 * lat / 1000,
                    _ => 300,
                })
                .sum()
        };
        let most = ops
            .iter()
            .map(|o| match o {
                Op::Msg(_, _, p, _) => work(p),
                Op::Burst(_, _, _, p) => work(std::slice::from_ref(p)),
                _ => 0,
            })
            .max()
            .unwrap_or(0)
            // the replies of everything that is queued may have to be sent
            // before the one of the message under way
            + ops
                .iter()
                .map(|o| match o {
                    Op::Msg(_, _, p, _) => p.len() as u64,
                    Op::Burst(_, _, n, _) => *n as u64,
                    _ => 0,
                })
                .sum::<u64>()
                * 8
                * lat
                / 1000
            + 300;
        for c in 0..par.clients {
            let mine: Vec<Op> = ops
                .iter()
                .filter(|o| match o {
                    Op::Msg(k, ..) | Op::Burst(k, ..) | Op::Sleep(k, _) => *k == c,
                    _ => false,
                })
                .cloned()
                .collect();
            spawn_on(10 + c, client(c, par.clone(), mine, w2.clone()));
        }
        for o in &ops {
            if let Op::Odd(at, n, how) = o {
                let how = if *how == 2 && !mute { 1 } else { *how };
                spawn_on(60, odd(par.clone(), *at, *n, how, w2.clone()));
            }
            if mute {
                if let Op::Life(at, ..) = o {
                    spawn_on(60, odd(par.clone(), *at / 2, 2, 2, w2.clone()));
                }
            }
        }
        let lives: Vec<(u64, u8, u64)> = ops
            .iter()
            .filter_map(|o| match o {
                Op::Life(a, b, c) => Some((*a, *b, *c)),
                _ => None,
            })
            .collect();
        let mut logs: Vec<(ExecLog, usize)> = vec![];
        for (at, how, pause) in lives {
            let log: ExecLog = Default::default();
            let up = simcore::now();
            let server = match serve(&par.net, &log).await {
                Ok(s) => s,
                Err(e) => return fail("address-in-use", format!("a new server cannot listen: {}", e)),
            };
            w2.lock().unwrap().spans.push(Span { up, down: None });
            sleep_ms(at).await;
            let before = log.lock().unwrap().len();
            let made = dirs();
            let t0 = simcore::now();
            simcore::log(|| format!("shutdown, way {}", how));
            server.shutdown();
            w2.lock().unwrap().spans.last_mut().expect("harness: span").down = Some(t0);
            logs.push((log.clone(), before));
            if how == 2 {
                sleep_ms(3).await;
                server.shutdown();
            }
            if how == 3 {
                sleep_ms(200).await;
            }
            let limit = most + if mute { GRACE } else { 0 };
            let patience = Duration::from_millis(limit + 20_000);
            if how == 4 {
                drop(server);
            } else {
                let t1 = simcore::now();
                let r = spawn_on(SERVER, async move { tokio::time::timeout(patience, server.wait()).await }).await;
                let took = simcore::now() - t0;
                match r {
                    Ok(Ok(Ok(()))) => {}
                    Ok(Ok(Err(e))) => return fail("wait-fails", format!("{}", e)),
                    Ok(Err(_)) => return fail("wait-does-not-return", format!("{} ms after shutdown", took / MS)),
                    Err(e) => return fail("wait-fails", format!("{}", e)),
                }
                let slack = simcore::stalled(t0, simcore::now()) * 8 + (t1 - t0);
                rep2.borrow_mut().check(took <= limit * MS + slack, "wait-late", || {
                    format!("wait returned {} ms after shutdown; the longest request takes {} ms", took / MS, limit)
                });
                // the address is free again
                let (l, u) = (simcore::net::listeners_open(SERVER), simcore::net::udp_open(SERVER));
                rep2.borrow_mut().check(l + u == 0, "address-held", || "the socket is still open once wait returned".to_string());
                rep2.borrow_mut().probe("waits", 1);
            }
            let end = t0 + (limit + par.net.cleanup + 100) * MS;
            let mut stalls;
            let left = loop {
                stalls = simcore::stalled(t0, simcore::now()) * 8;
                let left = (
                    simcore::live_tasks(SERVER),
                    simcore::net::tcp_open_ends(SERVER),
                    simcore::net::udp_open(SERVER) + simcore::net::listeners_open(SERVER),
                    open_files(),
                    tokio::sim::proc_truth().iter().filter(|t| t.ended.is_none()).count(),
                );
                if left == (0, 0, 0, 0, 0) || simcore::now() > end + stalls {
                    break left;
                }
                sleep_ms(if simcore::now() > end { 50 } else { 5 }).await;
            };
            rep2.borrow_mut().check(left == (0, 0, 0, 0, 0), "left-behind", || {
                format!(
                    "{} ms after shutdown: {} tasks, {} connections, {} sockets, {} open files, {} processes",
                    (simcore::now() - t0) / MS,
                    left.0,
                    left.1,
                    left.2,
                    left.3,
                    left.4
                )
            });
            rep2.borrow_mut().mix_state(left.0 as u64 * 7 + how as u64);
            sleep_ms(pause).await;
            // what has been started after shutdown belongs to one message
            let mut late: BTreeSet<u64> = log.lock().unwrap()[before..].iter().map(|e| e.id / 100).collect();
            late.extend(dirs().difference(&made));
            rep2.borrow_mut().check(late.len() <= 1, "executed-after-shutdown", || {
                format!("messages {:?} were begun after shutdown", late)
            });
            rep2.borrow_mut().probe(if late.is_empty() { "shutdowns with nothing under way" } else { "shutdowns with a request under way" }, 1);
        }
        // a last server, to which everybody is quiet
        let t_last = simcore::now();
        while !w2.lock().unwrap().done.iter().all(|d| *d) {
            if simcore::now() > t_last + 300_000 * MS {
                return fail("request-stuck", "a client does not get through its requests".into());
            }
            sleep_ms(20).await;
        }
        simcore::stop_faults();
        let log: ExecLog = Default::default();
        let server: ListeningServer = match serve(&par.net, &log).await {
            Ok(s) => s,
            Err(e) => return fail("address-in-use", format!("a new server cannot listen: {}", e)),
        };
        let r = {
            let net = par.net.clone();
            spawn_on(40, async move {
                let mut x = connect(&net, 3000 + 20 * lat / 1000).await.map_err(|e| e.to_string())?;
                let p = Probe {
                    id: 900_000,
                    delay: 0,
                    reply: 30,
                    fill: 30,
                    fail: false,
                };
                match x.ask(p.request()).await {
                    Ok(r) if p.fits(&r) => Ok(()),
                    Ok(r) => Err(format!("{:?}", r)),
                    Err(e) => Err(ask_err(&e).to_string()),
                }
            })
            .await
        };
        match r {
            Ok(r) => rep2.borrow_mut().check(r.is_ok(), "new-server-unusable", || format!("{:?}", r)),
            Err(e) => return fail("new-server-unusable", format!("{}", e)),
        };
        server.shutdown();
        w2.lock().unwrap().over = true;
        let r = spawn_on(SERVER, async move { tokio::time::timeout(Duration::from_millis(20_000), server.wait()).await }).await;
        rep2.borrow_mut().check(matches!(r, Ok(Ok(Ok(())))), "wait-does-not-return", || {
            "an idle server does not shut down".to_string()
        });
        let g = w2.lock().unwrap();
        let mut rep = rep2.borrow_mut();
        for (s, d) in &g.bad {
            rep.fail(s.clone(), d.clone());
        }
        let mut executed: std::collections::BTreeMap<u64, u64> = Default::default();
        for (l, _) in &logs {
            for e in l.lock().unwrap().iter() {
                if e.valid && e.end > 0 {
                    let t = executed.entry(e.id / 100).or_default();
                    *t = (*t).max(e.end);
                }
            }
        }
        for (m, t0, t1, how) in &g.asks {
            rep.probe(if *how == "ok" { "answered requests" } else { "requests ending in an error" }, 1);
            // entirely in a gap: from after the end of one server until before the next
            let gap = g
                .spans
                .iter()
                .enumerate()
                .any(|(i, s)| s.down.map_or(false, |d| d + 2 * simcore::MS < *t0) && g.spans.get(i + 1).map_or(true, |n| n.up > *t1));
            if gap {
                rep.check(*how != "ok", "answer-without-server", || format!("message {} was answered while there was no server", m));
                rep.probe("requests without a server", 1);
            }
            if let Some(end) = executed.get(m) {
                let single = ops.iter().find_map(|o| match o {
                    Op::Msg(_, k, p, Form::One) if k == m => match &p[0] {
                        Part::Probe(q) => Some(q),
                        _ => None,
                    },
                    _ => None,
                });
                // how long the answer may take on its way
                let trip = single.map_or(0, |q| ((q.reply as u64) * 2 / win + 2) * 16 * lat * 1000);
                let room = *t1 >= *end + trip + 5 * MS + simcore::stalled(*t0, *t1);
                if lossless && room && !mute && *how != "ok" && single.is_some() {
                    rep.check(false, "answer-lost", || {
                        format!("message {} was executed by {} us and the client gave up at {} us: {}", m, end / 1000, t1 / 1000, how)
                    });
                }
            }
        }
    });
}
