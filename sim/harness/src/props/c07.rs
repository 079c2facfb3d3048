//! C07: the server outlives its clients' failures and transient I/O errors
use super::*;
use crate::exec::{in_runtime, scratch, INTENDED};
use crate::plan::*;
use crate::wire::*;
use crate::world::*;
use over_there::core::transport::{NetTransmission, OutboundWire};
use over_there::core::{request, ConnectedClient, Content, ListeningServer, Msg, Reply, Request, TransformRule};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;

pub static PROP: Prop = Prop {
    id: "C07",
    gen,
    run,
    quick_runs: 12000,
    batch: 20,
    rule: "2-4 clients over UDP or TCP send every kind of request, among them unsupported, failing, panicking, deeply nested and cancelled ones, while clients crash in mid-request and restart, vanish behind a permanent partition, networks are cut and healed, garbage datagrams and connections, malformed messages and half messages arrive, sockets and accepts report transient errors, files and process starts fail, and the server itself crashes and restarts on its address. Then the faults stop, and after a quiet period every client that is still connected (over TCP: whose connection is intact at both ends) and a new client must get the reply to a fresh request at the first attempt, within the normal time; no task of client or server may have ended by a panic.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: true,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    timeout: u64,
    span: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Do {
    Ask(Probe),
    Tell(Probe),
    Cancel(Probe, u64),
    /// nobody answers this one
    Forward,
    /// a handler that panics, on its own or within a batch
    Panic(bool),
    /// a transformation rule that cannot be parsed
    BadRule(u32),
    Deep(u32, bool),
    Open(String),
    BadFile,
    Exec(String, Vec<String>),
    BadProc,
    Batch(Vec<Probe>),
    Debug,
    Sleep(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Client(u32, Do),
    /// at this time (ms)
    Ctl(u64, Ev),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Ev {
    /// down for so long
    CrashClient(u32, u64),
    CrashServer(u64),
    /// both ways or one
    Cut(u32, u8, u64),
    Vanish(u32),
    /// datagrams or a connection with nonsense: shape, size, seed, from
    Garbage(u8, usize, u64, u8),
    /// a stranger's connection with a genuine message that ends early: bytes, reset, held open
    Half(usize, u8),
    /// a well-formed message that is no request
    Odd(u8),
    /// connections that are opened and left, so many
    Idle(u32),
    ResetConn(u32),
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C07", if tcp { "tcp" } else { "udp" }, rng);
    let clients = rng.range(2, 4) as u32;
    let mut sec = Sec::any(rng);
    if rng.below(2) == 0 {
        sec.auth = 0;
        sec.crypt = 0;
    }
    let span = *rng.pick(&[200, 1000, 3000]);
    let par = Params {
        net: Net {
            tcp,
            v6: rng.below(5) == 0,
            sec,
            buffer: *rng.pick(&[1, 2, 8, 1000]),
            client_buffer: *rng.pick(&[1, 2, 8, 1000]),
            cleanup: *rng.pick(&[50, 500, 60_000]),
            file_ttl: *rng.pick(&[100, 120_000]),
            proc_ttl: *rng.pick(&[100, 300_000]),
            dead_ttl: 100,
            packet_ttl: *rng.pick(&[500, 300_000]),
            ..Default::default()
        },
        clients,
        timeout: *rng.pick(&[100, 400]),
        span,
    };
    let mut ops = vec![];
    let n = rng.range(4, if thorough { 40 } else { 25 });
    for i in 0..n {
        let id = (i + 1) * 1000 + rng.below(1000);
        let probe = Probe {
            id,
            delay: *rng.pick(&[0, 0, 0, 2, 20]),
            reply: *rng.pick(&[0, 10, 900, 4000]),
            fill: *rng.pick(&[0, 10, 100, 1500]),
            fail: rng.below(8) == 0,
        };
        let d = match rng.below(30) {
            0..=7 => Do::Ask(probe),
            8..=9 => Do::Tell(probe),
            10..=11 => Do::Cancel(probe, *rng.pick(&[0, 100, 500, 2000, 10_000])),
            12 => Do::Forward,
            13..=14 => Do::Panic(rng.below(2) == 0),
            15..=16 => Do::BadRule(rng.below(6) as u32),
            17 => Do::Deep(*rng.pick(&[2, 5, 10, 40]), rng.below(2) == 0),
            18..=19 => Do::Open(rng.pick(&["f0", "f1", "no/such/dir/f"]).to_string()),
            20 => Do::BadFile,
            21..=22 => {
                let words: Vec<String> = rng
                    .pick(&["sim out:hello exit:3", "sim outn:100:7", "sim hang", "sim sleep:30 err:x", "no-such-program", "noperm", ""])
                    .split(' ')
                    .map(|s| s.to_string())
                    .collect();
                Do::Exec(words[0].clone(), words[1..].to_vec())
            }
            23 => Do::BadProc,
            24..=25 => Do::Batch(vec![probe.clone(), Probe { id: id + 500_000, delay: 5, ..probe }]),
            26 => Do::Debug,
            _ => Do::Sleep(*rng.pick(&[1, 10, 100])),
        };
        ops.push(Op::Client(rng.below(clients as u64) as u32, d));
    }
    for _ in 0..rng.range(1, if thorough { 14 } else { 8 }) {
        let at = rng.below(span);
        let c = rng.below(clients as u64) as u32;
        let e = match rng.below(20) {
            0..=3 => Ev::CrashClient(c, *rng.pick(&[0, 5, 100])),
            4..=5 => Ev::CrashServer(*rng.pick(&[0, 5, 100, 500])),
            6..=8 => Ev::Cut(c, rng.below(3) as u8, *rng.pick(&[5, 50, 500])),
            9 => Ev::Vanish(c),
            10..=12 => Ev::Garbage(rng.below(7) as u8, rng.below(3000) as usize, rng.next(), rng.below(3) as u8),
            13..=15 => Ev::Half(rng.below(3000) as usize, rng.below(3) as u8),
            16..=17 => Ev::Odd(rng.below(5) as u8),
            18 => Ev::Idle(rng.range(1, 20) as u32),
            _ => Ev::ResetConn(c),
        };
        ops.push(Op::Ctl(at, e));
    }
    let vanish = ops.iter().any(|o| matches!(o, Op::Ctl(_, Ev::Vanish(_))));
    let mut par = par;
    if tcp && vanish {
        // a full window towards somebody who is gone is the finding listed under C15
        par.net.buffer = 1000;
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 300, 2000]);
    p.net.jitter_us = *rng.pick(&[10, 100, 400]);
    p.net.window = if tcp && vanish { 4 << 20 } else { *rng.pick(&[4000, 65536]) };
    p.swarm_sched(rng);
    p.swarm(rng, K::UdpDup, 40, 20_000, 300_000);
    p.swarm(rng, K::UdpDelay, 50, 50_000, 900_000);
    p.swarm(rng, K::UdpDrop, 50, 20_000, 300_000);
    p.swarm(rng, K::UdpSendBlock, 20, 20_000, 300_000);
    p.swarm(rng, K::UdpSendErr, 60, 10_000, 300_000);
    p.swarm(rng, K::UdpRecvErr, 60, 10_000, 300_000);
    p.swarm(rng, K::UdpIcmp, 60, 100_000, 1_000_000);
    if par.net.sec.auth > 0 {
        p.swarm(rng, K::UdpCorrupt, 40, 5_000, 100_000);
    }
    p.swarm(rng, K::TcpDelay, 50, 50_000, 900_000);
    p.swarm(rng, K::TcpSplit, 50, 50_000, 900_000);
    p.swarm(rng, K::TcpShortRead, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpShortWrite, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpReset, 40, 500, 20_000);
    p.swarm(rng, K::TcpAcceptErr, 60, 20_000, 600_000);
    p.swarm(rng, K::FsErr, 40, 20_000, 300_000);
    p.swarm(rng, K::ProcSpawnErr, 30, 50_000, 500_000);
    p.max_steps = 1_500_000;
    p
}

/// What the outside world knows about a client
#[derive(Default, Clone)]
struct Seat {
    next: usize,
    /// all its operations are done (this incarnation)
    idle: bool,
    vanished: bool,
    down: bool,
    /// connections of this node to the server that were healthy before the final request
    verdict: Option<Result<(), String>>,
}
struct World {
    seats: Vec<Seat>,
    quiet: bool,
    bad: Vec<(String, String)>,
    probes: Vec<(&'static str, u64)>,
}
type Shared = Arc<Mutex<World>>;

fn forward() -> request::ForwardArgs {
    request::ForwardArgs {
        address: "10.0.0.9:1".parse().unwrap(),
        request: Box::new(Request::Heartbeat),
    }
}
fn nested(n: u32, seq: bool, inner: Request) -> Request {
    (0..n).fold(inner, |r, _| {
        if seq {
            Request::Sequence(vec![r.into_lazily_transformed(vec![])].into())
        } else {
            Request::Batch(vec![r].into())
        }
    })
}

/// Over TCP a broken connection is made anew, as a user would
async fn client(c: u32, par: Params, mine: Vec<Do>, w: Shared) {
    let net = par.net.clone();
    let mut cl: Option<ConnectedClient> = None;
    let mut conn = None;
    let mut fails = 0;
    loop {
        let at = {
            let mut w = w.lock().unwrap();
            let s = &mut w.seats[c as usize];
            if s.next >= mine.len() {
                break;
            }
            s.next += 1;
            s.next - 1
        };
        if cl.is_none() || (fails > 0 && net.tcp) {
            fails = 0;
            cl = tokio::time::timeout(std::time::Duration::from_millis(500), connect(&net, par.timeout))
                .await
                .ok()
                .and_then(|r| r.ok());
            conn = simcore::net::tcp_last_from(10 + c);
        }
        let x = match cl.as_mut() {
            Some(x) => x,
            None => {
                sleep_ms(20).await;
                continue;
            }
        };
        let (req, probe) = match &mine[at] {
            Do::Ask(p) => (p.request(), Some(p)),
            Do::Tell(p) => {
                let _ = tokio::time::timeout(std::time::Duration::from_millis(par.timeout), x.tell(p.request())).await;
                continue;
            }
            Do::Cancel(p, us) => {
                let _ = tokio::time::timeout(std::time::Duration::from_micros(*us), x.ask(p.request())).await;
                continue;
            }
            Do::Forward => (Request::Forward(forward()), None),
            Do::Panic(batch) => {
                let r = Probe {
                    id: 5,
                    delay: PANIC,
                    reply: 0,
                    fill: 0,
                    fail: false,
                }
                .request();
                (if *batch { Request::Batch(vec![Request::Version, r].into()) } else { r }, None)
            }
            Do::BadRule(k) => {
                let rule = |path: &str, value: &str| TransformRule {
                    path: path.into(),
                    value: value.into(),
                };
                let r = match k {
                    0 => rule("$.payload.id", ""),
                    1 => rule("", "$.payload.id"),
                    2 => rule("$[", "$.["),
                    3 => rule("$.payload.data[", "$..["),
                    4 => rule("$.x", "$.payload[?(@.x > "),
                    _ => rule("$.payload.id", "$"),
                };
                (
                    Request::Sequence(
                        vec![
                            Request::Version.into_lazily_transformed(vec![]),
                            Request::ReadFile(request::ReadFileArgs { id: 1, sig: 1 }).into_lazily_transformed(vec![r]),
                        ]
                        .into(),
                    ),
                    None,
                )
            }
            Do::Deep(n, seq) => (nested(*n, *seq, Request::Heartbeat), None),
            Do::Open(f) => (
                Request::OpenFile(request::OpenFileArgs {
                    path: scratch().join(f).to_string_lossy().into_owned(),
                    create_if_missing: true,
                    write_access: true,
                    read_access: true,
                }),
                None,
            ),
            Do::BadFile => (Request::ReadFile(request::ReadFileArgs { id: 77, sig: 0 }), None),
            Do::Exec(cmd, args) => (
                Request::ExecProc(request::ExecProcArgs {
                    command: cmd.clone(),
                    args: args.clone(),
                    stdin: true,
                    stdout: true,
                    stderr: true,
                    current_dir: None,
                }),
                None,
            ),
            Do::BadProc => (Request::KillProc(request::KillProcArgs { id: 12345 }), None),
            Do::Batch(ps) => (Request::Batch(ps.iter().map(|p| p.request()).collect::<Vec<_>>().into()), None),
            Do::Debug => (Request::Capabilities, None),
            Do::Sleep(n) => {
                sleep_ms(*n).await;
                continue;
            }
        };
        let limit = std::time::Duration::from_millis(par.timeout + 3000);
        match tokio::time::timeout(limit, x.ask(req)).await {
            Ok(Ok(r)) => {
                fails = 0;
                if let Some(p) = probe {
                    if !p.fits(&r) {
                        w.lock().unwrap().bad.push(("foreign-reply".into(), format!("{:?} got {:.200?}", p, r)));
                    }
                }
            }
            Ok(Err(over_there::core::AskError::Failure { .. })) => fails = 0,
            Ok(Err(_)) => fails += 1,
            Err(_) => w.lock().unwrap().bad.push(("client-stuck".into(), format!("client {} operation {}", c, at))),
        }
    }
    w.lock().unwrap().seats[c as usize].idle = true;
    while !w.lock().unwrap().quiet {
        sleep_ms(10).await;
    }
    // how does this client fare now?
    let verdict = match cl.as_mut() {
        Some(x) if !net.tcp || conn.map_or(false, |i| simcore::net::tcp_alive_from(10 + c).contains(&i)) => {
            let r = fresh(x, 800_000 + c as u64).await;
            w.lock().unwrap().probes.push(("connected clients asked", 1));
            r.map_err(|e| format!("connected client {}: {}", c, e))
        }
        _ => match connect(&net, 1000).await {
            Ok(mut x) => {
                w.lock().unwrap().probes.push(("reconnected clients asked", 1));
                fresh(&mut x, 800_000 + c as u64).await.map_err(|e| format!("reconnected client {}: {}", c, e))
            }
            Err(e) => Err(format!("client {} cannot connect: {}", c, e)),
        },
    };
    w.lock().unwrap().seats[c as usize].verdict = Some(verdict);
    sleep_ms(10_000).await;
    drop(cl);
}

async fn fresh(x: &mut ConnectedClient, id: u64) -> Result<(), String> {
    x.timeout = std::time::Duration::from_millis(1000);
    let p = Probe {
        id,
        delay: 0,
        reply: 30,
        fill: 30,
        fail: false,
    };
    match x.ask(p.request()).await {
        Ok(r) if p.fits(&r) => Ok(()),
        Ok(r) => Err(format!("wrong reply {:.100?}", r)),
        Err(e) => Err(ask_err(&e).to_string()),
    }
}

pub(super) fn nonsense(shape: u8, size: usize, seed: u64, sec: &Sec) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let meta = |r: &mut Rng| Meta {
        id: r.next() as u32,
        index: *r.pick(&[0, 1, 7, u32::MAX - 1, u32::MAX]),
        r#type: if r.below(2) == 0 {
            Type::NotFinal
        } else {
            Type::Final {
                encryption: Encryption::None,
            }
        },
    };
    let signed = |mut k: Pkt| {
        use over_there::core::transport::Signer;
        k.signature = sec.auth().sign(&k.signed());
        k.bytes()
    };
    let mut k = Pkt {
        metadata: meta(&mut r),
        signature: over_there::core::transport::auth::Digest::default(),
        data: r.bytes(size.min(400)),
    };
    match shape {
        0 => r.bytes(size.min(1400)),
        1 => k.bytes(),
        // packets of a key holder that make no sense
        2 | 3 => {
            use over_there::core::transport::Signer;
            k.signature = sec.auth().sign(&k.signed());
            k.bytes()
        }
        4 => {
            k.metadata.index = 0;
            k.metadata.r#type = Type::Final {
                encryption: Encryption::Encrypted,
            };
            signed(k)
        }
        5 => {
            let mut b = k.bytes();
            let n = r.below(b.len() as u64) as usize;
            b.truncate(n);
            b
        }
        _ => vec![0xff; size % 50],
    }
}

async fn stranger(net: Net, ev: Ev) {
    let genuine = |content: Option<Content>, fill: usize| -> Vec<Vec<u8>> {
        let size = if net.tcp {
            NetTransmission::TcpEthernet.size()
        } else {
            NetTransmission::udp_from_addr(net.addr()).size()
        };
        let mut w = OutboundWire::new(size, net.sec.auth(), net.sec.crypt());
        let data = match content {
            Some(c) => Msg::new(c, None).to_vec().expect("harness: msg"),
            None => {
                let p = Probe {
                    id: 700_000,
                    delay: 0,
                    reply: 0,
                    fill,
                    fail: false,
                };
                Msg::from(p.request()).to_vec().expect("harness: msg")
            }
        };
        w.process(&data).expect("harness: packets")
    };
    let me = SocketAddr::new(
        if net.v6 {
            simcore::net::node_ip6(60)
        } else {
            simcore::net::node_ip(60)
        },
        999,
    );
    let (packets, hold) = match &ev {
        Ev::Garbage(shape, size, seed, _) => (vec![nonsense(*shape, *size, *seed, &net.sec)], 0),
        Ev::Half(n, hold) => {
            let mut k = genuine(None, 3000);
            if net.tcp {
                let mut b: Vec<u8> = k.concat();
                b.truncate(*n);
                (vec![b], *hold)
            } else {
                let m = n % k.len();
                k.truncate(m);
                (k, *hold)
            }
        }
        Ev::Odd(k) => (
            match k {
                0 => genuine(Some(Content::Reply(Reply::Heartbeat)), 0),
                1 => genuine(
                    Some(Content::Reply(Reply::Error(over_there::core::ReplyError::from("x")))),
                    0,
                ),
                2 => genuine(Some(Content::Request(Request::Heartbeat)), 0),
                _ => genuine(Some(Content::Request(Request::Forward(forward()))), 0),
            },
            0,
        ),
        _ => return,
    };
    if net.tcp {
        if let Ok(mut s) = TcpStream::connect(net.addr()).await {
            for p in &packets {
                if s.write_all(p).await.is_err() {
                    return;
                }
            }
            match hold {
                0 => {}
                1 => {
                    let id = s.local_addr().ok().and_then(simcore::net::tcp_conn_by_addr);
                    sleep_ms(3).await;
                    if let Some(id) = id {
                        simcore::net::tcp_reset(id);
                    }
                }
                _ => sleep_ms(20_000).await,
            }
        }
    } else {
        for p in packets {
            // also to clients, and under other names
            if let Ev::Garbage(_, _, _, from) = ev {
                if from == 1 {
                    let cl = SocketAddr::new(simcore::net::node_ip(10), 40000);
                    simcore::net::udp_inject(net.addr(), cl, p.clone(), 1000);
                }
                if from == 2 {
                    let cl = SocketAddr::new(simcore::net::node_ip(10), 40000);
                    simcore::net::udp_inject(cl, net.addr(), p, 1000);
                    continue;
                }
            }
            simcore::net::udp_inject(me, net.addr(), p, 1000);
        }
    }
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let w: Shared = Arc::new(Mutex::new(World {
        seats: vec![Seat::default(); par.clients as usize],
        quiet: false,
        bad: vec![],
        probes: vec![],
    }));
    let (w2, rep2) = (w.clone(), rep.clone());
    let net = par.net.clone();
    in_runtime(rep, async move {
        // the first start is not under test
        simcore::stop_faults();
        let server: Arc<Mutex<Option<ListeningServer>>> = Default::default();
        match serve(&net, &log).await {
            Ok(s) => *server.lock().unwrap() = Some(s),
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        simcore::resume_faults();
        let start = |c: u32| {
            let mine: Vec<Do> = ops
                .iter()
                .filter_map(|o| match o {
                    Op::Client(k, d) if *k == c => Some(d.clone()),
                    _ => None,
                })
                .collect();
            w2.lock().unwrap().seats[c as usize].idle = false;
            spawn_on(10 + c, client(c, par.clone(), mine, w2.clone()));
        };
        for c in 0..par.clients {
            start(c);
        }
        // the timeline: events and their ends
        #[derive(Debug)]
        enum Act {
            Ev(Ev),
            StartClient(u32),
            StartServer,
            Heal(u32),
        }
        let mut line: Vec<(u64, usize, Act)> = vec![];
        for o in &ops {
            if let Op::Ctl(at, e) = o {
                let n = line.len();
                line.push((*at, n, Act::Ev(e.clone())));
            }
        }
        let t0 = simcore::now();
        let mut server_down = 0;
        loop {
            line.sort_by_key(|x| (std::cmp::Reverse(x.0), std::cmp::Reverse(x.1)));
            let (at, seq, act) = match line.pop() {
                Some(x) => x,
                None => break,
            };
            let due = t0 + at * MS;
            if due > simcore::now() {
                tokio::time::delay_for(std::time::Duration::from_nanos(due - simcore::now())).await;
            }
            simcore::log(|| format!("event {:?}", act));
            let n = seq + 1000;
            match act {
                Act::Ev(Ev::CrashClient(c, down)) => {
                    let mut g = w2.lock().unwrap();
                    let s = &mut g.seats[c as usize];
                    if !s.down {
                        s.down = true;
                        drop(g);
                        simcore::crash(10 + c);
                        line.push((at + down, n, Act::StartClient(c)));
                    }
                }
                Act::StartClient(c) => {
                    w2.lock().unwrap().seats[c as usize].down = false;
                    start(c);
                }
                Act::Ev(Ev::CrashServer(down)) => {
                    server_down += 1;
                    if server_down == 1 {
                        simcore::crash(SERVER);
                        let old = server.lock().unwrap().take();
                        drop(old);
                        line.push((at + down, n, Act::StartServer));
                    } else {
                        server_down -= 1;
                    }
                }
                Act::StartServer => {
                    server_down = 0;
                    simcore::stop_faults();
                    match serve(&net, &log).await {
                        Ok(s) => *server.lock().unwrap() = Some(s),
                        Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
                    }
                    simcore::resume_faults();
                }
                Act::Ev(Ev::Cut(c, how, len)) => {
                    if how != 1 {
                        simcore::net::cut(10 + c, SERVER);
                    }
                    if how != 2 {
                        simcore::net::cut(SERVER, 10 + c);
                    }
                    line.push((at + len, n, Act::Heal(c)));
                }
                Act::Heal(c) => {
                    if !w2.lock().unwrap().seats[c as usize].vanished {
                        simcore::net::heal(10 + c, SERVER);
                        simcore::net::heal(SERVER, 10 + c);
                    }
                }
                Act::Ev(Ev::Vanish(c)) => {
                    w2.lock().unwrap().seats[c as usize].vanished = true;
                    simcore::net::cut(10 + c, SERVER);
                    simcore::net::cut(SERVER, 10 + c);
                }
                Act::Ev(Ev::ResetConn(c)) => {
                    for i in simcore::net::tcp_alive_from(10 + c) {
                        simcore::net::tcp_reset(i);
                    }
                }
                Act::Ev(Ev::Idle(k)) => {
                    if net.tcp {
                        for _ in 0..k {
                            let net = net.clone();
                            spawn_on(60, async move {
                                let s = TcpStream::connect(net.addr()).await;
                                sleep_ms(20_000).await;
                                drop(s);
                            });
                        }
                    }
                }
                Act::Ev(e) => {
                    spawn_on(60, stranger(net.clone(), e));
                }
            }
        }
        // clients finish what they are at
        let limit = simcore::now() + (ops.len() as u64 * (par.timeout + 600) + 5000) * MS;
        loop {
            let g = w2.lock().unwrap();
            let wait = g.seats.iter().any(|s| !s.idle && !s.vanished);
            drop(g);
            if !wait {
                break;
            }
            if simcore::now() > limit {
                rep2.borrow_mut().fail("client-stuck", "a client does not finish its requests");
                break;
            }
            sleep_ms(10).await;
        }
        simcore::stop_faults();
        simcore::log(|| "faults stopped".into());
        let settle: u64 = ops
            .iter()
            .map(|o| match o {
                Op::Client(_, Do::Ask(p)) | Op::Client(_, Do::Tell(p)) | Op::Client(_, Do::Cancel(p, _)) => p.delay,
                Op::Client(_, Do::Batch(_)) => 20,
                _ => 0,
            })
            .sum();
        // a stalled task may still be so for 1.7 s
        sleep_ms(2500 + 3 * settle).await;
        w2.lock().unwrap().quiet = true;
        for _ in 0..400 {
            let g = w2.lock().unwrap();
            let wait = g.seats.iter().any(|s| s.verdict.is_none() && !s.vanished);
            drop(g);
            if !wait {
                break;
            }
            sleep_ms(10).await;
        }
        // somebody new
        let r = {
            let net = net.clone();
            spawn_on(50, async move {
                match connect(&net, 1000).await {
                    Ok(mut x) => fresh(&mut x, 900_000).await,
                    Err(e) => Err(format!("connect: {}", e)),
                }
            })
            .await
        };
        let mut rep = rep2.borrow_mut();
        match r {
            Ok(r) => {
                rep.check(r.is_ok(), "new-client-unserved", || format!("{:?}", r));
            }
            Err(_) => rep.fail("new-client-unserved", "task ended"),
        }
        let g = w2.lock().unwrap();
        for (i, s) in g.seats.iter().enumerate() {
            rep.mix_state(s.next as u64 * 4 + s.vanished as u64);
            if s.vanished {
                continue;
            }
            match &s.verdict {
                Some(v) => {
                    rep.check(v.is_ok(), "client-unserved", || format!("{:?}", v));
                }
                None => rep.fail("client-stuck", format!("client {} does not finish", i)),
            }
        }
        for (s, d) in &g.bad {
            rep.fail(s.clone(), d.clone());
        }
        for (k, n) in &g.probes {
            rep.probe(k, *n);
        }
        for (node, m) in simcore::with(|s| s.task_panics.clone()) {
            // a panic within a batch ends the task of that operation and is reported to the client
            if m.contains(INTENDED) {
                continue;
            }
            let theirs = node == SERVER || (10..50).contains(&node);
            rep.check(!theirs, "task-panicked", || format!("a task of node {} ended: {}", node, m));
        }
        drop(rep);
        drop(g);
        let s = server.lock().unwrap().take();
        drop(s);
    });
}
