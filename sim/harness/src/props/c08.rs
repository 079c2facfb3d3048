//! C08: a request returns within its timeout, whatever the other side does
use super::*;
use crate::exec::in_runtime;
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, AskError, ConnectedClient, ListeningServer, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::{K, MS};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::TcpListener;

pub static PROP: Prop = Prop {
    id: "C08",
    gen,
    run,
    quick_runs: 6000,
    batch: 20,
    rule: "1-3 clients over UDP or TCP send requests of 0 to 200 kB with timeouts of 0 to 1000 ms, by way of the generic ask and of the specific ones, alone, in sequences and batches, through queues of 1 to 1000 messages, to a server that is healthy, slow, crashed and restarted, behind partitions, answers with up to 200 kB, accepts connections without ever reading, or does not exist; connections are reset and datagrams lost, repeated, delayed and refused. No request may take longer than its timeout plus 5 ms of virtual time (task stalls are off for this property); after the faults have stopped and the backlog is through, every client whose connection is intact gets the reply to a fresh request.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

const SLACK: u64 = 5 * MS;

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    /// 0 a server, 1 somebody who accepts connections and never reads, 2 nobody
    mode: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Ask(u32, u8, u64, Probe),
    Tell(u32, Probe),
    Sleep(u32, u64),
    /// at this time (ms)
    Ctl(u64, Ev),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Ev {
    CrashServer(u64),
    Cut(u32, u8, u64),
    ResetConn(u32),
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C08", if tcp { "tcp" } else { "udp" }, rng);
    let clients = rng.range(1, 3) as u32;
    let mut sec = Sec::any(rng);
    if rng.below(2) == 0 {
        sec.auth = 0;
        sec.crypt = 0;
    }
    let mode = match rng.below(10) {
        0 if tcp => 1,
        1 if !tcp => 2,
        _ => 0,
    };
    let par = Params {
        net: Net {
            tcp,
            v6: rng.below(5) == 0,
            sec,
            buffer: *rng.pick(&[1, 2, 8, 1000]),
            client_buffer: *rng.pick(&[1, 1, 2, 8, 1000]),
            cleanup: *rng.pick(&[50, 60_000]),
            packet_ttl: *rng.pick(&[500, 300_000]),
            ..Default::default()
        },
        clients,
        mode,
    };
    let sizes: &[usize] = if tcp {
        &[0, 10, 1500, 20_000, 200_000]
    } else {
        &[0, 10, 300, 1500, 20_000]
    };
    let mut ops = vec![];
    for i in 0..rng.range(3, if thorough { 30 } else { 15 }) {
        let c = rng.below(clients as u64) as u32;
        let probe = Probe {
            id: (i + 1) * 1000 + rng.below(1000),
            delay: *rng.pick(&[0, 0, 0, 2, 50, 300]),
            reply: *rng.pick(sizes),
            fill: *rng.pick(sizes),
            fail: rng.below(10) == 0,
        };
        ops.push(match rng.below(12) {
            0 => Op::Tell(c, probe),
            1 => Op::Sleep(c, *rng.pick(&[1, 20, 300])),
            _ => Op::Ask(
                c,
                if rng.below(3) > 0 { 0 } else { rng.below(12) as u8 },
                *rng.pick(&[0, 1, 10, 50, 100, 400, 1000]),
                probe,
            ),
        });
    }
    if mode == 0 {
        for _ in 0..rng.below(6) {
            let at = rng.below(1500);
            let c = rng.below(clients as u64) as u32;
            ops.push(Op::Ctl(
                at,
                match rng.below(8) {
                    0..=1 => Ev::CrashServer(*rng.pick(&[0, 5, 100, 700])),
                    2..=6 => Ev::Cut(c, rng.below(3) as u8, *rng.pick(&[5, 50, 500, 2000])),
                    _ => Ev::ResetConn(c),
                },
            ));
        }
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 300, 2000, 60_000]);
    p.net.jitter_us = *rng.pick(&[10, 100, 400]);
    p.net.window = *rng.pick(&[4000, 65536]);
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    p.swarm(rng, K::UdpDup, 40, 20_000, 300_000);
    p.swarm(rng, K::UdpDelay, 50, 50_000, 900_000);
    p.swarm(rng, K::UdpDrop, 60, 20_000, 900_000);
    p.swarm(rng, K::UdpSendBlock, 30, 20_000, 600_000);
    p.swarm(rng, K::UdpSendErr, 50, 10_000, 300_000);
    p.swarm(rng, K::UdpRecvErr, 50, 10_000, 300_000);
    p.swarm(rng, K::UdpIcmp, 50, 100_000, 1_000_000);
    p.swarm(rng, K::TcpDelay, 50, 50_000, 900_000);
    p.swarm(rng, K::TcpShortRead, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpShortWrite, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpReset, 30, 500, 20_000);
    p.max_steps = 3_000_000;
    p
}

#[derive(Default, Clone)]
struct Seat {
    done: bool,
    verdict: Option<Result<(), String>>,
}
#[derive(Default)]
struct World {
    seats: Vec<Seat>,
    quiet: bool,
    /// timeout, time taken, how it ended
    asks: Vec<(u64, u64, String)>,
    bad: Vec<(String, String)>,
}
type Shared = Arc<Mutex<World>>;

async fn one(x: &mut ConnectedClient, form: u8, p: &Probe) -> String {
    fn end<T, E: std::fmt::Debug>(r: Result<T, E>) -> String {
        match r {
            Ok(_) => "ok".into(),
            Err(e) => {
                let mut s = format!("{:?}", e);
                s.truncate(30);
                s
            }
        }
    }
    let file = over_there::core::RemoteFile::from(over_there::core::reply::FileOpenedArgs { id: 9, sig: 9, path: "x".into(), read: true, write: true });
    let proc_ = over_there::core::RemoteProc::shallow(9);
    match form {
        1 => end(x.ask_heartbeat().await),
        2 => end(x.ask_version().await),
        3 => end(x.ask_capabilities().await),
        4 => end(x.ask(Request::Batch(vec![p.request(), Request::Version].into())).await),
        5 => end(
            x.ask(Request::Sequence(
                vec![p.request().into_lazily_transformed(vec![]), Request::Version.into_lazily_transformed(vec![])].into(),
            ))
            .await,
        ),
        6 => end(x.ask_read_file(&file).await),
        7 => end(x.ask_proc_kill(&proc_).await),
        8 => end(x.ask_write_proc_stdin(&proc_, &filler(1, p.fill as usize)).await),
        9 => end(x.ask_exec_proc("no-such".into(), vec![]).await),
        // nobody answers
        10 => end(
            x.ask(Request::Forward(request::ForwardArgs {
                address: "10.0.0.9:1".parse().unwrap(),
                request: Box::new(Request::Heartbeat),
            }))
            .await,
        ),
        _ => match x.ask(p.request()).await {
            Ok(r) if p.fits(&r) => "ok".into(),
            Ok(r) => format!("WRONG {:.100?}", r),
            Err(AskError::Failure { .. }) => "failed".into(),
            Err(e) => ask_err(&e).into(),
        },
    }
}

async fn client(c: u32, par: Params, mine: Vec<Op>, w: Shared, stay: u64) {
    let mut x = None;
    for _ in 0..20 {
        if let Ok(Ok(k)) = tokio::time::timeout(Duration::from_millis(500), connect(&par.net, 100)).await {
            x = Some(k);
            break;
        }
        sleep_ms(100).await;
    }
    let conn = simcore::net::tcp_last_from(10 + c);
    let mut last = "";
    if let Some(x) = x.as_mut() {
        for op in mine {
            match op {
                Op::Sleep(_, n) => sleep_ms(n).await,
                Op::Tell(_, p) => {
                    // not bounded by anything
                    let _ = tokio::time::timeout(Duration::from_millis(200), x.tell(p.request())).await;
                }
                Op::Ask(_, form, t, p) => {
                    x.timeout = Duration::from_millis(t);
                    let t0 = simcore::now();
                    let r = tokio::time::timeout(Duration::from_millis(t + 20_000), one(x, form, &p)).await;
                    let took = simcore::now() - t0;
                    let mut w = w.lock().unwrap();
                    match r {
                        Ok(how) => {
                            simcore::log(|| format!("client {} {:?} form {} timeout {} took {} ns: {}", c, p, form, t, took, how));
                            if how.starts_with("WRONG") {
                                w.bad.push(("foreign-reply".into(), how.clone()));
                            }
                            w.asks.push((t * MS, took, how));
                        }
                        Err(_) => {
                            w.bad.push(("request-stuck".into(), format!("client {} {:?} form {} timeout {} ms", c, p, form, t)));
                            last = "stuck";
                            break;
                        }
                    }
                }
                Op::Ctl(..) => {}
            }
        }
    }
    w.lock().unwrap().seats[c as usize].done = true;
    while !w.lock().unwrap().quiet {
        sleep_ms(10).await;
    }
    let v = match x.as_mut() {
        Some(x) if last != "stuck" && (!par.net.tcp || conn.map_or(false, |i| simcore::net::tcp_alive_from(10 + c).contains(&i))) => {
            x.timeout = Duration::from_millis(stay);
            let p = Probe {
                id: 800_000 + c as u64,
                delay: 0,
                reply: 30,
                fill: 30,
                fail: false,
            };
            match x.ask(p.request()).await {
                Ok(r) if p.fits(&r) => Ok(()),
                Ok(r) => Err(format!("client {} got {:.100?}", c, r)),
                Err(e) => Err(format!("client {}: {}", c, ask_err(&e))),
            }
        }
        _ => Ok(()),
    };
    w.lock().unwrap().seats[c as usize].verdict = Some(v);
    drop(x);
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let w: Shared = Arc::new(Mutex::new(World {
        seats: vec![Seat::default(); par.clients as usize],
        ..Default::default()
    }));
    let (w2, rep2) = (w.clone(), rep.clone());
    let net = par.net.clone();
    let (lat, win) = (plan.net.latency_us + plan.net.jitter_us, plan.net.window as u64);
    in_runtime(rep, async move {
        simcore::stop_faults();
        let server: Arc<Mutex<Option<ListeningServer>>> = Default::default();
        if par.mode == 0 {
            match serve(&net, &log).await {
                Ok(s) => *server.lock().unwrap() = Some(s),
                Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
            };
        }
        if par.mode == 1 {
            let a = net.addr();
            spawn_on(SERVER, async move {
                let mut l = TcpListener::bind(a).await.expect("harness: listen");
                let mut keep = vec![];
                loop {
                    if let Ok(s) = l.accept().await {
                        keep.push(s);
                    }
                }
            });
        }
        simcore::resume_faults();
        // enough time for whatever is under way once the faults stop
        let mut settle = 2500;
        let mut bytes = 0;
        for o in &ops {
            match o {
                Op::Ask(_, _, _, p) | Op::Tell(_, p) => {
                    settle += p.delay * 2;
                    bytes += (p.fill + p.reply) as u64 * 3 + 3000;
                }
                _ => {}
            }
        }
        settle += (bytes / win + 4 * ops.len() as u64 + 10) * 4 * lat / 1000;
        for c in 0..par.clients {
            let mine: Vec<Op> = ops
                .iter()
                .filter(|o| match o {
                    Op::Ask(k, ..) | Op::Tell(k, _) | Op::Sleep(k, _) => *k == c,
                    _ => false,
                })
                .cloned()
                .collect();
            spawn_on(10 + c, client(c, par.clone(), mine, w2.clone(), 2000 + 8 * lat / 1000));
        }
        enum Act {
            Ev(Ev),
            StartServer,
            Heal(u32),
        }
        let mut line: Vec<(u64, usize, Act)> = vec![];
        for o in &ops {
            if let Op::Ctl(at, e) = o {
                let n = line.len();
                line.push((*at, n, Act::Ev(e.clone())));
            }
        }
        let t0 = simcore::now();
        let mut down = false;
        loop {
            line.sort_by_key(|x| (std::cmp::Reverse(x.0), std::cmp::Reverse(x.1)));
            let (at, seq, act) = match line.pop() {
                Some(x) => x,
                None => break,
            };
            let due = t0 + at * MS;
            if due > simcore::now() {
                tokio::time::delay_for(Duration::from_nanos(due - simcore::now())).await;
            }
            let n = seq + 1000;
            match act {
                Act::Ev(Ev::CrashServer(len)) => {
                    if !down {
                        down = true;
                        simcore::log(|| "crash server".into());
                        simcore::crash(SERVER);
                        let old = server.lock().unwrap().take();
                        drop(old);
                        line.push((at + len, n, Act::StartServer));
                    }
                }
                Act::StartServer => {
                    down = false;
                    simcore::stop_faults();
                    match serve(&net, &log).await {
                        Ok(s) => *server.lock().unwrap() = Some(s),
                        Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
                    }
                    simcore::resume_faults();
                }
                Act::Ev(Ev::Cut(c, how, len)) => {
                    simcore::log(|| format!("cut {} {} {}", c, how, len));
                    if how != 1 {
                        simcore::net::cut(10 + c, SERVER);
                    }
                    if how != 2 {
                        simcore::net::cut(SERVER, 10 + c);
                    }
                    line.push((at + len, n, Act::Heal(c)));
                }
                Act::Heal(c) => {
                    simcore::net::heal(10 + c, SERVER);
                    simcore::net::heal(SERVER, 10 + c);
                }
                Act::Ev(Ev::ResetConn(c)) => {
                    for i in simcore::net::tcp_alive_from(10 + c) {
                        simcore::net::tcp_reset(i);
                    }
                }
            }
        }
        let limit = simcore::now()
            + 20_000 * MS
            + ops
                .iter()
                .map(|o| match o {
                    Op::Ask(_, _, t, _) => *t + 20,
                    Op::Tell(..) => 220,
                    Op::Sleep(_, n) => *n + 20,
                    _ => 0,
                })
                .sum::<u64>()
                * MS;
        while w2.lock().unwrap().seats.iter().any(|s| !s.done) {
            if simcore::now() > limit {
                rep2.borrow_mut().fail("request-stuck", "a client does not get through its requests");
                break;
            }
            sleep_ms(10).await;
        }
        simcore::stop_faults();
        simcore::log(|| format!("faults stopped, settle {} ms", settle));
        sleep_ms(settle).await;
        w2.lock().unwrap().quiet = true;
        for _ in 0..1000 {
            if w2.lock().unwrap().seats.iter().all(|s| s.verdict.is_some()) {
                break;
            }
            sleep_ms(10).await;
        }
        let mut rep = rep2.borrow_mut();
        let g = w2.lock().unwrap();
        for (t, took, how) in &g.asks {
            rep.check(*took <= t + SLACK, "late-return", || {
                format!("a request with a timeout of {} ms took {} us ({})", t / MS, took / 1000, how)
            });
            rep.mix_state(*t + how.len() as u64);
            rep.probe(if how == "ok" { "answered requests" } else { "requests ending in an error" }, 1);
        }
        for (s, d) in &g.bad {
            rep.fail(s.clone(), d.clone());
        }
        for (c, s) in g.seats.iter().enumerate() {
            match &s.verdict {
                Some(v) => {
                    if par.mode == 0 {
                        rep.check(v.is_ok(), "client-unusable", || format!("{:?}", v));
                    }
                }
                None => rep.fail("request-stuck", format!("client {} does not finish", c)),
            }
        }
        drop(rep);
        drop(g);
        let s = server.lock().unwrap().take();
        drop(s);
    });
}
