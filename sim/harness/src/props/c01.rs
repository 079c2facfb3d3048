//! C01: every answer belongs to the request it is given for, at most once
use super::*;
use crate::exec::in_runtime;
use crate::plan::*;
use crate::world::*;
use over_there::core::{AskError, Reply, Request};
use serde::{Deserialize, Serialize};
use simcore::K;
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C01",
    gen,
    run,
    quick_runs: 6000,
    batch: 25,
    rule: "1-4 clients over UDP or TCP issue requests that identify themselves (custom requests whose reply is a function of a unique id, mixed with heartbeats, version and failing requests), give up early by timeout or cancellation while the answer is still under way, and go on; the oracle matches every reply with the request that got it and, on runs whose network loses nothing, demands the reply whenever the handler finished well before the timeout.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    timeouts: Vec<u64>,
    /// the network loses nothing and nothing stalls
    lossless: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Ask(Probe),
    /// give up after so many microseconds
    Cancel(Probe, u64),
    Tell(Probe),
    Heartbeat,
    Version,
    Batch(Vec<Probe>),
    Sleep(u64),
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let lossless = rng.below(2) == 0;
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C01", if tcp { "tcp" } else { "udp" }, rng);
    let mut sec = Sec::any(rng);
    if rng.below(3) > 0 {
        // signing and encryption are slow and rarely matter here
        sec.crypt = 0;
        sec.auth = 0;
    }
    let clients = rng.range(1, 4) as u32;
    let par = Params {
        net: Net {
            tcp,
            sec,
            buffer: *rng.pick(&[1, 2, 8, 1000]),
            client_buffer: *rng.pick(&[1, 2, 8, 1000]),
            ..Default::default()
        },
        clients,
        timeouts: (0..clients).map(|_| *rng.pick(&[15, 60, 300, 2000])).collect(),
        lossless,
    };
    let n = rng.range(3, if thorough { 60 } else { 30 });
    let mut ops: Vec<(u32, Op)> = vec![];
    let slow = rng.below(3);
    for i in 0..n {
        let c = rng.below(clients as u64) as u32;
        let id = (i + 1) * 1000 + rng.below(1000);
        let delay = match slow {
            0 => 0,
            1 => *rng.pick(&[0, 0, 1, 5, 20]),
            _ => *rng.pick(&[0, 0, 0, 10, 30, 70, 400]),
        };
        let probe = Probe {
            id,
            delay,
            reply: *rng.pick(&[0, 10, 200, 900, 3000]),
            fill: *rng.pick(&[0, 0, 100, 1500]),
            fail: rng.below(12) == 0,
        };
        ops.push((
            c,
            match rng.below(20) {
                0..=9 => Op::Ask(probe),
                10..=12 => Op::Cancel(probe, *rng.pick(&[0, 50, 300, 900, 5000, 20000])),
                13 => Op::Tell(probe),
                14 => Op::Heartbeat,
                15 => Op::Version,
                16..=17 => Op::Batch(
                    (0..rng.range(1, 4))
                        .map(|k| Probe {
                            id: id * 10 + k + 1_000_000,
                            delay: delay / 2,
                            ..probe.clone()
                        })
                        .collect(),
                ),
                _ => Op::Sleep(*rng.pick(&[0, 1, 10, 100])),
            },
        ));
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[50, 500, 3000]);
    p.net.jitter_us = *rng.pick(&[50, 500]);
    p.net.window = *rng.pick(&[2000, 65536]);
    p.swarm_sched(rng);
    p.swarm(rng, K::UdpDup, 60, 20_000, 600_000);
    p.swarm(rng, K::UdpDelay, 70, 50_000, 900_000);
    p.swarm(rng, K::UdpSendBlock, 20, 20_000, 300_000);
    p.swarm(rng, K::TcpDelay, 70, 50_000, 900_000);
    p.swarm(rng, K::TcpSplit, 50, 50_000, 900_000);
    p.swarm(rng, K::TcpShortRead, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpShortWrite, 30, 50_000, 500_000);
    if lossless {
        p.faults.remove("task-stall");
    } else {
        p.swarm(rng, K::UdpDrop, 60, 20_000, 300_000);
        if par.net.sec.auth > 0 {
            // without signatures, damaged content is not noticed by design
            p.swarm(rng, K::UdpCorrupt, 20, 5_000, 50_000);
        }
        p.swarm(rng, K::TcpReset, 20, 500, 5_000);
    }
    p
}

struct Done {
    client: u32,
    op: usize,
    probes: Vec<Probe>,
    start: u64,
    end: u64,
    timeout: u64,
    res: Result<Reply, AskError>,
    kind: u8,
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<(u32, Op)> = plan.o();
    let log: ExecLog = Default::default();
    let done: Arc<Mutex<Vec<Done>>> = Default::default();
    let d2 = done.clone();
    let l2 = log.clone();
    let net = par.net.clone();
    let rep2 = rep.clone();
    in_runtime(rep, async move {
        let server = serve(&net, &l2).await;
        let server = match server {
            Ok(s) => s,
            Err(e) => {
                rep2.borrow_mut().fail("listen-failed", e.to_string());
                return;
            }
        };
        let mut hs = vec![];
        for c in 0..par.clients {
            let mine: Vec<(usize, Op)> = ops
                .iter()
                .enumerate()
                .filter(|(_, (k, _))| *k == c)
                .map(|(i, (_, o))| (i, o.clone()))
                .collect();
            let net = net.clone();
            let timeout = par.timeouts[c as usize];
            let done = d2.clone();
            hs.push(spawn_on(10 + c, async move {
                let mut cl = match connect(&net, timeout).await {
                    Ok(c) => c,
                    Err(_) => return,
                };
                for (i, op) in mine {
                    let start = simcore::now();
                    let (req, probes, kind) = match &op {
                        Op::Ask(p) | Op::Cancel(p, _) => (p.request(), vec![p.clone()], 0),
                        Op::Tell(p) => {
                            let _ = tokio::time::timeout(std::time::Duration::from_secs(2), cl.tell(p.request())).await;
                            continue;
                        }
                        Op::Heartbeat => (Request::Heartbeat, vec![], 1),
                        Op::Version => (Request::Version, vec![], 2),
                        Op::Batch(ps) => (
                            Request::Batch(ps.iter().map(|p| p.request()).collect::<Vec<_>>().into()),
                            ps.clone(),
                            3,
                        ),
                        Op::Sleep(n) => {
                            sleep_ms(*n).await;
                            continue;
                        }
                    };
                    simcore::log(|| format!("ask op {} {:?}", i, op));
                    let res = if let Op::Cancel(_, us) = &op {
                        let us = std::time::Duration::from_micros(*us);
                        match tokio::time::timeout(us, cl.ask(req)).await {
                            Ok(r) => r,
                            Err(_) => continue,
                        }
                    } else {
                        cl.ask(req).await
                    };
                    simcore::log(|| {
                        format!("op {} -> {:?}", i, res.as_ref().map(|r| format!("{:.60?}", r)).map_err(ask_err))
                    });
                    done.lock().unwrap().push(Done {
                        client: c,
                        op: i,
                        probes,
                        start,
                        end: simcore::now(),
                        timeout,
                        res,
                        kind,
                    });
                }
                // late answers must still find a harmless client
                sleep_ms(600).await;
            }));
        }
        for h in hs {
            let _ = h.await;
        }
        drop(server);
    });

    // ---- the oracle ----
    let mut rep = rep.borrow_mut();
    let execs = log.lock().unwrap();
    let done = done.lock().unwrap();
    let slack = 150 * MS + 40 * (plan.net.latency_us + 110 * plan.net.jitter_us) * 1000;
    for d in done.iter() {
        let what = || format!("client {} op {}: {:?}", d.client, d.op, d.probes);
        rep.mix_state(d.op as u64 * 8 + d.res.as_ref().map(|_| 0).unwrap_or_else(|e| ask_err(e).len() as u64));
        match &d.res {
            Ok(r) => {
                let ok = match d.kind {
                    0 => d.probes[0].fits(r),
                    1 => *r == Reply::Heartbeat,
                    2 => matches!(r, Reply::Version(_)),
                    _ => match r {
                        Reply::Batch(b) => {
                            b.results.len() == d.probes.len()
                                && b.results.iter().zip(&d.probes).all(|(r, p)| {
                                    if p.fail {
                                        matches!(r, Reply::Error(_))
                                    } else {
                                        p.fits(r)
                                    }
                                })
                        }
                        _ => false,
                    },
                };
                rep.check(ok, "foreign-reply", || format!("{} got {:.200?}", what(), r));
                for p in &d.probes {
                    let seen = execs.iter().any(|e| e.id == p.id && e.start >= d.start && e.end <= d.end && e.end > 0);
                    rep.check(seen, "reply-without-execution", || {
                        format!("{} answered without being executed meanwhile", what())
                    });
                }
                rep.probe("answered", 1);
            }
            Err(AskError::Failure { msg }) => {
                let ok = d.kind == 0 && d.probes[0].fail && msg.contains(&format!("fail {}", d.probes[0].id));
                rep.check(ok, "foreign-failure", || format!("{} failed with {}", what(), msg));
            }
            Err(AskError::CallbackLost) if par_lossless(plan) => {
                rep.fail("callback-lost", what());
            }
            Err(e) => {
                rep.probe(ask_err(e), 1);
                if !par_lossless(plan) {
                    continue;
                }
                // produced in time, yet not delivered?
                let deadline = d.start + d.timeout * MS;
                let ends: Vec<u64> = d
                    .probes
                    .iter()
                    .filter_map(|p| execs.iter().filter(|e| e.id == p.id && e.end > 0).map(|e| e.end).min())
                    .collect();
                if !d.probes.is_empty() && ends.len() == d.probes.len() {
                    let end = *ends.iter().max().unwrap();
                    let ok = end + slack > deadline;
                    rep.check(ok, "reply-lost", || {
                        format!(
                            "{}: produced {} ms before the timeout, got {}",
                            what(),
                            (deadline - end) / MS,
                            ask_err(e)
                        )
                    });
                }
                // never even executed although there was all the time in the world?
                let quiet = execs.iter().all(|e| e.end + slack < d.start || e.start > d.end);
                if quiet && d.timeout * MS > 2 * slack && ends.is_empty() {
                    rep.fail(
                        "request-lost",
                        format!("{} ended as {} without being executed", what(), ask_err(e)),
                    );
                }
            }
        }
    }
}

fn par_lossless(plan: &Plan) -> bool {
    plan.params["lossless"] == serde_json::json!(true)
}
