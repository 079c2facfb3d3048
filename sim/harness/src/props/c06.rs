//! C06: TCP delivery does not depend on how the stream is cut
use super::*;
use crate::exec::in_runtime;
use crate::plan::*;
use crate::world::*;
use over_there::core::transport::{OutboundWire, NetTransmission};
use over_there::core::{AskError, Msg};
use serde::{Deserialize, Serialize};
use simcore::K;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

pub static PROP: Prop = Prop {
    id: "C06",
    gen,
    run,
    quick_runs: 5000,
    batch: 25,
    rule: "1-3 clients send bursts of messages of 1 byte to about 60 KB over TCP while the simulated network cuts and joins the stream anywhere, the operating system writes and reads less than asked for, windows are small and connections are reset at any byte (the client then connects anew); further peers write genuine packet bytes themselves, in pieces of any size with pauses, and close or reset the connection at any byte. Per connection, what the server executes must be a prefix of what was sent, in order and once each, all of it if the connection did not break; replies are checked likewise.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    raw: u32,
    /// bytes at which a raw peer ends its stream (0: after everything), and whether by a reset
    ends: Vec<(usize, bool)>,
    resets: bool,
}
/// client (raw peers follow the clients), message, ask instead of tell, pause before (ms)
type Op = (u32, Probe, bool, u64);

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let mut p = Plan::new("C06", "tcp", rng);
    let clients = rng.range(0, 2) as u32;
    let raw = if clients == 0 { 1 } else { rng.below(3) as u32 };
    let mut sec = Sec::any(rng);
    if rng.below(2) == 0 {
        sec.auth = 0;
        sec.crypt = 0;
    }
    let resets = rng.below(3) == 0;
    let par = Params {
        net: Net {
            tcp: true,
            v6: rng.below(4) == 0,
            sec,
            buffer: *rng.pick(&[1, 2, 8, 1000]),
            client_buffer: *rng.pick(&[1, 2, 8, 1000]),
            ..Default::default()
        },
        clients,
        raw,
        ends: (0..raw)
            .map(|_| {
                if rng.below(2) == 0 {
                    (0, false)
                } else {
                    (rng.range(1, 6000) as usize, rng.below(3) == 0)
                }
            })
            .collect(),
        resets,
    };
    // small windows make many steps of many bytes
    let (big, window, most) = *rng.pick(&[
        (300, 100, 30),
        (300, 1500, 50),
        (3000, 1500, 40),
        (3000, 4000, 50),
        (3000, 65536, 50),
        (60_000, 65536, 20),
    ]);
    let n = rng.range(2, if thorough { most } else { 20 });
    let ops: Vec<Op> = (0..n)
        .map(|i| {
            let reply = *rng.pick(&[1, 100, big]);
            let fill = *rng.pick(&[1, 100, 1000, big]);
            (
                rng.below((clients + raw) as u64) as u32,
                Probe {
                    id: (i + 1) * 1000 + rng.below(1000),
                    delay: 0,
                    reply: rng.below(reply) as usize,
                    fill: rng.below(fill) as usize,
                    fail: rng.below(10) == 0,
                },
                rng.below(3) == 0,
                *rng.pick(&[0, 0, 0, 0, 1, 20]),
            )
        })
        .collect();
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 500]);
    p.net.jitter_us = *rng.pick(&[10, 100, 2000]);
    p.net.window = window;
    p.swarm_sched(rng);
    p.swarm(rng, K::TcpSplit, 80, 50_000, 1_000_000);
    p.swarm(rng, K::TcpDelay, 50, 50_000, 900_000);
    p.swarm(rng, K::TcpShortWrite, 60, 50_000, 900_000);
    p.swarm(rng, K::TcpShortRead, 60, 50_000, 900_000);
    if resets {
        p.swarm(rng, K::TcpReset, 100, 1_000, 40_000);
    }
    p.fault(K::Adversary, *rng.pick(&[50_000, 400_000, 900_000]));
    p.max_steps = 2_000_000;
    p
}

#[derive(Clone, Debug)]
struct Sent {
    conn: (u32, u32),
    id: u64,
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    // messages in the order of sending, per connection; and whether that connection broke
    let sent: Arc<Mutex<Vec<Sent>>> = Default::default();
    let broke: Arc<Mutex<HashMap<(u32, u32), bool>>> = Default::default();
    let bad: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    let (l2, rep2, s2, br2, bad2) = (log.clone(), rep.clone(), sent.clone(), broke.clone(), bad.clone());
    let par2 = par.clone();
    let ops2 = ops.clone();
    in_runtime(rep, async move {
        let par = par2;
        let net = par.net.clone();
        let server = match serve(&net, &l2).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let mut hs = vec![];
        for c in 0..par.clients {
            let mine: Vec<Op> = ops2.iter().filter(|o| o.0 == c).cloned().collect();
            let (net, sent, broke, bad, resets) = (net.clone(), s2.clone(), br2.clone(), bad2.clone(), par.resets);
            hs.push(spawn_on(10 + c, async move {
                let mut conn = 0;
                let mut cl = None;
                let mut at = 0;
                // with resets, each message gets a few attempts, as a new message each
                while at < mine.len() && conn < 30 {
                    if cl.is_none() {
                        conn += 1;
                        cl = connect(&net, 600_000).await.ok();
                        if cl.is_none() && !resets {
                            bad.lock().unwrap().push(("connect-failed".into(), format!("client {}", c)));
                        }
                        continue;
                    }
                    let (_, p, ask, wait) = &mine[at];
                    at += 1;
                    if *wait > 0 {
                        sleep_ms(*wait).await;
                    }
                    let k = (c, conn);
                    sent.lock().unwrap().push(Sent { conn: k, id: p.id });
                    let x = cl.as_mut().unwrap();
                    let r = if *ask {
                        x.ask(p.request()).await.map(Some)
                    } else {
                        x.tell(p.request()).await.map(|_| None).map_err(|_| AskError::SendFailed)
                    };
                    simcore::log(|| format!("client {} conn {} id {} -> {}", c, conn, p.id, match &r {
                        Ok(_) => "ok",
                        Err(e) => ask_err(e),
                    }));
                    match r {
                        Ok(None) => {}
                        Ok(Some(r)) => {
                            if !p.fits(&r) {
                                bad.lock().unwrap().push(("foreign-reply".into(), format!("{:?} got {:.100?}", p, r)));
                            }
                        }
                        Err(AskError::Failure { msg }) if p.fail && msg.contains(&format!("fail {}", p.id)) => {}
                        Err(e) => {
                            if !resets {
                                bad.lock().unwrap().push(("reply-lost".into(), format!("{:?} ended as {}", p, ask_err(&e))));
                            }
                            broke.lock().unwrap().insert(k, true);
                            cl = None;
                        }
                    }
                }
                // all that was told is executed meanwhile
                sleep_ms(600_000).await;
                drop(cl);
            }));
        }
        for c in 0..par.raw {
            let me = par.clients + c;
            let mine: Vec<Op> = ops2.iter().filter(|o| o.0 == me).cloned().collect();
            let (net, sent, broke) = (net.clone(), s2.clone(), br2.clone());
            let (end, reset) = par.ends[c as usize];
            hs.push(spawn_on(10 + me, async move {
                let k = (me, 1);
                let s = match TcpStream::connect(net.addr()).await {
                    Ok(s) => s,
                    Err(_) => return,
                };
                let id = s.local_addr().ok().and_then(simcore::net::tcp_conn_by_addr);
                let mut w = OutboundWire::new(NetTransmission::TcpEthernet.size(), net.sec.auth(), net.sec.crypt());
                let mut bytes: Vec<u8> = vec![];
                for (_, p, _, _) in &mine {
                    let m = Msg::from(p.request()).to_vec().expect("harness: msg");
                    for k in w.process(&m).expect("harness: packets") {
                        bytes.extend(k);
                    }
                    // anything sent whole must be executed, the rest must not
                    if end == 0 || bytes.len() <= end {
                        sent.lock().unwrap().push(Sent { conn: k, id: p.id });
                    }
                }
                if end > 0 {
                    bytes.truncate(end);
                }
                let (mut rd, mut wr) = tokio::io::split(s);
                // replies are read and ignored
                let h = tokio::spawn(async move {
                    let mut b = vec![0u8; 2000];
                    while let Ok(n) = rd.read(&mut b).await {
                        if n == 0 {
                            break;
                        }
                    }
                    rd
                });
                let mut at = 0;
                while at < bytes.len() {
                    let left = bytes.len() - at;
                    let n = match simcore::choose(K::Adversary, 40) as usize {
                        0 => left.min(3000),
                        x if x < 20 => x.min(left),
                        x => ((x - 19) * 70).min(left),
                    };
                    if wr.write_all(&bytes[at..at + n]).await.is_err() {
                        broke.lock().unwrap().insert(k, true);
                        return;
                    }
                    at += n;
                    match simcore::choose(K::Adversary, 12) {
                        x @ 1..=3 => sleep_ms(x as u64).await,
                        4 => sleep_ms(40).await,
                        _ => {}
                    }
                }
                if reset {
                    broke.lock().unwrap().insert(k, true);
                    if let Some(id) = id {
                        simcore::net::tcp_reset(id);
                    }
                } else {
                    let _ = wr.shutdown().await;
                }
                sleep_ms(600_000).await;
                drop(h.await);
            }));
        }
        for h in hs {
            let _ = h.await;
        }
        drop(server);
    });

    let mut rep = rep.borrow_mut();
    for (s, d) in bad.lock().unwrap().drain(..) {
        rep.fail(s, d);
    }
    let sent = sent.lock().unwrap();
    let broke = broke.lock().unwrap();
    let execs = log.lock().unwrap();
    let by_id: HashMap<u64, &Op> = ops.iter().map(|o| (o.1.id, o)).collect();
    let conn_of: HashMap<u64, (u32, u32)> = sent.iter().map(|s| (s.id, s.conn)).collect();
    for e in execs.iter() {
        let whole = e.valid && by_id.get(&e.id).map_or(false, |o| e.sum == simcore::hash_bytes(&o.1.encode()));
        rep.check(whole, "foreign-message", || {
            format!("executed something nobody sent: id {} valid {} ({} bytes)", e.id, e.valid, e.raw.len())
        });
        rep.check(!whole || conn_of.contains_key(&e.id), "partial-message", || {
            format!("message {} was executed although it was never sent whole", e.id)
        });
    }
    let mut conns: Vec<(u32, u32)> = sent.iter().map(|s| s.conn).collect();
    conns.sort();
    conns.dedup();
    for c in conns {
        let want: Vec<u64> = sent.iter().filter(|s| s.conn == c).map(|s| s.id).collect();
        let got: Vec<u64> = execs
            .iter()
            .filter(|e| conn_of.get(&e.id) == Some(&c))
            .map(|e| e.id)
            .collect();
        rep.mix_state(got.len() as u64 * 31 + want.len() as u64);
        let prefix = got.len() <= want.len() && got[..] == want[..got.len()];
        rep.check(prefix, "not-in-order", || {
            format!("connection {:?}: sent {:?}, executed {:?}", c, want, got)
        });
        if par.resets || broke.contains_key(&c) {
            rep.probe("broken connections", 1);
        } else {
            rep.check(got.len() == want.len(), "message-lost", || {
                format!("connection {:?}: sent {:?}, executed {:?}", c, want, got)
            });
        }
    }
}
