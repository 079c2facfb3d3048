//! C03: altered, forged or garbage traffic is never acted on
use super::*;
use crate::attack::*;
use crate::exec::in_runtime;
use crate::plan::*;
use crate::world::*;
use over_there::core::AskError;
use serde::{Deserialize, Serialize};
use simcore::K;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C03",
    gen,
    run,
    quick_runs: 5000,
    batch: 25,
    rule: "clients with a shared key talk to the server through an attacker without the key who alters (bit flips, truncation, extension, every field replaced or spliced from recorded packets), forges (own or no key, unencrypted), reflects, replays and injects packets in both directions, over UDP in place and over TCP as a proxy; everything executed and every accepted reply must be identical to something a key holder sent; once the attack ends, every client - old and new - must be served.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
}
type Op = (u32, Probe, bool);

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C03", if tcp { "tcp" } else { "udp" }, rng);
    let mut sec = Sec::any(rng);
    match rng.below(4) {
        0 => {
            // authenticated encryption alone
            sec.auth = 0;
            sec.crypt = rng.range(1, 6) as u8;
        }
        1 => {
            sec.crypt = 0;
            sec.auth = rng.range(1, 2) as u8;
        }
        _ => sec.auth = rng.range(1, 2) as u8,
    }
    if sec.crypt > 0 && rng.below(4) == 0 {
        sec.cache = 5000;
    }
    let clients = rng.range(1, 3) as u32;
    let par = Params {
        net: Net {
            tcp,
            sec,
            buffer: *rng.pick(&[1, 8, 1000]),
            packet_ttl: *rng.pick(&[200, 2000, 300_000]),
            ..Default::default()
        },
        clients,
    };
    let n = rng.range(3, if thorough { 40 } else { 20 });
    let ops: Vec<Op> = (0..n)
        .map(|i| {
            (
                rng.below(clients as u64) as u32,
                Probe {
                    id: (i + 1) * 1000 + rng.below(1000),
                    delay: 0,
                    reply: *rng.pick(&[0, 10, 300, 1500]),
                    fill: *rng.pick(&[0, 10, 100, 700, 2500]),
                    fail: rng.below(8) == 0,
                },
                rng.below(3) > 0,
            )
        })
        .collect();
    p.set(&par, &ops);
    p.net.latency_us = 200;
    p.net.jitter_us = 200;
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    let rate = *rng.pick(&[60_000, 200_000, 500_000, 900_000]);
    p.fault(K::Adversary, rate);
    p.swarm(rng, K::UdpDelay, 30, 50_000, 500_000);
    p.swarm(rng, K::UdpDup, 20, 50_000, 500_000);
    p.swarm(rng, K::TcpSplit, 40, 50_000, 500_000);
    p.swarm(rng, K::TcpShortRead, 30, 50_000, 500_000);
    p
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let net = par.net.clone();
    let a: Shared = Arc::new(Mutex::new(Attacker::new(net.sec)));
    // without a cache, replays do get executed again, and identically so
    let (l2, rep2, a2) = (log.clone(), rep.clone(), a.clone());
    let clients = par.clients;
    let ops2 = ops.clone();
    let bad: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    let bad2 = bad.clone();
    let answered: Arc<Mutex<u64>> = Default::default();
    let answered2 = answered.clone();
    in_runtime(rep, async move {
        let server = match serve(&net, &l2).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        if net.tcp {
            proxy(&a2).await.expect("harness: proxy");
        } else {
            on_udp(&a2);
        }
        let to = if net.tcp { proxy_addr() } else { server_addr() };
        let mut hs = vec![];
        let quiet = Arc::new(tokio::sync::Barrier::new(clients as usize + 1));
        let go = Arc::new(tokio::sync::Barrier::new(clients as usize + 1));
        for c in 0..clients {
            let mine: Vec<Op> = ops2.iter().filter(|o| o.0 == c).cloned().collect();
            let net = net.clone();
            let (bad, quiet, go, answered) = (bad2.clone(), quiet.clone(), go.clone(), answered2.clone());
            hs.push(spawn_on(10 + c, async move {
                let mut cl = connect_to(&net, 60, to).await.ok();
                if let Some(cl) = cl.as_mut() {
                    for (_, p, ask) in &mine {
                        if *ask {
                            let r = cl.ask(p.request()).await;
                            match &r {
                                Ok(r) if p.fits(r) => *answered.lock().unwrap() += 1,
                                Ok(r) => bad
                                    .lock()
                                    .unwrap()
                                    .push(("foreign-reply".into(), format!("{:?} got {:.200?}", p, r))),
                                Err(AskError::Failure { msg }) if p.fail && msg.contains(&format!("fail {}", p.id)) => {}
                                Err(AskError::Failure { msg }) => {
                                    bad.lock().unwrap().push(("foreign-reply".into(), format!("{:?} failed with {}", p, msg)))
                                }
                                Err(_) => {}
                            }
                        } else {
                            let _ = tokio::time::timeout(std::time::Duration::from_millis(50), cl.tell(p.request())).await;
                        }
                    }
                }
                quiet.wait().await;
                go.wait().await;
                // the attack is over: this very client must be served again
                if let Some(cl) = cl.as_mut() {
                    cl.timeout = std::time::Duration::from_millis(300);
                    let mut ok = false;
                    let tries = if net.tcp { 14 } else { 1 };
                    for k in 0..tries {
                        let p = Probe {
                            id: 1_000_000_000 + c as u64 * 1000 + k,
                            delay: 0,
                            reply: 600,
                            fill: 600,
                            fail: false,
                        };
                        match cl.ask(p.request()).await {
                            Ok(r) if p.fits(&r) => {
                                ok = true;
                                break;
                            }
                            Ok(r) => bad.lock().unwrap().push(("foreign-reply".into(), format!("{:?} got {:.200?}", p, r))),
                            Err(_) => {}
                        }
                    }
                    if !ok {
                        bad.lock()
                            .unwrap()
                            .push(("not-served".into(), format!("client {} is not served after the attack", c)));
                    }
                }
            }));
        }
        quiet.wait().await;
        a2.lock().unwrap().on = false;
        simcore::stop_faults();
        // whatever is still in flight arrives
        sleep_ms(100).await;
        go.wait().await;
        for h in hs {
            let _ = h.await;
        }
        // a new client, too
        let net2 = net.clone();
        let bad3 = bad2.clone();
        let h = spawn_on(40, async move {
            let p = Probe {
                id: 2_000_000_000,
                delay: 0,
                reply: 600,
                fill: 600,
                fail: false,
            };
            let r = match connect(&net2, 300).await {
                Ok(mut c) => c.ask(p.request()).await.map(|r| p.fits(&r)).map_err(|e| ask_err(&e).to_string()),
                Err(e) => Err(e.to_string()),
            };
            if r != Ok(true) {
                bad3.lock().unwrap().push(("not-served".into(), format!("a new client after the attack: {:?}", r)));
            }
        });
        let _ = h.await;
        simcore::net::set_mitm(None);
        drop(server);
    });
    let mut rep = rep.borrow_mut();
    for (s, d) in bad.lock().unwrap().drain(..) {
        rep.fail(s, d);
    }
    let sent: HashMap<u64, &Probe> = ops.iter().map(|o| (o.1.id, &o.1)).collect();
    for e in log.lock().unwrap().iter() {
        let ok = e.valid && (sent.contains_key(&e.id) || (1_000_000_000..=2_000_000_000).contains(&e.id));
        rep.check(ok, "foreign-request", || {
            format!("executed something no key holder sent: id {} valid {} raw {} bytes", e.id, e.valid, e.raw.len())
        });
        if let (Some(p), true) = (sent.get(&e.id), e.valid) {
            let same = e.sum == simcore::hash_bytes(&p.encode());
            rep.check(same, "altered-request", || format!("request {} was altered", e.id));
        }
    }
    rep.probe("answered during attack", *answered.lock().unwrap());
    for (k, n) in &a.lock().unwrap().done {
        rep.probe(&format!("attack {}", k), *n);
        rep.mix_state(simcore::hash_bytes(k.as_bytes()) ^ *n);
    }
    let n = a.lock().unwrap().done.len() as u64;
    rep.checked += n;
}
