//! C02: a message arrives whole and unchanged, or not at all
use super::*;
use crate::exec::in_runtime;
use crate::plan::*;
use crate::wire::Pkt;
use crate::world::*;
use serde::{Deserialize, Serialize};
use simcore::K;
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;

pub static PROP: Prop = Prop {
    id: "C02",
    gen,
    run,
    quick_runs: 5000,
    batch: 25,
    rule: "1-4 UDP clients send self-describing messages of 1 to ~25 packets at once; the network loses, repeats, delays (also beyond the packet lifetime) and reorders single packets; from the arrival time of every packet the oracle computes which messages must have been delivered (all packets within the lifetime), which must not (never all within one lifetime), and compares with what the server executed, byte by byte; replies are checked the same way by the clients.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    dup: bool,
}
/// client, wait before (ms), message, ask instead of tell
type Op = (u32, u64, Probe, bool);

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let mut p = Plan::new("C02", "udp", rng);
    let mut sec = Sec::any(rng);
    if rng.below(2) == 0 {
        sec.auth = 0;
        sec.crypt = 0;
    }
    let clients = rng.range(1, 4) as u32;
    let ttl = *rng.pick(&[30, 100, 500, 3000]);
    let dup = rng.below(3) > 0;
    let par = Params {
        net: Net {
            sec,
            packet_ttl: ttl,
            buffer: *rng.pick(&[1, 8, 1000]),
            client_buffer: 1000,
            ..Default::default()
        },
        clients,
        dup,
    };
    let n = rng.range(2, if thorough { 40 } else { 16 });
    let mut ops: Vec<Op> = vec![];
    for i in 0..n {
        let c = rng.below(clients as u64) as u32;
        let fill = *rng.pick(&[0, 100, 300, 400, 460, 500, 700, 900, 1500, 3000, 9000]) + rng.below(60) as usize;
        ops.push((
            c,
            *rng.pick(&[0, 0, 0, 1, ttl / 3, ttl, 2 * ttl]),
            Probe {
                id: (i + 1) * 1000 + rng.below(1000),
                delay: 0,
                reply: *rng.pick(&[0, 100, 400, 1000, 4000]),
                fill,
                fail: false,
            },
            rng.below(5) == 0,
        ));
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[50, 500, 3000]);
    // the longest delays are about 8 (often) and 85 to 101 (seldom) times the jitter
    p.net.jitter_us = (ttl * 1000 / *rng.pick(&[2, 8, 20, 90, 120])).max(10);
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    p.swarm(rng, K::UdpDelay, 90, 50_000, 900_000);
    if dup {
        p.swarm(rng, K::UdpDup, 90, 20_000, 600_000);
    }
    p.swarm(rng, K::UdpDrop, 50, 5_000, 200_000);
    p.swarm(rng, K::UdpSendBlock, 20, 20_000, 300_000);
    p
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let (net, l2, rep2) = (par.net.clone(), log.clone(), rep.clone());
    let clients = par.clients;
    let ops2 = ops.clone();
    simcore::with(|s| s.net.record = true);
    let asked: std::sync::Arc<std::sync::Mutex<Vec<(usize, bool)>>> = Default::default();
    let a2 = asked.clone();
    in_runtime(rep, async move {
        let server = match serve(&net, &l2).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let mut hs = vec![];
        for c in 0..clients {
            let mine: Vec<(usize, Op)> =
                ops2.iter().cloned().enumerate().filter(|(_, o)| o.0 == c).collect();
            let net = net.clone();
            let asked = a2.clone();
            hs.push(spawn_on(10 + c, async move {
                let mut cl = match connect(&net, 50 + 2 * net.packet_ttl).await {
                    Ok(c) => c,
                    Err(_) => return,
                };
                for (i, (_, wait, p, ask)) in mine {
                    sleep_ms(wait).await;
                    if ask {
                        let r = cl.ask(p.request()).await;
                        if let Ok(r) = r {
                            let ok = p.fits(&r);
                            simcore::log(|| format!("op {} answered, fits: {}", i, ok));
                            asked.lock().unwrap().push((i, ok));
                        }
                    } else {
                        let _ = cl.tell(p.request()).await;
                    }
                }
                sleep_ms(100 + 5 * net.packet_ttl).await;
            }));
        }
        for h in hs {
            let _ = h.await;
        }
        drop(server);
    });

    let mut rep = rep.borrow_mut();
    let ttl = par.net.packet_ttl * MS;
    let margin = 6 * MS;
    let execs = log.lock().unwrap();
    let by_id: HashMap<u64, &Op> = ops.iter().map(|o| (o.2.id, o)).collect();
    let mut count: HashMap<u64, u64> = HashMap::new();
    for e in execs.iter() {
        let known = e.valid && by_id.contains_key(&e.id);
        rep.check(known, "foreign-message", || {
            format!("executed something nobody sent: id {} valid {} ({} bytes)", e.id, e.valid, e.raw.len())
        });
        if let (Some(o), true) = (by_id.get(&e.id), e.valid) {
            let same = e.sum == simcore::hash_bytes(&o.2.encode());
            rep.check(same, "altered-message", || format!("message {} was altered", e.id));
        }
        *count.entry(e.id).or_insert(0) += 1;
    }
    for (i, ok) in asked.lock().unwrap().iter() {
        rep.check(*ok, "foreign-reply", || format!("op {} got a reply that is not its own", i));
    }
    // messages in the order of their first packets, per client, are its operations in order
    let (wire, arrivals) =
        simcore::with(|s| (std::mem::take(&mut s.net.wire), std::mem::take(&mut s.net.arrivals)));
    let srv = server_addr();
    let mut groups: BTreeMap<u32, Vec<(u32, SocketAddr)>> = BTreeMap::new();
    for r in wire.iter().filter(|r| r.to == srv) {
        if let Some(p) = Pkt::parse(&r.data) {
            let g = groups.entry(r.from_node).or_default();
            if !g.iter().any(|x| x.0 == p.metadata.id) {
                g.push((p.metadata.id, r.from));
            }
        } else {
            rep.fail("unparsable-packet", format!("{} bytes to the server", r.data.len()));
        }
    }
    let mut arr: HashMap<u32, Vec<(u64, Pkt)>> = HashMap::new();
    for r in arrivals.iter().filter(|r| r.to == srv) {
        if let Some(p) = Pkt::parse(&r.data) {
            arr.entry(p.metadata.id).or_default().push((r.at, p));
        }
    }
    for c in 0..par.clients {
        let mine: Vec<&Op> = ops.iter().filter(|o| o.0 == c).collect();
        let gs = groups.remove(&(10 + c)).unwrap_or_default();
        if gs.len() > mine.len() {
            rep.fail("packet-group", format!("client {} sent {} messages as {} groups", c, mine.len(), gs.len()));
            continue;
        }
        for (o, (gid, _)) in mine.iter().zip(&gs) {
            let none = vec![];
            let a = arr.get(gid).unwrap_or(&none);
            let last = a.iter().find(|x| x.1.last()).map(|x| x.1.metadata.index);
            let n = count.get(&o.2.id).copied().unwrap_or(0);
            let full = |from: u64, to: u64| {
                last.map(|l| {
                    (0..=l).all(|k| a.iter().any(|x| x.1.metadata.index == k && x.0 >= from && x.0 <= to))
                })
                .unwrap_or(false)
            };
            let first = a.iter().map(|x| x.0).min().unwrap_or(0);
            // every packet came within one lifetime, counted from the first packet
            let must = full(first, (first + ttl).saturating_sub(margin));
            // at no time all packets came within one lifetime
            let may = a.iter().any(|x| full(x.0, x.0 + ttl + margin));
            rep.mix_state(a.len() as u64 * 4 + must as u64 * 2 + may as u64);
            if must {
                rep.probe("complete in time", 1);
                rep.check(n >= 1, "message-lost", || {
                    format!("all packets of message {} of client {} arrived in time, yet it was not delivered", o.2.id, c)
                });
            }
            if !may {
                rep.probe("never complete in time", 1);
                rep.check(n == 0, "assembled-incomplete", || {
                    format!("message {} of client {} was delivered although its packets did not all arrive within the lifetime", o.2.id, c)
                });
            }
            if !par.dup {
                rep.check(n <= 1, "delivered-twice", || {
                    format!("message {} of client {} was delivered {} times on a network that repeats nothing", o.2.id, c, n)
                });
            }
        }
    }
}
