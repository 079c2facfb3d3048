//! C04: with replay protection, an encrypted message is accepted at most once
use super::*;
use crate::exec::in_runtime;
use crate::plan::*;
use crate::wire::*;
use crate::world::*;
use over_there::core::transport::{Decrypter, Encrypter};
use serde::{Deserialize, Serialize};
use simcore::K;
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use tokio::io::AsyncWriteExt;
use tokio::net::{TcpListener, TcpStream};

pub static PROP: Prop = Prop {
    id: "C04",
    gen,
    run,
    quick_runs: 5000,
    batch: 25,
    rule: "an attacker records genuine encrypted packets and delivers them again at once or later, from the same or other addresses and connections, and sends altered copies that carry the nonce of a genuine message ahead of it; the server's cipher is wrapped in the replay cache; every message must be executed at most once (while its nonce is among the recent ones) and, as the network loses nothing, exactly once. A second scenario decrypts the same ciphertexts on several real threads that share one cache, executed one at a time with a switch possible at every allocation and every lock, and compares with a model of the cache.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    /// threads scenario
    threads: u32,
    messages: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Tell(u32, Probe),
    Ask(u32, Probe),
    Pause(u32, u64),
    /// connect and send what was recorded so far: from, count
    Replay(u64, u64),
    /// threads: thread, message, altered
    Decrypt(u32, u32, bool),
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let kind = rng.below(3);
    let name = ["udp", "tcp", "threads"][kind as usize];
    let mut p = Plan::new("C04", name, rng);
    let mut sec = Sec::any(rng);
    sec.crypt = rng.range(1, 6) as u8;
    if kind == 2 {
        let messages = rng.range(1, 6) as u32;
        let small = rng.below(3) == 0;
        sec.cache = if small { rng.range(1, 4) as usize } else { 64 };
        let threads = if small { 1 } else { rng.range(2, 4) as u32 };
        let n = rng.range(2, if thorough { 30 } else { 14 });
        let ops: Vec<Op> = (0..n)
            .map(|_| {
                Op::Decrypt(
                    rng.below(threads as u64) as u32,
                    rng.below(messages as u64) as u32,
                    rng.below(4) == 0,
                )
            })
            .collect();
        let par = Params {
            net: Net {
                sec,
                ..Default::default()
            },
            clients: 0,
            threads,
            messages,
        };
        p.set(&par, &ops);
        let rate = *rng.pick(&[20_000, 100_000, 300_000, 700_000]);
        p.fault(K::Coop, rate);
        return p;
    }
    let clients = rng.range(1, 3) as u32;
    let n = rng.range(3, if thorough { 50 } else { 25 });
    sec.cache = if rng.below(4) == 0 {
        rng.range(10, 40) as usize
    } else {
        5000
    };
    let mut ops = vec![];
    for i in 0..n {
        let c = rng.below(clients as u64) as u32;
        let probe = Probe {
            id: (i + 1) * 1000 + rng.below(1000),
            delay: 0,
            reply: 10,
            fill: *rng.pick(&[0, 10, 100, 100, 600, 2500]),
            fail: false,
        };
        ops.push(match rng.below(10) {
            0..=5 => Op::Tell(c, probe),
            6 => Op::Ask(c, probe),
            7 => Op::Pause(c, *rng.pick(&[1, 5, 50])),
            _ => Op::Replay(rng.below(20), rng.range(1, 12)),
        });
    }
    let par = Params {
        net: Net {
            tcp: kind == 1,
            sec,
            buffer: *rng.pick(&[1, 1, 4]),
            packet_ttl: 300_000,
            ..Default::default()
        },
        clients,
        threads: 0,
        messages: 0,
    };
    p.set(&par, &ops);
    p.net.latency_us = 200;
    p.net.jitter_us = *rng.pick(&[50, 500]);
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    p.fault(K::Adversary, *rng.pick(&[50_000u32, 200_000, 500_000, 900_000]));
    p.swarm(rng, K::UdpDelay, 60, 50_000, 700_000);
    p.swarm(rng, K::UdpDup, 50, 50_000, 500_000);
    p.swarm(rng, K::TcpSplit, 40, 50_000, 500_000);
    p.swarm(rng, K::TcpShortRead, 30, 50_000, 500_000);
    p
}

fn run(plan: &Plan, rep: &Rep) {
    if plan.scenario == "threads" {
        threads(plan, rep)
    } else {
        network(plan, rep)
    }
}

#[derive(Default)]
struct Rec {
    /// packets of complete messages to the server, in order
    seen: Vec<Vec<u8>>,
    on: bool,
    replays: u64,
    altered: u64,
}
type Shared = Arc<Mutex<Rec>>;

/// What the attacker makes of one packet for the server
fn attack(rec: &mut Rec, data: &[u8], auth: bool) -> Vec<Vec<u8>> {
    rec.seen.push(data.to_vec());
    let mut out = vec![data.to_vec()];
    if !rec.on {
        return out;
    }
    let v = simcore::choose(K::Adversary, 1 << 12);
    if v == 0 {
        return out;
    }
    let mut r = Rng::new(v as u64 * 31);
    match v % 4 {
        0 => {
            for _ in 0..r.range(1, 3) {
                out.push(data.to_vec());
            }
            rec.replays += 1;
        }
        1 => {
            // some older packet again, before this one
            let i = r.below(rec.seen.len() as u64) as usize;
            let old = rec.seen[i].clone();
            let n = r.range(1, 6) as usize;
            let upto = (i + n).min(rec.seen.len() - 1);
            if i < upto {
                let mut x: Vec<Vec<u8>> = rec.seen[i..upto].to_vec();
                x.append(&mut out);
                out = x;
            } else {
                out.insert(0, old);
            }
            rec.replays += 1;
        }
        _ => {
            // same nonce, altered payload, ahead of the genuine message
            if let Some(mut p) = Pkt::parse(data) {
                if p.last() && p.metadata.index == 0 {
                    if p.data.is_empty() || r.below(4) == 0 {
                        p.data.push(7);
                    } else {
                        let i = r.below(p.data.len() as u64) as usize;
                        p.data[i] ^= 1 << r.below(8);
                    }
                    // with the same id it takes the place of the genuine packet
                    // for good, unless signatures tell the two apart
                    if r.below(2) == 0 || !auth {
                        p.metadata.id ^= r.next() as u32 | 1;
                    }
                    out.insert(0, p.bytes());
                    rec.altered += 1;
                }
            }
        }
    }
    out
}

fn network(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let net = par.net.clone();
    let clients = par.clients;
    let rec: Shared = Arc::new(Mutex::new(Rec {
        on: true,
        ..Default::default()
    }));
    let auth = net.sec.auth > 0;
    let (l2, rep2, rec2, ops2) = (log.clone(), rep.clone(), rec.clone(), ops.clone());
    let sent: Arc<Mutex<Vec<u64>>> = Default::default();
    let sent2 = sent.clone();
    in_runtime(rep, async move {
        let server = match serve(&net, &l2).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let to = if net.tcp {
            let r = rec2.clone();
            proxy(r, auth).await;
            crate::attack::proxy_addr()
        } else {
            let r = rec2.clone();
            simcore::net::set_mitm(Some(Box::new(move |w| {
                if w.to_node != SERVER {
                    return None;
                }
                Some(attack(&mut r.lock().unwrap(), &w.data, auth))
            })));
            server_addr()
        };
        let mut hs = vec![];
        for c in 0..clients {
            let mine: Vec<Op> = ops2
                .iter()
                .filter(|o| matches!(o, Op::Tell(k, _) | Op::Ask(k, _) | Op::Pause(k, _) if *k == c))
                .cloned()
                .collect();
            let net = net.clone();
            let sent = sent2.clone();
            hs.push(spawn_on(10 + c, async move {
                let mut cl = match connect_to(&net, 200, to).await {
                    Ok(c) => c,
                    Err(_) => return,
                };
                for o in mine {
                    match o {
                        Op::Tell(_, p) => {
                            if cl.tell(p.request()).await.is_ok() {
                                sent.lock().unwrap().push(p.id);
                            }
                        }
                        Op::Ask(_, p) => {
                            sent.lock().unwrap().push(p.id);
                            let _ = cl.ask(p.request()).await;
                        }
                        Op::Pause(_, n) => sleep_ms(n).await,
                        _ => {}
                    }
                }
                sleep_ms(300).await;
            }));
        }
        // replays on connections and from addresses of the attacker's own
        let mut k = 0;
        for o in ops2.iter() {
            if let Op::Replay(from, n) = o {
                sleep_ms(3).await;
                k += 1;
                let frames: Vec<Vec<u8>> = {
                    let r = rec2.lock().unwrap();
                    r.seen.iter().skip(*from as usize).take(*n as usize).cloned().collect()
                };
                if frames.is_empty() {
                    continue;
                }
                rec2.lock().unwrap().replays += 1;
                if net.tcp {
                    hs.push(spawn_on(67, async move {
                        if let Ok(mut s) = TcpStream::connect(server_addr()).await {
                            for f in frames {
                                if s.write_all(&f).await.is_err() {
                                    break;
                                }
                            }
                            sleep_ms(20).await;
                        }
                    }));
                } else {
                    let from = SocketAddr::new(simcore::net::node_ip(67 + k % 2), 5000 + k as u16);
                    for (i, f) in frames.into_iter().enumerate() {
                        simcore::net::udp_inject(from, server_addr(), f, 100_000 * (i as u64 + 1));
                    }
                }
            }
        }
        for h in hs {
            let _ = h.await;
        }
        simcore::net::set_mitm(None);
        drop(server);
    });
    let mut rep = rep.borrow_mut();
    let execs = log.lock().unwrap();
    let cache = par.net.sec.cache as u64;
    let mut at: HashMap<u64, Vec<u64>> = HashMap::new();
    for (i, e) in execs.iter().enumerate() {
        rep.check(e.valid, "foreign-request", || format!("executed something nobody sent ({} bytes)", e.raw.len()));
        at.entry(e.id).or_default().push(i as u64);
    }
    for (id, v) in &at {
        rep.checked += 1;
        for w in v.windows(2) {
            // accepted since: requests executed or waiting, and the replies' own nonces
            let since = 2 * (w[1] - w[0]) + par.net.buffer as u64 + 6;
            rep.check(since >= cache, "accepted-twice", || {
                format!("message {} executed again after at most {} newer nonces, cache size {}", id, since, cache)
            });
        }
    }
    for id in sent.lock().unwrap().iter() {
        rep.check(at.contains_key(id), "genuine-refused", || {
            format!("message {} was never executed although nothing was lost", id)
        });
    }
    let r = rec.lock().unwrap();
    rep.probe("replays", r.replays);
    rep.probe("altered copies", r.altered);
    rep.mix_state(execs.len() as u64 * 1000 + r.replays * 10 + r.altered);
}

async fn proxy(rec: Shared, auth: bool) {
    use tokio::io::AsyncReadExt;
    spawn_on(crate::attack::PROXY, async move {
        let mut l = TcpListener::bind(crate::attack::proxy_addr()).await.expect("harness: proxy");
        tokio::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                if let Ok(s) = TcpStream::connect(server_addr()).await {
                    let (mut cr, mut cw) = tokio::io::split(c);
                    let (mut sr, mut sw) = tokio::io::split(s);
                    let rec = rec.clone();
                    tokio::spawn(async move {
                        let mut buf = vec![];
                        let mut chunk = vec![0u8; 4096];
                        loop {
                            match cr.read(&mut chunk).await {
                                Ok(n) if n > 0 => buf.extend_from_slice(&chunk[..n]),
                                _ => break,
                            }
                            let (frames, used) = split(&buf);
                            buf.drain(..used);
                            for f in frames {
                                let out = attack(&mut rec.lock().unwrap(), &f, auth);
                                for o in out {
                                    if sw.write_all(&o).await.is_err() {
                                        return;
                                    }
                                }
                            }
                        }
                        let _ = sw.shutdown().await;
                    });
                    tokio::spawn(async move {
                        let mut chunk = vec![0u8; 4096];
                        loop {
                            match sr.read(&mut chunk).await {
                                Ok(n) if n > 0 => {
                                    if cw.write_all(&chunk[..n]).await.is_err() {
                                        return;
                                    }
                                }
                                _ => break,
                            }
                        }
                        let _ = cw.shutdown().await;
                    });
                }
            }
        });
    })
    .await
    .expect("harness: proxy")
}

fn threads(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let sec = par.net.sec;
    // made by another party with the same key
    let alice = Sec { cache: 0, ..sec }.crypt();
    let msgs: Vec<_> = (0..par.messages)
        .map(|i| {
            let ad = alice.new_encrypt_associated_data();
            let plain = filler(i as u64, 40);
            let data = alice.encrypt(&plain, &ad).expect("harness: encrypt");
            (ad, data, plain)
        })
        .collect();
    let bob = sec.crypt();
    // (thread, message, altered, accepted, correct)
    let results: Arc<Mutex<Vec<(u32, u32, bool, bool, bool)>>> =
        Arc::new(Mutex::new(Vec::with_capacity(ops.len() + 1)));
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..par.threads {
        let mine: Vec<(u32, bool)> = ops
            .iter()
            .filter_map(|o| match o {
                Op::Decrypt(k, m, a) if *k == t => Some((*m, *a)),
                _ => None,
            })
            .collect();
        let bob = bob.clone();
        let msgs = msgs.clone();
        let results = results.clone();
        fs.push(Box::new(move || {
            for (m, altered) in mine {
                let (ad, data, plain) = &msgs[m as usize];
                let mut d = data.clone();
                if altered {
                    let n = d.len();
                    d[(m as usize * 7) % n] ^= 4;
                }
                let r = bob.decrypt(&d, ad);
                let ok = r.is_ok();
                let good = r.map(|x| &x == plain).unwrap_or(true);
                results.lock().unwrap().push((t, m, altered, ok, good));
            }
        }));
    }
    let r = simcore::coop::run(fs, 200_000);
    let mut rep = rep.borrow_mut();
    match r {
        Ok(n) => rep.probe("thread switches", n),
        Err(e) => return rep.fail("threads-stuck", e),
    }
    let res = results.lock().unwrap();
    let mut accepted: HashMap<u32, u64> = HashMap::new();
    let mut genuine: HashMap<u32, u64> = HashMap::new();
    let mut lru: Vec<u32> = vec![];
    for (t, m, altered, ok, good) in res.iter() {
        rep.check(*good, "wrong-plaintext", || format!("message {} decrypted to something else", m));
        rep.check(!(*altered && *ok), "altered-accepted", || format!("altered message {} accepted", m));
        if !altered {
            *genuine.entry(*m).or_insert(0) += 1;
            if *ok {
                *accepted.entry(*m).or_insert(0) += 1;
            }
        }
        if par.threads == 1 && !altered {
            // one at a time: compare with the model
            let refuse = lru.iter().rev().take(sec.cache).any(|x| x == m);
            rep.check(*ok != refuse, if *ok { "accepted-twice" } else { "genuine-refused" }, || {
                format!("thread {} message {}: accepted {} but recent are {:?} of {}", t, m, ok, lru, sec.cache)
            });
            if *ok {
                lru.retain(|x| x != m);
                lru.push(*m);
            }
        }
    }
    if par.threads > 1 {
        for (m, n) in &genuine {
            let a = accepted.get(m).copied().unwrap_or(0);
            rep.mix_state(*n * 10 + a);
            rep.check(a <= 1, "accepted-twice", || format!("message {} accepted {} times by concurrent threads", m, a));
            rep.check(a >= 1, "genuine-refused", || {
                format!("message {} was presented {} times and never accepted", m, n)
            });
        }
    }
}
