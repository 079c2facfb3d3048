//! C05: any message size gets through a healthy network, in packets that fit
use super::*;
use crate::exec::in_runtime;
use crate::plan::*;
use crate::world::*;
use over_there::core::transport::auth::Digest;
use over_there::core::transport::crypto::{AssociatedData, CryptError, Nonce};
use over_there::core::transport::{Encrypter, InboundWire, NetTransmission, OutboundWire, Signer, Verifier};
use serde::{Deserialize, Serialize};
use simcore::K;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub static PROP: Prop = Prop {
    id: "C05",
    gen,
    run,
    quick_runs: 4000,
    batch: 20,
    rule: "either a client and server on a network that loses nothing (UDP over IPv4 and IPv6, TCP), exchanging requests and replies of 0 bytes to about 300 KB, mostly near the sizes at which a further packet is needed, where every recorded datagram and every packet in the recorded streams is measured and every request must be answered; or the packet processors alone with nonces and signatures of extreme encoded sizes and a reordering network between them.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    /// wire scenario: the transmission size
    size: usize,
    seed: u64,
}
/// Request: filler of the request, of the reply, ask instead of tell.
/// Wire: payload, nonce bytes, signature bytes
type Op = (usize, usize, bool);

fn size(rng: &mut Rng, limit: usize, big: usize) -> usize {
    match rng.below(10) {
        0 => rng.below(30) as usize,
        1..=4 => {
            // around a multiple of what one packet carries
            let k = rng.range(1, 4) as usize;
            let over = rng.range(20, 260) as usize;
            (k * limit).saturating_sub(over * k) + rng.below(12) as usize
        }
        5..=7 => rng.below(limit as u64 * 3) as usize,
        8 => rng.below(20_000) as usize,
        _ => rng.below(big as u64) as usize,
    }
}

fn gen(rng: &mut Rng, idx: u64, thorough: bool) -> Plan {
    if idx % 3 == 2 {
        return gen_wire(rng, thorough);
    }
    let tcp = rng.below(2) == 0;
    let v6 = rng.below(2) == 0;
    let mut p = Plan::new("C05", if tcp { "tcp" } else { "udp" }, rng);
    let par = Params {
        net: Net {
            tcp,
            v6,
            sec: Sec::any(rng),
            buffer: *rng.pick(&[1, 8, 1000]),
            client_buffer: *rng.pick(&[1, 8, 1000]),
            ..Default::default()
        },
        size: 0,
        seed: 0,
    };
    let limit = limit(&par.net);
    let big = if rng.below(20) == 0 { 300_000 } else { 8_000 };
    let n = rng.range(1, if thorough { 30 } else { 10 });
    let ops: Vec<Op> = (0..n)
        .map(|_| (size(rng, limit, big), size(rng, limit, big), rng.below(4) > 0))
        .collect();
    p.set(&par, &ops);
    p.net.jitter_us = *rng.pick(&[10, 300, 2000]);
    p.net.window = *rng.pick(&[3000, 65536]);
    p.net.udp_queue = 1 << 20;
    p.swarm_sched(rng);
    p.swarm(rng, K::UdpDelay, 60, 50_000, 900_000);
    p.swarm(rng, K::UdpSendBlock, 20, 20_000, 300_000);
    p.swarm(rng, K::TcpSplit, 40, 50_000, 900_000);
    p.swarm(rng, K::TcpShortWrite, 30, 50_000, 500_000);
    p.swarm(rng, K::TcpShortRead, 30, 50_000, 500_000);
    p
}

fn gen_wire(rng: &mut Rng, thorough: bool) -> Plan {
    let mut p = Plan::new("C05", "wire", rng);
    // those of the transports, and any other a wire is made with
    let limit = match rng.below(8) {
        0 => NetTransmission::TcpEthernet.size(),
        1 => NetTransmission::TcpDialup.size(),
        2 => NetTransmission::UdpIpv4.size(),
        3 => NetTransmission::UdpIpv6.size(),
        _ => rng.range(130, 600) as usize,
    };
    let par = Params {
        net: Net {
            sec: Sec::any(rng),
            ..Default::default()
        },
        size: limit,
        seed: rng.below(1 << 40),
    };
    let n = rng.range(1, if thorough { 150 } else { 60 });
    let extreme = rng.below(4) > 0;
    let ops: Vec<Op> = (0..n)
        .map(|_| {
            let mode = if extreme { rng.below(4) } else { 0 };
            (size(rng, limit, 12_000).max(1), mode as usize, rng.below(2) == 0)
        })
        .collect();
    p.set(&par, &ops);
    let f = *rng.pick(&[0, 100_000, 800_000]);
    p.fault(K::UdpDelay, f);
    p
}

fn limit(n: &Net) -> usize {
    match (n.tcp, n.v6) {
        (true, _) => 1500,
        (_, true) => 1212,
        _ => 508,
    }
}
fn run(plan: &Plan, rep: &Rep) {
    match plan.scenario.as_str() {
        "wire" => run_wire(plan, rep),
        _ => run_net(plan, rep),
    }
}

fn run_net(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let done: Arc<Mutex<Vec<(usize, Result<bool, String>)>>> = Default::default();
    let (d2, l2, net, rep2) = (done.clone(), log.clone(), par.net.clone(), rep.clone());
    let probes: Vec<Probe> = ops
        .iter()
        .enumerate()
        .map(|(i, o)| Probe {
            id: plan.entropy * 100 + i as u64 + 1,
            delay: 0,
            reply: o.1,
            fill: o.0,
            fail: false,
        })
        .collect();
    let pr = probes.clone();
    let ops2 = ops.clone();
    simcore::with(|s| s.net.record = true);
    in_runtime(rep, async move {
        let server = match serve(&net, &l2).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let h = spawn_on(10, async move {
            let mut c = match connect(&net, 60_000).await {
                Ok(c) => c,
                Err(e) => {
                    d2.lock().unwrap().push((0, Err(format!("connect: {}", e))));
                    return;
                }
            };
            for (i, o) in ops2.iter().enumerate() {
                if o.2 {
                    let r = c.ask(pr[i].request()).await;
                    let r = match r {
                        Ok(r) => Ok(pr[i].fits(&r)),
                        Err(e) => Err(ask_err(&e).to_string()),
                    };
                    d2.lock().unwrap().push((i, r));
                } else if c.tell(pr[i].request()).await.is_err() {
                    d2.lock().unwrap().push((i, Err("tell".into())));
                }
            }
            sleep_ms(5_000).await;
        });
        let _ = h.await;
        drop(server);
    });
    let mut rep = rep.borrow_mut();
    for (i, r) in done.lock().unwrap().iter() {
        let what = || format!("request {}: {:?}", i, ops.get(*i));
        match r {
            Ok(true) => rep.checked += 1,
            Ok(false) => rep.fail("wrong-reply", what()),
            Err(e) => rep.fail("not-delivered", format!("{} ended as {}", what(), e)),
        }
    }
    let execs = log.lock().unwrap();
    for (i, p) in probes.iter().enumerate() {
        let n = execs
            .iter()
            .filter(|e| e.valid && e.id == p.id && e.sum == simcore::hash_bytes(&p.encode()))
            .count();
        rep.check(n == 1, "not-delivered", || format!("request {} {:?} executed {} times", i, ops[i], n));
    }
    let limit = limit(&par.net);
    let wire = simcore::with(|s| std::mem::take(&mut s.net.wire));
    let mut streams: BTreeMap<(usize, u32), Vec<u8>> = BTreeMap::new();
    let mut max = 0;
    for r in wire.iter() {
        if r.tcp {
            streams.entry((r.conn, r.from_node)).or_default().extend(&r.data);
        } else {
            max = max.max(r.data.len());
            rep.check(r.data.len() <= limit, "packet-too-large", || {
                format!("datagram of {} bytes, the transmission size is {}", r.data.len(), limit)
            });
        }
    }
    for ((c, n), b) in streams {
        let (pkts, used) = crate::wire::split(&b);
        rep.check(used == b.len(), "stream-not-packets", || {
            format!("connection {} from node {}: {} of {} bytes are packets", c, n, used, b.len())
        });
        for k in pkts {
            max = max.max(k.len());
            rep.check(k.len() <= limit, "packet-too-large", || {
                format!("packet of {} bytes, the transmission size is {}", k.len(), limit)
            });
        }
    }
    if max + 2 >= limit {
        rep.probe("packets that fill the transmission size", 1);
    }
    rep.mix_state(max as u64);
    for o in &ops {
        rep.mix_state((o.0 * 7 + o.1) as u64);
    }
}

// ---- the processors with extreme nonces and signatures ----

#[derive(Clone)]
struct Next(Arc<Mutex<(usize, bool, Rng)>>);
fn extreme(mode: usize, rng: &mut Rng, n: usize) -> Vec<u8> {
    match mode {
        1 => vec![0xff; n],
        2 => vec![0; n],
        3 => {
            let k = rng.below(n as u64 + 1) as usize;
            (0..n).map(|i| if i < k { 200 } else { 3 }).collect()
        }
        _ => rng.bytes(n),
    }
}
#[derive(Clone)]
struct ExtremeSigner {
    inner: Auth,
    next: Next,
}
impl Signer for ExtremeSigner {
    fn sign(&self, m: &[u8]) -> Digest {
        let mut g = self.next.0.lock().unwrap();
        let mode = g.0;
        if mode == 0 {
            return self.inner.sign(m);
        }
        // a signature is as good as random: any bytes can occur
        let n = self.inner.sign(m).digest().len();
        let b = extreme(mode, &mut g.2, n);
        if n == 64 {
            let mut a = [0u8; 64];
            a.copy_from_slice(&b);
            Digest::try_from(a).expect("harness: digest")
        } else {
            let mut a = [0u8; 32];
            a.copy_from_slice(&b);
            Digest::try_from(a).expect("harness: digest")
        }
    }
}
struct Any;
impl Verifier for Any {
    fn verify(&self, _: &[u8], _: &Digest) -> bool {
        true
    }
}
struct ExtremeNonce {
    inner: Crypt,
    next: Next,
}
impl Encrypter for ExtremeNonce {
    fn encrypt(&self, b: &[u8], ad: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.inner.encrypt(b, ad)
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        let ad = self.inner.new_encrypt_associated_data();
        let mut g = self.next.0.lock().unwrap();
        let mode = if g.1 { g.0 } else { 0 };
        match (ad.nonce().copied(), mode) {
            (None, _) | (_, 0) => ad,
            (Some(Nonce::Nonce96Bits(_)), m) => {
                let mut a = [0u8; 12];
                a.copy_from_slice(&extreme(m, &mut g.2, 12));
                AssociatedData::from(Nonce::from(a))
            }
            (Some(Nonce::Nonce128Bits(_)), m) => {
                let mut a = [0u8; 16];
                a.copy_from_slice(&extreme(m, &mut g.2, 16));
                AssociatedData::from(Nonce::from(a))
            }
        }
    }
}

fn run_wire(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let limit = par.size;
    let next = Next(Arc::new(Mutex::new((0, false, Rng::new(par.seed)))));
    let sec = par.net.sec;
    let mut out = OutboundWire::new(
        limit,
        ExtremeSigner {
            inner: sec.auth(),
            next: next.clone(),
        },
        ExtremeNonce {
            inner: sec.crypt(),
            next: next.clone(),
        },
    );
    let mut inp = InboundWire::new(limit, Duration::from_secs(300), Any, sec.crypt());
    let mut rep = rep.borrow_mut();
    for (i, (n, mode, nonce)) in ops.iter().enumerate() {
        {
            let mut g = next.0.lock().unwrap();
            g.0 = *mode;
            g.1 = *nonce;
        }
        let msg = filler(par.seed ^ i as u64, *n);
        let pkts = match out.process(&msg) {
            Ok(p) => p,
            Err(e) => {
                // there need not be room for anything in a small packet
                if limit >= 508 {
                    rep.fail("not-delivered", format!("message {} of {} bytes: {:?}", i, n, e));
                }
                continue;
            }
        };
        for k in &pkts {
            rep.check(k.len() <= limit, "packet-too-large", || {
                format!("message {} of {} bytes: packet of {} bytes, limit {}", i, n, k.len(), limit)
            });
        }
        simcore::log(|| format!("message {} {} bytes -> {:?}", i, n, pkts.iter().map(|k| k.len()).collect::<Vec<_>>()));
        rep.mix_state(pkts.len() as u64);
        // any order
        let mut order: Vec<usize> = (0..pkts.len()).collect();
        for a in (1..order.len()).rev() {
            let b = a as u32 - simcore::choose(K::UdpDelay, a as u32 + 1);
            order.swap(a, b as usize);
        }
        let mut got = vec![];
        for (at, k) in order.iter().enumerate() {
            match inp.process(&pkts[*k]) {
                Ok(Some(m)) => got.push((at, m)),
                Ok(None) => {}
                Err(e) => rep.fail("not-delivered", format!("message {} of {} bytes: {:?}", i, n, e)),
            }
        }
        let ok = got.len() == 1 && got[0].0 == pkts.len() - 1 && got[0].1 == msg;
        rep.check(ok, "not-delivered", || {
            format!("message {} of {} bytes in {} packets came out {} times", i, n, pkts.len(), got.len())
        });
    }
}
