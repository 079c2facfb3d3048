//! An attacker on the network who has no key: alters, forges and injects packets.
//! Every step is a decision of the simulator, so it can be minimised and replayed.
use crate::wire::*;
use crate::world::*;
use over_there::core::transport::crypto::Nonce;
use over_there::core::transport::{Encrypter, Signer};
use over_there::core::Msg;
use simcore::rng::Rng;
use simcore::K;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub struct Attacker {
    pub seen: Vec<Vec<u8>>,
    /// another key than the real one
    pub other: Sec,
    pub sec: Sec,
    pub forged: u64,
    pub done: BTreeMap<&'static str, u64>,
    pub on: bool,
    /// attacks a replay-safe configuration: replays are part of the game
    pub replay: bool,
}
pub type Shared = Arc<Mutex<Attacker>>;

pub const FORGED_ID: u64 = 9_000_000_000;

impl Attacker {
    pub fn new(sec: Sec) -> Attacker {
        let mut other = sec;
        other.key ^= 0x5555;
        Attacker {
            seen: vec![],
            other,
            sec,
            forged: 0,
            done: BTreeMap::new(),
            on: true,
            replay: true,
        }
    }
    /// A packet that holds a well-formed request nobody sent
    fn forge(&mut self, r: &mut Rng) -> Vec<u8> {
        self.forged += 1;
        let p = Probe {
            id: FORGED_ID + self.forged,
            delay: 0,
            reply: 10,
            fill: 10,
            fail: false,
        };
        let msg = Msg::from(p.request()).to_vec().expect("harness: msg");
        let encrypt = r.below(3);
        let sec = match r.below(3) {
            0 => self.other,
            1 => Sec { auth: 0, ..self.other },
            _ => Sec { auth: 3 - self.sec.auth.max(1), ..self.other },
        };
        let c = sec.crypt();
        let (data, encryption) = match encrypt {
            0 => (msg, Encryption::None),
            _ => {
                let ad = c.new_encrypt_associated_data();
                let d = c.encrypt(&msg, &ad).unwrap_or_default();
                let e = match ad.nonce() {
                    Some(n) => Encryption::EncryptedWithNonce { nonce: *n },
                    None => Encryption::Encrypted,
                };
                (d, e)
            }
        };
        let mut k = Pkt {
            metadata: Meta {
                id: r.next() as u32,
                index: 0,
                r#type: Type::Final { encryption },
            },
            signature: Default::default(),
            data,
        };
        k.signature = sec.auth().sign(&k.signed());
        k.bytes()
    }
    fn old(&self, r: &mut Rng) -> Option<Vec<u8>> {
        if self.seen.is_empty() {
            return None;
        }
        Some(self.seen[r.below(self.seen.len() as u64) as usize].clone())
    }
    /// What becomes of one packet
    pub fn attack(&mut self, data: &[u8]) -> Option<Vec<Vec<u8>>> {
        if self.seen.len() < 400 {
            self.seen.push(data.to_vec());
        }
        if !self.on {
            return None;
        }
        let v = simcore::choose(K::Adversary, 1 << 16);
        if v == 0 {
            return None;
        }
        let mut r = Rng::new(v as u64 * 7919);
        let (name, bad) = self.alter(data, v % 18, &mut r)?;
        *self.done.entry(name).or_insert(0) += 1;
        simcore::log(|| format!("attack {}", name));
        // instead of the genuine one, before it or after it
        Some(match r.below(3) {
            0 => vec![bad],
            1 => vec![bad, data.to_vec()],
            _ => vec![data.to_vec(), bad],
        })
    }
    fn alter(&mut self, data: &[u8], what: u32, r: &mut Rng) -> Option<(&'static str, Vec<u8>)> {
        let mut d = data.to_vec();
        let p = Pkt::parse(data);
        Some(match what {
            0 | 1 => {
                for _ in 0..r.range(1, 3) {
                    let bit = r.below(d.len() as u64 * 8) as usize;
                    d[bit / 8] ^= 1 << (bit % 8);
                }
                ("bit-flip", d)
            }
            2 => {
                d.truncate(r.below(d.len() as u64) as usize);
                ("truncate", d)
            }
            3 => {
                let n = r.range(1, 40) as usize;
                d.extend(r.bytes(n));
                ("extend", d)
            }
            4 => {
                let n = r.range(1, 500) as usize;
                ("garbage", r.bytes(n))
            }
            5 => {
                let mut p = p?;
                p.metadata.id = if r.below(2) == 0 {
                    r.next() as u32
                } else {
                    Pkt::parse(&self.old(r)?)?.metadata.id
                };
                ("other-id", p.bytes())
            }
            6 => {
                let mut p = p?;
                p.metadata.index = *r.pick(&[0, 1, 2, 5, u32::MAX - 1, u32::MAX]);
                ("other-index", p.bytes())
            }
            7 => {
                let mut p = p?;
                p.metadata.r#type = match p.metadata.r#type {
                    Type::NotFinal => Type::Final {
                        encryption: *r.pick(&[Encryption::None, Encryption::Encrypted]),
                    },
                    _ => Type::NotFinal,
                };
                ("other-type", p.bytes())
            }
            8 => {
                let mut p = p?;
                p.metadata.r#type = Type::Final {
                    encryption: match r.below(4) {
                        0 => Encryption::None,
                        1 => Encryption::Encrypted,
                        2 => {
                            let mut n = [0u8; 12];
                            n.copy_from_slice(&r.bytes(12));
                            Encryption::EncryptedWithNonce {
                                nonce: Nonce::Nonce96Bits(n),
                            }
                        }
                        _ => {
                            let mut n = [0u8; 16];
                            n.copy_from_slice(&r.bytes(16));
                            Encryption::EncryptedWithNonce {
                                nonce: Nonce::Nonce128Bits(n),
                            }
                        }
                    },
                };
                ("other-nonce", p.bytes())
            }
            9 => {
                let mut p = p?;
                p.data = Pkt::parse(&self.old(r)?)?.data;
                ("spliced-data", p.bytes())
            }
            10 => {
                let mut p = p?;
                p.signature = Pkt::parse(&self.old(r)?)?.signature;
                ("spliced-signature", p.bytes())
            }
            11 => {
                let mut p = p?;
                let o = Pkt::parse(&self.old(r)?)?;
                p.metadata = o.metadata;
                ("spliced-metadata", p.bytes())
            }
            12 => {
                // change the content and sign it again, with the wrong key
                let mut p = p?;
                if !p.data.is_empty() {
                    let i = r.below(p.data.len() as u64) as usize;
                    p.data[i] ^= 1 << r.below(8);
                }
                p.signature = self.other.auth().sign(&p.signed());
                ("resigned", p.bytes())
            }
            13 => {
                // no signature at all, or a shortened one
                let mut p = p?;
                let noop = Sec { auth: 0, ..self.other };
                if r.below(2) == 0 && !p.data.is_empty() {
                    let i = r.below(p.data.len() as u64) as usize;
                    p.data[i] ^= 1;
                }
                p.metadata.id = r.next() as u32;
                p.signature = noop.auth().sign(&p.signed());
                ("unsigned", p.bytes())
            }
            14 | 15 => ("forged-request", self.forge(r)),
            16 => {
                let mut p = p?;
                let n = r.below(p.data.len() as u64 + 1) as usize;
                if r.below(2) == 0 {
                    p.data.truncate(n);
                } else {
                    p.data.extend(r.bytes(5));
                }
                ("other-length", p.bytes())
            }
            _ => {
                if !self.replay {
                    return None;
                }
                ("replayed", self.old(r)?)
            }
        })
    }
}

/// Put the attacker on all datagrams
pub fn on_udp(a: &Shared) {
    let a = a.clone();
    simcore::net::set_mitm(Some(Box::new(move |rec| {
        let mut a = a.lock().unwrap();
        let reflect = a.on && simcore::choose(K::Adversary, 64) == 1;
        if reflect {
            simcore::net::udp_inject(rec.to, rec.from, rec.data.clone(), 300_000);
            *a.done.entry("reflected").or_insert(0) += 1;
        }
        a.attack(&rec.data)
    })));
}

pub const PROXY: u32 = 66;
pub fn proxy_addr() -> SocketAddr {
    SocketAddr::new(simcore::net::node_ip(PROXY), 7000)
}

/// A man in the middle for TCP: clients that connect to it reach the server through the attacker
pub async fn proxy(a: &Shared) -> std::io::Result<()> {
    let a = a.clone();
    spawn_on(PROXY, async move {
        let mut l = TcpListener::bind(proxy_addr()).await?;
        tokio::spawn(async move {
            while let Ok((c, _)) = l.accept().await {
                if let Ok(s) = TcpStream::connect(server_addr()).await {
                    let (cr, cw) = tokio::io::split(c);
                    let (sr, sw) = tokio::io::split(s);
                    tokio::spawn(forward(cr, sw, a.clone()));
                    tokio::spawn(forward(sr, cw, a.clone()));
                }
            }
        });
        Ok(())
    })
    .await
    .expect("harness: proxy")
}

async fn forward(
    mut r: tokio::io::ReadHalf<TcpStream>,
    mut w: tokio::io::WriteHalf<TcpStream>,
    a: Shared,
) {
    let mut buf = vec![];
    let mut chunk = vec![0u8; 4096];
    loop {
        let n = match r.read(&mut chunk).await {
            Ok(n) if n > 0 => n,
            _ => break,
        };
        buf.extend_from_slice(&chunk[..n]);
        let (frames, used) = split(&buf);
        buf.drain(..used);
        for f in frames {
            let out = a.lock().unwrap().attack(&f).unwrap_or_else(|| vec![f]);
            for o in out {
                if w.write_all(&o).await.is_err() {
                    return;
                }
            }
        }
    }
    let _ = w.shutdown().await;
}
