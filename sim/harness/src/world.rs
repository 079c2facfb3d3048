//! Building blocks of scenarios: configurations, servers, clients, a custom
//! request that shows which request a reply belongs to, and hostile peers.
use over_there::core::transport::auth::{Digest, NoopAuthenticator, Sha256Authenticator, Sha512Authenticator};
use over_there::core::transport::crypto::nonce::cache::NonceCacheBicrypter;
use over_there::core::transport::crypto::{
    Aes128GcmBicrypter, Aes128GcmSivBicrypter, Aes128SivBicrypter, Aes256GcmBicrypter, Aes256GcmSivBicrypter,
    Aes256SivBicrypter, AssociatedData, CryptError, NoopBicrypter,
};
use over_there::core::transport::{
    Authenticator, Bicrypter, Decrypter, Encrypter, NetTransmission, OutboundWire, Signer, Verifier, Wire,
};
use over_there::core::{
    reply, request, AddrEventManager, AskError, ClientBuilder, ConnectedClient, EventManager, ListeningServer, Msg, Reply,
    Request, ServerBuilder, Transport,
};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use std::future::Future;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::{TcpStream, UdpSocket};
use tokio::sync::mpsc;
use tokio::task::JoinHandle;

pub use simcore::MS;

// ---------- keys ----------

#[derive(Serialize, Deserialize, Clone, Copy, Debug, Default, PartialEq)]
pub struct Sec {
    /// 0 none, 1 SHA-256, 2 SHA-512
    pub auth: u8,
    /// 0 none, 1..6 the AES variants
    pub crypt: u8,
    /// size of the replay cache, 0 for no cache
    pub cache: usize,
    pub key: u64,
}
impl Sec {
    pub fn any(rng: &mut Rng) -> Sec {
        Sec {
            auth: *rng.pick(&[0, 1, 1, 2]),
            crypt: *rng.pick(&[0, 0, 1, 2, 3, 4, 5, 6]),
            cache: 0,
            key: rng.below(1 << 20),
        }
    }
    pub fn keybytes(&self, salt: u8, n: usize) -> Vec<u8> {
        Rng::new(self.key ^ ((salt as u64) << 56)).bytes(n)
    }
    pub fn auth(&self) -> Auth {
        let k = self.keybytes(1, 32);
        match self.auth {
            0 => Auth::Noop(NoopAuthenticator),
            1 => Auth::S256(Sha256Authenticator::new(&k)),
            _ => Auth::S512(Sha512Authenticator::new(&k)),
        }
    }
    fn plain(&self) -> Plain {
        let k = self.keybytes(2, 64);
        let mut k16 = [0u8; 16];
        k16.copy_from_slice(&k[..16]);
        let mut k32 = [0u8; 32];
        k32.copy_from_slice(&k[..32]);
        let mut k64 = [0u8; 64];
        k64.copy_from_slice(&k[..64]);
        match self.crypt {
            0 => Plain::Noop(NoopBicrypter),
            1 => Plain::G128(Aes128GcmBicrypter::new(&k16)),
            2 => Plain::G256(Aes256GcmBicrypter::new(&k32)),
            3 => Plain::GS128(Aes128GcmSivBicrypter::new(&k16)),
            4 => Plain::GS256(Aes256GcmSivBicrypter::new(&k32)),
            5 => Plain::S128(Again::new(move || Aes128SivBicrypter::new(&k32))),
            _ => Plain::S256(Again::new(move || Aes256SivBicrypter::new(&k64))),
        }
    }
    pub fn crypt(&self) -> Crypt {
        if self.cache > 0 {
            Crypt::Cached(NonceCacheBicrypter::new(self.plain(), self.cache))
        } else {
            Crypt::Plain(self.plain())
        }
    }
}

#[derive(Clone)]
pub enum Auth {
    Noop(NoopAuthenticator),
    S256(Sha256Authenticator),
    S512(Sha512Authenticator),
}
/// `derive_builder` asks for it
impl Default for Auth {
    fn default() -> Self {
        Auth::Noop(NoopAuthenticator)
    }
}
impl Default for Crypt {
    fn default() -> Self {
        Crypt::Plain(Plain::Noop(NoopBicrypter))
    }
}
impl Authenticator for Auth {}
impl Signer for Auth {
    fn sign(&self, m: &[u8]) -> Digest {
        match self {
            Auth::Noop(a) => a.sign(m),
            Auth::S256(a) => a.sign(m),
            Auth::S512(a) => a.sign(m),
        }
    }
}
impl Verifier for Auth {
    fn verify(&self, m: &[u8], s: &Digest) -> bool {
        match self {
            Auth::Noop(a) => a.verify(m, s),
            Auth::S256(a) => a.verify(m, s),
            Auth::S512(a) => a.verify(m, s),
        }
    }
}

#[derive(Clone)]
pub enum Plain {
    Noop(NoopBicrypter),
    G128(Aes128GcmBicrypter),
    G256(Aes256GcmBicrypter),
    GS128(Aes128GcmSivBicrypter),
    GS256(Aes256GcmSivBicrypter),
    S128(Again<Aes128SivBicrypter>),
    S256(Again<Aes256SivBicrypter>),
}
/// A cipher that is not `Clone` is made again from its key
pub struct Again<T> {
    make: Arc<dyn Fn() -> T + Send + Sync>,
    inner: T,
}
impl<T> Again<T> {
    fn new(f: impl Fn() -> T + Send + Sync + 'static) -> Self {
        let inner = f();
        Again {
            make: Arc::new(f),
            inner,
        }
    }
}
impl<T> Clone for Again<T> {
    fn clone(&self) -> Self {
        Again {
            make: self.make.clone(),
            inner: (self.make)(),
        }
    }
}
macro_rules! each {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            Plain::Noop($a) => $e,
            Plain::G128($a) => $e,
            Plain::G256($a) => $e,
            Plain::GS128($a) => $e,
            Plain::GS256($a) => $e,
            Plain::S128(Again { inner: $a, .. }) => $e,
            Plain::S256(Again { inner: $a, .. }) => $e,
        }
    };
}
impl Bicrypter for Plain {}
impl Encrypter for Plain {
    fn encrypt(&self, b: &[u8], ad: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        each!(self, a => a.encrypt(b, ad))
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        each!(self, a => a.new_encrypt_associated_data())
    }
}
impl Decrypter for Plain {
    fn decrypt(&self, b: &[u8], ad: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        each!(self, a => a.decrypt(b, ad))
    }
}

#[derive(Clone)]
pub enum Crypt {
    Plain(Plain),
    Cached(NonceCacheBicrypter<Plain>),
}
impl Bicrypter for Crypt {}
impl Encrypter for Crypt {
    fn encrypt(&self, b: &[u8], ad: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        match self {
            Crypt::Plain(a) => a.encrypt(b, ad),
            Crypt::Cached(a) => a.encrypt(b, ad),
        }
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        match self {
            Crypt::Plain(a) => a.new_encrypt_associated_data(),
            Crypt::Cached(a) => a.new_encrypt_associated_data(),
        }
    }
}
impl Decrypter for Crypt {
    fn decrypt(&self, b: &[u8], ad: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        match self {
            Crypt::Plain(a) => a.decrypt(b, ad),
            Crypt::Cached(a) => a.decrypt(b, ad),
        }
    }
}

// ---------- a custom request that identifies itself ----------

/// Custom request: what to do, and who asks
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Probe {
    /// unique in the run
    pub id: u64,
    /// milliseconds the handler takes
    pub delay: u64,
    /// bytes of the reply
    pub reply: usize,
    /// bytes of filler in the request
    pub fill: usize,
    pub fail: bool,
}
/// A delay that makes the handler panic instead
pub const PANIC: u64 = 0xffff_ffff;
impl Probe {
    pub fn request(&self) -> Request {
        Request::Custom(request::CustomArgs { data: self.encode() })
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&self.id.to_be_bytes());
        v.extend_from_slice(&(self.delay as u32).to_be_bytes());
        v.extend_from_slice(&(self.reply as u32).to_be_bytes());
        v.push(self.fail as u8);
        v.extend(filler(self.id, self.fill));
        v.extend_from_slice(&simcore::hash_bytes(&v).to_be_bytes());
        v
    }
    pub fn decode(d: &[u8]) -> Option<Probe> {
        if d.len() < 25 {
            return None;
        }
        let (body, sum) = d.split_at(d.len() - 8);
        if sum != simcore::hash_bytes(body).to_be_bytes() {
            return None;
        }
        let g = |a: usize, b: usize| body[a..b].iter().fold(0u64, |x, y| x << 8 | *y as u64);
        Some(Probe {
            id: g(0, 8),
            delay: g(8, 12),
            reply: g(12, 16) as usize,
            fail: body[16] != 0,
            fill: body.len() - 17,
        })
    }
    pub fn answer(&self) -> Vec<u8> {
        let mut v = self.id.to_be_bytes().to_vec();
        v.extend(filler(self.id ^ 0xabcdef, self.reply));
        v
    }
    /// Does the outcome of the request fit the request?
    pub fn fits(&self, r: &Reply) -> bool {
        matches!(r, Reply::Custom(a) if !self.fail && a.data == self.answer())
    }
}
pub fn filler(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    // bytes of every size class, so that every encoding width occurs
    let m = seed % 3;
    (0..n)
        .map(|_| {
            let b = r.next() as u8;
            match m {
                0 => b,
                1 => b & 0x17,
                _ => b | 0x80,
            }
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Exec {
    pub id: u64,
    pub start: u64,
    pub end: u64,
    pub valid: bool,
    pub raw: Vec<u8>,
    /// hash of the whole request
    pub sum: u64,
}
pub type ExecLog = Arc<Mutex<Vec<Exec>>>;

// ---------- servers and clients ----------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Net {
    pub tcp: bool,
    #[serde(default)]
    pub v6: bool,
    pub sec: Sec,
    pub packet_ttl: u64,
    pub buffer: usize,
    pub client_buffer: usize,
    pub cleanup: u64,
    pub file_ttl: u64,
    pub proc_ttl: u64,
    pub dead_ttl: u64,
}
impl Default for Net {
    fn default() -> Self {
        Net {
            tcp: false,
            v6: false,
            sec: Sec::default(),
            packet_ttl: 300_000,
            buffer: 1000,
            client_buffer: 1000,
            cleanup: 60_000,
            file_ttl: 120_000,
            proc_ttl: 300_000,
            dead_ttl: 30_000,
        }
    }
}

pub const SERVER: u32 = 1;
pub fn server_addr() -> SocketAddr {
    SocketAddr::new(simcore::net::node_ip(SERVER), 7000)
}
impl Net {
    pub fn addr(&self) -> SocketAddr {
        if self.v6 {
            SocketAddr::new(simcore::net::node_ip6(SERVER), 7000)
        } else {
            server_addr()
        }
    }
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
fn transport(tcp: bool, a: SocketAddr) -> Transport {
    if tcp {
        Transport::Tcp(vec![a])
    } else {
        Transport::Udp(vec![a])
    }
}

pub fn spawn_on<F>(node: u32, f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    simcore::on_node(node, || tokio::spawn(f))
}

pub async fn sleep_ms(n: u64) {
    tokio::time::delay_for(ms(n)).await
}

/// Start a server; every custom request is answered as `Probe` says and logged
pub async fn serve(n: &Net, log: &ExecLog) -> std::io::Result<ListeningServer> {
    let n = n.clone();
    let log = log.clone();
    spawn_on(SERVER, async move {
        let handler = move |args: request::CustomArgs| {
            let log = log.clone();
            async move {
                let start = simcore::now();
                let p = Probe::decode(&args.data);
                simcore::log(|| format!("execute {:?}", p));
                let at = {
                    let mut l = log.lock().unwrap();
                    l.push(Exec {
                        id: p.as_ref().map(|p| p.id).unwrap_or(u64::MAX),
                        start,
                        end: 0,
                        valid: p.is_some(),
                        raw: if p.is_some() { vec![] } else { args.data.clone() },
                        sum: simcore::hash_bytes(&args.data),
                    });
                    l.len() - 1
                };
                let r = match p {
                    Some(p) => {
                        if p.delay == PANIC {
                            panic!("{}", crate::exec::INTENDED);
                        }
                        if p.delay > 0 {
                            tokio::time::delay_for(Duration::from_millis(p.delay)).await;
                        }
                        if p.fail {
                            Err(format!("fail {}", p.id))
                        } else {
                            Ok(reply::CustomArgs { data: p.answer() })
                        }
                    }
                    None => Err("not a probe".to_string()),
                };
                if let Some(e) = log.lock().unwrap().get_mut(at) {
                    e.end = simcore::now();
                }
                r.map_err(|e| -> Box<dyn std::error::Error> { e.into() })
            }
        };
        ServerBuilder::default()
            .authenticator(n.sec.auth())
            .bicrypter(n.sec.crypt())
            .transport(transport(n.tcp, n.addr()))
            .packet_ttl(ms(n.packet_ttl))
            .buffer(n.buffer)
            .cleanup_interval(ms(n.cleanup))
            .file_ttl(ms(n.file_ttl))
            .proc_ttl(ms(n.proc_ttl))
            .dead_proc_ttl(ms(n.dead_ttl))
            .custom_handler(handler.into())
            .build()
            .expect("harness: server")
            .cloneable_listen()
            .await
    })
    .await
    .unwrap_or_else(|_| Err(std::io::Error::new(std::io::ErrorKind::Other, "server task ended")))
}

/// To be called on the client's node
pub async fn connect(n: &Net, timeout: u64) -> std::io::Result<ConnectedClient> {
    connect_to(n, timeout, n.addr()).await
}
pub async fn connect_to(n: &Net, timeout: u64, to: SocketAddr) -> std::io::Result<ConnectedClient> {
    let mut c = ClientBuilder::default()
        .authenticator(n.sec.auth())
        .bicrypter(n.sec.crypt())
        .transport(transport(n.tcp, to))
        .packet_ttl(ms(n.packet_ttl))
        .buffer(n.client_buffer)
        .build()
        .expect("harness: client")
        .connect()
        .await?;
    c.timeout = ms(timeout);
    Ok(c)
}

pub fn ask_err(e: &AskError) -> &'static str {
    match e {
        AskError::Failure { .. } => "failure",
        AskError::InvalidResponse { .. } => "invalid",
        AskError::Timeout => "timeout",
        AskError::EncodingFailed => "encoding",
        AskError::SendFailed => "send",
        AskError::CallbackLost => "callback-lost",
    }
}

// ---------- a peer that speaks message by message ----------

/// Sends whole messages when it likes and keeps all that comes back
pub struct Peer {
    /// with the time of arrival
    pub got: Arc<Mutex<Vec<(u64, Msg)>>>,
    /// its connection over TCP
    pub conn: Option<usize>,
    out: Out,
}
enum Out {
    Tcp(EventManager),
    Udp(AddrEventManager, SocketAddr),
}
impl Peer {
    /// To be called on the peer's node
    pub async fn new(n: &Net) -> std::io::Result<Peer> {
        let got: Arc<Mutex<Vec<(u64, Msg)>>> = Default::default();
        let g = got.clone();
        let h = tokio::runtime::Handle::current();
        let wire = |t: NetTransmission| Wire::new(t.into(), ms(n.packet_ttl), n.sec.auth(), n.sec.crypt());
        if n.tcp {
            let s = TcpStream::connect(n.addr()).await?;
            let conn = s.local_addr().ok().and_then(simcore::net::tcp_conn_by_addr);
            let (tx, mut rx) = mpsc::channel(n.client_buffer);
            let m = EventManager::for_tcp_stream(h, n.client_buffer, s, n.addr(), wire(NetTransmission::TcpEthernet), tx);
            tokio::spawn(async move {
                while let Some((m, _, _)) = rx.recv().await {
                    g.lock().unwrap().push((simcore::now(), m));
                }
            });
            Ok(Peer {
                got,
                conn,
                out: Out::Tcp(m),
            })
        } else {
            let a: SocketAddr = if n.v6 { "[::]:0" } else { "0.0.0.0:0" }.parse().expect("harness: address");
            let s = UdpSocket::bind(a).await?;
            let (tx, mut rx) = mpsc::channel(n.client_buffer);
            let w = wire(NetTransmission::udp_from_addr(n.addr()));
            let m = AddrEventManager::for_udp_socket(h, n.client_buffer, s, w, tx);
            tokio::spawn(async move {
                while let Some((m, _, _)) = rx.recv().await {
                    g.lock().unwrap().push((simcore::now(), m));
                }
            });
            Ok(Peer {
                got,
                conn: None,
                out: Out::Udp(m, n.addr()),
            })
        }
    }
    pub async fn send(&mut self, m: &Msg) -> bool {
        let b = m.to_vec().expect("harness: message");
        match &mut self.out {
            Out::Tcp(x) => x.send(b).await.is_ok(),
            Out::Udp(x, a) => x.send_to(b, *a).await.is_ok(),
        }
    }
    /// The replies to the message of this id
    pub fn replies(&self, id: u32) -> Vec<Reply> {
        self.got
            .lock()
            .unwrap()
            .iter()
            .filter(|(_, m)| m.parent_header.as_ref().map_or(false, |h| h.id == id))
            .filter_map(|(_, m)| m.content.clone().into_reply())
            .collect()
    }
    /// Send a request and wait for its reply, at most so long
    pub async fn ask(&mut self, r: Request, limit_ms: u64) -> Option<Reply> {
        let m = Msg::from(r);
        self.send(&m).await;
        let end = simcore::now() + limit_ms * MS;
        loop {
            if let Some(r) = self.replies(m.header.id).pop() {
                return Some(r);
            }
            if simcore::now() >= end {
                return None;
            }
            sleep_ms(1).await;
        }
    }
}

/// The bytes of a genuine message, packet by packet
pub fn packets(n: &Net, m: &Msg) -> Vec<Vec<u8>> {
    let size = if n.tcp {
        NetTransmission::TcpEthernet.size()
    } else {
        NetTransmission::udp_from_addr(n.addr()).size()
    };
    OutboundWire::new(size, n.sec.auth(), n.sec.crypt())
        .process(&m.to_vec().expect("harness: message"))
        .expect("harness: packets")
}
