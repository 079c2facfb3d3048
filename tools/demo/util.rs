//! Small helpers shared by the demonstrations
#![allow(dead_code)]
pub use over_there::core::transport::auth::{NoopAuthenticator, Sha256Authenticator};
pub use over_there::core::transport::crypto::NoopBicrypter;
pub use over_there::core::transport::{Authenticator, Bicrypter, NetTransmission, Wire};
pub use over_there::core::*;
pub use std::net::SocketAddr;
pub use std::time::{Duration, Instant};

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub async fn sleep(n: u64) {
    tokio::time::delay_for(ms(n)).await
}
pub fn scratch() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").expect("DEMO_SCRATCH"))
}
pub fn trans(tcp: bool, a: SocketAddr) -> Transport {
    if tcp {
        Transport::Tcp(vec![a])
    } else {
        Transport::Udp(vec![a])
    }
}

#[derive(Clone)]
pub struct Opts {
    pub tcp: bool,
    pub cleanup: u64,
    pub file_ttl: u64,
    pub proc_ttl: u64,
    pub dead_ttl: u64,
    pub packet_ttl: u64,
    pub buffer: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { tcp: true, cleanup: 60_000, file_ttl: 120_000, proc_ttl: 300_000, dead_ttl: 30_000, packet_ttl: 300_000, buffer: 1000 }
    }
}

/// A server whose custom requests sleep for as many milliseconds as their
/// first byte says and are answered with their own data
pub async fn serve_with<A, B>(o: &Opts, a: A, b: B) -> ListeningServer
where
    A: Authenticator + Default + Send + Sync + Clone + 'static,
    B: Bicrypter + Default + Send + Sync + Clone + 'static,
{
    let handler = |args: request::CustomArgs| async move {
        if args.data.first().copied().unwrap_or(0) > 0 {
            sleep(args.data[0] as u64).await;
        }
        let r: Result<reply::CustomArgs, Box<dyn std::error::Error>> = Ok(reply::CustomArgs { data: args.data });
        r
    };
    ServerBuilder::default()
        .authenticator(a)
        .bicrypter(b)
        .transport(trans(o.tcp, "127.0.0.1:0".parse().unwrap()))
        .cleanup_interval(ms(o.cleanup))
        .file_ttl(ms(o.file_ttl))
        .proc_ttl(ms(o.proc_ttl))
        .dead_proc_ttl(ms(o.dead_ttl))
        .packet_ttl(ms(o.packet_ttl))
        .buffer(o.buffer)
        .custom_handler(handler.into())
        .build()
        .unwrap()
        .cloneable_listen()
        .await
        .expect("listen")
}
pub async fn serve(o: &Opts) -> ListeningServer {
    serve_with(o, NoopAuthenticator, NoopBicrypter).await
}
pub async fn connect_with<A, B>(o: &Opts, to: SocketAddr, timeout: u64, a: A, b: B) -> ConnectedClient
where
    A: Authenticator + Default + Send + Sync + Clone + 'static,
    B: Bicrypter + Default + Send + Sync + Clone + 'static,
{
    let mut c = ClientBuilder::default()
        .authenticator(a)
        .bicrypter(b)
        .transport(trans(o.tcp, to))
        .packet_ttl(ms(o.packet_ttl))
        .buffer(o.buffer)
        .build()
        .unwrap()
        .connect()
        .await
        .expect("connect");
    c.timeout = ms(timeout);
    c
}
pub async fn connect(o: &Opts, to: SocketAddr, timeout: u64) -> ConnectedClient {
    connect_with(o, to, timeout, NoopAuthenticator, NoopBicrypter).await
}
pub fn custom(data: Vec<u8>) -> Request {
    Request::Custom(request::CustomArgs { data })
}
/// Packs a message as packets, the way the program does
pub fn packets(size: usize, data: &[u8]) -> Vec<Vec<u8>> {
    let (_, mut out) = Wire::new(size, ms(300_000), NoopAuthenticator, NoopBicrypter).clone_split();
    out.process(data).expect("packets")
}
