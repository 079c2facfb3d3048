//! UDP over the simulated network
use crate::future::poll_fn;
use crate::net::ToSocketAddrs;
use simcore::net;
use std::fmt;
use std::io;
use std::net::SocketAddr;
use std::sync::Arc;
use std::task::{Context, Poll};

fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

struct Inner {
    id: usize,
    /// keeps the descriptor a std socket came with
    _std: Option<std::net::UdpSocket>,
}
impl Drop for Inner {
    fn drop(&mut self) {
        net::udp_close(self.id);
    }
}

/// A simulated UDP socket
pub struct UdpSocket {
    i: Arc<Inner>,
}
impl fmt::Debug for UdpSocket {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "UdpSocket({})", self.i.id)
    }
}

impl UdpSocket {
    /// Binds to the first address that works
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<UdpSocket> {
        let addrs = addr.to_socket_addrs().await?;
        let mut last = None;
        for addr in addrs {
            match net::udp_bind(addr) {
                Ok(id) => {
                    return Ok(UdpSocket {
                        i: Arc::new(Inner { id, _std: None }),
                    })
                }
                Err(e) => last = Some(os(e)),
            }
        }
        Err(last.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }
    /// Takes over a socket of the standard library
    pub fn from_std(socket: std::net::UdpSocket) -> io::Result<UdpSocket> {
        use std::os::unix::io::AsRawFd;
        let id = net::fd_take(socket.as_raw_fd()).ok_or_else(|| os(net::EBADF))?;
        Ok(UdpSocket {
            i: Arc::new(Inner {
                id,
                _std: Some(socket),
            }),
        })
    }
    /// Splits into two owned halves
    pub fn split(self) -> (RecvHalf, SendHalf) {
        (RecvHalf(self.i.clone()), SendHalf(self.i))
    }
    /// Connects to a peer
    pub async fn connect<A: ToSocketAddrs>(&self, addr: A) -> io::Result<()> {
        let mut addrs = addr.to_socket_addrs().await?;
        match addrs.next() {
            Some(a) => {
                net::udp_connect(self.i.id, a);
                Ok(())
            }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "no addresses")),
        }
    }
    /// Bound address
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(net::udp_local(self.i.id))
    }
    /// Accepted and ignored
    pub fn set_broadcast(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    /// Sends to the connected peer
    pub async fn send(&mut self, buf: &[u8]) -> io::Result<usize> {
        poll_fn(|cx| net::udp_poll_send(self.i.id, cx, buf, None)).await
    }
    /// Receives from the connected peer
    pub async fn recv(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        poll_fn(|cx| net::udp_poll_recv(self.i.id, cx, buf)).await.map(|x| x.0)
    }
    /// Sends to an address
    pub async fn send_to<A: ToSocketAddrs>(&mut self, buf: &[u8], target: A) -> io::Result<usize> {
        let mut addrs = target.to_socket_addrs().await?;
        match addrs.next() {
            Some(a) => poll_fn(|cx| net::udp_poll_send(self.i.id, cx, buf, Some(a))).await,
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "no addresses to send data to")),
        }
    }
    /// Receives with the sender's address
    pub async fn recv_from(&mut self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        poll_fn(|cx| net::udp_poll_recv(self.i.id, cx, buf)).await
    }
}

/// The receiving half
pub struct RecvHalf(Arc<Inner>);
/// The sending half
pub struct SendHalf(Arc<Inner>);
/// Error of `reunite`
#[derive(Debug)]
pub struct ReuniteError(pub SendHalf, pub RecvHalf);

impl fmt::Debug for RecvHalf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RecvHalf({})", self.0.id)
    }
}
impl fmt::Debug for SendHalf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SendHalf({})", self.0.id)
    }
}

impl RecvHalf {
    /// Polls for a datagram
    pub fn poll_recv_from(
        &mut self,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<(usize, SocketAddr)>> {
        net::udp_poll_recv(self.0.id, cx, buf)
    }
    /// Receives with the sender's address
    pub async fn recv_from(&mut self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        poll_fn(|cx| net::udp_poll_recv(self.0.id, cx, buf)).await
    }
    /// Receives from the connected peer
    pub async fn recv(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        poll_fn(|cx| net::udp_poll_recv(self.0.id, cx, buf)).await.map(|x| x.0)
    }
}
impl SendHalf {
    /// Sends to an address
    pub async fn send_to(&mut self, buf: &[u8], target: &SocketAddr) -> io::Result<usize> {
        poll_fn(|cx| net::udp_poll_send(self.0.id, cx, buf, Some(*target))).await
    }
    /// Sends to the connected peer
    pub async fn send(&mut self, buf: &[u8]) -> io::Result<usize> {
        poll_fn(|cx| net::udp_poll_send(self.0.id, cx, buf, None)).await
    }
}
impl AsRef<SendHalf> for SendHalf {
    fn as_ref(&self) -> &SendHalf {
        self
    }
}
