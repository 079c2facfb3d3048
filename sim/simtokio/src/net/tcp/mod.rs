//! TCP over the simulated network
use crate::io::{AsyncRead, AsyncWrite};
use crate::net::ToSocketAddrs;
use simcore::net;
use std::fmt;
use std::io;
use std::net::{Shutdown, SocketAddr};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

/// A simulated TCP stream
pub struct TcpStream {
    conn: usize,
    end: usize,
}

impl TcpStream {
    /// Opens a connection
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let addrs = addr.to_socket_addrs().await?;
        let mut last = None;
        for addr in addrs {
            match Self::connect_addr(addr).await {
                Ok(s) => return Ok(s),
                Err(e) => last = Some(e),
            }
        }
        Err(last.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }
    async fn connect_addr(addr: SocketAddr) -> io::Result<TcpStream> {
        let conn = net::tcp_connect(addr).map_err(os)?;
        let s = TcpStream { conn, end: 0 };
        crate::future::poll_fn(|cx| net::tcp_poll_connect(conn, cx)).await?;
        Ok(s)
    }
    /// Local address
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(net::tcp_addr(self.conn, self.end).0)
    }
    /// Peer address
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(net::tcp_addr(self.conn, self.end).1)
    }
    /// Shuts part of the stream down
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        if how != Shutdown::Read {
            net::tcp_shutdown(self.conn, self.end);
        }
        Ok(())
    }
    /// Accepted and ignored
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    /// Always true
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    /// Accepted and ignored
    pub fn set_keepalive(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    /// Accepted and ignored
    pub fn set_linger(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    /// Splits by reference
    pub fn split(&mut self) -> (ReadHalf<'_>, WriteHalf<'_>) {
        (ReadHalf(self), WriteHalf(self))
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        net::tcp_close(self.conn, self.end);
    }
}
impl fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpStream({}.{})", self.conn, self.end)
    }
}
impl AsyncRead for TcpStream {
    unsafe fn prepare_uninitialized_buffer(&self, _: &mut [std::mem::MaybeUninit<u8>]) -> bool {
        false
    }
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        net::tcp_poll_read(self.conn, self.end, cx, buf)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        net::tcp_poll_write(self.conn, self.end, cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        net::tcp_shutdown(self.conn, self.end);
        Poll::Ready(Ok(()))
    }
}

/// Borrowed read half
#[derive(Debug)]
pub struct ReadHalf<'a>(&'a TcpStream);
/// Borrowed write half
#[derive(Debug)]
pub struct WriteHalf<'a>(&'a TcpStream);
impl AsyncRead for ReadHalf<'_> {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        net::tcp_poll_read(self.0.conn, self.0.end, cx, buf)
    }
}
impl AsyncWrite for WriteHalf<'_> {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        net::tcp_poll_write(self.0.conn, self.0.end, cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        net::tcp_shutdown(self.0.conn, self.0.end);
        Poll::Ready(Ok(()))
    }
}

/// A simulated listener
pub struct TcpListener {
    id: usize,
}
impl TcpListener {
    /// Binds to the first address that works
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let addrs = addr.to_socket_addrs().await?;
        let mut last = None;
        for addr in addrs {
            match net::tcp_listen(addr) {
                Ok(id) => return Ok(TcpListener { id }),
                Err(e) => last = Some(os(e)),
            }
        }
        Err(last.unwrap_or_else(|| {
            io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
        }))
    }
    /// Accepts a connection
    pub async fn accept(&mut self) -> io::Result<(TcpStream, SocketAddr)> {
        crate::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    /// Polls for a connection
    pub fn poll_accept(
        &mut self,
        cx: &mut Context<'_>,
    ) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        net::tcp_poll_accept(self.id, cx)
            .map(|r| r.map(|(conn, a)| (TcpStream { conn, end: 1 }, a)))
    }
    /// Bound address
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(net::tcp_listener_addr(self.id))
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        net::tcp_listener_close(self.id);
    }
}
impl fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpListener({})", self.id)
    }
}
