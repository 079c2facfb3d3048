//! Simulated UDP and TCP. Nodes have the address 10.0.0.<node>.
use crate::{at, choose, log, node, note_hash, now, with, Sim, K};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::task::{Context, Poll, Waker};

pub const EPIPE: i32 = 32;
pub const ECONNRESET: i32 = 104;
pub const ECONNREFUSED: i32 = 111;
pub const EADDRINUSE: i32 = 98;
pub const EADDRNOTAVAIL: i32 = 99;
pub const ENETUNREACH: i32 = 101;
pub const ENOBUFS: i32 = 105;
pub const EPERM: i32 = 1;
pub const EMSGSIZE: i32 = 90;
pub const EMFILE: i32 = 24;
pub const ECONNABORTED: i32 = 103;
pub const ENOTCONN: i32 = 107;
pub const EBADF: i32 = 9;
pub const ENOMEM: i32 = 12;

fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

#[derive(Clone)]
pub struct NetCfg {
    /// base one-way latency
    pub latency: u64,
    /// unit of extra delay a decision adds
    pub jitter: u64,
    /// bytes a TCP direction holds before the writer must wait
    pub tcp_window: usize,
    /// largest datagram
    pub udp_max: usize,
    /// largest number of datagrams a socket queues before the kernel drops
    pub udp_queue: usize,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg {
            latency: 200_000,
            jitter: 1_000_000,
            tcp_window: 64 * 1024,
            udp_max: 65507,
            udp_queue: 1 << 20,
        }
    }
}

#[derive(Clone, Debug)]
pub struct WireRec {
    pub at: u64,
    pub tcp: bool,
    pub conn: usize,
    pub from: SocketAddr,
    pub to: SocketAddr,
    pub from_node: u32,
    pub to_node: u32,
    pub data: Vec<u8>,
}

struct Udp {
    node: u32,
    bound: SocketAddr,
    peer: Option<SocketAddr>,
    queue: VecDeque<(SocketAddr, Vec<u8>)>,
    err: VecDeque<i32>,
    rw: Option<Waker>,
    open: bool,
}

struct Listener {
    node: u32,
    bound: SocketAddr,
    backlog: VecDeque<usize>,
    w: Option<Waker>,
    open: bool,
}

#[derive(Default)]
struct End {
    node: u32,
    addr: Option<SocketAddr>,
    inbuf: VecDeque<u8>,
    /// bytes sent to this end and not yet in `inbuf`
    inflight: usize,
    last_arrival: u64,
    fin: bool,
    err: Option<i32>,
    rw: Option<Waker>,
    ww: Option<Waker>,
    wr_closed: bool,
    closed: bool,
}
struct Conn {
    ends: [End; 2],
    established: bool,
    refused: bool,
    cw: Option<Waker>,
}

pub type Mitm = Box<dyn FnMut(&WireRec) -> Option<Vec<Vec<u8>>>>;

pub struct Net {
    pub cfg: NetCfg,
    udp: Vec<Udp>,
    udp_by: HashMap<(u32, u16), usize>,
    lst: Vec<Listener>,
    lst_by: HashMap<(u32, u16), usize>,
    conns: Vec<Conn>,
    fds: HashMap<i32, usize>,
    next_port: BTreeMap<u32, u16>,
    cut: HashSet<(u32, u32)>,
    pub record: bool,
    pub wire: Vec<WireRec>,
    /// datagrams as they reach the socket they are for, when `record` is on
    pub arrivals: Vec<WireRec>,
    pub stats: BTreeMap<&'static str, u64>,
}

impl Net {
    pub fn new(cfg: NetCfg) -> Net {
        Net {
            cfg,
            udp: vec![],
            udp_by: HashMap::new(),
            lst: vec![],
            lst_by: HashMap::new(),
            conns: vec![],
            fds: HashMap::new(),
            next_port: BTreeMap::new(),
            cut: HashSet::new(),
            record: false,
            wire: vec![],
            arrivals: vec![],
            stats: BTreeMap::new(),
        }
    }
    fn port(&mut self, n: u32) -> u16 {
        let p = self.next_port.entry(n).or_insert(40_000);
        *p += 1;
        *p
    }
    fn is_cut(&self, a: u32, b: u32) -> bool {
        self.cut.contains(&(a, b))
    }
}

thread_local! {
    static MITM: std::cell::RefCell<Option<Mitm>> = const { std::cell::RefCell::new(None) };
}
/// Install an attacker that sees every datagram and may replace it by others
pub fn set_mitm(m: Option<Mitm>) {
    MITM.with(|x| *x.borrow_mut() = m);
}

pub fn node_ip(n: u32) -> IpAddr {
    IpAddr::V4(Ipv4Addr::new(10, 0, 0, n as u8))
}
pub fn node_ip6(n: u32) -> IpAddr {
    IpAddr::V6(std::net::Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, n as u16))
}
/// The node's address of the same family as the other address
fn own_ip(n: u32, like: IpAddr) -> IpAddr {
    if like.is_ipv6() {
        node_ip6(n)
    } else {
        node_ip(n)
    }
}
fn node_of(ip: IpAddr, me: u32) -> Option<u32> {
    match ip {
        IpAddr::V4(v) if v.is_loopback() || v.is_unspecified() => Some(me),
        IpAddr::V4(v) => {
            let o = v.octets();
            if o[0] == 10 && o[1] == 0 && o[2] == 0 {
                Some(o[3] as u32)
            } else {
                None
            }
        }
        IpAddr::V6(v) if v.is_loopback() || v.is_unspecified() => Some(me),
        IpAddr::V6(v) if v.segments()[0] == 0xfd00 => Some(v.segments()[7] as u32),
        _ => None,
    }
}
fn check_bind(a: SocketAddr, n: u32) -> Result<(), i32> {
    match a.ip() {
        IpAddr::V4(v) if v.is_loopback() || v.is_unspecified() => Ok(()),
        IpAddr::V4(_) if a.ip() == node_ip(n) => Ok(()),
        IpAddr::V6(v) if v.is_loopback() || v.is_unspecified() => Ok(()),
        IpAddr::V6(_) if a.ip() == node_ip6(n) => Ok(()),
        _ => Err(EADDRNOTAVAIL),
    }
}

/// Messages from `a` to `b` are lost (UDP) or held back (TCP) until healed
pub fn cut(a: u32, b: u32) {
    with(|s| {
        s.net.cut.insert((a, b));
        s.count("partition-cut", 1);
    });
    log(|| format!("net cut {}->{}", a, b));
}
pub fn heal(a: u32, b: u32) {
    with(|s| s.net.cut.remove(&(a, b)));
    log(|| format!("net heal {}->{}", a, b));
}
pub fn heal_all() {
    with(|s| s.net.cut.clear());
}

// ---------------- UDP ----------------

pub fn udp_bind(a: SocketAddr) -> Result<usize, i32> {
    let n = node();
    check_bind(a, n)?;
    with(|s| {
        let mut a = a;
        if a.port() == 0 {
            a.set_port(s.net.port(n));
        }
        if s.net.udp_by.contains_key(&(n, a.port())) {
            return Err(EADDRINUSE);
        }
        let id = s.net.udp.len();
        s.net.udp.push(Udp {
            node: n,
            bound: a,
            peer: None,
            queue: VecDeque::new(),
            err: VecDeque::new(),
            rw: None,
            open: true,
        });
        s.net.udp_by.insert((n, a.port()), id);
        Ok(id)
    })
}
pub fn fd_bind(fd: i32, a: SocketAddr) -> Result<(), i32> {
    // a stale entry belongs to a descriptor that was closed and reused
    let stale = with(|s| s.net.fds.remove(&fd));
    if let Some(id) = stale {
        udp_close(id);
    }
    let id = udp_bind(a)?;
    with(|s| s.net.fds.insert(fd, id));
    Ok(())
}
pub fn fd_connect(fd: i32, a: SocketAddr) -> Result<(), i32> {
    let id = with(|s| s.net.fds.get(&fd).copied()).ok_or(EBADF)?;
    udp_connect(id, a);
    Ok(())
}
pub fn fd_local(fd: i32) -> Option<SocketAddr> {
    with(|s| s.net.fds.get(&fd).map(|i| s.net.udp[*i].bound))
}
pub fn fd_peer(fd: i32) -> Option<SocketAddr> {
    with(|s| s.net.fds.get(&fd).and_then(|i| s.net.udp[*i].peer))
}
pub fn fd_take(fd: i32) -> Option<usize> {
    with(|s| s.net.fds.remove(&fd))
}
pub fn udp_connect(id: usize, a: SocketAddr) {
    with(|s| s.net.udp[id].peer = Some(a));
}
pub fn udp_local(id: usize) -> SocketAddr {
    with(|s| s.net.udp[id].bound)
}
pub fn udp_peer(id: usize) -> Option<SocketAddr> {
    with(|s| s.net.udp[id].peer)
}
pub fn udp_close(id: usize) {
    let w = crate::try_with(|s| {
        let u = &mut s.net.udp[id];
        if !u.open {
            return None;
        }
        u.open = false;
        u.queue.clear();
        let k = (u.node, u.bound.port());
        let w = u.rw.take();
        if s.net.udp_by.get(&k) == Some(&id) {
            s.net.udp_by.remove(&k);
        }
        w
    });
    drop(w);
}
fn udp_src(u: &Udp, to: SocketAddr) -> SocketAddr {
    let ip = if to.ip().is_loopback() {
        to.ip()
    } else {
        own_ip(u.node, to.ip())
    };
    SocketAddr::new(ip, u.bound.port())
}

pub fn udp_poll_send(
    id: usize,
    cx: &mut Context<'_>,
    data: &[u8],
    to: Option<SocketAddr>,
) -> Poll<io::Result<usize>> {
    enum R {
        Err(i32),
        Block,
        Go(WireRec),
    }
    let r = with(|s| {
        let max = s.net.cfg.udp_max;
        let u = &mut s.net.udp[id];
        if !u.open {
            return R::Err(EBADF);
        }
        if let Some(e) = u.err.pop_front() {
            return R::Err(e);
        }
        let to = match to.or(u.peer) {
            Some(t) => t,
            None => return R::Err(89),
        };
        if data.len() > max {
            return R::Err(EMSGSIZE);
        }
        let from = udp_src(u, to);
        let me = u.node;
        match s.choose(K::UdpSendErr, 4) {
            0 => {}
            1 => return R::Err(ENETUNREACH),
            2 => return R::Err(ENOBUFS),
            _ => return R::Err(EPERM),
        }
        if s.chance(K::UdpSendBlock) {
            return R::Block;
        }
        let to_node = match node_of(to.ip(), me) {
            Some(n) => n,
            None => return R::Err(ENETUNREACH),
        };
        R::Go(WireRec {
            at: now(),
            tcp: false,
            conn: id,
            from,
            to,
            from_node: me,
            to_node,
            data: data.to_vec(),
        })
    });
    match r {
        R::Err(e) => {
            log(|| format!("udp send error {}", e));
            Poll::Ready(Err(os(e)))
        }
        R::Block => {
            let w = cx.waker().clone();
            crate::after(500_000, move || w.wake());
            Poll::Pending
        }
        R::Go(rec) => {
            let n = rec.data.len();
            udp_transmit(rec, true);
            Poll::Ready(Ok(n))
        }
    }
}

/// Put a datagram on the wire. `attack` lets the installed attacker see it.
pub fn udp_transmit(rec: WireRec, attack: bool) {
    with(|s| {
        if s.net.record {
            s.net.wire.push(rec.clone());
        }
        s.count("udp-datagrams", 1);
        s.note_hash(rec.data.len() as u64);
    });
    let replaced = if attack {
        let m = MITM.with(|m| m.borrow_mut().take());
        match m {
            Some(mut f) => {
                let r = f(&rec);
                MITM.with(|m| {
                    let mut b = m.borrow_mut();
                    if b.is_none() {
                        *b = Some(f)
                    }
                });
                r
            }
            None => None,
        }
    } else {
        None
    };
    match replaced {
        None => udp_fly(rec),
        Some(list) => {
            for d in list {
                let mut r = rec.clone();
                r.data = d;
                udp_fly(r);
            }
        }
    }
}

fn udp_fly(mut rec: WireRec) {
    let deliveries: Vec<u64> = with(|s| {
        let base = s.net.cfg.latency;
        let jit = s.net.cfg.jitter;
        if s.net.is_cut(rec.from_node, rec.to_node) {
            s.count("partition-dropped", 1);
            return vec![];
        }
        if s.chance(K::UdpDrop) {
            return vec![];
        }
        let dup = s.choose(K::UdpDup, 4);
        if !rec.data.is_empty() {
            let c = s.choose(K::UdpCorrupt, 1 << 20) as usize;
            if c > 0 {
                let bit = (c * 2654435761) % (rec.data.len() * 8);
                rec.data[bit / 8] ^= 1 << (bit % 8);
            }
        }
        (0..=dup)
            .map(|i| {
                let c = s.choose(K::UdpDelay, 32) as u64;
                // mostly small reorderings, sometimes long delays
                base + c * jit / 4 + if c > 28 { c * jit * 3 } else { 0 } + i as u64 * 1000
            })
            .collect()
    });
    log(|| {
        format!(
            "udp {}->{} {}B x{}",
            rec.from,
            rec.to,
            rec.data.len(),
            deliveries.len()
        )
    });
    for d in deliveries {
        let r = rec.clone();
        crate::after(d, move || udp_deliver(r));
    }
}

/// Send a datagram that no socket sent
pub fn udp_inject(from: SocketAddr, to: SocketAddr, data: Vec<u8>, delay: u64) {
    let to_node = node_of(to.ip(), 0).unwrap_or(0);
    let rec = WireRec {
        at: now(),
        tcp: false,
        conn: usize::MAX,
        from,
        to,
        from_node: node_of(from.ip(), 0).unwrap_or(0),
        to_node,
        data,
    };
    with(|s| s.count("udp-injected", 1));
    crate::after(delay, move || udp_deliver(rec));
}

fn udp_deliver(rec: WireRec) {
    let w = with(|s| {
        let id = match s.net.udp_by.get(&(rec.to_node, rec.to.port())) {
            Some(i) => *i,
            None => {
                // nobody listens: a connected sender learns about it
                s.count("udp-unreachable", 1);
                let snd = s.net.udp_by.get(&(rec.from_node, rec.from.port())).copied();
                if let Some(sid) = snd {
                    if s.net.udp[sid].peer == Some(rec.to) && s.chance(K::UdpIcmp) {
                        let u = &mut s.net.udp[sid];
                        u.err.push_back(ECONNREFUSED);
                        return u.rw.take();
                    }
                }
                return None;
            }
        };
        let qmax = s.net.cfg.udp_queue;
        let lost = s.net.udp[id].queue.len() >= qmax;
        if lost {
            s.count("udp-queue-overflow", 1);
            return None;
        }
        let u = &mut s.net.udp[id];
        if let Some(p) = u.peer {
            if p != rec.from {
                return None;
            }
        }
        let w = u.rw.take();
        if s.net.record {
            let mut r = rec.clone();
            r.at = now();
            s.net.arrivals.push(r);
        }
        s.net.udp[id].queue.push_back((rec.from, rec.data));
        w
    });
    if let Some(w) = w {
        w.wake()
    }
}

pub fn udp_poll_recv(
    id: usize,
    cx: &mut Context<'_>,
    buf: &mut [u8],
) -> Poll<io::Result<(usize, SocketAddr)>> {
    let r = with(|s| {
        if s.net.udp[id].queue.is_empty() && s.net.udp[id].err.is_empty() {
            s.net.udp[id].rw = Some(cx.waker().clone());
            return None;
        }
        if let Some(e) = s.net.udp[id].err.pop_front() {
            return Some(Err(os(e)));
        }
        match s.choose(K::UdpRecvErr, 3) {
            0 => {}
            1 => return Some(Err(os(ENOMEM))),
            _ => return Some(Err(os(ECONNREFUSED))),
        }
        let (from, d) = s.net.udp[id].queue.pop_front().unwrap();
        let n = d.len().min(buf.len());
        if d.len() > buf.len() {
            s.count("udp-truncated", 1);
        }
        buf[..n].copy_from_slice(&d[..n]);
        s.note_hash(n as u64 ^ 0xabcd);
        Some(Ok((n, from)))
    });
    match r {
        None => Poll::Pending,
        Some(r) => {
            log(|| format!("udp recv sock{} {:?}", id, r.as_ref().map(|x| x.0)));
            Poll::Ready(r)
        }
    }
}

// ---------------- TCP ----------------

pub fn tcp_listen(a: SocketAddr) -> Result<usize, i32> {
    let n = node();
    check_bind(a, n)?;
    with(|s| {
        let mut a = a;
        if a.port() == 0 {
            a.set_port(s.net.port(n));
        }
        if s.net.lst_by.contains_key(&(n, a.port())) {
            return Err(EADDRINUSE);
        }
        let id = s.net.lst.len();
        s.net.lst.push(Listener {
            node: n,
            bound: a,
            backlog: VecDeque::new(),
            w: None,
            open: true,
        });
        s.net.lst_by.insert((n, a.port()), id);
        Ok(id)
    })
}
pub fn tcp_listener_addr(id: usize) -> SocketAddr {
    with(|s| s.net.lst[id].bound)
}
pub fn tcp_listener_close(id: usize) {
    let r = crate::try_with(|s| {
        let l = &mut s.net.lst[id];
        if !l.open {
            return (None, vec![]);
        }
        l.open = false;
        let k = (l.node, l.bound.port());
        let w = l.w.take();
        let pend: Vec<usize> = l.backlog.drain(..).collect();
        if s.net.lst_by.get(&k) == Some(&id) {
            s.net.lst_by.remove(&k);
        }
        (w, pend)
    });
    if let Some((w, pend)) = r {
        drop(w);
        for c in pend {
            tcp_close(c, 1);
        }
    }
}

/// Start connecting; the connection is established once `tcp_poll_connect` says so
pub fn tcp_connect(to: SocketAddr) -> Result<usize, i32> {
    let me = node();
    let (id, lat) = with(|s| {
        let to_node = node_of(to.ip(), me).ok_or(ENETUNREACH)?;
        let port = s.net.port(me);
        let ip = if to.ip().is_loopback() {
            to.ip()
        } else {
            own_ip(me, to.ip())
        };
        let id = s.net.conns.len();
        let mk = |n: u32, a: SocketAddr| End {
            node: n,
            addr: Some(a),
            ..Default::default()
        };
        s.net.conns.push(Conn {
            ends: [mk(me, SocketAddr::new(ip, port)), mk(to_node, to)],
            established: false,
            refused: false,
            cw: None,
        });
        let c = s.choose(K::TcpDelay, 16) as u64;
        Ok::<_, i32>((id, s.net.cfg.latency * 2 + c * s.net.cfg.jitter / 2))
    })?;
    crate::after(lat, move || tcp_syn(id));
    Ok(id)
}
fn tcp_syn(id: usize) {
    let ws = with(|s| {
        let (a, b, to) = {
            let c = &s.net.conns[id];
            (c.ends[0].node, c.ends[1].node, c.ends[1].addr.unwrap())
        };
        if s.net.conns[id].ends[0].closed {
            return Some(vec![]);
        }
        if s.net.is_cut(a, b) || s.net.is_cut(b, a) {
            return None;
        }
        let l = s.net.lst_by.get(&(b, to.port())).copied();
        let mut ws = vec![];
        match l {
            Some(l) => {
                s.net.lst[l].backlog.push_back(id);
                ws.extend(s.net.lst[l].w.take());
                s.net.conns[id].established = true;
                s.count("tcp-connections", 1);
            }
            None => s.net.conns[id].refused = true,
        }
        ws.extend(s.net.conns[id].cw.take());
        Some(ws)
    });
    match ws {
        None => crate::after(100 * crate::MS, move || tcp_syn(id)),
        Some(ws) => {
            for w in ws {
                w.wake()
            }
        }
    }
}
pub fn tcp_poll_connect(id: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|s| {
        let c = &mut s.net.conns[id];
        if c.refused {
            return Poll::Ready(Err(os(ECONNREFUSED)));
        }
        if c.established {
            return Poll::Ready(Ok(()));
        }
        c.cw = Some(cx.waker().clone());
        Poll::Pending
    })
}
pub fn tcp_poll_accept(
    id: usize,
    cx: &mut Context<'_>,
) -> Poll<io::Result<(usize, SocketAddr)>> {
    let mut ws = vec![];
    let r = with(|s| {
        if s.net.lst[id].backlog.is_empty() {
            s.net.lst[id].w = Some(cx.waker().clone());
            return Poll::Pending;
        }
        match s.choose(K::TcpAcceptErr, 3) {
            0 => {}
            1 => return Poll::Ready(Err(os(EMFILE))),
            _ => {
                let c = s.net.lst[id].backlog.pop_front().unwrap();
                let ends = &mut s.net.conns[c].ends;
                ends[0].err = Some(ECONNRESET);
                ws.extend(ends[0].rw.take());
                ws.extend(ends[0].ww.take());
                // nobody ever held the server's end
                ends[1].closed = true;
                ends[1].inbuf.clear();
                return Poll::Ready(Err(os(ECONNABORTED)));
            }
        }
        let c = s.net.lst[id].backlog.pop_front().unwrap();
        let a = s.net.conns[c].ends[0].addr.unwrap();
        s.note_hash(c as u64 ^ 0xacce);
        Poll::Ready(Ok((c, a)))
    });
    for w in ws {
        w.wake()
    }
    r
}
pub fn tcp_addr(id: usize, end: usize) -> (SocketAddr, SocketAddr) {
    with(|s| {
        let c = &s.net.conns[id];
        (c.ends[end].addr.unwrap(), c.ends[1 - end].addr.unwrap())
    })
}

fn maybe_reset(s: &mut Sim, id: usize) -> Vec<Waker> {
    let mut ws = vec![];
    if s.chance(K::TcpReset) {
        for e in s.net.conns[id].ends.iter_mut() {
            if e.err.is_none() {
                e.err = Some(ECONNRESET);
            }
            e.inbuf.clear();
            ws.extend(e.rw.take());
            ws.extend(e.ww.take());
        }
    }
    ws
}
/// Reset the connection, losing what is in flight
pub fn tcp_reset(id: usize) {
    let ws = with(|s| {
        let mut ws = vec![];
        s.count("tcp-reset-forced", 1);
        for e in s.net.conns[id].ends.iter_mut() {
            e.err = Some(ECONNRESET);
            e.inbuf.clear();
            ws.extend(e.rw.take());
            ws.extend(e.ww.take());
        }
        ws
    });
    for w in ws {
        w.wake()
    }
}

pub fn tcp_poll_write(
    id: usize,
    end: usize,
    cx: &mut Context<'_>,
    data: &[u8],
) -> Poll<io::Result<usize>> {
    if data.is_empty() {
        return Poll::Ready(Ok(0));
    }
    let mut ws = vec![];
    let r = with(|s| {
        ws = maybe_reset(s, id);
        let window = s.net.cfg.tcp_window;
        {
            let me = &s.net.conns[id].ends[end];
            if let Some(e) = me.err {
                return Err(Some(e));
            }
            if me.wr_closed {
                return Err(Some(EPIPE));
            }
        }
        let (a, b) = {
            let c = &s.net.conns[id];
            (c.ends[end].node, c.ends[1 - end].node)
        };
        if s.net.conns[id].ends[1 - end].closed && !s.net.is_cut(a, b) {
            s.net.conns[id].ends[end].err = Some(EPIPE);
            return Err(Some(ECONNRESET));
        }
        let used = {
            let p = &s.net.conns[id].ends[1 - end];
            p.inbuf.len() + p.inflight
        };
        if used >= window {
            s.net.conns[id].ends[end].ww = Some(cx.waker().clone());
            return Err(None);
        }
        let mut n = data.len().min(window - used);
        if n > 1 {
            let c = s.choose(K::TcpShortWrite, 16) as usize;
            if c > 0 {
                n = (n * c / 16).max(1);
            }
        }
        s.count("tcp-writes", 1);
        s.note_hash(n as u64 ^ 0x7c9);
        if s.net.record {
            let c = &s.net.conns[id];
            let rec = WireRec {
                at: now(),
                tcp: true,
                conn: id * 2 + end,
                from: c.ends[end].addr.unwrap(),
                to: c.ends[1 - end].addr.unwrap(),
                from_node: a,
                to_node: b,
                data: data[..n].to_vec(),
            };
            s.net.wire.push(rec);
        }
        // cut into segments that arrive one after the other
        let mut pieces: Vec<(Vec<u8>, u64)> = vec![];
        let mut rest = &data[..n];
        while !rest.is_empty() {
            let mut k = rest.len();
            if k > 1 && pieces.len() < 64 {
                let c = s.choose(K::TcpSplit, 64) as usize;
                if c > 0 {
                    k = if c < 16 { c.min(k - 1) } else { (k * (c - 15) / 50).max(1) };
                }
            }
            let d = s.choose(K::TcpDelay, 16) as u64;
            pieces.push((rest[..k].to_vec(), d * s.net.cfg.jitter / 4));
            rest = &rest[k..];
        }
        let lat = s.net.cfg.latency;
        let p = &mut s.net.conns[id].ends[1 - end];
        p.inflight += n;
        let mut evs = vec![];
        for (d, extra) in pieces {
            let t = (now() + lat + extra).max(p.last_arrival + 1);
            p.last_arrival = t;
            evs.push((t, d));
        }
        Ok((n, evs))
    });
    for w in ws {
        w.wake()
    }
    match r {
        Err(Some(e)) => {
            log(|| format!("tcp{}.{} write error {}", id, end, e));
            Poll::Ready(Err(os(e)))
        }
        Err(None) => Poll::Pending,
        Ok((n, evs)) => {
            log(|| format!("tcp{}.{} write {}/{}", id, end, n, data.len()));
            for (t, d) in evs {
                at(t, move || tcp_arrive(id, 1 - end, Some(d)));
            }
            Poll::Ready(Ok(n))
        }
    }
}

thread_local! {
    static HELD: std::cell::RefCell<HashMap<(usize, usize), VecDeque<Option<Vec<u8>>>>> =
        std::cell::RefCell::new(HashMap::new());
}
pub fn reset_thread_state() {
    HELD.with(|h| h.borrow_mut().clear());
    set_mitm(None);
}

/// A segment (or the end of the stream) reaches `end`
fn tcp_arrive(id: usize, end: usize, d: Option<Vec<u8>>) {
    let cut = with(|s| {
        let c = &s.net.conns[id];
        s.net.is_cut(c.ends[1 - end].node, c.ends[end].node)
    });
    let held = HELD.with(|h| h.borrow().get(&(id, end)).map_or(false, |q| !q.is_empty()));
    if cut || held {
        // retransmitted, in order, once the partition heals
        let _own = crate::Own::new();
        let first = HELD.with(|h| {
            let mut h = h.borrow_mut();
            let q = h.entry((id, end)).or_default();
            q.push_back(d);
            q.len() == 1
        });
        if first {
            with(|s| s.count("tcp-held-by-partition", 1));
            crate::after(50 * crate::MS, move || tcp_retry(id, end));
        }
        return;
    }
    tcp_put(id, end, d);
}
fn tcp_retry(id: usize, end: usize) {
    let cut = with(|s| {
        let c = &s.net.conns[id];
        s.net.is_cut(c.ends[1 - end].node, c.ends[end].node)
    });
    if cut {
        crate::after(50 * crate::MS, move || tcp_retry(id, end));
        return;
    }
    let q = HELD.with(|h| h.borrow_mut().remove(&(id, end))).unwrap_or_default();
    for d in q {
        tcp_put(id, end, d);
    }
}
fn tcp_put(id: usize, end: usize, d: Option<Vec<u8>>) {
    let ws = with(|s| {
        let mut ws = vec![];
        let closed = s.net.conns[id].ends[end].closed;
        match d {
            Some(d) => {
                let e = &mut s.net.conns[id].ends[end];
                e.inflight -= d.len();
                if closed {
                    // data for a closed socket: the peer is reset
                    let p = &mut s.net.conns[id].ends[1 - end];
                    if p.err.is_none() {
                        p.err = Some(ECONNRESET);
                    }
                    ws.extend(p.rw.take());
                    ws.extend(p.ww.take());
                } else if e.err.is_none() {
                    e.inbuf.extend(d);
                    ws.extend(e.rw.take());
                }
            }
            None => {
                let e = &mut s.net.conns[id].ends[end];
                e.fin = true;
                ws.extend(e.rw.take());
            }
        }
        ws
    });
    for w in ws {
        w.wake()
    }
}

pub fn tcp_poll_read(
    id: usize,
    end: usize,
    cx: &mut Context<'_>,
    buf: &mut [u8],
) -> Poll<io::Result<usize>> {
    let mut ws = vec![];
    let r = with(|s| {
        {
            let e = &mut s.net.conns[id].ends[end];
            if let Some(x) = e.err {
                return Some(Err(os(x)));
            }
            if e.inbuf.is_empty() {
                if e.fin {
                    return Some(Ok(0));
                }
                e.rw = Some(cx.waker().clone());
                return None;
            }
        }
        let w2 = maybe_reset(s, id);
        if !w2.is_empty() || s.net.conns[id].ends[end].err.is_some() {
            ws = w2;
            return Some(Err(os(ECONNRESET)));
        }
        let mut n = buf.len().min(s.net.conns[id].ends[end].inbuf.len());
        if n > 1 {
            let c = s.choose(K::TcpShortRead, 16) as usize;
            if c > 0 {
                n = (n * c / 16).max(1);
            }
        }
        let e = &mut s.net.conns[id].ends[end];
        for (i, b) in e.inbuf.drain(..n).enumerate() {
            buf[i] = b;
        }
        ws.extend(s.net.conns[id].ends[1 - end].ww.take());
        s.note_hash(n as u64 ^ 0x7ead);
        s.count("tcp-reads", 1);
        Some(Ok(n))
    });
    for w in ws {
        w.wake()
    }
    match r {
        None => Poll::Pending,
        Some(r) => {
            log(|| format!("tcp{}.{} read {:?}", id, end, r));
            Poll::Ready(r)
        }
    }
}

/// Half-close: the peer will read the end of the stream
pub fn tcp_shutdown(id: usize, end: usize) {
    let t = crate::try_with(|s| {
        let lat = s.net.cfg.latency;
        let c = &mut s.net.conns[id];
        if c.ends[end].wr_closed || !c.established {
            c.ends[end].wr_closed = true;
            return None;
        }
        c.ends[end].wr_closed = true;
        let p = &mut c.ends[1 - end];
        let t = (now() + lat).max(p.last_arrival + 1);
        p.last_arrival = t;
        Some(t)
    })
    .flatten();
    if let Some(t) = t {
        at(t, move || tcp_arrive(id, 1 - end, None));
    }
}
pub fn tcp_close(id: usize, end: usize) {
    if !crate::active() {
        return;
    }
    let mut dropped = vec![];
    let unread = crate::try_with(|s| {
        let e = &mut s.net.conns[id].ends[end];
        if e.closed {
            return false;
        }
        let unread = !e.inbuf.is_empty();
        e.closed = true;
        dropped.extend(e.rw.take());
        dropped.extend(e.ww.take());
        unread
    })
    .unwrap_or(false);
    drop(dropped);
    log(|| format!("tcp{}.{} close", id, end));
    if unread {
        // closing with unread data resets the connection
        let w = crate::try_with(|s| {
            let p = &mut s.net.conns[id].ends[1 - end];
            if p.err.is_none() {
                p.err = Some(ECONNRESET);
            }
            (p.rw.take(), p.ww.take())
        });
        if let Some((a, b)) = w {
            a.map(|w| w.wake());
            b.map(|w| w.wake());
        }
    } else {
        tcp_shutdown(id, end);
    }
}
/// Connections that are open at both ends
pub fn tcp_open_conns() -> Vec<usize> {
    with(|s| {
        s.net
            .conns
            .iter()
            .enumerate()
            .filter(|(_, c)| {
                c.established && c.ends.iter().all(|e| !e.closed && e.err.is_none())
            })
            .map(|(i, _)| i)
            .collect()
    })
}
/// Ends of connections at `n` that hold a socket
pub fn tcp_open_ends(n: u32) -> usize {
    with(|s| {
        s.net
            .conns
            .iter()
            .filter(|c| c.established)
            .flat_map(|c| c.ends.iter())
            .filter(|e| e.node == n && !e.closed)
            .count()
    })
}
pub fn udp_open(n: u32) -> usize {
    with(|s| s.net.udp.iter().filter(|u| u.node == n && u.open).count())
}
pub fn listeners_open(n: u32) -> usize {
    with(|s| s.net.lst.iter().filter(|u| u.node == n && u.open).count())
}

/// The kernel closes every socket of a dead process
pub(crate) fn crash(n: u32) {
    let (udps, lsts, conns) = with(|s| {
        let u: Vec<usize> = (0..s.net.udp.len())
            .filter(|i| s.net.udp[*i].node == n && s.net.udp[*i].open)
            .collect();
        let l: Vec<usize> = (0..s.net.lst.len())
            .filter(|i| s.net.lst[*i].node == n && s.net.lst[*i].open)
            .collect();
        let mut c = vec![];
        for (i, x) in s.net.conns.iter().enumerate() {
            for e in 0..2 {
                if x.ends[e].node == n && !x.ends[e].closed {
                    c.push((i, e));
                }
            }
        }
        (u, l, c)
    });
    for u in udps {
        udp_close(u);
    }
    for l in lsts {
        tcp_listener_close(l);
    }
    for (c, e) in conns {
        tcp_close(c, e);
    }
    note_hash(n as u64 ^ 0xdead);
    let _ = choose(K::Crash, 1);
}
/// The connection a socket with this local address belongs to
pub fn tcp_conn_by_addr(a: SocketAddr) -> Option<usize> {
    with(|s| {
        s.net
            .conns
            .iter()
            .rposition(|c| c.ends.iter().any(|e| e.addr == Some(a) && !e.closed))
    })
}
/// Connections made by `n` that are healthy at both ends
pub fn tcp_alive_from(n: u32) -> Vec<usize> {
    with(|s| {
        s.net
            .conns
            .iter()
            .enumerate()
            .filter(|(_, c)| {
                c.established
                    && c.ends[0].node == n
                    && c.ends.iter().all(|e| !e.wr_closed)
                    && c.ends.iter().all(|e| !e.closed && e.err.is_none())
            })
            .map(|(i, _)| i)
            .collect()
    })
}
/// The latest connection made by `n`
pub fn tcp_last_from(n: u32) -> Option<usize> {
    with(|s| s.net.conns.iter().rposition(|c| c.ends[0].node == n))
}
