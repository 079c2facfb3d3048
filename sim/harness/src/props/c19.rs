//! C19: delimited streams are cut correctly however the bytes arrive
use super::*;
use crate::exec::in_runtime;
use crate::plan::*;
use crate::world::*;
use over_there::utils::{DelimiterReader, DelimiterWriter};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{self, ErrorKind};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub static PROP: Prop = Prop {
    id: "C19",
    gen,
    run,
    quick_runs: 150_000,
    batch: 200,
    rule: "batches of pieces (empty, of the maximum size, oversized, full of whole and partial delimiters) with delimiters of 1 to 20 bytes (overlapping themselves or not) and maximum sizes of 0 to 4096 go through DelimiterWriter, over a link that accepts and delivers any number of bytes at a time and fails in between, into DelimiterReader in its blocking and asynchronous form (with reads that are never finished and dropped), or over a simulated TCP connection. The link of the blocking form behaves as a peer that sends its next batch only once all pieces of the last one have been returned. Against a plain split of the bytes sent: every piece of at most the maximum size must be returned exactly once, unchanged and in order; an oversized one may at most yield one of its tails; nothing else may be returned; a read must not touch a link that has nothing more to give while a piece is due; the writer must have written the piece and the delimiter, or a prefix of that if it failed.",
    real: "DelimiterReader and DelimiterWriter as built from the current tree",
    stub: "what they read from and write to: an in-memory link with drawn chunk sizes, errors and pauses, or the simulated TCP of the patched tokio",
    assumptions: &["sampling: a clean batch is evidence, not proof", "the caller's buffer holds the maximum size; the delimiter is not empty and not changed while in use"],
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    delim: Vec<u8>,
    max: usize,
    /// 0 blocking, 1 non-blocking, 2 asynchronous, 3 asynchronous over TCP
    form: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Batch(Vec<Vec<u8>>);

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let form = *rng.pick(&[0u8, 0, 1, 1, 2, 2, 3]);
    let name = ["blocking", "nonblocking", "async", "async-tcp"][form as usize];
    let mut p = Plan::new("C19", name, rng);
    let delim = match rng.below(9) {
        0 => b"</>".to_vec(),
        1 => b"\r\n".to_vec(),
        2 => b"aa".to_vec(),
        3 => b"aba".to_vec(),
        4 => b"aabaa".to_vec(),
        5 => vec![rng.below(256) as u8],
        6 => {
            let n = rng.range(2, 20) as usize;
            (0..n).map(|_| b'a' + rng.below(2) as u8).collect()
        }
        7 => vec![0; rng.range(1, 4) as usize],
        _ => {
            let n = rng.range(2, 20) as usize;
            rng.bytes(n)
        }
    };
    let max = *rng.pick(&[0, 1, 2, 3, 5, 8, 16, 17, 100, 4096]);
    let mut ops = vec![];
    for _ in 0..rng.range(1, if thorough { 12 } else { 6 }) {
        let n = rng.range(1, 6);
        ops.push(Batch(
            (0..n)
                .map(|_| {
                    let n = match rng.below(10) {
                        0 => 0,
                        1 => max,
                        2 => max + 1,
                        3 => max + delim.len(),
                        4 => max + rng.below(3 * max as u64 + 20) as usize,
                        _ => rng.below(max.min(300) as u64 + 1) as usize,
                    };
                    let mut v: Vec<u8> = vec![];
                    while v.len() < n {
                        match rng.below(4) {
                            // not too many pieces in all
                                0 if n > 400 => {
                                let k = rng.below(300) as usize;
                                v.extend_from_slice(&rng.bytes(k));
                            }
                            0 => {
                                let k = rng.below(delim.len() as u64 + 1) as usize;
                                v.extend_from_slice(&delim[..k]);
                            }
                            1 => {
                                let k = rng.below(delim.len() as u64 + 1) as usize;
                                v.extend_from_slice(&delim[k..]);
                            }
                            2 => v.push(*rng.pick(&delim)),
                            _ => v.push(if rng.below(2) == 0 { b'a' + rng.below(3) as u8 } else { rng.next() as u8 }),
                        }
                    }
                    v.truncate(n);
                    v
                })
                .collect(),
        ));
    }
    let par = Params { delim, max, form };
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 300, 2000]);
    p.net.window = *rng.pick(&[100, 4000, 65536]);
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    p.swarm(rng, K::TcpShortRead, 80, 50_000, 1_000_000);
    p.swarm(rng, K::TcpShortWrite, 60, 50_000, 1_000_000);
    p.swarm(rng, K::SyscallErr, 50, 50_000, 700_000);
    p.swarm(rng, K::TcpSplit, 60, 50_000, 1_000_000);
    p.swarm(rng, K::TcpDelay, 40, 50_000, 700_000);
    p.swarm(rng, K::TcpReset, 15, 1000, 30_000);
    p.max_steps = 2_000_000;
    p
}

/// The reference: the pieces that are complete, and the rest
fn split(b: &[u8], d: &[u8]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let (mut out, mut from, mut i) = (vec![], 0, 0);
    while i + d.len() <= b.len() {
        if &b[i..i + d.len()] == d {
            out.push(b[from..i].to_vec());
            i += d.len();
            from = i;
        } else {
            i += 1;
        }
    }
    (out, b[from..].to_vec())
}
/// What must be returned, and how far that has come
#[derive(Default)]
struct Track {
    delim: Vec<u8>,
    max: usize,
    sent: usize,
    want: Vec<Vec<u8>>,
    rest: Vec<u8>,
    got: Vec<Vec<u8>>,
    /// how many of `want` may be done with
    at: std::collections::BTreeSet<usize>,
}
impl Track {
    fn new(par: &Params) -> Track {
        let mut t = Track {
            delim: par.delim.clone(),
            max: par.max,
            ..Default::default()
        };
        t.at.insert(0);
        t
    }
    fn feed(&mut self, b: &[u8]) {
        self.sent += b.len();
        self.rest.extend_from_slice(b);
        let (p, rest) = split(&self.rest, &self.delim);
        self.want.extend(p);
        self.rest = rest;
    }
    /// Can this be the next one? Pieces of at most the maximum size must not
    /// be left out, others may or may yield one of their tails.
    fn returned(&mut self, g: &[u8]) -> bool {
        let mut next: std::collections::BTreeSet<usize> = Default::default();
        for &i in &self.at {
            let mut k = i;
            while k < self.want.len() {
                let w = &self.want[k];
                if w.len() <= self.max {
                    if w.is_empty() {
                        k += 1;
                        continue;
                    }
                    if w == g {
                        next.insert(k + 1);
                    }
                    break;
                }
                if g.len() <= self.max && w.ends_with(g) {
                    next.insert(k + 1);
                }
                k += 1;
            }
        }
        if self.got.len() < 60 {
            self.got.push(g.to_vec());
        }
        self.at = next;
        !self.at.is_empty()
    }
    /// Pieces that are due
    fn due(&self) -> usize {
        match self.at.iter().next_back() {
            Some(k) => self.want[*k..].iter().filter(|w| !w.is_empty() && w.len() <= self.max).count(),
            None => 1,
        }
    }
    fn tell(&self) -> String {
        let n = self.want.len().min(60);
        format!(
            "delimiter {} maximum {}: returned {} of {}",
            short(&[self.delim.clone()]),
            self.max,
            short(&self.got),
            short(&self.want[..n])
        )
    }
}
fn short(v: &[Vec<u8>]) -> String {
    v.iter()
        .map(|p| {
            let mut s = String::from_utf8_lossy(p).into_owned();
            if s.chars().count() > 40 {
                s = format!("{}… ({})", s.chars().take(40).collect::<String>(), p.len());
            }
            format!("{:?}", s)
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// A peer and what is on the way from it
struct Link {
    par: Params,
    /// yet to be sent
    todo: VecDeque<Batch>,
    wire: VecDeque<u8>,
    track: Track,
    bad: Option<(String, String)>,
    broken: bool,
    /// reads since the last progress
    idle: u64,
}
fn transient() -> io::Error {
    let k = [
        ErrorKind::WouldBlock,
        ErrorKind::Interrupted,
        ErrorKind::TimedOut,
        ErrorKind::Other,
        ErrorKind::UnexpectedEof,
    ];
    k[simcore::choose(K::SyscallErr, 5) as usize].into()
}
impl Link {
    fn write(&mut self) {
        let b = match self.todo.pop_front() {
            Some(b) => b,
            None => return,
        };
        for piece in b.0 {
            let mut w = DelimiterWriter::new_with_delimiter(&self.par.delim);
            let out: Rc<RefCell<Vec<u8>>> = Default::default();
            let o = out.clone();
            let r = w.write(&piece, move |d| {
                if simcore::choose(K::SyscallErr, 40) == 1 {
                    return Err(ErrorKind::BrokenPipe.into());
                }
                let n = if simcore::chance(K::TcpShortWrite) { 1 + simcore::choose(K::Poll, 64) as usize } else { d.len() };
                let n = n.min(d.len());
                o.borrow_mut().extend_from_slice(&d[..n]);
                Ok(n)
            });
            let done = out.borrow().clone();
            let mut whole = piece.clone();
            whole.extend_from_slice(&self.par.delim);
            match r {
                Ok(n) => {
                    if done != whole || n != piece.len() {
                        self.bad = Some(("writer".into(), format!("wrote {} for {} and reports {}", short(&[done.clone()]), short(&[whole]), n)));
                    }
                }
                Err(_) => {
                    if !whole.starts_with(&done) {
                        self.bad = Some(("writer".into(), format!("wrote {} of {} before failing", short(&[done.clone()]), short(&[whole]))));
                    }
                    self.broken = true;
                }
            }
            self.track.feed(&done);
            self.wire.extend(done.iter());
            if self.broken {
                self.todo.clear();
                break;
            }
        }
    }
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.idle += 1;
        if simcore::chance(K::SyscallErr) {
            return Err(transient());
        }
        if self.wire.is_empty() {
            if self.par.form == 0 && self.track.due() > 0 && self.bad.is_none() {
                self.bad = Some(("blocks".into(), "a piece that has arrived in full is not returned before more is read from a peer that waits".into()));
            }
            self.write();
        }
        if self.wire.is_empty() {
            return if self.par.form == 1 { Err(ErrorKind::WouldBlock.into()) } else { Ok(0) };
        }
        let mut n = self.wire.len().min(buf.len());
        if n > 1 && simcore::chance(K::TcpShortRead) {
            n = n.min(1 + simcore::choose(K::TcpSplit, 32) as usize);
        }
        for b in buf[..n].iter_mut() {
            *b = self.wire.pop_front().expect("harness: bytes");
        }
        if n > 0 {
            self.idle = 0;
        }
        Ok(n)
    }
    fn returned(&mut self, r: io::Result<usize>, data: &[u8]) {
        if let Ok(n) = r {
            if n > 0 {
                self.idle = 0;
                if !self.track.returned(&data[..n]) && self.bad.is_none() {
                    self.bad = Some(("pieces".into(), self.track.tell()));
                }
            }
        }
    }
    /// Nothing more can come, and enough time was given
    fn finished(&self) -> bool {
        self.bad.is_some() || (self.todo.is_empty() && self.wire.is_empty() && self.idle > 20 + 3 * self.track.want.len() as u64)
    }
}

fn judge(rep: &Rep, t: &Track, bad: Option<(String, String)>) {
    let mut rep = rep.borrow_mut();
    if let Some((s, d)) = bad {
        rep.fail(s, d);
        return;
    }
    rep.check(t.due() == 0, "pieces", || t.tell());
    rep.probe("pieces sent", t.want.len() as u64);
    rep.probe("oversized pieces", t.want.iter().filter(|w| w.len() > t.max).count() as u64);
    for g in &t.got {
        rep.mix_state(simcore::hash_bytes(g));
    }
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Batch> = plan.o();
    let rep2 = rep.clone();
    in_runtime(rep, async move {
        let mut reader = DelimiterReader::new_with_delimiter(par.max, &par.delim);
        let mut data = vec![0; par.max];
        if par.form == 3 {
            return tcp(par, ops, rep2).await;
        }
        let link = Rc::new(RefCell::new(Link {
            par: par.clone(),
            todo: ops.into(),
            wire: Default::default(),
            track: Track::new(&par),
            bad: None,
            broken: false,
            idle: 0,
        }));
        let mut calls = 0u64;
        while !link.borrow().finished() {
            calls += 1;
            let most = 40_000 + 20 * link.borrow().track.sent as u64;
            if calls > most {
                link.borrow_mut().bad = Some(("stuck".into(), "reads neither return anything nor take more in".into()));
                break;
            }
            let r = if par.form == 2 {
                let l = link.clone();
                // a read that is not waited for
                let give_up = simcore::choose(K::Yield, 8) == 1;
                let f = reader.async_read(&mut data, |b| {
                    let r = if give_up { None } else { Some(l.borrow_mut().read(b)) };
                    async move {
                        match r {
                            Some(r) => {
                                tokio::time::delay_for(Duration::from_micros(1)).await;
                                r
                            }
                            None => futures::future::pending().await,
                        }
                    }
                });
                if give_up {
                    match tokio::time::timeout(Duration::from_micros(10), f).await {
                        Ok(r) => r,
                        Err(_) => {
                            link.borrow_mut().idle += 1;
                            continue;
                        }
                    }
                } else {
                    f.await
                }
            } else {
                let l = link.clone();
                reader.read(&mut data, move |b| l.borrow_mut().read(b))
            };
            simcore::step();
            let mut l = link.borrow_mut();
            // an error or nothing at all is no progress either
            if !matches!(r, Ok(n) if n > 0) {
                l.idle += 1;
            }
            l.returned(r, &data);
        }
        let mut l = link.borrow_mut();
        let bad = l.bad.take();
        judge(&rep2, &l.track, bad);
    });
}

async fn tcp(par: Params, ops: Vec<Batch>, rep: Rep) {
    let addr = std::net::SocketAddr::new(simcore::net::node_ip(SERVER), 7000);
    let mut lst = match spawn_on(SERVER, TcpListener::bind(addr)).await {
        Ok(Ok(l)) => l,
        _ => return rep.borrow_mut().fail("harness", "no listener"),
    };
    let sent: Arc<Mutex<(Vec<u8>, bool)>> = Default::default();
    let (s2, p2) = (sent.clone(), par.clone());
    spawn_on(10, async move {
        if let Ok(mut s) = TcpStream::connect(addr).await {
            'all: for b in ops {
                for piece in b.0 {
                    let mut v = vec![];
                    let mut w = DelimiterWriter::new_with_delimiter(&p2.delim);
                    let _ = w.write(&piece, |d| {
                        v.extend_from_slice(d);
                        Ok(d.len())
                    });
                    s2.lock().unwrap().0.extend_from_slice(&v);
                    if s.write_all(&v).await.is_err() {
                        s2.lock().unwrap().1 = true;
                        break 'all;
                    }
                }
                if simcore::chance(K::Yield) {
                    sleep_ms(3).await;
                }
            }
            let _ = s.shutdown(std::net::Shutdown::Write);
            sleep_ms(60_000).await;
        }
    });
    let mut s = match tokio::time::timeout(Duration::from_secs(5), lst.accept()).await {
        Ok(Ok((s, _))) => s,
        _ => return,
    };
    let mut reader = DelimiterReader::new_with_delimiter(par.max, &par.delim);
    let mut data = vec![0; par.max];
    let mut track = Track::new(&par);
    let mut bad = None;
    let mut quiet = 0;
    let mut ended = false;
    let mut reset = false;
    let mut taken: Vec<u8> = vec![];
    let t0 = simcore::now();
    while quiet < 200 + 3 * track.want.len() && simcore::now() - t0 < 200_000 * MS {
        let (mut nothing, mut fresh) = (false, 0);
        let r = {
            let (s, nothing, ended, reset, fresh, taken) = (&mut s, &mut nothing, &mut ended, &mut reset, &mut fresh, &mut taken);
            let f = reader.async_read(&mut data, |b| {
                // what can be had without waiting
                let w = futures::task::noop_waker();
                let mut cx = std::task::Context::from_waker(&w);
                let r = match std::pin::Pin::new(s).poll_read(&mut cx, b) {
                    std::task::Poll::Ready(r) => r,
                    std::task::Poll::Pending => {
                        *nothing = true;
                        Err(ErrorKind::WouldBlock.into())
                    }
                };
                match &r {
                    Ok(0) => *ended |= !b.is_empty(),
                    Ok(n) => {
                        *fresh = *n;
                        taken.extend_from_slice(&b[..*n]);
                    }
                    Err(e) if e.kind() != ErrorKind::WouldBlock && e.kind() != ErrorKind::Interrupted => *reset = true,
                    _ => {}
                }
                async move { r }
            });
            f.await
        };
        let mut progress = fresh > 0;
        if fresh > 0 {
            track.feed(&taken[taken.len() - fresh..]);
        }
        if let Ok(n) = r {
            if n > 0 {
                if !track.returned(&data[..n]) {
                    bad = Some(("pieces".to_string(), track.tell()));
                    break;
                }
                progress = true;
            }
        }
        if progress {
            quiet = 0;
        } else if ended || reset || !nothing {
            quiet += 1;
        }
        if nothing {
            sleep_ms(1).await;
        }
    }
    // what the network delivered is what counts
    judge(&rep, &track, bad);
    let all = sent.lock().unwrap();
    if !reset && !all.1 && plan_free_of_resets() {
        rep.borrow_mut().check(taken == all.0, "bytes-lost", || {
            format!("{} of {} bytes were taken in", taken.len(), all.0.len())
        });
    }
}
fn plan_free_of_resets() -> bool {
    simcore::with(|s| s.injected[K::TcpReset as usize] == 0)
}
