//! Glue between tokio and the simulator
#![allow(missing_docs)]

use crate::park::{Park, Unpark};
use simcore::K;
use std::fs::File;
use std::future::Future;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

// ---------- parking: time only passes here ----------

#[derive(Debug)]
pub(crate) struct SimPark {}

#[derive(Debug, Clone)]
pub(crate) struct SimUnpark {}

impl SimPark {
    pub(crate) fn new() -> SimPark {
        SimPark {}
    }
}

impl Park for SimPark {
    type Unpark = SimUnpark;
    type Error = ();

    fn unpark(&self) -> SimUnpark {
        SimUnpark {}
    }

    fn park(&mut self) -> Result<(), ()> {
        if !simcore::run_event(u64::MAX) {
            panic!("simulation deadlock: nothing can ever happen again");
        }
        // everything due at the same instant
        while simcore::run_event(simcore::now()) {}
        Ok(())
    }

    fn park_timeout(&mut self, dur: Duration) -> Result<(), ()> {
        let limit = simcore::now().saturating_add(dur.as_nanos() as u64);
        if simcore::run_event(limit) {
            while simcore::run_event(simcore::now()) {}
        } else {
            simcore::advance_to(limit);
        }
        Ok(())
    }
}

impl Unpark for SimUnpark {
    fn unpark(&self) {}
}

// ---------- tasks belong to nodes ----------

pub(crate) struct Tagged<F> {
    inner: Option<F>,
    key: simcore::TaskKey,
    stalled_until: u64,
}

impl<F> Tagged<F> {
    pub(crate) fn new(f: F) -> Self {
        Tagged {
            inner: Some(f),
            key: simcore::task_register(),
            stalled_until: 0,
        }
    }
}

/// Also restores the node when the task panics
struct OnNode(u32, u32);
impl Drop for OnNode {
    fn drop(&mut self) {
        simcore::set_node(self.0);
        if std::thread::panicking() {
            simcore::task_panicked(self.1);
        }
    }
}

impl<F: Future> Future for Tagged<F> {
    type Output = F::Output;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        // `inner` is structurally pinned: it is only ever dropped in place
        let me = unsafe { self.get_unchecked_mut() };
        if !simcore::task_alive(&me.key) {
            let old = simcore::set_node(me.key.node);
            me.inner = None;
            simcore::set_node(old);
            simcore::task_unregister(&me.key);
            // ends the task, so that nothing of it is retained
            std::panic::resume_unwind(Box::new("node crashed"));
        }
        let now = simcore::now();
        if now < me.stalled_until {
            return Poll::Pending;
        }
        if me.key.node != 0 {
            let c = simcore::choose(K::Stall, 8);
            if c > 0 {
                let d = 100_000u64 << (2 * c);
                me.stalled_until = now + d;
                simcore::stall_note(d);
                let w = cx.waker().clone();
                simcore::after(d, move || w.wake());
                return Poll::Pending;
            }
        }
        simcore::sched_note(me.key.id);
        simcore::task_waker(&me.key, cx.waker());
        let guard = OnNode(simcore::set_node(me.key.node), me.key.node);
        let r = match me.inner.as_mut() {
            Some(f) => unsafe { Pin::new_unchecked(f) }.poll(cx),
            None => Poll::Pending,
        };
        drop(guard);
        if r.is_ready() {
            simcore::task_unregister(&me.key);
        }
        r
    }
}

impl<F> Drop for Tagged<F> {
    fn drop(&mut self) {
        if simcore::active() {
            let old = simcore::set_node(self.key.node);
            self.inner = None;
            simcore::set_node(old);
            simcore::task_unregister(&self.key);
        }
    }
}

/// A point where a multi-threaded runtime may run another task first
pub(crate) fn preempt() -> Preempt {
    Preempt { done: false }
}
pub(crate) struct Preempt {
    done: bool,
}
impl Future for Preempt {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.done || !simcore::active() {
            return Poll::Ready(());
        }
        self.done = true;
        if simcore::node() != 0 && simcore::chance(K::Yield) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    }
}

// ---------- files that fail ----------

pub(crate) struct FaultFile<'a>(pub(crate) &'a File);

impl Read for FaultFile<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut f = self.0;
        match simcore::fs_io(false, buf.len()) {
            simcore::IoPlan::Full => f.read(buf),
            simcore::IoPlan::Short(n) => f.read(&mut buf[..n]),
            simcore::IoPlan::Torn(_, e) | simcore::IoPlan::Fail(e) => {
                Err(io::Error::from_raw_os_error(e))
            }
        }
    }
}
impl Write for FaultFile<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut f = self.0;
        match simcore::fs_io(true, buf.len()) {
            simcore::IoPlan::Full => f.write(buf),
            simcore::IoPlan::Short(n) => f.write(&buf[..n]),
            simcore::IoPlan::Torn(n, e) => {
                f.write_all(&buf[..n])?;
                Err(io::Error::from_raw_os_error(e))
            }
            simcore::IoPlan::Fail(e) => Err(io::Error::from_raw_os_error(e)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for FaultFile<'_> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let mut f = self.0;
        f.seek(pos)
    }
}
impl FaultFile<'_> {
    pub(crate) fn set_len(&self, n: u64) -> io::Result<()> {
        match simcore::fs_io(true, 0) {
            simcore::IoPlan::Fail(e) if e != 4 => Err(io::Error::from_raw_os_error(e)),
            _ => self.0.set_len(n),
        }
    }
}

/// `std::fs::OpenOptions` only tells what it asks for through `Debug`
pub(crate) fn opens_for_writing(o: &std::fs::OpenOptions) -> bool {
    let d = format!("{:?}", o);
    ["write: true", "append: true", "truncate: true", "create: true", "create_new: true"]
        .iter()
        .any(|x| d.contains(x))
}

pub(crate) type SortedDir = std::vec::IntoIter<io::Result<std::fs::DirEntry>>;

/// Folder entries in an order that does not depend on the file system
pub(crate) fn sorted_dir(d: std::fs::ReadDir) -> io::Result<SortedDir> {
    let mut v: Vec<_> = d.collect();
    v.sort_by_key(|e| e.as_ref().ok().map(|e| e.file_name()));
    Ok(v.into_iter())
}

/// The resolver knows `localhost` and `n<node>`
pub(crate) fn resolve(s: &str) -> io::Result<std::vec::IntoIter<std::net::SocketAddr>> {
    let bad = || io::Error::new(io::ErrorKind::Other, "failed to lookup address information");
    let (h, p) = match s.rfind(':') {
        Some(i) => (&s[..i], &s[i + 1..]),
        None => return Err(bad()),
    };
    let port: u16 = p.parse().map_err(|_| bad())?;
    let ip: std::net::IpAddr = match h {
        "localhost" => "127.0.0.1".parse().unwrap(),
        _ if h.starts_with('n') => format!("10.0.0.{}", &h[1..]).parse().map_err(|_| bad())?,
        _ => return Err(bad()),
    };
    Ok(vec![std::net::SocketAddr::new(ip, port)].into_iter())
}

pub use crate::process::imp::{reset as reset_procs, table as proc_table, truth as proc_truth, Truth, PROC_NODE};
