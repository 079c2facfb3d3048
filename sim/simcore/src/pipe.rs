//! Bounded in-memory byte pipe with the semantics of a Unix pipe
use crate::{choose, with, K};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

struct Inner {
    buf: VecDeque<u8>,
    cap: usize,
    rd_open: bool,
    writers: usize,
    rw: Option<Waker>,
    ww: Option<Waker>,
}

#[derive(Clone)]
pub struct Pipe(Rc<RefCell<Inner>>);

// A run owns its thread: pipes never leave it
unsafe impl Send for Pipe {}
unsafe impl Sync for Pipe {}

fn wake(w: Option<Waker>) {
    if let Some(w) = w {
        w.wake()
    }
}

impl Pipe {
    pub fn new(cap: usize) -> Pipe {
        Pipe(Rc::new(RefCell::new(Inner {
            buf: VecDeque::new(),
            cap,
            rd_open: true,
            writers: 1,
            rw: None,
            ww: None,
        })))
    }
    pub fn add_writer(&self) {
        self.0.borrow_mut().writers += 1;
    }
    pub fn poll_read(&self, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
        let (n, w) = {
            let mut i = self.0.borrow_mut();
            if i.buf.is_empty() {
                if i.writers == 0 {
                    return Poll::Ready(Ok(0));
                }
                i.rw = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut n = out.len().min(i.buf.len());
            if n > 1 {
                let c = choose(K::ProcShort, 8) as usize;
                if c > 0 {
                    n = (n * c / 8).max(1);
                }
            }
            for b in out.iter_mut().take(n) {
                *b = i.buf.pop_front().unwrap();
            }
            (n, i.ww.take())
        };
        with(|s| s.note_hash(n as u64));
        wake(w);
        Poll::Ready(Ok(n))
    }
    pub fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let (n, w) = {
            let mut i = self.0.borrow_mut();
            if !i.rd_open {
                return Poll::Ready(Err(io::Error::from_raw_os_error(32)));
            }
            let space = i.cap - i.buf.len().min(i.cap);
            if space == 0 {
                i.ww = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut n = data.len().min(space);
            if n > 1 {
                let c = choose(K::ProcShort, 8) as usize;
                if c > 0 {
                    n = (n * c / 8).max(1);
                }
            }
            i.buf.extend(&data[..n]);
            (n, i.rw.take())
        };
        wake(w);
        Poll::Ready(Ok(n))
    }
    pub fn close_read(&self) {
        let w = {
            let mut i = self.0.borrow_mut();
            i.rd_open = false;
            i.ww.take()
        };
        wake(w);
    }
    pub fn close_write(&self) {
        let w = {
            let mut i = self.0.borrow_mut();
            i.writers = i.writers.saturating_sub(1);
            if i.writers == 0 {
                i.rw.take()
            } else {
                None
            }
        };
        wake(w);
    }
    pub fn len(&self) -> usize {
        self.0.borrow().buf.len()
    }
}
