//! The standard streams of the code under test. Only one simulated process of
//! a run may use them, since the standard library shares them.
use crate::{choose, Own, K};
use std::cell::RefCell;
use std::collections::VecDeque;

/// What reading does once the input is used up
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Then {
    Eof,
    /// like a terminal nobody types into: a read never returns
    Block,
    /// like a descriptor in non-blocking mode
    Again,
}

struct State {
    input: VecDeque<u8>,
    then: Then,
    taken: usize,
    blocked: Option<u64>,
    out: [Vec<u8>; 2],
}
thread_local! {
    static S: RefCell<Option<State>> = const { RefCell::new(None) };
}

/// From now on the standard streams of this thread are simulated
pub fn open(input: Vec<u8>, then: Then) {
    let _own = Own::new();
    S.with(|s| {
        *s.borrow_mut() = Some(State {
            input: input.into(),
            then,
            taken: 0,
            blocked: None,
            out: [vec![], vec![]],
        })
    });
}
/// When a read began that never returns
pub fn blocked() -> Option<u64> {
    S.with(|s| s.borrow().as_ref().and_then(|s| s.blocked))
}
/// Make sure that nothing stays behind in the buffers of the standard library
pub fn flush() {
    use std::io::{BufRead, Write};
    let _own = Own::new();
    let _ = std::io::stdout().flush();
    S.with(|s| {
        if let Some(s) = s.borrow_mut().as_mut() {
            s.input.clear();
            s.then = Then::Eof;
        }
    });
    let mut i = std::io::stdin().lock();
    while let Ok(n) = i.fill_buf().map(|b| b.len()) {
        if n == 0 {
            break;
        }
        i.consume(n);
    }
}
/// What was written to stdout and stderr
pub fn written() -> [Vec<u8>; 2] {
    S.with(|s| s.borrow().as_ref().map(|s| s.out.clone()).unwrap_or_default())
}
pub fn close() {
    S.with(|s| *s.borrow_mut() = None);
}
pub fn is_open() -> bool {
    S.with(|s| s.try_borrow().map_or(false, |s| s.is_some()))
}

pub fn read(buf: &mut [u8]) -> Result<usize, i32> {
    let _own = Own::new();
    let c = choose(K::SyscallErr, 4) as usize;
    if c == 1 {
        return Err(4);
    }
    let r = S.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        if c == 2 && s.then == Then::Again {
            return Err(11);
        }
        if s.input.is_empty() {
            return match s.then {
                Then::Eof => Ok(0),
                Then::Again => Err(11),
                Then::Block => {
                    s.blocked.get_or_insert(crate::now());
                    Ok(0)
                }
            };
        }
        let mut n = buf.len().min(s.input.len());
        if c == 3 {
            n = (n / 3).max(1);
        }
        for b in buf.iter_mut().take(n) {
            *b = s.input.pop_front().unwrap();
        }
        s.taken += n;
        Ok(n)
    });
    crate::log(|| format!("read from stdin: {:?}", r));
    r
}
pub fn write(fd: i32, buf: &[u8]) -> Result<usize, i32> {
    let _own = Own::new();
    let mut n = buf.len();
    match choose(K::SyscallErr, 4) {
        1 => return Err(4),
        2 => n = (n / 2).max(1).min(n),
        3 => n = 1.min(n),
        _ => {}
    }
    S.with(|s| s.borrow_mut().as_mut().unwrap().out[(fd - 1) as usize].extend_from_slice(&buf[..n]));
    crate::log(|| format!("{} bytes to descriptor {}", n, fd));
    Ok(n)
}
