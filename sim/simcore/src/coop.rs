//! Cooperative execution of real OS threads, one at a time: every switch is a
//! recorded decision. Used for code that takes locks of the standard library
//! from several threads.
use crate::{choose, K};
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Default)]
struct St {
    running: Option<usize>,
    done: Vec<bool>,
    /// wants the turn (parked at a scheduling point)
    parked: Vec<bool>,
    blocked_hint: Vec<bool>,
}
struct Shared {
    st: Mutex<St>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(usize, Arc<Shared>)>> = const { RefCell::new(None) };
}

thread_local! {
    /// this thread runs code under test right now
    static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// True while a cooperative thread runs code under test
pub fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}
fn switch(on: bool) {
    let _ = ON.try_with(|o| o.set(on));
}

/// Scheduling point: gives the turn back to the controller
pub fn point() {
    if on() {
        switch(false);
        park();
        switch(true);
    }
}
fn park() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((id, sh)) = me {
        let mut st = sh.st.lock().unwrap();
        st.parked[id] = true;
        st.running = None;
        sh.cv.notify_all();
        while st.running != Some(id) {
            st = sh.cv.wait(st).unwrap();
        }
        st.parked[id] = false;
        st.blocked_hint[id] = false;
    }
}
/// Like `point`, for a thread that just failed to take a lock
pub fn blocked() {
    if !on() {
        return;
    }
    switch(false);
    let me = ME.with(|m| m.borrow().clone());
    if let Some((id, sh)) = &me {
        sh.st.lock().unwrap().blocked_hint[*id] = true;
    }
    park();
    switch(true);
}
pub fn on_coop_thread() -> bool {
    ME.with(|m| m.borrow().is_some())
}

/// Run the closures as threads, exactly one executing at any time. Returns the
/// panics and whether every remaining thread was blocked for good.
pub fn run(fs: Vec<Box<dyn FnOnce() + Send>>, max_switches: u64) -> Result<u64, String> {
    let n = fs.len();
    let sh = Arc::new(Shared {
        st: Mutex::new(St {
            running: None,
            done: vec![false; n],
            parked: vec![false; n],
            blocked_hint: vec![false; n],
        }),
        cv: Condvar::new(),
    });
    let mut hs = Vec::new();
    for (id, f) in fs.into_iter().enumerate() {
        let sh2 = sh.clone();
        hs.push(std::thread::spawn(move || {
            crate::seed_hash_keys(id as u64);
            ME.with(|m| *m.borrow_mut() = Some((id, sh2.clone())));
            park();
            switch(true);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            switch(false);
            let mut st = sh2.st.lock().unwrap();
            st.done[id] = true;
            st.running = None;
            sh2.cv.notify_all();
            r.is_err()
        }));
    }
    let mut switches = 0;
    let mut err = None;
    loop {
        let mut st = sh.st.lock().unwrap();
        while st.running.is_some() || (0..n).any(|i| !st.done[i] && !st.parked[i]) {
            st = sh.cv.wait(st).unwrap();
        }
        let ready: Vec<usize> = (0..n).filter(|i| !st.done[*i]).collect();
        if ready.is_empty() {
            break;
        }
        let pick: Vec<usize> = {
            let unblocked: Vec<usize> = ready
                .iter()
                .copied()
                .filter(|i| !st.blocked_hint[*i])
                .collect();
            if unblocked.is_empty() {
                // a lock may have been released since: everyone retries
                for i in &ready {
                    st.blocked_hint[*i] = false;
                }
                ready.clone()
            } else {
                unblocked
            }
        };
        switches += 1;
        if switches > max_switches {
            err = Some("threads made no progress".to_string());
            break;
        }
        let c = choose(K::Coop, pick.len() as u32) as usize;
        crate::sched_note(pick[c] as u64 + 1);
        // a switch may have released whatever the others wait for
        for b in st.blocked_hint.iter_mut() {
            *b = false;
        }
        st.parked[pick[c]] = false;
        st.running = Some(pick[c]);
        sh.cv.notify_all();
    }
    if let Some(e) = err {
        return Err(e);
    }
    for h in hs {
        if h.join().unwrap_or(true) {
            return Err("a thread panicked".into());
        }
    }
    Ok(switches)
}
