//! Executes one run, and shrinks a failing one.
use crate::plan::*;
use crate::props;
use simcore::rng::Rng;
use simcore::Mode;
use std::cell::RefCell;
use std::future::Future;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub type Rep = Rc<RefCell<Report>>;

#[derive(Clone)]
pub enum How {
    Search(u64),
    Replay(Trace),
}

/// Message of panics that scenarios cause on purpose
pub const INTENDED: &str = "intended panic";

thread_local! {
    static SCRATCH: RefCell<PathBuf> = RefCell::new(PathBuf::new());
}
/// Folder of this run that simulated nodes may write to
pub fn scratch() -> PathBuf {
    SCRATCH.with(|s| s.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _own = simcore::Own::new();
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let m = format!("{} {}", loc, msg);
        if simcore::active() {
            simcore::log(|| format!("PANIC {}", m));
            simcore::record_panic(m);
        } else if !simcore::coop::on_coop_thread() {
            eprintln!("panic: {}", m);
        }
    }));
}

/// Runs the future on a simulated runtime until it completes or the step limit is reached
pub fn in_runtime<F: Future<Output = ()>>(rep: &Rep, f: F) {
    in_runtime_then(rep, f, || ())
}
pub fn in_runtime_then<F: Future<Output = ()>>(rep: &Rep, f: F, after: impl FnOnce()) {
    let mut rt = tokio::runtime::Builder::new()
        .basic_scheduler()
        .enable_all()
        .build()
        .expect("harness: runtime");
    let mut f = Box::pin(f);
    let done = rt.block_on(futures::future::poll_fn(|cx| {
        if simcore::exhausted() {
            return std::task::Poll::Ready(false);
        }
        f.as_mut().poll(cx).map(|_| true)
    }));
    if !done {
        rep.borrow_mut().fail(
            "livelock",
            "the run did not come to an end within its step limit",
        );
    }
    after();
    drop(f);
    drop(rt);
}

fn clear(dir: &Path) {
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            let p = e.path();
            match e.file_type() {
                Ok(t) if t.is_dir() => {
                    let _ = std::fs::remove_dir_all(&p);
                }
                _ => {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
    }
}

pub fn execute(plan: &Plan, how: &How, dir: &Path, verbose: bool) -> RunOut {
    clear(dir);
    let plan = plan.clone();
    let how = how.clone();
    let dir = dir.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || run_thread(plan, how, dir, verbose))
        .expect("harness: thread");
    h.join().unwrap_or_else(|_| RunOut {
        harness_error: Some("the run thread panicked".into()),
        ..Default::default()
    })
}

fn run_thread(plan: Plan, how: How, dir: PathBuf, verbose: bool) -> RunOut {
    simcore::seed_hash_keys(plan.entropy);
    SCRATCH.with(|s| *s.borrow_mut() = dir.clone());
    let prop = props::find(&plan.property);
    let mode = match how {
        How::Search(s) => Mode::Search(s),
        How::Replay(t) => Mode::Replay(trace_from(&t)),
    };
    simcore::begin(plan.config(&dir, verbose), mode);
    tokio::sim::reset_procs();
    let rep: Rep = Rc::new(RefCell::new(Report::default()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(&plan, &rep)));
    let out = simcore::end();
    let rep = std::mem::take(&mut *rep.borrow_mut());
    let mut ro = RunOut {
        violations: rep.violations,
        checked: rep.checked,
        probes: rep.probes,
        state: rep.state,
        hash: out.hash ^ rep.state.rotate_left(7),
        sched_hash: out.sched_hash,
        steps: out.steps,
        events: out.events,
        virtual_ns: out.virtual_ns,
        injected: simcore::KINDS
            .iter()
            .map(|(k, n)| (n.to_string(), out.injected[*k as usize]))
            .filter(|(_, c)| *c > 0)
            .collect(),
        trace: trace_to(&out.trace),
        log: out.log,
        harness_error: None,
    };
    for (n, c) in out.counters {
        *ro.probes.entry(n.to_string()).or_insert(0) += c;
    }
    for p in &out.panics {
        if p.contains(INTENDED) {
            continue;
        }
        // the harness is its own workspace: its files have relative paths
        // (a panic in tokio proper is caused by its user)
        let ours = ["/sim/simcore/", "/sim/getrandom/", "/simtokio/src/sim.rs", "/simtokio/src/process/imp.rs", "harness:"];
        if p.starts_with("src/") || ours.iter().any(|o| p.contains(o)) {
            ro.harness_error = Some(format!("panic in the harness: {}", p));
        } else if !prop.panics_ok {
            ro.violations.push(Violation {
                sig: "panic".into(),
                detail: p.clone(),
            });
        }
    }
    for n in &out.notes {
        if n.starts_with("fs-escape") {
            ro.violations.push(Violation {
                sig: "fs-escape".into(),
                detail: n.clone(),
            });
        }
    }
    if r.is_err() && ro.harness_error.is_none() && out.panics.is_empty() {
        ro.harness_error = Some("the run ended in a panic".into());
    }
    if out.nested > 0 {
        ro.harness_error = Some(format!("{} nested accesses to the simulator", out.nested));
    }
    ro
}

pub fn mix_seed(a: u64, s: &str, i: u64) -> u64 {
    let mut r = Rng::new(a ^ simcore::hash_bytes(s.as_bytes()));
    let x = r.next();
    Rng::new(x ^ i.wrapping_mul(0x9e3779b97f4a7c15)).next()
}

/// The plan and the search seed of run number `idx`
pub fn make(prop: &str, tier: &str, base: u64, idx: u64) -> (Plan, u64) {
    let p = props::find(prop);
    let seed = mix_seed(base, prop, idx);
    let mut rng = Rng::new(seed);
    let plan = (p.gen)(&mut rng, idx, tier == "thorough");
    (plan, rng.next())
}

pub struct Shrunk {
    pub plan: Plan,
    pub trace: Trace,
    pub runs: u64,
    pub out: RunOut,
}

/// Find a smaller plan and trace that violate the property in the same way
pub fn shrink(plan: &Plan, trace: &Trace, sig: &str, dir: &Path, budget: Duration) -> Option<Shrunk> {
    let deadline = Instant::now() + budget;
    let mut runs = 0;
    let mut fails = |p: &Plan, t: &Trace| -> bool {
        runs += 1;
        let o = execute(p, &How::Replay(t.clone()), dir, false);
        o.harness_error.is_none() && o.violations.iter().any(|v| v.sig == sig)
    };
    let mut plan = plan.clone();
    let mut trace = trace.clone();
    if !fails(&plan, &trace) {
        return None;
    }
    for _round in 0..3 {
        let before = (plan.ops.len(), trace.len());
        // whole kinds of decision
        let mut kinds: Vec<String> = trace.iter().map(|c| c.0.clone()).collect();
        kinds.sort();
        kinds.dedup();
        if !trace.is_empty() && Instant::now() < deadline && fails(&plan, &vec![]) {
            trace.clear();
            kinds.clear();
        }
        for k in kinds {
            if Instant::now() > deadline {
                break;
            }
            let t: Trace = trace.iter().filter(|c| c.0 != k).cloned().collect();
            if t.len() < trace.len() && fails(&plan, &t) {
                trace = t;
            }
        }
        // operations
        let mut n = plan.ops.len().max(1) / 2;
        while n >= 1 {
            let mut i = 0;
            while i < plan.ops.len() && Instant::now() < deadline {
                let mut p = plan.clone();
                let e = (i + n).min(p.ops.len());
                p.ops.drain(i..e);
                if fails(&p, &trace) {
                    plan = p;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        // single decisions
        let mut n = trace.len().max(1) / 2;
        while n >= 1 {
            let mut i = 0;
            while i < trace.len() && Instant::now() < deadline {
                let mut t = trace.clone();
                let e = (i + n).min(t.len());
                t.drain(i..e);
                if fails(&plan, &t) {
                    trace = t;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        if (plan.ops.len(), trace.len()) == before || Instant::now() > deadline {
            break;
        }
    }
    let out = execute(&plan, &How::Replay(trace.clone()), dir, true);
    if !out.violations.iter().any(|v| v.sig == sig) {
        return None;
    }
    Some(Shrunk {
        plan,
        trace,
        runs,
        out,
    })
}
