//! C11: idle open files expire on time, used ones never do
use super::*;
use crate::exec::{in_runtime, scratch};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, ConnectedClient, Reply, ReplyError, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C11",
    gen,
    run,
    quick_runs: 8000,
    batch: 20,
    rule: "1-3 clients open, use, reopen and close 1-4 files, one request at a time or in batches, with pauses around the file lifetime and the cleanup interval (both random, from milliseconds to minutes), while file operations, messages and tasks are delayed. Judged from what clients can see: a handle seen valid by an operation must still be valid for every operation answered within a lifetime after the start of the earlier one (with fixed latency: after the end of the opening); a handle nobody used for a lifetime, a cleanup period and a slack must be refused, its path can be opened anew under another id, and in the end no file of the scratch folder is open any more (/proc/self/fd).",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    /// no delays other than the fixed latency and those of the file system
    tight: bool,
    /// tasks may stall
    stall: bool,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
enum U {
    Open(u32, bool),
    Read(u32),
    Write(u32),
    WrongTag(u32),
    Rename(u32),
    Close(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    One(u32, U),
    Batch(u32, Vec<U>),
    /// microseconds
    Sleep(u32, u64),
    /// until so many microseconds before (+) or after (-) the lifetime of the
    /// last handle of the file is over since its last use
    Until(u32, u32, i64),
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C11", if tcp { "tcp" } else { "udp" }, rng);
    // slow operations, frequent cleanups, and requests at the time of expiry
    let racy = rng.below(2) == 0;
    let ttl: u64 = if racy { *rng.pick(&[100, 500, 2000]) } else { *rng.pick(&[100, 500, 2000, 10_000, 150_000]) };
    let cleanup = if racy { *rng.pick(&[10, 15, 25, 40]) } else { *rng.pick(&[1, 5, 20, 100, 1000, 10_000]) };
    let cleanup = cleanup.max(ttl / 200);
    let tight = rng.below(2) == 0;
    let par = Params {
        net: Net {
            tcp,
            file_ttl: ttl,
            cleanup,
            ..Default::default()
        },
        clients: rng.range(1, 3) as u32,
        tight,
        stall: !tight && rng.below(2) == 0,
    };
    let files = rng.range(1, 4);
    let u = |rng: &mut Rng| {
        let f = rng.below(files) as u32;
        match rng.below(20) {
            0..=6 => U::Open(f, rng.below(2) == 0),
            7..=11 => U::Read(f),
            12..=14 => U::Write(f),
            15..=16 => U::WrongTag(f),
            17..=18 => U::Rename(f),
            _ => U::Close(f),
        }
    };
    let mut ops = vec![];
    for _ in 0..rng.range(5, if thorough { 50 } else { 25 }) {
        let c = rng.below(par.clients as u64) as u32;
        let op = match if racy { rng.below(10) } else { rng.below(16) } {
            0 => Op::Batch(c, (0..rng.range(2, 4)).map(|_| u(rng)).collect()),
            1..=3 => {
                let t = ttl * 1000;
                let b = cleanup * 1000;
                let base = *rng.pick(&[t / 10, t / 2, t * 9 / 10, t, t, t + b, t + b, t + b * 2, t * 2, b]);
                Op::Sleep(c, base + rng.below(3) * rng.below(60_000))
            }
            4..=6 => {
                let f = rng.below(files) as u32;
                if racy || rng.below(2) == 0 {
                    let next = *rng.pick(&[U::Open(f, false), U::Open(f, true), U::Read(f), U::WrongTag(f)]);
                    ops.push(Op::Until(c, f, rng.below(9000) as i64 - 6000));
                    ops.push(Op::One(c, next));
                    Op::One(c, U::Read(f))
                } else {
                    Op::Until(c, f, rng.below(6000) as i64 - 2000)
                }
            }
            _ => Op::One(c, u(rng)),
        };
        ops.push(op);
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 200, 1000]);
    p.net.jitter_us = 10;
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    if par.stall {
        p.swarm(rng, K::Stall, 100, 1_000, 20_000);
    }
    p.swarm(rng, K::BlockDelay, 70, 50_000, 900_000);
    if racy {
        p.fault(K::BlockDelay, 500_000).fault(K::Yield, *rng.pick(&[100_000, 300_000, 600_000]));
    }
    if !tight {
        p.swarm(rng, K::UdpDelay, 50, 50_000, 500_000);
        p.swarm(rng, K::TcpDelay, 50, 50_000, 500_000);
    }
    p.swarm(rng, K::ClockJump, 30, 10_000, 200_000);
    p.max_steps = 2_000_000;
    p
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    /// the handle was valid
    Valid,
    /// no such handle
    Gone,
    Closed,
    Other,
}
#[derive(Clone, Debug)]
struct Use {
    id: u32,
    file: u32,
    send: u64,
    recv: u64,
    out: Out,
    /// gave the client the handle
    open: bool,
    /// not part of a batch
    single: bool,
}

#[derive(Default)]
struct World {
    /// newest handle of each file
    handles: BTreeMap<u32, (u32, u32)>,
    uses: Vec<Use>,
    /// closings under way
    done: u32,
    bad: Vec<(String, String)>,
}
type Shared = Arc<Mutex<World>>;

fn path(f: u32) -> String {
    scratch().join(format!("f{}", f)).to_string_lossy().into_owned()
}
fn file_of(u: U) -> u32 {
    match u {
        U::Open(f, _) | U::Read(f) | U::Write(f) | U::WrongTag(f) | U::Rename(f) | U::Close(f) => f,
    }
}

async fn client(c: u32, par: Params, mine: Vec<Op>, w: Shared) {
    let mut x: ConnectedClient = match connect(&par.net, 60_000).await {
        Ok(x) => x,
        Err(e) => {
            let mut w = w.lock().unwrap();
            w.bad.push(("connect-failed".into(), e.to_string()));
            w.done += 1;
            return;
        }
    };
    for op in mine {
        let us = match op {
            Op::Sleep(_, n) => {
                tokio::time::delay_for(std::time::Duration::from_micros(n)).await;
                continue;
            }
            Op::Until(_, f, before) => {
                let last = {
                    let w = w.lock().unwrap();
                    match w.handles.get(&f) {
                        Some((id, _)) => w.uses.iter().filter(|u| u.id == *id).map(|u| u.send).max(),
                        None => None,
                    }
                };
                if let Some(l) = last {
                    let at = (l + par.net.file_ttl * MS) as i64 - before * 1000;
                    let d = at - simcore::now() as i64;
                    if d > 0 {
                        tokio::time::delay_for(std::time::Duration::from_nanos(d as u64)).await;
                    }
                }
                continue;
            }
            Op::One(_, u) => vec![u],
            Op::Batch(_, us) => us,
        };
        let mut reqs = vec![];
        let mut ids = vec![];
        {
            let w = w.lock().unwrap();
            for u in &us {
                let (id, sig) = w.handles.get(&file_of(*u)).copied().unwrap_or((1, 1));
                ids.push(id);
                reqs.push(match u {
                    U::Open(f, write) => Request::OpenFile(request::OpenFileArgs {
                        path: path(*f),
                        create_if_missing: *write,
                        write_access: *write,
                        read_access: true,
                    }),
                    U::Read(_) => Request::ReadFile(request::ReadFileArgs { id, sig }),
                    U::WrongTag(_) => Request::ReadFile(request::ReadFileArgs {
                        id,
                        sig: sig.wrapping_add(1),
                    }),
                    U::Write(_) => Request::WriteFile(request::WriteFileArgs {
                        id,
                        sig,
                        contents: vec![7; 10],
                    }),
                    U::Rename(f) => Request::RenameFile(request::RenameFileArgs { id, sig, to: path(*f) }),
                    U::Close(_) => Request::CloseFile(request::CloseFileArgs { id, sig }),
                });
            }
        }
        let n = reqs.len();
        let send = simcore::now();
        let reply = if n == 1 {
            x.ask(reqs.remove(0)).await
        } else {
            x.ask(Request::Batch(reqs.into())).await
        };
        let recv = simcore::now();
        let replies = match reply {
            Ok(Reply::Batch(a)) if n > 1 && a.results.len() == n => a.results,
            Ok(r) if n == 1 => vec![r],
            Err(over_there::core::AskError::Failure { msg }) if n == 1 => vec![Reply::Error(ReplyError::from(msg.as_str()))],
            r => {
                w.lock().unwrap().bad.push(("no-reply".into(), format!("{:.100?}", r)));
                continue;
            }
        };
        let mut w = w.lock().unwrap();
        for ((u, id), r) in us.iter().zip(&ids).zip(&replies) {
            let mut id = *id;
            let mut tag = None;
            let mut open = false;
            let out = match r {
                Reply::FileOpened(a) => {
                    id = a.id;
                    tag = Some(a.sig);
                    open = true;
                    Out::Valid
                }
                Reply::FileWritten(a) => {
                    tag = Some(a.sig);
                    Out::Valid
                }
                Reply::FileRenamed(a) => {
                    tag = Some(a.sig);
                    Out::Valid
                }
                Reply::FileContents(_) => Out::Valid,
                Reply::FileClosed(_) => Out::Closed,
                Reply::Error(ReplyError::FileSigChanged(a)) => {
                    tag = Some(a.sig);
                    Out::Valid
                }
                Reply::Error(e) => {
                    let s = format!("{:?}", e);
                    if s.contains("No file open with id") || s.contains("No open file with id") {
                        Out::Gone
                    } else {
                        Out::Other
                    }
                }
                r => {
                    w.bad.push(("wrong-reply".into(), format!("{:.100?}", r)));
                    continue;
                }
            };
            simcore::log(|| format!("client {} {:?} id {} -> {:?} [{}..{} us]", c, u, id, out, send / 1000, recv / 1000));
            if let Some(t) = tag {
                w.handles.insert(file_of(*u), (id, t));
            }
            w.uses.push(Use {
                id,
                file: file_of(*u),
                send,
                recv,
                out,
                open,
                single: n == 1,
            });
        }
    }
    drop(x);
    w.lock().unwrap().done += 1;
}

/// Files of the scratch folder this process holds open
fn held() -> Vec<String> {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(scratch()) && t != scratch() {
                    v.push(t.to_string_lossy().into_owned());
                }
            }
        }
    }
    v
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let w: Shared = Default::default();
    let (w2, rep2) = (w.clone(), rep.clone());
    let net = par.net.clone();
    // a request takes no longer than this from the end of its execution to its reply
    let wire = (plan.net.latency_us + plan.net.jitter_us) * 1000 + MS;
    in_runtime(rep, async move {
        simcore::stop_faults();
        let server = match serve(&net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        for f in 0..4 {
            std::fs::write(path(f), b"x").expect("harness: write");
        }
        simcore::resume_faults();
        for c in 0..par.clients {
            let mine: Vec<Op> = ops
                .iter()
                .filter(|o| match o {
                    Op::One(k, _) | Op::Batch(k, _) | Op::Sleep(k, _) | Op::Until(k, _, _) => *k == c,
                })
                .cloned()
                .collect();
            spawn_on(10 + c, client(c, par.clone(), mine, w2.clone()));
        }
        let slowest = net.file_ttl * 3 + net.cleanup * 3 + 500;
        let limit = simcore::now() + (300_000 + ops.len() as u64 * slowest) * MS;
        while w2.lock().unwrap().done < par.clients {
            if simcore::now() > limit {
                return rep2.borrow_mut().fail("stuck", "a client does not get through its operations");
            }
            sleep_ms(10).await;
        }
        simcore::stop_faults();
        // operations hold the table of files for as long as they take
        let slack = 300 * MS + if par.stall { 2000 * MS } else { 0 };
        let (ttl, period) = (net.file_ttl * MS, net.cleanup * MS);
        let late = |from, to| 300 * MS + simcore::stalled(from, to);
        tokio::time::delay_for(std::time::Duration::from_nanos(ttl + period + slack)).await;
        let still = held();
        let mut rep = rep2.borrow_mut();
        rep.check(still.is_empty(), "file-still-open", || format!("{:?}", still));
        let w = w2.lock().unwrap();
        for (s, d) in &w.bad {
            rep.fail(s.clone(), d.clone());
        }
        let (mut kept, mut expired) = (0u64, 0u64);
        for u in &w.uses {
            // anything that may have used or closed the handle before
            let others: Vec<&Use> = w.uses.iter().filter(|o| o.id == u.id && o.send < u.recv && !std::ptr::eq(*o, u)).collect();
            let closed = others.iter().any(|o| o.out == Out::Closed);
            match u.out {
                Out::Gone if !closed => {
                    let v = others.iter().find(|o| {
                        o.out == Out::Valid && o.recv < u.send.max(1) && {
                            let touched = if par.tight && o.open && o.single { o.recv.saturating_sub(wire) } else { o.send };
                            // answered within the lifetime
                            u.recv < touched + ttl
                        }
                    });
                    rep.check(v.is_none(), "used-file-expired", || {
                        format!("lifetime {} ms, cleanup every {} ms: {:?} although {:?}", net.file_ttl, net.cleanup, u, v.unwrap())
                    });
                }
                Out::Valid if !closed && !u.open => {
                    let last = others.iter().map(|o| o.recv).max();
                    if let Some(l) = last {
                        rep.check(u.send <= l + ttl + period + late(l, u.send), "idle-file-kept", || {
                            format!("lifetime {} ms, cleanup every {} ms: {:?} although last used before {} us", net.file_ttl, net.cleanup, u, l / 1000)
                        });
                    }
                }
                Out::Valid => {
                    // opened: an expired file is opened anew, under a new id
                    if let Some(l) = others.iter().map(|o| o.recv).max() {
                        rep.check(closed || u.send <= l + ttl + period + late(l, u.send), "idle-file-kept", || {
                            format!("{:?} although last used before {} us", u, l / 1000)
                        });
                    }
                    rep.check(!others.iter().any(|o| o.out == Out::Closed && o.recv < u.send), "closed-id-reused", || format!("{:?}", u));
                    // and a living one is not opened a second time
                    let twin = w.uses.iter().find(|o| {
                        o.file == u.file
                            && o.id != u.id
                            && o.out == Out::Valid
                            && o.recv < u.send
                            && u.recv < o.send + ttl
                            && !w.uses.iter().any(|k| k.id == o.id && k.out == Out::Closed && k.send < u.recv)
                    });
                    rep.check(twin.is_none(), "used-file-expired", || format!("{:?} opened anew although {:?}", u, twin.unwrap()));
                }
                _ => {}
            }
            if closed {
                let c = others.iter().find(|o| o.out == Out::Closed && o.recv < u.send);
                rep.check(c.is_none() || u.out != Out::Valid, "closed-handle-accepted", || format!("{:?} after {:?}", u, c));
            }
            match u.out {
                Out::Gone => expired += 1,
                Out::Valid => kept += 1,
                _ => {}
            }
            rep.mix_state(u.out as u64 * 2 + u.open as u64);
        }
        rep.probe("uses of valid handles", kept);
        rep.probe("uses of expired handles", expired);
        rep.probe("other refusals", w.uses.iter().filter(|u| u.out == Out::Other).count() as u64);
        drop(server);
    });
}
