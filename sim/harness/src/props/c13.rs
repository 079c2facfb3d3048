//! C13: remote processes can always be killed and never outlive their lifetime
use super::*;
use crate::exec::{in_runtime, scratch};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, AskError, ConnectedClient, Reply, ReplyError, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C13",
    gen,
    run,
    quick_runs: 8000,
    batch: 20,
    rule: "1-3 clients start, use, poll, kill and abandon simulated processes that hang, ignore or wait for input, produce output without end, close their streams or exit at random times, with pauses around both lifetimes (of used and of dead processes) and the cleanup interval, all random, while tasks, pipes, exit reports and messages are delayed; heartbeats and file requests are mixed in. Judged against the simulated kernel's record: an answered kill has ended the process and told its true exit code, at most one kill succeeds, later requests are refused; no process that was used within its lifetime is killed or forgotten by the cleanup; a process not used for a lifetime, a cleanup period and a slack has ended and is refused, in the end every process has; every request is answered within a bound of virtual time. One variant lets a client fill the input of a process that ignores it and watches whether other clients are still answered.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    stall: bool,
    /// bytes of input for a process that takes none, 0 for the other scenario
    flood: usize,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum U {
    Exec(u32, Vec<String>, [bool; 3]),
    Out(u32),
    Err(u32),
    Status(u32),
    Write(u32),
    Kill(u32),
    Beat,
    File,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    One(u32, U),
    Batch(u32, Vec<U>),
    /// microseconds
    Sleep(u32, u64),
    /// until so many microseconds before (+) or after (-) the end of the
    /// lifetime (of dead processes: true) of the slot's process
    Until(u32, u32, i64, bool),
}
impl Op {
    fn client(&self) -> u32 {
        match self {
            Op::One(c, _) | Op::Batch(c, _) | Op::Sleep(c, _) | Op::Until(c, _, _, _) => *c,
        }
    }
}
fn slot(u: &U) -> Option<u32> {
    match u {
        U::Exec(s, _, _) | U::Out(s) | U::Err(s) | U::Status(s) | U::Write(s) | U::Kill(s) => Some(*s),
        _ => None,
    }
}

fn script(rng: &mut Rng, ttl: u64) -> Vec<String> {
    let f = |s: &str| s.to_string();
    let code = format!("exit:{}", rng.below(256));
    match rng.below(11) {
        0..=1 => vec![f("hang")],
        2 => vec![f("cat")],
        3 => vec![format!("fill:{}:1", rng.range(1, 300_000)), f("hang")],
        4 => vec![f("closeout"), f("closeerr"), f("hang")],
        5 => vec![format!("efill:{}:2", rng.range(1, 100_000)), format!("sleep:{}", rng.below(2 * ttl)), code],
        6 => vec![code],
        7 => vec![format!("sleep:{}", rng.below(ttl + 20)), code],
        8 => vec![format!("sleep:{}", rng.below(ttl + 20)), f("signal:15")],
        9 => vec![format!("read:{}", rng.range(1, 200)), code],
        // seldom a moment without output
        _ => (0..200).map(|i| if i % 2 == 0 { format!("fill:700:{}", i) } else { f("sleep:2") }).collect(),
    }
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C13", if tcp { "tcp" } else { "udp" }, rng);
    if rng.below(40) == 0 {
        return flood(rng, p, tcp);
    }
    let racy = rng.below(2) == 0;
    let ttl: u64 = if racy { *rng.pick(&[200, 500, 2000]) } else { *rng.pick(&[200, 1000, 10_000, 300_000]) };
    let dead = (*rng.pick(&[50, 100, 500, 30_000])).min(ttl);
    let cleanup = if racy { *rng.pick(&[10, 15, 25, 40]) } else { *rng.pick(&[5, 20, 100, 1000, 10_000]) };
    let cleanup = cleanup.max(ttl / 200);
    let stall = rng.below(4) == 0;
    let par = Params {
        net: Net {
            tcp,
            proc_ttl: ttl,
            dead_ttl: dead,
            cleanup,
            ..Default::default()
        },
        clients: rng.range(1, 3) as u32,
        stall,
        flood: 0,
    };
    let slots = rng.range(1, 4);
    let u = |rng: &mut Rng| {
        let s = rng.below(slots) as u32;
        match rng.below(24) {
            0..=4 => U::Exec(s, script(rng, ttl), [rng.below(5) > 0, rng.below(5) > 0, rng.below(5) > 0]),
            5..=8 => U::Out(s),
            9..=10 => U::Err(s),
            11..=15 => U::Status(s),
            16..=17 => U::Write(s),
            18..=20 => U::Kill(s),
            21..=22 => U::Beat,
            _ => U::File,
        }
    };
    let mut ops = vec![];
    for i in 0..rng.range(6, if thorough { 50 } else { 25 }) {
        let c = rng.below(par.clients as u64) as u32;
        if i < slots {
            ops.push(Op::One(c, U::Exec(i as u32, script(rng, ttl), [true; 3])));
            continue;
        }
        let op = match if racy { rng.below(10) } else { rng.below(16) } {
            0 => Op::Batch(c, (0..rng.range(2, 4)).map(|_| u(rng)).collect()),
            1..=3 => {
                let t = *rng.pick(&[ttl, dead]) * 1000;
                let b = cleanup * 1000;
                let base = *rng.pick(&[t / 10, t / 2, t * 9 / 10, t, t + b, t + b * 2, t * 2, b]);
                Op::Sleep(c, base + rng.below(3) * rng.below(60_000))
            }
            4..=6 => {
                let s = rng.below(slots) as u32;
                let of_dead = rng.below(2) == 0;
                ops.push(Op::One(c, if of_dead { U::Status(s) } else { U::Out(s) }));
                ops.push(Op::Until(c, s, rng.below(if racy { 9000 } else { 40_000 }) as i64 - if racy { 6000 } else { 35_000 }, of_dead));
                Op::One(c, match rng.below(4) { 0 => U::Out(s), 1 => U::Kill(s), _ => U::Status(s) })
            }
            _ => Op::One(c, u(rng)),
        };
        ops.push(op);
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 200, 1000]);
    p.net.jitter_us = 10;
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    if stall {
        p.swarm(rng, K::Stall, 100, 1_000, 20_000);
    }
    if racy {
        p.fault(K::Yield, *rng.pick(&[100_000, 300_000, 600_000]));
    }
    p.swarm(rng, K::ProcDelay, 60, 50_000, 500_000);
    p.swarm(rng, K::ProcShort, 40, 50_000, 500_000);
    p.swarm(rng, K::ProcReap, 60, 100_000, 900_000);
    p.swarm(rng, K::ProcSpawnErr, 20, 50_000, 300_000);
    p.swarm(rng, K::UdpDelay, 30, 50_000, 300_000);
    p.swarm(rng, K::TcpDelay, 30, 50_000, 300_000);
    p.swarm(rng, K::ClockJump, 30, 10_000, 200_000);
    p.max_steps = 3_000_000;
    p
}

/// A process that takes no input gets a lot of it
fn flood(rng: &mut Rng, mut p: Plan, tcp: bool) -> Plan {
    let par = Params {
        net: Net {
            tcp,
            ..Default::default()
        },
        clients: 2,
        stall: false,
        flood: *rng.pick(&[1000, 60_000, 65_536, 65_537, 80_000, 200_000]),
    };
    let script = match rng.below(3) {
        0 => vec!["hang".to_string()],
        1 => vec!["sleep:600000".to_string(), "cat".to_string()],
        _ => vec!["read:100".to_string(), "hang".to_string()],
    };
    let mut ops = vec![Op::One(0, U::Exec(0, script, [true; 3]))];
    for _ in 0..rng.range(1, 4) {
        ops.push(Op::One(1, match rng.below(4) { 0 => U::Beat, 1 => U::File, 2 => U::Exec(1, vec!["exit:1".into()], [true; 3]), _ => U::Kill(0) }));
    }
    p.scenario = format!("flood-{}", p.scenario);
    p.set(&par, &ops);
    p.net.jitter_us = 10;
    p.swarm_sched(rng);
    p.faults.remove("task-stall");
    p.max_steps = 3_000_000;
    p
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Valid,
    /// valid, and the reply said that the process is dead
    Dead,
    Killed(Option<i32>),
    Gone,
}
#[derive(Clone, Debug)]
struct Use {
    pid: u32,
    send: u64,
    recv: u64,
    out: Out,
    kill: bool,
    status: bool,
    exec: bool,
    piped: [bool; 3],
}
#[derive(Default)]
struct World {
    pids: BTreeMap<u32, (u32, [bool; 3])>,
    uses: Vec<Use>,
    done: u32,
    slowest: u64,
    bad: Vec<(String, String)>,
}
type Shared = Arc<Mutex<World>>;

fn path() -> String {
    scratch().join("file").to_string_lossy().into_owned()
}
fn req(u: &U, pid: u32) -> Request {
    match u {
        U::Exec(_, s, p) => Request::ExecProc(request::ExecProcArgs {
            command: "sim".into(),
            args: s.clone(),
            stdin: p[0],
            stdout: p[1],
            stderr: p[2],
            current_dir: None,
        }),
        U::Out(_) => Request::ReadProcStdout(request::ReadProcStdoutArgs { id: pid }),
        U::Err(_) => Request::ReadProcStderr(request::ReadProcStderrArgs { id: pid }),
        U::Status(_) => Request::ReadProcStatus(request::ReadProcStatusArgs { id: pid }),
        U::Write(_) => Request::WriteProcStdin(request::WriteProcStdinArgs { id: pid, input: vec![7; 50] }),
        U::Kill(_) => Request::KillProc(request::KillProcArgs { id: pid }),
        U::Beat => Request::Heartbeat,
        U::File => Request::OpenFile(request::OpenFileArgs {
            path: path(),
            create_if_missing: true,
            write_access: true,
            read_access: true,
        }),
    }
}

async fn perform(c: u32, x: &mut ConnectedClient, us: &[U], w: &Shared) {
    let known: Vec<(u32, [bool; 3])> = {
        let w = w.lock().unwrap();
        us.iter().map(|u| slot(u).and_then(|s| w.pids.get(&s)).copied().unwrap_or((5, [true; 3]))).collect()
    };
    let mut reqs: Vec<Request> = us.iter().zip(&known).map(|(u, k)| req(u, k.0)).collect();
    let n = reqs.len();
    let send = simcore::now();
    let r = if n == 1 { x.ask(reqs.remove(0)).await } else { x.ask(Request::Batch(reqs.into())).await };
    let recv = simcore::now();
    let replies = match r {
        Ok(Reply::Batch(a)) if n > 1 && a.results.len() == n => a.results,
        Ok(r) if n == 1 => vec![r],
        Err(AskError::Failure { msg }) if n == 1 => vec![Reply::Error(ReplyError::from(msg.as_str()))],
        r => {
            w.lock().unwrap().bad.push(("no-answer".into(), format!("client {} {:.100}: {:.100}", c, format!("{:?}", us), format!("{:?}", r))));
            return;
        }
    };
    let mut w = w.lock().unwrap();
    w.slowest = w.slowest.max(recv - send);
    for ((u, (pid, piped)), r) in us.iter().zip(&known).zip(&replies) {
        simcore::log(|| format!("client {} {:.70} process {} -> {:.80} [{}..{} us]", c, format!("{:?}", u), pid, format!("{:?}", r), send / 1000, recv / 1000));
        let mut pid = *pid;
        let mut piped = *piped;
        let say = format!("client {} {:.100} of process {}: {:.150}", c, format!("{:?}", u), pid, format!("{:?}", r));
        let gone = match r {
            Reply::Error(e) => format!("{:?}", e).contains("No process executed with id"),
            _ => false,
        };
        let out = match (u, r) {
            (U::Beat, Reply::Heartbeat) | (U::File, Reply::FileOpened(_)) => continue,
            (U::Exec(..), Reply::Error(_)) => continue,
            (U::Exec(s, _, p), Reply::ProcStarted(a)) => {
                pid = a.id;
                piped = *p;
                w.pids.insert(*s, (pid, *p));
                Out::Valid
            }
            (U::Out(_), Reply::ProcStdoutContents(_)) | (U::Err(_), Reply::ProcStderrContents(_)) | (U::Write(_), Reply::ProcStdinWritten(_)) => Out::Valid,
            (U::Status(_), Reply::ProcStatus(a)) => {
                if a.is_alive { Out::Valid } else { Out::Dead }
            }
            (U::Kill(_), Reply::ProcKilled(a)) if a.id == pid => Out::Killed(a.exit_code),
            (_, Reply::Error(_)) if gone => Out::Gone,
            // streams that do not exist, or input of a dead process
            (U::Out(_), Reply::Error(_)) if !piped[1] => Out::Valid,
            (U::Err(_), Reply::Error(_)) if !piped[2] => Out::Valid,
            (U::Write(_), Reply::Error(_)) => Out::Valid,
            _ => {
                w.bad.push(("wrong-reply".into(), say));
                continue;
            }
        };
        w.uses.push(Use {
            pid,
            send,
            recv,
            out,
            kill: matches!(u, U::Kill(_)),
            status: matches!(u, U::Status(_)),
            exec: matches!(u, U::Exec(..)),
            piped,
        });
    }
}

async fn client(c: u32, par: Params, mine: Vec<Op>, w: Shared) {
    match connect(&par.net, 60_000).await {
        Ok(mut x) => {
            for op in mine {
                match op {
                    Op::Sleep(_, n) => tokio::time::delay_for(std::time::Duration::from_micros(n)).await,
                    Op::Until(_, s, before, dead) => {
                        let last = {
                            let w = w.lock().unwrap();
                            w.pids.get(&s).and_then(|(id, _)| w.uses.iter().filter(|u| u.pid == *id).map(|u| u.send).max())
                        };
                        if let Some(l) = last {
                            let ttl = if dead { par.net.dead_ttl } else { par.net.proc_ttl };
                            let d = (l + ttl * MS) as i64 - before * 1000 - simcore::now() as i64;
                            if d > 0 {
                                tokio::time::delay_for(std::time::Duration::from_nanos(d as u64)).await;
                            }
                        }
                    }
                    Op::One(_, u) => perform(c, &mut x, &[u], &w).await,
                    Op::Batch(_, us) => perform(c, &mut x, &us, &w).await,
                }
            }
            drop(x);
        }
        Err(e) => w.lock().unwrap().bad.push(("connect-failed".into(), e.to_string())),
    }
    w.lock().unwrap().done += 1;
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    if par.flood > 0 {
        return run_flood(par, ops, rep);
    }
    let log: ExecLog = Default::default();
    let w: Shared = Default::default();
    let (w2, rep2) = (w.clone(), rep.clone());
    let net = par.net.clone();
    in_runtime(rep, async move {
        simcore::stop_faults();
        let server = match serve(&net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        simcore::resume_faults();
        for c in 0..par.clients {
            let mine: Vec<Op> = ops.iter().filter(|o| o.client() == c).cloned().collect();
            spawn_on(10 + c, client(c, par.clone(), mine, w2.clone()));
        }
        let slowest = net.proc_ttl * 3 + net.cleanup * 3 + 500;
        let limit = simcore::now() + (300_000 + ops.len() as u64 * slowest) * MS;
        while w2.lock().unwrap().done < par.clients {
            if simcore::now() > limit {
                return rep2.borrow_mut().fail("stuck", "a client does not get through its operations");
            }
            sleep_ms(10).await;
        }
        simcore::stop_faults();
        let slack = 300 * MS + if par.stall { 2000 * MS } else { 0 };
        let late = |from, to| 300 * MS + simcore::stalled(from, to);
        let (ttl, dead, period) = (net.proc_ttl * MS, net.dead_ttl * MS, net.cleanup * MS);
        tokio::time::delay_for(std::time::Duration::from_nanos(ttl + period + slack + 100 * MS)).await;
        let mut rep = rep2.borrow_mut();
        let w = w2.lock().unwrap();
        for (s, d) in &w.bad {
            rep.fail(s.clone(), d.clone());
        }
        // a request waits for those of other clients: kills wait for the kernel
        let bound = 2000 * MS + if par.stall { 20_000 * MS } else { 0 };
        rep.check(w.slowest < bound, "slow-answer", || format!("an answer took {} ms", w.slowest / MS));
        let truths = tokio::sim::proc_truth();
        let started = w.uses.iter().filter(|u| u.exec).count();
        rep.check(truths.len() == started, "processes-started", || format!("{} processes, {} started according to the replies", truths.len(), started));
        let (mut evicted, mut killed, mut forgotten) = (0u64, 0u64, 0u64);
        for t in &truths {
            let mut us: Vec<&Use> = w.uses.iter().filter(|u| u.pid == t.pid).collect();
            us.sort_by_key(|u| u.send);
            let first = match us.iter().position(|u| u.exec) {
                Some(f) => f,
                // its start was not answered, which is reported above
                None => continue,
            };
            let us = &us[first..];
            let kills: Vec<&&Use> = us.iter().filter(|u| matches!(u.out, Out::Killed(_))).collect();
            rep.check(kills.len() <= 1, "killed-twice", || format!("{:?}", kills));
            let code = t.status.and_then(|st| if st & 0x7f == 0 { Some(st >> 8) } else { None });
            let kill_sent = us.iter().filter(|u| u.kill).map(|u| u.send).min();
            for k in &kills {
                killed += 1;
                if let Out::Killed(c) = k.out {
                    rep.check(t.ended.map_or(false, |e| e <= k.recv), "killed-but-alive", || format!("process {} {:?} ended at {:?}: {:?}", t.pid, t.script, t.ended, k));
                    rep.check(t.ended.is_none() || c == code, "wrong-exit-code", || format!("process {} ended with {:?}: {:?}", t.pid, t.status, k));
                }
                for u in us.iter().filter(|u| u.send > k.recv) {
                    rep.check(u.out == Out::Gone, "killed-but-accepted", || format!("{:?} after {:?}", u, k));
                }
            }
            // the end
            match t.ended {
                None => rep.fail("process-outlives-lifetime", format!("process {} {:?} still runs; last used {:?}", t.pid, t.script, us.last())),
                Some(e) => {
                    let by_kill = t.status == Some(9);
                    let last = us.iter().map(|u| u.recv).max().unwrap();
                    rep.check(!by_kill || e <= last + ttl + period + late(last, e), "process-outlives-lifetime", || {
                        format!("process {} {:?} ended at {} us, last used {} us, lifetime {} ms, cleanup every {} ms", t.pid, t.script, e / 1000, last / 1000, net.proc_ttl, net.cleanup)
                    });
                    if by_kill && kill_sent.map_or(true, |k| k > e) {
                        evicted += 1;
                        for u in us.iter().filter(|u| u.out != Out::Gone && u.send < e) {
                            rep.check(e >= u.send + ttl, "used-process-killed", || {
                                format!("process {} {:?} was killed at {} us although {:?}; lifetime {} ms", t.pid, t.script, e / 1000, u, net.proc_ttl)
                            });
                        }
                    }
                }
            }
            for u in us.iter().filter(|u| !u.exec) {
                let others: Vec<&&Use> = us.iter().filter(|o| o.send < u.recv && !std::ptr::eq(**o, *u)).collect();
                let seen_dead = us.iter().any(|o| o.status && o.send < u.recv && t.ended.map_or(false, |e| e <= u.recv) && (o.out == Out::Dead));
                let maybe_killed = kills.iter().any(|k| k.send < u.recv);
                match u.out {
                    Out::Gone if !maybe_killed => {
                        forgotten += 1;
                        let life = if seen_dead { dead } else { ttl };
                        let v = others.iter().find(|o| o.out != Out::Gone && o.recv < u.send && u.recv < o.send + life);
                        rep.check(v.is_none(), "used-process-forgotten", || format!("lifetimes {} and {} ms: {:?} although {:?}", net.proc_ttl, net.dead_ttl, u, v.unwrap()));
                    }
                    Out::Gone => {}
                    _ => {
                        let l = others.iter().map(|o| o.recv).max().unwrap_or(u.recv);
                        rep.check(u.send <= l + ttl + period + late(l, u.send), "idle-process-kept", || format!("lifetime {} ms: {:?} although last used before {} us", net.proc_ttl, u, l / 1000));
                        // nobody did anything after it was seen dead
                        if let Some(o) = others.iter().max_by_key(|o| o.recv) {
                            if o.out == Out::Dead && others.iter().all(|x| std::ptr::eq(**x, **o) || x.recv < o.send) {
                                rep.check(u.send <= o.recv + dead + period + late(o.recv, u.send), "dead-process-kept", || format!("lifetime of the dead {} ms: {:?} although last {:?}", net.dead_ttl, u, o));
                            }
                        }
                    }
                }
                rep.mix_state(match u.out { Out::Valid => 1, Out::Dead => 2, Out::Killed(c) => 3 + c.unwrap_or(-1) as u64 % 300, Out::Gone => 400 });
            }
        }
        // processes that never were
        for u in w.uses.iter().filter(|u| u.pid == 5) {
            rep.check(u.out == Out::Gone, "unknown-process-accepted", || format!("{:?}", u));
        }
        rep.probe("processes killed by the cleanup", evicted);
        rep.probe("processes killed on request", killed);
        rep.probe("requests about forgotten processes", forgotten);
        rep.probe("processes started", started as u64);
        drop(server);
    });
}

fn run_flood(par: Params, ops: Vec<Op>, rep: &Rep) {
    let log: ExecLog = Default::default();
    let rep2 = rep.clone();
    let net = par.net.clone();
    let w: Shared = Default::default();
    in_runtime(rep, async move {
        let server = match serve(&net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let (w1, net1, par1) = (w.clone(), net.clone(), par.clone());
        let first = ops[0].clone();
        spawn_on(10, async move {
            match connect(&net1, 30_000).await {
                Ok(mut x) => {
                    if let Op::One(_, u) = first {
                        perform(0, &mut x, &[u], &w1).await;
                    }
                    let id = w1.lock().unwrap().pids.get(&0).map(|p| p.0).unwrap_or(5);
                    w1.lock().unwrap().done = 1;
                    let mut left = par1.flood;
                    while left > 0 {
                        let n = left.min(20_000);
                        left -= n;
                        let _ = x.tell(Request::WriteProcStdin(request::WriteProcStdinArgs { id, input: vec![1; n] })).await;
                    }
                    w1.lock().unwrap().done = 2;
                    // stays connected
                    sleep_ms(200_000).await;
                    drop(x);
                }
                Err(e) => w1.lock().unwrap().bad.push(("connect-failed".into(), e.to_string())),
            }
        });
        while w.lock().unwrap().done < 2 {
            if simcore::now() > 100_000 * MS || !w.lock().unwrap().bad.is_empty() {
                break;
            }
            sleep_ms(10).await;
        }
        sleep_ms(1000).await;
        let (w1, net1) = (w.clone(), net.clone());
        let rest: Vec<U> = ops[1..].iter().filter_map(|o| if let Op::One(_, u) = o { Some(u.clone()) } else { None }).collect();
        spawn_on(11, async move {
            match connect(&net1, 20_000).await {
                Ok(mut x) => {
                    for u in rest {
                        perform(1, &mut x, &[u], &w1).await;
                    }
                    drop(x);
                }
                Err(e) => w1.lock().unwrap().bad.push(("connect-failed".into(), e.to_string())),
            }
            w1.lock().unwrap().done = 3;
        });
        while w.lock().unwrap().done < 3 && simcore::now() < 250_000 * MS {
            sleep_ms(10).await;
        }
        let mut rep = rep2.borrow_mut();
        let w = w.lock().unwrap();
        // more than a pipe holds, for a process that does not read it
        let full = par.flood > 65_536;
        for (s, d) in &w.bad {
            if full && s == "no-answer" {
                rep.fail("full-stdin-blocks-server", d.clone());
            } else {
                rep.fail(s.clone(), d.clone());
            }
        }
        rep.check(full || w.slowest < 2000 * MS, "slow-answer", || format!("an answer took {} ms", w.slowest / MS));
        rep.check(w.done == 3, "stuck", || "the second client does not get through its requests".into());
        rep.probe("floods", 1);
        drop(server);
    });
}
