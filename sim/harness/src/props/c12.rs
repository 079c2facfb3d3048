//! C12: remote process input and output are complete, in order, exactly once
use super::*;
use crate::exec::{in_runtime, scratch};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, AskError, ConnectedClient, ExecAskError, LazilyTransformedRequest, RemoteProc, Reply, ReplyError, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};
use tokio::sim::Truth;

pub static PROP: Prop = Prop {
    id: "C12",
    gen,
    run,
    quick_runs: 8000,
    batch: 20,
    rule: "1-3 clients run 1-4 simulated processes with random scripts (output in bursts, sleeps, cat, partial reads of stdin, closing of streams, exits, signals), and read, write and poll the same processes concurrently, singly, in batches and sequences, raw and through the client's methods, while tasks, messages, pipes and the reporting of exits are delayed. The simulated kernel records what every process really wrote, consumed and when it ended. The pieces read must have an order consistent with real time in which they are exactly what was written; what a process consumed must be an order-consistent concatenation of what was acknowledged (and prefixes of failed writes), completely so if it asks for more; every status must be true at some time during the request; a process runs with exactly the requested arguments, directory and streams.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Start {
    cmd: String,
    script: Vec<String>,
    stdin: bool,
    stdout: bool,
    stderr: bool,
    /// 0 none, 1 a directory, 2 a directory that does not exist
    dir: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum U {
    Exec(u32, Start),
    /// slot, bytes, seed
    Write(u32, usize, u64),
    Out(u32),
    Err(u32),
    Status(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Raw(u32, U),
    /// through the methods of the client
    Call(u32, U),
    Batch(u32, Vec<U>),
    Seq(u32, Vec<U>),
    Sleep(u32, u64),
}
impl Op {
    fn client(&self) -> u32 {
        match self {
            Op::Raw(c, _) | Op::Call(c, _) | Op::Batch(c, _) | Op::Seq(c, _) | Op::Sleep(c, _) => *c,
        }
    }
}
fn slot(u: &U) -> u32 {
    match u {
        U::Exec(s, _) | U::Write(s, _, _) | U::Out(s) | U::Err(s) | U::Status(s) => *s,
    }
}

fn size(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => rng.below(3),
        1..=4 => rng.below(100),
        5..=6 => 1000 + rng.below(50),
        7..=8 => rng.below(9000),
        _ => rng.below(150_000),
    }
}

fn script(rng: &mut Rng) -> Vec<String> {
    if rng.below(4) == 0 {
        let mut v = vec![];
        if rng.below(3) == 0 {
            v.push(format!("fill:{}:{}", size(rng), rng.below(1 << 30)));
        }
        v.push("cat".into());
        return v;
    }
    let mut v = vec![];
    for _ in 0..rng.range(1, 7) {
        v.push(match rng.below(15) {
            0..=3 => format!("fill:{}:{}", size(rng), rng.below(1 << 30)),
            4..=5 => format!("efill:{}:{}", size(rng), rng.below(1 << 30)),
            6..=7 => format!("sleep:{}", *rng.pick(&[1, 5, 20, 100, 700])),
            8..=9 => format!("read:{}", rng.below(4000)),
            10..=11 => format!("echo:{}", rng.below(4000)),
            12 => "pwd".into(),
            13 => rng.pick(&["closeout", "closeerr"]).to_string(),
            _ => "out:hello world".into(),
        });
    }
    match rng.below(6) {
        0 => v.push("hang".into()),
        1..=2 => v.push(format!("exit:{}", rng.below(256))),
        3 => v.push(format!("signal:{}", *rng.pick(&[1, 9, 11, 15]))),
        _ => {}
    }
    v
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C12", if tcp { "tcp" } else { "udp" }, rng);
    let mut sec = Sec::any(rng);
    if sec.crypt > 0 && rng.below(2) == 0 {
        sec.cache = *rng.pick(&[64, 1000]);
    }
    let par = Params {
        net: Net {
            tcp,
            sec,
            cleanup: *rng.pick(&[20, 1000, 60_000]),
            proc_ttl: 3_600_000,
            dead_ttl: 3_600_000,
            ..Default::default()
        },
        clients: rng.range(1, 3) as u32,
    };
    let slots = rng.range(1, 4) as u32;
    // bytes of input a slot may still get without its reader
    let mut room: BTreeMap<u32, u64> = BTreeMap::new();
    let mut ops = vec![];
    let start = |rng: &mut Rng| Start {
        cmd: rng.pick(&["sim", "sim", "sim", "sim", "sim", "sim", "sim", "/usr/bin/sim", "noperm", "nothing"]).to_string(),
        script: script(rng),
        stdin: rng.below(8) > 0,
        stdout: rng.below(8) > 0,
        stderr: rng.below(4) > 0,
        dir: *rng.pick(&[0, 0, 0, 1, 1, 2]),
    };
    let use_of = |rng: &mut Rng, room: &mut BTreeMap<u32, u64>, s: u32| match rng.below(12) {
        0..=3 => {
            let r = room.entry(s).or_insert(60_000);
            let n = size(rng).min(*r).min(if rng.below(4) > 0 { 3000 } else { 60_000 });
            *r -= n;
            U::Write(s, n as usize, rng.below(1 << 30))
        }
        4..=7 => U::Out(s),
        8..=9 => U::Err(s),
        _ => U::Status(s),
    };
    let n = rng.range(8, if thorough { 60 } else { 30 });
    let mut started = 0;
    for i in 0..n {
        let c = rng.below(par.clients as u64) as u32;
        if started < slots && (i == 0 || rng.below(4) == 0) {
            let st = start(rng);
            if st.stdin && st.script.iter().any(|x| x == "cat") {
                room.insert(started, 400_000);
            }
            ops.push(if rng.below(2) == 0 { Op::Raw(c, U::Exec(started, st)) } else { Op::Call(c, U::Exec(started, st)) });
            started += 1;
            continue;
        }
        // sometimes a slot nobody starts
        let any = |rng: &mut Rng| if rng.below(30) == 0 { 9 } else { rng.below(started as u64) as u32 };
        let op = match rng.below(12) {
            0..=1 => Op::Sleep(c, *rng.pick(&[1, 10, 40, 200, 1000])),
            2 => {
                let k = rng.range(2, 4);
                Op::Batch(c, (0..k).map(|_| { let s = any(rng); use_of(rng, &mut room, s) }).collect())
            }
            3 => {
                let k = rng.range(2, 4);
                Op::Seq(c, (0..k).map(|_| { let s = any(rng); use_of(rng, &mut room, s) }).collect())
            }
            4..=7 => { let s = any(rng); Op::Raw(c, use_of(rng, &mut room, s)) }
            _ => { let s = any(rng); Op::Call(c, use_of(rng, &mut room, s)) }
        };
        ops.push(op);
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 200, 2000]);
    p.net.jitter_us = *rng.pick(&[10, 1000]);
    p.swarm_sched(rng);
    p.swarm(rng, K::ProcDelay, 70, 50_000, 600_000);
    p.swarm(rng, K::ProcShort, 60, 50_000, 600_000);
    p.swarm(rng, K::ProcReap, 60, 100_000, 900_000);
    p.swarm(rng, K::ProcSpawnErr, 20, 50_000, 300_000);
    p.swarm(rng, K::UdpDelay, 40, 20_000, 300_000);
    if sec.cache == 1000 {
        p.swarm(rng, K::UdpDup, 60, 20_000, 300_000);
    }
    p.swarm(rng, K::TcpSplit, 40, 20_000, 300_000);
    p.swarm(rng, K::TcpDelay, 40, 20_000, 300_000);
    p.swarm(rng, K::TcpShortWrite, 40, 20_000, 300_000);
    p.swarm(rng, K::TcpShortRead, 40, 20_000, 300_000);
    p.max_steps = 3_000_000;
    p
}

#[derive(Clone, Debug)]
struct Piece {
    send: u64,
    recv: u64,
    /// member of a sequence, and where
    seq: Option<(u64, usize)>,
    data: Vec<u8>,
    /// a write that was not acknowledged
    failed: bool,
}
impl Piece {
    fn before(&self, o: &Piece) -> bool {
        self.recv < o.send || matches!((self.seq, o.seq), (Some(a), Some(b)) if a.0 == b.0 && a.1 < b.1)
    }
}
#[derive(Clone, Debug)]
struct Stat {
    send: u64,
    recv: u64,
    alive: bool,
    code: Option<i32>,
}
#[derive(Default)]
struct SlotLog {
    pid: Option<u32>,
    start: Option<Start>,
    out: Vec<Piece>,
    err: Vec<Piece>,
    writes: Vec<Piece>,
    stats: Vec<Stat>,
}
#[derive(Default)]
struct World {
    slots: BTreeMap<u32, SlotLog>,
    groups: u64,
    execs: u32,
    done: u32,
    bad: Vec<(String, String)>,
}
type Shared = Arc<Mutex<World>>;

fn dir(d: u8) -> Option<String> {
    match d {
        0 => None,
        1 => Some(scratch().join("wd").to_string_lossy().into_owned()),
        _ => Some(scratch().join("nowhere").to_string_lossy().into_owned()),
    }
}
fn request(u: &U, w: &World) -> Request {
    let id = w.slots.get(&slot(u)).and_then(|s| s.pid).unwrap_or(5);
    match u {
        U::Exec(_, s) => Request::ExecProc(request::ExecProcArgs {
            command: s.cmd.clone(),
            args: s.script.clone(),
            stdin: s.stdin,
            stdout: s.stdout,
            stderr: s.stderr,
            current_dir: dir(s.dir),
        }),
        U::Write(_, n, seed) => Request::WriteProcStdin(request::WriteProcStdinArgs {
            id,
            input: Rng::new(*seed).bytes(*n),
        }),
        U::Out(_) => Request::ReadProcStdout(request::ReadProcStdoutArgs { id }),
        U::Err(_) => Request::ReadProcStderr(request::ReadProcStderrArgs { id }),
        U::Status(_) => Request::ReadProcStatus(request::ReadProcStatusArgs { id }),
    }
}

async fn call(x: &mut ConnectedClient, u: &U, pid: u32) -> Result<Reply, ExecAskError> {
    let p = RemoteProc::shallow(pid);
    Ok(match u {
        U::Exec(_, s) => Reply::ProcStarted(
            x.ask_exec_proc_with_options(s.cmd.clone(), s.script.clone(), s.stdin, s.stdout, s.stderr, dir(s.dir)).await?,
        ),
        U::Write(_, n, seed) => Reply::ProcStdinWritten(x.ask_write_proc_stdin(&p, &Rng::new(*seed).bytes(*n)).await?),
        U::Out(_) => Reply::ProcStdoutContents(x.ask_read_proc_stdout(&p).await?),
        U::Err(_) => Reply::ProcStderrContents(x.ask_read_proc_stderr(&p).await?),
        U::Status(_) => Reply::ProcStatus(x.ask_read_proc_status(&p).await?),
    })
}

/// Record the outcome of one operation
fn record(w: &mut World, c: u32, u: &U, pid: u32, r: &Reply, send: u64, recv: u64, seq: Option<(u64, usize)>) {
    simcore::log(|| format!("client {} {:.60} pid {} -> {:.80} [{}..{} us]", c, format!("{:?}", u), pid, format!("{:?}", r), send / 1000, recv / 1000));
    let s = w.slots.entry(slot(u)).or_default();
    let known = s.pid == Some(pid);
    let piece = |data: Vec<u8>, failed| Piece { send, recv, seq, data, failed };
    let mut bad: Option<(&str, String)> = None;
    let say = || format!("client {} {:.80} of process {}: {:.200}", c, format!("{:?}", u), pid, format!("{:?}", r));
    let start = s.start.clone();
    let is_err = matches!(r, Reply::Error(_));
    if !matches!(u, U::Exec(..)) && !known && !is_err {
        w.bad.push(("unknown-process-accepted".into(), say()));
        return;
    }
    match (u, r) {
        (U::Exec(_, st), Reply::ProcStarted(a)) => {
            s.pid = Some(a.id);
            s.start = Some(st.clone());
            w.execs += 1;
        }
        (U::Exec(..), Reply::Error(_)) => {}
        (U::Write(_, n, seed), Reply::ProcStdinWritten(a)) => {
            if a.id != pid {
                bad = Some(("wrong-id", say()));
            }
            if !start.as_ref().unwrap().stdin {
                bad = Some(("write-without-stdin", say()));
            }
            s.writes.push(piece(Rng::new(*seed).bytes(*n), false));
        }
        (U::Out(_), Reply::ProcStdoutContents(a)) => {
            if a.id != pid || !start.as_ref().unwrap().stdout {
                bad = Some(("wrong-read", say()));
            }
            s.out.push(piece(a.output.clone(), false));
        }
        (U::Err(_), Reply::ProcStderrContents(a)) => {
            if a.id != pid || !start.as_ref().unwrap().stderr {
                bad = Some(("wrong-read", say()));
            }
            s.err.push(piece(a.output.clone(), false));
        }
        (U::Status(_), Reply::ProcStatus(a)) => {
            if a.id != pid {
                bad = Some(("wrong-id", say()));
            }
            s.stats.push(Stat { send, recv, alive: a.is_alive, code: a.exit_code });
        }
        (_, Reply::Error(_)) => match u {
            _ if !known => {}
            U::Write(_, n, seed) => s.writes.push(piece(Rng::new(*seed).bytes(*n), true)),
            U::Out(_) if !start.as_ref().unwrap().stdout => {}
            U::Err(_) if !start.as_ref().unwrap().stderr => {}
            _ => bad = Some(("refused", say())),
        },
        _ => bad = Some(("wrong-reply", say())),
    }
    if let Some((s, d)) = bad {
        w.bad.push((s.into(), d));
    }
}

async fn perform(c: u32, x: &mut ConnectedClient, op: &Op, w: &Shared) {
    let (us, how) = match op {
        Op::Raw(_, u) => (vec![u.clone()], 0),
        Op::Call(_, u) => (vec![u.clone()], 1),
        Op::Batch(_, v) => (v.clone(), 2),
        Op::Seq(_, v) => (v.clone(), 3),
        Op::Sleep(_, n) => return sleep_ms(*n).await,
    };
    // a process of another client may still be on its way
    for _ in 0..10 {
        let ready = {
            let w = w.lock().unwrap();
            us.iter().all(|u| matches!(u, U::Exec(..)) || slot(u) == 9 || w.slots.get(&slot(u)).map_or(false, |s| s.pid.is_some()))
        };
        if ready {
            break;
        }
        sleep_ms(20).await;
    }
    let (mut reqs, pids, group) = {
        let mut w = w.lock().unwrap();
        w.groups += 1;
        let reqs: Vec<Request> = us.iter().map(|u| request(u, &w)).collect();
        let pids: Vec<u32> = us.iter().map(|u| w.slots.get(&slot(u)).and_then(|s| s.pid).unwrap_or(5)).collect();
        (reqs, pids, w.groups)
    };
    let send = simcore::now();
    let res: Result<Vec<Reply>, String> = match how {
        0 => match x.ask(reqs.remove(0)).await {
            Ok(r) => Ok(vec![r]),
            // an error reply without its kind
            Err(AskError::Failure { msg }) => Ok(vec![Reply::Error(ReplyError::from(msg.as_str()))]),
            Err(e) => Err(format!("{:?}", e)),
        },
        1 => match call(x, &us[0], pids[0]).await {
            Ok(r) => Ok(vec![r]),
            Err(ExecAskError::IoError(e)) => Ok(vec![Reply::Error(ReplyError::Io(e.into()))]),
            Err(ExecAskError::GeneralAskFailed(AskError::Failure { msg })) => Ok(vec![Reply::Error(ReplyError::from(msg.as_str()))]),
            Err(e) => Err(format!("{:?}", e)),
        },
        2 => match x.ask(Request::Batch(reqs.into())).await {
            Ok(Reply::Batch(a)) if a.results.len() == us.len() => Ok(a.results),
            r => Err(format!("{:.100}", format!("{:?}", r))),
        },
        _ => {
            let l: Vec<_> = reqs.into_iter().map(|r| LazilyTransformedRequest::new(r, vec![])).collect();
            match x.ask(Request::Sequence(l.into())).await {
                Ok(Reply::Sequence(a)) if a.results.len() == us.len() => Ok(a.results),
                r => Err(format!("{:.100}", format!("{:?}", r))),
            }
        }
    };
    let recv = simcore::now();
    let mut w = w.lock().unwrap();
    match res {
        Ok(rs) => {
            let mut aborted = false;
            for (i, ((u, pid), r)) in us.iter().zip(&pids).zip(&rs).enumerate() {
                let is_err = matches!(r, Reply::Error(_));
                if how == 3 && aborted {
                    // not executed
                    if !is_err {
                        w.bad.push(("executed-after-failure".into(), format!("{:?}", r)));
                    }
                    continue;
                }
                record(&mut w, c, u, *pid, r, send, recv, if how == 3 { Some((group, i)) } else { None });
                aborted |= is_err;
            }
        }
        Err(e) => w.bad.push(("no-reply".into(), format!("client {} {:.100}: {}", c, format!("{:?}", op), e))),
    }
}

/// Is there an order of the pieces, consistent with real time, whose
/// concatenation is the truth?
fn orderable(pieces: &[Piece], truth: &[u8]) -> bool {
    let v: Vec<&Piece> = pieces.iter().filter(|p| !p.data.is_empty()).collect();
    if v.iter().map(|p| p.data.len()).sum::<usize>() != truth.len() {
        return false;
    }
    let mut seen = HashSet::new();
    let mut used = vec![false; v.len()];
    fn go(v: &[&Piece], used: &mut Vec<bool>, pos: usize, t: &[u8], seen: &mut HashSet<Vec<bool>>) -> bool {
        if used.iter().all(|u| *u) {
            return pos == t.len();
        }
        if !seen.insert(used.clone()) {
            return false;
        }
        for i in 0..v.len() {
            if used[i] || !t[pos..].starts_with(&v[i].data) {
                continue;
            }
            if (0..v.len()).any(|j| !used[j] && j != i && v[j].before(v[i])) {
                continue;
            }
            used[i] = true;
            if go(v, used, pos + v[i].data.len(), t, seen) {
                return true;
            }
            used[i] = false;
        }
        false
    }
    go(&v, &mut used, 0, truth, &mut seen)
}

/// Can what the process consumed be explained by the writes? With `all`, every
/// acknowledged write must be part of it.
fn explained(writes: &[Piece], consumed: &[u8], all: bool) -> bool {
    let v: Vec<&Piece> = writes.iter().filter(|p| !p.data.is_empty()).collect();
    fn go(v: &[&Piece], used: &mut Vec<bool>, pos: usize, t: &[u8], all: bool, seen: &mut HashSet<(usize, Vec<bool>)>) -> bool {
        if pos == t.len() && (!all || (0..v.len()).all(|i| used[i] || v[i].failed)) {
            return true;
        }
        if !seen.insert((pos, used.clone())) {
            return false;
        }
        for i in 0..v.len() {
            if used[i] || (0..v.len()).any(|j| !used[j] && j != i && v[j].before(v[i])) {
                continue;
            }
            let d = &v[i].data;
            let common = d.iter().zip(&t[pos..]).take_while(|(a, b)| a == b).count();
            let mut takes = vec![];
            if v[i].failed {
                takes.push(common);
                takes.extend(0..common.min(8));
            } else if common == d.len() || (!all && pos + common == t.len()) {
                takes.push(common);
            }
            for n in takes {
                used[i] = true;
                if go(v, used, pos + n, t, all, seen) {
                    return true;
                }
                used[i] = false;
            }
        }
        false
    }
    go(&v, &mut vec![false; v.len()], 0, consumed, all, &mut HashSet::new())
}

fn brief(p: &[Piece]) -> String {
    let v: Vec<String> = p
        .iter()
        .filter(|p| !p.data.is_empty())
        .map(|p| format!("{}{} bytes ({:02x?}..) [{}..{} us]", if p.failed { "failed " } else { "" }, p.data.len(), &p.data[..p.data.len().min(4)], p.send / 1000, p.recv / 1000))
        .collect();
    v.join(", ")
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let w: Shared = Default::default();
    let (w2, rep2) = (w.clone(), rep.clone());
    let net = par.net.clone();
    in_runtime(rep, async move {
        simcore::stop_faults();
        let server = match serve(&net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        std::fs::create_dir(scratch().join("wd")).expect("harness: mkdir");
        simcore::resume_faults();
        for c in 0..par.clients {
            let mine: Vec<Op> = ops.iter().filter(|o| o.client() == c).cloned().collect();
            let (net, w) = (net.clone(), w2.clone());
            spawn_on(10 + c, async move {
                match connect(&net, 120_000).await {
                    Ok(mut x) => {
                        for op in &mine {
                            perform(c, &mut x, op, &w).await;
                        }
                        drop(x);
                    }
                    Err(e) => w.lock().unwrap().bad.push(("connect-failed".into(), e.to_string())),
                }
                w.lock().unwrap().done += 1;
            });
        }
        let limit = simcore::now() + (120_000 + ops.len() as u64 * 20_000) * MS;
        while w2.lock().unwrap().done < par.clients {
            if simcore::now() > limit {
                return rep2.borrow_mut().fail("stuck", "a client does not get through its operations");
            }
            sleep_ms(10).await;
        }
        simcore::stop_faults();
        // until the processes have nothing more to do
        let mut last = vec![];
        loop {
            sleep_ms(3000).await;
            let now: Vec<(usize, usize, usize, bool)> = tokio::sim::proc_truth().iter().map(|t| (t.out.len(), t.err.len(), t.consumed.len(), t.ended.is_some())).collect();
            if now == last {
                break;
            }
            last = now;
        }
        // read what is left
        let (w3, net3, done) = (w2.clone(), net.clone(), Arc::new(Mutex::new(false)));
        let done2 = done.clone();
        spawn_on(30, async move {
            match connect(&net3, 60_000).await {
                Ok(mut x) => {
                    let slots: Vec<u32> = w3.lock().unwrap().slots.iter().filter(|(_, s)| s.pid.is_some()).map(|(k, _)| *k).collect();
                    for k in slots {
                        let (o, e) = {
                            let w = w3.lock().unwrap();
                            let s = w.slots[&k].start.clone().unwrap();
                            (s.stdout, s.stderr)
                        };
                        for _ in 0..2 {
                            if o {
                                perform(99, &mut x, &Op::Raw(0, U::Out(k)), &w3).await;
                            }
                            if e {
                                perform(99, &mut x, &Op::Raw(0, U::Err(k)), &w3).await;
                            }
                            perform(99, &mut x, &Op::Raw(0, U::Status(k)), &w3).await;
                        }
                    }
                    drop(x);
                }
                Err(e) => w3.lock().unwrap().bad.push(("connect-failed".into(), e.to_string())),
            }
            *done2.lock().unwrap() = true;
        });
        let limit = simcore::now() + 600_000 * MS;
        while !*done.lock().unwrap() {
            if simcore::now() > limit {
                return rep2.borrow_mut().fail("stuck", "the last reads are not answered");
            }
            sleep_ms(10).await;
        }
        judge(&mut rep2.borrow_mut(), &w2.lock().unwrap(), &tokio::sim::proc_truth());
        drop(server);
    });
}

fn judge(rep: &mut Report, w: &World, truths: &[Truth]) {
    for (s, d) in &w.bad {
        rep.fail(s.clone(), d.clone());
    }
    rep.check(truths.len() as u32 == w.execs, "processes-started", || format!("{} processes, {} started according to the replies", truths.len(), w.execs));
    let (mut bytes, mut input, mut polls, mut ended) = (0u64, 0u64, 0u64, 0u64);
    for (k, s) in &w.slots {
        let (pid, st) = match (s.pid, &s.start) {
            (Some(p), Some(st)) => (p, st),
            _ => continue,
        };
        let t = match truths.iter().find(|t| t.pid == pid) {
            Some(t) => t,
            None => {
                rep.fail("no-such-process", format!("process {} never existed", pid));
                continue;
            }
        };
        let want_dir = if st.dir == 1 { std::fs::canonicalize(scratch().join("wd")).ok().map(|p| p.to_string_lossy().into_owned()) } else { None };
        rep.check(t.script == st.script && t.piped == [st.stdin, st.stdout, st.stderr] && t.dir == want_dir, "started-differently", || {
            format!("asked for {:?} in {:?}, runs {:?} in {:?} with {:?}", st, want_dir, t.script, t.dir, t.piped)
        });
        if st.stdout {
            rep.check(orderable(&s.out, &t.out), "stdout-differs", || format!("slot {} process {} {:?} wrote {} bytes; read {}", k, pid, t.script, t.out.len(), brief(&s.out)));
        }
        if st.stderr {
            rep.check(orderable(&s.err, &t.err), "stderr-differs", || format!("slot {} process {} {:?} wrote {} bytes; read {}", k, pid, t.script, t.err.len(), brief(&s.err)));
        }
        rep.mix_state((s.out.len() * 64 + s.err.len() * 8 + s.writes.len()) as u64);
        bytes += (t.out.len() + t.err.len()) as u64;
        if st.stdin {
            let all = t.ended.is_none() && t.wants;
            input += t.consumed.len() as u64;
            rep.check(explained(&s.writes, &t.consumed, all), if all { "stdin-incomplete" } else { "stdin-differs" }, || {
                format!("slot {} process {} {:?} consumed {} bytes ({:02x?}..); written {}", k, pid, t.script, t.consumed.len(), &t.consumed[..t.consumed.len().min(4)], brief(&s.writes))
            });
            for x in s.writes.iter().filter(|x| x.failed) {
                // only the end of the process closes its input
                rep.check(t.ended.map_or(false, |e| e <= x.recv), "write-failed-alive", || format!("process {} {:?} alive, but a write of {} bytes failed", pid, t.script, x.data.len()));
            }
            for x in s.writes.iter().filter(|x| !x.failed && !x.data.is_empty()) {
                rep.check(t.ended.map_or(true, |e| e >= x.send), "write-after-end", || format!("process {} ended at {} us, but a write was acknowledged: {:?}", pid, t.ended.unwrap() / 1000, brief(&[x.clone()])));
            }
        }
        let code = t.status.and_then(|st| if st & 0x7f == 0 { Some(st >> 8) } else { None });
        for x in &s.stats {
            polls += 1;
            rep.mix_state(x.alive as u64 * 512 + x.code.unwrap_or(256) as u64);
            if x.alive {
                rep.check(t.reported.map_or(true, |r| r >= x.send), "alive-after-end", || format!("process {} {:?} ended at {:?} ns: {:?}", pid, t.script, t.ended, x));
                rep.check(x.code.is_none(), "alive-with-code", || format!("process {}: {:?}", pid, x));
            } else {
                ended += 1;
                rep.check(t.ended.map_or(false, |e| e <= x.recv), "dead-too-early", || format!("process {} {:?} ended at {:?} ns: {:?}", pid, t.script, t.ended, x));
                rep.check(t.ended.is_none() || x.code == code, "wrong-exit-code", || format!("process {} {:?} ended with {:?}: {:?}", pid, t.script, t.status, x));
            }
        }
    }
    rep.probe("bytes of output", bytes);
    rep.probe("bytes of input", input);
    rep.probe("polls", polls);
    rep.probe("polls after the end", ended);
    rep.probe("processes", w.execs as u64);
}
