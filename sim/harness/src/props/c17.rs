//! C17: the command line streams a remote process faithfully
use super::*;
use crate::exec::{in_runtime, scratch};
use crate::plan::*;
use crate::world::*;
use clap::Clap;
use over_there::core::{request, Content, Reply, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::stdio::{self, Then};
use simcore::K;
use std::collections::BTreeSet;
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::sim::Truth;

pub static PROP: Prop = Prop {
    id: "C17",
    gen,
    run,
    quick_runs: 5000,
    batch: 20,
    rule: "The real command line (argument parsing, client and server commands) runs against simulated processes, terminals and network. Commands with random scripts of output, pauses and exits are run concurrently, with output to files or the standard streams, as text or JSON, with input from a file, re-attached after the command line crashed, with lost and delayed messages, resets, a crashing server, failing and short writes to the destinations. The kernel's record of what each process wrote is compared with what arrived; the return of the command, and of requests nobody answers, is judged in virtual time. File, folder and raw commands are compared with the file system and the protocol.",
    real: "all of over-there's command line (argument parsing, run_client, run_server, the poll loop, redirections, formats), client, server and protocol, and tokio's timers, channels, locks and task machinery, as built from the current tree",
    stub: "operating system: network, clocks, entropy, thread pool for blocking calls, child processes, standard streams, name lookup and task scheduling are simulated; files are real files in a scratch folder behind a fault-injecting layer",
    assumptions: &[
        "tokio 0.2.13 is patched below its public API (sockets, parking, scheduling, blocking pool, processes)",
        "several command lines of one run share a process, so that at most one of them uses the standard streams",
        "completeness is demanded if the grace period is longer than the stalls injected after the end of the process",
        "messages are not duplicated: reading output is destructive, and without a nonce cache, which the command line does not offer, a duplicated UDP request is executed twice",
        "sampling: a clean batch is evidence, not proof",
    ],
    panics_ok: true,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    tcp: bool,
    v6: bool,
    named: bool,
    auth: u8,
    crypt: u8,
    key: u64,
    buffer: usize,
    /// milliseconds
    timeout: u64,
    /// the server crashes at this time
    crash: Option<u64>,
    /// 0 none at all, 1 partitioned, 2 slow
    mute: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Exec {
    start: u64,
    script: Vec<String>,
    dir: bool,
    grace: u64,
    /// seed and lines of the input
    stdin: Option<(u64, u32)>,
    /// the input of a descriptor in non-blocking mode
    again: bool,
    out_file: bool,
    err_file: bool,
    json: bool,
    print: bool,
    /// the command line crashes so much later, and another re-attaches after a while
    crash: Option<(u64, u64)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum F {
    Write(u32, usize, u64),
    Read(u32),
    MoveFile(u32, u32),
    RemoveFile(u32),
    MakeDir(u32, bool),
    List(u32),
    MoveDir(u32, u32),
    RemoveDir(u32, bool),
    /// on the server, by somebody else
    Put(u32, usize, u64),
    Version,
    Capabilities,
    /// number of lines, bad ones, with metadata
    Raw(u32, u32, bool),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Exec(Exec),
    File(F, bool),
    /// 0 version, 1 capabilities, 2 ls-root-dir, 3 exec
    Ask(u8, bool),
}

fn output(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => rng.below(3),
        1..=6 => rng.below(200),
        7..=8 => rng.below(5000),
        _ => rng.below(100_000),
    }
}
fn script(rng: &mut Rng, quick: bool) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..rng.range(1, 6) {
        v.push(match rng.below(12) {
            0..=3 => format!("fill:{}:{}", output(rng), rng.below(1 << 30)),
            4..=6 => format!("efill:{}:{}", output(rng), rng.below(1 << 30)),
            7..=8 => format!("sleep:{}", if quick { *rng.pick(&[1, 3, 10]) } else { *rng.pick(&[1, 5, 30, 200, 900]) }),
            9 => "out:-h --help grüße\nsecond line".into(),
            10 => rng.pick(&["closeout", "closeerr", "pwd"]).to_string(),
            _ => "err:no newline".into(),
        });
    }
    v.push(match rng.below(5) {
        0 => format!("exit:{}", rng.below(256)),
        1 => format!("signal:{}", *rng.pick(&[1, 9, 15])),
        2 => "fill:70:1".into(),
        3 => "efill:70:1".into(),
        _ => "out:the end".into(),
    });
    v
}
fn lines(seed: u64, n: u32) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = vec![];
    for i in 0..n {
        let k = *r.pick(&[0, 1, 5, 40, 300, 2000]) as usize;
        if seed % 4 == 0 {
            v.extend(r.bytes(k));
        } else {
            let l: String = (0..k).map(|_| *r.pick(&['a', 'b', ' ', 'ü', '→', '0'])).collect();
            v.extend_from_slice(l.as_bytes());
        }
        if i + 1 < n || r.below(3) > 0 {
            v.push(b'\n');
        }
    }
    v
}

fn exec(rng: &mut Rng) -> Exec {
    Exec {
        start: rng.below(30),
        script: script(rng, false),
        dir: rng.below(3) == 0,
        grace: *rng.pick(&[1, 20, 100, 100, 1000, 5000, 30_000]),
        stdin: None,
        again: false,
        out_file: true,
        err_file: true,
        json: false,
        print: rng.below(3) == 0,
        crash: None,
    }
}

fn gen(rng: &mut Rng, idx: u64, thorough: bool) -> Plan {
    let scenario = match idx % 10 {
        0..=3 => "stream",
        4 => "lossy",
        5 => "reattach",
        6..=7 => "files",
        _ => "timeout",
    };
    let scenario = if idx % 250 == 9 { "terminal" } else { scenario };
    let mut p = Plan::new("C17", scenario, rng);
    let tcp = rng.below(2) == 0;
    let mut par = Params {
        tcp,
        v6: rng.below(5) == 0,
        named: rng.below(5) == 0,
        auth: rng.below(3) as u8,
        crypt: *rng.pick(&[0, 0, 1, 2, 3, 4]),
        key: rng.below(1 << 30),
        buffer: *rng.pick(&[1000, 1000, 8, 1]),
        timeout: 60_000,
        crash: None,
        mute: 0,
    };
    par.named &= !par.v6;
    p.net.jitter_us = *rng.pick(&[10, 1000]);
    let mut ops = vec![];
    let mut span = 100;
    match scenario {
        "stream" | "lossy" | "terminal" => {
            // one command line may have the standard streams
            let k = rng.range(1, if thorough { 4 } else { 3 });
            for i in 0..k {
                let mut e = exec(rng);
                if i == 0 && scenario != "lossy" {
                    if rng.below(2) == 0 {
                        e.out_file = rng.below(2) == 0;
                        e.err_file = rng.below(2) == 0;
                    }
                    if rng.below(3) == 0 {
                        // only prints to the standard streams
                        e.json = true;
                        e.out_file = false;
                        e.err_file = false;
                    }
                    if rng.below(3) == 0 && scenario != "terminal" {
                        let (seed, n) = (rng.below(1 << 30), rng.range(1, 12) as u32);
                        let all = lines(seed, n).len() as u64;
                        e.stdin = Some((seed, n));
                        e.again = rng.below(3) == 0;
                        let at = rng.below(e.script.len() as u64) as usize;
                        let amount = if rng.below(2) == 0 { all } else { rng.below(all + 1) };
                        e.script.insert(at, format!("{}:{}", rng.pick(&["read", "echo", "echo"]), amount));
                    }
                }
                if scenario == "terminal" {
                    e.stdin = Some((1, 0));
                }
                ops.push(Op::Exec(e));
                if scenario == "terminal" {
                    break;
                }
            }
        }
        "reattach" => {
            let mut e = exec(rng);
            e.script.insert(0, "sleep:60".into());
            e.crash = Some((rng.range(5, 400), *rng.pick(&[1, 50, 700])));
            ops.push(Op::Exec(e));
            if rng.below(2) == 0 {
                ops.push(Op::Exec(exec(rng)));
            }
        }
        "files" => {
            for _ in 0..rng.range(3, if thorough { 30 } else { 14 }) {
                let f = |rng: &mut Rng| rng.below(6) as u32;
                let x = match rng.below(16) {
                    0..=2 => F::Write(f(rng), *rng.pick(&[1, 5, 300, 20_000]), rng.below(1 << 30)),
                    3..=4 => F::Read(f(rng)),
                    5 => F::MoveFile(f(rng), f(rng)),
                    6 => F::RemoveFile(f(rng)),
                    7 => F::MakeDir(rng.below(5) as u32, rng.below(2) == 0),
                    8 => F::List(rng.below(5) as u32),
                    9 => F::MoveDir(rng.below(5) as u32, rng.below(5) as u32),
                    10 => F::RemoveDir(rng.below(5) as u32, rng.below(2) == 0),
                    11..=12 => F::Put(f(rng), *rng.pick(&[0, 5, 3000]), rng.below(1 << 30)),
                    13 => rng.pick(&[F::Version, F::Capabilities]).clone(),
                    _ => F::Raw(rng.range(0, 6) as u32, rng.below(64) as u32, rng.below(2) == 0),
                };
                ops.push(Op::File(x, rng.below(3) == 0));
            }
        }
        _ => {
            par.timeout = *rng.pick(&[50, 300, 1000, 2500, 7000, 20_000, 90_000]);
            par.mute = rng.below(3) as u8;
            if par.mute == 0 {
                par.tcp = false;
            }
            let t = par.timeout;
            p.net.jitter_us = 10;
            p.net.latency_us = match par.mute {
                // one way: an answer comes after two
                2 => 1000 * *rng.pick(&[t / 8, t / 4, t * 3 / 8, t * 6 / 10, t, 2 * t]),
                _ => 500,
            };
            ops.push(Op::Ask(rng.below(if par.mute == 2 { 3 } else { 4 }) as u8, rng.below(4) == 0));
        }
    }
    for (i, o) in ops.iter_mut().enumerate() {
        if let Op::Exec(e) = o {
            // tells the processes apart
            e.script.insert(0, format!("sleep:{}", i));
            let pauses: u64 = e.script.iter().filter_map(|s| s.strip_prefix("sleep:")).map(|n| n.parse::<u64>().unwrap()).sum();
            span = span.max(pauses + e.grace);
        }
    }
    p.set(&par, &ops);
    if scenario != "timeout" {
        // the command line asks without a pause: keep the number of requests down
        p.net.latency_us = *rng.pick(&[300, 2000, 20_000]);
        p.net.latency_us = p.net.latency_us.max(span * 1000 / 1500);
        if idx % 30 == 1 {
            // requests take long, but not too long
            p.net.latency_us = 4_000_000;
            for o in ops.iter_mut() {
                if let Op::Exec(e) = o {
                    e.stdin = None;
                    e.script.retain(|s| !s.starts_with("read") && !s.starts_with("echo"));
                }
            }
            p.set(&par, &ops);
        }
    }
    p.swarm_sched(rng);
    if scenario == "timeout" {
        p.faults.remove("task-stall");
    }
    p.swarm(rng, K::ProcDelay, 50, 50_000, 400_000);
    p.swarm(rng, K::ProcShort, 50, 50_000, 600_000);
    p.swarm(rng, K::ProcReap, 60, 100_000, 900_000);
    p.swarm(rng, K::FsShort, 40, 50_000, 600_000);
    p.swarm(rng, K::SyscallErr, 40, 50_000, 600_000);
    p.swarm(rng, K::UdpDelay, 40, 20_000, 300_000);
    p.swarm(rng, K::TcpSplit, 40, 20_000, 300_000);
    p.swarm(rng, K::TcpDelay, 40, 20_000, 300_000);
    p.swarm(rng, K::TcpShortWrite, 40, 20_000, 300_000);
    p.swarm(rng, K::TcpShortRead, 40, 20_000, 300_000);
    if scenario == "lossy" {
        par.timeout = *rng.pick(&[1000, 6000, 30_000]);
        match rng.below(4) {
            0 => {
                p.fault(K::FsErr, *rng.pick(&[20_000, 200_000]));
                p.fault(K::FsTorn, *rng.pick(&[20_000, 200_000]));
            }
            1 => par.crash = Some(rng.range(1, 1000)),
            _ => {
                p.fault(K::UdpDrop, *rng.pick(&[2000, 20_000, 100_000]));
                p.fault(K::TcpReset, *rng.pick(&[200, 2000, 10_000]));
            }
        }
        let ops: Vec<Op> = p.o();
        p.set(&par, &ops);
    }
    p.max_steps = 4_000_000;
    p
}

// ---------- running the command line ----------

/// Everything of a run stays on its thread
struct OneThread<F>(F);
unsafe impl<F> Send for OneThread<F> {}
impl<F: Future> Future for OneThread<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    Fine,
    Failed(String),
    Panicked,
}
#[derive(Clone, Debug)]
struct Done {
    start: u64,
    end: u64,
    how: End,
}
type Slot = Arc<Mutex<Option<Done>>>;

/// Start a command line on a node; panics and crashes of the node end it
fn cli(node: u32, wait: u64, args: Vec<String>) -> Slot {
    let slot: Slot = Default::default();
    let s2 = slot.clone();
    let h = spawn_on(
        node,
        OneThread(async move {
            if wait > 0 {
                sleep_ms(wait).await;
            }
            let start = simcore::now();
            simcore::log(|| format!("{:?}", args));
            let o = match over_there::cli::Opts::try_parse_from(args) {
                Ok(o) => o,
                Err(e) => panic!("harness: arguments: {}", e),
            };
            let r = over_there::cli::run(o).await.map_err(|e| e.to_string());
            (start, r)
        }),
    );
    let began = simcore::now() + wait * MS;
    spawn_on(0, async move {
        let r = h.await;
        let end = simcore::now();
        let d = match r {
            Ok((start, Ok(()))) => Done { start, end, how: End::Fine },
            Ok((start, Err(e))) => Done { start, end, how: End::Failed(e) },
            Err(_) => Done { start: began, end, how: End::Panicked },
        };
        simcore::log(|| format!("command line of node {}: {:?}", node, d));
        *s2.lock().unwrap() = Some(d);
    });
    slot
}
fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn common(p: &Params, client: bool) -> Vec<String> {
    let mut v = strings(&["-t", if p.tcp { "tcp" } else { "udp" }, "--internal-buffer-size", &p.buffer.to_string()]);
    let text = |salt: u64, n: usize| -> String { Rng::new(p.key ^ salt).bytes(n).iter().map(|b| (b'a' + b % 26) as char).collect() };
    if p.auth > 0 {
        v.extend(strings(&["-a", if p.auth == 1 { "sha256" } else { "sha512" }, "--akey", &text(5, 1 + p.key as usize % 40)]));
    }
    if p.crypt > 0 {
        let (n, k) = [("aes128_gcm", 16), ("aes256_gcm", 32), ("aes128_gcm_siv", 16), ("aes256_gcm_siv", 32)][p.crypt as usize - 1];
        v.extend(strings(&["-e", n, "--ekey", &text(6, k)]));
    }
    if client {
        v.extend(strings(&["--timeout", &format!("{}", p.timeout as f64 / 1000.0)]));
        if p.v6 {
            v.push("-6".into());
        }
    }
    v
}
fn net(p: &Params) -> Net {
    Net { tcp: p.tcp, v6: p.v6, ..Default::default() }
}
fn client(p: &Params, more: &[String], sub: &[String]) -> Vec<String> {
    let mut v = strings(&["over-there", "client"]);
    v.extend(common(p, true));
    v.extend_from_slice(more);
    v.push(if p.named { format!("n{}:7000", SERVER) } else { net(p).addr().to_string() });
    v.extend_from_slice(sub);
    v
}
fn server(p: &Params) -> Slot {
    let mut v = strings(&["over-there", "server"]);
    v.extend(common(p, false));
    v.extend(strings(&["--untouched-file-ttl", "36000", "--untouched-proc-ttl", "36000", "--dead-proc-ttl", "36000", "--cleanup-interval", "30"]));
    v.push(net(p).addr().to_string());
    cli(SERVER, 0, v)
}

async fn wait(slots: &[Slot], limit: u64) -> bool {
    while !slots.iter().all(|s| s.lock().unwrap().is_some()) {
        if simcore::now() > limit {
            return false;
        }
        sleep_ms(5).await;
    }
    true
}

// ---------- judging ----------

fn file(i: usize, what: &str) -> PathBuf {
    scratch().join(format!("{}{}", what, i))
}
fn content(p: &Path) -> Vec<u8> {
    std::fs::read(p).unwrap_or_default()
}
fn dash_args(e: &Exec) -> Vec<String> {
    let mut v = strings(&["exec"]);
    if e.stdin.is_none() {
        v.push("--no-stdin".into());
    }
    if e.dir {
        v.extend(strings(&["--current-dir", &scratch().join("wd").to_string_lossy()]));
    }
    v.extend(strings(&["--post-exit-duration", &e.grace.to_string(), "--", "sim"]));
    v.extend(e.script.iter().cloned());
    v
}
fn more(e: &Exec, i: usize, tag: &str) -> Vec<String> {
    let mut v = vec![];
    if e.out_file {
        v.extend(strings(&["--redirect-stdout", &file(i, &format!("out{}", tag)).to_string_lossy()]));
    }
    if e.err_file {
        v.extend(strings(&["--redirect-stderr", &file(i, &format!("err{}", tag)).to_string_lossy()]));
    }
    if e.json {
        v.extend(strings(&["-o", "json"]));
    }
    if e.print {
        v.push("--exit-print".into());
    }
    v
}
/// What the command line has delivered, and the status it has printed
struct Got {
    out: Vec<u8>,
    err: Vec<u8>,
    status: Option<(u32, Option<i32>)>,
    bad: Option<String>,
}
fn delivered(e: &Exec, i: usize, tag: &str, pid: u32) -> Got {
    let [so, se] = stdio::written();
    let mut g = Got { out: vec![], err: vec![], status: None, bad: None };
    if e.json {
        for l in String::from_utf8_lossy(&so).lines() {
            match serde_json::from_str::<Content>(l) {
                Ok(Content::Reply(Reply::ProcStdoutContents(a))) => g.out.extend(a.output),
                Ok(Content::Reply(Reply::ProcStderrContents(a))) => g.err.extend(a.output),
                Ok(Content::Reply(Reply::ProcStatus(a))) if g.status.is_none() => g.status = Some((a.id, a.exit_code)),
                Ok(Content::Reply(Reply::Error(_))) => {}
                r => g.bad = Some(format!("{:.100} {:.100}", l, format!("{:?}", r))),
            }
        }
        return g;
    }
    g.out = if e.out_file { content(&file(i, &format!("out{}", tag))) } else { so };
    g.err = if e.err_file { content(&file(i, &format!("err{}", tag))) } else { se };
    if e.print {
        let head = format!("Proc {} exited with code ", pid).into_bytes();
        if let Some(at) = g.err.windows(head.len()).position(|w| w == &head[..]) {
            let digits: Vec<u8> = g.err[at + head.len()..].iter().take_while(|b| b.is_ascii_digit()).cloned().collect();
            // what follows could be a digit of the process's own output
            g.status = Some((pid, std::str::from_utf8(&digits).ok().and_then(|s| s.get(..3).or(Some(s))).and_then(|s| s.parse().ok())));
        }
    }
    g
}
fn code(t: &Truth) -> Option<i32> {
    t.status.and_then(|st| if st & 0x7f == 0 { Some(st >> 8) } else { None })
}
/// Without the line about the exit, wherever it was put
fn without_exit_line(err: &[u8], t: &Truth) -> Option<Vec<u8>> {
    let line = format!("Proc {} exited with code {}", t.pid, code(t).unwrap_or_default()).into_bytes();
    let at = err.windows(line.len()).position(|w| w == &line[..])?;
    let mut v = err[..at].to_vec();
    v.extend_from_slice(&err[at + line.len()..]);
    Some(v)
}
fn show(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("{} bytes arrived, {} were written, the first {} are equal", a.len(), b.len(), k)
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    stdio::open(vec![], Then::Eof);
    stdio::flush();
    match plan.scenario.as_str() {
        "files" => files(par, ops, rep),
        "timeout" => timeout(par, ops, rep, plan.net.latency_us * 1000),
        s => stream(par, ops, rep, s.to_string(), plan.faults.contains_key("fs-error"), plan.net.latency_us * 1000),
    }
    stdio::flush();
    stdio::close();
}

fn stream(par: Params, ops: Vec<Op>, rep: &Rep, scenario: String, disk: bool, latency: u64) {
    let rep2 = rep.clone();
    let terminal = scenario == "terminal";
    let execs: Vec<Exec> = ops.iter().filter_map(|o| if let Op::Exec(e) = o { Some(e.clone()) } else { None }).collect();
    in_runtime(rep, async move {
        simcore::stop_faults();
        std::fs::create_dir(scratch().join("wd")).expect("harness: mkdir");
        let srv = server(&par);
        sleep_ms(10).await;
        if let Some(d) = srv.lock().unwrap().clone() {
            return rep2.borrow_mut().fail("server-ended", format!("{:?}", d));
        }
        for e in &execs {
            if let Some((seed, n)) = e.stdin {
                stdio::open(
                    lines(seed, n),
                    if terminal {
                        Then::Block
                    } else if e.again {
                        Then::Again
                    } else {
                        Then::Eof
                    },
                );
            }
        }
        simcore::resume_faults();
        let slots: Vec<Slot> = execs.iter().enumerate().map(|(i, e)| cli(10 + i as u32, e.start, client(&par, &more(e, i, ""), &dash_args(e)))).collect();
        let mut second: Vec<Option<Slot>> = vec![];
        for (i, e) in execs.iter().enumerate() {
            let mut s = None;
            if let Some((at, pause)) = e.crash {
                sleep_ms(e.start + at).await;
                simcore::log(|| "the command line crashes".into());
                simcore::crash(10 + i as u32);
                sleep_ms(pause).await;
                let t = tokio::sim::proc_truth().into_iter().find(|t| t.script == e.script);
                if let Some(t) = t {
                    let mut sub = strings(&["reattach", "--no-stdin"]);
                    sub.extend(strings(&["--post-exit-duration", &e.grace.to_string(), &t.pid.to_string()]));
                    s = Some(cli(20 + i as u32, 0, client(&par, &more(e, i, "b"), &sub)));
                }
            }
            second.push(s);
        }
        if let Some(at) = par.crash {
            sleep_ms(at).await;
            simcore::log(|| "the server crashes".into());
            simcore::crash(SERVER);
        }
        let mut all = slots.clone();
        all.extend(second.iter().flatten().cloned());
        // until the processes have ended
        let begin = simcore::now();
        loop {
            sleep_ms(20).await;
            let ts = tokio::sim::proc_truth();
            let ended = all.iter().all(|s| s.lock().unwrap().is_some());
            // a process whose reader is gone may wait for ever
            if ended || (ts.len() >= execs.len() && ts.iter().all(|t| t.ended.is_some())) || simcore::now() > begin + 300_000 * MS {
                break;
            }
        }
        let last = tokio::sim::proc_truth().iter().filter_map(|t| t.reported.or(t.ended)).max().unwrap_or(0).max(begin);
        let slack = 30_000 * MS + 100 * latency;
        let grace = execs.iter().map(|e| e.grace).max().unwrap_or(0) * MS;
        let lossy = scenario == "lossy";
        let extra = if lossy { par.timeout * MS } else { 0 };
        loop {
            let t = simcore::now();
            if wait(&all, t + 1000 * MS).await {
                break;
            }
            if simcore::now() > last + grace + extra + slack + simcore::stalled(last, simcore::now()) {
                rep2.borrow_mut().fail("does-not-end", format!("the processes ended at {} ms, the command lines still run", last / MS));
                break;
            }
        }
        simcore::stop_faults();
        // whoever still runs may hold the lock of stdin
        for i in 0..execs.len() as u32 {
            simcore::crash(10 + i);
            simcore::crash(20 + i);
        }
        sleep_ms(1).await;
        stdio::flush();
        let mut rep = rep2.borrow_mut();
        if let (true, Some(at)) = (terminal, stdio::blocked()) {
            let d = slots[0].lock().unwrap().clone();
            rep.fail("waits-for-terminal", format!("a read of the terminal began at {} us and never returns, so that neither the output nor the end of the process is noticed ({:?})", at / 1000, d));
        }
        let truths = tokio::sim::proc_truth();
        let (mut bytes, mut strict_n) = (0u64, 0u64);
        for (i, e) in execs.iter().enumerate() {
            let d = slots[i].lock().unwrap().clone();
            let t = truths.iter().find(|t| t.script == e.script).cloned();
            let same = truths.iter().filter(|t| t.script == e.script).count();
            let crashed = e.crash.is_some();
            rep.check(same <= 1, "started-twice", || format!("{:?} runs {} times", e.script, same));
            let d = match d {
                Some(d) => d,
                None => continue,
            };
            let late = simcore::stalled(d.start, d.end) * 2 > par.timeout * MS;
            let excused = crashed || lossy || late;
            if !rep.check(d.how == End::Fine || excused, "failed", || format!("{:?} of {:?}", d, e)) {
                continue;
            }
            let t = match t {
                Some(t) => t,
                None => {
                    rep.check(d.how != End::Fine, "never-started", || format!("{:?}: {:?}", e, d));
                    continue;
                }
            };
            rep.check(t.dir == if e.dir { Some(scratch().join("wd").to_string_lossy().into_owned()) } else { None } && t.piped == [true; 3], "started-differently", || {
                format!("asked for {:?}, runs in {:?} with {:?}", e, t.dir, t.piped)
            });
            let mut parts = vec![(d.clone(), "")];
            if let Some(s) = &second[i] {
                if let Some(d2) = s.lock().unwrap().clone() {
                    rep.check(d2.how == End::Fine || late || simcore::stalled(d2.start, d2.end) * 2 > par.timeout * MS, "failed", || format!("re-attached: {:?} of {:?}", d2, e));
                    parts.push((d2, "b"));
                }
            }
            for (k, (d, tag)) in parts.iter().enumerate() {
                let mut g = delivered(e, i, tag, t.pid);
                let fine = d.how == End::Fine;
                let whole = k == 0 && fine;
                let (from, to) = (t.ended.unwrap_or(0), d.end);
                let stalls = simcore::stalled(from, to);
                let strict = fine && e.grace > 0 && (stalls == 0 || e.grace * MS > stalls + 20_000 * MS + 20 * latency);
                strict_n += strict as u64;
                if let Some(b) = &g.bad {
                    rep.fail("not-a-reply", b.clone());
                }
                if fine {
                    rep.check(t.ended.map_or(false, |x| x <= d.end), "ended-early", || format!("{:?} returned at {} us: {:?}", e, d.end / 1000, t.ended));
                    if let Some(r) = t.reported {
                        let over = d.end.saturating_sub(r.max(d.start));
                        rep.check(over <= e.grace * MS + slack + simcore::stalled(r, d.end), "ended-late", || format!("{:?} returned {} us after the end", e, over / 1000));
                    }
                    if e.json || e.print {
                        let want = if e.json { code(&t) } else { Some(code(&t).unwrap_or_default()) };
                        let line = !e.json && without_exit_line(&g.err, &t).is_some();
                        let ok = if e.json { g.status == Some((t.pid, want)) } else { line };
                        rep.check(ok, "exit-reported-wrongly", || format!("{:?} ended with {:?}: {:?}", e, t.status, g.status));
                    }
                }
                if e.print && !e.json {
                    if let Some(v) = without_exit_line(&g.err, &t) {
                        g.err = v;
                    }
                }
                bytes += (g.out.len() + g.err.len()) as u64;
                for (name, got, truth) in [("stdout", &g.out, &t.out), ("stderr", &g.err, &t.err)] {
                    let sig = |s: &str| format!("{}-{}", name, s);
                    let say = || format!("{} of {:?} [{:?}]: {}", name, e, d, show(got, truth));
                    // a torn write of the line about the exit
                    let cut = disk && e.print && name == "stderr";
                    if k == 0 {
                        let ok = truth.starts_with(got) || cut || (!fine && e.print && name == "stderr");
                        rep.check(ok, &sig("differs"), say);
                        if strict && whole {
                            rep.check(got == truth, &sig("incomplete"), say);
                        }
                    } else {
                        let first = delivered(e, i, "", t.pid);
                        let a = if name == "stdout" { first.out.len() } else { first.err.len() };
                        let a = if e.print && name == "stderr" { 0 } else { a };
                        rep.check(a + got.len() <= truth.len() && (got.is_empty() || truth.windows(got.len()).any(|w| w == &got[..])), &sig("differs"), say);
                        if strict {
                            rep.check(truth.ends_with(got), &sig("incomplete"), say);
                        }
                    }
                }
                rep.mix_state((k as u64) << 60 ^ g.out.len() as u64 * 31 + g.err.len() as u64 ^ (fine as u64) << 50);
                if let (0, Some((seed, n))) = (k, e.stdin) {
                    let input = lines(seed, n);
                    rep.check(input.starts_with(&t.consumed), "stdin-differs", || format!("{:?}: {}", e, show(&t.consumed, &input)));
                }
            }
        }
        rep.probe("bytes streamed", bytes);
        rep.probe("complete streams demanded", strict_n);
        rep.probe("processes", truths.len() as u64);
        drop(srv);
    });
}

fn timeout(par: Params, ops: Vec<Op>, rep: &Rep, latency: u64) {
    let rep2 = rep.clone();
    in_runtime(rep, async move {
        simcore::stop_faults();
        let srv = if par.mute > 0 { Some(server(&par)) } else { None };
        sleep_ms(10).await;
        simcore::resume_faults();
        for o in &ops {
            let (what, json) = match o {
                Op::Ask(w, j) => (*w, *j),
                _ => continue,
            };
            stdio::open(vec![], Then::Eof);
            let out = file(0, "answer");
            let mut m = strings(&["--redirect-stdout", &out.to_string_lossy()]);
            if json {
                m.extend(strings(&["-o", "json"]));
            }
            let sub = match what {
                0 => strings(&["version"]),
                1 => strings(&["capabilities"]),
                2 => strings(&["ls-root-dir"]),
                _ => strings(&["exec", "--no-stdin", "--", "sim", "hang"]),
            };
            let s = cli(10, 0, client(&par, &m, &sub));
            let begin = simcore::now();
            let mut cut = begin;
            if par.mute == 1 {
                // over TCP it needs to be connected first
                let pause = if par.tcp || what == 3 { 4 * latency } else { 0 };
                while simcore::now() < begin + pause {
                    sleep_ms(1).await;
                }
                simcore::net::cut(10, SERVER);
                cut = simcore::now();
            }
            let t = par.timeout * MS;
            let limit = begin + 4 * latency + 3 * t + 60_000 * MS;
            let ended = wait(&[s.clone()], limit).await;
            if !ended {
                simcore::crash(10);
                sleep_ms(1).await;
            }
            let mut rep = rep2.borrow_mut();
            if !rep.check(ended, "never-times-out", || format!("{:?} with a timeout of {} ms", o, par.timeout)) {
                continue;
            }
            let d = s.lock().unwrap().clone().unwrap();
            stdio::flush();
            let printed = stdio::written();
            let took = d.end - d.start;
            // blocking jobs (name lookup, appending to a file) take up to 70 ms each
            let jobs = 300 * MS;
            let answered = match par.mute {
                0 => false,
                1 => d.how == End::Fine && !json && what < 3 || json && !String::from_utf8_lossy(&printed[0]).contains("error"),
                _ => 2 * latency + 50 * MS < t,
            };
            let unsure = par.mute == 2 && 2 * latency < t + 200 * MS && 2 * latency + 200 * MS > t;
            let refused = match &d.how {
                End::Fine => json && String::from_utf8_lossy(&printed[0]).contains("error"),
                _ => true,
            };
            rep.mix_state(par.mute as u64 * 16 + what as u64 * 2 + refused as u64);
            if unsure {
                continue;
            }
            if par.mute == 1 {
                if !refused {
                    continue;
                }
                let over = d.end.saturating_sub(cut);
                rep.check(over <= t + jobs && d.end - d.start >= t, "wrong-timeout", || format!("{:?} failed after {} us, {} us after the partition; timeout {} ms, {:?}", o, took / 1000, over / 1000, par.timeout, d));
            } else if answered {
                rep.check(!refused, "timed-out-early", || format!("{:?} with a timeout of {} ms and a latency of {} us: {:?}", o, par.timeout, latency / 1000, d));
                rep.check(what == 2 || !content(&out).is_empty() || !printed[0].is_empty(), "prints-nothing", || format!("{:?}: {:?}", o, d));
            } else {
                let connect = if par.tcp { 2 * latency + 10 * MS } else { 0 };
                rep.check(refused && took >= t && took <= t + connect + jobs, "wrong-timeout", || format!("{:?} ended after {} us; timeout {} ms, {:?}", o, took / 1000, par.timeout, d));
            }
            rep.probe("requests with timeouts judged", 1);
        }
        drop(srv);
    });
}

fn path(i: u32) -> String {
    let d = scratch().join("root");
    match i {
        0..=2 => d.join(format!("f{}", i)),
        3 => d.join("d0").join("f"),
        4 => d.join("d1").join("deep").join("f"),
        _ => d.join("missing").join("f"),
    }
    .to_string_lossy()
    .into_owned()
}
fn folder(i: u32) -> String {
    let d = scratch().join("root");
    match i {
        0..=1 => d.join(format!("d{}", i)),
        2 => d.join("d1").join("deep"),
        3 => d,
        _ => d.join("missing2").join("deep"),
    }
    .to_string_lossy()
    .into_owned()
}
fn text(n: usize, seed: u64) -> String {
    let mut r = Rng::new(seed);
    (0..n).map(|_| *r.pick(&['x', 'y', '\n', 'ä', '€', '-', ' '])).collect()
}
/// The names in a folder with what they are
fn listing(p: &str) -> Option<BTreeSet<(String, bool)>> {
    let mut v = BTreeSet::new();
    for e in std::fs::read_dir(p).ok()? {
        let e = e.ok()?;
        v.insert((e.path().to_string_lossy().into_owned(), e.file_type().ok()?.is_dir()));
    }
    Some(v)
}
/// All paths below with their contents
fn tree(p: &Path, v: &mut BTreeSet<(PathBuf, Option<Vec<u8>>)>) {
    for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
        let q = e.path();
        if q.is_dir() {
            v.insert((q.clone(), None));
            tree(&q, v);
        } else {
            v.insert((q.clone(), Some(content(&q))));
        }
    }
}

fn files(par: Params, ops: Vec<Op>, rep: &Rep) {
    let rep2 = rep.clone();
    in_runtime(rep, async move {
        simcore::stop_faults();
        let root = scratch().join("root");
        std::fs::create_dir(&root).expect("harness: mkdir");
        std::fs::create_dir(root.join("d0")).expect("harness: mkdir");
        let srv = server(&par);
        sleep_ms(10).await;
        simcore::resume_faults();
        // files the server holds open, which protects them and their folders
        let mut open: BTreeSet<PathBuf> = BTreeSet::new();
        for (i, o) in ops.iter().enumerate() {
            let (f, json) = match o {
                Op::File(f, j) => (f, *j),
                _ => continue,
            };
            let held = |p: &str| open.iter().any(|o| o.starts_with(p));
            let mut raw: Vec<(String, Option<Request>)> = vec![];
            let mut input = vec![];
            let mut before = BTreeSet::new();
            tree(&root, &mut before);
            // whether it must succeed
            let (sub, good) = match f {
                F::Put(x, n, seed) => {
                    if !held(&path(*x)) {
                        let _ = std::fs::write(path(*x), text(*n, *seed));
                    }
                    continue;
                }
                F::Write(x, n, seed) => {
                    let p = path(*x);
                    let ok = Path::new(&p).parent().map_or(false, |d| d.is_dir());
                    (vec!["write-file".into(), "--".into(), p, text(*n, *seed)], ok)
                }
                F::Read(x) => {
                    let p = path(*x);
                    if !Path::new(&p).is_file() {
                        // would be created
                        continue;
                    }
                    (vec!["read-file".into(), p], true)
                }
                F::MoveFile(a, b) => {
                    let (a, b) = (path(*a), path(*b));
                    let ok = Path::new(&a).is_file() && !held(&a) && !held(&b) && Path::new(&b).parent().map_or(false, |d| d.is_dir());
                    (vec!["mv-file".into(), a, b], ok)
                }
                F::RemoveFile(x) => {
                    let p = path(*x);
                    let ok = Path::new(&p).is_file() && !held(&p);
                    (vec!["rm-file".into(), p], ok)
                }
                F::MakeDir(x, parents) => {
                    let p = folder(*x);
                    let q = Path::new(&p);
                    let ok = if *parents { true } else { !q.exists() && q.parent().map_or(false, |d| d.is_dir()) };
                    let mut v = vec!["mk-dir".into(), p];
                    if *parents {
                        v.push("--parents".into());
                    }
                    (v, ok)
                }
                F::List(x) => {
                    let p = folder(*x);
                    let ok = Path::new(&p).is_dir();
                    (vec!["ls-dir".into(), p], ok)
                }
                F::MoveDir(a, b) => {
                    if *a == 3 || *b == 3 {
                        continue;
                    }
                    let (a, b) = (folder(*a), folder(*b));
                    let (pa, pb) = (Path::new(&a), Path::new(&b));
                    let free = !pb.exists() || listing(&b).map_or(false, |l| l.is_empty());
                    if a == b || pb.starts_with(pa) || pa.starts_with(pb) {
                        continue;
                    }
                    let ok = pa.is_dir() && !held(&a) && !held(&b) && free && pb.parent().map_or(false, |d| d.is_dir());
                    (vec!["mv-dir".into(), a, b], ok)
                }
                F::RemoveDir(x, all) => {
                    let p = folder(*x);
                    let ok = *x != 3 && Path::new(&p).is_dir() && !held(&p) && (*all || listing(&p).map_or(false, |l| l.is_empty()));
                    if *x == 3 {
                        continue;
                    }
                    let mut v = vec!["rm-dir".into(), p];
                    if *all {
                        v.push("--non-empty".into());
                    }
                    (v, ok)
                }
                F::Version => (vec!["version".into()], true),
                F::Capabilities => (vec!["capabilities".into()], true),
                F::Raw(n, bad, meta) => {
                    for k in 0..*n {
                        let r = match k % 3 {
                            0 => Request::Version,
                            1 => Request::ListDirContents(request::ListDirContentsArgs { path: folder(3) }),
                            _ => Request::ReadProcStatus(request::ReadProcStatusArgs { id: 5 }),
                        };
                        let c = serde_json::to_value(Content::from(r.clone())).expect("harness: content");
                        let l = if *meta {
                            serde_json::json!({"content": c, "metadata": {"line": format!("{}", k)}}).to_string()
                        } else {
                            c.to_string()
                        };
                        if bad >> k & 1 == 1 {
                            raw.push((l[..l.len() - 1].to_string(), None));
                        } else {
                            raw.push((l, Some(r)));
                        }
                    }
                    let mut v = vec!["raw".to_string(), "--interactive".into()];
                    if *meta {
                        v.push("--meta-mode".into());
                    }
                    let mut rest = &raw[..];
                    if n % 2 == 1 {
                        v.push("--".into());
                        v.push(raw[0].0.clone());
                        rest = &raw[1..];
                    }
                    for (l, _) in rest {
                        input.extend_from_slice(l.as_bytes());
                        input.push(b'\n');
                    }
                    (v, true)
                }
            };
            stdio::open(input, Then::Eof);
            let (of, ef) = (file(i, "o"), file(i, "e"));
            let mut m = strings(&["--redirect-stdout", &of.to_string_lossy(), "--redirect-stderr", &ef.to_string_lossy()]);
            if json {
                m.extend(strings(&["-o", "json"]));
            }
            let s = cli(10, 0, client(&par, &m, &sub));
            let t0 = simcore::now();
            while !wait(&[s.clone()], simcore::now() + 1000 * MS).await {
                if simcore::now() > t0 + 200_000 * MS + simcore::stalled(t0, simcore::now()) {
                    simcore::crash(10);
                    sleep_ms(1).await;
                    return rep2.borrow_mut().fail("does-not-end", format!("{:?}", f));
                }
            }
            let d = s.lock().unwrap().clone().unwrap();
            stdio::flush();
            let printed = String::from_utf8_lossy(&stdio::written()[0]).into_owned();
            let answer = String::from_utf8_lossy(&content(&of)).into_owned();
            let mut rep = rep2.borrow_mut();
            if simcore::stalled(d.start, d.end) * 2 > par.timeout * MS {
                return;
            }
            let say = || format!("{:?} {}: {:?} printed {:.200} wrote {:.200}", f, if json { "json" } else { "text" }, d, printed, answer);
            if let F::Raw(_, _, meta) = f {
                judge_raw(&mut rep, &raw, *meta, &printed, &d);
                continue;
            }
            let reply = if json { serde_json::from_str::<Content>(printed.trim_end()).ok().and_then(|c| c.into_reply()) } else { None };
            if json && !rep.check(reply.is_some() && d.how == End::Fine, "not-a-reply", say) {
                continue;
            }
            let failed = d.how != End::Fine || matches!(reply, Some(Reply::Error(_)));
            let kind = if let Op::File(f, _) = o { format!("{:?}", f).split('(').next().unwrap_or("").len() as u64 } else { 0 };
            rep.mix_state(kind * 4 + json as u64 * 2 + failed as u64);
            if !rep.check(failed != good, if good { "refused" } else { "accepted" }, say) {
                continue;
            }
            let mut after = BTreeSet::new();
            tree(&root, &mut after);
            let mut want = before.clone();
            let gone = |w: &mut BTreeSet<(PathBuf, Option<Vec<u8>>)>, p: &str| {
                let x: Vec<_> = w.iter().filter(|(q, _)| q.starts_with(p)).cloned().collect();
                w.retain(|(q, _)| !q.starts_with(p));
                x
            };
            if good {
                match f {
                    F::Write(x, n, seed) => {
                        gone(&mut want, &path(*x));
                        want.insert((path(*x).into(), Some(text(*n, *seed).into_bytes())));
                        open.insert(path(*x).into());
                    }
                    F::Read(x) => {
                        open.insert(path(*x).into());
                        let c = content(Path::new(&path(*x)));
                        match &reply {
                            Some(Reply::FileContents(a)) => rep.check(a.contents == c, "file-differs", say),
                            Some(_) => rep.check(false, "wrong-reply", say),
                            None => rep.check(answer.as_bytes() == &c[..], "file-differs", say),
                        };
                    }
                    F::MoveFile(a, b) | F::MoveDir(a, b) => {
                        let dirs = matches!(f, F::MoveDir(..));
                        let (a, b) = if dirs { (folder(*a), folder(*b)) } else { (path(*a), path(*b)) };
                        if a != b {
                            gone(&mut want, &b);
                            for (p, c) in gone(&mut want, &a) {
                                let rel = p.strip_prefix(&a).expect("harness: prefix").to_path_buf();
                                let q = if rel.as_os_str().is_empty() { PathBuf::from(&b) } else { Path::new(&b).join(rel) };
                                want.insert((q, c));
                            }
                        }
                    }
                    F::RemoveFile(x) => {
                        gone(&mut want, &path(*x));
                    }
                    F::RemoveDir(x, _) => {
                        gone(&mut want, &folder(*x));
                    }
                    F::MakeDir(x, _) => {
                        let mut p = PathBuf::from(folder(*x));
                        while p != root {
                            want.insert((p.clone(), None));
                            p.pop();
                        }
                    }
                    F::List(x) => {
                        let l = listing(&folder(*x)).unwrap_or_default();
                        let got: BTreeSet<(String, bool)> = match &reply {
                            Some(Reply::DirContentsList(a)) => a.entries.iter().map(|e| (e.path.clone(), e.is_dir)).collect(),
                            _ => answer.lines().filter_map(|l| Some((l.split_once("] ")?.1.to_string(), l.starts_with("[D")))).collect(),
                        };
                        rep.check(got == l, "listing-differs", || format!("{:?} instead of {:?}; {}", got, l, say()));
                    }
                    _ => {
                        rep.check(!answer.is_empty() || json, "prints-nothing", say);
                    }
                }
            }
            rep.check(after == want, "wrong-effect", || {
                let a: Vec<_> = after.difference(&want).map(|x| x.0.clone()).collect();
                let b: Vec<_> = want.difference(&after).map(|x| x.0.clone()).collect();
                format!("unexpected {:?}, missing {:?}; {}", a, b, say())
            });
            rep.probe("file commands", 1);
        }
        drop(srv);
    });
}

#[derive(Deserialize)]
struct WithMeta {
    content: Content,
    metadata: std::collections::HashMap<String, String>,
}
fn judge_raw(rep: &mut Report, raw: &[(String, Option<Request>)], meta: bool, printed: &str, d: &Done) {
    let lines: Vec<&str> = printed.lines().collect();
    if !rep.check(lines.len() == raw.len() && d.how == End::Fine, "raw-answers", || format!("{} lines for {}: {:?} {:.300}", lines.len(), raw.len(), d, printed)) {
        return;
    }
    for (k, ((_, r), l)) in raw.iter().zip(&lines).enumerate() {
        let (c, m) = if meta {
            match serde_json::from_str::<WithMeta>(l) {
                Ok(w) => (Some(w.content), w.metadata.get("line").cloned()),
                Err(_) => (None, None),
            }
        } else {
            (serde_json::from_str::<Content>(l).ok(), None)
        };
        let reply = c.and_then(|c| c.into_reply());
        let ok = match (r, &reply) {
            (_, None) => false,
            (None, Some(x)) => matches!(x, Reply::Error(_)),
            (Some(Request::Version), Some(x)) => matches!(x, Reply::Version(_)),
            (Some(Request::ListDirContents(_)), Some(x)) => matches!(x, Reply::DirContentsList(_)),
            (Some(_), Some(x)) => matches!(x, Reply::Error(_)),
        };
        let tagged = !meta || r.is_none() || m == Some(format!("{}", k));
        rep.check(ok && tagged, "raw-answer", || format!("line {}: {:?} -> {:.200}", k, r, l));
    }
    rep.probe("raw lines", raw.len() as u64);
}
