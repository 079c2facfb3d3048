//! Simulated child processes.
//!
//! Nothing is ever executed: the program `sim` interprets its arguments as a
//! script, one step each; any other program does not exist.
//!
//! ```text
//! out:TEXT err:TEXT    write to stdout / stderr (waits while the pipe is full)
//! outn:N:B errn:N:B    write N times the byte B (decimal)
//! fill:N:S efill:N:S   write N pseudo-random bytes of the seed S
//! sleep:MS             wait
//! cat                  copy stdin to stdout until the end of stdin
//! read:N               consume N bytes of stdin
//! echo:N               consume N bytes of stdin and write them to stdout
//! eof                  consume stdin until its end
//! closeout closeerr    close the stream
//! hang                 wait for ever
//! exit:N               end with the code
//! signal:N             die of the signal
//! pwd                  write the working directory to stdout
//! ```
use super::kill::Kill;
use super::SpawnedChild;
use crate::future::poll_fn;
use crate::io::{AsyncRead, AsyncWrite};
use simcore::pipe::Pipe;
use simcore::K;
use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::io;
use std::os::unix::process::ExitStatusExt;
use std::pin::Pin;
use std::process::{Command as StdCommand, ExitStatus, Stdio};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

const PIPE: usize = 65536;

/// Whether the value asks for a pipe. `Stdio` tells nobody, but it prints itself
/// the same for equal settings.
pub(crate) fn is_piped(s: &Stdio) -> bool {
    fn bytes(s: &Stdio) -> Vec<u8> {
        // the discriminant is all that differs between piped and null
        let n = std::mem::size_of::<Stdio>();
        let p = s as *const Stdio as *const u8;
        (0..n.min(4)).map(|i| unsafe { *p.add(i) }).collect()
    }
    bytes(s) == bytes(&Stdio::piped())
}

struct ProcState {
    pid: u32,
    status: Option<i32>,
    /// the kernel reported the end to the parent
    reported: bool,
    killed: Option<i32>,
    waker: Option<Waker>,
    body_waker: Option<Waker>,
    waited: bool,
    truth: Truth,
}

/// What really happened to a process
#[derive(Clone, Debug, Default)]
pub struct Truth {
    pub pid: u32,
    pub script: Vec<String>,
    pub dir: Option<String>,
    pub piped: [bool; 3],
    /// bytes taken from stdin
    pub consumed: Vec<u8>,
    /// bytes put into the pipes of stdout and stderr
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// blocked because stdin is empty
    pub wants: bool,
    pub spawned: u64,
    pub ended: Option<u64>,
    /// since when the parent can know about the end
    pub reported: Option<u64>,
    pub status: Option<i32>,
}

#[derive(Clone)]
struct Proc(Rc<RefCell<ProcState>>);
// a run owns its thread
unsafe impl Send for Proc {}
unsafe impl Sync for Proc {}

thread_local! {
    static TABLE: RefCell<Vec<Proc>> = RefCell::new(Vec::new());
}

/// What became of every process spawned in this run: pid and wait status
pub fn table() -> Vec<(u32, Option<i32>, bool)> {
    TABLE.with(|t| {
        t.borrow()
            .iter()
            .map(|p| {
                let p = p.0.borrow();
                (p.pid, p.status, p.waited)
            })
            .collect()
    })
}
/// Everything about every process spawned in this run
pub fn truth() -> Vec<Truth> {
    TABLE.with(|t| t.borrow().iter().map(|p| p.0.borrow().truth.clone()).collect())
}
/// Forget the processes of earlier runs
pub fn reset() {
    TABLE.with(|t| t.borrow_mut().clear());
}

fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

pub(crate) fn spawn_child(cmd: &mut StdCommand, piped: [bool; 3]) -> io::Result<SpawnedChild> {
    let _own = simcore::Own::new();
    match simcore::choose(K::ProcSpawnErr, 3) {
        0 => {}
        1 => return Err(os(11)),
        _ => return Err(os(12)),
    }
    let prog = cmd.get_program().to_string_lossy().into_owned();
    let name = prog.rsplit('/').next().unwrap_or("").to_string();
    let dir = cmd.get_current_dir().map(|p| p.to_path_buf());
    if let Some(d) = &dir {
        match std::fs::metadata(d) {
            Ok(m) if m.is_dir() => {}
            Ok(_) => return Err(os(20)),
            Err(_) => return Err(os(2)),
        }
    }
    match name.as_str() {
        "sim" => {}
        "noperm" => return Err(os(13)),
        _ => return Err(os(2)),
    }
    let script: Vec<String> = cmd
        .get_args()
        .map(|a| a.to_string_lossy().into_owned())
        .collect();
    let pid = TABLE.with(|t| t.borrow().len() as u32) + 1000;
    let state = Proc(Rc::new(RefCell::new(ProcState {
        pid,
        status: None,
        reported: false,
        killed: None,
        waker: None,
        body_waker: None,
        waited: false,
        truth: Truth {
            pid,
            script: script.clone(),
            dir: dir.as_ref().map(|d| d.to_string_lossy().into_owned()),
            piped,
            spawned: simcore::now(),
            ..Default::default()
        },
    })));
    TABLE.with(|t| t.borrow_mut().push(state.clone()));
    let mk = |yes: bool| if yes { Some(Pipe::new(PIPE)) } else { None };
    let (i, o, e) = (mk(piped[0]), mk(piped[1]), mk(piped[2]));
    simcore::count("processes", 1);
    simcore::log(|| format!("proc {} spawned {:?}", pid, script));
    let body = Body {
        fut: Some(Box::pin(run(
            script,
            i.clone(),
            o.clone(),
            e.clone(),
            dir.map(|d| d.to_string_lossy().into_owned()),
            state.clone(),
        ))),
        proc: state.clone(),
        pipes: [i.clone(), o.clone(), e.clone()],
    };
    // a process is no part of the node that spawned it
    simcore::on_node(PROC_NODE, || crate::spawn(body));
    Ok(SpawnedChild {
        child: Child { proc: state },
        stdin: i.map(ChildStdin),
        stdout: o.map(ChildOut),
        stderr: e.map(ChildOut),
    })
}

/// Node that child processes run on
pub const PROC_NODE: u32 = 200;

struct Body {
    fut: Option<Pin<Box<dyn Future<Output = i32>>>>,
    proc: Proc,
    pipes: [Option<Pipe>; 3],
}
unsafe impl Send for Body {}

impl Body {
    fn finish(&mut self, status: i32) {
        self.fut = None;
        if let Some(p) = self.pipes[0].take() {
            p.close_read();
        }
        for i in 1..3 {
            if let Some(p) = self.pipes[i].take() {
                p.close_write();
            }
        }
        let pid = {
            let mut p = self.proc.0.borrow_mut();
            p.status = Some(status);
            p.truth.status = Some(status);
            p.truth.ended = Some(simcore::now());
            p.body_waker = None;
            p.pid
        };
        simcore::log(|| format!("proc {} ended with {:#x}", pid, status));
        let c = simcore::choose(K::ProcReap, 8) as u64;
        let proc = self.proc.clone();
        // the parent learns of it through a signal, a little later
        simcore::after(10_000 + c * c * 500_000, move || {
            let w = {
                let mut p = proc.0.borrow_mut();
                p.reported = true;
                p.truth.reported = Some(simcore::now());
                p.waker.take()
            };
            if let Some(w) = w {
                w.wake()
            }
        });
    }
}

impl Future for Body {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let _own = simcore::Own::new();
        let killed = self.proc.0.borrow().killed;
        if let Some(sig) = killed {
            self.finish(sig);
            return Poll::Ready(());
        }
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(st) => {
                self.finish(st);
                Poll::Ready(())
            }
            Poll::Pending => {
                self.proc.0.borrow_mut().body_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

async fn pause() {
    let c = simcore::choose(K::ProcDelay, 8) as u64;
    if c > 0 {
        nap(c * c * 700_000).await;
    }
}
async fn nap(ns: u64) {
    let until = simcore::now() + ns;
    let mut armed = false;
    poll_fn(move |cx| {
        if simcore::now() >= until {
            return Poll::Ready(());
        }
        if !armed {
            armed = true;
        }
        let w = cx.waker().clone();
        simcore::at(until, move || w.wake());
        Poll::Pending
    })
    .await
}

async fn put(me: &Proc, fd: u8, p: &Option<Pipe>, mut d: &[u8]) -> Result<(), ()> {
    if let Some(p) = p {
        while !d.is_empty() {
            pause().await;
            let n = match poll_fn(|cx| p.poll_write(cx, d)).await {
                Ok(n) => n,
                // SIGPIPE
                Err(_) => return Err(()),
            };
            {
                let t = &mut me.0.borrow_mut().truth;
                if fd == 1 { &mut t.out } else { &mut t.err }.extend_from_slice(&d[..n]);
            }
            d = &d[n..];
        }
    }
    Ok(())
}
async fn get(me: &Proc, p: &Option<Pipe>, max: usize) -> Vec<u8> {
    match p {
        None => vec![],
        Some(p) => {
            pause().await;
            let mut b = vec![0; max.min(4096)];
            let n = poll_fn(|cx| {
                let r = p.poll_read(cx, &mut b);
                me.0.borrow_mut().truth.wants = r.is_pending();
                r
            })
            .await
            .unwrap_or(0);
            b.truncate(n);
            me.0.borrow_mut().truth.consumed.extend_from_slice(&b);
            b
        }
    }
}

const SIGPIPE: i32 = 13;

async fn run(
    script: Vec<String>,
    stdin: Option<Pipe>,
    mut stdout: Option<Pipe>,
    mut stderr: Option<Pipe>,
    dir: Option<String>,
    me: Proc,
) -> i32 {
    for step in script {
        pause().await;
        let mut it = step.splitn(2, ':');
        let op = it.next().unwrap_or("");
        let arg = it.next().unwrap_or("");
        let num: u64 = arg.split(':').next().unwrap_or("").parse().unwrap_or(0);
        let fill = || {
            let b: u8 = arg.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(b'x');
            vec![b; num as usize]
        };
        let noise = || {
            let s: u64 = arg.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            simcore::rng::Rng::new(s).bytes(num as usize)
        };
        let r = match op {
            "out" => put(&me, 1, &stdout, arg.as_bytes()).await,
            "err" => put(&me, 2, &stderr, arg.as_bytes()).await,
            "outn" => put(&me, 1, &stdout, &fill()).await,
            "errn" => put(&me, 2, &stderr, &fill()).await,
            "fill" => put(&me, 1, &stdout, &noise()).await,
            "efill" => put(&me, 2, &stderr, &noise()).await,
            "pwd" => put(&me, 1, &stdout, dir.as_deref().unwrap_or("").as_bytes()).await,
            "sleep" => {
                nap(num * simcore::MS).await;
                Ok(())
            }
            "cat" => loop {
                let d = get(&me, &stdin, 4096).await;
                if d.is_empty() {
                    break Ok(());
                }
                if put(&me, 1, &stdout, &d).await.is_err() {
                    break Err(());
                }
            },
            "read" | "echo" => {
                let mut left = num as usize;
                let mut r = Ok(());
                while left > 0 {
                    let d = get(&me, &stdin, left).await;
                    if d.is_empty() {
                        break;
                    }
                    left -= d.len();
                    if op == "echo" {
                        r = put(&me, 1, &stdout, &d).await;
                        if r.is_err() {
                            break;
                        }
                    }
                }
                r
            }
            "eof" => {
                while !get(&me, &stdin, 4096).await.is_empty() {}
                Ok(())
            }
            "closeout" => {
                if let Some(p) = stdout.take() {
                    p.close_write();
                }
                Ok(())
            }
            "closeerr" => {
                if let Some(p) = stderr.take() {
                    p.close_write();
                }
                Ok(())
            }
            "hang" => poll_fn(|_| Poll::<Result<(), ()>>::Pending).await,
            "exit" => return ((num as i32) & 0xff) << 8,
            "signal" => return (num as i32) & 0x7f,
            _ => return 127 << 8,
        };
        if r.is_err() {
            return SIGPIPE;
        }
    }
    0
}

pub(crate) struct Child {
    proc: Proc,
}
impl fmt::Debug for Child {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Child({})", self.id())
    }
}
impl Child {
    pub(crate) fn id(&self) -> u32 {
        self.proc.0.borrow().pid
    }
}
impl Kill for Child {
    fn kill(&mut self) -> io::Result<()> {
        if !simcore::active() {
            return Ok(());
        }
        let w = {
            let mut p = self.proc.0.borrow_mut();
            if p.status.is_none() && p.killed.is_none() {
                p.killed = Some(9);
            }
            p.body_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
        Ok(())
    }
}
impl Future for Child {
    type Output = io::Result<ExitStatus>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut p = self.proc.0.borrow_mut();
        match p.status {
            Some(s) if p.reported => {
                p.waited = true;
                Poll::Ready(Ok(ExitStatus::from_raw(s)))
            }
            _ => {
                p.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub(crate) struct ChildStdin(Pipe);
pub(crate) struct ChildOut(Pipe);
pub(crate) type ChildStdout = ChildOut;
pub(crate) type ChildStderr = ChildOut;

impl fmt::Debug for ChildStdin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ChildStdin")
    }
}
impl fmt::Debug for ChildOut {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ChildOut")
    }
}
impl Drop for ChildStdin {
    fn drop(&mut self) {
        self.0.close_write();
    }
}
impl Drop for ChildOut {
    fn drop(&mut self) {
        self.0.close_read();
    }
}
impl AsyncWrite for ChildStdin {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        self.0.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl AsyncRead for ChildOut {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        self.0.poll_read(cx, buf)
    }
}
