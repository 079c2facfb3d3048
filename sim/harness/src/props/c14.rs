//! C14: compound requests run as specified and are always answered
use super::*;
use crate::exec::{in_runtime, scratch};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, AskError, LazilyTransformedRequest, Reply, ReplyError, Request, TransformRule};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C14",
    gen,
    run,
    quick_runs: 8000,
    batch: 20,
    rule: "1-3 clients send random trees of sequences and batches (up to 7 deep, beyond the limit of 5) over custom requests that identify themselves, succeed, fail, take time or panic, file and directory operations on their own paths, transformations that pass values of the previous reply on or cannot be applied, unsupported and invalid operations, while tasks, file operations and messages are delayed and, in some runs, file operations fail. A reference evaluator says for every tree which operations must run and what the reply must look like; the log of the custom handler (exactly once, order within sequences, overlap of batch members) and the real files are compared with it.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    // custom handlers panic on purpose
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    /// file operations may fail
    faulty: bool,
    /// no stalls: members of a batch must overlap
    prompt: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum N {
    /// id, delay, bytes of the reply, 0 succeeds 1 fails 2 panics
    Probe(u64, u64, usize, u8),
    Beat,
    Version,
    Caps,
    /// a file operation that cannot succeed
    Missing,
    Forward,
    Dir(u32),
    /// file, create it
    Open(u32, bool),
    /// identifier and tag from the previous reply; seed of the contents
    Write(u32, u64),
    /// with a wrong tag
    BadWrite(u32),
    /// identifier and tag from the previous reply
    Read(u32),
    /// data of the previous custom reply
    Copy(u64),
    /// refers to a value the previous reply does not have
    BadRule(u64),
    Seq(Vec<N>),
    Batch(Vec<N>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op(u32, N);

struct Gen {
    id: u64,
    file: u32,
    panics: bool,
    budget: i32,
}
impl Gen {
    fn probe(&mut self, rng: &mut Rng) -> N {
        self.id += 1;
        let mode = match rng.below(20) {
            0..=2 => 1,
            3 if self.panics => 2,
            _ => 0,
        };
        N::Probe(self.id, *rng.pick(&[0, 0, 1, 5, 30]), *rng.pick(&[0, 1, 10, 200, 2000]), mode)
    }
    fn leaf(&mut self, rng: &mut Rng) -> N {
        match rng.below(20) {
            0 => N::Beat,
            1 => N::Version,
            2 => N::Caps,
            3 => N::Missing,
            4 => N::Forward,
            5..=7 => {
                self.file += 1;
                N::Dir(self.file)
            }
            8 => {
                self.file += 1;
                N::Open(self.file, rng.below(3) > 0)
            }
            _ => self.probe(rng),
        }
    }
    /// A chain of operations each using the reply of the one before
    fn chain(&mut self, rng: &mut Rng) -> N {
        if rng.below(3) == 0 {
            self.id += 2;
            let mut v = vec![N::Probe(self.id - 1, 0, rng.below(50) as usize, 0), N::Copy(self.id)];
            if rng.below(3) == 0 {
                v.push(self.probe(rng));
            }
            if rng.below(4) == 0 {
                v.remove(0);
            }
            return N::Seq(v);
        }
        self.file += 1;
        let f = self.file;
        let mut v = vec![N::Open(f, true)];
        for _ in 0..rng.below(4) {
            v.push(N::Write(f, rng.below(1 << 30)));
        }
        v.push(match rng.below(4) {
            0 => N::BadWrite(f),
            1 => {
                self.id += 1;
                N::BadRule(self.id)
            }
            _ => N::Read(f),
        });
        if rng.below(2) == 0 {
            v.push(self.leaf(rng));
        }
        N::Seq(v)
    }
    /// Sequences that must overlap
    fn par(&mut self, rng: &mut Rng) -> N {
        let n = rng.range(2, 3);
        N::Batch(
            (0..n)
                .map(|_| {
                    self.id += 2;
                    N::Seq(vec![N::Probe(self.id - 1, 60, 1, 0), N::Probe(self.id, 60, 1, 0)])
                })
                .collect(),
        )
    }
    fn tree(&mut self, rng: &mut Rng, depth: u32) -> N {
        self.budget -= 1;
        if self.budget < 0 {
            return self.leaf(rng);
        }
        match rng.below(20) {
            0..=6 if depth > 0 => self.leaf(rng),
            7..=8 => self.chain(rng),
            9 => self.par(rng),
            k => {
                let n = if rng.below(15) == 0 { 0 } else { rng.range(1, 5) };
                // sometimes straight down
                let n = if rng.below(4) == 0 { 1 } else { n };
                let v = (0..n).map(|_| if depth >= 6 { self.leaf(rng) } else { self.tree(rng, depth + 1) }).collect();
                if k % 2 == 0 {
                    N::Seq(v)
                } else {
                    N::Batch(v)
                }
            }
        }
    }
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C14", if tcp { "tcp" } else { "udp" }, rng);
    let mut sec = Sec::any(rng);
    if sec.crypt > 0 && rng.below(2) == 0 {
        sec.cache = 1000;
    }
    let faulty = rng.below(3) == 0;
    let par = Params {
        net: Net {
            tcp,
            sec,
            cleanup: *rng.pick(&[20, 1000, 60_000]),
            ..Default::default()
        },
        clients: rng.range(1, 3) as u32,
        faulty,
        prompt: rng.below(2) == 0,
    };
    let mut g = Gen {
        id: 0,
        file: 0,
        panics: !faulty && rng.below(2) == 0,
        budget: 0,
    };
    let mut ops = vec![];
    for _ in 0..rng.range(2, if thorough { 15 } else { 7 }) {
        let c = rng.below(par.clients as u64) as u32;
        g.budget = if thorough { 60 } else { 25 };
        let mut t = g.tree(rng, 0);
        while !matches!(t, N::Seq(_) | N::Batch(_)) {
            t = g.tree(rng, 0);
        }
        if rng.below(15) == 0 {
            // deep down
            for _ in 0..rng.below(18) {
                t = if rng.below(2) == 0 { N::Seq(vec![t]) } else { N::Batch(vec![t]) };
            }
        }
        ops.push(Op(c, t));
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 200, 2000]);
    p.net.jitter_us = *rng.pick(&[10, 1000]);
    p.swarm_sched(rng);
    if par.prompt {
        p.faults.remove("task-stall");
    }
    p.swarm(rng, K::BlockDelay, 50, 50_000, 500_000);
    if faulty {
        p.swarm(rng, K::FsErr, 100, 20_000, 300_000);
    }
    p.swarm(rng, K::UdpDelay, 40, 20_000, 300_000);
    if sec.cache > 0 {
        p.swarm(rng, K::UdpDup, 60, 20_000, 300_000);
    }
    p.swarm(rng, K::TcpSplit, 40, 20_000, 300_000);
    p.swarm(rng, K::TcpDelay, 40, 20_000, 300_000);
    p.max_steps = 3_000_000;
    p
}

fn path(f: u32) -> String {
    scratch().join(format!("n{}", f)).to_string_lossy().into_owned()
}
fn rule(path: &str, value: &str) -> TransformRule {
    TransformRule {
        path: path.into(),
        value: value.into(),
    }
}
fn bytes(seed: u64) -> Vec<u8> {
    Rng::new(seed).bytes((seed % 300) as usize)
}
fn probe(n: &N) -> Option<Probe> {
    match n {
        N::Probe(id, delay, reply, mode) => Some(Probe {
            id: *id,
            delay: if *mode == 2 { PANIC } else { *delay },
            reply: *reply,
            fill: (*id % 40) as usize,
            fail: *mode == 1,
        }),
        N::BadRule(id) => Some(Probe {
            id: *id,
            delay: 0,
            reply: 1,
            fill: 0,
            fail: false,
        }),
        _ => None,
    }
}
fn request(n: &N) -> Request {
    match n {
        N::Probe(..) | N::BadRule(_) => probe(n).unwrap().request(),
        N::Copy(_) => Request::Custom(request::CustomArgs { data: vec![1] }),
        N::Beat => Request::Heartbeat,
        N::Version => Request::Version,
        N::Caps => Request::Capabilities,
        N::Missing => Request::CloseFile(request::CloseFileArgs { id: 999_999_999, sig: 1 }),
        N::Forward => Request::Forward(request::ForwardArgs {
            address: server_addr(),
            request: Box::new(Request::Heartbeat),
        }),
        N::Dir(f) => Request::CreateDir(request::CreateDirArgs {
            path: path(*f),
            include_components: false,
        }),
        N::Open(f, create) => Request::OpenFile(request::OpenFileArgs {
            path: path(*f),
            create_if_missing: *create,
            write_access: true,
            read_access: true,
        }),
        N::Write(_, s) => Request::WriteFile(request::WriteFileArgs {
            id: 0,
            sig: 0,
            contents: bytes(*s),
        }),
        N::BadWrite(_) => Request::WriteFile(request::WriteFileArgs {
            id: 0,
            sig: 0,
            contents: vec![1, 2, 3],
        }),
        N::Read(_) => Request::ReadFile(request::ReadFileArgs { id: 0, sig: 0 }),
        N::Seq(v) => {
            let ops: Vec<_> = v.iter().map(|n| LazilyTransformedRequest::new(request(n), rules(n))).collect();
            Request::Sequence(ops.into())
        }
        N::Batch(v) => Request::Batch(v.iter().map(request).collect::<Vec<_>>().into()),
    }
}
fn rules(n: &N) -> Vec<TransformRule> {
    let id = || rule("$.payload.id", "$.payload.id");
    match n {
        N::Write(..) | N::Read(_) => vec![id(), rule("$.payload.sig", "$.payload.sig")],
        N::BadWrite(_) => vec![id()],
        N::Copy(_) => vec![rule("$.payload.data", "$.payload.data")],
        N::BadRule(_) => vec![rule("$.payload.data", "$.payload.nothing")],
        _ => vec![],
    }
}

/// The reference: what must have happened, given that the replies of file
/// operations say which of them failed
struct Model {
    faulty: bool,
    /// probes that ran
    ran: BTreeSet<u64>,
    /// first everything in here ran, then everything in there
    order: Vec<(Vec<u64>, Vec<u64>)>,
    /// probes that must have started before those
    overlap: Vec<(Vec<u64>, Vec<u64>)>,
    /// data that must have reached the custom handler
    copied: Vec<Vec<u8>>,
    /// paths that exist (Some: as directory, or file with these contents), do
    /// not exist (None); those not listed may do either
    paths: BTreeMap<u32, Option<Thing>>,
    bad: Vec<(String, String)>,
}
#[derive(Clone, Debug, PartialEq)]
enum Thing {
    Dir,
    File(Vec<u8>),
}
/// The operation ended in a panic
struct Panic;

/// What the operation before in a sequence left behind
#[derive(Clone)]
enum Prev {
    Open(u32),
    Data(Vec<u8>),
    Other,
}

impl Model {
    fn fail(&mut self, sig: &str, n: &N, actual: Option<&Reply>) {
        self.bad.push((sig.into(), format!("{:.200}: {:.200}", format!("{:?}", n), format!("{:?}", actual))));
    }
    /// Everything in the tree that must not have an effect
    fn unused(&mut self, n: &N) {
        match n {
            N::Dir(f) | N::Open(f, _) => {
                self.paths.entry(*f).or_insert(None);
            }
            N::Seq(v) | N::Batch(v) => v.iter().for_each(|n| self.unused(n)),
            _ => {}
        }
    }
    fn error(&mut self, n: &N, actual: Option<&Reply>) -> bool {
        if let Some(a) = actual {
            if !matches!(a, Reply::Error(_)) {
                self.fail("error-expected", n, actual);
            }
        }
        false
    }
    /// Returns whether the operation succeeded
    fn eval(&mut self, n: &N, depth: u32, prev: &mut Option<Prev>, actual: Option<&Reply>) -> Result<bool, Panic> {
        let before = prev.take();
        *prev = Some(Prev::Other);
        if depth == 0 {
            self.unused(n);
            return Ok(self.error(n, actual));
        }
        macro_rules! expect {
            ($p:pat) => {{
                if let Some(a) = actual {
                    if !matches!(a, $p) {
                        self.fail("wrong-reply", n, actual);
                    }
                }
                Ok(true)
            }};
        }
        // a file operation that would succeed may fail
        let failed = self.faulty && matches!(actual, Some(Reply::Error(_)));
        match n {
            N::Probe(id, _, _, mode) => {
                self.ran.insert(*id);
                match mode {
                    0 => {
                        let p = probe(n).unwrap();
                        if let Some(a) = actual {
                            if !p.fits(a) {
                                self.fail("wrong-reply", n, actual);
                            }
                        }
                        *prev = Some(Prev::Data(p.answer()));
                        Ok(true)
                    }
                    1 => {
                        if let Some(Reply::Error(ReplyError::Generic(_))) = actual {
                            if !format!("{:?}", actual).contains(&format!("fail {}", id)) {
                                self.fail("wrong-error", n, actual);
                            }
                        }
                        Ok(self.error(n, actual))
                    }
                    _ => Err(Panic),
                }
            }
            N::Beat => expect!(Reply::Heartbeat),
            N::Version => expect!(Reply::Version(_)),
            N::Caps => expect!(Reply::Capabilities(_)),
            N::Missing | N::Forward | N::BadWrite(_) => Ok(self.error(n, actual)),
            N::BadRule(id) => match before {
                // nothing to transform
                None => {
                    self.ran.insert(*id);
                    expect!(Reply::Custom(_))
                }
                Some(_) => Ok(self.error(n, actual)),
            },
            N::Copy(_) => {
                let d = match before {
                    Some(Prev::Data(d)) => d,
                    None => vec![1],
                    _ => return Ok(self.error(n, actual)),
                };
                self.copied.push(d);
                Ok(self.error(n, actual))
            }
            N::Dir(f) => {
                if failed {
                    return Ok(false);
                }
                self.paths.insert(*f, Some(Thing::Dir));
                expect!(Reply::DirCreated(_))
            }
            N::Open(f, create) => {
                if failed {
                    return Ok(false);
                }
                if !create {
                    self.paths.insert(*f, None);
                    return Ok(self.error(n, actual));
                }
                self.paths.insert(*f, Some(Thing::File(vec![])));
                *prev = Some(Prev::Open(*f));
                expect!(Reply::FileOpened(_))
            }
            N::Write(f, s) => {
                if failed {
                    // written in part
                    self.paths.remove(f);
                    return Ok(false);
                }
                match before {
                    Some(Prev::Open(g)) if g == *f => {
                        self.paths.insert(*f, Some(Thing::File(bytes(*s))));
                        *prev = Some(Prev::Open(*f));
                        expect!(Reply::FileWritten(_))
                    }
                    _ => Ok(self.error(n, actual)),
                }
            }
            N::Read(f) => {
                if failed {
                    return Ok(false);
                }
                match before {
                    Some(Prev::Open(g)) if g == *f => {
                        let have = self.paths.get(f).cloned();
                        if let (Some(Reply::FileContents(a)), Some(Some(Thing::File(c)))) = (actual, have) {
                            if a.contents != c {
                                self.fail("wrong-contents", n, actual);
                            }
                        }
                        expect!(Reply::FileContents(_))
                    }
                    _ => Ok(self.error(n, actual)),
                }
            }
            N::Seq(v) => {
                let rs: Option<&Vec<Reply>> = match actual {
                    Some(Reply::Sequence(a)) if a.results.len() == v.len() => Some(&a.results),
                    None => None,
                    _ => {
                        // explained only by a panic
                        let r = self.seq(v, depth, None);
                        if r.is_ok() {
                            self.fail("wrong-reply", n, actual);
                        }
                        return r.map(|_| true);
                    }
                };
                let r = self.seq(v, depth, rs);
                if r.is_err() && actual.is_some() {
                    self.fail("error-expected", n, actual);
                }
                r.map(|_| true)
            }
            N::Batch(v) => {
                let rs: Option<&Vec<Reply>> = match actual {
                    Some(Reply::Batch(a)) if a.results.len() == v.len() => Some(&a.results),
                    None => None,
                    _ => {
                        self.fail("wrong-reply", n, actual);
                        None
                    }
                };
                let mut members: Vec<Vec<u64>> = vec![];
                for (i, m) in v.iter().enumerate() {
                    let before = self.ran.clone();
                    // members have no predecessor
                    self.guarded(m, depth - 1, rs.map(|r| &r[i]));
                    members.push(self.ran.difference(&before).copied().collect());
                }
                // all first probes of slow members start before any second one
                let slow: Vec<usize> = (0..v.len())
                    .filter(|i| matches!(&v[*i], N::Seq(s) if s.len() == 2 && matches!(s[..], [N::Probe(_, 60, _, 0), N::Probe(_, 60, _, 0)])) && members[*i].len() == 2)
                    .collect();
                if slow.len() == v.len() && v.len() > 1 {
                    let first = slow.iter().map(|i| members[*i][0]).collect();
                    let second = slow.iter().map(|i| members[*i][1]).collect();
                    self.overlap.push((first, second));
                }
                Ok(true)
            }
        }
    }
    /// Evaluate something whose panic is contained
    fn guarded(&mut self, n: &N, depth: u32, actual: Option<&Reply>) -> bool {
        let mark = self.bad.len();
        match self.eval(n, depth, &mut None, actual) {
            Ok(r) => r,
            Err(Panic) => {
                // the whole operation ended in an error
                self.bad.truncate(mark);
                self.error(n, actual)
            }
        }
    }
    fn seq(&mut self, v: &[N], depth: u32, rs: Option<&Vec<Reply>>) -> Result<(), Panic> {
        let mut prev = None;
        let mut aborted = false;
        let mut done: Vec<u64> = vec![];
        for (i, n) in v.iter().enumerate() {
            let actual = rs.map(|r| &r[i]);
            if aborted {
                self.unused(n);
                self.error(n, actual);
                continue;
            }
            let before = self.ran.clone();
            let r = self.eval(n, depth - 1, &mut prev, actual);
            let mine: Vec<u64> = self.ran.difference(&before).copied().collect();
            if !done.is_empty() && !mine.is_empty() {
                self.order.push((done.clone(), mine.clone()));
            }
            done.extend(mine);
            match r {
                Ok(ok) => aborted = !ok,
                Err(p) => {
                    for n in &v[i + 1..] {
                        self.unused(n);
                    }
                    return Err(p);
                }
            }
        }
        Ok(())
    }
}

type Done = Arc<Mutex<(Vec<(N, Result<Reply, String>)>, u32)>>;

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let done: Done = Default::default();
    let (done2, rep2, log2) = (done.clone(), rep.clone(), log.clone());
    let net = par.net.clone();
    in_runtime(rep, async move {
        simcore::stop_faults();
        let server = match serve(&net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        simcore::resume_faults();
        for c in 0..par.clients {
            let mine: Vec<N> = ops.iter().filter(|o| o.0 == c).map(|o| o.1.clone()).collect();
            let (net, done) = (net.clone(), done2.clone());
            spawn_on(10 + c, async move {
                match connect(&net, 120_000).await {
                    Ok(mut x) => {
                        for n in mine {
                            let r = match x.ask(request(&n)).await {
                                Ok(r) => Ok(r),
                                Err(AskError::Failure { msg }) => Ok(Reply::Error(ReplyError::from(msg.as_str()))),
                                Err(e) => Err(format!("{:?}", e)),
                            };
                            simcore::log(|| format!("client {} {:?} -> {:?}", c, n, r));
                            done.lock().unwrap().0.push((n, r));
                        }
                        drop(x);
                    }
                    Err(e) => done.lock().unwrap().0.push((N::Beat, Err(format!("connect: {}", e)))),
                }
                done.lock().unwrap().1 += 1;
            });
        }
        let limit = simcore::now() + (300_000 + ops.len() as u64 * 130_000) * MS;
        while done2.lock().unwrap().1 < par.clients {
            if simcore::now() > limit {
                return rep2.borrow_mut().fail("stuck", "a client does not get through its operations");
            }
            sleep_ms(10).await;
        }
        simcore::stop_faults();
        // anything executed late or again
        sleep_ms(2000).await;
        let mut rep = rep2.borrow_mut();
        let d = done2.lock().unwrap();
        let mut m = Model {
            faulty: par.faulty,
            ran: Default::default(),
            order: vec![],
            overlap: vec![],
            copied: vec![],
            paths: Default::default(),
            bad: vec![],
        };
        for (n, r) in &d.0 {
            match r {
                Ok(r) => {
                    m.guarded(n, 5, Some(r));
                }
                Err(e) => m.bad.push(("no-answer".into(), format!("{}: {:.200}", e, format!("{:?}", n)))),
            }
        }
        for (s, d) in &m.bad {
            rep.fail(s.clone(), d.clone());
        }
        let log = log2.lock().unwrap();
        let mut at: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
        let mut raw = vec![];
        for e in log.iter() {
            if !e.valid {
                raw.push(e.raw.clone());
                continue;
            }
            rep.check(m.ran.contains(&e.id), "executed-unduly", || format!("operation {} was executed", e.id));
            rep.check(at.insert(e.id, (e.start, e.end)).is_none(), "executed-twice", || format!("operation {}", e.id));
            rep.mix_state(e.id);
        }
        for id in &m.ran {
            rep.check(at.contains_key(id), "not-executed", || format!("operation {} was not executed", id));
        }
        m.copied.sort();
        raw.sort();
        rep.check(m.copied == raw, "wrong-values", || format!("values passed on {:02x?}, expected {:02x?}", raw, m.copied));
        for (a, b) in &m.order {
            let end = a.iter().filter_map(|i| at.get(i)).map(|x| x.1).max();
            let start = b.iter().filter_map(|i| at.get(i)).map(|x| x.0).min();
            if let (Some(e), Some(s)) = (end, start) {
                rep.check(e <= s, "sequence-out-of-order", || format!("{:?} ended at {} us, {:?} started at {} us", a, e / 1000, b, s / 1000));
            }
        }
        if par.prompt {
            for (a, b) in &m.overlap {
                let last = a.iter().filter_map(|i| at.get(i)).map(|x| x.0).max();
                let first = b.iter().filter_map(|i| at.get(i)).map(|x| x.0).min();
                if let (Some(l), Some(f)) = (last, first) {
                    rep.check(l <= f, "batch-not-concurrent", || format!("{:?} started until {} us, {:?} from {} us", a, l / 1000, b, f / 1000));
                }
            }
        }
        for (f, want) in &m.paths {
            let have = match std::fs::metadata(path(*f)) {
                Ok(x) if x.is_dir() => Some(Thing::Dir),
                Ok(_) => Some(Thing::File(std::fs::read(path(*f)).unwrap_or_default())),
                Err(_) => None,
            };
            rep.check(&have == want, "wrong-effect", || format!("path {}: {:?}, expected {:?}", f, have, want));
        }
        rep.probe("compound requests", d.0.len() as u64);
        rep.probe("operations executed", at.len() as u64);
        rep.probe("order constraints", m.order.len() as u64);
        rep.probe("overlaps demanded", if par.prompt { m.overlap.len() as u64 } else { 0 });
        rep.probe("paths compared", m.paths.len() as u64);
        drop(server);
    });
}
