//! C09: open files behave like versioned registers
use super::*;
use crate::exec::{in_runtime, scratch};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, ConnectedClient, Reply, ReplyError, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C09",
    gen,
    run,
    quick_runs: 4000,
    batch: 20,
    rule: "1-4 clients read, write, rename and reopen 1-3 open files, one request at a time, in batches whose operations run at the same time and in sequences, with current, outdated and made-up version tags, over UDP or TCP with losses, delays and resets (replies may be lost), while file operations are delayed, fail, are cut short or torn. The version tags, which are unique, give the order the server claims; the oracle checks over the whole history that no tag has two successors, that every read returns the contents that belong to its tag, that outdated tags never work and current ones always do, that refusals name a tag that was current at the time, that a tag stays usable only if the contents did not change, and that in the end the disk holds what the last tag stands for.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    clients: u32,
    files: u32,
    fsfaults: bool,
    lossy: bool,
    /// how the files are open at first: 0 read and write, 1 read, 2 write
    start: u8,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
enum F {
    /// file, name
    Open(u32, u32),
    /// file, which tag: 0 the newest known, 1 an older one, 2 made up
    Read(u32, u8),
    Write(u32, u8, usize),
    Rename(u32, u8, u32),
    /// same operations by a wrong permission: open for reading only again
    Narrow(u32, u32),
    /// open for writing only
    Half(u32, u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    One(u32, F),
    Batch(u32, Vec<F>),
    Seq(u32, Vec<F>),
    Sleep(u32, u64),
}

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C09", if tcp { "tcp" } else { "udp" }, rng);
    let mut sec = Sec::any(rng);
    if rng.below(2) == 0 {
        sec.auth = 0;
        sec.crypt = 0;
    }
    let par = Params {
        net: Net {
            tcp,
            sec,
            buffer: *rng.pick(&[1, 8, 1000]),
            client_buffer: *rng.pick(&[1, 8, 1000]),
            cleanup: *rng.pick(&[5, 100, 60_000]),
            file_ttl: 100_000_000,
            ..Default::default()
        },
        clients: rng.range(1, 4) as u32,
        files: rng.range(1, 3) as u32,
        fsfaults: rng.below(2) == 0,
        lossy: rng.below(3) == 0,
        start: *rng.pick(&[0, 0, 1, 2]),
    };
    let f = |rng: &mut Rng| {
        let file = rng.below(par.files as u64) as u32;
        let tag = *rng.pick(&[0, 0, 0, 0, 0, 0, 1, 1, 2]);
        match rng.below(12) {
            0 => F::Open(file, rng.below(3) as u32),
            1..=4 => F::Read(file, tag),
            5..=9 => F::Write(file, tag, *rng.pick(&[0, 1, 10, 100, 3000, 20_000, 70_000])),
            10 => F::Rename(file, tag, rng.below(3) as u32),
            _ if rng.below(2) == 0 => F::Half(file, rng.below(3) as u32),
            _ => F::Narrow(file, rng.below(3) as u32),
        }
    };
    let mut ops = vec![];
    for _ in 0..rng.range(3, if thorough { 40 } else { 20 }) {
        let c = rng.below(par.clients as u64) as u32;
        ops.push(match rng.below(12) {
            0 => Op::Sleep(c, *rng.pick(&[1, 10, 100])),
            1..=4 => {
                let n = rng.range(2, 6);
                Op::Batch(c, (0..n).map(|_| f(rng)).collect())
            }
            5 => {
                let n = rng.range(2, 4);
                Op::Seq(c, (0..n).map(|_| f(rng)).collect())
            }
            _ => Op::One(c, f(rng)),
        });
    }
    p.set(&par, &ops);
    p.net.latency_us = *rng.pick(&[20, 300, 2000]);
    p.net.jitter_us = *rng.pick(&[10, 100, 2000]);
    p.swarm_sched(rng);
    p.swarm(rng, K::BlockDelay, 70, 50_000, 900_000);
    if par.fsfaults {
        p.swarm(rng, K::FsErr, 70, 5_000, 200_000);
        p.swarm(rng, K::FsTorn, 70, 5_000, 300_000);
    }
    p.swarm(rng, K::FsShort, 70, 50_000, 900_000);
    p.swarm(rng, K::UdpDelay, 50, 50_000, 900_000);
    p.swarm(rng, K::TcpDelay, 50, 50_000, 900_000);
    if par.net.sec.cache > 0 {
        // without the cache a repeated datagram is a repeated request
        p.swarm(rng, K::UdpDup, 50, 50_000, 300_000);
    }
    if par.lossy {
        p.swarm(rng, K::UdpDrop, 80, 10_000, 200_000);
        p.swarm(rng, K::TcpReset, 50, 500, 10_000);
    }
    p.max_steps = 1_500_000;
    p
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    /// new or current tag
    Tag(u32),
    Contents(Vec<u8>),
    Mismatch(u32),
    Error(String),
    /// the previous operation of its sequence failed, so it did not run
    Skipped,
    Unknown,
}
#[derive(Clone, Debug)]
struct Rec {
    f: F,
    tag: u32,
    data: Vec<u8>,
    send: u64,
    recv: u64,
    out: Out,
}
impl Rec {
    fn show(&self) -> String {
        let o = match &self.out {
            Out::Contents(c) => format!("contents {}", sum(c)),
            o => format!("{:?}", o),
        };
        format!("{:?} tag {:x} data {} [{}..{} us] -> {}", self.f, self.tag, sum(&self.data), self.send / 1000, self.recv / 1000, o)
    }
}
fn sum(b: &[u8]) -> String {
    format!("{}b#{:04x}", b.len(), simcore::hash_bytes(b) & 0xffff)
}

#[derive(Default)]
struct World {
    recs: Vec<Vec<Rec>>,
    ids: HashMap<u32, u32>,
    done: u32,
    bad: Vec<(String, String)>,
}
type Shared = Arc<Mutex<World>>;

fn path(file: u32, name: u32) -> String {
    scratch().join(format!("f{}-{}", file, name)).to_string_lossy().into_owned()
}
fn file_of(f: F) -> u32 {
    match f {
        F::Open(x, _) | F::Read(x, _) | F::Write(x, _, _) | F::Rename(x, _, _) | F::Narrow(x, _) | F::Half(x, _) => x,
    }
}
fn open(p: String, read: bool, write: bool) -> Request {
    Request::OpenFile(request::OpenFileArgs {
        path: p,
        create_if_missing: false,
        write_access: write,
        read_access: read,
    })
}
fn judge(r: &Reply) -> Out {
    match r {
        Reply::FileOpened(a) => Out::Tag(a.sig),
        Reply::FileWritten(a) => Out::Tag(a.sig),
        Reply::FileRenamed(a) => Out::Tag(a.sig),
        Reply::FileContents(a) => Out::Contents(a.contents.clone()),
        Reply::Error(ReplyError::FileSigChanged(a)) => Out::Mismatch(a.sig),
        Reply::Error(e) => {
            let s = format!("{:?}", e);
            if s.contains("Abort") {
                Out::Skipped
            } else {
                Out::Error(s)
            }
        }
        r => Out::Error(format!("UNEXPECTED {:.80?}", r)),
    }
}

async fn client(c: u32, par: Params, mine: Vec<Op>, w: Shared, ids: Vec<u32>, first: Vec<u32>) {
    let mut seed = (c as u64 + 1) << 20;
    // tags by file, newest last
    let mut known: Vec<Vec<u32>> = first.iter().map(|t| vec![*t]).collect();
    let mut x: Option<ConnectedClient> = None;
    for op in mine {
        if x.is_none() {
            x = connect(&par.net, 3000).await.ok();
        }
        let cl = match x.as_mut() {
            Some(c) => c,
            None => {
                sleep_ms(50).await;
                continue;
            }
        };
        let mut make = |f: F| -> (Request, Rec) {
            seed += 1;
            let file = file_of(f) as usize;
            let id = ids[file];
            let pick = |how: u8| match how {
                0 => *known[file].last().unwrap(),
                1 => known[file][known[file].len().saturating_sub(2)],
                _ => simcore::hash_bytes(&seed.to_be_bytes()) as u32,
            };
            let mut rec = Rec {
                f,
                tag: 0,
                data: vec![],
                send: 0,
                recv: 0,
                out: Out::Unknown,
            };
            let req = match f {
                F::Open(_, n) => open(path(file as u32, n), true, true),
                F::Narrow(_, n) => open(path(file as u32, n), true, false),
                F::Half(_, n) => open(path(file as u32, n), false, true),
                F::Read(_, t) => {
                    rec.tag = pick(t);
                    Request::ReadFile(request::ReadFileArgs { id, sig: rec.tag })
                }
                F::Write(_, t, n) => {
                    rec.tag = pick(t);
                    rec.data = filler(seed, n);
                    Request::WriteFile(request::WriteFileArgs {
                        id,
                        sig: rec.tag,
                        contents: rec.data.clone(),
                    })
                }
                F::Rename(_, t, n) => {
                    rec.tag = pick(t);
                    Request::RenameFile(request::RenameFileArgs {
                        id,
                        sig: rec.tag,
                        to: path(file as u32, n),
                    })
                }
            };
            (req, rec)
        };
        let (request, mut recs, many) = match op {
            Op::Sleep(_, n) => {
                sleep_ms(n).await;
                continue;
            }
            Op::One(_, f) => {
                let (r, k) = make(f);
                (r, vec![k], 0)
            }
            Op::Batch(_, fs) => {
                let (r, k): (Vec<_>, Vec<_>) = fs.into_iter().map(&mut make).unzip();
                (Request::Batch(r.into()), k, 1)
            }
            Op::Seq(_, fs) => {
                let (r, k): (Vec<_>, Vec<_>) = fs.into_iter().map(&mut make).unzip();
                let r: Vec<_> = r.into_iter().map(|r| r.into_lazily_transformed(vec![])).collect();
                (Request::Sequence(r.into()), k, 2)
            }
        };
        let send = simcore::now();
        let reply = cl.ask(request).await;
        let recv = simcore::now();
        let outs: Vec<Out> = match (&reply, many) {
            (Ok(r), 0) => vec![judge(r)],
            (Ok(Reply::Batch(a)), 1) => a.results.iter().map(judge).collect(),
            (Ok(Reply::Sequence(a)), 2) => a.results.iter().map(judge).collect(),
            (Ok(r), _) => {
                w.lock().unwrap().bad.push(("wrong-reply".into(), format!("{:.200?}", r)));
                vec![]
            }
            (Err(over_there::core::AskError::Failure { msg }), 0) => vec![Out::Error(msg.clone())],
            (Err(_), _) => {
                if par.net.tcp {
                    x = None;
                }
                vec![Out::Unknown; recs.len()]
            }
        };
        let mut w = w.lock().unwrap();
        if outs.len() != recs.len() {
            w.bad.push(("wrong-number-of-results".into(), format!("{} for {}", outs.len(), recs.len())));
            continue;
        }
        let given = match &reply {
            Ok(Reply::FileOpened(a)) => vec![a.id],
            _ => vec![],
        };
        for (i, rec) in recs.iter_mut().enumerate() {
            rec.send = send;
            rec.recv = if outs[i] == Out::Unknown { u64::MAX } else { recv };
            rec.out = outs[i].clone();
            let file = file_of(rec.f) as usize;
            match rec.out {
                Out::Tag(t) | Out::Mismatch(t) => {
                    if *known[file].last().unwrap() != t {
                        known[file].push(t);
                    }
                }
                _ => {}
            }
            simcore::log(|| format!("client {} {}", c, rec.show()));
            if let Some(id) = given.get(i) {
                if *id != ids[file] {
                    w.bad.push(("second-identity".into(), format!("file {} opened as {} and as {}", file, ids[file], id)));
                }
            }
            w.recs[file].push(rec.clone());
        }
    }
    drop(x);
    w.lock().unwrap().done += 1;
}

/// Judges the history of one file
fn check(file: usize, first: u32, initial: &[u8], recs: &[Rec], par: &Params, rep: &mut Report) {
    let is_mod = |r: &Rec| matches!(r.f, F::Write(..) | F::Rename(..));
    let mut succ: HashMap<u32, usize> = HashMap::new();
    let mut maker: HashMap<u32, usize> = HashMap::new();
    let mut content: HashMap<u32, Vec<u8>> = HashMap::new();
    content.insert(first, initial.to_vec());
    // modifications that may have given the file a tag nobody was told
    let murky: Vec<&Rec> = recs
        .iter()
        .filter(|r| is_mod(r) && (matches!(r.out, Out::Error(_)) && matches!(r.f, F::Write(..)) || r.out == Out::Unknown))
        .collect();
    for (i, r) in recs.iter().enumerate() {
        if let (true, Out::Tag(n)) = (is_mod(r), &r.out) {
            rep.check(!succ.contains_key(&r.tag), "two-winners", || {
                format!("file {}: {} and {}", file, recs[succ[&r.tag]].show(), r.show())
            });
            rep.check(*n != r.tag && *n != first && !maker.contains_key(n), "tag-reused", || format!("file {}: {}", file, r.show()));
            succ.insert(r.tag, i);
            maker.insert(*n, i);
        }
    }
    // tags without a known origin
    let mut strange: Vec<u32> = vec![];
    for r in recs {
        let mut seen = vec![];
        match &r.out {
            Out::Tag(t) if is_mod(r) => {
                let _ = t;
                seen.push(r.tag)
            }
            Out::Tag(t) | Out::Mismatch(t) => seen.push(*t),
            Out::Contents(_) => seen.push(r.tag),
            _ => {}
        }
        for t in seen {
            if t != first && !maker.contains_key(&t) && !strange.contains(&t) {
                strange.push(t);
            }
        }
    }
    rep.check(strange.len() <= murky.len(), "tag-from-nowhere", || {
        format!("file {}: tags {:x?} but only {} modifications with an unknown outcome", file, strange, murky.len())
    });
    // a rename keeps the contents: all tags that renames lead to share those of the first
    let root = |t: u32| {
        let mut t = t;
        for _ in 0..recs.len() {
            let i = match maker.get(&t) {
                Some(i) => i,
                None => break,
            };
            match recs[*i].f {
                F::Rename(..) => t = recs[*i].tag,
                _ => break,
            }
        }
        t
    };
    for (n, i) in &maker {
        if let F::Write(..) = recs[*i].f {
            content.insert(*n, recs[*i].data.clone());
        }
    }
    // a strange tag gets its contents from the first read of it
    for r in recs {
        if let (F::Read(..), Out::Contents(c)) = (&r.f, &r.out) {
            let t = root(r.tag);
            if strange.contains(&t) && !content.contains_key(&t) {
                content.insert(t, c.clone());
            }
        }
    }
    for t in &strange {
        if let Some(c) = content.get(t) {
            let ok = murky.iter().any(|m| match m.f {
                F::Write(..) => match m.out {
                    Out::Unknown if !par.fsfaults => m.data == *c,
                    _ => m.data.starts_with(c),
                },
                _ => content.get(&root(m.tag)).map_or(true, |x| x == c),
            }) || murky.iter().any(|m| m.out == Out::Unknown && content.values().filter(|x| *x == c).count() > 1);
            rep.check(ok, "contents-from-nowhere", || format!("file {}: tag {:x} has contents {}", file, t, sum(c)));
        }
    }
    for r in recs {
        match &r.out {
            Out::Contents(c) => {
                if let Some(want) = content.get(&root(r.tag)) {
                    rep.check(c == want, "wrong-contents", || {
                        format!("file {}: {} but the tag stands for {}", file, r.show(), sum(want))
                    });
                } else {
                    rep.fail("wrong-contents", format!("file {}: {} with a tag that was never given out", file, r.show()));
                }
                if let Some(s) = succ.get(&r.tag) {
                    rep.check(recs[*s].recv >= r.send, "outdated-read", || {
                        format!("file {}: {} after {}", file, r.show(), recs[*s].show())
                    });
                }
            }
            Out::Mismatch(cur) => {
                rep.check(*cur != r.tag, "refused-with-current-tag", || format!("file {}: {}", file, r.show()));
                // was the refusal right?
                let made_up = matches!(r.f, F::Read(_, 2) | F::Write(_, 2, _) | F::Rename(_, 2, _));
                let superseded = recs.iter().any(|m| {
                    is_mod(m) && m.tag == r.tag && m.send <= r.recv && matches!(m.out, Out::Tag(_) | Out::Unknown | Out::Error(_))
                });
                rep.check(made_up || superseded, "current-tag-refused", || format!("file {}: {}", file, r.show()));
                // and the tag it names current at the time?
                if let Some(m) = maker.get(cur) {
                    rep.check(recs[*m].send <= r.recv, "tag-from-future", || format!("file {}: {}", file, r.show()));
                }
                if let Some(s) = succ.get(cur) {
                    rep.check(recs[*s].recv >= r.send, "outdated-tag-reported", || {
                        format!("file {}: {} although {}", file, r.show(), recs[*s].show())
                    });
                }
            }
            Out::Tag(t) if matches!(r.f, F::Open(..) | F::Narrow(..) | F::Half(..)) => {
                if let Some(s) = succ.get(t) {
                    rep.check(recs[*s].recv >= r.send, "outdated-tag-reported", || {
                        format!("file {}: {} although {}", file, r.show(), recs[*s].show())
                    });
                }
            }
            Out::Tag(_) => {
                // an accepted modification: its tag must not have been made up
                let made_up = matches!(r.f, F::Write(_, 2, _) | F::Rename(_, 2, _));
                rep.check(!made_up, "made-up-tag-accepted", || format!("file {}: {}", file, r.show()));
            }
            Out::Error(e) => {
                // not open for this yet, unless an opening that asked for it was over before
                let allowed = recs.iter().any(|o| {
                    o.recv < r.send
                        && matches!(o.out, Out::Tag(_))
                        && match (&o.f, &r.f) {
                            (F::Open(..), _) => true,
                            (F::Narrow(..), F::Read(..)) | (F::Half(..), F::Write(..)) => true,
                            _ => false,
                        }
                });
                let lacking = !allowed
                    && match r.f {
                        F::Read(..) => par.start == 2,
                        F::Write(..) => par.start == 1,
                        _ => false,
                    };
                let missing = lacking || matches!(r.f, F::Open(..) | F::Narrow(..) | F::Half(..));
                rep.check(par.fsfaults && !e.contains("UNEXPECTED") || missing, "unexpected-error", || {
                    format!("file {}: {}", file, r.show())
                });
            }
            Out::Skipped | Out::Unknown => {}
        }
    }
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let ops: Vec<Op> = plan.o();
    let log: ExecLog = Default::default();
    let n = par.files as usize;
    let w: Shared = Arc::new(Mutex::new(World {
        recs: vec![vec![]; n],
        ..Default::default()
    }));
    let (w2, rep2) = (w.clone(), rep.clone());
    let net = par.net.clone();
    in_runtime(rep, async move {
        simcore::stop_faults();
        let server = match serve(&net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let mut initial = vec![];
        for f in 0..n {
            let d = filler(77 + f as u64, 40 * f);
            std::fs::write(path(f as u32, 0), &d).expect("harness: write");
            initial.push(d);
        }
        let net2 = net.clone();
        let start = par.start;
        let opened = spawn_on(9, async move {
            let mut c = connect(&net2, 20_000).await.expect("harness: connect");
            let mut v = vec![];
            for f in 0..n {
                match c.ask(open(path(f as u32, 0), start != 2, start != 1)).await {
                    Ok(Reply::FileOpened(a)) => v.push((a.id, a.sig)),
                    r => panic!("harness: open: {:?}", r),
                }
            }
            (c, v)
        })
        .await;
        let (mut keeper, opened) = match opened {
            Ok(x) => x,
            Err(_) => return,
        };
        let ids: Vec<u32> = opened.iter().map(|x| x.0).collect();
        let first: Vec<u32> = opened.iter().map(|x| x.1).collect();
        simcore::resume_faults();
        for c in 0..par.clients {
            let mine: Vec<Op> = ops
                .iter()
                .filter(|o| match o {
                    Op::One(k, _) | Op::Batch(k, _) | Op::Seq(k, _) | Op::Sleep(k, _) => *k == c,
                })
                .cloned()
                .collect();
            spawn_on(10 + c, client(c, par.clone(), mine, w2.clone(), ids.clone(), first.clone()));
        }
        let limit = simcore::now() + (20_000 + ops.len() as u64 * 3200) * simcore::MS;
        while w2.lock().unwrap().done < par.clients {
            if simcore::now() > limit {
                rep2.borrow_mut().fail("stuck", "a client does not get through its operations");
                return;
            }
            sleep_ms(10).await;
        }
        simcore::stop_faults();
        sleep_ms(8000).await;
        // what is there in the end?
        let ids2 = ids.clone();
        let w3 = w2.clone();
        let last = spawn_on(9, async move {
            keeper.timeout = std::time::Duration::from_secs(20);
            let mut v = vec![];
            for (f, id) in ids2.into_iter().enumerate() {
                // only the name it has in the end exists
                for k in 0..3 {
                    match keeper.ask(open(path(f as u32, k), true, true)).await {
                        Ok(Reply::FileOpened(a)) if a.id != id => {
                            w3.lock().unwrap().bad.push(("second-identity".into(), format!("file {} opened as {} and as {}", f, id, a.id)))
                        }
                        _ => {}
                    }
                }
                // a made-up tag reveals the current one
                let send = simcore::now();
                let r = keeper.ask(Request::ReadFile(request::ReadFileArgs { id, sig: 1 })).await;
                let probe = (send, simcore::now(), r.as_ref().map(judge).map_err(|e| ask_err(e).to_string()));
                let tag = match &probe.2 {
                    Ok(Out::Mismatch(t)) => *t,
                    _ => 1,
                };
                let send = simcore::now();
                let r = keeper.ask(Request::ReadFile(request::ReadFileArgs { id, sig: tag })).await;
                let read = (send, simcore::now(), r.as_ref().map(judge).map_err(|e| ask_err(e).to_string()));
                v.push((tag, probe, read));
            }
            v
        })
        .await;
        let last = match last {
            Ok(v) => v,
            Err(_) => return rep2.borrow_mut().fail("stuck", "the last reads did not end"),
        };
        let mut rep = rep2.borrow_mut();
        let mut g = w2.lock().unwrap();
        for f in 0..n {
            let (tag, probe, read) = &last[f];
            for (k, (send, recv, out), t) in [(2u8, probe, 1u32), (0, read, *tag)].iter() {
                match out {
                    Ok(o) => g.recs[f].push(Rec {
                        f: F::Read(f as u32, *k),
                        tag: *t,
                        data: vec![],
                        send: *send,
                        recv: *recv,
                        out: o.clone(),
                    }),
                    Err(e) => rep.fail("final-read-failed", format!("file {}: {}", f, e)),
                }
            }
            match &read.2 {
                Ok(Out::Contents(c)) => {
                    let disk: Vec<Vec<u8>> = (0..3).filter_map(|k| std::fs::read(path(f as u32, k)).ok()).collect();
                    rep.check(disk.len() == 1 && disk[0] == *c, "disk-differs", || {
                        format!("file {}: read {} but the disk has {:?}", f, sum(c), disk.iter().map(|d| sum(d)).collect::<Vec<_>>())
                    });
                    // nothing may supersede the last tag
                    let s = g.recs[f].iter().find(|r| r.tag == *tag && matches!(r.out, Out::Tag(_)) && matches!(r.f, F::Write(..) | F::Rename(..)));
                    rep.check(s.is_none(), "lost-write", || format!("file {}: the last tag is {:x} although {}", f, tag, s.unwrap().show()));
                }
                o => rep.fail("final-read-failed", format!("file {}: {:?}", f, o)),
            }
            let recs = &g.recs[f];
            for r in recs {
                rep.mix_state(match &r.out {
                    Out::Tag(_) => 1,
                    Out::Contents(c) => 2 + simcore::hash_bytes(c),
                    Out::Mismatch(_) => 3,
                    Out::Error(_) => 4,
                    Out::Skipped => 5,
                    Out::Unknown => 6,
                });
            }
            let count = |p: &dyn Fn(&Rec) -> bool| recs.iter().filter(|r| p(r)).count() as u64;
            rep.probe("accepted modifications", count(&|r| matches!(r.f, F::Write(..) | F::Rename(..)) && matches!(r.out, Out::Tag(_))));
            rep.probe("refused operations", count(&|r| matches!(r.out, Out::Mismatch(_))));
            rep.probe("failed writes", count(&|r| matches!(r.f, F::Write(..)) && matches!(r.out, Out::Error(_))));
            rep.probe("reads", count(&|r| matches!(r.out, Out::Contents(_))));
            check(f, first[f], &initial[f], recs, &par, &mut rep);
        }
        for (s, d) in &g.bad {
            rep.fail(s.clone(), d.clone());
        }
        drop(rep);
        drop(g);
        drop(server);
    });
}
