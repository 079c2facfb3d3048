//! C10: open files and the directories holding them are protected by path
use super::*;
use crate::exec::{in_runtime, scratch};
use crate::plan::*;
use crate::world::*;
use over_there::core::{request, ConnectedClient, Reply, ReplyError, Request};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simcore::K;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "C10",
    gen,
    run,
    quick_runs: 12000,
    batch: 20,
    rule: "Rounds of 1-4 operations at the same time (in one batch, or by several clients) on a small tree of directories and files: open with any permissions, close, read, write, rename and remove through handles and by path, create, rename, remove and list directories, waiting until handles expire; paths spelled in different ways (repeated slashes, dots, detours, a symbolic link); every file system operation may be delayed or fail. A reference model of the tree and of the table of open files is kept as the set of all states that some order of the operations of each round can explain, given all replies; it is compared with the real tree on disk after every round. No explaining order left is a violation.",
    real: REAL,
    stub: STUB,
    assumptions: ASSUME,
    panics_ok: false,
};

const TTL: u64 = 20_000_000;
const CLEANUP: u64 = 1_000_000;

#[derive(Serialize, Deserialize, Clone)]
struct Params {
    net: Net,
    faults: bool,
}
/// path and how to spell it
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Pa(String, u8);

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    /// create, write, read
    Open(Pa, bool, bool, bool),
    /// which handle, with an outdated tag
    Close(u32, bool),
    Read(u32, bool),
    Write(u32, bool),
    Move(u32, bool, Pa),
    Unlink(u32, bool),
    MoveAt(Pa, Pa),
    UnlinkAt(Pa),
    Mkdir(Pa, bool),
    Mvdir(Pa, Pa),
    Rmdir(Pa, bool),
    List(Pa),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Round {
    /// one batch, or one client each
    Ops(Vec<Op>, bool),
    Expire,
}

const DIRS: &[&str] = &["a", "b", "keep", "a/c", "b/c", "a/b"];
const BASES: &[&str] = &["", "", "a/", "a/", "b/", "keep/", "keep/", "a/c/", "b/c/", "a/b/"];

fn gen(rng: &mut Rng, _idx: u64, thorough: bool) -> Plan {
    let tcp = rng.below(2) == 0;
    let mut p = Plan::new("C10", if tcp { "tcp" } else { "udp" }, rng);
    let par = Params {
        net: Net {
            tcp,
            cleanup: CLEANUP,
            file_ttl: TTL,
            ..Default::default()
        },
        faults: rng.below(3) == 0,
    };
    let spelled = rng.below(4) > 0;
    let file = |rng: &mut Rng| {
        let b = *rng.pick(BASES);
        let s = if spelled { rng.below(16) as u8 } else { 0 };
        Pa(format!("{}{}", b, rng.pick(&["x", "x", "y"])), s)
    };
    let dir = |rng: &mut Rng, keep: bool| loop {
        let d = *rng.pick(DIRS);
        if keep || d != "keep" {
            return Pa(d.to_string(), if spelled { rng.below(8) as u8 } else { 0 });
        }
    };
    let any = |rng: &mut Rng| if rng.below(6) > 0 { file(rng) } else { dir(rng, false) };
    let op = |rng: &mut Rng| {
        let h = rng.below(1000) as u32;
        let old = rng.below(12) == 0;
        match rng.below(40) {
            0..=10 => {
                if rng.below(12) == 0 {
                    Op::Open(dir(rng, true), false, true, rng.below(2) == 0)
                } else {
                    let w = rng.below(3) > 0;
                    Op::Open(file(rng), rng.below(4) > 0, w, !w || rng.below(2) == 0)
                }
            }
            11..=13 => Op::Close(h, old),
            14..=15 => Op::Read(h, old),
            16..=17 => Op::Write(h, old),
            18..=21 => Op::Move(h, old, file(rng)),
            22..=23 => Op::Unlink(h, old),
            24..=26 => Op::MoveAt(any(rng), file(rng)),
            27..=28 => Op::UnlinkAt(any(rng)),
            29..=32 => Op::Mkdir(dir(rng, true), rng.below(3) == 0),
            33..=35 => Op::Mvdir(any(rng), dir(rng, true)),
            36..=37 => Op::Rmdir(any(rng), rng.below(2) == 0),
            _ => Op::List(dir(rng, true)),
        }
    };
    let mut rounds = vec![];
    for _ in 0..rng.range(5, if thorough { 60 } else { 30 }) {
        rounds.push(if rng.below(15) == 0 {
            Round::Expire
        } else {
            let n = *rng.pick(&[1, 1, 1, 2, 2, 3, 4]);
            Round::Ops((0..n).map(|_| op(rng)).collect(), rng.below(3) > 0)
        });
    }
    p.set(&par, &rounds);
    p.swarm_sched(rng);
    p.swarm(rng, K::BlockDelay, 70, 50_000, 900_000);
    if par.faults {
        p.fault(K::FsErr, *rng.pick(&[20_000, 100_000, 300_000]));
        p.swarm(rng, K::FsTorn, 50, 50_000, 300_000);
    }
    p.swarm(rng, K::UdpDelay, 50, 50_000, 900_000);
    p.swarm(rng, K::TcpDelay, 50, 50_000, 900_000);
    p.max_steps = 1_500_000;
    p
}

// ---------- the model ----------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Node {
    Dir,
    /// hash of the contents; None: not known (a failed write)
    File(Option<u64>),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Handle {
    path: String,
    read: bool,
    write: bool,
    /// None: changed without anybody being told
    sig: Option<u32>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct St {
    tree: BTreeMap<String, Node>,
    open: BTreeMap<u32, Handle>,
}
fn parent(p: &str) -> &str {
    p.rfind('/').map(|i| &p[..i]).unwrap_or("")
}
fn within(p: &str, dir: &str) -> bool {
    p == dir || (p.starts_with(dir) && p.as_bytes().get(dir.len()) == Some(&b'/'))
}
impl St {
    fn is_dir(&self, p: &str) -> bool {
        p.is_empty() || self.tree.get(p) == Some(&Node::Dir)
    }
    fn is_file(&self, p: &str) -> bool {
        matches!(self.tree.get(p), Some(Node::File(_)))
    }
    fn guarded(&self, p: &str) -> bool {
        self.open.values().any(|h| within(&h.path, p))
    }
    fn by_path(&self, p: &str) -> Option<u32> {
        self.open.iter().find(|(_, h)| h.path == p).map(|(i, _)| *i)
    }
    fn rename(&mut self, from: &str, to: &str) {
        if from == to {
            return;
        }
        self.tree.remove(to);
        let moved: Vec<String> = self.tree.keys().filter(|k| within(k, from)).cloned().collect();
        for k in moved {
            let n = self.tree.remove(&k).unwrap();
            self.tree.insert(format!("{}{}", to, &k[from.len()..]), n);
        }
    }
    fn remove(&mut self, p: &str) {
        self.tree.retain(|k, _| !within(k, p));
    }
}

/// An operation as it was issued
#[derive(Clone, Debug)]
struct Issued {
    op: Op,
    id: u32,
    sig: u32,
    data: Vec<u8>,
}

/// All states the operation may lead to, given its reply
fn step(s: &St, i: &Issued, r: &Reply, faults: bool) -> Vec<St> {
    let ok = ideal(s, i);
    match r {
        Reply::Error(e) => {
            let mut v = vec![];
            // an outdated tag is told the current one
            if let ReplyError::FileSigChanged(a) = e {
                if let (Op::Read(..) | Op::Write(..) | Op::Move(..) | Op::Unlink(..), Some(h)) = (&i.op, s.open.get(&i.id)) {
                    let fits = match h.sig {
                        Some(cur) => cur == a.sig && cur != i.sig,
                        None => a.sig != i.sig,
                    };
                    if fits && a.id == i.id {
                        let mut n = s.clone();
                        n.open.get_mut(&i.id).unwrap().sig = Some(a.sig);
                        v.push(n);
                    }
                }
                return v;
            }
            let stale = match (&i.op, s.open.get(&i.id)) {
                (Op::Read(..) | Op::Write(..) | Op::Move(..) | Op::Unlink(..), Some(h)) => h.sig.map_or(true, |c| c != i.sig),
                _ => false,
            };
            if stale && s.open[&i.id].sig.is_some() {
                // must be told
                return v;
            }
            if ok.is_none() || faults || s.open.get(&i.id).map_or(false, |h| h.sig.is_none()) {
                v.push(s.clone());
            }
            if faults && ok.is_some() {
                match &i.op {
                    Op::Open(p, true, _, _) if !s.tree.contains_key(&p.0) => {
                        // created, but not opened
                        let mut n = s.clone();
                        n.tree.insert(p.0.clone(), Node::File(Some(simcore::hash_bytes(b""))));
                        v.push(n);
                    }
                    Op::Write(..) => {
                        let mut n = s.clone();
                        let h = n.open.get_mut(&i.id).unwrap();
                        h.sig = None;
                        let p = h.path.clone();
                        n.tree.insert(p, Node::File(None));
                        v.push(n);
                    }
                    _ => {}
                }
            }
            v
        }
        r => match ok {
            Some(f) => f(r).into_iter().collect(),
            None => vec![],
        },
    }
}

type Next<'a> = Box<dyn Fn(&Reply) -> Option<St> + 'a>;

/// If the operation must succeed: what it leads to, given its reply
fn ideal<'a>(s: &'a St, i: &'a Issued) -> Option<Next<'a>> {
    let handle = |need: bool| -> Option<&'a Handle> {
        let h = s.open.get(&i.id)?;
        if !need || h.sig.map_or(true, |c| c == i.sig) {
            Some(h)
        } else {
            None
        }
    };
    // a tag we did not know turned out to be right
    let knows = move |n: &mut St| {
        if let Some(h) = n.open.get_mut(&i.id) {
            h.sig = Some(i.sig);
        }
    };
    match &i.op {
        Op::Open(p, create, write, read) => {
            let known = s.by_path(&p.0);
            let (mut r, mut w) = (*read, *write);
            if let Some(id) = known {
                let h = &s.open[&id];
                r |= h.read;
                w |= h.write;
                if !(r == h.read && w == h.write) && *create && !w {
                    return None;
                }
            } else {
                if !r && !w || *create && !w {
                    return None;
                }
                if !(s.is_file(&p.0) || *create && !s.tree.contains_key(&p.0) && s.is_dir(parent(&p.0))) {
                    return None;
                }
            }
            Some(Box::new(move |reply| {
                let a = match reply {
                    Reply::FileOpened(a) => a,
                    _ => return None,
                };
                let mut n = s.clone();
                match known {
                    Some(id) => {
                        let h = n.open.get_mut(&id).unwrap();
                        if a.id != id || h.sig.map_or(false, |c| c != a.sig) {
                            return None;
                        }
                        h.read = r;
                        h.write = w;
                        h.sig = Some(a.sig);
                    }
                    None => {
                        if n.open.contains_key(&a.id) {
                            return None;
                        }
                        n.tree.entry(p.0.clone()).or_insert_with(|| Node::File(Some(simcore::hash_bytes(b""))));
                        n.open.insert(
                            a.id,
                            Handle {
                                path: p.0.clone(),
                                read: r,
                                write: w,
                                sig: Some(a.sig),
                            },
                        );
                    }
                }
                Some(n)
            }))
        }
        Op::Close(..) => {
            handle(true)?;
            Some(Box::new(move |reply| match reply {
                Reply::FileClosed(a) if a.id == i.id => {
                    let mut n = s.clone();
                    n.open.remove(&i.id);
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::Read(..) => {
            let h = handle(true)?;
            if !h.read {
                return None;
            }
            Some(Box::new(move |reply| match (reply, s.tree.get(&h.path)) {
                (Reply::FileContents(a), Some(Node::File(c)))
                    if a.id == i.id && c.map_or(true, |c| c == simcore::hash_bytes(&a.contents)) =>
                {
                    let mut n = s.clone();
                    knows(&mut n);
                    n.tree.insert(h.path.clone(), Node::File(Some(simcore::hash_bytes(&a.contents))));
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::Write(..) => {
            let h = handle(true)?;
            if !h.write {
                return None;
            }
            Some(Box::new(move |reply| match reply {
                Reply::FileWritten(a) if a.id == i.id && a.sig != i.sig => {
                    let mut n = s.clone();
                    n.tree.insert(h.path.clone(), Node::File(Some(simcore::hash_bytes(&i.data))));
                    n.open.get_mut(&i.id).unwrap().sig = Some(a.sig);
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::Move(_, _, to) => {
            let h = handle(true)?;
            if s.by_path(&to.0).map_or(false, |o| o != i.id) || s.is_dir(&to.0) || !s.is_dir(parent(&to.0)) {
                return None;
            }
            Some(Box::new(move |reply| match reply {
                Reply::FileRenamed(a) if a.id == i.id && a.sig != i.sig => {
                    let mut n = s.clone();
                    n.rename(&h.path, &to.0);
                    let h = n.open.get_mut(&i.id).unwrap();
                    h.path = to.0.clone();
                    h.sig = Some(a.sig);
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::Unlink(..) => {
            let h = handle(true)?;
            Some(Box::new(move |reply| match reply {
                Reply::FileRemoved(a) if a.id == i.id => {
                    let mut n = s.clone();
                    n.remove(&h.path);
                    n.open.remove(&i.id);
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::MoveAt(from, to) => {
            if !s.is_file(&from.0) || s.guarded(&from.0) || s.guarded(&to.0) || s.is_dir(&to.0) || !s.is_dir(parent(&to.0)) {
                return None;
            }
            Some(Box::new(move |reply| match reply {
                Reply::UnopenedFileRenamed(_) => {
                    let mut n = s.clone();
                    n.rename(&from.0, &to.0);
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::UnlinkAt(p) => {
            if !s.is_file(&p.0) || s.guarded(&p.0) {
                return None;
            }
            Some(Box::new(move |reply| match reply {
                Reply::UnopenedFileRemoved(_) => {
                    let mut n = s.clone();
                    n.remove(&p.0);
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::Mkdir(p, all) => {
            let mut parts = vec![];
            let mut q = p.0.as_str();
            while !q.is_empty() {
                parts.push(q);
                q = parent(q);
            }
            let fine = if *all {
                parts.iter().all(|q| !s.is_file(q))
            } else {
                !s.tree.contains_key(&p.0) && s.is_dir(parent(&p.0))
            };
            if !fine {
                return None;
            }
            Some(Box::new(move |reply| match reply {
                Reply::DirCreated(_) => {
                    let mut n = s.clone();
                    for q in &parts {
                        n.tree.insert(q.to_string(), Node::Dir);
                    }
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::Mvdir(from, to) => {
            let empty = !s.tree.keys().any(|k| k != &to.0 && within(k, &to.0));
            let fine = s.is_dir(&from.0)
                && !s.guarded(&from.0)
                && s.is_dir(parent(&to.0))
                && !s.is_file(&to.0)
                && (from.0 == to.0 || !within(&to.0, &from.0) && empty);
            if !fine {
                return None;
            }
            Some(Box::new(move |reply| match reply {
                Reply::DirRenamed(_) => {
                    let mut n = s.clone();
                    n.rename(&from.0, &to.0);
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::Rmdir(p, all) => {
            let empty = !s.tree.keys().any(|k| k != &p.0 && within(k, &p.0));
            if !s.is_dir(&p.0) || s.guarded(&p.0) || !(*all || empty) {
                return None;
            }
            Some(Box::new(move |reply| match reply {
                Reply::DirRemoved(_) => {
                    let mut n = s.clone();
                    n.remove(&p.0);
                    Some(n)
                }
                _ => None,
            }))
        }
        Op::List(p) => {
            if !s.is_dir(&p.0) {
                return None;
            }
            Some(Box::new(move |reply| match reply {
                Reply::DirContentsList(a) => {
                    let want: BTreeMap<String, bool> = s
                        .tree
                        .iter()
                        .filter(|(k, _)| parent(k) == p.0)
                        .map(|(k, n)| (k[p.0.len() + 1..].to_string(), *n == Node::Dir))
                        .collect();
                    let got: BTreeMap<String, bool> = a
                        .entries
                        .iter()
                        .map(|e| (e.path.rsplit('/').next().unwrap_or("").to_string(), e.is_dir))
                        .collect();
                    let right = a.entries.iter().all(|e| e.is_dir != e.is_file && !e.is_symlink);
                    if want == got && right && got.len() == a.entries.len() {
                        Some(s.clone())
                    } else {
                        None
                    }
                }
                _ => None,
            }))
        }
    }
}

/// The real tree
fn snapshot() -> BTreeMap<String, Node> {
    fn walk(dir: &std::path::Path, at: &str, out: &mut BTreeMap<String, Node>) {
        for e in std::fs::read_dir(dir).expect("harness: read_dir").flatten() {
            let name = format!("{}{}", at, e.file_name().to_string_lossy());
            let t = e.file_type().expect("harness: file_type");
            if t.is_dir() {
                walk(&e.path(), &format!("{}/", name), out);
                out.insert(name, Node::Dir);
            } else if t.is_file() {
                let c = std::fs::read(e.path()).expect("harness: read");
                out.insert(name, Node::File(Some(simcore::hash_bytes(&c))));
            } else if name != "ln" {
                // no symbolic link but ours
                out.insert(name, Node::File(None));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(&scratch(), "", &mut out);
    out
}
/// A state with unknown contents takes them from the disk
fn fits(s: &St, disk: &BTreeMap<String, Node>) -> bool {
    s.tree.len() == disk.len()
        && s.tree.iter().zip(disk).all(|((a, x), (b, y))| {
            a == b
                && match (x, y) {
                    (Node::File(None), Node::File(Some(_))) => true,
                    (x, y) => x == y,
                }
        })
}

fn spell(p: &Pa) -> String {
    let mut s = p.0.clone();
    if p.1 & 8 != 0 && s.starts_with("keep/") {
        s = format!("ln/{}", &s[5..]);
    }
    if p.1 & 4 != 0 {
        s = format!("{}/../{}", if p.1 & 1 != 0 { "ln" } else { "keep" }, s);
    }
    if p.1 & 2 != 0 {
        s = s.replacen('/', "//", 1);
    }
    if p.1 & 1 != 0 {
        s = format!("./{}", s);
    }
    format!("{}/{}", scratch().display(), s)
}
fn request(i: &Issued) -> Request {
    match &i.op {
        Op::Open(p, c, w, r) => Request::OpenFile(request::OpenFileArgs {
            path: spell(p),
            create_if_missing: *c,
            write_access: *w,
            read_access: *r,
        }),
        Op::Close(..) => Request::CloseFile(request::CloseFileArgs { id: i.id, sig: i.sig }),
        Op::Read(..) => Request::ReadFile(request::ReadFileArgs { id: i.id, sig: i.sig }),
        Op::Write(..) => Request::WriteFile(request::WriteFileArgs {
            id: i.id,
            sig: i.sig,
            contents: i.data.clone(),
        }),
        Op::Move(_, _, to) => Request::RenameFile(request::RenameFileArgs {
            id: i.id,
            sig: i.sig,
            to: spell(to),
        }),
        Op::Unlink(..) => Request::RemoveFile(request::RemoveFileArgs { id: i.id, sig: i.sig }),
        Op::MoveAt(a, b) => Request::RenameUnopenedFile(request::RenameUnopenedFileArgs {
            from: spell(a),
            to: spell(b),
        }),
        Op::UnlinkAt(p) => Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: spell(p) }),
        Op::Mkdir(p, all) => Request::CreateDir(request::CreateDirArgs {
            path: spell(p),
            include_components: *all,
        }),
        Op::Mvdir(a, b) => Request::RenameDir(request::RenameDirArgs {
            from: spell(a),
            to: spell(b),
        }),
        Op::Rmdir(p, all) => Request::RemoveDir(request::RemoveDirArgs {
            path: spell(p),
            non_empty: *all,
        }),
        Op::List(p) => Request::ListDirContents(request::ListDirContentsArgs { path: spell(p) }),
    }
}
fn brief(r: &Reply) -> String {
    match r {
        Reply::FileContents(a) => format!("FileContents {} {}b", a.id, a.contents.len()),
        r => {
            let s = format!("{:?}", r);
            s.chars().take(150).collect()
        }
    }
}

/// Every order of `n` things
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for o in orders(n - 1) {
        for at in 0..n {
            let mut v = o.clone();
            v.insert(at, n - 1);
            out.push(v);
        }
    }
    out
}

fn run(plan: &Plan, rep: &Rep) {
    let par: Params = plan.p();
    let rounds: Vec<Round> = plan.o();
    let log: ExecLog = Default::default();
    let rep2 = rep.clone();
    let net = par.net.clone();
    in_runtime(rep, async move {
        simcore::stop_faults();
        let server = match serve(&net, &log).await {
            Ok(s) => s,
            Err(e) => return rep2.borrow_mut().fail("listen-failed", e.to_string()),
        };
        let mut clients: Vec<ConnectedClient> = vec![];
        for _ in 0..4 {
            let net = net.clone();
            match spawn_on(9, async move { connect(&net, 600_000).await }).await {
                Ok(Ok(c)) => clients.push(c),
                _ => return rep2.borrow_mut().fail("connect-failed", ""),
            }
        }
        std::fs::create_dir(scratch().join("keep")).expect("harness: mkdir");
        std::os::unix::fs::symlink("keep", scratch().join("ln")).expect("harness: symlink");
        simcore::resume_faults();
        let mut first = St::default();
        first.tree = snapshot();
        let mut belief: BTreeSet<St> = Some(first).into_iter().collect();
        // handles ever seen: id, newest tag, older tag
        let mut known: Vec<(u32, u32, u32)> = vec![];
        let mut seed = 0u64;
        for round in rounds {
            let (ops, batch) = match round {
                Round::Expire => {
                    sleep_ms(TTL + CLEANUP + 5000).await;
                    let n: u64 = belief.iter().next().map_or(0, |s| s.open.len() as u64);
                    rep2.borrow_mut().probe("handles expired", n);
                    belief = belief
                        .into_iter()
                        .map(|mut s| {
                            s.open.clear();
                            s
                        })
                        .collect();
                    continue;
                }
                Round::Ops(o, b) => (o, b),
            };
            let issued: Vec<Issued> = ops
                .into_iter()
                .map(|op| {
                    seed += 1;
                    let (id, sig) = match &op {
                        Op::Close(h, old) | Op::Read(h, old) | Op::Write(h, old) | Op::Move(h, old, _) | Op::Unlink(h, old) => {
                            if known.is_empty() {
                                (*h, 1)
                            } else {
                                // mostly recent ones
                                let n = known.len();
                                let k = if h % 3 == 0 { *h as usize % n } else { n - 1 - (*h as usize / 3) % n.min(3) };
                                (known[k].0, if *old { known[k].2 } else { known[k].1 })
                            }
                        }
                        _ => (0, 0),
                    };
                    Issued {
                        op,
                        id,
                        sig,
                        data: filler(seed, (seed % 40) as usize),
                    }
                })
                .collect();
            let n = issued.len();
            let replies: Vec<Reply> = if batch && n > 1 {
                let ops: Vec<Request> = issued.iter().map(request).collect();
                match clients[0].ask(Request::Batch(ops.into())).await {
                    Ok(Reply::Batch(a)) if a.results.len() == n => a.results,
                    Ok(r) => return rep2.borrow_mut().fail("wrong-reply", brief(&r)),
                    Err(e) => return rep2.borrow_mut().fail("no-reply", ask_err(&e)),
                }
            } else {
                let asks = clients.iter_mut().zip(&issued).map(|(c, i)| c.ask(request(i)));
                let mut v = vec![];
                for r in futures::future::join_all(asks).await {
                    v.push(match r {
                        Ok(r) => r,
                        Err(over_there::core::AskError::Failure { msg }) => Reply::Error(ReplyError::from(msg.as_str())),
                        Err(e) => return rep2.borrow_mut().fail("no-reply", ask_err(&e)),
                    });
                }
                v
            };
            let mut rep = rep2.borrow_mut();
            for (i, r) in issued.iter().zip(&replies) {
                simcore::log(|| format!("{:?} {} {:x} -> {}", i.op, i.id, i.sig, brief(r)));
                let (id, sig) = match r {
                    Reply::FileOpened(a) => (a.id, a.sig),
                    Reply::FileWritten(a) => (a.id, a.sig),
                    Reply::FileRenamed(a) => (a.id, a.sig),
                    Reply::Error(ReplyError::FileSigChanged(a)) => (a.id, a.sig),
                    _ => continue,
                };
                match known.iter_mut().find(|k| k.0 == id) {
                    Some(k) if k.1 == sig => {}
                    Some(k) => *k = (id, sig, k.1),
                    None => known.push((id, sig, sig.wrapping_add(1))),
                }
            }
            let mut explained = false;
            let mut next: BTreeSet<St> = BTreeSet::new();
            let disk = snapshot();
            for o in orders(n) {
                let mut states: Vec<St> = belief.iter().cloned().collect();
                for k in o {
                    states = states.iter().flat_map(|s| step(s, &issued[k], &replies[k], par.faults)).collect();
                }
                for mut s in states {
                    explained = true;
                    if fits(&s, &disk) {
                        s.tree = disk.clone();
                        next.insert(s);
                    }
                }
            }
            let opened = belief.iter().next().cloned().unwrap_or_default();
            rep.checked += n as u64;
            let show = || {
                let mut t = String::new();
                for (i, r) in issued.iter().zip(&replies) {
                    t += &format!("{:?} {} {:x} -> {}; ", i.op, i.id, i.sig, brief(r));
                }
                format!("{} before: open {:?}, tree {:?}; on disk now: {:?}", t, opened.open, opened.tree.keys().collect::<Vec<_>>(), disk.keys().collect::<Vec<_>>())
            };
            if !explained {
                return rep.fail("replies-unexplained", show());
            }
            if next.is_empty() {
                return rep.fail("disk-unexplained", show());
            }
            for (i, r) in issued.iter().zip(&replies) {
                let p = match (&i.op, r) {
                    (_, Reply::Error(_)) => match &i.op {
                        Op::MoveAt(a, b) if opened.guarded(&a.0) || opened.guarded(&b.0) => "renaming an open file refused",
                        Op::UnlinkAt(a) if opened.guarded(&a.0) => "removing an open file refused",
                        Op::Mvdir(a, _) | Op::Rmdir(a, _) if opened.guarded(&a.0) => "directory of an open file protected",
                        Op::Move(_, _, b) if opened.by_path(&b.0).map_or(false, |o| o != i.id) => "replacing an open file refused",
                        Op::Close(..) | Op::Read(..) | Op::Write(..) | Op::Move(..) | Op::Unlink(..) if !opened.open.contains_key(&i.id) => {
                            "handle no longer valid"
                        }
                        _ => "other errors",
                    },
                    (Op::Open(p, ..), _) if opened.by_path(&p.0).is_some() => "opened again",
                    (Op::Open(..), _) => "opened",
                    (Op::Move(..), _) => "open file renamed",
                    (Op::Unlink(..), _) => "open file removed",
                    (Op::Mvdir(..), _) => "directory renamed",
                    (Op::Rmdir(..), _) => "directory removed",
                    _ => "other successes",
                };
                rep.probe(p, 1);
            }
            rep.mix_state(simcore::hash_bytes(format!("{:?}", disk.keys()).as_bytes()) ^ next.len() as u64);
            if next.len() > 3000 {
                rep.probe("given up: too many explanations", 1);
                return;
            }
            belief = next;
        }
        drop(clients);
        drop(server);
    });
}
