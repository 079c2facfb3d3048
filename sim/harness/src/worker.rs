//! A worker process: takes commands on stdin, one JSON object per line.
use crate::exec::*;
use crate::plan::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::time::Duration;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setuid(u: u32) -> i32;
    fn setgid(u: u32) -> i32;
    fn setgroups(n: usize, g: *const u32) -> i32;
    fn geteuid() -> u32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn chown(p: *const i8, u: u32, g: u32) -> i32;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn flock(fd: i32, op: i32) -> i32;
    fn open(p: *const i8, flags: i32, ...) -> i32;
}

pub const NOBODY: u32 = 65534;
const BASE: &str = "/tmp/otsim";

/// Take the slot's folder for this process alone
pub fn claim(slot: u32) -> PathBuf {
    let dir = PathBuf::from(format!("{}/w{:02}", BASE, slot));
    std::fs::create_dir_all(BASE).expect("harness: scratch base");
    let lock = std::ffi::CString::new(format!("{}/w{:02}.lock", BASE, slot)).unwrap();
    unsafe {
        // O_RDWR | O_CREAT | O_CLOEXEC; held until the process ends
        let fd = open(lock.as_ptr(), 2 | 0o100 | 0o2000000, 0o666);
        assert!(fd >= 0, "harness: lock file");
        assert!(flock(fd, 2) == 0, "harness: lock");
    }
    std::fs::create_dir_all(&dir).expect("harness: scratch");
    if unsafe { geteuid() } == 0 {
        let c = std::ffi::CString::new(dir.to_str().unwrap()).unwrap();
        unsafe {
            chown(c.as_ptr(), NOBODY, NOBODY);
        }
    }
    dir
}

/// From here on the process can only touch its own scratch folder
pub fn confine(dir: &Path) {
    unsafe {
        // address space: runaway allocation ends the worker, not the machine
        setrlimit(9, &[6 << 30, 6 << 30]);
        // no core files
        setrlimit(4, &[0, 0]);
        if geteuid() == 0 {
            assert!(setgroups(0, std::ptr::null()) == 0, "harness: setgroups");
            assert!(setgid(NOBODY) == 0 && setuid(NOBODY) == 0, "harness: setuid");
        }
    }
    std::env::set_current_dir(dir).expect("harness: chdir");
    std::env::remove_var("HOME");
}

pub fn main(slot: u32) {
    let dir = claim(slot);
    // answers go to a private copy of stdout: the code under test prints to fd 1
    let out = unsafe {
        let fd = dup(1);
        fcntl(fd, 2, 1);
        let null = open(b"/dev/null\0".as_ptr() as *const i8, 2, 0);
        dup2(null, 1);
        fd
    };
    use std::os::unix::io::FromRawFd;
    let mut out = unsafe { std::fs::File::from_raw_fd(out) };
    confine(&dir);
    install_panic_hook();
    // nor does it share the library's stdin
    let stdin = unsafe {
        let fd = dup(0);
        fcntl(fd, 2, 1);
        std::fs::File::from_raw_fd(fd)
    };
    for line in std::io::BufReader::new(stdin).lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let v: Value = serde_json::from_str(&line).expect("harness: command");
        let r = match v["cmd"].as_str().unwrap() {
            "batch" => batch(&v, &dir, &mut out),
            "one" => one(&v, &dir),
            "shrink" => do_shrink(&v, &dir),
            _ => break,
        };
        let mut s = serde_json::to_string(&r).unwrap();
        s.push('\n');
        if out.write_all(s.as_bytes()).is_err() {
            break;
        }
    }
    // leave nothing behind
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        let p = e.path();
        let _ = std::fs::remove_dir_all(&p).or_else(|_| std::fs::remove_file(&p));
    }
}

fn batch(v: &Value, dir: &Path, out: &mut std::fs::File) -> Value {
    let prop = v["prop"].as_str().unwrap();
    let tier = v["tier"].as_str().unwrap();
    let base = v["base"].as_u64().unwrap();
    let start = v["start"].as_u64().unwrap();
    let n = v["count"].as_u64().unwrap();
    let mut st = Stats::default();
    let mut samples = vec![];
    for idx in start..start + n {
        let _ = writeln!(out, "{{\"run\":{}}}", idx);
        let (plan, seed) = make(prop, tier, base, idx);
        let o = execute(&plan, &How::Search(seed), dir, false);
        if idx % 16 == 0 {
            // the same seed must give the same run
            let o2 = execute(&plan, &How::Search(seed), dir, false);
            st.rechecked += 1;
            if (o2.hash, o2.steps, &o2.trace, &o2.violations) != (o.hash, o.steps, &o.trace, &o.violations) {
                st.nondet.push(idx);
            }
            // and so must its decisions without the seed
            let o3 = execute(&plan, &How::Replay(o.trace.clone()), dir, false);
            if (o3.hash, o3.steps) != (o.hash, o.steps) {
                st.nondet.push(idx);
            }
        }
        if idx % 97 == 0 && samples.len() < 2 {
            samples.push(json!({"run": idx, "plan": plan, "injected": o.injected, "steps": o.steps,
                "checked": o.checked, "virtual_ms": o.virtual_ns / 1_000_000}));
        }
        st.add(idx, &plan, &o);
    }
    let mut r = serde_json::to_value(&st).unwrap();
    r["samples"] = Value::Array(samples);
    r["done"] = json!(true);
    r
}

#[derive(serde::Serialize, serde::Deserialize, Default)]
pub struct Stats {
    pub runs: u64,
    pub rechecked: u64,
    pub nondet: Vec<u64>,
    pub checked: u64,
    pub steps: u64,
    pub events: u64,
    pub virtual_ns: u64,
    pub injected: BTreeMap<String, u64>,
    pub runs_with: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub scenarios: BTreeMap<String, u64>,
    pub nontrivial: Vec<u64>,
    pub scheds: Vec<u64>,
    pub states: Vec<u64>,
    pub found: Vec<(u64, Violation)>,
    pub errors: Vec<(u64, String)>,
}
impl Stats {
    fn add(&mut self, idx: u64, plan: &Plan, o: &RunOut) {
        self.runs += 1;
        self.checked += o.checked;
        self.steps += o.steps;
        self.events += o.events;
        self.virtual_ns += o.virtual_ns;
        *self.scenarios.entry(plan.scenario.clone()).or_insert(0) += 1;
        for (k, n) in &o.injected {
            *self.injected.entry(k.clone()).or_insert(0) += n;
            *self.runs_with.entry(k.clone()).or_insert(0) += 1;
        }
        for (k, n) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += n;
        }
        if o.checked > 0 && !o.injected.is_empty() {
            self.nontrivial.push(o.hash);
        }
        self.scheds.push(o.sched_hash);
        self.states.push(o.state);
        if let Some(e) = &o.harness_error {
            self.errors.push((idx, e.clone()));
        } else {
            let mut seen = std::collections::HashSet::new();
            for v in &o.violations {
                if seen.insert(v.sig.clone()) {
                    self.found.push((idx, v.clone()));
                }
            }
        }
    }
}

fn one(v: &Value, dir: &Path) -> Value {
    let plan: Plan = serde_json::from_value(v["plan"].clone()).unwrap();
    let how = match v["trace"].as_array() {
        Some(_) => How::Replay(serde_json::from_value(v["trace"].clone()).unwrap()),
        None => How::Search(v["seed"].as_u64().unwrap()),
    };
    let o = execute(&plan, &how, dir, v["verbose"].as_bool().unwrap_or(false));
    serde_json::to_value(&o).unwrap()
}

fn do_shrink(v: &Value, dir: &Path) -> Value {
    let plan: Plan = serde_json::from_value(v["plan"].clone()).unwrap();
    let seed = v["seed"].as_u64().unwrap();
    let sig = v["sig"].as_str().unwrap();
    let o = execute(&plan, &How::Search(seed), dir, false);
    if !o.violations.iter().any(|x| x.sig == sig) {
        return json!({"shrunk": false, "why": "the violation did not occur again in a fresh process"});
    }
    let ms = v["budget_ms"].as_u64().unwrap_or(60_000);
    match shrink(&plan, &o.trace, sig, dir, Duration::from_millis(ms)) {
        Some(s) => json!({"shrunk": true, "plan": s.plan, "trace": s.trace, "runs": s.runs, "out": s.out,
            "ops_before": plan.ops.len(), "decisions_before": o.trace.len()}),
        None => json!({"shrunk": false, "why": "the recorded decisions did not reproduce it"}),
    }
}
