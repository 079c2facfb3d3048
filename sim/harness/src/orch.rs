//! Runs a check: distributes seeds over worker processes, collects what they
//! saw, shrinks violations, writes evidence and replay files.
use crate::exec::make;
use crate::plan::*;
use crate::props;
use crate::worker::Stats;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// A run that makes no progress for this long of real time hangs
const HANG: Duration = Duration::from_secs(90);

struct W {
    slot: u32,
    child: Child,
    stdin: ChildStdin,
    last: Instant,
    at: Option<u64>,
    range: Option<(u64, u64)>,
    gen: u64,
}

enum Ev {
    Line(u32, u64, Value),
    Eof(u32, u64),
}

fn spawn(slot: u32, gen: u64, tx: &mpsc::Sender<Ev>) -> W {
    let exe = std::env::current_exe().expect("harness: own path");
    let mut child = Command::new(exe)
        .arg("worker")
        .arg(slot.to_string())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("harness: spawn worker");
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => match serde_json::from_str(&l) {
                    Ok(v) => {
                        if tx.send(Ev::Line(slot, gen, v)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                },
                Err(_) => break,
            }
        }
        let _ = tx.send(Ev::Eof(slot, gen));
    });
    W {
        slot,
        child,
        stdin,
        last: Instant::now(),
        at: None,
        range: None,
        gen,
    }
}

/// One command to a fresh worker; None if it died or hung
pub fn ask(slot: u32, cmd: &Value, limit: Duration) -> Result<Value, String> {
    let (tx, rx) = mpsc::channel();
    let mut w = spawn(slot, 0, &tx);
    let _ = writeln!(w.stdin, "{}", cmd);
    let _ = w.stdin.flush();
    let end = Instant::now() + limit;
    let r = loop {
        let left = end.saturating_duration_since(Instant::now());
        match rx.recv_timeout(left) {
            Ok(Ev::Line(_, _, v)) => break Ok(v),
            Ok(Ev::Eof(..)) => {
                let st = w.child.wait().map(|s| s.to_string()).unwrap_or_default();
                break Err(format!("the process died ({})", st));
            }
            Err(_) => break Err(format!("no end within {} s", limit.as_secs())),
        }
    };
    let _ = w.child.kill();
    let _ = w.child.wait();
    r
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
pub fn root() -> PathBuf {
    match std::env::var("VERIF_ROOT") {
        Ok(r) => PathBuf::from(r),
        Err(_) => PathBuf::from("/verif"),
    }
}
pub fn known() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").to_string();
                let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
                let text = it.next().unwrap_or("").to_string();
                v.push(Known {
                    property: p,
                    sig,
                    text,
                });
            }
        }
    }
    v
}

pub fn check(prop: &str, tier: &str, base: u64) -> i32 {
    let t0 = Instant::now();
    let p = props::find(prop);
    let thorough = tier == "thorough";
    let jobs: u32 = std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u32)
        .clamp(1, 32);
    let slot0: u32 = std::env::var("VERIF_SLOT").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let want: u64 = std::env::var("VERIF_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { u64::MAX } else { p.quick_runs });
    let secs: u64 = std::env::var("VERIF_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 600 } else { 240 });
    let deadline = t0 + Duration::from_secs(secs);
    println!("check property={} tier={} seed={} jobs={}", prop, tier, base, jobs);
    let known: Vec<Known> = known().into_iter().filter(|k| k.property == prop).collect();
    let is_known = |sig: &str| known.iter().any(|k| k.sig == sig);

    let (tx, rx) = mpsc::channel();
    let mut ws: BTreeMap<u32, W> = BTreeMap::new();
    let mut next = 0u64;
    let batch = p.batch;
    let mut total = Stats::default();
    let mut samples: Vec<Value> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut found: BTreeMap<String, (u64, Violation)> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut died: Vec<(u64, String)> = vec![];
    let mut gen = 0;
    let mut stop = false;

    fn give(w: &mut W, prop: &str, tier: &str, base: u64, start: u64, count: u64) {
        w.range = Some((start, count));
        w.last = Instant::now();
        w.at = None;
        let c = json!({"cmd":"batch","prop":prop,"tier":tier,"base":base,"start":start,"count":count});
        let _ = writeln!(w.stdin, "{}", c);
        let _ = w.stdin.flush();
    }
    for s in 0..jobs {
        if next >= want {
            break;
        }
        gen += 1;
        let mut w = spawn(slot0 + s, gen, &tx);
        let n = batch.min(want - next);
        give(&mut w, prop, tier, base, next, n);
        next += n;
        ws.insert(slot0 + s, w);
    }
    while ws.values().any(|w| w.range.is_some()) {
        let ev = rx.recv_timeout(Duration::from_millis(500));
        let mut lost: Option<(u32, String)> = None;
        match ev {
            Ok(Ev::Line(slot, g, v)) => {
                let w = match ws.get_mut(&slot) {
                    Some(w) if w.gen == g => w,
                    _ => continue,
                };
                w.last = Instant::now();
                if let Some(i) = v["run"].as_u64() {
                    w.at = Some(i);
                    continue;
                }
                w.range = None;
                let st: Stats = serde_json::from_value(v.clone()).expect("harness: stats");
                if samples.len() < 4 {
                    if let Some(a) = v["samples"].as_array() {
                        samples.extend(a.iter().take(2).cloned());
                    }
                }
                total.runs += st.runs;
                total.rechecked += st.rechecked;
                total.nondet.extend(&st.nondet);
                total.checked += st.checked;
                total.steps += st.steps;
                total.events += st.events;
                total.virtual_ns += st.virtual_ns;
                for (a, b) in [
                    (&mut total.injected, &st.injected),
                    (&mut total.runs_with, &st.runs_with),
                    (&mut total.probes, &st.probes),
                    (&mut total.scenarios, &st.scenarios),
                ] {
                    for (k, n) in b {
                        *a.entry(k.clone()).or_insert(0) += n;
                    }
                }
                hashes.extend(&st.nontrivial);
                scheds.extend(&st.scheds);
                states.extend(&st.states);
                total.errors.extend(st.errors);
                for (idx, v) in st.found {
                    if is_known(&v.sig) {
                        *known_seen.entry(v.sig).or_insert(0) += 1;
                        continue;
                    }
                    stop = true;
                    let e = found.entry(v.sig.clone()).or_insert((idx, v.clone()));
                    if idx < e.0 {
                        *e = (idx, v);
                    }
                }
                if !total.errors.is_empty() {
                    stop = true;
                }
                if !stop && next < want && Instant::now() < deadline {
                    let n = batch.min(want - next);
                    give(w, prop, tier, base, next, n);
                    next += n;
                }
            }
            Ok(Ev::Eof(slot, g)) => {
                if let Some(w) = ws.get_mut(&slot) {
                    if w.gen == g && w.range.is_some() {
                        let st = w.child.wait().map(|s| s.to_string()).unwrap_or_default();
                        lost = Some((slot, format!("the worker process died ({})", st)));
                    }
                }
            }
            Err(_) => {
                for w in ws.values_mut() {
                    if w.range.is_some() && w.last.elapsed() > HANG {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        lost = Some((w.slot, format!("the run did not end within {} s of real time", HANG.as_secs())));
                    }
                }
            }
        }
        if let Some((slot, why)) = lost {
            let w = ws.get_mut(&slot).unwrap();
            let (start, count) = w.range.take().unwrap();
            match w.at {
                Some(at) => {
                    died.push((at, why));
                    stop = true;
                }
                None => {
                    eprintln!("harness: worker {} failed before its first run: {}", slot, why);
                    return 2;
                }
            }
            let _ = (start, count);
        }
    }
    for w in ws.values_mut() {
        let _ = writeln!(w.stdin, "{{\"cmd\":\"quit\"}}");
    }
    for (_, mut w) in ws {
        drop(w.stdin);
        let _ = w.child.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();

    // ---- violations ----
    let mut reported: Vec<Value> = vec![];
    let mut unconfirmed: Vec<Value> = vec![];
    let replays = root().join("replays");
    let _ = std::fs::create_dir_all(&replays);
    for (sig, (idx, v)) in found.iter().take(6) {
        if reported.len() >= 3 {
            break;
        }
        let (plan, seed) = make(prop, tier, base, *idx);
        let budget = if reported.is_empty() { 60_000 } else { 15_000 };
        let cmd = json!({"cmd":"shrink","plan":plan,"seed":seed,"sig":sig,"budget_ms":budget});
        let r = ask(slot0, &cmd, Duration::from_secs(240));
        let (rplan, rtrace, rout, note) = match r {
            Ok(r) if r["shrunk"] == json!(true) => (
                r["plan"].clone(),
                r["trace"].clone(),
                r["out"].clone(),
                json!({"shrink_runs": r["runs"], "ops_before": r["ops_before"], "decisions_before": r["decisions_before"]}),
            ),
            other => {
                unconfirmed.push(json!({"sig": sig, "run": idx, "detail": v.detail, "why": format!("{:?}", other)}));
                continue;
            }
        };
        let path = replays.join(format!("{}-{}-{}.json", prop, base, idx));
        let file = json!({
            "property": prop, "sig": sig, "detail": detail_of(&rout, sig), "seed": base, "run": idx, "slot": slot0,
            "plan": rplan, "trace": rtrace, "hash": rout["hash"], "steps": rout["steps"],
            "violations": rout["violations"], "log": rout["log"], "shrinking": note,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("harness: replay file");
        println!("  {}: {}", sig, detail_of(&rout, sig));
        println!("VIOLATION property={} replay={}", prop, path.display());
        reported.push(json!({"sig": sig, "run": idx, "detail": v.detail, "replay": path}));
    }
    for (idx, why) in died.iter().take(2) {
        let (plan, seed) = make(prop, tier, base, *idx);
        let cmd = json!({"cmd":"one","plan":plan,"seed":seed});
        match ask(slot0, &cmd, HANG) {
            Ok(_) => unconfirmed.push(json!({"sig": "process-died", "run": idx, "why": why})),
            Err(again) => {
                let path = replays.join(format!("{}-{}-{}.json", prop, base, idx));
                let file = json!({"property": prop, "sig": "process-died", "detail": format!("{}; again: {}", why, again),
                    "seed": base, "run": idx, "slot": slot0, "plan": plan, "search_seed": seed});
                std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("harness: replay file");
                println!("  process-died: {}", again);
                println!("VIOLATION property={} replay={}", prop, path.display());
                reported.push(json!({"sig": "process-died", "run": idx, "detail": again, "replay": path}));
            }
        }
    }
    for k in &known {
        println!(
            "KNOWN-FINDING: property={} {} [{}; seen in {} runs]",
            prop,
            k.text,
            k.sig,
            known_seen.get(&k.sig).unwrap_or(&0)
        );
    }

    // ---- evidence ----
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": total.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": format!("One evaluation is one simulated run: a plan (operations, parameters, fault rates) and a stream of decisions, both drawn from VERIF_SEED and the run number. {} A run counts as non-trivial when its oracle compared at least one outcome and at least one decision differed from the default (a fault was injected or the schedule deviated from first-in-first-out); distinct ones differ in the hash over all decisions, the schedule and the recorded history.", p.rule),
            "samples": samples,
            "runs_per_hour": (total.runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (total.runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": total.virtual_ns / 1_000_000_000,
            "scheduler_steps": total.steps,
            "simulator_events": total.events,
            "oracle_comparisons": total.checked,
            "faults_injected": total.injected,
            "runs_with_fault": total.runs_with,
            "distinct_schedules": scheds.len(),
            "distinct_histories": states.len(),
            "scenarios": total.scenarios,
            "probes": total.probes,
            "determinism_rechecks": total.rechecked,
            "determinism_mismatches": total.nondet.len(),
            "known_findings_seen": known_seen,
            "unconfirmed": unconfirmed,
            "real_components": p.real,
            "stubbed_components": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": reported,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", prop)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("harness: evidence file");
    println!(
        "runs={} nontrivial={} checked={} virtual={}s wall={:.1}s violations={} known={} nondeterministic={} unconfirmed={}",
        total.runs,
        hashes.len(),
        total.checked,
        total.virtual_ns / 1_000_000_000,
        wall,
        reported.len(),
        known_seen.values().sum::<u64>(),
        total.nondet.len(),
        unconfirmed.len()
    );
    for (i, e) in total.errors.iter().take(5) {
        eprintln!("harness error in run {}: {}", i, e);
    }
    for u in &unconfirmed {
        eprintln!("not confirmed: {}", u);
    }
    if !total.nondet.is_empty() {
        eprintln!("harness: runs that did not repeat: {:?}", &total.nondet[..total.nondet.len().min(10)]);
    }
    if !reported.is_empty() {
        return 1;
    }
    if !total.errors.is_empty() {
        return 2;
    }
    0
}

fn detail_of(out: &Value, sig: &str) -> String {
    out["violations"]
        .as_array()
        .and_then(|a| a.iter().find(|v| v["sig"] == sig))
        .and_then(|v| v["detail"].as_str())
        .unwrap_or("")
        .to_string()
}

pub fn replay(path: &str, verbose: bool) -> i32 {
    let f: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(f) => f,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let slot = f["slot"].as_u64().unwrap_or(0) as u32;
    let prop = f["property"].as_str().unwrap_or("");
    let sig = f["sig"].as_str().unwrap_or("");
    let mut cmd = json!({"cmd":"one","plan":f["plan"],"verbose":true});
    if f["trace"].is_array() {
        cmd["trace"] = f["trace"].clone();
    } else {
        cmd["seed"] = f["search_seed"].clone();
    }
    match ask(slot, &cmd, HANG) {
        Err(e) => {
            if sig == "process-died" {
                println!("{}", e);
                println!("VIOLATION property={} replay={}", prop, path);
                1
            } else {
                eprintln!("{}", e);
                2
            }
        }
        Ok(o) => {
            if verbose {
                for l in o["log"].as_array().into_iter().flatten() {
                    println!("{}", l.as_str().unwrap_or(""));
                }
            }
            for v in o["violations"].as_array().into_iter().flatten() {
                println!("  {}: {}", v["sig"], v["detail"]);
            }
            if let Some(e) = o["harness_error"].as_str() {
                eprintln!("harness: {}", e);
                return 2;
            }
            let same = o["violations"].as_array().map_or(false, |a| a.iter().any(|v| v["sig"] == sig));
            if same {
                let exact = o["hash"] == f["hash"] && o["steps"] == f["steps"];
                println!(
                    "reproduced{}",
                    if exact { " exactly (same history hash and steps)" } else { ", but the history hash differs" }
                );
                println!("VIOLATION property={} replay={}", prop, path);
                1
            } else {
                println!("not reproduced");
                0
            }
        }
    }
}
