//! A run is a plan (what the clients do, which faults may happen how often)
//! plus the decisions of the simulator.
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simcore::rng::Rng;
use simcore::{Choice, K};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct NetPlan {
    pub latency_us: u64,
    pub jitter_us: u64,
    pub window: usize,
    pub udp_max: usize,
    pub udp_queue: usize,
}
impl Default for NetPlan {
    fn default() -> Self {
        NetPlan {
            latency_us: 200,
            jitter_us: 1000,
            window: 64 * 1024,
            udp_max: 65507,
            udp_queue: 4096,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub params: Value,
    pub ops: Vec<Value>,
    pub faults: BTreeMap<String, u32>,
    pub net: NetPlan,
    pub entropy: u64,
    pub max_steps: u64,
}

impl Plan {
    pub fn new(property: &str, scenario: &str, rng: &mut Rng) -> Plan {
        Plan {
            property: property.into(),
            scenario: scenario.into(),
            params: Value::Object(Default::default()),
            ops: vec![],
            faults: BTreeMap::new(),
            net: NetPlan::default(),
            entropy: rng.next() >> 16,
            max_steps: 400_000,
        }
    }
    pub fn fault(&mut self, k: K, ppm: u32) -> &mut Self {
        if ppm > 0 {
            let name = simcore::KINDS[k as usize].1;
            self.faults.insert(name.to_string(), ppm);
        }
        self
    }
    /// With probability `on` (percent), enable the kind at a rate between lo and hi ppm
    pub fn swarm(&mut self, rng: &mut Rng, k: K, on: u64, lo: u64, hi: u64) -> &mut Self {
        if rng.below(100) < on {
            // log-uniform
            let mut v = lo.max(1);
            while v < hi && rng.chance(600_000) {
                v = (v * 2).min(hi);
            }
            self.fault(k, v as u32);
        }
        self
    }
    /// Random scheduling of everything the runtime may schedule freely
    pub fn swarm_sched(&mut self, rng: &mut Rng) -> &mut Self {
        if rng.below(10) < 8 {
            let p = *rng.pick(&[20_000u32, 100_000, 300_000, 700_000, 1_000_000]);
            self.fault(K::Sched, p);
        }
        self.swarm(rng, K::Poll, 50, 20_000, 300_000);
        self.swarm(rng, K::Yield, 60, 50_000, 600_000);
        self.swarm(rng, K::Stall, 25, 1_000, 20_000);
        self.swarm(rng, K::BlockDelay, 50, 50_000, 500_000);
        self
    }
    pub fn config(&self, scratch: &std::path::Path, verbose: bool) -> simcore::Config {
        let mut c = simcore::Config::quiet();
        for (n, p) in &self.faults {
            if let Some(k) = simcore::kind_by_name(n) {
                c.set(k, *p);
            }
        }
        c.entropy_seed = self.entropy;
        c.net.latency = self.net.latency_us * 1000;
        c.net.jitter = self.net.jitter_us * 1000;
        c.net.tcp_window = self.net.window;
        c.net.udp_max = self.net.udp_max;
        c.net.udp_queue = self.net.udp_queue;
        c.scratch = scratch.to_path_buf();
        c.verbose = verbose;
        c.max_steps = self.max_steps;
        c
    }
    pub fn p<T: for<'a> Deserialize<'a>>(&self) -> T {
        serde_json::from_value(self.params.clone()).expect("harness: plan parameters")
    }
    pub fn o<T: for<'a> Deserialize<'a>>(&self) -> Vec<T> {
        self.ops
            .iter()
            .map(|o| serde_json::from_value(o.clone()).expect("harness: plan op"))
            .collect()
    }
    pub fn set<P: Serialize, O: Serialize>(&mut self, params: &P, ops: &[O]) -> &mut Self {
        self.params = serde_json::to_value(params).unwrap();
        self.ops = ops.iter().map(|o| serde_json::to_value(o).unwrap()).collect();
        self
    }
}

pub type Trace = Vec<(String, u32, u32)>;

pub fn trace_to(t: &[Choice]) -> Trace {
    t.iter()
        .map(|c| (simcore::KINDS[c.kind as usize].1.to_string(), c.nth, c.value))
        .collect()
}
pub fn trace_from(t: &Trace) -> Vec<Choice> {
    t.iter()
        .filter_map(|(k, n, v)| {
            simcore::kind_by_name(k).map(|kind| Choice {
                kind,
                nth: *n,
                value: *v,
            })
        })
        .collect()
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Violation {
    /// Stable name of what went wrong, for deduplication and known findings
    pub sig: String,
    pub detail: String,
}

/// What a scenario reports about one run
#[derive(Default)]
pub struct Report {
    pub violations: Vec<Violation>,
    /// how many times an oracle compared something
    pub checked: u64,
    pub probes: BTreeMap<String, u64>,
    /// abstract state or history reached, for counting distinct ones
    pub state: u64,
}
impl Report {
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.violations.len() < 20 {
            let sig = sig.into();
            let detail: String = detail.into();
            simcore::log(|| format!("VIOLATED {}: {}", sig, detail));
            self.violations.push(Violation { sig, detail });
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.checked += 1;
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    pub fn probe(&mut self, name: &str, n: u64) {
        *self.probes.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn mix_state(&mut self, v: u64) {
        self.state = (self.state ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunOut {
    pub violations: Vec<Violation>,
    pub checked: u64,
    pub probes: BTreeMap<String, u64>,
    pub state: u64,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub events: u64,
    pub virtual_ns: u64,
    pub injected: Vec<(String, u64)>,
    pub trace: Trace,
    pub log: Vec<String>,
    pub harness_error: Option<String>,
}
