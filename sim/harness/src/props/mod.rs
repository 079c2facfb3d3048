//! One module per property: generates plans and judges runs.
use crate::exec::Rep;
use crate::plan::Plan;
use simcore::rng::Rng;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, bool) -> Plan,
    pub run: fn(&Plan, &Rep),
    /// runs of the quick check
    pub quick_runs: u64,
    /// runs a worker does before it reports
    pub batch: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    /// panics of the code under test are judged by the scenario itself
    pub panics_ok: bool,
}

pub const REAL: &str = "all of over-there's own code involved (client, server, event loops, wire, packets, signing, encryption, state, handlers) and tokio's timers, channels, locks and task machinery, as built from the current tree";
pub const STUB: &str = "operating system: network (UDP, TCP), clocks, entropy, thread pool for blocking calls, child processes and task scheduling are simulated; files are real files in a scratch folder behind a fault-injecting layer";
pub const ASSUME: &[&str] = &[
    "tokio 0.2.13 is patched below its public API (sockets, parking, scheduling, blocking pool, processes); the multi-threaded scheduler is represented by random task order, preemption at lock and channel operations and stalls, not by parallel execution",
    "sampling: a clean batch is evidence, not proof",
];

static PROPS: &[&Prop] = &[&c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::PROP, &c10::PROP, &c11::PROP, &c12::PROP, &c13::PROP, &c14::PROP, &c15::PROP, &c16::PROP, &c17::PROP, &c18::PROP, &c19::PROP];

pub fn find(id: &str) -> &'static Prop {
    PROPS
        .iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| panic!("harness: unknown property {}", id))
}
