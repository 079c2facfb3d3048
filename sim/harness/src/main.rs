//! Deterministic simulation of over-there: see /verif/DESIGN.md
mod alloc;
mod attack;
mod exec;
mod orch;
mod plan;
mod props;
mod wire;
mod worker;
mod world;

simcore::interpose!();

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            worker::main(a[2].parse().unwrap());
            0
        }
        Some("check") if a.len() >= 4 => orch::check(&a[2], &a[3], seed),
        Some("replay") if a.len() >= 3 => orch::replay(&a[2], a.iter().any(|x| x == "-v")),
        Some("run") if a.len() >= 4 => {
            // run one seed verbosely: harness run C01 17
            let idx: u64 = a[3].parse().unwrap();
            let tier = a.get(4).map(|s| s.as_str()).unwrap_or("quick");
            let (plan, s) = exec::make(&a[2], tier, seed, idx);
            println!("{}", serde_json::to_string(&plan).unwrap());
            let cmd = serde_json::json!({"cmd":"one","plan":plan,"seed":s,"verbose":true});
            match orch::ask(90, &cmd, std::time::Duration::from_secs(60)) {
                Ok(o) => {
                    for l in o["log"].as_array().into_iter().flatten() {
                        println!("{}", l.as_str().unwrap_or(""));
                    }
                    println!(
                        "violations {}\nerror {}\nprobes {}\ninjected {}\nchecked {} steps {} hash {}",
                        o["violations"], o["harness_error"], o["probes"], o["injected"], o["checked"], o["steps"], o["hash"]
                    );
                    0
                }
                Err(e) => {
                    eprintln!("{}", e);
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: harness check PROPERTY quick|thorough | replay FILE [-v] | run PROPERTY INDEX");
            2
        }
    };
    std::process::exit(code);
}
