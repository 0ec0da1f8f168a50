pub mod cli;
pub mod decode;
pub mod enc;
pub mod fsgen;
pub mod s_crash;
pub mod s_history;
pub mod util;
use std::time::{Duration, Instant};

/// command line of every scenario binary
pub fn main_of(f: fn(&mut util::Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let budget: u64 = opt("--budget", "40").parse().unwrap();
    let mut c = util::Ctx {
        seed: opt("--seed", "1").parse().unwrap(),
        thorough: opt("--tier", "quick") == "thorough",
        bin: opt("--bin", "/repo/target/debug/backpak"),
        work: opt("--work", "/tmp/bpw"),
        prop: opt("--prop", ""),
        deadline: Instant::now() + Duration::from_secs(budget),
        viol: vec![],
        evals: 0,
        distinct: Default::default(),
        samples: vec![],
        rule: String::new(),
        counts: Default::default(),
    };
    let out = opt("--out", "/dev/stdout");
    f(&mut c);
    std::fs::write(out, serde_json::to_string_pretty(&c.result()).unwrap()).unwrap();
}
