mod about;
mod engine;
mod fs;
mod net;
mod netsim;
mod proj;
mod props;
mod props2;
mod props3;
mod props4;
mod runner;
mod scen;
mod xlsx;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() };
    let verif = get("--verif").unwrap_or_else(|| "/verif".into());
    let sut = get("--sut").unwrap_or_else(|| format!("{verif}/build/sut/release/csvpp"));
    let simlib = get("--simlib").unwrap_or_else(|| format!("{verif}/sim/target/release/libsimlib.so"));
    let rc = match a.first().map(String::as_str) {
        Some("check") => {
            let tier = get("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let seed = get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let prop = get("--property").expect("--property");
            let quick = tier != "thorough";
            runner::check(&runner::Cfg {
                known: runner::known(&format!("{verif}/known-findings.txt"), &prop),
                secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(if quick { 25 } else { 600 }),
                cases: get("--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
                workers: get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                confirm: true,
                prop,
                tier,
                seed,
                sut,
                simlib,
                verif,
            })
        }
        Some("replay") => runner::replay(&sut, &simlib, a.last().unwrap()),
        _ => {
            eprintln!("usage: simdrive check --property C01 [--tier quick|thorough] [--seed N] | replay FILE");
            2
        }
    };
    std::process::exit(rc);
}
