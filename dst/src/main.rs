#![allow(dead_code)]
mod pyrun;
mod runner;
mod scen;
mod sim;

use std::time::Duration;

fn arg_after(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    // nothing of the host's environment reaches the simulated program
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    for (k, _) in std::env::vars_os() {
        std::env::remove_var(k);
    }
    std::env::set_var("PATH", "/usr/bin:/bin");
    std::env::set_var("HOME", "/home/u");
    let args: Vec<String> = std::env::args().collect();
    runner::install_panic_hook();
    scen::prewarm();
    let all = scen::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            let tier = arg_after(&args, "--tier").unwrap_or(tier);
            let thorough = tier == "thorough";
            let (q, t) = scen::budget(&prop);
            let runs = arg_after(&args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { t } else { q });
            let cfg = runner::Cfg {
                prop,
                thorough,
                seed: arg_after(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(seed),
                runs,
                wall_cap: Duration::from_secs(
                    arg_after(&args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 75 }),
                ),
                workers: arg_after(&args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                root,
            };
            runner::check(&cfg, &all)
        }
        Some("replay") => runner::replay(&args[2], &all),
        Some("one") => {
            let s = args[4].trim_start_matches("0x");
            let seed = if args[4].starts_with("0x") { u64::from_str_radix(s, 16).unwrap() } else { s.parse().unwrap() };
            runner::one(&all, &args[2], &args[3], seed, args.iter().any(|a| a == "log"), arg_after(&args, "--before").and_then(|s| s.parse().ok()).unwrap_or(0))
        }
        Some("survey") => runner::survey(&all, &args[2], args[3].parse().unwrap(), arg_after(&args, "--start").and_then(|s| s.parse().ok()).unwrap_or(0), args.iter().any(|a| a == "--thorough"), arg_after(&args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(0)),
        Some("list") => {
            for s in &all {
                println!("{} {:?}", s.name, s.props);
            }
            0
        }
        _ => {
            eprintln!("usage: posy-dst check PROP [--tier T] [--seed N] | replay FILE | one PROP SCEN SEED [log]");
            2
        }
    };
    std::process::exit(code);
}
