mod conc;
mod driver;
mod known;
mod profile;
mod query;
mod replay;
mod runner;
mod simexec;
mod simfs;
mod wallog;

use std::{
    io::{BufRead, BufReader},
    sync::Arc,
};

use serde_json::{Value, json};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn cmd_replay(args: &[String]) {
    let file = arg(args, "--in").expect("--in");
    let seed: u64 = arg(args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let max_fail: usize = arg(args, "--max-fail").map(|s| s.parse().unwrap()).unwrap_or(5);
    let only: Option<usize> = arg(args, "--only").map(|s| s.parse().unwrap());
    let profiles: Vec<String> = arg(args, "--profiles")
        .map(|s| s.split(',').map(|x| x.to_string()).collect())
        .unwrap_or_else(|| profile::SCANNABLE.iter().map(|s| s.to_string()).collect());
    let cc = replay::CrashCfg {
        samples: arg(args, "--crash-samples").map(|s| s.parse().unwrap()).unwrap_or(5),
    };
    let auto = arg(args, "--auto").as_deref() == Some("1");
    let nk: usize = arg(args, "--nk").map(|s| s.parse().unwrap()).unwrap_or(4);
    let fan_every: usize = arg(args, "--fan-every").map(|s| s.parse().unwrap()).unwrap_or(0);
    let f = std::fs::File::open(&file).expect("input");
    let behaviours: Vec<Vec<Value>> = BufReader::new(f)
        .lines()
        .map_while(Result::ok)
        .filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(&l).expect("behaviour"))
        .collect();
    let behaviours = Arc::new(behaviours);
    let (lo, hi) = only.map(|o| (o, o + 1)).unwrap_or((0, behaviours.len()));
    let all = behaviours.clone();
    runner::run_cases(
        lo,
        hi,
        max_fail,
        move |i| {
            let bseed = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
            let mut rng = replay::Rng::new(bseed ^ 0x55);
            let pname = if fan_every > 0 && i % fan_every == fan_every - 1 {
                profile::FANS[(i / fan_every) % profile::FANS.len()]
            } else {
                profiles[i % profiles.len()].as_str()
            };
            let p = match pname {
                "random" => profile::random_profile(nk, &mut |n| rng.below(n)),
                name => profile::profile(name),
            };
            let keys = format!("{:?}", p.schema.fields().iter().map(|f| f.data_type()).collect::<Vec<_>>());
            let mut cfg = driver::Cfg { seed: bseed, ..Default::default() };
            if rng.chance(1, 3) {
                cfg.seg_bytes = 600 + rng.below(3000) as usize;
            }
            if auto {
                cfg.auto = Some(rng.next() | 1 << (rng.below(4)));
            }
            let den = 1 + rng.below(3);
            let info = json!({"profile": pname, "seed": seed, "columns": keys});
            let out = replay::run_behaviour(&behaviours[i], p, nk, cfg, bseed, den, cc);
            let mut c = runner::Case {
                steps: out.steps,
                observations: out.observations,
                fail: out.fail,
                info,
                ..Default::default()
            };
            c.count("crash points", out.crash_points);
            for (op, n) in &out.faults {
                c.count(&format!("faults in {op}"), *n);
            }
            for s in &behaviours[i] {
                c.count(s["op"].as_str().unwrap_or("?"), 1);
            }
            c
        },
        move |i, upto| {
            let b = &all[i];
            match upto {
                Some(s) => json!(&b[..=s.min(b.len() - 1)]),
                None => json!(b),
            }
        },
    );
}

fn cmd_conc(args: &[String]) {
    let seed: u64 = arg(args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let n: usize = arg(args, "--n").map(|s| s.parse().unwrap()).unwrap_or(100);
    let only: Option<usize> = arg(args, "--only").map(|s| s.parse().unwrap());
    let polite = arg(args, "--polite").as_deref() != Some("0");
    let crash = arg(args, "--crash").as_deref() == Some("1");
    let auto = arg(args, "--auto");
    let out = arg(args, "--out").expect("--out");
    let file = Arc::new(std::sync::Mutex::new(std::fs::File::create(out).expect("out")));
    let profiles = ["utf8", "pair", "i64", "fan-pair", "bin"];
    let (lo, hi) = only.map(|o| (o, o + 1)).unwrap_or((0, n));
    runner::run_cases(
        lo,
        hi,
        3,
        move |i| {
            let s = seed.wrapping_mul(7_000_003).wrapping_add(i as u64);
            let auto = match auto.as_deref() {
                Some("1") => true,
                Some("0") => false,
                _ => i % 3 == 2,
            };
            let shape = conc::Shape { polite, crash, auto };
            let (c, h) = conc::case(s, profiles[i % profiles.len()], &shape);
            if let Some(h) = h {
                use std::io::Write;
                writeln!(file.lock().unwrap(), "{h}").unwrap();
            }
            c
        },
        |i, _| json!([{"op": format!("history {i}")}]),
    );
}

fn cmd_wallog(args: &[String]) {
    let seed: u64 = arg(args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let n: usize = arg(args, "--n").map(|s| s.parse().unwrap()).unwrap_or(100);
    let only: Option<usize> = arg(args, "--only").map(|s| s.parse().unwrap());
    let dir = std::path::PathBuf::from(arg(args, "--dir").expect("--dir"));
    let out = arg(args, "--out").expect("--out");
    let file = Arc::new(std::sync::Mutex::new(std::fs::File::create(out).expect("out")));
    let (lo, hi) = only.map(|o| (o, o + 1)).unwrap_or((0, n));
    runner::run_cases(
        lo,
        hi,
        3,
        move |i| {
            let s = seed.wrapping_mul(9_000_011).wrapping_add(i as u64);
            let (c, h) = wallog::case(s, &dir);
            if let Some(h) = h {
                use std::io::Write;
                writeln!(file.lock().unwrap(), "{h}").unwrap();
            }
            c
        },
        |i, _| json!([{"op": format!("case {i}")}]),
    );
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(String::as_str) {
        Some("replay") => cmd_replay(&args),
        Some("conc") => cmd_conc(&args),
        Some("wallog") => cmd_wallog(&args),
        Some("known") => {
            let id = arg(&args, "--id").expect("--id");
            let r = simexec::with_rt(|| known::run(&id));
            match r {
                None => std::process::exit(2),
                Some(Ok(b)) => println!("{}", json!({"reproduced": b})),
                Some(Err(e)) => println!("{}", json!({"reproduced": false, "error": e.to_string()})),
            }
        }
        _ => {
            eprintln!("usage: vh replay ...");
            std::process::exit(2);
        }
    }
}
