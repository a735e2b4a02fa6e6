//! Runs a harness natively, against the unmodified crate and its real dependencies.
//!
//! vpreplay run FILE          every line `ENTRY v v v ..`; one result line each
//! vpreplay search ENTRY SEED N   N runs on random values; prints the `reach` conditions met
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn outcome(f: extern "C-unwind" fn(), values: &[u64], schedule: &[u64]) -> String {
    vpq::load(values, schedule);
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    let expected = vpq::panic_expected();
    let (kind, msg) = match r {
        Ok(()) => match expected {
            None => ("ok", String::new()),
            Some(m) => ("no-panic", m.to_string()),
        },
        Err(e) => {
            if e.is::<vpq::AssumptionBroken>() {
                ("assume", String::new())
            } else if let Some(c) = e.downcast_ref::<vpq::CheckFailed>() {
                ("check", c.0.to_string())
            } else {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".to_string()
                };
                if expected.is_some() {
                    ("panics", m)
                } else {
                    ("panic", m)
                }
            }
        }
    };
    let obs: Vec<String> = vpq::observed().iter().map(|x| x.to_string()).collect();
    format!("{}\t{}\t{}", kind, msg.replace(['\n', '\t'], " "), obs.join(" "))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let all = vpharness::all();
    let find = |n: &str| all.iter().find(|e| e.0 == n).map(|e| e.1);
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "run" => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            for line in text.lines() {
                let mut w = line.split_whitespace();
                let Some(name) = w.next() else { continue };
                let (mut values, mut schedule) = (vec![], vec![]);
                for x in w {
                    match x.strip_prefix('s') {
                        Some(x) => schedule.push(x.parse().unwrap()),
                        None => values.push(x.parse().unwrap()),
                    }
                }
                let r = match find(name) {
                    Some(f) => outcome(f, &values, &schedule),
                    None => "missing\t\t".to_string(),
                };
                println!("{}", r);
                std::io::stdout().flush().unwrap();
            }
        }
        "search" => {
            let f = find(&args[2]).expect("entry");
            let mut x: u64 = args[3].parse::<u64>().unwrap().wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
            let n: u64 = args[4].parse().unwrap();
            let mut next = move || {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                x
            };
            for _ in 0..n {
                let values: Vec<u64> = (0..64)
                    .map(|_| {
                        let v = next();
                        // small values pass the range assumptions more often
                        if v & 1 == 0 { (v >> 1) % 8 } else { next() }
                    })
                    .collect();
                outcome(f, &values, &[]);
            }
            for (m, id) in vpq::reached() {
                println!("{} #{}", m, id);
            }
        }
        // N runs on uniform values; prints how often each outcome was seen
        "measure" => {
            let f = find(&args[2]).expect("entry");
            let mut x: u64 = args[3].parse::<u64>().unwrap();
            let n: u64 = args[4].parse().unwrap();
            let mut next = move || {
                x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = x;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^ (z >> 31)
            };
            for _ in 0..n {
                let values: Vec<u64> = (0..64).map(|_| next()).collect();
                outcome(f, &values, &[]);
            }
            for (id, k) in vpq::outcomes() {
                println!("{} {}", id, k);
            }
        }
        _ => std::process::exit(2),
    }
}
