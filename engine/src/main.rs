#![allow(dead_code)]
mod exec;
mod expr;
mod ir;
mod mem;
mod mono;
mod real;
mod z3;

use exec::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn finding(f: &Finding) -> String {
    let nums = |v: &[u64]| {
        v.iter()
            .map(|x| format!("\"{}\"", x))
            .collect::<Vec<_>>()
            .join(",")
    };
    format!(
        "{{\"kind\":{},\"msg\":{},\"values\":[{}],\"inputs\":{},\"observed\":[{}],\"expect\":{}}}",
        js(f.kind),
        js(&f.msg),
        f.values.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","),
        js(&f.inputs),
        nums(&f.observed),
        f.expect.as_ref().map_or("null".into(), |s| js(s))
    )
}

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(real_main)
        .unwrap();
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let mut lls = vec![];
    let mut entry = String::new();
    let mut out = String::new();
    let mut prefix = String::new();
    let mut rlimit = 200_000_000u32;
    let mut slow = None;
    let mut real_log = false;
    let mut no_real = false;
    let mut o = Opts {
        ite: 16,
        max_instr: 60_000_000,
        max_secs: 600.0,
        shard: (0, 1),
        seed: 1,
        samples: 20,
        stop_first: false,
        trace: false,
        fp_free: false,
    };
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => lls.push(v()),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--prefix" => prefix = v(),
            "--ite" => o.ite = v().parse().unwrap(),
            "--max-instr" => o.max_instr = v().parse().unwrap(),
            "--max-secs" => o.max_secs = v().parse().unwrap(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--rlimit" => rlimit = v().parse().unwrap(),
            "--real-log" => real_log = true,
            "--no-real" => no_real = true,
            "--slow" => slow = Some(v().parse().unwrap()),
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                o.shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--stop-first" => o.stop_first = true,
            "--trace" => o.trace = true,
            _ => {
                eprintln!("unknown option {}", a);
                return 2;
            }
        }
    }
    let t0 = std::time::Instant::now();
    let mut mods = vec![];
    for l in &lls {
        match ir::Module::load(l) {
            Ok(m) => mods.push(m),
            Err(e) => {
                eprintln!("vpsym: {}", e);
                return 2;
            }
        }
    }
    let seed = o.seed as u32;
    let mut z = z3::Z3::new(seed, rlimit);
    z.slow_log = slow;
    z.real_log = real_log;
    z.no_real = no_real;
    let mut x = Exec::new(mods, z, o);
    if let Err(e) = x.start(&entry) {
        eprintln!("vpsym: {}", e);
        *x.res.errors.entry(e).or_insert(0) += 1;
    }
    // what was executed
    let mut lines: std::collections::BTreeMap<String, std::collections::BTreeSet<u32>> =
        Default::default();
    let mut funcs: std::collections::BTreeSet<String> = Default::default();
    for (mi, s) in x.seen.iter().enumerate() {
        for (k, on) in s.iter().enumerate() {
            if *on {
                let mut d = Some(k as u32);
                while let Some(n) = d {
                    if let Some((f, file, line)) = x.mods[mi].locate(n) {
                        if !prefix.is_empty() && file.starts_with(&prefix) {
                            let short = file[prefix.len()..].trim_start_matches('/').to_string();
                            funcs.insert(format!("{} {}", short, f));
                            lines.entry(short).or_default().insert(line);
                        }
                    }
                    d = x.mods[mi].inlined_at(n);
                }
            }
        }
    }
    let r = &x.res;
    let zs = &x.z.stats;
    let list = |v: &[Finding]| v.iter().map(finding).collect::<Vec<_>>().join(",\n  ");
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        m.iter()
            .map(|(k, v)| format!("{}:{}", js(k), v))
            .collect::<Vec<_>>()
            .join(",")
    };
    let s = format!(
        "{{\"entry\":{},\"wall\":{:.3},\"complete\":{},\"paths\":{},\"expected_panics\":{},\"dropped\":{},\"forks\":{},\"steps\":{},\"max_depth\":{},\"checks_solver\":{},\"checks_folded\":{},\"uninit\":{},\"terms\":{},\n \"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"fp_queries\":{},\"real_unsat\":{},\"real_sat\":{},\"time\":{:.3},\"max_time\":{:.3},\"version\":{}}},\n \"findings\":[{}],\n \"errors\":{{{}}},\n \"covers\":[{}],\n \"reach\":{{{}}},\n \"outcomes\":{{{}}},\n \"checks\":{{{}}},\n \"samples\":[{}],\n \"functions\":[{}],\n \"lines\":{{{}}}}}\n",
        js(&entry),
        t0.elapsed().as_secs_f64(),
        !r.incomplete,
        r.completed,
        r.panicked_expected,
        r.dropped,
        r.forks,
        r.steps,
        r.max_depth,
        r.checks_solver,
        r.checks_folded,
        r.uninit,
        x.p.nodes.len(),
        zs.queries, zs.sat, zs.unsat, zs.unknown, zs.cache_hits, zs.model_hits, zs.fp_queries, zs.real_unsat, zs.real_sat, zs.time, zs.max_time,
        js(&z3::Z3::version()),
        list(&r.findings),
        map(&r.errors),
        r.covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(","),
        map(&r.reach),
        r.outcomes.iter().map(|(k, v)| format!("\"{}\":[{},{},{},{}]", k, v.0, v.1, v.2, v.3)).collect::<Vec<_>>().join(","),
        map(&r.check_msgs),
        list(&r.samples),
        funcs.iter().map(|c| js(c)).collect::<Vec<_>>().join(","),
        lines
            .iter()
            .map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(","),
    );
    if out.is_empty() {
        print!("{}", s);
    } else if let Err(e) = std::fs::write(&out, s) {
        eprintln!("vpsym: {}", e);
        return 2;
    }
    0
}
