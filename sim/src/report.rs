//! `sim check`: one property, one tier; evidence file, replay file, verdict.

use crate::cases::*;
use crate::*;
use std::process::Command;

/// Cases per tier, sized for about 15 s (quick) and 6 min (thorough) on 8 cores.
fn cases_for(prop: &str, thorough: bool) -> u64 {
    let quick = match prop {
        "C03" => 12_000,
        "C04" => 15_000,
        "C09" => 6_000,
        "C14" => 80_000,
        "C21" => 40_000,
        _ => 120_000,
    };
    if thorough {
        quick * 25
    } else {
        quick
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn map(v: &[(String, u64)]) -> String {
    let mut v = v.to_vec();
    v.sort();
    let x: Vec<String> = v.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
    format!("{{{}}}", x.join(", "))
}

/// Run part of the cases again in other processes with other worker counts.
pub fn determinism(prop: &str, seed: u64, count: u64) -> Result<u64, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut seen: Option<String> = None;
    for th in ["1", "3", "8"] {
        let o = Command::new(&exe)
            .args(["digest", prop, "--seed", &seed.to_string(), "--count", &count.to_string(), "--threads", th])
            .output()
            .map_err(|e| e.to_string())?;
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        if !o.status.success() {
            return Err(format!("digest run failed: {}", s));
        }
        match &seen {
            None => seen = Some(s),
            Some(x) if *x != s => {
                return Err(format!("the same seeds gave different event logs in two processes: {} / {}", x.trim(), s.trim()))
            }
            _ => {}
        }
    }
    Ok(count * 3)
}

pub fn check(prop: &str, seed: u64, threads: usize) -> i32 {
    let start = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let tier = if thorough { "thorough" } else { "quick" };
    let out = arg("--evidence").unwrap_or_else(|| "/verif/evidence".into());
    let replays = arg("--replays").unwrap_or_else(|| "/verif/replays".into());
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let count = num("--count", cases_for(prop, thorough));
    let p = Pool {
        prop: prop.to_string(),
        seed,
        first: 0,
        count,
        threads,
        deadline: Some(start + Duration::from_secs(if thorough { 720 } else { 240 })),
    };
    let a = run_pool(&p, &|s, c| {
        let text = match &c {
            Some(c) => to_text(c),
            None => format!("generate {} {}\n", prop, s),
        };
        let path = write_replay(&replays, prop, s, &text, "the library loops without calling user code");
        println!("the library loops without calling user code");
        println!("VIOLATION property={} replay={}", prop, path);
        std::process::exit(1);
    });
    let mut violation: Option<(u64, String, String)> = None;
    let mut notes = String::new();
    if let Some((_, case, msg)) = &a.viol {
        let small = shrink::shrink(case, 400);
        let o = check_case(&small);
        let (small, msg2) = match o.viol {
            Some(m) => (small, m),
            None => (case.clone(), msg.clone()),
        };
        violation = Some((case.seed, to_text(&small), msg2));
    }
    let mut repeated = 0;
    if violation.is_none() {
        let c = if prop == "C09" { if thorough { 2000 } else { 400 } } else { 100 };
        match determinism(prop, seed, c) {
            Ok(n) => repeated = n,
            Err(e) => {
                if prop == "C09" {
                    violation = Some((seed, format!("digest {} {} {}\n", prop, seed, c), e));
                } else {
                    notes = e;
                }
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let metrics: Vec<String> = {
        let mut v = a.metrics.0.clone();
        v.sort_by(|x, y| x.0.cmp(y.0));
        v.iter().map(|(k, x)| format!("{}: {}", esc(k), if x.is_finite() { format!("{:.6}", x) } else { esc(&format!("{}", x)) })).collect()
    };
    let rule = "case = splitmix64(VERIF_SEED, index) -> explicit scenario (problem with closed-form flow, option swarm, fault plan, event plan, driving schedule); non-trivial = the case actually exercised what the property is about (see DESIGN.md, per property); distinct = different event-log hash (every call with its arguments, every observation)";
    let json = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {},\n  \"seeds_per_hour\": {},\n  \"complete_single_fault_sweeps\": {},\n  \"sweep_positions\": {},\n  \"simulated_time_units\": {:.3},\n  \"recorded_steps\": {},\n  \"user_calls_served\": {},\n  \"injected\": {},\n  \"run_endings\": {},\n  \"distinct_run_shapes\": {},\n  \"shape_measure\": \"hash over operations of (operation kind, right-hand-side calls, Jacobian calls, accepted, rejected, recorded points, return code, panicked), for C09 plus the switching sequence\",\n  \"largest_observed_over_allowed\": {{{}}},\n  \"repeated_in_other_processes\": {},\n  \"real_components\": \"all of cyphus-diffeq as built from /repo (DormandPrince5, Radau5, builder, integrator, iterators, solution, linear algebra)\",\n  \"simulated_components\": \"right-hand side, Jacobian, callback, caller (driving schedule), thread scheduler\"\n }},\n \"assumptions\": [\"problems have a closed-form flow; right-hand sides are pure functions apart from injected faults\", \"scenario bounds as listed in DESIGN.md\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        esc(prop),
        esc(tier),
        seed,
        a.cases,
        a.hashes.len(),
        esc(rule),
        esc(&a.sample.clone().unwrap_or_default()),
        a.runs,
        (a.cases as f64 / wall * 3600.0) as u64,
        a.sweeps,
        a.positions,
        a.sim_time,
        a.steps,
        a.evals,
        map(&a.faults),
        map(&a.ends),
        a.shapes.len(),
        metrics.join(", "),
        repeated,
        wall,
        violation.is_some() as u32,
    );
    let _ = std::fs::create_dir_all(&out);
    if let Err(e) = std::fs::write(format!("{}/{}.json", out, prop), json) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    if let Some((s, text, msg)) = violation {
        let path = write_replay(&replays, prop, s, &text, &msg);
        println!("{}", msg);
        println!("VIOLATION property={} replay={}", prop, path);
        return 1;
    }
    if !notes.is_empty() {
        eprintln!("simulator error: {}", notes);
        return 2;
    }
    println!(
        "property {} held: {} cases, {} distinct non-trivial, {} runs, {} steps, {:.1} s",
        prop,
        a.cases,
        a.hashes.len(),
        a.runs,
        a.steps,
        wall
    );
    0
}
