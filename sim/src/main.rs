//! Deterministic simulation of cyphus-diffeq integrators with fault injection.

mod cases;
mod codec;
mod env;
mod gen;
mod inter;
mod oracle;
mod problem;
mod refmodel;
mod report;
mod rng;
mod route;
mod run;
mod scenario;
mod shrink;
mod trace;
mod vary;

use cases::*;
use codec::{Codec, R, W};
use scenario::Case;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn to_text(c: &Case) -> String {
    let mut w = W(String::new());
    c.put(&mut w);
    w.0
}

pub fn from_text(s: &str) -> Result<Case, String> {
    let body: String = s.lines().filter(|l| !l.starts_with('#')).collect::<Vec<_>>().join("\n");
    if let Some(rest) = body.trim().strip_prefix("generate ") {
        let mut it = rest.split_whitespace();
        let p = it.next().unwrap_or("").to_string();
        let seed: u64 = it.next().unwrap_or("").parse().map_err(|_| "bad seed".to_string())?;
        return Ok(gen_case(&p, seed));
    }
    Case::get(&mut R::new(&body))
}

#[derive(Default)]
pub struct Agg {
    pub cases: u64,
    pub nontrivial: u64,
    pub runs: u64,
    pub steps: u64,
    pub evals: u64,
    pub sim_time: f64,
    pub sweeps: u64,
    pub positions: u64,
    pub digest: u64,
    pub hashes: HashSet<u64>,
    pub shapes: HashSet<u64>,
    pub faults: Vec<(String, u64)>,
    pub ends: Vec<(String, u64)>,
    pub metrics: oracle::Metrics,
    pub viol: Option<(u64, Case, String)>,
    pub sample: Option<String>,
    /// longest case: seconds, seed
    pub slowest: (f64, u64),
}

impl Agg {
    fn merge(&mut self, o: Agg) {
        if o.slowest.0 > self.slowest.0 {
            self.slowest = o.slowest;
        }
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        self.runs += o.runs;
        self.steps += o.steps;
        self.evals += o.evals;
        self.sim_time += o.sim_time;
        self.sweeps += o.sweeps;
        self.positions += o.positions;
        self.digest ^= o.digest;
        self.hashes.extend(o.hashes);
        self.shapes.extend(o.shapes);
        for (k, n) in o.faults {
            Out::bump(&mut self.faults, &k, n);
        }
        for (k, n) in o.ends {
            Out::bump(&mut self.ends, &k, n);
        }
        self.metrics.merge(&o.metrics);
        match (&self.viol, &o.viol) {
            (None, Some(_)) => self.viol = o.viol,
            (Some(a), Some(b)) if b.0 < a.0 => self.viol = o.viol,
            _ => {}
        }
        if self.sample.is_none() {
            self.sample = o.sample;
        }
    }
}

/// What each worker is busy with, for the hang monitor.
struct Slot {
    tid: AtomicU64,
    index: AtomicU64,
    busy: AtomicBool,
    case: Mutex<Option<Case>>,
}

fn cpu_ticks(path: &str) -> u64 {
    let Ok(s) = std::fs::read_to_string(path) else { return 0 };
    let Some(p) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|x| x.to_str().map(|x| x.to_string())))
        .and_then(|x| x.parse().ok())
        .unwrap_or(0)
}

/// CPU seconds one case may use before it counts as hanging; the slowest honest case needs < 8 s.
const HANG_THREAD_S: u64 = 90;
const HANG_PROC_S: u64 = 600;

pub struct Pool {
    pub prop: String,
    pub seed: u64,
    pub first: u64,
    pub count: u64,
    pub threads: usize,
    pub deadline: Option<Instant>,
}

/// Run `count` cases on a worker pool.  The aggregate does not depend on the number of workers.
pub fn run_pool(p: &Pool, on_hang: &(dyn Fn(u64, Option<Case>) + Sync)) -> Agg {
    let next = AtomicU64::new(0);
    let found = AtomicU64::new(u64::MAX);
    let done = AtomicBool::new(false);
    let total = Mutex::new(Agg::default());
    let slots: Vec<Slot> = (0..p.threads)
        .map(|_| Slot {
            tid: AtomicU64::new(0),
            index: AtomicU64::new(0),
            busy: AtomicBool::new(false),
            case: Mutex::new(None),
        })
        .collect();
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..p.threads {
            let (next, found, total, slot) = (&next, &found, &total, &slots[w]);
            hs.push(s.spawn(move || {
                slot.tid.store(own_tid(), Ordering::SeqCst);
                let mut a = Agg::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= p.count || i > found.load(Ordering::SeqCst) {
                        break;
                    }
                    if let Some(d) = p.deadline {
                        if Instant::now() > d {
                            break;
                        }
                    }
                    let seed = rng::mix(p.seed, p.first + i);
                    *slot.case.lock().unwrap() = None;
                    slot.index.store(seed, Ordering::SeqCst);
                    slot.busy.store(true, Ordering::SeqCst);
                    let begun = Instant::now();
                    let case = gen_case(&p.prop, seed);
                    *slot.case.lock().unwrap() = Some(case.clone());
                    let o = check_case(&case);
                    slot.busy.store(false, Ordering::SeqCst);
                    let took = begun.elapsed().as_secs_f64();
                    if took > a.slowest.0 {
                        a.slowest = (took, seed);
                    }
                    a.cases += 1;
                    a.runs += o.runs;
                    a.steps += o.steps;
                    a.evals += o.evals;
                    a.sim_time += o.sim_time;
                    a.sweeps += o.sweeps;
                    a.positions += o.positions;
                    a.digest ^= rng::mix(seed, env::fnv(o.hash, o.viol.is_some() as u64));
                    if o.nontrivial {
                        a.nontrivial += 1;
                        a.hashes.insert(o.hash);
                        a.shapes.insert(o.shape);
                        if i < 64 && a.sample.is_none() {
                            a.sample = Some(to_text(&case));
                        }
                    }
                    for (k, n) in o.faults {
                        Out::bump(&mut a.faults, &k, n);
                    }
                    for (k, n) in o.ends {
                        Out::bump(&mut a.ends, &k, n);
                    }
                    a.metrics.merge(&o.metrics);
                    if let Some(v) = o.viol {
                        found.fetch_min(i, Ordering::SeqCst);
                        if a.viol.as_ref().map(|x| i < x.0).unwrap_or(true) {
                            a.viol = Some((i, case, v));
                        }
                    }
                }
                total.lock().unwrap().merge(a);
            }));
        }
        let mon = {
            let (slots, done) = (&slots, &done);
            s.spawn(move || {
                let mut last: Vec<(u64, u64, u64)> = vec![(0, 0, 0); slots.len()];
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(100));
                    for (k, sl) in slots.iter().enumerate() {
                        if !sl.busy.load(Ordering::SeqCst) {
                            last[k] = (0, 0, 0);
                            continue;
                        }
                        let ix = sl.index.load(Ordering::SeqCst);
                        let tid = sl.tid.load(Ordering::SeqCst);
                        let tc = cpu_ticks(&format!("/proc/self/task/{}/stat", tid));
                        let pc = cpu_ticks("/proc/self/stat");
                        if last[k].0 != ix {
                            last[k] = (ix, tc, pc);
                        } else if tc > last[k].1 + 100 * HANG_THREAD_S
                            || pc > last[k].2 + 100 * HANG_PROC_S * slots.len() as u64
                        {
                            let c = sl.case.lock().unwrap().clone();
                            on_hang(ix, c);
                        }
                    }
                }
            })
        };
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
        let _ = mon.join();
    });
    total.into_inner().unwrap()
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}

/// Any seed text is usable; integers mean themselves.
fn seed_of(s: &str) -> u64 {
    let s = s.trim();
    if let Ok(x) = s.parse::<u64>() {
        return x;
    }
    if let Ok(x) = s.parse::<i64>() {
        return x as u64;
    }
    s.bytes().fold(0xcbf29ce484222325, |h, b| env::fnv(h, b as u64)) >> 1
}

fn write_replay(dir: &str, prop: &str, seed: u64, text: &str, msg: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{}.replay", dir, prop, seed);
    let head: String = msg.lines().map(|l| format!("# {}\n", l)).collect();
    let _ = std::fs::write(&path, format!("{}{}", head, text));
    path
}

fn main() {
    // injected panics use resume_unwind and never get here; others are reported by the oracles
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let threads = num("--threads", std::thread::available_parallelism().map(|n| n.get().min(8)).unwrap_or(4) as u64) as usize;
    let seed = seed_of(&arg("--seed").unwrap_or_else(|| "1".into()));
    match cmd {
        "check" => {
            let prop = args[2].clone();
            std::process::exit(report::check(&prop, seed, threads));
        }
        "replay" => {
            let path = args[2].clone();
            let text = match std::fs::read_to_string(&path) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("{}: {}", path, e);
                    std::process::exit(2);
                }
            };
            let prop = arg_prop(&text);
            let p2 = path.clone();
            let stop = Arc::new(AtomicBool::new(false));
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(100));
                if cpu_ticks("/proc/self/stat") > 100 * (HANG_THREAD_S + 5) {
                    println!("hangs without calling user code");
                    println!("VIOLATION property={} replay={}", prop, p2);
                    std::process::exit(1);
                }
                if stop.load(Ordering::SeqCst) {
                    return;
                }
            });
            let body: Vec<&str> = text.lines().filter(|l| !l.starts_with('#')).collect();
            if let Some(l) = body.iter().find(|l| l.starts_with("digest ")) {
                let w: Vec<&str> = l.split_whitespace().collect();
                match report::determinism(w[1], w[2].parse().unwrap(), w[3].parse().unwrap()) {
                    Ok(_) => println!("property {} holds on these cases", w[1]),
                    Err(e) => {
                        println!("{}", e);
                        println!("VIOLATION property={} replay={}", w[1], path);
                        std::process::exit(1);
                    }
                }
                return;
            }
            let case = match from_text(&text) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("{}: {}", path, e);
                    std::process::exit(2);
                }
            };
            let o = check_case(&case);
            println!("event log {:016x}", o.hash);
            match o.viol {
                Some(m) => {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", case.prop, path);
                    std::process::exit(1);
                }
                None => println!("property {} holds on this case", case.prop),
            }
        }
        // combined digest of many runs, for comparing processes and worker counts
        "digest" => {
            let p = Pool {
                prop: args[2].clone(),
                seed,
                first: num("--first", 0),
                count: num("--count", 200),
                threads,
                deadline: None,
            };
            let a = run_pool(&p, &|i, _| {
                println!("hang in case {}", i);
                std::process::exit(3);
            });
            println!("{:016x} {}", a.digest, a.cases);
        }
        "calib" => {
            let t = Instant::now();
            let p = Pool {
                prop: args[2].clone(),
                seed,
                first: num("--first", 0),
                count: num("--count", 2000),
                threads,
                deadline: None,
            };
            let a = run_pool(&p, &|i, _| {
                println!("hang in case {}", i);
                std::process::exit(3);
            });
            println!(
                "{} cases {} nontrivial {} distinct {} shapes {} runs {} steps {} evals {:.1}s",
                a.cases,
                a.nontrivial,
                a.hashes.len(),
                a.shapes.len(),
                a.runs,
                a.steps,
                a.evals,
                t.elapsed().as_secs_f64()
            );
            for (k, x) in &a.metrics.0 {
                println!("  {:<45} {:.4}", k, x);
            }
            println!("  slowest case {:.2} s (seed {})", a.slowest.0, a.slowest.1);
            println!("  faults {:?}", a.faults);
            println!("  ends {:?}", a.ends);
            if let Some((i, c, v)) = a.viol {
                println!("violation in case {} (seed {}): {}", i, c.seed, v);
                if arg("--shrink").is_some() {
                    let c = shrink::shrink(&c, 400);
                    let o = check_case(&c);
                    println!("{}\n{}", o.viol.unwrap_or_default(), to_text(&c));
                    let _ = std::fs::write("/tmp/last.replay", to_text(&c));
                }
            }
        }
        // what happened, step by step, in the runs of a replay file
        "explain" => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let case = from_text(&text).expect("replay file");
            for (i, sc) in case.runs.iter().enumerate() {
                println!("run {}", i);
                match run::execute(sc) {
                    Ok(h) => print!("{}", oracle::explain(sc, &h)),
                    Err(e) => println!("{:?}", e),
                }
            }
        }
        "one" => {
            let case = gen_case(&args[2], seed);
            println!("{}", to_text(&case));
            let o = check_case(&case);
            println!("{:?}", o.viol);
        }
        _ => {
            eprintln!("usage: sim check|replay|explain|digest|calib|one ...");
            std::process::exit(2);
        }
    }
}

fn arg_prop(text: &str) -> String {
    for l in text.lines() {
        let mut it = l.split_whitespace();
        match it.next() {
            Some("prop:") | Some("generate") => return it.next().unwrap_or("?").to_string(),
            _ => {}
        }
    }
    "?".to_string()
}
