//! Per property: how a case is generated from a seed, and how its runs are judged.

use crate::env::fnv;
use crate::gen::*;
use crate::inter;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::scenario::*;

pub const PROPS: [&str; 23] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
    "C28",
];

/// Result of judging one case.
#[derive(Default)]
pub struct Out {
    pub viol: Option<String>,
    /// true when the case exercised what the property is about
    pub nontrivial: bool,
    pub runs: u64,
    pub steps: u64,
    pub evals: u64,
    pub sim_time: f64,
    /// complete single-fault sweeps and their positions
    pub sweeps: u64,
    pub positions: u64,
    pub hash: u64,
    pub shape: u64,
    pub faults: Vec<(String, u64)>,
    pub ends: Vec<(String, u64)>,
    pub metrics: Metrics,
}

impl Out {
    pub fn bump(v: &mut Vec<(String, u64)>, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        for e in v.iter_mut() {
            if e.0 == k {
                e.1 += n;
                return;
            }
        }
        v.push((k.to_string(), n));
    }
    pub fn add(&mut self, sc: &Scenario, h: &Hist) {
        self.runs += 1;
        self.steps += h.ts.len() as u64 - 1;
        self.evals += h.rhs + h.jac;
        self.sim_time += (h.ts.last().unwrap() - h.ts[0]).abs();
        self.hash = fnv(self.hash, h.hash);
        self.shape = fnv(self.shape, h.shape);
        for f in &h.fired {
            let site = match f.site {
                Site::Rhs {} => "rhs",
                Site::Jac {} => "jacobian",
                Site::Cb {} => "callback",
            };
            Out::bump(&mut self.faults, &format!("{}:{}", site, f.kind.name()), 1);
        }
        Out::bump(&mut self.faults, "rhs:wall", h.wall_hits);
        for s in &h.starts {
            let name = format!("{:?}", s.act);
            let name = name.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_lowercase();
            let who = if s.by_cb { "event" } else { "poke" };
            Out::bump(&mut self.faults, &format!("{}:{}", who, name), 1);
        }
        let e = if h.end == End::Done { code_name(h.code()) } else { "aborted" };
        Out::bump(&mut self.ends, &format!("{}:{}", if sc.alg.is_dp5() { "dp5" } else { "radau5" }, e), 1);
    }
}

pub fn gen_case(prop: &str, seed: u64) -> Case {
    let idx = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    let mut r = Rng::new(mix(seed, idx));
    let r = &mut r;
    let alg = pick_alg(r);
    let mut inter = Inter::Alone {};
    let mut c = BASE;
    // long runs, with thousands of steps
    let mut l = Rng::new(mix(seed, idx + 1));
    if l.chance(0.004) {
        c.long = l.log(5.0, 100.0);
    }
    if !matches!(prop, "C05" | "C14" | "C15" | "C23") {
        c.few = 0.15;
    }
    let mut runs = vec![];
    if r.chance(0.01) && prop != "C09" && prop < "C21" {
        if let Some((s, i)) = gen_sweep(prop, r, alg) {
            return Case { prop: prop.to_string(), seed, inter: i, runs: vec![s] };
        }
    }
    match prop {
        "C01" => {
            if r.chance(0.1) {
                c.max_n = 12;
            }
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            let k = r.range(1, 4);
            let len = if r.chance(0.3) { 12 } else { 3 };
            s.faults = rhs_faults(r, &s, &d, k, len, false);
            if r.chance(0.3) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
            }
            runs.push(s);
        }
        "C02" => {
            c.linear_only = r.chance(0.5);
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            if r.chance(0.8) {
                let k = r.range(1, 4);
                s.faults = rhs_faults(r, &s, &d, k, 3, false);
                for f in s.faults.iter_mut() {
                    if r.chance(0.6) {
                        f.when = When::Start {};
                    }
                    if r.chance(0.2) {
                        f.at = r.below(d.build_rhs + 8);
                    }
                }
            }
            if r.chance(0.2) {
                s.cb = true;
                s.events = { let k = r.range(1, 3); gen_events(r, d.steps, k, true) };
            }
            runs.push(s);
        }
        "C03" => {
            c.work = 50.0;
            c.odd_opts = true;
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            if r.chance(0.5) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 8, true);
                if r.chance(0.3) {
                    for f in s.faults.iter_mut() {
                        f.at = r.below(d.build_rhs + 10);
                    }
                }
            }
            if r.chance(0.5) {
                if !alg.is_dp5() && r.chance(0.5) {
                    s.jac = true;
                    let k = r.range(1, 3);
                    let l = if r.chance(0.3) { u64::MAX - 1 } else { 4 };
                    let mut v = jac_faults(r, &s, &d, k, l, true);
                    s.faults.append(&mut v);
                }
            }
            if r.chance(0.7) {
                make_hostile(r, &mut s, &d);
                s.opts.max_steps = s.opts.max_steps.min(4000);
            }
            runs.push(s);
        }
        "C04" => {
            c.work = 50.0;
            c.odd_opts = true;
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            for _ in 0..r.range(1, 2) {
                make_hostile(r, &mut s, &d);
            }
            if r.chance(0.3) {
                let k = r.range(1, 3);
                let mut v = rhs_faults(r, &s, &d, k, 20, true);
                for f in v.iter_mut() {
                    f.when = When::Any {};
                }
                s.faults.append(&mut v);
            }
            if !alg.is_dp5() && r.chance(0.3) {
                s.jac = true;
                let k = r.range(1, 3);
                let mut v = jac_faults(r, &s, &d, k, u64::MAX - 1, true);
                if r.chance(0.3) {
                    v[0].kind = FKind::JHuge { x: r.sign() * r.log(1e5, 1e300) };
                }
                s.faults.append(&mut v);
            }
            if r.chance(0.05) {
                s.tf = s.t0;
            }
            if r.chance(0.1) {
                s.opts.dtstart = r.log(1e-300, 1e-20);
            }
            if r.chance(0.05) {
                s.opts.dtstart = r.log(1e3, 1e300);
            }
            if r.chance(0.2) {
                s.cb = true;
                s.events = { let k = r.range(1, 3); gen_events(r, d.steps, k, true) };
                if r.chance(0.2) {
                    s.events.push(Event { at: r.below(d.steps + 1), act: Act::HorizonHere {} });
                }
            }
            s.opts.max_steps = s.opts.max_steps.min(r.range(100, 1500) as usize);
            s.budget = 10_000_000;
            s.ops = match r.below(4) {
                0 => vec![Op::Integrate {}],
                1 => vec![Op::NextOwned { n: u64::MAX }],
                2 => vec![Op::NextMut { n: u64::MAX }],
                _ => vec![],
            };
            runs.push(s);
        }
        "C05" => {
            let mut s = gen_base(r, alg, &c);
            s.jac |= coarse_quotients(&s.problem);
            // bursts must not push the step size to rounding level of the time
            let span = (s.tf - s.t0).abs();
            if s.t0.abs() > 10.0 * span && s.opts.dtstart < 1e-3 * span {
                s.opts.dtstart = span * r.log(1e-3, 0.1);
            }
            let d = dry(&s);
            if r.chance(0.85) {
                let k = r.range(1, 3);
                let fd = !alg.is_dp5() && !s.jac;
                s.faults = rhs_faults(r, &s, &d, k, if fd { 5 } else { 8 }, false);
                if fd {
                    // bursts hit whole difference quotients: keep them apart as well
                    let mut at = s.faults[0].at;
                    for f in s.faults.iter_mut() {
                        f.at = at;
                        at += 40 + r.below(100);
                    }
                }
                if !alg.is_dp5() && s.jac && r.chance(0.4) {
                    // separate bursts, each shorter than what Radau5 takes as final
                    let mut v = jac_faults(r, &s, &d, 6, 2, false);
                    let at = place(r, 0, d.jac + 1);
                    for (i, f) in v.iter_mut().enumerate() {
                        f.at = at + 6 * i as u64;
                    }
                    s.faults.append(&mut v);
                }
            }
            runs.push(s);
        }
        "C06" => {
            c.work = 60.0;
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            if r.chance(0.65) {
                make_hostile(r, &mut s, &d);
                s.opts.max_steps = s.opts.max_steps.min(4000);
            }
            if r.chance(0.3) {
                let k = r.range(1, 3);
                let mut v = rhs_faults(r, &s, &d, k, 8, true);
                s.faults.append(&mut v);
            }
            if r.chance(0.3) {
                s.cb = true;
                s.events = { let k = r.range(1, 3); gen_events(r, d.steps, k, true) };
                if r.chance(0.4) {
                    s.events = vec![Event {
                        at: r.below(d.steps + 1),
                        act: *r.pick(&[
                            Act::Stop {},
                            Act::HorizonHere {},
                            Act::Horizon { frac: 0.3 },
                            Act::Horizon { frac: 1e-3 },
                            Act::Horizon { frac: -0.1 },
                        ]),
                    }];
                }
            }
            if r.chance(0.2) {
                s.ops = gen_ops(r, d.steps);
                if r.chance(0.3) {
                    s.ops.insert(1, Op::Poke { act: Act::Horizon { frac: r.log(0.05, 1.5) } });
                }
            }
            if r.chance(0.05) {
                s.tf = s.t0;
            }
            runs.push(s);
        }
        "C07" => {
            c.work = 60.0;
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            s.ops = gen_ops(r, d.steps);
            s.post = gen_post(r);
            if r.chance(0.5) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 6, false);
            }
            if r.chance(0.35) {
                make_hostile(r, &mut s, &d);
                for f in s.faults.iter_mut() {
                    f.when = When::Any {};
                }
                s.opts.max_steps = s.opts.max_steps.min(4000);
            }
            if r.chance(0.35) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
                if r.chance(0.3) {
                    s.events.push(Event { at: r.below(d.steps + 1), act: Act::Stop {} });
                }
            }
            if r.chance(0.04) {
                s.tf = s.t0;
            }
            runs.push(s);
        }
        "C08" => {
            c.work = 80.0;
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            s.cb = r.chance(0.4);
            let kinds = [FKind::Panic {}, FKind::Torn {}, FKind::TornNan {}];
            for _ in 0..r.range(1, 4) {
                let (site, at) = match r.below(if s.cb { 5 } else { 4 }) {
                    3 if !alg.is_dp5() && s.jac => {
                        (Site::Jac {}, d.build_jac + place(r, 0, d.jac.max(d.build_jac + 1) - d.build_jac))
                    }
                    4 => (Site::Cb {}, place(r, 0, d.steps)),
                    _ => (Site::Rhs {}, place(r, d.build_rhs, d.rhs)),
                };
                s.faults.push(Fault {
                    site,
                    at,
                    // (five failed Jacobians in a row are a legitimate SingularMatrix)
                    len: if site == (Site::Jac {}) || r.chance(0.8) { 1 } else { r.range(2, 4) },
                    kind: *r.pick(&kinds),
                    comp: 0,
                    when: if site == (Site::Rhs {}) && r.chance(0.25) { When::Start {} } else { When::Any {} },
                });
            }
            if r.chance(0.25) {
                let mut v = rhs_faults(r, &s, &d, 1, 3, false);
                s.faults.append(&mut v);
            }
            if !alg.is_dp5() && !s.jac {
                // likewise for difference quotients: never five spoilt ones in a row
                s.faults.truncate(2);
                s.faults.sort_by_key(|f| f.at);
                let mut at = 0;
                for f in s.faults.iter_mut().filter(|f| f.site == Site::Rhs {}) {
                    f.len = f.len.min(2);
                    f.at = f.at.max(at);
                    at = f.at + 60;
                }
            }
            if r.chance(0.4) {
                s.ops = gen_ops(r, d.steps);
            }
            if s.cb && r.chance(0.3) {
                s.events = { let k = r.range(1, 3); gen_events(r, d.steps, k, false) };
            }
            runs.push(s);
        }
        "C09" => {
            c.work = 20.0;
            c.max_n = 4;
            let k = r.range(2, 4);
            for i in 0..k {
                let alg = if i == 1 && r.chance(0.5) { alg } else { pick_alg(r) };
                let mut s = gen_base(r, alg, &c);
                let d = dry(&s);
                if r.chance(0.4) {
                    let k = r.range(1, 2);
                    s.faults = rhs_faults(r, &s, &d, k, 4, false);
                }
                if r.chance(0.15) {
                    make_hostile(r, &mut s, &d);
                    s.opts.max_steps = s.opts.max_steps.min(500);
                }
                if r.chance(0.3) {
                    s.cb = true;
                    s.events = { let k = r.range(1, 3); gen_events(r, d.steps, k, true) };
                }
                runs.push(s);
            }
            let seed = r.u64();
            inter = match r.below(3) {
                0 => Inter::Steps { seed },
                1 => Inter::Threads { seed, every: r.range(1, 7) },
                _ => Inter::Nested { seed, every: r.range(5, 60) },
            };
        }
        "C10" => {
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            s.cb = r.chance(0.85);
            if s.cb {
                s.events = { let k = r.range(1, 6); gen_events(r, d.steps, k, true) };
                match r.below(8) {
                    0 => s.events.push(Event { at: r.below(d.steps + 1), act: Act::Stop {} }),
                    1 => s.events.push(Event { at: r.below(d.steps + 1), act: Act::HorizonHere {} }),
                    _ => {}
                }
            }
            if !s.cb || r.chance(0.2) {
                for _ in 0..r.range(1, 3) {
                    s.ops.push(Op::Step { n: r.range(1, d.steps.max(2)) });
                    let act = loop {
                        let a = gen_act(r, true);
                        if !matches!(a, Act::Param { .. }) {
                            break a;
                        }
                    };
                    s.ops.push(Op::Poke { act });
                }
            } else if r.chance(0.4) {
                s.ops = gen_ops(r, d.steps);
            }
            if r.chance(0.3) {
                s.faults = { let k = r.range(1, 2); rhs_faults(r, &s, &d, k, 3, false) };
            }
            if r.chance(0.1) {
                s.opts.max_steps = r.range(1, d.steps.max(2)) as usize;
            }
            if r.chance(0.1) {
                s.walls.push(Wall::Time { b: s.t0 + r.uni(0.1, 0.9) * (s.tf - s.t0), inf: false });
            }
            runs.push(s);
        }
        "C11" => {
            c.work = 80.0;
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            if r.chance(0.5) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 8, true);
            }
            if r.chance(0.25) {
                make_hostile(r, &mut s, &d);
                s.opts.max_steps = s.opts.max_steps.min(4000);
            }
            if r.chance(0.35) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
            }
            if r.chance(0.5) {
                s.ops = gen_ops(r, d.steps);
                if r.chance(0.3) {
                    s.ops.insert(1, Op::Poke { act: Act::Jump { idx: 0, add: 0.5 } });
                }
            }
            if r.chance(0.3) {
                s.post = gen_post(r);
            }
            runs.push(s);
        }
        "C12" => {
            c.work = 80.0;
            let mut s = gen_base(r, alg, &c);
            s.trace = !alg.is_dp5() && r.chance(0.5);
            let d = dry(&s);
            if r.chance(0.6) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 10, true);
            }
            if !alg.is_dp5() && s.jac && r.chance(0.3) {
                let k = r.range(1, 3);
                let mut v = jac_faults(r, &s, &d, k, 3, true);
                s.faults.append(&mut v);
            }
            if r.chance(0.25) {
                make_hostile(r, &mut s, &d);
                s.opts.max_steps = s.opts.max_steps.min(4000);
            }
            if r.chance(0.3) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
            }
            if r.chance(0.25) {
                s.ops = gen_ops(r, d.steps);
            }
            if r.chance(0.2) {
                s.post = gen_post(r);
            }
            if r.chance(0.15) {
                let kinds = [FKind::Panic {}, FKind::Torn {}];
                s.faults.push(Fault {
                    site: Site::Rhs {},
                    at: place(r, d.build_rhs, d.rhs),
                    len: 1,
                    kind: *r.pick(&kinds),
                    comp: 0,
                    when: When::Any {},
                });
            }
            runs.push(s);
        }
        "C13" => {
            c.plain = 0.05;
            c.work = 80.0;
            let mut s = gen_base(r, alg, &c);
            if r.chance(0.4) {
                s.opts.dtmax = (s.tf - s.t0).abs() * r.log(0.005, 0.5);
            }
            if r.chance(0.3) {
                s.opts.dtstart = (s.tf - s.t0).abs() * r.log(1e-4, 0.3);
            }
            let d = dry(&s);
            if r.chance(0.6) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 8, false);
            }
            if r.chance(0.2) {
                s.cb = true;
                s.events = { let k = r.range(1, 3); gen_events(r, d.steps, k, true) };
            }
            if r.chance(0.2) {
                s.ops = gen_ops(r, d.steps);
            }
            runs.push(s);
        }
        "C14" => {
            let alg = AlgK::Radau {};
            if r.chance(0.3) {
                c.max_n = 1;
                c.linear_only = true;
            }
            let mut s = gen_base(r, alg, &c);
            s.jac = r.chance(0.75);
            let d = dry(&s);
            if s.jac {
                let k = r.range(1, 4);
                let l = *r.pick(&[1, 3, 10, u64::MAX - 1]);
                s.faults = jac_faults(r, &s, &d, k, l, true);
                for f in s.faults.iter_mut() {
                    if wrong_jac(f) {
                        f.at = 0;
                        f.len = u64::MAX;
                        s.opts.max_steps = 1500;
                    }
                }
                if l > 100 && r.chance(0.7) {
                    s.opts.max_steps = 3000;
                }
            } else if r.chance(0.5) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 3, false);
                for f in s.faults.iter_mut() {
                    if r.chance(0.7) {
                        f.when = When::Start {};
                    }
                }
            }
            runs.push(s);
        }
        "C15" => {
            c.growth = 2.5;
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            if r.chance(0.7) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 6, false);
            }
            if !alg.is_dp5() && s.jac && r.chance(0.2) {
                let mut v = jac_faults(r, &s, &d, 1, 2, false);
                s.faults.append(&mut v);
            }
            if r.chance(0.4) {
                s.cb = true;
                s.events = { let k = r.range(1, 3); gen_events(r, d.steps, k, true) };
            }
            if r.chance(0.3) {
                s.faults.push(Fault {
                    site: Site::Rhs {},
                    at: place(r, d.build_rhs, d.rhs),
                    len: 1,
                    kind: *r.pick(&[FKind::Panic {}, FKind::Torn {}, FKind::TornNan {}]),
                    comp: 0,
                    when: When::Any {},
                });
            }
            if r.chance(0.4) {
                s.ops = gen_ops(r, d.steps);
            }
            runs.push(s);
        }
        "C21" => {
            c.work = 60.0;
            c.odd_opts = r.chance(0.3);
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            if r.chance(0.5) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 6, false);
            }
            if !alg.is_dp5() && s.jac && r.chance(0.2) {
                let mut v = jac_faults(r, &s, &d, 1, 3, true);
                s.faults.append(&mut v);
            }
            if r.chance(0.15) {
                make_hostile(r, &mut s, &d);
                s.opts.max_steps = s.opts.max_steps.min(300);
            }
            if r.chance(0.4) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
            }
            if r.chance(0.2) {
                s.faults.push(Fault {
                    site: Site::Rhs {},
                    at: place(r, d.build_rhs, d.rhs),
                    len: 1,
                    kind: *r.pick(&[FKind::Panic {}, FKind::Torn {}, FKind::TornNan {}]),
                    comp: 0,
                    when: When::Any {},
                });
            }
            if r.chance(0.2) {
                s.ops = gen_ops(r, d.steps);
            }
            let pow = |r: &mut Rng| 2f64.powi(r.range(1, 60) as i32 - 30);
            let mut ts = if r.chance(0.6) { pow(r) } else { 1.0 };
            if r.chance(0.6) {
                ts = -ts;
            }
            // (the increments of difference quotients do not scale with the state)
            let us = if (alg.is_dp5() || s.jac) && r.chance(0.6) { pow(r) } else { 1.0 };
            inter = Inter::Twin { ts, us };
            runs.push(s);
        }
        "C22" => {
            c.plain = 0.05;
            c.work = 80.0;
            let trace = !alg.is_dp5() && r.chance(0.6);
            c.linear_only = !alg.is_dp5() && !trace;
            if !trace {
                // the iterations must suffice
                c.few = 0.0;
            }
            let mut s = gen_base(r, alg, &c);
            s.jac = !trace || r.chance(0.6);
            s.trace = trace;
            let d = dry(&s);
            if r.chance(0.5) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 6, false);
            }
            if trace && s.jac && r.chance(0.4) {
                let k = r.range(1, 3);
                let mut v = jac_faults(r, &s, &d, k, 3, true);
                s.faults.append(&mut v);
            }
            if r.chance(0.25) {
                let k = r.range(1, 4);
                let mut v = panic_faults(r, &d, k, 3);
                s.faults.append(&mut v);
            }
            if r.chance(0.4) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
                s.events.retain(|e| !c.linear_only || !matches!(e.act, Act::Param { .. }));
            }
            if r.chance(0.2) {
                for _ in 0..r.range(1, 3) {
                    s.ops.push(Op::Step { n: r.range(1, d.steps.max(2)) });
                    let act = loop {
                        let a = gen_act(r, true);
                        if !matches!(a, Act::Param { .. }) {
                            break a;
                        }
                    };
                    s.ops.push(Op::Poke { act });
                }
            }
            runs.push(s);
        }
        "C23" | "C24" => {
            let alg = if prop == "C23" { AlgK::Radau {} } else { alg };
            c.work = 80.0;
            c.max_n = 12;
            c.linear_only = prop == "C23";
            let mut s = gen_base(r, alg, &c);
            s.jac = r.chance(0.7);
            s.trace = prop == "C23" && r.chance(0.4);
            let d = dry(&s);
            if r.chance(0.7) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 6, false);
            }
            if !alg.is_dp5() && s.jac && r.chance(0.4) {
                let mut v = jac_faults(r, &s, &d, 1, 3, false);
                s.faults.append(&mut v);
            }
            if r.chance(0.4) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
                s.events.retain(|e| prop == "C24" || !matches!(e.act, Act::Param { .. }));
            }
            if r.chance(0.2) {
                s.ops = gen_ops(r, d.steps);
            }
            runs.push(s);
        }
        "C25" => {
            c.plain = 0.2;
            c.work = 40.0;
            let mut s = gen_base(r, alg, &c);
            if r.chance(0.3) {
                s.opts.reltol = 1e-3;
            }
            if r.chance(0.3) {
                s.opts.abstol = 1e-7;
            }
            let d = dry(&s);
            if r.chance(0.4) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 6, false);
            }
            if !alg.is_dp5() && s.jac && r.chance(0.3) {
                let mut v = jac_faults(r, &s, &d, 1, 3, true);
                s.faults.append(&mut v);
            }
            if r.chance(0.4) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
            }
            if r.chance(0.1) {
                s.opts.max_steps = r.range(1, d.steps.max(2)) as usize;
            }
            if r.chance(0.3) {
                s.ops = gen_ops(r, d.steps);
            }
            s.route = r.u64() | 1;
            runs.push(s);
        }
        "C28" => {
            c.work = 80.0;
            c.plain = 0.1;
            let mut s = gen_base(r, alg, &c);
            let d = dry(&s);
            if r.chance(0.5) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 6, false);
                if r.chance(0.3) {
                    let mut v = panic_faults(r, &d, 1, 1);
                    s.faults.append(&mut v);
                }
            }
            if !alg.is_dp5() && s.jac && r.chance(0.3) {
                let mut v = jac_faults(r, &s, &d, 1, 3, true);
                s.faults.append(&mut v);
            }
            if r.chance(0.3) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
            }
            // some of the changes at a time
            s.vary = r.u64();
            if r.chance(0.7) {
                s.vary &= !crate::vary::ALL | r.u64();
            }
            runs.push(s);
        }
        "C26" | "C27" => {
            let alg = if prop == "C27" { AlgK::Radau {} } else { alg };
            c.work = 60.0;
            c.linear_only = r.chance(if prop == "C27" { 0.1 } else { 0.3 });
            let mut s = gen_base(r, alg, &c);
            s.jac = r.chance(0.6);
            s.trace = true;
            if r.chance(0.2) {
                s.opts.max_newt = r.range(2, 4) as usize;
            }
            let d = dry(&s);
            if r.chance(0.5) {
                let k = r.range(1, 3);
                s.faults = rhs_faults(r, &s, &d, k, 6, false);
            }
            if !alg.is_dp5() && r.chance(0.5) {
                let k = r.range(1, 3);
                let mut v = jac_faults(r, &s, &d, k, 3, true);
                s.faults.append(&mut v);
            }
            if r.chance(0.2) {
                let k = r.range(1, 3);
                let mut v = panic_faults(r, &d, k, 1);
                s.faults.append(&mut v);
            }
            if r.chance(0.3) {
                s.cb = true;
                s.events = { let k = r.range(1, 4); gen_events(r, d.steps, k, true) };
            }
            if r.chance(0.2) {
                s.ops = gen_ops(r, d.steps);
                s.ops.retain(|o| !matches!(o, Op::Integrate {}));
            }
            runs.push(s);
        }
        _ => panic!("no property {}", prop),
    }
    // large systems are expensive to follow call by call
    if matches!(prop, "C22" | "C23" | "C26" | "C27") {
        for s in runs.iter_mut().filter(|s| s.trace && s.u0.len() > 8) {
            s.opts.max_steps = s.opts.max_steps.min(15_000);
        }
    }
    // user code panics in some step, and the owner then changes the state
    if prop == "C10" && l.chance(0.05) {
        let s = &mut runs[0];
        let d = dry(s);
        if d.rhs > d.build_rhs + 8 {
            s.cb = false;
            s.events.clear();
            s.faults = panic_faults(&mut l, &d, 1, 1);
            s.ops = vec![Op::Step { n: UNTIL_PANIC }];
            for _ in 0..l.range(1, 2) {
                let act = loop {
                    let a = gen_act(&mut l, true);
                    if !matches!(a, Act::Param { .. }) {
                        break a;
                    }
                };
                s.ops.push(Op::Poke { act });
            }
        }
    }
    // user code panics in the last step, and the owner then moves the end or takes smaller steps
    if prop == "C06" && l.chance(0.05) {
        let s = &mut runs[0];
        let d = dry(s);
        if d.steps >= 2 && d.rhs > d.build_rhs + 8 {
            s.cb = false;
            s.events.clear();
            s.walls.clear();
            s.faults = vec![Fault {
                site: Site::Rhs {},
                at: d.rhs - 1 - l.below(8),
                len: 1,
                kind: *l.pick(&[FKind::Panic {}, FKind::Torn {}]),
                comp: 0,
                when: When::Any {},
            }];
            let act = if l.chance(0.5) {
                Act::Horizon { frac: l.log(0.05, 1.5) }
            } else {
                Act::SetDt { fac: l.log(0.01, 0.5) }
            };
            s.ops = vec![Op::Step { n: UNTIL_PANIC }, Op::Poke { act }];
        }
    }
    // an exactly singular iteration matrix
    if matches!(prop, "C03" | "C04" | "C06" | "C12" | "C14" | "C22" | "C26" | "C27") {
        let s = &mut runs[0];
        let usable = !s.alg.is_dp5() && s.jac && (prop != "C22" || s.trace);
        if usable && l.chance(0.15) {
            if let Some(f) = pole_fault(&mut l, s) {
                // first, so that it fires in the call it is meant for
                s.faults.insert(0, f);
            }
        }
    }
    Case { prop: prop.to_string(), seed, inter, runs }
}

/// The increment of a difference quotient is proportional to the root of the state: coarse for big
/// states, and when states of very different magnitude depend on each other.
fn coarse_quotients(p: &crate::problem::Problem) -> bool {
    let big = p.scale.iter().cloned().fold(0.0, f64::max);
    let small = p.scale.iter().cloned().fold(f64::INFINITY, f64::min);
    big > 1e5 || big > 1e3 * small
}

/// The effort without faults says little when it jumps with minute changes of the tolerances, as
/// it does when the rounding error of difference quotients decides on Newton's convergence.
fn erratic(c: &Scenario, out: &mut Out, rhs: u64) -> Result<bool, String> {
    let (mut lo, mut hi) = (rhs, rhs);
    for k in 1..=8 {
        let mut s = c.clone();
        s.opts.reltol *= 1.0 + 0.01 * k as f64;
        s.opts.abstol *= 1.0 + 0.01 * k as f64;
        let h = exec(&s, out, false)?;
        lo = lo.min(h.rhs);
        hi = hi.max(h.rhs);
    }
    Ok(hi > 3 * lo)
}

/// The error of difference quotients is of no importance for Newton's method.
fn exact_quotients(sc: &Scenario, h: &Hist) -> bool {
    let p = &sc.problem;
    let rate = p.blocks.iter().map(|b| b.size()).fold(0.0, f64::max);
    let big = p.scale.iter().cloned().fold(0.0, f64::max);
    let small = p.scale.iter().cloned().fold(f64::INFINITY, f64::min);
    let state = h.us.iter().flatten().fold(0.0, |a: f64, x| a.max(x.abs()));
    let noise = EPS * state / (EPS * 1e-5).sqrt() * big / small;
    p.linear() && noise * rate * (sc.tf - sc.t0).abs() < 0.01
}

/// A small scenario whose single fault visits every call.
fn gen_sweep(prop: &str, r: &mut Rng, alg: AlgK) -> Option<(Scenario, Inter)> {
    let mut c = BASE;
    c.work = 8.0;
    c.max_n = 3;
    c.tol_lo = 1e-6;
    if prop == "C15" {
        c.growth = 2.5;
    }
    let alg = if prop == "C14" { AlgK::Radau {} } else { alg };
    let mut s = gen_base(r, alg, &c);
    if prop == "C14" {
        s.jac = true;
    }
    let radau_jac = !alg.is_dp5() && s.jac;
    let span = (s.tf - s.t0).abs();
    if s.t0.abs() > 10.0 * span && s.opts.dtstart < 1e-3 * span {
        s.opts.dtstart = span * r.log(1e-3, 0.1);
    }
    let d = dry(&s);
    if d.rhs > 500 || d.steps < 3 {
        return None;
    }
    if matches!(prop, "C08" | "C10" | "C12") && r.chance(0.5) || prop == "C10" {
        s.cb = true;
        s.events = gen_events(r, d.steps, 1, false);
    }
    if matches!(prop, "C07" | "C11" | "C12") && r.chance(0.5) || prop == "C07" {
        s.ops = gen_ops(r, d.steps);
    }
    let soft = [FKind::NanOne {}, FKind::NanAll {}, FKind::PosInf {}, FKind::NegInf {}];
    let hard = [FKind::Panic {}, FKind::Torn {}, FKind::TornNan {}];
    let panics = prop == "C08" || (matches!(prop, "C12" | "C15") && r.chance(0.3));
    let mut kind = *r.pick(if panics { &hard[..] } else { &soft[..] });
    let (site, lo, hi) = if prop == "C14" || (radau_jac && r.chance(0.2)) {
        if prop == "C14" && r.chance(0.3) {
            kind = FKind::JStale {};
        }
        (Site::Jac {}, d.build_jac, d.jac)
    } else if panics && s.cb && r.chance(0.2) {
        (Site::Cb {}, 0, d.steps)
    } else {
        (Site::Rhs {}, d.build_rhs, d.rhs)
    };
    // from that call on for ever, where an honest failure is allowed
    let persistent = matches!(prop, "C03" | "C04" | "C06" | "C11" | "C12") && !panics && r.chance(0.5);
    if persistent {
        s.opts.max_steps = 2000;
    }
    s.faults.push(Fault {
        site,
        at: lo,
        len: if persistent { u64::MAX } else { r.range(1, 2) },
        kind,
        comp: r.below(24) as usize,
        when: When::Any {},
    });
    Some((s, Inter::Sweep { lo, hi }))
}

/// The case of a sweep with its fault at one call.
pub fn at_call(case: &Case, at: u64) -> Case {
    let mut c = case.clone();
    c.inter = Inter::Alone {};
    c.runs[0].faults[0].at = at;
    c
}

/// A finite but wrong Jacobian.
fn wrong_jac(f: &Fault) -> bool {
    matches!(f.kind, FKind::JZero {} | FKind::JScale { .. } | FKind::JPole { .. })
}

fn exec(sc: &Scenario, out: &mut Out, iters: bool) -> Result<Hist, String> {
    match execute_with(sc, None, iters) {
        Ok(h) => {
            out.add(sc, &h);
            Ok(h)
        }
        Err(e) => Err(format!("building the integrator failed: {:?}", e)),
    }
}

fn clean(sc: &Scenario) -> Scenario {
    let mut s = sc.clone();
    s.faults.clear();
    s.walls.clear();
    s
}

pub fn check_case(case: &Case) -> Out {
    let mut out = Out::default();
    let r = judge(case, &mut out);
    // a panic injected while building reaches the caller, as it should
    out.viol = r.err().filter(|e| !e.contains("fault in build"));
    out
}

fn judge(case: &Case, out: &mut Out) -> Res {
    let mut m = Metrics::default();
    let r = judge_inner(case, out, &mut m);
    out.metrics = m;
    r
}

/// Constants of the bounded-liveness oracle.
pub const A_WORK: f64 = 4.0;
pub const B_WORK: f64 = 1500.0;
pub const C_WORK: f64 = 500.0;

fn judge_inner(case: &Case, out: &mut Out, m: &mut Metrics) -> Res {
    let prop = case.prop.as_str();
    if let Inter::Sweep { lo, hi } = case.inter {
        let mut any = false;
        for at in lo..=hi {
            judge_inner(&at_call(case, at), out, m)
                .map_err(|e| format!("with the fault at call {}: {}", at, e))?;
            out.positions += 1;
            any |= out.nontrivial;
        }
        out.nontrivial = any;
        out.sweeps += 1;
        return Ok(());
    }
    let sc = &case.runs[0];
    // a Jacobian that does not belong to the problem in force
    let badj = sc.faults.iter().any(|f| f.site == Site::Jac {})
        || sc.events.iter().any(|e| matches!(e.act, Act::Param { .. }));
    match prop {
        "C01" | "C02" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = !h.fired.is_empty() && h.ts.len() > 2;
            let f = if prop == "C01" {
                Fid { step: true, bad_jac: badj, ..Fid::default() }
            } else {
                Fid { test: true, bad_jac: badj, ..Fid::default() }
            };
            fidelity(sc, &h, f, m)
        }
        "C03" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = !h.fired.is_empty() || h.wall_hits > 0;
            finite(sc, &h)
        }
        "C04" => {
            let h = exec(sc, out, false)?;
            out.nontrivial = !h.fired.is_empty() || h.wall_hits > 0 || h.code() != SUCCESS;
            terminates(sc, &h)
        }
        "C05" => {
            let c = clean(sc);
            let h0 = exec(&c, out, false)?;
            sane_end(&h0)?;
            ensure!(
                h0.code() == SUCCESS,
                "fault-free run of a well-posed problem ended with {}",
                code_name(h0.code())
            );
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = !h.fired.is_empty();
            ensure!(
                h.code() == SUCCESS,
                "ended with {} at t {:?} although the faults were transient ({} fired)",
                code_name(h.code()),
                h.last().t,
                h.fired.len()
            );
            let n = sc.u0.len() as f64;
            let per = if sc.alg.is_dp5() || sc.jac { 1.0 } else { 1.0 + n };
            let bursts = sc.faults.len() as f64;
            let lim = A_WORK * h0.rhs as f64 + (B_WORK * bursts + C_WORK) * per;
            if h.rhs as f64 > lim && erratic(&c, out, h0.rhs)? {
                out.nontrivial = false;
                return Ok(());
            }
            m.put("work / allowed", h.rhs as f64 / lim);
            ensure!(
                h.rhs as f64 <= lim,
                "{} evaluations with {} bursts of faults, {} without",
                h.rhs,
                bursts,
                h0.rhs
            );
            Ok(())
        }
        "C06" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = true;
            codes(sc, &h)?;
            stalled(sc, &h, m)
        }
        "C07" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            let mut s = sc.clone();
            s.ops.clear();
            s.post.clear();
            let h0 = exec(&s, out, false)?;
            sane_end(&h0)?;
            out.nontrivial = h.obs.iter().any(|o| o.op != OpK::Step) && h.ts.len() > 1;
            same_outcome(&h, &h0)?;
            yields(&h)?;
            absorbing(&h)
        }
        "C08" => {
            let mut c = sc.clone();
            c.faults.retain(|f| !f.kind.is_panic());
            let h0 = exec(&c, out, false)?;
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.panics() > 0;
            after_panic(sc, &h)?;
            ensure!(
                h.code() == h0.code(),
                "resumed run ended with {}, without panics {}",
                code_name(h.code()),
                code_name(h0.code())
            );
            for k in 1..h.ts.len() {
                ensure!(
                    (h.ts[k] - h.ts[k - 1]) * sc.problem.dir > 0.0,
                    "point {} duplicates or precedes its predecessor",
                    k
                );
            }
            fidelity(sc, &h, Fid { step: true, bad_jac: true, ..Fid::default() }, m)?;
            let tl = *h.ts.last().unwrap();
            if h.code() == SUCCESS {
                ensure!(
                    (tl - h.last().tfinal).abs() <= 4.0 * EPS * sc.t0.abs().max(sc.tf.abs()),
                    "resumed run ends at {:?} instead of {:?}",
                    tl,
                    sc.tf
                );
            }
            Ok(())
        }
        "C09" => inter::judge(case, out),
        "C10" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = !h.starts.is_empty();
            if sc.cb {
                callbacks(sc, &h)?;
            }
            fidelity(sc, &h, Fid { step: true, test: true, bad_jac: true, ..Fid::default() }, m)?;
            if h.code() == SUCCESS {
                codes(sc, &h)?;
            }
            Ok(())
        }
        "C11" => {
            let h = exec(sc, out, true)?;
            sane_end(&h)?;
            out.nontrivial = h.ts.len() > 2;
            well_formed(sc, &h, m)
        }
        "C12" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.ts.len() > 2;
            counters(sc, &h, m)
        }
        "C13" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.ts.len() > 2;
            step_limits(sc, &h, m)
        }
        "C14" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = !h.fired.is_empty() || !sc.jac;
            // Radau5 judges its iteration by the decrease of weighted norms, which can mislead it now
            // and then when the Jacobian is finite but wrong
            let wrong = sc.faults.iter().any(wrong_jac);
            let f = Fid { step: true, bad_jac: badj, wrong_jac: wrong, ..Fid::default() };
            if !sc.faults.iter().any(|f| f.kind == FKind::JZero {}) {
                fidelity(sc, &h, f, m)?;
            }
            codes(sc, &h)?;
            if !sc.jac {
                // price of difference quotients
                if coarse_quotients(&sc.problem) {
                    return Ok(());
                }
                let mut a = clean(sc);
                let hf = exec(&a, out, false)?;
                sane_end(&hf)?;
                a.jac = true;
                let ha = exec(&a, out, false)?;
                sane_end(&ha)?;
                ensure!(
                    hf.code() == ha.code(),
                    "without a Jacobian the run ends with {}, with it {}",
                    code_name(hf.code()),
                    code_name(ha.code())
                );
                // linear right-hand sides have exact quotients up to rounding
                let exact = exact_quotients(sc, &ha);
                let steps = ha.stats().steps as f64;
                let q = hf.stats().steps as f64 / if exact { 2.0 * steps + 10.0 } else { 4.0 * steps + 150.0 };
                m.put(
                    if exact { "steps (exact quotients) / allowed" } else { "steps without Jacobian / allowed" },
                    q,
                );
                ensure!(
                    q <= 1.0,
                    "{} steps without a Jacobian, {} with it",
                    hf.stats().steps,
                    ha.stats().steps
                );
            }
            Ok(())
        }
        "C15" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.code() == SUCCESS && h.ts.len() > 2;
            if h.code() == SUCCESS {
                global_error(sc, &h, m)?;
            }
            Ok(())
        }
        "C21" => {
            let Inter::Twin { ts, us } = case.inter else {
                return Err("case without other units".into());
            };
            let w = Units { ts, us };
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            // (numbers that underflow do not scale)
            let tiny = |x: &f64| *x != 0.0 && x.abs() < 1e-270;
            if h.us.iter().flatten().any(tiny) || h.last().dt.abs() < 1e-270 {
                return Ok(());
            }
            let h1 = exec(&sc.in_units(w), out, false)?;
            out.nontrivial = h.ts.len() > 2;
            twin(&h, &h1, w)
        }
        "C22" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.ts.len() > 2;
            controller(sc, &h, m)
        }
        "C23" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.ts.len() > 2;
            newton(sc, &h, m)?;
            if sc.trace {
                crate::trace::points(sc, &h, m)?;
            }
            Ok(())
        }
        "C24" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.ts.len() > 2;
            economy(sc, &h, m)
        }
        "C25" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            let mut s0 = sc.clone();
            s0.route = 0;
            let h0 = exec(&s0, out, false)?;
            out.nontrivial = h.ts.len() > 2;
            crate::route::check(&s0, &h0.opts)?;
            crate::route::check(sc, &h.opts)?;
            same_outcome(&h0, &h)?;
            ensure!(h.hash == h0.hash, "the run depends on how the options were given");
            Ok(())
        }
        "C28" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            let s = crate::vary::varied(sc, &h);
            let g = exec(&s, out, false)?;
            sane_end(&g)?;
            out.nontrivial = h.ts.len() > 2 && s != *sc;
            crate::vary::unaffected(sc, &h, &s, &g, m)
        }
        "C26" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.ts.len() > 2;
            crate::trace::points(sc, &h, m)
        }
        "C27" => {
            let h = exec(sc, out, false)?;
            sane_end(&h)?;
            out.nontrivial = h.ts.len() > 2;
            crate::trace::radau_trace(sc, &h, m, false, &mut vec![])
        }
        _ => Err("unknown property".into()),
    }
}
