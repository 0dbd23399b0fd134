//! Seed -> case.  Swarm testing: each case draws its own subset of problem kinds, options, fault
//! kinds, events and driving schedule.

use crate::problem::{Block, Problem};
use crate::rng::Rng;
use crate::run;
use crate::scenario::*;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_n: usize,
    /// probability that options are left at their defaults
    pub plain: f64,
    pub tol_lo: f64,
    pub tol_hi: f64,
    /// bound of growth * span
    pub growth: f64,
    /// allow stiff rates (Radau5)
    pub stiff: bool,
    pub linear_only: bool,
    /// cap on rate * span for non-stiff parts
    pub work: f64,
    pub state_scales: bool,
    /// options that may make progress slow but stay valid
    pub odd_opts: bool,
    /// exact zeros in the initial state
    pub zeros: bool,
    /// factor of the work: long runs
    pub long: f64,
    /// probability that Newton's method gets only two or three iterations (Radau5)
    pub few: f64,
}

pub const BASE: Cfg = Cfg {
    max_n: 8,
    plain: 0.15,
    tol_lo: 1e-9,
    tol_hi: 1e-2,
    growth: 6.0,
    stiff: true,
    linear_only: false,
    work: 200.0,
    state_scales: true,
    odd_opts: false,
    zeros: true,
    long: 1.0,
    few: 0.0,
};

pub fn pick_alg(r: &mut Rng) -> AlgK {
    if r.chance(0.5) {
        AlgK::Dp5 {}
    } else {
        AlgK::Radau {}
    }
}

pub fn gen_opts(r: &mut Rng, alg: AlgK, c: &Cfg, span: f64) -> Opts {
    let mut o = Opts::default(alg);
    o.reltol = r.log(c.tol_lo, c.tol_hi);
    o.abstol = o.reltol * r.log(1e-5, 1.0);
    if r.chance(0.8) {
        o.dtstart = span * r.log(1e-6, 0.1);
        if r.chance(0.1) {
            o.dtstart = span * r.log(0.1, 10.0);
        }
    }
    if r.chance(c.plain) {
        return o;
    }
    let on = |r: &mut Rng| r.chance(0.35);
    if on(r) {
        o.dense = true;
    }
    if on(r) {
        o.dtmax = span * r.log(0.01, 1.0);
    }
    if on(r) {
        o.safe = r.uni(0.5, 0.95);
    }
    if on(r) {
        o.hess = r.chance(0.5);
    }
    if alg.is_dp5() {
        if on(r) {
            o.facl = r.log(0.1, 0.5);
        }
        if on(r) {
            o.facr = r.log(1.5, 10.0);
        }
        if on(r) {
            o.beta = *r.pick(&[0.0, 0.02, 0.08, 0.1]);
        }
        if on(r) {
            o.max_stiff = *r.pick(&[1usize, 2, 7, 100]);
        }
    } else {
        if on(r) {
            o.facl = r.log(2.0, 10.0);
        }
        if on(r) {
            o.facr = r.log(0.1, 0.6);
        }
        if on(r) {
            o.max_newt = r.range(4, 10) as usize;
        }
        if on(r) {
            o.modern = false;
        }
        if on(r) {
            o.ext = false;
        }
        if on(r) {
            o.quot1 = r.uni(0.85, 1.0);
        }
        if on(r) {
            o.quot2 = r.uni(1.0, 1.5);
        }
        if on(r) {
            o.theta = *r.pick(&[1e-4, 1e-2, 0.05]);
        }
        if r.chance(0.2) {
            let (rt, _, _) = o.radau_tols();
            o.fnewt = (20.0 * f64::EPSILON / rt).max(r.log(1e-3, 0.05));
        }
        if r.chance(c.few) {
            o.max_newt = r.range(2, 3) as usize;
        }
        if c.odd_opts {
            if r.chance(0.1) {
                o.max_newt = r.range(1, 3) as usize;
            }
        }
    }
    if c.odd_opts {
        if r.chance(0.1) {
            o.facl = if alg.is_dp5() { 0.8 } else { 1.3 };
        }
        if r.chance(0.1) {
            o.facr = if alg.is_dp5() { 1.2 } else { 0.9 };
        }
        if r.chance(0.1) {
            o.beta = *r.pick(&[0.15, 0.2]);
        }
    }
    o
}

fn gen_block(r: &mut Rng, alg: AlgK, c: &Cfg, dir: f64, span: f64, t0: f64, wmax: f64, dims_left: usize) -> (Block, Vec<f64>) {
    // rate * span for the non-stiff part
    let w = |r: &mut Rng| r.log(0.3f64.min(wmax * 0.5), wmax) / span;
    let stiff = |r: &mut Rng| {
        if c.stiff && !alg.is_dp5() && r.chance(0.5) {
            r.log(10.0, 1e6) / span
        } else {
            r.log(0.1, wmax) / span
        }
    };
    let amp = |r: &mut Rng| r.sign() * r.log(0.05, 5.0);
    loop {
        let k = r.below(9);
        match k {
            0 | 1 => {
                let cc = if r.chance(0.4) { 0.0 } else { amp(r) };
                return (Block::Decay { lam: stiff(r), c: cc }, vec![amp(r)]);
            }
            2 => {
                let b = Block::Forced {
                    lam: stiff(r),
                    a: r.log(0.1, 2.0),
                    w: w(r),
                    phi: r.uni(0.0, 6.0),
                    tc: t0,
                };
                return (b, vec![amp(r)]);
            }
            3 => {
                let a = |r: &mut Rng| r.uni(-2.0, 2.0);
                let b = Block::Poly {
                    c0: a(r) / span,
                    c1: a(r) / span,
                    c2: a(r) / span,
                    c3: a(r) / span,
                    t0,
                    s: span,
                };
                return (b, vec![amp(r)]);
            }
            4 if dims_left >= 2 => {
                let lam = if r.chance(0.4) {
                    0.0
                } else {
                    stiff(r)
                };
                return (Block::Rot { lam, w: r.sign() * w(r) }, vec![amp(r), amp(r)]);
            }
            5 if !c.linear_only => {
                let v = amp(r);
                return (Block::Cubic { a: w(r) / (3.0 * v * v) }, vec![v]);
            }
            6 if !c.linear_only => {
                let k = r.log(0.3, 3.0);
                let rate = r.log(0.05, 1.0) * c.growth.min(wmax) / span;
                return (Block::Logistic { r: rate, k }, vec![k * r.log(0.05, 3.0)]);
            }
            7 if !c.linear_only && dims_left >= 2 => {
                let r0 = r.log(0.3, 3.0);
                let a = r.log(0.05, 1.0) * c.growth.min(wmax) / span;
                let rad = r0 * r.log(0.2, 2.0);
                let ph = r.uni(0.0, 6.28);
                let b = Block::Hopf { a, r0, w: r.sign() * w(r) };
                return (b, vec![rad * ph.cos(), rad * ph.sin()]);
            }
            _ => {
                let _ = dir;
            }
        }
    }
}

pub fn gen_base(r: &mut Rng, alg: AlgK, c: &Cfg) -> Scenario {
    let span = r.log(0.05, 50.0);
    let dir = if r.chance(0.6) { 1.0 } else { -1.0 };
    let t0 = match r.below(10) {
        0..=2 => 0.0,
        3..=5 => r.uni(-2.0, 2.0) * span,
        6 => -dir * span,
        7 => -dir * span * r.uni(0.0, 1.0),
        _ => r.sign() * span * r.log(10.0, 1e4),
    };
    let tf = t0 + dir * span;
    let mut opts = gen_opts(r, alg, c, span);
    let work = c.work * c.long;
    if c.long > 1.0 {
        opts.max_steps = opts.max_steps.max(300_000);
        opts.dtstart = opts.dtstart.min(span / c.long);
    }
    let wmax = work.min(6.0 * work * opts.reltol.powf(0.2)).max(1.0);
    let n = {
        let m = c.max_n as u64;
        if m >= 8 && c.long <= 1.0 && r.chance(0.03) {
            r.range(m + 1, 20) as usize
        } else {
            let a = r.range(1, m);
            let b = r.range(1, m);
            a.min(b) as usize
        }
    };
    let mut blocks = vec![];
    let mut v0 = vec![];
    while v0.len() < n {
        let (b, v) = gen_block(r, alg, c, dir, span, t0, wmax, n - v0.len());
        blocks.push(b);
        v0.extend(v);
    }
    let n = v0.len();
    let zeros = c.zeros && r.chance(0.15);
    if zeros {
        let mut k = 0;
        for b in &blocks {
            if !matches!(b, Block::Logistic { .. } | Block::Hopf { .. }) && r.chance(0.5) {
                v0[k] = 0.0;
            }
            k += b.dim();
        }
    }
    let mut givens = vec![];
    if n > 1 && r.chance(if zeros { 0.2 } else { 0.7 }) {
        for _ in 0..r.range(1, n as u64) {
            let i = r.below(n as u64) as usize;
            let j = (i + 1 + r.below(n as u64 - 1) as usize) % n;
            let th = r.uni(0.0, 6.28);
            givens.push((i, j, th.cos(), th.sin()));
        }
    }
    let mut scale = vec![1.0; n];
    if c.state_scales && r.chance(0.5) {
        let s = if r.chance(0.5) { r.log(1e-6, 1e6) } else { 1.0 };
        let wide = if r.chance(0.25) { 1e4 } else { 100.0 };
        for x in scale.iter_mut() {
            *x = s * if r.chance(0.5) { r.log(1.0 / wide, wide) } else { 1.0 };
        }
    }
    let smin = scale.iter().cloned().fold(f64::INFINITY, f64::min);
    opts.abstol *= smin;
    let problem = Problem { dir, blocks, givens, scale };
    let mut u0 = vec![0.0; n];
    problem.to_u(&v0, &mut u0);
    Scenario {
        alg,
        problem,
        t0,
        tf,
        u0,
        opts,
        jac: r.chance(0.6),
        cb: false,
        events: vec![],
        faults: vec![],
        walls: vec![],
        ops: vec![],
        post: vec![],
        budget: if c.long > 1.0 { 30_000_000 } else { 3_000_000 },
        units: UNITS,
        route: 0,
        trace: false,
        vary: 0,
    }
}

pub struct Dry {
    pub rhs: u64,
    pub jac: u64,
    pub steps: u64,
    pub build_rhs: u64,
    pub build_jac: u64,
}

/// Fault-free run, used only to place faults where they matter.
pub fn dry(sc: &Scenario) -> Dry {
    let mut s = sc.clone();
    s.faults.clear();
    s.events.clear();
    s.walls.clear();
    s.ops.clear();
    s.post.clear();
    s.cb = false;
    s.budget = 200_000;
    match run::execute(&s) {
        Ok(h) => Dry {
            rhs: h.rhs,
            jac: h.jac,
            steps: h.ts.len() as u64 - 1,
            build_rhs: h.build_rhs,
            build_jac: h.build_jac,
        },
        Err(_) => Dry { rhs: 100, jac: 10, steps: 10, build_rhs: 1, build_jac: 1 },
    }
}

/// A call index in [lo, hi]: uniform, early or late.
pub fn place(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    let hi = hi.max(lo + 1);
    let w = hi - lo;
    match r.below(4) {
        0 => lo + r.below(w.min(30)),
        1 => hi - 1 - r.below(w.min(40)),
        _ => lo + r.below(w),
    }
}

/// Transient right-hand-side faults.
pub fn rhs_faults(r: &mut Rng, sc: &Scenario, d: &Dry, count: u64, max_len: u64, huge: bool) -> Vec<Fault> {
    let mut v = vec![];
    for _ in 0..count {
        let fd = !sc.alg.is_dp5() && !sc.jac;
        let kind = match r.below(if huge && !fd { 6 } else { 4 }) {
            0 => FKind::NanOne {},
            1 => FKind::NanAll {},
            2 => FKind::PosInf {},
            3 => FKind::NegInf {},
            _ => FKind::Huge { x: r.sign() * *r.pick(&[1e20, 1e60, 1e150, 1e200, 1e300]) },
        };
        let huge = matches!(kind, FKind::Huge { .. });
        v.push(Fault {
            site: Site::Rhs {},
            at: place(r, d.build_rhs, d.rhs),
            len: 1 + r.below(max_len),
            kind,
            comp: r.below(24) as usize,
            when: if huge { When::Trial {} } else { When::Any {} },
        });
    }
    v
}

/// Panics in right-hand-side calls.
pub fn panic_faults(r: &mut Rng, d: &Dry, count: u64, max_len: u64) -> Vec<Fault> {
    let kinds = [FKind::Panic {}, FKind::Torn {}, FKind::TornNan {}];
    (0..count)
        .map(|_| Fault {
            site: Site::Rhs {},
            at: place(r, d.build_rhs, d.rhs),
            len: 1 + r.below(max_len),
            kind: *r.pick(&kinds),
            comp: 0,
            when: if r.chance(0.4) { When::Start {} } else { When::Any {} },
        })
        .collect()
}

/// `wrong`: also finite but wrong values.
pub fn jac_faults(r: &mut Rng, sc: &Scenario, d: &Dry, count: u64, max_len: u64, wrong: bool) -> Vec<Fault> {
    let mut v = vec![];
    for _ in 0..count {
        let kind = match r.below(9) {
            4 | 5 | 7 if !wrong => FKind::NanOne {},
            0 => FKind::NanOne {},
            1 => FKind::NanAll {},
            2 => FKind::PosInf {},
            3 => FKind::NegInf {},
            4 => FKind::JZero {},
            5 => FKind::JScale { x: r.uni(0.5, 2.0) },
            6 => FKind::JStale {},
            7 => FKind::JScale { x: *r.pick(&[0.5, 2.0]) },
            _ if sc.u0.len() > 1 => FKind::JSing {},
            _ => FKind::NanAll {},
        };
        v.push(Fault {
            site: Site::Jac {},
            at: place(r, 0, d.jac + 1),
            len: 1 + r.below(max_len),
            kind,
            comp: r.below(256) as usize,
            when: When::Any {},
        });
    }
    v
}

/// A Jacobian that makes an iteration matrix exactly singular: the step size it will be used with
/// is known when it is formed at the end of a step.
pub fn pole_fault(r: &mut Rng, sc: &Scenario) -> Option<Fault> {
    let h = run::execute(sc).ok()?;
    let mut v: Vec<(u64, f64)> = vec![];
    for (i, o) in h.obs.iter().enumerate() {
        let before = if i == 0 { 0 } else { h.obs[i - 1].jac };
        let from = o.rhs as usize;
        let c1 = o.t + (4.0 - 6f64.sqrt()) / 10.0 * o.dt;
        let used = h.times[from..(from + 3).min(h.times.len())]
            .iter()
            .any(|x| (x - c1).abs() <= 1e-10 * o.dt.abs() + 4.0 * f64::EPSILON * c1.abs());
        if o.jac > before && used && o.code == run::CONTINUE && !o.panicked {
            v.push((o.jac - 1, o.dt));
        }
    }
    if v.is_empty() {
        return None;
    }
    let &(at, dt) = r.pick(&v);
    let real = sc.u0.len() < 2 || r.chance(0.6);
    Some(Fault {
        site: Site::Jac {},
        at,
        len: 1,
        kind: if real {
            FKind::JPole { x: 3.637834252744496 / dt, y: 0.0 }
        } else {
            FKind::JPole { x: 2.681082873627752 / dt, y: 3.050430199247411 / dt }
        },
        comp: r.below(256) as usize,
        when: When::Any {},
    })
}

pub fn gen_act(r: &mut Rng, horizon: bool) -> Act {
    loop {
        match r.below(12) {
            0 | 1 => return Act::Jump { idx: r.below(24) as usize, add: r.sign() * r.log(0.1, 5.0) },
            2 => return Act::Scale { fac: r.log(0.3, 3.0) },
            3 => return Act::Negate {},
            4 | 5 => return Act::Param { block: r.below(8) as usize, fac: r.log(0.3, 3.0) },
            6 => return Act::SetDt { fac: r.log(0.01, 2.0) },
            7 if horizon => return Act::Horizon { frac: r.log(0.05, 1.5) },
            8 => return Act::Dtmax { fac: r.log(0.05, 1.0) },
            9 => return Act::Nop {},
            10 => return Act::Tol { fac: r.log(0.1, 10.0) },
            _ => {}
        }
    }
}

pub fn gen_events(r: &mut Rng, steps: u64, count: u64, horizon: bool) -> Vec<Event> {
    let mut v: Vec<Event> = vec![];
    for _ in 0..count {
        let at = place(r, 0, steps.max(1));
        if v.iter().all(|e| e.at != at) {
            v.push(Event { at, act: gen_act(r, horizon) });
        }
    }
    v
}

/// A driving schedule: a mixture of every way to advance an integrator.
pub fn gen_ops(r: &mut Rng, steps: u64) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..r.range(1, 6) {
        let n = match r.below(3) {
            0 => 1,
            1 => r.range(1, 5),
            _ => r.range(1, steps.max(2)),
        };
        v.push(match r.below(7) {
            0 | 1 => Op::Step { n },
            2 | 3 => Op::NextOwned { n },
            4 | 5 => Op::NextMut { n },
            _ => Op::Integrate {},
        });
    }
    if r.chance(0.4) {
        v.push(*r.pick(&[
            Op::Integrate {},
            Op::NextOwned { n: u64::MAX },
            Op::NextMut { n: u64::MAX },
        ]));
    }
    v
}

pub fn gen_post(r: &mut Rng) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..r.range(1, 4) {
        let n = r.range(1, 3);
        v.push(match r.below(4) {
            0 => Op::Step { n },
            1 => Op::NextOwned { n },
            2 => Op::NextMut { n },
            _ => Op::Integrate {},
        });
    }
    v
}

/// Environments in which an honest integration cannot succeed.
pub fn make_hostile(r: &mut Rng, sc: &mut Scenario, d: &Dry) {
    let span = sc.tf - sc.t0;
    let dir = sc.problem.dir;
    match r.below(8) {
        0 => {
            // sometimes right at the start, so that no step at all is possible
            let part = if r.chance(0.25) { 0.0 } else { r.uni(0.0, 1.0) };
            sc.walls.push(Wall::Time { b: sc.t0 + part * span, inf: r.chance(0.3) })
        }
        1 => {
            let n = sc.u0.len();
            let mut v = vec![0.0; n];
            sc.problem.to_v(&sc.u0, &mut v);
            let c = r.below(n as u64) as usize;
            let w = r.log(0.01, 2.0);
            sc.walls.push(if r.chance(0.5) {
                Wall::Above { comp: c, b: v[c] + w, inf: r.chance(0.3) }
            } else {
                Wall::Below { comp: c, b: v[c] - w, inf: r.chance(0.3) }
            });
        }
        2 | 3 => {
            let k = [
                FKind::NanOne {},
                FKind::NanAll {},
                FKind::PosInf {},
                FKind::NegInf {},
            ];
            sc.faults.push(Fault {
                site: Site::Rhs {},
                at: place(r, 0, d.rhs),
                len: u64::MAX,
                kind: *r.pick(&k),
                comp: r.below(24) as usize,
                when: if r.chance(0.7) { When::Any {} } else { When::Trial {} },
            });
        }
        4 if !sc.alg.is_dp5() => {
            sc.jac = true;
            let k = [
                FKind::NanOne {},
                FKind::NanAll {},
                FKind::PosInf {},
                FKind::NegInf {},
                FKind::JZero {},
                FKind::JSing {},
            ];
            let mut kind = *r.pick(&k);
            if kind == (FKind::JSing {}) && sc.u0.len() < 2 {
                kind = FKind::NanAll {};
            }
            sc.faults.push(Fault {
                site: Site::Jac {},
                at: place(r, 0, d.jac + 1),
                len: u64::MAX,
                kind,
                comp: r.below(256) as usize,
                when: When::Any {},
            });
        }
        5 => {
            // finite-time blow-up inside (or just outside) the span
            let v0 = r.log(0.3, 3.0);
            let a = r.log(0.8, 20.0) / (v0 * span.abs());
            add_block(sc, Block::Blowup { a }, v0);
        }
        6 => {
            let td = sc.t0 + r.uni(0.05, 0.95) * span;
            let c1 = r.uni(-1.0, 1.0) / span.abs();
            let c2 = r.sign() * r.log(0.1, 1e4) / span.abs();
            add_block(sc, Block::Switch { td, c1, c2 }, 1.0);
        }
        _ => {
            sc.opts.max_steps = r.range(1, d.steps.max(2)) as usize;
            if r.chance(0.4) {
                // just enough, or just not enough
                sc.opts.max_steps = (d.steps + r.below(4)).max(2) as usize - 1;
            }
        }
    }
    let _ = dir;
}

/// Append an unmixed scalar block.
pub fn add_block(sc: &mut Scenario, b: Block, v0: f64) {
    sc.problem.blocks.push(b);
    let s = sc.problem.scale[0];
    sc.problem.scale.push(s);
    sc.u0.push(v0 * s);
}
