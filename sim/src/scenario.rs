//! A scenario is plain data: problem, options, fault plan, event plan, driving schedule.  One
//! scenario always gives one and the same run.

use crate::problem::{Block, Problem, MAXN};
use crate::{codec_enum, codec_struct};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AlgK {
    Dp5 {},
    Radau {},
}
codec_enum!(AlgK { Dp5 {}, Radau {} });
impl AlgK {
    pub fn is_dp5(self) -> bool {
        self == AlgK::Dp5 {}
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Opts {
    pub reltol: f64,
    pub abstol: f64,
    pub dense: bool,
    /// 0: leave the builder's default
    pub dtstart: f64,
    /// 0: leave the default (unlimited)
    pub dtmax: f64,
    pub max_steps: usize,
    pub max_newt: usize,
    pub max_stiff: usize,
    pub modern: bool,
    pub safe: f64,
    pub facl: f64,
    pub facr: f64,
    pub quot1: f64,
    pub quot2: f64,
    pub beta: f64,
    pub fnewt: f64,
    pub ext: bool,
    pub hess: bool,
    pub theta: f64,
}
codec_struct!(Opts {
    reltol, abstol, dense, dtstart, dtmax, max_steps, max_newt, max_stiff, modern, safe, facl,
    facr, quot1, quot2, beta, fnewt, ext, hess, theta
});

impl Opts {
    pub fn default(alg: AlgK) -> Opts {
        let dp = alg.is_dp5();
        Opts {
            reltol: 1e-3,
            abstol: 1e-7,
            dense: false,
            dtstart: 0.0,
            dtmax: 0.0,
            max_steps: 100000,
            max_newt: 7,
            max_stiff: 1000,
            modern: true,
            safe: 0.9,
            facl: if dp { 0.2 } else { 5.0 },
            facr: if dp { 10.0 } else { 0.125 },
            quot1: 1.0,
            quot2: 1.2,
            beta: 0.04,
            fnewt: 0.0,
            ext: true,
            hess: false,
            theta: 0.001,
        }
    }
    pub fn dtmax_eff(&self) -> f64 {
        if self.dtmax > 0.0 {
            self.dtmax
        } else {
            f64::INFINITY
        }
    }
    pub fn dtstart_eff(&self) -> f64 {
        if self.dtstart > 0.0 {
            self.dtstart
        } else {
            1e-6
        }
    }
    /// (reltol, abstol, fnewt) Radau5 works with.
    pub fn radau_tols(&self) -> (f64, f64, f64) {
        let rt = 0.1 * self.reltol.powf(2.0 / 3.0);
        let at = rt * (self.abstol / self.reltol);
        let fnewt = if self.fnewt > 0.0 {
            self.fnewt
        } else {
            (10.0 * f64::EPSILON / rt).max(0.03f64.min(rt.sqrt()))
        };
        (rt, at, fnewt)
    }
}

/// What a callback (or the owner, between calls) does to the integrator.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Nop {},
    Jump { idx: usize, add: f64 },
    Scale { fac: f64 },
    Negate {},
    Param { block: usize, fac: f64 },
    SetDt { fac: f64 },
    /// tfinal = t + frac * (initial span)
    Horizon { frac: f64 },
    /// tfinal = t
    HorizonHere {},
    Stop {},
    Dtmax { fac: f64 },
    /// both tolerances
    Tol { fac: f64 },
}
codec_enum!(Act {
    Nop {}, Jump { idx, add }, Scale { fac }, Negate {}, Param { block, fac }, SetDt { fac },
    Horizon { frac }, HorizonHere {}, Stop {}, Dtmax { fac }, Tol { fac }
});

impl Act {
    pub fn touches_state(&self) -> bool {
        matches!(self, Act::Jump { .. } | Act::Scale { .. } | Act::Negate {})
    }
    /// Apply to a state; keeps every block inside the domain of its closed-form flow.
    pub fn apply_state(&self, p: &Problem, u: &mut [f64]) {
        if !self.touches_state() {
            return;
        }
        let n = p.n();
        let mut v = [0.0; MAXN];
        p.to_v(u, &mut v);
        let mut o = 0;
        for b in &p.blocks {
            let positive = matches!(b, Block::Logistic { .. } | Block::Blowup { .. });
            for i in o..o + b.dim() {
                match *self {
                    Act::Jump { idx, add } if idx % n == i => {
                        v[i] = if positive { v[i] + add.abs() } else { v[i] + add }
                    }
                    Act::Scale { fac } => v[i] *= fac,
                    Act::Negate {} if !positive => v[i] = -v[i],
                    _ => {}
                }
            }
            o += b.dim();
        }
        let mut w = [0.0; MAXN];
        p.to_u(&v[..n], &mut w);
        u.copy_from_slice(&w[..n]);
    }
    pub fn apply_param(&self, p: &mut Problem) {
        if let Act::Param { block, fac } = *self {
            let k = block % p.blocks.len();
            p.blocks[k].rate(fac);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Event {
    pub at: u64,
    pub act: Act,
}
codec_struct!(Event { at, act });

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Site {
    Rhs {},
    Jac {},
    Cb {},
}
codec_enum!(Site { Rhs {}, Jac {}, Cb {} });

/// Which calls a fault can hit: any, only those at a time other than the step's start (stages of
/// a trial step), or only those at the step's start (derivative/estimate/difference quotients).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum When {
    Any {},
    Trial {},
    Start {},
}
codec_enum!(When { Any {}, Trial {}, Start {} });

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FKind {
    NanOne {},
    NanAll {},
    PosInf {},
    NegInf {},
    Huge { x: f64 },
    /// panic before writing anything
    Panic {},
    /// panic after writing half of the output (true values)
    Torn {},
    /// panic after scribbling NaN over half of the output
    TornNan {},
    JZero {},
    JScale { x: f64 },
    JStale {},
    JSing {},
    JHuge { x: f64 },
    /// makes the real (y = 0) or the complex iteration matrix exactly singular
    JPole { x: f64, y: f64 },
}
codec_enum!(FKind {
    NanOne {}, NanAll {}, PosInf {}, NegInf {}, Huge { x }, Panic {}, Torn {}, TornNan {},
    JZero {}, JScale { x }, JStale {}, JSing {}, JHuge { x }, JPole { x, y }
});
impl FKind {
    pub fn is_panic(&self) -> bool {
        matches!(self, FKind::Panic {} | FKind::Torn {} | FKind::TornNan {})
    }
    pub fn name(&self) -> &'static str {
        match self {
            FKind::NanOne {} => "nan_one",
            FKind::NanAll {} => "nan_all",
            FKind::PosInf {} => "pos_inf",
            FKind::NegInf {} => "neg_inf",
            FKind::Huge { .. } => "huge",
            FKind::Panic {} => "panic",
            FKind::Torn {} => "panic_torn",
            FKind::TornNan {} => "panic_torn_nan",
            FKind::JZero {} => "zero",
            FKind::JScale { .. } => "scaled",
            FKind::JStale {} => "stale",
            FKind::JSing {} => "singular",
            FKind::JHuge { .. } => "huge_jac",
            FKind::JPole { y, .. } => if *y == 0.0 { "pole" } else { "pole_complex" },
        }
    }
}

/// Fires on `len` matching calls, starting with the first matching call of index >= `at`.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub site: Site,
    pub at: u64,
    pub len: u64,
    pub kind: FKind,
    pub comp: usize,
    pub when: When,
}
codec_struct!(Fault { site, at, len, kind, comp, when });

/// Region where every right-hand-side evaluation fails.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wall {
    /// beyond time b (in the direction of integration)
    Time { b: f64, inf: bool },
    /// v-component above / below b
    Above { comp: usize, b: f64, inf: bool },
    Below { comp: usize, b: f64, inf: bool },
}
codec_enum!(Wall { Time { b, inf }, Above { comp, b, inf }, Below { comp, b, inf } });
impl Wall {
    /// Some(inf) when (t, v) lies beyond the wall.
    pub fn hit(&self, dir: f64, t: f64, v: &[f64]) -> Option<bool> {
        let (h, inf) = match *self {
            Wall::Time { b, inf } => ((t - b) * dir > 0.0, inf),
            Wall::Above { comp, b, inf } => (v[comp % v.len()] > b, inf),
            Wall::Below { comp, b, inf } => (v[comp % v.len()] < b, inf),
        };
        if h {
            Some(inf)
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Step { n: u64 },
    Integrate {},
    NextOwned { n: u64 },
    NextMut { n: u64 },
    Poke { act: Act },
}
/// `Op::Step` with this number of steps ends with the first panic.
pub const UNTIL_PANIC: u64 = 1 << 40;
codec_enum!(Op { Step { n }, Integrate {}, NextOwned { n }, NextMut { n }, Poke { act } });

/// Units the integrator works in: its t times `ts` is the problem's time, its u times `us` the
/// problem's state.  Powers of two (or their negatives for `ts`), so that conversions are exact.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Units {
    pub ts: f64,
    pub us: f64,
}
codec_struct!(Units { ts, us });
pub const UNITS: Units = Units { ts: 1.0, us: 1.0 };

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub alg: AlgK,
    pub problem: Problem,
    pub t0: f64,
    pub tf: f64,
    pub u0: Vec<f64>,
    pub opts: Opts,
    pub jac: bool,
    pub cb: bool,
    pub events: Vec<Event>,
    pub faults: Vec<Fault>,
    pub walls: Vec<Wall>,
    pub ops: Vec<Op>,
    pub post: Vec<Op>,
    pub budget: u64,
    pub units: Units,
    /// how the options reach the integrator; 0: by setters, in one fixed order
    pub route: u64,
    /// keep arguments of the calls
    pub trace: bool,
    /// which limits and options a second run changes
    pub vary: u64,
}
codec_struct!(Scenario {
    alg, problem, t0, tf, u0, opts, jac, cb, events, faults, walls, ops, post, budget, units,
    route, trace, vary
});

impl Scenario {
    /// The same scenario, seen by the integrator in other units.
    pub fn in_units(&self, w: Units) -> Scenario {
        let mut s = self.clone();
        s.units = w;
        s.t0 /= w.ts;
        s.tf /= w.ts;
        s.opts.dtstart = s.opts.dtstart_eff() / w.ts.abs();
        s.opts.dtmax /= w.ts.abs();
        s.opts.abstol /= w.us;
        for x in s.u0.iter_mut() {
            *x /= w.us;
        }
        s
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Inter {
    Alone {},
    /// interleave the runs step by step on one thread
    Steps { seed: u64 },
    /// one thread per run, one running at a time, switched at user calls
    Threads { seed: u64, every: u64 },
    /// run 1.. are executed completely inside right-hand-side calls of run 0
    Nested { seed: u64, every: u64 },
    /// repeat run 0 with its first fault moved to every call in lo..=hi
    Sweep { lo: u64, hi: u64 },
    /// run 0 again in other units
    Twin { ts: f64, us: f64 },
}
codec_enum!(Inter {
    Alone {}, Steps { seed }, Threads { seed, every }, Nested { seed, every },
    Sweep { lo, hi }, Twin { ts, us }
});

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub inter: Inter,
    pub runs: Vec<Scenario>,
}
codec_struct!(Case { prop, seed, inter, runs });
