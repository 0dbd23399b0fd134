//! Limits that do not bind and options that do not apply: the same scenario with some of them changed.

use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::scenario::*;

const TF: u64 = 1;
const MAX_STEPS: u64 = 2;
const DTMAX: u64 = 4;
const DENSE: u64 = 8;
const HESS: u64 = 16;
const MAX_STIFF: u64 = 32;
const FOREIGN: u64 = 64;
const JAC: u64 = 128;
const WATCH: u64 = 256;
pub const ALL: u64 = 511;

/// Which changes of `sc.vary` apply.
fn applicable(sc: &Scenario) -> u64 {
    let dp = sc.alg.is_dp5();
    let mut k = sc.vary & ALL;
    let has = |f: &dyn Fn(&Act) -> bool| sc.events.iter().any(|e| f(&e.act));
    // (in units of the interval, or of a step size that may have been cut already)
    if has(&|a| matches!(a, Act::Horizon { .. } | Act::Dtmax { .. } | Act::SetDt { .. })) {
        k &= !TF;
    }
    if sc.opts.dtmax != 0.0 || has(&|a| matches!(a, Act::Dtmax { .. })) {
        k &= !DTMAX;
    }
    if !dp {
        k &= !(JAC | WATCH);
    }
    // (the calls of a watching callback's step would shift the faults)
    if !sc.faults.is_empty() || !sc.events.is_empty() || !sc.walls.is_empty() {
        k &= !WATCH;
    }
    k
}

/// The changed scenario; `h` is the run of the unchanged one.
pub fn varied(sc: &Scenario, h: &Hist) -> Scenario {
    let k = applicable(sc);
    let mut r = Rng::new(sc.vary ^ 0x5eed);
    let mut s = sc.clone();
    let dp = sc.alg.is_dp5();
    let (f, m, st) = (r.log(1e-3, 100.0), r.u64(), r.range(1, 20) as usize);
    if k & TF != 0 {
        s.tf = sc.tf + (sc.tf - sc.t0) * f;
    }
    if k & MAX_STEPS != 0 {
        s.opts.max_steps = 1 + (m % (2 * h.stats().steps + 2)) as usize;
    }
    if k & DTMAX != 0 {
        let big = h.obs.iter().fold(0.0, |a: f64, o| a.max(o.dt.abs()));
        let grow = sc.opts.facr.max(1.0 / sc.opts.facr).max(sc.opts.quot2);
        s.opts.dtmax = 2.0 * grow * big;
    }
    if k & DENSE != 0 {
        s.opts.dense = !sc.opts.dense;
    }
    if k & HESS != 0 {
        s.opts.hess = !sc.opts.hess;
    }
    if k & MAX_STIFF != 0 {
        s.opts.max_stiff = st;
    }
    if k & FOREIGN != 0 {
        if dp {
            s.opts.max_newt = r.range(1, 12) as usize;
            s.opts.modern = r.chance(0.5);
            s.opts.ext = r.chance(0.5);
            s.opts.quot1 = r.uni(0.5, 1.0);
            s.opts.quot2 = r.uni(1.0, 1.5);
            s.opts.fnewt = r.log(1e-6, 1e-1);
            s.opts.theta = r.log(1e-6, 1e-1);
        } else {
            s.opts.beta = r.uni(0.0, 0.2);
        }
    }
    if k & JAC != 0 {
        s.jac = !sc.jac;
    }
    if k & WATCH != 0 {
        s.cb = !sc.cb;
    }
    s
}

/// C28: run `b` of the changed scenario `s` equals run `a`, as far as both go.
pub fn unaffected(sc: &Scenario, a: &Hist, s: &Scenario, b: &Hist, m: &mut Metrics) -> Res {
    let k = applicable(sc);
    let same_point = |i: usize| a.ts[i].to_bits() == b.ts[i].to_bits() && bits_eq(&a.us[i], &b.us[i]);
    let reach = 1.03 * sc.opts.quot2.max(1.0) / sc.opts.quot1.min(1.0);
    let mut seen = 0;
    for (i, (x, y)) in a.obs.iter().zip(&b.obs).enumerate() {
        for p in seen..x.npts.min(y.npts) {
            ensure!(
                same_point(p),
                "point {} differs: {:?} {:?}, with the changed options {:?} {:?}",
                p, a.ts[p], a.us[p], b.ts[p], b.us[p]
            );
        }
        seen = x.npts.min(y.npts);
        // the step limit ends one of them
        if k & MAX_STEPS != 0 && (x.code == MAXITERS || y.code == MAXITERS) && x.code != y.code {
            m.put("#cut by the step limit", 1.0);
            return Ok(());
        }
        ensure!(
            x.npts == y.npts && x.t.to_bits() == y.t.to_bits() && bits_eq(&x.u, &y.u),
            "operation {}: state {:?} {:?}, with the changed options {:?} {:?}",
            i, x.t, x.u, y.t, y.u
        );
        // the end comes into view
        if k & TF != 0 && !(y.dt.abs() * reach < (sc.tf - y.t).abs()) {
            m.put("#followed to the nearer end", 1.0);
            return Ok(());
        }
        ensure!(
            x.code == y.code && x.dt.to_bits() == y.dt.to_bits() && x.panicked == y.panicked,
            "operation {}: code {}, step size {:?}, with the changed options {}, {:?}",
            i, code_name(x.code), x.dt, code_name(y.code), y.dt
        );
        if k & WATCH == 0 {
            ensure!(
                x.stats == y.stats && (x.rhs, x.jac) == (y.rhs, y.jac),
                "operation {}: {:?}, {} calls, with the changed options {:?}, {} calls",
                i, x.stats, x.rhs, y.stats, y.rhs
            );
        }
    }
    ensure!(
        a.obs.len() == b.obs.len() && a.ts.len() == b.ts.len(),
        "{} points, with the changed options {}",
        a.ts.len(), b.ts.len()
    );
    m.put(if s == sc { "#unchanged" } else { "#followed to the end" }, 1.0);
    Ok(())
}
