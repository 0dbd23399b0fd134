//! The oracles.  Each works on recorded histories only; none looks at internals of the library.

use crate::problem::{Problem, MAXN};
use crate::refmodel;
use crate::run::*;
use crate::scenario::*;
use crate::trace::Trial;

pub const EPS: f64 = f64::EPSILON;

/// Largest observed value of each calibrated quantity (1 = at the allowed limit).
#[derive(Default, Clone)]
pub struct Metrics(pub Vec<(&'static str, f64)>);
impl Metrics {
    pub fn put(&mut self, name: &'static str, x: f64) {
        for m in self.0.iter_mut() {
            if m.0 == name {
                if name.starts_with('#') {
                    // a count
                    m.1 += x;
                } else if x > m.1 || x.is_nan() {
                    m.1 = x;
                }
                return;
            }
        }
        self.0.push((name, x));
    }
    pub fn merge(&mut self, o: &Metrics) {
        for &(n, x) in &o.0 {
            self.put(n, x);
        }
    }
}

pub type Res = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

fn rms<F: Fn(usize) -> f64>(n: usize, f: F) -> f64 {
    let mut s = 0.0;
    for i in 0..n {
        let x = f(i);
        s += x * x;
    }
    (s / n as f64).sqrt()
}

/// Magnitudes that govern rounding noise of one step.
pub struct Noise {
    /// per component: state noise unit (times eps), time noise
    pub state: [f64; MAXN],
    pub time: [f64; MAXN],
    /// h * L
    pub z: f64,
}

pub fn noise(p: &Problem, t: f64, h: f64, u: &[f64], unew: &[f64]) -> Noise {
    let n = p.n();
    let mut v = [0.0; MAXN];
    let mut vm: f64 = 2.0;
    for x in [u, unew] {
        p.to_v(x, &mut v);
        for i in 0..n {
            vm = vm.max(v[i].abs());
        }
    }
    let mut kv: f64 = 0.0;
    let mut f = [0.0; MAXN];
    for (tt, x) in [(t, u), (t + h, unew)] {
        p.f(tt, x, &mut f);
        for i in 0..n {
            kv = kv.max((f[i] / p.scale[i]).abs());
        }
    }
    let l = p.stiffness(t, u).max(p.stiffness(t + h, unew));
    let z = h.abs() * l;
    let tulp = 2.0 * EPS * t.abs().max((t + h).abs());
    let w = p.freq();
    let mut r = Noise { state: [0.0; MAXN], time: [0.0; MAXN], z };
    for i in 0..n {
        r.state[i] = p.scale[i] * (vm + h.abs() * kv);
        r.time[i] = tulp * p.scale[i] * (kv + h.abs() * w * (kv + l * vm));
    }
    r
}

/// Per recorded point k >= 1: was the step that produced it a retry (None: not observable)?
pub fn retried(sc: &Scenario, h: &Hist) -> Vec<Option<bool>> {
    let mut v = vec![None; h.ts.len()];
    for w in h.obs.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        if b.npts == a.npts + 1 && !a.panicked && !b.panicked && b.op != OpK::Integrate {
            v[b.npts - 1] = Some(if sc.alg.is_dp5() {
                b.rhs - a.rhs >= 12
            } else {
                // a singular or non-finite matrix halves the step before the first trial
                let first = a.dt.abs().min((a.tfinal - a.t).abs());
                b.stats.steps - a.stats.steps > 1 || (b.t - a.t).abs() < 0.75 * first
            });
        }
    }
    v
}

#[derive(Clone, Copy, Default)]
pub struct Fid {
    /// check the value of the step
    pub step: bool,
    /// check the error test
    pub test: bool,
    /// Jacobian cannot be trusted: skip the parts of the error test that depend on it
    pub bad_jac: bool,
    /// Jacobian is finite but wrong: judge the typical step only
    pub wrong_jac: bool,
}

/// Allowed factors, calibrated with at least a factor of four of headroom (see DESIGN.md).
pub const K_RADAU_STEP: f64 = 200.0;
pub const K_RADAU_LINEAR: f64 = 1.0;
/// Tolerance weights; a nonlinear step may pass the convergence test in its first iteration.
/// Difference quotients of large states are inaccurate.
pub const K_RADAU_STEP_FD: f64 = 5000.0;
pub const K_RADAU_NONLIN: f64 = 1000.0;
/// Median over a run, in Newton tolerances.
pub const K_RADAU_TYPICAL: f64 = 5000.0;
pub const K_RADAU_BADJ: f64 = 1000.0;
pub const K_RADAU_EST: f64 = 60.0;

/// Teacher-forced comparison of every recorded step with the reference method.
pub fn fidelity(sc: &Scenario, h: &Hist, f: Fid, m: &mut Metrics) -> Res {
    let n = sc.u0.len();
    let retr = if f.test { retried(sc, h) } else { vec![] };
    let mut devs = vec![];
    for k in 0..h.ts.len().saturating_sub(1) {
        let (t, u, p, _, _) = h.start(sc, k);
        let unew = &h.us[k + 1];
        let dt = h.ts[k + 1] - t;
        ensure!(
            dt != 0.0 && unew.iter().all(|x| x.is_finite()) && dt.is_finite(),
            "step {} is degenerate: t {:?} -> {:?}, u {:?}",
            k,
            t,
            h.ts[k + 1],
            unew
        );
        let nz = noise(p, t, dt, u, unew);
        let z2 = nz.z * nz.z;
        let lin = p.linear();
        let ft = h.tol(k, u64::MAX);
        if sc.alg.is_dp5() {
            let r = refmodel::dp5(p, t, dt, u);
            let amp = 1.0 + nz.z + z2 * z2 * z2 / 50.0;
            let tol = |i: usize| (1e-12 * nz.state[i] + 4.0 * nz.time[i]) * amp;
            if f.step {
                for i in 0..n {
                    let q = (r.unew[i] - unew[i]).abs() / tol(i);
                    m.put("dp5 step / allowed", q);
                    ensure!(
                        q <= 1.0,
                        "point {} (t {:?}, dt {:?}) component {}: recorded {:?}, one Dormand-Prince step from the state in force gives {:?}",
                        k + 1, h.ts[k + 1], dt, i, unew[i], r.unew[i]
                    );
                }
            }
            let sk = |i: usize| ft * (sc.opts.abstol + sc.opts.reltol * u[i].abs().max(unew[i].abs()));
            if f.test {
                let err = rms(n, |i| r.uerr[i] / sk(i));
                let slack = rms(n, |i| tol(i) / sk(i));
                let q = err / (1.0 + 1e-6 + 2.0 * slack);
                m.put("dp5 error test / allowed", q);
                ensure!(
                    q <= 1.0,
                    "point {} (t {:?}, dt {:?}) recorded although its embedded error is {:?} times the tolerance",
                    k + 1, h.ts[k + 1], dt, err
                );
            }
        } else {
            let (rt, at, fnewt) = sc.opts.radau_tols();
            let scal = |i: usize| ft * (at + rt * u[i].abs());
            let nse = |i: usize| 1e-13 * nz.state[i] * (1.0 + nz.z) + 4.0 * nz.time[i];
            let r = refmodel::radau(p, t, dt, u);
            if !r.converged {
                m.put("#radau steps without converged reference", 1.0);
                continue;
            }
            if f.step {
                // components that grow out of nothing within the step
                let end = |i: usize| ft * (at + rt * unew[i].abs());
                let dev = rms(n, |i| {
                    let by = if lin && !f.bad_jac { scal(i) } else { scal(i).max(end(i)) };
                    ((r.unew[i] - unew[i]).abs() - nse(i)).max(0.0) / by
                });
                let (name, lim) = if f.bad_jac {
                    ("radau step (bad Jacobian) / allowed", K_RADAU_BADJ)
                } else if lin && !sc.jac {
                    ("radau step (linear, no Jacobian) / allowed", K_RADAU_STEP_FD * fnewt)
                } else if lin {
                    ("radau step (linear) / allowed", K_RADAU_LINEAR * fnewt)
                } else {
                    ("radau step (nonlinear) / allowed", (fnewt * K_RADAU_STEP).max(K_RADAU_NONLIN))
                };
                devs.push(dev / fnewt);
                let q = if f.wrong_jac { 0.0 } else { dev / lim };
                m.put(name, q);
                ensure!(
                    q <= 1.0,
                    "point {} (t {:?}, dt {:?}): differs from the Radau IIA collocation step by {:?} times the Newton tolerance; recorded {:?} collocation {:?}",
                    k + 1, h.ts[k + 1], dt, dev / fnewt, unew, &r.unew[..n]
                );
            }
            if f.test && !f.bad_jac {
                let slack = rms(n, |i| 4.0 * nse(i) / scal(i));
                let e1 = rms(n, |i| r.est1[i] / scal(i));
                let e2 = rms(n, |i| r.est2[i] / scal(i));
                let err = if k > 0 && retr[k + 1] == Some(false) { e1 } else { e1.min(e2) };
                // difference quotients are too noisy for a sharp comparison
                let (name, lim) = if !sc.jac {
                    ("radau error test (no Jacobian) / allowed", K_RADAU_EST)
                } else if lin {
                    ("radau error test (linear) / allowed", 1.05)
                } else {
                    // filtered with the Jacobian of an earlier point
                    ("radau error test (nonlinear) / allowed", K_RADAU_EST)
                };
                let q = err / (lim + slack);
                m.put(name, q);
                ensure!(
                    q <= 1.0,
                    "point {} (t {:?}, dt {:?}) recorded although its error estimate is {:?} times the tolerance",
                    k + 1, h.ts[k + 1], dt, err
                );
            }
        }
    }
    if devs.len() >= 10 {
        devs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let q = devs[devs.len() / 2] / K_RADAU_TYPICAL;
        m.put(if f.wrong_jac { "radau typical step (wrong Jacobian) / allowed" } else {"radau typical step / allowed" }, q);
        ensure!(
            q <= 1.0,
            "half of all steps differ from the Radau IIA collocation step by {:?} times the Newton tolerance or more",
            q * K_RADAU_TYPICAL
        );
    }
    Ok(())
}

/// Step-by-step account of a run for human readers.
pub fn explain(sc: &Scenario, h: &Hist) -> String {
    use std::fmt::Write;
    let n = sc.u0.len();
    let mut s = String::new();
    let retr = retried(sc, h);
    for k in 0..h.ts.len().saturating_sub(1) {
        let (t, u, p, _, _) = h.start(sc, k);
        let (un, dt) = (&h.us[k + 1], h.ts[k + 1] - t);
        let ft = h.tol(k, u64::MAX);
        let (dev, e1, e2);
        if sc.alg.is_dp5() {
            let r = refmodel::dp5(p, t, dt, u);
            let sk = |i: usize| ft * (sc.opts.abstol + sc.opts.reltol * u[i].abs().max(un[i].abs()));
            dev = rms(n, |i| (r.unew[i] - un[i]) / sk(i));
            e1 = rms(n, |i| r.uerr[i] / sk(i));
            e2 = e1;
        } else {
            let r = refmodel::radau(p, t, dt, u);
            let (rt, at, _) = sc.opts.radau_tols();
            let sk = |i: usize| ft * (at + rt * u[i].abs());
            dev = rms(n, |i| (r.unew[i] - un[i]) / sk(i));
            e1 = rms(n, |i| r.est1[i] / sk(i));
            e2 = rms(n, |i| r.est2[i] / sk(i));
        }
        let _ = writeln!(
            s,
            "point {} t {:?} dt {:.6e} retried {:?} deviation {:.3e} estimate {:.3e} / {:.3e} u {:?}",
            k + 1, h.ts[k + 1], dt, retr[k + 1], dev, e1, e2, un
        );
    }
    for f in &h.fired {
        let _ = writeln!(s, "fault {:?}", f);
    }
    for o in h.obs.iter().rev().take(3).rev() {
        let _ = writeln!(s, "{:?}", o);
    }
    let _ = writeln!(s, "end {:?}", h.end);
    s
}

/// C03
pub fn finite(sc: &Scenario, h: &Hist) -> Res {
    for (k, (t, u)) in h.ts.iter().zip(&h.us).enumerate() {
        ensure!(t.is_finite(), "recorded time {} is {:?}", k, t);
        ensure!(u.iter().all(|x| x.is_finite()), "recorded state {} is {:?}", k, u);
    }
    for (i, o) in h.obs.iter().enumerate() {
        ensure!(o.t.is_finite(), "after operation {} the time is {:?}", i, o.t);
        ensure!(o.u.iter().all(|x| x.is_finite()), "after operation {} the state is {:?}", i, o.u);
    }
    if let Some(k) = h.nan_arg {
        return Err(format!("call {}: the argument is not finite although all values were", k));
    }
    let n = sc.u0.len();
    let dir = sc.problem.dir;
    let mut v = [0.0; MAXN];
    for k in 1..h.ts.len() {
        sc.problem.to_v(&h.us[k], &mut v);
        for w in &sc.walls {
            match *w {
                Wall::Time { b, .. } => ensure!(
                    (h.ts[k] - b) * dir <= 0.0,
                    "point {} at {:?} lies beyond the wall at {:?}",
                    k,
                    h.ts[k],
                    b
                ),
                Wall::Above { comp, b, .. } | Wall::Below { comp, b, .. } => {
                    let x = v[comp % n];
                    let past = if let Wall::Above { .. } = w { x - b } else { b - x };
                    // inside, up to rounding; Radau5 never evaluates at the very end point of a
                    // step, so its last point may lie past the wall
                    let allow = 1e-12 * (x.abs() + b.abs());
                    ensure!(
                        // (and finite but absurd values may carry the state anywhere)
                        past <= allow
                            || (!sc.alg.is_dp5() && k + 1 == h.ts.len())
                            || sc.faults.iter().any(|f| matches!(f.kind, FKind::Huge { .. })),
                        "point {} has component {} = {:?} beyond the wall at {:?}",
                        k,
                        comp % n,
                        x,
                        b
                    );
                }
            }
        }
    }
    Ok(())
}

/// Abnormal ends that are violations wherever they occur.
pub fn sane_end(h: &Hist) -> Res {
    match &h.end {
        End::Done => Ok(()),
        End::Watchdog(w) => Err(format!("no end: budget of {} exhausted", w)),
        End::LibPanic(m) => Err(format!("the library panicked: {}", m)),
        End::NoneWhileContinue => Err("the run stopped although the code is Continue".into()),
        End::OpLimit => Err("no end after 1000000 driver operations".into()),
    }
}

/// C04
pub fn terminates(sc: &Scenario, h: &Hist) -> Res {
    sane_end(h)?;
    ensure!(h.code() != CONTINUE, "ended with code Continue");
    ensure!(
        h.ts.len() as u64 - 1 <= sc.opts.max_steps as u64,
        "{} steps recorded with max_steps {}",
        h.ts.len() - 1,
        sc.opts.max_steps
    );
    Ok(())
}

fn stopped_by_cb(h: &Hist) -> bool {
    h.starts.iter().any(|s| matches!(s.act, Act::Stop {}))
}

fn horizon_changed_at(h: &Hist, npts: usize) -> bool {
    h.starts.iter().any(|s| {
        s.npts == npts && matches!(s.act, Act::Horizon { .. } | Act::HorizonHere {})
    })
}

/// C06
pub fn codes(sc: &Scenario, h: &Hist) -> Res {
    let dir = sc.problem.dir;
    for (i, o) in h.obs.iter().enumerate() {
        if let Some(r) = o.ret {
            if o.code == CONTINUE {
                ensure!(
                    r == Some(o.stats.steps),
                    "operation {}: step() returned {:?} while Continue with step count {}",
                    i,
                    r,
                    o.stats.steps
                );
            } else {
                ensure!(
                    r.is_none(),
                    "operation {}: step() returned {:?} with code {}",
                    i,
                    r,
                    code_name(o.code)
                );
            }
        }
        if o.op == OpK::Next && !o.panicked && o.code == CONTINUE {
            ensure!(o.yielded.is_some(), "operation {}: iterator ended with code Continue", i);
        }
        let np = o.npts;
        // final time in force while the last step was made
        let tf = if np >= 2 { h.start(sc, np - 2).3 } else { sc.tf };
        let tl = h.ts[np - 1];
        let tol = 4.0 * EPS * tl.abs().max(tf.abs()).max(if np >= 2 { h.ts[np - 2].abs() } else { 0.0 });
        let reached = (tf - tl).abs() <= tol;
        let tf_now = o.tfinal;
        let reached_now = (tf_now - tl) * dir <= tol;
        let recorded = np > if i > 0 { h.obs[i - 1].npts } else { 1 };
        if o.code != SUCCESS && recorded && reached && !o.panicked && !horizon_changed_at(h, np) {
            return Err(format!(
                "operation {}: final time {:?} reached (t {:?}) but the code is {}",
                i, tf, tl, code_name(o.code)
            ));
        }
        match o.code {
            CONTINUE => {}
            SUCCESS => {
                if !stopped_by_cb(h) {
                    ensure!(
                        reached || reached_now,
                        "Success reported at t {:?} although the final time is {:?}",
                        tl,
                        tf_now
                    );
                }
            }
            MAXITERS => ensure!(
                o.stats.steps >= sc.opts.max_steps as u64,
                "MaxIters after {} of {} steps",
                o.stats.steps,
                sc.opts.max_steps
            ),
            DTMIN => ensure!(
                o.dt.abs() <= 16.0 * EPS * o.t.abs()
                    || o.dt.abs() < 1e-300
                    // the callback of the failing step changed the step size
                    || h.cbs.iter().any(|c| c.npts == o.npts && matches!(c.act, Act::SetDt { .. })),
                "DtLessThanMin at t {:?} with dt {:?}",
                o.t,
                o.dt
            ),
            SINGULAR => {
                let bad = |k: &FKind| {
                    matches!(
                        k,
                        FKind::NanOne {}
                            | FKind::NanAll {}
                            | FKind::PosInf {}
                            | FKind::NegInf {}
                            | FKind::JSing {}
                            | FKind::JPole { .. }
                            | FKind::JHuge { .. }
                            | FKind::Huge { .. }
                            | FKind::TornNan {}
                    )
                };
                let j = h
                    .fired
                    .iter()
                    .any(|f| bad(&f.kind) && (f.site == Site::Jac {} || !sc.jac));
                ensure!(
                    !sc.alg.is_dp5() && (j || (!sc.jac && h.wall_hits > 0)),
                    "SingularMatrix although the Jacobian was never bad"
                );
            }
            c => return Err(format!("unexplained return code {}", code_name(c))),
        }
    }
    Ok(())
}

/// C11
pub fn well_formed(sc: &Scenario, h: &Hist, m: &mut Metrics) -> Res {
    let dir = sc.problem.dir;
    ensure!(!h.ts.is_empty(), "empty history");
    ensure!(h.ts[0].to_bits() == sc.t0.to_bits(), "history starts at {:?}", h.ts[0]);
    ensure!(bits_eq(&h.us[0], &sc.u0), "history starts with {:?}", h.us[0]);
    h.append_only.clone()?;
    h.iter_ok.clone()?;
    for k in 1..h.ts.len() {
        ensure!(
            (h.ts[k] - h.ts[k - 1]) * dir > 0.0,
            "times not strictly monotonic: point {} {:?} -> {:?}",
            k,
            h.ts[k - 1],
            h.ts[k]
        );
        let tf = h.start(sc, k - 1).3;
        let tol = 4.0 * EPS * tf.abs().max(h.ts[k - 1].abs());
        ensure!(
            (h.ts[k] - tf) * dir <= tol,
            "point {} at {:?} passes the final time {:?}",
            k,
            h.ts[k],
            tf
        );
    }
    for (i, o) in h.obs.iter().enumerate() {
        ensure!(o.npts == o.nus, "operation {}: {} times, {} states", i, o.npts, o.nus);
        ensure!(o.tdir == dir || sc.t0 == sc.tf, "direction {:?}", o.tdir);
        let k = o.npts - 1;
        let (t, u, _, tf, _) = h.start(sc, k);
        // start() is the state after callback changes; all changes at this point precede `o`,
        // except pokes made later
        // or callbacks of a failing call
        let later = h.obs.get(i + 1).map(|x| x.npts == o.npts).unwrap_or(false);
        if !later {
            ensure!(o.t.to_bits() == t.to_bits(), "operation {}: time {:?}, last recorded {:?}", i, o.t, t);
            ensure!(bits_eq(&o.u, u), "operation {}: state {:?}, last recorded {:?}", i, o.u, u);
            ensure!(o.tfinal.to_bits() == tf.to_bits(), "operation {}: final time {:?}", i, o.tfinal);
        }
        if i > 0 && o.npts > h.obs[i - 1].npts && !o.panicked && o.op != OpK::Poke {
            // integrate() may have ended in a failing call after the last recorded step
            let clean = o.op != OpK::Integrate || o.code == SUCCESS;
            let (ts, us, _, _, _) = h.start(sc, k - 1);
            if clean {
                ensure!(o.tprev.to_bits() == ts.to_bits(), "operation {}: previous time {:?}, step started at {:?}", i, o.tprev, ts);
                ensure!(bits_eq(&o.uprev, us), "operation {}: previous state {:?}, step started from {:?}", i, o.uprev, us);
                let d = h.ts[k] - ts;
                let tol = 2.0 * EPS * (h.ts[k].abs() + ts.abs()) + 1e-14 * d.abs();
                m.put("dtprev deviation / allowed", (o.dtprev - d).abs() / tol);
                ensure!((o.dtprev - d).abs() <= tol, "operation {}: previous step size {:?}, step length {:?}", i, o.dtprev, d);
            }
        }
    }
    Ok(())
}

pub fn bits_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// C12
pub fn counters(sc: &Scenario, h: &Hist, m: &mut Metrics) -> Res {
    let mut seen = vec![];
    if sc.trace && !sc.alg.is_dp5() && h.wall_hits == 0 {
        let _ = crate::trace::radau_trace(sc, h, &mut Metrics::default(), false, &mut seen);
    }
    let n = sc.u0.len() as u64;
    let dp = sc.alg.is_dp5();
    let panicky = h.obs.iter().any(|o| o.panicked);
    let mut prev: Option<&Obs> = None;
    // calls of step() that produced an extra evaluation at the step's start
    let mut step_calls = 0u64;
    for (i, o) in h.obs.iter().enumerate() {
        let s = o.stats;
        if let Some(p) = prev {
            let q = p.stats;
            ensure!(
                s.steps >= q.steps
                    && s.fe >= q.fe
                    && s.je >= q.je
                    && s.dec >= q.dec
                    && s.ls >= q.ls
                    && s.acc >= q.acc
                    && s.rej >= q.rej,
                "operation {}: a counter decreased: {:?} -> {:?}",
                i,
                q,
                s
            );
        }
        ensure!(
            s.acc == o.npts as u64 - 1,
            "operation {}: {} accepted, {} points recorded",
            i,
            s.acc,
            o.npts - 1
        );
        if !panicky {
            let rhs = o.rhs - h.build_rhs;
            let jac = o.jac - h.build_jac;
            ensure!(
                rhs >= s.fe,
                "operation {}: {} evaluations counted, {} calls seen while stepping",
                i,
                s.fe,
                rhs
            );
            let rest = rhs - s.fe;
            if dp || sc.jac {
                ensure!(
                    rest == 0,
                    "operation {}: {} evaluations counted, {} calls seen while stepping",
                    i,
                    s.fe,
                    rhs
                );
                ensure!(
                    s.je == jac,
                    "operation {}: {} Jacobians counted, {} formed",
                    i,
                    s.je,
                    jac
                );
            } else {
                ensure!(
                    rest >= n * s.je && rest <= (n + 1) * s.je,
                    "operation {}: {} evaluations counted of {} calls, {} Jacobians counted: the other {} calls are not that many difference quotients of dimension {}",
                    i, s.fe, rhs, s.je, rest, n
                );
            }
            if dp {
                ensure!(
                    s.je == 0 && s.dec == 0 && s.ls == 0,
                    "operation {}: Dormand-Prince counts Jacobian work: {:?}",
                    i,
                    s
                );
                // MaxIters/DtLessThanMin: a failing call may or may not count itself
                ensure!(
                    s.steps == s.acc,
                    "operation {}: step count {} but {} accepted",
                    i,
                    s.steps,
                    s.acc
                );
                if let Some(p) = prev {
                    let q = p.stats;
                    if o.op == OpK::Step || o.op == OpK::Next {
                        step_calls += 1;
                    }
                    if q.acc >= 1 && (o.op == OpK::Step || o.op == OpK::Next) {
                        let att = (s.acc - q.acc) + (s.rej - q.rej);
                        let fe = s.fe - q.fe;
                        // extra evaluations only at the start of the step (state changed,
                        // or the derivative kept was not finite)
                        let extra = h.times[p.rhs as usize..o.rhs as usize]
                            .iter()
                            .filter(|&&t| t == p.t)
                            .count() as u64;
                        ensure!(
                            fe >= 6 * att && fe <= 6 * att + extra,
                            "operation {}: {} evaluations for {} accepted and {} rejected attempts",
                            i,
                            fe,
                            s.acc - q.acc,
                            s.rej - q.rej
                        );
                    }
                }
            } else {
                ensure!(
                    s.steps >= s.acc + s.rej,
                    "operation {}: {} steps but {} accepted and {} rejected",
                    i,
                    s.steps,
                    s.acc,
                    s.rej
                );
                if let Some(p) = prev {
                    radau_counts(sc, h, i, p, o, &seen, m)?;
                }
                ensure!(
                    s.fe >= 3 * s.ls && s.ls >= s.acc,
                    "operation {}: {} evaluations, {} linear solves, {} accepted",
                    i,
                    s.fe,
                    s.ls,
                    s.acc
                );
            }
        }
        prev = Some(o);
    }
    let _ = step_calls;
    Ok(())
}

/// Counters of one Radau5 step against the calls it made.
fn radau_counts(sc: &Scenario, h: &Hist, i: usize, a: &Obs, b: &Obs, seen: &[Trial], m: &mut Metrics) -> Res {
    if b.npts == a.npts || !matches!(b.op, OpK::Step | OpK::Next) {
        return Ok(());
    }
    let tnew = h.ts[b.npts - 1];
    let tr = trials_n(sc, a.t, tnew, &h.times[a.rhs as usize..b.rhs as usize]);
    if tr.iter().any(|x| 1e4 * EPS * a.t.abs() > x.0.abs()) {
        return Ok(());
    }
    let nt = tr.len() as u64;
    let (s, q) = (b.stats, a.stats);
    ensure!(s.steps - q.steps == nt, "operation {}: {} steps counted for {} trials", i, s.steps - q.steps, nt);
    let newt = tr.iter().map(|x| x.1).sum::<u64>();
    ensure!(s.ls - q.ls == newt, "operation {}: {} linear solves counted for {} Newton iterations", i, s.ls - q.ls, newt);
    let rej = s.rej - q.rej;
    ensure!(
        rej < nt && (q.acc > 0 || rej == 0),
        "operation {}: {} rejected of {} trials, {} accepted before",
        i, rej, nt, q.acc
    );
    // Newton's method followed call by call tells which trials came to the error test
    let from = seen.partition_point(|x| x.op < i);
    let of = &seen[from..seen.partition_point(|x| x.op <= i)];
    if of.len() as u64 == nt && q.acc > 0 && of[..of.len() - 1].iter().all(|x| x.newton.is_some()) {
        let want = of[..of.len() - 1].iter().filter(|x| x.newton == Some(true)).count() as u64;
        ensure!(
            rej == want,
            "operation {}: {} rejected, but {} of {} trials were thrown away by the error test",
            i, rej, want, nt
        );
        m.put("#steps with Newton followed", 1.0);
        if want + 1 < nt {
            m.put("#steps with trials given up by Newton", 1.0);
        }
    }
    // without faults nothing but the error test rejects on a linear problem
    let exact = sc.jac
        && sc.problem.linear()
        && h.fired.is_empty()
        && h.wall_hits == 0
        && !h.starts.iter().any(|s| matches!(s.act, Act::Param { .. }))
        && !newton_noise(sc, h, a.npts - 1, 0.01);
    if exact && q.acc > 0 {
        ensure!(rej == nt - 1, "operation {}: {} rejected, {} trials thrown away", i, rej, nt - 1);
    }
    Ok(())
}

/// Rounding errors may decide whether Newton's method converges in the step from point k.
fn newton_noise(sc: &Scenario, h: &Hist, k: usize, part: f64) -> bool {
    let (rt, at, fnewt) = sc.opts.radau_tols();
    let (t, u, p, _, _) = h.start(sc, k);
    let nz = noise(p, t, h.ts[k + 1] - t, u, &h.us[k + 1]);
    let slack = rms(sc.u0.len(), |i| (EPS * nz.state[i] * (1.0 + nz.z) + nz.time[i]) / (at + rt * u[i].abs()));
    slack > part * fnewt * h.tol(k, u64::MAX)
}

/// Trial step sizes of one operation, from the times the right-hand side was called with.
pub fn trials(sc: &Scenario, t: f64, tnew: f64, times: &[f64]) -> Vec<f64> {
    trials_n(sc, t, tnew, times).into_iter().map(|x| x.0).collect()
}

/// The same with the number of Newton iterations (Radau5) of each trial.
pub fn trials_n(sc: &Scenario, t: f64, tnew: f64, times: &[f64]) -> Vec<(f64, u64)> {
    let c = if sc.alg.is_dp5() { 0.2 } else { 0.1550510257216822 };
    let per = if sc.alg.is_dp5() { 6 } else { 3 };
    let mut v: Vec<(f64, u64)> = vec![];
    let mut i = 0;
    while i < times.len() {
        if times[i] == t {
            i += 1;
            continue;
        }
        if per == 3 && times[i..].iter().all(|x| *x == tnew) {
            break;
        }
        let d = (times[i] - t) / c;
        match v.last_mut() {
            Some(x) if x.0 == d && per == 3 => x.1 += 1,
            _ => v.push((d, 1)),
        }
        i += per;
    }
    v
}

/// C06: a step size at rounding level ends the run, it is never tried.
pub fn stalled(sc: &Scenario, h: &Hist, m: &mut Metrics) -> Res {
    let n = sc.u0.len();
    let lim = (8 * (n + 2) + 16) * (1 + h.panics());
    let (mut run, mut last) = (0, f64::NAN);
    for &t in h.times.iter() {
        run = if t == last { run + 1 } else { 1 };
        last = t;
        m.put("calls at one time / allowed", run as f64 / lim as f64);
        ensure!(run <= lim, "{} evaluations in a row at t {:?}", run, t);
    }
    Ok(())
}

/// C13
pub fn step_limits(sc: &Scenario, h: &Hist, m: &mut Metrics) -> Res {
    let o = &sc.opts;
    let dir = sc.problem.dir;
    let dp = sc.alg.is_dp5();
    let span = (sc.tf - sc.t0).abs();
    // first trial
    let first: Vec<f64> = h.times[h.build_rhs as usize..].iter().cloned().collect();
    let want0 = dir * o.dtstart_eff().min(o.dtmax_eff());
    let want = if want0.abs() * 1.01 >= span || (!dp && want0.abs() * 1.0001 >= span) {
        // near or past the end both the start step and the remaining span are fine
        None
    } else {
        Some(want0)
    };
    if let Some(&t1) = first.iter().find(|&&t| t != sc.t0) {
        let c = if dp { 0.2 } else { 0.1550510257216822 };
        let got = (t1 - sc.t0) / c;
        let tol = 1e-9 * want0.abs() + 40.0 * EPS * sc.t0.abs();
        match want {
            Some(w) => ensure!(
                (got - w).abs() <= tol,
                "first trial step is {:?}, configured start step {:?} toward {:?}",
                got,
                o.dtstart_eff(),
                sc.tf
            ),
            None => ensure!(
                got * dir > 0.0 && got.abs() <= (span * 1.000001).min(o.dtmax_eff() * 1.010001) + tol,
                "first trial step is {:?} for span {:?}, dtmax {:?}",
                got,
                span,
                o.dtmax_eff()
            ),
        }
    }
    for k in 1..h.ts.len() {
        let (ts, _, _, tf, dtmax) = h.start(sc, k - 1);
        let d = (h.ts[k] - ts).abs();
        // a trial stretched to the end may fail and be retried with a bit less
        let reach = dtmax * if dp { 1.01 } else { 1.0001f64.max(1.0 / o.quot1) };
        let last = (ts + dir * reach - tf) * dir >= -4.0 * EPS * tf.abs().max(ts.abs());
        // Radau5 may also stretch to the end by 1/quot1
        let touched = h.starts.iter().any(|s| {
            s.npts <= k && matches!(s.act, Act::SetDt { .. } | Act::Dtmax { .. } | Act::Horizon { .. })
        });
        let stretch = if !dp && touched {
            // it also keeps a step size that is only that much above the limit
            1.0001f64.max(1.0 / o.quot1)
        } else if !last {
            1.0
        } else if dp {
            1.01
        } else {
            1.0001f64.max(1.0 / o.quot1)
        };
        // a changed dtmax applies to the proposal after the next step
        let dmax = if k >= 2 { dtmax.max(h.start(sc, k - 2).4) } else { dtmax };
        let lim = dmax * stretch * (1.0 + 1e-9) + 4.0 * EPS * ts.abs();
        // unless somebody set the step size by hand
        let by_hand = h.starts.iter().any(|s| s.npts == k && matches!(s.act, Act::SetDt { .. }));
        ensure!(
            d <= lim || by_hand,
            "point {}: step {:?} exceeds dtmax {:?}",
            k,
            d,
            dtmax
        );
    }
    if h.code() == SUCCESS && !h.starts.iter().any(|s| matches!(s.act, Act::Stop {})) && h.ts.len() > 1 {
        let tl = *h.ts.last().unwrap();
        let tf = h.start(sc, h.ts.len() - 2).3;
        let now = h.last().tfinal;
        let tol = 4.0 * EPS * tf.abs().max(h.ts[h.ts.len() - 2].abs());
        ensure!(
            (tl - tf).abs() <= tol || (now - tl) * dir <= 0.0,
            "last step lands on {:?}, final time {:?}",
            tl,
            tf
        );
    }
    // ratios
    let (lo, hi) = if dp { (o.facl, o.facr) } else { (1.0 / o.facl, 1.0 / o.facr) };
    for (i, w) in h.obs.windows(2).enumerate() {
        let (a, b) = (&w[0], &w[1]);
        if a.panicked || b.panicked || !matches!(b.op, OpK::Step | OpK::Next) {
            continue;
        }
        let tr = trials(sc, a.t, b.t, &h.times[a.rhs as usize..b.rhs as usize]);
        // retries shrink, but not below the configured ratio
        let jacobian_trouble = h.fired.iter().any(|f| f.site == Site::Jac {} || (!dp && !sc.jac));
        let tn = 20.0 * EPS * a.t.abs();
        for x in tr.windows(2) {
            let rel = tn / x[0].abs().min(x[1].abs());
            if rel > 1e-3 {
                break;
            }
            let q = x[1] / x[0];
            let least = if dp { lo } else { lo.min(0.1) };
            ensure!(
                q < 1.0 + rel && (q >= least * (1.0 - 1e-6 - rel) || (jacobian_trouble && !dp)),
                "operation {}: failed trial {:?} was retried with {:?} (ratio {:?})",
                i + 1,
                x[0],
                x[1],
                q
            );
        }
        if b.npts != a.npts + 1 || b.code != CONTINUE {
            continue;
        }
        // proposal after a recorded step, unless a callback changed it
        if h.starts.iter().any(|s| s.npts == b.npts) {
            continue;
        }
        let d = h.ts[b.npts - 1] - a.t;
        let tn = 4.0 * EPS * a.t.abs().max(b.t.abs());
        let q = b.dt / d;
        let rel = 1e-9 + 2.0 * tn / d.abs();
        let to_end = ((b.tfinal - b.t) - b.dt).abs() <= 4.0 * tn.max(EPS * b.tfinal.abs());
        let cap = if to_end && !dp { hi / o.quot1 } else { hi };
        m.put("growth / allowed", q / (cap * (1.0 + rel)));
        ensure!(
            q <= cap * (1.0 + rel),
            "point {}: next step {:?} is {:?} times the last one, limit {:?}",
            b.npts - 1,
            b.dt,
            q,
            cap
        );
        ensure!(
            q > 0.0 && (q >= lo * (1.0 - rel) || b.dt.abs() >= b.dtmax * (1.0 - 1e-9) || (to_end && !dp)),
            "point {}: next step {:?} is {:?} times the last one, limit {:?}",
            b.npts - 1,
            b.dt,
            q,
            lo
        );
        if tr.len() > 1 {
            let one = if to_end && !dp { 1.0 / o.quot1 } else { 1.0 };
            ensure!(
                q <= one * (1.0 + rel),
                "point {}: step size grows by {:?} right after a retried step",
                b.npts - 1,
                q
            );
        }
    }
    Ok(())
}

/// C10 (together with `fidelity`, `codes`)
pub fn callbacks(sc: &Scenario, h: &Hist) -> Res {
    let steps = h.ts.len() - 1;
    // the callback of a failing step may itself declare success
    let stop = h.cbs.last().map(|c| matches!(c.act, Act::Stop {})).unwrap_or(false);
    let failed = !matches!(h.code(), SUCCESS | CONTINUE) || stop;
    ensure!(
        h.cbs.len() == steps || (failed && h.cbs.len() == steps + 1),
        "{} callbacks for {} recorded steps (code {})",
        h.cbs.len(),
        steps,
        code_name(h.code())
    );
    for (i, c) in h.cbs.iter().enumerate() {
        if i >= steps {
            break;
        }
        ensure!(c.npts == i + 2, "callback {} ran with {} points recorded", i, c.npts);
        ensure!(
            c.t.to_bits() == h.ts[i + 1].to_bits() && bits_eq(&c.u, &h.us[i + 1]),
            "callback {} sees t {:?} u {:?}, recorded point is {:?} {:?}",
            i,
            c.t,
            c.u,
            h.ts[i + 1],
            h.us[i + 1]
        );
        let (ts, us, _, _, _) = h.start(sc, i);
        ensure!(
            c.tprev.to_bits() == ts.to_bits() && bits_eq(&c.uprev, us),
            "callback {} sees previous t {:?} u {:?}, the step started from {:?} {:?}",
            i,
            c.tprev,
            c.uprev,
            ts,
            us
        );
        ensure!(
            c.acc as usize == i + 1,
            "callback {} sees {} accepted steps",
            i,
            c.acc
        );
    }
    // a stop ends the run at once
    for c in &h.cbs {
        if matches!(c.act, Act::Stop {}) {
            ensure!(
                h.ts.len() == c.npts && (h.rhs, h.jac) == c.calls,
                "after the stop requested at point {} there were {} more points and {} more calls",
                c.npts - 1,
                h.ts.len() - c.npts,
                h.rhs + h.jac - c.calls.0 - c.calls.1
            );
        }
    }
    // step size changes are used by the next trial (unless its Jacobian fails)
    if !sc.alg.is_dp5() && h.fired.iter().any(|f| !sc.jac || f.site == Site::Jac {}) {
        return Ok(());
    }
    for (j, s) in h.starts.iter().enumerate() {
        if !matches!(s.act, Act::SetDt { .. }) {
            continue;
        }
        // only the last change at this point counts
        if h.starts[j + 1..].iter().any(|x| x.npts == s.npts) {
            continue;
        }
        let Some(i) = h.obs.iter().position(|o| o.npts == s.npts && !o.panicked && (s.by_cb || o.op == OpK::Poke)) else { continue };
        let Some(b) = h.obs.get(i + 1) else { continue };
        let a = &h.obs[i];
        if b.op != OpK::Step && b.op != OpK::Next || a.code != CONTINUE {
            continue;
        }
        let tr = trials(sc, a.t, b.t, &h.times[a.rhs as usize..b.rhs as usize]);
        if let Some(&d) = tr.first() {
            let rem = a.tfinal - a.t;
            let tol = 1e-9 * a.dt.abs() + 40.0 * EPS * a.t.abs();
            let clipped = a.dt.abs() * 1.01 >= rem.abs();
            ensure!(
                (d - a.dt).abs() <= tol || (clipped && (d - rem).abs() <= tol + 1e-9 * rem.abs()) || a.dt.abs() > a.dtmax,
                "step size {:?} set after point {} but the next trial used {:?}",
                a.dt,
                s.npts - 1,
                d
            );
        }
    }
    Ok(())
}

/// C07: same outcome as the plain step loop.
pub fn same_outcome(a: &Hist, b: &Hist) -> Res {
    ensure!(a.ts.len() == b.ts.len(), "{} points instead of {}", a.ts.len(), b.ts.len());
    for k in 0..a.ts.len() {
        ensure!(
            a.ts[k].to_bits() == b.ts[k].to_bits() && bits_eq(&a.us[k], &b.us[k]),
            "point {} differs: {:?} {:?} instead of {:?} {:?}",
            k,
            a.ts[k],
            a.us[k],
            b.ts[k],
            b.us[k]
        );
    }
    ensure!(
        a.code() == b.code(),
        "code {} instead of {}",
        code_name(a.code()),
        code_name(b.code())
    );
    ensure!(a.stats() == b.stats(), "statistics {:?} instead of {:?}", a.stats(), b.stats());
    ensure!(a.calls_hash == b.calls_hash, "different calls into user code");
    let (x, y) = (a.last(), b.last());
    ensure!(
        bits_eq(&x.u, &y.u) && x.t.to_bits() == y.t.to_bits() && x.dt.to_bits() == y.dt.to_bits(),
        "different final state"
    );
    Ok(())
}

pub fn yields(h: &Hist) -> Res {
    for i in 1..h.obs.len() {
        let (a, b) = (&h.obs[i - 1], &h.obs[i]);
        if b.op != OpK::Next || b.panicked {
            continue;
        }
        if b.npts > a.npts {
            ensure!(b.npts == a.npts + 1, "next() recorded {} points", b.npts - a.npts);
            let Some((t, u)) = &b.yielded else {
                return Err(format!("point {} at {:?} was recorded but not yielded", b.npts - 1, h.ts[b.npts - 1]));
            };
            let k = b.npts - 1;
            ensure!(
                t.to_bits() == h.ts[k].to_bits() && (bits_eq(u, &h.us[k]) || bits_eq(u, &b.u)),
                "yielded {:?} {:?}, recorded {:?} {:?}",
                t,
                u,
                h.ts[k],
                h.us[k]
            );
        } else {
            ensure!(b.yielded.is_none(), "next() yielded {:?} without recording a point", b.yielded);
        }
    }
    Ok(())
}

pub fn absorbing(h: &Hist) -> Res {
    for (i, p) in h.post.iter().enumerate() {
        if let Some(c) = &p.changed {
            return Err(format!("call {} ({:?}) after the end changed the integrator: {}", i, p.op, c));
        }
        ensure!(p.calls == 0, "call {} ({:?}) after the end made {} calls into user code", i, p.op, p.calls);
        ensure!(!p.yielded, "iterator yielded after the end");
        ensure!(!p.ret_some, "step() after the end returned a step count");
    }
    Ok(())
}

/// C08: what must hold right after a caught panic.
pub fn after_panic(sc: &Scenario, h: &Hist) -> Res {
    h.append_only.clone()?;
    for (i, o) in h.obs.iter().enumerate() {
        if !o.panicked {
            continue;
        }
        ensure!(
            o.npts == o.nus && o.npts as u64 == o.stats.acc + 1,
            "after the panic in operation {}: {} times, {} states, {} accepted",
            i,
            o.npts,
            o.nus,
            o.stats.acc
        );
        let (t, u, _, _, _) = h.start(sc, o.npts - 1);
        ensure!(
            o.t.to_bits() == t.to_bits() && bits_eq(&o.u, u),
            "after the panic in operation {}: state {:?} {:?}, last recorded {:?} {:?}",
            i,
            o.t,
            o.u,
            t,
            u
        );
    }
    Ok(())
}

pub const K_GLOBAL_DP5: f64 = 300.0;
pub const K_GLOBAL_RADAU: f64 = 100.0;

/// C15: exact solution through the same events.
pub fn global_error(sc: &Scenario, h: &Hist, m: &mut Metrics) -> Res {
    let n = sc.u0.len();
    let dp = sc.alg.is_dp5();
    let (rt, at) = if dp {
        (sc.opts.reltol, sc.opts.abstol)
    } else {
        let (a, b, _) = sc.opts.radau_tols();
        (a, b)
    };
    let mut ex = [0.0; MAXN];
    let mut exact: Vec<f64> = sc.u0.clone();
    // parts of the system that do not influence each other are judged separately
    let group = sc.problem.groups();
    let ng = group.iter().max().unwrap() + 1;
    // bound of the deviation in v-space
    let mut bound = vec![0.0; ng];
    let mut prob = sc.problem.clone();
    for k in 0..h.ts.len() - 1 {
        // events at point k act on the exact solution as well
        for s in h.starts.iter().filter(|s| s.npts == k + 1) {
            s.act.apply_param(&mut prob);
            s.act.apply_state(&prob, &mut exact);
            if let Act::Scale { fac } = s.act {
                bound.iter_mut().for_each(|b| *b *= fac.abs().max(1.0));
            }
        }
        let (t, u, p, _, _) = h.start(sc, k);
        let dt = h.ts[k + 1] - t;
        prob.flow(t, dt, &exact, &mut ex);
        exact.copy_from_slice(&ex[..n]);
        let unew = &h.us[k + 1];
        let nz = noise(p, t, dt, u, unew);
        let mut w = vec![0.0; ng];
        let ft = h.tol(k, u64::MAX);
        for i in 0..n {
            let x = ft * (at + rt * u[i].abs().max(unew[i].abs())) / p.scale[i];
            let e = (1e-12 * nz.state[i] * (1.0 + nz.z) + 4.0 * nz.time[i]) / p.scale[i];
            w[group[i]] += (x + e) * (x + e);
        }
        let g = (p.growth() * dt.abs()).exp();
        for j in 0..ng {
            bound[j] = bound[j] * g + w[j].sqrt();
        }
    }
    let last = h.us.last().unwrap();
    let mut d = vec![0.0; n];
    for i in 0..n {
        d[i] = last[i] - exact[i];
    }
    let mut dv = [0.0; MAXN];
    sc.problem.to_v(&d, &mut dv);
    let kg = if dp { K_GLOBAL_DP5 } else { K_GLOBAL_RADAU };
    for j in (0..ng).filter(|j| group.contains(j)) {
        let e = (0..n).filter(|&i| group[i] == j).map(|i| dv[i] * dv[i]).sum::<f64>().sqrt();
        let q = e / (kg * bound[j]);
        if h.ts.len() > 1 {
            m.put(if dp { "dp5 global error / allowed" } else { "radau global error / allowed" }, q);
            ensure!(
                q <= 1.0,
                "at t {:?} the state is {:?}, exact {:?}: off by {:?} times the accumulated tolerance",
                h.ts.last().unwrap(),
                last,
                exact,
                q * kg
            );
        }
    }
    Ok(())
}

/// Same number, or both not a number.
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// C21: `b` is run `a` in other units, where every number is an exact multiple.
pub fn twin(a: &Hist, b: &Hist, w: Units) -> Res {
    let t = |x: f64, y: f64| same(x, y * w.ts);
    let us = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(*x, *y * w.us));
    for k in 0..a.ts.len().min(b.ts.len()) {
        ensure!(
            t(a.ts[k], b.ts[k]) && us(&a.us[k], &b.us[k]),
            "point {}: {:?} {:?}, in other units (time {:?}, state {:?}) {:?} {:?}",
            k, a.ts[k], a.us[k], w.ts, w.us, b.ts[k], b.us[k]
        );
    }
    ensure!(a.ts.len() == b.ts.len(), "{} points, in other units (time {:?}, state {:?}) {}", a.ts.len(), w.ts, w.us, b.ts.len());
    ensure!(a.obs.len() == b.obs.len() && a.end == b.end, "run ends {:?}, in other units {:?}", a.end, b.end);
    for (i, (x, y)) in a.obs.iter().zip(&b.obs).enumerate() {
        let ok = x.op == y.op
            && x.npts == y.npts
            && x.code == y.code
            && x.stats == y.stats
            && t(x.t, y.t)
            && us(&x.u, &y.u)
            && t(x.tprev, y.tprev)
            && us(&x.uprev, &y.uprev)
            && t(x.dtprev, y.dtprev)
            && t(x.tfinal, y.tfinal)
            && same(x.dtmax, y.dtmax * w.ts.abs())
            && x.tdir == y.tdir * w.ts.signum()
            && (x.rhs, x.jac, x.cb) == (y.rhs, y.jac, y.cb)
            && x.panicked == y.panicked
            && x.ret == y.ret
            // (what is left in dt after the end has no meaning)
            && (x.code != CONTINUE || t(x.dt, y.dt));
        ensure!(ok, "operation {}: {:?}, in other units (time {:?}, state {:?}) {:?}", i, x, w.ts, w.us, y);
    }
    Ok(())
}

/// Closed interval of positive numbers.
#[derive(Clone, Copy, Debug)]
pub struct Iv(pub f64, pub f64);
impl Iv {
    fn around(x: f64, slack: f64) -> Iv {
        Iv((x - slack).max(0.0), x + slack)
    }
    fn clamp(self, lo: f64, hi: f64) -> Iv {
        Iv(self.0.max(lo).min(hi), self.1.max(lo).min(hi))
    }
    fn max(self, o: Iv) -> Iv {
        Iv(self.0.max(o.0), self.1.max(o.1))
    }
    fn pow(self, e: f64) -> Iv {
        let (a, b) = (self.0.powf(e), self.1.powf(e));
        Iv(a.min(b), a.max(b))
    }
    fn mul(self, x: f64) -> Iv {
        Iv(self.0 * x, self.1 * x)
    }
    fn has(self, x: f64, rel: f64) -> bool {
        x >= self.0 * (1.0 - rel) && x <= self.1 * (1.0 + rel)
    }
}

/// A fault fired in the operation from a to b.
fn hit_between(h: &Hist, a: &Obs, b: &Obs) -> bool {
    h.fired_in(a.rhs, b.rhs).iter().any(|f| f.rhs > a.rhs || f.site != Site::Rhs {})
}

/// C22: acceptance and the next step size follow from the error estimate.
pub fn controller(sc: &Scenario, h: &Hist, m: &mut Metrics) -> Res {
    let dp = sc.alg.is_dp5();
    let o = &sc.opts;
    let n = sc.u0.len();
    let (rt, at, _) = o.radau_tols();
    // Radau5 followed call by call
    let mut seen = vec![];
    let g;
    let mut h = h;
    if sc.trace && !dp && !sc.jac {
        g = crate::trace::with_quotients(sc, h);
        h = &g;
    }
    if sc.trace {
        let _ = crate::trace::radau_trace(sc, h, &mut Metrics::default(), false, &mut seen);
    }
    // error estimate of a trial: the first one, and the one Radau5 re-evaluates
    let est = |op: usize, p: &Problem, t: f64, u: &[f64], d: f64, ft: f64| -> Option<(Iv, Iv)> {
        if sc.trace {
            let from = seen.partition_point(|x| x.op < op);
            let mut of = seen[from..].iter().take_while(|x| x.op == op);
            of.find(|x| (x.d - d).abs() <= 1e-6 * d.abs())?.err
        } else if dp {
            let r = refmodel::dp5(p, t, d, u);
            let nz = noise(p, t, d, u, &r.unew[..n]);
            let z2 = nz.z * nz.z;
            let amp = 1.0 + nz.z + z2 * z2 * z2 / 50.0;
            let sk = |i: usize| ft * (o.abstol + o.reltol * u[i].abs().max(r.unew[i].abs()));
            let err = rms(n, |i| r.uerr[i] / sk(i));
            let slack = rms(n, |i| (1e-12 * nz.state[i] + 4.0 * nz.time[i]) * amp / sk(i));
            if !(err + slack).is_finite() {
                return None;
            }
            let e = Iv::around(err, 2.0 * slack + 1e-7 * err);
            Some((e, e))
        } else {
            let r = refmodel::radau(p, t, d, u);
            if !r.converged {
                return None;
            }
            let nz = noise(p, t, d, u, &r.unew[..n]);
            let scal = |i: usize| ft * (at + rt * u[i].abs());
            let nse = |i: usize| 1e-12 * nz.state[i] * (1.0 + nz.z) + 4.0 * nz.time[i];
            let slack = rms(n, |i| 8.0 * nse(i) / scal(i));
            let e1 = rms(n, |i| r.est1[i] / scal(i));
            let e2 = rms(n, |i| r.est2[i] / scal(i));
            if !(e1 + e2 + slack).is_finite() {
                return None;
            }
            let f = |e: f64| Iv::around(e, slack + 1e-6 * e).max(Iv(1e-10, 1e-10));
            Some((f(e1), f(e2)))
        }
    };
    // (error, step) of the last accepted step; None: not known
    let mut old: Option<(Iv, f64)> = Some((Iv(1e-4, 1e-4), 0.0));
    let mut tainted = false;
    for (i, w) in h.obs.windows(2).enumerate() {
        let (a, b) = (&w[0], &w[1]);
        let hit = hit_between(h, a, b);
        let taint = std::mem::replace(&mut tainted, hit) || hit;
        if b.npts == a.npts {
            tainted = taint;
            continue;
        }
        let mut before = old.take();
        // a panic after the point was recorded leaves only the retry flag in doubt
        let doubt = a.panicked && i > 0 && a.npts > h.obs[i - 1].npts;
        if (a.panicked && !doubt) || b.panicked || !matches!(b.op, OpK::Step | OpK::Next) {
            continue;
        }
        if doubt {
            before = None;
        }
        let k = a.npts - 1;
        let (t, u, p, _, _) = h.start(sc, k);
        let d = h.ts[k + 1] - t;
        let tn = 40.0 * EPS * t.abs().max(h.ts[k + 1].abs());
        if tn > 1e-7 * d.abs() {
            continue;
        }
        let trel = tn / d.abs() + 1e-9;
        let mut tr = trials_n(sc, t, h.ts[k + 1], &h.times[a.rhs as usize..b.rhs as usize]);
        if tr.is_empty() {
            continue;
        }
        tr.last_mut().unwrap().0 = d;
        let rest = (a.tfinal - t).abs();
        let (d0, want) = (tr[0].0.abs(), a.dt.abs());
        // the first trial
        let near = |x: f64, y: f64| (x - y).abs() <= trel * y + tn;
        let reach = if dp { 1.01 } else { 1.0001 };
        let fits = want * reach <= rest * (1.0 + 1e-9);
        let ends = want * reach >= rest * (1.0 - 1e-9);
        if !taint {
            ensure!(
                (fits && near(d0, want)) || (ends && near(d0, rest)),
                "point {}: first trial is {:?}, proposed step {:?}, {:?} left",
                k + 1, d0, want, rest
            );
        }
        let first = a.stats.acc == 0;
        let mut reject = d0 < 0.75 * want.min(rest);
        let nt = tr.len();
        let mut err = Iv(0.0, 0.0);
        for (j, &(d, newt)) in tr.iter().enumerate() {
            let last = j + 1 == nt;
            let Some((e1, e2)) = est(i + 1, p, t, u, d, h.tol(k, u64::MAX)) else {
                err = Iv(f64::NAN, f64::NAN);
                if last {
                    break;
                }
                reject = true;
                continue;
            };
            err = e1;
            if !dp && doubt && !reject {
                err = Iv(e1.0.min(e2.0), e1.1.max(e2.1));
            } else if !dp && e1.1 >= 1.0 && (first || reject) {
                err = if e1.0 >= 1.0 { e2 } else { Iv(e1.0.min(e2.0), e1.1.max(e2.1)) };
            }
            if last {
                break;
            }
            if !hit {
                m.put("needless rejection (1 = limit)", 1.0 / (err.1 + 1e-300).max(1e-3));
                ensure!(
                    err.1 >= 1.0,
                    "point {}: trial {:?} was thrown away although its error is {:?} of the tolerance",
                    k + 1, d, err.1
                );
                let q = if dp {
                    let f = err.pow(0.2 - 0.75 * o.beta).mul(1.0 / o.safe);
                    Iv(f.0.min(1.0 / o.facl), f.1.min(1.0 / o.facl))
                } else if first {
                    Iv(10.0, 10.0)
                } else {
                    let mm = o.max_newt as f64;
                    let fac = o.safe.min(o.safe * (1.0 + 2.0 * mm) / (newt as f64 + 2.0 * mm));
                    err.pow(0.25).mul(1.0 / fac).clamp(o.facr, o.facl)
                };
                let got = d.abs() / tr[j + 1].0.abs();
                let rel = 1e-7 + 2.0 * tn / tr[j + 1].0.abs();
                ensure!(
                    q.has(got, rel),
                    "point {}: trial {:?} with error {:?} is retried with {:?}, i.e. divided by {:?} instead of {:?}",
                    k + 1, d, err, tr[j + 1].0, got, q
                );
            }
            reject = true;
        }
        let (d, newt) = *tr.last().unwrap();
        if err.0.is_nan() {
            continue;
        }
        ensure!(err.0 <= 1.0, "point {}: accepted with error {:?}", k + 1, err);
        if doubt && !dp && nt == 1 {
            continue;
        }
        old = Some((err, d));
        // the proposal
        let touched = h.starts.iter().any(|s| s.npts == b.npts && matches!(s.act, Act::SetDt { .. }));
        let Some((eold, dold)) = before else { continue };
        if b.code != CONTINUE || touched {
            continue;
        }
        let next = if dp {
            let eo = Iv(eold.0.max(1e-4), eold.1.max(1e-4));
            let f = err.pow(0.2 - 0.75 * o.beta);
            let g = eo.pow(o.beta);
            Iv(f.0 / g.1, f.1 / g.0).mul(1.0 / o.safe).clamp(1.0 / o.facr, 1.0 / o.facl)
        } else {
            let mm = o.max_newt as f64;
            let fac = o.safe.min(o.safe * (1.0 + 2.0 * mm) / (newt as f64 + 2.0 * mm));
            let q = err.pow(0.25).mul(1.0 / fac).clamp(o.facr, o.facl);
            if o.modern && !first {
                let ea = eold.max(Iv(1e-2, 1e-2));
                let e2 = Iv(err.0 * err.0 / ea.1, err.1 * err.1 / ea.0);
                let g = e2.pow(0.25).mul((dold / d).abs() / o.safe).clamp(o.facr, o.facl);
                q.max(g)
            } else {
                q
            }
        };
        let mut lim = a.dtmax;
        if reject {
            lim = lim.min(d.abs());
        }
        let dn = Iv((d.abs() / next.1).min(lim), (d.abs() / next.0).min(lim));
        let got = b.dt.abs();
        let rel = 1e-7 + trel;
        let mut ok = dn.has(got, rel);
        if !dp {
            let rest = (a.tfinal - h.ts[k + 1]).abs();
            let tol = 1e-9 * rest + tn;
            let (may_end, must_end) = (dn.1 / o.quot1 >= rest - tol, dn.0 / o.quot1 >= rest + tol);
            let (ql, qh) = (dn.0 / d.abs(), dn.1 / d.abs());
            let may_keep = qh >= o.quot1 * (1.0 - rel) && ql <= o.quot2 * (1.0 + rel);
            let must_keep = newt == 1 && ql > o.quot1 * (1.0 + rel) && qh < o.quot2 * (1.0 - rel) && !may_end;
            let is_rest = (got - rest).abs() <= tol;
            let is_keep = (got - d.abs()).abs() <= rel * d.abs();
            ok = if must_end {
                is_rest
            } else if must_keep {
                is_keep
            } else {
                ok || (may_end && is_rest) || (may_keep && is_keep)
            };
        }
        m.put("width of the predicted interval", dn.1 / dn.0 - 1.0);
        m.put("#proposals compared", 1.0);
        ensure!(
            ok,
            "point {}: after a step {:?} with error {:?} ({} trials, previous error {:?}) the next step is {:?}, expected {:?}",
            k + 1, d, err, nt, eold, b.dt, dn
        );
    }
    Ok(())
}

/// C23: a linear problem with a right Jacobian is solved at once by Newton's method.
pub fn newton(sc: &Scenario, h: &Hist, m: &mut Metrics) -> Res {
    let mut tainted = false;
    let (mut sum, mut count) = (0, 0);
    for w in h.obs.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        let hit = hit_between(h, a, b);
        let taint = std::mem::replace(&mut tainted, hit) || hit;
        tainted |= taint && b.npts == a.npts;
        if taint || a.panicked || b.panicked || !matches!(b.op, OpK::Step | OpK::Next) || b.npts == a.npts {
            continue;
        }
        let k = a.npts - 1;
        let t = h.start(sc, k).0;
        let tnew = h.ts[k + 1];
        if 1e4 * EPS * t.abs() > (tnew - t).abs() {
            continue;
        }
        // rounding must not be what the iteration ends with
        if newton_noise(sc, h, k, 0.01) {
            continue;
        }
        for (d, newt) in trials_n(sc, t, tnew, &h.times[a.rhs as usize..b.rhs as usize]) {
            sum += newt;
            count += 1;
            if sc.jac {
                m.put("Newton iterations", newt as f64);
                ensure!(
                    newt <= 2,
                    "trial {:?} at t {:?}: {} Newton iterations for a linear problem with exact Jacobian",
                    d, t, newt
                );
            }
        }
    }
    m.put("#trials", count as f64);
    if count >= 20 && !sc.jac {
        let q = sum as f64 / count as f64;
        m.put("mean iterations (no Jacobian) / allowed", q / 4.0);
        ensure!(q <= 4.0, "{} Newton iterations per trial for a linear problem", q);
    }
    Ok(())
}

/// C24: user calls per trial.
pub fn economy(sc: &Scenario, h: &Hist, m: &mut Metrics) -> Res {
    let dp = sc.alg.is_dp5();
    let n = sc.u0.len() as u64;
    let mut tainted = false;
    let mut taint_before = false;
    let exact = sc.jac
        && sc.problem.linear()
        && !h.starts.iter().any(|s| matches!(s.act, Act::Param { .. } | Act::SetDt { .. }))
        && !h.fired.iter().any(|f| matches!(f.kind, FKind::JZero {} | FKind::JScale { .. } | FKind::JPole { .. }));
    for (i, w) in h.obs.windows(2).enumerate() {
        let (a, b) = (&w[0], &w[1]);
        let hit = hit_between(h, a, b);
        let before = tainted;
        let taint = std::mem::replace(&mut tainted, hit) || hit;
        tainted |= taint && b.npts == a.npts;
        let taint_before = std::mem::replace(&mut taint_before, before || taint) || before;
        if taint || a.panicked || b.panicked || !matches!(b.op, OpK::Step | OpK::Next) || b.npts == a.npts {
            continue;
        }
        let tnew = h.ts[b.npts - 1];
        if 1e4 * EPS * a.t.abs() > (tnew - a.t).abs() {
            continue;
        }
        let tr = trials_n(sc, a.t, tnew, &h.times[a.rhs as usize..b.rhs as usize]);
        let nt = tr.len() as u64;
        let changed = sc.cb || a.op == OpK::Poke;
        let (rhs, jac) = (b.rhs - a.rhs, b.jac - a.jac);
        let mut lim = changed as u64;
        if dp {
            lim += 6 * nt;
        } else {
            // no derivative at a point from which no step starts
            let last = !sc.cb && b.code == SUCCESS;
            lim += 3 * tr.iter().map(|x| x.1).sum::<u64>() + !last as u64;
            // the estimate is evaluated anew in retried trials and in the first step
            lim += if a.stats.acc == 0 { nt } else { nt - 1 };
            if !sc.jac {
                lim += (n + 1) * nt;
            }
            ensure!(jac <= nt, "operation {}: {} Jacobians for {} trials", i + 1, jac, nt);
            let part = 0.01 * sc.opts.theta.min(1.0);
            if exact && !newton_noise(sc, h, a.npts - 1, part) {
                // a Jacobian is formed again only after a failed trial
                ensure!(
                    jac < nt,
                    "operation {}: {} Jacobians for {} failed trials of a linear problem",
                    i + 1, jac, nt - 1
                );
                let prev = i > 0 && h.obs[i - 1].npts < a.npts && a.npts >= 3;
                let kept = prev
                    && !taint_before
                    && a.dt == a.dtprev
                    && sc.opts.quot1 <= 1.0
                    && sc.opts.quot2 >= 1.0
                    && (a.tfinal - a.t).abs() > 1.001 * a.dt.abs()
                    && !newton_noise(sc, h, a.npts - 2, part);
                if kept {
                    m.put("#steps of unchanged size", 1.0);
                    ensure!(
                        b.stats.dec - a.stats.dec == nt - 1,
                        "operation {}: {} decompositions for {} trials, the first one with the step size {:?} of the last step",
                        i + 1, b.stats.dec - a.stats.dec, nt, a.dt
                    );
                }
            }
            ensure!(
                b.stats.dec - a.stats.dec <= nt,
                "operation {}: {} decompositions for {} trials", i + 1, b.stats.dec - a.stats.dec, nt
            );
        }
        m.put("evaluations / allowed", rhs as f64 / lim as f64);
        ensure!(rhs <= lim, "operation {}: {} evaluations for {} trials, expected {}", i + 1, rhs, nt, lim);
    }
    Ok(())
}
