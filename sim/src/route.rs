//! The ways options reach an integrator: setters in any order and any number of times, public
//! fields of the builder, or not at all where the value is the documented default.

use crate::problem::Problem;
use crate::rng::Rng;
use crate::scenario::{AlgK, Opts, Scenario};
use cyphus_diffeq::ode::*;
use ndarray::prelude::*;

pub const NOPT: usize = 19;
const NAMES: [&str; NOPT] = [
    "reltol", "abstol", "dense", "max_steps", "max_newt_iter", "max_stiff", "modern_pred", "safe",
    "facl", "facr", "quot1", "quot2", "beta", "fnewt", "use_ext_col", "hess", "theta", "dtstart",
    "dtmax",
];

/// Options as numbers; NaN: left alone.
fn values(o: &Opts) -> [f64; NOPT] {
    let b = |x: bool| x as u64 as f64;
    let given = |x: f64| if x > 0.0 { x } else { f64::NAN };
    [
        o.reltol, o.abstol, b(o.dense), o.max_steps as f64, o.max_newt as f64, o.max_stiff as f64,
        b(o.modern), o.safe, o.facl, o.facr, o.quot1, o.quot2, o.beta, o.fnewt, b(o.ext), b(o.hess),
        o.theta, given(o.dtstart), given(o.dtmax),
    ]
}

/// What the library stores.
pub fn stored(o: &OdeIntegratorOpts) -> Vec<f64> {
    let b = |x: bool| x as u64 as f64;
    vec![
        o.reltol, o.abstol, b(o.dense), o.max_steps as f64, o.max_newt_iter as f64,
        o.max_stiff as f64, b(o.modern_pred), o.safe, o.facl, o.facr, o.quot1, o.quot2, o.beta,
        o.fnewt, b(o.use_ext_col), b(o.hess), o.theta, o.dtstart, o.dtmax,
    ]
}

/// The stored options must be the ones asked for.
pub fn check(sc: &Scenario, got: &[f64]) -> Result<(), String> {
    let mut want = values(&sc.opts);
    want[17] = sc.opts.dtstart_eff();
    want[18] = sc.opts.dtmax_eff();
    if !sc.alg.is_dp5() {
        let (rt, at, fnewt) = sc.opts.radau_tols();
        want[0] = rt;
        want[1] = at;
        want[13] = fnewt;
    }
    for k in 0..NOPT {
        if !used(sc.alg, k) && sc.route != 0 && !given(sc, k) {
            continue;
        }
        if got[k] != want[k] && (got[k] - want[k]).abs() > 1e-12 * want[k].abs() {
            return Err(format!("option {} is {:?}, asked for {:?}", NAMES[k], got[k], want[k]));
        }
    }
    Ok(())
}

/// Options the algorithm has a default of its own for.
fn used(alg: AlgK, k: usize) -> bool {
    if alg.is_dp5() {
        !matches!(k, 10 | 11 | 13 | 16)
    } else {
        k != 12
    }
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    Skip,
    Setter,
    Field,
    Twice,
}

fn plan(sc: &Scenario) -> Vec<(usize, How)> {
    let val = values(&sc.opts);
    let def = values(&Opts::default(sc.alg));
    let mut r = Rng::new(sc.route);
    let lazy = r.f();
    let mut v: Vec<(usize, How)> = vec![];
    for k in 0..NOPT {
        let how = if val[k].is_nan() || (val[k] == def[k] && r.chance(lazy)) {
            How::Skip
        } else {
            *r.pick(&[How::Setter, How::Setter, How::Field, How::Twice])
        };
        v.push((k, how));
    }
    // the Jacobian and the callback
    v.push((NOPT, How::Setter));
    v.push((NOPT + 1, How::Setter));
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
    v
}

fn given(sc: &Scenario, k: usize) -> bool {
    plan(sc).iter().any(|x| x.0 == k && x.1 != How::Skip)
}

type B<'a, A> = OdeIntegratorBuilder<'a, Problem, A>;

fn setter<'a, A: OdeAlgorithm>(b: B<'a, A>, k: usize, x: f64) -> B<'a, A> {
    match k {
        0 => b.reltol(x),
        1 => b.abstol(x),
        2 => b.dense(x != 0.0),
        3 => b.max_steps(x as usize),
        4 => b.max_newt_iter(x as usize),
        5 => b.max_stiff(x as usize),
        6 => b.modern_pred(x != 0.0),
        7 => b.safe(x),
        8 => b.facl(x),
        9 => b.facr(x),
        10 => b.quot1(x),
        11 => b.quot2(x),
        12 => b.beta(x),
        13 => b.fnewt(x),
        14 => b.use_ext_col(x != 0.0),
        15 => b.hess(x != 0.0),
        17 => b.dtstart(x),
        18 => b.dtmax(x),
        _ => field(b, k, x),
    }
}

fn field<'a, A: OdeAlgorithm>(mut b: B<'a, A>, k: usize, x: f64) -> B<'a, A> {
    let o = &mut b.opts;
    match k {
        0 => o.reltol = x,
        1 => o.abstol = x,
        2 => o.dense = x != 0.0,
        3 => o.max_steps = x as usize,
        4 => o.max_newt_iter = x as usize,
        5 => o.max_stiff = x as usize,
        6 => o.modern_pred = x != 0.0,
        7 => o.safe = x,
        8 => o.facl = x,
        9 => o.facr = x,
        10 => o.quot1 = x,
        11 => o.quot2 = x,
        12 => o.beta = x,
        13 => o.fnewt = x,
        14 => o.use_ext_col = x != 0.0,
        15 => o.hess = x != 0.0,
        16 => o.theta = x,
        17 => {
            o.dtstart = x;
            b.dt = x;
        }
        _ => o.dtmax = x,
    }
    b
}

type Rhs<'a> = &'a dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &Problem);
type Jac<'a> = &'a dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &Problem);
type Cb<'a, A> = &'a dyn Fn(&mut OdeIntegrator<'a, Problem, A>);

pub fn builder<'a, A: OdeAlgorithm>(
    sc: &Scenario,
    alg: A,
    rhs: Rhs<'a>,
    jac: Jac<'a>,
    cb: Cb<'a, A>,
) -> B<'a, A> {
    let val = values(&sc.opts);
    let u0 = Array1::from(sc.u0.clone());
    if sc.route == 0 {
        let mut b = B::default(rhs, u0, (sc.t0, sc.tf), alg, sc.problem.clone());
        for k in 0..NOPT {
            if !val[k].is_nan() {
                b = setter(b, k, val[k]);
            }
        }
        if sc.jac {
            b = b.dfdu(jac);
        }
        if sc.cb {
            b = b.callback(cb);
        }
        return b;
    }
    let mut r = Rng::new(sc.route ^ 0x7070);
    // initial values and parameters by the builder's public fields
    let late = r.chance(0.3);
    let mut b = if late {
        B::default(rhs, &u0 * 0.0, (sc.tf, sc.t0), alg, sc.problem.clone())
    } else {
        B::default(rhs, u0.clone(), (sc.t0, sc.tf), alg, sc.problem.clone())
    };
    for (k, how) in plan(sc) {
        if k == NOPT {
            if sc.jac {
                b = b.dfdu(jac);
            }
            continue;
        }
        if k == NOPT + 1 {
            if sc.cb {
                b = b.callback(cb);
            }
            continue;
        }
        b = match how {
            How::Skip => b,
            How::Setter => setter(b, k, val[k]),
            How::Field => field(b, k, val[k]),
            How::Twice => {
                let other = match k {
                    2 | 6 | 14 | 15 => 1.0 - val[k],
                    3 | 4 | 5 => val[k] + 1.0,
                    _ => 0.5 * val[k] + 1e-3,
                };
                setter(setter(b, k, other), k, val[k])
            }
        };
    }
    if late {
        b.u = u0;
        b.t = sc.t0;
        b.tfinal = sc.tf;
        b.params = sc.problem.clone();
    }
    b
}
