//! Executes one scenario against the real library and returns its history.

use crate::env::{fnv, Env, Fired, Hook, Injected, JacRec, Watchdog};
use crate::problem::{Problem, MAXN};
use crate::scenario::*;
use cyphus_diffeq::dorm_prince::dp5::DormandPrince5;
use cyphus_diffeq::ode::*;
use cyphus_diffeq::radau::Radau5;
use ndarray::prelude::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const CONTINUE: u8 = 0;
pub const SUCCESS: u8 = 1;
pub const MAXITERS: u8 = 2;
pub const DTMIN: u8 = 3;
pub const SINGULAR: u8 = 5;

pub fn code(c: &OdeRetCode) -> u8 {
    match c {
        OdeRetCode::Continue => CONTINUE,
        OdeRetCode::Success => SUCCESS,
        OdeRetCode::MaxIters => MAXITERS,
        OdeRetCode::DtLessThanMin => DTMIN,
        OdeRetCode::Stiff => 4,
        OdeRetCode::SingularMatrix => SINGULAR,
        OdeRetCode::Failure => 6,
        #[allow(unreachable_patterns)]
        _ => 7,
    }
}
pub fn code_name(c: u8) -> &'static str {
    ["Continue", "Success", "MaxIters", "DtLessThanMin", "Stiff", "SingularMatrix", "Failure", "?"]
        [c as usize]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Stats {
    pub steps: u64,
    pub fe: u64,
    pub je: u64,
    pub dec: u64,
    pub ls: u64,
    pub acc: u64,
    pub rej: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpK {
    Build,
    Step,
    Integrate,
    Next,
    Poke,
}

/// What is visible from outside after one elementary driver operation.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub op: OpK,
    pub npts: usize,
    pub nus: usize,
    pub code: u8,
    pub stats: Stats,
    pub t: f64,
    pub u: Vec<f64>,
    pub dt: f64,
    pub tprev: f64,
    pub uprev: Vec<f64>,
    pub dtprev: f64,
    pub tdir: f64,
    pub tfinal: f64,
    pub dtmax: f64,
    pub rhs: u64,
    pub jac: u64,
    pub cb: u64,
    pub panicked: bool,
    /// step(): Some(Some(count)) / Some(None)
    pub ret: Option<Option<u64>>,
    /// next(): yielded point
    pub yielded: Option<(f64, Vec<f64>)>,
}

/// State in force for the step that follows recorded point `npts - 1`.
#[derive(Clone, Debug)]
pub struct StartRec {
    pub npts: usize,
    /// right-hand-side calls so far
    pub rhs: u64,
    pub t: f64,
    pub u: Vec<f64>,
    pub problem: Rc<Problem>,
    pub tfinal: f64,
    pub dtmax: f64,
    pub by_cb: bool,
    pub act: Act,
}

#[derive(Clone, Debug)]
pub struct CbRec {
    pub npts: usize,
    pub t: f64,
    pub u: Vec<f64>,
    pub tprev: f64,
    pub uprev: Vec<f64>,
    pub dtprev: f64,
    pub code: u8,
    pub acc: u64,
    pub act: Act,
    pub panicked: bool,
    /// (rhs, jac) calls so far
    pub calls: (u64, u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    /// an evaluation budget was exhausted
    Watchdog(String),
    /// the library panicked
    LibPanic(String),
    /// step() returned None while the code was Continue
    NoneWhileContinue,
    OpLimit,
}

#[derive(Clone, Debug)]
pub struct PostRec {
    pub op: OpK,
    pub changed: Option<String>,
    pub calls: u64,
    pub yielded: bool,
    pub ret_some: bool,
}

#[derive(Clone)]
pub struct Hist {
    pub end: End,
    pub obs: Vec<Obs>,
    pub ts: Vec<f64>,
    pub us: Vec<Vec<f64>>,
    pub append_only: Result<(), String>,
    pub iter_ok: Result<(), String>,
    pub starts: Vec<StartRec>,
    pub cbs: Vec<CbRec>,
    pub post: Vec<PostRec>,
    pub fired: Vec<Fired>,
    pub times: Vec<f64>,
    pub rhs: u64,
    pub jac: u64,
    pub ncb: u64,
    pub build_rhs: u64,
    pub build_jac: u64,
    pub wall_hits: u64,
    pub nan_arg: Option<u64>,
    /// hash of everything the library called, with arguments
    pub calls_hash: u64,
    /// hash of calls and of everything observable after each operation
    pub hash: u64,
    /// hash of the run's shape only: per operation the counts of calls, accepts, rejects, codes
    pub shape: u64,
    /// options as stored after building
    pub opts: Vec<f64>,
    /// arguments of the right-hand-side calls, one after the other (with `trace`)
    pub args: Vec<f64>,
    /// Jacobians handed out (with `trace`)
    pub jacs: Vec<JacRec>,
}
unsafe impl Send for Hist {}

impl Hist {
    pub fn last(&self) -> &Obs {
        self.obs.last().unwrap()
    }
    pub fn code(&self) -> u8 {
        self.last().code
    }
    pub fn stats(&self) -> Stats {
        self.last().stats
    }
    pub fn panics(&self) -> usize {
        self.obs.iter().filter(|o| o.panicked).count()
    }
    /// (t, u, problem, tfinal, dtmax) in force when the step after point k starts.
    pub fn start<'a>(
        &'a self,
        sc: &'a Scenario,
        k: usize,
    ) -> (f64, &'a [f64], &'a Problem, f64, f64) {
        self.start_by(sc, k, u64::MAX)
    }

    /// Faults that fired when between `lo` and `hi` right-hand-side calls had been made.
    pub fn fired_in(&self, lo: u64, hi: u64) -> &[Fired] {
        let i = self.fired.partition_point(|f| f.rhs < lo);
        let n = self.fired[i..].partition_point(|f| f.rhs <= hi);
        &self.fired[i..i + n]
    }

    /// The same for the Jacobians handed out.
    pub fn jacs_in(&self, lo: u64, hi: u64) -> &[JacRec] {
        let i = self.jacs.partition_point(|x| x.rhs < lo);
        let n = self.jacs[i..].partition_point(|x| x.rhs <= hi);
        &self.jacs[i..i + n]
    }

    /// Factor of the tolerances in force in the step from point k, as of `rhs` calls.
    pub fn tol(&self, k: usize, rhs: u64) -> f64 {
        let fac = |s: &StartRec| if let Act::Tol { fac } = s.act { fac } else { 1.0 };
        self.starts.iter().filter(|s| s.npts <= k + 1 && s.rhs <= rhs).map(fac).product()
    }

    /// The same, as it was after `rhs` calls of the right-hand side: a step may fail or panic,
    /// something be changed then, and another attempt be made.
    pub fn start_by<'a>(
        &'a self,
        sc: &'a Scenario,
        k: usize,
        rhs: u64,
    ) -> (f64, &'a [f64], &'a Problem, f64, f64) {
        let i = self.starts.partition_point(|s| s.npts <= k + 1 && s.rhs <= rhs);
        if i > 0 {
            let s = &self.starts[i - 1];
            if s.npts == k + 1 {
                return (s.t, &s.u, &s.problem, s.tfinal, s.dtmax);
            }
            return (self.ts[k], &self.us[k], &s.problem, s.tfinal, s.dtmax);
        }
        (self.ts[k], &self.us[k], &sc.problem, sc.tf, sc.opts.dtmax_eff())
    }
}

type Integ<A> = OdeIntegrator<'static, Problem, A>;

enum Holder<A: OdeAlgorithm + 'static> {
    Direct(Box<Integ<A>>),
    Owned(OdeIntegratorIterator<'static, Problem, A>),
    Mut(OdeIntegratorMutIterator<'static, Problem, A>, *mut Integ<A>),
    Gone,
}

impl<A: OdeAlgorithm + 'static> Holder<A> {
    fn get(&mut self) -> &mut Integ<A> {
        match self {
            Holder::Direct(b) => b,
            Holder::Owned(i) => &mut i.integrator,
            Holder::Mut(i, _) => i.integrator,
            Holder::Gone => unreachable!(),
        }
    }
    fn direct(&mut self) {
        let h = std::mem::replace(self, Holder::Gone);
        *self = match h {
            Holder::Owned(i) => Holder::Direct(Box::new(i.integrator)),
            // the iterator (and its borrow) ends here, the box gets its integrator back
            Holder::Mut(i, p) => {
                drop(i);
                Holder::Direct(unsafe { Box::from_raw(p) })
            }
            h => h,
        };
    }
    fn owned(&mut self) {
        if let Holder::Owned(_) = self {
            return;
        }
        self.direct();
        if let Holder::Direct(b) = std::mem::replace(self, Holder::Gone) {
            *self = Holder::Owned((*b).into_iter());
        }
    }
    fn by_mut(&mut self) {
        if let Holder::Mut(..) = self {
            return;
        }
        self.direct();
        if let Holder::Direct(b) = std::mem::replace(self, Holder::Gone) {
            let p = Box::into_raw(b);
            let r: &'static mut Integ<A> = unsafe { &mut *p };
            *self = Holder::Mut(r.into_iter(), p);
        }
    }
}
impl<A: OdeAlgorithm + 'static> Drop for Sim<A> {
    fn drop(&mut self) {
        self.holder.direct();
        self.holder = Holder::Gone;
    }
}

pub trait Run {
    /// One elementary operation; false when the run is over.
    fn advance(&mut self) -> bool;
    fn finish(self: Box<Self>) -> Hist;
}

type RhsFn = Box<dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &Problem)>;
type JacFn = Box<dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &Problem)>;
type CbFn<A> = Box<dyn Fn(&mut Integ<A>)>;

struct Log {
    starts: Vec<StartRec>,
    cbs: Vec<CbRec>,
    problem: Rc<Problem>,
}

pub struct Sim<A: OdeAlgorithm + 'static> {
    // dropped in this order: the integrator borrows the closures
    holder: Holder<A>,
    _rhs: RhsFn,
    _jac: JacFn,
    _cb: CbFn<A>,
    env: Rc<Env>,
    log: Rc<RefCell<Log>>,
    obs: Vec<Obs>,
    shadow_t: Vec<f64>,
    shadow_u: Vec<Vec<f64>>,
    append_only: Result<(), String>,
    post: Vec<PostRec>,
    op: usize,
    done_in_op: u64,
    elementary: u64,
    build: (u64, u64),
    end: Option<End>,
    shape: u64,
    log_hash: u64,
    check_iters: bool,
    opts: Vec<f64>,
}

fn copy_view(u: &ArrayView1<f64>) -> ([f64; MAXN], usize) {
    let mut b = [0.0; MAXN];
    let n = u.len();
    for i in 0..n {
        b[i] = u[i];
    }
    (b, n)
}

fn apply_act<A: OdeAlgorithm>(
    env: &Env,
    log: &RefCell<Log>,
    it: &mut OdeIntegrator<'_, Problem, A>,
    act: Act,
    by_cb: bool,
) {
    let sc = &env.sc;
    let mut changed = true;
    match act {
        Act::Nop {} => changed = false,
        Act::Param { .. } => {
            act.apply_param(&mut it.params);
            log.borrow_mut().problem = Rc::new(it.params.clone());
        }
        Act::SetDt { fac } => it.dt *= fac,
        Act::Horizon { frac } => it.tfinal = it.t + frac * (sc.tf - sc.t0),
        Act::HorizonHere {} => it.tfinal = it.t,
        Act::Stop {} => it.sol.retcode = OdeRetCode::Success,
        Act::Dtmax { fac } => {
            it.opts.dtmax = fac * (sc.tf - sc.t0).abs();
        }
        Act::Tol { fac } => {
            it.opts.reltol *= fac;
            it.opts.abstol *= fac;
        }
        _ => {
            let us = sc.units.us;
            let mut u: Vec<f64> = it.u.iter().map(|x| x * us).collect();
            act.apply_state(&it.params, &mut u);
            for (i, x) in u.iter().enumerate() {
                it.u[i] = *x / us;
            }
        }
    }
    if changed {
        let mut l = log.borrow_mut();
        let rec = StartRec {
            npts: it.sol.ts.len(),
            rhs: env.rhs_calls.get(),
            t: it.t,
            u: it.u.iter().cloned().collect(),
            problem: l.problem.clone(),
            tfinal: it.tfinal,
            dtmax: it.opts.dtmax,
            by_cb,
            act,
        };
        l.starts.push(rec);
    }
}

impl<A: OdeAlgorithm + 'static> Sim<A> {
    fn new(sc: &Scenario, alg: A, hook: Option<Hook>, check_iters: bool) -> Result<Self, End> {
        let env = Rc::new(Env::new(sc));
        *env.hook.borrow_mut() = hook;
        let log = Rc::new(RefCell::new(Log {
            starts: vec![],
            cbs: vec![],
            problem: Rc::new(sc.problem.clone()),
        }));
        let e = env.clone();
        let rhs: RhsFn = Box::new(move |mut du, u, t, p| {
            let (b, n) = copy_view(&u);
            e.rhs(p, t, &b[..n], |i, x| du[i] = x);
        });
        let e = env.clone();
        let jac: JacFn = Box::new(move |mut df, u, t, p| {
            let (b, n) = copy_view(&u);
            e.jac(p, t, &b[..n], |r, c, x| df[[r, c]] = x);
        });
        let e = env.clone();
        let lg = log.clone();
        let cb: CbFn<A> = Box::new(move |it: &mut Integ<A>| {
            let (act, fault) = e.callback(it.t);
            let rec = CbRec {
                npts: it.sol.ts.len(),
                t: it.t,
                u: it.u.iter().cloned().collect(),
                tprev: it.tprev,
                uprev: it.uprev.iter().cloned().collect(),
                dtprev: it.dtprev,
                code: code(&it.sol.retcode),
                acc: it.stats.accepts as u64,
                act,
                panicked: fault.is_some(),
                calls: (e.rhs_calls.get(), e.jac_calls.get()),
            };
            lg.borrow_mut().cbs.push(rec);
            if fault == Some(FKind::Panic {}) {
                std::panic::resume_unwind(Box::new(Injected));
            }
            apply_act(&e, &lg, it, act, true);
            e.cur_t.set(it.t);
            if fault.is_some() {
                std::panic::resume_unwind(Box::new(Injected));
            }
        });
        // The closures are boxed and outlive the integrator (field order above).
        let rhs_s: &'static dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &Problem) =
            unsafe { std::mem::transmute(&*rhs as &dyn Fn(_, _, _, &Problem)) };
        let jac_s: &'static dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &Problem) =
            unsafe { std::mem::transmute(&*jac as &dyn Fn(_, _, _, &Problem)) };
        let cb_s: &'static dyn Fn(&mut Integ<A>) =
            unsafe { std::mem::transmute(&*cb as &dyn Fn(&mut Integ<A>)) };
        let b = crate::route::builder(sc, alg, rhs_s, jac_s, cb_s);
        env.begin_op(sc.t0, 10_000);
        let built = catch_unwind(AssertUnwindSafe(|| b.build()));
        let integ = match built {
            Ok(i) => i,
            Err(p) => return Err(end_of(p).unwrap_or(End::LibPanic("fault in build".into()))),
        };
        let build = (env.rhs_calls.get(), env.jac_calls.get());
        let mut s = Sim {
            holder: Holder::Direct(Box::new(integ)),
            _rhs: rhs,
            _jac: jac,
            _cb: cb,
            env,
            log,
            obs: vec![],
            shadow_t: vec![],
            shadow_u: vec![],
            append_only: Ok(()),
            post: vec![],
            op: 0,
            done_in_op: 0,
            elementary: 0,
            build,
            end: None,
            shape: 0,
            log_hash: 0,
            check_iters,
            opts: vec![],
        };
        s.opts = crate::route::stored(&s.holder.get().opts);
        s.observe(OpK::Build, false, None, None);
        Ok(s)
    }

    fn observe(
        &mut self,
        op: OpK,
        panicked: bool,
        ret: Option<Option<u64>>,
        yielded: Option<(f64, Vec<f64>)>,
    ) {
        let env = self.env.clone();
        let it = self.holder.get();
        let s = &it.stats;
        let o = Obs {
            op,
            npts: it.sol.ts.len(),
            nus: it.sol.us.len(),
            code: code(&it.sol.retcode),
            stats: Stats {
                steps: s.steps as u64,
                fe: s.function_evals as u64,
                je: s.jacobian_evals as u64,
                dec: s.decompositions as u64,
                ls: s.linear_solves as u64,
                acc: s.accepts as u64,
                rej: s.rejects as u64,
            },
            t: it.t,
            u: it.u.iter().cloned().collect(),
            dt: it.dt,
            tprev: it.tprev,
            uprev: it.uprev.iter().cloned().collect(),
            dtprev: it.dtprev,
            tdir: it.tdir,
            tfinal: it.tfinal,
            dtmax: it.opts.dtmax,
            rhs: env.rhs_calls.get(),
            jac: env.jac_calls.get(),
            cb: env.cb_calls.get(),
            panicked,
            ret,
            yielded,
        };
        // keep an independent copy of what was recorded, to see later that nothing was rewritten
        let known = self.shadow_t.len();
        if o.npts < known || o.nus < known {
            self.append_only = Err(format!("history shrank from {} to {}", known, o.npts));
        } else {
            if known > 0 && it.sol.ts[known - 1].to_bits() != self.shadow_t[known - 1].to_bits() {
                self.append_only = Err(format!("recorded time {} rewritten", known - 1));
            }
            for k in known..o.npts.min(o.nus) {
                self.shadow_t.push(it.sol.ts[k]);
                self.shadow_u.push(it.sol.us[k].iter().cloned().collect());
            }
        }
        for x in [o.t, o.dt, o.tprev, o.dtprev, o.tfinal] {
            self.log_hash = fnv(self.log_hash, x.to_bits());
        }
        for x in o.u.iter().chain(o.uprev.iter()) {
            self.log_hash = fnv(self.log_hash, x.to_bits());
        }
        self.log_hash = fnv(self.log_hash, env.hash.get());
        for x in [
            o.op as u64,
            o.npts as u64,
            o.code as u64,
            o.stats.steps,
            o.stats.fe,
            o.stats.je,
            o.stats.dec,
            o.stats.ls,
            o.stats.acc,
            o.stats.rej,
            o.panicked as u64,
            o.yielded.is_some() as u64,
        ] {
            self.log_hash = fnv(self.log_hash, x);
        }
        let p = self.obs.last();
        let d = |a: u64, b: u64| a.wrapping_sub(b);
        let q = p.map(|p| (p.rhs, p.jac, p.stats, p.npts)).unwrap_or_default();
        for x in [
            o.op as u64,
            d(o.rhs, q.0),
            d(o.jac, q.1),
            d(o.stats.acc, q.2.acc),
            d(o.stats.rej, q.2.rej),
            d(o.npts as u64, q.3 as u64),
            o.code as u64,
            panicked as u64,
        ] {
            self.shape = fnv(self.shape, x);
        }
        self.obs.push(o);
    }

    fn current_op(&self) -> Op {
        self.env.sc.ops.get(self.op).copied().unwrap_or(Op::Step { n: u64::MAX })
    }

    /// Run one library call; None if the run cannot go on.
    fn call(&mut self, op: Op) -> Option<(OpK, bool, Option<Option<u64>>, Option<(f64, Vec<f64>)>)> {
        let kind = match op {
            Op::Step { .. } => OpK::Step,
            Op::Integrate {} => OpK::Integrate,
            Op::NextOwned { .. } | Op::NextMut { .. } => OpK::Next,
            Op::Poke { .. } => OpK::Poke,
        };
        match op {
            Op::NextOwned { .. } => self.holder.owned(),
            Op::NextMut { .. } => self.holder.by_mut(),
            _ => self.holder.direct(),
        }
        if let Op::Poke { act } = op {
            apply_act(&self.env, &self.log, self.holder.get(), act, false);
            return Some((kind, false, None, None));
        }
        let t = self.holder.get().t;
        let budget = if kind == OpK::Integrate { u64::MAX } else { 300_000 };
        self.env.begin_op(t, budget);
        let h = &mut self.holder;
        let r = catch_unwind(AssertUnwindSafe(|| match h {
            Holder::Owned(i) => (None, i.next()),
            Holder::Mut(i, _) => (None, i.next()),
            h => {
                if kind == OpK::Integrate {
                    h.get().integrate();
                    (None, None)
                } else {
                    (Some(h.get().step().map(|x| x as u64)), None)
                }
            }
        }));
        match r {
            Ok((ret, y)) => {
                Some((kind, false, ret, y.map(|(t, u)| (t, u.iter().cloned().collect()))))
            }
            Err(p) => match end_of(p) {
                None => Some((kind, true, None, None)),
                Some(e) => {
                    self.end = Some(e);
                    None
                }
            },
        }
    }

    fn post_ops(&mut self) {
        let post = self.env.sc.post.clone();
        for op in post {
            let n = match op {
                Op::Step { n } | Op::NextOwned { n } | Op::NextMut { n } => n,
                _ => 1,
            };
            for _ in 0..n {
                let before = self.obs.last().unwrap().clone();
                let calls = before.rhs + before.jac + before.cb;
                let Some((k, panicked, ret, y)) = self.call(op) else { return };
                self.observe(k, panicked, ret, None);
                let mut after = self.obs.pop().unwrap();
                let calls = after.rhs + after.jac + after.cb - calls;
                after.op = before.op;
                after.ret = before.ret;
                after.yielded = before.yielded.clone();
                after.rhs = before.rhs;
                after.jac = before.jac;
                after.cb = before.cb;
                let changed = if format!("{:?}", after) != format!("{:?}", before) {
                    Some(format!(
                        "t {:?}->{:?} dt {:?}->{:?} points {}->{} code {}->{} stats {:?}->{:?}",
                        before.t,
                        after.t,
                        before.dt,
                        after.dt,
                        before.npts,
                        after.npts,
                        code_name(before.code),
                        code_name(after.code),
                        before.stats,
                        after.stats
                    ))
                } else {
                    None
                };
                self.post.push(PostRec {
                    op: k,
                    changed,
                    calls,
                    yielded: y.is_some(),
                    ret_some: matches!(ret, Some(Some(_))),
                });
            }
        }
    }
}

/// None for an injected panic, otherwise why the run has to end.
fn end_of(p: Box<dyn std::any::Any + Send>) -> Option<End> {
    if p.is::<Injected>() {
        return None;
    }
    if let Some(w) = p.downcast_ref::<Watchdog>() {
        return Some(End::Watchdog(w.0.to_string()));
    }
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    Some(End::LibPanic(m))
}

impl<A: OdeAlgorithm + 'static> Run for Sim<A> {
    fn advance(&mut self) -> bool {
        if self.end.is_some() {
            return false;
        }
        if self.obs.last().unwrap().code != CONTINUE {
            self.end = Some(End::Done);
            self.post_ops();
            return false;
        }
        self.elementary += 1;
        if self.elementary > 1_000_000 {
            self.end = Some(End::OpLimit);
            return false;
        }
        let op = self.current_op();
        let n = match op {
            Op::Step { n } | Op::NextOwned { n } | Op::NextMut { n } => n,
            _ => 1,
        };
        if self.done_in_op >= n {
            self.op += 1;
            self.done_in_op = 0;
            return true;
        }
        let Some((k, panicked, ret, y)) = self.call(op) else { return false };
        if !panicked {
            self.done_in_op += 1;
        } else if matches!(op, Op::Step { n } if n == UNTIL_PANIC) {
            // the owner reacts
            self.done_in_op = n;
        }
        let none_step = ret == Some(None);
        let no_yield = k == OpK::Next && !panicked && y.is_none();
        self.observe(k, panicked, ret, y);
        let c = self.obs.last().unwrap().code;
        if c == CONTINUE && !panicked && (none_step || no_yield || k == OpK::Integrate) {
            self.end = Some(End::NoneWhileContinue);
            return false;
        }
        true
    }

    fn finish(mut self: Box<Self>) -> Hist {
        self.holder.direct();
        // the thread/nesting hook must not outlive the run
        *self.env.hook.borrow_mut() = None;
        let it = self.holder.get();
        let mut iter_ok = Ok(());
        let nt = self.shadow_t.len();
        let mut append_only = self.append_only.clone();
        let same = |a: &[f64], b: &Array1<f64>| {
            a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits())
        };
        for k in 0..nt.min(it.sol.ts.len()).min(it.sol.us.len()) {
            if it.sol.ts[k].to_bits() != self.shadow_t[k].to_bits()
                || !same(&self.shadow_u[k], &it.sol.us[k])
            {
                append_only = Err(format!("recorded point {} was rewritten later", k));
            }
        }
        if self.check_iters {
            let mut c = 0;
            for (t, u) in &mut it.sol {
                if c >= nt || t.to_bits() != self.shadow_t[c].to_bits() || !same(&self.shadow_u[c], u)
                {
                    iter_ok = Err(format!("borrowing solution iterator differs at {}", c));
                    break;
                }
                c += 1;
            }
            if iter_ok.is_ok() && c != nt {
                iter_ok = Err(format!("borrowing solution iterator ends after {} of {}", c, nt));
            }
            let sol = std::mem::replace(&mut it.sol, OdeSolution::new());
            let mut c = 0;
            for (t, u) in sol {
                if c >= nt || t.to_bits() != self.shadow_t[c].to_bits() || !same(&self.shadow_u[c], &u)
                {
                    iter_ok = Err(format!("consuming solution iterator differs at {}", c));
                    break;
                }
                c += 1;
            }
            if iter_ok.is_ok() && c != nt {
                iter_ok = Err(format!("consuming solution iterator ends after {} of {}", c, nt));
            }
        }
        let mut log = self.log.borrow_mut();
        let env = &self.env;
        let times = std::mem::take(&mut *env.times.borrow_mut());
        let fired = std::mem::take(&mut *env.fired.borrow_mut());
        Hist {
            end: self.end.clone().unwrap_or(End::OpLimit),
            obs: std::mem::take(&mut self.obs),
            ts: std::mem::take(&mut self.shadow_t),
            us: std::mem::take(&mut self.shadow_u),
            append_only,
            iter_ok,
            starts: std::mem::take(&mut log.starts),
            cbs: std::mem::take(&mut log.cbs),
            post: std::mem::take(&mut self.post),
            fired,
            times,
            rhs: env.rhs_calls.get(),
            jac: env.jac_calls.get(),
            ncb: env.cb_calls.get(),
            build_rhs: self.build.0,
            build_jac: self.build.1,
            wall_hits: env.wall_hits.get(),
            nan_arg: env.nan_arg.get(),
            calls_hash: env.hash.get(),
            hash: self.log_hash,
            shape: self.shape,
            opts: std::mem::take(&mut self.opts),
            args: std::mem::take(&mut *env.args.borrow_mut()),
            jacs: std::mem::take(&mut *env.jacs.borrow_mut()),
        }
    }
}

/// Build the integrator of a scenario.  Err when building itself failed.
pub fn make(sc: &Scenario, hook: Option<Hook>, check_iters: bool) -> Result<Box<dyn Run>, End> {
    Ok(match sc.alg {
        AlgK::Dp5 {} => Box::new(Sim::new(sc, DormandPrince5, hook, check_iters)?),
        AlgK::Radau {} => Box::new(Sim::new(sc, Radau5, hook, check_iters)?),
    })
}

pub fn execute_with(sc: &Scenario, hook: Option<Hook>, iters: bool) -> Result<Hist, End> {
    let mut r = make(sc, hook, iters)?;
    while r.advance() {}
    Ok(r.finish())
}

pub fn execute(sc: &Scenario) -> Result<Hist, End> {
    execute_with(sc, None, false)
}
