//! The simulated environment: everything the library calls back into.  It computes the true
//! right-hand side / Jacobian, injects the planned faults, keeps the event log (as a hash and as
//! counters) and enforces the evaluation budget.

use crate::problem::{Problem, MAXN};
use crate::scenario::*;
use std::cell::{Cell, RefCell};

pub struct Injected;
pub struct Watchdog(pub &'static str);

#[derive(Clone, Copy, Debug)]
pub struct Fired {
    pub site: Site,
    pub kind: FKind,
    /// index of the call at its site
    pub call: u64,
    /// total right-hand-side calls at that moment
    pub rhs: u64,
    pub t: f64,
    /// the call's time differs from the start time of the running step
    pub trial: bool,
}

#[derive(Clone, Debug)]
pub struct JacRec {
    /// right-hand-side calls before
    pub rhs: u64,
    pub t: f64,
    pub u: Vec<f64>,
    /// values written, row by row; empty when the call panicked
    pub j: Vec<f64>,
    /// meant to make an iteration matrix singular
    pub pole: bool,
}

pub type Hook = Box<dyn FnMut(u64)>;

pub struct Env {
    pub sc: Scenario,
    pub rhs_calls: Cell<u64>,
    pub jac_calls: Cell<u64>,
    pub cb_calls: Cell<u64>,
    pub op_mark: Cell<u64>,
    pub op_budget: Cell<u64>,
    pub cur_t: Cell<f64>,
    /// hash of the calls made by the library and of the faults answered to them
    pub hash: Cell<u64>,
    pub times: RefCell<Vec<f64>>,
    left: RefCell<Vec<u64>>,
    pub fired: RefCell<Vec<Fired>>,
    pub wall_hits: Cell<u64>,
    /// something not finite, or huge, was handed out
    pub wild: Cell<bool>,
    /// first right-hand-side call with an argument not finite although nothing wild was handed out
    pub nan_arg: Cell<Option<u64>>,
    lastj: RefCell<Option<(f64, Vec<f64>)>>,
    pub args: RefCell<Vec<f64>>,
    pub jacs: RefCell<Vec<JacRec>>,
    pub hook: RefCell<Option<Hook>>,
}

pub fn fnv(h: u64, x: u64) -> u64 {
    let mut h = h ^ x;
    h = h.wrapping_mul(0x0000_0100_0000_01B3);
    h ^ (h >> 29)
}

impl Env {
    pub fn new(sc: &Scenario) -> Env {
        Env {
            sc: sc.clone(),
            rhs_calls: Cell::new(0),
            jac_calls: Cell::new(0),
            cb_calls: Cell::new(0),
            op_mark: Cell::new(0),
            op_budget: Cell::new(u64::MAX),
            cur_t: Cell::new(sc.t0),
            hash: Cell::new(0xcbf2_9ce4_8422_2325),
            times: RefCell::new(Vec::new()),
            left: RefCell::new(sc.faults.iter().map(|f| f.len).collect()),
            fired: RefCell::new(Vec::new()),
            wall_hits: Cell::new(0),
            wild: Cell::new(false),
            nan_arg: Cell::new(None),
            lastj: RefCell::new(None),
            args: RefCell::new(Vec::new()),
            jacs: RefCell::new(Vec::new()),
            hook: RefCell::new(None),
        }
    }
    pub fn note(&self, x: u64) {
        self.hash.set(fnv(self.hash.get(), x));
    }
    pub fn begin_op(&self, t: f64, budget: u64) {
        self.cur_t.set(t);
        self.op_mark.set(self.rhs_calls.get() + self.jac_calls.get());
        self.op_budget.set(budget);
    }
    fn enter(&self) {
        let n = self.rhs_calls.get() + self.jac_calls.get();
        if n - self.op_mark.get() > self.op_budget.get() {
            std::panic::resume_unwind(Box::new(Watchdog("evaluations in one call")));
        }
        if n > self.sc.budget {
            std::panic::resume_unwind(Box::new(Watchdog("evaluations in the run")));
        }
        // the hook may run other integrators; it is taken out so that it cannot re-enter itself
        let h = self.hook.borrow_mut().take();
        if let Some(mut h) = h {
            h(n);
            *self.hook.borrow_mut() = Some(h);
        }
    }
    /// The planned fault for this call, if any.
    fn fault(&self, site: Site, call: u64, t: f64) -> Option<(FKind, usize)> {
        let trial = t != self.cur_t.get();
        let mut left = self.left.borrow_mut();
        for (i, f) in self.sc.faults.iter().enumerate() {
            if f.site != site || call < f.at || left[i] == 0 {
                continue;
            }
            let ok = match f.when {
                When::Any {} => true,
                When::Trial {} => trial,
                When::Start {} => !trial,
            };
            if ok {
                left[i] -= 1;
                self.fired.borrow_mut().push(Fired {
                    site,
                    kind: f.kind,
                    call,
                    rhs: self.rhs_calls.get(),
                    t,
                    trial,
                });
                self.note(0xfa17 + i as u64);
                return Some((f.kind, f.comp));
            }
        }
        None
    }
    pub fn rhs(&self, p: &Problem, t: f64, u: &[f64], mut out: impl FnMut(usize, f64)) {
        self.enter();
        let call = self.rhs_calls.get();
        self.rhs_calls.set(call + 1);
        self.note(0x0f);
        self.note(t.to_bits());
        for x in u {
            self.note(x.to_bits());
        }
        self.times.borrow_mut().push(t);
        if !self.wild.get() && self.nan_arg.get().is_none() && !u.iter().all(|x| x.is_finite()) {
            self.nan_arg.set(Some(call));
        }
        if self.sc.trace {
            self.args.borrow_mut().extend_from_slice(u);
        }
        let n = p.n();
        let Units { ts, us } = self.sc.units;
        let at = t;
        let t = t * ts;
        let mut w = [0.0; MAXN];
        for i in 0..n {
            w[i] = u[i] * us;
        }
        let u = &w[..n];
        let mut out = |i: usize, x: f64| out(i, x * ts / us);
        let mut f = [0.0; MAXN];
        p.f(t, u, &mut f);
        if !self.sc.walls.is_empty() {
            let mut v = [0.0; MAXN];
            p.to_v(u, &mut v);
            for w in &self.sc.walls {
                if let Some(inf) = w.hit(p.dir, t, &v[..n]) {
                    self.wall_hits.set(self.wall_hits.get() + 1);
                    f[..n].fill(if inf { f64::INFINITY } else { f64::NAN });
                }
            }
        }
        if let Some((kind, comp)) = self.fault(Site::Rhs {}, call, at) {
            let c = comp % n;
            match kind {
                FKind::NanOne {} => f[c] = f64::NAN,
                FKind::NanAll {} => f[..n].fill(f64::NAN),
                FKind::PosInf {} => f[c] = f64::INFINITY,
                FKind::NegInf {} => f[c] = f64::NEG_INFINITY,
                // (behind a wall there are no finite values)
                FKind::Huge { x } => {
                    if f[c].is_finite() {
                        f[c] = x
                    }
                }
                FKind::Panic {} => std::panic::resume_unwind(Box::new(Injected)),
                FKind::Torn {} | FKind::TornNan {} => {
                    self.wild.set(true);
                    for i in 0..(n + 1) / 2 {
                        out(i, if kind == (FKind::Torn {}) { f[i] } else { f64::NAN });
                    }
                    std::panic::resume_unwind(Box::new(Injected));
                }
                _ => {}
            }
        }
        if !f[..n].iter().all(|x| x.abs() < 1e100) {
            self.wild.set(true);
        }
        for i in 0..n {
            out(i, f[i]);
        }
    }
    pub fn jac(&self, p: &Problem, t: f64, u: &[f64], mut out: impl FnMut(usize, usize, f64)) {
        self.enter();
        let call = self.jac_calls.get();
        self.jac_calls.set(call + 1);
        self.note(0x1ac);
        self.note(t.to_bits());
        for x in u {
            self.note(x.to_bits());
        }
        let n = p.n();
        let Units { ts, us } = self.sc.units;
        let at = t;
        let t = t * ts;
        let mut w = [0.0; MAXN];
        for i in 0..n {
            w[i] = u[i] * us;
        }
        let u = &w[..n];
        let mut out = |r: usize, c: usize, x: f64| out(r, c, x * ts);
        let mut j = [0.0; MAXN * MAXN];
        p.jac(t, u, &mut j);
        if self.sc.trace {
            self.jacs.borrow_mut().push(JacRec {
                rhs: self.rhs_calls.get(),
                t: at,
                u: u.to_vec(),
                j: vec![],
                pole: false,
            });
        }
        let prev = self.lastj.borrow_mut().replace((t, u.to_vec()));
        if let Some((kind, comp)) = self.fault(Site::Jac {}, call, at) {
            let c = comp % (n * n);
            match kind {
                FKind::NanOne {} => j[c] = f64::NAN,
                FKind::NanAll {} => j[..n * n].fill(f64::NAN),
                FKind::PosInf {} => j[c] = f64::INFINITY,
                FKind::NegInf {} => j[c] = f64::NEG_INFINITY,
                FKind::JZero {} => j[..n * n].fill(0.0),
                FKind::JScale { x } => j[..n * n].iter_mut().for_each(|e| *e *= x),
                FKind::JStale {} => {
                    if let Some((pt, pu)) = prev {
                        p.jac(pt, &pu, &mut j);
                    }
                }
                FKind::JSing {} => j[..n * n].fill(1e60),
                FKind::JHuge { x } | FKind::Huge { x } => j[c] = x,
                FKind::JPole { x, y } => {
                    j[..n * n].fill(0.0);
                    let c = comp % n;
                    j[c * n + c] = x;
                    if y != 0.0 {
                        let d = (c + 1) % n;
                        j[d * n + d] = x;
                        j[c * n + d] = y;
                        j[d * n + c] = -y;
                    }
                }
                FKind::Panic {} => std::panic::resume_unwind(Box::new(Injected)),
                FKind::Torn {} | FKind::TornNan {} => {
                    self.wild.set(true);
                    for i in 0..(n * n + 1) / 2 {
                        out(i / n, i % n, if kind == (FKind::Torn {}) { j[i] } else { f64::NAN });
                    }
                    std::panic::resume_unwind(Box::new(Injected));
                }
            }
        }
        if !j[..n * n].iter().all(|x| x.abs() < 1e100) {
            self.wild.set(true);
        }
        if let Some(x) = self.jacs.borrow_mut().last_mut() {
            x.j = j[..n * n].to_vec();
            x.pole = matches!(self.fired.borrow().last(), Some(f) if f.site == Site::Jac {} && f.call == call && matches!(f.kind, FKind::JPole { .. }));
        }
        for r in 0..n {
            for c in 0..n {
                out(r, c, j[r * n + c]);
            }
        }
    }
    /// Called at the start of each callback; returns the action planned for it and whether the
    /// callback must panic before (Panic) or after (Torn) carrying it out.
    pub fn callback(&self, t: f64) -> (Act, Option<FKind>) {
        self.enter();
        let call = self.cb_calls.get();
        self.cb_calls.set(call + 1);
        self.note(0xcb);
        self.note(t.to_bits());
        let f = self.fault(Site::Cb {}, call, t).map(|x| x.0);
        let act = self
            .sc
            .events
            .iter()
            .find(|e| e.at == call)
            .map(|e| e.act)
            .unwrap_or(Act::Nop {});
        (act, f)
    }
}
