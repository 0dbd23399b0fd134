//! Greedy minimisation of a violating case: drop faults, events, operations, options, problem
//! parts as long as the violation stays.

use crate::cases::{at_call, check_case};
use crate::problem::Block;
use crate::scenario::*;

fn drop_block(s: &Scenario, k: usize) -> Option<Scenario> {
    if s.problem.blocks.len() < 2 || !s.problem.givens.is_empty() {
        return None;
    }
    let mut o = 0;
    for b in &s.problem.blocks[..k] {
        o += b.dim();
    }
    let d = s.problem.blocks[k].dim();
    let mut s = s.clone();
    s.problem.blocks.remove(k);
    s.problem.scale.drain(o..o + d);
    s.u0.drain(o..o + d);
    Some(s)
}

fn variants(s: &Scenario) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut c = s.clone();
        f(&mut c);
        if &c != s {
            v.push(c);
        }
    };
    push(&|c| c.faults.clear());
    push(&|c| {
        c.events.clear();
        c.cb = false
    });
    push(&|c| c.events.clear());
    push(&|c| c.ops.clear());
    push(&|c| c.post.clear());
    push(&|c| c.walls.clear());
    for k in 0..9 {
        push(&|c| c.vary &= !(1 << k));
    }
    for i in 0..s.faults.len() {
        push(&|c| {
            c.faults.remove(i);
        });
        push(&|c| c.faults[i].len = 1);
        push(&|c| c.faults[i].len = (c.faults[i].len / 2).max(1));
        push(&|c| c.faults[i].comp = 0);
        if !s.faults[i].kind.is_panic() && s.faults[i].site == (Site::Rhs {}) {
            push(&|c| c.faults[i].kind = FKind::NanAll {});
        }
        push(&|c| c.faults[i].at /= 2);
    }
    for i in 0..s.events.len() {
        push(&|c| {
            c.events.remove(i);
        });
        push(&|c| c.events[i].at /= 2);
    }
    for i in 0..s.ops.len() {
        push(&|c| {
            c.ops.remove(i);
        });
        push(&|c| match &mut c.ops[i] {
            Op::Step { n } | Op::NextOwned { n } | Op::NextMut { n } => *n = (*n / 2).max(1),
            _ => {}
        });
    }
    for i in 0..s.post.len() {
        push(&|c| {
            c.post.remove(i);
        });
    }
    for i in 0..s.walls.len() {
        push(&|c| {
            c.walls.remove(i);
        });
    }
    let d = Opts::default(s.alg);
    push(&|c| {
        let (r, a) = (c.opts.reltol, c.opts.abstol);
        c.opts = d.clone();
        c.opts.reltol = r;
        c.opts.abstol = a;
    });
    macro_rules! opt {
        ($($f:ident),*) => { $( push(&|c| c.opts.$f = d.$f.clone()); )* };
    }
    opt!(
        dense, dtstart, dtmax, max_steps, max_newt, max_stiff, modern, safe, facl, facr, quot1,
        quot2, beta, fnewt, ext, hess, theta
    );
    push(&|c| {
        c.opts.reltol = 1e-3;
        c.opts.abstol = 1e-6;
    });
    push(&|c| c.problem.givens.clear());
    push(&|c| {
        for i in 0..c.u0.len() {
            c.u0[i] /= c.problem.scale[i];
            c.problem.scale[i] = 1.0;
        }
    });
    for k in 0..s.problem.blocks.len() {
        if let Some(c) = drop_block(s, k) {
            v.push(c);
        }
    }
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut c = s.clone();
        f(&mut c);
        if &c != s {
            v.push(c);
        }
    };
    push(&|c| {
        let t0 = c.t0;
        c.tf -= t0;
        c.t0 = 0.0;
        for b in c.problem.blocks.iter_mut() {
            match b {
                Block::Forced { tc, .. } => *tc -= t0,
                Block::Poly { t0: p, .. } => *p -= t0,
                Block::Switch { td, .. } => *td -= t0,
                _ => {}
            }
        }
        for w in c.walls.iter_mut() {
            if let Wall::Time { b, .. } = w {
                *b -= t0;
            }
        }
    });
    if (s.tf - s.t0).abs() > 1e-3 {
        push(&|c| c.tf = c.t0 + (c.tf - c.t0) / 2.0);
    }
    for i in 0..s.u0.len() {
        push(&|c| c.u0[i] = c.problem.scale[i]);
    }
    v
}

fn violates(c: &Case) -> bool {
    check_case(c).viol.is_some()
}

pub fn shrink(case: &Case, max_tries: usize) -> Case {
    let mut best = case.clone();
    if let Inter::Sweep { lo, hi } = case.inter {
        match (lo..=hi).map(|at| at_call(case, at)).find(violates) {
            Some(c) => best = c,
            None => return best,
        }
    }
    let mut tries = 0;
    loop {
        let mut improved = false;
        let mut cand: Vec<Case> = vec![];
        if best.runs.len() > 1 {
            for i in 0..best.runs.len() {
                if best.runs.len() > 2 {
                    let mut c = best.clone();
                    c.runs.remove(i);
                    cand.push(c);
                }
            }
        }
        for i in 0..best.runs.len() {
            for s in variants(&best.runs[i]) {
                let mut c = best.clone();
                c.runs[i] = s;
                cand.push(c);
            }
        }
        for c in cand {
            if tries >= max_tries {
                return best;
            }
            tries += 1;
            if violates(&c) {
                best = c;
                improved = true;
                break;
            }
        }
        if !improved {
            return best;
        }
    }
}
