//! C09: several integrators at once - interleaved, preempted, nested - against each alone.

use crate::cases::Out;
use crate::env::fnv;
use crate::rng::Rng;
use crate::run::*;
use crate::scenario::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

/// Everything observable of a run.
fn digest(h: &Hist) -> u64 {
    let mut d = fnv(h.hash, h.calls_hash);
    for t in &h.ts {
        d = fnv(d, t.to_bits());
    }
    for u in &h.us {
        for x in u {
            d = fnv(d, x.to_bits());
        }
    }
    fnv(d, h.code() as u64)
}

struct Token {
    turn: usize,
    alive: Vec<bool>,
    rng: Rng,
    log: u64,
}

impl Token {
    fn next(&mut self) {
        let live: Vec<usize> = (0..self.alive.len()).filter(|&i| self.alive[i]).collect();
        if !live.is_empty() {
            self.turn = *self.rng.pick(&live);
            self.log = fnv(self.log, self.turn as u64);
        }
    }
}

/// Execute all runs of the case together.
pub fn together(case: &Case) -> Result<(Vec<Hist>, u64), String> {
    match case.inter {
        Inter::Alone {} | Inter::Sweep { .. } | Inter::Twin { .. } => {
            let mut v = vec![];
            for s in &case.runs {
                v.push(execute(s).map_err(|e| format!("{:?}", e))?);
            }
            Ok((v, 0))
        }
        Inter::Steps { seed } => {
            let mut rng = Rng::new(seed);
            let mut sims = vec![];
            for s in &case.runs {
                sims.push(make(s, None, false).map_err(|e| format!("{:?}", e))?);
            }
            let mut live: Vec<usize> = (0..sims.len()).collect();
            let mut log = 0;
            while !live.is_empty() {
                let k = rng.below(live.len() as u64) as usize;
                log = fnv(log, live[k] as u64);
                if !sims[live[k]].advance() {
                    live.remove(k);
                }
            }
            Ok((sims.into_iter().map(|s| s.finish()).collect(), log))
        }
        Inter::Threads { seed, every } => {
            let n = case.runs.len();
            let tok = Arc::new((
                Mutex::new(Token { turn: 0, alive: vec![true; n], rng: Rng::new(seed), log: 0 }),
                Condvar::new(),
            ));
            let mut handles = vec![];
            for (i, s) in case.runs.iter().enumerate() {
                let s = s.clone();
                let tok = tok.clone();
                handles.push(std::thread::spawn(move || {
                    let wait = |tok: &Arc<(Mutex<Token>, Condvar)>| {
                        let mut g = tok.0.lock().unwrap();
                        while g.turn != i {
                            g = tok.1.wait(g).unwrap();
                        }
                    };
                    wait(&tok);
                    let t2 = tok.clone();
                    let hook: crate::env::Hook = Box::new(move |call| {
                        if call % every != 0 {
                            return;
                        }
                        let mut g = t2.0.lock().unwrap();
                        g.next();
                        if g.turn != i {
                            t2.1.notify_all();
                            while g.turn != i {
                                g = t2.1.wait(g).unwrap();
                            }
                        }
                    });
                    let r = execute_with(&s, Some(hook), false);
                    let mut g = tok.0.lock().unwrap();
                    g.alive[i] = false;
                    g.next();
                    tok.1.notify_all();
                    r.map_err(|e| format!("{:?}", e))
                }));
            }
            let mut v = vec![];
            for h in handles {
                v.push(h.join().map_err(|_| "simulation thread died".to_string())??);
            }
            let log = tok.0.lock().unwrap().log;
            Ok((v, log))
        }
        Inter::Nested { seed, every } => {
            let rng = Rc::new(RefCell::new(Rng::new(seed)));
            let inner: Vec<Scenario> = case.runs[1..].to_vec();
            let got: Rc<RefCell<Vec<Option<Hist>>>> =
                Rc::new(RefCell::new(inner.iter().map(|_| None).collect()));
            let order = Rc::new(RefCell::new(0u64));
            let (g2, o2, in2) = (got.clone(), order.clone(), inner.clone());
            let err: Rc<RefCell<Option<String>>> = Rc::new(RefCell::new(None));
            let e2 = err.clone();
            let mut left = 2 * inner.len() as u64;
            let hook: crate::env::Hook = Box::new(move |call| {
                if left == 0 || rng.borrow_mut().below(every) != 0 {
                    return;
                }
                left -= 1;
                let k = rng.borrow_mut().below(in2.len() as u64) as usize;
                let x = fnv(*o2.borrow(), call * 16 + k as u64);
                *o2.borrow_mut() = x;
                match execute(&in2[k]) {
                    Ok(h) => g2.borrow_mut()[k] = Some(h),
                    Err(e) => *e2.borrow_mut() = Some(format!("{:?}", e)),
                }
            });
            let outer = execute_with(&case.runs[0], Some(hook), false).map_err(|e| format!("{:?}", e))?;
            if let Some(e) = err.borrow().clone() {
                return Err(e);
            }
            let mut v = vec![outer];
            for (k, s) in inner.iter().enumerate() {
                let h = got.borrow_mut()[k].take();
                match h {
                    Some(h) => v.push(h),
                    None => v.push(execute(s).map_err(|e| format!("{:?}", e))?),
                }
            }
            let log = *order.borrow();
            Ok((v, log))
        }
    }
}

pub fn judge(case: &Case, out: &mut Out) -> Result<(), String> {
    let (hs, log) = together(case)?;
    out.shape = fnv(out.shape, log);
    out.nontrivial = case.runs.len() > 1 && log != 0;
    for (i, s) in case.runs.iter().enumerate() {
        let alone = execute(s).map_err(|e| format!("building failed: {:?}", e))?;
        out.add(s, &hs[i]);
        crate::oracle::sane_end(&alone)?;
        crate::oracle::sane_end(&hs[i])?;
        if digest(&alone) != digest(&hs[i]) {
            let why = crate::oracle::same_outcome(&hs[i], &alone)
                .err()
                .unwrap_or_else(|| "different observable history".to_string());
            return Err(format!("run {} of {} differs from the same run alone: {}", i, case.runs.len(), why));
        }
        // and once more, fully repeated
        let again = execute(s).map_err(|e| format!("{:?}", e))?;
        if digest(&alone) != digest(&again) {
            return Err(format!("run {} is not repeatable", i));
        }
    }
    Ok(())
}
