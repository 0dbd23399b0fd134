//! Small executable reference models: one Dormand-Prince 5(4) step with its embedded error
//! estimate, and one 3-stage Radau IIA collocation step with Hairer's filtered estimate.
//! Written from the published tableaux, independently of the code under test.

use crate::problem::{Block, Problem, MAXN};

pub struct DpStep {
    pub unew: [f64; MAXN],
    pub uerr: [f64; MAXN],
    /// max |k| per component over the stages
    pub kmax: [f64; MAXN],
}

pub const A: [[f64; 6]; 7] = [
    [0.0; 6],
    [1.0 / 5.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [3.0 / 40.0, 9.0 / 40.0, 0.0, 0.0, 0.0, 0.0],
    [44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0, 0.0, 0.0, 0.0],
    [19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0, 0.0, 0.0],
    [9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0, 0.0],
    [35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
];
pub const C: [f64; 7] = [0.0, 0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
const BHAT: [f64; 7] = [
    5179.0 / 57600.0,
    0.0,
    7571.0 / 16695.0,
    393.0 / 640.0,
    -92097.0 / 339200.0,
    187.0 / 2100.0,
    1.0 / 40.0,
];

pub fn dp5(p: &Problem, t: f64, h: f64, u: &[f64]) -> DpStep {
    let n = p.n();
    let mut k = [[0.0; MAXN]; 7];
    let mut y = [0.0; MAXN];
    for s in 0..7 {
        for i in 0..n {
            let mut acc = 0.0;
            for j in 0..s.min(6) {
                acc += A[s][j] * k[j][i];
            }
            y[i] = u[i] + h * acc;
        }
        p.f(t + C[s] * h, &y, &mut k[s]);
    }
    let mut r = DpStep { unew: y, uerr: [0.0; MAXN], kmax: [0.0; MAXN] };
    for i in 0..n {
        let mut e = 0.0;
        for s in 0..7 {
            let b = if s < 6 { A[6][s] } else { 0.0 };
            e += (b - BHAT[s]) * k[s][i];
            r.kmax[i] = r.kmax[i].max(k[s][i].abs());
        }
        r.uerr[i] = h * e;
    }
    r
}

pub struct RadauStep {
    pub unew: [f64; MAXN],
    /// filtered error estimates in u-space: first one, and the re-evaluated one
    pub est1: [f64; MAXN],
    pub est2: [f64; MAXN],
    pub converged: bool,
}

pub fn radau_tab() -> ([f64; 3], [[f64; 3]; 3]) {
    let q = 6f64.sqrt();
    (
        [(4.0 - q) / 10.0, (4.0 + q) / 10.0, 1.0],
        [
            [(88.0 - 7.0 * q) / 360.0, (296.0 - 169.0 * q) / 1800.0, (-2.0 + 3.0 * q) / 225.0],
            [(296.0 + 169.0 * q) / 1800.0, (88.0 + 7.0 * q) / 360.0, (-2.0 - 3.0 * q) / 225.0],
            [(16.0 - q) / 36.0, (16.0 + q) / 36.0, 1.0 / 9.0],
        ],
    )
}

/// Solve a small dense system in place (m <= 6), partial pivoting.
fn solve(m: usize, a: &mut [[f64; 6]; 6], b: &mut [f64; 6]) {
    for c in 0..m {
        let mut p = c;
        for r in c + 1..m {
            if a[r][c].abs() > a[p][c].abs() {
                p = r;
            }
        }
        a.swap(c, p);
        b.swap(c, p);
        for r in c + 1..m {
            let f = a[r][c] / a[c][c];
            if f != 0.0 {
                for k in c..m {
                    a[r][k] -= f * a[c][k];
                }
                b[r] -= f * b[c];
            }
        }
    }
    for c in (0..m).rev() {
        for k in c + 1..m {
            b[c] -= a[c][k] * b[k];
        }
        b[c] /= a[c][c];
    }
}

/// Collocation increments z (3 stages x dim) of one block; the method commutes with linear
/// changes of variables, so blocks can be treated one by one in v-space.
fn block_collocation(b: &Block, dir: f64, t: f64, h: f64, v: &[f64]) -> ([[f64; 2]; 3], bool) {
    let (c, a) = radau_tab();
    let d = b.dim();
    let mut z = [[0.0; 2]; 3];
    for s in 0..3 {
        let mut w = [0.0; 2];
        b.flow(dir, t, c[s] * h, v, &mut w);
        for i in 0..d {
            z[s][i] = w[i] - v[i];
        }
    }
    let m = 3 * d;
    let mut ok = false;
    let mut last = f64::INFINITY;
    for _it in 0..50 {
        let mut f = [[0.0; 2]; 3];
        let mut jac = [[0.0; 4]; 3];
        for s in 0..3 {
            let mut y = [0.0; 2];
            for i in 0..d {
                y[i] = v[i] + z[s][i];
            }
            b.f(dir, t + c[s] * h, &y, &mut f[s]);
            jac[s] = b.jac(dir, t + c[s] * h, &y);
        }
        let mut mat = [[0.0; 6]; 6];
        let mut rhs = [0.0; 6];
        let mut size: f64 = 0.0;
        for s in 0..3 {
            for i in 0..d {
                let r = s * d + i;
                let mut acc = z[s][i];
                for q in 0..3 {
                    acc -= h * a[s][q] * f[q][i];
                    for j in 0..d {
                        mat[r][q * d + j] = -h * a[s][q] * jac[q][i * d + j];
                    }
                }
                mat[r][r] += 1.0;
                rhs[r] = -acc;
                size = size.max(z[s][i].abs()).max(v[i].abs());
            }
        }
        solve(m, &mut mat, &mut rhs);
        let mut delta: f64 = 0.0;
        for s in 0..3 {
            for i in 0..d {
                z[s][i] += rhs[s * d + i];
                delta = delta.max(rhs[s * d + i].abs());
            }
        }
        if !delta.is_finite() {
            break;
        }
        if delta <= 1e-15 * size || (delta <= 1e-10 * size && delta >= 0.5 * last) {
            ok = true;
            break;
        }
        last = delta;
    }
    (z, ok)
}

/// One Radau IIA step from (t,u) with the estimate formed with the true Jacobian at (t,u).
pub fn radau(p: &Problem, t: f64, h: f64, u: &[f64]) -> RadauStep {
    let n = p.n();
    let q = 6f64.sqrt();
    let hee = [-(13.0 + 7.0 * q) / (3.0 * h), (-13.0 + 7.0 * q) / (3.0 * h), -1.0 / (3.0 * h)];
    // the real eigenvalue of A^-1: 30 / (6 + 81^(1/3) - 9^(1/3))
    let gam0 = 30.0 / (6.0 + 81f64.powf(1.0 / 3.0) - 9f64.powf(1.0 / 3.0)) / h;
    let mut v = [0.0; MAXN];
    p.to_v(u, &mut v);
    let mut vnew = [0.0; MAXN];
    let mut e1 = [0.0; MAXN];
    let mut e2 = [0.0; MAXN];
    let mut f2 = [0.0; MAXN];
    let mut ok = true;
    let filt = |b: &Block, o: usize, rhs: &[f64; MAXN], out: &mut [f64; MAXN]| {
        let d = b.dim();
        let j = b.jac(p.dir, t, &v[o..o + d]);
        let mut m = [[0.0; 6]; 6];
        let mut r = [0.0; 6];
        for i in 0..d {
            for k in 0..d {
                m[i][k] = -j[i * d + k];
            }
            m[i][i] += gam0;
            r[i] = rhs[o + i];
        }
        solve(d, &mut m, &mut r);
        for i in 0..d {
            out[o + i] = r[i];
        }
    };
    let mut rhs = [0.0; MAXN];
    p.each(|b, o| {
        let d = b.dim();
        let (z, conv) = block_collocation(b, p.dir, t, h, &v[o..o + d]);
        ok &= conv;
        let mut f0 = [0.0; 2];
        b.f(p.dir, t, &v[o..o + d], &mut f0);
        for i in 0..d {
            vnew[o + i] = v[o + i] + z[2][i];
            f2[o + i] = hee[0] * z[0][i] + hee[1] * z[1][i] + hee[2] * z[2][i];
            rhs[o + i] = f2[o + i] + f0[i];
        }
        filt(b, o, &rhs, &mut e1);
        // second chance: derivative at u + est1
        let mut y = [0.0; 2];
        for i in 0..d {
            y[i] = v[o + i] + e1[o + i];
        }
        b.f(p.dir, t, &y, &mut f0);
        for i in 0..d {
            rhs[o + i] = f2[o + i] + f0[i];
        }
        filt(b, o, &rhs, &mut e2);
    });
    let mut r = RadauStep {
        unew: [0.0; MAXN],
        est1: [0.0; MAXN],
        est2: [0.0; MAXN],
        converged: ok,
    };
    p.to_u(&vnew[..n], &mut r.unew);
    p.to_u(&e1[..n], &mut r.est1);
    p.to_u(&e2[..n], &mut r.est2);
    r
}
