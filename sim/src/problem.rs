//! Problems with exactly known flow: block-diagonal scalar/planar systems, mixed by plane
//! rotations and a diagonal scaling, u = S Q v.  The problem is the integrator's `Params`, so a
//! callback can change it while the integration runs.

pub const MAXN: usize = 24;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Block {
    /// v' = -dir lam (v - c)
    Decay { lam: f64, c: f64 },
    /// v' = -dir lam (v - g(t)) + g'(t), g = a sin(w (t - tc) + phi)
    Forced { lam: f64, a: f64, w: f64, phi: f64, tc: f64 },
    /// v' = -dir a v^3
    Cubic { a: f64 },
    /// v' = dir r v (1 - v/k)
    Logistic { r: f64, k: f64 },
    /// planar: damped rotation
    Rot { lam: f64, w: f64 },
    /// planar: Hopf normal form with limit cycle radius r0
    Hopf { a: f64, r0: f64, w: f64 },
    /// v' = cubic polynomial in (t - t0)/s
    Poly { c0: f64, c1: f64, c2: f64, c3: f64, t0: f64, s: f64 },
    /// v' = dir a v^2, finite time blow up for a v > 0
    Blowup { a: f64 },
    /// v' = c1 before td (in the direction of integration), c2 after it
    Switch { td: f64, c1: f64, c2: f64 },
}

impl Block {
    pub fn dim(&self) -> usize {
        match self {
            Block::Rot { .. } | Block::Hopf { .. } => 2,
            _ => 1,
        }
    }
    /// Size of the Jacobian (linear blocks).
    pub fn size(&self) -> f64 {
        match self {
            Block::Decay { lam, .. } | Block::Forced { lam, .. } => lam.abs(),
            Block::Rot { lam, w } => lam.abs() + w.abs(),
            _ => 0.0,
        }
    }
    pub fn linear(&self) -> bool {
        matches!(
            self,
            Block::Decay { .. } | Block::Forced { .. } | Block::Rot { .. } | Block::Poly { .. }
        )
    }
    pub fn f(&self, dir: f64, t: f64, v: &[f64], out: &mut [f64]) {
        match *self {
            Block::Decay { lam, c } => out[0] = -dir * lam * (v[0] - c),
            Block::Forced { lam, a, w, phi, tc } => {
                let (s, c) = (w * (t - tc) + phi).sin_cos();
                out[0] = -dir * lam * (v[0] - a * s) + a * w * c;
            }
            Block::Cubic { a } => out[0] = -dir * a * v[0] * v[0] * v[0],
            Block::Logistic { r, k } => out[0] = dir * r * v[0] * (1.0 - v[0] / k),
            Block::Rot { lam, w } => {
                out[0] = -dir * lam * v[0] - w * v[1];
                out[1] = w * v[0] - dir * lam * v[1];
            }
            Block::Hopf { a, r0, w } => {
                let g = dir * a * (1.0 - (v[0] * v[0] + v[1] * v[1]) / (r0 * r0));
                out[0] = g * v[0] - w * v[1];
                out[1] = g * v[1] + w * v[0];
            }
            Block::Poly { c0, c1, c2, c3, t0, s } => {
                let x = (t - t0) / s;
                out[0] = c0 + x * (c1 + x * (c2 + x * c3));
            }
            Block::Blowup { a } => out[0] = dir * a * v[0] * v[0],
            Block::Switch { td, c1, c2 } => out[0] = if (t - td) * dir < 0.0 { c1 } else { c2 },
        }
    }
    /// Jacobian, row major dim x dim.
    pub fn jac(&self, dir: f64, _t: f64, v: &[f64]) -> [f64; 4] {
        match *self {
            Block::Decay { lam, .. } | Block::Forced { lam, .. } => [-dir * lam, 0.0, 0.0, 0.0],
            Block::Cubic { a } => [-3.0 * dir * a * v[0] * v[0], 0.0, 0.0, 0.0],
            Block::Logistic { r, k } => [dir * r * (1.0 - 2.0 * v[0] / k), 0.0, 0.0, 0.0],
            Block::Rot { lam, w } => [-dir * lam, -w, w, -dir * lam],
            Block::Hopf { a, r0, w } => {
                let q = r0 * r0;
                let g = dir * a * (1.0 - (v[0] * v[0] + v[1] * v[1]) / q);
                [
                    g - 2.0 * dir * a * v[0] * v[0] / q,
                    -2.0 * dir * a * v[0] * v[1] / q - w,
                    -2.0 * dir * a * v[0] * v[1] / q + w,
                    g - 2.0 * dir * a * v[1] * v[1] / q,
                ]
            }
            Block::Blowup { a } => [2.0 * dir * a * v[0], 0.0, 0.0, 0.0],
            Block::Poly { .. } | Block::Switch { .. } => [0.0; 4],
        }
    }
    /// Exact flow over h (h has the sign of dir).
    pub fn flow(&self, dir: f64, t: f64, h: f64, v: &[f64], out: &mut [f64]) {
        let hh = dir * h;
        match *self {
            Block::Decay { lam, c } => out[0] = c + (v[0] - c) * (-lam * hh).exp(),
            Block::Forced { lam, a, w, phi, tc } => {
                let g0 = a * (w * (t - tc) + phi).sin();
                let g1 = a * (w * ((t - tc) + h) + phi).sin();
                out[0] = g1 + (v[0] - g0) * (-lam * hh).exp();
            }
            Block::Cubic { a } => out[0] = v[0] / (1.0 + 2.0 * a * hh * v[0] * v[0]).sqrt(),
            Block::Logistic { r, k } => {
                let e = (-r * hh).exp();
                out[0] = v[0] / (e + v[0] / k * (1.0 - e));
            }
            Block::Rot { lam, w } => {
                let (s, c) = (w * h).sin_cos();
                let e = (-lam * hh).exp();
                out[0] = e * (c * v[0] - s * v[1]);
                out[1] = e * (s * v[0] + c * v[1]);
            }
            Block::Hopf { a, r0, w } => {
                let (s, c) = (w * h).sin_cos();
                let e = (-2.0 * a * hh).exp();
                let rho = (v[0] * v[0] + v[1] * v[1]) / (r0 * r0);
                let g = 1.0 / (e + rho * (1.0 - e)).sqrt();
                out[0] = g * (c * v[0] - s * v[1]);
                out[1] = g * (s * v[0] + c * v[1]);
            }
            Block::Poly { c0, c1, c2, c3, t0, s } => {
                // Taylor form around t, exact and without cancellation
                let x = (t - t0) / s;
                let d0 = c0 + x * (c1 + x * (c2 + x * c3));
                let d1 = c1 + x * (2.0 * c2 + x * 3.0 * c3);
                let d2 = c2 + 3.0 * x * c3;
                let d3 = c3;
                let y = h / s;
                out[0] =
                    v[0] + s * y * (d0 + y * (d1 / 2.0 + y * (d2 / 3.0 + y * d3 / 4.0)));
            }
            Block::Blowup { a } => out[0] = v[0] / (1.0 - a * v[0] * hh),
            Block::Switch { td, c1, c2 } => {
                let before = (((td - t) * dir).max(0.0)).min(hh) * dir;
                out[0] = v[0] + c1 * before + c2 * (h - before);
            }
        }
    }
    /// Scale all rates by f.
    pub fn rate(&mut self, fac: f64) {
        match self {
            Block::Decay { lam, .. } => *lam *= fac,
            Block::Forced { lam, w, .. } => {
                *lam *= fac;
                *w *= fac;
            }
            Block::Cubic { a } | Block::Blowup { a } => *a *= fac,
            Block::Logistic { r, .. } => *r *= fac,
            Block::Rot { w, .. } => *w *= fac,
            Block::Hopf { w, .. } => *w *= fac,
            Block::Poly { c0, c1, .. } => {
                *c0 *= fac;
                *c1 *= fac;
            }
            Block::Switch { c1, c2, .. } => {
                *c1 *= fac;
                *c2 *= fac;
            }
        }
    }
    /// Magnitude of the local Jacobian.
    pub fn stiffness(&self, dir: f64, t: f64, v: &[f64]) -> f64 {
        let j = self.jac(dir, t, v);
        j.iter().fold(0.0, |a: f64, b| a.max(b.abs()))
    }
    /// Frequency of the explicit time dependence.
    pub fn freq(&self) -> f64 {
        match *self {
            Block::Forced { w, .. } => w.abs(),
            Block::Poly { s, .. } => 3.0 / s.abs(),
            _ => 0.0,
        }
    }
    /// Growth bound of differences per unit time (contraction: <= 0), used by the global oracle.
    pub fn growth(&self) -> f64 {
        match *self {
            Block::Logistic { r, .. } => r,
            Block::Hopf { a, .. } => a,
            _ => 0.0,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Problem {
    pub dir: f64,
    pub blocks: Vec<Block>,
    /// plane rotations (i, j, cos, sin)
    pub givens: Vec<(usize, usize, f64, f64)>,
    pub scale: Vec<f64>,
}

impl Problem {
    pub fn n(&self) -> usize {
        self.scale.len()
    }
    pub fn to_v(&self, u: &[f64], v: &mut [f64]) {
        let n = self.n();
        for i in 0..n {
            v[i] = u[i] / self.scale[i];
        }
        for &(i, j, c, s) in self.givens.iter().rev() {
            let (a, b) = (v[i], v[j]);
            v[i] = c * a + s * b;
            v[j] = -s * a + c * b;
        }
    }
    pub fn to_u(&self, v: &[f64], u: &mut [f64]) {
        let n = self.n();
        u[..n].copy_from_slice(&v[..n]);
        for &(i, j, c, s) in self.givens.iter() {
            let (a, b) = (u[i], u[j]);
            u[i] = c * a - s * b;
            u[j] = s * a + c * b;
        }
        for i in 0..n {
            u[i] *= self.scale[i];
        }
    }
    /// Calls g(block, offset).
    pub fn each<F: FnMut(&Block, usize)>(&self, mut g: F) {
        let mut o = 0;
        for b in &self.blocks {
            g(b, o);
            o += b.dim();
        }
    }
    pub fn f(&self, t: f64, u: &[f64], du: &mut [f64]) {
        let n = self.n();
        let mut v = [0.0; MAXN];
        let mut w = [0.0; MAXN];
        self.to_v(u, &mut v);
        self.each(|b, o| {
            let d = b.dim();
            b.f(self.dir, t, &v[o..o + d], &mut w[o..o + d]);
        });
        self.to_u(&w[..n], du);
    }
    pub fn jac(&self, t: f64, u: &[f64], out: &mut [f64]) {
        let n = self.n();
        let mut v = [0.0; MAXN];
        self.to_v(u, &mut v);
        let mut col = [0.0; MAXN];
        let mut e = [0.0; MAXN];
        for c in 0..n {
            e[..n].fill(0.0);
            e[c] = 1.0;
            let mut ev = [0.0; MAXN];
            self.to_v(&e, &mut ev);
            let mut w = [0.0; MAXN];
            self.each(|b, o| {
                let j = b.jac(self.dir, t, &v[o..o + b.dim()]);
                if b.dim() == 1 {
                    w[o] = j[0] * ev[o];
                } else {
                    w[o] = j[0] * ev[o] + j[1] * ev[o + 1];
                    w[o + 1] = j[2] * ev[o] + j[3] * ev[o + 1];
                }
            });
            self.to_u(&w[..n], &mut col);
            for r in 0..n {
                out[r * n + c] = col[r];
            }
        }
    }
    pub fn flow(&self, t: f64, h: f64, u: &[f64], out: &mut [f64]) {
        let n = self.n();
        let mut v = [0.0; MAXN];
        let mut w = [0.0; MAXN];
        self.to_v(u, &mut v);
        self.each(|b, o| {
            let d = b.dim();
            b.flow(self.dir, t, h, &v[o..o + d], &mut w[o..o + d]);
        });
        self.to_u(&w[..n], out);
    }
    pub fn linear(&self) -> bool {
        self.blocks.iter().all(|b| b.linear())
    }
    /// Largest local Jacobian magnitude over the blocks at u.
    pub fn stiffness(&self, t: f64, u: &[f64]) -> f64 {
        let mut v = [0.0; MAXN];
        self.to_v(u, &mut v);
        let mut l: f64 = 0.0;
        self.each(|b, o| l = l.max(b.stiffness(self.dir, t, &v[o..o + b.dim()])));
        l
    }
    /// Number of the independent part each component belongs to.
    pub fn groups(&self) -> Vec<usize> {
        let mut g: Vec<usize> = (0..self.n()).collect();
        let mut join = |a: usize, b: usize| {
            let (x, y) = (g[a].min(g[b]), g[a].max(g[b]));
            g.iter_mut().filter(|k| **k == y).for_each(|k| *k = x);
        };
        self.each(|b, o| {
            if b.dim() == 2 {
                join(o, o + 1);
            }
        });
        for &(i, j, _, _) in &self.givens {
            join(i, j);
        }
        g
    }
    pub fn freq(&self) -> f64 {
        self.blocks.iter().map(|b| b.freq()).fold(0.0, f64::max)
    }
    pub fn growth(&self) -> f64 {
        self.blocks.iter().map(|b| b.growth()).fold(0.0, f64::max)
    }
}

crate::codec_enum!(Block {
    Decay { lam, c },
    Forced { lam, a, w, phi, tc },
    Cubic { a },
    Logistic { r, k },
    Rot { lam, w },
    Hopf { a, r0, w },
    Poly { c0, c1, c2, c3, t0, s },
    Blowup { a },
    Switch { td, c1, c2 }
});
crate::codec_struct!(Problem { dir, blocks, givens, scale });
