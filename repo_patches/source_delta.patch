From e3cd11235f8fb848050f75856b0d66d79171a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:24 +0000
Subject: [PATCH 01/21] fix: use the configured start step, limited by dtmax
 and pointing toward tfinal

---
 src/ode/integrator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 59ddcf7..b4b7512 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -144,6 +144,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
     }
     pub fn dtstart(mut self, val: f64) -> Self {
         self.opts.dtstart = val;
+        self.dt = val;
         self
     }
     pub fn dtmax(mut self, val: f64) -> Self {
@@ -207,6 +208,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         self
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
+        self.dt = (self.dt.abs().min(self.opts.dtmax)).copysign(self.tfinal - self.t);
         let cache = Alg::new_cache(&mut self);
 
         let mut sol = OdeSolution::new();
-- 
2.43.0


From 677e1c00398c0fbcb2ccf52068dd3e7a2b4d1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:24 +0000
Subject: [PATCH 02/21] fix: Radau5 last-step test was wrong for backward
 integration

---
 src/radau/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index e6c8cf4..91eb340 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,7 +98,7 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
-        if integrator.t + integrator.dt * 1.0001 - integrator.tfinal * integrator.tdir >= 0.0 {
+        if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
         }
-- 
2.43.0


From 7e16a4a80b25fabc841f97cd1fba3db197a0346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:24 +0000
Subject: [PATCH 03/21] fix: stepping a finished integration no longer moves it
 past its end

---
 src/ode/integrator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index b4b7512..a6f32b1 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -242,6 +242,13 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
     /// Step the ODE to the next state. Returns solution if finished and
     /// None otherwise.
     pub fn step(&mut self) -> Option<usize> {
+        if self.sol.retcode != super::code::OdeRetCode::Continue {
+            return None;
+        }
+        if (self.tfinal - self.t) * self.tdir <= 0.0 {
+            self.sol.retcode = super::code::OdeRetCode::Success;
+            return None;
+        }
         Alg::step(self);
         match self.callback {
             Some(f) => f(self),
-- 
2.43.0


From b637027a3d3df73839a7f13e27765f096a51a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:25 +0000
Subject: [PATCH 04/21] fix: decide afresh in each step whether it is the last
 one

---
 src/dorm_prince/dp5/algorithm.rs | 1 +
 src/radau/algorithm.rs           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5de0b3d..eaada08 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -58,6 +58,7 @@ impl OdeAlgorithm for DormandPrince5 {
     where
         Self: Sized,
     {
+        integrator.cache.last = false;
         if (integrator.t + 1.01 * integrator.dt - integrator.tfinal) * integrator.tdir > 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 91eb340..33d05e7 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,6 +98,7 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
+        integrator.cache.last = false;
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From e80e9b46df6ca02007742c1a88a8c2635c876fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:25 +0000
Subject: [PATCH 05/21] fix: DormandPrince5 gives up when the step size
 underflows instead of looping

---
 src/dorm_prince/dp5/algorithm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index eaada08..9157598 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -64,15 +64,16 @@ impl OdeAlgorithm for DormandPrince5 {
             integrator.cache.last = true;
         }
         loop {
+            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
+                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
+            }
             DormandPrince5::compute_stages(integrator);
             let err = DormandPrince5::error(integrator);
             DormandPrince5::prepare_next_step(err, integrator);
             if !integrator.cache.reject {
                 break;
             }
-            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
-                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
-            }
         }
 
         integrator.stats.steps += 1;
-- 
2.43.0


From 9be91eca9c5025db488cb257dd5f21715f6ecedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:25 +0000
Subject: [PATCH 06/21] fix: DormandPrince5 took one step more than max_steps

---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 9157598..f3c6c1f 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -80,7 +80,7 @@ impl OdeAlgorithm for DormandPrince5 {
         integrator.sol.ts.push(integrator.t);
         integrator.sol.us.push(integrator.u.clone());
 
-        if integrator.stats.steps > integrator.opts.max_steps {
+        if integrator.stats.steps >= integrator.opts.max_steps {
             integrator.sol.retcode = OdeRetCode::MaxIters;
         }
         if integrator.cache.last {
-- 
2.43.0


From 877dd432e4aeb327c0dc577585aeb398b1b031ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:25 +0000
Subject: [PATCH 07/21] fix: iterators also yield the final point

---
 src/ode/integrator.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index a6f32b1..011dd78 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -309,10 +309,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorIterator<'a, Param
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = self.integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        let recorded = self.integrator.sol.ts.len();
+        self.integrator.step();
+        if self.integrator.sol.ts.len() > recorded {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
@@ -360,10 +362,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorMutIterator<'a, Pa
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = (*self).integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        let recorded = self.integrator.sol.ts.len();
+        (*self).integrator.step();
+        if self.integrator.sol.ts.len() > recorded {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
-- 
2.43.0


From b1c242fd950f07702e2fcb983b9aa6076df4f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:25 +0000
Subject: [PATCH 08/21] fix: exponent of the DormandPrince5 step size
 controller

---
 src/dorm_prince/dp5/prepare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index 2e62a90..c5d154c 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -9,7 +9,7 @@ impl DormandPrince5 {
         integrator: &mut OdeIntegrator<Params, DormandPrince5>,
     ) {
         let beta = integrator.opts.beta;
-        let expo1 = 0.2 - beta.powf(0.75);
+        let expo1 = 0.2 - beta * 0.75;
         let safe = integrator.opts.safe;
         let fac1 = 1.0 / integrator.opts.facl;
         let fac2 = 1.0 / integrator.opts.facr;
-- 
2.43.0


From c7edfa4cc50a4b26a690727ea0ef4a290e8eaa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:25 +0000
Subject: [PATCH 09/21] fix: DormandPrince5 rejects steps that overflow

---
 src/dorm_prince/dp5/error.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dorm_prince/dp5/error.rs b/src/dorm_prince/dp5/error.rs
index 0fb8c66..1154bed 100644
--- a/src/dorm_prince/dp5/error.rs
+++ b/src/dorm_prince/dp5/error.rs
@@ -7,6 +7,9 @@ impl DormandPrince5 {
         let mut err = 0.0;
         let n = integrator.u.len();
         for i in 0..n {
+            if !integrator.cache.unew[i].is_finite() {
+                return f64::INFINITY;
+            }
             let sk = integrator.opts.abstol
                 + integrator.opts.reltol
                     * (integrator.u[i].abs().max(integrator.cache.unew[i].abs()));
-- 
2.43.0


From a088db673b017482cd05d9fa158fdf25be4ebe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:25 +0000
Subject: [PATCH 10/21] fix: Radau5 accepted steps whose error or result is not
 finite

---
 src/radau/error_estimate.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/radau/error_estimate.rs b/src/radau/error_estimate.rs
index 8b6b79d..406f0ec 100644
--- a/src/radau/error_estimate.rs
+++ b/src/radau/error_estimate.rs
@@ -4,6 +4,16 @@ use crate::ode::OdeIntegrator;
 use ndarray::prelude::*;
 
 impl Radau5 {
+    /// Norm of the error; a step with a non-finite error or result is never acceptable.
+    fn finite_error<Params>(integrator: &OdeIntegrator<Params, Radau5>, n: usize) -> f64 {
+        let err = (integrator.cache.err / n as f64).sqrt();
+        let finite = (0..n).all(|i| (integrator.u[i] + integrator.cache.z3[i]).is_finite());
+        if err.is_finite() && finite {
+            err.max(1.0e-10)
+        } else {
+            f64::INFINITY
+        }
+    }
     /// Compute the error estimate for the Radau5 algorithm.
     pub(crate) fn error_estimate<Params>(integrator: &mut OdeIntegrator<Params, Radau5>) {
         integrator.cache.err = 0.0;
@@ -30,7 +40,7 @@ impl Radau5 {
         for i in 0..n {
             integrator.cache.err += (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
         }
-        integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+        integrator.cache.err = Self::finite_error(integrator, n);
 
         if integrator.cache.err < 1.0 {
             return;
@@ -62,7 +72,7 @@ impl Radau5 {
                 integrator.cache.err +=
                     (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
             }
-            integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+            integrator.cache.err = Self::finite_error(integrator, n);
         }
     }
 }
-- 
2.43.0


From 3df8a0bcd18bf612f84e92aa766877b396102295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:26 +0000
Subject: [PATCH 11/21] fix: difference quotient increment for negative
 components

---
 src/ode/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index 81ee302..e93af89 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -21,7 +21,7 @@ pub(crate) fn jacobian_u<Dudt, Dfdu, Params>(
             dudt(du0.view_mut(), u.view(), t, p);
             for i in 0..u.len() {
                 let usafe = utemp[i];
-                let del = (f64::EPSILON * usafe.max(1e-5)).sqrt();
+                let del = (f64::EPSILON * usafe.abs().max(1e-5)).sqrt();
                 utemp[i] = usafe + del;
                 dudt(du1.view_mut(), utemp.view(), t, p);
                 for j in 0..u.len() {
-- 
2.43.0


From 4d5de459e71cadf33c66e81f93257b022568de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:26 +0000
Subject: [PATCH 12/21] fix: Radau5 keeps the previous state

---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 64dd753..d09a925 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -38,6 +38,7 @@ impl Radau5 {
                 integrator.cache.erracc = 1e-2f64.max(integrator.cache.err);
             }
             integrator.tprev = integrator.t;
+            integrator.uprev.assign(&integrator.u);
             integrator.dtprev = integrator.dt;
             integrator.t += integrator.dt;
 
-- 
2.43.0


From 79f9039b9b142f4fdd31291cd765542fd9b6e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:26 +0000
Subject: [PATCH 13/21] fix: Radau5 never uses matrices decomposed for another
 step size

---
 src/radau/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 33d05e7..61d3366 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -104,7 +104,7 @@ impl OdeAlgorithm for Radau5 {
             integrator.cache.last = true;
         }
         loop {
-            if integrator.cache.decompose {
+            if integrator.cache.decompose || integrator.cache.fac1 != Radau5::U1 / integrator.dt {
                 // Perform needed decompositions until we succeed.
                 loop {
                     let success = Self::perform_decompositions(integrator);
-- 
2.43.0


From 2dbccb319fb88542e37f6a22d9238323183936da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:26 +0000
Subject: [PATCH 14/21] fix: Radau5 treats a non-finite Jacobian as a failed
 decomposition and forgives past failures

---
 src/radau/dec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/radau/dec.rs b/src/radau/dec.rs
index 04569fa..9a30fb7 100644
--- a/src/radau/dec.rs
+++ b/src/radau/dec.rs
@@ -53,9 +53,11 @@ impl Radau5 {
         integrator.cache.alphn = Radau5::ALPHA / integrator.dt;
         integrator.cache.betan = Radau5::BETA / integrator.dt;
 
-        if Self::decomp_real(integrator) == 0 {
+        let finite = integrator.cache.dfdu.iter().all(|x| x.is_finite());
+        if finite && Self::decomp_real(integrator) == 0 {
             if Self::decomp_complex(integrator) == 0 {
                 integrator.stats.decompositions += 1;
+                integrator.cache.nsing = 0;
                 return true;
             }
         }
-- 
2.43.0


From e2e2a0f35b88189374b41fd2634e83253db51650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:26 +0000
Subject: [PATCH 15/21] fix: count Jacobian evaluations

---
 src/radau/dec.rs               | 1 +
 src/radau/newton.rs            | 3 +++
 src/radau/step_size_control.rs | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/radau/dec.rs b/src/radau/dec.rs
index 9a30fb7..d8805cd 100644
--- a/src/radau/dec.rs
+++ b/src/radau/dec.rs
@@ -80,6 +80,7 @@ impl Radau5 {
                 integrator.t,
                 &integrator.params,
             );
+            integrator.stats.jacobian_evals += 1;
         }
         return false;
     }
diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 8eae3fd..9117650 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -77,6 +77,7 @@ impl Radau5 {
                         integrator.t,
                         &integrator.params,
                     );
+                    integrator.stats.jacobian_evals += 1;
                 }
                 return false;
             }
@@ -176,6 +177,7 @@ impl Radau5 {
                                 integrator.t,
                                 &integrator.params,
                             );
+                            integrator.stats.jacobian_evals += 1;
                         }
                         return false;
                     }
@@ -193,6 +195,7 @@ impl Radau5 {
                             integrator.t,
                             &integrator.params,
                         );
+                        integrator.stats.jacobian_evals += 1;
                     }
                     return false;
                 }
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index d09a925..9270b33 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -117,6 +117,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         } else {
             // step is rejected
@@ -141,6 +142,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         }
     }
-- 
2.43.0


From 9c8e32880c79e4375e75afd7938ec2adfed72bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:45 +0000
Subject: [PATCH 16/21] fix: DormandPrince5 used a stale derivative after the
 state was changed or an evaluation failed

---
 src/dorm_prince/dp5/algorithm.rs | 12 ++++++++++++
 src/ode/integrator.rs            |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index f3c6c1f..d8dd70f 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -63,11 +63,23 @@ impl OdeAlgorithm for DormandPrince5 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
         }
+        let mut changed = integrator.changed();
         loop {
             if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
                 return;
             }
+            // The derivative kept from the last step must belong to the current state
+            if changed || !integrator.cache.du.iter().all(|x| x.is_finite()) {
+                (integrator.dudt)(
+                    integrator.cache.du.view_mut(),
+                    integrator.u.view(),
+                    integrator.t,
+                    &integrator.params,
+                );
+                integrator.stats.function_evals += 1;
+                changed = false;
+            }
             DormandPrince5::compute_stages(integrator);
             let err = DormandPrince5::error(integrator);
             DormandPrince5::prepare_next_step(err, integrator);
diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 011dd78..5aad30d 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -260,6 +260,13 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
             None
         }
     }
+    /// True if the state may differ from the one the last step ended with:
+    /// a callback or the owner of the integrator can change it between steps.
+    pub(crate) fn changed(&self) -> bool {
+        self.callback.is_some()
+            || self.sol.ts.last() != Some(&self.t)
+            || self.sol.us.last() != Some(&self.u)
+    }
     /// Solve the ODE
     pub fn integrate(&mut self) {
         while let Some(_i) = self.step() {}
-- 
2.43.0


From af9b5dcdfd017b11788e254ec92b3fffcda89284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:45 +0000
Subject: [PATCH 17/21] fix: Radau5 used a stale derivative, scaling and
 convergence rate after the state was changed or an evaluation failed

---
 src/radau/algorithm.rs         | 21 +++++++++++++++++++++
 src/radau/step_size_control.rs |  1 +
 2 files changed, 22 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 61d3366..00b9675 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -103,7 +103,28 @@ impl OdeAlgorithm for Radau5 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
         }
+        let mut changed = integrator.changed();
+        for i in 0..integrator.u.len() {
+            integrator.cache.scal[i] =
+                integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
+        }
         loop {
+            // The derivative kept from the last step must belong to the current state
+            if changed || !integrator.cache.u0.iter().all(|x| x.is_finite()) {
+                integrator.cache.u0.fill(f64::NAN);
+                (integrator.dudt)(
+                    integrator.cache.u0.view_mut(),
+                    integrator.u.view(),
+                    integrator.t,
+                    &integrator.params,
+                );
+                integrator.stats.function_evals += 1;
+                if changed {
+                    // nothing is known about the convergence of Newton's method any more
+                    integrator.cache.faccon = 1.0;
+                }
+                changed = false;
+            }
             if integrator.cache.decompose || integrator.cache.fac1 != Radau5::U1 / integrator.dt {
                 // Perform needed decompositions until we succeed.
                 loop {
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 9270b33..08f3391 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -76,6 +76,7 @@ impl Radau5 {
                 integrator.sol.retcode = OdeRetCode::Success;
                 return;
             }
+            integrator.cache.u0.fill(f64::NAN);
             (integrator.dudt)(
                 integrator.cache.u0.view_mut(),
                 integrator.u.view(),
-- 
2.43.0


From 797c8d6a888c81bbfb05d2385222e7bfd92b8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:16:09 +0000
Subject: [PATCH 18/21] fix: DormandPrince5 could loop on a subnormal step size
 near t = 0

---
 src/dorm_prince/dp5/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index d8dd70f..1fb05f3 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -65,7 +65,9 @@ impl OdeAlgorithm for DormandPrince5 {
         }
         let mut changed = integrator.changed();
         loop {
-            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
+            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON
+                || integrator.dt.abs() < f64::MIN_POSITIVE
+            {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
                 return;
             }
-- 
2.43.0


From 28515f7d6f7bec836670347c153c24dee8cebd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:15 +0000
Subject: [PATCH 19/21] fix: Radau5 went on past the final time when resumed
 after a panic in a retried step

A panic in user code can leave the retry flag set. If the step taken next was
the last one, the flag made the step loop continue beyond the final time.
---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 08f3391..962279e 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -72,6 +72,7 @@ impl Radau5 {
 
             integrator.cache.caljac = false;
             if integrator.cache.last {
+                integrator.cache.reject = false;
                 integrator.dt = integrator.cache.dtopt;
                 integrator.sol.retcode = OdeRetCode::Success;
                 return;
-- 
2.43.0


From ee1a3369b3e083a1371273567136311712d97124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:22:07 +0000
Subject: [PATCH 20/21] fix: start the PI controller with the smallest previous
 error

The error of the last accepted step was initialised with zero, so the
step size was divided by the largest factor after the first step.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 1fb05f3..d7b8199 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -33,7 +33,7 @@ impl OdeAlgorithm for DormandPrince5 {
             n_nonstiff: 0,
             reject: false,
             last: false,
-            facold: 0.0, // previous ratio of dtnew/dt
+            facold: 1e-4, // error of the last accepted step, at least 1e-4
             dtlamb: 0.0,
             k2: Array1::<f64>::zeros(n),
             k3: Array1::<f64>::zeros(n),
-- 
2.43.0


From 816c138a047f8754e6d3bcb5b62ca60880fdb688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:16 +0000
Subject: [PATCH 21/21] fix: a matrix whose first column is zero was reported
 as decomposed

The decompositions return the number of the singular stage, zero meaning
success. Stages were counted from zero, so a vanishing first column looked
like success and Radau5 went on with a division by zero.
---
 src/linalg/dec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index ce9925e..8e3944f 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -28,7 +28,7 @@ pub(crate) fn dec(n: usize, mut a: ArrayViewMut2<f64>, mut ip: ArrayViewMut1<i32
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -89,7 +89,7 @@ pub(crate) fn dech(
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -152,7 +152,7 @@ pub(crate) fn decc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -243,7 +243,7 @@ pub(crate) fn dechc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -341,7 +341,7 @@ pub(crate) fn decb(
                 a[[md, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -429,7 +429,7 @@ pub(crate) fn decbc(
                 ai[[md, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
-- 
2.43.0

