From df9b664aabeef7e9c6fdae6cdb246244e0d339c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:35 +0000
Subject: [PATCH 01/32] fix: start towards the final time and honour dtstart

The first step was always +1e-6: integrating towards an earlier time ran
away from it, and dtstart and dtmax had no effect on the first step.
---
 src/ode/integrator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 59ddcf7..ff53a06 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -144,6 +144,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
     }
     pub fn dtstart(mut self, val: f64) -> Self {
         self.opts.dtstart = val;
+        self.dt = val;
         self
     }
     pub fn dtmax(mut self, val: f64) -> Self {
@@ -207,6 +208,10 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         self
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
+        let tdir = 1f64.copysign(self.tfinal - self.t);
+        // The first step points towards the final time and obeys `dtmax`.
+        self.dt = tdir * self.dt.abs().min(self.opts.dtmax);
+
         let cache = Alg::new_cache(&mut self);
 
         let mut sol = OdeSolution::new();
@@ -224,7 +229,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
             uprev: self.u,
             tprev: self.t,
             dtprev: self.dt,
-            tdir: 1f64.copysign(self.tfinal - self.t),
+            tdir,
             tfinal: self.tfinal,
             opts: self.opts,
             stats: OdeStatistics::new(),
-- 
2.43.0


From fff86946c5ba12269118d1138640cfdb82ad9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:36 +0000
Subject: [PATCH 02/32] fix: detect the last Radau5 step when integrating
 backwards

The direction only multiplied the final time instead of the whole
distance left.
---
 src/radau/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index e6c8cf4..91eb340 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,7 +98,7 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
-        if integrator.t + integrator.dt * 1.0001 - integrator.tfinal * integrator.tdir >= 0.0 {
+        if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
         }
-- 
2.43.0


From 8c728a79e410d1fe378fcc9db481c8d74143c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:37 +0000
Subject: [PATCH 03/32] fix: stop DormandPrince5 when the step size underflows

The return code was set but the attempt loop went on, so a right-hand
side that keeps producing NaN never returned. Steps too small to move t
were also accepted.
---
 src/dorm_prince/dp5/algorithm.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5de0b3d..078e082 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -63,15 +63,17 @@ impl OdeAlgorithm for DormandPrince5 {
             integrator.cache.last = true;
         }
         loop {
+            // Check that the step size isn't too small
+            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
+                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
+            }
             DormandPrince5::compute_stages(integrator);
             let err = DormandPrince5::error(integrator);
             DormandPrince5::prepare_next_step(err, integrator);
             if !integrator.cache.reject {
                 break;
             }
-            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
-                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
-            }
         }
 
         integrator.stats.steps += 1;
-- 
2.43.0


From 3578d02a87279072144458ca85280a923a70cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:38 +0000
Subject: [PATCH 04/32] fix: use 0.2 - 0.75 * beta as the DormandPrince5
 controller exponent

beta^0.75 makes the exponent negative for beta > 0.117, so a rejected
step was retried with a larger step.
---
 src/dorm_prince/dp5/prepare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index 2e62a90..c5d154c 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -9,7 +9,7 @@ impl DormandPrince5 {
         integrator: &mut OdeIntegrator<Params, DormandPrince5>,
     ) {
         let beta = integrator.opts.beta;
-        let expo1 = 0.2 - beta.powf(0.75);
+        let expo1 = 0.2 - beta * 0.75;
         let safe = integrator.opts.safe;
         let fac1 = 1.0 / integrator.opts.facl;
         let fac2 = 1.0 / integrator.opts.facr;
-- 
2.43.0


From e434d3151068e2dc94af4ff69b9ec84643660736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:39 +0000
Subject: [PATCH 05/32] fix: start the DormandPrince5 controller with a
 non-zero previous error

Dividing by 0^beta cut the step by the maximum factor after the first
accepted step, however accurate it was.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 078e082..6595dad 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -33,7 +33,7 @@ impl OdeAlgorithm for DormandPrince5 {
             n_nonstiff: 0,
             reject: false,
             last: false,
-            facold: 0.0, // previous ratio of dtnew/dt
+            facold: 1e-4, // previous ratio of dtnew/dt
             dtlamb: 0.0,
             k2: Array1::<f64>::zeros(n),
             k3: Array1::<f64>::zeros(n),
-- 
2.43.0


From 02287ea234e67b2cad7ef61d7ada854c4938a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:40 +0000
Subject: [PATCH 06/32] fix: refactorise the Radau5 matrices whenever the step
 size changes

After a step that kept the factorisation, a failed Newton iteration or
the final step changed dt but went on with matrices of the old dt: u was
advanced by the old step and t by the new one.
---
 src/radau/algorithm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 91eb340..24c511c 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -101,6 +101,7 @@ impl OdeAlgorithm for Radau5 {
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
+            integrator.cache.decompose = true;
         }
         loop {
             if integrator.cache.decompose {
@@ -130,6 +131,7 @@ impl OdeAlgorithm for Radau5 {
 
             // Solve the non-linear systems using a simplified Newton's method.
             if !Self::newton(integrator) {
+                integrator.cache.decompose = true;
                 continue;
             }
 
-- 
2.43.0


From 3c0e9a3ff38f8c18ded404f54a4b79c650c92929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:41 +0000
Subject: [PATCH 07/32] fix: report a singular first pivot from the
 decompositions

A zero pivot in the first column returned 0, the code for success.
---
 src/linalg/dec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index ce9925e..8e3944f 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -28,7 +28,7 @@ pub(crate) fn dec(n: usize, mut a: ArrayViewMut2<f64>, mut ip: ArrayViewMut1<i32
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -89,7 +89,7 @@ pub(crate) fn dech(
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -152,7 +152,7 @@ pub(crate) fn decc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -243,7 +243,7 @@ pub(crate) fn dechc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -341,7 +341,7 @@ pub(crate) fn decb(
                 a[[md, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -429,7 +429,7 @@ pub(crate) fn decbc(
                 ai[[md, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
-- 
2.43.0


From c1daa16c2b564ad25c197f9253d94ca14dd78326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:42 +0000
Subject: [PATCH 08/32] fix: count Jacobian evaluations and the evaluations
 made by build

jacobian_evals was never incremented and the initial right-hand side
evaluation was not counted.
---
 src/dorm_prince/dp5/algorithm.rs | 1 +
 src/ode/integrator.rs            | 5 ++++-
 src/radau/algorithm.rs           | 2 ++
 src/radau/dec.rs                 | 1 +
 src/radau/newton.rs              | 3 +++
 src/radau/step_size_control.rs   | 2 ++
 6 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 6595dad..7f41bb0 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -27,6 +27,7 @@ impl OdeAlgorithm for DormandPrince5 {
             integrator.t,
             &integrator.params,
         );
+        integrator.stats.function_evals += 1;
 
         DormandPrince5Cache {
             n_stiff: 0,
diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index ff53a06..c43f999 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -88,6 +88,8 @@ pub struct OdeIntegratorBuilder<'a, Params, Alg: OdeAlgorithm> {
     pub tfinal: f64,
     /// Options
     pub opts: OdeIntegratorOpts,
+    /// Statistics
+    pub(crate) stats: OdeStatistics,
     /// Algorithm
     pub alg: Alg,
     /// Callback function to mutate state of integrator after each step.
@@ -112,6 +114,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
             dt: 1e-6,
             tfinal: tspan.1,
             opts: Alg::default_opts(),
+            stats: OdeStatistics::new(),
             alg,
             callback: None,
         }
@@ -232,7 +235,7 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
             tdir,
             tfinal: self.tfinal,
             opts: self.opts,
-            stats: OdeStatistics::new(),
+            stats: self.stats,
             alg: self.alg,
             callback: self.callback,
             sol,
diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 24c511c..38ec499 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -44,6 +44,7 @@ impl OdeAlgorithm for Radau5 {
             integrator.t,
             &mut integrator.params,
         );
+        integrator.stats.function_evals += 1;
 
         jacobian_u(
             integrator.dudt,
@@ -53,6 +54,7 @@ impl OdeAlgorithm for Radau5 {
             integrator.t,
             &integrator.params,
         );
+        integrator.stats.jacobian_evals += 1;
 
         if integrator.opts.fnewt <= 0.0 {
             integrator.opts.fnewt = (10.0 * f64::EPSILON / integrator.opts.reltol)
diff --git a/src/radau/dec.rs b/src/radau/dec.rs
index 04569fa..10748b6 100644
--- a/src/radau/dec.rs
+++ b/src/radau/dec.rs
@@ -78,6 +78,7 @@ impl Radau5 {
                 integrator.t,
                 &integrator.params,
             );
+            integrator.stats.jacobian_evals += 1;
         }
         return false;
     }
diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 8eae3fd..9117650 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -77,6 +77,7 @@ impl Radau5 {
                         integrator.t,
                         &integrator.params,
                     );
+                    integrator.stats.jacobian_evals += 1;
                 }
                 return false;
             }
@@ -176,6 +177,7 @@ impl Radau5 {
                                 integrator.t,
                                 &integrator.params,
                             );
+                            integrator.stats.jacobian_evals += 1;
                         }
                         return false;
                     }
@@ -193,6 +195,7 @@ impl Radau5 {
                             integrator.t,
                             &integrator.params,
                         );
+                        integrator.stats.jacobian_evals += 1;
                     }
                     return false;
                 }
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 64dd753..7a5f9a5 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -116,6 +116,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         } else {
             // step is rejected
@@ -140,6 +141,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         }
     }
-- 
2.43.0


From 857739205661026f11a0085cb64cf0c3198bb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:43 +0000
Subject: [PATCH 09/32] fix: keep uprev up to date in Radau5

It stayed at the initial condition for the whole integration.
---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 7a5f9a5..bad7dc1 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -37,6 +37,7 @@ impl Radau5 {
                 integrator.cache.dtacc = integrator.dt;
                 integrator.cache.erracc = 1e-2f64.max(integrator.cache.err);
             }
+            integrator.uprev.assign(&integrator.u);
             integrator.tprev = integrator.t;
             integrator.dtprev = integrator.dt;
             integrator.t += integrator.dt;
-- 
2.43.0


From d5ef9544f67c0836ffbfa724ebc8943934a2b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:44 +0000
Subject: [PATCH 10/32] fix: reject Radau5 steps whose error estimate is NaN

f64::max drops NaN, so such an estimate became 1e-10 and the step was
accepted with a larger next step.
---
 src/radau/error_estimate.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/radau/error_estimate.rs b/src/radau/error_estimate.rs
index 8b6b79d..9830f78 100644
--- a/src/radau/error_estimate.rs
+++ b/src/radau/error_estimate.rs
@@ -3,6 +3,17 @@ use crate::linalg::sol::*;
 use crate::ode::OdeIntegrator;
 use ndarray::prelude::*;
 
+/// Root mean square of the scaled errors given the sum of their squares, bounded
+/// from below. A NaN is kept, so that the step is rejected.
+fn error_norm(sum: f64, n: usize) -> f64 {
+    let norm = (sum / n as f64).sqrt();
+    if norm < 1.0e-10 {
+        1.0e-10
+    } else {
+        norm
+    }
+}
+
 impl Radau5 {
     /// Compute the error estimate for the Radau5 algorithm.
     pub(crate) fn error_estimate<Params>(integrator: &mut OdeIntegrator<Params, Radau5>) {
@@ -30,7 +41,7 @@ impl Radau5 {
         for i in 0..n {
             integrator.cache.err += (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
         }
-        integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+        integrator.cache.err = error_norm(integrator.cache.err, n);
 
         if integrator.cache.err < 1.0 {
             return;
@@ -62,7 +73,7 @@ impl Radau5 {
                 integrator.cache.err +=
                     (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
             }
-            integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+            integrator.cache.err = error_norm(integrator.cache.err, n);
         }
     }
 }
-- 
2.43.0


From 98101cf26dc6e14d05373c6e5544931ff89c1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:44 +0000
Subject: [PATCH 11/32] fix: make stepping a finished integration a no-op

Stepping after the end appended zero-length steps (DormandPrince5) or
replaced Success by DtLessThanMin (Radau5).
---
 src/ode/integrator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index c43f999..9136036 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -248,6 +248,9 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
     /// Step the ODE to the next state. Returns solution if finished and
     /// None otherwise.
     pub fn step(&mut self) -> Option<usize> {
+        if self.sol.retcode != super::code::OdeRetCode::Continue {
+            return None;
+        }
         Alg::step(self);
         match self.callback {
             Some(f) => f(self),
-- 
2.43.0


From d0ebe2a47bdfadac61e702b35930acfc9d4668f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:45 +0000
Subject: [PATCH 12/32] fix: yield the final state from the integrator
 iterators

The step that finishes the integration was dropped, so iterating never
produced the state at the final time.
---
 src/ode/integrator.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 9136036..fb07c3f 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -311,10 +311,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorIterator<'a, Param
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = self.integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        let accepts = self.integrator.stats.accepts;
+        self.integrator.step();
+        if self.integrator.stats.accepts > accepts {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
@@ -362,10 +364,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorMutIterator<'a, Pa
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = (*self).integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        let accepts = self.integrator.stats.accepts;
+        self.integrator.step();
+        if self.integrator.stats.accepts > accepts {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
-- 
2.43.0


From 979b9cb4eacaee197a42e0cd542f3b8c25cd7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:46 +0000
Subject: [PATCH 13/32] fix: re-evaluate the derivative after a callback

The next step started from the derivative of the state before the
callback changed it.
---
 src/dorm_prince/dp5/algorithm.rs | 10 ++++++++++
 src/radau/algorithm.rs           | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 7f41bb0..33b0b26 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -59,6 +59,16 @@ impl OdeAlgorithm for DormandPrince5 {
     where
         Self: Sized,
     {
+        // The callback may have changed the state since `du` was evaluated
+        if integrator.callback.is_some() {
+            (integrator.dudt)(
+                integrator.cache.du.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+        }
         if (integrator.t + 1.01 * integrator.dt - integrator.tfinal) * integrator.tdir > 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 38ec499..83f9a29 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -100,6 +100,20 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
+        // The callback may have changed the state since these were evaluated
+        if integrator.callback.is_some() {
+            (integrator.dudt)(
+                integrator.cache.u0.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+            for i in 0..integrator.u.len() {
+                integrator.cache.scal[i] =
+                    integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
+            }
+        }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From fd34a79f9f7df47361eccf320e1a98cb94afb7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:47 +0000
Subject: [PATCH 14/32] fix: allow exactly max_steps steps

DormandPrince5 took one step too many and Radau5 one too few.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 src/radau/algorithm.rs           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 33b0b26..bdb6d0f 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -91,7 +91,7 @@ impl OdeAlgorithm for DormandPrince5 {
         integrator.sol.ts.push(integrator.t);
         integrator.sol.us.push(integrator.u.clone());
 
-        if integrator.stats.steps > integrator.opts.max_steps {
+        if integrator.stats.steps >= integrator.opts.max_steps {
             integrator.sol.retcode = OdeRetCode::MaxIters;
         }
         if integrator.cache.last {
diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 83f9a29..46aa2c1 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -132,8 +132,6 @@ impl OdeAlgorithm for Radau5 {
                 }
             }
 
-            integrator.stats.steps += 1;
-
             // Check that we haven't passed max allowed steps
             if integrator.stats.steps >= integrator.opts.max_steps {
                 integrator.sol.retcode = OdeRetCode::MaxIters;
@@ -145,6 +143,8 @@ impl OdeAlgorithm for Radau5 {
                 return;
             }
 
+            integrator.stats.steps += 1;
+
             // Solve the non-linear systems using a simplified Newton's method.
             if !Self::newton(integrator) {
                 integrator.cache.decompose = true;
-- 
2.43.0


From fe01317a55f6ab2b839a7017c16d5bba4f1725a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:48 +0000
Subject: [PATCH 15/32] fix: scale the finite-difference increment by |u|

For large negative components the increment vanished in u + del and the
Jacobian column came out as zero.
---
 src/ode/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index 81ee302..e93af89 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -21,7 +21,7 @@ pub(crate) fn jacobian_u<Dudt, Dfdu, Params>(
             dudt(du0.view_mut(), u.view(), t, p);
             for i in 0..u.len() {
                 let usafe = utemp[i];
-                let del = (f64::EPSILON * usafe.max(1e-5)).sqrt();
+                let del = (f64::EPSILON * usafe.abs().max(1e-5)).sqrt();
                 utemp[i] = usafe + del;
                 dudt(du1.view_mut(), utemp.view(), t, p);
                 for j in 0..u.len() {
-- 
2.43.0


From 8cfcce068d980924ba4c8e339c146d06f39d9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:49 +0000
Subject: [PATCH 16/32] fix: difference the right-hand side in time in
 jacobian_t

Both evaluations used the same t, so the result was always zero.
---
 src/ode/jacobian.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index e93af89..5746837 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -49,8 +49,8 @@ pub(crate) fn jacobian_t<Dudt, Dfdt, Params>(
         None => {
             let mut du = Array::zeros(u.raw_dim());
             dudt(du.view_mut(), u.view(), t, p);
-            dudt(df.view_mut(), u.view(), t, p);
-            let dt = f64::EPSILON * t.max(1e-5);
+            let dt = (f64::EPSILON * t.abs().max(1e-5)).sqrt();
+            dudt(df.view_mut(), u.view(), t + dt, p);
             df.assign(&((&df - &du) / dt));
         }
     }
-- 
2.43.0


From 95dc16c4fe57eeea264d8dc87e183d4cdd4693d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:50 +0000
Subject: [PATCH 17/32] fix: evaluate the Radau5 continuous output polynomial

An extra factor s made it miss the previous state at the start of the step.
---
 src/radau/continuous_output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/continuous_output.rs b/src/radau/continuous_output.rs
index 59d5565..38c4771 100644
--- a/src/radau/continuous_output.rs
+++ b/src/radau/continuous_output.rs
@@ -21,7 +21,7 @@ impl Radau5 {
         let mut res: Array1<f64> = Array1::<f64>::zeros(n);
 
         res.assign(&((s - c1m1) * &integrator.cache.cont.slice(s![(3 * n)..])));
-        res = (s - c2m1) * (res + s * &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
+        res = (s - c2m1) * (res + &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
         res = s * (res + &integrator.cache.cont.slice(s![n..2 * n]));
         res + &integrator.cache.cont.slice(s![0..n])
     }
-- 
2.43.0


From ed0cbac49ae2555482787de90bc5d8780d57c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:51 +0000
Subject: [PATCH 18/32] fix: accept max_stiff = 0 in DormandPrince5

The remainder by zero panicked on the first accepted step.
---
 src/dorm_prince/dp5/prepare.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index c5d154c..c67862e 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -30,7 +30,8 @@ impl DormandPrince5 {
             integrator.stats.accepts += 1;
 
             /* stiffness detection */
-            if integrator.stats.accepts % integrator.opts.max_stiff == 0
+            if (integrator.opts.max_stiff > 0
+                && integrator.stats.accepts % integrator.opts.max_stiff == 0)
                 || integrator.cache.n_stiff > 0
             {
                 let mut stnum = 0.0;
-- 
2.43.0


From aa33109ea1c23762e7245e8be4d100cb02b19309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:52 +0000
Subject: [PATCH 19/32] fix: finish an empty time span at once

Radau5 failed with DtLessThanMin and DormandPrince5 recorded the initial
state twice when the final time equals the initial time.
---
 src/ode/integrator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index fb07c3f..63d98e6 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -220,6 +220,10 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         let mut sol = OdeSolution::new();
         sol.ts.push(self.t);
         sol.us.push(self.u.clone());
+        if self.t == self.tfinal {
+            // Nothing to integrate
+            sol.retcode = super::code::OdeRetCode::Success;
+        }
 
         OdeIntegrator {
             dudt: self.dudt,
-- 
2.43.0


From b9635d1db2b3a6ab5ee8db62299d10539eaee7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:53 +0000
Subject: [PATCH 20/32] fix: refresh an outdated Jacobian after slow Newton
 convergence

The condition was inverted: only this failure kept retrying with the
Jacobian of an earlier state.
---
 src/radau/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 9117650..4c28ec1 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -168,7 +168,7 @@ impl Radau5 {
                         integrator.dt *= integrator.cache.dtfac;
                         integrator.cache.reject = true;
                         integrator.cache.last = false;
-                        if integrator.cache.caljac {
+                        if !integrator.cache.caljac {
                             jacobian_u(
                                 integrator.dudt,
                                 integrator.dfdu,
-- 
2.43.0


From 75e432a0e6dceca6d813d39c4744a31aa1ec2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:54 +0000
Subject: [PATCH 21/32] fix: eliminate every row in the complex Hessenberg back
 substitution

The row just above the pivot was skipped.
---
 src/linalg/sol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index ee0eb3e..1111545 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -152,7 +152,7 @@ pub(crate) fn solhc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            for i in 0..km1 {
+            for i in 0..(km1 + 1) {
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[i] += prodr;
-- 
2.43.0


From 92506bb876bc92623776b3b3b6553fae53e05f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:08 +0000
Subject: [PATCH 22/32] fix: factorise and solve banded systems

The pivot search and elimination left out the last subdiagonal, the row
offset was not carried along the columns, the complex version compared
the pivot row with the wrong index, and the back substitution underflowed
an unsigned offset.
---
 src/linalg/dec.rs | 20 ++++++++++----------
 src/linalg/sol.rs | 26 +++++++++++---------------
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 8e3944f..1539460 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -328,7 +328,7 @@ pub(crate) fn decb(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if a[[i, k]].abs() > a[[m, k]].abs() {
                     m = i;
                 }
@@ -350,11 +350,11 @@ pub(crate) fn decb(
                 a[[i, k]] *= -t;
             }
             ju = ju.max(ub + ip[k] as usize + 1).min(n);
-            let mm = md;
+            let mut mm = md;
             if ju >= kp1 {
                 for j in kp1..ju {
                     m = m - 1;
-                    let mm = mm - 1;
+                    mm = mm - 1;
                     t = a[[m, j]];
                     if m != mm {
                         a[[m, j]] = a[[mm, j]];
@@ -362,7 +362,7 @@ pub(crate) fn decb(
                     }
                     if t != 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             a[[ijk, j]] += a[[i, k]] * t;
                         }
@@ -413,7 +413,7 @@ pub(crate) fn decbc(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if ar[[i, k]].abs() + ai[[i, k]].abs() > ar[[m, k]].abs() + ai[[m, k]].abs() {
                     m = i;
                 }
@@ -421,7 +421,7 @@ pub(crate) fn decbc(
             ip[k] = (m + k - md) as i32;
             let mut tr = ar[[m, k]];
             let mut ti = ai[[m, k]];
-            if m != k {
+            if m != md {
                 ip[n - 1] = -ip[n - 1];
                 ar[[m, k]] = ar[[md, k]];
                 ai[[m, k]] = ai[[md, k]];
@@ -436,7 +436,7 @@ pub(crate) fn decbc(
             let den = tr * tr + ti * ti;
             tr = tr / den;
             ti = -ti / den;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                 let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
                 ar[[i, k]] = -prodr;
@@ -459,7 +459,7 @@ pub(crate) fn decbc(
                     if tr.abs() + ti.abs() == 0.0 {
                     } else if ti == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr;
                             let prodi = ai[[i, k]] * tr;
@@ -468,7 +468,7 @@ pub(crate) fn decbc(
                         }
                     } else if tr == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = -ai[[i, k]] * ti;
                             let prodi = ar[[i, k]] * ti;
@@ -477,7 +477,7 @@ pub(crate) fn decbc(
                         }
                     } else {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                             let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index 1111545..eb39811 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -176,7 +176,6 @@ pub(crate) fn solb(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -196,10 +195,9 @@ pub(crate) fn solb(
             let kb = n - k - 1;
             b[kb] = b[kb] / a[[md, kb]];
             let t = -b[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 b[imd] += a[[i, kb]] * t;
             }
         }
@@ -219,7 +217,6 @@ pub(crate) fn solbc(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -250,22 +247,21 @@ pub(crate) fn solbc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[imd] += prodr;
                 bi[imd] += prodi;
             }
         }
-        let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
-        let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
-        let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
-        br[0] = prodr / den;
-        bi[0] = prodi / den;
     }
+    let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
+    let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
+    let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
+    br[0] = prodr / den;
+    bi[0] = prodi / den;
 }
 
 #[cfg(test)]
-- 
2.43.0


From 957ae2613ffd252e4556cb2df77f2ab0ccf948a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:09 +0000
Subject: [PATCH 23/32] fix: reduce matrices to Hessenberg form by a similarity

A zero multiplier ended the whole reduction and the column update wrote
to a single entry.
---
 src/linalg/dec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 1539460..a8f9c91 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -538,7 +538,7 @@ pub(crate) fn elmhes(
             for i in mp1..igh {
                 let mut y = a[[i, mm1]];
                 if y == 0.0 {
-                    return;
+                    continue;
                 }
                 y = y / x;
                 a[[i, mm1]] = y;
@@ -546,7 +546,7 @@ pub(crate) fn elmhes(
                     a[[i, j]] -= y * a[[m, j]];
                 }
                 for j in 0..igh {
-                    a[[i, m]] += y * a[[j, i]];
+                    a[[j, m]] += y * a[[j, i]];
                 }
             }
         }
-- 
2.43.0


From 48a43fbbded1848d92987832ef4bdc8a5949857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:45 +0000
Subject: [PATCH 24/32] Expose private routines to external checks under
 cfg(cyphus_verif)

---
 src/dorm_prince/dp5/dense.rs |   9 +++
 src/lib.rs                   |   2 +
 src/verif_hooks.rs           | 129 +++++++++++++++++++++++++++++++++++
 3 files changed, 140 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/dorm_prince/dp5/dense.rs b/src/dorm_prince/dp5/dense.rs
index f3e4ee2..0aaa62d 100644
--- a/src/dorm_prince/dp5/dense.rs
+++ b/src/dorm_prince/dp5/dense.rs
@@ -49,3 +49,12 @@ impl DormandPrince5 {
                                 * (&integrator.cache.rcont4 + &(s1 * &integrator.cache.rcont5)))))))
     }
 }
+
+#[cfg(cyphus_verif)]
+pub(crate) fn verif_dense<Params>(
+    integrator: &mut OdeIntegrator<Params, DormandPrince5>,
+    t: f64,
+) -> Array1<f64> {
+    let dt = integrator.dtprev;
+    DormandPrince5::dense_output(integrator, t, dt)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 4d63955..10f3d80 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,3 +4,5 @@ pub mod ode;
 pub mod prelude;
 pub mod radau;
 pub mod rodas;
+#[cfg(cyphus_verif)]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..0f80701
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,129 @@
+//! Access to crate-private routines for external checking. Compiled only with
+//! `--cfg cyphus_verif`.
+
+use crate::dorm_prince::dp5::DormandPrince5;
+use crate::linalg;
+use crate::ode::*;
+use crate::radau::Radau5;
+use ndarray::prelude::*;
+
+type Rhs<'a> = &'a dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &());
+type Jac<'a> = &'a dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &());
+
+pub fn dec(a: &mut Array2<f64>, ip: &mut Array1<i32>) -> usize {
+    linalg::dec::dec(a.nrows(), a.view_mut(), ip.view_mut())
+}
+pub fn sol(a: &Array2<f64>, b: &mut Array1<f64>, ip: &Array1<i32>) {
+    linalg::sol::sol(a.nrows(), a.view(), b.view_mut(), ip.view())
+}
+pub fn decc(ar: &mut Array2<f64>, ai: &mut Array2<f64>, ip: &mut Array1<i32>) -> usize {
+    linalg::dec::decc(ar.nrows(), ar.view_mut(), ai.view_mut(), ip.view_mut())
+}
+pub fn solc(
+    ar: &Array2<f64>,
+    ai: &Array2<f64>,
+    br: &mut Array1<f64>,
+    bi: &mut Array1<f64>,
+    ip: &Array1<i32>,
+) {
+    linalg::sol::solc(
+        ar.nrows(),
+        ar.view(),
+        ai.view(),
+        br.view_mut(),
+        bi.view_mut(),
+        ip.view(),
+    )
+}
+pub fn dech(a: &mut Array2<f64>, lb: usize, ip: &mut Array1<i32>) -> usize {
+    linalg::dec::dech(a.nrows(), a.view_mut(), lb, ip.view_mut())
+}
+pub fn solh(a: &Array2<f64>, lb: usize, b: &mut Array1<f64>, ip: &Array1<i32>) {
+    linalg::sol::solh(a.nrows(), a.view(), lb, b.view_mut(), ip.view())
+}
+pub fn dechc(
+    ar: &mut Array2<f64>,
+    ai: &mut Array2<f64>,
+    lb: usize,
+    ip: &mut Array1<i32>,
+) -> usize {
+    linalg::dec::dechc(ar.nrows(), ar.view_mut(), ai.view_mut(), lb, ip.view_mut())
+}
+pub fn solhc(
+    ar: &Array2<f64>,
+    ai: &Array2<f64>,
+    lb: usize,
+    br: &mut Array1<f64>,
+    bi: &mut Array1<f64>,
+    ip: &Array1<i32>,
+) {
+    linalg::sol::solhc(
+        ar.nrows(),
+        ar.view(),
+        ai.view(),
+        lb,
+        br.view_mut(),
+        bi.view_mut(),
+        ip.view(),
+    )
+}
+pub fn decb(a: &mut Array2<f64>, lb: usize, ub: usize, ip: &mut Array1<i32>) -> usize {
+    linalg::dec::decb(a.ncols(), a.view_mut(), lb, ub, ip.view_mut())
+}
+pub fn solb(a: &Array2<f64>, lb: usize, ub: usize, b: &mut Array1<f64>, ip: &Array1<i32>) {
+    linalg::sol::solb(a.ncols(), a.view(), lb, ub, b.view_mut(), ip.view())
+}
+pub fn decbc(
+    ar: &mut Array2<f64>,
+    ai: &mut Array2<f64>,
+    lb: usize,
+    ub: usize,
+    ip: &mut Array1<i32>,
+) -> usize {
+    linalg::dec::decbc(
+        ar.ncols(),
+        ar.view_mut(),
+        ai.view_mut(),
+        lb,
+        ub,
+        ip.view_mut(),
+    )
+}
+pub fn solbc(
+    ar: &Array2<f64>,
+    ai: &Array2<f64>,
+    lb: usize,
+    ub: usize,
+    br: &mut Array1<f64>,
+    bi: &mut Array1<f64>,
+    ip: &Array1<i32>,
+) {
+    linalg::sol::solbc(
+        ar.ncols(),
+        ar.view(),
+        ai.view(),
+        lb,
+        ub,
+        br.view_mut(),
+        bi.view_mut(),
+        ip.view(),
+    )
+}
+pub fn elmhes(a: &mut Array2<f64>, inter: &mut Array1<i32>) {
+    let n = a.nrows();
+    linalg::dec::elmhes(n, 0, n, a.view_mut(), inter.view_mut())
+}
+pub fn jacobian_u(dudt: Rhs, dfdu: Option<Jac>, df: &mut Array2<f64>, u: &Array1<f64>, t: f64) {
+    crate::ode::jacobian_u(dudt, dfdu, df.view_mut(), u.view(), t, &())
+}
+pub fn jacobian_t(dudt: Rhs, dfdt: Option<Rhs>, df: &mut Array1<f64>, u: &Array1<f64>, t: f64) {
+    crate::ode::jacobian_t(dudt, dfdt, df.view_mut(), u.view(), t, &())
+}
+/// Continuous output of the last accepted step at `t`.
+pub fn dense_dp5<P>(integrator: &mut OdeIntegrator<P, DormandPrince5>, t: f64) -> Array1<f64> {
+    crate::dorm_prince::dp5::dense::verif_dense(integrator, t)
+}
+/// Continuous output of the last accepted step at `t`.
+pub fn dense_radau<P>(integrator: &mut OdeIntegrator<P, Radau5>, t: f64) -> Array1<f64> {
+    Radau5.dense_output(t, integrator)
+}
-- 
2.43.0


From 6d59cd1314d6e4bd377878f7868ddcc8d2f91890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:04 +0000
Subject: [PATCH 25/32] fix: refactorise the Radau5 matrices after a callback

A callback may change dt, and the kept factorisation belongs to the old
one.
---
 src/radau/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 46aa2c1..4fa0cc2 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -113,6 +113,7 @@ impl OdeAlgorithm for Radau5 {
                 integrator.cache.scal[i] =
                     integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
             }
+            integrator.cache.decompose = true;
         }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
-- 
2.43.0


From 209a601d7f20e9381d8a47cf5fe8082480ec5f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:22 +0000
Subject: [PATCH 26/32] fix: notice in Radau5 that a callback shortened the
 last step

---
 src/radau/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 4fa0cc2..b6ce23d 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -114,6 +114,7 @@ impl OdeAlgorithm for Radau5 {
                     integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
             }
             integrator.cache.decompose = true;
+            integrator.cache.last = false;
         }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
-- 
2.43.0


From 250ff52f4caf73333dca9d3bc463f87595c12a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:22 +0000
Subject: [PATCH 27/32] fix: run the callback only after accepted steps

---
 src/ode/integrator.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 63d98e6..e102d40 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -255,10 +255,14 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
         if self.sol.retcode != super::code::OdeRetCode::Continue {
             return None;
         }
+        let accepts = self.stats.accepts;
         Alg::step(self);
-        match self.callback {
-            Some(f) => f(self),
-            None => {}
+        // Nothing has changed if no step was accepted
+        if self.stats.accepts > accepts {
+            match self.callback {
+                Some(f) => f(self),
+                None => {}
+            }
         }
         if self.sol.retcode == super::code::OdeRetCode::Continue {
             Some(self.stats.steps)
-- 
2.43.0


From bcb9a65b2062f4f2d55e3d15ffa280ee4730baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:31:59 +0000
Subject: [PATCH 28/32] fix: report success when rounding lands a step on the
 final time

---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 src/radau/step_size_control.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index bdb6d0f..1485659 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -94,7 +94,7 @@ impl OdeAlgorithm for DormandPrince5 {
         if integrator.stats.steps >= integrator.opts.max_steps {
             integrator.sol.retcode = OdeRetCode::MaxIters;
         }
-        if integrator.cache.last {
+        if integrator.cache.last || integrator.t == integrator.tfinal {
             integrator.sol.retcode = OdeRetCode::Success;
         }
     }
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index bad7dc1..ad488ed 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -71,7 +71,7 @@ impl Radau5 {
             integrator.sol.us.push(integrator.u.clone());
 
             integrator.cache.caljac = false;
-            if integrator.cache.last {
+            if integrator.cache.last || integrator.t == integrator.tfinal {
                 integrator.dt = integrator.cache.dtopt;
                 integrator.sol.retcode = OdeRetCode::Success;
                 return;
-- 
2.43.0


From 82511097cb46a19f4e66c670a38e93b36255ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:20 +0000
Subject: [PATCH 29/32] fix: forget the Radau5 convergence rate when a callback
 changed the problem

The first Newton iteration of the next step was accepted on the rate of the
old problem, which can be off by orders of magnitude.
---
 src/radau/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index b6ce23d..d484fbb 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -102,6 +102,7 @@ impl OdeAlgorithm for Radau5 {
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
         // The callback may have changed the state since these were evaluated
         if integrator.callback.is_some() {
+            let u0 = integrator.cache.u0.clone();
             (integrator.dudt)(
                 integrator.cache.u0.view_mut(),
                 integrator.u.view(),
@@ -115,6 +116,10 @@ impl OdeAlgorithm for Radau5 {
             }
             integrator.cache.decompose = true;
             integrator.cache.last = false;
+            // The old convergence rate says nothing about a changed problem
+            if integrator.cache.u0 != u0 {
+                integrator.cache.faccon = 1.0;
+            }
         }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
-- 
2.43.0


From 58dd903b649399a83b5bcb53c4e86cf9a00f12a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:46 +0000
Subject: [PATCH 30/32] fix: report singular triangular matrices in the banded
 and complex Hessenberg LU

With no lower band only the last diagonal entry was looked at.
---
 src/linalg/dec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index a8f9c91..df618ba 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -221,7 +221,7 @@ pub(crate) fn dechc(
 ) -> usize {
     let mut ier = 0;
     ip[n - 1] = 1;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         let nm1 = n - 1;
         for k in (0)..(nm1) {
             let kp1 = k + 1;
@@ -315,7 +315,7 @@ pub(crate) fn decb(
     let md = ub + lb;
     let md1 = md + 1;
     let mut ju = 0;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         if n >= ub + 2 {
             for j in (ub + 1)..n {
                 for i in 0..lb {
@@ -399,7 +399,7 @@ pub(crate) fn decbc(
     let md = lb + ub;
     let md1 = md + 1;
     let mut ju = 0;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         if n >= ub + 2 {
             for j in (ub + 1)..n {
                 for i in (0)..(lb) {
-- 
2.43.0


From 114881d49dc34ca1a486f7db534977078252fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:46 +0000
Subject: [PATCH 31/32] fix: elmhes on a 1x1 matrix

---
 src/linalg/dec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index df618ba..3ef96f0 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -504,7 +504,7 @@ pub(crate) fn elmhes(
     mut a: ArrayViewMut2<f64>,
     mut inter: ArrayViewMut1<i32>,
 ) {
-    let la = igh - 2;
+    let la = igh.saturating_sub(2);
     let kp1 = low + 1;
     if la < kp1 {
         return;
-- 
2.43.0


From b52c00c0d459871defa76414bdcb1f9b06028622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:44:58 +0000
Subject: [PATCH 32/32] fix: end the Radau5 step when a retried attempt lands
 on the final time

---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index ad488ed..255aae2 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -73,6 +73,7 @@ impl Radau5 {
             integrator.cache.caljac = false;
             if integrator.cache.last || integrator.t == integrator.tfinal {
                 integrator.dt = integrator.cache.dtopt;
+                integrator.cache.reject = false;
                 integrator.sol.retcode = OdeRetCode::Success;
                 return;
             }
-- 
2.43.0

