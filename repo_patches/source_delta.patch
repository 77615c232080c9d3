From 17a60032f186e1e20169582118577013caa27b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 01/10] fix: use the configured displacer diameter in the
 rhombic drive

---
 src/ws/rhombic_drive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 968d5af..68d1ab7 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -199,7 +199,7 @@ impl From<Config> for RhombicDrive {
             eccentricity: config.eccentricity,
             r_crank: config.r_crank,
             D_p: config.D_p,
-            D_d: config.D_p,
+            D_d: config.D_d,
             L_conn: config.L_conn,
         };
         let parasitics = Parasitics {
-- 
2.43.0


From 3e6adacc52785a214c16b25414489a03e24bee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 02/10] fix: report the pressure, mass flows, and heat flows of
 the converged cycle

---
 src/engine/state.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index a899b36..e17c99c 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,9 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the `State` within `tol`, then the original
-    /// `State` is returned as `Err(self)`.
+    /// `values` do not change the temperatures within `tol`, then the `State`
+    /// is returned as `Err(self)` with its original temperatures and the
+    /// pressure, mass flows, and heat flows that correspond to `values`.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
         self,
@@ -163,11 +164,8 @@ impl<T: Fluid> State<T> {
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
         if self.temp.is_converged(new_temp, tol) {
-            // Temperatures are converged and we return `self` unchanged
-            Err(Self {
-                fluid: new_state.fluid,
-                ..self
-            })
+            // Temperatures are converged and remain the ones used to calculate `values`
+            Err(new_state)
         } else {
             // Approach temperatures have changed and we return the new `State`
             Ok(Self {
-- 
2.43.0


From 43d65a3cd13691d05a172b6e4b29428298190aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 03/10] fix: calculate the regenerator temperature when its two
 ends are equal

---
 src/engine/state.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index e17c99c..8b9defe 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -514,13 +514,25 @@ impl RegenImbalance {
 
         let cold = temp_chx + cold_approach;
         let hot = temp_hhx - hot_approach;
-        let avg = (temp_hhx - 0.5 * hot_approach - temp_chx - 0.5 * cold_approach)
-            / ((temp_hhx - 0.5 * hot_approach) / (temp_chx + 0.5 * cold_approach)).ln();
+        let avg = log_mean(
+            temp_hhx - 0.5 * hot_approach,
+            temp_chx + 0.5 * cold_approach,
+        );
 
         RegenTemp { cold, avg, hot }
     }
 }
 
+/// Calculate the logarithmic mean of `a` and `b`
+fn log_mean(a: f64, b: f64) -> f64 {
+    let diff = (a - b) / b;
+    if diff == 0. {
+        b // the mean of two equal values, for which the formula below is 0/0
+    } else {
+        b * diff / diff.ln_1p()
+    }
+}
+
 /// Integrate `y` over `x` using the trapezoidal rule
 fn integrate(x: &[f64], y: &[f64]) -> f64 {
     let xs = x.iter().tuple_windows();
-- 
2.43.0


From 64a88dcb02d5ccf2d6aaa1cb374ba2d895ea19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 04/10] fix: normalize the energy balances by a value that
 can't be zero

---
 src/engine/run.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index e1b434b..271653c 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -33,10 +33,12 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
     /// Create an `Run` for a specific matrix solver
     #[allow(clippy::similar_names)]
     pub(super) fn new(components: &'a Components, state: &'a State<T>) -> Self {
-        // Calculate an average enthalpy using the sink and source temperatures
-        let h_sink = state.fluid.enth(state.temp.sink, state.pres.avg);
-        let h_source = state.fluid.enth(state.temp.source, state.pres.avg);
-        let enth_norm = 0.5 * (h_sink + h_source);
+        // Calculate a typical enthalpy using the sink and source temperatures
+        //
+        // Enthalpy itself can't be used for this since it is relative to the
+        // fluid's reference state and may therefore be zero.
+        let temp_avg = 0.5 * (state.temp.sink + state.temp.source);
+        let enth_norm = temp_avg * state.fluid.cp(temp_avg, state.pres.avg);
 
         // Ask heat exchanger components for their volumes
         let vol_chx = components.chx.volume();
-- 
2.43.0


From 76d19268e30647a98d9db0b42ffb5e56a6833d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 05/10] fix: always include the end of the cycle in an
 integration

The fixed margin of 1e-14 s is smaller than the rounding error in the
time of the last point when the period is long or has many points.
---
 src/state_equations/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index efffb33..05e5f4e 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -35,7 +35,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         let mut stepper = Dopri5::new(
             state,
             0.0,
-            period + 1e-14, // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
+            period * (1.0 + 1e-10), // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
             dx,
             y0,
             tol.rel,
-- 
2.43.0


From 7d8b33304ae250f365da5c0cf5f0cab2a06ee29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 06/10] fix: exchange heat between the working spaces and heat
 exchangers in the state equations

The heat flow through the thermal resistances of the two spaces was
included in the heat flows of the heat exchangers but never left the
working fluid.  The fluid instead lost the external parasitic heat flow
of the expansion space, which does not involve the fluid and is added to
the heat input separately.
---
 src/engine/run.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index 271653c..f11e750 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -25,7 +25,7 @@ pub(super) struct Run<'a, T: Fluid, U: MatrixDecomposition> {
     vol_chx: f64,
     vol_hhx: f64,
     vol_regen: f64,
-    ws_parasitics: ws::Parasitics,
+    ws_thermal_res: ws::ThermalResistance,
     ws_vol_fn: Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>,
 }
 
@@ -49,7 +49,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         let ws_state = state.ws();
         let period = 1.0 / components.ws.frequency(&ws_state);
         let ws_vol_fn = components.ws.volumes(&ws_state);
-        let ws_parasitics = components.ws.parasitics(&ws_state);
+        let ws_thermal_res = components.ws.thermal_resistance(&ws_state);
 
         Self {
             enth_norm,
@@ -61,7 +61,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             vol_chx,
             vol_hhx,
             vol_regen,
-            ws_parasitics,
+            ws_thermal_res,
             ws_vol_fn,
         }
     }
@@ -77,7 +77,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.comp.thermal,
+            Q_dot: (temp - self.temp.chx) / self.ws_thermal_res.comp, // heat flow from the fluid to the chx
         }
     }
 
@@ -129,7 +129,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.exp.thermal,
+            Q_dot: (temp - self.temp.hhx) / self.ws_thermal_res.exp, // heat flow from the fluid to the hhx
         }
     }
 }
-- 
2.43.0


From c33202c212d6a9eb9c164dadb77e1171ce86f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 07/10] fix: keep the singular values of small engines in the
 SVD solver

Singular values related to dP_dt are proportional to the engine volume
and fell below the absolute cutoff of 1e-12 for engines of a few cm^3.
---
 src/state_equations/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ffaa885..f859f53 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -232,9 +232,9 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
-        let eps = 1e-12;
-        a.svd_unordered(true, true)
-            .solve(b, eps)
+        let svd = a.svd_unordered(true, true);
+        let eps = f64::EPSILON * svd.singular_values.max(); // relative since `A` scales with the engine volume
+        svd.solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
     }
 }
-- 
2.43.0


From 45364e7b9d03c02b7df577446daf9e090cab9b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 08/10] fix: return an error when the state equations cannot be
 solved

Engine runs panicked (or never finished with the SVD solver) instead of
returning the documented error, for instance when the volume of a
working space reaches zero.
---
 src/state_equations/cycle.rs      |  2 +-
 src/state_equations/integrator.rs | 24 ++++++++++++++++++------
 src/state_equations/solver.rs     |  3 +++
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/state_equations/cycle.rs b/src/state_equations/cycle.rs
index 57f3bdc..6cbe3bc 100644
--- a/src/state_equations/cycle.rs
+++ b/src/state_equations/cycle.rs
@@ -52,7 +52,7 @@ pub trait Cycle: Sized {
             let integration = Integration::try_from(self, ic, 2, ode_tol)?; // using 2 points here is faster and doesn't affect integration
             if integration.is_converged(conv_tol) {
                 let integration = Integration::try_from(self, ic, num_points, ode_tol)?;
-                return Ok(integration.into_state_values());
+                return integration.try_into_state_values();
             }
             ic = Conditions {
                 P: pres_zero,
diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 05e5f4e..0f4a3c4 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -86,21 +86,29 @@ impl<'a, T: Cycle> Integration<'a, T> {
     /// Calculate state equation values at each point
     ///
     /// This function consumes the `Integration`.
+    #[cfg(test)]
     pub fn into_state_values(self) -> Vec<Values> {
+        self.try_into_state_values()
+            .expect("state equations should be solvable")
+    }
+
+    /// Attempt to calculate state equation values at each point
+    ///
+    /// This function consumes the `Integration`.
+    pub fn try_into_state_values(self) -> Result<Vec<Values>> {
         let mut flow_dir = FlowDirection::default();
         self.points
             .into_iter()
             .map(|point| {
                 let Point { time, conditions } = point;
                 let inputs = self.cycle.calculate_inputs(time, conditions);
-                let solution = solve::<T::Solver>(inputs, flow_dir)
-                    .expect("TODO: what do we do if this fails?");
+                let solution = solve::<T::Solver>(inputs, flow_dir)?;
                 flow_dir = FlowDirection::from_solution(&solution);
-                Values {
+                Ok(Values {
                     time,
                     conditions,
                     solution,
-                }
+                })
             })
             .collect()
     }
@@ -131,8 +139,12 @@ impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
         };
         let inputs = self.cycle.calculate_inputs(time, conditions);
         let flow_dir_hint = *self.last_flow_dir.borrow();
-        let solution = solve::<T::Solver>(inputs, flow_dir_hint)
-            .expect("TODO: what should we do if this fails?");
+        let Ok(solution) = solve::<T::Solver>(inputs, flow_dir_hint) else {
+            // Derivatives that aren't finite cause the stepper to reject this
+            // step and to return an error if a smaller one doesn't work either
+            dy.fill(f64::NAN);
+            return;
+        };
 
         let flow_dir = FlowDirection::from_solution(&solution);
         self.last_flow_dir.replace(flow_dir);
diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index f859f53..12fe31f 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -143,6 +143,9 @@ impl System {
     /// Solve the system of equations
     fn solve<T: MatrixDecomposition>(&self, flow_dir: FlowDirection) -> Result<Solution> {
         let a = self.stencil.create_matrix(flow_dir);
+        if !a.iter().chain(self.b.iter()).all(|value| value.is_finite()) {
+            bail!("state equations are not finite"); // not all decompositions can handle this
+        }
         let x = T::solve(&a, &self.b)?;
         Ok(Solution {
             m_dot_ck: x[0],
-- 
2.43.0


From d671df2f1fbced1b9b12ec77352dbf470afd215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 09/10] fix: return an error when the time resolution is less
 than two points

---
 src/state_equations/integrator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index 0f4a3c4..873eb6a 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use ode_solvers::{Dopri5, System, Vector3};
 
 use crate::types::{ConvergenceTolerance, OdeTolerance};
@@ -21,6 +21,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         num_points: u32,
         tol: OdeTolerance,
     ) -> Result<Self> {
+        ensure!(num_points >= 2, "a cycle has at least two points");
         let state = IntegrationState {
             cycle,
             last_flow_dir: RefCell::new(FlowDirection::default()),
-- 
2.43.0


From 3fa7aecc46c3039e7596864ec677b498254142e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 10/10] fix: read infinite thermal resistances written as text
 in any order of keys

---
 src/types.rs               | 18 +++++++++++++++++-
 src/ws/gpu3.rs             |  2 ++
 src/ws/mod2.rs             |  2 ++
 src/ws/rhombic_drive.rs    |  2 ++
 src/ws/sinusoidal_drive.rs |  2 ++
 5 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 634de9e..60a495b 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1,4 +1,4 @@
-use serde::Deserialize;
+use serde::{de::Error, Deserialize, Deserializer};
 
 pub const DEFAULT_MAX_ITERS: u32 = 20;
 
@@ -236,3 +236,19 @@ impl From<LegacyConditionsConfig> for ConditionsConfig {
         }
     }
 }
+
+/// Deserialize a number that may also be given as text (e.g., `"inf"`)
+///
+/// Not every configuration format can represent infinity as a number.
+pub(crate) fn number_or_text<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum NumberOrText {
+        Number(f64),
+        Text(String),
+    }
+    match NumberOrText::deserialize(deserializer)? {
+        NumberOrText::Number(number) => Ok(number),
+        NumberOrText::Text(text) => text.trim().parse().map_err(D::Error::custom),
+    }
+}
diff --git a/src/ws/gpu3.rs b/src/ws/gpu3.rs
index 7c40832..f024e69 100644
--- a/src/ws/gpu3.rs
+++ b/src/ws/gpu3.rs
@@ -9,8 +9,10 @@ pub struct GPU3 {}
 pub struct Config {
     frequency: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "crate::types::number_or_text")]
     R_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "crate::types::number_or_text")]
     R_e: f64,
     r_crank: f64,
     L_conn: f64,
diff --git a/src/ws/mod2.rs b/src/ws/mod2.rs
index f37df22..fec0783 100644
--- a/src/ws/mod2.rs
+++ b/src/ws/mod2.rs
@@ -16,8 +16,10 @@ pub struct Config {
     L: f64,
     stroke: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "crate::types::number_or_text")]
     R_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "crate::types::number_or_text")]
     R_e: f64,
     material_p: Material,
     material_c: Material,
diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 68d1ab7..210388c 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -45,9 +45,11 @@ pub struct Geometry {
 pub struct Config {
     frequency: f64,
     V_clearance_c: f64,
+    #[serde(deserialize_with = "crate::types::number_or_text")]
     R_c: f64,
     W_parasitic_c: f64,
     V_clearance_e: f64,
+    #[serde(deserialize_with = "crate::types::number_or_text")]
     R_e: f64,
     W_parasitic_e: f64,
     Q_parasitic_e: f64,
diff --git a/src/ws/sinusoidal_drive.rs b/src/ws/sinusoidal_drive.rs
index 5a42f2a..491750a 100644
--- a/src/ws/sinusoidal_drive.rs
+++ b/src/ws/sinusoidal_drive.rs
@@ -27,10 +27,12 @@ pub struct Config {
     pub(crate) phase_angle: f64,
     pub(crate) V_swept_c: f64,
     pub(crate) V_clearance_c: f64,
+    #[serde(deserialize_with = "crate::types::number_or_text")]
     pub(crate) R_c: f64,
     pub(crate) W_parasitic_c: f64,
     pub(crate) V_swept_e: f64,
     pub(crate) V_clearance_e: f64,
+    #[serde(deserialize_with = "crate::types::number_or_text")]
     pub(crate) R_e: f64,
     pub(crate) W_parasitic_e: f64,
     pub(crate) Q_parasitic_e: f64,
-- 
2.43.0

