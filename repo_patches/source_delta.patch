From 3232b6344a41e38d2fc51cc2fca562923180966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 1/6] fix: use the configured displacer diameter in the rhombic
 drive

---
 src/ws/rhombic_drive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 968d5af..68d1ab7 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -199,7 +199,7 @@ impl From<Config> for RhombicDrive {
             eccentricity: config.eccentricity,
             r_crank: config.r_crank,
             D_p: config.D_p,
-            D_d: config.D_p,
+            D_d: config.D_d,
             L_conn: config.L_conn,
         };
         let parasitics = Parasitics {
-- 
2.43.0


From 0fd48adce13721012481ed1fd0232098c7e5ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 2/6] fix: do not discard small singular values in the SVD
 solver

---
 src/state_equations/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ffaa885..08f67df 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -232,7 +232,7 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
-        let eps = 1e-12;
+        let eps = 0.0; // an absolute cutoff would drop real singular values of small engines
         a.svd_unordered(true, true)
             .solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
-- 
2.43.0


From 9f500c2cc780e9c9b946cb63d008952c1c0aa3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 3/6] fix: report pressure and flows of the converged cycle

---
 src/engine/state.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index a899b36..aa57734 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,9 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the `State` within `tol`, then the original
-    /// `State` is returned as `Err(self)`.
+    /// `values` do not change the temperatures within `tol`, then the `State`
+    /// with its original temperatures, but with the pressure and flows of
+    /// `values`, is returned as `Err(self)`.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
         self,
@@ -163,11 +164,9 @@ impl<T: Fluid> State<T> {
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
         if self.temp.is_converged(new_temp, tol) {
-            // Temperatures are converged and we return `self` unchanged
-            Err(Self {
-                fluid: new_state.fluid,
-                ..self
-            })
+            // Temperatures are converged and we keep them, along with the
+            // pressure and flows that were just calculated from `values`
+            Err(new_state)
         } else {
             // Approach temperatures have changed and we return the new `State`
             Ok(Self {
-- 
2.43.0


From 8baedb04541f3ef92e09c41decc7adce476a0f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 4/6] fix: include conduction through the working space walls
 in the energy balances

---
 src/engine/run.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index e1b434b..4b4a37b 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -26,6 +26,7 @@ pub(super) struct Run<'a, T: Fluid, U: MatrixDecomposition> {
     vol_hhx: f64,
     vol_regen: f64,
     ws_parasitics: ws::Parasitics,
+    ws_thermal_res: ws::ThermalResistance,
     ws_vol_fn: Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>,
 }
 
@@ -48,6 +49,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         let period = 1.0 / components.ws.frequency(&ws_state);
         let ws_vol_fn = components.ws.volumes(&ws_state);
         let ws_parasitics = components.ws.parasitics(&ws_state);
+        let ws_thermal_res = components.ws.thermal_resistance(&ws_state);
 
         Self {
             enth_norm,
@@ -60,6 +62,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             vol_hhx,
             vol_regen,
             ws_parasitics,
+            ws_thermal_res,
             ws_vol_fn,
         }
     }
@@ -75,7 +78,8 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.comp.thermal,
+            Q_dot: self.ws_parasitics.comp.thermal
+                + (temp - self.temp.chx) / self.ws_thermal_res.comp,
         }
     }
 
@@ -127,7 +131,8 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.exp.thermal,
+            Q_dot: self.ws_parasitics.exp.thermal
+                + (temp - self.temp.hhx) / self.ws_thermal_res.exp,
         }
     }
 }
-- 
2.43.0


From ad29ea28fb078343d28b978aedc15c05c2710fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 5/6] fix: keep the final point of the cycle whatever the
 period and resolution

---
 src/state_equations/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index efffb33..c6573f6 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -35,7 +35,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         let mut stepper = Dopri5::new(
             state,
             0.0,
-            period + 1e-14, // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
+            period * (1.0 + 1e-9), // relative margin so rounding can't drop the final point, TODO: https://github.com/isentropic-dev/sett-rs/issues/32
             dx,
             y0,
             tol.rel,
-- 
2.43.0


From 82e7579e787d9ed6358df7777c3b49e8ec127a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 6/6] fix: report a failed solve as an inner-loop error instead
 of panicking

---
 src/state_equations/cycle.rs      |  2 +-
 src/state_equations/integrator.rs | 43 +++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/state_equations/cycle.rs b/src/state_equations/cycle.rs
index 57f3bdc..6cbe3bc 100644
--- a/src/state_equations/cycle.rs
+++ b/src/state_equations/cycle.rs
@@ -52,7 +52,7 @@ pub trait Cycle: Sized {
             let integration = Integration::try_from(self, ic, 2, ode_tol)?; // using 2 points here is faster and doesn't affect integration
             if integration.is_converged(conv_tol) {
                 let integration = Integration::try_from(self, ic, num_points, ode_tol)?;
-                return Ok(integration.into_state_values());
+                return integration.try_into_state_values();
             }
             ic = Conditions {
                 P: pres_zero,
diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index c6573f6..147201e 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -1,6 +1,6 @@
 use std::cell::RefCell;
 
-use anyhow::Result;
+use anyhow::{Error, Result};
 use ode_solvers::{Dopri5, System, Vector3};
 
 use crate::types::{ConvergenceTolerance, OdeTolerance};
@@ -21,9 +21,11 @@ impl<'a, T: Cycle> Integration<'a, T> {
         num_points: u32,
         tol: OdeTolerance,
     ) -> Result<Self> {
+        let failure = RefCell::new(None);
         let state = IntegrationState {
             cycle,
             last_flow_dir: RefCell::new(FlowDirection::default()),
+            failure: &failure,
         };
         let period = cycle.period();
         let dx = period / f64::from(num_points - 1);
@@ -42,6 +44,9 @@ impl<'a, T: Cycle> Integration<'a, T> {
             tol.abs,
         );
         stepper.integrate()?;
+        if let Some(error) = failure.take() {
+            return Err(error);
+        }
 
         let mut points = Vec::with_capacity(num_points as usize);
         for (&time, variables) in stepper.x_out().iter().zip(stepper.y_out().iter()) {
@@ -86,24 +91,34 @@ impl<'a, T: Cycle> Integration<'a, T> {
     /// Calculate state equation values at each point
     ///
     /// This function consumes the `Integration`.
-    pub fn into_state_values(self) -> Vec<Values> {
+    ///
+    /// # Errors
+    ///
+    /// Will return `Err` if the state equations cannot be solved at a point.
+    pub fn try_into_state_values(self) -> Result<Vec<Values>> {
         let mut flow_dir = FlowDirection::default();
         self.points
             .into_iter()
             .map(|point| {
                 let Point { time, conditions } = point;
                 let inputs = self.cycle.calculate_inputs(time, conditions);
-                let solution = solve::<T::Solver>(inputs, flow_dir)
-                    .expect("TODO: what do we do if this fails?");
+                let solution = solve::<T::Solver>(inputs, flow_dir)?;
                 flow_dir = FlowDirection::from_solution(&solution);
-                Values {
+                Ok(Values {
                     time,
                     conditions,
                     solution,
-                }
+                })
             })
             .collect()
     }
+
+    /// Calculate state equation values at each point
+    #[cfg(test)]
+    pub fn into_state_values(self) -> Vec<Values> {
+        self.try_into_state_values()
+            .expect("state equations should solve at each point")
+    }
 }
 
 /// The conditions within the cycle at a point in time
@@ -120,10 +135,16 @@ type StateVariables = Vector3<f64>;
 struct IntegrationState<'a, T: Cycle> {
     cycle: &'a T,
     last_flow_dir: RefCell<FlowDirection>,
+    failure: &'a RefCell<Option<Error>>, // `System` cannot return errors, so the first one is kept here
 }
 
 impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
     fn system(&self, time: f64, y: &StateVariables, dy: &mut StateVariables) {
+        if self.failure.borrow().is_some() {
+            dy.fill(0.0); // the integration has already failed, so finish it quickly
+            return;
+        }
+
         let conditions = Conditions {
             P: y[0],
             T_c: y[1],
@@ -131,8 +152,14 @@ impl<T: Cycle> System<StateVariables> for IntegrationState<'_, T> {
         };
         let inputs = self.cycle.calculate_inputs(time, conditions);
         let flow_dir_hint = *self.last_flow_dir.borrow();
-        let solution = solve::<T::Solver>(inputs, flow_dir_hint)
-            .expect("TODO: what should we do if this fails?");
+        let solution = match solve::<T::Solver>(inputs, flow_dir_hint) {
+            Ok(solution) => solution,
+            Err(error) => {
+                self.failure.replace(Some(error));
+                dy.fill(0.0);
+                return;
+            }
+        };
 
         let flow_dir = FlowDirection::from_solution(&solution);
         self.last_flow_dir.replace(flow_dir);
-- 
2.43.0

