From 8f38b4741f16b50f86c9bfa12dad33c2e0c1f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:11 +0000
Subject: [PATCH 01/66] fix: apply the error tolerance when propagating
 backward with an adaptive step

The minimum step comparisons used the signed step, so every backward step was
treated as being at the minimum step size and accepted whatever its error.
---
 nyx-core/src/propagators/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a6d74b5..2fa9676 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -426,7 +426,7 @@ where
                         .estimate(&error_est, &next_state, state_vec);
 
                 if self.details.error <= self.prop.opts.tolerance
-                    || step_size_s <= self.prop.opts.min_step.to_seconds()
+                    || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
                     if next_state.iter().any(|x| x.is_nan()) {
@@ -481,8 +481,8 @@ where
                         * (self.prop.opts.tolerance / self.details.error)
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
-                    step_size_s = if proposed_step_s < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds()
+                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
+                        self.prop.opts.min_step.to_seconds() * proposed_step_s.signum()
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From d402c2b14e85da58308085c283ad8337e53668bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:03 +0000
Subject: [PATCH 02/66] fix: restore the step direction when a propagator
 instance is reused

A backward propagation that ended early (stop condition or error) left the step
size negative, so the next forward propagation never reached its stop time.
---
 nyx-core/src/propagators/instance.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 2fa9676..509c263 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -110,9 +110,13 @@ where
             .context(DynamicsSnafu)?;
 
         let backprop = duration.is_negative();
-        if backprop {
-            self.step_size = -self.step_size; // Invert the step size
-        }
+        // Set the direction of the step: a previous call which ended early (stop condition or error)
+        // may have left the step size with the opposite sign.
+        self.step_size = if backprop {
+            -self.step_size.abs()
+        } else {
+            self.step_size.abs()
+        };
 
         // Transform the state if needed
         let mut original_frame = None;
-- 
2.43.0


From 531ce75fad23bcafe60004ecb7b71cc3f8a72f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:41 +0000
Subject: [PATCH 03/66] fix: LargestError is relative to the step size for
 decreasing components too

---
 nyx-core/src/propagators/error_ctrl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/propagators/error_ctrl.rs b/nyx-core/src/propagators/error_ctrl.rs
index 30b670d..e61f0e4 100644
--- a/nyx-core/src/propagators/error_ctrl.rs
+++ b/nyx-core/src/propagators/error_ctrl.rs
@@ -138,7 +138,7 @@ impl ErrorControl {
                 let state_delta = candidate - cur_state;
                 let mut max_err = 0.0;
                 for (i, prop_err_i) in error_est.iter().enumerate() {
-                    let err = if state_delta[i] > REL_ERR_THRESH {
+                    let err = if state_delta[i].abs() > REL_ERR_THRESH {
                         (prop_err_i / state_delta[i]).abs()
                     } else {
                         prop_err_i.abs()
-- 
2.43.0


From ab8167f96c4ed3ac3280f4420dfa470ff9ba7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:17 +0000
Subject: [PATCH 04/66] fix: restore the step size and kind when the last
 propagation step fails

---
 nyx-core/src/propagators/instance.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 509c263..cd8fb44 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -187,7 +187,12 @@ where
                 let prev_step_kind = self.fixed_step;
                 self.set_step(stop_time - epoch, true);
 
-                self.single_step()?;
+                let outcome = self.single_step();
+
+                // Restore the step size for subsequent calls, including if that step failed.
+                self.set_step(prev_step_size, prev_step_kind);
+
+                outcome?;
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
@@ -196,9 +201,6 @@ where
                     warn!("{e} when sending on channel")
                 }
 
-                // Restore the step size for subsequent calls
-                self.set_step(prev_step_size, prev_step_kind);
-
                 if backprop {
                     self.step_size = -self.step_size; // Restore to a positive step size
                 }
-- 
2.43.0


From cbd88f60ab5f4916f8ac67906cbd5ed598d78075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:57 +0000
Subject: [PATCH 05/66] fix: publish and return states in the initial frame
 when integrating in another frame

---
 nyx-core/src/propagators/instance.rs | 51 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index cd8fb44..af632f4 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -25,6 +25,7 @@ use crate::md::trajectory::{Interpolatable, Traj};
 use crate::time::{Duration, Epoch, Unit};
 use anise::almanac::Almanac;
 use anise::errors::MathError;
+use anise::frames::Frame;
 use log::{info, warn};
 use rayon::iter::ParallelBridge;
 use rayon::prelude::ParallelIterator;
@@ -168,16 +169,7 @@ where
                     }
 
                     // Rotate back if needed
-                    if let Some(original_frame) = original_frame {
-                        let new_orbit = self
-                            .almanac
-                            .transform_to(self.state.orbit(), original_frame, None)
-                            .context(DynamicsAlmanacSnafu {
-                                action: "transforming state from desired integration frame",
-                            })
-                            .context(DynamicsSnafu)?;
-                        self.state.set_orbit(new_orbit);
-                    }
+                    self.state = self.state_in_frame(original_frame)?;
 
                     return Ok(self.state);
                 }
@@ -194,6 +186,9 @@ where
 
                 outcome?;
 
+                // Rotate back if needed
+                self.state = self.state_in_frame(original_frame)?;
+
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
                     && let Err(e) = chan.send(self.state)
@@ -213,18 +208,6 @@ where
                     }
                 }
 
-                // Rotate back if needed
-                if let Some(original_frame) = original_frame {
-                    let new_orbit = self
-                        .almanac
-                        .transform_to(self.state.orbit(), original_frame, None)
-                        .context(DynamicsAlmanacSnafu {
-                            action: "transforming state from desired integration frame",
-                        })
-                        .context(DynamicsSnafu)?;
-                    self.state.set_orbit(new_orbit);
-                }
-
                 return Ok(self.state);
             } else {
                 #[cfg(not(target_arch = "wasm32"))]
@@ -246,20 +229,24 @@ where
 
                 self.single_step()?;
 
+                // The stop condition and the channel work on the frame of the initial state.
+                let state = self.state_in_frame(original_frame)?;
+
                 if let Some(ref mut condition) = stop_condition
-                    && condition(self.state)?
+                    && condition(state)?
                 {
                     // Stopping condition triggered. We don't send
                     // the new state on the channel for the caller to know that the exact
                     // condition they are seeking is between the last state on the channel
                     // and the state we're returning
+                    self.state = state;
 
                     return Ok(self.state);
                 }
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(state)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -267,6 +254,22 @@ where
         }
     }
 
+    /// Returns the current state with its orbit in the provided frame, if one is provided.
+    fn state_in_frame(&self, frame: Option<Frame>) -> Result<D::StateType, PropagationError> {
+        let mut state = self.state;
+        if let Some(frame) = frame {
+            let new_orbit = self
+                .almanac
+                .transform_to(state.orbit(), frame, None)
+                .context(DynamicsAlmanacSnafu {
+                    action: "transforming state from desired integration frame",
+                })
+                .context(DynamicsSnafu)?;
+            state.set_orbit(new_orbit);
+        }
+        Ok(state)
+    }
+
     /// This method propagates the provided Dynamics for the provided duration.
     pub fn for_duration(&mut self, duration: Duration) -> Result<D::StateType, PropagationError> {
         self.propagate(duration, None, Some(|_| Ok(false)))
-- 
2.43.0


From b3fb4a1f257eba22d3d936a60456a2736f9a2b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:39 +0000
Subject: [PATCH 06/66] fix: event search when propagating backward and in an
 event frame

---
 nyx-core/src/propagators/event.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 6d07cd7..f4992ea 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -170,7 +170,12 @@ where
         traj.finalize();
 
         // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
-        let last_traj_state = traj.states.last().cloned().unwrap();
+        // The trajectory is sorted chronologically, so the latest state of a backward propagation is the first one.
+        let last_traj_state = if max_duration.is_negative() {
+            traj.states.first().cloned().unwrap()
+        } else {
+            traj.states.last().cloned().unwrap()
+        };
         if end_state == last_traj_state {
             return Err(PropagationError::NthEventError {
                 nth: trigger,
@@ -180,6 +185,7 @@ where
 
         // Add the final state to the trajectory so we can search it in full.
         traj.states.push(end_state);
+        traj.finalize();
 
         // We have one bracket to search.
         let traj_at = |epoch: Epoch| -> Result<f64, AnalysisError> {
@@ -189,7 +195,18 @@ where
                     err: format!("{e}"),
                 })?;
 
-            event.eval(state.orbit(), &self.almanac)
+            // Evaluate the event in the same frame as during the propagation.
+            let orbit = if let Some(observer_frame) = event_frame {
+                self.almanac
+                    .transform_to(state.orbit(), observer_frame, None)
+                    .map_err(|e| AnalysisError::GenericAnalysisError {
+                        err: format!("{e}"),
+                    })?
+            } else {
+                state.orbit()
+            };
+
+            event.eval(orbit, &self.almanac)
         };
 
         // Else Brent solver between these states
-- 
2.43.0


From 887947478d82f4d1a0494b6405fba9804e28eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:03 +0000
Subject: [PATCH 07/66] fix: remove all duplicate epochs when finalizing a
 trajectory

---
 nyx-core/src/md/trajectory/traj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e3f9fbb..11fc16e 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -73,10 +73,10 @@ where
     }
     /// Orders the states, can be used to store the states out of order
     pub fn finalize(&mut self) {
-        // Remove duplicate epochs
-        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
-        // And sort
+        // Sort
         self.states.sort_by_key(|a| a.epoch());
+        // And remove duplicate epochs (which are contiguous once sorted)
+        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
     }
 
     /// Evaluate the trajectory at this specific epoch.
-- 
2.43.0


From c458c925040f2c8eeec556c9712f06943a75db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:03 +0000
Subject: [PATCH 08/66] fix: interpolate the propellant mass from the first
 state of the window

---
 nyx-core/src/md/trajectory/interpolatable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 6114973..34f1286 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -100,7 +100,8 @@ impl Interpolatable for Spacecraft {
         let prop_kg_dt = (last.mass.prop_mass_kg - first.mass.prop_mass_kg)
             / (last.epoch() - first.epoch()).to_seconds();
 
-        self.mass.prop_mass_kg += prop_kg_dt * (epoch - first.epoch()).to_seconds();
+        self.mass.prop_mass_kg =
+            first.mass.prop_mass_kg + prop_kg_dt * (epoch - first.epoch()).to_seconds();
         // Thrust direction is a discrete guidance output and should not be interpolated.
         self.thrust_direction = None;
 
-- 
2.43.0


From 31fea568f22d5a05000fcf06419d1fa8863452e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:03 +0000
Subject: [PATCH 09/66] fix: honour excluded bounds when filtering a trajectory
 by offset

---
 nyx-core/src/md/trajectory/traj.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 11fc16e..5a4f5ff 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -45,7 +45,7 @@ use std::fmt;
 use std::fs::File;
 use std::iter::Iterator;
 use std::ops;
-use std::ops::Bound::{Excluded, Included, Unbounded};
+use std::ops::Bound::{self, Excluded, Included, Unbounded};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -179,17 +179,16 @@ where
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.states.first().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
+        let first_epoch = self.states.first().unwrap().epoch();
+        let to_epoch = |offset: Bound<&Duration>| match offset {
+            Unbounded => Unbounded,
+            Included(offset) => Included(first_epoch + *offset),
+            Excluded(offset) => Excluded(first_epoch + *offset),
         };
 
-        let end = match bound.end_bound() {
-            Unbounded => self.states.last().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
+        let bound = (to_epoch(bound.start_bound()), to_epoch(bound.end_bound()));
 
-        self.filter_by_epoch(start..=end)
+        self.filter_by_epoch(bound)
     }
     /// Store this trajectory arc to a parquet file with the default configuration (depends on the state type, search for `export_params` in the documentation for details).
     pub fn to_parquet_simple<P: AsRef<Path>>(&self, path: P) -> Result<PathBuf, Box<dyn Error>> {
-- 
2.43.0


From 89a69c6fcb89241fe203576e6ed65f8cf9733fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:44 +0000
Subject: [PATCH 10/66] fix: interpolation window excluded the first of
 thirteen states

---
 nyx-core/src/md/trajectory/traj.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 5a4f5ff..e4036db 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -110,7 +110,8 @@ where
 
                 // Check that we have enough samples
                 if last_idx == self.states.len() {
-                    first_idx = last_idx.saturating_sub(2 * num_left);
+                    // Extend the window to the left only, it must still include the state prior to the requested epoch.
+                    first_idx = first_idx.min(last_idx.saturating_sub(2 * num_left));
                 }
 
                 let mut states = Vec::with_capacity(last_idx - first_idx);
-- 
2.43.0


From 4ae29d346a9251dc77be2002a92897ee363ed791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:12 +0000
Subject: [PATCH 11/66] fix: the third-body gradient no longer differentiates
 the position of the third body

---
 nyx-core/src/dynamics/orbital.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 273de65..daa979c 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -284,15 +284,12 @@ impl AccelModel for PointMasses {
                     action: "computing third body gravitational pull",
                 })?;
 
-            let r_ij: Vector3<OHyperdual<f64, Const<7>>> = hyperspace_from_vector(&st_ij.radius_km);
+            // The position of the third body does not depend on that of the spacecraft: no dual part.
+            let r_ij: Vector3<OHyperdual<f64, Const<7>>> =
+                st_ij.radius_km.map(OHyperdual::from_real);
             let r_ij3 = norm(&r_ij).powi(3);
 
-            // The difference leads to the dual parts nulling themselves out, so let's fix that.
-            let mut r_j = radius - r_ij; // sc as seen from 3rd body
-            r_j[0][1] = 1.0;
-            r_j[1][2] = 1.0;
-            r_j[2][3] = 1.0;
-
+            let r_j = radius - r_ij; // sc as seen from 3rd body
             let r_j3 = norm(&r_j).powi(3);
             let mut third_body_acc_d = r_j / r_j3 + r_ij / r_ij3;
             third_body_acc_d[0] *= gm_d;
-- 
2.43.0


From c6f3f2035b75a99f4687676db00c3bf08e6a2dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:12 +0000
Subject: [PATCH 12/66] fix: SRP partial with respect to Cr is defined for Cr =
 0

---
 nyx-core/src/dynamics/solarpressure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/solarpressure.rs b/nyx-core/src/dynamics/solarpressure.rs
index 284f96e..6f80219 100644
--- a/nyx-core/src/dynamics/solarpressure.rs
+++ b/nyx-core/src/dynamics/solarpressure.rs
@@ -222,8 +222,10 @@ impl ForceModel for SolarPressure {
             }
         }
 
-        // Compute the partial wrt to Cr.
-        let wrt_cr = self.eom(ctx, almanac)? / ctx.srp.coeff_reflectivity;
+        // Compute the partial wrt to Cr: the force is linear in Cr, so that's the force for Cr = 1.
+        let mut unit_cr = *ctx;
+        unit_cr.srp.coeff_reflectivity = 1.0;
+        let wrt_cr = self.eom(&unit_cr, almanac)?;
         for j in 0..3 {
             grad[(3, j)] = wrt_cr[j];
         }
-- 
2.43.0


From fa929d9f2e02dc7e05e9912f78776a5d94a67195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:12 +0000
Subject: [PATCH 13/66] fix: integrate the STM as A(t) times the STM of the
 intermediate step

---
 nyx-core/src/dynamics/spacecraft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 3fecb4c..0d51ca6 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -205,13 +205,13 @@ impl Dynamics for SpacecraftDynamics {
         let mut d_x = OVector::<f64, Const<90>>::zeros();
 
         // Maybe I use this only when estimating the orbit state from a spacecraft, but that functionality will soon disappear.
-        match ctx.stm {
+        match osc_sc.stm {
             Some(stm) => {
                 // Call the gradient (also called the dual EOM function of the force models)
                 let (state, grad) = self.dual_eom(delta_t_s, &osc_sc, almanac)?;
 
-                // Apply the gradient to the STM
-                let stm_dt = stm * grad;
+                // Apply the gradient to the STM of this intermediate step: dΦ/dt = A(t)Φ
+                let stm_dt = grad * stm;
 
                 // Rebuild the state vector
                 for (i, val) in state.iter().enumerate() {
-- 
2.43.0


From 3e1c09d360f9740391e58f2909e569e66d0bff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:12 +0000
Subject: [PATCH 14/66] fix: exponential drag compares altitudes in meters

---
 nyx-core/src/dynamics/drag.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index c71dbde..0e98168 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -206,15 +206,16 @@ impl ForceModel for Drag {
                 r0,
                 ref_alt_m,
             } => {
-                // Compute rho in the drag frame.
+                // Compute rho in the drag frame, all altitudes in meters.
                 let rho = rho0
-                    * (-(osc_drag_frame.rmag_km()
-                        - (r0
-                            + self
-                                .frame
-                                .mean_equatorial_radius_km()
-                                .context(AstroPhysicsSnafu)
-                                .context(DynamicsAstroSnafu)?))
+                    * (-((osc_drag_frame.rmag_km()
+                        - self
+                            .frame
+                            .mean_equatorial_radius_km()
+                            .context(AstroPhysicsSnafu)
+                            .context(DynamicsAstroSnafu)?)
+                        * 1e3
+                        - r0)
                         / ref_alt_m)
                         .exp();
 
-- 
2.43.0


From 276d99e70c57941d4020ec2af86f2f62793597d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 15/66] fix: drag acts along the velocity relative to the drag
 frame, in the integration frame

---
 nyx-core/src/dynamics/drag.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index 0e98168..e6fa9bc 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -18,6 +18,7 @@
 
 use anise::almanac::Almanac;
 use anise::constants::frames::IAU_EARTH_FRAME;
+use anise::errors::OrientationSnafu;
 use snafu::ResultExt;
 
 use super::{
@@ -188,9 +189,20 @@ impl ForceModel for Drag {
                     action: "transforming into drag frame",
                 })?;
 
+        // Velocity relative to the drag frame, expressed in the integration frame.
+        let velocity = almanac
+            .rotate(self.frame, integration_frame, ctx.orbit.epoch)
+            .context(OrientationSnafu {
+                action: "rotating into the integration frame",
+            })
+            .context(DynamicsAlmanacSnafu {
+                action: "rotating into the integration frame",
+            })?
+            .rot_mat
+            * osc_drag_frame.velocity_km_s;
+
         match self.density {
             AtmDensity::Constant(rho) => {
-                let velocity = osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
@@ -219,16 +231,6 @@ impl ForceModel for Drag {
                         / ref_alt_m)
                         .exp();
 
-                // TODO: Drag modeling will be improved in https://github.com/nyx-space/nyx/issues/317
-                // The frame will be double checked in this PR as well.
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
@@ -264,14 +266,6 @@ impl ForceModel for Drag {
                     10.0_f64.powf(logdensity)
                 };
 
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
-- 
2.43.0


From d9b0e145c86bca52d5ec451dd700f082e8d668ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 16/66] fix: Ruggiero guidance coasts when the eclipse exceeds
 the maximum

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 4dead80..2f6ded0 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -439,10 +439,12 @@ impl GuidanceLaw for Ruggiero {
                     } else {
                         sc.mode = GuidanceMode::Thrust;
                     }
-                } else if sc.mode() == GuidanceMode::Coast {
-                    debug!("enabling steering: {:x}", sc.orbit);
+                } else {
+                    if sc.mode() == GuidanceMode::Coast {
+                        debug!("enabling steering: {:x}", sc.orbit);
+                    }
+                    sc.mut_mode(GuidanceMode::Thrust);
                 }
-                sc.mut_mode(GuidanceMode::Thrust);
             } else {
                 if sc.mode() == GuidanceMode::Thrust {
                     debug!("disabling steering: {:x}", sc.orbit);
-- 
2.43.0


From 602232c26515e54351bdde350c7c4498ad7b0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:32 +0000
Subject: [PATCH 17/66] verification hook: gravity field data from coefficients
 (cfg nyx_verif)

---
 nyx-core/src/io/gravity.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 586244a..803caad 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -127,6 +127,23 @@ impl GravityFieldData {
         }
     }
 
+    /// Verification hook: a gravity field with the provided coefficients.
+    #[cfg(nyx_verif)]
+    pub fn nv_from_coeffs(
+        order: usize,
+        c_nm: DMatrix<f64>,
+        s_nm: DMatrix<f64>,
+        frame: Frame,
+    ) -> GravityFieldData {
+        GravityFieldData {
+            degree: c_nm.nrows() - 1,
+            order,
+            c_nm,
+            s_nm,
+            frame,
+        }
+    }
+
     /// Initialize `GravityFieldData` from the file path (must be a gunzipped file)
     ///
     /// Gravity models provided by `nyx`:
-- 
2.43.0


From cbbdeb71b76849fb09742332d3775e3c371e19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:35 +0000
Subject: [PATCH 18/66] fix: the constant drag force is expressed in the
 integration frame

---
 nyx-core/src/dynamics/drag.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index e6fa9bc..ba7e7e5 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -96,7 +96,17 @@ impl ForceModel for ConstantDrag {
                     action: "transforming into drag frame",
                 })?;
 
-        let velocity = osc.velocity_km_s;
+        // Velocity relative to the drag frame, expressed in the integration frame.
+        let velocity = almanac
+            .rotate(self.frame, ctx.orbit.frame, ctx.orbit.epoch)
+            .context(OrientationSnafu {
+                action: "rotating into the integration frame",
+            })
+            .context(DynamicsAlmanacSnafu {
+                action: "rotating into the integration frame",
+            })?
+            .rot_mat
+            * osc.velocity_km_s;
         // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
         Ok(-0.5
             * 1e3
-- 
2.43.0


From 45ce42d48f54fcbd699931d5bacc5df154e1ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:31 +0000
Subject: [PATCH 19/66] fix: select the COF gravity file reader by the file
 name

---
 nyx-core/src/io/gravity.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 803caad..d0fca54 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -104,8 +104,10 @@ impl GravityFieldData {
                 action: "fetching gravity field frame",
             })?;
 
-        if !cfg.gunzipped && cfg.filepath.ends_with(".cof")
-            || cfg.gunzipped && cfg.filepath.ends_with(".cof.gz")
+        // NOTE: Path::ends_with compares whole path components, so compare the text of the path.
+        let filename = cfg.filepath.to_string_lossy();
+        if !cfg.gunzipped && filename.ends_with(".cof")
+            || cfg.gunzipped && filename.ends_with(".cof.gz")
         {
             Self::from_cof(cfg.filepath, cfg.degree, cfg.order, cfg.gunzipped, frame)
         } else {
-- 
2.43.0


From eff106983b1b5a3d962adade240e278c3c5aa87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:12 +0000
Subject: [PATCH 20/66] fix: the sensitivity of an unavailable measurement type
 is zero

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 2 +-
 nyx-core/src/od/interlink/sensitivity.rs | 2 +-
 nyx-core/src/od/msr/sensitivity.rs       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index bd27961..5b5ef98 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -48,7 +48,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <GroundAsset as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 936ccd3..83aad3a 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -58,7 +58,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 46a3cb0..2a832e3 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -96,7 +96,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
-- 
2.43.0


From 3f99eb2b41b83da0519c64f1854bb286ecd97ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:12 +0000
Subject: [PATCH 21/66] fix: range and Doppler sensitivities do not depend on
 the possibly ambiguous or missing measured range

---
 nyx-core/src/od/interlink/sensitivity.rs | 15 ++++-----------
 nyx-core/src/od/msr/sensitivity.rs       |  3 ++-
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 83aad3a..74c6fa8 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -107,12 +107,8 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
+                // Always compute the expected range: the measured range may be unavailable or ambiguous.
+                let ρ_km = delta_r.norm();
                 let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).ok_or_else(|| {
                     ODError::MeasurementSimError {
                         details: "Doppler measurement data is missing".to_string(),
@@ -137,11 +133,8 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
+                // Use the computed range because the measured range may be ambiguous.
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 2a832e3..f3fdb1d 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -169,7 +169,8 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                // Use the computed range because the measured range may be ambiguous.
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From edda23c82887a06bfb27171a5e6921b6aceec1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:13 +0000
Subject: [PATCH 22/66] fix: resolve the measurement ambiguity to the candidate
 closest to the computed observation

---
 nyx-core/src/od/process/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 33689e4..d64fd8b 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -339,7 +339,8 @@ where
 
                                             for (i, msr_type) in cur_msr_types.iter().enumerate() {
                                                 if let Some(modulus) = moduli.get(msr_type) {
-                                                    let k = computed_obs[i].div_euclid(*modulus);
+                                                    // Pick the ambiguity which brings the observation closest to the computed one
+                                                    let k = ((computed_obs[i] - real_obs[i]) / *modulus).round();
                                                     // real_obs = measured_obs + k * modulus
                                                     obs_ambiguity[i] = k * *modulus;
                                                 }
-- 
2.43.0


From 47e8373d884f0de66c3b504f1b8502cff22f5539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:13 +0000
Subject: [PATCH 23/66] fix: OD predictions stop at the requested epoch and
 initialize decaying process noises

---
 nyx-core/src/od/process/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index d64fd8b..edb9da3 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -461,11 +461,14 @@ where
             prev_used_snc: 0,
         };
 
+        kf.initialize_process_noises();
+
         let prop_time = end_epoch - kf.previous_estimate().epoch();
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
         loop {
-            let nominal_state = prop_instance.for_duration(self.max_step).context(ODPropSnafu)?;
+            let next_step_size = (end_epoch - prop_instance.state.epoch()).min(self.max_step);
+            let nominal_state = prop_instance.for_duration(next_step_size).context(ODPropSnafu)?;
             // Extract the state and update the STM in the filter.
             // Get the datetime and info needed to compute the theoretical measurement according to the model
             let epoch = nominal_state.epoch();
-- 
2.43.0


From 8ec7adbf5c3a3e91f2d8014ad1907edbbdf8ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:13 +0000
Subject: [PATCH 24/66] fix: with_msr_bias_constant sets the bias of the ground
 station instead of a copy

---
 nyx-core/src/od/ground_station/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 7b09536..edd03bd 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -189,7 +189,9 @@ impl GroundStation {
             this_noise.bias = Some(GaussMarkov::ZERO);
         }
 
-        this_noise.bias.unwrap().constant = Some(bias_constant);
+        if let Some(bias) = this_noise.bias.as_mut() {
+            bias.constant = Some(bias_constant);
+        }
 
         Ok(self)
     }
-- 
2.43.0


From 82f8abd9ebf0b044719627b0acdec4cf27de4453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:13 +0000
Subject: [PATCH 25/66] fix: the timestamp noise of a ground station advances
 with each measurement

---
 nyx-core/src/od/ground_station/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index edd03bd..faea529 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -209,7 +209,7 @@ impl GroundStation {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
-- 
2.43.0


From 46b8460c43f78de03ba56387d5a8ac42da64db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 26/66] fix: an arc flagged force_reject rejects every
 measurement, including perfect ones

---
 nyx-core/src/od/process/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index edb9da3..22bf26b 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -174,7 +174,7 @@ where
 
         let resid_crit = if arc.force_reject {
             warn!("Rejecting all measurements from {arc} as requested");
-            Some(SigmaRejection { num_sigmas: 0.0 })
+            Some(SigmaRejection { num_sigmas: f64::NEG_INFINITY })
         } else {
             self.sigma_reject
         };
-- 
2.43.0


From bfa963a513ab81ef5e1fc42d3b26c5a76938a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 27/66] fix: constant measurement biases are removed from the
 residuals with the sign used when they are applied

---
 nyx-core/src/od/position/trk_device.rs     | 4 +---
 nyx-core/src/od/process/mod.rs             | 2 +-
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index ef7bac9..b59a865 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -76,9 +76,7 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
         for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
             msr.push(
                 msr_type,
-                rx.orbit.radius_km[ii]
-                    + noises.get(&msr_type).unwrap_or(&0.0)
-                    + self.measurement_bias(msr_type, rx.orbit.epoch)?,
+                rx.orbit.radius_km[ii] + noises.get(&msr_type).unwrap_or(&0.0),
             );
         }
 
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 22bf26b..88517c7 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -327,7 +327,7 @@ where
                                         // Apply any biases on the computed observation
                                         let computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
-                                            - device.measurement_bias_vector::<MsrSize>(
+                                            + device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c94d8e2..5c6df27 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -182,7 +182,7 @@ where
                     // Only recompute the computed observation from the update state estimate.
                     residual.computed_obs = computed_meas
                         .observation::<MsrSize>(&residual.msr_types)
-                        - device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
+                        + device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
 
                     // Update the postfit residual.
                     residual.postfit = &residual.real_obs - &residual.computed_obs;
-- 
2.43.0


From 1664dc5e6adc8355c127e01d1586fc8cd10f4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 28/66] fix: the two-way azimuth is averaged along the shortest
 arc

---
 nyx-core/src/od/msr/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/types.rs b/nyx-core/src/od/msr/types.rs
index e08f938..b519459 100644
--- a/nyx-core/src/od/msr/types.rs
+++ b/nyx-core/src/od/msr/types.rs
@@ -134,7 +134,11 @@ impl MeasurementType {
                 Ok(doppler_km_s + noise / 2.0_f64.sqrt())
             }
             Self::Azimuth => {
-                let az_deg = (aer_t1.azimuth_deg + aer_t0.azimuth_deg) * 0.5;
+                // Average along the shortest arc: the azimuth may wrap around north in between.
+                let mut az_deg = (aer_t1.azimuth_deg + aer_t0.azimuth_deg) * 0.5;
+                if (aer_t1.azimuth_deg - aer_t0.azimuth_deg).abs() > 180.0 {
+                    az_deg += if az_deg < 180.0 { 180.0 } else { -180.0 };
+                }
                 Ok(az_deg + noise / 2.0_f64.sqrt())
             }
             Self::Elevation => {
-- 
2.43.0


From af70f846a7d08fe39e528c2b161db04179b3a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:31 +0000
Subject: [PATCH 29/66] fix: honour the bounds when filtering a tracking arc by
 offset

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 6878e9e..70f21a4 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -396,17 +396,16 @@ impl TrackingDataArc {
             return self;
         }
         // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.start_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
+        let start_epoch = self.start_epoch().unwrap();
+        let to_epoch = |offset: Bound<&Duration>| match offset {
+            Unbounded => Unbounded,
+            Included(offset) => Included(start_epoch + *offset),
+            Excluded(offset) => Excluded(start_epoch + *offset),
         };
 
-        let end = match bound.end_bound() {
-            Unbounded => self.end_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
+        let bound = (to_epoch(bound.start_bound()), to_epoch(bound.end_bound()));
 
-        self.filter_by_epoch(start..end)
+        self.filter_by_epoch(bound)
     }
 
     /// Returns a new tracking arc that only contains measurements from the desired tracker.
-- 
2.43.0


From 4630b768783cf3069a618724ec07fc821a096be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:31 +0000
Subject: [PATCH 30/66] fix: measurements with different measurement types are
 not equal

---
 nyx-core/src/od/msr/measurement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nyx-core/src/od/msr/measurement.rs b/nyx-core/src/od/msr/measurement.rs
index 0e824b8..77d1a45 100644
--- a/nyx-core/src/od/msr/measurement.rs
+++ b/nyx-core/src/od/msr/measurement.rs
@@ -124,6 +124,7 @@ impl PartialEq for Measurement {
     fn eq(&self, other: &Self) -> bool {
         self.tracker == other.tracker
             && self.epoch == other.epoch
+            && self.data.len() == other.data.len()
             && self.data.iter().all(|(key, &value)| {
                 if let Some(&other_value) = other.data.get(key) {
                     (value - other_value).abs() < 1e-10
-- 
2.43.0


From a2eb60b45231b05e8c94cf2d6f552f8c07063fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:31 +0000
Subject: [PATCH 31/66] fix: document the resolution of the measurement
 ambiguity

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 70f21a4..e1ee4cf 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -62,10 +62,10 @@ mod python;
 /// Nyx can only resolve the range ambiguity if the tracking data specifies a modulus for this specific measurement type.
 /// For example, in the case of the JPL Range Code and a 1 MHz range clock, the ambiguity interval is 75,660 km.
 ///
-/// The measurement used in the Orbit Determination Process then becomes the following, where `//` represents the [Euclidian division](https://doc.rust-lang.org/std/primitive.f64.html#method.div_euclid).
+/// The measurement used in the Orbit Determination Process then becomes the candidate closest to the computed observation.
 ///
 /// ```text
-/// k = computed_obs // ambiguity_interval
+/// k = round((computed_obs - measured_obs) / ambiguity_interval)
 /// real_obs = measured_obs + k * modulus
 /// ```
 ///
-- 
2.43.0


From 561c3543057cb07ea46dd94d08146b874fa6bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:42 +0000
Subject: [PATCH 32/66] fix: the interlink range rate uses the velocity
 relative to the transmitter

---
 nyx-core/src/od/interlink/trk_device.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index c447ba4..13098c5 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -205,9 +205,9 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
 
             let rho_tx_frame = rx_in_tx_frame.radius_km - observer.orbit.radius_km;
 
-            // Compute the range-rate \dot ρ. Note that rx_in_tx_frame is already the relative velocity of rx wrt tx!
-            let range_rate_km_s =
-                rho_tx_frame.dot(&rx_in_tx_frame.velocity_km_s) / rho_tx_frame.norm();
+            // Compute the range-rate \dot ρ from the velocity of the receiver relative to the transmitter.
+            let rel_velocity_km_s = rx_in_tx_frame.velocity_km_s - observer.orbit.velocity_km_s;
+            let range_rate_km_s = rho_tx_frame.dot(&rel_velocity_km_s) / rho_tx_frame.norm();
 
             let noises = self.noises(observer.epoch(), rng)?;
 
-- 
2.43.0


From 38927ed4018d860f12898aaaed2b34a9b252f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:42 +0000
Subject: [PATCH 33/66] fix: the timestamp noise of an interlink advances with
 each measurement

---
 nyx-core/src/od/interlink/trk_device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index 13098c5..7d5a1c0 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -70,7 +70,7 @@ impl InterlinkTxSpacecraft {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
-- 
2.43.0


From 83716a4e36d44be907f1fd9438cde1d9420794ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:33 +0000
Subject: [PATCH 34/66] fix: azimuth and elevation sensitivities are those of
 the SEZ angles in degrees

---
 nyx-core/src/od/msr/sensitivity.rs | 73 ++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index f3fdb1d..f331452 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -21,9 +21,10 @@ use crate::linalg::allocator::Allocator;
 use crate::md::prelude::Interpolatable;
 use crate::od::{GroundStation, ODAlmanacSnafu, ODError, TrackingDevice};
 use crate::{Spacecraft, State};
+use anise::errors::AlmanacError;
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -186,37 +187,59 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                     _tx: PhantomData::<_>,
                 })
             }
-            MeasurementType::Azimuth => {
-                let denom = delta_r.x.powi(2) + delta_r.y.powi(2);
-                let m11 = -delta_r.y / denom;
-                let m12 = delta_r.x / denom;
-                let m13 = 0.0;
+            MeasurementType::Azimuth | MeasurementType::Elevation => {
+                // The angles are measured in degrees in the SEZ frame of the transmitter.
+                let station = tx
+                    .to_orbit(receiver.epoch, almanac)
+                    .context(ODAlmanacSnafu {
+                        action: "computing transmitter location when computing sensitivity matrix",
+                    })?;
 
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
+                let sez2fixed = station
+                    .dcm3x3_from_topocentric_to_body_fixed()
+                    .map_err(|source| AlmanacError::AlmanacPhysics {
+                        action: "computing SEZ DCM",
+                        source: Box::new(source),
+                    })
+                    .context(ODAlmanacSnafu {
+                        action: "computing sensitivity matrix",
+                    })?
+                    .rot_mat;
 
-                let sensitivity_row =
-                    OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
-                    ]);
+                let fixed2rx = almanac
+                    .rotate(station.frame, receiver.frame, receiver.epoch)
+                    .map_err(|source| AlmanacError::GenericError {
+                        err: source.to_string(),
+                    })
+                    .context(ODAlmanacSnafu {
+                        action: "rotating transmitter frame when computing sensitivity matrix",
+                    })?
+                    .rot_mat;
 
-                Ok(Self {
-                    sensitivity_row,
-                    _rx: PhantomData::<_>,
-                    _tx: PhantomData::<_>,
-                })
-            }
-            MeasurementType::Elevation => {
-                let r2 = delta_r.norm().powi(2);
-                let z2 = delta_r.z.powi(2);
+                let sez2rx = fixed2rx * sez2fixed;
+                let ρ_sez = sez2rx.transpose() * delta_r;
+                let xy2 = ρ_sez.x.powi(2) + ρ_sez.y.powi(2);
 
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-                let m11 = -(delta_r.x * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m12 = -(delta_r.y * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m13 = (delta_r.x.powi(2) + delta_r.y.powi(2)).sqrt() / r2;
+                let partial_sez = if msr_type == MeasurementType::Azimuth {
+                    // az = atan2(ρ_y, -ρ_x)
+                    Vector3::new(ρ_sez.y / xy2, -ρ_sez.x / xy2, 0.0)
+                } else {
+                    // el = asin(ρ_z / ρ)
+                    let r2 = ρ_sez.norm_squared();
+                    let xy = xy2.sqrt();
+                    Vector3::new(
+                        -ρ_sez.x * ρ_sez.z / (r2 * xy),
+                        -ρ_sez.y * ρ_sez.z / (r2 * xy),
+                        xy / r2,
+                    )
+                };
+
+                // Rotate the partials from the SEZ frame into the estimation frame, in degrees.
+                let m = (sez2rx * partial_sez).map(f64::to_degrees);
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        m.x, m.y, m.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
-- 
2.43.0


From 44f9ca8952a134350116bb51d2285af6dcf35737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:56 +0000
Subject: [PATCH 35/66] fix: merged OD solutions are in chronological order

---
 nyx-core/src/od/process/solution/filter_data.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 25eda53..d6ea411 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -246,12 +246,17 @@ where
                 .expect("Epoch comparison failed")
         });
 
+        // Invert the permutation to find the sorted position of each record
+        let mut targets = vec![0; indices.len()];
+        for (sorted_pos, original_pos) in indices.into_iter().enumerate() {
+            targets[original_pos] = sorted_pos;
+        }
+
         // Apply permutation to both vectors in-place
-        for i in 0..indices.len() {
-            let current = i;
-            while indices[current] != current {
-                let target = indices[current];
-                indices.swap(current, target);
+        for current in 0..targets.len() {
+            while targets[current] != current {
+                let target = targets[current];
+                targets.swap(current, target);
                 self.estimates.swap(current, target);
                 self.residuals.swap(current, target);
                 self.gains.swap(current, target);
-- 
2.43.0


From 822f94de097b9ea4af01a4fb5b6499e2e9d826f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:56 +0000
Subject: [PATCH 36/66] fix: smoothed residuals are those of the smoothed
 estimate

---
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index 5c6df27..2968bbe 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -162,7 +162,7 @@ where
             // Compute the smoothed covariance
             smoothed_est_k.set_covar(p_k_l);
             // Recompute the residual if available.
-            if let Some(mut residual) = self.residuals[k + 1].clone() {
+            if let Some(mut residual) = self.residuals[k].clone() {
                 let tracker = residual
                     .tracker
                     .as_ref()
-- 
2.43.0


From fb62c7cd25d8a983839df7f33667aa7448152792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:31 +0000
Subject: [PATCH 37/66] fix: the RMS of the residuals does not count the time
 updates

---
 nyx-core/src/od/process/solution/stats.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index c337ce5..99fba71 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -150,7 +150,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.prefit.dot(&residual.prefit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the postfit residuals
@@ -159,7 +159,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.postfit.dot(&residual.postfit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
@@ -168,7 +168,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.ratio.powi(2);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Computes the fraction of residual ratios that lie within ±threshold.
-- 
2.43.0


From 9d3155f8f3f34940d6867a67c1ba0d17e3076d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:03 +0000
Subject: [PATCH 38/66] fix: a schedule with no tracking strands is empty
 instead of an underflow

---
 nyx-core/src/od/simulator/arc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 255bc97..1191cf5 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -408,8 +408,10 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
         }
         // Iterate through the strands by chronological order. Cannot use maps because we change types.
         cfg_as_vec.sort_by_key(|(_, _, strand)| strand.start);
-        for (ii, (this_name, this_pos, this_strand)) in
-            cfg_as_vec.iter().take(cfg_as_vec.len() - 1).enumerate()
+        for (ii, (this_name, this_pos, this_strand)) in cfg_as_vec
+            .iter()
+            .take(cfg_as_vec.len().saturating_sub(1))
+            .enumerate()
         {
             // Grab the config
             if let Some(config) = self.configs[this_name].scheduler.as_ref() {
-- 
2.43.0


From fe196ab9ddce238f1d3a22b576888a1d154452f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:49 +0000
Subject: [PATCH 39/66] fix: local frame corrections of the targeter are those
 of the reported corrected state

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 08af3b7..e24ddc2 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -430,7 +430,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         // Now, let's apply the correction to the initial state
                         if let Some(frame) = self.correction_frame {
                             // The following will error if the frame is not local
-                            let dcm_vnc2inertial = this_xi
+                            let dcm_vnc2inertial = xi_start
                                 .orbit
                                 .dcm_to_inertial(frame)
                                 .context(AstroPhysicsSnafu)
@@ -719,9 +719,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                 }
             }
 
-            // Now, let's apply the correction to the initial state
+            // Now, let's apply the correction to the initial state,
+            // in the local frame of the uncorrected state, like the total correction.
             if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
+                let dcm_vnc2inertial = xi_start
                     .orbit
                     .dcm_to_inertial(frame)
                     .context(AstroPhysicsSnafu)
-- 
2.43.0


From aadb3c247532b05610930c43d5aad4eb212daece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:41 +0000
Subject: [PATCH 40/66] fix: applying a targeter solution verifies the
 objectives in the objective frame

---
 nyx-core/src/md/opti/targeter.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 437738d..d62362e 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -18,7 +18,7 @@
 
 use snafu::ResultExt;
 
-use crate::cosmic::AstroPhysicsSnafu;
+use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::dynamics::guidance::LocalFrame;
 use crate::errors::TargetingError;
 use crate::md::AstroSnafu;
@@ -275,7 +275,7 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 println!("{mnvr}");
                 let mut prop = self.prop.clone();
                 prop.dynamics = prop.dynamics.with_guidance_law(Arc::new(mnvr));
-                prop.with(solution.corrected_state, almanac)
+                prop.with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
@@ -283,14 +283,22 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 // This isn't a finite burn maneuver, let's just apply the correction
                 // Propagate until achievement epoch
                 self.prop
-                    .with(solution.corrected_state, almanac)
+                    .with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
         };
 
-        // Build the partials
-        let xf_dual = OrbitGrad::from(xf.orbit);
+        // Build the partials, in the objective frame if there is one
+        let xf_dual = match &self.objective_frame {
+            Some(frame) => OrbitGrad::from(
+                almanac
+                    .transform_to(xf.orbit, *frame, None)
+                    .context(AstroAlmanacSnafu)
+                    .context(AstroSnafu)?,
+            ),
+            None => OrbitGrad::from(xf.orbit),
+        };
 
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
@@ -325,9 +333,8 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 unreachable!()
             };
 
-            let param_err = obj.desired_value - partial.real();
-
-            if param_err.abs() > obj.tolerance {
+            let (ok, param_err) = obj.assess_value(partial.real());
+            if !ok {
                 converged = false;
             }
             param_errors.push(param_err);
-- 
2.43.0


From 1b0f4ad5d5c99275006ced89bbb83c9a11f1ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:41 +0000
Subject: [PATCH 41/66] fix: the rates of the maneuver angles are finite burn
 variables

---
 nyx-core/src/md/opti/target_variable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/target_variable.rs b/nyx-core/src/md/opti/target_variable.rs
index f6d0f3c..39e0d43 100644
--- a/nyx-core/src/md/opti/target_variable.rs
+++ b/nyx-core/src/md/opti/target_variable.rs
@@ -82,10 +82,10 @@ impl Vary {
     #[allow(clippy::nonminimal_bool)]
     pub fn is_finite_burn(&self) -> bool {
         *self == Self::MnvrAlpha
-            || *self == Self::MnvrAlphaDDot
+            || *self == Self::MnvrAlphaDot
             || *self == Self::MnvrAlphaDDot
             || *self == Self::MnvrDelta
-            || *self == Self::MnvrDeltaDDot
+            || *self == Self::MnvrDeltaDot
             || *self == Self::MnvrDeltaDDot
             || *self == Self::StartEpoch
             || *self == Self::Duration
-- 
2.43.0


From ac09519d76a3d53670a789097e524e3b0927f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:51 +0000
Subject: [PATCH 42/66] fix: disperse Cr, Cd and propellant mass by their own
 standard deviation and mean

---
 nyx-core/src/mc/multivariate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index b3dbef8..353bb4e 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -168,13 +168,16 @@ impl MvnSpacecraft {
                 } else {
                     match disp.param {
                         StateParameter::Cr() => {
-                            cov[(7, 7)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(6, 6)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[6] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::Cd() => {
-                            cov[(8, 8)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(7, 7)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[7] = disp.mean.unwrap_or(0.0);
                         }
-                        StateParameter::DryMass() | StateParameter::PropMass() => {
-                            cov[(9, 9)] = disp.mean.unwrap_or(0.0).powi(2);
+                        StateParameter::PropMass() => {
+                            cov[(8, 8)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[8] = disp.mean.unwrap_or(0.0);
                         }
                         _ => return Err(Box::new(StateError::ReadOnly { param: disp.param })),
                     }
-- 
2.43.0


From 44a98b94d73ee5eca2965905dba0b7e0ccf19241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:51 +0000
Subject: [PATCH 43/66] fix: actual dispersions are added to the template state

---
 nyx-core/src/mc/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 353bb4e..a5396f1 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -323,7 +323,7 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let mut actual_dispersions = Vec::new();
         for disp in &self.dispersions {
             // Compute the delta
-            let delta = self.template.value(disp.param).unwrap() - state.value(disp.param).unwrap();
+            let delta = state.value(disp.param).unwrap() - self.template.value(disp.param).unwrap();
             actual_dispersions.push((disp.param, delta));
         }
 
-- 
2.43.0


From 8ad63d2d8e52e29be8822fb13c81ee27e2272ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:51 +0000
Subject: [PATCH 44/66] fix: dispersions from a spacecraft covariance report
 standard deviations, not variances

---
 nyx-core/src/mc/multivariate.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index a5396f1..47c78a5 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -252,39 +252,39 @@ impl MvnSpacecraft {
         let dispersions = vec![
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::X))
-                .std_dev(cov[(0, 0)])
+                .std_dev(cov[(0, 0)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Y))
-                .std_dev(cov[(1, 1)])
+                .std_dev(cov[(1, 1)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Z))
-                .std_dev(cov[(2, 2)])
+                .std_dev(cov[(2, 2)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VX))
-                .std_dev(cov[(3, 3)])
+                .std_dev(cov[(3, 3)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VY))
-                .std_dev(cov[(4, 4)])
+                .std_dev(cov[(4, 4)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VZ))
-                .std_dev(cov[(5, 5)])
+                .std_dev(cov[(5, 5)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cr())
-                .std_dev(cov[(6, 6)])
+                .std_dev(cov[(6, 6)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cd())
-                .std_dev(cov[(7, 7)])
+                .std_dev(cov[(7, 7)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::PropMass())
-                .std_dev(cov[(8, 8)])
+                .std_dev(cov[(8, 8)].sqrt())
                 .build(),
         ];
 
-- 
2.43.0


From b86429130c29855bfd5c2db5d7c99e5556f1e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:41 +0000
Subject: [PATCH 45/66] fix: the batch least squares STM maps each measurement
 to the batch epoch

---
 nyx-core/src/od/blse/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index d4fd773..993fc2f 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -220,6 +220,8 @@ where
                     let step_stm = this_state.stm().expect("STM unavailable");
                     // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
                     stm = step_stm * stm;
+                    // The next step STM starts from this state.
+                    prop_inst.state.reset_stm();
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
-- 
2.43.0


From 6df8427dac1cb46c312df604816da19119dc8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:46 +0000
Subject: [PATCH 46/66] fix: batch least squares uses simultaneous measurements
 and those at the batch epoch

---
 nyx-core/src/od/blse/mod.rs | 201 ++++++++++++++++++------------------
 1 file changed, 102 insertions(+), 99 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 993fc2f..327a445 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -192,6 +192,7 @@ where
             // Set up a single propagator for the whole iteration.
             let mut prop_inst = self.prop.with(current_estimate.with_stm(), (self.almanac).clone()).quiet();
             let mut epoch = current_estimate.epoch();
+            let mut this_state = current_estimate.with_stm();
 
             // Store the STM to the start of the batch.
             let mut stm = StateMatrix::<D>::identity();
@@ -213,7 +214,7 @@ where
                     let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
 
                     // Propagate reference state from the previous state to msr_epoch
-                    let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
+                    this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                     epoch = this_state.epoch();
 
                     // Grab the STM Phi(t_{i+1}, t_i) from the propagated state's STM.
@@ -222,81 +223,82 @@ where
                     stm = step_stm * stm;
                     // The next step STM starts from this state.
                     prop_inst.state.reset_stm();
+                }
 
-                    if (epoch - msr_epoch).abs() < self.epoch_precision {
-                        // Get the correct tracking device
-                        let device = match devices.get_mut(&msr.tracker) {
-                            Some(d) => d,
-                            None => {
-                                if !unknown_trackers.contains(&msr.tracker) {
-                                    error!(
-                                        "Tracker {} is not in the list of configured devices",
-                                        msr.tracker
-                                    );
-                                }
-                                unknown_trackers.insert(msr.tracker.clone());
-                                continue;
+                // Several measurements may share an epoch, including that of the initial estimate.
+                if (epoch - msr_epoch).abs() < self.epoch_precision {
+                    // Get the correct tracking device
+                    let device = match devices.get_mut(&msr.tracker) {
+                        Some(d) => d,
+                        None => {
+                            if !unknown_trackers.contains(&msr.tracker) {
+                                error!(
+                                    "Tracker {} is not in the list of configured devices",
+                                    msr.tracker
+                                );
                             }
-                        };
+                            unknown_trackers.insert(msr.tracker.clone());
+                            continue;
+                        }
+                    };
 
-                        for msr_type in msr.data.keys().copied() {
-                            let mut msr_types = IndexSet::new();
-                            msr_types.insert(msr_type);
+                    for msr_type in msr.data.keys().copied() {
+                        let mut msr_types = IndexSet::new();
+                        msr_types.insert(msr_type);
 
-                            let h_tilde = device
-                            .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
+                        let h_tilde = device
+                        .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
 
-                            // Compute expected measurement H(X(t_i))
-                            let computed_meas_opt = device
-                                .measure_instantaneous(this_state, None, &self.almanac)?;
+                        // Compute expected measurement H(X(t_i))
+                        let computed_meas_opt = device
+                            .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                            let computed_meas = match computed_meas_opt {
-                                Some(cm) => cm,
-                                None => {
-                                    debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
-                                    continue;
-                                }
-                            };
+                        let computed_meas = match computed_meas_opt {
+                            Some(cm) => cm,
+                            None => {
+                                debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
+                                continue;
+                            }
+                        };
 
-                            // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        // Get the computed observation value
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
 
-                            // Get real observation y_i
-                            let real_obs = msr.observation::<U1>(&msr_types)[0];
+                        // Get real observation y_i
+                        let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                            // Sanity check measurement value
-                            ensure!(
-                                real_obs.is_finite(),
-                                InvalidMeasurementSnafu {
-                                    epoch: msr_epoch,
-                                    val: real_obs
-                                }
-                            );
+                        // Sanity check measurement value
+                        ensure!(
+                            real_obs.is_finite(),
+                            InvalidMeasurementSnafu {
+                                epoch: msr_epoch,
+                                val: real_obs
+                            }
+                        );
 
-                            // Compute residual dy = y_i - H(X(t_i))
-                            let residual = real_obs - computed_obs;
+                        // Compute residual dy = y_i - H(X(t_i))
+                        let residual = real_obs - computed_obs;
 
-                            // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
-                            let r_matrix = device
-                                .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                            let r_variance = r_matrix[(0, 0)];
+                        // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
+                        let r_matrix = device
+                            .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                        let r_variance = r_matrix[(0, 0)];
 
-                            ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                            let weight = 1.0 / r_variance;
+                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                        let weight = 1.0 / r_variance;
 
-                            // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
-                            let h_matrix = h_tilde * stm;
+                        // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
+                        let h_matrix = h_tilde * stm;
 
-                            // Accumulate Information Matrix: info_matrix += H^T * W * H
-                            // Recall that the weight is a scalar, so we can move it to the end of the operation.
-                            info_matrix += h_matrix.transpose() * &h_matrix * weight;
+                        // Accumulate Information Matrix: info_matrix += H^T * W * H
+                        // Recall that the weight is a scalar, so we can move it to the end of the operation.
+                        info_matrix += h_matrix.transpose() * &h_matrix * weight;
 
-                            // Accumulate Normal Matrix: normal_matrix += H^T * W * y
-                            normal_matrix += h_matrix.transpose() * residual * weight;
+                        // Accumulate Normal Matrix: normal_matrix += H^T * W * y
+                        normal_matrix += h_matrix.transpose() * residual * weight;
 
-                            // Accumulate sum of squares of weighted residuals
-                            sum_sq_weighted_residuals += weight * residual * residual;
-                        }
+                        // Accumulate sum of squares of weighted residuals
+                        sum_sq_weighted_residuals += weight * residual * residual;
                     }
                 }
             }
@@ -471,6 +473,7 @@ where
 
         let mut prop_inst = self.prop.with(state.with_stm(), self.almanac.clone()).quiet();
         let mut epoch = state.epoch();
+        let mut this_state = state.with_stm();
 
         for msr in measurements {
             if msr.rejected {
@@ -485,56 +488,56 @@ where
                 }
 
                 let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
-                let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
+                this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                 epoch = this_state.epoch();
+            }
 
-                if (epoch - msr_epoch).abs() < self.epoch_precision {
-                    let device = match devices.get_mut(&msr.tracker) {
-                        Some(d) => d,
-                        None => {
-                            if !unknown_trackers.contains(&msr.tracker) {
-                                error!(
-                                    "Tracker {} is not in the list of configured devices",
-                                    msr.tracker
-                                );
-                            }
-                            unknown_trackers.insert(msr.tracker.clone());
-                            continue;
+            if (epoch - msr_epoch).abs() < self.epoch_precision {
+                let device = match devices.get_mut(&msr.tracker) {
+                    Some(d) => d,
+                    None => {
+                        if !unknown_trackers.contains(&msr.tracker) {
+                            error!(
+                                "Tracker {} is not in the list of configured devices",
+                                msr.tracker
+                            );
                         }
-                    };
+                        unknown_trackers.insert(msr.tracker.clone());
+                        continue;
+                    }
+                };
 
-                    for msr_type in msr.data.keys().copied() {
-                        let mut msr_types = IndexSet::new();
-                        msr_types.insert(msr_type);
+                for msr_type in msr.data.keys().copied() {
+                    let mut msr_types = IndexSet::new();
+                    msr_types.insert(msr_type);
 
-                        let computed_meas_opt = device
-                            .measure_instantaneous(this_state, None, &self.almanac)?;
+                    let computed_meas_opt = device
+                        .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                        let computed_meas = match computed_meas_opt {
-                            Some(cm) => cm,
-                            None => continue,
-                        };
+                    let computed_meas = match computed_meas_opt {
+                        Some(cm) => cm,
+                        None => continue,
+                    };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
-                        let real_obs = msr.observation::<U1>(&msr_types)[0];
+                    let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                    let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                        ensure!(
-                            real_obs.is_finite(),
-                            InvalidMeasurementSnafu {
-                                epoch: msr_epoch,
-                                val: real_obs
-                            }
-                        );
+                    ensure!(
+                        real_obs.is_finite(),
+                        InvalidMeasurementSnafu {
+                            epoch: msr_epoch,
+                            val: real_obs
+                        }
+                    );
 
-                        let residual = real_obs - computed_obs;
-                        let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                        let r_variance = r_matrix[(0, 0)];
+                    let residual = real_obs - computed_obs;
+                    let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                    let r_variance = r_matrix[(0, 0)];
 
-                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                        let weight = 1.0 / r_variance;
+                    ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                    let weight = 1.0 / r_variance;
 
-                        sum_sq_weighted_residuals += weight * residual * residual;
-                    }
+                    sum_sq_weighted_residuals += weight * residual * residual;
                 }
             }
         }
-- 
2.43.0


From 3824dc8a3435f2fbb56a56d426f3542183777800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:51 +0000
Subject: [PATCH 47/66] fix: estimates print their standard deviations, not
 their variances

---
 nyx-core/src/od/estimate/kfestimate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index b37fd61..a04323f 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -301,7 +301,8 @@ where
                 ""
             };
             // Convert from km to meter
-            let val = &self.covar[(i, i)] * 1e3;
+            let scale = if i < 6 { 1e3 } else { 1.0 };
+            let val = self.covar[(i, i)].sqrt() * scale;
             if val.abs() < 1e-3 {
                 fmt_cov.push(format!("{val:.6e} {unit}"));
             } else {
@@ -344,7 +345,7 @@ where
             } else {
                 ""
             };
-            fmt_cov.push(format!("{:e} {unit}", &self.covar[(i, i)]));
+            fmt_cov.push(format!("{:e} {unit}", self.covar[(i, i)].sqrt()));
         }
         write!(
             f,
-- 
2.43.0


From ee1cda788248a1ed3886d9c71e8d9fc3c47d1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:42 +0000
Subject: [PATCH 48/66] fix: Izzo's Lambert solver takes the requested way for
 every orientation of the transfer plane

---
 nyx-core/src/tools/lambert/izzo.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index a0729f3..edc6a56 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -63,13 +63,6 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let mut i_h = i_r1.cross(&i_r2);
     i_h /= i_h.norm(); // Ensure normalization
 
-    // Normalize orientation so i_h points along +z, matching the
-    // lamberthub reference. The user's prograde/retrograde choice is
-    // then applied on its own, decoupled from ECI-frame parity.
-    if i_h.z < 0.0 {
-        i_h = -i_h;
-    }
-
     // Geometry of the problem
     let lambda = 1.0 - c_norm / s;
     let mut m_lambda = lambda.sqrt();
@@ -81,16 +74,18 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
 
     // Izzo's `find_xy` handles multi-rev geometry, so the direction toggle
     // below is only meaningful for single-rev kinds; default NRevs to the
-    // prograde branch to preserve historical behavior. `direction_of_motion`
-    // returns `MultiRevNotSupported` for NRevs, hence the guard.
+    // prograde branch, i.e. the one whose angular momentum is along +z.
+    // `direction_of_motion` returns `MultiRevNotSupported` for NRevs, hence
+    // the guard.
     let dm = if matches!(kind, TransferKind::NRevs(_)) {
-        1.0
+        if i_h.z < 0.0 { -1.0 } else { 1.0 }
     } else {
         kind.direction_of_motion(&r_final, &r_init)?
     };
-    let retrograde = dm < 0.0;
+    // `i_h` is the normal of the short way: the long way turns around `-i_h`.
+    let long_way = dm < 0.0;
 
-    let (mut i_t1, mut i_t2) = if retrograde {
+    let (mut i_t1, mut i_t2) = if long_way {
         m_lambda = -m_lambda;
         (i_r1.cross(&i_h), i_r2.cross(&i_h))
     } else {
-- 
2.43.0


From 36bc8140c020d5803d557ddc7c7319059640af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:40 +0000
Subject: [PATCH 49/66] fix: Lambert solvers refuse degenerate transfers
 instead of returning NaN velocities

---
 nyx-core/src/tools/lambert/godding.rs | 10 +++++-----
 nyx-core/src/tools/lambert/izzo.rs    |  4 ++++
 nyx-core/src/tools/lambert/mod.rs     |  1 -
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/tools/lambert/godding.rs b/nyx-core/src/tools/lambert/godding.rs
index 73fb580..7227e34 100644
--- a/nyx-core/src/tools/lambert/godding.rs
+++ b/nyx-core/src/tools/lambert/godding.rs
@@ -17,7 +17,7 @@
 */
 
 use super::{
-    LAMBERT_EPSILON, LAMBERT_EPSILON_RAD, LAMBERT_EPSILON_TIME, LambertError, LambertInput,
+    LAMBERT_EPSILON, LAMBERT_EPSILON_TIME, LambertError, LambertInput,
     LambertSolution, MAX_ITERATIONS, TransferKind,
 };
 
@@ -54,13 +54,13 @@ pub fn gooding(input: LambertInput, kind: TransferKind) -> Result<LambertSolutio
 
     let dm = kind.direction_of_motion(&r_final, &r_init)?;
 
-    let nu_init = r_init[1].atan2(r_init[0]);
-    let nu_final = r_final[1].atan2(r_final[0]);
-
     let a = dm * (r_norm_product * (1.0 + cos_dnu)).sqrt();
 
-    if nu_final - nu_init < LAMBERT_EPSILON_RAD && a.abs() < LAMBERT_EPSILON {
+    if a.abs() < LAMBERT_EPSILON {
+        // Opposite radii do not define a transfer plane
         return Err(LambertError::TargetsTooClose);
+    } else if tof_s <= LAMBERT_EPSILON_TIME {
+        return Err(LambertError::NotReasonablePhi);
     }
 
     let mut phi_upper = 4.0 * PI.powi(2);
diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index edc6a56..91ec9f6 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -61,6 +61,10 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let i_r2 = r_final / rf_norm;
 
     let mut i_h = i_r1.cross(&i_r2);
+    if i_h.norm() < f64::EPSILON {
+        // Collinear radii do not define a transfer plane
+        return Err(LambertError::TargetsTooClose);
+    }
     i_h /= i_h.norm(); // Ensure normalization
 
     // Geometry of the problem
diff --git a/nyx-core/src/tools/lambert/mod.rs b/nyx-core/src/tools/lambert/mod.rs
index cfbafd6..625b855 100644
--- a/nyx-core/src/tools/lambert/mod.rs
+++ b/nyx-core/src/tools/lambert/mod.rs
@@ -32,7 +32,6 @@ pub use izzo::izzo;
 const TAU: f64 = 2.0 * PI;
 const LAMBERT_EPSILON: f64 = 1e-4; // General epsilon
 const LAMBERT_EPSILON_TIME: f64 = 1e-4; // Time epsilon
-const LAMBERT_EPSILON_RAD: f64 = (5e-5 / 180.0) * PI; // 0.00005 degrees
 /// Maximum number of iterations allowed in the Lambert problem solver.
 /// This is a safety measure to prevent infinite loops in case a solution cannot be found.
 const MAX_ITERATIONS: usize = 1000;
-- 
2.43.0


From 1cd12686294631ab239332fd34a32ef8183557db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:44 +0000
Subject: [PATCH 50/66] fix: the Kolmogorov-Smirnov statistic checks both sides
 of each step of the empirical distribution

---
 nyx-core/src/od/process/solution/stats.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 99fba71..cc286ba 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -223,7 +223,10 @@ where
         for (i, &value) in residual_ratios.iter().enumerate() {
             let empirical_cdf = (i + 1) as f64 / n;
             let model_cdf = normal_dist.cdf(value);
-            let diff = (empirical_cdf - model_cdf).abs();
+            // The empirical CDF is a step function, so check both sides of the step.
+            let diff = (empirical_cdf - model_cdf)
+                .abs()
+                .max((model_cdf - i as f64 / n).abs());
             if diff > d_stat {
                 d_stat = diff;
             }
-- 
2.43.0


From a17aca66c8769180475b6b0e46e35ef493e85ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:30 +0000
Subject: [PATCH 51/66] fix: the normality test counts every whitened residual
 component as a sample

---
 nyx-core/src/od/process/solution/stats.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index cc286ba..2bc6d9c 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -263,7 +263,8 @@ where
         // Compute the c_alpha
         let c_alpha = (-(alpha * 0.5).ln() * 0.5).sqrt();
 
-        let d_critical = c_alpha / (n as f64).sqrt();
+        // Each residual contributes one sample per measurement.
+        let d_critical = c_alpha / ((n * MsrSize::DIM) as f64).sqrt();
 
         Ok(ks_stat <= d_critical)
     }
-- 
2.43.0


From 6cf48fd49fc61352174026d1b66af491cab5b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:58 +0000
Subject: [PATCH 52/66] fix: propagate the STM of ground assets

---
 nyx-core/src/od/groundpnt/ground_dynamics.rs | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/ground_dynamics.rs b/nyx-core/src/od/groundpnt/ground_dynamics.rs
index 3251c7e..f030dda 100644
--- a/nyx-core/src/od/groundpnt/ground_dynamics.rs
+++ b/nyx-core/src/od/groundpnt/ground_dynamics.rs
@@ -16,6 +16,7 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
 
+use crate::State;
 use crate::dynamics::{Dynamics, DynamicsError};
 use crate::od::groundpnt::GroundAsset;
 use anise::prelude::Almanac;
@@ -31,27 +32,25 @@ impl Dynamics for GroundDynamics {
 
     fn eom(
         &self,
-        _delta_t: f64,
-        _state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
+        delta_t: f64,
+        state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
         state_ctx: &Self::StateType,
-        _almanac: &Almanac,
+        almanac: &Almanac,
     ) -> Result<OVector<f64, <Self::StateType as crate::State>::VecLength>, DynamicsError>
     where
         DefaultAllocator: Allocator<<Self::StateType as crate::State>::VecLength>,
     {
-        let d_x = Vector6::from_iterator([
-            state_ctx.latitude_rate_deg_s,
-            state_ctx.longitude_rate_deg_s,
-            state_ctx.height_rate_km_s,
-            0.0,
-            0.0,
-            0.0,
-        ]);
+        let osc = state_ctx.set_with_delta_seconds(delta_t, state_vec);
+        let (d_x, grad) = self.dual_eom(delta_t, &osc, almanac)?;
+
+        // Apply the gradient to the STM of this intermediate step: dΦ/dt = A(t)Φ
+        let stm_dt = match osc.stm {
+            Some(stm) => grad * stm,
+            None => Matrix6::zeros(),
+        };
 
         Ok(OVector::<f64, Const<42>>::from_iterator(
-            d_x.iter()
-                .chain(OVector::<f64, Const<36>>::zeros().iter())
-                .cloned(),
+            d_x.iter().chain(stm_dt.iter()).cloned(),
         ))
     }
 
-- 
2.43.0


From a1df28d332b0eddb4e9a1b54dc40c039cbc34660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:59 +0000
Subject: [PATCH 53/66] fix: range sensitivity of ground assets is computed in
 their frame, from the computed range

---
 nyx-core/src/od/groundpnt/sensitivity.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 5b5ef98..18985b7 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -94,6 +94,11 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 details: "computing sensitivity ground asset / interlink".into(),
             })?
             .orbit;
+        let transmitter = almanac
+            .transform_to(transmitter, rx.frame, None)
+            .context(ODAlmanacSnafu {
+                action: "computing transmitter location when computing sensitivity matrix",
+            })?;
 
         let jac = rx
             .geodetic_to_cartesian_jacobian()
@@ -143,7 +148,7 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From 2a56d88e76636b8d3ea3a38b887f7b2761014c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:39 +0000
Subject: [PATCH 54/66] fix: impulsive maneuvers of a sequence are applied in
 their local frame

---
 nyx-core/src/dynamics/guidance/mnvr.rs | 14 +++++++++++++-
 nyx-core/src/dynamics/sequence/mod.rs  | 14 ++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/mnvr.rs b/nyx-core/src/dynamics/guidance/mnvr.rs
index a9b13fd..127de02 100644
--- a/nyx-core/src/dynamics/guidance/mnvr.rs
+++ b/nyx-core/src/dynamics/guidance/mnvr.rs
@@ -25,7 +25,7 @@ use crate::dynamics::guidance::unit_vector_from_ra_dec;
 use crate::linalg::Vector3;
 use crate::polyfit::CommonPolynomial;
 use crate::time::{Epoch, Unit};
-use anise::prelude::Almanac;
+use anise::prelude::{Almanac, Orbit};
 use hifitime::{Duration, TimeUnits};
 use serde::{Deserialize, Serialize};
 use serde_dhall::{SimpleType, StaticType};
@@ -41,6 +41,18 @@ pub struct ImpulsiveManeuver {
     pub dv_km_s: Vector3<f64>,
 }
 
+impl ImpulsiveManeuver {
+    /// Applies this maneuver to the provided orbit, after rotating it from its local frame.
+    pub(crate) fn apply_to(&self, orbit: Orbit) -> Result<Orbit, GuidanceError> {
+        let dcm = orbit
+            .dcm_to_inertial(self.local_frame)
+            .context(GuidancePhysicsSnafu {
+                action: "rotating the impulsive maneuver from its local frame",
+            })?;
+        Ok(orbit.with_dv_km_s(dcm.rot_mat * self.dv_km_s))
+    }
+}
+
 impl fmt::Display for ImpulsiveManeuver {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "{:.3} m/s in {:?}", self.dv_km_s * 1e3, self.local_frame)
diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index dbc2a26..32b5f83 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -182,8 +182,11 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = state.with_orbit(
+                                            mnvr.apply_to(state.orbit).map_err(|e| {
+                                                NyxError::GuidanceConfigError { msg: e.to_string() }
+                                            })?,
+                                        );
                                     }
                                     if let Some(decr) = decrement_properties {
                                         if let Some(mass) = decr.mass {
@@ -207,8 +210,11 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = state.with_orbit(
+                                            mnvr.apply_to(state.orbit).map_err(|e| {
+                                                NyxError::GuidanceConfigError { msg: e.to_string() }
+                                            })?,
+                                        );
                                     }
                                     if let Some(incr) = increment_properties {
                                         if let Some(mass) = incr.mass {
-- 
2.43.0


From 20b0a158dfe73619053ac95060fd81a2382f7d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:39 +0000
Subject: [PATCH 55/66] fix: a phase followed by a disabled phase lasts until
 the next enabled one

---
 nyx-core/src/dynamics/sequence/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 32b5f83..cf3b919 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -125,7 +125,7 @@ impl SpacecraftSequence {
         almanac: Arc<Almanac>,
     ) -> Result<Vec<Trajectory>, NyxError> {
         let tick = Epoch::now().unwrap();
-        let mut phase_iterator = self.seq.range(state.epoch()..).peekable();
+        let mut phase_iterator = self.seq.range(state.epoch()..);
 
         let mut trajs = Vec::with_capacity(self.seq.len());
 
@@ -235,8 +235,18 @@ impl SpacecraftSequence {
                             }
                         }
 
+                        // Disabled phases are skipped, so this phase lasts until the next one
+                        // which is enabled (or at which this propagation must stop).
                         let end_time = phase_iterator
-                            .peek()
+                            .clone()
+                            .find(|(_, next_phase)| match next_phase {
+                                Phase::Activity {
+                                    name,
+                                    disabled: true,
+                                    ..
+                                } => until_phase.as_ref() == Some(name),
+                                _ => true,
+                            })
                             .expect("validate did not catch missing terminate")
                             .0;
 
-- 
2.43.0


From 493f1ffdd2b05e3f197df709e3f149c67499ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:28 +0000
Subject: [PATCH 56/66] fix: position devices measure the component of each
 measurement type

---
 nyx-core/src/od/position/trk_device.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index b59a865..8418e33 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -73,11 +73,18 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             }
         }
 
-        for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
-            msr.push(
-                msr_type,
-                rx.orbit.radius_km[ii] + noises.get(&msr_type).unwrap_or(&0.0),
-            );
+        for msr_type in self.measurement_types.iter().copied() {
+            let component = match msr_type {
+                MeasurementType::X => rx.orbit.radius_km.x,
+                MeasurementType::Y => rx.orbit.radius_km.y,
+                MeasurementType::Z => rx.orbit.radius_km.z,
+                _ => {
+                    return Err(ODError::MeasurementSimError {
+                        details: format!("{msr_type:?} is not supported by XyzDevice"),
+                    });
+                }
+            };
+            msr.push(msr_type, component + noises.get(&msr_type).unwrap_or(&0.0));
         }
 
         Ok(Some(msr))
-- 
2.43.0


From 827b2fe389acec2f6058ad614a0e896915126dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:09 +0000
Subject: [PATCH 57/66] fix: missing measurements of a parquet tracking arc are
 not loaded as zeros

---
 .../src/od/msr/trackingdata/io_parquet.rs     | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 781392a..2816193 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -183,28 +183,36 @@ impl TrackingDataArc {
                     rejected: false,
                 };
 
-                if range_avail {
+                if let Some(data) = range_data
+                    && data.is_valid(i)
+                {
                     measurement
                         .data
-                        .insert(MeasurementType::Range, range_data.unwrap().value(i));
+                        .insert(MeasurementType::Range, data.value(i));
                 }
 
-                if doppler_avail {
+                if let Some(data) = doppler_data
+                    && data.is_valid(i)
+                {
                     measurement
                         .data
-                        .insert(MeasurementType::Doppler, doppler_data.unwrap().value(i));
+                        .insert(MeasurementType::Doppler, data.value(i));
                 }
 
-                if az_avail {
+                if let Some(data) = azimuth_data
+                    && data.is_valid(i)
+                {
                     measurement
                         .data
-                        .insert(MeasurementType::Azimuth, azimuth_data.unwrap().value(i));
+                        .insert(MeasurementType::Azimuth, data.value(i));
                 }
 
-                if el_avail {
+                if let Some(data) = elevation_data
+                    && data.is_valid(i)
+                {
                     measurement
                         .data
-                        .insert(MeasurementType::Elevation, elevation_data.unwrap().value(i));
+                        .insert(MeasurementType::Elevation, data.value(i));
                 }
 
                 measurements.push(measurement);
-- 
2.43.0


From 555560acef44a8eabc848428b82483e589f06336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:09 +0000
Subject: [PATCH 58/66] fix: exporting a tracking arc to parquet with only a
 start epoch or a step keeps its last measurement

---
 .../src/od/msr/trackingdata/io_parquet.rs     | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 2816193..9201c25 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -274,19 +274,21 @@ impl TrackingDataArc {
 
         // Build the measurement iterator
 
-        let measurements =
-            if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
-                let start = cfg
-                    .start_epoch
-                    .unwrap_or_else(|| self.start_epoch().unwrap());
-                let end = cfg.end_epoch.unwrap_or_else(|| self.end_epoch().unwrap());
-
+        let measurements = match (cfg.start_epoch, cfg.end_epoch) {
+            (Some(start), Some(end)) => {
                 info!("Exporting measurements from {start} to {end}.");
-
                 self.clone().filter_by_epoch(start..end).measurements
-            } else {
-                self.measurements.clone()
-            };
+            }
+            (Some(start), None) => {
+                info!("Exporting measurements from {start}.");
+                self.clone().filter_by_epoch(start..).measurements
+            }
+            (None, Some(end)) => {
+                info!("Exporting measurements until {end}.");
+                self.clone().filter_by_epoch(..end).measurements
+            }
+            (None, None) => self.measurements.clone(),
+        };
 
         // Build all of the records
 
-- 
2.43.0


From a04e62a6bfb592642368e283e147f502215e1d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 59/66] fix: epochs of an exported TDM are in UTC, as its
 TIME_SYSTEM says

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9b6285e..588af53 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -516,13 +516,21 @@ impl TrackingDataArc {
                 writeln!(
                     writer,
                     "\tSTART_TIME = {}",
-                    Formatter::new(tracker_data.start_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::to_time_scale(
+                        tracker_data.start_epoch().unwrap(),
+                        iso8601_no_ts,
+                        TimeScale::UTC
+                    )
                 )
                 .map_err(err_hdlr)?;
                 writeln!(
                     writer,
                     "\tSTOP_TIME = {}",
-                    Formatter::new(tracker_data.end_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::to_time_scale(
+                        tracker_data.end_epoch().unwrap(),
+                        iso8601_no_ts,
+                        TimeScale::UTC
+                    )
                 )
                 .map_err(err_hdlr)?;
 
@@ -593,7 +601,7 @@ impl TrackingDataArc {
                             writer,
                             "\t{:<20} = {:<23}\t{:.12}",
                             mtype.ccsds_tdm_name(),
-                            Formatter::new(m.epoch, iso8601_no_ts),
+                            Formatter::to_time_scale(m.epoch, iso8601_no_ts, TimeScale::UTC),
                             value * multiplier
                         )
                         .map_err(err_hdlr)?;
-- 
2.43.0


From 55b8eb58f8d695fe3678149d76e7ec453f9d1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:40 +0000
Subject: [PATCH 60/66] fix: exporting part of an OD solution also selects its
 gains and smoother ratios

---
 nyx-core/src/od/process/solution/export.rs | 24 ++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 08bd7d6..c11ed8e 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -346,7 +346,7 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
+        let (estimates, residuals, gains, filter_smoother_ratios) =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                 // Must interpolate the data!
                 let start = cfg
@@ -359,17 +359,29 @@ where
                 let mut residuals: Vec<Option<Residual<MsrSize>>> =
                     Vec::with_capacity(self.residuals.len());
                 let mut estimates = Vec::with_capacity(self.estimates.len());
+                let mut gains = Vec::with_capacity(self.gains.len());
+                let mut filter_smoother_ratios =
+                    Vec::with_capacity(self.filter_smoother_ratios.len());
 
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
+                for (idx, (estimate, residual)) in
+                    self.estimates.iter().zip(self.residuals.iter()).enumerate()
+                {
                     if estimate.epoch() >= start && estimate.epoch() <= end {
                         estimates.push(*estimate);
                         residuals.push(residual.clone());
+                        gains.push(self.gains[idx].clone());
+                        filter_smoother_ratios.push(self.filter_smoother_ratios[idx]);
                     }
                 }
 
-                (estimates, residuals)
+                (estimates, residuals, gains, filter_smoother_ratios)
             } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
+                (
+                    self.estimates.to_vec(),
+                    self.residuals.to_vec(),
+                    self.gains.to_vec(),
+                    self.filter_smoother_ratios.to_vec(),
+                )
             };
 
         // Build all of the records
@@ -586,7 +598,7 @@ where
         for i in 0..est_size {
             for j in 0..MsrSize::DIM {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -600,7 +612,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..est_size {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From d3d74a995f0a243ee8b5d524baf8640814aee2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:41 +0000
Subject: [PATCH 61/66] fix: the exported RIC uncertainties are those of the
 covariance in the RIC frame

---
 nyx-core/src/od/process/solution/export.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index c11ed8e..a13b0fe 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -441,11 +441,12 @@ where
         let mut ric_covariances = Vec::new();
 
         for s in &estimates {
-            let dcm_ric2inertial = s
+            let dcm_inertial2ric = s
                 .state()
                 .orbit()
                 .dcm_from_ric_to_inertial()
                 .unwrap()
+                .transpose()
                 .state_dcm();
 
             // Build the matrix view of the orbit part of the covariance.
@@ -453,7 +454,7 @@ where
             let orbit_cov = cov.fixed_view::<6, 6>(0, 0);
 
             // Rotate back into the RIC frame
-            let ric_covar = dcm_ric2inertial * orbit_cov * dcm_ric2inertial.transpose();
+            let ric_covar = dcm_inertial2ric * orbit_cov * dcm_inertial2ric.transpose();
             ric_covariances.push(ric_covar);
         }
 
-- 
2.43.0


From 1b6c1c04c4563eaf2a9118e4c29df6571544b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:41 +0000
Subject: [PATCH 62/66] fix: whitened residuals are reloaded from an exported
 OD solution

---
 nyx-core/src/od/process/solution/import.rs | 24 +++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index adf9c9f..7c2e14c 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -284,7 +284,7 @@ where
             let mut residual_data_cols: HashMap<MeasurementType, BTreeMap<String, Float64Array>> = HashMap::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
-                 let prefixes = ["Prefit residual", "Whitened residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
+                 let prefixes = ["Prefit residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
                  for prefix in prefixes {
                       // Again, guessing column name format
                       let base_name = format!("{}: {:?} ({})", prefix, msr_type, msr_type.unit());
@@ -295,6 +295,14 @@ where
                  }
                  residual_data_cols.insert(*msr_type, type_cols);
             }
+            // The whitened residuals are stored by index, not by measurement type.
+            let whitened_cols: Vec<Option<Float64Array>> = (0..MsrSize::DIM)
+                .map(|j| {
+                    get_col(&format!("Whitened residual #{j}"))
+                        .ok()
+                        .and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned())
+                })
+                .collect();
 
             // Gain columns (store for iteration)
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
@@ -429,21 +437,27 @@ where
                      let mut current_msr_types = IndexSet::with_capacity(MsrSize::DIM);
 
                      let mut msr_idx = 0;
-                     for (msr_type, type_cols) in &residual_data_cols {
+                     for (j, whitened_col) in whitened_cols.iter().enumerate() {
+                           whitened_vec[j] = match whitened_col {
+                                Some(col) if col.is_valid(i) => col.value(i),
+                                _ => f64::NAN,
+                           };
+                     }
+                     // Same order as when exported
+                     for msr_type in &measurement_types_found {
+                           let type_cols = &residual_data_cols[msr_type];
                            if msr_idx >= MsrSize::DIM { break; } // Should not happen if MsrSize matches data
 
                            // Check if data exists for this type *at this row*
                            let prefit_val = type_cols.get("Prefit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
-                           let whitened_resid_val = type_cols.get("Whitened residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let postfit_val = type_cols.get("Postfit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let noise_val = type_cols.get("Measurement noise").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let real_val = type_cols.get("Real observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let comp_val = type_cols.get("Computed observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
 
                            // Only include if *at least one* value is present for this type in this row
-                           if prefit_val.is_some() || whitened_resid_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
+                           if prefit_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
                                 prefit_vec[msr_idx] = prefit_val.unwrap_or(f64::NAN);
-                                whitened_vec[msr_idx] = whitened_resid_val.unwrap_or(f64::NAN);
                                 postfit_vec[msr_idx] = postfit_val.unwrap_or(f64::NAN);
                                 noise_vec[msr_idx] = noise_val.unwrap_or(f64::NAN);
                                 real_obs_vec[msr_idx] = real_val.unwrap_or(f64::NAN);
-- 
2.43.0


From 62eb0c8b59fadec2dfdf2e02d4954cf1c4e7dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:00 +0000
Subject: [PATCH 63/66] fix: angles of a two-way TDM are not halved

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 588af53..063292d 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -174,8 +174,11 @@ impl TrackingDataArc {
                 {
                     has_freq_data = true;
                     1.0
-                } else {
+                } else if mtype.may_be_two_way() {
                     msr_divider
+                } else {
+                    // Angles are not accumulated over the path.
+                    1.0
                 };
 
                 let scaled_value = value / effective_divider;
-- 
2.43.0


From fe47215ab63243c62a4ddc49d0da9cad83831016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:24 +0000
Subject: [PATCH 64/66] fix: thrust directions of a trajectory are reloaded
 from parquet as they were

---
 nyx-core/src/md/trajectory/sc_traj.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index a4e9717..65687c8 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -23,6 +23,7 @@ use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::{ThrustDirectionReplay, Thruster};
 use crate::errors::{FromAlmanacSnafu, NyxError};
 use crate::io::{InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
+use crate::linalg::Vector3;
 use crate::md::prelude::{Interpolatable, StateParameter};
 use crate::time::{Duration, Epoch, TimeUnits};
 use anise::analysis::prelude::OrbitalElement;
@@ -407,11 +408,28 @@ impl Traj<Spacecraft> {
                     });
                 }
 
+                // The components of the thrust direction must be set together because it is a unit vector.
+                let mut thrust_direction: Option<Vector3<f64>> = None;
                 for (param, data) in &shared_data {
                     if data.is_valid(i) {
-                        state.set_value(*param, data.value(i)).unwrap();
+                        let value = data.value(i);
+                        match param {
+                            StateParameter::ThrustX() => {
+                                thrust_direction.get_or_insert_default().x = value
+                            }
+                            StateParameter::ThrustY() => {
+                                thrust_direction.get_or_insert_default().y = value
+                            }
+                            StateParameter::ThrustZ() => {
+                                thrust_direction.get_or_insert_default().z = value
+                            }
+                            _ => state.set_value(*param, value).unwrap(),
+                        }
                     }
                 }
+                if thrust_direction.is_some() {
+                    state.mut_thrust_direction(thrust_direction);
+                }
 
                 traj.states.push(state);
             }
-- 
2.43.0


From 317f31eb088fb69ff88a897894676be7cf527ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:13 +0000
Subject: [PATCH 65/66] fix: setting the bias of an unconfigured measurement
 type returns its error

---
 nyx-core/src/od/ground_station/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index faea529..93baf2a 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -182,8 +182,7 @@ impl GroundStation {
             .get_mut(&msr_type)
             .ok_or(ODError::NoiseNotConfigured {
                 kind: format!("{msr_type:?}"),
-            })
-            .unwrap();
+            })?;
 
         if this_noise.bias.is_none() {
             this_noise.bias = Some(GaussMarkov::ZERO);
-- 
2.43.0


From e0b3ee7c65419b725c1586255b1ada822fd208a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:04 +0000
Subject: [PATCH 66/66] fix: a leg that fails leaves the propagator in the
 frame of the initial state

---
 nyx-core/src/propagators/instance.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index af632f4..ee9251f 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -184,11 +184,11 @@ where
                 // Restore the step size for subsequent calls, including if that step failed.
                 self.set_step(prev_step_size, prev_step_kind);
 
-                outcome?;
-
-                // Rotate back if needed
+                // Rotate back if needed, including if that step failed
                 self.state = self.state_in_frame(original_frame)?;
 
+                outcome?;
+
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
                     && let Err(e) = chan.send(self.state)
@@ -227,13 +227,19 @@ where
                     }
                 }
 
-                self.single_step()?;
+                let outcome = self.single_step();
 
                 // The stop condition and the channel work on the frame of the initial state.
                 let state = self.state_in_frame(original_frame)?;
 
+                if let Err(e) = outcome {
+                    // Further calls must start from the frame of the initial state.
+                    self.state = state;
+                    return Err(e);
+                }
+
                 if let Some(ref mut condition) = stop_condition
-                    && condition(state)?
+                    && condition(state).inspect_err(|_| self.state = state)?
                 {
                     // Stopping condition triggered. We don't send
                     // the new state on the channel for the caller to know that the exact
-- 
2.43.0

