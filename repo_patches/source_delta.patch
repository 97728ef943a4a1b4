From 4e904cdc9831945d86fcb6f53cc0ea88dddab088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:07 +0000
Subject: [PATCH 1/8] fix: couple Runge-Kutta stages through the lower triangle
 of the Butcher tableau

---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5055d85..33f119e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -163,7 +163,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
             for p in 0..q {
                 // PERF: This was benchmarked against using a raw index loop; performance diffs
                 // were within the error margins
-                self.utilde.cent.cons -= &(dt_out * self.bt.a[[p, q]] * &self.k_bundle.index_axis(Axis(0), p));
+                self.utilde.cent.cons -= &(dt_out * self.bt.a[[q, p]] * &self.k_bundle.index_axis(Axis(0), p));
             }
             rhs.update(&mut self.utilde, mesh)
                 .context("Calling rhs.update while calculating k_bundle in RungeKuttaFehlberg::calc_rkf_solution")?;
-- 
2.43.0


From f53e57672ab737688033a7207b995d0d93329ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:07 +0000
Subject: [PATCH 2/8] fix: guard the van Leer slope denominator with the
 smallest positive float

---
 src/rhs/numflux/kt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index a39499b..1e180f3 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -256,7 +256,7 @@ impl<const E: usize, const S: usize> Kt<E, S> {
             LimiterMode::VanLeer => |a: f64, b: f64, _: f64, _: f64| {
                 let abs_a = a.abs();
                 let abs_b = b.abs();
-                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN)
+                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN_POSITIVE)
             },
         };
         for j in 0..E {
-- 
2.43.0


From 602b7fc5be6f766c83982ffa437a8d45098383db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 3/8] fix: respect left-going waves in the CFL time step

---
 src/state.rs         | 6 +++++-
 src/state/physics.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 3d3809e..2d089b2 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -10,6 +10,7 @@ use crate::{
     boundaryconditions::BoundaryCondition, directions::Direction, errorhandling::Validation, Mesh, PhysicsConfig,
 };
 use color_eyre::Result;
+use ndarray::Zip;
 use std::marker::PhantomData;
 
 pub mod physics;
@@ -640,7 +641,10 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
     /// * `c_cfl`: CFL safety parameter
     /// * `mesh`: The [Mesh] of the simulation
     pub fn calc_dt_cfl(&self, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
-        P::calc_dt_cfl(&self.cent.eigen_max(), c_cfl, mesh)
+        let eigen_abs_max = Zip::from(self.cent.eigen_min())
+            .and(self.cent.eigen_max())
+            .map_collect(|ev_min, ev_max| ev_min.abs().max(ev_max.abs()));
+        P::calc_dt_cfl(&eigen_abs_max.view(), c_cfl, mesh)
     }
 }
 
diff --git a/src/state/physics.rs b/src/state/physics.rs
index ee924cc..62e1aa8 100644
--- a/src/state/physics.rs
+++ b/src/state/physics.rs
@@ -226,7 +226,7 @@ pub trait Physics<const E: usize, const S: usize> {
     ///
     /// # Arguments
     ///
-    /// * `eigen_max`: The maximal eigen values per cell
+    /// * `eigen_max`: The maximal absolute eigen values per cell
     /// * `mesh`: The [Mesh] for this simulation
     fn calc_dt_cfl(eigen_max: &ArrayView1<f64>, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
         let dt = c_cfl
-- 
2.43.0


From 19ed5594e9d36bf53a53a17f0ea03abebc3bcbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 4/8] fix: check for positive densities and pressures when
 validating the state

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 2d089b2..782a27e 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -651,7 +651,7 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
 impl<P: Physics<E, S>, const E: usize, const S: usize> Validation for State<P, E, S> {
     fn validate(&self) -> Result<()> {
         self.cent.validate()?;
-        Ok(())
+        P::validate(&self.cent)
     }
 }
 
-- 
2.43.0


From 934f85a743c7bc573d04fc85cc3aa01926c34766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 5/8] fix: truncate existing output files before writing to
 them

---
 src/writer/output.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index f32c762..6fc9735 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -184,6 +184,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(!self.first_output)
+                            .truncate(self.first_output)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -197,7 +198,7 @@ impl Output {
                         let path = Path::new(&full_path_string);
                         let mut file = File::options()
                             .write(true)
-                            .append(false)
+                            .truncate(true)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -270,7 +271,7 @@ impl Output {
                     let path = Path::new(&full_path_string);
                     let mut file = File::options()
                         .write(true)
-                        .append(false)
+                        .truncate(true)
                         .create(true)
                         .open(path)
                         .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
-- 
2.43.0


From 823ecd0d212f33d3babe3bced6138dc200cb488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 6/8] fix: convert lengths and masses to CGS units in SI mode

---
 src/units.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1c794d2..a3126f1 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -74,10 +74,7 @@ impl Units {
     /// Takes the argument representing a length, and converts it to CGS units
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_length_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / LENGTH_CGS,
-        }
+        si_input / LENGTH_CGS
     }
 
     /// Takes the argument representing a time, and converts it to CGS units
@@ -92,10 +89,7 @@ impl Units {
     /// Takes the argument representing a mass, and converts it to CGS units
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_mass_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / MASS_CGS,
-        }
+        si_input / MASS_CGS
     }
 }
 
-- 
2.43.0


From c1fe020d8a80c69315fdd96565cf78bf9b10dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 7/8] fix: let the simulation and its last output end exactly
 at t_end

---
 src/components.rs    | 4 ++++
 src/time/timestep.rs | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/components.rs b/src/components.rs
index c0dd7f7..f9ff0da 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -73,6 +73,10 @@ where
         loop {
             if solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min {
                 solver.timestep.t_next_output += solver.timestep.dt_output;
+                // the last output is due at t_end, regardless of the round-off picked up on the way
+                if (solver.timestep.t_next_output - solver.timestep.t_end).abs() < 0.5 * solver.timestep.dt_output {
+                    solver.timestep.t_next_output = solver.timestep.t_end;
+                }
                 writer
                     .update_data(&u.cent, &solver.timestep, mesh)
                     .context("Calling writer.update_data_matrices in run_corries")?;
diff --git a/src/time/timestep.rs b/src/time/timestep.rs
index ac7136b..104ac1c 100644
--- a/src/time/timestep.rs
+++ b/src/time/timestep.rs
@@ -149,7 +149,7 @@ impl TimeStep {
     /// Caps the time step width to an upper limit, for example so that the time coordinate does
     /// not exceed the point where the next output should be produced.
     pub fn cap_dt(&mut self) {
-        self.dt = self.dt.min(self.dt_max);
+        self.dt = self.dt.min(self.dt_max).min(self.t_end - self.t);
         if (self.dt + self.t) / self.t_next_output > 1.0 {
             self.dt = self.t_next_output - self.t;
         }
-- 
2.43.0


From 88dd595e2b096ff9db80324f3686b8609cd97302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:52 +0000
Subject: [PATCH 8/8] fix: define the inverse cell volume without an absolute
 offset

---
 src/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.rs b/src/mesh.rs
index 9dc91c0..7737406 100644
--- a/src/mesh.rs
+++ b/src/mesh.rs
@@ -308,7 +308,7 @@ impl<const S: usize> Mesh<S> {
         let area_west = &d_area_xi_deta_dphi_west * deta * dphi;
         let area_east = &d_area_xi_deta_dphi_east * deta * dphi;
         let volume = &sqrt_g * dxi * deta * dphi;
-        let deta_dphi_d_volume = deta * dphi / (f64::EPSILON + &volume);
+        let deta_dphi_d_volume = deta * dphi / &volume;
 
         let cell_width = &xi_east - &xi_west;
         let cell_width_inv = cell_width.mapv(f64::recip);
-- 
2.43.0

