From 3db3298247a95f8e3e54b9150f1c49940ae735e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 01/13] fix: Skew3::jacobian_self returns -hat(y) as documented

---
 cv-core/src/pose.rs | 7 +++++--
 cv-core/src/so3.rs  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index 1a4f104..cb09ac8 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -158,8 +158,11 @@ fn pose_jacobian_self<P: Pose>(
     // dP/dT (Jacobian of output point in respect to translation component)
     let dp_dt = Matrix4::<f64>::identity() * output.w;
 
-    // dP/ds (Jacobian of output point in respect to skew component)
-    let dp_ds = translation * Skew3::jacobian_self(rotated.xyz()).to_homogeneous();
+    // dP/ds (Jacobian of output point in respect to skew component), transposed since it is placed by rows below
+    let dp_ds = translation
+        * Skew3::jacobian_self(rotated.xyz())
+            .transpose()
+            .to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
     Matrix6x4::<f64>::from_rows(&[
diff --git a/cv-core/src/so3.rs b/cv-core/src/so3.rs
index 148f0b7..9ef10b6 100644
--- a/cv-core/src/so3.rs
+++ b/cv-core/src/so3.rs
@@ -241,7 +241,7 @@ impl Skew3 {
     /// Note that when working with homogeneous projective coordinates, only the first three components
     /// (the bearing) are relevant, hence the resulting matrix is a [`Matrix3`].
     pub fn jacobian_self(y: Vector3<f64>) -> Matrix3<f64> {
-        y.cross_matrix()
+        -y.cross_matrix()
     }
 }
 
-- 
2.43.0


From 51bfd209779adee024016b705cfc15cdd3c6fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 02/13] fix: pose Jacobian has no translation terms in its
 homogeneous row

---
 cv-core/src/pose.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/cv-core/src/pose.rs b/cv-core/src/pose.rs
index cb09ac8..70f4878 100644
--- a/cv-core/src/pose.rs
+++ b/cv-core/src/pose.rs
@@ -78,7 +78,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
     ) -> (Self::OutputPoint, Matrix4<f64>, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
         let jacobian_input = pose_jacobian_input(self);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (
             Projective::from_homogeneous(output),
             jacobian_input,
@@ -112,7 +112,7 @@ pub trait Pose: From<IsometryMatrix3<f64>> + Clone + Copy {
         input: Self::InputPoint,
     ) -> (Self::OutputPoint, Matrix4x6<f64>) {
         let (rotated, output) = pose_rotated_output(self, input);
-        let jacobian_self = pose_jacobian_self(self, rotated, output);
+        let jacobian_self = pose_jacobian_self(rotated, output);
         (Projective::from_homogeneous(output), jacobian_self)
     }
 
@@ -145,24 +145,16 @@ fn pose_jacobian_input<P: Pose>(pose: P) -> Matrix4<f64> {
 }
 
 /// Retrieves the Jacobian relating the output to the pose in se(3)
-fn pose_jacobian_self<P: Pose>(
-    pose: P,
-    rotated: Vector4<f64>,
-    output: Vector4<f64>,
-) -> Matrix4x6<f64> {
-    // The translation homogeneous matrix
-    //
-    // This is also the jacobian of the output in respect to the rotation output.
-    let translation = pose.isometry().translation.to_homogeneous();
-
+fn pose_jacobian_self(rotated: Vector4<f64>, output: Vector4<f64>) -> Matrix4x6<f64> {
     // dP/dT (Jacobian of output point in respect to translation component)
     let dp_dt = Matrix4::<f64>::identity() * output.w;
 
     // dP/ds (Jacobian of output point in respect to skew component), transposed since it is placed by rows below
-    let dp_ds = translation
-        * Skew3::jacobian_self(rotated.xyz())
-            .transpose()
-            .to_homogeneous();
+    //
+    // The translation is added after the rotation, so it does not contribute to this derivative.
+    let dp_ds = Skew3::jacobian_self(rotated.xyz())
+        .transpose()
+        .to_homogeneous();
 
     // dP/dT,s (Jacobian of 3d camera point in respect to translation and skew)
     Matrix6x4::<f64>::from_rows(&[
-- 
2.43.0


From 58c79691ce2ae6af7e189fd9ce0ceac231e44eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 03/13] fix: five-point solver reads x, y, z, 1 from their
 eigenvector rows

---
 nister-stewenius/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 17c99cd..8053c3d 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -227,7 +227,7 @@ fn essentials_from_action_ebasis(
             if e.im == 0.0 {
                 let e = e.re;
                 // Solve for the eigen vector.
-                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(5).into_owned())
+                compute_eigenvector(&at, e).map(|v| v.fixed_rows::<4>(6).into_owned())
             } else {
                 None
             }
-- 
2.43.0


From f28bf08843fd75baa0281d5756af945cecfbe0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 04/13] fix: five-point solver returns no models when its
 linear systems cannot be solved

---
 nister-stewenius/src/lib.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 8053c3d..939734f 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -237,28 +237,20 @@ fn essentials_from_action_ebasis(
 }
 
 /// Takes in two sets of normalized key points.
-/// Returns all essential matrix solutions.
+/// Returns all essential matrix solutions or `None` if the system could not be solved.
 fn five_points_relative_pose(
     a: &[UnitVector3<f64>; 5],
     b: &[UnitVector3<f64>; 5],
-) -> impl Iterator<Item = EssentialMatrix> {
+) -> Option<impl Iterator<Item = EssentialMatrix>> {
     // Step 1: Nullspace Extraction.
-    let e_basis = if let Some(m) = five_points_nullspace_basis(a, b) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let e_basis = five_points_nullspace_basis(a, b)?;
 
     // Step 2: Constraint Expansion.
     let e_constraints = five_points_polynomial_constraints(&e_basis);
 
     // Step 3: Gauss-Jordan Elimination (done thanks to a LU decomposition).
     let c_lu = e_constraints.fixed_slice::<10, 10>(0, 0).full_piv_lu();
-    let m = if let Some(m) = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned()) {
-        m
-    } else {
-        return essentials_from_action_ebasis(Square10::zeros(), NullspaceMat::zeros());
-    };
+    let m = c_lu.solve(&e_constraints.fixed_slice::<10, 10>(0, 10).into_owned())?;
 
     // For next steps we follow the matlab code given in Stewenius et al [1].
 
@@ -276,7 +268,7 @@ fn five_points_relative_pose(
     at[(8, 3)] = -1.0;
     at[(9, 6)] = -1.0;
 
-    essentials_from_action_ebasis(at, e_basis)
+    Some(essentials_from_action_ebasis(at, e_basis))
 }
 
 /// Implements the 5-point algorithm from the paper "Recent developments on direct relative orientation".
@@ -321,6 +313,8 @@ impl Estimator<FeatureMatch> for NisterStewenius {
         }
         assert!(count == 5);
         five_points_relative_pose(&a, &b)
+            .into_iter()
+            .flatten()
             .filter_map(|essential| {
                 essential.possible_unscaled_poses(self.epsilon, self.iterations)
             })
-- 
2.43.0


From 06b34fb26f65a62bf3d3c3a43e8fe1889fa91081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 05/13] fix: five-point solver bounds the eigenvalue iterations

---
 nister-stewenius/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nister-stewenius/src/lib.rs b/nister-stewenius/src/lib.rs
index 939734f..0f2ff4e 100644
--- a/nister-stewenius/src/lib.rs
+++ b/nister-stewenius/src/lib.rs
@@ -5,6 +5,7 @@ use cv_core::{
     nalgebra::{
         self,
         dimension::{U10, U20, U4, U5, U9},
+        linalg::Schur,
         DimName, Matrix3, OMatrix, OVector, UnitVector3, Vector3, Vector4,
     },
     CameraToCamera, FeatureMatch,
@@ -219,9 +220,9 @@ fn compute_eigenvector(m: &Square10, lambda: f64) -> Option<OVector<f64, U10>> {
 fn essentials_from_action_ebasis(
     at: Square10,
     eb: NullspaceMat,
-) -> impl Iterator<Item = EssentialMatrix> {
-    let eigenvalues = at.complex_eigenvalues();
-    (0..eigenvalues.len())
+) -> Option<impl Iterator<Item = EssentialMatrix>> {
+    let eigenvalues = Schur::try_new(at, f64::EPSILON, EIGEN_ITERATIONS)?.complex_eigenvalues();
+    let essentials = (0..eigenvalues.len())
         .filter_map(move |i| {
             let e = eigenvalues[i];
             if e.im == 0.0 {
@@ -233,7 +234,8 @@ fn essentials_from_action_ebasis(
             }
         })
         .map(move |vector| Matrix3::from_iterator((eb * vector).iter().copied()))
-        .map(EssentialMatrix)
+        .map(EssentialMatrix);
+    Some(essentials)
 }
 
 /// Takes in two sets of normalized key points.
@@ -268,7 +270,7 @@ fn five_points_relative_pose(
     at[(8, 3)] = -1.0;
     at[(9, 6)] = -1.0;
 
-    Some(essentials_from_action_ebasis(at, e_basis))
+    essentials_from_action_ebasis(at, e_basis)
 }
 
 /// Implements the 5-point algorithm from the paper "Recent developments on direct relative orientation".
-- 
2.43.0


From b41437b377e95e57c55a7d8658c4b54bd79b5ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 06/13] fix: triangulators check the point is in front of each
 camera from that camera

---
 cv-geom/src/triangulation.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index c3cf37e..f380d68 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -121,9 +121,9 @@ impl TriangulatorObservations for LinearEigenTriangulator {
             .filter(|point| {
                 // Ensure the cheirality constraint.
                 pairs.all(|(pose, bearing)| {
-                    let pose = pose.inverse().isometry();
-                    let bearing = pose * bearing;
-                    bearing.dot(&point.bearing()).is_sign_positive()
+                    bearing
+                        .dot(&pose.transform(*point).bearing())
+                        .is_sign_positive()
                 })
             })
     }
@@ -354,9 +354,10 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             .filter(|point| {
                 // Ensure the cheirality constraint.
                 point.bearing().dot(&a).is_sign_positive()
-                    && point
+                    && relative_pose
+                        .transform(*point)
                         .bearing()
-                        .dot(&(relative_pose.isometry().inverse() * b))
+                        .dot(&b)
                         .is_sign_positive()
             })
     }
@@ -433,9 +434,9 @@ impl TriangulatorObservations for MeanMeanTriangulator {
         .filter(|point| {
             // Ensure the cheirality constraint.
             pairs.all(|(pose, bearing)| {
-                let pose = pose.inverse().isometry();
-                let bearing = pose * bearing;
-                bearing.dot(&point.bearing()).is_sign_positive()
+                bearing
+                    .dot(&pose.transform(*point).bearing())
+                    .is_sign_positive()
             })
         })
     }
@@ -480,6 +481,7 @@ impl TriangulatorRelative for AngularL1Triangulator {
         // so this line flips and shadows everything to ensure that the triangulation happens in the first camera.
         // Technically, everything could have been reversed below, but it would be tedious and it would
         // not reflect the paper.
+        let (original_a, original_b) = (a, b);
         let relative_pose = original_relative_pose.inverse();
         let (a, b) = (b, a);
 
@@ -524,7 +526,12 @@ impl TriangulatorRelative for AngularL1Triangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            point.bearing().dot(&original_a).is_sign_positive()
+                && original_relative_pose
+                    .transform(*point)
+                    .bearing()
+                    .dot(&original_b)
+                    .is_sign_positive()
         })
     }
 }
@@ -566,6 +573,7 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         // so this line flips and shadows everything to ensure that the triangulation happens in the first camera.
         // Technically, everything could have been reversed below, but it would be tedious and it would
         // not reflect the paper.
+        let (original_a, original_b) = (a, b);
         let relative_pose = original_relative_pose.inverse();
         let (a, b) = (b, a);
 
@@ -600,7 +608,12 @@ impl TriangulatorRelative for AngularLInfinityTriangulator {
         })
         .filter(|point| {
             // Ensure the cheirality constraint.
-            point.bearing().dot(&a).is_sign_positive() && point.bearing().dot(&b).is_sign_positive()
+            point.bearing().dot(&original_a).is_sign_positive()
+                && original_relative_pose
+                    .transform(*point)
+                    .bearing()
+                    .dot(&original_b)
+                    .is_sign_positive()
         })
     }
 }
-- 
2.43.0


From a12dbfde64c1b753543c06495d05616bc1964364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 07/13] fix: sine L1 triangulator refuses refined points that
 are not finite or behind a camera

---
 cv-geom/src/triangulation.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index f380d68..275f7b9 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -228,7 +228,7 @@ impl Default for SineL1Triangulator {
 impl TriangulatorObservations for SineL1Triangulator {
     fn triangulate_observations(
         &self,
-        pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
+        mut pairs: impl Iterator<Item = (WorldToCamera, UnitVector3<f64>)> + Clone,
     ) -> Option<WorldPoint> {
         let epsilon_squared = self.epsilon * self.epsilon;
         // Create the initial guess using a fast method.
@@ -271,7 +271,19 @@ impl TriangulatorObservations for SineL1Triangulator {
             }
         }
 
-        Some(Projective::from_point(point))
+        Some(WorldPoint::from_point(point))
+            .filter(|point| {
+                // Ensure the point contains no NaN or infinity.
+                point.homogeneous().iter().all(|n| n.is_finite())
+            })
+            .filter(|point| {
+                // Ensure the cheirality constraint.
+                pairs.all(|(pose, bearing)| {
+                    bearing
+                        .dot(&pose.transform(*point).bearing())
+                        .is_sign_positive()
+                })
+            })
     }
 }
 
-- 
2.43.0


From a81bec2abbc1dae840b47757059bfe991df169bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 08/13] fix: K1 uncalibrate is defined without distortion and
 at the principal point

---
 cv-pinhole/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index cf25f95..effa360 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -226,10 +226,9 @@ impl CameraModel for CameraIntrinsicsK1Distortion {
         let undistorted = projection.xy() / projection.z;
         // You can set up a quadratic to solve for r^2 with the undistorted keypoint. This is the result.
         let u2 = undistorted.norm_squared();
-        // This is actually r^2 * k1.
-        let r2_mul_k1 = -(2.0 * self.k1 * u2 + Float::sqrt(1.0 - 4.0 * self.k1 * u2) - 1.0)
-            / (2.0 * self.k1 * u2);
-        let distorted = undistorted * (1.0 + r2_mul_k1);
+        // This is actually 1 + r^2 * k1, in the form that stays defined when k1 or r is 0.
+        let distortion = 2.0 / (1.0 + Float::sqrt(1.0 - 4.0 * self.k1 * u2));
+        let distorted = undistorted * distortion;
         let y = distorted.y * self.simple_intrinsics.focals.y;
         let x = distorted.x * self.simple_intrinsics.focals.x
             + self.simple_intrinsics.skew * distorted.y;
-- 
2.43.0


From 23f860f1ebc2d60fc2141f5bbed1b1ea7fd8f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 09/13] fix: centered intrinsics put the principal point at the
 middle of the pixels

---
 cv-pinhole/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv-pinhole/src/lib.rs b/cv-pinhole/src/lib.rs
index effa360..c836e0d 100644
--- a/cv-pinhole/src/lib.rs
+++ b/cv-pinhole/src/lib.rs
@@ -278,7 +278,7 @@ impl CameraSpecification {
     pub fn intrinsics_centered(&self, focal: f64) -> CameraIntrinsics {
         CameraIntrinsics::identity()
             .focal(focal)
-            .principal_point(self.pixel_dimensions.map(|p| p / 2.0 - 0.5).into())
+            .principal_point(self.pixels.map(|p| p as f64 / 2.0 - 0.5).into())
     }
 }
 
-- 
2.43.0


From 76b6b939f96f5171addb74a11abcc5d6d39e23e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 10/13] fix: single-view L1 optimizer leaves the pose alone
 when no landmark is usable

---
 cv-optimize/src/single_view_optimizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cv-optimize/src/single_view_optimizer.rs b/cv-optimize/src/single_view_optimizer.rs
index f8e896d..2c62074 100644
--- a/cv-optimize/src/single_view_optimizer.rs
+++ b/cv-optimize/src/single_view_optimizer.rs
@@ -39,6 +39,11 @@ pub fn single_view_simple_optimize_l1(
             }
         }
 
+        // If no landmark contributed, there is nothing to optimize and no harmonic mean.
+        if ts == 0.0 || rs == 0.0 {
+            return pose;
+        }
+
         let delta = l1sum
             .scale(optimization_rate)
             .scale_translation(ts.recip())
-- 
2.43.0


From 5dc8b5c5dc8a597fac728212824cdc968206445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 11/13] fix: three-view gradients triangulate from the camera
 positions

The same-space triangulation takes the position of the second camera relative
to the first.  It was given its negative, so every point in front of the
cameras was rejected and all translation gradients were zero.
---
 cv-geom/src/epipolar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cv-geom/src/epipolar.rs b/cv-geom/src/epipolar.rs
index f3c9dc1..9027d7f 100644
--- a/cv-geom/src/epipolar.rs
+++ b/cv-geom/src/epipolar.rs
@@ -115,7 +115,7 @@ pub fn three_view_gradients(
 
     // For the translation gradients, compute the point for each set of 2 and try to translate
     // the third camera towards the intersection point of the other two cameras.
-    let trans_f = two_view_same_space_triangulate_sine_l1(-stoc, c, s)
+    let trans_f = two_view_same_space_triangulate_sine_l1(stoc, c, s)
         .map(|p| {
             // Move the point into the translational reference frame of F.
             let p = p - ftoc;
@@ -125,7 +125,7 @@ pub fn three_view_gradients(
             p.coords - projection
         })
         .unwrap_or_else(Vector3::zeros);
-    let trans_s = two_view_same_space_triangulate_sine_l1(-ftoc, c, f)
+    let trans_s = two_view_same_space_triangulate_sine_l1(ftoc, c, f)
         .map(|p| {
             // Move the point into the translational reference frame of S.
             let p = p - stoc;
@@ -136,7 +136,7 @@ pub fn three_view_gradients(
         })
         .unwrap_or_else(Vector3::zeros);
 
-    let trans_c = two_view_same_space_triangulate_sine_l1(-stof, f, s)
+    let trans_c = two_view_same_space_triangulate_sine_l1(stof, f, s)
         .map(|p| {
             // Move the point into the translational reference frame of C from F.
             let p = p + ftoc;
-- 
2.43.0


From a6315a503bb796627f6ff526b83997a8140d375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 12/13] fix: EssentialMatrix gave garbage or panicked when its
 SVD didn't converge

---
 cv-pinhole/src/essential.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cv-pinhole/src/essential.rs b/cv-pinhole/src/essential.rs
index e05e16c..bc55ecc 100644
--- a/cv-pinhole/src/essential.rs
+++ b/cv-pinhole/src/essential.rs
@@ -1,5 +1,5 @@
 use cv_core::{
-    nalgebra::{Matrix3, Rotation3, UnitVector3, Vector3, SVD},
+    nalgebra::{Const, Matrix3, Rotation3, UnitVector3, Vector3, SVD},
     sample_consensus::Model,
     CameraToCamera, FeatureMatch, Pose,
 };
@@ -56,13 +56,28 @@ use num_traits::Float;
 pub struct EssentialMatrix(pub Matrix3<f64>);
 
 impl EssentialMatrix {
+    /// Performs the (ordered) singular value decomposition, or gives `None` if it doesn't converge.
+    ///
+    /// `nalgebra` decomposes a 3x3 matrix through the eigendecomposition of its gram matrix, but
+    /// it doesn't report when that one fails to converge, and what it gives then isn't a valid
+    /// decomposition. So the convergence is checked here first.
+    fn svd_converged(
+        &self,
+        epsilon: f64,
+        max_iterations: usize,
+    ) -> Option<SVD<f64, Const<3>, Const<3>>> {
+        self.tr_mul(self)
+            .try_symmetric_eigen(epsilon, max_iterations)?;
+        SVD::try_new(self.0, true, true, epsilon, max_iterations)
+    }
+
     /// Can be used to enforce the constraints of an essential matrix to fix it.
     ///
     /// This finds the closest essential matrix in frobenius form. This just means
     /// that the two singular values are averaged and the null singular value is
     /// forced to zero.
     pub fn recondition(self, epsilon: f64, max_iterations: usize) -> Option<Self> {
-        let mut svd = self.try_svd(true, true, epsilon, max_iterations)?;
+        let mut svd = self.svd_converged(epsilon, max_iterations)?;
         // Now that the singular values are sorted, find the closest
         // essential matrix to E in frobenius form.
         // This consists of averaging the two non-zero singular values
@@ -116,16 +131,13 @@ impl EssentialMatrix {
         epsilon: f64,
         max_iterations: usize,
     ) -> Option<(Rotation3<f64>, Rotation3<f64>, Vector3<f64>)> {
-        let Self(essential) = *self;
-        let essential = essential;
-
         // `W` from https://en.wikipedia.org/wiki/Essential_matrix#Finding_one_solution.
         let w = Matrix3::new(0.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0);
         // Transpose of `W` from https://en.wikipedia.org/wiki/Essential_matrix#Finding_one_solution.
         let wt = w.transpose();
 
         // Perform SVD.
-        let svd = SVD::try_new(essential, true, true, epsilon, max_iterations);
+        let svd = self.svd_converged(epsilon, max_iterations);
         // Extract only the U and V matrix from the SVD.
         let u_v_t = svd.map(|svd| {
             (
-- 
2.43.0


From b58b0a3c8dc10f87d3c247a6d90a1f71d9cf109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 13/13] fix: RelativeDltTriangulator panicked when the singular
 values were NaN

---
 cv-geom/src/triangulation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cv-geom/src/triangulation.rs b/cv-geom/src/triangulation.rs
index 275f7b9..ecfa084 100644
--- a/cv-geom/src/triangulation.rs
+++ b/cv-geom/src/triangulation.rs
@@ -353,7 +353,12 @@ impl TriangulatorRelative for RelativeDltTriangulator {
             .row_mut(3)
             .copy_from(&(b.y * pose.row(2) - b.z * pose.row(1)));
 
-        let svd = design.try_svd(false, true, self.epsilon, self.max_iterations)?;
+        let mut svd = design.try_svd_unordered(false, true, self.epsilon, self.max_iterations)?;
+        // The singular values can't be ordered if there is a NaN among them.
+        if svd.singular_values.iter().any(|x| x.is_nan()) {
+            return None;
+        }
+        svd.sort_by_singular_values();
 
         // Extract the null-space vector from V* corresponding to the smallest
         // singular value, which is the homogeneous coordiate of the output.
-- 
2.43.0

