From b7fe2d50378392dbb165985dd0625e0cfc2699e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 01/14] fix: EPA returned a zero vector for colliding shapes
 when it did not converge

Return the smallest separating vector found so far instead.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1b3f4a7..1736835 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -1,6 +1,6 @@
 mod v;
 
-use crate::{error, info, trace, warn};
+use crate::{info, trace, warn};
 
 use super::*;
 
@@ -79,6 +79,9 @@ impl EpaPoly2d {
             self.0.points
         );
 
+        let mut best_penetration = Vec2::NAN;
+        let mut best_depth_squared = f32::INFINITY;
+
         for _i in 0..iteration_limit {
             trace!("[EPA] iteration {}", _i);
             let (edge_index, a, b) = self.find_closest_edge();
@@ -91,6 +94,9 @@ impl EpaPoly2d {
             trace!("fitness: {}", fitness);
             let fitness_to_beat = a.dot(normal);
             trace!("fitness to beat: {}", fitness_to_beat);
+            let denom = normal.dot(normal);
+            trace!("denom: {}", denom);
+            let penetration = normal * (-fitness / denom);
 
             if !is_a_sufficiently_better_than_b(
                 fitness,
@@ -98,9 +104,14 @@ impl EpaPoly2d {
                 DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
             ) {
                 trace!("EPA converged");
-                let denom = normal.dot(normal);
-                trace!("denom: {}", denom);
-                return normal * (-fitness / denom);
+                return penetration;
+            }
+
+            // Every `penetration` separates the shapes, remember the smallest one.
+            let depth_squared = penetration.length_squared();
+            if depth_squared < best_depth_squared {
+                best_penetration = penetration;
+                best_depth_squared = depth_squared;
             }
 
             trace!("splitting edge at index {}", edge_index);
@@ -110,7 +121,7 @@ impl EpaPoly2d {
 
         warn!("EPA did not converge in {} iterations", iteration_limit);
 
-        Vec2::ZERO
+        best_penetration
     }
 
     fn find_closest_edge(&self) -> (usize, Vec2, Vec2) {
-- 
2.43.0


From d295a11f3cf85e52074ca1736e0ebba138322f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 02/14] fix: GJK simplex directions scaled with the cube of the
 shape size

Small shapes got directions below the direction threshold, were then
searched in the wrong direction and reported as colliding while separated.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1736835..3116025 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -178,7 +178,7 @@ impl Simplex2d {
                 let ab = b - a;
                 let ao = -a;
                 if ab.dot(ao) >= 0.0 {
-                    let ab_perp = ab.cross_aba(ao);
+                    let ab_perp = ab.perp() * sign(ab.cross(ao));
                     (false, ab_perp)
                 } else {
                     (false, ao)
@@ -199,7 +199,7 @@ impl Simplex2d {
                 trace!("ac: {}", ac);
                 trace!("ao: {}", ao);
 
-                let abc = ab.cross(ac);
+                let abc = sign(ab.cross(ac));
                 let ac_perp = abc.cross(ac);
                 let ab_perp = ab.cross_f32(abc);
 
@@ -301,6 +301,15 @@ impl Simplex2d {
     }
 }
 
+/// Sign of the value, zero for zero.
+fn sign(value: f32) -> f32 {
+    if value == 0.0 {
+        0.0
+    } else {
+        value.signum()
+    }
+}
+
 fn same_direction(a: Vec2, b: Vec2) -> bool {
     a.dot(b) >= 0.0
 }
@@ -318,7 +327,6 @@ impl Crossf32 for f32 {
 trait Cross2d {
     fn cross(self, other: Self) -> f32;
     fn cross_f32(self, other: f32) -> Self;
-    fn cross_aba(self, other: Self) -> Self;
     fn perp_right(self) -> Self;
 }
 
@@ -331,11 +339,6 @@ impl Cross2d for Vec2 {
         Vec2::new(self.y * other, -self.x * other)
     }
 
-    fn cross_aba(self, other: Self) -> Self {
-        let cross = self.cross(other);
-        Vec2::new(-self.y * cross, self.x * cross)
-    }
-
     fn perp_right(self) -> Self {
         Vec2::new(self.y, -self.x)
     }
-- 
2.43.0


From 0431ef7527da9c848ff7d43868b7432a0fa5e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 03/14] fix: GJK distance queries terminated early, gave up
 wrongly or panicked on separated shapes

---
 src/col2d/shape/local_minkowski_diff/v.rs | 25 ++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4be036a..db064d8 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -68,21 +68,36 @@ where
         let mut last_a = self.extreme_point(direction);
         direction = simplex.add_point(last_a).1;
 
+        let mut collision_possible = true;
+
         for _ in 0..iteration_limit {
             let a = self.extreme_point(direction);
             let fitness = a.dot(direction);
 
             if fitness <= 0.0 {
+                collision_possible = false;
                 let last_fitness = last_a.dot(direction);
-                if fitness <= last_fitness {
+                if !is_a_sufficiently_better_than_b(
+                    fitness,
+                    last_fitness,
+                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                ) {
                     return (false, simplex.distance_to_origin());
                 }
             }
             last_a = a;
 
             let (collides, new_direction) = simplex.add_point(a);
+            if collides && !collision_possible {
+                // The shapes touch: they are separated by no more than a rounding error.
+                return (false, Vec2::ZERO);
+            }
             let new_direction_too_small = direction_is_too_small(new_direction);
             let new_direction = if new_direction_too_small {
+                if !collision_possible {
+                    // The simplex can not be improved any further.
+                    return (false, simplex.distance_to_origin());
+                }
                 // panic!("new direction too small: {new_direction:?}");
                 direction.perp()
             } else {
@@ -212,8 +227,8 @@ where
 
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
-                error!("Simplex collided after collision was no longer possible");
-                panic!("Simplex collided after collision was no longer possible");
+                // The shapes touch: they are separated by no more than a rounding error.
+                return (false, Vec2::ZERO);
             }
             trace!("new direction: {}", new_direction);
             // very close to zero. This is a sign that the origin lies on the boundary of the
@@ -223,6 +238,10 @@ where
             //   - Start a new iteration with a new direction
             let new_direction_too_small = direction_is_too_small(new_direction);
             let new_direction = if new_direction_too_small {
+                if !collision_possible {
+                    // The simplex can not be improved any further.
+                    return (false, simplex.distance_to_origin());
+                }
                 // panic!("new direction too small: {new_direction:?}");
                 direction.perp()
             } else {
-- 
2.43.0


From b0e9a5c1615ade06924672625681ea0bf8fc1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 04/14] fix: AxisTransform2d::inverse ignored the scale when
 inverting the translation

---
 src/col2d/transformation2d/axis_transform2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index e5dd49e..ba621b0 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -41,7 +41,7 @@ impl Transformation2d for AxisTransform2d {
 impl Invertible for AxisTransform2d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: self.unapply(Vec2::ZERO),
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From 330acb42ea266156dc43d4e47b8d6c42fb7dbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 05/14] fix: penetrates and distance_to returned vectors in
 self-oriented space

Like sdfv, rotate the vector from the space of `self` to world space.
---
 src/col2d/detection/distance_to.rs | 3 ++-
 src/col2d/detection/penetrates.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index 23f6f4f..d7c98cd 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -79,6 +79,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.distance_to_rel(b.shape, &rel)
+        let distance_local = a.shape.distance_to_rel(b.shape, &rel)?;
+        Some(a.transform.apply_normal(distance_local))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index db96494..a264d3f 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -71,6 +71,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.penetrates_rel(b.shape, &rel)
+        let penetration_local = a.shape.penetrates_rel(b.shape, &rel)?;
+        Some(a.transform.apply_normal(penetration_local))
     }
 }
-- 
2.43.0


From d160d695f1bd61d6a5f6731da2203c6e662479de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 06/14] fix: Rect2i32::pad moved the maximum corner inwards

---
 src/utils/rect2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/rect2.rs b/src/utils/rect2.rs
index 9037e88..77455f5 100644
--- a/src/utils/rect2.rs
+++ b/src/utils/rect2.rs
@@ -14,7 +14,7 @@ impl Rect2i32 {
     pub fn pad(self, padding: V2i32) -> Self {
         Self {
             min: self.min - padding,
-            max: self.max - padding,
+            max: self.max + padding,
         }
     }
 
-- 
2.43.0


From 299e06e9b3e0633254ead6501a5c9ecb51f4113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 07/14] fix: relative scale of the ball was ignored in ball v
 ball and box v ball

---
 src/col2d/shape/ball2d/v_ball2d.rs | 4 ++--
 src/col2d/shape/box2d/v_ball.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/ball2d/v_ball2d.rs b/src/col2d/shape/ball2d/v_ball2d.rs
index 3549fba..b898fdf 100644
--- a/src/col2d/shape/ball2d/v_ball2d.rs
+++ b/src/col2d/shape/ball2d/v_ball2d.rs
@@ -4,7 +4,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Ball
 {
     fn sdfv_common_rel(&self, b: &Ball, rel: &T) -> (bool, Vec2) {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + b.radius * rel.scaling_factor();
         let delta = rel.apply_origin();
         let length = delta.length();
         if length > 0.0 {
@@ -19,7 +19,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Ball {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + b.radius * rel.scaling_factor();
         let delta = rel.apply_origin();
         delta.length() - radius
     }
diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 575c54d..46de346 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -6,7 +6,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Box2d
 {
     fn sdfv_common_rel(&self, t: &Ball, rel: &T) -> (bool, Vec2) {
-        let rounded_box = RoundedBox2d::new(self.halfsize, t.radius);
+        let rounded_box = RoundedBox2d::new(self.halfsize, t.radius * rel.scaling_factor());
         SdfvCommonRel2d::<COMPUTE_PENETRATION, COMPUTE_DISTANCE, _, T>::sdfv_common_rel(
             &rounded_box,
             &Point,
-- 
2.43.0


From 4493433107dfd25d5f3902bde2eaee09ff9cb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 08/14] fix: box v ball scalar signed distance measured the
 wrong point of the ball

---
 src/col2d/shape/box2d/v_ball.rs | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 46de346..7ec68ad 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -17,23 +17,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let b_center = rel.apply_origin();
-        let towards_self = -b_center;
-        // TODO: Exploit ball symmetry
-        let p = b.extreme_point_t(rel, towards_self);
-        let px = p.x.abs() - self.halfsize.x;
-        let py = p.y.abs() - self.halfsize.y;
-
-        if self.collides_rel(b, rel) {
-            px.min(py)
-        } else {
-            if px.is_sign_negative() {
-                py
-            } else if py.is_sign_negative() {
-                px
-            } else {
-                Vec2::new(px, py).length()
-            }
-        }
+        let rounded_box = RoundedBox2d::new(self.halfsize, b.radius * rel.scaling_factor());
+        rounded_box.sdf_rel(&Point, rel)
     }
 }
-- 
2.43.0


From 382077a4030c5d0cd15641d013dd57f04f387285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 09/14] fix: signed distances between scaled colliders were in
 units of the scaled collider

Scale them to world units (and, for reversed pairs, to units of `self`).
---
 src/col2d/detection/distance_to.rs | 2 +-
 src/col2d/detection/penetrates.rs  | 2 +-
 src/col2d/detection/sdf.rs         | 2 +-
 src/col2d/detection/sdfv.rs        | 2 +-
 src/col2d/shape/point2d.rs         | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index d7c98cd..2667d28 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -80,6 +80,6 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let distance_local = a.shape.distance_to_rel(b.shape, &rel)?;
-        Some(a.transform.apply_normal(distance_local))
+        Some(a.transform.apply_normal(distance_local) * a.transform.scaling_factor())
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index a264d3f..485ab32 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -72,6 +72,6 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let penetration_local = a.shape.penetrates_rel(b.shape, &rel)?;
-        Some(a.transform.apply_normal(penetration_local))
+        Some(a.transform.apply_normal(penetration_local) * a.transform.scaling_factor())
     }
 }
diff --git a/src/col2d/detection/sdf.rs b/src/col2d/detection/sdf.rs
index 9564b59..412b4e7 100644
--- a/src/col2d/detection/sdf.rs
+++ b/src/col2d/detection/sdf.rs
@@ -72,6 +72,6 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.sdf_rel(b.shape, &rel)
+        a.shape.sdf_rel(b.shape, &rel) * a.transform.scaling_factor()
     }
 }
diff --git a/src/col2d/detection/sdfv.rs b/src/col2d/detection/sdfv.rs
index 355ee79..de8de42 100644
--- a/src/col2d/detection/sdfv.rs
+++ b/src/col2d/detection/sdfv.rs
@@ -72,7 +72,7 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let (collides, sdfv_local) = a.shape.sdfv_rel(b.shape, &rel);
-        let sdfv = a.transform.apply_normal(sdfv_local);
+        let sdfv = a.transform.apply_normal(sdfv_local) * a.transform.scaling_factor();
         (collides, sdfv)
     }
 }
diff --git a/src/col2d/shape/point2d.rs b/src/col2d/shape/point2d.rs
index bb944d7..377b598 100644
--- a/src/col2d/shape/point2d.rs
+++ b/src/col2d/shape/point2d.rs
@@ -45,7 +45,7 @@ macro_rules! impl_reverse_sdfv_common_rel {
                 let (collides, sdfv) =
                     SdfvCommonRel2d::<P, D, $a, T>::sdfv_common_rel(b, self, &inv_rel);
                 let negated_sdfv = -sdfv;
-                let transformed_sdfv = rel.apply_normal(negated_sdfv);
+                let transformed_sdfv = rel.apply_normal(negated_sdfv) * rel.scaling_factor();
                 (collides, transformed_sdfv)
             }
         }
-- 
2.43.0


From d7ea7b8e0e7484b40877e06bcf3a5a3481705486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 10/14] fix: approx_eq considered a vector with NaN components
 equal to the zero vector

---
 src/utils/approx.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index f35f834..2245f68 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -38,14 +38,14 @@ impl Approx for f32 {
 impl Approx for Vec2 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
         let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() {
             return false;
         }
+        if magn_sq == 0.0 {
+            return true;
+        }
+
         if error.x.is_infinite() || error.y.is_infinite() {
             // @note(lubo): we can be more lenient here when the need arises
             return self == other;
@@ -74,14 +74,14 @@ impl Approx for Vec2 {
 impl Approx for Vec3 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
         let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
             return false;
         }
+        if magn_sq == 0.0 {
+            return true;
+        }
+
         if error.x.is_infinite() || error.y.is_infinite() || error.z.is_infinite() {
             // @note(lubo): we can be more lenient here when the need arises
             return self == other;
-- 
2.43.0


From 044f15795b6e5b6f578601679d887a7aa851bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 11/14] fix: Rotor2d::from_quaternion scaled vectors for
 rotations outside of the XY plane

Keep only the twist around Z, which is what ignoring the rest means.
---
 src/col2d/transformation2d/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/mod.rs b/src/col2d/transformation2d/mod.rs
index 47b5fde..448c45b 100644
--- a/src/col2d/transformation2d/mod.rs
+++ b/src/col2d/transformation2d/mod.rs
@@ -107,7 +107,10 @@ impl Rotor2d {
 
     /// Ignore rotation outside of the XY plane.
     pub fn from_quaternion(quat: crate::Quat) -> Rotor2d {
-        let norm = quat.dot(quat).sqrt();
+        let norm = (quat.w * quat.w + quat.z * quat.z).sqrt();
+        if norm == 0.0 {
+            return Self::IDENTITY;
+        }
         let w = quat.w / norm;
         let z = quat.z / norm;
 
-- 
2.43.0


From 3cbd80fd5c41aca400167f9e3d7ca894e19ce5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 12/14] fix: Tilemap::remove_tile reported wrong events

It reported the removal of chunks that never existed, and did not report
changes of chunks that remain.
---
 src/col2d/shape/tilemap.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 12e5cd4..27119b9 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -108,11 +108,16 @@ impl Tilemap {
 
     pub fn remove_tile(&mut self, pos: V2i32) {
         let (chunk_pos, local) = pos.modular_decompose(CHUNK_SIZE);
-        let chunk = self.chunks.entry(chunk_pos).or_default();
+        let Some(chunk) = self.chunks.get_mut(&chunk_pos) else {
+            return;
+        };
+        let changed = chunk.array2d.get(local).is_some_and(|tile| *tile != 0);
         chunk.array2d.set(local, 0);
         if chunk.array2d.data.iter().all(|x| x == &0) {
             self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
             self.chunks.remove(&chunk_pos);
+        } else if changed {
+            self.events.notify(TilemapEvent::ChunkChanged(chunk_pos));
         }
     }
 
-- 
2.43.0


From efc8ec95221428337658dc8280a71d224090e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 13/14] fix: box v ball penetration was not minimal for a ball
 centred on the boundary of the box

---
 src/col2d/shape/rounded_box2d/v_point.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index 027af39..d005bd9 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -8,7 +8,8 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
         let delta_x = delta.x.abs() - self.halfsize.x;
         let delta_y = delta.y.abs() - self.halfsize.y;
 
-        if self.box_part().collides_rel(&Point, rel) {
+        // Points on the boundary of the box part count as inside of it.
+        if delta_x <= 0.0 && delta_y <= 0.0 {
             if delta_x > delta_y {
                 (
                     true,
-- 
2.43.0


From 863cec978611e7f00d120616f0cc7a61e511ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 14/14] fix: keep the part of the GJK simplex that is closest
 to the origin

With three points, when the origin was nearest to the newest point itself, an
edge was kept with a direction that could point away from the origin, and the
distance queries could stop there with a vector that is too long.
---
 src/col2d/shape/local_minkowski_diff/mod.rs | 30 +++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 3116025..3029c40 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -209,27 +209,21 @@ impl Simplex2d {
 
                 trace!("points before: {:?}", self.0.points);
 
-                if same_direction(ab_perp, ao) {
-                    if same_direction(ab, ao) {
-                        trace!("same direction ab ao");
-                        self.0.points = vec![a, b];
-                        trace!("points after: {:?}", self.0.points);
-                        (false, ab_perp)
-                    } else {
-                        trace!("opposite direction ab ao");
-                        self.0.points = vec![a, c];
-                        trace!("points after: {:?}", self.0.points);
-                        (false, ac_perp)
-                    }
-                    // trace!("same direction ab_perp ao");
-                    // self.0.points = vec![a, b];
-                    // trace!("points after: {:?}", self.0.points);
-                    // (false, ab_perp)
-                } else if same_direction(ac_perp, ao) {
-                    trace!("same direction ac_perp ao");
+                if same_direction(ab_perp, ao) && same_direction(ab, ao) {
+                    trace!("closest to ab");
+                    self.0.points = vec![a, b];
+                    trace!("points after: {:?}", self.0.points);
+                    (false, ab_perp)
+                } else if same_direction(ac_perp, ao) && same_direction(ac, ao) {
+                    trace!("closest to ac");
                     self.0.points = vec![a, c];
                     trace!("points after: {:?}", self.0.points);
                     (false, ac_perp)
+                } else if same_direction(ab_perp, ao) || same_direction(ac_perp, ao) {
+                    trace!("closest to a");
+                    self.0.points = vec![a];
+                    trace!("points after: {:?}", self.0.points);
+                    (false, ao)
                 } else {
                     trace!("captured the origin");
                     (true, Vec2::NAN)
-- 
2.43.0

