From 85eaaa629b766528974d7e35cde968e34ae45674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 01/28] verif: guarded re-exports and film sample observer (cfg
 pt_verif)

---
 src/film.rs  |  2 ++
 src/lib.rs   |  1 +
 src/verif.rs | 38 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/film.rs b/src/film.rs
index c967f36..c9a68ca 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -135,6 +135,8 @@ impl FilmTile {
     }
 
     pub fn add_sample(&mut self, p_film: Point2f, sample: Spectrum) {
+        #[cfg(pt_verif)] ::verif::sample_added(p_film, sample);
+
         let p_film = p_film - HALF_PIXEL;
         let min = Point2i::from((p_film - self.filter_radius).ceil());
         let max = Point2i::from((p_film + self.filter_radius).floor()) + 1;
diff --git a/src/lib.rs b/src/lib.rs
index 54aad5e..fd83f90 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,3 +40,4 @@
 #[allow(dead_code, unused_variables)] mod transform;
 #[allow(dead_code, unused_variables)] mod vector;
 pub mod api;
+#[cfg(pt_verif)] pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..fd5c90f
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,38 @@
+//! Verification hooks, compiled only with `--cfg pt_verif`: the crate's inner modules under one
+//! public path, and an observer of the samples that reach the film.
+use std::mem::transmute;
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+pub mod bbox { pub use bbox::*; }
+pub mod camera { pub use camera::*; }
+pub mod container { pub use container::*; }
+pub mod container_simple { pub use container_simple::*; }
+pub mod film { pub use film::*; }
+pub mod filter { pub use filter::*; }
+pub mod interaction { pub use interaction::*; }
+pub mod light { pub use light::*; }
+pub mod ray { pub use ray::*; }
+pub mod reflection { pub use reflection::*; }
+pub mod sampler { pub use sampler::*; }
+pub mod scene { pub use scene::*; }
+pub mod shape { pub use shape::*; }
+pub mod texture { pub use texture::*; }
+pub mod transform { pub use transform::*; }
+pub mod vector { pub use vector::*; }
+
+/// Called with film position and radiance of each sample added to a film tile.
+pub type SampleObserver = fn(f32, f32, [f32; 3]);
+
+static OBSERVER: AtomicUsize = AtomicUsize::new(0);
+
+pub fn observe_samples(f: SampleObserver) {
+    OBSERVER.store(f as usize, Ordering::SeqCst);
+}
+
+pub(crate) fn sample_added(p: ::vector::Point2f, s: ::spectrum::Spectrum) {
+    let f = OBSERVER.load(Ordering::SeqCst);
+    if f != 0 {
+        let f = unsafe { transmute::<usize, SampleObserver>(f) };
+        f(p.x, p.y, [s.r, s.g, s.b]);
+    }
+}
-- 
2.43.0


From 77b70f3b66f52c05e1958efd2c1622b8531d39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 02/28] fix: film: round each component of the image once

Adding 0.5 and then rounding maps 0 to level 1 and most values one level
too high; the conversion to u32 already truncates.
---
 src/film.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film.rs b/src/film.rs
index c9a68ca..4ee7b8b 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -93,7 +93,7 @@ impl Film {
         for p in pixels.iter() {
             let mut color = p.color;
             for i in 0..3 {
-                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).round();
+                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.);
             }
             let Spectrum { r, g, b } = color;
             file.write_all(format!(
-- 
2.43.0


From 30ccc46ff63ed04ad3b0602b22b1e6ccc5cb8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 03/28] fix: integrator: truncate the output file when opening
 it

A longer file left by an earlier render kept its tail after the new image.
---
 src/integrator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrator.rs b/src/integrator.rs
index 2f97e55..091eb3b 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -75,6 +75,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             OpenOptions::new()
                 .write(true)
                 .create(true)
+                .truncate(true)
                 .open("output.ppm")
                 .unwrap()
         );
-- 
2.43.0


From 21d001f8b4a73eb5835c5f8fd8bc05d752e46fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 04/28] fix: film: flush the image so that a failing write is
 reported

The last buffered bytes were written when the BufWriter was dropped, where
errors are ignored.
---
 src/film.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/film.rs b/src/film.rs
index 4ee7b8b..e00b062 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -103,6 +103,8 @@ impl Film {
                 b as u32,
             ).as_bytes()).unwrap();
         }
+
+        file.flush().unwrap();
     }
 }
 
-- 
2.43.0


From 627cff1cd3759b3d290841bb1af985becd8f4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 05/28] fix: sampler_halton: multiplicative inverse of a
 negative coefficient

The inverse is the coefficient modulo n; its absolute value selects a point
of another pixel's cell.
---
 src/sampler_halton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 96557bf..bce4ab5 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -1194,7 +1194,8 @@ fn inverse_radical_inverse(base: u32, mut a: u32, n_digits: u32) -> u32 {
 
 fn multiplicative_inverse(a: u32, n: u32) -> u32 {
     let (x, _) = extended_gcd(a, n);
-    return x.abs() as u32 % n;
+    let n = i64::from(n);
+    return ((x % n + n) % n) as u32;
 }
 
 // Extended Euclidean algorithm
-- 
2.43.0


From 2e713ebc9514b6a3ba1dbc2d1a6649dbb0d2ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 06/28] fix: sampler_halton: radical inverse overflowed for
 large indices and bases

The reversed digits and the power of the base need more than 32 bits once the
index times the base exceeds 2^32.
---
 src/sampler_halton.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index bce4ab5..5a5af59 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -142,12 +142,12 @@ impl Sampler for HaltonSampler {
 }
 
 fn radical_inverse(base: u32, mut a: u32) -> f32 {
-    let mut x = 0;
-    let mut base_n = 1;
+    let mut x: u64 = 0;
+    let mut base_n: u64 = 1;
     while a > 0 {
-        x = x * base + a % base;
+        x = x * u64::from(base) + u64::from(a % base);
         a /= base;
-        base_n *= base;
+        base_n *= u64::from(base);
     }
     return ONE_MINUS_EPSILON.min(x as f32 / base_n as f32);
 }
-- 
2.43.0


From 7d9f14203d5fe824c8204954fc8367a89949d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 07/28] fix: sampler_random: clones no longer share one random
 stream

Every worker renders with a clone, so all of them drew the same values.
---
 src/sampler_random.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sampler_random.rs b/src/sampler_random.rs
index e64abf6..f1dbfff 100644
--- a/src/sampler_random.rs
+++ b/src/sampler_random.rs
@@ -4,7 +4,6 @@ use self::rand::{Rng, StdRng};
 use sampler::Sampler;
 use vector::{Point2i, Point2f};
 
-#[derive(Clone)]
 pub struct RandomSampler {
     // General sampler
     samples_per_pixel: u32,
@@ -23,6 +22,17 @@ impl RandomSampler {
     }
 }
 
+/// A clone has a random stream of its own.
+impl Clone for RandomSampler {
+    fn clone(&self) -> RandomSampler {
+        RandomSampler {
+            samples_per_pixel: self.samples_per_pixel,
+            current_pixel_sample_index: self.current_pixel_sample_index,
+            rng: StdRng::new().unwrap(),
+        }
+    }
+}
+
 impl Sampler for RandomSampler {
     fn start_pixel(&mut self, _: Point2i) {
         self.current_pixel_sample_index = 0;
-- 
2.43.0


From 41a107a14c7c2417969bdbadbefc343d7b535836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 08/28] fix: bbox: ray parallel to a slab and lying in its face
 was reported as a miss

---
 src/bbox.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 6874096..a7178f1 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -85,9 +85,15 @@ impl BBox3f {
         let mut t0 = 0.;
         let mut t1 = ray.t_max;
 
-        let mut axis = Axis::X;
-        for _ in 0..3 {
-            // t_near and t_far could be NaN or Infinity
+        for &axis in [Axis::X, Axis::Y, Axis::Z].iter() {
+            // the ray is parallel to the slab, 0 / 0 would be NaN if it lies in a face
+            if ray.direction[axis] == 0. {
+                if ray.origin[axis] < self.min[axis] || self.max[axis] < ray.origin[axis] {
+                    return None;
+                }
+                continue;
+            }
+
             let mut t_near = (self.min[axis] - ray.origin[axis]) / ray.direction[axis];
             let mut t_far  = (self.max[axis] - ray.origin[axis]) / ray.direction[axis];
             if t_near > t_far {
@@ -102,8 +108,6 @@ impl BBox3f {
             if t0 > t1 {
                 return None;
             }
-
-            axis = axis.next();
         }
         return Some((t0, t1));
     }
-- 
2.43.0


From 3627f064924cb206e1157f1e8e2a3cc51c046d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 09/28] fix: kdtree: nearer nodes left on the stack were
 dropped when a pending node starts beyond the hit

---
 src/container_kdtree.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/container_kdtree.rs b/src/container_kdtree.rs
index 2e4bdcb..c44d53d 100644
--- a/src/container_kdtree.rs
+++ b/src/container_kdtree.rs
@@ -224,12 +224,20 @@ impl Container for KdTree {
                 return false;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
-                break;
+                // nodes below in the stack may still be nearer (t_min is NaN if the ray lies in a split plane)
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                } else {
+                    break;
+                }
             }
 
             let node = &self.nodes[node_i];
@@ -306,13 +314,21 @@ impl Container for KdTree {
                 return None;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut interaction = None;
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
-                break;
+                // nodes below in the stack may still be nearer (t_min is NaN if the ray lies in a split plane)
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                } else {
+                    break;
+                }
             }
 
             let node = &self.nodes[node_i];
-- 
2.43.0


From 7d0291bb0ba379acdb7864e96ac1385c63015230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 10/28] fix: sphere: tangents at the poles were not finite

---
 src/shape_sphere.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index 417b457..f569f0f 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -56,6 +56,9 @@ impl Sphere {
 
     // return dpdu, dpdv
     fn compute_partial_derivative(&self, Point3f { x, y, z }: Point3f) -> (Vector3f, Vector3f) {
+        // the parametrization degenerates at the poles, use a point nearby
+        let (x, y) = if x.hypot(y) < 1e-5 * self.radius { (1e-5 * self.radius, 0.) } else { (x, y) };
+
         let dpdu = Vector3f::new(
             -2. * PI * y,
             2. * PI * x,
-- 
2.43.0


From 650172ccb5c1a568467509e4e74dc2ff6f3bbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 11/28] fix: triangle: vertex normals that cancel out gave a
 NaN shading normal

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index ada87d5..b4cf146 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -238,7 +238,7 @@ impl Shape for Triangle {
                + vertex_normals[1] * b1
                + vertex_normals[2] * b2;
             let len = sn.length();
-            if len >= 0. {
+            if len > 0. {
                 sn /= len;
             } else {
                 sn = n;
-- 
2.43.0


From 56f78ba745b09afb4c27e0c3f7ddf753c80e9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 12/28] fix: triangle: a degenerate triangle could be hit and
 had no normal

---
 src/shape_triangle.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index b4cf146..196db77 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -73,6 +73,11 @@ impl Shape for Triangle {
         let vs_o = self.vertices;
         let mut vs = vs_o.clone();
 
+        // a degenerate triangle has no surface (and no normal)
+        if (vs_o[0] - vs_o[2]).cross(vs_o[1] - vs_o[2]).length() == 0. {
+            return false;
+        }
+
         // transform to ray coordinate system
         // ray.origin is at (0, 0, 0) & direction is (0, 0, 1)
         let max_axis = ray.direction.max_abs_axis();
@@ -139,6 +144,11 @@ impl Shape for Triangle {
         let vs_o = self.vertices;
         let mut vs = vs_o.clone();
 
+        // a degenerate triangle has no surface (and no normal)
+        if (vs_o[0] - vs_o[2]).cross(vs_o[1] - vs_o[2]).length() == 0. {
+            return None;
+        }
+
         // transform to ray coordinate system
         // ray.origin is at (0, 0, 0) & direction is (0, 0, 1)
         let max_axis = ray.direction.max_abs_axis();
-- 
2.43.0


From b72310671c58b210b8626366911bb17670db1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 13/28] fix: integrator: emission found through specular
 scattering was counted twice

---
 src/integrator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 091eb3b..ba95189 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -148,15 +148,13 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             let (wi, mut f, scattering_pdf, bxdf_flag) = bsdf.sample_f(i.wo, sample1);
             f *= wi.dot_n(i.sn).abs();
             let sampled_specular = bxdf_flag & SPECULAR != 0;
-            if scattering_pdf > 0. && !f.is_black() {
-                let mut weight = 1.;
-                if !sampled_specular {
-                    let light_pdf = light.pdf_li(i, wi);
-                    if light_pdf == 0. {
-                        return ld;
-                    }
-                    weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
+            // light found through specular scattering is counted by the path itself
+            if !sampled_specular && scattering_pdf > 0. && !f.is_black() {
+                let light_pdf = light.pdf_li(i, wi);
+                if light_pdf == 0. {
+                    return ld;
                 }
+                let weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
 
                 let ray = i.spawn_ray(wi);
                 let light_i = self.scene.intersect(&ray);
-- 
2.43.0


From ab8597b6233d659287f186eba40c451c5ec68703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 14/28] fix: integrator: a path with zero throughput survived
 random termination and became NaN

---
 src/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index ba95189..0cf6871 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -219,7 +219,7 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             bounces += 1;
             if bounces > 3 {
                 let q = beta.y().min(0.95);
-                if sampler.get_1d() > q {
+                if sampler.get_1d() >= q {
                     break;
                 }
                 beta /= q;
-- 
2.43.0


From 1cf91464501c9954dc46e2d4c67cb05a9180d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 15/28] fix: shape: area density was returned where a density
 per solid angle is needed

---
 src/shape.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index ce32b2a..67945d4 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -32,8 +32,20 @@ pub trait Shape : Sync + Send {
         self.sample(sample)
     }
 
+    /// pdf returns the density per solid angle, seen from ref_i, of sample_ref choosing direction wi.
     fn pdf(&self, ref_i: &Interaction, wi: Vector3f) -> f32 {
-        1. / self.area()
+        match self.intersect(&ref_i.spawn_ray(wi)) {
+            Some((i, _)) => {
+                let d = i.p - ref_i.p;
+                let cos = wi.dot_n(i.n).abs();
+                if cos > 0. {
+                    d.dot(d) / (cos * self.area())
+                } else {
+                    0.
+                }
+            }
+            None => 0.,
+        }
     }
 
     fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum {
-- 
2.43.0


From 92fbe9c54c093084d3fa9ea43f782e9d67598855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 16/28] fix: triangle: sampled points faced another way than
 hit points when vertex normals disagree with the winding

---
 src/shape_triangle.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index 196db77..eb3010f 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -314,7 +314,16 @@ impl Shape for Triangle {
                       + (vs_o[2] * b2).abs();
         let p_err = Vector3f::from(p_abs_sum) * gamma(7.);
 
+        // orient the normal as intersect does
         let mut n = Normal3f::from((vs_o[1] - vs_o[0]).cross(vs_o[2] - vs_o[0]).normalize());
+        if let Some(vertex_normals) = self.vertex_normals {
+            let sn = vertex_normals[0] * b0
+                   + vertex_normals[1] * b1
+                   + vertex_normals[2] * b2;
+            if n.dot(sn) < 0. {
+                n *= -1.;
+            }
+        }
         if self.reverse_orientation {
             n *= -1.;
         }
-- 
2.43.0


From e713c35378d0cf542278f3288f91ac636a3cb090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 17/28] fix: reflection: samples of a single lobe were not zero
 on the other geometric side

---
 src/reflection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflection.rs b/src/reflection.rs
index e01137b..f22570b 100644
--- a/src/reflection.rs
+++ b/src/reflection.rs
@@ -119,13 +119,14 @@ impl BSDF {
         }
         let wi_w = self.local_to_world(wi);
 
-        if !bxdf.has_flag(SPECULAR) && n_bxdfs > 1 {
+        if !bxdf.has_flag(SPECULAR) {
             for i in 0..n_bxdfs {
                 if i != n_bxdf {
                     pdf += self.bxdfs[i].pdf(wo, wi);
                 }
             }
 
+            // a single component too scatters nothing to the other geometric side
             let reflect = wi_w.dot(self.gn) * wo_w.dot(self.gn) > 0.;
             f = Spectrum::default();
             for bxdf in self.bxdfs.iter() {
-- 
2.43.0


From 3c7abac0c62a1b6eea8dd0d06ada4c321145172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 18/28] fix: microfacet: density of half vectors was divided by
 the cosine instead of multiplied

---
 src/microfacet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 2c4573e..fa632a3 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -76,6 +76,6 @@ impl MicrofacetDistribution {
     }
 
     pub fn pdf(&self, wo: Vector3f, wh: Vector3f) -> f32 {
-        self.d(wh) / abs_cos_theta(wh)
+        self.d(wh) * abs_cos_theta(wh)
     }
 }
-- 
2.43.0


From 49b89ac396346acf98ce95e9682ab30c945df147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 19/28] fix: microfacet: NaN at grazing half vectors and for a
 roughness of zero in one direction

---
 src/microfacet.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index fa632a3..8e6d99c 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -1,5 +1,5 @@
 use common::PI;
-use reflection::{cos_2_theta, abs_cos_theta, tan_theta, tan_2_theta, cos_2_phi, sin_2_phi, same_hemisphere};
+use reflection::{abs_cos_theta, tan_theta, cos_2_phi, sin_2_phi, same_hemisphere};
 use vector::{Vector3f, Point2f};
 
 /// GGX(Trowbridge–Reitz) Microfacet Distribution.
@@ -11,19 +11,13 @@ pub struct MicrofacetDistribution {
 
 impl MicrofacetDistribution {
     pub fn new(alpha_x: f32, alpha_y: f32) -> MicrofacetDistribution {
-        MicrofacetDistribution { alpha_x, alpha_y }
+        // a width of zero has no density
+        MicrofacetDistribution { alpha_x: alpha_x.max(0.001), alpha_y: alpha_y.max(0.001) }
     }
 
     pub fn d(&self, wh: Vector3f) -> f32 {
-        let tan_2_theta = tan_2_theta(wh);
-        if tan_2_theta.is_infinite() {
-            return 0.;
-        }
-        let cos_4_theta = cos_2_theta(wh).powi(2);
-        let e = (cos_2_phi(wh) / self.alpha_x.powi(2) + sin_2_phi(wh) / self.alpha_y.powi(2))
-              * tan_2_theta;
-        return 1.
-            / (PI * self.alpha_x * self.alpha_y * cos_4_theta * (1. + e).powi(2));
+        let e = (wh.x / self.alpha_x).powi(2) + (wh.y / self.alpha_y).powi(2) + wh.z * wh.z;
+        return 1. / (PI * self.alpha_x * self.alpha_y * e * e);
     }
 
     /// Invisible masked microfacet area per visible microfacet area.
-- 
2.43.0


From d068eb9448e282942cc22c3b83ddbf07a03be4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 20/28] fix: microfacet transmission: directions on one side of
 the microfacet had a value and a density

---
 src/bxdf_microfacet_transmission.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/bxdf_microfacet_transmission.rs b/src/bxdf_microfacet_transmission.rs
index 3bc83b7..fd0c87d 100644
--- a/src/bxdf_microfacet_transmission.rs
+++ b/src/bxdf_microfacet_transmission.rs
@@ -51,6 +51,11 @@ impl BxDF for MicrofacetTransmissionBTDF {
             wh *= -1.;
         }
 
+        // wo and wi have to see different sides of the microfacet
+        if wo.dot(wh) * cos_theta_o <= 0. || wi.dot(wh) * cos_theta_i <= 0. {
+            return Spectrum::default();
+        }
+
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
         let f = self.fresnel.evaluate(wh.dot(wo));
@@ -64,6 +69,9 @@ impl BxDF for MicrofacetTransmissionBTDF {
         }
 
         let wh = self.distribution.sample_wh(wo, sample);
+        if wo.dot(wh) <= 0. {
+            return Default::default();
+        }
         let eta = if cos_theta(wo) > 0. {
             self.eta_a / self.eta_b
         } else {
@@ -91,7 +99,13 @@ impl BxDF for MicrofacetTransmissionBTDF {
         } else {
             self.eta_a / self.eta_b
         };
-        let wh = (wo + wi * eta).normalize();
+        let mut wh = (wo + wi * eta).normalize();
+        if wh.z < 0. {
+            wh *= -1.;
+        }
+        if wo.dot(wh) * wo.z <= 0. || wi.dot(wh) * wi.z <= 0. {
+            return 0.;
+        }
 
         let sqrt_denom = wo.dot(wh) + wi.dot(wh) * eta;
         let dwh_dwi = (wi.dot(wh) * eta * eta / sqrt_denom.powi(2)).abs();
-- 
2.43.0


From 77ac5b065ef6b250175e127dd2421f9b1eff2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 21/28] fix: microfacet reflection: Fresnel term ignored the
 side the light comes from

---
 src/bxdf_microfacet_reflection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bxdf_microfacet_reflection.rs b/src/bxdf_microfacet_reflection.rs
index ceefc3e..dc4a4d4 100644
--- a/src/bxdf_microfacet_reflection.rs
+++ b/src/bxdf_microfacet_reflection.rs
@@ -38,7 +38,9 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
-        let f = self.fresnel.evaluate(wh.dot(wi));
+        // wh is on the side of wo and wi, the interface is told the side by the sign of the cosine
+        let cos_i = if wh.z < 0. { -wh.dot(wi) } else { wh.dot(wi) };
+        let f = self.fresnel.evaluate(cos_i);
         return self.r * d * g * f
             / (4. * cos_theta_o * cos_theta_i);
     }
-- 
2.43.0


From f17171715b54c4d76da2fc84f3abfafb30b75d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 22/28] fix: plastic reflects as seen from the air, not from
 the inside of the coat

---
 src/material_plastic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_plastic.rs b/src/material_plastic.rs
index 9b03e89..842311b 100644
--- a/src/material_plastic.rs
+++ b/src/material_plastic.rs
@@ -35,7 +35,7 @@ impl Material for PlasticMaterial {
         }
 
         if !s.is_black() {
-            let fresnel = FresnelDielectric::new(1.5, 1.);
+            let fresnel = FresnelDielectric::new(1., 1.5);
             let rough = self.roughness.evaluate(i);
             if rough == 0. {
                 bsdf.add(SpecularReflectionBRDF::new(s, fresnel));
-- 
2.43.0


From 59da46110cd2b86dff3032b9cad6af0ce193ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 23/28] fix: the transform of a bounding box covers all of its
 corners

---
 src/transform.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1be8cf1..353de37 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -231,10 +231,20 @@ impl Transformable for Point3f {
 
 impl Transformable for BBox3f {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> BBox3f {
-        BBox3f::new(
+        // an edge may become oblique, so every corner counts
+        let mut bbox = BBox3f::new(
             self.min._transform(m, m_inv),
             self.max._transform(m, m_inv),
-        )
+        );
+        for i in 1..7 {
+            let corner = Point3f::new(
+                if i & 1 == 0 { self.min.x } else { self.max.x },
+                if i & 2 == 0 { self.min.y } else { self.max.y },
+                if i & 4 == 0 { self.min.z } else { self.max.z },
+            );
+            bbox = bbox.union_point(corner._transform(m, m_inv));
+        }
+        return bbox;
     }
 }
 
-- 
2.43.0


From 4560af1e127024a3dbe17ac2436a3e7843e15d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 24/28] fix: the position error of a transformed interaction
 bounds the transformed error

---
 src/transform.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 353de37..a1d02ff 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -260,9 +260,17 @@ impl Transformable for Ray {
 
 impl Transformable for Interaction {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> Interaction {
+        // an error bound has no sign
+        let e = self.p_err;
+        let p_err = Vector3f::new(
+            m[0][0].abs() * e.x + m[0][1].abs() * e.y + m[0][2].abs() * e.z,
+            m[1][0].abs() * e.x + m[1][1].abs() * e.y + m[1][2].abs() * e.z,
+            m[2][0].abs() * e.x + m[2][1].abs() * e.y + m[2][2].abs() * e.z,
+        );
+
         Interaction {
             p: self.p._transform(m, m_inv),
-            p_err: self.p_err._transform(m, m_inv),
+            p_err,
             uv: self.uv,
             n: self.n._transform(m, m_inv),
             sn: self.sn._transform(m, m_inv),
-- 
2.43.0


From 4d6e855b06f8f432e83707e6c1c4056643943c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 25/28] fix: checkerboards far away from the origin

The sum of the cell indices overflows, and a single one saturates to an
odd number, when a coordinate is beyond the range of i64.
---
 src/texture.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/texture.rs b/src/texture.rs
index 55b0271..c8c4821 100644
--- a/src/texture.rs
+++ b/src/texture.rs
@@ -37,6 +37,11 @@ impl<T> Texture for ConstantTexture<T> where T: Copy + Sync + Send {
     }
 }
 
+/// Parity of the cell containing x. x may be out of the range of integers.
+fn parity(x: f32) -> u32 {
+    (x.floor() % 2.).abs() as u32
+}
+
 pub struct CheckerboardTexture<T> where T: Copy + Sync + Send {
     mapping: Box<TextureMapping2D>,
     tex1: T,
@@ -57,7 +62,7 @@ impl<T> Texture for CheckerboardTexture<T> where T: Copy + Sync + Send {
     type Output = T;
     fn evaluate(&self, i: &Interaction) -> T {
         let st = self.mapping.map(i);
-        if (st.x.floor() as i64 + st.y.floor() as i64) % 2 == 0 {
+        if (parity(st.x) + parity(st.y)) % 2 == 0 {
             return self.tex1;
         } else {
             return self.tex2;
@@ -85,7 +90,7 @@ impl<T> Texture for Checkerboard3DTexture<T> where T: Copy + Sync + Send {
     type Output = T;
     fn evaluate(&self, i: &Interaction) -> T {
         let p = self.mapping.map(i);
-        if (p.x.floor() as i64 + p.y.floor() as i64 + p.z.floor() as i64) % 2 == 0 {
+        if (parity(p.x) + parity(p.y) + parity(p.z)) % 2 == 0 {
             return self.tex1;
         } else {
             return self.tex2;
-- 
2.43.0


From 1bab3e6aa14cac58082b65d68f1ae3b559f48d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 26/28] fix: rings in the highlights of nearly smooth surfaces

---
 src/microfacet.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 8e6d99c..029c209 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -40,11 +40,10 @@ impl MicrofacetDistribution {
     }
 
     pub fn sample_wh(&self, wo: Vector3f, sample: Point2f) -> Vector3f {
-        let cos_theta;
+        let tan_theta_2;
         let mut phi = PI * 2. * sample[1];
         if self.alpha_x == self.alpha_y {
-            let tan_theta_2 = self.alpha_x * self.alpha_x * sample[0] / (1. - sample[0]);
-            cos_theta = 1. / (1. + tan_theta_2).sqrt();
+            tan_theta_2 = self.alpha_x * self.alpha_x * sample[0] / (1. - sample[0]);
         } else {
             phi = (self.alpha_y / self.alpha_x * (2. * PI * sample[1] + 0.5 * PI).tan()).atan();
             if sample[1] > 0.5 {
@@ -55,11 +54,12 @@ impl MicrofacetDistribution {
             let alpha_x_2 = self.alpha_x * self.alpha_x;
             let alpha_y_2 = self.alpha_y * self.alpha_y;
             let alpha_2 = 1. / (cos_phi * cos_phi / alpha_x_2 + sin_phi * sin_phi / alpha_y_2);
-            let tan_theta_2 = alpha_2 * sample[0] / (1. - sample[0]);
-            cos_theta = 1. / (1. + tan_theta_2).sqrt();
+            tan_theta_2 = alpha_2 * sample[0] / (1. - sample[0]);
         }
 
-        let sin_theta = (1. - cos_theta * cos_theta).max(0.).sqrt();
+        // the sine does not follow from a cosine rounded to one
+        let cos_theta = 1. / (1. + tan_theta_2).sqrt();
+        let sin_theta = (tan_theta_2 / (1. + tan_theta_2)).sqrt();
 
         let mut wh = Vector3f::from_spherical_direction(sin_theta, cos_theta, phi);
         if !same_hemisphere(wo, wh) {
-- 
2.43.0


From 1e2ea3e190fdafb3f92aa23b39ee0b7342aae597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 27/28] fix: negative reflection of conductors whose index is
 matched

---
 src/fresnel.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fresnel.rs b/src/fresnel.rs
index 0162acd..08c4ea2 100644
--- a/src/fresnel.rs
+++ b/src/fresnel.rs
@@ -101,5 +101,6 @@ fn fr_conductor(mut cos_theta_i: f32, eta_i: Spectrum, eta_t: Spectrum, k: Spect
     let t4 = t2 * sin_theta_i_2;
     let r_parl = r_perp * (t3 - t4) / (t3 + t4);
 
-    return (r_parl + r_perp) * 0.5;
+    // rounding leaves less than nothing where the indices match
+    return ((r_parl + r_perp) * 0.5).clamp(0., 1.);
 }
-- 
2.43.0


From fe0ac20ac26a96a1d62be323e6a7d9495eb07f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:12 +0000
Subject: [PATCH 28/28] fix: distant lights shone through what is at the far
 end of a scene

---
 src/light.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index bd292e0..b44c209 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -65,7 +65,7 @@ impl Light for DistantLight {
         let vis = VisibilityTester {
             p0: ref_i.clone(),
             p1: Interaction {
-                p: ref_i.p + self.w_light * (2. * self.world_radius), // A point outside the scene
+                p: ref_i.p + self.w_light * (3. * self.world_radius), // A point outside the scene, whatever a shadow ray leaves out at its end
                 ..Default::default()
             },
         };
-- 
2.43.0

