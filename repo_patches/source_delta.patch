From 5fb41bd6d784bc633ed5f69ea31af542a4a153c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 01/26] hooks: cfg(pt_verif) access to internal modules and
 film state

---
 src/film.rs       |  8 ++++++++
 src/integrator.rs | 11 +++++++++++
 src/lib.rs        | 42 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 61 insertions(+)

diff --git a/src/film.rs b/src/film.rs
index c967f36..efae82c 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -106,6 +106,14 @@ impl Film {
     }
 }
 
+#[cfg(pt_verif)]
+impl Film {
+    /// Weighted colour sum and weight sum of every pixel in row order.
+    pub fn verif_pixels(&self) -> Vec<(Spectrum, f32)> {
+        self.pixels.lock().unwrap().iter().map(|p| (p.color, p.filter_weight_sum)).collect()
+    }
+}
+
 pub struct FilmTile {
     bbox: BBox2i,
     filter_radius: f32,
diff --git a/src/integrator.rs b/src/integrator.rs
index 2f97e55..1cdc6f2 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -82,6 +82,17 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
     }
 }
 
+#[cfg(pt_verif)]
+impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'static + Camera, S: 'static + Sampler {
+    pub fn verif_film(&self) -> Arc<Film> {
+        self.film.clone()
+    }
+
+    pub fn verif_scene(&self) -> Arc<Scene<Co>> {
+        self.scene.clone()
+    }
+}
+
 struct IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'static + Camera {
     scene: Arc<Scene<Co>>,
     camera: Cam,
diff --git a/src/lib.rs b/src/lib.rs
index 54aad5e..65a47b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 #[macro_use] mod vector_macro;
 #[allow(dead_code, unused_variables)] mod axis;
 #[allow(dead_code, unused_variables)] mod bbox;
@@ -40,3 +41,44 @@
 #[allow(dead_code, unused_variables)] mod transform;
 #[allow(dead_code, unused_variables)] mod vector;
 pub mod api;
+
+/// Access to internal modules for runtime monitoring, see `--cfg pt_verif`.
+#[cfg(pt_verif)]
+#[allow(unused_imports)]
+pub mod verif {
+    pub mod axis { pub use ::axis::*; }
+    pub mod bbox { pub use ::bbox::*; }
+    pub mod bxdf_lambertian_reflection { pub use ::bxdf_lambertian_reflection::*; }
+    pub mod bxdf_microfacet_reflection { pub use ::bxdf_microfacet_reflection::*; }
+    pub mod bxdf_microfacet_transmission { pub use ::bxdf_microfacet_transmission::*; }
+    pub mod bxdf_specular_reflection { pub use ::bxdf_specular_reflection::*; }
+    pub mod bxdf_specular_transmission { pub use ::bxdf_specular_transmission::*; }
+    pub mod camera { pub use ::camera::*; }
+    pub mod common { pub use ::common::*; }
+    pub mod container { pub use ::container::*; }
+    pub mod container_kdtree { pub use ::container_kdtree::*; }
+    pub mod container_simple { pub use ::container_simple::*; }
+    pub mod film { pub use ::film::*; }
+    pub mod filter { pub use ::filter::*; }
+    pub mod fresnel { pub use ::fresnel::*; }
+    pub mod integrator { pub use ::integrator::*; }
+    pub mod interaction { pub use ::interaction::*; }
+    pub mod light { pub use ::light::*; }
+    pub mod material { pub use ::material::*; }
+    pub mod matrix { pub use ::matrix::*; }
+    pub mod microfacet { pub use ::microfacet::*; }
+    pub mod ray { pub use ::ray::*; }
+    pub mod reflection { pub use ::reflection::*; }
+    pub mod sampler { pub use ::sampler::*; }
+    pub mod sampler_halton { pub use ::sampler_halton::*; }
+    pub mod sampler_random { pub use ::sampler_random::*; }
+    pub mod sampling { pub use ::sampling::*; }
+    pub mod scene { pub use ::scene::*; }
+    pub mod shape { pub use ::shape::*; }
+    pub mod shape_sphere { pub use ::shape_sphere::*; }
+    pub mod shape_triangle { pub use ::shape_triangle::*; }
+    pub mod spectrum { pub use ::spectrum::*; }
+    pub mod texture { pub use ::texture::*; }
+    pub mod transform { pub use ::transform::*; }
+    pub mod vector { pub use ::vector::*; }
+}
-- 
2.43.0


From b02435d552a21320decaa02103efcc342fd1e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 02/26] hooks: separate cfg for film state access

---
 src/film.rs       | 2 +-
 src/integrator.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/film.rs b/src/film.rs
index efae82c..cadb48f 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -106,7 +106,7 @@ impl Film {
     }
 }
 
-#[cfg(pt_verif)]
+#[cfg(pt_verif_film)]
 impl Film {
     /// Weighted colour sum and weight sum of every pixel in row order.
     pub fn verif_pixels(&self) -> Vec<(Spectrum, f32)> {
diff --git a/src/integrator.rs b/src/integrator.rs
index 1cdc6f2..f3c9fcc 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -82,7 +82,7 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
     }
 }
 
-#[cfg(pt_verif)]
+#[cfg(pt_verif_film)]
 impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'static + Camera, S: 'static + Sampler {
     pub fn verif_film(&self) -> Arc<Film> {
         self.film.clone()
-- 
2.43.0


From f473a2404b302872640e1cb4170150b0fc420753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 03/26] fix: write the nearest 8-bit value to the PPM image

Adding 0.5 and then rounding shifted about half of all channel values up
by one, so a black pixel was written as 1.
---
 src/film.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/film.rs b/src/film.rs
index cadb48f..26a24c8 100644
--- a/src/film.rs
+++ b/src/film.rs
@@ -93,7 +93,7 @@ impl Film {
         for p in pixels.iter() {
             let mut color = p.color;
             for i in 0..3 {
-                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.).round();
+                color[i] = clamp(gamma_correct(color[i] / p.filter_weight_sum) * 255. + 0.5, 0., 255.);
             }
             let Spectrum { r, g, b } = color;
             file.write_all(format!(
-- 
2.43.0


From 22e84686ecf69d23325efb916143a162274e3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 04/26] fix: truncate output.ppm and report errors of its last
 write

An existing longer output.ppm kept its tail after the image, and an error
writing the last buffered block was dropped with the BufWriter.
---
 src/integrator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index f3c9fcc..9baee54 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -1,6 +1,6 @@
 use std::cmp::min;
 use std::fs::OpenOptions;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
 
@@ -75,10 +75,12 @@ impl<Co, Cam, S> Integrator<Co, Cam, S> where Co: 'static + Container, Cam: 'sta
             OpenOptions::new()
                 .write(true)
                 .create(true)
+                .truncate(true)
                 .open("output.ppm")
                 .unwrap()
         );
         self.film.write_image_ppm(&mut file);
+        file.flush().unwrap();
     }
 }
 
-- 
2.43.0


From 43a6130789600607d746b8f0848ded746ab4fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 05/26] fix: do not drop nearer kd-tree nodes for rays lying in
 a split plane

For such a ray both children of the split cover the whole extent, so the
stack is not ordered and the traversal must not stop at the first node
that begins behind the ray's end.
---
 src/container_kdtree.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/container_kdtree.rs b/src/container_kdtree.rs
index 2e4bdcb..3d43249 100644
--- a/src/container_kdtree.rs
+++ b/src/container_kdtree.rs
@@ -224,12 +224,20 @@ impl Container for KdTree {
                 return false;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
-                break;
+                // The remaining nodes may be nearer if the ray lies in a split plane
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                } else {
+                    break;
+                }
             }
 
             let node = &self.nodes[node_i];
@@ -306,13 +314,21 @@ impl Container for KdTree {
                 return None;
             };
 
-        let mut todos = Vec::new();
+        let mut todos: Vec<Todo> = Vec::new();
 
         let mut interaction = None;
         let mut node_i = 0;
         loop {
             if ray.t_max < t_min {
-                break;
+                // The remaining nodes may be nearer if the ray lies in a split plane
+                if let Some(todo) = todos.pop() {
+                    node_i = todo.node;
+                    t_min = todo.t_min;
+                    t_max = todo.t_max;
+                    continue;
+                } else {
+                    break;
+                }
             }
 
             let node = &self.nodes[node_i];
-- 
2.43.0


From d69bfc2f517f439db0b029b9ba7b157e6bd79968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 06/26] fix: use the geometric normal where interpolated vertex
 normals cancel

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index ada87d5..b4cf146 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -238,7 +238,7 @@ impl Shape for Triangle {
                + vertex_normals[1] * b1
                + vertex_normals[2] * b2;
             let len = sn.length();
-            if len >= 0. {
+            if len > 0. {
                 sn /= len;
             } else {
                 sn = n;
-- 
2.43.0


From b472dba9121343349df667d5afda2568a666a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 07/26] fix: finite tangents at the poles of a sphere

---
 src/shape_sphere.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shape_sphere.rs b/src/shape_sphere.rs
index 417b457..37d67d1 100644
--- a/src/shape_sphere.rs
+++ b/src/shape_sphere.rs
@@ -55,7 +55,13 @@ impl Sphere {
     }
 
     // return dpdu, dpdv
-    fn compute_partial_derivative(&self, Point3f { x, y, z }: Point3f) -> (Vector3f, Vector3f) {
+    fn compute_partial_derivative(&self, Point3f { mut x, mut y, z }: Point3f) -> (Vector3f, Vector3f) {
+        // phi is arbitrary at the poles
+        if x.abs().max(y.abs()) < 1e-5 * self.radius {
+            x = 1e-5 * self.radius;
+            y = 0.;
+        }
+
         let dpdu = Vector3f::new(
             -2. * PI * y,
             2. * PI * x,
-- 
2.43.0


From d154f1f2578659870a305126b05d788ecfce0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 08/26] fix: tangents of a triangle whose shading normal lies
 along dpdu

---
 src/shape_triangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index b4cf146..9a6130d 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -247,7 +247,7 @@ impl Shape for Triangle {
             dpdu = dpdu.normalize();
             dpdv = dpdu.cross(Vector3f::from(sn));
             let len = dpdv.length();
-            if len > 0. {
+            if len > 1e-4 { // otherwise dpdu is parallel to sn up to rounding
                 dpdv /= len;
                 dpdu = dpdv.cross(Vector3f::from(sn));
             } else {
-- 
2.43.0


From 88f1250ef866db9123a94e5e39a9a2328c3629a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 09/26] fix: ray with a negative zero component meets the box
 it passes along

On a face of the box, 0 / -0 and -inf made the interval empty.
---
 src/bbox.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 6874096..49ff272 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -88,8 +88,9 @@ impl BBox3f {
         let mut axis = Axis::X;
         for _ in 0..3 {
             // t_near and t_far could be NaN or Infinity
-            let mut t_near = (self.min[axis] - ray.origin[axis]) / ray.direction[axis];
-            let mut t_far  = (self.max[axis] - ray.origin[axis]) / ray.direction[axis];
+            let direction = ray.direction[axis] + 0.; // -0 would flip the infinities
+            let mut t_near = (self.min[axis] - ray.origin[axis]) / direction;
+            let mut t_far  = (self.max[axis] - ray.origin[axis]) / direction;
             if t_near > t_far {
                 swap(&mut t_near, &mut t_far);
             }
-- 
2.43.0


From 71f2f39765f432dfe697ca2c90e8297de14cc064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 10/26] fix: transform all corners of a bounding box

---
 src/transform.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1be8cf1..f1241db 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -231,10 +231,18 @@ impl Transformable for Point3f {
 
 impl Transformable for BBox3f {
     fn _transform(&self, m: &Matrix, m_inv: &Matrix) -> BBox3f {
-        BBox3f::new(
-            self.min._transform(m, m_inv),
-            self.max._transform(m, m_inv),
-        )
+        let (min, max) = (self.min, self.max);
+        let p = min._transform(m, m_inv);
+        let mut bbox = BBox3f::new(p, p);
+        for i in 1..8 {
+            let corner = Point3f::new(
+                if i & 1 == 0 { min.x } else { max.x },
+                if i & 2 == 0 { min.y } else { max.y },
+                if i & 4 == 0 { min.z } else { max.z },
+            );
+            bbox = bbox.union_point(corner._transform(m, m_inv));
+        }
+        return bbox;
     }
 }
 
-- 
2.43.0


From 32234be91bc5bda3178d2a1e23c974e2fc08cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 11/26] fix: multiplicative inverse of the Halton sampler for
 negative coefficients

---
 src/sampler_halton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 96557bf..8655a99 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -1194,7 +1194,7 @@ fn inverse_radical_inverse(base: u32, mut a: u32, n_digits: u32) -> u32 {
 
 fn multiplicative_inverse(a: u32, n: u32) -> u32 {
     let (x, _) = extended_gcd(a, n);
-    return x.abs() as u32 % n;
+    return ((x % n as i64 + n as i64) % n as i64) as u32;
 }
 
 // Extended Euclidean algorithm
-- 
2.43.0


From 9a23a4b0911a1f6166abf12607279d1ab9003caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 12/26] fix: overflow of radical inverse and sample index in
 the Halton sampler

---
 src/sampler_halton.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sampler_halton.rs b/src/sampler_halton.rs
index 8655a99..266e43d 100644
--- a/src/sampler_halton.rs
+++ b/src/sampler_halton.rs
@@ -20,7 +20,7 @@ pub struct HaltonSampler {
     // Next dimension
     dimension: u32,
     // Index of sample in current pixel
-    interval_sample_index: u32,
+    interval_sample_index: u64,
 
     // Halton sampler
     base_scale: Point2u,
@@ -72,7 +72,7 @@ impl HaltonSampler {
     }
 
     /// Return index to the sample in the overall set of samples based on current pixel and sample index.
-    fn get_index_for_sample(&mut self) -> u32 {
+    fn get_index_for_sample(&mut self) -> u64 {
         if self.pixel_for_offset != self.current_pixel {
             self.offset_for_current_pixel = 0;
             if self.sample_stride > 1 {
@@ -91,14 +91,14 @@ impl HaltonSampler {
 
             self.pixel_for_offset = self.current_pixel;
         }
-        return self.offset_for_current_pixel + self.current_pixel_sample_index * self.sample_stride;
+        return self.offset_for_current_pixel as u64 + self.current_pixel_sample_index as u64 * self.sample_stride as u64;
     }
 
     /// Return sample value for the given dimension of the indexth sample in the overall set of samples.
-    fn sample_dimension(&self, index: u32, d: u32) -> f32 {
+    fn sample_dimension(&self, index: u64, d: u32) -> f32 {
         match d {
             0 => radical_inverse_prime(0, index >> self.base_exp.x),
-            1 => radical_inverse_prime(1, index / self.base_scale.y),
+            1 => radical_inverse_prime(1, index / self.base_scale.y as u64),
             _ => radical_inverse_prime(d, index),
         }
     }
@@ -141,7 +141,7 @@ impl Sampler for HaltonSampler {
     }
 }
 
-fn radical_inverse(base: u32, mut a: u32) -> f32 {
+fn radical_inverse(base: u64, mut a: u64) -> f32 {
     let mut x = 0;
     let mut base_n = 1;
     while a > 0 {
@@ -152,7 +152,7 @@ fn radical_inverse(base: u32, mut a: u32) -> f32 {
     return ONE_MINUS_EPSILON.min(x as f32 / base_n as f32);
 }
 
-fn radical_inverse_prime(base_index: u32, a: u32) -> f32 {
+fn radical_inverse_prime(base_index: u32, a: u64) -> f32 {
     match base_index {
         00 => radical_inverse(2, a),
         01 => radical_inverse(3, a),
-- 
2.43.0


From e05f0fb3d1d8515f471114255893db1b46962589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 13/26] fix: give clones of RandomSampler their own random
 numbers

---
 src/sampler_random.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sampler_random.rs b/src/sampler_random.rs
index e64abf6..2a4f536 100644
--- a/src/sampler_random.rs
+++ b/src/sampler_random.rs
@@ -4,7 +4,6 @@ use self::rand::{Rng, StdRng};
 use sampler::Sampler;
 use vector::{Point2i, Point2f};
 
-#[derive(Clone)]
 pub struct RandomSampler {
     // General sampler
     samples_per_pixel: u32,
@@ -23,6 +22,17 @@ impl RandomSampler {
     }
 }
 
+// Clones are used by other threads, they must not repeat the values of the original.
+impl Clone for RandomSampler {
+    fn clone(&self) -> RandomSampler {
+        RandomSampler {
+            samples_per_pixel: self.samples_per_pixel,
+            current_pixel_sample_index: self.current_pixel_sample_index,
+            rng: StdRng::new().unwrap(),
+        }
+    }
+}
+
 impl Sampler for RandomSampler {
     fn start_pixel(&mut self, _: Point2i) {
         self.current_pixel_sample_index = 0;
-- 
2.43.0


From 8ee3f93170a537b7e8bca8872298fcef1cbe5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 14/26] fix: swapped refractive indices of plastic

---
 src/material_plastic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_plastic.rs b/src/material_plastic.rs
index 9b03e89..842311b 100644
--- a/src/material_plastic.rs
+++ b/src/material_plastic.rs
@@ -35,7 +35,7 @@ impl Material for PlasticMaterial {
         }
 
         if !s.is_black() {
-            let fresnel = FresnelDielectric::new(1.5, 1.);
+            let fresnel = FresnelDielectric::new(1., 1.5);
             let rough = self.roughness.evaluate(i);
             if rough == 0. {
                 bsdf.add(SpecularReflectionBRDF::new(s, fresnel));
-- 
2.43.0


From 5fc54d45eb2de7e066613508c85d56f445e642b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 15/26] fix: directions not refracted by any microfacet of
 rough glass

---
 src/bxdf_microfacet_transmission.rs | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/bxdf_microfacet_transmission.rs b/src/bxdf_microfacet_transmission.rs
index 3bc83b7..e4a9e8c 100644
--- a/src/bxdf_microfacet_transmission.rs
+++ b/src/bxdf_microfacet_transmission.rs
@@ -46,10 +46,11 @@ impl BxDF for MicrofacetTransmissionBTDF {
         } else {
             self.eta_a / self.eta_b
         };
-        let mut wh = (wo + wi * eta).normalize();
-        if wh.z < 0. {
-            wh *= -1.;
+        let wh = half_vector(wo, wi, eta);
+        if wh.is_none() {
+            return Spectrum::default();
         }
+        let wh = wh.unwrap();
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
@@ -64,6 +65,9 @@ impl BxDF for MicrofacetTransmissionBTDF {
         }
 
         let wh = self.distribution.sample_wh(wo, sample);
+        if wo.dot(wh) <= 0. { // microfacet seen from behind
+            return Default::default();
+        }
         let eta = if cos_theta(wo) > 0. {
             self.eta_a / self.eta_b
         } else {
@@ -91,10 +95,28 @@ impl BxDF for MicrofacetTransmissionBTDF {
         } else {
             self.eta_a / self.eta_b
         };
-        let wh = (wo + wi * eta).normalize();
+        let wh = half_vector(wo, wi, eta);
+        if wh.is_none() {
+            return 0.;
+        }
+        let wh = wh.unwrap();
 
         let sqrt_denom = wo.dot(wh) + wi.dot(wh) * eta;
         let dwh_dwi = (wi.dot(wh) * eta * eta / sqrt_denom.powi(2)).abs();
         return self.distribution.pdf(wo, wh) * dwh_dwi;
     }
 }
+
+/// Return normal of the microfacet refracting wo to wi.
+/// Return None if wo and wi are not on opposite sides of it or if either of them meets its back.
+fn half_vector(wo: Vector3f, wi: Vector3f, eta: f32) -> Option<Vector3f> {
+    let mut wh = (wo + wi * eta).normalize();
+    if wh.z < 0. {
+        wh *= -1.;
+    }
+    if wo.dot(wh) * cos_theta(wo) > 0. && wi.dot(wh) * cos_theta(wi) > 0. {
+        Some(wh)
+    } else {
+        None
+    }
+}
-- 
2.43.0


From 74c29504f91d8873355b9dcb0ce54ef742512de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 16/26] fix: Fresnel term of rough reflection inside glass

---
 src/bxdf_microfacet_reflection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bxdf_microfacet_reflection.rs b/src/bxdf_microfacet_reflection.rs
index ceefc3e..e90f4d3 100644
--- a/src/bxdf_microfacet_reflection.rs
+++ b/src/bxdf_microfacet_reflection.rs
@@ -38,7 +38,9 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
 
         let d = self.distribution.d(wh);
         let g = self.distribution.g(wo, wi);
-        let f = self.fresnel.evaluate(wh.dot(wi));
+        // orient wh towards the side of the normal, Fresnel depends on the side of wi
+        let cos_theta_h = if wh.z < 0. { -wh.dot(wi) } else { wh.dot(wi) };
+        let f = self.fresnel.evaluate(cos_theta_h);
         return self.r * d * g * f
             / (4. * cos_theta_o * cos_theta_i);
     }
-- 
2.43.0


From 9ff4f01cb0745ea76bfaa2e0e5cefc0d9d37da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 17/26] fix: sampled value of a single lobe on the wrong side
 of the surface

---
 src/reflection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflection.rs b/src/reflection.rs
index e01137b..f14ccd4 100644
--- a/src/reflection.rs
+++ b/src/reflection.rs
@@ -119,7 +119,7 @@ impl BSDF {
         }
         let wi_w = self.local_to_world(wi);
 
-        if !bxdf.has_flag(SPECULAR) && n_bxdfs > 1 {
+        if !bxdf.has_flag(SPECULAR) {
             for i in 0..n_bxdfs {
                 if i != n_bxdf {
                     pdf += self.bxdfs[i].pdf(wo, wi);
-- 
2.43.0


From 26a0cf2f048e167ea4308ed99142a7613df14a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 18/26] fix: density of sampled microfacet normals

---
 src/microfacet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index 2c4573e..fa632a3 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -76,6 +76,6 @@ impl MicrofacetDistribution {
     }
 
     pub fn pdf(&self, wo: Vector3f, wh: Vector3f) -> f32 {
-        self.d(wh) / abs_cos_theta(wh)
+        self.d(wh) * abs_cos_theta(wh)
     }
 }
-- 
2.43.0


From 01e566f50bbe20ace64ec3a14acc44931e294b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 19/26] fix: negative density of rough reflection at grazing
 angles

---
 src/bxdf_microfacet_reflection.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bxdf_microfacet_reflection.rs b/src/bxdf_microfacet_reflection.rs
index e90f4d3..47fae74 100644
--- a/src/bxdf_microfacet_reflection.rs
+++ b/src/bxdf_microfacet_reflection.rs
@@ -57,7 +57,7 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
         }
 
         let f = self.f(wo, wi);
-        let pdf = self.distribution.pdf(wo, wh) / (wh.dot(wo) * 4.);
+        let pdf = self.pdf(wo, wi);
 
         return (wi, f, pdf);
     }
@@ -66,7 +66,12 @@ impl<T> BxDF for MicrofacetReflectionBRDF<T> where T: Fresnel {
         if !same_hemisphere(wo, wi) {
             return 0.;
         }
-        let wh = (wo + wi).normalize();
-        return self.distribution.pdf(wo, wh) / (wh.dot(wo) * 4.);
+        let wh = wo + wi;
+        let wh_length = wh.length();
+        if wh_length == 0. {
+            return 0.;
+        }
+        // wo.dot(wh) is half the length of wo + wi, the dot product may be negative when wo is close to -wi
+        return self.distribution.pdf(wo, wh / wh_length) / (wh_length * 2.);
     }
 }
-- 
2.43.0


From 90dc6bce7c21ad10697027b7899a71ae53229015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 20/26] fix: NaN of the microfacet distribution for normals
 near the horizon

---
 src/microfacet.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/microfacet.rs b/src/microfacet.rs
index fa632a3..58ad15e 100644
--- a/src/microfacet.rs
+++ b/src/microfacet.rs
@@ -19,11 +19,10 @@ impl MicrofacetDistribution {
         if tan_2_theta.is_infinite() {
             return 0.;
         }
-        let cos_4_theta = cos_2_theta(wh).powi(2);
         let e = (cos_2_phi(wh) / self.alpha_x.powi(2) + sin_2_phi(wh) / self.alpha_y.powi(2))
               * tan_2_theta;
         return 1.
-            / (PI * self.alpha_x * self.alpha_y * cos_4_theta * (1. + e).powi(2));
+            / (PI * self.alpha_x * self.alpha_y * (cos_2_theta(wh) * (1. + e)).powi(2));
     }
 
     /// Invisible masked microfacet area per visible microfacet area.
-- 
2.43.0


From 860e0f7e39c0abaf8d44aa643256e5388dc6e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 21/26] fix: light seen through a specular bounce was counted
 twice

---
 src/integrator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index 9baee54..adfbb67 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -159,16 +159,14 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
         if !light.is_delta() {
             let (wi, mut f, scattering_pdf, bxdf_flag) = bsdf.sample_f(i.wo, sample1);
             f *= wi.dot_n(i.sn).abs();
+            // light reached through a specular bounce is added by li()
             let sampled_specular = bxdf_flag & SPECULAR != 0;
-            if scattering_pdf > 0. && !f.is_black() {
-                let mut weight = 1.;
-                if !sampled_specular {
-                    let light_pdf = light.pdf_li(i, wi);
-                    if light_pdf == 0. {
-                        return ld;
-                    }
-                    weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
+            if scattering_pdf > 0. && !f.is_black() && !sampled_specular {
+                let light_pdf = light.pdf_li(i, wi);
+                if light_pdf == 0. {
+                    return ld;
                 }
+                let weight = power_heuristic(1, scattering_pdf, 1, light_pdf);
 
                 let ray = i.spawn_ray(wi);
                 let light_i = self.scene.intersect(&ray);
-- 
2.43.0


From 04e7b5c2e1260fb6331640fa852236c7c0c8838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 22/26] fix: density of area lights per solid angle

---
 src/shape.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index ce32b2a..f4219b8 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -32,8 +32,16 @@ pub trait Shape : Sync + Send {
         self.sample(sample)
     }
 
+    /// Return the density per solid angle of sample_ref choosing a point in direction wi from ref_i.
     fn pdf(&self, ref_i: &Interaction, wi: Vector3f) -> f32 {
-        1. / self.area()
+        if let Some((i, _)) = self.intersect(&ref_i.spawn_ray(wi)) {
+            let d = i.p - ref_i.p;
+            let projected_area = wi.dot_n(i.n).abs() * self.area();
+            if projected_area > 0. {
+                return d.dot(d) / projected_area;
+            }
+        }
+        return 0.;
     }
 
     fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum {
-- 
2.43.0


From d918ef8f40af0195d437cd4f9b739e8c195d263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 23/26] fix: orientation of points sampled on triangles with
 vertex normals

---
 src/shape_triangle.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/shape_triangle.rs b/src/shape_triangle.rs
index 9a6130d..14b4f9a 100644
--- a/src/shape_triangle.rs
+++ b/src/shape_triangle.rs
@@ -304,8 +304,19 @@ impl Shape for Triangle {
                       + (vs_o[2] * b2).abs();
         let p_err = Vector3f::from(p_abs_sum) * gamma(7.);
 
+        // same orientation as in intersect
         let mut n = Normal3f::from((vs_o[1] - vs_o[0]).cross(vs_o[2] - vs_o[0]).normalize());
+        let mut sn = if let Some(vertex_normals) = self.vertex_normals {
+            vertex_normals[0] * b0
+            + vertex_normals[1] * b1
+            + vertex_normals[2] * b2
+        } else {
+            n
+        };
         if self.reverse_orientation {
+            sn *= -1.;
+        }
+        if n.dot(sn) < 0. {
             n *= -1.;
         }
 
-- 
2.43.0


From 0ebf8b6b5bbc6d671acbbeccbcf78d0d11d83a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 24/26] fix: shadow rays to distant lights ended short of the
 far corner of the scene

---
 src/light.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index bd292e0..7248bb7 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -65,7 +65,7 @@ impl Light for DistantLight {
         let vis = VisibilityTester {
             p0: ref_i.clone(),
             p1: Interaction {
-                p: ref_i.p + self.w_light * (2. * self.world_radius), // A point outside the scene
+                p: ref_i.p + self.w_light * (3. * self.world_radius), // A point outside the scene
                 ..Default::default()
             },
         };
-- 
2.43.0


From 392740530e284e55fe42729fe1f720a7cd07dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 25/26] fix: a path of zero throughput could pass the roulette
 and divide zero by zero

---
 src/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator.rs b/src/integrator.rs
index adfbb67..92b8521 100644
--- a/src/integrator.rs
+++ b/src/integrator.rs
@@ -231,7 +231,7 @@ impl<Co, Cam> IntegratorLocal<Co, Cam> where Co: 'static + Container, Cam: 'stat
             bounces += 1;
             if bounces > 3 {
                 let q = beta.y().min(0.95);
-                if sampler.get_1d() > q {
+                if sampler.get_1d() >= q {
                     break;
                 }
                 beta /= q;
-- 
2.43.0


From 4c009b1eeb2e78d72373d0003f319c2644e8e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 26/26] fix: kd-tree: visit both children where rounding may
 move a hit across the split plane

Triangles that share an edge in a split plane are kept on different sides of
it. A ray through that edge may, after rounding, be accepted only by the
triangle on the side that the traversal had ruled out, so that it passed
between the two. Bound the position error and prune with that margin.
---
 src/container_kdtree.rs | 49 ++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/container_kdtree.rs b/src/container_kdtree.rs
index 3d43249..0e8cfbf 100644
--- a/src/container_kdtree.rs
+++ b/src/container_kdtree.rs
@@ -3,7 +3,7 @@ use std::sync::Arc;
 
 use axis::Axis;
 use bbox::BBox3f;
-use common::FLOAT_MAX;
+use common::{FLOAT_MAX, gamma};
 use container::Container;
 use interaction::Interaction;
 use ray::Ray;
@@ -196,6 +196,13 @@ impl KdTree {
         self.nodes[split_node_index] = Node::Split(best_axis, t, self.nodes.len());
         self.build(shapes_above.into_boxed_slice(), bbox_above, bad_refines, depth - 1);
     }
+
+    /// Bound of the error of hit positions. A shape may be hit that far beyond a split plane it ends at.
+    fn position_error(&self, ray: &Ray) -> f32 {
+        let near = (self.bbox.min - ray.origin).abs().max_component();
+        let far = (self.bbox.max - ray.origin).abs().max_component();
+        return gamma(16.) * near.max(far);
+    }
 }
 
 impl Container for KdTree {
@@ -224,6 +231,8 @@ impl Container for KdTree {
                 return false;
             };
 
+        let err = self.position_error(&ray);
+
         let mut todos: Vec<Todo> = Vec::new();
 
         let mut node_i = 0;
@@ -242,23 +251,27 @@ impl Container for KdTree {
 
             let node = &self.nodes[node_i];
             if let &Node::Split(axis, t, above_index) = node {
-                let t_split = (t - ray.origin[axis]) / ray.direction[axis];
-
+                let direction = ray.direction[axis] + 0.; // -0 would flip the infinities
                 let (child_1, child_2) =
-                    if ray.origin[axis] < t || ray.origin[axis] == t && ray.direction[axis] <= 0. {
+                    if direction >= 0. {
                         (node_i + 1, above_index)
                     } else {
                         (above_index, node_i + 1)
                     };
 
-                if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
+                // ray goes from child_1 to child_2 between t_near and t_far
+                let t_a = (t - ray.origin[axis] - err) / direction;
+                let t_b = (t - ray.origin[axis] + err) / direction;
+                let (t_near, t_far) = (t_a.min(t_b), t_a.max(t_b));
+
+                if t_near > t_max {       // ray does not intersect child_2
                     node_i = child_1;
-                } else if t_split < t_min {           // ray does not intersect child_1
+                } else if t_far < t_min { // ray does not intersect child_1
                     node_i = child_2;
                 } else {
-                    todos.push(Todo::new(child_2, t_split, t_max));
+                    todos.push(Todo::new(child_2, t_min.max(t_near), t_max));
                     node_i = child_1;
-                    t_max = t_split;
+                    t_max = t_max.min(t_far);
                 }
             } else {
                 match node {
@@ -314,6 +327,8 @@ impl Container for KdTree {
                 return None;
             };
 
+        let err = self.position_error(&ray);
+
         let mut todos: Vec<Todo> = Vec::new();
 
         let mut interaction = None;
@@ -333,23 +348,27 @@ impl Container for KdTree {
 
             let node = &self.nodes[node_i];
             if let &Node::Split(axis, t, above_index) = node {
-                let t_split = (t - ray.origin[axis]) / ray.direction[axis];
-
+                let direction = ray.direction[axis] + 0.; // -0 would flip the infinities
                 let (child_1, child_2) =
-                    if ray.origin[axis] < t || ray.origin[axis] == t && ray.direction[axis] <= 0. {
+                    if direction >= 0. {
                         (node_i + 1, above_index)
                     } else {
                         (above_index, node_i + 1)
                     };
 
-                if t_split > t_max || t_split <= 0. { // ray does not intersect child_2
+                // ray goes from child_1 to child_2 between t_near and t_far
+                let t_a = (t - ray.origin[axis] - err) / direction;
+                let t_b = (t - ray.origin[axis] + err) / direction;
+                let (t_near, t_far) = (t_a.min(t_b), t_a.max(t_b));
+
+                if t_near > t_max {       // ray does not intersect child_2
                     node_i = child_1;
-                } else if t_split < t_min {           // ray does not intersect child_1
+                } else if t_far < t_min { // ray does not intersect child_1
                     node_i = child_2;
                 } else {
-                    todos.push(Todo::new(child_2, t_split, t_max));
+                    todos.push(Todo::new(child_2, t_min.max(t_near), t_max));
                     node_i = child_1;
-                    t_max = t_split;
+                    t_max = t_max.min(t_far);
                 }
             } else {
                 match node {
-- 
2.43.0

