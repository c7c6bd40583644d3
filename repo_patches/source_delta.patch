From 9d7e0b55a39969162d7c9cebea29113e2a072452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:32 +0000
Subject: [PATCH 1/2] fix: keep the box intact when a union fails half-way

AxisAlignedBBox::get_union reset the receiver before reading the bounds, so a
bound that panics or is of an unsupported type left it inverted/partial.
---
 lib/bound.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/bound.rs b/lib/bound.rs
index 5a3e473..1543b73 100644
--- a/lib/bound.rs
+++ b/lib/bound.rs
@@ -144,8 +144,9 @@ impl IBound for AxisAlignedBBox {
         arr
     }
     fn get_union(&mut self, bounds: &[&dyn IBound]) {
-        self._bound_lower = [f64::INFINITY; 3];
-        self._bound_upper = [f64::NEG_INFINITY; 3];
+        //accumulate locally: self stays intact if a bound fails or is unsupported
+        let mut lower = [f64::INFINITY; 3];
+        let mut upper = [f64::NEG_INFINITY; 3];
         for i in bounds {
             match i.get_type() {
                 BoundType::AxisAlignBox => (),
@@ -157,10 +158,12 @@ impl IBound for AxisAlignedBBox {
             let b_lower = &b[0..3];
             let b_upper = &b[3..6];
             for j in 0..3 {
-                self._bound_lower[j] = self._bound_lower[j].min(b_lower[j]);
-                self._bound_upper[j] = self._bound_upper[j].max(b_upper[j]);
+                lower[j] = lower[j].min(b_lower[j]);
+                upper[j] = upper[j].max(b_upper[j]);
             }
         }
+        self._bound_lower = lower;
+        self._bound_upper = upper;
     }
     fn get_centroid(&self) -> [f64; 3] {
         match self.get_type() {
-- 
2.43.0


From ad49e18885a326c392c89c0f867cf0e0874a2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 2/2] fix: end a GJK query that cycles or gets no support point

query_intersect looped for ever when a support point changed during the query
and left a stale vertex in the simplex, and panicked on a missing support
point. Limit the rounds and report no answer in both cases.
---
 lib/intersect_gjk.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 2959cff..b601d9b 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -3,6 +3,9 @@
 use i_shape::{IShape, ShapeType};
 use mat::Mat3x1;
 
+//upper limit for search directions tried by a query
+const MAX_ROUNDS: usize = 256;
+
 fn support(a: &dyn IShape, b: &dyn IShape, v: &Mat3x1<f64>) -> Option<Mat3x1<f64>> {
     let p0 = match a.get_support(&v) {
         Some(o) => o,
@@ -78,15 +81,21 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
     };
     let mut simplex = vec![];
     {
-        let sup = support(a, b, &d).unwrap();
+        let sup = match support(a, b, &d) {
+            Some(o) => o,
+            _ => return None,
+        };
         simplex.push(sup);
     }
 
     d = d.scale(-1f64).unwrap();
-    loop {
+    for _ in 0..MAX_ROUNDS {
         // println!( "support vector: {:?}", d );
         {
-            let sup = support(a, b, &d).unwrap();
+            let sup = match support(a, b, &d) {
+                Some(o) => o,
+                _ => return None,
+            };
             simplex.push(sup);
         }
         assert!(simplex.len() <= 3, "simplex vertices count unexpected");
@@ -100,4 +109,6 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
             }
         }
     }
+    //the search cycles, there is no answer
+    None
 }
-- 
2.43.0

