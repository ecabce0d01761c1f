From a6b4bcc4bcacb024035c6a9ee4e18b347d09a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 01/43] fix: span_index returned the second span for parameters
 below the first knot

---
 src/knot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knot.rs b/src/knot.rs
index 79d792a..62814a5 100644
--- a/src/knot.rs
+++ b/src/knot.rs
@@ -57,7 +57,7 @@ impl KnotVector {
                 index
             }
         } else {
-            self.multiplicity(0)
+            self.multiplicity(0) - 1
         }
     }
 
-- 
2.43.0


From fc83235235fa78e799ed1dc950966c1750de9faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 02/43] fix: inserting a knot near an unclamped start read
 control point -1 and panicked

---
 src/curve/bspline.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 5dced54..0d66117 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -55,8 +55,13 @@ impl BSplineCurve<Point3> {
             for i in (start..end).rev() {
                 let delta = self.knots[i + p + 1] - self.knots[i];
                 let a = (knot - self.knots[i]) * utils::inv_or_zero(delta);
-                self.control_points[i] =
-                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a;
+                // there is no control point before the first one
+                let prev = if i > 0 {
+                    self.control_points[i - 1]
+                } else {
+                    Point3::ZERO
+                };
+                self.control_points[i] = prev * (1.0 - a) + self.control_points[i] * a;
             }
         }
     }
-- 
2.43.0


From b77dd81d5ebf506bbedbd160840b29d78f80a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 03/43] fix: B-spline projection missed kinks and assumed
 degree 1 knots proportional to arc length; polyline projection overshot
 segments

---
 src/curve/bspline.rs  | 27 +++++++++++++--------------
 src/curve/polyline.rs | 17 +++++++++++------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 0d66117..e0bb611 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -149,21 +149,20 @@ impl Curve for BSplineCurve<Point3> {
     }
 
     fn project(&self, point: Point3) -> Float {
-        if self.degree() == 1 {
-            let ratio = crate::curve::Polyline::new(self.control_points.clone()).project(point);
-            return utils::range_at(self.knots.range(), ratio);
+        // the curve is smooth only between knots, so look for the nearest point span by span
+        let mut knots = self.knots.0.clone();
+        knots.dedup_by(|a, b| a.near(*b));
+        let mut min = Float::MAX;
+        let mut nearest = knots[0];
+        for (bezier, span) in self.to_piecewise_bezier().iter().zip(knots.windows(2)) {
+            let t = bezier.project(point);
+            let distance = bezier.get_point(t).distance_squared(point);
+            if distance < min {
+                min = distance;
+                nearest = utils::range_at((span[0], span[1]), t);
+            }
         }
-        let der1 = self.derivative();
-        let der2 = der1.derivative();
-        utils::find_nearest_parameter(
-            self,
-            &der1,
-            &der2,
-            point,
-            self.knots.range(),
-            self.control_points.len() * 4,
-            10,
-        )
+        nearest
     }
 }
 
diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index a244777..f295b2d 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -49,11 +49,13 @@ impl Curve for Polyline {
                 if length > segment_length {
                     length -= segment_length;
                 } else {
-                    return self.vertices[index]
-                        .lerp(self.vertices[index + 1], length / segment_length);
+                    return self.vertices[index].lerp(
+                        self.vertices[index + 1],
+                        length * utils::inv_or_zero(segment_length),
+                    );
                 }
             }
-            unreachable!()
+            self.end()
         }
     }
 
@@ -69,9 +71,12 @@ impl Curve for Polyline {
             }
         }
 
+        let (start, end) = (self.vertices[min_index], self.vertices[min_index + 1]);
+        let segment_length = self.segment_lengths[min_index];
+        // the nearest point is on the segment, not on its extension
+        let length = (point - start).dot(end - start) * utils::inv_or_zero(segment_length);
         let length = self.segment_lengths.iter().take(min_index).sum::<Float>()
-            + (point - self.vertices[min_index])
-                .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize());
-        (length / self.length).clamp(0.0, 1.0)
+            + length.clamp(0.0, segment_length);
+        (length * utils::inv_or_zero(self.length)).clamp(0.0, 1.0)
     }
 }
-- 
2.43.0


From 8314b3f30b96f8fb8571aa0502e1c2de974d4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 04/43] fix: nearest-parameter Newton iteration ran to farther
 points

---
 src/utils.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9adb3bb..1c7ad23 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -163,8 +163,19 @@ pub fn find_nearest_parameter(
         if f.near(0.0) {
             return u;
         }
+        // a full Newton step may lead to a farther point, so always go downhill and not too far
         let fprime = der2.get_point(u).dot(delta) + tangent.length_squared();
-        u = clamp_in_range(u - f / fprime, range);
+        let mut step = if fprime > 0.0 {
+            f / fprime
+        } else {
+            f / tangent.length_squared()
+        };
+        let mut next = clamp_in_range(u - step, range);
+        while next != u && curve.get_point(next).distance(point) > delta.length() {
+            step *= 0.5;
+            next = clamp_in_range(u - step, range);
+        }
+        u = next;
     }
     u
 }
-- 
2.43.0


From c7b06b182b847c24c9d8389794d1679f734894d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:13 +0000
Subject: [PATCH 05/43] fix: projection onto a line ignored the length of its
 direction

---
 src/curve/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/line.rs b/src/curve/line.rs
index 355bc73..36734d5 100644
--- a/src/curve/line.rs
+++ b/src/curve/line.rs
@@ -13,6 +13,6 @@ impl Curve for Line {
     }
 
     fn project(&self, point: Point3) -> Float {
-        (point - self.origin).dot(self.direction)
+        (point - self.origin).dot(self.direction) / self.direction.length_squared()
     }
 }
-- 
2.43.0


From 1f8811c7bf8e6b128d460ab711441c61ebad0de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 06/43] fix: an arc whose end point is its start point was
 empty instead of the full circle

---
 src/curve/circle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index 216d839..bcd4c0f 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -30,11 +30,12 @@ impl Curve for Circle {
 
     // The sense of a curve is in the direction of increasing parameter
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        // an arc which ends where it starts is the full circle
         let (a0, a1) = range;
-        if same_sense && a0 > a1 {
+        if same_sense && a0 >= a1 {
             return (a0, a1 + crate::consts::TAU);
         }
-        if !same_sense && a0 < a1 {
+        if !same_sense && a0 <= a1 {
             return (a0 + crate::consts::TAU, a1);
         }
         (a0, a1)
-- 
2.43.0


From a90e9a5bfd12366ab5da01f966998c951378897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 07/43] fix: boxed surfaces lost their normals

---
 src/surface.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface.rs b/src/surface.rs
index e9c65b7..1f50a33 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -24,6 +24,10 @@ impl Surface for Box<dyn Surface> {
         self.as_ref().get_point(u, v)
     }
 
+    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
+        self.as_ref().get_normals(params)
+    }
+
     fn trim(&self, bounds: &[EdgeLoop]) -> TriangleMesh {
         self.as_ref().trim(bounds)
     }
-- 
2.43.0


From 19e4b8b3ac8c27863a7334dd0d6d63fdb4abacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 08/43] fix: an edge loop without edges panicked when
 approximated by a polygon

---
 src/surface.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/surface.rs b/src/surface.rs
index 1f50a33..785dbbd 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -83,11 +83,10 @@ impl EdgeLoop {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
-        if vertices[0]
-            .distance_squared(vertices[vertices.len() - 1])
-            .near(0.0)
-        {
-            vertices.pop();
+        if let (Some(first), Some(last)) = (vertices.first(), vertices.last()) {
+            if first.distance_squared(*last).near(0.0) {
+                vertices.pop();
+            }
         }
         vertices
     }
-- 
2.43.0


From d008a53a637da3515edc4e106307cc48f4e4c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:19 +0000
Subject: [PATCH 09/43] fix: ear clipping mixed up the copies of a bridge
 vertex and stalled on colinear vertices, losing part of the polygon

---
 src/utils/polygon.rs | 167 ++++++++++++++++---------------------------
 1 file changed, 61 insertions(+), 106 deletions(-)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 16d916d..b043921 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -13,51 +13,34 @@ pub fn is_polygon_counter_clockwise(points: &[Point2]) -> bool {
 }
 
 pub fn compute_vertex_convexity(points: &[Point2]) -> (VecDeque<usize>, Vec<usize>) {
-    let n = points.len();
-    let mut vertices = VecDeque::with_capacity(n);
-    let mut concave_points = Vec::new();
-    for i in 0..n {
-        match compute_convexity(
-            points[(n + i - 1).rem_euclid(n)],
-            points[i],
-            points[(i + 1).rem_euclid(n)],
-        ) {
-            Convexity::Convex => vertices.push_back(i),
-            Convexity::Concave => {
-                vertices.push_back(i);
-                concave_points.push(i);
-            }
-            Convexity::Colinear => {} // skip colinear or duplicate point
-        }
-    }
-
+    let mut vertices = (0..points.len()).collect();
+    let concave_points = find_concave_vertices(points, &mut vertices);
     (vertices, concave_points)
 }
 
+/// Remove colinear or duplicate vertices, find concave vertices of the rest.
 pub fn find_concave_vertices(points: &[Point2], vertices: &mut VecDeque<usize>) -> Vec<usize> {
-    let n = vertices.len();
-    let mut to_delete = vec![];
-    let mut concave_points = Vec::new();
-    for i in 0..n {
-        match compute_convexity(
-            points[vertices[(n + i - 1).rem_euclid(n)]],
-            points[vertices[i]],
-            points[vertices[(i + 1).rem_euclid(n)]],
-        ) {
-            Convexity::Convex => {}
-            Convexity::Concave => {
-                concave_points.push(vertices[i]);
-            }
-            Convexity::Colinear => {
-                // remove colinear or duplicate point
-                to_delete.push(i);
-            }
+    // one at a time, because removing a vertex changes the angles of its neighbors
+    let mut i = 0;
+    let mut checked = 0;
+    while vertices.len() > 2 && checked < vertices.len() {
+        i = i % vertices.len();
+        if let Convexity::Colinear = vertex_convexity(points, vertices, i) {
+            vertices.remove(i);
+            i += vertices.len() - 1;
+            checked = checked.saturating_sub(1);
+        } else {
+            i += 1;
+            checked += 1;
         }
     }
-    to_delete.reverse();
-    for j in to_delete {
-        vertices.remove(j);
+    if vertices.len() < 3 {
+        vertices.clear();
     }
+    let mut concave_points = (0..vertices.len())
+        .filter(|&i| matches!(vertex_convexity(points, vertices, i), Convexity::Concave))
+        .map(|i| vertices[i])
+        .collect::<Vec<_>>();
     concave_points.sort();
     concave_points
 }
@@ -69,74 +52,37 @@ pub fn trianglate_polygon(
     mut concave_points: Vec<usize>,
 ) -> Vec<u32> {
     let n = vertices.len();
-    let mut triangles = Vec::with_capacity((n - 2) * 3);
-    let mut prev_m = usize::MAX;
-
-    loop {
-        if vertices.len() >= prev_m {
-            break;
-        }
-        let mut m = vertices.len();
-        prev_m = m;
-        if m < 3 {
-            break;
-        } else if m == 3 {
-            triangles.push(vertices[0] as u32);
-            triangles.push(vertices[1] as u32);
-            triangles.push(vertices[2] as u32);
-            break;
-        }
-
-        let mut i = 0;
-        while i < m {
-            let curr = vertices[i];
-            if concave_points.binary_search(&curr).is_err() {
-                let prev = vertices[(m + i - 1).rem_euclid(m)];
-                let next = vertices[(i + 1).rem_euclid(m)];
-                if is_ear(points, &concave_points, prev, curr, next) {
-                    triangles.push(prev as u32);
-                    triangles.push(curr as u32);
-                    triangles.push(next as u32);
-
-                    let mut to_delete = vec![i];
-
-                    // update concave_points
-                    if let Ok(j) = concave_points.binary_search(&prev) {
-                        let prev_prev = vertices[(m + i - 2).rem_euclid(m)];
-                        match compute_convexity(points[prev_prev], points[prev], points[next]) {
-                            Convexity::Convex => {
-                                concave_points.remove(j);
-                            }
-                            Convexity::Colinear => {
-                                to_delete.push((m + i - 1).rem_euclid(m));
-                            }
-                            _ => {}
-                        }
-                    }
-                    if let Ok(j) = concave_points.binary_search(&next) {
-                        let next_next = vertices[(i + 2).rem_euclid(m)];
-                        match compute_convexity(points[prev], points[next], points[next_next]) {
-                            Convexity::Convex => {
-                                concave_points.remove(j);
-                            }
-                            Convexity::Colinear => {
-                                to_delete.push((i + 1).rem_euclid(m));
-                            }
-                            _ => {}
-                        }
-                    }
-
-                    // drop ear
-                    to_delete.sort();
-                    to_delete.reverse();
-                    m -= to_delete.len();
-                    for j in to_delete {
-                        vertices.remove(j);
-                    }
-                }
-            }
-            i += 1;
+    let mut triangles = Vec::with_capacity(n.saturating_sub(2) * 3);
+    let mut i = 0;
+    let mut skipped = 0;
+
+    while vertices.len() > 3 && skipped < vertices.len() {
+        let m = vertices.len();
+        i = i % m;
+        let prev = vertices[(m + i - 1).rem_euclid(m)];
+        let curr = vertices[i];
+        let next = vertices[(i + 1).rem_euclid(m)];
+        // a bridge vertex occurs more than once, it may be concave at one place and convex at another
+        if matches!(vertex_convexity(points, &vertices, i), Convexity::Convex)
+            && is_ear(points, &concave_points, prev, curr, next)
+        {
+            triangles.push(prev as u32);
+            triangles.push(curr as u32);
+            triangles.push(next as u32);
+
+            // drop ear
+            vertices.remove(i);
+            concave_points = find_concave_vertices(points, &mut vertices);
+            skipped = 0;
+        } else {
+            skipped += 1;
         }
+        i += 1;
+    }
+    if vertices.len() == 3 {
+        triangles.push(vertices[0] as u32);
+        triangles.push(vertices[1] as u32);
+        triangles.push(vertices[2] as u32);
     }
     triangles
 }
@@ -148,6 +94,15 @@ enum Convexity {
     Concave,
 }
 
+fn vertex_convexity(points: &[Point2], vertices: &VecDeque<usize>, i: usize) -> Convexity {
+    let n = vertices.len();
+    compute_convexity(
+        points[vertices[(n + i - 1).rem_euclid(n)]],
+        points[vertices[i]],
+        points[vertices[(i + 1).rem_euclid(n)]],
+    )
+}
+
 // check if b is a convex vertex
 fn compute_convexity(a: Point2, b: Point2, c: Point2) -> Convexity {
     let product = (b - a).perp_dot(c - b);
@@ -174,7 +129,7 @@ fn is_ear(
     next: usize,
 ) -> bool {
     for &other in concave_points {
-        if other != prev && other != next {
+        if other != prev && other != curr && other != next {
             if is_inside_triangle(points[prev], points[curr], points[next], points[other]) {
                 return false;
             }
-- 
2.43.0


From 90661da3dd05d075f25153268c467233d5680976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:45 +0000
Subject: [PATCH 10/43] fix: the bridge to a hole ended at a vertex which the
 hole may not see

---
 src/utils/meshgen.rs |  2 +-
 src/utils/polygon.rs | 78 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 63 insertions(+), 17 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 415190c..5308d2b 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -130,7 +130,7 @@ fn point_on_normal_bisector(a: Point2, b: Point2, ratio: Float) -> Point2 {
     center + displace * ratio
 }
 
-fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
+pub(super) fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
     if a.x.min(b.x) > c.x.max(d.x)
         || c.x.min(d.x) > a.x.max(b.x)
         || a.y.min(b.y) > c.y.max(d.y)
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index b043921..2d37399 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -1,4 +1,5 @@
-use crate::utils::{Point, Tolerance};
+use super::meshgen::is_segments_intersect;
+use crate::utils::Tolerance;
 use crate::{Float, Point2};
 use std::collections::VecDeque;
 
@@ -161,8 +162,14 @@ pub fn merge_polygons(points: &[Point2], polygons: &[usize]) -> VecDeque<usize>
     let (outer_start, outer_end, _, _) = sorted_polygons.pop().unwrap();
     let mut vertices = VecDeque::with_capacity(points.len() + polygons.len() - 1);
     vertices.extend(outer_start..outer_end);
-    for (start, end, i_max, _) in sorted_polygons.into_iter().rev() {
-        merge_two_polygons(points, &mut vertices, start..end, i_max);
+    while let Some((start, end, i_max, _)) = sorted_polygons.pop() {
+        // bridges must not cross the inner polygons which are not merged yet
+        let obstacles = sorted_polygons
+            .iter()
+            .map(|polygon| polygon.0..polygon.1)
+            .chain(std::iter::once(start..end))
+            .collect::<Vec<_>>();
+        merge_two_polygons(points, &mut vertices, start..end, i_max, &obstacles);
     }
     vertices
 }
@@ -172,21 +179,21 @@ fn merge_two_polygons(
     outer: &mut VecDeque<usize>,
     inner: std::ops::Range<usize>,
     max_x_index: usize,
+    obstacles: &[std::ops::Range<usize>],
 ) {
     let inner_point = points[max_x_index];
-    // find nearest edge to inner point
-    let mut min = Float::MAX;
-    let mut min_index = 0;
-    for i in 0..outer.len() {
-        let distance = inner_point.distance_to_line_segment(
-            points[outer[i]],
-            points[outer[(i + 1).rem_euclid(outer.len())]],
-        );
-        if distance < min {
-            min = distance;
-            min_index = i;
-        }
-    }
+    // find nearest outer vertex which is visible from the inner point
+    let mut candidates = (0..outer.len()).collect::<Vec<_>>();
+    candidates.sort_by(|&i, &j| {
+        let a = inner_point.distance_squared(points[outer[i]]);
+        let b = inner_point.distance_squared(points[outer[j]]);
+        a.partial_cmp(&b).unwrap_or(std::cmp::Ordering::Equal)
+    });
+    let min_index = candidates
+        .iter()
+        .copied()
+        .find(|&i| is_visible(points, outer, i, inner_point, obstacles))
+        .unwrap_or(candidates[0]);
     // insert inner polygon at min_index
     let insert_at = min_index + 1;
     outer.insert(insert_at, outer[min_index]);
@@ -198,6 +205,45 @@ fn merge_two_polygons(
     }
 }
 
+/// Check whether the segment from the i-th vertex of outer polygon to the inner point is inside
+/// the outer polygon and crosses no edge.
+fn is_visible(
+    points: &[Point2],
+    outer: &VecDeque<usize>,
+    i: usize,
+    inner_point: Point2,
+    obstacles: &[std::ops::Range<usize>],
+) -> bool {
+    let n = outer.len();
+    let prev = points[outer[(n + i - 1).rem_euclid(n)]];
+    let curr = points[outer[i]];
+    let next = points[outer[(i + 1).rem_euclid(n)]];
+    let left_of_prev = (curr - prev).perp_dot(inner_point - curr) > 0.0;
+    let left_of_next = (next - curr).perp_dot(inner_point - curr) > 0.0;
+    let in_angle = match compute_convexity(prev, curr, next) {
+        Convexity::Concave => left_of_prev || left_of_next,
+        _ => left_of_prev && left_of_next,
+    };
+    if !in_angle {
+        return false;
+    }
+    let blocks = |a: usize, b: usize| {
+        let (a, b) = (points[a], points[b]);
+        a != curr
+            && b != curr
+            && a != inner_point
+            && b != inner_point
+            && is_segments_intersect(curr, inner_point, a, b)
+    };
+    (0..n).all(|j| !blocks(outer[j], outer[(j + 1).rem_euclid(n)]))
+        && obstacles.iter().all(|range| {
+            range.clone().all(|j| {
+                let k = if j + 1 == range.end { range.start } else { j + 1 };
+                !blocks(j, k)
+            })
+        })
+}
+
 #[test]
 fn test_compute_convexity() {
     let a = Point2::new(7.46852, 258.22396);
-- 
2.43.0


From 80bfd2445a7c9dd16790292bf29621b19ea7e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 11/43] fix: the advancing front ran forever when colinear
 nodes took turns

---
 src/utils/meshgen.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 5308d2b..b338c28 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -1,5 +1,5 @@
 use crate::consts::HALF_SQRT_3;
-use crate::{utils::Point, Float, Point2};
+use crate::{Float, Point2};
 use std::collections::VecDeque;
 
 /// generate triangular mesh by advancing front method
@@ -23,15 +23,19 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
     while let Some(edge) = front.pop_back() {
         let (a, b) = (vertices[edge.0], vertices[edge.1]);
         let mut selected_node = None;
+        // a node is selected only once, otherwise colinear nodes could take turns forever
+        let mut visited = Vec::new();
 
-        loop {
-            if let Some(node) =
-                find_intersection_with_front(edge.0, edge.1, selected_node, &front, &vertices)
-            {
-                selected_node = Some(node);
-                continue;
-            }
-            break;
+        while let Some(node) = find_intersection_with_front(
+            edge.0,
+            edge.1,
+            selected_node,
+            &visited,
+            &front,
+            &vertices,
+        ) {
+            selected_node = Some(node);
+            visited.push(node);
         }
 
         if let Some(node) = selected_node {
@@ -62,6 +66,7 @@ fn find_intersection_with_front(
     start: usize,
     end: usize,
     selected_node: Option<usize>,
+    visited: &[usize],
     front: &VecDeque<(usize, usize)>,
     vertices: &Vec<Point2>,
 ) -> Option<usize> {
@@ -75,7 +80,7 @@ fn find_intersection_with_front(
         .iter()
         .filter_map(|e| {
             if selected_node != Some(e.0) {
-                if e.0 != start && e.0 != end && vertices[e.0].is_inside_triangle(a, b, new_point) {
+                if e.0 != start && e.0 != end && is_inside_triangle(a, b, new_point, vertices[e.0]) {
                     let factor = shape_factor(a, b, vertices[e.0]);
                     // give inner nodes higher priority
                     return Some((e.0, 1.0 + factor));
@@ -109,6 +114,10 @@ fn find_intersection_with_front(
         })
         .collect::<Vec<_>>();
 
+    // the front advances to the left side of its edges
+    nearby_nodes.retain(|(node, _)| {
+        !visited.contains(node) && (b - a).perp_dot(vertices[*node] - a) > 0.0
+    });
     nearby_nodes.sort_by(|a, b| match a.0.cmp(&b.0) {
         std::cmp::Ordering::Equal => b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Less),
         order @ _ => order,
@@ -120,6 +129,14 @@ fn find_intersection_with_front(
     nearby_nodes.pop().map(|(node, _)| node)
 }
 
+/// a point on the edges of the triangle counts as inside, even if it is rounded to the outer side
+fn is_inside_triangle(a: Point2, b: Point2, c: Point2, p: Point2) -> bool {
+    let tolerance = -1e-14 * (b - a).perp_dot(c - a).abs();
+    (a - p).perp_dot(b - p) >= tolerance
+        && (b - p).perp_dot(c - p) >= tolerance
+        && (c - p).perp_dot(a - p) >= tolerance
+}
+
 const MIN_GRID_SIZE: Float = 0.001;
 fn point_on_normal_bisector(a: Point2, b: Point2, ratio: Float) -> Point2 {
     let center = (a + b) / 2.0;
-- 
2.43.0


From ed10d5bff146d91c0598be65487af58af79c51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 12/43] fix: faces on cylinders and B-spline surfaces with
 clockwise or shifted loops got inverted, wrong or endless meshes

---
 src/surface/bspline.rs  | 47 ++++++------------------------------
 src/surface/cylinder.rs | 53 ++++++++++-------------------------------
 src/utils/meshgen.rs    | 34 ++++++++++++++++++++++++++
 3 files changed, 54 insertions(+), 80 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5717765..b4e31f3 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -223,56 +223,23 @@ impl Surface for BSplineSurface<Point3> {
             .flatten()
             .collect::<Vec<_>>();
         save_bound_as_obj(&vertices, "bound.obj").unwrap();
-        let mut points: Vec<Point2> = self.project_points(&vertices);
+        let points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
-        if polygons.len() == 2 {
-            if utils::is_polygon_counter_clockwise(&points) {
-                let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-                vertices.extend(
-                    points[boundary_point_count..]
-                        .iter()
-                        .map(|&p| self.get_point(p.x, p.y)),
-                );
-
-                return TriangleMesh {
-                    vertices,
-                    triangles,
-                    normals: Vec::new(),
-                }
-                .reverse_winding_direction();
-            } else {
-                vertices.reverse();
-                points.reverse();
-                let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-                vertices.extend(
-                    points[boundary_point_count..]
-                        .iter()
-                        .map(|&p| self.get_point(p.x, p.y)),
-                );
-
-                return TriangleMesh {
-                    vertices,
-                    triangles,
-                    normals: Vec::new(),
-                };
-            }
-        } else if polygons.len() > 2 {
-            // triangulate polygon with holes
-            dbg!(polygons.len());
-            let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
+        if polygons.len() > 1 {
+            let (points, triangles) = utils::generate_mesh_along_polygons(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
+                    .map(|&p| self.get_point(p.x, p.y)),
             );
-            return TriangleMesh {
+            TriangleMesh {
                 vertices,
                 triangles,
                 normals: Vec::new(),
-            };
+            }
         } else {
-            return TriangleMesh::new();
+            TriangleMesh::new()
         }
     }
 }
diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 4259fed..87d8ec2 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -70,59 +70,32 @@ impl Surface for Cylinder {
         let points: Vec<Point2> = vertices.iter().map(|v| self.project(*v)).collect();
         let (min_z, max_z) = utils::get_min_max_by_key(&points, |p| p.x);
         let d = (max_z - min_z) * 2.0;
+        // the apex of the ring projection must be above the whole face
+        let base = Cylinder {
+            origin: self.origin + self.axis * min_z,
+            ..*self
+        };
 
-        let mut points: Vec<Point2> = vertices
+        let points: Vec<Point2> = vertices
             .iter()
-            .map(|v| self.project_to_ring(*v, d))
+            .map(|v| base.project_to_ring(*v, d))
             .collect();
         let boundary_point_count = points.len();
 
-        if polygons.len() == 2 {
-            if utils::is_polygon_counter_clockwise(&points) {
-                let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-                vertices.extend(
-                    points[boundary_point_count..]
-                        .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
-                );
-
-                return TriangleMesh {
-                    vertices,
-                    triangles,
-                    normals: Vec::new(),
-                }
-                .reverse_winding_direction();
-            } else {
-                vertices.reverse();
-                points.reverse();
-                let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
-                vertices.extend(
-                    points[boundary_point_count..]
-                        .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
-                );
-
-                return TriangleMesh {
-                    vertices,
-                    triangles,
-                    normals: Vec::new(),
-                };
-            }
-        } else if polygons.len() > 2 {
-            // triangulate polygon with holes
-            let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
+        if polygons.len() > 1 {
+            let (points, triangles) = utils::generate_mesh_along_polygons(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
+                    .map(|&p| base.generate_point_from_ring(p, d)),
             );
-            return TriangleMesh {
+            TriangleMesh {
                 vertices,
                 triangles,
                 normals: Vec::new(),
-            };
+            }
         } else {
-            return TriangleMesh::new();
+            TriangleMesh::new()
         }
     }
 }
diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index b338c28..265942e 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -62,6 +62,40 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
     (vertices, triangles)
 }
 
+/// generate triangular mesh with the same winding direction as the outer polygon
+pub fn generate_mesh_along_polygons(
+    points: &[Point2],
+    polygons: &[usize],
+) -> (Vec<Point2>, Vec<u32>) {
+    // the outer polygon has the largest area
+    let signed_area = polygons
+        .windows(2)
+        .map(|pair| {
+            let polygon = &points[pair[0]..pair[1]];
+            let next = polygon.iter().cycle().skip(1);
+            polygon.iter().zip(next).map(|(a, b)| a.perp_dot(*b)).sum()
+        })
+        .fold(0.0, |max: Float, area: Float| {
+            if area.abs() > max.abs() {
+                area
+            } else {
+                max
+            }
+        });
+    if signed_area >= 0.0 {
+        return generate_triangular_mesh(points, polygons);
+    }
+    // the front advances to the left side of its edges, so mirror clockwise polygons
+    let mirror = |points: &[Point2]| {
+        points
+            .iter()
+            .map(|p| Point2::new(-p.x, p.y))
+            .collect::<Vec<_>>()
+    };
+    let (points, triangles) = generate_triangular_mesh(&mirror(points), polygons);
+    (mirror(&points), triangles)
+}
+
 fn find_intersection_with_front(
     start: usize,
     end: usize,
-- 
2.43.0


From 8db439c4d83e395d3e230244de679f6defbc5cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 13/43] fix: points projected to a B-spline surface were up to
 3e-4 off, or far off when Newton's iteration diverged or a knot span got no
 sample

---
 src/surface/bspline.rs | 92 +++++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 24 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index b4e31f3..dff47e3 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -115,52 +115,96 @@ impl BSplineSurface<Point3> {
         let der_vu = der_v.derivative_u();
         let der_vv = der_v.derivative_v();
 
-        let (n, m) = self.control_points.size();
         let (u_range, v_range) = (self.knots.0.range(), self.knots.1.range());
-        let u_parameters = utils::uniform_divide(u_range, n * 4);
-        let v_parameters = utils::uniform_divide(v_range, m * 4);
+        // every knot span gets samples, however short it is
+        let divide = |knots: &KnotVector, degree: u8| {
+            let mut parameters = vec![knots[0]];
+            for span in knots.0.windows(2).filter(|span| span[0] < span[1]) {
+                let division = (degree as usize + 1) * 2;
+                parameters.extend_from_slice(
+                    &utils::uniform_divide((span[0], span[1]), division)[1..],
+                );
+            }
+            parameters
+        };
+        let u_parameters = divide(&self.knots.0, self.degree.0);
+        let v_parameters = divide(&self.knots.1, self.degree.1);
         let vertices = Grid::from_vec(
             u_parameters
                 .iter()
                 .map(|&u| v_parameters.iter().map(move |&v| self.get_point(u, v)))
                 .flatten()
                 .collect::<Vec<Point3>>(),
-            m * 4 + 1,
+            v_parameters.len(),
         );
 
-        let trials = 20;
+        let trials = 50;
         points
             .iter()
             .map(|point| {
                 let (i, j) = utils::find_nearest_point_in_grid(&vertices, *point);
                 let (mut u, mut v) = (u_parameters[i], v_parameters[j]);
+                let mut r = self.get_point(u, v) - *point;
                 for _ in 0..trials {
-                    let r = self.get_point(u, v) - *point;
-                    if r.length_squared().near(0.0) {
-                        return Point2::new(u, v);
+                    if r.length_squared().near2(0.0) {
+                        break;
                     }
                     let su = der_u.get_point(u, v);
                     let sv = der_v.get_point(u, v);
-                    if su.dot(r).near(0.0) && sv.dot(r).near(0.0) {
-                        return Point2::new(u, v);
+                    let (ru, rv) = (r.dot(su), r.dot(sv));
+                    // a parameter at the end of its range can only move inwards
+                    let u_fixed = u <= u_range.0 && ru > 0.0 || u >= u_range.1 && ru < 0.0;
+                    let v_fixed = v <= v_range.0 && rv > 0.0 || v >= v_range.1 && rv < 0.0;
+                    if (u_fixed || ru.abs() <= utils::TOLERANCE * su.length())
+                        && (v_fixed || rv.abs() <= utils::TOLERANCE * sv.length())
+                    {
+                        break;
                     }
 
-                    let suu = der_uu.get_point(u, v);
-                    let suv = der_uv.get_point(u, v);
-                    let svu = der_vu.get_point(u, v);
-                    let svv = der_vv.get_point(u, v);
-                    let fu = su.length_squared() + r.dot(suu);
-                    let gu = su.dot(sv) + r.dot(svu);
-                    let fv = su.dot(sv) + r.dot(suv);
-                    let gv = sv.length_squared() + r.dot(svv);
+                    let fu = su.length_squared() + r.dot(der_uu.get_point(u, v));
+                    let gu = su.dot(sv) + r.dot(der_vu.get_point(u, v));
+                    let fv = su.dot(sv) + r.dot(der_uv.get_point(u, v));
+                    let gv = sv.length_squared() + r.dot(der_vv.get_point(u, v));
 
-                    let j = Mat2::from_cols_array(&[fu, gu, fv, gv]);
-                    let k = Vec2::new(-r.dot(su), -r.dot(sv));
-                    let delta = j.inverse() * k;
-                    u = utils::clamp_in_range(u + delta.x, u_range);
-                    v = utils::clamp_in_range(v + delta.y, v_range);
+                    let delta = if u_fixed {
+                        let gv = if gv > 0.0 { gv } else { sv.length_squared() };
+                        Vec2::new(0.0, -rv * utils::inv_or_zero(gv))
+                    } else if v_fixed {
+                        let fu = if fu > 0.0 { fu } else { su.length_squared() };
+                        Vec2::new(-ru * utils::inv_or_zero(fu), 0.0)
+                    } else if fu > 0.0 && fu * gv - gu * fv > 0.0 {
+                        let j = Mat2::from_cols_array(&[fu, gu, fv, gv]);
+                        j.inverse() * Vec2::new(-ru, -rv)
+                    } else {
+                        // Newton's step is not downhill, go along the gradient
+                        Vec2::new(
+                            -ru * utils::inv_or_zero(su.length_squared()),
+                            -rv * utils::inv_or_zero(sv.length_squared()),
+                        )
+                    };
+
+                    // shorten the step until the point gets nearer
+                    let mut factor = 1.0;
+                    let nearer = loop {
+                        let next_u = utils::clamp_in_range(u + factor * delta.x, u_range);
+                        let next_v = utils::clamp_in_range(v + factor * delta.y, v_range);
+                        let next_r = self.get_point(next_u, next_v) - *point;
+                        if next_r.length_squared() < r.length_squared() {
+                            u = next_u;
+                            v = next_v;
+                            r = next_r;
+                            break true;
+                        }
+                        factor *= 0.5;
+                        if factor < utils::TOLERANCE {
+                            break false;
+                        }
+                    };
+                    if !nearer {
+                        break;
+                    }
                 }
-                return Point2::new(u, v);
+                Point2::new(u, v)
             })
             .collect::<Vec<_>>()
     }
-- 
2.43.0


From c77d0f4f253015feecf57b4a4152d162497b33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:09 +0000
Subject: [PATCH 14/43] fix: the advancing front skipped nodes lying on an edge
 of the new triangle and ran forever

---
 src/utils/meshgen.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 265942e..2613cf2 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -163,12 +163,12 @@ fn find_intersection_with_front(
     nearby_nodes.pop().map(|(node, _)| node)
 }
 
-/// a point on the edges of the triangle counts as inside, even if it is rounded to the outer side
+/// a point on an edge of the triangle counts as inside, even if it is rounded to the outer side
 fn is_inside_triangle(a: Point2, b: Point2, c: Point2, p: Point2) -> bool {
-    let tolerance = -1e-14 * (b - a).perp_dot(c - a).abs();
-    (a - p).perp_dot(b - p) >= tolerance
-        && (b - p).perp_dot(c - p) >= tolerance
-        && (c - p).perp_dot(a - p) >= tolerance
+    let rounding = 1e-12 * a.abs().max(b.abs()).max(c.abs()).max_element();
+    [(a, b), (b, c), (c, a)]
+        .iter()
+        .all(|&(start, end)| (start - p).perp_dot(end - p) >= -rounding * (end - start).length())
 }
 
 const MIN_GRID_SIZE: Float = 0.001;
-- 
2.43.0


From 4a2e3f6021ff386336e55c4d5e0bcdc913a9f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 15/43] fix: a malformed number in a point cloud file panicked
 instead of being reported as an error

---
 src/points.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 77f3391..35f32ed 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -8,6 +8,11 @@ pub fn scale_points(points: &[Point3], scale: Float) -> Vec<Point3> {
     points.iter().map(|&point| point * scale).collect()
 }
 
+fn parse_number(text: &str) -> std::io::Result<Float> {
+    Float::from_str(text)
+        .map_err(|error| std::io::Error::new(std::io::ErrorKind::InvalidData, error))
+}
+
 pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>> {
     let bytes = std::fs::read(file)?;
     let cursor = std::io::Cursor::new(bytes);
@@ -25,14 +30,14 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
             .as_slice()
         {
             [x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_number(x)?,
+                parse_number(y)?,
+                parse_number(z)?,
             )),
             [_, x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_number(x)?,
+                parse_number(y)?,
+                parse_number(z)?,
             )),
             _ => {}
         }
-- 
2.43.0


From b1642e60e3ca0e9f1bd0941b73764e3a14abbc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 16/43] fix: a short write while saving points lost data and
 was reported as success

---
 src/points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 35f32ed..8a4fb3d 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -48,7 +48,7 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
+        file.write_all(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
     }
     Ok(())
 }
@@ -59,7 +59,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 ) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for (point, normal) in points {
-        file.write(
+        file.write_all(
             format!(
                 "{} {} {} {} {} {}\n",
                 point.x, point.y, point.z, normal.x, normal.y, normal.z
@@ -73,7 +73,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 pub fn save_points<P: AsRef<Path>>(points: &[Point2], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{},{}\n", point.x, point.y).as_bytes())?;
+        file.write_all(format!("{},{}\n", point.x, point.y).as_bytes())?;
     }
     Ok(())
 }
-- 
2.43.0


From 74d26c0ee41123936cfca284c06c63455e26d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:26 +0000
Subject: [PATCH 17/43] fix: saving STL ignored a failure to write the triangle
 count, and panicked for a path without a file name

---
 src/model.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index a75f71b..43afc91 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -25,7 +25,7 @@ impl<F: Face> Model<F> {
     pub fn save_as_stl<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
         use std::io::{Seek, SeekFrom, Write};
         let path = std::path::Path::new(filename.as_ref());
-        let name = path.file_stem().unwrap().to_string_lossy();
+        let name = path.file_stem().unwrap_or_default().to_string_lossy();
         let file = std::fs::File::create(path)?;
         let mut writer = std::io::BufWriter::new(file);
 
@@ -60,7 +60,8 @@ impl<F: Face> Model<F> {
         writer.seek(SeekFrom::Start(header_size as u64))?;
         dbg!(triangle_count);
         writer.write(&(triangle_count as u32).to_le_bytes())?;
-        Ok(())
+        // dropping the writer would ignore errors
+        writer.flush()
     }
 
     pub fn save_as_obj<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
-- 
2.43.0


From 993e43d43d046a269305fcfd6c3e2ecabda865d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 18/43] fix: trimming a B-spline surface wrote bound.obj to the
 current directory and panicked where it could not

---
 src/surface/bspline.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index dff47e3..197e37e 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -266,7 +266,6 @@ impl Surface for BSplineSurface<Point3> {
             })
             .flatten()
             .collect::<Vec<_>>();
-        save_bound_as_obj(&vertices, "bound.obj").unwrap();
         let points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
-- 
2.43.0


From 1a480d54d653bdc2f102e8abf5d7c778ad565eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 19/43] fix: an SVG page with a fractional height was drawn
 shifted by the rounded part

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 43afc91..806a262 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -95,7 +95,7 @@ impl<F: Face> Model<F> {
             .set("height", format!("{}mm", height))
             .set("viewBox", (0, 0, width, height));
         let mut group = Group::new()
-            .set("transform", format!("matrix(1 0 0 -1 0 {:.0})", height))
+            .set("transform", format!("matrix(1 0 0 -1 0 {})", height))
             .set("fill", "none")
             .set("stroke", "black")
             .set("stroke-linecap", "round");
-- 
2.43.0


From fb14f52f6d3d6da3f747ec298281ed54862c3800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:00 +0000
Subject: [PATCH 20/43] fix: SVG export drew polylines and cubic B-splines in
 full, whatever the segment's parameter range

---
 src/model.rs | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 806a262..cf8ce7c 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -1,3 +1,4 @@
+use crate::utils::TOLERANCE;
 use crate::Point3;
 use crate::{curve, Face, Polycurve};
 
@@ -112,7 +113,24 @@ impl<F: Face> Model<F> {
                     continue;
                 }
                 if let Some(polyline) = segment.curve.downcast_ref::<curve::Polyline>() {
-                    for (index, point) in polyline.vertices.iter().enumerate() {
+                    let (u0, u1) = segment.parameter_range;
+                    let mut length = 0.0;
+                    let mut points = Vec::with_capacity(polyline.vertices.len());
+                    for (vertex, segment_length) in
+                        polyline.vertices[1..].iter().zip(&polyline.segment_lengths)
+                    {
+                        length += segment_length;
+                        let u = length / polyline.length;
+                        if u0.min(u1) < u && u < u0.max(u1) {
+                            points.push(*vertex);
+                        }
+                    }
+                    if u0 > u1 {
+                        points.reverse();
+                    }
+                    points.insert(0, polyline.get_point(u0));
+                    points.push(polyline.get_point(u1));
+                    for (index, point) in points.iter().enumerate() {
                         if index == 0 {
                             data.push_str(&format!("M {:.2},{:.2}", point.x, point.y));
                         } else {
@@ -122,10 +140,30 @@ impl<F: Face> Model<F> {
                     continue;
                 }
                 if let Some(bspline) = segment.curve.downcast_ref::<curve::BSplineCurve<Point3>>() {
-                    if bspline.degree == 3 {
-                        for (index, bezier_curve) in
-                            bspline.to_piecewise_bezier().into_iter().enumerate()
-                        {
+                    let (u0, u1) = segment.parameter_range;
+                    let (start, end) = (u0.min(u1), u0.max(u1));
+                    let range = bspline.knots.range();
+                    if bspline.degree == 3
+                        && range.0 <= start
+                        && end <= range.1
+                        && end - start > TOLERANCE
+                    {
+                        let mut part = bspline.clone();
+                        part.clamp();
+                        if end < range.1 {
+                            part.split(end);
+                        }
+                        if start > range.0 {
+                            part = part.split(start);
+                        }
+                        let mut pieces = part.to_piecewise_bezier();
+                        if u0 > u1 {
+                            pieces.reverse();
+                            for piece in &mut pieces {
+                                piece.control_points.reverse();
+                            }
+                        }
+                        for (index, bezier_curve) in pieces.into_iter().enumerate() {
                             let start = bezier_curve.control_points[0];
                             let cp1 = bezier_curve.control_points[1];
                             let cp2 = bezier_curve.control_points[2];
-- 
2.43.0


From 39bb633822eb020cc7df28369b7dce35a8c5bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 21/43] fix: read STEP placements with scaled, oblique or
 omitted directions

---
 src/model/step_reader.rs | 53 +++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index a2d9416..40358f4 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -33,22 +33,25 @@ fn vertex_point(reader: &Ap214Reader, vertex_ref: &EntityRef) -> Point3 {
         .unwrap()
 }
 
-fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Option<Vec3>) {
+/// Direction ratios are not required to be of unit length.
+fn direction(reader: &Ap214Reader, direction_ref: &Option<EntityRef>) -> Option<Vec3> {
+    direction_ref
+        .as_ref()
+        .and_then(|direction| reader.get_entity::<Direction>(direction))
+        .map(|direction| vec3(direction.direction_ratios()).normalize())
+}
+
+fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3) {
     let placement = reader.get_entity::<Axis1Placement>(placement_ref).unwrap();
     let location = reader
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let axis = direction(reader, placement.axis()).unwrap_or(Vec3::Z);
     (location, axis)
 }
 
-fn axis2_placement_3d(
-    reader: &Ap214Reader,
-    placement_ref: &EntityRef,
-) -> (Point3, Option<Vec3>, Option<Vec3>) {
+fn axis2_placement_3d(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3, Vec3) {
     let placement = reader
         .get_entity::<Axis2Placement3d>(placement_ref)
         .unwrap();
@@ -56,12 +59,16 @@ fn axis2_placement_3d(
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let z_axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    let x_axis = reader
-        .get_entity::<Direction>(placement.ref_direction().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let z_axis = direction(reader, placement.axis()).unwrap_or(Vec3::Z);
+    let ref_direction = direction(reader, placement.ref_direction()).unwrap_or_else(|| {
+        if z_axis.cross(Vec3::X) == Vec3::ZERO {
+            Vec3::Y
+        } else {
+            Vec3::X
+        }
+    });
+    // The reference direction only needs to be made perpendicular to the axis.
+    let x_axis = (ref_direction - z_axis * ref_direction.dot(z_axis)).normalize();
     (location, z_axis, x_axis)
 }
 
@@ -140,8 +147,8 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
         let (center, axis, ref_dir) = axis2_placement_3d(reader, circle.position());
         return Some(Box::new(crate::curve::Circle {
             center,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: circle.radius().0,
         }));
     }
@@ -196,12 +203,8 @@ fn extract_surface(
     let same_sense = face.same_sense();
     if let Some(plane) = reader.get_entity::<Plane>(face.face_geometry()) {
         let (origin, z_axis, x_axis) = axis2_placement_3d(reader, plane.position());
-        let normal = if same_sense {
-            z_axis.unwrap()
-        } else {
-            -z_axis.unwrap()
-        };
-        let u_axis = x_axis.unwrap();
+        let normal = if same_sense { z_axis } else { -z_axis };
+        let u_axis = x_axis;
         let surface = crate::surface::Plane {
             origin,
             normal,
@@ -218,8 +221,8 @@ fn extract_surface(
         let (origin, axis, ref_dir) = axis2_placement_3d(reader, cylinder.position());
         let surface = crate::surface::Cylinder {
             origin,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: cylinder.radius().0,
         };
         return Some(SurfacePatch {
@@ -368,7 +371,7 @@ fn extract_surface(
             let (origin, axis) = axis1_placement(reader, revolution.axis_position());
             let surface = crate::surface::SpinSurface {
                 origin,
-                axis: axis.unwrap(),
+                axis,
                 section,
             };
             return Some(SurfacePatch {
-- 
2.43.0


From d29d7ed36432f876b79ab0b429c753c578c37e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:55 +0000
Subject: [PATCH 22/43] fix: read STEP lines with the magnitude of their
 direction vector

---
 src/model/step_reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 40358f4..d8a0afb 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -136,10 +136,14 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             .get_entity::<CartesianPoint>(line.pnt())
             .map(|point| vec3(point.coordinates()))
             .unwrap();
+        // the vector's length is its magnitude, its orientation needs not be a unit vector
         let direction = reader
             .get_entity::<Vector>(line.dir())
-            .and_then(|vector| reader.get_entity::<Direction>(vector.orientation()))
-            .map(|dir| vec3(dir.direction_ratios()))
+            .and_then(|vector| {
+                reader
+                    .get_entity::<Direction>(vector.orientation())
+                    .map(|dir| vec3(dir.direction_ratios()).normalize() * vector.magnitude().0)
+            })
             .unwrap();
         return Some(Box::new(crate::curve::Line { origin, direction }));
     }
-- 
2.43.0


From 66f84eff1c3dc34830d9e6243cb56756e1d76a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:57 +0000
Subject: [PATCH 23/43] fix: follow the sense of STEP composite curve segments

---
 src/model/step_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index d8a0afb..e2d7851 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -409,8 +409,13 @@ fn extract_curve_segment(
                 let param2 =
                     get_trimming_parameter_value(trimmed_curve.trim_2().iter().next().unwrap())
                         .unwrap();
-                let parameter_range = basis_curve
+                let (start, end) = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
+                let parameter_range = if segment.same_sense() {
+                    (start, end)
+                } else {
+                    (end, start)
+                };
                 return Some(CurveSegment {
                     curve: basis_curve,
                     parameter_range,
-- 
2.43.0


From 2efc67356b1829c44f7c82fa71872c2edce94b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:53 +0000
Subject: [PATCH 24/43] fix: read STEP curves trimmed by points

---
 src/model/step_reader.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index e2d7851..7c1d7d1 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -6,6 +6,7 @@ use crate::{Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
 use iso_10303::step::{EntityRef, Real, StepReader};
 use iso_10303_parts::ap214::*;
 use std::any::Any;
+use std::collections::HashSet;
 
 fn vec3(coordinates: &Vec<Real>) -> Vec3 {
     Vec3::new(
@@ -396,6 +397,24 @@ fn get_trimming_parameter_value(measure: &TrimmingSelect) -> Option<f64> {
     }
 }
 
+/// The end of a trimmed curve is given by a parameter value, by a point or by both.
+fn get_trimming_parameter(
+    reader: &Ap214Reader,
+    curve: &Box<dyn Curve>,
+    trim: &HashSet<TrimmingSelect>,
+) -> Option<f64> {
+    trim.iter()
+        .find_map(get_trimming_parameter_value)
+        .or_else(|| {
+            trim.iter().find_map(|measure| match measure {
+                TrimmingSelect::CartesianPoint(point) => reader
+                    .get_entity::<CartesianPoint>(point)
+                    .map(|point| curve.project(vec3(point.coordinates()))),
+                _ => None,
+            })
+        })
+}
+
 fn extract_curve_segment(
     reader: &Ap214Reader,
     segment_ref: &EntityRef,
@@ -404,11 +423,9 @@ fn extract_curve_segment(
         if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(segment.parent_curve()) {
             if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
                 let param1 =
-                    get_trimming_parameter_value(trimmed_curve.trim_1().iter().next().unwrap())
-                        .unwrap();
+                    get_trimming_parameter(reader, &basis_curve, trimmed_curve.trim_1()).unwrap();
                 let param2 =
-                    get_trimming_parameter_value(trimmed_curve.trim_2().iter().next().unwrap())
-                        .unwrap();
+                    get_trimming_parameter(reader, &basis_curve, trimmed_curve.trim_2()).unwrap();
                 let (start, end) = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
                 let parameter_range = if segment.same_sense() {
-- 
2.43.0


From 4afed2b613c61d71a6ec39c097a91770d424ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:01 +0000
Subject: [PATCH 25/43] fix: read the trimming parameters of STEP polylines

---
 src/model/step_reader.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 7c1d7d1..badad0c 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -2,7 +2,7 @@ use super::Model;
 use crate::consts::TAU;
 use crate::curve::{Curve, CurveSegment, Polycurve};
 use crate::surface::{Surface, SurfacePatch, TrimmedSurface};
-use crate::{Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
+use crate::{utils, Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
 use iso_10303::step::{EntityRef, Real, StepReader};
 use iso_10303_parts::ap214::*;
 use std::any::Any;
@@ -397,6 +397,18 @@ fn get_trimming_parameter_value(measure: &TrimmingSelect) -> Option<f64> {
     }
 }
 
+/// STEP counts the parameter of a polyline in segments, here it follows the length from 0 to 1.
+fn curve_parameter(curve: &Box<dyn Curve>, value: f64) -> f64 {
+    if let Some(polyline) = curve.downcast_ref::<crate::curve::Polyline>() {
+        let lengths = &polyline.segment_lengths;
+        let index = (value.max(0.0) as usize).min(lengths.len() - 1);
+        let length = lengths[..index].iter().sum::<Float>();
+        (length + lengths[index] * (value - index as Float)) * utils::inv_or_zero(polyline.length)
+    } else {
+        value
+    }
+}
+
 /// The end of a trimmed curve is given by a parameter value, by a point or by both.
 fn get_trimming_parameter(
     reader: &Ap214Reader,
@@ -405,6 +417,7 @@ fn get_trimming_parameter(
 ) -> Option<f64> {
     trim.iter()
         .find_map(get_trimming_parameter_value)
+        .map(|value| curve_parameter(curve, value))
         .or_else(|| {
             trim.iter().find_map(|measure| match measure {
                 TrimmingSelect::CartesianPoint(point) => reader
-- 
2.43.0


From c8266ff6d483ab6eb62f918f1049aca6fca869fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:03 +0000
Subject: [PATCH 26/43] fix: read STEP face outer bounds

---
 src/model/step_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index badad0c..59db07b 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -479,7 +479,11 @@ impl ModelReader {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
                 for bound in advanced_face.bounds() {
-                    if let Some(face_bound) = reader.get_entity::<FaceBound>(bound) {
+                    let face_bound: Option<&dyn IFaceBound> = reader
+                        .get_entity::<FaceBound>(bound)
+                        .map(|face_bound| face_bound as _)
+                        .or_else(|| Some(reader.get_entity::<FaceOuterBound>(bound)? as _));
+                    if let Some(face_bound) = face_bound {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
                             let edges = edge_loop
                                 .edge_list()
-- 
2.43.0


From ce5d2972018413ef4c614e1b15652d1021d5bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:04 +0000
Subject: [PATCH 27/43] fix: read the bounds of a STEP face in a fixed order

---
 src/model/step_reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 59db07b..d687a9f 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -478,7 +478,10 @@ impl ModelReader {
         for advanced_face in reader.get_entities::<AdvancedFace>() {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
-                for bound in advanced_face.bounds() {
+                // the set has no order of its own
+                let mut bound_refs = advanced_face.bounds().iter().collect::<Vec<_>>();
+                bound_refs.sort_by_key(|bound| bound.0);
+                for bound in bound_refs {
                     let face_bound: Option<&dyn IFaceBound> = reader
                         .get_entity::<FaceBound>(bound)
                         .map(|face_bound| face_bound as _)
-- 
2.43.0


From 220f4a9eb5e3dd1d5c7a4e1ca20ddef4568e123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 28/43] fix: follow the orientation of STEP oriented edges and
 face bounds

---
 src/model/step_reader.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index d687a9f..78193fe 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -200,6 +200,12 @@ fn extract_edge_curve(
     None
 }
 
+/// Run through the curve segment from its end to its start
+fn reverse_segment(segment: &mut CurveSegment<Box<dyn Curve>>) {
+    let (start, end) = segment.parameter_range;
+    segment.parameter_range = (end, start);
+}
+
 fn extract_surface(
     reader: &Ap214Reader,
     face: &AdvancedFace,
@@ -488,15 +494,24 @@ impl ModelReader {
                         .or_else(|| Some(reader.get_entity::<FaceOuterBound>(bound)? as _));
                     if let Some(face_bound) = face_bound {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
-                            let edges = edge_loop
+                            let mut edges = edge_loop
                                 .edge_list()
                                 .iter()
                                 .filter_map(|edge| {
                                     reader.get_entity::<OrientedEdge>(edge).and_then(|edge| {
-                                        extract_edge_curve(&reader, edge.edge_element())
+                                        let mut segment =
+                                            extract_edge_curve(&reader, edge.edge_element())?;
+                                        if !edge.orientation() {
+                                            reverse_segment(&mut segment);
+                                        }
+                                        Some(segment)
                                     })
                                 })
                                 .collect::<Vec<_>>();
+                            if !face_bound.orientation() {
+                                edges.reverse();
+                                edges.iter_mut().for_each(reverse_segment);
+                            }
                             bounds.push(crate::surface::EdgeLoop { edges });
                         }
                     }
-- 
2.43.0


From 8a83ef0f44f982b9623407c87a2ad3c2ce63fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:33 +0000
Subject: [PATCH 29/43] fix: leave out STEP geometry of types outside the
 schema

---
 src/model/step_reader.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 78193fe..9d49488 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -131,6 +131,17 @@ fn extract_knot_vector(knots: &Vec<Real>, multiplicities: &Vec<i64>) -> KnotVect
     // .normalize()
 }
 
+fn print_unrecognized(reader: &Ap214Reader, entity_ref: &EntityRef) {
+    let id = entity_ref.0;
+    // entities which are not in the schema have no type name
+    let name = if reader.entities.contains_key(&id) {
+        reader.get_type_name(id)
+    } else {
+        "entity"
+    };
+    println!("{}: {} is unrecoginzed", id, name);
+}
+
 fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn Curve>> {
     if let Some(line) = reader.get_entity::<Line>(curve_ref) {
         let origin = reader
@@ -171,8 +182,7 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             degree: bspline.degree() as u8,
         }));
     }
-    let id = curve_ref.0;
-    println!("{}: {} is unrecoginzed", id, reader.get_type_name(id));
+    print_unrecognized(reader, curve_ref);
     None
 }
 
@@ -522,8 +532,7 @@ impl ModelReader {
                 };
                 model.add_face(trimmed_surface);
             } else {
-                let id = advanced_face.face_geometry().0;
-                println!("{}: {} is unrecoginzed", id, reader.get_type_name(id));
+                print_unrecognized(&reader, advanced_face.face_geometry());
             }
         }
         Ok(model)
-- 
2.43.0


From 7edddb26850321eaed0a11e0b4139fac928772d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:31 +0000
Subject: [PATCH 30/43] fix: read STEP edges of closed splines and polylines

---
 src/curve/bspline.rs  | 10 ++++++++++
 src/curve/polyline.rs |  8 ++++++++
 src/utils.rs          | 15 +++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index e0bb611..d2ef256 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -164,6 +164,16 @@ impl Curve for BSplineCurve<Point3> {
         }
         nearest
     }
+
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        let p = self.degree();
+        let domain = (self.knots[p], self.knots[self.knots.len() - 1 - p]);
+        if self.get_point(domain.0).distance(self.get_point(domain.1)) < utils::TOLERANCE {
+            utils::refine_closed_range(range, domain, same_sense)
+        } else {
+            range
+        }
+    }
 }
 
 /// Rational BSpline curve, point (x,y,z) with weight w is (wx,wy,wz,w)
diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index f295b2d..82bad70 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -79,4 +79,12 @@ impl Curve for Polyline {
             + length.clamp(0.0, segment_length);
         (length * utils::inv_or_zero(self.length)).clamp(0.0, 1.0)
     }
+
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        if self.start().distance(self.end()) < utils::TOLERANCE {
+            utils::refine_closed_range(range, (0.0, 1.0), same_sense)
+        } else {
+            range
+        }
+    }
 }
diff --git a/src/utils.rs b/src/utils.rs
index 1c7ad23..0a241f9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -87,6 +87,21 @@ pub fn range_at((start, end): (Float, Float), ratio: Float) -> Float {
     start + (end - start) * ratio
 }
 
+/// An end of the range at the seam of a closed curve is either end of the curve's parameter domain,
+/// take the one from which the range runs in the given sense.
+pub fn refine_closed_range(
+    range: (Float, Float),
+    (min, max): (Float, Float),
+    same_sense: bool,
+) -> (Float, Float) {
+    let (start, end) = if same_sense { (min, max) } else { (max, min) };
+    let at_seam = |u: Float| u.near(min) || u.near(max);
+    (
+        if at_seam(range.0) { start } else { range.0 },
+        if at_seam(range.1) { end } else { range.1 },
+    )
+}
+
 pub fn find_nearest_point(points: &[Point3], point: Point3) -> usize {
     let mut min = Float::MAX;
     let mut min_index = 0;
-- 
2.43.0


From 0f535c02e4821d6ec8a36ee504c96164b418f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 31/43] fix: projection onto Bezier curves with cusps, loops or
 folds stopped at a wrong branch or turning point

---
 src/curve/bezier.rs | 60 ++++++++++++++++++++++++++++++++++++++++++++-
 src/utils.rs        |  2 +-
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/src/curve/bezier.rs b/src/curve/bezier.rs
index 2b758b0..ea9f710 100644
--- a/src/curve/bezier.rs
+++ b/src/curve/bezier.rs
@@ -26,6 +26,63 @@ impl<P: std::ops::Sub<Output = P> + std::ops::Mul<Float, Output = P> + Copy> Bez
     }
 }
 
+impl BezierCurve<Point3> {
+    fn split_half(&self) -> (Self, Self) {
+        let mut points = self.control_points.clone();
+        let mut left = Vec::with_capacity(points.len());
+        let mut right = Vec::with_capacity(points.len());
+        while let (Some(&first), Some(&last)) = (points.first(), points.last()) {
+            left.push(first);
+            right.push(last);
+            points = points.windows(2).map(|w| 0.5 * (w[0] + w[1])).collect();
+        }
+        right.reverse();
+        let curve = |control_points| BezierCurve { control_points };
+        (curve(left), curve(right))
+    }
+
+    /// Distance from a point to the bounding box of the control points, no point of the curve is nearer.
+    fn distance_to_hull(&self, point: Point3) -> Float {
+        let first = self.control_points[0];
+        let bound = |f: fn(Point3, Point3) -> Point3| {
+            self.control_points.iter().fold(first, |a, &b| f(a, b))
+        };
+        let nearest = point.max(bound(Point3::min)).min(bound(Point3::max));
+        nearest.distance(point)
+    }
+
+    /// Find a short parameter range with the nearest point by bisecting the parts which are not too far.
+    fn find_nearest_range(&self, point: Point3) -> (Float, Float) {
+        let whole = BezierCurve {
+            control_points: self.control_points.clone(),
+        };
+        let mut parts = vec![(whole, 0.0)];
+        let mut length: Float = 1.0;
+        let mut nearest: Float = 0.0;
+        let mut min = self.control_points[0].distance(point);
+        for _ in 0..20 {
+            length *= 0.5;
+            let mut halves = Vec::with_capacity(parts.len() * 2);
+            for (part, start) in parts {
+                let (left, right) = part.split_half();
+                halves.push((left, start));
+                halves.push((right, start + length));
+            }
+            for (part, start) in &halves {
+                let end = part.control_points[part.degree()];
+                if end.distance(point) < min {
+                    min = end.distance(point);
+                    nearest = start + length;
+                }
+            }
+            // parts which could only be nearer by a trifle are not worth a look
+            halves.retain(|(part, _)| part.distance_to_hull(point) < min * 0.999);
+            parts = halves;
+        }
+        ((nearest - length).max(0.0), (nearest + length).min(1.0))
+    }
+}
+
 /// bezier curve in 3D space
 impl Curve for BezierCurve<Point3> {
     fn get_point(&self, u: Float) -> Point3 {
@@ -41,9 +98,10 @@ impl Curve for BezierCurve<Point3> {
         if self.degree() == 1 {
             return crate::curve::Polyline::new(self.control_points.clone()).project(point);
         }
+        let range = self.find_nearest_range(point);
         let der1 = self.derivative();
         let der2 = der1.derivative();
-        utils::find_nearest_parameter(self, &der1, &der2, point, (0.0, 1.0), self.degree() * 4, 10)
+        utils::find_nearest_parameter(self, &der1, &der2, point, range, self.degree() * 4, 10)
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index 0a241f9..b2edc93 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -170,7 +170,7 @@ pub fn find_nearest_parameter(
     // use Newton iteration to minimize the distance between point and curve
     for _ in 0..trials {
         let delta = curve.get_point(u) - point;
-        if delta.length_squared().near(0.0) {
+        if delta.length_squared().near2(0.0) {
             return u;
         }
         let tangent = der1.get_point(u);
-- 
2.43.0


From 6d08b58d551a8669636ecae8484ca651589cc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:12 +0000
Subject: [PATCH 32/43] fix: an empty bound was saved with a line between
 vertices which do not exist

---
 src/surface/bspline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 197e37e..2c536ba 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -320,6 +320,9 @@ pub fn save_bound_as_obj<P: AsRef<std::path::Path>>(
     for i in 1..vertices.len() {
         writeln!(writer, "l {} {}", i, i + 1)?;
     }
-    writeln!(writer, "l {} {}", vertices.len(), 1)?;
+    // without vertices there is nothing to close
+    if !vertices.is_empty() {
+        writeln!(writer, "l {} {}", vertices.len(), 1)?;
+    }
     Ok(())
 }
-- 
2.43.0


From 5bfb5732be15f6cfb490569eb77b0e5abf74cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:13 +0000
Subject: [PATCH 33/43] fix: the derivative of a curve of degree 0 panicked
 instead of being zero

---
 src/curve/bezier.rs  | 5 +++++
 src/curve/bspline.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/curve/bezier.rs b/src/curve/bezier.rs
index ea9f710..ce6c214 100644
--- a/src/curve/bezier.rs
+++ b/src/curve/bezier.rs
@@ -16,6 +16,11 @@ impl<P> BezierCurve<P> {
 impl<P: std::ops::Sub<Output = P> + std::ops::Mul<Float, Output = P> + Copy> BezierCurve<P> {
     // The derivative of an nth-degree Bezier curve is an (n - 1)th-degree Bezier curve
     pub fn derivative(&self) -> BezierCurve<P> {
+        if self.degree() == 0 {
+            // a point has a zero derivative
+            let control_points = vec![self.control_points[0] * 0.0];
+            return BezierCurve { control_points };
+        }
         let n = self.degree() as Float;
         let control_points = self
             .control_points
diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index d2ef256..ed1c133 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -18,6 +18,14 @@ impl<P> BSplineCurve<P> {
 impl<P: std::ops::Sub<Output = P> + std::ops::Mul<Float, Output = P> + Copy> BSplineCurve<P> {
     // The derivative of a pth-degree B-Spline curve is a (p - 1)th-degree B-Spline curve
     pub fn derivative(&self) -> BSplineCurve<P> {
+        if self.degree == 0 {
+            // a piecewise constant curve has a zero derivative
+            return BSplineCurve {
+                control_points: self.control_points.iter().map(|&p| p * 0.0).collect(),
+                knots: self.knots.clone(),
+                degree: 0,
+            };
+        }
         let p = self.degree as Float;
         let knots = self.knots.shrink();
         let control_points = self
-- 
2.43.0


From 1969577f73546668a296996a49587431a7422c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 34/43] fix: projecting a point onto a Bezier or B-spline curve
 of degree 0 panicked

---
 src/curve/bezier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curve/bezier.rs b/src/curve/bezier.rs
index ce6c214..c3879e4 100644
--- a/src/curve/bezier.rs
+++ b/src/curve/bezier.rs
@@ -100,6 +100,9 @@ impl Curve for BezierCurve<Point3> {
     }
 
     fn project(&self, point: Point3) -> Float {
+        if self.degree() == 0 {
+            return 0.0;
+        }
         if self.degree() == 1 {
             return crate::curve::Polyline::new(self.control_points.clone()).project(point);
         }
-- 
2.43.0


From e2ddf80f12ef15062b22825f05c59748b6f1637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:34 +0000
Subject: [PATCH 35/43] fix: splitting and decomposing a B-spline curve with
 almost equal knots broke it

---
 src/curve/bspline.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index ed1c133..41deccd 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -1,5 +1,6 @@
 use super::Curve;
 use crate::{utils, utils::Tolerance, Float, KnotVector, Point3, Point4};
+use approx::ulps_eq;
 
 #[derive(Debug, Clone)]
 pub struct BSplineCurve<P> {
@@ -78,7 +79,9 @@ impl BSplineCurve<Point3> {
         let p = self.degree();
         let index = self.knots.span_index(t);
         let s = if t.near(self.knots[index]) {
-            t = self.knots[index];
+            // knots which differ only by rounding count as one, so continue after the last of them
+            let knot = self.knots[index];
+            t = self.knots.iter().fold(knot, |t, &u| if ulps_eq!(knot, u) { u } else { t });
             self.knots.multiplicity(index)
         } else {
             0
@@ -127,7 +130,7 @@ impl BSplineCurve<Point3> {
         bspline.clamp();
 
         let mut knots = self.knots.0.clone();
-        knots.dedup_by(|a, b| a.near(*b));
+        knots.dedup_by(|a, b| ulps_eq!(*a, *b));
         let n = knots.len();
 
         let mut result = Vec::with_capacity(n - 1);
@@ -159,7 +162,7 @@ impl Curve for BSplineCurve<Point3> {
     fn project(&self, point: Point3) -> Float {
         // the curve is smooth only between knots, so look for the nearest point span by span
         let mut knots = self.knots.0.clone();
-        knots.dedup_by(|a, b| a.near(*b));
+        knots.dedup_by(|a, b| ulps_eq!(*a, *b));
         let mut min = Float::MAX;
         let mut nearest = knots[0];
         for (bezier, span) in self.to_piecewise_bezier().iter().zip(knots.windows(2)) {
-- 
2.43.0


From 74ce957bdac1d31434aa1cba17fd6e754fd14f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:36 +0000
Subject: [PATCH 36/43] fix: an arc between angles full turns apart was empty
 or ran in the wrong sense

---
 src/curve/circle.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index bcd4c0f..b3460bd 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -32,11 +32,13 @@ impl Curve for Circle {
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         // an arc which ends where it starts is the full circle
         let (a0, a1) = range;
+        // the angles may already be full turns apart
+        let turns = |angle: Float| (angle / crate::consts::TAU + 1e-9).floor() + 1.0;
         if same_sense && a0 >= a1 {
-            return (a0, a1 + crate::consts::TAU);
+            return (a0, a1 + turns(a0 - a1) * crate::consts::TAU);
         }
         if !same_sense && a0 <= a1 {
-            return (a0 + crate::consts::TAU, a1);
+            return (a0 + turns(a1 - a0) * crate::consts::TAU, a1);
         }
         (a0, a1)
     }
-- 
2.43.0


From e98282c604aed8b11401884d8a46bcee66d6e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:46 +0000
Subject: [PATCH 37/43] fix: a point could be projected outside the domain of
 an unclamped B-spline curve

---
 src/curve/bspline.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 41deccd..8135087 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -160,12 +160,19 @@ impl Curve for BSplineCurve<Point3> {
     }
 
     fn project(&self, point: Point3) -> Float {
+        let p = self.degree();
+        let (start, end) = (self.knots[p], self.knots[self.knots.len() - 1 - p]);
         // the curve is smooth only between knots, so look for the nearest point span by span
         let mut knots = self.knots.0.clone();
         knots.dedup_by(|a, b| ulps_eq!(*a, *b));
         let mut min = Float::MAX;
-        let mut nearest = knots[0];
+        let mut nearest = start;
         for (bezier, span) in self.to_piecewise_bezier().iter().zip(knots.windows(2)) {
+            // the outer spans of an unclamped curve do not belong to it
+            let middle = utils::range_at((span[0], span[1]), 0.5);
+            if middle < start || middle > end {
+                continue;
+            }
             let t = bezier.project(point);
             let distance = bezier.get_point(t).distance_squared(point);
             if distance < min {
-- 
2.43.0


From 3e9f1112a71677a4a0a648473ae04d6cbdbb790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:48 +0000
Subject: [PATCH 38/43] fix: points could be projected outside the domain of an
 unclamped B-spline surface

---
 src/surface/bspline.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 2c536ba..d6c7e8d 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -115,11 +115,20 @@ impl BSplineSurface<Point3> {
         let der_vu = der_v.derivative_u();
         let der_vv = der_v.derivative_v();
 
-        let (u_range, v_range) = (self.knots.0.range(), self.knots.1.range());
+        // the outer spans of unclamped knots do not belong to the surface
+        let domain = |knots: &KnotVector, degree: u8| {
+            let p = degree as usize;
+            (knots[p], knots[knots.len() - 1 - p])
+        };
+        let u_range = domain(&self.knots.0, self.degree.0);
+        let v_range = domain(&self.knots.1, self.degree.1);
         // every knot span gets samples, however short it is
         let divide = |knots: &KnotVector, degree: u8| {
-            let mut parameters = vec![knots[0]];
-            for span in knots.0.windows(2).filter(|span| span[0] < span[1]) {
+            let (start, end) = domain(knots, degree);
+            let mut parameters = vec![start];
+            for span in knots.0.windows(2).filter(|span| {
+                span[0] < span[1] && start <= span[0] && span[1] <= end
+            }) {
                 let division = (degree as usize + 1) * 2;
                 parameters.extend_from_slice(
                     &utils::uniform_divide((span[0], span[1]), division)[1..],
-- 
2.43.0


From 97a924b9c73fe53ef5dd60698efb4ea5a7dae68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:50 +0000
Subject: [PATCH 39/43] fix: meshing a loop with a seam, or loops that touch,
 did not terminate

---
 src/utils/meshgen.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 2613cf2..2686315 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -9,13 +9,26 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
     vertices.extend_from_slice(points);
     let mut front = VecDeque::new();
 
+    // polygons may touch themselves or each other, at a seam for example, points at the same place
+    // are one node of the front
+    let extent = points
+        .iter()
+        .fold(0.0, |extent: Float, p| extent.max(p.abs().max_element()));
+    let nodes = (0..points.len())
+        .map(|i| {
+            (0..i)
+                .find(|&j| points[i].distance(points[j]) <= 1e-9 * extent)
+                .unwrap_or(i)
+        })
+        .collect::<Vec<_>>();
+
     // initialize the front with edges of polygons
     for pair in polygons.windows(2) {
         if let [start, end] = *pair {
             for i in start..(end - 1) {
-                front.push_back((i, i + 1));
+                front.push_back((nodes[i], nodes[i + 1]));
             }
-            front.push_back((end - 1, start));
+            front.push_back((nodes[end - 1], nodes[start]));
         }
     }
 
-- 
2.43.0


From 38366beabc156daa57759b97d100afa81188691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 40/43] fix: the advancing front took points in line with a
 degenerate triangle as inside of it

---
 src/utils/meshgen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 2686315..ec27109 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -176,12 +176,15 @@ fn find_intersection_with_front(
     nearby_nodes.pop().map(|(node, _)| node)
 }
 
-/// a point on an edge of the triangle counts as inside, even if it is rounded to the outer side
+/// a point on an edge of the triangle counts as inside, even if it is rounded to the outer side,
+/// but a point in line with a degenerate triangle does not
 fn is_inside_triangle(a: Point2, b: Point2, c: Point2, p: Point2) -> bool {
     let rounding = 1e-12 * a.abs().max(b.abs()).max(c.abs()).max_element();
-    [(a, b), (b, c), (c, a)]
-        .iter()
-        .all(|&(start, end)| (start - p).perp_dot(end - p) >= -rounding * (end - start).length())
+    let (min, max) = (a.min(b).min(c), a.max(b).max(c));
+    p.clamp(min, max).distance(p) <= rounding
+        && [(a, b), (b, c), (c, a)]
+            .iter()
+            .all(|&(start, end)| (start - p).perp_dot(end - p) >= -rounding * (end - start).length())
 }
 
 const MIN_GRID_SIZE: Float = 0.001;
-- 
2.43.0


From ab384770805c9ee3679bba3b1675a410fdf4f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:58 +0000
Subject: [PATCH 41/43] fix: rounding could lead the advancing front across
 itself without end

---
 src/utils/meshgen.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index ec27109..c87a508 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -4,9 +4,6 @@ use std::collections::VecDeque;
 
 /// generate triangular mesh by advancing front method
 pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<Point2>, Vec<u32>) {
-    let mut triangles = Vec::new();
-    let mut vertices = Vec::new();
-    vertices.extend_from_slice(points);
     let mut front = VecDeque::new();
 
     // polygons may touch themselves or each other, at a seam for example, points at the same place
@@ -32,7 +29,34 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
         }
     }
 
-    // advancing the front unit it is empty
+    // rounding may lead the front across itself, then it never gets empty: start at another edge
+    const MAX_TRIALS: usize = 16;
+    let step = (front.len() / MAX_TRIALS).max(1);
+    for _ in 1..MAX_TRIALS.min(front.len()) {
+        let (vertices, triangles, finished) = advance_front(points, front.clone());
+        if finished {
+            return (vertices, triangles);
+        }
+        front.rotate_right(step);
+    }
+    let (vertices, triangles, _) = advance_front(points, front);
+    (vertices, triangles)
+}
+
+/// advance the front until it is empty, or until it has covered more than there is to cover
+fn advance_front(
+    points: &[Point2],
+    mut front: VecDeque<(usize, usize)>,
+) -> (Vec<Point2>, Vec<u32>, bool) {
+    let mut triangles = Vec::new();
+    let mut vertices = points.to_vec();
+    let first = points.first().copied().unwrap_or(Point2::ZERO);
+    let (min, max) = points
+        .iter()
+        .fold((first, first), |(min, max), p| (min.min(*p), max.max(*p)));
+    let limit = 1.001 * (max.x - min.x) * (max.y - min.y);
+    let mut covered = 0.0;
+
     while let Some(edge) = front.pop_back() {
         let (a, b) = (vertices[edge.0], vertices[edge.1]);
         let mut selected_node = None;
@@ -63,6 +87,7 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
                 front.push_front((node, edge.1));
             }
             triangles.extend_from_slice(&[edge.0 as u32, edge.1 as u32, node as u32]);
+            covered += 0.5 * (b - a).perp_dot(vertices[node] - a);
         } else {
             let index = vertices.len();
             let new_point = point_on_normal_bisector(a, b, HALF_SQRT_3);
@@ -70,9 +95,13 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
             front.push_front((edge.0, index));
             front.push_front((index, edge.1));
             triangles.extend_from_slice(&[edge.0 as u32, edge.1 as u32, index as u32]);
+            covered += 0.5 * (b - a).perp_dot(new_point - a);
+        }
+        if covered > limit {
+            return (vertices, triangles, false);
         }
     }
-    (vertices, triangles)
+    (vertices, triangles, true)
 }
 
 /// generate triangular mesh with the same winding direction as the outer polygon
-- 
2.43.0


From 0f28aee7d9809d8bb576241ba8baa4b4bd5e81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:15 +0000
Subject: [PATCH 42/43] fix: meshing a cylinder face without extent did not
 terminate

---
 src/utils/meshgen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index c87a508..cdfcc82 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -97,7 +97,9 @@ fn advance_front(
             triangles.extend_from_slice(&[edge.0 as u32, edge.1 as u32, index as u32]);
             covered += 0.5 * (b - a).perp_dot(new_point - a);
         }
-        if covered > limit {
+        // also false if there are points which are not finite
+        let inside = covered <= limit;
+        if !inside {
             return (vertices, triangles, false);
         }
     }
-- 
2.43.0


From 810439a8fd6a5fb55fe71a600842a3a991db63fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:52 +0000
Subject: [PATCH 43/43] fix: B-spline surface projection got stuck at edges
 which are a single point

---
 src/surface/bspline.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index d6c7e8d..281133d 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -138,14 +138,30 @@ impl BSplineSurface<Point3> {
         };
         let u_parameters = divide(&self.knots.0, self.degree.0);
         let v_parameters = divide(&self.knots.1, self.degree.1);
-        let vertices = Grid::from_vec(
-            u_parameters
-                .iter()
-                .map(|&u| v_parameters.iter().map(move |&v| self.get_point(u, v)))
-                .flatten()
-                .collect::<Vec<Point3>>(),
-            v_parameters.len(),
-        );
+        // Newton's iteration can not leave a place where the surface hardly moves along with a parameter
+        let max_speed = |der: &BSplineSurface<Point3>| {
+            let speeds = u_parameters.iter().flat_map(|&u| {
+                v_parameters.iter().map(move |&v| der.get_point(u, v).length())
+            });
+            speeds.fold(0.0, Float::max)
+        };
+        let min_speed_u = max_speed(&der_u) * utils::TOLERANCE;
+        let min_speed_v = max_speed(&der_v) * utils::TOLERANCE;
+        let is_stuck = |u: Float, v: Float| {
+            der_u.get_point(u, v).length() < min_speed_u
+                || der_v.get_point(u, v).length() < min_speed_v
+        };
+        let mut vertices = Vec::with_capacity(u_parameters.len() * v_parameters.len());
+        for &u in &u_parameters {
+            for &v in &v_parameters {
+                vertices.push(if is_stuck(u, v) {
+                    Point3::splat(Float::INFINITY)
+                } else {
+                    self.get_point(u, v)
+                });
+            }
+        }
+        let vertices = Grid::from_vec(vertices, v_parameters.len());
 
         let trials = 50;
         points
@@ -198,7 +214,9 @@ impl BSplineSurface<Point3> {
                         let next_u = utils::clamp_in_range(u + factor * delta.x, u_range);
                         let next_v = utils::clamp_in_range(v + factor * delta.y, v_range);
                         let next_r = self.get_point(next_u, next_v) - *point;
-                        if next_r.length_squared() < r.length_squared() {
+                        if next_r.length_squared() < r.length_squared()
+                            && (next_r.length_squared().near2(0.0) || !is_stuck(next_u, next_v))
+                        {
                             u = next_u;
                             v = next_v;
                             r = next_r;
-- 
2.43.0

