From c16d000cd035ecebc687b8ca8fb0ae6eb882cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 01/49] fix: convex hulls of one to three points are closed and
 free of collinear points

---
 src/linestring_2d/convex_hull.rs | 73 +++-----------------------------
 1 file changed, 7 insertions(+), 66 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 071a8c1..02bfe0a 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -267,23 +267,13 @@ pub fn cross_2d<T: GenericVector2>(a: T, b: T, c: T) -> T::Scalar {
 /// # Ok::<(), linestring::LinestringError>(())
 ///```
 pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, LinestringError> {
-    if vertices.is_empty() {
-        return Ok(Vec::with_capacity(0));
-    }
-    if vertices[0] == vertices[vertices.len() - 1] {
+    if vertices.len() > 1 && vertices[0] == vertices[vertices.len() - 1] {
         // disregard the duplicated loop point if it exists
         vertices = &vertices[1..];
     }
-    if vertices.len() <= 2 {
+    if vertices.len() <= 1 {
         return Ok(vertices.to_vec());
     }
-    if vertices.len() == 3 {
-        return if is_point_left(vertices[0], vertices[1], vertices[2]) {
-            Ok(vertices.to_vec())
-        } else {
-            Ok(vec![vertices[0], vertices[2], vertices[1]])
-        };
-    }
 
     let starting_point = find_lowest_x(vertices)?.0;
 
@@ -416,22 +406,9 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         // disregard the duplicated loop point if it exists
         indices = &indices[0..indices.len() - 1];
     }
-    if indices.len() <= 2 {
+    if indices.len() <= 1 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
     let starting_index = indexed_find_lowest_x(vertices, indices)?.0;
 
     let mut hull = Vec::with_capacity(indices.len() / 4);
@@ -620,23 +597,13 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
 /// # Ok::<(), linestring::LinestringError>(())
 ///```
 pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>, LinestringError> {
-    if input_points.is_empty() {
-        return Ok(Vec::with_capacity(0));
-    }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
-    if input_points.len() <= 2 {
+    if input_points.len() <= 1 {
         return Ok(input_points.to_vec());
     }
-    if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
-    }
 
     let (_, starting_point) = find_lowest_x(input_points)?;
     //let ref_dir = T::new(T::Scalar::ONE, T::Scalar::ZERO);
@@ -760,22 +727,9 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
         // disregard the duplicated loop point if it exists
         indices = &indices[0..indices.len() - 1];
     }
-    if indices.len() <= 2 {
+    if indices.len() <= 1 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
     let (start_index, start_point) = if let Some(start_index) = start_index {
         (start_index, vertices[start_index])
     } else {
@@ -1133,22 +1087,9 @@ pub fn convex_hull_par<T: GenericVector2>(
         // disregard the duplicated loop point if it exists
         indices = &indices[0..indices.len() - 1];
     }
-    if indices.len() <= 2 {
+    if indices.len() <= 1 {
         return Ok(indices.to_vec());
     }
-    if indices.len() == 3 {
-        return if is_point_left(
-            vertices[indices[0]],
-            vertices[indices[1]],
-            vertices[indices[2]],
-        ) {
-            // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
-            // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
-    }
 
     // Create chunks of indices
     let chunks: Vec<_> = indices.chunks(per_thread_chunk_size).collect();
-- 
2.43.0


From 36b38fc193e7c4ff3a34011c0d5fb76e7081ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 02/49] fix: gift wrapping of point sets with duplicated
 vertices

---
 src/linestring_2d/convex_hull.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 02bfe0a..fe87d5d 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -294,7 +294,11 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         let mut end_point = (point_on_hull + 1) % vertices.len();
 
         for j in 0..vertices.len() {
-            if j == point_on_hull || j == end_point || visited[j] {
+            if j == point_on_hull
+                || j == end_point
+                || visited[j]
+                || vertices[j] == vertices[point_on_hull]
+            {
                 continue;
             }
 
@@ -313,7 +317,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_point {
+                } else if j != starting_point && distance_sq_candidate < distance_sq_end_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     //println!("coll marking {:?}:{} as visited", input_points[j], j);
                     let _ = visited.set(j, true);
@@ -322,7 +326,8 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         }
 
         point_on_hull = end_point;
-        if end_point == starting_point {
+        // compare the positions, the starting point might be duplicated
+        if vertices[end_point] == vertices[starting_point] {
             // complete the loop, `hull` now represents a closed loop of points.
             // Each edge can be iterated over by `hull.iter().window(2)`
             hull.push(vertices[end_point]);
@@ -427,7 +432,11 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         let mut end_point = (point_on_hull + 1) % indices.len();
 
         for j in 0..indices.len() {
-            if j == point_on_hull || j == end_point || visited[j] {
+            if j == point_on_hull
+                || j == end_point
+                || visited[j]
+                || vertices[indices[j]] == vertices[indices[point_on_hull]]
+            {
                 continue;
             }
 
@@ -449,7 +458,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_index {
+                } else if j != starting_index && distance_sq_candidate < distance_sq_end_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     let _ = visited.set(j, true);
                 }
@@ -457,7 +466,8 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         }
 
         point_on_hull = end_point;
-        if end_point == starting_index {
+        // compare the positions, the starting point might be duplicated
+        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
             break;
         }
     }
-- 
2.43.0


From 9ef4ab094e4be0b4d1f0a0cdca5688713dcec5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 03/49] fix: indexed graham scan when the starting point is
 duplicated

---
 src/linestring_2d/convex_hull.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index fe87d5d..c0e9242 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -768,10 +768,11 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-        if *i == start_index {
+        let p = vertices[*i];
+        // compare the positions, the starting point might be duplicated
+        if p == start_point {
             continue;
         }
-        let p = vertices[*i];
         while hull.len() > 1 {
             let last_in_hull = hull.len() - 1;
             let cross = cross_2d(
-- 
2.43.0


From cde681b348f311c8d8b8f2107c0ae01990c54f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 04/49] fix: parallel convex hull drops vertices or never
 terminates when merging partial hulls

---
 src/linestring_2d/convex_hull.rs | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index c0e9242..2df60c2 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -833,9 +833,8 @@ struct VertexIndex {
 /// We keep track of from what list the start_point, point_on_hull and endpoint comes from.
 /// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
 /// though a list of `j` candidates to try to find a better end-point.
-/// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. If an end point is found in `ìndices_b` but another invalid one is
-/// found the inner loop ends.
+/// First it picks `end_point` to be from `ìndices_a`, then it iterates over all of `ìndices_b` trying
+/// to find a better `end_point`.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
@@ -919,9 +918,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         );*/
 
         if point_on_hull.from_a {
-            // when we have found a good end_point from indices_b and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_b_point = false;
             for (jj, j) in indices_b.iter().enumerate() {
                 let j = *j;
 
@@ -941,7 +937,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = false;
-                    found_a_legit_b_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -954,23 +949,13 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = false;
-                        found_a_legit_b_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_b_point {
-                        break;
-                    }
                 }
             }
         } else {
-            // when we have found a good end_point from indices_a and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_a_point = false;
             for (jj, j) in indices_a.iter().enumerate() {
                 let j = *j;
 
@@ -990,7 +975,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = true;
-                    found_a_legit_a_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -1003,17 +987,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = true;
-                        found_a_legit_a_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_a_point {
-                        break;
-                    }
                 }
             }
         }
@@ -1024,7 +1001,8 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         println!();
          */
         point_on_hull = end_point.clone();
-        if end_point.index == starting_index.index {
+        // compare the positions, the starting point might be duplicated
+        if vertices[end_point.index] == vertices[starting_index.index] {
             break;
         }
     }
-- 
2.43.0


From c1dfcc370a9ca7000964ad8a58b5dbea4f0088b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 05/49] fix: inclusive point test of degenerate convex hulls
 accepts points beyond the vertices

---
 src/linestring_2d/convex_hull.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 2df60c2..a363501 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -44,7 +44,10 @@ mod impls;
 #[cfg(test)]
 mod tests;
 
-use crate::{linestring_2d::LineString2, LinestringError};
+use crate::{
+    linestring_2d::{Aabb2, LineString2},
+    LinestringError,
+};
 use itertools::Itertools;
 use rayon::prelude::*;
 use std::cmp::Ordering;
@@ -1435,5 +1438,9 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
             return false;
         }
     }
-    true
+    // all points on the infinite line are collinear to a degenerate hull (a point or a line),
+    // make sure that `p` is situated between the vertices as well.
+    let mut aabb = Aabb2::with_points(slice);
+    aabb.update_with_point(input[input_offset]);
+    aabb.contains_point_inclusive(p)
 }
-- 
2.43.0


From f6c51d4ae5302ff7a56f7d271ce12d18c9628b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 06/49] fix: exclusive point test rejects points on the
 internal diagonals of a convex hull

---
 src/linestring_2d/convex_hull.rs | 48 +++++++++++++++-----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index a363501..534e199 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1260,6 +1260,9 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         (&input[..], 0)
     };
     let mut retain_index_0 = false;
+    // true as long as the end of `slice` is the end of the hull, i.e. the edge from the last vertex
+    // of `slice` back to the first vertex of the hull is an edge of the hull.
+    let mut ends_with_hull_edge = true;
 
     while (slice.len() > 3) || (retain_index_0 && slice.len() > 2) {
         let mid = if retain_index_0 {
@@ -1287,6 +1290,7 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         } else {
             // Point is to the right of the first half
             slice = &slice[..mid + 1];
+            ends_with_hull_edge = false;
             /*if retain_index_0 {
                 println!("new (right) slice: 0+{:?}", slice);
             } else {
@@ -1296,36 +1300,28 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     }
 
     //println!("{:?}", slice );
-    // Check the final slice (triangle)
-    if retain_index_0 {
-        if !is_point_left(input[input_offset], slice[0], p) {
-            //println!("return false 3.1 for slice: 0+{:?}", slice);
-            return false;
-        }
-        for window in slice.windows(2) {
-            if !is_point_left(window[0], window[1], p) {
-                //println!("return false 3.2 for slice: 0+{:?}", slice);
-                return false;
-            }
-        }
-        if !is_point_left(slice[slice.len() - 1], input[input_offset], p) {
-            //println!("return false 3.3 slice:0+{:?}", slice);
+    // Check the final slice (triangle), it is fine for the point to be located on the internal
+    // diagonals of the hull as long as it is not located at the vertex they share.
+    let first = input[input_offset];
+    if p == first {
+        return false;
+    }
+    if retain_index_0 && !is_point_left_allow_collinear(first, slice[0], p) {
+        //println!("return false 3.1 for slice: 0+{:?}", slice);
+        return false;
+    }
+    for window in slice.windows(2) {
+        if !is_point_left(window[0], window[1], p) {
+            //println!("return false 3.2 for slice: {:?}", slice);
             return false;
         }
+    }
+    let last = slice[slice.len() - 1];
+    if ends_with_hull_edge {
+        is_point_left(last, first, p)
     } else {
-        for window in slice.windows(2) {
-            //println!("testing {:?} {:?}", window[0], window[1]);
-            if !is_point_left(window[0], window[1], p) {
-                //println!("return false 3");
-                return false;
-            }
-        }
-        if !is_point_left(slice[slice.len() - 1], slice[0], p) {
-            //println!("return false 4 slice:{:?}", slice);
-            return false;
-        }
+        is_point_left_allow_collinear(last, first, p)
     }
-    true
 }
 
 /// Returns true if the 'a' convex hull contains the 'b' point (inclusive)
-- 
2.43.0


From ad80ea3d5564672b6ca5d09fe25cfc873929018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 07/49] fix: ray_edge_intersection reports collinear edges
 behind the origin of the ray

---
 src/linestring_2d.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 65504a2..55d1495 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -842,12 +842,15 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         if ulps_eq!(r_cross_s, T::Scalar::zero()) {
             let q_minus_p = p0.sub(origin);
             let q_minus_p_cross_r = q_minus_p.perp_dot(ray_dir);
-            ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()).then(|| {
-                let r_dot_r = ray_dir.dot(ray_dir);
-                let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
-                let t1: T::Scalar = t0 + s.dot(ray_dir) / r_dot_r;
-                t0.min(t1)
-            })
+            if !ulps_eq!(q_minus_p_cross_r, T::Scalar::zero()) {
+                return None;
+            }
+            let r_dot_r = ray_dir.dot(ray_dir);
+            let t0 = q_minus_p.dot(ray_dir) / r_dot_r;
+            let t1: T::Scalar = t0 + s.dot(ray_dir) / r_dot_r;
+            // the edge must not be situated entirely behind the origin of the ray
+            (t0 >= T::Scalar::ZERO || t1 >= T::Scalar::ZERO)
+                .then(|| t0.min(t1).max(T::Scalar::ZERO))
         } else {
             let q_minus_p = p0.sub(origin);
             let t = q_minus_p.perp_dot(s) / r_cross_s;
-- 
2.43.0


From 0691e07816d3777cccf2a1017b50d2928eeea720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 08/49] fix: sweep-line reports a zero length line as
 intersecting itself

---
 src/linestring_2d/intersection.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index e1fa8c3..6ab4011 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -477,8 +477,11 @@ impl<T: GenericVector2> IntersectionData<T> {
             let key_start = SiteEventKey::new(aline.start);
             let key_end = SiteEventKey::new(aline.end);
 
-            // start points goes into the site_event::add list
-            if let Some(event) = site_events.get_mut(&key_start) {
+            // start points goes into the site_event::add list, unless the line starts and ends
+            // in the same event. Such a line is never active, it is only a point.
+            if key_start == key_end {
+                // only the drop list
+            } else if let Some(event) = site_events.get_mut(&key_start) {
                 let mut lower = event.add.take().map_or(Vec::<usize>::new(), identity);
                 lower.push(index);
                 event.add = Some(lower);
-- 
2.43.0


From 282275d162d22b8633f6a3ca6a1788b972202384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 09/49] fix: sweep-line misses lines which touch the interior
 of another line with their first end point

---
 src/linestring_2d/intersection.rs | 46 ++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 6ab4011..3d8eb39 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -389,6 +389,20 @@ fn sweepline_intersection<T: GenericVector2>(
     Some(((sweepline.y() - d) / slope, slope))
 }
 
+/// The rounding error to expect from a position calculated somewhere along `line`.
+fn position_tolerance<T: GenericVector2>(line: &linestring_2d::Line2<T>) -> T::Scalar {
+    let magnitude = (line.start.x().abs() + line.start.y().abs())
+        .max(line.end.x().abs() + line.end.y().abs());
+    magnitude * T::Scalar::default_epsilon() * (T::Scalar::TWO + T::Scalar::TWO)
+}
+
+/// Returns true if `point`, known to be located between the end points of `line`, is on the line
+fn is_point_on_line<T: GenericVector2>(point: T, line: &linestring_2d::Line2<T>) -> bool {
+    let direction = line.end - line.start;
+    (point - line.start).perp_dot(direction).abs()
+        <= position_tolerance(line) * direction.x().abs().max(direction.y().abs())
+}
+
 /// Contains the data the sweep-line intersection algorithm needs to operate.
 /// Some of these containers are stored inside an Option. This makes it possible
 /// to take() them and make the borrow-checker happy.
@@ -631,9 +645,25 @@ impl<T: GenericVector2> IntersectionData<T> {
     ) -> Result<(), LinestringError> {
         self.sweepline_pos = key.pos;
 
+        // remove 'drop' lines from the active lines
+        for line_index in event.drop.iter().flatten() {
+            let _ = active_lines.remove(line_index);
+        }
+
+        // The lines passing through this point. This includes the active lines this event was
+        // not aware of, e.g. when the event is only the end point of some other line.
+        let mut intersections: Vec<usize> = event.intersection.iter().flatten().copied().collect();
+        intersections.extend(
+            active_lines
+                .iter()
+                .filter(|line_index| is_point_on_line(self.sweepline_pos, &self.lines[**line_index])),
+        );
+        intersections.sort_unstable();
+        intersections.dedup();
+
         let removed_active_lines = event.drop.iter().flatten().count();
         let added_active_lines = event.add.iter().flatten().count();
-        let intersections_found = event.intersection.iter().flatten().count();
+        let intersections_found = intersections.len();
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
@@ -658,7 +688,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos,
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         } else if removed_active_lines + added_active_lines + intersections_found > 1 {
@@ -681,23 +711,18 @@ impl<T: GenericVector2> IntersectionData<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos,
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         }
 
-        // remove 'drop' lines from the active lines
-        for line_index in event.drop.iter().flatten() {
-            let _ = active_lines.remove(line_index);
-        }
-
         //
         // calculate the sweep-line status for this point (aka the 'leftright' struct)
         //
         neighbour_priority.clear();
 
         'active_lines: for line_index in active_lines.iter() {
-            for i in event.intersection.iter().flatten() {
+            for i in intersections.iter() {
                 // lines intersecting at this point can never be left/right candidates
                 if i == line_index {
                     continue 'active_lines;
@@ -739,7 +764,7 @@ impl<T: GenericVector2> IntersectionData<T> {
             for l in event.add.iter().flatten() {
                 connected_priority.update_both(*l, &self.lines);
             }
-            for l in event.intersection.iter().flatten() {
+            for l in intersections.iter() {
                 connected_priority.update_both(*l, &self.lines);
             }
 
@@ -833,5 +858,6 @@ impl<T: GenericVector2> IntersectionData<T> {
             value.push(*line);
         }
         value.sort_unstable();
+        value.dedup();
     }
 }
-- 
2.43.0


From 80a2078a20863c56e57d0102fec61beb8e6df56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 10/49] fix: sweep-line misses crossings due to wrong neighbour
 selection and rounding

---
 src/linestring_2d/intersection.rs | 66 ++++++++++++++++---------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 3d8eb39..538b2b9 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -126,12 +126,15 @@ where
     }
 
     /// keep track of the candidates closest (on both sides) to pivot_x
+    /// `candidate_slope` is the slope of the candidate as dx/dy. When several candidates are equally
+    /// close the one leaning the most towards pivot_x is the closest just above the sweep-line.
     pub(crate) fn update(
         &mut self,
         pivot_x: T::Scalar,
         candidate_x: T::Scalar,
         candidate_slope: T::Scalar,
         candidate_index: usize,
+        tolerance: T::Scalar,
     ) {
         if candidate_x < pivot_x {
             /*println!(
@@ -140,13 +143,13 @@ where
             );*/
             // handle left side
             if let Some(current_min) = self.best_left {
-                if approx::ulps_eq!(&current_min, &candidate_x) {
+                if (current_min - candidate_x).abs() <= tolerance {
                     self.slope
-                        .update_left(false, candidate_slope, candidate_index);
+                        .update_left(false, -candidate_slope, candidate_index);
                 } else if current_min < candidate_x {
                     // this candidate is better.
                     self.slope
-                        .update_left(true, candidate_slope, candidate_index);
+                        .update_left(true, -candidate_slope, candidate_index);
                     self.best_left = Some(candidate_x);
                 } else {
                     /*println!(
@@ -158,7 +161,7 @@ where
                 // First sample
                 self.best_left = Some(candidate_x);
                 self.slope
-                    .update_left(false, candidate_slope, candidate_index);
+                    .update_left(false, -candidate_slope, candidate_index);
             }
         } else if candidate_x > pivot_x {
             /*println!(
@@ -167,13 +170,13 @@ where
             );*/
             // handle right side
             if let Some(current_max) = self.best_right {
-                if approx::ulps_eq!(&current_max, &candidate_x) {
+                if (current_max - candidate_x).abs() <= tolerance {
                     self.slope
-                        .update_right(false, candidate_slope, candidate_index);
+                        .update_right(false, -candidate_slope, candidate_index);
                 } else if current_max > candidate_x {
                     // this candidate is better.
                     self.slope
-                        .update_right(true, candidate_slope, candidate_index);
+                        .update_right(true, -candidate_slope, candidate_index);
                     self.best_right = Some(candidate_x);
                 } else {
                     /*println!(
@@ -185,7 +188,7 @@ where
                 // First sample
                 self.best_right = Some(candidate_x);
                 self.slope
-                    .update_right(false, candidate_slope, candidate_index);
+                    .update_right(false, -candidate_slope, candidate_index);
             }
         }
     }
@@ -363,12 +366,12 @@ impl SiteEvent {
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
+/// Second return value is the slope of the line, as dx/dy
 fn sweepline_intersection<T: GenericVector2>(
     sweepline: T,
     other: &linestring_2d::Line2<T>,
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
+    // line equation: x = x1 + slope*(y-y1)
     let y1 = other.start.y();
     let y2 = other.end.y();
     let x1 = other.start.x();
@@ -376,23 +379,21 @@ fn sweepline_intersection<T: GenericVector2>(
     if approx::ulps_eq!(&y1, &y2) {
         // horizontal line: return to the point right of sweepline.x, if any
         // Any point to the left are supposedly already handled.
-        return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
+        return (sweepline.x() < x2).then_some((x2, T::Scalar::INFINITY));
     }
 
     if approx::ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
+        return Some((x1, T::Scalar::ZERO));
     }
 
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
+    let slope = (x2 - x1) / (y2 - y1);
+    Some((x1 + (sweepline.y() - y1) * slope, slope))
 }
 
 /// The rounding error to expect from a position calculated somewhere along `line`.
 fn position_tolerance<T: GenericVector2>(line: &linestring_2d::Line2<T>) -> T::Scalar {
-    let magnitude = (line.start.x().abs() + line.start.y().abs())
-        .max(line.end.x().abs() + line.end.y().abs());
+    let magnitude =
+        (line.start.x().abs() + line.start.y().abs()).max(line.end.x().abs() + line.end.y().abs());
     magnitude * T::Scalar::default_epsilon() * (T::Scalar::TWO + T::Scalar::TWO)
 }
 
@@ -654,9 +655,9 @@ impl<T: GenericVector2> IntersectionData<T> {
         // not aware of, e.g. when the event is only the end point of some other line.
         let mut intersections: Vec<usize> = event.intersection.iter().flatten().copied().collect();
         intersections.extend(
-            active_lines
-                .iter()
-                .filter(|line_index| is_point_on_line(self.sweepline_pos, &self.lines[**line_index])),
+            active_lines.iter().filter(|line_index| {
+                is_point_on_line(self.sweepline_pos, &self.lines[**line_index])
+            }),
         );
         intersections.sort_unstable();
         intersections.dedup();
@@ -730,8 +731,9 @@ impl<T: GenericVector2> IntersectionData<T> {
             }
 
             //print!("(sweepline_intersection id={:?}", line_index);
+            let line = self.lines.get(*line_index).unwrap();
             if let Some((intersection_x, intersection_slope)) =
-                sweepline_intersection(self.sweepline_pos, self.lines.get(*line_index).unwrap())
+                sweepline_intersection(self.sweepline_pos, line)
             {
                 //println!(" @{}^{})", intersection_x, intersection_slope);
                 neighbour_priority.update(
@@ -739,6 +741,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                     intersection_x,
                     intersection_slope,
                     *line_index,
+                    position_tolerance(line) * (T::Scalar::ONE + intersection_slope.abs()),
                 );
             }
         }
@@ -807,7 +810,7 @@ impl<T: GenericVector2> IntersectionData<T> {
                 }
 
                 if let Some(intersection_p) = left_l.intersection_point(right_l) {
-                    let intersection_p = intersection_p.single();
+                    let mut intersection_p = intersection_p.single();
                     if !intersection_p.x().is_finite() || !intersection_p.y().is_finite() {
                         return Err(LinestringError::InvalidData(format!(
                             "Input data has intersection at invalid position x:{:?}, y:{:?}",
@@ -815,16 +818,15 @@ impl<T: GenericVector2> IntersectionData<T> {
                             intersection_p.y()
                         )));
                     }
-                    // don't allow intersection 'behind' or 'at' current sweep-line position
-                    if intersection_p.y() >= self.sweepline_pos.y()
-                        && !(intersection_p.y() == self.sweepline_pos.y()
-                            && intersection_p.x() < self.sweepline_pos.x())
-                        && !intersection_p.is_ulps_eq(
-                            self.sweepline_pos,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        )
+                    // rounding may place an intersection at the sweep-line just below it
+                    if intersection_p.y() < self.sweepline_pos.y()
+                        && self.sweepline_pos.y() - intersection_p.y()
+                            <= position_tolerance(&left_l).max(position_tolerance(&right_l))
                     {
+                        intersection_p = T::new_2d(intersection_p.x(), self.sweepline_pos.y());
+                    }
+                    // don't allow intersection 'behind' or 'at' current sweep-line position
+                    if SiteEventKey::new(intersection_p) > SiteEventKey::new(self.sweepline_pos) {
                         self.add_intersection_event(
                             site_events,
                             &SiteEventKey {
-- 
2.43.0


From 4c2aae997e4137ab12f9ffc42fdf9279b5fee879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 11/49] fix: indexed sweep-line reports a zero length edge as
 intersecting itself

---
 src/linestring_2d/indexed_intersection.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d6c41d2..b43b96e 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -546,8 +546,11 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 index: Some(end_index),
             };
 
-            // start points goes into the site_event::add list
-            if let Some(event) = site_events.get_mut(&key_start) {
+            // start points goes into the site_event::add list, unless the edge starts and ends
+            // in the same event. Such an edge is never active, it is only a point.
+            if key_start == key_end {
+                // only the drop list
+            } else if let Some(event) = site_events.get_mut(&key_start) {
                 let mut lower = event.add.take().map_or(Vec::<usize>::default(), identity);
                 lower.push(index);
                 event.add = Some(lower);
-- 
2.43.0


From 46af467328482efbe70f81d757326367f4f88ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 12/49] fix: indexed sweep-line misses edges which touch the
 interior of another edge with their first end point

---
 src/linestring_2d/indexed_intersection.rs | 44 +++++++++++++++++------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index b43b96e..ad82f9b 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -399,6 +399,20 @@ fn sweepline_intersection<T: GenericVector2>(
     Some(((sweepline.y() - d) / slope, slope))
 }
 
+/// The rounding error to expect from a position calculated somewhere along `line`.
+fn position_tolerance<T: GenericVector2>(vertices: &[T], line: (usize, usize)) -> T::Scalar {
+    let magnitude = (vertices[line.0].x().abs() + vertices[line.0].y().abs())
+        .max(vertices[line.1].x().abs() + vertices[line.1].y().abs());
+    magnitude * T::Scalar::default_epsilon() * (T::Scalar::TWO + T::Scalar::TWO)
+}
+
+/// Returns true if `point`, known to be located between the end points of `line`, is on the line
+fn is_point_on_line<T: GenericVector2>(vertices: &[T], point: T, line: (usize, usize)) -> bool {
+    let direction = vertices[line.1] - vertices[line.0];
+    (point - vertices[line.0]).perp_dot(direction).abs()
+        <= position_tolerance(vertices, line) * direction.x().abs().max(direction.y().abs())
+}
+
 /// Contains the data the sweep-line intersection algorithm needs to operate.
 /// Some of these containers are stored inside an Option. This makes it possible
 /// to take() them and make the borrow-checker happy.
@@ -711,9 +725,23 @@ impl<T: GenericVector2> IntersectionTester<T> {
         self.sweepline_pos = key.pos;
         self.sweepline_pos_index = key.index;
 
+        // remove 'drop' lines from the active lines
+        for line_index in event.drop.iter().flatten() {
+            let _ = active_lines.remove(line_index);
+        }
+
+        // The lines passing through this point. This includes the active lines this event was
+        // not aware of, e.g. when the event is only the end point of some other line.
+        let mut intersections: Vec<usize> = event.intersection.iter().flatten().copied().collect();
+        intersections.extend(active_lines.iter().filter(|line_index| {
+            is_point_on_line(&self.vertices, self.sweepline_pos, self.lines[**line_index])
+        }));
+        intersections.sort_unstable();
+        intersections.dedup();
+
         let removed_active_lines = event.drop.iter().flatten().count();
         let added_active_lines = event.add.iter().flatten().count();
-        let intersections_found = event.intersection.iter().flatten().count();
+        let intersections_found = intersections.len();
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
@@ -741,7 +769,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         println!("self.sweepline_pos:{:?}", self.sweepline_pos);
                         panic!();
                     }),
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         } else if removed_active_lines + added_active_lines + intersections_found > 1 {
@@ -764,23 +792,18 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 self.report_intersections_to_result(
                     result,
                     self.sweepline_pos_index.unwrap(),
-                    event.intersection.iter().flatten(),
+                    intersections.iter(),
                 );
             }
         }
 
-        // remove 'drop' lines from the active lines
-        for line_index in event.drop.iter().flatten() {
-            let _ = active_lines.remove(line_index);
-        }
-
         //
         // calculate the sweep-line status for this point (aka the 'leftright' struct)
         //
         neighbour_priority.clear();
 
         'active_lines: for line_index in active_lines.iter() {
-            for i in event.intersection.iter().flatten() {
+            for i in intersections.iter() {
                 // lines intersecting at this point can never be left/right candidates
                 if i == line_index {
                     continue 'active_lines;
@@ -824,7 +847,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
             for l in event.add.iter().flatten() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
-            for l in event.intersection.iter().flatten() {
+            for l in intersections.iter() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
 
@@ -930,5 +953,6 @@ impl<T: GenericVector2> IntersectionTester<T> {
             value.push(*line);
         }
         value.sort_unstable();
+        value.dedup();
     }
 }
-- 
2.43.0


From 154ad9e5ff5e0ed5606f9b2c9437138fc26f4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 13/49] fix: indexed sweep-line misses crossings due to wrong
 neighbour selection and rounding

---
 src/linestring_2d/indexed_intersection.rs | 79 ++++++++++++-----------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index ad82f9b..a693523 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -129,12 +129,15 @@ where
     }
 
     /// keep track of the candidates closest (on both sides) to pivot_x
+    /// `candidate_slope` is the slope of the candidate as dx/dy. When several candidates are equally
+    /// close the one leaning the most towards pivot_x is the closest just above the sweep-line.
     fn update(
         &mut self,
         pivot_x: T::Scalar,
         candidate_x: T::Scalar,
         candidate_slope: T::Scalar,
         candidate_index: usize,
+        tolerance: T::Scalar,
     ) {
         if candidate_x < pivot_x {
             /*println!(
@@ -143,13 +146,13 @@ where
             );*/
             // handle left side
             if let Some(current_min) = self.best_left {
-                if ulps_eq!(&current_min, &candidate_x) {
+                if (current_min - candidate_x).abs() <= tolerance {
                     self.slope
-                        .update_left(false, candidate_slope, candidate_index);
+                        .update_left(false, -candidate_slope, candidate_index);
                 } else if current_min < candidate_x {
                     // this candidate is better.
                     self.slope
-                        .update_left(true, candidate_slope, candidate_index);
+                        .update_left(true, -candidate_slope, candidate_index);
                     self.best_left = Some(candidate_x);
                 } else {
                     /*println!(
@@ -161,7 +164,7 @@ where
                 // First sample
                 self.best_left = Some(candidate_x);
                 self.slope
-                    .update_left(false, candidate_slope, candidate_index);
+                    .update_left(false, -candidate_slope, candidate_index);
             }
         } else if candidate_x > pivot_x {
             /*println!(
@@ -170,13 +173,13 @@ where
             );*/
             // handle right side
             if let Some(current_max) = self.best_right {
-                if ulps_eq!(&current_max, &candidate_x) {
+                if (current_max - candidate_x).abs() <= tolerance {
                     self.slope
-                        .update_right(false, candidate_slope, candidate_index);
+                        .update_right(false, -candidate_slope, candidate_index);
                 } else if current_max > candidate_x {
                     // this candidate is better.
                     self.slope
-                        .update_right(true, candidate_slope, candidate_index);
+                        .update_right(true, -candidate_slope, candidate_index);
                     self.best_right = Some(candidate_x);
                 } else {
                     /*println!(
@@ -188,7 +191,7 @@ where
                 // First sample
                 self.best_right = Some(candidate_x);
                 self.slope
-                    .update_right(false, candidate_slope, candidate_index);
+                    .update_right(false, -candidate_slope, candidate_index);
             }
         }
     }
@@ -369,13 +372,13 @@ impl SiteEvent {
 }
 
 /// Returns *one* point of intersection between the `sweepline` and `other`
-/// Second return value is the slope of the line
+/// Second return value is the slope of the line, as dx/dy
 fn sweepline_intersection<T: GenericVector2>(
     vertices: &[T],
     sweepline: T,
     other: (usize, usize),
 ) -> Option<(T::Scalar, T::Scalar)> {
-    // line equation: y=slope*x+d => d=y-slope*x => x = (y-d)/slope
+    // line equation: x = x1 + slope*(y-y1)
     let other_start = vertices[other.0];
     let other_end = vertices[other.1];
 
@@ -386,17 +389,15 @@ fn sweepline_intersection<T: GenericVector2>(
     if ulps_eq!(&y1, &y2) {
         // horizontal line: return to the point right of sweepline.x, if any
         // Any point to the left are supposedly already handled.
-        return (sweepline.x() < x2).then_some((x2, T::Scalar::ZERO));
+        return (sweepline.x() < x2).then_some((x2, T::Scalar::INFINITY));
     }
 
     if ulps_eq!(&x1, &x2) {
-        return Some((x1, T::Scalar::INFINITY));
+        return Some((x1, T::Scalar::ZERO));
     }
 
-    let slope = (y2 - y1) / (x2 - x1);
-
-    let d = y1 - slope * x1;
-    Some(((sweepline.y() - d) / slope, slope))
+    let slope = (x2 - x1) / (y2 - y1);
+    Some((x1 + (sweepline.y() - y1) * slope, slope))
 }
 
 /// The rounding error to expect from a position calculated somewhere along `line`.
@@ -811,17 +812,18 @@ impl<T: GenericVector2> IntersectionTester<T> {
             }
 
             //print!("(sweepline_intersection id={:?}", line_index);
-            if let Some((intersection_x, intersection_slope)) = sweepline_intersection(
-                &self.vertices,
-                self.sweepline_pos,
-                *self.lines.get(*line_index).unwrap(),
-            ) {
+            let line = *self.lines.get(*line_index).unwrap();
+            if let Some((intersection_x, intersection_slope)) =
+                sweepline_intersection(&self.vertices, self.sweepline_pos, line)
+            {
                 //println!(" @{}^{})", intersection_x, intersection_slope);
                 neighbour_priority.update(
                     self.sweepline_pos.x(),
                     intersection_x,
                     intersection_slope,
                     *line_index,
+                    position_tolerance(&self.vertices, line)
+                        * (T::Scalar::ONE + intersection_slope.abs()),
                 );
             }
         }
@@ -895,7 +897,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 let right_l_as_line =
                     Line2::new(self.vertices[right_l.0], self.vertices[right_l.1]);
                 if let Some(intersection_p) = left_l_as_line.intersection_point(right_l_as_line) {
-                    let intersection_p = intersection_p.single();
+                    let mut intersection_p = intersection_p.single();
                     if !intersection_p.x().is_finite() || !intersection_p.y().is_finite() {
                         return Err(LinestringError::InvalidData(format!(
                             "Input data has intersection at invalid position x:{:?}, y:{:?}",
@@ -903,24 +905,29 @@ impl<T: GenericVector2> IntersectionTester<T> {
                             intersection_p.y()
                         )));
                     }
-                    // don't allow intersection 'behind' or 'at' current sweep-line position
-                    if intersection_p.y() >= self.sweepline_pos.y()
-                        && !(intersection_p.y() == self.sweepline_pos.y()
-                            && intersection_p.x() < self.sweepline_pos.x())
-                        && !intersection_p.is_ulps_eq(
-                            self.sweepline_pos,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        )
+                    // rounding may place an intersection at the sweep-line just below it
+                    if intersection_p.y() < self.sweepline_pos.y()
+                        && self.sweepline_pos.y() - intersection_p.y()
+                            <= position_tolerance(&self.vertices, left_l)
+                                .max(position_tolerance(&self.vertices, right_l))
                     {
-                        let intersection_p_index = self.vertices.len();
+                        intersection_p = T::new_2d(intersection_p.x(), self.sweepline_pos.y());
+                    }
+                    let intersection_p_index = self.vertices.len();
+                    let intersection_key = SiteEventKey {
+                        pos: intersection_p,
+                        index: Some(intersection_p_index),
+                    };
+                    let sweepline_key = SiteEventKey {
+                        pos: self.sweepline_pos,
+                        index: self.sweepline_pos_index,
+                    };
+                    // don't allow intersection 'behind' or 'at' current sweep-line position
+                    if intersection_key > sweepline_key {
                         self.vertices.push(intersection_p);
                         self.add_intersection_event(
                             site_events,
-                            &SiteEventKey {
-                                pos: intersection_p,
-                                index: Some(intersection_p_index),
-                            },
+                            &intersection_key,
                             &[*left_i, *right_i],
                         )
                     }
-- 
2.43.0


From a3097f55cd9b7756cb4b6645bcb0fb2c4193b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 14/49] fix: adding lines to the sweep-line intersection in
 several steps restarts the line numbering

---
 src/linestring_2d/indexed_intersection.rs | 3 ++-
 src/linestring_2d/intersection.rs         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index a693523..8dcef4d 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -520,7 +520,8 @@ impl<T: GenericVector2> IntersectionTester<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, aline) in input_iter.into_iter().enumerate() {
+        for aline in input_iter {
+            let index = self.lines.len();
             let mut start_index = aline.0;
             let mut start = self.vertices[start_index];
             let mut end_index = aline.1;
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 538b2b9..18bfe7b 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -470,7 +470,8 @@ impl<T: GenericVector2> IntersectionData<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, mut aline) in input_iter.enumerate() {
+        for mut aline in input_iter {
+            let index = self.lines.len();
             if !(aline.start.x().is_finite()
                 && aline.start.y().is_finite()
                 && aline.end.x().is_finite()
-- 
2.43.0


From 0ce61edd94e0dda9a1772e191a8d4fc6d012fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 15/49] fix: sweep-line reports intersections beyond the end of
 horizontal lines due to rounding

---
 src/linestring_2d/indexed_intersection.rs | 7 +++++++
 src/linestring_2d/intersection.rs         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 8dcef4d..a43cebf 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -906,6 +906,13 @@ impl<T: GenericVector2> IntersectionTester<T> {
                             intersection_p.y()
                         )));
                     }
+                    // rounding may place an intersection just above or below a horizontal line
+                    let min_y = (left_l_as_line.start.y().min(left_l_as_line.end.y()))
+                        .max(right_l_as_line.start.y().min(right_l_as_line.end.y()));
+                    let max_y = (left_l_as_line.start.y().max(left_l_as_line.end.y()))
+                        .min(right_l_as_line.start.y().max(right_l_as_line.end.y()));
+                    intersection_p =
+                        T::new_2d(intersection_p.x(), intersection_p.y().min(max_y).max(min_y));
                     // rounding may place an intersection at the sweep-line just below it
                     if intersection_p.y() < self.sweepline_pos.y()
                         && self.sweepline_pos.y() - intersection_p.y()
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 18bfe7b..8b585f5 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -819,6 +819,13 @@ impl<T: GenericVector2> IntersectionData<T> {
                             intersection_p.y()
                         )));
                     }
+                    // rounding may place an intersection just above or below a horizontal line
+                    let min_y = (left_l.start.y().min(left_l.end.y()))
+                        .max(right_l.start.y().min(right_l.end.y()));
+                    let max_y = (left_l.start.y().max(left_l.end.y()))
+                        .min(right_l.start.y().max(right_l.end.y()));
+                    intersection_p =
+                        T::new_2d(intersection_p.x(), intersection_p.y().min(max_y).max(min_y));
                     // rounding may place an intersection at the sweep-line just below it
                     if intersection_p.y() < self.sweepline_pos.y()
                         && self.sweepline_pos.y() - intersection_p.y()
-- 
2.43.0


From 19a049328fed1d5ffe1bc06672ced960813d9f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 16/49] fix: consecutive lines in the same direction are not
 self intersecting

---
 src/linestring_2d.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 55d1495..1a3be18 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -328,29 +328,26 @@ impl<T: GenericVector2> Line2<T> {
         middle: T,
         end: T,
     ) -> Result<Option<Intersection<T>>, LinestringError> {
-        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.x());
+        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.y());
         let middle_sub_end = T::new_2d(middle.x() - end.x(), middle.y() - end.y());
+        if middle_sub_start.dot(middle_sub_end) <= T::Scalar::ZERO {
+            // the second line does not turn back, they can only share the middle-point
+            return Ok(None);
+        }
         let start_is_vertical = ulps_eq!(middle_sub_start.x(), T::Scalar::ZERO);
         let end_is_vertical = ulps_eq!(middle_sub_end.x(), T::Scalar::ZERO);
 
         if start_is_vertical && end_is_vertical {
             // both lines are vertical
-            return if middle_sub_start.y().is_sign_negative()
-                && !middle_sub_end.y().is_sign_negative()
+            // pick the shortest vector for overlap point
+            return if (middle_sub_start.x() * middle_sub_start.x()
+                + middle_sub_start.y() * middle_sub_start.y())
+                < (middle_sub_end.x() * middle_sub_end.x()
+                    + middle_sub_end.y() * middle_sub_end.y())
             {
-                // opposite direction
-                Ok(None)
+                Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
             } else {
-                // pick the shortest vector for overlap point
-                if (middle_sub_start.x() * middle_sub_start.x()
-                    + middle_sub_start.y() * middle_sub_start.y())
-                    < (middle_sub_end.x() * middle_sub_end.x()
-                        + middle_sub_end.y() * middle_sub_end.y())
-                {
-                    Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
-                } else {
-                    Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
-                }
+                Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
             };
         } else if start_is_vertical || end_is_vertical {
             return Ok(None);
-- 
2.43.0


From 1ecb3a587b3d96798f895d8a1ae3826bff12c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 17/49] fix: self intersection test misses overlapping lines
 with a common end point

---
 src/linestring_2d.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 1a3be18..850abfb 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -728,25 +728,27 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                         if Line2::intersection_point3(l0.1.start, l0.1.end, l1.1.end)?.is_some() {
                             return Ok(true);
                         }
-                    } else if let Some(point) = l0.1.intersection_point(l1.1) {
-                        let point = point.single();
-                        if (point.is_ulps_eq(
-                            l0.1.start,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        ) || point.is_ulps_eq(
-                            l0.1.end,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        )) && (point.is_ulps_eq(
-                            l1.1.start,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        ) || point.is_ulps_eq(
-                            l1.1.end,
-                            T::Scalar::default_epsilon(),
-                            T::Scalar::default_max_ulps(),
-                        )) {
+                    } else if let Some(intersection) = l0.1.intersection_point(l1.1) {
+                        let (p0, p1) = match intersection {
+                            Intersection::Intersection(p) => (p, p),
+                            Intersection::Overlap(overlap) => (overlap.start, overlap.end),
+                        };
+                        let is_end_point = |p: T, l: Line2<T>| {
+                            p.is_ulps_eq(
+                                l.start,
+                                T::Scalar::default_epsilon(),
+                                T::Scalar::default_max_ulps(),
+                            ) || p.is_ulps_eq(
+                                l.end,
+                                T::Scalar::default_epsilon(),
+                                T::Scalar::default_max_ulps(),
+                            )
+                        };
+                        if is_end_point(p0, l0.1)
+                            && is_end_point(p0, l1.1)
+                            && is_end_point(p1, l0.1)
+                            && is_end_point(p1, l1.1)
+                        {
                             continue;
                         } else {
                             return Ok(true);
-- 
2.43.0


From b14caae67fc9dec6a8526344b2122a5ecfdc7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 18/49] fix: graham_scan_wo_atan2 orders duplicated points
 inconsistently and returns unclosed hulls of few points

---
 src/linestring_2d/convex_hull.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 534e199..99144db 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -515,23 +515,13 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
 pub fn graham_scan_wo_atan2<T: GenericVector2>(
     mut input_points: &[T],
 ) -> Result<Vec<T>, LinestringError> {
-    if input_points.is_empty() {
-        return Ok(Vec::with_capacity(0));
-    }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
-    if input_points.len() <= 2 {
+    if input_points.len() <= 1 {
         return Ok(input_points.to_vec());
     }
-    if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
-        } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
-        };
-    }
 
     let mut input_points = input_points.to_vec();
 
@@ -543,14 +533,10 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
             Some(Ordering::Greater) => Ordering::Greater, // CCR
             Some(Ordering::Less) => Ordering::Less,       // CR
             Some(Ordering::Equal) => {
-                // Collinear, pick the furthest node
+                // Collinear, the closest node goes first
                 let dist_sb = starting_point.distance_sq(*b);
                 let dist_sc = starting_point.distance_sq(*c);
-                if dist_sb > dist_sc {
-                    Ordering::Greater
-                } else {
-                    Ordering::Less
-                }
+                dist_sb.partial_cmp(&dist_sc).unwrap_or(Ordering::Equal)
             }
             _ => panic!(),
         }
@@ -576,9 +562,9 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
         }
     }
 
-    if !rv.is_connected() {
-        let first = rv.first().unwrap();
-        rv.push(*first)
+    // `starting_point` is sorted first, so it can only be found at the start of `rv`
+    if rv.len() > 1 {
+        rv.push(starting_point);
     };
     Ok(rv)
 }
-- 
2.43.0


From 3506c08e4759bb8f7988f55fe96ce78a1d943efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 19/49] fix: simplify_vw loses the closing point of closed
 linestrings

---
 src/linestring_2d/simplify.rs | 53 ++++++++++++-----------------------
 1 file changed, 18 insertions(+), 35 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index 8414624..fbd5692 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -244,24 +244,16 @@ pub(super) fn simplify_vw<T: GenericVector2>(line: &Vec<T>, points_to_delete: us
             let _ = link_tree.insert(j.0, (i.0, k.0, area));
         }
     }
-    if connected {
-        // add an extra point at the end, faking the loop
-        let i = line.len() - 2;
-        let j = line.len() - 1;
-        let k = line.len();
-        let area = Line2::triangle_area_squared_times_4(line[i], line[j], line[0]);
-        search_tree.push(PriorityDistance {
-            key: area,
-            index: j,
-        });
-        let _ = link_tree.insert(j, (i, k, area));
-    }
-
     let line_points_len = line.len();
+    // the smallest number of points to keep between the first and the last point
+    let minimum_nodes = if connected { 1 } else { 2 };
 
     let mut deleted_nodes: usize = 0;
     loop {
-        if search_tree.is_empty() || link_tree.len() == 2 || deleted_nodes >= points_to_delete {
+        if search_tree.is_empty()
+            || link_tree.len() == minimum_nodes
+            || deleted_nodes >= points_to_delete
+        {
             break;
         }
 
@@ -346,25 +338,16 @@ pub(super) fn simplify_vw<T: GenericVector2>(line: &Vec<T>, points_to_delete: us
 
     // Todo: we *know* the order of the points, remove sorted_unstable()
     // we just don't know the first non-deleted point after start :/
-    if !connected {
-        [0_usize]
-            .iter()
-            .copied()
-            .chain(
-                link_tree
-                    .keys()
-                    .sorted_unstable()
-                    .copied()
-                    .chain([line.len() - 1].iter().copied()),
-            )
-            .map(|x| line[x])
-            .collect()
-    } else {
-        [0_usize]
-            .iter()
-            .copied()
-            .chain(link_tree.keys().sorted_unstable().copied())
-            .map(|x| line[x])
-            .collect()
-    }
+    [0_usize]
+        .iter()
+        .copied()
+        .chain(
+            link_tree
+                .keys()
+                .sorted_unstable()
+                .copied()
+                .chain([line.len() - 1].iter().copied()),
+        )
+        .map(|x| line[x])
+        .collect()
 }
-- 
2.43.0


From 31ccf7419ca8af2f02a3510efc4ce1882572cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 20/49] fix: 3d point to line distance ignores the ends of the
 line segment

---
 src/linestring_3d.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index d4d2028..df35c65 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -625,11 +625,19 @@ fn cross_abs_squared<T: GenericVector3>(a: T, b: T) -> T::Scalar {
 /// This function returns the distance²
 pub fn distance_to_line_squared<T: GenericVector3>(l0: T, l1: T, p: T) -> T::Scalar {
     let l0_sub_l1 = l0 - l1;
+    let l0_sub_l1_sq_mag = l0_sub_l1.magnitude_sq();
     let l0_sub_p = l0 - p;
-    cross_abs_squared(l0_sub_p, l0_sub_l1)
-        / (l0_sub_l1.x() * l0_sub_l1.x()
-            + l0_sub_l1.y() * l0_sub_l1.y()
-            + l0_sub_l1.z() * l0_sub_l1.z())
+
+    // dot product normalized by the magnitude squared of l0_sub_l1
+    let dot = l0_sub_p.dot(l0_sub_l1) / l0_sub_l1_sq_mag;
+
+    if dot < T::Scalar::ZERO {
+        l0_sub_p.magnitude_sq()
+    } else if dot > T::Scalar::ONE {
+        (l1 - p).magnitude_sq()
+    } else {
+        cross_abs_squared(l0_sub_p, l0_sub_l1) / l0_sub_l1_sq_mag
+    }
 }
 
 /// Same as `distance_to_line_squared<T>` but it can be called when a-b might be 0.
@@ -644,12 +652,7 @@ pub fn distance_to_line_squared_safe<T: GenericVector3>(l0: T, l1: T, p: T) -> T
         // give the point-to-point answer if the segment is a point
         l0.distance_sq(p)
     } else {
-        let l0_sub_l1 = l0 - l1;
-        let l0_sub_p = l0 - p;
-        cross_abs_squared(l0_sub_p, l0_sub_l1)
-            / (l0_sub_l1.x() * l0_sub_l1.x()
-                + l0_sub_l1.y() * l0_sub_l1.y()
-                + l0_sub_l1.z() * l0_sub_l1.z())
+        distance_to_line_squared(l0, l1, p)
     }
 }
 
-- 
2.43.0


From ba57ed696bcbb0d8821437500ac5d6c57e62c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 21/49] fix: indexed_simplify_rdp fails for empty index lists
 and duplicates single indices

---
 src/linestring_2d/simplify.rs | 2 +-
 src/linestring_3d/simplify.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index fbd5692..84a8db4 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -133,7 +133,7 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index a3a6a93..687602a 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -237,7 +237,7 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
     indices: &[usize],
     distance_predicate: T::Scalar,
 ) -> Vec<usize> {
-    if vertices.len() <= 2 {
+    if indices.len() <= 2 {
         return indices.to_vec();
     }
 
-- 
2.43.0


From 607b3e1a29a254f6a3120e3163e10fea7c2073ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 22/49] fix: discretize skips points of linestrings when the
 distance is infinite or much larger than an edge

---
 src/linestring_2d.rs | 3 ++-
 src/linestring_3d.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 850abfb..c44ad54 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1605,7 +1605,8 @@ impl<'a, T: GenericVector2> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            // at least one step, or else the point itself would be skipped
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index df35c65..8e46078 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -731,7 +731,8 @@ impl<'a, T: GenericVector3> DiscreteLineSegmentIterator<'a, T> {
         let direction = end_point - start_point;
         let segment_length = direction.magnitude();
         if segment_length > T::Scalar::ZERO {
-            let num_substeps = (segment_length / self.distance).ceil();
+            // at least one step, or else the point itself would be skipped
+            let num_substeps = (segment_length / self.distance).ceil().max(T::Scalar::ONE);
             self.num_substeps = num_substeps.as_();
             self.step = direction / num_substeps;
         } else {
-- 
2.43.0


From ae17eb70bf550606f2406359b272141b9d69130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 23/49] fix: divide_into_shapes duplicates edges when vertices
 have edges to themselves

---
 src/shape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shape.rs b/src/shape.rs
index 97804ab..5d4e707 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -206,6 +206,10 @@ fn adjacency_map(indices: &[usize]) -> (usize, AHashMap<usize, SmallVec<[usize;
         let i0 = chunk[0];
         let i1 = chunk[1];
         max_index = max_index.max(i0).max(i1);
+        if i0 == i1 {
+            // an edge from a vertex to itself does not connect anything
+            return;
+        }
         let entry = adjacency_map.entry(i0).or_default();
         if !entry.contains(&i1) {
             entry.push(i1);
-- 
2.43.0


From ee155ecadd38f6138b8e69061308a37405912ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 24/49] fix: sampling of voronoi arcs without extent never ends

---
 src/linestring_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index c44ad54..bedc0b0 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -475,7 +475,8 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            // NaN: the arc is a point or a straight line
+            if dist <= max_dist_transformed || dist.is_nan() {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
@@ -589,7 +590,8 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            // NaN: the arc is a point or a straight line
+            if dist <= max_dist_transformed || dist.is_nan() {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-- 
2.43.0


From 4f4e22c24870f124d98a5ae31a728adc20240257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 25/49] fix: convex hull calculations accept NaN and infinite
 coordinates

---
 src/linestring_2d/convex_hull.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 99144db..8a344eb 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -51,7 +51,7 @@ use crate::{
 use itertools::Itertools;
 use rayon::prelude::*;
 use std::cmp::Ordering;
-use vector_traits::{approx::ulps_eq, num_traits::real::Real, GenericScalar, GenericVector2};
+use vector_traits::{approx::ulps_eq, num_traits::Float, GenericScalar, GenericVector2};
 
 #[derive(PartialEq, Clone, Copy)]
 pub enum Orientation {
@@ -72,6 +72,11 @@ impl Orientation {
     }
 }
 
+#[inline(always)]
+fn is_finite<T: GenericVector2>(point: T) -> bool {
+    point.x().is_finite() && point.y().is_finite()
+}
+
 /// finds the point with lowest x, if x is equal -> find the point with lowest y value
 fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), LinestringError> {
     if vertices.is_empty() {
@@ -80,6 +85,14 @@ fn find_lowest_x<T: GenericVector2>(vertices: &[T]) -> Result<(usize, T), Linest
         ));
     }
 
+    if let Some(point) = vertices.iter().find(|p| !is_finite(**p)) {
+        return Err(LinestringError::InvalidData(format!(
+            "Coordinates must be finite: ({},{})",
+            point.x(),
+            point.y()
+        )));
+    }
+
     let mut min_idx = 0;
     let mut min_val = vertices[0];
 
@@ -127,6 +140,14 @@ fn indexed_find_lowest_x<T: GenericVector2>(
         ));
     }
 
+    if let Some(index) = indices.iter().find(|i| !is_finite(vertices[**i])) {
+        return Err(LinestringError::InvalidData(format!(
+            "Coordinates must be finite: ({},{})",
+            vertices[*index].x(),
+            vertices[*index].y()
+        )));
+    }
+
     let mut min_idx_idx = 0;
     let mut min_val = vertices[indices[min_idx_idx]];
 
-- 
2.43.0


From 20a98a71cd21d381cbee90b733d803fddb4a9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 26/49] fix: sweep-line aborted with an internal error on
 nearly equal events

---
 src/linestring_2d/indexed_intersection.rs | 25 ++---------------------
 src/linestring_2d/intersection.rs         | 25 ++---------------------
 2 files changed, 4 insertions(+), 46 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index a43cebf..c7538c0 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -664,29 +664,8 @@ impl<T: GenericVector2> IntersectionTester<T> {
         let mut connected_priority = MinMaxSlope::new();
 
         loop {
-            if let Some((key, event)) = {
-                #[cfg(feature = "map_first_last")]
-                {
-                    site_events.pop_first()
-                }
-                #[cfg(not(feature = "map_first_last"))]
-                {
-                    // emulate pop_first
-                    if let Some((first_key, _)) = site_events.iter().next() {
-                        let first_key = *first_key;
-                        let v = site_events.remove(&first_key).ok_or_else(|| {
-                            LinestringError::InternalError(format!(
-                                "Found a key to pop but could not remove the value. {}:{}",
-                                file!(),
-                                line!()
-                            ))
-                        })?;
-                        Some((first_key, v))
-                    } else {
-                        None
-                    }
-                }
-            } {
+            // The keys are compared with a tolerance, so it isn't always possible to look up a key.
+            if let Some((key, event)) = site_events.pop_first() {
                 self.handle_event(
                     &key,
                     &event,
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 8b585f5..ca3e400 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -590,29 +590,8 @@ impl<T: GenericVector2> IntersectionData<T> {
         let mut connected_priority = MinMaxSlope::new();
 
         loop {
-            if let Some((key, event)) = {
-                #[cfg(feature = "map_first_last")]
-                {
-                    site_events.pop_first()
-                }
-                #[cfg(not(feature = "map_first_last"))]
-                {
-                    // emulate pop_first
-                    if let Some((first_key, _)) = site_events.iter().next() {
-                        let first_key = *first_key;
-                        let v = site_events.remove(&first_key).ok_or_else(|| {
-                            LinestringError::InternalError(format!(
-                                "Found a key to pop but could not remove the value. {}:{}",
-                                file!(),
-                                line!()
-                            ))
-                        })?;
-                        Some((first_key, v))
-                    } else {
-                        None
-                    }
-                }
-            } {
+            // The keys are compared with a tolerance, so it isn't always possible to look up a key.
+            if let Some((key, event)) = site_events.pop_first() {
                 self.handle_event(
                     &key,
                     &event,
-- 
2.43.0


From 4185b62ac0d4424c8deb43fe7f96a88959b44b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 27/49] fix: sweep-line reports incomplete lists of lines for
 nearly equal positions

---
 src/linestring_2d/indexed_intersection.rs | 72 ++++++-----------------
 src/linestring_2d/intersection.rs         | 69 ++++++----------------
 2 files changed, 38 insertions(+), 103 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index c7538c0..63a8ae1 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -726,56 +726,25 @@ impl<T: GenericVector2> IntersectionTester<T> {
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
-        if self.ignore_end_point_intersections {
+        let is_intersection = if self.ignore_end_point_intersections {
             // only report end point intersections if they collide with
             // a calculated intersection point
-            if intersections_found > 0 {
-                if removed_active_lines > 0 {
-                    self.report_intersections_to_result(
-                        result,
-                        self.sweepline_pos_index.unwrap(),
-                        event.drop.iter().flatten(),
-                    );
-                }
-                if added_active_lines > 0 {
-                    self.report_intersections_to_result(
-                        result,
-                        self.sweepline_pos_index.unwrap(),
-                        event.add.iter().flatten(),
-                    );
-                }
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos_index.unwrap_or_else(|| {
-                        println!("self.sweepline_pos:{:?}", self.sweepline_pos);
-                        panic!();
-                    }),
-                    intersections.iter(),
-                );
-            }
-        } else if removed_active_lines + added_active_lines + intersections_found > 1 {
+            intersections_found > 0
+        } else {
             // report *all* intersections, including the end-to-end intersections
-            if removed_active_lines > 0 {
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos_index.unwrap(),
-                    event.drop.iter().flatten(),
-                );
-            }
-            if added_active_lines > 0 {
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos_index.unwrap(),
-                    event.add.iter().flatten(),
-                );
-            }
-            if intersections_found > 0 {
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos_index.unwrap(),
-                    intersections.iter(),
-                );
-            }
+            removed_active_lines + added_active_lines + intersections_found > 1
+        };
+        if is_intersection {
+            self.report_intersections_to_result(
+                result,
+                self.sweepline_pos_index.unwrap(),
+                event
+                    .drop
+                    .iter()
+                    .flatten()
+                    .chain(event.add.iter().flatten())
+                    .chain(intersections.iter()),
+            );
         }
 
         //
@@ -936,12 +905,9 @@ impl<T: GenericVector2> IntersectionTester<T> {
             index: Some(pos_index),
         };
 
-        let value = if let Some(value) = result.get_mut(&key) {
-            value
-        } else {
-            let _ = result.insert(key, Vec::default());
-            result.get_mut(&key).unwrap()
-        };
+        // The keys are compared with a tolerance, so a key which was just inserted can't always be
+        // looked up again.
+        let value = result.entry(key).or_default();
 
         for line in intersecting_lines {
             value.push(*line);
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index ca3e400..30bde87 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -648,53 +648,25 @@ impl<T: GenericVector2> IntersectionData<T> {
 
         // Handle points converging at this point:
         // If sum of number of items in 'add' + 'drop' > 1 they must intersect at this point
-        if self.ignore_end_point_intersections {
+        let is_intersection = if self.ignore_end_point_intersections {
             // only report end point intersections if they collide with
             // a calculated intersection point
-            if intersections_found > 0 {
-                if removed_active_lines > 0 {
-                    self.report_intersections_to_result(
-                        result,
-                        self.sweepline_pos,
-                        event.drop.iter().flatten(),
-                    );
-                }
-                if added_active_lines > 0 {
-                    self.report_intersections_to_result(
-                        result,
-                        self.sweepline_pos,
-                        event.add.iter().flatten(),
-                    );
-                }
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos,
-                    intersections.iter(),
-                );
-            }
-        } else if removed_active_lines + added_active_lines + intersections_found > 1 {
+            intersections_found > 0
+        } else {
             // report *all* intersections, including the end-to-end intersections
-            if removed_active_lines > 0 {
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos,
-                    event.drop.iter().flatten(),
-                );
-            }
-            if added_active_lines > 0 {
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos,
-                    event.add.iter().flatten(),
-                );
-            }
-            if intersections_found > 0 {
-                self.report_intersections_to_result(
-                    result,
-                    self.sweepline_pos,
-                    intersections.iter(),
-                );
-            }
+            removed_active_lines + added_active_lines + intersections_found > 1
+        };
+        if is_intersection {
+            self.report_intersections_to_result(
+                result,
+                self.sweepline_pos,
+                event
+                    .drop
+                    .iter()
+                    .flatten()
+                    .chain(event.add.iter().flatten())
+                    .chain(intersections.iter()),
+            );
         }
 
         //
@@ -836,12 +808,9 @@ impl<T: GenericVector2> IntersectionData<T> {
     ) {
         let key = SiteEventKey { pos };
 
-        let value = if let Some(value) = result.get_mut(&key) {
-            value
-        } else {
-            let _ = result.insert(key, Vec::default());
-            result.get_mut(&key).unwrap()
-        };
+        // The keys are compared with a tolerance, so a key which was just inserted can't always be
+        // looked up again.
+        let value = result.entry(key).or_default();
 
         for line in intersecting_lines {
             value.push(*line);
-- 
2.43.0


From 3ead6a455c52b1d02152bacac2f74e76ee19f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 28/49] fix: sweep-line misses crossings of lines which are
 equally close within rounding

---
 src/linestring_2d/indexed_intersection.rs | 20 ++++++++++----------
 src/linestring_2d/intersection.rs         | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 63a8ae1..1f88f68 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -111,9 +111,9 @@ impl<T: GenericVector2> PartialEq for SiteEventKey<T> {
 /// value right of the point. Secondarily it prioritizes according to slope of the line, lines
 /// leaning towards pivot point have priority.
 struct MinMax<T: GenericVector2> {
-    best_left: Option<T::Scalar>,
+    best_left: Option<(T::Scalar, T::Scalar)>, // x, tolerance of x
     slope: MinMaxSlope<T>,
-    best_right: Option<T::Scalar>,
+    best_right: Option<(T::Scalar, T::Scalar)>, // x, tolerance of x
 }
 
 impl<T: GenericVector2> MinMax<T>
@@ -145,15 +145,15 @@ where
                 candidate_index, candidate_x, candidate_slope
             );*/
             // handle left side
-            if let Some(current_min) = self.best_left {
-                if (current_min - candidate_x).abs() <= tolerance {
+            if let Some((current_min, current_tolerance)) = self.best_left {
+                if (current_min - candidate_x).abs() <= tolerance + current_tolerance {
                     self.slope
                         .update_left(false, -candidate_slope, candidate_index);
                 } else if current_min < candidate_x {
                     // this candidate is better.
                     self.slope
                         .update_left(true, -candidate_slope, candidate_index);
-                    self.best_left = Some(candidate_x);
+                    self.best_left = Some((candidate_x, tolerance));
                 } else {
                     /*println!(
                         "Left2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
@@ -162,7 +162,7 @@ where
                 }
             } else {
                 // First sample
-                self.best_left = Some(candidate_x);
+                self.best_left = Some((candidate_x, tolerance));
                 self.slope
                     .update_left(false, -candidate_slope, candidate_index);
             }
@@ -172,15 +172,15 @@ where
                 candidate_index, candidate_x, candidate_slope
             );*/
             // handle right side
-            if let Some(current_max) = self.best_right {
-                if (current_max - candidate_x).abs() <= tolerance {
+            if let Some((current_max, current_tolerance)) = self.best_right {
+                if (current_max - candidate_x).abs() <= tolerance + current_tolerance {
                     self.slope
                         .update_right(false, -candidate_slope, candidate_index);
                 } else if current_max > candidate_x {
                     // this candidate is better.
                     self.slope
                         .update_right(true, -candidate_slope, candidate_index);
-                    self.best_right = Some(candidate_x);
+                    self.best_right = Some((candidate_x, tolerance));
                 } else {
                     /*println!(
                         "Right2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
@@ -189,7 +189,7 @@ where
                 }
             } else {
                 // First sample
-                self.best_right = Some(candidate_x);
+                self.best_right = Some((candidate_x, tolerance));
                 self.slope
                     .update_right(false, -candidate_slope, candidate_index);
             }
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 30bde87..17dd24d 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -108,9 +108,9 @@ impl<T: GenericVector2> PartialEq for SiteEventKey<T> {
 /// value right of the point. Secondarily it prioritizes according to slope of the line, lines
 /// leaning towards pivot point have priority.
 pub(crate) struct MinMax<T: GenericVector2> {
-    best_left: Option<T::Scalar>,
+    best_left: Option<(T::Scalar, T::Scalar)>, // x, tolerance of x
     slope: MinMaxSlope<T>,
-    best_right: Option<T::Scalar>,
+    best_right: Option<(T::Scalar, T::Scalar)>, // x, tolerance of x
 }
 
 impl<T: GenericVector2> MinMax<T>
@@ -142,15 +142,15 @@ where
                 candidate_index, candidate_x, candidate_slope
             );*/
             // handle left side
-            if let Some(current_min) = self.best_left {
-                if (current_min - candidate_x).abs() <= tolerance {
+            if let Some((current_min, current_tolerance)) = self.best_left {
+                if (current_min - candidate_x).abs() <= tolerance + current_tolerance {
                     self.slope
                         .update_left(false, -candidate_slope, candidate_index);
                 } else if current_min < candidate_x {
                     // this candidate is better.
                     self.slope
                         .update_left(true, -candidate_slope, candidate_index);
-                    self.best_left = Some(candidate_x);
+                    self.best_left = Some((candidate_x, tolerance));
                 } else {
                     /*println!(
                         "Left2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
@@ -159,7 +159,7 @@ where
                 }
             } else {
                 // First sample
-                self.best_left = Some(candidate_x);
+                self.best_left = Some((candidate_x, tolerance));
                 self.slope
                     .update_left(false, -candidate_slope, candidate_index);
             }
@@ -169,15 +169,15 @@ where
                 candidate_index, candidate_x, candidate_slope
             );*/
             // handle right side
-            if let Some(current_max) = self.best_right {
-                if (current_max - candidate_x).abs() <= tolerance {
+            if let Some((current_max, current_tolerance)) = self.best_right {
+                if (current_max - candidate_x).abs() <= tolerance + current_tolerance {
                     self.slope
                         .update_right(false, -candidate_slope, candidate_index);
                 } else if current_max > candidate_x {
                     // this candidate is better.
                     self.slope
                         .update_right(true, -candidate_slope, candidate_index);
-                    self.best_right = Some(candidate_x);
+                    self.best_right = Some((candidate_x, tolerance));
                 } else {
                     /*println!(
                         "Right2:rejecting {} candidate_x:{} current_x:{} candidate_slope:{}, current_slope:{}",
@@ -186,7 +186,7 @@ where
                 }
             } else {
                 // First sample
-                self.best_right = Some(candidate_x);
+                self.best_right = Some((candidate_x, tolerance));
                 self.slope
                     .update_right(false, -candidate_slope, candidate_index);
             }
-- 
2.43.0


From 47a03e661508c8a35b6bbddb2d4765ecdd3a847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 29/49] fix: a convex hull of one point has no interior

---
 src/linestring_2d/convex_hull.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 8a344eb..e0c7c5a 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1251,8 +1251,8 @@ pub fn contains_convex_hull_par<T: GenericVector2>(a: &Vec<T>, b: &Vec<T>) -> bo
 pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool {
     //println!("testing {:?}", p);
     match input.len() {
-        0 => return false,
-        1 => return p == input[0],
+        // a single point has no interior
+        0 | 1 => return false,
         2 => {
             if input[0] != input[1] {
                 return false;
-- 
2.43.0


From 91865837c37bdc0d9b5704d656dcb2c31f9261bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 30/49] fix: bounding boxes are inside out after mirroring with
 apply

---
 src/linestring_2d.rs | 6 ++++--
 src/linestring_3d.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index bedc0b0..ce822a5 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -1337,8 +1337,10 @@ impl<T: HasXY> Aabb2<T> {
     where
         F: Fn(T) -> T,
     {
-        if let Some(ref mut min_max) = self.min_max {
-            self.min_max = Some((f(min_max.0), f(min_max.1)))
+        if let Some((min, max)) = self.min_max.take() {
+            // the operation may swap the limits, e.g. when mirroring
+            self.update_with_point(f(min));
+            self.update_with_point(f(max));
         }
     }
 }
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index 8e46078..5d7f329 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -286,8 +286,10 @@ impl<T: GenericVector3> Aabb3<T> {
 
     /// Apply an operation over each coordinate.
     pub fn apply<F: Fn(T) -> T>(&mut self, f: &F) {
-        if let Some(ref mut min_max) = self.min_max {
-            self.min_max = Some((f(min_max.0), f(min_max.1)))
+        if let Some((min, max)) = self.min_max.take() {
+            // the operation may swap the limits, e.g. when mirroring
+            self.update_with_point(f(min));
+            self.update_with_point(f(max));
         }
     }
 
-- 
2.43.0


From 0132e02d23e038c39c82c78d281bbd33dbc79e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 31/49] fix: sampling of long or short voronoi arcs overflows
 in single precision

---
 src/linestring_2d.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index ce822a5..8d25339 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -469,12 +469,11 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
 
             // Compute maximum distance between the given parabolic arc
             // and line segment that discretize it.
+            // Divide before squaring, the square of the product would be out of range for single
+            // precision when the segment is longer than 5e4 or shorter than 1e-5.
             let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
-            #[allow(clippy::suspicious_operation_groupings)]
-            {
-                dist = dist * dist
-                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
-            }
+            dist /= (new_x - cur_x).hypot(new_y - cur_y);
+            dist = dist * dist;
             // NaN: the arc is a point or a straight line
             if dist <= max_dist_transformed || dist.is_nan() {
                 // Distance between parabola and line segment is less than max_dist.
@@ -584,12 +583,11 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
 
             // Compute maximum distance between the given parabolic arc
             // and line segment that discretize it.
+            // Divide before squaring, the square of the product would be out of range for single
+            // precision when the segment is longer than 5e4 or shorter than 1e-5.
             let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
-            #[allow(clippy::suspicious_operation_groupings)]
-            {
-                dist = dist * dist
-                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
-            }
+            dist /= (new_x - cur_x).hypot(new_y - cur_y);
+            dist = dist * dist;
             // NaN: the arc is a point or a straight line
             if dist <= max_dist_transformed || dist.is_nan() {
                 // Distance between parabola and line segment is less than max_dist.
-- 
2.43.0


From 7ca6e028cb815789309dd74ae5883f0d2e69c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 32/49] fix: self intersection test misses lines with both end
 points in common

---
 src/linestring_2d.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 8d25339..1b07b72 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -42,7 +42,7 @@ limitations under the License.
 */
 
 use crate::{linestring_3d, linestring_3d::Plane, LinestringError};
-use std::fmt::Debug;
+use std::{cmp::Ordering, fmt::Debug};
 use vector_traits::{
     approx::*,
     num_traits::{AsPrimitive, Float, One, Zero},
@@ -729,9 +729,9 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                             return Ok(true);
                         }
                     } else if let Some(intersection) = l0.1.intersection_point(l1.1) {
-                        let (p0, p1) = match intersection {
-                            Intersection::Intersection(p) => (p, p),
-                            Intersection::Overlap(overlap) => (overlap.start, overlap.end),
+                        let p = match intersection {
+                            Intersection::Intersection(p) => p,
+                            Intersection::Overlap(_) => return Ok(true),
                         };
                         let is_end_point = |p: T, l: Line2<T>| {
                             p.is_ulps_eq(
@@ -744,11 +744,7 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                                 T::Scalar::default_max_ulps(),
                             )
                         };
-                        if is_end_point(p0, l0.1)
-                            && is_end_point(p0, l1.1)
-                            && is_end_point(p1, l0.1)
-                            && is_end_point(p1, l1.1)
-                        {
+                        if is_end_point(p, l0.1) && is_end_point(p, l1.1) {
                             continue;
                         } else {
                             return Ok(true);
@@ -763,7 +759,27 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                 .with_stop_at_first_intersection(true)?
                 .with_lines(self.window_iter())?
                 .compute()?;
-            Ok(result.len() > 0)
+            if result.len() > 0 {
+                return Ok(true);
+            }
+            // Lines with both end points in common overlap, but they are not reported by the
+            // sweep-line because they only start and end together.
+            let compare = |a: &T, b: &T| {
+                a.x()
+                    .partial_cmp(&b.x())
+                    .unwrap_or(Ordering::Equal)
+                    .then(a.y().partial_cmp(&b.y()).unwrap_or(Ordering::Equal))
+            };
+            let mut lines: Vec<(T, T)> = self
+                .window_iter()
+                .filter(|l| l.start != l.end)
+                .map(|l| match compare(&l.start, &l.end) {
+                    Ordering::Greater => (l.end, l.start),
+                    _ => (l.start, l.end),
+                })
+                .collect();
+            lines.sort_unstable_by(|a, b| compare(&a.0, &b.0).then(compare(&a.1, &b.1)));
+            Ok(lines.windows(2).any(|l| l[0] == l[1]))
         }
     }
 
-- 
2.43.0


From 92082caa6d3e29f23f3a0095b8fb636736b7b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 33/49] fix: area of two dimensional triangles is lost to
 rounding far away from the origin

---
 src/linestring_2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 1b07b72..d6acbfc 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -375,10 +375,8 @@ impl<T: GenericVector2> Line2<T> {
     /// returns (area of a triangle)²*4
     /// <https://en.wikipedia.org/wiki/Visvalingam–Whyatt_algorithm#Algorithm>
     fn triangle_area_squared_times_4(p1: T, p2: T, p3: T) -> T::Scalar {
-        let area = p1.x() * p2.y() + p2.x() * p3.y() + p3.x() * p1.y()
-            - p1.x() * p3.y()
-            - p2.x() * p1.y()
-            - p3.x() * p2.y();
+        // the differences are exact also far away from the origin
+        let area = (p1 - p2).perp_dot(p3 - p2);
         area * area
     }
 
-- 
2.43.0


From f82027db799d07600cffb02e0ca1644f493728ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:24 +0000
Subject: [PATCH 34/49] fix: Visvalingam-Whyatt panicked when the coordinates
 are out of range

---
 src/linestring_2d.rs | 4 ++++
 src/linestring_3d.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index d6acbfc..52c152e 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -377,6 +377,10 @@ impl<T: GenericVector2> Line2<T> {
     fn triangle_area_squared_times_4(p1: T, p2: T, p3: T) -> T::Scalar {
         // the differences are exact also far away from the origin
         let area = (p1 - p2).perp_dot(p3 - p2);
+        if area.is_nan() {
+            // the coordinates are out of range, no other triangle can be larger
+            return T::Scalar::INFINITY;
+        }
         area * area
     }
 
diff --git a/src/linestring_3d.rs b/src/linestring_3d.rs
index 5d7f329..bd609bf 100644
--- a/src/linestring_3d.rs
+++ b/src/linestring_3d.rs
@@ -175,7 +175,13 @@ impl<T: GenericVector3> Line3<T> {
         let x = v1_y * v2_z - v2_y * v1_z;
         let y = v1_x * v2_z - v2_x * v1_z;
         let z = v1_x * v2_y - v2_x * v1_y;
-        x * x + y * y + z * z
+        let area = x * x + y * y + z * z;
+        if vector_traits::num_traits::Float::is_nan(area) {
+            // the coordinates are out of range, no other triangle can be larger
+            T::Scalar::INFINITY
+        } else {
+            area
+        }
     }
 
     /// Return a new line containing the transformed points
-- 
2.43.0


From cc4e11aa770a558d0010bf47708a6f3b9e6ab0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:24 +0000
Subject: [PATCH 35/49] fix: gift wrapping never ended when the coordinates are
 out of range

---
 src/linestring_2d/convex_hull.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index e0c7c5a..29ad63b 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -315,7 +315,11 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
             //println!("hull marking {:?}:{} as visited", input_points[point_on_hull], point_on_hull);
             let _ = visited.set(point_on_hull, true);
         }
+        // the next point not already visited, starting_point is never marked as visited
         let mut end_point = (point_on_hull + 1) % vertices.len();
+        while visited[end_point] {
+            end_point = (end_point + 1) % vertices.len();
+        }
 
         for j in 0..vertices.len() {
             if j == point_on_hull
@@ -453,7 +457,11 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
             // don't mark the starting_point or we won't know where to stop
             let _ = visited.set(point_on_hull, true);
         }
+        // the next point not already visited, starting_index is never marked as visited
         let mut end_point = (point_on_hull + 1) % indices.len();
+        while visited[end_point] {
+            end_point = (end_point + 1) % indices.len();
+        }
 
         for j in 0..indices.len() {
             if j == point_on_hull
-- 
2.43.0


From 54cef0ab442ddeb32205e8e6f91cca4a37cd8b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:24 +0000
Subject: [PATCH 36/49] fix: merging the partial hulls of almost collinear
 points never ended

---
 src/linestring_2d/convex_hull.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 29ad63b..52d96bc 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -888,6 +888,12 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
             vertices[point_on_hull.index], point_on_hull
         );*/
 
+        if hull.len() == indices_a.len() + indices_b.len() {
+            // Rounding of almost collinear points made this walk pass the starting point.
+            // indexed_gift_wrap_no_loop() never visits a point twice.
+            let indices: Vec<usize> = indices_a.iter().chain(&indices_b).copied().collect();
+            return indexed_gift_wrap_no_loop(vertices, &indices);
+        }
         hull.push(point_on_hull.index);
         if point_on_hull.index != starting_index.index {
             // don't mark the starting_point or we won't know where to stop
-- 
2.43.0


From e0f1580fc0abdc481856f602406c1de782092c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:24 +0000
Subject: [PATCH 37/49] fix: Ramer-Douglas-Peucker exhausted the call stack on
 long linestrings

---
 src/linestring_2d.rs          | 11 ++++++-
 src/linestring_2d/simplify.rs | 45 +++++++++++++---------------
 src/linestring_3d/simplify.rs | 56 +++++++++++++++++++----------------
 3 files changed, 62 insertions(+), 50 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 52c152e..c2fd2ac 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -999,7 +999,16 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
 
         let mut rv: Vec<T> = Vec::with_capacity(self.len());
         rv.push(self[0]);
-        simplify::simplify_rdp_recursive(&mut rv, self, distance_predicate * distance_predicate);
+        // the sections of self yet to be simplified, recursion might exhaust the call stack
+        let mut sections = vec![self.as_slice()];
+        while let Some(points) = sections.pop() {
+            simplify::simplify_rdp_section(
+                &mut rv,
+                points,
+                distance_predicate * distance_predicate,
+                &mut sections,
+            );
+        }
         rv
     }
 
diff --git a/src/linestring_2d/simplify.rs b/src/linestring_2d/simplify.rs
index 84a8db4..038dada 100644
--- a/src/linestring_2d/simplify.rs
+++ b/src/linestring_2d/simplify.rs
@@ -47,10 +47,11 @@ use std::collections::BinaryHeap;
 use vector_traits::{GenericScalar, GenericVector2};
 
 /// The actual implementation of rdp
-pub(super) fn simplify_rdp_recursive<T: GenericVector2>(
+pub(super) fn simplify_rdp_section<'a, T: GenericVector2>(
     rv: &mut Vec<T>,
-    points: &[T],
+    points: &'a [T],
     distance_predicate_sq: T::Scalar,
+    sections: &mut Vec<&'a [T]>,
 ) {
     if points.len() <= 2 {
         rv.push(*points.last().unwrap());
@@ -81,8 +82,8 @@ pub(super) fn simplify_rdp_recursive<T: GenericVector2>(
     if max_dist_sq <= distance_predicate_sq {
         rv.push(end_point);
     } else {
-        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
-        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
+        sections.push(&points[index..]);
+        sections.push(&points[..index + 1]);
     }
 }
 
@@ -140,22 +141,28 @@ pub fn indexed_simplify_rdp<T: GenericVector2>(
     let mut simplified_indices = Vec::new();
     simplified_indices.push(indices[0]);
 
-    indexed_simplify_rdp_recursive(
-        &mut simplified_indices,
-        vertices,
-        indices,
-        distance_predicate * distance_predicate,
-    );
+    // the sections of indices yet to be simplified, recursion might exhaust the call stack
+    let mut sections = vec![indices];
+    while let Some(indices) = sections.pop() {
+        indexed_simplify_rdp_section(
+            &mut simplified_indices,
+            vertices,
+            indices,
+            distance_predicate * distance_predicate,
+            &mut sections,
+        );
+    }
 
     simplified_indices
 }
 
 /// The actual implementation of the indexed rdp
-fn indexed_simplify_rdp_recursive<T: GenericVector2>(
+fn indexed_simplify_rdp_section<'a, T: GenericVector2>(
     simplified_indices: &mut Vec<usize>,
     vertices: &[T],
-    indices: &[usize],
+    indices: &'a [usize],
     distance_predicate_sq: T::Scalar,
+    sections: &mut Vec<&'a [usize]>,
 ) {
     //println!(">indices:{:?} len:{}", indices, indices.len());
     if indices.len() <= 2 {
@@ -192,18 +199,8 @@ fn indexed_simplify_rdp_recursive<T: GenericVector2>(
     if max_dist_sq <= distance_predicate_sq {
         simplified_indices.push(end_index);
     } else {
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[..=index_index],
-            distance_predicate_sq,
-        );
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[index_index..],
-            distance_predicate_sq,
-        );
+        sections.push(&indices[index_index..]);
+        sections.push(&indices[..=index_index]);
     }
     //println!("<");
 }
diff --git a/src/linestring_3d/simplify.rs b/src/linestring_3d/simplify.rs
index 687602a..d3598f6 100644
--- a/src/linestring_3d/simplify.rs
+++ b/src/linestring_3d/simplify.rs
@@ -12,15 +12,25 @@ pub(super) fn simplify_rdp<T: GenericVector3>(line: &[T], distance_predicate: T:
 
     let mut rv: Vec<T> = Vec::with_capacity(line.len());
     rv.push(line[0]);
-    simplify_rdp_recursive(&mut rv, line, distance_predicate * distance_predicate);
+    // the sections of line yet to be simplified, recursion might exhaust the call stack
+    let mut sections = vec![line];
+    while let Some(points) = sections.pop() {
+        simplify_rdp_section(
+            &mut rv,
+            points,
+            distance_predicate * distance_predicate,
+            &mut sections,
+        );
+    }
     rv
 }
 
 /// The actual implementation of rdp
-fn simplify_rdp_recursive<T: GenericVector3>(
+fn simplify_rdp_section<'a, T: GenericVector3>(
     rv: &mut Vec<T>,
-    points: &[T],
+    points: &'a [T],
     distance_predicate_sq: T::Scalar,
+    sections: &mut Vec<&'a [T]>,
 ) {
     if points.len() <= 2 {
         rv.push(*points.last().unwrap());
@@ -51,8 +61,8 @@ fn simplify_rdp_recursive<T: GenericVector3>(
     if max_dist_sq <= distance_predicate_sq {
         rv.push(end_point);
     } else {
-        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
-        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
+        sections.push(&points[index..]);
+        sections.push(&points[..index + 1]);
     }
 }
 
@@ -244,23 +254,29 @@ pub fn indexed_simplify_rdp<T: GenericVector3>(
     let mut simplified_indices = Vec::new();
     simplified_indices.push(indices[0]);
 
-    indexed_simplify_rdp_recursive(
-        &mut simplified_indices,
-        vertices,
-        indices,
-        distance_predicate * distance_predicate,
-    );
+    // the sections of indices yet to be simplified, recursion might exhaust the call stack
+    let mut sections = vec![indices];
+    while let Some(indices) = sections.pop() {
+        indexed_simplify_rdp_section(
+            &mut simplified_indices,
+            vertices,
+            indices,
+            distance_predicate * distance_predicate,
+            &mut sections,
+        );
+    }
 
     simplified_indices
 }
 
 /// The actual implementation of the indexed rdp
 // todo: this code is identical to the 2d version, can it be consolidated?
-fn indexed_simplify_rdp_recursive<T: GenericVector3>(
+fn indexed_simplify_rdp_section<'a, T: GenericVector3>(
     simplified_indices: &mut Vec<usize>,
     vertices: &[T],
-    indices: &[usize],
+    indices: &'a [usize],
     distance_predicate_sq: T::Scalar,
+    sections: &mut Vec<&'a [usize]>,
 ) {
     //println!(">indices:{:?} len:{}", indices, indices.len());
     if indices.len() <= 2 {
@@ -297,18 +313,8 @@ fn indexed_simplify_rdp_recursive<T: GenericVector3>(
     if max_dist_sq <= distance_predicate_sq {
         simplified_indices.push(end_index);
     } else {
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[..=index_index],
-            distance_predicate_sq,
-        );
-        indexed_simplify_rdp_recursive(
-            simplified_indices,
-            vertices,
-            &indices[index_index..],
-            distance_predicate_sq,
-        );
+        sections.push(&indices[index_index..]);
+        sections.push(&indices[..=index_index]);
     }
     //println!("<");
 }
-- 
2.43.0


From 4d3e0c97f70799f462b5cd6673b7afda4a142999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:25 +0000
Subject: [PATCH 38/49] fix: sampling of voronoi arcs finer than the precision
 of the coordinates never ended

---
 src/linestring_2d.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index c2fd2ac..e579a7e 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -477,7 +477,10 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
             dist /= (new_x - cur_x).hypot(new_y - cur_y);
             dist = dist * dist;
             // NaN: the arc is a point or a straight line
-            if dist <= max_dist_transformed || dist.is_nan() {
+            // The midpoint is not in between: the arc is too short to be divided
+            let is_divisible =
+                (cur_x < mid_x) == (mid_x < new_x) && mid_x != cur_x && mid_x != new_x;
+            if dist <= max_dist_transformed || dist.is_nan() || !is_divisible {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
@@ -591,7 +594,10 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
             dist /= (new_x - cur_x).hypot(new_y - cur_y);
             dist = dist * dist;
             // NaN: the arc is a point or a straight line
-            if dist <= max_dist_transformed || dist.is_nan() {
+            // The midpoint is not in between: the arc is too short to be divided
+            let is_divisible =
+                (cur_x < mid_x) == (mid_x < new_x) && mid_x != cur_x && mid_x != new_x;
+            if dist <= max_dist_transformed || dist.is_nan() || !is_divisible {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-- 
2.43.0


From 4ba006264f4d7741d1ee8bc7472d7b2caf575f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:25 +0000
Subject: [PATCH 39/49] fix: indexed sweep-line appended vertices which are no
 intersections

---
 src/linestring_2d/indexed_intersection.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 1f88f68..d383cc4 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -737,7 +737,6 @@ impl<T: GenericVector2> IntersectionTester<T> {
         if is_intersection {
             self.report_intersections_to_result(
                 result,
-                self.sweepline_pos_index.unwrap(),
                 event
                     .drop
                     .iter()
@@ -869,10 +868,10 @@ impl<T: GenericVector2> IntersectionTester<T> {
                     {
                         intersection_p = T::new_2d(intersection_p.x(), self.sweepline_pos.y());
                     }
-                    let intersection_p_index = self.vertices.len();
+                    // intersections get a vertex of their own once they are reported
                     let intersection_key = SiteEventKey {
                         pos: intersection_p,
-                        index: Some(intersection_p_index),
+                        index: None,
                     };
                     let sweepline_key = SiteEventKey {
                         pos: self.sweepline_pos,
@@ -880,7 +879,6 @@ impl<T: GenericVector2> IntersectionTester<T> {
                     };
                     // don't allow intersection 'behind' or 'at' current sweep-line position
                     if intersection_key > sweepline_key {
-                        self.vertices.push(intersection_p);
                         self.add_intersection_event(
                             site_events,
                             &intersection_key,
@@ -896,18 +894,24 @@ impl<T: GenericVector2> IntersectionTester<T> {
     fn report_intersections_to_result<'b, I: Iterator<Item = &'b usize>>(
         &mut self,
         result: &mut BTreeMap<SiteEventKey<T>, Vec<usize>>,
-        pos_index: usize,
         intersecting_lines: I,
     ) {
-        let pos = self.vertices[pos_index];
+        let new_index = self.vertices.len();
+        let index = self.sweepline_pos_index.unwrap_or(new_index);
         let key = SiteEventKey {
-            pos,
-            index: Some(pos_index),
+            pos: self.sweepline_pos,
+            index: Some(index),
         };
 
         // The keys are compared with a tolerance, so a key which was just inserted can't always be
         // looked up again.
-        let value = result.entry(key).or_default();
+        let value = result.entry(key).or_insert_with(|| {
+            if index == new_index {
+                // this intersection is not an existing vertex
+                self.vertices.push(key.pos);
+            }
+            Vec::default()
+        });
 
         for line in intersecting_lines {
             value.push(*line);
-- 
2.43.0


From 665978158f9e20fc0197b6cc3f0be2bc0d556838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:07 +0000
Subject: [PATCH 40/49] fix: sweep-line reported the same intersection at
 several rounded positions

---
 src/linestring_2d/intersection.rs | 53 ++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 17dd24d..1bc9a1b 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -761,7 +761,13 @@ impl<T: GenericVector2> IntersectionData<T> {
                     continue;
                 }
 
-                if let Some(intersection_p) = left_l.intersection_point(right_l) {
+                // rounding differs with the order of the lines, always use the same
+                let intersection = if left_i < right_i {
+                    left_l.intersection_point(right_l)
+                } else {
+                    right_l.intersection_point(left_l)
+                };
+                if let Some(intersection_p) = intersection {
                     let mut intersection_p = intersection_p.single();
                     if !intersection_p.x().is_finite() || !intersection_p.y().is_finite() {
                         return Err(LinestringError::InvalidData(format!(
@@ -777,10 +783,18 @@ impl<T: GenericVector2> IntersectionData<T> {
                         .min(right_l.start.y().max(right_l.end.y()));
                     intersection_p =
                         T::new_2d(intersection_p.x(), intersection_p.y().min(max_y).max(min_y));
+                    let tolerance = position_tolerance(&left_l).max(position_tolerance(&right_l));
+                    // rounding may place an intersection next to the end point it is located at
+                    for end_point in [left_l.start, left_l.end, right_l.start, right_l.end] {
+                        if (intersection_p.x() - end_point.x()).abs() <= tolerance
+                            && (intersection_p.y() - end_point.y()).abs() <= tolerance
+                        {
+                            intersection_p = end_point;
+                        }
+                    }
                     // rounding may place an intersection at the sweep-line just below it
                     if intersection_p.y() < self.sweepline_pos.y()
-                        && self.sweepline_pos.y() - intersection_p.y()
-                            <= position_tolerance(&left_l).max(position_tolerance(&right_l))
+                        && self.sweepline_pos.y() - intersection_p.y() <= tolerance
                     {
                         intersection_p = T::new_2d(intersection_p.x(), self.sweepline_pos.y());
                     }
@@ -806,15 +820,30 @@ impl<T: GenericVector2> IntersectionData<T> {
         pos: T,
         intersecting_lines: I,
     ) {
-        let key = SiteEventKey { pos };
-
-        // The keys are compared with a tolerance, so a key which was just inserted can't always be
-        // looked up again.
-        let value = result.entry(key).or_default();
-
-        for line in intersecting_lines {
-            value.push(*line);
-        }
+        let lines: Vec<usize> = intersecting_lines.copied().collect();
+        let tolerance = lines.iter().fold(T::Scalar::ZERO, |tolerance, i| {
+            tolerance.max(position_tolerance(&self.lines[*i]))
+        });
+
+        // Rounding may turn an intersection of several lines into more than one event, but two
+        // lines only intersect once.
+        let reported = result
+            .iter_mut()
+            .rev()
+            .take_while(|(key, _)| pos.y() - key.pos.y() <= tolerance)
+            .find(|(key, reported_lines)| {
+                (pos.x() - key.pos.x()).abs() <= tolerance
+                    && reported_lines.iter().filter(|i| lines.contains(i)).count() > 1
+            })
+            .map(|(_, reported_lines)| reported_lines);
+
+        let value = match reported {
+            Some(reported_lines) => reported_lines,
+            // The keys are compared with a tolerance, so a key which was just inserted can't
+            // always be looked up again.
+            None => result.entry(SiteEventKey { pos }).or_default(),
+        };
+        value.extend(lines);
         value.sort_unstable();
         value.dedup();
     }
-- 
2.43.0


From 55f9a72d033f40d7ac7c819772e6e2a0df20ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:07 +0000
Subject: [PATCH 41/49] fix: indexed sweep-line appended a vertex next to the
 end point of an edge touching another edge

---
 src/linestring_2d/indexed_intersection.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d383cc4..0a3fc1c 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -860,11 +860,24 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         .min(right_l_as_line.start.y().max(right_l_as_line.end.y()));
                     intersection_p =
                         T::new_2d(intersection_p.x(), intersection_p.y().min(max_y).max(min_y));
+                    let tolerance = position_tolerance(&self.vertices, left_l)
+                        .max(position_tolerance(&self.vertices, right_l));
+                    // rounding may place an intersection next to the end point it is located at
+                    for end_point in [
+                        left_l_as_line.start,
+                        left_l_as_line.end,
+                        right_l_as_line.start,
+                        right_l_as_line.end,
+                    ] {
+                        if (intersection_p.x() - end_point.x()).abs() <= tolerance
+                            && (intersection_p.y() - end_point.y()).abs() <= tolerance
+                        {
+                            intersection_p = end_point;
+                        }
+                    }
                     // rounding may place an intersection at the sweep-line just below it
                     if intersection_p.y() < self.sweepline_pos.y()
-                        && self.sweepline_pos.y() - intersection_p.y()
-                            <= position_tolerance(&self.vertices, left_l)
-                                .max(position_tolerance(&self.vertices, right_l))
+                        && self.sweepline_pos.y() - intersection_p.y() <= tolerance
                     {
                         intersection_p = T::new_2d(intersection_p.x(), self.sweepline_pos.y());
                     }
-- 
2.43.0


From 96d7565304af046aefb58d0addfa325431d0a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 42/49] fix: a ray could slip through between two connected
 lines

---
 src/linestring_2d.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index e579a7e..dd1280c 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -45,7 +45,7 @@ use crate::{linestring_3d, linestring_3d::Plane, LinestringError};
 use std::{cmp::Ordering, fmt::Debug};
 use vector_traits::{
     approx::*,
-    num_traits::{AsPrimitive, Float, One, Zero},
+    num_traits::{AsPrimitive, Float, Zero},
     GenericScalar, GenericVector2, HasXY, HasXYZ,
 };
 
@@ -877,9 +877,12 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
         } else {
             let q_minus_p = p0.sub(origin);
             let t = q_minus_p.perp_dot(s) / r_cross_s;
-            let u = q_minus_p.perp_dot(ray_dir) / r_cross_s;
+            // Two connected edges agree on which side of the ray their common point is,
+            // so the ray can't slip through in between them.
+            let p0_side = q_minus_p.perp_dot(ray_dir);
+            let p1_side = p1.sub(origin).perp_dot(ray_dir);
 
-            (t >= T::Scalar::ZERO && (T::Scalar::ZERO..=T::Scalar::one()).contains(&u)).then_some(t)
+            (t >= T::Scalar::ZERO && is_on_both_sides(p0_side, p1_side)).then_some(t)
         }
     }
 
@@ -1376,6 +1379,13 @@ impl<T: HasXY> Aabb2<T> {
     }
 }
 
+/// Returns true if the cross products `a` and `b` of two points, with regard to a line, tell that the
+/// points are situated at different sides of the line, or on it.
+#[inline(always)]
+fn is_on_both_sides<S: GenericScalar>(a: S, b: S) -> bool {
+    (a <= S::ZERO && b >= S::ZERO) || (a >= S::ZERO && b <= S::ZERO)
+}
+
 /// Get any intersection point between line segment and point.
 /// Inspired by <https://stackoverflow.com/a/17590923>
 pub fn intersect_line_point<T: GenericVector2>(
-- 
2.43.0


From 12c35eb2a7bcdd9d5738d905416f8532c999e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 43/49] fix: intersection of lines meeting at an end point was
 lost to rounding

---
 src/linestring_2d.rs | 53 ++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index dd1280c..cca1ceb 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -281,28 +281,40 @@ impl<T: GenericVector2> Line2<T> {
             let q_minus_p = q - p;
             let q_minus_p_cross_r = q_minus_p.perp_dot(r);
 
-            ulps_eq!(q_minus_p_cross_r, T::Scalar::ZERO).then(|| {
-                let r_dot_r = r.dot(r);
-                let t0 = q_minus_p.dot(r) / r_dot_r;
-                let t1 = t0 + s.dot(r) / r_dot_r;
+            if !ulps_eq!(q_minus_p_cross_r, T::Scalar::ZERO) {
+                // the lines are only almost parallel if they have an end point in common
+                return self.common_end_point(other).map(Intersection::Intersection);
+            }
+            let r_dot_r = r.dot(r);
+            let t0 = q_minus_p.dot(r) / r_dot_r;
+            let t1 = t0 + s.dot(r) / r_dot_r;
 
-                let overlap_start = p + r * t0.max(T::Scalar::ZERO);
-                let overlap_end = p + r * t1.min(T::Scalar::ONE);
+            let overlap_start = p + r * t0.max(T::Scalar::ZERO);
+            let overlap_end = p + r * t1.min(T::Scalar::ONE);
 
-                if overlap_start == overlap_end {
-                    Intersection::Intersection(overlap_start)
-                } else {
-                    Intersection::Overlap(Line2::new(overlap_start, overlap_end))
-                }
-            })
+            if overlap_start == overlap_end {
+                Some(Intersection::Intersection(overlap_start))
+            } else {
+                Some(Intersection::Overlap(Line2::new(
+                    overlap_start,
+                    overlap_end,
+                )))
+            }
         } else {
             let q_minus_p = q - p;
-            let t = q_minus_p.perp_dot(s) / r_cross_s;
-            let u = q_minus_p.perp_dot(r) / r_cross_s;
-
-            if (T::Scalar::ZERO..=T::Scalar::ONE).contains(&t)
-                && (T::Scalar::ZERO..=T::Scalar::ONE).contains(&u)
+            // Lines with a common end point agree on which side of a third line that point is,
+            // and an end point which is also an end point of the other line is on no side of it.
+            let start_side = q_minus_p.perp_dot(s);
+            let end_side = (q - self.end).perp_dot(s);
+            let other_start_side = q_minus_p.perp_dot(r);
+            let other_end_side = (other.end - p).perp_dot(r);
+
+            if is_on_both_sides(start_side, end_side)
+                && is_on_both_sides(other_start_side, other_end_side)
             {
+                let t = (start_side / r_cross_s)
+                    .max(T::Scalar::ZERO)
+                    .min(T::Scalar::ONE);
                 Some(Intersection::Intersection(p + r * t))
             } else {
                 None
@@ -310,6 +322,13 @@ impl<T: GenericVector2> Line2<T> {
         }
     }
 
+    /// Returns an end point of this line which is an end point of the other line as well
+    fn common_end_point(self, other: Self) -> Option<T> {
+        [self.start, self.end]
+            .into_iter()
+            .find(|p| *p == other.start || *p == other.end)
+    }
+
     /// an artificial ordering of vectors
     #[inline(always)]
     fn precedes(a: T, b: T) -> bool {
-- 
2.43.0


From ce0e7cbddd50f82119d5dd2e1c1929c3a53bbd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:41 +0000
Subject: [PATCH 44/49] fix: self intersection test mistook rounded common end
 points for an intersection

---
 src/linestring_2d.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index cca1ceb..291f508 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -771,7 +771,11 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                                 T::Scalar::default_max_ulps(),
                             )
                         };
-                        if is_end_point(p, l0.1) && is_end_point(p, l1.1) {
+                        // The position is rounded. Lines with a common end point can't meet anywhere
+                        // else unless they overlap.
+                        if l0.1.common_end_point(l1.1).is_some()
+                            || (is_end_point(p, l0.1) && is_end_point(p, l1.1))
+                        {
                             continue;
                         } else {
                             return Ok(true);
-- 
2.43.0


From d586f0dd2305505011695a72bd8321262d54baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:41 +0000
Subject: [PATCH 45/49] fix: points next to an internal diagonal were not
 contained in the convex hull

---
 src/linestring_2d/convex_hull.rs | 54 +++++++++++---------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 52d96bc..baac2f4 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1323,14 +1323,12 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     //println!("{:?}", slice );
     // Check the final slice (triangle), it is fine for the point to be located on the internal
     // diagonals of the hull as long as it is not located at the vertex they share.
+    // It is already settled on which side of the diagonals the point is, asking again (with the
+    // vertices swapped) could give a different answer when rounding is involved.
     let first = input[input_offset];
     if p == first {
         return false;
     }
-    if retain_index_0 && !is_point_left_allow_collinear(first, slice[0], p) {
-        //println!("return false 3.1 for slice: 0+{:?}", slice);
-        return false;
-    }
     for window in slice.windows(2) {
         if !is_point_left(window[0], window[1], p) {
             //println!("return false 3.2 for slice: {:?}", slice);
@@ -1338,11 +1336,7 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         }
     }
     let last = slice[slice.len() - 1];
-    if ends_with_hull_edge {
-        is_point_left(last, first, p)
-    } else {
-        is_point_left_allow_collinear(last, first, p)
-    }
+    !ends_with_hull_edge || is_point_left(last, first, p)
 }
 
 /// Returns true if the 'a' convex hull contains the 'b' point (inclusive)
@@ -1390,6 +1384,9 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         (&input[..], 0)
     };
     let mut retain_index_0 = false;
+    // true as long as the end of `slice` is the end of the hull, i.e. the edge from the last vertex
+    // of `slice` back to the first vertex of the hull is an edge of the hull.
+    let mut ends_with_hull_edge = true;
 
     while (slice.len() > 3) || (retain_index_0 && slice.len() > 2) {
         let mid = if retain_index_0 {
@@ -1417,6 +1414,7 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
         } else {
             // Point is to the right of the first half
             slice = &slice[..mid + 1];
+            ends_with_hull_edge = false;
             /*if retain_index_0 {
                 println!("new (right) slice: 0+{:?}", slice);
             } else {
@@ -1426,35 +1424,21 @@ pub fn contains_point_inclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     }
 
     //println!("{:?}", slice );
-    // Check the final slice (triangle)
-    if retain_index_0 {
-        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
-            //println!("return false 3.1 for slice: 0+{:?}", slice);
-            return false;
-        }
-        for window in slice.windows(2) {
-            if !is_point_left_allow_collinear(window[0], window[1], p) {
-                //println!("return false 3.2 for slice: 0+{:?}", slice);
-                return false;
-            }
-        }
-        if !is_point_left_allow_collinear(slice[slice.len() - 1], input[input_offset], p) {
-            //println!("return false 3.3 slice:0+{:?}", slice);
-            return false;
-        }
-    } else {
-        for window in slice.windows(2) {
-            //println!("testing {:?} {:?}", window[0], window[1]);
-            if !is_point_left_allow_collinear(window[0], window[1], p) {
-                //println!("return false 3");
-                return false;
-            }
-        }
-        if !is_point_left_allow_collinear(slice[slice.len() - 1], slice[0], p) {
-            //println!("return false 4 slice:{:?}", slice);
+    // Check the final slice (triangle). It is already settled on which side of the internal
+    // diagonals the point is, asking again (with the vertices swapped) could give a different answer
+    // when rounding is involved.
+    for window in slice.windows(2) {
+        if !is_point_left_allow_collinear(window[0], window[1], p) {
+            //println!("return false 3 for slice: {:?}", slice);
             return false;
         }
     }
+    if ends_with_hull_edge
+        && !is_point_left_allow_collinear(slice[slice.len() - 1], input[input_offset], p)
+    {
+        //println!("return false 4 slice:{:?}", slice);
+        return false;
+    }
     // all points on the infinite line are collinear to a degenerate hull (a point or a line),
     // make sure that `p` is situated between the vertices as well.
     let mut aabb = Aabb2::with_points(slice);
-- 
2.43.0


From 38b4f39c55ff972038b90d12803346159027837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:35 +0000
Subject: [PATCH 46/49] fix: sweep-line missed crossings when rounding decides
 the order of lines next to an event

---
 src/linestring_2d/indexed_intersection.rs | 49 ++++++++++++++++++++---
 src/linestring_2d/intersection.rs         | 48 ++++++++++++++++++++--
 2 files changed, 88 insertions(+), 9 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index 0a3fc1c..c56f472 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -404,7 +404,9 @@ fn sweepline_intersection<T: GenericVector2>(
 fn position_tolerance<T: GenericVector2>(vertices: &[T], line: (usize, usize)) -> T::Scalar {
     let magnitude = (vertices[line.0].x().abs() + vertices[line.0].y().abs())
         .max(vertices[line.1].x().abs() + vertices[line.1].y().abs());
-    magnitude * T::Scalar::default_epsilon() * (T::Scalar::TWO + T::Scalar::TWO)
+    // the positions of the events are compared with an absolute tolerance as well
+    (magnitude * (T::Scalar::TWO + T::Scalar::TWO)).max(T::Scalar::ONE)
+        * T::Scalar::default_epsilon()
 }
 
 /// Returns true if `point`, known to be located between the end points of `line`, is on the line
@@ -749,7 +751,21 @@ impl<T: GenericVector2> IntersectionTester<T> {
         //
         // calculate the sweep-line status for this point (aka the 'leftright' struct)
         //
+
+        // rounding may place an intersection above the end point of a line
+        intersections.retain(|line_index| active_lines.contains(line_index));
         neighbour_priority.clear();
+        // The lines which are so close to this point that rounding decides what side of it they are
+        let mut touching: Vec<usize> = Vec::new();
+        let event_tolerance = event
+            .drop
+            .iter()
+            .flatten()
+            .chain(event.add.iter().flatten())
+            .chain(intersections.iter())
+            .fold(T::Scalar::ZERO, |tolerance, line_index| {
+                tolerance.max(position_tolerance(&self.vertices, self.lines[*line_index]))
+            });
 
         'active_lines: for line_index in active_lines.iter() {
             for i in intersections.iter() {
@@ -765,13 +781,20 @@ impl<T: GenericVector2> IntersectionTester<T> {
                 sweepline_intersection(&self.vertices, self.sweepline_pos, line)
             {
                 //println!(" @{}^{})", intersection_x, intersection_slope);
+                let tolerance = position_tolerance(&self.vertices, line)
+                    * (T::Scalar::ONE + intersection_slope.abs());
+                if (intersection_x - self.sweepline_pos.x()).abs()
+                    <= tolerance + event_tolerance * (T::Scalar::ONE + intersection_slope.abs())
+                {
+                    touching.push(*line_index);
+                    continue;
+                }
                 neighbour_priority.update(
                     self.sweepline_pos.x(),
                     intersection_x,
                     intersection_slope,
                     *line_index,
-                    position_tolerance(&self.vertices, line)
-                        * (T::Scalar::ONE + intersection_slope.abs()),
+                    tolerance,
                 );
             }
         }
@@ -781,7 +804,24 @@ impl<T: GenericVector2> IntersectionTester<T> {
             let _ = active_lines.insert(*l);
         }
 
-        if intersections_found + added_active_lines == 0 {
+        if !touching.is_empty() {
+            // any of these lines could be next to the touching ones
+            let mut candidates: Vec<usize> = neighbour_priority
+                .slope
+                .candidates_left
+                .iter()
+                .chain(neighbour_priority.slope.candidates_right.iter())
+                .chain(event.add.iter().flatten())
+                .chain(intersections.iter())
+                .copied()
+                .collect();
+            for line_index in touching {
+                self.find_new_events(&[line_index], &candidates, site_events)?;
+                candidates.push(line_index);
+            }
+        }
+
+        if intersections.is_empty() && added_active_lines == 0 {
             // this event didn't spawn off new events, check neighbours
             if !neighbour_priority.slope.candidates_left.is_empty()
                 && !neighbour_priority.slope.candidates_right.is_empty()
@@ -800,7 +840,6 @@ impl<T: GenericVector2> IntersectionTester<T> {
             for l in intersections.iter() {
                 connected_priority.update_both(&self.vertices, *l, &self.lines);
             }
-
             if !neighbour_priority.slope.candidates_left.is_empty() {
                 self.find_new_events(
                     &neighbour_priority.slope.candidates_left,
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index 1bc9a1b..ac2359e 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -394,7 +394,9 @@ fn sweepline_intersection<T: GenericVector2>(
 fn position_tolerance<T: GenericVector2>(line: &linestring_2d::Line2<T>) -> T::Scalar {
     let magnitude =
         (line.start.x().abs() + line.start.y().abs()).max(line.end.x().abs() + line.end.y().abs());
-    magnitude * T::Scalar::default_epsilon() * (T::Scalar::TWO + T::Scalar::TWO)
+    // the positions of the events are compared with an absolute tolerance as well
+    (magnitude * (T::Scalar::TWO + T::Scalar::TWO)).max(T::Scalar::ONE)
+        * T::Scalar::default_epsilon()
 }
 
 /// Returns true if `point`, known to be located between the end points of `line`, is on the line
@@ -672,7 +674,21 @@ impl<T: GenericVector2> IntersectionData<T> {
         //
         // calculate the sweep-line status for this point (aka the 'leftright' struct)
         //
+
+        // rounding may place an intersection above the end point of a line
+        intersections.retain(|line_index| active_lines.contains(line_index));
         neighbour_priority.clear();
+        // The lines which are so close to this point that rounding decides what side of it they are
+        let mut touching: Vec<usize> = Vec::new();
+        let event_tolerance = event
+            .drop
+            .iter()
+            .flatten()
+            .chain(event.add.iter().flatten())
+            .chain(intersections.iter())
+            .fold(T::Scalar::ZERO, |tolerance, line_index| {
+                tolerance.max(position_tolerance(&self.lines[*line_index]))
+            });
 
         'active_lines: for line_index in active_lines.iter() {
             for i in intersections.iter() {
@@ -688,12 +704,20 @@ impl<T: GenericVector2> IntersectionData<T> {
                 sweepline_intersection(self.sweepline_pos, line)
             {
                 //println!(" @{}^{})", intersection_x, intersection_slope);
+                let tolerance =
+                    position_tolerance(line) * (T::Scalar::ONE + intersection_slope.abs());
+                if (intersection_x - self.sweepline_pos.x()).abs()
+                    <= tolerance + event_tolerance * (T::Scalar::ONE + intersection_slope.abs())
+                {
+                    touching.push(*line_index);
+                    continue;
+                }
                 neighbour_priority.update(
                     self.sweepline_pos.x(),
                     intersection_x,
                     intersection_slope,
                     *line_index,
-                    position_tolerance(line) * (T::Scalar::ONE + intersection_slope.abs()),
+                    tolerance,
                 );
             }
         }
@@ -703,7 +727,24 @@ impl<T: GenericVector2> IntersectionData<T> {
             let _ = active_lines.insert(*l);
         }
 
-        if intersections_found + added_active_lines == 0 {
+        if !touching.is_empty() {
+            // any of these lines could be next to the touching ones
+            let mut candidates: Vec<usize> = neighbour_priority
+                .slope
+                .candidates_left
+                .iter()
+                .chain(neighbour_priority.slope.candidates_right.iter())
+                .chain(event.add.iter().flatten())
+                .chain(intersections.iter())
+                .copied()
+                .collect();
+            for line_index in touching {
+                self.find_new_events(&[line_index], &candidates, site_events)?;
+                candidates.push(line_index);
+            }
+        }
+
+        if intersections.is_empty() && added_active_lines == 0 {
             // this event didn't spawn off new events, check neighbours
             if !neighbour_priority.slope.candidates_left.is_empty()
                 && !neighbour_priority.slope.candidates_right.is_empty()
@@ -722,7 +763,6 @@ impl<T: GenericVector2> IntersectionData<T> {
             for l in intersections.iter() {
                 connected_priority.update_both(*l, &self.lines);
             }
-
             if !neighbour_priority.slope.candidates_left.is_empty() {
                 self.find_new_events(
                     &neighbour_priority.slope.candidates_left,
-- 
2.43.0


From ae15780d030dafd8be4284287a87ae1f249c7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:40 +0000
Subject: [PATCH 47/49] fix: intersection of lines with a common end point was
 reported next to it

---
 src/linestring_2d.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 291f508..de98061 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -300,6 +300,9 @@ impl<T: GenericVector2> Line2<T> {
                     overlap_end,
                 )))
             }
+        } else if let Some(common) = self.common_end_point(other) {
+            // the position calculated below is uncertain when the directions are almost the same
+            Some(Intersection::Intersection(common))
         } else {
             let q_minus_p = q - p;
             // Lines with a common end point agree on which side of a third line that point is,
-- 
2.43.0


From 6881fb146c55d72221d42074deccea6a6699ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:40 +0000
Subject: [PATCH 48/49] fix: sweep-line took points beyond the end of almost
 horizontal lines to be on them

---
 src/linestring_2d/indexed_intersection.rs | 11 ++++++++---
 src/linestring_2d/intersection.rs         |  8 ++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index c56f472..e75b715 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -411,9 +411,14 @@ fn position_tolerance<T: GenericVector2>(vertices: &[T], line: (usize, usize)) -
 
 /// Returns true if `point`, known to be located between the end points of `line`, is on the line
 fn is_point_on_line<T: GenericVector2>(vertices: &[T], point: T, line: (usize, usize)) -> bool {
-    let direction = vertices[line.1] - vertices[line.0];
-    (point - vertices[line.0]).perp_dot(direction).abs()
-        <= position_tolerance(vertices, line) * direction.x().abs().max(direction.y().abs())
+    let (start, end) = (vertices[line.0], vertices[line.1]);
+    let direction = end - start;
+    let tolerance = position_tolerance(vertices, line);
+    // an almost horizontal line is close to points (far) beyond its end points as well
+    point.x() >= start.x().min(end.x()) - tolerance
+        && point.x() <= start.x().max(end.x()) + tolerance
+        && (point - start).perp_dot(direction).abs()
+            <= tolerance * direction.x().abs().max(direction.y().abs())
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index ac2359e..cf38995 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -402,8 +402,12 @@ fn position_tolerance<T: GenericVector2>(line: &linestring_2d::Line2<T>) -> T::S
 /// Returns true if `point`, known to be located between the end points of `line`, is on the line
 fn is_point_on_line<T: GenericVector2>(point: T, line: &linestring_2d::Line2<T>) -> bool {
     let direction = line.end - line.start;
-    (point - line.start).perp_dot(direction).abs()
-        <= position_tolerance(line) * direction.x().abs().max(direction.y().abs())
+    let tolerance = position_tolerance(line);
+    // an almost horizontal line is close to points (far) beyond its end points as well
+    point.x() >= line.start.x().min(line.end.x()) - tolerance
+        && point.x() <= line.start.x().max(line.end.x()) + tolerance
+        && (point - line.start).perp_dot(direction).abs()
+            <= tolerance * direction.x().abs().max(direction.y().abs())
 }
 
 /// Contains the data the sweep-line intersection algorithm needs to operate.
-- 
2.43.0


From 5c2d5e9d5baaf646501595afd32602524b314702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:40 +0000
Subject: [PATCH 49/49] fix: sweep-line moved an intersection up to every
 height within the tolerance (took minutes for flat input)

---
 src/linestring_2d/indexed_intersection.rs | 15 +++++++++++----
 src/linestring_2d/intersection.rs         | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index e75b715..ad7628e 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -476,6 +476,9 @@ pub struct IntersectionTester<T: GenericVector2> {
     // The input geometry. These lines are re-arranged so that Line.start.y <= Line.end.y
     // These are never changed while the algorithm is running.
     lines: Vec<(usize, usize)>,
+    // The pairs of lines with an intersection which was moved up to the sweep-line. It is only moved
+    // once, not to every height within the tolerance.
+    raised_intersections: AHashSet<(usize, usize)>,
     // The array containing the actual vertices
     vertices: Vec<T>,
 }
@@ -490,6 +493,7 @@ impl<T: GenericVector2> IntersectionTester<T> {
             ignore_end_point_intersections: false,
             site_events: Some(BTreeMap::new()),
             lines: Vec::<(usize, usize)>::new(),
+            raised_intersections: AHashSet::default(),
         }
     }
 
@@ -920,9 +924,10 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         }
                     }
                     // rounding may place an intersection at the sweep-line just below it
-                    if intersection_p.y() < self.sweepline_pos.y()
-                        && self.sweepline_pos.y() - intersection_p.y() <= tolerance
-                    {
+                    let is_raised = intersection_p.y() < self.sweepline_pos.y()
+                        && self.sweepline_pos.y() - intersection_p.y() <= tolerance;
+                    let pair = (*left_i.min(right_i), *left_i.max(right_i));
+                    if is_raised {
                         intersection_p = T::new_2d(intersection_p.x(), self.sweepline_pos.y());
                     }
                     // intersections get a vertex of their own once they are reported
@@ -935,7 +940,9 @@ impl<T: GenericVector2> IntersectionTester<T> {
                         index: self.sweepline_pos_index,
                     };
                     // don't allow intersection 'behind' or 'at' current sweep-line position
-                    if intersection_key > sweepline_key {
+                    if intersection_key > sweepline_key
+                        && (!is_raised || self.raised_intersections.insert(pair))
+                    {
                         self.add_intersection_event(
                             site_events,
                             &intersection_key,
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index cf38995..52b8929 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -428,6 +428,9 @@ pub struct IntersectionData<T: GenericVector2> {
     // The input geometry. These lines are re-arranged so that Line.start.y <= Line.end.y
     // These are never changed while the algorithm is running.
     lines: Vec<linestring_2d::Line2<T>>,
+    // The pairs of lines with an intersection which was moved up to the sweep-line. It is only moved
+    // once, not to every height within the tolerance.
+    raised_intersections: AHashSet<(usize, usize)>,
 }
 
 impl<T: GenericVector2> Default for IntersectionData<T> {
@@ -438,6 +441,7 @@ impl<T: GenericVector2> Default for IntersectionData<T> {
             ignore_end_point_intersections: false,
             site_events: Some(BTreeMap::new()),
             lines: Vec::<linestring_2d::Line2<T>>::new(),
+            raised_intersections: AHashSet::default(),
         }
     }
 }
@@ -837,13 +841,16 @@ impl<T: GenericVector2> IntersectionData<T> {
                         }
                     }
                     // rounding may place an intersection at the sweep-line just below it
-                    if intersection_p.y() < self.sweepline_pos.y()
-                        && self.sweepline_pos.y() - intersection_p.y() <= tolerance
-                    {
+                    let is_raised = intersection_p.y() < self.sweepline_pos.y()
+                        && self.sweepline_pos.y() - intersection_p.y() <= tolerance;
+                    let pair = (*left_i.min(right_i), *left_i.max(right_i));
+                    if is_raised {
                         intersection_p = T::new_2d(intersection_p.x(), self.sweepline_pos.y());
                     }
                     // don't allow intersection 'behind' or 'at' current sweep-line position
-                    if SiteEventKey::new(intersection_p) > SiteEventKey::new(self.sweepline_pos) {
+                    if SiteEventKey::new(intersection_p) > SiteEventKey::new(self.sweepline_pos)
+                        && (!is_raised || self.raised_intersections.insert(pair))
+                    {
                         self.add_intersection_event(
                             site_events,
                             &SiteEventKey {
-- 
2.43.0

