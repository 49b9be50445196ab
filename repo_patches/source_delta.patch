From 7a1bb5833593310e4dd0c0f83f95f02293645c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/13] fix: remove_redundant keeps the last vertex after a
 repeated start

Repeated positions at the start followed by exactly one other vertex
returned only the start vertex.
---
 cavalier_contours/src/polyline/traits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index b74e547..bf55afb 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -542,10 +542,12 @@ pub trait PlineSource {
 
         // remove all repeat positions at the start
         let mut i = 2;
+        let mut all_repeat = false;
         while v1.pos().fuzzy_eq_eps(v2.pos(), pos_equal_eps) {
             v1.bulge = v2.bulge;
             // check for reaching the end of polyline
             if i >= vc {
+                all_repeat = true;
                 break;
             }
             v2 = self.at(i);
@@ -559,8 +561,8 @@ pub trait PlineSource {
             pl.add_vertex(v1);
             Some(pl)
         };
-        // if end is reached return polyline with the only vertex
-        if i >= vc {
+        // if all vertexes repeat return polyline with the only vertex
+        if all_repeat {
             return result;
         }
 
-- 
2.43.0


From 17c754191e9e8ac2af1c903bc69f9e45381811fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 02/13] fix: remove_redundant stops at the end of an open
 polyline

With repeated start positions the loop continued past the last vertex
and back to the first, merging the last vertex away.
---
 cavalier_contours/src/polyline/traits.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index bf55afb..efe5599 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -572,7 +572,8 @@ pub trait PlineSource {
         let mut v1_bulge_is_pos = v1.bulge_is_pos();
         let mut v2_bulge_is_pos = v2.bulge_is_pos();
 
-        let iter_count = if self.is_closed() { vc - 1 } else { vc - 2 };
+        // open polyline stops with the last vertex as v3 (i is index of first v3 to process)
+        let iter_count = if self.is_closed() { vc - 1 } else { vc - i };
 
         enum RemoveRedundantCase<U>
         where
@@ -601,8 +602,7 @@ pub trait PlineSource {
                     DiscardVertex
                 } else if v1_bulge_is_zero && v2_bulge_is_zero {
                     // two line segments in a row, check if collinear
-                    let is_final_vertex_for_open = !self.is_closed() && i == vc;
-                    if !is_final_vertex_for_open && is_collinear_same_dir(&v1, &v2, &v3) {
+                    if is_collinear_same_dir(&v1, &v2, &v3) {
                         DiscardVertex
                     } else {
                         IncludeVertex
-- 
2.43.0


From adf77a686275c22e585d2dbe9cdafc294543314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 03/13] fix: remove_redundant keeps the tip of short spikes

The dot product was compared to the position epsilon, so a spike shorter
than its square root counted as going in the same direction and was
dropped, and a closed polyline of such spikes panicked.
---
 cavalier_contours/src/polyline/traits.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index efe5599..7d04f5e 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -532,7 +532,7 @@ pub trait PlineSource {
                     (v1.x * (v2.y - v3.y) + v2.x * (v3.y - v1.y) + v3.x * (v1.y - v2.y))
                         .fuzzy_eq_zero_eps(pos_equal_eps);
                 let same_direction =
-                    (v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > -pos_equal_eps;
+                    (v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > Self::Num::zero();
 
                 collinear && same_direction
             };
@@ -697,6 +697,11 @@ pub trait PlineSource {
             // handle wrap around middle vertex at start
             match result.as_mut() {
                 Some(pl) => {
+                    // if all vertexes were discarded only the first vertex is left
+                    if pl.vertex_count() < 2 {
+                        return result;
+                    }
+
                     if pl
                         .last()
                         .unwrap()
-- 
2.43.0


From 5ab5be8806705bdfd3afd872540921beac621dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 04/13] fix: remove_repeat_pos keeps a vertex when all
 positions repeat

A closed polyline with all vertexes at one position returned an empty
polyline.
---
 cavalier_contours/src/polyline/traits.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 7d04f5e..68250ff 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -445,11 +445,13 @@ pub trait PlineSource {
                 .pos()
                 .fuzzy_eq_eps(self.at(0).pos(), pos_equal_eps)
         {
-            result
-                .get_or_insert_with(|| {
-                    Self::OutputPolyline::from_iter(self.iter_vertexes(), self.is_closed())
-                })
-                .remove_last();
+            let r = result.get_or_insert_with(|| {
+                Self::OutputPolyline::from_iter(self.iter_vertexes(), self.is_closed())
+            });
+            // keep the only vertex left if all vertexes have the same position
+            if r.vertex_count() > 1 {
+                r.remove_last();
+            }
         }
 
         result
-- 
2.43.0


From 4abeb3fcd03fe087b35c29fb354f249dc4bfc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 05/13] fix: remove_redundant merges the start vertex after
 merging arcs following it

The wrap around step compared the arc before the start vertex with the
arc after it using the bulge from before merging.
---
 cavalier_contours/src/polyline/traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 68250ff..3eaa66e 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -737,7 +737,11 @@ pub trait PlineSource {
             // v2 => first
             // v3 => second
             let v3 = match result.as_ref() {
-                Some(pl) => pl.at(1),
+                Some(pl) => {
+                    // first may have been given a new bulge by discarding vertexes after it
+                    v2.bulge = pl.at(0).bulge;
+                    pl.at(1)
+                }
                 None => self.at(1),
             };
             if v1_bulge_is_zero && v2_bulge_is_zero && is_collinear_same_dir(&v1, &v2, &v3) {
-- 
2.43.0


From 9f005699e8560aeb2e6dc0fb058366f03bb9bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/13] fix: intersect of opposing arcs touching end to end

Arcs of one circle with opposite directions which touch only at the end
of both reported the start of the second arc as their intersect.
---
 cavalier_contours/src/polyline/pline_seg_intersect.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 7433bf7..1430758 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -464,8 +464,14 @@ where
                     OneIntersect { point: v1.pos() }
                 }
                 (false, true) => {
-                    // only touch at start of arc2
-                    OneIntersect { point: u1.pos() }
+                    // only touch at start of arc2 (end of second segment if direction reversed)
+                    OneIntersect {
+                        point: if same_direction_arcs {
+                            u1.pos()
+                        } else {
+                            u2.pos()
+                        },
+                    }
                 }
                 (false, false) => {
                     // not just the end points touch, determine how the arcs overlap
-- 
2.43.0


From 078dff237711f6adaa598ef970c8e9ba9928a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 07/13] fix: order the two intersects of arc segments by the
 second segment direction

---
 .../src/polyline/pline_seg_intersect.rs       | 52 ++++++++-----------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 1430758..60a061c 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -323,6 +323,21 @@ where
             }
         }
         CircleCircleIntr::TwoIntersects { point1, point2 } => {
+            // helper function to order the points according to second segment direction
+            let ordered_two_intersects = |pt1: Vector2<T>, pt2: Vector2<T>| {
+                if dist_squared(pt1, u1.pos()) < dist_squared(pt2, u1.pos()) {
+                    TwoIntersects {
+                        point1: pt1,
+                        point2: pt2,
+                    }
+                } else {
+                    TwoIntersects {
+                        point1: pt2,
+                        point2: pt1,
+                    }
+                }
+            };
+
             // determine if end points lie on arcs and substitute with end points if so to be
             // consistent with stickiness to end points done in other cases (e.g., line-arc
             // intersect)
@@ -366,31 +381,19 @@ where
             let pt2_in_sweep = both_arcs_sweep_point(point2);
             if pt1_in_sweep && pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
-                    (None, None) => TwoIntersects { point1, point2 },
+                    (None, None) => ordered_two_intersects(point1, point2),
                     (None, Some(end_pt)) | (Some(end_pt), None) => {
                         if dist_squared(end_pt, point1) < dist_squared(end_pt, point2) {
-                            TwoIntersects {
-                                point1: end_pt,
-                                point2,
-                            }
+                            ordered_two_intersects(end_pt, point2)
                         } else {
-                            TwoIntersects {
-                                point1,
-                                point2: end_pt,
-                            }
+                            ordered_two_intersects(point1, end_pt)
                         }
                     }
                     (Some(end_pt1), Some(end_pt2)) => {
                         if dist_squared(end_pt1, point1) < dist_squared(end_pt2, point1) {
-                            TwoIntersects {
-                                point1: end_pt1,
-                                point2: end_pt2,
-                            }
+                            ordered_two_intersects(end_pt1, end_pt2)
                         } else {
-                            TwoIntersects {
-                                point1: end_pt2,
-                                point2: end_pt1,
-                            }
+                            ordered_two_intersects(end_pt2, end_pt1)
                         }
                     }
                 }
@@ -398,28 +401,19 @@ where
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point1 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             } else if pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point2 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             } else {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => NoIntersect,
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => ordered_two_intersects(end_pt1, end_pt2),
                 }
             }
         }
-- 
2.43.0


From d5f1c1d6900f3899358479d4b0c5cdc39228192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 08/13] fix: check all segments of a raw offset polyline
 without intersects

---
 .../src/polyline/internal/pline_offset.rs     | 56 ++++++++++++++-----
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index a542f3c..25f06fe 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -687,6 +687,38 @@ where
     point_valid
 }
 
+/// Test if every segment of a raw offset polyline without any intersects is valid for the offset.
+/// Testing a single point is not enough, there are no intersects found where segments collapsed.
+fn all_segs_valid_for_offset<P, R, T>(
+    original_polyline: &P,
+    raw_offset_polyline: &R,
+    orig_polyline_index: &StaticAABB2DIndex<T>,
+    offset: T,
+    options: &PlineOffsetOptions<T>,
+) -> bool
+where
+    P: PlineSource<Num = T> + ?Sized,
+    R: PlineSource<Num = T> + ?Sized,
+    T: Real,
+{
+    let mut query_stack = Vec::new();
+    let mut point_valid = |point: Vector2<T>| -> bool {
+        point_valid_for_offset(
+            original_polyline,
+            offset,
+            orig_polyline_index,
+            point,
+            &mut query_stack,
+            options.pos_equal_eps,
+            options.offset_dist_eps,
+        )
+    };
+
+    raw_offset_polyline
+        .iter_segments()
+        .all(|(v1, v2)| point_valid(v1.pos()) && point_valid(seg_midpoint(v1, v2)))
+}
+
 pub fn slices_from_raw_offset<P, R, T>(
     original_polyline: &P,
     raw_offset_polyline: &R,
@@ -718,15 +750,13 @@ where
 
     let mut query_stack = Vec::new();
     if self_intrs.is_empty() {
-        // no self intersects, test point on polyline is valid
-        if !point_valid_for_offset(
+        // no self intersects, test polyline is valid
+        if !all_segs_valid_for_offset(
             original_polyline,
-            offset,
+            raw_offset_polyline,
             orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
+            offset,
+            options,
         ) {
             // not valid
             return result;
@@ -1103,15 +1133,13 @@ where
     let mut query_stack = Vec::with_capacity(8);
 
     if intersects_lookup.is_empty() {
-        // test a point on raw offset polyline
-        if !point_valid_for_offset(
+        // test raw offset polyline
+        if !all_segs_valid_for_offset(
             original_polyline,
-            offset,
+            raw_offset_polyline,
             orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
+            offset,
+            options,
         ) {
             return result;
         }
-- 
2.43.0


From 8458aaafa7a21f14d6bc6a1331fe9dd7b3fa5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 09/13] fix: check all segments of a shape offset slice

---
 cavalier_contours/src/shape_algorithms/mod.rs | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cavalier_contours/src/shape_algorithms/mod.rs b/cavalier_contours/src/shape_algorithms/mod.rs
index e231206..b4b9e91 100644
--- a/cavalier_contours/src/shape_algorithms/mod.rs
+++ b/cavalier_contours/src/shape_algorithms/mod.rs
@@ -381,9 +381,9 @@ where
                               query_stack: &mut Vec<usize>|
          -> bool {
             let slice_view = v_data.view(offset_loop);
-            let midpoint = seg_midpoint(slice_view.at(0), slice_view.at(1));
             // loop through input polylines and check if slice is too close (skipping parent
-            // polyline since it's never too close)
+            // polyline since it's never too close), every segment is tested since the first one
+            // may be short enough to be within the tolerance of the offset distance
             for input_loop_idx in
                 (0..(self.ccw_plines.len() + self.cw_plines.len())).filter(|i| *i != parent_idx)
             {
@@ -393,15 +393,18 @@ where
                     &self.cw_plines[input_loop_idx - self.ccw_plines.len()]
                 };
 
-                if !point_valid_for_offset(
-                    &parent_loop.polyline,
-                    offset,
-                    &parent_loop.spatial_index,
-                    midpoint,
-                    query_stack,
-                    pos_equal_eps,
-                    offset_dist_eps,
-                ) {
+                let all_segs_valid = slice_view.iter_segments().all(|(v1, v2)| {
+                    point_valid_for_offset(
+                        &parent_loop.polyline,
+                        offset,
+                        &parent_loop.spatial_index,
+                        seg_midpoint(v1, v2),
+                        query_stack,
+                        pos_equal_eps,
+                        offset_dist_eps,
+                    )
+                });
+                if !all_segs_valid {
                     return false;
                 }
             }
-- 
2.43.0


From 9a21d6b57385eaaa099785554fa223d5b2f74c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 10/13] fix: announce two elements when serializing a Vector2

---
 cavalier_contours/src/core/math/vector2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/vector2.rs b/cavalier_contours/src/core/math/vector2.rs
index 273952d..21b7943 100644
--- a/cavalier_contours/src/core/math/vector2.rs
+++ b/cavalier_contours/src/core/math/vector2.rs
@@ -124,7 +124,7 @@ mod serde_impl {
         where
             S: serde::Serializer,
         {
-            let mut tuple = serializer.serialize_tuple(3)?;
+            let mut tuple = serializer.serialize_tuple(2)?;
             tuple.serialize_element(&self.x)?;
             tuple.serialize_element(&self.y)?;
             tuple.end()
-- 
2.43.0


From 75248c3b683f18821c4f5e9f3a458f2fb0695a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 11/13] fix: last vertex of an empty polyline is None

---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 3eaa66e..026818e 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -108,7 +108,7 @@ pub trait PlineSource {
     /// Get the last vertex of the polyline or `None` if polyline is empty.
     #[inline]
     fn last(&self) -> Option<PlineVertex<Self::Num>> {
-        self.get(self.vertex_count() - 1)
+        self.get(self.vertex_count().checked_sub(1)?)
     }
 
     /// Total number of segments in the polyline.
-- 
2.43.0


From 23e2eb4e23c8f042c3db98d1fc75bf6bafa259fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 12/13] fix: point at path length of an empty polyline is an
 error

---
 cavalier_contours/src/polyline/traits.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 026818e..3c1d943 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1525,7 +1525,10 @@ pub trait PlineSource {
         target_path_length: Self::Num,
     ) -> Result<(usize, Vector2<Self::Num>), Self::Num> {
         if target_path_length <= Self::Num::zero() {
-            return Ok((0, self.at(0).pos()));
+            return match self.get(0) {
+                Some(v) => Ok((0, v.pos())),
+                None => Err(Self::Num::zero()),
+            };
         }
 
         let mut acc_length = Self::Num::zero();
-- 
2.43.0


From 4279b7a34f7ca43a1b75d5d3f92b57c1c439440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:01 +0000
Subject: [PATCH 13/13] fix: freeing a polyline list frees the polylines it
 owns

---
 cavalier_contours_ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 1ef075f..5a58e45 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1171,7 +1171,12 @@ pub unsafe extern "C" fn cavc_aabbindex_get_extents(
 #[unsafe(no_mangle)]
 pub unsafe extern "C" fn cavc_plinelist_f(plinelist: *mut cavc_plinelist) {
     if !plinelist.is_null() {
-        unsafe { drop(Box::from_raw(plinelist)) }
+        unsafe {
+            let plinelist = Box::from_raw(plinelist);
+            for pline in plinelist.0 {
+                cavc_pline_f(pline);
+            }
+        }
     }
 }
 
-- 
2.43.0

