From e8a20e162e6f712810b38da86491cea174ce648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 01/40] fix: report the correct point when opposing arcs on one
 circle only touch at the end of the first

---
 cavalier_contours/src/polyline/pline_seg_intersect.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 7433bf7..dec7b12 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -464,8 +464,8 @@ where
                     OneIntersect { point: v1.pos() }
                 }
                 (false, true) => {
-                    // only touch at start of arc2
-                    OneIntersect { point: u1.pos() }
+                    // only touch at end of arc1 (u1 or u2 touches there depending on direction)
+                    OneIntersect { point: v2.pos() }
                 }
                 (false, false) => {
                     // not just the end points touch, determine how the arcs overlap
-- 
2.43.0


From 61a66f51ab84bce82053f896148c79b9df68d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 02/40] fix: keep the whole last segment when joining several
 overlapping intersects on it

---
 .../src/polyline/internal/pline_intersects.rs   | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_intersects.rs b/cavalier_contours/src/polyline/internal/pline_intersects.rs
index 0471a66..d9acfcd 100644
--- a/cavalier_contours/src/polyline/internal/pline_intersects.rs
+++ b/cavalier_contours/src/polyline/internal/pline_intersects.rs
@@ -594,7 +594,8 @@ where
                     } else {
                         // slice is not on one pline2 segment
                         // updated_start positioned at start_intr.point1 and connects with start_u2
-                        // updated_end positioned at end_intr.point1 and connects with end_intr.point2
+                        // updated_end positioned at the last segment start and connects with
+                        // end_intr.point2
                         // end_point positioned at end_intr.point2
                         let updated_start = {
                             let split1 = seg_split_at_point(
@@ -611,15 +612,11 @@ where
                             let end_u2 =
                                 pline2.at(pline2.next_wrapping_index(end_intr.start_index2));
 
-                            let split1 =
-                                seg_split_at_point(end_u1, end_u2, end_intr.point1, pos_equal_eps);
-                            let split2 = seg_split_at_point(
-                                split1.split_vertex,
-                                end_u2,
-                                end_intr.point2,
-                                pos_equal_eps,
-                            );
-                            split2.updated_start
+                            // the joined slice covers the segment from its start vertex (end_intr
+                            // may be only the last of several intersects on the segment)
+                            let split =
+                                seg_split_at_point(end_u1, end_u2, end_intr.point2, pos_equal_eps);
+                            split.updated_start
                         };
 
                         Self {
-- 
2.43.0


From 1506ebf0983830e31fdd05af5e095c59f711c49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 03/40] fix: report the line end point lying on an arc when
 neither circle solution is within the line

---
 .../src/polyline/pline_seg_intersect.rs            | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index dec7b12..ee85e8b 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -160,7 +160,19 @@ where
                 let t0_point = point_in_sweep(t0);
                 let t1_point = point_in_sweep(t1);
                 match (t0_point, t1_point) {
-                    (None, None) => NoIntersect,
+                    (None, None) => {
+                        // neither solution is on both segments but an end point of the line may
+                        // still lie on the arc (e.g., line crosses the circle at a shallow angle
+                        // just before the start of the line), using the end point for consistency
+                        // with the segment connected to it
+                        if point_lies_on_arc(p0) {
+                            OneIntersect { point: p0 }
+                        } else if point_lies_on_arc(p1) {
+                            OneIntersect { point: p1 }
+                        } else {
+                            NoIntersect
+                        }
+                    }
                     (None, Some(point)) | (Some(point), None) => {
                         // check if either end point lies on arc and substitute intersect point with
                         // end point if so
-- 
2.43.0


From 2a8edb03306e4bf3abdd12e4c0a427ce6db54452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 04/40] fix: test every segment of a raw offset without self
 intersects for validity

A raw offset polyline can be partly invalid without self intersecting when an
arc collapses exactly to its center point (offset equal to the arc radius).
Only the first vertex was tested so invalid segments could be returned.
---
 .../src/polyline/internal/pline_offset.rs     | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index a542f3c..c5500ab 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -718,16 +718,23 @@ where
 
     let mut query_stack = Vec::new();
     if self_intrs.is_empty() {
-        // no self intersects, test point on polyline is valid
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // no self intersects, test that the polyline is valid (every segment is tested because when
+        // an arc collapses exactly to its center point only part of the polyline may be invalid)
+        let mut point_valid = |point: Vector2<T>| {
+            point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                point,
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        };
+        if !raw_offset_polyline
+            .iter_segments()
+            .all(|(v1, v2)| point_valid(v1.pos()) && point_valid(seg_midpoint(v1, v2)))
+        {
             // not valid
             return result;
         }
-- 
2.43.0


From cd8da70f63c5d61e58d01e927806d2c09b8810bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 05/40] fix: close a stitched offset polyline when its ends are
 within the slice join epsilon

Slices are joined when their ends are within slice_join_eps but the closing
join was compared with pos_equal_eps, leaving an open polyline as a result of
offsetting a closed polyline.
---
 .../src/polyline/internal/pline_offset.rs          | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index c5500ab..e767901 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1460,12 +1460,22 @@ where
                 if current_pline.vertex_count() > 1 {
                     let current_pline_sp = current_pline.at(0).pos();
                     let current_pline_ep = current_pline.last().unwrap().pos();
-                    if is_closed && current_pline_sp.fuzzy_eq_eps(current_pline_ep, pos_equal_eps) {
+                    if is_closed && current_pline_sp.fuzzy_eq_eps(current_pline_ep, join_eps) {
                         current_pline.remove_last();
+                        // removed end vertex may be farther from the start than pos_equal_eps
+                        // leaving the next to last vertex repeating the start
+                        if current_pline.vertex_count() > 1
+                            && current_pline_sp
+                                .fuzzy_eq_eps(current_pline.last().unwrap().pos(), pos_equal_eps)
+                        {
+                            current_pline.remove_last();
+                        }
                         current_pline.set_is_closed(true);
                     }
 
-                    result.push(current_pline);
+                    if current_pline.vertex_count() > 1 {
+                        result.push(current_pline);
+                    }
                 }
                 break;
             }
-- 
2.43.0


From 2e998ed9cbbcf4228ef57bd68d462f1aef4d72df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 06/40] fix: handle zero length arc segments in path length,
 closest point and arc approximation

---
 cavalier_contours/src/polyline/pline_seg.rs | 7 ++++++-
 cavalier_contours/src/polyline/traits.rs    | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/pline_seg.rs b/cavalier_contours/src/polyline/pline_seg.rs
index be73022..441968e 100644
--- a/cavalier_contours/src/polyline/pline_seg.rs
+++ b/cavalier_contours/src/polyline/pline_seg.rs
@@ -228,6 +228,11 @@ where
         return line_seg_closest_point(v1.pos(), v2.pos(), point);
     }
 
+    if v1.pos().fuzzy_eq(v2.pos()) {
+        // zero length arc segment (repeat position), radius and center are not defined
+        return v1.pos();
+    }
+
     let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
     if point.fuzzy_eq_eps(arc_center, epsilon) {
         // avoid normalizing zero length vector (point is at center, just return start point)
@@ -389,7 +394,7 @@ pub fn seg_length<T>(v1: PlineVertex<T>, v2: PlineVertex<T>) -> T
 where
     T: Real,
 {
-    if v1.fuzzy_eq(v2) {
+    if v1.pos().fuzzy_eq(v2.pos()) {
         return T::zero();
     }
 
diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index b74e547..8eef4c4 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1214,6 +1214,12 @@ pub trait PlineSource {
                 continue;
             }
 
+            if v1.pos().fuzzy_eq(v2.pos()) {
+                // zero length arc segment (repeat position), radius and center are not defined
+                result.add(v1.x, v1.y, Self::Num::zero());
+                continue;
+            }
+
             let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
             if arc_radius.fuzzy_lt(error_distance) {
                 result.add(v1.x, v1.y, Self::Num::zero());
-- 
2.43.0


From a4953e66e69a662c800aa67fc4b002780c60469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 07/40] fix: finding point at path length on an empty polyline
 no longer panics

---
 cavalier_contours/src/polyline/traits.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 8eef4c4..27b8a97 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1517,6 +1517,11 @@ pub trait PlineSource {
         &self,
         target_path_length: Self::Num,
     ) -> Result<(usize, Vector2<Self::Num>), Self::Num> {
+        if self.is_empty() {
+            // no point to find, total path length is zero
+            return Err(Self::Num::zero());
+        }
+
         if target_path_length <= Self::Num::zero() {
             return Ok((0, self.at(0).pos()));
         }
-- 
2.43.0


From 1ee899286282a6c708ea21bdfe5fb02f98d2711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 08/40] fix: PlineSource::last returns None for an empty
 polyline instead of panicking

---
 cavalier_contours/src/polyline/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 27b8a97..0b57c3b 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -108,7 +108,8 @@ pub trait PlineSource {
     /// Get the last vertex of the polyline or `None` if polyline is empty.
     #[inline]
     fn last(&self) -> Option<PlineVertex<Self::Num>> {
-        self.get(self.vertex_count() - 1)
+        let last_index = self.vertex_count().checked_sub(1)?;
+        self.get(last_index)
     }
 
     /// Total number of segments in the polyline.
-- 
2.43.0


From 173a67609310d0b162f91dcb02851b3e0f3ff5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 09/40] fix: remove_repeat_pos keeps one vertex when all
 vertexes of a closed polyline repeat

---
 cavalier_contours/src/polyline/traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 0b57c3b..fa0cd4b 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -438,8 +438,10 @@ pub trait PlineSource {
             }
         }
 
-        // check if is_closed and last repeats position on first
+        // check if is_closed and last repeats position on first (keeping the vertex if it is the only
+        // one left, i.e., all vertexes repeat the same position)
         if self.is_closed()
+            && result.as_ref().is_none_or(|r| r.vertex_count() > 1)
             && self
                 .last()
                 .unwrap()
-- 
2.43.0


From ef83a465789d07ec7a49d3e9f28738c9c006d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 10/40] fix: remove_redundant keeps the path when the polyline
 starts with repeat positions

---
 cavalier_contours/src/polyline/traits.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index fa0cd4b..59e011f 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -549,7 +549,10 @@ pub trait PlineSource {
             v1.bulge = v2.bulge;
             // check for reaching the end of polyline
             if i >= vc {
-                break;
+                // all vertexes repeat the same position, return polyline with the only vertex
+                let mut pl = Self::OutputPolyline::with_capacity(1, self.is_closed());
+                pl.add_vertex(v1);
+                return Some(pl);
             }
             v2 = self.at(i);
             i += 1;
@@ -562,8 +565,12 @@ pub trait PlineSource {
             pl.add_vertex(v1);
             Some(pl)
         };
-        // if end is reached return polyline with the only vertex
+        // if end is reached return polyline with the only two vertexes (more than two vertexes in
+        // the polyline so there were repeat positions at the start)
         if i >= vc {
+            if let Some(ref mut pl) = result {
+                pl.add_vertex(v2);
+            }
             return result;
         }
 
@@ -573,7 +580,8 @@ pub trait PlineSource {
         let mut v1_bulge_is_pos = v1.bulge_is_pos();
         let mut v2_bulge_is_pos = v2.bulge_is_pos();
 
-        let iter_count = if self.is_closed() { vc - 1 } else { vc - 2 };
+        // process up to the last vertex (or to the first vertex wrapping around if closed)
+        let iter_count = if self.is_closed() { vc + 1 - i } else { vc - i };
 
         enum RemoveRedundantCase<U>
         where
@@ -730,10 +738,14 @@ pub trait PlineSource {
             // v1 => last
             // v2 => first
             // v3 => second
-            let v3 = match result.as_ref() {
-                Some(pl) => pl.at(1),
-                None => self.at(1),
+            // Note: using vertexes from result since the bulge of the first vertex may have been
+            // updated
+            let (v2, v3) = match result.as_ref() {
+                Some(pl) => (pl.at(0), pl.at(1)),
+                None => (self.at(0), self.at(1)),
             };
+            let v2_bulge_is_zero = v2.bulge_is_zero();
+            let v2_bulge_is_pos = v2.bulge_is_pos();
             if v1_bulge_is_zero && v2_bulge_is_zero && is_collinear_same_dir(&v1, &v2, &v3) {
                 // first vertex is in middle of line
                 let p = result.get_or_insert_with(|| {
-- 
2.43.0


From 783ce989fc78a5c4d0f513dd43d9b49c8019cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 11/40] fix: arcs_to_approx_lines uses the magnitude of the
 error distance consistently

---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 59e011f..86e5b2b 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1236,7 +1236,7 @@ pub trait PlineSource {
             }
 
             let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
-            if arc_radius.fuzzy_lt(error_distance) {
+            if arc_radius.fuzzy_lt(abs_error) {
                 result.add(v1.x, v1.y, Self::Num::zero());
                 continue;
             }
-- 
2.43.0


From 3e4e1b5175f29d8d68dbb87de90744a222439dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 12/40] fix: order two arc-arc intersects along the second
 segment as documented

---
 .../src/polyline/pline_seg_intersect.rs          | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index ee85e8b..f2d946c 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -376,7 +376,7 @@ where
 
             let pt1_in_sweep = both_arcs_sweep_point(point1);
             let pt2_in_sweep = both_arcs_sweep_point(point2);
-            if pt1_in_sweep && pt2_in_sweep {
+            let intr = if pt1_in_sweep && pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => TwoIntersects { point1, point2 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => {
@@ -433,6 +433,20 @@ where
                         point2: end_pt2,
                     },
                 }
+            };
+
+            // ensure points are ordered according to second segment direction (note distance from
+            // start of arc is monotonic along the arc since arcs are never more than a half circle)
+            match intr {
+                TwoIntersects { point1, point2 }
+                    if dist_squared(u1.pos(), point2) < dist_squared(u1.pos(), point1) =>
+                {
+                    TwoIntersects {
+                        point1: point2,
+                        point2: point1,
+                    }
+                }
+                intr => intr,
             }
         }
         CircleCircleIntr::Overlapping => {
-- 
2.43.0


From da38512c10ee0786f6f0f64afcc6249da2957206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:55 +0000
Subject: [PATCH 13/40] fix: angle between tests inclusive by epsilon at the
 start as well as the end

---
 cavalier_contours/src/core/math/base_math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index bc71e77..371de67 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -120,7 +120,8 @@ where
     let end_sweep = normalize_radians(end_angle - start_angle);
     let mid_sweep = normalize_radians(test_angle - start_angle);
 
-    mid_sweep < end_sweep + epsilon
+    // inclusive at both ends (just before the start angle normalizes to nearly a whole turn)
+    mid_sweep < end_sweep + epsilon || mid_sweep > T::tau() - epsilon
 }
 
 /// Same as [angle_is_between_eps] using default epsilon.
-- 
2.43.0


From 05f1cad09b3b2f9eb49e625bc5bbf9377d9da345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 14/40] fix: keep the intersect on both segments when an end
 point belongs to the other solution

---
 .../src/polyline/pline_seg_intersect.rs       | 76 ++++++++++++++-----
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index f2d946c..634e8e8 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -129,6 +129,19 @@ where
             if within_sweep { Some(p) } else { None }
         };
 
+        let two_intersects = |point1: Vector2<T>, point2: Vector2<T>| -> PlineSegIntr<T> {
+            // return points ordered according to second segment direction
+            let start = if u_is_line { p0 } else { a1.pos() };
+            if dist_squared(point1, start) < dist_squared(point2, start) {
+                TwoIntersects { point1, point2 }
+            } else {
+                TwoIntersects {
+                    point1: point2,
+                    point2: point1,
+                }
+            }
+        };
+
         // Note if intersect is detected we check if the line segment starts or ends on the arc
         // segment and if so then use that end point as the intersect point.
         // Why: this avoids inconsistencies between segment intersects where a line may "overlap" an
@@ -176,12 +189,31 @@ where
                     (None, Some(point)) | (Some(point), None) => {
                         // check if either end point lies on arc and substitute intersect point with
                         // end point if so
-                        if point_lies_on_arc(p0) {
-                            OneIntersect { point: p0 }
+                        let end_point = if point_lies_on_arc(p0) {
+                            Some(p0)
                         } else if point_lies_on_arc(p1) {
-                            OneIntersect { point: p1 }
+                            Some(p1)
                         } else {
-                            OneIntersect { point }
+                            None
+                        };
+
+                        // t value of the solution that is not on both segments
+                        let other_t = if t0_point.is_some() { t1 } else { t0 };
+                        match end_point {
+                            None => OneIntersect { point },
+                            Some(end_point)
+                                if dist_squared(end_point, point)
+                                    <= dist_squared(
+                                        end_point,
+                                        point_from_parametric(p0, p1, other_t),
+                                    ) =>
+                            {
+                                OneIntersect { point: end_point }
+                            }
+                            Some(end_point) => {
+                                // end point belongs to the other solution
+                                two_intersects(end_point, point)
+                            }
                         }
                     }
                     (Some(point1), Some(point2)) => {
@@ -222,17 +254,7 @@ where
                             }
                         };
 
-                        // return points ordered according to second segment direction
-                        if u_is_line
-                            || (dist_squared(point1, a1.pos()) < dist_squared(point2, a1.pos()))
-                        {
-                            TwoIntersects { point1, point2 }
-                        } else {
-                            TwoIntersects {
-                                point1: point2,
-                                point2: point1,
-                            }
-                        }
+                        two_intersects(point1, point2)
                     }
                 }
             }
@@ -409,7 +431,17 @@ where
             } else if pt1_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point1 },
-                    (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
+                    (None, Some(end_pt)) | (Some(end_pt), None) => {
+                        if dist_squared(end_pt, point1) <= dist_squared(end_pt, point2) {
+                            OneIntersect { point: end_pt }
+                        } else {
+                            // end point belongs to the other solution
+                            TwoIntersects {
+                                point1: end_pt,
+                                point2: point1,
+                            }
+                        }
+                    }
                     (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
                         point1: end_pt1,
                         point2: end_pt2,
@@ -418,7 +450,17 @@ where
             } else if pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point2 },
-                    (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
+                    (None, Some(end_pt)) | (Some(end_pt), None) => {
+                        if dist_squared(end_pt, point2) <= dist_squared(end_pt, point1) {
+                            OneIntersect { point: end_pt }
+                        } else {
+                            // end point belongs to the other solution
+                            TwoIntersects {
+                                point1: end_pt,
+                                point2,
+                            }
+                        }
+                    }
                     (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
                         point1: end_pt1,
                         point2: end_pt2,
-- 
2.43.0


From 1f2f4c5665ccb79673238b91cf54915a29efd1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 15/40] fix: cavc_plinelist_f frees the polylines owned by the
 list as documented

---
 cavalier_contours_ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 1ef075f..dc8d805 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1171,7 +1171,12 @@ pub unsafe extern "C" fn cavc_aabbindex_get_extents(
 #[unsafe(no_mangle)]
 pub unsafe extern "C" fn cavc_plinelist_f(plinelist: *mut cavc_plinelist) {
     if !plinelist.is_null() {
-        unsafe { drop(Box::from_raw(plinelist)) }
+        unsafe {
+            // list holds raw pointers, the polylines still owned by the list must be freed as well
+            for pline in Box::from_raw(plinelist).0 {
+                cavc_pline_f(pline);
+            }
+        }
     }
 }
 
-- 
2.43.0


From 3118390e6ba7508d8993db07160a15e3b96433ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 16/40] fix: declare two elements when serializing a Vector2

---
 cavalier_contours/src/core/math/vector2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/vector2.rs b/cavalier_contours/src/core/math/vector2.rs
index 273952d..21b7943 100644
--- a/cavalier_contours/src/core/math/vector2.rs
+++ b/cavalier_contours/src/core/math/vector2.rs
@@ -124,7 +124,7 @@ mod serde_impl {
         where
             S: serde::Serializer,
         {
-            let mut tuple = serializer.serialize_tuple(3)?;
+            let mut tuple = serializer.serialize_tuple(2)?;
             tuple.serialize_element(&self.x)?;
             tuple.serialize_element(&self.y)?;
             tuple.end()
-- 
2.43.0


From c3cb455f9e9c045f33f35d0d57f32a93e3c71e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 17/40] fix: keep the valid parts of a dual raw offset slice
 that is partly collapsed

Overlaps between the raw offset and the dual raw offset were not used as slice
points, so a slice that collapsed only along a part of it was dropped as a whole
and valid stretches of the offset were missing from the result.
---
 .../src/polyline/internal/pline_offset.rs     | 141 ++++++++++++------
 1 file changed, 92 insertions(+), 49 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index e767901..db5fd5a 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -3,7 +3,7 @@ use crate::{
         math::{
             CircleCircleIntr, LineCircleIntr, LineLineIntr, Vector2, angle, bulge_from_angle,
             circle_circle_intr, delta_angle, delta_angle_signed, dist_squared, line_circle_intr,
-            line_line_intr, point_from_parametric, point_within_arc_sweep,
+            line_line_intr, min_max, point_from_parametric, point_within_arc_sweep,
         },
         traits::Real,
     },
@@ -1105,7 +1105,14 @@ where
     for &intr in dual_intrs.basic_intersects.iter() {
         add_intr(intr.start_index1, intr.point);
     }
-    // Note not adding any overlapping intersects (they can only arise due to collapsing regions)
+    // Note not adding any overlapping intersects (they can only arise due to collapsing regions), but
+    // their end points are used to separate the collapsed part of a slice that is not valid
+    let mut collapsed_lookup = BTreeMap::<usize, Vec<Vector2<T>>>::new();
+    for &intr in dual_intrs.overlapping_intersects.iter() {
+        let list = collapsed_lookup.entry(intr.start_index1).or_default();
+        list.push(intr.point1);
+        list.push(intr.point2);
+    }
 
     let mut query_stack = Vec::with_capacity(8);
 
@@ -1130,7 +1137,10 @@ where
     }
 
     // sort intersects by distance from segment start vertex
-    for (&i, intr_list) in intersects_lookup.iter_mut() {
+    for (&i, intr_list) in intersects_lookup
+        .iter_mut()
+        .chain(collapsed_lookup.iter_mut())
+    {
         let start_pos = raw_offset_polyline.at(i).pos();
         intr_list.sort_unstable_by(|&si1, &si2| {
             let dist1 = dist_squared(si1, start_pos);
@@ -1246,44 +1256,92 @@ where
         point_valid_dist(slice.end_point, query_stack)
     };
 
+    // split slice at the ends of collapsed parts, returns the end points of the pieces with the segment
+    // index each is on
+    let split_at_collapsed = |slice: &PlineViewData<T>| -> Vec<(Vector2<T>, usize)> {
+        let slice_start = slice.updated_start.pos();
+        let mut points = vec![(slice_start, slice.start_index)];
+        for index_offset in 0..=slice.end_index_offset {
+            let i = raw_offset_polyline.fwd_wrapping_index(slice.start_index, index_offset);
+            let seg_start = raw_offset_polyline.at(i).pos();
+            for &point in collapsed_lookup.get(&i).into_iter().flatten() {
+                let dist = dist_squared(point, seg_start);
+                let after_start = index_offset != 0 || dist > dist_squared(slice_start, seg_start);
+                let before_end = index_offset != slice.end_index_offset
+                    || dist < dist_squared(slice.end_point, seg_start);
+                if after_start && before_end {
+                    points.push((point, i));
+                }
+            }
+        }
+        let end_index =
+            raw_offset_polyline.fwd_wrapping_index(slice.start_index, slice.end_index_offset);
+        points.push((slice.end_point, end_index));
+        points
+    };
+
+    // slice lies on part of the raw offset that overlaps with the dual raw offset
+    let is_collapsed = |slice: &PlineViewData<T>| -> bool {
+        if slice.end_index_offset != 0 {
+            return false;
+        }
+        let end_vertex = PlineVertex::from_vector2(slice.end_point, T::zero());
+        let midpoint = seg_midpoint(slice.updated_start, end_vertex);
+        let seg_start = raw_offset_polyline.at(slice.start_index).pos();
+        let dist = dist_squared(midpoint, seg_start);
+        dual_intrs.overlapping_intersects.iter().any(|intr| {
+            let (min_dist, max_dist) = min_max(
+                dist_squared(intr.point1, seg_start),
+                dist_squared(intr.point2, seg_start),
+            );
+            intr.start_index1 == slice.start_index && min_dist < dist && dist < max_dist
+        })
+    };
+
+    let mut add_slice =
+        |start_point: Vector2<T>, start_index: usize, end_point: Vector2<T>, end_index: usize| {
+            let create_slice = |start_point, start_index, end_point, end_index| {
+                PlineViewData::from_slice_points(
+                    raw_offset_polyline,
+                    start_point,
+                    start_index,
+                    end_point,
+                    end_index,
+                    pos_equal_eps,
+                )
+            };
+
+            let Some(slice) = create_slice(start_point, start_index, end_point, end_index) else {
+                return;
+            };
+
+            if slice_is_valid(&slice, &mut query_stack) {
+                result.push(slice);
+                return;
+            }
+
+            // not valid as a whole but may be valid apart from parts that collapsed
+            let points = split_at_collapsed(&slice);
+            if points.len() > 2 {
+                result.extend(points.windows(2).filter_map(|w| {
+                    create_slice(w[0].0, w[0].1, w[1].0, w[1].1)
+                        .filter(|s| !is_collapsed(s) && slice_is_valid(s, &mut query_stack))
+                }));
+            }
+        };
+
     if !original_polyline.is_closed() {
         // build first slice that ends at the first intersect since we will not wrap back to
         // capture it as in the case of a closed polyline
         let (intr_idx, intr_list) = intersects_lookup.iter().next().unwrap();
         let intr = intr_list[0];
-        let slice = PlineViewData::from_slice_points(
-            raw_offset_polyline,
-            raw_offset_polyline.at(0).pos(),
-            0,
-            intr,
-            *intr_idx,
-            pos_equal_eps,
-        );
-
-        if let Some(s) = slice {
-            if slice_is_valid(&s, &mut query_stack) {
-                result.push(s);
-            }
-        }
+        add_slice(raw_offset_polyline.at(0).pos(), 0, intr, *intr_idx);
     }
 
     for (&start_index, intr_list) in intersects_lookup.iter() {
         let mut intr_list_iter = intr_list.windows(2);
         while let Some(&[intr1, intr2]) = intr_list_iter.next() {
-            let slice = PlineViewData::from_slice_points(
-                raw_offset_polyline,
-                intr1,
-                start_index,
-                intr2,
-                start_index,
-                pos_equal_eps,
-            );
-
-            if let Some(s) = slice {
-                if slice_is_valid(&s, &mut query_stack) {
-                    result.push(s);
-                }
-            }
+            add_slice(intr1, start_index, intr2, start_index);
         }
 
         // build the slice between the last intersect in the intr_list and the next intersect found
@@ -1297,36 +1355,21 @@ where
                 intersects_lookup.range(..=start_index).next().unwrap()
             } else {
                 // open polyline and didn't find next intersect, we're done
-                let slice = PlineViewData::from_slice_points(
-                    raw_offset_polyline,
+                add_slice(
                     *intr_list.last().unwrap(),
                     start_index,
                     raw_offset_polyline.last().unwrap().pos(),
                     raw_offset_polyline.vertex_count() - 1,
-                    pos_equal_eps,
                 );
-                if let Some(s) = slice {
-                    if slice_is_valid(&s, &mut query_stack) {
-                        result.push(s);
-                    }
-                }
-                return result;
+                break;
             };
 
-        let slice = PlineViewData::from_slice_points(
-            raw_offset_polyline,
+        add_slice(
             *intr_list.last().unwrap(),
             start_index,
             next_intr_list[0],
             *found_index,
-            pos_equal_eps,
         );
-
-        if let Some(s) = slice {
-            if slice_is_valid(&s, &mut query_stack) {
-                result.push(s);
-            }
-        }
     }
 
     result
-- 
2.43.0


From e6338cdf544453425b0f92b8af3be48702fd15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 18/40] fix: find end point circle intersects on segments whose
 bounds only just touch the circle

---
 .../src/polyline/internal/pline_offset.rs              | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index db5fd5a..04150b5 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -964,11 +964,13 @@ fn visit_circle_intersects<P, T, F>(
             )
     };
 
+    // fuzzy bounds to include segments that only just touch the circle
+    let query_radius = circle_radius + pos_equal_eps;
     let query_results = aabb_index.query(
-        circle_center.x - circle_radius,
-        circle_center.y - circle_radius,
-        circle_center.x + circle_radius,
-        circle_center.y + circle_radius,
+        circle_center.x - query_radius,
+        circle_center.y - query_radius,
+        circle_center.x + query_radius,
+        circle_center.y + query_radius,
     );
 
     for start_index in query_results {
-- 
2.43.0


From ca233acb509b6ed5af3f0f2b202584ed78e6b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 19/40] fix: test every segment of a raw offset without dual
 intersects for validity

---
 .../src/polyline/internal/pline_offset.rs     | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 04150b5..34f7fe0 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1119,16 +1119,23 @@ where
     let mut query_stack = Vec::with_capacity(8);
 
     if intersects_lookup.is_empty() {
-        // test a point on raw offset polyline
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // test raw offset polyline (every segment is tested because when an arc collapses exactly to
+        // its center point only part of the polyline may be invalid)
+        let mut point_valid = |point: Vector2<T>| {
+            point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                point,
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        };
+        if !raw_offset_polyline
+            .iter_segments()
+            .all(|(v1, v2)| point_valid(v1.pos()) && point_valid(seg_midpoint(v1, v2)))
+        {
             return result;
         }
 
-- 
2.43.0


From eddcc7b8c8264657ba6a9cf3b25a917ea151134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 20/40] fix: find circle intersects at the end of a line
 segment inclusive by epsilon

---
 .../src/polyline/internal/pline_offset.rs          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 34f7fe0..d544a98 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -941,9 +941,11 @@ fn visit_circle_intersects<P, T, F>(
 {
     let pos_equal_eps = options.pos_equal_eps;
 
-    let is_valid_line_intr = |t: T| -> bool {
-        // skip false intersects and intersects at start of seg
-        !is_false_intersect(t) && t.abs() > pos_equal_eps
+    let is_valid_line_intr = |v1: PlineVertex<T>, v2: PlineVertex<T>, t: T| -> bool {
+        // skip false intersects (end point inclusive by epsilon) and intersects at start of seg
+        let at_end =
+            || point_from_parametric(v1.pos(), v2.pos(), t).fuzzy_eq_eps(v2.pos(), pos_equal_eps);
+        t.abs() > pos_equal_eps && (!is_false_intersect(t) || at_end())
     };
 
     let is_valid_arc_intr = |arc_center: Vector2<T>,
@@ -986,15 +988,15 @@ fn visit_circle_intersects<P, T, F>(
             ) {
                 LineCircleIntr::NoIntersect => {}
                 LineCircleIntr::TangentIntersect { t0 } => {
-                    if is_valid_line_intr(t0) {
+                    if is_valid_line_intr(v1, v2, t0) {
                         visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t0));
                     }
                 }
                 LineCircleIntr::TwoIntersects { t0, t1 } => {
-                    if is_valid_line_intr(t0) {
+                    if is_valid_line_intr(v1, v2, t0) {
                         visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t0));
                     }
-                    if is_valid_line_intr(t1) {
+                    if is_valid_line_intr(v1, v2, t1) {
                         visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t1));
                     }
                 }
-- 
2.43.0


From cad2c08da3164a22614b1b09678cd92dce8193d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 21/40] fix: keep the slope of steep lines when intersecting a
 line with a circle

---
 .../src/core/math/line_circle_intersect.rs    | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/cavalier_contours/src/core/math/line_circle_intersect.rs b/cavalier_contours/src/core/math/line_circle_intersect.rs
index c10f808..f55e45a 100644
--- a/cavalier_contours/src/core/math/line_circle_intersect.rs
+++ b/cavalier_contours/src/core/math/line_circle_intersect.rs
@@ -94,30 +94,31 @@ where
         return NoIntersect;
     }
 
-    let p0_shifted = p0 - circle_center;
     let p1_shifted = p1 - circle_center;
 
-    // note: using Real number's defined epsilon for this check since it's just avoiding division by
-    // too small a number, using the epsilon passed into this function causes unneeded loss of
-    // precision (this branch is not directly determining the intersect result case returned)
-    let (a, b, c) = if dx.fuzzy_eq_zero() {
-        // vertical line, using average of point x values for fuzziness
-        let x_pos = (p1_shifted.x + p0_shifted.x) / T::two();
-        // x = x_pos
-        // x - x_pos = 0
-
-        // A = 1
-        // B = 0
-        // C = -x_pos
-        (T::one(), T::zero(), -x_pos)
+    // note: dividing by the component with the largest difference, a steep line is not treated as
+    // exactly vertical since the solutions may be far from p0 and p1 where the difference matters
+    let (a, b, c) = if dx.abs() < dy.abs() {
+        // (x - x1) = m(y - y1)
+        // x - x1 = my - my1
+        // -x + my + x1 - my1 = 0
+
+        // A = -1.0
+        // B = m
+        // C = x1 - m*y1
+
+        // m = (x1 - x0) / (y1 - y0)
+
+        let m = dx / dy;
+        (-T::one(), m, p1_shifted.x - m * p1_shifted.y)
     } else {
         // (y - y1) = m(x - x1)
         // y - y1 = mx - mx1
         // mx - y + y1 - mx1 = 0
 
-        // A = -m
-        // B = 1.0
-        // C = -y1 + m*x1
+        // A = m
+        // B = -1.0
+        // C = y1 - m*x1
 
         // m = (y1 - y0) / (x1 - x0)
 
-- 
2.43.0


From d4beb037b1ccf3a23891b912fa5af874cab9d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 22/40] fix: compare distances instead of areas when testing
 lines for parallel and collinear

---
 .../src/core/math/line_line_intersect.rs      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cavalier_contours/src/core/math/line_line_intersect.rs b/cavalier_contours/src/core/math/line_line_intersect.rs
index b9ac959..380fc6c 100644
--- a/cavalier_contours/src/core/math/line_line_intersect.rs
+++ b/cavalier_contours/src/core/math/line_line_intersect.rs
@@ -120,8 +120,13 @@ where
     let seg1_length = (v2 - v1).length();
     let seg2_length = (u2 - u1).length();
 
+    // perpendicular products are areas, dividing by the length gives the distance the shorter segment
+    // deviates from the direction of the longer segment which can be compared with the epsilon value
+    // (otherwise short segments are always considered parallel)
+    let deviation = v_pdot_u / num_traits::real::Real::max(seg1_length, seg2_length);
+
     // threshold check here to avoid almost parallel lines resulting in very distant intersection
-    if !v_pdot_u.fuzzy_eq_zero_eps(eps) {
+    if deviation.abs() > eps {
         // segments not parallel or collinear
         let seg1_t = u.perp_dot(w) / v_pdot_u;
         let seg2_t = v.perp_dot(w) / v_pdot_u;
@@ -137,16 +142,19 @@ where
     let v_pdot_w = v.perp_dot(w);
     let u_pdot_w = u.perp_dot(w);
 
+    // a single point has no direction to compare with
+    let v_is_point = v1.fuzzy_eq_eps(v2, eps);
+    let u_is_point = u1.fuzzy_eq_eps(u2, eps);
+
     // threshold check here, we consider almost parallel lines to be parallel
-    if !v_pdot_w.fuzzy_eq_zero_eps(eps) || !u_pdot_w.fuzzy_eq_zero_eps(eps) {
+    if (!v_is_point && v_pdot_w.abs() > eps * seg1_length)
+        || (!u_is_point && u_pdot_w.abs() > eps * seg2_length)
+    {
         // parallel and not collinear so no intersect
         return NoIntersect;
     }
 
     // either collinear or degenerate (segments are single points)
-    let v_is_point = v1.fuzzy_eq_eps(v2, eps);
-    let u_is_point = u1.fuzzy_eq_eps(u2, eps);
-
     if v_is_point && u_is_point {
         // both segments are points
         if v1.fuzzy_eq_eps(u1, eps) {
@@ -188,7 +196,7 @@ where
 
     // neither segment is a point, check if they overlap
     let w2 = v2 - u1;
-    let (mut seg2_t0, mut seg2_t1) = if u.x.fuzzy_eq_zero_eps(eps) {
+    let (mut seg2_t0, mut seg2_t1) = if u.x.abs() < u.y.abs() {
         (w.y / u.y, w2.y / u.y)
     } else {
         (w.x / u.x, w2.x / u.x)
-- 
2.43.0


From f1e86a791460bfd11912b3bf12b5ed2c80afeebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 23/40] fix: apply the epsilon of arc sweep and point on circle
 tests to distances instead of areas

---
 cavalier_contours/src/core/math/base_math.rs         | 12 ++++++++----
 .../src/core/math/line_circle_intersect.rs           |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index 371de67..38a4692 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -446,12 +446,16 @@ pub fn point_within_arc_sweep<T>(
 where
     T: Real,
 {
+    // perpendicular test values are areas, scale by the arc radius so that the epsilon is applied to
+    // the distance between the point and the line through the center and end of the arc
+    let area_eps = epsilon * (arc_start - center).length();
+    let start_test = perp_dot_test_value(center, arc_start, point);
+    let end_test = perp_dot_test_value(center, arc_end, point);
+
     if is_clockwise {
-        is_right_or_coincident_eps(center, arc_start, point, epsilon)
-            && is_left_or_coincident_eps(center, arc_end, point, epsilon)
+        start_test <= area_eps && end_test >= -area_eps
     } else {
-        is_left_or_coincident_eps(center, arc_start, point, epsilon)
-            && is_right_or_coincident_eps(center, arc_end, point, epsilon)
+        start_test >= -area_eps && end_test <= area_eps
     }
 }
 
diff --git a/cavalier_contours/src/core/math/line_circle_intersect.rs b/cavalier_contours/src/core/math/line_circle_intersect.rs
index f55e45a..90a70f0 100644
--- a/cavalier_contours/src/core/math/line_circle_intersect.rs
+++ b/cavalier_contours/src/core/math/line_circle_intersect.rs
@@ -87,7 +87,7 @@ where
         // fuzziness
         let xh = (p0.x + p1.x) / T::two() - h;
         let yk = (p0.y + p1.y) / T::two() - k;
-        if (xh * xh + yk * yk).fuzzy_eq_eps(radius * radius, eps) {
+        if (xh * xh + yk * yk).sqrt().fuzzy_eq_eps(radius, eps) {
             return TangentIntersect { t0: T::zero() };
         }
 
-- 
2.43.0


From 1bd8fb311205ead0e97d411f7ad408ce0ab27199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 24/40] fix: test lines for collinear by the distance of the
 shorter line to the longer line

---
 .../src/core/math/line_line_intersect.rs      | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/cavalier_contours/src/core/math/line_line_intersect.rs b/cavalier_contours/src/core/math/line_line_intersect.rs
index 380fc6c..c62422e 100644
--- a/cavalier_contours/src/core/math/line_line_intersect.rs
+++ b/cavalier_contours/src/core/math/line_line_intersect.rs
@@ -120,13 +120,13 @@ where
     let seg1_length = (v2 - v1).length();
     let seg2_length = (u2 - u1).length();
 
-    // perpendicular products are areas, dividing by the length gives the distance the shorter segment
-    // deviates from the direction of the longer segment which can be compared with the epsilon value
-    // (otherwise short segments are always considered parallel)
-    let deviation = v_pdot_u / num_traits::real::Real::max(seg1_length, seg2_length);
+    // perpendicular products are areas, scaling the epsilon value by the length compares the distance
+    // the shorter segment deviates from the direction of the longer segment (otherwise short segments
+    // are always considered parallel)
+    let max_length = num_traits::real::Real::max(seg1_length, seg2_length);
 
     // threshold check here to avoid almost parallel lines resulting in very distant intersection
-    if deviation.abs() > eps {
+    if v_pdot_u.abs() > eps * max_length {
         // segments not parallel or collinear
         let seg1_t = u.perp_dot(w) / v_pdot_u;
         let seg2_t = v.perp_dot(w) / v_pdot_u;
@@ -138,18 +138,20 @@ where
         return TrueIntersect { seg1_t, seg2_t };
     }
 
-    // segments are parallel and possibly collinear
-    let v_pdot_w = v.perp_dot(w);
-    let u_pdot_w = u.perp_dot(w);
+    // segments are parallel and possibly collinear, tested by the distance of the shorter segment to
+    // the line through the longer segment (not the other way since that extends the shorter segment)
+    let offset_area = if seg1_length > seg2_length {
+        v.perp_dot(w)
+    } else {
+        u.perp_dot(w)
+    };
 
-    // a single point has no direction to compare with
     let v_is_point = v1.fuzzy_eq_eps(v2, eps);
     let u_is_point = u1.fuzzy_eq_eps(u2, eps);
 
-    // threshold check here, we consider almost parallel lines to be parallel
-    if (!v_is_point && v_pdot_w.abs() > eps * seg1_length)
-        || (!u_is_point && u_pdot_w.abs() > eps * seg2_length)
-    {
+    // threshold check here, we consider almost parallel lines to be parallel (single points have no
+    // direction to test with)
+    if !(v_is_point && u_is_point) && offset_area.abs() > eps * max_length {
         // parallel and not collinear so no intersect
         return NoIntersect;
     }
-- 
2.43.0


From ddbffcc66cc14efda477223609b575ca658cae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 25/40] fix: compare distances instead of squared distances
 when joining offset arcs

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index d544a98..ac1138b 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -487,7 +487,7 @@ fn arc_arc_join<T, O>(
             // always use intersect closest to original point
             let dist1 = dist_squared(point1, s1.orig_v2_pos);
             let dist2 = dist_squared(point2, s1.orig_v2_pos);
-            if dist1.fuzzy_eq_eps(dist2, pos_equal_eps) {
+            if dist1.sqrt().fuzzy_eq_eps(dist2.sqrt(), pos_equal_eps) {
                 // catch case where both points are equal distance (occurs if input arcs connect at
                 // tangent point), prioritize true intersect (eliminates intersect in raw offset
                 // polyline that must be processed later and prevents false creation of segments if
-- 
2.43.0


From dac216c62d934546c2b0f44deb4f30d991a8bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 26/40] fix: remove_redundant discards corners and reversals of
 short segments

---
 cavalier_contours/src/polyline/traits.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 86e5b2b..f5a0cc1 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -531,11 +531,17 @@ pub trait PlineSource {
                     return true;
                 }
 
-                let collinear =
-                    (v1.x * (v2.y - v3.y) + v2.x * (v3.y - v1.y) + v3.x * (v1.y - v2.y))
-                        .fuzzy_eq_zero_eps(pos_equal_eps);
+                let v1_to_v2 = v2.pos() - v1.pos();
+                let v2_to_v3 = v3.pos() - v2.pos();
+                let area = v1_to_v2.perp_dot(v2_to_v3).abs();
+                // a clearly visible turn is never collinear (area is always small if the segments
+                // are short)
+                let max_turn_sin = <Self::Num as NumCast>::from(0.2).unwrap();
+                let collinear = area < pos_equal_eps
+                    && area <= max_turn_sin * v1_to_v2.length() * v2_to_v3.length();
+                // distance going back along the line from v1 to v2
                 let same_direction =
-                    (v3.pos() - v2.pos()).dot(v2.pos() - v1.pos()) > -pos_equal_eps;
+                    v2_to_v3.dot(v1_to_v2) >= -pos_equal_eps * v1_to_v2.length();
 
                 collinear && same_direction
             };
-- 
2.43.0


From 33f433d066d18049d8774cfb8df196291cb65823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 27/40] fix: remove_redundant panics when everything collapses
 onto the first vertex

---
 cavalier_contours/src/polyline/traits.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index f5a0cc1..9e7c784 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -712,14 +712,19 @@ pub trait PlineSource {
             // handle wrap around middle vertex at start
             match result.as_mut() {
                 Some(pl) => {
-                    if pl
-                        .last()
-                        .unwrap()
-                        .pos()
-                        .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
+                    if pl.vertex_count() > 1
+                        && pl
+                            .last()
+                            .unwrap()
+                            .pos()
+                            .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
                     {
                         pl.remove_last();
                     }
+                    if pl.vertex_count() < 2 {
+                        // everything collapsed onto the first vertex
+                        return result;
+                    }
                 }
                 None => {
                     if self
-- 
2.43.0


From 58398dc70a99192b74d282574a4bbb1708390695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 28/40] fix: remove_redundant straightens densely sampled
 curves

---
 cavalier_contours/src/polyline/traits.rs | 56 +++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 9e7c784..ec73e16 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -580,6 +580,41 @@ pub trait PlineSource {
             return result;
         }
 
+        // right and left most directions from v1 for a line to stay within pos_equal_eps of all the
+        // vertexes discarded since v1
+        let mut line_bounds: Option<(Vector2<Self::Num>, Vector2<Self::Num>)> = None;
+        let line_within_bounds =
+            |bounds: &Option<(Vector2<Self::Num>, Vector2<Self::Num>)>,
+             line: Vector2<Self::Num>| {
+                bounds.is_none_or(|(right, left)| {
+                    right.perp_dot(line) >= Self::Num::zero()
+                        && left.perp_dot(line) <= Self::Num::zero()
+                })
+            };
+        let update_line_bounds =
+            |bounds: &mut Option<(Vector2<Self::Num>, Vector2<Self::Num>)>,
+             discarded: Vector2<Self::Num>| {
+                let length = discarded.length();
+                if length <= pos_equal_eps {
+                    // any direction is close enough
+                    return;
+                }
+                let dir = discarded.scale(Self::Num::one() / length);
+                let sin = pos_equal_eps / length;
+                let cos = (Self::Num::one() - sin * sin).sqrt();
+                let mut right = dir.scale(cos) - dir.perp().scale(sin);
+                let mut left = dir.scale(cos) + dir.perp().scale(sin);
+                if let Some((prev_right, prev_left)) = *bounds {
+                    if prev_right.perp_dot(right) < Self::Num::zero() {
+                        right = prev_right;
+                    }
+                    if prev_left.perp_dot(left) > Self::Num::zero() {
+                        left = prev_left;
+                    }
+                }
+                *bounds = Some((right, left));
+            };
+
         let mut v1_v2_arc: Option<(Self::Num, Vector2<Self::Num>)> = None;
         let mut v1_bulge_is_zero = v1.bulge_is_zero();
         let mut v2_bulge_is_zero = v2.bulge_is_zero();
@@ -617,7 +652,11 @@ pub trait PlineSource {
                 } else if v1_bulge_is_zero && v2_bulge_is_zero {
                     // two line segments in a row, check if collinear
                     let is_final_vertex_for_open = !self.is_closed() && i == vc;
-                    if !is_final_vertex_for_open && is_collinear_same_dir(&v1, &v2, &v3) {
+                    if !is_final_vertex_for_open
+                        && is_collinear_same_dir(&v1, &v2, &v3)
+                        && line_within_bounds(&line_bounds, v3.pos() - v1.pos())
+                    {
+                        update_line_bounds(&mut line_bounds, v2.pos() - v1.pos());
                         DiscardVertex
                     } else {
                         IncludeVertex
@@ -679,6 +718,7 @@ pub trait PlineSource {
                     v1 = v2;
                     v2 = v3;
                     v1_v2_arc = None;
+                    line_bounds = None;
                     v1_bulge_is_zero = v2_bulge_is_zero;
                     v2_bulge_is_zero = v3.bulge_is_zero();
                     v1_bulge_is_pos = v2_bulge_is_pos;
@@ -757,7 +797,19 @@ pub trait PlineSource {
             };
             let v2_bulge_is_zero = v2.bulge_is_zero();
             let v2_bulge_is_pos = v2.bulge_is_pos();
-            if v1_bulge_is_zero && v2_bulge_is_zero && is_collinear_same_dir(&v1, &v2, &v3) {
+            let line = v3.pos() - v1.pos();
+            // if vertexes between v2 and v3 were discarded then moving the line away from v2 also
+            // moves it away from them
+            let v2_on_line = || {
+                v3 == self.at(1)
+                    || (v2.pos() - v1.pos()).perp_dot(line).abs() <= pos_equal_eps * line.length()
+            };
+            if v1_bulge_is_zero
+                && v2_bulge_is_zero
+                && is_collinear_same_dir(&v1, &v2, &v3)
+                && line_within_bounds(&line_bounds, line)
+                && v2_on_line()
+            {
                 // first vertex is in middle of line
                 let p = result.get_or_insert_with(|| {
                     Self::OutputPolyline::from_iter(self.iter_vertexes(), self.is_closed())
-- 
2.43.0


From 06c34f6957d31a424f078bc49246c88a38d60dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 29/40] fix: arcs are plotted away from their position when
 nearly straight or zoomed in

---
 cavalier_contours_ui/src/plotting/mod.rs      | 52 ++++++++++++++++++-
 cavalier_contours_ui/src/plotting/plines.rs   | 34 ++----------
 .../src/plotting/raw_pline_offset_segs.rs     | 39 +++-----------
 3 files changed, 62 insertions(+), 63 deletions(-)

diff --git a/cavalier_contours_ui/src/plotting/mod.rs b/cavalier_contours_ui/src/plotting/mod.rs
index 6d3a6a3..29a74c5 100644
--- a/cavalier_contours_ui/src/plotting/mod.rs
+++ b/cavalier_contours_ui/src/plotting/mod.rs
@@ -4,11 +4,15 @@ mod raw_pline_offset_segs;
 pub use plines::*;
 pub use raw_pline_offset_segs::*;
 
-use cavalier_contours::{core::math::Vector2, static_aabb2d_index::AABB};
+use cavalier_contours::{
+    core::math::{Vector2, angle, angle_from_bulge, point_on_circle},
+    polyline::{PlineVertex, seg_arc_radius_and_center},
+    static_aabb2d_index::AABB,
+};
 use egui::epaint;
 use egui_plot::PlotTransform;
 use lyon::{
-    path::{Path, PathEvent},
+    path::{Path, PathEvent, builder::SvgPathBuilder},
     tessellation::{FillVertexConstructor, StrokeVertexConstructor},
 };
 
@@ -30,6 +34,50 @@ fn lyon_point(v: Vector2, transform: &PlotTransform) -> lyon::math::Point {
     )
 }
 
+/// Maximum distance (in pixels) between an arc and the curves used to draw it.
+const MAX_ARC_ERROR: f64 = 0.05;
+
+/// Add polyline segment to the path. The current position of the `builder` must be at `v1`.
+///
+/// Arcs are added as quadratic bezier curves computed from the plot values, the number of curves
+/// depends on the radius in pixels so the arc is drawn accurately when zoomed in.
+fn add_seg_to_path(
+    builder: &mut impl SvgPathBuilder,
+    v1: PlineVertex,
+    v2: PlineVertex,
+    transform: &PlotTransform,
+) {
+    if v1.bulge_is_zero() {
+        builder.line_to(lyon_point(v2.pos(), transform));
+        return;
+    }
+
+    let (radius, center) = seg_arc_radius_and_center(v1, v2);
+    let start_angle = angle(center, v1.pos());
+    let sweep_angle = angle_from_bulge(v1.bulge);
+
+    // error for a curve spanning an angle of 2a is approximately radius * a^4 / 8
+    // scale using x value (assuming uniform scaling)
+    let pixel_radius = (radius * transform.dpos_dvalue_x()).abs();
+    let max_half_step = (8.0 * MAX_ARC_ERROR / pixel_radius)
+        .powf(0.25)
+        .min(std::f64::consts::FRAC_PI_8);
+    let count = (0.5 * sweep_angle.abs() / max_half_step).ceil().max(1.0) as usize;
+
+    let step = sweep_angle / count as f64;
+    let ctrl_radius = radius / (0.5 * step).cos();
+    for i in 0..count {
+        let step_start = start_angle + i as f64 * step;
+        let ctrl = point_on_circle(ctrl_radius, center, step_start + 0.5 * step);
+        let to = if i + 1 == count {
+            v2.pos()
+        } else {
+            point_on_circle(radius, center, step_start + step)
+        };
+        builder.quadratic_bezier_to(lyon_point(ctrl, transform), lyon_point(to, transform));
+    }
+}
+
 fn aabb_to_plotbounds(aabb: &AABB) -> egui_plot::PlotBounds {
     egui_plot::PlotBounds::from_min_max([aabb.min_x, aabb.min_y], [aabb.max_x, aabb.max_y])
 }
diff --git a/cavalier_contours_ui/src/plotting/plines.rs b/cavalier_contours_ui/src/plotting/plines.rs
index 761d630..baa324d 100644
--- a/cavalier_contours_ui/src/plotting/plines.rs
+++ b/cavalier_contours_ui/src/plotting/plines.rs
@@ -1,8 +1,7 @@
 use std::sync::Arc;
 
 use cavalier_contours::{
-    core::math::angle_from_bulge,
-    polyline::{PlineSource, Polyline, seg_arc_radius_and_center},
+    polyline::{PlineSource, Polyline},
     shape_algorithms::Shape,
     static_aabb2d_index::AABB,
 };
@@ -19,8 +18,8 @@ use lyon::{
 use crate::plotting::plotbounds_to_aabb;
 
 use super::{
-    PLOT_VERTEX_RADIUS, VertexConstructor, aabb_to_plotbounds, cull_path, empty_aabb, lyon_point,
-    plot_bounds_valid,
+    PLOT_VERTEX_RADIUS, VertexConstructor, aabb_to_plotbounds, add_seg_to_path, cull_path,
+    empty_aabb, lyon_point, plot_bounds_valid,
 };
 
 /// Core trait for plotting polylines data, supports plotting multiple polylines.
@@ -174,9 +173,6 @@ where
             return;
         }
 
-        // scale using x value (assuming uniform scaling)
-        let scaling = transform.dpos_dvalue_x();
-
         let mut builder = Path::svg_builder();
 
         if self.stroke_color != epaint::Color32::TRANSPARENT
@@ -189,32 +185,12 @@ where
                 }
                 let mut initial = true;
                 for (v1, v2) in pline.iter_segments() {
-                    let p1 = lyon_point(v1.pos(), transform);
-                    let p2 = lyon_point(v2.pos(), transform);
-
                     if initial {
-                        builder.move_to(p1);
+                        builder.move_to(lyon_point(v1.pos(), transform));
                         initial = false;
                     }
 
-                    if v1.bulge_is_zero() {
-                        builder.line_to(p2);
-                    } else {
-                        let (r, c) = seg_arc_radius_and_center(v1, v2);
-
-                        let radius = (scaling * r) as f32;
-                        let sweep_angle = angle_from_bulge(v1.bulge);
-
-                        builder.arc(
-                            lyon_point(c, transform),
-                            lyon::path::math::vector(radius, radius),
-                            lyon::geom::Angle {
-                                // negate the sweep angle because y axis is flipped
-                                radians: -sweep_angle as f32,
-                            },
-                            lyon::geom::Angle { radians: 0.0 },
-                        );
-                    }
+                    add_seg_to_path(&mut builder, v1, v2, transform);
                 }
             });
         }
diff --git a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
index f8d8820..fdd8eb1 100644
--- a/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
+++ b/cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs
@@ -1,11 +1,6 @@
 use std::sync::Arc;
 
-use cavalier_contours::{
-    core::math::angle_from_bulge,
-    polyline::{
-        internal::pline_offset::RawPlineOffsetSeg, seg_arc_radius_and_center, seg_bounding_box,
-    },
-};
+use cavalier_contours::polyline::{internal::pline_offset::RawPlineOffsetSeg, seg_bounding_box};
 use egui::epaint;
 use egui_plot::PlotItem;
 use lyon::{
@@ -13,7 +8,10 @@ use lyon::{
     tessellation::{BuffersBuilder, StrokeOptions, StrokeTessellator, VertexBuffers},
 };
 
-use super::{VertexConstructor, aabb_to_plotbounds, cull_path, lyon_point, plot_bounds_valid};
+use super::{
+    VertexConstructor, aabb_to_plotbounds, add_seg_to_path, cull_path, lyon_point,
+    plot_bounds_valid,
+};
 
 pub struct RawPlineOffsetSegsPlotItem<'a> {
     pub segs: &'a [RawPlineOffsetSeg<f64>],
@@ -69,9 +67,6 @@ impl PlotItem for RawPlineOffsetSegsPlotItem<'_> {
             return;
         }
 
-        // scale using x value (assuming uniform scaling)
-        let scaling = transform.dpos_dvalue_x();
-
         let mut lyon_mesh: VertexBuffers<_, u32> = VertexBuffers::new();
         let mut stroke_tess = StrokeTessellator::new();
         let line_width = 1.0;
@@ -88,28 +83,8 @@ impl PlotItem for RawPlineOffsetSegsPlotItem<'_> {
             }
 
             let mut builder = WithSvg::<lyon::path::Builder>::new(lyon::path::Builder::new());
-            let p1 = lyon_point(seg.v1.pos(), transform);
-            let p2 = lyon_point(seg.v2.pos(), transform);
-
-            builder.move_to(p1);
-            if seg.v1.bulge_is_zero() {
-                builder.line_to(p2);
-            } else {
-                let (r, c) = seg_arc_radius_and_center(seg.v1, seg.v2);
-
-                let radius = (scaling * r) as f32;
-                let sweep_angle = angle_from_bulge(seg.v1.bulge);
-
-                builder.arc(
-                    lyon_point(c, transform),
-                    lyon::path::math::vector(radius, radius),
-                    lyon::geom::Angle {
-                        // negate the sweep angle because y axis is flipped
-                        radians: -sweep_angle as f32,
-                    },
-                    lyon::geom::Angle { radians: 0.0 },
-                );
-            }
+            builder.move_to(lyon_point(seg.v1.pos(), transform));
+            add_seg_to_path(&mut builder, seg.v1, seg.v2, transform);
 
             let path = builder.build();
 
-- 
2.43.0


From 3f197cd0e7c67453e34501e773f87d868e8b8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 30/40] fix: closest point on an arc is off the arc for points
 near its center

---
 cavalier_contours/src/polyline/pline_seg.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg.rs b/cavalier_contours/src/polyline/pline_seg.rs
index 441968e..3c7d184 100644
--- a/cavalier_contours/src/polyline/pline_seg.rs
+++ b/cavalier_contours/src/polyline/pline_seg.rs
@@ -239,17 +239,21 @@ where
         return v1.pos();
     }
 
+    // project point onto the arc circle before testing the sweep so that epsilon is a distance on the
+    // arc also when the point is near the center
+    let v_to_point = (point - arc_center).normalize();
+    let point_on_circle = v_to_point.scale(arc_radius) + arc_center;
+
     if point_within_arc_sweep(
         arc_center,
         v1.pos(),
         v2.pos(),
         v1.bulge_is_neg(),
-        point,
+        point_on_circle,
         epsilon,
     ) {
         // closest point is on the arc
-        let v_to_point = (point - arc_center).normalize();
-        return v_to_point.scale(arc_radius) + arc_center;
+        return point_on_circle;
     }
 
     // closest point is one of the ends
-- 
2.43.0


From ace28dc4f159159be5ae190ad9cb7229e336d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 31/40] fix: demo scenes offset polylines with a vertex dragged
 onto the adjacent one

---
 cavalier_contours_ui/src/scenes/mod.rs                    | 8 ++++++++
 .../src/scenes/multi_pline_offset_scene.rs                | 4 +++-
 cavalier_contours_ui/src/scenes/pline_offset_scene.rs     | 8 +++++---
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/cavalier_contours_ui/src/scenes/mod.rs b/cavalier_contours_ui/src/scenes/mod.rs
index cb2afb3..9f01d56 100644
--- a/cavalier_contours_ui/src/scenes/mod.rs
+++ b/cavalier_contours_ui/src/scenes/mod.rs
@@ -4,6 +4,7 @@ mod pline_boolean_scene;
 mod pline_offset_scene;
 mod scene_settings;
 
+use cavalier_contours::polyline::{PlineOffsetOptions, PlineSource, Polyline};
 pub use demo_scenes_pane::DemoScenes;
 use scene_settings::SceneSettings;
 
@@ -19,3 +20,10 @@ fn controls_side_panel(id: impl Into<egui::Id>) -> egui::SidePanel {
         .default_width(200.0)
         .max_width(400.0)
 }
+
+/// Input for the algorithms (dragging may have placed a vertex on top of the adjacent one).
+fn without_repeat_pos(pline: &Polyline) -> Polyline {
+    pline
+        .remove_repeat_pos(PlineOffsetOptions::<f64>::default().pos_equal_eps)
+        .unwrap_or_else(|| pline.clone())
+}
diff --git a/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
index 1170f9a..d6b91b7 100644
--- a/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs
@@ -11,6 +11,7 @@ use crate::plotting::PlinesPlotItem;
 
 use super::{
     super::plotting::PLOT_VERTEX_RADIUS, Scene, controls_side_panel, scene_settings::SceneSettings,
+    without_repeat_pos,
 };
 
 pub struct MultiPlineOffsetScene {
@@ -271,7 +272,8 @@ fn build_offsets(
         return (shape, offset_shapes);
     }
 
-    let mut curr_offset = shape.parallel_offset(*offset, ShapeOffsetOptions::default());
+    let mut curr_offset = Shape::from_plines(plines.iter().map(without_repeat_pos))
+        .parallel_offset(*offset, ShapeOffsetOptions::default());
 
     while !curr_offset.ccw_plines.is_empty() || !curr_offset.cw_plines.is_empty() {
         offset_shapes.push(curr_offset);
diff --git a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
index 79775de..aa63605 100644
--- a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
@@ -15,6 +15,7 @@ use crate::plotting::{PlinePlotData, PlinesPlotItem, RawPlineOffsetSegsPlotItem}
 
 use super::{
     super::plotting::PLOT_VERTEX_RADIUS, Scene, controls_side_panel, scene_settings::SceneSettings,
+    without_repeat_pos,
 };
 
 pub struct PlineOffsetScene {
@@ -209,13 +210,14 @@ fn plot_area(
     } = interaction_state;
 
     // TODO: cache scene state to only update when necessary due to modified polyline or offset
+    let input = without_repeat_pos(pline);
     let scene_state = match mode {
         Mode::Offset {
             handle_self_intersects,
             max_offset_count,
-        } => build_offset(pline, offset, handle_self_intersects, max_offset_count),
-        Mode::RawOffset => build_raw_offset(pline, offset),
-        Mode::RawOffsetSegments => build_raw_offset_segments(pline, offset),
+        } => build_offset(&input, offset, handle_self_intersects, max_offset_count),
+        Mode::RawOffset => build_raw_offset(&input, offset),
+        Mode::RawOffsetSegments => build_raw_offset_segments(&input, offset),
     };
 
     CentralPanel::default().show_inside(ui, |ui| {
-- 
2.43.0


From 98d39c7c68b57cbc86b7ebc9f98ffdf2812fd40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 32/40] fix: offset scene draws one offset when the maximum
 count is zero

---
 cavalier_contours_ui/src/scenes/pline_offset_scene.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
index aa63605..6566ccc 100644
--- a/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
+++ b/cavalier_contours_ui/src/scenes/pline_offset_scene.rs
@@ -325,6 +325,10 @@ fn build_offset(
     max_offset_count: &usize,
 ) -> SceneState {
     let mut all_offset_plines = Vec::new();
+    if *max_offset_count == 0 {
+        return SceneState::Offset { all_offset_plines };
+    }
+
     let offset_opt = PlineOffsetOptions {
         handle_self_intersects: *handle_self_intersects,
         ..Default::default()
-- 
2.43.0


From bf80070f6eebdd55f289efee41066905d4a0aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 33/40] fix: offset is lost when the raw offset of a self
 touching polyline has a single dual intersect

---
 .../src/polyline/internal/pline_offset.rs     | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index ac1138b..6c3255a 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1309,6 +1309,11 @@ where
         })
     };
 
+    // closed raw offset polyline may have only one intersect (e.g., it only touches the dual)
+    let single_intersect = original_polyline.is_closed()
+        && intersects_lookup.len() == 1
+        && intersects_lookup.values().all(|list| list.len() == 1);
+
     let mut add_slice =
         |start_point: Vector2<T>, start_index: usize, end_point: Vector2<T>, end_index: usize| {
             let create_slice = |start_point, start_index, end_point, end_index| {
@@ -1322,7 +1327,19 @@ where
                 )
             };
 
-            let Some(slice) = create_slice(start_point, start_index, end_point, end_index) else {
+            let slice = if single_intersect {
+                // slice goes all the way around
+                PlineViewData::from_new_start(
+                    raw_offset_polyline,
+                    start_point,
+                    start_index,
+                    pos_equal_eps,
+                )
+            } else {
+                create_slice(start_point, start_index, end_point, end_index)
+            };
+
+            let Some(slice) = slice else {
                 return;
             };
 
-- 
2.43.0


From 25114e25297d198d42705558f4f83d767570e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 34/40] fix: slice of a dual raw offset is valid only if the
 middle of every segment is

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 6c3255a..3ccb0b4 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1253,8 +1253,10 @@ where
 
         // test all segments
         for (v1, v2) in slice.view(raw_offset_polyline).iter_segments() {
-            // test start point
-            if !point_valid_dist(v1.pos(), query_stack) {
+            // test start point and midpoint
+            if !point_valid_dist(v1.pos(), query_stack)
+                || !point_valid_dist(seg_midpoint(v1, v2), query_stack)
+            {
                 return false;
             }
 
-- 
2.43.0


From 7fddae70e05ca22e7478f4907c0356d2431a4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 35/40] fix: offset is lost between a dual intersect and its
 duplicate on the adjacent segment end

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 3ccb0b4..d2f51eb 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1158,6 +1158,7 @@ where
             let dist2 = dist_squared(si2, start_pos);
             dist1.total_cmp(&dist2)
         });
+        intr_list.dedup_by(|si1, si2| si1.fuzzy_eq_eps(*si2, pos_equal_eps));
     }
 
     let intersects_original_pline =
-- 
2.43.0


From bf8ec545a9d998ea90c506b7d192efedeb909ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 36/40] fix: raw offset that only overlaps its dual is rejected
 as a whole

---
 .../src/polyline/internal/pline_offset.rs         | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index d2f51eb..35d5116 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1134,17 +1134,22 @@ where
                 offset_dist_eps,
             )
         };
-        if !raw_offset_polyline
+        if raw_offset_polyline
             .iter_segments()
             .all(|(v1, v2)| point_valid(v1.pos()) && point_valid(seg_midpoint(v1, v2)))
         {
+            // is valid
+            let slice = PlineViewData::from_entire_pline(raw_offset_polyline);
+            result.push(slice);
             return result;
         }
 
-        // is valid
-        let slice = PlineViewData::from_entire_pline(raw_offset_polyline);
-        result.push(slice);
-        return result;
+        if collapsed_lookup.is_empty() {
+            return result;
+        }
+
+        // not valid as a whole but may be valid apart from parts that collapsed
+        intersects_lookup = std::mem::take(&mut collapsed_lookup);
     }
 
     // sort intersects by distance from segment start vertex
-- 
2.43.0


From 005b6f7f7be702feb31defd6890d06d3a34dd24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 37/40] fix: single offset slice shorter than the join epsilon
 gives a polyline with one vertex

---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 35d5116..1d3ea89 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1445,7 +1445,9 @@ where
             pline.remove_last();
         }
 
-        result.push(pline);
+        if pline.vertex_count() > 1 {
+            result.push(pline);
+        }
 
         return result;
     }
-- 
2.43.0


From facc606466c253c818c52ba1401d7cd9ddfc2e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:48 +0000
Subject: [PATCH 38/40] fix: quadratic_solutions gives NaN when both solutions
 are zero

---
 cavalier_contours/src/core/math/base_math.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index 38a4692..b4ac180 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -198,7 +198,12 @@ where
         (-b - sqrt_discriminant) / denom
     };
 
-    let sol2 = (c / a) / sol1;
+    // sol1 is the solution with the largest magnitude, both are zero if it is zero (avoids 0 / 0)
+    let sol2 = if sol1 == T::zero() {
+        sol1
+    } else {
+        (c / a) / sol1
+    };
 
     (sol1, sol2)
 }
-- 
2.43.0


From 65324f5f4e5b742f7d3de1edd36931792aa5b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:38 +0000
Subject: [PATCH 39/40] fix: slice that collapses on a short segment fails view
 validation

---
 cavalier_contours/src/polyline/pline_view.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/pline_view.rs b/cavalier_contours/src/polyline/pline_view.rs
index 5b2ba6b..4f218a6 100644
--- a/cavalier_contours/src/polyline/pline_view.rs
+++ b/cavalier_contours/src/polyline/pline_view.rs
@@ -568,7 +568,13 @@ where
             }
         };
 
-        if traverse_count == 0 {
+        // end point on top of the vertex following the start segment selects over only the start
+        // segment (may be collapsed if segment is very short)
+        let only_start_segment = traverse_count == 0
+            || (traverse_count == 1
+                && end_point.fuzzy_eq_eps(source.at(end_index).pos(), pos_equal_eps));
+
+        if only_start_segment {
             Self::create_on_single_segment(
                 source,
                 start_index,
-- 
2.43.0


From a050cadaeae11a6c46ffb2cd47bc22383a277351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:14 +0000
Subject: [PATCH 40/40] fix: slice ending on a short segment fails view
 validation

---
 cavalier_contours/src/polyline/pline_view.rs | 64 ++++++++++++++++----
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_view.rs b/cavalier_contours/src/polyline/pline_view.rs
index 4f218a6..243c222 100644
--- a/cavalier_contours/src/polyline/pline_view.rs
+++ b/cavalier_contours/src/polyline/pline_view.rs
@@ -285,6 +285,32 @@ where
         Some(view_data)
     }
 
+    /// Steps `offset` (from `start_index`) back over vertexes that `end_point` lies on top of. There
+    /// may be more than one in the case of very short segments.
+    fn offset_before_point<P>(
+        source: &P,
+        start_index: usize,
+        mut offset: usize,
+        end_point: Vector2<T>,
+        pos_equal_eps: T,
+    ) -> usize
+    where
+        P: PlineSource<Num = T> + ?Sized,
+    {
+        while offset != 0
+            && end_point.fuzzy_eq_eps(
+                source
+                    .at(source.fwd_wrapping_index(start_index, offset))
+                    .pos(),
+                pos_equal_eps,
+            )
+        {
+            offset -= 1;
+        }
+
+        offset
+    }
+
     /// Create view data from source polyline and parameters.
     ///
     /// # Panics
@@ -312,9 +338,17 @@ where
         let (end_index_offset, updated_end_bulge) =
             if end_intersect.fuzzy_eq_eps(current_vertex.pos(), pos_equal_eps) {
                 // intersect lies on top of vertex at start of segment
-                let offset = traverse_count - 1;
+                let offset = Self::offset_before_point(
+                    source,
+                    start_index,
+                    traverse_count - 1,
+                    end_intersect,
+                    pos_equal_eps,
+                );
                 let updated_end_bulge = if offset != 0 {
-                    source.at(source.prev_wrapping_index(intersect_index)).bulge
+                    source
+                        .at(source.fwd_wrapping_index(start_index, offset))
+                        .bulge
                 } else {
                     updated_start.bulge
                 };
@@ -448,16 +482,22 @@ where
         let start_v2 = source.at(source.next_wrapping_index(start_index));
         let split = seg_split_at_point(start_v1, start_v2, start_point, pos_equal_eps);
 
-        let (end_index_offset, updated_end_bulge) =
-            if start_v1.pos().fuzzy_eq_eps(start_point, pos_equal_eps) {
-                // start point on top of vertex, adjust index offset and do not use split bulge
-                (
-                    vc - 1,
-                    source.at(source.prev_wrapping_index(start_index)).bulge,
-                )
-            } else {
-                (vc, split.updated_start.bulge)
-            };
+        let (end_index_offset, updated_end_bulge) = if start_v1
+            .pos()
+            .fuzzy_eq_eps(start_point, pos_equal_eps)
+        {
+            // start point on top of vertex, adjust index offset and do not use split bulge
+            let offset =
+                Self::offset_before_point(source, start_index, vc - 1, start_point, pos_equal_eps);
+            (
+                offset,
+                source
+                    .at(source.fwd_wrapping_index(start_index, offset))
+                    .bulge,
+            )
+        } else {
+            (vc, split.updated_start.bulge)
+        };
 
         let view_data = Self {
             start_index,
-- 
2.43.0

