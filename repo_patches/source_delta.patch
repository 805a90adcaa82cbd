From e4b1801f0ac8b1345681af11d4b19efacfc90384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 1/8] fix: index items whose total envelope is flat or
 overflows

Flatbush::new panicked when all items lie on one horizontal or vertical
line (0 * inf is NaN), and for total envelopes whose sides overflow or are
too small to be divided into cells.
---
 src/flatbush/hilbert.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/flatbush/hilbert.rs b/src/flatbush/hilbert.rs
index 9eea995..5feb779 100644
--- a/src/flatbush/hilbert.rs
+++ b/src/flatbush/hilbert.rs
@@ -32,10 +32,19 @@ where
             Envelope::Bounds { min, max } => {
                 let hilbert_max = C::from((1 << 16) - 1).unwrap();
                 let delta = max - min;
+                // A flat, infinite or vanishing side cannot be divided into cells.
+                let scale = |side: C| {
+                    let scale = hilbert_max / side;
+                    if side.is_finite() && scale.is_finite() {
+                        scale
+                    } else {
+                        C::zero()
+                    }
+                };
                 Hilbert {
                     env,
-                    x_scale: hilbert_max / delta.x,
-                    y_scale: hilbert_max / delta.y,
+                    x_scale: scale(delta.x),
+                    y_scale: scale(delta.y),
                     x_min: min.x,
                     y_min: min.y,
                 }
@@ -64,7 +73,10 @@ where
     pub fn hilbert(&self, position: Position<C>) -> u32 {
         let x = self.x_scale * (position.x - self.x_min);
         let y = self.y_scale * (position.y - self.y_min);
-        Self::hilbert_normalized(x.floor().to_u32().unwrap(), y.floor().to_u32().unwrap())
+        Self::hilbert_normalized(
+            x.floor().to_u32().unwrap_or(0),
+            y.floor().to_u32().unwrap_or(0),
+        )
     }
 
     /**
-- 
2.43.0


From 5ed61cae9c79034706631f55f824b004ddfebca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 2/8] fix: intersect segments of zero length as positions

A zero-length segment divided by its squared length, and so intersected
every segment whose envelope it met, or nothing; two equal ones overlapped
in a "segment".
---
 src/planar/primitives/segment.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 7d565bf..977f48b 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -90,6 +90,14 @@ impl<C: Coordinate> Segment<C> {
      */
     pub fn intersect_segment(&self, other: Segment<C>) -> SegmentIntersection<C> {
         // check intersection
+        if self.start == self.end {
+            // A segment of zero length is a single position.
+            return if other.contains(self.start) {
+                SegmentIntersection::Position(self.start)
+            } else {
+                SegmentIntersection::None
+            };
+        }
         if self == &other {
             return SegmentIntersection::Segment(*self);
         }
-- 
2.43.0


From 3d08654cc07f1f846cf80de16d625757afde325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 3/8] fix: overlap of collinear segments ends exactly at their
 ends

The ends of the overlap were recomputed from rounded ratios, so touching
segments could be reported as disjoint or overlapping, and the ends were
off by rounding errors.
---
 src/planar/primitives/segment.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 977f48b..949ac09 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -116,19 +116,21 @@ impl<C: Coordinate> Segment<C> {
                 return SegmentIntersection::None;
             } else {
                 // If the offset is also parallel, check for overlap.
+                // Positions along da, in units of 1 / |da|: self spans 0 to da_2.
                 let da_2 = Position::dot(da, da);
-                // Offset, in units of da.
-                let t0 = Position::dot(offset, da) / da_2;
-                // self.start to other.end, in units of da.
-                let t1 = t0 + Position::dot(da, db) / da_2;
-                let (t_min, t_max) = t0.min_max(t1);
-                if t_min > C::one() || t_max < C::zero() {
-                    // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
+                let t0 = Position::dot(offset, da);
+                let t1 = Position::dot(other.end - self.start, da);
+                let (t_min, first, t_max, last) = if t0 <= t1 {
+                    (t0, other.start, t1, other.end)
+                } else {
+                    (t1, other.end, t0, other.start)
+                };
+                if t_min > da_2 || t_max < C::zero() {
                     return SegmentIntersection::None;
                 } else {
-                    // Else, the intersect
-                    let start = self.start + da * t_min.max(C::zero());
-                    let end = self.start + da * t_max.min(C::one());
+                    // They intersect, between positions of the inputs.
+                    let start = if t_min > C::zero() { first } else { self.start };
+                    let end = if t_max < da_2 { last } else { self.end };
                     if start == end {
                         return SegmentIntersection::Position(start);
                     } else {
-- 
2.43.0


From 6aa7222c2169eccde1f56237f24f567789ee91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 4/8] fix: segments meeting at an end intersect exactly there

The position was recomputed from a rounded ratio, so that chains and rings
with real coordinates were rejected for the vertices neighbouring segments
share, and touching rings for the vertices they touch in.
---
 src/planar/primitives/segment.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 949ac09..d1c9992 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -142,10 +142,28 @@ impl<C: Coordinate> Segment<C> {
             // The segments are not parallel, so they are disjoint or intersect at a point
             // Calculate where the infinite lines would intersect; if these are on the segments
             // then the segments intersect.
+            // A common end is the intersection, whatever the rounding below.
+            if self.start == other.start || self.start == other.end {
+                return SegmentIntersection::Position(self.start);
+            }
+            if self.end == other.start || self.end == other.end {
+                return SegmentIntersection::Position(self.end);
+            }
             let ta = Position::cross(offset, db) / da_x_db;
             let tb = offset_x_da / da_x_db;
             if C::zero() <= ta && ta <= C::one() && C::zero() <= tb && tb <= C::one() {
-                return SegmentIntersection::Position(self.start + da * ta);
+                let position = if ta == C::zero() {
+                    self.start
+                } else if ta == C::one() {
+                    self.end
+                } else if tb == C::zero() {
+                    other.start
+                } else if tb == C::one() {
+                    other.end
+                } else {
+                    self.start + da * ta
+                };
+                return SegmentIntersection::Position(position);
             }
         }
         SegmentIntersection::None
-- 
2.43.0


From 312c43d16aee8bee60cddc1e097564e722e4de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 5/8] fix: reject open line strings whose last segment hits the
 first

The exception for the closing vertex of a loop was applied to open line
strings as well, at either end of the first segment.
---
 src/planar/validation/line_string.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/planar/validation/line_string.rs b/src/planar/validation/line_string.rs
index 1acfca7..78ef80a 100644
--- a/src/planar/validation/line_string.rs
+++ b/src/planar/validation/line_string.rs
@@ -58,9 +58,12 @@ impl<C: Coordinate> LineString<C> {
                 SegmentIntersection::Position(p) => {
                     // Point intersections are fine at the shared point between
                     // adjacent segments.  In loops this includes the wraparound.
-                    if ((high_id == low_id + 1) || (low_id == 0 && high_id == num_segments - 1))
-                        && (p == first_segment.end || p == first_segment.start)
-                    {
+                    let is_joint = high_id == low_id + 1 && p == first_segment.end;
+                    let is_wraparound = low_id == 0
+                        && high_id == num_segments - 1
+                        && self.is_closed()
+                        && p == first_segment.start;
+                    if is_joint || is_wraparound {
                         continue;
                     } else {
                         return intersection_err;
-- 
2.43.0


From 36219dda80c9f957fbad058fecf77fee244cd0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 6/8] fix: convex hull of loops starting along a straight edge

With the first three positions collinear the deque started without an
orientation and the hull came out wrong.
---
 src/planar/algorithms/convex_hull.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/planar/algorithms/convex_hull.rs b/src/planar/algorithms/convex_hull.rs
index 9ca1bb0..142cd35 100644
--- a/src/planar/algorithms/convex_hull.rs
+++ b/src/planar/algorithms/convex_hull.rs
@@ -26,8 +26,18 @@ pub(crate) fn find_convex_hull_of_simple_loop<C: Coordinate>(
 
     positions.next(); // Drop first point; it's also the last so we'll get to it.
     let a = positions.next().unwrap();
-    let b = positions.next().unwrap();
-    let c = positions.next().unwrap();
+    let mut b = positions.next().unwrap();
+    let mut c = positions.next().unwrap();
+    // The first three positions must turn; skip over those on a straight edge.
+    while _triple_location(a, b, c) == PositionLocation::On {
+        match positions.next() {
+            Some(pos) => {
+                b = c;
+                c = pos;
+            }
+            None => break,
+        }
+    }
     deque.push_front(c);
     match _triple_location(a, b, c) {
         PositionLocation::Right => {
-- 
2.43.0


From 13254193d0c47ed5f2dff599f0a9bc6e63cff84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 7/8] fix: report WKT geometry collections as an error

parse_wkt panicked on them.
---
 src/serde/wkt.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index b26e4a1..2a80f19 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,12 +6,11 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
-    let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
-    Ok(geoms)
+    wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
-fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
-    match geom {
+fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
+    Ok(match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
             None => Geometry::empty(),
             Some(point) => Geometry::from(point),
@@ -24,8 +23,8 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
         wkt::Geometry::MultiPoint(mp) => Geometry::from(from_wkt_multi_point(mp)),
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
-        _ => unimplemented!(),
-    }
+        wkt::Geometry::GeometryCollection(_) => return Err("GeometryCollection is not supported."),
+    })
 }
 
 fn from_wkt_point(pt: wkt::types::Point) -> Option<Point<f64>> {
-- 
2.43.0


From 8bf56def21e9651f709441648da79f81ecef81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 8/8] fix: relation of loops that touch at their vertices

Loops were compared by their vertices off the other loop only. Where all
vertices in question touch the other loop, the stretches between them were
not looked at: interiors that overlap went unnoticed, holes and islands
inscribed in a ring were rejected, and loops inside each other by this
measure panicked. Stretches between two touching positions are now judged
by their middle, and vertices no segment is level with count as outside.
---
 src/planar/algorithms/loop_relation.rs | 108 +++++++++++++++++--------
 1 file changed, 73 insertions(+), 35 deletions(-)

diff --git a/src/planar/algorithms/loop_relation.rs b/src/planar/algorithms/loop_relation.rs
index caa0071..fc75331 100644
--- a/src/planar/algorithms/loop_relation.rs
+++ b/src/planar/algorithms/loop_relation.rs
@@ -1,4 +1,5 @@
 use crate::Coordinate;
+use std::cmp::Ordering;
 use std::collections::{HashMap, HashSet};
 
 use crate::flatbush::{Flatbush, FlatbushNode, FLATBUSH_DEFAULT_DEGREE};
@@ -59,6 +60,9 @@ pub fn find_loop_loop_relation<C: Coordinate>(
     let mut winding_numbers_1: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut winding_numbers_2: HashMap<SafePosition<C>, i32> = HashMap::new();
     let mut boundary_positions: HashSet<SafePosition<C>> = HashSet::new();
+    // The boundary positions on each segment, by segment index.
+    let mut touches_1: HashMap<usize, Vec<Position<C>>> = HashMap::new();
+    let mut touches_2: HashMap<usize, Vec<Position<C>>> = HashMap::new();
 
     while let Some((node1, node2)) = stack.pop() {
         if node1.level == 0 && node2.level == 0 {
@@ -75,6 +79,8 @@ pub fn find_loop_loop_relation<C: Coordinate>(
                     } else {
                         intersecting_position = Some(p);
                         boundary_positions.insert(p.to_hashable().unwrap());
+                        touches_1.entry(node1.sibling_index).or_default().push(p);
+                        touches_2.entry(node2.sibling_index).or_default().push(p);
                     }
                 }
                 SegmentIntersection::None => (),
@@ -105,26 +111,31 @@ pub fn find_loop_loop_relation<C: Coordinate>(
         }
     }
 
-    let loop_1_relation = _get_loop_relation(&winding_numbers_1, &boundary_positions);
-    if loop_1_relation == LoopRelation::Crosses {
-        return LoopLoopRelation::Crosses;
-    }
-    let loop_2_relation = _get_loop_relation(&winding_numbers_2, &boundary_positions);
-    if loop_2_relation == LoopRelation::Crosses {
-        return LoopLoopRelation::Crosses;
-    }
+    // Stretches between two boundary positions have no vertex to tell the side of the
+    // other loop they are on; their middle does.
+    let mut winding_numbers_1 =
+        _vertex_winding_numbers(loop_1, &winding_numbers_1, &boundary_positions);
+    winding_numbers_1.extend(
+        _stretch_middles(touches_1)
+            .into_iter()
+            .map(|pos| _find_winding_number(pos, &segments_2, &rtree_2)),
+    );
+    let mut winding_numbers_2 =
+        _vertex_winding_numbers(loop_2, &winding_numbers_2, &boundary_positions);
+    winding_numbers_2.extend(
+        _stretch_middles(touches_2)
+            .into_iter()
+            .map(|pos| _find_winding_number(pos, &segments_1, &rtree_1)),
+    );
 
-    match (loop_1_relation, loop_2_relation) {
+    match (
+        _get_loop_relation(&winding_numbers_1),
+        _get_loop_relation(&winding_numbers_2),
+    ) {
         (LoopRelation::Outside, LoopRelation::Outside) => LoopLoopRelation::Separate,
         (LoopRelation::Inside, LoopRelation::Outside) => LoopLoopRelation::Within,
         (LoopRelation::Outside, LoopRelation::Inside) => LoopLoopRelation::Contains,
-        (LoopRelation::Inside, LoopRelation::Inside) => {
-            panic!("BUG: Two loops found inside each other.")
-        }
-        (LoopRelation::Crosses, LoopRelation::Crosses) => LoopLoopRelation::Crosses,
-        (LoopRelation::Crosses, _) | (_, LoopRelation::Crosses) => {
-            panic!("BUG: One loop found Crossing but not the other")
-        }
+        _ => LoopLoopRelation::Crosses,
     }
 }
 
@@ -154,28 +165,55 @@ fn _maybe_push_other_isxn<C: Coordinate>(
     }
 }
 
-fn _get_loop_relation<C: Coordinate>(
+/// The winding numbers of the vertices that are not on the boundary of the other loop.
+fn _vertex_winding_numbers<C: Coordinate>(
+    a_loop: &LineString<C>,
     winding_numbers: &HashMap<SafePosition<C>, i32>,
     boundary_positions: &HashSet<SafePosition<C>>,
-) -> LoopRelation {
-    let mut outside = false;
-    let mut inside = false;
-    for pos in winding_numbers.keys() {
-        if boundary_positions.contains(pos) {
-            continue;
-        }
-        let wn = winding_numbers[pos];
-        let is_even = wn % 2 == 0;
-        outside = outside || is_even;
-        inside = inside || !is_even;
-        if outside && inside {
-            return LoopRelation::Crosses;
-        }
+) -> Vec<i32> {
+    a_loop
+        .positions
+        .iter()
+        .filter_map(|pos| pos.to_hashable().ok())
+        .filter(|pos| !boundary_positions.contains(pos))
+        // Vertices that were not compared to any segment have nothing on their right.
+        .map(|pos| winding_numbers.get(&pos).copied().unwrap_or(0))
+        .collect()
+}
+
+/// The middles of the stretches between successive touching positions on a segment.
+fn _stretch_middles<C: Coordinate>(touches: HashMap<usize, Vec<Position<C>>>) -> Vec<Position<C>> {
+    let two = C::one() + C::one();
+    let mut middles = Vec::new();
+    for (_, mut positions) in touches {
+        // Lexicographic order is the order along the segment.
+        positions.sort_by(|p, q| p.partial_cmp(q).unwrap_or(Ordering::Equal));
+        positions.dedup();
+        middles.extend(positions.windows(2).map(|w| (w[0] + w[1]) / two));
     }
-    if outside {
-        LoopRelation::Outside
-    } else {
-        LoopRelation::Inside
+    middles
+}
+
+fn _find_winding_number<C: Coordinate>(
+    position: Position<C>,
+    segments: &[Segment<C>],
+    rtree: &Flatbush<C>,
+) -> i32 {
+    let ray = Envelope::new(position, Position::new(C::infinity(), position.y));
+    rtree
+        .find_intersection_candidates(ray)
+        .into_iter()
+        .map(|index| Segment::find_winding_number(position, segments[index]))
+        .sum()
+}
+
+fn _get_loop_relation(winding_numbers: &[i32]) -> LoopRelation {
+    let outside = winding_numbers.iter().any(|wn| wn % 2 == 0);
+    let inside = winding_numbers.iter().any(|wn| wn % 2 != 0);
+    match (outside, inside) {
+        (true, true) => LoopRelation::Crosses,
+        (true, false) => LoopRelation::Outside,
+        (false, _) => LoopRelation::Inside,
     }
 }
 
-- 
2.43.0

