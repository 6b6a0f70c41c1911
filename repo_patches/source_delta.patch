From a495b337943d918e3dbd2c2c394e429775df7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 01/23] fix: reject NaN and infinite coordinates in binary_op

Bounding boxes are computed with min/max, which drop NaNs, so the NaN check
never triggered. Infinite control points could slip through in the same way.
---
 src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 047f395..27f305f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,6 +96,15 @@ pub fn binary_op(
     fill_rule: FillRule,
     op: BinaryOp,
 ) -> Result<topology::Contours, Error> {
+    // The bounding box computation below ignores NaNs (and maybe also infinite
+    // control points), so check the inputs themselves.
+    if set_a.is_nan() || set_b.is_nan() {
+        return Err(Error::NaN);
+    }
+    if !set_a.is_finite() || !set_b.is_finite() {
+        return Err(Error::Infinity);
+    }
+
     // Find the extremal values, to figure out how much precision we can support.
     let bbox = set_a.bounding_box().union(set_b.bounding_box());
     let min = bbox.min_x().min(bbox.min_y());
@@ -103,10 +112,6 @@ pub fn binary_op(
     if min.is_infinite() || max.is_infinite() {
         return Err(Error::Infinity);
     }
-    // If there was any NaN in the input, it should have propagated to the min and max.
-    if min.is_nan() || max.is_nan() {
-        return Err(Error::NaN);
-    }
 
     // TODO: we did some analysis for error bounds in the case of polylines.
     // Think more about what makes sense for curves.
-- 
2.43.0


From 97b850ae2f4b8841b9196e0a5a80f15c1f10254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 02/23] fix: unlink the ends of non-closed subpaths

The first segment's contour_prev pointed to an unrelated segment (or itself),
and the last segment's contour_next pointed to an unrelated (or missing) one.
---
 src/segments.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 1fdb66b..20194d9 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -386,6 +386,9 @@ impl Segments {
                         start_point,
                         end_point,
                     });
+                } else {
+                    self.contour_prev[start_idx] = None;
+                    self.contour_next[end_idx] = None;
                 }
             }
         }
-- 
2.43.0


From b8422fed82286173c3a0e6589bdc205e37725976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 03/23] fix: handle a negative discriminant in
 monic_quadratic_roots after overflow

When b^2 - 4c overflowed but 1 - 4c/b^2 was finite and negative, the returned
roots were NaN.
---
 src/curve/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 4c8b2cb..369bca4 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -502,6 +502,9 @@ pub(crate) fn monic_quadratic_roots(b: f64, c: f64) -> (f64, f64) {
                 return (f64::NEG_INFINITY, f64::INFINITY);
             }
         }
+        if scaled_disc <= 0.0 {
+            return (f64::NEG_INFINITY, f64::NEG_INFINITY);
+        }
         -0.5 * b * (1.0 + scaled_disc.sqrt())
     };
 
-- 
2.43.0


From 14e5d68b0ae160afa8f3cd4c0ea3d3b53cac47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 04/23] fix: signs of linear, constant and pure-square
 quadratics

Quadratic::signs gave the wrong sign for decreasing linear functions, and
claimed that non-zero constants and multiples of x^2 were zero everywhere.
---
 src/curve/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 369bca4..374bde4 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -577,10 +577,11 @@ impl Quadratic {
             let root2 = -z / (2.0 * c2);
 
             // If z is zero, it means that c1 and disc are both (exactly!) zero,
-            // and so everything is zero.
+            // and so at least one of c2 and c0 is zero also. The quadratic
+            // doesn't change sign.
             if z == 0.0 {
                 QuadraticSigns {
-                    initial_sign: 0.0,
+                    initial_sign: if c2 != 0.0 { c2 } else { c0 },
                     smaller_root: f64::NEG_INFINITY,
                     bigger_root: f64::NEG_INFINITY,
                 }
@@ -589,7 +590,16 @@ impl Quadratic {
                 // (although possibly infinite).
                 debug_assert!(!root1.is_nan() && !root2.is_nan());
 
-                let initial_sign = if root2.is_infinite() { c1 } else { c2 };
+                // If root2 is infinite, the quadratic is basically linear: it
+                // has the sign of c1 to the right of root1, and the opposite
+                // sign to the left.
+                let initial_sign = if root2 == f64::NEG_INFINITY {
+                    c1
+                } else if root2 == f64::INFINITY {
+                    -c1
+                } else {
+                    c2
+                };
 
                 QuadraticSigns {
                     initial_sign,
-- 
2.43.0


From 8d1e02313f7ae913b4a076a9a3665126c74b6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 05/23] fix: insert a zero-height ish interval between opposite
 strict orders

As the comment says, CurveOrder::push is supposed to separate a left and a
right interval by a zero-height ish interval. Instead, it declared the whole
new interval ish, and gave the new order to a zero-height interval.
---
 src/curve/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 374bde4..39db0b2 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -112,8 +112,9 @@ impl CurveOrder {
                     // What we do is insert a zero-height "ish" interval. Then
                     // adding y-slop will turn it into a taller interval.
                     debug_assert!(end >= last.end);
+                    let last_end = last.end;
                     self.cmps.push(CurveOrderEntry {
-                        end,
+                        end: last_end,
                         order: Order::Ish,
                     });
                     self.cmps.push(CurveOrderEntry { end, order });
-- 
2.43.0


From e581dca11f54afb8dae9d1055b32a5993044ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 06/23] fix: merge coincident segments across already-merged
 neighbors

---
 src/topology.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index f0d91f7..8cd976a 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -847,7 +847,17 @@ impl<W: WindingNumber> Topology<W> {
                 // b and c aren't. Then merging a and d would be bad -- even if they're clockwise
                 // neighbors by going around the way that avoids b and c -- because it would mess up
                 // the winding numbers of b and c.
-                if y0 != y1 && self.scan_west[idx] != Some(cw_nbr.idx) {
+                //
+                // On the other hand, neighbors that have already been deleted shouldn't prevent us
+                // from merging with whatever is on the other side of them.
+                let mut west = self.scan_west[idx];
+                while let Some(w) = west.filter(|w| {
+                    self.deleted[*w]
+                        && self.point_idx[w.first_half()] == self.point_idx[idx.first_half()]
+                }) {
+                    west = self.scan_west[w];
+                }
+                if y0 != y1 && west != Some(cw_nbr.idx) {
                     continue;
                 }
                 if y0 != y1 {
-- 
2.43.0


From ce83d6b4abe9b0f1cd1a50ef35619ca1eee973a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 07/23] fix: don't skip the next touch when starting from a
 close region

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 39db0b2..840f235 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -166,7 +166,7 @@ impl CurveOrder {
 
         // If this interval is the last one, we'll say there's no touch.
         // It will get handled at the endpoint anyway.
-        let (_, next_y1, next_order) = iter.next()?;
+        let (_, _, next_order) = iter.next()?;
 
         let cross_y = (y0 + y1) / 2.0;
         match next_order {
@@ -175,7 +175,7 @@ impl CurveOrder {
                 if y < y0 {
                     Some(CurveInteraction::Touch(cross_y))
                 } else {
-                    self.next_touch_after(next_y1)
+                    self.next_touch_after(y1)
                 }
             }
             Order::Ish => {
-- 
2.43.0


From 130c9e064914fed3c0e31cbf089eaf7e1c738448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 08/23] fix: position curves above y = 0 too

compute_positions skipped every segment whose start is at a negative height,
because its record of what had been positioned started out as zero.
---
 src/position.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index a8b6dd7..c594e90 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -263,6 +263,8 @@ pub(crate) fn compute_positions(
     let mut last_y = OutputSegVec::<f64>::with_size(orig_seg_map.len());
     let mut queue = BinaryHeap::<HeapEntry>::new();
     for idx in out.indices() {
+        // Nothing has been positioned yet. (The default of zero would skip everything above y = 0.)
+        last_y[idx] = f64::NEG_INFINITY;
         let p = endpoints[idx.first_half()];
         let q = endpoints[idx.second_half()];
         if p.y == q.y {
-- 
2.43.0


From 78bdf1425bd4a8e13636c9561ddbccf67fc77cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 09/23] fix: holes that touch a hole are its siblings

Walking a hole contour that visits a point twice splits off a loop. That loop
was marked as an outer contour inside the hole, although it is another hole
(and oriented like one).
---
 src/topology.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index 8cd976a..b0a7ac5 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1266,10 +1266,19 @@ impl<W: WindingNumber> Topology<W> {
                     for &seg in &segs[seg_idx..] {
                         seg_contour[seg.idx.0] = Some(loop_contour_idx);
                     }
+                    // If we're walking an outer contour, the loop is a hole in it. But if we're
+                    // walking a hole, the loop is another hole that touches it: both of them
+                    // are children of the same outer contour.
+                    let current = &ret.contours[contour_idx.0];
+                    let parent = if current.outer {
+                        Some(contour_idx)
+                    } else {
+                        current.parent
+                    };
                     ret.contours.push(Contour {
                         path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent: Some(contour_idx),
-                        outer: !ret.contours[contour_idx.0].outer,
+                        parent,
+                        outer: false,
                     });
                     segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
-- 
2.43.0


From 512e2ff1e629ad6b8c52a71a8e19781a74040ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 10/23] fix: rescan for intersections past segments that end
 here

When a segment moved out of the way and its left neighbor ended at the
same height, no scan happened at all and a later crossing of the newly
adjacent segments was missed.
---
 src/sweep/sweep_line.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index ac7baa7..d2772da 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -526,9 +526,14 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn scan_for_removal(&mut self, pos: usize) {
-        if pos > 0 {
-            self.intersection_scan_right(pos - 1);
-            self.intersection_scan_left(pos - 1);
+        // Segments that end at this height don't scan for intersections, so
+        // start from the closest one that goes on.
+        let prev = (0..pos)
+            .rev()
+            .find(|&i| self.segments[self.line.seg(i)].end().y != self.y);
+        if let Some(prev) = prev {
+            self.intersection_scan_right(prev);
+            self.intersection_scan_left(prev);
         }
     }
 
-- 
2.43.0


From 62c20abccb78bedda898041d2dfadb00701519f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 11/23] fix: outer contours that touch a hole at their first
 point

The loop that is split off there is the outer contour, not the hole.
---
 src/topology.rs | 57 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index b0a7ac5..540bd9b 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1224,6 +1224,8 @@ impl<W: WindingNumber> Topology<W> {
             // "endpoint" here means "as we walk the contour;" it could be either a first_half
             // or a second_half as far as `HalfOutputSegIdx` is concerned.
             let mut segs = Vec::new();
+            // Set when we've finished an outer contour, but not the holes touching its start.
+            let mut closed = false;
             last_visit[self.point_idx[start]] = Some(0);
 
             debug_assert!(inside(self.winding_counter_clockwise(start)));
@@ -1262,24 +1264,34 @@ impl<W: WindingNumber> Topology<W> {
                     // seg_idx should point to the end of a segment whose start is at p.
                     debug_assert_eq!(self.point_idx[segs[seg_idx].other_half()], p);
 
-                    let loop_contour_idx = ContourIdx(ret.contours.len());
-                    for &seg in &segs[seg_idx..] {
-                        seg_contour[seg.idx.0] = Some(loop_contour_idx);
-                    }
-                    // If we're walking an outer contour, the loop is a hole in it. But if we're
-                    // walking a hole, the loop is another hole that touches it: both of them
-                    // are children of the same outer contour.
                     let current = &ret.contours[contour_idx.0];
-                    let parent = if current.outer {
-                        Some(contour_idx)
+                    let path = self.segs_to_path(&segs[seg_idx..], &positions);
+                    let loop_contour_idx = if seg_idx == 0 && current.outer && !closed {
+                        // An outer contour starts at its first point, so this loop is the outer
+                        // contour itself, and what we walk from here on are the holes that
+                        // touch it there.
+                        closed = true;
+                        ret.contours[contour_idx.0].path = path;
+                        contour_idx
                     } else {
-                        current.parent
+                        // If we're walking an outer contour, the loop is a hole in it. But if
+                        // we're walking a hole, the loop is another hole that touches it: both
+                        // of them are children of the same outer contour.
+                        let parent = if current.outer {
+                            Some(contour_idx)
+                        } else {
+                            current.parent
+                        };
+                        ret.contours.push(Contour {
+                            path,
+                            parent,
+                            outer: false,
+                        });
+                        ContourIdx(ret.contours.len() - 1)
                     };
-                    ret.contours.push(Contour {
-                        path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent,
-                        outer: false,
-                    });
+                    for &seg in &segs[seg_idx..] {
+                        seg_contour[seg.idx.0] = Some(loop_contour_idx);
+                    }
                     segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
                     // for all points in the contour we just removed. I *think*
@@ -1292,10 +1304,21 @@ impl<W: WindingNumber> Topology<W> {
 
                 next = nbr.other_half();
             }
+            let path = self.segs_to_path(&segs, &positions);
+            let last_contour_idx = if closed {
+                ret.contours.push(Contour {
+                    path,
+                    parent: Some(contour_idx),
+                    outer: false,
+                });
+                ContourIdx(ret.contours.len() - 1)
+            } else {
+                ret.contours[contour_idx.0].path = path;
+                contour_idx
+            };
             for &seg in &segs {
-                seg_contour[seg.idx.0] = Some(contour_idx);
+                seg_contour[seg.idx.0] = Some(last_contour_idx);
             }
-            ret.contours[contour_idx.0].path = self.segs_to_path(&segs, &positions);
         }
 
         ret
-- 
2.43.0


From c84661fc6b06ed35b9a7663aa8ea9ffa10257bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:52 +0000
Subject: [PATCH 12/23] fix: lay out a line only down to where its close
 neighbours begin

A line next to curves was extended to its end point before the part that is
close to them was laid out, so its path ran to the end and back.
---
 src/position.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index c594e90..c480f79 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -77,10 +77,11 @@ fn ordered_curves_all_close(
         if bez_end_y(&out.path) < y0 {
             out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
+            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
             if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
+                // Only go up to `y0`; the rest gets laid out below.
+                out.path.line_to(c.p3)
             } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
                 out.path.curve_to(c.p1, c.p2, c.p3);
             }
         }
-- 
2.43.0


From 368ee41fa3716aa037574dbc2ad59323df09d55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:58 +0000
Subject: [PATCH 13/23] fix: stop laying out close curves where another segment
 comes between them

Close curves were laid out past the height at which a later close neighbour
appears; the neighbour then laid them out again, so their paths went back up.
---
 src/position.rs | 36 ++++++++++++++++++++++--------------
 src/topology.rs | 29 ++++++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index c480f79..8bc39eb 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -293,17 +293,21 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
-            } else {
-                y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
-                west_scan.push(nbr);
             }
+            // Stop where some other segment might come between us and our neighbor.
+            y1 = y1
+                .min(cmp_end_y)
+                .min(endpoints[nbr.second_half()].y)
+                .min(scan_order.west_neighbor_end(cur, y0));
+            west_scan.push(nbr);
             cur = nbr;
         }
+        if let Some(next_close_y) =
+            scan_order.close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut east_scan = vec![];
         let mut cur = entry.idx;
@@ -312,17 +316,21 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
-            } else {
-                y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
-                east_scan.push(nbr);
             }
+            // Stop where some other segment might come between us and our neighbor.
+            y1 = y1
+                .min(cmp_end_y)
+                .min(endpoints[nbr.second_half()].y)
+                .min(scan_order.east_neighbor_end(cur, y0));
+            east_scan.push(nbr);
             cur = nbr;
         }
+        if let Some(next_close_y) =
+            scan_order.close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut neighbors = west_scan;
         neighbors.reverse();
diff --git a/src/topology.rs b/src/topology.rs
index 540bd9b..5281fe5 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1682,6 +1682,14 @@ impl HalfScanLineOrder {
             .and_then(|(_, _, idx)| idx)
     }
 
+    /// The height at which `seg`'s neighbor just after `y` stops being its neighbor.
+    fn neighbor_end(&self, seg: OutputSegIdx, y: f64) -> f64 {
+        self.iter(seg)
+            .map(|(_, y1, _)| y1)
+            .find(|y1| *y1 > y)
+            .unwrap_or(f64::INFINITY)
+    }
+
     /// Returns an iterator over `(y0, y1, maybe_seg)`.
     ///
     /// Each item in the iterator tells us that `maybe_seg` is `seg`'s neighbor
@@ -1712,20 +1720,21 @@ impl HalfScanLineOrder {
         segs: &Segments,
         cmp: &mut ComparisonCache,
     ) -> Option<f64> {
-        for (_, y1, other_seg) in self.iter(seg) {
-            if y1 <= y {
+        for (y0, y1, other_seg) in self.iter(seg) {
+            let y0 = y0.max(y);
+            if y1 <= y0 {
                 continue;
             }
 
             if let Some(other_seg) = other_seg {
+                // They might already have been close when they became neighbors.
                 let order = cmp.compare_segments(segs, orig_seg[seg], orig_seg[other_seg]);
                 let next_ish = order
                     .iter()
                     .take_while(|(order_y0, _, _)| *order_y0 < y1)
-                    .filter(|(_, _, order)| *order == Order::Ish)
-                    .find(|(order_y0, _, _)| *order_y0 >= y);
+                    .find(|(_, order_y1, order)| *order == Order::Ish && *order_y1 > y0);
                 if let Some((order_y0, _, _)) = next_ish {
-                    return Some(order_y0);
+                    return Some(order_y0.max(y0));
                 }
             }
         }
@@ -1767,6 +1776,16 @@ impl ScanLineOrder {
         self.east_map.neighbor_after(seg, y)
     }
 
+    /// Returns the height at which `seg`'s western neighbor just after `y` stops being so.
+    pub(crate) fn west_neighbor_end(&self, seg: OutputSegIdx, y: f64) -> f64 {
+        self.west_map.neighbor_end(seg, y)
+    }
+
+    /// Returns the height at which `seg`'s eastern neighbor just after `y` stops being so.
+    pub(crate) fn east_neighbor_end(&self, seg: OutputSegIdx, y: f64) -> f64 {
+        self.east_map.neighbor_end(seg, y)
+    }
+
     /// Returns the next height (greater than or equal to `y`) at which `seg` has a close
     /// neighbor to the east.
     pub fn close_east_neighbor_height_after(
-- 
2.43.0


From 3f820b118342c8571553d605fa3c058e718c718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:28 +0000
Subject: [PATCH 14/23] fix: merge split pieces of a curve only as far as they
 were copied

Pieces that were copied only in part were merged with their neighbours as if
they had been copied up to their other end, which bent the output curve.
---
 src/topology.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 5281fe5..5e735f6 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1088,7 +1088,15 @@ impl<W: WindingNumber> Topology<W> {
             seg.is_first_half() == self.segments.positively_oriented(orig_idx);
 
         let start_y = self.point(seg).y;
-        let end_y = self.point(seg.other_half()).y;
+        // Only the copied part can merge, and it might not go all the way to the other end.
+        let copied_end = if seg.is_first_half() {
+            pos.path.elements().get(1)
+        } else {
+            pos.path.elements().iter().rev().nth(1)
+        };
+        let end_y = copied_end
+            .and_then(|el| el.end_point())
+            .map_or(self.point(seg.other_half()).y, |p| p.y);
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-- 
2.43.0


From a3b6569ba42d114acdd6729a3b7ca313b3aefff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:44 +0000
Subject: [PATCH 15/23] fix: end merged curve pieces at the exact point where
 they meet the next one

The computed end of a merged piece could be a point next to the right one, so
a contour could visit one point twice and miss another.
---
 src/topology.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index 5e735f6..d344f88 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -5,7 +5,7 @@
 
 use std::collections::VecDeque;
 
-use kurbo::{BezPath, ParamCurve, Rect, Shape};
+use kurbo::{BezPath, ParamCurve, PathEl, Rect, Shape};
 
 use crate::{
     curve::{solve_t_for_y, y_subsegment, Order},
@@ -967,16 +967,22 @@ impl<W: WindingNumber> Topology<W> {
                         .reverse()
                         .subsegment((1.0 - unfinished_t)..(1.0 - our_t))
                 };
-                // Maybe we should "fix up" the endpoints of `sub_input` to agree with
-                // what was in `positions`? It shouldn't matter too much, though: they
-                // should be close anyway, and any errors won't cause gaps in the path
-                // because we skip the MoveTo.
-                //
-                // unwrap: if unfinished had something, the path must have been non-empty.
-                *ret.elements_mut().last_mut().unwrap() = sub_input.as_path_el();
-                // Skip the first element in this output segment, because we merged it
+                // Skip the first element in this output segment, because we merge it
                 // to the previous output segment.
-                elems.next();
+                let skipped_end = elems.next().and_then(|el| el.end_point());
+                // The end of `sub_input` is only close to what was in `positions`, so make
+                // them agree: otherwise the path might miss one of its points or visit
+                // another one twice.
+                let mut merged = sub_input.as_path_el();
+                if let (
+                    Some(end),
+                    PathEl::LineTo(p) | PathEl::QuadTo(_, p) | PathEl::CurveTo(_, _, p),
+                ) = (skipped_end, &mut merged)
+                {
+                    *p = end;
+                }
+                // unwrap: if unfinished had something, the path must have been non-empty.
+                *ret.elements_mut().last_mut().unwrap() = merged;
 
                 // If we could merge the beginning of this output segment *and*
                 // the end, it could be part of a longer merge. Therefore, we
-- 
2.43.0


From 5ae4f1d2fe2abeb7013fc8c7868fb8a3f68c845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:34 +0000
Subject: [PATCH 16/23] fix: do not merge the horizontal piece next to the top
 or bottom of a curve

It was taken for a piece of the curve, so the output ended the curve in the
wrong place and skipped the horizontal piece.
---
 src/topology.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index d344f88..f566c94 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1074,7 +1074,9 @@ impl<W: WindingNumber> Topology<W> {
         let orig_idx = self.orig_seg[seg.idx];
 
         // We're currently using y positions on the output segment to figure out
-        if self.segments[orig_idx].is_horizontal() {
+        // how far we can merge. That doesn't work for horizontal segments, including
+        // the ones near the top or bottom of a curve that isn't horizontal.
+        if self.segments[orig_idx].is_horizontal() || self.is_horizontal(seg.idx) {
             return None;
         }
 
-- 
2.43.0


From b0989c21392c540ca9b5e0930fcec3bffe705cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 17/23] fix: approximate very short almost-horizontal pieces by
 their chord

Over an interval too short to be subdivided, the parabola used for ordering
could be arbitrarily far away from an almost-horizontal curve, and the output
positions were laid along it.
---
 src/position.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 8bc39eb..0446e5d 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -164,7 +164,7 @@ fn approximate(
             cubic.p1.y -= y_mid;
             cubic.p2.y -= y_mid;
             cubic.p3.y -= y_mid;
-            let approx = EstParab::from_cubic(cubic);
+            let mut approx = EstParab::from_cubic(cubic);
 
             let factor = horizontal_error_weight(cubic);
 
@@ -176,6 +176,13 @@ fn approximate(
                 out.truncate(orig_len);
                 continue 'retry;
             }
+            if too_short {
+                // Our parabola can be arbitrarily far away from something that's almost
+                // horizontal, but over such a short interval the chord is always close.
+                approx.c0 = (cubic.p0.x + cubic.p3.x) / 2.0;
+                approx.c1 = (cubic.p3.x - cubic.p0.x) / (y1 - y0);
+                approx.c2 = 0.0;
+            }
 
             out.push(approx);
         }
-- 
2.43.0


From 490ab95cf2b64d2ad9aed73096a4d8be877e6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:40 +0000
Subject: [PATCH 18/23] fix: cut almost-horizontal curves near the points they
 are recorded to pass

The recorded points can be close to the curve and still be far to the side of
the point at their height; replacing the end point alone deformed the curve
there, and the wrong part of it was merged with the next piece.
---
 src/position.rs | 73 +++++++++++++++++++++++++++++++++++++++++--------
 src/topology.rs | 13 +++++----
 2 files changed, 68 insertions(+), 18 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 0446e5d..17ed15b 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -9,10 +9,11 @@
 
 use std::collections::BinaryHeap;
 
-use kurbo::{BezPath, CubicBez};
+use kurbo::{BezPath, CubicBez, ParamCurve};
 
 use crate::{
     curve::{
+        solve_t_for_y,
         transverse::{transversal_after, transversal_before},
         y_subsegment, EstParab, Order,
     },
@@ -52,8 +53,8 @@ fn ordered_curves_all_close(
         let q1 = endpoints[o1.second_half()];
 
         if p0.y == y0 && p1.y == y0 {
-            let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0);
-            let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1);
+            let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0, accuracy);
+            let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1, accuracy);
 
             if transversal_after(c0, c1, y1) {
                 return;
@@ -61,8 +62,8 @@ fn ordered_curves_all_close(
         }
 
         if q0.y == y1 && q1.y == y1 {
-            let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0);
-            let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1);
+            let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0, accuracy);
+            let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1, accuracy);
 
             if transversal_before(c0, c1, y0) {
                 return;
@@ -77,7 +78,7 @@ fn ordered_curves_all_close(
         if bez_end_y(&out.path) < y0 {
             out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
-            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
+            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint, accuracy);
             if segs[seg_idx].is_line() {
                 // Only go up to `y0`; the rest gets laid out below.
                 out.path.line_to(c.p3)
@@ -223,16 +224,64 @@ fn bez_end_y(path: &BezPath) -> f64 {
     bez_end(path).y
 }
 
-fn next_subsegment(seg: &Segment, out: &BezPath, y1: f64, endpoint: kurbo::Point) -> CubicBez {
+fn next_subsegment(
+    seg: &Segment,
+    out: &BezPath,
+    y1: f64,
+    endpoint: kurbo::Point,
+    accuracy: f64,
+) -> CubicBez {
+    let orig = seg.to_kurbo_cubic();
     let p0 = bez_end(out);
-    let mut c = y_subsegment(seg.to_kurbo_cubic(), p0.y, y1);
-    c.p0 = p0;
-    if endpoint.y == y1 {
-        c.p3 = endpoint;
+    let mut c = y_subsegment(orig, p0.y, y1);
+    let p3 = if endpoint.y == y1 { endpoint } else { c.p3 };
+
+    // Where the curve is almost horizontal, the points we need to hit might be close to
+    // the curve and still have quite a different x coordinate than the curve does at their
+    // heights. Moving the endpoints there would deform the curve, so cut it somewhere else.
+    if (p0.x - c.p0.x).abs() > accuracy || (p3.x - c.p3.x).abs() > accuracy {
+        let cut = orig.subsegment(t_near(orig, p0, accuracy)..t_near(orig, p3, accuracy));
+        if cut.p0.y < cut.p3.y {
+            // Stretch it to the right heights, which keeps it monotonic.
+            let scale = (p3.y - p0.y) / (cut.p3.y - cut.p0.y);
+            c = cut;
+            c.p1.y = p0.y + (cut.p1.y - cut.p0.y) * scale;
+            c.p2.y = p3.y - (cut.p3.y - cut.p2.y) * scale;
+        }
     }
+    c.p0 = p0;
+    c.p3 = p3;
     c
 }
 
+/// The parameter of a point on `c` that's close to `p`.
+///
+/// This is the point at the height of `p`, unless that's too far to the side and there's a better
+/// one nearby.
+pub(crate) fn t_near(c: CubicBez, p: kurbo::Point, accuracy: f64) -> f64 {
+    let t = solve_t_for_y(c, p.y);
+    if (c.eval(t).x - p.x).abs() <= accuracy {
+        return t;
+    }
+
+    let mut t0 = solve_t_for_y(c, (p.y - 4.0 * accuracy).max(c.p0.y));
+    let mut t1 = solve_t_for_y(c, (p.y + 4.0 * accuracy).min(c.p3.y));
+    let x0 = c.eval(t0).x - p.x;
+    let x1 = c.eval(t1).x - p.x;
+    if x0 * x1 > 0.0 {
+        return if x0.abs() < x1.abs() { t0 } else { t1 };
+    }
+    for _ in 0..50 {
+        let t = (t0 + t1) / 2.0;
+        if (c.eval(t).x - p.x) * x0 > 0.0 {
+            t0 = t;
+        } else {
+            t1 = t;
+        }
+    }
+    (t0 + t1) / 2.0
+}
+
 /// A positioned output segment, possibly perturbed from the original.
 ///
 /// We perturb output segments in order to strictly enforce ordering.
@@ -387,7 +436,7 @@ pub(crate) fn compute_positions(
             if segs[seg_idx].is_line() {
                 out.path.line_to(endpoint)
             } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, endpoint.y, endpoint);
+                let c = next_subsegment(&segs[seg_idx], &out.path, endpoint.y, endpoint, accuracy);
                 out.path.curve_to(c.p1, c.p2, c.p3);
             }
         } else {
diff --git a/src/topology.rs b/src/topology.rs
index f566c94..b473bf4 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -8,10 +8,10 @@ use std::collections::VecDeque;
 use kurbo::{BezPath, ParamCurve, PathEl, Rect, Shape};
 
 use crate::{
-    curve::{solve_t_for_y, y_subsegment, Order},
+    curve::{y_subsegment, Order},
     geom::Point,
     order::ComparisonCache,
-    position::PositionedOutputSeg,
+    position::{t_near, PositionedOutputSeg},
     segments::{NonClosedPath, SegIdx, SegVec, Segments},
     sweep::{
         SegmentsConnectedAtX, SweepLineBuffers, SweepLineRange, SweepLineRangeBuffers, Sweeper,
@@ -1102,9 +1102,10 @@ impl<W: WindingNumber> Topology<W> {
         } else {
             pos.path.elements().iter().rev().nth(1)
         };
-        let end_y = copied_end
+        let end = copied_end
             .and_then(|el| el.end_point())
-            .map_or(self.point(seg.other_half()).y, |p| p.y);
+            .unwrap_or_else(|| self.point(seg.other_half()).to_kurbo());
+        let end_t = |cubic| t_near(cubic, end, self.eps / 4.0);
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
@@ -1113,7 +1114,7 @@ impl<W: WindingNumber> Topology<W> {
                     // Is this out seg the "first" one of the input seg?
                     && start_y == self.segments.oriented_start(orig_idx).y
             {
-                let t = solve_t_for_y(self.segments[orig_idx].to_kurbo_cubic(), end_y);
+                let t = end_t(self.segments[orig_idx].to_kurbo_cubic());
                 Some(self.input_seg_t(seg.idx, t))
             } else {
                 None
@@ -1124,7 +1125,7 @@ impl<W: WindingNumber> Topology<W> {
                 && extremal_seg_is_copied
                 && start_y == self.segments.oriented_end(orig_idx).y
             {
-                let t = solve_t_for_y(self.segments[orig_idx].to_kurbo_cubic(), end_y);
+                let t = end_t(self.segments[orig_idx].to_kurbo_cubic());
                 Some(self.input_seg_t(seg.idx, t))
             } else {
                 None
-- 
2.43.0


From 76736d5cf3f18536980527a54b2126bdd9484fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:59 +0000
Subject: [PATCH 19/23] fix: allow for the accuracy of comparisons when placing
 segments on a sweep line

Segments can be reordered up to 1.5 eps away from where they meet, so using only
eps for the range of feasible positions left some with none, and an endpoint was
recorded far to the side of a curve crossing an almost-horizontal one.
---
 src/sweep/sweep_line.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index d2772da..6a9d817 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1252,9 +1252,12 @@ fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
     let mut max = f64::NEG_INFINITY;
     let mut min = f64::INFINITY;
 
+    // The order is only exact up to `eps` plus the accuracy of our comparisons (`eps / 2`).
+    let slop = 1.5 * eps;
+
     for entry in entries {
         let seg = &segments[entry_seg(entry)];
-        max_so_far = max_so_far.max(seg.lower(y, eps));
+        max_so_far = max_so_far.max(seg.lower(y, slop));
         // Fill out the minimum allowed positions, with a placeholder for the maximum.
         out.push((*entry, max_so_far, 0.0));
 
@@ -1266,7 +1269,7 @@ fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
     let mut min_so_far = f64::INFINITY;
 
     for (entry, min_allowed, max_allowed) in out.iter_mut().rev() {
-        let x = segments[entry_seg(entry)].upper(y, eps);
+        let x = segments[entry_seg(entry)].upper(y, slop);
         min_so_far = min_so_far.min(x);
         *max_allowed = min_so_far.min(max);
         *min_allowed = min_allowed.max(min);
-- 
2.43.0


From 840e9a261ab482536584e105e8b7d66cd4a35271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:59 +0000
Subject: [PATCH 20/23] fix: lay out almost-horizontal curves between the
 points they are recorded to pass

The parabolas started at the height of the recorded point, possibly far to its
side, and crossed other curves there. Also, curves whose recorded end isn't on
them were not laid out if the deformed curves were transversal.
---
 src/position.rs | 59 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 17ed15b..db69e0e 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -52,7 +52,9 @@ fn ordered_curves_all_close(
         let q0 = endpoints[o0.second_half()];
         let q1 = endpoints[o1.second_half()];
 
-        if p0.y == y0 && p1.y == y0 {
+        let near = |s, p| is_near(&segs[s], p, accuracy);
+
+        if p0.y == y0 && p1.y == y0 && near(s0, p0) && near(s1, p1) {
             let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0, accuracy);
             let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1, accuracy);
 
@@ -61,7 +63,7 @@ fn ordered_curves_all_close(
             }
         }
 
-        if q0.y == y1 && q1.y == y1 {
+        if q0.y == y1 && q1.y == y1 && near(s0, q0) && near(s1, q1) {
             let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0, accuracy);
             let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1, accuracy);
 
@@ -88,11 +90,21 @@ fn ordered_curves_all_close(
         }
     }
 
+    // Where they're almost horizontal, the segments might be far to the side of the points
+    // they need to hit. These pieces aren't.
+    let cubics = order
+        .iter()
+        .zip(output_order)
+        .map(|(&seg_idx, &out_idx)| {
+            let endpoint = endpoints[out_idx.second_half()];
+            next_subsegment(&segs[seg_idx], &out[out_idx].path, y1, endpoint, accuracy)
+        })
+        .collect::<Vec<_>>();
     let mut approxes = Vec::new();
 
     // The recentering helps, but there are still some issues with approximation when almost horizontal
     while y0 < y1 {
-        let next_y0 = approximate(y0, y1, order, segs, accuracy, &mut approxes);
+        let next_y0 = approximate_cubics(y0, y1, &cubics, accuracy, &mut approxes);
 
         let y_mid = (y0 + next_y0) / 2.0;
 
@@ -145,22 +157,36 @@ fn horizontal_error_weight(c: CubicBez) -> f64 {
     weight
 }
 
-// Pushes approximating parabolas into `out`, and returns the final y position.
+#[cfg(test)]
 fn approximate(
     y0: f64,
-    mut y1: f64,
+    y1: f64,
     order: &[SegIdx],
     segs: &Segments,
     accuracy: f64,
     out: &mut Vec<EstParab>,
+) -> f64 {
+    let cubics = order
+        .iter()
+        .map(|&idx| segs[idx].to_kurbo_cubic())
+        .collect::<Vec<_>>();
+    approximate_cubics(y0, y1, &cubics, accuracy, out)
+}
+
+// Pushes approximating parabolas into `out`, and returns the final y position.
+fn approximate_cubics(
+    y0: f64,
+    mut y1: f64,
+    cubics: &[CubicBez],
+    accuracy: f64,
+    out: &mut Vec<EstParab>,
 ) -> f64 {
     let orig_len = out.len();
 
     'retry: loop {
         let y_mid = (y0 + y1) / 2.0;
-        for seg_idx in order {
-            let cubic = segs[*seg_idx].to_kurbo_cubic();
-            let mut cubic = y_subsegment(cubic, y0, y1);
+        for cubic in cubics {
+            let mut cubic = y_subsegment(*cubic, y0, y1);
             cubic.p0.y -= y_mid;
             cubic.p1.y -= y_mid;
             cubic.p2.y -= y_mid;
@@ -234,7 +260,7 @@ fn next_subsegment(
     let orig = seg.to_kurbo_cubic();
     let p0 = bez_end(out);
     let mut c = y_subsegment(orig, p0.y, y1);
-    let p3 = if endpoint.y == y1 { endpoint } else { c.p3 };
+    let mut p3 = if endpoint.y == y1 { endpoint } else { c.p3 };
 
     // Where the curve is almost horizontal, the points we need to hit might be close to
     // the curve and still have quite a different x coordinate than the curve does at their
@@ -247,6 +273,13 @@ fn next_subsegment(
             c = cut;
             c.p1.y = p0.y + (cut.p1.y - cut.p0.y) * scale;
             c.p2.y = p3.y - (cut.p3.y - cut.p2.y) * scale;
+        } else {
+            // We're already past the point at `y1`, so don't go back.
+            if endpoint.y != y1 {
+                p3.x = p0.x;
+            }
+            c.p1 = p0.lerp(p3, 1.0 / 3.0);
+            c.p2 = p0.lerp(p3, 2.0 / 3.0);
         }
     }
     c.p0 = p0;
@@ -282,6 +315,14 @@ pub(crate) fn t_near(c: CubicBez, p: kurbo::Point, accuracy: f64) -> f64 {
     (t0 + t1) / 2.0
 }
 
+/// Is `p` on `seg`, up to a few times the accuracy?
+///
+/// Points that are further away only fit a part of the segment that's been laid out.
+fn is_near(seg: &Segment, p: kurbo::Point, accuracy: f64) -> bool {
+    let c = seg.to_kurbo_cubic();
+    (c.eval(t_near(c, p, accuracy)).x - p.x).abs() <= 4.0 * accuracy
+}
+
 /// A positioned output segment, possibly perturbed from the original.
 ///
 /// We perturb output segments in order to strictly enforce ordering.
-- 
2.43.0


From 990c1ab1142ae2efde02caad6d02c08bedeed160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:05 +0000
Subject: [PATCH 21/23] fix: delay crossings that push a segment back past one
 it is due to cross

---
 src/sweep/sweep_line.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 6a9d817..f4bcf05 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -680,6 +680,28 @@ impl<'segs> Sweeper<'segs> {
                         return;
                     }
 
+                    // Similarly, we might have been asked to push `seg_j` to the
+                    // right of `right` even though those two are already due to
+                    // cross the other way. They'd do so immediately, pushing
+                    // `left` back, and we'd go around in circles. So we also
+                    // delay the intersection in this case, unless `left` and
+                    // `right` are already in the wrong order.
+                    let (_, y3, left_right_order) =
+                        self.compare_segments(left, right).entry_at(self.y);
+                    if j_right_order == Order::Ish && left_right_order == Order::Ish {
+                        let touch = self
+                            .compare_segments(right, seg_j_idx)
+                            .next_touch_after(self.y);
+                        if matches!(touch, Some(curve::CurveInteraction::Cross(y)) if y <= self.y) {
+                            self.events.push(IntersectionEvent {
+                                y: y1.min(y2).min(y3),
+                                left,
+                                right,
+                            });
+                            return;
+                        }
+                    }
+
                     to_move.push(j);
                 }
             }
-- 
2.43.0


From 0d5f1166f0cdb91b744247f48201071bda199510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:17 +0000
Subject: [PATCH 22/23] fix: compare curves that are far to the side near x =
 0, where rounding is small

---
 src/curve/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 840f235..86db8b6 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -1207,6 +1207,16 @@ pub fn intersect_cubics(c0: CubicBez, c1: CubicBez, tolerance: f64, accuracy: f6
     let y0 = c0.p0.y.max(c1.p0.y);
     let y1 = c0.p3.y.min(c1.p3.y);
 
+    // Only the horizontal distance matters, and if the horizontal coordinates are
+    // too large then rounding will stop us from measuring it accurately. In that
+    // case, move the curves closer to zero.
+    let (c0, c1) = if c0.p0.x.abs() * 1e-10 > accuracy {
+        let shift = Affine::translate((-c0.p0.x, 0.0));
+        (shift * c0, shift * c1)
+    } else {
+        (c0, c1)
+    };
+
     let mut ret = CurveOrder::new(y0);
     if y0 < y1 {
         intersect_cubics_rec(c0, c1, y0, y1, tolerance, accuracy, &mut ret);
-- 
2.43.0


From 12a30b683f2fd14e18759f0d9c3e4001540507a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:17 +0000
Subject: [PATCH 23/23] fix: do not subdivide empty intervals when comparing
 curves

---
 src/curve/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 86db8b6..02264db 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -1134,7 +1134,10 @@ fn intersect_cubics_rec(
             //
             // TODO: investigate fuzz/artifacts/curve_order/crash-bee7187920a9fe9e38bbf40ce6ff8cd80774c7a7
             // more closely. It seems to recurse more than it should...
-            if y1 - y0 <= accuracy || dep.dmax - dep.dmin <= accuracy {
+            //
+            // There's nothing to gain from recursing into an empty interval, which
+            // we can get because of rounding or between two opposite orders.
+            if new_y0 == new_y1 || y1 - y0 <= accuracy || dep.dmax - dep.dmin <= accuracy {
                 out.push(new_y1, order);
             } else if new_y1 - new_y0 < 0.5 * (y1 - y0) {
                 intersect_cubics_rec(orig_c0, orig_c1, new_y0, new_y1, tolerance, accuracy, out);
-- 
2.43.0

