From 0c27f60e38b44316588bc462921dbd10453a0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:18 +0000
Subject: [PATCH 01/16] fix: area and winding order overflow on u32 coordinates

The product of two u32 coordinates does not fit in an i64, so any ring in the
bottom-right of the coordinate space panicked (or, in release mode, could get
the wrong area and winding order). Sum in i128.
---
 src/clip/topology.rs |  2 +-
 src/geo/mod.rs       | 24 ++++++++++++------------
 src/normalize.rs     |  4 ++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 14bd58f..a7c23a4 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -170,7 +170,7 @@ impl<Data: Clone> Builder<Data> {
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
-        let mut area2: i64 = 0;
+        let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
         let mut previous_point: Option<Point> = None;
 
diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index f1d6118..4f24902 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -88,12 +88,12 @@ pub enum WindingOrder {
 ///
 /// You can call this method on each edge in turn and sum the results to arrive
 /// at the total area (and implicit winding order).
-pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
+pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0; // products of two u32s don't fit in an i64
 
     for (p1, p2) in points.into_iter().tuple_windows() {
-        a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+        a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
     }
 
     a
@@ -108,20 +108,20 @@ pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
 /// A zero-area Ring is considered to be Clockwise.
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u64, WindingOrder) {
+pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u128, WindingOrder) {
     let a = signed_area2(points);
 
     if a >= 0 {
-        (a as u64, WindingOrder::Clockwise)
+        (a as u128, WindingOrder::Clockwise)
     } else {
-        (-a as u64, WindingOrder::CounterClockwise)
+        (-a as u128, WindingOrder::CounterClockwise)
     }
 }
 
 /// Returns 2*area
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u64 {
+pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u128 {
     area2_and_winding_order(points).0
 }
 
@@ -168,7 +168,7 @@ impl Ring {
     }
 
     /// Returns 2*area
-    pub fn area2(&self) -> u64 {
+    pub fn area2(&self) -> u128 {
         self.area2_and_winding_order().0
     }
 
@@ -179,18 +179,18 @@ impl Ring {
     /// coordinates.
     ///
     /// A zero-area Ring is considered to be Clockwise.
-    pub fn area2_and_winding_order(&self) -> (u64, WindingOrder) {
+    pub fn area2_and_winding_order(&self) -> (u128, WindingOrder) {
         match self {
             &Ring::Edges(ref edges) => {
-                let mut a: i64 = 0;
+                let mut a: i128 = 0;
                 for edge in edges.iter() {
                     a += signed_area2(edge.0.iter());
                 }
 
                 if a >= 0 {
-                    (a as u64, WindingOrder::Clockwise)
+                    (a as u128, WindingOrder::Clockwise)
                 } else {
-                    (-a as u64, WindingOrder::CounterClockwise)
+                    (-a as u128, WindingOrder::CounterClockwise)
                 }
             }
             &Ring::Points(ref points) => area2_and_winding_order(points.iter()),
diff --git a/src/normalize.rs b/src/normalize.rs
index 4b9932b..6effa96 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -190,11 +190,11 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 
 fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for ref edge in edges {
         for (p1, p2) in edge.points.iter().tuple_windows() {
-            a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+            a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
         }
     }
 
-- 
2.43.0


From 10fa49bbc2bbba5c39113bdc778de0f1965bb40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:36 +0000
Subject: [PATCH 02/16] fix: ClipMask::intersect() overflows on long segments

The product of two coordinate differences does not fit in an i64.
---
 src/clip/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clip/types.rs b/src/clip/types.rs
index 9b0ea6d..8ddede3 100644
--- a/src/clip/types.rs
+++ b/src/clip/types.rs
@@ -49,7 +49,7 @@ impl ClipMask {
     ///
     /// Assumes either `p1` or `p2` is outside the clip mask.
     pub fn intersect(&self, p1: &Point, p2: &Point) -> Point {
-        fn i(u: u32) -> i64 { u as i64 }
+        fn i(u: u32) -> i128 { u as i128 } // products of two u32s don't fit in an i64
 
         match self {
             &ClipMask::MinX(x) | &ClipMask::MaxX(x) => {
-- 
2.43.0


From 94c32fd08e54d0b705c9d0a6307b8e9b9ce70848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:37 +0000
Subject: [PATCH 03/16] fix: TopoRing.region may dangle

The region pointers were taken before Vec::into_boxed_slice(), which
reallocates when the Vec has spare capacity (collect() reuses the source
Vec's allocation), so the regions could move after we pointed to them.
---
 src/clip/topology.rs  | 7 +++++--
 src/topology/build.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index a7c23a4..e42ba2f 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -251,7 +251,7 @@ impl<Data: Clone> Builder<Data> {
         }));
 
         // Build regions and their rings. Make all region pointers null.
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
                 .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
@@ -265,6 +265,9 @@ impl<Data: Clone> Builder<Data> {
             }
         }).collect();
 
+        // Shrinking the Vec may move the regions, so do it before we point to them
+        let mut regions = regions.into_boxed_slice();
+
         // Now that regions and edges have their final spots in memory, we can
         // set pointers to them.
         for mut region in regions.iter_mut() {
@@ -289,7 +292,7 @@ impl<Data: Clone> Builder<Data> {
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
+            regions: regions,
             edges: edges.into_boxed_slice(),
         }
     }
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 66c943a..f22b1ec 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -149,7 +149,7 @@ impl<Data> TopologyBuilder<Data>
             .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
             .collect();
 
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
 
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
@@ -164,6 +164,9 @@ impl<Data> TopologyBuilder<Data>
             }
         }).collect();
 
+        // Shrinking the Vec may move the regions, so do it before we point to them
+        let mut regions = regions.into_boxed_slice();
+
         for mut region in regions.iter_mut() {
             let region_p = region as *const TopoRegion<Data>;
 
@@ -186,7 +189,7 @@ impl<Data> TopologyBuilder<Data>
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
+            regions: regions,
             edges: edges.into_boxed_slice(),
         }
     }
-- 
2.43.0


From fde21619af00ed56b7ecde4ebc65df711423b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:54 +0000
Subject: [PATCH 04/16] fix: simplify's point heap loses heap order

heap_index was left at 0 for points heapify() doesn't move, and sift_down()
compared children with heap[start] instead of the element being sifted. So
points weren't eliminated in order of increasing area.
---
 src/simplify/simplify_edge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 38c01b8..2d8d621 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -83,6 +83,7 @@ impl From<Vec<geo::Point>> for PointHeap {
             let area2 = area2(&points[i - 1].geo_point, &points[i].geo_point, &points[i + 1].geo_point);
 
             points[i].weight = area2;
+            points[i].heap_index = i - 1;
             points[i].next = &points[i + 1];
             points[i].previous = &points[i - 1];
         }
@@ -134,7 +135,7 @@ impl PointHeap {
             let child = left_child(root);
             let mut swap = root;
 
-            if unsafe { *self.heap[start] > *self.heap[child] } {
+            if unsafe { *self.heap[swap] > *self.heap[child] } {
                 swap = child;
             }
 
-- 
2.43.0


From de9da9cdf7deaacce48c85651252fb3f1fcb9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:15 +0000
Subject: [PATCH 05/16] fix: simplify doesn't weigh points by triangle area

area2() multiplied b.x by a.x instead of subtracting them (and overflowed on
real coordinates). With the correct area, a point is kept iff its area is
greater than the threshold, as documented ('at most one pixel') and tested
(an area2 of 9 is kept at 8 and removed at 9).
---
 src/simplify/simplify_edge.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 2d8d621..bba8128 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -3,9 +3,9 @@ use std::ptr;
 use geo;
 
 fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
-    fn i(u: u32) -> i64 { u as i64 }
-    let a2: i64 = (i(b.0) * i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
-    a2.abs() as u64
+    fn i(u: u32) -> i128 { u as i128 } // products of two u32s don't fit in an i64
+    let a2: i128 = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
+    a2.abs() as u64 // a triangle is at most half its bounding box, so this fits
 }
 
 #[derive(Debug)]
@@ -263,7 +263,7 @@ impl PointHeap {
             if small_point.weight < last_weight {
                 small_point.weight = last_weight;
             } else {
-                if small_point.weight >= smallest_weight {
+                if small_point.weight > smallest_weight {
                     // We don't need to figure out the exact weight of
                     // any more points, because we know we aren't going to
                     // remove them when we simplify. (Their weights are
@@ -283,7 +283,7 @@ impl PointHeap {
         }
 
         let mut ret: Vec<geo::Point> = self.points.iter()
-            .filter(|ref p| p.weight >= smallest_weight)
+            .filter(|ref p| p.weight > smallest_weight || p.weight == u64::max_value()) // max: first and last
             .map(|ref p| p.geo_point)
             .collect();
 
@@ -337,7 +337,8 @@ impl PointHeap {
 /// smallest_area2 is 2x the smallest area we want to morph the line by when
 /// removing a point. The 2x makes for fast math -- and it's easy to understand
 /// because it's in terms of rectangles. For instance, if you want to err by
-/// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
+/// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`:
+/// we'll only keep points that morph the line by _more_ than that.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
     let mut point_heap = PointHeap::from(points.to_vec());
     point_heap.visvalingam_whyatt(smallest_area2)
-- 
2.43.0


From faffdaedbaa7b896ad692683f2ef1a433dc85ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:16 +0000
Subject: [PATCH 06/16] fix: simplify panics on closed edges of fewer than four
 points

clip_topology() (rounding) and Ring::Edges input can produce such edges.
---
 src/simplify/simplify_edge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index bba8128..96b78dd 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -340,6 +340,11 @@ impl PointHeap {
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`:
 /// we'll only keep points that morph the line by _more_ than that.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
+    if points.len() < 4 && points[0] == points[points.len() - 1] {
+        // A there-and-back edge (clipping makes these): nothing to simplify
+        return points.to_vec().into_boxed_slice();
+    }
+
     let mut point_heap = PointHeap::from(points.to_vec());
     point_heap.visvalingam_whyatt(smallest_area2)
 }
-- 
2.43.0


From d86f12466373042fcbc51b4363d69ea4c4de3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 07/16] fix: Ring::points() repeats the points where edges meet

As test_edge_ring_points expects (it never ran: it's under #[cfg(Test)]).
---
 src/geo/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 4f24902..a9fef7f 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -147,7 +147,9 @@ impl Ring {
                 let len = edges.iter().map(|e| e.0.len()).sum();
                 let mut ret = Vec::<Point>::with_capacity(len);
                 for ref edge in edges.iter() {
-                    ret.extend_from_slice(&*edge.0);
+                    // Each edge starts at the point where the previous one ends
+                    let skip = if ret.len() > 0 && ret.last() == edge.0.first() { 1 } else { 0 };
+                    ret.extend_from_slice(&edge.0[skip ..]);
                 }
                 ret.into_boxed_slice()
             }
-- 
2.43.0


From 0dea048c30b88d9e3d6e4ad0f798b169a6c5747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 08/16] fix: normalize joins outer and inner rings separately

Joining outer rings around a gap listed the enclosed hole as an outer ring,
and an outer ring that fills part of a hole made join_adjacent_rings() panic
('Expected Edge to continue'). Join all the region's rings, then tell outer
rings from inner rings by their winding order.
---
 src/normalize.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 6effa96..73e118a 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -340,14 +340,14 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
     ret
 }
 
-/// Returns a normalized copy of the given set of outer/inner rings.
+/// Returns a normalized copy of the given region's outer and inner rings.
 ///
-/// Call with WindingOrder::Clockwise on outer rings and CounterClockwise on
-/// inner rings.
+/// We join all rings at once, because an outer ring can be adjacent to an inner
+/// ring (it fills part of the hole) and because joining outer rings can enclose
+/// a new hole (or joining holes, a new island). After joining, the clockwise
+/// rings are the outer rings.
 ///
-/// Note the tidy cleanup of donuts, even though this function isn't called
-/// with both outer rings and inner rings at the same time (it either gets
-/// all outer rings or all inner rings). For instance:
+/// Note the tidy cleanup of donuts. For instance:
 ///
 /// ```ascii
 /// A------B
@@ -361,15 +361,15 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
 ///
 /// If a region has two outer rings `ABCD` and `EHGF`, and one inner ring
 /// ("hole"), `EFGH`, then this function's call to join_adjacent_rings() will
-/// nix `EHGF` when called on outer rings, and it will nix `EFGH` when called
-/// on inner rings (since the edges have two rings and thus two Regions, and
-/// both Regions are identical). Ta-da! The donut is gone.
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Box<[Ring]> {
-    let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
+/// nix `EHGF` and `EFGH` (since the edges have two rings and thus two Regions,
+/// and both Regions are identical). Ta-da! The donut is gone.
+fn normalize_region_rings<T>(region: &TopoRegion<T>) -> (Box<[Ring]>, Box<[Ring]>) {
+    let mut rings = Vec::<NormRing<T>>::with_capacity(region.outer_rings.len() + region.inner_rings.len());
 
-    for ref boxed_ring in in_rings {
-        let ref in_ring = *boxed_ring;
+    let outer_rings = region.outer_rings.iter().map(|r| (r, WindingOrder::Clockwise));
+    let inner_rings = region.inner_rings.iter().map(|r| (r, WindingOrder::CounterClockwise));
 
+    for (in_ring, winding_order) in outer_rings.chain(inner_rings) {
         let mut edges = Vec::<NormEdge<T>>::with_capacity(in_ring.directed_edges.len());
 
         for ref directed_edge in in_ring.directed_edges.iter() {
@@ -386,8 +386,9 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
     rings = join_adjacent_rings(&rings);
     rings.sort();
 
-    let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
-    ret.into_boxed_slice()
+    let (outer, inner): (Vec<Ring>, Vec<Ring>) = rings.into_iter().map(|r| r.into_ring())
+        .partition(|r| r.winding_order() == WindingOrder::Clockwise);
+    (outer.into_boxed_slice(), inner.into_boxed_slice())
 }
 
 /// Returns a "normalized" copy of the given Topology.
@@ -410,8 +411,7 @@ pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     let mut builder = TopologyBuilder::<Data>::new();
 
     for ref region in topo.regions.iter() {
-        let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
-        let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise);
+        let (outer_rings, inner_rings) = normalize_region_rings(region);
         builder.add_region(Region {
             data: region.data.clone(),
             outer_rings: outer_rings,
-- 
2.43.0


From 2ec152e8cf47203272d827e2f203848f1d2a7626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 09/16] fix: .shp header with a huge file length overflows

The length is in 16-bit words: doubling it doesn't always fit in a u32.
---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 868d50e..7eab4c7 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -161,7 +161,7 @@ fn read_shp_header(file: &mut io::Read) -> Result<ShpHeader, ShpError> {
             match ShpShapeType::with_u32(shape_type_u32) {
                 Some(ShpShapeType::Polygon) => {
                     Ok(ShpHeader {
-                        file_n_bytes: (file_len * 2) as usize,
+                        file_n_bytes: file_len as usize * 2,
                         shape_type: ShpShapeType::Polygon,
                         bounding_box: bounding_box,
                     })
-- 
2.43.0


From e4334808446b4bee63d2d43bfe21d18b3e9b28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:11 +0000
Subject: [PATCH 10/16] fix: .shp record that is too short panics

---
 src/read/shapefile/shp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 7eab4c7..d402d08 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -185,11 +185,19 @@ fn parse_point(buf: &[u8]) -> Result<ShpPoint, ShpError> {
 }
 
 fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonRecord, ShpError> {
+    if buf.len() < 4 {
+        return Err(ShpError::ParseError(format!("Record number {} has no shape type", record_number)));
+    }
+
     let shape_type_u32 = LittleEndian::read_u32(&buf[0..4]);
     if shape_type_u32 != 5 {
         return Err(ShpError::ParseError(format!("Record number {} has unsupported shape type: found {}, expected {}", record_number, shape_type_u32, 5)));
     }
 
+    if buf.len() < 44 {
+        return Err(ShpError::ParseError(format!("Record number {} needs at least 44 bytes, but the record header says it has {} bytes", record_number, buf.len())));
+    }
+
     let num_parts = LittleEndian::read_u32(&buf[36..40]) as usize;
     if num_parts == 0 {
         return Err(ShpError::ParseError(format!("Record number {} has no parts", record_number)));
-- 
2.43.0


From 44d68c023c60fd2b08078b5af27589e287207678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 11/16] fix: .shp ring of three points is only rejected if it's
 the last

A ring has four or more points, wherever it is in the record.
---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index d402d08..94b38f5 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -228,7 +228,7 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but there are only {} points in the record", record_number, part_start, part_end, num_points)));
         }
 
-        if part_start + 3 > part_end {
+        if part_start + 4 > part_end {
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but that's an invalid range", record_number, part_start, part_end)));
         }
 
-- 
2.43.0


From cf2fc65fac1d8faabf5001a29c8cb1c2eb9e008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 12/16] fix: reading a damaged shapefile never ends

ShpReader didn't count the bytes of a record it couldn't parse, so it went on
reading past the last record; and after an I/O error (e.g., a truncated file)
it returned that error forever. DbfReader returned it once per missing record.
---
 src/read/shapefile/dbf.rs |  7 ++++++-
 src/read/shapefile/shp.rs | 17 +++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index dda61c1..6444314 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -429,7 +429,12 @@ impl<R: io::Read> Iterator for DbfReader<R> {
             None
         } else {
             let ret = read_dbf_record(&mut self.file, self.meta.clone());
-            self.n_records_already_iterated += 1;
+            if ret.is_ok() {
+                self.n_records_already_iterated += 1;
+            } else {
+                // There's nothing left to read
+                self.n_records_already_iterated = self.meta.n_records;
+            }
             Some(ret)
         }
     }
diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 94b38f5..1ee4bd1 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -252,10 +252,11 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
 }
 
 /// Reads the next Polygon record from the file, and returns the number of bytes
-/// that polygon consumed (including its record header).
+/// that polygon consumed (including its record header), whether or not we could
+/// parse it.
 ///
 /// Side effect: advances the file cursor to the next Polygon.
-fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize), ShpError> {
+fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord, ShpError>, usize), ShpError> {
     let mut header_buf = [ 0u8; SHP_RECORD_HEADER_LENGTH ];
 
     match file.read_exact(&mut header_buf) {
@@ -267,7 +268,7 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
             let mut buf = vec![ 0u8; content_length * 2 ];
             match file.read_exact(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
-                Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
+                Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len()))
             }
         }
     }
@@ -329,13 +330,17 @@ impl<R: io::Read> Iterator for ShpReader<R> {
             None
         } else {
             match read_polygon_record(&mut self.file) {
-                Err(err) => Some(Err(err)),
-                Ok((record, n_bytes)) => {
+                Err(err) => {
+                    // We don't know where the next record is
+                    self.n_bytes_already_read = self.header.file_n_bytes;
+                    Some(Err(err))
+                }
+                Ok((result, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
                     if self.n_bytes_already_read > self.header.file_n_bytes {
                         Some(Err(ShpError::ParseError(format!("The Shapefile header suggests the file is {} bytes long, but it's longer than that.", self.header.file_n_bytes))))
                     } else {
-                        Some(Ok(record))
+                        Some(result)
                     }
                 }
             }
-- 
2.43.0


From e1f67123482c07ef96816d6077344ff3f4fca0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:33 +0000
Subject: [PATCH 13/16] fix: .dbf file with a too-small header length panics

---
 src/read/shapefile/dbf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index 6444314..a8cdce2 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -234,6 +234,10 @@ fn parse_dbf_field(bytes: &[u8], encoding: encoding::EncodingRef, offset: usize)
 ///
 /// Side-effect: advances the file cursor to the first data record.
 fn read_dbf_fields(file: &mut io::Read, encoding: encoding::EncodingRef, dbf_header: &DbfHeader) -> Result<Box<[DbfField]>, DbfError> {
+    if dbf_header.n_header_bytes < DBF_HEADER_LENGTH {
+        return Err(DbfError::ParseError(format!("The file header says it has {} bytes, but it must have at least {}", dbf_header.n_header_bytes, DBF_HEADER_LENGTH)));
+    }
+
     let mut buf = vec![ 0u8; dbf_header.n_header_bytes - DBF_HEADER_LENGTH ];
 
     match file.read_exact(&mut buf) {
-- 
2.43.0


From a36308cedb6d7d3df9dd957d1331f01a89cc4a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:34 +0000
Subject: [PATCH 14/16] fix: DbfField::read_string() panics on fields it cannot
 read

Return an error if the field has an unsupported type or does not fit in the
record, so that e.g. cat-shp can go on.
---
 src/read/shapefile/dbf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index a8cdce2..f4f17fb 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -89,18 +89,22 @@ fn dbf_numeric_to_valid_string(bytes: &[u8]) -> Result<String, DbfError> {
 
 impl DbfField {
     pub fn read_string(&self, record: &DbfRecord) -> Result<String, DbfError> {
-        let bytes = &record.bytes[self.offset .. self.offset + self.len];
+        let bytes = match record.bytes.get(self.offset .. self.offset + self.len) {
+            Some(bytes) => bytes,
+            None => { return Err(DbfError::ParseError(format!("Field {} does not fit in the record", self.name))) }
+        };
 
         match &self.data_type {
             &DbfType::Character(encoding) => {
                 encoding.decode(trim_end_spaces(bytes), encoding::DecoderTrap::Strict)
                     .map_err(|s| DbfError::ParseError(s.to_string()))
             }
+            &DbfType::Long if bytes.len() < 4 => Err(DbfError::ParseError(format!("Field {} is too short to be a Long", self.name))),
             &DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),
             &DbfType::Numeric => {
                 dbf_numeric_to_valid_string(bytes)
             }
-            _ => { unimplemented!() }
+            _ => Err(DbfError::ParseError(format!("Field {} has unsupported type {:?}", self.name, self.data_type)))
         }
     }
 }
-- 
2.43.0


From 38d21b032abfba381c3274f7654e0b76c2014c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:34 +0000
Subject: [PATCH 15/16] fix: .shp record with a corrupt length allocates up to
 8GB

---
 src/read/shapefile/shp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 1ee4bd1..54616c9 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -4,6 +4,7 @@ use std::error;
 use std::fmt;
 use std::fs;
 use std::io;
+use std::io::Read;
 use std::path::Path;
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use itertools::Itertools;
@@ -265,9 +266,11 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord,
             let record_number = BigEndian::read_u32(&header_buf[0..4]);
             let content_length = BigEndian::read_u32(&header_buf[4..8]) as usize;
 
-            let mut buf = vec![ 0u8; content_length * 2 ];
-            match file.read_exact(&mut buf) {
+            // Don't trust content_length enough to allocate that much up front
+            let mut buf = Vec::<u8>::new();
+            match io::Read::take(file, content_length as u64 * 2).read_to_end(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
+                Ok(n) if n < content_length * 2 => Err(ShpError::IOError(io::Error::from(io::ErrorKind::UnexpectedEof))),
                 Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len()))
             }
         }
-- 
2.43.0


From aa20cdf9d8f8f70d3fe8a814da19214c5b480bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:22 +0000
Subject: [PATCH 16/16] fix: dbf::open_ascii reads ASCII, not Windows-1252

The WHATWG label "ascii" stands for Windows-1252, so bytes that are not
ASCII were decoded as something else instead of giving an error, unlike
shapefile::open_ascii.
---
 src/read/shapefile/dbf.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index f4f17fb..103f0fb 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -403,8 +403,7 @@ pub fn open(path: &Path, encoding: encoding::EncodingRef) -> Result<DbfReader<io
 /// }
 /// ```
 pub fn open_ascii(path: &Path) -> Result<DbfReader<io::BufReader<fs::File>>, DbfError> {
-    let ascii = encoding::label::encoding_from_whatwg_label(&"ascii").unwrap();
-    open(path, ascii)
+    open(path, encoding::all::ASCII)
 }
 
 impl<R: io::Read> DbfReader<R> {
-- 
2.43.0

