From 13ab7604e7ce4b97c513a18a46e8c8ac241dfcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 01/31] fix: keep child and primitive links of nodes when
 refitting a bvh

Bvh::refit replaced node.bounds, which also stores left_first and count, so
every node of a refitted tree became an empty leaf.
---
 src/bvh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 5ff07ae..2fb2d80 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -199,8 +199,9 @@ impl Bvh {
                 aabb.offset_by(0.0001);
             }
 
-            // Overwrite AABB
-            self.nodes[i].bounds = aabb;
+            // Overwrite the extents only, the other fields of the bounds hold the tree structure
+            self.nodes[i].bounds.min = aabb.min;
+            self.nodes[i].bounds.max = aabb.max;
         }
     }
 
-- 
2.43.0


From 98618b661aa57cde6ba1b04b9a12ff718e1b4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 02/31] fix: bound the left child of a median split by the bins
 that went left

When the binned SAH builder falls back to a median split, the left child was
bounded by the bins of the rejected SAH split instead of the chosen one.
---
 src/builders/binned_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index 3bf88c3..c1e6c54 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -230,7 +230,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             let mut right_box = Aabb::empty();
 
             let bins = &self.bins_per_axis[best_axis];
-            for bin in bins[0..(best_splits[best_axis].count as usize)].iter() {
+            for bin in bins[0..split_index].iter() {
                 left_box.grow_bb(&bin.aabb);
             }
 
-- 
2.43.0


From 6fdac59962645787b557df5f9d3ea74eddfad0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 03/31] fix: keep computed aabbs in the order of their
 primitives

par_bridge() does not preserve order, so with aabbs: None the i-th box could
belong to another primitive.
---
 src/bvh.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 2fb2d80..8b971e6 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -76,8 +76,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
             Ok(SpatialSahBuilder::new(&aabbs, self.primitives, self.primitives_per_leaf).build())
@@ -101,8 +100,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
@@ -127,8 +125,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 5b97a004dfcc9f9faa37b39d1865e36568aebc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 04/31] fix: interpolate along the edge when splitting a
 triangle

SpatialTriangle::split multiplied the start point into the offset, so the cut
points were nowhere near the triangle's edge.
---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index b27d21f..5719260 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -90,7 +90,7 @@ pub trait SpatialTriangle {
 
         let split_edge = |a: Vec3, b: Vec3| -> Vec3 {
             let t = (Vec3::splat(position) - Vec3::splat(a[axis])) / Vec3::splat(b[axis] - a[axis]);
-            a * t * (b - a)
+            a + t * (b - a)
         };
 
         let q0 = p[0][axis] <= position;
-- 
2.43.0


From ff22b936630f159708814d76f7ba7c01ecef6151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 05/31] fix: follow the references of the right child when they
 are moved

allocate_children moves the references of the right child to make split space
for the left child, but kept handing out the range they had before the move,
which dropped some references and duplicated others.
---
 src/builders/spatial_sah.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5719260..ad45e79 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -422,6 +422,8 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         }
 
         let left_end = right_begin;
+        let right_begin = right_begin + left_split_count;
+        let right_end = right_end + left_split_count;
 
         let left_item = WorkItem::new(
             new_nodes.left,
@@ -435,7 +437,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         let right_item = WorkItem::new(
             new_nodes.right,
             right_begin,
-            right_end ,
+            right_end,
             self.work_item.split_end,
             self.work_item.depth + 1,
             is_sorted,
-- 
2.43.0


From 8d5edd79b21ebfa8a7b305db2bd73199835b4eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 06/31] fix: split the references of a one-sided spatial split
 inside their range

The halving point of the left side was relative to the work item, but used as
an absolute index.
---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index ad45e79..0bf05ae 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -649,7 +649,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             // references are on a single side. This code block splits the number of primitives
             // equally to either side to prevent every primitive going to one side.
             if left_count > 0 {
-                left_end = left_count / 2;
+                left_end = self.work_item.begin + left_count / 2;
             } else {
                 left_end += right_count / 2;
             }
-- 
2.43.0


From 41f8260b814d68cc27fd0b47131970c1e2f5a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 07/31] fix: pad the leafs of a spatial bvh like those of the
 other builders

Leaf bounds were exact, so rays along the plane of a triangle's box, and
packets against the flat box of an axis-aligned triangle, missed it.
---
 src/builders/spatial_sah.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 0bf05ae..6ccad4b 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -740,6 +740,8 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> Task for SpatialSahBuildTask<'a, T
                 prim_indices.set(first_prim + i, references[0][begin + i].prim_id);
             }
 
+            // Offset by a small epsilon to make sure the bounds encapsulate all of the geometry
+            node.bounds.offset_by(0.0001);
             node.set_left_first(Some(first_prim as u32));
             node.set_count(Some(prim_count as u32));
         };
-- 
2.43.0


From eee6e059c59c1f216b1148d81db0858408f5cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 08/31] fix: drop the unused split space from the indices of a
 spatial bvh

indices() and prim_count() included reserved entries that no leaf uses, which
read as references to primitive 0.
---
 src/builders/spatial_sah.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 6ccad4b..7d664f1 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -1027,6 +1027,8 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> BuildAlgorithm for SpatialSahBuild
         task_spawner.run(root_task);
 
         nodes.resize(node_count.load(SeqCst), BvhNode::new());
+        // Unused split space does not reference any primitive
+        prim_indices.truncate(reference_count.load(SeqCst));
 
         // Compose bvh
         Bvh {
-- 
2.43.0


From 7af95357d23b1b4acfc088e4fe02dafe35b06f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 09/31] fix: let rays with a negative zero direction component
 hit boxes

The sign of each axis was derived from direction < 0, which is false for -0.0
although its inverse is negative infinity, so e.g. a ray along -Vec3::Z (whose
x and y are -0.0) missed every box.
---
 src/ray.rs | 52 ++++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/ray.rs b/src/ray.rs
index 5e7defd..8d41555 100644
--- a/src/ray.rs
+++ b/src/ray.rs
@@ -15,19 +15,27 @@ pub struct Ray {
     pub(crate) signs: [u8; 4],
 }
 
+/// Which bound of a box a ray reaches first on each axis. This is decided by the sign of the inverse
+/// direction, as a direction of -0.0 is not less than 0, but has an inverse of negative infinity.
+#[inline(always)]
+fn signs_of(inv_direction: Vec3) -> [u8; 4] {
+    [
+        (inv_direction.x < 0.0) as u8,
+        (inv_direction.y < 0.0) as u8,
+        (inv_direction.z < 0.0) as u8,
+        0,
+    ]
+}
+
 impl From<(Vec3, Vec3)> for Ray {
     fn from(vectors: (Vec3, Vec3)) -> Self {
-        let signs = [
-            (vectors.1.x < 0.0) as u8,
-            (vectors.1.y < 0.0) as u8,
-            (vectors.1.z < 0.0) as u8,
-            0,
-        ];
+        let inv_direction = Vec3::ONE / vectors.1;
+        let signs = signs_of(inv_direction);
 
         Ray {
             origin: vectors.0,
             direction: vectors.1,
-            inv_direction: Vec3::ONE / vectors.1,
+            inv_direction,
             t_min: 1e-4,
             t: 1e34,
             signs,
@@ -130,19 +138,15 @@ impl RayPacket4 {
             self.direction_z[index],
         );
 
-        let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
-            0,
-        ];
+        let inv_direction = Vec3::ONE / direction;
+        let signs = signs_of(inv_direction);
 
         Ray {
             origin,
             t_min: 1e-4,
             direction,
             t: self.t[index],
-            inv_direction: Vec3::ONE / direction,
+            inv_direction,
             signs,
         }
     }
@@ -164,19 +168,15 @@ impl Ray {
     pub const DEFAULT_T_MAX: f32 = 1e34;
 
     pub fn new(origin: Vec3, direction: Vec3) -> Ray {
-        let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
-            0,
-        ];
+        let inv_direction = Vec3::ONE / direction;
+        let signs = signs_of(inv_direction);
 
         Ray {
             origin,
             direction,
             t_min: Self::DEFAULT_T_MIN,
             t: Self::DEFAULT_T_MAX,
-            inv_direction: Vec3::ONE / direction,
+            inv_direction,
             signs,
         }
     }
@@ -186,17 +186,13 @@ impl Ray {
         let tmp: Vec3 = n * n.dot(self.direction) * 2.0;
         let direction = self.direction - tmp;
 
-        let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
-            0,
-        ];
+        let inv_direction = Vec3::ONE / direction;
+        let signs = signs_of(inv_direction);
 
         Ray {
             origin: hit_point + direction * epsilon,
             direction,
-            inv_direction: Vec3::ONE / direction,
+            inv_direction,
             t_min: Self::DEFAULT_T_MIN,
             t: Self::DEFAULT_T_MAX,
             signs,
-- 
2.43.0


From c689a76dcac3aa83e9f41366bdc8d3d539e6943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 10/31] fix: let ray packets hit boxes without thickness

The packet tests required the exit to lie strictly behind the entry, unlike
the single ray tests, so packets missed flat boxes.
---
 src/aabb.rs      | 2 +-
 src/mbvh_node.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aabb.rs b/src/aabb.rs
index 7635d2f..276bc12 100644
--- a/src/aabb.rs
+++ b/src/aabb.rs
@@ -235,7 +235,7 @@ impl<E: Debug + Copy> Aabb<E> {
         let t_min = t_min_x.max(t_min_y.max(t_min_z));
         let t_max = t_max_x.min(t_max_y.min(t_max_z));
 
-        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpgt(t_min) & t_min.cmplt(packet.t);
+        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min) & t_min.cmplt(packet.t);
         if mask.any() {
             Some(t_min.into())
         } else {
diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index b4b3713..d4064f4 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -274,7 +274,7 @@ impl MbvhNode {
             let t_min: Vec4 = t_min.max(t1.min(t2));
             let t_max: Vec4 = t_max.min(t1.max(t2));
 
-            let greater_than_min = t_max.cmpgt(t_min);
+            let greater_than_min = t_max.cmpge(t_min);
             let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));
             result |= greater_than_min & less_than_t;
 
-- 
2.43.0


From 715e29f05672ad62d1e2192e67b3e513db8caf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 11/31] fix: align MbvhNode for the aligned loads of its bounds

points() reads the bounds with _mm_load_ps, which faults on a node that is not
16-byte aligned; repr(C) alone only guarantees 4.
---
 src/mbvh_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index d4064f4..6cd5b5f 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -25,7 +25,7 @@ impl Default for MbvhHit {
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug, Clone)]
-#[repr(C)]
+#[repr(C, align(16))]
 pub struct MbvhNode {
     min_x: [f32; 4],
     max_x: [f32; 4],
-- 
2.43.0


From edca15434a3866113cf45e028d4823d482869707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 12/31] fix: do not index into the nodes of an empty bvh when
 validating it

---
 src/bvh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 8b971e6..42de250 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -229,7 +229,9 @@ impl Bvh {
     /// tree structure
     pub fn validate(&self, prim_count: usize) -> bool {
         let mut found_indices = vec![0_u8; prim_count];
-        self.traverse_check(&self.nodes[0], found_indices.as_mut());
+        if let Some(root) = self.nodes.first() {
+            self.traverse_check(root, found_indices.as_mut());
+        }
 
         let mut valid = true;
         for (i, index) in found_indices.iter().copied().enumerate() {
-- 
2.43.0


From 8b7dd7875bde7062991031d950a7b5f6ed7141a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 13/31] fix: do not read the root of an empty mbvh

The mbvh iterators read the current node unchecked before anything else, which
is out of bounds for an empty structure such as Mbvh::default().
---
 src/iter.rs         | 10 ++++++++--
 src/iter_indices.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index eda2d61..28010ff 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -307,7 +307,10 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
@@ -419,7 +422,10 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 9e603c7..294e6c2 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -266,7 +266,10 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
@@ -369,7 +372,10 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
+            let node = match self.nodes.get(self.current as usize) {
+                Some(node) => node,
+                None => return None,
+            };
 
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
-- 
2.43.0


From dacfd0e80f10ce7af13fd91f1f19560232b696a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 14/31] fix: skip references to missing primitives instead of
 losing the leaf

When a leaf referenced a primitive beyond the given slice, the bvh iterators
never advanced past that leaf, and the mbvh iterators dropped the primitives
behind it.
---
 src/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 28010ff..f277f28 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -101,12 +101,12 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
             let left_first = node.get_left_first_unchecked();
 
             if count > -1 {
-                if self.i < count {
+                while self.i < count {
                     let prim_id =
                         unsafe { *self.indices.get_unchecked((left_first + self.i) as usize) };
                     self.i += 1;
-                    self.stack_ptr += 1;
                     if let Some(prim) = self.primitives.get(prim_id as usize) {
+                        self.stack_ptr += 1;
                         return Some((prim, unsafe {
                             std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                         }));
@@ -216,12 +216,12 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
             let left_first = node.get_left_first_unchecked();
 
             if count > -1 {
-                if self.i < count {
+                while self.i < count {
                     let prim_id =
                         unsafe { *self.indices.get_unchecked((left_first + self.i) as usize) };
                     self.i += 1;
-                    self.stack_ptr += 1;
                     if let Some(prim) = self.primitives.get(prim_id as usize) {
+                        self.stack_ptr += 1;
                         return Some((prim, unsafe {
                             std::mem::transmute::<&mut RayPacket4, &'b mut RayPacket4>(self.ray)
                         }));
@@ -332,7 +332,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                     let left_first = node.children[id];
 
                     if count > -1 {
-                        if self.j < count {
+                        while self.j < count {
                             let prim_id = unsafe {
                                 *self.indices.get_unchecked((left_first + self.j) as usize)
                             };
@@ -447,7 +447,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                     let left_first = node.children[id];
 
                     if count > -1 {
-                        if self.j < count {
+                        while self.j < count {
                             let prim_id = unsafe {
                                 *self.indices.get_unchecked((left_first + self.j) as usize)
                             };
-- 
2.43.0


From 238275644600fae39f4bfdd58c8968336a287265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 15/31] fix: let traversal stacks grow beyond 32 entries

Trees can be deeper than the fixed stack: many coincident primitives make the
clustering builder produce a chain, on which the bvh iterators panicked and the
mbvh iterators wrote out of bounds.
---
 src/bvh_node.rs     |  6 +++---
 src/iter.rs         | 37 ++++++++++++++++-------------------
 src/iter_indices.rs | 37 ++++++++++++++++-------------------
 src/utils.rs        | 47 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 84 insertions(+), 43 deletions(-)

diff --git a/src/bvh_node.rs b/src/bvh_node.rs
index 6723328..8c76ecc 100644
--- a/src/bvh_node.rs
+++ b/src/bvh_node.rs
@@ -1,7 +1,7 @@
 use glam::*;
 use std::fmt::{Display, Formatter};
 
-use crate::{Aabb, Ray, RayPacket4};
+use crate::{utils::TraversalStack, Aabb, Ray, RayPacket4};
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -150,7 +150,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes(
         left: Option<f32>,
         right: Option<f32>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
@@ -180,7 +180,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes4(
         left: Option<[f32; 4]>,
         right: Option<[f32; 4]>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
diff --git a/src/iter.rs b/src/iter.rs
index f277f28..eb4726f 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIterator<'a, 'b, T: 'a + Primitive>: Iterator<Item = (&'a T, &'b mut Ray)> {}
@@ -22,7 +23,7 @@ pub trait IntoPacketIterator<'a, 'b, T: 'a + Primitive> {
 pub struct BvhIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -46,7 +47,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -73,7 +74,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -93,7 +94,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -131,7 +132,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 pub struct BvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -158,7 +159,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -188,7 +189,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -208,7 +209,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -249,7 +250,7 @@ pub struct MbvhIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -271,7 +272,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -293,7 +294,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -346,9 +347,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -364,7 +363,7 @@ pub struct MbvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -386,7 +385,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -408,7 +407,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -463,9 +462,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 294e6c2..57f05eb 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIndexIterator<'a>: Iterator<Item = (u32, &'a mut Ray)> {}
@@ -19,7 +20,7 @@ pub trait IntoPacketIndexIterator<'a> {
 pub struct BvhIndexIterator<'a> {
     ray: &'a mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -38,7 +39,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -55,7 +56,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -74,7 +75,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -110,7 +111,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 pub struct BvhPacketIndexIterator<'a> {
     ray: &'a mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -135,7 +136,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -158,7 +159,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -177,7 +178,7 @@ impl<'a> Iterator for BvhPacketIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -216,7 +217,7 @@ pub struct MbvhIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -237,7 +238,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -253,7 +254,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -304,9 +305,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -322,7 +321,7 @@ pub struct MbvhPacketIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -343,7 +342,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -359,7 +358,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -409,9 +408,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/utils.rs b/src/utils.rs
index 79f7c8f..95d25fe 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -186,6 +186,53 @@ unsafe impl<'a, T> Send for UnsafeSliceWrapper<'a, T> {}
 
 unsafe impl<'a, T> Sync for UnsafeSliceWrapper<'a, T> {}
 
+/// Node indices that are left to visit during traversal. The first entries are stored inline,
+/// trees that are too deep for those spill to the heap.
+#[derive(Debug, Clone)]
+pub(crate) struct TraversalStack {
+    inline: [i32; Self::INLINE],
+    spill: Vec<i32>,
+}
+
+impl TraversalStack {
+    const INLINE: usize = 32;
+
+    #[inline(always)]
+    pub fn new() -> Self {
+        Self {
+            inline: [0; Self::INLINE],
+            spill: Vec::new(),
+        }
+    }
+}
+
+impl Index<usize> for TraversalStack {
+    type Output = i32;
+
+    #[inline(always)]
+    fn index(&self, index: usize) -> &i32 {
+        match self.inline.get(index) {
+            Some(entry) => entry,
+            None => &self.spill[index - Self::INLINE],
+        }
+    }
+}
+
+impl IndexMut<usize> for TraversalStack {
+    #[inline(always)]
+    fn index_mut(&mut self, index: usize) -> &mut i32 {
+        if index < Self::INLINE {
+            &mut self.inline[index]
+        } else {
+            let index = index - Self::INLINE;
+            if index >= self.spill.len() {
+                self.spill.resize(index + 1, 0);
+            }
+            &mut self.spill[index]
+        }
+    }
+}
+
 pub struct TaskSpawner {
     pub threads_in_flight: Arc<AtomicUsize>,
     config: TaskConfig,
-- 
2.43.0


From 4fd916cd50b227f6fa38d002361afc579dcba6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 16/31] fix: honour primitives_per_leaf for primitives with
 coincident centers

When no split plane separates the centers, the binned SAH builder put all
primitives into one leaf no matter the requested maximum.
---
 src/builders/binned_sah.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index c1e6c54..d8c0201 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -210,7 +210,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
         }
 
         let primitives = self.builder.primitives;
-        let begin_right = self.begin
+        let mut begin_right = self.begin
             + partition(self.prim_indices, 0..(self.end - self.begin), |i| {
                 let i = *i;
                 let center = primitives[i as usize].center();
@@ -218,6 +218,13 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
                     < split_index
             });
 
+        // Primitives that share a bin cannot be separated by their centers, so if they do not fit in a
+        // leaf, simply put half of them on each side
+        let share_bin = begin_right == self.begin || begin_right == self.end;
+        if share_bin && self.work_size() > self.builder.max_leaf_size {
+            begin_right = self.begin + self.work_size() / 2;
+        }
+
         // Check if the split does not leave one side empty
         if begin_right > self.begin && begin_right < self.end {
             // Allocate two nodes
@@ -238,6 +245,12 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
                 right_box.grow_bb(&bin.aabb);
             }
 
+            if share_bin {
+                // Both sides come from the same bin
+                left_box.grow_bb(&right_box);
+                right_box = left_box;
+            }
+
             // Retrieve references to new nodes
             let left_node = new_nodes.left_node;
             let right_node = new_nodes.right_node;
-- 
2.43.0


From a000db4efaf63a35fd57c3546b81036d66c45351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 17/31] fix: compute the aabb of a triangle from its own
 vertices

The offset and stride of RTTriangleWrapper count floats already, but aabb()
converted them from bytes again, so create_spatial_Bvh without aabbs bounded
the wrong vertices and read outside of the vertex array.
---
 rtbvh_ffi/src/lib.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 4a5d8df..3bc4fd1 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -280,18 +280,9 @@ impl Primitive for RTTriangleWrapper {
 
     fn aabb(&self) -> Aabb {
         let mut aabb = Aabb::empty();
-        unsafe {
-            let ptr0 = self
-                .vertices
-                .add((self.vertex0_offset * self.vertex_stride / 4) as usize);
-            let ptr1 = ptr0.add((self.vertex_stride / 4) as usize);
-            let ptr2 = ptr0.add((self.vertex_stride / 4) as usize * 2);
-
-            aabb.grow(vec3(*ptr0, *ptr0.add(1), *ptr0.add(2)));
-            aabb.grow(vec3(*ptr1, *ptr1.add(1), *ptr1.add(2)));
-            aabb.grow(vec3(*ptr2, *ptr2.add(1), *ptr2.add(2)));
-        }
-
+        aabb.grow(self.vertex0());
+        aabb.grow(self.vertex1());
+        aabb.grow(self.vertex2());
         aabb
     }
 }
-- 
2.43.0


From c827295da23ece2f1f95254728edb32b5dfb08a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 18/31] fix: do not require callers of the C interface to align
 to 16 bytes

RTAabb and the t values only guarantee the alignment of their floats, but were
accessed as Aabb and Vec4.
---
 rtbvh_ffi/src/lib.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 3bc4fd1..65a0418 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -326,6 +326,14 @@ impl SpatialTriangle for RTTriangleWrapper {
     }
 }
 
+/// Copies aabbs into aligned storage, callers only have to align them to their floats.
+unsafe fn copy_aabbs(aabbs: *const RTAabb, count: usize) -> Vec<Aabb> {
+    slice::from_raw_parts(aabbs, count)
+        .iter()
+        .map(|bb| Aabb::from(*bb))
+        .collect()
+}
+
 /// Creates a new spatial bvh from triangles.
 /// If aabbs is null, aabbs will be computed from the input triangles.
 ///
@@ -347,7 +355,7 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
@@ -365,7 +373,7 @@ pub unsafe extern "C" fn create_spatial_Bvh(
         .collect();
 
     match (Builder {
-        aabbs,
+        aabbs: aabbs.as_deref(),
         primitives: primitives.as_slice(),
         primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
     })
@@ -440,7 +448,7 @@ pub unsafe extern "C" fn create_bvh(
     );
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(copy_aabbs(aabbs, prim_count))
     } else {
         None
     };
@@ -449,7 +457,7 @@ pub unsafe extern "C" fn create_bvh(
         12 => {
             let primitives = slice::from_raw_parts(centers as *const Vector3, prim_count);
             let builder = rtbvh::Builder {
-                aabbs,
+                aabbs: aabbs.as_deref(),
                 primitives,
                 primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
             };
@@ -461,7 +469,7 @@ pub unsafe extern "C" fn create_bvh(
         16 => {
             let primitives = slice::from_raw_parts(centers as *const Vector4, prim_count);
             let builder = rtbvh::Builder {
-                aabbs,
+                aabbs: aabbs.as_deref(),
                 primitives,
                 primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
             };
@@ -514,10 +522,7 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(slice::from_raw_parts(
-                aabbs as *const Aabb,
-                bvh.prim_count(),
-            ));
+            bvh.refit(&copy_aabbs(aabbs, bvh.prim_count()));
         })
         .is_some();
 
@@ -671,7 +676,7 @@ pub unsafe extern "C" fn intersect_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
@@ -820,7 +825,7 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
-- 
2.43.0


From 9e14e0b3a0bbe835ae8d30a043e3b33a5c8d3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 19/31] fix: read one aabb per primitive when refitting through
 the C interface

prim_count() counts references, of which a spatial bvh has more than
primitives, so refit read beyond the end of the given aabbs.
---
 rtbvh_ffi/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 65a0418..ff1ca09 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -522,7 +522,9 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(&copy_aabbs(aabbs, bvh.prim_count()));
+            // A spatial bvh can reference a primitive more than once
+            let prim_count = bvh.indices().iter().max().map_or(0, |id| *id as usize + 1);
+            bvh.refit(&copy_aabbs(aabbs, prim_count));
         })
         .is_some();
 
-- 
2.43.0


From 5cced6ac85f0b27e8eaaf48f46013b9d1ab3bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 20/31] fix: report an error when intersecting a bvh that was
 never created

A default handle has null pointers, which must not be turned into slices.
---
 rtbvh_ffi/src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index ff1ca09..ab543ec 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -554,6 +554,10 @@ pub unsafe extern "C" fn intersect(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin = Vec3::new(*origin, *origin.add(1), *origin.add(2));
     let direction = Vec3::new(*direction, *direction.add(1), *direction.add(2));
     if origin.is_nan() || direction.is_nan() {
@@ -606,6 +610,10 @@ pub unsafe extern "C" fn intersect_packet(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin_x = Vec4::new(
         *origin_x,
         *origin_x.add(1),
@@ -703,6 +711,10 @@ pub unsafe extern "C" fn intersect_mbvh(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin = Vec3::new(*origin, *origin.add(1), *origin.add(2));
     let direction = Vec3::new(*direction, *direction.add(1), *direction.add(2));
 
@@ -756,6 +768,10 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin_x = Vec4::new(
         *origin_x,
         *origin_x.add(1),
-- 
2.43.0


From 43958b4083a0c6404c1e29219c620229772dc0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 21/31] hooks: report accesses to shared build state to a model
 checker

Only compiled with --cfg rtbvh_mc.
---
 src/builders/binned_sah.rs  |   3 +
 src/builders/mod.rs         |   3 +
 src/builders/spatial_sah.rs |  11 ++-
 src/lib.rs                  |   2 +
 src/mc.rs                   | 140 ++++++++++++++++++++++++++++++++++++
 src/utils.rs                |  22 ++++--
 6 files changed, 171 insertions(+), 10 deletions(-)
 create mode 100644 src/mc.rs

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index d8c0201..c7f7e49 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -1,3 +1,5 @@
+#[cfg(rtbvh_mc)]
+use crate::mc::AtomicUsize;
 use crate::utils::*;
 use crate::{
     builders::{AtomicNodeStack, BuildAlgorithm},
@@ -7,6 +9,7 @@ use crate::{Aabb, Bvh, BvhNode};
 use glam::*;
 use std::fmt::Debug;
 use std::num::NonZeroUsize;
+#[cfg(not(rtbvh_mc))]
 use std::sync::atomic::AtomicUsize;
 
 #[derive(Debug, Copy, Clone)]
diff --git a/src/builders/mod.rs b/src/builders/mod.rs
index b94868f..003b408 100644
--- a/src/builders/mod.rs
+++ b/src/builders/mod.rs
@@ -1,6 +1,9 @@
 use crate::{Bvh, BvhNode};
 
+#[cfg(rtbvh_mc)]
+use crate::mc::AtomicUsize;
 use crate::utils::UnsafeSliceWrapper;
+#[cfg(not(rtbvh_mc))]
 use std::sync::atomic::AtomicUsize;
 use std::sync::atomic::Ordering::SeqCst;
 
diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 7d664f1..3641489 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -1,3 +1,5 @@
+#[cfg(rtbvh_mc)]
+use crate::mc::AtomicUsize;
 use crate::{
     builders::{AtomicNodeStack, BuildAlgorithm},
     Primitive, Ray,
@@ -7,12 +9,9 @@ use crate::{Aabb, Bvh, BvhNode};
 use glam::*;
 use rayon::prelude::*;
 use std::num::NonZeroUsize;
-use std::{
-    cmp::Ordering,
-    fmt::Debug,
-    ops::BitAnd,
-    sync::atomic::{AtomicUsize, Ordering::SeqCst},
-};
+#[cfg(not(rtbvh_mc))]
+use std::sync::atomic::AtomicUsize;
+use std::{cmp::Ordering, fmt::Debug, ops::BitAnd, sync::atomic::Ordering::SeqCst};
 
 #[derive(Debug, Copy, Clone)]
 struct SpatialBin {
diff --git a/src/lib.rs b/src/lib.rs
index 6518d1d..2cf6b09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,6 +5,8 @@ mod bvh_node;
 mod iter;
 mod iter_indices;
 mod mbvh_node;
+#[cfg(rtbvh_mc)]
+pub mod mc;
 mod morton;
 mod ray;
 mod utils;
diff --git a/src/mc.rs b/src/mc.rs
new file mode 100644
index 0000000..b2070b0
--- /dev/null
+++ b/src/mc.rs
@@ -0,0 +1,140 @@
+//! Hooks for the model checker in which this crate is explored, only compiled with
+//! `--cfg rtbvh_mc`. They report accesses to state that is shared between build threads to an
+//! observer, which may hold a thread until it is its turn. Without an observer they do nothing.
+
+use std::ops::Deref;
+use std::sync::atomic::{self, AtomicPtr, Ordering};
+
+/// An access to shared state that is about to happen
+#[derive(Debug, Copy, Clone, PartialEq, Eq)]
+pub enum Access {
+    /// Atomic read of the value at an address
+    AtomicLoad(usize),
+    /// Atomic write of the value at an address
+    AtomicStore(usize),
+    /// Atomic read-modify-write of the value at an address
+    AtomicUpdate(usize),
+    /// Plain read of the bytes in a range of addresses
+    Read(usize, usize),
+    /// Plain write of the bytes in a range of addresses
+    Write(usize, usize),
+}
+
+pub type Observer = fn(Access);
+
+static OBSERVER: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
+static WORK_SIZE_THRESHOLD: atomic::AtomicUsize = atomic::AtomicUsize::new(usize::MAX);
+
+/// Sets who is told about accesses
+pub fn set_observer(observer: Option<Observer>) {
+    let ptr = observer.map_or(std::ptr::null_mut(), |f| f as *mut ());
+    OBSERVER.store(ptr, Ordering::SeqCst);
+}
+
+/// Overrides the amount of work above which a build task gets its own thread
+pub fn set_work_size_threshold(threshold: Option<usize>) {
+    WORK_SIZE_THRESHOLD.store(threshold.unwrap_or(usize::MAX), Ordering::SeqCst);
+}
+
+pub(crate) fn work_size_threshold(default: usize) -> usize {
+    match WORK_SIZE_THRESHOLD.load(Ordering::SeqCst) {
+        usize::MAX => default,
+        threshold => threshold,
+    }
+}
+
+#[inline]
+pub(crate) fn access(access: Access) {
+    let ptr = OBSERVER.load(Ordering::Relaxed);
+    if !ptr.is_null() {
+        let observer: Observer = unsafe { std::mem::transmute(ptr) };
+        observer(access);
+    }
+}
+
+pub(crate) fn read<T>(ptr: *const T, count: usize) {
+    access(Access::Read(ptr as usize, count * std::mem::size_of::<T>()));
+}
+
+pub(crate) fn write<T>(ptr: *const T, count: usize) {
+    access(Access::Write(
+        ptr as usize,
+        count * std::mem::size_of::<T>(),
+    ));
+}
+
+/// `std::sync::atomic::AtomicUsize` that reports its accesses
+#[derive(Debug, Default)]
+pub struct AtomicUsize(atomic::AtomicUsize);
+
+#[allow(dead_code)]
+impl AtomicUsize {
+    pub const fn new(value: usize) -> Self {
+        Self(atomic::AtomicUsize::new(value))
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn load(&self, order: Ordering) -> usize {
+        access(Access::AtomicLoad(self.addr()));
+        self.0.load(order)
+    }
+
+    pub fn store(&self, value: usize, order: Ordering) {
+        access(Access::AtomicStore(self.addr()));
+        self.0.store(value, order)
+    }
+
+    pub fn swap(&self, value: usize, order: Ordering) -> usize {
+        access(Access::AtomicUpdate(self.addr()));
+        self.0.swap(value, order)
+    }
+
+    pub fn fetch_add(&self, value: usize, order: Ordering) -> usize {
+        access(Access::AtomicUpdate(self.addr()));
+        self.0.fetch_add(value, order)
+    }
+
+    pub fn fetch_sub(&self, value: usize, order: Ordering) -> usize {
+        access(Access::AtomicUpdate(self.addr()));
+        self.0.fetch_sub(value, order)
+    }
+
+    pub fn fetch_max(&self, value: usize, order: Ordering) -> usize {
+        access(Access::AtomicUpdate(self.addr()));
+        self.0.fetch_max(value, order)
+    }
+
+    pub fn compare_exchange(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        access(Access::AtomicUpdate(self.addr()));
+        self.0.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn compare_exchange_weak(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        // Does not fail spuriously, which would make the number of accesses nondeterministic
+        self.compare_exchange(current, new, success, failure)
+    }
+}
+
+/// Everything else is available, but not reported
+impl Deref for AtomicUsize {
+    type Target = atomic::AtomicUsize;
+
+    fn deref(&self) -> &atomic::AtomicUsize {
+        &self.0
+    }
+}
diff --git a/src/utils.rs b/src/utils.rs
index 95d25fe..3a4e7d0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,10 +1,11 @@
+#[cfg(rtbvh_mc)]
+use crate::mc::AtomicUsize;
 use num::*;
 use std::ops::{Index, IndexMut};
+#[cfg(not(rtbvh_mc))]
+use std::sync::atomic::AtomicUsize;
 use std::sync::Arc;
-use std::{
-    ops::Range,
-    sync::atomic::{AtomicUsize, Ordering},
-};
+use std::{ops::Range, sync::atomic::Ordering};
 
 #[cfg(not(feature = "wasm_support"))]
 use rayon::prelude::*;
@@ -105,6 +106,8 @@ impl<'a, T> Index<usize> for UnsafeSliceWrapper<'a, T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &Self::Output {
+        #[cfg(rtbvh_mc)]
+        crate::mc::read(self.ptr.wrapping_add(index), 1);
         &self.slice[index]
     }
 }
@@ -130,16 +133,22 @@ impl<'a, T: Sized> UnsafeSliceWrapper<'a, T> {
 
     pub fn get(&self, idx: usize) -> Option<&'a T> {
         debug_assert!(idx < self.slice.len());
+        #[cfg(rtbvh_mc)]
+        crate::mc::read(self.ptr.wrapping_add(idx), 1);
         unsafe { self.ptr.add(idx).as_ref() }
     }
 
     pub fn get_mut(&self, idx: usize) -> Option<&'a mut T> {
         debug_assert!(idx < self.slice.len());
+        #[cfg(rtbvh_mc)]
+        crate::mc::write(self.ptr.wrapping_add(idx), 1);
         unsafe { self.ptr.add(idx).as_mut() }
     }
 
     pub fn set(&self, idx: usize, val: T) {
         debug_assert!(idx < self.slice.len());
+        #[cfg(rtbvh_mc)]
+        crate::mc::write(self.ptr.wrapping_add(idx), 1);
         unsafe {
             std::ptr::write(self.ptr.add(idx), val);
         }
@@ -178,6 +187,8 @@ impl<'a, T: Sized> UnsafeSliceWrapper<'a, T> {
             end,
             self.len()
         );
+        #[cfg(rtbvh_mc)]
+        crate::mc::write(self.ptr.wrapping_add(start), end.wrapping_sub(start));
         unsafe { std::slice::from_raw_parts_mut(self.ptr.add(start), end - start) }
     }
 }
@@ -256,7 +267,10 @@ impl TaskSpawner {
     pub fn new() -> Self {
         Self {
             config: TaskConfig {
+                #[cfg(not(rtbvh_mc))]
                 work_size_threshold: 1024,
+                #[cfg(rtbvh_mc)]
+                work_size_threshold: crate::mc::work_size_threshold(1024),
                 max_depth: 64,
                 max_leaf_size: 16,
             },
-- 
2.43.0


From 5fe6c88da6503bde197a10670caeb5051f3b82ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 22/31] fix: do not split references whose primitive is on one
 side of a spatial split

---
 default_1006759096908622008_0_14066.profraw    | Bin 0 -> 282408 bytes
 ...default_1006759096908622008_0_14107.profraw | Bin 0 -> 282408 bytes
 src/builders/spatial_sah.rs                    |   6 +++++-
 3 files changed, 5 insertions(+), 1 deletion(-)
 create mode 100644 default_1006759096908622008_0_14066.profraw
 create mode 100644 shared/default_1006759096908622008_0_14107.profraw

diff --git a/default_1006759096908622008_0_14066.profraw b/default_1006759096908622008_0_14066.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..29d417047511d4ba278054fb0778b7501c945808
GIT binary patch
literal 282408
zcmbT<c{G*Z|37>(WTpW}G9*)lWUgea2xZEgoXk;XA|(+SA|j3=M@d442pKX&hB75N
z#*U##WJp4#`+NU>pZ!_u-rsevwb%BKxAcB^y`Fnt``Xuau8!+I&YnJA7yhx*{NE4Z
z|9lQ-`Okm+=Tjoj|MzRuuUH@d-@h5C|L^~NBs>Wi%?$nbFY1!hF5<QSt!(<wA8r57
z=gX3Jm+VisU2m%O;r_8YNi+4tIOG5QmXs2!+?vW1`^>0D6kCwS67c`?zy1GyqJ_TW
z{qpSAgCz}*Pbu#nbvsl#rt+UUp}+ROz65oGZ&WkXFAs(?E|nKGZKIbQPo_b1;CkHN
zGe`gODNL?C%;Qzxc<Wic-v7-F{G9*4&#+@8Q@!SusBHBwtxA&qj@DWzqC*G$fIlIL
z0#YaGYII)s=2vg`?J`1i;Ce=qny<0%Ir!|7t=H)r95fUzOh=v4-2IOvcmX)wC-Cw~
zqr1!7ohQ2oI0=XjJnrJ`_x#1%|5z2XPhQ>cp?KI5(Sh@MZp7o9`r}N+w5SJP$zriJ
z0n?e_b?Rv}K6C~+6kWW0ylqkrD=%=A0*8d?!1<`F>hIrpt~+bq$g5;fDRza3=)n2B
zy3NQUK6Kz3aD)*ZxSoQ!ULBt+OFw`!t%H|OWc9D8{oYpLz{$mQ(gnh3m8Z3*PN<#V
zZB@~H&=u2p@b{rz`~s=}ZX)~J9V(4Vl9*2a9s%70LRsm+nLdt}&-I~yO13oxX28is
zbl~x7N*v+o*PM2wJ9#JUWKHO@7or2tA7Yo{MKSi>4}c?!=)m>Ft;z`9iA(?P%%9KP
zWY|PmJ%*RhMTK4ll@kK&8*h6Zve&HhD>0qtS^XpSGV#p73B+`a&+Vygy#MzAa8xjz
zZc5G{OM?_`24i_?hVGJ()uVX%gtDf5X*R9C4V+3$=V{I!zi$>ROTY=lbWW6NEi$_3
zAKsOd)L2&VUO)xWf#*++t+Lyg$<T_VcFeoTj*CS!hz>lT@4NUn$?Ti1P}|0<t}DN#
zp<Wv;XZZX+;Axhu)L3q^$XgPxQMp+&0n-_EZgEmv-jGTtn6ouzBCr!N9p%g<-w`?U
zoc`S7(Hx`Yy|Rc7BeZWZS!t@;ceSPMaF_n?)DDHu1VjhU=jk4WI~2CJFDj%9y-rIG
zb4+WY<qVHI+jiC;{@xYEMYK<2Xw`N$7b7~Gp}sC%P*}Q^zuOV)d&!6nJ>+br(KNlG
zF|QC<vPV|B^MPp~q65!Ew$NX9H;Cl%{nPsXy1xaSR1h6FX9D@H|9GSr7ubh0VLE0W
zONO3~w0prmoT7;~UeM(ZP0k=)Y)ZiJG}wnz5gmBkPY;}q9+s_D0{ie>L<b%()Bf}4
zE)D+d1N-n$L<i3K`wS)g++WGc9c`fxv*oUL7$G|Fxc^djx&D=5fdux?T$s+C!e!!!
z^5byzJYz;}PUfO+4Ycus^O?=sloj*ffF#(5=OQ}rcs>2MQN4wsZx`72dLcS+&U>vU
zWtKcn?=j9}q8BMsDb+x9;CkG?=)}`pAoYTMCKIB=03GjYu2qAX7Ytp&K66?fEoUak
z;k!w8&nsv(j9lIyx5HLv8x_%k=Z~M$TW#TPk4CURBqKU-KK2hB)(u+k$AqZ7<JGQ?
z33A1BW)E`uFquwW{Fqvnq-v0OTo%!R&pQ=|)}_7G8wp^aNkDYqe6-^}unCRJx`TZt
zMeX1J`GAJwe|-tpGoaP8O#ZXD5A5se5gl+p2>gH@FMh>Fer(8`lip=$YhsYyjp)Gj
zq|3A3rAs@nwB<)&SGdW=Kb4rylt%@%bBDumu&*N{I`DBC=5m95mVs1|{rvr>L(1Ps
zUWg7n4}E#=a(TQl>x=(4vuu{IL{`CcPOw|eu`(y>Of>VI9U*fs&|o^7uH?OmE@ayZ
z>S;ZKHh<v0#(s`3i-ho;0!{*^V|}ufX6!kQ5pXPVo#5Ze1)Iqtz!AoD0`&zfHU(s<
z0%uwkFQ1(!&ODE4__+d{VoXPiqyJswXM_D<+ygNky{~L~T=l-cKs_3mjwnY~<Q^WK
zo4{ehbZnkvG^8HclnDCjK8%-h#bZKbkcV+3sE35<_>Nw_KF*WN4ICn-v($4#PvWmr
z0B|HRovc{JBD(#TCxEkX2rr)p6LT87<>Pa<Z4;!;PonFt#B^vRGF60Sf|Y<1is=jx
z`c6vA_7(w07t`sAJiy<UyrQJF;K!$N?3*4Jq642#rvlg1Us4-x1E>2STF$U@%)U~x
z=GLiq$}=`U-siZ)CLlWSc~IQrWb^y#pjF@mVmh%^bblTxc!&Xqi0HuAmG=%!xg|b~
z%mj`RrXyu}Th(#rHfP7Im50BtX{~A?I&jX6=Qr`2OLg{73vC*9+cYCVgXkOu8<zik
zZqeb;re+2I01gFl{=nB4d+#nPUom-~a`yasZvEWad@-T}_a)AF<VA>VRJn}xy@{hj
zyNtXroyBU_?Qb?`$ZWo>n3kk6kSvSn?1u8W|7y?t&HMZg1gG~Ik>6+9X%N>jxUblx
z%96<&scA*E0o%n%w~6(L^}tT^Q_ca2`K;xMZ%K<Tn{U#hu0OEzgHcdDVn;CnI2wrc
zNI>}z%~=MBN>++*Ua}rkXs<Gq#mvWWfh*Pd{)@CIt_6nY0V-t+i1onh#!CaQ`jk~q
zO1Y|*`~6tsbExwf&L{h#4BwfbqyL<`TF%>v)jl90)&n~uKZdH;7CQ_<J(ie`a?<IK
zH=1@afO-g+4q>L{gY(oLDNqjuaovFX;@GAjyFJhKA*hFh=}6FjFp{FnJy|8&tE|{H
zkZ+0T!29rj^uZl>yDGkczJw7SxGxhHiN{V~FVcd(s495p!QCU%bM6NZ@`8HEm`+=u
z&u1_9=pj%K5!3k@qs|a}oLwE{ER5*DIaeGw{)iy1xD)g>t&EosD?wa;y6$WO=qne~
zX*DubiKEYL(6UI_UGP_x;)>|NeQkUwpgd)z=Ky`lB0BK=`Tn5(xT!AdSJ2mj5?($h
zbu-3oyx4w%dWta}oqyEU%dd#nKs{cVj<2Ur4Po`2Fql8Ghz^{yO)ZVs@}EgN(ATOW
zUOsQkOO7S;bL4@(DlwgZJpr%(e3c=CdIB*WsTr<hg~w_;Ks_p$j$7D;+2zcrU@)Io
z70~j5b57m6GS|hKoD1ryM|9x%d?7K5Yp{iUUitB4wcg(O;ZQ^euIHe>ugmG`{8wr$
zE#IUUzxC-NI&eLK$IqvhU3|BC`-#cclwyv*Oqfn`Yj0ET-o;5!Ppdpy&Tu`i)+r*-
z-(>v&`9vW)a6UhkRmm^M7_&fMMu-kvkJfkgUMIcj7SI<LrbAT8YuDPiSvh^QjX-^O
z%)46-FQ384A?3A~6RO=pi>#XQ@=^(y4u=YFe#Qe?N1isteY^s?2aPbD*{OB{ZQpB4
zz9+dX@hd}?T$qmNsf)tIJ2y4Sa*C!d&l`=q58&mqwc6qAiwHiegRjq4rO*Z!Bw#v!
z4mS?4&InED+spfmwmQEu!gStQ-?{3hWti3V+&wJo$>0YrOy`Kpvm|c0$IG{LN9A7G
zH#>C8;^iaaM)q1=(G|GyT8}4y67nwr(~<lt*Iq;ZB5$Am^+2ITXQ~mVlS19MJHV?#
zX+64)^gXgNm<!YSS{Tm0`$td{d&gn@_v%6u-TU$K@zgNX367~K0{0UVFdhEG8yO_!
z-}}IQ03$?)8M+<}nM-BykSpx-Wx2-3D5KVg>cH!mrE~t<6pp90ixWE;?|f(q<3g+l
zc4~Lbrf@Rk?gjTHx@GWk?&^K-?4r#!=bZ3(WBl9}`UFfTT%2ReHj_=n_O-+MO!r1r
zj4+))qRt+|Blq6!P(S<lPhZO{7p4;%)#Elt6!<*W-VpsjI`CPyG+I9J>qJEY-(K&m
zuWP&IR_39@Jouc9=)mJuV5!qIv_-n~(C3J{3l{UGL`<i2dhxd250_5Cu)4c5N$1ZB
zV>;}VrI3BW4bM~FIqkE0<Tp)~Ldys4i*-~t>9ygn?O7}wO7b0gd}K@~DMdA-PRcBH
zztzWW0Yp1dBBn#zS@YE_@yx!N)3>wslbo!DF&#ep(|<%%C33<2I_f^We1?r)m6)Dy
zZ~*t~$cPSn|HtH2Gvm{S>#7{}tNzs8ZJ(nM9eBLxbS>k9ig;zgeLr1Hr}p^E6FzlW
zBaHpGdfHBnW-%c;@cxjrVZ7x$^>wG0;T|EDg)N)A_u}Q;{j#Cg+PhM<@L2F4;<hk`
z1WZTNld)MTeP0NTv}@_k#`=#&hz`7N)c!WUW)ZhN)saO@LCq{>N*K|B$7|rjiK_R)
ziDtaaUR!>hyK6<=gO`u!Iwh0SG;~#X%b4S7jeJisrgNO0A^wVvdb+i>TfWT5jU*zb
z6LxJu_i?@Tn<M6`23HE*_X=Y=9krR=^PX)h2QOMDZ8=u8L6yYIM>Fi3-E8;c(K93&
z$1mqxn#q{Xsa#isao>99>@rV6??DO|5!3k@Ir&Qa)wzd}TEdxr8e0s7F&*oYXC^I2
znt7fqoBYi;Dt4tx;N=tadm>va`+M}kl?+S2hXgJ%rju+H7g}WTxE#D*K*V(9^!uXE
zDr};F`~1R)&Q@q&H+(Jg8T;LQc5t8H714o@Q{uM9);&XNCrgu98pQT4kR&mkFU;@c
z{!!lg{;ZZ-7pY;{m=?zyFTLltc7F}Xo;bM>{oXk%i8dF}VT1B1c4jjF*GwH<@OyHB
zO?4=s9?^mG(Ya@Qxo+FB+Pm!jPqkPjdO{H$_<UhqA3tAW`tN+&y5xJ0CoWmKn2wXE
zk>p+`*@sC#lL}vb{v^$X=)mXYjB|wx{L!3mp0=~8vb-OZUll_eFZg^hZ&USgr|cc0
zvcBCa)gO69TM-?2KA+4xB0K-hz&lvPUZ=%Vgb%eZ_<6s<2&40t{TT)0wy2qYR8b9J
zLd*w#{d6c@gwK{EPI<22?j5~0<3%cBUvNJ5uN8l0lU#4#?qM_D#4Bf3jOf7i#D$)H
zb=Rw|@-R0$_cn1x&nQf1F5w<es}*zn(jv9#Uqx#H5z&F?^M$h!w~ujiOO&l%THc}g
zjZG5MiD<VKIQ?J~y~3}KUQ?HQ+6$s+^AN75sHcE4y{q0(<aoM~QsGvXN<;_Fd7F2I
z{0A@XZ*7m}Pi$c(ZB0OQ;Ck*R^4?X;_WGq<6v;*Q6(U<AI&eKQk_7qv_j~5S>#(wj
z4*WdrVa7;?=p&V6ZKXkt@4I-Nxey)rxeM#c9@2px;v1{XmC{R$dc8D=4xCSR!mcwF
zawSR?3;SQIgyopE?nWDTczyN_vOd_G)VfRJh-yx_jG;&rq67E!eOoiz@Nf4sCm*cU
zWlpR51tL0dJwLyT7*F0-b6ZF!yUsl!38^4Da6Kg=>hg=TzU~)2rfQ2XwoOPPI`I4n
zB~N`!{WZ@892!iAI40rO&&nzNS<k?sO6PP0MFelW*6lC5E9;B7=@?1vdeuLgM8b3)
zP0$4JZ?94ZjwPleC1HE=(~iU6fkVJ_c>j&BE_^h!J9X4f!CXFYgR%=RpZO?e<(=&2
zr$EjmOsAu>BrxLS<q6<eVmdw3D~AFvCGi1=fa#2>d{dyRKF<d^Q-sm-fzR(&cfN#(
zH$R94Id>yE@Np6RWuyJ8-Qo)9D;Lp$_nC9&H4JaOd#1fu?9}$pzqqj;(Sg^)7gwqM
zJ&N&uz=^_iG|y;lt*E=)89!%yPycJvV<SWdUdQs^^c-s!mUs>vE==c(y?4WgCv6A!
z^PGdqk*`I&h0w+w-mh}iomD>9lc)upN=(NgrRw_4-Q5>}L&kLCYzhW%U0pZ|oG46Z
zBxQ?@=*4PN;CNv=AN8|;Z)vni0FEW5v$iX1y(eyGNl5f<p0%h3GYv!so<G~!n20Se
zJ^uiQ2Gh~$^WkLgrV0Y5Uhv=l`G79>{@0gqJv$B*nD>p}x&)k1Oy|Qe8*`>|MG|l{
z5FPk<zu|f!$J6nCDsY%E9WFcW2ETs|=D_I|K+6ZNCwH3m$BYhtFK|eh4&9%kA8N~Q
zW&TAjUR^13I6*{o;PG0!etax9wVe+*!kCT@&&Ya#<hT=Xs5{Z}f$Qo1aOp<+gxv+;
zkTIQt!#d}yYh-<ZL&S7?w`DwvPx8|TjxeT^;U(XGY@_TZaH#xv`IM_M$y>Z6CIW|y
z>FjKcKk)B`NDy#{m`<Kx=MTHs^KHNp#&k9v+kJTK(3?i!P<P<v<L+t5pj~=kbo%%<
zp>39n6f&mMzrQ<c@Uo%~aEO>r$#vz|;V*1HsC|1}N*{gATo}{2Af-JlmJzb5Q?6>4
zx$6Im%7>TF&ywVAzus<-1P&R~Y3FrWyK`~mJ8+1YPEzQ(_i=P%?7$JmbSjSsisY=g
z2?B>oz{@8&@A%oe^YmMRL&kKrCSO+nXcD&zI7Ce6-Nvhg?^O}Kz!AoDGL(ysbPPzJ
z2M(1NFQ2}%4O<Ur_+A7K8PgFh+W+OK`vnW&5HTH6{k2by8%_ei5yo`nrhS69a7k&V
z=(v4rP|Q}Q^5Eq&C}!RNU=NK=Sor`8<3tsajOf7o1m1VHk75d(ZUe^^)44U(^U~zt
zrcU6<Vmj-E(X?vfI!~*EqU&pqZ+2eg#>?k+o$7njh=ao5K1n5_17BCh=|vA_(8`<x
zP6DR05TaVjo5}xQ#}(6|uE`FvjU5UH^=M!^M~{kU9owTn!!0%0$E4F>L_l=leUwHv
zk?OopWhZbb+wsQhzT+Z&rUbhoa7dU=_ueCs;t$Jn56W^I>9q5>TVgu07WaC&t9ms<
z9Z8ebZ*9W~hz@*wNgVt1t9qp(zvG@O4NG>LFLfJQKCrW+`{|pr0@)nE$;EUA-nGT(
z?TK`FSkdIH&}DMl3(<j(i?d}vCH=}$)6~kAj9MlmvUL$1_&&hk_q{zcS+bXmgcJ%J
zPEISyB0BIq)K+`S_Q~g*>9MiY7y7M6v<q9&a)uqzmTu+xL+@%I{4!hLQgbuE7}0_I
zvKZsB_N@CkE&21$<@GI(Zjlfj_<dmf3$^Riz8n*b7gvvNy7gz6jOf7g=kYGJW$TAr
zF#&7!CQ|-u2Cj$>JnmZEmm|tuHZ$InVa#D2XwB3>bl{wYV!cBzEmZ4^hVnk96bv`e
zAUg2<!(Po&Ua?=dn>r$<iKhlbQ&+d3jXRvr2U$8XP2r5EMJF$9A3AbvpdQhIU-!I~
z8oRNm$mzcQcu`KzgJBLP#J=Eq+*3c@DJvwM?Jhs^g0|sDeK%q~u%mq|LZNW}S>}7L
z@&UmbRb3LMlYHQ4K!@Iq5t5MF&2xNi|A>eV{5pt<5dA6peK*^eHka{iWF4I`LUiE1
z{soy_R`WGK=lYe8;|L3{FagtXQ49~YXV=+c&D0onGQO~s%7r$6;Q9QF<=(^h)gQ~j
zbsQPf5t(;&{;eCd16;=uF`Wi;@kBl^4?nNl!8fn4Z7LPUbncXQ4Ilgv$Q@l5PM@Hk
zXhr43%ZINvBG&E&SI8m8h{%+{Dhe6Vf!CkNoxYro`Dq7%6Nu?-5xe4TN>T{``vfCI
z2Of7hd0Feo>YZL~v(M-9PLkxgFrBOP*N*AjQP~OV>E^)8xmNM?cAo3CL7<)lOvfcz
z_@?kjVF|mhx`|$;QcXsfj)=m!ZgNrmMT*N?y3UtgU%3z+_;|l(vLJlkhE)h0Ulew{
zd{Q`OW~NxDHUWo(>F{e-`#SkA(F4a4(^-G0`jdXKhG3-{*SER3@+$$;`7Pm<tw$rm
zZ#h-E<;9sP9|{{@KCe96bx-OTd<560BuppbnpCP!9Fyyh)&2J0U(XF$VmdTmxg|b7
zdV2sk1Wbo}oG*+<hua!B6jr=^hE-+WwcefA0}ct(S+d?MI3DA+9USkLm<}KB5xZR+
zeBt1DCty15J)Hj%E)Cg&dMGS-`RK}&zv+JY^uOy53DdEUxiZOlIk8yfVeQ47Z83)}
zF`cf?q3j)w0+i^j>*WraGRg!@hkJSV0XyLs`(&r!J>JuqEfi+Fd>AM1Z*`a+**vcN
zQFD7tkTMC=F+FuWJ!<>RP2gB!I`@AKuet4++sZb|5?HF%N+2LQ@O28U@a3KBz8Z#!
z{kvLxGHm695gqt_-Xby_tTM74D~HoRuhe{K`6!F%z~>7&lbHC%HT99uPa~0^wjL{A
zWkMS-_<6sNd3!xOJKqMg`iN<!#4}J^5goW5NuS^k6<6%^!1*Ep(Si3HKe}?$uVf$T
z0ge%-6MtlOFzhlnKXAA(9WMI|VhZoQZ-Dbf_hz)5;l8*?brs$tMrs+AmM0X{a<~%^
z9r$`MF}3^c)}=O)kY)p!^<?9xQHTy)&+d)-wam|li#jT@8lDC680%s>IhW7fIPl?*
z52%L;)6xB$DfX#js0`H8%7~Y9MK425dTrVfu+B$eI^S|gTP1Zv&B1v`7t;~nLDkh%
zkEK=B7^q|99QR?ubX3osQQ6VKbZ=|^vZUYhCb?DyynGm*>OOpT#>ueD<c+FI()}+{
zn9k|Uwz#=b{w(0=VmeaHDy+E~%>3TAbN!BqBz`7LXEZhL%Ix3&*~ss;3CznW5NV~y
z%O^v^Gv$%HEa~K7lH<yy_m`s(9r!)~%j{pXhN_V_VB7-{9e7>+a4+GvBkR!`Fzy<N
z4t%_qNfhgkE36NAHrKje-_K2<!E|JI^LfiR3R1wh*VCcp3}5H6`y2X;)}P3;lmB6V
zN;F4^gy_KMuk9~|cxyFP=A&y@!nykOp1UGCa6RWZKL>Ie47r1OsDbFf<E35oUW{qK
z9TA*&m=GO!y#9!6#M<Au_ystvo6vHGol2jb+LH#6h2Xe|LUiE1_J&Cvb4|YxyGQNT
zdz!4joko}rohkpWz#lGhV0|VaI&fbH&#)-#u<o4z>obKGFQ1HFA6@Uj>V-bx`Gngv
z4zVOmhq6l|j=&wr1sqFE=gjxc+fRRomI8->>Ga;=8usj!4*(8@1}~p0G6A1oKPi<3
z4hhp)BG~qZ(9mxKjwPm35+T7P_11nfa0r;r)TD9{%V+ya;86Z;{GWjS*MoV`AHef4
zWr-#F(U$idz#(BeX2<U5h_*JI0*)o7Q(|oTP_8@lK5z(_PMDa*V*HhyX5dgZ@bVEk
zv7^I?&0rI7NSF=>uR^Q6)o)thSYkT-Zq+^|Zk0vAAz(U+O#-1MzwfmHhw>LMpX{VR
z-}dkZzW@#i)5#5*JS(noEFCzOn9gSw1Id#s&t`!`z;v7r$;9%Ua}oy*<quvymraGD
zx=b?HZf@FUans|#Z4#z)*lf>BgUN*j;8<chLUR$UuAwFhz#(8dDr)p|PibgcfJ6C>
zmyb8~<v}6hFD~GaFr6u`*;gxFYz4rv#B@s30@AZL{n7*u0n;&iVmQV&X7&s?ly$s(
z3Ru4VqhnOe1r7<*QE8l5Qsp1}4IE2M=Ur8zX7nqG(B13NJKu2YTq9sQ37a(;G~zeQ
z&Pd!bdDzazNm)b72i`vyN&eILpm>n=afcC?{d<mtTto-nA0~+2Y|p9;t_s}uR)4LJ
zX~7H8f$P~SQ^DeW^~!}8wX1R~mp#oj5FNN4ZWiOeUdcZbY6~b&#=jOFVZwAAdiFgw
z)X5F-+>uk#Z)WkddlfBbc%M+>^k#nY=sW+<(OXVcZR~4Fz;x>5=({=PUwa>a*Ajdt
zR)u7Q=)gIboH?Q$?$S+D;WyF#GI#okFrowZRqNF7j#0<#uv$XB*&DhOmegNp`M}r9
z7xg*$dmZ_u{I!o#4ElSdx)B}t`GlK!V!V-c*57ug?4`XBz&1xf><hjg-1*|uw#U-j
zy}u@x<n!HjuUSB>2hPWy=6z?Ho$t0{YYFZ=1zVP4L<gSFG97-J-TJZOH>VrSO!-q+
z0udd!p2g%dFKDk0=*G~Rn>T%+=Bpq&@OZTuo3!8G;`1<8KsvL_qWhyHq67EEeygdp
zA?|JvSPvIg(B=<(f1az(e^0SUiy>GKR}mdJpIuprJ>eE&y4*jfnd;v@NUp?mCaH^u
zUcbLS0@l?)Oh<sOL1EuSc^Ft%RWKcgN5zXSnrU~#-GA+<H&!FA{zS_e9xuP*yqV{R
z0!+HOb>uTghgItl9r*YP=ys{M+a=%Y)4)G?XK0o{LUiDNC%%haO?F(1;USmYCZ>=-
zzpex#I`FtZ9b31cNLs3c`z<P%&bjsv%mT;M7cT{;*?!C0;kUYsmNQ(>&s2vsV`89_
zxz8VkGY|coDiIxcop0z)e?@X+U<A+8Mj<-zc<r#CTl&t|z5<?0A!0hJr_D0H6$rI}
zdQ>nSqdu)qmc+Affy0IAh^{Ee4ccU9gTAJJpp6%t&zqz;e&c{-3V6P^9?^lvy|lt`
zt?<{dB5*=69sV6EHD8Bf{sBh=(@8F`T3$RB{~0(mn9g<PnC<1&=IX$yUqZ_n&WAbn
z+Am3Ges17|Vmg6Ge-_NNzx%JFf$5BEbLW36Aaa3vXfT}+nJ9tA_qNA?Q@@Cp50``K
z&G4F@1>l5YIu&t*aNY8f|Bkx`rnCLzIvZ<7wkfEG2GjBVY%1gtJbxEB^$U3UOm}r!
ze5j0@08S{TV>UI$b4juBI&d^F9rw0@!jd}nZNQ<ybT0gz<!XIueF-@A^LY6@UUc*c
zn$n^IClu3Z8JZWNiMYH791Tpz;*Q8M4zZ8-fkT7ocuEea=A6480G#^oc=^=WUS4Nm
z3|9h9D5leHSKxJBV5bvsG%y_t(bKAgyYpqhp}}-2*KDIt_swVlr+yAEpN}GaH5#gi
z6@U|p>15Z@IfdpIe*umLrXv+nAh9&=SPUE*OlMt8%Kebwg)HFI&*J4{N2NRoP0L^g
zPAI06r)AL79I!VSI2xD^vzmX`V{P8k;Q0+2OlQl7Opd&$OXcACjrwnR`GkI58+4!I
z^&Jl>y!l-G{moEJ=h2y`hV6pS--6c}H87oK3VA<C=#L<HoskC9xj)SD*?{qX9xUKk
zs&WZtY^$F^%Lm?P#_7G7oN;H6^MC5vIl6mYn}q1V`zYE)dAIwD#DBoC#B^#e6f-iJ
z+J6BK0n;&B^|!Nm;MW8k%2%{};JzlGf4xRgins_I5~fpV&?UAKCw>b!mY9y}%O|Iw
z#a{3P4gu4-ui19xk^exa;xL=&wo^Pjlxehl;OlqhMYkuOYfb-k$e0ez*&!a+-P?vi
zJ+7EeFvHQb3vbejfg_9Qtls;e>!A3H1f10=ynJ5oIA*f*c0ns}>M@<Q-;=8WHak;*
z6NTx}<%xyAweIEp@s+z|Y4sMr5uyVh7geO>ug|X5uJZppe({bt`#CN|2cAEl|2or+
zQI`uDW>kliYnRL^U(j-f>$zp^Q0Z8Zcmp^jOh;XL;=*R8Xew|lF`cshuJGgKk4^!H
zfay4$u(;31-<k^?%4fWMdhQ>nSa}s50UQ#hL%lpl6I{oB7C4re&PL-tS~7cV&vKD%
zZZ^qEoPg;}F?P#JbMjsT4rLNApV0(wC#E<CXW)=9omnqm^Gr4OL%^}bbmaM!cl(DY
zO^Pwee<;1yBTc|`-1-eG9j5N?0uE&YFP|zw?V}+-cjo|ygz239YpDD{tvwMqmY7bk
z<%cv{w>wL~Az(TJS7c+g3gVoBLm9`*=Vvtk#*TIK{lFn%I(ZqX%Rx2Qy@6wi=@0`l
z{*ri`4*-XN>4^Wlxb#9kEe<%8F}!>Zws$4XrnzbZhlJ@2eOc1%WAHx;97{}RnYoN`
z@Xg;j;1DpK@Bf~qX{Z1E0vrkzFP}rl;}UNd^c@51Dhbn>+;+ZN%u3G<IF^{s`Dh=7
zOzyk=z#(8dqF+*qD)YX}0f+JlFP~Sm7gLT1w>1EVgz4CQa37ZV^x!yfEHRy9Jagtg
zc5%(XAz(TRn}3a7Pr8}Gqod>$Xd5_88O6)zR!m6vu;6`O;E*t#^!F|=hy0~&fMbd2
zm?tfN9n?up0uBMwIjrrZ_~yB@E^sI#c=_C5v&dgioyi0a3DZ$-I>f&&LFxyNC8nc(
zk19cF`$Yu~0n@qqB_{J)$+$h(Z%~Hu@_9JPwnCe<Q3xCorqdE}I&`a`G#_v*F`bS#
zre;qL=_mk)fa%=gy>Xf6GH;yrU46EY2v>f}5MDm{K`-WR?mslC(9-kdofz{O5~lOw
z3De@+P!>l}k0qva<^-GjT#`d2sE2^*oPBaq(s2C!1yB!V5HFuLc29yr=_DhlhlJ@k
z3#6;+DTdhr#}d;S9~})C{dO?TTC9^Rb=%+$0-^(7pB|6(8_7GePrr7PjWVIkPo6q}
zmJjS~%@Z<k)Yy6*<eZD>z}LCiVMI~-LlSeKFIPkduBWz1{FUd+US^Q9ETRL~^T2b3
zeZ9o(JIH5&f|t*fgn<p$tg0mFs}j>m$#JIHWqgYVIH8!1+?*!MN6p%LkdH2+1LyO~
z=C+Nbzx@u9->X#J9)k}|n2w^KqwW3!hgY^(ZHTcK)ugxfqvZ@g-{SS~Y}2LIa#k>2
zxrh!te=c~7wT4G_?*ch{VLDqvB^m5=sEQzG6+{QlxiZ7(``9CyJD{G`k7)V8eU%m6
znr}K-ZULU#sYi6+dc@og3vRvF(*oY7A{5i%Tc8SxYr3ZcM+4L8w?FhKg>r`g-tU42
z)3KLQ`XfE|MiMyneP}tu`J~VKG6$Y_OtP+Fdt{lcy*U)ofuBcu@46JZ^Wk<b;22>#
zmy}9gJTE!3?6p}%piY^$Ss2lQ`x5f%3Ow)ZcoI0&4|w@3rS_g_IPmT_aLAZW(lO`9
zd;8qHfkVV}<Qz}Z5wE&k0gf=H^OL@kbE0^V8#vTnynMWwcasa+ccri<TIr81o6eCj
zoo}?kzWJ^{4grUV=?wZh==^gN(g%((rgPn6du4V=y)JO5@A2|k_sDSy9P)e)95SX8
z8GMT^dPB$oI7Cdx=V#Yf9eUPT;0R+nyEeUfYkIa+8aUJ*ynHfuD^P50%+`TJ#&ks9
z{SC}Etb5S1dwc4bbes_p)46YT<}}v<eok;7Nf^`lCK%qByDujQIMi;ud{P?y6lvCn
z*nmUEbXK_At6rIC_5z29>6m@$+>+iORskGgOvmJ~&2CPk2hV^*?ZV5)?DboAYT@`k
z;E*vLIkDs$nR8)l;64%&(-FuV`DnXr+yWe7Oea)z*8vx;P=4T0JMr@Axolmc-s&n2
z95SZkU^nV4uCO^1I7Ccms}#dn8sFjDz!AoDYKVH`CRGAt;7~j8^5IL@JZ080)OS7G
ziQKen|8_E_W4b(*9CqSDHgJfTj$UND>A5deNx%`tbS!WD`^0;7`(EHs-{IwRZ~kfU
z9l1yi;E*vLT|sZX_WJMjz#(Ef`>pbx72eHt1&%PLBa`&#?T3>1VyYIkqT$ijW$IhB
zeBgcW5napQ9rSmV!1L<Ghz|VxkK&&BZS+GM&g{RrrHeCZTcQvhc;EX()Zd+Toxc@0
zx|q%$^T9hIlI4%-YZG$(9Da8&VLI*G+WRO*E{p~#zeh%|9V}{XN6Q)RE9cAw<Go{i
zdBO48hp7e?G*Ot2Uk3NDuzOZ*z|qBY+BBQrR+<?!0EY?FY4<a_x%jQwFW9*2{w~+Q
z8Le%2`HU!PyuCXV#Rck#!gOA)4ipC@`pKxg6znq__3qTgboO>tM|P$UZvpq!nJ^tO
z$+a2dr(><aX>G;JC*u3LM~#lBqk$8J>8$?9{z(;hlmi@HOoy*|a=}L@a4)#8&V=ds
z@n4eP!sE&aoYoe+e9HamZIs8;o&zTe(@{@(WgdBWZUH#Dm`;iO6`RfDpNQgRJX{>s
zn{1gd9nP_NdXv;I&cJDXgO`t=%FNv*hwfv*iNbV}vr_ZF$4k5bjxMHCrkCt{>CjQV
zD1|HQp}(iYnJ^ux!3~2TK1v91TAT6m`RW+EopiYVB5<NGolj;pv~)^r_kg2|>AV_c
z;(q=8Q<xn`Lc`{L>Gzp19TTM=d3DFVj{~Q*2`?X0_C&cp#~u&hL}5DSleGM;zpPY%
zql@Xt+Bg|%JU#w5y3*Hhg{6jr3DaQ_iXFPG-cARc*4KFX7zn#raFScQfD?u3{2;O}
zX})Zu2aYbLGseG#%Xd-00ys>V&f{rDT5nZxap1Hz;^mXKCstjxXXFcTqA;B&i)IFw
z*<afLM;Fu4Q{ZI|EmX4y4ilzxR8l{1@x1Xv@H~HO171ESXTC3)-=Gfz&+|uNI%gZs
zwCS;5?FRMeVmig8C!6}$oXtQzOqfnY-XVIKh))Bcp4NK2d@8d9>0k03F9-ERVLEPH
zhxyJgJqRuJs!hvpvACj(>CA;hQZ8}+&o6!ZkHduNgqz!uEHWnEHRhhJDagC>s<jR;
zAH8%Jjxu}GOvA?MKSCppAyJsl>~$fv1iv4fl|EGjIvF^g(nWOO*S`cTuG>!zx`_ja
z3(<kEn>If0b^AH3atb)zuki9Y)hrrZaGYg-*ae2(<&cNl5-=Sz0m|`V>6vxl7-2fc
zAKa)@2pVVx4i};W=PXk0#`nPKWgKuQwP^XkPK)QAGmOmF+JHkwbl~y2@ZF*4`?>f-
zz#$?!a6J+Em60y&0`$O<M0DVK&M^!p+NsOz0M2v`UOvAbKe4--sT&2HVoYb|igagd
z!>8N83B+_RZQhp_s{6zVI2xEv;h3n~)mD+KVBKIsbm03)0dA*uZ%TWRB+6W+F}{$j
zPN_!A86K~>donkjPp<FHV!eHk%X#eu3DfCM{=3hN?naJj#iq7vr|oqtah=XjmV|R2
zo?!hUAUfNi_h)3g!A~(g8&3e^<%;OQ@6%3W-Wc(2<Z<r1y)$02wQA=A5gmBEE;L_0
z!|fjQ-`}I5i|D}PWs&r(D3Eql7Ch&`gz1=aD<&PdBJK#B)+)UD<2)|EiE+C3b^ei~
zuEw(LgHf1{Y~e|U$AOyPJ=_|qmFtaNbupcxR$7k2Zfo7P5PH7MZLXzEn9k9y-tpU8
zZOyl>_GCE@F1>1fiI<PUoL7m`*FUPq9|fu=)U8mWFdZGyBF9?{8+Bk`r;F+Iets9^
zk<-2l?CY2?otujUr!De<uArXQO1yk1ja{6NnrTmidZI8LV-=st?cp0&ydy$|i`?G+
z)x~tyr*qh!B&!=`<?pxGT0Gy+gz3aAJM<47+7=6()(X6Qo*e1qOqp%j?a;>F>_E>y
z9EIq>=l7*F+Gbx__jjNkBSZ&Y$E=68s*1n;-1uqfNsf|DZIm#g1FvIsX6dODg09<v
zLoLV4hq3dOwzU0+)C(mK`%|=B6v&v)P(sy*_S<O*z#(EfR^Qe38q_|0e)Vwtvg6$*
zNnuQ9Q?s_Lrq;{05CbE<!GLfr>I=Ml+)N6`&hs8u0}dI}Y1`VQ`K8HaiIKKKM7-tg
zZz861ae%!q(eDf)f0nc8{8ID|VN9oVK1{~Y#qmCHsAYKhcwCXPA1l%J@Y`;^CqVan
zIT_PA%DFN_=4Smj>#Il_w?Di<#B>~w9=Nt&E>+#RTjse!u)LWtreo7H>QHUKGWkJi
zE^Ce9z7(|-FP|>sr%SV=bV+}BM2$`n$Gymy&fd9FN{oBKmFTJDSI&<5!$d>}UdJ;0
zGrOl!-s}MDp(LUM|K3u6j+fL6b4DeCX6Naq`<(Z4Av*ALxh^WC?D=VlQ_UT87J*%E
z<b~&WIWrm^YO~DsWw;ft*`knWe7zXafnOK4(<z+I^9;Wa*7+zz2hQ2U@b~k344Ly_
zeKtaL;PXWYi_HL6#vlh+SA`KB_<Ug|tZL_2^{Nf5tJD&_oR@FC5PX@zf9b#LA*R#a
zVMg+j(arwvdWh)2^Jn5TgO{mx^Qju6;`FvLmIe((2Ocl}dAq0Xy%XtRJ!C?3;GCCd
zLVnNtHEsv%VQVp3&TwDX)Vz)*n)lxU>tQaU!wy}?*$I5iXLNLWn{`a>%<$`pXQ=hS
z^H8JL=HzgJ6}Q9(Upw)!GfgDKdf=Qlxo2p~H2<*$>oXD2fpaz&>--(dD>eOR{^G@l
zDQvXDn2zy86$58R?JwX^i_pdku7_@IRNA`m4nJ_nn9jZ2Q+m;V6FPxI#B|c+O}#X3
z=|=!Z7}L3S;FNso`0@g9sD*g>X#DnS-;g=;4>)8@XRY^f)UO$HP2dnQoz*?AQ@?6N
z9f2c^>1?f9U@o*<Y6K4T8D2iyT>jLSei3#D4jI!S^mA$qx0~hzhluH%|0#RD=l9|a
zaD*|PpH%HU?HFD;;7|+j@-daB%ZzH{)`*bvmk{F<pCw~Dnho|NDZVbJ9v8+=J^5hU
zMZ|Q}v-<>{jvuv;&pWaGo>IXpVN9pXJvH!<*Vb0xQ1kKfv9q9$wG1gf4jeM36Z`Sf
zwe55bX22n0I{G!9eTg{_2vmWY6_NBU^um}<R+Lrr)0}8C_PaChdB2nFsCj7lz~>#S
zJ?f6;hR&kxUkq&h`j1BBB0BIof6K7^kEvf*Bye0YowU`XqP~n7BEXSEbl~&y)&PZk
z-aAM3XY`pqttx)!vHBD(AGohwo=lv4t8f3Qz8mPUp?Dmt#B}nU1`6I}4h{e(5Yd76
z;Whp82_NG4ibd$9SS^NR9~vP#a6Ut}&kC-7^tUi}Iki(Sh-xd0=)n1W65-pyY~XkV
zIMiIcoO5n)$NVa{2?h=s)9J7{k$I-q>-Ch|nQe2W*QJS=j>rEz`t$4e<_}vllN8%p
zFZT#zI{!RcAC#%k@3=H6e!|S~dp`9EUOstSbN5a5{FYUCEa>nmhVp=n=)lMO_*lV*
z2wE%0FAogA$>%9^yJ9+}vv*TuzMb;~>yIp=1J9pmw%W>1?Kk`j`+6pHu2q&U<lyBa
zrySjMjG1TeliWqdI3do@#fT1kTy%2pe{|HKdlsxep@<HAA7E+vN6YmKJ#V*`skqKA
ze$sG7bl`fdl9si0`;PE5*+loo$1TOFAUg1MQ!fpz{_^V!=Za?4?zuj2u^}Kj@b5v`
zdnO`gGHT`X=8|uB=Tfcwgb^Kh+>ajb9IpGu_v_AV+VJL%OGl}X(Z(H~&riiKyzOMG
zTm$QTE}{dktJlQh6pu_KENaiBRK)3Az7&e-aH&t)C^g?-i&ZIktR}Vln<b{R;B~md
z@3;P*G**tQK5T+4vWO0xbMQcYU5$SG{!|~i2(dG7iWjoca)zCj$nXwk-R?W!{8fzT
z!1H-fjF$7A_puFd{t88O;PJ|qaE}$rcYpSdH$=Q}V(OYDq67EkY%e7jS3xY{Yq_KE
zdM*AG0nvf$;g-H@9;-da3(j8)kI-_4*Ns)qSm9>JJrvPzJpX8KrRY%*9r(Ct8aqtT
z&VSNo9;;HjsWr-!jOf6932*)Rx=Zoriq#<b6TKpXWgwyh=e*A%apyiRuIsmaKWw`p
zO#f2_)A{%__z|Jx^UaZ&(W<|bO9iVB(Q<~@L#~q@N4&#a%Jq3p(CS%7Wl<0vIG?D}
zoS>+%b_W7kp|_*$uzoS31CLie$C8NWwFs$p(Xox_+JeMDL<i3K+>emNq?jn%y@zKb
z7X4P=sbD%L5etTelWn~IM}js!pNfcB%|go=uE+5q3vIUbm`~9cgFk0Ob`(`2I&jV`
zXX`cU!*i2>lYr^$%YJCQkr!wH99K+du9W>-_&<9o;Amhv+nKx4HPU9efkVJ_(%)7t
z@JD-2n4b#va2wm%zd*(tuiwcG@_jom%K)bs)7f~qLo&ik<P~tdFr8ap8XB)$Jl#9y
zC@mB|QT|#M(Sgr9)k+74BNL6|fJ1}nL=KevRyAEc0i5nkw4C936x(-;@%&@@4jeM3
zGm~h2B+^XI{uFzUZUNEQ%?r_ikJH;HD;);q!=3?07Smz-Xp-Q>$@m>O3lGrpf$QNj
z(u(ugZ9k@@d&e$K>W5V^rc))AAM@K;NgFs`n9gMp=IL&$J(|Fg#dOqWv!0fmXb}d^
zLIz$w^}?s`njWK2fm4j>nCcl`H@%Vcfz3uvlKtsR1uslzIHFSj>ownT(TC+u?!67(
zvWO0R9@LVk+&-M}H59CetLb?8q<ieMecGDP2AoPvr(MXi?9f%7<G=~Tbavh{=Y7z0
zDF`?!m`-hAcV!6mQVDQY@8jijr1LuIYhl?YyN<6FW2$G@D>0q6JO|TMtG-jf3B+`+
zR8%PH&x^AHM+MVSF>=TaX3)-}XBwIO(wlK~^&Vb6f5HsL)oyHIdb+~B%f3KZvl7!O
z`s-@Golfy_M)v!IujORw0x_Mqd!0iw6?5~zQNeT$R@dJ>HooWvoYgeEe0bUVDTXG`
zMu1a^>9F~8>t!s>zW`1kro#~5{v+xBeDNzWj#)QvPHh!Tr<v#Mx#^^xp<o`alF;&j
z*RgE9oeo(lf33hgtVeX<^WfE!nm#rU&2}x?h|V?o{^buvbl~fqK<=Jhbx-!uNQUJN
z%1m)QB_cZTzGb!7=7`R<RB>=z$Rav$KI$jDzgn$`aDj1OO-0KY&S$gz<sY^~*==4G
z-1VwA|43CLI`H+yGdJ!2$UA##w^RjBy9RMCB_KL*&MHBNOFxALUE8P~5>y^8-{FPn
zFvc`KNQn@okqvv+&gA~p$_UYcbN=`#YoLr`%kbPG*-YS&qB8-};eei(P^x)bt<`4u
zzHNAQ_-fYi7!5=RzQ4hAwnZU1b+eP`p9?=5%1pH+5gj(D9_N#t=TD5kxveNZXw9&>
zx&yTyc--4b_jqQHl(u9KhnzfV5%C-~AJ{P!HTQJ6utP0qM)&LVrs|G`6twxw1ofqC
zp<x&|dQNISyJq6<;-U0uL<c@jMI+BfB&hD4ILg;~Vro8yrxMYDbAENOwEE(uD21#~
zX1)yK-1oW>9k`yp&(;_3c*%SQ>oXbAf#;#^>$oE#hAuD5g|`|vKXcsMis-=WM%A<C
zfv0p2N5H>Rh{AL@xBbbXRxdDLRZUZiGUPs@i|KfBe-Lo`cK-%=?wtwKG39w6ka<7<
zA$ab+^)A{xg!37FpkT`Su{s6R6NTvvY_c)-uyL*h_2^<c%;D9yMRVG#S~v(Ff=<3!
zWx{lnZiPwOwv_cOJaYQcQ`-NfH5n}*__#<FI;9*F?Lo92e{39db;*Q^=)gIj6Ic||
z-a-*^>*H%yC$$sFn2xuljFlhxhZLC4L`>&~^?s$N%~}1x5yo`<&Lof8T9t?$;ZhEN
zuKVOTH3=<eI3IC`^i4el&x(r<Iu0~>oaiKDI(0eg7jqtct_2Pe(^+}rc-o=&kAP*<
zjWl-aOMiqhomKvK>^jnRJAp&JgO`uo%|6Gou7`gEhm7gi-+5zdVy&?YI7CdRUW+AV
z`TbxoaD*|Pz-0Q$s{Aj^z@aAM<rAv;`$YbM5i{VBF&&S*yzVJ-M>BAUm=1X%PA$Ob
zi4bsvF`a;qC-1$U>OKJ+Y64z9$0eTkC>uOW2M!t2386`C?sr!o0uB+=N$q|u)ae#_
z2ROo*PTY1@zK0wR?!ckm#><C|iF26FFUA|ZKL8oi;bAqQUD5n~6gWgor^(uH&zaky
z$AKe^>D+%dX~3+ZJqa9YJYGI7R*Wet1t!JU^_>RjMZ&|$m=61?Wv16hAMOJV5!0cq
zEBvMY?eTNq2xB_KeU;%c3rQz|Lyg1Bhvjc>yyJ|~%bC;X_ZGifr6prJ`+jN1u8h7j
z>Pz7<%}@KFL&S8n-Jh`p9sHj1!((+wi&er#7}MGGhh|1J;q{J91skf1ug=p_Z{g(=
zu^#1|QD}arjgNkXrhDcM8Pl;#-|IYLc6|akL`)~PVw@=EKN7Xh|6u2Xu~<c6Oou98
zwNLR#9Bqit;WC-A9gNgiynGl#ZAZeqAGS9TckFgLVOmMXbc`EHZ%ZkCR|XCd(~+|f
zq*V~%h?J~N+c`M1;316ZoM5+#JZPU><js27l%HW?i5i2K&p@>8u1oWmBTt^=OC#G(
zd?O<|@O_)dF3k_p+gT2ReQzkD1MgQAQ;IF_Gjg2)js~WaH<G%j;%wUt92!igBU^6H
zrpRpxIQ7wZIg4&SrQ;g=mKHdnm=5=biBt4b{nedu!#~R6-$-d-I*%in1d@6(Ql_?>
z&pPaMmZrgUC}S-%K5E@Rcxp<dp9dU|s*l3UN4Bm+Kbm=`6@l@>r})s~icn0)^pM%1
z;K1*p?|(gr$ooyI*1&Y?oD<fREKP!AgZ1`$66N}6Fr8hydlNgC4JY>4*+l3``7YJp
z#LI`8cINzR+s~yzZ?0rr*}GFa6w{eF=wG#e)<AIbtElZ^gJNL~L<hbvS}stjcThm{
zTl}Nh`Lo~X!kG{q_;_D=eZ?i_N+(;_dlN&0#^sl-k$CwyhGaa<sV&+~eCHFvzpQXK
z3ekc4@^`Whl{VH^c^WM(rW_QOVua|xeSL~Da+X=BW&SizW7j%;<`fsEvpT#?yfJO`
zXP804M`^Xgt2+WOpJ7|i+cvzWWkOY+w_ej43nySYhQ%JAtxAh^9O&O3vOeCh#R${k
zbxY1s+(-`&xS3KQz;`y63)A6#yQGsZv`?EX*qeRt>H7Ze8)*5!<NhL9e_d|-I-{+2
zxcGX+Q7;mr1CRTkW@b{-*kvz+l*(5En~kL{F`eX;#f@=`ouBhIiLB1=?zJRfI-@+-
z3bNK75bQFA0>9lEEun;?<pcM%W$Qn=oh|os13dKZ<@`FHKtgojoOP7u=nhQS_**Nc
zE)A7Tw-ON@xSn&q`K;T@t!t-RzH42)_kt*l>74Wwl<%6={R{R#)G)k!wm#PW5Z{qA
z6>{=+C*?TZ7c!=kxhZt_==a2y{loj#oa}O<h=>lH^VL4`U`kS9%==e^cR!Ye?UzJ!
z;GDB!lL^PN7!)rI1RNhX*jqGx9WS3ZJAEg7^y7BC5VmyNb=Ofb7t>+=Rl@CZE$$7U
zb5<|;+qjl1rgKx1+3|N=qMMOJcq=_Kr@kbj1Lu6LlQktq(2;sEk1or`aZPz46fd9C
z0tPe2#qW20U(Dgj7D$gN#&l{NjDJ76bL2|hsO+4~w)k-`OlQrJ<0Hp!t#17y_87I7
zAIoGh9gX))rrJ#Mf0iGH_hsLXomsesmJghBPjK5rVCtHTy7XyQq5ElBm52^JpB1l*
zro5HW<6GSb6exSy`7RLAf$M1r+(pq(<LeFm(L-e37IIGm(Shp`ES>somol)t-WT2y
zsGvrn!E_q4&J3iabZi^bl<{1*3D&I-LCYDgXS&p4;o1F~o>9)!@*qEHi%>)d&WC0H
zjOt+}cGj!w#XlMA2^zYH4qVS*5WlIpb~IONNWcc&4$(bKm=3{3wvvtUSzc&e{6)1-
z^|Y;5(ei;`hkf7l#Y-`-B>94<5~V$R^d1S(f%{tJ%Tg!{O6D2!jiqZ{Vdt^LbVe&i
zTBV7@HHGhlS)%K^83~9EJYLEgWP?k2XH}PIe@8SMzNS#GpydPi^=+-A^bBVj7iW#R
z;8%yn05YayYyXU0L*iZL&Qo-u;!o~p6A>M_uj^F==K(Pxy-+sSjI8RDBa(;?+?TP!
zm&%74(P71tb}d~|1|ieIc=@c2?~(1&dXjWs_q(cAWZA7;OlQ1$P4<V?Ax`5h;xeto
zkaSl}=WI0%<?*w=oA+jk65q5gPD>&>aL#g4-%srEpZ6pU#m*C?*_szF<K<(<Piyk&
zmdm=5dKJz5zM7lGn9kpZeL7?r(uv{F1NJWz?|XS+I#)*+%8wMQe)5cYLguHN@{vV!
z;Cwz^vG)2gaFDtGhUUSh^;7p&gYfbRJiyJw!W-jK<`mQ@yEr3ViRpxeC_i)e+HGZW
zC$X|eaF>1{rn9TpSbmayv6J}Ll>e=U*fSMOr{JCZGWqEILEn*6f?Qiwq*nvc@_};>
z@81ypS>-<-et>0~RIUH59?^l1ckZJ*g$#;5Uevk7Cc82az8H$>Y^qY@@l%$(do#J>
zs*mzXf(E9;!ElnXYt^5}=WhSIwC%RdG?<Rtt%DIB-vnmXGTq#11ZK_aFX82Eb+b9U
ze4mneb8TruVE5DIC`1R&IqcWoUAOm{oF7@6e6>YMa7`D}DOp;to4%T;z?9Sb<5k$T
z%S@P#;@5=ceQbetnSs)=1#!t!tpRxX*tQOeng*z@UG^9L@O2BPKmwuz=OdYGcX^zz
zdYJxOa@nqc4>U%Yj(J^U;w8%x(W)0WBAmwBFK{6`@bP6wJAX+}`OD?8_|TmaLwkKG
z{%HBYeaUQ%da_xn=hVVU2NfMQ9UT&;qg2AMY+CrUTP2|+&`0|E1xrK+?n~gJ#^8WA
z*PgFT4N;R1Hy#TkI&fc~zd9d#VHs`NJ0=qJTTF|C>W7z)zNuN_m#m0Snwy{ge0zTC
z9vRVr`^vUD`kHTECRArn!m>bl(q>mg2kuMk->1>N@~11a2Ltzg?Z3Q764Pn)&EPRD
zukK`8tdXe9mMon1Mau{7>*dW80^X~1*PhAkqbrKu^1B$(f&0=4v>K}YVSh92WMW>(
z-@7Van2zc~$~nWvvbbrDUxZMDMS?7*^P<dyVzyD{{IpZTU`ObEn*|@VeBiz$&uATK
zKltd}`K2qDbRzG|6(c%u&aR)z&fL0K_u_y;SD1&^;<i9U2d+m%%a3&4y|()%oqtr%
zk7xf>FrC!o{kNKy;!kBTJ&>~bUR1y8jhD}^Bcjt2C3B$@>AM>RIW1-?F`eRYtqJEH
zhc}|NcI)NJ(qsi9I&jXF+WU&>qo)`-?<*fJYP?R+Ky=`o1%vLX_b0~huyB0+;F+><
zBn_r>Jn(dvFVnD6RmKiG>8HjM^<H>6=XHO!5);f*h+5dpx>cw?H5Ac-^V!t)hKEqT
z>iJV)pit;M%L83R2hJx!z&%GQ^~d8!neCe+=q!4fFdfpPwRAoO6E#1n=NI>+QvbGk
zqU8hkWiVTimz2!XYSFKD-o@@*X#%1H_vM;#)bq<Q{f(8@8rD<&Gpt6K&eeuSR<d<d
zF!$wB?K>9?2e~kvZ^wG|<E%Yzis=wXULCT`>h{3PXWxfEIy+wk%YWvqd%2inzeYlI
z;Cvbu?A%>tALyO+zb!;}-n`Kg)43=0TyAB_(EjtGc^bDm+f)Lg1CRTn|Ja_cm#0*A
zX*C}DVWQ|wy@-|%+}Hl?5*ZtBt3O%CHXh-s^p7B8I)|;h7!Gv@7QWO>O!5n(2of<J
zg_vyqx<+laQLUx(L$n5Z!iWx>59esPLVbs^%Ca2;?XJj}^63kB`J@Pm#vkxCwUmC=
z+j7i-BR&_?seSRbPV@!;n*1eZsqK`-3Rg^L<8&hT=D+XF1T{WJr7;mYBr%=5XEuu6
z=U$a(q-M&QDhxiFc1Ozx&iPwYjaT9?e-*+L>px39{*%Rs4m=NIqtcJ`{9SZ=ER^iw
z6xR9P3)6A_tUDafQJ2;s>f$yh`Po$#(SiGN)yPyIS1ZZbCAj~Y^?XYAsvBB9a9<L8
zcN<QWd@0%Lc=ybjtdCYDrsMTy>-?UCXK%<EtzUeG+ztmKI&fd2*;YoC!)(UyXUodO
z5?+pIAUbegJ@n#P`KFK4Gz{kjPWv%<(_lJx{IVGuscOd<_#*uLYOg=8KaZ9(+?U17
zU{GF*;meDOz3Tk*$)}<a9k?$E4{e$kRe{~IjMtyU50s7RVmcOkg?OC=`d^JVxc!w+
z&H2cL=|t{7(kapTK45s|Qo&R@gH)?4UOrW}J$J4<T?l$~@-R2mhwW?vq66n6bKB{s
zSJB!Y)_?z+<no*?j4+)daaEdVF|i*eAsy;>Rbq~FAv*B5x5@`w{1pqAY^lGxC+*9r
zLlhUZeBi$9;t~yCb4)2UzV@0d$dcA4VLCqp6u0OInawIJ({jBx`payI=)iql{S>3x
z^7r0Zh4=lRf_%1I7Dja7zHZXHbFg2$S2N<_U0z~0aFgncmyeRh_k)x-E6kk42_1#Y
zF0*7r2kt9)QtgZ8-mYhovreT6mg8cshz{JB5S_Ppl=pHiYwwLG5~a$fl9-OOUb2Xm
z!u;g*aHIRZTVMT|c0$Vs?(2>iO}T8JKn<Hq=X2FZto_A^4&2wUtZZ=jrlKE4Rze*$
zv<|FZm`;G$=gpV$A4?5e#^r6@>zXBt=)ir+r#kb`pYs%%{qo`*<6{4bRY$aZ;J(~D
zXlMPt&NEHstz22KU|O%lbh2w@FWn0onCe#IFY#{5rvxH8a9>xJv;Kr|i_er~iOIxB
z4q9j+I&fcd(J^)Q40atxc_pVMR>bIOFdcerF4|{S1(s8@Ws<k`lHS)lpydqrRp~LB
zT)!lm{YlZd+tQS#I115$`#Ry;$W3FsX)hO>WmQEQ*-01ExodQ-R?w7OHBKHNQs3tD
zGa))~Us2o6zu>#xEyEHuQfxjq`=i?)Eg!hA7$WbByY;5Ge#uH)A@y4wPQY{+6YpJV
zQtV6r9w>F{(nZq&BSZ)8i&d4x6j8BdV{CZyYH?Ab83ECO`?~&QpQh6xj-U`is@+Cy
z@de5`ynJqu7G~~?o^7uS^ibbnc&dzq>BN_>s|GL1@MY12eR&^Jt!jzr!1>U%=Pw;I
z47Ssb9zOEr$e~NZhz^|3FOya4p#~?V{q*I#MHz?IsYJYd{)!0HT!=Me=)0`mwNqPT
zg^cLHeLdkA)oU`jVB4%Xqf?q=Uhj(Nz<rr-ni;kZcxN#i_vyD(2A8@dro(6<S0gGP
za)oDGzRA&t!(r2QX!*c>CEg6Mu}~k$mrXnD{Qq!v-~U+sfBe8jviHpDLK&f~Y?6_Y
zt!%m^Tu~vBtVBYRnHjE-otccxvPV`%Wn74iWF!>j`}zLx>V3PN?+@Q|d-((Ix99Wm
ze4TS%=Um5iz4Y0>S%%U<_BFt?nCv-tWme=&fFv$Ew%;Ansh<&g%2aVm=Br=$o?CNu
zk2p#P*_VaD?iGnGnz8nlKd~-316sRw=<-4KRUR5h^X(Je`HIQ0GlTmp>@|?iOVv(l
z{RZpS9#wO8N_8tvACwNVFX2gg+s~6ZK~<BAydRWD8C6j_$iBQBswqCojL$Tze^kCh
zMQ%X^=`79P){4<^ZhmyUtFkTlL~^q&T+XMpR1O{7NO~p^NoO6Vbn;gaN(Y&b(IwuF
zyvzZ5z5RC*n0sA|+9(}lKHf{=Ysda9izV4pY^4yktH>c8UvgZJNlx;k2PL;_o(&m)
z=(ItX53;YBo$_TfvcPY>jW48pVq#ZfP&&xI_y<kQO1;L7XMMbtBTO;$MvzYL^V7Di
zPs3jKW~cleN!gsFhja|5PKCKD1?+Qb6(9W)*=jOi4VTXc&5`?!;|1dW?c{v>f7_>%
zQ98(c1oMxIy^F0L)GsxhX6Sc4ZvpAVTk^!#`26)I-!3@ZxEgSn9i@Yu`|7YD%gH$X
zbrNgE#eO<RYJwHIe2{(JGt$<fRQi1DcI{Nmn?c54Jfu@CF}{{1?_+Z-kkcZiS49;I
z=`878{lxbD6K7cTs#Y4w*(D65^W?hv8+J<i+=%y=YxOzq=MgN?<%7(*ZDKv;h2i4V
z7VTASp|NAx`6wM^&JD(br9#H$kC?w6X<|LfJC1{NPA}wmnwt<zM;B6(p6Z4j7DDMD
z`&xMPclg-UdCAYDk(u>a&f#?nbon6rDrj3L_E+^dRaVQka;Aaaw+zxrP?FfdrPF<;
zHs;yi63|U`N9iE@iW>V|8I*RRwdls}(C3sZ9&#uhWM4U%uarzH*YJ&!9P`%BT`9Zf
zaQR$h`A(h~?s#YM<)e14AE`<;C>>;9+dunD>;86bIy|Zp(|jdeAB56D_VwxSp;Er?
zR~Ad_YS(-XqB>L|oe2l?_D0Lcbi?xrR7I<k>O_!EH#Vm<(>37frINquXBR8uo6XSW
zjLc`V*E;ZI%ET>u!2<5~jPlpvC>>-z>$XGsAF6ZTUfvMd^NKO6)`oNz>v-uF_FaFT
z`5=-Q{e`2O9MU1xcIA>Z^t4cyTnr0X&dlh%gf1UsU*E~*7>bUR3llP4XxR-8J_(0(
zGDp@N@wuj~_2L7ZuT}zHXrpwH^Sa}v@h)~tkvH+Vo-|Q7iv>MO2iaGl;%GSU%@8hJ
zwx-2$l&kN+MYw!^9~-85DN_>Hlo(~2Wpwy)45XtlQ<h_6C{^|KRq`r*RgR|-r1M5*
zx1p1|HRea*LYMNaSsgv3bD3#-P+l*yW5pte;`-D?=71?&K9Mt02|43rISEh4zS>9*
z$;LoBUq%MF#kY)YA4{LbRasfQGlF!yNM`!<7bFg!c#9b!r!@RV59uthGi*q8DODO5
zJU@NW`cvJ230yulcDp)0-t|X9kIUrssjq*Dfpkug|FG0aeN08#w!7;t_~(leq$ACE
zbb(*Fz4CTTk7c<0wHSIxr~Arxar@*9e*uH*S1B1D6Ac){<zu|5aqVM`8RuL3BKfxS
z8~HJi4&4K*J8?@DRiRI<KE1v;e%A=n!LHArcG0`RcJ?DC?}}s(BR!-;q;BsglZ@|u
z5!m-Jjr=&*fDv3i@6(m%2J45~mAVY*5|?*`V;~*j-G}pkIzz1t_|0Q^m%a!YK{^3T
zpXLY+^I;dA3mb(6lCIN3IzH5@<=W(=5zo_g_~(~ZY6cA9^0Dl9-p}9H@5Os3oU)4J
zbB}>^x*};GJ0&d%rezbIi4%QmXawox$_`vxwr*?>&!i8Y3pjQ_59ugwYaV2W&2KI;
zy-2&l=Bqwn0GAIB)dxdqN-N_tHHSxoI;2j<Kst>+%(L0SH9E4&ywaDXuYWRvbpAX%
zLH^>$HaS`CG*x7^+7Eh2$AdKgOVYg+q27=Fz2{6hga-8C@{tW1_K{eNP*`<WPZ64Z
zx*r4S*m}zx`%UM#`|_G3Cr7N6pb@0g;hpWG%5*}}zHfK7`zPH|dPv7MY<>PDoqF0=
zS~g$Nq$#BVJ-B>wSn@?ZxZS$vc#g7TR`i8qARTee=i}C-ti@edsbmeOFy2Ox&g_Y2
zig&^~^J&{SYfWPw|DlI;uz%Aw^IuV3OjK)&a&*+S9=HIP&nz)}L0N85@t6;%#I-Go
zuoy@ukI8NCyIk9I`PX8$&r8h4j3AwP5vE$*>U-?h?oediaH!~{hjh|cj*7N_YQiPc
zZq_;b9qAg-MVAlqdz)Wul&|DG2}tDpdHzP60F8Y<N(XsgP-=74*5Ujm8`5Q^&$11h
zX6`5*<b461TcFU=HyJMAh(kKt4<7Y~?qltNv#x_KA7njchW@F+LcS_nrMCGw$(90T
zkj{+qQBUa=n|k25Lplr>Ps}lC=o|x%IHa>KDDJd+qPz$=>)LSn<flIFiOBYdeQr6?
zIp(*dUk2&WiiTi+lTcDkIQj7e>U}%u4(Y5s9c*VS5e)COj!4+%w|^-P=}7pQlX?#-
zSOaHW3of5>`$skRs2tpYQwHe>7WY!xQr{B-jyt5&dhh!=g}+Aoz!8UZ4$EQ#6}{fi
z0cZU@Tt262_T(o%9!UXC8Ke{Mvj6M|OOq;a+##Jl9C^b^=I<ZC5r=e67${z;&YQym
zXI&F69}B{^bp0%!DR9alotu6QXDc)}qk-cN>4bl!31dr|EC7x;r1M0WZ8ORz*Ah7E
z8gTiP98>jg=xcfhoH9tq#fc*M=gr33z;TCkCf@ipv5wxZ0**MO!>nn|@apa7lfYS5
zhs(!w`qy3dE1`kFDT8#*9H)NbEXV!tyy_0=d`wc1W8?461oenRIuA?KzZJ-ct^sFV
z4KAP2oBd%g+oLLgQwHg<e2H1>306`8jyt5YlOwHLDJUF%f?VoD<-I{MaY$!K!|&+b
zLD?g~Sw9Dtk48np+fZe}P2iM4I_EvNx0S6=2>{0((qU|#zp;})GY=ebNQeF%Yu2w%
z$C`k%t_qhAbq)Qi6{S-}V4qnA={yZf)>JpD`U@O)NXLyN!nxMBsS!BhkWQmeuJI{(
zi{bgD75?f0p_l7t;qs}9<2k!jI;sYoGDwHMx9dxGeQ_YGmW-p1t<Quzq*Jizsql_a
zLkb*mNJnI{usZ&^^fGYPRp9bTdbEARu86oAIAxHIv2omm9?q+*z;TCkctR}cnMspw
z14kUvkqBvIw;(z(3!HUj$b86_Xy{b=Jb+UM>C86{`^GCIoCEhe?vT!(%w9cLCtY{o
zh(kI8YB|MsE^Ge<&bks@K0-Ns7FB_*_kdFd>6rTtnFU-Fc(~TC%4*)IOXZHzK|TlY
zbW(iKOdP^}o7j~-r*t?%4$@)Gn41?;k<pL2Yn~u%LC!`5=`_%62B$uGosiNcJ`gN_
zoVHUDE@#o=D_NNtpST-{t!3F?-IfYR=^*o&59!g0)cEUdd+&bICNZDB5lRR7TtZ>f
z)cV1f`}RQ!v)?|cH<i&tIu%z}e+px&+`B0=hgG<iat0L8<%8^Nyg-xkbvpMguzr#u
z9bpgOBga=3^1%ARLOO)Zpj*F=DSQTV7eeVEbLPsmPiV?GtHEIT_XJI8{j)`Rbon5^
zU)`Dg^GAjhZXB3<CrSrd&xxSgi^-SI+km-;LpoCl)WK6zy1ZcS+9)05+<EUbKjC(L
zy$R+{59#pvU*Tdi8xRF^AD2UyGqN5(7Si*Ek#+81?s$|AGH06O`|q~(2TQ@+u_ztn
z+@tO$jdGWNvjyi3Rg@00uUgLd?W~*(H?V%lQ98)JbVTY!bLkw8sz1Fz9T<w^?36{9
zGt&9xA2g6qob}}2I)ro>n`N4kd#YTdI|lQ5Pf*xsLptW6*Kd&;7OsJHNRHA$<~+K6
znxv2QGYMFS12X9HK{~vwr|#{0oL&d(Fd3zT%$fQ1^9;(ff&bQ_1xg3G4p%}Jc!;^y
z|6O<FP&&wZf_!wwgYFN7fVuCUL6;BGsi=3+-1BsQ0p?YM(n01tUr=JkN<B3V<`o3#
z<de3%?iqjK3+APb(n0ps*J?Z{a7vE+-*F1*P`}1GVb<1YtxmkBPh$GS(J75CXJkGM
zd2fDY&ea`&dBvb~kbP~<=tvb6#`l7G8KHEL^*nfTdfng(<9#qMc1Y(#r!UXPl<#(6
ze@Kvm%g6iqeW9<n?J~gJ^HDm;eByL<2$OE6Pr&s8htfeFr>3_Yj@9rh-vZYQZIli&
zXAj8<qfQR9PhcI=qjZpc$yi$6p2`(60qbW#5?#(nM_X;SK(-`R73?=+P&&xI2*I4v
z)!*ZU!RJjDC>>-ySI<j)rv6d(Z{Na>(m~dvpXT+8`*BAwSkD9rbon41BGSSDyWjqQ
z!FtYzbe<Cp1deV0{&ya8N9iE*IT%TB3@h560P9d3rGxB?PUO;G=@$~aU>)v?qss?b
zj~EMc@U_jT$Kdn98k7#Qo@0iZ_7%?W?7;pf2&IFphr^)Yqq_F`*;>OQS%HV)>Z*{A
zXk*Ogl2W_+xf2_LCLUp=M37ELk_|aSS4AW^PMc4|<*XY=YqC}E;suV=Ae0U==dVsK
zWOX^h!~gbmC>><ZBS}fvvGcv3<IeO72k4zTAcu4=FMc0BcBbY5xPEn>LYEJ+ubH<K
z$;V$7h=b!j2GWW4IvB7$_MsD8cPvmk$b3GWJ@4;bQg9y}U+j>MK_IQIm#|+3SU=-p
z=<-3<)7O4Mv0uX82dtlDlnyfI^G^B(rFtP^U|v{Ar_=0)?TH_BN?=|>kj_UZ{US}w
z2L>>&by2u{vQB-w-7d|{2If@;>4dFtT`tX}7X#-pcSz^bFX<Pjv^@2|+{GcC1F@9*
z*T`!1z}(kG(B*@iyR)?0ISbC!o8Y`rgVI5+!^PCacc0Q@_Q3k_LFpjt(Q#9>@Xb4L
z2kS=_(kbM<y=r~q)Bw1?lS4YbI);Ji<ZD;JIvhBOE@xyul(c8dbZ;&`1lRW%lnyeV
zhAKjKi(fSctY-_94zix5)+<T@Du>#@dS-`oMus^^dcVy~gX{9RFkC)%R<gH-^SEij
zaghw^ocu9Jai?eD5;!g_P&&w*pFeB*$ijH^E?CbPNGF&x^jll2iz8Uii$dt~LDu6J
zxwC0bn)VK?!!nc(a_%uH&aBE|mrKF=affsk*V_5E%5}rQyu=}$?(Tsn9PL^E_CM=_
zaQUeC5UJcf^G*rOs|M1M$<`^tipA}Mc?Cf_Up;e7KZpyQ1@qEI=^*E26#uU9E^Tx_
zm=`&u!!4r0WX|`J6U?hq0A0?=dYo`CANd>4%Yx%89HoO?&ua|{%AfDI9ZEBPAVc~$
zl+Fm!Ddy+Hak=ZK9;~kmRph>2V@K&A`%-xwYJS9jKN-|Bega)S$i7;uBh?==pV9^O
z;88lrdJ>-S1pBTwMS^;;C>>-yNBMsB*>H{4fqH~cI>>s|G5xOhd($jtl)3qoxVUN;
zkE6>6=}=e|+6+s#kOL<l(y?M(GfdvTW(XV{q_fIJHS@Fix(9HCAe{=0fDPk?N?zbB
z^26ohn4I%T#ZejqoP0>9bo~lWB50}yI5<eBTU^9`B+xn;I6{z4z7KH^MWgU5;4JdN
z<+HRhXYi-w&{g2%LpowcZz76#qK{kEQ)gQwsFUGPI>_I*vYg}?4N<Oq>`o@f-6YG_
zCWq2N9v6&<)DC8)g0jH-Y`eU0`S3S?oJrxFj|5H)r1R#M%CK6RU@CBYAf00;c}-}y
z@G-!VgLH06v&=P5wBdlWi-F6>hKo;q*m!OnI5m(?Jgw`^4<1=u!0~}}%6NRkT|2#!
zfFlR#TrK@u{ysc%130_K;PO#&x%&Rq%esH>nb$x%@<x6^d(&3=pdKGc=USI>FtwXa
z8F1tvo#_xYPEFBs{NVk=T^_i6CiJhI4VFK)4V)TCC!s^~iDrOSC~$lr9T)1hk#*w8
zQt<wv9Hi4d!aE}3T$>D>U2eF1lnuRapYF%}`@f_bNay+=qa#+s(a!gC9PzEZr<r{q
zotUScNp1p-#K4h*bR5f5*p24=g@Lon1(#2<J4+bb#cSLIH9~buHse+eN(Xt}$uf^N
z7p?ssH!wTh-A1j83rFc7uRHH&N9c|cbYy{}4e4|XwM0D*E%F2oIiwTr`hLt$a#$5O
zot$tv-}(5)lFLq;4>;kFj=~sE#fJ36DsZ$R9rcL^B1)=HKLCdu(lJ*5lk@rk*A8$x
zIpFfKC3v!_$VbrtCmhmo@NsG!PcJh7jy9x|{+X_Hf#rK{bgn)BtNR6&<R~5F{Z2)a
zN93Lf=PYmrj-ty4>C|w22um8=YX?p;q{A#EW0-!jmlrr#NT)LYm&hSnW)0v7K{~I(
zhDTfKULOX|Iy+oG`Gi+DqrYK{fl~wPs4c`jYS<|NP7tKi^E&rxbKaGI^=LynL{H0K
z9f}Ch1NG2DI>}=zO^Ny(M8FwmgUea;cXLO8SOFt=pC6CXL7wLu+mjuCy)*hiv&SM<
zmU*ZH3+aT?``5BqyfXBAqOM5Lt0uxgI<cp4p2|~iegTKTiY^~yUvWtrB*dpGt^o%R
z>DcVt<5yu0+XfC6(g`?okoS|ssaeH^_|(Oa#AOVm^S5a7-bO0H8#n|OxO`aejq;hX
z=zak2^W!0%YtQeR-jeLU4;(C{vlmM7yx8gXzj`o`jwPpFbG0|?8Bh;_87`lM-!mqd
zXB#KL`}}xF=jRm*rXm@PJaDj(j-?|F!}l~LJK$g-ok8^@Z#w^;9|aD92`(RBdn>nt
zE{3lHuUP46t%z;$kWM#S_uDnEp()^CAsw+&vgh^U=NN&5fpoNFxD|#fOUi*mV1&!(
zc7D7D)8dD7;nM!UgZ36f@Q}`FqwqnImW~wQU?Cm5Qe$~i>YpEggMoBjE}hOQQY?P~
z90CJeJ{79CEhgEkW|wJWTF6A6rQsnRkqUmI_Ptd<;9w!02DLffTCz|Y;9wvfmZOR+
ztEKy_z#-7X<&(|rqRZEB-w;vbX}C>UPm70iG^^D#zFTFOW$m2lYrXp>6AS5lA)h@{
z;K-Yc`PTGT=LWSE2GaR}`J24iztaI60v%jF9X#bstl4Tgz`;X0O}Y~$4ZCuSBrXEc
zM{>^6V<DZwXy+<EgA8`yU?82*{t4onBhG(-L!gDr$8KH<r+L0812}j{M_Zf1wOl@2
zBw9T!EcZCu5Ejz8nLAovyRAeG91NtRm2i~j^YV~2a0oPT`Q%pdu6hn$dkq{sr1PFS
z)BI77R|#;ikj}62g-JUO`+p7w(%Irnyk(zqiu8-e%hwGNkNpYMaQXCBoIF=naGD7?
zct~fF-$|)XMbRBNSV-sU!&~WRiW5Hq2LtI$2!-TR^*Ja5hd>3FkLDSxulGu20)T^u
zbT;Y5ys!Q&6b23!(#hfo(x@{~#sdcf>DWH&Dk7q~cO5tcO1OMZ4y4hHsiiOg2M_6x
z-X;l%_>@2o94w^sy*+qjL5`OeI2cIh)Lb~{UgYpK;1DR_@>$+8<{+jJ%?A!1(vk1r
zymVEY{0wlgkWPGJnEc6_>#u-=fpmNxVeHDA$E|@wAcxCG_p4IXiR`o!z`;X0$1aJ|
zoZ`;o01g(?c@yWzlRoA`01gJyF%o=&7f@wn0}g=<E}!9G?A+9vwk&Y)kj~#w6V)PG
zSxMkvA)V~;gT<hZTO`22Ksu}b_iUn=q8|W<a0D)&$?kH>M>X9}z`;X0c2VQQZa*;8
zz`;T~V`t9^OuYZ}?>vuzbhP7`el+>T{X4G`Na6AsO5JWFGxL5A`ocpxx0sUF@P|dT
zfP;l}q$kAnGd*`pfP;Z_o)d|=P}Pjq0*7!IE}!74>u33u=Q@CchjdOzE!tqCB{9Ik
zLOPF*`I+DAcKZn&45X9c`c>Fid@2Pv1QNJ>Ou{pZ8w@EZfP;s0QVCd$?QCT-aIlch
zYFMtxSJs<qz`;N|G@OefKa|P-0Ea*fmyhq3!cYY5>c4#g9@059XxiG_eKrf!gN1Zb
zaEp>{uJdca!9Y4Ewt~<63Y$Ly9Ks>Ed?xuCSd`vh|F;jvLpmPCl&r&Q&lo{HSV$*G
zHItXL`Mwx%Fp$o<TXO!P7IS^TArQgklOUt-?L}yD01h6~X&k%BoGyCS4>(vzhdrO+
zJmvXwe89m#I^RvCo^>;v-~<lg;LpMT{UiGS{2@QzS-gAXz(hpt-+l}a>A3CRSU(hb
zTmjUBg>)3=IPMcin;HWL1L;WlQEyj96`leP;V)c1D|b$aIj_9V1`Zz5q5iUe<k<fB
z2jE~K9ZA9PCwl$a|MpQBNGDQE>*rT#(|4dA!XLPNcw{JkRd$H|w?Bk*^o(ih8n3bp
zf_ku!&c+$ub`6s$PvBr6opvv_A^y?6Ip7fX;qtNRuYK;PI{DxIDWvlyKH*#0@#lV&
zjy!#m1o0RwN(cGgMd>oX2UdB*3OGWLPTG`Rw#>BRAaK_A(B*@yr)wN{d#1EV88|hN
z&X;jTzB;=2A>af-I=pOqlT~N?UIIrO(#d*zx`&tb#WZl}A)Wj2)2WC0j=KS8{5M?A
zw~9-9lGSF<0tXN2969`u!|=K-7C1OahdzjrU5rZy2OM!o=gjqizyq0`8sO~yg3ITM
z%q}z63)f8GG($QUS&AuSN(Sx&Cmhnro4b|pNl=#)I7X08Iqr*8L9a0{aM&Roi6=9M
zlZHP&3be}_9~ZuvLfA!@GjhKXqWntaQizB>aPW{$QQ(Hq&*LJ_Yo33!^Hu9jv5-#P
zr8qB%p}T9q!9Y6iiF~&DGkjWsL)d}K$5pQCbZpuadf?z8ovP(%8qJc<4B%iP9T^_t
zFSVCR>41ZQbi8hJu33IFI|&@ZHe5b&f_&%wxDS$mgNJl<ZNFdrz}?vh94w@xJ<6lc
zwOacTI2cHWYT<`+gIne<a0ox)@-d=hxSLP3wG13Qq+{{+aG&-gXIkK3Asw3U-!uIQ
zEQf)Efpp>?o|VkgiEsxFVGAyw#P&{6{qGb}z`;X0Kcc^Sd%2}t1P&I`DUf&?aQOai
z3~(@z&Ns!wH}rdSyMaUa0hiB2hM2D>?Y(2b!9zN+9k&>5oj1M%2Mg&~TWRzs_YpFI
zgMoCsqMoF-WbXc(J7E(p9}D(Zxg`PHZ$UkHNXPCvb$$%#4RhdNA)OpEo=7D&>*K(|
zKswZ)-Fn*tvKN6v*nrEYb58W-$)BE8z`;X0hv}Qn%*+p|0|yJ~(0!EJtXClS0}ck#
z*<$vztrNZZ@3<hW!{zgydhEjm^0^RD4<6DnVWB;h#&RDE94w^s&`bAgVb81qa4?Wg
zlp+<+*|B~_;1Jf}@?o&xeOzY$k_|X`NXN6~&((;7zn_4Eg><UhLtict4pxDKfpmoV
ztkT<mYNZ2*@EtB6A+Ph*-oufFz`;X0x<-5#=?kfE0tXA}4BG#U$e!xb0S*SznOE_q
zf0}1{3OIySxO@hFQP%708vFtd9@5cCiM?u3SMvfmSV*VD;iJ<QU0xh;Fp!Qr^Vt9X
z^M>-@euMB0E+4(JXZdWAZ~r^KAf0bl7UL!C46Hz3SV(8;W*pT|DV<#4U?3ees$@U=
zmz{0EA*{gV!!m-i9(uL*Z(evv=Xj><%THTmf}kEOq=TcE{;(B=c>o*?q|+~sXPR-N
zwFM4g87`ls=k&dNnI}SlgNJl37mPnC&a?{z4i?fO(vFo-U77oLzk`8v&WK*I8G8}7
z4(cH+!R5mh)t<@48T@a*froTX$M{Zo1oskyda#hrslnPS4|*v0fP;Z_Xz~<)D+VOG
z0f(>%mrwh*llM7Zrv3m99@4=_9oKABw&(#47Si!g68pMz_}g>fU?3fj`*)h`W)4XK
zhwv3HACgn%cTVIxaRCPp>3o|OqZAM6xDOmGq=OS1nRO)eX#fWU>9qEWm}CtJ{i}zt
z0GAK*<6m-vPL@KT9z3LT8~Z5pz0fl;;9w!0iBufD;cDl<>nR4(p<67;wW!kmcfU-S
zhs(#Q;GK=6!8vKr7ar0X^nP1CNdLnFI9N!hzKin0tJc^5J>P(I3YT?ax^XwofqDpE
z;PMH#KFu)AJxc@}Jfy?1%CVv^q^b-YETr?4FVP|wyI=ww45VW?kk;AqRMZeSggLl;
z@S_aJz8+Hh_q-Pm=`_~}<^FyZrv&Q3LOSw|PI5FKO^kqpfpmm^YdkD=8vO76YZfk_
zGk$4xa}NW<Ks|U!M_MN6)%33UUEp9LosplTK}%7d6TrbhI&p8)#ffi!X$B5q1}-1<
zHSg)9M_>4XgNJlt{j3|5$7N=KgN1Y&l(^HCM#Q6mgMoC0tqs(yzKH$1uOtxQ@@b94
zPTFRSQGt5!kWMo9V%UYuoPVDeU?H79b{&Sjb1!N@Js3y_Ti=+vD`)WE{rfarK7Zw(
zjVG<Weh=!wLps0SMi6nViT=B<#6mg?o{k!tx5CFkJs3zw^{%LG?@Ws$a0pXy`8<7e
zy*{XS@iK7mkdDqY&E6kw?SId)v5=0pWsM%sWS9u32LtK!Pv)FCS5$ZhID|>Kd`@cm
zo}$oFJqa8<q%)N3db&>8eFHdHNQZ9vMCAushySkckj@CMY`HT{@xS}83AlWgUVIs*
zQ}Ztaec>UU#S2`*k_P$z?SCMhHoG1dQ!e^yP!9&uiI;Y)PT)B51UQ7xaQUq4v;~R8
zoQMPt9@050r+l29{Qke^{8&im+r#AVB9q#!pdJjQ^TO?Ui$v+g|MK|+mroamnL-jH
zhaIQ~59ugqw2Tx>lBoa(3+X%zstjXI@Ecv%E=YcJMVAx<=_ID=Z8aGO<^qTC5iTEn
zoyjYU(S!dSJfu@%+%(!!UN{cw!9qF?{OYGO^(Z-kgMoBLy?!;f4RX5zhcFJ8&yD#o
zeH$LkVc_5)omwZMInq0hV!**dIs&ihPrjG64+ahf(&2h=(R=+-TLW+iV{rM<ekG=f
z7w*#r4j$5>W|NbceRo3*I9Nz$+wIR=j+%5s;9wvf*F`5?tG0V7Pg$IQ-2ALBM;L|6
zN2mSw^I6$yN8sQg9m=6AMh!Fkxxm3fIxV9VRddwW<AH;Lbbh5*+*vN87X=Ps1TLRj
z$D>K!mHlP}4j$6E8_CVhcuRK#I9N!Bl)I+z3~jJEa4?Wgq_~XjUR|pva0nmZ@*ycA
zNh&zw^CaYI<FdLX_6Z)+>6Y26YHYy#0uC0^$sul0i@8+tQDuDe2DJduEC$liJ7Rm<
zSvj)dclp>&i*!R0!Z5mgkndv~@gAXRA3tKAbbX5Yk-$gqd`Ra6#m3)cUlHoZPM#04
zLQ`1XAsrLLP@Ai*e797WN8{OgY^UW=I>`4<SzD`li)NV5=xTK@_}LJqcZcBeF=;vK
zSz|fJODDa{S{kYB-Hg&f)-&~GKHNsqbSi4*kK065ze5m82RW~J4uPfZZ-3rQr5O3n
zJa}EIjnYBZ!|;a5XDNMa7E4LfteL%cf*jKM`j{rl)tKq=l_q~<RtuNl&OvlJQzQOw
zi6T*;Rkw|O@#F|4579;G5dunw0^!KsH)Gz-+dQuEJtIZZt&a_@gUqM!Ow&hu*-}3L
z%1eGkB_rE-l=UFLSN744%l%22uITJE;{K8b!v=Sh4zivKuAI*SjxxJLZ+7t1rZ+Xk
zAsx;eD#M4Lr|R5~O)2oZ;61cHfNoxg5jh_tof)z}#1?#x%iXhou2-}ZrGxBi%VUXd
zllbw(fcXp2iPYYZaFh=6cPGW3*<{cAc+xs)eK|+LKfi!O=^R1y<+^j*>GzA{9nTe(
zCk+M)Y>iMl$i80Y3)AqeTelqa>0|B`+_R&Hbhc%f)x4=w`Ct9~{!!}H^xQx{x_Kej
zq2ku3_4~!?d|Xv2cTUf~?ZKmTkU4MqzHCxhP*S_VTYNRE%Kv8&N(WgFxpGv^r~3De
zf-hy1v92kPjZiwsde-9^6l$do$;5HFKOFtQ8z+v^LC!17!R>2^#G}%pkufS=jTi6M
z-=oVJ=}f7!-e?Rp{`jMvlp-OdzM%}#Ny<rT_7BT>P;;-Yj&+1t)*aG0E|-*4Vnnqt
z?d-KMVZs_G4(X6KlC?7LOP$`j*mRH~r7gbRhb|xF+^6Z&G7iQ~pVgP-wUrx-Q8lA<
zkU7_#<DAMG5j0Ua68bRFr*1q5rGq?=4btqs`Qr7w`74K9_5stnngvP+d0qCn5aV<=
zF<Scal6I_nrD!V#rGxB?+qAdDHY`UIID}qwIU}8y;}LeF#Jd5&!9zNael*GE8@iGM
z2Mg(Bc<dM^kfz-M4hGWE6C#~_pviO;ID{U!eByov{m93DX$1}*(z*6#ksWLHJQ+Ax
zNJn3V<6gP8yaI4AkdEeKv+E2#FT#LB=!VN@UIBL`OK3F+ICx0Mf~L&2iivpxI9Nz0
zM0ry8nT>J>a4?Wg>HET5llp^E;1Igt^0|Iv8^?Bs<pOZ<kWQqL`K_JXJ7<A|g>)(@
z4;@;_3I3Ne2GR+^ydYi863z$p5IW)V=~%Ur`6*ZX?>vTwbV{(95*2te8Bh-v(m7#y
ze~M4DDh)UoNT+Kh{@2N%)N$YtI^gn&O0)h%)JvQP96Y4ss8x9IyRMoVI9N#M_;u<;
z#YabXfrEi`W;df>Q*Agh0Ef^Hmk)oqVnzLfSa;yyA)Vyuxh0FDqy^w$A)O;_m)+-=
z4$6Upfpqlv8Qgo-3X5jWsLLfy@`n-H(B*^NZzN8sklfG^z6G3oNXMtp_xF`_t|8#K
z!#Z8=MvjFae)Y8Jj4t%{`^%wpko)<&w;yU_%6o4+{tS%#spy%&j?y7R+{gX6cY|D^
zP`ip(ZF9(|^g$&#N(Z@LrGEUz&n{#4$>r@qvgFh^t>dle=7rpkRVLBmJ;}K#_#);4
zY`@GkC!=(b^^o=Cf1Ve1@a?1@Q1N%IR=`0zTMtC@*9GQ!z7c)IMu@J?%As_SeSI$S
zSf##Le<5hyQiY%%6}I~hE}w-%6PJSD<;UIGn8J+tc1_hlIw$L_Kbb#~RDUqxV-~t0
zknV%hLFPRB95?jgP2n5%P*xoqUomZMlnyc<>Yz*Pq}T3dfa8K3rGq>!R-#pkL*<)z
z3LC<g%Rib~F1|&VGxE65f1>T|#v0AnDe_EkgtD@29HoOi{|LVO>DXgwoe&a5`kp4J
z?i?PagUmVW_KlTG3vKaTNnHEQd^PXfQ95*p<9+K$MFo*_+T4nZv8}~7zf`pKAaj<o
zDox~)yP+XE^=jPvUMEoy%6gD<_k1>VFl6m+`-7EZPxQ!cs47Yad4DSM=i$Y|JNJ%N
zPi*#MRpesWQ98)yt5l&`A3QUoZ<o0pHJ9UB!il4Fkn?iJ{4A(BCTA`#xi@6cGA&Mo
z(n0p6u6vZ#l9^9<A<634gT9Lw##_*>XDY<pjW@f-3OnuCuyM3j*l5O!izprBygrlv
zeiOO(SpNOuH&v%f=9GMt4)VB2vP!)x)x*aMu3zpb9b`R6iH_xPy<w>Z*DrBM=MOLS
z6HRd;HPuUp-uQ~*eb$@dat;_ZX0NLx@wp%tQr*Bqnn;AQ9^~AKtf<`n&K>`HSfIz2
z@_5$LILdmEIoFuvaJd>j)}v&a+h%oVh`>WSw$DwQOsd!4FP>*Q#$>TEjzj4n=T+f(
zg_OB>Newtckd6Qk-YczmP(n?>hRs)URDQ7u-Mo<X^ei@6x<=lc#BwY~RNFB#<fC+u
zIs5w#H$KBY7||-w)nhVjFmZ=;@X^jcO2XdT9^Ht@KG))YM-HWf?2A{r_v`ktus_Bc
zZ6VjV({AoI!sTQ9sl!r1ol+h=@2!D!EFX&NMcZvzs|SCncwKaM#Rt;KzUy`BZZz8}
zNz}sy;T(P@IY@_BVa}Gj^L%a!^TU1m&=Shs2Dp4?M7qM3rYK3er{2_2(LM31fpplW
zI9(QRn-}N{tVz(kd#U9E=~y$Yri{}5%;vGvoTkHlk&}aT%=s=R$hU9RPBSOh&fQ=6
zx?7JfALMbN<H=wod~ZUHlue12Jw3Lq8Kr|fAL2wGiyDS&nVea3h!MOreK#4UgFG%Y
zKGPVs2G;G;?nynh*CeP~Kswte3@ayE{FXYY)x_<YdU@GVI>^t_Vs0_?93pZiwh_E^
z(XUrEnh2$X>?@~GWPRDk-6Xl({V+BqcB1(Wx_KcT`DX`rtvVS>jUos*3Ln$7AV}vh
zQHEF-f7fvxD;)8UerHxyNT-KxxS0^?$#LgU*G7^>sx1+uV_kGTZ~m^2Dc)OH>W^>A
zujV?qe9n3p%qm&95h55~2Z}Zs4hErgkaJ%;FVxL9z^6E#k-_lOXC(uN(n0Ps`-{rD
zejV!L-WO@o)`))VFNe}W&YkQ)c6CuCu=e=0GX*gfu41<qE+2W^woAq!Tiom$krt%~
ziKR7=4s#;i5t;mK+7!7)%7LdmEk2Nr^#hCfW&v-k_3Owy&X6ONawr{S&VsGZl}8?O
z$Z+W}Tvc*!X&^`GAamyU9$h1OuJ|DAZGx$uFHL)A4P4G6F}TBVlgB8ro9@N>7r7k6
zQ98)`xDGchmB_Jpy@)wlnRl{P?l_bVvah<i3u{k8+!;ILTD`Q0ed~l!I>?+83gzC$
zo6sHWSL1!q$)<(htwxs*58{4@^PEjqWrtpgrv!E1HCmw(Jj!~I*RNQzyjW4qYi3vl
zdo>#0yfN5(dZY%8r38d(q?L5Hxm~uOq0I+5FO8H~Ka=Xg$+JTbf@rG7E|8<_3puZM
z-@fmkPJMyDT1FoqbhOF26J^fGd13Y<S|7|(zuWpj6#6dGx+xi@LyMT#h0rat+n$y0
z-Yno(X@iVAn^8K*eZt-xcUu$jvvXixXzM{f|JjsuF|K^7{E4@|=li4g>-cb#^&CU=
zr8Tcu`EI*8iu2yN-)`~Kv~not#f5P49nBlY);i7}sQB0B<R#u4K<Oao{`78m+snwM
zhYMRu!TwsgLotxfg^RB=`(_xc1Z+u!|FGq48liNM^Ag_MVtyMU@;S_|HndS|Koae7
zfn0}UE4=!=!wQBIo#{t6_niySo;Q&BZ0|5-bB&0}iY6bJFO#b~*Pxs`(h<Jys9W>-
z$2H@qXFY5y&ozBeI>_T)jpR$bQuC-O(ZZ@i18uFY1xg25PZ!7FFIGEc^_yDXa{}xS
z2<(uK?Y&NIcgggAY}RCM_l?a%<FC=3pON)E6=(SSP$M+x^}GZr73+RkGNcn7yxR50
zM9O!xgz;fhB1?n?N(Y&<Mc2tggkqs4?cZ)ZOQh--<WM@~h~u>4`rh&qNq_{cgG0xp
z(Mp;)N(Y(GnE6V^xnes9_Z`|#sjeME>s4?$*ZjE_+pNfP=Ap#Y!)(q<*D^@wLej*}
z#wnXSg~joC@-#OB-60*b%bT2!I3A^`iz&xkCBAGWj?zIM@6p>w7j&QZer(?q48sxP
zpAw;TkU1v?$d9;_S=H08aIy5P?6@|+LYFfeV(u#piK%B8sxKNTe@<bpkS>PptLDgb
zwEOLuYL1<Ph8y`jKCpes_jzZ;uCQ|R<~|d!lhBVu+ZQsQM~la%-IF~+xyFfU)kFsD
zf>7pzbZprP#nt06jt01cMbYT}HdRRHFUO{}Y^&@{EdeKjm)2S)Lg^s)b!K@rUloFP
zPJr`sXC=D1Bl{BPl<uwF=)!>Wb2y|!7M2vYY_qHl&d=JAj<%z7)Ns3F1UNsFLpoxy
z11=XnU#$n{=gtbaeDX#Ix>qm$HU;PBa7f2G_pja7n9)^RqG$?I=NKw&ln!#gq32f?
zu<~$uqVVQHi*^B}J_e<OockQ#y<ZmTW?d5zB%TLS$Jhzw=<-3<!;^SCH<@mE%#)Jj
zki$314>c$q<bHMg_;JSeCy~XaQ)FV*Pu?))qjZqxRgurQ{1#{1`;~vDR~v3z(ey#-
zAdj!@!4GMCEdw6KQsg&_E9cIrqI8gb9m4*7miH!rrOf%ORyDsqpEybfSr1K+(Q5cx
zDkkxI-m2uQln1+I=;noVDpoPcoh<^1vA0|}+gC4DHluWq>*r>Yt5;C*%FE9VR#8^(
z)y#t+o#$0Lir3ck--+~9m<_(6eXk1X?5Ka|Q?pYJB|LkmZXm)QN(AZL8xf8_S`a+|
z_EF8H=yFEpW25V|?KalAGawM6eRyAcEeO)-O$rOJ*PLO!uuH2)ru<z~71CL{n*Va;
zK6y`+A8tU+wEip+q$6zh=6pS-p@eVq7u9jqTTaa-=<-3XLrLEP3C7dSHsrAx35rj{
zox)K%$ec69v}JM??oD4FjkIUtJL#s4(m_7Y9Q9z0zrMb4Ef9OS?BRHAhB!(GS<g(=
z(RkALjjXgWu?c6GjQH1I!sT=CDXzeVewM12Xx%U&@5J#Mln$~Ur4%pnID5;WZR#=>
z=jXiRJ}4dJyx1(ii{8(vsPrFXN)V7cN3V*~LDs`_Dwt37ChK|8wYSml6BxsYARWFR
zemiFG%sFi+H%CWb@2fW#qstjt56vxA+~+xtb75MA8zUa!!$FWvOUUDsgP)%X1#b_o
zPd!%MQH69&C{61>laM^Fqv?w0auiM^Lg^s?KQ7etSj$O?Lw_%bWdH1_PAf<2AoCGC
z$8h+7)<l9Y<!`~wr-~}gMQ}N@o|ol_YPN8^^wZGv++(qcAe0XB`aUD}>FL;xL5+QF
z+be=)GQkL?gIv!;>{z$`k;=c+qe@=y4tMmhqjZq@-2G%o^(*@1t9pL@d6wNK(eXmK
zd{k8ypD^(bYY=VLweX(t9!`dIvM8Ca{x-QhSKm{AaA0^*%>vTdAjWICY#up!@{MmB
zQ^IL(c1Xu4D6jv0iZa(>)@;2CX2i|o1#tP?TqdJ<*T&1AINOZxlTh4AhIBkCRf80o
z77MjCm4w~B<|-{99V(~Uq}M$(J!ByPTHm%Jb=e`Evt&N6?XR7y5)qcOEWYxwd^{g6
zpTY+WM2>zwQf<kRVN?!*ddZMZki2s6oH(mjm}T|jr+80{1*Ah`yU=f5$6=MDS?4Lp
zrNP9G(m@{Yf;XeaNDQiDOIf%51(TGz7xUoqY21<B>YF|PTXkba!?yKDPd=n$tz`G0
zkjZt8S3>>v+lbN-97+e-*Oi)|uAHI<(j@sVra$(HU&^6$ko%TU18!^*sVC8+zj9}f
zGo6UQpmb;u&wp6|n!fy`M<~n?#3xo#yxCVp=^)RCZ^xZ*Rk<=HuG)GUF<E51L?|70
zL_HaGr{i>=WszGhEt^&@Oz8NabddGD%d(K&7`dP8VeHWVt(MXdZO%yNCMI-}$CPgu
zte@RnxOI4+eMWD?q&a{1g?G$^LZ5mKq;og0#*EYF=cf;5173R`;X6Jk9prVe%;DEp
zEz%HG@IIR=N(Y&b{vpY2Bdrr3fI|f7cn5H4>*Pl=0H^r{T+Ye!ez}CmFWHfajQ5mI
zg#HPFbpD7dly3Q$28a{Q7HdR0{!m5f&?DCKaht@dhcUD*TU|U&ZG7&sJ}4dJ^MpHA
zd@Uq<a;iG#rWL$n8tHK;9pw3EN9^Zsi@Ki`9WoSH(lh4dawr|-`^HcBuI{oaD}}x8
zpy*aw*1BPY(n0Q5&kmg&{u<(8<0!nBdWwr+jn+Y~!)ens&g7nj$4NXK69f+*DSDLk
zARXsyUdt3Ab?+)h=b6mqhfV`I=++_f^Az2?q0c^#r$k}fOZ|h5t$aFBI>_U+c{e@5
zwo}WviAL~KztYJMF(@76^ST0git2!kK%qF-gtv3aUe-924l<u%#_WeuUyY|%$*OLu
z=RX)1Lg^s;q8=z##+s=M?(dONwW*kftY@Rk8M&UZVo?vM9^#IyR}-J~VkZ<eqjZpc
z&3+Ajy`-M^9uskMjO9!|ZxBic`F{$z8eMCLhu>?fEEh2M(m!e}L+K#%S?9!CrRiOJ
zz-vKz%k9-vlMhM<nU8f!JWGn*o;7&yLK~%ntY>c9i>&keEuq`R7l*HM;Y8?BI>?;W
zj3{prQ_Fm<uaUc9@Z2+KAPe2xk@XOL^1s}D=(ry}G4Zu3DVlT1C>>-y(QPJvetl=s
zu3t%?8V`N?)B>f0tcUy6oo|0qr0F$?ukt^SwGhUjbddG9EORcNCj2q*&rF?bze{gV
zc#bX~<ayOv{o9^s>Dqdpt>pP~<8xAI9b`S@S=CV%iuup0T)FuU%T1BuQPzXpXRZi%
zxhBgSDz!IKs{Zb|V$_V%`G4wB)~=0a?5}z_U#5<oeCZQ}(m@^<m(<1P)Rii4e|k)E
z^cF48H6xS`vK|WwPW6P2%7fpBySZHTrqk&mor+wesnu7de5wwiicv16wF7u`b4S*L
zW2AT(#=R5O^`#;;zu}fw45U+)&iCVoqQ_0%ua3*&m5D7zkPZ>PvXEkWD(}+u`t#S^
zsif&qI>_s3w5!yQ^K8FV!b|4P=sb0(AxG&@BKBin;vA|<tv^r&p8h^3XGhROTMshl
zpsVCG3)>wkrxfHu<`idT2Qtyk3;BN3j#}px;%U~~J987*_Rdq^aVYyj)^l#xNlK=A
zl;<-h^`cn0b+-_tqbxu9xJATNuiam_#=wQ~+#<@pko73Y$IsvDE1B!smi^K}+Hal@
z>1>BbH@X{Gw`d7F#zp(`E8!p=CX*{ET&bQ9u1V0#lRbCD3PC!0ziruKzxgrWiz^ZR
zweNIeF$3M)k@vZ4e-CEvrEips1aUtVEu#A0*C3#Ckk=gn*?j|TvDJ8R-vry2YRqDF
z8=HO?aM1RJocmi-37=V6u_(V#gQuph;%xaS^Fj9IUM(W{aH2mJIPQ?ncH(oU%XE}m
zz>$M=*tkS7N#}^)1BVFG=}*2DJx`n|2As}xxViT=%FAxe@sj{22GVKoapR9TuRCbG
zoz6qXsw!lG(m~E$zUN0x)ZQ<f8;AXdf1j5iutPda+IyJhON~ad!KV+b`8$@zpTXtR
zaML}hjrFJM;#@4<=1%H99;JiqD~EMiJFJV58DE^_X-&q3!=iMM*Ds+UH6@PaC>O8R
z2A2L}c^wOs4zeEFuYPlkd@ZeF=U-_x@trbfhjhjhnW{=pguV%6q+*=bC}JB=gUeaM
zp_Nfk>Eiw8JEZu>Cx3_GQ98)J%3Z?tzB*<4PxI}@+u6Ko!=iMM`#OtQp^Wge8W*qf
zQZ>J}(UlZO=^*Q=t5bY0N_zMZ?qFHrbbM>#dMdhnkoVnv0#&wmEyt$utyv_#@pOZo
zC>>-yq1mcCCv~q9JtXlI)swuw5Dw`irJT2$JRkp=t75}kcu2)T8>NFhKX=~jG&m&~
zXZ+gmS+}cHK?glb2ie!O&baTeyIoo>?OEFw(d{Y&Dd=)WI_ci4lU~zNExJFRE;yO!
zWyU}{C)2j;BtPw|<b=MMP{-TfGlFz<@@|H|dhCz$@Nv2_f3(Y=9@5dKh#aq0-(sU;
z>3)NwxNkF%j4mJKyi&Bjg?V4TZ<TVVtLR$<qe(JK2bnWZ9Nzp|q`l;Cldhjdmp;~5
zKst}E<#DT&zumiQaKF{+!GZ=mq;vNOvwqs|PD_tVj`fV@sc*)U(B*^dYqD|ftgED(
z__p@3^9^q(IFlhAeuF@kh~~20bVl}XY{tG47Lbk`IgQt=0k;#2D=jMJn?$+nC>`Y7
z6^<<k(XD#zH#h|hc&=T(OGt#vXU}Q1<95xfYm7P;V=p$Mdhw9XnKMc6XQrgmmVO+H
z{ZXa6fQ5AKT(RT#GM%Hk$C~40cTu4LgVJF@+z%dNp<-wues3@*Af$3gdL;{OJ;<Cn
zg2X&Y+AcPnj-{k~Qex&Wgt8vwI`jy%l+LQQw~x|w7{eI-Y+ZZ`H!o_l+an4BN14Oo
z|GL!r_$1{+I%AGquWz07beS17DSSWr#R&)La1K9fk@|o))R$16*U36_UI^0p@Xkv9
zs%pPnKJz6n&y)KmiwSV~%m-f@r>bANlK7<i>dhYI^n6I?>610@2{Ohjb?v7W=NStz
zI7o-RrDNy}$%t+Hb%FT9w1eJ4kWPV48IE#tUc>uEWJjX|+l$3`xO_gANf(DJxp#9r
zKMpAkz9y3o>3qBJp0`e*mV>$E<#!fN`BEIDv+o(xkZm?kB#q-dcJ{45y%40sAiSqC
z5EAjkS|GQGVtx7hVjNsPVw1-=7Nu<>>+if8BB?A9%ZGH1Q~j)WCkfX6Dyk#o$@sPg
z2kB4`Ra|me!VT93P<<MqRSXq^bjI#e30Xy$w3`sE_(jX!J+v4LmrqDH!-rPiy62>U
znthGN*R%5>9pCcv7h+YFACDUF#$}ZF8RH<Gv&=!)IKHg+s{g9AT@WLi7lL#WD4q8=
z-2xjQ<#R?}aK<w(#=zyn!Ex8nR`Tw=^x5m>Ax_py`H;?lq>F8EY2smxE0UzPyDcg>
zNN3Wtc<mKEeT^SMvO@;f`br4WVg52fwl&aO_xp6#WxetXgvDsMd~k1S)J-N__kHh}
zzc|$wpPCQpRFUO&Eb=TReCbVZE0-jHhl6yOTF59a$lCwKH1ORexh5qp1nHc{;HKY7
zA9cY0*|f_!`{?`P6S#bgNH5Hk9zP}%RL<h<@s&d+AJXa5R;vkN7&SHOY20-#I?afK
zbbk6gdSNePqe|}f{@0nEJE205&Ks*tsuNQK&zZdm+LFJewHKq{@-Z7bea^u?nDkAe
zVf=|Hjbr(cPQn*qVwu77-U1>=jQqsp>~N6IH8-#F5|hH&i(Fa9tP?hagdiQ#UmPha
zm+cfNtnFEIACvxBd<>UQ_mv-uW{j_I0Vf~UIsGVA(?;47I5<ehgZprXpF~0taD*V8
z#2ybrrw8`Fz*&rh%jZSV{eaNLH8<eoLpokF-$(<-Y1Dv&gLEW95~U<mj>Z5-2-4B+
zkkl=w)|Lg%;v=|xNTf;4ROhoDfRhjDJjkYhP?UG@6*xFZCqHf?eqXcjJ8*;`9a%fi
z!CU<=b;0*TE=IuR6CL0GTkByo5!3W$uJPjBi+q$0@_A+&-LH9OHT4<b_@H!<_otc3
z0b*xq^<M%<71ALY`<up{na2(sa+D78{nb9amwjLAOb>9@!_nn@9C80X?_l_zFUgk6
zp&=)(^W)XvPL%Z^pU>;*{_pN0qYz{MoVoN-<PEcCln(OyKzK4Pz8Hw12|UQTcl$ut
z%?R!KLC$Njf;vKPH|{X_{jV~V^&p=o-28}{Y{>n2y!^wFMeFS4F?UFZ<WQB2@wp2h
z!TZnRkWQy=(ySRHQQ+Ow<Fe*?AuDL-j_gZ+a__sYa5Ba*aCk>sa^ztd%JqYEcG5Tf
z1LS@rrSX+H8`M}{affuu#dm#79_hJlwBujSJRANd4(X8al)uZWQ|plm7Gzf(!xgWG
zp*t>+eVK(kP%<MmpB6mr!t(p$_1rR)4sspZUa}X#yDmMr(Qv0XaN|aZ4@w7F&qY(-
zD5^FYPVhT)a*&RHPB07gMd8$=4GlNUh;<xxAHwBRmK^S&nmE3rE+rDg%qNgn1L;&-
zke2lve#8JAA4tcvZsLo&{gc?quZ$ul4%iJjln!!U={cvml|E+eTQXpEEbh$K5<xnK
z{d$Ynx|OnvrR~nTpEFqP3`LhS^7{29xIw0)Azjn;SFEwaDfawiln(NHPB!&Ues?K$
z&<1_^pmdPyuz@ii$B(5w$N4fR<#UUypBzdD`CfPVhq1Spc6yKZ4agd?P8M*uqjZq(
zbu&|yN3VC;(17pz!lHDLeMwc}4yWc3u7LM9Fp!Rwe{k%1c~=5(2oKQB9a)cOMsX<T
zlNfE_;31t+Q<<=av4vbc)($0prC2^JN(cG=;Y)`uTA97vq`sqdePW@T=0PYO<neV_
z>0xXxUUCh5ADT8w2bs_4N4nV7XB{m1ueS|qY!Z)<LpnZ+HNF0mbvuOETY0Gg!g8G<
zaPyL{9wOhd7>ec3-8wh+sjVa&rGq@)o74|C(G}FpgZH&8P&&wb)I0e`6vLb~n%10)
zFaCV#$qwl}wHV^B%JWPD&Ui3fK3Vz>zJ0%YtlragUAuV2FgY30iPSL=z4-Tz?k9Ye
z{JLn<B@2`eGG~pad6-uICbH0zwyE*dH<N@=I>?-tsGk?Va$|L|p17TP>IU)Z;(fS$
z-hAVyNr>W-SDYr_o#E+m&PVAWkFTDM!DY8t9m|z>fBczFGD^9lbddRM-V^aJ5LGh;
z@B68ubddRYMJd~@y%-b!tY~y5!)dRO2-5LA%b)U2=@%<-nuFkSo-QgQ4=S7wtSlq)
znIe9n8wBZe=-Z@I)QfDt{q97{*2~DO3hDIFmf{8P`=n>cTp8-osmLNi=^*DGJa4>A
zDo1t}IGy*<<%4vL#LcgpDSlFSOMMU%d03Ps2Bm}iTv+CP(Kc=Rt@-qKCmAP~b&d|8
zbdc-EQ+4PXegDbzhWW>I?yaj5XzM{b+h4csgtu!O#DD$3x@aY-7(vz(H6LG_(3~N5
zq=X6QNkeT#kJ3Tz$0n0~hSEng`sR0r9mSVv&aDTcn-{V#Yl&^LazAbfrJw9=SFQbj
zmq9wdBrn$FNv;|g-L_ixefLGs9n!IUS4@$^a(fWGUndUfi1QS<Y&gfdf%l`<1K{%c
z^2amytNz^(@OzqNkj}jF(O_H2EI;txjyp;Rd0sue9C$IaXfGVRx1$Q_*ebUr7cy6J
zA3WR$*nZ`pLyyuyuAe;}K~dw5_6^_+_`~Jwkv4{}QN;KFCkE1?sqhS3{r!^_I7X08
zRpzm01L7o)fkO}J#FHFQSHz_~0nUIQTs~#TB^nz)lrsY-2GaSAdv{9LTT2r-MvzYF
zw;B3lRFa?1g%?MAtjIs2hjcn_ZuwF0L`3klaSc)2T~r?Mh07<##@P0u)m8Tcw(pW`
zds8hjC>`YcqH`r(w7k!_<wnx!#c?EtQ#h0k^0>gaF>Q`Wcm%k33>$^7tELD+I<|ua
z(quGibX)~g29F~jDlgtemk+Wp3f7MT$G<Ne%zGte^SUJ6Z${}LpBwuP-BHF{ULk$_
zzyHi$H)Zt5N9iEXV}WIZL4pILdgL<dp+{B4c6?Ae|Iht<Kx>*f)k^`e-@u`Cko9mc
zG?={V_&5dj8*(Te<o@Rp>lqQ3aEm;!-ylNiAnU2D*?pb&33JpwazRjNAbMrM2i@F}
z>+s?f*~NPsLRMhk5(DWl-43)=T^Wn#H5U#DZ`JQGf^>9GnkeMV*Pi;f|3T>>^U=l0
z+1KT%F@gOL;SRcdkd7x$D`ma`HMMVHj6-R1ifS232buFIan_;TzBD@i7eBp6)BD=o
zA)VNaY6<R{$1z|(CXUiUuEY92rqM?V7o#e;c6t>qq*m;Dqss^Be0!>=e&slCWH`-;
z3p>g9Rx?TmdEWT)lBZ`q;(~2P-0kYXr_bE-Q98(+OGk#={(5XJq-b3j>rL*C!=ZGL
zbN4=<&NQBDGALj4C|z;yQLh}N^TRnpBZe!)2JCyuQ98(+_YL{uAC|1DZ{B^Kq`ojX
zG~k79UdZ#Iptc1=j>F@_;JIHjN(Y&<rD(g}+6BIU&kutj9lCON5!N2c>Jq`O{sX0(
zDyopqV!fE-R`*5CU-UtZO~;9@5<xl@zK+*sT`sAB-y3bdjV@<oKJH!DuV{_=2%fz?
zNzQP&fG7yk$z^ulE>a27(0Z+OIdj)*M-|dBJme&G@oY>yaEKtC_S*zjp{{&);52)}
z<<m`;k!Jhj{deF5K{_h&igDKs6}W+;3hBI0tTX6-)5!@OB1lIpS>*NQKiW~R@2t(_
z9;r%dzJ)Fy<neCb&GwQs*wv)sy`IpGRxamoln!zoR?P*meX=Sszu%xwBg{DZRvV>*
z{N9YTU)r~vevlR=*WO`C*1oaqgVI6Pv#O(eV^fFhk$&E-HyZ(V1UX3Omd4saBi+vQ
zq1xWj(vn*)yB_FrM%FXHLC126bi8t5K2@MIIF7Rh(z&8k!kxFn%_Mfvmc1|VN6QD&
z`N6-lH(Nw(SGPMRUJ^;kAP4FEy8hT{)|Kix2WzCGzZ+%it~*>l)y=wsJapgZWVUoP
zsY49XYaktBz36?-@;W=`2pxA;spMcENQY1H9Fx6O@}!!EiiI~%>^C_`=jWivUm7W&
zTJ>5Zy~xSGCA)5L`8cgDy^=I)ah@W3yF{9re5eM}NgCtR3N$iW88(;aI9v5v*9X$s
znq0oWxLq4+U?!;3>YBtS2kBhD#1$J`LsRaL`QO%O{JPTaO}Kn=gEe2Wt#(k!s9KGj
zw38UBLFpjxPrpiK9ewpB>=XF??iiE~@_6^`fBHUn*x%|@A+y2BJ+V|Hln%0<^G)??
z6~0eu{S13lxVaPtgit!jdV15lLxp1~3l_p}CLK6y?k(OxmopRMJuBY`*4WafcunxT
z<Z_VpP#6mIKQntgbN+Dpa?Fs&uU(Y&Ag^Ed=fiqcYrnnb4UV{~?Lb-6jM72oQz4EE
zd_t7{_2kFQ1BLGN#2}OovK~x+bt>hAq)%!Omx`eJ)BD;e9b`Qvm!4~;AAL*s8m&XG
zF<=}`4(a$EJ^NNNTC5WM{(I+jbaO}6)0=tdbGY|nzuW9NTyF-aT{ubyna}AVx61#+
z-kZmBwSABOGDQlNWC~>#l6i~<GG>;cfs`mAWva~cm<k~o8YzW@CS@whkRe48GEW&Y
zh3fl$JnmWd_xSDi<MnVlxA*(r`~KX&)>&(>{oHG>J)C{c>-A#lQ`9*8A9;P895f!&
z9mA484*p<0r@2|gCOdnCksv1~DZ!w*L3NNXEogOA;0SZwQDXUFJuNk*9?^aI)Vo>*
zWt-M>F*rGBe%`6`JzGWRr<S{Wt*nAv@MklEoF@0Wow?_z<@MH4Tsl?l_Kuq%=kOpO
zi`%Cw^X}sxx!;|7`LX{9vHZw>+vjE~c6e7Mm%m~~zQKtMf}ATwGwH_%R4Ck&#7*wq
zabmV3$hl}-f12AQ%~K%IatTv;wxu9JPO448YIDO?^P<b-L`@IzIrQ7(%MUv4J+&{z
zE(|@a_UK!E<T(AVD>(!?t(%t&oIECO5|PoGw3%|o*n=QvUEo^nQ?6tupB~zBYsN8s
zSQRG+U8li5^GCaVv$h@UXs!u~VcJE8lY_n|DJ`R*k%>-ucVI)FR8~xld7T}xJojFl
z`$1uGu=@MM;?eeQxswSvIcPk)<AW8Jx{N*M8t=ZDyu-H44kriw{B%Q=-FKr=o8|K2
zYxH-%Vm_*YlY{2@eEb%V5gsO)m&5l)Zs{gS(h%eX#a?#5p8D}32fIt~<!Ax=%ES2b
zjQ(BFuAS50XQg^6fzv^dqn_j4O6jJnx$~U}i}l&l(X%)?==&(1jCB$l_ifw-oPL6w
z@19rX8Eo^&bChlb@=jJsHsj==>)qplzPjmnkv4GB2y&F1x;iMdM}?m0v2NFu8n?H@
z$wBAO^!U3@el{It!Ig276R)Q81aWfE`TTLewnd<O;|>SvP4SmaV>4-Ra@HZ|OjDZC
z=Ba0cYD?CA4>~0p5R-wEgRWDFsBp?Dg_5N{FJJR{lQq$J;N+m+^Ne#ezTdm`Y#-MR
z$;O#4b^SRwIjfL<#TCVCGRXF?=FvTSs{d$UE8h8xJ{PE_+2@KEez*bSUWYRt^zV;x
z1+0{?Jm2}^t3LgC3I)eRy!#LOyNQ;S_tLkli5<F<!M!v3$cHplocj;juel3_Y|#U|
zG!HKKr6d<HCubqZIeIrfNYPyB+&6}}%@@aCnvdbk5Bh)cn3)RRvJ`(&bzu!uG&+9f
zlNHW*(0Lennf{Z#*9y_gx25^h2E<Q_<K(a+^XE;<*7eTgeJibpZ>}MGda^PHCua@9
z=}@PU`g%=r*~iH*b+&=uJQ#7_m(hL0kz>zG!Ofp`GR@4%QNPlp#Cu;xIjS~WK81ah
zn%%IY&F=Umqw6s^`-SHD!hItzevSeqHJ_@;Qe{hFyyJz&)7`8Y)KYWT{>`<$)%#tz
zu5sgx2VL)`4Z4Dj2|oEHr#CpAJh&wd?>PZoUmHvm1p1}9N7?csJzk&7{z9~0s^JF4
z9V#CAz`@%uG(RjnX_|o)#tXo~dw)kc0Sxh7!xRn|frIxxh;r79nQN8K3EcsX70&gJ
za-MzSJID4;I2kzH1UWTV3|`3TT7-7C`#mz?%=pq_i|-tT#&e^>T=SBKSV+gZ!RZaj
zD=E_ma=K?O^BgrvpaYH-K@PW#UdF!5tY+4_h8<n{WX9Y$Iq3N(I{aPct%{??!0A7P
zFFz=UL(`V!R$p!baB>K8jy>JC&r|#OVKdvx9}?6%^E_~J(D71=PF!ZUYkgU4`)pW)
z*3KF^f}FWE&*oUaP?-W}_8`9epz#c}dUhr+unz3Z)Y4h4S7i8rAV-%zDPro)z$^GW
zcpd~fzI0WL%QyH>TtA#3S-+w;TMj1&9rw||)88$=pP)bJG)o>W-Mf<vCkM?>ceCNa
zlW955hZ6Un93qc;Rcu2n&pM?|8T#7du1g*rcV(kryVMsa2kqAZHy<AN#;`rdj#sHE
zkh?Bu;N+nF+O6mIJfq|#ZH#wYVdZ8<JsO-GG#*DP+cj|=!)h<h<HPt$3Onl#;L8vC
z_m;)m$bP*1I;A%kqaC0B@$pnMP7eC_%wJb*cD~_Kny7w1<4opU;dQ(m^mjlf>m%7T
zR=-Qz<>>h#Gr44Z7H2$YzqA^c9w_Hedk*^s8O}VT=iazY=Vw#(&qmMex3Al>zFik@
zzu1s-UDpJAV~qO8aH@oseYD}*B&~49gO0mX*JO_)eQS;GoXz!$>bOcloE&t#j;0FJ
z&u>xZlrL0fa4Tsw$IC&V-@o=Lr&T?#&Ti=BluCU~A;E$(9`yS^d!z<m&WHu8`#ud`
zm$&okQ@rDaj{6>cNwSe*#c#Wm#606<IqQh7uLOJbC2Ge9zD8Z*cAv<+)rNO{p?PlG
zlR4qi(%k=ogZ6b;s!0f54*L0yUwVfqmGjlFaNps^nP+tWDKRSlw(Yh=@hW#6K?Zk^
znhu=n3+1f3r*&BE>TH&U6BkWyz>9`7oE&t089v(Lk$Kwk!xv52B)7E}PI}<vpz(+q
z8_B-bzxkuW`>ye;BOB=DaB|S~H5fAcXv;iDK(1Z17Rw<oH!_?YG@h4~9E!AArw$}m
zWS@}umUXSz8sGkma^}wqczB(AO>Rb^)JYLW<L^t5!#sDSBkHSx`%#C|kO0mluBtdW
zXnulB6K{*De`f{`4MEOV#j%ONq=qEm)LG%n4;s&i64&^L>Z|vGlR%J@_;q!Kh5VQ&
zaI6S&mb>yS->J6J5;%ecIq&R6$A;?bmjP#NKe7CLFmE3J5$XRHI1dPN)EieS^+?-w
z0>_sihblLt%8Ylzd*Emg<lN7v-#Su8_xpTiB*>`}+H~fw=NcV|r+FW-JS!_GxcZFK
zzk&A&X*fCPdKcpvqF!R2anq;vTd3K#m)EUua?tzER-0AMH}kB*R_}|_R;W_##>+wP
zr_-mT?xj*OH-wdJ$(C_A8)b(x9`yY)|MJ)BJwFaq+&;~n5*WunsDYD%<|l2h$oD%B
zhTA2k8&|(ra#M?jAV)1TG<0e8vARSu<pqAOy$37z;v0AL+`{yHg9AU6lhM`c%5kol
zx#1j~95g=$QDcsIR;*z$gBMu4_kJ>r!O212v!!n6h<-v|ld+>gfigK`^pzD(4!W-%
z&132;rT5pD+}rJ4{YaHn5GMzX$FBO>g~~iCf#s8j++wrh=4SWc%QHIeva&hWZ0la-
zajAY5@Xj@CdO(m9TS)FOetf*cpVB&G1I4Q<51btI+)FjfeN#rQfTr<CuTg2&8df`;
z9CZHNZ3_OBH(hwLBgX#Y`#qc9=;P#|`3XAI{#;?X%K_0))|WL|c|RC&a?tbGlfkQ+
zqfYJX#hP#Gy<mLh-fxL-ywLeGY5FAa!$N8E>BMXDYwxh_&%wz-=g-F5GLfH53NFk%
zPThBMDzn0uAV=>pOS8op)f_W#?kRn?@c@0C9JF7{-uiA@zhn(ljqIEEA3p8NW5LNm
z*L%C9=zfJ%BOjX%Ctj27-R`p%#PVElX2bKobthN{yS{aCr97o9Cdjc~DST6jM)lpH
zW=*LDABXdyI63G%{Hhjjc7#rviS9s+*iH|r4h@2wZ~6v>7kA!>IlY$Y*^by1@iaI&
z=y<*N<2j)klz*%%<YQknE6s;Gb7FaZr(Y^LO|iWFO8GFo?-Kon1e_c+KSSCd^vJe{
zUD<QvaKdN(FCk_)Iq3U@6%nlp9(uc3>GTBR)oav;I&gB(eN5Q<MO)wPOUrw^`tNGr
zsg=W<A7|wK26r3f7qi{DhqBju9;Dl|?>r68`vsaG+iy+M%4DJ=$3w17?vMYRREcvR
zLpg8XsK}pn&dOzN`gZzQWAoZjf}HcG>5pVlg&)3i#{IPm_1q2(oE&r>MsQE7veQ#+
z8rV_SDLFwOMs$CUsxh84;F8&MQ09%e|8wSZc=u;CKUG_9<m}CE9H!_n7_av(;LX6f
zkD(k^hx07_QWL|$xwOLR0iFzY1Ua6qrvsO?9(dB5(l5iSlTa>5kRx3Aetb&sOp{Og
zxc#{CR9ipJeFN>+kiDvBLdmJ1eW|5-Rx)CK83Z|e>0Q?{XVks4OhP<|);@Bu!^uJC
zk4A$2T!=rVi+@4OGU~2JR^kLX0qv9?^pUz|z?sFlZ=ms*`m7#MnlP;aPBB3aS<s-N
zSD(gH;Di$77%q%H{O+k)3mkod9BO}hNkNBBMc}Xy<nXfj@oU~+b`3ZkX2kA03$L%e
z8<7=p0!{`&&Mlt-%f>2KJ>WPK<cy7`E(qOeUIH9Bf}E|UsY=P(u6KY#Mvx<-@_28&
zZdd|vDt8mhbKi9QHo@}Ut-y&P$l2xEKFh{X-2ogkf*d=F4!z5-mAHY!O^}m7A$NLs
z;@B{7`b~-Dr^Jo%lhQl0V$=P`^30Tt4|51|9GTj=x6N67`mPwMq+4;p%>yR~eJ-%M
zaZfq8)6W_>8U#7#A{%BeCB`2F4hun!&6u;<-ALsu;Pji|%QM=qF8$RyYt!rw1Lpxj
zjzvgZN4V~&BXB|qa#EBE%arqG$$(=<kaPCkmsalZ_TR@#kSHfFwZmq%qX^=eH71tl
zqYo{_Gi{&v0jH86XWgbcrvnbmT);^n$Pw81AYGVw`uBM32y$#bR7tULGX_9Bas)Z0
zC)eH<Esp904h=!hu%X%|=_jYx0jJrB*m!LTN%U0`C~N~x20@NdLL=qI2H~!Ax6Cf@
z;XhmHfs=!te-=8%__s3i`R`J&KTWkg>$oaT4tma1J^OtB@v7z9w2oD|Rw$T#BqPXK
za(tU|U9ENmaEcA_<r$5qa$oD7Rb*E?f#XY%WAF1ey}7Jt0ywG!IctSh#i;Eu7zPd*
zL5|)2Pv68F4{W03N?3AD<#<f70kQn7KD*3-kFCKqX{FfP+?1SfUxJ(fU5@+5>N%;t
zt!H~2rQ7YHij#xhFH{*mcHVtfw*RtK*Jr6MPhK(N<e>9;Mq~-^XCbcaPqJ^fGKG7}
zHtQ4156@+jn9{G#D;U;3He>H=J(oa`<God9HGQJ81mxL_Ag8sGBDisfRXg;Hg&=21
zR)Bb+=5wo-)A?m=JNo9E^@!z%>89d{L4m>)a1sb|4&HD)mu&Ym1~_H}ISwVSO<(eC
zsGc*i9($F{Ccr|F(-(60;n|GzleI2vlR_QqOqzEQ%a7)so#SjO!j90d1e_dnK3Dum
zm5952O<44ufV{=q`&X@Sa?t%SO!V-QRhO1-GUqy+Hf*@9fSVxa>0qmWX#bI0-+dCy
z2bvbtJ9LTVhx*ote_tNoha;PQTsGd57nnwnbFz4a3A>uVM9I=r^Ppy>0xN=?v27{i
zOSkKucH<qgr}!A0$W4%w%o;qd$1Fwu+<5Ghm+7vT9XiDFQ*p&9E6%4mO14`%F8+Rp
zaT-Am&4}CO?%vmJuCH!rQX6QESrO#Cuq-uED|9=*;|c8u$C2SIZi1ZL0v)a%1{wdd
zQ~7(dBYnF%w29?sp~BAp#Es8>mqYt9Bz*#(rQzhD>ucg|ES2VqFDEiKS*DD(8#LPC
z<e=-TH+j_DPOI@-vS)?Nt}_QX1qpKADNNZ|8OC+{=?L=r$n3b@uSG0B{%)ahw{_g7
zWSqWr9k!#rok5UeY;(`&Yg4j7#lL<bwSCLgE<1vpu1`9tFJlz=R~B%$QC}3jBS?@#
z@zD3;Hm_5s2E|QWnn#ot`ZbB=XVvrFvqnLgj?1cpkIhet-^?J$xmz6@9(LW6ep_aJ
z>+_|{zS$AvoHlauimd%n_t@0`>B#f7=L89IGRRjScS~6A+!Y?Sdk?34dA|m+{0Qn%
zm8T~S<p>{R`%GTv6_G)Z(~|J9o4n<+ZC~4iTXi=@?d=G1WCHX*m86h$)5{ipy{JmQ
zOpqYw;uqS-d=Hw7ikP0+#ck{F?cYf(KWo|oH#ctQl(fCC&A%==Um$}Z=VD_N!-hTn
zH_5_#7{p7TFR>%Yk@HS4KX)%f*3_;(`BdjZtsp_pjkWvRHeZg47!kNnclqKq&wh1c
z`5{{<aeg?=r7~$=P5Go)RyBhl$5F5)XD)Nq&0VW)sm}|g9=0RMc^%EN^u*T<oYp1w
zR#`7J-v|=q6kKSMv^Nxalzz^c<(j3wQ@<Lq{7_S*R9vBCV2b>)HAH=~S1yAfhyEr5
z^?CgjC(6Dn6n*N?xMD|;bDrDVyE0`$=si#9^~js1se%MK$IND|i)hTVmatsr6tvh7
z)4zjQez+R-`9*xr=Hx1uvgwe2@y;N~@$Q$}%ya1K(RT0B1WVxr1v`QqyG_~`_ep%)
za>jb#-mbR>ae@Rn@s4ifcbwk7WXgWI(37h&(!ZTpexkO=c6NkE&D<b=RGmOKB$z>v
zqdipaE~kF1=URC<ZDCWKq8&j_ZHl*2_=WqQx{50#o$5w*3liikPwzOQyR=;So{max
zOX|Di{%yqavtxS>S9o7y$i3vDr>3dG2Qmn9Mmj4UV;`-!PBpQ0{R%~1T04RqujsY?
zkIOzjj4;s@9N(8TCP<L;sx)SdX}Et^+vZQZwr#N4*uNEDe$aETr*%*I3Kruo?&*X!
zN9pEcIXF4!x!2XbwPS!|rhW&VO^@mcY6fS59CiO(1ICfk2AMM)zG{<($HWP8T<x@<
zh(F1m;Bf1o=zE>CV@wrae$akd#oPXH6W^Wp$fl=kJnivJ4nfZLoQL6MH@U*1_Z{BH
zGgAG-87BuFuNA&xx6HQC=C#NOgo_+^YL+9&u}I$iOq=)a&GJ+Sn&Zc|+#$osLGv>l
z6wdIddXpY-idBf^nXSlqkBdiJtxOk(3a?Ccs4q?qnxEwT%45f#du<8!(5XIY+h(Fc
zkn=bqGF^iqTw?CBV8po&+gwJ1oXJ`KxWc(>+k%9+c%G!3sczmvEI)=7hbkT<Q+{)~
zCAUfbey&>rK@Pdu{jE|q7gAz2Y0Wz-+?z2Y$k}UavC8P)rl|DU=zGaMt=udGIr4&&
zZ&a@6pXA+krAJS2#IsqMSbmOg&Y@#F;$S%0Zq31GDZ`UMkh8Mc!PMeamULV8^{NLa
zHA2k@a=JK!rnZFaH7m`mI%Kw`k(~u62c6F*3^rTT26+WG@6%)mjoEpjLy1^^99|v#
zeu?7HC<{}t$qyr&+BAZk3&lsIn;2vK_npeqxUz-kxD`Q8VG#LVD(~dF%GWnz?ddYS
zxCwG{Z9}d5U!GUDG++5jD<nCiLy=g1_H6Flo6J0K_I`D!{MNx%+BAZkgjC%<K0|%S
zQ|T`=Q*Zk0Wkrxf!S(Wd+}+Q&RURf#dmd2T%uSHf_Vwx7a(XlW@O9kjc^)p|9SX$q
zBirad_HfmU(-B>Cs~GMdJex+4b7GIiI`K-f*|lTosj|9p^i~8pYeEJ!Z^no#h&jK?
zq6-fa;3mjf5#W%^L$4oRUCL2&adz@>hdi<T7~EL<V9aHcbWqMFqxNIF;?oFn)-~3z
zkZ^q7s3q`{Tc0kp+=?K_{#H48N!81Q(1;DknBz9R<R-`&3Ksd6;WE{Erf9?dqYI8!
z9dg9-qiBEb#c;BI;wJr97Yj;TxzY%7&JVeWt)o!t3s9mPQRO?h*NPxVHt|aG;M<N$
zii8U0=^eUC+&DSt?}<K#>{`;hlA>Q=kG#Be?ZYuaoE-EVH5RftEzPV?I?%dALu+`s
ze7`KQJokzz*H9l<Tyv{Bl+My*nQsO`j{InL1FLbQTn6X5H7{RxrrQzZoHw~6>MAZ#
z59en=oE-FbC9FlFXWCh2OJ5|O^ZQ;MFu;hDgXX!*O~O{Xaqbh@PV$79^Gh@9WQgVY
zO7G_RDkp!L10U^$PWqbMj3LOOtiHF^qvhr07g}wNNds%;^a*k*SUw%DYs`3ByR1}P
zV5UWzkswE0bN<Am^*oI5oKh!^FF)w-LG)ZGjNe+xY4N8XW?{P1>63$#gPwo*e6xh<
zw}?u@^Nt5j4*ENww3P;z>TdG*EZ45e*OV8ys*jU{&YyeBR!KI+HQV0dTq?SD@7^#*
zoE)@Y47E+yJ;;N<M4uYc=giI@YnH;7XY~6L9@TpbPo!7#O0-trW!<5jl!23j=7%CY
zx!NU9=fEb}<)ewq9=rJB<e>T4oVef1)NZGv<py0zW}87}Rh%63cO2n?W$$!eQ53#*
z$=^F_6SYMgCkKs(qt=AsCa3Pwt?$*j^=`Sdk4fUoGy40}W1e>3Z^&00-fd*{vG1ty
z#>+wDQPhl_wfA%1m9;RcIyiZ;C<kXeD5r^CM&J6&`PNtTp|xH$+M~_{IV+w!Dr~uD
znw6MB%MdZ=eL);22fYtYkNGgVR4$K~lhyUN@l!t~hm(V@3;hSQWznqc_k-rNGAo=5
zKa=6)pz9+4Y@EuN$Iae>tD8(ePMeI@N#GlIG|yINUVkmQ+DaKET5ve(c-O-if*iLD
z_5M=jv0X>=jHR_Wi<$Kaa%x;mFT8owQ)o2W$2<OHfSQpY=Xnro#f{=~6sz~{2vB)*
zcC>CYvHTqTk^JbAY+tWkSZtYVZH`V1P7XTmM@<asuR2?1>818B-F<fZOEa7tbiAqp
z`RB9?8H8rUW3Jk6F>7TZ$k9}FzR7umQ(~%klaJ)?NvdXXeEC89^>SX}v1MGW!6$_^
zf?wG=gwt?x(0<+8Xr^IKDV=+Xtj}{7d9aifL5^Nd{;AnZ*<#X+Rx2lZ#8tToa<*&5
zdQmdkjwpKTKYN>!e6eE_zWkv5dhoUR!HqdJTc`BLO*x;t-lP%a<m=rZ3%#z9G~nmA
ziq|OOrWHXB!^8Yswa;^R3@drQo{7I5%}tP_zVk;=eT=Y-aTc3>244+thZwQ^%!~&b
z%S^tCys}=#<8xX0oiu_RtD-F4l%-~kUm{F7c)C0&tq5``$*3F{6)#^cXrWbKdY9=V
zH%<<^F1!-sNBVMHJ$5b3P0A`WU+Nddmmie#*s5b@)A<`STRUCoGVk}s=iua^=O5qQ
z{OacSeCJ0gPwDvZRNoE7$wA}sk~Lc!yd;9P@7lc|Ijj96^$BvmPaEtG9yf_l^0_+C
z*V}Z7g&@bvW56y`iT%Qx@pjFpnQb~9BKY!*uG5iE?Sm1DbScJn6smW6=<}rE<e>RE
z{&17p=9GK8)y%I(^?$veY=@JBK3^o-ONmacf5>InITD~ocX3z)CkKsZ^SEQk3Fk>#
znbaf0{_3lx8F6yZ{M0OXNO~>Zeqa8;T);MZ_BVAKiRF3U^%NoP`sJ)Cf(F7Y-D!C-
z1Uae6+EqE@ab+K`ShH4L-*{1<ASeBO{pjg|b({GH3o0yGs-7_7<e=-TP26;L1)tFF
z&67GCwu&F+?-$0GACz;`Y0sLGs65WXMjhR6&)kEGadOacKPt&`-Zzeewz(%khH|~p
z{ZN7&c0YlYn_8sCkC|Wd6d2WfqmPq=&gZCSg;aIEkG{pOdzQ+g`k6%>CkO49X2jUi
z0Twkq+m5MHkK4z3W`*$O8Rht!H5zC-`-gF>PR)Om8%Zt3$w9}9_vJZWp2<gAPkQ$)
zxzHBVk${tf=4W+*P;{YRwzDp0*||RVrt=;+IcUEc`Hy=rGwmGY;SZ}4KQU{eN|4i2
z@}Xw;1Im`CMGO|Zk2@#Q5ag^CtafD0R%BaU^t%4VF{_q3L1N<-a?S5<#n7yaYH&rM
z<&kUo2?RNE5?3c1v-Ra)%ZAP;*<Mz(!pT9$z2Bbg*@||x!;Ze|lBo*DHpt=Rp!;gw
zyC?yw>trl50ms)?*$wl|3gF8R$}yp<reI3{UVbgS<xXdQ@uLR>Ii_!Nq9nuJQqr46
z&+cdJO!FYfNu%1qJ9g+Y-*f*p=Zn4wGs+R<d>c-Ec~IJrzJ&XI$vj85z$`zp{CpYg
zu-0i_7O5oq#L>wh;o1X&oc+(0#01vmx9vEzMc?FucBThG&g4|6&y5?U4=!_U<sVoZ
z+$%?rBO0l2wQ$L9CBq-0-Q*`Y2WI(*<)>}1jK_!9hjaA;y>OGmp05vZa?t(9m!>qq
zvoTpLSh&}sATg=Z7bgdu&zikGjj0Spa_)xgA~nYc=2QuCmOa=PD4?9%AO1SAYs%?h
z1sOq(f&DXkBO^UZhm&u|LrX)`i+PFVd9{H=P0s5I>$z3(Mo;-Fw)^7bpm|p2k(ia^
zH`ki?(YzIYHTjJOL5_Id=Noq(TiLtz_WlTU(YeY<kmGVn`~{oe{o_-cspl4=kBv9;
z;L8u%uQ`p(aWyR~lOpNU3l-|;hSCUfaxT4B+_qang`2n7la}X3n;k(;@VeFns$B=~
zPakUC5#7a{D2|hZ-Y;A%Bg&qOU#X!bC(GS%UORvWCkM^XH2Gov5-Po=cOAZyg`Lji
zs@p&;&kZ3i#xyf>Tj!Jawo05D97({*LHqUg(8@RALW1)YJJg)Qs}-L(<K&?0T`qFs
zc=I;9qe9`c#<HtdEEOln5y>o?rOyr*Jus%1wPNtao3Zuy@`J{6=}GxoA@Y=h6G;qL
zdDi$9<PhXkxu2hv5?)$RG+U7pZ}z^&nINZIJ^R2JYmbs$Q>@hYzxJ&ZC&;N;$bU$#
z7omGZy&~wCTj8EDZhZMc&#S#!Y4LB)*FSX+Pm9^<Y9CjJlY{2Dc<qsOolg!apB8cC
zw|#iGJ_aWTT^Cz9OP<>L)lT+|B|Tbhs%&9~lY_>?WLhP_Q<<}HcFP8O{cm^DS#WaD
zc)st6jup2MVWe(3e=6%?vRDTfzC5Gx_(oRxJ041TJY;|Nd3Q&MN*Y1VHBbHNq8lPE
zOYBN2&+R`NYekT=LfAS<rR15rORHD{o!cxOH%<<kAMMavW`p7G{(@CCmu#tdj`VX9
z%a3Z#{!>SK5^du%%rr8nSp_l(ax}-k2sP<jNptov`?q|qQ??_>@uD;I4ly4(Aa~7U
zX>I0kq99HVnjd~&&Gtu~PLd3!IrWn?GAqW`5zCL0N#XIv(DEtO#PydhuMpJBA;@{(
zy-{1Cscm0G(t&#ymhka76Xa~q6b-0PWL~4J(!ghF=J!?{CkOrfi#NoA;YCAx-eX41
zp*KZT7GwlDp#cd`70YgtyLin1>(}&~HR?Es<ylT{qyEyA5%VIGw*{OQ*N?{F<e=jo
zCw${zGr3cZ1OK~RiN_l_&2VziePidGD0v?9ouJbdM-C<$7r$n~$w5D-?)W+%%o}d$
z{U(!juGW#~B@Ipv+AnwBSLK@pKC+ebx7-()wk)Y*Czj{HBS{|nN2oGQVy~!f42idn
zA;>99cf2IQUjKRK$Rv}?TmYv&K@R)Imqw+A6fvKLj+EXiaW-Kj$eE2kaQ(@fXs7eF
z248aa@_E&<5zCK9_*h^^{I(?iII$Gt%X|G}aB|S`3XIB0uc>zq(37dlYH0U-Xoi!6
z&cmGE&DRW8jJXFmUkLqp<6}GvLC*8G5Aq8w4!JQ+?6lPGuKSu<@#P0SuPPtP*Wk{j
zU(gFkSb6?Th-D5=4%#mv#k2Gm%ZGbDbNP7k`cqwV#>qkR?0)!pS4gkj9yi{O8I$@0
z-f{#vMpq7&u4P+l<dP!YJe_3znG7cf?bl|nyU&?}-`{Xj_n5!DL501T1z(;~PVc?P
z1KW~}q6SL_axz4?&3$ol(EQ|lJjEU#7)!<UJS^=~d1ST*P7WH6ZMR_5whpV8xh+8&
zpJ*LwX$W$*{tz8cKcuxXR{6yDL>(rj%C-3NgZ^LFw8!fybmRxbf;(yWt{S8}bl~Km
z_rc_5F5_C6w40yQ%cZ}?8r9?w<Yah_vtR%I>c`>7-Gi6Xz906*$w8kB{B@d5_)eOY
z%h8LxsI!kuvBJqg$NdSp$JtL~x7j$Ym+Tg+%RDTIlY@@C!69o^noD)p7p9l5Y;<Zq
z+|P_}yiiU}w~(oTVytMydg>39oMp5b1UYiGR6A~5px)l!m%C?s+ujp)1UYS+H#dmy
zW6++>HfpbPejqDIkRxQ*UuWsIzguX6hOX~~0)77)V)<cSpAj-*(#4sh^w{P!XO>C^
zK@MYF!nz2hlxgp#a}sCn#@N^q<YY&7`A_yMPb=)ZM*kp1gi#PD2c3rojIFD*jjY_r
zY3Kv3k9N6^F%ip8-l2<gTK7}V`*XQyMr{sQnM06cAeyt2wk9>FDuCtb{<EU7&ICE(
z@%}GN$L%{(z2;@Z9z1#>j+29~_kG?M?pK>dUz~_8biJcgrN&5*v-<9FI^l~SXTnUy
z3$EAZc8{&bmuK|6I=Gu`vvT1jsm8(hu9I}~1|2v#=)QVW(l*@9e4>1df>_Br3m&%|
zf}Gll?(vh$&k5b4*h_mUE34cWCkM^*;Wv4~dN)q({e54>$wB{L?YO^Y`K?sp_xbIr
zr)+kT>lWkWp#MiTAg+5^+0EL+0a6Xx*K*%SKfuXB{~z?D;NT0QyUSRmCo4r|4V8uP
zjyoF9=}|^rJ_`AD_s+aDW_%%`(vLG9^#9p?WxB^1v!$$d;AP4+Tlxb}Xb8^d7fezs
zd*z<Vtv#*4oZ{ARhc_N{9@@Nn;Ay$}<MzuRDh?d2OO(Q!XLKLamvl0IT=!z`u&Ivh
zCg$u?yz`I&`MdG;(w5#kt^8~%M~#D<PRJd_yDrf2N^98By|f{hr*h?vZGMm6Ol063
zFLeH_iLmp3b1(btx6u5M%17jtc-K1`4;OdZu4P@#`Yk;v5-Q4cDa|<JLC<xTmMQ0R
z^1j5wxdrchM%OzBh3>LY>4#>OPF^FfNBh6l;fx3UUbpoMR!+$+kJj4`NOy_q<e$gO
zLF3tLS$9J4Qv8Q}s&@9d>6ZO?#~tMqk3P&!GCiPoOL@FBZNY^z24}xePG+;=U<Son
zqdu>O*b$zYJZGF7G(YeC#new%h?%sxuAjfbp6ia6gT})$UfdHiV(JR#Onsd3pzD-T
zM5SWl;St4eGOO1a)w`9j;N+n5S#{s#BjrY$msW&6bcx*{N5zPfgRb{E(+CxlV=d3V
z&bZFiO=<9`;^d(FSccjjmGSx0k`!#3x&soI*5Zu^&CiW5duD@PyW}Mf>s}ui*<;nb
z3g0;ajVHo$&SY13UdpuJeSSI5#D)x<9CZF1Uu_+B$TmAZlEE@TX{Cf4UJm+R!bQw>
zV5rF|!(MQWp_zC)moLtE(C3sungWH(FDhR%ywkV8*|mPFDozfXXYcAO%~7oEDRz63
zgmyOE^q|4XLE};UVp+MlNctu%ue8p-?|g47SK=Ell=JLuutC4){jyWL!aN?XX_*bh
z$wB*-oA70OI7LkCWT{PQ{u44KeViOLp2>)NC#6euJGJL4n_sO63T7n8(XkC(qEaf6
zet`S1i#A`0M;#-v{Ipys=6je>rRK|ex-^Kfd_@dF&W8=+1+3QG-4CNRR%}mJ>ena8
zQ7(7bZ}U{~(0Uma#(}H%#~BH7)S_nJQjf2=)w;aPFgu5lwT^*Ue!c{dy**j^sC%Q-
z)$v1-u|qKgIsR=q+WQ?MUqlASxwoq^dFm77^!ht0YM*=~(6=!?skA?smXRQ*I{naf
z*Q6~i5+z^BcSamOT}MwWKh|`;hmwQ}awSXND@t|T9*QBz`JrfR&P<tc&GeE_+-kE0
zJ$-_liliIn$9f`^nYwsO3z;m^8F6yZeLnx_8m%P7Q@+ZvGd5zyVV)f;h~?*r#;Qxp
zCeDj^&`Ae7criGp5#&5#ux$#?R&|)r5O1K78(nHekR$$p_Ps@FsC+%y!gl^vqcU!S
zoUKo7`---g>G}uBN`AdaEz_|aUw+Vim5+LE_Vn!JyHS}Bl0pCa9Y+RE4!W;$`=6{%
z*6lrUZ~9bly0>q-9YKyydTE=^&;@JwyFG$9Ip}?vU$Cd5jK*PwKwHq$Gfmvz$Z&Gd
zeyMb-ycl_4`TzYLAv%0{M&s#SD)9A@q;QVW<9YL)m!f|p;N+m=wSO7I!Bd@C)F-2#
zo;<`?!)8U01M%@8&xwB*72-zae=2_T{7AGNh!^UE4ifAjN!dxogW4C<p&gL$JOb+g
zB$T5P<`HTK4oD~`<&U=<{76YOU!a2|RS&hJd4qCNb}0W<67nXB0nzwTom9KPAtg!G
z`@7g-KB4kI9Y31S|8#r*@c+rcKN<Mn%K*HG7Dl>8kLdrX|776rkbz1pNRV2X4sx;k
z<{r!+q#34z#MIvfv;&g&_mbZ(R$;mf35mFq$zcaxkiY{89H?iu$N||9a|8+X7L)LQ
zsG(i-+zCAB9}5B$!gTl?8T>;qJMf^sIA-TWIHXkYhy80M<_J9CvtxG9!5`)U%7=2W
zQ(_mu2Oa!?19s3s0*91@&n2Ng%v01K>>$zdSj6Cj>EM3~n<t<{In;ymJlI_jf2c=F
zBF+Ds3iY4>)xnNeLj4U`oUjgH{PA-BDt<5yApa_Hp>h0O^NaT5kLoc0{wU{H)kotw
z_=~{6Wkz^{h>ohTKjO8cesKRl?Vv+BDG7c=CEPEdKJ4dkyM=Plp&b0d4ifCBgmRE5
z2lf9)|9fNr?&qY|0s3AY{7^gETT=V)0nBk3QUT6o=--V++{l<P1NcMv73{(jlQ8c=
z@`58Kq2Gx4zplc1f`-v`Rf`prViL_OoExFODO_L@)sbS{D%|hU_F*2tctZRZ7#a3s
zkhmKp;RxLOSh)kz4ypb^+%SJ2ZkTUSPNLa=Gykgo{2Q2{0s0McF%0Ap^@H_|t}n0y
zA0)btAded{Fgib#Fgy66?Smby2Y#gNP>xD*Y=MD<=LXb|ln(m`l%qP>7nAT@M#>M?
z7pd}}wZrq;&(`}@{xFWfdyQRe#}=Lt6#OD-h;c|sv>6V}0P_L%E!Y>pALcjOAMk@b
z!+JvZK@|)nhe>q)0tecII6z1FaL$GGiTXpm#Uy-Q2K|%5Do8F?@o!oV`xoBu(eK%y
z_0Vxc%Rxu?3sj%SKrp{h2^^5H?}82z>>y!WvoHq-a3m;!3z8t__i8YYnK28@zuz55
zTtNFEQ8yT8SRYUhcF;k>dIW!X?+5Y0dp;O%@MpjPq`1I`@dO=}P!8{LNtMGs0Q(E-
z2k{wV1p_}huTb89T8Dn4?SLKjHS~N8{!mUz!a9R;sJEDedLY67XE{)BF$r8D%n`;9
zB;;c;&SK@j;U(cn%8t4N2hPz@PX~1*p@Tn25^jH*8O8(F6RAL8zW_f<QjY&2JM0H&
zyAanOZ5FuDKfF9r`ytq2+<`BQf%!2B?V%EH`=tDSmWQ6lQ62gLlABb+B<wJL5EtCf
zAWvvD@B=%XH^Cp)CF%$Ms6_80FmK>_81?_F>w-TSAnad|FX%taOB4tG;D?qkrjz0>
zRu6Ca0n8B{*ZY_q;zq|8<~2yX?V<fSh*gBo=YRwHViNTS9rk0W4|dQ&f*qA;IjTe4
zuzn0NfHWqJFbU5~5D(f8Uj2{OC)LiM&3%sq26;uyWT+on4*Ji|N2vE_OPEIx2OD+)
z&k<lpr5t8J>%)Bl*7bjCoY8px(SOSTe7^<u4LGNx`8kalVE+IKeo!Cmq&VPT0v9+X
z@WCB)R6_ZGOTv7H=P8iz91U^s!UZN_o`XL~#ElI6;5iX=)Ne5z^0b&AsW_k>l!F92
zD$zKheUOkhQtt(T5B&x{aDfAMq7vnR4ie%3iMB(^j{2cG)I%jHKd>ib7mz=YP>xC{
z2Z@%W^AzGC<&W0?zoNr)2=o`#!H!q{(fZI1C3XSp1a!0<Z4dlV3H5*nI!M$XbSPg;
zqFm5HlBy5$5zY&E{opxrvGWDW2Y*uS;I+ekh1Z{yAH+wh{EynT76Cx}AW?VJj_RmC
zs*~~uJB<6U8W(6E_@ILXJG2Y-|CEIGfG-3We^JSc#U=YE$0zuU+SkR&f&C60FSNQ8
zVnB7I_}^4$2bHi-f*mS;fQ$dIgwL};I%DmDT&($%Kk2_158iKqAF6|$l!UlJlJfhr
z>}Rls^^pLcBRZ<0<p&W5Mns4C{ImH(F#o20$1IRvG%mD)2x=gq!~7#rO!lkF;k>Pb
zGz9sBycuBS=(>bz;0N`<4)5Iz!LSGiar?cW=2!tM;s9|kmJf)76vqqOcoyT}9X|+j
zF&_BgmFWDn#aVH&IR0ok%zp?6jnfMXNJzAO^nF_}iF#lrH7}tYB-{tl_D~)CQMs7k
zuPTTB@FD@IV2S<J?I6wkuEM(c-GE%6alp7UA%38u{$L0BN6Yc9&&Aq-cu)!T(7bSC
zj;k?=>X`ZW-`)9wVG#-QU=g=Pi}^`-pnsnhz88bKlgcZp_y$n`rvIwvMH2Ww-3<9K
zM!tY{AL)M%rh`9v-z1eMc#cK=fe#5Fwf>+Sm87^?h$FmjK+OMVRmj_762=Si2RfQK
z)DAjG@CO~{$zl@r<z*NEbl`y`Wry<rHOY&02qZ0b4g`swL%@CpTi+miNF-(ivtLBY
z%dvKV4-)1F;{Ln37P}%PN!5pa1|;m~AWbo@1}5RWZ-(g(n6$$rocCeAfQ0WSfW+K?
z7cftMH((bK7itH8Qsv+e?Slk=h!b>PtO7`=znDbt_wcy_$XIMVV=xIi)B_3QBabyG
zg-OWoVsVfv$D1co_3_%xuz3&nn+I4$xZgk=z=QsRKlnj8Ua5r*EGiePFNQh5e00Th
zhy&*NVw_)94)Xvc%pdrE&vL9G$Ro^Kkc-6u`Od-|L5F(iJ_O~Y{7KaV`+r)(IFV`x
z{rfR+Uxa-C>e*ozaDE3nNZ5Zt2MPYLKZ33U4w!`T+>Wh(@B=A=`GF4A(Q$Rg3JxOv
zP>+;6iTI=Kq4h|$5ARtAF$dtpVtOzpp}!~>-hV;<p&Z%+33iaEJsLAWIV$Z*<QX_1
zAs*0ygW7q)0h2HvV12^p#)#YRD)@te)aU+C{<Bg9>o3$h02i2)LUaX8hxM@rsgJn-
zn~L@a93X$73&X`C64vD+Ze*nVim{5YUSNKKPKpcthW^010)MnWU`HjaOR&Sf2|6jc
z7$4#y)o)VuQ9GOmAr8<<<p=Ty{vgr!tBcv89Iw<T;YcbT)E)fL{-b`dKcnxR!4L8d
z`mdIx#uM7%g^T}^gmW<Dk5sdZ?Q^8+{j8l-|4G?_KZ9Ld0s|&t{{so*3lecBgZr5_
zQULcmbib{`UhLIj{^&eL=Od~k&HVnk25SG+I+`yuZ&g@>c<)#6d)RH*{e%;fFm51;
z_5<dh1_prm8!;XD2N!7o#s|h3&ewuiJs2O5i{O4QuEm~zPGJ_vC&=F&u?uJqwd2*D
zF-J5`(4idVEw;`X(F%y}i|C+2J!lv970@9rkWde#3w8nV(IDp%7+>%wDq;PC)W_NZ
z30$=N02E*n)sf<#R&}u&@H_(NY1pUmo-3eXxX<I&!LJs(SdK|bC_rR3qW@79;w3fC
z&|U=A5a^`*As+At9hHz@u!9Z~>_jCxZlFV+QCUi~A)NJK-&4i*E6`!S|LS>-GpwI>
zgXc^otmb0l#fAAzEYgxJR?b7h59TR};zi96_hOECpPx_;yw5`Ize*RwK=3;%;6l5o
z9m*GzP@j|^<Q>idr2J4jJ!&AKqkf>1l7NA7(ElnD_HR=0!2KF6CuK+dP<^p_<Y<Lo
zq?0;N{3856nE$a1EOwtjy9?)7m}gR$1K#H%1<W7aCl=Eoj`wguLXukNzdx^%sQ2GC
zLp=ZOcG2<vqvHwZO_YoF3(7&F<)m~{{-o@rI7IExKT`E!J})*eN!7<|hvy-@{@}M*
z{NVRjlSKRbv;Bbi5AVOBKIoKS_>0P472jf<#mW~;52^YxSVj1Jc@w6?x%Mpb-h&-0
zhkYKnaNdIPM9)`?>7?RE>yh&Nqjvbd5%e4B_8-NQtPk%G<uH%+m|ThIG?<P`%uEK)
zhYVo&#S-`^7VI#8s4xeR@H`Cj46VP|_`>``>!CWzL3Pw0<}paL9CVoHpf4tQF$eC&
z9RDWekpC4(yr9GPRFGma7=M@_X!+0TkXM-hiWmUiqks<aq7rRyvH5}e|6O&M-{?Gs
z{QO<}^{e8B=K#nLs-x{BU<QzAIXstv9o519XUqTA`R-@?`B#nWXZzvwvlagF|3evo
z`vSVJ!Tkq5SNKDX{8RZamjQ=AIU;!f24TQ+E9fBQu>%J>KVvWlxKDtD_bc$Zi#ql|
zG6n}L0AmuKTR_712w+`+y9RbaN`fD7w7~E;m88}^nwS4}_YPqVF7`PS#D(4$VSLg4
zp*qw@B|NXAc2fE}tN_l<FdxC6)Vzf9|8*%yu!ArTBUpWSjs_f*TVMuwzXJ2u470<z
z6=Wb{2i`yOk7WQ|hd_hh)9_OKX4(9cFOcAOI3R&5id~=*%2A2>!MuU{2&#h}J+FFW
z@jIgpVETPbGGP+9@Vf%gp*lJ*!4CHs(D6#5_3-lX`u$bnz#H$M?f0|m;#ZyTVE(~=
zNopPc+4=dW{XZuI@cqslq<J_egBf&?F<1f2FYp5$B+NU|!S6pUp*@iQ>GuBN|C51#
zGVo6Z{w^8t!~(6u&buJrV7f0>4$oa^zu@@{wWB&bH>38ynhx)uATIQKVPMBAc`-+n
zi?=>rKWGQ9|DWv#`5+~KReZqzRlLPGXnUx>SpC0R`QJVMzgj*?#e+A`c>PGVL)89v
z+h0ia6W$xbdmBp35$tF^c%KXsK2HOQ`v2AR7Azns>~j-%-v!@mW5RCC@cUYj^;kk!
zu@^kT*m>YS#!JWE^Fg^SW?zmZ0P@O>*}K;Kb^$UI`@OCN_CWw8)(*@!kT6c{*hMhb
zej>(&=TJ-~13SE*0tw~&uy#O4CH($M0xM|1z8E-(<*OH~PmbvYn4cx4!#ag_;P;Fm
zpJV;KgZ*K@T5Nn2Fb<qM_%R*MU#P^27Znf>DMtmYKOjl@{a>{^|6lF+KmEp)0rY)8
zu1bHR)31t`)V@N>{ztp~pW>2=3+_9l%74}_h*bdjv-MH`B5dCV3HM)+s6RZfgG9@*
z+cO!QkKpsT7`We|6-elC&VcW6kZ>bxhWN4DEn&{jR{T}%7L#cBSIxIG*!kit_61>o
zY(U;)<LHgG-(&dO#U-p^&>_56*Z=?JU`Hj?2YUuKFmP^$b0(C7gmTb#VezG6=Q|3l
zAM0R3Vvd=Z%)kzI=9mtD_aq0?tuS5)wsC;OipjLF3y{iCfKzH<Txw(@0*4RbyvOuI
zSX>|xH!`Sag!zFEesB&1T^IAi1enQ6uq!x+%V9eBP5<us+Xc)&A<Pc#LVa*gr26d&
z&a+^50{|Enk-!JHX1KtlC!*USIw=*ns04qogT9#jS^vd&|10IB@&a~{f4BZZ+#q3p
z03GDttzW-7UUlq;T0+={1p9<EX1AsKt;HnlK!W;#KkPTKeSnVU8T3Nfz_1Rj!t@^`
zI*8t%fCCb(2K@pFaiV^xUV`0c!H(YFz>dlw_1`QYA+9LwiyFXza=5<&ryRS0a~jkK
z34Wv`oEM<n7rXC*4&$;C%kvdX8iNBSvk)Eqe<G-U1iQ~8)yO6>{tdJM(-Yu_J(yk#
zKZGLTKaAX;Nx1!PM(;yV0D1X@8KD2rZ|EP|FDCe68dh($*l!niHvcBwHvT3>u=5Pe
ze~^%WkYERiVSg8J&I1F?1CU_HD`9<sgmnfyIM;v<To@-MY<x(K1Drb{ZdgYQ*o!c9
ze9?A}Ve<vr1qtUQkYFbzk1sM$L`YR6XeSl7GqT};A8ap1Se$H_yhdUjL7whn>p2@)
zC*c4@;)ihnGZN14{|^|-K`xd*@PoL}e4_1u|NoloCNa<8oB`iQ1u2NkZ^$1=s0aF=
zoi9>xfE|?(KS)yXqxBZkNpXI)9pd;^T;M@IK!P1_JK&E>y!HR_`+H;n<_Aa^?_V7~
za6tke^q-Yb|F0q;e}9#DAP&eYDIK+={!orrLVb{U>-|wbv^~&4;^qJBI0B!Pgmy`l
zqjvEBvn0ers(rK^bX21Cp&ZRG98bKl7qOswVLCj&qUTyTmxF}%pdD04?NE+aYG96}
zWI9h4rN{gHc-^z_#TkQ}d}0~M+icu76-nK)FwQKB)KSte3|rkoFY;|_iu}ku-#p3S
zeT-p~O5qh<<8=F9-E^^hBryMUVcI}S<!N?27k7;aTNrnJhG_5i^_RbL@g133y2Q1e
z_bk;D3SlKKt0A5J@|;gu#_o*$kh<X0%vxW<-6Aw|;ZUVvl;DU)?vc}?iP3&;>UJM!
z1FGW=wp7-;yBf=HUv;V2OG!u9`y&Uph}4yc0uB}a8%F-jZpZvL+&JuJkeuO4B|RJz
zq&v{2Qy39za#vcZX2F8%MRGRn%EzrnVmFQ)m!Z;YicSbN;_uzv^Kxqas{A0&&6R-*
ze8MXGhm_@VThbyG<al}9jqD9?oLH%#8?x8WRWy0~H<je!p4It3vOefJX=~3UY)v}D
ztS;4G*Sx1ojLqA5o__26&8wxG&K(qba_DQrb8Vhj_CDsU-0=@*8tNS+H5#)+$k(}s
zeY>MzwlS+mH^pFng~YZ<Et&qb65F8Q@Pn62ZZ#RoHysg{vYfgVpR;wO-6TFTsxh&3
zr`4ts8FHid`NmnrQ*0aixV%P3k6v?GJ43eSNp-F9gvAm5dwx%JZe;WK&^&tgYJ70b
zvV3EuioRWTo~NXle5;q1I#d1-b~pTLU^&0!6idJpa!RAN75+9%Y0JX%o+?+%na=DA
zyz3G4?4x;?TUP(nkh7|Z4wdwkt~<W!P5Kggfpn?gyzZ!ZF<eaTDtu^H5^Q%#wumDC
zJDvDrcl9WjDmst%HA#EjugWk6>-{+QHMmOd_~Q?GL%nkLZjWUZBr2oXmha;||KQnE
zo?@<&nDT~>8r@ROj>O$O192=nY*TNZ-G9?Xc$1o3(fp3xD&G^^_c2y6XKAo#nw4;w
zmrK43kGxTO-H<u;rpqwn%$29cXT|zt3%@t%zWkP2e$_syqLwG(vLf@lAARkueO1r9
zzYevnI9|?AcTt4GMMPxggYw2^*OFD7MlbnS?-Z9e(u=x7_vvot6Zh=Sih~?6?Uf-$
z?7kM~vqMZ;Z@$0xNlDjS#50A~NsR7=@pS39=$<z5md2#mO$pr_nZ51B=r1^aXx7cR
zE8>*AR_*(>@5Oz5*BsYQm~}Fe`)@2rJ0yJj!85_(he>qrIFH*1CrBsdM&51C(rMWg
zleX=#(d@Xk&9j87hr`;X&ApcJs94U)Hf2i+bjyW`%6=ZPt)c(+c75N9Hi_4gLGCSI
z9?=MlU0rta`!pA2rvF(V##p<auTSnMc`k&ntf%R_KxW!w9q*WWn9=LQjL(z))8TxN
z{X;?=PqIu;wWf#5(f3^2Gq?W%<@O^z8wOuK&lDEsp|9{v5nhv?G$MYo`Ge@$ob9zA
zxxSS9#y<{Zai&N&CofDp+c?nG%s*|XOIJd3lGSfk-qTQ4s3J*K<tmNOi5TN;B9_Y6
z4;H)F%0?Yh`B9XjXFJfo+o!aEXHx>h4f@lDKe7jR^X1jc7cC?Rxt%r|KKGKwR{Z?*
z%)yqXY6-zMZIcTX^$E&L!o<Gl7}7sn*7?+PpY2OKrJdKr!q2E>#FXh%ZS7INH5z@P
z<A`;DqJ?wP%g^O(5{ivSUJTnm$)=j}?i0~{bjfkYu!G#PT<Lh7gv*&qD-S;wjd=g`
zWrRUdeZz;wmVh{y;^%B1ewdZEio9ltzb9#YnDL9;6N{{F)7|S_d6ExK))_n>4OfZ3
zE_3C~R_b&c+k;D=Yg6udytheEq)GYAF!gYI$Jpt-bxY)BPm9|cel+O5r<8xz>(fL^
z<$~X#PiN9s8qG%AJ@6dKZnBoSCHpET%08|=I6=qh-9m7+&BnLIElL@D^zSpgII^hY
z0-CqCG~C>+_=P%4(SkYdU>u!hY;AwpVAhw=>)93&{#Vr;<&>T-ywlDoJ2~{>czxsS
zsRyPOqIbye^t@%ykB~AsEp6SWR(9gP$Gl6F^e5UX-u=$O!S@etm0Xhjk?h3*g;k~&
z8zNR1<Wq~>8ssQV8MPPUZH)?=invusGfOLE>|^a0z!KQI(NN_|Jd216<yEWguZGuG
zrApk>U&A8ORB$3DIw>+~&CUkCRk!YK=Ve~*Zz7g!x7G03;SHT`CTb!d3&=yuBdqi?
zj%;K#eXYKy_)HiVi)qBnl%|MPk8|i}Qwo!|yd{q;ijN)p;L^Ekm(h2w+XZQI`q|^b
zUweZDSPZ`fu2^62`kij>C%^2MreogK><7x0J$_BeJX^<Gqp?qH)cpg!q%oQ3HS)}z
z??2mV9QC}q{!ZXP(H;qoV>`uq2Rf64?a0J#Pd{E!{m#Fs-RF_pIrS%w^Ag*p6E3dI
zd;O?7ZKH(}V|U<mOZ-Zy<lS5>X7_%WhWL+6ZR2rxvujBw9p&frvLxp-9!+tI0n+R9
zhnr}oTm+5=T3j1j8^1p7eY{io5!R=)LzQXLW}m<NUKI9D^KHFclX|N7aBNOOnNOk9
zv71|*)^SYLFMU%hI!TuEDlE1lGB%yL<GDSbGP#Cev;S7f14WKBNw43DrYf^GPTJlM
zKPjPJl(Oc`a}!qE{mtTK88ckUIz!E&t#;N|nAHo-r!)334JaM5Z98=KO{JyZ{DgGQ
za{jHlx1txezPQBpfIoAHBb`~ZX4zAVvNzolZ80OJ+aj8_C|uiOI51;1x|LVd;-r-O
z?MGX`7-%dVn7me7eej9I#{LVn7q(P}ofz3EeUaLP_txuBQ$3%xGuLiE88x|_>9c3z
zRv(LP{_y;}W&6y;)?ee4+EDvWgw<!mC{vKT#%I^9ySshD4&I&{qfS`j@%~Oj?y^#G
zMrx}wS9v2`9UjXa65Q~nC$x7ry+aVMTYuxFtvT8p=bamSIs&SEr24nKy%IoQ<TUx!
z?nae|az1ZdNFFy`1zl_qlf&kvPbHJXy*TnbCzj0>onCcCu`W7zxv`Ap<n(l>beQ9Q
zgD?KV0aPjHEl2%WYbl$_#aC*1<@R&^XsvyhbxtSxf(CDdmdMv7=f7>a{$1zlGLQE?
z7JJ>_%P}g?pN$b^_lR75^ANk>5*hpXD_5Jz?@#UKmDijfa_6O3Z~np8Z*{X*Nr8ye
zOl_pCI>o^^>`GHh2Ms4qFSy80?VoeEIZ(BqHahVNMNbQ*{B~hpcJWNJ<`9E7wUcC;
z)ij$|Z?eAZ*Ffh=?Vf7C&^2Gy?a!?(u~K4{L`kaIMS<|JK=oBd*C|USZ_wy)OVL_u
zWzT*ewpKcx{X*WID{T8!!4<;-%+2m1b)(85Cv8RirpUv_z9rMjFo|?8F{$QK@)YDY
zz3sd9xSHw#t&}N|*UQ4%CzPdld}3A~DB?auVKEbYJ9iZo-N6CRqyXbmi~eBc@5*P!
zcGmCT?X!yGn*T%l8y-my_SZajZjHEB7O0^XBz~Ih_UE94p3T~^lS3M#JYMAmW{+HY
z7+iPl8BHz|Zr@S(LRO&LrcyNL*;I+O<k~mJNhg-1o|9=gNAJsZ;q##+!B<<qUe468
z*>;_rX(q~`LtXH_yRmapMwyi}yS4LO`H0dr<eJmP`kU6}Z;PkB(WbbgElu2)H#>m)
ztJ{Tx?`W87j{V3io!;+uK9XHiEN{lqrA^(X%Hc^w>$j1?qxKOUCq$~IUx|L0m{VL<
z5fylm#ofK$k*A(-y3J(rBfq0xs=Z&2eJib6lBUM86t&i^r>OLb)Ht`^5z!-$yOdwg
zSYEQ1K~C(W<>1<sg;(+R6$S%(@p2dKIgHv1S5H4#|BZ{v;IOI<^ETHL3K`BCYxXL1
z(w4l+NaE=;GUyi>Dq$!Mc{et7!j+BFly>my<t&b7p;>b(iRtsS!(|orB?{lx<+#z;
zvoE2ykeY5#qHRwrFB7~duw-JyI`g6MvqYo!V|{X7-w*WNkw4D)#W+`tBft89i?M6W
ziO!g^3yF#{Ys)euH3fRLv-hiz`BM4M+&U9wKCj{ZOn95xUMJNosw<^JZ(23Bi=JS7
z)^vhH(kD;6Wy2JGr^vcbx5h%JEzjmK-xXgOd;59d^<@jo%RbD$-G1UzJEKq9ErnIw
zRZEN=-al+e&Dr-(>Ac)-t{2v8dR`}nXf9J@JvA*A|8OKLEX%OdJWsGDxvx4yqW=3%
zjiR9gDN8f&_8MO>SLa;zdc}|VEEhM9SKG$Fp39)KsyJ*T`bd+Hihn)t#&CyAMH%D0
z!j0=I*X0gxI}&Ytz0}7b!z^p|n19(UbAot_@r2_{qhE@@lbHJckb#9f3KOAMJJ@0p
zs5j&@N=%6}^+mq$9#^!w!1mSGZiwCCa%P(32z#yBb1l<tZ_iB@*9q(VV0&|pcJSiL
z8om!ZFR~Xfdl%-nKDyIm`aHzy!@8b?btbJ&OT70*f8_9C)-^3^XK1MWZctw-_UWwr
z8QQ=pdYKSu)@!VE$_Fnf=YCQ*tD5^*p*|?H&EhS;ide(9$AeR|PuGk+omm#L$<;H9
z;zUTWRKRTqJ)XLy+V9^vk2E?YzGxLX+fj7-m{?W4m^Qb~)(408`gj(`^e8j#R96yw
zTTvA~T40)6LUy}tXzinhHmY4&G4d87xg2#Ab%)B8wye2Ov%QMzj=^_#cj|QRs13~h
zv;3ErYEV?i>$pClZH+SDTAZ{pSv4-uHItH2>C&pOVj<HZN3BaV+tstGLXuu@6*0~n
zRX7&Ff9~j+?<u#xs+DIRoFGf05Z5@Lzpmh}THfk99!e+9ZCkpG=%YW-vXXU4eR{@9
z>yp{PqID<W2pi)!J?XZ1t!_X6Wp=t%JB^$Ur9XJf+iIMUHMq1}q+&8vJ<asC(S(Yw
zQs2s3?2rES1ou3?-sN9UaB4Sw0wb4C+h{4Tu<tV5-dJ~WowZEIi-JgAquKda61*PU
zY%0@wYd)U)+|m?hyY`CpgQszfxBPUx8)`b%H@AL_O5a#0FPdNxJb0Dv<h5r{c5IWV
z*kdgov(Ll5=HC9smhNStJO<S(dj-!+d;4llByg^$TD{8J#3ktNSNgcOH#;)!$hI(>
zS&NA|zDm2PF?1ng`bohny_4TI9L}7ie38MkZ950IW1!lr1Cee94RHxud_U#f+9G!6
zWBcu{8;trU9@eGwIm)qnBRMM;USD)<G50@8|9+|Owjqh2kK}7A{d>0aH2;V^lJ(=3
z*W{4N<gxOL@9t8c+cw4`!A$qL?ueRdsA;|D@w}q8tAhnkuWOy^<`_^o7v?W-wEUi-
zIR(ol2l87Rt=6PX&flkSKI;2$l^e}IT{Ek@vM(Cw%T=7;r?7iBuF$x*AzwS!G-CUa
za8;A=){j&t`d1zv=14v<%a&*soA~)+!x57eXGKh!j;2voS-q$_^WFFzyT&zvBQ(Q2
z>I2`oywqivKIhte(V#{_;dTPQ)1$MpovZT}JZ+Bdf9SMs<G$rgu0z9-xA@vqm!5Tt
z9Zv4trRSK(s`p_T*IPR0snb$)S0*cNvZrlc+Z>fw`cCLp;PsMM)hCK_4VH848JSq$
z*SFeS*Us}KZ`%sDq0HPX?JOMb>A^OeiZYM$3!mculx+3RzJ+7oa?6K0A4YvXtUh&$
zqr9y`RoG8t{@LWy#ILnoJ4Y?OC%vbBP-%-Um5E(>k;3DBlgVBue{rUo@8`}iO&P2U
zvn^fDB0J+^)VYgBD_1o7+x(h^=6iC_buNBwxHj@|Ci%n(C%TWtdll~vht0keIhF0!
zsdGlW{Pg>M;_-Df_WiH!F0rtA@ZqR!a6*Qh>sDWlc&l3<Zm-Z`zi1gULHY35%#Nzd
zlLHfn6xiKW8>uE3*YDuW9;bgI@qDv};x4|4Sg{?FdVR?~=4&SRsMqWad;O6!^2y32
z<~=$GEG06^X<o;Lh$NaFY;|##-+uSaU>#eY*4^3V%9*pfyG1QUd4#WSY}ntnFjK92
zu3qYSPWMQXbFp1xJ9qUe&!inv9XVCmI?}>A)8))$Z@S-FU-+gPWpZ9;edZ1dx`B7M
zB$w1oh!2JO4IUI`Eu_mlHsLquNS&*Yy}l}I<I$YwH4C|}qkXyg<lENLF|!<99!X2x
zb4PyI<17#JRM=g0nJy7uz7=wfg<poWqfgqmr+7=yY>xY3^uWF9m0tc_PoUn}n8cow
zKl+dSh#pCmi5jj|H5UC=I9&5;%5y>b+1aD<9iLX!-Y#28zJ*)#7EANL7Iuy4u?tD!
zj49uFR_<8nr(0Jvoe@w_G<5Ounzvd(f!hANe|T+=Iq_az{?4Wmaf-yY?w5J59c5JI
zXk{200#sLA|B}n)oix$(ppm-j71depGL5l<!g8s-R`==O6gS<K-@p2j(AET9auen4
zntCcX=u~u6&VDWqd%!JVz`KV}+~6MjxYTtG^N|_<!>dPBp9j78l6JVG*S~U9G=KH0
zLyE0_O;ijv)%lw5S$n6IdtY?=HT^#tz9~GjrfD~}ZQGh)l1yydw(VqMV`AI3ZR?3`
z+s2>wyY@a?2etYtblp{5Ro$wGg0UfC90n07t$j=@%0Znw6Icy){~|r~<dVq@15$<S
z^K|<kq(jP_!N>4cujcPQ{dIb|OO3Gw0;xnJr^zT>nZD4+lUNz_4ojED1lp3P*>5}C
z^rg^oOK4+<cp5H{>FdN*+9HCs(S)Z^wv9bjquQph-#v*8t`<>}dvznU7VFNxl?V6u
zU{}bEzCsr}7>1xiO2&6}BoVCR3*7h-I^*%G{Ijrm*`G%WIFTji3L7=6VzEroFsL;U
zjy&4IhYZr>arB@TeFQdh#be7RcADE-;bP6ETc#uYt%lDAMUrjk-!=3Rpaa8LHHPlx
z89x5#%)Hz~c9>V?-YeUS@ZvX1bim=lKDNxUp>=U_P_%`*7pP>*<l8=~t$((!Pp~UD
z-M~NsjXp{%8=r%6b5mpD*KWk#bywO!Z9-SVs4e?ZsJljzp7fn2ot;Q#<;NbtDr`yD
zxYBy1m0eNAc|@!`S~q*~kPniYG~m$-Wu^6?>|#{n6-S$~tbRXyVD@K99E*$elX9^U
z-lY^+xmd1Wjd$<{R!j8O;r#`^-ZAaHM|cAHDf=aA*#+<;1<(5qIx4tVrWDG6S}d%r
zrHs)8+6E0>A*jBeOXZ1Xu#Xn`fIvKPn}xE%Cg@{b_`m~$vn|*%_3V#L7;<%hn_4Op
z3x-Kv08r!QB?zn{&p*}$5HFA^r{M@jkf5W4Y~VOI_}%tGtkg*l?HI$R>?Z}&$dSs}
z{67F#58pury8#c{@Q$QI%h2O9Rjc~{5V=(>YY1EBA1?dGqu@DfG$c<HU=nQ=EZvf)
zBQl)EMsb}K7a$feF9Y|TG;K7?J%i7->^=x(ZbHh)7|3Xz7uw<%Nzk8WGF{BFP*rQI
z{U?zwrC|)|20Izt>9*>Y#>d&3h&fGQ+nL$QtVOo5;pePf#qTvLEO!fyBPrjRqJ|-T
z|A0#ok{iJ|T^ov!Bu%Em(kGK(IMYdg=BqXp$jW+>2i7S#bft7et!0?AEy<?Tea!_@
zh^4R=1vz`Qi4+hlsTxd|L3mKaQmVaw=!w3)x-Yie0au;3>&*NefOlWJ)Y5Rv=fV23
z&BuZy&j=|s!#V$(;Ifi~3prnAVu{Q-P4C+TxQ<mdZ^&f04LIsRC%e;w14t&M;C&(v
zD;)Sby1R4a_TP0wg&UN5W^HV4ER(0)8yj*EIp-b|(!V>?8Bu$p8b2v4DeOILSrnA~
z)dUhS#x0pY(evleF~LBi>NvSrkaSHzt&(;UEa*`?D@;0*#cEfpY$aFtj`nCp{uAH@
zWBplY3D+(F-xGU9+0kk;`N9*m7tYl8e<^y!qepV#_zJta^28n$xIFfec)atsi?^})
zoKO&{sI%Bc!(+rltJm@Tcd5)L69dHXuJr)JECX?rI$CXtbN{+Q)K1UwQGbIngAOqY
ze7L&aX)baF_l>#B)m%0+HK(Ic{mst+?4fYZB@ybwbq;oHjAeT|L@(0|DD;r58EBb=
zz*<$>EXeoa^<P0iob$&9@rNVk@#ljZtcqP>)8V<yr#fhu6(E&5%hKeGy>pa<fo!C^
z=DBuHL;=ik2;$!(qM&6UEefFYweq{epjeNP79>nEQ0G$`IHZ#zBiAnkMD*hjdX!qH
zBCb?v@4v^SXEnx$6xQQylA)ai<C#(P1q5diCt)0w;c*;1qlY}Ih<!B8#9+|v-e9nC
z?pkt*iCC%0z9kgemRk?L%cy-1;SU1*WRofVN72)Txb6gEqEblPC;duWh!hQQ?16f8
zQALNNf|Tj`Z+($5AT02V2vZM56dzJ4A|iSu#)=Jn8QoRes?CVS)c8&NWm`|<3rZvr
z&|RJfov;sa@7KGVGBwgEiBEXs9iksx#Fi3dipRl6p(KyPU{E-+E@-+f7!FSGj^lP@
zpdXrc4iVg|`#wc;6on<oAgN<c<m!DSYf@3-j}sU;rsg7-rVffWKoL|9bJG@hV6-S;
z)}cMzNueoQDf%vP!yk%HNwSd8f^gQ;i@__M(u36G=Bgbg1&*^FPgfHG*M5~OOYCDH
zLax<&`v@mz6oMJf9U%;)BxVxl<`3mf3GbH3YRy{^9#%taNT!k6fMXk$S{l+g?St4h
zl?HRkp07ePg2pd4vHLx;bPki3jO8jmm#m&D-gOYqr@(Q1c~uI;$F}vSwO4U7eNR~S
z+(YYJ7dw>O0L}fPmJ6)y_<&}DxTZPB8lQRa{TJ8tKi-Y^)4v?A?v!J@Cl8#z1}QUM
zlj?+V?XPJT=^b=so_SC|yB!+I83dF8YZMDOqU0$@z+mY>EHve2j&7{kuL&pjtB_!U
ziOAejoNyZHeXK6>YTyl44~`%z#nPLLg|i;XOsBwVh)h7pf)&)u&Bo=>@7acW2iA;{
z`ijOCzlM8?N<wG9G`c;ZfR|b<G}S|{2LKc7utm?Nym))k*=-L%X+Gf%2E+-U38qho
z>F~U`=*pegimq2onRH>S3M07RAHy}bJbg9doILsd1_+^d^5be|+-vogzlyr9GoscT
z7-G>;b}9>7Sq3-C)|v}DhowrB*kT4L{(<yDk0sKn7fz=1Oz9M>s|3(6*nux(&5Or$
z9KR{YJV}r=fQ+R+eBPDwR*pl+geUjI;&!6xk-02$h{*v}0#W7Rx;F=}K_Gu85hZhc
zj}bM)E}&2{EpV>ll<*+C*AeYrQ)%$6i%PI;VM?kcEPK@c)^!3O`v)_|uq=l>>*PiW
zehh@|bxvyA1a~-s8i=AQ|NA@F8#U1u+~k=s(Jr7~u-?g8oc&)<My)dP08jfj4eWv&
z@=)fDNjK#XIR0j0VZEPeauba5udUybDRx4qHmgov5f_!l?gD+6J`Qbu$qAH*aAx(=
zjNI5%VT#$TbFR9v`2*$_6(IFBNtKf-zx2PL9-A2r)Z7}7Y*aE@RczigGn|r#T`(#$
zm`TJ@G;3R_-dw1T$%Myun{3iQuo_*KEvy3On9tT_t*M1ztI##qM0TGLMe=N{R?rb@
z%;_bFV5kfmH?VRyuuLj+?4o7YnFhtcg@F6lAheE!*;+1Crh=WTc?P6;N4e2~bf>3f
z3H;_)z<+yOs%GQ@?fy_?Njl+e?eJfHo<OIW9+er?8G?&c<ZmFqS={mT3yO{<*hjC^
z1}T9U2<_ga4AjPxe%{GXv4DSDe$}>Xef`n?>j9!n>Ho(Q?rGsmhNH#TYh(#h>l+yw
zNB~EK42eyql@&FrbUMY{TAHbk*`L%yUDXJtFnr7Ov3%b3HXY4<(PzF4`uI+ys3~*z
zFV=uCg6iaC1@$8z)!o}@XVKjRE^WbGG&*a2*Sq%neI^8>A8-kt5^(s=3%{ZBWBC&L
zfp0++iP=UNNEqTzbuP>5zv^7b%oizKckhVchE6^FL<n1#H-I@8j8ea&Ig{e^G0B<;
z3l6GaA~id6U`YSmN3;MSo($4{iKq)vnDU}Gxx5wl?&-uQSam?pgrk5XEq;c~b15wp
zqz8>q49Y^JgPIm6W*Wj=_>c6XwHH|9uYTMOHl*yAzye|HM@`BOq1-^77x%ZfOZ21!
zmeD*Vr>&O~WByEd8qa$iS3crHrY)+=8!&WeHX-HapEDc;N1c|GM#$%H_sHw*VK>59
zfV4f&ka>jBH~4oj*2r?9e@tEN`TD3i+_D(U>7|eKB|XJ6RicdH3}rYg^sy5UvFN=K
z9>d!M=)WL`XI4jU#0MZly~~>F2Tp>`RkebJ7GI)?jF|z6b8xxef0_iJhS(b*J0Q6A
zqRA_J9QbQEUy=BVxtD4^cMW&PYDJb`5UV!xn{M)#qA?E@WnA|ZMc<j#Qn03qrt>hp
zVBKaXHa&X$D;-iHlnNxaNTT{7RiE;A+jSZO!B%YlF_;YF60i|)hp!7h$>mJ;C(afi
z>i(vLZcsdb>#sDHG0m2PHTw7YF|TDDihMheJA3AsYABSriDG3*`DQS|kNcHESW9`&
z)T`8y!fVq;-lON5s+ZsP?HAtDOT{g&lhC~5Ro88?1we|!?wlB>Qs2azo<Bf5fnB5J
zZsDWXD`gg1ZvFe*g+H=tM>C+FEU?K^H%vC%nxt=-y<`mUZV_~83XNq{d#^2>KY)dl
z5ZZ+?o6OSKO$v;WfOUYFD(#tnb53GS%E$YnR5>v0(xN2+%uB>e{X({cI7A8V5`Lkm
z=nwk0m=)MuFh@+C9gST?u&jL;m7G>0-*z^e8pF#e!o&rbVZO2VNYsRV)s?0WB5${B
z#CmSOUIG&PC^lPSyTP(k!b!$R7&Vfvl5QIVgrkHy>WEEx#3_o3u6Xx`#_PDAgEr+9
zYyrdkLM9s*-bDM-zol0x9YPl;gX=Nuc*Cpi8vI~y=f(;xgTbejv;K1+0XCl}vpNcv
z_bJ%^Z`v*vq7ly{<%87@P2x=e4sPyjM<{FF&J+BxU*8qhGzlmnH?@8W>@4*^sw_jT
zbLD)?cd5%u^q?^!O9noHa-ax<ykr+5WB~=<3(>kal^|mXm0t>zLsshWD8R~#eP7u%
zA&+@bq6(XM1n17>Q7+C)F~9L1AC*`{EA;LaMhCQncrPXPEz&wksE{?Vc$gG4;Q3jQ
z!$J7z0H5?c!q8b5=HdqadLSnKQf;gQ1-?(9#jabnFVc@|$GkgdY6_r4raVBPRAr#@
z`xn1sZ<b&HxEkaSPQt#8Afn*z#{5LT$m_frIe5&cHXr3p>kQIFlBH{l>l@SqF{tCT
z{?<X4AM>eq!{A=9s}G5C((s3)M-2SMhk0pkXg5uyU_JdUNxGS=qUnU^heWa|^qS;X
zhKJ7JWq#VDsmCP{enIn_2i^puIFHCe;hf2&K}`$YWF-!h5=%h?mQP>JKflt#npVjA
z7!u86d<`cQBbeZ?b`%OG<94oM(WdVddkS2R*zSz4mW5GBC8345eP|F>hpJ=7Kh|a!
zQ|P2mz{tHt{FwFjPm2}$y5tVM+sA}5ypxE^)K*nhUNwewoR58Vc`)fF8#h~b*m3=~
z8l3}n&8YuZS`)*fDAX9EJ7}vSfMS_{dCf)dSYPZ+8Rw+i4qx*Ubz->r{L-l0eS9yF
zo#dPfaH(6^pW9XqHe_H&PYuJIzl0Rr=f=xC4mmUZw9_WbR#d=a(_}<=_)6$L_&Whe
zeDHTDh`bRWYyqd5njC~Z@VR&T1hhI)gFZ9A395i>Qj>yx7!moC>|@?IHE|x;pvKoe
z?y==-r}qqT`vh&fwM=^KmCsB+2>F_b^Tpaj<k{RKaM;P@V;Sb=tp#b^tPsCG@)Cz~
z=&8lOYRal#3W8)LM<4|#=;3(=;bAkgslsA5`raspT-t&L$hvHMNnfqoy)|1wxr5)q
z@FONQVh@KAA?JVUpb&@w1R#;MSco8^;>M5yBs|$dx$($D{tn@hn}WU7Gg+Ox4t-y`
zxvE&?$#U-*Y85jCIU67Np?4Z(j<j0EiB+Zs6KgG;ThrO9>pFQ!X(I&n1$71_L3fN~
z2~2zH-H*RK_A31!zcYDx3}}7r-MV+^xxW?SxhuQ!(+F=)vd`z}DO!ay@222SEAZsI
zm6VlRrZ4nq=nkwf>2C{@l_kt9ASt(t>u53}EDoXVVCou1r0;zaS%c5J!X0DWKi%Y~
z6%mgizyRlO`6YH?Ul731&}R?q{tNEH14Zc>iLngK;IpxffxYQm(gMG5h{YLEG9;n>
zl0LDbl0Gq{zcjmt3+RCZWEsRDi66-LFp6GE$T+5E&T8$p>r|6IvkfR<q6gGo`w`xX
zRUO3e6>Hj+j-qE0UWcjYse2HqeSs8oa{DbxBS<*dVf&U!ZJR60#~*E^T2b6o??6(@
z|7zCcZ*)BipXaJyMrYf#;Av(2yJXV4#^b15WKN95@`7DF<X)xmc7R!W-*-vN4FCeL
zuS`ZfVC6*w%vavvHoj1ZMdEe-uLQiVy2peTvfQbF2u+_7;1W)n1n%CO(PfBBX0*OQ
zW@4ZHcTN%AjNd$bB7>dx;`%$`;sR_q(4H$%0XXkW$~98;)1ww=OS(6S5nJ^m+%)gZ
z!_O-~cp)VisdIF%mXP6k9Eq=!i}LjI!oU-xnY1j7dQiER{P8$|r<hIY_ZNnI?YKzk
zc<cyZKIr@F6k`eG#;Fhek_I6u@u9?9^VgQ1hJYOe-wsy6T);rr7AOG<I{jLD)8*Qw
zZNXMp=}^$oA>qlLvG=dNNT&-wo8thn*m!Y!NEyd?@SL_K7L(@?tCEiI^LlB8xH#eb
zs6ypuWC1sIvWVa}K=V;R34bEW+}W$V(z8HTs;6Q&iQ<~8^dqGx%2TMOCqj(y$tjC~
z1#BNK5-(;OvGlv{r&xV-9G(%`G8Qy8sew^p40F6$)B!GOm;c%VikTQabHC8F=){a@
zYSz>hZh<RD*_$Mp4x+&N+al-7wuKFh{fA6%CV&hA<6I{0w7JyW?Y(*MR@3giIkbj#
zxWRI#**fdpwViZ`JE1&9uX2kjSpFqlObhODdWqK2$K4`59m~=kTRg`%njpZz(Z>^*
zYA>K&A-zM5gyFgg%94>~C2voJM@unpHmw?ZUvB2NyZn)c-}spVZoi(LxmJBEv{IH-
zv2(L`?L0Fd^u4l2iS!Y)2laXrQX|)t%?TS%t!jBgVDe?3Gj2~esE#I;#4`iKJOmG~
zs3?7>%0D~YAPj``=zhHiE3Az@Y5@385je%lZtZ9PH2DTO0pHclN}JedU}EXKAC8hi
zijP$_3mNouBM=9uBJKI9Qjp<sJ?$@#P+m*)o<3sw01oFvUy1&9EY1(ZO)j%xm;>|o
ze}JQ}Wak5A&r;!9Z0K<D5$>%<mjM$)N9sV8O&CsLjUv0Iw7eJK;{4%@4prl4i<uO<
zk&nN@<@~Jvs8ZwMsZ3%*!}7pc)$R>o$q@|@8V6Xh{if$cjTpdi1rxy`kPM^U-$kB?
zCKdP$8)$9-FjvIIgex9lft&3a?Hr=@Qo+xJjgu6?SX~7=^eL)kqN@sJR1*#h2yVWX
zI8l{Y5}@!#q7<^w7b~R^4+?Shm-v5U@*S*56w1ApPu9Dti!4#2O#K4<1FH{%=sQcy
zO0G|QeoHHEadqps4CTRke6ovRgRZ?Qt`Y>dW0}NrnMVs7;$7Y?C47DpJSslapPR4`
zcVatUp0_6LFFJ{eNJ>{xo5SHnB)!c7SWvCg{-bczI38kWxg5dM8&b=-^WJO0S5g7L
zU^Nv9DZbapgdkX$Ra}7uz<7;$i<sm$jijI*5tdTZ1O<}wgDdVW!KA`4bme6ol)GTR
zZ!}U!z3-?XcZaLwPt!fluO&wO(M;+Y5m+p?obsuAi`9-`kZ$Y*N1kCWA6a2LAM<T3
zyV@&aTn>U`wE*pl4RNKARfUrpY%|;<7(RdZUUykYo?)ERP6?M%S#G~S#KQ3|>%J?r
zlw&7fs!f5eAZxsbDml9)j5cvIWV{vwoqeTYk!RTI9I=nOfDJtSz(fpkT9p%CR2z^i
zV-H9Ox|sMSQyG=lcwGYzFyRAVl!`+JAVqh7RJi8Ol;E8dnSFtqZSYCAEsYU+w5fXg
zcwnu|-n_p-V%bj0=LF@uT;7xAR$RQ5CYR{S(ku#&!XI{3%0{Mc#z3#M{hqs+p3S=6
zy7&NDcW&6KFWLsC_sMB%BdUV<DW9vY|JN7G`a))D_7`KY70Qr@Fi(Fn5nHj6H<A*K
zCw@4m#T6tfL**jQ>h@#&ZMNJYCWay%Qt-Ga{*3;9we`5ab9LqkBhz$9AW3~7{+zx8
zK15E8$C1l2&Ls-o-*q9|9W!*-@8lON9f72XBe{#jg4!}#qDdm-g%i+i`LCMM{Ox|k
zdkK7xDiK*QD8A|zw9^ZQR3}PjvV_%_X)3J;<R3*ilur@)KCG|i*C(O|MnOfw2~)L#
zV>%T_A&i8PbWuNx=`1Pe3#5eXY`*j&bSp(^!@IQhC(cZu#GTCz_J+K;^>Eph^C5{`
zoYkXZs)8?OiDxV-F|kxRk!<PGC@wEzrN3^_5pn_ad$hiz532gF9h(==n<wp5O*^K5
zprKNYh;oE23xd$)c*g=13r|Okc+c%UHZH@$om6WEM}kF?TgUD=Hc)zf8F=_*BnrVp
zlo?^AhQ1kQ{4m%17Yzc|tSN1JZNFmkOaZPfkTwroniZxlHc~_sclsiW-lL|Km@QMN
z%q=lB{efK&i^nIJ?oLc5V!7@^dh04u_R)wSscFv;Ludz<@Vp)5dFd6y4Ug$~sH+Z(
zaL)_eW~L}3xTZGHq84b)fh!hhX@T)Xmh%$wNxrNJz|*f*b(r;-R}?iaT2s{^<|$O0
z@b}2bHIje02;&F18YJBRBrUgvOB~Kx)^W%k#Vtffz=FNh11h4nFmw%Wl5bGQSP?V?
z2Y%N(!k{Y=T;|{%8%W8Y9wvi{uE^sY_I1D~F*Iu@2RLa`2JG*JUu((p#PLtga>jNc
zX>tQKU|pV(D-|kyq^FZ}tr`9%FQifpZ)HBOp2FDyc7WuRZaA3l9(+gbdvT><*Gu;>
zg5ILR#NiH|Ycb2;cq*T^;IKt2Lv}J%<Q0;B5A?5TKGi0hu|4TBFg`l2wZtVT))=YW
zT{|ICPqJ#~qn7|RyB1|!&c&B%r+T_IAzveWc2i;2678}|Tstp^9)2o`>*c7Z8+@Un
zJx5ipqo;0g5<65eVIIeqQHZW#VJW+)?(19;v+0&v2*u!0#<x7zca$Y=9T9v1?T}ry
z9pmnS{%Is@tUK;;B2|5o9^f7^Bgw&cKuZB9NF0ffUqJBO(#J!M{rzkvONfQuC6T@}
zG+O=bv%&F9eNxKjei8mq^1P5CBDc(8bQW>kUxS6o6briQVjc@5N9Z3b<#UC(s3^*d
zj9}Z{@Ugt<>?jaU>PN{xmEa4wEcF+4u~ZlP6Pj=g6C%xk;MYMg`W$APOv97{p;m?`
zC9Amxrc>m|d;(99RHieV)fn3gn+*L=Vhn%AT1+{@P4a^oH0_8;Q{g#z4Mjn#{m)R7
z3GxJaLhOTsNfhls3i>5_PKXm#tR`L9vlB302wptfFyz^LH{EsKjh9JwLm1XSMek4^
zdbDv3yjOQM+>uxh8e=PlH*DY1e{atoQ(ia9w@m$k<7qV{3VAlyN>J9yyA{_nAYV%j
z$IQ2T99r%=`8YjJ{ylT2iXhDFRQpZ}YCd{NT`Z}A#>M=tXW+~IMPg5&gTw)@o+iW^
z5hmEv?rBOC#<cw*{HhO`*1X)!m$<`9s-tp;I4cg1Jw>tPjMCsXF%>SIfi}0QlkGwH
zQx!Ju=tQ*~N{7v;sln^4by9o7?jEk4%?H{El_1=zTJ=_eN#+2ZK@c2WQvV9&QAAo|
z>+%sgzANS#v!nCX+t1vI%nTd-k*B~vPP)w<9`ULm=#alw$qP|4PGH~K&8Z?pso2*Y
zFJLXa{Btg-hUR12(7P%2b#$V>@RK92yM>_3+_C2~hdP}%*lO6Q1t~0JhpEBUx74bc
zulz%|2Q1je|7w59bhRGr6rCjUJ0?p4VkYPU)lrUd-}3))q|&v;{1qFJ;pATc#3-&?
zZZJ5QkD{pV#@joowk=oAaR_>A@Xjjbg$Ma4<HJ02-lEteq0^oz(MGh}7V+dKI4zeR
z`3Bfqy7*@GiddCAabG^{cez?#17t6|*2<d9n3{ZoJJ!B%Ul+D0@TRBqBLm)W2<$`>
z$wNOa&d4}%1?wiMdD6V6vY{n_awIg8zaZ%wH_<TI`$czUMVx-qPSdmlOAt<}X^HJ~
zI)nZVxQ6rFH(DQl0r|;`{+#_xN)!~-5yr8_oUp~X!|hn1KJSAMKHHYcId@5uXUwPJ
zWSRFl=Dyr!nOM**Q^?LZSS9kd*+ic=a}et-C(#~pHY|u%-tzi#`~{{B*9$Ycv@V<8
zZ@v;QBlYi}!qiUmDEl*hsE8NyXr_rWQh10*R=qCJ3SpSM+Xxbj4}tLVipDuzC0NU~
z;t%E$PA)%+W;Jo=vzE$s7_q0W35DJas&vR3ljp=DdmQa6GhZv{s0k4+q$`>GC~O9)
zax4SF+B``{4@;AxVv5OWmL;GGh7R3+p`o{u=K*1(W48CFsuZU%7+)J-H2K4nd03v~
z%B7`Qkmo^3AKW&^^So+}i*W1T#3J8SeN*n&0LuQB0CZlc3p2~k`tYP@|AH??aDpN%
z(`~!c_KSMt5F(VkB&|1!i+`k!rx4L}$-aa=mu_(%=%WhyaL__M6Fuy%oWiI-Eq{nk
z5yZ$%{XNmIqRw;p8>F=Fr~qVTOhfu#1(b=;>A7(llE$uMz24E+2=<GA+<IQ(Ue22|
z)30328jjZAK4VCk-V7n5x@SSZK?nU8|5#hPuSFu>(MD3SM?BNs(mF6S-@x9BPew;b
z!#G57u+hlUOG-q`NzjkeNi|JQ(*Ar%O;WSdR!_=|&-{?HM03D~)C;65!8U-zYX>?C
z>U8eO#NS6MM$bD+P3o{j!aAbR3RnXf7E=yPg3bOnIvFbg`!hNjd`p<tEXZrAfW|DY
zb>@hjpSHBX4xn&(e;fwyq-JQ@WxmefKoo2*2}$RFXTz>_WY!zTCyE)4AhoX?B*2d;
z46bMJzs;<YPu~-U66+vUC!Ssbl1kGdUNuH78yKz1urj~2G>LT&(1I*PpOEAZ;`*fn
z8OGf?{uz2!d^iEsqj&R=JZ2}?7!6XuPUYgxC?(xx6#EpjPX?lvQ<#(2n3zOi+&&Bw
z7_f+A$MvB;#Bq*#7mBsraQyli{4DZ!Z3n!7Xz9Cc2K1TqCkA9`Xzh(-gyh`+BO)Vf
zOB_QMMk>M022#k6)rUa${Y0SZ@KRf@4SBdNZkf7ztWLVtlAtkBNsW<(wELXQK)7?o
z*jyvL9JvzvHs!G~USAnYNMRy4s5)BUl1(t&HxbeN;?RX#3vB6_q$wExK9{+?F-q{v
zV2ik?`b)!CzFhpb<-?k=>0Rvd!s3NRc54P##D>d7H<AqTlPB$p)p*OrvFm$xS**!+
z>~lL&Dcg-|X1vAFVR>CfUBThLy8E}=8C)P+)VI=RH;W!pweI>i+oq3t@y)j=%&}U;
zDUW*97oSJ{huxur?*wb)9?|AkmGqZdab@b|AH)Va$-SP$iTc0X<u0j=2_i$LHUZwR
zcJ0G0VHulzGbsibJ|U5(N?4&5Y&j68N_7l;GcT*x^=l9EeI%oS-<e5|7F~eI{za0E
zL5Erd%mt+cokABX#ZLQ$9tONF_tX+T)hwIRtM--3e!_}rF6CpNXE};=?GD*MD!WUe
zzvYr{G`!c{DjS<^PYQghId(TMW)<9MYBeb-eVq@SjEuqk_|03b;q`#$@2@^54^!v%
z^7|sDrDe%L52_BlZ;xvAZ6SXT6tmZ!6#c*b9oJD)B5Bw3A3Fcu=VqqA=I7m&4)_X3
zYp&kz5fofiKF<-DOHaP|E0|^<mAjg)${n&X?rGRQ*i=rgXuP4FdZCJ6*GowvFn7h!
z%dXJW%C7~U+|j272<La@Gw}~z2@$Ep4$T0SqrSDB(k@vo-3#23^ZFC?aylAa?9}T-
zQ%4dwS6@j!4s7js6ceZ;G;&Qc>60br`q>o8yjx%nEhf0(OAfloC;24u1qsT+Z|xY$
z6LWK!H>7f)J*d_BzpyrBm(FwZNqTZ(X$^c3HOh@u7<3yhlE&8#?T6K53h*9lj&UwU
z&U%&uKZD1p31J%SOWa?NzmC_IgH3!L7WI-v^@he#*9KJLlBg@o4$c<Ol;ig789t`)
zu4=vG2|{uIVoc{b(@GffBnzci>atFc;&-LUdFb(7aXnGM>7DFek&Lrf=z9^VQwTPo
zPbWM+le2sK5KOlhEEYPkH@R(IGW3t+svp`OzxQnW^6l6VY^Bx2b2_iR^F8ws_9DPU
zb)FK&vmr}pW*^}3`DrtWU$GMFvaN9t<5V34o;Xgdgj}+Xmhmna02b*NhU~-f7XpuG
z*=Ly(Nv{dLTUY*+Q1til=8qjqcds46;-#586DEjQJp#$bXUG7DxgyHIRU{x~5dZ*|
z2_yPcfNd*%kg6tBB;hL>7FD)~CHL2BYoq*vXSn9IIY`c=ld?bl_ajW%ndZZ-&*k9h
z17(Bln6q$e)rbaY9_vPdL*2eCTd$fHSe;1Re1?F<r9Vck!cKZST#ZlFxp-}TFZO`F
z6`t1BsV`Let=bdINIhol{2^+d(4{@N@i?t0L`-@HX|Niy0|jmQ9OkVy=mk+<B7ksB
zODUUX2Olz3+df%<e!EH_0+2JL(V_v`sY7nykdS%m-sKey=~LyQ{m%H`rgSK}Dm8k{
zOhKzE$idMr5wXZ40&KAZUK1l?qoD;GBfY2i#1&N?2(3*OUe2Ty<&hr&vVZ$498?<y
zifGM5={UTJJ3j`*sAjA|3WaAQ_(3-&>jn@xipACC=cx@_O`du-kZArs>Rl|>C9M_K
zqTE5#G_v!<YHK<%2W)UV*&&%JS3>^Qw4rltH)^pKEA!Fs_8J~acYkq0(5CMN@h5k6
zg_6y?ybvQ2-C8{{uWLvd*5h#DyJISHeP%_hVSfP!r_k&aBm<;(LIfVLqwa|mpzbGl
zFh+o$!Jj3GsI6xjwhE`Px+7GLaV3&IV-YfFen5E65xu?(h*eB&2IL8w@%ckLH?v#r
z;IdVXi{hv9YZZY9h;t+2(l+W0wB8grAfuER<H|s2t-8Zw%94AY39y>WJQ|?2RjlX(
zRQEeY3UcV8LT3XM4nqClF%bJ&GY79I?FPBpME`-RJs&ZHNLf##+QU>emGDPxXgN2U
zU$wPy!JL_t%;;BC;rEsan=$5LHx48GtXT8E71NQg@93rH%>{VvYJRK=As1_&Kf&>1
z)e5^Gt8SA8n72D<g!4)laOCf{j>X=AjwzsE?>XS8g|1*q)DsgN2Y{+^xP<kh;JzVe
z3a(Ge@ke#W0RZ`JN9ZJ<n<1e29gKACYg_0cQV(wMGkL!_LmUqf_6I~FIe-NJ=%LWd
zYB)CyVTVXHa)utyYHIUyIY!>@<_}%Zjt~U&X+db&TvKLBvMyIU*v^diU;YM>s@wo6
znRO}J1Trj?3IB)TImgcMZ4MWST}5e=(x<9*-uEM;k2yqD-LM3L7amW&=(#Iwrl6Ju
zZdhCk(Qi#_fqg|}JG^QFH{9BAANNU_T-#w(vUKwYYMSV!3sx{mTh4HzbX#qSy=x+l
zzKC|Ld4gKjQk$N^`tWW<2am>KJp*;eV+$yN=YB-O5hvoEx$J{a|3HOIkAQ!8%r;59
z`DHg~;DPRcdxH=tOpno202ja4cK&W)03ve4bc>x8W-A;LgJtFH$tOrDyz3ooD%WO%
zJc^_R9hYwH%{m4#Jd*MfJ+P|T1-=BuCi=%(%@j-#8>-f|<`oX`5>9AG;4akhS+_Tq
zPEKg4CwBhg`AskIaPb||VVKch{5;NiHeUz5Nfg{JTQ-XD&GP!1&z$hWC_2xa>{w)%
z1d^SzyfF?EVXO@7#12wH`*kOl89s0+C-n|21#MniQnM|LCBY!56?UZY=3b4U5My46
zNQ_UVuR25toRVQ~EXP4V+uS>17e(jK51gfYBOH$M4u?i!;HHGJQ96irM{}j{bgmr`
z!$>>7!o&$%-9y2}zyHS?do`wm)Zo?Q&zapW)w^l2g_8wv&Ml2mwfbxyzhMKz-?-j5
zH}HDNjWnwZd86Q`T85oSx(rRoP;RVkwRfSXA)9y_C!&^vB!|Ut>#W}IWKJLRgIq&D
z$Yr=6kTC4hPL9)QTD$l(Y)=E&081CJx`Yso!;OT;u=&NnQg_-j=;Vl?ZDZ}<i<0F7
zS~9Eoj`065$ks#755g<sXxUl1w5HWu6Rx@5DIK0OX^B$?H(g+vLk3bbt{MKf`bm1R
z19X@dYLSP)Cf>?Jns-yz5igBcox{eebsv@EZCzjf%h75G%NLbtG$2Dq7^O;?mr1-D
zgIE`BlILAv*iBEvGwX-%!{3392bQ}7B6XA3AY6v<ZW%s5*e(r<BwUTmqKam2{?|Yw
z_KqEtz2*m=S)zZ0RD7{lpu1Nd&F<xSrAVdI?6ch=Ycodkqgun?Nph#%s<gZ($QGhq
z0Zk-LfhA;!K;H?05pFa6kMhVqUYiAmA8o1?ZKzErgxW>_YcRiJ#8wI}#oQTeCa>ug
zdps`VKYZ5(h5|%bI!xwQ(91IYfIsdJj1ASu$7~pSx0=^^q)dNaMQ(&)VE(xC9>>q$
zx7`0lho3ybmido%;|uCrt7Ou673fv(yWNn%LG2Egvui6nm6#<Yv3BjiFW)+8N{uRz
zrF^)SaPj=43Gl!JPvkw3zDY0JCq3|C`3cSpL;MC?Ok3Pkek&13u()-<D0KRhv;hwU
zJWy0~@ZZ1!2Oz{oBK}cM6jPA}Y%=PRrJGJaI+n-OkJY9V?4(Nd067eB8`l9rH4n!5
zi3)MCb@}{9c6Dt#S&l|O3g%xX3ezSsuB4ic_Lz4;yY6m_%>&T$gsK*EQ;Aih{n197
z;1t`tg6`yEOKFM_;aYP8JptlB?}HPK<Nm?gM?Ihr0WLQz)E^fw@&pS!u>6nxsC%|A
z%zz4wpoxN{OYDJoS}~!pJ?vwfPDZeMXT5?s^P<Qf7<D8IpvrX695Ix9f|1Terv(={
zVEIp$NhzE58tHJDAHWv3<B!s&aBieZe3kO>6qxoUTgjg@2Y(mNJ;;xP3b5COXH^8?
z$Et-U6pjdigoPSqGS)*>9^=hGP|Qjm`Vl!M{ZCwuJ~;Ol_nAP`S;>O|D#z&BzI^c`
z%wcaIiH=<?P5!74qFKP6LMkTyB~a&j=&}eIAY$<ct{neoipZD{iN1`EXW3n@M#n4x
zF2|;u-F)?73F_-|sD{k8q{;Iifyi-*<Q*5q!4x>}w<?jna`$wI<IP2I{RJGypl<W^
zj~JP7LeIm<m%%axX_w%UNK;_&>0wMVTP&keDu4aj;$;g|Er!GrsYYQ}M;qg8GS;d8
zi+M8T58a4D&yUn5II6BdbnoTKsC1OO3;nai97<T+L{JPyuqOmiYS#mZY#zEL_~2-;
zpjf0J_Ho39K`i44@%iVRZopW6k`*ZB7<vJaFhG%&RQlLp(o21UNux3U@W%(({__FO
ze+Ry-shG8H+5}bhgjmVizi|Z7u2DZ0q!y<*YP4zWws`EkVY7vfBe(q=3$u~>!TG!)
zndS^Obw4P6_@=@X{ow^3Lj<JL(QFK_`eg^+d`_>CJznOBuAj}@`S<@)!<DLtm96Ye
zMn~W8<<oY~N|?v>(kZhQk&?eDp=w_QYu5%(et8pre$qmfoB$4^JgGk=1&fb@9RH9#
zJM`c+=hr|dhZ!2TgfMjIxeP0?1RfPkoTG1yHYk`IA5bau=)d4iOEB86xG{8eei>e4
z=9v)C6j*6e_-&Up4MhK7CZYY#zz}ihYZK?bO6<>!#}ML=ISqLQxg6{MXHE?aH#z;7
zS&|><)t~wQ=)kkjGVQ^Q@$ri@ShX4}EY2$UN9Ak$y3y14Up+rNen_&9s7*V_U4iMI
zgHuP0c8de^4gAM<syTjq2jj<g&Oy5qV0q<VjBAqyf=K5h^v|gZ7T1dtk``Tir8P-i
z{Xdc`Z2Jkqh(CWz7?;j^Qw|SpiXCo;Z%;Z52hhUvj_6xt>-H+0SYHY;E1KN`0@_k2
z{Ct!T2Cri~_iB@tVvv;68;tBBvg(%kBNo)0YxU2g+ZeaTt|vN;`jUpXjB44;2zRKR
zmmq#kHk(y;`VZyPKEmVJGklHl*3uSK<ZOU$U|2TZF(B3?ZwdK9ue~qs{@NSh__^J0
z5y*j6uz4{DIP=WI&4*?nPzzk*bPrgojKcVc3RR2zi?GESRox~hR&kE+*K(78j{hHN
zji0=r(!X*6t8~w(RfMP|um1cBaxrT|iqgMY*gB*i__kKens1Ol2J3dfQjd8>;QL}`
z9}$BMyeIPOSq7tD%j{EyZT3@y?!r+WTyj1mwM1ptyeI!*kGKCSSTyCUe>%6CpaUCQ
z$NMKqspbW~h7?u%l>A{r#$UewHBBXODKk5@YskE9o728&=X%tp`=q^P1MF;#?-bE7
zq}=S+O|=@^T7E&2;v~+EOzBAgK7^Kz1FGau&KYY9N%Na_j>nD+qj{HBsZKG}*m~+_
z>PdYEU3>c(L8g>>(*F2Kx+#~y)rGK?@32g6@;6>E1*g4&2}m@w&jN!&Blv$|-jCR@
zfuj8k8M3<C18x`v=ct{gwOE7VCOXG_$`0GQ>A)>Dn&>2*P~F*OahNMi6=zat2oB<p
zW@=w5_(MnQTWapR0dy5#4Mdg22e@GkO?xB(*N-f6VKxOP>7)qSI`^!$kd*Bg=m|B|
z-qGu#;nh3_cZ*4OOve4IubRYqP7%c`^l9d>j;;_*(BOu0WbHR@|NRAtC3TW+qhc>J
z;eAIy4PQTFb>ov{-aMpFi=V~8lz|8M#r>b46s9>~?Uw&U)YL8q+Fs_(wpjRjeLry`
z3nfBD)T|6~+S)tf&L_UKhKxz|Bs-a&vLKUI^Sf^*&042u%zZI_4sLl!bw*%1PpJPX
z0D2fjwz2d_0Xo?V9dfhvHSX?BH&&ArNY1O!k=50npvNe0hfOT)#RgGEy8~!I5-*t|
zYOr>A#b52-31?d@ujAvGvzP}`*P1WpyV*&pK#yx=3|?gG_+T;}%P@*mhf;O+9~LPp
znSwr7hsDxc0J@2ZKcud=xG6P_yZ92t^mE_*CV;B>Z4&W0)PG={nO@&O((0Pg6FDGv
zKNEeMSvF4j;z%Rs-Emk*-X85&$zCnVNyda*GRRqE#^_LR;j41Kpq6OD=Cxj_+C?;n
z0}S7K9N(wdrV#zrB@HQQSR-3<PORNI*4>}225Pq%b`Sl7dSQd;-m4rhztQY2ZlLeM
z{+Sw5h*GeoRNGh05a`iU-d*a!Ig3|3#9C*CNg;4+LqyquJ*T`E{5(^^7S;CQGeEes
zu}!#z(r0(IzRuWR_E9+#qNE4rv>dqyNQ{QdkU<#l*`rl0$tE!AjoSM7Opu=B65B<i
zqL@!x`HC|7`e5tH(5~tBeH)(?L2_W7n&B6&rZn_Iu2l6VhDe}Ws;W+l|JN;bLkaz7
zM@$bNy!l%<Vxrg7=#|t6H_#B5Wgt^*E7F@UiD}#Q`0VOM`|{5!glTl(<60I_0n6J2
zQJa<nMceBf*5C0hnK_QKOxghRlZo1utd5t>a|!f8sPUOuom)5`Klx0^tNT$c@i4}9
zH75?oWt}W6;OJq_2vI^kouHbyGKTPd--A*is-sJ-(FRUYfxY8TlW8>xY5a)^4som_
z3ttvavq}Mgy68+oa89tr;q_Qe60}~hfIHa>tt<cWq^atXlnEq$eYg9>^xTyVZUNWU
z6&mNelR@!uJ|$uat=6RcNoHEd(L_%Hq)da@XlPuY;c|fnh{Wyeo!PfN>C7fNG(M|1
zWLUgVH#BKMO4cFa6%C*siN;TOqKGT5r%{Fk8DH{g{Qc8lB92anAjy8uWMM73#DpU?
zbM|acMx+o+qpDpIKvy*`?{Kf_y2@tlv|311w@^8n_W3$W`sd%voYtssWsBLEfr4Yl
z-BsJo(#EUXv!GbVoDha17l>i<G-G)u%N#ZuSIOCk8esqy$HZn7!XFrC;$<Uz9KD7%
z6=`p6FE<RxZm+daM?|>8TFq4*mxauxSyiJ_30YNPW!K|1MMG1iE|td-kx4raotID|
zin02+iO+xj+M^98o#jo}alwCz3NnbCaR{KhHnwSyR+a+3PM1Jfdva}$oN@?={%+V}
zY+Q|!s(MOb)`ulcvdz%W_{yWCbZy#U3tKZv(YiP7{izF>(X&9WwBCoS3fUi`<Nig(
z@+yPAPz9AAvK(K&81|t<y~ZKP5y6#kXn*;-`t$aT9M2qVfkuxaIN&SkcbH5rXD*2i
zFcWhjggm9_?l+DM%lq=lo-@4*36)HxC>gF@T!ntqJ`T3a)XM5MO+b0#4lZq9qk?S>
zj*kK8s6leGBv<{OYLTSYR(T?N8blRC;uTP#i#ezST}l9%L?(=a=pCH!xb%FvIP79U
zD17q6QRRHU^Pva*16K$RFUxyQQenkhQoXoPuqAvag^#L`%zHl`PQUHR)aF~EB6?FS
zo6-;swY<v59*7DBH7mbEVKSo1KpC)n6BE>8nSsuy;GwE*<!s?nS0xY4BU(y3g5~cc
z7d~Z{U+~4or#@(n1AyZ8(oZPyl<I7u17<5aVZ@dqK{Vub%f$$;vgiz0(%05-rr<c-
zlYP!Me<DT9Eq>&RTejGX;zuG^*ToK@$&D+da#2`SQM)D}lLy)~(X+;%t2IE!5yf#N
zj#=eu!i>s55}D`G6!9-Zb-D?Kzmqq0OU<2uQ-*7lfh_h673BQ3T+hj&t#ue9PS5YO
zcqF*DAmY{kKuE;DVCF|1XoaDr>k%84{E6lZbVboxrxevS8)=j>6@J>zlx8!*XhJWu
z*$mH9?Npqm?Ow)dJkj^Wy3J~<%!RFu(`V?{Tdz7+@s!2#=#EX=y)Zg)#I=Mhd4CwW
z9r$>bxp|vWne#GUazcUng9beDrE{?X(XtvjAl4zam<Kp~=C%}5-_R?f)VIBk_#0NV
zj`=XiLpNzTqV|h4pV@lV1+a6#j%#Bs71HrW-s0UDn6|hA=ITo6{v<KgsI^JZ?CaP9
zkh8<{?TMpVuZWdVSZOT{SJhv<9I<uEz{y-MKkQyY-2kTeIH?nK{TpU%v}NYarT*8s
z5EW0Bl+t)2I=nHT79YVv%pD8bB3QK>w{O@74iv`t)UiRftrAE6Y%F}KC^j$|j<iYA
z;uR{MB8BvXsq~^xdfYQziW(iW7}kN?{M`uOdiF#E-u<HW=!62wd!jLFKLJDZ>^8as
ziSFskejvNB#_nK(*R5FzC>m?^4-5cWdOqmu99#*sw@_|IQ4id}+GB1C*DC$%Z@Tq1
z{*C%MAEOdqjc<Svy{i9AmBSOamrv?t8x$B*a19g$n^sMH(O*Mdba-zBU2=sf=MEaQ
zoo&lApz;Tj`U&k{y20|(;5zp5h!8qj@*)s=qUMqd=Fvv>orYJPZZ^wpJs%!`y~x1O
zr>#|sFt>%zQ^}TVB$oqP*SK~T)2!kcdvq_4Mv$tFgaT@dJhh1i-TFN#zx3;4XX$f^
z8L`+Iubn2d-M*8v5|kXj-08osO}4rO(R6-St=##)zpPGf`X)Mz!-&F>J!xZ5_njl0
ziYG1mg%4NFiYTiO(axMO%dEz5gpO}yv!5!hFHcB>hZet3mJn2<?d=!o@gk=;*Xq-t
zeRwtmz}Dz&p}Rh|SRxAFRcDRUr~sqy<*nShX;N(W9;i>4nr<AOh8_yWy20x3U8~U8
zlb-MZ-P6pb9P8NcUG}Dr6YdN+Ru5N9>sX{6tD^%tc%DLxk}Xd8Y!0G-@M{VF>|kH>
z2vVCOH@?trFpCZ6z^CXxb22(sUghm5f2a9SfC2y3)?9c>nzGlbyOt=kp$h6@{6l7!
z?$6yA+()Eb#NGJh!S1>f3|O$mDPH6Pci)A!?m|B({(U+Au`B+Z3C%Iup2l35f|@WG
z^`hUljN&rp0H07g0x_b-b<_ac`ii3XEO|M6;_F5&guAfl=hk7TMakv4eqQ_P`Jm-8
zO}KSBchwfI;@Bp4$b_iMYzUjyG<v+2jHg@yJIMsA6?N=UlP>A4O#Z#=q%R>19V#C|
zx0CJ-AczMO%!Bc-h-u^T0YBR+ln@-B`0bG19nTdzTc3Tn3fZsg|7aCE3Jpzpr32>h
zf`~HuE}<?=^&J`pmV@o|W@w~LK#8Qv%V~V^#0~Z&2bIi%GObZU%MK{qv8S)1+u3l-
zArL$L*tS*Dj;mw4K}D%;JVg)$MAVq7H$zq2f_3UYc*FtYlm>=2S7_qRM%}crqGZtC
zu=p+8BsAhMvVkQ_<!I#?T-~#Gv?;WIWhk^0nkKyl;uhh`7dStgCVAMYrU^APc^Olj
zUNFE%-)$Ce&~5jdYt>#WHauVFF;&du?Y?u+P>8+`->)#`D0n%%*_nE29>-x*vYiWN
zDQIIwCuK5|#c2r2MwKt1cg1T|ICw>YiE?{BhcNA!V$X9Hg<xCxWLFy(wi#5h^iOF{
zBPL^{DGY~(r9V1UbHbb2xFlkj8X2e!;)HZ%hOtYt4wL0%n9#8>t!s77j@IgZS|OO~
zK{g5hvwl&iBPT$I=c8|a%fU+pXsxzivn2n;DoO;d(BPQ$WYLqtZp5iROl=@xvZ`Zb
zqf{!W?oG(Mt5}^~RO+i=?KmyV9bqcL<HHg%O-5A*TDbUBHt^TjY`%u#xC&nTrX@NK
z83=sB+AG6jV3k+{Y&Pu@bSUA}XegbDgMX7bC^UqGO6jcKjCDncT<<9~{6aCiI%%41
z|Kp11@cw7d-JIT^Jy+b%mJG7Eh9G;3-+Baq=AOv^-o4QV!g1WMvK<z%KD)PU=Nr5Y
zNI-(pVe?eoF`7O6Yk^5CDVH36B8}ISZe?3hH8wB(Mub934FOsF(D<NICH7cjR`i!p
zK-~rl8k)|hj8G7dJT9yOcV=&caodsLfGlYJaJPUJef)?Vgq{dG-Tg|sTVWNQDG`Jq
zhl4nsoD`q@jgz$T*}tS-mH_E&BAn*DYq(JMp>uaxT7OZ-FSrN0Jdu9F(i9xNl`oVN
zwOMOnXuqp}kJQ9qzx0r6ZUag9rRhv}I+dvKGu?GK$9tm2<4+7zg{|>?-Y@S}k+Ohl
znvyuMOS}YCH+HK%r-wR90HJg^&8C;p<yHllxIEZs##e}qq~^qSc0}V0-VW3I;VKh~
zG&m_MRIuLSua<P3cJ)WJr8Te?uOw2p>IT3J)MWAg^1-0*q5t;$yz<QXRJromPAMA?
zwS*Y--6W7D8mMeU9o|~0Owg$Xvgq8@GFAUYA=Fk^qa2D6ti!4Cxs-Z!noZTe9L(Zu
z)|y8`qOo=#>;zLThovi7l7_;HP|5wuyIrM~8V^GN`F#f`dB}NZI?p?PqoeI+%grCO
z?R?W;fMcz&MfqV4q;qW2?ZHg41Mbub<fQ9d-R{qCgsa6!%Z7tXY<Yc!SgmB7`R;Iu
zxB<7ZoreRw*u(jx-DcfeQ<QLDz9lEhQ_3J$#?K9zT4u2}+5YzQ#-)Q|Rx0-VjtYxJ
zTe?VpxDikbLe+h<M6m?%AZ%E&57Trm#s}tsKqoI`5&}K-X0{PZq!K>}Kd1}I9Wzmq
zFV0s`V6mVlQ48Urf($5msH;z!0e7}W+J;ltT^?u-6n_pJLoH(6B$*c2)wozUG!^OK
zGF?p~BZN}Uz$mUDH@3-hNQCE|Y67lGVLYcvnwp&ZSSAt3z4BW|GXA9XGaevHbw3uL
z^?GGNk7~tD1%Dg(4?${*MmYM)kO0+zht$^J#sXl@kZeJ6(t}H&WT^b;a|unuR@X2M
z^vuXUosxac8-%|z^%!LRp|>tdJx;w5JRW?Z+)^E-X*vK!4Oru2u8)pfKiBp7Z1B;4
z`g#txZ+5Nj%afC3{qO#jJ%o6ec7EF1UI%Ymq|0t$blaptLkZBEt$r=kVi4Lp=~0ty
z!{9&9<tYG%uKdPBN7d#}iwuGb^HR$ELyuxS$YFeZ4Hplm7ER-WgNwX+c;bMpES$C*
z6-5;)&xGs}!@^KF?bsWvOv*VL>u3&v9e*^6zPyTC8cQRDhN)QOXDGztES^;54^!qy
z;Xu3yghFGS_81mfmOy6D?6O6|P&|z?IJ98l*P8l!1`$_@;%?V4d4D`Lb)u0|dzR%I
z9@CktF&b8r;yX7Wxy+(8_Z;9Nz2GvA&Tv6f0)y$A#1;(JLC|7X`XZn$hT?7gOL;};
z;tg@qqZh(1*$(bpA+js8P#*E)N*d1DyXX};kO>A#Ozm&S0&n{c{{I1ZK!?9QEQ+Xd
z#C$kc=GisPEqz(ZcW;)j)&=pZ2<u&Ltcua?evrs)C2L-etCF(b)v*px*11?!C1t&<
z992=)zFtHnY26DcRFN7;3)i%J@OJ;Y=tO~Hrd)49qW3Yjxy7R^`ReY|Y{Pw;ZQd2y
zMpp`~q^x&|xhhICUdcATFo&i+Z?%fUxK<;8IQ9c!duPs^9%#zSuPLw~Z?d5I6sU`O
zvb;cdZa}Ws-)pLDR`|>y;1Kr3U(flHfcqF50LSMei~R{$?)s3QXM}orF_HgQb=v>r
zN}A;^BXkDtlidF4_xB|gB9s}#`{&M2^LDD!yj%VfJ`au>$QN>6y`2ol&YB~<lw&KK
z^#}o6O0ddPJpw+x7<`$5dIWrSDfmWiX*IlD%w!+gNq`e=^SaOwa$)pxo}v3LBOYD!
zl;3c7KG4!wyQ0egTEQHGSHD;_!;4^?Y06$ND=C}oMI~E-`Zm!;W!q8iLz3}DS=!eg
zW4HKL7Qx060`luf>y(1BfoH`;p&h*Y%jHqzzAtBu9lX5smd*_L?wvVuc`Kq6*jEZr
z`0%w%6Q!0@1v(^rCo}+GCS&^>`afKz*#NdFldrneQ-zx9s$5+B75Qvi8k3(+H~FF&
zO=Ui|PerGbA4F)s1Dg;LT6+`VAFvehv}Ji!al77L17Yi}g7|f`baT7((caGqS(-Vw
zawGSa=wGpYXUq17Wum_lX44y<4c!)T4&{fiMPxF19j71vwTs5wci)PXLq}MJwvYC6
zsyeECedri(X~mlhV`$QC{V9!(h4~b*Fo<^%wJgn^ry4$Q_=m#-<!zSHn~nmybWz53
z-fFQLecrNeikzp3s)kx-t5yb2R6UEy;wZ@>r+MT<cJ3`qikaLyj$AH=QVO~m=5AC&
z@VaY#i0d{m4=H5{qe_<{^8tBX6@I!mYOD53d@DXgFcS|uWzZ@J$WC^dEll>Q{H?!`
z_9fQjGS<C@az3Sf^0se$`|o%(9Rh=?xchRe_Dc%)s}x_6zxvySDw6o(dSe46OJ_iN
zDu3p^!tYxR;g9qqMd?j)?{sa}&oKvT<ApFKMa;e1@_+feq-Y~h98}nGZ0GD|?%itl
zvC+`|FS>XUI#sooi@f|H@@hZd+Vk_yIm;oHRP$pxeE(f~w2gEW?Z-BH#L_j%U8cXQ
z*j)Rz=+y1^hAE$G6>h_p0DsO0xLn__Un4o!K!2ACtZ37l`V<VEibz8o?l1LP-auhn
z;?lnX4E3e((O3Hmc-pmDU3;QB5Pr@-k}rWvwRX2>tJ~Igw|9A{MrDPBCZS!=uRlqE
z3KnUC=EkDU%$rQ!d1n&9!_E9{HfIwW|91aQ*3-YUUkl*SJqi<ychMF`t2rAxz#80E
z-z_(TaL4WVKRn<uyo1OZJfRgNbcqQp##@i#_gO@CkW8n1;6LC(SoSqC4spv&LpUR}
zGLCVzHy$eI8WZCfv)ufC%&~C{cZ%}VILJ+!CB{J(FpbTFu*f*KyfKNE#x={EU__aD
z6cRD>YnjC;r^Zq4A_9%8m$%3>Xr5zFD8}a3@_P%-SKs0EFN4JRVulMw@}=>N89pHz
zt&IoG7b3HR#+T#YMQpo(nQ5G00h9IPJ~JM;PyqdklH34N1r)C!V&0ATyo|>niPw<D
zDGYAQhlAfaYja%gUKSA=qm7s4Xvu#3vA}dZ>|tm3v~w!E`9viEZX*C5Bm|Q|%>e~%
zF5HY$lv@vhE68d&1it1mfk1A<U>sETDl@liId!mw377G~*w-=kcX0oX$*N}d+-_&H
zeUOnDF>WQN9t!R+l2|kj!eDc^Tj2K}PCnQI?={B^h71FVMuSHzNlOnu)mHgTZJ-1i
z7NFPYj**_AF9%Rp3-mG15_mpnpauGk;5<7YG}Hnun~rlq)i8qsb3{nA?}-^n%=Tn;
zBPOUawm~@JPw`96pk)d2^JGH^l76O`KWm!GoIh>SP!+pHRSHu&I1yIqzRGIu!UxV^
zgf<B*t1eu9gM7L1azr+H%2kF2D-7gnO3!wuRC&O1gjRi+`!NLwqn_3Qw}xrP_NBS2
zye!Kq>ib6c;o2wnqtL$6m#6HjP~Sn}gFwo9da(IwQoI6`?GxD7#|2j66+Vuq0=hWr
z0(S;kWZ6{>O5%?=C>i>dp_mlFDB0^+2bDF7QV8Bem!n}`ORDZl>$X-}4a;x?S<R@;
zB3LF7rSW=ihm1sV!uJN`h;IpB8JCOrKez%P^X=9E2f=rRVWDWaK%8btIar}v7)Tr0
zGN>ChS`1~gs=4Se2sVW((aOdiF1HwS5?B8K_ze>9dI;QEvA29ajseC?4%dHhDX(F}
z>kH1&ik5z#sdbvk4-1*ShbmD@+;yCA|KeBb$yy`y@=$c1zp9fDCv-z#Ho$DqQc}lP
z;5--^6Yr?tD50IoLc7Sqn*tEN{<(XZJ|s_9{{mNBxBE+sI8B&)O>inkxVNK+pLcls
z-Q%^?$_QS9G+GjDmuDPz%?I+_u8>bgtERH0=7_<({VlXs+|cmPLmln%RquP;#-{h^
zdpgmM>O-kvU(8(g7M(S`UV1OQ6+Y;kL?JA40X$s}Iysdu5cmOBhDRPio37fNIb2)3
zWx|^m=`aKZVFx2h@v^+6Y+YMn<W1zKeEtIIm_j_a9mydsAmxc(PM~v3l=$R>KsdgQ
ztI7AGQ+IpW#QUIBU#zcm(QE3W*QSfzu1<BIr>MJv>nKl{e^vf1zjuN(8g~yAjMQU~
zrNz@w(zLjEx(rSWnObOi&Ng4>#PU_LSnA|$NZC27vpd^VuP7OcT3Mu(n5@jLLK$l~
zYEiU9d4OkINJWF98$??ph;3QbFO1Fw!zgYaD=loq(9ua?xx%WSCGlG%PXCjfGMpZ2
zjS0v8DyCTy?Q6c(#Nng4TZprtt~faTPT*hB$<d(G=Z>*Iq1?+7>PQb8v~u-#sMhwW
z?~tn=N);vT8(B|%8poxoAK*}fLZ5oLevrNnq(tM#!}ACms6#3!eBW7wnl1D3+SS<{
zs;}3(7jM8yV4r3YLU83TiodS-UizHq&Awf4)R!>RO8k$*qYlJe3*zVqpbqm>3#PR>
zR0q4)+9f5jtAjsif!EGB>JSS(7AhT0PJ%t^fqia!)uEoXpbkl^gV9>GtG6yv#mY;J
z&sSOERjlkk?!~Z169QD;<GK@^rqKe5>pfmFPt4p|r~G_abZFxFfS?eXpa_jxb=C@+
z%H_kbc}2iybFynwJtz)AP1X8U9L2VC*xnwtF5-UzxykSU36cYN+Le>bc7iYvhELxp
z6oRlU)<rK;Tj*ssCt|cwOpr`$`}U2&3kzv+lQU-y^ZhgP5Ac!>)9qM8iYX4Ycn`jZ
z^U?SCEdyWw$fy)^j$+LR6|1$7ixiUxqQ`yKi*{)aszRY8D}l)$k}$XehwWf4xa74c
zbX3(sqJ>@)7eS$<Mqu^Athq#z3=W`={@sPA?si4CTk3kG6Zg89*zAF<DfDgA(qiyP
zUNeD-GIG`wE+(r?eLeVwd;;AVg*-+Ds8(F+C|9`)PAQU1op{G~!kHD_9w+k1j3EOf
z?S3z)@?4e1+7#HoEOu2~n)M$weeH9I4&$y>)v_!Anh5z+Ilsa)e*J@L8`Nf9Y)zx1
z37ix1yyn&&=5EiQW_fs<84+%Pva(c#zvYGh#tS#g00M?s$2ay7Q-geDlhmG&o9%fA
zY7eNrWydZ0cIUJxm27UBft@;dJ&wsY%gJ=~Qoi2aLr|!iH{a5sdtJO&2>S`dJAw8h
z`zt^n$3r-FfA$Ccm({ks1-sbsUwR1B3ffS(3V7PBTG5iCIuNb<M*@lB<BsFjy1V0A
z&fdHGmWmpc5rHAmasK{>fSTX{os2J(O3vxdNxC}?lKEtM9P#K6I*r!j)6;*?B;fDK
zFrztVgo}JCrsBaTh@G+=Pm&cojpf&WNP&Ce37Lu!M?b&Jf6dbEH|!J7%kp$d_H>!2
zez>M_yr9dS<mi*Z&q%PG#shv>@Qfytg1f-8*O%F1Jdgi<{7%p^%~_CU9OpFIFg!1=
zFXQp8kJ5+fXnHIN>bC-E-oxb_RxFP8h2h=<CM_7e$<sq7-B&2}1%~iT#3H9l#;qXo
z$`T+1U9Iex0D@`~tTfc$Qu-U^;z$e%RFrJgq6Ko%)E)>)$%bd@sy_GRuLa-nsfkN%
zp1$OG7I~1cH~45&Y!UcyEYcmb8Goelfx*Z3`C+||PH;fTnIIi=klR#2JoHq=%j0>g
z8gp+lR?a};ky<2OT_D88Oic$MDqQF3zDOswxVnf<GKN_mC8FH4=tj?wA95KG$*QE`
zJ<_s*SS6~Fv0<SIO;IRB-?(6mwt1l#W8t8nn*QADhCRFsrU?f`AbTT*a8Qgc91vp)
z2L#oH^8tEqslMZY2xM=>5Dtpbg#%(t;eepJa6vn)NVbzic)@~l=Jm)b+C+j|VKvQR
z0A%f+p*Rd;iU-5gwZrYGP@=xZDQ!>>iq`alLXd-#hK5j(sUj3r*Kq)d`816+A%F;E
zZ^V!RiqV4?h^cGPhLQ!hSLHpkYQjOt$&?|61x(ii4l_3s9A`=i?pGQ|f6%FPjWv1{
z;NY@5=^9+?OS*>FJCbUAS1aO$B`#qbDxxDJ@*WU6%oy8|XrIL`07QkzFUBfmqa?Yk
zLN_QZuCbEsli2hi;8?$McFzPQbS;sRMQp)vtl8YBT$Dss6n)KuIFc0hZUnx@k<dLO
zDnxIXT3au4ZoRx-$@UhBtvAS75qm_X3L<jGoT-KemF#91-B)CPRbB;j)Wd5>y&z@&
z!oQ0vD)y<mTquW7%F0<7>jKKE=P(%c3QB$MFJQE58`{EQ812@|TX{Bx(Z1NMnmo0^
zSYs&b<rD+sO{}z)2ZL@}*rO$M4TSy&kCwWa%!XeJfDzx!cF*bCkKoYT68w5d1sjUA
z3|b!kPL<32`ctbVS(pu<v3ju3;kD|n0TK*uLu}|qs;e<DqRUYZ)#rkyV1#mu`<|8i
z=P16n`$pAK2VSrL81XEo?_cDdXYn4hriaq&y%<zui_euM-$tlQa%vIEw_E2bFS!ck
z!-evy$<Jgtw$muE+Dzw6+oDkb)<{dTt`Z?o^KGXHf-0gHi55W+SP-K=xJrVd?wi%9
zWdhhPJyeCr)&D;5Nr2s=_N`LExt6wwGJq0ZO6l;nFyD!5uqx+U(S_ZQ5#}t*8wAA5
zI87KHsjK>2(GJ^bRlStq;7Sb+Ijx{I=y?aanxx;F7&j82W>Rq!CeEv5qrk+*fEi|R
zBj3SB<k{+aoU$?T!^TAYU68FY0(?=bFLT%&(!ey=zd0JZraA(9Y1SwDTDX~_9l`6L
z)2d7OF51bj@!;nB;xk9~h7@rx&RU*WcArNsdj_uW3Xpk??Py2s)JrtzdJn#urVREz
z)OO};*xN!ETBn|)LC|~f)dbzZUiaC~eEXTRcq^+@f6}1mJ@{&RMxQ&eHctJ;u@PyQ
z`5owL6W_uAVulHxtXLu@O~>}-J{!uCEFv0@U)k7auOI)d4F0_BgAS)bnY$3yv`JhW
zjs_p^!FP7?f8;BNW8*m22YA}OS!<J;Fch8sBY6pYtdDMOSL?WTcc))6h*8r8!iKPq
ze_x1*D4@B)=@%Dg$vL^_p4^*6w3rQNZ_@<L_%I<)=Era|{+K>KAS3yVoGp$pBYraD
zgFbTZif@`7dM_Bg?=Zv254<$Ny@7+iAc6Hf<4sr=S>uS?vBwe;ZSyzG`>%^%bGrL(
z=}6OJMtu}|KBKxd$zRQ3GE^%cfvvgt6we2)Y}OWPCMzd?<Qv#XGnbz+&XBxtK+|Zg
z=>iYsF9i5DkmepTOao5h610C+UJGe@4pnNbdkNwxThR?kb_I+Ln_F+mJi^7ioHa#a
zW(ATXGa=)iY%nL`K0YJD@5Sh=gUyOrG@gZ(lY3#JGG6y-l<*D!Mo@&2WNG0l2xbxo
zgrf~*h=g&V0%28DP@P7<s)Q;?eeEisxTU1U;FXM@+@l|-bWJt{vn)FdzosOc3=U)d
zDd1!Zh-P`dk7JIqWg`9|Mn2~QxAT_=`u@{Mdpl&krj%osQ^e^Dj*`Wd1*GXkh{E#O
zv~}bx=~9e6q6|jpMs#Q8<3A8S<(Z!|ye7WKu@vE@wCYDw?5XkV-}!312!4-#Ak(J|
z+iSe>vT|sTioeD81HNoQGf$bahE#72QkYK6NW>dKFN@ot)1ENtN!Z^#R8zs!B9=)w
zW__Nolf=oNJx-Z3DIUxSfA9(=pckChav`AGD&TeSs)qJi>*^w;*2ZjP%$6U}2#dLU
z=xFJtveF{&9>E%lPw{-<b-}!Dxpcu~QoDiDF4L6X#4#FhXCo9nG3_PGXfVsT%fsHL
zlU+QxU1}v4n7jy1sfnUH6x|lgM-@UmFY+)-UB;iiQpVfVGaXoR8tkd+B1393e2n*2
z3(^2B$kTdrX(<{&DeJvKRY_AuNo|;KV{d33v(u67nwloGu${IAH6bk-A<c@AxALR~
z^iJiB*(Kh-^2zpE`ufm-j-qx6$d*cAQw;-dpj$5m&iaE}?GIACt^L6UN?LD!YMMIm
zNNd@YkJ15J@|5Y4B^{uCcG<}fDeI!5D|1#Ui`b;ils=8#FyrPoMnj3)ys^2-UaU+3
zAnmz-E@|sRdta$-9&#65M{swZT{gh{IR^7xJE^x)-N8d^+Ed6AKEesx7KuFRlR}gY
z?vW?_qfpPz+pRnsV9oVW-I|S8@siNhHJ4*g!Z^6aZGoqH>!{XgSHOK{{S<boa`{rX
z0`-caCf!<!t)3`(zhUri9#DpjR3|&VXOKtVO6}m9E)&!;vXkP=?BtUK551VDtW&=t
zQhZG}2|&Jol>=$}%}UG&c-qBSU6-Ob5Iy^kM8J<nwRP5Abv)Y6$5T#(ptO)+2;KJn
z`h{T6pwmi)n%#c!Ae!9VTgk0Tk=0_fc>b2Q$U-gDC=I_lr%^CI&A+UPoxXC%r;7Fx
z8FCf!-9iof#Ih$Li~MxMIgOcLj@vB{Yw_~8owfGFJ!V3&z7j-<1LJA$Q9SC0pRZcO
zE%}3-v7yjCVp%2h0s%}l@bmm#NOnqOj?^a3IDc{y#t!Ab(+;^ez$KkIi?>Yn!jx!P
z^ssMrD_q^6UQBDXG}$jS%9vi$J9LH*1P`RSf)K8UyE-~kJ=Su|p`Yag3uqRp0&(aN
zSI^TPq~k^b%V+p4_@C6r;?F)7-&wOb{LmG+BM}Myp-bp4soJkuf?mYUqts2POiQ<N
z$oX95&mH0xKQMQxKlO9%Tvh9Hh}9})8-|?9*G9`P@wCwcd~8}`u;bHmJ6=Vbhrfv9
z3CX&i;Ll7dXCg(c2e?!2v(wlK@)s2hh(uk|ElAD6GEDuOD&3#4DpZ&BiYZ4lRT!15
z->A~lg*Fygn@j({ua5=Sr(fu!XT}KBHlR@eu9eKZ+Ay~bX?&6*OE5HSSe$Q!+4kb3
zpR-UQjmF0|J62|eiK91b;YxMN*oMmJLy1ww0duHmbdP}pXHa#8rt5c2BKs?Z<%B-t
ziUgAG;{3s~r^WZl`Kuko>VE-p(uDE~5-cR{kMQ4%h-<i~=G2n{6O#@c(9+3s&eUG`
zBN{~**ltaPO0^nzdDl?DJOqqmnDh+O;G45F#p{EVGjzwk!7i{17AqF8TsV(ms0?bT
z=m34krp3t(ZuTxOfW5r_eaqw;_^y2A-`$b^)X!&(nGweQ40aRbu3C;^l{iYB*<kf~
zDfWN5d5vx*Qg|dT+@$Slx4Sr1K$q)WnbNR#+v%V?uJcws;tYox?C`7Vs43*u;G|-*
z-G7QxO?F#DZ+*;?2xSmn4YMD&IShaaqYd_|=R+)SASFekfH(W)jixCit07h%szI8D
zJC4NxQghJ-cL0i3{>sCmz>`O1&%;wk09UQ1Hii(|fn<B3xZA|eNVZ>lHE{Lz5I)05
zcn1uhy%C?QqzESyg2+flQDnj<WZwEia57JIu4Cz$BavnjWp7VLe6IUBa6$)2bVh>X
zT4@J!HkGyxoJ~|0p7xne?moEm6PYt=ROrW`4L1>TCIqSr78?<|?9RaH@VZ8c7An9H
z;pUO4G&SH<1mxsQd4Nl8!Yt{$+cAN2N@_TjVP_~WNX+9?>6yT}9Ba7f9DqGFNAtAv
zvmXQJA|ZQiPL+r1^hmS4_Fi8GPAP>@T2a13*>u{VW~*Mr;d~Uxs8{r5;QJ^?Q0C{S
zaxaDx%0L&a6-yXJ`9WsRXVavpeg^VUnM7R}Umza(h`ZIFKy^+Ig1#i23=h!t<sKfN
zS5SO5Jf#8368?c0&)0p}u#@yJR4ujinKl0hc-qxjZFizL6h8Zp2oPUBiltq59hak>
zPQT?uxN2Gmn1oj6*KYzk;|o+vZO?dm8UiNIz0Y%#n~Re1VD$1$-jTj^hrRKCLAv-G
z+XSIZq#;RYC{lZ*ycTH>nF2xMw#=t8qkJ$@=C3bd`4mk3as2(}AL53o04L2P7L?Bc
zk4^jJ`+doNxU2rmUwwO+5J#^0U&I)GGywD9d6K^V>*Usg;ANgFa9~wH*LsA|efkW1
zq6E-HyXO$(?mY2V3RyJEfJcPJ@t}0{&;?{=IS*A%6+}3oOh_}%LqlS#wR^wLV0(|1
z!N&bGNvQ9eCx5#8oe@nS>WTT4Qg9=xD86M7N7u}t{XhkyTwN;%SY-lPMHn7voWnKq
zaDCleDS^%$I0zO>WZ#v&fC^*i%GnfIwxHsrIX~FyZV>14y6F5^fPg?i#6mspTEi2w
z87P)OXSnJ7IdQ2eIb2hlbZA5~eU+^li}kg2TU<8tJQNTtV-}W!-GOeZm2s(3qTACA
zo8}7q+dGSlhe-ch#B&hwr<%Njzm)uV6UF&-a^Jd{<gB$MSU*og=LJIN0mAdR_@2#-
z<D<T*`Y@@Pl~J{5XH-bWbp_#di5uuA$YzoxX+)%2$6$HWEm9RmSB8`mlX!pkEDyhT
zinK_RS*X#hUz5(BvKf3*M5LD~mx@p^&lBM4+<ACu?#j_GkJ3InV0KrhRc&YilKq5e
zb87T9=F7c4CD=>>z5PvF^if;sluW23+*FXp;llc3mD!Vv91kKe)sJVBPSMrN8s}Wl
z*9(Jo3+D;t>v~|<ytcfF>`uxT8;#r@aFv={=?UT^i|Jcp0A#%Z%u2^j`aY;hV{N@i
zUO*`KR;1<O?rw4}vcB_3r#3UncW3(JtsC`@{9X@dh*`Yj9WRH{ir$1D6cq0W+VgVq
zWLJq=W9JieZEtk#Ody__B4k%oojop1*Qun7zM3wc<Qa%Pt~P132@j7id~|%Z%G2vj
zGlitR)0#dZaww}-wMtU^%O&j#T|(_i>NJxS2c{q^Xm*OOsR0m&*McC2=uP;urL@nL
z()nsBTbeKkzNe-8F|y9NWbq}pe8K9KU>$KmyEhQC#5}LE`%$y*UZzn*@07F6d_pK&
zn^1O5UM;>d*o!8)<ayQE?!Y4NxEa9n=bLFqOlC3Nlo>Lt7PdG$-<dxvj@_s!dba?-
z7XWq8&=eZqi8RmN30nwwZt^>h=jBij!Z&NI!Vd7U3iGD0+b`MQ34B_Jec&U3FNu2~
zF>4BaxQ36MzAW;A+s}=c+|K?ua`|$o2k!nn@%xRQ_GTt`!Xz_qjEd3NUyi}IVOja3
z&E<{N*!mwY^>MA!C$I;2+O=3~bDBUDo&F=2hv3Kf=+ri`DM{0Q+gagiwt-#TT@vlD
z@3Ig<3kFP_%n%grIrrQrh=cj!`9?nDg_=m``YQN-%OAhE7Dgx)Jj4kJ1-ERPqzg43
zV(*$N5G3|wwv;Jh^M%U)CK5J(ZkMwl{yF`MosbK#c`98&*c#j*KmM7`CX)Vgwv*Lt
zd-HIIZMkEgaIlzY{v6@>njg~@D4KvKcCde4ej24jNWg^c2HKwz;J3tu8^<87xf`K~
z%8+M*tRd2HzE*deUl?br6$qmYSyyZ~g_tI}LR8V<==ICNm>9xlf1QXZqM<B2{7fN^
zq#Xn6al4aK^tj(kAX$QtJxqKmF(j$l^|H}!;UrV-HuX$dRi<nPFTIVNysCOz`4SX9
z%d*OIVJcBeC7Hl@`Q4PQHHL>>6Cm9u27!?TqH{6q0wZH}6dRvPkc*LHjBj{ES5y}Q
zvIT51DxjX@w#L|pqvp=A3JdZJk9evmXC&SS=ywjbzJ0pmFW>BJ@QB?_#ubbd$BI7z
zlfen;h1wzk_x#@6Us;Z)`27^#0}+%kbt#g4-1edBz|^G{99+3>a#4&f*UYKn{7pDN
z6_lwaywh46yg$X&R6Df^eU|@KTn{uHfSxHr4%!<jFr8G6x?-0#ZZk8She{Btq!;oy
zhEO4E&J>^L`%rN)(q41CpW$t+^)cig%lnVk4P(y0otUFJuYq@)Fvu>%{VZmSNzSM>
zIj4c^xoJc`H$w=&Wjin7mv{HW>0L&L8|;!e=ApafTZrs2-!?mLshxAbOJP<7yrEAK
z;LE$=z%~`mOdq;Ca*Xl1YK%`Nksdyrt9mI6Oiq8~w;UuEwKu_!%QXS|fF`iRBpqp0
zijsJ?v0zif?pUg?0eVM;KDDsfYhXodnv4*9w1)ciwbgUyx8QpbtVk9sZ(9B@KbI`_
z2W7<+Tb`EhqIeF<&#}Hx@;Gm(@otJo*p4-49!2vq^Iz-DVX##v$@+`3wHUk7;P%ka
zC)2|>aBJ;&Zp~hGE7?&|vW?@syPlJBoXboX+~d8mE#s?1cL|kgOm_Ksh1_Mm>eoh8
z3fnJNzkRuO9as&p=hgth?XSfhmzkcQhfB1sOkey^rsF-?%#}2A8RaEV<Ab`!GjVcK
zfTs__@}i=8N;ui+mlSP0kASIpr=1rBFw=Xl`S+7cah|4p?loKL`?vc@dFeO5x~;}m
zwp}l_gYn#*<ZnMo|4)GqRQ~|-#w@&xXPOOo+Ra*9cbhm6KKqXh1_O_A;`X?kcwIZ~
zwof_&WK6@YAd+~0{fdi0IDj>B>XR4D#WUZ`Xhw4Zv{~J*o>z25Z!`a2?e%uIczyW3
zMbqpMY2-CY%_Q|B>PMb3DbG-Gb22y3Ur3x(Z%L7ZgWxjyj6&&W9K9d8<Q2-m;279`
zgwq3*gH>_Ja=W-svdoVoAP-gLqzDP!$F86?6HNCFn`x~~f>RRFJ<0t4h>JWDk<@n(
zPQ5&2_cM;`k4!}(0<P%XLe_%a`kcmjQjvJ;r)~W5_cWjEk^Vc6DY0mbX#7N?%zTU=
z%aiujWNx>x1`u{#sB}5(0IH&}b)(Ekl&u|)ZX#v+-Oo1lQ{qaBfLjr;xaP{FP<>0&
z+@Y82ZUasJm?r_b2=@7*4^MZ~ILVd_NJX<%e8;Yq1<YJy3MYBw&>S;ME6O_cpV`@x
zlC*xVxtL=8lTQM-zN43j`fVJBc(Is9<b~b*GuTC_u?Ot9C0-Fo9TAM`LGovXFzaB>
z6!mj;#sUL}S2sp0hxT|#NGZfT&ZF+KXzL))-cb;Z6XYSM*LI2l_^bOxzZ_R_jcPj}
zzkjXm#U}W6_XTNAoD$7vq8M46rw++<5+?MZFN)*Ww`+7o^o<ny%=SIMSj7T;?t9CK
zDkjShBz-1`zQo97&uIo?P=JC6ip{jhIgwY94P`Es9t@W5vufv_p)wp5^~Gm3M9wM!
z7JxMaEX2WJuC^gGPosBbq!$lJ&A=69pckZ%Dfa0<_Ala4MJ?GNyVz;6%enO^C(W&+
z;ZBsxwBWJ~lc40(E0H9xjy%2~53AnH*-p`tLt6-OqSNL<mNKK_lzhXmD|Q4q(z4f(
zBh8B@L!9(&gCb7b*O~}ZtK6ERl<Wv|3rE}~RE0S*NfD+r%}`StiqjADL}Ls(-O$k|
zi<{y^N=5V=MrF28D66UfVPch&vu)DE$t@?2T)*gCm~{@QV#YRJJKp)3xDJBNqd33X
z`EcX~Y|Bou^F-(%#~<g~jLqN<R;Ii%clNX*^E-4Ye{+RH;@+g*yI`<J%t9jeV`yKH
z{&h=&U0KH5BO^<26cN|hR=-+ttyF)xBY__lbx<}a<vk~5kD4W2ZA*!sZ<zN{?7A51
ztXM~tV^wyJOJl-g_08LC(b(*i{ToZo6%(BTpU;w7Ya~{0Re4fhm&Z0|4s+sV)vAQM
z4SeS^qxWG=S)l1o5JyK*8Tj<Z_6LgS>aY53c`VOs<`9R)yu&*E4qGlvkJn18pG{Cd
zE$?`vJBQvl$_yb?dc-lLMVMbBq<ciX?}|9wMCr#S>aJ=hjcz-s)_r7IHr9W5+te-+
zjr}kDI#>2+agP>*-Pn|&>Mko5cII7iWSp(?5`{UfCy#$d=z$LSV@Ylmf_F^KHK&!N
zo4MkCNJ)pB;-d;Y?hqee>XX^pb>wb`5&Cf$u^dOjDeGFThdj7p4Tcx(7s@2e1BA;f
z4okQLZ4%<#8ceWb9Qh5`Kt^drnqHD(6a@)oS<IC;pft-|6o61#=_XC_0Sq&R!hDJv
z+W}xSC=B;r2>_!5U`_@kV5}KbrDe1uaLXA`m<Q~nF&M^#!mP-%gf@_{Zyb6o>=n_l
zua<jroLgKJ{WjEC-0Mn!u^a%5S;5df7{vvkboWjG2muG?$w~pRcF@(~8ZH2g2T|#C
zJPbzLLzUuQ*NVfag7L}w!B}*vqS1MpTI2$A3Yv{~JZwyhDM$-$W0ccEgKUzG&Bhea
zKnlpe=&#{)hysnd#uU&+6*$=j<>a41<ZrV2nEW&0EY-hJ$mwA~^k`OnOb-K=ZBL3T
zIW0_x7ESRpriBR#2l+3YYB)<!fsXHv$!~$=m;Y3%hMS9}9;?dT<%aZ~^?=y*9ccbp
z1E9D$JPhO;L?2@vGlQ11C2aeFPr)tLPY4|MjvR_}X6m4wOdV!pQ-@jq7|IcyGw9`<
zp*m;G#w2X#3mRy?aO1k|d;z;|cfKGNAv1K^Im<<e=(JZuRyi%B2Y6|QK|#;;nsO@H
z5?^(k+qZ0x3S1v6r-CE<?Z!Dh9N{eZCY<FoafQpD?w%-zM&!OQIcGH@UOV*U5II$L
zqL}TQFgYL(QlvB$#hAG~VRH?oC^=2`;BSM@Y4S_7{^6Z>jNy|Y!{efk@d`zqz2C~i
ztbd;ULP2<q6#aOw_y&;R@Hn%7PYi=;H-Z9rsp;}BHFv@<H7~Ho?xRZDW7Qq{AIdw`
zM6-Cm5O~_nTWxdVHV~fvBMg>bK8BaHv<b(B++F)gBWwY>7|SQi0s8AJ$rzlRffXig
zXKonTxBKj))oLZJ75p@wyiVjq4s!O*-3}I`?c>)O?&Z6*moSN5Nm5Y9nUm-xPe{JP
z#cVa|d-xY@tw^ua+g@vMYhlox?<BP`WE3g`lL3Gk%81A*Rxj`(;Y4=&zR`Vc(nBn!
zsr0ri#{6Y3bpgM3#Am6r*2$%S>9|K7?E`D2XhndQY95Q={NDQ+rsco!1Quii(+l2u
z15Pu1*Ez7sZs#r4i1Qa3!&JLJvxVF3zGrM>88uk8&<|3&)uD6FxkxIwG{}Ssf0iy$
zOcS=Ykk5)Vl5lzdh3+<7l>Gl}R`Fsg*ef-`rBo)e?_$RpnwR4=E2LIaIi&OsnwnqJ
z2B038G{X+^<@9C7H-Ges&I+R+1(!6G9GhO`!83n0jpM7*WKQsj!C2B1MF~%-Asym9
z4R=T+DOKo?@6-9{Dfu$|9lH@1w3J5!^K06BBXdh5fi^Nqi?ywx$kLG0(UxXX6p^&G
z6<gX0wW%*D<EgDBYTK)yg9C1CgPTk_9W!4FB56FH$jK>Kmq{x8oEIXZIil-K?$Aj8
zJ{gKWc4OrQbkArKj}%ZJ;c%=}o&{mD??^lf4H-P=+j7NJt8>HTG_xif^}8oUJR{Pr
z$vgr&*6(4bGd;Y?vXLjKBrH`p=p2qtUPj$}U{VE?v(MWbCRet)hu)pla*33}sD*c`
z#pZ>il~p2^`BnPps1Ksv2(n*YQ<^Im;<fVMMHnqqdcRDI6Qld6-rg1sQ6adv1W-yD
z1T@l3$4Ti1=NU;;6BI}Fyo1mA#lwL%`@nMfZft@p5E@438kk0p9)WuJOptmeNXMyk
zx^t4NfWuX=9s$sKfItD<>%H0;h-QQ}iA>5sk0cVja_F4LJEiQ~DWjuu<;x2QYF8^)
z2Ev`HR={#>_U$#z#th?>mduiTnA+|c4HLi3qjXWNOnc&jXi3A_@A2}8XDX~OsF-a-
z_bvy@NtoP_!{kOkU~=~<Ozu|-lN&F9azMKeK)Vy5+$RB&>)oZW0q*tr7A82{!MfbL
z=Rl4R6c#kSM-J@FV*x~*aG>C{n8O60$Ob4#VIkI=trDmp(BaQw2NV2~!@|+MD<o_}
zyQ2h(sSg4`$sfQp;f~iC%$e>3=NU}$k-q|a^hrQ@eiFb5?oN{;2TH250Zej67Qi0O
z=$Zi~B?0#6d6&VgBbD5M4n=pW839E%>P!L??F&j?V4?#efN2g5xH<|!MbjLLD%8ma
zCVJ0O0-Gk~rV1)5qZLq;rNF30Q(gd<IHVFOG+b0F1&iu3G*Gn2C~Oj-XO_gk(K2Uf
zn5Zd3z(l{TsGv|$mH<Wn(ggsJsHY}3bo1i%X~fqs3f_<>2{09TqphR@<}mN!PMsKG
zYrm(HHZZ=tCkxysDhnuIosgj%l&oYCR908jV6r;ZbJ#Y>`;z9+Wyv?m7T7s|NEf6?
zV2pi}nV`t}xHzL3P?(CSJXHdOP11qVP@ZFd0}p!sS0-cu%>KdMJePt1M>|l9l~nG7
zjbSk4QvCz=F}NoZK2L&AuT%&IOt8V{LY>8-i8GkdWC7m7gk>*>z+*_b4-%kPLe1r?
z{<2aN|8qPUU#f`a9o$i2J2rKjcZJc5WnfS01u6F<m1t=so$kHhYhCOmQlALJg?hwV
zuvYm2k#cTF%4BxEx_ETou%pubDF2j@?vya0uueEDcbf}UbeokmKkt#Q=Tw|xu~Nyy
z{Z0R@%Du}Gxw(cHBy2$?ThpqLS3OzdlMBqzIF0G{3g8%@t>}9Ditd$x(%<0sp)wgj
zzb&AX-xjLd0fP&l2vGCqg*WQw>$kzF`faCAY8dD|#>o<H9p!S3vU9jlF#yiD@G##(
zjP&Hl)gy2yoo>vFc|x%oJQ_PH<?5%AeyC<$Xg)maOC_C7e{RVwu5k+tH(h@E-_Tpu
z=!Gf(_`l>n*xYd6&y67CnTjeVjzQ8EDaSP|%W(5QINa2r*bs|q#IA_7fbAIs6%|)g
z`G2s`!(_)JZpY(8M`~H)_VLqhPYyOyy6<O-Q)XtYaMvu=FU#HHwRqkAMKHB85M6bO
zamrJ3DWD~8cna4ni0#08ODfwTpeUh4w8QXNs+P!>M10j1ye?Xz9P(#7m~f%u{swfy
zGL_!|M|VrVIpE~?7`BhA_T^58rTRuyktMXc;CVHQx%zfJN-w3G>$OAkAI7WKW0)Si
z#rV|*<0*Smk#8;l#T5i7$$BQqes0`kTOY%8l0KwXGcsDtijRLt`i*oNsQ7VNeX6QZ
z)w7k^pk~%~yYlm59O`NjUMUY)kqBFmuv+Y_SluaBds4oJGGB(FtU7c{)a20qaQu;O
z&s4Kw)Jte;#pSn}hpM>)zNTko>5tQKI6m3+9?x>b^zl0|hj8Vp@1xMXsLyQ>0qc2C
z@37M;?*i)Dhm}>*CIoLh*z;3dZa>;l&D8C-<Nqy%E0a*%j>pI4A=;AIjiYl>qjSya
z<Yoi5Y)RzfMr_rV*^P&co#S)+r1Jf^a0b=R=-&^Imo_XuE;f=@v~C<2>yu<|9~Ifr
zmiymCgt(T$t=+zBv9oODjrzS}MIozpS^Dkg<7HzjoZ|;AQ?ROc^r!vXRn|(WeNrtc
zdj>-|F2=ZiA^9Ry`G-vU6XhNWnLl#!W0q$L*<I52<VsLdeon0RsLr!_*Do&<o!THT
z))EcryjbcM)J)IT%;_omS9aoW){Ofu`4gml7|nkG+A@69>mHW|c-pmB+j8145S{)J
zzR1{*fzT;!LNk!IdD{_YF)l`ObV<nHR}v;6Ga;6NK48}Jo^!OT)mnz>c=B{RQA1h&
ziMPY$XnXs629bPW1cl&Yq6QI=ku@WR&jSUc0f8^j4Q3tVo2%*1JHGlxLI{Fd@EkTY
z7d%XFaO*rzW45mN`1fu;npVHAzeAjJfzfiKvMW*O4KgK9Cobl*`{a72%j6LVtty@;
zQi+lk$;|zo%KY)9ncnOWL3Brj#4%GRCuWLWQJF!3psc|0@hS3J66Zsv_G;aXOfuKY
zC5mLIg*4MW)IKg98@<ps&9NVyRc?1pY@}3q)=o#hOT^L;zD6?{TJMkiW8BuFUz=(%
z)IqS(l`5fR3*7bw{a0v91td)c1cB9+HDwGJ?{0d7^m1ep4(J|^#6^`7X>AgwOkj>S
zyD~%NTq|r6eYc+R=O2;ot$;jgt}s&^6kj8g={>)9#@o=LrX=8zPNSLu8QWyKI-div
zPms9HxwCs_)UviDCEO<^G4sj!rY<W4_pl2%HQ6{F9^3SH@b4R;dC71Gkv;ebm8g|K
zx){4Q5Cr$`ZooBLxRmu_N1M%zw(A(9s6f?}<|SF}%juOBJ`FI2AaoJlqLj42Ba7m*
z;d=QB^EKpDDu0Z<gF<j!`(s?OfgSV5Xhy|LH_TxJ@dkxTP?I{*O)93Qx(dy;?1(c4
zGT;J~t}FD$?e;5}ism(lmFxgSTth7|#|5(7UomwHZJNK%6|AtT(L2g8s;OGpAl(_s
z8ap0ef+!Fu74RjTNt98=HwP=!(mdkU?%#>VZfpDN1bREjyjcxF%kjZooa@7p&h#oq
z8nI6f5#$=@y0BJ58MINp?@L{%!?S1Gzb<86(U$|#=qyr_SDYakx~sDr+V~=AI7(02
z=-*x&U8z&Qgp7~ynl~zYLZRZXf^R&(iQ=X4ZR9im^*AzvxK!qtZu_;8W;RuYxe7w_
zox#WEf!XRJb7u_e)`-$J(R2^@)J@AqD&1?EZMWUm-24-{>3<6{ZwoR$Kfr&&VU%RK
zDY^!D+TE93TiYNM$De(pkc1d7ZC5up*Y#1SyE_j}P9tjq2&A^(en6}4#k$gYvGt;a
zP=0X!hjW0y#o2f<UVI(fp=l=bOL_k>>yulccfGWj;nMnl^7E66&l7q3o~A&E(z1e%
zRa&NmT**0#ORJG}V>_Tg@*i48OG^@_6p9*H+mfu7@br2%4ukWXd^wzrmY=RKAu}sM
z64i^!_RL~UCyZ<3`wh|*QoG8pRtg{9sr6IQq3k*~8u^wt@So`^$E?HpL^p?`DX*Dj
z^ps;;AC#n{Yo<99_FzQeQfZQeg}P>Kj|U|zAGzXC6qOAM)VwkzeYdVnnD+A?n!K>N
z2W<n{i(mGSeA4#jKi7A2iy9{yYhJm22eW`JpP}U)mgk$wKfH2&c)a^InT{^nFK<6U
zUP+DAw7kNcTh#fPE1vg2&aBnPC$8Yr-lA9Z{-03vtfru*WHnRnX^I(d-Lp6ij}13S
z3)oNk>AM6j&WZaaFvvKJrp_B#=e;o=24_4sN>RH!SYW9%7nTcm=NS~v8*fAFnNa;k
z%kOSHwh}@tnes{o_n4=qWKf2Q7oWDot;Py#6cu{OK$6L0Ln>!`lBJx%lnbf0^To8E
z&AdlFx?bi%Xd#&!rq{-)27&i`jF9bz<qk{t;OG<^F4mxdm(d)Gq0=Va<w7COA?zB_
zXjoZrDS)vk;f-+N4?>D)HVqcfadj_s9SyH-HX(0gVamh`8ZCRZ4(e#$R8k?-*z(Tj
zax8x|?K=e<*9AKwN67FYm3BsQGv_LrQ7qOu6gy>C(U7n@8rsKml)DWjHbdw>X;oA%
zG;M5F9JM~6SR08w-U=eQ<Ht;h1>J7FfXDcFfg*`<U)>N==8t_z=(~RTV`pkC(-!>M
zup3Z16GSlDLr=0_VA8yDsmhG$J9mb{@8&(nrgn9tm^*SrLkeF(m<do;1JliJTuOf8
z7XEwKU1WEIOV&+!1DiDbY7*Gt#HBx-xZCb-RqJ+oIt*o~Z>AuxHbv$fe(b(WENAWL
zF2%bSXLt%t`VgA2rl+rJy6d*K{j;u#UqoLA_s3?o>@Q_(b5H&X<8HP6JF%y5G5IL(
z1bEubm|c6CFc^lf{UiAZ>Y-A)xmjz)t~<+x_zG!bf=O8EzaON`PA6W@u91_FgXDSc
zynMWm;@RZq%|!W<Jh+9w3W}TWA$H^oLn~6`*+dO(Y}wb<+~-U|p{!0OAciHd7(U^D
z-flaBB&k|+sj$o!P?Ty?63))i>NjX%z2gi;$D*)0B=}5JikDoSqv<qgzN?Oo+jRE#
z$$G~Mz%vk$;zA4mkR5zf8|`UNRJ9y7kJCjkqxV-|u^V#%D5jhN^7W|awY-gAckCPV
z5?~-mEW24GBw@*@LD}P(D%rhTeJP2$*m8$FXUj2Jfg)>=LA7<*$EcD5G}WV?*AT8g
zV={dT`SUj?@1z)Qa;~7SI9B`#m^{tBUX?7uxpx)j#M@vLQOaYq-~}w5AukS})~#-W
z8<ay3=%V)Ke6Ee(5Qf$r{?ELJVQlr{3>M@FNNNVep+tFOqCzDu594N$N}bMtB@~7t
zil0Ei^7HFMIuJ>|2BzfYF_D(AN31O<&ecnMSZ;FF78d05^*U+`jd#yvw1T$abf@LZ
z7DCn*p59#!vRZU`plxHctcMf?_%zBTw2ABQ?t5u8TC?<iLz!fn&EEAHcr?p%!kf1x
ziasK{?LF1UgWKY8IMqu|HT9)C9?Wj1JpF>oq-<q^$9NsZg4<|RM(ny{{OMkDngQtR
z>dythM?>i1SAokZ1D7$gopfiwulxY0Ysw=tC#<trurcWN7PrjUZ4;FdJ9kQRY0@uL
zkud02b_2?pS;KAnF=DtAG>tg!b~GcFdvWoDJ)7dqVOxqDfAycyuIoPv8oKl^>v(xA
z%7+1i5qR3YTWeR_x)NRYAH{FyBMv^Nxox4B&|dmUOLi16*p`tMNYAf7lI+CJ%X;Lo
zN=YEIXOBkGXiFC0VS4xRy&i!(I;q`nHxKte@XHs^29{M3oPq+T1lt}-KTtZoqmd87
zhx8Xpzb`5KDFow3{D#U$f>7+E6-DKoSvCJAHF|&jk;D)A&)fe3H^l_G8AT+7b6Bz0
zI#}e8GDz@O^D2;$RRE`emGd1|)5u1k^%q$f1T|ig6xA*+Q{>*WZz2ZE5<$!;L9mGL
zCagtIwFlTIkz@DqJ|!@tb&%pbM=AAV5imDe2Oru0fOr)1lmOw|$%=}-aX+_NEN5AM
z5?Fzn!X!s=98c=!A8#}K`PEsDUV!($#1#Dp@a#VERP2A~Fvh{8ZxON>9ALTqhOVd&
ztBM89KKlUP-vlqKIP$<%S*LSU(yO!nSeEJ4S%YtU^uqkwyuB&bG1o2_AP^IEi$yvs
z56=zZ=;$1e{(oRfM%EMzP6swMuMv8*0!rboB+&-LrLip#XG`}$NsTP~V7~7qEeNmJ
zg6I|;h<a1<H<f*;MY5u9{{&Okm;AM>+l1Hc!8E|(G=vM7=Lt;TuGX8u!QOn7^k#DH
zW<*nPAoTq%jcgALwoSTNyR2U=OT6hiHaff@`;rCuND4QE!zCy@Pv-vF%iQlnea_6{
z(Qv>TgEu_a;DtkjcYJX0{u*q_-N)etGpH+AmS}E`UU60e{!=|_);c{9)3Ii_4eaB)
zq7b%$CxkE`i~T%>1$;xGSkhxz&{5momf8-s`UBR3Eb5IPFdqW|Dw2IbimXw!tY1J1
z38H!koa0gxQ4~-Mf!^7d7UG$!Wi3R;m97>76Wyp70uwDng_q@A5n%}goX^$6Y9XaI
zMD)6?1(|0bx-2;)1b=Elie;|LLiAY(Ds)-ums}r0v?0qx9b#{KA1V(rr-GzLpsh2?
zpiOO2kFEjb*#gn5Kw6;pC8}wrT$Wq`T0jbPMuI0Q2CM0R62!)kGOS5D)l6Xnn`0{e
zD<{!g*H06+XJiI5Yg=x{mYcDaW^Am2o4{BRXHuF=GDVobspWcf{$@&>;CP8P!eMHJ
z<7LzY$7`t>j+o(CRn@}<0++z@*$BuIYMTNbBVdh+%nV4OZc+n+H~>(tb^+VPsLqP8
zw~pvhhMj6LL^924gcRD<2q`qI5wcmCOprp;nj*D}W7uh2P2{+zb<LoqF|^UXM$kqB
z8$lZ_Yy@pIu@RJ*vo;#p2-;|6LntwZ3hk^1wMTsot%<d^WU&!=Esu@BYniMGwzuW7
zCfeB%vPSSuPwBxuv3pUo4O*eDW38&ogH~T_S!+d-Yx&N#e3x3jRZl#^;!WoeCS0!o
zTIQveIV;y%=2$CsRv>lESy9w8CtBvqM9qA>QMNkvT+nLTJ397UzG~Ss)hg_th7VE)
z4|3fZGZJUT!K^X&84pJex$ec%95h?j7g$gEvuBFQ*JK3ZqX+s9u4*UAs264Qo_OqC
zJG-9RL+5=u%Wc%)g23m3y%|257SH>|$+YE&_kXo8XHn4WFu7d<k5cXA&^wUBsbUhR
z(JlCzSRjtK(rFnoTV}myE9Nwj^o^tF2TA<6%6%;ClG&qwJ6mS{JMdth<J7My$;xMc
zCSD|Do+4Rl=x0oEv)8PfW`~bhJZP!A4_XhtVk9q;NPKA|8i_j|ZlD;hY(@vtaG@lU
zP%)B15=khHq?SZ7R*dA2B$BZ-l3WrAkS#641rn_&f#X}0XGOctxJTBRTCG;O2Wpji
zm7D-kR=2ApR7^IOBpXVTy^<t5QH<nO5=kPBq?AOGN<Cx}4|A!97l{WX^*|*a7E%v|
z#KW`H!yk!<7pVs<@sLS9yh=R0N<Azj9^RxL<`NIN)I%!qP)I!_5)Y-)igvh?EEbuU
zGRaNc30u}AL|B<<fAQ>?f{D@sS}BkX)o5`kSHkgrB1b2bk8_X{ImCrq2}gYz$NGA$
zgoU2Q(%qnu@GMW`*}dZ1qq2gmTsz@Ikr`Z^bE|n%l}-P1`v|3qnJ#ESXS?w1?Ok}b
zM$L_9z~-st%rWSGWDx|{h@ic54Qf<DCV<e~8h3GQepy{BoS<c9lcLB<PHm66c)H*A
z1G?OW^nU+b<*y9(yQ8`eZ*VZf-R(g2sneX^1b-vi=yTagQEXYvizp5p9{HemUr>*h
zA3L<X5o8(Mbv<6Yc2tis#t*2PmMkeO8*a(++zdMI!&miTkG53xO>={o`4cg1{AstA
zZCvcOwNtkHA(}g<-Q<K#AWze~soI`lRK*X~v3<k3U1xB&l_zz7wFQ{V>CqE~1oOu<
z&IEr}@%dVDDywN@IqUz<*c$^56+>Ka==tsBDsDXOZq(&odV{}q+tlvNOU0YsVb<>O
z!}V5wYeK7q;2jTvUsT@cjRO)yk0|Jfj@6H&`-*}Fw^?1~@Q+&G_j$vUc)k0S!d#zq
zd=hK;4Syo?1+Dan;c3J_*`jGioSa1LM{JEIs@=O8f?bI<8=u{2<4Cj0oys>{RlNkS
z(A<ge>P&R@hVICYnxwT&Qu`r26QQF(=s=P>H{@KDZZD;KgUrVjzXIXki<dJo_LdZ>
zE9ng4qPH1_Yt`Vhf_$?%$K|570W}(jSO2vD)S<BY3*lub#Auscl!A}1uT^|gU6jQg
zoTbhON}XS5J$^3~gV&o$hvTrU_HVw}$gaJFU$k^;M8k-mkIWFgY<&K@@CQ2z;v$rr
z4a25_auwF@8mi%EvfdmKwD4}lck$ks-0sM?_bkRC{H|0Yu>8pjO5ggAcdFP+`R~^I
zo!`|lKf986NCqGGazGOSUJ;@0THek<n3<RT1GQ~GO5@RT`5;snaJoL%VP42*qus~g
zU%7R>#)Lup2YA}GnO$?*IuM5E{3B#+Y%WVlQ`(ef(w>?2N+V<$6pZEQgC^(KAIVT-
zLg-lX_9kCspLch)yOL%6uzbJVe^C`)>h~(Xd-w45UTi)l5k{z%g5n*aQbbun%5p{M
zcByA6PVcy8l9XstNU_68OH4P6ZdpE>P4Pc?2s5LO$E$S*)enOZQ<T&U8(n0hS>kCO
z?@7sXq8a8nt8@qO(-GFQcb}8n_1$e|FdCf*2z?h@R(;cwk=;`F6U#o>yjhdztqd-E
z>Hf|ah~%P?+<*BaDq+uB61!Ltp3Ygxci(DKjVtym)HZ$;yb3lJH48RQXekuyVco6K
z2xoWf`9?}1V`U-X=2L3_jFnx$14E(yoswXbbt-OVc$qVa#=p4UU|ar#a{U5@jiTD9
z4c6`h+>}jCq+$|^f2yA0tYqcBA8GwzF+S^HG}2^iM?h7zQHHZFI&Cm9Yl)@;Vs_Rb
zn2~XX*{*I2FZWr@*mWct6<jKfS1)Z-gg{C`?F7#;(E}hm{%jGQ_6&d^$&@Jf16@H%
z7)cq{c8CR2I%77#`eIfEAWCw+vV{*Kxs}4yXyisN?#%5FN~hKXtUFUb#C)QfUI_<e
zifKH|hiUG%KzDK&z-U(DwEZgX#aOu06+(6;UQNXij9bu)Q5XVB97qxfpVHqb0Kd8=
z7hwLnVk#d*d&)<yb&sd=VIZDiWs1Vh*I^(71d57r1Vx&}KqQVPP$aPEI9PNBEII=g
zoq>vO%u$p<p)xx`U{D6mD+A_L+>8~vA(GJ3h7`zheGKK7>traF>t!$&V2m6xM#cYQ
zFy$2+z<e3Nd>O!e8Mu5U&Ab6}EHQwvYtO!cv_p+S`DP$#*PqFQcrnJOr<5?l&=cQe
z_*t*L#vKHKIKEELcbJ~H!K1a6rba5^W!Ald_OY`w^l<HLvqq%$GCjYy_AyOcRVpgY
zE5m%OvvXnh$m3xiO)jn$+yC;wj7K?JnRQboxZteJF)wgs!;yT?N$G(~3L&Xa22xXX
zOaj*{J0wqRy(oXmUWA&@Dz+w??-?!+ebDfKsFBw_>+6>r&Xzqr-mh*R%75pda7=|{
zV^OO(m!gj6?u+~BC>HsMwb$d<WQv_m=Umk#d2v4<HO7Mi>aP?34V`4}s<)$(1gk8r
z$fUNn_e|>8y#VU{ChI14RdsYK{o78>Qao*}zDvf=q;bEOJ8|dbj!(Mjz;1X`DRvDv
zv5s-AY@lVys7BGE(qiE{Q42Zc_7~h<!~Iaq`%={>%C-L`pI>imKm{)RfAqikx`wB_
zdU|hnSi3dcJVos3s8GTwyq%#PsK7;rM99g=FM=9a;uORG@{e=6z;ne5c-p;M+j8PK
z5Uu^A7#lE;lSw9%*=#12nXTG4l`%3X@rB3|3H$Xc8w0+GpjL~mJWPggPT$+DmdW$u
z=C7}1@bKmN=TouzJ{}RzTk|3&SrqeP^eC>YPktA#H2)<yjWR!{?|%?5EFi=V7_ySk
zY%R7s?4$Su?XzsXW0>90gmO+7EhcY7H&H4hK}lY`<LRa>7X=a3C#0-DLUSISiy-NF
zth^(iJA6#04@^)VrJgt6D(@&`SiZDCvyhZBN!SNnSfC{aJxcr$3O)%iaOO==aGdfC
zr@X`|FLBCCl=6PvS4a}2={$;GEeM!5!X%!rl3wNryhO^EIQc<c^6@I-QLH|(AgC%2
zr9oADD1xf`a0FNr7}|uA{Yw#P5J;>KB-RHK>jR1O!MHAEj0$6kWti*&iK38biZJ0t
zRz1fROT41-s|87WVuQfSb(Diq6U&(+jBTftu%v=m={oB-OJXvt1>Lb$_3iwfM{A{i
zG*2mpDQK8-wp@vHi=mnv@}`?LHe|<H)(YOAVk0AxF$o{&$1UdtZzm!>8(b}HWhgWF
zr7+%ATEyybu^^GK!)H~olTu}w72e~tEYgj=0$y229#bOdhaG`F6G0roOTnz%KiSE)
zfzDzzJ+}SM&Zf($h#MmZu{K3&qHGKu#@7_8AF~b7ohOMYrj-YVkZuMTf<pC}ZFgWp
z*dS$I&*ElvbNkIHZMPT*uK&nN4U>F)#|ydkt|};r)1sty1p4xZk+hx)FkoP9_@up@
z0b+43pDk$0GIpF4fbcqC#hUJ=uTA0i3z`eht4g-}AO|w&BMu}PS8DJGr%F5gFl0Z3
z{A|VT>!psK9duA?#!!8yHHEjz%M{Y-&c+}MuXO9s6lEK}LG2j>`&B2;1E16}OSF7%
z3TeC16f=#=dR+sBDN*t9pkxZ`yMJR?d!Mb8;T*%oGMq!=Idn^A3zFf&6HcO8I9rgo
zFo(G?N4hXax-dsNFh{#nwqVh$qTnpji7wKGF8W<FoJPBGwxH21Ea5cT?Xv}q8>5&b
zqjbAiIE{4U8|lV3(v5GlL$L*o6BnOYdc%378=g}uL^#ojO*))NIwCr~Rfkdqh>2=~
znx*;+b1)t`4-S^+ALj?r-7!*sFfxU=hI3O$=U`+EYWc<#Gi?sYKv*{vXT#vl>i1RR
zB3rYR^4*IoW>8-ph39fv3nK}m>4LC?<VCJBX~Uw_j3vxinMERA)nEUoygF-V=R)97
zR6k!!`u6fPzkN>szWG6dxZu=R2|W=!VxpXWQx&SdeyG%gs86-?M(wwFl<28Wv{raf
zrS)EVT%;+Dg*Uoap1!a0T@-xh_QOH+tTKm^8K|JMJ;}uMhL!6y+E%|eB0QLD?@zER
zgYpgKBB<P2ePen3<<Ifm^5HI&#Jf6jcGzx%%KHaRER4ONKK?~K(^=E@<Xz7GI#I)Y
zLp*JBa6uiE1}7|^IZpHOP1S>1Nq%kECr@$4swZAOMO>&3_LDCZeD^z1e`rK}#f$J2
zwSQ#1MKbE^{TrTj;NI`X7vh-Cd=HXhs{0QYtQtR`p$&|ZdAguUBvZxT{M-D$kuir}
zbfdfFfvHo!G5qmt?#TE;Ms{1G-mrx;!v=Y`fSLs%rw++AAxX^Nk$`BO*ggi_4O~kn
zmT6qJG_}n?JR&P44Xq1VV^FxaEXema_y51_S$&9JDc?2<Fe3$~yZdr<kE&TZW&C1x
zQxD127sy*9Rvl?*#w$c7#F!NDW`X&bySpRnSdd*tP(85p1VL`kt>U9GFTad=_3c_u
z5X3xKrz$RD#D0kCm{GVgW028nfDthFyt!c>X#56xQ^77{hjqe1Qa?Gn%$n2D?c0dH
zHRPq?H99N+0?#^dzHs6Oy}r^F_dx57;l(^m-*-IgK+|{N>enj0wJqiYC>iFfE&kB2
zE1a!6rH`Tb4`B!{#>g4l1bEuDR@;u+Fc4M$2<Jw4EEK6!Te?E(^T;^P;>NL4+gaFt
zeeDExS!o}}uBtpZM04iM?TmrLZvXs!?>4r0_<Z>Bs83(Z3<w#FX3$e+bXE@3SiX1b
z9IDM|tTv>ujv8m-EZhlNwcmIjR)M!Ep>C;^N6I??i!fL|2*(YTq-u@s!8!x%#97Ci
z#nxMYf)D_LpOE0wN@`Cq?p=5`mjC|sc-$W3&oAGgVA}B9`!50^A)6C5JJkrr?RH&6
z5LItP7dXB+zMJVjB%H`<+R(wDcE#1$`)nOwZEtTgbWJjN4X#{!uXg(nVKJZFe=Wl5
zo=s`>hZ~(n7={DGn6*+<2aR|V&MxNBz+!7>sE|TE!E4xY9!k-0<!%_PAhK6MkUK%7
zdB{RbLCmE~b5Y%^GPp}}lS{6WfMw81TIgknHW4~~NrEnE^Gp>>1J~3-dcw7^!27|y
zOlZuAFC?ceINe>lgTf4>V(x7eP#8ncVM}{4;W1}z8aNtGJ2Zxb;>8k?#(!bD@4Z;j
zpm&P}j|z2Qu>odNg93`v9*xS6QnM~Pv7Bko*2Kn`PrJ@9bq7Aj2$<h2C%@(GK(Cs?
zzzR9v|6s?q6&EzFye1djf-*ENWw=V)i6JG$<t;^}ng1U!8a%YVW|<Q22bUfen=S5y
z<WJ@NiPlDzH(ZK7Bn`TS_=S;`j&>YI<%BO9Kl>y&XaiigSQoj#3#ACv#Tu8>wm@4?
zT0&b-`xt9o#cixAt_QcF#oE`gLR^JwhcZusM$C(eD)g<mlKcYP7;XLn`FMW2sSL#e
zc-qaBZ%@K75XR#-Vt*Mg1xdunBnukeT}rvQ%GS>I2I{A`RKP66WSYM4O>=ime)shH
zv{2-`c}^1(-(MFG3sv4GAp}9A6^EK}t-?g}9r9UD;}DX9KOwha45OvmqFidkX)vhS
z7D4SLZtTt#cwj~qN?)v45Ncnr;WHA{E&1YQ!T{C{y`O<*06m!rWR5v+$!5dOnVZ&>
zw&W8@_LjeqeTgvyp+k;aQEgD$QrdA(v=>wYXAR@Rjv@8kAd<NEPyHIOcWkmg)ctc)
zW}It};FSsbJK}8IjvaD30Pyu?v7Q#y<INq!Txm>rr6eX3x4QUbnUx9q_q;gGMeiT_
zyT_iAW`fL+tExgyK{%77W_E*-(j#FLaDT#CS@a8KkyCae{!v;cj%u=#tXSe3{VPQy
zBR&vHJ1z_S1o!VG>5nw{26)=dSY30XFch8rM}U09$5O3jS6#>L?sT6r0i#kOU=rM}
zzkU<^!~%t)bYD8D%suDi+<S8&a5~<M`90Hzchm2aX!&SpP*r0Zc`!sCjkN9zbL??H
zBC6sOpZh5AxA+UJ5vR{1>R~uXLEs{9RV&s^NP}q0C(NH=czU`IF9k5f+Qq7I`U$ca
z5&b3dNgDrL8m?+QT44eirx=A}Zfg)Yghvj?R5I__@%m-r_NT$m-dCu55yiSMo|~K^
zpEDrWh({DS`-M*MEB`F=E)yw-OP}l&Fb$SSkOT|+?wc`K3<n^As&aa$s!vkhk5rvg
zAja|{vcZ(=4>XcnFkmLEug}HrM<u0pbo?-GRgYP&2OP?{RZ*~B$>`aV$szB|LvHl2
zn=IsN&$7Pu*3(@9xj*s0W^BaCGuv~~D{xuEw9tb>n%^~)R+DpNQB9d1X*u+k*jwS5
zJ%l$W1xM0^)S*2&)qI<SoATxDFlBVcn-NpWtHz+-27996Y!ia1_X~TYgvWhToV=LK
z;=T=zNQ3eNPyihEV6nuN(?f)t$MC8;L{n?25IgaM8K&oAtRot!+zk1;PTSg4IZew!
zJ~mr(TzY2uyC%OqDJ#r3adHNMctJ4xsg)^EH^q6P7@s+OQew2C#D0YZ?A5Z;NQ0`$
zCOS-ffd|e_>85=p!_HDIr(J6qG6pnC;#_~s_WiMYu*eguMNga=COp>@s|`<1T0njW
zom>Gex-t=Gf4(cAMOS2r<U3L0v~ItpyX__FFhz1x)%_%!Y^SiZd+%DaYsez*C1Okc
zQT~yu%x=+bU4K&vW??0qYicV4HO>*YO{3&ME-=S!+Z<V!7lw@QE4`e6>+o;S_?3)+
zYV#LdH8T&{%qTYczXUOul~kjdz_pqQ<u+4RmwVgdxiD#anYCRRZARrHw5$lV10lhG
zvR8tmil0;(G}14sxDP_K!Z1wag~tw}`Uj$s`9MT0g|T3R+eKAz|8fi|A`9FICWt%~
zz_}kZf$4}+X>wKCkX{db(j?ws98ul?z!deHgrquxrd%MT8TeQ>^08`qs_B;?Qi{A4
zub10moSI202CAE_Vx;r5Jv(Ek1d45;68F<q-o3RIU9@(*Fz!x-KwrG6uH(Lj*COUf
z@$RHytO1c#k?1%-*s2lRKhMEG$YMr#+KUhJD|0S3FVC@X_ed+R$TNyJG%n4{OwLb9
xjn7O;%_}i9$}Enr$V`bZE=epZVT>oJ-V~}nIX|x?Gp{ri0OT1YSO5S3008QKSMLA-

literal 0
HcmV?d00001

diff --git a/shared/default_1006759096908622008_0_14107.profraw b/shared/default_1006759096908622008_0_14107.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..f755f935ac3482bae39acce6e42148e332460048
GIT binary patch
literal 282408
zcmbT<c{G*Z|37>(WTpW}G9*)lWUgea2xZEgoXk;XA|(+SA|j3=M@d442pKX&hB75N
z#*U##WJp4#`+NU>pZ!_u-rsevwb%BKxAcB^y`Fnt``Xuau8!+I&YnJA7yhx*{NE4Z
z|9lQ-`Okm+=Tjoj|MzRuuUH@d-@h5C|L^~NBs>YoRS5m}FY1z$#oKHDTiNuVKidAE
z&zB|dF4>=MyWUjm!~J7*l4k0OamN4qEh!~dxiyt3_L)(QD7GMtCE)+(fBXOaL<@b#
z`{miK2TK|rpHkjE>UOAfOyxgyLVxXleF^FW->7D&Umgr)Tq-YW+D0!qo=k)2!1cJj
zXO8~mQ<z+Pn8&NW@z%3?z5kmV_&NW7pJB&Hrh3gQQQ7KWT9qXI9j&!cM28Og0e?ag
z1*A^W)#$wN&9C0>+hv64!1atIHD6=jbMV<ETd&hMIA|zbn2tK7x%(eU@B(nUPvGT~
zMt7IDJ5P2Ga1sz5c-+O=@A-?j|FJ4&pS-%?L-DXBq66pi+=$0H^~aftX;BZplEq?c
z0;V&;>(tX|eCP~tD7tw0c-y2LR$kyJ1r7<(f%8#U)!)DITzA&Ikypu}QtS#5(Sh@M
zb(@hzeCWV6;0Pl+a6JWcy*fTumVN+dS_dzm$m(BF`@OBgfs>2rqzi=6Do<-qolrZ!
z+p41Zpev^H;O|4b_ytn`-9+}cJ5(B#Br%=-Jp#H1gtF3sGkqK{pX)>alx%AX%z%@N
z=)mLElsLlEuQ}~Vck)iy$(qn*FGL5PKg2G@i(>4%9{@)d(ShrUTa^*I6PNzonLnSo
z$*_sCdJHe0iweCADklWkH{SL-WUpE0S7JKPv-(HuW#XBE6Nu>;pW9R0c>nJK;HY3a
z-ISa^mIf)>494=(4BaImt4Hzj31v<B(rj9N8#tAi&eNPde%~xsmVgt8>6|FlT4Z$5
zKfEg^sj;l!y?_d$1J9otTV=N~lc5z!?U;9w9T$se5FL0v-*@qElG!(1p|*`zT~~ff
zL%lXy&hYttz|$;Qsj=K-k+&pXqjIxm0;V(S+~TCTydjlPFlTGbL|`XkI?9<zz9Vwx
zIsLiEqd7*)du0(FMrhw+veHzw?`lii;V%8(sT~TR35X7y&(l2$cPMOcUsOmJdYzUW
z=9tz(%NZVbw(YDx{JkrRi)f$5(5mfhE=F`VLw#Mkps;i+f43vp_mUAEddS&KqiK3W
zV_qS!WRI+L=L6F~L<gRSY@xsIZV<`i`=|B&b$<&usUSLV&IIyX|M5sMF0c=0!gS0$
zmJB@|Y4?JCI7Jg}yr9b+nw&wp*pz_bX|NBcB0BK6pB^|JJuF+R1oq*%hz>knrv2y7
zT^jt^2lnBihz^|d_Zdp~xxbQ?JK91YX3JggFhX?TasQ?6a{VjA0txJ&xiFnOh0DYd
z<;UUbdB%*|oXkbt8ffDM=QEqNDJ$l|0ZFhA&qZ|L@p}4iqk0QN-!8E4^+I&uocCHy
z$}D-D-ea7{L@!dNQmTRI!1cI&(TS(IK<WkiOeRE!0Xp8*T&o5%FBrOlede?}TFy+6
z!*`SHo>$On7`ePZZilVTHY%b6&mTXhx7xzp9*tmsNJezveC!`MtQ)l6j|owE$E#f(
z6Xc5N%pT<QVKSY%_%XFCN!1|nxGbUrpLZ$_txJ2WHxj@;lYr>J`Dn*|U=tdbbqD)Q
zirT;b^8pRV|N0WHXF#iGnfzyQAK2H`BRb%I5cmN*Ui^xU{Me8=C%wzi*2EyY8_|L5
zNtb86OP6+DY0Hnmu5go!e=0GZDUS+j=MIPCU|&Z@bl~GO%;g6AECZ<^`}zA%hm^mO
zybv9D9{Td!<??uA)))V8X4x!ZiL8R@oM5+_V`Wa%nP}!aJ3{7Opuu!DUCDbBUC6c-
z)YEzdZT`T0jr|;7775`w1)Ky-$NFR|&De7qBj8x#I>En_3pSHQfFq3Q1nLV|YzoLy
z1<tf8UOqcdoOvG8@N)$?#h8v3NB_IV&j$O!xCdf7dSBV}xaxg>fqFDB9Z`;~$UQtd
zH-W>1>DWBUXh=P>DG~J5eHbt2ipPY=AP?h6P!9>y@g2Q<eViwk8#qKvXQ}6gp2T0L
z0N_YsI$5!bMRfZwPXK4(5MDkHCgwDD%g5(z+a^expG4PPiRsWtWU2_u1S<h26w?_X
z^qrKJ?JWY1E~e8Jd4Rtyc|}QU!H-Yl*f%{cL<c^fP6e*1zoa(Y22S@uw47n*n0=*W
z&8<`KlxJ*yyw7ooO+a+u^PsrL$>#UfL94(C#B^e-=>9xX@DKwI5z&FKEAJhea!Y&|
znF$;tOh?M{wyNXKZO)EaD-VBP(^}O)bl{vB&u`*4m+I`F7TPrIwrNI!2GKbRHZ1@7
z+@iywP0b4a0UQeA{DH48_TF7ozGCt|<?Q+O-1@n-`C>!|?n|8U$cqr!sB#(WdlN^6
zb{TnLI*Zk;+uv-?klB1$F)c}DAXygC*$w4$|J9!PoA>!02u|-aBEQeH(;%*6a9^=W
zl_irmQqziR1GbBkZWHSf>w%r-r<?;4^I6Li-;x$xHs7R0U4LNb2cw{R#ExPDa5NC>
zk%00cnzIZLm8=xsyktG7&|YOIi<yt%0#~Z@{TFFbTnh}(160Zu5bJ^0jh6;q^(m{K
zlyX%q_xrKN=TPS}oKN;e8NM?=NB=o>wVbyTt9?L1tOs^RehgKwEp`}!dMq&=<)qUe
zZ#3;<0QC?s9l}h@2j{6hQlK6R;<^F%#j#C6c6*-dLr@P1(~+S6U?fGCd$LNlS6Q)Z
zAm0+vf%oD6=z}}%c2#@>eF-Bva9<`Y5|5p}UZe$mQC0BHgS$tj=iCn-<OTJRF`c$R
zpU+<I(L<mfBBt{*Mx7z{IJ-K?Ss2lQbFMgW{1HK1aVO|&S{W}NR)V<xbluqm&{r;|
z(`sa>5=Wogpk<M;yWp=X#TC(k``Y+WKzYha&jI?9MRef#^Zh~naZ_E^ub{65CA@r2
z>Sm1Fc(MHi^%P?|I{&DxmtPUDfqJ|!9bZqM8p7&3VK9GW5gj;Zn_3#N<v){lps!U$
zynNo6mmEvx=g0$nRbo2-dIDbm`6@#O^#o!%QZro13Xj!xfO=Fg9k;Lxv&)%L!C*eG
zDxl>9=bXBCWv+`eITzGZkLbYj`9fkA*I*0zyz=A8YQ4Sl!=Z={T+cy$UzgL>`LEPi
zTE0mye(Tdkbl`ddkDpI1yZCPP_7jt>Da9OrnJ}H?*50Pvy^E8eo>qCZoZ)(2ty4sv
zzsdRm@`*xp;Cy~6tCC-iF=m0jj1V2T9<A@}y-s@5Eub$hOoynF*RHj3vvT@q8-e=n
zn0L1vUOt17L&|F}CsezI7Fjjp<)soZ9S#-V{EP>(jy!FO`*;O(4;o=Qvs3K^+P>G8
zd{1&&;#Y<&xiB5kQx}DacW!Eu<rGa_o;MnIAHd6JYqi7K7ZH3`2VbA9N}&xdNWgUd
z9Bv$7oe`SQx0m-BZFPQSgz3DqzH`-0%P_0!xqDdFlfe&Mn9dQGXGz?0kC$)hj>^5V
zZ+7UG#mh&;jqJ6$qAPIYwH{9ZCFEZMrX%@PuDyo*MczLB>w!Xx&Qv2zCxyCicYs%g
z(t30o>3d{lFc+rtwJ@B0_m7|^_Kw5)@70ASy7%Md<Ede&6C6`f1nws!U^@JVH!?`d
zzxRRr07i%oGju%|GMCEYAy?Sv%W{p6QAVu~)q&SBOXvKzDI8C07bkWy-uciJ#)Vi9
z?9}d<P2pt7-3#tZbj#r7+|~Qu*+rXe&N<=n#`w7{^a+?wxH!j_Z6=$D?Q4hineL6M
z7-2epM4df^NAA7dp?>!9pT3q^E=(sjs>f}PDDZi#y&?L6bl|gYX|#Oc*NKV*zP;XA
zU)Ofat;|D*dGI+I(SgUSz*47aXp3~|q0bR@7cAyWiI`65^x|#3A1<AOVRd(BlFpwM
z#&p;zOCkG$8=j}UbJ}P1$Zwh|g_aN87wf2Q(rd$C+p}0Wl;k_~_{f+}Qi^Iuos?PZ
zeyfk$0*H2^L`;Xav*xQ=;+cIjr*CKNCplRQV>*2Hr~inkO5}q3b<}-$`3xJqDlt9Z
z-~jH|kr5sE{*TG4X2z!t*Ht;{SN*BG+dfAjI`DYW=~~7I74gb~`+mBZPVMoRCw%I%
zMi~2V^|YND&0<1y;Qb+K!+6Vi>g!G~!#zSQ3tKjK@5Rfx`(;C~wRfdz;j!R9#BE^=
z37C$kCu6fx`o0hvY1h)7jrAXm5FL2ksQqnx%_44lsw0b*f|^;%lrW+LkJrG56IJhp
z6U}&;y|(;1ch`!#2QMGdbxJ0uY3Qo(mNCcE8u^}NOy@W~L;MvT^>k}%w|tqA8%ab=
zC+ymS?&EsvH%H7>4XzZr?-j;$I%+e!=RMn24qmiQ+H$OFgDQ!ak7n36yV>r?qi0Am
zj$h8XG?Ou%Q@O4N<G%II*=3%D-h&h_BBt{*a`Kh-t8)({wS+VMG`1KDV>;F)&rDj5
zH1j-JHu;-xRP0KXz{@A-_e8c<_V?(6D;bu44+&gkOefhYF0{zvaXEOsfQaeH>GwsS
zRoFxU_xXhpovqNmZunZ}Gxodr?BG7XE20A*r^IcIt$T*lPL?LIG>Gk8AW336Uzp#?
z{iD3~{aG!wE>gp?F)fZaUV6`O?fx2&J#lg&`n_{j5^XM`!v^J3?962TubDc!;P>PL
zo9a+NJ)#5WqjS&ra^1FLwRhS5pK7s6^n@Zh@cF{JK7PK$^xyfkb;<W0Ph7HeF&!sS
zBgwr?vJaDfCKbN={7IS%(Sgs)8RrTY_@g=BJZ)!FWqCg+zbb|{Uhw&1-lpo~PT4y~
zWqrF<sz36Iwjw(4d_I|XM0Wn0fp@Toy-tg#2p?)+@bi9y5k}`P`!fp0ZBaA*sG=Ic
zgqRQf`sq-*2%jxSobp`3-8*`1#*0+MzTkZ9Un~C1Cb{0e-NR<QiC5077}0_2i3>gZ
z>aJH^<za4i?rq|Xo>7?2T*5t`Rx9TCrA2DfzlzoZBBBG&=L=^eZXe_3mMB}jw7f&}
z8=EAi6VYxfaQeX}dWBydy{0brv=>Ct<{?~9QBMJ9dRM)n$nkU|rNXT&m52_U^EU4a
z`43*&-`XC{pV-1o+M0mq!1dfs<h`qw?e$B!D3XipD@3+Lbl`eqBnk5S@Au4u*I{K5
z9r$_L!;Fy((MKxD+Dd~O-*@pkb0IqLa~IZ?J){FY#5Y!%E2Wnh^?GR#9XOxtgk5JU
z<Vut(7WThZ3Cl5S-HkTx@cQf<WPPwVsdbmc5!IY<8AFjML<jEc`?hAb;ot6OPCi(x
z%bZsA3q*9_dVYQvF`m4w=C+VdcAa}d5>i2Q;Cf0#)a4gvecdm5Ow|@&Y@3iobl~|D
zN}l?d`fHvGI5e0JaZJLmpOsVkvz~!NmCor1iU{6#t=nIASJoGE(=n3T^{Rg~iG=Aq
znxF~b-(IB-97{|`O2YQ!ryYmC1BZa=@ctWLUHE8dcj~B}g1LO)24xpsKJ!t`$~)Q3
zPl23Cm`+D$Nnpgu%M-w{#B_S5R}KYUO5y_!0n-^%`KCZseVz|;rU;|u1E1fm?tBRm
zZ+;L9a_&ZS;Nv3r%SQWGyTujIS1zIh?=$DlYZ%^m_e^`S*s1NGe{o|yq64poFRoJi
zdlcjSfD?u3Xr9s9T2XhoGk(tap8nUS$3}<_ypH9+={eReEb$yTT$s)md+&w~PudRd
z=Q#(JBVUVl3!#lWykF(2JF9%ICs7MHm6(o0O4aq7ySpy{hm7gO*%S=ky1H-_I8m6+
zNXix)(Tmll!12O#KI&)x-qL83031t9XKh#3dQaTWl91@zJZn)6W*UeNJb$*cF%er{
zdj0_p4W^^h=fla~O%()Az2Lw9^8sD%{jV?KdUhNrFz*|`bqP43n9he`Hs(y_iX`A@
zAUg2ze#7-dj;G`ORNydSI$U<#4SxR`%z@J_fR+zjPwq7Bj~N~QUf_^09lAe7Kh&1r
z%KVF5yt-26aDs^Fz~i-c{rFgJYC9irgfSf*o{{we$#Ey(P<Nu`1J~32;nI!t3A+ox
zA!9lPhjq?Z*U0(+hluI)Zp(NSpX8?x9AQi+!%M#X*hbk+;86MT@+ntilDBwCOau-Y
z)7jY?f8gH>ks#m@F`YcY&L4KM=i7iIjOlDTw)^ndp*M}dq3*!T$KBJALA&(8==AYz
zLfb4CDP&Bie}8w@;AKS};1DsLlIzN^!(Z5ZQ2X|{ls@{JxiF@4K}vgAEF)x9r(D%8
zbJhPBl@BkUpC!rLe!blu2^=z})6VO%cIV>Aci<2)outrn@8jsk*nuOA=~NyO6v<g}
z69f*GfR|5l-tn__=jpcshm7fLO}?!D(IjpcaEO@ByNy=~->V{efg_CRWGELM=@^hc
z4;(5lUOs(i8@3+M@Vy8eGNvP1wExRd_X`%lA!0hD`fHyYH=G23BaG?DP5T6I;gZr!
z(Q*6MpqQ;p<-yBmP|Ujj!5$i$u<`*G#)&E-8PS3F3B2!YAH@_n-3E>;rgLkm=cUQP
zO`X7z#dOvSqiNN|b)HrSMc3CJ-|W1~jhD~uI@R~45eJ3AeUeH<2fnV1(~BO=pp`iX
zoCHi~Aw;#5H<SOrjw_}^U6UPT8#@#Z>e0Y-jvf`yI<`lDhFfZ~k4dM&h=Az8`zVcU
zBGq}H%1+==w&RW0eaA)mObK>F;E*t#?!8AM#UGaE9+c%a(rM>$x5RX0E$;PlSM_R!
zI+7-<-`a)~5FPmVk~sG1SM^Foe#bpm8kX!fU+Olrd|+os_tQ6L1+qDSlZ)vLylacm
z+Y{;Vu%gLXq08j97or0n7iY_UO8S+hrm2-J8MRDCWa}b2@O^;6?|XY@vScqA2`Lmd
zoSasYMReeKsIB&t?UT<r(_>?)FZ5fDXcxAk<qSKbE#1oXhu+mb_+_@frRHXSF`@(a
zWiiHM?OFG8TJq<g%j;Vn-6A16@cY2{7i!n3eK{r=FRmWlbnDMB8PS2~&*NQc%hnIM
zVglCcO{DzS3|tW%c-*zRFGrNSY-YSC!<fT5(3+`%=)gG(#d?QcTBz0+4ds1IDHv{`
zL3H5zhrODmykfs@H+4iz6Hg6>rmk*58+SOL53+P(n!*`Ri%wqJK6K>TKs}-ZzwUV}
zHFjfBk<)$q@uHlb2g4jph<(BJxTk))Q&vbi+g*O-1#QER`fkK}U`P8_ghJu`v&{Eg
z<pY8>s=6dhC;7n9fDXMIBP1cUo9Fo4{t*!!_;nByA^KDH`);-`Z7$>4$T~V>gy_J1
z{R=X=tmbQe&h;xF#}O7@VFIS(q8J`(&#tq@nyE4DWPD*Ml?!eD!1MVT%e{y1t3Q^5
z>o_u|BQo#m{989@2e^(SVmb}x;)#4-9)4c8gKu78+f*uy>D(#r8b0_TkUP3AoIXK6
z(Td86mk(cUM6BHlu8>2F5s@i@RTMI!1Ft`kJAFAF^V1FjClJ%wB6h{wl%x^>_6bIa
z4m|F1^0L;E)jPe~W}naHog~R~VLDgouN~95qp}m!)6IdGbFJd(?L60OgFrnAn2t-b
z@J->5!V-30brZcxrJ9T|9TA0d-Q=SBixii)be%7~zH%Wt@bP}nWI_164XY41z9{T?
z`J`~n%uKOPZ2}Gn)8W^w_I2`Kq6dy8rnCM~^(Xye4Z%t^u5WX5<yQix^IO6zTaQMB
z-*T#S%ZoEpJ`^^*d|r9B>z>px_z12~NtjN=HK|meI40L0tNZQ0zn&Yi#B^xBa!Y)E
z^!5O72$&A{IA0iz4!1RMD6Dw-46Dk#YrQ+K2OJWnvt+$ja6HCsJ2>7gF&#eMBX+wu
z_`<>QPQY~9dpQ3kTpF?k^-x&w^3jzkf7AW)>3`QB5~gDxb7hkAa$>Q{!`h2E+hPt|
zVme)&L)kkV1t`&5*UKF;Wt0h+4)^lz19rkO_Q_7cd%UMJTPVzU`7lo2-|8?uvUyzj
zqvrOQAY~G!V|wa%deruro4~QebngEeUUS<sx0P*_C9qVjl|Vpr;Oi7x;mbSMeKiad
z`**eYWZ23HBRcT=yhUU<SY>28Rt~3sUa9%e@=+GifzKCmCNc4iYw9DRpGG1-Z9P`L
z%7ivv@bi8j^Y(gncD@Z}^%2udiD#g;B06wAl0Ly7Dz4b+f%8QIq66<YestxgU&%hw
z0~{kvC;rInVAy4De&BFnI$ZV_#1!6p-vH-}?#*a9!+mj)>MFcPjMOqJEl((@<!~n;
zI`H*iVruu>txIhpA<YId>&eDXqYxdqp4}VuYnh)97j;x*H9QOCG1kR&axR~{ap1!r
zA5aeyrlb2gQ|wd6P#LJFl@TxJie84A^xCu|V4aV`biU<~wo2-TnuGI>E~X>CgQ}~k
z9!smLF;K_IIqt)R>8PGNqq3ue>E71-Wl6v1O>(Uac=<3q)qVKxjFVxP$s1Lbr2Ai@
zFrCwxZE<s>{8_-!#dM^YRakQ~nEAbJ=lUHJN&HNh&S+}fmD#`lvytCx6PTA%Aks>Y
zmrsU-XUZdYS<=bFB*&FY?=MFoI`Dk}mf62%4OJs=z_<q@I`F#s;a<XTN7kb?VB9qj
z9r$=JlPK07S6CnLY_4^`zMq>ygXzfb=JS?s6r_N0uct%H8NSYC_c!zxtv``xC;!9#
zlxU6+3DJSiU)x^_@z!dp%tzO*gmd-lJ$FTP;Cjw+eh%a`7;*>mPy^9{$4k5Fy%^Je
zJ0dvmFd;hdc>NLCh_%0Q@e6QTH=*SWJC!~=wI>ZC3&C*_h3LS2?G2MU=9+#Xc8}Vv
z_cU35JB=_MI#d2#fj?a2!1_!;bl|=Yo?%heVck0c)@KSWUOpMUKDyq4)eC*X^9i?U
z9AZhB4rP}_9DzHK3pkdT&YAC>x1atFEd>q%)9Jm#HSF0d9{?N*4PHK1WCA|Feo`t6
z91^CpM6m4*p`qUf97{~6Btn8o>aG1|;1DpKsY&G^me2N;z@hxx_&)*tuLtv>KY-_9
z$`VWTqb=__fJ4G`%#Pj95p8Wa1sqFEr^MLwp<H+9ec%u<oiH(r#rP{Z&A_2-;N>H7
zVn>G&o53dFkT4w%UWHbBtKYQ1vBY%v-Ku>`+$xKJL%?(tn*>5je&1^Y4&^UiKG{is
zzU|=+egPa3rjr{qc~)HGSUPYlF`dsW29hUNp3MS>fay3Ll8NOx=Ohjs${)OZE}IHP
zb(v(Y-Q2Xz;-<%e+ayfqu-TrM29pa5z_G-1gytexT|-S2fJ4A^RMhC_p3=~?0EhA$
zFCTB}%Y#D1UtGW;VLDS>v#(aV*b0DSiRqN61*B(h`lSgR0;Xg3#Bhvl%<LI(DC>Cn
z6tH~zN5`m`3mg)rqtZCBq{=_`8#tDj&bz8a&FEJWp}W_kcfR4)xkkWr5;kixXvA-p
zosqa>^01wald^`E54?XalKiLfLGd8#;|?P(`}Z6Pxrh$DKTHt4*`8GyTot(Qt^Qgc
z(}EYG1J|=vrh>)$>Xi#GYFFh}E_<45AUbe8+$_d_y^?<>)D}>ljDIaU!i4EK^z3_V
zsFNGuxg)2f-^}7^_bOV>@IIl$>COD)(Rcozqqm%@+Su2Ufa%o9(RXvozxF=<t|j<P
ztP05p(SdU=Ideoi+@+hQ!f&GeW$yG7VMGV+tJbOE9ixufVYP&Mvo~}nEUCZH@`10H
zFY0sh_d4=R`D-7g81(l@bt5|P^9eWe#CRj?tiSC}*-LvNfNhR|*cW^~xbwxQZI7k5
zdw)$X$>+Q6UbBE$51fxZ&HK(YJKt@^))L%#3bri8hz>lTWjg#cyY*wmZ%#LunewNu
z1R^?cJ&Va_UeI10(2b!rH*fkt%~wHm;PGlRHfg`V#phwHfOKY;MfXQZL<jDR{Z><H
zL)_gUupTa~pv@on{ybNm|DIxz7DKQet|B^cKD)9Kd%`Wmbh&>{Gu6L+kX(uBOi~vQ
zy?%dv1gxupn2rElgTlUv@-VQjs$e<}kBS#vG}G>eyZ_ozZ>&aK{fU+{JYIgqc{9%s
z1(<Ym>&R!04y)E9I`Huo(Ct!hw@bd)r-6U)&d@A@gy_KkPJ9=;n(Vk1!$U5)O-vzw
zeq9Mfbl`D+I<{^>k+f6?_ghpjopbFUm<5ihFJ1~xv;CI0!*6vNEoZo%pQ#RO#>7A;
zbDuv7XCC@FRU$g@I^WQp{)*(tzzCkFjY4$b@!DZOxAdK_eFZ$1Ld0}bPn%_YD-db{
z^{8MvMtxeJEQx2|0*4FJ5nWM`8??#J27OKcKpQVOpEpTy{Kf&v6!3g+J)#4TdufH?
zTH&u@Mc{;DI{Z6SYQ7G|`~!{#rjuM=wY+#N{xfiBFrDknG26?l&DDWZzl4@EoDXyC
zwO^9X{M^6^#dHFX{w$bjfA?QU1JfDT=Fb0CK;#1T&|o?tGEoAJ?`@9(r+yJHA1(*e
zo8dJ*3&07*bSmNq;kxA|{~dP?OlSMabvD+FY*SDV4W{G!*;L3Qc>XSM>KE|xneOVe
z_)r-)0h~}w$82hh=aORMb>L`VI__-)g(Y?D+kiuZ>0J0b%hmeS`Vw&J=kfA+yy)l?
zG^IraPAI0+GBhtj6LEPFI2xFa#T}7j9AY2u1BV9F@su1;%{g~H066vE@$#v$y}ZuC
z7_J1IP)w)YuE6WMz)mONXka=PqNh~}cjwE1Lxbs5uGvPP?wip9PW>ESJ|9K;YBW?2
zD*z`H)5)%*a|+Eb{sJ5gOh+oDKw@d!u^2csn9jPGl=~sU3t7OapT*0^j!JnFnwG%~
zoKQ?BPs^aEIbd%va5OL-W;Oq=$J)H7!Sfq5n9i0DnH+ghm&(EO8};At@(KOAHt0UZ
z>pLD&c=NgV`<tPd&Z9F=4ci5uzXh)|YG69e6!LzO&>unYIwK9HbAOoQvjOA(JXpZ7
zROJ%P*j7J-mJhtojMIBDIpfYC=l|5Tb9DE*HVM&z_ffQq@^1GPiT{9OiRsi{C}w0b
zwf_Pf0;XfM>ThTBz^@57l&@&{z<o_V|9Xw06mbzaBuuB!pi68ePW%>dEHNF`mrqVV
zi@o3p90I0uU$gDXBmaR;#bGwlZKrs6DAQ>9z}N50i*8Rm*P8z8kTD&avqL<tySEL4
zdR#G`V1}b<7v7{514kCqS-tl`*Fo_Y2{@}$c=^2Eam-}r?SfX|)MGkpzb97%Y<8vq
zCkoS{%M%NKYu(HH<12T`(&{aKBSZ&2E~-e$U!PsAUFH9I{Nf#P_H$f_4m^K8|8=Gt
zqb?UR%%~12*Dje;zM$m{*K^C-q0+G+@dj{6n2x&g#D&dF(Ny4AVmf90UE#;eADsdY
z0n>3hVR4_2zcm*)l+Sqi^xQvCvGOWB0yrd0hkALACb*9MEO0C_osGtQv}E?!p5-Fj
z+-#DSI04g{V(gZc=H$Hw9LgkKKBEcVPE2tO&cGpII<sEB=9y~lhk#>=>B#dd@AeN*
zniOM_|4@3ZN1A}?xb+)WI!xW&1suu*UOrWV+DAiv?#=-Y3DY_I*HHO^T6-dJEHRy6
z%MWR^Zg-Y|L%?(duE@q}6~s9Mhcb?r&(CQ7jUDUe`+-Bkbn-G%mxF4qdjrQ3(;)_A
z{3Y==9{>&k(-Hr9ap{G8S{!gFV|e)-Z0|~%O>@--4hhp4`m&_i$KZbyIF^{sGIJT>
z;G4g5z#(8d-~T;J(@y{S1vnHcUOtD8$0gn_=sO11RT8E%x$S(ln3bLza4a#M^U*#E
zncR2#fkVJ_M8BjIRpxz{0}kaAUOumAFQyz3ZfgJz3DdFr;65zz>A`W}SYkTIc;?J~
z?Bbe%L%?(tHvbyEo^&&VM@Pvi&^B<GGK!bat(cJTVZr;nz#(Be>F-@$4*5&l0LK#3
zF;80lI;fMH1RMgUb6DF+@y&B*UEokg@bbCAW|6<3I+F<;5~icvbclalg47QjOH4=o
z9#w+U_KOM}0;Y5IOHAgql5u;m-=GZR<@0coZG|>zqYyYGOs6H{bm&$=X+GdsVmcjf
zOwFDg(op~o0n@p~d*d?CW!^aLyZUS)5w84{A-sI@gI>(t+<$0Np{3`^J2B=nBuwYU
z6Q;$tp)8J|9!pH;%n3I4xg>{5P!9pqIs4?Kq~ZAc3!om#AYMLg?4AUL(n&^84++z8
z7D!jsQw*~MjwPluJ~|pO`t4wvwOA)t>bAih1VjhEK0O}mH<EW`pMLEo8)ZV7pFDK{
zEg#s~nkQu7sIm1r$T=6$fv<D3!-%5vha~1eU#^G_Tu*J2_$$wsz04qISwsh}=Yi)6
z`+AAncaYBl1uvf|2?HChSyf5US0$#ClH*LX%lH-#a6&O1xj9XikD9ghARk>s2hQh}
z&21Y=fBPLIzgMZcJq90`FdaodN89}e4zFyn+7M$es!4C{N6Q(0zQya|*``aa<*Z=5
zauFSP{#@`DYYmU=-UV{@!gRKTN;25#P!&PWDu@o8b7h9n_pwJZcR)R>AJOuG`zkBC
zHQ#iw+yXqeQ;+Dt^@zD07TkKTrv<!EMJT4jw?GvX*K|(@js~XFZ-3}f3gr#~yx#>4
zreiOq^hbK^jU;gD`_OWR^GToeWez;=m}FhU_Q*0>dvhqF13!=S-gPN*=fmw>z%jyf
zE-96~cwTa5*=w_kK%FvgvoN9q_a)@j6?op+@g#7lAMo;7O6@(<aNyl<;E*w$q+`yH
z_x8DY1BZy|$T^;*BVKj80vusX=O=w7=S1-!H*l!Ec=>oU?<N<t?@D1!w9+42Hk~75
zI^Sr6ee+#^90Cpz(;4)2(D~;kqz@cnOy|1C_R8##dR^d9-{a-8?vdjZIOO>pIAlyG
zGWZr-^oEcFaEO?W&(E%}I`piwz!AoDc5Qm|*7R(tG;pXrc==@RR-oA0n5_ecjOmEH
z`x}^TSoff1_x98=={O@IrgPuw%xSIz{G8xEk}#(8O)$JMcVA8raH!pQ`J^=ZDblPD
zu>psS>8x<KSG_XP>;(=H(=q$hxh1_ntO7W~n2yO|o86p751s*s+J%>o+3UCL)WY$7
zz#(Hga$?ChGUvk9z<nelrX!F!^3itLxCJ=Em`<qbt^+Pwq5Qz1cH-sJbJ@B?z13A5
zIAl!6!EV%9Tw!x2aEO@BRw;(DG`_>Pfg_CR)DZQ=O{xUQz@c{F<-?b*dCIJ1sPB5V
z6S-;E{_SK;$8>orIqbxRY~T<v9lgkQ({o>{l7J(O=~&+Q_lfuF_PxNNzQfDs-u%<x
zJ93d4z#(Hgx`N(%?e*X5fkVV}_FLsWE4-WQ3LIffM<(gf+Ycr2#Z)b7MZ=@5%hb1M
z`M~?$Bf6HqJLvB!f#=nW5gqvXAH_ZM+vtZjoY{YKOBZL-wnQO1@V@tnsJ}bwI)5v0
zbTOSh=7V=aB+DPu*CyonIsEQm!gSiVwf9ksTo?^fevgb^J6P1(j+QgrSI(IW#(T&3
z@`B^F4^s^)XreG3zYOkQVfU=sfTN4)v}rcKtu!-e01gwT)9z<<bMafVU$Al4{avnq
zGg{m5@)=Roczbs!iVM^eh3ULp9ViY+^pjC}DcEN=>fNb}>Fn*Qj_gby-U9BcGhsSn
zl4~=@Psdt;)7pxcPsI0gj~X3MM*}Ac(^>tI{gW#2C<i#Ym=0g_<bsb*;9hWFoe9(N
z<G&=og~yc<IIS&s`IP(B+bEBxJqJz{rlX$n$~^M$+yZcPF`W|mD>j?QKM}>tc(^#M
zH`y{_I-Fzk^d_laoPpE&1}`5!m6^Ls4&BFq6NTv{XQk$UkC%7>99>MOOfT8@(xIbz
zQ3_YqLw`?)GhsSXgBu1xe3TI2v^L}A^VKnSJLz!!Mc_nXI-ksHXz7&L?g2*^(|I+@
z#QpmFr!YH?goe%g((f~2Iwnd#^6HLz9|ulr6J9>1?1^%Hjy)d0iNbWuCu#Xxe_5#j
zM;FtPwQ(}kczXPAbfvH13QG+K6Q;u=6gzZVy`2s?t*`O&F%WjM;3T(p0VfL6`9Wk|
z(tO!Q4;)=gXN-Rfm+zv01#p-!oyXIRwBD-X;=pNb#LFjdPprCX&&U_xL}5Bl7R?MU
zv%j_hjxMI7r@+e`TBv3Z941WXsHA@2;(6nT;CcSm2E2Su&U{}ozd;`cp68Fkbj~)M
zY13oB+70T_#dL~GPd4?hIh%ocm@u7)yhHRd5uXM?J+1Y4`BY{J(!b<6UJmMs!gSoY
z4)dK~dJtObRhyRIVsS+m)0qp2q+H_spI`d+ABPFk2{*SRS!7JSYs@`cQ;>J%Rcjqy
zK6>dc9A);VnTCzie}qOHL!vO9+3P}T34T8|D}Aa6bTV)}rHkmmuYU<xT(_SbbQ1>-
z7or1SH*I|0>-KY6<rHwbU*Y9*s#!F+;5f_vunP>m%OMZ9C15&c0+i#!(lhJ8F~W3?
zKe$n+5H!#X94<r$&RL|~jqice%Q)arYSHq6ofgkKXBe5UwE>5W=)mK3;k!f8_jB=w
zfI~!d;CdqRD<fUl1?YhziRi%foMRYHv{RSa0i5X?ynKE=eqwhuQ#T4Y#hA{_73t2_
zhEKPF6Nu?t+Pp6<RQHJ!a5ONT!ZA^|tF0ne!MeeO=)m`p0^CmR-jwzrNtC%tV|*c5
zol=dKGdx~%_hfE5pIqOY#d`Z7m-E^S5~kCi{CA%j-Hja6icM|TPTT8P;yRt5ED7g4
zJi+=yKy<c2@6X6~gP&r0Hl6^+%N5aq->03%yfNb4$m861duP04Yt_yLB0BJRU1+|1
zhTA>pzrROA7tw*o%OdGnQ6TNAEO^d=3DYs<R!ll@McffMtyOsQ$9Y_S6XSI6>--}}
zU5#bg2cs|@*}{_yj{`Nod$=`JE7u#l>S8)Wt+X74-PXEoA@qEi+gwYTFrA}Yz2mpH
z+L~`$?a6W+Tzb{|5-%TxIj<6>uYXjJKMGV$s9T{#VLCdZMUJ-^HtN8>P8ZYZ{roP-
zBd2{A*w-;(IyV;yPFv&yT|qsqm3aA38oM|jHPfC3^+aJh#wtFO+ru}mct?Z^7rDLt
ztBdKZPv@{dNme(?%HMCVwRpat3Db#LcIY2Ev@I4mtrd9rJUP<InKIk5+o6rU*@2#a
zI115$&+kiVw9US<?(aZ7Mu-l)j#&?FRTY2xx$)D|lN=?R+9+W}2VTeO%+gaQ1YNfS
zhgy!84`b&mZE5=tsTWEf_NQpMD3CFop@gar?YGksfJ4M|tiG%5HK=|1{OaNOWyiZs
zlERqIre<wfO|6%0AqGZzg8|`M)E9X9xS14=o##ES1{^Y`)3&uq^GlP<5+iMeh<MA}
z-$YF3;sASJqTd-p{w!zF`K9O`!kA9!e3*=(i{pLZP|NW0@wg&oKUSjc;kVs-Pk`?E
zax$iKlyhZ<%+305)>n}<Zhv@zi0L>UJ#cNmT&lWrx6E^eV0klPOvk2Y)S=pdW%7g4
zT-F-HeJN@wUOrvMPnTv#>5~5Nh#H+Dj(d?YoxO9Vlo<DdE74QQubdtAhlz*|ypCn~
zXLe7eyx9TPLrFvj{=KFC951OC=8Q@N&Cb(J_c`z9LUiEga$QtN+4Iv9r<yzHECRdS
z$P3T$a%MC-)MlCM%Wx}Pvqd4%_<Av-1HUe8r&Bna=NWz<tn*Qb4xF=x;qT}77&7O<
z`fP;gz~_q)7MlUCj6n{tt_mYM@cF__Sk=z4>Qx(9SE(g<IWOOOA^0+b|I&ZgLrkZ;
z!;Iu5qnrKT^$^j4=g-7x1}{_X=2JCB#p!KhEDain4m@7`^L9_&dneMtddP(6z&S6^
zg#4cOYupaj!`5Q7oZ-H%sd*hsH1EFy*27#xhaI|(vlIB3&*<p%HtU$$nc>$H&rs`u
z=b=Wg&B@^cD{hGozINhcXPQWe^}soAa?j9|Y5rpi)@LH31Ltfm*7-Y@S8Dpt{Kbn8
zQ`l&QF&*QHDhAGs+F!t-7NLz7To2vasI+zA9e&`DF`aw4r}U!#CUgRai0P!sn|f*7
z(vJX+Fs5_uz$y9E@#O{JPz&+$(fIAvz9DnwA8^Q+&RXx|s9!VYn!q7qI;(qJr+(Fl
zIs!)+)7e_Jz+7mz)Ce5vGrWAZx%{au{UYoR95SXu=;zcJZa2*b4iVEi|5NsQ&+o+<
z;0R+nKdIVz+A+Lxz@Zl4<zp&Mml@T@tq~#TFCoS!K1;@QG#l(kQhZ%bJuZx$dh)@x
zi-_r{XZHy@9Y1OxpLb&WJ*9$I!kA8%durezudS`Xq2}Y|V`o7hYZ+2}95`f5C-&o|
zYuo7>%z#70bo6UH`x0{=5U2t(D<bJz=!G$ztSGDKr#aDP?00A0^L{7UQS;F9fzLZu
zd(<7x4V^{XzZls1^&gGMMReeG{+40+A5*`sNZ`0)I%%s%MSU4FM1UiS=)mXYtpN)8
zymyZ5&*(FKT2=hcWA!OoK5$>VJefH8R^R?peK*iyL-9CPiRt7y4HUe|92@{nAff~B
z!)yBG6F$W86^qbIv04ntJ~Tpf;CzN`pA}sF=x<@{a%!hu5Y<)~(Sh^%B*M3Y*}(A#
zaHzR>Ip^Hqj`>w?6AT<Orqf|@BJ)hI*Xt>_Gu!4$uS*j#9gqKc^yk;_%^$XACMmYH
zUhWabbpCm?J}6V6-*IVD{Dhg|_k8LTynOPu=I)#9`7NvPSkU2B4CMhC(SeWm@v(vr
z5wup0Umh5Klh0G;cExl`XYZ!Sd^_g})*o3!2cAFCY_*l2+Hd$5_VrBYT&pZy$id4;
zPC2^i7&Fh_C%KD^aYCG*ixD08xaj2G|LCYe_bga{LJ=MKKETrSkCy8fdfsj=Q*oVL
z{G{QE=)m<@B`s_1_8sAAvWf1Ek6VgUL3H5jrd}Fa{pHse&K1q7-E)25VnaZ5;NOF=
z_e@00WYo&%%_ZON&ZS!U2_ri2xF0><Ib8RR@7JB#wBgMimyS{&qm4T}pP!0fc-zTV
zxdztxTto+6SFef1DIS?fSk#_Lsfg3Ld?^&u;ZmQpQEI-w7OPV7SWRm8H%m-s!Rv5^
z-*5drX{;Pqeb@w9WDy-W=iq_*x*GlV{i!~35n^ZF6fb0><qSJ5k>MT8y4`oc`KuVw
zf#>s}7%k^J?_(R_{1uAmz~hxI;T|iL@BZu^Z-{u|#MCuQL<jE6*<MO6u7X&?*K$YS
z^;-NX0-^)g!!3Q+JXU*-7o5Kq9--w7uN$kJvBJ%cdnlscc>dAeO3|YrI`DDPG<KMv
zo&TiGJXWQ4Q)`qd8PS3J65jgrb(iAL6{|t=CwfH&%Rod2&Uv3j;?8|sT-R^;e%N+H
znEs~<rt|S<@FPOW=bIxlqg8(=mkL%NqU8*)hg>H+j(CT;l<V`Hpw+XE%Az1Ta6VC`
zIYCij?G6O8LT^XgVf|u62Oh6{jwKP#YY|fIqGKD;wFQZRhz^|dxgQ~kNik8jdk@b>
zEc&g!Q^9mhA{Gn_C);@aj|6ReJ{1wMnuV4#T#w^J7TRp<F`uF@27k_m>?o>4bl{v>
z&em(xhvy~%Cjryhm;KOqBQMYZIIft^Tq*mv@PGDFz|p{TwljC7YoyI`1BZa=q`$3P
z;E(p4Fh3RS;WoCje}RlQUcZwW<okABmH|#NrnB*Ihh&78$SdG@VLG?IG&Ekhc)EAY
zQCcW`qWrZiq643Is+A57M<yD_0fz?Di5w{Tt!lb@0yy27XgS06D7Nnw<N3$*9XMo6
zXC~45NTivZ{VDby-2$Sqn-`)3AE&oZRyqvIhdl$1ET+Tu(Iml%lkq!n79ODG1J}c6
zq!s6}+kQ+*_l{kf)DNp-Os7gJKjycyk~VO>FrCXH%+uXgdo+O~i|MG%W<4!A(IO0-
zg$%rW>V;3=H9bb50;d?$G1W7?Zh9l>1DlPUB>U5s3SOAba73m4*K5Axq7TcR+<P0m
zWf2|tJg6m6xqUd{YbaO`SJUzGN%z=i`?NKo4LFsUPP>q2*`cdE$AJ@w>Fm5^&ikP0
zQV?)dFrC`K?#dAAr4rz*-p9-5NauCZ*TS+*b{$_U##GO)S7JJCc@CzjR(+>{6Nu?t
zsi;uYpBHBZjtZuuV&sq;%%Gh`&onamr8nc~>OH)C{)8EftKHbb^mK)Lmwkb-W+kRm
z^w-sVJDuX=jO_OZU(3nV1!6jJ_d17WD(2>aqk`!itggR%Y<$rTIIC%R`S7y!Qw&X>
zjR2<-(_!=H*2`F$e*v68Oot)9{YTRM`Qle%9J6lToZ2dwPBYKhbJIyXL%}>;C86a5
zuVdMII~}rA{#t=~SdZwy=fSHdHGOOzn(bP&5uI!F{mUPU=)l)If!sa2>YnVQkqpZl
zl$qjqN<?(veamXE%@Lhzsp8<ckVSOheAG{Pf3;c>;R55nnu?Y)oX=+a%Rg*~vfI2W
zxa(DK{*kIgbl~fYXKvd4k$3jgZm9~Mb`9cON<ehroK=DjmwpNhy0%d}B&a-GzQYUC
zVT@^fkP;zEBOCUtoyq;Hl@X!?=lt<g)<7A>mf^WWvYEgkMP~w{!vQ@np;Ys>TC2_Q
zecSNr@YSs2F&c;te1C)KY>Ps2>Sia=KNo&Bl$mNtB06kPJ<caP&z~57b6Zh-(3)X$
zbq8ua@VK{=?(xhXDQ(Ff4mo+!BH}q}KCojdYVPTBVTW4KjPBRzP1PL>DQNSV3F=GP
zLc=g_^qkaucFn}y#Y5@Shz@+5ibkG|NKoB7ag?v~#MFEYPbH!Q=ltqmY4ycRQ3_d~
z%zPQdx$ku&I&eLGpRF(6@sjxr)@L%J1J6U-*KtQg3|(H93vV@Ue&)Eh714p$jjCtO
z15fE5j(~rs5QXV*Zu^r%tzKZhs+y)2WypO*7t`_N{vhD=?fwn$+&dGdW6JYDAoG6y
zL-5>t>s_>Y2<J2UK*5ytV|5CsCkoRU*kohuVdGp2>e0n?n8T}Yi{`XfwQvwV1f6`d
z%7p1C-3pVmZ7J(nc;xh>r?me|Ycg6s@NtnUbV@lU+Jk64{@6I^>XHc+(SdV5C$K1_
zy@ev;*2mYZPHHETF&%G987n{X4=FI8iI~m}>-|bko3r|XBaG?zok<?GwJH%i!lfMk
zT=&UwY7$z`a6aM=>6>~Ao)s4zbR1~%IMGSQbn0@}FXlY@Tnii`rnB<K@w7wl9|6mz
z8)@v;m;MN2I;;He*mb1sb^?cb2QMGFn|+RFT@U{T4jI$2zw^e_#9Ct)aEO>ry%tN#
z^83MF;0R+nfywlhRrz0-fkREi%O_Ox_lf)iBWA!MV>%vrdEHawj%MHxF&*+koLYd<
z6CvOTV>$sJPu_by)qMgu)C9bIj!Qi6Q8sv%4jeM36GD^P-0!YF1RNr!liK}SsM9U<
z4se7qow)6+d=EJs+<`;Ajh7D_6X!6UUyL_+e*iM3!^3JqyQ2B~C~%0FPLs9Yo-?;Y
zj{`>-)4Bg_(tue*dlER*c)WaEtQb>P3QUTx>pKn5i-d=hF&*|(%S^A2KHLW!BBn!I
zSNKc)+vDfJ5yo_e`zpg@7LrZ^hZ={M56j=&c*hx|moul&?=60}N=wFc_Wjb1T^W66
z)R)3znxFPThluHDyFX(II`}>1hsWxW7ORAfFs8HV56z5d!s{KI3N}<1U!A9=-onc#
zVm-<^qtN_L8z21&P4~<jGNxmfzSnug?D_<7h?q`n#W+#Se<W(1|G~}&W3h_Dm=0CG
zYM<hfINA`O!(}pKI~b|4c=<4f+Kz;IKWuLx?%3^g!nBf%=@>VZ-j-7Ot_&O^rXyz|
zNUI>i5h+=lwsUZ1!9y6+Il*ofdC)$&$eZ=DDL=!)5;X=dpMhxGU6<xBN1i;#mqxao
z_(n!_;QKa@U78=Hx3e4s``%DQ2i~tLrW9M;XXH8q91Tn-ZzOe5#o4wQI5e0}N4DIY
zO_AFYaO$J+au(fuO2;+!EiG_DF&*v=6Q}5>`l~zRhJTdBzmd|wbRI`C2_*Goq)cr$
zpLN*jEKP&yP{vwjeAK#s@YIw@KMyz_RUd_yk8E9uel+t=D+1$%Pw}C}6``1p=^?X2
z!GYgH-~W0Lk@uTat%2#(IVY?sS(*gL2J7whB+B*CU^=^Y_a=5O8&2%8vx(4?@?EOG
ziI)#G?acYtwx3Ib-dxGLvUjI;D5f)U(7$T`tbyR<S5e!;2F1b}hz@*Tv|ON4@1TI@
zxA;f1^Jl-&g)<>K@bSL#`ie`;l}@&<_a=r0jms}vBk}Ta49R$yQ(Lr~_|7MSe_7#f
z6ruz7<?m!2Ds8N-@-$jnOgShl#R$=X`}!1R<SesL%lv7c#;$ex%qcERXLWd)cw^e=
z&oG08kJ4&~S9b(nKEt-2w{3V$%Y>>tZ@s297EZu)42wNJTa^~;IMBa6WPQA0ixH;7
z>z16OxRD+la5JSqfbVQB7pBAgc1b5+XrDG&us8eO)Ajw`H_-Bd$NfdJ{<_@ubw*q5
zaPjqsqh2IL2Ojr7&CH~vvCCctDV47THXBP@VmiqwiyPw>J3r@b5?P(!-D^p}bVhlu
z6=bbFAlPLJ1%A6TT0#j&%Lndj%hrE#J6rDO26*V*%lUOYfrRM5IqN9R(H)qu@wZk?
zT^cHxZY3f*a6RXI^I5l*Th~steAl{o?*&m9(>duWDBm@!`xoqgs9|{dY<;Z#A-*GL
zD&*wtPRen*FJw$7b5rQ<(eH^Z`-k_fIoahz5fL3Y=c|3>!IY%JnD?&+?|v)`+b@ae
zz&U5dCKHZjF(_Ub2sl1&u(xRXI$l0+cKS~E=*R7NA#CZk>#n0>E~dl!tAyL-THG5x
z=d51xw{b03Oy{O1v*Yi$L^mUc@K$<ePJKy42hRCgCu>TKpd<BS9$l7=<C^k9C|*9N
z1q^14i{J11zL>+4Es!2ljOo-k82^5B=g5`1QQ0|}ZSmt?n9iCb$48FeTHX3Z>@jLD
zKbFa2IvVepOtqQh|13WY@5{a&JF{>NEgv}Np5V5Lz|=Jvb?MWrLif|MDiIxcJ}X`q
zO?fM$$G5r>C{XsY^IagK1J~0MxQn8n#@8GAqld`6E##gCq660>SUUCFE@fbOy)V2a
zP(h7CgXuJ8of$|;>DV@=DdV|r6RcYwf|fH}&vdE9!n6A|J)@kd<w1VZ7NLj^oDa+X
z8P&r|?5tPUi+?iK6Et)Y9k`ysAbwMG?P#vlkbn)k9in@fFdc%6Y$Y4xv%Ju{_={?v
z>S<fAqU8g>4*S08i<e?vN%93zB}#kt=sgmm1NXJcm!(h^l*}{c8%x)^!p>uf>5Nv4
zv`Q0)YYN{9vqaZ-GZGLTc)XM~$Of14&Z;ia{*Guid`+QVLCXj3>)TpK=^4&6F3uWr
z!LJUD0c1?a*8Um0hQzzfou}wR#h={ICL%g;U)QS$&I4jXdZBEt8ClgQM<fv)xG!Uc
zFO?59qQi<O?OM8`3__-Z@$y+4-y_?l^(5)O?srwK$g*3xn9g|hn(Pm&L!8E2#ARBE
zA?dD|&e>`j%HwB!H}B07CBA80oR&m%;GE^8zMt6RKkrEzik&A&vo$YV#>>ZypVs8l
zEthpA^(vbAeKj|WF`d5+`*g@Mq!YuT2kc)c-uLptbgqstlpiTp{p1<*gv?Jj<s*ye
z!1;W-V(s-~;2?AV4b6j1>!<Fm2I1uscz~OUg*V2f%qgf*c5z0!64MC_QGVv`wcE<%
zPGV(`;4b|@OlMcGvHT?aVkhyfDgRpyv1clnPQg3*W%AMagT5oD1i7}VNUsK><pbv&
z-oGLGv&w%w`~b@|sapSAJ)#32@7zas3K<lAyr^@DO?G7<d@&T$*;J**<EJcn_hxd%
zRUhS(1Px4wgW)7&*Q!5{&)xoaY1?g^X)qnPTL&XNz6s2%WxBc32+W$-U&71T>Sl9x
z`93A{=GxMR!0xBZQHTzlbJ(xFyKe6@IX|*C`D%-j;F>O`Q?j&PH+?lxfhni=$E&bw
zmzgjf#jgp?``7~QG6SV!3*wTeS_AO%v27g`H4RW*yX-Ig;p-MofdoVc&POuW?(#Ta
z^)UUn<g#4>A83p)9rL=z#7mYXqE#<$L^zGLU*JM?;N#1VcK(u{@|VkF@u52<hW7eW
z{L%7(`;yrj^<=YD&#8rz4k|iqIyxjwN2!Ei*|hLyw@N}uppW$R3zmou+?T*bjlltL
zu03Cw8lom2Zafx7bl|=|e|0|g!ZO;jcT6Pcx0n_O)ekQpeN(f<FIf?vG&eu}`S$$O
zJu;#L_mypR^flkSOsLMDgk^#9q|L5~4&0a6zfYrk<xf{;4+if0+JAYEB&O5oo55pR
zUfs#GSR+xHEm=72i<S@E*UOtH1iV-2u0506M^_ZR<##cn1NWs9Xf;&(!~SO4$;7;n
zzjsx<Fdfx}lyioSWpUFQzX+iQiv(Fr=S7(Z#cZR@`Dv$w!H&@THVZyz`M`Zip3yqe
ze(=$`^GjDQ=|tX_D@JtSoLxVaow;?f?!^Ixt}qX+#chFz4qT6jmLKW7du{hkI{&Di
zAJ6`&U^=PE`)@TZ#h=PxdLU)<y{LZG8!w+-M?|M5O6Ec*(swrsa$3w(Vmig)S`*GY
z4sS$j?bgecrO66Jbl{vTwf7a%M^7<w-d8?c)Oeksf#|?F3kKa&?@x^1Vd41t!82v!
zNE%G%c;M+SU#4NDs*D|W(oc;i>b>xC&g=ecB_^1s5Vf$Gb*oT)YAB)u=d-Ep4G*Dw
z)$^yqK%vlimIu0s4xCSdfP0Qq>W{~dGTS#t&{^~{VLGHoYw3InCTf0C&oAytrT%U8
zM9T;6%V4%3FDaR&)uLbRyo=qr(gZ{Y?#ngfsOOhq`Wq{)HLR!lXIPCeovRIvtYqt^
zVD8JM+IKD(4su~S-;VX_$60&c6w@J&ygFo=)$M_o&%O_TbauW7mjBFI_i{1EevO3a
z!1**R*txsPKF~Yse_M#|ym_M~rgKl~x!lT<q5bDW^E7UCwy6X}2OjrD|FJz?FHfoL
z(rP^P!$i@WdJ!!jxUc=&B{DYNR)4aNZ9KwN=^sJHbPij0F&yd+EPSb%nB*5m5hP+d
z3NhLIb&c9;qgqSnhiDD-gb^J$AI{Noh58O-m1R2y+Fg+`<<l4N@<|aAjX&UPYAOA!
zx8;}vM|>`(Q~Tm=o#+exHTg@-Qrjtu6|R`h#_2@v&41sU32J<dN@F5)NMbs9&ukRC
z&%G+oNX?WpRTz9U?T(fYob$J)8n47({wjng)_<0I{3nYM9e5tbMx`I=`Mc=$SSZ=U
zDXjCo7pCL<S$8;|qb{vO)WvO1^0TWfq67Eks*$Nau2zz<OK|@)>-m)KRX4PJ;JzgG
z?lzn#`BJjg@$Q*5Ss$%ROvmfZ*7-dN&)$$TTEF-Vxg8Efbl|>3v#pFOhuMtZ&z6;m
zCA=KbKy=`~dg#To@=YJ7X&BB6oc3ezronXX_+>LRQq_(z@J0Cf)n0#Ge;zGoxG#&D
z!Jxbr!<QEmd)4{rlTSq<I&fbS9@;c7ssg)Z8LvNyA1E8s#dIw83h_D#^uHQ!aQiEt
zn)8tf(}~=Fq*J2veZcU_rGlw+2B}t8ynL!`d+uC!x)Ai}<Y8{A58K%UL<i1C=C;#M
zucEa*tpENs$>lj)7-2d^;;J;!Vq!l`LORs%s>B@ULUiD9Z<P<W_$wAJ*;0RXPuiDL
zhbS&+`M`bI#U&cP=9p4yeC;(^kR`28!gPKHC~naaGMiOcrsaBX^q1KZ(SiHA`YA@W
z<?p?-3h(<r1^H~bER5*DechyY=U~5huV%!<yS&71;3m}>FCQh1?*}PwR+u@76FLf)
zU1rIM4%}Dpq}mtFy<N{FXPrtDEXT!M5goWMAv$mIDDUN3*4`UWBubS{B{3amy<`zB
zh55<r;YRm+x4!x_?Sz&O+}9m3nsV7bff_cK&gZI+So@0+9k{PyS=r$5O+`P9tb{sh
zXdPI+Fr5Ig&zmphKb9J{jLX})*ELHP(SiGtPj%*>Kj$ej`{l(s#>M^<tBz>-z<s%Q
z(9ZgOooAZNTe-4e!L(k9>15Z+Ub+`FFx9QZU*g@APYFbH;J&UbXZ;D`7N04}5|fFM
z9JJ6tbl|?^qGRgp8SFZY@=8uitccOmU^?{LT(r-u3M{8)%Or2>CB3hAK+75KtI}gM
zxqeAB`;($^x1}jfaTKBh_jSUxk(<VN(_St%%c_brvXd^RbJyrvt)MBnYMeYkq`uAP
zXF_z~zM{6Bf5CUXTZScSq}Y6J_D8opT0U@JF+|=Mck4}W{gRcqLh83VoPg;tCf>W!
zq}Z4KJy7b@rHiHmMu-mF7pp3XDWYP_#@O)Y)#9Q=GXkOm_jUcrK24`X96=$3RJ)DZ
z;tP~>c=_BQEzH~(J=<Ov=%K#D@KhNI(}^!%R}Eg2;me{4`|>`dTGbNKf%Bnj&tE!b
z7;L8<J$&TLkwce+5gj<6UnZ;8Lk&(!`{~Pfi!u(aQ;B%_{1p+Xxe#l{(05tAYp1rx
z3K`LX`+CALs@G(4!M0g(MyE8#yxtYjf%`JwG&5`+@Xlg3?$d9n3@&v^Oo!1zu0~Wo
z<O<KWe3PROhr_1r(DH%%O1v3hW1&8hFPnDQ`TybUzW=fM|M-E6Wbc{Pg)%}}*(4()
zTiJ9;xS~QLS&4)sGc#NvJ2M%XWsj_k%D502$w(;5_w)VX)%$ik-ygo`_VNeZZ_nrB
z`8wyk&bf~3dg-%$vkaw!>}!B&G1+tQ%B;wl07+bSY`;6CQ$Hj0l&RvB%vZngJ-6oS
z9&wZovM&pP-76AXG-K^8e_~y72DEnV(B*^dt2{K2=G!N_^A(e0X9o9I*lQr2m#UrA
z`VH2tJ*wvHl<HQTJ}4bzU&530wx1_+f~qDJc|RzRGOD6<kbQYMR8xGE8J}rb|EPS2
zirj(-(pj3ntrer;-2CWxS7lr9iR5NmxSUUGsT?}Ek@QR;lFm9z>Ey2<lnyc<qf5LU
zd6@(Bdi(DrF!#C^wNX0Ae7u*!*N**J7E7|H*h(R6SCK<HzT~(blbqy74@z#=JR36p
z&}oA%A7o!MJLSt}WP#s$8(&EI#Kf+|pmdOZ@ei7qm3oaE&-!>PN0?&hjUb)g=cjF3
zpN75e%})6{lCn8T59t_AoeFbR3fSk=Dn9xpvejh38ZMs?nj`lc#|y;$+sXO%|F%yj
zqjZq@2<9IZdly?hs9$P0&Cu_9-U8Bzx8#Yf@%igbzFly*aW&vDJ4y#R_tjxRmXmS%
z>m=5Si~V$t)C4PZ`5^ncXQZt|sr32Q?b@lBH-n79cu1#OVtg%2-pA%vAg4u2uZk)b
z(pl2G`ibrPC(f|wRjo9Vvr8CA=gD>TH|&)3xe@O#*XncJ&m&l(%Lkcr+r)ax3&X{!
zE!wNvLSx6W^HDm;oEwY<ONEThA2EMD(!_d{cN_=loL<QBG&dobjxMAmJ=G06EQHcQ
z_O<Zn@9?py^OB!QBQxu<oWtuD=<-4KRnWFh?62x^s;ri6<xB&;ZyBVMpd_(@OQ-ux
zZOpU3C7_$?j?zK)6*cy`GAQjrYtfC{q0cE-JmgS1$i8wiUn!YZuHhRcIp(dMyHa+|
z;qtl2@|`>}-0{xh%SY{8KT?%yP&&xIwtx1Q*8T0=ba+%Hruj;`J_x0Q?CaCtL#2G(
zuPm0<)voy(M0Kb_Iuj1&?Twa?>4xVMsESr6)rlaTZfs6zrfa~{OC^8R&n{NRH=Ci$
z8JW*!uXW(bl!;sRf(6{|8Rf6TQ98(c)@_IMKUC+wy}Ti^=M`gCtqtic*74FU?7RLv
z^Fbsr`U^)lIiy3X?aC!-=xL!Yxfm9(oSD&i30*$OzP^*qF%%ss7bax9(6SpGd=d`n
zWR9#k;&V+|>%|8+U#$eZ&_?MX=XJ+T<6Z2QB5&ezJ!ztF77Kcm4zjO8#nEuyn;~4d
zY)y;hC|BQsi*Wh;J~mAAQl=!XDKW}4%jodq7)VE9rYy(CP^#+dtK?PssvJ)vNau~r
zZbK(^Ys`<rg)Ze;vpRZ6=Q7jwpuApY$BIP`#r3I)%mGuld?IJ05^~1LauS}7eYKGs
zl8u3MzKjfTi*Fg*K9)X<tFp3qX9VeZk<9ezFGw6d@fI^ePHFg!9@1H0XV{SHQmQmA
zcz*h#^{2W46S#bA>~?j0yz7sI9+%1MQ(ylQ1L>R~|6!?<`k0EeZFkpQ@Xr?`NJpCS
z=mNiTd*$tx9?Nj~YcceYPWP4X;`YfI{sIQquTnBRCK@n?%g1<A<J!j>GtRg6Me=Ru
zH}Yd39l8frcjA^RszRSyeR_Ry{H_tCgI%9L?V@*s?d(TP-WACnMtVqxNZsB~CK=!R
zBCzjc8u@Xq0VBA4-lr?i4b~5}D|H#rB`)s>$3Qy5yAS98bcR|P@SDf-E`1R)f^-6w
zKFtvt=EE*J7d8qDBweS6bbP2)%eBc#Bc7-0@Xs%+)C?HH<zw0Jyq~|X-;4K7IAs;b
z=N<#;bVbrWc1l_jOv@%Z6DRuC&<N7Wl^wXYY~9!%o=G1(7jW!=9@0_V);!1#o8Mey
zdXaX8%~yTE04^UMst<<Jlvc)PY7UPEbx56zfpi*um}j$tYjk9ld8IE&U;ktT>HK+k
zg8apgZE~{OX{yL-wIB45jt6P}m!x|uLcJgTd(WA22o31N<s%z3>?5%jp|I+%o+32+
zbUy~tvGtZY_M6Ue_vJN7PL5bBK_f_~!#mqWmFa|{ec$eE_fNW`^pK8i*!uiQI`y=#
zv~0ejNmEJ#dT{yVu;hz+aJzNS@f>Bxtmq5JKsw@_&&RDvS&O@_Qpp-lVZ4nXo!Jx5
z6z_y}=F_%u)|$pV{zDJxVE?9V=D(u6n5fnk<>;tuJ#YaopIKt|g0kGA;xQjiiECRF
zVKI<S9+TVNce%Fb@~_2gpO=`889_SpB22Zq)%V!1-J!_3;ZV^@59y?@92IT<)Pzf>
z-K=x=JJL0vi!LAJ_cp)SC|}8W5|GIG^ZboC0UG;!ln(N~pw#B7t;6|CHl)i+pJf|1
z&D>Es$om31w?Lt#Z!%oK5r=fPA3W*}-N)JkXI%$fKFE5?4E<Asg?v@EN^SFVk}U<w
zAe|ZIqn^?$Hub=9hjbV&o|t3O&^ZPiaY$!fP~2(tM0pW#*0tgC$xnUU6Oru^``mJ(
zbIfl^zYNl$6%E1uCZVL7aPs2`)cbbQ9nx8OI@r!uA{gFl9g(ojZ~syp(vk2pC-ojw
zum;Y$7F<5%_K#}rQ8~B)rwq~&EbgVWrM@Qw9Ct{k_1^b$3V)6Efg=v-9G1lfDtf)2
z1J3$+xO`64?8#4jJdy&OGDs)hW&ha`mL^r;xI;R9IP!*-%-=tNBM#}DFi^Zwoi~RC
z&blUCJ{E*+>H1kdQ{a?AIye0q&Q@q{Mgzwk(h2`c6ULS_SpXbyNau+#+h&wct|f5R
zHQ@3oIi~90(AV@1IAxHIixWli&zp_6f#VM8OuX@HVjaC*1srimhgs8_;nmyECxNrB
z4wsMV^sl?@S3(1UQwHgrIZpk=S&sYPdDR`#`Iw|2$Hw2C3F;AtbRL$de=Cp?T?5X#
z8eBf3H~Yh0wntR}rwr0z`4Y3%6Re~H9Ct`(Cr4VhQcyVj1i93Q%6o%i;*idehTqY<
zgR)0}vwjXPAB~EHx1q{{o4_f9bk2KjZ!24$5&(`nq{G-ee`6<qW*#`=kPiJj)~sKj
zjx_;iT@@}L>Kgi2D@vz|z&^7K(s>$|tf_8P^%pqqkd7NkgmbNLQzLN1A)Q8{T;o&n
z7Q^#PEBw_1LNC|P!sSyH$8&b6bW{yEWsnYiZ`YUX`r<%VEg452Tb~JcNT*=aQ{f$<
zh7>sBkdDY?VRig->1E)otH9-x^l1BrT@i6LaLOPZW8=6BJ)Borf#VM8@Pt^>Gm|FW
z297wSBN5WbZb5Wn7C7t5kok};(a@>#c>t#j(wT1@_KjCaI0x=`+##JmnZ0_hPP*>E
z5r=dH)N+dNT-N>zoOLC*e1vlNEUE%q?*XR_(lPfPG7GpU@NlhNmDRjam&zTbgM1F)
z>7@9enK*>|HnA&vPU&!j9HhgVF*h%yBBLL3*E~Vkf}D*A(rKXC3{HLWIw7S?d>~l<
zIBlmQT+X7!SF$oQK5;h?Tg$S)x-Aus(n01kAJU^0sqxp__TK%ZO=3QMBa{yExrD-|
zsr7>|_w9oeX1{$>Zz`jQbSkc{{uIVkxpz}$4y$l2<qRmG%Lm!lc!4J6>vZm0VErUR
zI>H{lM~<&7<bm~rg>(p+LAQP#Q}_(#E`-uS=FF9ApU{+XR)fLv?+KdH`e%#s=<-2+
zzq&K~=Z_32+&D1zPLvL^o)bZ}7n3iaw*hkxhjgYAsDr1bba}ztwNX0Ax%1v>e!}hg
zdK1i@9@63Szrw|4HXsV-J}!qYXJkEoETrcRBkSD3-0>(KWX?3l_up;n50-+tV^KQD
zxkuei8s#qkW(&?6swf>~U$va^+gUjoZeab8qjZpc>4?;e=F&MFReyScIxrN+*(r-I
zXQcDXKWHGKIP1y3bqMJ&Hp?_6_f)w^cMRtBo}jSNhIGtBuiqjyEL;QYkQ}9h%z1SC
zG)W)pXA-au2V~IYgLHUVPu<)1IK2+mVKPbwnKSe2=NXh|1OKf<3zQCW9j=5d@DOvY
z|GVzUp>&Y-1o`NU2i+eE0dwCygDxMWQ&I1tx##Kr0?exhrGw0QzM#a6m3nF#%qs}e
z$tP`j-825e7tBi=rGxCNuhn=^;FKKszvC3rp?-~X!mO>)TAg@LpTzWuqf;7P&d7Wi
z^4|Q)oU1zk^NK;~Ap6>y(UB@DjPC{WGD7Jf>v{0x^t!<n#`|Di?2yifPG6pnDc|kD
z{*WLAmyh@J`$AuD+hu^c=c9Cx`NZk!5GLJBpMdKH4yA)UPEBt)9IN41z6Guq+9(}l
z&K{BzMx7jHpTIh#N9iE@lCiYBJ(VkD0@lxfB)XiDj<(utfow^tD%fwtpmdOZ5rR3T
ztG~wygU_2RP&&wZuAZ0pO#P$m-@b(%rGu<TKh5hG_v4OWu$~DL=<-22M5KiQcEA1q
zg7usa={zSI2prq~{qH>Hj?zKqb1;(N7*@1B0oI{7N(b2&oyeuX(k~=-!8+U(N0$$>
z9x)c?;A@*vkHP1IH7FfqJ;w|+?JJz$*@68}5K0GG4~Id)M|JJ>v$cjrvH}mo)m0%K
z(Z-m~C8c)tb0;<gO+3O#i6EVhBpY&uu8K%-oHn0^%UL&$)?};R#S0v#K`0$$&R?Be
z$m(*0hyU&CP&&w*N0O4TW9NH6$DQdF4$wPwKo03#Ui?0M>`cuAaQ*5$g)SdtUo&qf
zl8?VE5C_M545Sn7bueIi>_aEG?pUC7kokN#d*0u>q~Ja{zStohgFsqaFJZq7uztqH
z(B*@yr?35jV!wpF4_H6RC>><Z=biKoO7%j-z`U@KPN&%o+Y>+Nl)$`%Af1m+`bC<U
z4-8;l>!NV^WS#nUyIq=@4a}<y(g|DPx?Gw`F9yzI?vT!<U(zp5X?f~_xr;+O2VyDr
zuaVX2fw`}Xpvwn2cV}t0a~7PdH^F(M2Bm{shl{C;?>?o+?1A;;gVI6PqvNJ%;hT5h
z4%Uw<q*KUyd)4~JsR3|(Cx>)=bqoX3$=9xcbvSSmUCzjSC~41@>E2v?2(IrjC>>-z
z4ON8f7Qbo?SkD$H9b`RAtyh!+R1UR)^~?_Gj0|&-^nRO}2G`|rVYqzktYmKu=W)}5
z<02W-Ir(Fd;!e-PC2(9=pmdNqKY!Nrk%jT-U9g@pkWMgX=(o037e}z37lqK}gRI9d
za%a<=H0>Q&hh-=o<lJLYoLQB_E|-G!;|}R8uC?=RmFtFqd5J?h-Q5FEING!R?SIw<
z;qp=OAyT<}=A9ClR}G{ildV&P6^q*i^9q7=zIx`Eeh?Qp3+APb(m~G4DE?jHUE1h=
zFfVdQhg(F0$(-*cCzw~K0J@x!^*G^PKJqu7mj%aHI7$b(p4S=@lt15ZJCtVpK!)^h
zD4h|cQ_RnY<8s$eJy>5Cs>pr4#*WfK_NDSV)clD5eln<M`~<pukbSjQN2)($KBWul
z!J~AL^&~vu3HDuWiUjpwQ98(aj`IELv*8-81N8`@bddF^WBOh1_oi9QD0A~EadFiy
z9!HlC(xI>_v>BFeAqP%Aq+`XnW|+Kv%@8;^NN1IcYUXG2br0YOK{^#00UO2(mAt@N
z<cG`0F*)axila0JIQfuH>G~C%M9@?ZaBz@Lx44M?NT78xaD*V8d>`T-ibmmAz**#j
z%V%k2&frhUp{u~jhjhe@-b57fL?5@Rr_Q!WP$$EobdbMqWjV<)8lqhJ*quy{yGfR<
zO%A1lJT4dysU6Hp1!aNv*>-v1^5Jj(IFrIT9|@cqNaxKhm0`6s!BpV*Ksv`x@|w_Y
z;bVX!2kG3DW|?cAXu|<#7Xz1%4HuvKu<_hDaB3i(cv{z+A3U<Sfa3${l=1k6yLNgd
z0Y?tfxmx<S{C#-j25@$d!R4dma`pYImv#T%Gp~Vk<c<7-_NJ}!K|MZ@&b2P%U}`s;
zGT_KTI@2L)oSLHN_`&;!yF76DOz2-Z8!Ufp8#pzPPC|#|6U_jvP~iALIxf_0BkRPG
zrQrQTIY_5_gm*;5xi%R%yWDX3C>wg;KHZP`_kT$>kk0i#Mn|lMqn+>PIO1D*Pc!>K
zIx$Z>liUOviGd>r={T0Bup7<!3j=4D3of5zca|`=i`TdbYJ}>RY{sn`ln(N`lVu)l
zE?WCNZeVu0yNy~G7mm_FUU%Nlj?f(?=*R*`8`9|(YKeLrTI2~Fa!4oK_5GNi<ghAm
zIyvETzVq>oC6}ExA8^7U9fdKTiVf+BRp4ktI_eV-M3hvYegF<Rq+_i9C+GD8t{vcX
za=_(dOYme<k&mJQPB^6F;N#Rdo?d1E9BoJ^{WD$Z0?YT@=v;gLSN97l$x%AU`<;p;
zkH|d}&RO6L97UH8(y8J45SBE!*AARyNQYTS#xVV4FE4PgkWOX(FOfsE%o@NEf^=Sm
z4Ue|ey*><_b#}OX@(HhQMt{Q?1E&VoQCo<6)UZ<koFGW2=XLJY=DaKa>d}UDh@O_e
zIusG02kN1RbdtwbniBOnh=4QB2A8ww@8*sGu>wZ$K0h9%gFMeSwkJFOdS~>3W{*Xz
zEb~wY7Sai&_pfEKcxCAKL|u`fS51V0bYf58Je8;3`~nVv6<t2azT%QLNQh5WTmuds
z(y`gO$FIU1whbICq!V!FAnzxMQ?rT-@u`a;iOU#B=Wo&Ey^U0YH*g3naQU#_8|5=&
z(ft74=f^`j*Ph=sy(QUyA2?V@XD^iEd9l;&fAwG>9ZOEV=4x-&GoT&<Gh99izh_J^
z&o)kg_xbUV&d)0rOhqyndEj6n9ZN?VhVN-gcEG_vI)my*-gN#wKMEWI6I?#N_Ev5O
zT?}6ZUa`{CS`pjgA)Riv?zd}RLsP)PLONolWY6ox&oKfA1L<hVa4QT|mXrgBzzCPm
z?fiHRro|8E!lnIx2kk9};31vUM&W}ZEgdPq!9qHArN;84)IUD}2LtK6Tsoaqq*(p}
zI0Oc`d@59NTTHT7%`Vf%w2+BBOT$AtA{G2Z?R%?!z`;T~4Qg||wPc|*z`;N|EJqbt
zR!jF;fkU8&%O{)LMVGJNz9FK<({P)zo)!=3XjZFfe7DLl%i1~9*LwF&CKl59LOy$@
zz>zl>^R4Nx&JAiS45ae`^EY|3f2RXD1Uk5UI(W*NShLk~fP;s0nsg^h8g}ItNn8Y?
zkK~-C$3i-V(au$T1{v(Y!9Y5r{S(ADN1Xovhd>LLkKMc!PV;<G25|6@j<z<1Yq@;5
zNVIxdSnhGQAuObGGk3JUc3X)WI2cGrE8!^5=j9=5;1Fow^2x2@UG*Hi_8K^NNasCu
zrum~DuM*&3A)R043zK#n_Wv9Vq_f4Dc*{QJ6zLa_m#-Tl9{Urh;qvLNIC-wD;4~9(
z@Q}_Tzmrm(ilRGku#nExhquzt6eoTJ4hGVh5DLks>T^&A4uJ|TAI&pXU+<O51ONvQ
z>1@)Ad0+imC=47dq?5%Fq)}&}j0X+|(y@KkRYXK}?>cY@lyLc+97v-XQ%hk04j$4W
zy-gAj@hO2GI9N#MdwcN6f*da`a4?Y0skv~@y~yEfz#&k;<+HqH%t1^cnhzX2q$A(K
zdFiS)`5E9~A)WZdF!_@;*Ixk#1L^oY!q}BJk6QzWKn|CW?pLL%6WM7efP;s0j$IO^
zImMmF0URu(^Cr%bCw<I?02~aYV<h+lFQCfE1{?wzTt36W*tw}SZCT*pA)UXWCaOiW
zvXa2TLOR*w2a7=+w@844fpk{=@7Y8#MLz%z;RswllilT%k7~M|fP;s0?4rhp-F{%G
zfrEu~#?GD-n0Wu`-+3Mb>1f9>{b=%w`*&U?kiz9Nl)BwUX6F4K^o56XZZRdT;SY;w
z0S61|NKc6CXL|0I00#r<JSP%!p{g0J1rFgbTt2~7*U$1R&vgI?59yqcTC~ANOJab7
zg>)Vr^E1EK?e-Hm7)U3>^{cS4_*4pT2qbX%n1p8*HyBb-00$50q!O?g+u6!w;9w!0
z)v#QXudFxKfP;Z_XgC)|ekhau0S<u}E+5}5g`o)A)qnd0Jfw4I(6qI;`)n4d2Mg(>
z;1(s@T<6z-gMoBTYz3eB6*hkaID|uR`AqUPuqeI1{%;?ShjcuODOrcro-u-Yu#irW
zY9=pf^L;VkU?81yx8(doE#~@wLm-07CqYKv+l$cR031A|(>QjMIbHOuA8@dc4tqYs
zdCK$W_<)0fbiSKNJ?myT!3i9~!JmWw`$zQu`9prbvv~K&fr*IPzx@~<(sA3rv3@A>
zxB{pL3+X7#aoi`4HZ=wg2GWu8qu#EJDm(=o!e6+2R_>e-b6$C!4IDhAL;Yp{$g%zL
z55U1fI+B9nPxSh;|LvnNkWQqS*3Ylfrtd&Kgg<ck@W@d7s_YQ^Z+{5s=o!=0HC|;I
z1odDcosBcR?HVRip1{FCI_+L;L;RzCbHE|&!{uYsU;Erob@IRaQ%L7ae8RV~<Invl
z9eMgB3F0wWln(N}i_&F&53KTr6>x+gowO;tY?*1rLEx<Kq00wZPuDo^_DpG!GH_}j
zoiF2xe06m3L%<1wba>hJCacc&y#$Unq?7gbbPq4<i)rA{Lpt~4r&AC09d`rH_;0wJ
zZxxsJB&*Gy1r8q4Idb?Rhv9WwEO2m;4t)?KyBL=a4mjeF&Y9~2fd?`>HNe^Z1((ki
znO$bC7p|GWX@+zzvJ_LulnmSlPB^5KH+L)Hlb|jqaEu_Ga@-fGf?i`@;IKnF5>I9h
zCk=mm6lj+<J}!JSg|Le*XXJh(MERA-r4SK&;NT&hqQDKIpT|X<*F67d=d0G6Vj-Qn
zOL1NjLwDDJgMoD36ZvfQXZW-Nhp+>ekE>kO>DaU<^uWPGI#tWjG@2!y8Nk6pIx;-O
zUurLt(g6np>3H4dT(kUUb`m&*ZMb~m1o_VUaUUcB2M_7!+J3+KfxEL2I9NzWdz43?
zYqj<xa4?V#)xr<u2Di*z;1GVo<zqz2a5tZ5YZ*9rNXO#s;Xdt0&a}Y6LOL|xzi0Xr
zSPlaR1L?#)JS&-}6X6aV!WLXUiS3=D`rj#{fP;s0enfxu_Hs+P2plY=Qy}p);PCz3
z7~o(aoo|YVZ|L{vb_0j-11_J53^89%+Iz=<gNJltJ8m)BI&XXj4i?g}w$kWN?jvLZ
z2LtJNMLkJv$=v-ncfuxIJ{Ih+a!UfX--3GZkdEDT>iihe8|J{lLOMBSJdsLl*2jT^
zfpn-pyY;pQWG@1TumP7(=bY%vlRrJHfP;s04%0WCnVBC_2M!j}q5CMcS+79u2OJEf
zv&HObTPJ$+-*G`$hs)<Z_1K3C<Z~gQ9z3LD!a{p0jpaTTI9N#Mp_lI0!k$?J;9ww~
zC`Brsvt#{=z#*)`<-=gX`?$>hB^z+?kd9}|pQ{lEe?I{S3+Yt1hrV1Q9IOHd1L+9!
zS*5rC)Jg{q;X7PDLSE;qy@w+UfrE#1bdC5f(ic+S1P&I`8MOZykv-L=0~`#bGq2)J
z|1{6^6mSTuaQO`UqO8}~HTVS_Jfx$O5_{F6uI2@Bu#irP!$+qry1Y2xU?3fL=CS|%
z=MCk*{RZJ1Tt0eb&+^$K-~M-eK|0^AEXGUN8CZe7u#nEw%{Z!`QaZW7!9Y4{RLOq!
zFFV_SLs)^!hh+q3J@jhr-@NdU&hbpym!G!C1VKGmNC!tR{b4H#^8h#)NT**M&otvk
zYYQC0GF(1M&*^*lGEam82M_67E*O7OoM{&b94w?mq#Y}vx-$3geg^~ToDscZGxj2E
z9n?cug3E_1sy&m7Gx*<r0}tt(j`5xF2<{~Y^<W{LQ-ifv9`sP~0S5!=(BvupRt!jV
z0}f#kE}!;qC+~B-O#J~IJfwq<I<DEMY|#T8ETrR~B=&Xb@VDo{!9Y45_wO{>%^Z>f
z4&f_YJ|w5i@0`eY;sOpH()l(mMkyZBaUVEXNCzi2GV4g_(*O<z(rN7#G07Sd`d1HO
z0WKfr$G_wToh*ewJ$OjxHuh2Gd!c7yz`;T~6R9|Q!`04z*Ha9nL$_FxYf+{B?|zvu
z50{Tq!8;pCgLBfLFFd3(=>4{Okp71UaIlb0eHZ10SFNxAd%gkb6fWz;bmMNE1N9KT
zz~vKeeVSpKdzJ_|cu0q1m19L;NL3j)SV-q7U!p}WcEJQV7)Zx(Ag#0Isi+}v2y<}x
z;71vbeLbZ1?|CmC(rK;{%KiN+P6^b5g>>W_o#bdfniv5G1L+9;)_7R#H2B~B*DPE<
zXZ+IY<{k!yfqL+ej<ihBtLa_yyTHLhIwL<vgO;K^CxC;2bmHEoixc1e(hMBJ3|v0y
zYu?jIkG}8&2M_7Q`dK$9kIT#e2Mg&mC~>DNjfh7B2LtI0TN|iZeG&V2Ur8Xq<<lC8
zowUsuqXPBdA)RFI#jp#RIsZN{z(P8I>^cm4=U&u+dN7a<w!SfSSI*$S`}b+MeE!Nm
z8&6t${T|eVhjf0ujUeJ!6a9BziG_3)JRLPOZ-tM8dN7cV>RnOW-kBCh;1H(Z@_G8`
zdVNsu;$`6AAswA*n!P{V+W($oV<8=H%NjkN$uJR64+hfdpUgRPuBh-1a0rud`JB}B
zJw>6VdJ;HzNM|V5^>m%G`v!2ZkPhASiOLVO4*y->A)OIi*>Y!^;(zyF6L9$~z4$Ur
zr{-S<`ocpxix;?rB@Ocb+y6j1ZFW5_rd;&ZpdJjQ6EE#poxpMA32+FX;qqD8X$umG
zIS~mQJfw40PWd=H`Tc*-`LU4Bw};8!MJBadK|L5q=Y`wz7Kze}|K;-uE}t$AGle8Z
z4m(f}9@0_JXc;M%BvSzn7SeebR2jya;5WLiU6B0diY_Sz(n(C!+iEfn%mohNBV0cE
zI+IrxqX+*vcu1$jxM{Sdyl@=UgN1Y)_|;Em>QQn62LtJhdi`o{8{~Ec4q+TFpBwXG
z`Zhe6!@$8qI<-zhbEJ11#ejo_bOc`0pL{QC9}FA}q{H>#qWAivwg%u3#^Cay{Yp#|
zFWjdM96Y2$%_b)?`|gGsaIlchw%eb#95v~Nz`;N|u8U5(R&DoEp0YUqxcOOMjxY+B
zk52pV=d-faj=;e~I+R0Kj2dS6bAf|}bXrC!s^+M##{&lg>HJEsxU*bFFA5yO2wXn5
zjz^QcEBnm|96Y3RH<Fv1@s{ogaIlaLDR)ib8QNfT;9ww~NO2k4y}DLU;1E8*<wH_L
zl2mZU=Sj%b#$|O&>=Qhs(=D@C)!2af1sp7-lSAC17IUfOqssW`4Qc_RSq!A3cf|Iz
zvvOp^@A9#m7U_m0gkf~~Am7I};ypssK7PbJ>G~A)BY}_J`H;>DijBX?z9Q6*ojf08
zg{H8&Lpmmgp*B}r`EIE$kH)k0*iOr#bdc|zvbI+97R@l9(bei+@UtOI?+(G`W72Ze
zv&M3cmri<@wKP)MyBVc}tY_-We7KFI=~UFrAGe9Beup5G4su@c90E(*-~POrN-^@C
zdGNYa8>NG+hv5yA&r<r<ES8d{Su=a@1UaPh^)XG9t1;8#D^32!tQIc8orCCdrbhhV
z5=Ejwt8N?n;>i(89-@oVBLtKV1;UZNZ^pcvw|QLSdq#?+TOS)*2boXdnWm5SvZZ|f
zm6!a8N=CNvDC<Ffuk528m-~}4UD4TT#Qh}=h7Im09b`QfTsfZu9A$Qg-t6G1O>b(7
zLpq!{RE7^fPt~~}n^NF+!Fy<Z0NuO}BXT}QIx}Q{h%NXWm%C^GT(4*+N(b53md6s^
zCh_Bm0rMB46REu+;V2#C?@o$6v&o+K@uYRq`f`qfe|`an(m8_Y%XR0r)9)9@JDw{n
zPZ|sq*czd9kbS+(7pCD`w{AJ;)5qK?xMxQX>1@j|t9etW^1u4|{iD>Y>A8V^bn`;4
zL&dF6>-US(`M9c5?wp=|+k;2xAamaIec7b2prm$zxA<ySmH*Emln$~Ua^<L+PxbE`
z1z*Z2V_j1o8=-WN^{mG;DAY<Fl8NJTe>nPqH%=U-gPd2EgWJ~-iASYHBV$y$8ZX|h
zzekrd(wS0cz0nwI{P9OSDMdm^eM1?fla!Ox>>rl%pypm(9qS0QtUIK0TrMf8#E5EP
z+SzMi!h|(W9MU0eBx_~fmpZ+5vFRW~N?Uxr4_!XUxlhxlWgLu~KC3UuYb!SvqiRO!
zAakxe$2pZXB50y;B=ljTPu+MBN(Xr!8>HEN^Tq3V^H&bJ>;tBCH4Bsu^1AGCA;#%$
zVzl(-CGA-EO3_vfN(b2&w`p&QZCH*ba0tEVaz;8Y$0O`UiFX5lgNJk;{b-WSH*_Tj
z4i?hM@Ypd-AWgdi91NtRCqz2=K$Gbxa0oqc`NaJU`jL<Q(h3|rq;u`fB0JXXc`|UY
zkdD3z$GviGc?IBLARW!eX4e^fUW5UM&<&T*yaMh>me6VtaPW|h1x=Z46%+FYaIlb0
zi1MWFGaKa&;9ww~()WeACiMrSz#(+O<#YYUHjeEM%LU-zA)QDg^IJQ&cg_L_3+Yr+
z9y+v;6Z|h{45Sl+c|p3GC7ciHA#}p!)3ItL^HZ+&-+2rV>6BnIB`WY{GN2wTq;taZ
z{uG~PRT^+GkWSZ1{I8QispG&Qbim~km1g~ksFyeoICx0MQLFIacU?6#aIlch@$1xy
zijR)&0tW->%x*@%rrL0101lxYE+77I#ftg|vF^aZLpsURb4wOQNejTiLOMs<F1yb!
z9h3tH1L^4TGr0Gv6&B5$QI|`a<PRgXq00xk-$<NNA-SO;d<!`Fkd9BG@9!(=TtmQd
zhjqH#jT{R<{OW1b8C~e@_m@NIAoufkZ$H$=l=t3t{23VeQ_(Yl9i>BtxR3jB?*_R-
zp>`Fo+UAf^>4Qpgln!#gO8xkapIyf8lgrzKWXY*-TE|<_%?r67t4yNBdy;cg@I}l8
z*nXL7PDbe<>mlpO|2!}3;M++*pyKaZt$>4cwjPM)uM5oed?WgZjSyX(l|$(u`}$nu
zu}Xch{zA~Yr3yhkDs1;1Ts{kjCN2fP%a6OWF@+iP?V75AbWYY;e=>g}ss3QX$1HS1
zAl(P0gUosMId15~o5DBjp{zPKzGB+iC>>-z)IpcnNw3|_0LKM6N(XsdtVF96hsrnc
z6gGq}mwz;~TzrczXXJ6A|3ur_jWwFDQ{<W82xVp4I7$b3{t<ll)3L|WIw2&A^gT^b
z-8no;2bpu$?HenX7TV&wlDPJp`D)&|qjcyH$NSciiV7m<w7C@*V_S=FeyM2dLFO!F
zRhq~pcSA#T>eaaSy-uPal=UFz?)hx!V946t_6IA+p6HR?P*s!;^8Qrh&%=v_ckUgl
zp4jZis>sE#qjZqZSE)j?K6qwE-!5}IYA(mMgcC>UAm`<b`B_kNOwL?fa&O3>Wm=pF
zrGxBCUH2%fB{QG!LXy?72YnYWjJKd$&s2!H8*g@v6?WROVdH46u+fYc7g0LMd3`4T
z{U&nnvHbhRZ>mm}%qjUO9prJ5WR-eXs)vsiT)*5=I>>sC5*^Fodc#r+u3zGi&L3Xt
zCz|3yYO0qGz3~;r`>Z#^<s2|-%wAVX;&VYPq`HBJG?55pJ;=EeSy8$Dojd;Zut1M3
z<?*bgag_BSbFMMT;c_*6tVhW-x6SI#5P^quY@eGpnN+X8Up&urjLBkS9EZ|D&a1-n
z3Mq5%k{WP?ARPf7yjNQBpoE%$4V$mzsQh9Rx_Ke%=~-;Dbd9_>iRD;~sJ3Hf$VcfQ
zbN2TgZhVG)FrrnUtH)&6VB!wx;G>;?l!U#vJ-QK*eXhm*jvPt{*%z;L@7L{PVSkJ@
z+Cr{zr`_Cbgv-bHQ-`I3I;A{#-dh9dSUwcji?-XcRuBGC@w({jiVvideb?*M-DtK|
zlBkCZ!a4j*a*z(M!kjI4=lR?e=7;<Ap(T{N4RHC)h;)T5O;M6`Pra$5qI=?11L?3$
zak?ztHZRZ@Sd*Z6_fpFT(y?Y(O&O*AnayLTIZcQAA}0swnDbpskZ<3ron}t1ox8vC
zb+;Z}KFH%j$CJTG_}+vXDVq{4dwOhJGfD?}KE#PW7BvjlGC8y65F>bL`ff5x2YFm*
ze5NsM4XoRx-IIE1uSrm~fONJ`7*<ZS_$_r(tBKn)_42Z#bdaB;#oS`(IYi`4Y$JH-
zqF=9SG!aS%*;h`X$ojI6yGe4n`(bQK>_qb$bn`+w^3M+LT6Hp%8buIr6h5YDL6FX2
zq71Pv{;uOXRyg7x{m!hakWLTXa5Ev&ljF{zu8ky%R9hlQ$GYfx-uzu3Q@ppZ)F0oJ
zU(I!J`JDAIm{qcHBSbK~4is%N91KF~Am_exUZ|UIfKPEeBZJ|m&q@XkrGwmO_7|0P
z{W{dgy)V+Ftr7j!Uk;^%oIBZp?CPROVD0f~X9{8}T*YoJTt4!+ZI_Hewz%0hA}vY}
z5=(0!9p*&3BQp8fv?+3plmkzBT6`cK>jxI|%>v$7>(`NaoFPXj<xo1voCRB*D~~+n
zkm1r{xT@sd(m;;VLFUZyJ-SBnT=7BJ+XPcRUz+yL8n~QCVsMA!CXZ2KH{FZ%FLF7C
zqjZq>aUE`2Dv@LHdJ%K9GVf%o+;J!!WM6f27uKGHxHERfwR&k0`_>7ebdWhG6w1Ag
zH=#S$ug3eJlT8c1Ta7Ls9>o0)=Q*3K$_~8}PYLS2YqUZoc$D=ZuV1lbd9k9J*UYdA
z_G&b~d1J8o^hgaFO9=?oNGs`XbGvLmLz@qBUK%N}ekRp}lV^t>1kqHDT_8u<7jj<j
zzJ1?6o%#ZQwTwPK=xCF3C(4|W^TO;!v_6=nez*05DD+*VbyG4*hZZrf3!z(Pw>>N0
zy;;Do(gqoKHluWq`-HtY?zSf4XXn7Y(AI-|{<A6RVqE!D`4ew_&-X{~*YV*f>p6z#
zOKV=S^4)fG6z9Ejzun@eY2{GPiwoi8JDN9)t#zC|Q1P$L$xFO9fYL$E{psECwwIAh
z4;QwSg8j8}hhiX|3m0E$_RTO>3D}Yd|6$A9G(zbh=Ow(i#r!rz<a3x^ZD^y`fF#=E
z0=W*yR(SP!hZPJbI@6DC?mHKtJ#QfM+1_Ew<{A-`6-_=cUnW;~u0c6>q$7OYQMcyv
zk88$J&wAKao@@G`bdblp8p)S<rRGsnqJ>q32HIL(3zQDBo-U5TU#xb@>NmB%=LFav
z5ZECd+k2hb?vm;K*sRIi?i-tj#$Tg5KO^gTD$eltp+;!X>v;)MD%Sn7WJo7Ec(v<~
ziIneX3FE`2M3x8(lnydyi>{N02*pB8+P~d+mPpkv$f0z|5yxr8^}XdKk^l)>2ZxSH
zqm?vqlnyeVG4qv-bH#QJ?mM)fQe8WS)~n!huK9B<wpo$o%tMK(huNH!u4RzUg`|m{
zjZ-#v3X9|O<Y{gMx<fi<mp3^daXd;>7gLV8N_^Q$9HoOi-lMmVF6ch*{n)-K7=|On
zKP5uxAahO(kRNd;v#O_G;bQ4o*>P=tg)V0{#N1aH5>wAGR9`ew{+z;GAzcjHSIv>>
zX!qMQ)f_to4L9<6d|>;M@AJ-xU18<s&3z_dC!rsSwl8Epj~0(jyC-{ua*Y$ys)-EP
z1)<Cb>DaOpimS(C91U;>i=xr{ZK{yYUye;{*;d(^S^`c4FRisqgwjFo>&)_MzA6Oo
zoB-$N&PsH1NA@MoDcxJU(S-r$=Ws}eEG#K(*=AWAoS(HJ9c@SFsNr_U2ylKThjheZ
z2V5?EzFH5?&z%);`Q(ibbgy3gZ3@oM;gF7X?q9pDF{7)tM9~za&M{QlC>`W}L(i`)
zVCCWRMB&YY7VQE`eGEzmIrllfd%rBw&AKKcNIVauj<FNU(dC1zhbQrPZZh5Sm?tI4
zA%}02A8JrK$o=Z}@#Bo`Pa=y;r^v*rpS)qpN9iEXt0JFq`7O@2_bdNQuQuGcqUnRu
zK^|Y*gCElPS_V9drO0m<SI(VLMd={>I)wfEEbmPKOPTXmt!jRKK5>)|vL2csqt)=Y
zR7~Rayj96pDGzqb(9H|!RIFl>J6i-2V{f@|wy$2QY)0uI*U!x)SFfPrm6x9#tfH*m
ztC<HuI?t<g6tAu6zZ2=JFdKYB`(72&*-`(_r)H-dN_h5A-9UsrlnBzfHzFK=v><u_
z?4z1X(dCTH$41v_+ik3KXFwoC`|!T@S`ehun-mscuQ|hdVV72qO!>Q}Dx|Y?HUH(x
zee#|tKiq(tY5iFuNJrT0&G~vvLkZvJFRJ6Jx15?w(B*?%hmyVp5{##tZOCIY5)_|?
zJB6ckkU3|HY0Km)+?&2U8fnkOchXH8rGtE)IqJb0e|>%9S|Ijt*~9VL3~`hWvYwf!
zqw%Eg8(C>%ViV3V8S$^bgv;mNQ(S=!{VY{4(Yj$m-ihNiC>>-yN-19CarTx$+tg(&
z&d+(reNZ~cd9hi37rmcTQRzR(lpr8?j$Rd|gRF<=R4||DP1f_GYj309CoqN)K{|Xt
z{C3RVnRD7uZjO$=-dArfMwc_P9-3RKxX*JO=fboKH%2_dhl3!UmXOCM2R}a(3f>-E
zpL(piqYCMmP@2|%CLwuTN7EJ0<tUs;gwjF&e_W{Pv6hn(hyGp=$^O|<omP(4LFOZP
zj^XeDt%(F*%HM*UPZd>~i{Nr*Juk}<)okH->8GLTxyND?K`0&M^?gR{)6=mXgBttV
zwpRqpWP%Y&2f3by*s*T=Bb9%tN0q$Z9q#C1N9iE*x%<hG>R0s1SM~h*^DMhfqT_{d
z`KYQaK4Ib=)*#xfYvDcPJ)8{bWKl9-{cUo2uD+-K;K1;rngyh@L5$aO**tRe<Qv~M
zri9bn?2wL8P+tH06lJc%tl4@O%!r%E3*hp(xlBg!u8o&Jakd%XC!x5L4C#1Oss<@E
zEf#8PDha!L%~e`JI#f=xNw0foddNZow7zXc>as&RXUTkC+h03ZB_b?mS$ySV`FK8D
zK7|h$h#dWVq}q}r!>Akr^^zf-AbI8BIdN96Fw5%4Pw}1@3rL5?cA?+Aj>9TPv(8hH
zOM{6WrGq@)1#d=;kr-6Rma=a93nnRbFXqAJ)3_tM)i-<ox9Y}<hHdMQo_t8hTFLG~
zA(QJGuY~&Tw-KcwIFt^uuPZe_T{%S!q)GB!On>YXzm!AiAoney2He;rQct2sf91{|
zXF3sqLFv#Sp8v4^HGTO>k5HH)h)=Afc(bpH(m|dN-;O)ss&ZvYT($KyVzS71iBLN1
zh<Y;WPRHp!%Oba2S~jg*n9%V-=^*QQmt`TlF>*iG!`Pw!TP>v_+MJQjO-$${k15|S
zSU<bDaO?0s`;6X(Npt@23-6c-g+BEfNat=~jTxuU&rcuB2E6t>!gqX7I>_r_nZvKI
zTBISW;C(h#lnyc<{X>%5Mp`F60EY<D@ebh9*2#}#08aA@xSW&c{c;JBU$P?;8Sg2b
z2>lZT>HHB_DBbcg4G<@qE!K#1{Gp1{p+~Ie<2H#^4`XOswz_zl+W6dMeNZ~c=LvVL
z_*zKz<WzOeO)GfEG}7ZxI>__Sj@ZxN7Ii->I%FuYq-V^@<xo1v_l=+MUEO6<RtkIF
zLD8+WtaZZ(rGwnBo*g<l{58bG#!+}L^%NJu8m)s|htsBOoXI^4kCS*fCI}urQuHY6
zK|0Rayp}0K>fTk1&NG?I51j^b(5*w{=P9~(L!W&fPl>{|m-+`ATlsXNbdbks^KN>A
zZKsxT6OG`fex;KiVo*BB=XC}06x9J6fkJVv32*0;y{vI49b`VkjM)#Rz8X)jl2zSQ
z&wns3gwjFwMLkfgj5Sji+}|UkYEv-{S<gn7Gjcs+#iAZiJ;WVZuO>d}#ZD+{M(H5?
zn*AF5dPzO+JtpGj7|WS_-XN3?^8XZaHM-Ug55Lz|SuSAirGL~|hSEXiv(AaPO4Gac
zfY*ZbmfNeTCLfdzG9T-dc$O5qJ!|mZg*HkDS<l?I7g^``TSB*sFAiVj!imtMbdWi#
z8ByLMrk43yUn6(J;JIheKo+{WBkLjh<bS#Q&~ZO{V&ZF6QZ(n1Q98(aqT5XT{QAzM
zUB8k(H6Hr(sRc?0Sr7NCJKz4KNYiT&U*&%uYaxt5=^*QIS>{|kP55KrpP4$>ewW^!
z@Elz}$n&bT`nNsN(zW$GTgmg~#^<EaI>>s)v#O&k6!V`~xpMOzmYX8QqpSzH&s-7k
za!r;uRBCUeRQ=s^#i$vj^Z(SNtX&(;*kAQ<zDylE`O+r{rGq>!E~$&nsVi09{`8pS
z=q*~FYepy?WIYxVoazZ3l?T5McXPSwO{ddCIu*G_Q>(8^`BWW36{B2CYX|V?=8mif
z$4K!ojC&`l>q|vye#0%V7)Yloo$tpFMUR`jUmcglD-&CcARQunWg*4%RNkfQ_2;j-
zQ%TdKbdcB6XjiEp=h=R#gqO^n(Ru1nLypp+MC`}D#5q)zT7RGlJpFx6&W@mmwjN~8
zL08FX7PdQ7PASNR%qh;w4rHR67xMk69ktFY#M7*|cjhLr?VYE-<52d6tmoXWlax&L
zD9>k1>P4|~>uw=PM_GRIaf^tlUc0|;je!f}xkZ$HA?s0)kDtHQS2EYNE&HW|wBI}*
z(%BA=Zge-WZqX8UjEnZ=SHeL$OeR-SxKceIT$7-eCwuOQ6@qm1e%rFee)D6#7gr+s
zYv1X{Vg|aoBkyz9{vOQSOW!CN3F3Y#T154~uR%cPAg?<Dvik<wVyp4sz6rK3)tJTV
zHa7h(;GpdbIrq1w5<auCVo`pf22V|0#o6*v=7a3Zy;?-@;Y5EdaNHrC?ZoFym+2_C
zfFlR#uyKiElFkvo2M!UW)1Q1RdY(8_3^<+XaC7f#l$YI_<0k=545ZWE<HjFxUU$%V
zJDrD&RaM9WrGuQie9w=XsJ&k{HxBy^|2{84V25;;wD&O0ml};^gHIn=^LH$bKZDDs
z;ih|18|zQi#kp9z&7IVJJW2=IR}Sm4c32l9Grl;<)0&J6hehciuU|qzYDyf-Q7&Gs
z4J`e|@;VkM9b`SUU;XA7`C3}V&cD)X;yY!|4(W_1GF6qH2z?XCNX0m<QN%W$2A8vh
zLo1`8(#8AFcS!M%PyP<WqjZpcmAi!PeRaz8pXS?*x3hWGhDGTh_jMMrLK)#_H7;J|
zrD}d{qbn(n(m~c!SEu-1l=Sc++`+QK>G;;f^;C5EAn&{T1gdQBT8>TQTeC=f<LL%F
zQ98(aLbFwOPU>DIdPw3aswa7UAso_4N;z*gc|QI#SH*_8@Q{jwHcAJ1e(t>4X>dv~
z&iJ+Avu;<Zf)09=4zjOlopIk`ce}J&+OxJVqT5vlQqbj$bke<7C%vYlT6BLrU2rnd
z%Z!0^PNr?wNq*W_$q9Wip^mq|X9Vf!<lPK^_1GWh;p22={%Ds!J*1;e5jkG1zQsnx
z()|WUao=Vj8C^ced8KH53-i8w-zw!!SJAf!Mw4We4l-w+IK26_NPEfOCS5;^E`6-A
zfOH;R%i~rlf4g_r;C`#sg9QzCNayYmX8p9^ot7S#9P1g)Q{Rjyq00x^*JR_|SyxFn
z@onv6=NsNoa3(`K{04z65zS@0>5S~(*o=K8EFc{>avHB!18yf4S6WocH;HoDQ98)E
zD;!%8qFeRaZ*U42@LaommyigT&z{q2$L*R|*BEsy#$Ieh_2MC&GiQ?C&rC_BE&VtY
z`=d&C0SoEexnjrfWjaT7k2S~1?xI2g2BpJ*xF0;kLdDQR{N7+rKuG0~^hy@mdXPDD
z1c`Z)v|VgC9ZN~~q{Pf$2xUFUb?6ajDV<eqZy%-WForSu*}C`?ZeG-8w?`BNjxvYE
z|8=SL@kz>ubjBRJUf(+D=`u5FQuu!KixUpg;T(R}BJ}}ps4t;BuakA=ybz@G;hmNI
zRn>mEeCA7Do+tNB78Bs|nGe1+PF25jCGko3)tf!a>G_b((<f`*6J(56>e^2$&NCKb
zaF7mrOUKX|k`deX>jLqIX$QT9Ae{o8G92aPyoUFS$c{z_wik=>aQS>JlP(Tda_{DL
zejHL7d`%`F()o7bJ#U>rEeCVS%kM0l@})RPXWuiXA=_-8NE*j^?Ce{AdLc-ML3mGP
zASB|6wLoqW#rpF1#W=Wp#3qk#EK1u%*57$GL{eEImJjJ1r}|m%P7<vBRa8gFlksg0
z4$`3>s<`B`gd466p!zgIs~9Q->5Sc{60(XgX*VHS@r#zdduTBhE}xKYh7Ya2b<ary
zHTxQkuV?2&I=<!SFT|=UKOQyUjms$UGsZzWXPJYpaeP_tRsU6KyC6n3F9hi%P&)5#
zx&<~q%IA!{;EZQnjDgFCgX6BDt>oQ#>9g0%L!7La@*$l8Nf+DT(!|3WS0qVocUx3&
zkj|uO@!BhT`WioiWQPo{^_38$!~A7}Y-^ym?)T}e%X;M(2#e8h`QYBvsGCf<?)%;`
ze{rfWJ~bcGsUpkmSmaqs_|lu+RxU~Y4hQKlwUAL<khTAdY2dp{a!pEH2+}!?!A-xF
zKI(w~vuT%e_R;snCvf=~kzSZ7J$_6ksGP;y<12?uKBUv9tyUAlFluVl)41zgbea(d
z>HPG0^uk`oMwQ&{{jW1ScS40Aoi|pQR41keo-=zBv?YH_YcEE@<zqH>`kaG(FzK5_
z!}t?Z8prY>orEvK#4>~Dy#+*$82O3G+2J6aYi?fUB_@Tl7rC;ISto1;2|+rfzc^A<
zF54+kSlhGaJ|_LM_!usq?khhQ%@|+b0!}`xbNW%Lrj4{EaBz^02lwF&KZ%4Q;0QrF
zi9H^MP7myTfwLG1m(Po!`vIYgYi_{FhjhGVzL5ru)2IOl2kA(JBuYuB9E|~v5Tv8s
zA*owVtt|_j#Yb@YkVuo7sm^CR04E>Pd5}&2peXO)D{yd-PJY}({Jv)4ci;#?I<j`2
zgSYx$>VofwT#SIrCpy0Wx7NdGBBtrhT;s*L7x^e1<nzolx?l6mYU(q<@j>Yz?@u$6
z1H{hK>c0ezDx^a)_BV|?GmjlO<R~5F`>TC;FZ;gKnI7P*hoj5+IO6_&-ofxaUy?1C
zLqkqn=f|tToha);KA+dq{omb1Mj^)hIdkcw$Qx$OC>`YYf$(Hpd@&G16L^qw@AiSP
zn-SXegPhl51$BhpZrow;`(I@!>p?zGxcLz?*^vA5c=?ATi`Lo8WA2a+$)PG4<8v22
zg7=@rA)QX$q**gYqQJYU$7Rj)LRQeu9od)u<lc8(;be?s;P8&N<jBJ^l<NoS?4)n{
z2gv<MO5-bYHmI?@;tuJQi|_iFJkoR9Xve>tc{cn_9MU1-DSww$r`97CEXb}nhAUnV
zLw8&t`!Wl8pkzjBJ}r3Kh2{6h>$znp9ppN+y<{(fcU^jLqv1|(;Kq#*ACwNVo{Ofu
zQB-X*oZxrp<RBgYoM0B}i^8c#8yaqy5$ibYK7`AsEIHgkHF11LT}mW~nNJ|E2GXgv
zAT8@T{D=WKK9G)S-NYAl`zNuJUl~PA9IzX5C>`Xy(sNFAD}Bt`w`9QTSlpSdC4zJe
z`}G#Dbt`2TOWU1wKWDJo8Hz4v<n`-IaDz-oL%OExuUKP;Q|$T4C>`YYoNVfy{O(fh
zpbh%+LFpjZVFP14jvq^Vj`L+s%I6kYKRJ{R^1bfz4`XjH?ere+8;~_(oh;yRN9iEn
z>t?1Zk6!Pxp#k6bg+=Kg`;w}{9Zt<7TmkQIU?3eU|KQm3@~#Bn5FVhLJF*_njN(wv
zCo$T<!9zNurZQm-V+*-@tQ|`HO0j%cln(O!!<P<Sv@(0SNqtA_`ouyv&4W-n$m8p<
z(!<zXyyP1AJ~VBV4l<w7k94uE&pKH2UvC@K*d!hyhje@tYkK`B>vjmSxAIa0gylLz
z;N~S?Jw(1^F%-+6yLE2tQ(H+mN(XtoH>n?PqARGG2k&cHpmdP=sCV*>D26#}G_5%o
zU;O#flO57|YB9uLmFJlRobh0|e6sW%eEWX)SiPs~x_0r3VRAC06RBe$dhzca-B0)`
z`E}8zOBN^{WX>8-^DwRaO=O`bZByf^Zzc($bdWhOQ9mz!<;Ln_J#jnp)D7a*#rtsi
zy!pmYlMuxvuQ*M<JHylCoR88$9$!5hgUfEQI+iQ%{`fPUWR!A8=^*pjyeHycAgX2x
z-uF{Q=^*p*ic+>)dod>dS<&cBhSOdl5v1dLmOtg4(l1uvGzY=uJY7^q9#l9VSXoBo
zGe!JDHwe<{(6>pas2ACO``w9@t(TEm71HUUEyWAo_esx?xiZwFQ;|i4(m~EWc;0xK
zRF3Q{a60dy%LnNgiJM<HQ~advmiizj@~|jN3`z(2xv<RpqHWsrTl4AfPBKm|>l__G
z=^)pSr|Qr(`u>ya4fBub+*?;A(AI-=w!d!M32)ani2wS5b<s*vF@mfoYCgU;p*chB
zNC^|plZM)g9;Jiak4+}~45g1~^v&-KJBlyUoLdh>H!oyg))L!f<$l}}N<Z1#u3G#5
zE`xM@NnWhUlUy}0x^1=W`|gXNJEUXzu9zZ+<@O+WzfK&|5$7pz*>H|^1Mf$z2f*d?
z<&S6ZSN*#o;P*7kAf0*TqrtY4S$^QX9e0!t^1OO_Iq+g;(Ox)sZ$}l<u~lwME@ZCc
zK6tnhu>HzGhaRPaTt9m{f}+M9?Hj-u@Q2IUBW(;{qlobVP7I_&Q{fr7`uis<aEu_G
zs?1~02E<7o1BV{ci6=Rru82!}0-OOqxO~cvOEflqC}##v45afJ_wJOgx0WVwj3AxT
zZ!`4As3bq13onlLSdo8359xH=-14K~iHP89;~Jv4yQn<i3ztufjj`=RtE=t@Y~Ll>
z_NH25P&&x>MdwPoXnCJ;%Z;Sdi{nTPr*J48<Z*#-W7-^%@Cb167&Z!DS4|OubZiF;
zq{(R3=(q}~3?4^5R9?J`E+1rH6s#Wwj(=Y`nD<J`=5<NB-;B~hJ~#Fox}%J@yh8f;
zfB%`iZp!G9kJ3S&#{$a+g9Hag^~hz^LyxM8?f9T{{-68zfYvl|s+R&_zkx&PAnV~?
zXfS!z@o@_5H{?({$o<bH)-xh5;TCydzd?l3LDo}Qv->*l6XvLW<bt5kK=jIh54yP{
z*Wtw}vWxdNgsi~6B?i)Ax*ce#x-u5eYc3oR-m2eW1nKCWG*QTzuRZl||AW#&=A(;~
zv#-ljV*>jh!X0$^ARSMhR?2(>YHHuY7>Cm26xA}64l?Ia;;civeQ9+3FMfKDruVhE
zLpre;)e_t@k7K}oOdO?yT!;04Orwt!E=E;w?er>KNUhlQMwbuL`Sw&#{mOCP$Z(nw
z7j}~It!9)C^1SioB~Q<K#0A@oxZBl%PoKHvqjZotmyQg#{q@*dNYT15)|=cNhePQg
z=k9$zooPJRWKh27QM%&Zqh2{k=ZABIMhsVo4cPaRqjZot?;G;RKP*{Q-@N-eNqu2(
zXuu2IypZQZL2V0$9EZn;!E?W6lnydyOVM_{wF`Xzo*xE5I&|gkBCI`>)g^*m{Rc`n
zRa7CJ#d<Nvt?rAOzvzP+n~oD*C4zJ+d>yaNx?EBLzc<=^8(q%GeB8UPU(p)#5j=Z)
zlAPgk0Z|a7lgsS9U8EAEq4iqna^|krjw+;Mc*sfW;@OyZ;1EGN?Y9Z6LS6apz-jh`
z%cq+xBhB{5`|rRBf^<~k72~cODsTfw71DX1SZC1vrjrvmM39bHvdHVpf3%}s-&vc<
zJyMm_d<$JZ$m89<o9!iOu&YVMdp)5Wtz6FGC>`WFteOjA`(#yOe!oGVMwoH*tu{&r
z`MnuwzqD^T{U9w$uD!#OtbJqI2c?6oXH`e{#-<M0BmKNvZ#Dw#2y&3lEseE<M!KEp
zL$$r5r6spqc0JJLjI3vXgO24C>3HSBe5ycaa2#h1q;o~7ggbACn@Q}TEqh<!kCqRl
z^Mik9Z?=fou5Ncsyd;v6K@QUSb^Wo^tSi-X4%SFVe>ck3U3a*As+)BMdFZ~+$!zIp
zQim9%*FZYNdeQru<#l$>5jyUyQpv$SkPe^XIVO9n<ViIR6$@{k*l%)>&d))Szcf-l
zwd%D-dXbZVOLpDh@^M;QdL?Pp;ygw6c8N4K`A`j{lQhPs6=-C%GHfo-aklEUt`DTM
zHMx9$al1Cuz)Vo5)isGv4$`@Pi7Pg?hNj#f^S`an_;sb-n{fH$25Y`#TkW8dQMDR5
zX(usMgVI6XpMI6fI{NBM*eCG&-7zQ~<niv=|MY$Eu)o!*LS}=Ldt#|ZC>>-y=bP%)
zDtw>R`Wg19aC0dP2%&V4_4KB9hYH6~7A%C{OgeDZ+*`bXE@vjhdse;?tg)p{@tWXw
z$>kvHp)eHae`fZ0=KSIG<(MIlU%M#lL0-S^&xiG@)_!}<8ys;}+kvvC8Kr~Fr$QVT
z_=G6?>&cIq2MXQki9skGWIdSt>Qu@JNuSgnE)_xbr}wo{I>>rTE<M*wKl+yNHCl&W
zW576?9MbVSdiJekv{)th{rAr6=;n^Br#JJ^=Wy@Eez)0kxZVs-yKs~aGN02!Zk7Ls
zy}Jsks(TzhPN#H8cMC{2QqmyZN{FPCG$PWS(j9`7ARtl#N;gPKcb9~e<o~(h_s;Bj
zFZS%~bNS3X^O?22YpuQaIdaZ9U5P%r{~dXCkPdJ>x=;6b?_S-Jeo*9QH?OGJ$A##`
zrKf64jY{q?<^~f)2kjFNzlPR_)SK^AE^;mF?c|V%xcS_NIFJso&!imVPkc;&*($w<
zf+9j8fAk?b6CT6zRUc4<)hH1&-VV4=(m-^qb{I+AS3X{O94*jHzU^JuvW3=1@W$9(
zm(%K54|RZOca4TiF+}HM^LgHzZ3#q=bS|B*<&MPG5S<k55pNouTrcJzBY47&3L_SX
zPL6pkfq^Fe6$ge8hpq*q-IfiwKEQQfAL`{y*lif_+$6AlgZ=DdB}8YA8-Cl>o=YdP
zcrKkA>0H|rqC*+<Q2DJJoa+yZC#B~Od3%x|9pE_)@x6Mz=2s?dzce)%8b|mH4x|Ho
zpQNoF5ltW_d-5e+HD6iWpuw;;w9XqTmv@MUuLf=#S`HT1gj`cWI>7PhC5MQhIv+Mt
zAFUN-KDBJO2I&C*{gkfX`c~_}{DCkRk-B^z@oNQ;4zP24@)OT}dP0HTy|4SFs;Rta
z5S`$}ERRn)3n>)j&LLSb%-B6v;5q}p7j#wr?Dm3h1L@vbg6POqzMn&KS5=gsWG69;
z^^Um!=>Xr4qA#Z8d1U<P*}by`(Yf`?7sj!yMyM1k3}QIx=bZxS0MEN;y}F$4QM2;B
zlMB%ib6j0QR6bz+sYWWJ%6DXA4blPbpR=RMWhOEeaTdI!ljFX#Y8H?Va6d1YC>sWO
zj6JnOd7PZ3n^=Md(xC)AXX>IIOr8GRk%gzc4SvfJ7*`C^0iIKy=m?}!kycdS-d~LG
z;U>^LK{~*{^GtHk{<a|%yGdQhJ9hqec&iemgAbTjQggB*j^Gvny=v^+t=B<wVD~fd
zb%A8AO%+$&Y~lU74}%;J@cYN81Mzr_;+MPrsbj|@ia4Z!z5W0{H!+R(HSY;g;_k;{
z8u=L8*<4AG*B{`#E)(j=Vz!?tzIxz?gurZoKmyTu{UteA)IjXR4Nekw%2BVuA;><!
z-^C*)to=>W@>kNCG)PqI&ASy-kmCXF!>BCm6&oKcj;zo8Ou5@!u3R7;Qo#Nh&z7Qf
zI@-iD+bbf1`{CMC3DO|~I7@P9eE$k~F&0k#4qFD@c;bS*F9WX|4iwLOS-4l^3C}Nu
zQ2G>+z}}aEj->gMmGA|=3%aNC)^9SjKE;8Y7qD}}H!U9~idr#Q-~OmJaU(Xc>jfOo
z+LU7O^xzkp@q!lvCeG9aG$6+VJny=rsw`uvzBR4hbdIjCp5%gkP5_=SIvo+_Eq<B<
zvg#<$Umq&|LY<dngogH#glEmY19o1(J|y(Hib06l*Y^(C`#aDH#7SP=L$ph|cfj5U
zfez83fl}KgYx%un3i7-Iou4a=AIK)zGVdK4h|b_gjV>Wo!?5K=|L+=9#ebJ9!97O-
z$5YsCpqQb+8M;Kdb4Hhmhm;G^Sv$|7f31^>dGDA)bZE@gijA{K_03c@msZu`v}r&(
zz~`Tsh{=-D?$<5%&XxtZK0t>;(UPQev#R#qsf6g*|1dW8QhsBlZ`pIlgCbw;3DN<s
zmsm_1hV?Vr_Qb`D@KGiCK_Q6FCDG4I(!a>M_s+#DaD9N|*`D)S&b%hwmM>9KAy8}9
ztcU2RVy8!*j&Jwfe-EA~M8^-aANK)W!0{)mRNfJ+jS3-<4shKMg1m1HZ(XooIbI;d
z@NdY&fpma<)}}OHx#m_nS)`e`?jl6@wU|TetkO17tgg)E2LJty8yWUPR6mdoa9%In
zed#^M!k^o}>6aBjaJyCj=>X@Yr{>;S+}evC_kO;vhZ|Q74Wt7cj{~wLQPR?$Y_CCb
zIAd$w^6*P=eSqJ$%ry^p*Zc2O?J`a|xn`m9bPA*c{66zv-P}%v&TVOO--_RrT-JR8
z>i|Co<T?^Xra&;6`^>>>wj{Il=mO+;fb&usLw(u7l-qfK-GBqx8Tj0r^f>+^M?E&?
z+{9-13GJdP*m;owp6gbR$;aa479x;Sr;X7gq<Kw2jt98zj;kl@4%l;ps+Z=Ux(AYa
zSU@_!^?IGdhJE!!j!L*r9LK$N&H$_feEt4!Q#`l7bD&~$nTjvx7a|V{$ngOG{^vR0
zPVYHqh@9V#5Xx%#{2yS~3%Ksj)p_CeTSRZ3iE(-*2~rJ1JzuFda`3Wmw*N(E(0Ck|
zl+J@aU%<}u&r6P-r>C~MDA0d}=jeojb%6iA<Da+0f$Wt3@BY3+1F|#l`qQe_aU=bi
zrv=|bg$2jMb8rdd`2srlUzMz6^DoK_9jVba0=q_YK{~+mrTP7dXNkAb>|aH}boYk|
zuAU$r;CMK-wFG~u7u|Kg|DxSzONT84(gB{YozRQ#Pp&8etE^*`NGyEZ;XpdT@$@25
zh@zLheVNu>;lguMR?uPw?)nULuHu<JeLnm`&_@(oMhr&_@Pp_OU)nB3|I_ezZPykW
zNCodE3DN=f3D!;f%qe$EeD9z^bpDAR9tWk5rr$fmrr`Pj$Fna+eKb3e|LxvMh3KUH
zBj`31KJ>bGOd&cC+~^<3%i<Z`J1h{LNgIyC-H{QDd*{#uTAx{isiV87fZz8{Jw!)t
z3{PyG-+KAp@q_3fR~7f`GtkZ4I|>k;Z#CFb`|X(j+t0WVoqpEG@4k2usoale${1Q_
zaS;(W-y`ht`}Y%aK{~+m&Pl(E0&h@U<U4c|rZ3(5$rPjmyzfYv<2w~qn}!n@M=Oi;
zORj-+fcMk0w|rl7kcmgbTc1=2*u_R$gB%a={b!~JzvR~MUUq->rpXRUV%kvv=>YrW
zzF@yCuisnbIU6JBf-h1+gXqYXgoU9F*bk?{iC;5Ozj)R20^GU-pIZn!>Fk)09kucY
zdXA{iFZU`zI>0^}(T5JzrljF<I|-y~FIF_;Ksvzp*>dQXVww;Ji=U2)AY~RG^qGQm
zfY;U6)r8A!*a7OiFV@}<e3v9;0qFq8V?FRQp{E*|`N4^WdtzDA<;8Pwoq_8vC|GGm
zM%h<QE%}G}eU;`!Jwzw54#Do|&CyZ-l36hwVqd=}NC)`bi+n*-Bp_RhHfFn_)wW7R
zY7No>?w>CcAuH8qb*@WsHVZS)ACIepbbx(=EfzaP9yq_`2qWzsEUUi51?d2v$C`HX
z6%QO2X*s8g)Vgr{JhqI$tru|roai<M&0e=nd8ZW!KP)FRsRZc&_s^rx0#PeEwF&2q
zImWK1CEb1y9koW1DZ_V?mHO{#PSwed0@Xn}z<FW(_IpeVPeeE<I6gDGVq8rE(gB|L
zMP3dQksK{w^Cd?H9ho(c3qxp~Yv0jzZc@6C?yTOdQfL1_YJupO;jtBop-E0!OeykR
z``X2afpmcT@Skk5zAYv{A?C|LPI*thB?XAijk-o%ihN<5_d~*;PZP0{(Lg%D^_uag
zcaaRPv0n{c*o+}Xn;kZQ)_GFBjrR=k!Q#h`J#0UC_0d$24zSOz@~j%1O!&v=g;uG5
z)c=O+gLHuJCtyX+iFm5%kz%SbC(8}W?Jj|IfY&j$_g(XwpEDk8tZsc#E*}yC+s6s;
z{szrF(qDbODvJtQuUDAQjpNZk-Y<ZCEN>?G#o;*i--H&Nm?Zy6?*Vxo13JIQC4^(0
z%Bn~wZoKWsrXGetbmG0SZOf1&tjgbc{BlOQe5wG_0q(;{nlnjqY{bXgPluOzkFmp{
zUZ0}}wNEst1)jeW80QM;B>n*Q`V8#T|D>?;Ma9@2;*!SE$opD`VvyG{phIdGPr}4^
zycbf1&XyPGg<}oT@tX4vf}eZYw2{3fz@U=a!2;1?>zO$^WqCK@n|EY$q<uQS1@gK9
zoY$_6q*rR|+hF6IHZ@ZLPXA(v4rAVGLCLwCkCINP*Y3mbcGe&r;QmoaRlf`kKynVK
zoyI^}{cg$y(Ft5c^2Cl()xUQxKwdY1<I(jc*cLn19lUp1AUbftJDNV53P0|hFo=%k
z^+Cg}m*UX9qYlwQ3BcxMv0E0scSs;Q3}pUHir+8_?wuulX!o7#Uj>u<g6xj>PBBEM
z)OXuxtlv%T-f@EH93JFcvzAZ6-#bDO9Vy)$u}o#R@_PpkqQfrH_##;~JoVn`(Sz1`
z^DJ4Kr9*G--id?gJab#TAj270x_9&;I@X9wYFWR;Xzm>vh)yb^koVrP{ocK^r3<Z3
zt2^$B*ra}ou8FoVG16E=B}B)8aFIs((sbokG)hdhJHg!(qyv0iU|#rDJY?D5?A}p;
z=zNG8y~s#Qes%AVKy=Ixo%Fv%iI?3wTRPx61Lw7>PN4EI*V^jdsfXwoh9)gVs2(`n
zJ7Ex=Y_Ym_@#+h>dq*Fl6Fd2LjwWL9f9u5p)v3-|GQU`Az8}wpHnh&K8w|NhESvoA
zogRn|<>O(;mv+R|_f9HAhxt)`9vku5|Hfkt(J`Ox=OdxP4ZI(Z5JacV_2FlZmgwbs
z2MwaLrzxAk-{ehs?@VbyTdyafX?|kNb@TU5F+@izbqwjzDBJ3XQvIywOtC$lARXZI
z&-KzFlN2#yz%vmWZ)BOWH<BP7;B%&AY^TYa{s+=Z_Wf?%BKiw(5FPk8(&EEI%8~a@
zizc|v!144L&ppS7%U`~C{2)3uzQ6OP+MAE>9Z87JLstAa+2<O2_YNFH$J%7&hHLEQ
zV<hTS_yUPHaV;9q`VhooXfTqEx~1cB{;tZdjPQf#1gcVevmc>CzM&;+j8<LqlmzJj
z?-!Cd3(H@Awwq*`uKwYB($t3w(gE)0b9Q)!KdjUhD}ukJ2qU}%r_`bKq0iEZYy0Pf
zh4ZjcpL}!fLn=h)y_5<8cA7ZPeP?}$&Rh>-$k<cU#rt`YKy={C0=eoGJ58s(Yud@4
zZeC5PLF+?UB)YFrD{^}8q(XFF6*_##wEhuy@90Bx>{@^6_R`Z0T<Vw|_GOYWlR$Jf
zL%%e{7U#JRIg_2RE>Y@CJ%iRq@wxmFnFO1|{k&2^I>7zheV4<N^tphIW0G0e@b|ZT
zQ;-hudKk`O1&^PB`q+TlDtAv)x|Rl_^J8Z&AZ*LF^wu}kV0+?PZb=ndAC%JlfX!;g
zS=+~VS=!I5gK{A{t}R$P<gx)gt*AK$!Bb+jrVyP&>Fgs^8C7q0hFu%Pg^)BFh)yPH
z$dMW`A3~@0;fjy$v)&~YXnndrI+i8*PDKl@@h2sJThh*j=%DSpXRU4gns@6fR7BBG
zIy8mobQ!hj$kw^XKW#$ar?A~Cqk-sD)v8dh;|K(_zpZ&u5#_hKqztXkb+>hZOW_~?
ztgy{uUf-afxgZ_j`8xich^*N4*QNNeQTD;2#+Wro2Y9|VG7k)_mBwx|y}AXSy?aT;
z0@0ZiIW;%cOj`3-VPWtUc=~Be30j{3_pqeTDjuf-jyJ1T*65#$Av)UTUw!{gWHNXE
z_X#PPC;6+^5S`T(m7Lx<5hlD^nt7BIj&c@=4q}5}inPz$w>w-q&Qtqh*ISCv`rvo!
zU1$ZDIA9Ef*k7G+6%|8tz6>Nrgn#nFmM$5Y>qN!4v4-e)YdQKv4c!el>IVGS?|k@y
z1)@`oK=8&r^?}oBM7Z8_D&dYT1!#R()Q~&!(swJ_?8*Kh4EsbDLv*H77uFD_vn)5~
z>r01=IBcvTIs$>}E3MgZYuJL#|579oFjycuDSy!$8SAH-n+bnfCrNK@Y{^6GLo^@6
zJtjlNYxzx?i88Z>xfr68G8T<P_dK8oE@B;rtF05>8lofgKGopE*J43k>yga2%hy9J
z5S_w@CiC1`(UJSi-!QXM3cR-Dp!I>fZgpzdqn0=^7(i-j5tJ;3=s2)US6-Ij7d<1e
zM2Tn3v9gBf{E8t#b@@j}W!7qATGpjF&H~Y?O_<=d(PaOg_rZyzz)0P3OBPxm6vXWA
zk4QL#QFl_Iawi)?#Sk6rA{>->bu5?mTao6Kt>TZ?5S@6M_wReMk6CBv!#+h7>E^IN
zbnNxd&6?2+%HT<|s8|f?;<lbb>q9-J&cyB;TUjOEMy7)B_kA%$=lvERH@!vv>&5qN
zsYYz6BGwQc>&MC|#ymGq-kEKGefC=;i3OsQ?BI@2?)bZxu%h>Ry-H$#O9on>Xqm+2
zrHJVBLWJ)FshGPg#Sk6k-3|{SIs5g3jtKO+i6l{Lh|W;<d$EXwZ!4=U-Mo&&`+6)8
zod<bKwyLNd;$KxHs-|-$Gq<Fn^?52&Ngc777Wy@F_lIr{+sk5z&i-<bL*jR=Psqno
zv{<4H=++P&pO}YRjqM8!kvfVjN5<)gED)W(wzxyWy{%{S+$+zd>C7K(NrCGFeD3u!
zThGHH(O#uFOPzP%pR%t6=>VU5-8|-&wkgg>o?@D>OS+)oI6-ve0;)7{_uEDV-ck6;
zo@m;0L3G@#m7BPlDvl}Kw~jY|r9VBC1lI>RFVkepJ9jR<>hI?3?MJzd=amp0naYNU
z_9E)=7-K7A`u%}BCy)+sy|DZ^OZA_iS5FHtN3g$foDzcQ7-s7IRA%^6)RAL{_Qw86
zIUGm_*k>;|0_Xd{W3_vyMFLu9vSz2}&Ytr_0;?1f3<3jTejpuSpG*_+L;FsjCn26H
z1Fn|yItmb-#>l8V1)K<;%Pf}24@;I+xDcI_3#O#H%L3_OR%-gD>~{lGPoVYD?6&Bx
z&qTU$E){w#{H@A86{3Tn|4oX|JRv*ovC@@;$k%gyh|UX3Lwv2TkE8Q0V!mds&(V-T
zbc9(>#w9+gyD~_BTvub+_nH!i*5?g(B_^4zo#x4+83m(}0DUS%2XD$w*RZdQf4<^V
zf4!?hm_9^jl`8o3N$3mxwvv7e{U>AOBp@B&e%8S;e<HiXz|3u|h!YkkpRgnbt&d&b
ztJ@4jivtqE5S=?M^PyabPC|<<{{(JafbrXEg^y3@-<U#l>VgqoAivKX?)g=eXoFeo
zLj%#NvJ5lZ>W!B(GQjIo3e7BD5{1_1Irs95OyVp38G<ljshv6WT!>C;j_PyY-OV>S
z*jdCVkN^0XLUa(Rd*hS7{P`@=kc#5<Qj(hnqBH;R$HNY6{eTEcn!IXH=ZGZ{Xnh37
z0uCGSySyV;G4XM}y^76+=(s#rpycX-yLfn*mm{c}gl!7ZAqw45EQ;e2;dJUN!;A=K
zrh({S1=>~7W2;9Dv{4MET%1@f2}A3nQTVX_(D^ZcaOGpIMf+#Txey)7u@NjDht4r2
z=3W|g%&-nqh>lHZ2SRIqZ)#X1ojq~V<6atw&Ta_%O|kRo^1Eg_lh@Y{rb|N5`iR<m
z=-SIvPkXH1mr~m{N1Y4NiQjeRq(l_k3>3rMmt=hP!W5z-nD#Mq=l4<%Vrn<>*;7?9
z8jud~^F)6_pTTe7A#O207Z&CpYB*#8=>VUj4nw(fbM-g*gUnhLl=dD7ZwW%{yum3x
zi1J31sB|C<(?|!yuNa~ud{8k;svRX%Ohrl5`)fJR8ln@gQ_kVW#WQmM{LBK<0e-H8
zw3*}GBFRNtSK0^v+kwDsT#yd1^Qt?KCI8sv3Y<JbYFs>O$*=&l&L20pulgMW1YR!K
zu)6x`6vaVwkOsa=c~19cbt%n{rEfnJQitetldM<`j}`wI!f4}SKA%>`h3If8Ub%dy
zrN_O0oifZ1t`G3@AZpHt+P_VOl$dg?NC?Z9eJepaz~>)EzcM!LCmg)@uXj8_I>65X
z<>F~%3>VS+K2YwjQ50s*R|n|;_s>@heBOzqDa&#yRE~!)UWDU<bb#~18JhUyi4gKP
z=IyRJRYlF=6d$<Gz`vL99C%UZk~hG>GdJ*s^r>=sF-Qm42QeaZz`0uG<zvAI2Wc3M
z&VC>rU?1)@6CYh`c?TmpRbFEA9dSvJ4)Ajv5kc*fDt(A`znp7c9GFKx;R5LZ$3ros
zgHuGMiYhfDN26BiL4L>!t~2oSr}kdfw}rw3nqS69eQlNo--C64;}KPiy0G#0cvg0O
zAh~mr(p(90JV0lHTtMCIZ~R;zcG!^5pz?teL<g(WLFCC--LkZ7bezb`_X%7e9pHWN
z?9dn2x#vN$kf3USxxd_7A&?I6T&UNhx5to@e+#};D(QBr`vV8k0iKJR*d&QV&!Ua(
z{KvWrXF3PNJmA(H*xB^muYaxib4bw~wN}w@RvY3VI_|}CTW#Wp&t6w+^D9xc5UWFU
z2Ay>i#=o!EX&r1b95rpD;6ijdgGsv!TRtEXym%TYF&=v`%nhy2tGmqa8G@S|*5Qfm
zZbOwSaUdPwy1&-Z7|C}sDpSkZLe-0v>D3460N1NOi0M+f4u|!eD=y#iiT)f3L`PB5
zsfenOis!WDu`jRQ3Gx&dxIVyn^<IfI8YLxatcVb?{3EAe%LVBG=T-VhU%>#0zbXT6
z)9V>R2%jlLN3F8v?L|ffCqJ$!-tjt@Bn?DIMk&z;3D<I8^u7Ae-`SZdOOL_z0nV%b
z-&B3!rL3i6UgJdNpVjePh)#{#x5Kbc3hCSa{`d@9kwvBu9h`=mD%n4m<(fV8|K25k
zj-i3*$jRRYkHoPFXqS=M6f+JoEOA2XbAA-0EpXBo^^sP<^G|z6c`ii9w7HBS8&!Yo
zZ=@~-{i-LDDMSYe4%rS@G%LS$8eI<c3*iC{NC$W>eA1HlH!IydpIu*`2#OPDY;l0=
z19Tcqm(Cx@7oJNkJ7bo7+eoei=>VU9{PdXQ48HnZ9U#3`@ueU55(d%%j>kt(|6vGx
zB<W_s*SkuBfGBl{&h43oUdWM7q?m91730Q41_?yR$8+1dM2tLP{Af|}N6Ea(5<9rg
zz;n94vbYl|ikYolE;1nRsZO5@(gF5))9_f9JNv7itU-SC*1vC=)*v0=>x(oSK8{n`
z25Qaa{XkjFlsyHI4sbl&M-HJbPABLBIktNNas>RiARS<z!D~-mA5@ud!Y?larLoD!
zhaW-fZ2T#kRe9tAX*P=n8_8O3bsR(|CsVn<@+hf&;iDO8|EEVO>JXj0nUMqUZAxy&
zo!V|AlKv)KkPh&C&2#BqU@@}lai6HrNpZbq+F}FO2j~<zJ}26buBNIRQ&GM7=@Hxl
z(gCjfYhIFgza$Fusr6I=BwDR+VGtd1e`dVL(|kwv1_fTs2a4nBARXX-j{aGPJnZ-V
zCXw=I4vFL+5-yMqa9)a$hp5{mvTBw~r){2}?bk0@!F2{Y0s3PaicSIHG?J%R3qt!j
zEg&7>dNK5VV4y$wuGF+)44*I`x0DLf0rnxNWsRxxuW(YOYX7k5F%j<x(gDtEjOmRh
zF`@hpJyUo;m&=8rBt&Pub#_p%9%=eVGmfF&8>cihh|WWn0SD3wQ8I$&Un5=irqjbL
z(AF!o!2e74?uD~tNOzEtZ9z>cL`R4x|75H}UHF$^*j2h^mZ&L62e|HAHe^4s7G<p*
z{3tV#YY*v!Ksvzd>hNSVGx8@mlJmef5Bsh6=r5ST^#M9Mm;;D}dAA(}5!2<%H7(!k
zAv(I_mC?Kr?%8=$9I+<2%ekHqom}Ln42Kq3jGX~Q@y&nPaD^Z`H+wm~ulO~wTWMxm
zuPD}-FPNb9`Ma}ZrZR;QCC1U@;HZ&WP!G{D=@jE+rmUHNYVkx}XI8ny6QXl+8s=MA
z*jArKEyc9`Fl0jrqQem-l3xd}C#HGFv4-G6wSB<|t<U^UJH0Q1FBQQxHrs^V^MCaq
z9pLrH53McLYb=v9gl)sHHZ8r!52OR!&x#xCV>vj@LLQpr?1OK%FC`&581=?M%;HsB
z5x>$_PaR)%!$EX3Y<}8kX{jOEx&A&1YYWS3VSv_|K!azn@>jRnCBCrM55{g8KadWv
zvp7A^g%Fd0(v`1bX+(bJxB^6ntNKr2d84U~+s4LSn6pYgE=0%qEms$r|F<`%+$fjV
zG4@AO^x*mc=XI%2awMx{s?*HxecdhhVK*0|Q<*U%Dy_#OLBr7Eg-%~MZw=82p`1%a
ze)j6ynZ?}Gm{sC5E|3oJe&K8s+1|<ZaS$B=u8J;RIS>t`1MG8#V8zsmtcLo<?iMcG
zyM%g}4qE5YP-ktlb0Mj#%olS!Z+G@nK{~*B{kFgxk6>lFLVPOg7%?E)<OI?Io_C?B
z<2O^%)~{J3F0=&+uu!=mI_xFQ7uXdM94`;m%CL62#t&)1^#P72qp9N|D?)ayOFB+I
zJ&}KHB}Av+BmRPq4YjuUqB}cTe`ehYqO&Gf@$#LSXX~?5Qj~B1Hu1P1I)m3W4G3zH
zs<v|7!S?QT&kt$9^#MMwZYbp@kH?Sv@QBEblXtU88V2bAJGVTvrCe^Z5cg(xV6trZ
zG7<;U0iFvfs@5Nt{zE70hw0xR=!zTagLHu7A=K?>rthh|j(tLht$tIUM*`9Tj_3Ay
zOd^*dJ1)v}{M)jIOwJ{0aGinU@r&vSaIna3+_j1ATw4m2$c5+>c&VQ?7qUCUTetRn
zFnOJ53emx0GfS6f{psO6$C--het}5?(gF5S4lC8)iSP(u=^xCnM4`9cqJq{(veM+O
z?RuJJa<RTbF$yVjF+@l4=r8Mpx+y=^I&r}CpJ8!ph>j1Y=KD~C-IqcIo~T15duc2n
z9bg|OKgGrG%Z|J_x|Jg*XaZP=l+gM(>eRg%3+p(QOry=n!eUXYgy_tyJyI5#m^Y40
zfB7{5o{`=Oq9aqn5jc`YOe8Kb%4nqT|C<Y>1N`?dhEPMCuF=KnMqI_+@n&R0IEYSI
zVCoOi_96sl&#V7FP0y_`OaZO4kkBJ_)a-qOW}V-)RED2k$ANT!>z>3`_-YElanO!w
zvWlmXj!GY-1H5j?UveN+6PE{jciX;7({A}i0@4BgJN44Ps}P0=qxa(_q?bbu^u1^x
z9pJn?82UQ6nHR`9n5MrmpBc3dlSAtqWSj13vX5M%llW2cQE0MR97Lx*&mn_{eB{r$
z?FpgtWgwM0M2GxQuU4BTV%#5A+qTkHCmmdf&PB}2Pfg=7j`2epe=A=w`V5mn>*E=5
z7_^iuoz9fRnXR4mA|MW=16;45=*qmo5vM>kf#I^zMXv^ZkPdJkR&H<?XkZ<B1Ue;z
zEfg*!lR$Jj=Vyhlr|qiZCdkoIJlu?@NWt|1KCg;f)F{wYVPC5SrsBoF3pJ_)=>X@&
zDjJKO(y_PxhuYVRApp6+38Vw;>|xcp8oFWq+?`?RTxaCvdm)I9*2h<E56MuqoU{3-
z&e9G3z=3pt^WygT(n%aLQ|Kt?d6h*cLEb_Ft~1ct_}aKFovszV)4E+*%uZwA2hsud
zsa$wVo*a~jOxPKoyV4O=p#ahWj>mG1C0csPw6|(HSYZX-ZU_ycBX!4dlxLxYmniOX
zo2Ei2*7FctAK>r0<~GtIst9j$hAg8o=4<5HErE1^_rc65YV9F`+@ck^4*r`&t-(r&
zPO;As`KQ~yJFCXEos8UDD?gA9@O43e%9IYHtA2+NHhb5wO;oliNC&v?O$eT`D~F%S
zsLbH?IEPEDSU@_!b=R;klSIoH{&aoz0B_83%4&-k+<F0>!8KN0X3<2BNLrLxB&v4w
zVu+5=5c1Q)1QeOA&8p`z^DkViAv*Ki+@oB^ILa3lT8qO@^@1!A9aihDVIy~wHP&M^
z%uN>&>@6Z_eTZp`L-%!7sVc=9&AqA0B#I$AxJjv$kz(0r?<YR+y!#SoZVl0?h*}Le
z*%Ch!F)qNa&t}JE0qFqup$6_8zOt67I|3SZklE{1w?jf`eX1=|E|tDz#|Kb5D@Jn%
z;#ER)G&m~d(Fb!X`vXaSn8b1<Ize<Ik^{PQk8GB5e69q;>%Vt#fpmc9-S~aNw*mc_
zl;fB>w{o$5SzL$?!Iw9fY$*%p;ksP4pN6W|4hg_@20pLu=)rM|*JbdH?If?dVhU?4
zfpmb^)goTY2zP_yjwd3Vt&@iI?v)Uoq3*RK*9RY1OA%k7XOxw7_<?kQovp^JL(~f2
zzWCpD6{G|Fz1pJy#g5V(wwanm$+zb62&ye09pLY%1}3dxv=<Fo1@et57gWu})Pr<@
zzX$z2BqV`Dubq_tq=!RLQ=Ap-x&z1KeSpirh$u|?^<A$vZWoWl7Rd1cf6wk8;a94-
zC+$Pqz1anp*e{#VAnxZbLO#3=p`Stzy+w$#-M6g4jt968%_r-<jJOwMvSzzqz8+5F
z1KSyR9aHCZ)NUN^y0p?&5qwNs(FS%O;sCxkeuUrXy}YTvdC!4%$b^f~Yp~}6xL&!V
zPuEaKtLS_1o=W>Sjvp6;Trc4MA&RsP82?)F`zEX=wC6iQ57_e#91k^3?lX+lDfQ{~
zY#s@5%<L(U;{iU`85w2AS62T`zJG23yPtvQodQu6BaFX6zsJ#M-|h9*zhRK$0sdXL
z85SuO@00JemfQTR94a;OU>)FiUKkC#uw*39)*vsEU!F~yfL(W>({j*Ik*@nvtyKJ|
zE%(})Dh}klfKJJj=1wu<L#<7p(ZqfF^J*uM4zSNm0H>UHH>b|L8|_sgd6frP2RI&*
zqn7o!eO<Tv=S+2w;{l#iTy}}>;|5#N8vz1Jtr7QD5|9pXKT8^C*>-4gqjrZiI49Bx
zA>)E{fam>EH&Q~!e){LXbGOUkQw4fSkPh%VRxJBm;^@ko7m-X+b(<&SA=vQ%`xO3t
zei8i3xjJo6_0#tLbJHn&aL)<A@kDxE>O706&OY=1#w6sGHd+kQ0q&nS1ZLqDmKDiS
zI7X>rcs%Z49pL*C&YYIpyA!6xHY`M%`do|DejvvKe4P@6Rx6U#)$<EyQr)I#l~zg;
zqyy~ye&FL&G%0zu_49OA`OzXzG>{H(JfeS%dbpeUi_jVPRg7;LfA`>lTQ8vV^LL2G
zme;rTx6i^o8;GVa!azE}c~zzUm5D%%OFU^aZ>wp76H^E20LOC@`PG%bO?6rMs%NSX
zD>wufqN8FN1~1XZllPLw%2}DQ)pHmZTA%5J7RH9uepx?K@3vsv4y-tc&MX~QEvXsJ
zT0@KimQ1GDmO4a7yu;4K{D-Iot$+mXcK){`T!@Zr^u=$KBdpT72dkPDmAItCIMDk1
z4TSsc+Vg$w5nuk1MO5N$97HEzzEau5E~+akB*|k@me5NbqO%d;Agb&-&b;|3FTHIm
z1RWQmGmvNT$u0fKG*9b41o=oS?_q3ceatX7EYewPt9V;yMERCJ@5VuN?nJc>h>?m5
zbTfRD2=uSj)FC?E>4gUN>yhGws|;;*gob&zARXX!zUDQNQo86{Kk>wKbIz7<uO%#K
zeVP>TGcb<h**!7&L+pHT9C9H#-*GG_LMkNfjup5@(S#0AO(8m5_2@H(Ibp&haMv<S
zb6V{*5FM!>mYdBo?WzI6g1rAyPz079fa?Rit}>!rUU*-eOdbf#@&^C+IgVnG4)D54
z6W}_Ksk-6v_3Uj(-h011Ylx0-UfaCNZi3nU_x7-Wbb$9|CYJT?b~HOI=K0_s?<Qz&
z;6OUSc}XlwbnVw0{lD)K!UWeDIGznu=6~OL*($XfuMFffV(wBwI>7ZZ!N7U-cDW42
zHRgw_1>+!@DMSbG@(}i)umZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3G|DOVR^kqn%Gd0Pou`^t_ArrodI0*CR9*>*(N)5G3nxj<2)a$|trm@*?
zPEQeRzxq}4h8W|9pNK_tuO4BV^c6W9eP_P<aeb!2C-I{qnVM#hoh+PYq?lvlmNx4j
zHKXk*D!khwLo9L=BAXbs>8^^2Fx3x|!}7yBz69SX(veo0Y1Z=uiyqBrmVJdPTW^lE
z7=L#;>sj=`fuvW{JtH1&+QKsU87)3yDyr`nC}`OEK1SA3NH7&@1rWR22hbH-xocz=
zyCL)M1qZ8c&#Tl$ChC0Q7aP1br0&YBK*wvG)8Z_&eItOZHW8B=qQ$hKx88e7i(eD$
z#oZHh&B!KUvMVlBHJuwJBE&%Np=G04=z=Gr8v4TDjU!X$Mj~@>ouKBfY*x)tS@}Fw
zD*YX?9N*UP)bmwNviD9`*iu(T`E8Fsykc##_&3_AOrJ=;NnBQSH2ZFJ#Ew^CtRfVF
z(k=X^Ttxp-*}7`B#uXNibd-|7R&J|ha7e_ftk%*AP2mY!Ha?@%(&S31{Y9PRsOYh@
zIeF8^tpW&IGd0>}EvICUHmQ9M4qg{HKRkycY8n{QJ~p&v`s&}LQdq&Xj`n@B?`Vez
zqefe-d-IvK*IRx<zX8-XC!{+z56yoXMpy7}NdlV?khJEp0?Y|>F(Rsehz|(qo<9rv
z;u-vN!C=+BZ0mH_Nm54zng8Qzxu4vGI*(cqX3mXIxvURPO3rFsgLP|&b%tOwV$Cfk
zSEGkqv~xeE=geUG3y*vO+z_?95C1~?h2AvIR_|^I*|;|fitzNrkUcPFh_C<ogT95j
zHLhcHX;8IIaVbrYemjZesbx-4tVxkG+hbXw=BuZA61QoK#<=~&WeOyU`mNLk9lX5}
zQH5=vG>LPHocD0gKmO2;<=hmkyPZ(&y~*jww@L3FqL0iHC7!(7T%6nN?_B%0JCF6I
zg9$T*9nqPc{d`vZ(Ue;&K9yE46M;OJu$EeMIp)fjk|vLe<?dG$af>~nTI7C)@fD#u
zb44>>SHx5e*uApR9XT<(w9nd(IG)dQO^>A~K2BYGMEu@{6Fb3Sc1pGQ3%g_HL)qJc
z+m=nn0*8mk`pdWo0gq~PE!aNS|76)~NXML{dSlL(%AZ~p^<}C|W%_Yku5_c;#gVf4
z&(wUY@I`(DA9#8Rqf5bw3SQ<lp)d}?Kl_%0*f+mvH?ih<e(?r-O#l6k#(bEM;d*;U
zjZ_j4>x-Lcz5cJMT+Hh_0&fIuGXYL_-7MK5#|qbH_T0B=%R7RxF(5S5!Ik9fbS^JK
z2z$NY`K3ucl8o&--A-?32^$+dcDGkH8&O{RK9}p%EJtjm%+Lb$-wwaz#vl?W#5@Cp
zy4={Y?bRu!Giz1MRy0>q{|jL+O+nV~bV-SPG+&oEZE1ER@lUT>oGk^TEhO%mv(+rO
z7xjGGYUv-R;uK<gYu;7t=rLB02sdA+vbuX~?S1G)v*e0DJAXAjF~GwzudI{MJ(4O8
zAI|w#MH9OLWBG@dv1PBdn0x_e#5>vIxOR19sdc&1gP4RRTeCn>L#OoKKOJN|qGPsQ
zdp1oK$fxf&*;T)1I6U366T+zCPgY6IDiOo8YUGHV`OzDx(L6FbJ2oAd<lNFpHhZVv
zHpl*pB>5|^wiWJQp(ew!HC;VQH~P$1C&L<@2N4p<p9DU>lS0Wew|s@#sf_fz@x=rS
z`-J$rJ(Ru0r9<y(N_b&GZ!SyC1&y_@Vl}ZoE63SA*ZvkO@AB}pE@G_fz4j|6%mhjW
z`zoVtk`_Z!RU9X;Lk7$r{cf2SD`v!=DfXc#LrDspl9?VY(i8oQQYLChob)OQQ!#O9
zt9_^JZ`h{_!^nVqSqCApAJ>!0#qF-Uvu{SmF5cGb8gi5)l&}9LuZiT-@#Z(%lx=tU
z=6U5D&A)=)&tT#d67ubp6fb<m0$kTi5qw=kx=1XI8Wi@@9g4Q>0~=O`x#-~2$kIBr
z3v^a(Uo-zelAw)8ni3zAN!Xo{@=ay>_GtTac)qF=k+4tHy2Qn#N2L?Vk22zyewAS$
zeh{F;S!FGy`O}JS*<DALeW4a1tRvD?t=RSvsqQbi=PmETsY!Gr&rcQEP1l{m{^%m=
z%vZyIH*B%DpLJe-_Dt)R`g3irkb1>Y$iIzXW)jVtAS~M2Uz4g;EB+O|x`*!v$X~W&
zH2y*&z8Gd0R50c|@R-Hs)rR9JKq!%)`D3l{+AE*7JZQW5IS+-sJm<#taypwe9Ovh=
zMy!F!fQd!l@9rPunjEfpq|Z`Q@Tz}(AIN=VD2BThbT*xg$Cs%`O``wxPB%1Q|5TdZ
zZu}YiGA7cWy!Ldbcb*eTqJjLhHG30ir_Ri;gA5A}A12f0&Llf_*pmK0-|fle*Z*_t
zm%{cw*KaOsFz0QHRbpjoyKkMNebEy~N{Z7F)bSyX6S&I0@Wk$@#604qP8&vX1O=9<
z04d&=%?@bkza}|y#7W0aEI&uM^2jx36TR!yA+<D_;%YBGrxsV)oeG<?Hv32{S7&fm
zY)rT<W??yR5j);v<bQR{U-^JZO0_iRTB<99te&Z4mm-f?aS-E&Vf*+R&wSjzu5{$Y
z6On=^n%n252T}|ihOT@bpTA4})lfj)J}DR)c-6%7Xe(hT;Ym-p%f38+3W^Rx>8~(d
zHQ$Hl1)rM^bh1i(pC6ZQl33R4T}@&b>vPf;Q1Q_XO|p~v(j5>6dno*IlhRxB4S)6d
z@(?8z-gBmWv<jn*3m3)oT|Pskn_Z)j1q<Eydf0{@wp}oT`_@>7RHZUSywlkFQeeL?
z-`11g9|N(Q9Z&vQ7xsIK*Dxf7R?}d1V<rX@+Hs@);LVKip{Vvc#<*<u#{Vcf924?D
zTfpe#>};7o+`&ZSZva~$a(2AYfj{XG(i8$0o{~@17WLiS&}7*Mm6!wthDas$fAH})
zPd?qM<YRcwtQ)@Ym=VGizlx3HAoq+SD6$}Dffum3`j|h3@a<HOL0Iu>*Mk9()?n7p
zpJ2+TwU(Xld??CN4)N7Ex!5V{j^?rVwX^W4$)$(+%YGB|n6!_G>(fZWGHeXwTqXKb
zp&H{uCvb`bXxs#k&9eMQG2Ku+a%`?wuiDoFXq0*Ic<^~zbM#Y~Bf^8^@U=c6wec3B
zsnGDDn<-UX-0qo)y{YID_Mi@z$!EdZV<w*RU>`mZ4|TO<_di7lKfK9A7a(L`gV!0L
z7V~1E(f#cA@QtkGOQq~n_Fov`i^t-8^uBQfFPmvB5Dm{mK3Cx*W4_w<N)Oa-Gu#Rh
zzZHLXC_iGN=ZjBK5YS*#=$T$`GT7-f7g^9Aq#zs2<xTeaPjKoww{qgiuEGJmPe-l(
zcjt8+w`b1}GTYe}pVoB=GOwBUa8&+0Z8hV4IIf-U0-y6iVEO~LA9cbXi*%Mgsef4|
z3g*(E5D3qsHJ0R9W<0c=(u><ooyg6cz6eLQ5g{m^wWvR)tdUMeFPs;BI-kqs$50VS
z^Upou)g&76p#5D*+nI@bd=$ANXZ5**^SqpMzg<)0+|B;ZYn#X=7xw<MK91SrOHqvO
z=%5r5504QC`Vq#nd7YC5CI|l<8~=5iIds`{MFos(**U4V$ZE~9R8r;aY6wXgH6yqk
ztuJtdI2Vj|9%f(nCEIjsY^x;;rPxqtE!Gj7HPPNsBWqYmniEUAxrh`yDG<F7Sw?T|
zD^921)Y8~u-)+Td3!OYXb#Wu3(na6N&nlysV!bdx<~fT;-)rx-X%)GltaQg7A&18{
z<U1P`Lto78XlF@bhCkjnD`{Z+nWi;!xGCgw`*O2f_zl%x?J7=+nt_+j+HP?!%W>@q
zX`%uT+lzS>nKzUxOeEm^kOR(3-$ff-DZKy5CN2BIQL+sAV;k%EoPrF83+~Se7YbhA
zYOZOzQ|x7S%9YZ?urs6BO5!hEc!{4ogFazgKWLx5_$}kIvWV-OTPlK2(+{t0H`6eh
zQ)xUY7B8en-DO6!{wpn15kr>r?HONk!+u$KndY)VHOpY;=0Gve$gR9W^X|)R)RHe7
z+6e}7R2aXo?ykz5-6{H{kN$lq#x(7=GUxcN$cW5D%kU_|E~B~lXoGExwuiE6Puey{
z`%{~*MzMa`g?&K#1#v3ZwDz&X`IvupfFq}zN$B=<HKGn{-&3-<R1~@zT%J=d!p*3z
z_eY|p31t8Ltar)nvPyD!_sNI!JC$^$e}6b>8D>+tBOCvKzLSDC$T%yXLS9S!zOH8O
zd-=L<XQ=5c<$5Zm&YUCsd*he|3SVMX-R4D{(Vkn4ksi*KSmAf*L8sUPq5Px;q?qEb
z62z-k<n;S57rNzk1f&grGf8lc-Zbu<Ui=_B{Be#E`q<5@4ACVtgfH;3of`cxs`AXF
z)Bc!UTGt$F>{7G0J!k(2r!tMXRK3*;U$45jb#YvIIWd;s-Tg5KwYpWUaG&RQAATR5
zM}AfoCv3=GMKO#xY|$b1geYN9rk}c8<JQ9iC66YWj(F>WDGOBraUfa6tqFZD+CZu$
z9WPTdDafq^30EuwKfHxich^BF15HM*tUomUmlV5p$$^M{Ak&A}?{2d{|C8+~d36kz
zj>x4DUqe~@MYft?m>$WIO8UvF7Iw@mIw{;L-^x!?bmx*$5~cD$TQb}mHU9Zzr8WNm
z3~SYXc`Zkay!zh^bK0q8JE&{y-6uJ6xw@aVjwMvZHt|ZyzyJ3Nt}}VW`M+0ivPHf@
zQ4h|{mBg`ZRyAeDhEpib1eUsLqZqU<uKIWwJf+QhayJGSKKz-UNV0tR(X9SQ5^kx#
z%KOp5CEBUEh3LFTb;2B}h9Nuon63pso1RMZbU!!aiZk}~82oB7Hob-sMz1k|x4{z6
z|K3mOIF*VPnE>BR$2s`RKkTI6MN7ryg44wMW}KW3eYr&ny9vc-O|^Y$t~Yd6B_~K-
z#q`oL6f_P&vVAY3+%-m%QlI#(RF*#BEMHjsyjqB>uH$LehFvM1_#%p``}$Xk!?Z!b
zYwQ_RKj~eb-~|Mto`7{3`l-7p+p@b-pOamk6Z?*o$uB4$qz_4Wh%x^R+saCY>5h24
zscxRn->LoaN$Kqx#kR<Y@Bm@02VXS}5J@uZ5K14J66Ky;eM5A5?bm?sj%KW?Z~8^B
zYZSXf!f7U({QVe~!dJQ)<tp7s8QTa+ort*wWS1>Gt38TLmkY8q{lv6CDWkSJSh4In
z6R&fT`c1p~-`#3Yk}DK2+oJ8!%WdCM`^X8Rc2aYvXbg&od`@L@{2nW~Oi+F8W&YZv
z!IAQj@dHA)-My$%#>E`eSog%e%;jfl4%MV;vl!IBF`Z7m`7l48bQh85azC7ku5O!T
zEe-nA+Be|RT&3}V;`#nD?dB$dfvUBaE5kgN`)*0q$3+qfkGv4`$IT^gnAqMjtz?=`
z+DuazKQL-gnLY5GC3yRmqGP^WlFgs}>gUOiw0}dZ@&`umPu`#2AuDsB3MAsCAbQSB
z=)7<Y;36En{qT<PRD&|yvh4wh;JLHb@-sB0Dvp?&E28VEuR@(FDgQ<b_8ZPKU0fV7
z7g}D3e%TAZ=w*Lf;l8Z$j;q6a#+WO47|mv@?+d)4dHw8b%aGJ!AvY;Mg=Evx+0R%i
z<S9m>$4CwK=TG~yPPUINM94iP$B>V4X`fP69AP){baE?*K4Uyi<b2AjwwbwZKy>n4
zZcsk_*8){k6CS+5y2?u<p5hL)UrC|tY5K3`oSlSazKrh-lT|Byxp*L6a-p}zVZ=et
zmj7tfWd8bmK=s22UuWgoe!5eO_1GfK0KQlHQ@*9j{t6X-HkGpuVz}|O-)0FnlF>Tx
zDzqg}5iz$XOL^f3kGXck{C8flk=9|B*dP1vIG|LCRM7U9J$hZ)Ie1;=cCcAhgCPA7
zlbGc7gD7;A^>X1o&scim)9^2H0;}wPj95Zrb$@r2V_a<(v)}WeaVOnr)qC{!snuMr
z2dTxzrLDW(ZQ0(%?B@tX?+r<6bKKPJ4fdUSUGx8peVx3tf<N@R9TnjT4M!=-)PDzi
zP}e>ooeMYnmLBiv^%f>&^I36VZS!tQ7SV5|;2`Ayy*nS7IF}h=;qu4(T!?A&YrWOK
z90VkV&;@Wt10}IO{jH*YpME@1KZerZha5}Ou5ege*TMI~^c(hg%fuI96M_s@sZ>=2
z9dQ{&HHkt@2^ERhKP}<)G|U<d&l$NizLFpDeNr&kKM$}X*q7`K?)sZ+wX_k?bHGtU
z&}Sh!=RbjrV?I!$I77N|Cce?N>_4HqE*%#VCTJFsQs2ror5)6?)K60F7#rzjqL$3?
zG9dNo*F5946P1t>SL9xb=|5w~H~ueLM2laMN(HjWMGi4AxpUnT^(FCgnyeT9?v-jt
z9uhce^e|N>A}@Lr*C|%LhsRN+pwkc$v`F}L5P$KN*K}0FAnDax8nZtW_{lBC5k?bL
zyLZ|hD-xJfjOMqY6OEjmXdy*?%P*9$?c(!2B(a;~Da!q`NW}%tyYq$cltv4_8J5S9
zSP~Mm8engDeMjyzOH(H^L7VWAn$J~;E9qaVZK!_`XEjte6yg86Yo|jt*`DLdz!V!j
zFpSrr^RGJR^^+IBF8-o6T9@bk)pn8<r>s?Md_azQS~to^*eoo_)DY^Kuam9%(cx5Y
z_U8L+zkqhlAqFa3&#8*`t6fA<QPzi)m2+{&Kgt}@=F!VA^d|k7^xY%rw_3N8cD9tV
zKE|zKYAmQ!xIgkvEBV9n!7F0c*{;@GjIo2>qMCw3CM)eH{xWeHMPalR&-C5N^~1JI
z#Z3j-HhN(`>f@CB*KW46fBG851HUM?R8hQ#KUlJC`HOvq@ZZ~hiAIhAlDNTRz8%gQ
zo@FTos)#n@Q!^>OY=I6zoqw=(uXdI5<T3<$KKUS^oQYb6@?s{KlI;0l!6WmHJ8=D6
z?d^Xl+=y&xt4%8%rnEOg5U;LC^*VC*dR7W&508210aZ6HdX$X)1ED!dkCl+u`t<9L
zkHZF?2Bgy%aZC98uSZBu?t=1{15Tb}In#GeqWAqOpEixf5!JD+pspJ`*>CNO!V;=5
zP}<VKNOaJ!^++Cy$Z+ZHA$QRnM;U*(AGqpbXm42hHh5>j@tRuoFr<WmlY#Agydi#q
zj_B-Hrkhn3fo|m&{{h^66^xhc9Zj5`><d-D`}+85XoV~=zjO1I*vT%EVvX9lEBrP1
zY`a|WDw6q%E2<0C_X)BxHKRF(%fU-ox}<?rOpataVpn#Rn~%CR`OlucWelv+c+;HH
z7&Vh&&G-9RO4aRXAd`Fw@24PF?*`d?s^7Y1LnSC)OmWP5SJx(Tm;XE`>W<;dcfY^*
z^}Zd;b7tSjz~iGB$&*D19$fXusLH>D#zd(0%LIk-KC1TrW^he2xwC+;;?>RTwCHMp
zk6L??-Q*<*ry7!f)&GGc9R48sM^pDv>_PQs4>bME%DCJ(uD5EJe0V{OLMvRjvB#Fb
z<eX?K{FF(QNmodp;p2atPM|}2yrB9ddTjSRCK#?qpDdRImAwY8Udd6BhbU@kitEKd
zq28ZqzM?;r&Q64%{QHsfd)u;h5)Rx(e7Br5pY?oUP%qfhyAVpficK*o?AcHYr_@+B
zR;Ts)OfKdWNg+OVG;tL7Q3wqsm0+0EysMYCbNV1&@;H@ytG}HV%l+%f%Pcbm{HjOK
znRflFItZHH_VxIim6$ckGf_UMY8et{)bN}e-Jj0ov(j_f2sNF*2_WqZ7y2#Bx;`r?
zKuSF6#E#=_xras+lJyH+H6gH4_fZz=Ro5(k5S-B1rdj-Yw{`q(#~iO_bJ$RLF8B5e
z!iS#`%3e&WFg|V>W$p;%qhGepbv&a9;QoNEaMvw|Sb|Wefyhy*zTAaKa*Aq0$EAw4
zJ7_>gKOozEa6v`G(T8HfY_u)w&XRT|(yKCT(ATLk8*iVC?kXM6jc+O?J&ZGe;jE2C
z_U3JLr&l?xkD--329e_>1}WKbT`nyRFDt{HqDI4H{n}j#tM5A2T7ciPWM=;!qI4PI
zW2u;^6#DN2e#Lb(nr389a6gR+<hr7Qv^gY?eDR1;Y$(jBQ`coRPg0p8B7Q3N7QXa-
z?5W%E#fny5PtvmOS^ai=evuM3k=uEP3+X!f-`O8EnFi_1v|D28Z=z4!<bNlq7WN_c
zpeb#JVc-j9?Xmr^;auCI*!-}hihfeFw2tlhrS(QGNAsy711f9GmfBYzrHWMi_{{`P
z!NJkU--BzP<`A)U)^pRw#W0MRFlN!cJn7My>zP{j$-_@RZPR7p5(bgYrWYcYxugf_
zsf~VlGa$8@?YupmIC9`u#`9aC7eU7T%gQSD)((?&hHGO8Cq12&;;!{cX-&eFEuLQO
z0*cq`PCi`A$mb)Q_B@qr^dFwD#Wm<uTPyv%EwG~ccFQOKcZDHc(BdLvvRuL~>u0(6
zEW+Efz&=WKT_&8<hS{^3e+pKnZ!raO*X?rM9Py6=3|BwZ?U5|T2h>u1s2O#x@EJp1
zy>L%|^6uN;A%5pS$J%i}2G(3}JD4;6B~?8ocRFC3;CN%KdM-wA^W)7oMoua1kr}3O
zGC9VS4S1w<I3BiAD`yYh?0*Scf2UEA0u%8>2ZbIOq_^_Asp}zEzdmtB&?!`zpC}mi
zO6J;z*Tdn0!;}8ZI$8Uw6#XjurOBGz<49A@SD*R2ets$n9lkaA@fHpKcb$!)e#k-l
zNWTE)r*lhjiWQaYh7-6npYUok+Ju_~%QKvGEOBxo?Iu!9_di^j>|wkb-Q;)IT@^=S
ztrZGFVjum@utSg4`}C|tXTI9<e`-F+h?=eDj3dHdDl4ex>6j~-sV!*gQZ7#7i|JsB
zMQB0qO=Q<E7)bd!_@Yo>CxDI95qUgoOd+Om^HMwJOp&e{p*Qv9=D1Y6tPe#sJh=^%
zyou0+!EI7dUJb4cjwO%Wvo?4J1@A72CRy;Vm!=kT9G{tMTxgoCNDR-jie~wM#Xw?K
zPLXHfp^{$0q*tYgu?uo<EJiQqq#E9^iw86ECLF2vF1<s|gY|BLKzv<wk-OY?1c?sF
z7U$H7jsah#zq+_82*m!(sMN-57yEw4hB@wm*O_@}@q@V&nQ}g{;H#fyat($y|AL58
zilfZ7{j`gB#9rAePpQ^@pEnJD$qCFj53IhbJQgKo3DeBx9d$R3``B)6^BLi5MN-*-
z4!`Lw+G*`$Gd+)LTzj32dL8>q!wi??E;r(`3~o9Fe8b9mmP<F5O@^m^%Qg1t*CgNE
zCT(5^jB@YHKC@$$!7L{-oRM8V!;#Iie?3KnU180kNQ1%h^4lCq?i`85=NFFA&t|zg
z<dJ3I+h$OVHlOm<?dc2#yM7UCR}t?KC4w^^8hS?MH#UVV;<c}vkqfu{-~W-N<U+Bq
zB>CrN3q8$pqr|N0C9>@2k8^mJHpgOZ(sI2CPSLZEg0v9KWR?$8+W(J+Zwk+>Y1)l#
z+qNdQZQHhOYhv5BIY}nw6Wf~D#-I1Q_C8w&-F+3h?y6N)T@6X3pLdGWEa2bPUkzP4
zU;MiMULdNJLHyouPm5o29PI%<qsx#w-^kEFLO5b%NNjQ)tf;XSGwGJLvP=WaL8M-q
z>LxHHQQPK^RSWL7S!kY1ehZb*CwF3{tvP%CSVN)+>QhtI)Q<vGcW+}orFWCKw8eLE
z=&Vh>@4D~zIS`D2z~y)<z)`y|g2t|oRm<py0mZQ-7MqbEk%&Lpxm=t7vUB0HU!-t-
ze@2Bj^_t)(!`XU$0n7zpl!o1HITW9dskTH|a8SjQ8F@KF!-nU6;>7^TG?1=KM16>o
z^cRDvmF<vsZx;dK+CzFK93>oC$unf$OIeXn189UYP!=LR)XYQ)^Kj;p-=rTMe}J|8
z4HIv$A?3e>76}tR>eF`#6^0spc)oqz;-;jqOcp3P?R``ji)N!TdEXPciVz=i>`~p`
zfT1Ju2r0Mt&u|c&_1e>0AfLZIW3G2bJO~p2vW~pNmeD5P;NM|bqbnsr@r@1V8)KGm
zD-taKF8yRL=_#J6Qsj(hDWh1SPh5D3#qUk<7~UR0e}_6fvpVx2J^&dTT-Mh;a1v~-
zX%sKE2M|qW&kjkQgDY_Jw+cTEvo}L_L+}{Hk=OJ)3D$GIA_<i7EH`-X8SjlZh^@RJ
z)@~KG-V`mzVIC>Vx$i5BzcXv3V@;RN6k__oddy93dG!a?IAuVn6iaQB#12BLKNanD
z={1Ldt=j))FdM-oU?bp(+7NzH$e$WanJY%r=ca^iRz80ltTB}{&r^Uk`ThB^pko?=
zd^=Pycjla7ERwQ?Vq;DDW;7{?`;|`EKzYyfN2NQR&#sfa-@rY?ps4dZFslC#6_2D|
za@(#?W1rPF04Wi>XL5o{a|>@~;Sli@cAb`|U4Y)8f>~sx!~eM#e{{`(W=JzlXp5zB
zglwcE)zCO^*%aQ>D)iDE8q1{NURSng2n#7Wq8DQ>jisfJ6c{5J>ku(R*1PEDoWzz?
zfbT`6W@yB%T}KL-kBE=@g=`sdm=fGA>OxsL2-Lrf71&ZZUqX`|ja^K*vTFpDoK~vH
zelCw1!^b7s%ng`fq2<r9xEcGJJ53`*;a=sa?fgNL6eRX>LY~x4vvrS@i=2rlY7AWs
z-3|r_M>%!uF`MkDODq*#+1?F}&q)&pZTdg3MGVUexjbBWGu_Le_CG3F5c)XTT#u0_
zn?8-#;D`IWH#TV541OJ)O`k)_utmH%b+NE~PhpP!nR{4>CcKZ74>r3rDL275xCL|F
z5v+x~Pw*#!16NoxB%p*m)Q0J>bJV}7a*cJ)Rg0|OWiBt#L&u4%83cr?fTE2G)7*%V
zg_QU%#2eq#LQNsmekn~2+i1e00IMzyeC5@LKNdoXD{bKsoV!-Vy16dLbK^Zes<4Px
z8{8|64e5yRT}mBTW%iIzA!}jrGAU`n3$h?bfe6w8KIwTyp>r`TC5?g%K+FbZI$4K`
z1D-(3+_&vtWFOa0_;$}Ult78hd4WKwDnS(wF1QnJmSF(6TI3Hdq5&-+;^3a9f<(W_
z8+{o$crB;59u>_SjWWg3WE;wwnl(c(s1tSk8=<RC1T_0#a4*<3hs8N*1f$TShy3wj
zUfP<w%u^^>|8Yx`Zl$SdyWj;Pk!*>)rUq8xp)>ec{_EE^;1Y_upyB3)H^V3^B(hRE
zXEJNn&_Op_O~j<cQqqDIFw_Vts<E=A6|p^mMDv<h$BDoQBk<RaMZsj;DNrum3Ycb3
zhs&4Pn+?#hG6}CCw32j;2&L*)ch3IJ+U8~so%#tFy|+plx83<Eu|i*$-=X*UnNddd
z5K)=itE(%j$Foidu&=HBO})v(&C?%o-ngwp=YU-|8T^&m%CIC3HO}Y>+Mx`fSP@)V
zcQZIKlsHqxIqh@6*S<uZ9BDhhG^z5O*biYRIi~_#>X!@_bk>0l8#&NZ!!Q>uBZUok
z@G(z7&dxmTcFMDr7W3M*nh+kn5_<mSP6m?v%N+rtXd(bx%&DQF0O1IH?wd6Utx42u
z$Si1vDkPuUs^l0+ME)fISU5pVTnP48>+1mb#QL?zcb2$olD5lME-T^6Z*~xbd|k}-
zV*MfJZ2l2A@^tF45_9X;iZpRfM9>g<nL{<=pVjX=%GzH_!ek`JAjK%?QH4fPk+X9d
zq7rt7z9`0Ay23`t`fU5DUmZJt>bFA+{(gtSkDAp>JRC)bpYu0DArJ!yKw=uO5JAKx
zO(BIyc=JRGl8}dkoT6g3g#Xmd=JxD44SeYrsAG|*DZFQERL>IRZ+_rM+-X%h)9RF^
z)S4SjuD5e;&*Z6Z=oO}BjuJE#HyV+I-Z7FTGwo~kJ^u3AuL*km&f()Vq788L=-Z{|
z`BqBesp&1sB)mDzJD;bg=n&1hn}+{aji=bBqN>_Hb74qBcW8r2e_N8KDrI2>Nx4(j
zNRu6Hbp-7I)7U&Jd+(RR8g||r<s9$%>7h8IjCcY81~`8!DtCzdf&hkwK6_vfTJ#hh
zD$UAHNnl_GpG#;7`IE&ZEA$J8SdtMXTN*kr^%E;L^%Fz(OS^BRm>xJ-o<RbV_<>9S
zqx7YmjAMHCtifTYQ9boD&xishZb;*G5aF#%-AMvpxxP!~IBquib%c6>x*w4`07yx%
zV9=@}nuLQLc3`=}zOANe;?Yi~1I0uA4kW$GU%S3&v-er_yg>6ZF3+JIPbd5LC6mE5
z9!Jd*b4mi15A4zr&l-)d6U_4afm>!lFc5%!bt?J+t1vovq2>m+<%L2b2CwITDc}wD
zeI~T<l^!KTX!`VEw<yw7aL+&4y~em?CL4=nW{!FO^UCNJf|gN}+3b85*Wbw(7hoeH
zj$A29z=dZr?lJ10UJW?gvVT$;vDH7K%nQ%F0)2u-7t_O#ddBt}2pO&?kOX?TDF1z4
z7<q%Vkyb`h|5a@ue>@51En`#R{=!gfm=LR&NEihygnobh!&nBnaT!3rq(Mkcc_{bQ
z{<UqOCFB4hu!~hZA3W5%4N8E5PQRYjdbxgSU%VYzF&uh)M0k2<>icUy#^oZ=?j%?u
zAxY8^QqDOEJil|9#q2rUro8+6yh&CmF;TQAwnX(AS;#|^EIRBB&~_YLE|`KcfA*@V
z@+_2_;jJ7+qP*@d`$#E{@)V)%jSw$-`j17(3U&Y&i4U`rSoU52Q=%y@5zmBd1q&LR
z)X1bHo;k@P_7In}H)wqk#X^Ffc~In9d~#MiBX{}=x7eMd@=cmd4^e32ZHe<`$I1@I
z@k8!U4uA{-<6JKBUt5Kx$9vn~TWyE;wupMxk!I`NHrw2H_b$?5p5&@@gPLusFvXWF
z2_3k{nPpmMKToTyEG%nJY{~q9ID%j&XFqRXs{P<DrL1lZ5{BzmC~HQR)xv!-ULEDa
zxy(A~1BF>`PsL-cz=<;@+(82eOP!_;Xq8-<GS@cWh6QE;=zCSKa@k{OFY1j}q!zAe
zyHhsa2KB1ukhIGISKR(SP(5ubsb>a;1qfa~adG+{wcif7p%@5Raf1dAHdvec)By0G
zByhTo!}`ztX$=T<0lsUTlQpx`!o<>hKN=&0lpL>Z6EW)VLm&=TN7@fmry#@QdOBDc
zrM#B<^Y0PU4{)>)@k-?1y|gd_H?_isVF@fa_yLZ-npXsrH%EnQwW-G?K)AmaR|!lE
z9is<TIcYqNHHPe--u_;Ui^DGv7oj1@7C$9&qnLDq%lTRNQLDkrTa(I!hUJB`ru!$D
zC0{&PWCCEr#!b(O8a;&J4km^}ARS42u!lSuM=JCgIn>q+V6IM#k5WFy0=L*V**!x0
zLj^w@IYCkiV{;YaG@z`JgRU-;T}L<~B)s)n?m|^=O@P7|gHpmmU#5~t{8xl)usrA+
zQ{Zq_szl+nYO2XyQ*4<UW%?K3H&|07#K2ifZdy~y^IK+FySqpCWdtwQ<C8-)8+5}}
zS*<X*1IrYi+X7nTFyG2v1>y6X@NwCZ;rygylndL*%7QKFVCiXWbZVBG#yk!mBI#`|
zz=~>v_BVyI*2yqC%jGDZ!LUa5o$r1-zKR<71*^GOc-g&H4g|sCoboCx0LEwBSIn%a
zbu=CAn6QGHCNzXx5L|hG872dUp|>#iu*wbleY1r^=6zQUxi3nsXol`_VLc_9Upuvb
zRA{NpdfKn?EkQS$LAIp_9C?<xYIK$Dd_16|@@l`7aU~Rv)e3YVA>5rpUL8*6Z>RA#
z!N~c$?}poA+AQO|ZhDlA+Dg~`5f+YbW#3(iwE{c&azi?FHCf9&RQcI0VVs$VG2^ua
z=-ev}iz35z&!}VU1#HOC2PR^u%bJ4dlE#p9C3|pk=*8qOxtiF*mg{<WfSCaJl1w5p
z04c8TquRY-wjA%Y)Zz==VpBl2b9tQ5t5e<A&kJiq{^tD+63c!{F+a4(?ed<ip!(vi
zBCT9so@PmS4F0IMMm{EED;|2alY9PRW-j-7`{Dy+!?k(4sdNXJ-Y>tilc*NrCw;E5
z@n2mm_Y0Y&El7gFUL;!)!ZPd0Ok&kW(L_c(iTL517FU?45|xWMw=a;9+hV0#LIOoL
zy!dfR@)`a8YWwkE_v*|WMy~aUK$`kc@;Pf4e3+aVkE4KPf=e8Hu=hf~FMjxL&?PWI
zHX2D8M|uy51+{&wT$@DB2Pe4C`ga|p<=g$J?=tv4RSL3jXj1JhXpavJsa~w!R5@z^
z({yG($Zv`$D8Ewj1K0rVuTMlRjN<C#Q>Hp4=PW9Y5*R5H+0sE4^Epz`7f31jxgyym
z=njgC=66}$Pn_8hsXMzH>`g^U+mXsE*CP^zM4LzD45a|fa_<CGVq%#pBKeBtF<d^x
znjrnqW8`A!_c%jmKUB?MyLK<$H&415+73*?p~Dqg(NzfBRs<0%NzTP6R^HASN!~mA
zY+S}AyBW3&&IC&&x6XZuY@qapa`5mgNEE_HD6^s}%>%Q{_>u1SFIohwxzoDzx`Abu
zIYM09Ae~;gG^<R#Y@~=Np7f<we~w#M<G0PBa<(Nj42SkWtRA0W`g$;#h!y&d=xu9B
z*~g+oWoEp?jiH@bq6&AB7i3qBH@#+(psu>DqP#C~+n8ca;95IDOWUEfhpt$lWrZeE
zSkBAIrv!2*0Z+d=G+{R4Ur{u;XwB6_nWs_hqTXX-)=7TjB1|0OYLW2#mbTszEq6L=
z-@qYvmb4Nd1q<`h46csd#?UvqNxMNEXGPEw9^!6thCx>$xXi~pF_KaIca#PuzN(0G
zG|&y7%Fw2p7VM%;8GNuGb*-bwn<zLn$C=QJq|F1=jCFZNu2Q1(k(EWxwQkH!UP7fF
z)xmsTH;uCk>;%av+kCjt_xBxj;KiMW-5|@$1bUkW6Ne{azTKi|^Qmgaio+hQ64}LE
znNLLaJtU~U?Vm2$to>=Pk?HYCgEcNenbv5{-ufw#W~xn>0KF8b#kDx&N&&u17uD0P
z8TmTlvxge9j(D$4%KCW~^vF|r;vbIc#=kFAwCAX*jr7#bE)qv-X3P`#a!PUaEG(55
zbpt)C5_WwuixC*Ss`%FDhR*WD9izf8pxyFo_TxPL&_9J_tqtdWPNdpT(nH*1W+Vmp
zZfF_cWT|5@@(T#wTlyrZasSUYvg8ElJrdbFW0N&*zfF#3>eC7V&x@#s^5?~DF@+Tl
zle6fP!FnuArUcM6H_HSd1;U^N8NVycC1r6wWCZ)Z=8u&vS7)Ip(m+bV>Er;wWkry<
zo3*9{e?;;LOt>rqLSQ$+*mI<P8VyrAghnNvjJ)<bm|m$f^C>(*YNg&>ZcD-+*fi+h
zQseluwi2q*9?~Dopqa-++Dgx9>nKV(UHrqXX2_G|$q5fmX0fzG>FAf}`Qa{93EFg#
z&o01t;dn`GBamnBeRS7_H$G;0&5>BYm3<?4>Cq;%@LoMNa7PooXiRMw-mn8Ie!o3?
zP5a!a-ZBk_Ok~!RC>7dWt3cVR?p0sUf_yDEpD^F<bLe>L72))|1ohAVQwCvXr#f&^
z((p4#?PbXbF)b79I0Ii9ER}cy{YxC|?rlb_6>Ww+<C&>KVM;p~E~x&HW6Q_Wc8NQp
zqCTc@gtO}O*k77J&L|6R7hmnx6JmF(KGhY9KV5C-iB8nOp>ouQni00a+9<O>;_2ny
z({`wvTm!<RuG3@_l4=Ri`wN1jPa0IMI)+F~Y+E%-Cve3)YjJ$OcKcZ{nUig2IQkUA
z@1oz<?Ukesf)4p>jl2Xk`xN%A%aSTuoQi$J`2yC;Cn*1dYIq@`6TOe(Ku<6B3qLL9
zx=#eU(i3|jXSm08ldYbOTA0E*VT2l7b6ca1`6?)4XUK|e!e94GuD9cGxAZhc&^b*S
z5I;#5qKR^X`&RUuBZICp-d|!!j#F?E5U;#py~*HYIfkOXm*nW8-nmjU&mruq#W$x?
z7!~TLiVyS5d5hwRgid>=LL1#>U&>pQ?6OjE91!ei?G}*xN6e=DiRbd+px52{8X$k!
zyI$F9!PM#(*1i6P`?|PIfj2X47!&-4L*O8mLLTvHbw<XCE8I9m&70{vod+!ilrN=~
z_614bvW14hJ}AB?FXqBcJ44e2EJZl2p(Am?=?dx}d<_?PV6rjt0`e0V@t^&4N)#72
z5+<_6pR&b!!tL6iJ|BSpeYUSqaP5^P&tAyH$+aACE_k`kHM62yp^%?-vPt3Vw2M1$
z;~+LzNu@pJY+e+vx#bJs@CT-iGKe&}w5^;uXuFcEBn=vz#?(#ms^p(IQpSsaw9rNw
zEjhv?tJ@IjfG|$mYXJ$vhd_9FMdO^Q6>i{K4FYqEB3B$kvzff}ThCxSir&}MhC*)x
zRXO5|FLYs%KZy&FTWAn=)`o}@(U&fG6t#d<JCOrnZJQ#ahownZGson#$Q9BCLx=9V
z&@xyp^n$R{v)Jdat-vV>!`H<ZPx~-u9#Q1Da%*oB=6z5x1h<d(KCfNpBHaExxg>Da
z)LQU0gmSPg1YH>6#>}$2F*4;nxEMeYmaGiRblc^!^P(9uj0mMDP3w!|78IlBEkZO?
zejw$@rC&Ax`lyCJ61v#LL=U^CpfnalD;Ta<3Nd=qbWilFwC5cD1}XD9HW*nI)0qBO
zF=fhgRzaecw5j{}AK$oZ1ji+QkN%g$m-ANbtSdK*=HrdG&v;U%H)F`yzB$lu(7!=T
z{I=Gf>oJITv@uld(a*HEv`!3dH?a4TQ*qI<Fix=?Y&7!p(o%5>QuGsaGObfnv_Bs*
zQ`GFVbyIQ^vp>sO;y7T#n}o7dV4FdbbVHnl^?LT@lI~-a;})D{ru0~1V4YEDg=~S0
z%P5DYz~=sIolKB|{b`*HyCuwQ6Xvs4LSvTHIdjG?%3NM#2T-`ZKaPO+P&2geF<)nM
zAPRSthi3`Cvtc(lGaHQH6UC22lRDP?CBTm_32R~qy3MIo%-R=)lISMYB%WCXlF8H~
zUNc3l92%?5wz0glHcRjf)`2WRpOoea<@%)u8OhT#@fmSeb~FjqZ*cRFHtwL%5(iSu
zPUYswC?nfzlJFFNKn9|bUy@(gl9Ebc+BE_b61;@t!1bXy%yEu-7lF0YeDeAk_AKVV
zz6)MVwEW#U3;Im@;{$TFboM7O!t?Kc6Ooa1ri>$tB9-Ij0Vx$F7($>2d?HYF`)I5*
zgg@MtwNGC?)}>zSNYR+7WyH%vI($xLBiy-TY^@Vsj$TQ8oAcV4Zmf<cr!x^8)*df%
z$tN2hn2BkBap=RXhqQN3(G*X7pUYj|m?V2=vqj%i`O^qgt(5t<f7lYXzDrzQSiP{w
zZ_nb2*>Sn)$B-d@@@8JKnr^!}_kQoKNVM9If9|BH<atodPP7|4t!&6?DmmTP^>KTg
z!G*BJeyeQtu^1rL>2G|qZTV@I-F%C~oM=S<<JGMF67XvJa5!=bm}HIFC))a|mHpBv
ztI4?JM{K5(-tSMDZ1U%+a?4;$78^FV3-*0==o)E{%-#~1O*g{u3y=Ayf)!!KmJjhy
zrIA5k_GRt5Y5hTQfMhJ>J16zgsuvJ5xI~iu*Qo&kb5SK(uf&Z?xyNy_p8>DeGoxHU
zJ=d<{s%y1okg$4&OZCL>S%D%;w_84h%HdMPze?JJhVQyhZF8&hNl8FG-{I!PqM8Ry
zqdq--pyz>;kuhu#ziqoCstNG?{Waj?W$xNlbzjP~ydoXqMb(Y>?Nz6_BNF6=V)5Fa
zZs<SQeH}Y3mU&J8q4)cJes<<-VZl@7P@rV2{_5=>LCIb1^BjS>;`B?fnrZG)wYSZt
z$|(=yo`&s%P3`oG#uwV<4^-LfMg>VU=AHz4<rSJn)wR%*C;Idd;liF`4*uaQAtIH;
zkp-Y;ETExB)-AWaZ;?lO!ElmZK~JlfoqB_4`dA9*>MPaHiLDEdViI+fMxj+MYpVR*
zFpnaQZyU_1-3&Ks*-0Pyw1`BpI9XNntqVhSa(+JNhExHxAGNON7uKfy@_9iKNq>F<
zt&tz1R+Xt5gMRZx>csky<A{b_G2UbS3C^Y1S^rANXV^G3AxyJlx##Q2*U9=ym|1|+
zl0lld!SDp?`jA>;Ds@fe;n~ueYT~{l!^bq<RfBI5K?JTp#!R6rt&}lunn+fSKI_aF
zes8*hmw~_)*AoSt!Rg)=$pm|~p%0NJg>W<aO!DJ1IlHeP!Aw{2Qi%(DtH;(Q!{BIv
z=8^r$d;d;=z^)y^c4mDNr|bH=z_S419|V}#o_~Z%Y{*jDd53rcfx1kRSFFVPZ0j7v
zIJJi%r_PhB;g@V<m3)gvfF=6HVaF)^#gLOZ_BrMh(rZHBj#d70iopTCqVW^izV%~R
zyi7}1!elX<M<Ds6Y&qaacSJe3>SUx`0sz1|dDM^!uw!EgQrn7(Bzi@|qR#fP?D=|a
zYf@DF4A-_k56PK&TFD=DKgyJsV>#0CTm_yrRQb0Ha}I934$%nBYr`aDxG#WZ`&HWt
zs|Sfkz!<Q!%x}^m>SD0V)$&wVfY&+j;t1GZ<?UFT{z9eSZaB4$F<{m$8m8urSl)-5
zNYsf%#H44C1*<1JRMJ(<XWs6FUK9@?0*KbPSFmY!3m{W<9*_kacBzFR0J%b%EE%Ew
zb1DcK7O~9Ozr3O$eX2Qf+@0`m&4Qw<)u6}B5w@v?{5#ewCJ}Q?fGu&zXJ$fdGQ4PK
zV(^rdvZ}5Jp|hpN$C<jSI{L#v9(Rz^VV!Y^n9gjhp3|G8>tk@ddiFY`NK_s|AaqNb
zelU@<L}Fu6p~i^K)IaZL5^e6|KTBo$qz$4vl)Gr!CJupEovo*qfK4732P6yC8c1$!
zJ399+lXhE)N<YIspON7#&leX2UHU&DLFDf4Q1XSB7ZOC`+iRzmjm_yJ1{`hzcTA=3
z&#Z{`>@VQp6xuz)WPq$5h>$~e)P1pH)PrO%#%Rzp__I_ojg1`R4$*X0PlVcWt`yQ|
zEJ6nD4+!shqStpJiR$UC;6hOgfgottHg@Y>T(;T?ar_KHol@{%NghO8+7`W`j+<g9
zWR!AKTsa7xHBWd<d2;VFAy!MdM<cY(>QzI4`azFaaXwva#9Xk_VMHK22I4?R&fhCa
zhre8%;=e&Po{yP9WNc?p9bsx)%LQXMbzEC4uR1%qV9w0SXAP@s@&8ncS}+!3w~QeC
zoLK+A6SI)7@91S0EQR<S>VLEfp^#u%G|BO!)oO<yt?rNoTXs2VMe)fNa}@1$j3?ZI
zjw_*H?>pgWM66;;H4zh>1cPdDxJCX!!F@x{5#E?m5RC0f1OSRUkI_j!x57b-x*6%Z
z*0<5aWga}>XA6IEhC3f391MxYZ~zJO8=%n3Yq_=#V~5MMa7LWWY3mAdImg`Y6%Aj{
zjS>V8=s@V$T~p>rv#!)R+0RZ4UUGxT)NF#3&$*Ru0U4LbMg7L`o@ZzHwuFnpuBEg~
zA5hmhANb+X&k~}xaYPEi2amT&{M;QjM_9)SH!`uEh+ErM=s+3S0k4k01Ggc{&vQzy
zz<vakEX(qNnkH`ff)z~Ko->Ll%U)M%|C)$nAi4`{fuMo4!mj^sQ&b<KlUK`#fsv;3
zi4_#U`ye{`m=p2NQvShjaHv|YUnnRleupH<^0E&!<WT>=yFmyPX~1YMgp2>je&KFt
z2qI?Ge4CvWW;+TJgJt#X$uCqTs`njiy1;IeJeH&#9hYwX%{Cq}Du(hBJ*2kH4Za-3
zF78KLZ4^w=o9ea=meo%1QZ8u6;BM4OxwkjgE-q*prw&1qMXfLJa7o>=k(hB`g1oMU
zc3+2oQYm=cw(XSR+Y}A8pE==0QS_cU*|Eqj38Z`G_~M<UB3T*OiJfFZ4;oLcv;E-G
zPn(=riaUL_W#-x$%fmoWs~t#_EPYx)A;x`DkQkpTUiFBQIi({#SWZHJuDNgY9*Q3S
z51eKBA{>qJjYPy?;HF2iQ96nD#c`$c_N*Tg!^pb6!X%2?+(W@7z5hoVdmW~e%-^fW
zpMQ3T4BytJc1{++Igczx?b@?r(xx4ZV9Q3!{Lt$q57L}I<c(6GdL?!W=?XL<LzStn
z&HjafmVC;;L@|wgBn2#nTUX6N7fbs1ALJVTK`!Hi;N%gvE^?e6^M<9T5l0%pCRmn`
z%_W3*B5n*khTSg)md1bme_fmrbnR?|{-EUgftJr{za#uV46^r92!!y-K3;K^t*Gy?
z)P`$oa>;_{OkL)b!_5*};gEwAPi%wd);!HBbApcaK`r$X+QM6X$n<UPJ?5j4Xmr|K
zvmKyvzHJ;RdO2PTXZfNsj{{`uiK5i1@-a!)VG!%1P4T`fjd&PndFTGneZ(E&d}zHl
zB-S`}4Z>v%?~(2IgYB}QNTPMfEb3^Mmi|Us33u$E?DaqJ%o6v*r1FcS65YM(Sl%Dr
zSBeZe?E(8;vQAU9K&o~8-BeH7?HcQQf;<u0RnQdDbXY=$X!PB17|~Ai|5hG5Ch4-k
z2%=4QpbdBGg;Tp3e*G<~9<`T&OSg0dn=Nd8#hysa{tw^vfuR7=)=pDJ)%5aAKj4r1
z17pMWit(Gqz8#j0Ug<NRS23HB7??liywCBo`<CZF@9+~R*faC%w!EOebx5a9)Pi39
zd3P8#I&9eGa&_;3r;@OSB-U*h`W4V9OQ}^0vRnk$9wk|nItd<f=#9KDHZbL5|6~9@
zqBzN!ZH(V+k7<vaA!s8836{7K7>iDSnmOc!fCq|d3C;~HbO=IhA{G?uLNOgv%qFK9
zQ?cdpBV$EO!vtMA;U20CFOZ{Pj|n{xRLd}&AFq&@&{!mR?9kY`o9k@yBVfT5qDWmL
z(;BL|IIjgawCldkghBv4Z-jao50yk68ow^uB&Wpw6?6|5TY77>7}vT7=qZrk`2d`F
zBF_)jJ{kap3vqd1q5hb7sW({2q4j^{$KJDjVFp)gg-#ZyUSba=(MpI!?qi?W^)Q0n
zyBZYFTb9QBz^F4>FjbC|_NcM+6O3#DIxV=+A<KWfOv%`F)yqb~`~bG3gJ7&Kg=-5{
z%Bzf*x6n)g*=o_eCHT8&!C_G%RIsByJgYJQKS3iRxnxuXBr?Jzhp`Ew<^*pRf?`hk
zD3HiG^?&Sg48VD|d(MWK&q*H+Q8~vo3=~NoV~+UxNp<gGX$!`F5X}Mhl`=5#FM)bC
zB38u60MSc7aOM0zRm8-HOATaqKg;iNwK(SraXGi%>=kK_NKs!`K{e-ercRyzFhq_^
zr0BdP38ut(zg>guQ?Rc`oMb768zkgB4s}~(c+ALz6LB6%z5<pbOuGz^M4AqRPY+|3
z({3G`Ui0hMHXmDvdKn~^SRD$xCfYb>tEpa-Kj!Il5OfO)y&zJj@R+6&(Y=p1qsno?
z9`w%<^C*#tlcDh#Vcrlx8NCl6@`dQu;D5)$ge78xu}`8mjS?6~iO)ah^@GQYQf)vf
z$I**{L;=dIq_QVQQ$CuLOj<2PM?W^e_MZ)K{yq#~&A@E%&?TsKB*aS7<;D?4yGH$3
zlv$eQsMn=&*yeTch0PN=iP;HsF3Ce01Q+myWSTeH(*L0Np_>X*{D&5J3^9-%XNz&X
zx|dye%Xxzq_9VGux<NKySML9XhO4#FtJ`^7jLreyEC0GUYhWHXDyA(~#mfEDBQ(AU
z)~}780t+Ykf5Jkw{9q1~LK*(@;-yDnj^D`M-3IX53+td$BMdFuA{ct~T*lQ{LXS#j
zu5mXen-t6~52zFd^k4Ai<rrO8JQ#X<zl^Uj3(W{<ifyzh0(UA~hvI%PlhAQ@XqY(S
zwUzTgE#arfV;J#AoyL5^T+WUEQ>PY&hk{}J9LW##8qWTIbl^Q;nepPm`1r*cre22?
znP?OCBl2}Y{kR$Yul}DKKP){!)TtZlsl;^8!Ko)fyUl_52L59^bsRsogYjcK=b(Mb
zuzZRyrVXh>p`;7ZhUZkpOB-d$sY~vEWVK1%gFe!#?FR`Wi9fleOe^MmDMyC4B#w5X
zcBY(0f@$ITMh&g<^#7=w+Fpt<D_h(Gf;-bG0{v7E|6V8b>^Gz?$0Mm`HJdm><TkDd
zMlWi(HW;4Abuw;`Ur+X!45W^1n>4Ul5bjdDE<^m9YO|>62^ub<eT2txWcV8AYoINz
z&ff&x#ISC;V?eA=+ZG9gUVmTO`?WvB@$<UhDue^8c<W*waOPczTLjHOpb@gn=^4CU
z6N~W?8=(>7kFd=eTi2-|QGJdd*nU%Vj{o1%`anftmEToDHd)@WYY4H+K7&Qo<Px^V
z6czqD*m|TN`1Ur;+Ha6Q3hQ&i(u{va5cpzdAC-U&xhD$jUjd_E&lymMZ3|R}?!{66
zyX<;KYK_XSeNX;F9^c?qn0Wfv;7masK{qzGp6^ePQpX2;4JoeiDg8r)T#(}6Yo=Pr
za!y`G@33X(4yR-5?)8{m-)UF-CfM1!z&}Li@G6U6H+33p>qW(>%2PNuauuh+_z*gJ
zPN>qu`Dd){ByDfH`ChwnjF!DR6?$b*;~N=U8K+I%bX{F%1UWL6sRt9MS>{|qR~Mo-
z0V8q+Y2SEZ6r7GqW*~9Uev1rBE#UvT`9NahW{R#eWXQTYFSrpDoZ~K<jxsHZo49<-
zX$NfE)<chsIHJ=mLQPk<r4g=3b(|@YVK@kW?Tmp8@Q3b>w~T^!Bj{RzdWc%94{+mp
znywfEt{+|$BJGM#vq%wi_3l~iAt}2q(39)yeB(C6qw08#?v_#=m`n%PUbTr0T%yZX
z=`$^1o!uc?p}~z6$hvMk{@VqKC3Bi(r{*X(>3c^&4c|0tbK{q4**0uQi=WHEl#K`Y
z#q%Gd6z2J0UDm(FG&C-UI$stnwpj%J1bpJelt@L0Y1kO!bar(oo=<-144aY~NcS*3
z<wB;e74_XrS#(U(SO#GH{J0e&HJX6wJ)!<50O%1E`Id?w0qEr^bt}v@)q8rj-q=i0
zAi1tV$JEt%gPx$g9ksG_l^MmF><ys-NxkHVX}~(*m3?*jCZBDyyiQDD&S4(PTx-8r
z?&YOs06nggG5C;e;DgC^ufQl%9mzC0epsce<p}#-9hJ#$1L!6v`AOYxantKt_VA_3
z=;yx$%>cCvJ0z0xsK3EDb9}ymWHq(pCi6k=emeTLa_wA-B#}nX`x3E`e7(A^(tO&}
zQcVfB<&bm9Owpm>qSh1wK&{b4EgO6?bW3TDh8VsLIKKa3n?nrNl{cqnVvTMqxUlx+
z+xC5S7-`&QJ3I{jHHiF+?z_hE!j0x|aRYr1_S@W;LY#s%z0R?AmcW3X^6t_A&Q-Gd
zA;C5`QU-xX7b4aH>^c3t_-9N7TWsft-w@&Q<__UD%7DYw#s=eH<wwnIxQYRo%Sy~X
zASDhiTMl8Of1g&pJdeQaPwe)`XR_=Rm&6_#6~#j4>Q}7E*9TjFwr+i2z}v)>7?Km~
z^sJz09i_1ka*et#F+?)ma&28^((gW*8%k*YT?qqx@V0OL=*d6kCa<I>xFN>4EJHaG
z+cCZZsZ2ZWCudhLx|jTG5aw|qkL$TW#Vl`=M4dWL6rHd0SpE~+a`POOIkdr+r;`n<
zx!o^Y=Thi@p(bYM^lst&0u^&0ukOcmBqJF&G+a2GSM+kRfa69uqs0jg^g`<sD;c5=
z0uC!gsE#jn#+o_Bh4xQA&1N*DWbr2_IV7=;tpZp$Eoy`Sn&Pv`VfkTJN7v)^sn7;t
zLY`zVwC;i@Q|9W+GG>tYO?{q|GxJw=xW!!CS7@B?E=FZ1MU;r;v^rCYr#YG3$CLfV
zkaEouV-bl1#w*2IAX2w;cNX7{q_bP-(D<y9kda9uebA)E>A6RQS2TboB$`0c$x^Pw
z{uVhBWPItTiT6*V$wWFmf>g(Sv&Hqeax;#MoVl}oIk6Hft=cYS0A1~bqSL*$`x=|A
z%UTIh<6_NN=I84eDgW=6d7ZI<ns$qEBPHkVyQ|Kd<;_=*XJLu%c@Yd}E)e6i8OEv}
zmU(P6uJW@{4Z>h7j>)Z91b!G-;uRBo9E0XgHCbO>9}f)3KA-gnXGFN82JJOHx5b>+
zIdzi?DS35KRriy1Wn*)dUbV+ju_*@*y_X0git(oT$<N<Gx?|0!JyosOiDCSu#o0uz
zI0VqWn>#c}tINS(|CT{m`wQ%kUGfQt{5S0}Hm}A=)xD)Kn<7)E*k);G0~Arxd$%00
zMQs^nXgyo^`5S|04Xn^>Y!BdS!w-h(cz#i_yvm_3)<PA9uOwA1MSkc}uX6}<L~|t{
zIbOc5{mh<G;GKsp*6LRV2YjV+N6Hm&7LeEhGclJyC{l{=edEZnysw<@yVARnP|4MZ
zli@lfRvWe+;9$E=udeOT1Xrc(;?fSZDB0KJ_!)tY8Kt#Jb2aU&mrCnwSEZn5Lew&(
zTmhB1S%ON@r3aHq<-jP3-@%Da$Szb#!Y&m@z^6SN*DMUW9(mC}aE0UWvApM}mQ>HD
zHc5(vS;O~G_^FG?y$|By4BDSgZ@rZ$qqioosSMLlE2@3$gQ!tZvkE$uq#>#eRRSxv
zGC?g>8tHusAF12d%#|$n*6`9iqNR5sSaTn{38=FCf-f`u=ZDrZ1SspO_=J*7ugeoT
zWVWFbMQkq>Mnm4PUW(?bjLU{4eeH;13QNR2J>cvNB2vcO7DTSTWlOjydn9sqU+NZ_
z+Pp%l5{Fe6cW4DNd!Wq}KWq7US_5<vU6x4VoLi+K%BTt?m2)0Pk@Pa$sGnTIowlW4
zVd)B-K2om=WVLUsq!766eohW;tH&7q@BB`OSBhsFB1w}ULMrJ6vncjZClW2ofY`X4
zKTaUT9Ytq@Qe59+v_-~T^l2wYmdy;K6}{4KE2>bvM|p;}Zw062)X*F2Hn+2;0Jb5~
zkYUhZqxMA2TOP}+FClgB!sOH$*BY|?{bBTW=;K-L=51DO-p6#=1qF&94S4cP?_v|8
zeJy54qFZ9A5ODO&V=bY%X;4aOXn!5;A6dGA`S6#QZpwO8;}>ZWv+bH2VE2$6*UnNV
zy!(y3-M1wqb7>XK-JR0&Nou-9XN#aMz_}fu;D8s<pGdP&ogk;Q+EEduZn$(gYVVSb
zle1BE)VGYf2~6>E+9>SqA8Bf`ZQ;wM>F-*CiYHG>X*wAf)lx)@k6<O?i3M#Hrrw7;
zFyaRX3S;`uxmmum21oI1JZiZ#AtVisv{l;b6)K4$o%EEc;$lE{!aGZb8XdC?)``dR
z-2~ru?o<oj^P=PUlmg0kvL*H)8AJT+Hm)0q?&-^MD6gd6;c$}AqfG@U4r`4c1^_L)
z5c+ivt^)d}L}6Ch0NlvdYknHnChN;T%XSC<M)O>NQAMCWAlQUnJ!rPp>50e3FXOTk
z3XCbN9twg@r#`9F-&h|V-WNfiTxr_1n+9!n$NCJY>Vc$bQumjBnBok$o}(fngr1I~
z7=(eirSzg@oQY$P@l}t9-AZTwhZkT!CM4o%d(A4+WAXE!bo(`u+aaxcVi${fZdtq|
zx{p^2NbP2FF|}2p#$>a8)4oh#*7b?2?77seM8d4kZmY%K!0A~zN`7F$jQ?w^y*@!4
zUEoy*PZ9T*&FRg+WVdM~Q53Q_Z9M9MYqU$*l=YzK(V9gmW!(|lnG0s6%{Y$8$&Gy8
zQ;qHADT(Ot(ih4yf_j{z;}Shy%*@t$Qzo<@@1_vgI-Naq@5eSvbjiE=oM|Q%VC=oB
zgGWD8hV9-9^$AnkgQLgTOUYC}OcTC$4H|pO8y=wlFQ+x%HsO1Zz4haiCmW8{%N^4;
z0cqFf_>c~sw*;enn^Q55gXlN>dU6mu*w+Gr%$C?q0JI0pQu8_RKlGnI89f`HsxB1&
z837bv!0+{SH{SBry!E=?Wy(CL;wG4&@VVvta}Ng3Q5iQ$4*^B6yS`*27Hmn17ln|$
zcaiP8h!2Y2U(WmvWuLPV`6fFvn2Xa;lSX4c^gGtET&5i0lPbp`Ce*mjT438>u@s->
zFGo)TeW)dH7gmEjdhE0)1-#eK>tFpJv|Q%Nw=U=Ix}volJLFC|5VbkYku%yRkJr*k
zl&fH;IbaRq&ixv)<$r3@xc6KPr9`146r<^OvwQ&rNnpZ-FhSMvoxFbFXWJ!G!V{C+
zPFa0PTnTecc}HuIgZe>_HVI?U(3DqtU`{WHC}ZzZnxa(S5s_f|*e-9zCaMIKNa}o?
zrWa2<U{4BAX)Gu+TIICtfRbHD`dYf(O^<v6iGLqE_A0uGjchllC=D(D5QG8I_2!yw
zP}R3!J%$fniNH7&ArWoW+IVxZH=V2~*|aw-fh%^&EjWy9U}-Y>I{8Ld_w3!BN?l*s
zN?nBJsjnfprMQa4uFvMFUJmM+BF(KnrWF4!7~tdXw#qi?b_OkV8m^U_pRWs<s%H!L
z-Z^L}#9v45SDEsae4O4K%zd;^60s@S&V_T8bg|-6bC}5zwS?tks}|9FleDUxd}6`G
zdAy&)nRd;w7dT79v2FbF>P$;IjcQp2r?qDg(=alXMj|4!9-Znq;mz&bQZUR-j5Pk@
zg!kq|vdglLkmYBa(XlXX==9EwH5h!_Aeb9Kwu=6?eNk#8CqRc6pl^H2$IAfdtaV+p
zr1@i&rT|xKam;zM7|39^;M5&uG?OsdG%~VLsub7#NiMvrUYlD|8E9JT{#RKr%2bXg
zfF)v{hN=m)c=4%f6r{D)b`8aG6}J9OOLP)G6!L_%Ux~-SDzy&SYTYB~R>7&)QaO_Z
z|0Z)%Y7UQ((ObV6?~N6^-dAe=g<^4a+B(<8?~dp6&cE+zNgu>sAQ@;+23b~5khd*p
zI|@MaOc8wV+w274I2lyii45MD+h1`A2-^W9BSGo0d8_Z5%pLh#VbV$~q(z;|;<aYk
z*jLw%FUY<Tq0mx8K$bnUJgC)5Jl0#3`V$Ii+F?OM)A>~r3geL{MmFQl?r$>gI1?O_
zg>D?}6|<sG9Fv346G3NrUdi?;t)VlefDq(!5NDB-;*-B|lD0etl{d)~Ae~J{(VX{=
zl*m8y?5)TeF3AOk^<!71&`(;MgTr?SL~x?E=`0Q(^bYQmni(Bb9C6KWB8k4Vp6SnI
z5S4spxsT-gPS$(z$1_#in=Tao@?8_F46dUoPXxQfOIG(_x7l}jXru%X%0|&_`Iua8
zSA$6^f{kT=h1*GMPwwPJx6I=0GQA(IF`>wUld?jE87%#3&(iDCd_-Gb2W$69CH1Il
z2FyZDl^v`c{tY+^+F4joojsqfQa#(PVB@8hl7POO0<uN}m5*-3Td$A{{bz+NK0m!e
zHF!}1wcXpIfMNpc^w0EMMzb!{uJ(66W?3F<{UagKc$Xh`vN@O2@|8SEb4hiC^g+$t
zp2}*ymob3+zMGRg{JbZN_Z`2**?z12h97OG$ov=JL??1dafAcu9Gi6KZw}cZPsSv2
z>UDvB-{&{N)l!Ug^Wi17qM=fPP8!ZaUzAkhkjMD$!y#V6(L(B8oBpjiN>qTrvJ2%u
z%20R4&rP`oW{FPu!LF>9<-;;oD)yr8YO54`x|kriQBW&F^#h9(iDb!8Y*?}n^DHjL
z2j-y=7awF20t3x9woyu?@<50{s0-;`3vrS!&R0-iiO?r;E79TNY$!#jt52FCPqr4?
z=6~*cywDsdK^!>7I>h>^a_z8di3uKPYO-OK`r1S$2o;<mv0R}ZY*Xiu2+zB91Y9+u
zcrH^k_4)S+Ok$AxRkw^}f~gy4yg-zifh>L-O{&6Pb;?^xL3Z#T!qgNkaP&3d!RkW~
z86DiFLSU|tY@rIWf0seYPzBNFlUqk@u3?(#nUVc^qzBqI3Au9&803SXw=XKZ{`n$!
zJp@2`WH`&xbOTD8u_ngdADy{=p6d(P;iLc5^_*_s96CH#rlu+f--BxU3Gpx;0(EzM
z4&Sy(S3Dx=c1T5rlcBdd0^6x2Aar-LVy8Msz<<W&DFH{Ua^s<+>I!DYgu+GosO0d|
zqnQ5XFg>}3OM=sgqw&MRMP55PbwXAZ&D@KPrHW8wLUxO1VJMk#{u8E3$~l(cYzcv#
zbUcQ>vW8ocKqG>NsazUpEW+X{nOYkJQ|V0MM7#uqLSvfw7#UNUOy<b!woSrNHiPna
zc+o1bBZGSu5m$xcZqGRFU?L-9vV~K3j^!F2)0L|w4py7uyC68N(yF519N;Fq=r)1Q
za6wZJgXx~i76#T$(C$$2BBU#U;%oa$byeiz4ROlr4}?RS1Khb%Om9w!BI3uDES#%v
z=__&w6AYAuhJW`WU)L@^A6;~X^Iu<1jpMan)AW8?;~oxa^~>P5RZ!=8_BGLfOaFv1
zTXGxy`0Avl?WINp#pO;-HFC4wYCJWi<vx8;a;q&^YSly>N!XPZpBwk@u2az<<1$?b
zp`vHzw$9;V+SjwI1=}INEW2&=b#V=tnvxois7@MbR{e4IKBkB=K8M!mp$>J@K+Y#n
zBOi;I90JRUiF)b=B8R4eSG0;4@1`C>4|~D7)g7BETlJSIqFtn?VT0M%q`-G9T%get
z(wI+Z&8xSBe2Y+TFXqH=4Y&30L+Pv|22xjutK`kEf6ve4=p-rFf8S4L6z<)t7J78P
zQ1}t!amFy6^?P&SMrX1}ds0kjvmc>=b)_37RQN#nd$D{ogS^3f-Kk&1?X7<G=uVju
zu1N)=+TC}}Avqg8IOi3<GmsMKJ*4b7dhpN9Yjzh+0%;H61#9$c{u+ug%(0r#XQZXh
zz7QkV33_7(h?#9DU5O;!ifOH{5SX;TsACL_pn%++OP;3$Hw9S?ix%SdyiXn}9riI=
z#Nqe!JfzLQy<FvTIeXC-p{;7bD8AgZ%A%I0sep5n`BJh08BmzK<Gu;#maPG`Q76}T
zEvkfNomJ`TexSeF>fj{j%X7RIVau8Ew<(B~CliWV_Jd|4A#3}f?h-bj-L{x{sX29T
z>w_Ad*9O11wYa);KLEC8p|!HO+MP+C(@qT<{VXP*BFu{VQOp-`^We8IoDhy88pKRl
zyz$EkzguHQHa&KtQ$!>*!`gm7xm0mi`TCt=Iam#6!<tym+kH~U#fQD3H8MqdAh*&@
z=au8|JG?{;fgahV0kY#kx?Gh;+_$Y8as0NM?4xtaqpHHS&8yWR6jb?Q#`meliOanX
zMcl9GWur4UdE#{$!j)mVu#fFkMQ*xm{36fUnGmVXpo^u`iSL2E^w9mgIIOFmWPEA)
zMVU|$dCcZ$pvL6gGwEfYDnDxb6Q0PI4_TIb!=3p{{qEWveBZA<+3-O^Dm&hte|Et<
zSECsu_P=d}(Ima>dz*lg%UB3{(F7d#4qofP@BMxt75gXWeC=wtJj)DeeGtY(E;iM>
zaToB~U1CY9h^M;hWP5U9ezj%&+z6QaWbE=p=2mM>kLmd!zOxqCS--!Z;hH2)RlPUi
z_WjoLZi#b6yBuZr{yYC`T(7LZdR6zm?R4?-Ih;D*2Hk!r4Jcp+vO{;L-hh;AMKB;8
zrp9t1`wa~)H(F8z?~3tJdt1;*XMesQ81Aw32B7i&GrqJ{OV6i>8|f$5O=1j^X?1V6
zsNPt1Z};%35H|}8r6|;!trw6Agu$>1J{~EWp30Wp_Od|vGc^5S$8Ld&^X>jEzr4`j
zYyi7E#|MKN>jA(Jujaz#`Gd2mzC+Iu;y8NwBEY-L+!Hc}!&`_><{AY}H=^@<|5;1a
zJwdkIcUNFnSo7%@3xd<6tjJF=z!LA&%0WPLf`fX1)x7!PKh@|2=MjCk$T=pLMLr^g
z!4x+g(lEx^-oqS~Hu7sS+fX#q3k`+&-X?RHs(eK0iUcICI=y|2)iTdSfokM<<<19o
zT4QJLfidLoi*Y!t_+9C3EH?j7yGb16G$u)N$VmFZj+kwCV5U`$A#n2J0Y582ha%8t
zbkZh}GB{d2k@0riOHb@5QPfJpFg2Y0WJJggmyL_=l|BYCPH|lNk>$AmN8=w?-U}m(
z=N1>5?pINAAbV0E0y3~<p=n@nJBH0zl@uMsAlfl&F0j61<{&})AwxXXCmPmvTQ0YT
zFzEE#fz=h}ClAN(`0*<9r%ii{X1|0)EM|N1asrqu#w1NPgh4}>cAed4LV5mGkn3Ng
zaN%&EQQ{#IbW$>i0!!+zvUUYvI2Z*hr}2q-1&ol28n6${vnZbYmIdH%al5=cglvl-
z^x5$)LQ6~`ATFYkE!R=lQd3W+Zln|yENw!Z`wF)*GX-YQclV|uP)Yt}83Hz06FCBQ
z^NQ%*Vrnod+?>ej|N17ZuLdD!3`5zW>8crY{X%>@Z=FTiy(ZMcA!y+at)*w(%T>Mp
zIESkHWxO+kLlx&O1Gk4;jXafhR`<|N(wx1EzwE73J{QmR&8L@NR4eWX?S%+VczZXz
zS}XT}q+Ft|u8e}K@1yg_mxFY1o`HBkXqm35!AtM|=A^=YOD)X!dBd`Ht_hj?D_R+9
zTQt4cNMEMvO8UG_T^oMV5malsVwyyg0=e|o+aV%W)M@Y;;xN(y+5kH}=0%_bgz)}y
z83=N~Bh0AKvO_S(T#8GxPzOsAca5b2_m?)DS#wqADH9ZX7!6=zgn*$P%LPT_8|Vcd
z<;ELoQ>(Gvmp>kOL<V6cz>&J%Xy_bv1`wU*pI_;gHI4|I*&9KlB)#dD<M_R=aW<|^
z`f#V{n%7^Ij7aG!V#xl-c1~G&RAZMH3mf&iVwb8gcS5*(Y%m)Hsqd@PCzGE{LE{@l
zL%021CYDn!!$;1MM!ciFI3nM}^L^`}b#VepKbTD$#Wvjn&tn?$ZnG{yLA<)Gsq{E<
zpy!jmMSXMbW>y6M@=opAXLF?N`P7FS5Pv38X=E^^`-GAEt4H6Pu?L<1G)I(}&Ka0j
z4}qI2l@aL$SUp^VKrp**J%>wIr^jqC8}lC%7`PE6sq}4APl>Ibj?tmqVY%-Y$iEC>
z-gf+PVg{n4D1G??7nzio!w^BvzPRe~=OPskpS8d51*!%$^{xP$v!a!<n5{Z_xBT*o
z?%;DOg^U2TFZzCuU^W~NM6}pNli#Jo3ySkC9iClq^01lOmfkb$2FHKz)S5KU4(%k@
zxT>3ZHdO1Wu%orLN>VdwrfP+;Z8)u!T1318Ep#NsLW*!jbx0%aw3ZlSXTXQ3><MY<
zZU4>zqzpR;tMbWjb;#tulXF;d2(06vN55#wv`{W>`j-Cg6?f`HHs{xIa(>G18UV%t
z1q&zfjRJ+6lPG7Bh`24zj~*4vPnFjR)dbS$<d?Ww3Vt}FrB#HxiXp=J-W~o4eF!C@
z2ctvxP`DK$G*rGjTA^9=_qXdyYj{=lE8Un5f20lb&5?y2j~Ju->t6KVa!#lF^c)t`
znHHo!eh(ER{MCisKZPnlxL1KKYvodf>|R+XCvU0_5wHwenc+M`g5|@Y!IzT{<~s}W
zv-epl%xf(`kg5&=Xt!4X9{`9zcfYqTQpL(kjL%nD;#I8dKkmh_MiT;5-s8FxoTkwN
zit9aIGEdChS*QGbSafLO`GBAhnxF`cT6NY6n#$$Fuz5wmXLGV^Q#~jSK~2^ARUE~(
zbJ*S<wl3m-0=dcW{|S-<c-obd%XWe=5Qb0RC=`OQEY?LYQd{U{Hz#7WQB06bZ2R_&
z!3zs%ag#G=4)gsp^AGTn4%6*eLy9R5wRjJ{hx5_*_$>op|H!BmbB<!o2NkQekc$+P
z2%^V*){Ay&4yr<-BrAc*ACfS*0*CEjF1X~iD0EcSLZXFU6Bj|Dq()%%!mPPOk_--@
zkN(|-r|xz|wp;3Yq!ahLnAq%rtSR(u)6!z_NM196i86B56fP#KOnp80hI|6u7==7W
z1*leB>L^#a3r;DLOr3bgcEXtz-5w|M$c!NaBkg`KsPbHu#@ZCvzbtlDT$=SCHGS=K
zhz{efRn@XA0GbH-R5`!GGk*PpY8%vMU2ILGqY0c7^1SBO9p-M&pJsV@n;8*qfU>ew
zg}>#6|Hcb9%K!p~SjRW^5mSSFWRujMkels!2Wk(fy=BKO`gZ5ED3xq(nt`1<cs-8E
zH_OR%^isaw-a}BRnm6Clp?h7tR|xwF#5;lZBKs>qAIC#Dc7OH<{g>6Yyal`1@n3of
z(+b*9xC(gMty<BNqB;<*`$qza;^U6v*1EgnTF&0P`<99tl@Wm<(Q*F%hJc#j0G*64
zluFL&&PlpE4U+j}dK~fS4?2z3<I~fB&m`dQ$uOfiXM~G<DyHJWCy1T098Z!JJB{Vn
ze@KCQ;t83G5l272%zw?&?KkWb&&%?3N%nM^r+&DmalD|*o#g0~!OuvroW=uwSn!M{
zlY+azv)7l|Vmy!kef&<)GR;|#W*p}<*)TjWt}o;9t&h@&>1cW^2<o>2Y2L%-99Arj
z_J!fz112pPyvfr;Cf!#k^#z9TOT;3lOUA7r^2!n*1YND{m;i!m609`T-%|P;<>E*T
z3RIMA)S?A)(bOIYNy&z1>Z(5X<gW$a@u`VRZJxg5coun(us8T<RBRFWa4gatvl)M+
z@qxj|_xWMHj!tku$eAD=bCBCqK|J(S#LMG(s~U4}GFHw&;*nY;U0oo=#Y{~HASztv
z>ApxOwz#^8O)`dA9wnmOwCG09kRNgx5Xq{f;XTr_f><T0k+ET+2u)EaMBlhzjJA29
z7-Qj}pql>N>xMnN3#JJNL?C-3hHy}fE*ubJ3I_z$h4TS=Z>hfHfCyx7#1IaO(S-wI
zOyPi_x^O`|tVp(#M0ml1a_05OD%wPXTVXZLVE|<9o}oAlVu}aD)V0Iys8FK5#wl%3
z4~o|GgF=vllZJ*+kf|aRRo8I<i1{>)H6efqWN*Zf0gBOs7l^5A(1wx)w^!vovueUY
z$jOu;h6PO50}eAc6C7ts3GP=KM}N?%bd5E76yV^pJLwu+>r1+Z*E^DGd{-;tg(WUw
z8!DnBBk~>)I?Nc`k!YXAEdWG?$S=k!WuqjytU@;^EUvMV?UUH_AmCWPa(2%IC3G#3
zl0|I6aID$fr(BdoRup~BgE*2D_HG2e#*xrHBPv91m|9yebZ))8Udi?riLE!tSrL0g
zr3xZ)#+<2!29@k)7~NN7e^p)ubkxIZN4+3r{=&bDD=PM>x?CuSP|C_#80!Mcs^>5m
z^$JRT?k`}pYa80aVHoY!%3FChh0(s)teQNv!B}G`>*W*!<4vrzl?Q`vTG*o{bPa_5
z2alGzn9PP>3xE;d%y!S|+mGPT+Y<bGNCg{;v<zAv{!W$4{Q6U?C0UpapRszd(BZY}
zt^pDZZbNM7MyjhZFrv#*4%O#^reK6}i~F9H`{yXWxBEubQ3qbH{}}Nsrte?mooDeL
zv!;jA>%ACMV~fv~CErG<OLA%v%C}qRDlfST<->*Ys>#n}IkwX%u-Z)LOxvPS0M<xL
zvaS*#Q1fl42!bl27l{@@5LghSKDbJPq3)a2sAU4!E<IF*$kqQo@JWE(qV}y)!MT>U
zh%$f@UP|fkwlLp`Yp^QkThWExj}hi9%Nqp5%Q#IK9;vJPT+t5OX;r<H;owRQ4mqu$
zHRyQ<x|*clniw|{pk`8W6eiBAWTU{u#()`Sa3kNrM&#M*dYrN`@x#VM{aui)F#>#1
zsxNcc9MZrv*S|R$x~4h;dui4u`dYY|q8-8OpVO*K_%7PXukqmK`{FZ4_J$O3FV0$?
zSazRBE_(*9?+TE4jqPYh?bJ&&=z0&nnx+i)KGb&RYuMXD7h0#Dqe0Mn@YMv}z+U&+
z&V2isvv@13Q-9K+=RNppdPbi+u{KWq#jz1-nE4&(Y7^hV|6+y-o~&3RCQZlo<vttA
zk}M(`k6+o?XRjastqlIW?Sl@dL7BS{*0f1n8;%Aa@4<I=@qgqihhyV7*9Umoy;*CM
znlKcd{v&w_e5{XdZCC5Kc6X;=GKf*r1;U1~kAGi?h$x`B!RZ$lXURFa=bqe~M6{R<
zXK&L4&G;}OPv*yPGya%9J|H9cjGQfwFe834<AXkO?uu`k9eOVqz3(u?$Pc_U!M%Zl
zz9511JmXDR7Fpwn+p)(I5^eK0%=@p4Uvs+qZs|zVVn%%wdOoANHOXJiVKP)JAAzm8
z_!Q3vu58v8Y9=cue&ie2NHdq8G0u>@a6r>&t?2>}<u3&IHjw5XGE4(b;u5rfRbC5e
zdJa`;ta}OKDO=GENp=N{4VznU$vncvyqq;fVrB)BBQqi6o@_8D;XXbi!tcfCtAovo
zSu~!7m6Lm6qB36hX_W8|07g)Rkz{G%DhOs02ZW;yWr&1vpaNl4R8XBpzp8{PNPX=p
zptz-^#o(2UpWLG#r*us=1hXtV48Nu%n+y(P{wd&O3W#QTzK>&$vSlLvAx1vu1Gn>+
z2m1cgNP9bEy{437ms7;)3yzY-l?9~fMTo-k*|c@!Ea_5=J)#Uo=tgvB<>NmPKINI8
zGrT6g$FUUQrL^itQ|zhn>)-imya;}eejwAQ4BKnG@v?GgkBYy=_XECcK{HR8vW8S|
z4N{m+%t*u=K`)Ejpwpf(=}Fk%JycV{)FPHiIA(pGuam^dpFK{QGbtX-2!HSjC7>6a
z)^Z`B+bZC7@T!LPS?lT|q}Il4WXzTy&<KmUd+2ECrn1r^?;gP#icj%;;B~>gZn<>9
zWKz3<(k|1K-^4K*aAzYFJu&Si%V;pmxXZ)drjuPfxLs-`7nr;VPN|8aI~3g(%tsYM
zJTLMvN?pdEy;8>8)H5AeavJQZ>LNpGGklEqRtwSqEy&Y)b7?6WKq>3JK~+gpMoDd$
zZ)0z09kbJs?V6e<w6LAF1vMcp86nMzkhk)r1@unkjM*jLzVgZTTKf9XfR3Ve3CNa8
zU{ehPZlGH)1<v||TkQ{0ysiDg21;6Qe`=aK@JMUfl#kK@TJn_Xk|iCWes<Z(4=L-S
zqAPP&DT~;o&6GZk-Z10lH%3E=+q|*4$zH5X0U+(Ue=ce3LVI7SZ60zLT}N<to?SM;
z{5b~mT|23_Qr*ErYuZ!D6F$NT+ZKsD>61c~4epUA{G(9M&fBd#8(_`#QQex2SMie2
z)isx6Pr^93#chG7dh4jxX;;8~X8ja)sdD*Jw*vKwp(fp0imjd~dB0)sZyr#FjZ`N)
zy=Ra|-%9P^nl2O6GP0B6%k1Qn1P{HKr>s-IB2s)!Hwi$#f0YAi`^`$s2zc7XSY4N*
zI1oMik3_(aN40g<U3EO#&c{<ugrKyLU<lpz{`!Sr&!E#vg__-d@gSPq+*`@5N|DuK
zw0QoOw#Y&))F=(VI;T-EKFz<ZiJiW3$ES++5*cz8^4&rW`^2&*A&dNU!#RzaUyj=?
z4{P!Ax1F{2#64z0vAz;Si38(l?@>JJho7%n!!7xPoUx(MJz`lU^a24)HSqKNT}XCH
zWRBD(&NzQ^62=bYztax6H^3#GIg7VU_QI5CS@f`Pbt_!mpk7RCwKUl;G|HG>(>rvA
z4+IaSxq=X`hr2pDQ$5yl%b}m;0}E&tsRD865LeIB9;D+&0n2CjE%=|*$KuaE7T;O3
zIQ-BRxFZn>{-I0gE~(nDS%O}~&7;&!s7y<@a>)5y<<A}B7C$g|sXz5|?OavsbBNU{
zW*df_%GXBAFY&a|1AJ^+VzA@Waywo{n}@%M;|a;Sp5V_+DrX`^tOvML?z7X_3Gx>e
z42VQs(k)2M!ZJ+#n=0L(u_{!T^ol7*G*uXttly~8(}gw`Ser}#zpsx4*Qa0Tqi4nl
z)Ha||0IrqHyxK6g4QYImB1<qdY*?IcgxU7uq@S};A&thzHak{kg^8m#YvD?D%Gid=
z=tGH7#sPDvXmpQ(17}cmg{JFwO(Od%gyn=j<B9~5?&AExvZuxO$@!}t#Oi+ma?*tI
z3KA?N?vL=_i->Eur{>g?0uz%C9MICqbI#OW_#+xc7}#!2gi5s<czM@Qz&r$uW0>>|
z)8L!4G{x(Klrwb4zQHcA3l=LDuv|EgVW<phsOSKF$EL-}4Q}=>FMz$g{(Z~j8u+e!
z<=@?r{?yNBjF}O}{S0;!<gQwdVU;*ao!MaZc`5dPx_OOmB~o}KF5IN;YPY*MRX~^P
zT$$3aciZWpJFfFqJ>m?98tm|^>ZmE?*5IUKvfY1*Q%!bTLvMY|k_crGUJbJ!w>b=e
z38M}6s^>#2Zy+T_qkuR2<&CB(B&#7-9;!i_hC7bM0aA0(1$O|7R{qMvqQH|!WzWM?
zM*vr?rZ$EU+JR(yp}5<`&PcXjdo^(N_7Fb9NO%VfpS=;EtE31g6N1P{Mp0zKCS>0F
zLvS)rb*^LSnIn;A5@l~sMtrXOIdDP;NOVSm<63D4b2gQ>4xCL?7oPT+PVPRq^b?sg
zYE<aQpba+>awY_-3l<v@y6n!t>F~Nni54or5aH&LsWdg<R0QPYOnHDyZNe<+yxTE>
zb4qGBm0@QnFG$SeQ|Xz&xg2Y_=p2AOHAnNb^RpiV=OQ6{ZBCVk>hwsnz4l&T22Lr3
zP+C#GL)moNpk}LH#Nm7t$f#HJW#IcLM^NVHr*bcb6UsmrtQAWbMfpKy&S%r4sD1|W
zQJF+t7+)YB`iQ&LpFnj^4uZZUoD2`p_2nKOpI1<PHaw*P$`by87|+*z*szoIFH|kH
z^qDpP2YA}mS#5WsI21nnj|dQ7K8mGXcO93bold{yM7U~N2$+Oc=htrnI^zpeOKs11
zdKv;I&%Muclbef@@nH1wP2Q2dbcen1e?hwV8`}h-Or#-6Xed&9q`Ves519f%<F?GF
zGNXJjQs%EOVfhqH{c-&L<{#pQsQ@R<Bo>s<0gp}l<okWeez>dt%wK(bm=H&<`Cr5s
zel!5{;CYh1{_Et{g5YJIDsW&`K-YSN(0%$0e4+%<M7!q@<nBE2R|;7)%Ya9O#_^zZ
z^w0%lWjPO3P8CErpiD?J&O<|DtF?Q-&R~0wmBGgSG)buMn<sy|`<)R@AnJ+vl~Qmc
zswlo?5J%U{p#4Avqg-7p2UukSSw$EgXq>|}^KgCLTq%Lh95@ITN@U-ay?_d1=*rm?
zS+=0!r8z&?>TVF{^1A5!Sb%^)K*T~l?pnhWvl%FsKxeq={5f%{DLGtIn{;SIGkuk<
z8H@F`bz59E^E?y~EMpdygWZ8{s+Do6Qli__4V&f){M$Q=jE6}7Tf}n^@u!-+gTIvg
zcoW6>baLOindGdsBv?OBL+1rT=K;d=xcHvUjN_xesroRfnUztsXlGPN#&reZb%`73
zC&*@!BxyvXTE}2{(=AdJMpuTE6O(v<_bd;;cZ#$~lUb<ItY4GPp0XKyQbeSeDVK^+
zG0zj=>fCvFY3|C=FOSkbJ79KKr&Voe0h0ZMXme`xHs;H{J|);p0locATl7&|>6A>U
zB-~Vx#^J*HW0l#HiyRLkFx8J|lTOjq%Nplg(ANutb_?eT<?DK2*Sxm8iR@0w7aNV-
z9dMPJTj>enBa7)<VgO{l0nAFrPWnEmNn>rjNM1lF_g19k;qGp7F0#J!NT)V4%6Dh_
z<E<O@j{IH^XNXz6;~g)D(u&@M9~2bt2-@><@?=+uT4U!EbZu{R?Mxt^nIdFYRGmF8
zP1mWUi@usJp5z&bJ+3xsv<VN7FMM=-waU}$O*4h0z0;aLA#y0IR<%k}`^zQm3td9(
zN$NC{6bGgtD`<9#uBibKhu4B2hv-fCv!%4pmD2fYDO;K_2)?JK`!TZ4xn%Jrw|v3s
zm0%rlLAy5)v&1~Fvini9?p~%*MDLWd&3r;ATbodJO<pa&GT4hIx#W4(+3vt1@3<Mj
z^XHpsM@(ih-IN(JtQNL7JKvc<D~{c$DSEd6zZU>?(9jeb--$HO-U(X>cy97Lj_2i2
z55hNVtilfPu?q91u-h-$-wAwLh<)HAfiH=BATetSeYl2?oW3mbf!oiGm)y?&ICA-N
zs0Z%;Jn{RDp7v%YcfuqyZ;Xo3*k6vpw_#cNqs`@w)!6zUFZFS)(<iV8c-pmCYjc`F
z6rKJfmxtiT_~_I&u_;N@e%o2$YPNx0++7mwukW%DK??><oXiju?m73|Cy0aj;`v5C
z<As_?=lUx6e#;-fxE4kz6+FZV2?e)onxqRg9%ApBDi9?0WVVzkVe^H`|0WVPe{Pqv
zApSZ1ik*-Puz4z7LD(AHAV2<@%_frma<-GzY<u%?hi$oIpK!34X#O1G_?jQn6)2j3
zCU&rYU49y+L`cAd?FQPP65zMQg&W5puDKhbh{}*>f~+CZaK2V|n_n1bs}%^N3|Uuf
zH-(rcxk6OY;OO<s!I&7rW`CWCD59Y(Jp4={j-(v}>v6l2Q}npsOCVW-kUdO%DlsIf
z+V!&0Zs8<T?KbsHSyiTN1~0vhoV==fTlo?cKFhMob73k`OC_1Wc=_Fwtu=;+T@xVP
zCkBC$1fp{>>;fZWbrc()N|1|@V~lTjL|0T70<r~cGAf{+<F>}whok1sunG(E3y*lJ
zC}$+z2k3VWw!VG3<1gRrZ19NPO~w_B6vv7`0h7TA>4n-N0r&jg++SIar}+I8-UAVo
zFm)-Cecbk;>cG^c793o;ZgNqKF4xSd;`~iGKNXazCcM*H8@xZo)l@sR34NCTRa_4=
z9DtrFLJry+DKMQ>j=Ex(HEuIAoQFyfs-ze4IEGLmYt9s(=lf7`G16Xhyr1E1to1SE
z9?ScW)(vCMz@3<*Ij@0tn=r^O#QiL0i%HI?H94n&>$zz}J~u-Mzhyfw;g@&!!|7c{
zha2pYIOd_d<XedBG2b>jZmFGfze{0O1iYb75#Y<a;lMT(&P*S=J93Qix@wG1CXpUK
zoU3{%3`|ac<hL9o7PU9QkIOXy`hX^|!z3MPRf>{$wy|JS!|qtBuK{{Tg+8^g*=t}$
zYnqG@e6)u8^|jS==eOW{5v)iSD{or<FF%(o_6KFf6kDE_@1l4P%FnUBQ1Uo$sPS%!
zN7#-vXC6iKGV@>S&0(-rC&~JYvb7ky(%|;c&?nQwH*jn1cy7&Jbt~CXQL>HWyt|&0
za-7Rd7u@5$u`T1PM0W|5X-szcd4=3%z3SISR0`WKSHFF^b{$v^u;<nQ!R@cb9haG&
zpNC7du1sJ2P^RNO+02zRa~b6&P~(HT#xrqpQh=uq!t$b`dP+Fi>6a93Jdc2>d8eHh
z1TfQkule_rOL3m2eC{<{>if6*NO|cuzq+l)R<>O)wuAB9o#bynN&ioQ4pjdD^2RK@
zi)We*c-qZcTX&l{5I*~l3<d*_apLy4n|NJ2?Y2)k0%T0Xtss(kfBlM!K{$Xla_W;8
z%*8X`%xFe)0km1&uAWzPMQ=0zU+wjFw|IT{zD3jQ5NYH!NzEknBkD(<GAYkcadR>^
z&|gTLRBuU<gM;8Q`iw&9XB@pBx#Shfz~C6zeuUEll!H}q$a1^5PqNI9BOnh|<)jD+
z-N&w=H4{wt4V!7LOoCGq(LKrh|A>n`5|Pw*5Kg^3WcM?U>yJ!DA_A`H+(OoZ-TIuy
zc~X&h>!)q}^7k~K?2-OEk14TejA;BsqRf1ZAIp>W)?{wCum%uzU8r<9>;S5wuyv!%
zNR+J|k8UDm`rXeq^;6<Xihx@Yu(;;Rq)>fJ)7+t#>uv*0{+K5Lxd`_8p$|`Y(>TeN
z3`j+@ReZ;;mIcgQV+tpE<j@>5ODoDc^`F_<l9IH3uDO_E{gY1ux4xs7i27|DhIp}<
zM&yOv{4>}^sIdp^xFuc@NF5Q3>Ot~ng)r-2&J^`?b;be%hgUa7D~I-YNJuHfJkF!;
zvS{ld&)!iGjT7V{r`L9h0r;!?MZX+ZagAy_AisaD?ZqbecJ~EoPMi|WXQCKcoTm=S
zbP^`?pf8H!*SBkQMf8mn`pot{zgWcreeQe9h$<$_4<vmih`z+gWzT5_Vo-pB2#U?L
z$T^W$kqu=ol^zV1?z3v=o}n@v74^kuHAK!T0TzHY11!YBV6L_yG*6><WuzAmNX@_%
zWuO<Nk16))KlU%;P(>}-AiLOUvdg*kC@0OWqv1}J%e3IK43nVb)GLuBuZ}#vAP=kF
z%-K%Sl0#bvaiY`aL6$P3;*@;Duq$>1InuJ%kR#2DCPSR`ZG$3C+t->1Q>)yXqLl0i
za|=h@B~*nuGD#7pG|f;`8;a8p^h9F}I^EFGCySfnL`p^U8%AZeP$;Xa0AXU4le2Bo
z#K|ouj$FU!T$ptZsA9%8UOV3TnYa#u&7(NK+WBzg1#HVsvGYXeAjco)+KkQM4pyeT
zGI#d0BJ(?RDSvZ?L*m|~-n(G1M$AGY_G4&Ykp6W`f?Zk0+#@4Pa1;^O*jB$<ajjH;
zxg&ue7IjcIDCIpTWsjOAU2RK=o^P1<QS7=H>#SHum19+Qj!R?0WA)A3Y|+^4l>Hk^
z%@q@!0-w*4T5BX$Z&i6xUzf)=XAX1XW!0*LyA6EjGNbolO<ADnP7p^&Q5pF3#`Xt_
z=<2WfZFwxuYvvG##k|8h{SI3$Opn(}tDj9!KP~TgqdSM*ILZtmRC>fQq(zutBcyvo
zyzh!Q+(hZeChD$gCyj19sn&gDSvJ;xc-z!25{>;Y{5n_mXmO7ggWcGaq3SLx7Ix-c
zab%pW@)CtPttXFvM(BYK_+v?K6@qt6%{8Z$q?@_oen?4&oZ_PjJnj%5U+R<D+I8e^
zhY|X57_l5j!YS)ot%p3gVGV{C?H9@<%makWD-KJz18oxG+!{=<V;uPn*FZ*TMVelc
zViW}lWm(LXH=s1jToiy%TInWD@c|4og~EJ_8ruP2G$;)BUI_rB17J=DBw(x=RHbFK
zBXG+ZP?!hoq%j!Agu<-IvxGK~ux}iCEbJB0u&<VTbDUdT6#X{TSlsJMfUz6^j9J0Z
zJs8CWpmg_600;pG=E+I{uy)YZ;TkRgj0aKabUX}3+e4M&Ue}7lsDkmy`@vXrs-n?(
znp)%na|)V`cRXxNiz!G8Zex_wLW69Qjm^ds&_D{vzv!>wbch0txyBUGMHM*N2Ib_R
zLF8|;`k4GP;Vjj^QON0GK=f!<eM}DnmTgapD>*Gph!#!pGp2<J3J3WwoN72rP=Su`
zj>&I<<d^?cs)n13r5>xw-Q|Y#o%Mj&^&M#bSp%TBIXn#H8$=&t9W#TLvn6c%flt9L
z)=vl=_l_Kjb7tzGolG5OV^fD&{}{><oipg=oS`~r%*G^a=L;HWzHsBZ?R){dZg;*Q
z79lfq+BwTbi0HIeLsmI0qX&3thCxBk^_p@j*%DuMoZGi-kP2KME2n}Z`|ZX#JsjaI
z_$Hj?G;xK?pYEP0heqVSFga&6B3?W6<PbSkcA}W=n=m;b4^pHw6~&mjJYjPUr6@T~
z_TX=W&S~;XwEp3pcZ}haAj9LLj`0dboxR`6!>oUv{X#)_jTHTOulNR#;P5!Je@_g9
zX*Yrbd8z60FEw|<FEuZ)$L^y_+GEun`X9<W)kL#+zYuuZ&0B4A;x-VT{v!;QUp|JH
zw6qDwh1^~HNh53lx){qR%K`f9E6Es~oPiZ4ZD(#6*|+=bqt$99trh$<p1e-vL=JNH
z&D{<bqwV9@8Sdq~w3jf6UP)3=$C;DpB~M7c!o_Sg>U;PXY^_MI)7xHaaBE@Eo$n;I
zF=P}f1Cs%O8On&rDONA=BH=`K`o7V9ZPG(5rm6I{EXMq0FLeRGcf@C@wARU`fa$nL
z9qj{arD#QfmTDf0;QZeE8K&jG@dOrR1JeuMdIL@~eAhX!$!_N@)rj*K8pBk(KeL6~
z?Y?JhV;MDAw$Kk!y49g`&bde`xHQOw3V)U^QA`uIwvf+?G?H+6|Ap>0T$KF(Y*z7N
zD%dME!KG9tvhQNY8Jd^lG%KW5Q#qvc4w{-@(*~d(m^8x<^5yhp#y5ZTip~n79|e~*
zlpLF0<iRt4HjU$}(qvBXiNRRX6h#S7sUaQWJq>qABq>$skMGm@=qdR!{2jXy7qpZ|
z1M_Rzdn0p8BY`$DN{h9vp~%vZ)6te@QWTN2wG~_13bm;(DdVZFC2HHNpMwK#Y=fIj
zIUO@!3L<Gdp2*25SeHpE{G1meqB)}LOzzM~|2`RtK6Yc}1$5775|0#6AK`GURGtN4
zvhPSd3Jn=N=i73{RI78t<TSG;8}+*<MLZ+Yt;swBI@a%Dr!zgg$+D3rs3a^^IOrUX
zPF_acdtg!pl(Wy<8zxt_x`*DK)pCiH!l;FJs>SAoq?J`7mibls=%^2(-UzZ^T~nGX
z7vi<@-$fWLRC>QmixZ>!sNUWd4N)PuxCBs283Z)aO~*;;2Im<`Qxg<N^}K`6`NhM5
zHv7PG`EG22D-aq+=Ngzsj~;<~_)L&`CP>Grbh>krtAN8*upR->d4NCx-0QvC8Hi?t
zHHl2hK#wF6ymIKA$2+C$+bN@?a^=el2x?a=R|dkJs#d^qZ1(Ln&BhGll$Okre3;tq
z84VM^&7*WttxS93f@n#@+3)f4h-WISFQ}MpL-#HR%1M~qki+CgKVWkADNOEH3X>Zz
zfO0^)4?w#Upxh?`lIz{2umSG%`4%QP+`+osyXQcT4-^(Oy+;o0%wqvWoN%Dvw3x#L
zpU4I%NMRw?o2?S4Akg8@Vh0oalEcE$y(=VaLc5~`im49*K*=A#G~tfd8O)jP1Lqk`
z@{zv+d-O>_d43YW3GPmlA_q#UvjI$UMi#&x&FGo|B_#p&=y{jHtRt1&fDT1>su=-A
zH|k6R6YUF1USOgFB7kWQ4Y)cAK}FLXiYnB}1}1vXQUaSM<)#WMDx(!pl%>F^MpIq@
zmpG&nDKuPEDg}$`GBi-M$S7<Qpl6oEz|k^iXqc!eL%>A8t*D?-QI-Hj|I!5jkf^67
zH+1vj^=ZV{Fbdv~CkZeWd84hQ0_HI9;ZB_xVQasqlQuBEyeA9XCn^glU!9Pl9F(kN
z5mZ)J)nKwZ)pOW3$orD!&}GRt$rji-e@GXkNMMY8lbN8%`nWiw8Bmyts615ygiX?c
z(omjbe*+JC{#Pbs0nGlv-8`3q07pAei<MOFgN<P@<Wl_u_A$685<X9YPp?!6228NQ
z=R%#up@}n?(PRPM!h~fnhrnY<xDOJbS3=F@tNyZ56aRBO8DFZ1<{jKoVLLW;n|FoL
zi)CO>>IEtHBb8`rB%SWP;A>s%B~qUV!-aapTCi660g-ZUN6KV&y}EdG->{?7{V4yG
zknWT)p|DOkD|ed<Rdkz`H9zl>uIE&oVzE-m!~ISFtjfL15xKdB7bI*!C0o;~kXJof
z<C6=_(KwCi_6pz_pRMS6`-<+BfzsdL_n|TwK))@ZliwDq+W~_Mp9oO%=Y==w=j*q@
zsrqfFPih$GJjTfqZXM-vjk0sNP%!|`x9~9ELX7m}$kiioD4lN1i+Mt^8ax_1D&^{@
zk$$LVU1&Z$>q{k_PJeF6Ev|733^!eV`rpu7*64*Q0QkS;KG@uF-_MO8<C%&oCXPYU
z7AeOyEX#27KRDdfpx6+LYQ(OHwSesz1QiumQ~7_e(8FZMBW}mzLq}>^<M#2>Zch$2
zQ@ZbGic@B0tZ>&X)i2B4;<b3){Y5afG7w#LigC(Qb19%DZg>jUEQsyEdrK<YA)qLs
zM6|>3SgMxDmPCBj6}&E5q8##PJD6~x;{FD7!ZMZL07rLAzd7LK_ZYU1tM=tiho$;P
zRgopMy5M;=in;oBJxVX7o9neh^B=~m*JGF-yv6v{2IDDvQju>i0L2vqD9L&z$$oC!
zWLqD@bdo-#Rx>hM%!-eHNcxR*8mRbjS$(RiP}Q@Q*`Q|DcDwTPVjSvf5nd?|Sdj=@
zkg!_ptXSPCR(n#uhB9A<p{zP|OVs4h{&4(}ZqHP+V$@4$YQ^QZnun^n1HPtbW$BO8
zaX3EN^&Zc1#PsnyFo$sEs_&!Fyr|D@5CQ9XQ17tQDenU6+J}`@(k29NJlOM7Ty8(w
zQO(rtw&VXTg)5U#+>Xb`<ssUV*o~ueQKNIs>Evbuwrok{<3?=Nmf4MmjGg0i`=s*y
zxNrv5&gkC{kC!$qJ}x$rR<v#$80(W{ZXXrd(U$w)M1;7O!L8lCYq7Iz<&FBiVnrdV
zc3JxE=i_B#E1cs8EmN?ncl4+I+f~*|seMu{DSHM(I4;Jxej)iHRQZQY`V-|I37J1~
z@?(}~3E5rJ_vA`YQhrXX_NdOYdDky56P?;1FV+$b>AYC#7Sv47*39WC`d4=1Z`O?a
zF8LFreHhJu0NOHq)axFX26)=FSKD&hFc6*o5x&USkAcuBZ9+4Uwt3qTW-%^Ca&$?^
z-&YbQAu}PCfj(f?@}6_FtJPYD>3H&VJ5fVf{)xB4<!F2Rdj^qwVFZQXVxk5SkdZYb
zhR*{9qXB_0&<$oC<D0AL&pW>QMnVXJTJRh;G#5NfZ*c28Ph+;O`1tp3KAKj)uD?T^
zbAi!vqp~Ye=nXO@PbV(sv-{+Frpx3J2(2ofCsK)$70Jx~oyz?2q?z9A5J7ZDg~Tya
zCnsi#T~V1qfuO9w@$o70S`z0&ruJ&xj7&1u%O#3rsD(7sJ=8uf9UHySH_fphomFmk
zO>Cr8dDc!xzDvZ?5WYq;8Cvg;{A1kKqF<Y8G1Nh@(UmHpWDDH(2K`rPO9doN1q6ZB
zl{IAy7w>L*gY<G_5)SAdj>JWk5@~G`rc7XtHoG!I<y<Rl5`DLx@#i0r?yZ14YOXL-
z928$8lj%LbcgEY$p{69@kxrwU0U6t5x;mc&u}_e=&AGFCX4JB_BqiJ@B{B2K`KB%_
z1oyBDI5pWg9Uj~Ccku5Up?S%02a!Ga2$iUnK)M*aHV_2&?ry*}Tey_<VMm+IjJE3-
zqo_dDl;$N_?aS$v6+R6xh9Gni-lCMWz$1&|v*CLA3iCDOR4RXry@Nt<UHfBPv4I`)
z$7n{yOE=761MvohN>GzJ(M>9*rn(Bvwd{y91~T9Rl&&lE#_jein2P2#h?VRBL|j8H
zFvkV5++Q(u3vHUe&K0b%s?j^jFsi9q*&y8+$r?KzUxFwQC>8J}oJo{X#Wx2l)Y3fS
z*6!bl#%^o->jZi`$h=t%LCf*MU7YK~k<RogMjEkC4iV%U=en>~Lm9MDzVAz2sKc{o
z+rKVlUD1~V(&#Kwl2@D|8M>>p8`}6HX*fzx+UVb28(pbWzl4mB@R~O&dqSb&uYzwp
zzlq|d@onTY|MfUBgSb@Ym~Q*El4dqlg}Dks^PR!R=7HJjB6DX9>(+?UHqmqs_tZ_x
zMk?KFnr*k;*WCOQx#@okGH(kqK0m;J!eNwTxhc8^c-q~UU0d5A6vv-^qmYCcFKt&h
zH`n!1r@K23O->_g0tlqG-+n-=?!~&&d9n4PgiwBP{)cmbz{S~kF<yKf+o5SD^GkXE
zG3%3Cpm)8rnBmg;fAaH_i_a5z`<|vih|;oxj#XNwgj~rvic71Jbz?iAK=L12MoUW)
zrWA@ASlg1Umhkj?HV%XHn|wK(jh3ITFCjB4K@!!A%J$4+O(%?N<NFQL6jHm&uT}~l
z-l_Fd(V^@*HX8YsH}Ie7DaWkC`b0N}qA9PLW%QI|TOX99qid!)6ZT+4;ZkXmgoV0h
zZI1^fEFZbzP!yF73e>zZBz?E8O_=uc9-6$cxd&|n*^6KHk9^Yh=0DeWbBh`$8f#v;
zeh0IFEuW#~9hT>t%0Ikvet5k5Hkpnt+AnWEKwe3W)U>?9oLkiSnJb?6K+dey$0x4f
z)83+2^!}ev^sJ_!rerl!?rDk{Z{4#v4UY{sNDJ6c`sup_F3ySjB{0Z1jHb>TS?9em
z9tLMTH%d{vJXm0<G#8c&cjp-t&Kqw->zPpfM$7MRJhl=-ESd632KSh!resiti5H)?
z#I42(YZMiF$v~3HV?!!udy=J`!ITTBw)4fbpUu2SJ-S}zL1-bF8>ZLBsRn`fdyJ6n
zhvg1S_u%Lh8!pzMftS%7ilNgc-Q_|d&LQj?(P&s%a4CSXDB+E8;SWNJXf_QN&vA7x
zbsY__Z8jlqV`0j~3K}hYwGQfN-c(W{)Y$UQ=W;B6H0?VD8`lLpB1g#ZA(eJUax>>D
zno%s)ITSl(SJ9BLIvU!?bCkOcB{oCoK511{E;MayRvfiHpjaD;J>Ci;x#P!7hy~ql
zy@1E~c!45`abMjKQs$3+N$9(N`D15lEYlYJ*{~Z>Iuk@N+CxvWUtrR_a;eIU={t9Z
z!tdri$EJ35q?kK$L_-Q+L6`|pRs++`Zd^)!;uijU*j;3IgG<&;c>|j?{Av=|;l!ms
zow(cXZdL1cdO8ecsBfkquQo;I9DeM+ODt#Y=q|;(7iV}1P5Ka;v8Jc5YP##Tw*9lN
ziC;ut2lvNjw(KuuY;#Zk3gd3I{X4Oza54EP?*w?-&6r(#nlKoKul*zW2<o9yy17|v
z#jZQch4>0-V}eOo>AxSO%uXj>&aRP@kb~rT?!0`wkK)<n=gma<l03MDzY2<*?;&>N
z3qvbX<k>_GZEV@s)!gSyL7}WpCLo3-uoyn!f8K68f+VS0bE&Y*7f_UHQWDP2(dsv7
zVZGxFMaQDBIwbf^REn2eoulbAXuhkCj@xwh_sM$43cxcEk>WxN|BxMgR2%JSPgJ!W
zHjmRqFr)WZU$Gl=0Vt-N0rK^z=e4|zUw7;q^b%koNG!WqBqU+Us6pA|nJU@6TYV{s
zy4Z4uJZH->S%D&JkU_O|*vF`n0yNd5p4SkrK4UU{3i<OlC-0;fZE~)luQ*ox379<1
zy<U|p!nt=9=EU1z6j91!wBQ9Sogps{pVqBzf*X`W5a^=z=6tS=-w=k@9sbX}hhc2>
z;tUq#2uNxM#GyoaW1>POE)U~okxHG;fF%@$B8s0t!SeI#Lpl&iz6Pe`<uQ?#ut%&d
zD9+VOdsuFA)fN`y^YuDv3ypWrWVC{|;B=?u%N9b`7M|W+4zgNwd7y1$w5*2|1o$+{
zCA5j_@9ukPG+MLtenXjLn$6zz8F)0ybHbaqC5k>GyX`&I$AjDAa5&XVPBrzVJ08q#
zr#$_F%A{;%g2#9r#e&;tR7UK&WBln}a+(3?>*~)1z(+&q;#YyoDFc@=vz>Hjz_0uO
zsB6k2GbgOGSg<kZ_7=Cy*liP)5j%HEb7|5qRFN>~S9Sx+nOVba`!Qm;6EuxD?shaI
zmV0sWgFTz#&0$-L8-Mkm(XQ)13L3ifFY9=DEXs!ggAsVzy<2Nn+qx26_aDV?=OYe2
zr@3vRm(X7NNlSJVFxZxn6-dvoKa%Xk&dYk_u}VoGvuBS+(r8N-;9+|A@x2~_J36V|
zZ#NJ3Kk&;J&jyxN5uAborUcs_Nk33Jy`zy2!iV%1O202D`zZwDNBoA$M}ko7qZLKv
zoLM#hCN+A0{gK2E`On+`0yo73xfw+ygmYN2*E(3_kTOW{SMw^6kyQYvfR*zdR@2Bv
zp!FA77z8z5k`&c0E>q;*vu`2>%MwA%C_%7@?<TB8PqhcwCy`_K@jfLmqjiwtJVz<@
zV-YYnS_dE5|A2TD^OOML+sTTGy>UOcSuAH+eiB%Ln!+SUaU4(T=O1q~{Q1>cj$VNG
zzQh#$2k`7Z@l@=8=rG2?q;C<j7#v`^{f4fn537m=%|818-roc-t2pw&RavKVRMM-n
z{#cgj)mejYeDuQn+Pu9f)-l&E7$6W6b&EwhD-X{N;ppfbkN$sPN=DWc3{D3&HLnqR
zv;s=ut|ZY0!=<q;5NAvGKuL`(`(VEBB`pZA*n;R59Ef^T@;8-zs711(ZvO;R)|dRX
ztJ{Rv?ZGs_;WUH`nCA&h->%l1!NJ~ql=NnD?Pf$%a3J*kE{$vt47N?WSi7uWEla%V
zIyO4IAp4R9`A7;kgu^8$JWuBS*~{GTLw(N7;?Z!x8iO}H*WiUigLiyz@ctTX$=%1{
z1v98CSe9sRjb3q90{&AyYSubE5Yw?{xDD*%yP^=bfhUA8AB+7wg#~;=pjgslS<q42
z-j>=9w)z9sgDmQeA21&S04kDwK#HtUwX9!23JIcm2%O_m6HydU3xVF*mloogt7R=j
z#+9xX0u$Y+7y=V5M1_~-ToGXj1f0*+!)hU=HbnHgtp%B9AG$0#Bm{qIL5gLr%R=;7
z2r6`0>X%#}LbM^vL>*#pdLJqeGN*#1Mxd=T%AiecQID<x<=Fz!tUy|z_a&-nrd*a>
z0a`!`bVh<FDh8|Re-gyTkTR@EI@L^J1Dj(i{wpWZTh~t$wr6ApGizIJ#+IA0m1b<L
zf}6lt5oc1GOEN{6zp3SVbpB>ao8WkfHo{?QgyUt@1jlQs8IG9YSXI@-1p=4A^4SQ;
z5^9?Q9V1|kip&g1p>9$Gf;a$Bu66<2#i-7Tu(yurQHGsrF+?)WYJ?Qp)d(pxtP!$V
znM{yE)0!f+i(}YnTutP-r*+Msr7^V8zDCeS0~<jbEo=mBG_etsn6ow-*$CQbWkV=2
zh6?Sh2en6i4Xuf_wq&spcrA~Oz-yVT3AVT8vL@Qu5wb?`PEYB<J+XUHvkh9Iu4ApL
z%Y#;5YgubWl56?SwS1RazEw{=!s1Qm5GGu&09xjymN_feTIN_Qc2*#D%vn*?GbdW+
z%S6q5yiv9~_FT|v+B-V-T)t}AGu0~WpN0=o2M==H88Z@R#lfsG_ZbgI4!Q2d(i}8f
z))!b$`Lkz=$=75A;-d%p4z6k^$*31)^qzR^T|2v;+C%4kI?HX;;DW&Cg1s3&nikLd
z#mThgi1&ZBFlSNF>oB=p0*_Md<j^~i!>M8tr_n9=nphx?x6)}DGFxW7XDjA3k@StD
z=m$ysxXOJj?2_4|e>+=d{yXqsp5xT7Dap!be<ofeWS$~fYUpQ7akJN~n`VcPSUhN{
zyAN6qzG5UVl1O}MBpQi39&Vr*u53mJ(r}?9l29>{LJ~<Rjii=DGFFV_k0g?@G?H8r
z36L!<!vzwpD1qZ!lxIb|&bUX`nOdz@xd&>MdX=02QC7FBBvec`mLwZWlf9B8J5h|}
zRT4=ejii)Bl1e>f5)X5!hZl(lB=tZg9u`s$g~Y?N)WaW%hZm^_Eb)*@J-kXhyh=SR
zBp%+R9_A7cxzs}{@lZ%TBoYs$(u#Jtk}MXPmomvs+zDIOBt%%5Xn*nSn1YGY0$M4M
z4b^CIDObYrej-OFl#g?e6FJ0%TM0*f8pry2t%QZ1#?sxOk?<@}<JrC9+oQ6AtXw<c
zLy;L=oO7#rQ<Y8sbNdLTikU8GL1(-0?Co86wnoj3XTavE<;*eYeq<2@*NC9Ka}8=#
zK_-CE+!}XrY<^i?E1aNZW|N}GN=|K$x_G+Z_5-@yh4g;^T;;C}_Pe9H4sUQU!`<yb
z^{LaG-UNRm+URrHNl|QB%!?=v93J_gcVAGCmLEH`yb)v>+;u%(yLMEMF~$$5nwBgn
zEE{gg^4ttM?!#C0VUM;{^-XhwnE4YiZTxAsmTg?@wzX5X`yrY;r`_a)O(0LxyQ$iq
zVN}Hr)v<lUx?N{*x0NS#f3*de%jwY*g#`1*G|mKnR`K~-aVo26V>#>p&e$6R4i!UO
zZ|M2$<SK4F?QYcNUV4MScH7kM%uB_a-eK16@Wb_1e``Xkh2R|zfnQYK=#2vsM2{%w
zh>q2dqx*`22De#V<?xSM-}iaLlX$)Rl)_w}b$k+Q_ziy|@&&E*iQ#F)KiQ&bMx2~P
z>_=>kCaT@L8G>DjH5;GZY2!$<%ALwLTvfdUuh86y@ajx-_J;1rj+&&kO;Y<IJrkj$
zK<Ge{IydB8lx{DjdxOl!6~6-E-;0+sG4_@esVnIW;-a@1hHKT}vx0oHImhLqwgEL7
zhgbi#0Mwzd`U~M@D8y)+U6g{4udh{nQ(ctB9h{}k2TGk^Xgz)}6oc2BNr&UGtoCod
z*vPKEgkQ9DYDB|`pO4HCy=;8`y6^`(3gRM^n+?OJf^rqs?i#A$XR_WL5w!4b#dq=E
znB4BjxA!c@A^fgXBC!0)3rgSmk9VrrOZo5C`<>s_F+aPKct{2x_i{iJTHek<n3<RT
z1GQ~GO5@RT`5;snaJoL%VP42*qus~gU%7R>#)Lup2YA}GnO$?*IuM5E{3B#+Y%WVl
zQ`(ef(w>?2N+V<$6pZEQgC^(KAIVT-Lg-lX_9kCspLch)yOL%6uzbJVe^C`)>h~(X
zd-w45UTi)l5k{z%g5n*aQbbun%5p{McByA6PVcy8l9XstNU_68OH4P6ZdpE>P4Pc?
z2s5LO$E$S*)enOZQ<T&U8(n0hS>kCO?@7sXq8a8nt8@qO(-GFQcb}8n_1$e|FdCf*
z2z?h@R(;cwk=;`F6U#o>yjhdztqd-E>Hf|ah~%P?+<*BaDq+uB61!Ltp3Ygxci(DK
zjVtym)HZ$;yb3lJH48RQXekuyVco6K2xoWf`9?}1V`U-X=2L3_jFnx$14E(yoswXb
zbt-OVc$qVa#=p4UU|ar#a{U5@jiTD94c6`h+>}jCq+$|^f2yA0tYqcBA8GwzF+S^H
zG}2^iM?h7zQHHZFI&Cm9Yl)@;Vs_Rbn2~XX*{*I2FZWr@*mWct6<jKfS1)Z-gg{C`
z?F7#;(E}hm{%jGQ_6&d^$&@Jf16@H%7)cq{c8CR2I%77#`eIfEAWCw+vV{*Kxs}4y
zXyisN?#%5FN~hKXtUFUb#C)QfUI_<eifKH|hiUG%KzDK&z-U(DwEZgX#aOu06+(6;
zUQNXij9bu)Q5XVB97qxfpVHqb0Kd8=7hwLnVk#d*d&)<yb&sd=VIZDiWs1Vh*I^(7
z1d57r1Vx&}KqQVPP$aPEI9PNBEII=goq>vO%u$p<p)xx`U{D6mD+A_L+>8~vA(GJ3
zh7`zheGKK7>traF>t!$&V2m6xM#cYQFy$2+z<e3Nd>O!e8Mu5U&Ab6}EHQwvYtO!c
zv_p+S`DP$#*PqFQcrnJOr<5?l&=cQe_*t*L#vKHKIKEELcbJ~H!K1a6rba5^W!Ald
z_OY`w^l<HLvqq%$GCjYy_AyOcRVpgYE5m%OvvXnh$m3xiO)jn$+yC;wj7K?JnRQbo
zxZteJF)wgs!;yT?N$G(~3L&Xa22xXXOaj*{J0wqRy(oXmUWA&@Dz+w??-?!+ebDfK
zsFBw_>+6>r&Xzqr-mh*R%75pda7=|{V^OO(m!gj6?u+~BC>HsMwb$d<WQv_m=Umk#
zd2v4<HO7Mi>aP?34V`4}s<)$(1gk8r$fUNn_e|>8y#VU{ChI14RdsYK{o78>Qao*}
zzDvf=q;bEOJ8|dbj!(Mjz;1X`DRvDvv5s-AY@lVys7BGE(qiE{Q42Zc_7~h<!~Iaq
z`%={>%C-L`pI>imKm{)RfAqikx`wB_dU|hnSi3dcJVos3s8GTwyq%#PsK7;rM99g=
zFM=9a;uORG@{e=6z;ne5c-p;M+j8PK5Uu^A7#lE;lSw9%*=#12nXTG4l`%3X@rB3|
z3H$Xc8w0+GpjL~mJWPggPT$+DmdW$u=C7}1@bKmN=TouzJ{}RzTk|3&SrqeP^eC>Y
zPktA#H2)<yjWR!{?|%?5EFi=V7_ySkY%R7s?4$Su?XzsXW0>90gmO+7EhcY7H&H4h
zK}lY`<LRa>7X=a3C#0-DLUSISiy-NFth^(iJA6#04@^)VrJgt6D(@&`SiZDCvyhZB
zN!SNnSfC{aJxcr$3O)%iaOO==aGdfCr@X`|FLBCCl=6PvS4a}2={$;GEeM!5!X%!r
zl3wNryhO^EIQc<c^6@I-QLH|(AgC%2r9oADD1xf`a0FNr7}|uA{Yw#P5J;>KB-RHK
z>jR1O!MHAEj0$6kWti*&iK38biZJ0tRz1fROT41-s|87WVuQfSb(Diq6U&(+jBTft
zu%v=m={oB-OJXvt1>Lb$_3iwfM{A{iG*2mpDQK8-wp@vHi=mnv@}`?LHe|<H)(YOA
zVk0AxF$o{&$1UdtZzm!>8(b}HWhgWFr7+%ATEyybu^^GK!)H~olTu}w72e~tEYgj=
z0$y229#bOdhaG`F6G0roOTnz%KiSE)fzDzzJ+}SM&Zf($h#MmZu{K3&qHGKu#@7_8
zAF~b7ohOMYrj-YVkZuMTf<pC}ZFgWp*dS$I&*ElvbNkIHZMPT*uK&nN4U>F)#|ydk
zt|};r)1sty1p4xZk+hx)FkoP9_@up@0b+43pDk$0GIpF4fbcqC#hUJ=uTA0i3z`eh
zt4g-}AO|w&BMu}PS8DJGr%F5gFl0Z3{A|VT>!psK9duA?#!!8yHHEjz%M{Y-&c+}M
zuXO9s6lEK}LG2j>`&B2;1E16}OSF7%3TeC16f=#=dR+sBDN*t9pkxZ`yMJR?d!Mb8
z;T*%oGMq!=Idn^A3zFf&6HcO8I9rgoFo(G?N4hXax-dsNFh{#nwqVh$qTnpji7wKG
zF8W<FoJPBGwxH21Ea5cT?Xv}q8>5&bqjbAiIE{4U8|lV3(v5GlL$L*o6BnOYdc%37
z8=g}uL^#ojO*))NIwCr~Rfkdqh>2=~nx*;+b1)t`4-S^+ALj?r-7!*sFfxU=hI3O$
z=U`+EYWc<#Gi?sYKv*{vXT#vl>i1RRB3rYR^4*IoW>8-ph39fv3nK}m>4LC?<VCJB
zX~Uw_j3vxinMERA)nEUoygF-V=R)97R6k!!`u6fPzkN>szWG6dxZu=R2|W=!VxpXW
zQx&SdeyG%gs86-?M(wwFl<28Wv{rafrS)EVT%;+Dg*Uoap1!a0T@-xh_QOH+tTKm^
z8K|JMJ;}uMhL!6y+E%|eB0QLD?@zERgYpgKBB<P2ePen3<<Ifm^5HI&#Jf6jcGzx%
z%KHaRER4ONKK?~K(^=E@<Xz7GI#I)YLp*JBa6uiE1}7|^IZpHOP1S>1Nq%kECr@$4
zswZAOMO>&3_LDCZeD^z1e`rK}#f$J2wSQ#1MKbE^{TrTj;NI`X7vh-Cd=HXhs{0QY
ztQtR`p$&|ZdAguUBvZxT{M-D$kuir}bfdfFfvHo!G5qmt?#TE;Ms{1G-mrx;!v=Y`
zfSLs%rw++AAxX^Nk$`BO*ggi_4O~knmT6qJG_}n?JR&P44Xq1VV^FxaEXema_y51_
zS$&9JDc?2<Fe3$~yZdr<kE&TZW&C1xQxD127sy*9Rvl?*#w$c7#F!NDW`X&bySpRn
zSdd*tP(1<o2M74D^aMd}&#mI4F)zQ2dG+mDPY}dBSf?s3V#I!k>X=cuGGma@Yk(0j
z_q@4b9%%dqdQ-tJV~2IZK~g_CyUd!?(e2xazBS~f;Waue00PfCaK3Qj2ED%0756~v
zjp4;SOy74r>p;_Y;Of^Zy|pdo11K5ht1bS}uPdCbJEf1I_zz(SF2=|i+XQ&pwN~4X
z+At7R{|M(scq|mDR9m`2>hs7r&f><gQ`=eCetqo(c3Ej3#;&S7I7D;i%<YVU!*2il
zeeX85c=&wy@u*K<%M1t^jAqbNW^`5#)L6cE>l~`hXskA*u#OsM;Vj$<TD9MJA69|4
zDWPtult;=s|BEnKJ_yGRm85Eo?!h_(?8I5eo5j{!e}WJIf}fD!(@JVjFz#J=HkSYX
z^?2MK<j*hPpkUhY-1{#AAt9R+H9OS^#_e`pL=aVPL>D-|IKG?dJ|vvTYTD4jpLWI7
z*!yf9Uu|!1GjvTdcnz*xd#`r;4`DH%+<z^?>Yhz$^@kgsMi_<z!<e;FQwNQB63#B>
z(ZFJBXQ+@uJ;7_(aUM$1aOG|otRS*iL6AE^q<P3fOF_(~OLI}(t1`Gta+6E0l7MB<
zN?Pb;h&B;AeMy2YY4c1KO9R)`LVCiru)zDly-aA#h%Y3kEjZm>yMw|EqhjuD6i^sL
z&tXe@G2t<1Z5lWlPCGP)gyO{#k;Z>vy6?SM(V%yW1&<1KV6g#aQ-cDE(;kh=k5aQP
zI<cH-&(_4om`}UTFLeh##|W6;EGNI^?Le=Z!N3YR-~V98wiOpNuDm7}-GVYSE@ik%
z+le71#pNwUrJ4U9Fd96xzGj&c?+2G27Mm^Zgyc`<{E5~^mN#6AJ|qpgh4_V$m5z2C
zM&*Pr8bA9aIA{Z0w^$dszzd}a)x{c@)3!icPg+7-Px}~aUBzvzDy|2&p~c$Qu|iyh
zYlkvVf=0}Xi7NE1xRU$=+!$^C0{M7;yQvJt0(jcZly6VMFc8M$H)4MoF9k`&$RrCI
z-d#$$xXRYf_6F*ww^YC^#AKSj@J(}fO@8<E`m|8wyLnC%6W?DK4+~Y^CLshtqZNmm
zajn8c^BwY8PU8@gf<Ga*VGN_C+M--)#Az_7*%m?VC2s7_6?kAq6-r;MSP*Jou;DWj
z)GhhqWx@c~4ZWX%W&k~z31p5rZ^>rE&Y7Fml(ys(N%oe%k$s6V1ffHYTTyLL+fv$b
zPqY_Q0%r~5!j2*J-5`><_fP#Auy<^-KGgklQ)ZlNkKmOF`a9xm+>RY`IsowXWwD+X
z)#J?_#9V1ic%>vJ6SunfWSNx-`}e#!%|-7Y`n$)Tl4gR;kgKXfPC+=6q-J)5k<ue!
z6L5dRSy}W8Wsy^MBK}cYCXQ;dldM?c8~rOqBO^W#N;@tK`~>&!B<YVd_y%~|%~)M?
zqA(Pl{YQX&#K%&tWmjFt?e27+G6ADfAz%{RuD^a0{KNu<qI6$6smwj+<lK96A#gh0
zjQKs&hj-KOlW6&9Xi!yS8hJ289*wl_40G&pKO(B)6QBDi@VEF2tP!WrBkEx|M?v5s
zZ&fSSOh|)h%O}jAVR(AF4=)8U#M;HGarz0e7!my?@<|&1TpF%wJX&D_8K)S9V{U5@
zID|(I$5b-!*zx*h;`XP(&)!$4dlALDFP@v6BA+uL*N8_HIQxZ8@GJi;@-7o8hfAOA
z6)+8!NRR{z`|g`DSPTasfvR$PsH#s=-j7tBQy|9jBC^4h>kl-NTQFcItgp|-??)x2
zc69tOZdH$2t_K{-xK&ZGUdia$lF1?O%tLPUu$wI8YR|I1_SVx~0l7c%zh-R2$urw?
z(JOFS!?e(YLYm(-lva~-WKm6-9%(uBme^b2nLUIzCk02+gw&xuIn{idgPZc@?J#9@
z#+wmS%B#kp-UfT3;cOFvsrL(eqlCwOQ=Gh*%;LTcj!1*@15f}Q_F%EZmD59no5%2~
zIz&@zsSrEygBhmhVyq(?soV_tx=!2LR5?w{K|VHHb6k36`nx8-Jt-^9H*s<Xfp|eM
z`>B;FP&dVSq8Oh!d{SbxqQriM1?<(b(ny1<$tF5Xe1QkfP3fk6CBx2AEvH>;88QYm
zO5$99%=Z1Ud$7n8t3^+o874f}6RQnRPFg^I2c292ExIxhXMescphZ_?iR3#`<FszS
zrMvAV>M%ueQ`P+>n{21BvwQDavunsA?j>SN{ZamrtITfEZC!s;31(p>oNH<;12xVO
zw@stuKrS%HZQC4KmluYN?<>8Wfa~yY&-j&$fNJv>Ts1Qf*~}<5`o9D*n3YtcnZUK0
z3FS6ZR+oF*;<+$sdzrOe8Er=8BDAaswF4o+f3jDCql%wY8Z^=`s<;nAw8Ah<<b}r$
zqWTA-k@-MGEQPUPgWE+_asP4*DIyEp2quU;6u`M3G=b@eQfYEk+K^rke9|P|U>s52
z0KgRWn}nn~f~H&`q#5{FHuAA*daCJ{AX19F6|a}uVw{>uDh8^Xtzx9}v^_gxrv!>^
zp%VAgR^Gj}6<xG;yfE%ggg{@ssjlO`hSwtINb&BZVXOg>Rgvg8KiH}f+dt32KgeQ6
zc-o5(@+)&LHZRYyaQ8?nugEisH#9EI%S_HsNsZ4;NzE%UG|DWFugFY^FD^+eDq)N#
asNNK+J~=<HBr~rx6#(QJBv=3d0002f&GUW$

literal 0
HcmV?d00001

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 3641489..c447605 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -677,8 +677,12 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             left_prim_box.shrink(&reference.aabb);
             right_prim_box.shrink(&reference.aabb);
 
+            // The box of a reference can be larger than its primitive, so the primitive itself may
+            // be on one side only. Keep the reference in one piece in that case.
+            let is_split = left_prim_box.is_valid() && right_prim_box.is_valid();
+
             // Make sure there is enough space to split reference
-            if self.work_item.split_end - right_end > 0 {
+            if is_split && self.work_item.split_end - right_end > 0 {
                 left_box.grow_bb(&left_prim_box);
                 right_box.grow_bb(&right_prim_box);
 
-- 
2.43.0


From 22edd4d1abe8e255861d0625957833a39913338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 23/31] Remove profile data that was committed by mistake

---
 default_1006759096908622008_0_14066.profraw    | Bin 282408 -> 0 bytes
 ...default_1006759096908622008_0_14107.profraw | Bin 282408 -> 0 bytes
 2 files changed, 0 insertions(+), 0 deletions(-)
 delete mode 100644 default_1006759096908622008_0_14066.profraw
 delete mode 100644 shared/default_1006759096908622008_0_14107.profraw

diff --git a/default_1006759096908622008_0_14066.profraw b/default_1006759096908622008_0_14066.profraw
deleted file mode 100644
index 29d417047511d4ba278054fb0778b7501c945808..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 282408
zcmbT<c{G*Z|37>(WTpW}G9*)lWUgea2xZEgoXk;XA|(+SA|j3=M@d442pKX&hB75N
z#*U##WJp4#`+NU>pZ!_u-rsevwb%BKxAcB^y`Fnt``Xuau8!+I&YnJA7yhx*{NE4Z
z|9lQ-`Okm+=Tjoj|MzRuuUH@d-@h5C|L^~NBs>Wi%?$nbFY1!hF5<QSt!(<wA8r57
z=gX3Jm+VisU2m%O;r_8YNi+4tIOG5QmXs2!+?vW1`^>0D6kCwS67c`?zy1GyqJ_TW
z{qpSAgCz}*Pbu#nbvsl#rt+UUp}+ROz65oGZ&WkXFAs(?E|nKGZKIbQPo_b1;CkHN
zGe`gODNL?C%;Qzxc<Wic-v7-F{G9*4&#+@8Q@!SusBHBwtxA&qj@DWzqC*G$fIlIL
z0#YaGYII)s=2vg`?J`1i;Ce=qny<0%Ir!|7t=H)r95fUzOh=v4-2IOvcmX)wC-Cw~
zqr1!7ohQ2oI0=XjJnrJ`_x#1%|5z2XPhQ>cp?KI5(Sh@MZp7o9`r}N+w5SJP$zriJ
z0n?e_b?Rv}K6C~+6kWW0ylqkrD=%=A0*8d?!1<`F>hIrpt~+bq$g5;fDRza3=)n2B
zy3NQUK6Kz3aD)*ZxSoQ!ULBt+OFw`!t%H|OWc9D8{oYpLz{$mQ(gnh3m8Z3*PN<#V
zZB@~H&=u2p@b{rz`~s=}ZX)~J9V(4Vl9*2a9s%70LRsm+nLdt}&-I~yO13oxX28is
zbl~x7N*v+o*PM2wJ9#JUWKHO@7or2tA7Yo{MKSi>4}c?!=)m>Ft;z`9iA(?P%%9KP
zWY|PmJ%*RhMTK4ll@kK&8*h6Zve&HhD>0qtS^XpSGV#p73B+`a&+Vygy#MzAa8xjz
zZc5G{OM?_`24i_?hVGJ()uVX%gtDf5X*R9C4V+3$=V{I!zi$>ROTY=lbWW6NEi$_3
zAKsOd)L2&VUO)xWf#*++t+Lyg$<T_VcFeoTj*CS!hz>lT@4NUn$?Ti1P}|0<t}DN#
zp<Wv;XZZX+;Axhu)L3q^$XgPxQMp+&0n-_EZgEmv-jGTtn6ouzBCr!N9p%g<-w`?U
zoc`S7(Hx`Yy|Rc7BeZWZS!t@;ceSPMaF_n?)DDHu1VjhU=jk4WI~2CJFDj%9y-rIG
zb4+WY<qVHI+jiC;{@xYEMYK<2Xw`N$7b7~Gp}sC%P*}Q^zuOV)d&!6nJ>+br(KNlG
zF|QC<vPV|B^MPp~q65!Ew$NX9H;Cl%{nPsXy1xaSR1h6FX9D@H|9GSr7ubh0VLE0W
zONO3~w0prmoT7;~UeM(ZP0k=)Y)ZiJG}wnz5gmBkPY;}q9+s_D0{ie>L<b%()Bf}4
zE)D+d1N-n$L<i3K`wS)g++WGc9c`fxv*oUL7$G|Fxc^djx&D=5fdux?T$s+C!e!!!
z^5byzJYz;}PUfO+4Ycus^O?=sloj*ffF#(5=OQ}rcs>2MQN4wsZx`72dLcS+&U>vU
zWtKcn?=j9}q8BMsDb+x9;CkG?=)}`pAoYTMCKIB=03GjYu2qAX7Ytp&K66?fEoUak
z;k!w8&nsv(j9lIyx5HLv8x_%k=Z~M$TW#TPk4CURBqKU-KK2hB)(u+k$AqZ7<JGQ?
z33A1BW)E`uFquwW{Fqvnq-v0OTo%!R&pQ=|)}_7G8wp^aNkDYqe6-^}unCRJx`TZt
zMeX1J`GAJwe|-tpGoaP8O#ZXD5A5se5gl+p2>gH@FMh>Fer(8`lip=$YhsYyjp)Gj
zq|3A3rAs@nwB<)&SGdW=Kb4rylt%@%bBDumu&*N{I`DBC=5m95mVs1|{rvr>L(1Ps
zUWg7n4}E#=a(TQl>x=(4vuu{IL{`CcPOw|eu`(y>Of>VI9U*fs&|o^7uH?OmE@ayZ
z>S;ZKHh<v0#(s`3i-ho;0!{*^V|}ufX6!kQ5pXPVo#5Ze1)Iqtz!AoD0`&zfHU(s<
z0%uwkFQ1(!&ODE4__+d{VoXPiqyJswXM_D<+ygNky{~L~T=l-cKs_3mjwnY~<Q^WK
zo4{ehbZnkvG^8HclnDCjK8%-h#bZKbkcV+3sE35<_>Nw_KF*WN4ICn-v($4#PvWmr
z0B|HRovc{JBD(#TCxEkX2rr)p6LT87<>Pa<Z4;!;PonFt#B^vRGF60Sf|Y<1is=jx
z`c6vA_7(w07t`sAJiy<UyrQJF;K!$N?3*4Jq642#rvlg1Us4-x1E>2STF$U@%)U~x
z=GLiq$}=`U-siZ)CLlWSc~IQrWb^y#pjF@mVmh%^bblTxc!&Xqi0HuAmG=%!xg|b~
z%mj`RrXyu}Th(#rHfP7Im50BtX{~A?I&jX6=Qr`2OLg{73vC*9+cYCVgXkOu8<zik
zZqeb;re+2I01gFl{=nB4d+#nPUom-~a`yasZvEWad@-T}_a)AF<VA>VRJn}xy@{hj
zyNtXroyBU_?Qb?`$ZWo>n3kk6kSvSn?1u8W|7y?t&HMZg1gG~Ik>6+9X%N>jxUblx
z%96<&scA*E0o%n%w~6(L^}tT^Q_ca2`K;xMZ%K<Tn{U#hu0OEzgHcdDVn;CnI2wrc
zNI>}z%~=MBN>++*Ua}rkXs<Gq#mvWWfh*Pd{)@CIt_6nY0V-t+i1onh#!CaQ`jk~q
zO1Y|*`~6tsbExwf&L{h#4BwfbqyL<`TF%>v)jl90)&n~uKZdH;7CQ_<J(ie`a?<IK
zH=1@afO-g+4q>L{gY(oLDNqjuaovFX;@GAjyFJhKA*hFh=}6FjFp{FnJy|8&tE|{H
zkZ+0T!29rj^uZl>yDGkczJw7SxGxhHiN{V~FVcd(s495p!QCU%bM6NZ@`8HEm`+=u
z&u1_9=pj%K5!3k@qs|a}oLwE{ER5*DIaeGw{)iy1xD)g>t&EosD?wa;y6$WO=qne~
zX*DubiKEYL(6UI_UGP_x;)>|NeQkUwpgd)z=Ky`lB0BK=`Tn5(xT!AdSJ2mj5?($h
zbu-3oyx4w%dWta}oqyEU%dd#nKs{cVj<2Ur4Po`2Fql8Ghz^{yO)ZVs@}EgN(ATOW
zUOsQkOO7S;bL4@(DlwgZJpr%(e3c=CdIB*WsTr<hg~w_;Ks_p$j$7D;+2zcrU@)Io
z70~j5b57m6GS|hKoD1ryM|9x%d?7K5Yp{iUUitB4wcg(O;ZQ^euIHe>ugmG`{8wr$
zE#IUUzxC-NI&eLK$IqvhU3|BC`-#cclwyv*Oqfn`Yj0ET-o;5!Ppdpy&Tu`i)+r*-
z-(>v&`9vW)a6UhkRmm^M7_&fMMu-kvkJfkgUMIcj7SI<LrbAT8YuDPiSvh^QjX-^O
z%)46-FQ384A?3A~6RO=pi>#XQ@=^(y4u=YFe#Qe?N1isteY^s?2aPbD*{OB{ZQpB4
zz9+dX@hd}?T$qmNsf)tIJ2y4Sa*C!d&l`=q58&mqwc6qAiwHiegRjq4rO*Z!Bw#v!
z4mS?4&InED+spfmwmQEu!gStQ-?{3hWti3V+&wJo$>0YrOy`Kpvm|c0$IG{LN9A7G
zH#>C8;^iaaM)q1=(G|GyT8}4y67nwr(~<lt*Iq;ZB5$Am^+2ITXQ~mVlS19MJHV?#
zX+64)^gXgNm<!YSS{Tm0`$td{d&gn@_v%6u-TU$K@zgNX367~K0{0UVFdhEG8yO_!
z-}}IQ03$?)8M+<}nM-BykSpx-Wx2-3D5KVg>cH!mrE~t<6pp90ixWE;?|f(q<3g+l
zc4~Lbrf@Rk?gjTHx@GWk?&^K-?4r#!=bZ3(WBl9}`UFfTT%2ReHj_=n_O-+MO!r1r
zj4+))qRt+|Blq6!P(S<lPhZO{7p4;%)#Elt6!<*W-VpsjI`CPyG+I9J>qJEY-(K&m
zuWP&IR_39@Jouc9=)mJuV5!qIv_-n~(C3J{3l{UGL`<i2dhxd250_5Cu)4c5N$1ZB
zV>;}VrI3BW4bM~FIqkE0<Tp)~Ldys4i*-~t>9ygn?O7}wO7b0gd}K@~DMdA-PRcBH
zztzWW0Yp1dBBn#zS@YE_@yx!N)3>wslbo!DF&#ep(|<%%C33<2I_f^We1?r)m6)Dy
zZ~*t~$cPSn|HtH2Gvm{S>#7{}tNzs8ZJ(nM9eBLxbS>k9ig;zgeLr1Hr}p^E6FzlW
zBaHpGdfHBnW-%c;@cxjrVZ7x$^>wG0;T|EDg)N)A_u}Q;{j#Cg+PhM<@L2F4;<hk`
z1WZTNld)MTeP0NTv}@_k#`=#&hz`7N)c!WUW)ZhN)saO@LCq{>N*K|B$7|rjiK_R)
ziDtaaUR!>hyK6<=gO`u!Iwh0SG;~#X%b4S7jeJisrgNO0A^wVvdb+i>TfWT5jU*zb
z6LxJu_i?@Tn<M6`23HE*_X=Y=9krR=^PX)h2QOMDZ8=u8L6yYIM>Fi3-E8;c(K93&
z$1mqxn#q{Xsa#isao>99>@rV6??DO|5!3k@Ir&Qa)wzd}TEdxr8e0s7F&*oYXC^I2
znt7fqoBYi;Dt4tx;N=tadm>va`+M}kl?+S2hXgJ%rju+H7g}WTxE#D*K*V(9^!uXE
zDr};F`~1R)&Q@q&H+(Jg8T;LQc5t8H714o@Q{uM9);&XNCrgu98pQT4kR&mkFU;@c
z{!!lg{;ZZ-7pY;{m=?zyFTLltc7F}Xo;bM>{oXk%i8dF}VT1B1c4jjF*GwH<@OyHB
zO?4=s9?^mG(Ya@Qxo+FB+Pm!jPqkPjdO{H$_<UhqA3tAW`tN+&y5xJ0CoWmKn2wXE
zk>p+`*@sC#lL}vb{v^$X=)mXYjB|wx{L!3mp0=~8vb-OZUll_eFZg^hZ&USgr|cc0
zvcBCa)gO69TM-?2KA+4xB0K-hz&lvPUZ=%Vgb%eZ_<6s<2&40t{TT)0wy2qYR8b9J
zLd*w#{d6c@gwK{EPI<22?j5~0<3%cBUvNJ5uN8l0lU#4#?qM_D#4Bf3jOf7i#D$)H
zb=Rw|@-R0$_cn1x&nQf1F5w<es}*zn(jv9#Uqx#H5z&F?^M$h!w~ujiOO&l%THc}g
zjZG5MiD<VKIQ?J~y~3}KUQ?HQ+6$s+^AN75sHcE4y{q0(<aoM~QsGvXN<;_Fd7F2I
z{0A@XZ*7m}Pi$c(ZB0OQ;Ck*R^4?X;_WGq<6v;*Q6(U<AI&eKQk_7qv_j~5S>#(wj
z4*WdrVa7;?=p&V6ZKXkt@4I-Nxey)rxeM#c9@2px;v1{XmC{R$dc8D=4xCSR!mcwF
zawSR?3;SQIgyopE?nWDTczyN_vOd_G)VfRJh-yx_jG;&rq67E!eOoiz@Nf4sCm*cU
zWlpR51tL0dJwLyT7*F0-b6ZF!yUsl!38^4Da6Kg=>hg=TzU~)2rfQ2XwoOPPI`I4n
zB~N`!{WZ@892!iAI40rO&&nzNS<k?sO6PP0MFelW*6lC5E9;B7=@?1vdeuLgM8b3)
zP0$4JZ?94ZjwPleC1HE=(~iU6fkVJ_c>j&BE_^h!J9X4f!CXFYgR%=RpZO?e<(=&2
zr$EjmOsAu>BrxLS<q6<eVmdw3D~AFvCGi1=fa#2>d{dyRKF<d^Q-sm-fzR(&cfN#(
zH$R94Id>yE@Np6RWuyJ8-Qo)9D;Lp$_nC9&H4JaOd#1fu?9}$pzqqj;(Sg^)7gwqM
zJ&N&uz=^_iG|y;lt*E=)89!%yPycJvV<SWdUdQs^^c-s!mUs>vE==c(y?4WgCv6A!
z^PGdqk*`I&h0w+w-mh}iomD>9lc)upN=(NgrRw_4-Q5>}L&kLCYzhW%U0pZ|oG46Z
zBxQ?@=*4PN;CNv=AN8|;Z)vni0FEW5v$iX1y(eyGNl5f<p0%h3GYv!so<G~!n20Se
zJ^uiQ2Gh~$^WkLgrV0Y5Uhv=l`G79>{@0gqJv$B*nD>p}x&)k1Oy|Qe8*`>|MG|l{
z5FPk<zu|f!$J6nCDsY%E9WFcW2ETs|=D_I|K+6ZNCwH3m$BYhtFK|eh4&9%kA8N~Q
zW&TAjUR^13I6*{o;PG0!etax9wVe+*!kCT@&&Ya#<hT=Xs5{Z}f$Qo1aOp<+gxv+;
zkTIQt!#d}yYh-<ZL&S7?w`DwvPx8|TjxeT^;U(XGY@_TZaH#xv`IM_M$y>Z6CIW|y
z>FjKcKk)B`NDy#{m`<Kx=MTHs^KHNp#&k9v+kJTK(3?i!P<P<v<L+t5pj~=kbo%%<
zp>39n6f&mMzrQ<c@Uo%~aEO>r$#vz|;V*1HsC|1}N*{gATo}{2Af-JlmJzb5Q?6>4
zx$6Im%7>TF&ywVAzus<-1P&R~Y3FrWyK`~mJ8+1YPEzQ(_i=P%?7$JmbSjSsisY=g
z2?B>oz{@8&@A%oe^YmMRL&kKrCSO+nXcD&zI7Ce6-Nvhg?^O}Kz!AoDGL(ysbPPzJ
z2M(1NFQ2}%4O<Ur_+A7K8PgFh+W+OK`vnW&5HTH6{k2by8%_ei5yo`nrhS69a7k&V
z=(v4rP|Q}Q^5Eq&C}!RNU=NK=Sor`8<3tsajOf7o1m1VHk75d(ZUe^^)44U(^U~zt
zrcU6<Vmj-E(X?vfI!~*EqU&pqZ+2eg#>?k+o$7njh=ao5K1n5_17BCh=|vA_(8`<x
zP6DR05TaVjo5}xQ#}(6|uE`FvjU5UH^=M!^M~{kU9owTn!!0%0$E4F>L_l=leUwHv
zk?OopWhZbb+wsQhzT+Z&rUbhoa7dU=_ueCs;t$Jn56W^I>9q5>TVgu07WaC&t9ms<
z9Z8ebZ*9W~hz@*wNgVt1t9qp(zvG@O4NG>LFLfJQKCrW+`{|pr0@)nE$;EUA-nGT(
z?TK`FSkdIH&}DMl3(<j(i?d}vCH=}$)6~kAj9MlmvUL$1_&&hk_q{zcS+bXmgcJ%J
zPEISyB0BIq)K+`S_Q~g*>9MiY7y7M6v<q9&a)uqzmTu+xL+@%I{4!hLQgbuE7}0_I
zvKZsB_N@CkE&21$<@GI(Zjlfj_<dmf3$^Riz8n*b7gvvNy7gz6jOf7g=kYGJW$TAr
zF#&7!CQ|-u2Cj$>JnmZEmm|tuHZ$InVa#D2XwB3>bl{wYV!cBzEmZ4^hVnk96bv`e
zAUg2<!(Po&Ua?=dn>r$<iKhlbQ&+d3jXRvr2U$8XP2r5EMJF$9A3AbvpdQhIU-!I~
z8oRNm$mzcQcu`KzgJBLP#J=Eq+*3c@DJvwM?Jhs^g0|sDeK%q~u%mq|LZNW}S>}7L
z@&UmbRb3LMlYHQ4K!@Iq5t5MF&2xNi|A>eV{5pt<5dA6peK*^eHka{iWF4I`LUiE1
z{soy_R`WGK=lYe8;|L3{FagtXQ49~YXV=+c&D0onGQO~s%7r$6;Q9QF<=(^h)gQ~j
zbsQPf5t(;&{;eCd16;=uF`Wi;@kBl^4?nNl!8fn4Z7LPUbncXQ4Ilgv$Q@l5PM@Hk
zXhr43%ZINvBG&E&SI8m8h{%+{Dhe6Vf!CkNoxYro`Dq7%6Nu?-5xe4TN>T{``vfCI
z2Of7hd0Feo>YZL~v(M-9PLkxgFrBOP*N*AjQP~OV>E^)8xmNM?cAo3CL7<)lOvfcz
z_@?kjVF|mhx`|$;QcXsfj)=m!ZgNrmMT*N?y3UtgU%3z+_;|l(vLJlkhE)h0Ulew{
zd{Q`OW~NxDHUWo(>F{e-`#SkA(F4a4(^-G0`jdXKhG3-{*SER3@+$$;`7Pm<tw$rm
zZ#h-E<;9sP9|{{@KCe96bx-OTd<560BuppbnpCP!9Fyyh)&2J0U(XF$VmdTmxg|b7
zdV2sk1Wbo}oG*+<hua!B6jr=^hE-+WwcefA0}ct(S+d?MI3DA+9USkLm<}KB5xZR+
zeBt1DCty15J)Hj%E)Cg&dMGS-`RK}&zv+JY^uOy53DdEUxiZOlIk8yfVeQ47Z83)}
zF`cf?q3j)w0+i^j>*WraGRg!@hkJSV0XyLs`(&r!J>JuqEfi+Fd>AM1Z*`a+**vcN
zQFD7tkTMC=F+FuWJ!<>RP2gB!I`@AKuet4++sZb|5?HF%N+2LQ@O28U@a3KBz8Z#!
z{kvLxGHm695gqt_-Xby_tTM74D~HoRuhe{K`6!F%z~>7&lbHC%HT99uPa~0^wjL{A
zWkMS-_<6sNd3!xOJKqMg`iN<!#4}J^5goW5NuS^k6<6%^!1*Ep(Si3HKe}?$uVf$T
z0ge%-6MtlOFzhlnKXAA(9WMI|VhZoQZ-Dbf_hz)5;l8*?brs$tMrs+AmM0X{a<~%^
z9r$`MF}3^c)}=O)kY)p!^<?9xQHTy)&+d)-wam|li#jT@8lDC680%s>IhW7fIPl?*
z52%L;)6xB$DfX#js0`H8%7~Y9MK425dTrVfu+B$eI^S|gTP1Zv&B1v`7t;~nLDkh%
zkEK=B7^q|99QR?ubX3osQQ6VKbZ=|^vZUYhCb?DyynGm*>OOpT#>ueD<c+FI()}+{
zn9k|Uwz#=b{w(0=VmeaHDy+E~%>3TAbN!BqBz`7LXEZhL%Ix3&*~ss;3CznW5NV~y
z%O^v^Gv$%HEa~K7lH<yy_m`s(9r!)~%j{pXhN_V_VB7-{9e7>+a4+GvBkR!`Fzy<N
z4t%_qNfhgkE36NAHrKje-_K2<!E|JI^LfiR3R1wh*VCcp3}5H6`y2X;)}P3;lmB6V
zN;F4^gy_KMuk9~|cxyFP=A&y@!nykOp1UGCa6RWZKL>Ie47r1OsDbFf<E35oUW{qK
z9TA*&m=GO!y#9!6#M<Au_ystvo6vHGol2jb+LH#6h2Xe|LUiE1_J&Cvb4|YxyGQNT
zdz!4joko}rohkpWz#lGhV0|VaI&fbH&#)-#u<o4z>obKGFQ1HFA6@Uj>V-bx`Gngv
z4zVOmhq6l|j=&wr1sqFE=gjxc+fRRomI8->>Ga;=8usj!4*(8@1}~p0G6A1oKPi<3
z4hhp)BG~qZ(9mxKjwPm35+T7P_11nfa0r;r)TD9{%V+ya;86Z;{GWjS*MoV`AHef4
zWr-#F(U$idz#(BeX2<U5h_*JI0*)o7Q(|oTP_8@lK5z(_PMDa*V*HhyX5dgZ@bVEk
zv7^I?&0rI7NSF=>uR^Q6)o)thSYkT-Zq+^|Zk0vAAz(U+O#-1MzwfmHhw>LMpX{VR
z-}dkZzW@#i)5#5*JS(noEFCzOn9gSw1Id#s&t`!`z;v7r$;9%Ua}oy*<quvymraGD
zx=b?HZf@FUans|#Z4#z)*lf>BgUN*j;8<chLUR$UuAwFhz#(8dDr)p|PibgcfJ6C>
zmyb8~<v}6hFD~GaFr6u`*;gxFYz4rv#B@s30@AZL{n7*u0n;&iVmQV&X7&s?ly$s(
z3Ru4VqhnOe1r7<*QE8l5Qsp1}4IE2M=Ur8zX7nqG(B13NJKu2YTq9sQ37a(;G~zeQ
z&Pd!bdDzazNm)b72i`vyN&eILpm>n=afcC?{d<mtTto-nA0~+2Y|p9;t_s}uR)4LJ
zX~7H8f$P~SQ^DeW^~!}8wX1R~mp#oj5FNN4ZWiOeUdcZbY6~b&#=jOFVZwAAdiFgw
z)X5F-+>uk#Z)WkddlfBbc%M+>^k#nY=sW+<(OXVcZR~4Fz;x>5=({=PUwa>a*Ajdt
zR)u7Q=)gIboH?Q$?$S+D;WyF#GI#okFrowZRqNF7j#0<#uv$XB*&DhOmegNp`M}r9
z7xg*$dmZ_u{I!o#4ElSdx)B}t`GlK!V!V-c*57ug?4`XBz&1xf><hjg-1*|uw#U-j
zy}u@x<n!HjuUSB>2hPWy=6z?Ho$t0{YYFZ=1zVP4L<gSFG97-J-TJZOH>VrSO!-q+
z0udd!p2g%dFKDk0=*G~Rn>T%+=Bpq&@OZTuo3!8G;`1<8KsvL_qWhyHq67EEeygdp
zA?|JvSPvIg(B=<(f1az(e^0SUiy>GKR}mdJpIuprJ>eE&y4*jfnd;v@NUp?mCaH^u
zUcbLS0@l?)Oh<sOL1EuSc^Ft%RWKcgN5zXSnrU~#-GA+<H&!FA{zS_e9xuP*yqV{R
z0!+HOb>uTghgItl9r*YP=ys{M+a=%Y)4)G?XK0o{LUiDNC%%haO?F(1;USmYCZ>=-
zzpex#I`FtZ9b31cNLs3c`z<P%&bjsv%mT;M7cT{;*?!C0;kUYsmNQ(>&s2vsV`89_
zxz8VkGY|coDiIxcop0z)e?@X+U<A+8Mj<-zc<r#CTl&t|z5<?0A!0hJr_D0H6$rI}
zdQ>nSqdu)qmc+Affy0IAh^{Ee4ccU9gTAJJpp6%t&zqz;e&c{-3V6P^9?^lvy|lt`
zt?<{dB5*=69sV6EHD8Bf{sBh=(@8F`T3$RB{~0(mn9g<PnC<1&=IX$yUqZ_n&WAbn
z+Am3Ges17|Vmg6Ge-_NNzx%JFf$5BEbLW36Aaa3vXfT}+nJ9tA_qNA?Q@@Cp50``K
z&G4F@1>l5YIu&t*aNY8f|Bkx`rnCLzIvZ<7wkfEG2GjBVY%1gtJbxEB^$U3UOm}r!
ze5j0@08S{TV>UI$b4juBI&d^F9rw0@!jd}nZNQ<ybT0gz<!XIueF-@A^LY6@UUc*c
zn$n^IClu3Z8JZWNiMYH791Tpz;*Q8M4zZ8-fkT7ocuEea=A6480G#^oc=^=WUS4Nm
z3|9h9D5leHSKxJBV5bvsG%y_t(bKAgyYpqhp}}-2*KDIt_swVlr+yAEpN}GaH5#gi
z6@U|p>15Z@IfdpIe*umLrXv+nAh9&=SPUE*OlMt8%Kebwg)HFI&*J4{N2NRoP0L^g
zPAI06r)AL79I!VSI2xD^vzmX`V{P8k;Q0+2OlQl7Opd&$OXcACjrwnR`GkI58+4!I
z^&Jl>y!l-G{moEJ=h2y`hV6pS--6c}H87oK3VA<C=#L<HoskC9xj)SD*?{qX9xUKk
zs&WZtY^$F^%Lm?P#_7G7oN;H6^MC5vIl6mYn}q1V`zYE)dAIwD#DBoC#B^#e6f-iJ
z+J6BK0n;&B^|!Nm;MW8k%2%{};JzlGf4xRgins_I5~fpV&?UAKCw>b!mY9y}%O|Iw
z#a{3P4gu4-ui19xk^exa;xL=&wo^Pjlxehl;OlqhMYkuOYfb-k$e0ez*&!a+-P?vi
zJ+7EeFvHQb3vbejfg_9Qtls;e>!A3H1f10=ynJ5oIA*f*c0ns}>M@<Q-;=8WHak;*
z6NTx}<%xyAweIEp@s+z|Y4sMr5uyVh7geO>ug|X5uJZppe({bt`#CN|2cAEl|2or+
zQI`uDW>kliYnRL^U(j-f>$zp^Q0Z8Zcmp^jOh;XL;=*R8Xew|lF`cshuJGgKk4^!H
zfay4$u(;31-<k^?%4fWMdhQ>nSa}s50UQ#hL%lpl6I{oB7C4re&PL-tS~7cV&vKD%
zZZ^qEoPg;}F?P#JbMjsT4rLNApV0(wC#E<CXW)=9omnqm^Gr4OL%^}bbmaM!cl(DY
zO^Pwee<;1yBTc|`-1-eG9j5N?0uE&YFP|zw?V}+-cjo|ygz239YpDD{tvwMqmY7bk
z<%cv{w>wL~Az(TJS7c+g3gVoBLm9`*=Vvtk#*TIK{lFn%I(ZqX%Rx2Qy@6wi=@0`l
z{*ri`4*-XN>4^Wlxb#9kEe<%8F}!>Zws$4XrnzbZhlJ@2eOc1%WAHx;97{}RnYoN`
z@Xg;j;1DpK@Bf~qX{Z1E0vrkzFP}rl;}UNd^c@51Dhbn>+;+ZN%u3G<IF^{s`Dh=7
zOzyk=z#(8dqF+*qD)YX}0f+JlFP~Sm7gLT1w>1EVgz4CQa37ZV^x!yfEHRy9Jagtg
zc5%(XAz(TRn}3a7Pr8}Gqod>$Xd5_88O6)zR!m6vu;6`O;E*t#^!F|=hy0~&fMbd2
zm?tfN9n?up0uBMwIjrrZ_~yB@E^sI#c=_C5v&dgioyi0a3DZ$-I>f&&LFxyNC8nc(
zk19cF`$Yu~0n@qqB_{J)$+$h(Z%~Hu@_9JPwnCe<Q3xCorqdE}I&`a`G#_v*F`bS#
zre;qL=_mk)fa%=gy>Xf6GH;yrU46EY2v>f}5MDm{K`-WR?mslC(9-kdofz{O5~lOw
z3De@+P!>l}k0qva<^-GjT#`d2sE2^*oPBaq(s2C!1yB!V5HFuLc29yr=_DhlhlJ@k
z3#6;+DTdhr#}d;S9~})C{dO?TTC9^Rb=%+$0-^(7pB|6(8_7GePrr7PjWVIkPo6q}
zmJjS~%@Z<k)Yy6*<eZD>z}LCiVMI~-LlSeKFIPkduBWz1{FUd+US^Q9ETRL~^T2b3
zeZ9o(JIH5&f|t*fgn<p$tg0mFs}j>m$#JIHWqgYVIH8!1+?*!MN6p%LkdH2+1LyO~
z=C+Nbzx@u9->X#J9)k}|n2w^KqwW3!hgY^(ZHTcK)ugxfqvZ@g-{SS~Y}2LIa#k>2
zxrh!te=c~7wT4G_?*ch{VLDqvB^m5=sEQzG6+{QlxiZ7(``9CyJD{G`k7)V8eU%m6
znr}K-ZULU#sYi6+dc@og3vRvF(*oY7A{5i%Tc8SxYr3ZcM+4L8w?FhKg>r`g-tU42
z)3KLQ`XfE|MiMyneP}tu`J~VKG6$Y_OtP+Fdt{lcy*U)ofuBcu@46JZ^Wk<b;22>#
zmy}9gJTE!3?6p}%piY^$Ss2lQ`x5f%3Ow)ZcoI0&4|w@3rS_g_IPmT_aLAZW(lO`9
zd;8qHfkVV}<Qz}Z5wE&k0gf=H^OL@kbE0^V8#vTnynMWwcasa+ccri<TIr81o6eCj
zoo}?kzWJ^{4grUV=?wZh==^gN(g%((rgPn6du4V=y)JO5@A2|k_sDSy9P)e)95SX8
z8GMT^dPB$oI7Cdx=V#Yf9eUPT;0R+nyEeUfYkIa+8aUJ*ynHfuD^P50%+`TJ#&ks9
z{SC}Etb5S1dwc4bbes_p)46YT<}}v<eok;7Nf^`lCK%qByDujQIMi;ud{P?y6lvCn
z*nmUEbXK_At6rIC_5z29>6m@$+>+iORskGgOvmJ~&2CPk2hV^*?ZV5)?DboAYT@`k
z;E*vLIkDs$nR8)l;64%&(-FuV`DnXr+yWe7Oea)z*8vx;P=4T0JMr@Axolmc-s&n2
z95SZkU^nV4uCO^1I7Ccms}#dn8sFjDz!AoDYKVH`CRGAt;7~j8^5IL@JZ080)OS7G
ziQKen|8_E_W4b(*9CqSDHgJfTj$UND>A5deNx%`tbS!WD`^0;7`(EHs-{IwRZ~kfU
z9l1yi;E*vLT|sZX_WJMjz#(Ef`>pbx72eHt1&%PLBa`&#?T3>1VyYIkqT$ijW$IhB
zeBgcW5napQ9rSmV!1L<Ghz|VxkK&&BZS+GM&g{RrrHeCZTcQvhc;EX()Zd+Toxc@0
zx|q%$^T9hIlI4%-YZG$(9Da8&VLI*G+WRO*E{p~#zeh%|9V}{XN6Q)RE9cAw<Go{i
zdBO48hp7e?G*Ot2Uk3NDuzOZ*z|qBY+BBQrR+<?!0EY?FY4<a_x%jQwFW9*2{w~+Q
z8Le%2`HU!PyuCXV#Rck#!gOA)4ipC@`pKxg6znq__3qTgboO>tM|P$UZvpq!nJ^tO
z$+a2dr(><aX>G;JC*u3LM~#lBqk$8J>8$?9{z(;hlmi@HOoy*|a=}L@a4)#8&V=ds
z@n4eP!sE&aoYoe+e9HamZIs8;o&zTe(@{@(WgdBWZUH#Dm`;iO6`RfDpNQgRJX{>s
zn{1gd9nP_NdXv;I&cJDXgO`t=%FNv*hwfv*iNbV}vr_ZF$4k5bjxMHCrkCt{>CjQV
zD1|HQp}(iYnJ^ux!3~2TK1v91TAT6m`RW+EopiYVB5<NGolj;pv~)^r_kg2|>AV_c
z;(q=8Q<xn`Lc`{L>Gzp19TTM=d3DFVj{~Q*2`?X0_C&cp#~u&hL}5DSleGM;zpPY%
zql@Xt+Bg|%JU#w5y3*Hhg{6jr3DaQ_iXFPG-cARc*4KFX7zn#raFScQfD?u3{2;O}
zX})Zu2aYbLGseG#%Xd-00ys>V&f{rDT5nZxap1Hz;^mXKCstjxXXFcTqA;B&i)IFw
z*<afLM;Fu4Q{ZI|EmX4y4ilzxR8l{1@x1Xv@H~HO171ESXTC3)-=Gfz&+|uNI%gZs
zwCS;5?FRMeVmig8C!6}$oXtQzOqfnY-XVIKh))Bcp4NK2d@8d9>0k03F9-ERVLEPH
zhxyJgJqRuJs!hvpvACj(>CA;hQZ8}+&o6!ZkHduNgqz!uEHWnEHRhhJDagC>s<jR;
zAH8%Jjxu}GOvA?MKSCppAyJsl>~$fv1iv4fl|EGjIvF^g(nWOO*S`cTuG>!zx`_ja
z3(<kEn>If0b^AH3atb)zuki9Y)hrrZaGYg-*ae2(<&cNl5-=Sz0m|`V>6vxl7-2fc
zAKa)@2pVVx4i};W=PXk0#`nPKWgKuQwP^XkPK)QAGmOmF+JHkwbl~y2@ZF*4`?>f-
zz#$?!a6J+Em60y&0`$O<M0DVK&M^!p+NsOz0M2v`UOvAbKe4--sT&2HVoYb|igagd
z!>8N83B+_RZQhp_s{6zVI2xEv;h3n~)mD+KVBKIsbm03)0dA*uZ%TWRB+6W+F}{$j
zPN_!A86K~>donkjPp<FHV!eHk%X#eu3DfCM{=3hN?naJj#iq7vr|oqtah=XjmV|R2
zo?!hUAUfNi_h)3g!A~(g8&3e^<%;OQ@6%3W-Wc(2<Z<r1y)$02wQA=A5gmBEE;L_0
z!|fjQ-`}I5i|D}PWs&r(D3Eql7Ch&`gz1=aD<&PdBJK#B)+)UD<2)|EiE+C3b^ei~
zuEw(LgHf1{Y~e|U$AOyPJ=_|qmFtaNbupcxR$7k2Zfo7P5PH7MZLXzEn9k9y-tpU8
zZOyl>_GCE@F1>1fiI<PUoL7m`*FUPq9|fu=)U8mWFdZGyBF9?{8+Bk`r;F+Iets9^
zk<-2l?CY2?otujUr!De<uArXQO1yk1ja{6NnrTmidZI8LV-=st?cp0&ydy$|i`?G+
z)x~tyr*qh!B&!=`<?pxGT0Gy+gz3aAJM<47+7=6()(X6Qo*e1qOqp%j?a;>F>_E>y
z9EIq>=l7*F+Gbx__jjNkBSZ&Y$E=68s*1n;-1uqfNsf|DZIm#g1FvIsX6dODg09<v
zLoLV4hq3dOwzU0+)C(mK`%|=B6v&v)P(sy*_S<O*z#(EfR^Qe38q_|0e)Vwtvg6$*
zNnuQ9Q?s_Lrq;{05CbE<!GLfr>I=Ml+)N6`&hs8u0}dI}Y1`VQ`K8HaiIKKKM7-tg
zZz861ae%!q(eDf)f0nc8{8ID|VN9oVK1{~Y#qmCHsAYKhcwCXPA1l%J@Y`;^CqVan
zIT_PA%DFN_=4Smj>#Il_w?Di<#B>~w9=Nt&E>+#RTjse!u)LWtreo7H>QHUKGWkJi
zE^Ce9z7(|-FP|>sr%SV=bV+}BM2$`n$Gymy&fd9FN{oBKmFTJDSI&<5!$d>}UdJ;0
zGrOl!-s}MDp(LUM|K3u6j+fL6b4DeCX6Naq`<(Z4Av*ALxh^WC?D=VlQ_UT87J*%E
z<b~&WIWrm^YO~DsWw;ft*`knWe7zXafnOK4(<z+I^9;Wa*7+zz2hQ2U@b~k344Ly_
zeKtaL;PXWYi_HL6#vlh+SA`KB_<Ug|tZL_2^{Nf5tJD&_oR@FC5PX@zf9b#LA*R#a
zVMg+j(arwvdWh)2^Jn5TgO{mx^Qju6;`FvLmIe((2Ocl}dAq0Xy%XtRJ!C?3;GCCd
zLVnNtHEsv%VQVp3&TwDX)Vz)*n)lxU>tQaU!wy}?*$I5iXLNLWn{`a>%<$`pXQ=hS
z^H8JL=HzgJ6}Q9(Upw)!GfgDKdf=Qlxo2p~H2<*$>oXD2fpaz&>--(dD>eOR{^G@l
zDQvXDn2zy86$58R?JwX^i_pdku7_@IRNA`m4nJ_nn9jZ2Q+m;V6FPxI#B|c+O}#X3
z=|=!Z7}L3S;FNso`0@g9sD*g>X#DnS-;g=;4>)8@XRY^f)UO$HP2dnQoz*?AQ@?6N
z9f2c^>1?f9U@o*<Y6K4T8D2iyT>jLSei3#D4jI!S^mA$qx0~hzhluH%|0#RD=l9|a
zaD*|PpH%HU?HFD;;7|+j@-daB%ZzH{)`*bvmk{F<pCw~Dnho|NDZVbJ9v8+=J^5hU
zMZ|Q}v-<>{jvuv;&pWaGo>IXpVN9pXJvH!<*Vb0xQ1kKfv9q9$wG1gf4jeM36Z`Sf
zwe55bX22n0I{G!9eTg{_2vmWY6_NBU^um}<R+Lrr)0}8C_PaChdB2nFsCj7lz~>#S
zJ?f6;hR&kxUkq&h`j1BBB0BIof6K7^kEvf*Bye0YowU`XqP~n7BEXSEbl~&y)&PZk
z-aAM3XY`pqttx)!vHBD(AGohwo=lv4t8f3Qz8mPUp?Dmt#B}nU1`6I}4h{e(5Yd76
z;Whp82_NG4ibd$9SS^NR9~vP#a6Ut}&kC-7^tUi}Iki(Sh-xd0=)n1W65-pyY~XkV
zIMiIcoO5n)$NVa{2?h=s)9J7{k$I-q>-Ch|nQe2W*QJS=j>rEz`t$4e<_}vllN8%p
zFZT#zI{!RcAC#%k@3=H6e!|S~dp`9EUOstSbN5a5{FYUCEa>nmhVp=n=)lMO_*lV*
z2wE%0FAogA$>%9^yJ9+}vv*TuzMb;~>yIp=1J9pmw%W>1?Kk`j`+6pHu2q&U<lyBa
zrySjMjG1TeliWqdI3do@#fT1kTy%2pe{|HKdlsxep@<HAA7E+vN6YmKJ#V*`skqKA
ze$sG7bl`fdl9si0`;PE5*+loo$1TOFAUg1MQ!fpz{_^V!=Za?4?zuj2u^}Kj@b5v`
zdnO`gGHT`X=8|uB=Tfcwgb^Kh+>ajb9IpGu_v_AV+VJL%OGl}X(Z(H~&riiKyzOMG
zTm$QTE}{dktJlQh6pu_KENaiBRK)3Az7&e-aH&t)C^g?-i&ZIktR}Vln<b{R;B~md
z@3;P*G**tQK5T+4vWO0xbMQcYU5$SG{!|~i2(dG7iWjoca)zCj$nXwk-R?W!{8fzT
z!1H-fjF$7A_puFd{t88O;PJ|qaE}$rcYpSdH$=Q}V(OYDq67EkY%e7jS3xY{Yq_KE
zdM*AG0nvf$;g-H@9;-da3(j8)kI-_4*Ns)qSm9>JJrvPzJpX8KrRY%*9r(Ct8aqtT
z&VSNo9;;HjsWr-!jOf6932*)Rx=Zoriq#<b6TKpXWgwyh=e*A%apyiRuIsmaKWw`p
zO#f2_)A{%__z|Jx^UaZ&(W<|bO9iVB(Q<~@L#~q@N4&#a%Jq3p(CS%7Wl<0vIG?D}
zoS>+%b_W7kp|_*$uzoS31CLie$C8NWwFs$p(Xox_+JeMDL<i3K+>emNq?jn%y@zKb
z7X4P=sbD%L5etTelWn~IM}js!pNfcB%|go=uE+5q3vIUbm`~9cgFk0Ob`(`2I&jV`
zXX`cU!*i2>lYr^$%YJCQkr!wH99K+du9W>-_&<9o;Amhv+nKx4HPU9efkVJ_(%)7t
z@JD-2n4b#va2wm%zd*(tuiwcG@_jom%K)bs)7f~qLo&ik<P~tdFr8ap8XB)$Jl#9y
zC@mB|QT|#M(Sgr9)k+74BNL6|fJ1}nL=KevRyAEc0i5nkw4C936x(-;@%&@@4jeM3
zGm~h2B+^XI{uFzUZUNEQ%?r_ikJH;HD;);q!=3?07Smz-Xp-Q>$@m>O3lGrpf$QNj
z(u(ugZ9k@@d&e$K>W5V^rc))AAM@K;NgFs`n9gMp=IL&$J(|Fg#dOqWv!0fmXb}d^
zLIz$w^}?s`njWK2fm4j>nCcl`H@%Vcfz3uvlKtsR1uslzIHFSj>ownT(TC+u?!67(
zvWO0R9@LVk+&-M}H59CetLb?8q<ieMecGDP2AoPvr(MXi?9f%7<G=~Tbavh{=Y7z0
zDF`?!m`-hAcV!6mQVDQY@8jijr1LuIYhl?YyN<6FW2$G@D>0q6JO|TMtG-jf3B+`+
zR8%PH&x^AHM+MVSF>=TaX3)-}XBwIO(wlK~^&Vb6f5HsL)oyHIdb+~B%f3KZvl7!O
z`s-@Golfy_M)v!IujORw0x_Mqd!0iw6?5~zQNeT$R@dJ>HooWvoYgeEe0bUVDTXG`
zMu1a^>9F~8>t!s>zW`1kro#~5{v+xBeDNzWj#)QvPHh!Tr<v#Mx#^^xp<o`alF;&j
z*RgE9oeo(lf33hgtVeX<^WfE!nm#rU&2}x?h|V?o{^buvbl~fqK<=Jhbx-!uNQUJN
z%1m)QB_cZTzGb!7=7`R<RB>=z$Rav$KI$jDzgn$`aDj1OO-0KY&S$gz<sY^~*==4G
z-1VwA|43CLI`H+yGdJ!2$UA##w^RjBy9RMCB_KL*&MHBNOFxALUE8P~5>y^8-{FPn
zFvc`KNQn@okqvv+&gA~p$_UYcbN=`#YoLr`%kbPG*-YS&qB8-};eei(P^x)bt<`4u
zzHNAQ_-fYi7!5=RzQ4hAwnZU1b+eP`p9?=5%1pH+5gj(D9_N#t=TD5kxveNZXw9&>
zx&yTyc--4b_jqQHl(u9KhnzfV5%C-~AJ{P!HTQJ6utP0qM)&LVrs|G`6twxw1ofqC
zp<x&|dQNISyJq6<;-U0uL<c@jMI+BfB&hD4ILg;~Vro8yrxMYDbAENOwEE(uD21#~
zX1)yK-1oW>9k`yp&(;_3c*%SQ>oXbAf#;#^>$oE#hAuD5g|`|vKXcsMis-=WM%A<C
zfv0p2N5H>Rh{AL@xBbbXRxdDLRZUZiGUPs@i|KfBe-Lo`cK-%=?wtwKG39w6ka<7<
zA$ab+^)A{xg!37FpkT`Su{s6R6NTvvY_c)-uyL*h_2^<c%;D9yMRVG#S~v(Ff=<3!
zWx{lnZiPwOwv_cOJaYQcQ`-NfH5n}*__#<FI;9*F?Lo92e{39db;*Q^=)gIj6Ic||
z-a-*^>*H%yC$$sFn2xuljFlhxhZLC4L`>&~^?s$N%~}1x5yo`<&Lof8T9t?$;ZhEN
zuKVOTH3=<eI3IC`^i4el&x(r<Iu0~>oaiKDI(0eg7jqtct_2Pe(^+}rc-o=&kAP*<
zjWl-aOMiqhomKvK>^jnRJAp&JgO`uo%|6Gou7`gEhm7gi-+5zdVy&?YI7CdRUW+AV
z`TbxoaD*|Pz-0Q$s{Aj^z@aAM<rAv;`$YbM5i{VBF&&S*yzVJ-M>BAUm=1X%PA$Ob
zi4bsvF`a;qC-1$U>OKJ+Y64z9$0eTkC>uOW2M!t2386`C?sr!o0uB+=N$q|u)ae#_
z2ROo*PTY1@zK0wR?!ckm#><C|iF26FFUA|ZKL8oi;bAqQUD5n~6gWgor^(uH&zaky
z$AKe^>D+%dX~3+ZJqa9YJYGI7R*Wet1t!JU^_>RjMZ&|$m=61?Wv16hAMOJV5!0cq
zEBvMY?eTNq2xB_KeU;%c3rQz|Lyg1Bhvjc>yyJ|~%bC;X_ZGifr6prJ`+jN1u8h7j
z>Pz7<%}@KFL&S8n-Jh`p9sHj1!((+wi&er#7}MGGhh|1J;q{J91skf1ug=p_Z{g(=
zu^#1|QD}arjgNkXrhDcM8Pl;#-|IYLc6|akL`)~PVw@=EKN7Xh|6u2Xu~<c6Oou98
zwNLR#9Bqit;WC-A9gNgiynGl#ZAZeqAGS9TckFgLVOmMXbc`EHZ%ZkCR|XCd(~+|f
zq*V~%h?J~N+c`M1;316ZoM5+#JZPU><js27l%HW?i5i2K&p@>8u1oWmBTt^=OC#G(
zd?O<|@O_)dF3k_p+gT2ReQzkD1MgQAQ;IF_Gjg2)js~WaH<G%j;%wUt92!igBU^6H
zrpRpxIQ7wZIg4&SrQ;g=mKHdnm=5=biBt4b{nedu!#~R6-$-d-I*%in1d@6(Ql_?>
z&pPaMmZrgUC}S-%K5E@Rcxp<dp9dU|s*l3UN4Bm+Kbm=`6@l@>r})s~icn0)^pM%1
z;K1*p?|(gr$ooyI*1&Y?oD<fREKP!AgZ1`$66N}6Fr8hydlNgC4JY>4*+l3``7YJp
z#LI`8cINzR+s~yzZ?0rr*}GFa6w{eF=wG#e)<AIbtElZ^gJNL~L<hbvS}stjcThm{
zTl}Nh`Lo~X!kG{q_;_D=eZ?i_N+(;_dlN&0#^sl-k$CwyhGaa<sV&+~eCHFvzpQXK
z3ekc4@^`Whl{VH^c^WM(rW_QOVua|xeSL~Da+X=BW&SizW7j%;<`fsEvpT#?yfJO`
zXP804M`^Xgt2+WOpJ7|i+cvzWWkOY+w_ej43nySYhQ%JAtxAh^9O&O3vOeCh#R${k
zbxY1s+(-`&xS3KQz;`y63)A6#yQGsZv`?EX*qeRt>H7Ze8)*5!<NhL9e_d|-I-{+2
zxcGX+Q7;mr1CRTkW@b{-*kvz+l*(5En~kL{F`eX;#f@=`ouBhIiLB1=?zJRfI-@+-
z3bNK75bQFA0>9lEEun;?<pcM%W$Qn=oh|os13dKZ<@`FHKtgojoOP7u=nhQS_**Nc
zE)A7Tw-ON@xSn&q`K;T@t!t-RzH42)_kt*l>74Wwl<%6={R{R#)G)k!wm#PW5Z{qA
z6>{=+C*?TZ7c!=kxhZt_==a2y{loj#oa}O<h=>lH^VL4`U`kS9%==e^cR!Ye?UzJ!
z;GDB!lL^PN7!)rI1RNhX*jqGx9WS3ZJAEg7^y7BC5VmyNb=Ofb7t>+=Rl@CZE$$7U
zb5<|;+qjl1rgKx1+3|N=qMMOJcq=_Kr@kbj1Lu6LlQktq(2;sEk1or`aZPz46fd9C
z0tPe2#qW20U(Dgj7D$gN#&l{NjDJ76bL2|hsO+4~w)k-`OlQrJ<0Hp!t#17y_87I7
zAIoGh9gX))rrJ#Mf0iGH_hsLXomsesmJghBPjK5rVCtHTy7XyQq5ElBm52^JpB1l*
zro5HW<6GSb6exSy`7RLAf$M1r+(pq(<LeFm(L-e37IIGm(Shp`ES>somol)t-WT2y
zsGvrn!E_q4&J3iabZi^bl<{1*3D&I-LCYDgXS&p4;o1F~o>9)!@*qEHi%>)d&WC0H
zjOt+}cGj!w#XlMA2^zYH4qVS*5WlIpb~IONNWcc&4$(bKm=3{3wvvtUSzc&e{6)1-
z^|Y;5(ei;`hkf7l#Y-`-B>94<5~V$R^d1S(f%{tJ%Tg!{O6D2!jiqZ{Vdt^LbVe&i
zTBV7@HHGhlS)%K^83~9EJYLEgWP?k2XH}PIe@8SMzNS#GpydPi^=+-A^bBVj7iW#R
z;8%yn05YayYyXU0L*iZL&Qo-u;!o~p6A>M_uj^F==K(Pxy-+sSjI8RDBa(;?+?TP!
zm&%74(P71tb}d~|1|ieIc=@c2?~(1&dXjWs_q(cAWZA7;OlQ1$P4<V?Ax`5h;xeto
zkaSl}=WI0%<?*w=oA+jk65q5gPD>&>aL#g4-%srEpZ6pU#m*C?*_szF<K<(<Piyk&
zmdm=5dKJz5zM7lGn9kpZeL7?r(uv{F1NJWz?|XS+I#)*+%8wMQe)5cYLguHN@{vV!
z;Cwz^vG)2gaFDtGhUUSh^;7p&gYfbRJiyJw!W-jK<`mQ@yEr3ViRpxeC_i)e+HGZW
zC$X|eaF>1{rn9TpSbmayv6J}Ll>e=U*fSMOr{JCZGWqEILEn*6f?Qiwq*nvc@_};>
z@81ypS>-<-et>0~RIUH59?^l1ckZJ*g$#;5Uevk7Cc82az8H$>Y^qY@@l%$(do#J>
zs*mzXf(E9;!ElnXYt^5}=WhSIwC%RdG?<Rtt%DIB-vnmXGTq#11ZK_aFX82Eb+b9U
ze4mneb8TruVE5DIC`1R&IqcWoUAOm{oF7@6e6>YMa7`D}DOp;to4%T;z?9Sb<5k$T
z%S@P#;@5=ceQbetnSs)=1#!t!tpRxX*tQOeng*z@UG^9L@O2BPKmwuz=OdYGcX^zz
zdYJxOa@nqc4>U%Yj(J^U;w8%x(W)0WBAmwBFK{6`@bP6wJAX+}`OD?8_|TmaLwkKG
z{%HBYeaUQ%da_xn=hVVU2NfMQ9UT&;qg2AMY+CrUTP2|+&`0|E1xrK+?n~gJ#^8WA
z*PgFT4N;R1Hy#TkI&fc~zd9d#VHs`NJ0=qJTTF|C>W7z)zNuN_m#m0Snwy{ge0zTC
z9vRVr`^vUD`kHTECRArn!m>bl(q>mg2kuMk->1>N@~11a2Ltzg?Z3Q764Pn)&EPRD
zukK`8tdXe9mMon1Mau{7>*dW80^X~1*PhAkqbrKu^1B$(f&0=4v>K}YVSh92WMW>(
z-@7Van2zc~$~nWvvbbrDUxZMDMS?7*^P<dyVzyD{{IpZTU`ObEn*|@VeBiz$&uATK
zKltd}`K2qDbRzG|6(c%u&aR)z&fL0K_u_y;SD1&^;<i9U2d+m%%a3&4y|()%oqtr%
zk7xf>FrC!o{kNKy;!kBTJ&>~bUR1y8jhD}^Bcjt2C3B$@>AM>RIW1-?F`eRYtqJEH
zhc}|NcI)NJ(qsi9I&jXF+WU&>qo)`-?<*fJYP?R+Ky=`o1%vLX_b0~huyB0+;F+><
zBn_r>Jn(dvFVnD6RmKiG>8HjM^<H>6=XHO!5);f*h+5dpx>cw?H5Ac-^V!t)hKEqT
z>iJV)pit;M%L83R2hJx!z&%GQ^~d8!neCe+=q!4fFdfpPwRAoO6E#1n=NI>+QvbGk
zqU8hkWiVTimz2!XYSFKD-o@@*X#%1H_vM;#)bq<Q{f(8@8rD<&Gpt6K&eeuSR<d<d
zF!$wB?K>9?2e~kvZ^wG|<E%Yzis=wXULCT`>h{3PXWxfEIy+wk%YWvqd%2inzeYlI
z;Cvbu?A%>tALyO+zb!;}-n`Kg)43=0TyAB_(EjtGc^bDm+f)Lg1CRTn|Ja_cm#0*A
zX*C}DVWQ|wy@-|%+}Hl?5*ZtBt3O%CHXh-s^p7B8I)|;h7!Gv@7QWO>O!5n(2of<J
zg_vyqx<+laQLUx(L$n5Z!iWx>59esPLVbs^%Ca2;?XJj}^63kB`J@Pm#vkxCwUmC=
z+j7i-BR&_?seSRbPV@!;n*1eZsqK`-3Rg^L<8&hT=D+XF1T{WJr7;mYBr%=5XEuu6
z=U$a(q-M&QDhxiFc1Ozx&iPwYjaT9?e-*+L>px39{*%Rs4m=NIqtcJ`{9SZ=ER^iw
z6xR9P3)6A_tUDafQJ2;s>f$yh`Po$#(SiGN)yPyIS1ZZbCAj~Y^?XYAsvBB9a9<L8
zcN<QWd@0%Lc=ybjtdCYDrsMTy>-?UCXK%<EtzUeG+ztmKI&fd2*;YoC!)(UyXUodO
z5?+pIAUbegJ@n#P`KFK4Gz{kjPWv%<(_lJx{IVGuscOd<_#*uLYOg=8KaZ9(+?U17
zU{GF*;meDOz3Tk*$)}<a9k?$E4{e$kRe{~IjMtyU50s7RVmcOkg?OC=`d^JVxc!w+
z&H2cL=|t{7(kapTK45s|Qo&R@gH)?4UOrW}J$J4<T?l$~@-R2mhwW?vq66n6bKB{s
zSJB!Y)_?z+<no*?j4+)daaEdVF|i*eAsy;>Rbq~FAv*B5x5@`w{1pqAY^lGxC+*9r
zLlhUZeBi$9;t~yCb4)2UzV@0d$dcA4VLCqp6u0OInawIJ({jBx`payI=)iql{S>3x
z^7r0Zh4=lRf_%1I7Dja7zHZXHbFg2$S2N<_U0z~0aFgncmyeRh_k)x-E6kk42_1#Y
zF0*7r2kt9)QtgZ8-mYhovreT6mg8cshz{JB5S_Ppl=pHiYwwLG5~a$fl9-OOUb2Xm
z!u;g*aHIRZTVMT|c0$Vs?(2>iO}T8JKn<Hq=X2FZto_A^4&2wUtZZ=jrlKE4Rze*$
zv<|FZm`;G$=gpV$A4?5e#^r6@>zXBt=)ir+r#kb`pYs%%{qo`*<6{4bRY$aZ;J(~D
zXlMPt&NEHstz22KU|O%lbh2w@FWn0onCe#IFY#{5rvxH8a9>xJv;Kr|i_er~iOIxB
z4q9j+I&fcd(J^)Q40atxc_pVMR>bIOFdcerF4|{S1(s8@Ws<k`lHS)lpydqrRp~LB
zT)!lm{YlZd+tQS#I115$`#Ry;$W3FsX)hO>WmQEQ*-01ExodQ-R?w7OHBKHNQs3tD
zGa))~Us2o6zu>#xEyEHuQfxjq`=i?)Eg!hA7$WbByY;5Ge#uH)A@y4wPQY{+6YpJV
zQtV6r9w>F{(nZq&BSZ)8i&d4x6j8BdV{CZyYH?Ab83ECO`?~&QpQh6xj-U`is@+Cy
z@de5`ynJqu7G~~?o^7uS^ibbnc&dzq>BN_>s|GL1@MY12eR&^Jt!jzr!1>U%=Pw;I
z47Ssb9zOEr$e~NZhz^|3FOya4p#~?V{q*I#MHz?IsYJYd{)!0HT!=Me=)0`mwNqPT
zg^cLHeLdkA)oU`jVB4%Xqf?q=Uhj(Nz<rr-ni;kZcxN#i_vyD(2A8@dro(6<S0gGP
za)oDGzRA&t!(r2QX!*c>CEg6Mu}~k$mrXnD{Qq!v-~U+sfBe8jviHpDLK&f~Y?6_Y
zt!%m^Tu~vBtVBYRnHjE-otccxvPV`%Wn74iWF!>j`}zLx>V3PN?+@Q|d-((Ix99Wm
ze4TS%=Um5iz4Y0>S%%U<_BFt?nCv-tWme=&fFv$Ew%;Ansh<&g%2aVm=Br=$o?CNu
zk2p#P*_VaD?iGnGnz8nlKd~-316sRw=<-4KRUR5h^X(Je`HIQ0GlTmp>@|?iOVv(l
z{RZpS9#wO8N_8tvACwNVFX2gg+s~6ZK~<BAydRWD8C6j_$iBQBswqCojL$Tze^kCh
zMQ%X^=`79P){4<^ZhmyUtFkTlL~^q&T+XMpR1O{7NO~p^NoO6Vbn;gaN(Y&b(IwuF
zyvzZ5z5RC*n0sA|+9(}lKHf{=Ysda9izV4pY^4yktH>c8UvgZJNlx;k2PL;_o(&m)
z=(ItX53;YBo$_TfvcPY>jW48pVq#ZfP&&xI_y<kQO1;L7XMMbtBTO;$MvzYL^V7Di
zPs3jKW~cleN!gsFhja|5PKCKD1?+Qb6(9W)*=jOi4VTXc&5`?!;|1dW?c{v>f7_>%
zQ98(c1oMxIy^F0L)GsxhX6Sc4ZvpAVTk^!#`26)I-!3@ZxEgSn9i@Yu`|7YD%gH$X
zbrNgE#eO<RYJwHIe2{(JGt$<fRQi1DcI{Nmn?c54Jfu@CF}{{1?_+Z-kkcZiS49;I
z=`878{lxbD6K7cTs#Y4w*(D65^W?hv8+J<i+=%y=YxOzq=MgN?<%7(*ZDKv;h2i4V
z7VTASp|NAx`6wM^&JD(br9#H$kC?w6X<|LfJC1{NPA}wmnwt<zM;B6(p6Z4j7DDMD
z`&xMPclg-UdCAYDk(u>a&f#?nbon6rDrj3L_E+^dRaVQka;Aaaw+zxrP?FfdrPF<;
zHs;yi63|U`N9iE@iW>V|8I*RRwdls}(C3sZ9&#uhWM4U%uarzH*YJ&!9P`%BT`9Zf
zaQR$h`A(h~?s#YM<)e14AE`<;C>>;9+dunD>;86bIy|Zp(|jdeAB56D_VwxSp;Er?
zR~Ad_YS(-XqB>L|oe2l?_D0Lcbi?xrR7I<k>O_!EH#Vm<(>37frINquXBR8uo6XSW
zjLc`V*E;ZI%ET>u!2<5~jPlpvC>>-z>$XGsAF6ZTUfvMd^NKO6)`oNz>v-uF_FaFT
z`5=-Q{e`2O9MU1xcIA>Z^t4cyTnr0X&dlh%gf1UsU*E~*7>bUR3llP4XxR-8J_(0(
zGDp@N@wuj~_2L7ZuT}zHXrpwH^Sa}v@h)~tkvH+Vo-|Q7iv>MO2iaGl;%GSU%@8hJ
zwx-2$l&kN+MYw!^9~-85DN_>Hlo(~2Wpwy)45XtlQ<h_6C{^|KRq`r*RgR|-r1M5*
zx1p1|HRea*LYMNaSsgv3bD3#-P+l*yW5pte;`-D?=71?&K9Mt02|43rISEh4zS>9*
z$;LoBUq%MF#kY)YA4{LbRasfQGlF!yNM`!<7bFg!c#9b!r!@RV59uthGi*q8DODO5
zJU@NW`cvJ230yulcDp)0-t|X9kIUrssjq*Dfpkug|FG0aeN08#w!7;t_~(leq$ACE
zbb(*Fz4CTTk7c<0wHSIxr~Arxar@*9e*uH*S1B1D6Ac){<zu|5aqVM`8RuL3BKfxS
z8~HJi4&4K*J8?@DRiRI<KE1v;e%A=n!LHArcG0`RcJ?DC?}}s(BR!-;q;BsglZ@|u
z5!m-Jjr=&*fDv3i@6(m%2J45~mAVY*5|?*`V;~*j-G}pkIzz1t_|0Q^m%a!YK{^3T
zpXLY+^I;dA3mb(6lCIN3IzH5@<=W(=5zo_g_~(~ZY6cA9^0Dl9-p}9H@5Os3oU)4J
zbB}>^x*};GJ0&d%rezbIi4%QmXawox$_`vxwr*?>&!i8Y3pjQ_59ugwYaV2W&2KI;
zy-2&l=Bqwn0GAIB)dxdqN-N_tHHSxoI;2j<Kst>+%(L0SH9E4&ywaDXuYWRvbpAX%
zLH^>$HaS`CG*x7^+7Eh2$AdKgOVYg+q27=Fz2{6hga-8C@{tW1_K{eNP*`<WPZ64Z
zx*r4S*m}zx`%UM#`|_G3Cr7N6pb@0g;hpWG%5*}}zHfK7`zPH|dPv7MY<>PDoqF0=
zS~g$Nq$#BVJ-B>wSn@?ZxZS$vc#g7TR`i8qARTee=i}C-ti@edsbmeOFy2Ox&g_Y2
zig&^~^J&{SYfWPw|DlI;uz%Aw^IuV3OjK)&a&*+S9=HIP&nz)}L0N85@t6;%#I-Go
zuoy@ukI8NCyIk9I`PX8$&r8h4j3AwP5vE$*>U-?h?oediaH!~{hjh|cj*7N_YQiPc
zZq_;b9qAg-MVAlqdz)Wul&|DG2}tDpdHzP60F8Y<N(XsgP-=74*5Ujm8`5Q^&$11h
zX6`5*<b461TcFU=HyJMAh(kKt4<7Y~?qltNv#x_KA7njchW@F+LcS_nrMCGw$(90T
zkj{+qQBUa=n|k25Lplr>Ps}lC=o|x%IHa>KDDJd+qPz$=>)LSn<flIFiOBYdeQr6?
zIp(*dUk2&WiiTi+lTcDkIQj7e>U}%u4(Y5s9c*VS5e)COj!4+%w|^-P=}7pQlX?#-
zSOaHW3of5>`$skRs2tpYQwHe>7WY!xQr{B-jyt5&dhh!=g}+Aoz!8UZ4$EQ#6}{fi
z0cZU@Tt262_T(o%9!UXC8Ke{Mvj6M|OOq;a+##Jl9C^b^=I<ZC5r=e67${z;&YQym
zXI&F69}B{^bp0%!DR9alotu6QXDc)}qk-cN>4bl!31dr|EC7x;r1M0WZ8ORz*Ah7E
z8gTiP98>jg=xcfhoH9tq#fc*M=gr33z;TCkCf@ipv5wxZ0**MO!>nn|@apa7lfYS5
zhs(!w`qy3dE1`kFDT8#*9H)NbEXV!tyy_0=d`wc1W8?461oenRIuA?KzZJ-ct^sFV
z4KAP2oBd%g+oLLgQwHg<e2H1>306`8jyt5YlOwHLDJUF%f?VoD<-I{MaY$!K!|&+b
zLD?g~Sw9Dtk48np+fZe}P2iM4I_EvNx0S6=2>{0((qU|#zp;})GY=ebNQeF%Yu2w%
z$C`k%t_qhAbq)Qi6{S-}V4qnA={yZf)>JpD`U@O)NXLyN!nxMBsS!BhkWQmeuJI{(
zi{bgD75?f0p_l7t;qs}9<2k!jI;sYoGDwHMx9dxGeQ_YGmW-p1t<Quzq*Jizsql_a
zLkb*mNJnI{usZ&^^fGYPRp9bTdbEARu86oAIAxHIv2omm9?q+*z;TCkctR}cnMspw
z14kUvkqBvIw;(z(3!HUj$b86_Xy{b=Jb+UM>C86{`^GCIoCEhe?vT!(%w9cLCtY{o
zh(kI8YB|MsE^Ge<&bks@K0-Ns7FB_*_kdFd>6rTtnFU-Fc(~TC%4*)IOXZHzK|TlY
zbW(iKOdP^}o7j~-r*t?%4$@)Gn41?;k<pL2Yn~u%LC!`5=`_%62B$uGosiNcJ`gN_
zoVHUDE@#o=D_NNtpST-{t!3F?-IfYR=^*o&59!g0)cEUdd+&bICNZDB5lRR7TtZ>f
z)cV1f`}RQ!v)?|cH<i&tIu%z}e+px&+`B0=hgG<iat0L8<%8^Nyg-xkbvpMguzr#u
z9bpgOBga=3^1%ARLOO)Zpj*F=DSQTV7eeVEbLPsmPiV?GtHEIT_XJI8{j)`Rbon5^
zU)`Dg^GAjhZXB3<CrSrd&xxSgi^-SI+km-;LpoCl)WK6zy1ZcS+9)05+<EUbKjC(L
zy$R+{59#pvU*Tdi8xRF^AD2UyGqN5(7Si*Ek#+81?s$|AGH06O`|q~(2TQ@+u_ztn
z+@tO$jdGWNvjyi3Rg@00uUgLd?W~*(H?V%lQ98)JbVTY!bLkw8sz1Fz9T<w^?36{9
zGt&9xA2g6qob}}2I)ro>n`N4kd#YTdI|lQ5Pf*xsLptW6*Kd&;7OsJHNRHA$<~+K6
znxv2QGYMFS12X9HK{~vwr|#{0oL&d(Fd3zT%$fQ1^9;(ff&bQ_1xg3G4p%}Jc!;^y
z|6O<FP&&wZf_!wwgYFN7fVuCUL6;BGsi=3+-1BsQ0p?YM(n01tUr=JkN<B3V<`o3#
z<de3%?iqjK3+APb(n0ps*J?Z{a7vE+-*F1*P`}1GVb<1YtxmkBPh$GS(J75CXJkGM
zd2fDY&ea`&dBvb~kbP~<=tvb6#`l7G8KHEL^*nfTdfng(<9#qMc1Y(#r!UXPl<#(6
ze@Kvm%g6iqeW9<n?J~gJ^HDm;eByL<2$OE6Pr&s8htfeFr>3_Yj@9rh-vZYQZIli&
zXAj8<qfQR9PhcI=qjZpc$yi$6p2`(60qbW#5?#(nM_X;SK(-`R73?=+P&&xI2*I4v
z)!*ZU!RJjDC>>-ySI<j)rv6d(Z{Na>(m~dvpXT+8`*BAwSkD9rbon41BGSSDyWjqQ
z!FtYzbe<Cp1deV0{&ya8N9iE*IT%TB3@h560P9d3rGxB?PUO;G=@$~aU>)v?qss?b
zj~EMc@U_jT$Kdn98k7#Qo@0iZ_7%?W?7;pf2&IFphr^)Yqq_F`*;>OQS%HV)>Z*{A
zXk*Ogl2W_+xf2_LCLUp=M37ELk_|aSS4AW^PMc4|<*XY=YqC}E;suV=Ae0U==dVsK
zWOX^h!~gbmC>><ZBS}fvvGcv3<IeO72k4zTAcu4=FMc0BcBbY5xPEn>LYEJ+ubH<K
z$;V$7h=b!j2GWW4IvB7$_MsD8cPvmk$b3GWJ@4;bQg9y}U+j>MK_IQIm#|+3SU=-p
z=<-3<)7O4Mv0uX82dtlDlnyfI^G^B(rFtP^U|v{Ar_=0)?TH_BN?=|>kj_UZ{US}w
z2L>>&by2u{vQB-w-7d|{2If@;>4dFtT`tX}7X#-pcSz^bFX<Pjv^@2|+{GcC1F@9*
z*T`!1z}(kG(B*@iyR)?0ISbC!o8Y`rgVI5+!^PCacc0Q@_Q3k_LFpjt(Q#9>@Xb4L
z2kS=_(kbM<y=r~q)Bw1?lS4YbI);Ji<ZD;JIvhBOE@xyul(c8dbZ;&`1lRW%lnyeV
zhAKjKi(fSctY-_94zix5)+<T@Du>#@dS-`oMus^^dcVy~gX{9RFkC)%R<gH-^SEij
zaghw^ocu9Jai?eD5;!g_P&&w*pFeB*$ijH^E?CbPNGF&x^jll2iz8Uii$dt~LDu6J
zxwC0bn)VK?!!nc(a_%uH&aBE|mrKF=affsk*V_5E%5}rQyu=}$?(Tsn9PL^E_CM=_
zaQUeC5UJcf^G*rOs|M1M$<`^tipA}Mc?Cf_Up;e7KZpyQ1@qEI=^*E26#uU9E^Tx_
zm=`&u!!4r0WX|`J6U?hq0A0?=dYo`CANd>4%Yx%89HoO?&ua|{%AfDI9ZEBPAVc~$
zl+Fm!Ddy+Hak=ZK9;~kmRph>2V@K&A`%-xwYJS9jKN-|Bega)S$i7;uBh?==pV9^O
z;88lrdJ>-S1pBTwMS^;;C>>-yNBMsB*>H{4fqH~cI>>s|G5xOhd($jtl)3qoxVUN;
zkE6>6=}=e|+6+s#kOL<l(y?M(GfdvTW(XV{q_fIJHS@Fix(9HCAe{=0fDPk?N?zbB
z^26ohn4I%T#ZejqoP0>9bo~lWB50}yI5<eBTU^9`B+xn;I6{z4z7KH^MWgU5;4JdN
z<+HRhXYi-w&{g2%LpowcZz76#qK{kEQ)gQwsFUGPI>_I*vYg}?4N<Oq>`o@f-6YG_
zCWq2N9v6&<)DC8)g0jH-Y`eU0`S3S?oJrxFj|5H)r1R#M%CK6RU@CBYAf00;c}-}y
z@G-!VgLH06v&=P5wBdlWi-F6>hKo;q*m!OnI5m(?Jgw`^4<1=u!0~}}%6NRkT|2#!
zfFlR#TrK@u{ysc%130_K;PO#&x%&Rq%esH>nb$x%@<x6^d(&3=pdKGc=USI>FtwXa
z8F1tvo#_xYPEFBs{NVk=T^_i6CiJhI4VFK)4V)TCC!s^~iDrOSC~$lr9T)1hk#*w8
zQt<wv9Hi4d!aE}3T$>D>U2eF1lnuRapYF%}`@f_bNay+=qa#+s(a!gC9PzEZr<r{q
zotUScNp1p-#K4h*bR5f5*p24=g@Lon1(#2<J4+bb#cSLIH9~buHse+eN(Xt}$uf^N
z7p?ssH!wTh-A1j83rFc7uRHH&N9c|cbYy{}4e4|XwM0D*E%F2oIiwTr`hLt$a#$5O
zot$tv-}(5)lFLq;4>;kFj=~sE#fJ36DsZ$R9rcL^B1)=HKLCdu(lJ*5lk@rk*A8$x
zIpFfKC3v!_$VbrtCmhmo@NsG!PcJh7jy9x|{+X_Hf#rK{bgn)BtNR6&<R~5F{Z2)a
zN93Lf=PYmrj-ty4>C|w22um8=YX?p;q{A#EW0-!jmlrr#NT)LYm&hSnW)0v7K{~I(
zhDTfKULOX|Iy+oG`Gi+DqrYK{fl~wPs4c`jYS<|NP7tKi^E&rxbKaGI^=LynL{H0K
z9f}Ch1NG2DI>}=zO^Ny(M8FwmgUea;cXLO8SOFt=pC6CXL7wLu+mjuCy)*hiv&SM<
zmU*ZH3+aT?``5BqyfXBAqOM5Lt0uxgI<cp4p2|~iegTKTiY^~yUvWtrB*dpGt^o%R
z>DcVt<5yu0+XfC6(g`?okoS|ssaeH^_|(Oa#AOVm^S5a7-bO0H8#n|OxO`aejq;hX
z=zak2^W!0%YtQeR-jeLU4;(C{vlmM7yx8gXzj`o`jwPpFbG0|?8Bh;_87`lM-!mqd
zXB#KL`}}xF=jRm*rXm@PJaDj(j-?|F!}l~LJK$g-ok8^@Z#w^;9|aD92`(RBdn>nt
zE{3lHuUP46t%z;$kWM#S_uDnEp()^CAsw+&vgh^U=NN&5fpoNFxD|#fOUi*mV1&!(
zc7D7D)8dD7;nM!UgZ36f@Q}`FqwqnImW~wQU?Cm5Qe$~i>YpEggMoBjE}hOQQY?P~
z90CJeJ{79CEhgEkW|wJWTF6A6rQsnRkqUmI_Ptd<;9w!02DLffTCz|Y;9wvfmZOR+
ztEKy_z#-7X<&(|rqRZEB-w;vbX}C>UPm70iG^^D#zFTFOW$m2lYrXp>6AS5lA)h@{
z;K-Yc`PTGT=LWSE2GaR}`J24iztaI60v%jF9X#bstl4Tgz`;X0O}Y~$4ZCuSBrXEc
zM{>^6V<DZwXy+<EgA8`yU?82*{t4onBhG(-L!gDr$8KH<r+L0812}j{M_Zf1wOl@2
zBw9T!EcZCu5Ejz8nLAovyRAeG91NtRm2i~j^YV~2a0oPT`Q%pdu6hn$dkq{sr1PFS
z)BI77R|#;ikj}62g-JUO`+p7w(%Irnyk(zqiu8-e%hwGNkNpYMaQXCBoIF=naGD7?
zct~fF-$|)XMbRBNSV-sU!&~WRiW5Hq2LtI$2!-TR^*Ja5hd>3FkLDSxulGu20)T^u
zbT;Y5ys!Q&6b23!(#hfo(x@{~#sdcf>DWH&Dk7q~cO5tcO1OMZ4y4hHsiiOg2M_6x
z-X;l%_>@2o94w^sy*+qjL5`OeI2cIh)Lb~{UgYpK;1DR_@>$+8<{+jJ%?A!1(vk1r
zymVEY{0wlgkWPGJnEc6_>#u-=fpmNxVeHDA$E|@wAcxCG_p4IXiR`o!z`;X0$1aJ|
zoZ`;o01g(?c@yWzlRoA`01gJyF%o=&7f@wn0}g=<E}!9G?A+9vwk&Y)kj~#w6V)PG
zSxMkvA)V~;gT<hZTO`22Ksu}b_iUn=q8|W<a0D)&$?kH>M>X9}z`;X0c2VQQZa*;8
zz`;T~V`t9^OuYZ}?>vuzbhP7`el+>T{X4G`Na6AsO5JWFGxL5A`ocpxx0sUF@P|dT
zfP;l}q$kAnGd*`pfP;Z_o)d|=P}Pjq0*7!IE}!74>u33u=Q@CchjdOzE!tqCB{9Ik
zLOPF*`I+DAcKZn&45X9c`c>Fid@2Pv1QNJ>Ou{pZ8w@EZfP;s0QVCd$?QCT-aIlch
zYFMtxSJs<qz`;N|G@OefKa|P-0Ea*fmyhq3!cYY5>c4#g9@059XxiG_eKrf!gN1Zb
zaEp>{uJdca!9Y4Ewt~<63Y$Ly9Ks>Ed?xuCSd`vh|F;jvLpmPCl&r&Q&lo{HSV$*G
zHItXL`Mwx%Fp$o<TXO!P7IS^TArQgklOUt-?L}yD01h6~X&k%BoGyCS4>(vzhdrO+
zJmvXwe89m#I^RvCo^>;v-~<lg;LpMT{UiGS{2@QzS-gAXz(hpt-+l}a>A3CRSU(hb
zTmjUBg>)3=IPMcin;HWL1L;WlQEyj96`leP;V)c1D|b$aIj_9V1`Zz5q5iUe<k<fB
z2jE~K9ZA9PCwl$a|MpQBNGDQE>*rT#(|4dA!XLPNcw{JkRd$H|w?Bk*^o(ih8n3bp
zf_ku!&c+$ub`6s$PvBr6opvv_A^y?6Ip7fX;qtNRuYK;PI{DxIDWvlyKH*#0@#lV&
zjy!#m1o0RwN(cGgMd>oX2UdB*3OGWLPTG`Rw#>BRAaK_A(B*@yr)wN{d#1EV88|hN
z&X;jTzB;=2A>af-I=pOqlT~N?UIIrO(#d*zx`&tb#WZl}A)Wj2)2WC0j=KS8{5M?A
zw~9-9lGSF<0tXN2969`u!|=K-7C1OahdzjrU5rZy2OM!o=gjqizyq0`8sO~yg3ITM
z%q}z63)f8GG($QUS&AuSN(Sx&Cmhnro4b|pNl=#)I7X08Iqr*8L9a0{aM&Roi6=9M
zlZHP&3be}_9~ZuvLfA!@GjhKXqWntaQizB>aPW{$QQ(Hq&*LJ_Yo33!^Hu9jv5-#P
zr8qB%p}T9q!9Y6iiF~&DGkjWsL)d}K$5pQCbZpuadf?z8ovP(%8qJc<4B%iP9T^_t
zFSVCR>41ZQbi8hJu33IFI|&@ZHe5b&f_&%wxDS$mgNJl<ZNFdrz}?vh94w@xJ<6lc
zwOacTI2cHWYT<`+gIne<a0ox)@-d=hxSLP3wG13Qq+{{+aG&-gXIkK3Asw3U-!uIQ
zEQf)Efpp>?o|VkgiEsxFVGAyw#P&{6{qGb}z`;X0Kcc^Sd%2}t1P&I`DUf&?aQOai
z3~(@z&Ns!wH}rdSyMaUa0hiB2hM2D>?Y(2b!9zN+9k&>5oj1M%2Mg&~TWRzs_YpFI
zgMoCsqMoF-WbXc(J7E(p9}D(Zxg`PHZ$UkHNXPCvb$$%#4RhdNA)OpEo=7D&>*K(|
zKswZ)-Fn*tvKN6v*nrEYb58W-$)BE8z`;X0hv}Qn%*+p|0|yJ~(0!EJtXClS0}ck#
z*<$vztrNZZ@3<hW!{zgydhEjm^0^RD4<6DnVWB;h#&RDE94w^s&`bAgVb81qa4?Wg
zlp+<+*|B~_;1Jf}@?o&xeOzY$k_|X`NXN6~&((;7zn_4Eg><UhLtict4pxDKfpmoV
ztkT<mYNZ2*@EtB6A+Ph*-oufFz`;X0x<-5#=?kfE0tXA}4BG#U$e!xb0S*SznOE_q
zf0}1{3OIySxO@hFQP%708vFtd9@5cCiM?u3SMvfmSV*VD;iJ<QU0xh;Fp!Qr^Vt9X
z^M>-@euMB0E+4(JXZdWAZ~r^KAf0bl7UL!C46Hz3SV(8;W*pT|DV<#4U?3ees$@U=
zmz{0EA*{gV!!m-i9(uL*Z(evv=Xj><%THTmf}kEOq=TcE{;(B=c>o*?q|+~sXPR-N
zwFM4g87`ls=k&dNnI}SlgNJl37mPnC&a?{z4i?fO(vFo-U77oLzk`8v&WK*I8G8}7
z4(cH+!R5mh)t<@48T@a*froTX$M{Zo1oskyda#hrslnPS4|*v0fP;Z_Xz~<)D+VOG
z0f(>%mrwh*llM7Zrv3m99@4=_9oKABw&(#47Si!g68pMz_}g>fU?3fj`*)h`W)4XK
zhwv3HACgn%cTVIxaRCPp>3o|OqZAM6xDOmGq=OS1nRO)eX#fWU>9qEWm}CtJ{i}zt
z0GAK*<6m-vPL@KT9z3LT8~Z5pz0fl;;9w!0iBufD;cDl<>nR4(p<67;wW!kmcfU-S
zhs(#Q;GK=6!8vKr7ar0X^nP1CNdLnFI9N!hzKin0tJc^5J>P(I3YT?ax^XwofqDpE
z;PMH#KFu)AJxc@}Jfy?1%CVv^q^b-YETr?4FVP|wyI=ww45VW?kk;AqRMZeSggLl;
z@S_aJz8+Hh_q-Pm=`_~}<^FyZrv&Q3LOSw|PI5FKO^kqpfpmm^YdkD=8vO76YZfk_
zGk$4xa}NW<Ks|U!M_MN6)%33UUEp9LosplTK}%7d6TrbhI&p8)#ffi!X$B5q1}-1<
zHSg)9M_>4XgNJlt{j3|5$7N=KgN1Y&l(^HCM#Q6mgMoC0tqs(yzKH$1uOtxQ@@b94
zPTFRSQGt5!kWMo9V%UYuoPVDeU?H79b{&Sjb1!N@Js3y_Ti=+vD`)WE{rfarK7Zw(
zjVG<Weh=!wLps0SMi6nViT=B<#6mg?o{k!tx5CFkJs3zw^{%LG?@Ws$a0pXy`8<7e
zy*{XS@iK7mkdDqY&E6kw?SId)v5=0pWsM%sWS9u32LtK!Pv)FCS5$ZhID|>Kd`@cm
zo}$oFJqa8<q%)N3db&>8eFHdHNQZ9vMCAushySkckj@CMY`HT{@xS}83AlWgUVIs*
zQ}Ztaec>UU#S2`*k_P$z?SCMhHoG1dQ!e^yP!9&uiI;Y)PT)B51UQ7xaQUq4v;~R8
zoQMPt9@050r+l29{Qke^{8&im+r#AVB9q#!pdJjQ^TO?Ui$v+g|MK|+mroamnL-jH
zhaIQ~59ugqw2Tx>lBoa(3+X%zstjXI@Ecv%E=YcJMVAx<=_ID=Z8aGO<^qTC5iTEn
zoyjYU(S!dSJfu@%+%(!!UN{cw!9qF?{OYGO^(Z-kgMoBLy?!;f4RX5zhcFJ8&yD#o
zeH$LkVc_5)omwZMInq0hV!**dIs&ihPrjG64+ahf(&2h=(R=+-TLW+iV{rM<ekG=f
z7w*#r4j$5>W|NbceRo3*I9Nz$+wIR=j+%5s;9wvf*F`5?tG0V7Pg$IQ-2ALBM;L|6
zN2mSw^I6$yN8sQg9m=6AMh!Fkxxm3fIxV9VRddwW<AH;Lbbh5*+*vN87X=Ps1TLRj
z$D>K!mHlP}4j$6E8_CVhcuRK#I9N!Bl)I+z3~jJEa4?Wgq_~XjUR|pva0nmZ@*ycA
zNh&zw^CaYI<FdLX_6Z)+>6Y26YHYy#0uC0^$sul0i@8+tQDuDe2DJduEC$liJ7Rm<
zSvj)dclp>&i*!R0!Z5mgkndv~@gAXRA3tKAbbX5Yk-$gqd`Ra6#m3)cUlHoZPM#04
zLQ`1XAsrLLP@Ai*e797WN8{OgY^UW=I>`4<SzD`li)NV5=xTK@_}LJqcZcBeF=;vK
zSz|fJODDa{S{kYB-Hg&f)-&~GKHNsqbSi4*kK065ze5m82RW~J4uPfZZ-3rQr5O3n
zJa}EIjnYBZ!|;a5XDNMa7E4LfteL%cf*jKM`j{rl)tKq=l_q~<RtuNl&OvlJQzQOw
zi6T*;Rkw|O@#F|4579;G5dunw0^!KsH)Gz-+dQuEJtIZZt&a_@gUqM!Ow&hu*-}3L
z%1eGkB_rE-l=UFLSN744%l%22uITJE;{K8b!v=Sh4zivKuAI*SjxxJLZ+7t1rZ+Xk
zAsx;eD#M4Lr|R5~O)2oZ;61cHfNoxg5jh_tof)z}#1?#x%iXhou2-}ZrGxBi%VUXd
zllbw(fcXp2iPYYZaFh=6cPGW3*<{cAc+xs)eK|+LKfi!O=^R1y<+^j*>GzA{9nTe(
zCk+M)Y>iMl$i80Y3)AqeTelqa>0|B`+_R&Hbhc%f)x4=w`Ct9~{!!}H^xQx{x_Kej
zq2ku3_4~!?d|Xv2cTUf~?ZKmTkU4MqzHCxhP*S_VTYNRE%Kv8&N(WgFxpGv^r~3De
zf-hy1v92kPjZiwsde-9^6l$do$;5HFKOFtQ8z+v^LC!17!R>2^#G}%pkufS=jTi6M
z-=oVJ=}f7!-e?Rp{`jMvlp-OdzM%}#Ny<rT_7BT>P;;-Yj&+1t)*aG0E|-*4Vnnqt
z?d-KMVZs_G4(X6KlC?7LOP$`j*mRH~r7gbRhb|xF+^6Z&G7iQ~pVgP-wUrx-Q8lA<
zkU7_#<DAMG5j0Ua68bRFr*1q5rGq?=4btqs`Qr7w`74K9_5stnngvP+d0qCn5aV<=
zF<Scal6I_nrD!V#rGxB?+qAdDHY`UIID}qwIU}8y;}LeF#Jd5&!9zNael*GE8@iGM
z2Mg(Bc<dM^kfz-M4hGWE6C#~_pviO;ID{U!eByov{m93DX$1}*(z*6#ksWLHJQ+Ax
zNJn3V<6gP8yaI4AkdEeKv+E2#FT#LB=!VN@UIBL`OK3F+ICx0Mf~L&2iivpxI9Nz0
zM0ry8nT>J>a4?Wg>HET5llp^E;1Igt^0|Iv8^?Bs<pOZ<kWQqL`K_JXJ7<A|g>)(@
z4;@;_3I3Ne2GR+^ydYi863z$p5IW)V=~%Ur`6*ZX?>vTwbV{(95*2te8Bh-v(m7#y
ze~M4DDh)UoNT+Kh{@2N%)N$YtI^gn&O0)h%)JvQP96Y4ss8x9IyRMoVI9N#M_;u<;
z#YabXfrEi`W;df>Q*Agh0Ef^Hmk)oqVnzLfSa;yyA)Vyuxh0FDqy^w$A)O;_m)+-=
z4$6Upfpqlv8Qgo-3X5jWsLLfy@`n-H(B*^NZzN8sklfG^z6G3oNXMtp_xF`_t|8#K
z!#Z8=MvjFae)Y8Jj4t%{`^%wpko)<&w;yU_%6o4+{tS%#spy%&j?y7R+{gX6cY|D^
zP`ip(ZF9(|^g$&#N(Z@LrGEUz&n{#4$>r@qvgFh^t>dle=7rpkRVLBmJ;}K#_#);4
zY`@GkC!=(b^^o=Cf1Ve1@a?1@Q1N%IR=`0zTMtC@*9GQ!z7c)IMu@J?%As_SeSI$S
zSf##Le<5hyQiY%%6}I~hE}w-%6PJSD<;UIGn8J+tc1_hlIw$L_Kbb#~RDUqxV-~t0
zknV%hLFPRB95?jgP2n5%P*xoqUomZMlnyc<>Yz*Pq}T3dfa8K3rGq>!R-#pkL*<)z
z3LC<g%Rib~F1|&VGxE65f1>T|#v0AnDe_EkgtD@29HoOi{|LVO>DXgwoe&a5`kp4J
z?i?PagUmVW_KlTG3vKaTNnHEQd^PXfQ95*p<9+K$MFo*_+T4nZv8}~7zf`pKAaj<o
zDox~)yP+XE^=jPvUMEoy%6gD<_k1>VFl6m+`-7EZPxQ!cs47Yad4DSM=i$Y|JNJ%N
zPi*#MRpesWQ98)yt5l&`A3QUoZ<o0pHJ9UB!il4Fkn?iJ{4A(BCTA`#xi@6cGA&Mo
z(n0p6u6vZ#l9^9<A<634gT9Lw##_*>XDY<pjW@f-3OnuCuyM3j*l5O!izprBygrlv
zeiOO(SpNOuH&v%f=9GMt4)VB2vP!)x)x*aMu3zpb9b`R6iH_xPy<w>Z*DrBM=MOLS
z6HRd;HPuUp-uQ~*eb$@dat;_ZX0NLx@wp%tQr*Bqnn;AQ9^~AKtf<`n&K>`HSfIz2
z@_5$LILdmEIoFuvaJd>j)}v&a+h%oVh`>WSw$DwQOsd!4FP>*Q#$>TEjzj4n=T+f(
zg_OB>Newtckd6Qk-YczmP(n?>hRs)URDQ7u-Mo<X^ei@6x<=lc#BwY~RNFB#<fC+u
zIs5w#H$KBY7||-w)nhVjFmZ=;@X^jcO2XdT9^Ht@KG))YM-HWf?2A{r_v`ktus_Bc
zZ6VjV({AoI!sTQ9sl!r1ol+h=@2!D!EFX&NMcZvzs|SCncwKaM#Rt;KzUy`BZZz8}
zNz}sy;T(P@IY@_BVa}Gj^L%a!^TU1m&=Shs2Dp4?M7qM3rYK3er{2_2(LM31fpplW
zI9(QRn-}N{tVz(kd#U9E=~y$Yri{}5%;vGvoTkHlk&}aT%=s=R$hU9RPBSOh&fQ=6
zx?7JfALMbN<H=wod~ZUHlue12Jw3Lq8Kr|fAL2wGiyDS&nVea3h!MOreK#4UgFG%Y
zKGPVs2G;G;?nynh*CeP~Kswte3@ayE{FXYY)x_<YdU@GVI>^t_Vs0_?93pZiwh_E^
z(XUrEnh2$X>?@~GWPRDk-6Xl({V+BqcB1(Wx_KcT`DX`rtvVS>jUos*3Ln$7AV}vh
zQHEF-f7fvxD;)8UerHxyNT-KxxS0^?$#LgU*G7^>sx1+uV_kGTZ~m^2Dc)OH>W^>A
zujV?qe9n3p%qm&95h55~2Z}Zs4hErgkaJ%;FVxL9z^6E#k-_lOXC(uN(n0Ps`-{rD
zejV!L-WO@o)`))VFNe}W&YkQ)c6CuCu=e=0GX*gfu41<qE+2W^woAq!Tiom$krt%~
ziKR7=4s#;i5t;mK+7!7)%7LdmEk2Nr^#hCfW&v-k_3Owy&X6ONawr{S&VsGZl}8?O
z$Z+W}Tvc*!X&^`GAamyU9$h1OuJ|DAZGx$uFHL)A4P4G6F}TBVlgB8ro9@N>7r7k6
zQ98)`xDGchmB_Jpy@)wlnRl{P?l_bVvah<i3u{k8+!;ILTD`Q0ed~l!I>?+83gzC$
zo6sHWSL1!q$)<(htwxs*58{4@^PEjqWrtpgrv!E1HCmw(Jj!~I*RNQzyjW4qYi3vl
zdo>#0yfN5(dZY%8r38d(q?L5Hxm~uOq0I+5FO8H~Ka=Xg$+JTbf@rG7E|8<_3puZM
z-@fmkPJMyDT1FoqbhOF26J^fGd13Y<S|7|(zuWpj6#6dGx+xi@LyMT#h0rat+n$y0
z-Yno(X@iVAn^8K*eZt-xcUu$jvvXixXzM{f|JjsuF|K^7{E4@|=li4g>-cb#^&CU=
zr8Tcu`EI*8iu2yN-)`~Kv~not#f5P49nBlY);i7}sQB0B<R#u4K<Oao{`78m+snwM
zhYMRu!TwsgLotxfg^RB=`(_xc1Z+u!|FGq48liNM^Ag_MVtyMU@;S_|HndS|Koae7
zfn0}UE4=!=!wQBIo#{t6_niySo;Q&BZ0|5-bB&0}iY6bJFO#b~*Pxs`(h<Jys9W>-
z$2H@qXFY5y&ozBeI>_T)jpR$bQuC-O(ZZ@i18uFY1xg25PZ!7FFIGEc^_yDXa{}xS
z2<(uK?Y&NIcgggAY}RCM_l?a%<FC=3pON)E6=(SSP$M+x^}GZr73+RkGNcn7yxR50
zM9O!xgz;fhB1?n?N(Y&<Mc2tggkqs4?cZ)ZOQh--<WM@~h~u>4`rh&qNq_{cgG0xp
z(Mp;)N(Y(GnE6V^xnes9_Z`|#sjeME>s4?$*ZjE_+pNfP=Ap#Y!)(q<*D^@wLej*}
z#wnXSg~joC@-#OB-60*b%bT2!I3A^`iz&xkCBAGWj?zIM@6p>w7j&QZer(?q48sxP
zpAw;TkU1v?$d9;_S=H08aIy5P?6@|+LYFfeV(u#piK%B8sxKNTe@<bpkS>PptLDgb
zwEOLuYL1<Ph8y`jKCpes_jzZ;uCQ|R<~|d!lhBVu+ZQsQM~la%-IF~+xyFfU)kFsD
zf>7pzbZprP#nt06jt01cMbYT}HdRRHFUO{}Y^&@{EdeKjm)2S)Lg^s)b!K@rUloFP
zPJr`sXC=D1Bl{BPl<uwF=)!>Wb2y|!7M2vYY_qHl&d=JAj<%z7)Ns3F1UNsFLpoxy
z11=XnU#$n{=gtbaeDX#Ix>qm$HU;PBa7f2G_pja7n9)^RqG$?I=NKw&ln!#gq32f?
zu<~$uqVVQHi*^B}J_e<OockQ#y<ZmTW?d5zB%TLS$Jhzw=<-3<!;^SCH<@mE%#)Jj
zki$314>c$q<bHMg_;JSeCy~XaQ)FV*Pu?))qjZqxRgurQ{1#{1`;~vDR~v3z(ey#-
zAdj!@!4GMCEdw6KQsg&_E9cIrqI8gb9m4*7miH!rrOf%ORyDsqpEybfSr1K+(Q5cx
zDkkxI-m2uQln1+I=;noVDpoPcoh<^1vA0|}+gC4DHluWq>*r>Yt5;C*%FE9VR#8^(
z)y#t+o#$0Lir3ck--+~9m<_(6eXk1X?5Ka|Q?pYJB|LkmZXm)QN(AZL8xf8_S`a+|
z_EF8H=yFEpW25V|?KalAGawM6eRyAcEeO)-O$rOJ*PLO!uuH2)ru<z~71CL{n*Va;
zK6y`+A8tU+wEip+q$6zh=6pS-p@eVq7u9jqTTaa-=<-3XLrLEP3C7dSHsrAx35rj{
zox)K%$ec69v}JM??oD4FjkIUtJL#s4(m_7Y9Q9z0zrMb4Ef9OS?BRHAhB!(GS<g(=
z(RkALjjXgWu?c6GjQH1I!sT=CDXzeVewM12Xx%U&@5J#Mln$~Ur4%pnID5;WZR#=>
z=jXiRJ}4dJyx1(ii{8(vsPrFXN)V7cN3V*~LDs`_Dwt37ChK|8wYSml6BxsYARWFR
zemiFG%sFi+H%CWb@2fW#qstjt56vxA+~+xtb75MA8zUa!!$FWvOUUDsgP)%X1#b_o
zPd!%MQH69&C{61>laM^Fqv?w0auiM^Lg^s?KQ7etSj$O?Lw_%bWdH1_PAf<2AoCGC
z$8h+7)<l9Y<!`~wr-~}gMQ}N@o|ol_YPN8^^wZGv++(qcAe0XB`aUD}>FL;xL5+QF
z+be=)GQkL?gIv!;>{z$`k;=c+qe@=y4tMmhqjZq@-2G%o^(*@1t9pL@d6wNK(eXmK
zd{k8ypD^(bYY=VLweX(t9!`dIvM8Ca{x-QhSKm{AaA0^*%>vTdAjWICY#up!@{MmB
zQ^IL(c1Xu4D6jv0iZa(>)@;2CX2i|o1#tP?TqdJ<*T&1AINOZxlTh4AhIBkCRf80o
z77MjCm4w~B<|-{99V(~Uq}M$(J!ByPTHm%Jb=e`Evt&N6?XR7y5)qcOEWYxwd^{g6
zpTY+WM2>zwQf<kRVN?!*ddZMZki2s6oH(mjm}T|jr+80{1*Ah`yU=f5$6=MDS?4Lp
zrNP9G(m@{Yf;XeaNDQiDOIf%51(TGz7xUoqY21<B>YF|PTXkba!?yKDPd=n$tz`G0
zkjZt8S3>>v+lbN-97+e-*Oi)|uAHI<(j@sVra$(HU&^6$ko%TU18!^*sVC8+zj9}f
zGo6UQpmb;u&wp6|n!fy`M<~n?#3xo#yxCVp=^)RCZ^xZ*Rk<=HuG)GUF<E51L?|70
zL_HaGr{i>=WszGhEt^&@Oz8NabddGD%d(K&7`dP8VeHWVt(MXdZO%yNCMI-}$CPgu
zte@RnxOI4+eMWD?q&a{1g?G$^LZ5mKq;og0#*EYF=cf;5173R`;X6Jk9prVe%;DEp
zEz%HG@IIR=N(Y&b{vpY2Bdrr3fI|f7cn5H4>*Pl=0H^r{T+Ye!ez}CmFWHfajQ5mI
zg#HPFbpD7dly3Q$28a{Q7HdR0{!m5f&?DCKaht@dhcUD*TU|U&ZG7&sJ}4dJ^MpHA
zd@Uq<a;iG#rWL$n8tHK;9pw3EN9^Zsi@Ki`9WoSH(lh4dawr|-`^HcBuI{oaD}}x8
zpy*aw*1BPY(n0Q5&kmg&{u<(8<0!nBdWwr+jn+Y~!)ens&g7nj$4NXK69f+*DSDLk
zARXsyUdt3Ab?+)h=b6mqhfV`I=++_f^Az2?q0c^#r$k}fOZ|h5t$aFBI>_U+c{e@5
zwo}WviAL~KztYJMF(@76^ST0git2!kK%qF-gtv3aUe-924l<u%#_WeuUyY|%$*OLu
z=RX)1Lg^s;q8=z##+s=M?(dONwW*kftY@Rk8M&UZVo?vM9^#IyR}-J~VkZ<eqjZpc
z&3+Ajy`-M^9uskMjO9!|ZxBic`F{$z8eMCLhu>?fEEh2M(m!e}L+K#%S?9!CrRiOJ
zz-vKz%k9-vlMhM<nU8f!JWGn*o;7&yLK~%ntY>c9i>&keEuq`R7l*HM;Y8?BI>?;W
zj3{prQ_Fm<uaUc9@Z2+KAPe2xk@XOL^1s}D=(ry}G4Zu3DVlT1C>>-y(QPJvetl=s
zu3t%?8V`N?)B>f0tcUy6oo|0qr0F$?ukt^SwGhUjbddG9EORcNCj2q*&rF?bze{gV
zc#bX~<ayOv{o9^s>Dqdpt>pP~<8xAI9b`S@S=CV%iuup0T)FuU%T1BuQPzXpXRZi%
zxhBgSDz!IKs{Zb|V$_V%`G4wB)~=0a?5}z_U#5<oeCZQ}(m@^<m(<1P)Rii4e|k)E
z^cF48H6xS`vK|WwPW6P2%7fpBySZHTrqk&mor+wesnu7de5wwiicv16wF7u`b4S*L
zW2AT(#=R5O^`#;;zu}fw45U+)&iCVoqQ_0%ua3*&m5D7zkPZ>PvXEkWD(}+u`t#S^
zsif&qI>_s3w5!yQ^K8FV!b|4P=sb0(AxG&@BKBin;vA|<tv^r&p8h^3XGhROTMshl
zpsVCG3)>wkrxfHu<`idT2Qtyk3;BN3j#}px;%U~~J987*_Rdq^aVYyj)^l#xNlK=A
zl;<-h^`cn0b+-_tqbxu9xJATNuiam_#=wQ~+#<@pko73Y$IsvDE1B!smi^K}+Hal@
z>1>BbH@X{Gw`d7F#zp(`E8!p=CX*{ET&bQ9u1V0#lRbCD3PC!0ziruKzxgrWiz^ZR
zweNIeF$3M)k@vZ4e-CEvrEips1aUtVEu#A0*C3#Ckk=gn*?j|TvDJ8R-vry2YRqDF
z8=HO?aM1RJocmi-37=V6u_(V#gQuph;%xaS^Fj9IUM(W{aH2mJIPQ?ncH(oU%XE}m
zz>$M=*tkS7N#}^)1BVFG=}*2DJx`n|2As}xxViT=%FAxe@sj{22GVKoapR9TuRCbG
zoz6qXsw!lG(m~E$zUN0x)ZQ<f8;AXdf1j5iutPda+IyJhON~ad!KV+b`8$@zpTXtR
zaML}hjrFJM;#@4<=1%H99;JiqD~EMiJFJV58DE^_X-&q3!=iMM*Ds+UH6@PaC>O8R
z2A2L}c^wOs4zeEFuYPlkd@ZeF=U-_x@trbfhjhjhnW{=pguV%6q+*=bC}JB=gUeaM
zp_Nfk>Eiw8JEZu>Cx3_GQ98)J%3Z?tzB*<4PxI}@+u6Ko!=iMM`#OtQp^Wge8W*qf
zQZ>J}(UlZO=^*Q=t5bY0N_zMZ?qFHrbbM>#dMdhnkoVnv0#&wmEyt$utyv_#@pOZo
zC>>-yq1mcCCv~q9JtXlI)swuw5Dw`irJT2$JRkp=t75}kcu2)T8>NFhKX=~jG&m&~
zXZ+gmS+}cHK?glb2ie!O&baTeyIoo>?OEFw(d{Y&Dd=)WI_ci4lU~zNExJFRE;yO!
zWyU}{C)2j;BtPw|<b=MMP{-TfGlFz<@@|H|dhCz$@Nv2_f3(Y=9@5dKh#aq0-(sU;
z>3)NwxNkF%j4mJKyi&Bjg?V4TZ<TVVtLR$<qe(JK2bnWZ9Nzp|q`l;Cldhjdmp;~5
zKst}E<#DT&zumiQaKF{+!GZ=mq;vNOvwqs|PD_tVj`fV@sc*)U(B*^dYqD|ftgED(
z__p@3^9^q(IFlhAeuF@kh~~20bVl}XY{tG47Lbk`IgQt=0k;#2D=jMJn?$+nC>`Y7
z6^<<k(XD#zH#h|hc&=T(OGt#vXU}Q1<95xfYm7P;V=p$Mdhw9XnKMc6XQrgmmVO+H
z{ZXa6fQ5AKT(RT#GM%Hk$C~40cTu4LgVJF@+z%dNp<-wues3@*Af$3gdL;{OJ;<Cn
zg2X&Y+AcPnj-{k~Qex&Wgt8vwI`jy%l+LQQw~x|w7{eI-Y+ZZ`H!o_l+an4BN14Oo
z|GL!r_$1{+I%AGquWz07beS17DSSWr#R&)La1K9fk@|o))R$16*U36_UI^0p@Xkv9
zs%pPnKJz6n&y)KmiwSV~%m-f@r>bANlK7<i>dhYI^n6I?>610@2{Ohjb?v7W=NStz
zI7o-RrDNy}$%t+Hb%FT9w1eJ4kWPV48IE#tUc>uEWJjX|+l$3`xO_gANf(DJxp#9r
zKMpAkz9y3o>3qBJp0`e*mV>$E<#!fN`BEIDv+o(xkZm?kB#q-dcJ{45y%40sAiSqC
z5EAjkS|GQGVtx7hVjNsPVw1-=7Nu<>>+if8BB?A9%ZGH1Q~j)WCkfX6Dyk#o$@sPg
z2kB4`Ra|me!VT93P<<MqRSXq^bjI#e30Xy$w3`sE_(jX!J+v4LmrqDH!-rPiy62>U
znthGN*R%5>9pCcv7h+YFACDUF#$}ZF8RH<Gv&=!)IKHg+s{g9AT@WLi7lL#WD4q8=
z-2xjQ<#R?}aK<w(#=zyn!Ex8nR`Tw=^x5m>Ax_py`H;?lq>F8EY2smxE0UzPyDcg>
zNN3Wtc<mKEeT^SMvO@;f`br4WVg52fwl&aO_xp6#WxetXgvDsMd~k1S)J-N__kHh}
zzc|$wpPCQpRFUO&Eb=TReCbVZE0-jHhl6yOTF59a$lCwKH1ORexh5qp1nHc{;HKY7
zA9cY0*|f_!`{?`P6S#bgNH5Hk9zP}%RL<h<@s&d+AJXa5R;vkN7&SHOY20-#I?afK
zbbk6gdSNePqe|}f{@0nEJE205&Ks*tsuNQK&zZdm+LFJewHKq{@-Z7bea^u?nDkAe
zVf=|Hjbr(cPQn*qVwu77-U1>=jQqsp>~N6IH8-#F5|hH&i(Fa9tP?hagdiQ#UmPha
zm+cfNtnFEIACvxBd<>UQ_mv-uW{j_I0Vf~UIsGVA(?;47I5<ehgZprXpF~0taD*V8
z#2ybrrw8`Fz*&rh%jZSV{eaNLH8<eoLpokF-$(<-Y1Dv&gLEW95~U<mj>Z5-2-4B+
zkkl=w)|Lg%;v=|xNTf;4ROhoDfRhjDJjkYhP?UG@6*xFZCqHf?eqXcjJ8*;`9a%fi
z!CU<=b;0*TE=IuR6CL0GTkByo5!3W$uJPjBi+q$0@_A+&-LH9OHT4<b_@H!<_otc3
z0b*xq^<M%<71ALY`<up{na2(sa+D78{nb9amwjLAOb>9@!_nn@9C80X?_l_zFUgk6
zp&=)(^W)XvPL%Z^pU>;*{_pN0qYz{MoVoN-<PEcCln(OyKzK4Pz8Hw12|UQTcl$ut
z%?R!KLC$Njf;vKPH|{X_{jV~V^&p=o-28}{Y{>n2y!^wFMeFS4F?UFZ<WQB2@wp2h
z!TZnRkWQy=(ySRHQQ+Ow<Fe*?AuDL-j_gZ+a__sYa5Ba*aCk>sa^ztd%JqYEcG5Tf
z1LS@rrSX+H8`M}{affuu#dm#79_hJlwBujSJRANd4(X8al)uZWQ|plm7Gzf(!xgWG
zp*t>+eVK(kP%<MmpB6mr!t(p$_1rR)4sspZUa}X#yDmMr(Qv0XaN|aZ4@w7F&qY(-
zD5^FYPVhT)a*&RHPB07gMd8$=4GlNUh;<xxAHwBRmK^S&nmE3rE+rDg%qNgn1L;&-
zke2lve#8JAA4tcvZsLo&{gc?quZ$ul4%iJjln!!U={cvml|E+eTQXpEEbh$K5<xnK
z{d$Ynx|OnvrR~nTpEFqP3`LhS^7{29xIw0)Azjn;SFEwaDfawiln(NHPB!&Ues?K$
z&<1_^pmdPyuz@ii$B(5w$N4fR<#UUypBzdD`CfPVhq1Spc6yKZ4agd?P8M*uqjZq(
zbu&|yN3VC;(17pz!lHDLeMwc}4yWc3u7LM9Fp!Rwe{k%1c~=5(2oKQB9a)cOMsX<T
zlNfE_;31t+Q<<=av4vbc)($0prC2^JN(cG=;Y)`uTA97vq`sqdePW@T=0PYO<neV_
z>0xXxUUCh5ADT8w2bs_4N4nV7XB{m1ueS|qY!Z)<LpnZ+HNF0mbvuOETY0Gg!g8G<
zaPyL{9wOhd7>ec3-8wh+sjVa&rGq@)o74|C(G}FpgZH&8P&&wb)I0e`6vLb~n%10)
zFaCV#$qwl}wHV^B%JWPD&Ui3fK3Vz>zJ0%YtlragUAuV2FgY30iPSL=z4-Tz?k9Ye
z{JLn<B@2`eGG~pad6-uICbH0zwyE*dH<N@=I>?-tsGk?Va$|L|p17TP>IU)Z;(fS$
z-hAVyNr>W-SDYr_o#E+m&PVAWkFTDM!DY8t9m|z>fBczFGD^9lbddRM-V^aJ5LGh;
z@B68ubddRYMJd~@y%-b!tY~y5!)dRO2-5LA%b)U2=@%<-nuFkSo-QgQ4=S7wtSlq)
znIe9n8wBZe=-Z@I)QfDt{q97{*2~DO3hDIFmf{8P`=n>cTp8-osmLNi=^*DGJa4>A
zDo1t}IGy*<<%4vL#LcgpDSlFSOMMU%d03Ps2Bm}iTv+CP(Kc=Rt@-qKCmAP~b&d|8
zbdc-EQ+4PXegDbzhWW>I?yaj5XzM{b+h4csgtu!O#DD$3x@aY-7(vz(H6LG_(3~N5
zq=X6QNkeT#kJ3Tz$0n0~hSEng`sR0r9mSVv&aDTcn-{V#Yl&^LazAbfrJw9=SFQbj
zmq9wdBrn$FNv;|g-L_ixefLGs9n!IUS4@$^a(fWGUndUfi1QS<Y&gfdf%l`<1K{%c
z^2amytNz^(@OzqNkj}jF(O_H2EI;txjyp;Rd0sue9C$IaXfGVRx1$Q_*ebUr7cy6J
zA3WR$*nZ`pLyyuyuAe;}K~dw5_6^_+_`~Jwkv4{}QN;KFCkE1?sqhS3{r!^_I7X08
zRpzm01L7o)fkO}J#FHFQSHz_~0nUIQTs~#TB^nz)lrsY-2GaSAdv{9LTT2r-MvzYF
zw;B3lRFa?1g%?MAtjIs2hjcn_ZuwF0L`3klaSc)2T~r?Mh07<##@P0u)m8Tcw(pW`
zds8hjC>`YcqH`r(w7k!_<wnx!#c?EtQ#h0k^0>gaF>Q`Wcm%k33>$^7tELD+I<|ua
z(quGibX)~g29F~jDlgtemk+Wp3f7MT$G<Ne%zGte^SUJ6Z${}LpBwuP-BHF{ULk$_
zzyHi$H)Zt5N9iEXV}WIZL4pILdgL<dp+{B4c6?Ae|Iht<Kx>*f)k^`e-@u`Cko9mc
zG?={V_&5dj8*(Te<o@Rp>lqQ3aEm;!-ylNiAnU2D*?pb&33JpwazRjNAbMrM2i@F}
z>+s?f*~NPsLRMhk5(DWl-43)=T^Wn#H5U#DZ`JQGf^>9GnkeMV*Pi;f|3T>>^U=l0
z+1KT%F@gOL;SRcdkd7x$D`ma`HMMVHj6-R1ifS232buFIan_;TzBD@i7eBp6)BD=o
zA)VNaY6<R{$1z|(CXUiUuEY92rqM?V7o#e;c6t>qq*m;Dqss^Be0!>=e&slCWH`-;
z3p>g9Rx?TmdEWT)lBZ`q;(~2P-0kYXr_bE-Q98(+OGk#={(5XJq-b3j>rL*C!=ZGL
zbN4=<&NQBDGALj4C|z;yQLh}N^TRnpBZe!)2JCyuQ98(+_YL{uAC|1DZ{B^Kq`ojX
zG~k79UdZ#Iptc1=j>F@_;JIHjN(Y&<rD(g}+6BIU&kutj9lCON5!N2c>Jq`O{sX0(
zDyopqV!fE-R`*5CU-UtZO~;9@5<xl@zK+*sT`sAB-y3bdjV@<oKJH!DuV{_=2%fz?
zNzQP&fG7yk$z^ulE>a27(0Z+OIdj)*M-|dBJme&G@oY>yaEKtC_S*zjp{{&);52)}
z<<m`;k!Jhj{deF5K{_h&igDKs6}W+;3hBI0tTX6-)5!@OB1lIpS>*NQKiW~R@2t(_
z9;r%dzJ)Fy<neCb&GwQs*wv)sy`IpGRxamoln!zoR?P*meX=Sszu%xwBg{DZRvV>*
z{N9YTU)r~vevlR=*WO`C*1oaqgVI6Pv#O(eV^fFhk$&E-HyZ(V1UX3Omd4saBi+vQ
zq1xWj(vn*)yB_FrM%FXHLC126bi8t5K2@MIIF7Rh(z&8k!kxFn%_Mfvmc1|VN6QD&
z`N6-lH(Nw(SGPMRUJ^;kAP4FEy8hT{)|Kix2WzCGzZ+%it~*>l)y=wsJapgZWVUoP
zsY49XYaktBz36?-@;W=`2pxA;spMcENQY1H9Fx6O@}!!EiiI~%>^C_`=jWivUm7W&
zTJ>5Zy~xSGCA)5L`8cgDy^=I)ah@W3yF{9re5eM}NgCtR3N$iW88(;aI9v5v*9X$s
znq0oWxLq4+U?!;3>YBtS2kBhD#1$J`LsRaL`QO%O{JPTaO}Kn=gEe2Wt#(k!s9KGj
zw38UBLFpjxPrpiK9ewpB>=XF??iiE~@_6^`fBHUn*x%|@A+y2BJ+V|Hln%0<^G)??
z6~0eu{S13lxVaPtgit!jdV15lLxp1~3l_p}CLK6y?k(OxmopRMJuBY`*4WafcunxT
z<Z_VpP#6mIKQntgbN+Dpa?Fs&uU(Y&Ag^Ed=fiqcYrnnb4UV{~?Lb-6jM72oQz4EE
zd_t7{_2kFQ1BLGN#2}OovK~x+bt>hAq)%!Omx`eJ)BD;e9b`Qvm!4~;AAL*s8m&XG
zF<=}`4(a$EJ^NNNTC5WM{(I+jbaO}6)0=tdbGY|nzuW9NTyF-aT{ubyna}AVx61#+
z-kZmBwSABOGDQlNWC~>#l6i~<GG>;cfs`mAWva~cm<k~o8YzW@CS@whkRe48GEW&Y
zh3fl$JnmWd_xSDi<MnVlxA*(r`~KX&)>&(>{oHG>J)C{c>-A#lQ`9*8A9;P895f!&
z9mA484*p<0r@2|gCOdnCksv1~DZ!w*L3NNXEogOA;0SZwQDXUFJuNk*9?^aI)Vo>*
zWt-M>F*rGBe%`6`JzGWRr<S{Wt*nAv@MklEoF@0Wow?_z<@MH4Tsl?l_Kuq%=kOpO
zi`%Cw^X}sxx!;|7`LX{9vHZw>+vjE~c6e7Mm%m~~zQKtMf}ATwGwH_%R4Ck&#7*wq
zabmV3$hl}-f12AQ%~K%IatTv;wxu9JPO448YIDO?^P<b-L`@IzIrQ7(%MUv4J+&{z
zE(|@a_UK!E<T(AVD>(!?t(%t&oIECO5|PoGw3%|o*n=QvUEo^nQ?6tupB~zBYsN8s
zSQRG+U8li5^GCaVv$h@UXs!u~VcJE8lY_n|DJ`R*k%>-ucVI)FR8~xld7T}xJojFl
z`$1uGu=@MM;?eeQxswSvIcPk)<AW8Jx{N*M8t=ZDyu-H44kriw{B%Q=-FKr=o8|K2
zYxH-%Vm_*YlY{2@eEb%V5gsO)m&5l)Zs{gS(h%eX#a?#5p8D}32fIt~<!Ax=%ES2b
zjQ(BFuAS50XQg^6fzv^dqn_j4O6jJnx$~U}i}l&l(X%)?==&(1jCB$l_ifw-oPL6w
z@19rX8Eo^&bChlb@=jJsHsj==>)qplzPjmnkv4GB2y&F1x;iMdM}?m0v2NFu8n?H@
z$wBAO^!U3@el{It!Ig276R)Q81aWfE`TTLewnd<O;|>SvP4SmaV>4-Ra@HZ|OjDZC
z=Ba0cYD?CA4>~0p5R-wEgRWDFsBp?Dg_5N{FJJR{lQq$J;N+m+^Ne#ezTdm`Y#-MR
z$;O#4b^SRwIjfL<#TCVCGRXF?=FvTSs{d$UE8h8xJ{PE_+2@KEez*bSUWYRt^zV;x
z1+0{?Jm2}^t3LgC3I)eRy!#LOyNQ;S_tLkli5<F<!M!v3$cHplocj;juel3_Y|#U|
zG!HKKr6d<HCubqZIeIrfNYPyB+&6}}%@@aCnvdbk5Bh)cn3)RRvJ`(&bzu!uG&+9f
zlNHW*(0Lennf{Z#*9y_gx25^h2E<Q_<K(a+^XE;<*7eTgeJibpZ>}MGda^PHCua@9
z=}@PU`g%=r*~iH*b+&=uJQ#7_m(hL0kz>zG!Ofp`GR@4%QNPlp#Cu;xIjS~WK81ah
zn%%IY&F=Umqw6s^`-SHD!hItzevSeqHJ_@;Qe{hFyyJz&)7`8Y)KYWT{>`<$)%#tz
zu5sgx2VL)`4Z4Dj2|oEHr#CpAJh&wd?>PZoUmHvm1p1}9N7?csJzk&7{z9~0s^JF4
z9V#CAz`@%uG(RjnX_|o)#tXo~dw)kc0Sxh7!xRn|frIxxh;r79nQN8K3EcsX70&gJ
za-MzSJID4;I2kzH1UWTV3|`3TT7-7C`#mz?%=pq_i|-tT#&e^>T=SBKSV+gZ!RZaj
zD=E_ma=K?O^BgrvpaYH-K@PW#UdF!5tY+4_h8<n{WX9Y$Iq3N(I{aPct%{??!0A7P
zFFz=UL(`V!R$p!baB>K8jy>JC&r|#OVKdvx9}?6%^E_~J(D71=PF!ZUYkgU4`)pW)
z*3KF^f}FWE&*oUaP?-W}_8`9epz#c}dUhr+unz3Z)Y4h4S7i8rAV-%zDPro)z$^GW
zcpd~fzI0WL%QyH>TtA#3S-+w;TMj1&9rw||)88$=pP)bJG)o>W-Mf<vCkM?>ceCNa
zlW955hZ6Un93qc;Rcu2n&pM?|8T#7du1g*rcV(kryVMsa2kqAZHy<AN#;`rdj#sHE
zkh?Bu;N+nF+O6mIJfq|#ZH#wYVdZ8<JsO-GG#*DP+cj|=!)h<h<HPt$3Onl#;L8vC
z_m;)m$bP*1I;A%kqaC0B@$pnMP7eC_%wJb*cD~_Kny7w1<4opU;dQ(m^mjlf>m%7T
zR=-Qz<>>h#Gr44Z7H2$YzqA^c9w_Hedk*^s8O}VT=iazY=Vw#(&qmMex3Al>zFik@
zzu1s-UDpJAV~qO8aH@oseYD}*B&~49gO0mX*JO_)eQS;GoXz!$>bOcloE&t#j;0FJ
z&u>xZlrL0fa4Tsw$IC&V-@o=Lr&T?#&Ti=BluCU~A;E$(9`yS^d!z<m&WHu8`#ud`
zm$&okQ@rDaj{6>cNwSe*#c#Wm#606<IqQh7uLOJbC2Ge9zD8Z*cAv<+)rNO{p?PlG
zlR4qi(%k=ogZ6b;s!0f54*L0yUwVfqmGjlFaNps^nP+tWDKRSlw(Yh=@hW#6K?Zk^
znhu=n3+1f3r*&BE>TH&U6BkWyz>9`7oE&t089v(Lk$Kwk!xv52B)7E}PI}<vpz(+q
z8_B-bzxkuW`>ye;BOB=DaB|S~H5fAcXv;iDK(1Z17Rw<oH!_?YG@h4~9E!AArw$}m
zWS@}umUXSz8sGkma^}wqczB(AO>Rb^)JYLW<L^t5!#sDSBkHSx`%#C|kO0mluBtdW
zXnulB6K{*De`f{`4MEOV#j%ONq=qEm)LG%n4;s&i64&^L>Z|vGlR%J@_;q!Kh5VQ&
zaI6S&mb>yS->J6J5;%ecIq&R6$A;?bmjP#NKe7CLFmE3J5$XRHI1dPN)EieS^+?-w
z0>_sihblLt%8Ylzd*Emg<lN7v-#Su8_xpTiB*>`}+H~fw=NcV|r+FW-JS!_GxcZFK
zzk&A&X*fCPdKcpvqF!R2anq;vTd3K#m)EUua?tzER-0AMH}kB*R_}|_R;W_##>+wP
zr_-mT?xj*OH-wdJ$(C_A8)b(x9`yY)|MJ)BJwFaq+&;~n5*WunsDYD%<|l2h$oD%B
zhTA2k8&|(ra#M?jAV)1TG<0e8vARSu<pqAOy$37z;v0AL+`{yHg9AU6lhM`c%5kol
zx#1j~95g=$QDcsIR;*z$gBMu4_kJ>r!O212v!!n6h<-v|ld+>gfigK`^pzD(4!W-%
z&132;rT5pD+}rJ4{YaHn5GMzX$FBO>g~~iCf#s8j++wrh=4SWc%QHIeva&hWZ0la-
zajAY5@Xj@CdO(m9TS)FOetf*cpVB&G1I4Q<51btI+)FjfeN#rQfTr<CuTg2&8df`;
z9CZHNZ3_OBH(hwLBgX#Y`#qc9=;P#|`3XAI{#;?X%K_0))|WL|c|RC&a?tbGlfkQ+
zqfYJX#hP#Gy<mLh-fxL-ywLeGY5FAa!$N8E>BMXDYwxh_&%wz-=g-F5GLfH53NFk%
zPThBMDzn0uAV=>pOS8op)f_W#?kRn?@c@0C9JF7{-uiA@zhn(ljqIEEA3p8NW5LNm
z*L%C9=zfJ%BOjX%Ctj27-R`p%#PVElX2bKobthN{yS{aCr97o9Cdjc~DST6jM)lpH
zW=*LDABXdyI63G%{Hhjjc7#rviS9s+*iH|r4h@2wZ~6v>7kA!>IlY$Y*^by1@iaI&
z=y<*N<2j)klz*%%<YQknE6s;Gb7FaZr(Y^LO|iWFO8GFo?-Kon1e_c+KSSCd^vJe{
zUD<QvaKdN(FCk_)Iq3U@6%nlp9(uc3>GTBR)oav;I&gB(eN5Q<MO)wPOUrw^`tNGr
zsg=W<A7|wK26r3f7qi{DhqBju9;Dl|?>r68`vsaG+iy+M%4DJ=$3w17?vMYRREcvR
zLpg8XsK}pn&dOzN`gZzQWAoZjf}HcG>5pVlg&)3i#{IPm_1q2(oE&r>MsQE7veQ#+
z8rV_SDLFwOMs$CUsxh84;F8&MQ09%e|8wSZc=u;CKUG_9<m}CE9H!_n7_av(;LX6f
zkD(k^hx07_QWL|$xwOLR0iFzY1Ua6qrvsO?9(dB5(l5iSlTa>5kRx3Aetb&sOp{Og
zxc#{CR9ipJeFN>+kiDvBLdmJ1eW|5-Rx)CK83Z|e>0Q?{XVks4OhP<|);@Bu!^uJC
zk4A$2T!=rVi+@4OGU~2JR^kLX0qv9?^pUz|z?sFlZ=ms*`m7#MnlP;aPBB3aS<s-N
zSD(gH;Di$77%q%H{O+k)3mkod9BO}hNkNBBMc}Xy<nXfj@oU~+b`3ZkX2kA03$L%e
z8<7=p0!{`&&Mlt-%f>2KJ>WPK<cy7`E(qOeUIH9Bf}E|UsY=P(u6KY#Mvx<-@_28&
zZdd|vDt8mhbKi9QHo@}Ut-y&P$l2xEKFh{X-2ogkf*d=F4!z5-mAHY!O^}m7A$NLs
z;@B{7`b~-Dr^Jo%lhQl0V$=P`^30Tt4|51|9GTj=x6N67`mPwMq+4;p%>yR~eJ-%M
zaZfq8)6W_>8U#7#A{%BeCB`2F4hun!&6u;<-ALsu;Pji|%QM=qF8$RyYt!rw1Lpxj
zjzvgZN4V~&BXB|qa#EBE%arqG$$(=<kaPCkmsalZ_TR@#kSHfFwZmq%qX^=eH71tl
zqYo{_Gi{&v0jH86XWgbcrvnbmT);^n$Pw81AYGVw`uBM32y$#bR7tULGX_9Bas)Z0
zC)eH<Esp904h=!hu%X%|=_jYx0jJrB*m!LTN%U0`C~N~x20@NdLL=qI2H~!Ax6Cf@
z;XhmHfs=!te-=8%__s3i`R`J&KTWkg>$oaT4tma1J^OtB@v7z9w2oD|Rw$T#BqPXK
za(tU|U9ENmaEcA_<r$5qa$oD7Rb*E?f#XY%WAF1ey}7Jt0ywG!IctSh#i;Eu7zPd*
zL5|)2Pv68F4{W03N?3AD<#<f70kQn7KD*3-kFCKqX{FfP+?1SfUxJ(fU5@+5>N%;t
zt!H~2rQ7YHij#xhFH{*mcHVtfw*RtK*Jr6MPhK(N<e>9;Mq~-^XCbcaPqJ^fGKG7}
zHtQ4156@+jn9{G#D;U;3He>H=J(oa`<God9HGQJ81mxL_Ag8sGBDisfRXg;Hg&=21
zR)Bb+=5wo-)A?m=JNo9E^@!z%>89d{L4m>)a1sb|4&HD)mu&Ym1~_H}ISwVSO<(eC
zsGc*i9($F{Ccr|F(-(60;n|GzleI2vlR_QqOqzEQ%a7)so#SjO!j90d1e_dnK3Dum
zm5952O<44ufV{=q`&X@Sa?t%SO!V-QRhO1-GUqy+Hf*@9fSVxa>0qmWX#bI0-+dCy
z2bvbtJ9LTVhx*ote_tNoha;PQTsGd57nnwnbFz4a3A>uVM9I=r^Ppy>0xN=?v27{i
zOSkKucH<qgr}!A0$W4%w%o;qd$1Fwu+<5Ghm+7vT9XiDFQ*p&9E6%4mO14`%F8+Rp
zaT-Am&4}CO?%vmJuCH!rQX6QESrO#Cuq-uED|9=*;|c8u$C2SIZi1ZL0v)a%1{wdd
zQ~7(dBYnF%w29?sp~BAp#Es8>mqYt9Bz*#(rQzhD>ucg|ES2VqFDEiKS*DD(8#LPC
z<e=-TH+j_DPOI@-vS)?Nt}_QX1qpKADNNZ|8OC+{=?L=r$n3b@uSG0B{%)ahw{_g7
zWSqWr9k!#rok5UeY;(`&Yg4j7#lL<bwSCLgE<1vpu1`9tFJlz=R~B%$QC}3jBS?@#
z@zD3;Hm_5s2E|QWnn#ot`ZbB=XVvrFvqnLgj?1cpkIhet-^?J$xmz6@9(LW6ep_aJ
z>+_|{zS$AvoHlauimd%n_t@0`>B#f7=L89IGRRjScS~6A+!Y?Sdk?34dA|m+{0Qn%
zm8T~S<p>{R`%GTv6_G)Z(~|J9o4n<+ZC~4iTXi=@?d=G1WCHX*m86h$)5{ipy{JmQ
zOpqYw;uqS-d=Hw7ikP0+#ck{F?cYf(KWo|oH#ctQl(fCC&A%==Um$}Z=VD_N!-hTn
zH_5_#7{p7TFR>%Yk@HS4KX)%f*3_;(`BdjZtsp_pjkWvRHeZg47!kNnclqKq&wh1c
z`5{{<aeg?=r7~$=P5Go)RyBhl$5F5)XD)Nq&0VW)sm}|g9=0RMc^%EN^u*T<oYp1w
zR#`7J-v|=q6kKSMv^Nxalzz^c<(j3wQ@<Lq{7_S*R9vBCV2b>)HAH=~S1yAfhyEr5
z^?CgjC(6Dn6n*N?xMD|;bDrDVyE0`$=si#9^~js1se%MK$IND|i)hTVmatsr6tvh7
z)4zjQez+R-`9*xr=Hx1uvgwe2@y;N~@$Q$}%ya1K(RT0B1WVxr1v`QqyG_~`_ep%)
za>jb#-mbR>ae@Rn@s4ifcbwk7WXgWI(37h&(!ZTpexkO=c6NkE&D<b=RGmOKB$z>v
zqdipaE~kF1=URC<ZDCWKq8&j_ZHl*2_=WqQx{50#o$5w*3liikPwzOQyR=;So{max
zOX|Di{%yqavtxS>S9o7y$i3vDr>3dG2Qmn9Mmj4UV;`-!PBpQ0{R%~1T04RqujsY?
zkIOzjj4;s@9N(8TCP<L;sx)SdX}Et^+vZQZwr#N4*uNEDe$aETr*%*I3Kruo?&*X!
zN9pEcIXF4!x!2XbwPS!|rhW&VO^@mcY6fS59CiO(1ICfk2AMM)zG{<($HWP8T<x@<
zh(F1m;Bf1o=zE>CV@wrae$akd#oPXH6W^Wp$fl=kJnivJ4nfZLoQL6MH@U*1_Z{BH
zGgAG-87BuFuNA&xx6HQC=C#NOgo_+^YL+9&u}I$iOq=)a&GJ+Sn&Zc|+#$osLGv>l
z6wdIddXpY-idBf^nXSlqkBdiJtxOk(3a?Ccs4q?qnxEwT%45f#du<8!(5XIY+h(Fc
zkn=bqGF^iqTw?CBV8po&+gwJ1oXJ`KxWc(>+k%9+c%G!3sczmvEI)=7hbkT<Q+{)~
zCAUfbey&>rK@Pdu{jE|q7gAz2Y0Wz-+?z2Y$k}UavC8P)rl|DU=zGaMt=udGIr4&&
zZ&a@6pXA+krAJS2#IsqMSbmOg&Y@#F;$S%0Zq31GDZ`UMkh8Mc!PMeamULV8^{NLa
zHA2k@a=JK!rnZFaH7m`mI%Kw`k(~u62c6F*3^rTT26+WG@6%)mjoEpjLy1^^99|v#
zeu?7HC<{}t$qyr&+BAZk3&lsIn;2vK_npeqxUz-kxD`Q8VG#LVD(~dF%GWnz?ddYS
zxCwG{Z9}d5U!GUDG++5jD<nCiLy=g1_H6Flo6J0K_I`D!{MNx%+BAZkgjC%<K0|%S
zQ|T`=Q*Zk0Wkrxf!S(Wd+}+Q&RURf#dmd2T%uSHf_Vwx7a(XlW@O9kjc^)p|9SX$q
zBirad_HfmU(-B>Cs~GMdJex+4b7GIiI`K-f*|lTosj|9p^i~8pYeEJ!Z^no#h&jK?
zq6-fa;3mjf5#W%^L$4oRUCL2&adz@>hdi<T7~EL<V9aHcbWqMFqxNIF;?oFn)-~3z
zkZ^q7s3q`{Tc0kp+=?K_{#H48N!81Q(1;DknBz9R<R-`&3Ksd6;WE{Erf9?dqYI8!
z9dg9-qiBEb#c;BI;wJr97Yj;TxzY%7&JVeWt)o!t3s9mPQRO?h*NPxVHt|aG;M<N$
zii8U0=^eUC+&DSt?}<K#>{`;hlA>Q=kG#Be?ZYuaoE-EVH5RftEzPV?I?%dALu+`s
ze7`KQJokzz*H9l<Tyv{Bl+My*nQsO`j{InL1FLbQTn6X5H7{RxrrQzZoHw~6>MAZ#
z59en=oE-FbC9FlFXWCh2OJ5|O^ZQ;MFu;hDgXX!*O~O{Xaqbh@PV$79^Gh@9WQgVY
zO7G_RDkp!L10U^$PWqbMj3LOOtiHF^qvhr07g}wNNds%;^a*k*SUw%DYs`3ByR1}P
zV5UWzkswE0bN<Am^*oI5oKh!^FF)w-LG)ZGjNe+xY4N8XW?{P1>63$#gPwo*e6xh<
zw}?u@^Nt5j4*ENww3P;z>TdG*EZ45e*OV8ys*jU{&YyeBR!KI+HQV0dTq?SD@7^#*
zoE)@Y47E+yJ;;N<M4uYc=giI@YnH;7XY~6L9@TpbPo!7#O0-trW!<5jl!23j=7%CY
zx!NU9=fEb}<)ewq9=rJB<e>T4oVef1)NZGv<py0zW}87}Rh%63cO2n?W$$!eQ53#*
z$=^F_6SYMgCkKs(qt=AsCa3Pwt?$*j^=`Sdk4fUoGy40}W1e>3Z^&00-fd*{vG1ty
z#>+wDQPhl_wfA%1m9;RcIyiZ;C<kXeD5r^CM&J6&`PNtTp|xH$+M~_{IV+w!Dr~uD
znw6MB%MdZ=eL);22fYtYkNGgVR4$K~lhyUN@l!t~hm(V@3;hSQWznqc_k-rNGAo=5
zKa=6)pz9+4Y@EuN$Iae>tD8(ePMeI@N#GlIG|yINUVkmQ+DaKET5ve(c-O-if*iLD
z_5M=jv0X>=jHR_Wi<$Kaa%x;mFT8owQ)o2W$2<OHfSQpY=Xnro#f{=~6sz~{2vB)*
zcC>CYvHTqTk^JbAY+tWkSZtYVZH`V1P7XTmM@<asuR2?1>818B-F<fZOEa7tbiAqp
z`RB9?8H8rUW3Jk6F>7TZ$k9}FzR7umQ(~%klaJ)?NvdXXeEC89^>SX}v1MGW!6$_^
zf?wG=gwt?x(0<+8Xr^IKDV=+Xtj}{7d9aifL5^Nd{;AnZ*<#X+Rx2lZ#8tToa<*&5
zdQmdkjwpKTKYN>!e6eE_zWkv5dhoUR!HqdJTc`BLO*x;t-lP%a<m=rZ3%#z9G~nmA
ziq|OOrWHXB!^8Yswa;^R3@drQo{7I5%}tP_zVk;=eT=Y-aTc3>244+thZwQ^%!~&b
z%S^tCys}=#<8xX0oiu_RtD-F4l%-~kUm{F7c)C0&tq5``$*3F{6)#^cXrWbKdY9=V
zH%<<^F1!-sNBVMHJ$5b3P0A`WU+Nddmmie#*s5b@)A<`STRUCoGVk}s=iua^=O5qQ
z{OacSeCJ0gPwDvZRNoE7$wA}sk~Lc!yd;9P@7lc|Ijj96^$BvmPaEtG9yf_l^0_+C
z*V}Z7g&@bvW56y`iT%Qx@pjFpnQb~9BKY!*uG5iE?Sm1DbScJn6smW6=<}rE<e>RE
z{&17p=9GK8)y%I(^?$veY=@JBK3^o-ONmacf5>InITD~ocX3z)CkKsZ^SEQk3Fk>#
znbaf0{_3lx8F6yZ{M0OXNO~>Zeqa8;T);MZ_BVAKiRF3U^%NoP`sJ)Cf(F7Y-D!C-
z1Uae6+EqE@ab+K`ShH4L-*{1<ASeBO{pjg|b({GH3o0yGs-7_7<e=-TP26;L1)tFF
z&67GCwu&F+?-$0GACz;`Y0sLGs65WXMjhR6&)kEGadOacKPt&`-Zzeewz(%khH|~p
z{ZN7&c0YlYn_8sCkC|Wd6d2WfqmPq=&gZCSg;aIEkG{pOdzQ+g`k6%>CkO49X2jUi
z0Twkq+m5MHkK4z3W`*$O8Rht!H5zC-`-gF>PR)Om8%Zt3$w9}9_vJZWp2<gAPkQ$)
zxzHBVk${tf=4W+*P;{YRwzDp0*||RVrt=;+IcUEc`Hy=rGwmGY;SZ}4KQU{eN|4i2
z@}Xw;1Im`CMGO|Zk2@#Q5ag^CtafD0R%BaU^t%4VF{_q3L1N<-a?S5<#n7yaYH&rM
z<&kUo2?RNE5?3c1v-Ra)%ZAP;*<Mz(!pT9$z2Bbg*@||x!;Ze|lBo*DHpt=Rp!;gw
zyC?yw>trl50ms)?*$wl|3gF8R$}yp<reI3{UVbgS<xXdQ@uLR>Ii_!Nq9nuJQqr46
z&+cdJO!FYfNu%1qJ9g+Y-*f*p=Zn4wGs+R<d>c-Ec~IJrzJ&XI$vj85z$`zp{CpYg
zu-0i_7O5oq#L>wh;o1X&oc+(0#01vmx9vEzMc?FucBThG&g4|6&y5?U4=!_U<sVoZ
z+$%?rBO0l2wQ$L9CBq-0-Q*`Y2WI(*<)>}1jK_!9hjaA;y>OGmp05vZa?t(9m!>qq
zvoTpLSh&}sATg=Z7bgdu&zikGjj0Spa_)xgA~nYc=2QuCmOa=PD4?9%AO1SAYs%?h
z1sOq(f&DXkBO^UZhm&u|LrX)`i+PFVd9{H=P0s5I>$z3(Mo;-Fw)^7bpm|p2k(ia^
zH`ki?(YzIYHTjJOL5_Id=Noq(TiLtz_WlTU(YeY<kmGVn`~{oe{o_-cspl4=kBv9;
z;L8u%uQ`p(aWyR~lOpNU3l-|;hSCUfaxT4B+_qang`2n7la}X3n;k(;@VeFns$B=~
zPakUC5#7a{D2|hZ-Y;A%Bg&qOU#X!bC(GS%UORvWCkM^XH2Gov5-Po=cOAZyg`Lji
zs@p&;&kZ3i#xyf>Tj!Jawo05D97({*LHqUg(8@RALW1)YJJg)Qs}-L(<K&?0T`qFs
zc=I;9qe9`c#<HtdEEOln5y>o?rOyr*Jus%1wPNtao3Zuy@`J{6=}GxoA@Y=h6G;qL
zdDi$9<PhXkxu2hv5?)$RG+U7pZ}z^&nINZIJ^R2JYmbs$Q>@hYzxJ&ZC&;N;$bU$#
z7omGZy&~wCTj8EDZhZMc&#S#!Y4LB)*FSX+Pm9^<Y9CjJlY{2Dc<qsOolg!apB8cC
zw|#iGJ_aWTT^Cz9OP<>L)lT+|B|Tbhs%&9~lY_>?WLhP_Q<<}HcFP8O{cm^DS#WaD
zc)st6jup2MVWe(3e=6%?vRDTfzC5Gx_(oRxJ041TJY;|Nd3Q&MN*Y1VHBbHNq8lPE
zOYBN2&+R`NYekT=LfAS<rR15rORHD{o!cxOH%<<kAMMavW`p7G{(@CCmu#tdj`VX9
z%a3Z#{!>SK5^du%%rr8nSp_l(ax}-k2sP<jNptov`?q|qQ??_>@uD;I4ly4(Aa~7U
zX>I0kq99HVnjd~&&Gtu~PLd3!IrWn?GAqW`5zCL0N#XIv(DEtO#PydhuMpJBA;@{(
zy-{1Cscm0G(t&#ymhka76Xa~q6b-0PWL~4J(!ghF=J!?{CkOrfi#NoA;YCAx-eX41
zp*KZT7GwlDp#cd`70YgtyLin1>(}&~HR?Es<ylT{qyEyA5%VIGw*{OQ*N?{F<e=jo
zCw${zGr3cZ1OK~RiN_l_&2VziePidGD0v?9ouJbdM-C<$7r$n~$w5D-?)W+%%o}d$
z{U(!juGW#~B@Ipv+AnwBSLK@pKC+ebx7-()wk)Y*Czj{HBS{|nN2oGQVy~!f42idn
zA;>99cf2IQUjKRK$Rv}?TmYv&K@R)Imqw+A6fvKLj+EXiaW-Kj$eE2kaQ(@fXs7eF
z248aa@_E&<5zCK9_*h^^{I(?iII$Gt%X|G}aB|S`3XIB0uc>zq(37dlYH0U-Xoi!6
z&cmGE&DRW8jJXFmUkLqp<6}GvLC*8G5Aq8w4!JQ+?6lPGuKSu<@#P0SuPPtP*Wk{j
zU(gFkSb6?Th-D5=4%#mv#k2Gm%ZGbDbNP7k`cqwV#>qkR?0)!pS4gkj9yi{O8I$@0
z-f{#vMpq7&u4P+l<dP!YJe_3znG7cf?bl|nyU&?}-`{Xj_n5!DL501T1z(;~PVc?P
z1KW~}q6SL_axz4?&3$ol(EQ|lJjEU#7)!<UJS^=~d1ST*P7WH6ZMR_5whpV8xh+8&
zpJ*LwX$W$*{tz8cKcuxXR{6yDL>(rj%C-3NgZ^LFw8!fybmRxbf;(yWt{S8}bl~Km
z_rc_5F5_C6w40yQ%cZ}?8r9?w<Yah_vtR%I>c`>7-Gi6Xz906*$w8kB{B@d5_)eOY
z%h8LxsI!kuvBJqg$NdSp$JtL~x7j$Ym+Tg+%RDTIlY@@C!69o^noD)p7p9l5Y;<Zq
z+|P_}yiiU}w~(oTVytMydg>39oMp5b1UYiGR6A~5px)l!m%C?s+ujp)1UYS+H#dmy
zW6++>HfpbPejqDIkRxQ*UuWsIzguX6hOX~~0)77)V)<cSpAj-*(#4sh^w{P!XO>C^
zK@MYF!nz2hlxgp#a}sCn#@N^q<YY&7`A_yMPb=)ZM*kp1gi#PD2c3rojIFD*jjY_r
zY3Kv3k9N6^F%ip8-l2<gTK7}V`*XQyMr{sQnM06cAeyt2wk9>FDuCtb{<EU7&ICE(
z@%}GN$L%{(z2;@Z9z1#>j+29~_kG?M?pK>dUz~_8biJcgrN&5*v-<9FI^l~SXTnUy
z3$EAZc8{&bmuK|6I=Gu`vvT1jsm8(hu9I}~1|2v#=)QVW(l*@9e4>1df>_Br3m&%|
zf}Gll?(vh$&k5b4*h_mUE34cWCkM^*;Wv4~dN)q({e54>$wB{L?YO^Y`K?sp_xbIr
zr)+kT>lWkWp#MiTAg+5^+0EL+0a6Xx*K*%SKfuXB{~z?D;NT0QyUSRmCo4r|4V8uP
zjyoF9=}|^rJ_`AD_s+aDW_%%`(vLG9^#9p?WxB^1v!$$d;AP4+Tlxb}Xb8^d7fezs
zd*z<Vtv#*4oZ{ARhc_N{9@@Nn;Ay$}<MzuRDh?d2OO(Q!XLKLamvl0IT=!z`u&Ivh
zCg$u?yz`I&`MdG;(w5#kt^8~%M~#D<PRJd_yDrf2N^98By|f{hr*h?vZGMm6Ol063
zFLeH_iLmp3b1(btx6u5M%17jtc-K1`4;OdZu4P@#`Yk;v5-Q4cDa|<JLC<xTmMQ0R
z^1j5wxdrchM%OzBh3>LY>4#>OPF^FfNBh6l;fx3UUbpoMR!+$+kJj4`NOy_q<e$gO
zLF3tLS$9J4Qv8Q}s&@9d>6ZO?#~tMqk3P&!GCiPoOL@FBZNY^z24}xePG+;=U<Son
zqdu>O*b$zYJZGF7G(YeC#new%h?%sxuAjfbp6ia6gT})$UfdHiV(JR#Onsd3pzD-T
zM5SWl;St4eGOO1a)w`9j;N+n5S#{s#BjrY$msW&6bcx*{N5zPfgRb{E(+CxlV=d3V
z&bZFiO=<9`;^d(FSccjjmGSx0k`!#3x&soI*5Zu^&CiW5duD@PyW}Mf>s}ui*<;nb
z3g0;ajVHo$&SY13UdpuJeSSI5#D)x<9CZF1Uu_+B$TmAZlEE@TX{Cf4UJm+R!bQw>
zV5rF|!(MQWp_zC)moLtE(C3sungWH(FDhR%ywkV8*|mPFDozfXXYcAO%~7oEDRz63
zgmyOE^q|4XLE};UVp+MlNctu%ue8p-?|g47SK=Ell=JLuutC4){jyWL!aN?XX_*bh
z$wB*-oA70OI7LkCWT{PQ{u44KeViOLp2>)NC#6euJGJL4n_sO63T7n8(XkC(qEaf6
zet`S1i#A`0M;#-v{Ipys=6je>rRK|ex-^Kfd_@dF&W8=+1+3QG-4CNRR%}mJ>ena8
zQ7(7bZ}U{~(0Uma#(}H%#~BH7)S_nJQjf2=)w;aPFgu5lwT^*Ue!c{dy**j^sC%Q-
z)$v1-u|qKgIsR=q+WQ?MUqlASxwoq^dFm77^!ht0YM*=~(6=!?skA?smXRQ*I{naf
z*Q6~i5+z^BcSamOT}MwWKh|`;hmwQ}awSXND@t|T9*QBz`JrfR&P<tc&GeE_+-kE0
zJ$-_liliIn$9f`^nYwsO3z;m^8F6yZeLnx_8m%P7Q@+ZvGd5zyVV)f;h~?*r#;Qxp
zCeDj^&`Ae7criGp5#&5#ux$#?R&|)r5O1K78(nHekR$$p_Ps@FsC+%y!gl^vqcU!S
zoUKo7`---g>G}uBN`AdaEz_|aUw+Vim5+LE_Vn!JyHS}Bl0pCa9Y+RE4!W;$`=6{%
z*6lrUZ~9bly0>q-9YKyydTE=^&;@JwyFG$9Ip}?vU$Cd5jK*PwKwHq$Gfmvz$Z&Gd
zeyMb-ycl_4`TzYLAv%0{M&s#SD)9A@q;QVW<9YL)m!f|p;N+m=wSO7I!Bd@C)F-2#
zo;<`?!)8U01M%@8&xwB*72-zae=2_T{7AGNh!^UE4ifAjN!dxogW4C<p&gL$JOb+g
zB$T5P<`HTK4oD~`<&U=<{76YOU!a2|RS&hJd4qCNb}0W<67nXB0nzwTom9KPAtg!G
z`@7g-KB4kI9Y31S|8#r*@c+rcKN<Mn%K*HG7Dl>8kLdrX|776rkbz1pNRV2X4sx;k
z<{r!+q#34z#MIvfv;&g&_mbZ(R$;mf35mFq$zcaxkiY{89H?iu$N||9a|8+X7L)LQ
zsG(i-+zCAB9}5B$!gTl?8T>;qJMf^sIA-TWIHXkYhy80M<_J9CvtxG9!5`)U%7=2W
zQ(_mu2Oa!?19s3s0*91@&n2Ng%v01K>>$zdSj6Cj>EM3~n<t<{In;ymJlI_jf2c=F
zBF+Ds3iY4>)xnNeLj4U`oUjgH{PA-BDt<5yApa_Hp>h0O^NaT5kLoc0{wU{H)kotw
z_=~{6Wkz^{h>ohTKjO8cesKRl?Vv+BDG7c=CEPEdKJ4dkyM=Plp&b0d4ifCBgmRE5
z2lf9)|9fNr?&qY|0s3AY{7^gETT=V)0nBk3QUT6o=--V++{l<P1NcMv73{(jlQ8c=
z@`58Kq2Gx4zplc1f`-v`Rf`prViL_OoExFODO_L@)sbS{D%|hU_F*2tctZRZ7#a3s
zkhmKp;RxLOSh)kz4ypb^+%SJ2ZkTUSPNLa=Gykgo{2Q2{0s0McF%0Ap^@H_|t}n0y
zA0)btAded{Fgib#Fgy66?Smby2Y#gNP>xD*Y=MD<=LXb|ln(m`l%qP>7nAT@M#>M?
z7pd}}wZrq;&(`}@{xFWfdyQRe#}=Lt6#OD-h;c|sv>6V}0P_L%E!Y>pALcjOAMk@b
z!+JvZK@|)nhe>q)0tecII6z1FaL$GGiTXpm#Uy-Q2K|%5Do8F?@o!oV`xoBu(eK%y
z_0Vxc%Rxu?3sj%SKrp{h2^^5H?}82z>>y!WvoHq-a3m;!3z8t__i8YYnK28@zuz55
zTtNFEQ8yT8SRYUhcF;k>dIW!X?+5Y0dp;O%@MpjPq`1I`@dO=}P!8{LNtMGs0Q(E-
z2k{wV1p_}huTb89T8Dn4?SLKjHS~N8{!mUz!a9R;sJEDedLY67XE{)BF$r8D%n`;9
zB;;c;&SK@j;U(cn%8t4N2hPz@PX~1*p@Tn25^jH*8O8(F6RAL8zW_f<QjY&2JM0H&
zyAanOZ5FuDKfF9r`ytq2+<`BQf%!2B?V%EH`=tDSmWQ6lQ62gLlABb+B<wJL5EtCf
zAWvvD@B=%XH^Cp)CF%$Ms6_80FmK>_81?_F>w-TSAnad|FX%taOB4tG;D?qkrjz0>
zRu6Ca0n8B{*ZY_q;zq|8<~2yX?V<fSh*gBo=YRwHViNTS9rk0W4|dQ&f*qA;IjTe4
zuzn0NfHWqJFbU5~5D(f8Uj2{OC)LiM&3%sq26;uyWT+on4*Ji|N2vE_OPEIx2OD+)
z&k<lpr5t8J>%)Bl*7bjCoY8px(SOSTe7^<u4LGNx`8kalVE+IKeo!Cmq&VPT0v9+X
z@WCB)R6_ZGOTv7H=P8iz91U^s!UZN_o`XL~#ElI6;5iX=)Ne5z^0b&AsW_k>l!F92
zD$zKheUOkhQtt(T5B&x{aDfAMq7vnR4ie%3iMB(^j{2cG)I%jHKd>ib7mz=YP>xC{
z2Z@%W^AzGC<&W0?zoNr)2=o`#!H!q{(fZI1C3XSp1a!0<Z4dlV3H5*nI!M$XbSPg;
zqFm5HlBy5$5zY&E{opxrvGWDW2Y*uS;I+ekh1Z{yAH+wh{EynT76Cx}AW?VJj_RmC
zs*~~uJB<6U8W(6E_@ILXJG2Y-|CEIGfG-3We^JSc#U=YE$0zuU+SkR&f&C60FSNQ8
zVnB7I_}^4$2bHi-f*mS;fQ$dIgwL};I%DmDT&($%Kk2_158iKqAF6|$l!UlJlJfhr
z>}Rls^^pLcBRZ<0<p&W5Mns4C{ImH(F#o20$1IRvG%mD)2x=gq!~7#rO!lkF;k>Pb
zGz9sBycuBS=(>bz;0N`<4)5Iz!LSGiar?cW=2!tM;s9|kmJf)76vqqOcoyT}9X|+j
zF&_BgmFWDn#aVH&IR0ok%zp?6jnfMXNJzAO^nF_}iF#lrH7}tYB-{tl_D~)CQMs7k
zuPTTB@FD@IV2S<J?I6wkuEM(c-GE%6alp7UA%38u{$L0BN6Yc9&&Aq-cu)!T(7bSC
zj;k?=>X`ZW-`)9wVG#-QU=g=Pi}^`-pnsnhz88bKlgcZp_y$n`rvIwvMH2Ww-3<9K
zM!tY{AL)M%rh`9v-z1eMc#cK=fe#5Fwf>+Sm87^?h$FmjK+OMVRmj_762=Si2RfQK
z)DAjG@CO~{$zl@r<z*NEbl`y`Wry<rHOY&02qZ0b4g`swL%@CpTi+miNF-(ivtLBY
z%dvKV4-)1F;{Ln37P}%PN!5pa1|;m~AWbo@1}5RWZ-(g(n6$$rocCeAfQ0WSfW+K?
z7cftMH((bK7itH8Qsv+e?Slk=h!b>PtO7`=znDbt_wcy_$XIMVV=xIi)B_3QBabyG
zg-OWoVsVfv$D1co_3_%xuz3&nn+I4$xZgk=z=QsRKlnj8Ua5r*EGiePFNQh5e00Th
zhy&*NVw_)94)Xvc%pdrE&vL9G$Ro^Kkc-6u`Od-|L5F(iJ_O~Y{7KaV`+r)(IFV`x
z{rfR+Uxa-C>e*ozaDE3nNZ5Zt2MPYLKZ33U4w!`T+>Wh(@B=A=`GF4A(Q$Rg3JxOv
zP>+;6iTI=Kq4h|$5ARtAF$dtpVtOzpp}!~>-hV;<p&Z%+33iaEJsLAWIV$Z*<QX_1
zAs*0ygW7q)0h2HvV12^p#)#YRD)@te)aU+C{<Bg9>o3$h02i2)LUaX8hxM@rsgJn-
zn~L@a93X$73&X`C64vD+Ze*nVim{5YUSNKKPKpcthW^010)MnWU`HjaOR&Sf2|6jc
z7$4#y)o)VuQ9GOmAr8<<<p=Ty{vgr!tBcv89Iw<T;YcbT)E)fL{-b`dKcnxR!4L8d
z`mdIx#uM7%g^T}^gmW<Dk5sdZ?Q^8+{j8l-|4G?_KZ9Ld0s|&t{{so*3lecBgZr5_
zQULcmbib{`UhLIj{^&eL=Od~k&HVnk25SG+I+`yuZ&g@>c<)#6d)RH*{e%;fFm51;
z_5<dh1_prm8!;XD2N!7o#s|h3&ewuiJs2O5i{O4QuEm~zPGJ_vC&=F&u?uJqwd2*D
zF-J5`(4idVEw;`X(F%y}i|C+2J!lv970@9rkWde#3w8nV(IDp%7+>%wDq;PC)W_NZ
z30$=N02E*n)sf<#R&}u&@H_(NY1pUmo-3eXxX<I&!LJs(SdK|bC_rR3qW@79;w3fC
z&|U=A5a^`*As+At9hHz@u!9Z~>_jCxZlFV+QCUi~A)NJK-&4i*E6`!S|LS>-GpwI>
zgXc^otmb0l#fAAzEYgxJR?b7h59TR};zi96_hOECpPx_;yw5`Ize*RwK=3;%;6l5o
z9m*GzP@j|^<Q>idr2J4jJ!&AKqkf>1l7NA7(ElnD_HR=0!2KF6CuK+dP<^p_<Y<Lo
zq?0;N{3856nE$a1EOwtjy9?)7m}gR$1K#H%1<W7aCl=Eoj`wguLXukNzdx^%sQ2GC
zLp=ZOcG2<vqvHwZO_YoF3(7&F<)m~{{-o@rI7IExKT`E!J})*eN!7<|hvy-@{@}M*
z{NVRjlSKRbv;Bbi5AVOBKIoKS_>0P472jf<#mW~;52^YxSVj1Jc@w6?x%Mpb-h&-0
zhkYKnaNdIPM9)`?>7?RE>yh&Nqjvbd5%e4B_8-NQtPk%G<uH%+m|ThIG?<P`%uEK)
zhYVo&#S-`^7VI#8s4xeR@H`Cj46VP|_`>``>!CWzL3Pw0<}paL9CVoHpf4tQF$eC&
z9RDWekpC4(yr9GPRFGma7=M@_X!+0TkXM-hiWmUiqks<aq7rRyvH5}e|6O&M-{?Gs
z{QO<}^{e8B=K#nLs-x{BU<QzAIXstv9o519XUqTA`R-@?`B#nWXZzvwvlagF|3evo
z`vSVJ!Tkq5SNKDX{8RZamjQ=AIU;!f24TQ+E9fBQu>%J>KVvWlxKDtD_bc$Zi#ql|
zG6n}L0AmuKTR_712w+`+y9RbaN`fD7w7~E;m88}^nwS4}_YPqVF7`PS#D(4$VSLg4
zp*qw@B|NXAc2fE}tN_l<FdxC6)Vzf9|8*%yu!ArTBUpWSjs_f*TVMuwzXJ2u470<z
z6=Wb{2i`yOk7WQ|hd_hh)9_OKX4(9cFOcAOI3R&5id~=*%2A2>!MuU{2&#h}J+FFW
z@jIgpVETPbGGP+9@Vf%gp*lJ*!4CHs(D6#5_3-lX`u$bnz#H$M?f0|m;#ZyTVE(~=
zNopPc+4=dW{XZuI@cqslq<J_egBf&?F<1f2FYp5$B+NU|!S6pUp*@iQ>GuBN|C51#
zGVo6Z{w^8t!~(6u&buJrV7f0>4$oa^zu@@{wWB&bH>38ynhx)uATIQKVPMBAc`-+n
zi?=>rKWGQ9|DWv#`5+~KReZqzRlLPGXnUx>SpC0R`QJVMzgj*?#e+A`c>PGVL)89v
z+h0ia6W$xbdmBp35$tF^c%KXsK2HOQ`v2AR7Azns>~j-%-v!@mW5RCC@cUYj^;kk!
zu@^kT*m>YS#!JWE^Fg^SW?zmZ0P@O>*}K;Kb^$UI`@OCN_CWw8)(*@!kT6c{*hMhb
zej>(&=TJ-~13SE*0tw~&uy#O4CH($M0xM|1z8E-(<*OH~PmbvYn4cx4!#ag_;P;Fm
zpJV;KgZ*K@T5Nn2Fb<qM_%R*MU#P^27Znf>DMtmYKOjl@{a>{^|6lF+KmEp)0rY)8
zu1bHR)31t`)V@N>{ztp~pW>2=3+_9l%74}_h*bdjv-MH`B5dCV3HM)+s6RZfgG9@*
z+cO!QkKpsT7`We|6-elC&VcW6kZ>bxhWN4DEn&{jR{T}%7L#cBSIxIG*!kit_61>o
zY(U;)<LHgG-(&dO#U-p^&>_56*Z=?JU`Hj?2YUuKFmP^$b0(C7gmTb#VezG6=Q|3l
zAM0R3Vvd=Z%)kzI=9mtD_aq0?tuS5)wsC;OipjLF3y{iCfKzH<Txw(@0*4RbyvOuI
zSX>|xH!`Sag!zFEesB&1T^IAi1enQ6uq!x+%V9eBP5<us+Xc)&A<Pc#LVa*gr26d&
z&a+^50{|Enk-!JHX1KtlC!*USIw=*ns04qogT9#jS^vd&|10IB@&a~{f4BZZ+#q3p
z03GDttzW-7UUlq;T0+={1p9<EX1AsKt;HnlK!W;#KkPTKeSnVU8T3Nfz_1Rj!t@^`
zI*8t%fCCb(2K@pFaiV^xUV`0c!H(YFz>dlw_1`QYA+9LwiyFXza=5<&ryRS0a~jkK
z34Wv`oEM<n7rXC*4&$;C%kvdX8iNBSvk)Eqe<G-U1iQ~8)yO6>{tdJM(-Yu_J(yk#
zKZGLTKaAX;Nx1!PM(;yV0D1X@8KD2rZ|EP|FDCe68dh($*l!niHvcBwHvT3>u=5Pe
ze~^%WkYERiVSg8J&I1F?1CU_HD`9<sgmnfyIM;v<To@-MY<x(K1Drb{ZdgYQ*o!c9
ze9?A}Ve<vr1qtUQkYFbzk1sM$L`YR6XeSl7GqT};A8ap1Se$H_yhdUjL7whn>p2@)
zC*c4@;)ihnGZN14{|^|-K`xd*@PoL}e4_1u|NoloCNa<8oB`iQ1u2NkZ^$1=s0aF=
zoi9>xfE|?(KS)yXqxBZkNpXI)9pd;^T;M@IK!P1_JK&E>y!HR_`+H;n<_Aa^?_V7~
za6tke^q-Yb|F0q;e}9#DAP&eYDIK+={!orrLVb{U>-|wbv^~&4;^qJBI0B!Pgmy`l
zqjvEBvn0ers(rK^bX21Cp&ZRG98bKl7qOswVLCj&qUTyTmxF}%pdD04?NE+aYG96}
zWI9h4rN{gHc-^z_#TkQ}d}0~M+icu76-nK)FwQKB)KSte3|rkoFY;|_iu}ku-#p3S
zeT-p~O5qh<<8=F9-E^^hBryMUVcI}S<!N?27k7;aTNrnJhG_5i^_RbL@g133y2Q1e
z_bk;D3SlKKt0A5J@|;gu#_o*$kh<X0%vxW<-6Aw|;ZUVvl;DU)?vc}?iP3&;>UJM!
z1FGW=wp7-;yBf=HUv;V2OG!u9`y&Uph}4yc0uB}a8%F-jZpZvL+&JuJkeuO4B|RJz
zq&v{2Qy39za#vcZX2F8%MRGRn%EzrnVmFQ)m!Z;YicSbN;_uzv^Kxqas{A0&&6R-*
ze8MXGhm_@VThbyG<al}9jqD9?oLH%#8?x8WRWy0~H<je!p4It3vOefJX=~3UY)v}D
ztS;4G*Sx1ojLqA5o__26&8wxG&K(qba_DQrb8Vhj_CDsU-0=@*8tNS+H5#)+$k(}s
zeY>MzwlS+mH^pFng~YZ<Et&qb65F8Q@Pn62ZZ#RoHysg{vYfgVpR;wO-6TFTsxh&3
zr`4ts8FHid`NmnrQ*0aixV%P3k6v?GJ43eSNp-F9gvAm5dwx%JZe;WK&^&tgYJ70b
zvV3EuioRWTo~NXle5;q1I#d1-b~pTLU^&0!6idJpa!RAN75+9%Y0JX%o+?+%na=DA
zyz3G4?4x;?TUP(nkh7|Z4wdwkt~<W!P5Kggfpn?gyzZ!ZF<eaTDtu^H5^Q%#wumDC
zJDvDrcl9WjDmst%HA#EjugWk6>-{+QHMmOd_~Q?GL%nkLZjWUZBr2oXmha;||KQnE
zo?@<&nDT~>8r@ROj>O$O192=nY*TNZ-G9?Xc$1o3(fp3xD&G^^_c2y6XKAo#nw4;w
zmrK43kGxTO-H<u;rpqwn%$29cXT|zt3%@t%zWkP2e$_syqLwG(vLf@lAARkueO1r9
zzYevnI9|?AcTt4GMMPxggYw2^*OFD7MlbnS?-Z9e(u=x7_vvot6Zh=Sih~?6?Uf-$
z?7kM~vqMZ;Z@$0xNlDjS#50A~NsR7=@pS39=$<z5md2#mO$pr_nZ51B=r1^aXx7cR
zE8>*AR_*(>@5Oz5*BsYQm~}Fe`)@2rJ0yJj!85_(he>qrIFH*1CrBsdM&51C(rMWg
zleX=#(d@Xk&9j87hr`;X&ApcJs94U)Hf2i+bjyW`%6=ZPt)c(+c75N9Hi_4gLGCSI
z9?=MlU0rta`!pA2rvF(V##p<auTSnMc`k&ntf%R_KxW!w9q*WWn9=LQjL(z))8TxN
z{X;?=PqIu;wWf#5(f3^2Gq?W%<@O^z8wOuK&lDEsp|9{v5nhv?G$MYo`Ge@$ob9zA
zxxSS9#y<{Zai&N&CofDp+c?nG%s*|XOIJd3lGSfk-qTQ4s3J*K<tmNOi5TN;B9_Y6
z4;H)F%0?Yh`B9XjXFJfo+o!aEXHx>h4f@lDKe7jR^X1jc7cC?Rxt%r|KKGKwR{Z?*
z%)yqXY6-zMZIcTX^$E&L!o<Gl7}7sn*7?+PpY2OKrJdKr!q2E>#FXh%ZS7INH5z@P
z<A`;DqJ?wP%g^O(5{ivSUJTnm$)=j}?i0~{bjfkYu!G#PT<Lh7gv*&qD-S;wjd=g`
zWrRUdeZz;wmVh{y;^%B1ewdZEio9ltzb9#YnDL9;6N{{F)7|S_d6ExK))_n>4OfZ3
zE_3C~R_b&c+k;D=Yg6udytheEq)GYAF!gYI$Jpt-bxY)BPm9|cel+O5r<8xz>(fL^
z<$~X#PiN9s8qG%AJ@6dKZnBoSCHpET%08|=I6=qh-9m7+&BnLIElL@D^zSpgII^hY
z0-CqCG~C>+_=P%4(SkYdU>u!hY;AwpVAhw=>)93&{#Vr;<&>T-ywlDoJ2~{>czxsS
zsRyPOqIbye^t@%ykB~AsEp6SWR(9gP$Gl6F^e5UX-u=$O!S@etm0Xhjk?h3*g;k~&
z8zNR1<Wq~>8ssQV8MPPUZH)?=invusGfOLE>|^a0z!KQI(NN_|Jd216<yEWguZGuG
zrApk>U&A8ORB$3DIw>+~&CUkCRk!YK=Ve~*Zz7g!x7G03;SHT`CTb!d3&=yuBdqi?
zj%;K#eXYKy_)HiVi)qBnl%|MPk8|i}Qwo!|yd{q;ijN)p;L^Ekm(h2w+XZQI`q|^b
zUweZDSPZ`fu2^62`kij>C%^2MreogK><7x0J$_BeJX^<Gqp?qH)cpg!q%oQ3HS)}z
z??2mV9QC}q{!ZXP(H;qoV>`uq2Rf64?a0J#Pd{E!{m#Fs-RF_pIrS%w^Ag*p6E3dI
zd;O?7ZKH(}V|U<mOZ-Zy<lS5>X7_%WhWL+6ZR2rxvujBw9p&frvLxp-9!+tI0n+R9
zhnr}oTm+5=T3j1j8^1p7eY{io5!R=)LzQXLW}m<NUKI9D^KHFclX|N7aBNOOnNOk9
zv71|*)^SYLFMU%hI!TuEDlE1lGB%yL<GDSbGP#Cev;S7f14WKBNw43DrYf^GPTJlM
zKPjPJl(Oc`a}!qE{mtTK88ckUIz!E&t#;N|nAHo-r!)334JaM5Z98=KO{JyZ{DgGQ
za{jHlx1txezPQBpfIoAHBb`~ZX4zAVvNzolZ80OJ+aj8_C|uiOI51;1x|LVd;-r-O
z?MGX`7-%dVn7me7eej9I#{LVn7q(P}ofz3EeUaLP_txuBQ$3%xGuLiE88x|_>9c3z
zRv(LP{_y;}W&6y;)?ee4+EDvWgw<!mC{vKT#%I^9ySshD4&I&{qfS`j@%~Oj?y^#G
zMrx}wS9v2`9UjXa65Q~nC$x7ry+aVMTYuxFtvT8p=bamSIs&SEr24nKy%IoQ<TUx!
z?nae|az1ZdNFFy`1zl_qlf&kvPbHJXy*TnbCzj0>onCcCu`W7zxv`Ap<n(l>beQ9Q
zgD?KV0aPjHEl2%WYbl$_#aC*1<@R&^XsvyhbxtSxf(CDdmdMv7=f7>a{$1zlGLQE?
z7JJ>_%P}g?pN$b^_lR75^ANk>5*hpXD_5Jz?@#UKmDijfa_6O3Z~np8Z*{X*Nr8ye
zOl_pCI>o^^>`GHh2Ms4qFSy80?VoeEIZ(BqHahVNMNbQ*{B~hpcJWNJ<`9E7wUcC;
z)ij$|Z?eAZ*Ffh=?Vf7C&^2Gy?a!?(u~K4{L`kaIMS<|JK=oBd*C|USZ_wy)OVL_u
zWzT*ewpKcx{X*WID{T8!!4<;-%+2m1b)(85Cv8RirpUv_z9rMjFo|?8F{$QK@)YDY
zz3sd9xSHw#t&}N|*UQ4%CzPdld}3A~DB?auVKEbYJ9iZo-N6CRqyXbmi~eBc@5*P!
zcGmCT?X!yGn*T%l8y-my_SZajZjHEB7O0^XBz~Ih_UE94p3T~^lS3M#JYMAmW{+HY
z7+iPl8BHz|Zr@S(LRO&LrcyNL*;I+O<k~mJNhg-1o|9=gNAJsZ;q##+!B<<qUe468
z*>;_rX(q~`LtXH_yRmapMwyi}yS4LO`H0dr<eJmP`kU6}Z;PkB(WbbgElu2)H#>m)
ztJ{Tx?`W87j{V3io!;+uK9XHiEN{lqrA^(X%Hc^w>$j1?qxKOUCq$~IUx|L0m{VL<
z5fylm#ofK$k*A(-y3J(rBfq0xs=Z&2eJib6lBUM86t&i^r>OLb)Ht`^5z!-$yOdwg
zSYEQ1K~C(W<>1<sg;(+R6$S%(@p2dKIgHv1S5H4#|BZ{v;IOI<^ETHL3K`BCYxXL1
z(w4l+NaE=;GUyi>Dq$!Mc{et7!j+BFly>my<t&b7p;>b(iRtsS!(|orB?{lx<+#z;
zvoE2ykeY5#qHRwrFB7~duw-JyI`g6MvqYo!V|{X7-w*WNkw4D)#W+`tBft89i?M6W
ziO!g^3yF#{Ys)euH3fRLv-hiz`BM4M+&U9wKCj{ZOn95xUMJNosw<^JZ(23Bi=JS7
z)^vhH(kD;6Wy2JGr^vcbx5h%JEzjmK-xXgOd;59d^<@jo%RbD$-G1UzJEKq9ErnIw
zRZEN=-al+e&Dr-(>Ac)-t{2v8dR`}nXf9J@JvA*A|8OKLEX%OdJWsGDxvx4yqW=3%
zjiR9gDN8f&_8MO>SLa;zdc}|VEEhM9SKG$Fp39)KsyJ*T`bd+Hihn)t#&CyAMH%D0
z!j0=I*X0gxI}&Ytz0}7b!z^p|n19(UbAot_@r2_{qhE@@lbHJckb#9f3KOAMJJ@0p
zs5j&@N=%6}^+mq$9#^!w!1mSGZiwCCa%P(32z#yBb1l<tZ_iB@*9q(VV0&|pcJSiL
z8om!ZFR~Xfdl%-nKDyIm`aHzy!@8b?btbJ&OT70*f8_9C)-^3^XK1MWZctw-_UWwr
z8QQ=pdYKSu)@!VE$_Fnf=YCQ*tD5^*p*|?H&EhS;ide(9$AeR|PuGk+omm#L$<;H9
z;zUTWRKRTqJ)XLy+V9^vk2E?YzGxLX+fj7-m{?W4m^Qb~)(408`gj(`^e8j#R96yw
zTTvA~T40)6LUy}tXzinhHmY4&G4d87xg2#Ab%)B8wye2Ov%QMzj=^_#cj|QRs13~h
zv;3ErYEV?i>$pClZH+SDTAZ{pSv4-uHItH2>C&pOVj<HZN3BaV+tstGLXuu@6*0~n
zRX7&Ff9~j+?<u#xs+DIRoFGf05Z5@Lzpmh}THfk99!e+9ZCkpG=%YW-vXXU4eR{@9
z>yp{PqID<W2pi)!J?XZ1t!_X6Wp=t%JB^$Ur9XJf+iIMUHMq1}q+&8vJ<asC(S(Yw
zQs2s3?2rES1ou3?-sN9UaB4Sw0wb4C+h{4Tu<tV5-dJ~WowZEIi-JgAquKda61*PU
zY%0@wYd)U)+|m?hyY`CpgQszfxBPUx8)`b%H@AL_O5a#0FPdNxJb0Dv<h5r{c5IWV
z*kdgov(Ll5=HC9smhNStJO<S(dj-!+d;4llByg^$TD{8J#3ktNSNgcOH#;)!$hI(>
zS&NA|zDm2PF?1ng`bohny_4TI9L}7ie38MkZ950IW1!lr1Cee94RHxud_U#f+9G!6
zWBcu{8;trU9@eGwIm)qnBRMM;USD)<G50@8|9+|Owjqh2kK}7A{d>0aH2;V^lJ(=3
z*W{4N<gxOL@9t8c+cw4`!A$qL?ueRdsA;|D@w}q8tAhnkuWOy^<`_^o7v?W-wEUi-
zIR(ol2l87Rt=6PX&flkSKI;2$l^e}IT{Ek@vM(Cw%T=7;r?7iBuF$x*AzwS!G-CUa
za8;A=){j&t`d1zv=14v<%a&*soA~)+!x57eXGKh!j;2voS-q$_^WFFzyT&zvBQ(Q2
z>I2`oywqivKIhte(V#{_;dTPQ)1$MpovZT}JZ+Bdf9SMs<G$rgu0z9-xA@vqm!5Tt
z9Zv4trRSK(s`p_T*IPR0snb$)S0*cNvZrlc+Z>fw`cCLp;PsMM)hCK_4VH848JSq$
z*SFeS*Us}KZ`%sDq0HPX?JOMb>A^OeiZYM$3!mculx+3RzJ+7oa?6K0A4YvXtUh&$
zqr9y`RoG8t{@LWy#ILnoJ4Y?OC%vbBP-%-Um5E(>k;3DBlgVBue{rUo@8`}iO&P2U
zvn^fDB0J+^)VYgBD_1o7+x(h^=6iC_buNBwxHj@|Ci%n(C%TWtdll~vht0keIhF0!
zsdGlW{Pg>M;_-Df_WiH!F0rtA@ZqR!a6*Qh>sDWlc&l3<Zm-Z`zi1gULHY35%#Nzd
zlLHfn6xiKW8>uE3*YDuW9;bgI@qDv};x4|4Sg{?FdVR?~=4&SRsMqWad;O6!^2y32
z<~=$GEG06^X<o;Lh$NaFY;|##-+uSaU>#eY*4^3V%9*pfyG1QUd4#WSY}ntnFjK92
zu3qYSPWMQXbFp1xJ9qUe&!inv9XVCmI?}>A)8))$Z@S-FU-+gPWpZ9;edZ1dx`B7M
zB$w1oh!2JO4IUI`Eu_mlHsLquNS&*Yy}l}I<I$YwH4C|}qkXyg<lENLF|!<99!X2x
zb4PyI<17#JRM=g0nJy7uz7=wfg<poWqfgqmr+7=yY>xY3^uWF9m0tc_PoUn}n8cow
zKl+dSh#pCmi5jj|H5UC=I9&5;%5y>b+1aD<9iLX!-Y#28zJ*)#7EANL7Iuy4u?tD!
zj49uFR_<8nr(0Jvoe@w_G<5Ounzvd(f!hANe|T+=Iq_az{?4Wmaf-yY?w5J59c5JI
zXk{200#sLA|B}n)oix$(ppm-j71depGL5l<!g8s-R`==O6gS<K-@p2j(AET9auen4
zntCcX=u~u6&VDWqd%!JVz`KV}+~6MjxYTtG^N|_<!>dPBp9j78l6JVG*S~U9G=KH0
zLyE0_O;ijv)%lw5S$n6IdtY?=HT^#tz9~GjrfD~}ZQGh)l1yydw(VqMV`AI3ZR?3`
z+s2>wyY@a?2etYtblp{5Ro$wGg0UfC90n07t$j=@%0Znw6Icy){~|r~<dVq@15$<S
z^K|<kq(jP_!N>4cujcPQ{dIb|OO3Gw0;xnJr^zT>nZD4+lUNz_4ojED1lp3P*>5}C
z^rg^oOK4+<cp5H{>FdN*+9HCs(S)Z^wv9bjquQph-#v*8t`<>}dvznU7VFNxl?V6u
zU{}bEzCsr}7>1xiO2&6}BoVCR3*7h-I^*%G{Ijrm*`G%WIFTji3L7=6VzEroFsL;U
zjy&4IhYZr>arB@TeFQdh#be7RcADE-;bP6ETc#uYt%lDAMUrjk-!=3Rpaa8LHHPlx
z89x5#%)Hz~c9>V?-YeUS@ZvX1bim=lKDNxUp>=U_P_%`*7pP>*<l8=~t$((!Pp~UD
z-M~NsjXp{%8=r%6b5mpD*KWk#bywO!Z9-SVs4e?ZsJljzp7fn2ot;Q#<;NbtDr`yD
zxYBy1m0eNAc|@!`S~q*~kPniYG~m$-Wu^6?>|#{n6-S$~tbRXyVD@K99E*$elX9^U
z-lY^+xmd1Wjd$<{R!j8O;r#`^-ZAaHM|cAHDf=aA*#+<;1<(5qIx4tVrWDG6S}d%r
zrHs)8+6E0>A*jBeOXZ1Xu#Xn`fIvKPn}xE%Cg@{b_`m~$vn|*%_3V#L7;<%hn_4Op
z3x-Kv08r!QB?zn{&p*}$5HFA^r{M@jkf5W4Y~VOI_}%tGtkg*l?HI$R>?Z}&$dSs}
z{67F#58pury8#c{@Q$QI%h2O9Rjc~{5V=(>YY1EBA1?dGqu@DfG$c<HU=nQ=EZvf)
zBQl)EMsb}K7a$feF9Y|TG;K7?J%i7->^=x(ZbHh)7|3Xz7uw<%Nzk8WGF{BFP*rQI
z{U?zwrC|)|20Izt>9*>Y#>d&3h&fGQ+nL$QtVOo5;pePf#qTvLEO!fyBPrjRqJ|-T
z|A0#ok{iJ|T^ov!Bu%Em(kGK(IMYdg=BqXp$jW+>2i7S#bft7et!0?AEy<?Tea!_@
zh^4R=1vz`Qi4+hlsTxd|L3mKaQmVaw=!w3)x-Yie0au;3>&*NefOlWJ)Y5Rv=fV23
z&BuZy&j=|s!#V$(;Ifi~3prnAVu{Q-P4C+TxQ<mdZ^&f04LIsRC%e;w14t&M;C&(v
zD;)Sby1R4a_TP0wg&UN5W^HV4ER(0)8yj*EIp-b|(!V>?8Bu$p8b2v4DeOILSrnA~
z)dUhS#x0pY(evleF~LBi>NvSrkaSHzt&(;UEa*`?D@;0*#cEfpY$aFtj`nCp{uAH@
zWBplY3D+(F-xGU9+0kk;`N9*m7tYl8e<^y!qepV#_zJta^28n$xIFfec)atsi?^})
zoKO&{sI%Bc!(+rltJm@Tcd5)L69dHXuJr)JECX?rI$CXtbN{+Q)K1UwQGbIngAOqY
ze7L&aX)baF_l>#B)m%0+HK(Ic{mst+?4fYZB@ybwbq;oHjAeT|L@(0|DD;r58EBb=
zz*<$>EXeoa^<P0iob$&9@rNVk@#ljZtcqP>)8V<yr#fhu6(E&5%hKeGy>pa<fo!C^
z=DBuHL;=ik2;$!(qM&6UEefFYweq{epjeNP79>nEQ0G$`IHZ#zBiAnkMD*hjdX!qH
zBCb?v@4v^SXEnx$6xQQylA)ai<C#(P1q5diCt)0w;c*;1qlY}Ih<!B8#9+|v-e9nC
z?pkt*iCC%0z9kgemRk?L%cy-1;SU1*WRofVN72)Txb6gEqEblPC;duWh!hQQ?16f8
zQALNNf|Tj`Z+($5AT02V2vZM56dzJ4A|iSu#)=Jn8QoRes?CVS)c8&NWm`|<3rZvr
z&|RJfov;sa@7KGVGBwgEiBEXs9iksx#Fi3dipRl6p(KyPU{E-+E@-+f7!FSGj^lP@
zpdXrc4iVg|`#wc;6on<oAgN<c<m!DSYf@3-j}sU;rsg7-rVffWKoL|9bJG@hV6-S;
z)}cMzNueoQDf%vP!yk%HNwSd8f^gQ;i@__M(u36G=Bgbg1&*^FPgfHG*M5~OOYCDH
zLax<&`v@mz6oMJf9U%;)BxVxl<`3mf3GbH3YRy{^9#%taNT!k6fMXk$S{l+g?St4h
zl?HRkp07ePg2pd4vHLx;bPki3jO8jmm#m&D-gOYqr@(Q1c~uI;$F}vSwO4U7eNR~S
z+(YYJ7dw>O0L}fPmJ6)y_<&}DxTZPB8lQRa{TJ8tKi-Y^)4v?A?v!J@Cl8#z1}QUM
zlj?+V?XPJT=^b=so_SC|yB!+I83dF8YZMDOqU0$@z+mY>EHve2j&7{kuL&pjtB_!U
ziOAejoNyZHeXK6>YTyl44~`%z#nPLLg|i;XOsBwVh)h7pf)&)u&Bo=>@7acW2iA;{
z`ijOCzlM8?N<wG9G`c;ZfR|b<G}S|{2LKc7utm?Nym))k*=-L%X+Gf%2E+-U38qho
z>F~U`=*pegimq2onRH>S3M07RAHy}bJbg9doILsd1_+^d^5be|+-vogzlyr9GoscT
z7-G>;b}9>7Sq3-C)|v}DhowrB*kT4L{(<yDk0sKn7fz=1Oz9M>s|3(6*nux(&5Or$
z9KR{YJV}r=fQ+R+eBPDwR*pl+geUjI;&!6xk-02$h{*v}0#W7Rx;F=}K_Gu85hZhc
zj}bM)E}&2{EpV>ll<*+C*AeYrQ)%$6i%PI;VM?kcEPK@c)^!3O`v)_|uq=l>>*PiW
zehh@|bxvyA1a~-s8i=AQ|NA@F8#U1u+~k=s(Jr7~u-?g8oc&)<My)dP08jfj4eWv&
z@=)fDNjK#XIR0j0VZEPeauba5udUybDRx4qHmgov5f_!l?gD+6J`Qbu$qAH*aAx(=
zjNI5%VT#$TbFR9v`2*$_6(IFBNtKf-zx2PL9-A2r)Z7}7Y*aE@RczigGn|r#T`(#$
zm`TJ@G;3R_-dw1T$%Myun{3iQuo_*KEvy3On9tT_t*M1ztI##qM0TGLMe=N{R?rb@
z%;_bFV5kfmH?VRyuuLj+?4o7YnFhtcg@F6lAheE!*;+1Crh=WTc?P6;N4e2~bf>3f
z3H;_)z<+yOs%GQ@?fy_?Njl+e?eJfHo<OIW9+er?8G?&c<ZmFqS={mT3yO{<*hjC^
z1}T9U2<_ga4AjPxe%{GXv4DSDe$}>Xef`n?>j9!n>Ho(Q?rGsmhNH#TYh(#h>l+yw
zNB~EK42eyql@&FrbUMY{TAHbk*`L%yUDXJtFnr7Ov3%b3HXY4<(PzF4`uI+ys3~*z
zFV=uCg6iaC1@$8z)!o}@XVKjRE^WbGG&*a2*Sq%neI^8>A8-kt5^(s=3%{ZBWBC&L
zfp0++iP=UNNEqTzbuP>5zv^7b%oizKckhVchE6^FL<n1#H-I@8j8ea&Ig{e^G0B<;
z3l6GaA~id6U`YSmN3;MSo($4{iKq)vnDU}Gxx5wl?&-uQSam?pgrk5XEq;c~b15wp
zqz8>q49Y^JgPIm6W*Wj=_>c6XwHH|9uYTMOHl*yAzye|HM@`BOq1-^77x%ZfOZ21!
zmeD*Vr>&O~WByEd8qa$iS3crHrY)+=8!&WeHX-HapEDc;N1c|GM#$%H_sHw*VK>59
zfV4f&ka>jBH~4oj*2r?9e@tEN`TD3i+_D(U>7|eKB|XJ6RicdH3}rYg^sy5UvFN=K
z9>d!M=)WL`XI4jU#0MZly~~>F2Tp>`RkebJ7GI)?jF|z6b8xxef0_iJhS(b*J0Q6A
zqRA_J9QbQEUy=BVxtD4^cMW&PYDJb`5UV!xn{M)#qA?E@WnA|ZMc<j#Qn03qrt>hp
zVBKaXHa&X$D;-iHlnNxaNTT{7RiE;A+jSZO!B%YlF_;YF60i|)hp!7h$>mJ;C(afi
z>i(vLZcsdb>#sDHG0m2PHTw7YF|TDDihMheJA3AsYABSriDG3*`DQS|kNcHESW9`&
z)T`8y!fVq;-lON5s+ZsP?HAtDOT{g&lhC~5Ro88?1we|!?wlB>Qs2azo<Bf5fnB5J
zZsDWXD`gg1ZvFe*g+H=tM>C+FEU?K^H%vC%nxt=-y<`mUZV_~83XNq{d#^2>KY)dl
z5ZZ+?o6OSKO$v;WfOUYFD(#tnb53GS%E$YnR5>v0(xN2+%uB>e{X({cI7A8V5`Lkm
z=nwk0m=)MuFh@+C9gST?u&jL;m7G>0-*z^e8pF#e!o&rbVZO2VNYsRV)s?0WB5${B
z#CmSOUIG&PC^lPSyTP(k!b!$R7&Vfvl5QIVgrkHy>WEEx#3_o3u6Xx`#_PDAgEr+9
zYyrdkLM9s*-bDM-zol0x9YPl;gX=Nuc*Cpi8vI~y=f(;xgTbejv;K1+0XCl}vpNcv
z_bJ%^Z`v*vq7ly{<%87@P2x=e4sPyjM<{FF&J+BxU*8qhGzlmnH?@8W>@4*^sw_jT
zbLD)?cd5%u^q?^!O9noHa-ax<ykr+5WB~=<3(>kal^|mXm0t>zLsshWD8R~#eP7u%
zA&+@bq6(XM1n17>Q7+C)F~9L1AC*`{EA;LaMhCQncrPXPEz&wksE{?Vc$gG4;Q3jQ
z!$J7z0H5?c!q8b5=HdqadLSnKQf;gQ1-?(9#jabnFVc@|$GkgdY6_r4raVBPRAr#@
z`xn1sZ<b&HxEkaSPQt#8Afn*z#{5LT$m_frIe5&cHXr3p>kQIFlBH{l>l@SqF{tCT
z{?<X4AM>eq!{A=9s}G5C((s3)M-2SMhk0pkXg5uyU_JdUNxGS=qUnU^heWa|^qS;X
zhKJ7JWq#VDsmCP{enIn_2i^puIFHCe;hf2&K}`$YWF-!h5=%h?mQP>JKflt#npVjA
z7!u86d<`cQBbeZ?b`%OG<94oM(WdVddkS2R*zSz4mW5GBC8345eP|F>hpJ=7Kh|a!
zQ|P2mz{tHt{FwFjPm2}$y5tVM+sA}5ypxE^)K*nhUNwewoR58Vc`)fF8#h~b*m3=~
z8l3}n&8YuZS`)*fDAX9EJ7}vSfMS_{dCf)dSYPZ+8Rw+i4qx*Ubz->r{L-l0eS9yF
zo#dPfaH(6^pW9XqHe_H&PYuJIzl0Rr=f=xC4mmUZw9_WbR#d=a(_}<=_)6$L_&Whe
zeDHTDh`bRWYyqd5njC~Z@VR&T1hhI)gFZ9A395i>Qj>yx7!moC>|@?IHE|x;pvKoe
z?y==-r}qqT`vh&fwM=^KmCsB+2>F_b^Tpaj<k{RKaM;P@V;Sb=tp#b^tPsCG@)Cz~
z=&8lOYRal#3W8)LM<4|#=;3(=;bAkgslsA5`raspT-t&L$hvHMNnfqoy)|1wxr5)q
z@FONQVh@KAA?JVUpb&@w1R#;MSco8^;>M5yBs|$dx$($D{tn@hn}WU7Gg+Ox4t-y`
zxvE&?$#U-*Y85jCIU67Np?4Z(j<j0EiB+Zs6KgG;ThrO9>pFQ!X(I&n1$71_L3fN~
z2~2zH-H*RK_A31!zcYDx3}}7r-MV+^xxW?SxhuQ!(+F=)vd`z}DO!ay@222SEAZsI
zm6VlRrZ4nq=nkwf>2C{@l_kt9ASt(t>u53}EDoXVVCou1r0;zaS%c5J!X0DWKi%Y~
z6%mgizyRlO`6YH?Ul731&}R?q{tNEH14Zc>iLngK;IpxffxYQm(gMG5h{YLEG9;n>
zl0LDbl0Gq{zcjmt3+RCZWEsRDi66-LFp6GE$T+5E&T8$p>r|6IvkfR<q6gGo`w`xX
zRUO3e6>Hj+j-qE0UWcjYse2HqeSs8oa{DbxBS<*dVf&U!ZJR60#~*E^T2b6o??6(@
z|7zCcZ*)BipXaJyMrYf#;Av(2yJXV4#^b15WKN95@`7DF<X)xmc7R!W-*-vN4FCeL
zuS`ZfVC6*w%vavvHoj1ZMdEe-uLQiVy2peTvfQbF2u+_7;1W)n1n%CO(PfBBX0*OQ
zW@4ZHcTN%AjNd$bB7>dx;`%$`;sR_q(4H$%0XXkW$~98;)1ww=OS(6S5nJ^m+%)gZ
z!_O-~cp)VisdIF%mXP6k9Eq=!i}LjI!oU-xnY1j7dQiER{P8$|r<hIY_ZNnI?YKzk
zc<cyZKIr@F6k`eG#;Fhek_I6u@u9?9^VgQ1hJYOe-wsy6T);rr7AOG<I{jLD)8*Qw
zZNXMp=}^$oA>qlLvG=dNNT&-wo8thn*m!Y!NEyd?@SL_K7L(@?tCEiI^LlB8xH#eb
zs6ypuWC1sIvWVa}K=V;R34bEW+}W$V(z8HTs;6Q&iQ<~8^dqGx%2TMOCqj(y$tjC~
z1#BNK5-(;OvGlv{r&xV-9G(%`G8Qy8sew^p40F6$)B!GOm;c%VikTQabHC8F=){a@
zYSz>hZh<RD*_$Mp4x+&N+al-7wuKFh{fA6%CV&hA<6I{0w7JyW?Y(*MR@3giIkbj#
zxWRI#**fdpwViZ`JE1&9uX2kjSpFqlObhODdWqK2$K4`59m~=kTRg`%njpZz(Z>^*
zYA>K&A-zM5gyFgg%94>~C2voJM@unpHmw?ZUvB2NyZn)c-}spVZoi(LxmJBEv{IH-
zv2(L`?L0Fd^u4l2iS!Y)2laXrQX|)t%?TS%t!jBgVDe?3Gj2~esE#I;#4`iKJOmG~
zs3?7>%0D~YAPj``=zhHiE3Az@Y5@385je%lZtZ9PH2DTO0pHclN}JedU}EXKAC8hi
zijP$_3mNouBM=9uBJKI9Qjp<sJ?$@#P+m*)o<3sw01oFvUy1&9EY1(ZO)j%xm;>|o
ze}JQ}Wak5A&r;!9Z0K<D5$>%<mjM$)N9sV8O&CsLjUv0Iw7eJK;{4%@4prl4i<uO<
zk&nN@<@~Jvs8ZwMsZ3%*!}7pc)$R>o$q@|@8V6Xh{if$cjTpdi1rxy`kPM^U-$kB?
zCKdP$8)$9-FjvIIgex9lft&3a?Hr=@Qo+xJjgu6?SX~7=^eL)kqN@sJR1*#h2yVWX
zI8l{Y5}@!#q7<^w7b~R^4+?Shm-v5U@*S*56w1ApPu9Dti!4#2O#K4<1FH{%=sQcy
zO0G|QeoHHEadqps4CTRke6ovRgRZ?Qt`Y>dW0}NrnMVs7;$7Y?C47DpJSslapPR4`
zcVatUp0_6LFFJ{eNJ>{xo5SHnB)!c7SWvCg{-bczI38kWxg5dM8&b=-^WJO0S5g7L
zU^Nv9DZbapgdkX$Ra}7uz<7;$i<sm$jijI*5tdTZ1O<}wgDdVW!KA`4bme6ol)GTR
zZ!}U!z3-?XcZaLwPt!fluO&wO(M;+Y5m+p?obsuAi`9-`kZ$Y*N1kCWA6a2LAM<T3
zyV@&aTn>U`wE*pl4RNKARfUrpY%|;<7(RdZUUykYo?)ERP6?M%S#G~S#KQ3|>%J?r
zlw&7fs!f5eAZxsbDml9)j5cvIWV{vwoqeTYk!RTI9I=nOfDJtSz(fpkT9p%CR2z^i
zV-H9Ox|sMSQyG=lcwGYzFyRAVl!`+JAVqh7RJi8Ol;E8dnSFtqZSYCAEsYU+w5fXg
zcwnu|-n_p-V%bj0=LF@uT;7xAR$RQ5CYR{S(ku#&!XI{3%0{Mc#z3#M{hqs+p3S=6
zy7&NDcW&6KFWLsC_sMB%BdUV<DW9vY|JN7G`a))D_7`KY70Qr@Fi(Fn5nHj6H<A*K
zCw@4m#T6tfL**jQ>h@#&ZMNJYCWay%Qt-Ga{*3;9we`5ab9LqkBhz$9AW3~7{+zx8
zK15E8$C1l2&Ls-o-*q9|9W!*-@8lON9f72XBe{#jg4!}#qDdm-g%i+i`LCMM{Ox|k
zdkK7xDiK*QD8A|zw9^ZQR3}PjvV_%_X)3J;<R3*ilur@)KCG|i*C(O|MnOfw2~)L#
zV>%T_A&i8PbWuNx=`1Pe3#5eXY`*j&bSp(^!@IQhC(cZu#GTCz_J+K;^>Eph^C5{`
zoYkXZs)8?OiDxV-F|kxRk!<PGC@wEzrN3^_5pn_ad$hiz532gF9h(==n<wp5O*^K5
zprKNYh;oE23xd$)c*g=13r|Okc+c%UHZH@$om6WEM}kF?TgUD=Hc)zf8F=_*BnrVp
zlo?^AhQ1kQ{4m%17Yzc|tSN1JZNFmkOaZPfkTwroniZxlHc~_sclsiW-lL|Km@QMN
z%q=lB{efK&i^nIJ?oLc5V!7@^dh04u_R)wSscFv;Ludz<@Vp)5dFd6y4Ug$~sH+Z(
zaL)_eW~L}3xTZGHq84b)fh!hhX@T)Xmh%$wNxrNJz|*f*b(r;-R}?iaT2s{^<|$O0
z@b}2bHIje02;&F18YJBRBrUgvOB~Kx)^W%k#Vtffz=FNh11h4nFmw%Wl5bGQSP?V?
z2Y%N(!k{Y=T;|{%8%W8Y9wvi{uE^sY_I1D~F*Iu@2RLa`2JG*JUu((p#PLtga>jNc
zX>tQKU|pV(D-|kyq^FZ}tr`9%FQifpZ)HBOp2FDyc7WuRZaA3l9(+gbdvT><*Gu;>
zg5ILR#NiH|Ycb2;cq*T^;IKt2Lv}J%<Q0;B5A?5TKGi0hu|4TBFg`l2wZtVT))=YW
zT{|ICPqJ#~qn7|RyB1|!&c&B%r+T_IAzveWc2i;2678}|Tstp^9)2o`>*c7Z8+@Un
zJx5ipqo;0g5<65eVIIeqQHZW#VJW+)?(19;v+0&v2*u!0#<x7zca$Y=9T9v1?T}ry
z9pmnS{%Is@tUK;;B2|5o9^f7^Bgw&cKuZB9NF0ffUqJBO(#J!M{rzkvONfQuC6T@}
zG+O=bv%&F9eNxKjei8mq^1P5CBDc(8bQW>kUxS6o6briQVjc@5N9Z3b<#UC(s3^*d
zj9}Z{@Ugt<>?jaU>PN{xmEa4wEcF+4u~ZlP6Pj=g6C%xk;MYMg`W$APOv97{p;m?`
zC9Amxrc>m|d;(99RHieV)fn3gn+*L=Vhn%AT1+{@P4a^oH0_8;Q{g#z4Mjn#{m)R7
z3GxJaLhOTsNfhls3i>5_PKXm#tR`L9vlB302wptfFyz^LH{EsKjh9JwLm1XSMek4^
zdbDv3yjOQM+>uxh8e=PlH*DY1e{atoQ(ia9w@m$k<7qV{3VAlyN>J9yyA{_nAYV%j
z$IQ2T99r%=`8YjJ{ylT2iXhDFRQpZ}YCd{NT`Z}A#>M=tXW+~IMPg5&gTw)@o+iW^
z5hmEv?rBOC#<cw*{HhO`*1X)!m$<`9s-tp;I4cg1Jw>tPjMCsXF%>SIfi}0QlkGwH
zQx!Ju=tQ*~N{7v;sln^4by9o7?jEk4%?H{El_1=zTJ=_eN#+2ZK@c2WQvV9&QAAo|
z>+%sgzANS#v!nCX+t1vI%nTd-k*B~vPP)w<9`ULm=#alw$qP|4PGH~K&8Z?pso2*Y
zFJLXa{Btg-hUR12(7P%2b#$V>@RK92yM>_3+_C2~hdP}%*lO6Q1t~0JhpEBUx74bc
zulz%|2Q1je|7w59bhRGr6rCjUJ0?p4VkYPU)lrUd-}3))q|&v;{1qFJ;pATc#3-&?
zZZJ5QkD{pV#@joowk=oAaR_>A@Xjjbg$Ma4<HJ02-lEteq0^oz(MGh}7V+dKI4zeR
z`3Bfqy7*@GiddCAabG^{cez?#17t6|*2<d9n3{ZoJJ!B%Ul+D0@TRBqBLm)W2<$`>
z$wNOa&d4}%1?wiMdD6V6vY{n_awIg8zaZ%wH_<TI`$czUMVx-qPSdmlOAt<}X^HJ~
zI)nZVxQ6rFH(DQl0r|;`{+#_xN)!~-5yr8_oUp~X!|hn1KJSAMKHHYcId@5uXUwPJ
zWSRFl=Dyr!nOM**Q^?LZSS9kd*+ic=a}et-C(#~pHY|u%-tzi#`~{{B*9$Ycv@V<8
zZ@v;QBlYi}!qiUmDEl*hsE8NyXr_rWQh10*R=qCJ3SpSM+Xxbj4}tLVipDuzC0NU~
z;t%E$PA)%+W;Jo=vzE$s7_q0W35DJas&vR3ljp=DdmQa6GhZv{s0k4+q$`>GC~O9)
zax4SF+B``{4@;AxVv5OWmL;GGh7R3+p`o{u=K*1(W48CFsuZU%7+)J-H2K4nd03v~
z%B7`Qkmo^3AKW&^^So+}i*W1T#3J8SeN*n&0LuQB0CZlc3p2~k`tYP@|AH??aDpN%
z(`~!c_KSMt5F(VkB&|1!i+`k!rx4L}$-aa=mu_(%=%WhyaL__M6Fuy%oWiI-Eq{nk
z5yZ$%{XNmIqRw;p8>F=Fr~qVTOhfu#1(b=;>A7(llE$uMz24E+2=<GA+<IQ(Ue22|
z)30328jjZAK4VCk-V7n5x@SSZK?nU8|5#hPuSFu>(MD3SM?BNs(mF6S-@x9BPew;b
z!#G57u+hlUOG-q`NzjkeNi|JQ(*Ar%O;WSdR!_=|&-{?HM03D~)C;65!8U-zYX>?C
z>U8eO#NS6MM$bD+P3o{j!aAbR3RnXf7E=yPg3bOnIvFbg`!hNjd`p<tEXZrAfW|DY
zb>@hjpSHBX4xn&(e;fwyq-JQ@WxmefKoo2*2}$RFXTz>_WY!zTCyE)4AhoX?B*2d;
z46bMJzs;<YPu~-U66+vUC!Ssbl1kGdUNuH78yKz1urj~2G>LT&(1I*PpOEAZ;`*fn
z8OGf?{uz2!d^iEsqj&R=JZ2}?7!6XuPUYgxC?(xx6#EpjPX?lvQ<#(2n3zOi+&&Bw
z7_f+A$MvB;#Bq*#7mBsraQyli{4DZ!Z3n!7Xz9Cc2K1TqCkA9`Xzh(-gyh`+BO)Vf
zOB_QMMk>M022#k6)rUa${Y0SZ@KRf@4SBdNZkf7ztWLVtlAtkBNsW<(wELXQK)7?o
z*jyvL9JvzvHs!G~USAnYNMRy4s5)BUl1(t&HxbeN;?RX#3vB6_q$wExK9{+?F-q{v
zV2ik?`b)!CzFhpb<-?k=>0Rvd!s3NRc54P##D>d7H<AqTlPB$p)p*OrvFm$xS**!+
z>~lL&Dcg-|X1vAFVR>CfUBThLy8E}=8C)P+)VI=RH;W!pweI>i+oq3t@y)j=%&}U;
zDUW*97oSJ{huxur?*wb)9?|AkmGqZdab@b|AH)Va$-SP$iTc0X<u0j=2_i$LHUZwR
zcJ0G0VHulzGbsibJ|U5(N?4&5Y&j68N_7l;GcT*x^=l9EeI%oS-<e5|7F~eI{za0E
zL5Erd%mt+cokABX#ZLQ$9tONF_tX+T)hwIRtM--3e!_}rF6CpNXE};=?GD*MD!WUe
zzvYr{G`!c{DjS<^PYQghId(TMW)<9MYBeb-eVq@SjEuqk_|03b;q`#$@2@^54^!v%
z^7|sDrDe%L52_BlZ;xvAZ6SXT6tmZ!6#c*b9oJD)B5Bw3A3Fcu=VqqA=I7m&4)_X3
zYp&kz5fofiKF<-DOHaP|E0|^<mAjg)${n&X?rGRQ*i=rgXuP4FdZCJ6*GowvFn7h!
z%dXJW%C7~U+|j272<La@Gw}~z2@$Ep4$T0SqrSDB(k@vo-3#23^ZFC?aylAa?9}T-
zQ%4dwS6@j!4s7js6ceZ;G;&Qc>60br`q>o8yjx%nEhf0(OAfloC;24u1qsT+Z|xY$
z6LWK!H>7f)J*d_BzpyrBm(FwZNqTZ(X$^c3HOh@u7<3yhlE&8#?T6K53h*9lj&UwU
z&U%&uKZD1p31J%SOWa?NzmC_IgH3!L7WI-v^@he#*9KJLlBg@o4$c<Ol;ig789t`)
zu4=vG2|{uIVoc{b(@GffBnzci>atFc;&-LUdFb(7aXnGM>7DFek&Lrf=z9^VQwTPo
zPbWM+le2sK5KOlhEEYPkH@R(IGW3t+svp`OzxQnW^6l6VY^Bx2b2_iR^F8ws_9DPU
zb)FK&vmr}pW*^}3`DrtWU$GMFvaN9t<5V34o;Xgdgj}+Xmhmna02b*NhU~-f7XpuG
z*=Ly(Nv{dLTUY*+Q1til=8qjqcds46;-#586DEjQJp#$bXUG7DxgyHIRU{x~5dZ*|
z2_yPcfNd*%kg6tBB;hL>7FD)~CHL2BYoq*vXSn9IIY`c=ld?bl_ajW%ndZZ-&*k9h
z17(Bln6q$e)rbaY9_vPdL*2eCTd$fHSe;1Re1?F<r9Vck!cKZST#ZlFxp-}TFZO`F
z6`t1BsV`Let=bdINIhol{2^+d(4{@N@i?t0L`-@HX|Niy0|jmQ9OkVy=mk+<B7ksB
zODUUX2Olz3+df%<e!EH_0+2JL(V_v`sY7nykdS%m-sKey=~LyQ{m%H`rgSK}Dm8k{
zOhKzE$idMr5wXZ40&KAZUK1l?qoD;GBfY2i#1&N?2(3*OUe2Ty<&hr&vVZ$498?<y
zifGM5={UTJJ3j`*sAjA|3WaAQ_(3-&>jn@xipACC=cx@_O`du-kZArs>Rl|>C9M_K
zqTE5#G_v!<YHK<%2W)UV*&&%JS3>^Qw4rltH)^pKEA!Fs_8J~acYkq0(5CMN@h5k6
zg_6y?ybvQ2-C8{{uWLvd*5h#DyJISHeP%_hVSfP!r_k&aBm<;(LIfVLqwa|mpzbGl
zFh+o$!Jj3GsI6xjwhE`Px+7GLaV3&IV-YfFen5E65xu?(h*eB&2IL8w@%ckLH?v#r
z;IdVXi{hv9YZZY9h;t+2(l+W0wB8grAfuER<H|s2t-8Zw%94AY39y>WJQ|?2RjlX(
zRQEeY3UcV8LT3XM4nqClF%bJ&GY79I?FPBpME`-RJs&ZHNLf##+QU>emGDPxXgN2U
zU$wPy!JL_t%;;BC;rEsan=$5LHx48GtXT8E71NQg@93rH%>{VvYJRK=As1_&Kf&>1
z)e5^Gt8SA8n72D<g!4)laOCf{j>X=AjwzsE?>XS8g|1*q)DsgN2Y{+^xP<kh;JzVe
z3a(Ge@ke#W0RZ`JN9ZJ<n<1e29gKACYg_0cQV(wMGkL!_LmUqf_6I~FIe-NJ=%LWd
zYB)CyVTVXHa)utyYHIUyIY!>@<_}%Zjt~U&X+db&TvKLBvMyIU*v^diU;YM>s@wo6
znRO}J1Trj?3IB)TImgcMZ4MWST}5e=(x<9*-uEM;k2yqD-LM3L7amW&=(#Iwrl6Ju
zZdhCk(Qi#_fqg|}JG^QFH{9BAANNU_T-#w(vUKwYYMSV!3sx{mTh4HzbX#qSy=x+l
zzKC|Ld4gKjQk$N^`tWW<2am>KJp*;eV+$yN=YB-O5hvoEx$J{a|3HOIkAQ!8%r;59
z`DHg~;DPRcdxH=tOpno202ja4cK&W)03ve4bc>x8W-A;LgJtFH$tOrDyz3ooD%WO%
zJc^_R9hYwH%{m4#Jd*MfJ+P|T1-=BuCi=%(%@j-#8>-f|<`oX`5>9AG;4akhS+_Tq
zPEKg4CwBhg`AskIaPb||VVKch{5;NiHeUz5Nfg{JTQ-XD&GP!1&z$hWC_2xa>{w)%
z1d^SzyfF?EVXO@7#12wH`*kOl89s0+C-n|21#MniQnM|LCBY!56?UZY=3b4U5My46
zNQ_UVuR25toRVQ~EXP4V+uS>17e(jK51gfYBOH$M4u?i!;HHGJQ96irM{}j{bgmr`
z!$>>7!o&$%-9y2}zyHS?do`wm)Zo?Q&zapW)w^l2g_8wv&Ml2mwfbxyzhMKz-?-j5
zH}HDNjWnwZd86Q`T85oSx(rRoP;RVkwRfSXA)9y_C!&^vB!|Ut>#W}IWKJLRgIq&D
z$Yr=6kTC4hPL9)QTD$l(Y)=E&081CJx`Yso!;OT;u=&NnQg_-j=;Vl?ZDZ}<i<0F7
zS~9Eoj`065$ks#755g<sXxUl1w5HWu6Rx@5DIK0OX^B$?H(g+vLk3bbt{MKf`bm1R
z19X@dYLSP)Cf>?Jns-yz5igBcox{eebsv@EZCzjf%h75G%NLbtG$2Dq7^O;?mr1-D
zgIE`BlILAv*iBEvGwX-%!{3392bQ}7B6XA3AY6v<ZW%s5*e(r<BwUTmqKam2{?|Yw
z_KqEtz2*m=S)zZ0RD7{lpu1Nd&F<xSrAVdI?6ch=Ycodkqgun?Nph#%s<gZ($QGhq
z0Zk-LfhA;!K;H?05pFa6kMhVqUYiAmA8o1?ZKzErgxW>_YcRiJ#8wI}#oQTeCa>ug
zdps`VKYZ5(h5|%bI!xwQ(91IYfIsdJj1ASu$7~pSx0=^^q)dNaMQ(&)VE(xC9>>q$
zx7`0lho3ybmido%;|uCrt7Ou673fv(yWNn%LG2Egvui6nm6#<Yv3BjiFW)+8N{uRz
zrF^)SaPj=43Gl!JPvkw3zDY0JCq3|C`3cSpL;MC?Ok3Pkek&13u()-<D0KRhv;hwU
zJWy0~@ZZ1!2Oz{oBK}cM6jPA}Y%=PRrJGJaI+n-OkJY9V?4(Nd067eB8`l9rH4n!5
zi3)MCb@}{9c6Dt#S&l|O3g%xX3ezSsuB4ic_Lz4;yY6m_%>&T$gsK*EQ;Aih{n197
z;1t`tg6`yEOKFM_;aYP8JptlB?}HPK<Nm?gM?Ihr0WLQz)E^fw@&pS!u>6nxsC%|A
z%zz4wpoxN{OYDJoS}~!pJ?vwfPDZeMXT5?s^P<Qf7<D8IpvrX695Ix9f|1Terv(={
zVEIp$NhzE58tHJDAHWv3<B!s&aBieZe3kO>6qxoUTgjg@2Y(mNJ;;xP3b5COXH^8?
z$Et-U6pjdigoPSqGS)*>9^=hGP|Qjm`Vl!M{ZCwuJ~;Ol_nAP`S;>O|D#z&BzI^c`
z%wcaIiH=<?P5!74qFKP6LMkTyB~a&j=&}eIAY$<ct{neoipZD{iN1`EXW3n@M#n4x
zF2|;u-F)?73F_-|sD{k8q{;Iifyi-*<Q*5q!4x>}w<?jna`$wI<IP2I{RJGypl<W^
zj~JP7LeIm<m%%axX_w%UNK;_&>0wMVTP&keDu4aj;$;g|Er!GrsYYQ}M;qg8GS;d8
zi+M8T58a4D&yUn5II6BdbnoTKsC1OO3;nai97<T+L{JPyuqOmiYS#mZY#zEL_~2-;
zpjf0J_Ho39K`i44@%iVRZopW6k`*ZB7<vJaFhG%&RQlLp(o21UNux3U@W%(({__FO
ze+Ry-shG8H+5}bhgjmVizi|Z7u2DZ0q!y<*YP4zWws`EkVY7vfBe(q=3$u~>!TG!)
zndS^Obw4P6_@=@X{ow^3Lj<JL(QFK_`eg^+d`_>CJznOBuAj}@`S<@)!<DLtm96Ye
zMn~W8<<oY~N|?v>(kZhQk&?eDp=w_QYu5%(et8pre$qmfoB$4^JgGk=1&fb@9RH9#
zJM`c+=hr|dhZ!2TgfMjIxeP0?1RfPkoTG1yHYk`IA5bau=)d4iOEB86xG{8eei>e4
z=9v)C6j*6e_-&Up4MhK7CZYY#zz}ihYZK?bO6<>!#}ML=ISqLQxg6{MXHE?aH#z;7
zS&|><)t~wQ=)kkjGVQ^Q@$ri@ShX4}EY2$UN9Ak$y3y14Up+rNen_&9s7*V_U4iMI
zgHuP0c8de^4gAM<syTjq2jj<g&Oy5qV0q<VjBAqyf=K5h^v|gZ7T1dtk``Tir8P-i
z{Xdc`Z2Jkqh(CWz7?;j^Qw|SpiXCo;Z%;Z52hhUvj_6xt>-H+0SYHY;E1KN`0@_k2
z{Ct!T2Cri~_iB@tVvv;68;tBBvg(%kBNo)0YxU2g+ZeaTt|vN;`jUpXjB44;2zRKR
zmmq#kHk(y;`VZyPKEmVJGklHl*3uSK<ZOU$U|2TZF(B3?ZwdK9ue~qs{@NSh__^J0
z5y*j6uz4{DIP=WI&4*?nPzzk*bPrgojKcVc3RR2zi?GESRox~hR&kE+*K(78j{hHN
zji0=r(!X*6t8~w(RfMP|um1cBaxrT|iqgMY*gB*i__kKens1Ol2J3dfQjd8>;QL}`
z9}$BMyeIPOSq7tD%j{EyZT3@y?!r+WTyj1mwM1ptyeI!*kGKCSSTyCUe>%6CpaUCQ
z$NMKqspbW~h7?u%l>A{r#$UewHBBXODKk5@YskE9o728&=X%tp`=q^P1MF;#?-bE7
zq}=S+O|=@^T7E&2;v~+EOzBAgK7^Kz1FGau&KYY9N%Na_j>nD+qj{HBsZKG}*m~+_
z>PdYEU3>c(L8g>>(*F2Kx+#~y)rGK?@32g6@;6>E1*g4&2}m@w&jN!&Blv$|-jCR@
zfuj8k8M3<C18x`v=ct{gwOE7VCOXG_$`0GQ>A)>Dn&>2*P~F*OahNMi6=zat2oB<p
zW@=w5_(MnQTWapR0dy5#4Mdg22e@GkO?xB(*N-f6VKxOP>7)qSI`^!$kd*Bg=m|B|
z-qGu#;nh3_cZ*4OOve4IubRYqP7%c`^l9d>j;;_*(BOu0WbHR@|NRAtC3TW+qhc>J
z;eAIy4PQTFb>ov{-aMpFi=V~8lz|8M#r>b46s9>~?Uw&U)YL8q+Fs_(wpjRjeLry`
z3nfBD)T|6~+S)tf&L_UKhKxz|Bs-a&vLKUI^Sf^*&042u%zZI_4sLl!bw*%1PpJPX
z0D2fjwz2d_0Xo?V9dfhvHSX?BH&&ArNY1O!k=50npvNe0hfOT)#RgGEy8~!I5-*t|
zYOr>A#b52-31?d@ujAvGvzP}`*P1WpyV*&pK#yx=3|?gG_+T;}%P@*mhf;O+9~LPp
znSwr7hsDxc0J@2ZKcud=xG6P_yZ92t^mE_*CV;B>Z4&W0)PG={nO@&O((0Pg6FDGv
zKNEeMSvF4j;z%Rs-Emk*-X85&$zCnVNyda*GRRqE#^_LR;j41Kpq6OD=Cxj_+C?;n
z0}S7K9N(wdrV#zrB@HQQSR-3<PORNI*4>}225Pq%b`Sl7dSQd;-m4rhztQY2ZlLeM
z{+Sw5h*GeoRNGh05a`iU-d*a!Ig3|3#9C*CNg;4+LqyquJ*T`E{5(^^7S;CQGeEes
zu}!#z(r0(IzRuWR_E9+#qNE4rv>dqyNQ{QdkU<#l*`rl0$tE!AjoSM7Opu=B65B<i
zqL@!x`HC|7`e5tH(5~tBeH)(?L2_W7n&B6&rZn_Iu2l6VhDe}Ws;W+l|JN;bLkaz7
zM@$bNy!l%<Vxrg7=#|t6H_#B5Wgt^*E7F@UiD}#Q`0VOM`|{5!glTl(<60I_0n6J2
zQJa<nMceBf*5C0hnK_QKOxghRlZo1utd5t>a|!f8sPUOuom)5`Klx0^tNT$c@i4}9
zH75?oWt}W6;OJq_2vI^kouHbyGKTPd--A*is-sJ-(FRUYfxY8TlW8>xY5a)^4som_
z3ttvavq}Mgy68+oa89tr;q_Qe60}~hfIHa>tt<cWq^atXlnEq$eYg9>^xTyVZUNWU
z6&mNelR@!uJ|$uat=6RcNoHEd(L_%Hq)da@XlPuY;c|fnh{Wyeo!PfN>C7fNG(M|1
zWLUgVH#BKMO4cFa6%C*siN;TOqKGT5r%{Fk8DH{g{Qc8lB92anAjy8uWMM73#DpU?
zbM|acMx+o+qpDpIKvy*`?{Kf_y2@tlv|311w@^8n_W3$W`sd%voYtssWsBLEfr4Yl
z-BsJo(#EUXv!GbVoDha17l>i<G-G)u%N#ZuSIOCk8esqy$HZn7!XFrC;$<Uz9KD7%
z6=`p6FE<RxZm+daM?|>8TFq4*mxauxSyiJ_30YNPW!K|1MMG1iE|td-kx4raotID|
zin02+iO+xj+M^98o#jo}alwCz3NnbCaR{KhHnwSyR+a+3PM1Jfdva}$oN@?={%+V}
zY+Q|!s(MOb)`ulcvdz%W_{yWCbZy#U3tKZv(YiP7{izF>(X&9WwBCoS3fUi`<Nig(
z@+yPAPz9AAvK(K&81|t<y~ZKP5y6#kXn*;-`t$aT9M2qVfkuxaIN&SkcbH5rXD*2i
zFcWhjggm9_?l+DM%lq=lo-@4*36)HxC>gF@T!ntqJ`T3a)XM5MO+b0#4lZq9qk?S>
zj*kK8s6leGBv<{OYLTSYR(T?N8blRC;uTP#i#ezST}l9%L?(=a=pCH!xb%FvIP79U
zD17q6QRRHU^Pva*16K$RFUxyQQenkhQoXoPuqAvag^#L`%zHl`PQUHR)aF~EB6?FS
zo6-;swY<v59*7DBH7mbEVKSo1KpC)n6BE>8nSsuy;GwE*<!s?nS0xY4BU(y3g5~cc
z7d~Z{U+~4or#@(n1AyZ8(oZPyl<I7u17<5aVZ@dqK{Vub%f$$;vgiz0(%05-rr<c-
zlYP!Me<DT9Eq>&RTejGX;zuG^*ToK@$&D+da#2`SQM)D}lLy)~(X+;%t2IE!5yf#N
zj#=eu!i>s55}D`G6!9-Zb-D?Kzmqq0OU<2uQ-*7lfh_h673BQ3T+hj&t#ue9PS5YO
zcqF*DAmY{kKuE;DVCF|1XoaDr>k%84{E6lZbVboxrxevS8)=j>6@J>zlx8!*XhJWu
z*$mH9?Npqm?Ow)dJkj^Wy3J~<%!RFu(`V?{Tdz7+@s!2#=#EX=y)Zg)#I=Mhd4CwW
z9r$>bxp|vWne#GUazcUng9beDrE{?X(XtvjAl4zam<Kp~=C%}5-_R?f)VIBk_#0NV
zj`=XiLpNzTqV|h4pV@lV1+a6#j%#Bs71HrW-s0UDn6|hA=ITo6{v<KgsI^JZ?CaP9
zkh8<{?TMpVuZWdVSZOT{SJhv<9I<uEz{y-MKkQyY-2kTeIH?nK{TpU%v}NYarT*8s
z5EW0Bl+t)2I=nHT79YVv%pD8bB3QK>w{O@74iv`t)UiRftrAE6Y%F}KC^j$|j<iYA
z;uR{MB8BvXsq~^xdfYQziW(iW7}kN?{M`uOdiF#E-u<HW=!62wd!jLFKLJDZ>^8as
ziSFskejvNB#_nK(*R5FzC>m?^4-5cWdOqmu99#*sw@_|IQ4id}+GB1C*DC$%Z@Tq1
z{*C%MAEOdqjc<Svy{i9AmBSOamrv?t8x$B*a19g$n^sMH(O*Mdba-zBU2=sf=MEaQ
zoo&lApz;Tj`U&k{y20|(;5zp5h!8qj@*)s=qUMqd=Fvv>orYJPZZ^wpJs%!`y~x1O
zr>#|sFt>%zQ^}TVB$oqP*SK~T)2!kcdvq_4Mv$tFgaT@dJhh1i-TFN#zx3;4XX$f^
z8L`+Iubn2d-M*8v5|kXj-08osO}4rO(R6-St=##)zpPGf`X)Mz!-&F>J!xZ5_njl0
ziYG1mg%4NFiYTiO(axMO%dEz5gpO}yv!5!hFHcB>hZet3mJn2<?d=!o@gk=;*Xq-t
zeRwtmz}Dz&p}Rh|SRxAFRcDRUr~sqy<*nShX;N(W9;i>4nr<AOh8_yWy20x3U8~U8
zlb-MZ-P6pb9P8NcUG}Dr6YdN+Ru5N9>sX{6tD^%tc%DLxk}Xd8Y!0G-@M{VF>|kH>
z2vVCOH@?trFpCZ6z^CXxb22(sUghm5f2a9SfC2y3)?9c>nzGlbyOt=kp$h6@{6l7!
z?$6yA+()Eb#NGJh!S1>f3|O$mDPH6Pci)A!?m|B({(U+Au`B+Z3C%Iup2l35f|@WG
z^`hUljN&rp0H07g0x_b-b<_ac`ii3XEO|M6;_F5&guAfl=hk7TMakv4eqQ_P`Jm-8
zO}KSBchwfI;@Bp4$b_iMYzUjyG<v+2jHg@yJIMsA6?N=UlP>A4O#Z#=q%R>19V#C|
zx0CJ-AczMO%!Bc-h-u^T0YBR+ln@-B`0bG19nTdzTc3Tn3fZsg|7aCE3Jpzpr32>h
zf`~HuE}<?=^&J`pmV@o|W@w~LK#8Qv%V~V^#0~Z&2bIi%GObZU%MK{qv8S)1+u3l-
zArL$L*tS*Dj;mw4K}D%;JVg)$MAVq7H$zq2f_3UYc*FtYlm>=2S7_qRM%}crqGZtC
zu=p+8BsAhMvVkQ_<!I#?T-~#Gv?;WIWhk^0nkKyl;uhh`7dStgCVAMYrU^APc^Olj
zUNFE%-)$Ce&~5jdYt>#WHauVFF;&du?Y?u+P>8+`->)#`D0n%%*_nE29>-x*vYiWN
zDQIIwCuK5|#c2r2MwKt1cg1T|ICw>YiE?{BhcNA!V$X9Hg<xCxWLFy(wi#5h^iOF{
zBPL^{DGY~(r9V1UbHbb2xFlkj8X2e!;)HZ%hOtYt4wL0%n9#8>t!s77j@IgZS|OO~
zK{g5hvwl&iBPT$I=c8|a%fU+pXsxzivn2n;DoO;d(BPQ$WYLqtZp5iROl=@xvZ`Zb
zqf{!W?oG(Mt5}^~RO+i=?KmyV9bqcL<HHg%O-5A*TDbUBHt^TjY`%u#xC&nTrX@NK
z83=sB+AG6jV3k+{Y&Pu@bSUA}XegbDgMX7bC^UqGO6jcKjCDncT<<9~{6aCiI%%41
z|Kp11@cw7d-JIT^Jy+b%mJG7Eh9G;3-+Baq=AOv^-o4QV!g1WMvK<z%KD)PU=Nr5Y
zNI-(pVe?eoF`7O6Yk^5CDVH36B8}ISZe?3hH8wB(Mub934FOsF(D<NICH7cjR`i!p
zK-~rl8k)|hj8G7dJT9yOcV=&caodsLfGlYJaJPUJef)?Vgq{dG-Tg|sTVWNQDG`Jq
zhl4nsoD`q@jgz$T*}tS-mH_E&BAn*DYq(JMp>uaxT7OZ-FSrN0Jdu9F(i9xNl`oVN
zwOMOnXuqp}kJQ9qzx0r6ZUag9rRhv}I+dvKGu?GK$9tm2<4+7zg{|>?-Y@S}k+Ohl
znvyuMOS}YCH+HK%r-wR90HJg^&8C;p<yHllxIEZs##e}qq~^qSc0}V0-VW3I;VKh~
zG&m_MRIuLSua<P3cJ)WJr8Te?uOw2p>IT3J)MWAg^1-0*q5t;$yz<QXRJromPAMA?
zwS*Y--6W7D8mMeU9o|~0Owg$Xvgq8@GFAUYA=Fk^qa2D6ti!4Cxs-Z!noZTe9L(Zu
z)|y8`qOo=#>;zLThovi7l7_;HP|5wuyIrM~8V^GN`F#f`dB}NZI?p?PqoeI+%grCO
z?R?W;fMcz&MfqV4q;qW2?ZHg41Mbub<fQ9d-R{qCgsa6!%Z7tXY<Yc!SgmB7`R;Iu
zxB<7ZoreRw*u(jx-DcfeQ<QLDz9lEhQ_3J$#?K9zT4u2}+5YzQ#-)Q|Rx0-VjtYxJ
zTe?VpxDikbLe+h<M6m?%AZ%E&57Trm#s}tsKqoI`5&}K-X0{PZq!K>}Kd1}I9Wzmq
zFV0s`V6mVlQ48Urf($5msH;z!0e7}W+J;ltT^?u-6n_pJLoH(6B$*c2)wozUG!^OK
zGF?p~BZN}Uz$mUDH@3-hNQCE|Y67lGVLYcvnwp&ZSSAt3z4BW|GXA9XGaevHbw3uL
z^?GGNk7~tD1%Dg(4?${*MmYM)kO0+zht$^J#sXl@kZeJ6(t}H&WT^b;a|unuR@X2M
z^vuXUosxac8-%|z^%!LRp|>tdJx;w5JRW?Z+)^E-X*vK!4Oru2u8)pfKiBp7Z1B;4
z`g#txZ+5Nj%afC3{qO#jJ%o6ec7EF1UI%Ymq|0t$blaptLkZBEt$r=kVi4Lp=~0ty
z!{9&9<tYG%uKdPBN7d#}iwuGb^HR$ELyuxS$YFeZ4Hplm7ER-WgNwX+c;bMpES$C*
z6-5;)&xGs}!@^KF?bsWvOv*VL>u3&v9e*^6zPyTC8cQRDhN)QOXDGztES^;54^!qy
z;Xu3yghFGS_81mfmOy6D?6O6|P&|z?IJ98l*P8l!1`$_@;%?V4d4D`Lb)u0|dzR%I
z9@CktF&b8r;yX7Wxy+(8_Z;9Nz2GvA&Tv6f0)y$A#1;(JLC|7X`XZn$hT?7gOL;};
z;tg@qqZh(1*$(bpA+js8P#*E)N*d1DyXX};kO>A#Ozm&S0&n{c{{I1ZK!?9QEQ+Xd
z#C$kc=GisPEqz(ZcW;)j)&=pZ2<u&Ltcua?evrs)C2L-etCF(b)v*px*11?!C1t&<
z992=)zFtHnY26DcRFN7;3)i%J@OJ;Y=tO~Hrd)49qW3Yjxy7R^`ReY|Y{Pw;ZQd2y
zMpp`~q^x&|xhhICUdcATFo&i+Z?%fUxK<;8IQ9c!duPs^9%#zSuPLw~Z?d5I6sU`O
zvb;cdZa}Ws-)pLDR`|>y;1Kr3U(flHfcqF50LSMei~R{$?)s3QXM}orF_HgQb=v>r
zN}A;^BXkDtlidF4_xB|gB9s}#`{&M2^LDD!yj%VfJ`au>$QN>6y`2ol&YB~<lw&KK
z^#}o6O0ddPJpw+x7<`$5dIWrSDfmWiX*IlD%w!+gNq`e=^SaOwa$)pxo}v3LBOYD!
zl;3c7KG4!wyQ0egTEQHGSHD;_!;4^?Y06$ND=C}oMI~E-`Zm!;W!q8iLz3}DS=!eg
zW4HKL7Qx060`luf>y(1BfoH`;p&h*Y%jHqzzAtBu9lX5smd*_L?wvVuc`Kq6*jEZr
z`0%w%6Q!0@1v(^rCo}+GCS&^>`afKz*#NdFldrneQ-zx9s$5+B75Qvi8k3(+H~FF&
zO=Ui|PerGbA4F)s1Dg;LT6+`VAFvehv}Ji!al77L17Yi}g7|f`baT7((caGqS(-Vw
zawGSa=wGpYXUq17Wum_lX44y<4c!)T4&{fiMPxF19j71vwTs5wci)PXLq}MJwvYC6
zsyeECedri(X~mlhV`$QC{V9!(h4~b*Fo<^%wJgn^ry4$Q_=m#-<!zSHn~nmybWz53
z-fFQLecrNeikzp3s)kx-t5yb2R6UEy;wZ@>r+MT<cJ3`qikaLyj$AH=QVO~m=5AC&
z@VaY#i0d{m4=H5{qe_<{^8tBX6@I!mYOD53d@DXgFcS|uWzZ@J$WC^dEll>Q{H?!`
z_9fQjGS<C@az3Sf^0se$`|o%(9Rh=?xchRe_Dc%)s}x_6zxvySDw6o(dSe46OJ_iN
zDu3p^!tYxR;g9qqMd?j)?{sa}&oKvT<ApFKMa;e1@_+feq-Y~h98}nGZ0GD|?%itl
zvC+`|FS>XUI#sooi@f|H@@hZd+Vk_yIm;oHRP$pxeE(f~w2gEW?Z-BH#L_j%U8cXQ
z*j)Rz=+y1^hAE$G6>h_p0DsO0xLn__Un4o!K!2ACtZ37l`V<VEibz8o?l1LP-auhn
z;?lnX4E3e((O3Hmc-pmDU3;QB5Pr@-k}rWvwRX2>tJ~Igw|9A{MrDPBCZS!=uRlqE
z3KnUC=EkDU%$rQ!d1n&9!_E9{HfIwW|91aQ*3-YUUkl*SJqi<ychMF`t2rAxz#80E
z-z_(TaL4WVKRn<uyo1OZJfRgNbcqQp##@i#_gO@CkW8n1;6LC(SoSqC4spv&LpUR}
zGLCVzHy$eI8WZCfv)ufC%&~C{cZ%}VILJ+!CB{J(FpbTFu*f*KyfKNE#x={EU__aD
z6cRD>YnjC;r^Zq4A_9%8m$%3>Xr5zFD8}a3@_P%-SKs0EFN4JRVulMw@}=>N89pHz
zt&IoG7b3HR#+T#YMQpo(nQ5G00h9IPJ~JM;PyqdklH34N1r)C!V&0ATyo|>niPw<D
zDGYAQhlAfaYja%gUKSA=qm7s4Xvu#3vA}dZ>|tm3v~w!E`9viEZX*C5Bm|Q|%>e~%
zF5HY$lv@vhE68d&1it1mfk1A<U>sETDl@liId!mw377G~*w-=kcX0oX$*N}d+-_&H
zeUOnDF>WQN9t!R+l2|kj!eDc^Tj2K}PCnQI?={B^h71FVMuSHzNlOnu)mHgTZJ-1i
z7NFPYj**_AF9%Rp3-mG15_mpnpauGk;5<7YG}Hnun~rlq)i8qsb3{nA?}-^n%=Tn;
zBPOUawm~@JPw`96pk)d2^JGH^l76O`KWm!GoIh>SP!+pHRSHu&I1yIqzRGIu!UxV^
zgf<B*t1eu9gM7L1azr+H%2kF2D-7gnO3!wuRC&O1gjRi+`!NLwqn_3Qw}xrP_NBS2
zye!Kq>ib6c;o2wnqtL$6m#6HjP~Sn}gFwo9da(IwQoI6`?GxD7#|2j66+Vuq0=hWr
z0(S;kWZ6{>O5%?=C>i>dp_mlFDB0^+2bDF7QV8Bem!n}`ORDZl>$X-}4a;x?S<R@;
zB3LF7rSW=ihm1sV!uJN`h;IpB8JCOrKez%P^X=9E2f=rRVWDWaK%8btIar}v7)Tr0
zGN>ChS`1~gs=4Se2sVW((aOdiF1HwS5?B8K_ze>9dI;QEvA29ajseC?4%dHhDX(F}
z>kH1&ik5z#sdbvk4-1*ShbmD@+;yCA|KeBb$yy`y@=$c1zp9fDCv-z#Ho$DqQc}lP
z;5--^6Yr?tD50IoLc7Sqn*tEN{<(XZJ|s_9{{mNBxBE+sI8B&)O>inkxVNK+pLcls
z-Q%^?$_QS9G+GjDmuDPz%?I+_u8>bgtERH0=7_<({VlXs+|cmPLmln%RquP;#-{h^
zdpgmM>O-kvU(8(g7M(S`UV1OQ6+Y;kL?JA40X$s}Iysdu5cmOBhDRPio37fNIb2)3
zWx|^m=`aKZVFx2h@v^+6Y+YMn<W1zKeEtIIm_j_a9mydsAmxc(PM~v3l=$R>KsdgQ
ztI7AGQ+IpW#QUIBU#zcm(QE3W*QSfzu1<BIr>MJv>nKl{e^vf1zjuN(8g~yAjMQU~
zrNz@w(zLjEx(rSWnObOi&Ng4>#PU_LSnA|$NZC27vpd^VuP7OcT3Mu(n5@jLLK$l~
zYEiU9d4OkINJWF98$??ph;3QbFO1Fw!zgYaD=loq(9ua?xx%WSCGlG%PXCjfGMpZ2
zjS0v8DyCTy?Q6c(#Nng4TZprtt~faTPT*hB$<d(G=Z>*Iq1?+7>PQb8v~u-#sMhwW
z?~tn=N);vT8(B|%8poxoAK*}fLZ5oLevrNnq(tM#!}ACms6#3!eBW7wnl1D3+SS<{
zs;}3(7jM8yV4r3YLU83TiodS-UizHq&Awf4)R!>RO8k$*qYlJe3*zVqpbqm>3#PR>
zR0q4)+9f5jtAjsif!EGB>JSS(7AhT0PJ%t^fqia!)uEoXpbkl^gV9>GtG6yv#mY;J
z&sSOERjlkk?!~Z169QD;<GK@^rqKe5>pfmFPt4p|r~G_abZFxFfS?eXpa_jxb=C@+
z%H_kbc}2iybFynwJtz)AP1X8U9L2VC*xnwtF5-UzxykSU36cYN+Le>bc7iYvhELxp
z6oRlU)<rK;Tj*ssCt|cwOpr`$`}U2&3kzv+lQU-y^ZhgP5Ac!>)9qM8iYX4Ycn`jZ
z^U?SCEdyWw$fy)^j$+LR6|1$7ixiUxqQ`yKi*{)aszRY8D}l)$k}$XehwWf4xa74c
zbX3(sqJ>@)7eS$<Mqu^Athq#z3=W`={@sPA?si4CTk3kG6Zg89*zAF<DfDgA(qiyP
zUNeD-GIG`wE+(r?eLeVwd;;AVg*-+Ds8(F+C|9`)PAQU1op{G~!kHD_9w+k1j3EOf
z?S3z)@?4e1+7#HoEOu2~n)M$weeH9I4&$y>)v_!Anh5z+Ilsa)e*J@L8`Nf9Y)zx1
z37ix1yyn&&=5EiQW_fs<84+%Pva(c#zvYGh#tS#g00M?s$2ay7Q-geDlhmG&o9%fA
zY7eNrWydZ0cIUJxm27UBft@;dJ&wsY%gJ=~Qoi2aLr|!iH{a5sdtJO&2>S`dJAw8h
z`zt^n$3r-FfA$Ccm({ks1-sbsUwR1B3ffS(3V7PBTG5iCIuNb<M*@lB<BsFjy1V0A
z&fdHGmWmpc5rHAmasK{>fSTX{os2J(O3vxdNxC}?lKEtM9P#K6I*r!j)6;*?B;fDK
zFrztVgo}JCrsBaTh@G+=Pm&cojpf&WNP&Ce37Lu!M?b&Jf6dbEH|!J7%kp$d_H>!2
zez>M_yr9dS<mi*Z&q%PG#shv>@Qfytg1f-8*O%F1Jdgi<{7%p^%~_CU9OpFIFg!1=
zFXQp8kJ5+fXnHIN>bC-E-oxb_RxFP8h2h=<CM_7e$<sq7-B&2}1%~iT#3H9l#;qXo
z$`T+1U9Iex0D@`~tTfc$Qu-U^;z$e%RFrJgq6Ko%)E)>)$%bd@sy_GRuLa-nsfkN%
zp1$OG7I~1cH~45&Y!UcyEYcmb8Goelfx*Z3`C+||PH;fTnIIi=klR#2JoHq=%j0>g
z8gp+lR?a};ky<2OT_D88Oic$MDqQF3zDOswxVnf<GKN_mC8FH4=tj?wA95KG$*QE`
zJ<_s*SS6~Fv0<SIO;IRB-?(6mwt1l#W8t8nn*QADhCRFsrU?f`AbTT*a8Qgc91vp)
z2L#oH^8tEqslMZY2xM=>5Dtpbg#%(t;eepJa6vn)NVbzic)@~l=Jm)b+C+j|VKvQR
z0A%f+p*Rd;iU-5gwZrYGP@=xZDQ!>>iq`alLXd-#hK5j(sUj3r*Kq)d`816+A%F;E
zZ^V!RiqV4?h^cGPhLQ!hSLHpkYQjOt$&?|61x(ii4l_3s9A`=i?pGQ|f6%FPjWv1{
z;NY@5=^9+?OS*>FJCbUAS1aO$B`#qbDxxDJ@*WU6%oy8|XrIL`07QkzFUBfmqa?Yk
zLN_QZuCbEsli2hi;8?$McFzPQbS;sRMQp)vtl8YBT$Dss6n)KuIFc0hZUnx@k<dLO
zDnxIXT3au4ZoRx-$@UhBtvAS75qm_X3L<jGoT-KemF#91-B)CPRbB;j)Wd5>y&z@&
z!oQ0vD)y<mTquW7%F0<7>jKKE=P(%c3QB$MFJQE58`{EQ812@|TX{Bx(Z1NMnmo0^
zSYs&b<rD+sO{}z)2ZL@}*rO$M4TSy&kCwWa%!XeJfDzx!cF*bCkKoYT68w5d1sjUA
z3|b!kPL<32`ctbVS(pu<v3ju3;kD|n0TK*uLu}|qs;e<DqRUYZ)#rkyV1#mu`<|8i
z=P16n`$pAK2VSrL81XEo?_cDdXYn4hriaq&y%<zui_euM-$tlQa%vIEw_E2bFS!ck
z!-evy$<Jgtw$muE+Dzw6+oDkb)<{dTt`Z?o^KGXHf-0gHi55W+SP-K=xJrVd?wi%9
zWdhhPJyeCr)&D;5Nr2s=_N`LExt6wwGJq0ZO6l;nFyD!5uqx+U(S_ZQ5#}t*8wAA5
zI87KHsjK>2(GJ^bRlStq;7Sb+Ijx{I=y?aanxx;F7&j82W>Rq!CeEv5qrk+*fEi|R
zBj3SB<k{+aoU$?T!^TAYU68FY0(?=bFLT%&(!ey=zd0JZraA(9Y1SwDTDX~_9l`6L
z)2d7OF51bj@!;nB;xk9~h7@rx&RU*WcArNsdj_uW3Xpk??Py2s)JrtzdJn#urVREz
z)OO};*xN!ETBn|)LC|~f)dbzZUiaC~eEXTRcq^+@f6}1mJ@{&RMxQ&eHctJ;u@PyQ
z`5owL6W_uAVulHxtXLu@O~>}-J{!uCEFv0@U)k7auOI)d4F0_BgAS)bnY$3yv`JhW
zjs_p^!FP7?f8;BNW8*m22YA}OS!<J;Fch8sBY6pYtdDMOSL?WTcc))6h*8r8!iKPq
ze_x1*D4@B)=@%Dg$vL^_p4^*6w3rQNZ_@<L_%I<)=Era|{+K>KAS3yVoGp$pBYraD
zgFbTZif@`7dM_Bg?=Zv254<$Ny@7+iAc6Hf<4sr=S>uS?vBwe;ZSyzG`>%^%bGrL(
z=}6OJMtu}|KBKxd$zRQ3GE^%cfvvgt6we2)Y}OWPCMzd?<Qv#XGnbz+&XBxtK+|Zg
z=>iYsF9i5DkmepTOao5h610C+UJGe@4pnNbdkNwxThR?kb_I+Ln_F+mJi^7ioHa#a
zW(ATXGa=)iY%nL`K0YJD@5Sh=gUyOrG@gZ(lY3#JGG6y-l<*D!Mo@&2WNG0l2xbxo
zgrf~*h=g&V0%28DP@P7<s)Q;?eeEisxTU1U;FXM@+@l|-bWJt{vn)FdzosOc3=U)d
zDd1!Zh-P`dk7JIqWg`9|Mn2~QxAT_=`u@{Mdpl&krj%osQ^e^Dj*`Wd1*GXkh{E#O
zv~}bx=~9e6q6|jpMs#Q8<3A8S<(Z!|ye7WKu@vE@wCYDw?5XkV-}!312!4-#Ak(J|
z+iSe>vT|sTioeD81HNoQGf$bahE#72QkYK6NW>dKFN@ot)1ENtN!Z^#R8zs!B9=)w
zW__Nolf=oNJx-Z3DIUxSfA9(=pckChav`AGD&TeSs)qJi>*^w;*2ZjP%$6U}2#dLU
z=xFJtveF{&9>E%lPw{-<b-}!Dxpcu~QoDiDF4L6X#4#FhXCo9nG3_PGXfVsT%fsHL
zlU+QxU1}v4n7jy1sfnUH6x|lgM-@UmFY+)-UB;iiQpVfVGaXoR8tkd+B1393e2n*2
z3(^2B$kTdrX(<{&DeJvKRY_AuNo|;KV{d33v(u67nwloGu${IAH6bk-A<c@AxALR~
z^iJiB*(Kh-^2zpE`ufm-j-qx6$d*cAQw;-dpj$5m&iaE}?GIACt^L6UN?LD!YMMIm
zNNd@YkJ15J@|5Y4B^{uCcG<}fDeI!5D|1#Ui`b;ils=8#FyrPoMnj3)ys^2-UaU+3
zAnmz-E@|sRdta$-9&#65M{swZT{gh{IR^7xJE^x)-N8d^+Ed6AKEesx7KuFRlR}gY
z?vW?_qfpPz+pRnsV9oVW-I|S8@siNhHJ4*g!Z^6aZGoqH>!{XgSHOK{{S<boa`{rX
z0`-caCf!<!t)3`(zhUri9#DpjR3|&VXOKtVO6}m9E)&!;vXkP=?BtUK551VDtW&=t
zQhZG}2|&Jol>=$}%}UG&c-qBSU6-Ob5Iy^kM8J<nwRP5Abv)Y6$5T#(ptO)+2;KJn
z`h{T6pwmi)n%#c!Ae!9VTgk0Tk=0_fc>b2Q$U-gDC=I_lr%^CI&A+UPoxXC%r;7Fx
z8FCf!-9iof#Ih$Li~MxMIgOcLj@vB{Yw_~8owfGFJ!V3&z7j-<1LJA$Q9SC0pRZcO
zE%}3-v7yjCVp%2h0s%}l@bmm#NOnqOj?^a3IDc{y#t!Ab(+;^ez$KkIi?>Yn!jx!P
z^ssMrD_q^6UQBDXG}$jS%9vi$J9LH*1P`RSf)K8UyE-~kJ=Su|p`Yag3uqRp0&(aN
zSI^TPq~k^b%V+p4_@C6r;?F)7-&wOb{LmG+BM}Myp-bp4soJkuf?mYUqts2POiQ<N
z$oX95&mH0xKQMQxKlO9%Tvh9Hh}9})8-|?9*G9`P@wCwcd~8}`u;bHmJ6=Vbhrfv9
z3CX&i;Ll7dXCg(c2e?!2v(wlK@)s2hh(uk|ElAD6GEDuOD&3#4DpZ&BiYZ4lRT!15
z->A~lg*Fygn@j({ua5=Sr(fu!XT}KBHlR@eu9eKZ+Ay~bX?&6*OE5HSSe$Q!+4kb3
zpR-UQjmF0|J62|eiK91b;YxMN*oMmJLy1ww0duHmbdP}pXHa#8rt5c2BKs?Z<%B-t
ziUgAG;{3s~r^WZl`Kuko>VE-p(uDE~5-cR{kMQ4%h-<i~=G2n{6O#@c(9+3s&eUG`
zBN{~**ltaPO0^nzdDl?DJOqqmnDh+O;G45F#p{EVGjzwk!7i{17AqF8TsV(ms0?bT
z=m34krp3t(ZuTxOfW5r_eaqw;_^y2A-`$b^)X!&(nGweQ40aRbu3C;^l{iYB*<kf~
zDfWN5d5vx*Qg|dT+@$Slx4Sr1K$q)WnbNR#+v%V?uJcws;tYox?C`7Vs43*u;G|-*
z-G7QxO?F#DZ+*;?2xSmn4YMD&IShaaqYd_|=R+)SASFekfH(W)jixCit07h%szI8D
zJC4NxQghJ-cL0i3{>sCmz>`O1&%;wk09UQ1Hii(|fn<B3xZA|eNVZ>lHE{Lz5I)05
zcn1uhy%C?QqzESyg2+flQDnj<WZwEia57JIu4Cz$BavnjWp7VLe6IUBa6$)2bVh>X
zT4@J!HkGyxoJ~|0p7xne?moEm6PYt=ROrW`4L1>TCIqSr78?<|?9RaH@VZ8c7An9H
z;pUO4G&SH<1mxsQd4Nl8!Yt{$+cAN2N@_TjVP_~WNX+9?>6yT}9Ba7f9DqGFNAtAv
zvmXQJA|ZQiPL+r1^hmS4_Fi8GPAP>@T2a13*>u{VW~*Mr;d~Uxs8{r5;QJ^?Q0C{S
zaxaDx%0L&a6-yXJ`9WsRXVavpeg^VUnM7R}Umza(h`ZIFKy^+Ig1#i23=h!t<sKfN
zS5SO5Jf#8368?c0&)0p}u#@yJR4ujinKl0hc-qxjZFizL6h8Zp2oPUBiltq59hak>
zPQT?uxN2Gmn1oj6*KYzk;|o+vZO?dm8UiNIz0Y%#n~Re1VD$1$-jTj^hrRKCLAv-G
z+XSIZq#;RYC{lZ*ycTH>nF2xMw#=t8qkJ$@=C3bd`4mk3as2(}AL53o04L2P7L?Bc
zk4^jJ`+doNxU2rmUwwO+5J#^0U&I)GGywD9d6K^V>*Usg;ANgFa9~wH*LsA|efkW1
zq6E-HyXO$(?mY2V3RyJEfJcPJ@t}0{&;?{=IS*A%6+}3oOh_}%LqlS#wR^wLV0(|1
z!N&bGNvQ9eCx5#8oe@nS>WTT4Qg9=xD86M7N7u}t{XhkyTwN;%SY-lPMHn7voWnKq
zaDCleDS^%$I0zO>WZ#v&fC^*i%GnfIwxHsrIX~FyZV>14y6F5^fPg?i#6mspTEi2w
z87P)OXSnJ7IdQ2eIb2hlbZA5~eU+^li}kg2TU<8tJQNTtV-}W!-GOeZm2s(3qTACA
zo8}7q+dGSlhe-ch#B&hwr<%Njzm)uV6UF&-a^Jd{<gB$MSU*og=LJIN0mAdR_@2#-
z<D<T*`Y@@Pl~J{5XH-bWbp_#di5uuA$YzoxX+)%2$6$HWEm9RmSB8`mlX!pkEDyhT
zinK_RS*X#hUz5(BvKf3*M5LD~mx@p^&lBM4+<ACu?#j_GkJ3InV0KrhRc&YilKq5e
zb87T9=F7c4CD=>>z5PvF^if;sluW23+*FXp;llc3mD!Vv91kKe)sJVBPSMrN8s}Wl
z*9(Jo3+D;t>v~|<ytcfF>`uxT8;#r@aFv={=?UT^i|Jcp0A#%Z%u2^j`aY;hV{N@i
zUO*`KR;1<O?rw4}vcB_3r#3UncW3(JtsC`@{9X@dh*`Yj9WRH{ir$1D6cq0W+VgVq
zWLJq=W9JieZEtk#Ody__B4k%oojop1*Qun7zM3wc<Qa%Pt~P132@j7id~|%Z%G2vj
zGlitR)0#dZaww}-wMtU^%O&j#T|(_i>NJxS2c{q^Xm*OOsR0m&*McC2=uP;urL@nL
z()nsBTbeKkzNe-8F|y9NWbq}pe8K9KU>$KmyEhQC#5}LE`%$y*UZzn*@07F6d_pK&
zn^1O5UM;>d*o!8)<ayQE?!Y4NxEa9n=bLFqOlC3Nlo>Lt7PdG$-<dxvj@_s!dba?-
z7XWq8&=eZqi8RmN30nwwZt^>h=jBij!Z&NI!Vd7U3iGD0+b`MQ34B_Jec&U3FNu2~
zF>4BaxQ36MzAW;A+s}=c+|K?ua`|$o2k!nn@%xRQ_GTt`!Xz_qjEd3NUyi}IVOja3
z&E<{N*!mwY^>MA!C$I;2+O=3~bDBUDo&F=2hv3Kf=+ri`DM{0Q+gagiwt-#TT@vlD
z@3Ig<3kFP_%n%grIrrQrh=cj!`9?nDg_=m``YQN-%OAhE7Dgx)Jj4kJ1-ERPqzg43
zV(*$N5G3|wwv;Jh^M%U)CK5J(ZkMwl{yF`MosbK#c`98&*c#j*KmM7`CX)Vgwv*Lt
zd-HIIZMkEgaIlzY{v6@>njg~@D4KvKcCde4ej24jNWg^c2HKwz;J3tu8^<87xf`K~
z%8+M*tRd2HzE*deUl?br6$qmYSyyZ~g_tI}LR8V<==ICNm>9xlf1QXZqM<B2{7fN^
zq#Xn6al4aK^tj(kAX$QtJxqKmF(j$l^|H}!;UrV-HuX$dRi<nPFTIVNysCOz`4SX9
z%d*OIVJcBeC7Hl@`Q4PQHHL>>6Cm9u27!?TqH{6q0wZH}6dRvPkc*LHjBj{ES5y}Q
zvIT51DxjX@w#L|pqvp=A3JdZJk9evmXC&SS=ywjbzJ0pmFW>BJ@QB?_#ubbd$BI7z
zlfen;h1wzk_x#@6Us;Z)`27^#0}+%kbt#g4-1edBz|^G{99+3>a#4&f*UYKn{7pDN
z6_lwaywh46yg$X&R6Df^eU|@KTn{uHfSxHr4%!<jFr8G6x?-0#ZZk8She{Btq!;oy
zhEO4E&J>^L`%rN)(q41CpW$t+^)cig%lnVk4P(y0otUFJuYq@)Fvu>%{VZmSNzSM>
zIj4c^xoJc`H$w=&Wjin7mv{HW>0L&L8|;!e=ApafTZrs2-!?mLshxAbOJP<7yrEAK
z;LE$=z%~`mOdq;Ca*Xl1YK%`Nksdyrt9mI6Oiq8~w;UuEwKu_!%QXS|fF`iRBpqp0
zijsJ?v0zif?pUg?0eVM;KDDsfYhXodnv4*9w1)ciwbgUyx8QpbtVk9sZ(9B@KbI`_
z2W7<+Tb`EhqIeF<&#}Hx@;Gm(@otJo*p4-49!2vq^Iz-DVX##v$@+`3wHUk7;P%ka
zC)2|>aBJ;&Zp~hGE7?&|vW?@syPlJBoXboX+~d8mE#s?1cL|kgOm_Ksh1_Mm>eoh8
z3fnJNzkRuO9as&p=hgth?XSfhmzkcQhfB1sOkey^rsF-?%#}2A8RaEV<Ab`!GjVcK
zfTs__@}i=8N;ui+mlSP0kASIpr=1rBFw=Xl`S+7cah|4p?loKL`?vc@dFeO5x~;}m
zwp}l_gYn#*<ZnMo|4)GqRQ~|-#w@&xXPOOo+Ra*9cbhm6KKqXh1_O_A;`X?kcwIZ~
zwof_&WK6@YAd+~0{fdi0IDj>B>XR4D#WUZ`Xhw4Zv{~J*o>z25Z!`a2?e%uIczyW3
zMbqpMY2-CY%_Q|B>PMb3DbG-Gb22y3Ur3x(Z%L7ZgWxjyj6&&W9K9d8<Q2-m;279`
zgwq3*gH>_Ja=W-svdoVoAP-gLqzDP!$F86?6HNCFn`x~~f>RRFJ<0t4h>JWDk<@n(
zPQ5&2_cM;`k4!}(0<P%XLe_%a`kcmjQjvJ;r)~W5_cWjEk^Vc6DY0mbX#7N?%zTU=
z%aiujWNx>x1`u{#sB}5(0IH&}b)(Ekl&u|)ZX#v+-Oo1lQ{qaBfLjr;xaP{FP<>0&
z+@Y82ZUasJm?r_b2=@7*4^MZ~ILVd_NJX<%e8;Yq1<YJy3MYBw&>S;ME6O_cpV`@x
zlC*xVxtL=8lTQM-zN43j`fVJBc(Is9<b~b*GuTC_u?Ot9C0-Fo9TAM`LGovXFzaB>
z6!mj;#sUL}S2sp0hxT|#NGZfT&ZF+KXzL))-cb;Z6XYSM*LI2l_^bOxzZ_R_jcPj}
zzkjXm#U}W6_XTNAoD$7vq8M46rw++<5+?MZFN)*Ww`+7o^o<ny%=SIMSj7T;?t9CK
zDkjShBz-1`zQo97&uIo?P=JC6ip{jhIgwY94P`Es9t@W5vufv_p)wp5^~Gm3M9wM!
z7JxMaEX2WJuC^gGPosBbq!$lJ&A=69pckZ%Dfa0<_Ala4MJ?GNyVz;6%enO^C(W&+
z;ZBsxwBWJ~lc40(E0H9xjy%2~53AnH*-p`tLt6-OqSNL<mNKK_lzhXmD|Q4q(z4f(
zBh8B@L!9(&gCb7b*O~}ZtK6ERl<Wv|3rE}~RE0S*NfD+r%}`StiqjADL}Ls(-O$k|
zi<{y^N=5V=MrF28D66UfVPch&vu)DE$t@?2T)*gCm~{@QV#YRJJKp)3xDJBNqd33X
z`EcX~Y|Bou^F-(%#~<g~jLqN<R;Ii%clNX*^E-4Ye{+RH;@+g*yI`<J%t9jeV`yKH
z{&h=&U0KH5BO^<26cN|hR=-+ttyF)xBY__lbx<}a<vk~5kD4W2ZA*!sZ<zN{?7A51
ztXM~tV^wyJOJl-g_08LC(b(*i{ToZo6%(BTpU;w7Ya~{0Re4fhm&Z0|4s+sV)vAQM
z4SeS^qxWG=S)l1o5JyK*8Tj<Z_6LgS>aY53c`VOs<`9R)yu&*E4qGlvkJn18pG{Cd
zE$?`vJBQvl$_yb?dc-lLMVMbBq<ciX?}|9wMCr#S>aJ=hjcz-s)_r7IHr9W5+te-+
zjr}kDI#>2+agP>*-Pn|&>Mko5cII7iWSp(?5`{UfCy#$d=z$LSV@Ylmf_F^KHK&!N
zo4MkCNJ)pB;-d;Y?hqee>XX^pb>wb`5&Cf$u^dOjDeGFThdj7p4Tcx(7s@2e1BA;f
z4okQLZ4%<#8ceWb9Qh5`Kt^drnqHD(6a@)oS<IC;pft-|6o61#=_XC_0Sq&R!hDJv
z+W}xSC=B;r2>_!5U`_@kV5}KbrDe1uaLXA`m<Q~nF&M^#!mP-%gf@_{Zyb6o>=n_l
zua<jroLgKJ{WjEC-0Mn!u^a%5S;5df7{vvkboWjG2muG?$w~pRcF@(~8ZH2g2T|#C
zJPbzLLzUuQ*NVfag7L}w!B}*vqS1MpTI2$A3Yv{~JZwyhDM$-$W0ccEgKUzG&Bhea
zKnlpe=&#{)hysnd#uU&+6*$=j<>a41<ZrV2nEW&0EY-hJ$mwA~^k`OnOb-K=ZBL3T
zIW0_x7ESRpriBR#2l+3YYB)<!fsXHv$!~$=m;Y3%hMS9}9;?dT<%aZ~^?=y*9ccbp
z1E9D$JPhO;L?2@vGlQ11C2aeFPr)tLPY4|MjvR_}X6m4wOdV!pQ-@jq7|IcyGw9`<
zp*m;G#w2X#3mRy?aO1k|d;z;|cfKGNAv1K^Im<<e=(JZuRyi%B2Y6|QK|#;;nsO@H
z5?^(k+qZ0x3S1v6r-CE<?Z!Dh9N{eZCY<FoafQpD?w%-zM&!OQIcGH@UOV*U5II$L
zqL}TQFgYL(QlvB$#hAG~VRH?oC^=2`;BSM@Y4S_7{^6Z>jNy|Y!{efk@d`zqz2C~i
ztbd;ULP2<q6#aOw_y&;R@Hn%7PYi=;H-Z9rsp;}BHFv@<H7~Ho?xRZDW7Qq{AIdw`
zM6-Cm5O~_nTWxdVHV~fvBMg>bK8BaHv<b(B++F)gBWwY>7|SQi0s8AJ$rzlRffXig
zXKonTxBKj))oLZJ75p@wyiVjq4s!O*-3}I`?c>)O?&Z6*moSN5Nm5Y9nUm-xPe{JP
z#cVa|d-xY@tw^ua+g@vMYhlox?<BP`WE3g`lL3Gk%81A*Rxj`(;Y4=&zR`Vc(nBn!
zsr0ri#{6Y3bpgM3#Am6r*2$%S>9|K7?E`D2XhndQY95Q={NDQ+rsco!1Quii(+l2u
z15Pu1*Ez7sZs#r4i1Qa3!&JLJvxVF3zGrM>88uk8&<|3&)uD6FxkxIwG{}Ssf0iy$
zOcS=Ykk5)Vl5lzdh3+<7l>Gl}R`Fsg*ef-`rBo)e?_$RpnwR4=E2LIaIi&OsnwnqJ
z2B038G{X+^<@9C7H-Ges&I+R+1(!6G9GhO`!83n0jpM7*WKQsj!C2B1MF~%-Asym9
z4R=T+DOKo?@6-9{Dfu$|9lH@1w3J5!^K06BBXdh5fi^Nqi?ywx$kLG0(UxXX6p^&G
z6<gX0wW%*D<EgDBYTK)yg9C1CgPTk_9W!4FB56FH$jK>Kmq{x8oEIXZIil-K?$Aj8
zJ{gKWc4OrQbkArKj}%ZJ;c%=}o&{mD??^lf4H-P=+j7NJt8>HTG_xif^}8oUJR{Pr
z$vgr&*6(4bGd;Y?vXLjKBrH`p=p2qtUPj$}U{VE?v(MWbCRet)hu)pla*33}sD*c`
z#pZ>il~p2^`BnPps1Ksv2(n*YQ<^Im;<fVMMHnqqdcRDI6Qld6-rg1sQ6adv1W-yD
z1T@l3$4Ti1=NU;;6BI}Fyo1mA#lwL%`@nMfZft@p5E@438kk0p9)WuJOptmeNXMyk
zx^t4NfWuX=9s$sKfItD<>%H0;h-QQ}iA>5sk0cVja_F4LJEiQ~DWjuu<;x2QYF8^)
z2Ev`HR={#>_U$#z#th?>mduiTnA+|c4HLi3qjXWNOnc&jXi3A_@A2}8XDX~OsF-a-
z_bvy@NtoP_!{kOkU~=~<Ozu|-lN&F9azMKeK)Vy5+$RB&>)oZW0q*tr7A82{!MfbL
z=Rl4R6c#kSM-J@FV*x~*aG>C{n8O60$Ob4#VIkI=trDmp(BaQw2NV2~!@|+MD<o_}
zyQ2h(sSg4`$sfQp;f~iC%$e>3=NU}$k-q|a^hrQ@eiFb5?oN{;2TH250Zej67Qi0O
z=$Zi~B?0#6d6&VgBbD5M4n=pW839E%>P!L??F&j?V4?#efN2g5xH<|!MbjLLD%8ma
zCVJ0O0-Gk~rV1)5qZLq;rNF30Q(gd<IHVFOG+b0F1&iu3G*Gn2C~Oj-XO_gk(K2Uf
zn5Zd3z(l{TsGv|$mH<Wn(ggsJsHY}3bo1i%X~fqs3f_<>2{09TqphR@<}mN!PMsKG
zYrm(HHZZ=tCkxysDhnuIosgj%l&oYCR908jV6r;ZbJ#Y>`;z9+Wyv?m7T7s|NEf6?
zV2pi}nV`t}xHzL3P?(CSJXHdOP11qVP@ZFd0}p!sS0-cu%>KdMJePt1M>|l9l~nG7
zjbSk4QvCz=F}NoZK2L&AuT%&IOt8V{LY>8-i8GkdWC7m7gk>*>z+*_b4-%kPLe1r?
z{<2aN|8qPUU#f`a9o$i2J2rKjcZJc5WnfS01u6F<m1t=so$kHhYhCOmQlALJg?hwV
zuvYm2k#cTF%4BxEx_ETou%pubDF2j@?vya0uueEDcbf}UbeokmKkt#Q=Tw|xu~Nyy
z{Z0R@%Du}Gxw(cHBy2$?ThpqLS3OzdlMBqzIF0G{3g8%@t>}9Ditd$x(%<0sp)wgj
zzb&AX-xjLd0fP&l2vGCqg*WQw>$kzF`faCAY8dD|#>o<H9p!S3vU9jlF#yiD@G##(
zjP&Hl)gy2yoo>vFc|x%oJQ_PH<?5%AeyC<$Xg)maOC_C7e{RVwu5k+tH(h@E-_Tpu
z=!Gf(_`l>n*xYd6&y67CnTjeVjzQ8EDaSP|%W(5QINa2r*bs|q#IA_7fbAIs6%|)g
z`G2s`!(_)JZpY(8M`~H)_VLqhPYyOyy6<O-Q)XtYaMvu=FU#HHwRqkAMKHB85M6bO
zamrJ3DWD~8cna4ni0#08ODfwTpeUh4w8QXNs+P!>M10j1ye?Xz9P(#7m~f%u{swfy
zGL_!|M|VrVIpE~?7`BhA_T^58rTRuyktMXc;CVHQx%zfJN-w3G>$OAkAI7WKW0)Si
z#rV|*<0*Smk#8;l#T5i7$$BQqes0`kTOY%8l0KwXGcsDtijRLt`i*oNsQ7VNeX6QZ
z)w7k^pk~%~yYlm59O`NjUMUY)kqBFmuv+Y_SluaBds4oJGGB(FtU7c{)a20qaQu;O
z&s4Kw)Jte;#pSn}hpM>)zNTko>5tQKI6m3+9?x>b^zl0|hj8Vp@1xMXsLyQ>0qc2C
z@37M;?*i)Dhm}>*CIoLh*z;3dZa>;l&D8C-<Nqy%E0a*%j>pI4A=;AIjiYl>qjSya
z<Yoi5Y)RzfMr_rV*^P&co#S)+r1Jf^a0b=R=-&^Imo_XuE;f=@v~C<2>yu<|9~Ifr
zmiymCgt(T$t=+zBv9oODjrzS}MIozpS^Dkg<7HzjoZ|;AQ?ROc^r!vXRn|(WeNrtc
zdj>-|F2=ZiA^9Ry`G-vU6XhNWnLl#!W0q$L*<I52<VsLdeon0RsLr!_*Do&<o!THT
z))EcryjbcM)J)IT%;_omS9aoW){Ofu`4gml7|nkG+A@69>mHW|c-pmB+j8145S{)J
zzR1{*fzT;!LNk!IdD{_YF)l`ObV<nHR}v;6Ga;6NK48}Jo^!OT)mnz>c=B{RQA1h&
ziMPY$XnXs629bPW1cl&Yq6QI=ku@WR&jSUc0f8^j4Q3tVo2%*1JHGlxLI{Fd@EkTY
z7d%XFaO*rzW45mN`1fu;npVHAzeAjJfzfiKvMW*O4KgK9Cobl*`{a72%j6LVtty@;
zQi+lk$;|zo%KY)9ncnOWL3Brj#4%GRCuWLWQJF!3psc|0@hS3J66Zsv_G;aXOfuKY
zC5mLIg*4MW)IKg98@<ps&9NVyRc?1pY@}3q)=o#hOT^L;zD6?{TJMkiW8BuFUz=(%
z)IqS(l`5fR3*7bw{a0v91td)c1cB9+HDwGJ?{0d7^m1ep4(J|^#6^`7X>AgwOkj>S
zyD~%NTq|r6eYc+R=O2;ot$;jgt}s&^6kj8g={>)9#@o=LrX=8zPNSLu8QWyKI-div
zPms9HxwCs_)UviDCEO<^G4sj!rY<W4_pl2%HQ6{F9^3SH@b4R;dC71Gkv;ebm8g|K
zx){4Q5Cr$`ZooBLxRmu_N1M%zw(A(9s6f?}<|SF}%juOBJ`FI2AaoJlqLj42Ba7m*
z;d=QB^EKpDDu0Z<gF<j!`(s?OfgSV5Xhy|LH_TxJ@dkxTP?I{*O)93Qx(dy;?1(c4
zGT;J~t}FD$?e;5}ism(lmFxgSTth7|#|5(7UomwHZJNK%6|AtT(L2g8s;OGpAl(_s
z8ap0ef+!Fu74RjTNt98=HwP=!(mdkU?%#>VZfpDN1bREjyjcxF%kjZooa@7p&h#oq
z8nI6f5#$=@y0BJ58MINp?@L{%!?S1Gzb<86(U$|#=qyr_SDYakx~sDr+V~=AI7(02
z=-*x&U8z&Qgp7~ynl~zYLZRZXf^R&(iQ=X4ZR9im^*AzvxK!qtZu_;8W;RuYxe7w_
zox#WEf!XRJb7u_e)`-$J(R2^@)J@AqD&1?EZMWUm-24-{>3<6{ZwoR$Kfr&&VU%RK
zDY^!D+TE93TiYNM$De(pkc1d7ZC5up*Y#1SyE_j}P9tjq2&A^(en6}4#k$gYvGt;a
zP=0X!hjW0y#o2f<UVI(fp=l=bOL_k>>yulccfGWj;nMnl^7E66&l7q3o~A&E(z1e%
zRa&NmT**0#ORJG}V>_Tg@*i48OG^@_6p9*H+mfu7@br2%4ukWXd^wzrmY=RKAu}sM
z64i^!_RL~UCyZ<3`wh|*QoG8pRtg{9sr6IQq3k*~8u^wt@So`^$E?HpL^p?`DX*Dj
z^ps;;AC#n{Yo<99_FzQeQfZQeg}P>Kj|U|zAGzXC6qOAM)VwkzeYdVnnD+A?n!K>N
z2W<n{i(mGSeA4#jKi7A2iy9{yYhJm22eW`JpP}U)mgk$wKfH2&c)a^InT{^nFK<6U
zUP+DAw7kNcTh#fPE1vg2&aBnPC$8Yr-lA9Z{-03vtfru*WHnRnX^I(d-Lp6ij}13S
z3)oNk>AM6j&WZaaFvvKJrp_B#=e;o=24_4sN>RH!SYW9%7nTcm=NS~v8*fAFnNa;k
z%kOSHwh}@tnes{o_n4=qWKf2Q7oWDot;Py#6cu{OK$6L0Ln>!`lBJx%lnbf0^To8E
z&AdlFx?bi%Xd#&!rq{-)27&i`jF9bz<qk{t;OG<^F4mxdm(d)Gq0=Va<w7COA?zB_
zXjoZrDS)vk;f-+N4?>D)HVqcfadj_s9SyH-HX(0gVamh`8ZCRZ4(e#$R8k?-*z(Tj
zax8x|?K=e<*9AKwN67FYm3BsQGv_LrQ7qOu6gy>C(U7n@8rsKml)DWjHbdw>X;oA%
zG;M5F9JM~6SR08w-U=eQ<Ht;h1>J7FfXDcFfg*`<U)>N==8t_z=(~RTV`pkC(-!>M
zup3Z16GSlDLr=0_VA8yDsmhG$J9mb{@8&(nrgn9tm^*SrLkeF(m<do;1JliJTuOf8
z7XEwKU1WEIOV&+!1DiDbY7*Gt#HBx-xZCb-RqJ+oIt*o~Z>AuxHbv$fe(b(WENAWL
zF2%bSXLt%t`VgA2rl+rJy6d*K{j;u#UqoLA_s3?o>@Q_(b5H&X<8HP6JF%y5G5IL(
z1bEubm|c6CFc^lf{UiAZ>Y-A)xmjz)t~<+x_zG!bf=O8EzaON`PA6W@u91_FgXDSc
zynMWm;@RZq%|!W<Jh+9w3W}TWA$H^oLn~6`*+dO(Y}wb<+~-U|p{!0OAciHd7(U^D
z-flaBB&k|+sj$o!P?Ty?63))i>NjX%z2gi;$D*)0B=}5JikDoSqv<qgzN?Oo+jRE#
z$$G~Mz%vk$;zA4mkR5zf8|`UNRJ9y7kJCjkqxV-|u^V#%D5jhN^7W|awY-gAckCPV
z5?~-mEW24GBw@*@LD}P(D%rhTeJP2$*m8$FXUj2Jfg)>=LA7<*$EcD5G}WV?*AT8g
zV={dT`SUj?@1z)Qa;~7SI9B`#m^{tBUX?7uxpx)j#M@vLQOaYq-~}w5AukS})~#-W
z8<ay3=%V)Ke6Ee(5Qf$r{?ELJVQlr{3>M@FNNNVep+tFOqCzDu594N$N}bMtB@~7t
zil0Ei^7HFMIuJ>|2BzfYF_D(AN31O<&ecnMSZ;FF78d05^*U+`jd#yvw1T$abf@LZ
z7DCn*p59#!vRZU`plxHctcMf?_%zBTw2ABQ?t5u8TC?<iLz!fn&EEAHcr?p%!kf1x
ziasK{?LF1UgWKY8IMqu|HT9)C9?Wj1JpF>oq-<q^$9NsZg4<|RM(ny{{OMkDngQtR
z>dythM?>i1SAokZ1D7$gopfiwulxY0Ysw=tC#<trurcWN7PrjUZ4;FdJ9kQRY0@uL
zkud02b_2?pS;KAnF=DtAG>tg!b~GcFdvWoDJ)7dqVOxqDfAycyuIoPv8oKl^>v(xA
z%7+1i5qR3YTWeR_x)NRYAH{FyBMv^Nxox4B&|dmUOLi16*p`tMNYAf7lI+CJ%X;Lo
zN=YEIXOBkGXiFC0VS4xRy&i!(I;q`nHxKte@XHs^29{M3oPq+T1lt}-KTtZoqmd87
zhx8Xpzb`5KDFow3{D#U$f>7+E6-DKoSvCJAHF|&jk;D)A&)fe3H^l_G8AT+7b6Bz0
zI#}e8GDz@O^D2;$RRE`emGd1|)5u1k^%q$f1T|ig6xA*+Q{>*WZz2ZE5<$!;L9mGL
zCagtIwFlTIkz@DqJ|!@tb&%pbM=AAV5imDe2Oru0fOr)1lmOw|$%=}-aX+_NEN5AM
z5?Fzn!X!s=98c=!A8#}K`PEsDUV!($#1#Dp@a#VERP2A~Fvh{8ZxON>9ALTqhOVd&
ztBM89KKlUP-vlqKIP$<%S*LSU(yO!nSeEJ4S%YtU^uqkwyuB&bG1o2_AP^IEi$yvs
z56=zZ=;$1e{(oRfM%EMzP6swMuMv8*0!rboB+&-LrLip#XG`}$NsTP~V7~7qEeNmJ
zg6I|;h<a1<H<f*;MY5u9{{&Okm;AM>+l1Hc!8E|(G=vM7=Lt;TuGX8u!QOn7^k#DH
zW<*nPAoTq%jcgALwoSTNyR2U=OT6hiHaff@`;rCuND4QE!zCy@Pv-vF%iQlnea_6{
z(Qv>TgEu_a;DtkjcYJX0{u*q_-N)etGpH+AmS}E`UU60e{!=|_);c{9)3Ii_4eaB)
zq7b%$CxkE`i~T%>1$;xGSkhxz&{5momf8-s`UBR3Eb5IPFdqW|Dw2IbimXw!tY1J1
z38H!koa0gxQ4~-Mf!^7d7UG$!Wi3R;m97>76Wyp70uwDng_q@A5n%}goX^$6Y9XaI
zMD)6?1(|0bx-2;)1b=Elie;|LLiAY(Ds)-ums}r0v?0qx9b#{KA1V(rr-GzLpsh2?
zpiOO2kFEjb*#gn5Kw6;pC8}wrT$Wq`T0jbPMuI0Q2CM0R62!)kGOS5D)l6Xnn`0{e
zD<{!g*H06+XJiI5Yg=x{mYcDaW^Am2o4{BRXHuF=GDVobspWcf{$@&>;CP8P!eMHJ
z<7LzY$7`t>j+o(CRn@}<0++z@*$BuIYMTNbBVdh+%nV4OZc+n+H~>(tb^+VPsLqP8
zw~pvhhMj6LL^924gcRD<2q`qI5wcmCOprp;nj*D}W7uh2P2{+zb<LoqF|^UXM$kqB
z8$lZ_Yy@pIu@RJ*vo;#p2-;|6LntwZ3hk^1wMTsot%<d^WU&!=Esu@BYniMGwzuW7
zCfeB%vPSSuPwBxuv3pUo4O*eDW38&ogH~T_S!+d-Yx&N#e3x3jRZl#^;!WoeCS0!o
zTIQveIV;y%=2$CsRv>lESy9w8CtBvqM9qA>QMNkvT+nLTJ397UzG~Ss)hg_th7VE)
z4|3fZGZJUT!K^X&84pJex$ec%95h?j7g$gEvuBFQ*JK3ZqX+s9u4*UAs264Qo_OqC
zJG-9RL+5=u%Wc%)g23m3y%|257SH>|$+YE&_kXo8XHn4WFu7d<k5cXA&^wUBsbUhR
z(JlCzSRjtK(rFnoTV}myE9Nwj^o^tF2TA<6%6%;ClG&qwJ6mS{JMdth<J7My$;xMc
zCSD|Do+4Rl=x0oEv)8PfW`~bhJZP!A4_XhtVk9q;NPKA|8i_j|ZlD;hY(@vtaG@lU
zP%)B15=khHq?SZ7R*dA2B$BZ-l3WrAkS#641rn_&f#X}0XGOctxJTBRTCG;O2Wpji
zm7D-kR=2ApR7^IOBpXVTy^<t5QH<nO5=kPBq?AOGN<Cx}4|A!97l{WX^*|*a7E%v|
z#KW`H!yk!<7pVs<@sLS9yh=R0N<Azj9^RxL<`NIN)I%!qP)I!_5)Y-)igvh?EEbuU
zGRaNc30u}AL|B<<fAQ>?f{D@sS}BkX)o5`kSHkgrB1b2bk8_X{ImCrq2}gYz$NGA$
zgoU2Q(%qnu@GMW`*}dZ1qq2gmTsz@Ikr`Z^bE|n%l}-P1`v|3qnJ#ESXS?w1?Ok}b
zM$L_9z~-st%rWSGWDx|{h@ic54Qf<DCV<e~8h3GQepy{BoS<c9lcLB<PHm66c)H*A
z1G?OW^nU+b<*y9(yQ8`eZ*VZf-R(g2sneX^1b-vi=yTagQEXYvizp5p9{HemUr>*h
zA3L<X5o8(Mbv<6Yc2tis#t*2PmMkeO8*a(++zdMI!&miTkG53xO>={o`4cg1{AstA
zZCvcOwNtkHA(}g<-Q<K#AWze~soI`lRK*X~v3<k3U1xB&l_zz7wFQ{V>CqE~1oOu<
z&IEr}@%dVDDywN@IqUz<*c$^56+>Ka==tsBDsDXOZq(&odV{}q+tlvNOU0YsVb<>O
z!}V5wYeK7q;2jTvUsT@cjRO)yk0|Jfj@6H&`-*}Fw^?1~@Q+&G_j$vUc)k0S!d#zq
zd=hK;4Syo?1+Dan;c3J_*`jGioSa1LM{JEIs@=O8f?bI<8=u{2<4Cj0oys>{RlNkS
z(A<ge>P&R@hVICYnxwT&Qu`r26QQF(=s=P>H{@KDZZD;KgUrVjzXIXki<dJo_LdZ>
zE9ng4qPH1_Yt`Vhf_$?%$K|570W}(jSO2vD)S<BY3*lub#Auscl!A}1uT^|gU6jQg
zoTbhON}XS5J$^3~gV&o$hvTrU_HVw}$gaJFU$k^;M8k-mkIWFgY<&K@@CQ2z;v$rr
z4a25_auwF@8mi%EvfdmKwD4}lck$ks-0sM?_bkRC{H|0Yu>8pjO5ggAcdFP+`R~^I
zo!`|lKf986NCqGGazGOSUJ;@0THek<n3<RT1GQ~GO5@RT`5;snaJoL%VP42*qus~g
zU%7R>#)Lup2YA}GnO$?*IuM5E{3B#+Y%WVlQ`(ef(w>?2N+V<$6pZEQgC^(KAIVT-
zLg-lX_9kCspLch)yOL%6uzbJVe^C`)>h~(Xd-w45UTi)l5k{z%g5n*aQbbun%5p{M
zcByA6PVcy8l9XstNU_68OH4P6ZdpE>P4Pc?2s5LO$E$S*)enOZQ<T&U8(n0hS>kCO
z?@7sXq8a8nt8@qO(-GFQcb}8n_1$e|FdCf*2z?h@R(;cwk=;`F6U#o>yjhdztqd-E
z>Hf|ah~%P?+<*BaDq+uB61!Ltp3Ygxci(DKjVtym)HZ$;yb3lJH48RQXekuyVco6K
z2xoWf`9?}1V`U-X=2L3_jFnx$14E(yoswXbbt-OVc$qVa#=p4UU|ar#a{U5@jiTD9
z4c6`h+>}jCq+$|^f2yA0tYqcBA8GwzF+S^HG}2^iM?h7zQHHZFI&Cm9Yl)@;Vs_Rb
zn2~XX*{*I2FZWr@*mWct6<jKfS1)Z-gg{C`?F7#;(E}hm{%jGQ_6&d^$&@Jf16@H%
z7)cq{c8CR2I%77#`eIfEAWCw+vV{*Kxs}4yXyisN?#%5FN~hKXtUFUb#C)QfUI_<e
zifKH|hiUG%KzDK&z-U(DwEZgX#aOu06+(6;UQNXij9bu)Q5XVB97qxfpVHqb0Kd8=
z7hwLnVk#d*d&)<yb&sd=VIZDiWs1Vh*I^(71d57r1Vx&}KqQVPP$aPEI9PNBEII=g
zoq>vO%u$p<p)xx`U{D6mD+A_L+>8~vA(GJ3h7`zheGKK7>traF>t!$&V2m6xM#cYQ
zFy$2+z<e3Nd>O!e8Mu5U&Ab6}EHQwvYtO!cv_p+S`DP$#*PqFQcrnJOr<5?l&=cQe
z_*t*L#vKHKIKEELcbJ~H!K1a6rba5^W!Ald_OY`w^l<HLvqq%$GCjYy_AyOcRVpgY
zE5m%OvvXnh$m3xiO)jn$+yC;wj7K?JnRQboxZteJF)wgs!;yT?N$G(~3L&Xa22xXX
zOaj*{J0wqRy(oXmUWA&@Dz+w??-?!+ebDfKsFBw_>+6>r&Xzqr-mh*R%75pda7=|{
zV^OO(m!gj6?u+~BC>HsMwb$d<WQv_m=Umk#d2v4<HO7Mi>aP?34V`4}s<)$(1gk8r
z$fUNn_e|>8y#VU{ChI14RdsYK{o78>Qao*}zDvf=q;bEOJ8|dbj!(Mjz;1X`DRvDv
zv5s-AY@lVys7BGE(qiE{Q42Zc_7~h<!~Iaq`%={>%C-L`pI>imKm{)RfAqikx`wB_
zdU|hnSi3dcJVos3s8GTwyq%#PsK7;rM99g=FM=9a;uORG@{e=6z;ne5c-p;M+j8PK
z5Uu^A7#lE;lSw9%*=#12nXTG4l`%3X@rB3|3H$Xc8w0+GpjL~mJWPggPT$+DmdW$u
z=C7}1@bKmN=TouzJ{}RzTk|3&SrqeP^eC>YPktA#H2)<yjWR!{?|%?5EFi=V7_ySk
zY%R7s?4$Su?XzsXW0>90gmO+7EhcY7H&H4hK}lY`<LRa>7X=a3C#0-DLUSISiy-NF
zth^(iJA6#04@^)VrJgt6D(@&`SiZDCvyhZBN!SNnSfC{aJxcr$3O)%iaOO==aGdfC
zr@X`|FLBCCl=6PvS4a}2={$;GEeM!5!X%!rl3wNryhO^EIQc<c^6@I-QLH|(AgC%2
zr9oADD1xf`a0FNr7}|uA{Yw#P5J;>KB-RHK>jR1O!MHAEj0$6kWti*&iK38biZJ0t
zRz1fROT41-s|87WVuQfSb(Diq6U&(+jBTftu%v=m={oB-OJXvt1>Lb$_3iwfM{A{i
zG*2mpDQK8-wp@vHi=mnv@}`?LHe|<H)(YOAVk0AxF$o{&$1UdtZzm!>8(b}HWhgWF
zr7+%ATEyybu^^GK!)H~olTu}w72e~tEYgj=0$y229#bOdhaG`F6G0roOTnz%KiSE)
zfzDzzJ+}SM&Zf($h#MmZu{K3&qHGKu#@7_8AF~b7ohOMYrj-YVkZuMTf<pC}ZFgWp
z*dS$I&*ElvbNkIHZMPT*uK&nN4U>F)#|ydkt|};r)1sty1p4xZk+hx)FkoP9_@up@
z0b+43pDk$0GIpF4fbcqC#hUJ=uTA0i3z`eht4g-}AO|w&BMu}PS8DJGr%F5gFl0Z3
z{A|VT>!psK9duA?#!!8yHHEjz%M{Y-&c+}MuXO9s6lEK}LG2j>`&B2;1E16}OSF7%
z3TeC16f=#=dR+sBDN*t9pkxZ`yMJR?d!Mb8;T*%oGMq!=Idn^A3zFf&6HcO8I9rgo
zFo(G?N4hXax-dsNFh{#nwqVh$qTnpji7wKGF8W<FoJPBGwxH21Ea5cT?Xv}q8>5&b
zqjbAiIE{4U8|lV3(v5GlL$L*o6BnOYdc%378=g}uL^#ojO*))NIwCr~Rfkdqh>2=~
znx*;+b1)t`4-S^+ALj?r-7!*sFfxU=hI3O$=U`+EYWc<#Gi?sYKv*{vXT#vl>i1RR
zB3rYR^4*IoW>8-ph39fv3nK}m>4LC?<VCJBX~Uw_j3vxinMERA)nEUoygF-V=R)97
zR6k!!`u6fPzkN>szWG6dxZu=R2|W=!VxpXWQx&SdeyG%gs86-?M(wwFl<28Wv{raf
zrS)EVT%;+Dg*Uoap1!a0T@-xh_QOH+tTKm^8K|JMJ;}uMhL!6y+E%|eB0QLD?@zER
zgYpgKBB<P2ePen3<<Ifm^5HI&#Jf6jcGzx%%KHaRER4ONKK?~K(^=E@<Xz7GI#I)Y
zLp*JBa6uiE1}7|^IZpHOP1S>1Nq%kECr@$4swZAOMO>&3_LDCZeD^z1e`rK}#f$J2
zwSQ#1MKbE^{TrTj;NI`X7vh-Cd=HXhs{0QYtQtR`p$&|ZdAguUBvZxT{M-D$kuir}
zbfdfFfvHo!G5qmt?#TE;Ms{1G-mrx;!v=Y`fSLs%rw++AAxX^Nk$`BO*ggi_4O~kn
zmT6qJG_}n?JR&P44Xq1VV^FxaEXema_y51_S$&9JDc?2<Fe3$~yZdr<kE&TZW&C1x
zQxD127sy*9Rvl?*#w$c7#F!NDW`X&bySpRnSdd*tP(85p1VL`kt>U9GFTad=_3c_u
z5X3xKrz$RD#D0kCm{GVgW028nfDthFyt!c>X#56xQ^77{hjqe1Qa?Gn%$n2D?c0dH
zHRPq?H99N+0?#^dzHs6Oy}r^F_dx57;l(^m-*-IgK+|{N>enj0wJqiYC>iFfE&kB2
zE1a!6rH`Tb4`B!{#>g4l1bEuDR@;u+Fc4M$2<Jw4EEK6!Te?E(^T;^P;>NL4+gaFt
zeeDExS!o}}uBtpZM04iM?TmrLZvXs!?>4r0_<Z>Bs83(Z3<w#FX3$e+bXE@3SiX1b
z9IDM|tTv>ujv8m-EZhlNwcmIjR)M!Ep>C;^N6I??i!fL|2*(YTq-u@s!8!x%#97Ci
z#nxMYf)D_LpOE0wN@`Cq?p=5`mjC|sc-$W3&oAGgVA}B9`!50^A)6C5JJkrr?RH&6
z5LItP7dXB+zMJVjB%H`<+R(wDcE#1$`)nOwZEtTgbWJjN4X#{!uXg(nVKJZFe=Wl5
zo=s`>hZ~(n7={DGn6*+<2aR|V&MxNBz+!7>sE|TE!E4xY9!k-0<!%_PAhK6MkUK%7
zdB{RbLCmE~b5Y%^GPp}}lS{6WfMw81TIgknHW4~~NrEnE^Gp>>1J~3-dcw7^!27|y
zOlZuAFC?ceINe>lgTf4>V(x7eP#8ncVM}{4;W1}z8aNtGJ2Zxb;>8k?#(!bD@4Z;j
zpm&P}j|z2Qu>odNg93`v9*xS6QnM~Pv7Bko*2Kn`PrJ@9bq7Aj2$<h2C%@(GK(Cs?
zzzR9v|6s?q6&EzFye1djf-*ENWw=V)i6JG$<t;^}ng1U!8a%YVW|<Q22bUfen=S5y
z<WJ@NiPlDzH(ZK7Bn`TS_=S;`j&>YI<%BO9Kl>y&XaiigSQoj#3#ACv#Tu8>wm@4?
zT0&b-`xt9o#cixAt_QcF#oE`gLR^JwhcZusM$C(eD)g<mlKcYP7;XLn`FMW2sSL#e
zc-qaBZ%@K75XR#-Vt*Mg1xdunBnukeT}rvQ%GS>I2I{A`RKP66WSYM4O>=ime)shH
zv{2-`c}^1(-(MFG3sv4GAp}9A6^EK}t-?g}9r9UD;}DX9KOwha45OvmqFidkX)vhS
z7D4SLZtTt#cwj~qN?)v45Ncnr;WHA{E&1YQ!T{C{y`O<*06m!rWR5v+$!5dOnVZ&>
zw&W8@_LjeqeTgvyp+k;aQEgD$QrdA(v=>wYXAR@Rjv@8kAd<NEPyHIOcWkmg)ctc)
zW}It};FSsbJK}8IjvaD30Pyu?v7Q#y<INq!Txm>rr6eX3x4QUbnUx9q_q;gGMeiT_
zyT_iAW`fL+tExgyK{%77W_E*-(j#FLaDT#CS@a8KkyCae{!v;cj%u=#tXSe3{VPQy
zBR&vHJ1z_S1o!VG>5nw{26)=dSY30XFch8rM}U09$5O3jS6#>L?sT6r0i#kOU=rM}
zzkU<^!~%t)bYD8D%suDi+<S8&a5~<M`90Hzchm2aX!&SpP*r0Zc`!sCjkN9zbL??H
zBC6sOpZh5AxA+UJ5vR{1>R~uXLEs{9RV&s^NP}q0C(NH=czU`IF9k5f+Qq7I`U$ca
z5&b3dNgDrL8m?+QT44eirx=A}Zfg)Yghvj?R5I__@%m-r_NT$m-dCu55yiSMo|~K^
zpEDrWh({DS`-M*MEB`F=E)yw-OP}l&Fb$SSkOT|+?wc`K3<n^As&aa$s!vkhk5rvg
zAja|{vcZ(=4>XcnFkmLEug}HrM<u0pbo?-GRgYP&2OP?{RZ*~B$>`aV$szB|LvHl2
zn=IsN&$7Pu*3(@9xj*s0W^BaCGuv~~D{xuEw9tb>n%^~)R+DpNQB9d1X*u+k*jwS5
zJ%l$W1xM0^)S*2&)qI<SoATxDFlBVcn-NpWtHz+-27996Y!ia1_X~TYgvWhToV=LK
z;=T=zNQ3eNPyihEV6nuN(?f)t$MC8;L{n?25IgaM8K&oAtRot!+zk1;PTSg4IZew!
zJ~mr(TzY2uyC%OqDJ#r3adHNMctJ4xsg)^EH^q6P7@s+OQew2C#D0YZ?A5Z;NQ0`$
zCOS-ffd|e_>85=p!_HDIr(J6qG6pnC;#_~s_WiMYu*eguMNga=COp>@s|`<1T0njW
zom>Gex-t=Gf4(cAMOS2r<U3L0v~ItpyX__FFhz1x)%_%!Y^SiZd+%DaYsez*C1Okc
zQT~yu%x=+bU4K&vW??0qYicV4HO>*YO{3&ME-=S!+Z<V!7lw@QE4`e6>+o;S_?3)+
zYV#LdH8T&{%qTYczXUOul~kjdz_pqQ<u+4RmwVgdxiD#anYCRRZARrHw5$lV10lhG
zvR8tmil0;(G}14sxDP_K!Z1wag~tw}`Uj$s`9MT0g|T3R+eKAz|8fi|A`9FICWt%~
zz_}kZf$4}+X>wKCkX{db(j?ws98ul?z!deHgrquxrd%MT8TeQ>^08`qs_B;?Qi{A4
zub10moSI202CAE_Vx;r5Jv(Ek1d45;68F<q-o3RIU9@(*Fz!x-KwrG6uH(Lj*COUf
z@$RHytO1c#k?1%-*s2lRKhMEG$YMr#+KUhJD|0S3FVC@X_ed+R$TNyJG%n4{OwLb9
xjn7O;%_}i9$}Enr$V`bZE=epZVT>oJ-V~}nIX|x?Gp{ri0OT1YSO5S3008QKSMLA-

diff --git a/shared/default_1006759096908622008_0_14107.profraw b/shared/default_1006759096908622008_0_14107.profraw
deleted file mode 100644
index f755f935ac3482bae39acce6e42148e332460048..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 282408
zcmbT<c{G*Z|37>(WTpW}G9*)lWUgea2xZEgoXk;XA|(+SA|j3=M@d442pKX&hB75N
z#*U##WJp4#`+NU>pZ!_u-rsevwb%BKxAcB^y`Fnt``Xuau8!+I&YnJA7yhx*{NE4Z
z|9lQ-`Okm+=Tjoj|MzRuuUH@d-@h5C|L^~NBs>YoRS5m}FY1z$#oKHDTiNuVKidAE
z&zB|dF4>=MyWUjm!~J7*l4k0OamN4qEh!~dxiyt3_L)(QD7GMtCE)+(fBXOaL<@b#
z`{miK2TK|rpHkjE>UOAfOyxgyLVxXleF^FW->7D&Umgr)Tq-YW+D0!qo=k)2!1cJj
zXO8~mQ<z+Pn8&NW@z%3?z5kmV_&NW7pJB&Hrh3gQQQ7KWT9qXI9j&!cM28Og0e?ag
z1*A^W)#$wN&9C0>+hv64!1atIHD6=jbMV<ETd&hMIA|zbn2tK7x%(eU@B(nUPvGT~
zMt7IDJ5P2Ga1sz5c-+O=@A-?j|FJ4&pS-%?L-DXBq66pi+=$0H^~aftX;BZplEq?c
z0;V&;>(tX|eCP~tD7tw0c-y2LR$kyJ1r7<(f%8#U)!)DITzA&Ikypu}QtS#5(Sh@M
zb(@hzeCWV6;0Pl+a6JWcy*fTumVN+dS_dzm$m(BF`@OBgfs>2rqzi=6Do<-qolrZ!
z+p41Zpev^H;O|4b_ytn`-9+}cJ5(B#Br%=-Jp#H1gtF3sGkqK{pX)>alx%AX%z%@N
z=)mLElsLlEuQ}~Vck)iy$(qn*FGL5PKg2G@i(>4%9{@)d(ShrUTa^*I6PNzonLnSo
z$*_sCdJHe0iweCADklWkH{SL-WUpE0S7JKPv-(HuW#XBE6Nu>;pW9R0c>nJK;HY3a
z-ISa^mIf)>494=(4BaImt4Hzj31v<B(rj9N8#tAi&eNPde%~xsmVgt8>6|FlT4Z$5
zKfEg^sj;l!y?_d$1J9otTV=N~lc5z!?U;9w9T$se5FL0v-*@qElG!(1p|*`zT~~ff
zL%lXy&hYttz|$;Qsj=K-k+&pXqjIxm0;V(S+~TCTydjlPFlTGbL|`XkI?9<zz9Vwx
zIsLiEqd7*)du0(FMrhw+veHzw?`lii;V%8(sT~TR35X7y&(l2$cPMOcUsOmJdYzUW
z=9tz(%NZVbw(YDx{JkrRi)f$5(5mfhE=F`VLw#Mkps;i+f43vp_mUAEddS&KqiK3W
zV_qS!WRI+L=L6F~L<gRSY@xsIZV<`i`=|B&b$<&usUSLV&IIyX|M5sMF0c=0!gS0$
zmJB@|Y4?JCI7Jg}yr9b+nw&wp*pz_bX|NBcB0BK6pB^|JJuF+R1oq*%hz>knrv2y7
zT^jt^2lnBihz^|d_Zdp~xxbQ?JK91YX3JggFhX?TasQ?6a{VjA0txJ&xiFnOh0DYd
z<;UUbdB%*|oXkbt8ffDM=QEqNDJ$l|0ZFhA&qZ|L@p}4iqk0QN-!8E4^+I&uocCHy
z$}D-D-ea7{L@!dNQmTRI!1cI&(TS(IK<WkiOeRE!0Xp8*T&o5%FBrOlede?}TFy+6
z!*`SHo>$On7`ePZZilVTHY%b6&mTXhx7xzp9*tmsNJezveC!`MtQ)l6j|owE$E#f(
z6Xc5N%pT<QVKSY%_%XFCN!1|nxGbUrpLZ$_txJ2WHxj@;lYr>J`Dn*|U=tdbbqD)Q
zirT;b^8pRV|N0WHXF#iGnfzyQAK2H`BRb%I5cmN*Ui^xU{Me8=C%wzi*2EyY8_|L5
zNtb86OP6+DY0Hnmu5go!e=0GZDUS+j=MIPCU|&Z@bl~GO%;g6AECZ<^`}zA%hm^mO
zybv9D9{Td!<??uA)))V8X4x!ZiL8R@oM5+_V`Wa%nP}!aJ3{7Opuu!DUCDbBUC6c-
z)YEzdZT`T0jr|;7775`w1)Ky-$NFR|&De7qBj8x#I>En_3pSHQfFq3Q1nLV|YzoLy
z1<tf8UOqcdoOvG8@N)$?#h8v3NB_IV&j$O!xCdf7dSBV}xaxg>fqFDB9Z`;~$UQtd
zH-W>1>DWBUXh=P>DG~J5eHbt2ipPY=AP?h6P!9>y@g2Q<eViwk8#qKvXQ}6gp2T0L
z0N_YsI$5!bMRfZwPXK4(5MDkHCgwDD%g5(z+a^expG4PPiRsWtWU2_u1S<h26w?_X
z^qrKJ?JWY1E~e8Jd4Rtyc|}QU!H-Yl*f%{cL<c^fP6e*1zoa(Y22S@uw47n*n0=*W
z&8<`KlxJ*yyw7ooO+a+u^PsrL$>#UfL94(C#B^e-=>9xX@DKwI5z&FKEAJhea!Y&|
znF$;tOh?M{wyNXKZO)EaD-VBP(^}O)bl{vB&u`*4m+I`F7TPrIwrNI!2GKbRHZ1@7
z+@iywP0b4a0UQeA{DH48_TF7ozGCt|<?Q+O-1@n-`C>!|?n|8U$cqr!sB#(WdlN^6
zb{TnLI*Zk;+uv-?klB1$F)c}DAXygC*$w4$|J9!PoA>!02u|-aBEQeH(;%*6a9^=W
zl_irmQqziR1GbBkZWHSf>w%r-r<?;4^I6Li-;x$xHs7R0U4LNb2cw{R#ExPDa5NC>
zk%00cnzIZLm8=xsyktG7&|YOIi<yt%0#~Z@{TFFbTnh}(160Zu5bJ^0jh6;q^(m{K
zlyX%q_xrKN=TPS}oKN;e8NM?=NB=o>wVbyTt9?L1tOs^RehgKwEp`}!dMq&=<)qUe
zZ#3;<0QC?s9l}h@2j{6hQlK6R;<^F%#j#C6c6*-dLr@P1(~+S6U?fGCd$LNlS6Q)Z
zAm0+vf%oD6=z}}%c2#@>eF-Bva9<`Y5|5p}UZe$mQC0BHgS$tj=iCn-<OTJRF`c$R
zpU+<I(L<mfBBt{*Mx7z{IJ-K?Ss2lQbFMgW{1HK1aVO|&S{W}NR)V<xbluqm&{r;|
z(`sa>5=Wogpk<M;yWp=X#TC(k``Y+WKzYha&jI?9MRef#^Zh~naZ_E^ub{65CA@r2
z>Sm1Fc(MHi^%P?|I{&DxmtPUDfqJ|!9bZqM8p7&3VK9GW5gj;Zn_3#N<v){lps!U$
zynNo6mmEvx=g0$nRbo2-dIDbm`6@#O^#o!%QZro13Xj!xfO=Fg9k;Lxv&)%L!C*eG
zDxl>9=bXBCWv+`eITzGZkLbYj`9fkA*I*0zyz=A8YQ4Sl!=Z={T+cy$UzgL>`LEPi
zTE0mye(Tdkbl`ddkDpI1yZCPP_7jt>Da9OrnJ}H?*50Pvy^E8eo>qCZoZ)(2ty4sv
zzsdRm@`*xp;Cy~6tCC-iF=m0jj1V2T9<A@}y-s@5Eub$hOoynF*RHj3vvT@q8-e=n
zn0L1vUOt17L&|F}CsezI7Fjjp<)soZ9S#-V{EP>(jy!FO`*;O(4;o=Qvs3K^+P>G8
zd{1&&;#Y<&xiB5kQx}DacW!Eu<rGa_o;MnIAHd6JYqi7K7ZH3`2VbA9N}&xdNWgUd
z9Bv$7oe`SQx0m-BZFPQSgz3DqzH`-0%P_0!xqDdFlfe&Mn9dQGXGz?0kC$)hj>^5V
zZ+7UG#mh&;jqJ6$qAPIYwH{9ZCFEZMrX%@PuDyo*MczLB>w!Xx&Qv2zCxyCicYs%g
z(t30o>3d{lFc+rtwJ@B0_m7|^_Kw5)@70ASy7%Md<Ede&6C6`f1nws!U^@JVH!?`d
zzxRRr07i%oGju%|GMCEYAy?Sv%W{p6QAVu~)q&SBOXvKzDI8C07bkWy-uciJ#)Vi9
z?9}d<P2pt7-3#tZbj#r7+|~Qu*+rXe&N<=n#`w7{^a+?wxH!j_Z6=$D?Q4hineL6M
z7-2epM4df^NAA7dp?>!9pT3q^E=(sjs>f}PDDZi#y&?L6bl|gYX|#Oc*NKV*zP;XA
zU)Ofat;|D*dGI+I(SgUSz*47aXp3~|q0bR@7cAyWiI`65^x|#3A1<AOVRd(BlFpwM
z#&p;zOCkG$8=j}UbJ}P1$Zwh|g_aN87wf2Q(rd$C+p}0Wl;k_~_{f+}Qi^Iuos?PZ
zeyfk$0*H2^L`;Xav*xQ=;+cIjr*CKNCplRQV>*2Hr~inkO5}q3b<}-$`3xJqDlt9Z
z-~jH|kr5sE{*TG4X2z!t*Ht;{SN*BG+dfAjI`DYW=~~7I74gb~`+mBZPVMoRCw%I%
zMi~2V^|YND&0<1y;Qb+K!+6Vi>g!G~!#zSQ3tKjK@5Rfx`(;C~wRfdz;j!R9#BE^=
z37C$kCu6fx`o0hvY1h)7jrAXm5FL2ksQqnx%_44lsw0b*f|^;%lrW+LkJrG56IJhp
z6U}&;y|(;1ch`!#2QMGdbxJ0uY3Qo(mNCcE8u^}NOy@W~L;MvT^>k}%w|tqA8%ab=
zC+ymS?&EsvH%H7>4XzZr?-j;$I%+e!=RMn24qmiQ+H$OFgDQ!ak7n36yV>r?qi0Am
zj$h8XG?Ou%Q@O4N<G%II*=3%D-h&h_BBt{*a`Kh-t8)({wS+VMG`1KDV>;F)&rDj5
zH1j-JHu;-xRP0KXz{@A-_e8c<_V?(6D;bu44+&gkOefhYF0{zvaXEOsfQaeH>GwsS
zRoFxU_xXhpovqNmZunZ}Gxodr?BG7XE20A*r^IcIt$T*lPL?LIG>Gk8AW336Uzp#?
z{iD3~{aG!wE>gp?F)fZaUV6`O?fx2&J#lg&`n_{j5^XM`!v^J3?962TubDc!;P>PL
zo9a+NJ)#5WqjS&ra^1FLwRhS5pK7s6^n@Zh@cF{JK7PK$^xyfkb;<W0Ph7HeF&!sS
zBgwr?vJaDfCKbN={7IS%(Sgs)8RrTY_@g=BJZ)!FWqCg+zbb|{Uhw&1-lpo~PT4y~
zWqrF<sz36Iwjw(4d_I|XM0Wn0fp@Toy-tg#2p?)+@bi9y5k}`P`!fp0ZBaA*sG=Ic
zgqRQf`sq-*2%jxSobp`3-8*`1#*0+MzTkZ9Un~C1Cb{0e-NR<QiC5077}0_2i3>gZ
z>aJH^<za4i?rq|Xo>7?2T*5t`Rx9TCrA2DfzlzoZBBBG&=L=^eZXe_3mMB}jw7f&}
z8=EAi6VYxfaQeX}dWBydy{0brv=>Ct<{?~9QBMJ9dRM)n$nkU|rNXT&m52_U^EU4a
z`43*&-`XC{pV-1o+M0mq!1dfs<h`qw?e$B!D3XipD@3+Lbl`eqBnk5S@Au4u*I{K5
z9r$_L!;Fy((MKxD+Dd~O-*@pkb0IqLa~IZ?J){FY#5Y!%E2Wnh^?GR#9XOxtgk5JU
z<Vut(7WThZ3Cl5S-HkTx@cQf<WPPwVsdbmc5!IY<8AFjML<jEc`?hAb;ot6OPCi(x
z%bZsA3q*9_dVYQvF`m4w=C+VdcAa}d5>i2Q;Cf0#)a4gvecdm5Ow|@&Y@3iobl~|D
zN}l?d`fHvGI5e0JaZJLmpOsVkvz~!NmCor1iU{6#t=nIASJoGE(=n3T^{Rg~iG=Aq
znxF~b-(IB-97{|`O2YQ!ryYmC1BZa=@ctWLUHE8dcj~B}g1LO)24xpsKJ!t`$~)Q3
zPl23Cm`+D$Nnpgu%M-w{#B_S5R}KYUO5y_!0n-^%`KCZseVz|;rU;|u1E1fm?tBRm
zZ+;L9a_&ZS;Nv3r%SQWGyTujIS1zIh?=$DlYZ%^m_e^`S*s1NGe{o|yq64poFRoJi
zdlcjSfD?u3Xr9s9T2XhoGk(tap8nUS$3}<_ypH9+={eReEb$yTT$s)md+&w~PudRd
z=Q#(JBVUVl3!#lWykF(2JF9%ICs7MHm6(o0O4aq7ySpy{hm7gO*%S=ky1H-_I8m6+
zNXix)(Tmll!12O#KI&)x-qL83031t9XKh#3dQaTWl91@zJZn)6W*UeNJb$*cF%er{
zdj0_p4W^^h=fla~O%()Az2Lw9^8sD%{jV?KdUhNrFz*|`bqP43n9he`Hs(y_iX`A@
zAUg2ze#7-dj;G`ORNydSI$U<#4SxR`%z@J_fR+zjPwq7Bj~N~QUf_^09lAe7Kh&1r
z%KVF5yt-26aDs^Fz~i-c{rFgJYC9irgfSf*o{{we$#Ey(P<Nu`1J~32;nI!t3A+ox
zA!9lPhjq?Z*U0(+hluI)Zp(NSpX8?x9AQi+!%M#X*hbk+;86MT@+ntilDBwCOau-Y
z)7jY?f8gH>ks#m@F`YcY&L4KM=i7iIjOlDTw)^ndp*M}dq3*!T$KBJALA&(8==AYz
zLfb4CDP&Bie}8w@;AKS};1DsLlIzN^!(Z5ZQ2X|{ls@{JxiF@4K}vgAEF)x9r(D%8
zbJhPBl@BkUpC!rLe!blu2^=z})6VO%cIV>Aci<2)outrn@8jsk*nuOA=~NyO6v<g}
z69f*GfR|5l-tn__=jpcshm7fLO}?!D(IjpcaEO@ByNy=~->V{efg_CRWGELM=@^hc
z4;(5lUOs(i8@3+M@Vy8eGNvP1wExRd_X`%lA!0hD`fHyYH=G23BaG?DP5T6I;gZr!
z(Q*6MpqQ;p<-yBmP|Ujj!5$i$u<`*G#)&E-8PS3F3B2!YAH@_n-3E>;rgLkm=cUQP
zO`X7z#dOvSqiNN|b)HrSMc3CJ-|W1~jhD~uI@R~45eJ3AeUeH<2fnV1(~BO=pp`iX
zoCHi~Aw;#5H<SOrjw_}^U6UPT8#@#Z>e0Y-jvf`yI<`lDhFfZ~k4dM&h=Az8`zVcU
zBGq}H%1+==w&RW0eaA)mObK>F;E*t#?!8AM#UGaE9+c%a(rM>$x5RX0E$;PlSM_R!
zI+7-<-`a)~5FPmVk~sG1SM^Foe#bpm8kX!fU+Olrd|+os_tQ6L1+qDSlZ)vLylacm
z+Y{;Vu%gLXq08j97or0n7iY_UO8S+hrm2-J8MRDCWa}b2@O^;6?|XY@vScqA2`Lmd
zoSasYMReeKsIB&t?UT<r(_>?)FZ5fDXcxAk<qSKbE#1oXhu+mb_+_@frRHXSF`@(a
zWiiHM?OFG8TJq<g%j;Vn-6A16@cY2{7i!n3eK{r=FRmWlbnDMB8PS2~&*NQc%hnIM
zVglCcO{DzS3|tW%c-*zRFGrNSY-YSC!<fT5(3+`%=)gG(#d?QcTBz0+4ds1IDHv{`
zL3H5zhrODmykfs@H+4iz6Hg6>rmk*58+SOL53+P(n!*`Ri%wqJK6K>TKs}-ZzwUV}
zHFjfBk<)$q@uHlb2g4jph<(BJxTk))Q&vbi+g*O-1#QER`fkK}U`P8_ghJu`v&{Eg
z<pY8>s=6dhC;7n9fDXMIBP1cUo9Fo4{t*!!_;nByA^KDH`);-`Z7$>4$T~V>gy_J1
z{R=X=tmbQe&h;xF#}O7@VFIS(q8J`(&#tq@nyE4DWPD*Ml?!eD!1MVT%e{y1t3Q^5
z>o_u|BQo#m{989@2e^(SVmb}x;)#4-9)4c8gKu78+f*uy>D(#r8b0_TkUP3AoIXK6
z(Td86mk(cUM6BHlu8>2F5s@i@RTMI!1Ft`kJAFAF^V1FjClJ%wB6h{wl%x^>_6bIa
z4m|F1^0L;E)jPe~W}naHog~R~VLDgouN~95qp}m!)6IdGbFJd(?L60OgFrnAn2t-b
z@J->5!V-30brZcxrJ9T|9TA0d-Q=SBixii)be%7~zH%Wt@bP}nWI_164XY41z9{T?
z`J`~n%uKOPZ2}Gn)8W^w_I2`Kq6dy8rnCM~^(Xye4Z%t^u5WX5<yQix^IO6zTaQMB
z-*T#S%ZoEpJ`^^*d|r9B>z>px_z12~NtjN=HK|meI40L0tNZQ0zn&Yi#B^xBa!Y)E
z^!5O72$&A{IA0iz4!1RMD6Dw-46Dk#YrQ+K2OJWnvt+$ja6HCsJ2>7gF&#eMBX+wu
z_`<>QPQY~9dpQ3kTpF?k^-x&w^3jzkf7AW)>3`QB5~gDxb7hkAa$>Q{!`h2E+hPt|
zVme)&L)kkV1t`&5*UKF;Wt0h+4)^lz19rkO_Q_7cd%UMJTPVzU`7lo2-|8?uvUyzj
zqvrOQAY~G!V|wa%deruro4~QebngEeUUS<sx0P*_C9qVjl|Vpr;Oi7x;mbSMeKiad
z`**eYWZ23HBRcT=yhUU<SY>28Rt~3sUa9%e@=+GifzKCmCNc4iYw9DRpGG1-Z9P`L
z%7ivv@bi8j^Y(gncD@Z}^%2udiD#g;B06wAl0Ly7Dz4b+f%8QIq66<YestxgU&%hw
z0~{kvC;rInVAy4De&BFnI$ZV_#1!6p-vH-}?#*a9!+mj)>MFcPjMOqJEl((@<!~n;
zI`H*iVruu>txIhpA<YId>&eDXqYxdqp4}VuYnh)97j;x*H9QOCG1kR&axR~{ap1!r
zA5aeyrlb2gQ|wd6P#LJFl@TxJie84A^xCu|V4aV`biU<~wo2-TnuGI>E~X>CgQ}~k
z9!smLF;K_IIqt)R>8PGNqq3ue>E71-Wl6v1O>(Uac=<3q)qVKxjFVxP$s1Lbr2Ai@
zFrCwxZE<s>{8_-!#dM^YRakQ~nEAbJ=lUHJN&HNh&S+}fmD#`lvytCx6PTA%Aks>Y
zmrsU-XUZdYS<=bFB*&FY?=MFoI`Dk}mf62%4OJs=z_<q@I`F#s;a<XTN7kb?VB9qj
z9r$=JlPK07S6CnLY_4^`zMq>ygXzfb=JS?s6r_N0uct%H8NSYC_c!zxtv``xC;!9#
zlxU6+3DJSiU)x^_@z!dp%tzO*gmd-lJ$FTP;Cjw+eh%a`7;*>mPy^9{$4k5Fy%^Je
zJ0dvmFd;hdc>NLCh_%0Q@e6QTH=*SWJC!~=wI>ZC3&C*_h3LS2?G2MU=9+#Xc8}Vv
z_cU35JB=_MI#d2#fj?a2!1_!;bl|=Yo?%heVck0c)@KSWUOpMUKDyq4)eC*X^9i?U
z9AZhB4rP}_9DzHK3pkdT&YAC>x1atFEd>q%)9Jm#HSF0d9{?N*4PHK1WCA|Feo`t6
z91^CpM6m4*p`qUf97{~6Btn8o>aG1|;1DpKsY&G^me2N;z@hxx_&)*tuLtv>KY-_9
z$`VWTqb=__fJ4G`%#Pj95p8Wa1sqFEr^MLwp<H+9ec%u<oiH(r#rP{Z&A_2-;N>H7
zVn>G&o53dFkT4w%UWHbBtKYQ1vBY%v-Ku>`+$xKJL%?(tn*>5je&1^Y4&^UiKG{is
zzU|=+egPa3rjr{qc~)HGSUPYlF`dsW29hUNp3MS>fay3Ll8NOx=Ohjs${)OZE}IHP
zb(v(Y-Q2Xz;-<%e+ayfqu-TrM29pa5z_G-1gytexT|-S2fJ4A^RMhC_p3=~?0EhA$
zFCTB}%Y#D1UtGW;VLDS>v#(aV*b0DSiRqN61*B(h`lSgR0;Xg3#Bhvl%<LI(DC>Cn
z6tH~zN5`m`3mg)rqtZCBq{=_`8#tDj&bz8a&FEJWp}W_kcfR4)xkkWr5;kixXvA-p
zosqa>^01wald^`E54?XalKiLfLGd8#;|?P(`}Z6Pxrh$DKTHt4*`8GyTot(Qt^Qgc
z(}EYG1J|=vrh>)$>Xi#GYFFh}E_<45AUbe8+$_d_y^?<>)D}>ljDIaU!i4EK^z3_V
zsFNGuxg)2f-^}7^_bOV>@IIl$>COD)(Rcozqqm%@+Su2Ufa%o9(RXvozxF=<t|j<P
ztP05p(SdU=Ideoi+@+hQ!f&GeW$yG7VMGV+tJbOE9ixufVYP&Mvo~}nEUCZH@`10H
zFY0sh_d4=R`D-7g81(l@bt5|P^9eWe#CRj?tiSC}*-LvNfNhR|*cW^~xbwxQZI7k5
zdw)$X$>+Q6UbBE$51fxZ&HK(YJKt@^))L%#3bri8hz>lTWjg#cyY*wmZ%#LunewNu
z1R^?cJ&Va_UeI10(2b!rH*fkt%~wHm;PGlRHfg`V#phwHfOKY;MfXQZL<jDR{Z><H
zL)_gUupTa~pv@on{ybNm|DIxz7DKQet|B^cKD)9Kd%`Wmbh&>{Gu6L+kX(uBOi~vQ
zy?%dv1gxupn2rElgTlUv@-VQjs$e<}kBS#vG}G>eyZ_ozZ>&aK{fU+{JYIgqc{9%s
z1(<Ym>&R!04y)E9I`Huo(Ct!hw@bd)r-6U)&d@A@gy_KkPJ9=;n(Vk1!$U5)O-vzw
zeq9Mfbl`D+I<{^>k+f6?_ghpjopbFUm<5ihFJ1~xv;CI0!*6vNEoZo%pQ#RO#>7A;
zbDuv7XCC@FRU$g@I^WQp{)*(tzzCkFjY4$b@!DZOxAdK_eFZ$1Ld0}bPn%_YD-db{
z^{8MvMtxeJEQx2|0*4FJ5nWM`8??#J27OKcKpQVOpEpTy{Kf&v6!3g+J)#4TdufH?
zTH&u@Mc{;DI{Z6SYQ7G|`~!{#rjuM=wY+#N{xfiBFrDknG26?l&DDWZzl4@EoDXyC
zwO^9X{M^6^#dHFX{w$bjfA?QU1JfDT=Fb0CK;#1T&|o?tGEoAJ?`@9(r+yJHA1(*e
zo8dJ*3&07*bSmNq;kxA|{~dP?OlSMabvD+FY*SDV4W{G!*;L3Qc>XSM>KE|xneOVe
z_)r-)0h~}w$82hh=aORMb>L`VI__-)g(Y?D+kiuZ>0J0b%hmeS`Vw&J=kfA+yy)l?
zG^IraPAI0+GBhtj6LEPFI2xFa#T}7j9AY2u1BV9F@su1;%{g~H066vE@$#v$y}ZuC
z7_J1IP)w)YuE6WMz)mONXka=PqNh~}cjwE1Lxbs5uGvPP?wip9PW>ESJ|9K;YBW?2
zD*z`H)5)%*a|+Eb{sJ5gOh+oDKw@d!u^2csn9jPGl=~sU3t7OapT*0^j!JnFnwG%~
zoKQ?BPs^aEIbd%va5OL-W;Oq=$J)H7!Sfq5n9i0DnH+ghm&(EO8};At@(KOAHt0UZ
z>pLD&c=NgV`<tPd&Z9F=4ci5uzXh)|YG69e6!LzO&>unYIwK9HbAOoQvjOA(JXpZ7
zROJ%P*j7J-mJhtojMIBDIpfYC=l|5Tb9DE*HVM&z_ffQq@^1GPiT{9OiRsi{C}w0b
zwf_Pf0;XfM>ThTBz^@57l&@&{z<o_V|9Xw06mbzaBuuB!pi68ePW%>dEHNF`mrqVV
zi@o3p90I0uU$gDXBmaR;#bGwlZKrs6DAQ>9z}N50i*8Rm*P8z8kTD&avqL<tySEL4
zdR#G`V1}b<7v7{514kCqS-tl`*Fo_Y2{@}$c=^2Eam-}r?SfX|)MGkpzb97%Y<8vq
zCkoS{%M%NKYu(HH<12T`(&{aKBSZ&2E~-e$U!PsAUFH9I{Nf#P_H$f_4m^K8|8=Gt
zqb?UR%%~12*Dje;zM$m{*K^C-q0+G+@dj{6n2x&g#D&dF(Ny4AVmf90UE#;eADsdY
z0n>3hVR4_2zcm*)l+Sqi^xQvCvGOWB0yrd0hkALACb*9MEO0C_osGtQv}E?!p5-Fj
z+-#DSI04g{V(gZc=H$Hw9LgkKKBEcVPE2tO&cGpII<sEB=9y~lhk#>=>B#dd@AeN*
zniOM_|4@3ZN1A}?xb+)WI!xW&1suu*UOrWV+DAiv?#=-Y3DY_I*HHO^T6-dJEHRy6
z%MWR^Zg-Y|L%?(duE@q}6~s9Mhcb?r&(CQ7jUDUe`+-Bkbn-G%mxF4qdjrQ3(;)_A
z{3Y==9{>&k(-Hr9ap{G8S{!gFV|e)-Z0|~%O>@--4hhp4`m&_i$KZbyIF^{sGIJT>
z;G4g5z#(8d-~T;J(@y{S1vnHcUOtD8$0gn_=sO11RT8E%x$S(ln3bLza4a#M^U*#E
zncR2#fkVJ_M8BjIRpxz{0}kaAUOumAFQyz3ZfgJz3DdFr;65zz>A`W}SYkTIc;?J~
z?Bbe%L%?(tHvbyEo^&&VM@Pvi&^B<GGK!bat(cJTVZr;nz#(Be>F-@$4*5&l0LK#3
zF;80lI;fMH1RMgUb6DF+@y&B*UEokg@bbCAW|6<3I+F<;5~icvbclalg47QjOH4=o
z9#w+U_KOM}0;Y5IOHAgql5u;m-=GZR<@0coZG|>zqYyYGOs6H{bm&$=X+GdsVmcjf
zOwFDg(op~o0n@p~d*d?CW!^aLyZUS)5w84{A-sI@gI>(t+<$0Np{3`^J2B=nBuwYU
z6Q;$tp)8J|9!pH;%n3I4xg>{5P!9pqIs4?Kq~ZAc3!om#AYMLg?4AUL(n&^84++z8
z7D!jsQw*~MjwPluJ~|pO`t4wvwOA)t>bAih1VjhEK0O}mH<EW`pMLEo8)ZV7pFDK{
zEg#s~nkQu7sIm1r$T=6$fv<D3!-%5vha~1eU#^G_Tu*J2_$$wsz04qISwsh}=Yi)6
z`+AAncaYBl1uvf|2?HChSyf5US0$#ClH*LX%lH-#a6&O1xj9XikD9ghARk>s2hQh}
z&21Y=fBPLIzgMZcJq90`FdaodN89}e4zFyn+7M$es!4C{N6Q(0zQya|*``aa<*Z=5
zauFSP{#@`DYYmU=-UV{@!gRKTN;25#P!&PWDu@o8b7h9n_pwJZcR)R>AJOuG`zkBC
zHQ#iw+yXqeQ;+Dt^@zD07TkKTrv<!EMJT4jw?GvX*K|(@js~XFZ-3}f3gr#~yx#>4
zreiOq^hbK^jU;gD`_OWR^GToeWez;=m}FhU_Q*0>dvhqF13!=S-gPN*=fmw>z%jyf
zE-96~cwTa5*=w_kK%FvgvoN9q_a)@j6?op+@g#7lAMo;7O6@(<aNyl<;E*w$q+`yH
z_x8DY1BZy|$T^;*BVKj80vusX=O=w7=S1-!H*l!Ec=>oU?<N<t?@D1!w9+42Hk~75
zI^Sr6ee+#^90Cpz(;4)2(D~;kqz@cnOy|1C_R8##dR^d9-{a-8?vdjZIOO>pIAlyG
zGWZr-^oEcFaEO?W&(E%}I`piwz!AoDc5Qm|*7R(tG;pXrc==@RR-oA0n5_ecjOmEH
z`x}^TSoff1_x98=={O@IrgPuw%xSIz{G8xEk}#(8O)$JMcVA8raH!pQ`J^=ZDblPD
zu>psS>8x<KSG_XP>;(=H(=q$hxh1_ntO7W~n2yO|o86p751s*s+J%>o+3UCL)WY$7
zz#(Hga$?ChGUvk9z<nelrX!F!^3itLxCJ=Em`<qbt^+Pwq5Qz1cH-sJbJ@B?z13A5
zIAl!6!EV%9Tw!x2aEO@BRw;(DG`_>Pfg_CR)DZQ=O{xUQz@c{F<-?b*dCIJ1sPB5V
z6S-;E{_SK;$8>orIqbxRY~T<v9lgkQ({o>{l7J(O=~&+Q_lfuF_PxNNzQfDs-u%<x
zJ93d4z#(Hgx`N(%?e*X5fkVV}_FLsWE4-WQ3LIffM<(gf+Ycr2#Z)b7MZ=@5%hb1M
z`M~?$Bf6HqJLvB!f#=nW5gqvXAH_ZM+vtZjoY{YKOBZL-wnQO1@V@tnsJ}bwI)5v0
zbTOSh=7V=aB+DPu*CyonIsEQm!gSiVwf9ksTo?^fevgb^J6P1(j+QgrSI(IW#(T&3
z@`B^F4^s^)XreG3zYOkQVfU=sfTN4)v}rcKtu!-e01gwT)9z<<bMafVU$Al4{avnq
zGg{m5@)=Roczbs!iVM^eh3ULp9ViY+^pjC}DcEN=>fNb}>Fn*Qj_gby-U9BcGhsSn
zl4~=@Psdt;)7pxcPsI0gj~X3MM*}Ac(^>tI{gW#2C<i#Ym=0g_<bsb*;9hWFoe9(N
z<G&=og~yc<IIS&s`IP(B+bEBxJqJz{rlX$n$~^M$+yZcPF`W|mD>j?QKM}>tc(^#M
zH`y{_I-Fzk^d_laoPpE&1}`5!m6^Ls4&BFq6NTv{XQk$UkC%7>99>MOOfT8@(xIbz
zQ3_YqLw`?)GhsSXgBu1xe3TI2v^L}A^VKnSJLz!!Mc_nXI-ksHXz7&L?g2*^(|I+@
z#QpmFr!YH?goe%g((f~2Iwnd#^6HLz9|ulr6J9>1?1^%Hjy)d0iNbWuCu#Xxe_5#j
zM;FtPwQ(}kczXPAbfvH13QG+K6Q;u=6gzZVy`2s?t*`O&F%WjM;3T(p0VfL6`9Wk|
z(tO!Q4;)=gXN-Rfm+zv01#p-!oyXIRwBD-X;=pNb#LFjdPprCX&&U_xL}5Bl7R?MU
zv%j_hjxMI7r@+e`TBv3Z941WXsHA@2;(6nT;CcSm2E2Su&U{}ozd;`cp68Fkbj~)M
zY13oB+70T_#dL~GPd4?hIh%ocm@u7)yhHRd5uXM?J+1Y4`BY{J(!b<6UJmMs!gSoY
z4)dK~dJtObRhyRIVsS+m)0qp2q+H_spI`d+ABPFk2{*SRS!7JSYs@`cQ;>J%Rcjqy
zK6>dc9A);VnTCzie}qOHL!vO9+3P}T34T8|D}Aa6bTV)}rHkmmuYU<xT(_SbbQ1>-
z7or1SH*I|0>-KY6<rHwbU*Y9*s#!F+;5f_vunP>m%OMZ9C15&c0+i#!(lhJ8F~W3?
zKe$n+5H!#X94<r$&RL|~jqice%Q)arYSHq6ofgkKXBe5UwE>5W=)mK3;k!f8_jB=w
zfI~!d;CdqRD<fUl1?YhziRi%foMRYHv{RSa0i5X?ynKE=eqwhuQ#T4Y#hA{_73t2_
zhEKPF6Nu?t+Pp6<RQHJ!a5ONT!ZA^|tF0ne!MeeO=)m`p0^CmR-jwzrNtC%tV|*c5
zol=dKGdx~%_hfE5pIqOY#d`Z7m-E^S5~kCi{CA%j-Hja6icM|TPTT8P;yRt5ED7g4
zJi+=yKy<c2@6X6~gP&r0Hl6^+%N5aq->03%yfNb4$m861duP04Yt_yLB0BJRU1+|1
zhTA>pzrROA7tw*o%OdGnQ6TNAEO^d=3DYs<R!ll@McffMtyOsQ$9Y_S6XSI6>--}}
zU5#bg2cs|@*}{_yj{`Nod$=`JE7u#l>S8)Wt+X74-PXEoA@qEi+gwYTFrA}Yz2mpH
z+L~`$?a6W+Tzb{|5-%TxIj<6>uYXjJKMGV$s9T{#VLCdZMUJ-^HtN8>P8ZYZ{roP-
zBd2{A*w-;(IyV;yPFv&yT|qsqm3aA38oM|jHPfC3^+aJh#wtFO+ru}mct?Z^7rDLt
ztBdKZPv@{dNme(?%HMCVwRpat3Db#LcIY2Ev@I4mtrd9rJUP<InKIk5+o6rU*@2#a
zI115$&+kiVw9US<?(aZ7Mu-l)j#&?FRTY2xx$)D|lN=?R+9+W}2VTeO%+gaQ1YNfS
zhgy!84`b&mZE5=tsTWEf_NQpMD3CFop@gar?YGksfJ4M|tiG%5HK=|1{OaNOWyiZs
zlERqIre<wfO|6%0AqGZzg8|`M)E9X9xS14=o##ES1{^Y`)3&uq^GlP<5+iMeh<MA}
z-$YF3;sASJqTd-p{w!zF`K9O`!kA9!e3*=(i{pLZP|NW0@wg&oKUSjc;kVs-Pk`?E
zax$iKlyhZ<%+305)>n}<Zhv@zi0L>UJ#cNmT&lWrx6E^eV0klPOvk2Y)S=pdW%7g4
zT-F-HeJN@wUOrvMPnTv#>5~5Nh#H+Dj(d?YoxO9Vlo<DdE74QQubdtAhlz*|ypCn~
zXLe7eyx9TPLrFvj{=KFC951OC=8Q@N&Cb(J_c`z9LUiEga$QtN+4Iv9r<yzHECRdS
z$P3T$a%MC-)MlCM%Wx}Pvqd4%_<Av-1HUe8r&Bna=NWz<tn*Qb4xF=x;qT}77&7O<
z`fP;gz~_q)7MlUCj6n{tt_mYM@cF__Sk=z4>Qx(9SE(g<IWOOOA^0+b|I&ZgLrkZ;
z!;Iu5qnrKT^$^j4=g-7x1}{_X=2JCB#p!KhEDain4m@7`^L9_&dneMtddP(6z&S6^
zg#4cOYupaj!`5Q7oZ-H%sd*hsH1EFy*27#xhaI|(vlIB3&*<p%HtU$$nc>$H&rs`u
z=b=Wg&B@^cD{hGozINhcXPQWe^}soAa?j9|Y5rpi)@LH31Ltfm*7-Y@S8Dpt{Kbn8
zQ`l&QF&*QHDhAGs+F!t-7NLz7To2vasI+zA9e&`DF`aw4r}U!#CUgRai0P!sn|f*7
z(vJX+Fs5_uz$y9E@#O{JPz&+$(fIAvz9DnwA8^Q+&RXx|s9!VYn!q7qI;(qJr+(Fl
zIs!)+)7e_Jz+7mz)Ce5vGrWAZx%{au{UYoR95SXu=;zcJZa2*b4iVEi|5NsQ&+o+<
z;0R+nKdIVz+A+Lxz@Zl4<zp&Mml@T@tq~#TFCoS!K1;@QG#l(kQhZ%bJuZx$dh)@x
zi-_r{XZHy@9Y1OxpLb&WJ*9$I!kA8%durezudS`Xq2}Y|V`o7hYZ+2}95`f5C-&o|
zYuo7>%z#70bo6UH`x0{=5U2t(D<bJz=!G$ztSGDKr#aDP?00A0^L{7UQS;F9fzLZu
zd(<7x4V^{XzZls1^&gGMMReeG{+40+A5*`sNZ`0)I%%s%MSU4FM1UiS=)mXYtpN)8
zymyZ5&*(FKT2=hcWA!OoK5$>VJefH8R^R?peK*iyL-9CPiRt7y4HUe|92@{nAff~B
z!)yBG6F$W86^qbIv04ntJ~Tpf;CzN`pA}sF=x<@{a%!hu5Y<)~(Sh^%B*M3Y*}(A#
zaHzR>Ip^Hqj`>w?6AT<Orqf|@BJ)hI*Xt>_Gu!4$uS*j#9gqKc^yk;_%^$XACMmYH
zUhWabbpCm?J}6V6-*IVD{Dhg|_k8LTynOPu=I)#9`7NvPSkU2B4CMhC(SeWm@v(vr
z5wup0Umh5Klh0G;cExl`XYZ!Sd^_g})*o3!2cAFCY_*l2+Hd$5_VrBYT&pZy$id4;
zPC2^i7&Fh_C%KD^aYCG*ixD08xaj2G|LCYe_bga{LJ=MKKETrSkCy8fdfsj=Q*oVL
z{G{QE=)m<@B`s_1_8sAAvWf1Ek6VgUL3H5jrd}Fa{pHse&K1q7-E)25VnaZ5;NOF=
z_e@00WYo&%%_ZON&ZS!U2_ri2xF0><Ib8RR@7JB#wBgMimyS{&qm4T}pP!0fc-zTV
zxdztxTto+6SFef1DIS?fSk#_Lsfg3Ld?^&u;ZmQpQEI-w7OPV7SWRm8H%m-s!Rv5^
z-*5drX{;Pqeb@w9WDy-W=iq_*x*GlV{i!~35n^ZF6fb0><qSJ5k>MT8y4`oc`KuVw
zf#>s}7%k^J?_(R_{1uAmz~hxI;T|iL@BZu^Z-{u|#MCuQL<jE6*<MO6u7X&?*K$YS
z^;-NX0-^)g!!3Q+JXU*-7o5Kq9--w7uN$kJvBJ%cdnlscc>dAeO3|YrI`DDPG<KMv
zo&TiGJXWQ4Q)`qd8PS3J65jgrb(iAL6{|t=CwfH&%Rod2&Uv3j;?8|sT-R^;e%N+H
znEs~<rt|S<@FPOW=bIxlqg8(=mkL%NqU8*)hg>H+j(CT;l<V`Hpw+XE%Az1Ta6VC`
zIYCij?G6O8LT^XgVf|u62Oh6{jwKP#YY|fIqGKD;wFQZRhz^|dxgQ~kNik8jdk@b>
zEc&g!Q^9mhA{Gn_C);@aj|6ReJ{1wMnuV4#T#w^J7TRp<F`uF@27k_m>?o>4bl{v>
z&em(xhvy~%Cjryhm;KOqBQMYZIIft^Tq*mv@PGDFz|p{TwljC7YoyI`1BZa=q`$3P
z;E(p4Fh3RS;WoCje}RlQUcZwW<okABmH|#NrnB*Ihh&78$SdG@VLG?IG&Ekhc)EAY
zQCcW`qWrZiq643Is+A57M<yD_0fz?Di5w{Tt!lb@0yy27XgS06D7Nnw<N3$*9XMo6
zXC~45NTivZ{VDby-2$Sqn-`)3AE&oZRyqvIhdl$1ET+Tu(Iml%lkq!n79ODG1J}c6
zq!s6}+kQ+*_l{kf)DNp-Os7gJKjycyk~VO>FrCXH%+uXgdo+O~i|MG%W<4!A(IO0-
zg$%rW>V;3=H9bb50;d?$G1W7?Zh9l>1DlPUB>U5s3SOAba73m4*K5Axq7TcR+<P0m
zWf2|tJg6m6xqUd{YbaO`SJUzGN%z=i`?NKo4LFsUPP>q2*`cdE$AJ@w>Fm5^&ikP0
zQV?)dFrC`K?#dAAr4rz*-p9-5NauCZ*TS+*b{$_U##GO)S7JJCc@CzjR(+>{6Nu?t
zsi;uYpBHBZjtZuuV&sq;%%Gh`&onamr8nc~>OH)C{)8EftKHbb^mK)Lmwkb-W+kRm
z^w-sVJDuX=jO_OZU(3nV1!6jJ_d17WD(2>aqk`!itggR%Y<$rTIIC%R`S7y!Qw&X>
zjR2<-(_!=H*2`F$e*v68Oot)9{YTRM`Qle%9J6lToZ2dwPBYKhbJIyXL%}>;C86a5
zuVdMII~}rA{#t=~SdZwy=fSHdHGOOzn(bP&5uI!F{mUPU=)l)If!sa2>YnVQkqpZl
zl$qjqN<?(veamXE%@Lhzsp8<ckVSOheAG{Pf3;c>;R55nnu?Y)oX=+a%Rg*~vfI2W
zxa(DK{*kIgbl~fYXKvd4k$3jgZm9~Mb`9cON<ehroK=DjmwpNhy0%d}B&a-GzQYUC
zVT@^fkP;zEBOCUtoyq;Hl@X!?=lt<g)<7A>mf^WWvYEgkMP~w{!vQ@np;Ys>TC2_Q
zecSNr@YSs2F&c;te1C)KY>Ps2>Sia=KNo&Bl$mNtB06kPJ<caP&z~57b6Zh-(3)X$
zbq8ua@VK{=?(xhXDQ(Ff4mo+!BH}q}KCojdYVPTBVTW4KjPBRzP1PL>DQNSV3F=GP
zLc=g_^qkaucFn}y#Y5@Shz@+5ibkG|NKoB7ag?v~#MFEYPbH!Q=ltqmY4ycRQ3_d~
z%zPQdx$ku&I&eLGpRF(6@sjxr)@L%J1J6U-*KtQg3|(H93vV@Ue&)Eh714p$jjCtO
z15fE5j(~rs5QXV*Zu^r%tzKZhs+y)2WypO*7t`_N{vhD=?fwn$+&dGdW6JYDAoG6y
zL-5>t>s_>Y2<J2UK*5ytV|5CsCkoRU*kohuVdGp2>e0n?n8T}Yi{`XfwQvwV1f6`d
z%7p1C-3pVmZ7J(nc;xh>r?me|Ycg6s@NtnUbV@lU+Jk64{@6I^>XHc+(SdV5C$K1_
zy@ev;*2mYZPHHETF&%G987n{X4=FI8iI~m}>-|bko3r|XBaG?zok<?GwJH%i!lfMk
zT=&UwY7$z`a6aM=>6>~Ao)s4zbR1~%IMGSQbn0@}FXlY@Tnii`rnB<K@w7wl9|6mz
z8)@v;m;MN2I;;He*mb1sb^?cb2QMGFn|+RFT@U{T4jI$2zw^e_#9Ct)aEO>ry%tN#
z^83MF;0R+nfywlhRrz0-fkREi%O_Ox_lf)iBWA!MV>%vrdEHawj%MHxF&*+koLYd<
z6CvOTV>$sJPu_by)qMgu)C9bIj!Qi6Q8sv%4jeM36GD^P-0!YF1RNr!liK}SsM9U<
z4se7qow)6+d=EJs+<`;Ajh7D_6X!6UUyL_+e*iM3!^3JqyQ2B~C~%0FPLs9Yo-?;Y
zj{`>-)4Bg_(tue*dlER*c)WaEtQb>P3QUTx>pKn5i-d=hF&*|(%S^A2KHLW!BBn!I
zSNKc)+vDfJ5yo_e`zpg@7LrZ^hZ={M56j=&c*hx|moul&?=60}N=wFc_Wjb1T^W66
z)R)3znxFPThluHDyFX(II`}>1hsWxW7ORAfFs8HV56z5d!s{KI3N}<1U!A9=-onc#
zVm-<^qtN_L8z21&P4~<jGNxmfzSnug?D_<7h?q`n#W+#Se<W(1|G~}&W3h_Dm=0CG
zYM<hfINA`O!(}pKI~b|4c=<4f+Kz;IKWuLx?%3^g!nBf%=@>VZ-j-7Ot_&O^rXyz|
zNUI>i5h+=lwsUZ1!9y6+Il*ofdC)$&$eZ=DDL=!)5;X=dpMhxGU6<xBN1i;#mqxao
z_(n!_;QKa@U78=Hx3e4s``%DQ2i~tLrW9M;XXH8q91Tn-ZzOe5#o4wQI5e0}N4DIY
zO_AFYaO$J+au(fuO2;+!EiG_DF&*v=6Q}5>`l~zRhJTdBzmd|wbRI`C2_*Goq)cr$
zpLN*jEKP&yP{vwjeAK#s@YIw@KMyz_RUd_yk8E9uel+t=D+1$%Pw}C}6``1p=^?X2
z!GYgH-~W0Lk@uTat%2#(IVY?sS(*gL2J7whB+B*CU^=^Y_a=5O8&2%8vx(4?@?EOG
ziI)#G?acYtwx3Ib-dxGLvUjI;D5f)U(7$T`tbyR<S5e!;2F1b}hz@*Tv|ON4@1TI@
zxA;f1^Jl-&g)<>K@bSL#`ie`;l}@&<_a=r0jms}vBk}Ta49R$yQ(Lr~_|7MSe_7#f
z6ruz7<?m!2Ds8N-@-$jnOgShl#R$=X`}!1R<SesL%lv7c#;$ex%qcERXLWd)cw^e=
z&oG08kJ4&~S9b(nKEt-2w{3V$%Y>>tZ@s297EZu)42wNJTa^~;IMBa6WPQA0ixH;7
z>z16OxRD+la5JSqfbVQB7pBAgc1b5+XrDG&us8eO)Ajw`H_-Bd$NfdJ{<_@ubw*q5
zaPjqsqh2IL2Ojr7&CH~vvCCctDV47THXBP@VmiqwiyPw>J3r@b5?P(!-D^p}bVhlu
z6=bbFAlPLJ1%A6TT0#j&%Lndj%hrE#J6rDO26*V*%lUOYfrRM5IqN9R(H)qu@wZk?
zT^cHxZY3f*a6RXI^I5l*Th~steAl{o?*&m9(>duWDBm@!`xoqgs9|{dY<;Z#A-*GL
zD&*wtPRen*FJw$7b5rQ<(eH^Z`-k_fIoahz5fL3Y=c|3>!IY%JnD?&+?|v)`+b@ae
zz&U5dCKHZjF(_Ub2sl1&u(xRXI$l0+cKS~E=*R7NA#CZk>#n0>E~dl!tAyL-THG5x
z=d51xw{b03Oy{O1v*Yi$L^mUc@K$<ePJKy42hRCgCu>TKpd<BS9$l7=<C^k9C|*9N
z1q^14i{J11zL>+4Es!2ljOo-k82^5B=g5`1QQ0|}ZSmt?n9iCb$48FeTHX3Z>@jLD
zKbFa2IvVepOtqQh|13WY@5{a&JF{>NEgv}Np5V5Lz|=Jvb?MWrLif|MDiIxcJ}X`q
zO?fM$$G5r>C{XsY^IagK1J~0MxQn8n#@8GAqld`6E##gCq660>SUUCFE@fbOy)V2a
zP(h7CgXuJ8of$|;>DV@=DdV|r6RcYwf|fH}&vdE9!n6A|J)@kd<w1VZ7NLj^oDa+X
z8P&r|?5tPUi+?iK6Et)Y9k`ysAbwMG?P#vlkbn)k9in@fFdc%6Y$Y4xv%Ju{_={?v
z>S<fAqU8g>4*S08i<e?vN%93zB}#kt=sgmm1NXJcm!(h^l*}{c8%x)^!p>uf>5Nv4
zv`Q0)YYN{9vqaZ-GZGLTc)XM~$Of14&Z;ia{*Guid`+QVLCXj3>)TpK=^4&6F3uWr
z!LJUD0c1?a*8Um0hQzzfou}wR#h={ICL%g;U)QS$&I4jXdZBEt8ClgQM<fv)xG!Uc
zFO?59qQi<O?OM8`3__-Z@$y+4-y_?l^(5)O?srwK$g*3xn9g|hn(Pm&L!8E2#ARBE
zA?dD|&e>`j%HwB!H}B07CBA80oR&m%;GE^8zMt6RKkrEzik&A&vo$YV#>>ZypVs8l
zEthpA^(vbAeKj|WF`d5+`*g@Mq!YuT2kc)c-uLptbgqstlpiTp{p1<*gv?Jj<s*ye
z!1;W-V(s-~;2?AV4b6j1>!<Fm2I1uscz~OUg*V2f%qgf*c5z0!64MC_QGVv`wcE<%
zPGV(`;4b|@OlMcGvHT?aVkhyfDgRpyv1clnPQg3*W%AMagT5oD1i7}VNUsK><pbv&
z-oGLGv&w%w`~b@|sapSAJ)#32@7zas3K<lAyr^@DO?G7<d@&T$*;J**<EJcn_hxd%
zRUhS(1Px4wgW)7&*Q!5{&)xoaY1?g^X)qnPTL&XNz6s2%WxBc32+W$-U&71T>Sl9x
z`93A{=GxMR!0xBZQHTzlbJ(xFyKe6@IX|*C`D%-j;F>O`Q?j&PH+?lxfhni=$E&bw
zmzgjf#jgp?``7~QG6SV!3*wTeS_AO%v27g`H4RW*yX-Ig;p-MofdoVc&POuW?(#Ta
z^)UUn<g#4>A83p)9rL=z#7mYXqE#<$L^zGLU*JM?;N#1VcK(u{@|VkF@u52<hW7eW
z{L%7(`;yrj^<=YD&#8rz4k|iqIyxjwN2!Ei*|hLyw@N}uppW$R3zmou+?T*bjlltL
zu03Cw8lom2Zafx7bl|=|e|0|g!ZO;jcT6Pcx0n_O)ekQpeN(f<FIf?vG&eu}`S$$O
zJu;#L_mypR^flkSOsLMDgk^#9q|L5~4&0a6zfYrk<xf{;4+if0+JAYEB&O5oo55pR
zUfs#GSR+xHEm=72i<S@E*UOtH1iV-2u0506M^_ZR<##cn1NWs9Xf;&(!~SO4$;7;n
zzjsx<Fdfx}lyioSWpUFQzX+iQiv(Fr=S7(Z#cZR@`Dv$w!H&@THVZyz`M`Zip3yqe
ze(=$`^GjDQ=|tX_D@JtSoLxVaow;?f?!^Ixt}qX+#chFz4qT6jmLKW7du{hkI{&Di
zAJ6`&U^=PE`)@TZ#h=PxdLU)<y{LZG8!w+-M?|M5O6Ec*(swrsa$3w(Vmig)S`*GY
z4sS$j?bgecrO66Jbl{vTwf7a%M^7<w-d8?c)Oeksf#|?F3kKa&?@x^1Vd41t!82v!
zNE%G%c;M+SU#4NDs*D|W(oc;i>b>xC&g=ecB_^1s5Vf$Gb*oT)YAB)u=d-Ep4G*Dw
z)$^yqK%vlimIu0s4xCSdfP0Qq>W{~dGTS#t&{^~{VLGHoYw3InCTf0C&oAytrT%U8
zM9T;6%V4%3FDaR&)uLbRyo=qr(gZ{Y?#ngfsOOhq`Wq{)HLR!lXIPCeovRIvtYqt^
zVD8JM+IKD(4su~S-;VX_$60&c6w@J&ygFo=)$M_o&%O_TbauW7mjBFI_i{1EevO3a
z!1**R*txsPKF~Yse_M#|ym_M~rgKl~x!lT<q5bDW^E7UCwy6X}2OjrD|FJz?FHfoL
z(rP^P!$i@WdJ!!jxUc=&B{DYNR)4aNZ9KwN=^sJHbPij0F&yd+EPSb%nB*5m5hP+d
z3NhLIb&c9;qgqSnhiDD-gb^J$AI{Noh58O-m1R2y+Fg+`<<l4N@<|aAjX&UPYAOA!
zx8;}vM|>`(Q~Tm=o#+exHTg@-Qrjtu6|R`h#_2@v&41sU32J<dN@F5)NMbs9&ukRC
z&%G+oNX?WpRTz9U?T(fYob$J)8n47({wjng)_<0I{3nYM9e5tbMx`I=`Mc=$SSZ=U
zDXjCo7pCL<S$8;|qb{vO)WvO1^0TWfq67Eks*$Nau2zz<OK|@)>-m)KRX4PJ;JzgG
z?lzn#`BJjg@$Q*5Ss$%ROvmfZ*7-dN&)$$TTEF-Vxg8Efbl|>3v#pFOhuMtZ&z6;m
zCA=KbKy=`~dg#To@=YJ7X&BB6oc3ezronXX_+>LRQq_(z@J0Cf)n0#Ge;zGoxG#&D
z!Jxbr!<QEmd)4{rlTSq<I&fbS9@;c7ssg)Z8LvNyA1E8s#dIw83h_D#^uHQ!aQiEt
zn)8tf(}~=Fq*J2veZcU_rGlw+2B}t8ynL!`d+uC!x)Ai}<Y8{A58K%UL<i1C=C;#M
zucEa*tpENs$>lj)7-2d^;;J;!Vq!l`LORs%s>B@ULUiD9Z<P<W_$wAJ*;0RXPuiDL
zhbS&+`M`bI#U&cP=9p4yeC;(^kR`28!gPKHC~naaGMiOcrsaBX^q1KZ(SiHA`YA@W
z<?p?-3h(<r1^H~bER5*DechyY=U~5huV%!<yS&71;3m}>FCQh1?*}PwR+u@76FLf)
zU1rIM4%}Dpq}mtFy<N{FXPrtDEXT!M5goWMAv$mIDDUN3*4`UWBubS{B{3amy<`zB
zh55<r;YRm+x4!x_?Sz&O+}9m3nsV7bff_cK&gZI+So@0+9k{PyS=r$5O+`P9tb{sh
zXdPI+Fr5Ig&zmphKb9J{jLX})*ELHP(SiGtPj%*>Kj$ej`{l(s#>M^<tBz>-z<s%Q
z(9ZgOooAZNTe-4e!L(k9>15Z+Ub+`FFx9QZU*g@APYFbH;J&UbXZ;D`7N04}5|fFM
z9JJ6tbl|?^qGRgp8SFZY@=8uitccOmU^?{LT(r-u3M{8)%Or2>CB3hAK+75KtI}gM
zxqeAB`;($^x1}jfaTKBh_jSUxk(<VN(_St%%c_brvXd^RbJyrvt)MBnYMeYkq`uAP
zXF_z~zM{6Bf5CUXTZScSq}Y6J_D8opT0U@JF+|=Mck4}W{gRcqLh83VoPg;tCf>W!
zq}Z4KJy7b@rHiHmMu-mF7pp3XDWYP_#@O)Y)#9Q=GXkOm_jUcrK24`X96=$3RJ)DZ
z;tP~>c=_BQEzH~(J=<Ov=%K#D@KhNI(}^!%R}Eg2;me{4`|>`dTGbNKf%Bnj&tE!b
z7;L8<J$&TLkwce+5gj<6UnZ;8Lk&(!`{~Pfi!u(aQ;B%_{1p+Xxe#l{(05tAYp1rx
z3K`LX`+CALs@G(4!M0g(MyE8#yxtYjf%`JwG&5`+@Xlg3?$d9n3@&v^Oo!1zu0~Wo
z<O<KWe3PROhr_1r(DH%%O1v3hW1&8hFPnDQ`TybUzW=fM|M-E6Wbc{Pg)%}}*(4()
zTiJ9;xS~QLS&4)sGc#NvJ2M%XWsj_k%D502$w(;5_w)VX)%$ik-ygo`_VNeZZ_nrB
z`8wyk&bf~3dg-%$vkaw!>}!B&G1+tQ%B;wl07+bSY`;6CQ$Hj0l&RvB%vZngJ-6oS
z9&wZovM&pP-76AXG-K^8e_~y72DEnV(B*^dt2{K2=G!N_^A(e0X9o9I*lQr2m#UrA
z`VH2tJ*wvHl<HQTJ}4bzU&530wx1_+f~qDJc|RzRGOD6<kbQYMR8xGE8J}rb|EPS2
zirj(-(pj3ntrer;-2CWxS7lr9iR5NmxSUUGsT?}Ek@QR;lFm9z>Ey2<lnyc<qf5LU
zd6@(Bdi(DrF!#C^wNX0Ae7u*!*N**J7E7|H*h(R6SCK<HzT~(blbqy74@z#=JR36p
z&}oA%A7o!MJLSt}WP#s$8(&EI#Kf+|pmdOZ@ei7qm3oaE&-!>PN0?&hjUb)g=cjF3
zpN75e%})6{lCn8T59t_AoeFbR3fSk=Dn9xpvejh38ZMs?nj`lc#|y;$+sXO%|F%yj
zqjZq@2<9IZdly?hs9$P0&Cu_9-U8Bzx8#Yf@%igbzFly*aW&vDJ4y#R_tjxRmXmS%
z>m=5Si~V$t)C4PZ`5^ncXQZt|sr32Q?b@lBH-n79cu1#OVtg%2-pA%vAg4u2uZk)b
z(pl2G`ibrPC(f|wRjo9Vvr8CA=gD>TH|&)3xe@O#*XncJ&m&l(%Lkcr+r)ax3&X{!
zE!wNvLSx6W^HDm;oEwY<ONEThA2EMD(!_d{cN_=loL<QBG&dobjxMAmJ=G06EQHcQ
z_O<Zn@9?py^OB!QBQxu<oWtuD=<-4KRnWFh?62x^s;ri6<xB&;ZyBVMpd_(@OQ-ux
zZOpU3C7_$?j?zK)6*cy`GAQjrYtfC{q0cE-JmgS1$i8wiUn!YZuHhRcIp(dMyHa+|
z;qtl2@|`>}-0{xh%SY{8KT?%yP&&xIwtx1Q*8T0=ba+%Hruj;`J_x0Q?CaCtL#2G(
zuPm0<)voy(M0Kb_Iuj1&?Twa?>4xVMsESr6)rlaTZfs6zrfa~{OC^8R&n{NRH=Ci$
z8JW*!uXW(bl!;sRf(6{|8Rf6TQ98(c)@_IMKUC+wy}Ti^=M`gCtqtic*74FU?7RLv
z^Fbsr`U^)lIiy3X?aC!-=xL!Yxfm9(oSD&i30*$OzP^*qF%%ss7bax9(6SpGd=d`n
zWR9#k;&V+|>%|8+U#$eZ&_?MX=XJ+T<6Z2QB5&ezJ!ztF77Kcm4zjO8#nEuyn;~4d
zY)y;hC|BQsi*Wh;J~mAAQl=!XDKW}4%jodq7)VE9rYy(CP^#+dtK?PssvJ)vNau~r
zZbK(^Ys`<rg)Ze;vpRZ6=Q7jwpuApY$BIP`#r3I)%mGuld?IJ05^~1LauS}7eYKGs
zl8u3MzKjfTi*Fg*K9)X<tFp3qX9VeZk<9ezFGw6d@fI^ePHFg!9@1H0XV{SHQmQmA
zcz*h#^{2W46S#bA>~?j0yz7sI9+%1MQ(ylQ1L>R~|6!?<`k0EeZFkpQ@Xr?`NJpCS
z=mNiTd*$tx9?Nj~YcceYPWP4X;`YfI{sIQquTnBRCK@n?%g1<A<J!j>GtRg6Me=Ru
zH}Yd39l8frcjA^RszRSyeR_Ry{H_tCgI%9L?V@*s?d(TP-WACnMtVqxNZsB~CK=!R
zBCzjc8u@Xq0VBA4-lr?i4b~5}D|H#rB`)s>$3Qy5yAS98bcR|P@SDf-E`1R)f^-6w
zKFtvt=EE*J7d8qDBweS6bbP2)%eBc#Bc7-0@Xs%+)C?HH<zw0Jyq~|X-;4K7IAs;b
z=N<#;bVbrWc1l_jOv@%Z6DRuC&<N7Wl^wXYY~9!%o=G1(7jW!=9@0_V);!1#o8Mey
zdXaX8%~yTE04^UMst<<Jlvc)PY7UPEbx56zfpi*um}j$tYjk9ld8IE&U;ktT>HK+k
zg8apgZE~{OX{yL-wIB45jt6P}m!x|uLcJgTd(WA22o31N<s%z3>?5%jp|I+%o+32+
zbUy~tvGtZY_M6Ue_vJN7PL5bBK_f_~!#mqWmFa|{ec$eE_fNW`^pK8i*!uiQI`y=#
zv~0ejNmEJ#dT{yVu;hz+aJzNS@f>Bxtmq5JKsw@_&&RDvS&O@_Qpp-lVZ4nXo!Jx5
z6z_y}=F_%u)|$pV{zDJxVE?9V=D(u6n5fnk<>;tuJ#YaopIKt|g0kGA;xQjiiECRF
zVKI<S9+TVNce%Fb@~_2gpO=`889_SpB22Zq)%V!1-J!_3;ZV^@59y?@92IT<)Pzf>
z-K=x=JJL0vi!LAJ_cp)SC|}8W5|GIG^ZboC0UG;!ln(N~pw#B7t;6|CHl)i+pJf|1
z&D>Es$om31w?Lt#Z!%oK5r=fPA3W*}-N)JkXI%$fKFE5?4E<Asg?v@EN^SFVk}U<w
zAe|ZIqn^?$Hub=9hjbV&o|t3O&^ZPiaY$!fP~2(tM0pW#*0tgC$xnUU6Oru^``mJ(
zbIfl^zYNl$6%E1uCZVL7aPs2`)cbbQ9nx8OI@r!uA{gFl9g(ojZ~syp(vk2pC-ojw
zum;Y$7F<5%_K#}rQ8~B)rwq~&EbgVWrM@Qw9Ct{k_1^b$3V)6Efg=v-9G1lfDtf)2
z1J3$+xO`64?8#4jJdy&OGDs)hW&ha`mL^r;xI;R9IP!*-%-=tNBM#}DFi^Zwoi~RC
z&blUCJ{E*+>H1kdQ{a?AIye0q&Q@q{Mgzwk(h2`c6ULS_SpXbyNau+#+h&wct|f5R
zHQ@3oIi~90(AV@1IAxHIixWli&zp_6f#VM8OuX@HVjaC*1srimhgs8_;nmyECxNrB
z4wsMV^sl?@S3(1UQwHgrIZpk=S&sYPdDR`#`Iw|2$Hw2C3F;AtbRL$de=Cp?T?5X#
z8eBf3H~Yh0wntR}rwr0z`4Y3%6Re~H9Ct`(Cr4VhQcyVj1i93Q%6o%i;*idehTqY<
zgR)0}vwjXPAB~EHx1q{{o4_f9bk2KjZ!24$5&(`nq{G-ee`6<qW*#`=kPiJj)~sKj
zjx_;iT@@}L>Kgi2D@vz|z&^7K(s>$|tf_8P^%pqqkd7NkgmbNLQzLN1A)Q8{T;o&n
z7Q^#PEBw_1LNC|P!sSyH$8&b6bW{yEWsnYiZ`YUX`r<%VEg452Tb~JcNT*=aQ{f$<
zh7>sBkdDY?VRig->1E)otH9-x^l1BrT@i6LaLOPZW8=6BJ)Borf#VM8@Pt^>Gm|FW
z297wSBN5WbZb5Wn7C7t5kok};(a@>#c>t#j(wT1@_KjCaI0x=`+##JmnZ0_hPP*>E
z5r=dH)N+dNT-N>zoOLC*e1vlNEUE%q?*XR_(lPfPG7GpU@NlhNmDRjam&zTbgM1F)
z>7@9enK*>|HnA&vPU&!j9HhgVF*h%yBBLL3*E~Vkf}D*A(rKXC3{HLWIw7S?d>~l<
zIBlmQT+X7!SF$oQK5;h?Tg$S)x-Aus(n01kAJU^0sqxp__TK%ZO=3QMBa{yExrD-|
zsr7>|_w9oeX1{$>Zz`jQbSkc{{uIVkxpz}$4y$l2<qRmG%Lm!lc!4J6>vZm0VErUR
zI>H{lM~<&7<bm~rg>(p+LAQP#Q}_(#E`-uS=FF9ApU{+XR)fLv?+KdH`e%#s=<-2+
zzq&K~=Z_32+&D1zPLvL^o)bZ}7n3iaw*hkxhjgYAsDr1bba}ztwNX0Ax%1v>e!}hg
zdK1i@9@63Szrw|4HXsV-J}!qYXJkEoETrcRBkSD3-0>(KWX?3l_up;n50-+tV^KQD
zxkuei8s#qkW(&?6swf>~U$va^+gUjoZeab8qjZpc>4?;e=F&MFReyScIxrN+*(r-I
zXQcDXKWHGKIP1y3bqMJ&Hp?_6_f)w^cMRtBo}jSNhIGtBuiqjyEL;QYkQ}9h%z1SC
zG)W)pXA-au2V~IYgLHUVPu<)1IK2+mVKPbwnKSe2=NXh|1OKf<3zQCW9j=5d@DOvY
z|GVzUp>&Y-1o`NU2i+eE0dwCygDxMWQ&I1tx##Kr0?exhrGw0QzM#a6m3nF#%qs}e
z$tP`j-825e7tBi=rGxCNuhn=^;FKKszvC3rp?-~X!mO>)TAg@LpTzWuqf;7P&d7Wi
z^4|Q)oU1zk^NK;~Ap6>y(UB@DjPC{WGD7Jf>v{0x^t!<n#`|Di?2yifPG6pnDc|kD
z{*WLAmyh@J`$AuD+hu^c=c9Cx`NZk!5GLJBpMdKH4yA)UPEBt)9IN41z6Guq+9(}l
z&K{BzMx7jHpTIh#N9iE@lCiYBJ(VkD0@lxfB)XiDj<(utfow^tD%fwtpmdOZ5rR3T
ztG~wygU_2RP&&wZuAZ0pO#P$m-@b(%rGu<TKh5hG_v4OWu$~DL=<-22M5KiQcEA1q
zg7usa={zSI2prq~{qH>Hj?zKqb1;(N7*@1B0oI{7N(b2&oyeuX(k~=-!8+U(N0$$>
z9x)c?;A@*vkHP1IH7FfqJ;w|+?JJz$*@68}5K0GG4~Id)M|JJ>v$cjrvH}mo)m0%K
z(Z-m~C8c)tb0;<gO+3O#i6EVhBpY&uu8K%-oHn0^%UL&$)?};R#S0v#K`0$$&R?Be
z$m(*0hyU&CP&&w*N0O4TW9NH6$DQdF4$wPwKo03#Ui?0M>`cuAaQ*5$g)SdtUo&qf
zl8?VE5C_M545Sn7bueIi>_aEG?pUC7kokN#d*0u>q~Ja{zStohgFsqaFJZq7uztqH
z(B*@yr?35jV!wpF4_H6RC>><Z=biKoO7%j-z`U@KPN&%o+Y>+Nl)$`%Af1m+`bC<U
z4-8;l>!NV^WS#nUyIq=@4a}<y(g|DPx?Gw`F9yzI?vT!<U(zp5X?f~_xr;+O2VyDr
zuaVX2fw`}Xpvwn2cV}t0a~7PdH^F(M2Bm{shl{C;?>?o+?1A;;gVI6PqvNJ%;hT5h
z4%Uw<q*KUyd)4~JsR3|(Cx>)=bqoX3$=9xcbvSSmUCzjSC~41@>E2v?2(IrjC>>-z
z4ON8f7Qbo?SkD$H9b`RAtyh!+R1UR)^~?_Gj0|&-^nRO}2G`|rVYqzktYmKu=W)}5
z<02W-Ir(Fd;!e-PC2(9=pmdNqKY!Nrk%jT-U9g@pkWMgX=(o037e}z37lqK}gRI9d
za%a<=H0>Q&hh-=o<lJLYoLQB_E|-G!;|}R8uC?=RmFtFqd5J?h-Q5FEING!R?SIw<
z;qp=OAyT<}=A9ClR}G{ildV&P6^q*i^9q7=zIx`Eeh?Qp3+APb(m~G4DE?jHUE1h=
zFfVdQhg(F0$(-*cCzw~K0J@x!^*G^PKJqu7mj%aHI7$b(p4S=@lt15ZJCtVpK!)^h
zD4h|cQ_RnY<8s$eJy>5Cs>pr4#*WfK_NDSV)clD5eln<M`~<pukbSjQN2)($KBWul
z!J~AL^&~vu3HDuWiUjpwQ98(aj`IELv*8-81N8`@bddF^WBOh1_oi9QD0A~EadFiy
z9!HlC(xI>_v>BFeAqP%Aq+`XnW|+Kv%@8;^NN1IcYUXG2br0YOK{^#00UO2(mAt@N
z<cG`0F*)axila0JIQfuH>G~C%M9@?ZaBz@Lx44M?NT78xaD*V8d>`T-ibmmAz**#j
z%V%k2&frhUp{u~jhjhe@-b57fL?5@Rr_Q!WP$$EobdbMqWjV<)8lqhJ*quy{yGfR<
zO%A1lJT4dysU6Hp1!aNv*>-v1^5Jj(IFrIT9|@cqNaxKhm0`6s!BpV*Ksv`x@|w_Y
z;bVX!2kG3DW|?cAXu|<#7Xz1%4HuvKu<_hDaB3i(cv{z+A3U<Sfa3${l=1k6yLNgd
z0Y?tfxmx<S{C#-j25@$d!R4dma`pYImv#T%Gp~Vk<c<7-_NJ}!K|MZ@&b2P%U}`s;
zGT_KTI@2L)oSLHN_`&;!yF76DOz2-Z8!Ufp8#pzPPC|#|6U_jvP~iALIxf_0BkRPG
zrQrQTIY_5_gm*;5xi%R%yWDX3C>wg;KHZP`_kT$>kk0i#Mn|lMqn+>PIO1D*Pc!>K
zIx$Z>liUOviGd>r={T0Bup7<!3j=4D3of5zca|`=i`TdbYJ}>RY{sn`ln(N`lVu)l
zE?WCNZeVu0yNy~G7mm_FUU%Nlj?f(?=*R*`8`9|(YKeLrTI2~Fa!4oK_5GNi<ghAm
zIyvETzVq>oC6}ExA8^7U9fdKTiVf+BRp4ktI_eV-M3hvYegF<Rq+_i9C+GD8t{vcX
za=_(dOYme<k&mJQPB^6F;N#Rdo?d1E9BoJ^{WD$Z0?YT@=v;gLSN97l$x%AU`<;p;
zkH|d}&RO6L97UH8(y8J45SBE!*AARyNQYTS#xVV4FE4PgkWOX(FOfsE%o@NEf^=Sm
z4Ue|ey*><_b#}OX@(HhQMt{Q?1E&VoQCo<6)UZ<koFGW2=XLJY=DaKa>d}UDh@O_e
zIusG02kN1RbdtwbniBOnh=4QB2A8ww@8*sGu>wZ$K0h9%gFMeSwkJFOdS~>3W{*Xz
zEb~wY7Sai&_pfEKcxCAKL|u`fS51V0bYf58Je8;3`~nVv6<t2azT%QLNQh5WTmuds
z(y`gO$FIU1whbICq!V!FAnzxMQ?rT-@u`a;iOU#B=Wo&Ey^U0YH*g3naQU#_8|5=&
z(ft74=f^`j*Ph=sy(QUyA2?V@XD^iEd9l;&fAwG>9ZOEV=4x-&GoT&<Gh99izh_J^
z&o)kg_xbUV&d)0rOhqyndEj6n9ZN?VhVN-gcEG_vI)my*-gN#wKMEWI6I?#N_Ev5O
zT?}6ZUa`{CS`pjgA)Riv?zd}RLsP)PLONolWY6ox&oKfA1L<hVa4QT|mXrgBzzCPm
z?fiHRro|8E!lnIx2kk9};31vUM&W}ZEgdPq!9qHArN;84)IUD}2LtK6Tsoaqq*(p}
zI0Oc`d@59NTTHT7%`Vf%w2+BBOT$AtA{G2Z?R%?!z`;T~4Qg||wPc|*z`;N|EJqbt
zR!jF;fkU8&%O{)LMVGJNz9FK<({P)zo)!=3XjZFfe7DLl%i1~9*LwF&CKl59LOy$@
zz>zl>^R4Nx&JAiS45ae`^EY|3f2RXD1Uk5UI(W*NShLk~fP;s0nsg^h8g}ItNn8Y?
zkK~-C$3i-V(au$T1{v(Y!9Y5r{S(ADN1Xovhd>LLkKMc!PV;<G25|6@j<z<1Yq@;5
zNVIxdSnhGQAuObGGk3JUc3X)WI2cGrE8!^5=j9=5;1Fow^2x2@UG*Hi_8K^NNasCu
zrum~DuM*&3A)R043zK#n_Wv9Vq_f4Dc*{QJ6zLa_m#-Tl9{Urh;qvLNIC-wD;4~9(
z@Q}_Tzmrm(ilRGku#nExhquzt6eoTJ4hGVh5DLks>T^&A4uJ|TAI&pXU+<O51ONvQ
z>1@)Ad0+imC=47dq?5%Fq)}&}j0X+|(y@KkRYXK}?>cY@lyLc+97v-XQ%hk04j$4W
zy-gAj@hO2GI9N#MdwcN6f*da`a4?Y0skv~@y~yEfz#&k;<+HqH%t1^cnhzX2q$A(K
zdFiS)`5E9~A)WZdF!_@;*Ixk#1L^oY!q}BJk6QzWKn|CW?pLL%6WM7efP;s0j$IO^
zImMmF0URu(^Cr%bCw<I?02~aYV<h+lFQCfE1{?wzTt36W*tw}SZCT*pA)UXWCaOiW
zvXa2TLOR*w2a7=+w@844fpk{=@7Y8#MLz%z;RswllilT%k7~M|fP;s0?4rhp-F{%G
zfrEu~#?GD-n0Wu`-+3Mb>1f9>{b=%w`*&U?kiz9Nl)BwUX6F4K^o56XZZRdT;SY;w
z0S61|NKc6CXL|0I00#r<JSP%!p{g0J1rFgbTt2~7*U$1R&vgI?59yqcTC~ANOJab7
zg>)Vr^E1EK?e-Hm7)U3>^{cS4_*4pT2qbX%n1p8*HyBb-00$50q!O?g+u6!w;9w!0
z)v#QXudFxKfP;Z_XgC)|ekhau0S<u}E+5}5g`o)A)qnd0Jfw4I(6qI;`)n4d2Mg(>
z;1(s@T<6z-gMoBTYz3eB6*hkaID|uR`AqUPuqeI1{%;?ShjcuODOrcro-u-Yu#irW
zY9=pf^L;VkU?81yx8(doE#~@wLm-07CqYKv+l$cR031A|(>QjMIbHOuA8@dc4tqYs
zdCK$W_<)0fbiSKNJ?myT!3i9~!JmWw`$zQu`9prbvv~K&fr*IPzx@~<(sA3rv3@A>
zxB{pL3+X7#aoi`4HZ=wg2GWu8qu#EJDm(=o!e6+2R_>e-b6$C!4IDhAL;Yp{$g%zL
z55U1fI+B9nPxSh;|LvnNkWQqS*3Ylfrtd&Kgg<ck@W@d7s_YQ^Z+{5s=o!=0HC|;I
z1odDcosBcR?HVRip1{FCI_+L;L;RzCbHE|&!{uYsU;Erob@IRaQ%L7ae8RV~<Invl
z9eMgB3F0wWln(N}i_&F&53KTr6>x+gowO;tY?*1rLEx<Kq00wZPuDo^_DpG!GH_}j
zoiF2xe06m3L%<1wba>hJCacc&y#$Unq?7gbbPq4<i)rA{Lpt~4r&AC09d`rH_;0wJ
zZxxsJB&*Gy1r8q4Idb?Rhv9WwEO2m;4t)?KyBL=a4mjeF&Y9~2fd?`>HNe^Z1((ki
znO$bC7p|GWX@+zzvJ_LulnmSlPB^5KH+L)Hlb|jqaEu_Ga@-fGf?i`@;IKnF5>I9h
zCk=mm6lj+<J}!JSg|Le*XXJh(MERA-r4SK&;NT&hqQDKIpT|X<*F67d=d0G6Vj-Qn
zOL1NjLwDDJgMoD36ZvfQXZW-Nhp+>ekE>kO>DaU<^uWPGI#tWjG@2!y8Nk6pIx;-O
zUurLt(g6np>3H4dT(kUUb`m&*ZMb~m1o_VUaUUcB2M_7!+J3+KfxEL2I9NzWdz43?
zYqj<xa4?V#)xr<u2Di*z;1GVo<zqz2a5tZ5YZ*9rNXO#s;Xdt0&a}Y6LOL|xzi0Xr
zSPlaR1L?#)JS&-}6X6aV!WLXUiS3=D`rj#{fP;s0enfxu_Hs+P2plY=Qy}p);PCz3
z7~o(aoo|YVZ|L{vb_0j-11_J53^89%+Iz=<gNJltJ8m)BI&XXj4i?g}w$kWN?jvLZ
z2LtJNMLkJv$=v-ncfuxIJ{Ih+a!UfX--3GZkdEDT>iihe8|J{lLOMBSJdsLl*2jT^
zfpn-pyY;pQWG@1TumP7(=bY%vlRrJHfP;s04%0WCnVBC_2M!j}q5CMcS+79u2OJEf
zv&HObTPJ$+-*G`$hs)<Z_1K3C<Z~gQ9z3LD!a{p0jpaTTI9N#Mp_lI0!k$?J;9ww~
zC`Brsvt#{=z#*)`<-=gX`?$>hB^z+?kd9}|pQ{lEe?I{S3+Yt1hrV1Q9IOHd1L+9!
zS*5rC)Jg{q;X7PDLSE;qy@w+UfrE#1bdC5f(ic+S1P&I`8MOZykv-L=0~`#bGq2)J
z|1{6^6mSTuaQO`UqO8}~HTVS_Jfx$O5_{F6uI2@Bu#irP!$+qry1Y2xU?3fL=CS|%
z=MCk*{RZJ1Tt0eb&+^$K-~M-eK|0^AEXGUN8CZe7u#nEw%{Z!`QaZW7!9Y4{RLOq!
zFFV_SLs)^!hh+q3J@jhr-@NdU&hbpym!G!C1VKGmNC!tR{b4H#^8h#)NT**M&otvk
zYYQC0GF(1M&*^*lGEam82M_67E*O7OoM{&b94w?mq#Y}vx-$3geg^~ToDscZGxj2E
z9n?cug3E_1sy&m7Gx*<r0}tt(j`5xF2<{~Y^<W{LQ-ifv9`sP~0S5!=(BvupRt!jV
z0}f#kE}!;qC+~B-O#J~IJfwq<I<DEMY|#T8ETrR~B=&Xb@VDo{!9Y45_wO{>%^Z>f
z4&f_YJ|w5i@0`eY;sOpH()l(mMkyZBaUVEXNCzi2GV4g_(*O<z(rN7#G07Sd`d1HO
z0WKfr$G_wToh*ewJ$OjxHuh2Gd!c7yz`;T~6R9|Q!`04z*Ha9nL$_FxYf+{B?|zvu
z50{Tq!8;pCgLBfLFFd3(=>4{Okp71UaIlb0eHZ10SFNxAd%gkb6fWz;bmMNE1N9KT
zz~vKeeVSpKdzJ_|cu0q1m19L;NL3j)SV-q7U!p}WcEJQV7)Zx(Ag#0Isi+}v2y<}x
z;71vbeLbZ1?|CmC(rK;{%KiN+P6^b5g>>W_o#bdfniv5G1L+9;)_7R#H2B~B*DPE<
zXZ+IY<{k!yfqL+ej<ihBtLa_yyTHLhIwL<vgO;K^CxC;2bmHEoixc1e(hMBJ3|v0y
zYu?jIkG}8&2M_7Q`dK$9kIT#e2Mg&mC~>DNjfh7B2LtI0TN|iZeG&V2Ur8Xq<<lC8
zowUsuqXPBdA)RFI#jp#RIsZN{z(P8I>^cm4=U&u+dN7a<w!SfSSI*$S`}b+MeE!Nm
z8&6t${T|eVhjf0ujUeJ!6a9BziG_3)JRLPOZ-tM8dN7cV>RnOW-kBCh;1H(Z@_G8`
zdVNsu;$`6AAswA*n!P{V+W($oV<8=H%NjkN$uJR64+hfdpUgRPuBh-1a0rud`JB}B
zJw>6VdJ;HzNM|V5^>m%G`v!2ZkPhASiOLVO4*y->A)OIi*>Y!^;(zyF6L9$~z4$Ur
zr{-S<`ocpxix;?rB@Ocb+y6j1ZFW5_rd;&ZpdJjQ6EE#poxpMA32+FX;qqD8X$umG
zIS~mQJfw40PWd=H`Tc*-`LU4Bw};8!MJBadK|L5q=Y`wz7Kze}|K;-uE}t$AGle8Z
z4m(f}9@0_JXc;M%BvSzn7SeebR2jya;5WLiU6B0diY_Sz(n(C!+iEfn%mohNBV0cE
zI+IrxqX+*vcu1$jxM{Sdyl@=UgN1Y)_|;Em>QQn62LtJhdi`o{8{~Ec4q+TFpBwXG
z`Zhe6!@$8qI<-zhbEJ11#ejo_bOc`0pL{QC9}FA}q{H>#qWAivwg%u3#^Cay{Yp#|
zFWjdM96Y2$%_b)?`|gGsaIlchw%eb#95v~Nz`;N|u8U5(R&DoEp0YUqxcOOMjxY+B
zk52pV=d-faj=;e~I+R0Kj2dS6bAf|}bXrC!s^+M##{&lg>HJEsxU*bFFA5yO2wXn5
zjz^QcEBnm|96Y3RH<Fv1@s{ogaIlaLDR)ib8QNfT;9ww~NO2k4y}DLU;1E8*<wH_L
zl2mZU=Sj%b#$|O&>=Qhs(=D@C)!2af1sp7-lSAC17IUfOqssW`4Qc_RSq!A3cf|Iz
zvvOp^@A9#m7U_m0gkf~~Am7I};ypssK7PbJ>G~A)BY}_J`H;>DijBX?z9Q6*ojf08
zg{H8&Lpmmgp*B}r`EIE$kH)k0*iOr#bdc|zvbI+97R@l9(bei+@UtOI?+(G`W72Ze
zv&M3cmri<@wKP)MyBVc}tY_-We7KFI=~UFrAGe9Beup5G4su@c90E(*-~POrN-^@C
zdGNYa8>NG+hv5yA&r<r<ES8d{Su=a@1UaPh^)XG9t1;8#D^32!tQIc8orCCdrbhhV
z5=Ejwt8N?n;>i(89-@oVBLtKV1;UZNZ^pcvw|QLSdq#?+TOS)*2boXdnWm5SvZZ|f
zm6!a8N=CNvDC<Ffuk528m-~}4UD4TT#Qh}=h7Im09b`QfTsfZu9A$Qg-t6G1O>b(7
zLpq!{RE7^fPt~~}n^NF+!Fy<Z0NuO}BXT}QIx}Q{h%NXWm%C^GT(4*+N(b53md6s^
zCh_Bm0rMB46REu+;V2#C?@o$6v&o+K@uYRq`f`qfe|`an(m8_Y%XR0r)9)9@JDw{n
zPZ|sq*czd9kbS+(7pCD`w{AJ;)5qK?xMxQX>1@j|t9etW^1u4|{iD>Y>A8V^bn`;4
zL&dF6>-US(`M9c5?wp=|+k;2xAamaIec7b2prm$zxA<ySmH*Emln$~Ua^<L+PxbE`
z1z*Z2V_j1o8=-WN^{mG;DAY<Fl8NJTe>nPqH%=U-gPd2EgWJ~-iASYHBV$y$8ZX|h
zzekrd(wS0cz0nwI{P9OSDMdm^eM1?fla!Ox>>rl%pypm(9qS0QtUIK0TrMf8#E5EP
z+SzMi!h|(W9MU0eBx_~fmpZ+5vFRW~N?Uxr4_!XUxlhxlWgLu~KC3UuYb!SvqiRO!
zAakxe$2pZXB50y;B=ljTPu+MBN(Xr!8>HEN^Tq3V^H&bJ>;tBCH4Bsu^1AGCA;#%$
zVzl(-CGA-EO3_vfN(b2&w`p&QZCH*ba0tEVaz;8Y$0O`UiFX5lgNJk;{b-WSH*_Tj
z4i?hM@Ypd-AWgdi91NtRCqz2=K$Gbxa0oqc`NaJU`jL<Q(h3|rq;u`fB0JXXc`|UY
zkdD3z$GviGc?IBLARW!eX4e^fUW5UM&<&T*yaMh>me6VtaPW|h1x=Z46%+FYaIlb0
zi1MWFGaKa&;9ww~()WeACiMrSz#(+O<#YYUHjeEM%LU-zA)QDg^IJQ&cg_L_3+Yr+
z9y+v;6Z|h{45Sl+c|p3GC7ciHA#}p!)3ItL^HZ+&-+2rV>6BnIB`WY{GN2wTq;taZ
z{uG~PRT^+GkWSZ1{I8QispG&Qbim~km1g~ksFyeoICx0MQLFIacU?6#aIlch@$1xy
zijR)&0tW->%x*@%rrL0101lxYE+77I#ftg|vF^aZLpsURb4wOQNejTiLOMs<F1yb!
z9h3tH1L^4TGr0Gv6&B5$QI|`a<PRgXq00xk-$<NNA-SO;d<!`Fkd9BG@9!(=TtmQd
zhjqH#jT{R<{OW1b8C~e@_m@NIAoufkZ$H$=l=t3t{23VeQ_(Yl9i>BtxR3jB?*_R-
zp>`Fo+UAf^>4Qpgln!#gO8xkapIyf8lgrzKWXY*-TE|<_%?r67t4yNBdy;cg@I}l8
z*nXL7PDbe<>mlpO|2!}3;M++*pyKaZt$>4cwjPM)uM5oed?WgZjSyX(l|$(u`}$nu
zu}Xch{zA~Yr3yhkDs1;1Ts{kjCN2fP%a6OWF@+iP?V75AbWYY;e=>g}ss3QX$1HS1
zAl(P0gUosMId15~o5DBjp{zPKzGB+iC>>-z)IpcnNw3|_0LKM6N(XsdtVF96hsrnc
z6gGq}mwz;~TzrczXXJ6A|3ur_jWwFDQ{<W82xVp4I7$b3{t<ll)3L|WIw2&A^gT^b
z-8no;2bpu$?HenX7TV&wlDPJp`D)&|qjcyH$NSciiV7m<w7C@*V_S=FeyM2dLFO!F
zRhq~pcSA#T>eaaSy-uPal=UFz?)hx!V946t_6IA+p6HR?P*s!;^8Qrh&%=v_ckUgl
zp4jZis>sE#qjZqZSE)j?K6qwE-!5}IYA(mMgcC>UAm`<b`B_kNOwL?fa&O3>Wm=pF
zrGxBCUH2%fB{QG!LXy?72YnYWjJKd$&s2!H8*g@v6?WROVdH46u+fYc7g0LMd3`4T
z{U&nnvHbhRZ>mm}%qjUO9prJ5WR-eXs)vsiT)*5=I>>sC5*^Fodc#r+u3zGi&L3Xt
zCz|3yYO0qGz3~;r`>Z#^<s2|-%wAVX;&VYPq`HBJG?55pJ;=EeSy8$Dojd;Zut1M3
z<?*bgag_BSbFMMT;c_*6tVhW-x6SI#5P^quY@eGpnN+X8Up&urjLBkS9EZ|D&a1-n
z3Mq5%k{WP?ARPf7yjNQBpoE%$4V$mzsQh9Rx_Ke%=~-;Dbd9_>iRD;~sJ3Hf$VcfQ
zbN2TgZhVG)FrrnUtH)&6VB!wx;G>;?l!U#vJ-QK*eXhm*jvPt{*%z;L@7L{PVSkJ@
z+Cr{zr`_Cbgv-bHQ-`I3I;A{#-dh9dSUwcji?-XcRuBGC@w({jiVvideb?*M-DtK|
zlBkCZ!a4j*a*z(M!kjI4=lR?e=7;<Ap(T{N4RHC)h;)T5O;M6`Pra$5qI=?11L?3$
zak?ztHZRZ@Sd*Z6_fpFT(y?Y(O&O*AnayLTIZcQAA}0swnDbpskZ<3ron}t1ox8vC
zb+;Z}KFH%j$CJTG_}+vXDVq{4dwOhJGfD?}KE#PW7BvjlGC8y65F>bL`ff5x2YFm*
ze5NsM4XoRx-IIE1uSrm~fONJ`7*<ZS_$_r(tBKn)_42Z#bdaB;#oS`(IYi`4Y$JH-
zqF=9SG!aS%*;h`X$ojI6yGe4n`(bQK>_qb$bn`+w^3M+LT6Hp%8buIr6h5YDL6FX2
zq71Pv{;uOXRyg7x{m!hakWLTXa5Ev&ljF{zu8ky%R9hlQ$GYfx-uzu3Q@ppZ)F0oJ
zU(I!J`JDAIm{qcHBSbK~4is%N91KF~Am_exUZ|UIfKPEeBZJ|m&q@XkrGwmO_7|0P
z{W{dgy)V+Ftr7j!Uk;^%oIBZp?CPROVD0f~X9{8}T*YoJTt4!+ZI_Hewz%0hA}vY}
z5=(0!9p*&3BQp8fv?+3plmkzBT6`cK>jxI|%>v$7>(`NaoFPXj<xo1voCRB*D~~+n
zkm1r{xT@sd(m;;VLFUZyJ-SBnT=7BJ+XPcRUz+yL8n~QCVsMA!CXZ2KH{FZ%FLF7C
zqjZq>aUE`2Dv@LHdJ%K9GVf%o+;J!!WM6f27uKGHxHERfwR&k0`_>7ebdWhG6w1Ag
zH=#S$ug3eJlT8c1Ta7Ls9>o0)=Q*3K$_~8}PYLS2YqUZoc$D=ZuV1lbd9k9J*UYdA
z_G&b~d1J8o^hgaFO9=?oNGs`XbGvLmLz@qBUK%N}ekRp}lV^t>1kqHDT_8u<7jj<j
zzJ1?6o%#ZQwTwPK=xCF3C(4|W^TO;!v_6=nez*05DD+*VbyG4*hZZrf3!z(Pw>>N0
zy;;Do(gqoKHluWq`-HtY?zSf4XXn7Y(AI-|{<A6RVqE!D`4ew_&-X{~*YV*f>p6z#
zOKV=S^4)fG6z9Ejzun@eY2{GPiwoi8JDN9)t#zC|Q1P$L$xFO9fYL$E{psECwwIAh
z4;QwSg8j8}hhiX|3m0E$_RTO>3D}Yd|6$A9G(zbh=Ow(i#r!rz<a3x^ZD^y`fF#=E
z0=W*yR(SP!hZPJbI@6DC?mHKtJ#QfM+1_Ew<{A-`6-_=cUnW;~u0c6>q$7OYQMcyv
zk88$J&wAKao@@G`bdblp8p)S<rRGsnqJ>q32HIL(3zQDBo-U5TU#xb@>NmB%=LFav
z5ZECd+k2hb?vm;K*sRIi?i-tj#$Tg5KO^gTD$eltp+;!X>v;)MD%Sn7WJo7Ec(v<~
ziIneX3FE`2M3x8(lnydyi>{N02*pB8+P~d+mPpkv$f0z|5yxr8^}XdKk^l)>2ZxSH
zqm?vqlnyeVG4qv-bH#QJ?mM)fQe8WS)~n!huK9B<wpo$o%tMK(huNH!u4RzUg`|m{
zjZ-#v3X9|O<Y{gMx<fi<mp3^daXd;>7gLV8N_^Q$9HoOi-lMmVF6ch*{n)-K7=|On
zKP5uxAahO(kRNd;v#O_G;bQ4o*>P=tg)V0{#N1aH5>wAGR9`ew{+z;GAzcjHSIv>>
zX!qMQ)f_to4L9<6d|>;M@AJ-xU18<s&3z_dC!rsSwl8Epj~0(jyC-{ua*Y$ys)-EP
z1)<Cb>DaOpimS(C91U;>i=xr{ZK{yYUye;{*;d(^S^`c4FRisqgwjFo>&)_MzA6Oo
zoB-$N&PsH1NA@MoDcxJU(S-r$=Ws}eEG#K(*=AWAoS(HJ9c@SFsNr_U2ylKThjheZ
z2V5?EzFH5?&z%);`Q(ibbgy3gZ3@oM;gF7X?q9pDF{7)tM9~za&M{QlC>`W}L(i`)
zVCCWRMB&YY7VQE`eGEzmIrllfd%rBw&AKKcNIVauj<FNU(dC1zhbQrPZZh5Sm?tI4
zA%}02A8JrK$o=Z}@#Bo`Pa=y;r^v*rpS)qpN9iEXt0JFq`7O@2_bdNQuQuGcqUnRu
zK^|Y*gCElPS_V9drO0m<SI(VLMd={>I)wfEEbmPKOPTXmt!jRKK5>)|vL2csqt)=Y
zR7~Rayj96pDGzqb(9H|!RIFl>J6i-2V{f@|wy$2QY)0uI*U!x)SFfPrm6x9#tfH*m
ztC<HuI?t<g6tAu6zZ2=JFdKYB`(72&*-`(_r)H-dN_h5A-9UsrlnBzfHzFK=v><u_
z?4z1X(dCTH$41v_+ik3KXFwoC`|!T@S`ehun-mscuQ|hdVV72qO!>Q}Dx|Y?HUH(x
zee#|tKiq(tY5iFuNJrT0&G~vvLkZvJFRJ6Jx15?w(B*?%hmyVp5{##tZOCIY5)_|?
zJB6ckkU3|HY0Km)+?&2U8fnkOchXH8rGtE)IqJb0e|>%9S|Ijt*~9VL3~`hWvYwf!
zqw%Eg8(C>%ViV3V8S$^bgv;mNQ(S=!{VY{4(Yj$m-ihNiC>>-yN-19CarTx$+tg(&
z&d+(reNZ~cd9hi37rmcTQRzR(lpr8?j$Rd|gRF<=R4||DP1f_GYj309CoqN)K{|Xt
z{C3RVnRD7uZjO$=-dArfMwc_P9-3RKxX*JO=fboKH%2_dhl3!UmXOCM2R}a(3f>-E
zpL(piqYCMmP@2|%CLwuTN7EJ0<tUs;gwjF&e_W{Pv6hn(hyGp=$^O|<omP(4LFOZP
zj^XeDt%(F*%HM*UPZd>~i{Nr*Juk}<)okH->8GLTxyND?K`0&M^?gR{)6=mXgBttV
zwpRqpWP%Y&2f3by*s*T=Bb9%tN0q$Z9q#C1N9iE*x%<hG>R0s1SM~h*^DMhfqT_{d
z`KYQaK4Ib=)*#xfYvDcPJ)8{bWKl9-{cUo2uD+-K;K1;rngyh@L5$aO**tRe<Qv~M
zri9bn?2wL8P+tH06lJc%tl4@O%!r%E3*hp(xlBg!u8o&Jakd%XC!x5L4C#1Oss<@E
zEf#8PDha!L%~e`JI#f=xNw0foddNZow7zXc>as&RXUTkC+h03ZB_b?mS$ySV`FK8D
zK7|h$h#dWVq}q}r!>Akr^^zf-AbI8BIdN96Fw5%4Pw}1@3rL5?cA?+Aj>9TPv(8hH
zOM{6WrGq@)1#d=;kr-6Rma=a93nnRbFXqAJ)3_tM)i-<ox9Y}<hHdMQo_t8hTFLG~
zA(QJGuY~&Tw-KcwIFt^uuPZe_T{%S!q)GB!On>YXzm!AiAoney2He;rQct2sf91{|
zXF3sqLFv#Sp8v4^HGTO>k5HH)h)=Afc(bpH(m|dN-;O)ss&ZvYT($KyVzS71iBLN1
zh<Y;WPRHp!%Oba2S~jg*n9%V-=^*QQmt`TlF>*iG!`Pw!TP>v_+MJQjO-$${k15|S
zSU<bDaO?0s`;6X(Npt@23-6c-g+BEfNat=~jTxuU&rcuB2E6t>!gqX7I>_r_nZvKI
zTBISW;C(h#lnyc<{X>%5Mp`F60EY<D@ebh9*2#}#08aA@xSW&c{c;JBU$P?;8Sg2b
z2>lZT>HHB_DBbcg4G<@qE!K#1{Gp1{p+~Ie<2H#^4`XOswz_zl+W6dMeNZ~c=LvVL
z_*zKz<WzOeO)GfEG}7ZxI>__Sj@ZxN7Ii->I%FuYq-V^@<xo1v_l=+MUEO6<RtkIF
zLD8+WtaZZ(rGwnBo*g<l{58bG#!+}L^%NJu8m)s|htsBOoXI^4kCS*fCI}urQuHY6
zK|0Rayp}0K>fTk1&NG?I51j^b(5*w{=P9~(L!W&fPl>{|m-+`ATlsXNbdbks^KN>A
zZKsxT6OG`fex;KiVo*BB=XC}06x9J6fkJVv32*0;y{vI49b`VkjM)#Rz8X)jl2zSQ
z&wns3gwjFwMLkfgj5Sji+}|UkYEv-{S<gn7Gjcs+#iAZiJ;WVZuO>d}#ZD+{M(H5?
zn*AF5dPzO+JtpGj7|WS_-XN3?^8XZaHM-Ug55Lz|SuSAirGL~|hSEXiv(AaPO4Gac
zfY*ZbmfNeTCLfdzG9T-dc$O5qJ!|mZg*HkDS<l?I7g^``TSB*sFAiVj!imtMbdWi#
z8ByLMrk43yUn6(J;JIheKo+{WBkLjh<bS#Q&~ZO{V&ZF6QZ(n1Q98(aqT5XT{QAzM
zUB8k(H6Hr(sRc?0Sr7NCJKz4KNYiT&U*&%uYaxt5=^*QIS>{|kP55KrpP4$>ewW^!
z@Elz}$n&bT`nNsN(zW$GTgmg~#^<EaI>>s)v#O&k6!V`~xpMOzmYX8QqpSzH&s-7k
za!r;uRBCUeRQ=s^#i$vj^Z(SNtX&(;*kAQ<zDylE`O+r{rGq>!E~$&nsVi09{`8pS
z=q*~FYepy?WIYxVoazZ3l?T5McXPSwO{ddCIu*G_Q>(8^`BWW36{B2CYX|V?=8mif
z$4K!ojC&`l>q|vye#0%V7)Yloo$tpFMUR`jUmcglD-&CcARQunWg*4%RNkfQ_2;j-
zQ%TdKbdcB6XjiEp=h=R#gqO^n(Ru1nLypp+MC`}D#5q)zT7RGlJpFx6&W@mmwjN~8
zL08FX7PdQ7PASNR%qh;w4rHR67xMk69ktFY#M7*|cjhLr?VYE-<52d6tmoXWlax&L
zD9>k1>P4|~>uw=PM_GRIaf^tlUc0|;je!f}xkZ$HA?s0)kDtHQS2EYNE&HW|wBI}*
z(%BA=Zge-WZqX8UjEnZ=SHeL$OeR-SxKceIT$7-eCwuOQ6@qm1e%rFee)D6#7gr+s
zYv1X{Vg|aoBkyz9{vOQSOW!CN3F3Y#T154~uR%cPAg?<Dvik<wVyp4sz6rK3)tJTV
zHa7h(;GpdbIrq1w5<auCVo`pf22V|0#o6*v=7a3Zy;?-@;Y5EdaNHrC?ZoFym+2_C
zfFlR#uyKiElFkvo2M!UW)1Q1RdY(8_3^<+XaC7f#l$YI_<0k=545ZWE<HjFxUU$%V
zJDrD&RaM9WrGuQie9w=XsJ&k{HxBy^|2{84V25;;wD&O0ml};^gHIn=^LH$bKZDDs
z;ih|18|zQi#kp9z&7IVJJW2=IR}Sm4c32l9Grl;<)0&J6hehciuU|qzYDyf-Q7&Gs
z4J`e|@;VkM9b`SUU;XA7`C3}V&cD)X;yY!|4(W_1GF6qH2z?XCNX0m<QN%W$2A8vh
zLo1`8(#8AFcS!M%PyP<WqjZpcmAi!PeRaz8pXS?*x3hWGhDGTh_jMMrLK)#_H7;J|
zrD}d{qbn(n(m~c!SEu-1l=Sc++`+QK>G;;f^;C5EAn&{T1gdQBT8>TQTeC=f<LL%F
zQ98(aLbFwOPU>DIdPw3aswa7UAso_4N;z*gc|QI#SH*_8@Q{jwHcAJ1e(t>4X>dv~
z&iJ+Avu;<Zf)09=4zjOlopIk`ce}J&+OxJVqT5vlQqbj$bke<7C%vYlT6BLrU2rnd
z%Z!0^PNr?wNq*W_$q9Wip^mq|X9Vf!<lPK^_1GWh;p22={%Ds!J*1;e5jkG1zQsnx
z()|WUao=Vj8C^ced8KH53-i8w-zw!!SJAf!Mw4We4l-w+IK26_NPEfOCS5;^E`6-A
zfOH;R%i~rlf4g_r;C`#sg9QzCNayYmX8p9^ot7S#9P1g)Q{Rjyq00x^*JR_|SyxFn
z@onv6=NsNoa3(`K{04z65zS@0>5S~(*o=K8EFc{>avHB!18yf4S6WocH;HoDQ98)E
zD;!%8qFeRaZ*U42@LaommyigT&z{q2$L*R|*BEsy#$Ieh_2MC&GiQ?C&rC_BE&VtY
z`=d&C0SoEexnjrfWjaT7k2S~1?xI2g2BpJ*xF0;kLdDQR{N7+rKuG0~^hy@mdXPDD
z1c`Z)v|VgC9ZN~~q{Pf$2xUFUb?6ajDV<eqZy%-WForSu*}C`?ZeG-8w?`BNjxvYE
z|8=SL@kz>ubjBRJUf(+D=`u5FQuu!KixUpg;T(R}BJ}}ps4t;BuakA=ybz@G;hmNI
zRn>mEeCA7Do+tNB78Bs|nGe1+PF25jCGko3)tf!a>G_b((<f`*6J(56>e^2$&NCKb
zaF7mrOUKX|k`deX>jLqIX$QT9Ae{o8G92aPyoUFS$c{z_wik=>aQS>JlP(Tda_{DL
zejHL7d`%`F()o7bJ#U>rEeCVS%kM0l@})RPXWuiXA=_-8NE*j^?Ce{AdLc-ML3mGP
zASB|6wLoqW#rpF1#W=Wp#3qk#EK1u%*57$GL{eEImJjJ1r}|m%P7<vBRa8gFlksg0
z4$`3>s<`B`gd466p!zgIs~9Q->5Sc{60(XgX*VHS@r#zdduTBhE}xKYh7Ya2b<ary
zHTxQkuV?2&I=<!SFT|=UKOQyUjms$UGsZzWXPJYpaeP_tRsU6KyC6n3F9hi%P&)5#
zx&<~q%IA!{;EZQnjDgFCgX6BDt>oQ#>9g0%L!7La@*$l8Nf+DT(!|3WS0qVocUx3&
zkj|uO@!BhT`WioiWQPo{^_38$!~A7}Y-^ym?)T}e%X;M(2#e8h`QYBvsGCf<?)%;`
ze{rfWJ~bcGsUpkmSmaqs_|lu+RxU~Y4hQKlwUAL<khTAdY2dp{a!pEH2+}!?!A-xF
zKI(w~vuT%e_R;snCvf=~kzSZ7J$_6ksGP;y<12?uKBUv9tyUAlFluVl)41zgbea(d
z>HPG0^uk`oMwQ&{{jW1ScS40Aoi|pQR41keo-=zBv?YH_YcEE@<zqH>`kaG(FzK5_
z!}t?Z8prY>orEvK#4>~Dy#+*$82O3G+2J6aYi?fUB_@Tl7rC;ISto1;2|+rfzc^A<
zF54+kSlhGaJ|_LM_!usq?khhQ%@|+b0!}`xbNW%Lrj4{EaBz^02lwF&KZ%4Q;0QrF
zi9H^MP7myTfwLG1m(Po!`vIYgYi_{FhjhGVzL5ru)2IOl2kA(JBuYuB9E|~v5Tv8s
zA*owVtt|_j#Yb@YkVuo7sm^CR04E>Pd5}&2peXO)D{yd-PJY}({Jv)4ci;#?I<j`2
zgSYx$>VofwT#SIrCpy0Wx7NdGBBtrhT;s*L7x^e1<nzolx?l6mYU(q<@j>Yz?@u$6
z1H{hK>c0ezDx^a)_BV|?GmjlO<R~5F`>TC;FZ;gKnI7P*hoj5+IO6_&-ofxaUy?1C
zLqkqn=f|tToha);KA+dq{omb1Mj^)hIdkcw$Qx$OC>`YYf$(Hpd@&G16L^qw@AiSP
zn-SXegPhl51$BhpZrow;`(I@!>p?zGxcLz?*^vA5c=?ATi`Lo8WA2a+$)PG4<8v22
zg7=@rA)QX$q**gYqQJYU$7Rj)LRQeu9od)u<lc8(;be?s;P8&N<jBJ^l<NoS?4)n{
z2gv<MO5-bYHmI?@;tuJQi|_iFJkoR9Xve>tc{cn_9MU1-DSww$r`97CEXb}nhAUnV
zLw8&t`!Wl8pkzjBJ}r3Kh2{6h>$znp9ppN+y<{(fcU^jLqv1|(;Kq#*ACwNVo{Ofu
zQB-X*oZxrp<RBgYoM0B}i^8c#8yaqy5$ibYK7`AsEIHgkHF11LT}mW~nNJ|E2GXgv
zAT8@T{D=WKK9G)S-NYAl`zNuJUl~PA9IzX5C>`Xy(sNFAD}Bt`w`9QTSlpSdC4zJe
z`}G#Dbt`2TOWU1wKWDJo8Hz4v<n`-IaDz-oL%OExuUKP;Q|$T4C>`YYoNVfy{O(fh
zpbh%+LFpjZVFP14jvq^Vj`L+s%I6kYKRJ{R^1bfz4`XjH?ere+8;~_(oh;yRN9iEn
z>t?1Zk6!Pxp#k6bg+=Kg`;w}{9Zt<7TmkQIU?3eU|KQm3@~#Bn5FVhLJF*_njN(wv
zCo$T<!9zNurZQm-V+*-@tQ|`HO0j%cln(O!!<P<Sv@(0SNqtA_`ouyv&4W-n$m8p<
z(!<zXyyP1AJ~VBV4l<w7k94uE&pKH2UvC@K*d!hyhje@tYkK`B>vjmSxAIa0gylLz
z;N~S?Jw(1^F%-+6yLE2tQ(H+mN(XtoH>n?PqARGG2k&cHpmdP=sCV*>D26#}G_5%o
zU;O#flO57|YB9uLmFJlRobh0|e6sW%eEWX)SiPs~x_0r3VRAC06RBe$dhzca-B0)`
z`E}8zOBN^{WX>8-^DwRaO=O`bZByf^Zzc($bdWhOQ9mz!<;Ln_J#jnp)D7a*#rtsi
zy!pmYlMuxvuQ*M<JHylCoR88$9$!5hgUfEQI+iQ%{`fPUWR!A8=^*pjyeHycAgX2x
z-uF{Q=^*p*ic+>)dod>dS<&cBhSOdl5v1dLmOtg4(l1uvGzY=uJY7^q9#l9VSXoBo
zGe!JDHwe<{(6>pas2ACO``w9@t(TEm71HUUEyWAo_esx?xiZwFQ;|i4(m~EWc;0xK
zRF3Q{a60dy%LnNgiJM<HQ~advmiizj@~|jN3`z(2xv<RpqHWsrTl4AfPBKm|>l__G
z=^)pSr|Qr(`u>ya4fBub+*?;A(AI-=w!d!M32)ani2wS5b<s*vF@mfoYCgU;p*chB
zNC^|plZM)g9;Jiak4+}~45g1~^v&-KJBlyUoLdh>H!oyg))L!f<$l}}N<Z1#u3G#5
zE`xM@NnWhUlUy}0x^1=W`|gXNJEUXzu9zZ+<@O+WzfK&|5$7pz*>H|^1Mf$z2f*d?
z<&S6ZSN*#o;P*7kAf0*TqrtY4S$^QX9e0!t^1OO_Iq+g;(Ox)sZ$}l<u~lwME@ZCc
zK6tnhu>HzGhaRPaTt9m{f}+M9?Hj-u@Q2IUBW(;{qlobVP7I_&Q{fr7`uis<aEu_G
zs?1~02E<7o1BV{ci6=Rru82!}0-OOqxO~cvOEflqC}##v45afJ_wJOgx0WVwj3AxT
zZ!`4As3bq13onlLSdo8359xH=-14K~iHP89;~Jv4yQn<i3ztufjj`=RtE=t@Y~Ll>
z_NH25P&&x>MdwPoXnCJ;%Z;Sdi{nTPr*J48<Z*#-W7-^%@Cb167&Z!DS4|OubZiF;
zq{(R3=(q}~3?4^5R9?J`E+1rH6s#Wwj(=Y`nD<J`=5<NB-;B~hJ~#Fox}%J@yh8f;
zfB%`iZp!G9kJ3S&#{$a+g9Hag^~hz^LyxM8?f9T{{-68zfYvl|s+R&_zkx&PAnV~?
zXfS!z@o@_5H{?({$o<bH)-xh5;TCydzd?l3LDo}Qv->*l6XvLW<bt5kK=jIh54yP{
z*Wtw}vWxdNgsi~6B?i)Ax*ce#x-u5eYc3oR-m2eW1nKCWG*QTzuRZl||AW#&=A(;~
zv#-ljV*>jh!X0$^ARSMhR?2(>YHHuY7>Cm26xA}64l?Ia;;civeQ9+3FMfKDruVhE
zLpre;)e_t@k7K}oOdO?yT!;04Orwt!E=E;w?er>KNUhlQMwbuL`Sw&#{mOCP$Z(nw
z7j}~It!9)C^1SioB~Q<K#0A@oxZBl%PoKHvqjZotmyQg#{q@*dNYT15)|=cNhePQg
z=k9$zooPJRWKh27QM%&Zqh2{k=ZABIMhsVo4cPaRqjZot?;G;RKP*{Q-@N-eNqu2(
zXuu2IypZQZL2V0$9EZn;!E?W6lnydyOVM_{wF`Xzo*xE5I&|gkBCI`>)g^*m{Rc`n
zRa7CJ#d<Nvt?rAOzvzP+n~oD*C4zJ+d>yaNx?EBLzc<=^8(q%GeB8UPU(p)#5j=Z)
zlAPgk0Z|a7lgsS9U8EAEq4iqna^|krjw+;Mc*sfW;@OyZ;1EGN?Y9Z6LS6apz-jh`
z%cq+xBhB{5`|rRBf^<~k72~cODsTfw71DX1SZC1vrjrvmM39bHvdHVpf3%}s-&vc<
zJyMm_d<$JZ$m89<o9!iOu&YVMdp)5Wtz6FGC>`WFteOjA`(#yOe!oGVMwoH*tu{&r
z`MnuwzqD^T{U9w$uD!#OtbJqI2c?6oXH`e{#-<M0BmKNvZ#Dw#2y&3lEseE<M!KEp
zL$$r5r6spqc0JJLjI3vXgO24C>3HSBe5ycaa2#h1q;o~7ggbACn@Q}TEqh<!kCqRl
z^Mik9Z?=fou5Ncsyd;v6K@QUSb^Wo^tSi-X4%SFVe>ck3U3a*As+)BMdFZ~+$!zIp
zQim9%*FZYNdeQru<#l$>5jyUyQpv$SkPe^XIVO9n<ViIR6$@{k*l%)>&d))Szcf-l
zwd%D-dXbZVOLpDh@^M;QdL?Pp;ygw6c8N4K`A`j{lQhPs6=-C%GHfo-aklEUt`DTM
zHMx9$al1Cuz)Vo5)isGv4$`@Pi7Pg?hNj#f^S`an_;sb-n{fH$25Y`#TkW8dQMDR5
zX(usMgVI6XpMI6fI{NBM*eCG&-7zQ~<niv=|MY$Eu)o!*LS}=Ldt#|ZC>>-y=bP%)
zDtw>R`Wg19aC0dP2%&V4_4KB9hYH6~7A%C{OgeDZ+*`bXE@vjhdse;?tg)p{@tWXw
z$>kvHp)eHae`fZ0=KSIG<(MIlU%M#lL0-S^&xiG@)_!}<8ys;}+kvvC8Kr~Fr$QVT
z_=G6?>&cIq2MXQki9skGWIdSt>Qu@JNuSgnE)_xbr}wo{I>>rTE<M*wKl+yNHCl&W
zW576?9MbVSdiJekv{)th{rAr6=;n^Br#JJ^=Wy@Eez)0kxZVs-yKs~aGN02!Zk7Ls
zy}Jsks(TzhPN#H8cMC{2QqmyZN{FPCG$PWS(j9`7ARtl#N;gPKcb9~e<o~(h_s;Bj
zFZS%~bNS3X^O?22YpuQaIdaZ9U5P%r{~dXCkPdJ>x=;6b?_S-Jeo*9QH?OGJ$A##`
zrKf64jY{q?<^~f)2kjFNzlPR_)SK^AE^;mF?c|V%xcS_NIFJso&!imVPkc;&*($w<
zf+9j8fAk?b6CT6zRUc4<)hH1&-VV4=(m-^qb{I+AS3X{O94*jHzU^JuvW3=1@W$9(
zm(%K54|RZOca4TiF+}HM^LgHzZ3#q=bS|B*<&MPG5S<k55pNouTrcJzBY47&3L_SX
zPL6pkfq^Fe6$ge8hpq*q-IfiwKEQQfAL`{y*lif_+$6AlgZ=DdB}8YA8-Cl>o=YdP
zcrKkA>0H|rqC*+<Q2DJJoa+yZC#B~Od3%x|9pE_)@x6Mz=2s?dzce)%8b|mH4x|Ho
zpQNoF5ltW_d-5e+HD6iWpuw;;w9XqTmv@MUuLf=#S`HT1gj`cWI>7PhC5MQhIv+Mt
zAFUN-KDBJO2I&C*{gkfX`c~_}{DCkRk-B^z@oNQ;4zP24@)OT}dP0HTy|4SFs;Rta
z5S`$}ERRn)3n>)j&LLSb%-B6v;5q}p7j#wr?Dm3h1L@vbg6POqzMn&KS5=gsWG69;
z^^Um!=>Xr4qA#Z8d1U<P*}by`(Yf`?7sj!yMyM1k3}QIx=bZxS0MEN;y}F$4QM2;B
zlMB%ib6j0QR6bz+sYWWJ%6DXA4blPbpR=RMWhOEeaTdI!ljFX#Y8H?Va6d1YC>sWO
zj6JnOd7PZ3n^=Md(xC)AXX>IIOr8GRk%gzc4SvfJ7*`C^0iIKy=m?}!kycdS-d~LG
z;U>^LK{~*{^GtHk{<a|%yGdQhJ9hqec&iemgAbTjQggB*j^Gvny=v^+t=B<wVD~fd
zb%A8AO%+$&Y~lU74}%;J@cYN81Mzr_;+MPrsbj|@ia4Z!z5W0{H!+R(HSY;g;_k;{
z8u=L8*<4AG*B{`#E)(j=Vz!?tzIxz?gurZoKmyTu{UteA)IjXR4Nekw%2BVuA;><!
z-^C*)to=>W@>kNCG)PqI&ASy-kmCXF!>BCm6&oKcj;zo8Ou5@!u3R7;Qo#Nh&z7Qf
zI@-iD+bbf1`{CMC3DO|~I7@P9eE$k~F&0k#4qFD@c;bS*F9WX|4iwLOS-4l^3C}Nu
zQ2G>+z}}aEj->gMmGA|=3%aNC)^9SjKE;8Y7qD}}H!U9~idr#Q-~OmJaU(Xc>jfOo
z+LU7O^xzkp@q!lvCeG9aG$6+VJny=rsw`uvzBR4hbdIjCp5%gkP5_=SIvo+_Eq<B<
zvg#<$Umq&|LY<dngogH#glEmY19o1(J|y(Hib06l*Y^(C`#aDH#7SP=L$ph|cfj5U
zfez83fl}KgYx%un3i7-Iou4a=AIK)zGVdK4h|b_gjV>Wo!?5K=|L+=9#ebJ9!97O-
z$5YsCpqQb+8M;Kdb4Hhmhm;G^Sv$|7f31^>dGDA)bZE@gijA{K_03c@msZu`v}r&(
zz~`Tsh{=-D?$<5%&XxtZK0t>;(UPQev#R#qsf6g*|1dW8QhsBlZ`pIlgCbw;3DN<s
zmsm_1hV?Vr_Qb`D@KGiCK_Q6FCDG4I(!a>M_s+#DaD9N|*`D)S&b%hwmM>9KAy8}9
ztcU2RVy8!*j&Jwfe-EA~M8^-aANK)W!0{)mRNfJ+jS3-<4shKMg1m1HZ(XooIbI;d
z@NdY&fpma<)}}OHx#m_nS)`e`?jl6@wU|TetkO17tgg)E2LJty8yWUPR6mdoa9%In
zed#^M!k^o}>6aBjaJyCj=>X@Yr{>;S+}evC_kO;vhZ|Q74Wt7cj{~wLQPR?$Y_CCb
zIAd$w^6*P=eSqJ$%ry^p*Zc2O?J`a|xn`m9bPA*c{66zv-P}%v&TVOO--_RrT-JR8
z>i|Co<T?^Xra&;6`^>>>wj{Il=mO+;fb&usLw(u7l-qfK-GBqx8Tj0r^f>+^M?E&?
z+{9-13GJdP*m;owp6gbR$;aa479x;Sr;X7gq<Kw2jt98zj;kl@4%l;ps+Z=Ux(AYa
zSU@_!^?IGdhJE!!j!L*r9LK$N&H$_feEt4!Q#`l7bD&~$nTjvx7a|V{$ngOG{^vR0
zPVYHqh@9V#5Xx%#{2yS~3%Ksj)p_CeTSRZ3iE(-*2~rJ1JzuFda`3Wmw*N(E(0Ck|
zl+J@aU%<}u&r6P-r>C~MDA0d}=jeojb%6iA<Da+0f$Wt3@BY3+1F|#l`qQe_aU=bi
zrv=|bg$2jMb8rdd`2srlUzMz6^DoK_9jVba0=q_YK{~+mrTP7dXNkAb>|aH}boYk|
zuAU$r;CMK-wFG~u7u|Kg|DxSzONT84(gB{YozRQ#Pp&8etE^*`NGyEZ;XpdT@$@25
zh@zLheVNu>;lguMR?uPw?)nULuHu<JeLnm`&_@(oMhr&_@Pp_OU)nB3|I_ezZPykW
zNCodE3DN=f3D!;f%qe$EeD9z^bpDAR9tWk5rr$fmrr`Pj$Fna+eKb3e|LxvMh3KUH
zBj`31KJ>bGOd&cC+~^<3%i<Z`J1h{LNgIyC-H{QDd*{#uTAx{isiV87fZz8{Jw!)t
z3{PyG-+KAp@q_3fR~7f`GtkZ4I|>k;Z#CFb`|X(j+t0WVoqpEG@4k2usoale${1Q_
zaS;(W-y`ht`}Y%aK{~+m&Pl(E0&h@U<U4c|rZ3(5$rPjmyzfYv<2w~qn}!n@M=Oi;
zORj-+fcMk0w|rl7kcmgbTc1=2*u_R$gB%a={b!~JzvR~MUUq->rpXRUV%kvv=>YrW
zzF@yCuisnbIU6JBf-h1+gXqYXgoU9F*bk?{iC;5Ozj)R20^GU-pIZn!>Fk)09kucY
zdXA{iFZU`zI>0^}(T5JzrljF<I|-y~FIF_;Ksvzp*>dQXVww;Ji=U2)AY~RG^qGQm
zfY;U6)r8A!*a7OiFV@}<e3v9;0qFq8V?FRQp{E*|`N4^WdtzDA<;8Pwoq_8vC|GGm
zM%h<QE%}G}eU;`!Jwzw54#Do|&CyZ-l36hwVqd=}NC)`bi+n*-Bp_RhHfFn_)wW7R
zY7No>?w>CcAuH8qb*@WsHVZS)ACIepbbx(=EfzaP9yq_`2qWzsEUUi51?d2v$C`HX
z6%QO2X*s8g)Vgr{JhqI$tru|roai<M&0e=nd8ZW!KP)FRsRZc&_s^rx0#PeEwF&2q
zImWK1CEb1y9koW1DZ_V?mHO{#PSwed0@Xn}z<FW(_IpeVPeeE<I6gDGVq8rE(gB|L
zMP3dQksK{w^Cd?H9ho(c3qxp~Yv0jzZc@6C?yTOdQfL1_YJupO;jtBop-E0!OeykR
z``X2afpmcT@Skk5zAYv{A?C|LPI*thB?XAijk-o%ihN<5_d~*;PZP0{(Lg%D^_uag
zcaaRPv0n{c*o+}Xn;kZQ)_GFBjrR=k!Q#h`J#0UC_0d$24zSOz@~j%1O!&v=g;uG5
z)c=O+gLHuJCtyX+iFm5%kz%SbC(8}W?Jj|IfY&j$_g(XwpEDk8tZsc#E*}yC+s6s;
z{szrF(qDbODvJtQuUDAQjpNZk-Y<ZCEN>?G#o;*i--H&Nm?Zy6?*Vxo13JIQC4^(0
z%Bn~wZoKWsrXGetbmG0SZOf1&tjgbc{BlOQe5wG_0q(;{nlnjqY{bXgPluOzkFmp{
zUZ0}}wNEst1)jeW80QM;B>n*Q`V8#T|D>?;Ma9@2;*!SE$opD`VvyG{phIdGPr}4^
zycbf1&XyPGg<}oT@tX4vf}eZYw2{3fz@U=a!2;1?>zO$^WqCK@n|EY$q<uQS1@gK9
zoY$_6q*rR|+hF6IHZ@ZLPXA(v4rAVGLCLwCkCINP*Y3mbcGe&r;QmoaRlf`kKynVK
zoyI^}{cg$y(Ft5c^2Cl()xUQxKwdY1<I(jc*cLn19lUp1AUbftJDNV53P0|hFo=%k
z^+Cg}m*UX9qYlwQ3BcxMv0E0scSs;Q3}pUHir+8_?wuulX!o7#Uj>u<g6xj>PBBEM
z)OXuxtlv%T-f@EH93JFcvzAZ6-#bDO9Vy)$u}o#R@_PpkqQfrH_##;~JoVn`(Sz1`
z^DJ4Kr9*G--id?gJab#TAj270x_9&;I@X9wYFWR;Xzm>vh)yb^koVrP{ocK^r3<Z3
zt2^$B*ra}ou8FoVG16E=B}B)8aFIs((sbokG)hdhJHg!(qyv0iU|#rDJY?D5?A}p;
z=zNG8y~s#Qes%AVKy=Ixo%Fv%iI?3wTRPx61Lw7>PN4EI*V^jdsfXwoh9)gVs2(`n
zJ7Ex=Y_Ym_@#+h>dq*Fl6Fd2LjwWL9f9u5p)v3-|GQU`Az8}wpHnh&K8w|NhESvoA
zogRn|<>O(;mv+R|_f9HAhxt)`9vku5|Hfkt(J`Ox=OdxP4ZI(Z5JacV_2FlZmgwbs
z2MwaLrzxAk-{ehs?@VbyTdyafX?|kNb@TU5F+@izbqwjzDBJ3XQvIywOtC$lARXZI
z&-KzFlN2#yz%vmWZ)BOWH<BP7;B%&AY^TYa{s+=Z_Wf?%BKiw(5FPk8(&EEI%8~a@
zizc|v!144L&ppS7%U`~C{2)3uzQ6OP+MAE>9Z87JLstAa+2<O2_YNFH$J%7&hHLEQ
zV<hTS_yUPHaV;9q`VhooXfTqEx~1cB{;tZdjPQf#1gcVevmc>CzM&;+j8<LqlmzJj
z?-!Cd3(H@Awwq*`uKwYB($t3w(gE)0b9Q)!KdjUhD}ukJ2qU}%r_`bKq0iEZYy0Pf
zh4ZjcpL}!fLn=h)y_5<8cA7ZPeP?}$&Rh>-$k<cU#rt`YKy={C0=eoGJ58s(Yud@4
zZeC5PLF+?UB)YFrD{^}8q(XFF6*_##wEhuy@90Bx>{@^6_R`Z0T<Vw|_GOYWlR$Jf
zL%%e{7U#JRIg_2RE>Y@CJ%iRq@wxmFnFO1|{k&2^I>7zheV4<N^tphIW0G0e@b|ZT
zQ;-hudKk`O1&^PB`q+TlDtAv)x|Rl_^J8Z&AZ*LF^wu}kV0+?PZb=ndAC%JlfX!;g
zS=+~VS=!I5gK{A{t}R$P<gx)gt*AK$!Bb+jrVyP&>Fgs^8C7q0hFu%Pg^)BFh)yPH
z$dMW`A3~@0;fjy$v)&~YXnndrI+i8*PDKl@@h2sJThh*j=%DSpXRU4gns@6fR7BBG
zIy8mobQ!hj$kw^XKW#$ar?A~Cqk-sD)v8dh;|K(_zpZ&u5#_hKqztXkb+>hZOW_~?
ztgy{uUf-afxgZ_j`8xich^*N4*QNNeQTD;2#+Wro2Y9|VG7k)_mBwx|y}AXSy?aT;
z0@0ZiIW;%cOj`3-VPWtUc=~Be30j{3_pqeTDjuf-jyJ1T*65#$Av)UTUw!{gWHNXE
z_X#PPC;6+^5S`T(m7Lx<5hlD^nt7BIj&c@=4q}5}inPz$w>w-q&Qtqh*ISCv`rvo!
zU1$ZDIA9Ef*k7G+6%|8tz6>Nrgn#nFmM$5Y>qN!4v4-e)YdQKv4c!el>IVGS?|k@y
z1)@`oK=8&r^?}oBM7Z8_D&dYT1!#R()Q~&!(swJ_?8*Kh4EsbDLv*H77uFD_vn)5~
z>r01=IBcvTIs$>}E3MgZYuJL#|579oFjycuDSy!$8SAH-n+bnfCrNK@Y{^6GLo^@6
zJtjlNYxzx?i88Z>xfr68G8T<P_dK8oE@B;rtF05>8lofgKGopE*J43k>yga2%hy9J
z5S_w@CiC1`(UJSi-!QXM3cR-Dp!I>fZgpzdqn0=^7(i-j5tJ;3=s2)US6-Ij7d<1e
zM2Tn3v9gBf{E8t#b@@j}W!7qATGpjF&H~Y?O_<=d(PaOg_rZyzz)0P3OBPxm6vXWA
zk4QL#QFl_Iawi)?#Sk6rA{>->bu5?mTao6Kt>TZ?5S@6M_wReMk6CBv!#+h7>E^IN
zbnNxd&6?2+%HT<|s8|f?;<lbb>q9-J&cyB;TUjOEMy7)B_kA%$=lvERH@!vv>&5qN
zsYYz6BGwQc>&MC|#ymGq-kEKGefC=;i3OsQ?BI@2?)bZxu%h>Ry-H$#O9on>Xqm+2
zrHJVBLWJ)FshGPg#Sk6k-3|{SIs5g3jtKO+i6l{Lh|W;<d$EXwZ!4=U-Mo&&`+6)8
zod<bKwyLNd;$KxHs-|-$Gq<Fn^?52&Ngc777Wy@F_lIr{+sk5z&i-<bL*jR=Psqno
zv{<4H=++P&pO}YRjqM8!kvfVjN5<)gED)W(wzxyWy{%{S+$+zd>C7K(NrCGFeD3u!
zThGHH(O#uFOPzP%pR%t6=>VU5-8|-&wkgg>o?@D>OS+)oI6-ve0;)7{_uEDV-ck6;
zo@m;0L3G@#m7BPlDvl}Kw~jY|r9VBC1lI>RFVkepJ9jR<>hI?3?MJzd=amp0naYNU
z_9E)=7-K7A`u%}BCy)+sy|DZ^OZA_iS5FHtN3g$foDzcQ7-s7IRA%^6)RAL{_Qw86
zIUGm_*k>;|0_Xd{W3_vyMFLu9vSz2}&Ytr_0;?1f3<3jTejpuSpG*_+L;FsjCn26H
z1Fn|yItmb-#>l8V1)K<;%Pf}24@;I+xDcI_3#O#H%L3_OR%-gD>~{lGPoVYD?6&Bx
z&qTU$E){w#{H@A86{3Tn|4oX|JRv*ovC@@;$k%gyh|UX3Lwv2TkE8Q0V!mds&(V-T
zbc9(>#w9+gyD~_BTvub+_nH!i*5?g(B_^4zo#x4+83m(}0DUS%2XD$w*RZdQf4<^V
zf4!?hm_9^jl`8o3N$3mxwvv7e{U>AOBp@B&e%8S;e<HiXz|3u|h!YkkpRgnbt&d&b
ztJ@4jivtqE5S=?M^PyabPC|<<{{(JafbrXEg^y3@-<U#l>VgqoAivKX?)g=eXoFeo
zLj%#NvJ5lZ>W!B(GQjIo3e7BD5{1_1Irs95OyVp38G<ljshv6WT!>C;j_PyY-OV>S
z*jdCVkN^0XLUa(Rd*hS7{P`@=kc#5<Qj(hnqBH;R$HNY6{eTEcn!IXH=ZGZ{Xnh37
z0uCGSySyV;G4XM}y^76+=(s#rpycX-yLfn*mm{c}gl!7ZAqw45EQ;e2;dJUN!;A=K
zrh({S1=>~7W2;9Dv{4MET%1@f2}A3nQTVX_(D^ZcaOGpIMf+#Txey)7u@NjDht4r2
z=3W|g%&-nqh>lHZ2SRIqZ)#X1ojq~V<6atw&Ta_%O|kRo^1Eg_lh@Y{rb|N5`iR<m
z=-SIvPkXH1mr~m{N1Y4NiQjeRq(l_k3>3rMmt=hP!W5z-nD#Mq=l4<%Vrn<>*;7?9
z8jud~^F)6_pTTe7A#O207Z&CpYB*#8=>VUj4nw(fbM-g*gUnhLl=dD7ZwW%{yum3x
zi1J31sB|C<(?|!yuNa~ud{8k;svRX%Ohrl5`)fJR8ln@gQ_kVW#WQmM{LBK<0e-H8
zw3*}GBFRNtSK0^v+kwDsT#yd1^Qt?KCI8sv3Y<JbYFs>O$*=&l&L20pulgMW1YR!K
zu)6x`6vaVwkOsa=c~19cbt%n{rEfnJQitetldM<`j}`wI!f4}SKA%>`h3If8Ub%dy
zrN_O0oifZ1t`G3@AZpHt+P_VOl$dg?NC?Z9eJepaz~>)EzcM!LCmg)@uXj8_I>65X
z<>F~%3>VS+K2YwjQ50s*R|n|;_s>@heBOzqDa&#yRE~!)UWDU<bb#~18JhUyi4gKP
z=IyRJRYlF=6d$<Gz`vL99C%UZk~hG>GdJ*s^r>=sF-Qm42QeaZz`0uG<zvAI2Wc3M
z&VC>rU?1)@6CYh`c?TmpRbFEA9dSvJ4)Ajv5kc*fDt(A`znp7c9GFKx;R5LZ$3ros
zgHuGMiYhfDN26BiL4L>!t~2oSr}kdfw}rw3nqS69eQlNo--C64;}KPiy0G#0cvg0O
zAh~mr(p(90JV0lHTtMCIZ~R;zcG!^5pz?teL<g(WLFCC--LkZ7bezb`_X%7e9pHWN
z?9dn2x#vN$kf3USxxd_7A&?I6T&UNhx5to@e+#};D(QBr`vV8k0iKJR*d&QV&!Ua(
z{KvWrXF3PNJmA(H*xB^muYaxib4bw~wN}w@RvY3VI_|}CTW#Wp&t6w+^D9xc5UWFU
z2Ay>i#=o!EX&r1b95rpD;6ijdgGsv!TRtEXym%TYF&=v`%nhy2tGmqa8G@S|*5Qfm
zZbOwSaUdPwy1&-Z7|C}sDpSkZLe-0v>D3460N1NOi0M+f4u|!eD=y#iiT)f3L`PB5
zsfenOis!WDu`jRQ3Gx&dxIVyn^<IfI8YLxatcVb?{3EAe%LVBG=T-VhU%>#0zbXT6
z)9V>R2%jlLN3F8v?L|ffCqJ$!-tjt@Bn?DIMk&z;3D<I8^u7Ae-`SZdOOL_z0nV%b
z-&B3!rL3i6UgJdNpVjePh)#{#x5Kbc3hCSa{`d@9kwvBu9h`=mD%n4m<(fV8|K25k
zj-i3*$jRRYkHoPFXqS=M6f+JoEOA2XbAA-0EpXBo^^sP<^G|z6c`ii9w7HBS8&!Yo
zZ=@~-{i-LDDMSYe4%rS@G%LS$8eI<c3*iC{NC$W>eA1HlH!IydpIu*`2#OPDY;l0=
z19Tcqm(Cx@7oJNkJ7bo7+eoei=>VU9{PdXQ48HnZ9U#3`@ueU55(d%%j>kt(|6vGx
zB<W_s*SkuBfGBl{&h43oUdWM7q?m91730Q41_?yR$8+1dM2tLP{Af|}N6Ea(5<9rg
zz;n94vbYl|ikYolE;1nRsZO5@(gF5))9_f9JNv7itU-SC*1vC=)*v0=>x(oSK8{n`
z25Qaa{XkjFlsyHI4sbl&M-HJbPABLBIktNNas>RiARS<z!D~-mA5@ud!Y?larLoD!
zhaW-fZ2T#kRe9tAX*P=n8_8O3bsR(|CsVn<@+hf&;iDO8|EEVO>JXj0nUMqUZAxy&
zo!V|AlKv)KkPh&C&2#BqU@@}lai6HrNpZbq+F}FO2j~<zJ}26buBNIRQ&GM7=@Hxl
z(gCjfYhIFgza$Fusr6I=BwDR+VGtd1e`dVL(|kwv1_fTs2a4nBARXX-j{aGPJnZ-V
zCXw=I4vFL+5-yMqa9)a$hp5{mvTBw~r){2}?bk0@!F2{Y0s3PaicSIHG?J%R3qt!j
zEg&7>dNK5VV4y$wuGF+)44*I`x0DLf0rnxNWsRxxuW(YOYX7k5F%j<x(gDtEjOmRh
zF`@hpJyUo;m&=8rBt&Pub#_p%9%=eVGmfF&8>cihh|WWn0SD3wQ8I$&Un5=irqjbL
z(AF!o!2e74?uD~tNOzEtZ9z>cL`R4x|75H}UHF$^*j2h^mZ&L62e|HAHe^4s7G<p*
z{3tV#YY*v!Ksvzd>hNSVGx8@mlJmef5Bsh6=r5ST^#M9Mm;;D}dAA(}5!2<%H7(!k
zAv(I_mC?Kr?%8=$9I+<2%ekHqom}Ln42Kq3jGX~Q@y&nPaD^Z`H+wm~ulO~wTWMxm
zuPD}-FPNb9`Ma}ZrZR;QCC1U@;HZ&WP!G{D=@jE+rmUHNYVkx}XI8ny6QXl+8s=MA
z*jArKEyc9`Fl0jrqQem-l3xd}C#HGFv4-G6wSB<|t<U^UJH0Q1FBQQxHrs^V^MCaq
z9pLrH53McLYb=v9gl)sHHZ8r!52OR!&x#xCV>vj@LLQpr?1OK%FC`&581=?M%;HsB
z5x>$_PaR)%!$EX3Y<}8kX{jOEx&A&1YYWS3VSv_|K!azn@>jRnCBCrM55{g8KadWv
zvp7A^g%Fd0(v`1bX+(bJxB^6ntNKr2d84U~+s4LSn6pYgE=0%qEms$r|F<`%+$fjV
zG4@AO^x*mc=XI%2awMx{s?*HxecdhhVK*0|Q<*U%Dy_#OLBr7Eg-%~MZw=82p`1%a
ze)j6ynZ?}Gm{sC5E|3oJe&K8s+1|<ZaS$B=u8J;RIS>t`1MG8#V8zsmtcLo<?iMcG
zyM%g}4qE5YP-ktlb0Mj#%olS!Z+G@nK{~*B{kFgxk6>lFLVPOg7%?E)<OI?Io_C?B
z<2O^%)~{J3F0=&+uu!=mI_xFQ7uXdM94`;m%CL62#t&)1^#P72qp9N|D?)ayOFB+I
zJ&}KHB}Av+BmRPq4YjuUqB}cTe`ehYqO&Gf@$#LSXX~?5Qj~B1Hu1P1I)m3W4G3zH
zs<v|7!S?QT&kt$9^#MMwZYbp@kH?Sv@QBEblXtU88V2bAJGVTvrCe^Z5cg(xV6trZ
zG7<;U0iFvfs@5Nt{zE70hw0xR=!zTagLHu7A=K?>rthh|j(tLht$tIUM*`9Tj_3Ay
zOd^*dJ1)v}{M)jIOwJ{0aGinU@r&vSaIna3+_j1ATw4m2$c5+>c&VQ?7qUCUTetRn
zFnOJ53emx0GfS6f{psO6$C--het}5?(gF5S4lC8)iSP(u=^xCnM4`9cqJq{(veM+O
z?RuJJa<RTbF$yVjF+@l4=r8Mpx+y=^I&r}CpJ8!ph>j1Y=KD~C-IqcIo~T15duc2n
z9bg|OKgGrG%Z|J_x|Jg*XaZP=l+gM(>eRg%3+p(QOry=n!eUXYgy_tyJyI5#m^Y40
zfB7{5o{`=Oq9aqn5jc`YOe8Kb%4nqT|C<Y>1N`?dhEPMCuF=KnMqI_+@n&R0IEYSI
zVCoOi_96sl&#V7FP0y_`OaZO4kkBJ_)a-qOW}V-)RED2k$ANT!>z>3`_-YElanO!w
zvWlmXj!GY-1H5j?UveN+6PE{jciX;7({A}i0@4BgJN44Ps}P0=qxa(_q?bbu^u1^x
z9pJn?82UQ6nHR`9n5MrmpBc3dlSAtqWSj13vX5M%llW2cQE0MR97Lx*&mn_{eB{r$
z?FpgtWgwM0M2GxQuU4BTV%#5A+qTkHCmmdf&PB}2Pfg=7j`2epe=A=w`V5mn>*E=5
z7_^iuoz9fRnXR4mA|MW=16;45=*qmo5vM>kf#I^zMXv^ZkPdJkR&H<?XkZ<B1Ue;z
zEfg*!lR$Jj=Vyhlr|qiZCdkoIJlu?@NWt|1KCg;f)F{wYVPC5SrsBoF3pJ_)=>X@&
zDjJKO(y_PxhuYVRApp6+38Vw;>|xcp8oFWq+?`?RTxaCvdm)I9*2h<E56MuqoU{3-
z&e9G3z=3pt^WygT(n%aLQ|Kt?d6h*cLEb_Ft~1ct_}aKFovszV)4E+*%uZwA2hsud
zsa$wVo*a~jOxPKoyV4O=p#ahWj>mG1C0csPw6|(HSYZX-ZU_ycBX!4dlxLxYmniOX
zo2Ei2*7FctAK>r0<~GtIst9j$hAg8o=4<5HErE1^_rc65YV9F`+@ck^4*r`&t-(r&
zPO;As`KQ~yJFCXEos8UDD?gA9@O43e%9IYHtA2+NHhb5wO;oliNC&v?O$eT`D~F%S
zsLbH?IEPEDSU@_!b=R;klSIoH{&aoz0B_83%4&-k+<F0>!8KN0X3<2BNLrLxB&v4w
zVu+5=5c1Q)1QeOA&8p`z^DkViAv*Ki+@oB^ILa3lT8qO@^@1!A9aihDVIy~wHP&M^
z%uN>&>@6Z_eTZp`L-%!7sVc=9&AqA0B#I$AxJjv$kz(0r?<YR+y!#SoZVl0?h*}Le
z*%Ch!F)qNa&t}JE0qFqup$6_8zOt67I|3SZklE{1w?jf`eX1=|E|tDz#|Kb5D@Jn%
z;#ER)G&m~d(Fb!X`vXaSn8b1<Ize<Ik^{PQk8GB5e69q;>%Vt#fpmc9-S~aNw*mc_
zl;fB>w{o$5SzL$?!Iw9fY$*%p;ksP4pN6W|4hg_@20pLu=)rM|*JbdH?If?dVhU?4
zfpmb^)goTY2zP_yjwd3Vt&@iI?v)Uoq3*RK*9RY1OA%k7XOxw7_<?kQovp^JL(~f2
zzWCpD6{G|Fz1pJy#g5V(wwanm$+zb62&ye09pLY%1}3dxv=<Fo1@et57gWu})Pr<@
zzX$z2BqV`Dubq_tq=!RLQ=Ap-x&z1KeSpirh$u|?^<A$vZWoWl7Rd1cf6wk8;a94-
zC+$Pqz1anp*e{#VAnxZbLO#3=p`Stzy+w$#-M6g4jt968%_r-<jJOwMvSzzqz8+5F
z1KSyR9aHCZ)NUN^y0p?&5qwNs(FS%O;sCxkeuUrXy}YTvdC!4%$b^f~Yp~}6xL&!V
zPuEaKtLS_1o=W>Sjvp6;Trc4MA&RsP82?)F`zEX=wC6iQ57_e#91k^3?lX+lDfQ{~
zY#s@5%<L(U;{iU`85w2AS62T`zJG23yPtvQodQu6BaFX6zsJ#M-|h9*zhRK$0sdXL
z85SuO@00JemfQTR94a;OU>)FiUKkC#uw*39)*vsEU!F~yfL(W>({j*Ik*@nvtyKJ|
zE%(})Dh}klfKJJj=1wu<L#<7p(ZqfF^J*uM4zSNm0H>UHH>b|L8|_sgd6frP2RI&*
zqn7o!eO<Tv=S+2w;{l#iTy}}>;|5#N8vz1Jtr7QD5|9pXKT8^C*>-4gqjrZiI49Bx
zA>)E{fam>EH&Q~!e){LXbGOUkQw4fSkPh%VRxJBm;^@ko7m-X+b(<&SA=vQ%`xO3t
zei8i3xjJo6_0#tLbJHn&aL)<A@kDxE>O706&OY=1#w6sGHd+kQ0q&nS1ZLqDmKDiS
zI7X>rcs%Z49pL*C&YYIpyA!6xHY`M%`do|DejvvKe4P@6Rx6U#)$<EyQr)I#l~zg;
zqyy~ye&FL&G%0zu_49OA`OzXzG>{H(JfeS%dbpeUi_jVPRg7;LfA`>lTQ8vV^LL2G
zme;rTx6i^o8;GVa!azE}c~zzUm5D%%OFU^aZ>wp76H^E20LOC@`PG%bO?6rMs%NSX
zD>wufqN8FN1~1XZllPLw%2}DQ)pHmZTA%5J7RH9uepx?K@3vsv4y-tc&MX~QEvXsJ
zT0@KimQ1GDmO4a7yu;4K{D-Iot$+mXcK){`T!@Zr^u=$KBdpT72dkPDmAItCIMDk1
z4TSsc+Vg$w5nuk1MO5N$97HEzzEau5E~+akB*|k@me5NbqO%d;Agb&-&b;|3FTHIm
z1RWQmGmvNT$u0fKG*9b41o=oS?_q3ceatX7EYewPt9V;yMERCJ@5VuN?nJc>h>?m5
zbTfRD2=uSj)FC?E>4gUN>yhGws|;;*gob&zARXX!zUDQNQo86{Kk>wKbIz7<uO%#K
zeVP>TGcb<h**!7&L+pHT9C9H#-*GG_LMkNfjup5@(S#0AO(8m5_2@H(Ibp&haMv<S
zb6V{*5FM!>mYdBo?WzI6g1rAyPz079fa?Rit}>!rUU*-eOdbf#@&^C+IgVnG4)D54
z6W}_Ksk-6v_3Uj(-h011Ylx0-UfaCNZi3nU_x7-Wbb$9|CYJT?b~HOI=K0_s?<Qz&
z;6OUSc}XlwbnVw0{lD)K!UWeDIGznu=6~OL*($XfuMFffV(wBwI>7ZZ!N7U-cDW42
zHRgw_1>+!@DMSbG@(}i)umZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3GumZ3G
zumZ3GumZ3G|DOVR^kqn%Gd0Pou`^t_ArrodI0*CR9*>*(N)5G3nxj<2)a$|trm@*?
zPEQeRzxq}4h8W|9pNK_tuO4BV^c6W9eP_P<aeb!2C-I{qnVM#hoh+PYq?lvlmNx4j
zHKXk*D!khwLo9L=BAXbs>8^^2Fx3x|!}7yBz69SX(veo0Y1Z=uiyqBrmVJdPTW^lE
z7=L#;>sj=`fuvW{JtH1&+QKsU87)3yDyr`nC}`OEK1SA3NH7&@1rWR22hbH-xocz=
zyCL)M1qZ8c&#Tl$ChC0Q7aP1br0&YBK*wvG)8Z_&eItOZHW8B=qQ$hKx88e7i(eD$
z#oZHh&B!KUvMVlBHJuwJBE&%Np=G04=z=Gr8v4TDjU!X$Mj~@>ouKBfY*x)tS@}Fw
zD*YX?9N*UP)bmwNviD9`*iu(T`E8Fsykc##_&3_AOrJ=;NnBQSH2ZFJ#Ew^CtRfVF
z(k=X^Ttxp-*}7`B#uXNibd-|7R&J|ha7e_ftk%*AP2mY!Ha?@%(&S31{Y9PRsOYh@
zIeF8^tpW&IGd0>}EvICUHmQ9M4qg{HKRkycY8n{QJ~p&v`s&}LQdq&Xj`n@B?`Vez
zqefe-d-IvK*IRx<zX8-XC!{+z56yoXMpy7}NdlV?khJEp0?Y|>F(Rsehz|(qo<9rv
z;u-vN!C=+BZ0mH_Nm54zng8Qzxu4vGI*(cqX3mXIxvURPO3rFsgLP|&b%tOwV$Cfk
zSEGkqv~xeE=geUG3y*vO+z_?95C1~?h2AvIR_|^I*|;|fitzNrkUcPFh_C<ogT95j
zHLhcHX;8IIaVbrYemjZesbx-4tVxkG+hbXw=BuZA61QoK#<=~&WeOyU`mNLk9lX5}
zQH5=vG>LPHocD0gKmO2;<=hmkyPZ(&y~*jww@L3FqL0iHC7!(7T%6nN?_B%0JCF6I
zg9$T*9nqPc{d`vZ(Ue;&K9yE46M;OJu$EeMIp)fjk|vLe<?dG$af>~nTI7C)@fD#u
zb44>>SHx5e*uApR9XT<(w9nd(IG)dQO^>A~K2BYGMEu@{6Fb3Sc1pGQ3%g_HL)qJc
z+m=nn0*8mk`pdWo0gq~PE!aNS|76)~NXML{dSlL(%AZ~p^<}C|W%_Yku5_c;#gVf4
z&(wUY@I`(DA9#8Rqf5bw3SQ<lp)d}?Kl_%0*f+mvH?ih<e(?r-O#l6k#(bEM;d*;U
zjZ_j4>x-Lcz5cJMT+Hh_0&fIuGXYL_-7MK5#|qbH_T0B=%R7RxF(5S5!Ik9fbS^JK
z2z$NY`K3ucl8o&--A-?32^$+dcDGkH8&O{RK9}p%EJtjm%+Lb$-wwaz#vl?W#5@Cp
zy4={Y?bRu!Giz1MRy0>q{|jL+O+nV~bV-SPG+&oEZE1ER@lUT>oGk^TEhO%mv(+rO
z7xjGGYUv-R;uK<gYu;7t=rLB02sdA+vbuX~?S1G)v*e0DJAXAjF~GwzudI{MJ(4O8
zAI|w#MH9OLWBG@dv1PBdn0x_e#5>vIxOR19sdc&1gP4RRTeCn>L#OoKKOJN|qGPsQ
zdp1oK$fxf&*;T)1I6U366T+zCPgY6IDiOo8YUGHV`OzDx(L6FbJ2oAd<lNFpHhZVv
zHpl*pB>5|^wiWJQp(ew!HC;VQH~P$1C&L<@2N4p<p9DU>lS0Wew|s@#sf_fz@x=rS
z`-J$rJ(Ru0r9<y(N_b&GZ!SyC1&y_@Vl}ZoE63SA*ZvkO@AB}pE@G_fz4j|6%mhjW
z`zoVtk`_Z!RU9X;Lk7$r{cf2SD`v!=DfXc#LrDspl9?VY(i8oQQYLChob)OQQ!#O9
zt9_^JZ`h{_!^nVqSqCApAJ>!0#qF-Uvu{SmF5cGb8gi5)l&}9LuZiT-@#Z(%lx=tU
z=6U5D&A)=)&tT#d67ubp6fb<m0$kTi5qw=kx=1XI8Wi@@9g4Q>0~=O`x#-~2$kIBr
z3v^a(Uo-zelAw)8ni3zAN!Xo{@=ay>_GtTac)qF=k+4tHy2Qn#N2L?Vk22zyewAS$
zeh{F;S!FGy`O}JS*<DALeW4a1tRvD?t=RSvsqQbi=PmETsY!Gr&rcQEP1l{m{^%m=
z%vZyIH*B%DpLJe-_Dt)R`g3irkb1>Y$iIzXW)jVtAS~M2Uz4g;EB+O|x`*!v$X~W&
zH2y*&z8Gd0R50c|@R-Hs)rR9JKq!%)`D3l{+AE*7JZQW5IS+-sJm<#taypwe9Ovh=
zMy!F!fQd!l@9rPunjEfpq|Z`Q@Tz}(AIN=VD2BThbT*xg$Cs%`O``wxPB%1Q|5TdZ
zZu}YiGA7cWy!Ldbcb*eTqJjLhHG30ir_Ri;gA5A}A12f0&Llf_*pmK0-|fle*Z*_t
zm%{cw*KaOsFz0QHRbpjoyKkMNebEy~N{Z7F)bSyX6S&I0@Wk$@#604qP8&vX1O=9<
z04d&=%?@bkza}|y#7W0aEI&uM^2jx36TR!yA+<D_;%YBGrxsV)oeG<?Hv32{S7&fm
zY)rT<W??yR5j);v<bQR{U-^JZO0_iRTB<99te&Z4mm-f?aS-E&Vf*+R&wSjzu5{$Y
z6On=^n%n252T}|ihOT@bpTA4})lfj)J}DR)c-6%7Xe(hT;Ym-p%f38+3W^Rx>8~(d
zHQ$Hl1)rM^bh1i(pC6ZQl33R4T}@&b>vPf;Q1Q_XO|p~v(j5>6dno*IlhRxB4S)6d
z@(?8z-gBmWv<jn*3m3)oT|Pskn_Z)j1q<Eydf0{@wp}oT`_@>7RHZUSywlkFQeeL?
z-`11g9|N(Q9Z&vQ7xsIK*Dxf7R?}d1V<rX@+Hs@);LVKip{Vvc#<*<u#{Vcf924?D
zTfpe#>};7o+`&ZSZva~$a(2AYfj{XG(i8$0o{~@17WLiS&}7*Mm6!wthDas$fAH})
zPd?qM<YRcwtQ)@Ym=VGizlx3HAoq+SD6$}Dffum3`j|h3@a<HOL0Iu>*Mk9()?n7p
zpJ2+TwU(Xld??CN4)N7Ex!5V{j^?rVwX^W4$)$(+%YGB|n6!_G>(fZWGHeXwTqXKb
zp&H{uCvb`bXxs#k&9eMQG2Ku+a%`?wuiDoFXq0*Ic<^~zbM#Y~Bf^8^@U=c6wec3B
zsnGDDn<-UX-0qo)y{YID_Mi@z$!EdZV<w*RU>`mZ4|TO<_di7lKfK9A7a(L`gV!0L
z7V~1E(f#cA@QtkGOQq~n_Fov`i^t-8^uBQfFPmvB5Dm{mK3Cx*W4_w<N)Oa-Gu#Rh
zzZHLXC_iGN=ZjBK5YS*#=$T$`GT7-f7g^9Aq#zs2<xTeaPjKoww{qgiuEGJmPe-l(
zcjt8+w`b1}GTYe}pVoB=GOwBUa8&+0Z8hV4IIf-U0-y6iVEO~LA9cbXi*%Mgsef4|
z3g*(E5D3qsHJ0R9W<0c=(u><ooyg6cz6eLQ5g{m^wWvR)tdUMeFPs;BI-kqs$50VS
z^Upou)g&76p#5D*+nI@bd=$ANXZ5**^SqpMzg<)0+|B;ZYn#X=7xw<MK91SrOHqvO
z=%5r5504QC`Vq#nd7YC5CI|l<8~=5iIds`{MFos(**U4V$ZE~9R8r;aY6wXgH6yqk
ztuJtdI2Vj|9%f(nCEIjsY^x;;rPxqtE!Gj7HPPNsBWqYmniEUAxrh`yDG<F7Sw?T|
zD^921)Y8~u-)+Td3!OYXb#Wu3(na6N&nlysV!bdx<~fT;-)rx-X%)GltaQg7A&18{
z<U1P`Lto78XlF@bhCkjnD`{Z+nWi;!xGCgw`*O2f_zl%x?J7=+nt_+j+HP?!%W>@q
zX`%uT+lzS>nKzUxOeEm^kOR(3-$ff-DZKy5CN2BIQL+sAV;k%EoPrF83+~Se7YbhA
zYOZOzQ|x7S%9YZ?urs6BO5!hEc!{4ogFazgKWLx5_$}kIvWV-OTPlK2(+{t0H`6eh
zQ)xUY7B8en-DO6!{wpn15kr>r?HONk!+u$KndY)VHOpY;=0Gve$gR9W^X|)R)RHe7
z+6e}7R2aXo?ykz5-6{H{kN$lq#x(7=GUxcN$cW5D%kU_|E~B~lXoGExwuiE6Puey{
z`%{~*MzMa`g?&K#1#v3ZwDz&X`IvupfFq}zN$B=<HKGn{-&3-<R1~@zT%J=d!p*3z
z_eY|p31t8Ltar)nvPyD!_sNI!JC$^$e}6b>8D>+tBOCvKzLSDC$T%yXLS9S!zOH8O
zd-=L<XQ=5c<$5Zm&YUCsd*he|3SVMX-R4D{(Vkn4ksi*KSmAf*L8sUPq5Px;q?qEb
z62z-k<n;S57rNzk1f&grGf8lc-Zbu<Ui=_B{Be#E`q<5@4ACVtgfH;3of`cxs`AXF
z)Bc!UTGt$F>{7G0J!k(2r!tMXRK3*;U$45jb#YvIIWd;s-Tg5KwYpWUaG&RQAATR5
zM}AfoCv3=GMKO#xY|$b1geYN9rk}c8<JQ9iC66YWj(F>WDGOBraUfa6tqFZD+CZu$
z9WPTdDafq^30EuwKfHxich^BF15HM*tUomUmlV5p$$^M{Ak&A}?{2d{|C8+~d36kz
zj>x4DUqe~@MYft?m>$WIO8UvF7Iw@mIw{;L-^x!?bmx*$5~cD$TQb}mHU9Zzr8WNm
z3~SYXc`Zkay!zh^bK0q8JE&{y-6uJ6xw@aVjwMvZHt|ZyzyJ3Nt}}VW`M+0ivPHf@
zQ4h|{mBg`ZRyAeDhEpib1eUsLqZqU<uKIWwJf+QhayJGSKKz-UNV0tR(X9SQ5^kx#
z%KOp5CEBUEh3LFTb;2B}h9Nuon63pso1RMZbU!!aiZk}~82oB7Hob-sMz1k|x4{z6
z|K3mOIF*VPnE>BR$2s`RKkTI6MN7ryg44wMW}KW3eYr&ny9vc-O|^Y$t~Yd6B_~K-
z#q`oL6f_P&vVAY3+%-m%QlI#(RF*#BEMHjsyjqB>uH$LehFvM1_#%p``}$Xk!?Z!b
zYwQ_RKj~eb-~|Mto`7{3`l-7p+p@b-pOamk6Z?*o$uB4$qz_4Wh%x^R+saCY>5h24
zscxRn->LoaN$Kqx#kR<Y@Bm@02VXS}5J@uZ5K14J66Ky;eM5A5?bm?sj%KW?Z~8^B
zYZSXf!f7U({QVe~!dJQ)<tp7s8QTa+ort*wWS1>Gt38TLmkY8q{lv6CDWkSJSh4In
z6R&fT`c1p~-`#3Yk}DK2+oJ8!%WdCM`^X8Rc2aYvXbg&od`@L@{2nW~Oi+F8W&YZv
z!IAQj@dHA)-My$%#>E`eSog%e%;jfl4%MV;vl!IBF`Z7m`7l48bQh85azC7ku5O!T
zEe-nA+Be|RT&3}V;`#nD?dB$dfvUBaE5kgN`)*0q$3+qfkGv4`$IT^gnAqMjtz?=`
z+DuazKQL-gnLY5GC3yRmqGP^WlFgs}>gUOiw0}dZ@&`umPu`#2AuDsB3MAsCAbQSB
z=)7<Y;36En{qT<PRD&|yvh4wh;JLHb@-sB0Dvp?&E28VEuR@(FDgQ<b_8ZPKU0fV7
z7g}D3e%TAZ=w*Lf;l8Z$j;q6a#+WO47|mv@?+d)4dHw8b%aGJ!AvY;Mg=Evx+0R%i
z<S9m>$4CwK=TG~yPPUINM94iP$B>V4X`fP69AP){baE?*K4Uyi<b2AjwwbwZKy>n4
zZcsk_*8){k6CS+5y2?u<p5hL)UrC|tY5K3`oSlSazKrh-lT|Byxp*L6a-p}zVZ=et
zmj7tfWd8bmK=s22UuWgoe!5eO_1GfK0KQlHQ@*9j{t6X-HkGpuVz}|O-)0FnlF>Tx
zDzqg}5iz$XOL^f3kGXck{C8flk=9|B*dP1vIG|LCRM7U9J$hZ)Ie1;=cCcAhgCPA7
zlbGc7gD7;A^>X1o&scim)9^2H0;}wPj95Zrb$@r2V_a<(v)}WeaVOnr)qC{!snuMr
z2dTxzrLDW(ZQ0(%?B@tX?+r<6bKKPJ4fdUSUGx8peVx3tf<N@R9TnjT4M!=-)PDzi
zP}e>ooeMYnmLBiv^%f>&^I36VZS!tQ7SV5|;2`Ayy*nS7IF}h=;qu4(T!?A&YrWOK
z90VkV&;@Wt10}IO{jH*YpME@1KZerZha5}Ou5ege*TMI~^c(hg%fuI96M_s@sZ>=2
z9dQ{&HHkt@2^ERhKP}<)G|U<d&l$NizLFpDeNr&kKM$}X*q7`K?)sZ+wX_k?bHGtU
z&}Sh!=RbjrV?I!$I77N|Cce?N>_4HqE*%#VCTJFsQs2ror5)6?)K60F7#rzjqL$3?
zG9dNo*F5946P1t>SL9xb=|5w~H~ueLM2laMN(HjWMGi4AxpUnT^(FCgnyeT9?v-jt
z9uhce^e|N>A}@Lr*C|%LhsRN+pwkc$v`F}L5P$KN*K}0FAnDax8nZtW_{lBC5k?bL
zyLZ|hD-xJfjOMqY6OEjmXdy*?%P*9$?c(!2B(a;~Da!q`NW}%tyYq$cltv4_8J5S9
zSP~Mm8engDeMjyzOH(H^L7VWAn$J~;E9qaVZK!_`XEjte6yg86Yo|jt*`DLdz!V!j
zFpSrr^RGJR^^+IBF8-o6T9@bk)pn8<r>s?Md_azQS~to^*eoo_)DY^Kuam9%(cx5Y
z_U8L+zkqhlAqFa3&#8*`t6fA<QPzi)m2+{&Kgt}@=F!VA^d|k7^xY%rw_3N8cD9tV
zKE|zKYAmQ!xIgkvEBV9n!7F0c*{;@GjIo2>qMCw3CM)eH{xWeHMPalR&-C5N^~1JI
z#Z3j-HhN(`>f@CB*KW46fBG851HUM?R8hQ#KUlJC`HOvq@ZZ~hiAIhAlDNTRz8%gQ
zo@FTos)#n@Q!^>OY=I6zoqw=(uXdI5<T3<$KKUS^oQYb6@?s{KlI;0l!6WmHJ8=D6
z?d^Xl+=y&xt4%8%rnEOg5U;LC^*VC*dR7W&508210aZ6HdX$X)1ED!dkCl+u`t<9L
zkHZF?2Bgy%aZC98uSZBu?t=1{15Tb}In#GeqWAqOpEixf5!JD+pspJ`*>CNO!V;=5
zP}<VKNOaJ!^++Cy$Z+ZHA$QRnM;U*(AGqpbXm42hHh5>j@tRuoFr<WmlY#Agydi#q
zj_B-Hrkhn3fo|m&{{h^66^xhc9Zj5`><d-D`}+85XoV~=zjO1I*vT%EVvX9lEBrP1
zY`a|WDw6q%E2<0C_X)BxHKRF(%fU-ox}<?rOpataVpn#Rn~%CR`OlucWelv+c+;HH
z7&Vh&&G-9RO4aRXAd`Fw@24PF?*`d?s^7Y1LnSC)OmWP5SJx(Tm;XE`>W<;dcfY^*
z^}Zd;b7tSjz~iGB$&*D19$fXusLH>D#zd(0%LIk-KC1TrW^he2xwC+;;?>RTwCHMp
zk6L??-Q*<*ry7!f)&GGc9R48sM^pDv>_PQs4>bME%DCJ(uD5EJe0V{OLMvRjvB#Fb
z<eX?K{FF(QNmodp;p2atPM|}2yrB9ddTjSRCK#?qpDdRImAwY8Udd6BhbU@kitEKd
zq28ZqzM?;r&Q64%{QHsfd)u;h5)Rx(e7Br5pY?oUP%qfhyAVpficK*o?AcHYr_@+B
zR;Ts)OfKdWNg+OVG;tL7Q3wqsm0+0EysMYCbNV1&@;H@ytG}HV%l+%f%Pcbm{HjOK
znRflFItZHH_VxIim6$ckGf_UMY8et{)bN}e-Jj0ov(j_f2sNF*2_WqZ7y2#Bx;`r?
zKuSF6#E#=_xras+lJyH+H6gH4_fZz=Ro5(k5S-B1rdj-Yw{`q(#~iO_bJ$RLF8B5e
z!iS#`%3e&WFg|V>W$p;%qhGepbv&a9;QoNEaMvw|Sb|Wefyhy*zTAaKa*Aq0$EAw4
zJ7_>gKOozEa6v`G(T8HfY_u)w&XRT|(yKCT(ATLk8*iVC?kXM6jc+O?J&ZGe;jE2C
z_U3JLr&l?xkD--329e_>1}WKbT`nyRFDt{HqDI4H{n}j#tM5A2T7ciPWM=;!qI4PI
zW2u;^6#DN2e#Lb(nr389a6gR+<hr7Qv^gY?eDR1;Y$(jBQ`coRPg0p8B7Q3N7QXa-
z?5W%E#fny5PtvmOS^ai=evuM3k=uEP3+X!f-`O8EnFi_1v|D28Z=z4!<bNlq7WN_c
zpeb#JVc-j9?Xmr^;auCI*!-}hihfeFw2tlhrS(QGNAsy711f9GmfBYzrHWMi_{{`P
z!NJkU--BzP<`A)U)^pRw#W0MRFlN!cJn7My>zP{j$-_@RZPR7p5(bgYrWYcYxugf_
zsf~VlGa$8@?YupmIC9`u#`9aC7eU7T%gQSD)((?&hHGO8Cq12&;;!{cX-&eFEuLQO
z0*cq`PCi`A$mb)Q_B@qr^dFwD#Wm<uTPyv%EwG~ccFQOKcZDHc(BdLvvRuL~>u0(6
zEW+Efz&=WKT_&8<hS{^3e+pKnZ!raO*X?rM9Py6=3|BwZ?U5|T2h>u1s2O#x@EJp1
zy>L%|^6uN;A%5pS$J%i}2G(3}JD4;6B~?8ocRFC3;CN%KdM-wA^W)7oMoua1kr}3O
zGC9VS4S1w<I3BiAD`yYh?0*Scf2UEA0u%8>2ZbIOq_^_Asp}zEzdmtB&?!`zpC}mi
zO6J;z*Tdn0!;}8ZI$8Uw6#XjurOBGz<49A@SD*R2ets$n9lkaA@fHpKcb$!)e#k-l
zNWTE)r*lhjiWQaYh7-6npYUok+Ju_~%QKvGEOBxo?Iu!9_di^j>|wkb-Q;)IT@^=S
ztrZGFVjum@utSg4`}C|tXTI9<e`-F+h?=eDj3dHdDl4ex>6j~-sV!*gQZ7#7i|JsB
zMQB0qO=Q<E7)bd!_@Yo>CxDI95qUgoOd+Om^HMwJOp&e{p*Qv9=D1Y6tPe#sJh=^%
zyou0+!EI7dUJb4cjwO%Wvo?4J1@A72CRy;Vm!=kT9G{tMTxgoCNDR-jie~wM#Xw?K
zPLXHfp^{$0q*tYgu?uo<EJiQqq#E9^iw86ECLF2vF1<s|gY|BLKzv<wk-OY?1c?sF
z7U$H7jsah#zq+_82*m!(sMN-57yEw4hB@wm*O_@}@q@V&nQ}g{;H#fyat($y|AL58
zilfZ7{j`gB#9rAePpQ^@pEnJD$qCFj53IhbJQgKo3DeBx9d$R3``B)6^BLi5MN-*-
z4!`Lw+G*`$Gd+)LTzj32dL8>q!wi??E;r(`3~o9Fe8b9mmP<F5O@^m^%Qg1t*CgNE
zCT(5^jB@YHKC@$$!7L{-oRM8V!;#Iie?3KnU180kNQ1%h^4lCq?i`85=NFFA&t|zg
z<dJ3I+h$OVHlOm<?dc2#yM7UCR}t?KC4w^^8hS?MH#UVV;<c}vkqfu{-~W-N<U+Bq
zB>CrN3q8$pqr|N0C9>@2k8^mJHpgOZ(sI2CPSLZEg0v9KWR?$8+W(J+Zwk+>Y1)l#
z+qNdQZQHhOYhv5BIY}nw6Wf~D#-I1Q_C8w&-F+3h?y6N)T@6X3pLdGWEa2bPUkzP4
zU;MiMULdNJLHyouPm5o29PI%<qsx#w-^kEFLO5b%NNjQ)tf;XSGwGJLvP=WaL8M-q
z>LxHHQQPK^RSWL7S!kY1ehZb*CwF3{tvP%CSVN)+>QhtI)Q<vGcW+}orFWCKw8eLE
z=&Vh>@4D~zIS`D2z~y)<z)`y|g2t|oRm<py0mZQ-7MqbEk%&Lpxm=t7vUB0HU!-t-
ze@2Bj^_t)(!`XU$0n7zpl!o1HITW9dskTH|a8SjQ8F@KF!-nU6;>7^TG?1=KM16>o
z^cRDvmF<vsZx;dK+CzFK93>oC$unf$OIeXn189UYP!=LR)XYQ)^Kj;p-=rTMe}J|8
z4HIv$A?3e>76}tR>eF`#6^0spc)oqz;-;jqOcp3P?R``ji)N!TdEXPciVz=i>`~p`
zfT1Ju2r0Mt&u|c&_1e>0AfLZIW3G2bJO~p2vW~pNmeD5P;NM|bqbnsr@r@1V8)KGm
zD-taKF8yRL=_#J6Qsj(hDWh1SPh5D3#qUk<7~UR0e}_6fvpVx2J^&dTT-Mh;a1v~-
zX%sKE2M|qW&kjkQgDY_Jw+cTEvo}L_L+}{Hk=OJ)3D$GIA_<i7EH`-X8SjlZh^@RJ
z)@~KG-V`mzVIC>Vx$i5BzcXv3V@;RN6k__oddy93dG!a?IAuVn6iaQB#12BLKNanD
z={1Ldt=j))FdM-oU?bp(+7NzH$e$WanJY%r=ca^iRz80ltTB}{&r^Uk`ThB^pko?=
zd^=Pycjla7ERwQ?Vq;DDW;7{?`;|`EKzYyfN2NQR&#sfa-@rY?ps4dZFslC#6_2D|
za@(#?W1rPF04Wi>XL5o{a|>@~;Sli@cAb`|U4Y)8f>~sx!~eM#e{{`(W=JzlXp5zB
zglwcE)zCO^*%aQ>D)iDE8q1{NURSng2n#7Wq8DQ>jisfJ6c{5J>ku(R*1PEDoWzz?
zfbT`6W@yB%T}KL-kBE=@g=`sdm=fGA>OxsL2-Lrf71&ZZUqX`|ja^K*vTFpDoK~vH
zelCw1!^b7s%ng`fq2<r9xEcGJJ53`*;a=sa?fgNL6eRX>LY~x4vvrS@i=2rlY7AWs
z-3|r_M>%!uF`MkDODq*#+1?F}&q)&pZTdg3MGVUexjbBWGu_Le_CG3F5c)XTT#u0_
zn?8-#;D`IWH#TV541OJ)O`k)_utmH%b+NE~PhpP!nR{4>CcKZ74>r3rDL275xCL|F
z5v+x~Pw*#!16NoxB%p*m)Q0J>bJV}7a*cJ)Rg0|OWiBt#L&u4%83cr?fTE2G)7*%V
zg_QU%#2eq#LQNsmekn~2+i1e00IMzyeC5@LKNdoXD{bKsoV!-Vy16dLbK^Zes<4Px
z8{8|64e5yRT}mBTW%iIzA!}jrGAU`n3$h?bfe6w8KIwTyp>r`TC5?g%K+FbZI$4K`
z1D-(3+_&vtWFOa0_;$}Ult78hd4WKwDnS(wF1QnJmSF(6TI3Hdq5&-+;^3a9f<(W_
z8+{o$crB;59u>_SjWWg3WE;wwnl(c(s1tSk8=<RC1T_0#a4*<3hs8N*1f$TShy3wj
zUfP<w%u^^>|8Yx`Zl$SdyWj;Pk!*>)rUq8xp)>ec{_EE^;1Y_upyB3)H^V3^B(hRE
zXEJNn&_Op_O~j<cQqqDIFw_Vts<E=A6|p^mMDv<h$BDoQBk<RaMZsj;DNrum3Ycb3
zhs&4Pn+?#hG6}CCw32j;2&L*)ch3IJ+U8~so%#tFy|+plx83<Eu|i*$-=X*UnNddd
z5K)=itE(%j$Foidu&=HBO})v(&C?%o-ngwp=YU-|8T^&m%CIC3HO}Y>+Mx`fSP@)V
zcQZIKlsHqxIqh@6*S<uZ9BDhhG^z5O*biYRIi~_#>X!@_bk>0l8#&NZ!!Q>uBZUok
z@G(z7&dxmTcFMDr7W3M*nh+kn5_<mSP6m?v%N+rtXd(bx%&DQF0O1IH?wd6Utx42u
z$Si1vDkPuUs^l0+ME)fISU5pVTnP48>+1mb#QL?zcb2$olD5lME-T^6Z*~xbd|k}-
zV*MfJZ2l2A@^tF45_9X;iZpRfM9>g<nL{<=pVjX=%GzH_!ek`JAjK%?QH4fPk+X9d
zq7rt7z9`0Ay23`t`fU5DUmZJt>bFA+{(gtSkDAp>JRC)bpYu0DArJ!yKw=uO5JAKx
zO(BIyc=JRGl8}dkoT6g3g#Xmd=JxD44SeYrsAG|*DZFQERL>IRZ+_rM+-X%h)9RF^
z)S4SjuD5e;&*Z6Z=oO}BjuJE#HyV+I-Z7FTGwo~kJ^u3AuL*km&f()Vq788L=-Z{|
z`BqBesp&1sB)mDzJD;bg=n&1hn}+{aji=bBqN>_Hb74qBcW8r2e_N8KDrI2>Nx4(j
zNRu6Hbp-7I)7U&Jd+(RR8g||r<s9$%>7h8IjCcY81~`8!DtCzdf&hkwK6_vfTJ#hh
zD$UAHNnl_GpG#;7`IE&ZEA$J8SdtMXTN*kr^%E;L^%Fz(OS^BRm>xJ-o<RbV_<>9S
zqx7YmjAMHCtifTYQ9boD&xishZb;*G5aF#%-AMvpxxP!~IBquib%c6>x*w4`07yx%
zV9=@}nuLQLc3`=}zOANe;?Yi~1I0uA4kW$GU%S3&v-er_yg>6ZF3+JIPbd5LC6mE5
z9!Jd*b4mi15A4zr&l-)d6U_4afm>!lFc5%!bt?J+t1vovq2>m+<%L2b2CwITDc}wD
zeI~T<l^!KTX!`VEw<yw7aL+&4y~em?CL4=nW{!FO^UCNJf|gN}+3b85*Wbw(7hoeH
zj$A29z=dZr?lJ10UJW?gvVT$;vDH7K%nQ%F0)2u-7t_O#ddBt}2pO&?kOX?TDF1z4
z7<q%Vkyb`h|5a@ue>@51En`#R{=!gfm=LR&NEihygnobh!&nBnaT!3rq(Mkcc_{bQ
z{<UqOCFB4hu!~hZA3W5%4N8E5PQRYjdbxgSU%VYzF&uh)M0k2<>icUy#^oZ=?j%?u
zAxY8^QqDOEJil|9#q2rUro8+6yh&CmF;TQAwnX(AS;#|^EIRBB&~_YLE|`KcfA*@V
z@+_2_;jJ7+qP*@d`$#E{@)V)%jSw$-`j17(3U&Y&i4U`rSoU52Q=%y@5zmBd1q&LR
z)X1bHo;k@P_7In}H)wqk#X^Ffc~In9d~#MiBX{}=x7eMd@=cmd4^e32ZHe<`$I1@I
z@k8!U4uA{-<6JKBUt5Kx$9vn~TWyE;wupMxk!I`NHrw2H_b$?5p5&@@gPLusFvXWF
z2_3k{nPpmMKToTyEG%nJY{~q9ID%j&XFqRXs{P<DrL1lZ5{BzmC~HQR)xv!-ULEDa
zxy(A~1BF>`PsL-cz=<;@+(82eOP!_;Xq8-<GS@cWh6QE;=zCSKa@k{OFY1j}q!zAe
zyHhsa2KB1ukhIGISKR(SP(5ubsb>a;1qfa~adG+{wcif7p%@5Raf1dAHdvec)By0G
zByhTo!}`ztX$=T<0lsUTlQpx`!o<>hKN=&0lpL>Z6EW)VLm&=TN7@fmry#@QdOBDc
zrM#B<^Y0PU4{)>)@k-?1y|gd_H?_isVF@fa_yLZ-npXsrH%EnQwW-G?K)AmaR|!lE
z9is<TIcYqNHHPe--u_;Ui^DGv7oj1@7C$9&qnLDq%lTRNQLDkrTa(I!hUJB`ru!$D
zC0{&PWCCEr#!b(O8a;&J4km^}ARS42u!lSuM=JCgIn>q+V6IM#k5WFy0=L*V**!x0
zLj^w@IYCkiV{;YaG@z`JgRU-;T}L<~B)s)n?m|^=O@P7|gHpmmU#5~t{8xl)usrA+
zQ{Zq_szl+nYO2XyQ*4<UW%?K3H&|07#K2ifZdy~y^IK+FySqpCWdtwQ<C8-)8+5}}
zS*<X*1IrYi+X7nTFyG2v1>y6X@NwCZ;rygylndL*%7QKFVCiXWbZVBG#yk!mBI#`|
zz=~>v_BVyI*2yqC%jGDZ!LUa5o$r1-zKR<71*^GOc-g&H4g|sCoboCx0LEwBSIn%a
zbu=CAn6QGHCNzXx5L|hG872dUp|>#iu*wbleY1r^=6zQUxi3nsXol`_VLc_9Upuvb
zRA{NpdfKn?EkQS$LAIp_9C?<xYIK$Dd_16|@@l`7aU~Rv)e3YVA>5rpUL8*6Z>RA#
z!N~c$?}poA+AQO|ZhDlA+Dg~`5f+YbW#3(iwE{c&azi?FHCf9&RQcI0VVs$VG2^ua
z=-ev}iz35z&!}VU1#HOC2PR^u%bJ4dlE#p9C3|pk=*8qOxtiF*mg{<WfSCaJl1w5p
z04c8TquRY-wjA%Y)Zz==VpBl2b9tQ5t5e<A&kJiq{^tD+63c!{F+a4(?ed<ip!(vi
zBCT9so@PmS4F0IMMm{EED;|2alY9PRW-j-7`{Dy+!?k(4sdNXJ-Y>tilc*NrCw;E5
z@n2mm_Y0Y&El7gFUL;!)!ZPd0Ok&kW(L_c(iTL517FU?45|xWMw=a;9+hV0#LIOoL
zy!dfR@)`a8YWwkE_v*|WMy~aUK$`kc@;Pf4e3+aVkE4KPf=e8Hu=hf~FMjxL&?PWI
zHX2D8M|uy51+{&wT$@DB2Pe4C`ga|p<=g$J?=tv4RSL3jXj1JhXpavJsa~w!R5@z^
z({yG($Zv`$D8Ewj1K0rVuTMlRjN<C#Q>Hp4=PW9Y5*R5H+0sE4^Epz`7f31jxgyym
z=njgC=66}$Pn_8hsXMzH>`g^U+mXsE*CP^zM4LzD45a|fa_<CGVq%#pBKeBtF<d^x
znjrnqW8`A!_c%jmKUB?MyLK<$H&415+73*?p~Dqg(NzfBRs<0%NzTP6R^HASN!~mA
zY+S}AyBW3&&IC&&x6XZuY@qapa`5mgNEE_HD6^s}%>%Q{_>u1SFIohwxzoDzx`Abu
zIYM09Ae~;gG^<R#Y@~=Np7f<we~w#M<G0PBa<(Nj42SkWtRA0W`g$;#h!y&d=xu9B
z*~g+oWoEp?jiH@bq6&AB7i3qBH@#+(psu>DqP#C~+n8ca;95IDOWUEfhpt$lWrZeE
zSkBAIrv!2*0Z+d=G+{R4Ur{u;XwB6_nWs_hqTXX-)=7TjB1|0OYLW2#mbTszEq6L=
z-@qYvmb4Nd1q<`h46csd#?UvqNxMNEXGPEw9^!6thCx>$xXi~pF_KaIca#PuzN(0G
zG|&y7%Fw2p7VM%;8GNuGb*-bwn<zLn$C=QJq|F1=jCFZNu2Q1(k(EWxwQkH!UP7fF
z)xmsTH;uCk>;%av+kCjt_xBxj;KiMW-5|@$1bUkW6Ne{azTKi|^Qmgaio+hQ64}LE
znNLLaJtU~U?Vm2$to>=Pk?HYCgEcNenbv5{-ufw#W~xn>0KF8b#kDx&N&&u17uD0P
z8TmTlvxge9j(D$4%KCW~^vF|r;vbIc#=kFAwCAX*jr7#bE)qv-X3P`#a!PUaEG(55
zbpt)C5_WwuixC*Ss`%FDhR*WD9izf8pxyFo_TxPL&_9J_tqtdWPNdpT(nH*1W+Vmp
zZfF_cWT|5@@(T#wTlyrZasSUYvg8ElJrdbFW0N&*zfF#3>eC7V&x@#s^5?~DF@+Tl
zle6fP!FnuArUcM6H_HSd1;U^N8NVycC1r6wWCZ)Z=8u&vS7)Ip(m+bV>Er;wWkry<
zo3*9{e?;;LOt>rqLSQ$+*mI<P8VyrAghnNvjJ)<bm|m$f^C>(*YNg&>ZcD-+*fi+h
zQseluwi2q*9?~Dopqa-++Dgx9>nKV(UHrqXX2_G|$q5fmX0fzG>FAf}`Qa{93EFg#
z&o01t;dn`GBamnBeRS7_H$G;0&5>BYm3<?4>Cq;%@LoMNa7PooXiRMw-mn8Ie!o3?
zP5a!a-ZBk_Ok~!RC>7dWt3cVR?p0sUf_yDEpD^F<bLe>L72))|1ohAVQwCvXr#f&^
z((p4#?PbXbF)b79I0Ii9ER}cy{YxC|?rlb_6>Ww+<C&>KVM;p~E~x&HW6Q_Wc8NQp
zqCTc@gtO}O*k77J&L|6R7hmnx6JmF(KGhY9KV5C-iB8nOp>ouQni00a+9<O>;_2ny
z({`wvTm!<RuG3@_l4=Ri`wN1jPa0IMI)+F~Y+E%-Cve3)YjJ$OcKcZ{nUig2IQkUA
z@1oz<?Ukesf)4p>jl2Xk`xN%A%aSTuoQi$J`2yC;Cn*1dYIq@`6TOe(Ku<6B3qLL9
zx=#eU(i3|jXSm08ldYbOTA0E*VT2l7b6ca1`6?)4XUK|e!e94GuD9cGxAZhc&^b*S
z5I;#5qKR^X`&RUuBZICp-d|!!j#F?E5U;#py~*HYIfkOXm*nW8-nmjU&mruq#W$x?
z7!~TLiVyS5d5hwRgid>=LL1#>U&>pQ?6OjE91!ei?G}*xN6e=DiRbd+px52{8X$k!
zyI$F9!PM#(*1i6P`?|PIfj2X47!&-4L*O8mLLTvHbw<XCE8I9m&70{vod+!ilrN=~
z_614bvW14hJ}AB?FXqBcJ44e2EJZl2p(Am?=?dx}d<_?PV6rjt0`e0V@t^&4N)#72
z5+<_6pR&b!!tL6iJ|BSpeYUSqaP5^P&tAyH$+aACE_k`kHM62yp^%?-vPt3Vw2M1$
z;~+LzNu@pJY+e+vx#bJs@CT-iGKe&}w5^;uXuFcEBn=vz#?(#ms^p(IQpSsaw9rNw
zEjhv?tJ@IjfG|$mYXJ$vhd_9FMdO^Q6>i{K4FYqEB3B$kvzff}ThCxSir&}MhC*)x
zRXO5|FLYs%KZy&FTWAn=)`o}@(U&fG6t#d<JCOrnZJQ#ahownZGson#$Q9BCLx=9V
z&@xyp^n$R{v)Jdat-vV>!`H<ZPx~-u9#Q1Da%*oB=6z5x1h<d(KCfNpBHaExxg>Da
z)LQU0gmSPg1YH>6#>}$2F*4;nxEMeYmaGiRblc^!^P(9uj0mMDP3w!|78IlBEkZO?
zejw$@rC&Ax`lyCJ61v#LL=U^CpfnalD;Ta<3Nd=qbWilFwC5cD1}XD9HW*nI)0qBO
zF=fhgRzaecw5j{}AK$oZ1ji+QkN%g$m-ANbtSdK*=HrdG&v;U%H)F`yzB$lu(7!=T
z{I=Gf>oJITv@uld(a*HEv`!3dH?a4TQ*qI<Fix=?Y&7!p(o%5>QuGsaGObfnv_Bs*
zQ`GFVbyIQ^vp>sO;y7T#n}o7dV4FdbbVHnl^?LT@lI~-a;})D{ru0~1V4YEDg=~S0
z%P5DYz~=sIolKB|{b`*HyCuwQ6Xvs4LSvTHIdjG?%3NM#2T-`ZKaPO+P&2geF<)nM
zAPRSthi3`Cvtc(lGaHQH6UC22lRDP?CBTm_32R~qy3MIo%-R=)lISMYB%WCXlF8H~
zUNc3l92%?5wz0glHcRjf)`2WRpOoea<@%)u8OhT#@fmSeb~FjqZ*cRFHtwL%5(iSu
zPUYswC?nfzlJFFNKn9|bUy@(gl9Ebc+BE_b61;@t!1bXy%yEu-7lF0YeDeAk_AKVV
zz6)MVwEW#U3;Im@;{$TFboM7O!t?Kc6Ooa1ri>$tB9-Ij0Vx$F7($>2d?HYF`)I5*
zgg@MtwNGC?)}>zSNYR+7WyH%vI($xLBiy-TY^@Vsj$TQ8oAcV4Zmf<cr!x^8)*df%
z$tN2hn2BkBap=RXhqQN3(G*X7pUYj|m?V2=vqj%i`O^qgt(5t<f7lYXzDrzQSiP{w
zZ_nb2*>Sn)$B-d@@@8JKnr^!}_kQoKNVM9If9|BH<atodPP7|4t!&6?DmmTP^>KTg
z!G*BJeyeQtu^1rL>2G|qZTV@I-F%C~oM=S<<JGMF67XvJa5!=bm}HIFC))a|mHpBv
ztI4?JM{K5(-tSMDZ1U%+a?4;$78^FV3-*0==o)E{%-#~1O*g{u3y=Ayf)!!KmJjhy
zrIA5k_GRt5Y5hTQfMhJ>J16zgsuvJ5xI~iu*Qo&kb5SK(uf&Z?xyNy_p8>DeGoxHU
zJ=d<{s%y1okg$4&OZCL>S%D%;w_84h%HdMPze?JJhVQyhZF8&hNl8FG-{I!PqM8Ry
zqdq--pyz>;kuhu#ziqoCstNG?{Waj?W$xNlbzjP~ydoXqMb(Y>?Nz6_BNF6=V)5Fa
zZs<SQeH}Y3mU&J8q4)cJes<<-VZl@7P@rV2{_5=>LCIb1^BjS>;`B?fnrZG)wYSZt
z$|(=yo`&s%P3`oG#uwV<4^-LfMg>VU=AHz4<rSJn)wR%*C;Idd;liF`4*uaQAtIH;
zkp-Y;ETExB)-AWaZ;?lO!ElmZK~JlfoqB_4`dA9*>MPaHiLDEdViI+fMxj+MYpVR*
zFpnaQZyU_1-3&Ks*-0Pyw1`BpI9XNntqVhSa(+JNhExHxAGNON7uKfy@_9iKNq>F<
zt&tz1R+Xt5gMRZx>csky<A{b_G2UbS3C^Y1S^rANXV^G3AxyJlx##Q2*U9=ym|1|+
zl0lld!SDp?`jA>;Ds@fe;n~ueYT~{l!^bq<RfBI5K?JTp#!R6rt&}lunn+fSKI_aF
zes8*hmw~_)*AoSt!Rg)=$pm|~p%0NJg>W<aO!DJ1IlHeP!Aw{2Qi%(DtH;(Q!{BIv
z=8^r$d;d;=z^)y^c4mDNr|bH=z_S419|V}#o_~Z%Y{*jDd53rcfx1kRSFFVPZ0j7v
zIJJi%r_PhB;g@V<m3)gvfF=6HVaF)^#gLOZ_BrMh(rZHBj#d70iopTCqVW^izV%~R
zyi7}1!elX<M<Ds6Y&qaacSJe3>SUx`0sz1|dDM^!uw!EgQrn7(Bzi@|qR#fP?D=|a
zYf@DF4A-_k56PK&TFD=DKgyJsV>#0CTm_yrRQb0Ha}I934$%nBYr`aDxG#WZ`&HWt
zs|Sfkz!<Q!%x}^m>SD0V)$&wVfY&+j;t1GZ<?UFT{z9eSZaB4$F<{m$8m8urSl)-5
zNYsf%#H44C1*<1JRMJ(<XWs6FUK9@?0*KbPSFmY!3m{W<9*_kacBzFR0J%b%EE%Ew
zb1DcK7O~9Ozr3O$eX2Qf+@0`m&4Qw<)u6}B5w@v?{5#ewCJ}Q?fGu&zXJ$fdGQ4PK
zV(^rdvZ}5Jp|hpN$C<jSI{L#v9(Rz^VV!Y^n9gjhp3|G8>tk@ddiFY`NK_s|AaqNb
zelU@<L}Fu6p~i^K)IaZL5^e6|KTBo$qz$4vl)Gr!CJupEovo*qfK4732P6yC8c1$!
zJ399+lXhE)N<YIspON7#&leX2UHU&DLFDf4Q1XSB7ZOC`+iRzmjm_yJ1{`hzcTA=3
z&#Z{`>@VQp6xuz)WPq$5h>$~e)P1pH)PrO%#%Rzp__I_ojg1`R4$*X0PlVcWt`yQ|
zEJ6nD4+!shqStpJiR$UC;6hOgfgottHg@Y>T(;T?ar_KHol@{%NghO8+7`W`j+<g9
zWR!AKTsa7xHBWd<d2;VFAy!MdM<cY(>QzI4`azFaaXwva#9Xk_VMHK22I4?R&fhCa
zhre8%;=e&Po{yP9WNc?p9bsx)%LQXMbzEC4uR1%qV9w0SXAP@s@&8ncS}+!3w~QeC
zoLK+A6SI)7@91S0EQR<S>VLEfp^#u%G|BO!)oO<yt?rNoTXs2VMe)fNa}@1$j3?ZI
zjw_*H?>pgWM66;;H4zh>1cPdDxJCX!!F@x{5#E?m5RC0f1OSRUkI_j!x57b-x*6%Z
z*0<5aWga}>XA6IEhC3f391MxYZ~zJO8=%n3Yq_=#V~5MMa7LWWY3mAdImg`Y6%Aj{
zjS>V8=s@V$T~p>rv#!)R+0RZ4UUGxT)NF#3&$*Ru0U4LbMg7L`o@ZzHwuFnpuBEg~
zA5hmhANb+X&k~}xaYPEi2amT&{M;QjM_9)SH!`uEh+ErM=s+3S0k4k01Ggc{&vQzy
zz<vakEX(qNnkH`ff)z~Ko->Ll%U)M%|C)$nAi4`{fuMo4!mj^sQ&b<KlUK`#fsv;3
zi4_#U`ye{`m=p2NQvShjaHv|YUnnRleupH<^0E&!<WT>=yFmyPX~1YMgp2>je&KFt
z2qI?Ge4CvWW;+TJgJt#X$uCqTs`njiy1;IeJeH&#9hYwX%{Cq}Du(hBJ*2kH4Za-3
zF78KLZ4^w=o9ea=meo%1QZ8u6;BM4OxwkjgE-q*prw&1qMXfLJa7o>=k(hB`g1oMU
zc3+2oQYm=cw(XSR+Y}A8pE==0QS_cU*|Eqj38Z`G_~M<UB3T*OiJfFZ4;oLcv;E-G
zPn(=riaUL_W#-x$%fmoWs~t#_EPYx)A;x`DkQkpTUiFBQIi({#SWZHJuDNgY9*Q3S
z51eKBA{>qJjYPy?;HF2iQ96nD#c`$c_N*Tg!^pb6!X%2?+(W@7z5hoVdmW~e%-^fW
zpMQ3T4BytJc1{++Igczx?b@?r(xx4ZV9Q3!{Lt$q57L}I<c(6GdL?!W=?XL<LzStn
z&HjafmVC;;L@|wgBn2#nTUX6N7fbs1ALJVTK`!Hi;N%gvE^?e6^M<9T5l0%pCRmn`
z%_W3*B5n*khTSg)md1bme_fmrbnR?|{-EUgftJr{za#uV46^r92!!y-K3;K^t*Gy?
z)P`$oa>;_{OkL)b!_5*};gEwAPi%wd);!HBbApcaK`r$X+QM6X$n<UPJ?5j4Xmr|K
zvmKyvzHJ;RdO2PTXZfNsj{{`uiK5i1@-a!)VG!%1P4T`fjd&PndFTGneZ(E&d}zHl
zB-S`}4Z>v%?~(2IgYB}QNTPMfEb3^Mmi|Us33u$E?DaqJ%o6v*r1FcS65YM(Sl%Dr
zSBeZe?E(8;vQAU9K&o~8-BeH7?HcQQf;<u0RnQdDbXY=$X!PB17|~Ai|5hG5Ch4-k
z2%=4QpbdBGg;Tp3e*G<~9<`T&OSg0dn=Nd8#hysa{tw^vfuR7=)=pDJ)%5aAKj4r1
z17pMWit(Gqz8#j0Ug<NRS23HB7??liywCBo`<CZF@9+~R*faC%w!EOebx5a9)Pi39
zd3P8#I&9eGa&_;3r;@OSB-U*h`W4V9OQ}^0vRnk$9wk|nItd<f=#9KDHZbL5|6~9@
zqBzN!ZH(V+k7<vaA!s8836{7K7>iDSnmOc!fCq|d3C;~HbO=IhA{G?uLNOgv%qFK9
zQ?cdpBV$EO!vtMA;U20CFOZ{Pj|n{xRLd}&AFq&@&{!mR?9kY`o9k@yBVfT5qDWmL
z(;BL|IIjgawCldkghBv4Z-jao50yk68ow^uB&Wpw6?6|5TY77>7}vT7=qZrk`2d`F
zBF_)jJ{kap3vqd1q5hb7sW({2q4j^{$KJDjVFp)gg-#ZyUSba=(MpI!?qi?W^)Q0n
zyBZYFTb9QBz^F4>FjbC|_NcM+6O3#DIxV=+A<KWfOv%`F)yqb~`~bG3gJ7&Kg=-5{
z%Bzf*x6n)g*=o_eCHT8&!C_G%RIsByJgYJQKS3iRxnxuXBr?Jzhp`Ew<^*pRf?`hk
zD3HiG^?&Sg48VD|d(MWK&q*H+Q8~vo3=~NoV~+UxNp<gGX$!`F5X}Mhl`=5#FM)bC
zB38u60MSc7aOM0zRm8-HOATaqKg;iNwK(SraXGi%>=kK_NKs!`K{e-ercRyzFhq_^
zr0BdP38ut(zg>guQ?Rc`oMb768zkgB4s}~(c+ALz6LB6%z5<pbOuGz^M4AqRPY+|3
z({3G`Ui0hMHXmDvdKn~^SRD$xCfYb>tEpa-Kj!Il5OfO)y&zJj@R+6&(Y=p1qsno?
z9`w%<^C*#tlcDh#Vcrlx8NCl6@`dQu;D5)$ge78xu}`8mjS?6~iO)ah^@GQYQf)vf
z$I**{L;=dIq_QVQQ$CuLOj<2PM?W^e_MZ)K{yq#~&A@E%&?TsKB*aS7<;D?4yGH$3
zlv$eQsMn=&*yeTch0PN=iP;HsF3Ce01Q+myWSTeH(*L0Np_>X*{D&5J3^9-%XNz&X
zx|dye%Xxzq_9VGux<NKySML9XhO4#FtJ`^7jLreyEC0GUYhWHXDyA(~#mfEDBQ(AU
z)~}780t+Ykf5Jkw{9q1~LK*(@;-yDnj^D`M-3IX53+td$BMdFuA{ct~T*lQ{LXS#j
zu5mXen-t6~52zFd^k4Ai<rrO8JQ#X<zl^Uj3(W{<ifyzh0(UA~hvI%PlhAQ@XqY(S
zwUzTgE#arfV;J#AoyL5^T+WUEQ>PY&hk{}J9LW##8qWTIbl^Q;nepPm`1r*cre22?
znP?OCBl2}Y{kR$Yul}DKKP){!)TtZlsl;^8!Ko)fyUl_52L59^bsRsogYjcK=b(Mb
zuzZRyrVXh>p`;7ZhUZkpOB-d$sY~vEWVK1%gFe!#?FR`Wi9fleOe^MmDMyC4B#w5X
zcBY(0f@$ITMh&g<^#7=w+Fpt<D_h(Gf;-bG0{v7E|6V8b>^Gz?$0Mm`HJdm><TkDd
zMlWi(HW;4Abuw;`Ur+X!45W^1n>4Ul5bjdDE<^m9YO|>62^ub<eT2txWcV8AYoINz
z&ff&x#ISC;V?eA=+ZG9gUVmTO`?WvB@$<UhDue^8c<W*waOPczTLjHOpb@gn=^4CU
z6N~W?8=(>7kFd=eTi2-|QGJdd*nU%Vj{o1%`anftmEToDHd)@WYY4H+K7&Qo<Px^V
z6czqD*m|TN`1Ur;+Ha6Q3hQ&i(u{va5cpzdAC-U&xhD$jUjd_E&lymMZ3|R}?!{66
zyX<;KYK_XSeNX;F9^c?qn0Wfv;7masK{qzGp6^ePQpX2;4JoeiDg8r)T#(}6Yo=Pr
za!y`G@33X(4yR-5?)8{m-)UF-CfM1!z&}Li@G6U6H+33p>qW(>%2PNuauuh+_z*gJ
zPN>qu`Dd){ByDfH`ChwnjF!DR6?$b*;~N=U8K+I%bX{F%1UWL6sRt9MS>{|qR~Mo-
z0V8q+Y2SEZ6r7GqW*~9Uev1rBE#UvT`9NahW{R#eWXQTYFSrpDoZ~K<jxsHZo49<-
zX$NfE)<chsIHJ=mLQPk<r4g=3b(|@YVK@kW?Tmp8@Q3b>w~T^!Bj{RzdWc%94{+mp
znywfEt{+|$BJGM#vq%wi_3l~iAt}2q(39)yeB(C6qw08#?v_#=m`n%PUbTr0T%yZX
z=`$^1o!uc?p}~z6$hvMk{@VqKC3Bi(r{*X(>3c^&4c|0tbK{q4**0uQi=WHEl#K`Y
z#q%Gd6z2J0UDm(FG&C-UI$stnwpj%J1bpJelt@L0Y1kO!bar(oo=<-144aY~NcS*3
z<wB;e74_XrS#(U(SO#GH{J0e&HJX6wJ)!<50O%1E`Id?w0qEr^bt}v@)q8rj-q=i0
zAi1tV$JEt%gPx$g9ksG_l^MmF><ys-NxkHVX}~(*m3?*jCZBDyyiQDD&S4(PTx-8r
z?&YOs06nggG5C;e;DgC^ufQl%9mzC0epsce<p}#-9hJ#$1L!6v`AOYxantKt_VA_3
z=;yx$%>cCvJ0z0xsK3EDb9}ymWHq(pCi6k=emeTLa_wA-B#}nX`x3E`e7(A^(tO&}
zQcVfB<&bm9Owpm>qSh1wK&{b4EgO6?bW3TDh8VsLIKKa3n?nrNl{cqnVvTMqxUlx+
z+xC5S7-`&QJ3I{jHHiF+?z_hE!j0x|aRYr1_S@W;LY#s%z0R?AmcW3X^6t_A&Q-Gd
zA;C5`QU-xX7b4aH>^c3t_-9N7TWsft-w@&Q<__UD%7DYw#s=eH<wwnIxQYRo%Sy~X
zASDhiTMl8Of1g&pJdeQaPwe)`XR_=Rm&6_#6~#j4>Q}7E*9TjFwr+i2z}v)>7?Km~
z^sJz09i_1ka*et#F+?)ma&28^((gW*8%k*YT?qqx@V0OL=*d6kCa<I>xFN>4EJHaG
z+cCZZsZ2ZWCudhLx|jTG5aw|qkL$TW#Vl`=M4dWL6rHd0SpE~+a`POOIkdr+r;`n<
zx!o^Y=Thi@p(bYM^lst&0u^&0ukOcmBqJF&G+a2GSM+kRfa69uqs0jg^g`<sD;c5=
z0uC!gsE#jn#+o_Bh4xQA&1N*DWbr2_IV7=;tpZp$Eoy`Sn&Pv`VfkTJN7v)^sn7;t
zLY`zVwC;i@Q|9W+GG>tYO?{q|GxJw=xW!!CS7@B?E=FZ1MU;r;v^rCYr#YG3$CLfV
zkaEouV-bl1#w*2IAX2w;cNX7{q_bP-(D<y9kda9uebA)E>A6RQS2TboB$`0c$x^Pw
z{uVhBWPItTiT6*V$wWFmf>g(Sv&Hqeax;#MoVl}oIk6Hft=cYS0A1~bqSL*$`x=|A
z%UTIh<6_NN=I84eDgW=6d7ZI<ns$qEBPHkVyQ|Kd<;_=*XJLu%c@Yd}E)e6i8OEv}
zmU(P6uJW@{4Z>h7j>)Z91b!G-;uRBo9E0XgHCbO>9}f)3KA-gnXGFN82JJOHx5b>+
zIdzi?DS35KRriy1Wn*)dUbV+ju_*@*y_X0git(oT$<N<Gx?|0!JyosOiDCSu#o0uz
zI0VqWn>#c}tINS(|CT{m`wQ%kUGfQt{5S0}Hm}A=)xD)Kn<7)E*k);G0~Arxd$%00
zMQs^nXgyo^`5S|04Xn^>Y!BdS!w-h(cz#i_yvm_3)<PA9uOwA1MSkc}uX6}<L~|t{
zIbOc5{mh<G;GKsp*6LRV2YjV+N6Hm&7LeEhGclJyC{l{=edEZnysw<@yVARnP|4MZ
zli@lfRvWe+;9$E=udeOT1Xrc(;?fSZDB0KJ_!)tY8Kt#Jb2aU&mrCnwSEZn5Lew&(
zTmhB1S%ON@r3aHq<-jP3-@%Da$Szb#!Y&m@z^6SN*DMUW9(mC}aE0UWvApM}mQ>HD
zHc5(vS;O~G_^FG?y$|By4BDSgZ@rZ$qqioosSMLlE2@3$gQ!tZvkE$uq#>#eRRSxv
zGC?g>8tHusAF12d%#|$n*6`9iqNR5sSaTn{38=FCf-f`u=ZDrZ1SspO_=J*7ugeoT
zWVWFbMQkq>Mnm4PUW(?bjLU{4eeH;13QNR2J>cvNB2vcO7DTSTWlOjydn9sqU+NZ_
z+Pp%l5{Fe6cW4DNd!Wq}KWq7US_5<vU6x4VoLi+K%BTt?m2)0Pk@Pa$sGnTIowlW4
zVd)B-K2om=WVLUsq!766eohW;tH&7q@BB`OSBhsFB1w}ULMrJ6vncjZClW2ofY`X4
zKTaUT9Ytq@Qe59+v_-~T^l2wYmdy;K6}{4KE2>bvM|p;}Zw062)X*F2Hn+2;0Jb5~
zkYUhZqxMA2TOP}+FClgB!sOH$*BY|?{bBTW=;K-L=51DO-p6#=1qF&94S4cP?_v|8
zeJy54qFZ9A5ODO&V=bY%X;4aOXn!5;A6dGA`S6#QZpwO8;}>ZWv+bH2VE2$6*UnNV
zy!(y3-M1wqb7>XK-JR0&Nou-9XN#aMz_}fu;D8s<pGdP&ogk;Q+EEduZn$(gYVVSb
zle1BE)VGYf2~6>E+9>SqA8Bf`ZQ;wM>F-*CiYHG>X*wAf)lx)@k6<O?i3M#Hrrw7;
zFyaRX3S;`uxmmum21oI1JZiZ#AtVisv{l;b6)K4$o%EEc;$lE{!aGZb8XdC?)``dR
z-2~ru?o<oj^P=PUlmg0kvL*H)8AJT+Hm)0q?&-^MD6gd6;c$}AqfG@U4r`4c1^_L)
z5c+ivt^)d}L}6Ch0NlvdYknHnChN;T%XSC<M)O>NQAMCWAlQUnJ!rPp>50e3FXOTk
z3XCbN9twg@r#`9F-&h|V-WNfiTxr_1n+9!n$NCJY>Vc$bQumjBnBok$o}(fngr1I~
z7=(eirSzg@oQY$P@l}t9-AZTwhZkT!CM4o%d(A4+WAXE!bo(`u+aaxcVi${fZdtq|
zx{p^2NbP2FF|}2p#$>a8)4oh#*7b?2?77seM8d4kZmY%K!0A~zN`7F$jQ?w^y*@!4
zUEoy*PZ9T*&FRg+WVdM~Q53Q_Z9M9MYqU$*l=YzK(V9gmW!(|lnG0s6%{Y$8$&Gy8
zQ;qHADT(Ot(ih4yf_j{z;}Shy%*@t$Qzo<@@1_vgI-Naq@5eSvbjiE=oM|Q%VC=oB
zgGWD8hV9-9^$AnkgQLgTOUYC}OcTC$4H|pO8y=wlFQ+x%HsO1Zz4haiCmW8{%N^4;
z0cqFf_>c~sw*;enn^Q55gXlN>dU6mu*w+Gr%$C?q0JI0pQu8_RKlGnI89f`HsxB1&
z837bv!0+{SH{SBry!E=?Wy(CL;wG4&@VVvta}Ng3Q5iQ$4*^B6yS`*27Hmn17ln|$
zcaiP8h!2Y2U(WmvWuLPV`6fFvn2Xa;lSX4c^gGtET&5i0lPbp`Ce*mjT438>u@s->
zFGo)TeW)dH7gmEjdhE0)1-#eK>tFpJv|Q%Nw=U=Ix}volJLFC|5VbkYku%yRkJr*k
zl&fH;IbaRq&ixv)<$r3@xc6KPr9`146r<^OvwQ&rNnpZ-FhSMvoxFbFXWJ!G!V{C+
zPFa0PTnTecc}HuIgZe>_HVI?U(3DqtU`{WHC}ZzZnxa(S5s_f|*e-9zCaMIKNa}o?
zrWa2<U{4BAX)Gu+TIICtfRbHD`dYf(O^<v6iGLqE_A0uGjchllC=D(D5QG8I_2!yw
zP}R3!J%$fniNH7&ArWoW+IVxZH=V2~*|aw-fh%^&EjWy9U}-Y>I{8Ld_w3!BN?l*s
zN?nBJsjnfprMQa4uFvMFUJmM+BF(KnrWF4!7~tdXw#qi?b_OkV8m^U_pRWs<s%H!L
z-Z^L}#9v45SDEsae4O4K%zd;^60s@S&V_T8bg|-6bC}5zwS?tks}|9FleDUxd}6`G
zdAy&)nRd;w7dT79v2FbF>P$;IjcQp2r?qDg(=alXMj|4!9-Znq;mz&bQZUR-j5Pk@
zg!kq|vdglLkmYBa(XlXX==9EwH5h!_Aeb9Kwu=6?eNk#8CqRc6pl^H2$IAfdtaV+p
zr1@i&rT|xKam;zM7|39^;M5&uG?OsdG%~VLsub7#NiMvrUYlD|8E9JT{#RKr%2bXg
zfF)v{hN=m)c=4%f6r{D)b`8aG6}J9OOLP)G6!L_%Ux~-SDzy&SYTYB~R>7&)QaO_Z
z|0Z)%Y7UQ((ObV6?~N6^-dAe=g<^4a+B(<8?~dp6&cE+zNgu>sAQ@;+23b~5khd*p
zI|@MaOc8wV+w274I2lyii45MD+h1`A2-^W9BSGo0d8_Z5%pLh#VbV$~q(z;|;<aYk
z*jLw%FUY<Tq0mx8K$bnUJgC)5Jl0#3`V$Ii+F?OM)A>~r3geL{MmFQl?r$>gI1?O_
zg>D?}6|<sG9Fv346G3NrUdi?;t)VlefDq(!5NDB-;*-B|lD0etl{d)~Ae~J{(VX{=
zl*m8y?5)TeF3AOk^<!71&`(;MgTr?SL~x?E=`0Q(^bYQmni(Bb9C6KWB8k4Vp6SnI
z5S4spxsT-gPS$(z$1_#in=Tao@?8_F46dUoPXxQfOIG(_x7l}jXru%X%0|&_`Iua8
zSA$6^f{kT=h1*GMPwwPJx6I=0GQA(IF`>wUld?jE87%#3&(iDCd_-Gb2W$69CH1Il
z2FyZDl^v`c{tY+^+F4joojsqfQa#(PVB@8hl7POO0<uN}m5*-3Td$A{{bz+NK0m!e
zHF!}1wcXpIfMNpc^w0EMMzb!{uJ(66W?3F<{UagKc$Xh`vN@O2@|8SEb4hiC^g+$t
zp2}*ymob3+zMGRg{JbZN_Z`2**?z12h97OG$ov=JL??1dafAcu9Gi6KZw}cZPsSv2
z>UDvB-{&{N)l!Ug^Wi17qM=fPP8!ZaUzAkhkjMD$!y#V6(L(B8oBpjiN>qTrvJ2%u
z%20R4&rP`oW{FPu!LF>9<-;;oD)yr8YO54`x|kriQBW&F^#h9(iDb!8Y*?}n^DHjL
z2j-y=7awF20t3x9woyu?@<50{s0-;`3vrS!&R0-iiO?r;E79TNY$!#jt52FCPqr4?
z=6~*cywDsdK^!>7I>h>^a_z8di3uKPYO-OK`r1S$2o;<mv0R}ZY*Xiu2+zB91Y9+u
zcrH^k_4)S+Ok$AxRkw^}f~gy4yg-zifh>L-O{&6Pb;?^xL3Z#T!qgNkaP&3d!RkW~
z86DiFLSU|tY@rIWf0seYPzBNFlUqk@u3?(#nUVc^qzBqI3Au9&803SXw=XKZ{`n$!
zJp@2`WH`&xbOTD8u_ngdADy{=p6d(P;iLc5^_*_s96CH#rlu+f--BxU3Gpx;0(EzM
z4&Sy(S3Dx=c1T5rlcBdd0^6x2Aar-LVy8Msz<<W&DFH{Ua^s<+>I!DYgu+GosO0d|
zqnQ5XFg>}3OM=sgqw&MRMP55PbwXAZ&D@KPrHW8wLUxO1VJMk#{u8E3$~l(cYzcv#
zbUcQ>vW8ocKqG>NsazUpEW+X{nOYkJQ|V0MM7#uqLSvfw7#UNUOy<b!woSrNHiPna
zc+o1bBZGSu5m$xcZqGRFU?L-9vV~K3j^!F2)0L|w4py7uyC68N(yF519N;Fq=r)1Q
za6wZJgXx~i76#T$(C$$2BBU#U;%oa$byeiz4ROlr4}?RS1Khb%Om9w!BI3uDES#%v
z=__&w6AYAuhJW`WU)L@^A6;~X^Iu<1jpMan)AW8?;~oxa^~>P5RZ!=8_BGLfOaFv1
zTXGxy`0Avl?WINp#pO;-HFC4wYCJWi<vx8;a;q&^YSly>N!XPZpBwk@u2az<<1$?b
zp`vHzw$9;V+SjwI1=}INEW2&=b#V=tnvxois7@MbR{e4IKBkB=K8M!mp$>J@K+Y#n
zBOi;I90JRUiF)b=B8R4eSG0;4@1`C>4|~D7)g7BETlJSIqFtn?VT0M%q`-G9T%get
z(wI+Z&8xSBe2Y+TFXqH=4Y&30L+Pv|22xjutK`kEf6ve4=p-rFf8S4L6z<)t7J78P
zQ1}t!amFy6^?P&SMrX1}ds0kjvmc>=b)_37RQN#nd$D{ogS^3f-Kk&1?X7<G=uVju
zu1N)=+TC}}Avqg8IOi3<GmsMKJ*4b7dhpN9Yjzh+0%;H61#9$c{u+ug%(0r#XQZXh
zz7QkV33_7(h?#9DU5O;!ifOH{5SX;TsACL_pn%++OP;3$Hw9S?ix%SdyiXn}9riI=
z#Nqe!JfzLQy<FvTIeXC-p{;7bD8AgZ%A%I0sep5n`BJh08BmzK<Gu;#maPG`Q76}T
zEvkfNomJ`TexSeF>fj{j%X7RIVau8Ew<(B~CliWV_Jd|4A#3}f?h-bj-L{x{sX29T
z>w_Ad*9O11wYa);KLEC8p|!HO+MP+C(@qT<{VXP*BFu{VQOp-`^We8IoDhy88pKRl
zyz$EkzguHQHa&KtQ$!>*!`gm7xm0mi`TCt=Iam#6!<tym+kH~U#fQD3H8MqdAh*&@
z=au8|JG?{;fgahV0kY#kx?Gh;+_$Y8as0NM?4xtaqpHHS&8yWR6jb?Q#`meliOanX
zMcl9GWur4UdE#{$!j)mVu#fFkMQ*xm{36fUnGmVXpo^u`iSL2E^w9mgIIOFmWPEA)
zMVU|$dCcZ$pvL6gGwEfYDnDxb6Q0PI4_TIb!=3p{{qEWveBZA<+3-O^Dm&hte|Et<
zSECsu_P=d}(Ima>dz*lg%UB3{(F7d#4qofP@BMxt75gXWeC=wtJj)DeeGtY(E;iM>
zaToB~U1CY9h^M;hWP5U9ezj%&+z6QaWbE=p=2mM>kLmd!zOxqCS--!Z;hH2)RlPUi
z_WjoLZi#b6yBuZr{yYC`T(7LZdR6zm?R4?-Ih;D*2Hk!r4Jcp+vO{;L-hh;AMKB;8
zrp9t1`wa~)H(F8z?~3tJdt1;*XMesQ81Aw32B7i&GrqJ{OV6i>8|f$5O=1j^X?1V6
zsNPt1Z};%35H|}8r6|;!trw6Agu$>1J{~EWp30Wp_Od|vGc^5S$8Ld&^X>jEzr4`j
zYyi7E#|MKN>jA(Jujaz#`Gd2mzC+Iu;y8NwBEY-L+!Hc}!&`_><{AY}H=^@<|5;1a
zJwdkIcUNFnSo7%@3xd<6tjJF=z!LA&%0WPLf`fX1)x7!PKh@|2=MjCk$T=pLMLr^g
z!4x+g(lEx^-oqS~Hu7sS+fX#q3k`+&-X?RHs(eK0iUcICI=y|2)iTdSfokM<<<19o
zT4QJLfidLoi*Y!t_+9C3EH?j7yGb16G$u)N$VmFZj+kwCV5U`$A#n2J0Y582ha%8t
zbkZh}GB{d2k@0riOHb@5QPfJpFg2Y0WJJggmyL_=l|BYCPH|lNk>$AmN8=w?-U}m(
z=N1>5?pINAAbV0E0y3~<p=n@nJBH0zl@uMsAlfl&F0j61<{&})AwxXXCmPmvTQ0YT
zFzEE#fz=h}ClAN(`0*<9r%ii{X1|0)EM|N1asrqu#w1NPgh4}>cAed4LV5mGkn3Ng
zaN%&EQQ{#IbW$>i0!!+zvUUYvI2Z*hr}2q-1&ol28n6${vnZbYmIdH%al5=cglvl-
z^x5$)LQ6~`ATFYkE!R=lQd3W+Zln|yENw!Z`wF)*GX-YQclV|uP)Yt}83Hz06FCBQ
z^NQ%*Vrnod+?>ej|N17ZuLdD!3`5zW>8crY{X%>@Z=FTiy(ZMcA!y+at)*w(%T>Mp
zIESkHWxO+kLlx&O1Gk4;jXafhR`<|N(wx1EzwE73J{QmR&8L@NR4eWX?S%+VczZXz
zS}XT}q+Ft|u8e}K@1yg_mxFY1o`HBkXqm35!AtM|=A^=YOD)X!dBd`Ht_hj?D_R+9
zTQt4cNMEMvO8UG_T^oMV5malsVwyyg0=e|o+aV%W)M@Y;;xN(y+5kH}=0%_bgz)}y
z83=N~Bh0AKvO_S(T#8GxPzOsAca5b2_m?)DS#wqADH9ZX7!6=zgn*$P%LPT_8|Vcd
z<;ELoQ>(Gvmp>kOL<V6cz>&J%Xy_bv1`wU*pI_;gHI4|I*&9KlB)#dD<M_R=aW<|^
z`f#V{n%7^Ij7aG!V#xl-c1~G&RAZMH3mf&iVwb8gcS5*(Y%m)Hsqd@PCzGE{LE{@l
zL%021CYDn!!$;1MM!ciFI3nM}^L^`}b#VepKbTD$#Wvjn&tn?$ZnG{yLA<)Gsq{E<
zpy!jmMSXMbW>y6M@=opAXLF?N`P7FS5Pv38X=E^^`-GAEt4H6Pu?L<1G)I(}&Ka0j
z4}qI2l@aL$SUp^VKrp**J%>wIr^jqC8}lC%7`PE6sq}4APl>Ibj?tmqVY%-Y$iEC>
z-gf+PVg{n4D1G??7nzio!w^BvzPRe~=OPskpS8d51*!%$^{xP$v!a!<n5{Z_xBT*o
z?%;DOg^U2TFZzCuU^W~NM6}pNli#Jo3ySkC9iClq^01lOmfkb$2FHKz)S5KU4(%k@
zxT>3ZHdO1Wu%orLN>VdwrfP+;Z8)u!T1318Ep#NsLW*!jbx0%aw3ZlSXTXQ3><MY<
zZU4>zqzpR;tMbWjb;#tulXF;d2(06vN55#wv`{W>`j-Cg6?f`HHs{xIa(>G18UV%t
z1q&zfjRJ+6lPG7Bh`24zj~*4vPnFjR)dbS$<d?Ww3Vt}FrB#HxiXp=J-W~o4eF!C@
z2ctvxP`DK$G*rGjTA^9=_qXdyYj{=lE8Un5f20lb&5?y2j~Ju->t6KVa!#lF^c)t`
znHHo!eh(ER{MCisKZPnlxL1KKYvodf>|R+XCvU0_5wHwenc+M`g5|@Y!IzT{<~s}W
zv-epl%xf(`kg5&=Xt!4X9{`9zcfYqTQpL(kjL%nD;#I8dKkmh_MiT;5-s8FxoTkwN
zit9aIGEdChS*QGbSafLO`GBAhnxF`cT6NY6n#$$Fuz5wmXLGV^Q#~jSK~2^ARUE~(
zbJ*S<wl3m-0=dcW{|S-<c-obd%XWe=5Qb0RC=`OQEY?LYQd{U{Hz#7WQB06bZ2R_&
z!3zs%ag#G=4)gsp^AGTn4%6*eLy9R5wRjJ{hx5_*_$>op|H!BmbB<!o2NkQekc$+P
z2%^V*){Ay&4yr<-BrAc*ACfS*0*CEjF1X~iD0EcSLZXFU6Bj|Dq()%%!mPPOk_--@
zkN(|-r|xz|wp;3Yq!ahLnAq%rtSR(u)6!z_NM196i86B56fP#KOnp80hI|6u7==7W
z1*leB>L^#a3r;DLOr3bgcEXtz-5w|M$c!NaBkg`KsPbHu#@ZCvzbtlDT$=SCHGS=K
zhz{efRn@XA0GbH-R5`!GGk*PpY8%vMU2ILGqY0c7^1SBO9p-M&pJsV@n;8*qfU>ew
zg}>#6|Hcb9%K!p~SjRW^5mSSFWRujMkels!2Wk(fy=BKO`gZ5ED3xq(nt`1<cs-8E
zH_OR%^isaw-a}BRnm6Clp?h7tR|xwF#5;lZBKs>qAIC#Dc7OH<{g>6Yyal`1@n3of
z(+b*9xC(gMty<BNqB;<*`$qza;^U6v*1EgnTF&0P`<99tl@Wm<(Q*F%hJc#j0G*64
zluFL&&PlpE4U+j}dK~fS4?2z3<I~fB&m`dQ$uOfiXM~G<DyHJWCy1T098Z!JJB{Vn
ze@KCQ;t83G5l272%zw?&?KkWb&&%?3N%nM^r+&DmalD|*o#g0~!OuvroW=uwSn!M{
zlY+azv)7l|Vmy!kef&<)GR;|#W*p}<*)TjWt}o;9t&h@&>1cW^2<o>2Y2L%-99Arj
z_J!fz112pPyvfr;Cf!#k^#z9TOT;3lOUA7r^2!n*1YND{m;i!m609`T-%|P;<>E*T
z3RIMA)S?A)(bOIYNy&z1>Z(5X<gW$a@u`VRZJxg5coun(us8T<RBRFWa4gatvl)M+
z@qxj|_xWMHj!tku$eAD=bCBCqK|J(S#LMG(s~U4}GFHw&;*nY;U0oo=#Y{~HASztv
z>ApxOwz#^8O)`dA9wnmOwCG09kRNgx5Xq{f;XTr_f><T0k+ET+2u)EaMBlhzjJA29
z7-Qj}pql>N>xMnN3#JJNL?C-3hHy}fE*ubJ3I_z$h4TS=Z>hfHfCyx7#1IaO(S-wI
zOyPi_x^O`|tVp(#M0ml1a_05OD%wPXTVXZLVE|<9o}oAlVu}aD)V0Iys8FK5#wl%3
z4~o|GgF=vllZJ*+kf|aRRo8I<i1{>)H6efqWN*Zf0gBOs7l^5A(1wx)w^!vovueUY
z$jOu;h6PO50}eAc6C7ts3GP=KM}N?%bd5E76yV^pJLwu+>r1+Z*E^DGd{-;tg(WUw
z8!DnBBk~>)I?Nc`k!YXAEdWG?$S=k!WuqjytU@;^EUvMV?UUH_AmCWPa(2%IC3G#3
zl0|I6aID$fr(BdoRup~BgE*2D_HG2e#*xrHBPv91m|9yebZ))8Udi?riLE!tSrL0g
zr3xZ)#+<2!29@k)7~NN7e^p)ubkxIZN4+3r{=&bDD=PM>x?CuSP|C_#80!Mcs^>5m
z^$JRT?k`}pYa80aVHoY!%3FChh0(s)teQNv!B}G`>*W*!<4vrzl?Q`vTG*o{bPa_5
z2alGzn9PP>3xE;d%y!S|+mGPT+Y<bGNCg{;v<zAv{!W$4{Q6U?C0UpapRszd(BZY}
zt^pDZZbNM7MyjhZFrv#*4%O#^reK6}i~F9H`{yXWxBEubQ3qbH{}}Nsrte?mooDeL
zv!;jA>%ACMV~fv~CErG<OLA%v%C}qRDlfST<->*Ys>#n}IkwX%u-Z)LOxvPS0M<xL
zvaS*#Q1fl42!bl27l{@@5LghSKDbJPq3)a2sAU4!E<IF*$kqQo@JWE(qV}y)!MT>U
zh%$f@UP|fkwlLp`Yp^QkThWExj}hi9%Nqp5%Q#IK9;vJPT+t5OX;r<H;owRQ4mqu$
zHRyQ<x|*clniw|{pk`8W6eiBAWTU{u#()`Sa3kNrM&#M*dYrN`@x#VM{aui)F#>#1
zsxNcc9MZrv*S|R$x~4h;dui4u`dYY|q8-8OpVO*K_%7PXukqmK`{FZ4_J$O3FV0$?
zSazRBE_(*9?+TE4jqPYh?bJ&&=z0&nnx+i)KGb&RYuMXD7h0#Dqe0Mn@YMv}z+U&+
z&V2isvv@13Q-9K+=RNppdPbi+u{KWq#jz1-nE4&(Y7^hV|6+y-o~&3RCQZlo<vttA
zk}M(`k6+o?XRjastqlIW?Sl@dL7BS{*0f1n8;%Aa@4<I=@qgqihhyV7*9Umoy;*CM
znlKcd{v&w_e5{XdZCC5Kc6X;=GKf*r1;U1~kAGi?h$x`B!RZ$lXURFa=bqe~M6{R<
zXK&L4&G;}OPv*yPGya%9J|H9cjGQfwFe834<AXkO?uu`k9eOVqz3(u?$Pc_U!M%Zl
zz9511JmXDR7Fpwn+p)(I5^eK0%=@p4Uvs+qZs|zVVn%%wdOoANHOXJiVKP)JAAzm8
z_!Q3vu58v8Y9=cue&ie2NHdq8G0u>@a6r>&t?2>}<u3&IHjw5XGE4(b;u5rfRbC5e
zdJa`;ta}OKDO=GENp=N{4VznU$vncvyqq;fVrB)BBQqi6o@_8D;XXbi!tcfCtAovo
zSu~!7m6Lm6qB36hX_W8|07g)Rkz{G%DhOs02ZW;yWr&1vpaNl4R8XBpzp8{PNPX=p
zptz-^#o(2UpWLG#r*us=1hXtV48Nu%n+y(P{wd&O3W#QTzK>&$vSlLvAx1vu1Gn>+
z2m1cgNP9bEy{437ms7;)3yzY-l?9~fMTo-k*|c@!Ea_5=J)#Uo=tgvB<>NmPKINI8
zGrT6g$FUUQrL^itQ|zhn>)-imya;}eejwAQ4BKnG@v?GgkBYy=_XECcK{HR8vW8S|
z4N{m+%t*u=K`)Ejpwpf(=}Fk%JycV{)FPHiIA(pGuam^dpFK{QGbtX-2!HSjC7>6a
z)^Z`B+bZC7@T!LPS?lT|q}Il4WXzTy&<KmUd+2ECrn1r^?;gP#icj%;;B~>gZn<>9
zWKz3<(k|1K-^4K*aAzYFJu&Si%V;pmxXZ)drjuPfxLs-`7nr;VPN|8aI~3g(%tsYM
zJTLMvN?pdEy;8>8)H5AeavJQZ>LNpGGklEqRtwSqEy&Y)b7?6WKq>3JK~+gpMoDd$
zZ)0z09kbJs?V6e<w6LAF1vMcp86nMzkhk)r1@unkjM*jLzVgZTTKf9XfR3Ve3CNa8
zU{ehPZlGH)1<v||TkQ{0ysiDg21;6Qe`=aK@JMUfl#kK@TJn_Xk|iCWes<Z(4=L-S
zqAPP&DT~;o&6GZk-Z10lH%3E=+q|*4$zH5X0U+(Ue=ce3LVI7SZ60zLT}N<to?SM;
z{5b~mT|23_Qr*ErYuZ!D6F$NT+ZKsD>61c~4epUA{G(9M&fBd#8(_`#QQex2SMie2
z)isx6Pr^93#chG7dh4jxX;;8~X8ja)sdD*Jw*vKwp(fp0imjd~dB0)sZyr#FjZ`N)
zy=Ra|-%9P^nl2O6GP0B6%k1Qn1P{HKr>s-IB2s)!Hwi$#f0YAi`^`$s2zc7XSY4N*
zI1oMik3_(aN40g<U3EO#&c{<ugrKyLU<lpz{`!Sr&!E#vg__-d@gSPq+*`@5N|DuK
zw0QoOw#Y&))F=(VI;T-EKFz<ZiJiW3$ES++5*cz8^4&rW`^2&*A&dNU!#RzaUyj=?
z4{P!Ax1F{2#64z0vAz;Si38(l?@>JJho7%n!!7xPoUx(MJz`lU^a24)HSqKNT}XCH
zWRBD(&NzQ^62=bYztax6H^3#GIg7VU_QI5CS@f`Pbt_!mpk7RCwKUl;G|HG>(>rvA
z4+IaSxq=X`hr2pDQ$5yl%b}m;0}E&tsRD865LeIB9;D+&0n2CjE%=|*$KuaE7T;O3
zIQ-BRxFZn>{-I0gE~(nDS%O}~&7;&!s7y<@a>)5y<<A}B7C$g|sXz5|?OavsbBNU{
zW*df_%GXBAFY&a|1AJ^+VzA@Waywo{n}@%M;|a;Sp5V_+DrX`^tOvML?z7X_3Gx>e
z42VQs(k)2M!ZJ+#n=0L(u_{!T^ol7*G*uXttly~8(}gw`Ser}#zpsx4*Qa0Tqi4nl
z)Ha||0IrqHyxK6g4QYImB1<qdY*?IcgxU7uq@S};A&thzHak{kg^8m#YvD?D%Gid=
z=tGH7#sPDvXmpQ(17}cmg{JFwO(Od%gyn=j<B9~5?&AExvZuxO$@!}t#Oi+ma?*tI
z3KA?N?vL=_i->Eur{>g?0uz%C9MICqbI#OW_#+xc7}#!2gi5s<czM@Qz&r$uW0>>|
z)8L!4G{x(Klrwb4zQHcA3l=LDuv|EgVW<phsOSKF$EL-}4Q}=>FMz$g{(Z~j8u+e!
z<=@?r{?yNBjF}O}{S0;!<gQwdVU;*ao!MaZc`5dPx_OOmB~o}KF5IN;YPY*MRX~^P
zT$$3aciZWpJFfFqJ>m?98tm|^>ZmE?*5IUKvfY1*Q%!bTLvMY|k_crGUJbJ!w>b=e
z38M}6s^>#2Zy+T_qkuR2<&CB(B&#7-9;!i_hC7bM0aA0(1$O|7R{qMvqQH|!WzWM?
zM*vr?rZ$EU+JR(yp}5<`&PcXjdo^(N_7Fb9NO%VfpS=;EtE31g6N1P{Mp0zKCS>0F
zLvS)rb*^LSnIn;A5@l~sMtrXOIdDP;NOVSm<63D4b2gQ>4xCL?7oPT+PVPRq^b?sg
zYE<aQpba+>awY_-3l<v@y6n!t>F~Nni54or5aH&LsWdg<R0QPYOnHDyZNe<+yxTE>
zb4qGBm0@QnFG$SeQ|Xz&xg2Y_=p2AOHAnNb^RpiV=OQ6{ZBCVk>hwsnz4l&T22Lr3
zP+C#GL)moNpk}LH#Nm7t$f#HJW#IcLM^NVHr*bcb6UsmrtQAWbMfpKy&S%r4sD1|W
zQJF+t7+)YB`iQ&LpFnj^4uZZUoD2`p_2nKOpI1<PHaw*P$`by87|+*z*szoIFH|kH
z^qDpP2YA}mS#5WsI21nnj|dQ7K8mGXcO93bold{yM7U~N2$+Oc=htrnI^zpeOKs11
zdKv;I&%Muclbef@@nH1wP2Q2dbcen1e?hwV8`}h-Or#-6Xed&9q`Ves519f%<F?GF
zGNXJjQs%EOVfhqH{c-&L<{#pQsQ@R<Bo>s<0gp}l<okWeez>dt%wK(bm=H&<`Cr5s
zel!5{;CYh1{_Et{g5YJIDsW&`K-YSN(0%$0e4+%<M7!q@<nBE2R|;7)%Ya9O#_^zZ
z^w0%lWjPO3P8CErpiD?J&O<|DtF?Q-&R~0wmBGgSG)buMn<sy|`<)R@AnJ+vl~Qmc
zswlo?5J%U{p#4Avqg-7p2UukSSw$EgXq>|}^KgCLTq%Lh95@ITN@U-ay?_d1=*rm?
zS+=0!r8z&?>TVF{^1A5!Sb%^)K*T~l?pnhWvl%FsKxeq={5f%{DLGtIn{;SIGkuk<
z8H@F`bz59E^E?y~EMpdygWZ8{s+Do6Qli__4V&f){M$Q=jE6}7Tf}n^@u!-+gTIvg
zcoW6>baLOindGdsBv?OBL+1rT=K;d=xcHvUjN_xesroRfnUztsXlGPN#&reZb%`73
zC&*@!BxyvXTE}2{(=AdJMpuTE6O(v<_bd;;cZ#$~lUb<ItY4GPp0XKyQbeSeDVK^+
zG0zj=>fCvFY3|C=FOSkbJ79KKr&Voe0h0ZMXme`xHs;H{J|);p0locATl7&|>6A>U
zB-~Vx#^J*HW0l#HiyRLkFx8J|lTOjq%Nplg(ANutb_?eT<?DK2*Sxm8iR@0w7aNV-
z9dMPJTj>enBa7)<VgO{l0nAFrPWnEmNn>rjNM1lF_g19k;qGp7F0#J!NT)V4%6Dh_
z<E<O@j{IH^XNXz6;~g)D(u&@M9~2bt2-@><@?=+uT4U!EbZu{R?Mxt^nIdFYRGmF8
zP1mWUi@usJp5z&bJ+3xsv<VN7FMM=-waU}$O*4h0z0;aLA#y0IR<%k}`^zQm3td9(
zN$NC{6bGgtD`<9#uBibKhu4B2hv-fCv!%4pmD2fYDO;K_2)?JK`!TZ4xn%Jrw|v3s
zm0%rlLAy5)v&1~Fvini9?p~%*MDLWd&3r;ATbodJO<pa&GT4hIx#W4(+3vt1@3<Mj
z^XHpsM@(ih-IN(JtQNL7JKvc<D~{c$DSEd6zZU>?(9jeb--$HO-U(X>cy97Lj_2i2
z55hNVtilfPu?q91u-h-$-wAwLh<)HAfiH=BATetSeYl2?oW3mbf!oiGm)y?&ICA-N
zs0Z%;Jn{RDp7v%YcfuqyZ;Xo3*k6vpw_#cNqs`@w)!6zUFZFS)(<iV8c-pmCYjc`F
z6rKJfmxtiT_~_I&u_;N@e%o2$YPNx0++7mwukW%DK??><oXiju?m73|Cy0aj;`v5C
z<As_?=lUx6e#;-fxE4kz6+FZV2?e)onxqRg9%ApBDi9?0WVVzkVe^H`|0WVPe{Pqv
zApSZ1ik*-Puz4z7LD(AHAV2<@%_frma<-GzY<u%?hi$oIpK!34X#O1G_?jQn6)2j3
zCU&rYU49y+L`cAd?FQPP65zMQg&W5puDKhbh{}*>f~+CZaK2V|n_n1bs}%^N3|Uuf
zH-(rcxk6OY;OO<s!I&7rW`CWCD59Y(Jp4={j-(v}>v6l2Q}npsOCVW-kUdO%DlsIf
z+V!&0Zs8<T?KbsHSyiTN1~0vhoV==fTlo?cKFhMob73k`OC_1Wc=_Fwtu=;+T@xVP
zCkBC$1fp{>>;fZWbrc()N|1|@V~lTjL|0T70<r~cGAf{+<F>}whok1sunG(E3y*lJ
zC}$+z2k3VWw!VG3<1gRrZ19NPO~w_B6vv7`0h7TA>4n-N0r&jg++SIar}+I8-UAVo
zFm)-Cecbk;>cG^c793o;ZgNqKF4xSd;`~iGKNXazCcM*H8@xZo)l@sR34NCTRa_4=
z9DtrFLJry+DKMQ>j=Ex(HEuIAoQFyfs-ze4IEGLmYt9s(=lf7`G16Xhyr1E1to1SE
z9?ScW)(vCMz@3<*Ij@0tn=r^O#QiL0i%HI?H94n&>$zz}J~u-Mzhyfw;g@&!!|7c{
zha2pYIOd_d<XedBG2b>jZmFGfze{0O1iYb75#Y<a;lMT(&P*S=J93Qix@wG1CXpUK
zoU3{%3`|ac<hL9o7PU9QkIOXy`hX^|!z3MPRf>{$wy|JS!|qtBuK{{Tg+8^g*=t}$
zYnqG@e6)u8^|jS==eOW{5v)iSD{or<FF%(o_6KFf6kDE_@1l4P%FnUBQ1Uo$sPS%!
zN7#-vXC6iKGV@>S&0(-rC&~JYvb7ky(%|;c&?nQwH*jn1cy7&Jbt~CXQL>HWyt|&0
za-7Rd7u@5$u`T1PM0W|5X-szcd4=3%z3SISR0`WKSHFF^b{$v^u;<nQ!R@cb9haG&
zpNC7du1sJ2P^RNO+02zRa~b6&P~(HT#xrqpQh=uq!t$b`dP+Fi>6a93Jdc2>d8eHh
z1TfQkule_rOL3m2eC{<{>if6*NO|cuzq+l)R<>O)wuAB9o#bynN&ioQ4pjdD^2RK@
zi)We*c-qZcTX&l{5I*~l3<d*_apLy4n|NJ2?Y2)k0%T0Xtss(kfBlM!K{$Xla_W;8
z%*8X`%xFe)0km1&uAWzPMQ=0zU+wjFw|IT{zD3jQ5NYH!NzEknBkD(<GAYkcadR>^
z&|gTLRBuU<gM;8Q`iw&9XB@pBx#Shfz~C6zeuUEll!H}q$a1^5PqNI9BOnh|<)jD+
z-N&w=H4{wt4V!7LOoCGq(LKrh|A>n`5|Pw*5Kg^3WcM?U>yJ!DA_A`H+(OoZ-TIuy
zc~X&h>!)q}^7k~K?2-OEk14TejA;BsqRf1ZAIp>W)?{wCum%uzU8r<9>;S5wuyv!%
zNR+J|k8UDm`rXeq^;6<Xihx@Yu(;;Rq)>fJ)7+t#>uv*0{+K5Lxd`_8p$|`Y(>TeN
z3`j+@ReZ;;mIcgQV+tpE<j@>5ODoDc^`F_<l9IH3uDO_E{gY1ux4xs7i27|DhIp}<
zM&yOv{4>}^sIdp^xFuc@NF5Q3>Ot~ng)r-2&J^`?b;be%hgUa7D~I-YNJuHfJkF!;
zvS{ld&)!iGjT7V{r`L9h0r;!?MZX+ZagAy_AisaD?ZqbecJ~EoPMi|WXQCKcoTm=S
zbP^`?pf8H!*SBkQMf8mn`pot{zgWcreeQe9h$<$_4<vmih`z+gWzT5_Vo-pB2#U?L
z$T^W$kqu=ol^zV1?z3v=o}n@v74^kuHAK!T0TzHY11!YBV6L_yG*6><WuzAmNX@_%
zWuO<Nk16))KlU%;P(>}-AiLOUvdg*kC@0OWqv1}J%e3IK43nVb)GLuBuZ}#vAP=kF
z%-K%Sl0#bvaiY`aL6$P3;*@;Duq$>1InuJ%kR#2DCPSR`ZG$3C+t->1Q>)yXqLl0i
za|=h@B~*nuGD#7pG|f;`8;a8p^h9F}I^EFGCySfnL`p^U8%AZeP$;Xa0AXU4le2Bo
z#K|ouj$FU!T$ptZsA9%8UOV3TnYa#u&7(NK+WBzg1#HVsvGYXeAjco)+KkQM4pyeT
zGI#d0BJ(?RDSvZ?L*m|~-n(G1M$AGY_G4&Ykp6W`f?Zk0+#@4Pa1;^O*jB$<ajjH;
zxg&ue7IjcIDCIpTWsjOAU2RK=o^P1<QS7=H>#SHum19+Qj!R?0WA)A3Y|+^4l>Hk^
z%@q@!0-w*4T5BX$Z&i6xUzf)=XAX1XW!0*LyA6EjGNbolO<ADnP7p^&Q5pF3#`Xt_
z=<2WfZFwxuYvvG##k|8h{SI3$Opn(}tDj9!KP~TgqdSM*ILZtmRC>fQq(zutBcyvo
zyzh!Q+(hZeChD$gCyj19sn&gDSvJ;xc-z!25{>;Y{5n_mXmO7ggWcGaq3SLx7Ix-c
zab%pW@)CtPttXFvM(BYK_+v?K6@qt6%{8Z$q?@_oen?4&oZ_PjJnj%5U+R<D+I8e^
zhY|X57_l5j!YS)ot%p3gVGV{C?H9@<%makWD-KJz18oxG+!{=<V;uPn*FZ*TMVelc
zViW}lWm(LXH=s1jToiy%TInWD@c|4og~EJ_8ruP2G$;)BUI_rB17J=DBw(x=RHbFK
zBXG+ZP?!hoq%j!Agu<-IvxGK~ux}iCEbJB0u&<VTbDUdT6#X{TSlsJMfUz6^j9J0Z
zJs8CWpmg_600;pG=E+I{uy)YZ;TkRgj0aKabUX}3+e4M&Ue}7lsDkmy`@vXrs-n?(
znp)%na|)V`cRXxNiz!G8Zex_wLW69Qjm^ds&_D{vzv!>wbch0txyBUGMHM*N2Ib_R
zLF8|;`k4GP;Vjj^QON0GK=f!<eM}DnmTgapD>*Gph!#!pGp2<J3J3WwoN72rP=Su`
zj>&I<<d^?cs)n13r5>xw-Q|Y#o%Mj&^&M#bSp%TBIXn#H8$=&t9W#TLvn6c%flt9L
z)=vl=_l_Kjb7tzGolG5OV^fD&{}{><oipg=oS`~r%*G^a=L;HWzHsBZ?R){dZg;*Q
z79lfq+BwTbi0HIeLsmI0qX&3thCxBk^_p@j*%DuMoZGi-kP2KME2n}Z`|ZX#JsjaI
z_$Hj?G;xK?pYEP0heqVSFga&6B3?W6<PbSkcA}W=n=m;b4^pHw6~&mjJYjPUr6@T~
z_TX=W&S~;XwEp3pcZ}haAj9LLj`0dboxR`6!>oUv{X#)_jTHTOulNR#;P5!Je@_g9
zX*Yrbd8z60FEw|<FEuZ)$L^y_+GEun`X9<W)kL#+zYuuZ&0B4A;x-VT{v!;QUp|JH
zw6qDwh1^~HNh53lx){qR%K`f9E6Es~oPiZ4ZD(#6*|+=bqt$99trh$<p1e-vL=JNH
z&D{<bqwV9@8Sdq~w3jf6UP)3=$C;DpB~M7c!o_Sg>U;PXY^_MI)7xHaaBE@Eo$n;I
zF=P}f1Cs%O8On&rDONA=BH=`K`o7V9ZPG(5rm6I{EXMq0FLeRGcf@C@wARU`fa$nL
z9qj{arD#QfmTDf0;QZeE8K&jG@dOrR1JeuMdIL@~eAhX!$!_N@)rj*K8pBk(KeL6~
z?Y?JhV;MDAw$Kk!y49g`&bde`xHQOw3V)U^QA`uIwvf+?G?H+6|Ap>0T$KF(Y*z7N
zD%dME!KG9tvhQNY8Jd^lG%KW5Q#qvc4w{-@(*~d(m^8x<^5yhp#y5ZTip~n79|e~*
zlpLF0<iRt4HjU$}(qvBXiNRRX6h#S7sUaQWJq>qABq>$skMGm@=qdR!{2jXy7qpZ|
z1M_Rzdn0p8BY`$DN{h9vp~%vZ)6te@QWTN2wG~_13bm;(DdVZFC2HHNpMwK#Y=fIj
zIUO@!3L<Gdp2*25SeHpE{G1meqB)}LOzzM~|2`RtK6Yc}1$5775|0#6AK`GURGtN4
zvhPSd3Jn=N=i73{RI78t<TSG;8}+*<MLZ+Yt;swBI@a%Dr!zgg$+D3rs3a^^IOrUX
zPF_acdtg!pl(Wy<8zxt_x`*DK)pCiH!l;FJs>SAoq?J`7mibls=%^2(-UzZ^T~nGX
z7vi<@-$fWLRC>QmixZ>!sNUWd4N)PuxCBs283Z)aO~*;;2Im<`Qxg<N^}K`6`NhM5
zHv7PG`EG22D-aq+=Ngzsj~;<~_)L&`CP>Grbh>krtAN8*upR->d4NCx-0QvC8Hi?t
zHHl2hK#wF6ymIKA$2+C$+bN@?a^=el2x?a=R|dkJs#d^qZ1(Ln&BhGll$Okre3;tq
z84VM^&7*WttxS93f@n#@+3)f4h-WISFQ}MpL-#HR%1M~qki+CgKVWkADNOEH3X>Zz
zfO0^)4?w#Upxh?`lIz{2umSG%`4%QP+`+osyXQcT4-^(Oy+;o0%wqvWoN%Dvw3x#L
zpU4I%NMRw?o2?S4Akg8@Vh0oalEcE$y(=VaLc5~`im49*K*=A#G~tfd8O)jP1Lqk`
z@{zv+d-O>_d43YW3GPmlA_q#UvjI$UMi#&x&FGo|B_#p&=y{jHtRt1&fDT1>su=-A
zH|k6R6YUF1USOgFB7kWQ4Y)cAK}FLXiYnB}1}1vXQUaSM<)#WMDx(!pl%>F^MpIq@
zmpG&nDKuPEDg}$`GBi-M$S7<Qpl6oEz|k^iXqc!eL%>A8t*D?-QI-Hj|I!5jkf^67
zH+1vj^=ZV{Fbdv~CkZeWd84hQ0_HI9;ZB_xVQasqlQuBEyeA9XCn^glU!9Pl9F(kN
z5mZ)J)nKwZ)pOW3$orD!&}GRt$rji-e@GXkNMMY8lbN8%`nWiw8Bmyts615ygiX?c
z(omjbe*+JC{#Pbs0nGlv-8`3q07pAei<MOFgN<P@<Wl_u_A$685<X9YPp?!6228NQ
z=R%#up@}n?(PRPM!h~fnhrnY<xDOJbS3=F@tNyZ56aRBO8DFZ1<{jKoVLLW;n|FoL
zi)CO>>IEtHBb8`rB%SWP;A>s%B~qUV!-aapTCi660g-ZUN6KV&y}EdG->{?7{V4yG
zknWT)p|DOkD|ed<Rdkz`H9zl>uIE&oVzE-m!~ISFtjfL15xKdB7bI*!C0o;~kXJof
z<C6=_(KwCi_6pz_pRMS6`-<+BfzsdL_n|TwK))@ZliwDq+W~_Mp9oO%=Y==w=j*q@
zsrqfFPih$GJjTfqZXM-vjk0sNP%!|`x9~9ELX7m}$kiioD4lN1i+Mt^8ax_1D&^{@
zk$$LVU1&Z$>q{k_PJeF6Ev|733^!eV`rpu7*64*Q0QkS;KG@uF-_MO8<C%&oCXPYU
z7AeOyEX#27KRDdfpx6+LYQ(OHwSesz1QiumQ~7_e(8FZMBW}mzLq}>^<M#2>Zch$2
zQ@ZbGic@B0tZ>&X)i2B4;<b3){Y5afG7w#LigC(Qb19%DZg>jUEQsyEdrK<YA)qLs
zM6|>3SgMxDmPCBj6}&E5q8##PJD6~x;{FD7!ZMZL07rLAzd7LK_ZYU1tM=tiho$;P
zRgopMy5M;=in;oBJxVX7o9neh^B=~m*JGF-yv6v{2IDDvQju>i0L2vqD9L&z$$oC!
zWLqD@bdo-#Rx>hM%!-eHNcxR*8mRbjS$(RiP}Q@Q*`Q|DcDwTPVjSvf5nd?|Sdj=@
zkg!_ptXSPCR(n#uhB9A<p{zP|OVs4h{&4(}ZqHP+V$@4$YQ^QZnun^n1HPtbW$BO8
zaX3EN^&Zc1#PsnyFo$sEs_&!Fyr|D@5CQ9XQ17tQDenU6+J}`@(k29NJlOM7Ty8(w
zQO(rtw&VXTg)5U#+>Xb`<ssUV*o~ueQKNIs>Evbuwrok{<3?=Nmf4MmjGg0i`=s*y
zxNrv5&gkC{kC!$qJ}x$rR<v#$80(W{ZXXrd(U$w)M1;7O!L8lCYq7Iz<&FBiVnrdV
zc3JxE=i_B#E1cs8EmN?ncl4+I+f~*|seMu{DSHM(I4;Jxej)iHRQZQY`V-|I37J1~
z@?(}~3E5rJ_vA`YQhrXX_NdOYdDky56P?;1FV+$b>AYC#7Sv47*39WC`d4=1Z`O?a
zF8LFreHhJu0NOHq)axFX26)=FSKD&hFc6*o5x&USkAcuBZ9+4Uwt3qTW-%^Ca&$?^
z-&YbQAu}PCfj(f?@}6_FtJPYD>3H&VJ5fVf{)xB4<!F2Rdj^qwVFZQXVxk5SkdZYb
zhR*{9qXB_0&<$oC<D0AL&pW>QMnVXJTJRh;G#5NfZ*c28Ph+;O`1tp3KAKj)uD?T^
zbAi!vqp~Ye=nXO@PbV(sv-{+Frpx3J2(2ofCsK)$70Jx~oyz?2q?z9A5J7ZDg~Tya
zCnsi#T~V1qfuO9w@$o70S`z0&ruJ&xj7&1u%O#3rsD(7sJ=8uf9UHySH_fphomFmk
zO>Cr8dDc!xzDvZ?5WYq;8Cvg;{A1kKqF<Y8G1Nh@(UmHpWDDH(2K`rPO9doN1q6ZB
zl{IAy7w>L*gY<G_5)SAdj>JWk5@~G`rc7XtHoG!I<y<Rl5`DLx@#i0r?yZ14YOXL-
z928$8lj%LbcgEY$p{69@kxrwU0U6t5x;mc&u}_e=&AGFCX4JB_BqiJ@B{B2K`KB%_
z1oyBDI5pWg9Uj~Ccku5Up?S%02a!Ga2$iUnK)M*aHV_2&?ry*}Tey_<VMm+IjJE3-
zqo_dDl;$N_?aS$v6+R6xh9Gni-lCMWz$1&|v*CLA3iCDOR4RXry@Nt<UHfBPv4I`)
z$7n{yOE=761MvohN>GzJ(M>9*rn(Bvwd{y91~T9Rl&&lE#_jein2P2#h?VRBL|j8H
zFvkV5++Q(u3vHUe&K0b%s?j^jFsi9q*&y8+$r?KzUxFwQC>8J}oJo{X#Wx2l)Y3fS
z*6!bl#%^o->jZi`$h=t%LCf*MU7YK~k<RogMjEkC4iV%U=en>~Lm9MDzVAz2sKc{o
z+rKVlUD1~V(&#Kwl2@D|8M>>p8`}6HX*fzx+UVb28(pbWzl4mB@R~O&dqSb&uYzwp
zzlq|d@onTY|MfUBgSb@Ym~Q*El4dqlg}Dks^PR!R=7HJjB6DX9>(+?UHqmqs_tZ_x
zMk?KFnr*k;*WCOQx#@okGH(kqK0m;J!eNwTxhc8^c-q~UU0d5A6vv-^qmYCcFKt&h
zH`n!1r@K23O->_g0tlqG-+n-=?!~&&d9n4PgiwBP{)cmbz{S~kF<yKf+o5SD^GkXE
zG3%3Cpm)8rnBmg;fAaH_i_a5z`<|vih|;oxj#XNwgj~rvic71Jbz?iAK=L12MoUW)
zrWA@ASlg1Umhkj?HV%XHn|wK(jh3ITFCjB4K@!!A%J$4+O(%?N<NFQL6jHm&uT}~l
z-l_Fd(V^@*HX8YsH}Ie7DaWkC`b0N}qA9PLW%QI|TOX99qid!)6ZT+4;ZkXmgoV0h
zZI1^fEFZbzP!yF73e>zZBz?E8O_=uc9-6$cxd&|n*^6KHk9^Yh=0DeWbBh`$8f#v;
zeh0IFEuW#~9hT>t%0Ikvet5k5Hkpnt+AnWEKwe3W)U>?9oLkiSnJb?6K+dey$0x4f
z)83+2^!}ev^sJ_!rerl!?rDk{Z{4#v4UY{sNDJ6c`sup_F3ySjB{0Z1jHb>TS?9em
z9tLMTH%d{vJXm0<G#8c&cjp-t&Kqw->zPpfM$7MRJhl=-ESd632KSh!resiti5H)?
z#I42(YZMiF$v~3HV?!!udy=J`!ITTBw)4fbpUu2SJ-S}zL1-bF8>ZLBsRn`fdyJ6n
zhvg1S_u%Lh8!pzMftS%7ilNgc-Q_|d&LQj?(P&s%a4CSXDB+E8;SWNJXf_QN&vA7x
zbsY__Z8jlqV`0j~3K}hYwGQfN-c(W{)Y$UQ=W;B6H0?VD8`lLpB1g#ZA(eJUax>>D
zno%s)ITSl(SJ9BLIvU!?bCkOcB{oCoK511{E;MayRvfiHpjaD;J>Ci;x#P!7hy~ql
zy@1E~c!45`abMjKQs$3+N$9(N`D15lEYlYJ*{~Z>Iuk@N+CxvWUtrR_a;eIU={t9Z
z!tdri$EJ35q?kK$L_-Q+L6`|pRs++`Zd^)!;uijU*j;3IgG<&;c>|j?{Av=|;l!ms
zow(cXZdL1cdO8ecsBfkquQo;I9DeM+ODt#Y=q|;(7iV}1P5Ka;v8Jc5YP##Tw*9lN
ziC;ut2lvNjw(KuuY;#Zk3gd3I{X4Oza54EP?*w?-&6r(#nlKoKul*zW2<o9yy17|v
z#jZQch4>0-V}eOo>AxSO%uXj>&aRP@kb~rT?!0`wkK)<n=gma<l03MDzY2<*?;&>N
z3qvbX<k>_GZEV@s)!gSyL7}WpCLo3-uoyn!f8K68f+VS0bE&Y*7f_UHQWDP2(dsv7
zVZGxFMaQDBIwbf^REn2eoulbAXuhkCj@xwh_sM$43cxcEk>WxN|BxMgR2%JSPgJ!W
zHjmRqFr)WZU$Gl=0Vt-N0rK^z=e4|zUw7;q^b%koNG!WqBqU+Us6pA|nJU@6TYV{s
zy4Z4uJZH->S%D&JkU_O|*vF`n0yNd5p4SkrK4UU{3i<OlC-0;fZE~)luQ*ox379<1
zy<U|p!nt=9=EU1z6j91!wBQ9Sogps{pVqBzf*X`W5a^=z=6tS=-w=k@9sbX}hhc2>
z;tUq#2uNxM#GyoaW1>POE)U~okxHG;fF%@$B8s0t!SeI#Lpl&iz6Pe`<uQ?#ut%&d
zD9+VOdsuFA)fN`y^YuDv3ypWrWVC{|;B=?u%N9b`7M|W+4zgNwd7y1$w5*2|1o$+{
zCA5j_@9ukPG+MLtenXjLn$6zz8F)0ybHbaqC5k>GyX`&I$AjDAa5&XVPBrzVJ08q#
zr#$_F%A{;%g2#9r#e&;tR7UK&WBln}a+(3?>*~)1z(+&q;#YyoDFc@=vz>Hjz_0uO
zsB6k2GbgOGSg<kZ_7=Cy*liP)5j%HEb7|5qRFN>~S9Sx+nOVba`!Qm;6EuxD?shaI
zmV0sWgFTz#&0$-L8-Mkm(XQ)13L3ifFY9=DEXs!ggAsVzy<2Nn+qx26_aDV?=OYe2
zr@3vRm(X7NNlSJVFxZxn6-dvoKa%Xk&dYk_u}VoGvuBS+(r8N-;9+|A@x2~_J36V|
zZ#NJ3Kk&;J&jyxN5uAborUcs_Nk33Jy`zy2!iV%1O202D`zZwDNBoA$M}ko7qZLKv
zoLM#hCN+A0{gK2E`On+`0yo73xfw+ygmYN2*E(3_kTOW{SMw^6kyQYvfR*zdR@2Bv
zp!FA77z8z5k`&c0E>q;*vu`2>%MwA%C_%7@?<TB8PqhcwCy`_K@jfLmqjiwtJVz<@
zV-YYnS_dE5|A2TD^OOML+sTTGy>UOcSuAH+eiB%Ln!+SUaU4(T=O1q~{Q1>cj$VNG
zzQh#$2k`7Z@l@=8=rG2?q;C<j7#v`^{f4fn537m=%|818-roc-t2pw&RavKVRMM-n
z{#cgj)mejYeDuQn+Pu9f)-l&E7$6W6b&EwhD-X{N;ppfbkN$sPN=DWc3{D3&HLnqR
zv;s=ut|ZY0!=<q;5NAvGKuL`(`(VEBB`pZA*n;R59Ef^T@;8-zs711(ZvO;R)|dRX
ztJ{Rv?ZGs_;WUH`nCA&h->%l1!NJ~ql=NnD?Pf$%a3J*kE{$vt47N?WSi7uWEla%V
zIyO4IAp4R9`A7;kgu^8$JWuBS*~{GTLw(N7;?Z!x8iO}H*WiUigLiyz@ctTX$=%1{
z1v98CSe9sRjb3q90{&AyYSubE5Yw?{xDD*%yP^=bfhUA8AB+7wg#~;=pjgslS<q42
z-j>=9w)z9sgDmQeA21&S04kDwK#HtUwX9!23JIcm2%O_m6HydU3xVF*mloogt7R=j
z#+9xX0u$Y+7y=V5M1_~-ToGXj1f0*+!)hU=HbnHgtp%B9AG$0#Bm{qIL5gLr%R=;7
z2r6`0>X%#}LbM^vL>*#pdLJqeGN*#1Mxd=T%AiecQID<x<=Fz!tUy|z_a&-nrd*a>
z0a`!`bVh<FDh8|Re-gyTkTR@EI@L^J1Dj(i{wpWZTh~t$wr6ApGizIJ#+IA0m1b<L
zf}6lt5oc1GOEN{6zp3SVbpB>ao8WkfHo{?QgyUt@1jlQs8IG9YSXI@-1p=4A^4SQ;
z5^9?Q9V1|kip&g1p>9$Gf;a$Bu66<2#i-7Tu(yurQHGsrF+?)WYJ?Qp)d(pxtP!$V
znM{yE)0!f+i(}YnTutP-r*+Msr7^V8zDCeS0~<jbEo=mBG_etsn6ow-*$CQbWkV=2
zh6?Sh2en6i4Xuf_wq&spcrA~Oz-yVT3AVT8vL@Qu5wb?`PEYB<J+XUHvkh9Iu4ApL
z%Y#;5YgubWl56?SwS1RazEw{=!s1Qm5GGu&09xjymN_feTIN_Qc2*#D%vn*?GbdW+
z%S6q5yiv9~_FT|v+B-V-T)t}AGu0~WpN0=o2M==H88Z@R#lfsG_ZbgI4!Q2d(i}8f
z))!b$`Lkz=$=75A;-d%p4z6k^$*31)^qzR^T|2v;+C%4kI?HX;;DW&Cg1s3&nikLd
z#mThgi1&ZBFlSNF>oB=p0*_Md<j^~i!>M8tr_n9=nphx?x6)}DGFxW7XDjA3k@StD
z=m$ysxXOJj?2_4|e>+=d{yXqsp5xT7Dap!be<ofeWS$~fYUpQ7akJN~n`VcPSUhN{
zyAN6qzG5UVl1O}MBpQi39&Vr*u53mJ(r}?9l29>{LJ~<Rjii=DGFFV_k0g?@G?H8r
z36L!<!vzwpD1qZ!lxIb|&bUX`nOdz@xd&>MdX=02QC7FBBvec`mLwZWlf9B8J5h|}
zRT4=ejii)Bl1e>f5)X5!hZl(lB=tZg9u`s$g~Y?N)WaW%hZm^_Eb)*@J-kXhyh=SR
zBp%+R9_A7cxzs}{@lZ%TBoYs$(u#Jtk}MXPmomvs+zDIOBt%%5Xn*nSn1YGY0$M4M
z4b^CIDObYrej-OFl#g?e6FJ0%TM0*f8pry2t%QZ1#?sxOk?<@}<JrC9+oQ6AtXw<c
zLy;L=oO7#rQ<Y8sbNdLTikU8GL1(-0?Co86wnoj3XTavE<;*eYeq<2@*NC9Ka}8=#
zK_-CE+!}XrY<^i?E1aNZW|N}GN=|K$x_G+Z_5-@yh4g;^T;;C}_Pe9H4sUQU!`<yb
z^{LaG-UNRm+URrHNl|QB%!?=v93J_gcVAGCmLEH`yb)v>+;u%(yLMEMF~$$5nwBgn
zEE{gg^4ttM?!#C0VUM;{^-XhwnE4YiZTxAsmTg?@wzX5X`yrY;r`_a)O(0LxyQ$iq
zVN}Hr)v<lUx?N{*x0NS#f3*de%jwY*g#`1*G|mKnR`K~-aVo26V>#>p&e$6R4i!UO
zZ|M2$<SK4F?QYcNUV4MScH7kM%uB_a-eK16@Wb_1e``Xkh2R|zfnQYK=#2vsM2{%w
zh>q2dqx*`22De#V<?xSM-}iaLlX$)Rl)_w}b$k+Q_ziy|@&&E*iQ#F)KiQ&bMx2~P
z>_=>kCaT@L8G>DjH5;GZY2!$<%ALwLTvfdUuh86y@ajx-_J;1rj+&&kO;Y<IJrkj$
zK<Ge{IydB8lx{DjdxOl!6~6-E-;0+sG4_@esVnIW;-a@1hHKT}vx0oHImhLqwgEL7
zhgbi#0Mwzd`U~M@D8y)+U6g{4udh{nQ(ctB9h{}k2TGk^Xgz)}6oc2BNr&UGtoCod
z*vPKEgkQ9DYDB|`pO4HCy=;8`y6^`(3gRM^n+?OJf^rqs?i#A$XR_WL5w!4b#dq=E
znB4BjxA!c@A^fgXBC!0)3rgSmk9VrrOZo5C`<>s_F+aPKct{2x_i{iJTHek<n3<RT
z1GQ~GO5@RT`5;snaJoL%VP42*qus~gU%7R>#)Lup2YA}GnO$?*IuM5E{3B#+Y%WVl
zQ`(ef(w>?2N+V<$6pZEQgC^(KAIVT-Lg-lX_9kCspLch)yOL%6uzbJVe^C`)>h~(X
zd-w45UTi)l5k{z%g5n*aQbbun%5p{McByA6PVcy8l9XstNU_68OH4P6ZdpE>P4Pc?
z2s5LO$E$S*)enOZQ<T&U8(n0hS>kCO?@7sXq8a8nt8@qO(-GFQcb}8n_1$e|FdCf*
z2z?h@R(;cwk=;`F6U#o>yjhdztqd-E>Hf|ah~%P?+<*BaDq+uB61!Ltp3Ygxci(DK
zjVtym)HZ$;yb3lJH48RQXekuyVco6K2xoWf`9?}1V`U-X=2L3_jFnx$14E(yoswXb
zbt-OVc$qVa#=p4UU|ar#a{U5@jiTD94c6`h+>}jCq+$|^f2yA0tYqcBA8GwzF+S^H
zG}2^iM?h7zQHHZFI&Cm9Yl)@;Vs_Rbn2~XX*{*I2FZWr@*mWct6<jKfS1)Z-gg{C`
z?F7#;(E}hm{%jGQ_6&d^$&@Jf16@H%7)cq{c8CR2I%77#`eIfEAWCw+vV{*Kxs}4y
zXyisN?#%5FN~hKXtUFUb#C)QfUI_<eifKH|hiUG%KzDK&z-U(DwEZgX#aOu06+(6;
zUQNXij9bu)Q5XVB97qxfpVHqb0Kd8=7hwLnVk#d*d&)<yb&sd=VIZDiWs1Vh*I^(7
z1d57r1Vx&}KqQVPP$aPEI9PNBEII=goq>vO%u$p<p)xx`U{D6mD+A_L+>8~vA(GJ3
zh7`zheGKK7>traF>t!$&V2m6xM#cYQFy$2+z<e3Nd>O!e8Mu5U&Ab6}EHQwvYtO!c
zv_p+S`DP$#*PqFQcrnJOr<5?l&=cQe_*t*L#vKHKIKEELcbJ~H!K1a6rba5^W!Ald
z_OY`w^l<HLvqq%$GCjYy_AyOcRVpgYE5m%OvvXnh$m3xiO)jn$+yC;wj7K?JnRQbo
zxZteJF)wgs!;yT?N$G(~3L&Xa22xXXOaj*{J0wqRy(oXmUWA&@Dz+w??-?!+ebDfK
zsFBw_>+6>r&Xzqr-mh*R%75pda7=|{V^OO(m!gj6?u+~BC>HsMwb$d<WQv_m=Umk#
zd2v4<HO7Mi>aP?34V`4}s<)$(1gk8r$fUNn_e|>8y#VU{ChI14RdsYK{o78>Qao*}
zzDvf=q;bEOJ8|dbj!(Mjz;1X`DRvDvv5s-AY@lVys7BGE(qiE{Q42Zc_7~h<!~Iaq
z`%={>%C-L`pI>imKm{)RfAqikx`wB_dU|hnSi3dcJVos3s8GTwyq%#PsK7;rM99g=
zFM=9a;uORG@{e=6z;ne5c-p;M+j8PK5Uu^A7#lE;lSw9%*=#12nXTG4l`%3X@rB3|
z3H$Xc8w0+GpjL~mJWPggPT$+DmdW$u=C7}1@bKmN=TouzJ{}RzTk|3&SrqeP^eC>Y
zPktA#H2)<yjWR!{?|%?5EFi=V7_ySkY%R7s?4$Su?XzsXW0>90gmO+7EhcY7H&H4h
zK}lY`<LRa>7X=a3C#0-DLUSISiy-NFth^(iJA6#04@^)VrJgt6D(@&`SiZDCvyhZB
zN!SNnSfC{aJxcr$3O)%iaOO==aGdfCr@X`|FLBCCl=6PvS4a}2={$;GEeM!5!X%!r
zl3wNryhO^EIQc<c^6@I-QLH|(AgC%2r9oADD1xf`a0FNr7}|uA{Yw#P5J;>KB-RHK
z>jR1O!MHAEj0$6kWti*&iK38biZJ0tRz1fROT41-s|87WVuQfSb(Diq6U&(+jBTft
zu%v=m={oB-OJXvt1>Lb$_3iwfM{A{iG*2mpDQK8-wp@vHi=mnv@}`?LHe|<H)(YOA
zVk0AxF$o{&$1UdtZzm!>8(b}HWhgWFr7+%ATEyybu^^GK!)H~olTu}w72e~tEYgj=
z0$y229#bOdhaG`F6G0roOTnz%KiSE)fzDzzJ+}SM&Zf($h#MmZu{K3&qHGKu#@7_8
zAF~b7ohOMYrj-YVkZuMTf<pC}ZFgWp*dS$I&*ElvbNkIHZMPT*uK&nN4U>F)#|ydk
zt|};r)1sty1p4xZk+hx)FkoP9_@up@0b+43pDk$0GIpF4fbcqC#hUJ=uTA0i3z`eh
zt4g-}AO|w&BMu}PS8DJGr%F5gFl0Z3{A|VT>!psK9duA?#!!8yHHEjz%M{Y-&c+}M
zuXO9s6lEK}LG2j>`&B2;1E16}OSF7%3TeC16f=#=dR+sBDN*t9pkxZ`yMJR?d!Mb8
z;T*%oGMq!=Idn^A3zFf&6HcO8I9rgoFo(G?N4hXax-dsNFh{#nwqVh$qTnpji7wKG
zF8W<FoJPBGwxH21Ea5cT?Xv}q8>5&bqjbAiIE{4U8|lV3(v5GlL$L*o6BnOYdc%37
z8=g}uL^#ojO*))NIwCr~Rfkdqh>2=~nx*;+b1)t`4-S^+ALj?r-7!*sFfxU=hI3O$
z=U`+EYWc<#Gi?sYKv*{vXT#vl>i1RRB3rYR^4*IoW>8-ph39fv3nK}m>4LC?<VCJB
zX~Uw_j3vxinMERA)nEUoygF-V=R)97R6k!!`u6fPzkN>szWG6dxZu=R2|W=!VxpXW
zQx&SdeyG%gs86-?M(wwFl<28Wv{rafrS)EVT%;+Dg*Uoap1!a0T@-xh_QOH+tTKm^
z8K|JMJ;}uMhL!6y+E%|eB0QLD?@zERgYpgKBB<P2ePen3<<Ifm^5HI&#Jf6jcGzx%
z%KHaRER4ONKK?~K(^=E@<Xz7GI#I)YLp*JBa6uiE1}7|^IZpHOP1S>1Nq%kECr@$4
zswZAOMO>&3_LDCZeD^z1e`rK}#f$J2wSQ#1MKbE^{TrTj;NI`X7vh-Cd=HXhs{0QY
ztQtR`p$&|ZdAguUBvZxT{M-D$kuir}bfdfFfvHo!G5qmt?#TE;Ms{1G-mrx;!v=Y`
zfSLs%rw++AAxX^Nk$`BO*ggi_4O~knmT6qJG_}n?JR&P44Xq1VV^FxaEXema_y51_
zS$&9JDc?2<Fe3$~yZdr<kE&TZW&C1xQxD127sy*9Rvl?*#w$c7#F!NDW`X&bySpRn
zSdd*tP(1<o2M74D^aMd}&#mI4F)zQ2dG+mDPY}dBSf?s3V#I!k>X=cuGGma@Yk(0j
z_q@4b9%%dqdQ-tJV~2IZK~g_CyUd!?(e2xazBS~f;Waue00PfCaK3Qj2ED%0756~v
zjp4;SOy74r>p;_Y;Of^Zy|pdo11K5ht1bS}uPdCbJEf1I_zz(SF2=|i+XQ&pwN~4X
z+At7R{|M(scq|mDR9m`2>hs7r&f><gQ`=eCetqo(c3Ej3#;&S7I7D;i%<YVU!*2il
zeeX85c=&wy@u*K<%M1t^jAqbNW^`5#)L6cE>l~`hXskA*u#OsM;Vj$<TD9MJA69|4
zDWPtult;=s|BEnKJ_yGRm85Eo?!h_(?8I5eo5j{!e}WJIf}fD!(@JVjFz#J=HkSYX
z^?2MK<j*hPpkUhY-1{#AAt9R+H9OS^#_e`pL=aVPL>D-|IKG?dJ|vvTYTD4jpLWI7
z*!yf9Uu|!1GjvTdcnz*xd#`r;4`DH%+<z^?>Yhz$^@kgsMi_<z!<e;FQwNQB63#B>
z(ZFJBXQ+@uJ;7_(aUM$1aOG|otRS*iL6AE^q<P3fOF_(~OLI}(t1`Gta+6E0l7MB<
zN?Pb;h&B;AeMy2YY4c1KO9R)`LVCiru)zDly-aA#h%Y3kEjZm>yMw|EqhjuD6i^sL
z&tXe@G2t<1Z5lWlPCGP)gyO{#k;Z>vy6?SM(V%yW1&<1KV6g#aQ-cDE(;kh=k5aQP
zI<cH-&(_4om`}UTFLeh##|W6;EGNI^?Le=Z!N3YR-~V98wiOpNuDm7}-GVYSE@ik%
z+le71#pNwUrJ4U9Fd96xzGj&c?+2G27Mm^Zgyc`<{E5~^mN#6AJ|qpgh4_V$m5z2C
zM&*Pr8bA9aIA{Z0w^$dszzd}a)x{c@)3!icPg+7-Px}~aUBzvzDy|2&p~c$Qu|iyh
zYlkvVf=0}Xi7NE1xRU$=+!$^C0{M7;yQvJt0(jcZly6VMFc8M$H)4MoF9k`&$RrCI
z-d#$$xXRYf_6F*ww^YC^#AKSj@J(}fO@8<E`m|8wyLnC%6W?DK4+~Y^CLshtqZNmm
zajn8c^BwY8PU8@gf<Ga*VGN_C+M--)#Az_7*%m?VC2s7_6?kAq6-r;MSP*Jou;DWj
z)GhhqWx@c~4ZWX%W&k~z31p5rZ^>rE&Y7Fml(ys(N%oe%k$s6V1ffHYTTyLL+fv$b
zPqY_Q0%r~5!j2*J-5`><_fP#Auy<^-KGgklQ)ZlNkKmOF`a9xm+>RY`IsowXWwD+X
z)#J?_#9V1ic%>vJ6SunfWSNx-`}e#!%|-7Y`n$)Tl4gR;kgKXfPC+=6q-J)5k<ue!
z6L5dRSy}W8Wsy^MBK}cYCXQ;dldM?c8~rOqBO^W#N;@tK`~>&!B<YVd_y%~|%~)M?
zqA(Pl{YQX&#K%&tWmjFt?e27+G6ADfAz%{RuD^a0{KNu<qI6$6smwj+<lK96A#gh0
zjQKs&hj-KOlW6&9Xi!yS8hJ289*wl_40G&pKO(B)6QBDi@VEF2tP!WrBkEx|M?v5s
zZ&fSSOh|)h%O}jAVR(AF4=)8U#M;HGarz0e7!my?@<|&1TpF%wJX&D_8K)S9V{U5@
zID|(I$5b-!*zx*h;`XP(&)!$4dlALDFP@v6BA+uL*N8_HIQxZ8@GJi;@-7o8hfAOA
z6)+8!NRR{z`|g`DSPTasfvR$PsH#s=-j7tBQy|9jBC^4h>kl-NTQFcItgp|-??)x2
zc69tOZdH$2t_K{-xK&ZGUdia$lF1?O%tLPUu$wI8YR|I1_SVx~0l7c%zh-R2$urw?
z(JOFS!?e(YLYm(-lva~-WKm6-9%(uBme^b2nLUIzCk02+gw&xuIn{idgPZc@?J#9@
z#+wmS%B#kp-UfT3;cOFvsrL(eqlCwOQ=Gh*%;LTcj!1*@15f}Q_F%EZmD59no5%2~
zIz&@zsSrEygBhmhVyq(?soV_tx=!2LR5?w{K|VHHb6k36`nx8-Jt-^9H*s<Xfp|eM
z`>B;FP&dVSq8Oh!d{SbxqQriM1?<(b(ny1<$tF5Xe1QkfP3fk6CBx2AEvH>;88QYm
zO5$99%=Z1Ud$7n8t3^+o874f}6RQnRPFg^I2c292ExIxhXMescphZ_?iR3#`<FszS
zrMvAV>M%ueQ`P+>n{21BvwQDavunsA?j>SN{ZamrtITfEZC!s;31(p>oNH<;12xVO
zw@stuKrS%HZQC4KmluYN?<>8Wfa~yY&-j&$fNJv>Ts1Qf*~}<5`o9D*n3YtcnZUK0
z3FS6ZR+oF*;<+$sdzrOe8Er=8BDAaswF4o+f3jDCql%wY8Z^=`s<;nAw8Ah<<b}r$
zqWTA-k@-MGEQPUPgWE+_asP4*DIyEp2quU;6u`M3G=b@eQfYEk+K^rke9|P|U>s52
z0KgRWn}nn~f~H&`q#5{FHuAA*daCJ{AX19F6|a}uVw{>uDh8^Xtzx9}v^_gxrv!>^
zp%VAgR^Gj}6<xG;yfE%ggg{@ssjlO`hSwtINb&BZVXOg>Rgvg8KiH}f+dt32KgeQ6
zc-o5(@+)&LHZRYyaQ8?nugEisH#9EI%S_HsNsZ4;NzE%UG|DWFugFY^FD^+eDq)N#
asNNK+J~=<HBr~rx6#(QJBv=3d0002f&GUW$

-- 
2.43.0


From 7c7e612fdd2b8140a4e769555047671cb152431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:36 +0000
Subject: [PATCH 24/31] fix: locally ordered builder crashed or never ended if
 areas of bounds exceed the range of a float

Bounds with extents above 1e19, and those of empty objects, have an infinite
area. No neighbour was found for such nodes, and 0xffffffff was used as its
index.
---
 src/builders/locb.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/builders/locb.rs b/src/builders/locb.rs
index 2934edf..7cd3d97 100644
--- a/src/builders/locb.rs
+++ b/src/builders/locb.rs
@@ -44,6 +44,12 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
         (begin, end)
     }
 
+    /// Areas that exceed the range of a float (of huge or empty bounds) count as the largest
+    /// distance, so that every node has a neighbour
+    fn distance(a: &Aabb, b: &Aabb) -> f32 {
+        a.union_of(b).half_area().min(std::f32::MAX)
+    }
+
     #[allow(clippy::too_many_arguments)]
     fn cluster(
         &self,
@@ -84,7 +90,7 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
                 for j in (i + 1)..self.search_range(i, begin, end).1 {
                     unsafe {
                         (*distance_matrix[chunk_begin - i].add(j - i - 1)) =
-                            input[i].bounds.union_of(&input[j].bounds).half_area();
+                            Self::distance(&input[i].bounds, &input[j].bounds);
                     }
                 }
             }
@@ -92,7 +98,7 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
             // Nearest neighbour search
             for i in chunk_begin..chunk_end {
                 let (search_begin, search_end) = self.search_range(i, begin, end);
-                let mut best_distance = std::f32::MAX;
+                let mut best_distance = std::f32::INFINITY;
                 let mut best_neighbour = -1;
 
                 // Backward search
@@ -108,7 +114,7 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
 
                 // Forward search
                 for j in (i + 1)..search_end {
-                    let distance = input[i].bounds.union_of(&input[j].bounds).half_area();
+                    let distance = Self::distance(&input[i].bounds, &input[j].bounds);
                     debug_assert!(
                         !distance.is_infinite(),
                         "i {}, j {}, bounds1 {}, bound2 {}",
-- 
2.43.0


From 841180348ca300c395b9200ec7e20b1cc6448b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:41 +0000
Subject: [PATCH 25/31] fix: spatial builder ignored the limit of primitives
 per leaf if no split has a finite cost

The median split that is meant for this case was only used if there was a cost
to compare with, so huge scenes and hidden primitives ended up in one leaf.
---
 src/builders/spatial_sah.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index c447605..177b12f 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -774,8 +774,10 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> Task for SpatialSahBuildTask<'a, T
 
         let max_split_cost = node.bounds.half_area()
             * (self.work_item.work_size() as f32 - self.builder.traversal_cost);
+        // Costs that exceed the range of a float (of huge or empty bounds) cannot be compared
+        let no_split = !use_spatial_split && best_object_split.index.is_none();
         // Make sure the cost of splitting does not exceed the cost of not splitting
-        if best_cost >= max_split_cost {
+        if no_split || best_cost >= max_split_cost {
             // In case splitting results in worse node costs, use median split as fallback strategy
             if self.work_item.work_size() > self.builder.max_leaf_size {
                 use_spatial_split = false;
-- 
2.43.0


From dfbd4e2b5e79a09dc3f9e6419232c5253f6669af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:29 +0000
Subject: [PATCH 26/31] fix: validate trees that are deeper than the stack of a
 thread

Bvh::validate visited nodes by recursion. Trees of the locally ordered
builder can be as deep as they have primitives (nested boxes), so that
validating them overflowed the stack and ended the process.
---
 src/bvh.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 42de250..7ee725c 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -202,7 +202,12 @@ impl Bvh {
         }
     }
 
-    fn traverse_check(&self, cur_node: &BvhNode, checks: &mut [u8]) {
+    fn traverse_check<'a>(
+        &'a self,
+        cur_node: &BvhNode,
+        checks: &mut [u8],
+        pending: &mut Vec<&'a BvhNode>,
+    ) {
         if let Some(left_first) = cur_node.get_left_first() {
             if cur_node.is_leaf() {
                 for i in 0..cur_node.get_count_unchecked() {
@@ -219,8 +224,8 @@ impl Bvh {
                 let left_node = &self.nodes[left_first as usize];
                 let right_node = &self.nodes[left_first as usize + 1];
 
-                self.traverse_check(left_node, checks);
-                self.traverse_check(right_node, checks);
+                pending.push(right_node);
+                pending.push(left_node);
             }
         }
     }
@@ -230,7 +235,11 @@ impl Bvh {
     pub fn validate(&self, prim_count: usize) -> bool {
         let mut found_indices = vec![0_u8; prim_count];
         if let Some(root) = self.nodes.first() {
-            self.traverse_check(root, found_indices.as_mut());
+            // Trees can be too deep for recursion
+            let mut pending = vec![root];
+            while let Some(node) = pending.pop() {
+                self.traverse_check(node, found_indices.as_mut(), &mut pending);
+            }
         }
 
         let mut valid = true;
-- 
2.43.0


From 3a91af4ef21302ab1bf2ace94904caab4dfce98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:29 +0000
Subject: [PATCH 27/31] fix: widen trees that are deeper than the stack of a
 thread

MbvhNode::merge_nodes descended by recursion, so that making a wide tree
of a very deep tree overflowed the stack and ended the process.
---
 src/mbvh_node.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index 6cd5b5f..1e07467 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -300,6 +300,28 @@ impl MbvhNode {
         bvh_pool: &[BvhNode],
         mbvh_pool: &mut [MbvhNode],
         pool_ptr: &mut usize,
+    ) {
+        // Trees can be too deep for recursion
+        let mut pending = vec![(m_index, cur_node)];
+        while let Some((m_index, cur_node)) = pending.pop() {
+            Self::merge_children(
+                m_index,
+                cur_node,
+                bvh_pool,
+                mbvh_pool,
+                pool_ptr,
+                &mut pending,
+            );
+        }
+    }
+
+    fn merge_children(
+        m_index: usize,
+        cur_node: usize,
+        bvh_pool: &[BvhNode],
+        mbvh_pool: &mut [MbvhNode],
+        pool_ptr: &mut usize,
+        pending: &mut Vec<(usize, usize)>,
     ) {
         for i in 0..4 {
             mbvh_pool[m_index].set_bounds_bb(i, &bvh_pool[cur_node].bounds);
@@ -405,7 +427,7 @@ impl MbvhNode {
                 *pool_ptr += 1;
                 mbvh_pool[m_index].children[i] = new_m_index as i32;
                 mbvh_pool[m_index].set_bounds_bb(i, &bvh_pool[node as usize].bounds);
-                Self::merge_nodes(new_m_index, node as usize, bvh_pool, mbvh_pool, pool_ptr);
+                pending.push((new_m_index, node as usize));
             }
         }
     }
-- 
2.43.0


From 62bc3b0d31bdaea47a80cf4ded3fd2941d40b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:19 +0000
Subject: [PATCH 28/31] fix: the spatial builder panicked on primitives with
 centers that are not a number

Centers were compared with an order that is not total, which the sort of the
standard library detects and panics at. Centers that are not a number now come
last, all others keep their order.
---
 src/builders/spatial_sah.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 177b12f..6b559b8 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -319,13 +319,10 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
                     let a_center = a.center[axis];
                     let b_center = b.center[axis];
 
-                    if a_center < b_center {
-                        std::cmp::Ordering::Less
-                    } else if (a_center - b_center).abs() < 0.0001 {
-                        std::cmp::Ordering::Equal
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
+                    // Sorting requires a total order: centers that are not a number come last
+                    a_center
+                        .partial_cmp(&b_center)
+                        .unwrap_or_else(|| a_center.is_nan().cmp(&b_center.is_nan()))
                 });
             }
         }
-- 
2.43.0


From 51b1fa5a84ded7c40dec898c0d0a5c9be37c7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:22 +0000
Subject: [PATCH 29/31] fix: strides of the C interface were narrowed to 32
 bits

Centers and vertices further than 2^32 bytes (or floats) from the first
one were read from elsewhere, or the multiplication overflowed.
---
 rtbvh_ffi/src/lib.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index ab543ec..524400d 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -258,11 +258,11 @@ impl Default for RTMbvh {
 #[derive(Debug, Copy, Clone)]
 struct RTTriangleWrapper {
     centers: *const f32,
-    center_stride: u32,
-    center_i: u32,
+    center_stride: usize,
+    center_i: usize,
     vertices: *const f32,
-    vertex0_offset: u32,
-    vertex_stride: u32,
+    vertex0_offset: usize,
+    vertex_stride: usize,
 }
 
 impl Primitive for RTTriangleWrapper {
@@ -270,7 +270,7 @@ impl Primitive for RTTriangleWrapper {
         unsafe {
             let ptr = self
                 .centers
-                .add((self.center_i * self.center_stride / 4) as usize);
+                .add(self.center_i * self.center_stride / 4);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -293,7 +293,7 @@ unsafe impl Sync for RTTriangleWrapper {}
 impl SpatialTriangle for RTTriangleWrapper {
     fn vertex0(&self) -> Vec3 {
         unsafe {
-            let ptr = self.vertices.add(self.vertex0_offset as usize);
+            let ptr = self.vertices.add(self.vertex0_offset);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -305,7 +305,7 @@ impl SpatialTriangle for RTTriangleWrapper {
         unsafe {
             let ptr = self
                 .vertices
-                .add((self.vertex0_offset + self.vertex_stride) as usize);
+                .add(self.vertex0_offset + self.vertex_stride);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -317,7 +317,7 @@ impl SpatialTriangle for RTTriangleWrapper {
         unsafe {
             let ptr = self
                 .vertices
-                .add((self.vertex0_offset + 2 * self.vertex_stride) as usize);
+                .add(self.vertex0_offset + 2 * self.vertex_stride);
             let x = *ptr.as_ref().unwrap();
             let y = *ptr.add(1).as_ref().unwrap();
             let z = *ptr.add(2).as_ref().unwrap();
@@ -365,10 +365,10 @@ pub unsafe extern "C" fn create_spatial_Bvh(
         .map(|i| RTTriangleWrapper {
             vertices,
             centers,
-            center_stride: stride as u32,
-            center_i: i as u32,
-            vertex0_offset: (i * triangle_stride / 4) as u32,
-            vertex_stride: (vertex_stride / 4) as u32,
+            center_stride: stride,
+            center_i: i,
+            vertex0_offset: i * triangle_stride / 4,
+            vertex_stride: vertex_stride / 4,
         })
         .collect();
 
-- 
2.43.0


From e7ea1aceec04ac0a8000c355378154b4bd5bfd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:26 +0000
Subject: [PATCH 30/31] fix: creating a spatial tree from null pointers ended
 the process

---
 rtbvh_ffi/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 524400d..4bf2b4b 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -352,6 +352,10 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     prims_per_leaf: u32,
     result: *mut RTBvh,
 ) -> ResultCode {
+    if centers.is_null() || vertices.is_null() || result.is_null() {
+        return ResultCode::Error;
+    }
+
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
-- 
2.43.0


From 86ae29bac2eb458a28709086823987588f5d2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:28 +0000
Subject: [PATCH 31/31] fix: a timer of the helper library overflowed after 49
 days

---
 shared/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shared/src/lib.rs b/shared/src/lib.rs
index 7d9bdea..3ffa76f 100644
--- a/shared/src/lib.rs
+++ b/shared/src/lib.rs
@@ -93,7 +93,7 @@ impl Timer {
         let elapsed = self.elapsed();
         let secs = elapsed.as_secs() as u32;
         let millis = elapsed.subsec_micros();
-        (secs * 1_000) as f32 + (millis as f32 / 1000.0)
+        secs as f32 * 1_000.0 + (millis as f32 / 1000.0)
     }
 }
 
-- 
2.43.0

