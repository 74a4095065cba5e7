From 1579ccd5a51b3c3bc8e6be6dee83c43af904e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 01/37] fix: is_trivially_isomorphic compared the other mesh's
 elements using this mesh's connectivity

---
 src/mesh/mesh/basics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 346eb3c..5a93f21 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -364,8 +364,8 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         for e in self.edges() {
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
-                || e.origin(self).id() != other_e.origin(self).id()
-                || e.target(self).id() != other_e.target(self).id()
+                || e.origin(self).id() != other_e.origin(other).id()
+                || e.target(self).id() != other_e.target(other).id()
                 || !compare_edge(e, other_e)
             {
                 return MeshEquivalenceDifference::DifferentEdges(e.id(), other_e.id());
@@ -375,10 +375,10 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         for f in self.faces() {
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
-                || f.num_vertices(self) != other_f.num_vertices(self)
+                || f.num_vertices(self) != other_f.num_vertices(other)
                 || !equal_up_to_rotation(
                     &f.edge_ids(self).collect_vec(),
-                    &other_f.edge_ids(self).collect_vec(),
+                    &other_f.edge_ids(other).collect_vec(),
                 )
                 || !compare_face(f, other_f)
             {
-- 
2.43.0


From e37cdd3927e25bf2c01a6511d273946335a59760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 02/37] fix: insert_dihedron closed the already closed side of
 the polygon again

---
 src/halfedge/primitives/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/primitives/mod.rs b/src/halfedge/primitives/mod.rs
index 016fc86..fb256fd 100644
--- a/src/halfedge/primitives/mod.rs
+++ b/src/halfedge/primitives/mod.rs
@@ -22,7 +22,7 @@ where
 
     fn insert_dihedron(&mut self, vp: impl IntoIterator<Item = T::VP>) -> T::E {
         let first = self.insert_polygon(vp);
-        self.close_hole(self.edge(first).twin_id(), Default::default(), false);
+        self.close_hole(first, Default::default(), false);
         first
     }
 }
-- 
2.43.0


From d540384cf5add5de466be87c6aaf03cd0f659a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 03/37] fix: insert_antiprism expected a face on the open side
 of the base polygon

---
 src/primitives/prismatoid.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 7dfb468..a272490 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -74,15 +74,10 @@ where
     /// of the top polygon will be slightly smaller!
     fn insert_antiprism(&mut self, vp: impl IntoIterator<Item = T::VP>, height: T::S) -> T::E {
         let first = self.insert_polygon(vp);
-        let f = self
-            .edge(first)
-            .face(self)
-            .expect("The polygon must have a face");
-        let normal = f.normal(self).normalize();
-        let e = self.extrude_tri2(
-            self.edge(first).twin_id(),
-            T::Trans::from_translation(-normal * height),
-        );
+        let twin = self.edge(first).twin(self);
+        let f = twin.face(self).expect("The polygon must have a face");
+        let normal = Face3d::normal(f, self).normalize();
+        let e = self.extrude_tri2(first, T::Trans::from_translation(-normal * height));
         e
     }
 
-- 
2.43.0


From 93bd3bc6032735883ef984e7b044a5df8e561e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 04/37] fix: Triangulation mixed buffer positions with indices
 relative to its start

---
 src/mesh/triangulation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 2e60803..c122812 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -179,7 +179,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Check for non-degenerate triangles (no zero-area triangles)
     pub fn verify_non_degenerate_triangle<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) {
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let area = self.get_triangle_area(i, vec_hm);
             /*assert!(
                 area.abs() > Vec2::S::ZERO,
@@ -228,8 +228,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
             );
         }*/
 
-        for i in (self.start..num_vertices).step_by(3) {
-            for j in (self.start..num_vertices).step_by(3) {
+        for i in (0..num_vertices).step_by(3) {
+            for j in (0..num_vertices).step_by(3) {
                 if i == j {
                     continue;
                 }
@@ -292,7 +292,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
     /// Calculate the total edge weight of the triangulation
     pub fn total_edge_weight<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
         let mut total = Vec2::S::ZERO;
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let (i1, i2, i3) = self.get_triangle(i);
             let v0 = vec_hm[&i1];
             let v1 = vec_hm[&i2];
-- 
2.43.0


From 490c0a95ca5ae46b60aea1b8a9ed5514739c10f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 05/37] fix: insert_vertices_into_edge corrupted the links of
 the neighbouring edges

---
 src/halfedge/mesh/builder/builder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index 4f10605..13da7a0 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -127,10 +127,15 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         let f1 = self.edge(e).face_id();
         let f2 = self.edge(twin_id).face_id();
         let mut last_v = self.edge(e).origin_id();
+        let dangling = current == twin_id;
         let mut first = true;
         for (ep1, ep2, vp) in ps {
-            let (v, e1, e2) =
-                self.add_vertex_via_edge(current, self.edge(current).twin_id(), vp, ep1, ep2);
+            let (v, e1, e2) = self.add_vertex_via_edge(current, current_twin, vp, ep1, ep2);
+            if first && dangling {
+                // the edge was the only one at its origin: the new edges turn around there
+                self.edge_mut(e1).set_prev(e2);
+                self.edge_mut(e2).set_next(e1);
+            }
             current = e1;
             current_twin = e2;
             last_v = v;
-- 
2.43.0


From 91305a6179e570a08a1669b48e10da2f423e3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 06/37] fix: flipping an edge with a dangling end corrupted its
 links

---
 src/halfedge/edge/halfedge.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/halfedge/edge/halfedge.rs b/src/halfedge/edge/halfedge.rs
index 18921e4..fffd4cb 100644
--- a/src/halfedge/edge/halfedge.rs
+++ b/src/halfedge/edge/halfedge.rs
@@ -135,14 +135,24 @@ impl<T: HalfEdgeImplMeshType> HalfEdge<T> for HalfEdgeImpl<T> {
         let target_id = mesh.edge(e).target_id(mesh);
 
         let edge = mesh.edge(e);
-        let next_id = edge.next;
-        let prev_id = edge.prev;
-        let face_id = edge.face_id();
         let twin_id = edge.twin_id();
+        // at a dangling end, the halfedges are each other's neighbor and swap places, too
+        let swap = |x: T::E| {
+            if x == e {
+                twin_id
+            } else if x == twin_id {
+                e
+            } else {
+                x
+            }
+        };
+        let next_id = swap(edge.next);
+        let prev_id = swap(edge.prev);
+        let face_id = edge.face_id();
 
         let twin = mesh.edge(twin_id);
-        let t_next_id = twin.next;
-        let t_prev_id = twin.prev;
+        let t_next_id = swap(twin.next);
+        let t_prev_id = swap(twin.prev);
         let t_face_id = twin.face_id();
 
         let edge = mesh.edge_mut(e);
-- 
2.43.0


From 1fe44b7853b99c79429d486b9add8e03b419a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 07/37] fix: loop_subdivision left the open side of boundary
 edges unsubdivided

---
 src/operations/subdivision.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/operations/subdivision.rs b/src/operations/subdivision.rs
index 926aa8c..9e6eff9 100644
--- a/src/operations/subdivision.rs
+++ b/src/operations/subdivision.rs
@@ -56,6 +56,11 @@ where
     {
         // TODO: See https://github.com/OptimisticPeach/hexasphere
         let fs = self.faces().map(|f| f.id()).collect::<Vec<_>>();
+        let boundary = self
+            .edges()
+            .filter(|e| e.is_boundary_self())
+            .map(|e| e.id())
+            .collect::<Vec<_>>();
         for face in &fs {
             // get the edge chain
             let edges = self.face(*face).edges(self).collect::<Vec<_>>();
@@ -122,6 +127,11 @@ where
             self.close_hole(self.edge(edges[0].id()).next(self).twin_id(), fp, false);
         }
 
+        // no face subdivides the open side of the boundary edges
+        for e in boundary {
+            self.subdivide_unsafe_try_fixup(e, Default::default());
+        }
+
         self
     }
 
-- 
2.43.0


From e430e78fbfeee2b8aaa2ecbf7cb2a72d33c4b081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 08/37] fix: import_mesh panicked on isolated vertices and
 dropped the curved flag of faces

---
 src/halfedge/mesh/builder/halfedge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index de52dcb..d5cf86a 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -350,6 +350,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
             face_map.insert(face.id(), f);
         }
         let mut edge_map = std::collections::HashMap::new();
+        edge_map.insert(IndexType::max(), IndexType::max());
         for edge in MeshBasics::edges(mesh) {
             let e = res.halfedges.allocate();
             edge_map.insert(edge.id(), e);
@@ -370,7 +371,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
                 face_map[&face.id()],
                 HalfEdgeFaceImpl::new(
                     edge_map[&FaceBasics::edge_id(face)],
-                    false,
+                    FaceBasics::may_be_curved(face),
                     ff(face.payload()),
                 ),
             );
-- 
2.43.0


From 9c6bae2807ace742feac9a9e1c2e8c34d7020cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 09/37] fix: ForwardEdgeIterator's size hint counted the
 current edge twice

---
 src/halfedge/edge/iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/edge/iterator.rs b/src/halfedge/edge/iterator.rs
index fbf1281..65df450 100644
--- a/src/halfedge/edge/iterator.rs
+++ b/src/halfedge/edge/iterator.rs
@@ -55,7 +55,8 @@ impl<'a, T: HalfEdgeImplMeshType> Iterator for ForwardEdgeIterator<'a, T> {
     #[inline(always)]
     fn size_hint(&self) -> (usize, Option<usize>) {
         let mut curr = self.current.clone();
-        let mut len = 1;
+        // after the first call, `current` was already returned
+        let mut len = if self.is_first { 1 } else { 0 };
         while curr.next(self.mesh).id() != self.first {
             len += 1;
             curr = curr.next(self.mesh);
-- 
2.43.0


From 69661349555f52fefaff7e7e3a6c5f61b9c65992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 10/37] fix: dodecahedron lofted from the closed side of its
 base face

---
 src/primitives/sphere.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ec2016a..b2501e6 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -80,14 +80,14 @@ where
 
         let mut mesh: Self = Make2dShape::polygon([
             make_vp(one, one, one),    // orange
-            make_vp(zero, phi, iphi),  // green
-            make_vp(-one, one, one),   // orange
-            make_vp(-iphi, zero, phi), // blue
             make_vp(iphi, zero, phi),  // blue
+            make_vp(-iphi, zero, phi), // blue
+            make_vp(-one, one, one),   // orange
+            make_vp(zero, phi, iphi),  // green
         ]);
 
         // TODO: polygon should return something more helpful
-        let start = mesh.shared_edge_id(T::V::new(1), T::V::new(0)).unwrap();
+        let start = mesh.shared_edge_id(T::V::new(4), T::V::new(0)).unwrap();
         let start_middle = mesh.loft_polygon_back(
             start,
             3,
-- 
2.43.0


From 0762549dc90c2c69f7301b4a8e46f6270d1543f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 11/37] fix: chain of the bevy transforms applied the other
 transform first

---
 src/extensions/bevy/math/mat5.rs | 2 +-
 src/extensions/bevy/math/vec2.rs | 2 +-
 src/extensions/bevy/math/vec3.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 8ef8e97..56d04a3 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -177,6 +177,6 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
diff --git a/src/extensions/bevy/math/vec2.rs b/src/extensions/bevy/math/vec2.rs
index be4839e..1322558 100644
--- a/src/extensions/bevy/math/vec2.rs
+++ b/src/extensions/bevy/math/vec2.rs
@@ -160,7 +160,7 @@ impl TransformTrait<f32, 2> for Affine2 {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 9886598..0ec72d8 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -180,7 +180,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
-- 
2.43.0


From a5810f9542efe284fc8c65e2a57d1af3c634a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 12/37] fix: apply_vec of the bevy transform translated
 directions

---
 src/extensions/bevy/math/vec3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 0ec72d8..a1e1b79 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -175,7 +175,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn apply_vec(&self, v: Vec3) -> Vec3 {
-        self.apply(v)
+        self.rotation * (self.scale * v)
     }
 
     #[inline(always)]
-- 
2.43.0


From 40f49dc86bdb61c30410bc16eb0ca1e9bde4d054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 13/37] fix: with_scale and with_translation of the bevy
 transform discarded the previous scale and translation

---
 src/extensions/bevy/math/vec3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index a1e1b79..b9a33e4 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -153,12 +153,12 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn with_scale(&self, scale: Self::Vec) -> Self {
-        TransformBevy::with_scale(*self, scale)
+        TransformBevy::from_scale(scale) * *self
     }
 
     #[inline(always)]
     fn with_translation(&self, v: Self::Vec) -> Self {
-        TransformBevy::with_translation(*self, v)
+        TransformBevy::from_translation(v) * *self
     }
 
     #[inline(always)]
-- 
2.43.0


From e3606554b5ce25347bb06200e0c37e39773b998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 14/37] fix: with_scale of NdAffine and Mat5 scaled before the
 transform instead of after it

---
 src/extensions/bevy/math/mat5.rs            | 7 +------
 src/extensions/nalgebra/math/transform_n.rs | 2 +-
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 56d04a3..2bb5942 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -141,12 +141,7 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
     }
 
     fn with_scale(&self, v: Self::Vec) -> Self {
-        let mut m = *self;
-        m.data[0] *= v.x;
-        m.data[6] *= v.y;
-        m.data[12] *= v.z;
-        m.data[18] *= v.w;
-        m
+        Self::from_scale(v) * *self
     }
 
     fn with_translation(&self, v: Self::Vec) -> Self {
diff --git a/src/extensions/nalgebra/math/transform_n.rs b/src/extensions/nalgebra/math/transform_n.rs
index a4c718c..4db28ee 100644
--- a/src/extensions/nalgebra/math/transform_n.rs
+++ b/src/extensions/nalgebra/math/transform_n.rs
@@ -91,7 +91,7 @@ impl<S: ScalarPlus, const D: usize> TransformTrait<S, D> for NdAffine<S, D> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         Self {
-            matrix: self.matrix * SMatrix::<S, D, D>::from_diagonal(&v),
+            matrix: SMatrix::<S, D, D>::from_diagonal(&v) * self.matrix,
             translation: self.translation.component_mul(&v),
         }
     }
-- 
2.43.0


From 6fd882366f09575b0e2c2af8bff8c8a755aec161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 15/37] fix: flatten_curved_edges left nearly straight curved
 edges curved

---
 src/mesh/mesh/basics.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 5a93f21..d0dca51 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -176,14 +176,13 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             let edge = self.edge(*e);
             if edge.curve_type() != CurvedEdgeType::Linear {
                 let vs = edge.flatten_casteljau(tol, self);
-                if vs.len() == 0 {
-                    continue;
+                if vs.len() > 0 {
+                    self.insert_vertices_into_edge(
+                        *e,
+                        vs.iter()
+                            .map(|v| (T::EP::default(), T::EP::default(), T::VP::from_pos(*v))),
+                    );
                 }
-                self.insert_vertices_into_edge(
-                    *e,
-                    vs.iter()
-                        .map(|v| (T::EP::default(), T::EP::default(), T::VP::from_pos(*v))),
-                );
                 self.edge_mut(*e).set_curve_type(CurvedEdgeType::Linear);
             }
         }
-- 
2.43.0


From 71eefd4fc8aad94f352a26629ee1d918cb061e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 16/37] fix: closing cubic segments of glyph outlines were
 attached to the edge against the drawing direction

---
 src/mesh/mesh/fonts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 977ac25..56a8f07 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -136,7 +136,7 @@ impl<'a> Font<'a> {
             if let Some(_p) = cur {
                 // TODO: don't use eq but similarity
                 if first.unwrap() == p1 {
-                    let (_, _, e) = mesh.close_face_vertices(
+                    let (_, e, _) = mesh.close_face_vertices(
                         prev_v,
                         Default::default(),
                         cur_v,
-- 
2.43.0


From 1d3fb75b6d3ddffaecff0f191fc6a824733f0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 17/37] fix: closing an open path draws the closing line
 instead of panicking

---
 src/mesh/mesh/path_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index 4b1e395..e9fa4f6 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -221,10 +221,9 @@ where
             return self.mesh().close_hole(start_inner, fp, false);
         }
 
-        self.closed = true;
-
         let Some((current_inner, current_outer)) = self.current_edges() else {
             // The current vertex doesn't have any edges yet.
+            self.closed = true;
             assert!(self.start_edges().is_none());
             assert!(self.start_vertex() == self.current_vertex());
             return IndexType::max();
@@ -248,6 +247,7 @@ where
             //self.mesh().close
             self.line_to(self.start_vertex());
         }
+        self.closed = true;
 
         // TODO: is this necessary or not? Generally, is the correction above correct? Or is the winding in the opposite direction?
         /*debug_assert!(self
-- 
2.43.0


From bb921edc4c08b1ac9eea88530d642205ca2241b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 18/37] fix: advance glyphs in the scale they are drawn in

---
 src/mesh/mesh/fonts.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 56a8f07..464ab53 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -28,7 +28,10 @@ impl<'a> Font<'a> {
     }
 
     fn font_scale(&self) -> f32 {
-        self.scale //* self.font.pt_to_px_scale(1.0).map(|x| x.x).unwrap_or(1.0)
+        self.font
+            .pt_to_px_scale(self.scale)
+            .map(|x| x.x)
+            .unwrap_or(self.scale)
     }
 
     /// Get the advance of the given character.
@@ -89,13 +92,7 @@ impl<'a> Font<'a> {
             return;
         };
 
-        let scale = T::S::from(
-            self.font
-                .pt_to_px_scale(self.scale)
-                .map(|x| x.x)
-                .unwrap_or(self.scale)
-                / self.font.height_unscaled(),
-        );
+        let scale = T::S::from(self.font_scale() / self.font.height_unscaled());
         let mut first = None;
         let mut cur = None;
         let mut cur_v = IndexType::max();
-- 
2.43.0


From 2ea36ac35e348e1cdc1abc4a424534abe11d4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 19/37] fix: imported paths honour the transforms of the SVG
 document

---
 src/extensions/svg/svg.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 0f00d34..06ec873 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -45,9 +45,12 @@ where
     // let fill = path.fill();
     // let stroke = path.stroke();
     // let po = path.paint_order();
-    // let transform = path.abs_transform();
 
-    let v = |p: usvg::tiny_skia_path::Point| T::Vec::from_xy(T::S::from(p.x), T::S::from(p.y));
+    let transform = path.abs_transform();
+    let v = |mut p: usvg::tiny_skia_path::Point| {
+        transform.map_point(&mut p);
+        T::Vec::from_xy(T::S::from(p.x), T::S::from(p.y))
+    };
 
     let mut pb = PathBuilder::<T, T::Trans>::new(mesh);
 
-- 
2.43.0


From 8ea8cf7453bb2df9eeb4a63fe4c41e39afb7eb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 20/37] fix: the weighted Laplacian uses the weighted degrees

---
 src/mesh/mesh/netsci.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh/netsci.rs b/src/mesh/mesh/netsci.rs
index 2921fd4..8652671 100644
--- a/src/mesh/mesh/netsci.rs
+++ b/src/mesh/mesh/netsci.rs
@@ -85,7 +85,9 @@ pub trait NetworkScience<T: MeshType<Mesh = Self>>: MeshBasics<T> {
     where
         T: EuclideanMeshType<D>,
     {
-        self.degree_matrix() - self.adjacency_matrix_euclidean::<D>()
+        // the degrees have to be weighted as well, i.e., the row sums of the adjacency matrix
+        let adj = self.adjacency_matrix_euclidean::<D>();
+        nalgebra::DMatrix::from_diagonal(&adj.column_sum()) - adj
     }
 }
 
-- 
2.43.0


From e5832721375b7bc646e65d4a14fbfb82fd8e466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 21/37] fix: insert_vertices_into_edge returned the last part
 of the edge instead of the one leaving the previous origin

---
 src/halfedge/mesh/builder/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index 13da7a0..0c1a5ef 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -127,6 +127,7 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         let f1 = self.edge(e).face_id();
         let f2 = self.edge(twin_id).face_id();
         let mut last_v = self.edge(e).origin_id();
+        let mut start = e;
         let dangling = current == twin_id;
         let mut first = true;
         for (ep1, ep2, vp) in ps {
@@ -143,6 +144,7 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
             self.edge_mut(current_twin).set_face(f2);
             if first {
                 self.vertex_mut(self.edge(e).origin_id()).set_edge(e1);
+                start = e1;
                 first = false;
             }
         }
@@ -153,7 +155,7 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         self.edge_mut(twin_id).set_next(current_twin);
         self.edge_mut(e).set_origin(last_v);
 
-        return e;
+        return start;
     }
 
     fn add_vertex(&mut self, vp: T::VP) -> T::V {
-- 
2.43.0


From 185b420a55ebf9c04fb90fe7a7c87c2bf74ec923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 22/37] fix: extrude_boundary skipped boundary edges unless the
 representative edge of a face was one

---
 src/operations/extrude.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operations/extrude.rs b/src/operations/extrude.rs
index 43fc8a4..eeb422a 100644
--- a/src/operations/extrude.rs
+++ b/src/operations/extrude.rs
@@ -26,9 +26,11 @@ where
     {
         let faces = self.face_ids().collect_vec();
         for f in faces {
-            let e = self.face(f).edge(self).twin_id();
-            if self.edge(e).is_boundary_self() {
-                self.extrude(e, transform);
+            let outside = self.face(f).edges(self).map(|e| e.twin_id()).collect_vec();
+            for e in outside {
+                if self.edge(e).is_boundary_self() {
+                    self.extrude(e, transform);
+                }
             }
         }
     }
-- 
2.43.0


From b80f6946b70a48f3b5710b4e99f7f0cff39e4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 23/37] fix: the vertices of the dodecahedron were not at the
 given radius

---
 src/primitives/sphere.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index b2501e6..94c3897 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -72,9 +72,10 @@ where
     fn dodecahedron(radius: T::S) -> Self {
         // https://en.wikipedia.org/wiki/Regular_dodecahedron#/media/File:Dodecahedron_vertices.svg
 
-        let phi = radius * T::S::PHI;
-        let iphi = radius / T::S::PHI;
-        let one = radius;
+        // the vertices of the cube lie on the sphere as well
+        let one = radius / T::S::THREE.sqrt();
+        let phi = one * T::S::PHI;
+        let iphi = one / T::S::PHI;
         let zero = T::S::ZERO;
         let make_vp = |x, y, z| T::VP::from_pos(T::Vec::from_xyz(x, y, z));
 
-- 
2.43.0


From e9fa7d71f590f3dddf1ad409cf4f71b2166d42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 24/37] fix: the corners of the geodesic tetrahedron were not
 at the given radius

---
 src/primitives/sphere.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index 94c3897..0d25d36 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -200,7 +200,8 @@ where
     where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
-        let mut mesh = Self::regular_tetrahedron(radius);
+        let edge = T::S::FOUR * radius / (T::S::TWO * T::S::THREE).sqrt();
+        let mut mesh = Self::regular_tetrahedron(edge);
         debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
-- 
2.43.0


From e01e044c8842436581e549655176ba5f26062c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 25/37] fix: the side edges of the uniform antiprism had
 another length than those of its bases

---
 src/primitives/prismatoid.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index a272490..8de6424 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -268,11 +268,9 @@ where
 
     /// Creates a uniform antiprism with given radius `r` and `n` sides.
     fn uniform_antiprism(r: T::S, n: usize) -> Self {
-        // TODO: isn't this the edge length?
-        Self::regular_antiprism(
-            r,
-            regular_polygon_sidelength(r, n) * T::S::THREE.sqrt() * T::S::HALF,
-            n,
-        )
+        // the slanted edges span half the angle of a side
+        let side = regular_polygon_sidelength(r, n);
+        let chord = regular_polygon_sidelength(r, 2 * n);
+        Self::regular_antiprism(r, (side * side - chord * chord).sqrt(), n)
     }
 }
-- 
2.43.0


From 57e16f1b29ae5c53f116e01898d287a123d35106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 26/37] fix: is_isomorphic_pos required equal ids instead of
 matching vertices by position

---
 src/mesh/mesh/basics.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index d0dca51..98f0b76 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -452,12 +452,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
     where
         T::VP: HasPosition<D, Vec, S = S>,
     {
-        self.is_trivially_isomorphic_ex(
-            other,
-            |a, b| a.pos().is_about(&b.pos(), eps),
-            |_, _| true,
-            |_, _| true,
-        )
+        self.is_isomorphic_by_pos::<S, D, Vec, T>(other, eps)
     }
 
     /// Same as `is_trivially_isomorphic_pos`, but also checks control points of curved edges.
-- 
2.43.0


From 7f3627a3fbcd71826c1f126dbe60478dc100570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:37 +0000
Subject: [PATCH 27/37] fix: comparing meshes by id panicked if an id exists in
 only one of them

---
 src/mesh/mesh/basics.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 98f0b76..70e8df6 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -354,13 +354,20 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for v in self.vertices() {
+            if !other.has_vertex(v.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingVertex;
+            }
             let other_v = other.vertex(v.id());
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
             }
         }
 
+        let other_edges: HashSet<T::E> = other.edge_ids().collect();
         for e in self.edges() {
+            if !other_edges.contains(&e.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingEdge(e.id());
+            }
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
                 || e.origin(self).id() != other_e.origin(other).id()
@@ -371,7 +378,11 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             }
         }
 
+        let other_faces: HashSet<T::F> = other.face_ids().collect();
         for f in self.faces() {
+            if !other_faces.contains(&f.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingFace(f.id());
+            }
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
                 || f.num_vertices(self) != other_f.num_vertices(other)
-- 
2.43.0


From 80281956cf71ec3ec4d2e6c8fe26ffa4e14d7b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 28/37] fix: comparison by ids ignored the order of the edges
 around a vertex

---
 src/mesh/mesh/basics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 70e8df6..fb24c25 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -372,6 +372,12 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             if e.id() != other_e.id()
                 || e.origin(self).id() != other_e.origin(other).id()
                 || e.target(self).id() != other_e.target(other).id()
+                // the same successor, i.e., the same order of the edges around the vertices
+                || !e
+                    .edges_face(self)
+                    .map(|e| e.id())
+                    .take(2)
+                    .eq(other_e.edges_face(other).map(|e| e.id()).take(2))
                 || !compare_edge(e, other_e)
             {
                 return MeshEquivalenceDifference::DifferentEdges(e.id(), other_e.id());
-- 
2.43.0


From 95a95a186c8bd2b8e5846ec8fe63e7fabb783c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 29/37] fix: check the corners the chosen diagonal has to
 separate when splitting a quadrilateral

---
 src/tesselate/fixed_n.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tesselate/fixed_n.rs b/src/tesselate/fixed_n.rs
index 92e9007..e3f0046 100644
--- a/src/tesselate/fixed_n.rs
+++ b/src/tesselate/fixed_n.rs
@@ -65,11 +65,9 @@ pub fn min_weight_quad<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>>(
     let weight_diagonal_0_2 = vs[0].vec.distance_squared(&vs[2].vec);
     let weight_diagonal_1_3 = vs[1].vec.distance_squared(&vs[3].vec);
 
-    // TODO: Are the convexity checks correct? Or do they check the exact opposite?
-
     if weight_diagonal_0_2 <= weight_diagonal_1_3 {
         let vs1_3_convex =
-            vs[1].vec.convex(vs[2].vec, vs[0].vec) && vs[3].vec.convex(vs[0].vec, vs[2].vec);
+            vs[1].vec.convex(vs[0].vec, vs[2].vec) && vs[3].vec.convex(vs[2].vec, vs[0].vec);
         if vs1_3_convex {
             // insert the diagonal 0-2
             indices.insert_triangle(vs[0].index, vs[1].index, vs[2].index);
-- 
2.43.0


From c77a6252d323d252c7a0d4ef85c076fe7f3f8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 30/37] fix: halve the cross product so that get_triangle_area
 is the area of the triangle

---
 src/mesh/triangulation.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index c122812..443d6ec 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -93,7 +93,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         let v2 = vec_hm[&i3];
 
         // Use the determinant to calculate the area of the triangle
-        (v1.x() - v0.x()) * (v2.y() - v0.y()) - (v1.y() - v0.y()) * (v2.x() - v0.x())
+        Vec2::S::HALF
+            * ((v1.x() - v0.x()) * (v2.y() - v0.y()) - (v1.y() - v0.y()) * (v2.x() - v0.x()))
     }
 
     /// Insert a triangle into the triangulation using local indices
@@ -282,11 +283,10 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Sum the area of all triangles added to the index buffer since the triangulation was created
     pub fn get_area<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
-        Vec2::S::HALF
-            * (0..self.len())
-                .into_iter()
-                .map(|i| self.get_triangle_area(i, vec_hm).abs())
-                .stable_sum()
+        (0..self.len())
+            .into_iter()
+            .map(|i| self.get_triangle_area(i, vec_hm).abs())
+            .stable_sum()
     }
 
     /// Calculate the total edge weight of the triangulation
-- 
2.43.0


From 61f79872890a17a3f32665e91b15388a8bb2b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 31/37] fix: compare the areas in verify_area up to rounding
 instead of up to 100 %

---
 src/mesh/triangulation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 443d6ec..de80f9c 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -314,7 +314,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         // Check if the area of the polygon is the same as the sum of the areas of the triangles
         assert!(
             (Vec2::S::ONE - area / reference).abs()
-                <= (Vec2::S::ONE + Vec2::S::from_usize(5) * Vec2::S::EPS),
+                <= Vec2::S::from_usize(5) * Vec2::S::EPS.sqrt(),
             "Area of the polygon is not equal to the sum of the areas of the triangles ({} != {})",
             area,
             reference
-- 
2.43.0


From e167b14f645605fa2d260951614f3573f6ab9684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 32/37] fix: take the apex as the last vertex of a still empty
 right chain in the sweep-line triangulators

---
 src/tesselate/sweep/monotone/delaunay.rs | 3 ++-
 src/tesselate/sweep/monotone/dynamic.rs  | 4 ++--
 src/tesselate/sweep/monotone/linear.rs   | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tesselate/sweep/monotone/delaunay.rs b/src/tesselate/sweep/monotone/delaunay.rs
index 850eca0..addbb03 100644
--- a/src/tesselate/sweep/monotone/delaunay.rs
+++ b/src/tesselate/sweep/monotone/delaunay.rs
@@ -440,7 +440,8 @@ impl<V: IndexType, Vec2: Vector2D> MonotoneTriangulator for DelaunayMonoTriangul
         } else if self.d == ChainDirection::Right {
             self.last_left.unwrap()
         } else {
-            self.last_right.unwrap()
+            // before anything is added to the right, the apex is the last vertex there
+            self.last_right.unwrap_or(self.first())
         };
 
         assert!(res == self.first());
diff --git a/src/tesselate/sweep/monotone/dynamic.rs b/src/tesselate/sweep/monotone/dynamic.rs
index 024fbd4..12c5827 100644
--- a/src/tesselate/sweep/monotone/dynamic.rs
+++ b/src/tesselate/sweep/monotone/dynamic.rs
@@ -102,8 +102,8 @@ impl<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>> MonotoneTriangulator
             assert!(self.left.len() > 0);
             self.left[self.left.len() - 1]
         } else {
-            assert!(self.right.len() > 0);
-            self.right[self.right.len() - 1]
+            // before anything is added to the right, the apex is the last vertex there
+            *self.right.last().unwrap_or(&self.left[0])
         }
     }
 
diff --git a/src/tesselate/sweep/monotone/linear.rs b/src/tesselate/sweep/monotone/linear.rs
index 638b417..f761eaf 100644
--- a/src/tesselate/sweep/monotone/linear.rs
+++ b/src/tesselate/sweep/monotone/linear.rs
@@ -219,7 +219,8 @@ impl<V: IndexType, Vec2: Vector2D> MonotoneTriangulator for LinearMonoTriangulat
         } else if self.d == ChainDirection::Right {
             self.last_left.unwrap()
         } else {
-            self.last_right.unwrap()
+            // before anything is added to the right, the apex is the last vertex there
+            self.last_right.unwrap_or(self.first())
         };
 
         assert!(res == self.first());
-- 
2.43.0


From 6be536244d2961da498d597bf33f12b4849de3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:57 +0000
Subject: [PATCH 33/37] fix: rotate by a half turn between opposite vectors
 instead of panicking

---
 src/extensions/nalgebra/math/rotate.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/extensions/nalgebra/math/rotate.rs b/src/extensions/nalgebra/math/rotate.rs
index f3ecdbd..0b7a1bf 100644
--- a/src/extensions/nalgebra/math/rotate.rs
+++ b/src/extensions/nalgebra/math/rotate.rs
@@ -100,13 +100,20 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
         } else if D == 3 {
             Self {
                 rot2: None,
-                rot3: Some(
-                    nalgebra::Rotation3::rotation_between(
-                        &from.fixed_rows::<3>(0).into_owned(),
-                        &to.fixed_rows::<3>(0).into_owned(),
+                rot3: {
+                    let from = from.fixed_rows::<3>(0).into_owned();
+                    let to = to.fixed_rows::<3>(0).into_owned();
+                    // opposite vectors: any half turn about a perpendicular axis will do
+                    Some(
+                        nalgebra::Rotation3::rotation_between(&from, &to).unwrap_or_else(|| {
+                            let axis = nalgebra::Vector3::ith(from.iamin(), S::one()).cross(&from);
+                            nalgebra::Rotation3::from_axis_angle(
+                                &nalgebra::Unit::new_normalize(axis),
+                                S::pi(),
+                            )
+                        }),
                     )
-                    .expect("Failed to create rotation"),
-                ),
+                },
                 rot: None,
             }
         } else {
-- 
2.43.0


From a7f3c35a7c6f446a2355db40eb5bf0ec70543672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:13 +0000
Subject: [PATCH 34/37] fix: map the indices in dense_vertices instead of none
 of them

---
 src/halfedge/mesh/basics.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/halfedge/mesh/basics.rs b/src/halfedge/mesh/basics.rs
index 12798f7..ebe29b3 100644
--- a/src/halfedge/mesh/basics.rs
+++ b/src/halfedge/mesh/basics.rs
@@ -4,7 +4,7 @@ use super::{HalfEdgeImplMeshType, HalfEdgeMeshImpl};
 use crate::{
     math::IndexType,
     mesh::{
-        EdgeBasics, FaceBasics, HalfEdge, MeshBasics, Triangulation, VertexBasics, VertexPayload,
+        EdgeBasics, FaceBasics, HalfEdge, MeshBasics, VertexBasics, VertexPayload,
     },
     util::Deletable,
 };
@@ -153,7 +153,10 @@ impl<T: HalfEdgeImplMeshType> MeshBasics<T> for HalfEdgeMeshImpl<T> {
                 id_map.insert(v.id(), T::V::new(vertices.len()));
                 vertices.push(v.payload().clone());
             }
-            Triangulation::new(indices).map_indices(&id_map);
+            // a `Triangulation` would ignore the indices that are already there
+            for i in indices.iter_mut() {
+                *i = id_map[i];
+            }
         }
 
         vertices
-- 
2.43.0


From 23d45195ded3423f453e215e5650e45964b8a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:01 +0000
Subject: [PATCH 35/37] fix: split a sweep interval at its lowest corner

A split vertex was connected to the last vertex of the opposite chain. Another vertex of the
interval can be in between, so the cut crossed the polygon, and triangles overlapped or the sweep panicked.
---
 src/tesselate/sweep/sweep.rs | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/tesselate/sweep/sweep.rs b/src/tesselate/sweep/sweep.rs
index 48acda5..a71bb3b 100644
--- a/src/tesselate/sweep/sweep.rs
+++ b/src/tesselate/sweep/sweep.rs
@@ -126,38 +126,26 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
         let line = self.sls.remove_left(i, &self.vec2s).unwrap();
         assert!(!line.is_end(), "A split vertex must not be an end vertex");
 
-        let stacks = if let Some(mut fixup) = line.fixup {
+        // Connect to the lowest vertex of the interval. The view to any other one might be blocked.
+        let (mut left, mut right) = if let Some(fixup) = line.fixup {
             #[cfg(feature = "sweep_debug_print")]
             println!("fixup split: {}", fixup);
 
-            let t = fixup.last_opposite();
-
-            fixup.right(event.here, self.tri, self.vec2s);
-            fixup.finish(self.tri, self.vec2s);
-
-            let mut x = MT::new(t);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (line.chain, fixup)
         } else if line.chain.is_right() {
-            let mut x = MT::new(line.helper);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (line.chain, MT::new(line.helper))
         } else {
-            let mut x = MT::new(line.chain.last_opposite());
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (MT::new(line.helper), line.chain)
         };
+        left.right(event.here, self.tri, self.vec2s);
+        right.left(event.here, self.tri, self.vec2s);
 
         self.sls.insert(
             SweepLineInterval {
                 helper: event.here,
                 left: line.left,
                 right: IntervalBoundaryEdge::new(event.here, event.prev),
-                chain: {
-                    let mut x = line.chain;
-                    x.right(event.here, self.tri, self.vec2s);
-                    x
-                },
+                chain: left,
                 fixup: None,
             },
             self.vec2s,
@@ -168,7 +156,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: IntervalBoundaryEdge::new(event.here, event.next),
                 right: line.right,
-                chain: stacks,
+                chain: right,
                 fixup: None,
             },
             self.vec2s,
-- 
2.43.0


From e7d152d45ba01bb6e690f04416d2169a65b85d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 36/37] fix: meet the end of a sweep edge without rounding

Two edges ending in the same corner could appear to cross at the height of that corner, which
failed an assertion when another corner of the same height was searched.
---
 src/tesselate/sweep/interval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tesselate/sweep/interval.rs b/src/tesselate/sweep/interval.rs
index d5777e9..ea7ecab 100644
--- a/src/tesselate/sweep/interval.rs
+++ b/src/tesselate/sweep/interval.rs
@@ -25,8 +25,9 @@ impl IntervalBoundaryEdge {
         let s = vec2s[self.start].vec;
         let dx = e.x() - s.x();
         let dy = e.y() - s.y();
-        if dy == Vec2::S::ZERO {
-            // when parallel to the sweep line, we can just use the x-coordinate of the end vertex
+        if dy == Vec2::S::ZERO || y == e.y() {
+            // when parallel to the sweep line, we can just use the x-coordinate of the end vertex.
+            // At its end, the edge must meet the other edges ending there without any rounding.
             e.x()
         } else {
             s.x() + dx * (y - s.y()) / dy
-- 
2.43.0


From b73a3ca4ab4e4181106db09b936c7e0882d363de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:11 +0000
Subject: [PATCH 37/37] fix: compare the results of both interval searches
 after the containment check

The debug assertion in find_btree failed for every position right of some interval but outside of all of them.
---
 src/tesselate/sweep/status.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/tesselate/sweep/status.rs b/src/tesselate/sweep/status.rs
index 131a7c9..eec3f08 100644
--- a/src/tesselate/sweep/status.rs
+++ b/src/tesselate/sweep/status.rs
@@ -236,7 +236,13 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             .expect("The tree should be initialized.")
             .range(sorter.clone()..)
             .next()
-            .map(|sorter| sorter.left);
+            .map(|sorter| sorter.left)
+            // the nearest interval might end before the position
+            .filter(|i| {
+                self.left[*i]
+                    .as_ref()
+                    .map_or(false, |v| v.contains(pos, vec2s))
+            });
 
         debug_assert!(
             x == self.find_linearly(pos, vec2s),
@@ -250,14 +256,7 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             self.tree,
         );
 
-        if let Some(i) = x {
-            if let Some(v) = &self.left[i] {
-                if v.contains(pos, vec2s) {
-                    return x;
-                }
-            }
-        }
-        None
+        x
     }
 
     /// Delayed initialization of the b-tree
-- 
2.43.0

