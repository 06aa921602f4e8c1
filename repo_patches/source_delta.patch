From ee215ec548264c05666cbb1e56b3f0d765f459de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 01/22] fix: allow splitting the disjoint subsets producer at
 its end

Rayon permits splitting a producer at an index equal to its length (e.g. through take),
but DisjointSubsetsProducer::split_at panicked.
---
 fenris-paradis/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 959a1fe..9a92413 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -356,7 +356,8 @@ impl<'a, Access: Send + Clone> Producer for DisjointSubsetsProducer<'a, Access>
 
     fn split_at(self, index: usize) -> (Self, Self) {
         let producer_len = self.range_len;
-        assert!(index < producer_len);
+        // An index equal to the length is a valid split point (the right producer is then empty)
+        assert!(index <= producer_len);
         let global_subset_idx = self.range_start_idx + index;
 
         let producer_left = DisjointSubsetsProducer {
-- 
2.43.0


From c333cf10b3069bd4fb8e89eaa77def622e9239a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 02/22] fix: accept disjoint subsets that are all empty in
 subsets_par_iter

The debug sanity check confused 'no maximum index' with 'no subsets', so that iterating a family
consisting of only empty subsets (e.g. elements without nodes) panicked in debug builds.
---
 fenris-paradis/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 9a92413..8eeb969 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -266,8 +266,11 @@ impl DisjointSubsets {
             self.max_index.is_none() || storage.len() > self.max_index.unwrap(),
             "Subsets contain indices out of bounds."
         );
-        // Sanity check: if we don't have a max index, then we also cannot have any subsets
-        debug_assert_eq!(self.max_index.is_none(), self.subsets.len() == 0);
+        // Sanity check: if we don't have a max index, then we also cannot have any non-empty subsets
+        debug_assert_eq!(
+            self.max_index.is_none(),
+            self.subsets.iter().all(|subset| subset.is_empty())
+        );
         let access = unsafe { storage.create_access() };
 
         DisjointSubsetsParIter {
-- 
2.43.0


From f7e0540541e104512a644363065d917d78360a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 03/22] fix: nonzero Dirichlet diagonal for dense matrices with
 zero diagonal

apply_homogeneous_dirichlet_bc_matrix derived its diagonal scale from the diagonal alone, so that a
matrix with an all-zero diagonal got zero rows for the prescribed unknowns (the CSR variant uses one).
---
 src/assembly/global.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assembly/global.rs b/src/assembly/global.rs
index 3578a62..2f829d8 100644
--- a/src/assembly/global.rs
+++ b/src/assembly/global.rs
@@ -465,6 +465,8 @@ where
         .map(|x| x.abs())
         .fold(T::zero(), |a, b| a + b)
         / T::from_usize(matrix.nrows()).unwrap();
+    // A matrix with an all-zero diagonal offers no scale (and a zero diagonal would make it singular)
+    let scale = if scale == T::zero() { T::one() } else { scale };
 
     for node in nodes {
         for i in 0..d {
-- 
2.43.0


From ac37de6e2dbbcd3de36c22e13ffd76cb27815c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 04/22] fix: reject out-of-range indices in
 Permutation::from_vec instead of panicking

---
 src/mesh/reorder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/reorder.rs b/src/mesh/reorder.rs
index 307c735..dd76ae0 100644
--- a/src/mesh/reorder.rs
+++ b/src/mesh/reorder.rs
@@ -119,7 +119,7 @@ impl Permutation {
     pub fn from_vec(perm: Vec<usize>) -> Result<Self, InvalidPermutation> {
         let mut visited = vec![false; perm.len()];
         for &index in &perm {
-            if visited[index] {
+            if index >= perm.len() || visited[index] {
                 return Err(InvalidPermutation { marker: PhantomData });
             } else {
                 visited[index] = true;
-- 
2.43.0


From a73ad6476602c2ba870d89ff3ca2d72aa1da998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 05/22] fix: empty hex mesh when no cells are requested along z

---
 src/mesh/procedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index 99c01e0..58c57d4 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -223,7 +223,7 @@ pub fn create_rectangular_uniform_hex_mesh<T>(
 where
     T: Real,
 {
-    if cells_per_unit == 0 || units_x == 0 || units_y == 0 {
+    if cells_per_unit == 0 || units_x == 0 || units_y == 0 || units_z == 0 {
         HexMesh::from_vertices_and_connectivity(Vec::new(), Vec::new())
     } else {
         let mut vertices = Vec::new();
-- 
2.43.0


From f1b1793fc4cfeb9a0a12cf6c1b6b154476953b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 06/22] fix: find the right part of an aggregate assembler in
 the presence of empty parts

---
 src/assembly/local.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/assembly/local.rs b/src/assembly/local.rs
index da5b101..859e4e8 100644
--- a/src/assembly/local.rs
+++ b/src/assembly/local.rs
@@ -203,11 +203,13 @@ where
     }
 
     fn find_assembler_and_offset_for_element_index(&self, element_index: usize) -> (&ElementAssembler, usize) {
-        assert!(element_index <= self.num_elements);
-        let assembler_idx = match self.element_offsets.binary_search(&element_index) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
-        };
+        assert!(element_index < self.num_elements);
+        // The last assembler that starts at or before the element: assemblers without elements
+        // share their offset with the assembler that follows them
+        let assembler_idx = self
+            .element_offsets
+            .partition_point(|&offset| offset <= element_index)
+            - 1;
         (&self.assemblers[assembler_idx], self.element_offsets[assembler_idx])
     }
 }
-- 
2.43.0


From e0f4281e3606efd7b8a65edf6881b591ecd78652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 07/22] fix: record the empty support of every point when
 interpolating in a space without elements

---
 src/space/fixed_interpolator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/space/fixed_interpolator.rs b/src/space/fixed_interpolator.rs
index faa7961..7c7c57f 100644
--- a/src/space/fixed_interpolator.rs
+++ b/src/space/fixed_interpolator.rs
@@ -269,9 +269,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = space.find_closest_element_and_reference_coords(point)
-            // break out of the loop if there are no elements in the space
+            // there is no contribution if there are no elements in the space
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
@@ -351,9 +351,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = closest_element_and_ref_coord
-            // break out of the loop if there are no elements in the space
+            // there is no contribution if there are no elements in the space
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
-- 
2.43.0


From 1c080cf5d1b5a8196687af6997765dab9242d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 08/22] fix: reject msh files whose elements refer to nodes
 that do not exist

---
 src/io/msh.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index a3409ff..54ccadb 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -96,9 +96,17 @@ where
         ));
     }
 
+    // Element blocks refer to nodes by tag, which we identify with the position of the node in the file
+    if msh_nodes.min_node_tag != 1 {
+        return Err(eyre!(
+            "smallest node tag in msh file is {}, but only tags starting at 1 are supported",
+            msh_nodes.min_node_tag
+        ));
+    }
+
     // Collect all connectivity matching the target connectivity
     for element_block in &msh_elements.element_blocks {
-        let block_connectivity = connectivity_from_element_block(element_block)?;
+        let block_connectivity = connectivity_from_element_block(element_block, vertices.len())?;
         connectivity.extend(block_connectivity);
     }
 
@@ -154,7 +162,10 @@ where
 }
 
 /// Tries to convert a `mshio::ElementBlock` to a `Vec<Connectivity>`.
-fn connectivity_from_element_block<C, I>(element_block: &mshio::ElementBlock<u64, I>) -> eyre::Result<Vec<C>>
+fn connectivity_from_element_block<C, I>(
+    element_block: &mshio::ElementBlock<u64, I>,
+    num_nodes: usize,
+) -> eyre::Result<Vec<C>>
 where
     C: MshConnectivity,
     I: mshio::MshIntT,
@@ -179,6 +190,13 @@ where
             if element.nodes.len() < requested_nodes {
                 return Err(eyre!("not enough nodes to initialize connectivity"));
             }
+            if let Some(tag) = element
+                .nodes
+                .iter()
+                .find(|&&tag| tag == 0 || tag > num_nodes as u64)
+            {
+                return Err(eyre!("element refers to node {} which does not exist", tag));
+            }
             connectivity.push(C::try_connectivity_from_msh_element(element)?);
         }
 
-- 
2.43.0


From f40b03824c074bdad4bd31cc2e45ca55aaaaa4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 09/22] fix: no panic for msh element blocks of negative
 dimension

---
 src/io/msh.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index 54ccadb..7588ea7 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -211,11 +211,7 @@ where
     I: mshio::MshIntT,
 {
     element_block.element_type == C::msh_element_type()
-        && element_block
-            .entity_dim
-            .to_usize()
-            .expect("failed to convert element block dimension to usize")
-            == C::reference_dim()
+        && element_block.entity_dim.to_usize() == Some(C::reference_dim())
 }
 
 macro_rules! f_to_t {
-- 
2.43.0


From 9a0bdcee4c8d5c0dad2014c15a7c6f4293c818c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 10/22] fix: export nine-node quads as the nine-node VTK cell
 type

---
 src/io/vtk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/vtk.rs b/src/io/vtk.rs
index 9fd4b2e..a707c0b 100644
--- a/src/io/vtk.rs
+++ b/src/io/vtk.rs
@@ -71,7 +71,7 @@ impl VtkCellConnectivity for Quad4d2Connectivity {
 
 impl VtkCellConnectivity for Quad9d2Connectivity {
     fn cell_type(&self) -> CellType {
-        CellType::QuadraticQuad
+        CellType::BiquadraticQuad
     }
 }
 
-- 
2.43.0


From 8fddfb8b6bde81931c5110688cb237d8f43df819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 11/22] fix: Newton's method no longer reports convergence for
 a residual that is not a number

---
 fenris-optimize/src/newton.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fenris-optimize/src/newton.rs b/fenris-optimize/src/newton.rs
index 00da70b..689d9b0 100644
--- a/fenris-optimize/src/newton.rs
+++ b/fenris-optimize/src/newton.rs
@@ -128,7 +128,14 @@ where
         iter += 1;
     }
 
-    Ok(iter)
+    // A residual that is not a number is not larger than the tolerance, but no solution either
+    if f.norm() <= settings.tolerance {
+        Ok(iter)
+    } else {
+        Err(NewtonError::LineSearchError(Box::from(
+            "residual norm is not a number",
+        )))
+    }
 }
 
 pub trait LineSearch<T: Scalar, F: VectorFunction<T>> {
-- 
2.43.0


From af700541356e0a3c234491f2355522a44b8b2538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 12/22] fix: split concave quadrilaterals along the diagonal
 inside of them

---
 fenris-geometry/src/primitives/quad.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fenris-geometry/src/primitives/quad.rs b/fenris-geometry/src/primitives/quad.rs
index 8b41b0d..faafa9d 100644
--- a/fenris-geometry/src/primitives/quad.rs
+++ b/fenris-geometry/src/primitives/quad.rs
@@ -74,15 +74,15 @@ where
     /// While the quad may be concave, it is assumed that it has no self-intersections and that
     /// all vertices are unique.
     pub fn split_into_triangle_connectivities(&self) -> ([usize; 3], [usize; 3]) {
-        if let Some(concave_corner_index) = self.concave_corner() {
-            let i = concave_corner_index;
-            let triangle1 = [(i + 2) % 4, (i + 3) % 4, (i + 0) % 4];
-            let triangle2 = [(i + 2) % 4, (i + 0) % 4, (i + 1) % 4];
-            (triangle1, triangle2)
+        let signed_area = |[i, j, k]: [usize; 3]| Triangle([self.0[i], self.0[j], self.0[k]]).signed_area();
+
+        // Split arbitrarily, but in a regular fashion
+        let (triangle1, triangle2) = ([0, 1, 2], [0, 2, 3]);
+        if signed_area(triangle1) * signed_area(triangle2) < T::zero() {
+            // If the triangles are oppositely oriented then vertex 1 or 3 is a concave corner,
+            // and only the diagonal that connects these two is inside of the quad
+            ([1, 2, 3], [1, 3, 0])
         } else {
-            // Split arbitrarily, but in a regular fashion
-            let triangle1 = [0, 1, 2];
-            let triangle2 = [0, 2, 3];
             (triangle1, triangle2)
         }
     }
-- 
2.43.0


From 6627990162c9ac19298e81c0c7a40d1714c350bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 13/22] fix: reset the stopping criterion at the start of every
 conjugate gradient solve

---
 fenris-sparse/src/cg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 8ab9fb2..0bdfc04 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -379,6 +379,9 @@ where
             marker: PhantomData,
         };
 
+        self.stopping_criterion
+            .reset(&self.operator, (&x).into(), (&b).into());
+
         let Buffers { r, z, p, Ap } = self.workspace.prepare_buffers(x.len());
 
         // r = b - Ax
-- 
2.43.0


From 9735b7cd3dae68453d9b190c02c82e3debc2c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 14/22] fix: volume of polyhedral meshes with inconsistently
 oriented faces

---
 fenris-geometry/src/polymesh.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/fenris-geometry/src/polymesh.rs b/fenris-geometry/src/polymesh.rs
index 4dd017c..e99ed16 100644
--- a/fenris-geometry/src/polymesh.rs
+++ b/fenris-geometry/src/polymesh.rs
@@ -12,7 +12,7 @@ use std::fmt::Display;
 use std::hash::Hash;
 
 // use crate::connectivity::Connectivity;
-use crate::{compute_polyhedron_volume_from_faces, ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
+use crate::{ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
 // use crate::mesh::Mesh;
 use fenris_nested_vec::NestedVec;
 
@@ -551,14 +551,28 @@ where
         self
     }
 
+    /// Computes the total volume of all cells in the mesh.
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn compute_volume(&self) -> T {
-        let boundary_faces = self.find_boundary_faces();
-        let face_iter = boundary_faces
-            .iter()
-            .map(|face_idx| self.get_face(*face_idx).unwrap());
-
-        compute_polyhedron_volume_from_faces(face_iter)
+        // Each (convex) cell is the union of the pyramids which connect one of its vertices to
+        // each of its faces. Since we only rely on the magnitude of the volume of each pyramid, the
+        // result does not depend on the orientation of the faces. This is important, because a face
+        // that is shared by two cells has the wrong orientation for one of them, and it becomes a
+        // boundary face if the other cell is removed from the mesh.
+        let mut volume = T::zero();
+        for cell in self.cell_connectivity_iter() {
+            let mut apex = None;
+            for face_idx in cell {
+                let face = self.get_face(*face_idx).unwrap();
+                // Ignore degenerate faces
+                if face.num_vertices() > 2 {
+                    let x0 = face.get_vertex(0).unwrap();
+                    let apex = apex.get_or_insert(x0);
+                    volume += face.compute_area_vector().dot(&(x0 - *apex)).abs() / 3.0;
+                }
+            }
+        }
+        volume
     }
 
     pub fn intersect_convex_polyhedron<'a>(&self, polyhedron: &impl ConvexPolyhedron<'a, T>) -> Self {
-- 
2.43.0


From 2a89f43972a1c588041033321cfa4c5e948b9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 15/22] fix: converting cells with non-triangular faces to
 tetrahedra is an error, not a panic

---
 src/mesh_convert.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh_convert.rs b/src/mesh_convert.rs
index 7942fbe..0ed75f5 100644
--- a/src/mesh_convert.rs
+++ b/src/mesh_convert.rs
@@ -592,6 +592,9 @@ where
                 // and finally connecting the base vertices to the apex.
                 let mut base_vertices = [0; 3];
                 let base_face = get_face(cell[0]);
+                if base_face.len() != 3 {
+                    return Err(Box::from("Failure to convert: Detected non-triangular face."));
+                }
                 base_vertices.clone_from_slice(base_face);
 
                 // Each remaining face should consist of two vertices from the base face,
-- 
2.43.0


From 710dcdfe2d0ba43aaf6d52baa4aeb277f3796180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 16/22] fix: log det F in one dimension used du/dX instead of 1
 + du/dX

---
 fenris-solid/src/logdet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fenris-solid/src/logdet.rs b/fenris-solid/src/logdet.rs
index 2d8723c..ab3ac3b 100644
--- a/fenris-solid/src/logdet.rs
+++ b/fenris-solid/src/logdet.rs
@@ -23,8 +23,9 @@ where
     match D::USIZE {
         1 => {
             let du_dX: &Matrix1<T> = try_transmute_ref(du_dX).unwrap();
-            let det = du_dX[(0, 0)];
-            (det > 0.0).then(|| det.ln())
+            // det(F) = 1 + u11, see the comments in the 2D and 3D impls
+            let gamma = du_dX[(0, 0)];
+            (gamma > -1.0).then(|| T::ln_1p(gamma))
         }
         2 => log_det_F_2d(try_transmute_ref(du_dX).unwrap()),
         3 => log_det_F_3d(try_transmute_ref(du_dX).unwrap()),
-- 
2.43.0


From c614588ad550d94399ee9bf949d0ca6bd41e6624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 17/22] fix: solid angles larger than pi

---
 fenris-geometry/src/primitives/triangle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-geometry/src/primitives/triangle.rs b/fenris-geometry/src/primitives/triangle.rs
index f27d472..d6246c4 100644
--- a/fenris-geometry/src/primitives/triangle.rs
+++ b/fenris-geometry/src/primitives/triangle.rs
@@ -279,8 +279,8 @@ impl<T: Real> Triangle3d<T> {
         let cnorm = c.norm();
 
         let denominator = anorm * bnorm * cnorm + a.dot(&b) * cnorm + b.dot(&c) * anorm + c.dot(&a) * bnorm;
-        let tan_omega_half = abc_matrix.determinant() / denominator;
-        2.0 * tan_omega_half.atan()
+        // The angle is in (-2 pi, 2 pi), so half of it may well exceed pi / 2
+        2.0 * T::atan2(abc_matrix.determinant(), denominator)
     }
 }
 
-- 
2.43.0


From 50fe3b03913e5d9f145e410ff76ac54744c78dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 18/22] fix: segments that cross a polygon between two points
 outside of it intersect it

---
 fenris-geometry/src/polygon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/polygon.rs b/fenris-geometry/src/polygon.rs
index f65bb5d..c40a8d9 100644
--- a/fenris-geometry/src/polygon.rs
+++ b/fenris-geometry/src/polygon.rs
@@ -140,6 +140,10 @@ where
             }
         });
 
+        if intersects {
+            return true;
+        }
+
         for (endpoint, closest_edge_idx) in izip!(&endpoints, &closest_edges) {
             // We can unwrap here, because we know that the Polygon has at least one edge
             let closest_edge = self.get_edge(*closest_edge_idx).unwrap();
-- 
2.43.0


From c8d19503794d10a8f17e353aeb3c3fedbaf9f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 19/22] fix: no intersection of a segment with a disk that only
 the line through it meets

---
 fenris-geometry/src/primitives/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 3d66e8e..9ce3165 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -153,6 +153,10 @@ where
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn intersect_disk_parametric(&self, disk: &Disk<T>) -> Option<[T; 2]> {
         let [t1, t2] = self.to_line().intersect_disk_parametric(disk)?;
+        if t2 < 0.0 || t1 > 1.0 {
+            // The line intersects the disk, but only before or after the segment
+            return None;
+        }
         let t1 = clamp(t1, 0.0, 1.0);
         let t2 = clamp(t2, 0.0, 1.0);
         Some([t1, t2])
-- 
2.43.0


From 83053310231558f074c1b0e4950f27cc5c3c2472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 20/22] fix: projection onto elements that are large or small,
 and no endless loop in it

---
 src/element.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index b9f650a..8cb9948 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -408,8 +408,9 @@ where
         "ReferenceDim must be smaller or equal to GeometryDim."
     );
 
-    // See comments in `map_physical_coordinates` for why this is a reasonable tolerance.
-    let tolerance = T::from_f64(1e-12).unwrap() * element.diameter();
+    // See comments in `map_physical_coordinates` for why this is a reasonable tolerance. Here the residual
+    // is multiplied by the Jacobian, and so it has the dimension of a squared length.
+    let tolerance = T::from_f64(1e-12).unwrap() * element.diameter() * element.diameter();
 
     // We wish to solve the system
     //  f(xi) - x = 0,
@@ -450,7 +451,9 @@ where
         // TODO: Should better handle degenerate/problematic cases. For now we just want to
         // avoid infinite loops
         if iter > 1000 {
-            eprintln!("Exceeded 1000 iterations for project_physical_coordinates");
+            return Err(Box::from(
+                "Exceeded 1000 iterations for project_physical_coordinates",
+            ));
         }
     }
 
-- 
2.43.0


From 43f19b93b28101c0a839c24ceb94f1d1b3cf4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 21/22] fix: use the correct sign of the off-diagonal Hessian
 entries in apd

The Hessian of the polar decomposition functional is tr(S) I - S, so that its
off-diagonal entries are the negated entries of the symmetric part. With the
wrong sign, the iteration failed to converge for stretches with noticeable
off-diagonal entries.
---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4ea831d..2f6eb2f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -196,9 +196,9 @@ pub fn apd<T: Real>(
         let h00 = B1[1] + B2[2];
         let h11 = B0[0] + B2[2];
         let h22 = B0[0] + B1[1];
-        let h01 = (B1[0] + B0[1]) * 0.5;
-        let h02 = (B2[0] + B0[2]) * 0.5;
-        let h12 = (B2[1] + B1[2]) * 0.5;
+        let h01 = (B1[0] + B0[1]) * (-0.5);
+        let h02 = (B2[0] + B0[2]) * (-0.5);
+        let h12 = (B2[1] + B1[2]) * (-0.5);
 
         let detH =
             -(h02 * h02 * h11) + (h01 * h02 * h12) * 2.0 - (h00 * h12 * h12) - (h01 * h01 * h22) + (h00 * h11 * h22);
-- 
2.43.0


From 103dd95f50b28d361c48df4c2af538f976f7bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 22/22] fix: compute the condition number of indefinite
 symmetric matrices

The ratio has to be between the largest and smallest eigenvalue in absolute
value. For negative definite matrices, the reciprocal was returned.
---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2f6eb2f..9a94a2c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -470,12 +470,12 @@ where
     let (min, max) = matrix
         .symmetric_eigenvalues()
         .into_iter()
-        .cloned()
+        .map(|eigenvalue| eigenvalue.abs())
         .minmax_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Less))
         .into_option()
         .expect("Currently don't support empty matrices");
 
-    max.abs() / min.abs()
+    max / min
 }
 
 /*
-- 
2.43.0

