From 60d84bb1320bfc729d540fca1a59cbca8c35515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:46 +0000
Subject: [PATCH 01/34] fix: second-order geometries do not claim to be affine

---
 lib/lf/geometry/quad_o2.h    | 3 +++
 lib/lf/geometry/segment_o2.h | 3 +++
 lib/lf/geometry/tria_o2.h    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/lf/geometry/quad_o2.h b/lib/lf/geometry/quad_o2.h
index 5708e13..fe4df16 100644
--- a/lib/lf/geometry/quad_o2.h
+++ b/lib/lf/geometry/quad_o2.h
@@ -41,6 +41,9 @@ class QuadO2 : public Geometry {
     return base::RefEl::kQuad();
   }
 
+  /** @copydoc Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd &local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
diff --git a/lib/lf/geometry/segment_o2.h b/lib/lf/geometry/segment_o2.h
index 9b78605..a1e09ef 100644
--- a/lib/lf/geometry/segment_o2.h
+++ b/lib/lf/geometry/segment_o2.h
@@ -37,6 +37,9 @@ class SegmentO2 : public Geometry {
     return base::RefEl::kSegment();
   }
 
+  /** @copydoc Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd& local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
diff --git a/lib/lf/geometry/tria_o2.h b/lib/lf/geometry/tria_o2.h
index 8711771..71ae3c8 100644
--- a/lib/lf/geometry/tria_o2.h
+++ b/lib/lf/geometry/tria_o2.h
@@ -44,6 +44,9 @@ class TriaO2 : public Geometry {
     return base::RefEl::kTria();
   }
 
+  /** @copydoc Geometry::isAffine() */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
   [[nodiscard]] Eigen::MatrixXd Global(
       const Eigen::MatrixXd &local) const override;
   [[nodiscard]] Eigen::MatrixXd Jacobian(
-- 
2.43.0


From b597b2a7d6499f546bc76b84b671584239dcecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:38 +0000
Subject: [PATCH 02/34] fix: define the compile-time node coordinates returned
 by RefEl::NodeCoords<type>()

---
 lib/lf/base/ref_el.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/lf/base/ref_el.cc b/lib/lf/base/ref_el.cc
index e93ecb7..c49d198 100644
--- a/lib/lf/base/ref_el.cc
+++ b/lib/lf/base/ref_el.cc
@@ -13,6 +13,20 @@ const Eigen::MatrixXd RefEl::ncoords_tria_dynamic_ =
 const Eigen::MatrixXd RefEl::ncoords_quad_dynamic_ =
     (Eigen::MatrixXd{2, 4} << 0, 1, 1, 0, 0, 0, 1, 1).finished();
 
+const std::vector<Eigen::Matrix<double, 0, 1>> RefEl::ncoords_point_static_{
+    Eigen::Matrix<double, 0, 1>()};
+
+const std::vector<Eigen::Matrix<double, 1, 1>> RefEl::ncoords_segment_static_{
+    Eigen::Matrix<double, 1, 1>::Constant(0),
+    Eigen::Matrix<double, 1, 1>::Constant(1)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_tria_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(0, 1)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_quad_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(1, 1),
+    Eigen::Vector2d(0, 1)};
+
 // Print function
 void PrintInfo(std::ostream &stream, const RefEl &ref_el, int output_ctrl) {
   const base::dim_t dim_ref_el = ref_el.Dimension();
-- 
2.43.0


From eb99aff3d4246173599f3f9724a9315e5b52a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:18 +0000
Subject: [PATCH 03/34] fix: COOMatrix::MatVecMult returns a vector of the
 scalar type of the matrix

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index afa45cd..4fcb9ef 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -237,7 +237,7 @@ Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> COOMatrix<SCALAR>::MatVecMult(
     SCALAR alpha, const VECTOR &vec) const {
   LF_ASSERT_MSG(vec.size() >= cols_,
                 "size mismatch: " << cols_ << " <-> " << vec.size());
-  Eigen::VectorXd result(rows_);
+  Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> result(rows_);
   result.setZero();
   for (const Triplet &trp : triplets_) {
     result[trp.row()] += trp.value() * (alpha * vec[trp.col()]);
-- 
2.43.0


From f39b85317c4de27af0b8775bac71bb1b551bc19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:18 +0000
Subject: [PATCH 04/34] fix: output operator of COOMatrix passes the stream to
 PrintInfo

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index 4fcb9ef..89407cc 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -227,7 +227,7 @@ class COOMatrix {
 // Implementation of output operator
 template <typename SCALARTYPE>
 std::ostream &operator<<(std::ostream &o, const COOMatrix<SCALARTYPE> &mat) {
-  mat.PrintInfo();
+  mat.PrintInfo(o);
   return o;
 }
 
-- 
2.43.0


From e1ab71251fe859e4ac078bc26de45a0ede9f9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:18 +0000
Subject: [PATCH 05/34] fix: FixSolutionComponentsLse works for complex systems

---
 lib/lf/assemble/fix_dof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/assemble/fix_dof.h b/lib/lf/assemble/fix_dof.h
index e804647..6efe3dc 100644
--- a/lib/lf/assemble/fix_dof.h
+++ b/lib/lf/assemble/fix_dof.h
@@ -271,10 +271,10 @@ void FixSolutionComponentsLse(
   // FixFlaggedSolutionComponents<SCALAR>(fixed_comp_flags, fixed_vec, A, b);
   FixFlaggedSolutionCompAlt<SCALAR>(
       [&fixed_comp_flags,
-       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, double> {
+       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, SCALAR> {
         LF_ASSERT_MSG((i < fixed_comp_flags.size()) && (i < fixed_vec.size()),
                       "Illegal index " << i);
-        return std::make_pair(fixed_comp_flags[i], fixed_vec[i]);
+        return {fixed_comp_flags[i], fixed_vec[i]};
       },
       A, b);
 }
-- 
2.43.0


From ffc46b37ab97181814033650afde22f2604aad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:51 +0000
Subject: [PATCH 06/34] fix: edges can be added to a mesh without a geometry,
 as documented

---
 lib/lf/mesh/hybrid2d/mesh.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 1c937f2..702c8b9 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -250,17 +250,15 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     // If one of the endpoints of a edge does not have a geometry, supply it
     // with one inherited from the edge.
     for (int j = 0; j < 2; ++j) {
-      if (nodes[end_nodes[j]] == nullptr) {
+      if (nodes[end_nodes[j]] == nullptr && e.second != nullptr) {
         // if no geometry for node exists request geomtry for an endpoint of the
         // edge Note: endpoints are entities of relative co-dimension 1
         nodes[end_nodes[j]] = e.second->SubGeometry(1, j);
       }
     }
 
-    // Store provided geometry information; information on adjacent cells
-    // not yet available.
-    LF_ASSERT_MSG(e.second != nullptr,
-                  "Edge " << edge_index << ": missing geometry!");
+    // Store provided geometry information (if missing it will be deduced from
+    // an adjacent cell); information on adjacent cells not yet available.
     const AdjCellsList empty_cells_list{};
     EdgeData edge_data(std::move(e.second), empty_cells_list, edge_index);
     EdgeMap::value_type edge_info =
-- 
2.43.0


From 3c0f3eea8554975cb502dd7af029a57963d506c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:59 +0000
Subject: [PATCH 07/34] fix: default cell and edge geometries for meshes in 3D
 space

---
 lib/lf/mesh/hybrid2d/mesh.cc | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 702c8b9..f9834f6 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -538,11 +538,10 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     GeometryPtr edge_geo_ptr(std::move(edge.second.geo_uptr));
     if (!edge_geo_ptr) {
       // If the edge does not have a geometry build a straight edge
-      Eigen::Matrix<double, 2, 2> straight_edge_coords;
-      straight_edge_coords.block<2, 1>(0, 0) =
-          p0_ptr->Geometry()->Global(zero_point);
-      straight_edge_coords.block<2, 1>(0, 1) =
-          p1_ptr->Geometry()->Global(zero_point);
+      Eigen::Matrix<double, Eigen::Dynamic, 2> straight_edge_coords(dim_world_,
+                                                                    2);
+      straight_edge_coords.col(0) = p0_ptr->Geometry()->Global(zero_point);
+      straight_edge_coords.col(1) = p1_ptr->Geometry()->Global(zero_point);
       edge_geo_ptr =
           std::make_unique<geometry::SegmentO1>(straight_edge_coords);
     }
@@ -682,13 +681,11 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // At this point only the latter policy is implemented
         // and we build an affine triangle.
         // First assemble corner coordinates into matrix
-        Eigen::Matrix<double, 2, 3> triag_corner_coords;
-        triag_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        triag_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 3> triag_corner_coords(dim_world_,
+                                                                     3);
+        triag_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        triag_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        triag_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
 
         // Diagnostics
         SPDLOG_LOGGER_TRACE(Logger(), "Creating triangle with geometry \n{}",
@@ -731,15 +728,12 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
         // with straight edges ("bilinear quadrilateral")
         // First assemble corner coordinates into matrix
 
-        Eigen::Matrix<double, 2, 4> quad_corner_coords;
-        quad_corner_coords.block<2, 1>(0, 0) =
-            corner0->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 1) =
-            corner1->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 2) =
-            corner2->Geometry()->Global(zero_point);
-        quad_corner_coords.block<2, 1>(0, 3) =
-            corner3->Geometry()->Global(zero_point);
+        Eigen::Matrix<double, Eigen::Dynamic, 4> quad_corner_coords(dim_world_,
+                                                                    4);
+        quad_corner_coords.col(0) = corner0->Geometry()->Global(zero_point);
+        quad_corner_coords.col(1) = corner1->Geometry()->Global(zero_point);
+        quad_corner_coords.col(2) = corner2->Geometry()->Global(zero_point);
+        quad_corner_coords.col(3) = corner3->Geometry()->Global(zero_point);
         // Then create geometry of an affine triangle
 
         // Diagnostics
-- 
2.43.0


From 9b942048867f6496534689e30af90b3348d55dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:25 +0000
Subject: [PATCH 08/34] fix: StructuredMeshBuilder::setTopRightCorner accepts
 lvalues

---
 lib/lf/mesh/utils/structured_mesh_builder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/utils/structured_mesh_builder.h b/lib/lf/mesh/utils/structured_mesh_builder.h
index 67d171e..5287bde 100644
--- a/lib/lf/mesh/utils/structured_mesh_builder.h
+++ b/lib/lf/mesh/utils/structured_mesh_builder.h
@@ -43,7 +43,7 @@ class StructuredMeshBuilder {
     return *this;
   }
   template <typename VECTOR>
-  StructuredMeshBuilder &setTopRightCorner(const VECTOR &&trc) {
+  StructuredMeshBuilder &setTopRightCorner(const VECTOR &trc) {
     top_right_corner_ << trc[0], trc[1];
     return *this;
   }
-- 
2.43.0


From c59793e7ed22909afccee01e13acf9916a457178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 09/34] fix: FeHierarchicSegment has one shape function per
 vertex, not two

---
 lib/lf/fe/hierarchic_fe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_fe.h b/lib/lf/fe/hierarchic_fe.h
index 2790918..d81c976 100644
--- a/lib/lf/fe/hierarchic_fe.h
+++ b/lib/lf/fe/hierarchic_fe.h
@@ -274,7 +274,7 @@ class FeHierarchicSegment final : public ScalarReferenceFiniteElement<SCALAR> {
   [[nodiscard]] lf::base::size_type NumRefShapeFunctions(
       dim_t codim) const override {
     LF_ASSERT_MSG(codim >= 0 && codim <= 1, "codim out of range.");
-    return codim == 0 ? degree_ - 1 : 2;
+    return codim == 0 ? degree_ - 1 : 1;
   }
 
   // clang-format off
-- 
2.43.0


From e2f8e8b318e371e811a934a68bcc1df69f83356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 10/34] fix: UniformScalarFESpace without quadrilateral layout
 must answer NumRefShapeFunctions

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 964e8e2..37810fd 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -173,7 +173,7 @@ class UniformScalarFESpace : public lf::fe::ScalarFESpace<SCALAR> {
   /** Checks whether some pointer are not valid */
   [[nodiscard]] bool check_ptr() const {
     LF_VERIFY_MSG(Mesh() != nullptr, "No valid FE space object: no mesh");
-    LF_VERIFY_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+    LF_VERIFY_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr),
                   "No valid FE space object: no rsfs for cells");
     return true;
   }
@@ -393,7 +393,7 @@ size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
 template <typename SCALAR>
 size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
     lf::base::RefEl ref_el_type) const {
-  LF_ASSERT_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+  LF_ASSERT_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr),
                 "No valid FE space object: no rsfs");
   // Retrieve number of interior shape functions from rsf layouts
   switch (ref_el_type) {
-- 
2.43.0


From b8e43889ac62310fbd2d37478cfb48271de452e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:07 +0000
Subject: [PATCH 11/34] fix: HierarchicScalarFESpace::NumRefShapeFunctions
 counts interior shape functions only

---
 lib/lf/fe/hierarchic_scalar_fe_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_scalar_fe_space.h b/lib/lf/fe/hierarchic_scalar_fe_space.h
index 03f7ba8..1b1bd08 100644
--- a/lib/lf/fe/hierarchic_scalar_fe_space.h
+++ b/lib/lf/fe/hierarchic_scalar_fe_space.h
@@ -157,7 +157,7 @@ class HierarchicScalarFESpace : public ScalarFESpace<SCALAR> {
    */
   [[nodiscard]] size_type NumRefShapeFunctions(
       const lf::mesh::Entity &entity) const override {
-    return ShapeFunctionLayout(entity)->NumRefShapeFunctions();
+    return ShapeFunctionLayout(entity)->NumRefShapeFunctions(0, 0);
   }
 
   ~HierarchicScalarFESpace() override = default;
-- 
2.43.0


From 68144bce224571552ea365e7b796e229af68f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 12/34] fix: LinearFELocalLoadVector evaluated the source
 function at a point outside of the reference triangle

---
 lib/lf/uscalfe/lin_fe.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/lf/uscalfe/lin_fe.h b/lib/lf/uscalfe/lin_fe.h
index df3bcf9..ea4e525 100644
--- a/lib/lf/uscalfe/lin_fe.h
+++ b/lib/lf/uscalfe/lin_fe.h
@@ -181,12 +181,12 @@ LinearFELocalLoadVector<SCALAR, FUNCTOR>::Eval(
                       ref_el, geo_ptr->Global(ref_el_corners));
 
   // Midpoints of edges in the reference cell
-  Eigen::MatrixXd ref_mp(2, 4);
+  Eigen::MatrixXd ref_mp(2, num_nodes);
   switch (ref_el) {
     case lf::base::RefEl::kTria(): {
       // clang-format off
-      ref_mp << 0.5,0.5,0.0,-1.0,
-                0.0,0.5,0.5,-1.0;
+      ref_mp << 0.5,0.5,0.0,
+                0.0,0.5,0.5;
       // clang-format on
       break;
     }
-- 
2.43.0


From 5994de0588a81a024fc9c643adba89c81e2b7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 13/34] fix: product of mesh functions with arbitrary value
 types returned no values

---
 lib/lf/mesh/utils/mesh_function_binary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 0970b5f..5a50c62 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -628,7 +628,7 @@ struct OperatorMultiplication {
                   long /*unused*/) const {
     std::vector<decltype(u[0] * v[0])> result;
     result.reserve(u.size());
-    for (int i = 0; i < result.size(); ++i) {
+    for (int i = 0; i < u.size(); ++i) {
       result.emplace_back(u[i] * v[i]);
     }
     return result;
-- 
2.43.0


From ce9445e1c1a0c9b5f3a26be29e19088bc07f7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 14/34] fix: squaredNorm of fixed size matrix valued mesh
 functions was always zero

---
 lib/lf/mesh/utils/mesh_function_unary.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/lf/mesh/utils/mesh_function_unary.h b/lib/lf/mesh/utils/mesh_function_unary.h
index 4424216..9eead01 100644
--- a/lib/lf/mesh/utils/mesh_function_unary.h
+++ b/lib/lf/mesh/utils/mesh_function_unary.h
@@ -163,6 +163,10 @@ struct UnaryOpSquaredNorm {
         Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, 1>> rm(result.data(),
                                                            u.size(), 1);
         rm = um.cwiseAbs2().rowwise().sum();
+      } else {  // NOLINT
+        for (std::size_t i = 0; i < u.size(); ++i) {
+          result[i] = u[i].squaredNorm();
+        }
       }
     } else {  // NOLINT
       for (std::size_t i = 0; i < u.size(); ++i) {
-- 
2.43.0


From 7dbb9c519fb951a54290892381e5798f14d153a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 15/34] fix: sums and differences of mesh functions with
 different scalar types did not compile

---
 lib/lf/mesh/utils/mesh_function_binary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 5a50c62..ea1fc1b 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -107,7 +107,7 @@ struct OperatorAddition {
                   /*unused*/) const {
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> vm(v.data(), 1,
+    const Eigen::Map<const Eigen::Matrix<V, 1, Eigen::Dynamic>> vm(v.data(), 1,
                                                                    v.size());
     std::vector<decltype(U(0) + V(0))> result(u.size());  // NOLINT
     // NOLINTNEXTLINE(google-readability-casting)
@@ -275,7 +275,7 @@ struct OperatorSubtraction {
                   /*unused*/) const {
     const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> um(u.data(), 1,
                                                                    u.size());
-    const Eigen::Map<const Eigen::Matrix<U, 1, Eigen::Dynamic>> vm(v.data(), 1,
+    const Eigen::Map<const Eigen::Matrix<V, 1, Eigen::Dynamic>> vm(v.data(), 1,
                                                                    v.size());
     std::vector<decltype(U(0) + V(0))> result(u.size());  // NOLINT
     // NOLINTNEXTLINE(google-readability-casting)
-- 
2.43.0


From 6ec4982e91bf8e960f940fdcb51ce92d15c21b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:54 +0000
Subject: [PATCH 16/34] fix: arithmetic of mesh functions with row-major fixed
 size values permuted the entries

---
 lib/lf/mesh/utils/mesh_function_binary.h | 42 ++++++++++++++++++++----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index ea1fc1b..33163d4 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -80,6 +80,15 @@ class MeshFunctionBinary {
  */
 namespace internal {
 
+/**
+ * @brief True if all the given (fixed size) `Eigen::Matrix` or `Eigen::Array`
+ * types store their entries in the same order.
+ */
+template <class T0, class... T>
+constexpr bool kSameStorageOrder =
+    ((static_cast<bool>(T::IsRowMajor) == static_cast<bool>(T0::IsRowMajor)) &&
+     ...);
+
 /**
  * @brief Used together with MeshFunctionBinary (`OP` template type) to
  * represent the pointwise addition of two mesh functions.
@@ -127,7 +136,10 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Matrix<scalar_t, R1, C1>,
+                                    Eigen::Matrix<S1, R1, C1, O1>,
+                                    Eigen::Matrix<S2, R2, C2, O2>>) {  // NOLINT
       // add two static size eigen matrices to each other
       static_assert(R1 == R2, "cannot add matrices with different #rows.");
       static_assert(C1 == C2, "cannot add matrices with different #cols.");
@@ -185,7 +197,10 @@ struct OperatorAddition {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Array<scalar_t, R1, C1>,
+                                    Eigen::Array<S1, R1, C1, O1>,
+                                    Eigen::Array<S2, R2, C2, O2>>) {  // NOLINT
       // add two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot add arrays with different #rows.");
       static_assert(C1 == C2, "cannot add arrays with different #cols.");
@@ -295,7 +310,10 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) + S2(0));  // NOLINT
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Matrix<scalar_t, R1, C1>,
+                                    Eigen::Matrix<S1, R1, C1, O1>,
+                                    Eigen::Matrix<S2, R2, C2, O2>>) {  // NOLINT
       // subtract two static size eigen matrices from each other
       static_assert(R1 == R2, "cannot subtract matrices with different #rows.");
       static_assert(C1 == C2, "cannot subtract matrices with different #cols.");
@@ -357,7 +375,10 @@ struct OperatorSubtraction {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) - S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Array<scalar_t, R1, C1>,
+                                    Eigen::Array<S1, R1, C1, O1>,
+                                    Eigen::Array<S2, R2, C2, O2>>) {  // NOLINT
       // subtract two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot subtract arrays with different #rows.");
       static_assert(C1 == C2, "cannot subtract arrays with different #cols.");
@@ -504,7 +525,10 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(S1(0) * S2(0));
     if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
-                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic) {  // NOLINT
+                  R2 != Eigen::Dynamic && C2 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Array<scalar_t, R1, C1>,
+                                    Eigen::Array<S1, R1, C1, O1>,
+                                    Eigen::Array<S2, R2, C2, O2>>) {  // NOLINT
       // multiply two static size eigen arrays to each other
       static_assert(R1 == R2, "cannot multiply arrays with different #rows.");
       static_assert(C1 == C2, "cannot multiply arrays with different #cols.");
@@ -563,7 +587,9 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
     std::vector<Eigen::Matrix<scalar_t, R1, C1>> result(u.size());
-    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {  // NOLINT
+    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Matrix<scalar_t, R1, C1>,
+                                    Eigen::Matrix<S1, R1, C1, O1>>) {  // NOLINT
       // result is a static sized matrix:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
           v[0].data(), R1 * C1, v.size());
@@ -596,7 +622,9 @@ struct OperatorMultiplication {
                   int /*unused*/) const {
     using scalar_t = decltype(u[0] * v[0](0, 0));
     std::vector<Eigen::Array<scalar_t, R1, C1>> result(u.size());
-    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic) {
+    if constexpr (R1 != Eigen::Dynamic && C1 != Eigen::Dynamic &&
+                  kSameStorageOrder<Eigen::Array<scalar_t, R1, C1>,
+                                    Eigen::Array<S1, R1, C1, O1>>) {
       // result is a static sized array:
       Eigen::Map<const Eigen::Array<S1, R1 * C1, Eigen::Dynamic>> vm(
           v[0].data(), R1 * C1, v.size());
-- 
2.43.0


From a828d6a46c1ef4147262adc75b8a1ac252e29b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:01 +0000
Subject: [PATCH 17/34] fix: IntegrateMeshFunction applies the entity predicate
 to the first entity too

---
 lib/lf/fe/fe_tools.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/lf/fe/fe_tools.h b/lib/lf/fe/fe_tools.h
index fc599c6..53d2710 100644
--- a/lib/lf/fe/fe_tools.h
+++ b/lib/lf/fe/fe_tools.h
@@ -19,6 +19,8 @@
 #include <lf/mesh/utils/utils.h>
 #include <lf/quad/quad.h>
 
+#include <optional>
+
 #include "scalar_fe_space.h"
 
 namespace lf::fe {
@@ -114,14 +116,23 @@ auto IntegrateMeshFunction(
   using MfType = mesh::utils::MeshFunctionReturnType<MF>;
 
   auto entities = mesh.Entities(codim);
-  auto result = internal::LocalIntegral(**entities.begin(), qr_selector, mf);
-  for (auto i = entities.begin() + 1; i != entities.end(); ++i) {
-    if (!ep(**i)) {
+  std::optional<MfType> result;
+  for (const mesh::Entity *e : entities) {
+    if (!ep(*e)) {
       continue;
     }
-    result = result + internal::LocalIntegral(**i, qr_selector, mf);
+    if (result) {
+      *result = *result + internal::LocalIntegral(*e, qr_selector, mf);
+    } else {
+      result = internal::LocalIntegral(*e, qr_selector, mf);
+    }
+  }
+  if (!result) {
+    // No entity is selected: the integral vanishes (but has the right size)
+    LF_ASSERT_MSG(!entities.empty(), "mesh has no entities of this codim.");
+    result = 0. * internal::LocalIntegral(**entities.begin(), qr_selector, mf);
   }
-  return result;
+  return *result;
 }
 
 /**
-- 
2.43.0


From b5c2d33816517baa399a27c2512c182e75d940df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 18/34] fix: MeshFunctionTransfer::getMesh() returns the mesh
 of the fine level

---
 lib/lf/refinement/mesh_function_transfer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_function_transfer.h b/lib/lf/refinement/mesh_function_transfer.h
index be8878e..3f84fff 100644
--- a/lib/lf/refinement/mesh_function_transfer.h
+++ b/lib/lf/refinement/mesh_function_transfer.h
@@ -87,7 +87,7 @@ class MeshFunctionTransfer {
    * @returns A shared pointer to the Mesh on which this MeshFunction is defined
    */
   [[nodiscard]] std::shared_ptr<const lf::mesh::Mesh> getMesh() const {
-    return mh_.getMesh(level_coarse_ + 1);
+    return mh_.getMesh(level_fine_);
   }
 
  private:
-- 
2.43.0


From 300e613652b5a1183d9f4b7195daab47bddf4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 19/34] fix: GmshReader::PhysicalEntityNr() returns the numbers
 sorted, as documented

---
 lib/lf/io/gmsh_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 5aaac08..377ceaa 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -5,6 +5,7 @@
 #include <boost/fusion/adapted/std_tuple.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <boost/spirit/include/qi_string.hpp>
+#include <algorithm>
 #include <fstream>
 
 #include "eigen_fusion_adapter.h"
@@ -322,6 +323,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
           temp.push_back(msh_file.Elements[gmsh_index].PhysicalEntityNr);
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
@@ -619,6 +621,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
                       std::end(physical_tags));
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
-- 
2.43.0


From 5414f9448defe4943a1b6ce0ebb11ce551dc9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 20/34] fix: GmshReader read past the node table for point
 elements of unused nodes (format 2)

---
 lib/lf/io/gmsh_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 377ceaa..6c71e88 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -192,6 +192,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     const auto& n = msh_file.Nodes[i];
     if (gi2i.size() <= n.first) {
       gi2i.resize(n.first + 1, -1);
+      gi2mi.resize(n.first + 1, -1);
     }
     gi2i[n.first] = i;
 
-- 
2.43.0


From 27094a83701c25e00f982a7eeb6307cb139fbf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 21/34] fix: GmshReader assigned the groups of a repeated point
 element to another point

---
 lib/lf/io/gmsh_reader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 6c71e88..a605cf2 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -221,7 +221,8 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     const auto& end_element = msh_file.Elements[end];
     auto ref_el = RefElOf(end_element.Type);
     auto codim = dim_mesh - ref_el.Dimension();
-    if (begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
+    if (ref_el != base::RefEl::kPoint() && begin != end &&
+        begin_element.NodeNumbers == end_element.NodeNumbers &&
         begin_element.Type == end_element.Type) {
       // This entity appears more than once
       mi2gi[codim].back().push_back(end);
@@ -471,7 +472,8 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
       const auto& begin_element = element_block.elements[begin];
       const auto& end_element = element_block.elements[end];
 
-      if (begin_element.second == end_element.second && begin != end) {
+      if (ref_el != base::RefEl::kPoint() && begin != end &&
+          begin_element.second == end_element.second) {
         // This entity appears more than once
         mi2gi[codim].back().emplace_back(ebi);
         continue;
-- 
2.43.0


From 3fc6a0059cbcbb8d9561832840335dcb746be5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 22/34] fix: lookup of Gmsh physical names and numbers by
 codimension ran past the end of the matches

---
 lib/lf/io/gmsh_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index a605cf2..798c0ab 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -54,10 +54,10 @@ size_type GmshReader::PhysicalEntityName2Nr(const std::string& name,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
@@ -88,10 +88,10 @@ std::string GmshReader::PhysicalEntityNr2Name(size_type number,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end) {
       return begin->second.first;
     }
   }
-- 
2.43.0


From fd940a5eed9f5af83deca270a07e844b312594b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 23/34] fix: VtkWriter placed the inner points of triangles of
 order seven and higher wrongly

---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index b8a1f4c..13a285d 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -523,8 +523,8 @@ Eigen::MatrixXd AuxNodesTria(unsigned char order) {
       // assign interior points recursively:
       auto points = AuxNodesTria(order - 3);
       result.block(0, 3 * order - 9, 2, points.cols()) =
-          AuxNodesTria(order - 3) * (order - 6.) / order +
-          Eigen::Vector2d(2. / order, 2. / order) *
+          AuxNodesTria(order - 3) * (order - 3.) / order +
+          Eigen::Vector2d(1. / order, 1. / order) *
               Eigen::MatrixXd::Ones(1, points.cols());
     }
   }
-- 
2.43.0


From f649027c576f3ea754e468af560c622588c47bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 24/34] fix: VtkWriter::WriteCellData evaluated mesh functions
 off the centre of quadrilaterals

---
 lib/lf/io/vtk_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index e5d5afa..5fd7287 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -933,7 +933,7 @@ void VtkWriter::WriteCellData(const std::string& name,
   barycenters[base::RefEl::kTria().Id()] =
       base::RefEl::kTria().NodeCoords().rowwise().sum() / 3.;
   barycenters[base::RefEl::kQuad().Id()] =
-      base::RefEl::kTria().NodeCoords().rowwise().sum() / 4.;
+      base::RefEl::kQuad().NodeCoords().rowwise().sum() / 4.;
 
   if constexpr (base::EigenArray<T> || base::EigenMatrix<T>) {
     static_assert(T::ColsAtCompileTime == 1,
-- 
2.43.0


From 80064e9f3987bc4e359297074595d07dd7925d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:51 +0000
Subject: [PATCH 25/34] fix: VtkWriter declared arrays of unsigned char as char

---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 13a285d..9b55b56 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -224,7 +224,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << *karma::byte_)
           << eol;
@@ -308,7 +308,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << (*(karma::ushort_ % eol)))
           << eol;
-- 
2.43.0


From e871101c7323795a2b7b00b4a41985a7b68bbb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:51 +0000
Subject: [PATCH 26/34] fix: VtkWriter produced no valid text file for an empty
 global array

---
 lib/lf/io/vtk_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 9b55b56..729c6b9 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -200,16 +200,16 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
     } else {
       field_data_int %= karma::string << lit(" 1 ") << lit(size(at_c<1>(_val)))
                                       << lit(" int") << eol
-                                      << (karma::int_ % lit(' ')) << eol;
+                                      << -(karma::int_ % lit(' ')) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol << (karma::float_ % lit(' '))
+                          << lit(" float") << eol << -(karma::float_ % lit(' '))
                           << eol;
 
       field_data_double %= karma::string << lit(" 1 ")
                                          << lit(size(at_c<1>(_val)))
                                          << lit(" double") << eol
-                                         << (karma::double_ % lit(' ')) << eol;
+                                         << -(karma::double_ % lit(' ')) << eol;
     }
     field_data %= lit("FIELD FieldData ")
                   << lit(size(_val)) << eol
-- 
2.43.0


From ff569ba58384af2b7aa68267fc888717ff70ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 27/34] fix: VtkWriter kept only three decimals of floating
 point numbers in text files

---
 lib/lf/io/vtk_writer.cc | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 729c6b9..fcab2b2 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -15,6 +15,7 @@
 #include <boost/phoenix/phoenix.hpp>
 #include <boost/phoenix/scope/let.hpp>
 #include <boost/spirit/include/karma.hpp>
+#include <cmath>
 #include <fstream>
 #include <unsupported/Eigen/KroneckerProduct>
 
@@ -118,6 +119,20 @@ std::ostream& operator<<(std::ostream& stream, const VtkFile::Format& f) {
 
 namespace /*anonymous */ {
 namespace karma = boost::spirit::karma;
+
+// Writes floating point numbers with (almost) all their digits instead of
+// karma's default of three decimals.
+template <class T>
+struct RealPolicies : karma::real_policies<T> {
+  static unsigned precision(T /*n*/) { return sizeof(T) == 4 ? 8 : 16; }
+  static int floatfield(T n) {
+    const T a = std::abs(n);
+    return a != 0 && (a < T(0.1) || a >= T(1e5))
+               ? karma::real_policies<T>::fmtflags::scientific
+               : karma::real_policies<T>::fmtflags::fixed;
+  }
+};
+
 template <class Iterator, bool BINARY>
 struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
   // template <class T>
@@ -136,14 +151,16 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
     using karma::eol;
     using karma::eps;
     using karma::lit;
+    const karma::real_generator<float, RealPolicies<float>> float_;
+    const karma::real_generator<double, RealPolicies<double>> double_;
 
     if (BINARY) {
       points_vector %= *(karma::big_bin_float << karma::big_bin_float
                                               << karma::big_bin_float)
                        << eol;
     } else {
-      points_vector %= *(karma::float_ << ' ' << karma::float_ << ' '
-                                       << karma::float_ << karma::eol);
+      points_vector %= *(float_ << ' ' << float_ << ' '
+                                       << float_ << karma::eol);
     }
 
     points = lit("POINTS ")
@@ -203,13 +220,13 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
                                       << -(karma::int_ % lit(' ')) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol << -(karma::float_ % lit(' '))
+                          << lit(" float") << eol << -(float_ % lit(' '))
                           << eol;
 
       field_data_double %= karma::string << lit(" 1 ")
                                          << lit(size(at_c<1>(_val)))
                                          << lit(" double") << eol
-                                         << -(karma::double_ % lit(' ')) << eol;
+                                         << -(double_ % lit(' ')) << eol;
     }
     field_data %= lit("FIELD FieldData ")
                   << lit(size(_val)) << eol
@@ -351,25 +368,25 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
       scalar_data_float %=
           (lit("SCALARS ") << karma::string << lit(" float 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
-                           << (*(karma::float_ % eol)))
+                           << (*(float_ % eol)))
           << eol;
 
       scalar_data_double %=
           (lit("SCALARS ") << karma::string << lit(" double 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
-                           << (*(karma::double_ % eol)))
+                           << (*(double_ % eol)))
           << eol;
 
       vector_data_float %= lit("VECTORS ")
                            << karma::string << lit(" float") << eol
-                           << *(karma::float_ << lit(' ') << karma::float_
-                                              << lit(' ') << karma::float_
+                           << *(float_ << lit(' ') << float_
+                                              << lit(' ') << float_
                                               << eol);
 
       vector_data_double %= lit("VECTORS ")
                             << karma::string << lit(" double") << eol
-                            << *(karma::double_ << lit(' ') << karma::double_
-                                                << lit(' ') << karma::double_
+                            << *(double_ << lit(' ') << double_
+                                                << lit(' ') << double_
                                                 << eol);
     }
 
-- 
2.43.0


From fc01df8d7724e1bee81fefbd7979ff8d557333c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 28/34] fix: UniformScalarFESpace accepts spaces living on
 edges only, as needed for flux components

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 37810fd..d8e169b 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -242,17 +242,22 @@ assemble::UniformFEDofHandler UniformScalarFESpace<SCALAR>::InitDofHandler(
     std::shared_ptr<const lf::mesh::Mesh> mesh_p) {
   // Check validity and consistency of mesh pointer
   LF_VERIFY_MSG(mesh_p != nullptr, "Missing mesh!");
-  LF_VERIFY_MSG((rfs_quad_p_ != nullptr) || (rfs_tria_p_ != nullptr),
-                "Missing FE specification for cells");
+  // Spaces living on the edges only (e.g. fluxes in DPG methods) do without
+  // specifications for cells.
+  const bool edges_only = (rfs_quad_p_ == nullptr) &&
+                          (rfs_tria_p_ == nullptr) && (rfs_edge_p_ != nullptr);
+  LF_VERIFY_MSG(
+      (rfs_quad_p_ != nullptr) || (rfs_tria_p_ != nullptr) || edges_only,
+      "Missing FE specification for cells");
   LF_VERIFY_MSG((mesh_p->DimMesh() == 2), "Only for 2D meshes");
 
   // Check whether all required finite element specifications are provided
   LF_VERIFY_MSG(
       (mesh_p->NumEntities(lf::base::RefEl::kTria()) == 0) ||
-          (rfs_tria_p_ != nullptr),
+          (rfs_tria_p_ != nullptr) || edges_only,
       "Missing FE specification for triangles though mesh contains some");
   LF_VERIFY_MSG((mesh_p->NumEntities(lf::base::RefEl::kQuad()) == 0) ||
-                    (rfs_quad_p_ != nullptr),
+                    (rfs_quad_p_ != nullptr) || edges_only,
                 "Missing FE specification for quads though mesh contains some");
 
   // Compatibility checks and initialization of numbers of shape functions
-- 
2.43.0


From 0783864fdf3b164e74153ee66efbd5607b10c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:29 +0000
Subject: [PATCH 29/34] fix: flux element matrices respect the order of the
 dofs on edges with negative orientation

---
 projects/dpg/loc_comp_dpg.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/projects/dpg/loc_comp_dpg.h b/projects/dpg/loc_comp_dpg.h
index 7a6095d..acf15d2 100644
--- a/projects/dpg/loc_comp_dpg.h
+++ b/projects/dpg/loc_comp_dpg.h
@@ -995,11 +995,24 @@ FluxElementMatrixProvider<SCALAR, DIFF_COEFF>::Eval(
     int sgn =
         sign_provider_.PrescribedSign(cell, *cell.SubEntities(1)[segment]);
 
+    // values of the flux shape functions at the quadrature points. The dof
+    // handler lists the dofs of an edge in reverse order, if its direction is
+    // opposite to that induced by the cell.
+    elem_mat_t trial_values = pfe_trial.PrecompReferenceShapeFunctions();
+    if (cell.RelativeOrientations()[segment] ==
+        lf::mesh::Orientation::negative) {
+      const Eigen::MatrixXd reversed_points =
+          1.0 - pfe_trial.Qr().Points().array();
+      trial_values = pfe_trial.EvalReferenceShapeFunctions(reversed_points)
+                         .colwise()
+                         .reverse();
+    }
+
     // iterate over quadrature points.
     for (size_type k = 0; k < pfe_trial.Qr().NumPoints(); ++k) {
       // transformed quadrature weight
       const double w = pfe_trial.Qr().Weights()[k] * determinants[k] * sgn;
-      const auto trial_eval = pfe_trial.PrecompReferenceShapeFunctions().col(k);
+      const auto trial_eval = trial_values.col(k);
       const auto test_eval =
           pfes_test[segment].PrecompReferenceShapeFunctions().col(k);
 
-- 
2.43.0


From ee0ecdb0d928757016f67b3d33e5bc8bbc4dcf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:55 +0000
Subject: [PATCH 30/34] fix: DGnorm aborted for quadrature rules with several
 points on the edges

---
 projects/ipdg_stokes/post_processing/norms.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/ipdg_stokes/post_processing/norms.h b/projects/ipdg_stokes/post_processing/norms.h
index c68f334..23adfab 100644
--- a/projects/ipdg_stokes/post_processing/norms.h
+++ b/projects/ipdg_stokes/post_processing/norms.h
@@ -90,12 +90,12 @@ double DGnorm(const std::shared_ptr<const lf::mesh::Mesh> &mesh, const MF_F &f,
       quadpoints[i] = Eigen::MatrixXd(2, quadrules[i].NumPoints());
     }
     quadpoints[0] << quadrules[0].Points(),
-        Eigen::VectorXd::Zero(quadrules[0].NumPoints());
-    quadpoints[1] << Eigen::VectorXd::Ones(quadrules[1].NumPoints()) -
+        Eigen::RowVectorXd::Zero(quadrules[0].NumPoints());
+    quadpoints[1] << Eigen::RowVectorXd::Ones(quadrules[1].NumPoints()) -
                          quadrules[1].Points(),
         quadrules[1].Points();
-    quadpoints[2] << Eigen::VectorXd::Zero(quadrules[2].NumPoints()),
-        Eigen::VectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
+    quadpoints[2] << Eigen::RowVectorXd::Zero(quadrules[2].NumPoints()),
+        Eigen::RowVectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
     for (int i = 0; i < 3; ++i) {
       const auto edge = edges[i];
       const auto segment_eval = f(*entity, quadpoints[i]);
-- 
2.43.0


From 26c2c1c91d4275f6630fc40f4ff804b998cc8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:55 +0000
Subject: [PATCH 31/34] fix: AnnulusTriagMeshBuilder ignored the centre point

---
 projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
index 1addf04..2979219 100644
--- a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
+++ b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
@@ -23,6 +23,7 @@ std::shared_ptr<lf::mesh::Mesh> AnnulusTriagMeshBuilder::Build() {
     const double pos_r = r + r_idx * dr;
     const double pos_phi = phi_idx * dphi;
     pos << pos_r * std::cos(pos_phi), pos_r * std::sin(pos_phi);
+    pos += center_point_;
     return pos;
   };
 
-- 
2.43.0


From 99128f5be80a544909badf78ea3b1ca3847f02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:51 +0000
Subject: [PATCH 32/34] fix: StrangSplit::Evolution stopped one and a half time
 steps before the final time

---
 projects/fisher_kpp/strangsplitting.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/projects/fisher_kpp/strangsplitting.cc b/projects/fisher_kpp/strangsplitting.cc
index 08a9fd6..c252e06 100644
--- a/projects/fisher_kpp/strangsplitting.cc
+++ b/projects/fisher_kpp/strangsplitting.cc
@@ -72,7 +72,7 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
   sol_cur = StrangSplit::diffusionEvolutionOperator(firstcall, mu);
   firstcall = false;
   /* loop through time steps */
-  for (unsigned int i = 1; i < m_ - 1; i++) {
+  for (unsigned int i = 1; i < m_; i++) {
     /* Reaction for next full time step */
     sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
                                             std::exp(-lambda_ * tau_));
@@ -82,9 +82,12 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
     sol_cur = sol_next;
   }
 
-  /* Last half time step: Reaction */
+  /* Last full time step of Reaction, last half time step of Diffusion */
   sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
-                                          std::exp(-lambda_ * tau_ / 2.));
+                                          std::exp(-lambda_ * tau_));
+  sol_cur = sol_next;
+  firstcall = true;
+  sol_next = StrangSplit::diffusionEvolutionOperator(firstcall, sol_cur);
   sol_cur = sol_next;
 
   sol = sol_cur;
-- 
2.43.0


From 914b324f5c1c597621dc1dc452689e309a028742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:18 +0000
Subject: [PATCH 33/34] fix: the binary Gmsh 4.1 parser could not skip sections
 of other kinds

---
 lib/lf/io/gmsh_file_v4_binary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_file_v4_binary.cc b/lib/lf/io/gmsh_file_v4_binary.cc
index 39c347c..4d05df3 100644
--- a/lib/lf/io/gmsh_file_v4_binary.cc
+++ b/lib/lf/io/gmsh_file_v4_binary.cc
@@ -200,7 +200,7 @@ struct MshV4GrammarBinary
   }
 
   qi::rule<ITERATOR, std::string(), ascii::space_type> quoted_string_;
-  qi::rule<ITERATOR, std::string(), ascii::space_type> start_comment_;
+  qi::rule<ITERATOR, std::string()> start_comment_;
   qi::rule<ITERATOR, qi::locals<std::string>, ascii::space_type> comment_;
   qi::rule<ITERATOR, Eigen::Vector3d()> vec3_;
   qi::rule<ITERATOR, std::vector<int>, qi::locals<std::size_t>> int_vec_;
-- 
2.43.0


From 043442b217cfeaa844b32a3cccd41bd1ee32346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:21 +0000
Subject: [PATCH 34/34] fix: the text writers of meshes mishandled file names
 without extension

---
 lib/lf/io/write_matlab.cc     | 2 +-
 lib/lf/io/write_matplotlib.cc | 3 ++-
 lib/lf/refinement/refutils.cc | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/lf/io/write_matlab.cc b/lib/lf/io/write_matlab.cc
index ce66062..8996907 100644
--- a/lib/lf/io/write_matlab.cc
+++ b/lib/lf/io/write_matlab.cc
@@ -14,7 +14,7 @@ void writeMatlab(const lf::mesh::Mesh& mesh, std::string filename) {
   // Preprocess filename: append .m, if not there already
   {
     const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
+    if ((fn_len < 2) || (filename[fn_len - 2] != '.') ||
         (filename[fn_len - 1] != 'm')) {
       filename += ".m";
     }
diff --git a/lib/lf/io/write_matplotlib.cc b/lib/lf/io/write_matplotlib.cc
index 62e6d4b..b7b3cdd 100644
--- a/lib/lf/io/write_matplotlib.cc
+++ b/lib/lf/io/write_matplotlib.cc
@@ -18,7 +18,8 @@ void writeMatplotlib(const lf::mesh::Mesh &mesh, std::string filename) {
   using dim_t = lf::base::RefEl::dim_t;
 
   // append .csv to filename if necessary
-  if (filename.compare(filename.size() - 4, 4, ".csv") != 0) {
+  if (filename.size() < 4 ||
+      filename.compare(filename.size() - 4, 4, ".csv") != 0) {
     filename += ".csv";
   }
 
diff --git a/lib/lf/refinement/refutils.cc b/lib/lf/refinement/refutils.cc
index 7d0f992..1bf6306 100644
--- a/lib/lf/refinement/refutils.cc
+++ b/lib/lf/refinement/refutils.cc
@@ -22,7 +22,7 @@ void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
   // Preprocess filename: append .m, if not there already
   {
     const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
+    if ((fn_len < 2) || (filename[fn_len - 2] != '.') ||
         (filename[fn_len - 1] != 'm')) {
       filename += ".m";
     }
-- 
2.43.0

