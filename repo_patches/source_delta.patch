From 55759fb64098764c387efd9518199b9b8ae43f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:37 +0000
Subject: [PATCH 01/17] fix: declared number of integration points of quadratic
 rectangular elements

RectangularHexahedron<Quadratic> declared 4 integration points and RectangularQuad<*,Quadratic> 8,
while their rules have 8 and 4 points.
---
 src/Caribou/Geometry/RectangularHexahedron.h | 2 +-
 src/Caribou/Geometry/RectangularQuad.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 316d1d0..8319783 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -193,7 +193,7 @@ struct traits<RectangularHexahedron <Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 3;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = 3;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 20;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
 
     using BoundaryElementType = RectangularQuad<3, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 6;
diff --git a/src/Caribou/Geometry/RectangularQuad.h b/src/Caribou/Geometry/RectangularQuad.h
index 1207b1c..b9611d2 100644
--- a/src/Caribou/Geometry/RectangularQuad.h
+++ b/src/Caribou/Geometry/RectangularQuad.h
@@ -157,7 +157,7 @@ struct traits<RectangularQuad <_Dimension, Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 2;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = _Dimension;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 8;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
 
     using BoundaryElementType = Segment<_Dimension, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 4;
-- 
2.43.0


From dda4c7f703e4a41cb640c247246ff669140eae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:37 +0000
Subject: [PATCH 02/17] fix: mid-edge node indices of the faces of a quadratic
 rectangular hexahedron

The face table used another mid-node numbering than the element's own nodes, so face mid-nodes
did not lie on their face.
---
 src/Caribou/Geometry/RectangularHexahedron.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 8319783..650763d 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -400,12 +400,12 @@ private:
 
     inline auto get_boundary_elements_nodes() const -> const auto & {
         static const std::array<std::array<UNSIGNED_INTEGER_TYPE, 8>, 6> indices = {{
-            {0, 3, 2, 1,  9, 13, 11,  8}, // Face 0
-            {0, 4, 7, 3, 10, 17, 15,  9}, // Face 1
-            {1, 2, 6, 5, 11, 14, 18, 12}, // Face 2
-            {0, 1, 5, 4,  8, 12, 16, 10}, // Face 3
-            {2, 3, 7, 6, 13, 15, 19, 14}, // Face 4
-            {4, 5, 6, 7, 16, 18, 19, 17}  // Face 5
+            {0, 3, 2, 1, 11, 10,  9,  8}, // Face 0
+            {0, 4, 7, 3, 16, 15, 19, 11}, // Face 1
+            {1, 2, 6, 5,  9, 18, 13, 17}, // Face 2
+            {0, 1, 5, 4,  8, 17, 12, 16}, // Face 3
+            {2, 3, 7, 6, 10, 19, 14, 18}, // Face 4
+            {4, 5, 6, 7, 12, 13, 14, 15}  // Face 5
         }};
         return indices;
     }
-- 
2.43.0


From b23edde6635258fac2fe17d0c4e1190091c15983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:40 +0000
Subject: [PATCH 03/17] fix: RectangularQuad could not answer contains_local

Every element offers contains_local, but the implementation was missing for rectangular quads,
so any use of it failed to compile.
---
 src/Caribou/Geometry/BaseRectangularQuad.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Caribou/Geometry/BaseRectangularQuad.h b/src/Caribou/Geometry/BaseRectangularQuad.h
index ef9987e..dd862a5 100644
--- a/src/Caribou/Geometry/BaseRectangularQuad.h
+++ b/src/Caribou/Geometry/BaseRectangularQuad.h
@@ -92,6 +92,12 @@ private:
     inline auto get_center() const {return p_center;};
     [[nodiscard]]
     inline auto get_number_of_boundary_elements() const -> UNSIGNED_INTEGER_TYPE {return 4;};
+    inline auto get_contains_local(const LocalCoordinates & xi, const FLOATING_POINT_TYPE & eps) const -> bool {
+        const auto & u = xi[0];
+        const auto & v = xi[1];
+        return IN_CLOSED_INTERVAL(-1-eps, u, 1+eps) and
+               IN_CLOSED_INTERVAL(-1-eps, v, 1+eps);
+    }
 
     auto self() -> Derived& { return *static_cast<Derived*>(this); }
     auto self() const -> const Derived& { return *static_cast<const Derived*>(this); }
-- 
2.43.0


From 468f17b591e9cfb4f2ee0a6fb3bc1786a4474b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:40 +0000
Subject: [PATCH 04/17] fix: Hexahedron::frame() without argument did not
 compile

It called LocalCoordinates::Zeros(), which does not exist.
---
 src/Caribou/Geometry/BaseHexahedron.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/BaseHexahedron.h b/src/Caribou/Geometry/BaseHexahedron.h
index 52c2de5..d1fa0d6 100644
--- a/src/Caribou/Geometry/BaseHexahedron.h
+++ b/src/Caribou/Geometry/BaseHexahedron.h
@@ -80,7 +80,7 @@ struct BaseHexahedron : public Element<Derived> {
      */
     inline auto frame() const -> Matrix<3, 3>
     {
-        return frame(LocalCoordinates::Zeros());
+        return frame(LocalCoordinates::Zero());
     }
 
     /**
-- 
2.43.0


From 32a1197cd0d945cf900a663fc75a62bd88cc38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 05/17] fix: local_coordinates returned the starting point for
 small elements

---
 src/Caribou/Geometry/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/Element.h b/src/Caribou/Geometry/Element.h
index fdbd558..b6b46b0 100644
--- a/src/Caribou/Geometry/Element.h
+++ b/src/Caribou/Geometry/Element.h
@@ -237,8 +237,8 @@ struct Element {
         FLOATING_POINT_TYPE r_norm_2 = residual.squaredNorm();
         FLOATING_POINT_TYPE r0_norm_2 = r_norm_2;
 
-        if (r_norm_2 < squared_threshold) {
-            // The initial guess is good enough
+        if (r_norm_2 == 0) {
+            // The initial guess is exact
             return xi;
         }
 
-- 
2.43.0


From d7164feaf3409426a19a4b3d28f87a6743d99056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:11 +0000
Subject: [PATCH 06/17] fix: a positive tolerance could make intersects() miss
 a triangle

---
 src/Caribou/Geometry/BaseHexahedron.h            | 4 ++--
 src/Caribou/Geometry/BaseRectangularHexahedron.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Caribou/Geometry/BaseHexahedron.h b/src/Caribou/Geometry/BaseHexahedron.h
index d1fa0d6..bcfa525 100644
--- a/src/Caribou/Geometry/BaseHexahedron.h
+++ b/src/Caribou/Geometry/BaseHexahedron.h
@@ -310,9 +310,9 @@ inline auto BaseHexahedron<Derived>::intersects_local_polygon(const LocalCoordin
         const auto & p1 = nodes[i];
         const auto & p2 = nodes[(i+1)%NNodes];
 
-        if (const int xdirection = seg_contains_point(p1[xaxis]-eps, p2[xaxis]+eps, p[xaxis]))
+        if (const int xdirection = seg_contains_point(p1[xaxis], p2[xaxis], p[xaxis]))
         {
-            if (seg_contains_point(p1[yaxis]-eps, p2[yaxis]+eps, p[yaxis]))
+            if (seg_contains_point(p1[yaxis], p2[yaxis], p[yaxis]))
             {
                 if (xdirection * (p[xaxis]-p1[xaxis])*(p2[yaxis]-p1[yaxis]) <=
                     xdirection * (p[yaxis]-p1[yaxis])*(p2[xaxis]-p1[xaxis]))
diff --git a/src/Caribou/Geometry/BaseRectangularHexahedron.h b/src/Caribou/Geometry/BaseRectangularHexahedron.h
index 21a5b79..fd1239a 100644
--- a/src/Caribou/Geometry/BaseRectangularHexahedron.h
+++ b/src/Caribou/Geometry/BaseRectangularHexahedron.h
@@ -254,9 +254,9 @@ inline auto BaseRectangularHexahedron<Derived>::intersects_local_polygon(const L
         const auto & p1 = nodes[i];
         const auto & p2 = nodes[(i+1)%NNodes];
 
-        if (const int xdirection = seg_contains_point(p1[xaxis]-eps, p2[xaxis]+eps, p[xaxis]))
+        if (const int xdirection = seg_contains_point(p1[xaxis], p2[xaxis], p[xaxis]))
         {
-            if (seg_contains_point(p1[yaxis]-eps, p2[yaxis]+eps, p[yaxis]))
+            if (seg_contains_point(p1[yaxis], p2[yaxis], p[yaxis]))
             {
                 if (xdirection * (p[xaxis]-p1[xaxis])*(p2[yaxis]-p1[yaxis]) <=
                     xdirection * (p[yaxis]-p1[yaxis])*(p2[xaxis]-p1[xaxis]))
-- 
2.43.0


From 79eece734bd9a3ec8d5f92191dcbb10ee4ae6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:00 +0000
Subject: [PATCH 07/17] fix: cells_around returned cells for positions outside
 of the grid

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 776b191..0a7f551 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -153,7 +153,6 @@ struct BaseGrid
         std::vector<CellIndex> cells;
         cells.reserve((unsigned) 1<<Dimension);
 
-        const CellIndex ncells = number_of_cells();
         const VecFloat h = H();
 
         /// Absolute grid coordinates of the point, for example absolute(p) = [3.25, 3.25, 3.25]
@@ -177,9 +176,13 @@ struct BaseGrid
 
         if (close_to_axis.none()) {
             // We are not near any axis, which means we are well inside a cell's boundaries
-            const auto cell_index = Self().cell_index_at(absolute.unaryExpr(CwiseFloor()). template cast<Int>());
-            if (0 <= cell_index and cell_index <= ncells-1) { // Within the boundary of the grid
-                cells.emplace_back(cell_index);
+            const GridCoordinates cell = absolute.unaryExpr(CwiseFloor()). template cast<Int>();
+            bool within_boundary = true;
+            for (std::size_t axis = 0; axis < Dimension; ++axis) {
+                within_boundary = within_boundary and 0 <= cell[axis] and cell[axis] <= static_cast<Int>(N()[axis]) - 1;
+            }
+            if (within_boundary) { // Within the boundary of the grid
+                cells.emplace_back(Self().cell_index_at(cell));
             }
         } else {
             const VecFloat d = VecFloat::Constant(0.5);
@@ -194,13 +197,13 @@ struct BaseGrid
                 if (close_to_axis[axis]) {
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] - d[axis]));
-                        if (index >= 0) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] + d[axis]));
-                        if (index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
-- 
2.43.0


From 1172a41bf17f73d890566363c9ce3d87c508872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:23 +0000
Subject: [PATCH 08/17] fix: cells_enclosing ignored positions outside of the
 grid instead of clipping to it

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 0a7f551..d3d868c 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -328,63 +328,29 @@ struct BaseGrid
         GridCoordinates lower_grid_boundary = GridCoordinates::Zero();
         GridCoordinates upper_grid_boundary = N(). template cast<Int>() - GridCoordinates::Ones();
 
-        // Tool function that returns the minimum grid coordinates between two grid coordinates
-        auto min_between =
-                [this, &lower_grid_boundary, &upper_grid_boundary]
-                (const std::vector<CellIndex> & cells_indices, const GridCoordinates & min_coordinates) -> GridCoordinates
-                {
-                    GridCoordinates lower_bound = min_coordinates;
-
-                    for (const auto & cell_index: cells_indices) {
-                        const GridCoordinates coordinates = Self().cell_coordinates_at(cell_index);
-                        for (size_t i = 0; i < Dimension; ++i) {
-                            lower_bound[i] = std::min(coordinates[i], lower_bound[i]);
-
-                            // Clip to grid boundaries if the coordinates lies outside of the grid
-                            lower_bound[i] = std::max(lower_bound[i], lower_grid_boundary[i]);
-                            lower_bound[i] = std::min(lower_bound[i], upper_grid_boundary[i]);
-                        }
-                    }
-                    return lower_bound;
-                };
-
-        // Tool function that returns the maximum grid coordinates between two grid coordinates
-        auto max_between =
-                [this, &lower_grid_boundary, &upper_grid_boundary]
-                (const std::vector<CellIndex> & cells_indices, const GridCoordinates & max_coordinates) -> GridCoordinates
-                {
-                    GridCoordinates upper_bound = max_coordinates;
-
-                    for (const auto & cell_index: cells_indices) {
-                        const GridCoordinates coordinates = Self().cell_coordinates_at(cell_index);
-                        for (size_t i = 0; i < Dimension; ++i) {
-
-                            upper_bound[i] = std::max(coordinates[i], upper_bound[i]);
-
-                            // Clip to grid boundaries if the coordinate lies outside of the grid
-                            upper_bound[i] = std::max(upper_bound[i], lower_grid_boundary[i]);
-                            upper_bound[i] = std::min(upper_bound[i], upper_grid_boundary[i]);
-                        }
-                    }
-                    return upper_bound;
-                };
-
-        // 1. Find the grid coordinates bounding box of the cells that contain each nodes
-        GridCoordinates lower_cell = min_between(cells_around(positions[0]), upper_grid_boundary);
-        GridCoordinates upper_cell = max_between(cells_around(positions[0]), lower_grid_boundary);
+        // 1. Find the grid coordinates bounding box of the cells around each positions
+        GridCoordinates lower_cell = upper_grid_boundary;
+        GridCoordinates upper_cell = lower_grid_boundary;
 
         // This is used to discard the bbox computation if all points are outside the grid
-        bool grid_contains_at_least_one_point = contains(WorldCoordinates(positions[0]));
+        bool grid_contains_at_least_one_point = false;
 
-        for (size_t i = 1; i < positions.size(); ++ i) {
+        for (const auto & position : positions) {
 
-            if (not grid_contains_at_least_one_point and contains(WorldCoordinates(positions[i])))
+            if (not grid_contains_at_least_one_point and contains(position))
                 grid_contains_at_least_one_point = true;
 
-            const auto coordinates = cells_around(positions[i]);
+            const VecFloat absolute = ((position - m_anchor_position).array() / H().array()).matrix();
 
-            lower_cell = min_between(coordinates, lower_cell);
-            upper_cell = max_between(coordinates, upper_cell);
+            for (size_t i = 0; i < Dimension; ++i) {
+                // Clip to grid boundaries if the coordinates lies outside of the grid
+                const auto last = static_cast<Float>(upper_grid_boundary[i]);
+                const auto first_around = std::min(std::max(std::ceil(absolute[i]) - 1, Float(0)), last);
+                const auto last_around = std::min(std::max(std::floor(absolute[i]), Float(0)), last);
+
+                lower_cell[i] = std::min(static_cast<Int>(first_around), lower_cell[i]);
+                upper_cell[i] = std::max(static_cast<Int>(last_around), upper_cell[i]);
+            }
         }
 
         if (not grid_contains_at_least_one_point)
-- 
2.43.0


From a2bccce211ddaa43b666765a81ae7d780aabdce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:14 +0000
Subject: [PATCH 09/17] fix: removing a domain never returned unless it was the
 first one of the mesh

---
 src/Caribou/Topology/Mesh.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 1d40659..3e3283f 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -454,7 +454,9 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove_domain(const std::string & name) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->first != name);
+            while (it != p_domains.end() and it->first != name) {
+                ++it;
+            }
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
@@ -469,7 +471,9 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove(const BaseDomain * domain) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->second.get() != domain);
+            while (it != p_domains.end() and it->second.get() != domain) {
+                ++it;
+            }
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
-- 
2.43.0


From ed635dab5da29b006cc44f4cb03b1207419a0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:14 +0000
Subject: [PATCH 10/17] fix: the missing coordinates of a node of a 1D or 2D
 mesh were not set to zero

---
 src/Caribou/Topology/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 3e3283f..9461e6c 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -270,7 +270,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         [[nodiscard]]
         inline auto node(const UNSIGNED_INTEGER_TYPE & node_id) const -> Eigen::Vector3d override {
             const auto p = position(node_id);
-            Eigen::Vector3d n;
+            Eigen::Vector3d n = Eigen::Vector3d::Zero();
             n[0] = p[0];
             if constexpr (Dimension > 1) {
                 n[1] = p[1];
-- 
2.43.0


From 36c8d1a14910efbc3d75e4cb73cc0e3f26ba93e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:14 +0000
Subject: [PATCH 11/17] fix: Mesh::positions did not compile with an std::array
 of indices

---
 src/Caribou/Topology/Mesh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 9461e6c..aa0e2fc 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -533,7 +533,12 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         template <typename IntegerType, std::size_t N>
         inline auto positions(const std::array<IntegerType, N> & indices) const {
-            return positions<IntegerType, N>(indices.data());
+            Eigen::Matrix<Real, N, Dimension, (Dimension>1?Eigen::RowMajor:Eigen::ColMajor)> positions;
+            for (std::size_t i = 0; i < N; ++i) {
+                caribou_assert(indices[i] < static_cast<IntegerType>(number_of_nodes()));
+                positions.row(i) = p_nodes.node(indices[i]);
+            }
+            return positions;
         }
 
         /*!
-- 
2.43.0


From 491da4a9808a7bd0602c7cf267b643d86efb7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:36 +0000
Subject: [PATCH 12/17] fix: copied and moved domains lost their mesh, and
 copies used the index buffer of the original

---
 src/Caribou/Topology/Domain.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index fd3948d..81b3389 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -97,10 +97,17 @@ namespace caribou::topology {
 
         /*! Copy constructor */
         Domain(const Domain & other) noexcept
-        : DomainStorage<Element>(other), p_buffer(other.p_buffer), p_elements(other.p_elements) {}
+        : DomainStorage<Element>(other), p_mesh(other.p_mesh), p_buffer(other.p_buffer), p_elements(other.p_elements) {
+            if (other.p_elements.data() == other.p_buffer.data()) {
+                // The indices of the other domain are stored in its own buffer, let's use the copy of this buffer
+                using MapType = decltype(p_elements);
+                new (&p_elements) MapType (p_buffer.data(), p_buffer.rows(), p_buffer.cols(), {p_buffer.cols(), 1});
+            }
+        }
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_elements {nullptr, 0, 0} {
+        Domain(Domain && other) noexcept
+        : p_mesh(nullptr), p_buffer(), p_elements(p_buffer.data(), p_buffer.rows(), p_buffer.cols(), {p_buffer.cols(), 1}) {
             swap(*this, other);
         }
 
@@ -243,6 +250,7 @@ namespace caribou::topology {
         {
             // enable ADL
             using std::swap;
+            swap(first.p_mesh, second.p_mesh);
             swap(first.p_buffer, second.p_buffer);
 
             // Map isn't swappable, we need to do it manually using placement new operators
-- 
2.43.0


From 0155d84753f9305a2722d44283cfbce6bfee6128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:57 +0000
Subject: [PATCH 13/17] fix: the domains of a copied, moved or swapped mesh
 were not attached to it

---
 src/Caribou/Topology/BaseDomain.h |  2 +-
 src/Caribou/Topology/Domain.h     |  2 +-
 src/Caribou/Topology/Mesh.h       | 12 ++++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/BaseDomain.h b/src/Caribou/Topology/BaseDomain.h
index eeea1ad..035cef6 100644
--- a/src/Caribou/Topology/BaseDomain.h
+++ b/src/Caribou/Topology/BaseDomain.h
@@ -48,7 +48,7 @@ namespace caribou::topology {
         [[nodiscard]] virtual BaseDomain * clone() const = 0;
 
         /*!
-         * Attach this Domain to the given Mesh.
+         * Attach this Domain to the given Mesh, or detach it from its Mesh when given a null pointer.
          */
         virtual void attach_to(const BaseMesh * mesh) = 0;
     };
diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 81b3389..0312200 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -237,7 +237,7 @@ namespace caribou::topology {
 
             // There is already a Mesh instance attached to this Domain, and this domain can still be found in the
             // list of domains of the mesh, let's throw an exception
-            if (p_mesh != nullptr)  {
+            if (p_mesh != nullptr and mesh != nullptr)  {
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
             }
 
diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index aa0e2fc..b63bf93 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -227,6 +227,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
                 BaseDomain * cloned_domain_ptr  = p.second->clone();
                 p_domains.emplace_back(domain_name, cloned_domain_ptr);
             }
+            attach_domains();
         }
 
         /*! Move constructor */
@@ -607,10 +608,21 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
 
             swap(first.p_nodes, second.p_nodes);
             swap(first.p_domains, second.p_domains);
+
+            first.attach_domains();
+            second.attach_domains();
         }
 
     private:
 
+        /*! Make sure that the domains of this mesh are attached to it, even if they come from another mesh */
+        void attach_domains() {
+            for (auto & d : p_domains) {
+                d.second->attach_to(nullptr);
+                d.second->attach_to(this);
+            }
+        }
+
         /**
          * Container of the mesh node positions
          */
-- 
2.43.0


From f62a2e4bcc442101d65f90240819306788ac4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:57 +0000
Subject: [PATCH 14/17] fix: a domain could be added under the name of another
 domain of the mesh

---
 src/Caribou/Topology/Mesh.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index b63bf93..3663757 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -431,10 +431,15 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             } else if (domain->mesh() != nullptr) {
                 // The domain is already attached to another Mesh
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
-            } else {
-                domain->attach_to(this);
             }
 
+            for (const auto & d : p_domains) {
+                if (d.first == name) {
+                    throw std::domain_error(std::string("A domain with the name ") + name + " already exists.");
+                }
+            }
+
+            domain->attach_to(this);
             p_domains.emplace_back(name, domain);
             return domain;
         }
-- 
2.43.0


From 83bb2b173e6e4a08e6ffc9fa1bf41609041ed095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:37 +0000
Subject: [PATCH 15/17] fix: reading a VTK file without points as a 1D or 2D
 mesh accessed its first point

---
 src/Caribou/Topology/IO/VTKReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Caribou/Topology/IO/VTKReader.cpp b/src/Caribou/Topology/IO/VTKReader.cpp
index 8c2666c..4ee6bb8 100644
--- a/src/Caribou/Topology/IO/VTKReader.cpp
+++ b/src/Caribou/Topology/IO/VTKReader.cpp
@@ -236,6 +236,11 @@ auto extract_axes_from_3D_vectors(vtkPoints * input_points, const vtkIdType & nu
       axes[0] = 0;
       axes[1] = 1;
       axes[2] = 2;
+    } else if (number_of_points == 0) {
+        // No points to look at, keep the first axes
+        for (std::size_t axis = 0; axis < Dimension; ++axis) {
+            axes[axis] = axis;
+        }
     } else {
         double * v = input_points->GetPoint(0);
         std::bitset<3> is_all_the_same(0b111); // Set all to '1' at first
-- 
2.43.0


From 2642e051c0ea9888b24c45efb66fbb4c72d21cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 16/17] fix: clearing rows or columns of a sparse EigenMatrix
 left entries when it was uncompressed

---
 src/SofaCaribou/Algebra/EigenMatrix.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index b60bd0c..d2cc596 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -291,9 +291,8 @@ public:
 
     /** Sets the entire row i to zero */
     inline void clearRow(Index row_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The inner vectors are searched through the outer indices, which is only valid on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -315,9 +314,8 @@ public:
 
     /** Sets the rows from index imin to index imax (inclusively) to zero */
     inline void clearRows(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The inner vectors are searched through the outer indices, which is only valid on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -343,9 +341,8 @@ public:
 
     /** Sets the entire columns i to zero */
     inline void clearCol(Index col_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The inner vectors are searched through the outer indices, which is only valid on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -367,9 +364,8 @@ public:
 
     /** Sets the columns from index imin to index imax (inclusively) to zero */
     inline void clearCols(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The inner vectors are searched through the outer indices, which is only valid on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -395,9 +391,8 @@ public:
 
     /** Sets the entire row i and column i to zero */
     inline void clearRowCol(Index i) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The inner vectors are searched through the outer indices, which is only valid on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
-- 
2.43.0


From 9ad7f17a0ee1ac815adae423519bab2881257a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 17/17] fix: wrapping a non-empty sparse matrix in an
 EigenMatrix dropped its entries

---
 src/SofaCaribou/Algebra/EigenMatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index d2cc596..44fe563 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -184,7 +184,8 @@ public:
      * or it will simply store a reference to this external matrix.
      * @param eigen_matrix The external matrix
      */
-    explicit EigenMatrix(std::remove_reference_t<Derived> & eigen_matrix) : p_eigen_matrix(eigen_matrix) {}
+    explicit EigenMatrix(std::remove_reference_t<Derived> & eigen_matrix)
+    : p_initialized(eigen_matrix.nonZeros() > 0), p_eigen_matrix(eigen_matrix) {}
 
     /**
      * Construct a new rows x cols Eigen matrix of type Derived.
-- 
2.43.0

