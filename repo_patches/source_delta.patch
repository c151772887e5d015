From 4619ae009dad66e9bceb23379705017f69dcbcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:27 +0000
Subject: [PATCH 01/48] fix: RectangularQuad: provide the missing containment
 test (contains_local did not compile)

---
 src/Caribou/Geometry/BaseRectangularQuad.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Caribou/Geometry/BaseRectangularQuad.h b/src/Caribou/Geometry/BaseRectangularQuad.h
index ef9987e..dd862a5 100644
--- a/src/Caribou/Geometry/BaseRectangularQuad.h
+++ b/src/Caribou/Geometry/BaseRectangularQuad.h
@@ -92,6 +92,12 @@ private:
     inline auto get_center() const {return p_center;};
     [[nodiscard]]
     inline auto get_number_of_boundary_elements() const -> UNSIGNED_INTEGER_TYPE {return 4;};
+    inline auto get_contains_local(const LocalCoordinates & xi, const FLOATING_POINT_TYPE & eps) const -> bool {
+        const auto & u = xi[0];
+        const auto & v = xi[1];
+        return IN_CLOSED_INTERVAL(-1-eps, u, 1+eps) and
+               IN_CLOSED_INTERVAL(-1-eps, v, 1+eps);
+    }
 
     auto self() -> Derived& { return *static_cast<Derived*>(this); }
     auto self() const -> const Derived& { return *static_cast<const Derived*>(this); }
-- 
2.43.0


From 43e776b58c662c9b874809937f6346b07bf8ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:27 +0000
Subject: [PATCH 02/48] fix: Hexahedron::frame(): use Eigen Zero() (the call
 did not compile)

---
 src/Caribou/Geometry/BaseHexahedron.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/BaseHexahedron.h b/src/Caribou/Geometry/BaseHexahedron.h
index 52c2de5..d1fa0d6 100644
--- a/src/Caribou/Geometry/BaseHexahedron.h
+++ b/src/Caribou/Geometry/BaseHexahedron.h
@@ -80,7 +80,7 @@ struct BaseHexahedron : public Element<Derived> {
      */
     inline auto frame() const -> Matrix<3, 3>
     {
-        return frame(LocalCoordinates::Zeros());
+        return frame(LocalCoordinates::Zero());
     }
 
     /**
-- 
2.43.0


From c2fc34ff1165148801dc7956081c68d6f772e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:27 +0000
Subject: [PATCH 03/48] fix: quadratic rectangular elements: report the number
 of gauss nodes they really have

---
 src/Caribou/Geometry/RectangularHexahedron.h | 2 +-
 src/Caribou/Geometry/RectangularQuad.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 316d1d0..8319783 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -193,7 +193,7 @@ struct traits<RectangularHexahedron <Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 3;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = 3;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 20;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
 
     using BoundaryElementType = RectangularQuad<3, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 6;
diff --git a/src/Caribou/Geometry/RectangularQuad.h b/src/Caribou/Geometry/RectangularQuad.h
index 1207b1c..b9611d2 100644
--- a/src/Caribou/Geometry/RectangularQuad.h
+++ b/src/Caribou/Geometry/RectangularQuad.h
@@ -157,7 +157,7 @@ struct traits<RectangularQuad <_Dimension, Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 2;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = _Dimension;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 8;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
 
     using BoundaryElementType = Segment<_Dimension, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 4;
-- 
2.43.0


From f11ac7ad10d81c0d286cc86b0b9f428efa6306b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:27 +0000
Subject: [PATCH 04/48] fix: RectangularHexahedron<Quadratic>: mid-edge nodes
 of the boundary faces follow the element node order

---
 src/Caribou/Geometry/RectangularHexahedron.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 8319783..650763d 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -400,12 +400,12 @@ private:
 
     inline auto get_boundary_elements_nodes() const -> const auto & {
         static const std::array<std::array<UNSIGNED_INTEGER_TYPE, 8>, 6> indices = {{
-            {0, 3, 2, 1,  9, 13, 11,  8}, // Face 0
-            {0, 4, 7, 3, 10, 17, 15,  9}, // Face 1
-            {1, 2, 6, 5, 11, 14, 18, 12}, // Face 2
-            {0, 1, 5, 4,  8, 12, 16, 10}, // Face 3
-            {2, 3, 7, 6, 13, 15, 19, 14}, // Face 4
-            {4, 5, 6, 7, 16, 18, 19, 17}  // Face 5
+            {0, 3, 2, 1, 11, 10,  9,  8}, // Face 0
+            {0, 4, 7, 3, 16, 15, 19, 11}, // Face 1
+            {1, 2, 6, 5,  9, 18, 13, 17}, // Face 2
+            {0, 1, 5, 4,  8, 17, 12, 16}, // Face 3
+            {2, 3, 7, 6, 10, 19, 14, 18}, // Face 4
+            {4, 5, 6, 7, 12, 13, 14, 15}  // Face 5
         }};
         return indices;
     }
-- 
2.43.0


From bf9e15c2144b25dea2a7d989d535fd37598e109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:24 +0000
Subject: [PATCH 05/48] fix: hexahedron/triangle intersection: a positive
 tolerance no longer breaks the crossing count (far triangles were reported)

---
 src/Caribou/Geometry/BaseHexahedron.h            | 4 ++--
 src/Caribou/Geometry/BaseRectangularHexahedron.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Caribou/Geometry/BaseHexahedron.h b/src/Caribou/Geometry/BaseHexahedron.h
index d1fa0d6..bcfa525 100644
--- a/src/Caribou/Geometry/BaseHexahedron.h
+++ b/src/Caribou/Geometry/BaseHexahedron.h
@@ -310,9 +310,9 @@ inline auto BaseHexahedron<Derived>::intersects_local_polygon(const LocalCoordin
         const auto & p1 = nodes[i];
         const auto & p2 = nodes[(i+1)%NNodes];
 
-        if (const int xdirection = seg_contains_point(p1[xaxis]-eps, p2[xaxis]+eps, p[xaxis]))
+        if (const int xdirection = seg_contains_point(p1[xaxis], p2[xaxis], p[xaxis]))
         {
-            if (seg_contains_point(p1[yaxis]-eps, p2[yaxis]+eps, p[yaxis]))
+            if (seg_contains_point(p1[yaxis], p2[yaxis], p[yaxis]))
             {
                 if (xdirection * (p[xaxis]-p1[xaxis])*(p2[yaxis]-p1[yaxis]) <=
                     xdirection * (p[yaxis]-p1[yaxis])*(p2[xaxis]-p1[xaxis]))
diff --git a/src/Caribou/Geometry/BaseRectangularHexahedron.h b/src/Caribou/Geometry/BaseRectangularHexahedron.h
index 21a5b79..fd1239a 100644
--- a/src/Caribou/Geometry/BaseRectangularHexahedron.h
+++ b/src/Caribou/Geometry/BaseRectangularHexahedron.h
@@ -254,9 +254,9 @@ inline auto BaseRectangularHexahedron<Derived>::intersects_local_polygon(const L
         const auto & p1 = nodes[i];
         const auto & p2 = nodes[(i+1)%NNodes];
 
-        if (const int xdirection = seg_contains_point(p1[xaxis]-eps, p2[xaxis]+eps, p[xaxis]))
+        if (const int xdirection = seg_contains_point(p1[xaxis], p2[xaxis], p[xaxis]))
         {
-            if (seg_contains_point(p1[yaxis]-eps, p2[yaxis]+eps, p[yaxis]))
+            if (seg_contains_point(p1[yaxis], p2[yaxis], p[yaxis]))
             {
                 if (xdirection * (p[xaxis]-p1[xaxis])*(p2[yaxis]-p1[yaxis]) <=
                     xdirection * (p[yaxis]-p1[yaxis])*(p2[xaxis]-p1[xaxis]))
-- 
2.43.0


From df102739009298300afb72d161e59185167c0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:05 +0000
Subject: [PATCH 06/48] fix: Grid::cells_around: a point outside the grid is no
 longer reported in an unrelated or non-existing cell

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 776b191..6ed4b8f 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -153,7 +153,6 @@ struct BaseGrid
         std::vector<CellIndex> cells;
         cells.reserve((unsigned) 1<<Dimension);
 
-        const CellIndex ncells = number_of_cells();
         const VecFloat h = H();
 
         /// Absolute grid coordinates of the point, for example absolute(p) = [3.25, 3.25, 3.25]
@@ -177,9 +176,10 @@ struct BaseGrid
 
         if (close_to_axis.none()) {
             // We are not near any axis, which means we are well inside a cell's boundaries
-            const auto cell_index = Self().cell_index_at(absolute.unaryExpr(CwiseFloor()). template cast<Int>());
-            if (0 <= cell_index and cell_index <= ncells-1) { // Within the boundary of the grid
-                cells.emplace_back(cell_index);
+            const GridCoordinates cell = absolute.unaryExpr(CwiseFloor()). template cast<Int>();
+            const GridCoordinates n = N(). template cast<Int>();
+            if ((cell.array() >= 0).all() and (cell.array() < n.array()).all()) { // Within the boundary of the grid
+                cells.emplace_back(Self().cell_index_at(cell));
             }
         } else {
             const VecFloat d = VecFloat::Constant(0.5);
@@ -194,13 +194,13 @@ struct BaseGrid
                 if (close_to_axis[axis]) {
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] - d[axis]));
-                        if (index >= 0) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] + d[axis]));
-                        if (index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
-- 
2.43.0


From adcf2962e20434f84bd06cb4384a7840b538eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:05 +0000
Subject: [PATCH 07/48] fix: Grid::cells_enclosing: positions outside the grid
 extend the clipped bounding box, as documented

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 71 +++++--------------
 1 file changed, 19 insertions(+), 52 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 6ed4b8f..a81e161 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -325,63 +325,30 @@ struct BaseGrid
         GridCoordinates lower_grid_boundary = GridCoordinates::Zero();
         GridCoordinates upper_grid_boundary = N(). template cast<Int>() - GridCoordinates::Ones();
 
-        // Tool function that returns the minimum grid coordinates between two grid coordinates
-        auto min_between =
-                [this, &lower_grid_boundary, &upper_grid_boundary]
-                (const std::vector<CellIndex> & cells_indices, const GridCoordinates & min_coordinates) -> GridCoordinates
-                {
-                    GridCoordinates lower_bound = min_coordinates;
-
-                    for (const auto & cell_index: cells_indices) {
-                        const GridCoordinates coordinates = Self().cell_coordinates_at(cell_index);
-                        for (size_t i = 0; i < Dimension; ++i) {
-                            lower_bound[i] = std::min(coordinates[i], lower_bound[i]);
-
-                            // Clip to grid boundaries if the coordinates lies outside of the grid
-                            lower_bound[i] = std::max(lower_bound[i], lower_grid_boundary[i]);
-                            lower_bound[i] = std::min(lower_bound[i], upper_grid_boundary[i]);
-                        }
-                    }
-                    return lower_bound;
-                };
-
-        // Tool function that returns the maximum grid coordinates between two grid coordinates
-        auto max_between =
-                [this, &lower_grid_boundary, &upper_grid_boundary]
-                (const std::vector<CellIndex> & cells_indices, const GridCoordinates & max_coordinates) -> GridCoordinates
-                {
-                    GridCoordinates upper_bound = max_coordinates;
-
-                    for (const auto & cell_index: cells_indices) {
-                        const GridCoordinates coordinates = Self().cell_coordinates_at(cell_index);
-                        for (size_t i = 0; i < Dimension; ++i) {
-
-                            upper_bound[i] = std::max(coordinates[i], upper_bound[i]);
-
-                            // Clip to grid boundaries if the coordinate lies outside of the grid
-                            upper_bound[i] = std::max(upper_bound[i], lower_grid_boundary[i]);
-                            upper_bound[i] = std::min(upper_bound[i], upper_grid_boundary[i]);
-                        }
-                    }
-                    return upper_bound;
-                };
-
-        // 1. Find the grid coordinates bounding box of the cells that contain each nodes
-        GridCoordinates lower_cell = min_between(cells_around(positions[0]), upper_grid_boundary);
-        GridCoordinates upper_cell = max_between(cells_around(positions[0]), lower_grid_boundary);
+        // 1. Find the bounding box (in grid coordinates) of the cells around each positions, clipped to the grid boundaries
+        GridCoordinates lower_cell = upper_grid_boundary;
+        GridCoordinates upper_cell = lower_grid_boundary;
+        const VecFloat h = H();
 
         // This is used to discard the bbox computation if all points are outside the grid
-        bool grid_contains_at_least_one_point = contains(WorldCoordinates(positions[0]));
+        bool grid_contains_at_least_one_point = false;
 
-        for (size_t i = 1; i < positions.size(); ++ i) {
-
-            if (not grid_contains_at_least_one_point and contains(WorldCoordinates(positions[i])))
+        for (const WorldCoordinates & position : positions) {
+            if (contains(position))
                 grid_contains_at_least_one_point = true;
 
-            const auto coordinates = cells_around(positions[i]);
-
-            lower_cell = min_between(coordinates, lower_cell);
-            upper_cell = max_between(coordinates, upper_cell);
+            const VecFloat absolute = ((position - m_anchor_position).array() / h.array()).matrix();
+            for (size_t i = 0; i < Dimension; ++i) {
+                // A position lying directly between two cells is surrounded by both of them
+                const Float rounded = std::round(absolute[i]);
+                const bool close_to_axis = (absolute[i] - rounded)*(absolute[i] - rounded) < EPSILON*EPSILON;
+                const Int lower = static_cast<Int>(close_to_axis ? rounded - 1 : std::floor(absolute[i]));
+                const Int upper = static_cast<Int>(close_to_axis ? rounded     : std::floor(absolute[i]));
+
+                // Clip to grid boundaries if the coordinate lies outside of the grid
+                lower_cell[i] = std::min(lower_cell[i], std::max(lower, lower_grid_boundary[i]));
+                upper_cell[i] = std::max(upper_cell[i], std::min(upper, upper_grid_boundary[i]));
+            }
         }
 
         if (not grid_contains_at_least_one_point)
-- 
2.43.0


From 3701f07a8a7440f678f1727e98ad989a1eb74903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:34 +0000
Subject: [PATCH 08/48] fix: Mesh::remove_domain and Mesh::remove: advance to
 the next domain (endless loop unless the domain is the first)

---
 src/Caribou/Topology/Mesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 1d40659..8b6115a 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -454,7 +454,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove_domain(const std::string & name) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->first != name);
+            while (it != p_domains.end() and it->first != name) ++it;
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
@@ -469,7 +469,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove(const BaseDomain * domain) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->second.get() != domain);
+            while (it != p_domains.end() and it->second.get() != domain) ++it;
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
-- 
2.43.0


From 5177e136024a4abe5954344cbe69f300a4a82ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:34 +0000
Subject: [PATCH 09/48] fix: Mesh::node(): missing coordinates of 1D and 2D
 meshes are zero, as documented (they were uninitialised)

---
 src/Caribou/Topology/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 8b6115a..34f2bf3 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -270,7 +270,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         [[nodiscard]]
         inline auto node(const UNSIGNED_INTEGER_TYPE & node_id) const -> Eigen::Vector3d override {
             const auto p = position(node_id);
-            Eigen::Vector3d n;
+            Eigen::Vector3d n = Eigen::Vector3d::Zero();
             n[0] = p[0];
             if constexpr (Dimension > 1) {
                 n[1] = p[1];
-- 
2.43.0


From 6f4720b2a4f4791737a895d0e894d88b1c44c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:34 +0000
Subject: [PATCH 10/48] fix: Mesh::positions(std::array): the overload did not
 compile

---
 src/Caribou/Topology/Mesh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 34f2bf3..c5321e8 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -529,7 +529,12 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         template <typename IntegerType, std::size_t N>
         inline auto positions(const std::array<IntegerType, N> & indices) const {
-            return positions<IntegerType, N>(indices.data());
+            Eigen::Matrix<Real, N, Dimension, (Dimension>1?Eigen::RowMajor:Eigen::ColMajor)> positions;
+            for (std::size_t i = 0; i < N; ++i) {
+                caribou_assert(indices[i] < static_cast<IntegerType>(number_of_nodes()));
+                positions.row(i) = p_nodes.node(indices[i]);
+            }
+            return positions;
         }
 
         /*!
-- 
2.43.0


From f84a4230ccc2ae6aa5357921a956475d5fd29608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:54 +0000
Subject: [PATCH 11/48] fix: Domain copy and move: own the copied connectivity
 and initialise the mesh pointer

---
 src/Caribou/Topology/Domain.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index fd3948d..3dd5b90 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -95,12 +95,16 @@ namespace caribou::topology {
         /*! Empty constructor is prohibited */
         Domain() = delete;
 
-        /*! Copy constructor */
+        /*! Copy constructor. The copy isn't attached to any mesh. */
         Domain(const Domain & other) noexcept
-        : DomainStorage<Element>(other), p_buffer(other.p_buffer), p_elements(other.p_elements) {}
+        : DomainStorage<Element>(other), p_mesh(nullptr), p_buffer(other.p_buffer),
+          p_elements(other.p_buffer.size() > 0 ? p_buffer.data() : other.p_elements.data(),
+                     other.p_elements.rows(), other.p_elements.cols(),
+                     {other.p_elements.outerStride(), other.p_elements.innerStride()}) {}
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_elements {nullptr, 0, 0} {
+        Domain(Domain && other) noexcept
+        : DomainStorage<Element>(std::move(other)), p_mesh(nullptr), p_elements {nullptr, 0, other.p_elements.cols(), {0, 0}} {
             swap(*this, other);
         }
 
@@ -243,6 +247,7 @@ namespace caribou::topology {
         {
             // enable ADL
             using std::swap;
+            swap(first.p_mesh, second.p_mesh);
             swap(first.p_buffer, second.p_buffer);
 
             // Map isn't swappable, we need to do it manually using placement new operators
-- 
2.43.0


From 9d9287f7f50df0dd77dc1cce7b7944032c5a2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:54 +0000
Subject: [PATCH 12/48] fix: Mesh copy, move, assignment and swap: the domains
 are attached to the mesh that holds them

---
 src/Caribou/Topology/BaseDomain.h |  2 +-
 src/Caribou/Topology/Domain.h     |  3 ++-
 src/Caribou/Topology/Mesh.h       | 10 ++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/BaseDomain.h b/src/Caribou/Topology/BaseDomain.h
index eeea1ad..5bac0e4 100644
--- a/src/Caribou/Topology/BaseDomain.h
+++ b/src/Caribou/Topology/BaseDomain.h
@@ -48,7 +48,7 @@ namespace caribou::topology {
         [[nodiscard]] virtual BaseDomain * clone() const = 0;
 
         /*!
-         * Attach this Domain to the given Mesh.
+         * Attach this Domain to the given Mesh, or detach it from its Mesh if null is given.
          */
         virtual void attach_to(const BaseMesh * mesh) = 0;
     };
diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 3dd5b90..eb98853 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -234,7 +234,8 @@ namespace caribou::topology {
 
             // There is already a Mesh instance attached to this Domain, and this domain can still be found in the
             // list of domains of the mesh, let's throw an exception
-            if (p_mesh != nullptr)  {
+            // (attaching to null detaches the domain from its mesh).
+            if (p_mesh != nullptr and mesh != nullptr)  {
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
             }
 
diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index c5321e8..eded29d 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -225,6 +225,8 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             for (const auto & p : other.p_domains) {
                 const std::string & domain_name = p.first;
                 BaseDomain * cloned_domain_ptr  = p.second->clone();
+                cloned_domain_ptr->attach_to(nullptr);
+                cloned_domain_ptr->attach_to(this);
                 p_domains.emplace_back(domain_name, cloned_domain_ptr);
             }
         }
@@ -603,6 +605,14 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
 
             swap(first.p_nodes, second.p_nodes);
             swap(first.p_domains, second.p_domains);
+
+            // The domains now belong to the other mesh
+            for (Mesh * mesh : {&first, &second}) {
+                for (auto & domain : mesh->p_domains) {
+                    domain.second->attach_to(nullptr);
+                    domain.second->attach_to(mesh);
+                }
+            }
         }
 
     private:
-- 
2.43.0


From 724520751092e5b048bdd30a5bd8301bdc11e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:18 +0000
Subject: [PATCH 13/48] fix: Mesh::add_domain of an existing domain: names stay
 unique, as with the other overloads

---
 src/Caribou/Topology/Mesh.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index eded29d..f788af0 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -432,10 +432,13 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             } else if (domain->mesh() != nullptr) {
                 // The domain is already attached to another Mesh
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
-            } else {
-                domain->attach_to(this);
             }
 
+            if (this->domain(name) != nullptr) {
+                throw std::domain_error(std::string("A domain with the name ") + name + " already exists.");
+            }
+
+            domain->attach_to(this);
             p_domains.emplace_back(name, domain);
             return domain;
         }
@@ -446,7 +449,14 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         inline auto add_domain(BaseDomain * domain) -> BaseDomain * override {
             std::ostringstream ss;
             ss << "domain_" << domain;
-            return add_domain(domain, ss.str());
+            std::string name = ss.str();
+
+            // A domain cloned from another mesh can already have this name (the address was used by its original)
+            while (this->domain(name) != nullptr and this->domain(name) != domain) {
+                name += "_";
+            }
+
+            return add_domain(domain, name);
         }
 
         /*!
-- 
2.43.0


From 4ec0fd0eb41953e2374dca99fddcf5780ca87737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:34 +0000
Subject: [PATCH 14/48] fix: Mesh constructors: write into the nodes of
 containers that return references (a copy was filled)

---
 src/Caribou/Topology/Mesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index f788af0..a8dbf08 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -153,7 +153,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             const auto n = positions.size();
             p_nodes.resize(n);
             for (std::size_t i = 0; i < static_cast<std::size_t> (n); ++i) {
-                auto node = this->p_nodes.node(i);
+                auto && node = this->p_nodes.node(i);
                 for (std::size_t j = 0; j < static_cast<std::size_t>(Dimension); ++j) {
                     node[j] = positions[i][j];
                 }
@@ -181,7 +181,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             const auto n = positions.rows();
             p_nodes.resize(n);
             for (std::size_t i = 0; i < static_cast<std::size_t> (n); ++i) {
-                auto node = this->p_nodes.node(i);
+                auto && node = this->p_nodes.node(i);
                 for (std::size_t j = 0; j < static_cast<std::size_t>(Dimension); ++j) {
                     node[j] = positions(i,j);
                 }
-- 
2.43.0


From 26c82c190a13445f1b6ae74e8a6576d283ecc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:42 +0000
Subject: [PATCH 15/48] fix: VTKReader: an empty or unreadable file no longer
 crashes the 1D and 2D readers

---
 src/Caribou/Topology/IO/VTKReader.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Caribou/Topology/IO/VTKReader.cpp b/src/Caribou/Topology/IO/VTKReader.cpp
index 8c2666c..8a1b520 100644
--- a/src/Caribou/Topology/IO/VTKReader.cpp
+++ b/src/Caribou/Topology/IO/VTKReader.cpp
@@ -232,10 +232,11 @@ auto extract_axes_from_3D_vectors(vtkPoints * input_points, const vtkIdType & nu
 {
     // Find the good axes (only for dimensions 1 and 2)
     std::array<UNSIGNED_INTEGER_TYPE, Dimension> axes {};
-    if (Dimension == 3) {
-      axes[0] = 0;
-      axes[1] = 1;
-      axes[2] = 2;
+    if (Dimension == 3 or number_of_points == 0) {
+      // Nothing to extract (either every axes are kept, or the input is empty)
+      for (std::size_t axis = 0; axis < Dimension; ++axis) {
+          axes[axis] = axis;
+      }
     } else {
         double * v = input_points->GetPoint(0);
         std::bitset<3> is_all_the_same(0b111); // Set all to '1' at first
-- 
2.43.0


From 3c1a3700d4dbcff13a47896449bbca4d943bd2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:21 +0000
Subject: [PATCH 16/48] fix: Python: Hexahedron8HashGrid and
 Hexahedron20HashGrid had each other's name

---
 src/Caribou/Python/Topology/HashGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Python/Topology/HashGrid.cpp b/src/Caribou/Python/Topology/HashGrid.cpp
index 563e92d..2ff208b 100644
--- a/src/Caribou/Python/Topology/HashGrid.cpp
+++ b/src/Caribou/Python/Topology/HashGrid.cpp
@@ -30,8 +30,8 @@ auto grid(py::module & m, const std::string & name) {
 void create_hashgrid(pybind11::module & m) {
     grid<Tetrahedron<Linear>>(m, "Tetrahedron4HashGrid");
     grid<Tetrahedron<Quadratic>>(m, "Tetrahedron10HashGrid");
-    grid<Hexahedron<Linear>>(m, "Hexahedron20HashGrid");
-    grid<Hexahedron<Quadratic>>(m, "Hexahedron8HashGrid");
+    grid<Hexahedron<Linear>>(m, "Hexahedron8HashGrid");
+    grid<Hexahedron<Quadratic>>(m, "Hexahedron20HashGrid");
     grid<RectangularHexahedron<Linear>>(m, "RectangularHexahedron8HashGrid");
     grid<RectangularHexahedron<Quadratic>>(m, "RectangularHexahedron20HashGrid");
 
-- 
2.43.0


From 3c5a6e97f89329bcfdcedd2187ae348b19522b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:21 +0000
Subject: [PATCH 17/48] fix: Python: RectangularHexahedron(n0, ...) creates a
 rectangular hexahedron (it created a general one)

---
 src/Caribou/Python/Geometry/RectangularHexahedron.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Python/Geometry/RectangularHexahedron.cpp b/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
index bf90499..68624b9 100644
--- a/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
+++ b/src/Caribou/Python/Geometry/RectangularHexahedron.cpp
@@ -103,8 +103,8 @@ void create_rectangular_hexahedron(pybind11::module & m) {
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n6, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n7,
                                              const caribou::bindings::Order & order) {
         return (order == caribou::bindings::Order::Linear)
-               ? py::cast(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7))
-               : py::cast(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7));
+               ? py::cast(RectangularHexahedron<Linear>(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7)))
+               : py::cast(RectangularHexahedron<Quadratic>(Hexahedron<Linear>(n0, n1, n2, n3, n4, n5, n6, n7)));
     }, py::arg("n0"), py::arg("n1"), py::arg("n2"), py::arg("n3"), py::arg("n4"), py::arg("n5"), py::arg("n6"), py::arg("n7"), py::arg("order") = caribou::bindings::Order::Linear);
 
     // Quadratic creation
@@ -122,7 +122,7 @@ void create_rectangular_hexahedron(pybind11::module & m) {
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n14, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n15,
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n16, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n17,
                                              const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n18, const Eigen::Matrix<FLOATING_POINT_TYPE, 3, 1> & n19) {
-        return py::cast(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19));
+        return py::cast(RectangularHexahedron<Quadratic>(Hexahedron<Quadratic>(n0, n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, n11, n12, n13, n14, n15, n16, n17, n18, n19)));
     }, py::arg("n0"), py::arg("n1"), py::arg("n2"), py::arg("n3"), py::arg("n4"), py::arg("n5"), py::arg("n6"), py::arg("n7"), py::arg("n8"), py::arg("n9"),
        py::arg("n10"), py::arg("n11"), py::arg("n12"), py::arg("n13"), py::arg("n14"), py::arg("n15"), py::arg("n16"), py::arg("n17"), py::arg("n18"), py::arg("n19"));
 
-- 
2.43.0


From 56035f7810ad7d60cc9e98ea438b34f72af2f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:21 +0000
Subject: [PATCH 18/48] fix: Python: domains and embeddings keep alive the mesh
 and the domain they refer to

---
 src/Caribou/Python/Topology/BarycentricContainer.h | 2 +-
 src/Caribou/Python/Topology/Domain.h               | 8 ++++----
 src/Caribou/Python/Topology/Mesh.cpp               | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Caribou/Python/Topology/BarycentricContainer.h b/src/Caribou/Python/Topology/BarycentricContainer.h
index fd9b00c..cf1369a 100644
--- a/src/Caribou/Python/Topology/BarycentricContainer.h
+++ b/src/Caribou/Python/Topology/BarycentricContainer.h
@@ -63,7 +63,7 @@ void declare_barycentric_container(py::class_<Domain, Holder> & m) {
 
     m.def("embed", [](const Domain & domain, const Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> & embedded_points) {
        return domain.embed(embedded_points);
-    }, py::arg("embedded_points"));
+    }, py::arg("embedded_points"), py::keep_alive<0, 1>());
 }
 
 } // namespace caribou::topology::bindings
\ No newline at end of file
diff --git a/src/Caribou/Python/Topology/Domain.h b/src/Caribou/Python/Topology/Domain.h
index 1f5c981..bf73a82 100644
--- a/src/Caribou/Python/Topology/Domain.h
+++ b/src/Caribou/Python/Topology/Domain.h
@@ -29,12 +29,12 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d, domain_name);
         return d;
-    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, geometry::traits<Element>::NumberOfNodesAtCompileTime> & node_indices) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d);
         return d;
-    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const std::string & domain_name, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
         if (geometry::traits<Element>::NumberOfNodesAtCompileTime != caribou::Dynamic and node_indices.cols() != geometry::traits<Element>::NumberOfNodesAtCompileTime) {
@@ -48,7 +48,7 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d, domain_name);
         return d;
-    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("domain_name"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     m.def("add_domain", [](BaseMesh & mesh, const Element &, const Eigen::Matrix<NodeIndex, Eigen::Dynamic, Eigen::Dynamic> & node_indices) {
         if (geometry::traits<Element>::NumberOfNodesAtCompileTime != caribou::Dynamic and node_indices.cols() != geometry::traits<Element>::NumberOfNodesAtCompileTime) {
@@ -62,7 +62,7 @@ void declare_domain(pybind11::module & m, const std::string & name) {
         auto d = new Domain<Element, NodeIndex>(nullptr, node_indices);
         mesh.add_domain(d);
         return d;
-    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference);
+    }, py::arg("mesh"), py::arg("element_type"), py::arg("node_indices"), py::return_value_policy::reference, py::keep_alive<0, 1>());
 
     declare_barycentric_container(c);
 }
diff --git a/src/Caribou/Python/Topology/Mesh.cpp b/src/Caribou/Python/Topology/Mesh.cpp
index 6a27793..df8789c 100644
--- a/src/Caribou/Python/Topology/Mesh.cpp
+++ b/src/Caribou/Python/Topology/Mesh.cpp
@@ -21,9 +21,9 @@ void declare_mesh(py::module & m) {
     c.def("number_of_domains", &M::number_of_domains);
     c.def("number_of_nodes", &M::number_of_nodes);
 
-    c.def("domains", &M::domains);
-    c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);});
-    c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);});
+    c.def("domains", &M::domains, py::return_value_policy::reference_internal);
+    c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);}, py::keep_alive<0, 1>());
+    c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);}, py::keep_alive<0, 1>());
 
     c.def("position", &M::position);
     c.def("positions", [](const M & m, const std::vector<UNSIGNED_INTEGER_TYPE> & indices) {
-- 
2.43.0


From c1eb5f577f92ce8b1df31047171bdaf432dc6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:21 +0000
Subject: [PATCH 19/48] fix: Python: Mesh.domain of an unknown name returns
 None (it raised a TypeError)

---
 src/Caribou/Python/Topology/Mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Caribou/Python/Topology/Mesh.cpp b/src/Caribou/Python/Topology/Mesh.cpp
index df8789c..07ed250 100644
--- a/src/Caribou/Python/Topology/Mesh.cpp
+++ b/src/Caribou/Python/Topology/Mesh.cpp
@@ -57,6 +57,7 @@ void declare_mesh(py::module &m) {
 
 void create_mesh(py::module & m) {
     py::class_<BaseMesh> a (m, "BaseMesh");
+    py::class_<BaseDomain, std::unique_ptr<BaseDomain, py::nodelete>> b (m, "BaseDomain");
 
     declare_mesh<1>(m);
     declare_mesh<2>(m);
-- 
2.43.0


From 1ecc874bd076cd313604e92fe94d414c02643bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:17 +0000
Subject: [PATCH 20/48] fix: Python: Mesh.position returns its own copy (the
 array referred to the memory of a released mesh)

---
 src/Caribou/Python/Topology/Mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Python/Topology/Mesh.cpp b/src/Caribou/Python/Topology/Mesh.cpp
index 07ed250..1a438e6 100644
--- a/src/Caribou/Python/Topology/Mesh.cpp
+++ b/src/Caribou/Python/Topology/Mesh.cpp
@@ -25,7 +25,9 @@ void declare_mesh(py::module & m) {
     c.def("domain", [](const M & m, const UNSIGNED_INTEGER_TYPE & i) {return m.domain(i);}, py::keep_alive<0, 1>());
     c.def("domain", [](const M & m, const std::string & name) {return m.domain(name);}, py::keep_alive<0, 1>());
 
-    c.def("position", &M::position);
+    c.def("position", [](const M & m, const UNSIGNED_INTEGER_TYPE & index) -> typename M::WorldCoordinates {
+        return m.position(index);
+    });
     c.def("positions", [](const M & m, const std::vector<UNSIGNED_INTEGER_TYPE> & indices) {
         return m.positions(indices);
     }, py::arg("indices").noconvert());
-- 
2.43.0


From 823ca714ac7e71c39fcbf4d151d5c8e1c20decdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:01 +0000
Subject: [PATCH 21/48] fix: Python: contains_local has the default tolerance
 of the native operation

---
 src/Caribou/Python/Geometry/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Python/Geometry/Element.h b/src/Caribou/Python/Geometry/Element.h
index b5d5f07..a87ce16 100644
--- a/src/Caribou/Python/Geometry/Element.h
+++ b/src/Caribou/Python/Geometry/Element.h
@@ -40,7 +40,7 @@ void declare_element(pybind11::module & m, const std::string & name) {
     c.def("center", &E::center);
     c.def("world_coordinates", &E::world_coordinates, pybind11::arg("local_coordinates"));
     c.def("local_coordinates", [](const E & e, const typename E::WorldCoordinates & p) {return e.local_coordinates(p);}, pybind11::arg("world_coordinates"));
-    c.def("contains_local", &E::contains_local, pybind11::arg("world_coordinates"), pybind11::arg("epsilon") = 1e-15);
+    c.def("contains_local", &E::contains_local, pybind11::arg("world_coordinates"), pybind11::arg("epsilon") = 1e-10);
 //    c.def("interpolate", &E::interpolate);
     c.def("jacobian", &E::jacobian);
 }
-- 
2.43.0


From 3ef65469ce17ca5d4e3f6dff218870d56f17094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:47 +0000
Subject: [PATCH 22/48] fix: local_coordinates: the initial guess was accepted
 on an absolute residual of 1e-5 (wrong for small elements)

---
 src/Caribou/Geometry/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/Element.h b/src/Caribou/Geometry/Element.h
index fdbd558..d333208 100644
--- a/src/Caribou/Geometry/Element.h
+++ b/src/Caribou/Geometry/Element.h
@@ -237,8 +237,8 @@ struct Element {
         FLOATING_POINT_TYPE r_norm_2 = residual.squaredNorm();
         FLOATING_POINT_TYPE r0_norm_2 = r_norm_2;
 
-        if (r_norm_2 < squared_threshold) {
-            // The initial guess is good enough
+        if (r_norm_2 == 0) {
+            // The initial guess is the solution
             return xi;
         }
 
-- 
2.43.0


From bad3f0335bdadaefe8676f85c65bb22c50b85009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:42 +0000
Subject: [PATCH 23/48] fix: EigenMatrix clears the right entries of an
 uncompressed sparse matrix

clearRow(s), clearCol(s) and clearRowCol used the outer index array of the
matrix as if it was compressed. After a set() or add() of a new entry it isn't:
entries were left untouched, or unused storage was overwritten.
---
 src/SofaCaribou/Algebra/EigenMatrix.h | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index b60bd0c..232521b 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -291,9 +291,8 @@ public:
 
     /** Sets the entire row i to zero */
     inline void clearRow(Index row_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The index ranges used below are only meaningful on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -315,9 +314,8 @@ public:
 
     /** Sets the rows from index imin to index imax (inclusively) to zero */
     inline void clearRows(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The index ranges used below are only meaningful on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -343,9 +341,8 @@ public:
 
     /** Sets the entire columns i to zero */
     inline void clearCol(Index col_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The index ranges used below are only meaningful on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -367,9 +364,8 @@ public:
 
     /** Sets the columns from index imin to index imax (inclusively) to zero */
     inline void clearCols(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The index ranges used below are only meaningful on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -395,9 +391,8 @@ public:
 
     /** Sets the entire row i and column i to zero */
     inline void clearRowCol(Index i) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        // The index ranges used below are only meaningful on a compressed matrix
+        compress();
 
         using StorageIndex = typename EigenType::StorageIndex;
 
-- 
2.43.0


From 0a43966551801759cc82d725fcb86fae7b8c5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:42 +0000
Subject: [PATCH 24/48] fix: EigenMatrix keeps the entries of the sparse matrix
 it is given

A wrapper around a sparse matrix that already has entries was considered
uninitialized: the first set(), compress() or clear*() discarded them.
---
 src/SofaCaribou/Algebra/EigenMatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index 232521b..ed573ea 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -184,7 +184,9 @@ public:
      * or it will simply store a reference to this external matrix.
      * @param eigen_matrix The external matrix
      */
-    explicit EigenMatrix(std::remove_reference_t<Derived> & eigen_matrix) : p_eigen_matrix(eigen_matrix) {}
+    explicit EigenMatrix(std::remove_reference_t<Derived> & eigen_matrix)
+        : p_initialized(eigen_matrix.nonZeros() > 0) // The entries of the given matrix must not be lost on initialization
+        , p_eigen_matrix(eigen_matrix) {}
 
     /**
      * Construct a new rows x cols Eigen matrix of type Derived.
-- 
2.43.0


From 492fdf49d28147ad95ba7bd72ad337e1276059d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:01 +0000
Subject: [PATCH 25/48] fix: CaribouForcefield::computeBBox: a new maximum hid
 the minimum, and 2D positions were read out of bounds

---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 2aaeac1..53f33f1 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -118,8 +118,10 @@ void CaribouForcefield<Element>::computeBBox(const sofa::core::ExecParams *, boo
     Real minBBox[3] = {max_real, max_real, max_real};
     for (size_t i = 0; i < x.size(); i++) {
         for (int c = 0; c < 3; c++) {
-            if (x[i][c] > maxBBox[c]) maxBBox[c] = static_cast<Real>(x[i][c]);
-            else if (x[i][c] < minBBox[c]) minBBox[c] = static_cast<Real>(x[i][c]);
+            // The box is flat on the axes that the positions don't have (1D and 2D elements)
+            const Real value = (c < static_cast<int>(Dimension)) ? static_cast<Real>(x[i][c]) : 0;
+            if (value > maxBBox[c]) maxBBox[c] = value;
+            if (value < minBBox[c]) minBBox[c] = value;
         }
     }
 
-- 
2.43.0


From a9376bfc78856374e7c7ff3db04d5c010e7483e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:32 +0000
Subject: [PATCH 26/48] fix: TractionForcefield::reset left no nodal forces
 (read out of bounds by the next step) and lost a constant traction

---
 src/SofaCaribou/Forcefield/TractionForcefield.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SofaCaribou/Forcefield/TractionForcefield.inl b/src/SofaCaribou/Forcefield/TractionForcefield.inl
index cdb2845..eb12ffc 100644
--- a/src/SofaCaribou/Forcefield/TractionForcefield.inl
+++ b/src/SofaCaribou/Forcefield/TractionForcefield.inl
@@ -81,8 +81,13 @@ void TractionForcefield<Element>::reset()
     sofa::helper::WriteAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
 
     nodal_forces.clear();
+    nodal_forces.resize(this->getMState()->readRestPositions().size());
     d_total_load.setValue(0.);
     m_current_traction = Deriv();
+
+    // If all the load is applied at once, it has to be there for the computation of the first time step
+    if (m_traction_is_constant)
+        increment_load(d_traction.getValue());
 }
 
 template <typename Element>
-- 
2.43.0


From 667186d84e2e8730af1883eb17bd6c00b98378b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:24 +0000
Subject: [PATCH 27/48] fix: FictitiousGrid wrote past its node type counters

tag_intersected_cells_from_implicit_surface() indexed an array of three
counters with the values of Type, which are the bits 1, 2 and 4: a node lying
exactly on the iso-surface incremented types[4].
---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index ab37f01..d5e60a1 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -382,15 +382,19 @@ FictitiousGrid<DataTypes>::tag_intersected_cells_from_implicit_surface()
     // Once we got the type of the nodes, we compute the type of their cells
     for (UNSIGNED_INTEGER_TYPE cell_index = 0; cell_index < number_of_cells; ++cell_index) {
         const auto node_indices = p_grid->node_indices_of(cell_index);
-        UNSIGNED_INTEGER_TYPE types[3] = {0, 0, 0}; // Number of nodes that are Inside, Outside and Boundary, respectively
+        UNSIGNED_INTEGER_TYPE number_of_inside_nodes = 0;
+        UNSIGNED_INTEGER_TYPE number_of_outside_nodes = 0;
 
         for (const auto & node_index : node_indices) {
-            types[(UNSIGNED_INTEGER_TYPE) node_types[node_index]]++;
+            if (node_types[node_index] == Type::Inside)
+                ++number_of_inside_nodes;
+            else if (node_types[node_index] == Type::Outside)
+                ++number_of_outside_nodes;
         }
 
-        if (types[(UNSIGNED_INTEGER_TYPE) Type::Inside] == CellElement::NumberOfNodesAtCompileTime) {
+        if (number_of_inside_nodes == CellElement::NumberOfNodesAtCompileTime) {
             p_cells_types[cell_index] = Type::Inside;
-        } else if (types[(UNSIGNED_INTEGER_TYPE) Type::Outside] == CellElement::NumberOfNodesAtCompileTime) {
+        } else if (number_of_outside_nodes == CellElement::NumberOfNodesAtCompileTime) {
             p_cells_types[cell_index] = Type::Outside;
         } else {
             p_cells_types[cell_index] = Type::Boundary;
-- 
2.43.0


From bdb9a99b2314640c35d8c41102fa0614eeb944d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:24 +0000
Subject: [PATCH 28/48] fix: FictitiousGrid::create_grid keeps the cell types
 and triangles of a previous grid

resize() left the types of the cells and their lists of triangles as they were
when the grid was created a second time. With an iso-surface the lists were
never allocated, while subdivide_intersected_cells() takes a reference to one
of its elements.
---
 src/SofaCaribou/Topology/FictitiousGrid.cpp | 1 -
 src/SofaCaribou/Topology/FictitiousGrid.inl | 3 ++-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.cpp b/src/SofaCaribou/Topology/FictitiousGrid.cpp
index c9c2b92..b12acb0 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.cpp
+++ b/src/SofaCaribou/Topology/FictitiousGrid.cpp
@@ -56,7 +56,6 @@ FictitiousGrid<Vec3Types>::tag_intersected_cells()
     int64_t time_to_find_bounding_boxes = 0;
     int64_t time_to_find_intersections = 0;
 
-    p_triangles_of_cell.resize(p_grid->number_of_cells());
     std::vector<UNSIGNED_INTEGER_TYPE> outside_triangles;
     for (std::size_t triangle_index = 0; triangle_index < triangles.size(); ++triangle_index) {
         const auto & triangle = triangles[triangle_index];
diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index d5e60a1..fe6795b 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -308,7 +308,8 @@ void FictitiousGrid<DataTypes>::create_grid()
         anchor_position, grid_n, grid_size
     );
 
-    p_cells_types.resize(p_grid->number_of_cells(), Type::Undefined);
+    p_cells_types.assign(p_grid->number_of_cells(), Type::Undefined);
+    p_triangles_of_cell.assign(p_grid->number_of_cells(), std::vector<Index>());
     p_cells.resize(p_grid->number_of_cells());
 
     // Initialize the full regular grid quadtree (resp. octree) with 0 subdivisions
-- 
2.43.0


From c076e95ccd58dce116cbea06baa4b4cba7996564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:24 +0000
Subject: [PATCH 29/48] fix: FictitiousGrid::get_type_at throws on a face
 between two cells of the same type

A position shared by several cells which are all inside (or all outside) was
reported as contained in cells of different types.
---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index fe6795b..2f1238a 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -1024,6 +1024,12 @@ auto FictitiousGrid<DataTypes>::get_type_at(const WorldCoordinates & p) const ->
         } else if((types & static_cast<INTEGER_TYPE>(Type::Inside)) and (types & static_cast<INTEGER_TYPE>(Type::Outside))) {
             // If one of the cells around p is of type inside, and another one is of type outside, return the type boundary
             return Type::Boundary;
+        } else if (types == static_cast<INTEGER_TYPE>(Type::Inside)) {
+            // All the cells around p are inside
+            return Type::Inside;
+        } else if (types == static_cast<INTEGER_TYPE>(Type::Outside)) {
+            // All the cells around p are outside
+            return Type::Outside;
         } else {
             // We cannot decide which type it is...this should never happen. Report it.
             std::ostringstream error;
-- 
2.43.0


From 32c779d6f0068debb77a1daf6a12c5a128c6eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:24 +0000
Subject: [PATCH 30/48] fix: FictitiousGrid leaves the cells inside and outside
 of a triangulated surface undefined

The type found for the regions was only stored in the leaf cells, hence
get_type_at() and cell_volume_ratio_distribution() knew nothing of the cells
that do not intersect the surface.
---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index 2f1238a..3329f02 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -564,6 +564,13 @@ FictitiousGrid<DataTypes>::tag_inside_cells()
             cell->data->type = Type::Inside;
         }
     }
+
+    // Every leaf cell now has a type, report it to the top-level cells that were not subdivided
+    for (std::size_t i = 0; i < p_cells.size(); ++i) {
+        if (p_cells[i].is_leaf()) {
+            p_cells_types[i] = p_cells[i].data->type;
+        }
+    }
     msg_info() << "Computing the inside regions types in " << std::setprecision(3)
                << TOCK / 1000. / 1000.
                << " [ms]";
-- 
2.43.0


From 8d33939ae1aa541ac5c013f7bd04b5d38f184149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:24 +0000
Subject: [PATCH 31/48] fix: IsoSurface::iso_value(Coord) does not compile and
 returns nothing

---
 src/SofaCaribou/Topology/IsoSurface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Topology/IsoSurface.h b/src/SofaCaribou/Topology/IsoSurface.h
index 5e5aca2..e09c7fb 100644
--- a/src/SofaCaribou/Topology/IsoSurface.h
+++ b/src/SofaCaribou/Topology/IsoSurface.h
@@ -22,8 +22,8 @@ public:
      * Get the iso value at the given world coordinates
      */
     inline Real iso_value(const Coord & x) const {
-        Eigen::Map<Eigen::Matrix<Real, Dimension, 1>> mapped_x(&x[0]);
-        iso_value(mapped_x);
+        Eigen::Map<const Eigen::Matrix<Real, Dimension, 1>> mapped_x(&x[0]);
+        return iso_value(Eigen::Matrix<Real, Dimension, 1>(mapped_x));
     };
 
     /*!
-- 
2.43.0


From 3893349fbd9a1d9f06291bac5ffd0df075aa0ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:19 +0000
Subject: [PATCH 32/48] fix: FictitiousGrid gives the weight of a 2D gauss node
 from the wrong subcell

The gauss nodes of a quad are numbered around the quad whereas its subcells are
numbered line by line: the third and fourth gauss nodes of a cell received the
volume of each other's subcell.
---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index 3329f02..a4a6073 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -979,7 +979,14 @@ FictitiousGrid<DataTypes>::get_gauss_nodes_of_cell(const CellIndex & sparse_cell
                     const auto & child_cells = *(c.childs);
                     for (UNSIGNED_INTEGER_TYPE i = 0; i < CellElement::NumberOfGaussNodesAtCompileTime; ++i) {
                         const auto gauss_node = e.gauss_node(i);
-                        const auto weight = CellElement::NumberOfGaussNodesAtCompileTime*get_cell_weight(child_cells[i]);
+                        // Find the subcell that contains this gauss node, they aren't numbered in the same order in 2D
+                        UNSIGNED_INTEGER_TYPE child_index = 0;
+                        for (UNSIGNED_INTEGER_TYPE axis = 0; axis < Dimension; ++axis) {
+                            if (gauss_node.position[axis] > 0) {
+                                child_index += static_cast<UNSIGNED_INTEGER_TYPE>(1) << axis;
+                            }
+                        }
+                        const auto weight = CellElement::NumberOfGaussNodesAtCompileTime*get_cell_weight(child_cells[child_index]);
                         gauss_nodes.emplace_back(LocalCoordinates(gauss_node.position), gauss_node.weight*weight);
                     }
                 } else {
-- 
2.43.0


From daa95272462e7d886b5d187a9a03eacc38958304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:02 +0000
Subject: [PATCH 33/48] fix: FictitiousGrid misplaces the gauss nodes of cells
 subdivided more than once

The children of a subcell were expressed in the frame of the top cell, and then
mapped once more through the subcell.
---
 src/SofaCaribou/Topology/FictitiousGrid.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Topology/FictitiousGrid.inl b/src/SofaCaribou/Topology/FictitiousGrid.inl
index a4a6073..f63688b 100644
--- a/src/SofaCaribou/Topology/FictitiousGrid.inl
+++ b/src/SofaCaribou/Topology/FictitiousGrid.inl
@@ -993,7 +993,8 @@ FictitiousGrid<DataTypes>::get_gauss_nodes_of_cell(const CellIndex & sparse_cell
                     const auto child_elements = get_subcells_elements(e);
                     const auto & child_cells = *(c.childs);
                     for (UNSIGNED_INTEGER_TYPE i = 0; i < child_cells.size(); ++i) {
-                        const auto child_gauss_nodes = ref(child_elements[i], child_cells[i], l+1, ref);
+                        // The positions are relative to the child, whatever its level
+                        const auto child_gauss_nodes = ref(e, child_cells[i], l+1, ref);
                         for (const auto & child_gauss_node : child_gauss_nodes) {
                             gauss_nodes.emplace_back(child_elements[i].world_coordinates(child_gauss_node.first), child_gauss_node.second);
                         }
-- 
2.43.0


From 26cee9560e714899a8c334741ad72e690daa0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:32 +0000
Subject: [PATCH 34/48] fix: computeBBox of the elastic forces: a new maximum
 hid the minimum

A node giving a new maximum was never considered as the minimum: with positions
in increasing order the minimum of the bounding box stayed at its initial value.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 2 +-
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 2a3633f..1994295 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -591,7 +591,7 @@ void HexahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool onl
         for (int c=0; c<3; c++)
         {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = (Real)x[i][c];
-            else if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
+            if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
         }
     }
 
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index 8a41dc0..74f36e1 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -363,7 +363,7 @@ void TetrahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool on
         for (int c=0; c<3; c++)
         {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = (Real)x[i][c];
-            else if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
+            if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
         }
     }
 
-- 
2.43.0


From 7697af568552d664ccecd43833645740355c8ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:32 +0000
Subject: [PATCH 35/48] fix: HexahedronElasticForce::reinit accumulates the
 quadrature nodes

Every call to reinit() appended the quadrature nodes to those of the previous
one, hence the stiffness was multiplied by the number of calls.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 1994295..727ba63 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -166,6 +166,7 @@ void HexahedronElasticForce::reinit()
         // 2. At this point, we have all the gauss points of the hexa and their corrected weight.
         //    We now compute constant values required by the simulation for each of them
         auto &hexa_quadrature_nodes = p_quadrature_nodes[hexa_id];
+        hexa_quadrature_nodes.clear();
         for (const auto &gauss_point : gauss_points) {
             // Jacobian of the gauss node's transformation mapping from the elementary space to the world space
             const auto J = hexa.jacobian(gauss_point.first);
-- 
2.43.0


From cb4cef56957051760a01991878123f482b9bbd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:32 +0000
Subject: [PATCH 36/48] fix: corotated elastic forces multiply local
 displacements by the stiffness of the global frame

The displacements of a corotated element are expressed in its local frame, but
its stiffness matrix was computed in the global one: unless the initial frame
of the element is aligned with the axes, the forces depended on the orientation
of the mesh. The current frame now starts at the initial one, and both are
reset by reinit().
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 9 +++++----
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 727ba63..3e54fd1 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -196,14 +196,15 @@ void HexahedronElasticForce::reinit()
 
     // Initialize the stiffness matrix of every hexahedrons
     p_stiffness_matrices.resize(topology->getNbHexahedra());
-    p_initial_rotation.resize(topology->getNbHexahedra(), Mat33::Identity());
-    p_current_rotation.resize(topology->getNbHexahedra(), Mat33::Identity());
+    p_initial_rotation.assign(topology->getNbHexahedra(), Mat33::Identity());
+    p_current_rotation.assign(topology->getNbHexahedra(), Mat33::Identity());
 
     // Initialize the initial frame of each hexahedron
     if (d_corotated.getValue()) {
         for (std::size_t hexa_id = 0; hexa_id < topology->getNbHexahedra(); ++hexa_id) {
             Hexahedron hexa = hexahedron(hexa_id, X);
             p_initial_rotation[hexa_id] = hexa.frame({0, 0, 0});
+            p_current_rotation[hexa_id] = p_initial_rotation[hexa_id];
         }
     }
 
@@ -444,8 +445,8 @@ void HexahedronElasticForce::compute_K()
             // Jacobian of the gauss node's transformation mapping from the elementary space to the world space
             const Real detJ = gauss_node.jacobian_determinant;
 
-            // Derivatives of the shape functions at the gauss node with respect to global coordinates x,y and z
-            const auto dN_dx = gauss_node.dN_dx;
+            // Derivatives of the shape functions at the gauss node with respect to the initial (local) frame of the hexahedron
+            const Matrix<NumberOfNodes, 3> dN_dx = gauss_node.dN_dx * p_initial_rotation[hexa_id];
 
             // Gauss quadrature node weight
             const auto w = gauss_node.weight;
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index 74f36e1..f2a4ae3 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -111,14 +111,15 @@ void TetrahedronElasticForce::reinit()
         }
     }
 
-    p_initial_rotation.resize(topology->getNbTetrahedra(), Rotation::Identity());
-    p_current_rotation.resize(topology->getNbTetrahedra(), Rotation::Identity());
+    p_initial_rotation.assign(topology->getNbTetrahedra(), Rotation::Identity());
+    p_current_rotation.assign(topology->getNbTetrahedra(), Rotation::Identity());
 
     // Initialize the initial frame of each tetrahedron
     if (d_corotated.getValue()) {
         for (std::size_t tetrahedron_id = 0; tetrahedron_id < topology->getNbTetrahedra(); ++tetrahedron_id) {
             Tetrahedron tetra = tetrahedron(tetrahedron_id, X);
             p_initial_rotation[tetrahedron_id] = tetra.frame();
+            p_current_rotation[tetrahedron_id] = p_initial_rotation[tetrahedron_id];
         }
     }
 
@@ -473,7 +474,8 @@ void TetrahedronElasticForce::compute_K()
 
         const auto & gauss_node = p_quadrature_nodes[element_id];
         const auto detJ = gauss_node.jacobian_determinant;
-        const auto dN_dx = gauss_node.dN_dx;
+        // Derivatives of the shape functions with respect to the initial (local) frame of the tetrahedron
+        const Matrix<NumberOfNodes, 3> dN_dx = gauss_node.dN_dx * p_initial_rotation[element_id];
         const auto w = gauss_node.weight;
 
         // Computation of the element tangent-stiffness matrix
-- 
2.43.0


From 79f0d0d944dd28aeb80d89580ad36a6187fa4f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:32 +0000
Subject: [PATCH 37/48] fix: HexahedronElasticForce::K() is not the tangent
 stiffness matrix

It was assembled from overlapping blocks of the element matrices, without the
blocks below the diagonal, and was not updated when the elements rotated.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 3e54fd1..539a870 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -250,8 +250,11 @@ void HexahedronElasticForce::addForce(
         Rotation & R = current_rotation[hexa_id];
 
         // Extract the hexahedron's frame
-        if (corotated)
+        if (corotated) {
             R = hexa.frame({0, 0, 0});
+            K_is_up_to_date = false;
+            eigenvalues_are_up_to_date = false;
+        }
 
         const Rotation Rt = R.transpose();
 
@@ -517,7 +520,7 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
                 // Blocks on the diagonal
                 for (Eigen::Index i = 0; i < NumberOfNodes; ++i) {
                     const auto x = static_cast<int>(node_indices[static_cast<sofa::Index>(i)]*3);
-                    const Mat33 Kii = -1 * R * Ke.block<3,3>(i,i) * Rt;
+                    const Mat33 Kii = -1 * R * Ke.block<3,3>(i*3,i*3) * Rt;
                     for (int m = 0; m < 3; ++m) {
                         for (int n = 0; n < 3; ++n) {
                             triplets.emplace_back(x+m, x+n, Kii(m,n));
@@ -531,11 +534,12 @@ const Eigen::SparseMatrix<HexahedronElasticForce::Real> & HexahedronElasticForce
                         const auto x = static_cast<int>(node_indices[i]*3);
                         const auto y = static_cast<int>(node_indices[j]*3);
 
-                        const Mat33 Kij = -1 * R * Ke.block<3,3>(i,j) * Rt;
+                        const Mat33 Kij = -1 * R * Ke.block<3,3>(i*3,j*3) * Rt;
 
                         for (int m = 0; m < 3; ++m) {
                             for (int n = 0; n < 3; ++n) {
                                 triplets.emplace_back(x+m, y+n, Kij(m,n));
+                                triplets.emplace_back(y+n, x+m, Kij(m,n));
                             }
                         }
                     }
-- 
2.43.0


From b29955a8ea3c3cb01e7f094859532523768b4843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:32 +0000
Subject: [PATCH 38/48] fix: addKToMatrix of the elastic forces reads matrices
 that were never computed

addForce() and addDForce() do nothing when the initialization failed, but
addKToMatrix() read the stiffness matrices out of bounds.
---
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 3 +++
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 539a870..7ef1373 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -356,6 +356,9 @@ void HexahedronElasticForce::addKToMatrix(sofa::defaulttype::BaseMatrix * matrix
     if (!topology)
         return;
 
+    if (p_stiffness_matrices.size() != topology->getNbHexahedra())
+        return;
+
     std::vector<Rotation> & current_rotation = p_current_rotation;
 
     sofa::helper::AdvancedTimer::stepBegin("HexahedronElasticForce::addKToMatrix");
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index f2a4ae3..429785e 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -292,6 +292,9 @@ void TetrahedronElasticForce::addKToMatrix(
     if (!topology)
         return;
 
+    if (p_stiffness_matrices.size() != topology->getNbTetrahedra())
+        return;
+
     std::vector<Rotation> & current_rotation = p_current_rotation;
 
     sofa::helper::AdvancedTimer::stepBegin("TetrahedronElasticForce::addKToMatrix");
-- 
2.43.0


From 05b86c98e9cae5ec7c986ae448d38fe4bbb4cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 39/48] fix: linear solvers reuse the symbolic analysis of
 another sparsity pattern

---
 src/SofaCaribou/Solver/EigenSolver.inl | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/SofaCaribou/Solver/EigenSolver.inl b/src/SofaCaribou/Solver/EigenSolver.inl
index 6632435..72d53d4 100644
--- a/src/SofaCaribou/Solver/EigenSolver.inl
+++ b/src/SofaCaribou/Solver/EigenSolver.inl
@@ -12,6 +12,8 @@ DISABLE_ALL_WARNINGS_BEGIN
 #include <SofaEigen2Solver/EigenVectorWrapper.h>
 DISABLE_ALL_WARNINGS_END
 
+#include <algorithm>
+
 #ifndef _WIN32
 #include <cxxabi.h>
 #define CARIBOU_HAS_CXXABI_H
@@ -123,12 +125,19 @@ void EigenSolver<EigenMatrix_t>::setSystemMBKMatrix(const sofa::core::Mechanical
     p_mechanical_params = *mparams;
 
     // Step 1. Assemble the system matrix
-    auto previous_dimension = p_A.rowSize();
+    const Matrix previous_matrix = p_A.matrix();
     p_accessor = assemble(mparams);
-    auto current_dimension = p_A.rowSize();
-
-    // Step 2. Let the solver analyse the matrix
-    bool matrix_shape_has_changed = previous_dimension != current_dimension;
+    const Matrix & current_matrix = p_A.matrix();
+
+    // Step 2. Let the solver analyse the matrix if its dimension or its sparsity pattern has changed
+    const bool matrix_shape_has_changed =
+        previous_matrix.rows()     != current_matrix.rows() or
+        previous_matrix.cols()     != current_matrix.cols() or
+        previous_matrix.nonZeros() != current_matrix.nonZeros() or
+        not std::equal(current_matrix.outerIndexPtr(), current_matrix.outerIndexPtr() + current_matrix.outerSize() + 1,
+                       previous_matrix.outerIndexPtr()) or
+        not std::equal(current_matrix.innerIndexPtr(), current_matrix.innerIndexPtr() + current_matrix.nonZeros(),
+                       previous_matrix.innerIndexPtr());
     if (matrix_shape_has_changed) {
         Timer::stepBegin("MatrixAnalysis");
         if (not this->analyze_pattern()) {
-- 
2.43.0


From 35e01e8ba382d06521fea906a6707d653a0f5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 40/48] fix: linear solvers write a solution back after a
 failed factorisation

---
 src/SofaCaribou/Solver/EigenSolver.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Solver/EigenSolver.inl b/src/SofaCaribou/Solver/EigenSolver.inl
index 72d53d4..9224c8a 100644
--- a/src/SofaCaribou/Solver/EigenSolver.inl
+++ b/src/SofaCaribou/Solver/EigenSolver.inl
@@ -204,7 +204,7 @@ void EigenSolver<EigenMatrix_t>::solveSystem() {
     sofa::simulation::common::MechanicalOperations mop( &p_mechanical_params, this->getContext() );
 
     Timer::stepBegin("EigenSolver::solve");
-    bool success = this->solve(&p_b, &p_x);
+    const bool success = p_A_is_factorized and this->solve(&p_b, &p_x);
     if (success) {
         // Copy the solution into the mechanical objects of the current context sub-graph.
         mop.baseVector2MultiVector(&p_x, p_x_id, &p_accessor);
-- 
2.43.0


From 0ec77dece6669027a0c619d22e13c724dc6293f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 41/48] fix: LUSolver asks SparseLU for a status it does not
 have yet

---
 src/SofaCaribou/Solver/LUSolver.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Solver/LUSolver.inl b/src/SofaCaribou/Solver/LUSolver.inl
index 77bb85d..88e25f2 100644
--- a/src/SofaCaribou/Solver/LUSolver.inl
+++ b/src/SofaCaribou/Solver/LUSolver.inl
@@ -54,7 +54,12 @@ bool LUSolver<EigenSolver_t>::analyze_pattern() {
 
     p_solver.analyzePattern(A_->matrix());
 
-    return (p_solver.info() == Eigen::Success);
+    if constexpr (solver_traits<EigenSolver_t>::is_eigen()) {
+        // Eigen::SparseLU has no status to report before its first factorization
+        return true;
+    } else {
+        return (p_solver.info() == Eigen::Success);
+    }
 }
 
 template<class EigenSolver_t>
-- 
2.43.0


From 24cf937055b564ed1bb776b97e1170756322fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 42/48] fix: preconditioned conjugate gradient reports failure
 on an already solved system

---
 src/SofaCaribou/Solver/ConjugateGradientSolver.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
index fe606d5..d94f43e 100644
--- a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
+++ b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
@@ -324,6 +324,7 @@ bool ConjugateGradientSolver<EigenMatrix_t>::solve(const Preconditioner & precon
     if (b_norm_2 < EPSILON) {
         msg_info() << "Right-hand side of the system is zero, hence x = 0.";
         x.setZero();
+        converged = true;
         goto end; // The goto is important to catch the last timer call before ending the function
     }
 
@@ -339,6 +340,7 @@ bool ConjugateGradientSolver<EigenMatrix_t>::solve(const Preconditioner & precon
     if (r_norm_2 < threshold) {
         msg_info() << "The linear system has already reached an equilibrium state";
         msg_info() << "|r|/|b| = " << sqrt(r_norm_2/b_norm_2) << ", threshold = " << residual_tolerance_threshold;
+        converged = true;
         goto end; // The goto is important to catch the last timer call before ending the function
     }
 
-- 
2.43.0


From b5f420be4ae83664a0218ce4b02eafca60fae3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 43/48] fix: conjugate gradient uses a preconditioner that was
 never analysed

---
 src/SofaCaribou/Solver/ConjugateGradientSolver.h   | 3 +++
 src/SofaCaribou/Solver/ConjugateGradientSolver.inl | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/SofaCaribou/Solver/ConjugateGradientSolver.h b/src/SofaCaribou/Solver/ConjugateGradientSolver.h
index 896f895..7bffd08 100644
--- a/src/SofaCaribou/Solver/ConjugateGradientSolver.h
+++ b/src/SofaCaribou/Solver/ConjugateGradientSolver.h
@@ -217,6 +217,9 @@ private:
     ///< Contains the list of available preconditioners with their respective identifier
     std::vector<std::pair<std::string, PreconditioningMethod>> p_preconditioners;
 
+    ///< The preconditioning method for which the pattern of the system matrix was last analyzed
+    PreconditioningMethod p_analyzed_preconditioning_method = PreconditioningMethod::None;
+
     ///< List of squared residual norms (||r||^2) of every CG iterations of the last solve call.
     std::vector<FLOATING_POINT_TYPE> p_squared_residuals;
 
diff --git a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
index d94f43e..ef92c62 100644
--- a/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
+++ b/src/SofaCaribou/Solver/ConjugateGradientSolver.inl
@@ -411,6 +411,8 @@ bool ConjugateGradientSolver<EigenMatrix_t>::analyze_pattern() {
     // Get the preconditioning method
     const PreconditioningMethod preconditioning_method = get_preconditioning_method_from_string(d_preconditioning_method.getValue().getSelectedItem());
 
+    p_analyzed_preconditioning_method = preconditioning_method;
+
     bool success = true;
     if (preconditioning_method == PreconditioningMethod::Identity || preconditioning_method == PreconditioningMethod::None) {
         p_identity.analyzePattern(A_->matrix());
@@ -441,6 +443,11 @@ bool ConjugateGradientSolver<EigenMatrix_t>::factorize() {
     // Get the preconditioning method
     const PreconditioningMethod preconditioning_method = get_preconditioning_method_from_string(d_preconditioning_method.getValue().getSelectedItem());
 
+    // The preconditioner may have been changed since the pattern was analyzed
+    if (preconditioning_method != p_analyzed_preconditioning_method and not this->analyze_pattern()) {
+        return false;
+    }
+
     bool success = true;
     if (preconditioning_method == PreconditioningMethod::Identity || preconditioning_method == PreconditioningMethod::None) {
         p_identity.factorize(A_->matrix());
-- 
2.43.0


From 9025faf6f6ce5b937196edd2e00fd68a82a6f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 44/48] fix: backward Euler does not start its Newton
 iterations from x + h v

---
 src/SofaCaribou/Ode/BackwardEulerODESolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
index f88bb70..e1a1a33 100644
--- a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
+++ b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
@@ -67,6 +67,10 @@ void BackwardEulerODESolver::solve(const sofa::core::ExecParams *params, SReal d
     vop.v_realloc(p_a_id, false /* interactionForceField */, true /* propagate [to mapped MO] */);
     vop.v_clear(p_a_id);
 
+    // The Newton iterations start with a null acceleration, hence from x = x_0 + h v_0 (and v = v_0)
+    vop.v_op(x_id, p_previous_x_id, p_previous_v_id, dt);
+    MechanicalPropagateOnlyPositionAndVelocityVisitor(&mechanical_parameters).execute(this->getContext());
+
     // Let the NR do its job
     NewtonRaphsonSolver::solve(params, dt, x_id, v_id);
 }
-- 
2.43.0


From e1edf2693b7143efbc36051bbf12cf944736d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 45/48] fix: backward Euler counts the forces of mapped nodes
 several times

---
 src/SofaCaribou/Ode/BackwardEulerODESolver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
index e1a1a33..de61992 100644
--- a/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
+++ b/src/SofaCaribou/Ode/BackwardEulerODESolver.cpp
@@ -8,6 +8,7 @@ DISABLE_ALL_WARNINGS_BEGIN
 #include <sofa/core/ObjectFactory.h>
 #include <sofa/core/behavior/ConstraintSolver.h>
 #include <sofa/helper/AdvancedTimer.h>
+#include <sofa/simulation/MechanicalOperations.h>
 #include <sofa/simulation/MechanicalVisitor.h>
 #include <sofa/simulation/VectorOperations.h>
 #if (defined(SOFA_VERSION) && SOFA_VERSION < 201299)
@@ -125,6 +126,10 @@ void BackwardEulerODESolver::assemble_rhs_vector(const MechanicalParams &    mec
     // If another damping term is computed, it should be in the B matrix.
     m_params.setBFactor(-1);
 
+    // The forces of the mapped nodes were already accumulated, and the mapped nodes need the product's operand
+    MechanicalResetForceVisitor(&mechanical_parameters, f_id, true /* onlyMapped */).execute(this->getContext());
+    common::MechanicalOperations(&mechanical_parameters, this->getContext()).propagateDx(p_previous_v_id);
+
     // Compute MBK [dv] and store the result in f_id
     MechanicalAddMBKdxVisitor(&m_params, f_id,
                               true /* Accumulate the contribution of mapped mo */ )
@@ -142,6 +147,10 @@ void BackwardEulerODESolver::assemble_rhs_vector(const MechanicalParams &    mec
     // If another damping term is computed, it should be in the B matrix.
     m_params.setBFactor(-h);
 
+    // Same as above
+    MechanicalResetForceVisitor(&mechanical_parameters, f_id, true /* onlyMapped */).execute(this->getContext());
+    common::MechanicalOperations(&mechanical_parameters, this->getContext()).propagateDx(p_a_id);
+
     // Compute MBK [dv] and store the result in f_id
     MechanicalAddMBKdxVisitor(&m_params, f_id,
                               true /* Accumulate the contribution of mapped mo */ )
-- 
2.43.0


From 8b0389b6fbe9288bb09339a254c12c7c30fcb49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:42 +0000
Subject: [PATCH 46/48] fix: do not dereference an unset topology link when
 several topologies are found

With more than one candidate in the node, CaribouForcefield::init() warns that the link has
to be set explicitly, leaves it unset, and then dereferenced it for its information message.
---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 53f33f1..8e3c81e 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -74,10 +74,10 @@ void CaribouForcefield<Element>::init() {
                 } else {
                     d_topology_container.set(sofa_compatible_containers[0]);
                 }
-            }
 
-            msg_info() << "Automatically found the topology '" << d_topology_container.get()->getPathName()
-                       << "'.";
+                msg_info() << "Automatically found the topology '" << d_topology_container.get()->getPathName()
+                           << "'.";
+            }
         }
     }
 
-- 
2.43.0


From 0285c1239dad05b2fc7e462bc48e9c811c619db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:42 +0000
Subject: [PATCH 47/48] fix: do not dereference a missing mechanical state when
 a force field is initialised

CaribouForcefield::init() only warns that no mechanical object was found; the traction and the
hyperelastic force fields went on and read its positions.
---
 src/SofaCaribou/Forcefield/HyperelasticForcefield.inl | 4 ++++
 src/SofaCaribou/Forcefield/TractionForcefield.inl     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/SofaCaribou/Forcefield/HyperelasticForcefield.inl b/src/SofaCaribou/Forcefield/HyperelasticForcefield.inl
index dd6f90d..b6d57cd 100644
--- a/src/SofaCaribou/Forcefield/HyperelasticForcefield.inl
+++ b/src/SofaCaribou/Forcefield/HyperelasticForcefield.inl
@@ -38,6 +38,10 @@ void HyperelasticForcefield<Element>::init()
     using sofa::core::objectmodel::BaseContext;
     Inherit::init();
 
+    // Without a mechanical state (see the warning of the base class), there is nothing to initialize
+    if (!this->mstate)
+        return;
+
     // No material set, try to find one in the current context
     if (not d_material.get()) {
         auto materials = this->getContext()->template getObjects<material::HyperelasticMaterial<DataTypes>>(BaseContext::Local);
diff --git a/src/SofaCaribou/Forcefield/TractionForcefield.inl b/src/SofaCaribou/Forcefield/TractionForcefield.inl
index eb12ffc..eed084b 100644
--- a/src/SofaCaribou/Forcefield/TractionForcefield.inl
+++ b/src/SofaCaribou/Forcefield/TractionForcefield.inl
@@ -51,6 +51,10 @@ void TractionForcefield<Element>::init()
 {
     Inherit::init();
 
+    // Without a mechanical state (see the warning of the base class), there is nothing to initialize
+    if (!this->mstate)
+        return;
+
     // Initialization from the data inputs
     // @todo(jnbrunet2000@gmail.com) : this part should be moved to a real data update function
     const auto rest_positions = this->getMState()->readRestPositions();
-- 
2.43.0


From 7566d2ffe00eba8f05168e5397e74255e2e29538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:33 +0000
Subject: [PATCH 48/48] fix: do not keep the elements of freed indices when a
 topology cannot be re-initialised

The domain of a CaribouTopology reads the buffer of its 'indices' data. When init() was called
again with indices or positions that are rejected, the old domain stayed and read memory that
was released or overwritten.
---
 src/SofaCaribou/Topology/CaribouTopology.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SofaCaribou/Topology/CaribouTopology.inl b/src/SofaCaribou/Topology/CaribouTopology.inl
index 6245683..f1b195a 100644
--- a/src/SofaCaribou/Topology/CaribouTopology.inl
+++ b/src/SofaCaribou/Topology/CaribouTopology.inl
@@ -44,6 +44,10 @@ template <typename Element>
 void CaribouTopology<Element>::initializeFromIndices() {
     using namespace sofa::helper;
 
+    // The elements of a previous initialization read the previous content of the indices data, do not keep them if the
+    // new content cannot be used
+    this->p_domain = nullptr;
+
     // Sanity checks
     auto indices = ReadAccessor<Data<sofa::type::vector<sofa::type::fixed_array<PointID, NumberOfNodes>>>>(d_indices);
     if (indices.empty()) {
-- 
2.43.0

