From 6840f8b788077f60b67d26d01aa98f2efcf6de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 01/14] fix: inner vertices of a fixed side are not part of the
 Neumann boundary

---
 src/tvemoves_rufbad/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 35c110b..f8a9962 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -544,8 +544,10 @@ class RectangleDomain(Domain):
                         neumann_edges.difference_update(left_boundary_edges)
         dirichlet_vertices = []
         neumann_vertices = []
+        # Inner vertices of a fixed side have tag 0 as well but belong to no Neumann edge.
+        neumann_edges_vertices = set(i for edge in neumann_edges for i in edge)
         for i, tag in boundary_vertices_tags.items():
-            if tag >= 0:
+            if i in neumann_edges_vertices:
                 neumann_vertices.append(i)
             if tag <= 0:
                 dirichlet_vertices.append(i)
-- 
2.43.0


From 1d65e14b6eae2407777bd7d6888cb7c565532ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 02/14] fix: check all three indices of a 3-d tensor

---
 src/tvemoves_rufbad/tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index c0d88ff..a8309e6 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -386,9 +386,9 @@ class Tensor3D:
         i, j, k = index
         if i < 0 or i >= self.shape[0]:
             raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
-        if i < 0 or i >= self.shape[0]:
+        if j < 0 or j >= self.shape[1]:
             raise IndexError(f"index {j} is out of bounds for axis 1 with size {self.shape[1]}")
-        if i < 0 or i >= self.shape[0]:
+        if k < 0 or k >= self.shape[2]:
             raise IndexError(f"index {k} is out of bounds for axis 2 with size {self.shape[2]}")
         return self.data[i][j][k]
 
-- 
2.43.0


From 2b5b81fce3ef40fecf34c55e6d6fc10036923135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 03/14] fix: reject scalar products of vectors of different
 sizes

---
 src/tvemoves_rufbad/tensors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index a8309e6..d4ffd51 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -70,6 +70,10 @@ class Vector:
 
     def dot(self, other: Vector):
         """Compute the scalar product with another vector."""
+        if self.size != other.size:
+            raise ValueError(
+                f"scalar product of vectors of sizes {self.size} and {other.size} is not defined"
+            )
         return sum(x * y for x, y in zip(self.data, other.data))
 
     def map(self, f: Callable) -> Vector:
-- 
2.43.0


From 44ca87e195a484810031e84051cf285c8fd6e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 04/14] fix: permute the coordinates along with the vertices of
 a fine triangle

---
 src/tvemoves_rufbad/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index f8a9962..3eb8237 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -344,16 +344,18 @@ class RefinedGrid(Grid):
     def to_coarse_barycentric_point(self, fine_point: BarycentricPoint) -> BarycentricPoint:
         """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
         fine_triangle = fine_point.triangle
+        p = fine_point.coordinates
         i1, i2, i3 = fine_triangle
         if (i1, i2, i3) not in self.triangles:
             if (i2, i3, i1) in self.triangles:
                 fine_triangle = (i2, i3, i1)
+                p = BarycentricCoordinates(p.l2, p.l3)
             elif (i3, i1, i2) in self.triangles:
                 fine_triangle = (i3, i1, i2)
+                p = BarycentricCoordinates(p.l3, p.l1)
             else:
                 raise ValueError("triangle does not appear in the grid")
         coarse_triangle = self._coarse_triangle[fine_triangle]
-        p = fine_point.coordinates
         q1, q2, q3 = self._coarse_barycentric_coordinates[fine_triangle]
         coarse_barycentric_coordinates = BarycentricCoordinates(
             p.l1 * q1.l1 + p.l2 * q2.l1 + p.l3 * q3.l1, p.l1 * q1.l2 + p.l2 * q2.l2 + p.l3 * q3.l2
-- 
2.43.0


From f31e97a2f91c6d2ce300a4729558c984ff64b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 05/14] fix: orient fine diagonal edges like the coarse
 diagonal they lie on

---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 3eb8237..55374d0 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -825,7 +825,7 @@ def _refine_equilateral_triangle(
             intermediate_grid.append_edge(
                 assure_orientation(
                     diagonal_edge_correct,
-                    (triangle_vertices[(k, l)], triangle_vertices[(k, l + 1)]),
+                    (triangle_vertices[(k, l + 1)], triangle_vertices[(k, l)]),
                 )
             )
 
-- 
2.43.0


From 3337b2fb4a2f5894e87224fb2ee5734edf97f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 06/14] fix: make the tolerance of the point location relative
 to the triangle size

---
 src/tvemoves_rufbad/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 55374d0..e271eb5 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -48,9 +48,9 @@ def _sign(triangle_vertices: TriangleVertices):
 
 def _triangle_contains_point(triangle_vertices: TriangleVertices, p: Vector) -> bool:
     """Determine if a point is contained in a triangle."""
-    eps = 1e-10
-
     p1, p2, p3 = triangle_vertices
+    eps = 1e-10 * abs(_sign(triangle_vertices))
+
     d1 = _sign((p, p1, p2))
     d2 = _sign((p, p2, p3))
     d3 = _sign((p, p3, p1))
-- 
2.43.0


From 92689353a06a755e25fb1f46eac063b0a941cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 07/14] fix: allow rounding errors of any scale when refining a
 refined grid

---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index e271eb5..3644613 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -700,7 +700,7 @@ def _refine_equilateral_triangle(
 
     i1, i2, i3 = triangle
     p1, p2, p3 = grid.triangle_vertices(triangle)
-    eps = 1e-15
+    eps = 1e-7 * abs(p2[0] - p1[0])
     assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
     assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"
 
-- 
2.43.0


From 4428659db572def703457ae9076e1731833a4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 08/14] fix: reject fps = 0

---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a7ab17d..6cfe32c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -182,7 +182,7 @@ class SimulationParams:
                 f"search radius must be positive but {self.search_radius} was provided"
             )
 
-        if self.fps < 0:
+        if self.fps <= 0:
             raise ValueError(f"fps must be positive but {self.fps} was provided")
 
         if self.regularization is not None and self.regularization < 0:
-- 
2.43.0


From 171024453bb607ce008eac402b8b39c6f0ad98e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 09/14] fix: missing factor 1/2 in the heat diffusion term of
 the thermal step

---
 src/tvemoves_rufbad/thermal_step.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/thermal_step.py b/src/tvemoves_rufbad/thermal_step.py
index 523e678..773fc12 100644
--- a/src/tvemoves_rufbad/thermal_step.py
+++ b/src/tvemoves_rufbad/thermal_step.py
@@ -79,7 +79,9 @@ class ThermalStepParams:
 
 def _energy_potential(fps: float):
     def energy_potential(prev_strain, strain, prev_temp, temp, temp_gradient):
-        diffusion = temp_gradient.dot(heat_conductivity_reference(prev_strain).dot(temp_gradient))
+        diffusion = (
+            temp_gradient.dot(heat_conductivity_reference(prev_strain).dot(temp_gradient)) / 2
+        )
 
         strain_rate = (strain - prev_strain) * fps
         heat_source_sink = (
-- 
2.43.0


From 8a35833efc610f341c9f1023e1f57d69471b7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 10/14] fix: do not lose a row of cells when the scale divides
 the side up to rounding

---
 src/tvemoves_rufbad/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 3644613..3008a37 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -425,8 +425,10 @@ class RectangleDomain(Domain):
         If `scale` does not evenly divide the width or height of the rectangle (only) the rightmost
         or uppermost edges of the grid might not align exactly with the rectangle boundary.
         """
-        num_horizontal_vertices = int(self.width / scale) + 1
-        num_vertical_vertices = int(self.height / scale) + 1
+        # The quotient can lie slightly below an integer if scale divides the side of the rectangle
+        eps = 1e-9
+        num_horizontal_vertices = int(self.width / scale + eps) + 1
+        num_vertical_vertices = int(self.height / scale + eps) + 1
 
         def pair_to_vertex(i, j):
             # left to right, bottom to top
-- 
2.43.0


From 0fd17f106de00146f56d9504b4753d24bc53e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 11/14] fix: compute the plot limits of regularized steps from
 positions only

---
 src/tvemoves_rufbad/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 6cfe32c..1af522c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -335,8 +335,10 @@ class Simulation:
     def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
         # Update variables required for plotting
         self._max_temp = max(self._max_temp, np.max(theta_data))
-        x_coords = y_data[:, 0]
-        y_coords = y_data[:, 1]
+        # In the regularized setting the position comes first among the C1 parameters of a vertex
+        positions = y_data if y_data.ndim == 2 else y_data[:, :, 0]
+        x_coords = positions[:, 0]
+        y_coords = positions[:, 1]
         self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
         self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
 
-- 
2.43.0


From b5c795f0bf3312f22401c6a8e7484fa1d232d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 12/14] fix: take the tolerance for coinciding points from the
 coarse grid when refining

---
 src/tvemoves_rufbad/domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 3008a37..bc1746e 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -652,6 +652,9 @@ class RectangleDomain(Domain):
             Boundary(deepcopy(grid.neumann_boundary.vertices), []),
             deepcopy(grid.points),
         )
+        # There are no edges yet, so take the tolerance for coinciding points from the coarse grid
+        if grid._mean_edge_length is not None:
+            intermediate_grid._mean_edge_length = grid._mean_edge_length / refinement_factor
 
         coarse_triangle: Dict[Triangle, Triangle] = {}
         coarse_barycentric_coordinates: _TriangleBarycentricCoords = {}
-- 
2.43.0


From f651ce9ccb424179798706b6a40c4be9a2d24120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 13/14] fix: do not let a duplicate make up for a missing edge
 or triangle when comparing grids

---
 src/tvemoves_rufbad/domain.py | 43 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index bc1746e..e5df9f0 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -242,24 +242,29 @@ class Grid(ABC):
             if self_vertex is None:
                 return False
             other_to_self_vertex[other_vertex] = self_vertex
+        if len(set(other_to_self_vertex.values())) != len(self.points):
+            return False
         # As things went well up to this point we can assume that other_to_self_vertex is set up.
 
+        other_edges = [
+            (other_to_self_vertex[i1], other_to_self_vertex[i2]) for (i1, i2) in other.edges
+        ]
         if len(self.edges) != len(other.edges):
             return False
-        if any(
-            not self._contains_edge((other_to_self_vertex[i1], other_to_self_vertex[i2]))
-            for (i1, i2) in other.edges
-        ):
+        if any(not self._contains_edge(edge) for edge in other_edges):
+            return False
+        if not _contains_all_edges(other_edges, self.edges):
             return False
 
+        other_triangles = [
+            (other_to_self_vertex[i1], other_to_self_vertex[i2], other_to_self_vertex[i3])
+            for (i1, i2, i3) in other.triangles
+        ]
         if len(self.triangles) != len(other.triangles):
             return False
-        if any(
-            not self._contains_triangle(
-                (other_to_self_vertex[i1], other_to_self_vertex[i2], other_to_self_vertex[i3])
-            )
-            for (i1, i2, i3) in other.triangles
-        ):
+        if any(not self._contains_triangle(triangle) for triangle in other_triangles):
+            return False
+        if not _contains_all_triangles(other_triangles, self.triangles):
             return False
 
         if (
@@ -295,7 +300,23 @@ def _boundaries_coincide(
     ):
         return False
 
-    return True
+    return _contains_all_edges(other_edges, boundary.edges)
+
+
+def _contains_all_edges(edges: list[Edge], other_edges: list[Edge]) -> bool:
+    """An edge that is listed twice must not make up for a missing one."""
+    directionless = set(frozenset(edge) for edge in edges)
+    return all(frozenset(edge) in directionless for edge in other_edges)
+
+
+def _contains_all_triangles(triangles: list[Triangle], other_triangles: list[Triangle]) -> bool:
+    """A triangle that is listed twice must not make up for a missing one."""
+    rotations = set(
+        rotation
+        for (i1, i2, i3) in triangles
+        for rotation in ((i1, i2, i3), (i2, i3, i1), (i3, i1, i2))
+    )
+    return all(triangle in rotations for triangle in other_triangles)
 
 
 _TriangleBarycentricCoords = Dict[
-- 
2.43.0


From 5a4bb2f9dbd340a086d19fae0ac29c1e2f75d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 14/14] fix: Grid.plot creates its own axes when none are given

---
 src/tvemoves_rufbad/domain.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index e5df9f0..259eec7 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -150,13 +150,12 @@ class Grid(ABC):
 
     def plot(self, ax):
         """Returns matplotlib plot of the grid."""
+        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
+        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
         if ax is None:
-            _, ax = fig_axis()
+            _, ax = fig_axis(new_xlim, new_ylim)
 
-        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
         _adjust_xlim(ax, new_xlim)
-
-        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
         _adjust_ylim(ax, new_ylim)
 
         self._plot_vertices(ax)
-- 
2.43.0

