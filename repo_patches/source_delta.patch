From a9298676e3a3355a7d46941720341f37af9452c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 01/67] fix: repeat line data along the right direction for
 transposed planes

---
 pvgridder/core/_helpers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 09cdff9..6d7ab92 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -210,13 +210,24 @@ def generate_surface_from_two_lines(
     mesh = pv.StructuredGrid(X, Y, Z)
 
     if isinstance(line_a, pv.PolyData):
+        # The line runs along the second direction in transposed planes
+        transposed = plane in {"yx", "zx", "zy"}
+
         reps = (perc.size, 1)
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.point_data[k] = (
+                np.repeat(v, perc.size, axis=0)
+                if transposed
+                else np.tile(v, reps[: v.ndim]).copy()
+            )
 
         reps = (perc.size - 1, 1)
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.cell_data[k] = (
+                np.repeat(v, perc.size - 1, axis=0)
+                if transposed
+                else np.tile(v, reps[: v.ndim]).copy()
+            )
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
-- 
2.43.0


From ca5d044c270abdbc2e8ac7605f890761705837f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:06 +0000
Subject: [PATCH 02/67] fix: refuse non-positive radius in RectangleSector

---
 pvgridder/core/geometric_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 417b7ef..f8d3efd 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -834,7 +834,7 @@ def RectangleSector(
         Rectangle mesh with sector removed at the center.
 
     """
-    if 0.0 < radius < (dx**2 + dy**2) ** 0.5:
+    if radius < (dx**2 + dy**2) ** 0.5:
         raise ValueError("invalid sector radius")
 
     line_x = generate_line_from_two_points([dx, dy], [0.0, dy], x_resolution, x_method)
-- 
2.43.0


From 2d5c0707ddfb5dc2816c93b3c5c735fed76d2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:06 +0000
Subject: [PATCH 03/67] fix: subdivide the arcs of SectorRectangle with
 theta_method

---
 pvgridder/core/geometric_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index f8d3efd..12cbfcb 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -1000,8 +1000,8 @@ def SectorRectangle(
     line_y = generate_line_from_two_points(
         [dx, dy], [dx, 0.0], theta_resolution, theta_method
     )
-    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution)
-    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution)
+    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution, theta_method)
+    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution, theta_method)
     mesh_y45 = StructuredSurface(line_45, line_y, "xy", r_resolution, r_method)
     mesh_x90 = StructuredSurface(line_90, line_x, "xy", r_resolution, r_method)
     mesh = mesh_y45.cast_to_unstructured_grid() + mesh_x90.cast_to_unstructured_grid()
-- 
2.43.0


From 6d6180ae1ac359f9b9b233059960d11288dd75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:49 +0000
Subject: [PATCH 04/67] fix: keep the shape of vector data when repeating
 structured data

---
 pvgridder/core/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 6d7ab92..edeec9b 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -544,9 +544,10 @@ def repeat_structured_data(
 
     """
     data = np.asanyarray(data)
-    data = data if data.ndim == 2 else data[:, np.newaxis]
+    ndim = data.ndim
+    data = data if ndim == 2 else data[:, np.newaxis]
 
-    return np.column_stack(
+    repeated_data = np.column_stack(
         [
             np.repeat(
                 v.reshape(shape, order="F"),
@@ -555,7 +556,9 @@ def repeat_structured_data(
             ).ravel(order="F")
             for v in data.T
         ]
-    ).squeeze()
+    )
+
+    return repeated_data if ndim == 2 else repeated_data.ravel()
 
 
 def translate(
-- 
2.43.0


From 87f5151b9679fb7f6f225f920c50c14022bff61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:49 +0000
Subject: [PATCH 05/67] fix: do not reverse the polygons of the input surface
 when extruding

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index edeec9b..af5b1ab 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -391,7 +391,7 @@ def generate_volume_from_two_surfaces(
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
         ):
-            cell = cell_connectivity[i1:i2]
+            cell = cell_connectivity[i1:i2].copy()
 
             # Handle pixel/voxel (convert to quad/hexahedron)
             if celltype == pv.CellType.VOXEL:
-- 
2.43.0


From 2214cacda3aed8ac968d9f4d90d792dd395d1692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:49 +0000
Subject: [PATCH 06/67] fix: hide exactly the collapsed cells of an
 unstructured volume

The relative tolerance flagged thin layers far from the origin, and only the
first subdivision was tested.
---
 pvgridder/core/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index af5b1ab..d04f7d0 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -401,7 +401,10 @@ def generate_volume_from_two_surfaces(
             faces = [cell, cell + n_points]
 
             # Handle collapsed cells
-            is_collapsed = np.allclose(*points[faces])
+            is_collapsed = [
+                np.allclose(*(points[face + i * n_points] for face in faces), rtol=0.0)
+                for i in range(n)
+            ]
 
             if celltype == pv.CellType.POLYHEDRON:
                 if invert_polyhedron_faces:
@@ -430,14 +433,14 @@ def generate_volume_from_two_surfaces(
                         [[face.size, *(face + (i * n_points))] for face in faces]
                     )
                     cells_ += [cell.size + 1, n_faces, *cell]
-                    inactive[i].append(is_collapsed)
+                    inactive[i].append(is_collapsed[i])
 
             else:
                 cell = np.concatenate(faces)
 
                 for i, cells_ in enumerate(cells):
                     cells_ += [cell.size, *(cell + (i * n_points))]
-                    inactive[i].append(is_collapsed)
+                    inactive[i].append(is_collapsed[i])
 
         cells = np.concatenate(cells)
         inactive = np.concatenate(inactive)
-- 
2.43.0


From 09b14edba2f7327c71a1231cd183169b2010d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:49 +0000
Subject: [PATCH 07/67] fix: orient extruded polyhedra with the normal of the
 whole base polygon

The first three points may be collinear or a reflex corner, and the first
column may be collapsed.
---
 pvgridder/core/_helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index d04f7d0..a6669ac 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -410,10 +410,10 @@ def generate_volume_from_two_surfaces(
                 if invert_polyhedron_faces:
                     # Polyhedron faces must be ordered such that normal vectors point outwards
                     # Determine whether base face needs to be reversed
-                    p0, p1, p2 = points[faces[0][:3]]
-                    p3 = points[faces[1][0]]
+                    p0, p1 = points[faces[0]], points_b[faces[0]]
+                    normal = np.cross(p0 - p0[0], np.roll(p0, -1, axis=0) - p0[0])
 
-                    if np.cross(p1 - p0, p2 - p0) @ (p3 - p0) >= 0.0:
+                    if normal.sum(axis=0) @ (p1 - p0).sum(axis=0) >= 0.0:
                         faces[0][:] = faces[0][::-1]
                         faces[1][:] = faces[1][::-1]
 
-- 
2.43.0


From d2493157bad2aa975cde98b98b0495fdf0e4e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:24 +0000
Subject: [PATCH 08/67] fix: hide exactly the collapsed cells of a structured
 volume

A pinched cell was hidden when its signed volume cancels out, and a collapsed
cell with non-planar faces could stay visible.
---
 pvgridder/core/_helpers.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index a6669ac..8a59e7e 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -353,6 +353,22 @@ def generate_volume_from_two_surfaces(
         ).cell_data["Volume"]
         inactive = np.abs(volumes) == 0.0
 
+        # The volume of a pinched cell may cancel out, and that of a collapsed cell may
+        # not vanish if its top and bottom are not planar
+        thickness = np.abs(np.diff([X, Y, Z], axis=axis + 1)).sum(axis=0)
+
+        for i in range(3):
+            if i != axis:
+                thickness = np.moveaxis(thickness, i, 0)
+                thickness = np.moveaxis(thickness[:-1] + thickness[1:], 0, i)
+
+        shape = [max(1, n - 1) for n in surface_a.dimensions]
+        areas = surface_a.compute_cell_sizes(
+            length=False, area=True, volume=False
+        ).cell_data["Area"]
+        inactive &= repeat_structured_data(shape, areas == 0.0, perc.size - 1, axis)
+        inactive |= thickness.ravel(order="F") == 0.0
+
         # Repeat data
         shape = surface_a.dimensions
         for k, v in surface_a.point_data.items():
-- 
2.43.0


From 32a8202530b32a194d6153206e82271aab189f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:24 +0000
Subject: [PATCH 09/67] fix: refuse surfaces with different numbers of cells

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 8a59e7e..e4912f5 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -384,7 +384,7 @@ def generate_volume_from_two_surfaces(
                 "could not generate volume from surfaces with unsupported cell types"
             )
 
-        if not np.allclose(surface_a.celltypes, surface_b.celltypes):
+        if not np.array_equal(surface_a.celltypes, surface_b.celltypes):
             raise ValueError(
                 "could not generate volume from two inhomogeneous unstructured surfaces"
             )
-- 
2.43.0


From 844a79aa0853517f0242edb86f89865de99d1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 10/67] fix: cut intersecting stack items by priority without
 inverting layers

A cut did not propagate to the items below, went the wrong way when stacking
top down, and altered the stored items so that generating again differed.
---
 pvgridder/core/_base.py | 50 ++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e2263ee..10614af 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -445,50 +445,48 @@ class MeshStackBase(MeshBase):
         groups = {}
 
         # Cut intersecting meshes w.r.t. priority
-        for item1, item2 in zip(self.items[:-1], self.items[1:]):
-            if item2.transition:
-                continue
+        items = self.items
+        cuts = [item.mesh.copy() for item in items]
+        sign = 1.0 if self.bottom_up else -1.0
+        order = sorted(
+            range(len(items)), key=lambda i: (items[i].priority, i), reverse=True
+        )
 
-            shift = (
-                item2.mesh.points[:, self.axis]
-                - item1.mesh.points[:, self.axis]
-                - item2.thickness
-            )
+        for n, i in enumerate(order):
+            z = sign * cuts[i].points[:, self.axis]
 
-            if not self.bottom_up:
-                shift *= -1.0
+            # Items with higher priority are already in place
+            for j in order[:n]:
+                between = items[min(i, j) + 1 : max(i, j) + 1]
 
-            if item2.priority < item1.priority:
-                item2.mesh.points[:, self.axis] = np.where(  # type: ignore
-                    shift < 0.0,
-                    item2.mesh.points[:, self.axis] - shift,
-                    item2.mesh.points[:, self.axis],
-                )
+                if any(item.transition for item in between):
+                    continue
 
-            else:
-                item1.mesh.points[:, self.axis] = np.where(  # type: ignore
-                    shift < 0.0,
-                    item1.mesh.points[:, self.axis] + shift,
-                    item1.mesh.points[:, self.axis],
-                )
+                z_ = sign * cuts[j].points[:, self.axis]
+                gap = sum(item.thickness for item in between)
+                z = np.minimum(z, z_ - gap) if i < j else np.maximum(z, z_ + gap)
+
+            cuts[i].points[:, self.axis] = sign * z  # type: ignore
 
         # Generate submeshes
         meshes = []
         n_layers = 0
 
-        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
-            mesh_a = item1.mesh.copy()
+        for i, (mesh_a, mesh_c, item2) in enumerate(
+            zip(cuts[:-1], cuts[1:], items[1:])
+        ):
+            mesh_a = mesh_a.copy()
             mesh_a.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_a, groups, item2.group
             )
 
             if item2.transition:
-                mesh_b = self._transition(mesh_a, item2.mesh, groups, item2.group)
+                mesh_b = self._transition(mesh_a, mesh_c, groups, item2.group)
                 nsub, repeats = 1, mesh_b.n_cells
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
 
             else:
-                mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
+                mesh_b = extrude(mesh_a, mesh_c, item2.resolution, item2.method)
                 nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
                 mesh_b.cell_data["ColumnId"] = np.tile(
                     np.arange(mesh_a.n_cells), nsub
-- 
2.43.0


From 94b350b10b72930c112383b7cff4453461df7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 11/67] fix: column and layer ids of structured grids stacked
 along the first axes

---
 pvgridder/core/_base.py   | 11 +++++------
 pvgridder/core/extrude.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 10614af..48c3a03 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -486,15 +486,14 @@ class MeshStackBase(MeshBase):
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
 
             else:
+                mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
                 mesh_b = extrude(mesh_a, mesh_c, item2.resolution, item2.method)
                 nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
-                mesh_b.cell_data["ColumnId"] = np.tile(
-                    np.arange(mesh_a.n_cells), nsub
-                ).copy()
 
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, repeats
-            ).copy()
+            # Cells of a column are ordered by layer
+            order = np.argsort(mesh_b.cell_data["ColumnId"], kind="stable")
+            layer_ids = np.tile(np.arange(nsub) + n_layers, repeats)
+            mesh_b.cell_data["LayerId"] = layer_ids[np.argsort(order)]
             mesh_b.cell_data["StackItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index b95a752..372376f 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -175,17 +175,16 @@ class MeshExtrude(MeshBase):
                 mesh_a, groups, item2.group
             )
 
+            mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
             mesh_b = generate_volume_from_two_surfaces(
                 mesh_a, item2.mesh, item2.resolution, item2.method
             )
 
+            # Cells of a column are ordered by layer
             nsub = mesh_b.n_cells // mesh_a.n_cells
-            mesh_b.cell_data["ColumnId"] = np.tile(
-                np.arange(mesh_a.n_cells), nsub
-            ).copy()
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, mesh_a.n_cells
-            ).copy()
+            order = np.argsort(mesh_b.cell_data["ColumnId"], kind="stable")
+            layer_ids = np.tile(np.arange(nsub) + n_layers, mesh_a.n_cells)
+            mesh_b.cell_data["LayerId"] = layer_ids[np.argsort(order)]
             mesh_b.cell_data["ExtrudeItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
-- 
2.43.0


From 45281824abbcf9eb7f545b2dc10c476a16a1bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 12/67] fix: invert the indices returned by a group function

---
 pvgridder/core/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 48c3a03..e56000e 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -153,9 +153,9 @@ class MeshBase(ABC):
 
             for k, v in group.items():
                 if hasattr(v, "__call__"):
-                    mask = v(mesh)
+                    v = v(mesh)
 
-                elif isinstance(v, str):
+                if isinstance(v, str):
                     mask = (
                         mesh.cell_data["CellGroup"] != groups[v[1:]]
                         if v.startswith("~")
-- 
2.43.0


From 60119746d48465516ff1da46a23dbde73cada3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 13/67] fix: look up selected group names in the table of the
 base mesh

---
 pvgridder/core/_base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e56000e..3e0bc89 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -151,15 +151,21 @@ class MeshBase(ABC):
             if isinstance(group, str):
                 group = {group: np.ones(size, dtype=bool)}
 
+            base_groups = (
+                mesh.user_dict.get("CellGroup", {})
+                if "CellGroup" in mesh.cell_data
+                else {}
+            )
+
             for k, v in group.items():
                 if hasattr(v, "__call__"):
                     v = v(mesh)
 
                 if isinstance(v, str):
                     mask = (
-                        mesh.cell_data["CellGroup"] != groups[v[1:]]
+                        mesh.cell_data["CellGroup"] != base_groups[v[1:]]
                         if v.startswith("~")
-                        else mesh.cell_data["CellGroup"] == groups[v]
+                        else mesh.cell_data["CellGroup"] == base_groups[v]
                     )
 
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
@@ -169,9 +175,9 @@ class MeshBase(ABC):
 
                     for cid in v:
                         mask |= (
-                            mesh.cell_data["CellGroup"] != groups[cid[1:]]
+                            mesh.cell_data["CellGroup"] != base_groups[cid[1:]]
                             if cid.startswith("~")
-                            else mesh.cell_data["CellGroup"] == groups[cid]
+                            else mesh.cell_data["CellGroup"] == base_groups[cid]
                         )
 
                 else:
-- 
2.43.0


From 3397f9d374e8c1b1bad4ff9f9b3b6bbdb45e5e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 14/67] fix: interpolate stack items from lines given in any
 direction

---
 pvgridder/core/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 3e0bc89..a704c4f 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -551,10 +551,11 @@ class MeshStackBase(MeshBase):
         else:
             idx = idx[0]
             x = mesh.points[:, idx]
+            points = points[np.argsort(points[:, idx])]
             xp = points[:, idx]
 
             if (
-                not (xp[0] <= x[0] <= xp[-1] and xp[0] <= x[-1] <= xp[-1])
+                not (xp[0] <= x.min() and x.max() <= xp[-1])
                 and not extrapolation
             ):
                 raise ValueError(
-- 
2.43.0


From dfea2d94b849b3479326ecb769f14ea629cbb1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 15/67] fix: do not alter the angles given to add_plane

---
 pvgridder/core/stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index e5d1d9f..64b01fc 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -207,7 +207,7 @@ class MeshStack3D(MeshStackBase):
         """
         from scipy.spatial.transform import Rotation
 
-        angles = np.asanyarray(angles)
+        angles = np.array(angles)
         point = np.asanyarray(point)
 
         angles[self.axis] = 0.0
-- 
2.43.0


From cccea7e1ce93309e69d85749585f192dd21a5475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:27 +0000
Subject: [PATCH 16/67] fix: keep the groups of the added meshes when merging
 again

---
 pvgridder/core/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 7a55487..aed03dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -92,7 +92,7 @@ class MeshMerge(MeshBase):
         groups = {}
 
         for i, item in enumerate(self.items):
-            mesh_b = cast(pv.UnstructuredGrid, item.mesh)
+            mesh_b = cast(pv.UnstructuredGrid, item.mesh.copy())
             mesh_b.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_b, groups, default_group=item.group
             )
-- 
2.43.0


From 6d99340d252d208e994f035215a28ca6aa780d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:59 +0000
Subject: [PATCH 17/67] fix: keep vector cell data when merging structured
 grids

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a60381..16abcc6 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -970,11 +970,13 @@ def merge(
                     {
                         k: np.concatenate(
                             (
-                                v.reshape(shape_a, order="F"),
-                                mesh_b.cell_data[k].reshape(shape_b, order="F"),
+                                v.reshape((*shape_a, *v.shape[1:]), order="F"),
+                                mesh_b.cell_data[k].reshape(
+                                    (*shape_b, *v.shape[1:]), order="F"
+                                ),
                             ),
                             axis=axis,
-                        ).ravel(order="F")
+                        ).reshape((-1, *v.shape[1:]), order="F")
                         for k, v in mesh_a.cell_data.items()
                         if k in mesh_b.cell_data
                     }
-- 
2.43.0


From c40671c68143eea9f850594312bcaeeaa7faaf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:59 +0000
Subject: [PATCH 18/67] fix: merge a mesh with field data into one without

---
 pvgridder/utils/_misc.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 16abcc6..4078737 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -985,7 +985,21 @@ def merge(
             mesh_a = mesh
 
     else:
-        mesh = pv.merge(dataset, merge_points=merge_points)
+        # Field arrays must be in the first mesh
+        meshes = []
+
+        for mesh in dataset:
+            keys = set(mesh.field_data).difference(dataset[0].field_data)
+
+            if keys:
+                mesh = mesh.copy()
+
+                for key in keys:
+                    mesh.field_data.pop(key)
+
+            meshes.append(mesh)
+
+        mesh = pv.merge(meshes, merge_points=merge_points)
 
     return mesh
 
-- 
2.43.0


From 43a27627a4bbde313ae5f3b451c89596398f9a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:01 +0000
Subject: [PATCH 19/67] fix: hidden cells of unstructured meshes still owned
 faces in extract_cell_geometry

---
 pvgridder/utils/_misc.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4078737..3c02730 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -365,6 +365,16 @@ def extract_cell_geometry(
     celltypes = mesh.celltypes
     connectivity = get_cell_connectivity(mesh)
 
+    if "vtkGhostType" in mesh.cell_data:
+        # Hidden cells have no geometry
+        celltypes = np.where(
+            mesh.cell_data["vtkGhostType"] & 32, pv.CellType.EMPTY_CELL, celltypes
+        )
+        connectivity = [
+            [] if celltype == pv.CellType.EMPTY_CELL else cell
+            for cell, celltype in zip(connectivity, celltypes)
+        ]
+
     if ndim in {1, 2}:
         supported_celltypes = {
             pv.CellType.EMPTY_CELL,
-- 
2.43.0


From 98e4ad96bd5c0903e9c05da48824a0bdea449994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:01 +0000
Subject: [PATCH 20/67] fix: extract_cell_geometry listed an owner twice or
 lost the only owner when collapsed faces are dropped

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 3c02730..e973c21 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -331,7 +331,9 @@ def extract_cell_geometry(
 
                 try:
                     idx = cell_map[cell_set]
-                    cell_ids[idx].append(i)
+
+                    if cell_ids[idx][-1] != i:
+                        cell_ids[idx].append(i)
 
                 except KeyError:
                     idx = len(cell_map)
@@ -422,7 +424,7 @@ def extract_cell_geometry(
             if not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, (tmp != -1).any(axis=0)]
 
                 poly = pv.PolyData(poly.points, lines=lines)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
@@ -482,7 +484,7 @@ def extract_cell_geometry(
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, (tmp != -1).any(axis=0)]
 
                 poly = pv.PolyData().from_irregular_faces(poly.points, faces)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
-- 
2.43.0


From dec8c34dd2257d10002a0727ec1ccc3ff764adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:01 +0000
Subject: [PATCH 21/67] fix: extract_cell_geometry raised on meshes without any
 visible cell

---
 pvgridder/utils/_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index e973c21..999041c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -343,7 +343,7 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
-        tmp = -np.ones((len(cell_ids), len(max(cell_ids, key=len))), dtype=int)
+        tmp = -np.ones((len(cell_ids), max(map(len, cell_ids), default=1)), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
 
@@ -431,7 +431,7 @@ def extract_cell_geometry(
 
     else:
         # Generate face data
-        if np.ptp(celltypes) == 0:
+        if np.ptp(celltypes) == 0 and celltypes[0] != pv.CellType.EMPTY_CELL:
             celltype = celltypes[0]
             cell_faces = (
                 [
-- 
2.43.0


From 6d7d6212710a19a098a9f14b691d40d197abe271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:01 +0000
Subject: [PATCH 22/67] fix: get_neighborhood and get_connectivity raised
 unless faces have exactly two owner columns

---
 pvgridder/utils/_connectivity.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index f368aea..ffbc6e8 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from itertools import combinations
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -37,10 +38,7 @@ def get_neighborhood(
     neighbors = [[] for _ in range(mesh.n_cells)]
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
 
-    for i1, i2 in mesh["vtkOriginalCellIds"]:
-        if i1 == -1 or i2 == -1:
-            continue
-
+    for i1, i2 in _get_connected_pairs(mesh):
         neighbors[i1].append(i2)
         neighbors[i2].append(i1)
 
@@ -82,7 +80,16 @@ def get_connectivity(
         )
 
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
-    lines = [(i1, i2) for i1, i2 in mesh["vtkOriginalCellIds"] if i1 != -1 and i2 != -1]
-    lines = np.column_stack((np.full(len(lines), 2), lines)).ravel()
+    lines = [(2, i1, i2) for i1, i2 in _get_connected_pairs(mesh)]
+    lines = np.array(lines, dtype=int).ravel()
 
     return pv.PolyData(cell_centers, lines=lines)
+
+
+def _get_connected_pairs(mesh: pv.PolyData) -> list[tuple[int, int]]:
+    """Get pairs of cells that share a face or an edge (any number of owners)."""
+    owners = np.reshape(mesh.cell_data["vtkOriginalCellIds"], (mesh.n_cells, -1))
+
+    return [
+        pair for ids in owners for pair in combinations(ids[ids != -1].tolist(), 2)
+    ]
-- 
2.43.0


From 5d03efbda8546c763be7467ad824d52c26842909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:36 +0000
Subject: [PATCH 23/67] fix: extract_cell_geometry raised when no face is left

---
 pvgridder/utils/_connectivity.py |  3 +++
 pvgridder/utils/_misc.py         | 25 ++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index ffbc6e8..bc55081 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -88,6 +88,9 @@ def get_connectivity(
 
 def _get_connected_pairs(mesh: pv.PolyData) -> list[tuple[int, int]]:
     """Get pairs of cells that share a face or an edge (any number of owners)."""
+    if not mesh.n_cells:
+        return []
+
     owners = np.reshape(mesh.cell_data["vtkOriginalCellIds"], (mesh.n_cells, -1))
 
     return [
diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 999041c..c160ff1 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -313,6 +313,12 @@ def extract_cell_geometry(
 
     """
 
+    def get_empty_polydata(points: ArrayLike) -> pv.PolyData:
+        poly = pv.PolyData()
+        poly.points = points
+
+        return poly
+
     def get_polydata_from_points_cells(
         points: ArrayLike,
         cells: Sequence[NDArray] | Sequence[Sequence[int]] | Sequence[Any],
@@ -343,7 +349,10 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
-        tmp = -np.ones((len(cell_ids), max(map(len, cell_ids), default=1)), dtype=int)
+        if not cell_ids:
+            return get_empty_polydata(points)
+
+        tmp = -np.ones((len(cell_ids), len(max(cell_ids, key=len))), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
 
@@ -415,13 +424,16 @@ def extract_cell_geometry(
         poly = get_polydata_from_points_cells(mesh.points, cell_edges, "lines")
 
         # Handle collapsed cells
-        if remove_ghost_cells:
+        if remove_ghost_cells and poly.n_cells:
             lengths = poly.compute_cell_sizes(
                 length=True, area=False, volume=False
             ).cell_data["Length"]
             mask = np.abs(lengths) > 0.0
 
-            if not mask.all():
+            if not mask.any():
+                poly = get_empty_polydata(poly.points)
+
+            elif not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
                 tmp = tmp[:, (tmp != -1).any(axis=0)]
@@ -473,13 +485,16 @@ def extract_cell_geometry(
         poly = get_polydata_from_points_cells(mesh.points, cell_faces, "faces")
 
         # Handle collapsed cells
-        if remove_ghost_cells:
+        if remove_ghost_cells and poly.n_cells:
             areas = poly.compute_cell_sizes(
                 length=False, area=True, volume=False
             ).cell_data["Area"]
             mask = np.abs(areas) > 0.0
 
-            if not mask.all():
+            if not mask.any():
+                poly = get_empty_polydata(poly.points)
+
+            elif not mask.all():
                 faces = [
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
-- 
2.43.0


From b094771b71d4981aaf8d6890be81af6b56960a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:58 +0000
Subject: [PATCH 24/67] fix: dimension of convex point sets is 3

---
 pvgridder/utils/_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index e602057..eb718c4 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -315,7 +315,7 @@ _dimension_map = np.array(
         -1,
         -1,
         -1,
-        0,  # CONVEX_POINT_SET
+        3,  # CONVEX_POINT_SET
         3,  # POLYHEDRON
         -1,
         -1,
-- 
2.43.0


From a1fe5ef9076c933fd420c993e481f564872896d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:15 +0000
Subject: [PATCH 25/67] fix: cell connectivity of meshes with empty cells only

---
 pvgridder/utils/_properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index eb718c4..382356f 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -62,6 +62,9 @@ def get_cell_connectivity(
     # Generate cells
     cells: list[NDArray | list[NDArray]] = list(_get_irregular_cells(mesh.GetCells()))
 
+    if not cells:
+        cells = [np.empty(0, dtype=int) for _ in range(mesh.n_cells)]
+
     # Generate polyhedral cell faces if any
     if (mesh.celltypes == pv.CellType.POLYHEDRON).any():
         faces = _get_irregular_cells(mesh.GetPolyhedronFaces())
-- 
2.43.0


From ded31e31f340ef3071cc25bb817da30a99e7e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:26 +0000
Subject: [PATCH 26/67] fix: extract_cells_by_dimension with method 'lower'
 kept empty cells

---
 pvgridder/utils/_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c160ff1..88edc30 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -598,8 +598,8 @@ def extract_cells_by_dimension(
     else:
         raise ValueError(f"invalid method '{method}' (expected 'lower' or 'upper')")
 
-    if keep_empty_cells:
-        mask |= mesh.celltypes == pv.CellType.EMPTY_CELL
+    is_empty = mesh.celltypes == pv.CellType.EMPTY_CELL
+    mask = mask | is_empty if keep_empty_cells else mask & ~is_empty
 
     if not mask.all():
         mesh = extract_cells(mesh, mask)
-- 
2.43.0


From 06ebd9aeea138a2fa6763ff345f1d157bda2575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:20 +0000
Subject: [PATCH 27/67] fix: extract_cells raised on an empty selection of a
 mesh with hidden cells

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 88edc30..6842861 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -544,7 +544,7 @@ def extract_cells(
     try:
         cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
 
-        if ghost_cells is not None:
+        if ghost_cells is not None and cells.n_cells:
             cells.cell_data["vtkGhostType"] = ghost_cells[
                 cells.cell_data["vtkOriginalCellIds"]
             ]
-- 
2.43.0


From 1bb28080c33c7aa499b1ec571593ba1a0a4a2570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 28/67] fix: boundary loops with pinch points were left open

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 6842861..9c0e293 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -238,7 +238,7 @@ def extract_boundary_polygons(
             )
         )
 
-    edges = edges.strip(max_length=mesh.n_points)
+    edges = edges.strip(max_length=edges.lines.size)
     edges = cast(pv.PolyData, edges)
 
     if edges.n_lines == 0:
-- 
2.43.0


From 3415b3dc5ed5c790b2f2ff6259d8e4a62d1f73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 29/67] fix: split boundary polylines at pinch points into
 simple loops

---
 pvgridder/utils/_misc.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 9c0e293..fbc32cb 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -222,6 +222,28 @@ def extract_boundary_polygons(
 
     from .. import Polygon
 
+    def split_loops(edge: pv.PolyData) -> list[pv.PolyData]:
+        # Split polyline at points visited more than once
+        ids = edge.lines[1:].tolist()
+
+        if len(set(ids[:-1])) == len(ids) - 1:
+            return [edge]
+
+        loops, path = [], []
+
+        for i in ids:
+            if i in path:
+                k = path.index(i)
+                loops.append(pv.MultipleLines(edge.points[[*path[k:], i]]))
+                path = path[:k]
+
+            path.append(i)
+
+        if len(path) > 1:
+            loops.append(pv.MultipleLines(edge.points[path]))
+
+        return [cast(pv.PolyData, loop.merge_points()) for loop in loops]
+
     if isinstance(mesh, pv.PolyData) and mesh.n_faces_strict == 0 and mesh.n_lines > 0:
         edges = mesh
 
@@ -245,8 +267,9 @@ def extract_boundary_polygons(
         return None
 
     edges = [
-        cast(pv.PolyData, edge.merge_points())
+        loop
         for edge in split_lines(edges, as_lines=False)
+        for loop in split_loops(cast(pv.PolyData, edge.merge_points()))
     ]
 
     # Identify holes
-- 
2.43.0


From 9bb6b49b3262101beb5b0b56d16cf3b6b1ccc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 30/67] fix: holes were not detected outside of the xy plane

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index fbc32cb..c5dc299 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -275,7 +275,8 @@ def extract_boundary_polygons(
     # Identify holes
     if with_holes:
         holes = {}
-        polygons = [shapely.Polygon(edge.points) for edge in edges]
+        axes = np.sort(np.argsort(np.ptp(mesh.points, axis=0))[1:])
+        polygons = [shapely.Polygon(edge.points[:, axes]) for edge in edges]
 
         for i, j in itertools.permutations(range(len(polygons)), 2):
             if i in holes or j in holes:
-- 
2.43.0


From ac1c4ea08f266a13fdad26784ace083f8be3f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 31/67] fix: islands within holes were grouped as holes

---
 pvgridder/utils/_misc.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c5dc299..42f0880 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import itertools
 from collections.abc import Sequence
 from typing import TYPE_CHECKING, cast, overload
 
@@ -234,15 +233,23 @@ def extract_boundary_polygons(
         for i in ids:
             if i in path:
                 k = path.index(i)
-                loops.append(pv.MultipleLines(edge.points[[*path[k:], i]]))
+                loops.append([*path[k:], i])
                 path = path[:k]
 
             path.append(i)
 
         if len(path) > 1:
-            loops.append(pv.MultipleLines(edge.points[path]))
-
-        return [cast(pv.PolyData, loop.merge_points()) for loop in loops]
+            loops.append(path)
+
+        return [
+            cast(
+                pv.PolyData,
+                pv.PolyData(
+                    edge.points[loop], lines=[len(loop), *range(len(loop))]
+                ).merge_points(),
+            )
+            for loop in loops
+        ]
 
     if isinstance(mesh, pv.PolyData) and mesh.n_faces_strict == 0 and mesh.n_lines > 0:
         edges = mesh
@@ -278,14 +285,16 @@ def extract_boundary_polygons(
         axes = np.sort(np.argsort(np.ptp(mesh.points, axis=0))[1:])
         polygons = [shapely.Polygon(edge.points[:, axes]) for edge in edges]
 
-        for i, j in itertools.permutations(range(len(polygons)), 2):
-            if i in holes or j in holes:
-                continue
+        for j, polygon in enumerate(polygons):
+            parents = [
+                i
+                for i, parent in enumerate(polygons)
+                if parent.area > polygon.area and parent.contains(polygon)
+            ]
 
-            if polygons[i].area > polygons[j].area and polygons[i].contains(
-                polygons[j]
-            ):
-                holes[j] = i
+            # A polygon within a hole is not a hole
+            if len(parents) % 2:
+                holes[j] = min(parents, key=lambda i: polygons[i].area)
 
         # Group boundary edges and holes
         polygons = [[edge] if i not in holes else [] for i, edge in enumerate(edges)]
-- 
2.43.0


From 04944655dd0319d6956553ffbd5717010d5a0dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:08 +0000
Subject: [PATCH 32/67] fix: extract_boundary_polygons lost the precision of
 coordinates

---
 pvgridder/utils/_misc.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 42f0880..f3f4408 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -255,18 +255,21 @@ def extract_boundary_polygons(
         edges = mesh
 
     else:
-        edges = (
-            mesh.cast_to_unstructured_grid()
-            .clean()
-            .extract_feature_edges(
-                boundary_edges=True,
-                non_manifold_edges=False,
-                feature_edges=False,
-                manifold_edges=False,
-                clear_data=True,
-            )
+        surface = mesh.cast_to_unstructured_grid().clean()
+        points = surface.points.copy()
+        surface.points = points - points.mean(axis=0)
+        surface.point_data["vtkOriginalPointIds"] = np.arange(surface.n_points)
+        edges = surface.extract_feature_edges(
+            boundary_edges=True,
+            non_manifold_edges=False,
+            feature_edges=False,
+            manifold_edges=False,
         )
 
+        # Feature edges are extracted in single precision
+        edges.points = points[edges.point_data["vtkOriginalPointIds"]]
+        edges.clear_data()
+
     edges = edges.strip(max_length=edges.lines.size)
     edges = cast(pv.PolyData, edges)
 
-- 
2.43.0


From 0ed1dc37caf50c65bec655557df41c6ff45d6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:32 +0000
Subject: [PATCH 33/67] fix: split_lines lost the precision of coordinates

---
 pvgridder/utils/_misc.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index f3f4408..ee1d253 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1522,13 +1522,12 @@ def split_lines(mesh: pv.PolyData, as_lines: bool = True) -> Sequence[pv.PolyDat
     """
     from pyvista.core.cell import _get_irregular_cells
 
-    mesh = cast(
-        pv.PolyData,
-        mesh.extract_cells_by_type((pv.CellType.LINE, pv.CellType.POLY_LINE)),
-    )
     lines = []
 
-    for i, line_ids in enumerate(_get_irregular_cells(mesh.GetLines())):
+    # Cells of a polydata are ordered by type (vertices first)
+    for i, line_ids in enumerate(
+        _get_irregular_cells(mesh.GetLines()), start=mesh.n_verts
+    ):
         lines_ = (
             np.insert(
                 np.column_stack(
-- 
2.43.0


From 1e56123e5bda9d2a7b1d31326f9d073d7cede380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:16 +0000
Subject: [PATCH 34/67] fix: remap_categorical_data dropped the labels of
 values that are not mapped

---
 pvgridder/utils/_misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ee1d253..d91458a 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1461,7 +1461,7 @@ def remap_categorical_data(
 
     remapped_data = data.copy()
     data_labels_map = {v: k for k, v in data_labels.items()}
-    unused_labels = set(list(data_labels))
+    unused_labels = {k for k, v in data_labels.items() if v not in data}
 
     for k, v in mapping.items():
         if isinstance(k, str):
@@ -1482,7 +1482,6 @@ def remap_categorical_data(
             try:
                 key_ = k if isinstance(k, str) else data_labels_map[vid]
                 data_labels[key_] = v
-                unused_labels.remove(key_)
 
             except KeyError:
                 pass
-- 
2.43.0


From 17e7d5ded9b42c0b0d273d5f37d4faaeea6f39f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:11 +0000
Subject: [PATCH 35/67] fix: average_points left the duplicate points of point
 clouds

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index d91458a..0fc1f54 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -87,7 +87,7 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
         ]
 
     else:
-        new_mesh = pv.PolyData(new_points)
+        new_mesh = pv.PolyData(new_points[np.unique(point_map)])
 
     if mesh.n_lines:
         raise NotImplementedError()
-- 
2.43.0


From 2beaa5f96469840f0b96fafd4374275abb5a13c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:11 +0000
Subject: [PATCH 36/67] fix: average_points raised if all faces collapse and
 kept faces with two distinct points

---
 pvgridder/utils/_misc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 0fc1f54..4112ff2 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -80,11 +80,15 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
         irregular_faces = [
             decimate(point_map[face], close=True) for face in mesh.irregular_faces
         ]
-        faces = [face for face in irregular_faces if face.size > 2]
-        new_mesh = pv.PolyData().from_irregular_faces(new_points, faces)
-        new_mesh.cell_data["vtkOriginalCellIds"] = [
-            i for i, face in enumerate(irregular_faces) if face.size > 2
-        ]
+        ids = [i for i, face in enumerate(irregular_faces) if np.unique(face).size > 2]
+
+        if not ids:
+            return pv.PolyData()
+
+        new_mesh = pv.PolyData().from_irregular_faces(
+            new_points, [irregular_faces[i] for i in ids]
+        )
+        new_mesh.cell_data["vtkOriginalCellIds"] = ids
 
     else:
         new_mesh = pv.PolyData(new_points[np.unique(point_map)])
-- 
2.43.0


From 3cd4bc3c56945243ae4f41d7e3417952250e7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:11 +0000
Subject: [PATCH 37/67] fix: reconstruct_line never considered to swap the last
 two points

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4112ff2..0a23937 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1386,7 +1386,7 @@ def reconstruct_line(
     while True:
         best_length = shortest_length
 
-        for first in range(1, n - 2):
+        for first in range(1, n - 1):
             for last in range(first + 2, n + 1):
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
-- 
2.43.0


From 054124ce9e40fad9003af457edc5bfa72c8f621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:11 +0000
Subject: [PATCH 38/67] fix: reconstruct_line only accepted polydata

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 0a23937..4a0dfdb 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1361,7 +1361,7 @@ def reconstruct_line(
         Reconstructed line.
 
     """
-    if isinstance(mesh_or_points, pv.PolyData):
+    if isinstance(mesh_or_points, pv.DataSet):
         points = mesh_or_points.points
 
     else:
-- 
2.43.0


From 3d9fb21608b153c3fab7970c98dac59451491c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:28 +0000
Subject: [PATCH 39/67] fix: reconstruct_line never ended if all points
 coincide

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a0dfdb..dd70437 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1400,7 +1400,7 @@ def reconstruct_line(
                         path[first:last]
                     )  # reset path to current shortest path
 
-        if shortest_length > (1.0 - tolerance) * best_length:
+        if shortest_length >= (1.0 - tolerance) * best_length:
             break
 
     points = points[shortest_path]
-- 
2.43.0


From 3afa3265c75f55c74ad95ebde28bbe1df209ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:28 +0000
Subject: [PATCH 40/67] fix: reconstruct_line could stop early after an
 insignificant improvement

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index dd70437..0551cc4 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1391,7 +1391,7 @@ def reconstruct_line(
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
 
-                if length < shortest_length:
+                if length < (1.0 - tolerance) * shortest_length:
                     shortest_path[:] = path
                     shortest_length = length
 
-- 
2.43.0


From 435c7f66364f1347356718bb27cd6853391674ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:35 +0000
Subject: [PATCH 41/67] fix: offset_polygon moved polygons to coordinate 0 of
 their plane

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 0551cc4..c0791e4 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1234,7 +1234,8 @@ def offset_polygon(
         points = points[1:-1] + dist[:, np.newaxis] * vb[:, [1, 0]]
 
         faces += [len(points), *(np.arange(len(points)) + len(points_))]
-        points_ += np.insert(points, axis, 0.0, axis=1).tolist()
+        height = mesh.points[face[0], axis]
+        points_ += np.insert(points, axis, height, axis=1).tolist()
 
     return pv.PolyData(points_, faces=faces)
 
-- 
2.43.0


From f1567120a2ac010c217b405729de343b2844599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:20 +0000
Subject: [PATCH 42/67] fix: offset_polygon counted the closing edge twice,
 moving polygons the wrong way

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c0791e4..c93ab19 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1217,7 +1217,7 @@ def offset_polygon(
             ),
         )
 
-        x, y = points.T
+        x, y = (points[1:] - points[0]).T
         signed_area = (x[:-1] * y[1:] - x[1:] * y[:-1]).sum()
 
         vn = points[2:] - points[1:-1]
-- 
2.43.0


From edbae1fa70cfeba0372e024f66d92f3bab44fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:03 +0000
Subject: [PATCH 43/67] fix: intersect_polyline lost the cells in which a
 polyline starts or ends

---
 pvgridder/utils/_misc.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c93ab19..81a3a75 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -811,6 +811,10 @@ def intersect_polyline(
             ids = mesh.find_cells_intersecting_line(pointa, pointb, tolerance=tolerance)
 
             if ids.size == 0:
+                # Line may be fully contained in a cell
+                ids = np.atleast_1d(mesh.find_containing_cell(pointa))
+
+            if -1 in ids:
                 add_point(pointb, lid, -1)
                 continue
 
@@ -822,6 +826,11 @@ def intersect_polyline(
             cid = ids[id_]
             cell = extract_cells(mesh, cid)
 
+            # Line starts inside the mesh
+            if cell.find_containing_cell(pointa) > -1:
+                count = len(points) - 1
+                mesh_entered = True
+
         if not mesh_exited:
             while True:
                 # Find cell edges or faces intersected by the line
@@ -854,16 +863,14 @@ def intersect_polyline(
                                 -1,
                             )
 
-                            if count > 1:
-                                break
-
                         else:
                             add_point(
                                 intersections.cell_data["IntersectionPoints"][0],
                                 lid,
                                 int(cid),
                             )
-                            break
+
+                        break
 
                     fid = 0
 
@@ -934,6 +941,10 @@ def intersect_polyline(
 
             add_point(pointb, lid, -1)
 
+    # Line ends inside the mesh
+    if mesh_entered and not mesh_exited:
+        add_point(lines.points[-1], lid, int(cid))
+
     if ignore_points_before_entry:
         points = points[count:]
         line_ids = line_ids[count:]
-- 
2.43.0


From 67561af8e41d4d554579d70c10c75cccecf250fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:03 +0000
Subject: [PATCH 44/67] fix: intersect_polyline raised IndexError for the data
 of a polyline made of one cell

---
 pvgridder/utils/_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 81a3a75..90f4543 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -961,7 +961,9 @@ def intersect_polyline(
             if k in polyline.cell_data:
                 continue
 
-            polyline.cell_data[k] = v[line_ids]
+            polyline.cell_data[k] = (
+                v[line_ids] if line.n_cells > 1 else v[np.zeros_like(line_ids)]
+            )
 
     return cast(pv.PolyData, polyline.translate(center))
 
-- 
2.43.0


From 7a9ba554bd64c5e07161510bf580200f14f5cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:03 +0000
Subject: [PATCH 45/67] fix: intersect_polyline lost the precision of
 coordinates

---
 pvgridder/utils/_misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 90f4543..9395a18 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -950,7 +950,10 @@ def intersect_polyline(
         line_ids = line_ids[count:]
         cell_ids = cell_ids[count:]
 
-    polyline = split_lines(pv.MultipleLines(points))[0].compute_cell_sizes(
+    polyline = pv.PolyData(
+        np.array(points, dtype=float), lines=[len(points), *range(len(points))]
+    )
+    polyline = split_lines(polyline)[0].compute_cell_sizes(
         length=True, area=False, volume=False
     )
     polyline.cell_data["vtkOriginalCellIds"] = line_ids
-- 
2.43.0


From 5fe46c9ae56114bc1f20895db3eaed8c3175ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:03 +0000
Subject: [PATCH 46/67] fix: intersect_polyline did not always start from the
 first cell crossed

---
 pvgridder/utils/_misc.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 9395a18..ea43e5c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -802,6 +802,18 @@ def intersect_polyline(
                 line_ids.append(line_id)
                 cell_ids.append(cell_id)
 
+    def clip_line(cell: pv.DataSet) -> NDArray:
+        """Get center of the part of the current line inside a cell."""
+        intersections = ray_cast(cell, pointa, pointb, tolerance=tolerance)
+        clip = [] if intersections is None else [*intersections["IntersectionPoints"]]
+        clip += [p for p in (pointa, pointb) if cell.find_containing_cell(p) > -1]
+
+        # Cells that are only touched come last
+        if not clip or np.ptp(clip, axis=0).max() < min_length:
+            return pointb
+
+        return np.mean(clip, axis=0)
+
     cell_geometry = extract_cell_geometry(mesh, remove_ghost_cells=True)
     tree = KDTree(get_cell_centers(cell_geometry))
 
@@ -819,11 +831,11 @@ def intersect_polyline(
                 continue
 
             ids = np.sort(ids)
-            id_ = np.linalg.norm(
-                get_cell_centers(extract_cells(mesh, ids)) - pointa,
-                axis=-1,
-            ).argmin()
-            cid = ids[id_]
+            dist = [
+                np.linalg.norm(clip_line(extract_cells(mesh, id_)) - pointa)
+                for id_ in ids
+            ]
+            cid = ids[np.argmin(dist)]
             cell = extract_cells(mesh, cid)
 
             # Line starts inside the mesh
-- 
2.43.0


From 7893d3e0ebb18188a2ae84071f3d7912a30b09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:35 +0000
Subject: [PATCH 47/67] fix: ray_cast missed faces normal to the ray because of
 rounding

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ea43e5c..6c807d0 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1329,7 +1329,7 @@ def ray_cast(
         normals = mesh.compute_normals(
             cell_normals=True, point_normals=False
         ).cell_data["Normals"]
-        angles = np.rad2deg(np.arccos(np.abs(normals[ids] @ dvec)))
+        angles = np.rad2deg(np.arccos(np.clip(np.abs(normals[ids] @ dvec), 0.0, 1.0)))
         ids = ids[angles < max_angle]
 
         if ids.size == 0:
-- 
2.43.0


From a264989411cfb12549778d27e4d3cd47fce7368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:47 +0000
Subject: [PATCH 48/67] fix: intersect_polyline raised TypeError for meshes
 whose cells share no face

---
 pvgridder/utils/_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 6c807d0..41d2b9a 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -927,12 +927,12 @@ def intersect_polyline(
 
                 # Determine the exit cell
                 _, id_ = tree.query(exit_face.center)
-                cells = cell_geometry.cell_data["vtkOriginalCellIds"][id_]
+                cells = np.atleast_1d(cell_geometry.cell_data["vtkOriginalCellIds"][id_])
 
                 if cid not in cells:
                     raise ValueError("could not determine exit cell")
 
-                if -1 in cells:
+                if -1 in cells or cells.size == 1:
                     if not ignore_points_after_exit:
                         add_point(pointb, lid, -1)
 
-- 
2.43.0


From 8d7de2cdd9dc945a163ebc13b9d2fbadcf7f13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:47 +0000
Subject: [PATCH 49/67] fix: interactive_lasso_selection compared x and y
 whatever the view

---
 pvgridder/utils/_interactive.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index 6827312..19fda65 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -145,23 +145,10 @@ def interactive_lasso_selection(
     p.show()
 
     # Select cells or points within the lasso polygon
-    if "x" not in view_:
-        points_ = np.delete(points.points, 0, axis=1)
-
-    elif "y" not in view_:
-        points_ = np.delete(points.points, 1, axis=1)
-
-    else:
-        points_ = np.delete(points.points, 2, axis=1)
-
-    polygon_ = Polygon(points_)
-
-    if preference == "cell":
-        centers = get_cell_centers(mesh)
-        mask = contains_xy(polygon_, centers)
-
-    else:
-        mask = contains_xy(polygon_, mesh.points)
+    axis = 0 if "x" not in view_ else 1 if "y" not in view_ else 2
+    polygon_ = Polygon(np.delete(points.points, axis, axis=1))
+    xyz = get_cell_centers(mesh) if preference == "cell" else mesh.points
+    mask = contains_xy(polygon_, np.delete(xyz, axis, axis=1))
 
     ind = np.flatnonzero(mask)
 
-- 
2.43.0


From 3ef8047eeb6cee79e664c2ae8904261189948a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:47 +0000
Subject: [PATCH 50/67] fix: interactive_selection returned floats if nothing
 is selected

---
 pvgridder/utils/_interactive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index 19fda65..6c10be8 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -254,4 +254,4 @@ def interactive_selection(
 
     p.show()
 
-    return np.array(list(actors))
+    return np.array(list(actors), dtype=int)
-- 
2.43.0


From 060849c7b4fead59986c3cfee65345a585888159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 51/67] fix: Voronoi cells were oriented by their first three
 points seen from the origin

---
 pvgridder/core/voronoi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ff031ec..7983318 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -474,7 +474,7 @@ class VoronoiMesh2D(MeshBase):
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
             # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_[:3])
+            signed_area = self._compute_signed_area(points_)
 
             if (orientation == "CCW" and signed_area < 0.0) or (
                 orientation == "CW" and signed_area > 0.0
@@ -509,9 +509,9 @@ class VoronoiMesh2D(MeshBase):
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
         """Compute signed area of a polygon given its vertices."""
-        x, y = points.T
+        x, y = (points - points[:1]).T
 
-        return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
+        return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
 
     def _generate_voronoi_tesselation(
         self,
-- 
2.43.0


From 83ac9d70d0bd1957f3bd54768f67fbe36d283e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 52/67] fix: Voronoi items entirely outside the background mesh
 were not left out

---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 7983318..e09a3f0 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -386,9 +386,11 @@ class VoronoiMesh2D(MeshBase):
             mask = self.mesh.find_containing_cell(get_cell_centers(mesh_a)) != -1
             mask = cast(NDArray, mask)
 
-            if mask.any():
-                mesh_a = extract_cells(mesh_a, mask)
-                points_ = points_[mask]
+            if not mask.any():
+                continue
+
+            mesh_a = extract_cells(mesh_a, mask)
+            points_ = points_[mask]
 
             # Initialize item arrays
             item_group_array = self._initialize_group_array(mesh_a, groups, item.group)
-- 
2.43.0


From 2282392ce0ecf5e36abf1990ac2979a2be96bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:44 +0000
Subject: [PATCH 53/67] fix: RegularLine and CurvedLine rounded points to
 single precision

---
 pvgridder/core/_helpers.py          |  7 +++++++
 pvgridder/core/geometric_objects.py | 10 +++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index e4912f5..8cb8738 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -108,6 +108,13 @@ def generate_line_from_two_points(
     return mesh
 
 
+def generate_polyline(points: ArrayLike) -> pv.PolyData:
+    """Generate a polyline in double precision."""
+    points = np.asanyarray(points, dtype=float)
+
+    return pv.PolyData(points, lines=[len(points), *range(len(points))])
+
+
 def generate_surface_from_two_lines(
     line_a: pv.PolyData | ArrayLike,
     line_b: pv.PolyData | ArrayLike,
diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 12cbfcb..6bc3c53 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -9,6 +9,7 @@ from pyrequire import require_package
 from ._helpers import (
     generate_arc,
     generate_line_from_two_points,
+    generate_polyline,
     generate_surface_from_two_lines,
     generate_volume_from_two_surfaces,
     translate,
@@ -253,10 +254,7 @@ def CurvedLine(
         vec /= np.linalg.norm(vec)
         points.append(points[-1] + dl * vec)
 
-    mesh = pv.MultipleLines(np.asanyarray(points))
-    mesh.clear_data()
-
-    return mesh
+    return generate_polyline(points)
 
 
 def CylindricalShell(
@@ -877,10 +875,8 @@ def RegularLine(points: ArrayLike, resolution: Optional[int] = None) -> pv.PolyD
     ).cumsum()
     x = np.linspace(0.0, xp.max(), resolution + 1)
     points = np.column_stack([np.interp(x, xp, fp) for fp in points.T])
-    mesh = pv.MultipleLines(points)
-    mesh.clear_data()
 
-    return mesh
+    return generate_polyline(points)
 
 
 def Sector(
-- 
2.43.0


From 0d1ff4b90b42c20bc179b504ddc77438a85ae1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 54/67] fix: VoronoiMesh2D.add_polyline rounded coordinates to
 single precision and refused 2D ones

---
 pvgridder/core/voronoi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index e09a3f0..6c6cd16 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -9,7 +9,11 @@ from pyrequire import require_package
 from scipy.spatial import Voronoi
 
 from ._base import MeshBase, MeshItem
-from ._helpers import generate_surface_from_two_lines, resolution_to_perc
+from ._helpers import (
+    generate_polyline,
+    generate_surface_from_two_lines,
+    resolution_to_perc,
+)
 
 
 if TYPE_CHECKING:
@@ -230,7 +234,7 @@ class VoronoiMesh2D(MeshBase):
         from .. import extract_cells, split_lines
 
         if not isinstance(mesh_or_points, pv.PolyData):
-            mesh = pv.MultipleLines(np.asanyarray(mesh_or_points))
+            mesh = generate_polyline(self._check_point_array(mesh_or_points))
 
         else:
             mesh = mesh_or_points.copy()
-- 
2.43.0


From 5fbc24f7bcca197484d7a7ec76614e92f4bccbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:44 +0000
Subject: [PATCH 55/67] fix: VoronoiMesh2D.add_circle collapsed circles unless
 the discarded axis is z, and plain ones with a center out of the plane raised

---
 pvgridder/core/voronoi.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 6c6cd16..c84b91f 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -148,10 +148,18 @@ class VoronoiMesh2D(MeshBase):
             constraint_radius if constraint_radius is not None else 1.5 * radius
         )
         dr = constraint_radius - radius
+        center = np.zeros(2) if center is None else np.asanyarray(center)
+        center = np.delete(center, self.axis) if len(center) == 3 else center
+
+        def to_plane(mesh: pv.DataSet) -> pv.DataSet:
+            """Move a mesh in the XY plane to the plane of the background mesh."""
+            mesh.points = np.insert(mesh.points[:, :2], self.axis, 0.0, axis=1)
+
+            return mesh
 
         if dr > 0.0:
             self.add(
-                (
+                to_plane(
                     MeshMerge()
                     .add(Circle(radius - dr, resolution, center=center))
                     .add(Annulus(radius - dr, radius, 1, resolution, center=center))
@@ -161,13 +169,13 @@ class VoronoiMesh2D(MeshBase):
                 group=group,
             )
             self.add(
-                Annulus(radius, radius + dr, 1, resolution, center=center),
+                to_plane(Annulus(radius, radius + dr, 1, resolution, center=center)),
                 priority=0,
             )
 
         elif dr == 0.0:
             self.add(
-                Circle(radius, resolution, center=center),
+                to_plane(Circle(radius, resolution, center=center)),
                 priority=priority,
                 group=group,
             )
@@ -176,8 +184,7 @@ class VoronoiMesh2D(MeshBase):
             raise ValueError("invalid constraint radius")
 
         if plain:
-            center = np.zeros(3) if center is None else np.asanyarray(center)
-            center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
+            center = np.insert(center, self.axis, 0.0)
             self.fuse_cells.append(
                 lambda x: np.linalg.norm(x - center, axis=1) < radius
             )
-- 
2.43.0


From c790dfb94a4758e81e68b3db9d68dc8dea8c662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:35 +0000
Subject: [PATCH 56/67] fix: circles added to a Voronoi mesh without group got
 'default' instead of the default group

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index c84b91f..47c5f95 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -160,7 +160,7 @@ class VoronoiMesh2D(MeshBase):
         if dr > 0.0:
             self.add(
                 to_plane(
-                    MeshMerge()
+                    MeshMerge(self.default_group)
                     .add(Circle(radius - dr, resolution, center=center))
                     .add(Annulus(radius - dr, radius, 1, resolution, center=center))
                     .generate_mesh()
-- 
2.43.0


From 9e760f9de05cc17680b7df69d0272098879a43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:42 +0000
Subject: [PATCH 57/67] fix: Voronoi cells of almost collinear generators
 extended to the wrong side or were refused as invalid polygons

---
 pvgridder/core/voronoi.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 47c5f95..8fbce0a 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -542,21 +542,28 @@ class VoronoiMesh2D(MeshBase):
         """
         voronoi = Voronoi(points, qhull_options=qhull_options)
 
+        # Vertices of almost collinear points cannot be located, they are at infinity
+        center = voronoi.points.mean(axis=0)
+        distance = np.linalg.norm(voronoi.vertices - center, axis=1)
+        far = distance > 1.0e6 * np.ptp(voronoi.points, axis=0).max()
+        index = np.append(np.where(far, -1, np.arange(len(far))), -1)
+
         # Construct a map containing all ridges for a given point
         ridges = {}
 
-        for (p1, p2), (v1, v2) in zip(voronoi.ridge_points, voronoi.ridge_vertices):
+        for (p1, p2), (v1, v2) in zip(
+            voronoi.ridge_points, index[voronoi.ridge_vertices]
+        ):
             ridges.setdefault(p1, []).append((p2, v1, v2))
             ridges.setdefault(p2, []).append((p1, v1, v2))
 
         # Reconstruct infinite regions
-        center = voronoi.points.mean(axis=0)
         radius = infinity if infinity else np.ptp(self.mesh.points).max() * 1.0e3
         new_vertices = voronoi.vertices.tolist()
         new_regions = []
 
         for p1, region in enumerate(voronoi.point_region):
-            vertices = voronoi.regions[region]
+            vertices = index[voronoi.regions[region]].tolist()
 
             if -1 not in vertices:
                 new_regions.append(vertices)
@@ -569,7 +576,7 @@ class VoronoiMesh2D(MeshBase):
                     if v2 < 0:
                         v1, v2 = v2, v1
 
-                    if v1 >= 0:
+                    if v1 >= 0 or v2 < 0:
                         continue
 
                     t = voronoi.points[p2] - voronoi.points[p1]
-- 
2.43.0


From 391d89866b5b0d8a9eae4f05acdfee803e10ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:03 +0000
Subject: [PATCH 58/67] fix: plain circles of Voronoi meshes also fused cells
 out of the circle whose center is between its chords and its arc

---
 pvgridder/core/voronoi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 8fbce0a..4caabee 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -184,9 +184,9 @@ class VoronoiMesh2D(MeshBase):
             raise ValueError("invalid constraint radius")
 
         if plain:
-            center = np.insert(center, self.axis, 0.0)
+            circle = to_plane(Circle(radius, resolution, center=center))
             self.fuse_cells.append(
-                lambda x: np.linalg.norm(x - center, axis=1) < radius
+                lambda x: np.atleast_1d(circle.find_containing_cell(x)) != -1
             )
 
         return self
-- 
2.43.0


From c0a7bd2a3deb6afb04bcce0a9403de83e4ee630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:13 +0000
Subject: [PATCH 59/67] fix: VoronoiMesh2D.add does not flatten the given point
 array in place

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 4caabee..a0a54db 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -90,7 +90,7 @@ class VoronoiMesh2D(MeshBase):
         """
         if not isinstance(mesh_or_points, pv.DataSet):
             mesh_or_points = self._check_point_array(mesh_or_points)
-            mesh = pv.PolyData(mesh_or_points)
+            mesh = pv.PolyData(mesh_or_points.copy())
 
         else:
             mesh = mesh_or_points.copy()
-- 
2.43.0


From 4088bf713b14a00e8e66641320fc26e261c0628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:13 +0000
Subject: [PATCH 60/67] fix: MeshExtrude keeps its own copy of the base mesh

---
 pvgridder/core/extrude.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index 372376f..bc5c719 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -63,6 +63,7 @@ class MeshExtrude(MeshBase):
         if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
             mesh = mesh.cast_to_structured_grid()
 
+        mesh = mesh.copy()
         super().__init__(default_group, ignore_groups, items=[MeshItem(mesh)])
         self._mesh = mesh
         self._angle = angle
-- 
2.43.0


From a23da576bb0a9479610e0e9776e02c4446760e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:13 +0000
Subject: [PATCH 61/67] fix: MeshMerge.add keeps its own copy of the mesh

---
 pvgridder/core/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index aed03dd..63f63dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -59,7 +59,7 @@ class MeshMerge(MeshBase):
             Self (for daisy chaining).
 
         """
-        mesh = mesh.cast_to_unstructured_grid()
+        mesh = mesh.copy().cast_to_unstructured_grid()
 
         # Check for existing user_dict
         if "_PYVISTA_USER_DICT" not in mesh.field_data:
-- 
2.43.0


From fd04eb236b9db52f0bc795b63e3d0ce917ca3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 62/67] fix: keep lines of more than 1000 segments whole in
 structured surfaces

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 8cb8738..c0a5b0b 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -155,7 +155,7 @@ def generate_surface_from_two_lines(
         if isinstance(line, pv.PolyData):
             # Use the first continuous polyline if available
             if line.n_lines:
-                lines = line.strip(join=True).lines
+                lines = line.strip(join=True, max_length=line.lines.size).lines
                 ids = lines[1 : lines[0] + 1]
 
             # Use the first polygon otherwise
-- 
2.43.0


From 56cd70a0579a920eb79d6c6e20e6bd095c861d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 63/67] fix: intersect all segments of polylines with more than
 1000 segments

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 41d2b9a..ec2a23e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -777,7 +777,7 @@ def intersect_polyline(
     """
     from .. import get_cell_centers
 
-    line_ = cast(pv.PolyData, line.strip())
+    line_ = cast(pv.PolyData, line.strip(max_length=line.lines.size))
     lines = split_lines(line_, as_lines=True)[0]
 
     # Recenter coordinates around zero to prevent accuracy issues
-- 
2.43.0


From b760ab6921e0379e237e27ffbc48909df93e112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:10 +0000
Subject: [PATCH 64/67] fix: keep hidden flags when merging with meshes that
 have none

---
 pvgridder/core/merge.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 63f63dd..129f69b 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
 import pyvista as pv
 
 from ._base import MeshBase, MeshItem
@@ -97,6 +98,12 @@ class MeshMerge(MeshBase):
                 mesh_b, groups, default_group=item.group
             )
 
+            # Merging only keeps data arrays common to all meshes
+            if "vtkGhostType" not in mesh_b.cell_data:
+                mesh_b.cell_data["vtkGhostType"] = np.zeros(
+                    mesh_b.n_cells, dtype=np.uint8
+                )
+
             if i > 0:
                 mesh = pv.merge((mesh, mesh_b))
 
-- 
2.43.0


From 47c837fe4debcfc6e741f1a04a9e55c3dfa0e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:55 +0000
Subject: [PATCH 65/67] fix: keep the geometry of hidden structured cells in
 merged meshes

---
 pvgridder/core/merge.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 129f69b..1dbdb27 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -60,7 +60,14 @@ class MeshMerge(MeshBase):
             Self (for daisy chaining).
 
         """
-        mesh = mesh.copy().cast_to_unstructured_grid()
+        mesh = mesh.copy()
+
+        # Casting a structured grid drops the geometry of hidden cells
+        ghosts = mesh.cell_data.pop("vtkGhostType", None)
+        mesh = mesh.cast_to_unstructured_grid()
+
+        if ghosts is not None:
+            mesh.cell_data["vtkGhostType"] = ghosts
 
         # Check for existing user_dict
         if "_PYVISTA_USER_DICT" not in mesh.field_data:
-- 
2.43.0


From 8d17740d6f8e285e48db9a07fdfc81e1df3cec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:29 +0000
Subject: [PATCH 66/67] fix: keep hidden flags of stacked layers next to a
 transition

---
 pvgridder/core/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index a704c4f..d3518d2 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -490,6 +490,7 @@ class MeshStackBase(MeshBase):
                 mesh_b = self._transition(mesh_a, mesh_c, groups, item2.group)
                 nsub, repeats = 1, mesh_b.n_cells
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
+                mesh_b.cell_data["vtkGhostType"] = np.zeros(mesh_b.n_cells, np.uint8)
 
             else:
                 mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
-- 
2.43.0


From 7eb867c0fb562625286f1d8692270df7c5fb96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:16 +0000
Subject: [PATCH 67/67] fix: keep the geometry of hidden structured cells in
 merge

---
 pvgridder/utils/_misc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ec2a23e..60957e2 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1084,6 +1084,15 @@ def merge(
         meshes = []
 
         for mesh in dataset:
+            if "vtkGhostType" in mesh.cell_data and not isinstance(
+                mesh, pv.UnstructuredGrid
+            ):
+                # Casting a structured grid drops the geometry of hidden cells
+                mesh = mesh.copy()
+                ghosts = mesh.cell_data.pop("vtkGhostType")
+                mesh = mesh.cast_to_unstructured_grid()
+                mesh.cell_data["vtkGhostType"] = ghosts
+
             keys = set(mesh.field_data).difference(dataset[0].field_data)
 
             if keys:
-- 
2.43.0

