From 88b94b8dd014bd3f74e79b72cf49aad5eb0c6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 01/42] fix: group elements by equal materials, not only by
 identical material objects

Regions given equal but separately created Material objects shared one
material group, but the elements of the second object were added to no group,
so their stresses were zero and they were ignored by the yield moments.
---
 src/sectionproperties/analysis/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index cee7965..1e32607 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -158,7 +158,7 @@ class Section:
 
             # add element to relevant MaterialGroup
             for group in self.material_groups:
-                if material is group.material:
+                if material == group.material:
                     group.add_element(element=new_element)
                     break
 
-- 
2.43.0


From 8fc957220f034e13ad90c7254bc110a6b71cb1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 02/42] fix: mirror a compound geometry about its own centre

mirror_point="center" mirrored every sub-geometry about its own bounding box
centre instead of the centre of the compound's bounding box, which scrambled
the section.
---
 src/sectionproperties/pre/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 1b62548..e7e8387 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2146,9 +2146,14 @@ class CompoundGeometry(Geometry):
                 )
                 compound.mirror_section(axis="y", mirror_point=(0,0)).plot_geometry()
         """
+        if mirror_point == "center":
+            centre = box(*MultiPolygon(self.geom).bounds).centroid
+            m_pt = centre.x, centre.y
+        else:
+            m_pt = mirror_point
+
         geoms_acc = [
-            geom.mirror_section(axis=axis, mirror_point=mirror_point)
-            for geom in self.geoms
+            geom.mirror_section(axis=axis, mirror_point=m_pt) for geom in self.geoms
         ]
 
         return CompoundGeometry(geoms=geoms_acc)
-- 
2.43.0


From 14a5004d7fcb6e87930980b514fa4643e5642808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 03/42] fix: mirror an assigned control point about the centre
 of the geometry

With the default mirror_point the assigned control point was mirrored about
itself, so it stayed behind, possibly outside the mirrored geometry.
---
 src/sectionproperties/pre/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index e7e8387..c193464 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -823,12 +823,17 @@ class Geometry:
         new_ctrl_point: tuple[float, float] | None = None
 
         if self.assigned_control_point:
+            # the centre is that of the geometry, not that of the control point
+            if m_pt == "center":
+                centre = box(*self.geom.bounds).centroid
+                m_pt = centre.x, centre.y
+
             new_ctrl_point_geom = affinity.scale(
                 self.assigned_control_point,
                 xfact=y_mirror,
                 yfact=x_mirror,
                 zfact=1.0,
-                origin=mirror_point,  # pyright: ignore [reportArgumentType]
+                origin=m_pt,  # pyright: ignore [reportArgumentType]
             )
             new_ctrl_point = new_ctrl_point_geom.x, new_ctrl_point_geom.y
 
-- 
2.43.0


From 03fbdaa64d7d4cd8c35a7955dee9002c553485a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 04/42] fix: let shift_points move points to the absolute
 coordinate zero

abs_x=0 and abs_y=0 were treated as not given.
---
 src/sectionproperties/pre/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index c193464..e887f81 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1137,8 +1137,8 @@ class Geometry:
 
         for point_idx in point_idxs:
             current_x, current_y = current_points[point_idx]
-            new_x = abs_x if abs_x else current_x + dx
-            new_y = abs_y if abs_y else current_y + dy
+            new_x = abs_x if abs_x is not None else current_x + dx
+            new_y = abs_y if abs_y is not None else current_y + dy
             current_points[point_idx] = (new_x, new_y)
 
         new_geom = Geometry.from_points(
-- 
2.43.0


From c69703c2fd7ef07a737bf3db2101fda726f332d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 05/42] fix: give shift_points results a control point inside
 the moved outline

The control point of the original geometry was kept even if the moved outline
no longer contains it, and the rounding tolerance was lost.
---
 src/sectionproperties/pre/geometry.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index e887f81..e69ca5e 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1148,17 +1148,20 @@ class Geometry:
             holes=current_holes,
             material=current_material,
         )
+        # keep the assigned control point only if it still lies within the geometry
+        new_control_point = None
+
         if self.assigned_control_point and new_geom.geom.contains(
             self.assigned_control_point
         ):
-            new_geom = Geometry.from_points(
-                points=current_points,
-                facets=current_facets,
-                control_points=current_control_points,
-                holes=current_holes,
-                material=current_material,
-            )
-        return new_geom
+            new_control_point = self.assigned_control_point
+
+        return Geometry(
+            geom=new_geom.geom,
+            material=self.material,
+            control_points=new_control_point,
+            tol=self.tol,
+        )
 
     def plot_geometry(
         self,
-- 
2.43.0


From 61c4224d007bae38e07d53f171e6a6d72bf3ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 06/42] fix: keep hole points of a compound geometry out of
 islands

The point marking the hole of one part could lie within another part located
in that hole, whose elements were then removed from the mesh.
---
 src/sectionproperties/pre/geometry.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index e69ca5e..5cfa8c0 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2455,11 +2455,20 @@ class CompoundGeometry(Geometry):
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
         if isinstance(unionized_poly, MultiPolygon):
+            # outlines of all disjoint parts, which may lie within the hole of another
+            outlines = [Polygon(poly.exterior) for poly in unionized_poly.geoms]
+
             for poly in unionized_poly.geoms:
                 for interior in poly.interiors:
-                    rp: Point = Polygon(interior).representative_point()
-                    coords = rp.coords[0]
-                    resultant_holes.append(coords)  # pyright: ignore [reportArgumentType]
+                    # the hole point must not lie in a part located within the hole
+                    hole = Polygon(interior)
+                    islands = [part for part in outlines if hole.contains(part)]
+                    void = filter_non_polygons(hole - unary_union(islands))
+
+                    for part in getattr(void, "geoms", [void]):
+                        rp: Point = part.representative_point()
+                        coords = rp.coords[0]
+                        resultant_holes.append(coords)  # pyright: ignore [reportArgumentType]
 
         elif isinstance(unionized_poly, Polygon):  # pyright: ignore [reportUnnecessaryIsInstance]
             if Geometry(unionized_poly).holes:
-- 
2.43.0


From 83fdadf69141dbaecda63207dd951163ef724684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 07/42] fix: drop regions that a set operation removed
 altogether

Subtracting a geometry that covers a whole region left an empty region in the
compound geometry, which shifted the materials or failed when analysed.
---
 src/sectionproperties/pre/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 5cfa8c0..6e35422 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1672,6 +1672,10 @@ class CompoundGeometry(Geometry):
                 elif isinstance(item, Geometry):  # pyright: ignore [reportUnnecessaryIsInstance]
                     processed_geoms.append(item)
 
+            # a geometry that has been removed altogether is not a region
+            processed_geoms = [
+                geom for geom in processed_geoms if not geom.geom.is_empty
+            ]
             self.geoms = processed_geoms
             self.geom = MultiPolygon([geom.geom for geom in processed_geoms])
 
-- 
2.43.0


From f848bea04efaecb492dbcd180aa9df777f61289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 08/42] fix: stack CLT layers of different thickness without
 gaps or overlaps

The layers were placed at multiples of their own thickness, not below the
layers above them.
---
 src/sectionproperties/pre/library/timber_sections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/library/timber_sections.py b/src/sectionproperties/pre/library/timber_sections.py
index e5d3922..486f36c 100644
--- a/src/sectionproperties/pre/library/timber_sections.py
+++ b/src/sectionproperties/pre/library/timber_sections.py
@@ -63,6 +63,7 @@ def clt_rectangular_section(
             Section(geometry=geom).plot_mesh()
     """
     layer_geom: list[geometry.Geometry] = []
+    offset = 0.0
     for idx in range(len(d)):
         di = float(d[idx])
         layer = layer_mat[idx]
@@ -71,7 +72,7 @@ def clt_rectangular_section(
 
         # create rectangular timber geometry
         layer = primitive_sections.rectangular_section(d=di, b=b, material=timb_mat)
-        offset = -d[idx] * (idx + 1)
+        offset -= di
         layer = layer.shift_section(y_offset=offset)
 
         layer_geom.append(layer)
-- 
2.43.0


From 0d4bf312889f24caa01397f71c718ff9e22ba0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 09/42] fix: reject concrete columns with fewer than two bars
 per direction

The documented ValueError was not raised; the section was built with its bars
along one edge only.
---
 src/sectionproperties/pre/library/concrete_sections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 8debb86..350abf3 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -301,6 +301,10 @@ def concrete_column_section(
             geom.create_mesh(mesh_sizes=[0])  # a size of zero creates a coarse mesh
             Section(geometry=geom).plot_mesh()
     """
+    if n_x < 2 or n_y < 2:
+        msg = "Please provide 2 or more steel reinforcing bars in 'n_x' and 'n_y'."
+        raise ValueError(msg)
+
     concrete_geometry = primitive_sections.rectangular_section(
         d=d, b=b, material=conc_mat
     )
-- 
2.43.0


From 86b8a14beedc281508f55373afad1d3dd04523ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 10/42] fix: treat a compound geometry of one region as
 connected

The connectivity graph of a single polygon had no node, so a compound geometry
of one region vanished when dilated and drew the disjoint geometry warning in
the warping analysis.
---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 6e35422..8f9ff15 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2894,7 +2894,7 @@ def build_geometry_network(
     Returns:
         A dictionary describing the connectivity graph of the polygons
     """
-    network: dict[int, set[int]] = {}
+    network: dict[int, set[int]] = {idx: set() for idx in range(len(lop))}
 
     for idx_i, poly1 in enumerate(lop):
         for idx_j, poly2 in enumerate(lop):
-- 
2.43.0


From 344e29073044c9b6f9e7b18e462253a1f89b201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 11/42] fix: do not dilate regions that lie in the hole of
 another region

The edges shared with the hole of a surrounding region were not recognised as
shared, so an embedded region grew into, and overlapped, the surrounding one.
---
 src/sectionproperties/pre/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 8f9ff15..b436b2e 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2813,7 +2813,11 @@ def compound_dilation(
     for poly_idx, connectivity in geom_network.items():
         poly_orig = polys[poly_idx]
         poly_orig_exterior = poly_orig.exterior
-        connected_polys = [polys[idx].exterior for idx in connectivity]
+        connected_polys = [
+            ring
+            for idx in connectivity
+            for ring in (polys[idx].exterior, *polys[idx].interiors)
+        ]
         mucky_shared_paths = shared_paths(poly_orig_exterior, connected_polys)
         shared_path_geometries = MultiLineString(
             extract_shared_paths(mucky_shared_paths)  # pyright: ignore [reportArgumentType]
-- 
2.43.0


From 42b00d553e43f5fd17a3ed8907bb28d201ae5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 12/42] fix: integrate the warping constant and shear
 coefficients with six points

The integrands are of degree four, which the four point rule of degree three
does not integrate exactly; the theory guide uses six points.
---
 src/sectionproperties/analysis/fea.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/analysis/fea.py b/src/sectionproperties/analysis/fea.py
index d9b03ae..d9d1993 100644
--- a/src/sectionproperties/analysis/fea.py
+++ b/src/sectionproperties/analysis/fea.py
@@ -426,8 +426,8 @@ class Tri6:
         i_xomega: float = 0.0
         i_yomega: float = 0.0
 
-        # Gauss points for 4 point Gaussian integration
-        gps = gauss_points(n=4)
+        # Gauss points for 6 point Gaussian integration
+        gps = gauss_points(n=6)
 
         for gp in gps:
             # determine shape function, shape function derivative,
@@ -474,8 +474,8 @@ class Tri6:
         kappa_y: float = 0.0
         kappa_xy: float = 0.0
 
-        # Gauss points for 4 point Gaussian integration
-        gps = gauss_points(n=4)
+        # Gauss points for 6 point Gaussian integration
+        gps = gauss_points(n=6)
 
         for gp in gps:
             # determine shape function, shape function derivative,
-- 
2.43.0


From c18f6319f9db550b057363891d636259427b9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 13/42] fix: analyse a section with the mesh it was created
 with

Re-meshing the geometry after creating a section made the warping and frame
analyses of that section fail or use the new mesh.
---
 src/sectionproperties/analysis/section.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 1e32607..33be91f 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -6,6 +6,7 @@ properties.
 
 from __future__ import annotations
 
+import copy
 import warnings
 from dataclasses import dataclass, field
 from typing import TYPE_CHECKING, Any, cast
@@ -429,7 +430,7 @@ class Section:
         # create a new Section with the origin shifted to the centroid for calculation
         # of the warping properties such that the Lagrangian multiplier approach can be
         # utilised
-        warping_section = Section(geometry=self.geometry)
+        warping_section = self._copy_for_warping()
 
         # shift the coordinates of each element
         # N.B. the mesh class attribute remains unshifted!
@@ -1013,7 +1014,7 @@ class Section:
         def warping_analysis(progress: Progress | None = None) -> None:
             # create a new Section with the origin shifted to the centroid for
             # calculation of the warping properties
-            warping_section = Section(geometry=self.geometry)
+            warping_section = self._copy_for_warping()
 
             # shift the coordinates of each element N.B. the mesh class attribute
             # remains unshifted
@@ -1480,6 +1481,20 @@ class Section:
         # return the stress_post object
         return stress_post
 
+    def _copy_for_warping(self) -> Section:
+        """Creates a new section with the mesh of this section.
+
+        The geometry may have been re-meshed since this section was created, so its
+        current mesh cannot be relied upon.
+
+        Returns:
+            New section that does not share any elements with this section
+        """
+        geometry = copy.copy(self.geometry)
+        geometry.mesh = self.mesh
+
+        return Section(geometry=geometry)
+
     def assemble_torsion(
         self,
         progress: Progress | None = None,
-- 
2.43.0


From 3a445349bbbbf6ccec861034cd1452af3993072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 14/42] fix: map only material names to tags in the fibre
 export

Replacing the names anywhere in the text broke commands, comments and other
materials whose name contains a mapped name.
---
 src/sectionproperties/post/fibre.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 9310bdd..8f60100 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -190,6 +190,12 @@ def to_fibre_section(
 
     cells = [cell_class(ele, omega) for ele in section.elements]
 
+    # map from the exported material names to the material tags
+    material_tags = {
+        "-".join(name.split()): str(tag)
+        for name, tag in (material_mapping or {}).items()
+    }
+
     commands = """# This is generated by sectionproperties library.
 # Please note the following:
 #   1. The warping function and its derivatives (if present) are computed in the
@@ -202,6 +208,7 @@ def to_fibre_section(
     part = f"section {fibre_class} {main_section_tag} "
     for cell in cells:
         cell.tag += main_section_tag
+        cell.material = material_tags.get(cell.material, cell.material)
         part += f"{cell.tag} "
         if len(part) > max_width:
             commands += part + "\\\n"
@@ -211,10 +218,6 @@ def to_fibre_section(
     commands += "\n".join(cell.export() for cell in cells)
     commands += "\n\n"
 
-    if material_mapping is not None:
-        for name, tag in material_mapping.items():
-            commands = commands.replace("-".join(name.split()), str(tag))
-
     if isinstance(save_to, str):
         with open(save_to, "w") as f:
             f.write(commands)
-- 
2.43.0


From e2237213f935a7c4a721c6fac0e2e305f1d94185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 15/42] fix: export the mesh the section was created with

---
 src/sectionproperties/post/fibre.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 8f60100..e4f204e 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -157,9 +157,9 @@ def to_fibre_section(
         str: The exported commands
     """
     if isinstance(obj, Geometry | CompoundGeometry):
-        geometry = obj
+        section = Section(obj)
     elif isinstance(obj, Section):  # pyright: ignore [reportUnnecessaryIsInstance]
-        geometry = obj.geometry
+        section = obj
     else:
         msg = f"Expected a Geometry or Section, got {type(obj).__name__}"
         raise TypeError(msg)
@@ -180,8 +180,6 @@ def to_fibre_section(
         msg = "Invalid analysis type, expected 2D, 3D or 3DOS"
         raise ValueError(msg)
 
-    section = Section(geometry)
-
     if cell_class is Cell3DOS:
         stiffness, force = section.assemble_torsion()
         omega = solver.solve_direct_lagrange(stiffness, force)
-- 
2.43.0


From a80cb6b4cb5a5754e392fe44898f8376d83025cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 16/42] fix: keep the torsion constant when a frame analysis is
 refused

A frame analysis that fails in the solver left a torsion constant of zero
behind, also where a warping analysis had calculated it before.
---
 src/sectionproperties/analysis/section.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 33be91f..cace68c 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -925,7 +925,6 @@ class Section:
             self.section_props.ixx_c = 0.0
             self.section_props.iyy_c = 0.0
             self.section_props.ixy_c = 0.0
-            self.section_props.j = 0.0
             self.section_props.phi = 0.0
 
             if progress:
-- 
2.43.0


From 27009631e3d9ab5e14320c5ec42b7bd8dd6f43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 17/42] fix: align the inside edge of a geometry to a point

align_to(point, on, inner=True) indexed the extents of the geometry with the
index of the point's coordinate, which selected the wrong edge for 'right',
'bottom' and 'top'.
---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index b436b2e..adc13e0 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -589,7 +589,7 @@ class Geometry:
         self_align_coord = self_extents[self_align_idx]
 
         if inner:
-            self_align_coord = self_extents[align_to_idx]
+            self_align_coord = self_extents[other_as_geom_map[on]]
 
         offset = align_to_coord - self_align_coord
         arg = "x_offset"
-- 
2.43.0


From e6ef54e7937f8fa7b18613fc7a22adc78d3a233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 18/42] fix: unite an empty geometry with another

The union took the first control point of the left operand, which an empty
geometry (for example the result of subtracting everything) does not have.
---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index adc13e0..f1ddc60 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1370,7 +1370,7 @@ class Geometry:
             return Geometry(
                 geom=new_polygon,
                 material=material,
-                control_points=self.control_points[0],
+                control_points=self.control_points[0] if self.control_points else None,
                 tol=self.tol,
             )
         except Exception as e:
-- 
2.43.0


From f8dba3d6128987c8d3012d6f367de3409a6945ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 19/42] fix: intersect geometries that touch along several
 edges

The intersection of two geometries that only touch is empty, but it was
refused when they touch along several edges or at several points.
---
 src/sectionproperties/pre/geometry.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index f1ddc60..90c972f 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -15,6 +15,7 @@ from shapely import (
     LinearRing,
     LineString,
     MultiLineString,
+    MultiPoint,
     MultiPolygon,
     Point,
     Polygon,
@@ -1609,7 +1610,13 @@ class Geometry:
 
             if isinstance(
                 and_poly,
-                GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+                GeometryCollection
+                | LineString
+                | MultiLineString
+                | Point
+                | MultiPoint
+                | Polygon
+                | MultiPolygon,
             ):
                 new_polygon = filter_non_polygons(and_poly)  # pyright: ignore [reportUnknownArgumentType]
             else:
@@ -2715,13 +2722,19 @@ def buffer_polygon(
 
 
 def filter_non_polygons(
-    input_geom: GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+    input_geom: GeometryCollection
+    | LineString
+    | MultiLineString
+    | Point
+    | MultiPoint
+    | Polygon
+    | MultiPolygon,
 ) -> Polygon | MultiPolygon:
     """Filters shapely geometries to return only polygons.
 
     Returns a Polygon or a MultiPolygon representing any such Polygon on MultiPolygon
-    that may exist in the ``input_geom``. If ``input_geom`` is a LineString or Point, an
-    empty Polygon is returned.
+    that may exist in the ``input_geom``. If ``input_geom`` consists of lines or points,
+    an empty Polygon is returned.
 
     Args:
         input_geom: Shapely geometry to filter
-- 
2.43.0


From b31f71e003209fa40debea6f0b3de8e76bdc2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 20/42] fix: operate on the united regions of a compound
 geometry

The set operators passed the MultiPolygon of a compound geometry to shapely.
Where regions share edges it is invalid and the result was wrong: subtracting
a section with embedded regions left the embedded regions in place.
---
 src/sectionproperties/pre/geometry.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 90c972f..eb944d3 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1353,7 +1353,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            or_poly = self.geom | other.geom
+            or_poly = merge_regions(self) | merge_regions(other)
 
             if isinstance(
                 or_poly,
@@ -1413,7 +1413,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            xor_poly = self.geom ^ other.geom
+            xor_poly = merge_regions(self) ^ merge_regions(other)
 
             if isinstance(
                 xor_poly,
@@ -1486,7 +1486,7 @@ class Geometry:
             material = self.material or pre.DEFAULT_MATERIAL
 
             try:
-                sub_poly = self.geom - other.geom
+                sub_poly = self.geom - merge_regions(other)
 
                 if isinstance(
                     sub_poly,
@@ -1606,7 +1606,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            and_poly = self.geom & other.geom
+            and_poly = merge_regions(self) & merge_regions(other)
 
             if isinstance(
                 and_poly,
@@ -2721,6 +2721,24 @@ def buffer_polygon(
         return Polygon()
 
 
+def merge_regions(geometry: Geometry | CompoundGeometry) -> Polygon | MultiPolygon:
+    """Returns the area covered by a geometry as a valid shapely object.
+
+    The regions of a CompoundGeometry may share edges, which shapely does not allow
+    between the polygons of a MultiPolygon, therefore the regions are united.
+
+    Args:
+        geometry: Geometry object
+
+    Returns:
+        Polygon or MultiPolygon covering the same area as ``geometry``
+    """
+    if isinstance(geometry, CompoundGeometry):
+        return filter_non_polygons(unary_union([g.geom for g in geometry.geoms]))  # pyright: ignore [reportArgumentType]
+
+    return geometry.geom
+
+
 def filter_non_polygons(
     input_geom: GeometryCollection
     | LineString
-- 
2.43.0


From 0dd7070319378dbffacd268ce36ee245466e3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 21/42] fix: split along lines that nearly coincide with an
 edge

With a line through vertices of a rotated section, the polygons built from
the outline and the line could overlap themselves by rounding and were then
left out of the result, so that part of the section was lost.
---
 src/sectionproperties/pre/geometry.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index eb944d3..05dc316 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -23,6 +23,7 @@ from shapely import (
     box,  # pyright: ignore [reportUnknownVariableType]
     line_merge,  # pyright: ignore [reportUnknownVariableType]
     shared_paths,  # pyright: ignore [reportUnknownVariableType]
+    snap,  # pyright: ignore [reportUnknownVariableType]
 )
 from shapely.ops import split, unary_union
 
@@ -916,8 +917,17 @@ class Geometry:
             vector=vector,
             bounds=bounds,
         )
+
+        # move the line onto vertices that are on it to within rounding, otherwise edges
+        # that nearly coincide with the line may cause parts of the geometry to be lost
+        min_x, max_x, min_y, max_y = bounds
+        splitter = snap(
+            line_segment,
+            self.geom,
+            tolerance=1e-10 * max(max_x - min_x, max_y - min_y),
+        )
         top_right_polys, bottom_left_polys = bisect.group_top_and_bottom_polys(
-            polys=split(self.geom, line_segment),
+            polys=split(self.geom, splitter),
             line=line_segment,
         )
 
-- 
2.43.0


From 3170a68e475249b6f0d2939ccbd970cdafb69564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 22/42] fix: refuse to split about an undefined line

A zero vector, or two equal points, made all coordinates of the line undefined
and the split returned no geometry at all.
---
 src/sectionproperties/pre/geometry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 05dc316..816958d 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -911,6 +911,11 @@ class Geometry:
             msg = "Either a second point or a vector must be given to define the line."
             raise ValueError(msg)
 
+        if not np.any(vector):
+            msg = "The two points are the same or the vector is zero, the line is not "
+            msg += "defined."
+            raise ValueError(msg)
+
         bounds = self.calculate_extents()
         line_segment = bisect.create_line_segment(
             point_on_line=point_i,
-- 
2.43.0


From 17220a6eeb6f1a87f15399206626edc704d9fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 23/42] fix: tell apart polygons that start at the same point
 in from_points

Two regions that share their first point were read as one polygon, and an
embedded region that starts at the first point of the hole it fills was built
with a wrong area.
---
 src/sectionproperties/pre/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 816958d..361188c 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1844,24 +1844,29 @@ class CompoundGeometry(Geometry):
 
         # initialise indices
         i_idx, j_idx = 0, 0
+        start_idx = 0
 
         for facet in facets:
             i_idx, j_idx = facet
 
             if not prev_facet:  # Add the first facet vertex to exterior and move on
                 current_polygon_points.append(points[i_idx])
+                start_idx = i_idx
                 prev_facet = facet
                 continue
 
             prev_j_idx = prev_facet[1]
 
-            if i_idx != prev_j_idx:  # If there is a break in the chain of edges...
+            # If there is a break in the chain of edges or the polygon is complete
+            # (the next polygon may start at the same point)...
+            if i_idx != prev_j_idx or prev_j_idx == start_idx:
                 # ... then add the last point, close off the polygon,
                 # and add the polygon to the all_polygons accumulator....
                 current_polygon_points.append(points[prev_j_idx])
                 all_polygons.append(Polygon(current_polygon_points))
                 # Then start collecting the points of the new polygon
                 current_polygon_points = [points[i_idx]]
+                start_idx = i_idx
             else:
                 current_polygon_points.append(
                     points[i_idx]
-- 
2.43.0


From 292eba102e20f2680b3735427830d1a63eadfe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 24/42] fix: close small gaps in dxf outlines when other
 outlines are complete

An outline drawn with lines and arcs whose ends differ by rounding was
silently dropped if the file had any other closed outline, e.g. a rounded
section with a polyline hole was imported as the hole.
---
 src/sectionproperties/pre/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 361188c..c44e4bb 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2564,7 +2564,11 @@ def load_dxf(
 
     my_dxf = c2s.dxf.DxfImporter(str(dxf_filepath))
     my_dxf.process(spline_delta=spline_delta, degrees_per_segment=degrees_per_segment)
-    my_dxf.polygonize()
+    _, dangles, cuts, _ = my_dxf.polygonize()
+
+    # lines that bound no polygon may belong to outlines with small gaps: close the gaps
+    if not (dangles.is_empty and cuts.is_empty):
+        my_dxf.polygonize(force_zip=True)
 
     polygons = my_dxf.polygons
     new_polygons = c2s.utils.filter_polygons(polygons)
-- 
2.43.0


From a21013df9f8a5c8f4573b6fa3d016795dfc94209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 25/42] fix: keep regions inside of holes when importing a dxf

---
 src/sectionproperties/pre/geometry.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index c44e4bb..b1e567b 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2571,7 +2571,19 @@ def load_dxf(
         my_dxf.polygonize(force_zip=True)
 
     polygons = my_dxf.polygons
-    new_polygons = c2s.utils.filter_polygons(polygons)
+
+    # remove the polygons that fill the hole of another region, from the outside in so
+    # that a region inside of a hole is kept
+    fills: list[Polygon] = []
+    holes: list[LinearRing] = []
+
+    for poly in sorted(polygons, key=lambda p: Polygon(p.exterior).area, reverse=True):
+        if any(poly.exterior.equals(hole) for hole in holes):
+            fills.append(poly)
+        else:
+            holes.extend(poly.interiors)
+
+    new_polygons = [poly for poly in polygons if poly not in fills]
 
     # ensure list length > 0
     if len(new_polygons) == 0:
-- 
2.43.0


From d8d515e5435a5cbccf416ea1cc826b688759e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 26/42] fix: give the walls of a BOX1 section the thickness of
 their side

---
 src/sectionproperties/pre/library/nastran_sections.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index f4d3495..c657301 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -190,10 +190,10 @@ def nastran_box1(
         (0.0, dim_2),
     ]
     interior_points = [
-        (dim_6, dim_4),
-        (dim_1 - dim_5, dim_4),
-        (dim_1 - dim_5, dim_2 - dim_3),
-        (dim_6, dim_2 - dim_3),
+        (dim_5, dim_4),
+        (dim_1 - dim_6, dim_4),
+        (dim_1 - dim_6, dim_2 - dim_3),
+        (dim_5, dim_2 - dim_3),
     ]
     poly_sub = Polygon(exterior_points) - Polygon(interior_points)
 
-- 
2.43.0


From 0c6686561676b9062574d8a18e84c86db41b5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 27/42] fix: refuse NASTRAN dimensions whose outline crosses
 itself

---
 src/sectionproperties/pre/library/nastran_sections.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index c657301..3f4adb8 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -524,6 +524,8 @@ def nastran_fcross(
         or not dim_5 < dim_2
         or not dim_8 < (0.5 * dim_2 - 0.5 * dim_3)
         or not dim_6 < (0.5 * dim_1 - 0.5 * dim_4)
+        # the flanges do not overlap in the corners
+        or not (dim_5 < dim_2 - 2.0 * dim_8 or dim_7 < dim_1 - 2.0 * dim_6)
     ):
         msg = "Invalid geometry specified."
         raise ValueError(msg)
@@ -628,6 +630,7 @@ def nastran_dbox(
     if (
         not (dim_4 + dim_5 + dim_6) < dim_1
         or not (dim_4 + 0.5 * dim_5) < dim_3
+        or not (dim_3 + 0.5 * dim_5 + dim_6) < dim_1
         or not (dim_7 + dim_8) < dim_2
         or not (dim_9 + dim_10) < dim_2
     ):
@@ -870,7 +873,7 @@ def nastran_hat(
             nastran_hat(dim_1=1.25, dim_2=0.25, dim_3=1.5, dim_4=0.5).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not 2.0 * dim_2 < dim_1:
+    if not 2.0 * dim_2 < dim_1 or not 2.0 * dim_2 < dim_3:
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
@@ -1009,7 +1012,7 @@ def nastran_hexa(
             nastran_hexa(dim_1=0.5, dim_2=2.0, dim_3=1.5).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not dim_2 > dim_1:
+    if not dim_2 > 2.0 * dim_1:
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
-- 
2.43.0


From 140a3448697a9f9863daa7fbd7ba72e9d862eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 28/42] fix: give cee and zed sections no lip when it is
 shorter than the thickness

---
 src/sectionproperties/pre/library/steel_sections.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/library/steel_sections.py b/src/sectionproperties/pre/library/steel_sections.py
index d2b9037..6be4d3e 100644
--- a/src/sectionproperties/pre/library/steel_sections.py
+++ b/src/sectionproperties/pre/library/steel_sections.py
@@ -1154,7 +1154,7 @@ def cee_section(
     points += sp_utils.draw_radius(pt=(r_out, r_out), r=r_out, theta=np.pi, n=n_r)
 
     # if the lip is longer than the outer radius (curve + straight section
-    if l > r_out:
+    if l > max(r_out, t):
         # construct the outer bottom right radius
         points += sp_utils.draw_radius(
             pt=(b - r_out, r_out),
@@ -1220,7 +1220,7 @@ def cee_section(
     )
 
     # if the lip is longer than the outer radius (curve + straight section)
-    if l > r_out:
+    if l > max(r_out, t):
         # construct the inner top right radius
         points += sp_utils.draw_radius(
             pt=(b - t - r_in, d - t - r_in),
@@ -1339,7 +1339,7 @@ def zed_section(
     points += sp_utils.draw_radius(pt=(r_out, r_out), r=r_out, theta=np.pi, n=n_r)
 
     # if the lip is longer than the outer radius (curve + straight section
-    if l > r_out:
+    if l > max(r_out, t):
         # construct the outer bottom right radius
         points += sp_utils.draw_radius(
             pt=(b_r - r_out, r_out),
@@ -1399,7 +1399,7 @@ def zed_section(
     points += sp_utils.draw_radius(pt=(t - r_out, d - r_out), r=r_out, theta=0, n=n_r)
 
     # if the lip is longer than the outer radius (curve + straight section
-    if l > r_out:
+    if l > max(r_out, t):
         # construct the outer top left radius
         points += sp_utils.draw_radius(
             pt=(t - b_l + r_out, d - r_out),
-- 
2.43.0


From c44de434b2997f70906b51f330a6600bf074f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 29/42] fix: build a polygon hollow section whose radii merge
 to a circle

---
 src/sectionproperties/pre/library/steel_sections.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sectionproperties/pre/library/steel_sections.py b/src/sectionproperties/pre/library/steel_sections.py
index 6be4d3e..16d184e 100644
--- a/src/sectionproperties/pre/library/steel_sections.py
+++ b/src/sectionproperties/pre/library/steel_sections.py
@@ -359,6 +359,12 @@ def polygon_hollow_section(
         outer_base_points.append((x_outer, y_outer))
         inner_base_points.append((x_inner, y_inner))
 
+    # if the radii merge to a circle there is no straight side, the last point of each
+    # corner is the first point of the next corner
+    if r_in == a_in and n_r > 1:
+        outer_base_points.pop()
+        inner_base_points.pop()
+
     for i in range(n_sides):
         for point in outer_base_points:
             point_new = sp_utils.rotate(point, alpha * i + rot)
-- 
2.43.0


From 8660c70f76d489a6c737e1f2f8d222fba91c2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 30/42] fix: space the inner pier bars of a double lift core
 (type B) up to the central wall

---
 src/sectionproperties/pre/library/concrete_sections.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 350abf3..0075da8 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -2108,16 +2108,16 @@ def double_lift_core_b(
             xs.append(b - cover - 0.5 * dia_bar)
             ys.append(y)
 
-        # inner pier bars
-        y_pier = nib - 2 * cover - dia_bar
+        # inner pier bars, either side of the central wall (where bars are in place)
+        y_pier = nib
         n_pier = ceil(y_pier / spacing) + 1
         y_pier_b = np.linspace(
             start=0.5 * (d - a2) + cover + 0.5 * dia_bar,
-            stop=0.5 * d - cover - 0.5 * dia_bar,
+            stop=0.5 * (d - t3) + cover + 0.5 * dia_bar,
             num=n_pier,
         )
         y_pier_t = np.linspace(
-            start=0.5 * d + cover + 0.5 * dia_bar,
+            start=0.5 * (d + t3) - cover - 0.5 * dia_bar,
             stop=0.5 * (d + a2) - cover - 0.5 * dia_bar,
             num=n_pier,
         )
-- 
2.43.0


From 47b4225f9438f7e050128d8c904b136682381020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 31/42] fix: split the facets of a compound geometry at the
 points of its other regions

---
 src/sectionproperties/pre/geometry.py | 44 +++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index b1e567b..38b15e1 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2478,6 +2478,10 @@ class CompoundGeometry(Geometry):
             for control_point in geom.control_points:
                 self.control_points.append(control_point)
 
+        # Points of one geometry may lie on a facet of another, unless the facet is
+        # split at these points, round-off would leave a sliver that cannot be meshed
+        self.facets = split_facets(points=self.points, facets=self.facets)
+
         # Determine if new holes have been created or if existing
         # holes have been destroyed (or "filled in").
         resultant_holes: list[tuple[float, float]] = []
@@ -2837,6 +2841,46 @@ def round_polygon_vertices(
     return Polygon(rounded_exterior, rounded_interiors)
 
 
+def split_facets(
+    points: list[tuple[float, float]],
+    facets: list[tuple[int, int]],
+) -> list[tuple[int, int]]:
+    """Splits facets at the points that lie on them.
+
+    Args:
+        points: List of points
+        facets: List of facets, each a pair of indices of the list of points
+
+    Returns:
+        List of facets that have points only at their ends
+    """
+    if not facets:
+        return facets
+
+    pts = np.array(points)
+    tol = SCALE_CONSTANT * float(np.ptp(pts, axis=0).max()) + 2e-12
+    new_facets: list[tuple[int, int]] = []
+
+    for start, end in facets:
+        vec = pts[end] - pts[start]
+        length = float(np.hypot(*vec))
+
+        if length <= tol:
+            new_facets.append((start, end))
+            continue
+
+        # local coordinates along and normal to the facet
+        rel = pts - pts[start]
+        along = (rel[:, 0] * vec[0] + rel[:, 1] * vec[1]) / length
+        normal = (rel[:, 1] * vec[0] - rel[:, 0] * vec[1]) / length
+        is_on = (np.abs(normal) <= tol) & (along > tol) & (along < length - tol)
+        idx = np.flatnonzero(is_on)
+        chain = [start, *idx[np.argsort(along[idx])].tolist(), end]
+        new_facets.extend(zip(chain[:-1], chain[1:], strict=True))
+
+    return new_facets
+
+
 def check_geometry_overlaps(
     lop: list[Polygon],
 ) -> bool:
-- 
2.43.0


From 0781d27e6e4b400178526e59f6bda44563c09d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 32/42] fix: unite regions that touch but for round-off
 (perimeter, offset, connectivity, union)

---
 src/sectionproperties/pre/geometry.py | 230 +++++++++++++++++++++++---
 1 file changed, 203 insertions(+), 27 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 38b15e1..8a5520c 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -10,6 +10,7 @@ from typing import TYPE_CHECKING, Any, cast
 import more_itertools
 import numpy as np
 import numpy.typing as npt
+from scipy.spatial import KDTree
 from shapely import (
     GeometryCollection,
     LinearRing,
@@ -19,12 +20,15 @@ from shapely import (
     MultiPolygon,
     Point,
     Polygon,
+    STRtree,
     affinity,
     box,  # pyright: ignore [reportUnknownVariableType]
     line_merge,  # pyright: ignore [reportUnknownVariableType]
     shared_paths,  # pyright: ignore [reportUnknownVariableType]
     snap,  # pyright: ignore [reportUnknownVariableType]
 )
+from shapely import linestrings as create_linestrings
+from shapely import points as create_points
 from shapely.ops import split, unary_union
 
 import sectionproperties.post.post as post
@@ -1368,7 +1372,7 @@ class Geometry:
         material = self.material or other.material
 
         try:
-            or_poly = merge_regions(self) | merge_regions(other)
+            or_poly = unite_polygons([*get_polygons(self), *get_polygons(other)])
 
             if isinstance(
                 or_poly,
@@ -2397,7 +2401,7 @@ class CompoundGeometry(Geometry):
             ``.plot_mesh()`` prior to performing any analysis.
         """
         if amount < 0:  # Eroding condition
-            unionized_poly = unary_union([geom.geom for geom in self.geoms])
+            unionized_poly = unite_polygons([geom.geom for geom in self.geoms])
 
             if isinstance(unionized_poly, Polygon):
                 offset_geom = Geometry(geom=unionized_poly).offset_perimeter(
@@ -2480,12 +2484,13 @@ class CompoundGeometry(Geometry):
 
         # Points of one geometry may lie on a facet of another, unless the facet is
         # split at these points, round-off would leave a sliver that cannot be meshed
+        self.points, self.facets = merge_points(points=self.points, facets=self.facets)
         self.facets = split_facets(points=self.points, facets=self.facets)
 
         # Determine if new holes have been created or if existing
         # holes have been destroyed (or "filled in").
         resultant_holes: list[tuple[float, float]] = []
-        unionized_poly = unary_union([geom.geom for geom in self.geoms])
+        unionized_poly = unite_polygons([geom.geom for geom in self.geoms])
         buffer_amount = unionized_poly.area * SCALE_CONSTANT
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
@@ -2522,7 +2527,7 @@ class CompoundGeometry(Geometry):
         Returns:
             CompoundGeometry perimeter
         """
-        unionized_poly = unary_union([geom.geom for geom in self.geoms])
+        unionized_poly = unite_polygons([geom.geom for geom in self.geoms])
 
         if isinstance(unionized_poly, Polygon):
             return float(unionized_poly.exterior.length)
@@ -2761,6 +2766,21 @@ def buffer_polygon(
         return Polygon()
 
 
+def get_polygons(geometry: Geometry | CompoundGeometry) -> list[Polygon]:
+    """Returns the polygons of the regions of a geometry.
+
+    Args:
+        geometry: Geometry object
+
+    Returns:
+        List of polygons
+    """
+    if isinstance(geometry, CompoundGeometry):
+        return [geom.geom for geom in geometry.geoms]
+
+    return [geometry.geom]
+
+
 def merge_regions(geometry: Geometry | CompoundGeometry) -> Polygon | MultiPolygon:
     """Returns the area covered by a geometry as a valid shapely object.
 
@@ -2774,7 +2794,7 @@ def merge_regions(geometry: Geometry | CompoundGeometry) -> Polygon | MultiPolyg
         Polygon or MultiPolygon covering the same area as ``geometry``
     """
     if isinstance(geometry, CompoundGeometry):
-        return filter_non_polygons(unary_union([g.geom for g in geometry.geoms]))  # pyright: ignore [reportArgumentType]
+        return filter_non_polygons(unite_polygons(get_polygons(geometry)))
 
     return geometry.geom
 
@@ -2841,6 +2861,94 @@ def round_polygon_vertices(
     return Polygon(rounded_exterior, rounded_interiors)
 
 
+def node_tolerance(
+    points: list[tuple[float, float]],
+) -> float:
+    """Returns the distance below which points are the same point, but for round-off.
+
+    Args:
+        points: List of points
+
+    Returns:
+        Tolerance
+    """
+    return SCALE_CONSTANT * float(np.ptp(np.array(points), axis=0).max()) + 2e-12
+
+
+def merge_points(
+    points: list[tuple[float, float]],
+    facets: list[tuple[int, int]],
+) -> tuple[list[tuple[float, float]], list[tuple[int, int]]]:
+    """Merges points that differ by no more than round-off.
+
+    Args:
+        points: List of points
+        facets: List of facets, each a pair of indices of the list of points
+
+    Returns:
+        Lists of the remaining points and of the facets between them
+    """
+    if not points:
+        return points, facets
+
+    pairs = KDTree(points).query_pairs(r=node_tolerance(points))
+
+    if not pairs:
+        return points, facets
+
+    # replace each point by the first point at the same location
+    first = list(range(len(points)))
+
+    for i, j in sorted(pairs):
+        first[j] = first[i]
+
+    keep = [idx for idx, rep in enumerate(first) if rep == idx]
+    new_idx = {old: new for new, old in enumerate(keep)}
+    new_facets = [(new_idx[first[i]], new_idx[first[j]]) for i, j in facets]
+
+    return [points[idx] for idx in keep], [(i, j) for i, j in new_facets if i != j]
+
+
+def find_nodes(
+    points: list[tuple[float, float]],
+    facets: list[tuple[int, int]],
+) -> dict[int, list[int]]:
+    """Finds the points that lie on facets, other than at their ends.
+
+    Args:
+        points: List of points
+        facets: List of facets, each a pair of indices of the list of points
+
+    Returns:
+        Indices of the points on a facet, in order from its start to its end, for the
+        index of each facet with such points
+    """
+    if not facets:
+        return {}
+
+    pts = np.array(points)
+    ends = pts[np.array(facets)]
+    tol = node_tolerance(points)
+    tree = STRtree(create_points(pts))
+    facet_idx, point_idx = tree.query(
+        create_linestrings(ends), predicate="dwithin", distance=tol
+    )
+
+    # discard the points at the ends of the facet
+    start, vec = ends[facet_idx, 0], ends[facet_idx, 1] - ends[facet_idx, 0]
+    length = np.hypot(vec[:, 0], vec[:, 1])
+    along = np.sum((pts[point_idx] - start) * vec, axis=1)
+    inside = (along > tol * length) & (along < (length - tol) * length)
+    nodes: dict[int, list[tuple[float, int]]] = {}
+
+    for idx in np.flatnonzero(inside):
+        nodes.setdefault(int(facet_idx[idx]), []).append(
+            (float(along[idx]), int(point_idx[idx]))
+        )
+
+    return {idx: [pt for _, pt in sorted(on)] for idx, on in nodes.items()}
+
+
 def split_facets(
     points: list[tuple[float, float]],
     facets: list[tuple[int, int]],
@@ -2854,33 +2962,101 @@ def split_facets(
     Returns:
         List of facets that have points only at their ends
     """
-    if not facets:
-        return facets
-
-    pts = np.array(points)
-    tol = SCALE_CONSTANT * float(np.ptp(pts, axis=0).max()) + 2e-12
+    nodes = find_nodes(points=points, facets=facets)
     new_facets: list[tuple[int, int]] = []
 
-    for start, end in facets:
-        vec = pts[end] - pts[start]
-        length = float(np.hypot(*vec))
-
-        if length <= tol:
-            new_facets.append((start, end))
-            continue
-
-        # local coordinates along and normal to the facet
-        rel = pts - pts[start]
-        along = (rel[:, 0] * vec[0] + rel[:, 1] * vec[1]) / length
-        normal = (rel[:, 1] * vec[0] - rel[:, 0] * vec[1]) / length
-        is_on = (np.abs(normal) <= tol) & (along > tol) & (along < length - tol)
-        idx = np.flatnonzero(is_on)
-        chain = [start, *idx[np.argsort(along[idx])].tolist(), end]
+    for idx, (start, end) in enumerate(facets):
+        chain = [start, *nodes.get(idx, []), end]
         new_facets.extend(zip(chain[:-1], chain[1:], strict=True))
 
     return new_facets
 
 
+def node_polygons(
+    polygons: list[Polygon],
+) -> list[Polygon]:
+    """Returns polygons in which the shared edges have the same vertices.
+
+    After a rotation, say, a vertex of one polygon lies on the edge of another but for
+    round-off only, and shapely would find a gap between the two or an overlap.
+
+    Args:
+        polygons: List of polygons
+
+    Returns:
+        List of polygons of the same shape
+    """
+    points: list[tuple[float, float]] = []
+    rings: list[list[list[int]]] = []
+
+    for poly in polygons:
+        rings.append([])
+
+        for ring in () if poly.is_empty else (poly.exterior, *poly.interiors):
+            coords = [(pt[0], pt[1]) for pt in ring.coords[:-1]]
+            rings[-1].append(list(range(len(points), len(points) + len(coords))))
+            points.extend(coords)
+
+    if not points:
+        return polygons
+
+    # location of each vertex in the list of merged points
+    nodes, _ = merge_points(points=points, facets=[])
+    location = KDTree(nodes).query(points)[1].tolist()
+    facets: list[tuple[int, int]] = []
+    chains: list[list[list[int]]] = []
+
+    for poly_rings in rings:
+        chains.append([])
+
+        for ring in poly_rings:
+            idx = [location[i] for i in ring]
+            ring_facets = [
+                (i, j) for i, j in zip(idx, [*idx[1:], idx[0]], strict=True) if i != j
+            ]
+            chains[-1].append(list(range(len(facets), len(facets) + len(ring_facets))))
+            facets.extend(ring_facets)
+
+    on_facet = find_nodes(points=nodes, facets=facets)
+
+    if not on_facet and all(nodes[location[i]] == pt for i, pt in enumerate(points)):
+        return polygons
+
+    new_polygons: list[Polygon] = []
+
+    for poly, poly_chains in zip(polygons, chains, strict=True):
+        new_rings = [
+            [
+                nodes[i]
+                for idx in chain
+                for i in (facets[idx][0], *on_facet.get(idx, []))
+            ]
+            for chain in poly_chains
+        ]
+
+        if new_rings and all(len(ring) > 2 for ring in new_rings):
+            new_poly = Polygon(new_rings[0], new_rings[1:])
+            new_polygons.append(new_poly if new_poly.is_valid else poly)
+        else:
+            new_polygons.append(poly)
+
+    return new_polygons
+
+
+def unite_polygons(
+    polygons: list[Polygon],
+) -> Any:
+    """Returns the union of polygons that may share edges but for round-off.
+
+    Args:
+        polygons: List of polygons
+
+    Returns:
+        Union of the polygons
+    """
+    return unary_union(node_polygons(polygons))
+
+
 def check_geometry_overlaps(
     lop: list[Polygon],
 ) -> bool:
@@ -2917,7 +3093,7 @@ def compound_dilation(
     Returns:
         The geometries dilated by ``offset``
     """
-    polys = [geom.geom for geom in geoms]
+    polys = node_polygons([geom.geom for geom in geoms])
     geom_network = build_geometry_network(polys)
     acc: list[Geometry] = []
 
@@ -2960,7 +3136,7 @@ def check_geometry_disjoint(
         Whether or not there is disjoint geometry
     """
     # Build polygon connectivity network
-    network = build_geometry_network(lop)
+    network = build_geometry_network(node_polygons(lop))
 
     def walk_network(
         node: int,
-- 
2.43.0


From 9e1d6faf983778849042e45a9746e18fa85442fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 33/42] fix: keep the lines of the fibre export within the
 requested width

---
 src/sectionproperties/post/fibre.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index e4f204e..cbf529c 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -207,10 +207,12 @@ def to_fibre_section(
     for cell in cells:
         cell.tag += main_section_tag
         cell.material = material_tags.get(cell.material, cell.material)
-        part += f"{cell.tag} "
-        if len(part) > max_width:
+        tag = f"{cell.tag} "
+        # break the line (with a backslash) before it becomes too wide
+        if part and len(part) + len(tag) + 1 > max_width:
             commands += part + "\\\n"
             part = ""
+        part += tag
 
     commands += part + "\n\n"
     commands += "\n".join(cell.export() for cell in cells)
-- 
2.43.0


From 54f768a85a4723ccd7302aa0804a9ccd06fbe532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 34/42] fix: refuse items that are no geometries in a
 CompoundGeometry

---
 src/sectionproperties/pre/geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 8a5520c..2c70384 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1682,6 +1682,9 @@ class CompoundGeometry(Geometry):
         Args:
             geoms: Either a list of Geometry objects or a :class:`shapely.MultiPolygon`
                 instance.
+
+        Raises:
+            ValueError: If an item of ``geoms`` is not a geometry
         """
         if isinstance(geoms, MultiPolygon):
             self.geoms = [
@@ -1697,6 +1700,10 @@ class CompoundGeometry(Geometry):
                     processed_geoms += item.geoms
                 elif isinstance(item, Geometry):  # pyright: ignore [reportUnnecessaryIsInstance]
                     processed_geoms.append(item)
+                else:
+                    msg = "Items of 'geoms' must be Geometry objects, not "
+                    msg += f"{type(item).__name__}."
+                    raise ValueError(msg)
 
             # a geometry that has been removed altogether is not a region
             processed_geoms = [
-- 
2.43.0


From 93453a55decde9e122593fb229c5366aa310a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 35/42] fix: refuse an unknown axis in mirror_section

---
 src/sectionproperties/pre/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 2c70384..0edb403 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -787,6 +787,9 @@ class Geometry:
                 point is provided, mirrors the geometry about the center of the shape's
                 bounding box. Defaults to ``"center"``.
 
+        Raises:
+            ValueError: If ``axis`` is neither ``"x"`` nor ``"y"``
+
         Returns:
             New Geometry object mirrored on ``axis`` about ``mirror_point``
 
@@ -817,6 +820,9 @@ class Geometry:
             x_mirror = -x_mirror
         elif axis == "y":
             y_mirror = -y_mirror
+        else:
+            msg = f"'axis' must be 'x' or 'y', not {axis!r}."
+            raise ValueError(msg)
 
         mirrored_geom = affinity.scale(
             self.geom,
-- 
2.43.0


From d10344c1b4c9a8fc92e35b742c878d10dde89f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 36/42] fix: refuse an unknown edge when dilating a compound
 geometry

---
 src/sectionproperties/pre/geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 0edb403..c8f0c37 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2388,6 +2388,9 @@ class CompoundGeometry(Geometry):
             resolution: Number of segments used to approximate a quarter circle around
                 a point. Defaults to ``12``.
 
+        Raises:
+            ValueError: If ``where`` is invalid
+
         Returns:
             CompoundGeometry object translated to new alignment
 
@@ -2413,6 +2416,10 @@ class CompoundGeometry(Geometry):
             materials, ensure that the materials propagate as desired by performing a
             ``.plot_mesh()`` prior to performing any analysis.
         """
+        if where not in ("exterior", "interior", "all"):
+            msg = "'where' must be 'exterior', 'interior' or 'all'."
+            raise ValueError(msg)
+
         if amount < 0:  # Eroding condition
             unionized_poly = unite_polygons([geom.geom for geom in self.geoms])
 
-- 
2.43.0


From cfd5f9f836a7659cb0b72ea91196e6d5446f3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 37/42] fix: refuse mesh size lists of the wrong length for a
 compound geometry

---
 src/sectionproperties/pre/geometry.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index c8f0c37..5b18923 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2046,6 +2046,10 @@ class CompoundGeometry(Geometry):
             coarse: If set to True, will create a coarse mesh (no area or quality
                 constraints). Defaults to ``False``.
 
+        Raises:
+            ValueError: If the length of ``mesh_sizes`` is neither one nor the number of
+                regions
+
         Returns:
             ``CompoundGeometry`` object with mesh data stored in ``.mesh`` attribute.
             Returned ``CompoundGeometry`` object is self, not a new instance.
@@ -2078,6 +2082,11 @@ class CompoundGeometry(Geometry):
         if len(mesh_sizes) == 1:
             mesh_sizes = mesh_sizes * len(self.control_points)
 
+        if len(mesh_sizes) != len(self.control_points):
+            msg = f"The number of mesh sizes ({len(mesh_sizes)}) must be one or match "
+            msg += f"the number of regions ({len(self.control_points)})."
+            raise ValueError(msg)
+
         self.mesh = pre.create_mesh(
             points=self.points,
             facets=self.facets,
-- 
2.43.0


From 5c0dce1db816c461ea7d52b83460f905fae00606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 38/42] fix: colour the elements of a masked mesh plot by their
 own material

---
 src/sectionproperties/analysis/section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index cace68c..eebddee 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -1660,6 +1660,8 @@ class Section:
                     triang,
                     c,
                     cmap=cmap,
+                    vmin=-0.5,
+                    vmax=len(c) - 0.5,
                 )
 
                 # display the legend
-- 
2.43.0


From 6f258fce7a9369bf42b4588fc4d1456d73526de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 39/42] fix: draw the stress vectors of all materials with the
 colours of the colour bar

---
 src/sectionproperties/post/stress_post.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sectionproperties/post/stress_post.py b/src/sectionproperties/post/stress_post.py
index 98adff0..88821e5 100644
--- a/src/sectionproperties/post/stress_post.py
+++ b/src/sectionproperties/post/stress_post.py
@@ -525,6 +525,13 @@ class StressPost:
             for quiv_plot in quiv_list:
                 quiv_plot.scale = max_scale
 
+            # apply the same colour range to all vectors
+            if norm is not None:
+                norm.halfrange = c_max
+            else:
+                for quiv_plot in quiv_list:
+                    quiv_plot.set_clim(vmin=c_min, vmax=c_max)
+
             # apply the colorbar
             v1 = np.linspace(
                 start=c_min - 1e-12, stop=c_max + 1e-12, num=15, endpoint=True
-- 
2.43.0


From f2e03d815f7b9c3da54d458f2b25e1f01f211293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 40/42] fix: locate the plastic centroid of small sections to
 the same relative accuracy

---
 src/sectionproperties/analysis/plastic_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/plastic_section.py b/src/sectionproperties/analysis/plastic_section.py
index 9a30473..251b0c9 100644
--- a/src/sectionproperties/analysis/plastic_section.py
+++ b/src/sectionproperties/analysis/plastic_section.py
@@ -363,7 +363,7 @@ class PlasticSection:
             args=(u, u_p, verbose),
             full_output=True,
             disp=False,
-            xtol=1e-6,
+            xtol=1e-6 * min(1.0, dlim[1] - dlim[0]),
             rtol=1e-6,
         )
         return float(d), r
-- 
2.43.0


From bc5aac4dd3c1cb176f183d7fa054fa45b58f056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:54 +0000
Subject: [PATCH 41/42] fix: do not close narrow holes of compound geometries
 in small units of length

---
 src/sectionproperties/pre/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 5b18923..61f458f 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2520,7 +2520,11 @@ class CompoundGeometry(Geometry):
         # holes have been destroyed (or "filled in").
         resultant_holes: list[tuple[float, float]] = []
         unionized_poly = unite_polygons([geom.geom for geom in self.geoms])
-        buffer_amount = unionized_poly.area * SCALE_CONSTANT
+
+        # do not close narrow holes of large sections, an area grows with the square of
+        # the unit of length
+        area = unionized_poly.area
+        buffer_amount = min(area, 1e3 * math.sqrt(area)) * SCALE_CONSTANT
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
         if isinstance(unionized_poly, MultiPolygon):
-- 
2.43.0


From 3fb8eb886e7bed9c0595548b58e44525834e2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:54 +0000
Subject: [PATCH 42/42] fix: mesh a geometry whose hole touches the exterior or
 another hole at a vertex

---
 src/sectionproperties/pre/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 61f458f..f40f881 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -506,9 +506,13 @@ class Geometry:
             msg += f"list of float with length of 1, not {mesh_sizes}."
             raise ValueError(msg)
 
+        # a hole may touch the exterior or another hole at a vertex, the mesher cannot
+        # handle points that are listed twice
+        points, facets = merge_points(points=self.points, facets=self.facets)
+
         self.mesh = pre.create_mesh(
-            points=self.points,
-            facets=self.facets,
+            points=points,
+            facets=facets,
             holes=self.holes,
             control_points=self.control_points,
             mesh_sizes=mesh_size,
-- 
2.43.0

