From 1449f63c74b4762ccfcdfe8ee3a53f7fc0c3aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 01/84] fix: m3n3k2 gathering matrix took the boundary
 indicator -1 for a neighbouring element

---
 msepy/space/gathering_matrix/Lambda.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 5fef6b1..884d9c1 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -60,7 +60,7 @@ class MsePyGatheringMatrixLambda(Frozen):
         for n in range(self._mesh.elements._num):  # currently, we are numbering nth element.
             # we first see the north side__________________________________________
             what_north = element_map[n][0]
-            if isinstance(what_north, str):
+            if what_north == -1:
                 # the north side of nth element is on domain boundary. So we just number it.
                 gn0[n, 0, :, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['N']).reshape(
@@ -86,7 +86,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += (p[0]-1)*p[1]*p[2]
             # next, we look at south side__________________________________________
             what_south = element_map[n][1]
-            if isinstance(what_south, str):
+            if what_south == -1:
                 # the south side of nth element is on domain boundary. So we just number it.
                 gn0[n, -1, :, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['S']).reshape(
@@ -108,7 +108,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # we then look at the west side________________________________________
             what_west = element_map[n][2]
-            if isinstance(what_west, str):
+            if what_west == -1:
                 # the west side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, 0, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['W']).reshape(
@@ -134,7 +134,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += p[0]*(p[1]-1)*p[2]
             # next, we look at east side___________________________________________
             what_east = element_map[n][3]
-            if isinstance(what_east, str):
+            if what_east == -1:
                 # the east side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, -1, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['E']).reshape(
@@ -155,7 +155,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 raise Exception()
             # we then look at the back side________________________________________
             what_back = element_map[n][4]
-            if isinstance(what_back, str):
+            if what_back == -1:
                 # the back side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, 0] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['B']).reshape(
@@ -182,7 +182,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # next, we look at front side__________________________________________
             what_front = element_map[n][5]
-            if isinstance(what_front, str):
+            if what_front == -1:
                 # the front side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, -1] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['F']).reshape(
-- 
2.43.0


From 4c5c70451be0bcdcbc72a540c513ceef2888a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 02/84] fix: the crazy mapping of the chaotic mesh ignored the
 scale and the y-offset of the bounds

---
 msehtt/static/manifold/predefined/chaotic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msehtt/static/manifold/predefined/chaotic.py b/msehtt/static/manifold/predefined/chaotic.py
index 325fa1f..f1000f9 100644
--- a/msehtt/static/manifold/predefined/chaotic.py
+++ b/msehtt/static/manifold/predefined/chaotic.py
@@ -254,8 +254,8 @@ class TotalMapping2D(Frozen):
             s = (q - c) / (d - c)
             x = r + 0.5 * self._c * sin(2 * pi * r) * sin(2 * pi * s)
             y = s + 0.5 * self._c * sin(2 * pi * r) * sin(2 * pi * s)
-            x += a
-            c += c
+            x = x * (b - a) + a
+            y = y * (d - c) + c
         return x, y
 
     def Jacobian_matrix(self, p, q):
@@ -277,10 +277,10 @@ class TotalMapping2D(Frozen):
             yr = 0.5 * self._c * 2 * pi * cos(2 * pi * r) * sin(2 * pi * s)
             ys = 1 + 0.5 * self._c * sin(2 * pi * r) * 2 * pi * cos(2 * pi * s)
 
-            xp = xr / (b - a)
-            xq = xs / (d - c)
-            yp = yr / (b - a)
-            yq = ys / (d - c)
+            xp = xr
+            xq = xs * (b - a) / (d - c)
+            yp = yr * (d - c) / (b - a)
+            yq = ys
 
         return ((xp, xq),
                 (yp, yq))
-- 
2.43.0


From 4d86cbc2c439382086630f03bb147753d42f85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 03/84] fix: metric signatures of the vtu triangle and quad
 identified elements of different metric

---
 .../great/elements/types/vtu_5_triangle.py    | 16 ++++++++--------
 .../mesh/great/elements/types/vtu_9_quad.py   | 19 +++++++------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
index f29aec2..50c857d 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
@@ -4,7 +4,6 @@ r"""
 import numpy as np
 
 from phyem.tools.frozen import Frozen
-from phyem.tools.functions.space._2d.angle import angle
 from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
 from phyem.tools.functions.space._2d.distance import distance
 from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement
@@ -36,13 +35,14 @@ class Vtu5Triangle(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         """"""
-        a, b, _ = angles_of_triangle(*parameters)
-        c = angle(parameters[0], parameters[1])
-        d = distance(parameters[0], parameters[1])
-        self._metric_signature = (f"5:a%.3f" % round(a, 3) +
-                                  "b%.3f" % round(b, 3) +
-                                  "c%.3f" % round(c, 3) +
-                                  "d%.6f" % round(d, 6))
+        # the metric is the same only when the relative positions of all nodes are the same.
+        x0, y0 = parameters[0]
+        dist = distance(parameters[0], parameters[1])
+        self._metric_signature = f"5:dis%.9e" % dist
+        for x, y in parameters[1:]:
+            self._metric_signature += ":%.9f,%.9f" % (
+                round((x - x0) / dist, 9) + 0.0, round((y - y0) / dist, 9) + 0.0)
+        self._metric_signature += ";"
 
         super().__init__()
         self._index = element_index
diff --git a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
index c35723d..80626c7 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
@@ -7,7 +7,6 @@ from phyem.tools.frozen import Frozen
 
 from phyem.tools.miscellaneous.geometries.m2n2 import Point2, Polygon2, whether_point_in_polygon
 
-from phyem.tools.functions.space._2d.angle import angle
 from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
 from phyem.tools.functions.space._2d.distance import distance
 
@@ -63,18 +62,14 @@ class Vtu9Quad(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         r""""""
-        a0, b, c0 = angles_of_triangle(parameters[0], parameters[1], parameters[2])   # in degree
-        a1, c1, _ = angles_of_triangle(parameters[0], parameters[2], parameters[3])   # in degree
-        a = a0 + a1
-        c = c0 + c1
-
-        d = angle(parameters[0], parameters[2])
+        # the metric is the same only when the relative positions of all nodes are the same.
+        x0, y0 = parameters[0]
         dist = distance(parameters[0], parameters[2])
-        self._metric_signature = (f"9:a%.2f" % round(a, 2) +
-                                  "b%.2f" % round(b, 2) +
-                                  "c%.2f" % round(c, 2) +
-                                  "d%.3f" % round(d, 3) +
-                                  "dis%.5f" % round(dist, 5))
+        self._metric_signature = f"9:dis%.9e" % dist
+        for x, y in parameters[1:]:
+            self._metric_signature += ":%.9f,%.9f" % (
+                round((x - x0) / dist, 9) + 0.0, round((y - y0) / dist, 9) + 0.0)
+        self._metric_signature += ";"
         self._polygon = None
 
         super().__init__()
-- 
2.43.0


From 2816c9f44148b1f9643353492e26ad5028a5eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 04/84] fix: orthogonal elements of small but different sizes
 shared one metric (absolute rounding)

---
 .../great/elements/types/orthogonal_hexahedron.py    | 12 ++++++------
 .../great/elements/types/orthogonal_rectangle.py     |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
index b307315..0b4477f 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
@@ -48,9 +48,9 @@ class MseHttGreatMeshOrthogonalHexahedronElement(MseHttGreatMeshBaseElement):
         """"""
         origin_x, origin_y, origin_z = parameters['origin']
         delta_x, delta_y, delta_z = parameters['delta']
-        self._metric_signature = (f"OR:x%.5f" % round(delta_x, 5) +
-                                  "y%.5f" % round(delta_y, 5) +
-                                  "y%.5f" % round(delta_z, 5))
+        self._metric_signature = (f"OR:x%.9e" % delta_x +
+                                  "y%.9e" % delta_y +
+                                  "y%.9e;" % delta_z)
         super().__init__()
         self._index = element_index
         self._parameters = parameters
@@ -356,9 +356,9 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y, ratio_z):
     """"""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
-    ratio_z = round(ratio_z, 8)
+    ratio_x = float("%.12e" % ratio_x)
+    ratio_y = float("%.12e" % ratio_y)
+    ratio_z = float("%.12e" % ratio_z)
     key = (ratio_x, ratio_y, ratio_z)
     if key in _cache_ct_helper_pool_:
         pass
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
index ca11849..9f46c82 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
@@ -47,7 +47,7 @@ class MseHttGreatMeshOrthogonalRectangleElement(MseHttGreatMeshBaseElement):
         r""""""
         origin_x, origin_y = parameters['origin']
         delta_x, delta_y = parameters['delta']
-        self._metric_signature = f"OR:x%.5f" % round(delta_x, 5) + "y%.5f" % round(delta_y, 5)
+        self._metric_signature = f"OR:x%.9e" % delta_x + "y%.9e;" % delta_y
         self._polygon = None
 
         super().__init__()
@@ -325,8 +325,8 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y):
     r""""""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
+    ratio_x = float("%.12e" % ratio_x)
+    ratio_y = float("%.12e" % ratio_y)
     key = (ratio_x, ratio_y)
     if key in _cache_ct_helper_pool_:
         pass
-- 
2.43.0


From 9b736a7dc7e42021181847bf7b0278c804381f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 05/84] fix: msepy elements of small but different sizes shared
 one metric (absolute rounding)

---
 msepy/manifold/predefined/crazy.py       |  2 +-
 msepy/manifold/predefined/crazy_multi.py |  2 +-
 msepy/manifold/regions/standard/ct.py    | 16 +++++++---------
 msepy/mesh/elements/main.py              |  2 +-
 4 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/msepy/manifold/predefined/crazy.py b/msepy/manifold/predefined/crazy.py
index b895436..35385bd 100644
--- a/msepy/manifold/predefined/crazy.py
+++ b/msepy/manifold/predefined/crazy.py
@@ -180,7 +180,7 @@ def _crazy(mf, bounds=None, c=0, periodic=False):
         for i, lb_ub in enumerate(bounds):
             xyz = 'xyz'[i]
             lb, ub = lb_ub
-            d = str(round(ub - lb, 5))  # do this to round off the truncation error.
+            d = f'{ub - lb:.12e}'  # do this to round off the truncation error.
             mtype['parameters'].append(xyz + d)
     else:
         mtype = None  # this is a unique region. Its metric does not like any other.
diff --git a/msepy/manifold/predefined/crazy_multi.py b/msepy/manifold/predefined/crazy_multi.py
index 4c2ee74..2d6667a 100644
--- a/msepy/manifold/predefined/crazy_multi.py
+++ b/msepy/manifold/predefined/crazy_multi.py
@@ -317,7 +317,7 @@ def _crazy_multi(mf, bounds=None, c=0, Ns=None, periodic=False):
             for i, lb_ub in enumerate(region_mappings._regions[r]._bounds):
                 xyz = 'xyz'[i]
                 lb, ub = lb_ub
-                d = str(round(ub - lb, 5))  # do this to round off the truncation error.
+                d = f'{ub - lb:.12e}'  # do this to round off the truncation error.
                 mtype['parameters'].append(xyz + d)
         else:
             mtype = None  # this is a unique region. Its metric does not like any other.
diff --git a/msepy/manifold/regions/standard/ct.py b/msepy/manifold/regions/standard/ct.py
index 4d8f133..be8421c 100644
--- a/msepy/manifold/regions/standard/ct.py
+++ b/msepy/manifold/regions/standard/ct.py
@@ -1,8 +1,6 @@
 # -*- coding: utf-8 -*-
 r"""
 """
-import numpy as np
-
 from phyem.tools.frozen import Frozen
 
 
@@ -93,7 +91,7 @@ class _MsePyRegionMtype(Frozen):
             assert len(layout) == len(self._parameters), f"layout or parameters dimensions wrong."
             assert len(layout) == element_numbering.ndim, f"layout or element_numbering dimensions wrong."
 
-            LayOut = [np.round(_, 5) for _ in layout]
+            LayOut = layout
             parameters = self._parameters
             axis = [_[0] for _ in parameters]
             para = [float(_[1:]) for _ in parameters]
@@ -102,7 +100,7 @@ class _MsePyRegionMtype(Frozen):
                 for i in range(len(LayOut[0])):
                     Li = LayOut[0][i]
                     pi = para[0] * Li
-                    pi = round(pi, 5)
+                    pi = float('%.9e' % pi)  # relative rounding: the scale of the mesh is arbitrary.
                     key = 'Linear:' + axis[0] + str(pi)
 
                     element_number = element_numbering[i, ]
@@ -117,8 +115,8 @@ class _MsePyRegionMtype(Frozen):
 
                         Li, Lj = LayOut[0][i], LayOut[1][j]
                         pi, pj = para[0] * Li, para[1] * Lj
-                        pi = round(pi, 5)
-                        pj = round(pj, 5)
+                        pi = float('%.9e' % pi)  # relative rounding: the scale of the mesh is arbitrary.
+                        pj = float('%.9e' % pj)  # relative rounding: the scale of the mesh is arbitrary.
                         key = 'Linear:' + axis[0] + str(pi) + axis[1] + str(pj)
 
                         element_number = element_numbering[i, j]
@@ -134,9 +132,9 @@ class _MsePyRegionMtype(Frozen):
 
                             Li, Lj, Lk = LayOut[0][i], LayOut[1][j], LayOut[2][k]
                             pi, pj, pk = para[0] * Li, para[1] * Lj, para[2] * Lk
-                            pi = round(pi, 5)
-                            pj = round(pj, 5)
-                            pk = round(pk, 5)
+                            pi = float('%.9e' % pi)  # relative rounding: the scale of the mesh is arbitrary.
+                            pj = float('%.9e' % pj)  # relative rounding: the scale of the mesh is arbitrary.
+                            pk = float('%.9e' % pk)  # relative rounding: the scale of the mesh is arbitrary.
                             key = 'Linear:' + axis[0] + str(pi) + axis[1] + str(pj) + axis[2] + str(pk)
 
                             element_number = element_numbering[i, j, k]
diff --git a/msepy/mesh/elements/main.py b/msepy/mesh/elements/main.py
index 0f793ba..eeb430e 100644
--- a/msepy/mesh/elements/main.py
+++ b/msepy/mesh/elements/main.py
@@ -103,7 +103,7 @@ class MsePyMeshElements(Frozen):
         if self.___layout_cache_key___ is None:
             self.___layout_cache_key___ = dict()
             for i in self._delta:
-                self.___layout_cache_key___[i] = hash(str(self._delta[i]))
+                self.___layout_cache_key___[i] = hash(tuple(tuple(_) for _ in self._delta[i]))
         return self.___layout_cache_key___
 
     def _generate_elements_from_layout(self, layouts):
-- 
2.43.0


From ae1572851fb6a990b0eb739ad5896da3c54c28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 06/84] fix: unqualified intra-package imports fail (or load a
 second copy of the package) when phyem is installed as a package

---
 msehtt/adaptive/main.py                           |  2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py   |  6 +++---
 msehtt/static/form/export/main.py                 |  2 +-
 msehtt/tools/nonlinear_system/dynamic/main.py     |  2 +-
 msehtt/tools/nonlinear_system/static/main.py      |  2 +-
 msepy/form/main.py                                |  6 +++---
 msepy/form/numeric/main.py                        |  2 +-
 msepy/form/visualize/matplot.py                   |  2 +-
 msepy/manifold/visualize/matplot.py               |  2 +-
 msepy/mesh/boundary_section/main.py               |  2 +-
 msepy/mesh/boundary_section/visualize/matplot.py  |  2 +-
 msepy/mesh/visualize/matplot.py                   |  2 +-
 msepy/space/degree.py                             |  2 +-
 msepy/space/gathering_matrix/Lambda.py            |  2 +-
 msepy/space/mass_matrix/Lambda.py                 |  2 +-
 msepy/space/reconstruct/Lambda.py                 |  2 +-
 msepy/space/reduce/Lambda.py                      |  2 +-
 msepy/space/trace_matrix/Lambda.py                |  2 +-
 msepy/tools/linear_system/dynamic/_arr_par.py     |  6 +++---
 msepy/tools/linear_system/dynamic/main.py         |  2 +-
 msepy/tools/linear_system/static/local/main.py    |  2 +-
 msepy/tools/nonlinear_system/dynamic/main.py      |  6 +++---
 msepy/tools/nonlinear_system/static/customize.py  |  8 ++++----
 msepy/tools/nonlinear_system/static/local.py      |  2 +-
 msepy/tools/polynomials.py                        |  4 ++--
 src/algebra/array.py                              |  2 +-
 src/algebra/linear_system.py                      | 12 ++++++------
 src/time_sequence.py                              |  4 ++--
 src/wf/term/ap.py                                 |  4 ++--
 tools/functions/time_space/_2d/wrappers/scalar.py |  8 ++++----
 tools/functions/time_space/_2d/wrappers/vector.py |  8 ++++----
 tools/miscellaneous/undirected_graph.py           |  2 +-
 32 files changed, 57 insertions(+), 57 deletions(-)

diff --git a/msehtt/adaptive/main.py b/msehtt/adaptive/main.py
index 8fb4f64..730103e 100644
--- a/msehtt/adaptive/main.py
+++ b/msehtt/adaptive/main.py
@@ -406,7 +406,7 @@ def info(*others_2b_printed):
         else:
             pass
     print(f"\n~) Existing time sequences --------- ")
-    from src.time_sequence import _global_abstract_time_sequence
+    from phyem.src.time_sequence import _global_abstract_time_sequence
     for ats_lin in _global_abstract_time_sequence:
         ats = _global_abstract_time_sequence[ats_lin]
         ats.info()
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index bd5cf77..6df07fc 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -45,9 +45,9 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
     return data_dict
 
 
-from msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
-from msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
-from msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
+from phyem.msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
 
 
 def ___bi_vc_330_orthogonal_hexahedral___(element, degree, face, tvc):
diff --git a/msehtt/static/form/export/main.py b/msehtt/static/form/export/main.py
index a6e1733..f210b73 100644
--- a/msehtt/static/form/export/main.py
+++ b/msehtt/static/form/export/main.py
@@ -29,7 +29,7 @@ class MseHtt_Static_Form_Export(Frozen):
 
     def vtk(self, filename, ddf=1):
         r""""""
-        from tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
+        from phyem.tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
         ___ph_vtk_msehtt_static_copy___(filename, self._f[self._t], ddf=ddf)
 
     def tsf(self, filename, ddf=1):
diff --git a/msehtt/tools/nonlinear_system/dynamic/main.py b/msehtt/tools/nonlinear_system/dynamic/main.py
index fde2b62..b28d3d2 100644
--- a/msehtt/tools/nonlinear_system/dynamic/main.py
+++ b/msehtt/tools/nonlinear_system/dynamic/main.py
@@ -213,7 +213,7 @@ class MseHttDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
 
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
diff --git a/msehtt/tools/nonlinear_system/static/main.py b/msehtt/tools/nonlinear_system/static/main.py
index d330073..67fa7c3 100644
--- a/msehtt/tools/nonlinear_system/static/main.py
+++ b/msehtt/tools/nonlinear_system/static/main.py
@@ -330,7 +330,7 @@ class MseHttStaticNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}].')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/form/main.py b/msepy/form/main.py
index d1925d3..39b9c26 100644
--- a/msepy/form/main.py
+++ b/msepy/form/main.py
@@ -80,7 +80,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -106,7 +106,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -485,7 +485,7 @@ class MsePyRootForm(Frozen):
         inner_product_matrix = self.space.inner_product(
             self.degree, (other_form.space, other_form.degree)
         )
-        from msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
+        from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
 
         inner_product_matrix = MsePyStaticLocalMatrix(
             inner_product_matrix,
diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index 8ae6c05..f2b9706 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -305,7 +305,7 @@ class MsePyRootFormNumeric(Frozen):
             pass
         else:
             import pickle
-            from src.config import SIZE
+            from phyem.src.config import SIZE
             if SIZE == 1:
                 # we are only calling one thread, so just go ahead with it.
                 with open(saveto, 'wb') as output:
diff --git a/msepy/form/visualize/matplot.py b/msepy/form/visualize/matplot.py
index 85b8e3b..ed9a95a 100644
--- a/msepy/form/visualize/matplot.py
+++ b/msepy/form/visualize/matplot.py
@@ -358,7 +358,7 @@ class MsePyRootFormVisualizeMatplot(Frozen):
     ):
         """"""
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/manifold/visualize/matplot.py b/msepy/manifold/visualize/matplot.py
index c494b79..a8f77c5 100644
--- a/msepy/manifold/visualize/matplot.py
+++ b/msepy/manifold/visualize/matplot.py
@@ -144,7 +144,7 @@ class MsePyManifoldVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
         return fig
diff --git a/msepy/mesh/boundary_section/main.py b/msepy/mesh/boundary_section/main.py
index e130b92..178abfa 100644
--- a/msepy/mesh/boundary_section/main.py
+++ b/msepy/mesh/boundary_section/main.py
@@ -87,7 +87,7 @@ class MsePyBoundarySectionMesh(Frozen):
         If the target is the gathering matrix, then we find all global dofs on the
         boundary section.
         """
-        from msepy.form.main import MsePyRootForm
+        from phyem.msepy.form.main import MsePyRootForm
         assert f.__class__ is MsePyRootForm, f"f must be a msepy root form."
         gathering_matrix = f.cochain.gathering_matrix
 
diff --git a/msepy/mesh/boundary_section/visualize/matplot.py b/msepy/mesh/boundary_section/visualize/matplot.py
index 9d55f95..9a5da5a 100644
--- a/msepy/mesh/boundary_section/visualize/matplot.py
+++ b/msepy/mesh/boundary_section/visualize/matplot.py
@@ -112,7 +112,7 @@ class Matplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshBoundarySection')
             else:
diff --git a/msepy/mesh/visualize/matplot.py b/msepy/mesh/visualize/matplot.py
index 55aec64..388edb9 100644
--- a/msepy/mesh/visualize/matplot.py
+++ b/msepy/mesh/visualize/matplot.py
@@ -186,7 +186,7 @@ class MsePyMeshVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/msepy/space/degree.py b/msepy/space/degree.py
index 613f627..b156e7c 100644
--- a/msepy/space/degree.py
+++ b/msepy/space/degree.py
@@ -160,7 +160,7 @@ class PySpaceDegree(Frozen):
     @property
     def gathering_matrix(self):
         """For msehy-py spaces, access gathering matrix here only for more recent generation mesh!"""
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh_class = self._space.mesh.__class__
         if mesh_class is MsePyMesh:
             return self._space.gathering_matrix(self._degree)
diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 884d9c1..3d16470 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -1340,7 +1340,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
     def _m2_n1_k1(self, p):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/mass_matrix/Lambda.py b/msepy/space/mass_matrix/Lambda.py
index 0c088ef..425ba2b 100644
--- a/msepy/space/mass_matrix/Lambda.py
+++ b/msepy/space/mass_matrix/Lambda.py
@@ -338,7 +338,7 @@ class MsePyMassMatrixLambda(Frozen):
         quad_nodes, quad_weights = quad.quad
         xi_et, bfs = self._space.basis_functions[degree](quad_nodes)
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reconstruct/Lambda.py b/msepy/space/reconstruct/Lambda.py
index ab7776d..9194250 100644
--- a/msepy/space/reconstruct/Lambda.py
+++ b/msepy/space/reconstruct/Lambda.py
@@ -223,7 +223,7 @@ class MsePySpaceReconstructLambda(Frozen):
         nodes, bfs = self._space.basis_functions[degree](xi)
 
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reduce/Lambda.py b/msepy/space/reduce/Lambda.py
index 4eab720..2eb47c3 100644
--- a/msepy/space/reduce/Lambda.py
+++ b/msepy/space/reduce/Lambda.py
@@ -385,7 +385,7 @@ class MsePySpaceReduceLambda(Frozen):
             dtype=float
         )
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/trace_matrix/Lambda.py b/msepy/space/trace_matrix/Lambda.py
index 0525c40..d8372b6 100644
--- a/msepy/space/trace_matrix/Lambda.py
+++ b/msepy/space/trace_matrix/Lambda.py
@@ -46,7 +46,7 @@ class MsePyTraceMatrixLambda(Frozen):
 
     def _m2_n2_k1_outer(self, degree):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/tools/linear_system/dynamic/_arr_par.py b/msepy/tools/linear_system/dynamic/_arr_par.py
index 51d7211..9792186 100644
--- a/msepy/tools/linear_system/dynamic/_arr_par.py
+++ b/msepy/tools/linear_system/dynamic/_arr_par.py
@@ -209,7 +209,7 @@ def Parse__trace_matrix(space_lin_repr, degree_str):
     degree = _str_degree_parser(degree_str)
     space = _find_space_through_pure_lin_repr(space_lin_repr)
     gm_space_1 = space.gathering_matrix(degree)
-    from src.spaces.operators import trace as space_trace
+    from phyem.src.spaces.operators import trace as space_trace
     trace_space = _find_space_through_pure_lin_repr(space_trace(space.abstract)._pure_lin_repr)
     gm_trace_0 = trace_space.gathering_matrix(degree)
     tM = space.trace_matrix(degree)
@@ -262,7 +262,7 @@ def Parse__pi_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.projection import MsePySpaceProjection
+    from phyem.msepy.space.addons.projection import MsePySpaceProjection
     pi = MsePySpaceProjection(from_space, to_space, from_d, to_d)
     return pi.matrix, None
 
@@ -273,7 +273,7 @@ def Parse__star_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.Hodge import MsePySpaceHodge
+    from phyem.msepy.space.addons.Hodge import MsePySpaceHodge
     H = MsePySpaceHodge(from_space, to_space, from_d, to_d)
     return H.matrix, None
 
diff --git a/msepy/tools/linear_system/dynamic/main.py b/msepy/tools/linear_system/dynamic/main.py
index 971f4b2..69cf925 100644
--- a/msepy/tools/linear_system/dynamic/main.py
+++ b/msepy/tools/linear_system/dynamic/main.py
@@ -347,7 +347,7 @@ class MsePyDynamicLinearSystem(Frozen):
 
     def pr(self, figsize=(10, 4)):
         """pr"""
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         plt.rcParams.update({
             "text.usetex": True,
             "font.family": "DejaVu Sans",
diff --git a/msepy/tools/linear_system/static/local/main.py b/msepy/tools/linear_system/static/local/main.py
index 363ca40..8c1761d 100644
--- a/msepy/tools/linear_system/static/local/main.py
+++ b/msepy/tools/linear_system/static/local/main.py
@@ -274,7 +274,7 @@ class MsePyStaticLocalLinearSystem(Frozen):
             plt.text(0.05, 0.47, text, ha='left', va='top', size=15)
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
         plt.tight_layout()
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/dynamic/main.py b/msepy/tools/nonlinear_system/dynamic/main.py
index b804cbc..f9772de 100644
--- a/msepy/tools/nonlinear_system/dynamic/main.py
+++ b/msepy/tools/nonlinear_system/dynamic/main.py
@@ -146,7 +146,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         """the test forms."""
         if self._tfs is None:
             self._tfs = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_tfs = self._mp_nls._mp._wf.test_forms
             for atf in abstract_tfs:
@@ -163,7 +163,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
     def unknowns(self):
         if self._unknowns is None:
             self._unknowns = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_ufs = self._mp_nls._mp._wf.unknowns
             for auf in abstract_ufs:
@@ -250,7 +250,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/static/customize.py b/msepy/tools/nonlinear_system/static/customize.py
index bfe8b48..cf62d5b 100644
--- a/msepy/tools/nonlinear_system/static/customize.py
+++ b/msepy/tools/nonlinear_system/static/customize.py
@@ -150,8 +150,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
@@ -229,8 +229,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
diff --git a/msepy/tools/nonlinear_system/static/local.py b/msepy/tools/nonlinear_system/static/local.py
index 3847e3e..3382cea 100644
--- a/msepy/tools/nonlinear_system/static/local.py
+++ b/msepy/tools/nonlinear_system/static/local.py
@@ -285,7 +285,7 @@ class MsePyStaticLocalNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index b1d4129..184cace 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -297,7 +297,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
@@ -426,7 +426,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/src/algebra/array.py b/src/algebra/array.py
index 1569463..bcc2d41 100644
--- a/src/algebra/array.py
+++ b/src/algebra/array.py
@@ -182,7 +182,7 @@ class AbstractArray(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, text, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
     def __repr__(self):
diff --git a/src/algebra/linear_system.py b/src/algebra/linear_system.py
index 884d534..335d6e1 100644
--- a/src/algebra/linear_system.py
+++ b/src/algebra/linear_system.py
@@ -88,7 +88,7 @@ class BlockMatrix(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -100,7 +100,7 @@ class BlockMatrix(Frozen):
         plt.axis('off')
         plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
         plt.tight_layout()
-        from src.config import _setting
+        from phyem.src.config import _setting
         plt.show(block=_setting['block'])
         return fig
 
@@ -168,7 +168,7 @@ class BlockColVector(Frozen):
 
     def pr(self, figsize=(8, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -178,7 +178,7 @@ class BlockColVector(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
@@ -290,7 +290,7 @@ class LinearSystem(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """pr"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -300,7 +300,7 @@ class LinearSystem(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
diff --git a/src/time_sequence.py b/src/time_sequence.py
index f7c49b7..ebf3ef0 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -331,7 +331,7 @@ class ConstantTimeSequence(TimeSequence):
 
     def pr(self, obj=None):
         """print this constant interval time sequence together with an object."""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -458,7 +458,7 @@ class ConstantTimeSequence(TimeSequence):
                 )
             # ----- save -----------------------------------------------------
             plt.tight_layout()
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='constantTimeSequence')
             else:
diff --git a/src/wf/term/ap.py b/src/wf/term/ap.py
index f31f4a5..47da4ec 100644
--- a/src/wf/term/ap.py
+++ b/src/wf/term/ap.py
@@ -1835,7 +1835,7 @@ class _SimplePatternAPParser(Frozen):
 
         mass_matrix = _VarPar_M(A.space, A.space, A.degree, A.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         pi_B_space = codifferential(A.space)
         pi_B_degree = A.degree
 
@@ -1873,7 +1873,7 @@ class _SimplePatternAPParser(Frozen):
 
         M = _VarPar_M(B.space, B.space, B.degree, B.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         star_A_space = codifferential(B.space)
         star_A_degree = A.degree  # This Hodge could be inaccurate.
 
diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 08587a8..3a21729 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -253,7 +253,7 @@ class T2dScalar(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -477,9 +477,9 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/functions/time_space/_2d/wrappers/vector.py b/tools/functions/time_space/_2d/wrappers/vector.py
index ba71e4e..2757384 100644
--- a/tools/functions/time_space/_2d/wrappers/vector.py
+++ b/tools/functions/time_space/_2d/wrappers/vector.py
@@ -269,7 +269,7 @@ class T2dVector(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -774,9 +774,9 @@ class T2dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/miscellaneous/undirected_graph.py b/tools/miscellaneous/undirected_graph.py
index b6aa9b9..d5c94d0 100644
--- a/tools/miscellaneous/undirected_graph.py
+++ b/tools/miscellaneous/undirected_graph.py
@@ -217,7 +217,7 @@ class CoordinatedUndirectedGraph(Frozen):
             if saveto is not None and saveto != '':
                 plt.savefig(saveto, bbox_inches='tight', pad_inches=pad_inches)
             else:
-                from src.config import _setting, _pr_cache
+                from phyem.src.config import _setting, _pr_cache
                 if _setting['pr_cache']:
                     _pr_cache(fig, filename='msehtt_elements')
                 else:
-- 
2.43.0


From 9b0af07e7c97385f562c4670fb1cb8b3c56da7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 07/84] fix: convection_by rejected every vector (class name
 misspelt in its assertion)

---
 tools/functions/time_space/_2d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/vector.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 3a21729..ef108d3 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -372,7 +372,7 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t2dVector", f"I need a t2dVector."
+        assert u.__class__.__name__ == "T2dVector", f"I need a T2dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/scalar.py b/tools/functions/time_space/_3d/wrappers/scalar.py
index d310ca2..64f8afa 100644
--- a/tools/functions/time_space/_3d/wrappers/scalar.py
+++ b/tools/functions/time_space/_3d/wrappers/scalar.py
@@ -233,7 +233,7 @@ class T3dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index 7c0d528..2f8c0ea 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -408,7 +408,7 @@ class T3dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._du_dx is None:
             v0px = self._NPD0_('x')
-- 
2.43.0


From eeabf0867908ab7f9b32ae8d101303f3d36dc30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 08/84] fix: 3d vector convection used a missing dv/dz and
 ignored a given one

---
 tools/functions/time_space/_3d/wrappers/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index 2f8c0ea..e34bcf4 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -435,7 +435,7 @@ class T3dVector(TimeSpaceFunctionBase):
         else:
             v1py = self._dv_dy
 
-        if self._dv_dz:
+        if self._dv_dz is None:
             v1pz = self._NPD1_('z')
         else:
             v1pz = self._dv_dz
-- 
2.43.0


From a1b1f605e9bd7ffd6173e8a9bf2a0e0b3c67bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 09/84] fix: 3d vector with a linked object was evaluated
 without z

---
 tools/functions/time_space/_3d/wrappers/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index e34bcf4..48b8b0d 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -162,7 +162,7 @@ class T3dVector(TimeSpaceFunctionBase):
         if self._v0v1v2_linked_object is None:
             return self._v0_(t, x, y, z), self._v1_(t, x, y, z), self._v2_(t, x, y, z)
         else:
-            return self._v0v1v2_linked_object(t, x, y)
+            return self._v0v1v2_linked_object(t, x, y, z)
 
     def __getitem__(self, t):
         """return functions evaluated at time `t`."""
-- 
2.43.0


From 626d8d2359c57245a61b40aeb4ea7c45e2770fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 10/84] fix: the derivative check of a 3d vector on a mesh used
 x for z

---
 tools/functions/time_space/_3d/wrappers/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index 48b8b0d..adeec3a 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -237,7 +237,7 @@ class T3dVector(TimeSpaceFunctionBase):
         else:
             # 4.1) do dt, dx, dy checking ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             for i in X:
-                x, y, z = X[i], Y[i], X[i]
+                x, y, z = X[i], Y[i], Z[i]
                 t = self._find_random_testing_time_instance_()
                 npd_u = NumericalPartialDerivativeTxyz(self._v0_, t, x, y, z)
                 npd_v = NumericalPartialDerivativeTxyz(self._v1_, t, x, y, z)
-- 
2.43.0


From bedb4ca4802847d82aabe2bd943a2f00c9564e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 11/84] fix: genpiecewise with a default piece failed
 (np.broadcast_arrays returns a tuple)

---
 tools/gen_piece_wise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gen_piece_wise.py b/tools/gen_piece_wise.py
index 167b796..38689a8 100644
--- a/tools/gen_piece_wise.py
+++ b/tools/gen_piece_wise.py
@@ -112,7 +112,7 @@ def genpiecewise(xi, condlist, funclist, fillvalue=0, args=(), **kw):
 
     if not isinstance(xi, (list, tuple)):
         xi = (xi,)
-    condlist = np.broadcast_arrays(*condlist)
+    condlist = list(np.broadcast_arrays(*condlist))
     # noinspection PyTypeChecker
     if len(condlist) == len(funclist) - 1:
         # noinspection PyUnresolvedReferences
-- 
2.43.0


From fd46a28a9c11a50e25058781c33e7ea78401518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 12/84] fix: ndarray cache returned results of nearby (not
 equal) points

---
 tools/miscellaneous/ndarray_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/miscellaneous/ndarray_cache.py b/tools/miscellaneous/ndarray_cache.py
index 53b39e6..e368d8f 100644
--- a/tools/miscellaneous/ndarray_cache.py
+++ b/tools/miscellaneous/ndarray_cache.py
@@ -89,7 +89,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
                         t_o_f = False
                         break
 
-                    if not np.allclose(ca, ia):
+                    if not np.array_equal(ca, ia):
                         t_o_f = False
                         break
 
@@ -105,7 +105,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
 
         cache_arrays = keys[key]
         assert (len(cache_arrays) == len(arrays) and
-                all([np.allclose(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
+                all([np.array_equal(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
                 check_strings[key] == check_str), \
             f"safety check!"
         _, __ = 1, values[key]
-- 
2.43.0


From 6d12f087c20d90a2377f332068799b6a49009e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 13/84] fix: ndarray cache kept references to the caller's
 arrays

---
 tools/miscellaneous/ndarray_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miscellaneous/ndarray_cache.py b/tools/miscellaneous/ndarray_cache.py
index e368d8f..2f79f00 100644
--- a/tools/miscellaneous/ndarray_cache.py
+++ b/tools/miscellaneous/ndarray_cache.py
@@ -173,6 +173,6 @@ def add_to_ndarray_cache(cache, arrays, results, check_str='', maximum=25):
     else:
         current_key = 0
 
-    keys[current_key] = arrays
+    keys[current_key] = [ar.copy() for ar in arrays]  # the caller may change its arrays in place
     values[current_key] = results
     check_strings[current_key] = check_str
-- 
2.43.0


From 0969f4b6bfc5a2bbafe742c789ed2b6d8ca6fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 14/84] fix: 1d polynomials on node sets equal to 5 decimals
 shared cached basis values

---
 msepy/tools/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index 184cace..d0e46ef 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -69,7 +69,7 @@ class _OneDimPolynomial(Frozen):
             if node in (-1, 1):
                 str_nodes_key.append(str(node))
             else:
-                str_nodes_key.append("%.5f" % node)
+                str_nodes_key.append(repr(float(node)))
         self._str_nodes_key = '|'.join(str_nodes_key)
         self._p_ = np.size(self.nodes) - 1
         self._isKronecker_ = True
-- 
2.43.0


From a0efbc7b1c6cf9a8c87d221d8fbbfade44b6a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 15/84] fix: mixed node types took the axis index for the
 degree of the Lobatto basis

---
 msehtt/static/space/basis_function/Lambda/bf_m2n2k0.py | 4 ++--
 msehtt/static/space/basis_function/Lambda/bf_m2n2k1.py | 8 ++++----
 msehtt/static/space/basis_function/Lambda/bf_m2n2k2.py | 2 +-
 msehtt/static/space/basis_function/Lambda/bf_m3n3k0.py | 2 +-
 msehtt/static/space/basis_function/Lambda/bf_m3n3k1.py | 2 +-
 msehtt/static/space/basis_function/Lambda/bf_m3n3k2.py | 2 +-
 msehtt/static/space/basis_function/Lambda/bf_m3n3k3.py | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/msehtt/static/space/basis_function/Lambda/bf_m2n2k0.py b/msehtt/static/space/basis_function/Lambda/bf_m2n2k0.py
index 6cac38d..58d1a58 100644
--- a/msehtt/static/space/basis_function/Lambda/bf_m2n2k0.py
+++ b/msehtt/static/space/basis_function/Lambda/bf_m2n2k0.py
@@ -30,7 +30,7 @@ def ___bf220_msepy_quadrilateral___(p, btype, xi_1d, eta_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
@@ -69,7 +69,7 @@ def ___bf220_utv_5_triangle___(p, btype, xi_1d, eta_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
diff --git a/msehtt/static/space/basis_function/Lambda/bf_m2n2k1.py b/msehtt/static/space/basis_function/Lambda/bf_m2n2k1.py
index 682f76d..2348ce3 100644
--- a/msehtt/static/space/basis_function/Lambda/bf_m2n2k1.py
+++ b/msehtt/static/space/basis_function/Lambda/bf_m2n2k1.py
@@ -31,7 +31,7 @@ def ___bf221o_outer_msepy_quadrilateral___(p, btype, xi_1d, eta_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
@@ -75,7 +75,7 @@ def ___bf221o_outer_vtu_5___(p, btype, xi_1d, eta_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
@@ -122,7 +122,7 @@ def ___bf221i_inner_msepy_quadrilateral___(p, btype, xi_1d, eta_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
@@ -163,7 +163,7 @@ def ___bf221i_inner_vtu_5___(p, btype, xi_1d, eta_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
diff --git a/msehtt/static/space/basis_function/Lambda/bf_m2n2k2.py b/msehtt/static/space/basis_function/Lambda/bf_m2n2k2.py
index fa6d14d..346006d 100644
--- a/msehtt/static/space/basis_function/Lambda/bf_m2n2k2.py
+++ b/msehtt/static/space/basis_function/Lambda/bf_m2n2k2.py
@@ -28,7 +28,7 @@ def ___bf222_msepy_quadrilateral___(p, btype, xi_1d, eta_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
diff --git a/msehtt/static/space/basis_function/Lambda/bf_m3n3k0.py b/msehtt/static/space/basis_function/Lambda/bf_m3n3k0.py
index 278faa6..398dfa3 100644
--- a/msehtt/static/space/basis_function/Lambda/bf_m3n3k0.py
+++ b/msehtt/static/space/basis_function/Lambda/bf_m3n3k0.py
@@ -30,7 +30,7 @@ def ___bf330_msepy_quadrilateral___(p, btype, xi_1d, eta_1d, sg_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
diff --git a/msehtt/static/space/basis_function/Lambda/bf_m3n3k1.py b/msehtt/static/space/basis_function/Lambda/bf_m3n3k1.py
index 686e52b..adde5da 100644
--- a/msehtt/static/space/basis_function/Lambda/bf_m3n3k1.py
+++ b/msehtt/static/space/basis_function/Lambda/bf_m3n3k1.py
@@ -30,7 +30,7 @@ def ___bf331_msepy_quadrilateral___(p, btype, xi_1d, eta_1d, sg_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
diff --git a/msehtt/static/space/basis_function/Lambda/bf_m3n3k2.py b/msehtt/static/space/basis_function/Lambda/bf_m3n3k2.py
index 738a4b9..2531a00 100644
--- a/msehtt/static/space/basis_function/Lambda/bf_m3n3k2.py
+++ b/msehtt/static/space/basis_function/Lambda/bf_m3n3k2.py
@@ -30,7 +30,7 @@ def ___bf332_msepy_quadrilateral___(p, btype, xi_1d, eta_1d, sg_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
diff --git a/msehtt/static/space/basis_function/Lambda/bf_m3n3k3.py b/msehtt/static/space/basis_function/Lambda/bf_m3n3k3.py
index cf4b783..d28e083 100644
--- a/msehtt/static/space/basis_function/Lambda/bf_m3n3k3.py
+++ b/msehtt/static/space/basis_function/Lambda/bf_m3n3k3.py
@@ -30,7 +30,7 @@ def ___bf333_msepy_quadrilateral___(p, btype, xi_1d, eta_1d, sg_1d):
         bfs = []
         for pi, bt in enumerate(btype):
             if bt == 'Lobatto':
-                BasisFunction = Lobatto_polynomials_of_degree(pi)
+                BasisFunction = Lobatto_polynomials_of_degree(p[pi])
             else:
                 BasisFunction = polynomials_on_nodes(bt)
             bfs.append(BasisFunction)
-- 
2.43.0


From 6685efb6c556b33271767a3401ba588414051fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 16/84] fix: constant time sequence refused instants rounded
 just below an integer

---
 src/time_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index ebf3ef0..6ad3e16 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -302,7 +302,7 @@ class ConstantTimeSequence(TimeSequence):
         """
         assert isinstance(k, (int, float)), f"specific time sequence must use number for time instant."
         time = self.t_0 + k * self._dt
-        remainder = round(k % 1, 8)
+        remainder = round(k % 1, 8) % 1  # k slightly below an integer has remainder 0 as well
         if time < self.t_0 - self._dt:  # leave a dt as lower margin
             raise TimeInstantError(
                 f"t[{k}] = {time} is lower than t0: {self.t_0} - dt: {self._dt}.")
-- 
2.43.0


From e367f2f29f5d46b5f1d892b6d47e7b2a391caa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 17/84] fix: a refused time increment left the function time
 sequence with a step without a time

---
 src/time_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index 6ad3e16..967dd93 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -212,9 +212,9 @@ class FunctionTimeSequence(TimeSequence):
         if k > self._step_sequence[-1]:
             # looking for a time step ahead. We first make a new time instant ahead.
             _new_time_step = round(self._step_sequence[-1] + self._step_interval, 8)
-            self._step_sequence.append(_new_time_step)
             dt = self._func()
             assert dt > 0, f"time interval must be larger than 0. Now it is {dt}."
+            self._step_sequence.append(_new_time_step)
             self._time_sequence.append(self._time_sequence[-1] + dt)
         else:
             pass
-- 
2.43.0


From 0b533316d946c7837a9f4e30924235abacb40dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 18/84] fix: component sizes of an outer 1-form cochain were
 those of an inner 1-form

---
 .../space/num_local_dofs/Lambda/num_local_dofs_m2n2k1.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/space/num_local_dofs/Lambda/num_local_dofs_m2n2k1.py b/msehtt/static/space/num_local_dofs/Lambda/num_local_dofs_m2n2k1.py
index 6916abc..00c874a 100644
--- a/msehtt/static/space/num_local_dofs/Lambda/num_local_dofs_m2n2k1.py
+++ b/msehtt/static/space/num_local_dofs/Lambda/num_local_dofs_m2n2k1.py
@@ -47,8 +47,8 @@ def _num_local_dofs__m2n2k1_outer_msepy_rectangle_(p):
         pass
     else:
         px, py = p
-        Px = px * (py + 1)
-        Py = (px + 1) * py
+        Px = (px + 1) * py
+        Py = px * (py + 1)
 
         _cache_221o_[p] = Px + Py, (Px, Py)
 
-- 
2.43.0


From ec56aba617e5d9acdd48cdc407310224c47185b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 19/84] fix: incidence matrices of triangles shared the cache
 key of those of quads (inner 1-form)

---
 msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py b/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
index 8750393..f2f8aca 100644
--- a/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
+++ b/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
@@ -378,7 +378,7 @@ def _im221i_vtu5_(element, degree):
                 E[dn[i, j], sn[0][i, j + 1]] = -1   # y+
 
         E = csr_matrix(E)
-        cache_key = f"mq{p}"
+        cache_key = f"vtu5i{p}"
         _cache_vtu5_i_[p] = E, cache_key
 
     if 'm2n2k1_inner' not in element.dof_reverse_info:
-- 
2.43.0


From dff2020edabdc00211223638b63027b4eda2754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 20/84] fix: the dofs of a 3d 1-form on a face were taken from
 the edges normal to the face

---
 msepy/space/find/local_dofs.py | 40 ++++++++++++----------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/msepy/space/find/local_dofs.py b/msepy/space/find/local_dofs.py
index b2da771..53a4939 100644
--- a/msepy/space/find/local_dofs.py
+++ b/msepy/space/find/local_dofs.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+import numpy as np
+
 from phyem.tools.frozen import Frozen
 
 
@@ -214,40 +216,26 @@ class _MsePySpaceFindLocalDofs(Frozen):
         return face_local_numbering
 
     def _Lambda_m3_n3_k1(self, m, n, degree):
-        """"""
+        """The dofs of a 1-form on a face are those on the edges lying in (tangential to) the face."""
         local_numbering_dx, local_numbering_dy, local_numbering_dz = self._space.local_numbering(degree)
 
-        if m == 0:
-            local_numbering = local_numbering_dx
-            if n == 0:
-                face_local_numbering = local_numbering[0, :, :]
-            elif n == 1:
-                face_local_numbering = local_numbering[-1, :, :]
-            else:
-                raise Exception()
+        if n == 0:
+            i = 0
+        elif n == 1:
+            i = -1
+        else:
+            raise Exception()
 
+        if m == 0:
+            face_local_numbering = (local_numbering_dy[i, :, :], local_numbering_dz[i, :, :])
         elif m == 1:
-            local_numbering = local_numbering_dy
-            if n == 0:
-                face_local_numbering = local_numbering[:, 0, :]
-            elif n == 1:
-                face_local_numbering = local_numbering[:, -1, :]
-            else:
-                raise Exception()
-
+            face_local_numbering = (local_numbering_dz[:, i, :], local_numbering_dx[:, i, :])
         elif m == 2:
-            local_numbering = local_numbering_dz
-            if n == 0:
-                face_local_numbering = local_numbering[:, :, 0]
-            elif n == 1:
-                face_local_numbering = local_numbering[:, :, -1]
-            else:
-                raise Exception()
-
+            face_local_numbering = (local_numbering_dx[:, :, i], local_numbering_dy[:, :, i])
         else:
             raise Exception()
 
-        return face_local_numbering
+        return np.concatenate([_.ravel('F') for _ in face_local_numbering])
 
     def _Lambda_m3_n3_k2(self, m, n, degree):
         """"""
-- 
2.43.0


From 674a05da7cb64faeeed8966985809f8e6e68cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 21/84] fix: component-wise face dofs of a 3d 2-form shifted
 the cached local numbering in place

---
 .../space/find/local_dofs_on_face/Lambda/m3n3k2.py   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py b/msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py
index 7044470..94e1a53 100644
--- a/msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py
+++ b/msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py
@@ -29,17 +29,17 @@ def __m3n3k2_msepy_hexahedral_(p, face_index, component_wise=False):
         ln_dydz, ln_dzdx, ln_dxdy = _ln_m3n3k2_msepy_quadrilateral_(p)
 
         if face_index == 0:  # x- face
-            local_numbering = ln_dydz[0, :, :]
+            local_numbering = ln_dydz[0, :, :].copy()
         elif face_index == 1:  # x+ face
-            local_numbering = ln_dydz[-1, :, :]
+            local_numbering = ln_dydz[-1, :, :].copy()
         elif face_index == 2:  # y- face
-            local_numbering = ln_dzdx[:, 0, :]
+            local_numbering = ln_dzdx[:, 0, :].copy()
         elif face_index == 3:  # y+ face
-            local_numbering = ln_dzdx[:, -1, :]
+            local_numbering = ln_dzdx[:, -1, :].copy()
         elif face_index == 4:  # z- face
-            local_numbering = ln_dxdy[:, :, 0]
+            local_numbering = ln_dxdy[:, :, 0].copy()
         elif face_index == 5:  # z+ face
-            local_numbering = ln_dxdy[:, :, -1]
+            local_numbering = ln_dxdy[:, :, -1].copy()
         else:
             raise Exception()
 
-- 
2.43.0


From 822c87a07d9dce4a6d9302b035a4a30e66ab5ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 22/84] fix: a negative element index was counted from the
 number of local dofs

---
 msepy/tools/linear_system/static/local/customize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/static/local/customize.py b/msepy/tools/linear_system/static/local/customize.py
index 133121a..3ad1c60 100644
--- a/msepy/tools/linear_system/static/local/customize.py
+++ b/msepy/tools/linear_system/static/local/customize.py
@@ -71,7 +71,7 @@ class MsePyStaticLinearSystemCustomize(Frozen):
         num_elements, k_num_local_dofs = k_gm.shape
 
         if i < 0:
-            _i = i + k_num_local_dofs
+            _i = i + num_elements
         else:
             _i = i
 
-- 
2.43.0


From 0a8e000ba546bbfa133445a6274ab4d004a7f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 23/84] fix: component-wise z-face dofs of a 3d 2-form were
 shifted twice by the size of the first component

---
 msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py b/msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py
index 94e1a53..62e562b 100644
--- a/msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py
+++ b/msehtt/static/space/find/local_dofs_on_face/Lambda/m3n3k2.py
@@ -51,9 +51,8 @@ def __m3n3k2_msepy_hexahedral_(p, face_index, component_wise=False):
                 local_numbering -= dydz_max
                 _cache_332_[key] = 1, local_numbering
             elif face_index in (4, 5):
-                dydz_max = np.max(ln_dydz) + 1
                 dzdx_max = np.max(ln_dzdx) + 1
-                local_numbering -= dydz_max + dzdx_max
+                local_numbering -= dzdx_max
                 _cache_332_[key] = 2, local_numbering
             else:
                 pass
-- 
2.43.0


From c220a887af04f3c4525171d5ea5bf078262547cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 24/84] fix: x-bounds of an orthogonal hexahedron use its
 x-extent

---
 tools/miscellaneous/geometries/m3n3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m3n3.py b/tools/miscellaneous/geometries/m3n3.py
index 641ced2..73c15e0 100644
--- a/tools/miscellaneous/geometries/m3n3.py
+++ b/tools/miscellaneous/geometries/m3n3.py
@@ -503,7 +503,7 @@ class OrthogonalHexahedron(Frozen):
 
         self._d_xyz = (abs(dx), abs(dy), abs(dz))
 
-        self._bounds0 = [x0, x0 + dy]
+        self._bounds0 = [x0, x0 + dx]
         self._bounds1 = [y0, y0 + dy]
         self._bounds2 = [z0, z0 + dz]
 
-- 
2.43.0


From b2cec7b56debe8eef4183360f9a5cd7b6dcdf995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 25/84] fix: geometry of a 2-form dof in a quadrilateral that
 is no axis-aligned rectangle

---
 .../dof_geometry/local/findLocalDof_Lambda.py     | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py b/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
index 9a1b5fe..e7e08c7 100644
--- a/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
+++ b/msehtt/static/space/find/dof_geometry/local/findLocalDof_Lambda.py
@@ -156,13 +156,14 @@ def _find_geo_local_dof_m2n2k2_(degree, element, local_dof_index):
         xi_1 = nodes_xi[i+1]
         et_0 = nodes_et[j]
         et_1 = nodes_et[j+1]
-        x, y = element.ct.mapping(np.array([xi_0, xi_1]), np.array([et_0, et_1]))
-        x0, x1 = x
-        y0, y1 = y
-        point0 = Point2(x0, y0)
-        point1 = Point2(x1, y0)
-        point2 = Point2(x1, y1)
-        point3 = Point2(x0, y1)
+        x, y = element.ct.mapping(
+            np.array([xi_0, xi_1, xi_1, xi_0]),
+            np.array([et_0, et_0, et_1, et_1])
+        )
+        point0 = Point2(x[0], y[0])
+        point1 = Point2(x[1], y[1])
+        point2 = Point2(x[2], y[2])
+        point3 = Point2(x[3], y[3])
         return Polygon2(point0, point1, point2, point3)
 
     else:
-- 
2.43.0


From 86671b9596322597749073c643c8ed71383df46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 26/84] fix: global numbering of a composition's dof uses its
 local index, not the (rank, element) pair

---
 msehtt/tools/gathering_matrix.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index ac3a580..6ef3b60 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -304,8 +304,20 @@ class MseHttGatheringMatrix(Frozen):
         And 1536 will be returned in all ranks. So, this method should be called at the same time
         in all ranks with the same inputs.
         """
-        e, i = self._gms[ith_composition].find_representative_location(locally_global_dof)
-        return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, e, i)
+        gm = self._gms[ith_composition]
+        representative_rank, element = gm.find_representative_location(locally_global_dof)
+        local_dof = None
+        if RANK == representative_rank:
+            for e, i in gm.find_rank_locations_of_global_dofs(locally_global_dof)[locally_global_dof]:
+                if e == element:
+                    local_dof = i
+                    break
+                else:
+                    pass
+        else:
+            pass
+        local_dof = COMM.bcast(local_dof, root=representative_rank)
+        return self.find_global_numbering_of_ith_composition_local_dof(ith_composition, element, local_dof)
 
     def find_global_numbering_of_ith_composition_local_dof(
             self, ith_composition, element_index, local_dof
-- 
2.43.0


From 768b4902ef220cf330221024bccfb4694a24ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 27/84] fix: Picard initial guess of an added constraint reads
 the constrained dof

---
 .../nonlinear_system/static/solve/Picard.py      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/msehtt/tools/nonlinear_system/static/solve/Picard.py b/msehtt/tools/nonlinear_system/static/solve/Picard.py
index 76a025a..de71713 100644
--- a/msehtt/tools/nonlinear_system/static/solve/Picard.py
+++ b/msehtt/tools/nonlinear_system/static/solve/Picard.py
@@ -13,7 +13,7 @@ from phyem.msehtt.tools.linear_system.static.local.main import MseHttStaticLocal
 from phyem.msehtt.tools.nonlinear_system.static.solve.Newton_Raphson import _check_stop_criterion_
 from phyem.msehtt.tools.vector.static.local import concatenate
 
-from phyem.src.config import COMM, MPI
+from phyem.src.config import COMM, MPI, RANK
 
 
 class MseHtt_NonlinearSystem_Picard(Frozen):
@@ -184,11 +184,17 @@ class MseHtt_NonlinearSystem_Picard(Frozen):
 
                     the_unknown = xi[ith_unknown]
                     the_gm = the_unknown._gm
-                    e, local_dof = the_gm.find_representative_location(global_dof)
-                    if e in the_unknown:
-                        initial_guess = the_unknown[e][global_dof]
+                    representative_rank, element = the_gm.find_representative_location(global_dof)
+                    initial_guess = 0
+                    if RANK == representative_rank:
+                        for e, local_dof in the_gm.find_rank_locations_of_global_dofs(global_dof)[global_dof]:
+                            if e == element:
+                                initial_guess = the_unknown[e][local_dof]
+                                break
+                            else:
+                                pass
                     else:
-                        initial_guess = 0
+                        pass
                     initial_guess = COMM.allreduce(initial_guess, op=MPI.SUM)
 
                     if insert_place == -1:
-- 
2.43.0


From f19ff612ed83e48b247fb959abd3b622a65c7fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 28/84] fix: gathering matrices are identified in caches by a
 counter, not by a reusable address

---
 msehtt/tools/gathering_matrix.py |  8 +++++++-
 msepy/tools/gathering_matrix.py  | 12 ++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index 6ef3b60..598aa7e 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -1,11 +1,17 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from itertools import count
+
 import numpy as np
 
 from phyem.tools.frozen import Frozen
 from phyem.src.config import COMM, RANK, MASTER_RANK, SIZE, MPI
 
+# each root gathering matrix gets a new number. An object address cannot be used to identify it in the caches
+# because the address is reused once the gathering matrix is garbage collected.
+___msehtt_gm_counter___ = count()
+
 ___cache_msehtt_gm_chaining___ = {}
 ___cache_msehtt_gm_find___ = {}
 
@@ -96,7 +102,7 @@ class MseHttGatheringMatrix(Frozen):
 
         if isinstance(gms, dict):
             self._composite = 1
-            self._signature = self.__repr__()
+            self._signature = f"MseHtt-GM-{next(___msehtt_gm_counter___)}"
             self._gms = (self,)
             self._gm = gms
 
diff --git a/msepy/tools/gathering_matrix.py b/msepy/tools/gathering_matrix.py
index a6e3e5e..424e238 100644
--- a/msepy/tools/gathering_matrix.py
+++ b/msepy/tools/gathering_matrix.py
@@ -1,12 +1,18 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from itertools import count
+
 import numpy as np
 
 from phyem.tools.frozen import Frozen
 from phyem.tools.miscellaneous.ndarray_cache import ndarray_key_comparer, add_to_ndarray_cache
 
 
+# each root gathering matrix gets a new number. An object address cannot be used to identify it in the caches
+# because the address is reused once the gathering matrix is garbage collected.
+_msepy_rgm_counter = count()
+
 _cgm_cache = {
     'signatures': '',
     'cgm': None,
@@ -26,10 +32,11 @@ class RegularGatheringMatrix(Frozen):
             assert np.ndim(gms) == 2
             self._gm = gms
             self._gms = (self,)
+            self._signature = f"Msepy-GM-{next(_msepy_rgm_counter)}"
             self._redundant_dof_setting = self._check_redundant_dof_setting(
                 redundant_dof_setting
             )
-            _find_cache_signature = self.__repr__()
+            _find_cache_signature = self._signature
 
         elif isinstance(gms, (list, tuple)):
             # we merge some gathering matrices into one
@@ -44,7 +51,7 @@ class RegularGatheringMatrix(Frozen):
             for gm in gms:
                 assert gm.__class__ is RegularGatheringMatrix, f"can only chain msepy gm."
 
-                signatures.append(gm.__repr__())
+                signatures.append(gm._signature)
 
                 if num_elements is None:
                     num_elements = gm.num_elements
@@ -110,6 +117,7 @@ class RegularGatheringMatrix(Frozen):
             _find_cache_signature = signatures
 
             self._composite = len(gms)
+            self._signature = signatures
             self._gm = cgm
             self._gms = gms
             self._redundant_dof_setting = self._parse_redundant_dof_setting(gms)
-- 
2.43.0


From d22bcf015f843c20e728b56e5f81b2e2b4e326b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 29/84] fix: gathering matrices of different sizes are unequal

---
 msehtt/tools/gathering_matrix.py | 2 +-
 msepy/tools/gathering_matrix.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/gathering_matrix.py b/msehtt/tools/gathering_matrix.py
index 598aa7e..18a1b83 100644
--- a/msehtt/tools/gathering_matrix.py
+++ b/msehtt/tools/gathering_matrix.py
@@ -289,7 +289,7 @@ class MseHttGatheringMatrix(Frozen):
                             else:
                                 s_numbering = sgm[i]
                                 o_numbering = ogm[i]
-                                if np.all(s_numbering == o_numbering):
+                                if np.array_equal(s_numbering, o_numbering):
                                     pass
                                 else:
                                     # noinspection PyUnusedLocal
diff --git a/msepy/tools/gathering_matrix.py b/msepy/tools/gathering_matrix.py
index 424e238..7476fe4 100644
--- a/msepy/tools/gathering_matrix.py
+++ b/msepy/tools/gathering_matrix.py
@@ -253,7 +253,7 @@ class RegularGatheringMatrix(Frozen):
         else:
             sgm = self._gm
             ogm = other._gm
-            return np.all(sgm == ogm)
+            return np.array_equal(sgm, ogm)
 
     def _find_global_numbering(self, elements, local_dofs):
         """find the global numbering at positions indicated by `elements` and `local_dofs`
-- 
2.43.0


From 3e4eb21169072828b6827a7f73565c81349aec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 30/84] fix: object representations used as cache keys are
 unique, freed meshes and spaces no longer answer for new ones

---
 tools/frozen.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tools/frozen.py b/tools/frozen.py
index 6cc581b..e2a5998 100644
--- a/tools/frozen.py
+++ b/tools/frozen.py
@@ -3,6 +3,9 @@ r"""
 """
 
 from abc import ABC
+from itertools import count
+
+_instance_counter = count()
 
 
 class FrozenError(Exception):
@@ -12,6 +15,17 @@ class FrozenError(Exception):
 class Frozen(ABC):
     """Enable a class to freeze self such that no more new attribute can be defined."""
 
+    def __repr__(self):
+        """Many caches use the representation of an object as their key. The memory address alone does not identify an
+        object since it can be reused as soon as the object is garbage collected; thus we append a unique number.
+        """
+        try:
+            number = self.___INSTANCE_NUMBER___
+        except AttributeError:
+            number = next(_instance_counter)
+            object.__setattr__(self, '___INSTANCE_NUMBER___', number)
+        return f"{super().__repr__()[:-1]} #{number}>"
+
     def __setattr__(self, key, value):
         """"""
         if self.___frozen___ and key not in dir(self):
-- 
2.43.0


From 37efb55234bb50676e1e3fcbcb60fea0f83d31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 31/84] fix: mass matrices of a space are not one shared
 object, a boundary condition of one unknown no longer changes others

---
 msehtt/adaptive/main.py                      |  1 -
 msehtt/multigrid/main.py                     |  1 -
 msehtt/static/implementation_array_parser.py | 34 ++++++++------------
 3 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/msehtt/adaptive/main.py b/msehtt/adaptive/main.py
index 730103e..6d3edc3 100644
--- a/msehtt/adaptive/main.py
+++ b/msehtt/adaptive/main.py
@@ -351,7 +351,6 @@ def current_base():
     PARSER._setting_['base'] = C_BASE
     NOC_PARSER._setting_['base'] = C_BASE
 
-    PARSER._setting_['_cache_M_'] = {}  # clean cache
     PARSER.AxB_ip_C.clean_cache()
     PARSER.AxB_dp_C.clean_cache()
     NOC_PARSER.AxB_ip_dC.clean_cache()
diff --git a/msehtt/multigrid/main.py b/msehtt/multigrid/main.py
index 78ad66d..fc78d22 100644
--- a/msehtt/multigrid/main.py
+++ b/msehtt/multigrid/main.py
@@ -44,7 +44,6 @@ def find_base_on_level(lvl):
     }
 
     static_linear_parser._setting_['base'] = lvl_base
-    static_linear_parser._setting_['_cache_M_'] = {}
 
     static_nonlinear_parser._setting_['base'] = lvl_base
 
diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index fe86a1a..bc1e951 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -25,7 +25,6 @@ _indicator_templates = {}
 
 _setting_ = {
     'base': dict(),
-    '_cache_M_': {},
 }
 
 
@@ -184,27 +183,20 @@ def Parse__M_matrix(space, str_degree0, str_degree1):
     degree0 = _str_degree_parser(str_degree0)
     degree1 = _str_degree_parser(str_degree1)
     space = _find_space_through_pure_lin_repr(space)
-    key = (id(space), str_degree0, str_degree1)
-    if key in _setting_['_cache_M_']:
-        return _setting_['_cache_M_'][key]
+    if degree0 == degree1:
+        degree = degree0
+        gm = space.gathering_matrix(degree)
+        m, cache_key_dict = space.mass_matrix(degree)
+        M = MseHttStaticLocalMatrix(  # make a new copy every single time.
+            m,
+            gm,
+            gm,
+            cache_key=cache_key_dict,
+            signature=space.__repr__() + '+MM+' + _degree_str_maker(degree),
+        )
+        return M, None  # time_indicator is None, mean M is same at all time.
     else:
-        if degree0 == degree1:
-            degree = degree0
-            gm = space.gathering_matrix(degree)
-            m, cache_key_dict = space.mass_matrix(degree)
-            M = MseHttStaticLocalMatrix(  # make a new copy every single time.
-                m,
-                gm,
-                gm,
-                cache_key=cache_key_dict,
-                signature=space.__repr__() + '+MM+' + _degree_str_maker(degree),
-            )
-            RETURN = M, None  # time_indicator is None, mean M is same at all time.
-        else:
-            raise NotImplementedError()
-
-        _setting_['_cache_M_'][key] = RETURN
-        return RETURN
+        raise NotImplementedError()
 
 
 def Parse__E_matrix(space, degree):
-- 
2.43.0


From 8e7cb4b7aaf66a8077866e5198507c1c1bca8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 32/84] fix: local matrices computed from customized operands
 are not cached for other elements

---
 msehtt/tools/matrix/static/local.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index a45ca09..0e1d2bb 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -152,6 +152,13 @@ class MseHttStaticLocalMatrix(Frozen):
         else:
             raise NotImplementedError()
 
+    def _operand_cache_key(self, i):
+        r"""The cache key for a matrix computed from ``self[i]``. Customized data are not what `_cache_key` refers to."""
+        if i in self.customize:
+            return 'unique'
+        else:
+            return self._cache_key(i)
+
     def __getitem__(self, i):
         r""""""
         assert i in self, f"element #{i} is not a rank element."
@@ -257,7 +264,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = '-' + self._signature
 
         return self.__class__(
-            data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+            data_caller, self._gm_row, self._gm_col, cache_key=self._operand_cache_key,
             signature=signature
         )
 
@@ -274,7 +281,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = 'inv' + self._signature
 
         return self.__class__(
-            ___inv_caller___, self._gm_col, self._gm_row, cache_key=self._cache_key,
+            ___inv_caller___, self._gm_col, self._gm_row, cache_key=self._operand_cache_key,
             special_indicator=f'inverse matrix of {self.__repr__()}',
             signature=signature
         )
@@ -291,7 +298,7 @@ class MseHttStaticLocalMatrix(Frozen):
             signature = self._signature + '^T '
 
         return self.__class__(
-            data_caller, self._gm_col, self._gm_row, cache_key=self._cache_key,
+            data_caller, self._gm_col, self._gm_row, cache_key=self._operand_cache_key,
             signature=signature
         )
 
@@ -308,7 +315,7 @@ class MseHttStaticLocalMatrix(Frozen):
                 signature = '%.8f*' % other + self._signature
 
             return self.__class__(
-                data_caller, self._gm_row, self._gm_col, cache_key=self._cache_key,
+                data_caller, self._gm_row, self._gm_col, cache_key=self._operand_cache_key,
                 signature=signature
             )
 
@@ -323,12 +330,12 @@ class MseHttStaticLocalMatrix(Frozen):
                 return self[i] + other[i]
 
             def cache_key_caller(i):
-                key1 = self._cache_key(i)
-                key2 = other._cache_key(i)
+                key1 = self._operand_cache_key(i)
+                key2 = other._operand_cache_key(i)
                 if key1 == 'unique' or key2 == 'unique':
                     return 'unique'
                 else:
-                    return key1 + '.' + key2
+                    return str((key1, key2))
 
             if 'unique' in self._signature or 'unique' in other._signature:
                 signature = '[unique]'
@@ -358,15 +365,15 @@ class MseHttStaticLocalMatrix(Frozen):
                 return self[i] @ other[i]
 
             def cache_key_caller(i):
-                key1 = self._cache_key(i)
+                key1 = self._operand_cache_key(i)
                 if key1 == 'unique':
                     return 'unique'
                 else:
-                    key2 = other._cache_key(i)
+                    key2 = other._operand_cache_key(i)
                     if key2 == 'unique':
                         return 'unique'
                     else:
-                        return key1 + key2
+                        return str((key1, key2))
 
             if 'unique' in self._signature or 'unique' in other._signature:
                 signature = '[unique]'
@@ -657,7 +664,7 @@ class _MseHttStaticLocalMatrixBmat(Frozen):
                                 key
                             )
 
-        return '.'.join(keys)
+        return str(keys)
 
 
 ___cache_msehtt_assembled_StaticMatrix___ = {}
-- 
2.43.0


From 9970f83aa931c5f71948ae3793c10f5372a38f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 33/84] fix: assembling with a threshold does not change the
 local matrices

---
 msehtt/tools/matrix/static/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/matrix/static/local.py b/msehtt/tools/matrix/static/local.py
index 0e1d2bb..9e1e50a 100644
--- a/msehtt/tools/matrix/static/local.py
+++ b/msehtt/tools/matrix/static/local.py
@@ -741,7 +741,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
-                data[np.abs(data) < threshold] = 0.
+                data = np.where(np.abs(data) < threshold, 0., data)  # do not change the local matrix itself
 
             nums: list = list(diff(indptr))
             row = []
@@ -881,7 +881,7 @@ class MseHttStaticLocalMatrixAssemble(Frozen):
             if threshold is None:
                 pass
             else:
-                data[np.abs(data) < threshold] = 0.
+                data = np.where(np.abs(data) < threshold, 0., data)  # do not change the local matrix itself
 
             nums: list = list(diff(indptr))
             row = []
-- 
2.43.0


From 74877c9bc3f0a164dbdfe9d0822f6407ba21bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 34/84] fix: customizing a msepy local vector does not change
 the data it was made of

---
 msepy/tools/vector/static/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index 5fa9756..1e1a909 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -286,11 +286,11 @@ class MsePyStaticLocalVectorCustomize(Frozen):
         dof = list(elements_local_rows.keys())[0]
         elements, local_rows = elements_local_rows[dof]
         element, local_row = elements[0], local_rows[0]
-        data = self._v[element]
+        data = self._v[element].copy()  # never change the data of the vector itself.
         data[local_row] = value
         self._customizations[element] = data
         for element, local_row in zip(elements[1:], local_rows[1:]):
-            data = self._v[element]
+            data = self._v[element].copy()
             data[local_row] = 0
             self._customizations[element] = data
 
@@ -320,7 +320,7 @@ class MsePyStaticLocalVectorCustomize(Frozen):
 
         involved_data = dict()
         for element in involved_elements:
-            involved_data[element] = self._v[element]
+            involved_data[element] = self._v[element].copy()  # never change the data of the vector itself.
 
         for dof in dof_cochain_dict:
             cochain = dof_cochain_dict[dof]
-- 
2.43.0


From e0f1a9fedb69404e1aa87b8b07357c09b06c3b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 35/84] fix: cache keys of composed msepy local matrices are
 unambiguous

---
 msepy/tools/matrix/static/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msepy/tools/matrix/static/local.py b/msepy/tools/matrix/static/local.py
index eaf3b57..90bca62 100644
--- a/msepy/tools/matrix/static/local.py
+++ b/msepy/tools/matrix/static/local.py
@@ -346,7 +346,7 @@ class _AddSubHelper(Frozen):
         if ck0 == 'constant' and ck1 == 'constant':
             return 'constant'
         else:
-            return ck0+'@'+ck1
+            return str((ck0, ck1))
 
 
 class _FactorRmul(Frozen):
@@ -394,7 +394,7 @@ class _MatmulMatMat(Frozen):
         elif ck0 == 'constant' and ck1 == 'constant':
             return 'constant'
         else:
-            return ck0+'@'+ck1
+            return str((ck0, ck1))
 
 
 def _mat_mul_mat_vec(m, v):
@@ -805,7 +805,7 @@ class _MsePyStaticLocalMatrixBmat(Frozen):
         if all([_ == 'constant' for _ in keys]):
             return 'constant'
         else:
-            return ''.join(keys)
+            return str(keys)
 
 
 _msepy_assembled_StaticMatrix_cache = {}
-- 
2.43.0


From def0a181ad414f71d57b39e5ae6eb9e472a8fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 36/84] fix: setting several values in one row or column of a
 msepy local matrix

---
 msepy/tools/matrix/static/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/matrix/static/local.py b/msepy/tools/matrix/static/local.py
index 90bca62..907a65b 100644
--- a/msepy/tools/matrix/static/local.py
+++ b/msepy/tools/matrix/static/local.py
@@ -642,7 +642,7 @@ class _MsePyStaticLocalMatrixCustomize(Frozen):
 
         all_positions = dict()
 
-        for global_row, global_col, val in zip(elements_local_rows, elements_local_cols, vals):
+        for global_row, global_col, val in zip(rows, cols, vals):  # a row or col may appear in several positions.
             row_elements_indices = elements_local_rows[global_row]
             col_elements_indices = elements_local_cols[global_col]
 
-- 
2.43.0


From e201031f12ff372fbd7a95aa97df97e3fe9514ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 37/84] fix: subtracting a non-root form subtracts all of it

---
 src/form/main.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/form/main.py b/src/form/main.py
index a37c94e..2678955 100644
--- a/src/form/main.py
+++ b/src/form/main.py
@@ -129,6 +129,7 @@ from phyem.src.form.operators import _project_to
 from phyem.src.config import _check_sym_repr
 from phyem.src.form.parameters import constant_scalar
 from phyem.src.config import _global_operator_lin_repr_setting
+from phyem.src.config import _non_root_lin_sep
 from phyem.src.config import _global_operator_sym_repr_setting
 from phyem.src.config import _form_evaluate_at_repr_setting
 from phyem.src.spaces.main import _default_space_degree_repr
@@ -591,8 +592,12 @@ class Form(Frozen):
             assert self.space == other.space
             self_lr = self._lin_repr
             self_sr = self._sym_repr
-            other_lr = other._lin_repr
-            other_sr = other._sym_repr
+            if other.is_root():
+                other_lr = other._lin_repr
+                other_sr = other._sym_repr
+            else:  # self-(a+b) is not self-a+b
+                other_lr = _non_root_lin_sep[0] + other._lin_repr + _non_root_lin_sep[1]
+                other_sr = r'\left(' + other._sym_repr + r'\right)'
 
             operator_lin = _global_operator_lin_repr_setting['minus']
             operator_sym = _global_operator_sym_repr_setting['minus']
-- 
2.43.0


From b87e7f2f92c42fb950f05d342cc8b94fdf17c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 38/84] fix: a root form times a non-root scalar keeps the
 scalar together

---
 src/form/main.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/form/main.py b/src/form/main.py
index 2678955..b1e2968 100644
--- a/src/form/main.py
+++ b/src/form/main.py
@@ -631,8 +631,12 @@ class Form(Frozen):
             sr = self._sym_repr
             cs = other
             if self.is_root():
-                lr = cs._lin_repr + operator_lin + lr
-                sr = cs._sym_repr + sr
+                if cs.is_root():
+                    lr = cs._lin_repr + operator_lin + lr
+                    sr = cs._sym_repr + sr
+                else:
+                    lr = r'\{' + cs._lin_repr + r'\}' + operator_lin + lr
+                    sr = r'\left(' + cs._sym_repr + r'\right)' + sr
             else:
                 if cs.is_root():
                     lr = cs._lin_repr + operator_lin + r'\{' + lr + r'\}'
-- 
2.43.0


From 84d642332eb5898f683154aa0cfd6bdc46e5f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 39/84] fix: a form divided by a non-root scalar keeps the
 divisor together

---
 src/form/main.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/form/main.py b/src/form/main.py
index b1e2968..1fb2fee 100644
--- a/src/form/main.py
+++ b/src/form/main.py
@@ -671,10 +671,14 @@ class Form(Frozen):
             lr = self._lin_repr
             sr = self._sym_repr
             cs = other
+            if cs.is_root():
+                cs_lr = cs._lin_repr
+            else:
+                cs_lr = r'\{' + cs._lin_repr + r'\}'
             if self.is_root():
-                lr = lr + operator_lin + cs._lin_repr
+                lr = lr + operator_lin + cs_lr
             else:
-                lr = r'\{' + lr + r'\}' + operator_lin + cs._lin_repr
+                lr = r'\{' + lr + r'\}' + operator_lin + cs_lr
             sr = operator_sym[0] + sr + operator_sym[1] + cs._sym_repr + operator_sym[2]
             f = Form(
                 self.space,         # space
-- 
2.43.0


From 3ef233a1da3d49843226ac2a33f7760fbd7599c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 40/84] fix: dividing non-root scalars keeps dividend and
 divisor together

---
 src/form/parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/form/parameters.py b/src/form/parameters.py
index 6b99b05..a11be76 100644
--- a/src/form/parameters.py
+++ b/src/form/parameters.py
@@ -216,7 +216,10 @@ class ConstantScalar0Form(Frozen):
                 op_lin_repr = _global_operator_lin_repr_setting['division']
                 op_sym_repr = _global_operator_sym_repr_setting['division']
                 sym_repr = op_sym_repr[0] + self._sym_repr + op_sym_repr[1] + other._sym_repr + op_sym_repr[2]
-                lin_repr = self._lin_repr + op_lin_repr + other._lin_repr
+                self_lr, other_lr = [
+                    cs._lin_repr if cs.is_root() else r'\{' + cs._lin_repr + r'\}' for cs in (self, other)
+                ]
+                lin_repr = self_lr + op_lin_repr + other_lr
                 return ConstantScalar0Form(sym_repr, lin_repr, False, False)
 
         else:
-- 
2.43.0


From d9f54f69f9a32adea7fc0daa6ddae5f2a66a1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 41/84] fix: adding real scalars like 1/2 whose symbol is a
 fraction

---
 src/form/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/form/parameters.py b/src/form/parameters.py
index a11be76..742857b 100644
--- a/src/form/parameters.py
+++ b/src/form/parameters.py
@@ -161,7 +161,7 @@ class ConstantScalar0Form(Frozen):
         """self + other"""
         if isinstance(other, (int, float)):
             if self.is_real():
-                number = float(self._sym_repr) + other
+                number = float(self._pure_lin_repr) + other
                 if int(number) == number:
                     number = int(number)
                 else:
@@ -175,7 +175,7 @@ class ConstantScalar0Form(Frozen):
 
         elif other.__class__.__name__ == self.__class__.__name__:
             if other.is_real():
-                number = float(other._sym_repr)
+                number = float(other._pure_lin_repr)
                 return self + number
             else:
                 op_lin_repr = _global_operator_lin_repr_setting['plus']
@@ -190,7 +190,7 @@ class ConstantScalar0Form(Frozen):
         """other + self """
         if isinstance(other, (int, float)):
             if self.is_real():
-                number = float(self._sym_repr) + other
+                number = float(self._pure_lin_repr) + other
                 if int(number) == number:
                     number = int(number)
                 else:
-- 
2.43.0


From db923d896b1096c36818cdf964fd025825250a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 42/84] fix: replacing a form in an expression keeps the
 replacement together

---
 src/form/main.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/form/main.py b/src/form/main.py
index 1fb2fee..07cab7f 100644
--- a/src/form/main.py
+++ b/src/form/main.py
@@ -748,9 +748,16 @@ class Form(Frozen):
             return by
 
         else:
+            if by.is_root():
+                by_lr = by._lin_repr
+                by_sr = by._sym_repr
+            else:  # `by` must stay together, whatever operates on it in `self`.
+                by_lr = _non_root_lin_sep[0] + by._lin_repr + _non_root_lin_sep[1]
+                by_sr = r'\left(' + by._sym_repr + r'\right)'
+
             if which == 'all':
-                lin_repr = self._lin_repr.replace(f._lin_repr, by._lin_repr)
-                sym_repr = self._sym_repr.replace(f._sym_repr, by._sym_repr)
+                lin_repr = self._lin_repr.replace(f._lin_repr, by_lr)
+                sym_repr = self._sym_repr.replace(f._sym_repr, by_sr)
 
             elif isinstance(which, (list, tuple)) and all([isinstance(_, int) and _ >= 0 for _ in which]):
                 # use 1, or [0,1] to indicate which targets to be replaced.
@@ -768,8 +775,8 @@ class Form(Frozen):
                 for i in which:
                     assert i < amount_places, (f"cannot deal with `which={which}` for form replace, "
                                                f"not that many targets.)")
-                    to_join_lin[i] = by._lin_repr
-                    to_join_sym[i] = by._sym_repr
+                    to_join_lin[i] = by_lr
+                    to_join_sym[i] = by_sr
 
                 for i, s in enumerate(to_join_lin):
                     if s == '':
-- 
2.43.0


From 5257c52de755cc6e7bd0a79f21275d8fc5e9d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 43/84] fix: a test form multiplies all of a term like c*a + b

---
 src/pde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pde.py b/src/pde.py
index da71e30..cf53f9d 100644
--- a/src/pde.py
+++ b/src/pde.py
@@ -933,6 +933,9 @@ class PartialDifferentialEquations(Frozen):
 
                                     if root_factor is None:  # do not find a root factor.
                                         raise NotImplementedError()
+                                    elif the_form is None or (root_factor * the_form)._lin_repr != term._lin_repr:
+                                        # the term is not `root_factor * the_form`; for example, `c * a + b`.
+                                        raw_weak_term = inner(term, tfs[i], method=test_method)
                                     else:
                                         raw_weak_term = inner(the_form, tfs[i], factor=root_factor, method=test_method)
 
-- 
2.43.0


From a7deba62df760cd3cb17b407ed6068e893b11e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 44/84] fix: commuting a restricted duality pairing keeps its
 restriction

---
 src/wf/term/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wf/term/main.py b/src/wf/term/main.py
index acd7282..385de53 100644
--- a/src/wf/term/main.py
+++ b/src/wf/term/main.py
@@ -668,6 +668,11 @@ class DualityPairingTerm(_WeakFormulationTerm):
         else:
             raise Exception()
 
+        if self._restrict_manifold is None:
+            pass
+        else:
+            new_term.restrict(self._restrict_manifold._sym_repr)
+
         return new_term, sign
 
 
-- 
2.43.0


From 1e9eb86444cd07bfef374a110196a0956386ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 45/84] fix: only the time derivative of a root form is
 recognized as one

---
 src/wf/term/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wf/term/pattern.py b/src/wf/term/pattern.py
index e054c77..f143c50 100644
--- a/src/wf/term/pattern.py
+++ b/src/wf/term/pattern.py
@@ -25,7 +25,7 @@ def _inner_simpler_pattern_examiner_scalar_valued_forms(factor, f0, f1, extra_in
         lin_td = _global_operator_lin_repr_setting['time_derivative']
         if f0._lin_repr[:len(lin_td)] == lin_td:
             bf0 = _find_form(f0._lin_repr, upon=time_derivative)
-            if bf0.is_root and _parse_related_time_derivative(f1) == list():
+            if bf0 is not None and bf0.is_root() and _parse_related_time_derivative(f1) == list():
                 # >>>>>>>>>>>>>>>>>>>> ['(pt,)'] <<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<
                 return _simple_patterns['(pt,)'], {
                     'rsf0': bf0,   # root-scalar-form-0
@@ -1159,7 +1159,7 @@ def _inner_simpler_pattern_examiner_bundle_valued_forms(factor, f0, f1, extra_in
         lin_td = _global_operator_lin_repr_setting['time_derivative']
         if f0._lin_repr[:len(lin_td)] == lin_td:
             bf0 = _find_form(f0._lin_repr, upon=time_derivative)
-            if bf0.is_root and _parse_related_time_derivative(f1) == list():
+            if bf0 is not None and bf0.is_root() and _parse_related_time_derivative(f1) == list():
                 return _simple_patterns['(pt,)'], {
                     'rsf0': bf0,   # root-scalar-form-0
                     'rsf1': f1,    # root-scalar-form-1
-- 
2.43.0


From a2a563aa651d1cf36ff097d9069c4f19df56ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 46/84] fix: differentiating a term in time keeps its factor

---
 src/ode/discretize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/discretize.py b/src/ode/discretize.py
index f77ff45..3607cc6 100644
--- a/src/ode/discretize.py
+++ b/src/ode/discretize.py
@@ -69,7 +69,7 @@ class OrdinaryDifferentialEquationDiscretize(Frozen):
                 bf0_ke = bf0 @ dt.end
                 bf1 = ptm._f1
                 term0 = (bf0_ke - bf0_ks) / dt
-                diff_term = (ptm.__class__(term0, bf1), '+')
+                diff_term = (ptm.__class__(term0, bf1, factor=ptm._factor), '+')
                 self._eq_terms[index] = [diff_term, ]
             else:
                 raise NotImplementedError(pattern)
-- 
2.43.0


From c88f00e20886890cf2b695bf7c22c6e4b6347ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 47/84] fix: differentiating a term in time keeps the forms
 averaged in it

---
 src/ode/discretize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ode/discretize.py b/src/ode/discretize.py
index 3607cc6..fcb1ce6 100644
--- a/src/ode/discretize.py
+++ b/src/ode/discretize.py
@@ -67,7 +67,10 @@ class OrdinaryDifferentialEquationDiscretize(Frozen):
                 bf0 = _find_form(ptm._f0._lin_repr, upon=time_derivative)
                 bf0_ks = bf0 @ dt.start
                 bf0_ke = bf0 @ dt.end
-                bf1 = ptm._f1
+                if index in self._eq_terms and len(self._eq_terms[index]) == 1:
+                    bf1 = self._eq_terms[index][0][0]._f1  # keep what has been averaged in it.
+                else:
+                    bf1 = ptm._f1
                 term0 = (bf0_ke - bf0_ks) / dt
                 diff_term = (ptm.__class__(term0, bf1, factor=ptm._factor), '+')
                 self._eq_terms[index] = [diff_term, ]
-- 
2.43.0


From 65da6aff0462afb21583f9f452a53cd3f10cd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 48/84] fix: customizing the initial guess of a msepy nonlinear
 system does not change the cochain of the given form

---
 msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 9076858..ff42b16 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -40,7 +40,8 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                     local_cochain = np.zeros_like(gm._gm)
 
                 else:
-                    local_cochain = f.cochain[newest_time].local
+                    # a copy: customizations may change x0, which must not change the cochain of the form.
+                    local_cochain = f.cochain[newest_time].local.copy()
 
                 cochain.append(local_cochain)
 
-- 
2.43.0


From d859f0e1f4664d627ace9c6dcb953cedb7bd9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 49/84] fix: every set of fixed dofs of a msepy nonlinear
 system is fixed, not the first one only

---
 .../nonlinear_system/static/solve/Newton_Raphson.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index ff42b16..22e38dd 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -123,7 +123,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
         xi = x0
 
         # --- some caches ----------------------------
-        _global_dofs_cache = None
+        _global_dofs_cache = dict()  # the global dofs of each customization (numbered).
 
         # -- start the Newton iterations ----------------------------
         while 1:
@@ -222,7 +222,7 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
             ls = MsePyStaticLocalLinearSystem(LHS, x, f)
 
             # adopt customizations: important ------------------------------------------ 2
-            for customization in self._nls.customize._customizations:
+            for c, customization in enumerate(self._nls.customize._customizations):
                 method_name = customization[0]
                 method_para = customization[1]
 
@@ -237,13 +237,13 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
 
                 elif method_name == 'set_no_evaluation_for_overall_local_dofs':
 
-                    if _global_dofs_cache is None:
+                    if c not in _global_dofs_cache:
                         elements, overall_local_dofs = method_para
                         gm = A._gm0_row
                         global_dofs = gm._find_global_numbering(elements, overall_local_dofs)
-                        _global_dofs_cache = global_dofs
+                        _global_dofs_cache[c] = global_dofs
                     else:
-                        global_dofs = _global_dofs_cache
+                        global_dofs = _global_dofs_cache[c]
 
                     A.customize.identify_diagonal(global_dofs)
                     f.customize.set_values(global_dofs, 0)
-- 
2.43.0


From 84ca92a31ef59e314373fddeedd6a2789a5adc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 50/84] fix: the dofs of 3d 0- and 2-forms on a face are a 1d
 array, like all others (essential conditions failed)

---
 msepy/space/find/local_dofs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msepy/space/find/local_dofs.py b/msepy/space/find/local_dofs.py
index 53a4939..ca261bb 100644
--- a/msepy/space/find/local_dofs.py
+++ b/msepy/space/find/local_dofs.py
@@ -213,7 +213,7 @@ class _MsePySpaceFindLocalDofs(Frozen):
         else:
             raise Exception()
 
-        return face_local_numbering
+        return face_local_numbering.ravel('F')
 
     def _Lambda_m3_n3_k1(self, m, n, degree):
         """The dofs of a 1-form on a face are those on the edges lying in (tangential to) the face."""
@@ -271,7 +271,7 @@ class _MsePySpaceFindLocalDofs(Frozen):
         else:
             raise Exception()
 
-        return face_local_numbering
+        return face_local_numbering.ravel('F')
 
     def _Lambda_m2_n1_k1_outer(self, m, n, degree):
         """"""
-- 
2.43.0


From b0fcf5f0d7c4e9062831d3c149f43b947f31a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 51/84] fix: dofs fixed in a msepy nonlinear system take their
 values in all elements sharing them

---
 .../nonlinear_system/static/solve/Newton_Raphson.py    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
index 22e38dd..b1340c9 100644
--- a/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
+++ b/msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py
@@ -112,8 +112,16 @@ class MsePyNonlinearSystemNewtonRaphsonSolve(Frozen):
                 x0_i = x0[i]
                 assert isinstance(x0_i, np.ndarray) and x0_i.ndim == 2, f'safety check'
 
+                # a dof shared by elements takes the value in all of them, not only at the given positions.
+                gm = self._nls._col_gms[i]
+                values = np.zeros(gm.num_dofs)
+                to_set = np.zeros(gm.num_dofs, dtype=bool)
                 for j,  e in enumerate(elements):
-                    x0_i[e, local_dofs[j]] = local_values[j]
+                    dofs = gm._gm[e, local_dofs[j]]
+                    values[dofs] = local_values[j]
+                    to_set[dofs] = True
+                positions = to_set[gm._gm]
+                x0_i[positions] = values[gm._gm[positions]]
 
                 x0[i] = x0_i
 
-- 
2.43.0


From 7bf07e64bffec8cf3637186494a43d39846e44a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 52/84] fix: the mass matrices of 1- and 2-forms on curvilinear
 hexahedra contain the coupling of the components

---
 .../space/mass_matrix/Lambda/MM_m3n3k1.py     | 27 +++++++++++++--
 .../space/mass_matrix/Lambda/MM_m3n3k2.py     | 33 +++++++++++++++----
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
index 73a7bb7..9eb87b2 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
@@ -119,14 +119,35 @@ def ___mm331_unique_hexahedron___(element, degree):
         bf[2], bf[2],
         optimize='optimal'
     )
+    M01 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[0][1],
+        bf[0], bf[1],
+        optimize='optimal'
+    )
+    M02 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[0][2],
+        bf[0], bf[2],
+        optimize='optimal'
+    )
+    M12 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[1][2],
+        bf[1], bf[2],
+        optimize='optimal'
+    )
     M00 = csr_matrix(M00)
     M11 = csr_matrix(M11)
     M22 = csr_matrix(M22)
+    M01 = csr_matrix(M01)
+    M02 = csr_matrix(M02)
+    M12 = csr_matrix(M12)
     M = bmat(
         [
-            (M00, None, None),
-            (None, M11, None),
-            (None, None, M22)
+            (M00, M01, M02),
+            (M01.T, M11, M12),
+            (M02.T, M12.T, M22)
         ], format='csr'
     )
 
diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
index 664fa9b..956be66 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
@@ -103,30 +103,51 @@ def ___mm332_unique_hexahedron___(element, degree):
     g = element.ct.inverse_metric_matrix(*xi_et_sg)
     M00 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[1][1]*g[2][2],
+        quad_weights * detJM * (g[1][1]*g[2][2] - g[1][2]*g[2][1]),
         bf[0], bf[0],
         optimize='optimal'
     )
     M11 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[2][2]*g[0][0],
+        quad_weights * detJM * (g[2][2]*g[0][0] - g[2][0]*g[0][2]),
         bf[1], bf[1],
         optimize='optimal'
     )
     M22 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[0][0]*g[1][1],
+        quad_weights * detJM * (g[0][0]*g[1][1] - g[0][1]*g[1][0]),
         bf[2], bf[2],
         optimize='optimal'
     )
+    M01 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[1][2]*g[2][0] - g[1][0]*g[2][2]),
+        bf[0], bf[1],
+        optimize='optimal'
+    )
+    M02 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[1][0]*g[2][1] - g[1][1]*g[2][0]),
+        bf[0], bf[2],
+        optimize='optimal'
+    )
+    M12 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[2][0]*g[0][1] - g[2][1]*g[0][0]),
+        bf[1], bf[2],
+        optimize='optimal'
+    )
     M00 = csr_matrix(M00)
     M11 = csr_matrix(M11)
     M22 = csr_matrix(M22)
+    M01 = csr_matrix(M01)
+    M02 = csr_matrix(M02)
+    M12 = csr_matrix(M12)
     M = bmat(
         [
-            (M00, None, None),
-            (None, M11, None),
-            (None, None, M22)
+            (M00, M01, M02),
+            (M01.T, M11, M12),
+            (M02.T, M12.T, M22)
         ], format='csr'
     )
 
-- 
2.43.0


From 5f52eef91590bcd4688c4d2dd5198732b548af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 53/84] fix: the mass of a 3d scalar form can be computed

---
 msehtt/static/space/mass/Lambda/mass_m3n3k0.py | 2 +-
 msehtt/static/space/mass/Lambda/mass_m3n3k3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
index 21a708f..0b76daa 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
@@ -40,7 +40,7 @@ def _mass330_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
index 7016b4a..042d64a 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
@@ -40,7 +40,7 @@ def _mass333_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
-- 
2.43.0


From 5619515341a152e084ab6ddb855630d0241c40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 54/84] fix: component-wise norms of 3d vector forms are norms,
 also in curved elements

---
 msehtt/static/space/norm/Lambda/norm_m3n3k1.py | 5 +++--
 msehtt/static/space/norm/Lambda/norm_m3n3k2.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msehtt/static/space/norm/Lambda/norm_m3n3k1.py b/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
index 812a073..f99b724 100644
--- a/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
+++ b/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
@@ -39,6 +39,7 @@ def ___norm_Lambda__m3n3k1_component_wise___(tpm, degree, cochain, norm_type='L2
     qp = tuple([_ + 2 for _ in p])
     quad = quadrature(qp, 'Gauss')
     nodes, weights = quad.quad
+    meshgrid = np.meshgrid(*nodes, indexing='ij')
     elements = tpm.composition
     U, V, W = reconstruct_Lambda__m3n3k1(tpm, degree, cochain, *nodes, ravel=False)[1]
     local_norm_U = []
@@ -47,7 +48,7 @@ def ___norm_Lambda__m3n3k1_component_wise___(tpm, degree, cochain, norm_type='L2
     if norm_type == 'L2':
         for i in U:
             element = elements[i]
-            detJM = element.ct.Jacobian(*nodes)
+            detJM = element.ct.Jacobian(*meshgrid)
             local_norm_U.append(
                 np.einsum('ijk, i, j, k ->', U[i]**2 * detJM, *weights, optimize='optimal')
             )
@@ -68,4 +69,4 @@ def ___norm_Lambda__m3n3k1_component_wise___(tpm, degree, cochain, norm_type='L2
     global_norm_V = COMM.allreduce(local_norm_V, op=MPI.SUM)
     global_norm_W = COMM.allreduce(local_norm_W, op=MPI.SUM)
 
-    return global_norm_U, global_norm_V, global_norm_W
+    return global_norm_U ** 0.5, global_norm_V ** 0.5, global_norm_W ** 0.5
diff --git a/msehtt/static/space/norm/Lambda/norm_m3n3k2.py b/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
index 668754c..1a09b0b 100644
--- a/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
+++ b/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
@@ -38,6 +38,7 @@ def ___norm_Lambda__m3n3k2_component_wise___(tpm, degree, cochain, norm_type='L2
     qp = tuple([_ + 2 for _ in p])
     quad = quadrature(qp, 'Gauss')
     nodes, weights = quad.quad
+    meshgrid = np.meshgrid(*nodes, indexing='ij')
     elements = tpm.composition
     U, V, W = reconstruct_Lambda__m3n3k2(tpm, degree, cochain, *nodes, ravel=False)[1]
     local_norm_U = []
@@ -46,7 +47,7 @@ def ___norm_Lambda__m3n3k2_component_wise___(tpm, degree, cochain, norm_type='L2
     if norm_type == 'L2':
         for i in U:
             element = elements[i]
-            detJM = element.ct.Jacobian(*nodes)
+            detJM = element.ct.Jacobian(*meshgrid)
             local_norm_U.append(
                 np.einsum('ijk, i, j, k ->', U[i]**2 * detJM, *weights, optimize='optimal')
             )
@@ -67,4 +68,4 @@ def ___norm_Lambda__m3n3k2_component_wise___(tpm, degree, cochain, norm_type='L2
     global_norm_V = COMM.allreduce(local_norm_V, op=MPI.SUM)
     global_norm_W = COMM.allreduce(local_norm_W, op=MPI.SUM)
 
-    return global_norm_U, global_norm_V, global_norm_W
+    return global_norm_U ** 0.5, global_norm_V ** 0.5, global_norm_W ** 0.5
-- 
2.43.0


From a59ee3f309bbcd483519e1ea84687150bdc0671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 55/84] fix: inner products of 1-forms weigh every quadrature
 point with its own Jacobian

---
 .../static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py b/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
index 7c7d6a2..a113b3f 100644
--- a/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
+++ b/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
@@ -61,6 +61,7 @@ def ___Lambda_ip_Lambda_over_SameTPM_m2n2k1___(
     U1, V1 = rc1
     U2, V2 = rc2
 
+    meshgrid = np.meshgrid(quad_nodes, quad_nodes, indexing='ij')
     IPE = list()
 
     for e in rank_elements:
@@ -70,7 +71,7 @@ def ___Lambda_ip_Lambda_over_SameTPM_m2n2k1___(
         v2 = V2[e]
 
         element = elements[e]
-        detJM = element.ct.Jacobian(quad_nodes, quad_nodes)
+        detJM = element.ct.Jacobian(*meshgrid)
 
         if inner_type == 'L2':
             ipe = np.einsum(
-- 
2.43.0


From 26d424e1607fc2664cbfca192da47ea4be344b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 56/84] fix: the L^d norms and errors of odd d take absolute
 values

---
 msepy/space/error/Lambda.py | 10 +++++-----
 msepy/space/norm/Lambda.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/msepy/space/error/Lambda.py b/msepy/space/error/Lambda.py
index e4cb521..e0a25c9 100644
--- a/msepy/space/error/Lambda.py
+++ b/msepy/space/error/Lambda.py
@@ -57,7 +57,7 @@ class MsePySpaceErrorLambda(Frozen):
             dis_v = v[start:end, :]
             metric = J(range(start, end))
 
-            diff = (dis_v - ext_v) ** d
+            diff = np.abs(dis_v - ext_v) ** d
 
             integral.append(
                 np.einsum(
@@ -92,7 +92,7 @@ class MsePySpaceErrorLambda(Frozen):
             dis_u = u[start:end, :]
             dis_v = v[start:end, :]
             metric = J(range(start, end))
-            diff = (dis_u - ext_u) ** d + (dis_v - ext_v) ** d
+            diff = np.abs(dis_u - ext_u) ** d + np.abs(dis_v - ext_v) ** d
             integral.append(
                 np.einsum(
                     'eij, eij, i, j -> ',
@@ -122,7 +122,7 @@ class MsePySpaceErrorLambda(Frozen):
             dis_v = v[start:end, :]
             metric = J(range(start, end))
 
-            diff = (dis_v - ext_v) ** d
+            diff = np.abs(dis_v - ext_v) ** d
             integral.append(
                 np.einsum(
                     'eij, eij, i, j -> ',
@@ -153,7 +153,7 @@ class MsePySpaceErrorLambda(Frozen):
             dis_v = v[start:end, :]
             metric = J(range(start, end))
 
-            diff = (dis_v - ext_v) ** d
+            diff = np.abs(dis_v - ext_v) ** d
             integral.append(
                 np.einsum(
                     'eijk, eijk, i, j, k -> ',
@@ -189,7 +189,7 @@ class MsePySpaceErrorLambda(Frozen):
             dis_v = v[start:end, :]
             dis_w = w[start:end, :]
             metric = J(range(start, end))
-            diff = (dis_u - ext_u) ** d + (dis_v - ext_v) ** d + (dis_w - ext_w) ** d
+            diff = np.abs(dis_u - ext_u) ** d + np.abs(dis_v - ext_v) ** d + np.abs(dis_w - ext_w) ** d
             integral.append(
                 np.einsum(
                     'eijk, eijk, i, j, k -> ',
diff --git a/msepy/space/norm/Lambda.py b/msepy/space/norm/Lambda.py
index c9c3bdd..b466e05 100644
--- a/msepy/space/norm/Lambda.py
+++ b/msepy/space/norm/Lambda.py
@@ -55,7 +55,7 @@ class MsePySpaceNormLambda(Frozen):
             integral.append(
                 np.einsum(
                     'ij -> ',
-                    dis_v ** d * metric * quad_weights,
+                    np.abs(dis_v) ** d * metric * quad_weights,
                     optimize='optimal'
                 )
             )
@@ -80,7 +80,7 @@ class MsePySpaceNormLambda(Frozen):
             dis_u = u[start:end, :]
             dis_v = v[start:end, :]
             metric = J(range(start, end))
-            diff = dis_u ** d + dis_v ** d
+            diff = np.abs(dis_u) ** d + np.abs(dis_v) ** d
             integral.append(
                 np.einsum(
                     'eij, i, j -> ',
@@ -106,7 +106,7 @@ class MsePySpaceNormLambda(Frozen):
             dis_v = v[start:end, :]
             metric = J(range(start, end))
 
-            diff = dis_v ** d
+            diff = np.abs(dis_v) ** d
             integral.append(
                 np.einsum(
                     'eij, i, j -> ',
@@ -132,7 +132,7 @@ class MsePySpaceNormLambda(Frozen):
             dis_v = v[start:end, :]
             metric = J(range(start, end))
 
-            diff = dis_v ** d
+            diff = np.abs(dis_v) ** d
             integral.append(
                 np.einsum(
                     'eijk, i, j, k -> ',
@@ -163,7 +163,7 @@ class MsePySpaceNormLambda(Frozen):
             dis_v = v[start:end, :]
             dis_w = w[start:end, :]
             metric = J(range(start, end))
-            diff = dis_u ** d + dis_v ** d + dis_w ** d
+            diff = np.abs(dis_u) ** d + np.abs(dis_v) ** d + np.abs(dis_w) ** d
             integral.append(
                 np.einsum(
                     'eijk, i, j, k -> ',
-- 
2.43.0


From b4bbc1c8670b7f1aecdba79eee836ffb5ecaa19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 57/84] fix: a curve monotone on its interval of t only is
 inverted on that interval

---
 tools/miscellaneous/geometries/m2n2.py | 30 ++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/tools/miscellaneous/geometries/m2n2.py b/tools/miscellaneous/geometries/m2n2.py
index 0abe94d..51d9ab5 100644
--- a/tools/miscellaneous/geometries/m2n2.py
+++ b/tools/miscellaneous/geometries/m2n2.py
@@ -4,7 +4,7 @@ r"""
 import numpy as np
 import math
 from matplotlib.path import Path
-from pynverse import inversefunc
+from scipy.optimize import bisect
 import geopandas as gpd
 from shapely.geometry import Polygon as shapelyPolygon
 from shapely.ops import unary_union
@@ -859,7 +859,6 @@ class Curve2(Frozen):
         self._x_interval = x_interval
         self._xt = xt
         self._yt = yt
-        self._tx = inversefunc(xt)  # inverse function of xt, it must exist since x(t) is monotone!
         self._freeze()
 
     def x_from_t(self, t):
@@ -874,7 +873,19 @@ class Curve2(Frozen):
         r""""""
         assert x in self._x_interval, \
             f"x={x} (or some elements of x) is in out of curve x range: {self._x_interval}."
-        return self._tx(x)
+        t = np.array([self._t_from_one_x(_) for _ in np.ravel(x)]).reshape(np.shape(x))
+        return t if t.ndim else float(t)
+
+    def _t_from_one_x(self, x):
+        r"""x(t) is only monotone on the interval of t, so we look for t nowhere else."""
+        lb, ub = self._interval._lb, self._interval._ub
+        x_lb, x_ub = self._xt(lb), self._xt(ub)
+        if abs(x - x_lb) <= abs(x_ub - x_lb) * 1e-15:
+            return float(lb)
+        elif abs(x - x_ub) <= abs(x_ub - x_lb) * 1e-15:
+            return float(ub)
+        else:
+            return bisect(lambda t: self._xt(t) - x, lb, ub)
 
     @property
     def interval(self):
@@ -908,10 +919,21 @@ def whether_point_on_curve(point, curve):
 
     x, y = point.x, point.y
 
+    if curve._x_interval._type == 'closed':  # the round-off error of x can bring it just out of the closed interval.
+        lb, ub = curve._x_interval._lb, curve._x_interval._ub
+        if lb - 1e-8 < x < lb:
+            x = lb
+        elif ub < x < ub + 1e-8:
+            x = ub
+        else:
+            pass
+    else:
+        pass
+
     if x in curve._x_interval:
         t = curve.t_from_x(x)
         Y = curve.y_from_t(t)
-        if np.isclose(y, Y):
+        if np.isclose(y, Y, atol=1e-7):
             return True
         else:
             return False
-- 
2.43.0


From b462f0205508b3433506140deb31cd132f8d6d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 58/84] fix: the length of an orthogonal segment given by a
 negative length is positive

---
 tools/miscellaneous/geometries/m3n3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/miscellaneous/geometries/m3n3.py b/tools/miscellaneous/geometries/m3n3.py
index 73c15e0..27dfb9f 100644
--- a/tools/miscellaneous/geometries/m3n3.py
+++ b/tools/miscellaneous/geometries/m3n3.py
@@ -213,7 +213,7 @@ class OrthogonalSegment3(Frozen):
         assert isinstance(length, (int, float))
         assert abs(length) > 1e-4, f"length too small."
         self._axis = axis
-        self._length = length
+        self._length = abs(length)
         x, y, z = origin._x, origin._y, origin._z
         if self._axis == 'x':
             self._bounds = [x, x+length]
-- 
2.43.0


From d0f9ae411d308e61c25d30b12f5b7dbca4e4257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 59/84] fix: points close to each other are located separately

---
 msehtt/static/mesh/partial/elements/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/mesh/partial/elements/main.py b/msehtt/static/mesh/partial/elements/main.py
index 628aa03..8fadaee 100644
--- a/msehtt/static/mesh/partial/elements/main.py
+++ b/msehtt/static/mesh/partial/elements/main.py
@@ -266,7 +266,7 @@ class MseHttElementsPartialMesh(Frozen):
 
         str_key = ''
         for coo in coordinates:
-            str_key += "%.6f-" % coo
+            str_key += f"{float(coo)!r}-"
 
         if str_key in self.___cache0___:
             return self.___cache0___[str_key]
-- 
2.43.0


From 5c94f50c87065bb0da44dc2355f3021a05ce1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 60/84] fix: key the cache of msepy reconstruction matrices by
 the whole element range

---
 msepy/form/main.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/msepy/form/main.py b/msepy/form/main.py
index 39b9c26..cc6b378 100644
--- a/msepy/form/main.py
+++ b/msepy/form/main.py
@@ -526,10 +526,15 @@ class MsePyRootForm(Frozen):
 
     def reconstruction_matrix(self, *meshgrid_xi_et_sg, element_range=None):
         """compute reconstruction matrices for particular elements."""
+        if isinstance(element_range, np.ndarray):
+            # ``str`` abbreviates large arrays; let different ranges always lead to different check strings.
+            check_str = str(element_range.tolist())
+        else:
+            check_str = str(element_range)
         cached, data = ndarray_key_comparer(
             self._reconstruct_matrix_cache,
             meshgrid_xi_et_sg,
-            check_str=str(element_range)
+            check_str=check_str
         )
         if cached:
             return data
@@ -541,7 +546,7 @@ class MsePyRootForm(Frozen):
                 self._reconstruct_matrix_cache,
                 meshgrid_xi_et_sg,
                 data,
-                check_str=str(element_range)
+                check_str=check_str
             )
             return data
 
-- 
2.43.0


From f6641ce14a7744a35a28a8667234170045d4a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 61/84] fix: msepy mass matrices are cached per quadrature,
 switching high_accuracy takes effect

---
 msepy/space/mass_matrix/Lambda.py | 4 ++--
 msepy/space/mass_matrix/bundle.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msepy/space/mass_matrix/Lambda.py b/msepy/space/mass_matrix/Lambda.py
index 425ba2b..034e9f7 100644
--- a/msepy/space/mass_matrix/Lambda.py
+++ b/msepy/space/mass_matrix/Lambda.py
@@ -25,8 +25,6 @@ class MsePyMassMatrixLambda(Frozen):
 
     def __call__(self, degree, quad=None):
         """Making the local numbering for degree."""
-        key = f"{degree}" + str(quad)
-
         if quad is None:
             is_linear = self._space.mesh.elements._is_linear()
             if is_linear:  # ALL elements are linear.
@@ -47,6 +45,8 @@ class MsePyMassMatrixLambda(Frozen):
         else:
             raise NotImplementedError()
 
+        key = f"{degree}" + str(quad)  # the quadrature depends on the setting `high_accuracy`.
+
         m = self._m
         n = self._n
         k = self._k
diff --git a/msepy/space/mass_matrix/bundle.py b/msepy/space/mass_matrix/bundle.py
index fc6b33a..ca3fa6e 100644
--- a/msepy/space/mass_matrix/bundle.py
+++ b/msepy/space/mass_matrix/bundle.py
@@ -24,8 +24,6 @@ class MsePyMassMatrixBundle(Frozen):
 
     def __call__(self, degree, quad=None):
         """Making the local numbering for degree."""
-        key = f"{degree}" + str(quad)
-
         if quad is None:
             _P_ = self._space[degree].p
 
@@ -68,6 +66,8 @@ class MsePyMassMatrixBundle(Frozen):
         else:
             raise NotImplementedError()
 
+        key = f"{degree}" + str(quad)  # the quadrature depends on the setting `high_accuracy`.
+
         m = self._m
         n = self._n
         k = self._k
-- 
2.43.0


From 0ec44b3d1327bcf5ee82c49704afff97c661fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 62/84] fix: the reversed dofs of a periodic triangle mesh are
 found for faces in any direction

---
 msehtt/static/mesh/great/elements/main.py | 43 +++++++++++++++--------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/main.py b/msehtt/static/mesh/great/elements/main.py
index 093a0ed..b24d3eb 100644
--- a/msehtt/static/mesh/great/elements/main.py
+++ b/msehtt/static/mesh/great/elements/main.py
@@ -454,6 +454,32 @@ class MseHttGreatMeshElements(Frozen):
 
         return test_field_1, test_field_2, test_field_3, test_field_4
 
+    @staticmethod
+    def ___random_constant_m2n2___():
+        r"""Constant fields of random values (of no particular direction). If, for example, a constant vector is along
+        a face, its flux through the face is zero, and whether the dof of the face is to be reversed is not seen.
+        """
+        if RANK == MASTER_RANK:
+            _ = [random() for _ in range(4)]
+        else:
+            _ = None
+
+        a, b, c, d = COMM.bcast(_, root=MASTER_RANK)
+
+        def test_field_1(t, x, y):
+            return (1 + a) * np.ones_like(x) + t * 0 * y
+
+        def test_field_2(t, x, y):
+            return - (1 + b) * np.ones_like(x) + t * 0 * y
+
+        def test_field_3(t, x, y):
+            return 0.5 * (1 + c) * np.ones_like(x) + t * 0 * y
+
+        def test_field_4(t, x, y):
+            return - 0.5 * (1 + d) * np.ones_like(x) + t * 0 * y
+
+        return test_field_1, test_field_2, test_field_3, test_field_4
+
     def _parse_form_face_dof_topology_mismatch(self):
         """"""
         if self.mn == (2, 2):
@@ -467,21 +493,8 @@ class MseHttGreatMeshElements(Frozen):
         periodic = COMM.allreduce(periodic, op=MPI.LOR)
 
         if periodic:
-            # noinspection PyUnusedLocal
-            def test_field_1(t, x, y):
-                return np.ones_like(x)
-
-            # noinspection PyUnusedLocal
-            def test_field_2(t, x, y):
-                return - np.ones_like(x)
-
-            # noinspection PyUnusedLocal
-            def test_field_3(t, x, y):
-                return 0.5 * np.ones_like(x)
-
-            # noinspection PyUnusedLocal
-            def test_field_4(t, x, y):
-                return - 0.5 * np.ones_like(x)
+            # the fields must be equal on both sides of a periodic face; so we use constant ones.
+            test_field_1, test_field_2, test_field_3, test_field_4 = self.___random_constant_m2n2___()
         else:
             test_field_1, test_field_2, test_field_3, test_field_4 = self.___random_m2n2___()
 
-- 
2.43.0


From 2bec3a08af4b656c833c81efadb30e41ee3cb3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:41 +0000
Subject: [PATCH 63/84] fix: reversed dofs are found on meshes of any size

---
 msehtt/static/mesh/great/elements/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/mesh/great/elements/main.py b/msehtt/static/mesh/great/elements/main.py
index b24d3eb..7c37616 100644
--- a/msehtt/static/mesh/great/elements/main.py
+++ b/msehtt/static/mesh/great/elements/main.py
@@ -656,7 +656,7 @@ class MseHttGreatMeshElements(Frozen):
                 elif len(positions) == 2:
                     values = pool_value[undirected_face]
                     v0, v1 = values
-                    if np.isclose(v0, v1):
+                    if v0 * v1 >= 0:  # same direction; not `isclose`, as both values can be tiny (on tiny faces)
                         pass
                     else:
                         assert np.isclose(v0, -v1), f"must be v0 + v1 == 0, now v0={v0}, v1={v1}"
-- 
2.43.0


From 35937c8a480f51f59eb45138a68b2d926b1f8264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 64/84] fix: boundary integrals add the faces of an element
 instead of keeping the last one

---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py           | 4 ++--
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py           | 4 ++--
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py           | 2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py           | 2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k2.py           | 2 +-
 .../with_vc_over_boundary_section/Lambda.py               | 8 ++++----
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
index 9bc8340..25461ea 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
@@ -50,7 +50,7 @@ def bi_vc__m2n2k0_outer(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
@@ -146,7 +146,7 @@ def bi_vc__m2n2k0_inner(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
index 2177b4b..f937a7e 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
@@ -48,7 +48,7 @@ def bi_vc__m2n2k1_outer(rf1, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
@@ -190,7 +190,7 @@ def bi_vc__m2n2k1_inner(rf1, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index 6df07fc..094cc02 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -40,7 +40,7 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
index e19fa76..b4e77da 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
@@ -43,7 +43,7 @@ def bi_vc__m3n3k1(rf1, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k2.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k2.py
index 937ed63..8c167bc 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k2.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k2.py
@@ -44,7 +44,7 @@ def bi_vc__m3n3k2(rf2, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
index 3044be7..b72e6e0 100644
--- a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
+++ b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
@@ -123,7 +123,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
@@ -196,7 +196,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
@@ -271,7 +271,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                 Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
             boundary_integration = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
-            bi_data[element, local_dofs] = boundary_integration
+            bi_data[element, local_dofs] += boundary_integration
 
         return bi_data
 
@@ -343,6 +343,6 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                 Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
             boundary_integration = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
-            bi_data[element, local_dofs] = boundary_integration
+            bi_data[element, local_dofs] += boundary_integration
 
         return bi_data
-- 
2.43.0


From d2c000e7a2c24001c374c85343960b35cd3742a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 65/84] fix: interpolate the cochain of an msepy form between
 the two times around t

---
 msepy/form/cochain/main.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 277c4ee..d9fb398 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -177,18 +177,19 @@ class MsePyRootFormCochain(Frozen):
                     else:
                         segment_lb = None
                         segment_ub = None
-                        for i, segment_lb in enumerate(cochain_times):
-                            if t >= segment_lb:
-                                segment_ub = cochain_times[i+1]
+                        for i, segment_ub in enumerate(cochain_times):
+                            if t < segment_ub:
+                                segment_lb = cochain_times[i-1]
                                 break
                             else:
                                 pass
                         assert segment_lb is not None and segment_ub is not None, \
                             f"something is wrong."
-                        cochain_lb = self[segment_lb]
-                        cochain_ub = self[segment_ub]
+                        local_lb = self[segment_lb].local
+                        local_ub = self[segment_ub].local
                         ratio = (t - segment_lb) / (segment_ub - segment_lb)
-                        cochain_t = cochain_lb + ratio * (cochain_ub - cochain_lb)
+                        cochain_t = _CochainAtOneTime(rf, t)
+                        cochain_t._receive(local_lb + ratio * (local_ub - local_lb))
                         return cochain_t
         else:
             return rf._base.cochain(t)
-- 
2.43.0


From 4315acd9c2389e1b7c6fcb5c35502376fca25f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 66/84] fix: cleaning an empty msepy cochain store leaves it
 empty

---
 msepy/form/cochain/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index d9fb398..8002877 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -95,7 +95,7 @@ class MsePyRootFormCochain(Frozen):
             new_tcd = {}
             if what is None:  # clear all t except the newest t
                 newest_t = self._newest_t
-                if new_tcd is None:
+                if newest_t is None:
                     pass
                 else:
                     new_tcd[newest_t] = self._tcd[newest_t]
-- 
2.43.0


From 7e393aadf23651ba4eb1f7bbb6980471f18dc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 67/84] fix: cleaning the newest cochain of an msehtt form
 updates its newest time

---
 msehtt/static/form/cochain/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msehtt/static/form/cochain/main.py b/msehtt/static/form/cochain/main.py
index 6ee4b92..f73d2a5 100644
--- a/msehtt/static/form/cochain/main.py
+++ b/msehtt/static/form/cochain/main.py
@@ -147,6 +147,11 @@ class MseHttCochain(Frozen):
                 else:
                     pass
 
+                if len(self._tcd) == 0:
+                    self._newest_t = None
+                else:
+                    self._newest_t = max(list(self._tcd.keys()))
+
         else:
             rf._base.cochain.clean(what=what, t=t)
 
-- 
2.43.0


From 417aa0504a6e2046f29d7e6032cb29e014b00934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 68/84] fix: signatures tell small elements apart, so stored
 cochains are read into their own elements

---
 msehtt/static/mesh/great/elements/types/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/base.py b/msehtt/static/mesh/great/elements/types/base.py
index 6c0c45b..9f0fdba 100644
--- a/msehtt/static/mesh/great/elements/types/base.py
+++ b/msehtt/static/mesh/great/elements/types/base.py
@@ -153,13 +153,15 @@ class MseHttGreatMeshBaseElement(Frozen):
             X, Y = self.ct.mapping(___xi2___, ___et2___)
             signature = list()
             for x, y in zip(X, Y):
-                signature.append("({:.4f},{:.4f})".format(round(x, 4), round(y, 4)))
+                signature.append("({:.9f},{:.9f})".format(round(x, 9) + 0., round(y, 9) + 0.))
             signature = ''.join(signature)
         elif self.m() == self.n() == 3:  # 3d element in 3d space
             X, Y, Z = self.ct.mapping(___xi3___, ___et3___, ___sg3___)
             signature = list()
             for x, y, z in zip(X, Y, Z):
-                signature.append("({:.3f},{:.3f},{:.3f})".format(round(x, 3), round(y, 3), round(z, 3)))
+                signature.append(
+                    "({:.9f},{:.9f},{:.9f})".format(round(x, 9) + 0., round(y, 9) + 0., round(z, 9) + 0.)
+                )
             signature = ''.join(signature)
         else:
             raise NotImplementedError((self.m(), self.n()))
-- 
2.43.0


From 3e94701f99854e586b2413042bfdf6b48ac66cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 69/84] fix: the cached interpolation of an msepy form follows
 its cochain, density and factor

---
 msepy/form/numeric/main.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index f2b9706..c1e30ea 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -26,7 +26,9 @@ class MsePyRootFormNumeric(Frozen):
         self._sf = None
         self._interp_cache = {
             'time': None,
-            'cochain_id': -1,
+            'cochain': None,
+            'density': None,
+            'factor': None,
             'interp': None
         }
         self._freeze()
@@ -342,9 +344,12 @@ class MsePyRootFormNumeric(Frozen):
 
         if isinstance(self._interp_cache['time'], (float, int)):
             cached_time = self._interp_cache['time']
-            cochain_id = self._interp_cache['cochain_id']   # check whether cochain at time t is changed.
-            current_cochain_id = id(self._f.cochain[time])
-            if cached_time == time and cochain_id == current_cochain_id:
+            # check whether cochain at time t is changed. Keep the object (not its id, ids of dead objects are re-used).
+            cached_cochain = self._interp_cache['cochain']
+            if (
+                cached_time == time and cached_cochain is self._f.cochain[time] and
+                self._interp_cache['density'] == density and self._interp_cache['factor'] == factor
+            ):
                 return self._interp_cache['interp']
 
             else:
@@ -415,7 +420,9 @@ class MsePyRootFormNumeric(Frozen):
             raise NotImplementedError()
 
         self._interp_cache['time'] = time
-        self._interp_cache['cochain_id'] = id(self._f.cochain[time])
+        self._interp_cache['cochain'] = self._f.cochain[time]
+        self._interp_cache['density'] = density
+        self._interp_cache['factor'] = factor
         # noinspection PyTypedDict
         self._interp_cache['interp'] = _2b_return_
 
-- 
2.43.0


From 35baef3afca72112907648251c58d88b8f741974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 70/84] fix: cached interpolations of msehtt forms follow their
 cochain

---
 msehtt/static/form/numeric/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/form/numeric/main.py b/msehtt/static/form/numeric/main.py
index 90c4691..41f3a97 100644
--- a/msehtt/static/form/numeric/main.py
+++ b/msehtt/static/form/numeric/main.py
@@ -21,6 +21,7 @@ class MseHtt_Form_Numeric(Frozen):
         self._f = f
         self._tsp = None
         self._cache_key_ = ''
+        self._cache_cochain_ = None
         self._cache_itp_ = None
         self._export = None
         self._freeze()
@@ -144,10 +145,12 @@ class MseHtt_Form_Numeric(Frozen):
             pass
         else:
             key = f"{t}={ddf}={component_wise}"
-            if key == self._cache_key_:
+            cochain = self._f[t].cochain._cochain  # renewed when the cochain at `t` changes.
+            if key == self._cache_key_ and cochain is self._cache_cochain_:
                 return self._cache_itp_
             else:
                 self._cache_key_ = key
+                self._cache_cochain_ = cochain
 
         n = self._f.space.n
         total_num_elements = self._f.tpm.composition.num_global_elements
-- 
2.43.0


From a30e40687b5d63f7c232d68508b87d02ea4fb1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 71/84] fix: a saved group of discrete data keeps the names of
 its variables

---
 tools/dds/region_wise_structured_group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/dds/region_wise_structured_group.py b/tools/dds/region_wise_structured_group.py
index b211f23..bccabe7 100644
--- a/tools/dds/region_wise_structured_group.py
+++ b/tools/dds/region_wise_structured_group.py
@@ -95,6 +95,7 @@ class DDS_RegionWiseStructured_Group(Frozen):
             'key': 'dds-rws-grouped',
             'coo_dict_list': self._coo_dict_list,
             'val_dict_list_group': self._val_dict_list_group,
+            'value_names': self._value_names,
         }
         with open(filename, 'wb') as output:
             pickle.dump(data_dict, output, pickle.HIGHEST_PROTOCOL)
@@ -110,6 +111,10 @@ class DDS_RegionWiseStructured_Group(Frozen):
         assert data['key'] == 'dds-rws-grouped', f'I am reading a wrong file.'
         coo_dict_list = data['coo_dict_list']
         val_dict_list_group = data['val_dict_list_group']
+        if 'value_names' in data:
+            val_dict_list_group = dict(zip(data['value_names'], val_dict_list_group))
+        else:
+            pass
         return DDS_RegionWiseStructured_Group(coo_dict_list, val_dict_list_group)
 
     # -- properties --------------------------------------------------------------------------
-- 
2.43.0


From 8af32c223a407a525c664ce2025c4fb3e6400efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:35 +0000
Subject: [PATCH 72/84] fix: replacing a cochain of an msehtt form does not
 clean another one

---
 msehtt/static/form/cochain/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msehtt/static/form/cochain/main.py b/msehtt/static/form/cochain/main.py
index f73d2a5..70d94f2 100644
--- a/msehtt/static/form/cochain/main.py
+++ b/msehtt/static/form/cochain/main.py
@@ -68,7 +68,9 @@ class MseHttCochain(Frozen):
                 left_cochain_amount = int(left_cochain_amount)
                 assert left_cochain_amount >= 2, f"auto_cleaning must left more than one cochains."
 
-                if len(self) >= left_cochain_amount:
+                if t in self:
+                    pass  # the cochain at `t` will be replaced, the amount of cochains does not change.
+                elif len(self) >= left_cochain_amount:
                     self.clean(-left_cochain_amount+1)
                     assert len(self) == left_cochain_amount - 1, f'must be!'
                 else:
-- 
2.43.0


From 39672eb1f907491cb1524fba2f0385f225c9be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:45 +0000
Subject: [PATCH 73/84] fix: reading saved cochains of msehtt 1-forms follows
 the reversed dofs of the elements they come from

---
 msehtt/static/form/main.py | 64 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/form/main.py b/msehtt/static/form/main.py
index feb688e..7910950 100644
--- a/msehtt/static/form/main.py
+++ b/msehtt/static/form/main.py
@@ -238,10 +238,13 @@ class MseHttForm(Frozen):
             assert isinstance(time_dict_data, dict), f"I can only read dict."
             only_time_data_dict = {}
             original_global_element_signature_dict = None
+            original_reversed_faces = {}
             all_times = []
             for key in time_dict_data:
                 if key == 'global_element_signature_dict':
                     original_global_element_signature_dict = time_dict_data[key]
+                elif key == 'reversed_faces':
+                    original_reversed_faces = time_dict_data[key]
                 else:
                     all_times.append(key)
                     only_time_data_dict[key] = time_dict_data[key]
@@ -251,7 +254,9 @@ class MseHttForm(Frozen):
         else:
             all_times = None
             assert time_dict_data is None, f"to other ranks, pls send None."
+            original_reversed_faces = None
 
+        original_reversed_faces = COMM.bcast(original_reversed_faces, root=MASTER_RANK)
         all_times = COMM.bcast(all_times, root=MASTER_RANK)
         Element_signature_dict = COMM.gather(self.element_signature_dict, root=MASTER_RANK)
 
@@ -282,6 +287,10 @@ class MseHttForm(Frozen):
                 # noinspection PyTypeChecker
                 local_cochain = COMM.scatter(None, root=MASTER_RANK)
 
+            for e in local_cochain:
+                local_cochain[e] = self._match_reversed_dofs(
+                    e, local_cochain[e], original_reversed_faces.get(self.tpm.composition[e].signature, None)
+                )
             self.cochain._set(t, local_cochain)
 
     def _make_cache_data(self, t=None):
@@ -310,6 +319,7 @@ class MseHttForm(Frozen):
             cache_data[t] = data
 
         cache_data['global_element_signature_dict'] = self.global_element_signature_dict
+        cache_data['reversed_faces'] = self._reversed_faces
 
         if RANK == MASTER_RANK:
             return cache_data
@@ -350,6 +360,51 @@ class MseHttForm(Frozen):
             element_signature_dict[element.signature] = e
         return element_signature_dict
 
+    @property
+    def _reversed_faces(self):
+        r"""The faces on which the dofs of me are reversed. Keys are element signatures, values are lists of faces.
+
+        Which one of the two elements sharing a face has the reversed dofs depends on how the elements are numbered.
+        So, when we save local cochain, we must save this as well. Only return it in Master Rank, in other ranks,
+        return None.
+        """
+        indicator = self.space.str_indicator
+        reversed_faces = {}
+        for e in self.tpm.composition:
+            element = self.tpm.composition[e]
+            reversed_faces[element.signature] = list(element.dof_reverse_info.get(indicator, []))
+
+        reversed_faces = COMM.gather(reversed_faces, root=MASTER_RANK)
+
+        if RANK == MASTER_RANK:
+            total_reversed_faces = {}
+            for _ in reversed_faces:
+                total_reversed_faces.update(_)
+            return total_reversed_faces
+        else:
+            return None
+
+    def _match_reversed_dofs(self, e, local_cochain, original_reversed_faces):
+        r"""`local_cochain` is the local cochain of an element in which the dofs on `original_reversed_faces`
+        are reversed. Return it as the local cochain of my element indexed `e`.
+        """
+        if original_reversed_faces is None:  # not known, for example, the data are made by an old version.
+            return local_cochain
+        else:
+            pass
+
+        indicator = self.space.str_indicator
+        element = self.tpm.composition[e]
+        faces = set(original_reversed_faces) ^ set(element.dof_reverse_info.get(indicator, []))
+        if len(faces) == 0:
+            return local_cochain
+        else:
+            local_cochain = np.array(local_cochain)
+            for face in faces:
+                local_dofs = element.find_local_dofs_on_face(indicator, self.degree, face)
+                local_cochain[local_dofs] = - local_cochain[local_dofs]
+            return local_cochain
+
     def saveto(self, filename, what=None):
         r"""save me to a file.
 
@@ -388,6 +443,7 @@ class MseHttForm(Frozen):
             cochain[t] = total_cochain
 
         element_signature_dict = COMM.gather(element_signature_dict, root=MASTER_RANK)
+        reversed_faces = self._reversed_faces
 
         if RANK == MASTER_RANK:
             Element_Signature_Dict = {}
@@ -398,7 +454,8 @@ class MseHttForm(Frozen):
                 'key': 'msehtt-static-form',
                 'name': self.name,
                 'cochain': cochain,
-                'element signature dict': Element_Signature_Dict
+                'element signature dict': Element_Signature_Dict,
+                'reversed faces': reversed_faces,
             }
             with open(filename, 'wb') as output:
                 # noinspection PyTypeChecker
@@ -429,6 +486,7 @@ class MseHttForm(Frozen):
                 local_cochain = {}
                 cochain = obj['cochain']
                 Element_Signature_Dict = obj['element signature dict']
+                reversed_faces = obj.get('reversed faces', {})
                 for t in cochain:
                     total_t_cochain = cochain[t]
                     local_t_cochain = {}
@@ -437,7 +495,9 @@ class MseHttForm(Frozen):
                         assert element_signature in Element_Signature_Dict, \
                             f"Miss cochain for element indexed {e}: {self.tpm.composition[e]}"
                         index_in_file = Element_Signature_Dict[element_signature]
-                        local_t_cochain[e] = total_t_cochain[index_in_file]
+                        local_t_cochain[e] = self._match_reversed_dofs(
+                            e, total_t_cochain[index_in_file], reversed_faces.get(element_signature, None)
+                        )
                     local_cochain[t] = local_t_cochain
                 del obj
             else:
-- 
2.43.0


From 7969886980575303c8906bf762ebf840e30be140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:00 +0000
Subject: [PATCH 74/84] fix: iterator inputs closer than five decimals have
 their own cache keys

---
 tools/iterator/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index d43ed83..fde42ec 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -336,7 +336,12 @@ class Iterator(Frozen):
                 if i % 1 == 0:
                     i = int(i)
                 else:
-                    i = "%.5f" % i
+                    key = "%.5f" % i
+                    if abs(float(key) - i) > 1e-12 * max(1, abs(i)):
+                        key = "%.12e" % i  # 5 decimals cannot tell this input from those close to it.
+                    else:
+                        pass
+                    i = key
                 return i
             else:
                 raise NotImplementedError()
-- 
2.43.0


From b18b0ddb00ab6d421a4891228be7174deb96817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:00 +0000
Subject: [PATCH 75/84] fix: an iterator killed while it writes its cache keeps
 the last cache

---
 tools/iterator/main.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index fde42ec..7d465d0 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -243,10 +243,7 @@ class Iterator(Frozen):
                     'cache count': 0,
                 }
 
-                with open(cache_filename, 'wb') as output:
-                    # noinspection PyTypeChecker
-                    pickle.dump(cache_dict, output, pickle.HIGHEST_PROTOCOL)
-                output.close()
+                self._write_cache(cache_dict)
 
             # We check the cache file
             self._check_cache(self._cache_filename_)
@@ -279,6 +276,16 @@ class Iterator(Frozen):
         else:
             raise NotImplementedError()
 
+    def _write_cache(self, cache_dict):
+        r"""Write the cache file. We first write to another file such that, if the program is killed when it is writing,
+        the last cache is still there.
+        """
+        temporary_filename = self._cache_filename_ + '.tmp'
+        with open(temporary_filename, 'wb') as output:
+            # noinspection PyTypeChecker
+            pickle.dump(cache_dict, output, pickle.HIGHEST_PROTOCOL)
+        os.replace(temporary_filename, self._cache_filename_)
+
     def _check_cache(self, cache_filename):
         r"""Check whether the cache file is of the correct format.
 
@@ -656,10 +663,7 @@ class Iterator(Frozen):
                             'log': log,
                             'cache_count': cache_count
                         }
-                        with open(self._cache_filename_, 'wb') as cf:
-                            # noinspection PyTypeChecker
-                            pickle.dump(cache_dict, cf, pickle.HIGHEST_PROTOCOL)
-                        cf.close()
+                        self._write_cache(cache_dict)
                         # noinspection PyUnboundLocalVariable
                         self._cache_time_ = now
                         del obj_coding_data, cache_dict
-- 
2.43.0


From 9470f33188d69a4ab078b9b449f19766e4aa427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:00 +0000
Subject: [PATCH 76/84] fix: an iterator run whose results are all cached reads
 the cached objects

---
 tools/iterator/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 7d465d0..cad18e6 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -695,6 +695,12 @@ class Iterator(Frozen):
             else:
                 raise NotImplementedError(f"cannot understand exit_code={self.exit_code}!")
 
+        if self._cache_objs_ is not None and keep_checking:
+            # all results are from the cache; so objects are not updated by the solver, we read them from the cache.
+            self._decoding_objs_(cache_data)
+        else:
+            pass
+
         # --- after iteration ------------------------------------------------------------------------
         if RANK == MASTER_RANK:
             if pbar:
-- 
2.43.0


From 16712453cf1ae25473c98af963fad43a319272db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:45 +0000
Subject: [PATCH 77/84] fix: the transposed local matrix of a nonlinear
 operator lets its rows belong to its second form

---
 msehtt/tools/nonlinear_system/operator/local_multilinear.py | 4 ++++
 msepy/tools/nonlinear_operator/static/local.py              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/msehtt/tools/nonlinear_system/operator/local_multilinear.py b/msehtt/tools/nonlinear_system/operator/local_multilinear.py
index be5b048..de2732e 100644
--- a/msehtt/tools/nonlinear_system/operator/local_multilinear.py
+++ b/msehtt/tools/nonlinear_system/operator/local_multilinear.py
@@ -253,6 +253,10 @@ class MseHttStatic_Local_Multi_Linear_NonlinearOperator(Frozen):
                 raise Exception()
             gms.append(gm)
 
+        if transpose:
+            gms = gms[::-1]  # rows of the transposed data belong to the second form.
+        else:
+            pass
         M = _Matrix(self, transpose)
         return MseHttStaticLocalMatrix(M, *gms, cache_key='unique')  # 2d csr_matrix is made in realtime
 
diff --git a/msepy/tools/nonlinear_operator/static/local.py b/msepy/tools/nonlinear_operator/static/local.py
index 2437557..8f2839f 100644
--- a/msepy/tools/nonlinear_operator/static/local.py
+++ b/msepy/tools/nonlinear_operator/static/local.py
@@ -281,6 +281,10 @@ class MsePyStaticLocalNonlinearOperator(Frozen):
             else:
                 raise Exception()
             gms.append(gm)
+        if transpose:
+            gms = gms[::-1]  # rows of the transposed data belong to the second form.
+        else:
+            pass
         M = _Matrix(self, transpose)
         return MsePyStaticLocalMatrix(M, *gms, cache_key='unique')  # 2d csr_matrix is made in realtime
 
-- 
2.43.0


From 46a5ea2820272b5bb0e61b525ed67f7cf5bdbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:46 +0000
Subject: [PATCH 78/84] fix: msepy numbers periodic meshes that are one or two
 elements wide

---
 msepy/mesh/topology/main.py            | 150 ++++---------------------
 msepy/space/gathering_matrix/Lambda.py |  29 ++---
 2 files changed, 35 insertions(+), 144 deletions(-)

diff --git a/msepy/mesh/topology/main.py b/msepy/mesh/topology/main.py
index f3dd9fa..a8d722d 100644
--- a/msepy/mesh/topology/main.py
+++ b/msepy/mesh/topology/main.py
@@ -146,18 +146,8 @@ class MsePyMeshTopology(Frozen):
                         # Now we first find the elements sharing this corner
                         corner_name = c_i2n[k]
 
-                        _attachment_corners_1_ = \
-                            self._find_the_elements_sharing_corner_edge(i, corner_name[0:2])
-                        _attachment_corners_2_ = \
-                            self._find_the_elements_sharing_corner_edge(i, corner_name[1:3])
-                        _attachment_corners_3_ = \
-                            self._find_the_elements_sharing_corner_edge(i, corner_name[0:3:2])
-                        self._corner_attachment[current_num] = self._group_edges_into_corners(
-                            i,
-                            _attachment_corners_1_,
-                            _attachment_corners_2_,
-                            _attachment_corners_3_
-                        )
+                        self._corner_attachment[current_num] = \
+                            self._find_the_elements_sharing_corner_edge(i, corner_name)
                         for item in self._corner_attachment[current_num]:
                             # now, we number this group corners
                             try:
@@ -232,142 +222,40 @@ class MsePyMeshTopology(Frozen):
 
     def _find_the_elements_sharing_corner_edge(self, i, edge_name):
         """
-        Find all elements and domain boundaries that contain the edge named
-        `edge_name` of ith element.
+        Find all elements that contain the edge (or corner) named
+        `edge_name` of ith element, with the name it has there.
 
         Parameters
         ----------
         i : natural_number
             ith element
         edge_name : str
-            The edge name
+            The edge (or corner) name
 
         Returns
         -------
         output : tuple
-            A tuple of all elements and domain boundary that contains this edge.
+            A tuple of all elements that contain this edge (or corner).
 
         """
         s_n2i = {'N': 0, 'S': 1, 'W': 2, 'E': 3, 'B': 4, 'F': 5}
         s_pair = {'N': 'S', 'S': 'N', 'W': 'E', 'E': 'W', 'B': 'F', 'F': 'B'}
 
-        _tuple_ = (str(i)+'-'+edge_name,)
-
-        s1, s2 = edge_name
-        # Now we go along this two direction to reach element i or boundary
-        location = self._mesh.elements.map[i][s_n2i[s1]]
-
-        num_while = 0
-        while location != -1 and location != i:
-            num_while += 1
-            _tuple_ += (str(location)+'-'+s_pair[s1]+s2,)
-            s1, s2 = s2, s_pair[s1]
-            location = self._mesh.elements.map[location][s_n2i[s1]]
-            if num_while > 3:
-                raise Exception(' <Mesh> <Geometry> : mesh is wrong')
-        if location == -1:  # if the while loop stops because reaching the boundary.
-            s2, s1 = edge_name  # then perform the same while loop to find every thing but from another direction.
-            location = self._mesh.elements.map[i][s_n2i[s1]]
-            num_while = 0
-            while location != -1 and location != i:
-                num_while += 1
-                _tuple_ += (str(location)+'-'+s_pair[s1]+s2,)
-                s1, s2 = s2, s_pair[s1]
-                location = self._mesh.elements.map[location][s_n2i[s1]]
-                if num_while > 3:
-                    raise Exception(' <Mesh> <Geometry> : mesh is wrong')
-            if location == -1:  # the while loop stops because reaching the boundary again
-                pass
-
-        _edge_index_to_name_ = {
-            0: 'WB', 1: 'EB', 2: 'WF', 3: 'EF', 4: 'NB', 5: 'SB',
-            6: 'NF', 7: 'SF', 8: 'NW', 9: 'SW', 10: 'NE', 11: 'SE'
-        }
-        _edge_name_to_index_ = {
-            'WB': 0, 'EB': 1, 'WF': 2, 'EF': 3, 'NB': 4, 'SB': 5,
-            'NF': 6, 'SF': 7, 'NW': 8, 'SW': 9, 'NE': 10, 'SE': 11,
-            'BW': 0, 'BE': 1, 'FW': 2, 'FE': 3, 'BN': 4, 'BS': 5,
-            'FN': 6, 'FS': 7, 'WN': 8, 'WS': 9, 'EN': 10, 'ES': 11
-        }
-        output = ()
-        for item in _tuple_:
-            element, edge_name = item.split('-')
-            edge_name = _edge_index_to_name_[_edge_name_to_index_[edge_name]]
-            output += (element + '-' + edge_name,)
-
-        return output
-
-    def _group_edges_into_corners(self, i, *args):
-        """
-        As we use the method ___find_the_elements_sharing_corner_edge___ to find the
-        nearby elements, the format in the attachment is as {'7-NE', '7-NF',
-        ...}, we need to group this item into '7-NEF'.
-
-        """
-        _dict_ = {}
-        for ac in args:
-            for item in ac:
-                ith_element = int(item.split('-')[0])
-                edge = item.split('-')[1]
-                assert 0 <= int(ith_element) < self._mesh.elements._num, " <Geometry3D> "
-                if ith_element not in _dict_:
-                    _dict_[ith_element] = []
-                _dict_[ith_element].append(edge)
-
-        for key in _dict_:
-            if isinstance(key, int):
-                _dict_[key] = ''.join(list(set(''.join(_dict_[key]))))
-            else:
-                raise Exception()
-
-        for key in _dict_:
-            if isinstance(key, int):
-                if len(_dict_[key]) == 2:
-                    # there are some element or edges which are not saw
-                    # we have to give this method more information and return
-                    # the new output
-                    ARGS = []
-                    for I_ in _dict_:
-                        if I_ != i:
-                            if len(_dict_[I_]) == 3:
-                                ARGS.append(self._find_the_elements_sharing_corner_edge(I_, _dict_[I_][0:2]))
-                                ARGS.append(self._find_the_elements_sharing_corner_edge(I_, _dict_[I_][1:3]))
-                                ARGS.append(self._find_the_elements_sharing_corner_edge(I_, _dict_[I_][0:3:2]))
-                            else:
-                                pass
-
-                    return self._group_edges_into_corners(i, *args, *ARGS)
-
-                elif len(_dict_[key]) == 3:
+        # go from element to element through the sides that contain this edge (or corner) until there is no new one.
+        found = [(i, edge_name)]
+        for element, name in found:
+            for side in name:
+                location = self._mesh.elements.map[element][s_n2i[side]]
+                if location != -1:
+                    neighbor = (location, name.replace(side, s_pair[side]))
+                    if neighbor not in found:
+                        found.append(neighbor)
+                    else:
+                        pass
+                else:
                     pass
 
-                else:
-                    raise Exception()
-
-            else:
-                raise Exception()
-
-        _corner_index_to_name_ = {
-            0: 'NWB', 1: 'SWB', 2: 'NEB', 3: 'SEB', 4: 'NWF', 5: 'SWF', 6: "NEF", 7: 'SEF'
-        }
-        _corner_name_to_index_ = {
-            'NWB': 0, 'SWB': 1, 'NEB': 2, 'SEB': 3, 'NWF': 4, 'SWF': 5, "NEF": 6, 'SEF': 7,
-            'NBW': 0, 'SBW': 1, 'NBE': 2, 'SBE': 3, 'NFW': 4, 'SFW': 5, "NFE": 6, 'SFE': 7,
-            'WNB': 0, 'WSB': 1, 'ENB': 2, 'ESB': 3, 'WNF': 4, 'WSF': 5, "ENF": 6, 'ESF': 7,
-            'WBN': 0, 'WBS': 1, 'EBN': 2, 'EBS': 3, 'WFN': 4, 'WFS': 5, "EFN": 6, 'EFS': 7,
-            'BNW': 0, 'BSW': 1, 'BNE': 2, 'BSE': 3, 'FNW': 4, 'FSW': 5, "FNE": 6, 'FSE': 7,
-            'BWN': 0, 'BWS': 1, 'BEN': 2, 'BES': 3, 'FWN': 4, 'FWS': 5, "FEN": 6, 'FES': 7
-        }
-        output = set()
-        for key in _dict_:
-            if isinstance(key, int):
-                corner_name = _corner_index_to_name_[_corner_name_to_index_[_dict_[key]]]
-                output.update({str(key)+'-'+corner_name, })
-            else:
-                raise Exception()
-
-        output = tuple(output)  # we do this to avoid uncertainty during using `set`.
-        return output
+        return tuple(str(element) + '-' + name for element, name in found)
 
     def _generate_numbering_gathering_edges_(self):
         """
diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 3d16470..a369b8d 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -70,7 +70,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 # there is another element at nth element's north, and it is already numbered.
                 # So we just take the numbering from it.
                 gn0[n, 0, :, :] = gn0[what_north, -1, :, :]
-            elif what_north > n:
+            elif what_north >= n:
                 # there is another element at nth element's north
                 # but, it is not numbered, so we number nth element's north
                 gn0[n, 0, :, :] = np.arange(current_number,
@@ -92,7 +92,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                                              current_number + num_basis_on_sides_dict['S']).reshape(
                     (p[1], p[2]), order='F')
                 current_number += num_basis_on_sides_dict['S']
-            elif what_south < n:
+            elif what_south <= n:
                 # there is another element at nth element's south, and it is already numbered.
                 # So we just take the numbering from it.
                 gn0[n, -1, :, :] = gn0[what_south, 0, :, :]
@@ -118,7 +118,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 # there is another element at nth element's west, and it is already numbered.
                 # So we just take the numbering from it.
                 gn1[n, :, 0, :] = gn1[what_west, :, -1, :]
-            elif what_west > n:
+            elif what_west >= n:
                 # there is another element at nth element's west,
                 # but, it is not numbered, so we number nth element's west.
                 gn1[n, :, 0, :] = np.arange(current_number,
@@ -140,7 +140,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                                              current_number + num_basis_on_sides_dict['E']).reshape(
                     (p[0], p[2]), order='F')
                 current_number += num_basis_on_sides_dict['E']
-            elif what_east < n:
+            elif what_east <= n:
                 # there is another element at nth element's east, and it is already numbered.
                 # So we just take the numbering from it.
                 gn1[n, :, -1, :] = gn1[what_east, :, 0, :]
@@ -165,7 +165,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 # there is another element at nth element's back and it is already numbered.
                 # So we just take the numbering from it.
                 gn2[n, :, :, 0] = gn2[what_back, :, :, -1]
-            elif what_back > n:
+            elif what_back >= n:
                 # there is another element at nth element's back,
                 # but, it is not numbered, so we number nth element's back.
                 gn2[n, :, :, 0] = np.arange(current_number,
@@ -188,7 +188,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                                              current_number + num_basis_on_sides_dict['F']).reshape(
                     (p[0], p[1]), order='F')
                 current_number += num_basis_on_sides_dict['F']
-            elif what_front < n:
+            elif what_front <= n:
                 # there is another element at nth element's front, and it is already numbered.
                 # So we just take the numbering from it.
                 gn2[n, :, :, -1] = gn2[what_front, :, :, 0]
@@ -1128,9 +1128,10 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # __ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        axis, start_end = _dict_[number_where]
+                        if attached_element > numbering_element or (
+                                attached_element == numbering_element and start_end == 0):
                             # the attached_edge can not be numbered, we number numbering_edge
-                            axis, start_end = _dict_[number_where]
                             if axis == 0:
                                 gm[i, start_end, 1:-1] = np.arange(
                                     current_num, current_num + num_dof_dict[number_where])
@@ -1209,9 +1210,10 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # ___ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        axis, start_end = _dict_[number_where]
+                        if attached_element > numbering_element or (
+                                attached_element == numbering_element and start_end == 0):
                             # the attached_edge can not be numbered, we number numbering_edge
-                            axis, start_end = _dict_[number_where]
                             if axis == 0:
                                 gm_dy[i][start_end, :] = np.arange(
                                     current_num, current_num + num_dof_dict[number_where])
@@ -1297,9 +1299,10 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # ___ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        axis, start_end = _dict_[number_where]
+                        if attached_element > numbering_element or (
+                                attached_element == numbering_element and start_end == 0):
                             # the attached_edge can not be numbered, we number numbering_edge
-                            axis, start_end = _dict_[number_where]
                             if axis == 0:
                                 gm_dy[i][start_end, :] = np.arange(
                                     current_num, current_num + num_dof_dict[number_where])
@@ -1415,7 +1418,7 @@ class MsePyGatheringMatrixLambda(Frozen):
         for e, mp in enumerate(element_map):
             # number x- node
             x_m = mp[0]
-            if x_m == -1 or x_m > e:  # x- side of element #e is a boundary or not numbered
+            if x_m == -1 or x_m >= e:  # x- side of element #e is a boundary or not numbered
                 gm[e, 0] = current
                 current += 1
             else:
-- 
2.43.0


From 6e48ac41d02cb15d25757b22f6581527e7137588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 79/84] fix: assembling a vector adds up the entries of a dof
 that is at several places of an element

---
 msehtt/tools/vector/static/local.py | 2 +-
 msepy/tools/vector/static/local.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/tools/vector/static/local.py b/msehtt/tools/vector/static/local.py
index 4d9ee0e..a5f0ea4 100644
--- a/msehtt/tools/vector/static/local.py
+++ b/msehtt/tools/vector/static/local.py
@@ -36,7 +36,7 @@ class MseHttStaticLocalVectorAssemble(Frozen):
                 gm = self._v._gm
                 v = np.zeros(gm.num_global_dofs)
                 for i in self:
-                    v[gm[i]] += self[i]  # must do this to be consistent with the matrix assembling.
+                    np.add.at(v, gm[i], self[i])  # a dof may be at several places of an element; consistent with the matrix assembling.
                 RETURN = MseHttGlobalVectorDistributed(v, gm)
             else:
                 raise NotImplementedError(f"mode={mode} not implemented for {vtype} assembling")
diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index 1e1a909..595f6ab 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -23,7 +23,7 @@ class MsePyStaticLocalVectorAssemble(Frozen):
 
         for i in self._v:
             Vi = self._v[i]  # all adjustments and customizations take effect.
-            v[gm[i]] += Vi  # must do this to be consistent with the matrix assembling.
+            np.add.at(v, gm[i], Vi)  # a dof may be at several places of an element; consistent with the matrix assembling.
 
         return MsePyStaticAssembledVector(v, gm)
 
-- 
2.43.0


From 592505ed6ceafed5e82320fb1523f4a034885360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 80/84] fix: a refinement after one that failed does not see
 the boundary of the failed one

---
 msehtt/static/mesh/great/config/msehtt_trf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msehtt/static/mesh/great/config/msehtt_trf.py b/msehtt/static/mesh/great/config/msehtt_trf.py
index 3dc6cac..2e74f91 100644
--- a/msehtt/static/mesh/great/config/msehtt_trf.py
+++ b/msehtt/static/mesh/great/config/msehtt_trf.py
@@ -155,6 +155,8 @@ def _refining_(base_mesh, rff, rft, rcm):
     else:
         raise NotImplementedError()
 
+    ___a_cache___['boundary_faces'] = None  # clear the cache (of a refining that did not finish)
+
     # --- do the first level refining, different from higher levels -------------------------
     elements_2be_refined = _level_one_refining_(mn, base_mesh, rff, rft[0], rcm)
     new_element_indices = _parse_level_one_elements_(mn, elements_2be_refined, base_mesh)
-- 
2.43.0


From 214977d4f4c2ddab4f3efd747736fca699255e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 81/84] fix: a refining function may return one number in an
 array

---
 msehtt/static/mesh/great/config/msehtt_trf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msehtt/static/mesh/great/config/msehtt_trf.py b/msehtt/static/mesh/great/config/msehtt_trf.py
index 2e74f91..7e29c45 100644
--- a/msehtt/static/mesh/great/config/msehtt_trf.py
+++ b/msehtt/static/mesh/great/config/msehtt_trf.py
@@ -389,6 +389,10 @@ def _level_high_refining_m2n2_(base_mesh, rff, rft_i, rcm, element_indices):
                             f"refine_checking_val={refine_checking_val} can be a list or tuple of one number!"
                         refine_checking_val = refine_checking_val[0]
                     else:
+                        if isinstance(refine_checking_val, (np.ndarray, np.generic)) and refine_checking_val.size == 1:
+                            refine_checking_val = refine_checking_val.item()  # one number, e.g., of `np.ones_like(x)`
+                        else:
+                            pass
                         assert isinstance(refine_checking_val, (int, float)), \
                             f"refine_checking_val={refine_checking_val} must be a number"
 
-- 
2.43.0


From fd72e40b16133b2110d73086782d9bad74a91f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 82/84] fix: nodes on a side that two quads go along in
 opposite directions are told apart

---
 msehtt/static/mesh/great/config/msehtt_trf.py | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/msehtt/static/mesh/great/config/msehtt_trf.py b/msehtt/static/mesh/great/config/msehtt_trf.py
index 7e29c45..a968deb 100644
--- a/msehtt/static/mesh/great/config/msehtt_trf.py
+++ b/msehtt/static/mesh/great/config/msehtt_trf.py
@@ -512,6 +512,17 @@ def _find_refined_able_pairs_m2n2_(base_mesh, element_indices):
     return refined_able_pairs, elements_facing_boundary
 
 
+def _node_on_edge_(start, end, s):
+    r"""The indicator of the node at `s` (from -1 at vortex `start` to 1 at vortex `end`) of an edge of a quad element.
+
+    The edge can go the other way in the other quad element sharing it.
+    """
+    if start < end:
+        return start, end, s
+    else:
+        return end, start, -s
+
+
 def _make_element_map_m2n2_(base_mesh, element_indices):
     r""""""
     _, _, element_map_dict = base_mesh
@@ -535,21 +546,13 @@ def _make_element_map_m2n2_(base_mesh, element_indices):
                 elif x == 1 and y == 1:  # this vortex is the South-East corner of the quad element
                     node_indicator = element_nodes[2]
                 elif x == -1:  # on north edge
-                    face_nodes = [element_nodes[0], element_nodes[3]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (y, )
+                    node_indicator = _node_on_edge_(element_nodes[0], element_nodes[3], y)
                 elif x == 1:  # on South edge
-                    face_nodes = [element_nodes[1], element_nodes[2]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (y, )
+                    node_indicator = _node_on_edge_(element_nodes[1], element_nodes[2], y)
                 elif y == -1:  # on West edge
-                    face_nodes = [element_nodes[0], element_nodes[1]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (x, )
+                    node_indicator = _node_on_edge_(element_nodes[0], element_nodes[1], x)
                 elif y == 1:  # on East edge
-                    face_nodes = [element_nodes[3], element_nodes[2]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (x, )
+                    node_indicator = _node_on_edge_(element_nodes[3], element_nodes[2], x)
                 else:
                     node_indicator = (e[0], x, y)
 
-- 
2.43.0


From 8c2ddad2bfbb056034631158bd4164ae8bf3a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 83/84] fix: a linear system is parsed on the base it is built
 on, whichever implementation was applied before

---
 msehtt/tools/linear_system/dynamic/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msehtt/tools/linear_system/dynamic/main.py b/msehtt/tools/linear_system/dynamic/main.py
index 86233a0..42ceb83 100644
--- a/msehtt/tools/linear_system/dynamic/main.py
+++ b/msehtt/tools/linear_system/dynamic/main.py
@@ -56,6 +56,10 @@ class MseHttDynamicLinearSystem(Frozen):
 
     def apply(self):
         """"""
+        # let the parsers study the base I am built on (instead of the one of another implementation applied before).
+        self._base['PARSER']._setting_['base'] = self._base
+        self._base['NOC-PARSER']._setting_['base'] = self._base
+
         self._parse_matrix_block(self._ls.A)
         self._x = self._parse_vector_block(self._ls.x)
         self._b = self._parse_vector_block(self._ls.b)
-- 
2.43.0


From e6b4c16b6ff6aad4a023cf3bc2da945cc250bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:06 +0000
Subject: [PATCH 84/84] fix: mass matrices of curvilinear hexahedra for degrees
 of customized nodes (Gauss rules where there is no rule of that type)

---
 msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py | 2 +-
 msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py | 2 +-
 msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py
index e770aa0..8df29ef 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k0.py
@@ -75,7 +75,7 @@ def ___mm330_unique_hexahedron___(element, degree):
     """"""
     p, btype = element.degree_parser(degree)
     quad_degree = (p[0]+2, p[1]+2, p[2]+2)
-    quad = quadrature(quad_degree, btype)
+    quad = quadrature(quad_degree, tuple(bt if bt in ('Gauss', 'Lobatto') else 'Gauss' for bt in btype))
     quad_nodes = quad.quad_nodes
     quad_weights = quad.quad_weights_ravel
     xi_et_sg, bf = element.bf('m3n3k0', degree, *quad_nodes)
diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
index 9eb87b2..8c477d9 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
@@ -95,7 +95,7 @@ def ___mm331_unique_hexahedron___(element, degree):
     """"""
     p, btype = element.degree_parser(degree)
     quad_degree = (p[0]+2, p[1]+2, p[2]+2)
-    quad = quadrature(quad_degree, btype)
+    quad = quadrature(quad_degree, tuple(bt if bt in ('Gauss', 'Lobatto') else 'Gauss' for bt in btype))
     quad_nodes = quad.quad_nodes
     quad_weights = quad.quad_weights_ravel
     xi_et_sg, bf = element.bf('m3n3k1', degree, *quad_nodes)
diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
index 956be66..8e325d1 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
@@ -95,7 +95,7 @@ def ___mm332_unique_hexahedron___(element, degree):
     """"""
     p, btype = element.degree_parser(degree)
     quad_degree = (p[0], p[1], p[2])
-    quad = quadrature(quad_degree, btype)
+    quad = quadrature(quad_degree, tuple(bt if bt in ('Gauss', 'Lobatto') else 'Gauss' for bt in btype))
     quad_nodes = quad.quad_nodes
     quad_weights = quad.quad_weights_ravel
     xi_et_sg, bf = element.bf('m3n3k2', degree, *quad_nodes)
-- 
2.43.0

