From 52686b7d6291d41f80d52f16336f7d845e8b0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 01/40] fix: reject non-positive node indices when loading a
 grid

---
 crysgsu/gsu/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17c7aa2..a43a8ec 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -557,7 +557,10 @@ class Grid:
                     for i in range(faces_to_read):
                         line = f.readline()
                         face = zone.Faces[i]
-                        nodes = [zone.Nodes[int(ss) - 1] for ss in line.split()]
+                        ids = [int(ss) for ss in line.split()]
+                        if ids and min(ids) < 1:
+                            raise Exception('Wrong node index ({0}).'.format(min(ids)))
+                        nodes = [zone.Nodes[ni - 1] for ni in ids]
                         if len(nodes) != 3:
                             raise Exception('Wrong count of ' \
                                             'face linked nodes ({0}).'.format(len(nodes)))
-- 
2.43.0


From 3374922d6a1d995c32b25ffbf8dd7319aaacbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 02/40] fix: roll back a zone split that is impossible along an
 axis

---
 crysgsu/gsu/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index a43a8ec..4b1167d 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -920,6 +920,9 @@ class Grid:
 
         # Prevent empty zone.
         if (zlc == 0) or (zrc == 0):
+            # Roll back.
+            for f in zone.Faces:
+                f.Zone = zone
             return math.inf
 
         # Metric.
@@ -977,8 +980,9 @@ class Grid:
 
         if min_metric is math.inf:
             print('Warning : bad metrics to split zone {0}'.format(zone.Name))
-            # Replace to the end.
-            self.Zones.remove(zone)
+            # Replace to the end (without children).
+            self.Zones.remove(zl)
+            self.Zones.remove(zr)
             self.Zones.append(zone)
             return
 
-- 
2.43.0


From b31d893fa77c2d7ba03824852f94431a640a5750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 03/40] fix: keep identifiers dense and do not fail on corner
 nodes when collapsing an edge

---
 crysgsu/gsu/grid.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 4b1167d..8fd2c5d 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1249,7 +1249,9 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        node.Faces[0].Zone.Nodes.remove(node)
+        for z in self.Zones:
+            if node in z.Nodes:
+                z.Nodes.remove(node)
         self.Nodes.remove(node)
         self.RoundedCoordsBag.remove(node.RoundedCoords)
 
@@ -1623,12 +1625,14 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
-            self.Faces[-1].GloId = f1.GloId
-            self.Faces[-2].GloId = f2.GloId
-            self.Edges[-1].GloId = edge.GloId
-            self.Edges[-2].GloId = e1.GloId
-            self.Edges[-3].GloId = e2.GloId
-            self.Nodes[-1].GloId = n2.GloId
+            # Give released identifiers to objects with identifiers out of range.
+            for objs, ids in [(self.Faces, [f1.GloId, f2.GloId]),
+                              (self.Edges, [edge.GloId, e1.GloId, e2.GloId]),
+                              (self.Nodes, [n2.GloId])]:
+                free_ids = [i for i in ids if i < len(objs)]
+                for obj in objs:
+                    if obj.GloId >= len(objs):
+                        obj.GloId = free_ids.pop()
 
             return True
         else:
-- 
2.43.0


From 098b068c38565b71d8eaae495f9f02dcdbfa4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 04/40] fix: keep zones of faces and zone lists in
 transformations on borders of zones

---
 crysgsu/gsu/grid.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 8fd2c5d..af5f05f 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1376,6 +1376,7 @@ class Grid:
             self.del_edge(max_edge)
             other_face = max_edge.Faces[0]
             gloid2 = other_face.GloId
+            zone2 = other_face.Zone
             self.del_face(other_face)
 
             # get new faces
@@ -1421,6 +1422,9 @@ class Grid:
             self.add_face(f1, gloid1)
             self.add_face(f2, gloid2)
 
+            if zone2 is not zone:
+                self.link_nodes_and_edges_to_zones()
+
             return True
         else:
             return False
@@ -1474,6 +1478,7 @@ class Grid:
             zone = f1.Zone
             data2 = f2.Data.copy()
             gloid2 = f2.GloId
+            zone2 = f2.Zone
 
             self.del_face(f1)
             self.del_face(f2)
@@ -1557,13 +1562,16 @@ class Grid:
 
             zone.add_face(f1_1)
             zone.add_face(f1_2)
-            zone.add_face(f2_1)
-            zone.add_face(f2_2)
+            zone2.add_face(f2_1)
+            zone2.add_face(f2_2)
             zone.add_edge(e15)
             zone.add_edge(e25)
             zone.add_edge(e35)
             zone.add_edge(e45)
 
+            if zone2 is not zone:
+                self.link_nodes_and_edges_to_zones()
+
             return True
         else:
             return False
@@ -1625,6 +1633,9 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
+            if len(self.Zones) > 1:
+                self.link_nodes_and_edges_to_zones()
+
             # Give released identifiers to objects with identifiers out of range.
             for objs, ids in [(self.Faces, [f1.GloId, f2.GloId]),
                               (self.Edges, [edge.GloId, e1.GloId, e2.GloId]),
@@ -1873,6 +1884,7 @@ class Grid:
             zone = face1.Zone
             data2 = face2.Data.copy()
             gloid2 = face2.GloId
+            zone2 = face2.Zone
 
             self.del_face(face1)
             self.del_face(face2)
@@ -1990,9 +2002,9 @@ class Grid:
             zone.add_face(f1)
             zone.add_face(f2)
             zone.add_face(f3)
-            zone.add_face(f4)
-            zone.add_face(f5)
-            zone.add_face(f6)
+            zone2.add_face(f4)
+            zone2.add_face(f5)
+            zone2.add_face(f6)
             zone.add_edge(e14)
             zone.add_edge(e25)
             zone.add_edge(e45)
@@ -2001,6 +2013,9 @@ class Grid:
             zone.add_edge(e46)
             zone.add_edge(e56)
 
+            if zone2 is not zone:
+                self.link_nodes_and_edges_to_zones()
+
             return True
 
         else:
-- 
2.43.0


From 241ebd19e4d7265ca22ecf457569cd5dd3437153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 05/40] fix: keep orientation of faces in atomic
 transformations

---
 crysgsu/gsu/grid.py | 41 ++++++++++++++++++++++++++++++++++++++++-
 crysgsu/gsu/node.py |  4 ++--
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index af5f05f..3c65bd4 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -323,6 +323,23 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def orient_face(face, parent, changes):
+        """
+        Order nodes of the face as nodes of its parent face (to keep the direction of normal).
+
+        :param face: face
+        :param parent: parent face
+        :param changes: pairs (node of the parent, node of the face on its place)
+        """
+
+        nodes = parent.Nodes[:]
+        for old, new in changes:
+            nodes = [new if n is old else n for n in nodes]
+        face.Nodes = nodes
+
+    # ----------------------------------------------------------------------------------------------
+
     @staticmethod
     def link_edge_face(edge, face):
         """
@@ -1323,11 +1340,11 @@ class Grid:
         Grid.link_edge_face(e6, f3)
 
         Grid.link_node_face(n1, f1)
-        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n2, f1)
         Grid.link_node_face(n2, f2)
         Grid.link_node_face(n3, f2)
         Grid.link_node_face(n3, f3)
+        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n4, f1)
         Grid.link_node_face(n4, f2)
         Grid.link_node_face(n4, f3)
@@ -1408,6 +1425,9 @@ class Grid:
             Grid.link_node_face(n3, f2)
             Grid.link_node_face(n4, f2)
 
+            Grid.orient_face(f1, face, [(n2, n4)])
+            Grid.orient_face(f2, face, [(n1, n4)])
+
             Grid.link_edge_face(e1, f1)
             Grid.link_edge_face(e2, f1)
             Grid.link_edge_face(e5, f1)
@@ -1547,6 +1567,11 @@ class Grid:
             Grid.link_node_face(n4, f2_1)
             Grid.link_node_face(n4, f2_2)
 
+            Grid.orient_face(f1_1, f1, [(n1, n5)])
+            Grid.orient_face(f1_2, f1, [(n2, n5)])
+            Grid.orient_face(f2_1, f2, [(n2, n5)])
+            Grid.orient_face(f2_2, f2, [(n1, n5)])
+
             Grid.link_edge_face(e15, f1_2)
             Grid.link_edge_face(e15, f2_1)
             Grid.link_edge_face(e25, f1_1)
@@ -1733,6 +1758,9 @@ class Grid:
             Grid.link_node_face(n1, f1)
             Grid.link_node_face(n2, f2)
 
+            Grid.orient_face(f1, face, [(n2, n4)])
+            Grid.orient_face(f2, face, [(n1, n4)])
+
             Grid.link_edge_face(e34, f1)
             Grid.link_edge_face(e34, f2)
             Grid.link_edge_face(e13, f1)
@@ -1853,6 +1881,10 @@ class Grid:
             Grid.link_node_face(n5, f2)
             Grid.link_node_face(n5, f3)
 
+            Grid.orient_face(f1, face, [(n2, n4)])
+            Grid.orient_face(f2, face, [(n1, n4), (n2, n5)])
+            Grid.orient_face(f3, face, [(n1, n5)])
+
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
             Grid.link_edge_face(e34, f1)
@@ -1980,6 +2012,13 @@ class Grid:
             Grid.link_node_face(n6, f5)
             Grid.link_node_face(n6, f6)
 
+            Grid.orient_face(f1, face1, [(n2, n4)])
+            Grid.orient_face(f2, face1, [(n1, n4), (n2, n5)])
+            Grid.orient_face(f3, face1, [(n1, n5)])
+            Grid.orient_face(f4, face2, [(n2, n4)])
+            Grid.orient_face(f5, face2, [(n1, n4), (n2, n5)])
+            Grid.orient_face(f6, face2, [(n1, n5)])
+
             Grid.link_edge_face(e14, f1)
             Grid.link_edge_face(e13, f1)
             Grid.link_edge_face(e34, f1)
diff --git a/crysgsu/gsu/node.py b/crysgsu/gsu/node.py
index 5daa3cf..d158bdf 100644
--- a/crysgsu/gsu/node.py
+++ b/crysgsu/gsu/node.py
@@ -85,7 +85,7 @@ class Node:
             ed.Nodes.remove(self)
             ed.Nodes += [n]
         for face in self.Faces:
-            face.Nodes.remove(self)
-            face.Nodes += [n]
+            # Keep the order of nodes in the face (direction of normal).
+            face.Nodes = [n if node is self else node for node in face.Nodes]
 
 # ==================================================================================================
-- 
2.43.0


From 0b7ee44d6320a67b70b8dfc90078b23c98cee4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 06/40] fix: print_info refers to the zones adjacency matrix by
 its module

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 3c65bd4..75c5d99 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -150,7 +150,7 @@ class Grid:
               '{2} faces, {3} zones'.format(len(self.Nodes), ec, fc, zc))
 
         # Zones adjacency matrix.
-        zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
+        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
 
         # Edges statistics.
         if is_print_edges_statistics:
-- 
2.43.0


From 329db8558fe430b89ed250b16215a7de201295c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 07/40] fix: do not use the removed numpy alias np.float in
 zones arrays

---
 crysgsu/gsu/zone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/zone.py b/crysgsu/gsu/zone.py
index 907bbdc..84a2bb1 100644
--- a/crysgsu/gsu/zone.py
+++ b/crysgsu/gsu/zone.py
@@ -205,10 +205,10 @@ class Zone:
         """
         gloids, ts, hws = list(), list(), list()
         his, htcs, betas = list(), list(), list()
-        mimp2s = np.zeros((len(self.Faces)), dtype=np.float)
-        vd2s =  np.zeros((len(self.Faces)), dtype=np.float)
+        mimp2s = np.zeros((len(self.Faces)), dtype=float)
+        vd2s =  np.zeros((len(self.Faces)), dtype=float)
         tauxs, tauys, tauzs = list(), list(), list()
-        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.float)
+        recoveryfactors =  np.zeros((len(self.Faces)), dtype=float)
 
         for f in self.Faces:
             gloids.append(f.GloId)
@@ -234,7 +234,7 @@ class Zone:
             n1, n2, n3 = f.Nodes[0].GloId, f.Nodes[1].GloId, f.Nodes[2].GloId
             assert not n1 == n2 == n3
             connectivity_list.append([n1, n2, n3])
-        return np.array(connectivity_list, dtype=np.float)
+        return np.array(connectivity_list, dtype=float)
 
     def get_variable(self, name):
         """Return numpy array of variable values.
-- 
2.43.0


From 1c3dae4ad601e6ce2ec6b2158dc27ad76db5a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 08/40] fix: clear the name and the number of border nodes of a
 reused grid

---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 75c5d99..d2c0f4e 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -44,11 +44,13 @@ class Grid:
         Clear grid.
         """
 
+        self.Name = ''
         self.Nodes.clear()
         self.Edges.clear()
         self.Faces.clear()
         self.Zones.clear()
         self.RoundedCoordsBag.clear()
+        self.number_of_border_nodes = 0
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From af508cf68713a7e356de578c2c3d63d19d483ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 09/40] fix: judge intersection of a segment with a triangle
 relative to their sizes

---
 crysgsu/geom/triangle.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index ba9fc46..0a4a693 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -187,7 +187,7 @@ class Triangle:
 
             det = np.array([[ba.Coords[i], ca.Coords[i]],
                             [ba.Coords[j], ca.Coords[j]]])
-            return round(np.linalg.det(det), 10)
+            return np.linalg.det(det)
 
         def solve_the_linear_equation(a, b):
             """
@@ -240,7 +240,8 @@ class Triangle:
                     res = []
             return res
 
-        if abs(d) < 1e-10:
+        # All comparisons with zero have to be relative, they must not depend on sizes of objects.
+        if abs(d) <= 1e-10 * ba.mod() * ca.mod() * pq.mod():
 
             # one plane
             if self.point_in_one_plane(p) and self.point_in_one_plane(q):
@@ -268,12 +269,17 @@ class Triangle:
                 alf >= 0; bet >= 0; alf + bet <= 1; 0 <= fi <= 1
                 """
 
+                # The best projection of the triangle.
+                max_det = max([abs(determinant(i, j)) for i, j in [(0, 1), (0, 2), (1, 2)]])
+                if max_det <= 1e-10 * ba.mod() * ca.mod():
+                    return []
+
                 for i in range(2):
                     for j in range(1, 3):
                         if i != j:
 
                             det = determinant(i, j)
-                            if det == 0:
+                            if abs(det) < max_det:
                                 continue
 
                             res = []
@@ -378,8 +384,9 @@ class Triangle:
                         [c.X - a.X, c.Y - a.Y, c.Z - a.Z]])
 
         det = np.linalg.det(det)
+        la, lb, lc = p.dist_to(a), b.dist_to(a), c.dist_to(a)
 
-        if det == 0:
+        if abs(det) <= 1e-10 * lb * lc * max(la, lb, lc):
             return True
         else:
             return False
-- 
2.43.0


From a46c84746c59af57b85494d1f89d41cb845cdd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 10/40] fix: classify a point in a triangle relative to the
 triangle size

---
 crysgsu/geom/triangle.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 0a4a693..85fa99e 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -355,10 +355,14 @@ class Triangle:
         a, b, c = self.a(), self.b(), self.c()
 
         # А point in a triangle if the sum of the formed areas is equal to the area of the original triangle.
-        ar1 = round(Triangle(a, b, point).area(), 10)
-        ar2 = round(Triangle(a, point, c).area(), 10)
-        ar3 = round(Triangle(point, b, c).area(), 10)
-        if math.isclose(self.area(), ar1 + ar2 + ar3):
+        # Areas are compared relative to the triangle area, the answer must not depend on its size.
+        area = self.area()
+        if area == 0.0:
+            return 0
+        ar1 = round(Triangle(a, b, point).area() / area, 10)
+        ar2 = round(Triangle(a, point, c).area() / area, 10)
+        ar3 = round(Triangle(point, b, c).area() / area, 10)
+        if math.isclose(1.0, ar1 + ar2 + ar3):
             return bool(ar1) + bool(ar2) + bool(ar3)
         return 0
 
-- 
2.43.0


From a22be3bcc228c95ba258d6ec84cad0b31de613d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 11/40] fix: refer to sqrt by its module in triangle quality

---
 crysgsu/geom/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 85fa99e..5b9f17a 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -540,7 +540,7 @@ class Triangle:
         # Get all points.
         a, b, c = self.a(), self.b(), self.c()
 
-        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / sqrt(self.area())
+        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / math.sqrt(self.area())
 
 
 # ==================================================================================================
-- 
2.43.0


From 16fc01fbf311453c49d28cd522b2fa968922541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 12/40] fix: angle between collinear vectors must not become
 nan because of rounding

---
 crysgsu/geom/vect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index f226120..1f695e1 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -413,7 +413,7 @@ class Vect:
 
         """
 
-        return np.arccos(Vect.angle_cos(v1, v2))
+        return np.arccos(max(-1.0, min(1.0, Vect.angle_cos(v1, v2))))
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 47295c5479da79e1d3fe8afcbec63942f96750d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 13/40] fix: the third prizmatoid coefficient is a number

---
 crysgsu/geom/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/utils.py b/crysgsu/geom/utils.py
index d82d394..e674ca2 100644
--- a/crysgsu/geom/utils.py
+++ b/crysgsu/geom/utils.py
@@ -115,7 +115,7 @@ def prizmatoid_volume_coefs(v1: Vect,
     # a, b, c coefficients
     a = 0.5 * Vect.cross_product(v21, v31).mod()
     b = 0.25 * Vect.dot_product(Vect.cross_product(v21, u31) + Vect.cross_product(u21, v31), n)
-    c = (1.0 / 6.0) * (Vect.cross_product(u21, u31) * n)
+    c = (1.0 / 6.0) * Vect.dot_product(Vect.cross_product(u21, u31), n)
 
     return a, b, c
 
-- 
2.43.0


From a55dfaad07d467624d131de1b6410c7ca9c56462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 14/40] fix: a droplet moving together with the air has no drag

---
 crysgsu/drops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index e4bd951..06be311 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -94,7 +94,10 @@ class Space:
         # Reynolds number and C_d.
         vsm = (v - v_air).mod()
         re = vsm * d / air_vis
-        if re <= 350.0:
+        if re == 0.0:
+            # There is no drag if there is no relative motion.
+            cd = 0.0
+        elif re <= 350.0:
             cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33))
         else:
             cd = 0.178 * math.pow(re, 0.217)
-- 
2.43.0


From c9037441380de8d824f9e9b45bec09546beb3cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 15/40] fix: grow the whole ice volume once when the rest
 volume is not redistributed

---
 crysgsu/remeshing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 0261e5d..df3e370 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -545,6 +545,10 @@ class TongRemesher:
         for face in self.grid.Faces:
             face.ice_chunk = face.rest_ice / rest_iterations
 
+            # If rest volume is not redistributed we plan to grow the same part on each iteration.
+            if not self.rest_volume_redistr:
+                face.rest_ice -= face.ice_chunk
+
     # ----------------------------------------------------------------------------------------------
 
     def null_space_smoothing(self):
-- 
2.43.0


From bf994c37a08a9a830efd3656cf31f23ce36db007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 16/40] fix: access coordinates of nodes properly in
 pseudo_2d_oz mode

---
 crysgsu/remeshing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index df3e370..ef7ffa4 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -495,7 +495,7 @@ class TongRemesher:
 
         # Add nodes to appropriate classes with the same x, y coords.
         for node in self.grid.Nodes:
-            c = (int(node.P.x * big_value), int(node.P.y * big_value))
+            c = (int(node.P.X * big_value), int(node.P.Y * big_value))
             v = d.get(c)
             if v is not None:
                 v.append(node)
@@ -512,7 +512,7 @@ class TongRemesher:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (diff columns lens)')
             if len(v) == 1:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (column len = 1)')
-            v.sort(key=lambda n: n.P.z)
+            v.sort(key=lambda n: n.P.Z)
 
         # Set information to grid.
         self.grid.pseudo_2d_oz_columns = vs
@@ -525,7 +525,7 @@ class TongRemesher:
         """
 
         for n in self.grid.Nodes:
-            n.frozen_z = n.P.z
+            n.frozen_z = n.P.Z
 
     # ----------------------------------------------------------------------------------------------
 
@@ -623,7 +623,7 @@ class TongRemesher:
         for col in cols:
             for i, n in enumerate(col):
                 if i != mid_index:
-                    n.P.X, n.P.Y, n.P.Z = col[mid_index].x, col[mid_index].y, n.frozen_z
+                    n.P.X, n.P.Y, n.P.Z = col[mid_index].P.X, col[mid_index].P.Y, n.frozen_z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 9a2b46c9bb0b9b881af378da9914d31b9366b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 17/40] fix: do not go out of the list when all faces may be
 ignored for the number of steps

---
 crysgsu/remeshing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index ef7ffa4..f9a9bf4 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -447,7 +447,7 @@ class TongRemesher:
 
         # Calculate count of faces we can ignore.
         lna_len = len(lna)
-        may_ignore = int(lna_len * self.nsteps_ignore_part)
+        may_ignore = min(int(lna_len * self.nsteps_ignore_part), lna_len - 1)
 
         if self.verbose:
             print('Calc nsteps: nsteps_min={0}, nsteps_max={1}, '
-- 
2.43.0


From c5d2cbe5f2f428de9e3927460976b158d84e2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 18/40] fix: null-space smoothing refers to existing names of
 vectors and faces

---
 crysgsu/smoothing.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 2adb569..2a577c3 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -143,10 +143,9 @@ class NullSpaceSmoothing(Smoothing):
         -------
             numpy array (N_FACES, 3)
         """
-        N = node.Faces[0].get_triangle().normal_orth().coords_as_numpy()
-        N = N.reshape((1, 3))
+        N = node.Faces[0].get_triangle().normal_orth().coords_as_np().reshape((1, 3))
         for f in node.Faces[1:]:
-            normal = f.get_triangle().normal_orth().coords_as_numpy()
+            normal = f.get_triangle().normal_orth().coords_as_np().reshape((1, 3))
             assert N.shape[1] == normal.shape[1], print(N.shape, normal.shape)
             N = vstack((N, normal))
 
@@ -166,7 +165,7 @@ class NullSpaceSmoothing(Smoothing):
         -------
             Vector obj
         """
-        dv = Vect()
+        dv = geom.Vect()
         p = node.P
         weights = 0
 
@@ -179,7 +178,7 @@ class NullSpaceSmoothing(Smoothing):
             c = c - p
             weight = 1.0
 
-            assert isinstance(c, Vect)
+            assert isinstance(c, geom.Vect)
 
             c = c * weight
             dv = dv + c
@@ -195,14 +194,14 @@ class NullSpaceSmoothing(Smoothing):
         for i in range(0, self.num_iterations):
             shifts = []
             for n in self.grid.Nodes:
-                m = len(n.faces)
-                w = [f.get_triangle().area() for f in n.faces]
+                m = len(n.Faces)
+                w = [f.get_triangle().area() for f in n.Faces]
                 N = self.create_matrix_of_normals(n)
                 dv = self.get_laplacian(n)
 
                 assert N.shape == (m, 3)
                 assert len(w) == m
-                assert isinstance(dv, Vect)
+                assert isinstance(dv, geom.Vect)
 
                 W = diag(w)
                 NTW = dot(N.T, W)
@@ -231,9 +230,9 @@ class NullSpaceSmoothing(Smoothing):
                     ttT = dot(ns, ns.T)
                     t = self.st * dot(ttT, dv)
                     assert t.shape == (3, 1), 'Wrong shift shape'
-                    shift = Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
+                    shift = geom.Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
                 else:
-                    shift = Vect(0, 0, 0)
+                    shift = geom.Vect(0, 0, 0)
                 shifts.append(shift)
 
             Smoothing.apply_shifts(self, shifts)
-- 
2.43.0


From 6463d31cf0c8ca648e68b743669a021d553f68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 19/40] fix: use orthonormal eigenvectors in null-space
 smoothing

---
 crysgsu/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 2a577c3..8f61110 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -1,4 +1,4 @@
-from scipy.linalg import eig, det
+from scipy.linalg import eigh, det
 from numpy import argmax, array, vstack, diag, dot, abs, cumprod, sum, full, arccos, exp, real
 from copy import deepcopy
 from collections import deque
@@ -211,7 +211,7 @@ class NullSpaceSmoothing(Smoothing):
                 assert NTW.shape == (3, m)
                 assert A.shape == (3, 3)
 
-                eigenValues, eigenVectors = eig(A)
+                eigenValues, eigenVectors = eigh(A)
                 idx = eigenValues.argsort()[::-1]
                 eigenValues = eigenValues[idx]
                 eigenVectors = eigenVectors[:, idx]
-- 
2.43.0


From 3d367c4a19be08c22b7c0cef4e616ac196237258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 20/40] fix: the accuracy of the determinant in null-space
 smoothing is relative

---
 crysgsu/smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 8f61110..f08921f 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -216,7 +216,8 @@ class NullSpaceSmoothing(Smoothing):
                 eigenValues = eigenValues[idx]
                 eigenVectors = eigenVectors[:, idx]
 
-                assert abs(det(A) - cumprod(eigenValues)[-1]) < DETERMINANT_ACCURACY, \
+                assert abs(det(A) - cumprod(eigenValues)[-1]) < \
+                    DETERMINANT_ACCURACY * max(1.0, eigenValues[0] ** 3), \
                     print(det(A), cumprod(eigenValues)[-1])
 
                 k = sum((eigenValues > self.epsilon * eigenValues[0]))
-- 
2.43.0


From 9e01e0aa0d6b6958f07cbf28b3461889e521f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 21/40] fix: keep the span coordinate of middle nodes in
 pseudo_2d_oz mode

---
 crysgsu/remeshing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index f9a9bf4..64685b4 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -621,9 +621,8 @@ class TongRemesher:
 
         # Correct each column.
         for col in cols:
-            for i, n in enumerate(col):
-                if i != mid_index:
-                    n.P.X, n.P.Y, n.P.Z = col[mid_index].P.X, col[mid_index].P.Y, n.frozen_z
+            for n in col:
+                n.P.X, n.P.Y, n.P.Z = col[mid_index].P.X, col[mid_index].P.Y, n.frozen_z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 2b702b5b59e7c4784212155a881aa6db06b954f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 22/40] fix: take ice heights of each process at its own
 displacement in gathered array

---
 crysgsu/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index bdefc1d..ebfd711 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -169,7 +169,7 @@ def remesh(rank, his):
 
     if rank == 0:
         for i, zone in enumerate(g.Zones):
-            for f, new_h in zip(zone.Faces, recvbuf[i * sendcounts[i] : (i + 1) * sendcounts[i]]):
+            for f, new_h in zip(zone.Faces, recvbuf[sum(sendcounts[:i]) : sum(sendcounts[:i + 1])]):
                 f.Data['Hi'] = new_h
 
         TongRemesher(mesh_filename=FILENAME, json_file=JSON, outdir=OUTDIR)(g)
-- 
2.43.0


From bca980090e3516b6bb2ce4627e2cbafb8f917f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 23/40] fix: wait until send buffers are free before they are
 used again

---
 crysgsu/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index ebfd711..c072879 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -116,7 +116,8 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
     for i in range(len(mpi_borders)):
         dest = list(mpi_borders.keys())[i]
         count = len(mpi_borders[dest])
-        comm.Isend(send_sb[i][:count], dest=dest)
+        req = comm.Isend(send_sb[i][:count], dest=dest)
+        requests.append(req)
 
     for i in range(len(mpi_borders)):
         source = list(mpi_borders.keys())[i]
-- 
2.43.0


From 7864e0739fdf30df99c4cc9e703587261abe600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 24/40] fix: do not go out of arrays of different lengths in
 native routine

---
 crysgsu/cpp/src/swim.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crysgsu/cpp/src/swim.cpp b/crysgsu/cpp/src/swim.cpp
index 40de135..3db6203 100644
--- a/crysgsu/cpp/src/swim.cpp
+++ b/crysgsu/cpp/src/swim.cpp
@@ -10,13 +10,18 @@ void hi(int n1, double *a1,
         int n2, double *a2,
         int n3, double *a3)
 {
-    (void) n2;
-    (void) n3;
-
     for (int i = 0; i < n1; i++)
     {
         a1[i] += 1;
+    }
+
+    for (int i = 0; i < n2; i++)
+    {
         a2[i] += 2;
+    }
+
+    for (int i = 0; i < n3; i++)
+    {
         a3[i] += 3;
     }
     
-- 
2.43.0


From 2e7953cc50d3b9aadc5a281bbe0eacea1c309782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 25/40] fix: cells of ordered blocks go with the first index
 fastest, like their data

---
 crysgsu/convert/lazurit_to_crystal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/convert/lazurit_to_crystal.py b/crysgsu/convert/lazurit_to_crystal.py
index 614dfd2..994eda3 100644
--- a/crysgsu/convert/lazurit_to_crystal.py
+++ b/crysgsu/convert/lazurit_to_crystal.py
@@ -192,8 +192,8 @@ if __name__ == '__main__':
             of.write(' '.join(double_and_neg_list(selems[7 * hec: 8 * hec])) + '\n')
 
             # Печать линков.
-            for i in range(zone_i - 1):
-                for j in range(zone_j - 1):
+            for j in range(zone_j - 1):
+                for i in range(zone_i - 1):
                     ni00 = (i)     + (j)     * zone_i
                     ni01 = (i)     + (j + 1) * zone_i
                     ni10 = (i + 1) + (j)     * zone_i
-- 
2.43.0


From 5769f299dcb054bd2e7d91ef47fbbfeae35eea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 26/40] fix: characters that are digits but not decimal numbers
 in file names are not ranks or timestamps

---
 crysgsu/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/utils.py b/crysgsu/utils.py
index 906eb8b..f26216d 100644
--- a/crysgsu/utils.py
+++ b/crysgsu/utils.py
@@ -78,12 +78,12 @@ def dummy_split_filename(s):
 
     s, m, t, e = s[:-23], s[-22:-17], s[-16:-4], s[-3:]
 
-    if m.isdigit():
+    if m.isdecimal():
         md = int(m)
     else:
         md = None
 
-    if t.isdigit():
+    if t.isdecimal():
         td = int(t)
     else:
         td = None
-- 
2.43.0


From 8e27b9aa0caf527aaf2a8c4769f7f3c68be4119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 27/40] fix: read data of faces without sending the whole grid
 through a pool of processes

---
 crysgsu/crys.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index c072879..7a2fb5f 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -1,10 +1,8 @@
 from split import split
 from mpi4py import MPI
 import numpy as np
-import multiprocessing as mp
 import sys
 from remeshing import TongRemesher
-import functools
 from gsu.zones_adjacency_matrix import ZonesAdjacencyMatrix
 import os, sys
 sys.path.append(os.path.join(os.path.dirname(__file__), "lib"))
@@ -194,10 +192,9 @@ if __name__ == '__main__':
     zam = ZonesAdjacencyMatrix(g.Edges, g.Zones)
     z = g.Zones[rank]
 
-    pool = mp.Pool(processes=6)
-    HIS = np.array([pool.map(functools.partial(get_data, name='Hi'), z.Faces)], dtype=np.float64)
-    T = np.array([pool.map(functools.partial(get_data, name='T'), z.Faces)], dtype=np.float64)
-    HW = np.array([pool.map(functools.partial(get_data, name='Hw'), z.Faces)], dtype=np.float64)
+    HIS = np.array([[get_data(f, 'Hi') for f in z.Faces]], dtype=np.float64)
+    T = np.array([[get_data(f, 'T') for f in z.Faces]], dtype=np.float64)
+    HW = np.array([[get_data(f, 'Hw') for f in z.Faces]], dtype=np.float64)
 
     swim.hi(T[0], HIS[0], HW[0])
 
-- 
2.43.0


From 65e98b3a4465c18f244c6de77a8c111870fd66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 28/40] fix: intermediate grids of a grid named without a
 directory go to the output directory

---
 crysgsu/remesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/remesh.py b/crysgsu/remesh.py
index e7ae439..fc73921 100644
--- a/crysgsu/remesh.py
+++ b/crysgsu/remesh.py
@@ -84,7 +84,7 @@ if __name__ == '__main__':
         if mesh.find('/') != -1:
             filename = mesh[mesh.rfind('/'):]
         else:
-            filename = mesh
+            filename = '/' + mesh
 
         remesher = TongRemesher(filename, args.json, outdir, verbose=True if args.verbosity > 1 else False)
         remesher(grid)
-- 
2.43.0


From f891041080f466506aa5179e5dd7a946c4a1410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 29/40] fix: of two different vectors exactly one is less than
 the other

---
 crysgsu/geom/vect.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index 1f695e1..148f1c2 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -267,14 +267,13 @@ class Vect:
         :return: Result (True or False)
         """
 
-        if abs(self.X - other.X) < 1.0e-10 and abs(self.Y - other.Y) < 1.0e-10 and self.Z < other.Z:
-            return True
-        elif abs(self.X - other.X) < 1.0e-10 and self.Y < other.Y:
-            return True
-        elif self.X < other.X:
-            return True
+        # A coordinate decides only if the previous ones are equal within accuracy.
+        if abs(self.X - other.X) >= 1.0e-10:
+            return self.X < other.X
+        elif abs(self.Y - other.Y) >= 1.0e-10:
+            return self.Y < other.Y
         else:
-            return False
+            return self.Z < other.Z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 1054e5fda47c1684aaf8f81795e9e025a1110fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 30/40] fix: names of grids and zones with an equals sign are
 read as they are written

---
 crysgsu/convert/gsu_converter.py | 2 +-
 crysgsu/gsu/grid.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crysgsu/convert/gsu_converter.py b/crysgsu/convert/gsu_converter.py
index fade935..5c26690 100644
--- a/crysgsu/convert/gsu_converter.py
+++ b/crysgsu/convert/gsu_converter.py
@@ -333,7 +333,7 @@ class Grid:
                     pass
                 elif 'ZONE T=' in l:
                     # Зачитываем зону.
-                    z = Zone(l.split('=')[1][1:-2])
+                    z = Zone(l.split('=', 1)[1][1:-2])
                     self.Zones.append(z)
                     l = f.readline()
                     nodes_count = int(l.split('=')[1])
diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index d2c0f4e..d4d6d50 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -512,7 +512,7 @@ class Grid:
                     # Comment.
                     pass
                 elif 'TITLE=' in line:
-                    self.Name = line.split('=')[1][1:-2]
+                    self.Name = line.split('=', 1)[1][1:-2]
                 elif 'VARIABLES=' in line:
                     variables_str = line.split('=')[-1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
@@ -522,7 +522,7 @@ class Grid:
                 elif 'ZONE T=' in line:
 
                     # Create new zone.
-                    zone_name = line.split('=')[-1][1:-2]
+                    zone_name = line.split('=', 1)[1][1:-2]
                     zone = gsu.Zone(zone_name)
                     self.Zones.append(zone)
 
-- 
2.43.0


From a9b3d0ba49500b84740f771809900e0353ca1122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 31/40] fix: a process whose domain has no neighbours does not
 fail at the size of buffers

---
 crysgsu/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 7a2fb5f..6202645 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -200,7 +200,7 @@ if __name__ == '__main__':
 
     if size > 1:
         mpi_borders = get_mpi_borders(rank, zam, z, g)
-        max_length = max(list(map(len, mpi_borders.values())))
+        max_length = max(list(map(len, mpi_borders.values())), default=0)
 
         # todo numpy не позволяет делать массив с массивами разной длины, поэтому буфферы строятся по максимальной границе.
         send_superbuffer = np.empty((len(mpi_borders), max_length))
-- 
2.43.0


From 0a44713a7d604e40274aae14b90223dcb86d9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 32/40] fix: load results of faces by their identifiers, not by
 places in the list

---
 crysgsu/gsu/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index d4d6d50..a857e26 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1177,12 +1177,15 @@ class Grid:
         variables = line.split('=')[-1].replace('"', '').replace(',', '').split()[1:]
         line = f.readline()
 
+        # Order of faces in the list may differ from the order of identifiers.
+        faces = {face.GloId: face for face in self.Faces}
+
         # Process all rest lines.
         while line:
             ss = line.split()
             glo_id = int(ss[0])
             values = [float(s) for s in ss[1:]]
-            face = self.Faces[glo_id]
+            face = faces[glo_id]
             face.Data = dict(zip(variables, values))
             line = f.readline()
 
-- 
2.43.0


From 0253427dc974d9b2d66b888a49ea52fbe386aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 33/40] fix: count fixed zones of the grid, not given names, in
 n<n> mode

---
 crysgsu/split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/split.py b/crysgsu/split.py
index b4d4ed5..e513f2c 100644
--- a/crysgsu/split.py
+++ b/crysgsu/split.py
@@ -98,7 +98,8 @@ def split(grid_file,
         print('crys-gsu-split : hierarchical, actual-zones-count={0}'.format(actual_zones_count))
     elif split_strategy[0] == 'n':
         # Split with exact n domains defined.
-        fz = len(fixed_zones)
+        # One zone may be named several times, and several zones may have one name.
+        fz = len([z for z in g.Zones if z.Name in fixed_zones])
         if domains_count == 0:
             raise Exception('crys-gsu-split : zero zones count to split')
         if fz >= domains_count:
-- 
2.43.0


From 5b7ed17da9dd4572030ed220b6de16771fb7a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 34/40] fix: find an edge by its nodes themselves, not by nodes
 equal in place

In a grid whose nodes are not merged an edge of a face could be joined to
another node of the same place, since nodes compare by rounded coordinates.
---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index a857e26..e1249ef 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -377,7 +377,7 @@ class Grid:
         """
 
         for edge in node_a.Edges:
-            if node_b in edge.Nodes:
+            if any(n is node_b for n in edge.Nodes):
                 return edge
 
         return None
-- 
2.43.0


From ff30a7b113566e83eec04fd68fad2543e83b2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 35/40] fix: delete the node itself, not another node of the
 same place

When nodes are not merged, deletion of a node (collapse of an edge) removed
the first equal node from lists, and failed at the bag of coordinates.
---
 crysgsu/gsu/grid.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index e1249ef..62b1b90 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1263,19 +1263,10 @@ class Grid:
         -------
 
         """
-        if node.Edges:
-            for ed in node.Edges:
-                if node in ed.Nodes:
-                    ed.Nodes.remove(node)
-        if node.Faces:
-            for face in node.Faces:
-                if node in face.Nodes:
-                    face.Nodes.remove(node)
-        for z in self.Zones:
-            if node in z.Nodes:
-                z.Nodes.remove(node)
-        self.Nodes.remove(node)
-        self.RoundedCoordsBag.remove(node.RoundedCoords)
+        # There may be other nodes on the same place (if they are not merged), they have to stay.
+        for obj in node.Edges + node.Faces + self.Zones + [self]:
+            obj.Nodes = [n for n in obj.Nodes if n is not node]
+        self.RoundedCoordsBag.discard(node.RoundedCoords)
 
     # ----------------------------------------------------------------------------------------------
 
@@ -1639,7 +1630,7 @@ class Grid:
 
             vect_coord_new_p = geom.Vect.middle_point(n1.P, n2.P)
 
-            self.RoundedCoordsBag.remove(n1.RoundedCoords)
+            self.RoundedCoordsBag.discard(n1.RoundedCoords)
             n1.P = vect_coord_new_p
             n1.RoundedCoords = n1.P.rounded_coords_tuple(10)
             self.RoundedCoordsBag.add(n1.RoundedCoords)
-- 
2.43.0


From 4241427b91bab1aadd0bb6eaaed04b5cb0b870a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 36/40] fix: a droplet lands on the first face on its way, not
 on a face behind it

Search for the first intersection with a segment returned any triangle on it,
so in a step through a thin body water could come to its far side.
---
 crysgsu/geom/triangles_cloud.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crysgsu/geom/triangles_cloud.py b/crysgsu/geom/triangles_cloud.py
index 5cafad1..b23cee0 100644
--- a/crysgsu/geom/triangles_cloud.py
+++ b/crysgsu/geom/triangles_cloud.py
@@ -2,6 +2,7 @@
 Triangles cloud realization.
 """
 
+import math
 import numpy as np
 import itertools
 import geom
@@ -138,7 +139,7 @@ class TrianglesCloud:
 
     def first_intersection_with_segment(self, s):
         """
-        Find intersections with segment.
+        Find the first intersection with segment (the nearest to its beginning).
 
         :param s: Segment.
         :return:  Triangle (if there is intersection) or None.
@@ -149,17 +150,19 @@ class TrianglesCloud:
             return None
 
         if self.is_list():
-            for t in self.Triangles:
-                if t.intersection_with_segment(s) != []:
-                    return t
+            ts = self.Triangles
         else:
-            for sc in self.Subclouds:
-                res = sc.first_intersection_with_segment(s)
-                if not res is None:
-                    return res
+            ts = [sc.first_intersection_with_segment(s) for sc in self.Subclouds]
 
-        # No intersection is found.
-        return None
+        # Choose the nearest intersection.
+        res, res_dist = None, math.inf
+        for t in ts:
+            if not t is None:
+                for p in t.intersection_with_segment(s):
+                    if s.a().dist_to(p) < res_dist:
+                        res, res_dist = t, s.a().dist_to(p)
+
+        return res
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 7232565179e60db1ab863efd272dc7997afd4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 37/40] fix: a place stays known while another node stands on
 it

When nodes are not merged, removal of a node (collapse of an edge) removed its
place from the bag of places even if there were other nodes on this place, so
they were not found any more by add_node with merging.
---
 crysgsu/gsu/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 62b1b90..17e22ba 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1266,7 +1266,8 @@ class Grid:
         # There may be other nodes on the same place (if they are not merged), they have to stay.
         for obj in node.Edges + node.Faces + self.Zones + [self]:
             obj.Nodes = [n for n in obj.Nodes if n is not node]
-        self.RoundedCoordsBag.discard(node.RoundedCoords)
+        if not any(n.is_near(node) for n in self.Nodes):
+            self.RoundedCoordsBag.discard(node.RoundedCoords)
 
     # ----------------------------------------------------------------------------------------------
 
@@ -1630,7 +1631,8 @@ class Grid:
 
             vect_coord_new_p = geom.Vect.middle_point(n1.P, n2.P)
 
-            self.RoundedCoordsBag.discard(n1.RoundedCoords)
+            if not any((n is not n1) and n.is_near(n1) for n in self.Nodes):
+                self.RoundedCoordsBag.discard(n1.RoundedCoords)
             n1.P = vect_coord_new_p
             n1.RoundedCoords = n1.P.rounded_coords_tuple(10)
             self.RoundedCoordsBag.add(n1.RoundedCoords)
-- 
2.43.0


From 6ba090b9060a51304026593fc33a2d3cf51ce4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:47 +0000
Subject: [PATCH 38/40] fix: grids with empty zones can be exploded

A zone without faces (they appear after random decomposition and are stored
and loaded) has no mean point, explosion of the grid failed with division by
zero.
---
 crysgsu/gsu/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17e22ba..15cc202 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1139,6 +1139,10 @@ class Grid:
         # Move each zone.
         for z in self.Zones:
 
+            # There is nothing to move in a zone without nodes.
+            if not z.Nodes:
+                continue
+
             # Zone mean point.
             z_mean = mean_p(z.Nodes)
             shift = (z_mean - g_mean) * k
-- 
2.43.0


From 18925fe7ea4c95e8a3885ec439dc7c909be9d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:32 +0000
Subject: [PATCH 39/40] fix: a segment along a side of a triangle meets it

---
 crysgsu/geom/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 5b9f17a..c227cd6 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -198,6 +198,10 @@ class Triangle:
             :return: Range of solutions for x.
             """
 
+            # The segment lies on the line of the side, the limits would be nothing but rounding errors.
+            if max(abs(a), abs(b)) <= 1.0e-10:
+                return [float('-Inf'), float('Inf')]
+
             if a > 0:
                 return [-b / a, float('Inf')]
             elif a < 0:
-- 
2.43.0


From b4d403a7370629753de1eedbe0651f60c6b95178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:32 +0000
Subject: [PATCH 40/40] fix: a segment in the plane of a triangle may touch
 only a vertex

---
 crysgsu/geom/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index c227cd6..694c9a7 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -223,9 +223,12 @@ class Triangle:
             res = []
             if len(data) == 3:
                 res = [np.max(data, axis=0)[0], np.min(data, axis=0)[1]]
-                if res[0] + aps > res[1] or res[0] > res[1] + aps or \
+                if res[0] > res[1] + aps or \
                         (res[0] - aps > 1 and res[1] > 1) or (res[1] + aps < 0 and res[0] < 0):
                     return []
+                elif res[0] + aps > res[1]:
+                    # The line touches the triangle in one vertex.
+                    return [min(max(0.5 * (res[0] + res[1]), 0.0), 1.0)]
                 elif math.isclose(res[0], 1) and res[1] > 1:
                     return [res[0]]
                 elif math.isclose(res[1], 0) and res[0] < 0:
-- 
2.43.0

