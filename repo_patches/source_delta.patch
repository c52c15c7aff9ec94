From a11b2a45f8d43e0ff8598dc22c7efa2ee246d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 01/25] fix: restore the zone when a hierarchical split finds
 no admissible cut

A trial split that leaves one side empty returned early without giving the
faces back to their zone, and the bad-metrics branch removed the zone while
leaving the two temporary halves in the grid.
---
 crysgsu/gsu/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17c7aa2..0c721de 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -917,6 +917,9 @@ class Grid:
 
         # Prevent empty zone.
         if (zlc == 0) or (zrc == 0):
+            # Roll back.
+            for f in zone.Faces:
+                f.Zone = zone
             return math.inf
 
         # Metric.
@@ -975,7 +978,8 @@ class Grid:
         if min_metric is math.inf:
             print('Warning : bad metrics to split zone {0}'.format(zone.Name))
             # Replace to the end.
-            self.Zones.remove(zone)
+            self.Zones.remove(zl)
+            self.Zones.remove(zr)
             self.Zones.append(zone)
             return
 
-- 
2.43.0


From 1adbb6c16da2fb017bc4b78a188fe6cc6df06b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 02/25] fix: keep every face of a local edit in the zone of the
 face it replaces

Cutting or flipping an edge on a border of two zones moved all new faces to
the first zone and left nodes and edges lists of both zones out of step.
---
 crysgsu/gsu/grid.py | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 0c721de..6652809 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -769,6 +769,26 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    def update_zones_links(self, nodes, edges):
+        """
+        Bring zones lists in line with zones of faces that are incident to given nodes and edges.
+
+        :param nodes: nodes
+        :param edges: edges
+        """
+
+        for z in self.Zones:
+            for (objs, zone_objs) in [(nodes, z.Nodes), (edges, z.Edges)]:
+                for o in objs:
+                    is_linked = any(zo is o for zo in zone_objs)
+                    is_incident = any(f.Zone is z for f in o.Faces)
+                    if is_incident and not is_linked:
+                        zone_objs.append(o)
+                    elif is_linked and not is_incident:
+                        zone_objs[:] = [zo for zo in zone_objs if zo is not o]
+
+    # ----------------------------------------------------------------------------------------------
+
     def unlink_faces_from_zones(self):
         """
         Unlink faces from zones.
@@ -1371,6 +1391,7 @@ class Grid:
             self.del_edge(max_edge)
             other_face = max_edge.Faces[0]
             gloid2 = other_face.GloId
+            zone2 = other_face.Zone
             self.del_face(other_face)
 
             # get new faces
@@ -1410,12 +1431,14 @@ class Grid:
             Grid.link_edge_face(e5, f2)
 
             zone.add_face(f1)
-            zone.add_face(f2)
+            zone2.add_face(f2)
             zone.add_edge(e5)
 
             self.add_face(f1, gloid1)
             self.add_face(f2, gloid2)
 
+            self.update_zones_links([n1, n2, n3, n4], [e1, e2, e3, e4, e5])
+
             return True
         else:
             return False
@@ -1469,6 +1492,7 @@ class Grid:
             zone = f1.Zone
             data2 = f2.Data.copy()
             gloid2 = f2.GloId
+            zone2 = f2.Zone
 
             self.del_face(f1)
             self.del_face(f2)
@@ -1552,13 +1576,15 @@ class Grid:
 
             zone.add_face(f1_1)
             zone.add_face(f1_2)
-            zone.add_face(f2_1)
-            zone.add_face(f2_2)
+            zone2.add_face(f2_1)
+            zone2.add_face(f2_2)
             zone.add_edge(e15)
             zone.add_edge(e25)
             zone.add_edge(e35)
             zone.add_edge(e45)
 
+            self.update_zones_links([n5], [e15, e25, e35, e45])
+
             return True
         else:
             return False
@@ -1866,6 +1892,7 @@ class Grid:
             zone = face1.Zone
             data2 = face2.Data.copy()
             gloid2 = face2.GloId
+            zone2 = face2.Zone
 
             self.del_face(face1)
             self.del_face(face2)
@@ -1983,9 +2010,9 @@ class Grid:
             zone.add_face(f1)
             zone.add_face(f2)
             zone.add_face(f3)
-            zone.add_face(f4)
-            zone.add_face(f5)
-            zone.add_face(f6)
+            zone2.add_face(f4)
+            zone2.add_face(f5)
+            zone2.add_face(f6)
             zone.add_edge(e14)
             zone.add_edge(e25)
             zone.add_edge(e45)
@@ -1994,6 +2021,8 @@ class Grid:
             zone.add_edge(e46)
             zone.add_edge(e56)
 
+            self.update_zones_links([n4, n5], [e14, e25, e45, e34, e35, e46, e56])
+
             return True
 
         else:
-- 
2.43.0


From d0c027962760719b19bdba0ef89751cc7336975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 03/25] fix: local edits keep the orientation of the faces they
 replace

---
 crysgsu/gsu/grid.py | 57 ++++++++++++++++++++++++++++++---------------
 crysgsu/gsu/node.py |  3 +--
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 6652809..ba31966 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1272,6 +1272,26 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def order_nodes_along_face(face, node_a, node_b):
+        """
+        Order two nodes of the face in the direction of its bypass.
+
+        :param face:   face
+        :param node_a: the first node
+        :param node_b: the second node
+        :return: pair of nodes, the second of them follows the first in the face nodes
+        """
+
+        ids = [id(n) for n in face.Nodes]
+
+        if ids[(ids.index(id(node_a)) + 1) % 3] == id(node_b):
+            return node_a, node_b
+        else:
+            return node_b, node_a
+
+    # ----------------------------------------------------------------------------------------------
+
     def divide_face(self, face, p):
         """
 
@@ -1338,11 +1358,11 @@ class Grid:
         Grid.link_edge_face(e6, f3)
 
         Grid.link_node_face(n1, f1)
-        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n2, f1)
         Grid.link_node_face(n2, f2)
         Grid.link_node_face(n3, f2)
         Grid.link_node_face(n3, f3)
+        Grid.link_node_face(n1, f3)
         Grid.link_node_face(n4, f1)
         Grid.link_node_face(n4, f2)
         Grid.link_node_face(n4, f3)
@@ -1399,8 +1419,7 @@ class Grid:
             f2 = gsu.Face(list(data.keys()), list(data.values()))
 
             # get nodes
-            n1 = max_edge.Nodes[0]
-            n2 = max_edge.Nodes[1]
+            n1, n2 = Grid.order_nodes_along_face(face, max_edge.Nodes[0], max_edge.Nodes[1])
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = [i for i in other_face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
 
@@ -1417,8 +1436,8 @@ class Grid:
 
             # links
             Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n3, f1)
             Grid.link_node_face(n4, f1)
+            Grid.link_node_face(n3, f1)
             Grid.link_node_face(n2, f2)
             Grid.link_node_face(n3, f2)
             Grid.link_node_face(n4, f2)
@@ -1511,8 +1530,7 @@ class Grid:
             self.add_face(f2_2)
 
             # Nodes
-            n1 = edge.Nodes[0]
-            n2 = edge.Nodes[1]
+            n1, n2 = Grid.order_nodes_along_face(f1, edge.Nodes[0], edge.Nodes[1])
             n3 = [i for i in f1.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = [i for i in f2.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n5 = gsu.Node(p)
@@ -1549,13 +1567,13 @@ class Grid:
             Grid.link_node_edge(n5, e45)
 
             Grid.link_node_face(n5, f1_1)
-            Grid.link_node_face(n5, f1_2)
             Grid.link_node_face(n5, f2_1)
-            Grid.link_node_face(n5, f2_2)
             Grid.link_node_face(n1, f1_2)
+            Grid.link_node_face(n5, f1_2)
             Grid.link_node_face(n1, f2_1)
             Grid.link_node_face(n2, f1_1)
             Grid.link_node_face(n2, f2_2)
+            Grid.link_node_face(n5, f2_2)
             Grid.link_node_face(n3, f1_1)
             Grid.link_node_face(n3, f1_2)
             Grid.link_node_face(n4, f2_1)
@@ -1705,8 +1723,7 @@ class Grid:
             self.add_face(f2)
 
             # Nodes
-            n1 = edge.Nodes[0]
-            n2 = edge.Nodes[1]
+            n1, n2 = Grid.order_nodes_along_face(face, edge.Nodes[0], edge.Nodes[1])
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p)
             node = self.add_node(n4, True)
@@ -1736,9 +1753,9 @@ class Grid:
 
             Grid.link_node_face(n3, f1)
             Grid.link_node_face(n3, f2)
-            Grid.link_node_face(n4, f1)
             Grid.link_node_face(n4, f2)
             Grid.link_node_face(n1, f1)
+            Grid.link_node_face(n4, f1)
             Grid.link_node_face(n2, f2)
 
             Grid.link_edge_face(e34, f1)
@@ -1808,8 +1825,9 @@ class Grid:
             self.add_face(f3)
 
             # Nodes
-            n1 = edge.Nodes[0]
-            n2 = edge.Nodes[1]
+            n1, n2 = Grid.order_nodes_along_face(face, edge.Nodes[0], edge.Nodes[1])
+            if id(n1) != id(edge.Nodes[0]):
+                p1, p2 = p2, p1
             n3 = [i for i in face.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p1)
             node = self.add_node(n4, True)
@@ -1851,9 +1869,9 @@ class Grid:
             Grid.link_node_edge(n5, e35)
             Grid.link_node_edge(n5, e45)
 
-            Grid.link_node_face(n1, f1)
             Grid.link_node_face(n2, f3)
             Grid.link_node_face(n3, f1)
+            Grid.link_node_face(n1, f1)
             Grid.link_node_face(n3, f2)
             Grid.link_node_face(n3, f3)
             Grid.link_node_face(n4, f1)
@@ -1914,8 +1932,9 @@ class Grid:
             self.add_face(f6)
 
             # Nodes
-            n1 = edge.Nodes[0]
-            n2 = edge.Nodes[1]
+            n1, n2 = Grid.order_nodes_along_face(face1, edge.Nodes[0], edge.Nodes[1])
+            if id(n1) != id(edge.Nodes[0]):
+                p1, p2 = p2, p1
             n3 = [i for i in face1.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n6 = [i for i in face2.Nodes if id(i) != id(n1) and id(i) != id(n2)][0]
             n4 = gsu.Node(p1)
@@ -1969,20 +1988,20 @@ class Grid:
             Grid.link_node_edge(n6, e46)
             Grid.link_node_edge(n6, e56)
 
-            Grid.link_node_face(n1, f1)
-            Grid.link_node_face(n1, f4)
             Grid.link_node_face(n2, f3)
             Grid.link_node_face(n2, f6)
             Grid.link_node_face(n3, f1)
+            Grid.link_node_face(n1, f1)
             Grid.link_node_face(n3, f2)
             Grid.link_node_face(n3, f3)
             Grid.link_node_face(n4, f1)
             Grid.link_node_face(n4, f2)
             Grid.link_node_face(n4, f4)
-            Grid.link_node_face(n4, f5)
+            Grid.link_node_face(n1, f4)
             Grid.link_node_face(n5, f2)
             Grid.link_node_face(n5, f3)
             Grid.link_node_face(n5, f5)
+            Grid.link_node_face(n4, f5)
             Grid.link_node_face(n5, f6)
             Grid.link_node_face(n6, f4)
             Grid.link_node_face(n6, f5)
diff --git a/crysgsu/gsu/node.py b/crysgsu/gsu/node.py
index 5daa3cf..a6cbff2 100644
--- a/crysgsu/gsu/node.py
+++ b/crysgsu/gsu/node.py
@@ -85,7 +85,6 @@ class Node:
             ed.Nodes.remove(self)
             ed.Nodes += [n]
         for face in self.Faces:
-            face.Nodes.remove(self)
-            face.Nodes += [n]
+            face.Nodes[face.Nodes.index(self)] = n
 
 # ==================================================================================================
-- 
2.43.0


From cc4b226ea87f4b76cbe0d98dd802ef9cb8a9bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 04/25] fix: collapse of an edge keeps ids dense and the grid
 well formed

Global ids of the last objects of the lists were overwritten even when they
were not the biggest ones; edges that cannot be collapsed (or flipped) without
breaking the grid were accepted; the deleted node stayed in other zones.
---
 crysgsu/gsu/grid.py | 85 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 75 insertions(+), 10 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index ba31966..298f2fe 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1266,7 +1266,9 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        node.Faces[0].Zone.Nodes.remove(node)
+        for z in self.Zones:
+            if node in z.Nodes:
+                z.Nodes.remove(node)
         self.Nodes.remove(node)
         self.RoundedCoordsBag.remove(node.RoundedCoords)
 
@@ -1407,6 +1409,13 @@ class Grid:
 
         max_edge = face.max_edge_from_face()
         if len(max_edge.Faces) == 2:
+
+            # The opposite nodes must not be connected yet.
+            opposites = [n for f in max_edge.Faces for n in f.Nodes
+                         if id(n) not in [id(mn) for mn in max_edge.Nodes]]
+            if Grid.find_edge(opposites[0], opposites[1]) is not None:
+                return False
+
             self.del_face(face)
             self.del_edge(max_edge)
             other_face = max_edge.Faces[0]
@@ -1609,6 +1618,60 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def is_edge_collapsible(edge):
+        """
+        Check if the grid stays correct after collapsing of the edge.
+
+        :param edge: edge
+        :return: True - if edge can be collapsed, False - otherwise
+        """
+
+        if len(edge.Faces) != 2:
+            return False
+
+        n1, n2 = edge.Nodes[0], edge.Nodes[1]
+        opposites = [n for f in edge.Faces for n in f.Nodes
+                     if id(n) not in [id(n1), id(n2)]]
+
+        # Nodes of the edge must not have other common neighbours.
+        def neighbours(node):
+            return set([id(n) for e in node.Edges for n in e.Nodes if id(n) != id(node)])
+
+        if neighbours(n1) & neighbours(n2) != set([id(n) for n in opposites]):
+            return False
+
+        # No face may become a copy of another face.
+        def opposite_faces(node):
+            return [f for f in node.Faces
+                    if all(any(fn is n for fn in f.Nodes) for n in opposites)]
+
+        if opposite_faces(n1) and opposite_faces(n2):
+            return False
+
+        # At least one of other edges of each face must have a neighbour.
+        return all(any(not e.is_border() for e in f.Edges if e is not edge) for f in edge.Faces)
+
+    # ----------------------------------------------------------------------------------------------
+
+    @staticmethod
+    def reuse_global_ids(objs, free_ids):
+        """
+        Give free global identifiers to objects with too big identifiers.
+
+        :param objs:     objects
+        :param free_ids: identifiers of deleted objects
+        """
+
+        count = len(objs)
+        ids = [i for i in free_ids if i < count]
+
+        for o in objs:
+            if o.GloId >= count:
+                o.GloId = ids.pop()
+
+    # ----------------------------------------------------------------------------------------------
+
     def collapse_edge(self, edge):
         """
 
@@ -1623,7 +1686,7 @@ class Grid:
 
         """
 
-        if len(edge.Faces) == 2:
+        if Grid.is_edge_collapsible(edge):
 
             # det all data and del from grid
             f1 = edge.Faces[0]
@@ -1651,11 +1714,14 @@ class Grid:
             f2.Edges.remove(edge)
             e2 = [ed for ed in f2.Edges for node in ed.Nodes if id(node) == id(n2)][0]
 
+            e3 = [ed for ed in f1.Edges for node in ed.Nodes if id(node) == id(n1)][0]
+            e4 = [ed for ed in f2.Edges for node in ed.Nodes if id(node) == id(n1)][0]
+            n3 = [n for n in e3.Nodes if id(n) != id(n1)][0]
+            n4 = [n for n in e4.Nodes if id(n) != id(n1)][0]
+
             if e1.Faces:
-                e3 = [ed for ed in f1.Edges for node in ed.Nodes if id(node) == id(n1)][0]
                 Grid.link_edge_face(e3, e1.Faces[0])
             if e2.Faces:
-                e4 = [ed for ed in f2.Edges for node in ed.Nodes if id(node) == id(n1)][0]
                 Grid.link_edge_face(e4, e2.Faces[0])
 
             self.del_edge(e1)
@@ -1664,12 +1730,11 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
-            self.Faces[-1].GloId = f1.GloId
-            self.Faces[-2].GloId = f2.GloId
-            self.Edges[-1].GloId = edge.GloId
-            self.Edges[-2].GloId = e1.GloId
-            self.Edges[-3].GloId = e2.GloId
-            self.Nodes[-1].GloId = n2.GloId
+            Grid.reuse_global_ids(self.Faces, [f1.GloId, f2.GloId])
+            Grid.reuse_global_ids(self.Edges, [edge.GloId, e1.GloId, e2.GloId])
+            Grid.reuse_global_ids(self.Nodes, [n2.GloId])
+
+            self.update_zones_links([n1, n3, n4], [e3, e4])
 
             return True
         else:
-- 
2.43.0


From b69305441756e97bc1544bde2c27cd9be98c7ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 05/25] fix: print_info uses the adjacency matrix class of the
 gsu package

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 298f2fe..be02011 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -150,7 +150,7 @@ class Grid:
               '{2} faces, {3} zones'.format(len(self.Nodes), ec, fc, zc))
 
         # Zones adjacency matrix.
-        zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
+        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
 
         # Edges statistics.
         if is_print_edges_statistics:
-- 
2.43.0


From a85467965c17e436241614e8ef4923bbbe79400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 06/25] fix: zone arrays do not use the removed numpy alias
 np.float

---
 crysgsu/gsu/zone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/gsu/zone.py b/crysgsu/gsu/zone.py
index 907bbdc..84a2bb1 100644
--- a/crysgsu/gsu/zone.py
+++ b/crysgsu/gsu/zone.py
@@ -205,10 +205,10 @@ class Zone:
         """
         gloids, ts, hws = list(), list(), list()
         his, htcs, betas = list(), list(), list()
-        mimp2s = np.zeros((len(self.Faces)), dtype=np.float)
-        vd2s =  np.zeros((len(self.Faces)), dtype=np.float)
+        mimp2s = np.zeros((len(self.Faces)), dtype=float)
+        vd2s =  np.zeros((len(self.Faces)), dtype=float)
         tauxs, tauys, tauzs = list(), list(), list()
-        recoveryfactors =  np.zeros((len(self.Faces)), dtype=np.float)
+        recoveryfactors =  np.zeros((len(self.Faces)), dtype=float)
 
         for f in self.Faces:
             gloids.append(f.GloId)
@@ -234,7 +234,7 @@ class Zone:
             n1, n2, n3 = f.Nodes[0].GloId, f.Nodes[1].GloId, f.Nodes[2].GloId
             assert not n1 == n2 == n3
             connectivity_list.append([n1, n2, n3])
-        return np.array(connectivity_list, dtype=np.float)
+        return np.array(connectivity_list, dtype=float)
 
     def get_variable(self, name):
         """Return numpy array of variable values.
-- 
2.43.0


From 2ad8eb906c81f9da0bd597f4fd546757b3fc1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 07/25] fix: Triangle.is_good uses math.sqrt

---
 crysgsu/geom/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index ba9fc46..792d5d3 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -529,7 +529,7 @@ class Triangle:
         # Get all points.
         a, b, c = self.a(), self.b(), self.c()
 
-        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / sqrt(self.area())
+        return (a.dist_to(b) ** 2 + b.dist_to(c) ** 2 + c.dist_to(a) ** 2) / math.sqrt(self.area())
 
 
 # ==================================================================================================
-- 
2.43.0


From 89ea035a79a6db546ae65be4748629d8c30acc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 08/25] fix: load calc data into faces by their global ids, not
 list positions

---
 crysgsu/gsu/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index be02011..698125e 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1175,12 +1175,15 @@ class Grid:
         variables = line.split('=')[-1].replace('"', '').replace(',', '').split()[1:]
         line = f.readline()
 
+        # Faces are found by their global identifiers.
+        faces = {face.GloId: face for face in self.Faces}
+
         # Process all rest lines.
         while line:
             ss = line.split()
             glo_id = int(ss[0])
             values = [float(s) for s in ss[1:]]
-            face = self.Faces[glo_id]
+            face = faces[glo_id]
             face.Data = dict(zip(variables, values))
             line = f.readline()
 
-- 
2.43.0


From 4c773edbef89fb0cd026dba37aa54673b789ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 09/25] fix: a drop that moves together with air keeps its
 velocity

---
 crysgsu/drops.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index e4bd951..1587b6d 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -94,6 +94,11 @@ class Space:
         # Reynolds number and C_d.
         vsm = (v - v_air).mod()
         re = vsm * d / air_vis
+
+        # No drag if the drop moves together with air.
+        if re == 0.0:
+            return p + v * dt, v
+
         if re <= 350.0:
             cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33))
         else:
-- 
2.43.0


From cf630bacbdecfaa065b80cdd49f991151079af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 10/25] fix: order of vectors is lexicographic with the
 tolerance in both directions

---
 crysgsu/geom/vect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/geom/vect.py b/crysgsu/geom/vect.py
index f226120..1a163ce 100644
--- a/crysgsu/geom/vect.py
+++ b/crysgsu/geom/vect.py
@@ -269,9 +269,9 @@ class Vect:
 
         if abs(self.X - other.X) < 1.0e-10 and abs(self.Y - other.Y) < 1.0e-10 and self.Z < other.Z:
             return True
-        elif abs(self.X - other.X) < 1.0e-10 and self.Y < other.Y:
+        elif abs(self.X - other.X) < 1.0e-10 and self.Y <= other.Y - 1.0e-10:
             return True
-        elif self.X < other.X:
+        elif self.X <= other.X - 1.0e-10:
             return True
         else:
             return False
-- 
2.43.0


From 0ab0cb966d9930947f498537030e6adce4460b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 11/25] fix: the cubic coefficient of prizmatoid volume is a
 number

---
 crysgsu/geom/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/geom/utils.py b/crysgsu/geom/utils.py
index d82d394..e674ca2 100644
--- a/crysgsu/geom/utils.py
+++ b/crysgsu/geom/utils.py
@@ -115,7 +115,7 @@ def prizmatoid_volume_coefs(v1: Vect,
     # a, b, c coefficients
     a = 0.5 * Vect.cross_product(v21, v31).mod()
     b = 0.25 * Vect.dot_product(Vect.cross_product(v21, u31) + Vect.cross_product(u21, v31), n)
-    c = (1.0 / 6.0) * (Vect.cross_product(u21, u31) * n)
+    c = (1.0 / 6.0) * Vect.dot_product(Vect.cross_product(u21, u31), n)
 
     return a, b, c
 
-- 
2.43.0


From ac7da45817a50a61ef6cb62e26657362e1504f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 12/25] fix: distribute gathered ice heights by zones of
 different sizes

---
 crysgsu/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index bdefc1d..7269e71 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -168,9 +168,11 @@ def remesh(rank, his):
         print("Gathered array: {}".format(recvbuf.size))
 
     if rank == 0:
+        start = 0
         for i, zone in enumerate(g.Zones):
-            for f, new_h in zip(zone.Faces, recvbuf[i * sendcounts[i] : (i + 1) * sendcounts[i]]):
+            for f, new_h in zip(zone.Faces, recvbuf[start : start + sendcounts[i]]):
                 f.Data['Hi'] = new_h
+            start += sendcounts[i]
 
         TongRemesher(mesh_filename=FILENAME, json_file=JSON, outdir=OUTDIR)(g)
         g.store(OUT_REMESHED_MESH)
-- 
2.43.0


From b8b0a4cc1522a913c41c06da0f6cc7886c483001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 13/25] fix: swim.hi does not run out of shorter arrays

---
 crysgsu/cpp/src/swim.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crysgsu/cpp/src/swim.cpp b/crysgsu/cpp/src/swim.cpp
index 40de135..3db6203 100644
--- a/crysgsu/cpp/src/swim.cpp
+++ b/crysgsu/cpp/src/swim.cpp
@@ -10,13 +10,18 @@ void hi(int n1, double *a1,
         int n2, double *a2,
         int n3, double *a3)
 {
-    (void) n2;
-    (void) n3;
-
     for (int i = 0; i < n1; i++)
     {
         a1[i] += 1;
+    }
+
+    for (int i = 0; i < n2; i++)
+    {
         a2[i] += 2;
+    }
+
+    for (int i = 0; i < n3; i++)
+    {
         a3[i] += 3;
     }
     
-- 
2.43.0


From d79010fd1fba677945daeb1d922f8c0a87719910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 14/25] fix: order of lazurit cells corresponds to the order of
 their data

---
 crysgsu/convert/lazurit_to_crystal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crysgsu/convert/lazurit_to_crystal.py b/crysgsu/convert/lazurit_to_crystal.py
index 614dfd2..48b1015 100644
--- a/crysgsu/convert/lazurit_to_crystal.py
+++ b/crysgsu/convert/lazurit_to_crystal.py
@@ -192,8 +192,9 @@ if __name__ == '__main__':
             of.write(' '.join(double_and_neg_list(selems[7 * hec: 8 * hec])) + '\n')
 
             # Печать линков.
-            for i in range(zone_i - 1):
-                for j in range(zone_j - 1):
+            # Порядок ячеек должен соответствовать порядку данных (индекс i меняется быстрее).
+            for j in range(zone_j - 1):
+                for i in range(zone_i - 1):
                     ni00 = (i)     + (j)     * zone_i
                     ni01 = (i)     + (j + 1) * zone_i
                     ni10 = (i + 1) + (j)     * zone_i
-- 
2.43.0


From df2e45b0e4329d2bb46c5c8529e9a86125b554c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 15/25] fix: null space smoothing uses existing names

---
 crysgsu/smoothing.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 2adb569..2a577c3 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -143,10 +143,9 @@ class NullSpaceSmoothing(Smoothing):
         -------
             numpy array (N_FACES, 3)
         """
-        N = node.Faces[0].get_triangle().normal_orth().coords_as_numpy()
-        N = N.reshape((1, 3))
+        N = node.Faces[0].get_triangle().normal_orth().coords_as_np().reshape((1, 3))
         for f in node.Faces[1:]:
-            normal = f.get_triangle().normal_orth().coords_as_numpy()
+            normal = f.get_triangle().normal_orth().coords_as_np().reshape((1, 3))
             assert N.shape[1] == normal.shape[1], print(N.shape, normal.shape)
             N = vstack((N, normal))
 
@@ -166,7 +165,7 @@ class NullSpaceSmoothing(Smoothing):
         -------
             Vector obj
         """
-        dv = Vect()
+        dv = geom.Vect()
         p = node.P
         weights = 0
 
@@ -179,7 +178,7 @@ class NullSpaceSmoothing(Smoothing):
             c = c - p
             weight = 1.0
 
-            assert isinstance(c, Vect)
+            assert isinstance(c, geom.Vect)
 
             c = c * weight
             dv = dv + c
@@ -195,14 +194,14 @@ class NullSpaceSmoothing(Smoothing):
         for i in range(0, self.num_iterations):
             shifts = []
             for n in self.grid.Nodes:
-                m = len(n.faces)
-                w = [f.get_triangle().area() for f in n.faces]
+                m = len(n.Faces)
+                w = [f.get_triangle().area() for f in n.Faces]
                 N = self.create_matrix_of_normals(n)
                 dv = self.get_laplacian(n)
 
                 assert N.shape == (m, 3)
                 assert len(w) == m
-                assert isinstance(dv, Vect)
+                assert isinstance(dv, geom.Vect)
 
                 W = diag(w)
                 NTW = dot(N.T, W)
@@ -231,9 +230,9 @@ class NullSpaceSmoothing(Smoothing):
                     ttT = dot(ns, ns.T)
                     t = self.st * dot(ttT, dv)
                     assert t.shape == (3, 1), 'Wrong shift shape'
-                    shift = Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
+                    shift = geom.Vect(real(t[0, 0]), real(t[1, 0]), real(t[2, 0]))
                 else:
-                    shift = Vect(0, 0, 0)
+                    shift = geom.Vect(0, 0, 0)
                 shifts.append(shift)
 
             Smoothing.apply_shifts(self, shifts)
-- 
2.43.0


From b2dadbd23367342a2159c47793895b9262d91871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 16/25] fix: pseudo 2d mode uses existing names of coordinates

---
 crysgsu/remeshing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 0261e5d..bde2c87 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -495,7 +495,7 @@ class TongRemesher:
 
         # Add nodes to appropriate classes with the same x, y coords.
         for node in self.grid.Nodes:
-            c = (int(node.P.x * big_value), int(node.P.y * big_value))
+            c = (int(node.P.X * big_value), int(node.P.Y * big_value))
             v = d.get(c)
             if v is not None:
                 v.append(node)
@@ -512,7 +512,7 @@ class TongRemesher:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (diff columns lens)')
             if len(v) == 1:
                 raise Exception('pseudo_2d_oz mode is unable for pure 3d mesh (column len = 1)')
-            v.sort(key=lambda n: n.P.z)
+            v.sort(key=lambda n: n.P.Z)
 
         # Set information to grid.
         self.grid.pseudo_2d_oz_columns = vs
@@ -525,7 +525,7 @@ class TongRemesher:
         """
 
         for n in self.grid.Nodes:
-            n.frozen_z = n.P.z
+            n.frozen_z = n.P.Z
 
     # ----------------------------------------------------------------------------------------------
 
@@ -619,7 +619,7 @@ class TongRemesher:
         for col in cols:
             for i, n in enumerate(col):
                 if i != mid_index:
-                    n.P.X, n.P.Y, n.P.Z = col[mid_index].x, col[mid_index].y, n.frozen_z
+                    n.P.X, n.P.Y, n.P.Z = col[mid_index].P.X, col[mid_index].P.Y, n.frozen_z
 
     # ----------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 10cf8622ba5403d7f3753a06f7f229becf7027bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 17/25] fix: titles and zone names may hold the equals sign

---
 crysgsu/gsu/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 698125e..d8a7dc7 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -493,7 +493,7 @@ class Grid:
                     # Comment.
                     pass
                 elif 'TITLE=' in line:
-                    self.Name = line.split('=')[1][1:-2]
+                    self.Name = line.split('=', 1)[1][1:-2]
                 elif 'VARIABLES=' in line:
                     variables_str = line.split('=')[-1][:-1]
                     variables = variables_str.replace('"', '').replace(',', '').split()
@@ -503,7 +503,7 @@ class Grid:
                 elif 'ZONE T=' in line:
 
                     # Create new zone.
-                    zone_name = line.split('=')[-1][1:-2]
+                    zone_name = line.split('=', 1)[1][1:-2]
                     zone = gsu.Zone(zone_name)
                     self.Zones.append(zone)
 
-- 
2.43.0


From aa691ef3df43dfbf7643b1f3a6dec1d06a1cb6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 18/25] fix: wait for sends before the buffers of an exchange
 are reused

The next exchange overwrote the send buffer of messages that might not be
transferred yet.
---
 crysgsu/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/crys.py b/crysgsu/crys.py
index 7269e71..d7216be 100644
--- a/crysgsu/crys.py
+++ b/crysgsu/crys.py
@@ -116,7 +116,7 @@ def start_exchanges(mpi_borders, send_sb, recv_sb):
     for i in range(len(mpi_borders)):
         dest = list(mpi_borders.keys())[i]
         count = len(mpi_borders[dest])
-        comm.Isend(send_sb[i][:count], dest=dest)
+        requests.append(comm.Isend(send_sb[i][:count], dest=dest))
 
     for i in range(len(mpi_borders)):
         source = list(mpi_borders.keys())[i]
-- 
2.43.0


From 3b2e68e36ae8bbfb4a3638403f7a6e22184ec4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 19/25] fix: intersection of triangle and segment does not
 depend on their sizes

---
 crysgsu/geom/triangle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 792d5d3..0cbbcc8 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -187,7 +187,7 @@ class Triangle:
 
             det = np.array([[ba.Coords[i], ca.Coords[i]],
                             [ba.Coords[j], ca.Coords[j]]])
-            return round(np.linalg.det(det), 10)
+            return np.linalg.det(det)
 
         def solve_the_linear_equation(a, b):
             """
@@ -240,7 +240,8 @@ class Triangle:
                     res = []
             return res
 
-        if abs(d) < 1e-10:
+        # Determinants are compared with the sizes of the vectors, because triangles may be small or large.
+        if abs(d) <= 1e-10 * ba.mod() * ca.mod() * pq.mod():
 
             # one plane
             if self.point_in_one_plane(p) and self.point_in_one_plane(q):
@@ -273,7 +274,7 @@ class Triangle:
                         if i != j:
 
                             det = determinant(i, j)
-                            if det == 0:
+                            if abs(det) <= 1e-10 * ba.mod() * ca.mod():
                                 continue
 
                             res = []
-- 
2.43.0


From 07aa67d517e966c89178bcbc6c4f80cd89d89278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 20/25] fix: a point of a small triangle is found in it

---
 crysgsu/geom/triangle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 0cbbcc8..68ef89f 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -350,11 +350,13 @@ class Triangle:
         a, b, c = self.a(), self.b(), self.c()
 
         # А point in a triangle if the sum of the formed areas is equal to the area of the original triangle.
-        ar1 = round(Triangle(a, b, point).area(), 10)
-        ar2 = round(Triangle(a, point, c).area(), 10)
-        ar3 = round(Triangle(point, b, c).area(), 10)
+        ar1 = Triangle(a, b, point).area()
+        ar2 = Triangle(a, point, c).area()
+        ar3 = Triangle(point, b, c).area()
         if math.isclose(self.area(), ar1 + ar2 + ar3):
-            return bool(ar1) + bool(ar2) + bool(ar3)
+            # Areas are compared with the area of the triangle, so the size of the triangle does not matter.
+            eps = 1.0e-10 * self.area()
+            return (ar1 > eps) + (ar2 > eps) + (ar3 > eps)
         return 0
 
     # ----------------------------------------------------------------------------------------------
-- 
2.43.0


From cf76a20ae1342543c35cebe3675923c2ec030095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 21/25] fix: points of tilted planes are found in these planes

---
 crysgsu/geom/triangle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crysgsu/geom/triangle.py b/crysgsu/geom/triangle.py
index 68ef89f..152a114 100644
--- a/crysgsu/geom/triangle.py
+++ b/crysgsu/geom/triangle.py
@@ -382,7 +382,9 @@ class Triangle:
 
         det = np.linalg.det(det)
 
-        if det == 0:
+        # The determinant of points of a tilted plane is not zero exactly.
+        scale = (p - a).mod2() * (b - a).mod2() * (c - a).mod2()
+        if det * det <= 1.0e-24 * scale:
             return True
         else:
             return False
-- 
2.43.0


From 892dc4faa58d18b724271ee1f960085e56a062fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 22/25] fix: basis of the null space is orthonormal on tilted
 surfaces

---
 crysgsu/smoothing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crysgsu/smoothing.py b/crysgsu/smoothing.py
index 2a577c3..505dc81 100644
--- a/crysgsu/smoothing.py
+++ b/crysgsu/smoothing.py
@@ -1,4 +1,4 @@
-from scipy.linalg import eig, det
+from scipy.linalg import eigh, det
 from numpy import argmax, array, vstack, diag, dot, abs, cumprod, sum, full, arccos, exp, real
 from copy import deepcopy
 from collections import deque
@@ -211,7 +211,8 @@ class NullSpaceSmoothing(Smoothing):
                 assert NTW.shape == (3, m)
                 assert A.shape == (3, 3)
 
-                eigenValues, eigenVectors = eig(A)
+                # The matrix is symmetric, and the basis of its null space has to be orthonormal.
+                eigenValues, eigenVectors = eigh(A)
                 idx = eigenValues.argsort()[::-1]
                 eigenValues = eigenValues[idx]
                 eigenVectors = eigenVectors[:, idx]
-- 
2.43.0


From 4ed47a224b2548a7ba3a451a125a4190b62b9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 23/25] fix: heights of ice are accurate on small faces

---
 crysgsu/remeshing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index bde2c87..953c453 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -670,7 +670,7 @@ class TongRemesher:
         Requirement FR.RM.MT.TN.05.
         """
 
-        eps = 1.0e-10
+        eps = 1.0e-8
 
         # First define ice shifts in faces.
         # We use formula from Tong's article for obtaining volume of prizmatoid from its height.
@@ -684,7 +684,7 @@ class TongRemesher:
             f.ice_shift = f.ice_chunk / f.get_triangle().area()
 
             # Trying to calculate more accurately.
-            if f.ice_chunk > eps:
+            if f.ice_chunk > 0.0:
                 a, b, _ = geom.utils.prizmatoid_volume_coefs(f.Nodes[0].P,
                                                              f.Nodes[1].P,
                                                              f.Nodes[2].P,
@@ -694,7 +694,8 @@ class TongRemesher:
                                                              f.get_triangle().normal_orth())
 
                 # Check if it is needed to solve square equation.
-                if abs(b) > eps:
+                # Members of the equation are compared with each other, because faces may be small or large.
+                if abs(b) * f.ice_chunk > eps * a * a:
                     d = a * a + 4.0 * b * f.ice_chunk
                     if d >= 0.0:
                         d = math.sqrt(d)
-- 
2.43.0


From 2396ae9f0f9e3bdf242690115799d518a91a49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 24/25] fix: ice of the steps made is not grown again when the
 rest is not redistributed

---
 crysgsu/remeshing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crysgsu/remeshing.py b/crysgsu/remeshing.py
index 953c453..69fa562 100644
--- a/crysgsu/remeshing.py
+++ b/crysgsu/remeshing.py
@@ -545,6 +545,10 @@ class TongRemesher:
         for face in self.grid.Faces:
             face.ice_chunk = face.rest_ice / rest_iterations
 
+            # If the volume difference is not saved, then there is nothing but the rest of the chunks ahead.
+            if not self.rest_volume_redistr:
+                face.rest_ice -= face.ice_chunk
+
     # ----------------------------------------------------------------------------------------------
 
     def null_space_smoothing(self):
-- 
2.43.0


From fd8812ebdcac2fb535a314b44c73a633abfb6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:53 +0000
Subject: [PATCH 25/25] fix: nodes at the same place were confused with each
 other

find_edge compared nodes by coordinates, so faces at a seam of a grid that was
loaded without merging got edges of other nodes. del_node removed the first
node with the same coordinates, and the bag of rounded coordinates forgot
coordinates that other nodes still have (KeyError at the next collapse).
---
 crysgsu/gsu/grid.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index d8a7dc7..701b597 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -205,6 +205,18 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    def update_rounded_coords_bag(self, rounded_coords):
+        """
+        Forget rounded coordinates if no node of the grid has them any more.
+
+        :param rounded_coords: rounded coordinates
+        """
+
+        if all(node.RoundedCoords != rounded_coords for node in self.Nodes):
+            self.RoundedCoordsBag.discard(rounded_coords)
+
+    # ----------------------------------------------------------------------------------------------
+
     def add_node(self, n, is_merge_same_nodes):
         """
         Add node.
@@ -358,7 +370,8 @@ class Grid:
         """
 
         for edge in node_a.Edges:
-            if node_b in edge.Nodes:
+            # Nodes are compared by coordinates, but different nodes may have the same ones.
+            if any(n is node_b for n in edge.Nodes):
                 return edge
 
         return None
@@ -1269,11 +1282,10 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        for z in self.Zones:
-            if node in z.Nodes:
-                z.Nodes.remove(node)
-        self.Nodes.remove(node)
-        self.RoundedCoordsBag.remove(node.RoundedCoords)
+        # Other nodes with the same coordinates stay.
+        for nodes in [z.Nodes for z in self.Zones] + [self.Nodes]:
+            nodes[:] = [n for n in nodes if n is not node]
+        self.update_rounded_coords_bag(node.RoundedCoords)
 
     # ----------------------------------------------------------------------------------------------
 
@@ -1706,9 +1718,10 @@ class Grid:
 
             vect_coord_new_p = geom.Vect.middle_point(n1.P, n2.P)
 
-            self.RoundedCoordsBag.remove(n1.RoundedCoords)
+            old_rounded_coords = n1.RoundedCoords
             n1.P = vect_coord_new_p
             n1.RoundedCoords = n1.P.rounded_coords_tuple(10)
+            self.update_rounded_coords_bag(old_rounded_coords)
             self.RoundedCoordsBag.add(n1.RoundedCoords)
 
             # edges
-- 
2.43.0

