From 3ce6b1e40b7b1aca9acaf836f1ff9c694f0a7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 01/15] fix: stop form-finding at the last requested sequence

equilibrium_state computed the last sequence from kmax but still looped over all of them, so nodes past kmax kept moving.
---
 src/compas_cem/equilibrium/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 1ce5924..71ddde6 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -85,7 +85,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         # store last positions for residual
         last_xyz = {k: v for k, v in node_xyz.items()}
 
-        for k in range(topology.number_of_sequences()):  # sequences
+        for k in range(klast + 1):  # sequences
 
             for key, trail in topology.trails(keys=True):
 
-- 
2.43.0


From c20bda737c4769b29e254a40115ef990513c00b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 02/15] fix: return the form of the optimum under the caller's
 limits

Optimizer.solve returned the equilibrium of the last evaluated point instead of the optimum, with default tmax and eta.
---
 src/compas_cem/optimization/optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index f568bdb..44924bb 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -248,7 +248,7 @@ class Optimizer(Data):
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
-            return static_equilibrium(topology)
+            return static_equilibrium(topology, tmax=tmax, eta=eta)
 
         # fetch last optimum value of loss function
         time_opt = time() - start
@@ -277,7 +277,8 @@ class Optimizer(Data):
             print("----------")
 
         # exit like a champion
-        return static_equilibrium(topology)
+        self._update_parameters(topology, x_opt)
+        return static_equilibrium(topology, tmax=tmax, eta=eta)
 
 # ------------------------------------------------------------------------------
 # Optimization parameters
-- 
2.43.0


From 17bcc2b8eed332876e0d0bf8acec76fca937cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 03/15] fix: index optimization variables by position, not by
 parameter key

Keys have gaps after remove_parameter, which made them overrun the variable vectors.
---
 src/compas_cem/optimization/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 44924bb..bf8cfdb 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -292,8 +292,8 @@ class Optimizer(Data):
         """
         parameters = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            parameters[pkey] = parameter.start_value(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            parameters[index] = parameter.start_value(topology)
 
         return parameters
 
@@ -305,9 +305,9 @@ class Optimizer(Data):
         bounds_low = np.zeros(self.number_of_parameters())
         bounds_up = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            bounds_low[pkey] = parameter.bound_low(topology)
-            bounds_up[pkey] = parameter.bound_up(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            bounds_low[index] = parameter.bound_low(topology)
+            bounds_up[index] = parameter.bound_up(topology)
 
         return bounds_low, bounds_up
 
@@ -319,9 +319,9 @@ class Optimizer(Data):
         """
         Update the defined design parameters in a topology diagram.
         """
-        for pkey, parameter in self.parameters.items():
+        for index, parameter in enumerate(self.parameters.values()):
 
-            value = parameters[pkey]
+            value = parameters[index]
             name = parameter.attr_name()
             key = parameter.key()
 
-- 
2.43.0


From 7ad77031c946a89408134fd0871635d83f62f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 04/15] fix: raise the intended error for an unknown kind of
 parameter

---
 src/compas_cem/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index bf8cfdb..b2e418e 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -330,7 +330,7 @@ class Optimizer(Data):
             elif isinstance(parameter, EdgeParameter):
                 topology.edge_attribute(key=key, name=name, value=value)
             else:
-                msg = "Parameter {} is neither a node nor an edge parameter! {}"
+                msg = "Parameter {} is neither a node nor an edge parameter!"
                 raise TypeError(msg.format(type(parameter)))
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From c02c8e5c42c7ccc0198b9e585b9d31f36501ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 05/15] fix: forget the old position of a node when it moves

update_node_xyz removed the new position from the spatial index instead of the old one.
---
 src/compas_cem/diagrams/mixins/node_mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 2ddbf2b..ccbf171 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -45,8 +45,8 @@ class NodeMixins(object):
         """
         Modifies
         """
-        gkey = self.gkey(xyz)
-        if gkey in self.gkey_node:
+        gkey = self.gkey(self.node_coordinates(key))
+        if self.gkey_node.get(gkey) == key:
             del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
-- 
2.43.0


From c146b40577bb79e504b5a3fa40d71f4ea6d24c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 06/15] fix: define the residual distance when a single
 iteration is run

verbose=True with tmax=1 failed with an UnboundLocalError.
---
 src/compas_cem/equilibrium/force.py       | 2 ++
 src/compas_cem/equilibrium/force_numpy.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 71ddde6..50de420 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -80,6 +80,8 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         if kmax < klast:
             klast = kmax
 
+    distance = 0.0
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 8d4bd18..828c12e 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -84,6 +84,8 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
     trail_forces = {}
     trail_directions = {}
 
+    distance = 0.0
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
-- 
2.43.0


From 600150dd447896609afbb0c40824040644581907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:30 +0000
Subject: [PATCH 07/15] fix: import the vector constraint from where it is
 defined

---
 src/compas_cem/optimization/constraints/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/optimization/constraints/mesh.py b/src/compas_cem/optimization/constraints/mesh.py
index 68be953..6c4a8bc 100644
--- a/src/compas_cem/optimization/constraints/mesh.py
+++ b/src/compas_cem/optimization/constraints/mesh.py
@@ -1,4 +1,4 @@
-from compas_cem.optimization.constraint import VectorConstraint
+from compas_cem.optimization.constraints import VectorConstraint
 
 
 __all__ = ["TrimeshConstraint"]
-- 
2.43.0


From 26dece4fd3c5e8d2becdefce2cc871b3445ee6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:49 +0000
Subject: [PATCH 08/15] fix: forget origin nodes of previous trails when trails
 are rebuilt

Rebuilding the trails of a diagram after extending a trail beyond its
origin left the former origin marked as origin, although no trail
starts there any more.
---
 src/compas_cem/diagrams/topology/topology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 7367fa7..b6edeb8 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -329,6 +329,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         trails = {}
 
+        # forget the origin nodes of the trails built previously
+        for node in list(self.origin_nodes()):
+            self.unset_node_attribute(node, "type")
+
         # trail search
         nodes_in_trails = set()
 
-- 
2.43.0


From 0dd083da95ed9f3e862f222f1763e016546d58be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:42 +0000
Subject: [PATCH 09/15] fix: keep the viewer's node visibility apart from its
 edge visibility

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index 9447273..f02e289 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -371,7 +371,7 @@ class DiagramObject(NetworkObject):
     @show_nodes.setter
     def show_nodes(self, shownodes):
         if isinstance(shownodes, bool):
-            self._show_edges = shownodes
+            self._show_nodes = shownodes
             self.show_points = shownodes
 
     @property
-- 
2.43.0


From ede084eb3f01a1549ed92c7996dc7d5c3f14b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:42 +0000
Subject: [PATCH 10/15] fix: label the node types of the diagram the viewer
 object shows

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index f02e289..c136c88 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -632,7 +632,7 @@ class DiagramObject(NetworkObject):
             return "{}\n{}".format(x, gkey_format(x))
 
         def type_format(x):
-            return "{}".format(self.topology.node_attribute(x, "type"))
+            return "{}".format(self.diagram.node_attribute(x, "type"))
 
         tags_formatter = {"xyz": gkey_format,
                           "keyxyz": key_gkey_format,
-- 
2.43.0


From 8e4fc98e187f7b30e2cdf209f94c45203c691189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 11/15] fix: let a force-mapped edge width replace an earlier
 one in the form plotter

---
 src/compas_cem/plotters/formartist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/plotters/formartist.py b/src/compas_cem/plotters/formartist.py
index ec24816..5214c6c 100644
--- a/src/compas_cem/plotters/formartist.py
+++ b/src/compas_cem/plotters/formartist.py
@@ -88,7 +88,7 @@ class FormArtist(NetworkArtist):
     def edge_width(self, edgewidth):
         NetworkArtist.edge_width.fset(self, edgewidth)
 
-        if self._edge_width:
+        if isinstance(edgewidth, (dict, int, float)):
             return
 
         low, high = edgewidth
-- 
2.43.0


From 3c9614b2d8ffae8abc8a004759b0723bee75783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 12/15] fix: keep zero sizes, scales and thresholds set on
 viewer objects

---
 src/compas_cem/viewers/diagramobject.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index c136c88..818bbe8 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -237,7 +237,7 @@ class DiagramObject(NetworkObject):
 
     @property
     def node_size(self):
-        if not self._node_size:
+        if self._node_size is None:
             self._node_size = self.default_nodesize
         return self._node_size
 
@@ -322,7 +322,7 @@ class DiagramObject(NetworkObject):
 
     @property
     def load_scale(self):
-        if not self._load_scale:
+        if self._load_scale is None:
             self._load_scale = self.default_loadscale
         return self._load_scale
 
@@ -333,7 +333,7 @@ class DiagramObject(NetworkObject):
 
     @property
     def load_tol(self):
-        if not self._load_tol:
+        if self._load_tol is None:
             self._load_tol = self.default_loadtol
         return self._load_tol
 
@@ -344,7 +344,7 @@ class DiagramObject(NetworkObject):
 
     @property
     def residual_scale(self):
-        if not self._residual_scale:
+        if self._residual_scale is None:
             self._residual_scale = self.default_residualscale
         return self._residual_scale
 
@@ -355,7 +355,7 @@ class DiagramObject(NetworkObject):
 
     @property
     def residual_tol(self):
-        if not self._residual_tol:
+        if self._residual_tol is None:
             self._residual_tol = self.default_residualtol
         return self._residual_tol
 
-- 
2.43.0


From 25a13c80c42f3fd5ac58be5db9794d7c333874cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 13/15] fix: draw no node as a support when the selection has
 none

---
 src/compas_cem/ghpython/artists.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/artists.py b/src/compas_cem/ghpython/artists.py
index 5aa92ea..4db66df 100644
--- a/src/compas_cem/ghpython/artists.py
+++ b/src/compas_cem/ghpython/artists.py
@@ -202,7 +202,8 @@ class DiagramArtist(NetworkArtist):
         nodes : list of :class:`Rhino.Geometry.Point3d`
         """
         nodes = self._collection_keys("support_nodes", "is_node_support", nodes)
-        return self.draw_nodes(nodes)
+        if not len(nodes) == 0:
+            return self.draw_nodes(nodes)
 
     def _collection_keys(self, iterator_func, filter_func, keys=None):
         """
-- 
2.43.0


From e77de2416d96acb4be80712637090c301c9c622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:47 +0000
Subject: [PATCH 14/15] fix: document the defaults Optimizer.solve has

---
 src/compas_cem/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index b2e418e..5c28949 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -172,7 +172,7 @@ class Optimizer(Data):
         step_size : ``float``, optional
             The step size to calculate the gradient of the objective function via finite differences.
             It becomes active only if ``grad="FD"``. It is otherwise ignored by this function.
-            Defaults to ``1e-3``.
+            Defaults to ``1e-6``.
         tmax : ``int``, optional
             The maximum number of iterations the CEM form-finding algorithm will run for.
             If ``eta`` is hit first, the form-finding algorithm will stop early.
@@ -183,7 +183,7 @@ class Optimizer(Data):
             Defaults to ``1e-6``.
         verbose : ``bool``, optional
             A flag to prints statistics of the optimization process.
-            Defaults to ``True``.
+            Defaults to ``False``.
 
         Returns
         -------
-- 
2.43.0


From 93924e37e54c587b128f6b53fb9dcf35e3349b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:47 +0000
Subject: [PATCH 15/15] fix: solve_proxy's algorithm and iters are optional, as
 documented

---
 src/compas_cem/optimization/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/optimization/proxy.py b/src/compas_cem/optimization/proxy.py
index 7dbc3f7..38966eb 100644
--- a/src/compas_cem/optimization/proxy.py
+++ b/src/compas_cem/optimization/proxy.py
@@ -5,7 +5,7 @@ __all__ = ["solve_proxy"]
 # Optimization
 # ------------------------------------------------------------------------------
 
-def solve_proxy(topology, constraints, parameters, algorithm, iters, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6):
+def solve_proxy(topology, constraints, parameters, algorithm="SLSQP", iters=100, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6):
     """
     Solve a constrained form-finding problem through a Proxy hyperspace tunnel.
 
-- 
2.43.0

