From 309451d00f579caf3f0ed1d5d96da6342a3f5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 001/122] fix: graph elements keep parent and children links
 consistent when re-linked

---
 nonlinear_avoidance/graph_handler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 834dac0..1e204f7 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -13,7 +13,8 @@ GraphType = np.ndarray
 
 
 # @dataclass(slots=True)
-@dataclass
+# Elements are compared by identity (two nodes can hold the same value)
+@dataclass(eq=False)
 class GraphElement:
     """Hirarchy Element which Tracks the parent and children of current obstacle."""
 
@@ -28,10 +29,15 @@ class GraphElement:
         return len(self.children)
 
     def add_child(self, child):
-        self.children.append(child)
-        child.parent = self
+        child.set_parent(self)
 
     def set_parent(self, parent):
+        if self.parent is parent:
+            return
+
+        if self.parent is not None:
+            self.parent.children.remove(self)
+
         self.parent = parent
         parent.children.append(self)
 
-- 
2.43.0


From 66c4ddde0b7935a699364017c7b094bbd5d149cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 002/122] fix: expelled graph element drops its own links, too

---
 nonlinear_avoidance/graph_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 1e204f7..354b788 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -48,8 +48,11 @@ class GraphElement:
         for child in self.children:
             child.parent = None
 
+        self.children = []
+
         if self.parent is not None:
             self.parent.children.remove(self)
+            self.parent = None
 
 
 @dataclass
-- 
2.43.0


From d12a02722d4ffcc576372d1480c2fafb8771080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 003/122] fix: graph handler registers a new element with its
 parent

---
 nonlinear_avoidance/graph_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 354b788..010dd42 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -70,7 +70,9 @@ class BasicGraphHandler:
         self._graph.append(self._root)
 
     def add_element_with_parent(self, child, parent):
-        self._graph.append(GraphElement(value=child, parent=parent))
+        element = GraphElement(value=child)
+        element.set_parent(parent)
+        self._graph.append(element)
 
     def delete_element(self, element):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 8fea4cf0f92fdd3a97eaf06e63eeb67af2375018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 004/122] fix: roots and descending hierarchy of the graph
 handler return node values

---
 nonlinear_avoidance/graph_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 010dd42..91cda41 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -101,7 +101,7 @@ class GraphHandler:
 
     @property
     def roots(self):
-        return [ind_par for ind_par in self._parent_index if ind_par is None]
+        return [self._node_values[ii] for ii in self.get_root_indices()]
 
     def get_root_indices(self):
         return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]
@@ -145,10 +145,10 @@ class GraphHandler:
 
         ii = 0
         while ii < len(node_indices):
-            node_indices += self.children_indices[node_indices[ii]]
+            node_indices += self._children_indices[node_indices[ii]]
             ii += 1
 
-        return self._node_values[node_indices]
+        return [self._node_values[ind] for ind in node_indices]
 
     def delete_element(self, element: GraphType):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 3f0759f84887d88a3777b5416f42eba7bdfa6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 005/122] fix: graph handler refuses unknown parents untouched
 and moves re-parented nodes

---
 nonlinear_avoidance/graph_handler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 91cda41..065c88f 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -122,11 +122,12 @@ class GraphHandler:
         return [self._node_values[ind] for ind in children_inds]
 
     def add_element_with_parent(self, value, parent_value):
+        # Unknown parents are refused before anything is changed
+        ind_parent = self._node_values.index(parent_value)
+
         self._node_values.append(value)
         self._children_indices.append([])
-
         ind_node = len(self._node_values) - 1
-        ind_parent = self._node_values.index(parent_value)
 
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
@@ -136,6 +137,11 @@ class GraphHandler:
         ind_node = self._node_values.index(value)
         ind_parent = self._node_values.index(parent_value)
 
+        if (ind_former := self._parent_index[ind_node]) == ind_parent:
+            return
+        if ind_former is not None:
+            self._children_indices[ind_former].remove(ind_node)
+
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
         self._parent_index[ind_node] = ind_parent
-- 
2.43.0


From 61d2e972685178b741a026b2ab74ef32aa762ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 006/122] fix: rotating a rotation uses the plane of the
 rotating one

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b84a461..fe8504d 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -200,7 +200,7 @@ class VectorRotationXd:
         rotation = copy.deepcopy(rotation)
         rotation.base = rotate_array(
             directions=rotation.base,
-            base=rotation.base,
+            base=self.base,
             rotation_angle=rot_factor * self.rotation_angle,
         )
         return rotation
-- 
2.43.0


From a3883021483a3d4db6311193f93a4d69caf1163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 007/122] fix: partially applied rotation sequence turns the
 following bases backwards

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index fe8504d..38c56ac 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -362,7 +362,7 @@ class VectorRotationSequence:
             temp_base[:, (ii + 1) :, :] = rotate_array(
                 directions=temp_base[:, (ii + 1) :, :].reshape(self.dimension, -1),
                 base=temp_base[:, ii, :],
-                rotation_angle=self.rotation_angles[ii] * (1 - cumulated_weights[ii]),
+                rotation_angle=self.rotation_angles[ii] * (cumulated_weights[ii] - 1),
             ).reshape(self.dimension, -1, 2)
 
         # Finally: rotate from bottom-to-top
-- 
2.43.0


From aa5955e35d3324a67822aa92b53983d779828158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 008/122] fix: appending a direction to a rotation sequence
 continues at its end vector

---
 nonlinear_avoidance/vector_rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 38c56ac..6350634 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -304,9 +304,7 @@ class VectorRotationSequence:
         return self.basis_array[:, [0, -1]]
 
     def append_from_direction(self, direction: Vector) -> None:
-        rotation = VectorRotationXd.from_directions(
-            self.basis_array[:, -1, -1], direction
-        )
+        rotation = VectorRotationXd.from_directions(self.get_end_vector(), direction)
         self.append_from_base_and_angle(rotation.base, rotation.rotation_angle)
 
     def append_from_base_and_angle(self, base0: np.ndarray, angle: float) -> None:
-- 
2.43.0


From d8d07403e39d540cb96ceab3850a78c88534e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 009/122] fix: zero rotation of a given dimension can be
 created

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 6350634..de447e3 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -913,4 +913,4 @@ class VectorRotationTree:
 
 def create_zero_vector_rotation(dimension: int) -> VectorRotationXd:
     """Creates a zero vector rotation object."""
-    return VectorRotationXd(base=np.eye((dimension, 2)), rotation_angle=0.0)
+    return VectorRotationXd(base=np.eye(dimension, 2), rotation_angle=0.0)
-- 
2.43.0


From 0dfb5a22bec2a722ab00d37b33370c0bfd814916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 010/122] fix: root and parent of a rotation tree can be
 accessed

---
 nonlinear_avoidance/vector_rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index de447e3..46130ae 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -423,7 +423,7 @@ class VectorRotationTree:
 
     @property
     def root(self) -> NodeType:
-        return self._graph.nodes(self._root_idx)
+        return self._graph.nodes[self._root_idx]
 
     @property
     def dimension(self) -> int:
@@ -436,7 +436,7 @@ class VectorRotationTree:
 
     def get_parent(self, node_id: NodeType) -> NodeType:
         """Returns the (unique) parent."""
-        return self._graph.predecessors(node_id)[0]
+        return next(self._graph.predecessors(node_id))
 
     def get_children(self, node_id: NodeType) -> list[NodeType]:
         """Returns all the children of an input node."""
-- 
2.43.0


From 8a92cfab30f09b9542cba4bb7fa00e91f6402aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 011/122] fix: direction of a tree node with successors can be
 changed

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 46130ae..59ee7ec 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -559,7 +559,7 @@ class VectorRotationTree:
         # Do better checks to accelerate
         successors = self.get_all_childs_children(node_id)
         for succ in successors:
-            succ["orientation"] = None
+            self._graph.nodes[succ]["orientation"] = None
 
     def evaluate_all_orientations(
         self, sorted_list: list[NodeType] = None, pi_margin: Optional[float] = None
-- 
2.43.0


From a88ad90fb093dfbc927ba8fe1143ef99946b4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 012/122] fix: rotation tree rotates vectors by the weighted
 mean

---
 nonlinear_avoidance/vector_rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 59ee7ec..30431db 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -875,7 +875,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             self.root["orientation"].base[:, 0], rotated_dir
         )
@@ -892,7 +892,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             rotated_dir, self.root["orientation"].base[:, 0]
         )
-- 
2.43.0


From 0ead3ea3bb2a7937658134de342a1e0db099d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 013/122] fix: reduced rotation sequence does not repeat its
 last rotation

---
 nonlinear_avoidance/vector_rotation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 30431db..81417b9 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -813,7 +813,12 @@ class VectorRotationTree:
             all_basis = np.zeros((self.dimension, 0))
             for node_id in nodelevel_ids:
                 # Transform all child angles to first base-direction
-                successors = self.get_all_childs_children(node_id)
+                # (successors without weight do not contribute)
+                successors = [
+                    succ
+                    for succ in self.get_all_childs_children(node_id)
+                    if self._graph.nodes[succ]["weight"]
+                ]
 
                 if not successors:
                     # No successors
-- 
2.43.0


From d1172f69e903a7bb2ed39aaf19edc12d6ec4f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 014/122] fix: refused tree nodes leave the rotation tree
 unchanged

---
 nonlinear_avoidance/vector_rotation.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 81417b9..1a20151 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -464,11 +464,10 @@ class VectorRotationTree:
         if node_id in self.graph.nodes():
             raise ValueError(f"Node with id: {node_id} already exists.")
 
+        if np.any(np.isnan(direction)):
+            raise ValueError("Faulty input.")
+
         if parent_id is not None:
-            self._graph.add_edge(
-                parent_id,
-                node_id,
-            )
             level = self._graph.nodes[parent_id]["level"] + 1
 
         elif child_id is not None:
@@ -483,6 +482,9 @@ class VectorRotationTree:
         if level >= self.maximum_level:
             raise ValueError(f"Exceeding  maximum level {level} of direction-tree.")
 
+        if parent_id is not None:
+            self._graph.add_edge(parent_id, node_id)
+
         self._graph.add_node(
             node_id,
             level=level,
@@ -491,9 +493,6 @@ class VectorRotationTree:
             orientation=None,
         )
 
-        if np.any(np.isnan(direction)):
-            raise ValueError("Faulty input.")
-
         if direction is not None:
             self.set_direction(node_id, direction)
 
-- 
2.43.0


From 6e4c2adf7b4ee53bd225cd079032a7bc154d3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 015/122] fix: limited weights sum to one if several are at
 their maximum

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1abda8b..56ca7e3 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -62,8 +62,8 @@ def get_limited_weights_to_max_sum(weights: npt.ArrayLike) -> float | np.ndarray
         return (np.array(weights), weight_sum)
 
     if np.any(ind_max := np.array(weights) >= 1.0):
-        new_weights = np.zeros_like(weights)
-        new_weights[ind_max] = 1
+        new_weights = np.zeros(len(weights))
+        new_weights[ind_max] = 1.0 / np.sum(ind_max)
         # Assign to list
         return (new_weights, 1.0)
 
-- 
2.43.0


From 1af0be733a50fb7c1bf8984e9ba84360cc54a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 016/122] fix: velocity keeps the initial magnitude where no
 obstacle has influence

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 56ca7e3..38c661a 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -329,7 +329,7 @@ class MultiObstacleAvoider:
         final_velocity = final_sequence.get_end_vector()
 
         if len(self._cluster_weights) <= 0:
-            return final_velocity + relative_velocity
+            return final_velocity * initial_magnitude + relative_velocity
 
         # averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
         averaged_normal = np.sum(
-- 
2.43.0


From 16c8559d66250eb782baf28a9d2ba95fc804cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 017/122] fix: slow down factor is defined when velocity and
 reference direction are aligned

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 38c661a..614ffc9 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -366,8 +366,9 @@ class MultiObstacleAvoider:
     def slowfactor_from_convergence(self, power_factor: float = 0.2) -> float:
         """Returns scaling factor between [0, 1]"""
         rot_weight = np.array(self._rotation_weights)
-        conv_prox = np.array(self._convergence_reference_proximity)
-        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox, conv_prox < 1.0)
+        # Proximity is the cosine of an angle, but might be rounded above one
+        conv_prox = np.minimum(self._convergence_reference_proximity, 1.0)
+        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox)
 
         scaling = np.ones_like(rot_weight)
         scaling[ind_pos] = ((1 - conv_prox[ind_pos]) / rot_weight[ind_pos]) ** (
-- 
2.43.0


From 4337249e398ba35e695482156823b7194cbc18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 018/122] fix: relative velocity of rotating obstacles in three
 dimensions

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 614ffc9..0f15e44 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -128,7 +128,7 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "twist") and obs.twist is not None:
             relative_velocity = relative_velocity + obs.twist.linear * weights[ii]
 
-            if obs.twist.angular:
+            if np.any(obs.twist.angular):
                 if position.shape[0] == 2:
                     angular_velocity = np.cross(
                         np.array([0, 0, obs.twist.angular]),
@@ -143,7 +143,7 @@ def compute_multiobstacle_relative_velocity(
 
                 relative_velocity = (
                     relative_velocity
-                    + weights[ii] * influence_weight[ii] * angular_velocity[:2]
+                    + weights[ii] * influence_weight[ii] * angular_velocity[: position.shape[0]]
                 )
 
         if hasattr(obs, "deformation_rate"):
-- 
2.43.0


From e635078dc989d9a432ff9c77c3bb56f737f0dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 019/122] fix: if all components are occluded the least
 occluded ones get the weight

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 0f15e44..1d56cf5 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1195,7 +1195,7 @@ class MultiObstacleAvoider:
     @staticmethod
     def evaluate_occlusion_array(occlusion_weights):
         # Evaluate occlusion weights
-        occlusion_weights = np.array(occlusion_weights)
+        occlusion_weights = np.array(occlusion_weights, dtype=float)
         ind_pos = occlusion_weights > 0
         if any(ind_pos):
             final_weights = np.zeros_like(occlusion_weights)
@@ -1204,15 +1204,9 @@ class MultiObstacleAvoider:
             )
             return final_weights
 
-        arg_max = np.argsort(occlusion_weights)
-        final_weights = np.zeros_like(occlusion_weights)
-        final_weights[-1] = 1.0
-        for ii in range(final_weights.shape[0] - 1, 0):
-            # Take the closest ones and divide (!)
-            if occlusion_weights[ii] < occlusion_weights[-1]:
-                break
-            final_weights[ii] = 1.0
-        return final_weights / np.sum(final_weights)
+        # Take the closest ones and divide (!)
+        ind_max = occlusion_weights >= np.max(occlusion_weights)
+        return ind_max / np.sum(ind_max)
 
     def _compute_normal_and_reference_of_branch(
         self,
-- 
2.43.0


From 24a5b1748160edfc6d1d8b1877874cdd255ff307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 020/122] fix: occlusion gamma is limited by an upper bound

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1d56cf5..6530100 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1163,7 +1163,7 @@ class MultiObstacleAvoider:
             # )
 
         if max_gamma is not None:
-            occlusion_gammas = np.maximum(occlusion_gammas, max_gamma)
+            occlusion_gammas = np.minimum(occlusion_gammas, max_gamma)
 
         # print("occlusion_gammas", occlusion_gammas)
         if np.any(occlusion_gammas > 1 + gamma_margin):
-- 
2.43.0


From 5ed9078611b2cf690a4397bc906888dfda7400d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 021/122] fix: linear velocity of a moving multi obstacle can
 be read

---
 nonlinear_avoidance/multi_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 2586075..a289a30 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -47,7 +47,7 @@ class MultiObstacle:
         if self.twist is None:
             return np.zeros(self.dimension)
         else:
-            return self.twist.linear_velocity
+            return self.twist.linear
 
     @linear_velocity.setter
     def linear_velocity(self, value: npt.ArrayLike) -> None:
-- 
2.43.0


From ce1e4f280b5c22a8c48c66748addfbc0ab4663d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 022/122] fix: gamma of a multi obstacle at a local position

---
 nonlinear_avoidance/multi_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index a289a30..fef8a15 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -90,7 +90,7 @@ class MultiObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -104,7 +104,7 @@ class MultiObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From 9346b24cc27958325d24461ff4c2c8bcb18766a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 023/122] fix: component with unknown parent is refused before
 the obstacle is changed

---
 nonlinear_avoidance/multi_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index fef8a15..8a82fe9 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -149,6 +149,9 @@ class MultiObstacle:
     ) -> int:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
+        if parent_ind not in self._graph:
+            raise ValueError(f"Parent component {parent_ind} does not exist.")
+
         if reference_position is None:
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
-- 
2.43.0


From 2933f4226fa85da3ea3fdc232df8381e58362018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 024/122] fix: reference point of a component is found with
 both obstacles in the same frame

---
 nonlinear_avoidance/multi_obstacle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 8a82fe9..f33de22 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -153,13 +153,17 @@ class MultiObstacle:
             raise ValueError(f"Parent component {parent_ind} does not exist.")
 
         if reference_position is None:
+            # Parent is in the global frame -> bring obstacle there, too
+            local_pose = obstacle.pose
+            obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
             )
+            global_pose, obstacle.pose = obstacle.pose, local_pose
             if global_reference is None:
                 raise ValueError("No intersection found.")
 
-            reference_position = obstacle.pose.transform_position_to_relative(
+            reference_position = global_pose.transform_position_to_relative(
                 global_reference
             )
         else:
-- 
2.43.0


From aeceed92e683cb6f26c9bea43c8e5918c4378cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 025/122] fix: free space of a container of multi obstacles can
 be queried

---
 nonlinear_avoidance/multi_obstacle_container.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_container.py b/nonlinear_avoidance/multi_obstacle_container.py
index b51de57..4e83df0 100644
--- a/nonlinear_avoidance/multi_obstacle_container.py
+++ b/nonlinear_avoidance/multi_obstacle_container.py
@@ -68,9 +68,4 @@ class MultiObstacleContainer:
     ) -> bool:
         if not in_global_frame:
             raise NotImplementedError()
-        for obs in self:
-            if obs.is_in_free_space(position, in_global_frame=True):
-                continue
-            return False
-
-        return True
+        return self.is_collision_free(position)
-- 
2.43.0


From 2bc201e9281e477d66b20bb1e634741accc9fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 026/122] fix: gamma of an arch obstacle at a local position

---
 nonlinear_avoidance/arch_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 60bb479..46aed7d 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -105,7 +105,7 @@ class BlockArchObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True):
         if not in_global_frame:
-            position = self.pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -119,7 +119,7 @@ class BlockArchObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From 358b143863c747b00f597ba9beb8cbb1cf55920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 027/122] fix: components of an arch obstacle follow its pose

---
 nonlinear_avoidance/arch_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 46aed7d..c99aeea 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -181,7 +181,7 @@ class BlockArchObstacle:
     def update_obstacles(self, delta_time):
         # Update all positions of the moved obstacles
         for pose, obs in zip(self._local_poses, self._obstacle_list):
-            obs.shape = self.pose.transform_pose_from_relative(pose)
+            obs.pose = self.pose.transform_pose_from_relative(pose)
 
 
 def create_arch_obstacle(
-- 
2.43.0


From d04428a3a7b651d4d0b7649eede3c3e68b420612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 028/122] fix: root and parent of a multi ellipse obstacle
 cannot be replaced unnoticed

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 51df36a..3974231 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -97,14 +97,14 @@ class MultiEllipseObstacle(Obstacle):
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obs_id: int):
-        if self._root_idx:
+        if self._root_idx is not None:
             raise NotImplementedError("Make sure to delete first.")
         self._root_idx = obs_id
         self._parent_list[obs_id] = -1
 
     def set_parent(self, obs_id: int, parent_id: int):
         # This should go automatically at run-time
-        if self._parent_list[obs_id]:
+        if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
         self._parent_list[obs_id] = parent_id
-- 
2.43.0


From 38438e06603689772db5bcf1c200bebcf52cacaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 029/122] fix: obstacles of a rotation container can be deleted
 and replaced

---
 nonlinear_avoidance/rotation_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 716d808..dae395a 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -32,11 +32,11 @@ class RotationContainer(BaseContainer):
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
-        super().__delitem__(self._obstacle_list[key])
-        del self._convergence_dynamics
+        super().__delitem__(key)
+        del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
-        super().__setitem__(self._obstacle_list[key])
+        super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
 
     def set_convergence_directions(
-- 
2.43.0


From 182f023d71eff47a30a6b8cb0ecb82c28bd40eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 030/122] fix: convergence directions are evaluated relative to
 the attractor

---
 nonlinear_avoidance/rotation_container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index dae395a..608b36e 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -78,7 +78,7 @@ class RotationContainer(BaseContainer):
 
         for it_obs in range(self.n_obstacles):
             position = self[it_obs].center_position
-            pos_norm = LA.norm(position)
+            pos_norm = LA.norm(position - attractor)
             if not pos_norm:
                 # Make it converge to attractor either way, as evaluation might
                 # be numerically bad.
@@ -88,7 +88,7 @@ class RotationContainer(BaseContainer):
                 continue
 
             local_velocity = nonlinear_dynamics.evaluate(position)
-            dot_prod = np.dot(position, local_velocity) / (
+            dot_prod = np.dot(position - attractor, local_velocity) / (
                 pos_norm * LA.norm(local_velocity)
             )
 
-- 
2.43.0


From 9516bff546802be6fb537b5dc83869c107368338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 031/122] fix: intersection of obstacles of different types and
 without overlap

---
 nonlinear_avoidance/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 6dbafc7..afadad5 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -58,13 +58,16 @@ def get_intersection_of_obstacles(
         obstacle1.create_shape()
         shape1 = obstacle1.shape
 
-    if isinstance(obstacle1, Ellipse) or isinstance(obstacle1, EllipseWithAxes):
+    if isinstance(obstacle2, Ellipse) or isinstance(obstacle2, EllipseWithAxes):
         shape2 = create_shapely_ellipse(obstacle2)
     else:
         obstacle2.create_shape()
         shape2 = obstacle2.shape
 
     intersect = shape1.intersection(shape2)
+    if intersect.is_empty or not hasattr(intersect, "exterior"):
+        # No (proper) overlap, e.g., only touching at a point
+        return None
     intersections = np.array(intersect.exterior.coords.xy)
 
     if False:
-- 
2.43.0


From 38507ead1ad336dfd33e84541932380a1db3b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 032/122] fix: folding stretches along the attractor direction,
 whatever the obstacle frame

---
 .../dynamics/projected_rotation_dynamics.py              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ac00a06..792795a 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -253,10 +253,10 @@ class ProjectedRotationDynamics:
                     / LA.norm(transformed_position[1:])
                     * dotprod_factor
                 )
-        expanded_position = basis @ transformed_position
         # TODO: should the scaling be applied to all dimensions?
         # How would this change the effect for obstacles / far or close
-        expanded_position[0] = expanded_position[0] * dist_attr_obs
+        transformed_position[0] = transformed_position[0] * dist_attr_obs
+        expanded_position = basis @ transformed_position
 
         if not in_obstacle_frame:
             expanded_position = expanded_position + self.obstacle.global_reference_point
@@ -295,7 +295,10 @@ class ProjectedRotationDynamics:
             )
 
         # The normalization with with attractor distance scales the 'radial' direction
-        vec_obstacle_to_position[0] = vec_obstacle_to_position[0] / dist_attr_obs
+        radial_distance = np.dot(vec_obstacle_to_position, dir_attractor_to_obstacle)
+        vec_obstacle_to_position = vec_obstacle_to_position + (
+            (1.0 / dist_attr_obs - 1.0) * radial_distance * dir_attractor_to_obstacle
+        )
 
         if not (pos_norm := LA.norm(vec_obstacle_to_position)):
             # At the center of the obstacle -> attractor dynamcis
-- 
2.43.0


From 70ac67b1a78f4b98699eada05c3c8ef035238e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 033/122] fix: nearly aligned directions are rotated onto each
 other

---
 nonlinear_avoidance/vector_rotation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 1a20151..c12a397 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,7 +120,10 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot):
+        vec_perp = vec_rot - vec_init * dot_prod
+        perp_norm = LA.norm(vec_perp)
+
+        if perp_norm < 1e-12:
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
@@ -130,10 +133,12 @@ class VectorRotationXd:
                 vec_perp[1] = vec_init[0] * (-1)
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
         else:
-            vec_perp = vec_rot - vec_init * dot_prod
+            vec_perp = vec_perp / perp_norm
+            # Rounding errors are large (relative) to a small difference
+            vec_perp = vec_perp - vec_init * np.dot(vec_init, vec_perp)
             vec_perp = vec_perp / LA.norm(vec_perp)
 
-        angle = np.arccos(min(max(dot_prod, -1), 1))
+        angle = math.atan2(perp_norm, dot_prod)
         return cls(base=np.array([vec_init, vec_perp]).T, rotation_angle=angle)
 
     # def __mult__(self, factor) -> VectorRotationXd:
-- 
2.43.0


From 99608f78670acbc09d0341886df43e93381329dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 034/122] fix: rotation between aligned directions is exactly
 zero

---
 nonlinear_avoidance/vector_rotation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index c12a397..db2bccd 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -132,6 +132,8 @@ class VectorRotationXd:
                 vec_perp[0] = vec_init[1]
                 vec_perp[1] = vec_init[0] * (-1)
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
+            # Rounding errors must not be taken for a rotation
+            perp_norm = 0.0
         else:
             vec_perp = vec_perp / perp_norm
             # Rounding errors are large (relative) to a small difference
-- 
2.43.0


From 8286843d3289e7d27fc4661c1d6c701d41966668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:59 +0000
Subject: [PATCH 035/122] fix: magnitude limit of a single vector

---
 nonlinear_avoidance/gmm_learner/math_tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/math_tools.py b/nonlinear_avoidance/gmm_learner/math_tools.py
index c9be517..9aec8f9 100755
--- a/nonlinear_avoidance/gmm_learner/math_tools.py
+++ b/nonlinear_avoidance/gmm_learner/math_tools.py
@@ -14,11 +14,7 @@ import numpy as np
 
 def mag_linear_maximum(x, k=1, maxMag=1.0):
     magnitude = np.linalg.norm(x, axis=0) * k
-    max_indeces = magnitude > maxMag
-    if np.sum(max_indeces.shape[0]):  # nonzero
-        magnitude[max_indeces] = maxMag * np.ones(np.sum(max_indeces))
-
-    return magnitude
+    return np.minimum(magnitude, maxMag)
 
 
 def rk4_pos_vel(dt, pos0, vel0, ds, k_f=1):
-- 
2.43.0


From 00aeec767400fdd107b2beff3fa0ae4b6371c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:03 +0000
Subject: [PATCH 036/122] fix: gaussian is evaluated at its mean and has the
 gradient of its density

---
 nonlinear_avoidance/multivariant_gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index 33a15b5..5c49ab1 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -44,20 +44,20 @@ class MultiVariantGaussian:
             return 0
 
     def evaluate(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
         return self._fraction_value * exp_value
 
     def evaluate_derivative(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
 
         return (
-            (-0.5 * self._precision_cholesky @ delta_dist)
+            (-self._precision_cholesky @ delta_dist)
             * self._fraction_value
             * exp_value
         )
-- 
2.43.0


From a97a5106f6cb426e5e0f80c46d50086017fd2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 037/122] fix: path following evaluation reads its data and has
 a deviation of the occupied space

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index 2e3f7a7..59fa8e1 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -1,5 +1,6 @@
 from pathlib import Path
 from dataclasses import dataclass
+from typing import Optional
 
 import math
 import numpy as np
@@ -14,6 +15,7 @@ class TrajectoryEvaluator:
     data_path = Path("nonlinear_avoidance/comparison/data/wavy_path_simulation")
 
     n_runs: int = 0
+    df: Optional[pd.DataFrame] = None
 
     def get_converged(self):
         self.df = pd.read_csv(self.root_path / self.data_path / self.data_file)
@@ -38,7 +40,7 @@ class TrajectoryEvaluator:
 
         occupied = 1 - df[" free_fraction"]
         self.occupied_mean = np.mean(occupied)
-        self.occupied_std = np.std(np.mean(occupied))
+        self.occupied_std = np.std(occupied)
 
         self.gammas_mean = df[" gammas"].mean()
         self.gammas_var = df[" gammas"].var()
-- 
2.43.0


From 0550379657ad4fa1dfd2e12013125c7e5600c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 038/122] fix: modules used by the evaluation are imported
 (evaluation_trajectories.py)

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 78ee76e..4433837 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
-- 
2.43.0


From ba1090eb311a040fdbce59cb7fde6aaa6561d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:17 +0000
Subject: [PATCH 039/122] fix: modules used by the evaluation are imported
 (evaluation_trajectories_with_std.py)

---
 .../comparison/evaluation_trajectories_with_std.py              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 9ed79a0..ba567bd 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -6,6 +6,8 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # Created: 2022-01-20
 
 import json
+import os
+import warnings
 from dataclasses import dataclass
 
 import math
-- 
2.43.0


From 0a882ed37bec9fed72eb63106f080ef7d9516452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 040/122] fix: velocities are compared with the dynamics where
 the robot moved (evaluation_trajectories.py)

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 4433837..375e0bf 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -75,11 +75,12 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_velocities[:, ii] = dynamic_functor(trajectory[:, ii])
+        init_velocities[:, ii] = dynamic_functor(positions[:, ii])
 
     delta_vel = velocities - init_velocities
     deviations = np.sum(delta_vel**2, axis=0)
@@ -89,11 +90,12 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_vel = dynamic_functor(trajectory[:, ii])
+        init_vel = dynamic_functor(positions[:, ii])
         if not (init_norm := LA.norm(init_vel)):
             continue
         init_velocities[:, ii] = init_vel / init_norm
-- 
2.43.0


From 71e601ba98abf2e4455d028a763e6a169259aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 041/122] fix: velocities are compared with the dynamics where
 the robot moved (evaluation_trajectories_with_std.py)

---
 .../comparison/evaluation_trajectories_with_std.py          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index ba567bd..e2b2332 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -76,11 +76,12 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_velocities[:, ii] = dynamic_functor(trajectory[:, ii])
+        init_velocities[:, ii] = dynamic_functor(positions[:, ii])
 
     delta_vel = velocities - init_velocities
     deviations = np.sum(delta_vel**2, axis=0)
@@ -90,11 +91,12 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_vel = dynamic_functor(trajectory[:, ii])
+        init_vel = dynamic_functor(positions[:, ii])
         if not (init_norm := LA.norm(init_vel)):
             continue
         init_velocities[:, ii] = init_vel / init_norm
-- 
2.43.0


From 5b9dcc1e410c7e259174e79b15915390e6cfd29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 042/122] fix: squared error to the path does not cancel out

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 375e0bf..cf0e70c 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -49,7 +49,7 @@ def normalize_velocities(velocities):
 def mean_squared_error_to_path(trajectory, center_position, radius):
     # Assumption of circular dynamics
     traj_centered = trajectory - np.tile(center_position, (trajectory.shape[1], 1)).T
-    err_squared = np.sum(traj_centered**2, axis=0) - radius**2
+    err_squared = abs(np.sum(traj_centered**2, axis=0) - radius**2)
 
     return np.mean(err_squared)
 
-- 
2.43.0


From b37d8d40416ea762b5bb796b3ffaa8492c50976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 043/122] fix: circular dynamics are created from a dimension
 and keep their maximum velocity

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f702481..6b4009c 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -212,6 +212,8 @@ class SimpleCircularDynamics(DynamicalSystem):
                 )
             else:
                 pose.orientation = Rotation.from_matrix(base_matrix)
+        elif pose is None:
+            pose = ObjectPose(np.zeros(kwargs.get("dimension", 2)))
 
         super().__init__(
             pose=pose,
@@ -271,16 +273,14 @@ class SimpleCircularDynamics(DynamicalSystem):
 
         normalized_direction = direction / dir_norm
 
+        velocity = normalized_direction * self.maximum_velocity
+
         # Slow down towards the directional-singularity
         slow_down_distance = 1 / 3 * self.radius
         if pos_norm < slow_down_distance:
-            normalized_direction = (
-                normalized_direction
-                * (pos_norm / slow_down_distance)
-                * self.maximum_velocity
-            )
+            velocity = velocity * (pos_norm / slow_down_distance)
 
-        return self.pose.transform_direction_from_relative(normalized_direction)
+        return self.pose.transform_direction_from_relative(velocity)
 
 
 def test_rotation_circle(visualize=False):
-- 
2.43.0


From a8910e20c68bd4adfbd6afb94cec68d3f0356fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 044/122] fix: reference points are deformed together with the
 multi obstacle

---
 nonlinear_avoidance/multi_obstacle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index f33de22..deaf6ac 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -82,6 +82,10 @@ class MultiObstacle:
         for pose, obs in zip(self._local_poses, self._obstacle_list):
             pose.position = factor * pose.position
             obs.axes_length = factor * obs.axes_length
+            obs.set_reference_point(
+                factor * obs.get_reference_point(in_global_frame=False),
+                in_global_frame=False,
+            )
 
             obs.pose = self._pose.transform_pose_from_relative(pose)
 
-- 
2.43.0


From 4955b30d15db5ed35aeedcef563958a3d2341cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:44 +0000
Subject: [PATCH 045/122] fix: ellipses without intersection cannot be linked

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 3974231..adc2b8c 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -107,13 +107,15 @@ class MultiEllipseObstacle(Obstacle):
         if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
-        self._parent_list[obs_id] = parent_id
-        self._children_list[parent_id].append(obs_id)
-
         # Set reference point
         intersection = get_intersection_of_obstacles(
             self._obstacle_list[obs_id], self._obstacle_list[parent_id]
         )
+        if intersection is None:
+            raise ValueError("No intersection found.")
+
+        self._parent_list[obs_id] = parent_id
+        self._children_list[parent_id].append(obs_id)
 
         self._obstacle_list[obs_id].set_reference_point(
             intersection, in_global_frame=True
-- 
2.43.0


From 0accbb9b90be1fd496f4c926e01a9d5625e734ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 046/122] fix: boundaries are removed from their container
 together with their links

---
 nonlinear_avoidance/multiboundary_container.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0e0300b..3129ff1 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -73,11 +73,19 @@ class MultiBoundaryContainer(RotationContainer):
                 )
 
     def __delitem__(self, key):
-        super().append(value)
-        breakpoint()  # Test if it was executed correctly
-        del self._children_list[key]
+        key = range(self.n_obstacles)[key]
+        super().__delitem__(key)
+
+        # The children of the removed obstacle are without parent
+        self._parent_array[self._parent_array == key] = -1
         self._parent_array = np.delete(self._parent_array, key)
+        self._parent_array[self._parent_array > key] -= 1
 
+        del self._children_list[key]
+        self._children_list = [
+            [child - (child > key) for child in children if child != key]
+            for children in self._children_list
+        ]
         del self._parent_intersection_point[key]
 
     def is_collision_free(self, position):
-- 
2.43.0


From 6dc9b538e8f8d719422c45f7e5e4bd2f23194863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 047/122] fix: boundary is linked to the parent it is appended
 with

---
 nonlinear_avoidance/multiboundary_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 3129ff1..c42c1d9 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -68,9 +68,9 @@ class MultiBoundaryContainer(RotationContainer):
         if parent is not None:
             # Automatically define graph
             if parent == -1:
-                self.extend_graph(
-                    child=self.n_obstacles - 1, parent=self.n_obstacles - 2
-                )
+                parent = self.n_obstacles - 2
+            if parent >= 0:
+                self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
         key = range(self.n_obstacles)[key]
-- 
2.43.0


From b6dc0e5ffa70c5c34011e7050fdd692fe46a6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:17 +0000
Subject: [PATCH 048/122] fix: re-linked boundary is no child of its former
 parent

---
 nonlinear_avoidance/multiboundary_container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index c42c1d9..6068c1b 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -105,6 +105,9 @@ class MultiBoundaryContainer(RotationContainer):
 
     def extend_graph(self, child, parent):
         """Use internal functions to update parents & children."""
+        if (old_parent := self.get_parent(child)) >= 0:
+            self._children_list[old_parent].remove(child)
+
         self.set_parent(it=child, parent=parent)
         self.add_children(it=parent, children=[child])
 
-- 
2.43.0


From 71dbe24e7b786d029ba4302bfdc21c05a4c07341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:22 +0000
Subject: [PATCH 049/122] fix: list of the boundaries of a container

---
 nonlinear_avoidance/multiboundary_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 6068c1b..5b5248c 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -173,7 +173,7 @@ class MultiBoundaryContainer(RotationContainer):
     def get_boundary_list(self):
         """Returns obstacle list containing all boundary-elements."""
         # TODO MAYBE: store boundaries in separate list (?)
-        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boubndary]
+        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boundary]
 
     def get_boundary_ind(self):
         """Returns indeces of the current container which are equivalent to obstacles."""
-- 
2.43.0


From 5713bf4fd3b64453f2eff29dd14f5d9e4f64a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:27 +0000
Subject: [PATCH 050/122] fix: intersection of boundaries is computed at their
 position

---
 nonlinear_avoidance/multiboundary_container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 5b5248c..a4834f2 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -35,6 +35,9 @@ def create_shapely_ellipse(ellipse):
     shapely_ellipse = affinity.rotate(
         shapely_ellipse, ellipse.orientation * 180 / math.pi
     )
+    shapely_ellipse = affinity.translate(
+        shapely_ellipse, ellipse.center_position[0], ellipse.center_position[1]
+    )
 
     return shapely_ellipse
 
-- 
2.43.0


From 538ebab3eb4840984e07f35ddd6c5cb0bda09740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:32 +0000
Subject: [PATCH 051/122] fix: convergence radiuses are removed together with
 their obstacle

---
 nonlinear_avoidance/rotation_container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 608b36e..66909aa 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -34,6 +34,8 @@ class RotationContainer(BaseContainer):
         """Obstacle is not part of the workspace anymore."""
         super().__delitem__(key)
         del self._convergence_dynamics[key]
+        if len(self.convergence_radiuses):
+            del self.convergence_radiuses[key]
 
     def __setitem__(self, key, value):
         super().__setitem__(key, value)
-- 
2.43.0


From 9fc43aafcafe84458e9c51ddf2e64bfcdb5b339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:37 +0000
Subject: [PATCH 052/122] fix: each obstacle is avoided with its own
 convergence direction

---
 .../avoidance/rotational_avoider.py           | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b0af7fb..5d47b16 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -364,16 +364,17 @@ class RotationalAvoider(BaseAvoider):
 
             # Convergence direcctions can be local for certain obstacles
             # / convergence environments
-            if convergence_velocity is None:
-                if self.convergence_dynamics is None:
-                    convergence_velocity = obstacle_list.get_convergence_direction(
-                        position=position, it_obs=it_obs
-                    )
-                else:
-                    convergence_velocity = self.convergence_dynamics.evaluate(position)
+            if convergence_velocity is not None:
+                local_convergence = convergence_velocity
+            elif self.convergence_dynamics is None:
+                local_convergence = obstacle_list.get_convergence_direction(
+                    position=position, it_obs=it_obs
+                )
+            else:
+                local_convergence = self.convergence_dynamics.evaluate(position)
 
             # if not (conv_vel_norm := LA.norm(convergence_velocity)):
-            if not LA.norm(convergence_velocity):
+            if not LA.norm(local_convergence):
                 # Zero value
                 # base = DirectionBase(matrix=null_matrix)
                 base = null_matrix
@@ -390,7 +391,7 @@ class RotationalAvoider(BaseAvoider):
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
             rotated_directions[:, it] = self.directional_convergence_summing(
-                convergence_vector=convergence_velocity,
+                convergence_vector=local_convergence,
                 reference_vector=reference_dir,
                 # weight=inv_gamma_weight[it],
                 gamma=gamma_array[it],
-- 
2.43.0


From 9a4531655a6c7516cfd0ec5aec8705f938f7e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 053/122] fix: re-linking a boundary whose links were set one
 by one

---
 nonlinear_avoidance/multiboundary_container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index a4834f2..62e6696 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -109,7 +109,9 @@ class MultiBoundaryContainer(RotationContainer):
     def extend_graph(self, child, parent):
         """Use internal functions to update parents & children."""
         if (old_parent := self.get_parent(child)) >= 0:
-            self._children_list[old_parent].remove(child)
+            self._children_list[old_parent] = [
+                ii for ii in self._children_list[old_parent] if ii != child
+            ]
 
         self.set_parent(it=child, parent=parent)
         self.add_children(it=parent, children=[child])
-- 
2.43.0


From 23e220ee3620c0295d21813a9b1b9a41212656b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 054/122] fix: velocity among trees with more than nine
 generations

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 6530100..4e72649 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1256,10 +1256,6 @@ class MultiObstacleAvoider:
                 breakpoint()
                 break
 
-            if len(parents_tree) > 10:
-                # TODO: remove this debug check
-                raise Exception()
-
             # Go from reference point outwards to avoid numerical errors
             ref_point = obs.get_reference_point(in_global_frame=True)
             ref_dir = surface_points[-1] - ref_point
-- 
2.43.0


From 6eac7e10a372cd48b8153a29e6fcaa7d927b2d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 055/122] fix: obstacle convergence sequence raised

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 792795a..82d5cdb 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -517,7 +517,9 @@ class ProjectedRotationDynamics:
             return initial_sequence
 
         # Trafo is expected to be not None, as we have: weight > 0
-        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(position)
+        trafo_pos_to_attr = self.evaluate_rotation_position_to_transform(
+            position, root_obs
+        )
 
         convergence_sequence = evaluate_dynamics_sequence(
             root_obs.get_reference_point(in_global_frame=True),
@@ -535,7 +537,7 @@ class ProjectedRotationDynamics:
             sequence=initial_sequence,
         )
         obs_id = 2
-        self.conv_tree.add_node(
+        self.conv_tree.add_node_orientation(
             orientation=trafo_pos_to_attr,
             node_id=obs_id,
             parent_id=root_id,
-- 
2.43.0


From 7417166f75babc296f918148b78190a427b70f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 056/122] fix: rotation towards an obstacle around the shrunk
 obstacle raised

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 82d5cdb..dacb0cc 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -558,12 +558,14 @@ class ProjectedRotationDynamics:
         """Returns VectorRotationXd needed to go from position to the obstacle-reference.
         The base vectors are pointing towards the attractor for compatibalitiy with straight-stable dynamics.
         """
+        self.obstacle = obstacle
+
         shrinking_weight = 1.0
         shrunk_position = self._get_position_after_deflating_obstacle(
-            position, in_obstacle_frame=False, weight=shrinking_weight
+            position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
         shrunk_attractor = self._get_position_after_deflating_obstacle(
-            self.attractor_position, in_obstacle_frame=False, weight=shrinking_weight
+            self.attractor_position, in_obstacle_frame=False, deflation_weight=shrinking_weight
         )
 
         dir_attr_to_pos = shrunk_attractor - shrunk_position
-- 
2.43.0


From 9297140816e1c165fb93f8973cf3e1d51b5fdca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 057/122] fix: smooth continuation weight got reference and
 convergence swapped

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 5d47b16..ec07280 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -1086,7 +1086,7 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, convergence_vector, reference_vector, base
+            gamma, reference_vector, convergence_vector, base
         )
 
         if weight <= 0:
-- 
2.43.0


From 35b35632cf84cfabd6931d63563aa360a451fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 058/122] fix: avoiding a given velocity with convergence
 around obstacles raised

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index b0186fa..0469095 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -189,7 +189,9 @@ class SingularityConvergenceDynamics(BaseAvoider):
     #     return self._rotation_avoider.convergence_dynamics.evaluate(position)
 
     def avoid(self, position, initial_velocity):
-        convergence_velocity = self.evaluate_convergence_dynamics(position)
+        convergence_velocity = self.evaluate_weighted_dynamics(
+            position, initial_velocity
+        )
         return self._rotation_avoider.avoid(
             position=position,
             initial_velocity=initial_velocity,
-- 
2.43.0


From 6681e663c0d96ec32cbd0c6b5f9049d647d291d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 059/122] fix: velocity of moving obstacles was scaled with the
 speed of the dynamics

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index 0469095..6c682df 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -200,24 +200,20 @@ class SingularityConvergenceDynamics(BaseAvoider):
 
     def evaluate(self, position, **kwargs):
         initial_velocity = self.evaluate_initial_dynamics(position)
-        if not (initial_norm := LA.norm(initial_velocity)):
+        if not LA.norm(initial_velocity):
             return initial_velocity
 
-        initial_velocity = initial_velocity / initial_norm
-
         convergence_velocity = self.evaluate_weighted_dynamics(
             position, initial_velocity
         )
 
-        rotated_velocity = self._rotation_avoider.avoid(
+        return self._rotation_avoider.avoid(
             position=position,
             initial_velocity=initial_velocity,
-            convergence_velocity=convergence_velocity * initial_norm,
+            convergence_velocity=convergence_velocity,
             **kwargs,
         )
 
-        return rotated_velocity * initial_norm
-
     def evaluate_sequence(self, position: np.ndarray) -> np.ndarray:
         if hasattr(self._rotation_avoider.initial_dynamics, "evaluate_magnitude"):
             magnitude = self._rotation_avoider.initial_dynamics.evaluate_magnitude(
-- 
2.43.0


From 95265c6e23dfaa2af10f88c9e717fdcb9f7cd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 060/122] fix: path following returned a number instead of a
 zero velocity at its attractor

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index e985055..7a4f03f 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -180,7 +180,7 @@ class WavyPathFollowing(Dynamics):
     def evaluate(self, position: np.ndarray) -> np.ndarray:
         vel_attractor = self.evaluate_magnitude(position)
         if not np.linalg.norm(vel_attractor):
-            return vel_attractor
+            return np.zeros(self.dimension)
 
         sequence = self.evaluate_dynamics_sequence(position)
         return sequence.get_end_vector() * vel_attractor
-- 
2.43.0


From f8a8ab7a09bec09efa8d6b4290e90ba68de06800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 061/122] fix: path following on two segments at once had
 weights of more than one in total

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index 7a4f03f..8277015 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -116,7 +116,7 @@ class WavyPathFollowing(Dynamics):
 
         zero_dist = distances == 0
         if np.any(zero_dist):
-            weights = 1.0 * zero_dist
+            weights = 1.0 * zero_dist / np.sum(zero_dist)
             return np.append(weights, 0)
 
         weights = (weight_factor / distances) ** weight_power
-- 
2.43.0


From 3d986c228a9317ba196c5dc4a35920e85c4dbc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 062/122] fix: moving the base of dynamics stopped in the
 debugger

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 6b4009c..b754b7d 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -78,7 +78,6 @@ class DynamicDynamics:
         self.position = (
             base_velocity * weight * self.time_step_of_base_movement + self.position
         )
-        breakpoint()
 
     def evaluate(self, position: Vector) -> Vector:
         """Updates the main_dynamics pose with as proposed in dynamics_of_base
-- 
2.43.0


From 4b189b5b640e7d5f4961dde161501ca6fa22d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 063/122] fix: circular rotation dynamics ignored the position
 of their pose

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index b754b7d..b979926 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -174,10 +174,11 @@ class CircularRotationDynamics(DynamicalSystem):
         return 2 * self.sigmoid(distance_surface)
 
     def evaluate(self, position):
-        if not LA.norm(position):
-            return position
+        relative_position = position - self.pose.position
+        if not LA.norm(relative_position):
+            return np.zeros_like(position)
 
-        local_position = self.base_matrix.T @ position
+        local_position = self.base_matrix.T @ relative_position
 
         rot_weight = self.get_rotation_weight(local_position)
         init_direction = self.get_initial_direction(local_position)
-- 
2.43.0


From 3b5bc3536ff511f95cf2e6022188363b68efdd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 064/122] fix: velocity of spiraling dynamics was shifted by
 their center

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index b81c618..37566b3 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -49,7 +49,7 @@ class SpiralingDynamics3D:
         rotating_vel2d = self.circular_dynamics.evaluate(local_position[1:])
 
         rotating_velocity = np.hstack((0.0, rotating_vel2d))
-        rotating_velocity = self.pose.transform_position_from_relative(
+        rotating_velocity = self.pose.transform_direction_from_relative(
             rotating_velocity
         )
 
-- 
2.43.0


From 411ebf09980d3e129d3123dca54357dae9550c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:00 +0000
Subject: [PATCH 065/122] fix: convergence velocity of perpendicular deviations
 was not limited

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index cd99398..e3d93f1 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -321,7 +321,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         direction = self.attractor_position - position
 
         if dir_norm := LA.norm(direction):
-            dir_norm = direction / dir_norm * self.get_velocity_factor(dir_norm)
+            direction = direction / dir_norm * self.get_velocity_factor(dir_norm)
 
         return direction
 
-- 
2.43.0


From 15f930724ce2dc4d8b5b3d446e2ee1a6b0845808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 066/122] fix: locally rotated dynamics around their attractor
 raised

---
 .../dynamics/locally_rotated_linear_dynamics.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index d196543..8e2e135 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -62,7 +62,8 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = self.attractor_position - obstacle.center_position
         if not (attr_norm := LA.norm(attractor_dir)):
             warnings.warn("Obstacle is at attractor - zero deviation")
-            return
+            attractor_dir = reference_velocity
+            attr_norm = 1.0
 
         self.rotation = VectorRotationXd.from_directions(
             vec_init=attractor_dir / attr_norm, vec_rot=reference_velocity
-- 
2.43.0


From f05be5365118ed2f175cbbf02a861c9525e01cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 067/122] fix: locally rotated dynamics dropped their turn at
 right angles to the obstacle

---
 .../dynamics/locally_rotated_linear_dynamics.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index 8e2e135..af642b6 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -216,7 +216,8 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = attractor_dir / dist_attractor
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
-        if not dot_product or not weight:
+        # No turn opposite of the obstacle (as seen from the attractor)
+        if dot_product <= -1 or not weight:
             return attractor_dir * min(dist_attractor, self.maximum_velocity)
 
         # And attractor
-- 
2.43.0


From b846ecdfe5ef593bd34da5b55f20e638b91617dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 068/122] fix: learning perpendicular deviations failed in
 three dimensions

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index e3d93f1..da4e98d 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -244,7 +244,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         X_relative = X - np.tile(self.attractor_position, (X.shape[0], 1))
 
         self._null_matrices = np.zeros(
-            (self.dimension, self.dimension, 2, self.dimension)
+            (self.dimension, self.dimension, self.dimension, 2)
         )
 
         for dd in range(self.dimension):
-- 
2.43.0


From 888622080e8934313c11872f523ea367dab0a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 069/122] fix: spanning basis of almost parallel vectors was
 not orthonormal

---
 nonlinear_avoidance/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/utils.py b/nonlinear_avoidance/utils.py
index bd99654..7162101 100644
--- a/nonlinear_avoidance/utils.py
+++ b/nonlinear_avoidance/utils.py
@@ -74,9 +74,9 @@ def get_orthonormal_spanning_basis(vector1, vector2, /):
     """Returns a orthonormal basis from to orthonormal input vectors."""
     dot_prod = np.dot(vector1, vector2)
 
-    if abs(dot_prod) < 1:
-        vec_perp = vector2 - vector1 * dot_prod
-        vec_perp = vec_perp / LA.norm(vec_perp)
+    vec_perp = vector2 - vector1 * dot_prod
+    if (perp_norm := LA.norm(vec_perp)) > 1e-9:
+        vec_perp = vec_perp / perp_norm
     else:
         # (Anti-)parallel vectors => take random perpendicular vector
         vec_perp = np.zeros(vector1.shape)
-- 
2.43.0


From d20ffe41ef390bdbe67cf7ff70be76e1e861b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 070/122] fix: looking up a body part by its tracking id failed

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 4ab2294..192e197 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -136,7 +136,7 @@ class MultiBodyObstacle:
 
     def get_obstacle_id_from_optitrackid(self, opt_id: int) -> int:
         return [
-            x for x, y in self._graph.nodes(data=True) if y["optitrack_id"] == opt_id
+            x for x, y in self._graph.nodes(data=True) if y["update_id"] == opt_id
         ][0]
 
     def get_name(self, idx: int) -> str:
-- 
2.43.0


From d2cf579ff57f631613e588d8acbfa57d578ea794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 071/122] fix: body part was appended before an unknown parent
 was noticed

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 192e197..7d8fcc9 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -221,10 +221,10 @@ class MultiBodyObstacle:
         parent_reference_position: npt.ArrayLike,
         update_id: Optional[int] = None,
     ):
+        parent_ind = self.get_obstacle_id_from_name(parent_name)
         reference_position = np.array(reference_position)
         obstacle.set_reference_point(reference_position, in_global_frame=False)
         self._obstacle_list.append(obstacle)
-        parent_ind = self.get_obstacle_id_from_name(parent_name)
 
         self._graph.add_node(
             self._id_counter,
-- 
2.43.0


From adb4c75a8207dc18f62b89bfe3f6ba6d7b8bbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 072/122] fix: tracked body parts which are not updated raised

---
 nonlinear_avoidance/multi_body_human.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 7d8fcc9..cd58832 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -285,14 +285,14 @@ class MultiBodyObstacle:
             except:
                 pass
             else:
+                if self.position_filters[idx_tree] is None:
+                    continue
+
                 self.position_filters[idx_tree].run_once(new_object_poses[ii].position)
                 self.orientation_filters[idx_tree].run_once(
                     new_object_poses[ii].rotation
                 )
 
-                if self.position_filters[idx_tree] is None:
-                    continue
-
                 if transform_to_robot_frame and self.robot is not None:
                     filtered_poses[idx_tree] = ObjectPose(
                         position=self.robot.pose.transform_position_to_relative(
-- 
2.43.0


From 1a55cab37157588c97536ff7cd3c72a4eb92ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 073/122] fix: raised body parts were turned to the opposite
 side

---
 nonlinear_avoidance/multi_body_human.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index cd58832..4210c95 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -429,8 +429,12 @@ class MultiBodyObstacle:
 
         if rotvec_norm := np.linalg.norm(rot_vec):
             rot_vec = rot_vec / rotvec_norm
-            theta = np.arcsin(rotvec_norm)
-            quat = np.hstack((rot_vec * np.cos(theta / 2.0), [np.sin(theta / 2.0)]))
+            theta = np.arctan2(rotvec_norm, axes_direction[2])
+            quat = np.hstack((rot_vec * np.sin(theta / 2.0), [np.cos(theta / 2.0)]))
+
+        elif axes_direction[2] < 0:
+            # Pointing straight down
+            quat = np.array([1.0, 0, 0, 0])
 
         else:
             quat = np.array([0, 0, 0, 1.0])
-- 
2.43.0


From b1771113691ee9904c58b83eb6bb02609798a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 074/122] fix: the learned direction of a region could miss the
 passage to its successor

---
 .../kmeans_learner/kmeans_motion_learner.py           | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3cd8f88..1c44cb8 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -476,17 +476,18 @@ class KMeansMotionLearner:
         # TODO: to the it_max based on the angle bettween -> reach a minimum angle
         # delta_angle = 0.05
         for ii in range(it_max):
-            mean_diection = get_directional_weighted_sum(
+            mean_direction = get_directional_weighted_sum(
                 direction,
                 weights=np.array([0.5, 0.5]),
                 directions=np.vstack((direction, parent_direction)).T,
             )
-            if self._is_pointing_towards_parent(parent_direction, ind_node, ind_parent):
-                parent_direction = mean_diection
+            if self._is_pointing_towards_parent(mean_direction, ind_node, ind_parent):
+                parent_direction = mean_direction
             else:
-                direction = mean_diection
+                direction = mean_direction
 
-        return direction
+        # The parent-direction is the one which is ensured to point towards the parent
+        return parent_direction
 
     def _is_pointing_towards_parent(
         self, direction: Vector, ii_node: int, ii_parent: int
-- 
2.43.0


From 7dfacc5efd0aaeb13146d00aa5bd5d05ee666733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 075/122] fix: normal of a region exactly on its surface failed
 with a single neighbour and used the wrong plane otherwise

---
 .../kmeans_learner/kmeans_obstacle.py         | 32 ++++++-------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index eb342c1..57af0e8 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -396,32 +396,18 @@ class KMeansObstacle(Obstacle):
 
         elif position_norm == surf_norm:
             # Surface points cannot be disregarded --- we're exactly on it(!)
-            ind_closest = np.argsort(
-                LA.norm(
-                    self.kmeans.cluster_centers_[self.ind_relevant, :]
-                    - np.tile(self.center_position, (len(self.ind_relevant), 1)),
-                    axis=0,
-                )
-            )
-            # breakpoint()
-
-            dist = LA.norm(
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.center_position
-            )
+            distances_surface = self._get_normal_distances(position, is_boundary=False)
+            distances_surface[self._index] = position_norm - self.radius
 
-            if dist >= self.radius:
-                normal = relative_position / LA.norm(relative_position)
-                if self.is_boundary:
-                    normal = (-1) * normal
-                return normal
+            # The point lies on the wall (or ball) which has the largest distance
+            indexes = self.ind_relevant_and_self
+            ind_closest = indexes[np.argmax(distances_surface[indexes])]
 
-            normal_plane = (
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[1]], :]
-            )
+            if ind_closest == self._index:
+                normal = relative_position / position_norm
+            else:
+                normal = self.normal_directions[ind_closest, :]
 
-            normal = normal_plane / LA.norm(normal_plane)
             if self.is_boundary:
                 normal = (-1) * normal
             return normal
-- 
2.43.0


From 56c61b9106bf46f6c4ce0389adcc045fcd2f216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 076/122] fix: a region on its surface took the last cluster as
 transparent when there was none, and hardly ever recognised the gap

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 57af0e8..4b692d1 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -261,9 +261,13 @@ class KMeansObstacle(Obstacle):
 
                 ind_transparent = self.successor_index[0]
 
-            if np.dot(
-                surf_position - self.inbetween_points[ind_transparent, :],
-                self.normal_directions[ind_transparent, :],
+            if ind_transparent not in self.ind_relevant or not math.isclose(
+                np.dot(
+                    surf_position - self.inbetween_points[ind_transparent, :],
+                    self.normal_directions[ind_transparent, :],
+                ),
+                0,
+                abs_tol=1e-9 * self.radius,
             ):
                 # NOT on the transparent surface
                 return 1.0
-- 
2.43.0


From d6d0bd27e94152a216d885dbd8637587c1c762c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 077/122] fix: direction and surface of a region at its centre
 changed the position of the caller

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 4b692d1..b01a47f 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -381,11 +381,10 @@ class KMeansObstacle(Obstacle):
         relative_position = position - self.center_position
         if not (position_norm := LA.norm(relative_position)):
             # Some direction (normed).
-            position[0] = 1
-            if self.is_boundary:
-                position = (-1) * position
+            normal = np.zeros(self.dimension)
+            normal[0] = -1 if self.is_boundary else 1
 
-            return position
+            return normal
 
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
@@ -540,6 +539,7 @@ class KMeansObstacle(Obstacle):
             direction = direction / dir_norm
         else:
             # Random value
+            direction = np.zeros(self.dimension)
             direction[0] = 1
 
         # Default guess: point is on the circle-surface
-- 
2.43.0


From ad5667335ccfa502de8008d5cc513196793c9a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 078/122] fix: gamma of a region outside was lost when it is no
 boundary

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index b01a47f..44266f3 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -364,7 +364,7 @@ class KMeansObstacle(Obstacle):
             mean_dist = np.sum(weights * distances_surface)
             # Normal obstacle
             if mean_dist > 0:
-                mean_dist / self.radius + 1
+                return mean_dist / self.radius + 1
 
             else:
                 # Proportional inside
-- 
2.43.0


From 34b77def4b337a58973d31520828fa45ed820789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 079/122] fix: position in between a region and its neighbour
 ignored the neighbour

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 44266f3..b605ca2 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -127,7 +127,7 @@ class KMeansObstacle(Obstacle):
         return inbetween_points
 
     def get_inbetween_position(self, index) -> Vector:
-        return self._inbetween_points[self.ind_relevant, :]
+        return self.inbetween_points[index, :]
 
     @property
     def num_relevant(self) -> int:
-- 
2.43.0


From 4608b097dd0e4964b0620123d434a4abd6fba1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:48 +0000
Subject: [PATCH 080/122] fix: removing several sparse clusters mixed up the
 labels of the samples

---
 .../kmeans_learner/kmeans_motion_learner.py   | 35 ++++++++-----------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 1c44cb8..e6e4101 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -231,31 +231,24 @@ class KMeansMotionLearner:
             _cluster_removal_factor * self.data.n_samples / self.n_clusters
         )
 
-        n_delta_label = 0
-        for ii in range(self.kmeans.n_clusters):
-            ind_label = ii == self.kmeans.labels_
-
-            if np.sum(ind_label) < min_num_of_samples:
-                # Remove emtpy clusters
-                self.kmeans.n_clusters = self.kmeans.n_clusters - 1
+        ii = 0
+        while ii < self.kmeans.n_clusters:
+            if np.sum(self.kmeans.labels_ == ii) >= min_num_of_samples:
+                ii += 1
+                continue
 
-                self.kmeans.cluster_centers_ = np.delete(
-                    self.kmeans.cluster_centers_, obj=ii - n_delta_label, axis=0
-                )
+            # Remove emtpy clusters
+            self.kmeans.n_clusters = self.kmeans.n_clusters - 1
 
-                n_delta_label += 1
-                logger.info(f"Removed cluster with label {ii}.")
-                # print(f"Removed cluster with label {ii}.")
+            self.kmeans.cluster_centers_ = np.delete(
+                self.kmeans.cluster_centers_, obj=ii, axis=0
+            )
 
-                self.kmeans.labels_[ind_label] = self.kmeans.predict(
-                    self.data.position[ind_label, :]
-                )
+            logger.info(f"Removed cluster with label {ii}.")
+            # print(f"Removed cluster with label {ii}.")
 
-            elif n_delta_label:
-                # Update labels to have sequence of numbers
-                self.kmeans.labels_[ind_label] = (
-                    self.kmeans.labels_[ind_label] - n_delta_label
-                )
+            # All samples go to the closest of the remaining clusters
+            self.kmeans.labels_ = self.kmeans.predict(self.data.position)
 
     def _fit_new_clusters_to_missfitting_datapoints(self):
         # TODO:
-- 
2.43.0


From cc5ea46192ca6b1dcd88995f6106e37848df66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:52 +0000
Subject: [PATCH 081/122] fix: a learner created from centres had no dynamics
 outside of its regions

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index e6e4101..22efb6a 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -104,6 +104,11 @@ class KMeansMotionLearner:
         new_instance._fit_region_obstacles()
         new_instance._fit_local_dynamics()
 
+        new_instance.outside_dynamics = LinearSystem(
+            attractor_position=new_instance.data.attractor_position,
+            maximum_velocity=1.0,
+        )
+
         return new_instance
 
     @property
-- 
2.43.0


From f5c1a406eeab770e1b7e393fc2205818b44a9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 082/122] fix: lyapunov gradient of a region failed or used
 rows as directions

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 22efb6a..973df8a 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -858,11 +858,11 @@ class KMeansMotionLearner:
                 ii_abs
             ].get_lyapunov_gradient_direction(position)
 
-        if directions[1].shape[0] == 1:
+        if directions.shape[1] == 1:
             return directions[:, 0]
 
         mean_direction = get_directional_weighted_sum(
-            directions[np.argmax(sequence_weights[ind_nonzero])],
+            directions[:, np.argmax(sequence_weights[ind_nonzero])],
             weights=sequence_weights[ind_nonzero],
             directions=directions,
         )
-- 
2.43.0


From 0992a6eba75463212c857cd0059f3a45e85dac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 083/122] fix: gamma and normal of a region were nan for
 positions on its surface up to rounding

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index b605ca2..8de07bc 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -243,7 +243,8 @@ class KMeansObstacle(Obstacle):
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
 
-        if position_norm < surf_norm:
+        on_surface = math.isclose(position_norm, surf_norm)
+        if position_norm < surf_norm and not on_surface:
             # Project towards the outside
             proj_position = relative_position * (surf_norm / position_norm) ** 2
             proj_position_norm = LA.norm(proj_position)
@@ -251,7 +252,7 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
+        elif on_surface:
             # Surface points cannot be disregarded yet, since we need to check for
             # transition regions
             if ind_transparent is None:
@@ -389,7 +390,8 @@ class KMeansObstacle(Obstacle):
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
 
-        if position_norm < surf_norm:
+        on_surface = math.isclose(position_norm, surf_norm)
+        if position_norm < surf_norm and not on_surface:
             # Project towards the outside
             proj_position = relative_position * (surf_norm / position_norm) ** 2
             proj_position_norm = LA.norm(proj_position)
@@ -397,7 +399,7 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
+        elif on_surface:
             # Surface points cannot be disregarded --- we're exactly on it(!)
             distances_surface = self._get_normal_distances(position, is_boundary=False)
             distances_surface[self._index] = position_norm - self.radius
-- 
2.43.0


From 9c71265691c3598c32d98739a184909a80d3eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 084/122] fix: a fitted gaussian obstacle used the cholesky
 factor as the precision: levels and normals did not belong to its ellipses

---
 nonlinear_avoidance/gmm_obstacle.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index b6a18e4..4b7105a 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -485,16 +485,19 @@ class GmmObstacle:
         exp_value = np.exp(
             (-0.5)
             * delta_dist.T
-            @ self._gmm.precisions_cholesky_[index, :, :]
+            @ self._get_precision(index)
             @ delta_dist
             * powerfactor
         )
         deriv_factor = (-0.5) * self._precisions_cholesky_[index, :, :] @ delta_dist
         return (powerfactor * deriv_factor) * fraction_value * exp_value
 
+    def _get_precision(self, index: int) -> np.ndarray:
+        return LA.pinv(self._gmm.covariances_[index, :, :])
+
     def get_gamma_proportional(self, position: Vector, index: int) -> float:
         delta_dist = position - self._gmm.means_[index, :]
-        gamma = delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist
+        gamma = delta_dist.T @ self._get_precision(index) @ delta_dist
         return np.sqrt(gamma) / self.variance_factor
 
     def get_gamma_derivative(
@@ -506,10 +509,10 @@ class GmmObstacle:
         d_gamma = (
             powerfactor
             / 2.0
-            * (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            * (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (powerfactor / 2.0 - 1)
             * self.variance_factor ** (-1 * powerfactor)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self._get_precision(index)
             @ delta_dist
         )
 
@@ -583,10 +586,10 @@ class GmmObstacle:
         delta_dist = position - self._gmm.means_[index, :]
 
         d_gamma = (
-            (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (1.0 / 2.0 - 1)
             * self.variance_factor ** (-1)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self._get_precision(index)
             @ delta_dist
         )
 
-- 
2.43.0


From 095acd7b91e5a24196dbca38d47ee80f4627bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 085/122] fix: root of a gaussian obstacle was not the
 component closest to the mean

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 4b7105a..12e3d1c 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -132,7 +132,7 @@ class GmmObstacle:
         mean_center = np.mean(self._gmm.means_, axis=0)
 
         ind_closest = np.argmin(
-            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=0)
+            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=1)
         )
 
         self._reference_points[:, ind_closest] = self._gmm.means_[ind_closest, :]
-- 
2.43.0


From 5e5a06af294e9721249f0a64d2b71edaed57040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 086/122] fix: ellipses of a gaussian obstacle were turned the
 wrong way

---
 nonlinear_avoidance/gmm_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 12e3d1c..6b5c107 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -428,8 +428,8 @@ class GmmObstacle:
 
         obstacle_environment = ObstacleContainer()
         for ii in range(self.n_gmms):
-            uu = self._axes_directions[:, :, ii][0] / LA.norm(
-                self._axes_directions[:, :, ii][0]
+            uu = self._axes_directions[:, 0, ii] / LA.norm(
+                self._axes_directions[:, 0, ii]
             )
             angle = np.arctan2(uu[1], uu[0])
 
-- 
2.43.0


From 9b74e00b4d7051451ca9fe61ca2d247297100a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 087/122] fix: axes of a gaussian obstacle with one component
 were not evaluated with its hierarchy

---
 nonlinear_avoidance/gmm_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 6b5c107..a60791e 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -143,6 +143,9 @@ class GmmObstacle:
         remaining_list = np.arange(self.n_gmms).tolist()
         del remaining_list[ind_closest]
 
+        # By default also update axes length and direction
+        self.evaluate_axes_length_and_direction()
+
         if not remaining_list:
             # Only has one element
             return
@@ -171,9 +174,6 @@ class GmmObstacle:
                 indices=[value, parent_value]
             )
 
-            # By default also update axes length and direction
-            self.evaluate_axes_length_and_direction()
-
     #     for ii in range(self.n_gmms):
     #         if ii == ind_closest:
     #             continue
-- 
2.43.0


From 3e809df9009d436fc5fbf13257b7204b6d7609fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 088/122] fix: normal of a gaussian obstacle at the centre of a
 component was nan

---
 nonlinear_avoidance/gmm_obstacle.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index a60791e..2470060 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -585,13 +585,8 @@ class GmmObstacle:
         """Get normal direction of obstacle =>"""
         delta_dist = position - self._gmm.means_[index, :]
 
-        d_gamma = (
-            (delta_dist.T @ self._get_precision(index) @ delta_dist)
-            ** (1.0 / 2.0 - 1)
-            * self.variance_factor ** (-1)
-            * self._get_precision(index)
-            @ delta_dist
-        )
+        # Only the direction is needed, the positive scaling-factor is ignored
+        d_gamma = self._get_precision(index) @ delta_dist
 
         dgamma_norm = LA.norm(d_gamma)
         if dgamma_norm:
-- 
2.43.0


From e496992566abf8c599e51c72ad42fc66a3e43c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 089/122] fix: mean reference of a gaussian obstacle started
 from the first component instead of the root

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 2470060..ca78fd8 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -293,7 +293,7 @@ class GmmObstacle:
             )
 
         # Get root
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         if self.relative_weights[ind_root]:
             base_vector = reference_directions[:, ind_root]
         else:
-- 
2.43.0


From 301b464430bf5c58b2443bc33e18b3da04698d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 090/122] fix: normals of components of a gaussian obstacle
 counted fully as soon as they had any weight

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index ca78fd8..01563b8 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -287,7 +287,7 @@ class GmmObstacle:
                 position, index
             )
 
-            delta_normal += (
+            delta_normal += self.relative_weights[index] * (
                 self.get_normal_direction(position, index)
                 - reference_directions[:, index]
             )
-- 
2.43.0


From 33d42afb3bedb41bf2b9306157a8880838d5af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 091/122] fix: mean normal of a gaussian obstacle was nan where
 normal and reference agree

---
 nonlinear_avoidance/gmm_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 01563b8..b7eb0f8 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -310,6 +310,7 @@ class GmmObstacle:
         if not LA.norm(delta_normal):
             # Trivial case
             self.mean_normal = self.mean_reference
+            return
 
         dot_prod = (-1) * (
             np.dot(delta_normal, self.mean_reference) / LA.norm(delta_normal)
-- 
2.43.0


From 7a6b8063a0e6e1ef13c9e7c87bd55427d5ce29f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 092/122] fix: setting a kernel point of a gaussian obstacle
 had no effect

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index b7eb0f8..6e13325 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -113,7 +113,7 @@ class GmmObstacle:
         return self._reference_points[:, index]
 
     def set_kernel_point(self, value: Vector, index: int) -> None:
-        self._reference_points[:, index]
+        self._reference_points[:, index] = value
 
     def get_center_position(self, index: int) -> Vector:
         return self._gmm.means_[index, :]
-- 
2.43.0


From 05696806411cae47517bcfa784b2c09b4ff553ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 093/122] fix: relative orientation of the components of a
 gaussian obstacle failed

---
 nonlinear_avoidance/gmm_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 6e13325..2d1a89b 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -234,8 +234,9 @@ class GmmObstacle:
             ind_parent = self.gmm_index_graph.get_parent(ii)
             if ind_parent is None:
                 gmm_directions.append(None)
+                continue
 
-            delta_dir_parent = self.get_kernel_position(ii) - self.get_center_position(
+            delta_dir_parent = self.get_kernel_point(ii) - self.get_center_position(
                 ind_parent
             )
             delta_dir = self.get_center_position(ii) - self.get_kernel_point(ii)
-- 
2.43.0


From d86323fa9bc90b8bf7e8a2eda78cb8833db93367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 094/122] fix: root of a gaussian obstacle turned velocities
 which lead away and kept those which lead in

---
 nonlinear_avoidance/gmm_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 2d1a89b..2c5edc5 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -209,7 +209,7 @@ class GmmObstacle:
                 )
 
     def get_root_rotation_direction(self, position: Vector, velocity: Vector) -> Vector:
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         kernel_direction = position - self.get_kernel_point(ind_root)
         kernal_norm = LA.norm(kernel_direction)
         if not kernal_norm:
@@ -217,8 +217,8 @@ class GmmObstacle:
             return velocity
 
         kernel_direction = kernel_direction / kernal_norm
-        if np.dot(kernel_direction, velocity) < 1:
-            # Velocity is already pointing away - the main kernel does need to guide
+        if np.dot(kernel_direction, velocity) > 0:
+            # Velocity is already pointing away - the main kernel does not need to guide
             return velocity
 
         # Project to be orthogonal to the 'kernel_direction'
-- 
2.43.0


From d7f66305a2b3271c518fe31c087364dbb1dea8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 095/122] fix: a far obstacle hid the slowing down at a close
 one in the rotational avoider

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index ec07280..e318670 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -452,7 +452,8 @@ class RotationalAvoider(BaseAvoider):
         it_min = None
         for ii in range(len(gammas)):
             # Under the assumption of normalized input vectors
-            dot_prod = np.dot(modulated_velocity, normals[:, ii])
+            # (the effect of an obstacle decreases with the distance)
+            dot_prod = np.dot(modulated_velocity, normals[:, ii]) / gammas[ii]
 
             if dot_prod < min_dot_prod:
                 min_dot_prod = dot_prod
@@ -464,7 +465,7 @@ class RotationalAvoider(BaseAvoider):
         modulated_velocity = (
             modulated_velocity
             * initial_magintude
-            * (1 + (1 / gammas[it_min]) * min_dot_prod)
+            * (1 + min_dot_prod)
         )
 
         return modulated_velocity
-- 
2.43.0


From 50a5af796226c924d61b8d64d699c543b1059fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 096/122] fix: convergence radius of single obstacles was
 ignored for their tangent and weight

---
 .../avoidance/rotational_avoider.py           | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index e318670..73c8044 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -982,11 +982,15 @@ class RotationalAvoider(BaseAvoider):
         vector_reference: np.ndarray,
         vector_convergence: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> float:
         """
         dir_reference and dir_convergence are expected to be in the the direction-space, with respect
         to the negative of the normal
         """
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_reference = UnitDirection(base).from_vector(vector_reference).as_angle()
         dir_convergence = UnitDirection(base).from_vector(vector_convergence).as_angle()
 
@@ -997,11 +1001,11 @@ class RotationalAvoider(BaseAvoider):
         if weight >= 1.0:
             return 1.0
 
-        if np.linalg.norm(dir_convergence) >= self.convergence_radius:
+        if np.linalg.norm(dir_convergence) >= convergence_radius:
             return weight
         # MAYBE: incorporate this in the tangent length(?)
         continuation_weight = np.linalg.norm(dir_convergence - dir_reference)
-        radius_factor = self.convergence_radius - np.linalg.norm(dir_reference)
+        radius_factor = convergence_radius - np.linalg.norm(dir_reference)
         radius_factor = min(radius_factor, np.pi * 0.5)
         continuation_weight = continuation_weight / radius_factor
 
@@ -1019,12 +1023,16 @@ class RotationalAvoider(BaseAvoider):
         vector_convergence: np.ndarray,
         vector_reference: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> np.ndarray:
         """Input and output are expected in the directional-space with respect to
         the negative normal."""
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_convergence = UnitDirection(base).from_vector(vector_convergence)
         if (
-            np.linalg.norm(dir_convergence.as_angle()) >= self.convergence_radius
+            np.linalg.norm(dir_convergence.as_angle()) >= convergence_radius
             and not self.tail_rotation
         ):
             return vector_convergence
@@ -1034,7 +1042,7 @@ class RotationalAvoider(BaseAvoider):
         dir_convergence_tangent = RotationalAvoider.get_tangent_convergence_direction(
             dir_convergence=dir_convergence.as_angle(),
             dir_reference=dir_reference.as_angle(),
-            convergence_radius=self.convergence_radius,
+            convergence_radius=convergence_radius,
         )
         # breakpoint()
         return UnitDirection(base).from_angle(dir_convergence_tangent).as_vector()
@@ -1087,14 +1095,17 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, reference_vector, convergence_vector, base
+            gamma, reference_vector, convergence_vector, base, convergence_radius
         )
 
         if weight <= 0:
             return nonlinear_velocity
 
         vector_convergence_tangent = self.get_pseudo_tangent(
-            convergence_vector, reference_vector, base=base
+            convergence_vector,
+            reference_vector,
+            base=base,
+            convergence_radius=convergence_radius,
         )
 
         # This is now replacing the 'general_weighted_sum'
-- 
2.43.0


From a7b29d71cc2fcc4e34a000bb9cc67ca1634f1820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 097/122] fix: crop the velocities of a sample, not its
 neighbours

---
 .../gmm_learner/learner/directional_gmm.py            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index daea828..01735f2 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -115,7 +115,11 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             values = values / np.tile(self.scale_x[dims_ind], (n_samples, 1))
 
         if self.crop_vel is not None:
-            velocities = values[self.dim_space : self.dim_space * 2]
+            dims_ind = np.asarray(dims_ind)
+            ind_vel = np.logical_and(
+                dims_ind >= self.dim_space, dims_ind < self.dim_space * 2
+            )
+            velocities = values[:, ind_vel]
             mag_vel = np.linalg.norm(velocities, axis=1)
             ind_large = mag_vel > self.crop_vel
 
@@ -123,10 +127,11 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 values = np.copy(values)
                 velocities[ind_large, :] = (
                     velocities[ind_large, :]
-                    / np.tile(mag_vel[ind_large], (values.shape[1], 1)).T
+                    / np.tile(mag_vel[ind_large], (velocities.shape[1], 1)).T
+                    * self.crop_vel
                 )
 
-                values[self.dim_space : self.dim_space * 2, :] = velocities
+                values[:, ind_vel] = velocities
         return values
 
     def transform_normalized_to_initial(self, values, dims_ind):
-- 
2.43.0


From 0d8be454340a43b135b50ae5cd71143740ce0f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 098/122] fix: weights of a learned field do not depend on the
 other samples

---
 .../gmm_learner/learner/directional_gmm.py               | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 01735f2..e6aa6ae 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -397,8 +397,13 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # Add zero velocity
             mu_yx = np.dstack((mu_yx, np.zeros((dim_out, n_samples, 1))))
 
-        beta_norm = np.sum(beta)
-        beta = beta / beta_norm * (beta_norm**self.beta_power)
+        beta_norm = np.sum(beta, axis=0)
+        ind_nonzero = beta_norm > 0
+        beta[:, ind_nonzero] = (
+            beta[:, ind_nonzero]
+            / beta_norm[ind_nonzero]
+            * (beta_norm[ind_nonzero] ** self.beta_power)
+        )
 
         regression_value = np.sum(np.tile(beta.T, (dim_out, 1, 1)) * mu_yx, axis=2).T
 
-- 
2.43.0


From c18d426973fd96a3975b5150ce5014ba1afc46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 099/122] fix: predicted directions keep the order of the
 learned ones

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index e6aa6ae..3b0629c 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -347,7 +347,9 @@ class DirectionalGMM(Learner, LearnerVisualizer):
 
         if feat_out is None:
             # Default only the 'direction' at the end; additional -1 for indexing at end
-            feat_out = self.dim_gmm - 1 - np.arange(self.dim_space - 1)
+            feat_out = self.dim_gmm - (self.dim_space - 1) + np.arange(
+                self.dim_space - 1
+            )
         dim_out = np.array(feat_out).shape[0]
 
         if input_output_normalization:
-- 
2.43.0


From 860735e27db011f4747f55a494282f706d3acd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 100/122] fix: convergence to the attractor stays as it was
 chosen

---
 .../gmm_learner/learner/directional_gmm.py               | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 3b0629c..61e058a 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -11,6 +11,7 @@ import warnings
 from math import pi
 
 from functools import lru_cache
+from typing import Optional
 
 import numpy as np
 
@@ -332,7 +333,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         input_output_normalization=True,
         feat_in=None,
         feat_out=None,
-        convergence_attractor: None = False,
+        convergence_attractor: Optional[bool] = None,
         p_beta=2,
         beta_min=0.5,
         beta_r=0.3,
@@ -365,10 +366,10 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         # X=X, mean=mu_yx, covariance_matrices=covariance_output)
         # breakpoint()
         # estimate_normals = mu_yx
-        if convergence_attractor is not None:
-            self.convergence_attractor = convergence_attractor
+        if convergence_attractor is None:
+            convergence_attractor = self.convergence_attractor
 
-        if self.convergence_attractor:
+        if convergence_attractor:
             if self.pos_attractor is None:
                 raise ValueError("Convergence to attractor without attractor...")
 
-- 
2.43.0


From 4b8e45b42cfb44384cb67b86fb7fcaa7fff29f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 101/122] fix: weights of the converging field sum up to one

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 61e058a..ec53189 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -394,7 +394,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 -p_beta
             ) + beta_min
             beta[:, ind_nonzero] = beta[:, ind_nonzero] / np.tile(
-                np.linalg.norm(beta[:, ind_nonzero], axis=0), (self.n_gaussians + 1, 1)
+                np.sum(beta[:, ind_nonzero], axis=0), (self.n_gaussians + 1, 1)
             )
 
             # Add zero velocity
-- 
2.43.0


From 6ba81864803507d5c1c5df8a110b93f9445ff775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 102/122] fix: directions are learned relative to the dynamics
 they are predicted with

---
 .../gmm_learner/learner/directional_gmm.py    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index ec53189..b511d40 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -201,19 +201,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 (t, np.linspace(0, 1, self.dataset["data"][0, it_set].shape[1]))
             )
 
-        direction = get_angle_space_of_array(
-            directions=self.vel.T,
-            positions=self.pos.T,
-            func_vel_default=LinearSystem(dimension=self.dim_space).evaluate,
-        )
-
-        self.X = np.hstack((self.pos, self.vel, direction.T))
-
-        self.X = self.normalize_velocity(self.X)
-
-        self.num_samples = self.X.shape[0]
-        self.dim_gmm = self.X.shape[1]
-
         weightDir = 4
 
         if attractor is None:
@@ -243,6 +230,19 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x, center_position=self.pos_attractor)
             self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
+        direction = get_angle_space_of_array(
+            directions=self.vel.T,
+            positions=self.pos.T,
+            func_vel_default=self.null_ds.evaluate,
+        )
+
+        self.X = np.hstack((self.pos, self.vel, direction.T))
+
+        self.X = self.normalize_velocity(self.X)
+
+        self.num_samples = self.X.shape[0]
+        self.dim_gmm = self.X.shape[1]
+
         if self.has_path_completion:
             # TODO
             raise NotImplementedError()
-- 
2.43.0


From de9a47e55234308898616d1e59ae57b8edaa1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 103/122] fix: the learner accepts the attractor it is given

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index b511d40..4b00181 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -275,8 +275,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             self.meanX = None
             self.varX = None
 
-            self.pos_attractor = pos_attractor
-
     def regress(self, *args, **kwargs):
         # TODO: remove
         return self.fit(*args, **kwargs)
-- 
2.43.0


From a18f8d652d830083a8737f9ae7945772d5cdcfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 104/122] fix: trajectories of the learned field are integrated
 to its attractor

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 4b00181..1ec96c0 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -609,7 +609,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x_traj[:, 1, ii]= rk4(delta_t, x_traj[:, 0, ii], self.predict)
             # xd = x_traj[:, 1, ii] - x_traj[:, 0, ii]
 
-            xd = self.predict2(x_traj[:, 0, ii])
+            xd = self.predict(x_traj[:, 0, ii])
             x_traj[:, 1, ii] = x_traj[:, 0, ii] + xd * delta_t
 
             for nn in range(2, num_steps):
@@ -636,7 +636,9 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 # print('xd', xd)
                 x_traj[:, nn, ii] = x_traj[:, nn - 1, ii] + xd * delta_t
 
-                if np.linalg.norm(x_traj[:, nn, ii]) < convergence_err:
+                distance = x_traj[:, nn, ii] - self.null_ds.attractor_position
+                if np.linalg.norm(distance) < convergence_err:
+                    x_traj[:, nn + 1 :, ii] = x_traj[:, nn, ii].reshape(-1, 1)
                     print(f"Converged after {nn} iterations.")
                     break
 
-- 
2.43.0


From 3090e41cc661f2603a38c4ad64dfdc6db8639b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 105/122] fix: trajectories of learners converge to the
 attractor

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 714b2f6..4170cbf 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -157,7 +157,11 @@ class Learner(ABC):
                     delta_t, trajectory_list[:, nn - 1, ii], self.predict
                 )
 
-                if np.linalg.norm(trajectory_list[:, nn, ii]) < convergence_margin:
+                distance = trajectory_list[:, nn, ii] - self.null_ds.attractor_position
+                if np.linalg.norm(distance) < convergence_margin:
+                    trajectory_list[:, nn + 1 :, ii] = trajectory_list[
+                        :, nn, ii
+                    ].reshape(-1, 1)
                     print(f"Converged after {nn} iterations.")
                     break
 
-- 
2.43.0


From b22c909528f7f85fa64e98d54556ee51dfbf22a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 106/122] fix: null dynamics of arrays are evaluated at the
 positions

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 4170cbf..319aaa0 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -112,7 +112,7 @@ class Learner(ABC):
         # directions_angle_space = np.zeros(directions_angle_space.shape)
         velocities = get_angle_space_inverse_of_array(
             vecs_angle_space=directions_angle_space.T,
-            positions=xx,
+            positions=xx[: self.dim_space],
             # func_vel_default=self.null_ds,
             default_system=self.null_ds,
         )
-- 
2.43.0


From 07268601645a511a05f246b3a76bfc06ef54d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 107/122] fix: a learned field is at rest where its null
 dynamics is

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 319aaa0..4e7570c 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -81,6 +81,9 @@ class Learner(ABC):
         dir_angle_space = dir_angle_space[0, : self.dim - 1]
 
         null_direction = self.null_ds.evaluate(xx[: self.dim_space])
+        if not np.any(null_direction):
+            return null_direction
+
         velocity = get_angle_space_inverse(
             dir_angle_space=dir_angle_space, null_direction=null_direction
         )
-- 
2.43.0


From d334b6487bf2642ef48eadc0ac19b855c078f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 108/122] fix: every demonstration counts for the attractor of
 the GPR

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 6d64e99..34e95c1 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -80,7 +80,9 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         t = np.linspace(0, 1, self.dataset["data"][0, ii].shape[1])
 
-        pos_attractor = np.zeros((self.dim))
+        pos_attractor = (
+            self.dataset["data"][0, ii][:2, -1].T / self.dataset["data"].shape[1]
+        )
 
         for it_set in range(1, self.dataset["data"].shape[1]):
             self.pos = np.vstack((self.pos, self.dataset["data"][0, it_set][:2, :].T))
-- 
2.43.0


From c6ae76c41e0c2b52b2ba5106f38a7b108b9aa8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 109/122] fix: every demonstration counts for the attractor of
 the SVR

---
 nonlinear_avoidance/gmm_learner/learner/svr_directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 079ad7d..97dd4f1 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -101,7 +101,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         if attractor is None:
             pos_attractor = np.zeros((self.dim))
 
-            for it_set in range(1, self.dataset["data"].shape[1]):
+            for it_set in range(self.dataset["data"].shape[1]):
                 pos_attractor = (
                     pos_attractor
                     + self.dataset["data"][0, it_set][:2, -1].T
-- 
2.43.0


From 1751eea11dace9184a3a3230dfc196ced165c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 110/122] fix: the GPR learns directions relative to the
 dynamics it predicts with

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 34e95c1..ea068ec 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -119,7 +119,6 @@ class DirectionalGPR(LearnerVisualizer, Learner):
         weightDir = 4
 
         # 2D system
-        linear_dynamics = LinearSystem(attractor_position=np.zeros(2))
         if n_samples is not None:
             # Large number of samples should be chosen to avoid
             ind = np.random.choice(n_input, size=n_samples, replace=False)
@@ -130,13 +129,13 @@ class DirectionalGPR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=linear_dynamics.evaluate,
+                func_vel_default=self.null_ds.evaluate,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=linear_dynamics.evaluate,
+                func_vel_default=self.null_ds.evaluate,
             )
 
             self.n_samples = n_input
-- 
2.43.0


From c43f4a4d82902144eb6a781b6a95d7aaed586a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 111/122] fix: the null dynamics of the SVR can be evaluated by
 the prediction

---
 .../gmm_learner/learner/svr_directional.py         | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 97dd4f1..502a78f 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -34,7 +34,7 @@ from nonlinear_avoidance.gmm_learner.math_tools import mag_linear_maximum
 from nonlinear_avoidance.gmm_learner.learner.base import Learner
 from nonlinear_avoidance.gmm_learner.learner.visualizer import LearnerVisualizer
 
-from vartools.dynamicalsys.closedform import evaluate_linear_dynamical_system
+from vartools.dynamical_systems import LinearSystem
 from vartools.directional_space import get_angle_space, get_angle_space_inverse
 from vartools.directional_space import get_angle_space_of_array
 from vartools.directional_space import get_angle_space_inverse_of_array
@@ -110,9 +110,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
                 print("pos_attractor", self.dataset["data"][0, it_set][:2, -1].T)
 
             self.pos_attractor = pos_attractor
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         elif attractor is False:
             # Does not have attractor
@@ -121,9 +119,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         else:
             self.pos_attractor = np.array(attractor)
 
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         self.X = self.pos
 
@@ -143,13 +139,13 @@ class DirectionalSVR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
 
             self.n_samples = n_input
-- 
2.43.0


From ebc5ef73f85fba793bdfc4c32b0289003a2519ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 112/122] fix: best choice of parent is judged by its weight

---
 nonlinear_avoidance/gmm_learner/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index f92096d..f9ab4cb 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -346,7 +346,9 @@ class GraphGMM(MultiBoundaryContainer):
                         # and then reitarate, i.e. make an optimal sequence / graph
                         ind_critical = [child for par, child in list_parent_child]
                         ind_child = np.argmax(
-                            weights_without_self[ind_critical, it_pref]
+                            weights_without_self[
+                                ind_critical, parents_preference[ind_critical, it_pref]
+                            ]
                         )
                         ind_child = ind_critical[ind_child]
 
-- 
2.43.0


From fbb99834fd6bacd50abc2e4ac22e37fd3842a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 113/122] fix: trajectories start at their starting points

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 4e7570c..1236e63 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -153,6 +153,7 @@ class Learner(ABC):
         else:
             n_trajectories = starting_points.shape[1]
             trajectory_list = np.zeros((self.dim, n_steps, n_trajectories))
+            trajectory_list[:, 0, :] = starting_points
 
         for ii in range(n_trajectories):
             for nn in range(1, n_steps):
-- 
2.43.0


From a5e53d47c2ee283c4b97c91f8b6fb3d70c7764f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 114/122] fix: trajectories of the learned field start at their
 starting points

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 1ec96c0..7695554 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -602,6 +602,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         else:
             nTraj = starting_points.shape[1]
             x_traj = np.zeros((self.dim, num_steps, nTraj))
+            x_traj[:, 0, :] = starting_points
 
         # Do the first step without velocity
         print("Doint the integration.")
-- 
2.43.0


From 0e256896ac5071102849b25d3388f066ff9f3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 115/122] fix: demonstrations can end at the attractor

---
 nonlinear_avoidance/gmm_learner/learner/base.py            | 7 +++++++
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 4 ++--
 nonlinear_avoidance/gmm_learner/learner/svr_directional.py | 4 ++--
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 1236e63..41b0586 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -37,6 +37,13 @@ class Learner(ABC):
         """Fit the chosen learner onto the daat."""
         pass
 
+    def get_null_direction(self, position):
+        """Null dynamics; at its attractor, where it has no direction, any of them."""
+        direction = self.null_ds.evaluate(position)
+        if not np.any(direction):
+            direction = np.eye(direction.shape[0])[0]
+        return direction
+
     def evaluate(self, position):
         return self.predict(xx=position)
 
diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 7695554..c3d1195 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -233,7 +233,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         direction = get_angle_space_of_array(
             directions=self.vel.T,
             positions=self.pos.T,
-            func_vel_default=self.null_ds.evaluate,
+            func_vel_default=self.get_null_direction,
         )
 
         self.X = np.hstack((self.pos, self.vel, direction.T))
diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index ea068ec..f2ed9b2 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -129,13 +129,13 @@ class DirectionalGPR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=self.null_ds.evaluate,
+                func_vel_default=self.get_null_direction,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=self.null_ds.evaluate,
+                func_vel_default=self.get_null_direction,
             )
 
             self.n_samples = n_input
diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 502a78f..ebc2ac0 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -139,13 +139,13 @@ class DirectionalSVR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=self.null_ds.evaluate,
+                func_vel_default=self.get_null_direction,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=self.null_ds.evaluate,
+                func_vel_default=self.get_null_direction,
             )
 
             self.n_samples = n_input
-- 
2.43.0


From 37fcb6c70dd2240f75effe8673326b330d73ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 116/122] fix: the graph uses the learner it is given

---
 nonlinear_avoidance/gmm_learner/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index f9ab4cb..f63604c 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -67,7 +67,7 @@ class GraphGMM(MultiBoundaryContainer):
         self._end_points = None
         self._graph_root = None
 
-        self._Learner = DirectionalGMM()
+        self._Learner = LearnerType()
         self._Learner.load_data_from_mat(file_name=file_name)
         self._Learner.regress(n_gaussian=n_gaussian)
 
-- 
2.43.0


From 9460decd0d0167b14cdbd82bb64cf7237b6aff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 117/122] fix: a root without the attractor does not lead to
 the last wall

---
 nonlinear_avoidance/gmm_learner/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_learner/graph.py b/nonlinear_avoidance/gmm_learner/graph.py
index f63604c..02c0279 100644
--- a/nonlinear_avoidance/gmm_learner/graph.py
+++ b/nonlinear_avoidance/gmm_learner/graph.py
@@ -163,6 +163,7 @@ class GraphGMM(MultiBoundaryContainer):
                 self.pos_attractor, in_global_frame=True, relative_gamma=False
             )
             >= 1
+            or self.get_parent(it_obs) < 0
         ):
             local_attractor = self.pos_attractor
         else:
-- 
2.43.0


From 6ee1102ef412bd1fbcc2c0b88002075bbc11d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:25 +0000
Subject: [PATCH 118/122] fix: the measures cover the first runs of each
 method, and only existing ones

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index cf0e70c..9991afe 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -137,12 +137,11 @@ class TrajectoryEvaluator:
         initial_dynamics = SimpleCircularDynamics(dimension=2)
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
-        files_list = os.listdir(datafolder_path)
+        files_list = sorted(os.listdir(datafolder_path))
 
-        if self.n_runs <= 0:
-            self.n_runs = len(files_list)
-        else:
+        if self.n_runs > 0:
             files_list = files_list[: self.n_runs]
+        self.n_runs = len(files_list)
 
         print(f"Evaluating #{self.n_runs} runs.")
 
-- 
2.43.0


From 00425980e9dc1a9e6c67c0be5c4ce86dfd5be879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 119/122] fix: the measures with deviations cover the first
 runs of each method, and only existing ones

---
 .../comparison/evaluation_trajectories_with_std.py         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index e2b2332..85daf7a 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -144,12 +144,11 @@ class TrajectoryEvaluator:
         )
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
-        files_list = os.listdir(datafolder_path)
+        files_list = sorted(os.listdir(datafolder_path))
 
-        if self.n_runs <= 0:
-            self.n_runs = len(files_list)
-        else:
+        if self.n_runs > 0:
             files_list = files_list[: self.n_runs]
+        self.n_runs = len(files_list)
 
         print(f"Evaluating #{self.n_runs} runs.")
 
-- 
2.43.0


From 9a05dc943a4fbc4eb7b3c848a9fddf20cfd0107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 120/122] fix: evaluating twice gives the measures once

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 9991afe..a817ae8 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -145,6 +145,14 @@ class TrajectoryEvaluator:
 
         print(f"Evaluating #{self.n_runs} runs.")
 
+        self.dist_to_path = 0
+        self.squared_acceleration = 0
+        self.squared_error_velocity = 0
+        self.dotprod_err_velocity = 0
+        self.dotprod_acceleration = 0
+        self.n_local_minima = 0
+        self.n_converged = 0
+
         for ii, filename in enumerate(files_list):
             trajectory = np.loadtxt(
                 os.path.join(datafolder_path, filename),
-- 
2.43.0


From ba441daa74121619a3790ed5c1e5aab213ed3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 121/122] fix: evaluating twice counts the runs once

---
 .../comparison/evaluation_trajectories_with_std.py             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 85daf7a..da843f3 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -152,6 +152,9 @@ class TrajectoryEvaluator:
 
         print(f"Evaluating #{self.n_runs} runs.")
 
+        self.n_local_minima = 0
+        self.n_converged = 0
+
         self.dist_to_path_list = np.zeros(self.n_runs)
         self.squared_acceleration_list = np.zeros(self.n_runs)
         self.squared_error_velocity_list = np.zeros(self.n_runs)
-- 
2.43.0


From 2ac431aef157074da740ad7b622e115eb75ba6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 122/122] fix: a comparison can have a single start position

---
 .../comparison/comparison_multiobstacle_vectorfield.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
index 1e62d86..b5fbc87 100644
--- a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
+++ b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
@@ -330,6 +330,7 @@ def evaluate_trajectories(
         delimiter=",",
         dtype=float,
         skiprows=1,
+        ndmin=2,
     )
     start_positions = start_positions.T
 
-- 
2.43.0

