From f3f4d43237fdf0b82da91b71dd3df80f440f3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:30 +0000
Subject: [PATCH 01/53] fix: clip grid cell indices to the last cell in
 compute_keys_tf

A point on the upper face of the bounding box was put in cell num_cells,
whose key aliases the first cell of the next row or of the next batch element.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 5ed51f3..024a6fa 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -43,7 +43,7 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
   cell_ind = tf.cast(cell_ind, tf.int32)
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
-      num_cells)
+      num_cells - 1)
   cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
   keys = point_cloud._batch_ids * cell_multiplier[0] + \
-- 
2.43.0


From 84b0131828520181e032feef87f0d7b9bea4cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 02/53] fix: make find_neighbors_tf run

Adjacent cells were clipped to num_cells instead of the last cell, so gather_nd
raised for centers next to the upper faces, the per center ranges are scalars
that tf.concat rejects, and scalar radii and empty center clouds raised.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 024a6fa..d3be3e6 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -139,13 +139,8 @@ def find_neighbors_tf(grid,
 
   """
   radii = tf.convert_to_tensor(value=radii)
-  radii = tf.cond(
-      tf.logical_or(tf.shape(radii)[0] == [], tf.shape(radii)[0] == 1),
-      lambda: tf.repeat(radii, grid._point_cloud._dimension),
-      lambda: radii)
-  # condition without graph mode
-  # if tf.shape(radii)[0] == [] or tf.shape(radii)[0] == 1:
-  #   radii = tf.repeat(radii, grid._point_cloud._dimension)
+  if radii.shape == [] or radii.shape[0] == 1:
+    radii = tf.repeat(radii, grid._point_cloud._dimension)
   # compute keys of center points in neighbors 2D grid
   center_points = point_cloud_centers._points
   center_batch_ids = point_cloud_centers._batch_ids
@@ -158,14 +153,14 @@ def find_neighbors_tf(grid,
   center_cell_ind_2D = tf.cast(center_cell_ind_2D, tf.int32)
   center_cell_ind_2D = tf.minimum(
       tf.maximum(center_cell_ind_2D, tf.zeros_like(center_cell_ind_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
   # find neighbors using fast 2D grid datastructure
   neighbor_points = grid._sorted_points
   neighbor_batch_ids = grid._sorted_batch_ids
   data_structure = grid.get_DS()
 
-  neighbors = []
-  center_neigh_ranges = []
+  neighbors = [tf.zeros([0, 2], dtype=tf.int32)]
+  center_neigh_ranges = [tf.zeros([0], dtype=tf.int32)]
   cur_neigh_range = 0
   for i in range(tf.shape(center_points)[0]):
     cur_point = center_points[i]
@@ -185,7 +180,7 @@ def find_neighbors_tf(grid,
     # clip to range between 0 and max num cells
     adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
-      grid._num_cells[:2])
+      grid._num_cells[:2] - 1)
     # get min and max point ids of the adjacent cells
     adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
     adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
@@ -204,7 +199,7 @@ def find_neighbors_tf(grid,
         (close_ids, tf.ones_like(close_ids) * i), axis=1)
     neighbors.append(cur_neighbors)
     cur_neigh_range = cur_neigh_range + tf.shape(cur_neighbors)[0]
-    center_neigh_ranges.append(cur_neigh_range)
+    center_neigh_ranges.append(tf.reshape(cur_neigh_range, [1]))
 
   neighbors = tf.concat(neighbors, axis=0)
   center_neigh_ranges = tf.concat(center_neigh_ranges, axis=0)
-- 
2.43.0


From 785117644ed4c5d91e6dfbbca2d3211d60a64cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 03/53] fix: locate centers in find_neighbors_tf with the cell
 sizes of the grid

The cell of a center was computed with the radius, which indexes the wrong
cells of the grid, and loses neighbors, if the radius is smaller than the cells.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index d3be3e6..ab6c659 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -149,7 +149,8 @@ def find_neighbors_tf(grid,
   aabb_min_per_center_point_2D = tf.gather(
       abb_min_per_batch_2D, center_batch_ids)
   center_cell_ind_2D = tf.math.floor(
-      (center_points[:, :2] - aabb_min_per_center_point_2D) / radii[:2])
+      (center_points[:, :2] - aabb_min_per_center_point_2D) /
+      grid._cell_sizes[:2])
   center_cell_ind_2D = tf.cast(center_cell_ind_2D, tf.int32)
   center_cell_ind_2D = tf.minimum(
       tf.maximum(center_cell_ind_2D, tf.zeros_like(center_cell_ind_2D)),
-- 
2.43.0


From 1405ceca050c96521b45d198755f5b24a68531c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 04/53] fix: use the radius of every dimension in
 find_neighbors_tf

The distance was compared to the first radius only.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index ab6c659..cd56c0c 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -190,8 +190,8 @@ def find_neighbors_tf(grid,
     adj_points = neighbor_points[adj_ids_start:adj_ids_end]
     adj_batch_ids = neighbor_batch_ids[adj_ids_start:adj_ids_end]
     distances = tf.linalg.norm(
-        adj_points - tf.reshape(cur_point, [1, -1]), axis=1)
-    close = (distances < radii[0])
+        (adj_points - tf.reshape(cur_point, [1, -1])) / radii, axis=1)
+    close = (distances < 1.0)
     same_batch = (adj_batch_ids == cur_batch_id)
     close = tf.math.logical_and(close, same_batch)
     close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
-- 
2.43.0


From 1a156156b1efbba7effbaf4fd0017c677f7413b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 05/53] fix: respect max_neighbors in find_neighbors_tf

---
 pylib/pc/custom_ops/custom_ops_tf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index cd56c0c..a0c05b2 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -195,6 +195,8 @@ def find_neighbors_tf(grid,
     same_batch = (adj_batch_ids == cur_batch_id)
     close = tf.math.logical_and(close, same_batch)
     close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
+    if max_neighbors > 0:
+      close_ids = close_ids[:max_neighbors]
 
     cur_neighbors = tf.stack(
         (close_ids, tf.ones_like(close_ids) * i), axis=1)
-- 
2.43.0


From f96f2c3a9690844ed42ee8357badc3d3c7148ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 06/53] fix: run find_neighbors_tf without a Python loop over
 the centers

The loop appends to Python lists and iterates over a symbolic tensor, so the
op could not be built in graph mode.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 86 ++++++++++++++--------------
 1 file changed, 42 insertions(+), 44 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index a0c05b2..1443f9b 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -160,52 +160,50 @@ def find_neighbors_tf(grid,
   neighbor_batch_ids = grid._sorted_batch_ids
   data_structure = grid.get_DS()
 
-  neighbors = [tf.zeros([0, 2], dtype=tf.int32)]
-  center_neigh_ranges = [tf.zeros([0], dtype=tf.int32)]
-  cur_neigh_range = 0
-  for i in range(tf.shape(center_points)[0]):
-    cur_point = center_points[i]
-    cur_batch_id = center_batch_ids[i]
-    # get cell_ids of adjacent 2D cells (9 in total)
-    cur_cell_id_2D = center_cell_ind_2D[i]
-    adj_cell_ids_2D = tf.stack(
-        (cur_cell_id_2D + [-1, -1],
-         cur_cell_id_2D + [-1, 0],
-         cur_cell_id_2D + [-1, 1],
-         cur_cell_id_2D + [0, 1],
-         cur_cell_id_2D,
-         cur_cell_id_2D + [0, -1],
-         cur_cell_id_2D + [1, -1],
-         cur_cell_id_2D + [1, 0],
-         cur_cell_id_2D + [1, 1]), axis=0)
-    # clip to range between 0 and max num cells
-    adj_cell_ids_2D = tf.minimum(
+  # get cell_ids of adjacent 2D cells (9 in total), shape [N, 9, 2]
+  adj_offsets_2D = tf.constant([[-1, -1], [-1, 0], [-1, 1],
+                                [0, 1], [0, 0], [0, -1],
+                                [1, -1], [1, 0], [1, 1]])
+  adj_cell_ids_2D = tf.expand_dims(center_cell_ind_2D, axis=1) + adj_offsets_2D
+  # clip to range between 0 and max num cells
+  adj_cell_ids_2D = tf.minimum(
       tf.maximum(adj_cell_ids_2D, tf.zeros_like(adj_cell_ids_2D)),
       grid._num_cells[:2] - 1)
-    # get min and max point ids of the adjacent cells
-    adj_ids = tf.gather_nd(data_structure[cur_batch_id], [adj_cell_ids_2D])
-    adj_ids_start = tf.reduce_min(adj_ids[0, :, 0])
-    adj_ids_end = tf.reduce_max(adj_ids[0, :, 1])
-    # choose points below certain distance and in same batch
-    adj_points = neighbor_points[adj_ids_start:adj_ids_end]
-    adj_batch_ids = neighbor_batch_ids[adj_ids_start:adj_ids_end]
-    distances = tf.linalg.norm(
-        (adj_points - tf.reshape(cur_point, [1, -1])) / radii, axis=1)
-    close = (distances < 1.0)
-    same_batch = (adj_batch_ids == cur_batch_id)
-    close = tf.math.logical_and(close, same_batch)
-    close_ids = tf.boolean_mask(tf.range(adj_ids_start, adj_ids_end), close)
-    if max_neighbors > 0:
-      close_ids = close_ids[:max_neighbors]
-
-    cur_neighbors = tf.stack(
-        (close_ids, tf.ones_like(close_ids) * i), axis=1)
-    neighbors.append(cur_neighbors)
-    cur_neigh_range = cur_neigh_range + tf.shape(cur_neighbors)[0]
-    center_neigh_ranges.append(tf.reshape(cur_neigh_range, [1]))
-
-  neighbors = tf.concat(neighbors, axis=0)
-  center_neigh_ranges = tf.concat(center_neigh_ranges, axis=0)
+  # get min and max point ids of the adjacent cells, ignoring empty cells
+  num_centers = tf.shape(center_points)[0]
+  adj_batch_ids = tf.tile(
+      tf.reshape(center_batch_ids, [-1, 1, 1]), [1, 9, 1])
+  adj_ids = tf.gather_nd(
+      data_structure, tf.concat((adj_batch_ids, adj_cell_ids_2D), axis=2))
+  adj_ids_start = tf.where(adj_ids[:, :, 0] < adj_ids[:, :, 1],
+                           adj_ids[:, :, 0], tf.shape(neighbor_points)[0])
+  adj_ids_start = tf.reduce_min(adj_ids_start, axis=1)
+  adj_ids_end = tf.reduce_max(adj_ids[:, :, 1], axis=1)
+  # pairs of points in the adjacent cells and centers
+  num_adj = tf.maximum(adj_ids_end - adj_ids_start, 0)
+  pair_offsets = adj_ids_start - tf.math.cumsum(num_adj, exclusive=True)
+  center_ids = tf.repeat(tf.range(num_centers), num_adj)
+  point_ids = tf.range(tf.shape(center_ids)[0]) + \
+      tf.gather(pair_offsets, center_ids)
+  # choose points below certain distance and in same batch
+  distances = tf.linalg.norm(
+      (tf.gather(neighbor_points, point_ids) -
+       tf.gather(center_points, center_ids)) / radii, axis=1)
+  close = (distances < 1.0)
+  same_batch = (tf.gather(neighbor_batch_ids, point_ids) ==
+                tf.gather(center_batch_ids, center_ids))
+  close = tf.math.logical_and(close, same_batch)
+  neighbors = tf.boolean_mask(
+      tf.stack((point_ids, center_ids), axis=1), close)
+  num_neighbors = tf.math.bincount(neighbors[:, 1], minlength=num_centers)
+  if max_neighbors > 0:
+    # number of the neighbor among the neighbors of its center
+    first_ids = tf.math.cumsum(num_neighbors, exclusive=True)
+    neighbor_rank = tf.range(tf.shape(neighbors)[0]) - \
+        tf.gather(first_ids, neighbors[:, 1])
+    neighbors = tf.boolean_mask(neighbors, neighbor_rank < max_neighbors)
+    num_neighbors = tf.minimum(num_neighbors, max_neighbors)
+  center_neigh_ranges = tf.math.cumsum(num_neighbors)
 
   return center_neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsTF')
-- 
2.43.0


From b578603c104d95f20af296506126c6ef5284f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 07/53] fix: make the sampling functions run

They passed the point cloud as the number of dimensions, and
cell_average_sampling used the missing cell sizes if given a grid.
---
 pylib/pc/sampling.py | 300 +++++++++++++++++++++----------------------
 1 file changed, 150 insertions(+), 150 deletions(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index b10cff4..4d62f18 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -1,150 +1,150 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Methods to sample point clouds. """
-
-import tensorflow as tf
-
-from pylib.pc.custom_ops import sampling
-
-from pylib.pc import PointCloud, Neighborhood, Grid
-from pylib.pc.utils import cast_to_num_dims
-
-sample_modes = {'average': 1,
-                'cell average': 1,
-                'cell_average': 1,
-                'poisson': 0,
-                'poisson disk': 0,
-                'poisson_disk': 0}
-
-
-def poisson_disk_sampling(point_cloud,
-                          radius=None,
-                          neighborhood=None,
-                          return_ids=False,
-                          name=None):
-  """ Poisson disk sampling of a point cloud.
-
-  Note: Either `radius` or `neighborhood` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
-      Poisson disk sampling.
-    neighborhood: A `Neighborhood` instance.
-    return_ids: A `bool`, if `True` returns the indices of the sampled points.
-      (optional)
-
-    Returns:
-      A `PointCloud` instance.
-      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
-
-    Raises:
-      ValueError: If no radius or neighborhood is given.
-
-  """
-  if radius is None and neighborhood is None:
-    raise ValueError(
-        "Missing Argument! Either radius or neighborhood must be given!")
-  if neighborhood is None:
-    # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud)
-    grid = Grid(point_cloud, radii)
-    neighborhood = Neighborhood(grid, radii)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 1)
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  if return_ids:
-    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
-                                sampled_indices)
-    return sampled_point_cloud, sampled_indices
-  else:
-    return sampled_point_cloud
-
-
-def cell_average_sampling(point_cloud,
-                          cell_sizes=None,
-                          grid=None,
-                          name=None):
-  """ Cell average sampling of a point cloud.
-
-  Note: Either `cell_sizes` or `grid` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
-      for the sampling.
-    grid: A `Grid` instance.
-
-    Returns:
-      A `PointCloud` instance.
-
-    Raises:
-      ValueError: If no radius or grid is given.
-
-  """
-  if cell_sizes is None and grid is None:
-    raise ValueError(
-        "Missing Argument! Either cell_sizes or grid must be given!")
-  if grid is None:
-    # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud)
-    grid = Grid(point_cloud, cell_sizes)
-
-  neighborhood = Neighborhood(grid, cell_sizes)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 0)
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  return sampled_point_cloud
-
-
-def sample(neighborhood, sample_mode='poisson', name=None):
-  """ Sampling for a neighborhood.
-
-  Args:
-    neighborhood: A `Neighborhood` instance.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  Returns:
-    A `PointCloud` instance, the sampled points.
-    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
-      `None` for cell average sampling.
-
-  """
-  sample_mode_value = sample_modes[sample_mode.lower()]
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_mode_value)
-
-  #Save the sampled point cloud.
-  if sample_mode_value == 0:
-    sampled_indices = tf.gather(
-        neighborhood._grid._sorted_indices, sampled_indices)
-  else:
-    sampled_indices = None
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
-  return sampled_point_cloud, sampled_indices
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Methods to sample point clouds. """
+
+import tensorflow as tf
+
+from pylib.pc.custom_ops import sampling
+
+from pylib.pc import PointCloud, Neighborhood, Grid
+from pylib.pc.utils import cast_to_num_dims
+
+sample_modes = {'average': 1,
+                'cell average': 1,
+                'cell_average': 1,
+                'poisson': 0,
+                'poisson disk': 0,
+                'poisson_disk': 0}
+
+
+def poisson_disk_sampling(point_cloud,
+                          radius=None,
+                          neighborhood=None,
+                          return_ids=False,
+                          name=None):
+  """ Poisson disk sampling of a point cloud.
+
+  Note: Either `radius` or `neighborhood` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
+      Poisson disk sampling.
+    neighborhood: A `Neighborhood` instance.
+    return_ids: A `bool`, if `True` returns the indices of the sampled points.
+      (optional)
+
+    Returns:
+      A `PointCloud` instance.
+      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
+
+    Raises:
+      ValueError: If no radius or neighborhood is given.
+
+  """
+  if radius is None and neighborhood is None:
+    raise ValueError(
+        "Missing Argument! Either radius or neighborhood must be given!")
+  if neighborhood is None:
+    # compute neighborhood
+    radii = cast_to_num_dims(radius, point_cloud._dimension)
+    grid = Grid(point_cloud, radii)
+    neighborhood = Neighborhood(grid, radii)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, 1)
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  if return_ids:
+    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
+                                sampled_indices)
+    return sampled_point_cloud, sampled_indices
+  else:
+    return sampled_point_cloud
+
+
+def cell_average_sampling(point_cloud,
+                          cell_sizes=None,
+                          grid=None,
+                          name=None):
+  """ Cell average sampling of a point cloud.
+
+  Note: Either `cell_sizes` or `grid` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
+      for the sampling.
+    grid: A `Grid` instance.
+
+    Returns:
+      A `PointCloud` instance.
+
+    Raises:
+      ValueError: If no radius or grid is given.
+
+  """
+  if cell_sizes is None and grid is None:
+    raise ValueError(
+        "Missing Argument! Either cell_sizes or grid must be given!")
+  if grid is None:
+    # compute grid
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
+    grid = Grid(point_cloud, cell_sizes)
+
+  neighborhood = Neighborhood(grid, grid._cell_sizes)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, 0)
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  return sampled_point_cloud
+
+
+def sample(neighborhood, sample_mode='poisson', name=None):
+  """ Sampling for a neighborhood.
+
+  Args:
+    neighborhood: A `Neighborhood` instance.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  Returns:
+    A `PointCloud` instance, the sampled points.
+    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
+      `None` for cell average sampling.
+
+  """
+  sample_mode_value = sample_modes[sample_mode.lower()]
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_mode_value)
+
+  #Save the sampled point cloud.
+  if sample_mode_value == 0:
+    sampled_indices = tf.gather(
+        neighborhood._grid._sorted_indices, sampled_indices)
+  else:
+    sampled_indices = None
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
+  return sampled_point_cloud, sampled_indices
-- 
2.43.0


From a29db6af9fe6cb81f4fbd796494481265b0d8904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 08/53] fix: use the right modes in poisson_disk_sampling and
 cell_average_sampling

The modes were swapped: each function computed the sampling of the other one.
---
 pylib/pc/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index 4d62f18..9ea0303 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -64,7 +64,7 @@ def poisson_disk_sampling(point_cloud,
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 1)
+      sampling(neighborhood, sample_modes['poisson'])
 
   sampled_point_cloud = PointCloud(
       points=sampled_points, batch_ids=sampled_batch_ids,
@@ -111,7 +111,7 @@ def cell_average_sampling(point_cloud,
 
   #Compute the sampling.
   sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, 0)
+      sampling(neighborhood, sample_modes['average'])
 
   sampled_point_cloud = PointCloud(
       points=sampled_points, batch_ids=sampled_batch_ids,
-- 
2.43.0


From 97edd78577b2ae359db14d8ad875e23458141bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 09/53] fix: use the radius cast to float in Neighborhood

---
 pylib/pc/Neighborhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 8819547..d2f2284 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -224,7 +224,7 @@ class Neighborhood:
     radii = tf.reshape(tf.cast(tf.convert_to_tensor(value=radius),
                                tf.float32), [-1])
     if radii.shape[0] == 1:
-      radii = tf.repeat(radius, grid._point_cloud._dimension)
+      radii = tf.repeat(radii, grid._point_cloud._dimension)
     #Save the attributes.
     if point_cloud_sample is None:
       self._equal_samples = True
-- 
2.43.0


From dab46e8c9ea0e13c60b0228c027f6a80811671b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 10/53] fix: call compute_pdf with a neighborhood in
 density_estimation

compute_pdf takes a neighborhood, density_estimation raised a TypeError.
---
 pylib/pc/Neighborhood.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index d2f2284..de59dcc 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -134,17 +134,8 @@ def density_estimation(point_cloud,
     pdf = tf.ones_like(point_cloud._points[:, 0], dtype=tf.float32)
   else:
     grid = Grid(point_cloud, scaling)
-    pdf_neighbors, nb_ranges = \
-        compute_neighborhoods(grid,
-                              scaling,
-                              return_ranges=True,
-                              return_sorted_ids=True)
-    pdf_sorted = compute_pdf(grid,
-                             pdf_neighbors,
-                             nb_ranges,
-                             bandwidth,
-                             scaling,
-                             mode.value)
+    pdf_neighbors = Neighborhood(grid, scaling)
+    pdf_sorted = compute_pdf(pdf_neighbors, bandwidth, mode.value)
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
   if normalize:
-- 
2.43.0


From 51c1d518c7a51a0fb59c08d8e7b51ec5469977b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 11/53] fix: call transpose in PointHierarchy.get_neighborhood

---
 pylib/pc/PointHierarchy.py | 376 ++++++++++++++++++-------------------
 1 file changed, 188 insertions(+), 188 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 81e574e..df7e228 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -1,188 +1,188 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Class to represent a point cloud hierarchy."""
-
-import numpy as np
-import tensorflow as tf
-
-from pylib.pc.utils import check_valid_point_hierarchy_input
-
-from pylib.pc import PointCloud
-from pylib.pc import Grid
-from pylib.pc import Neighborhood
-from pylib.pc import sample
-from pylib.pc.utils import cast_to_num_dims
-
-
-class PointHierarchy:
-  """ A hierarchy of sampled point clouds.
-
-  Args:
-    point_cloud: A `PointCloud` instance..
-    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
-      the cell sizes for the sampling. The length of the list defines
-      the number of samplings.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  """
-
-  def __init__(self,
-               point_cloud: PointCloud,
-               cell_sizes,
-               sample_mode='poisson',
-               name=None):
-    #Initialize the attributes.
-    self._aabb = point_cloud.get_AABB()
-    self._point_clouds = [point_cloud]
-    self._cell_sizes = []
-    self._neighborhoods = []
-
-    self._dimension = point_cloud._dimension
-    self._batch_shape = point_cloud._batch_shape
-
-    #Create the different sampling operations.
-    cur_point_cloud = point_cloud
-    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
-      cur_cell_sizes  = tf.convert_to_tensor(
-        value=cur_cell_sizes, dtype=tf.float32)
-
-      # Check if the cell size is defined for all the dimensions.
-      # If not, the last cell size value is tiled until all the dimensions
-      # have a value.
-      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
-      cur_cell_sizes = tf.cond(
-          cur_num_dims < self._dimension,
-          lambda: tf.concat((cur_cell_sizes,
-                             tf.tile(tf.gather(cur_cell_sizes,
-                                               [tf.rank(cur_cell_sizes) - 1]),
-                                     [self._dimension - cur_num_dims])),
-                            axis=0),
-          lambda: cur_cell_sizes)
-      tf.assert_greater(
-          self._dimension + 1,
-          cur_num_dims,
-          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-          f'instead of max. {self._dimension}')
-      # old version, does not run in graph mode
-      # if cur_num_dims < self._dimension:
-      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
-      #                  tf.tile(tf.gather(cur_cell_sizes,
-      #                                    [tf.rank(cur_cell_sizes) - 1]),
-      #                    [self._dimension - cur_num_dims])),
-      #                       axis=0)
-      # if cur_num_dims > self._dimension:
-      #   raise ValueError(
-      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-      #       f'instead of max. {self._dimension}')
-
-      self._cell_sizes.append(cur_cell_sizes)
-
-      #Create the sampling operation.
-      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
-      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
-      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
-
-      self._neighborhoods.append(cur_neighborhood)
-      cur_point_cloud.set_batch_shape(self._batch_shape)
-      self._point_clouds.append(cur_point_cloud)
-
-  def get_points(self, batch_id=None, max_num_points=None, name=None):
-    """ Returns the points.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-      If called withoud specifying 'id' returns the points in padded format
-      `[A1, ..., An, V, D]`.
-
-    Args:
-      batch_id: An `int`, identifier of point cloud in the batch, if `None`
-        returns all points.
-
-    Return:
-      A list of `float` `Tensors` of shape
-          `[N_i, D]`, if 'batch_id' was given
-      or
-        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
-    """
-    points = []
-    for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id))
-    return points
-
-  def get_sizes(self, name=None):
-    """ Returns the sizes of the point clouds in the point hierarchy.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Returns:
-      A `list` of `Tensors` of shape '`[A1, .., An]`'
-
-    """
-
-    sizes = []
-    for point_cloud in self._point_clouds:
-      sizes.append(point_cloud.get_sizes())
-    return sizes
-
-  def set_batch_shape(self, batch_shape, name=None):
-    """ Function to change the batch shape.
-
-      Use this to set a batch shape instead of using 'self._batch_shape'
-      to also change dependent variables.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Args:
-      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
-
-    Raises:
-      ValueError: if shape does not sum up to batch size.
-
-    """
-    for point_cloud in self._point_clouds:
-      point_cloud.set_batch_shape(batch_shape)
-
-  def get_neighborhood(self, i=None, transposed=False):
-    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
-    If called without argument returns a list of all neighborhoods.
-
-    Args:
-      i: An `int`, can be negative but must be in range
-        `[-num_levels, num_levels-1]`.
-      transposed: A `bool`, if `True` returns the neighborhood between
-        level `i+1` and `i`.
-
-    Returs:
-      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
-
-    """
-    if i is None:
-      if transposed:
-        return [nb.transposed() for nb in self._neighborhoods]
-      else:
-        return self._neighborhoods
-    else:
-      if transposed:
-        return self._neighborhoods[i].transpose()
-      else:
-        return self._neighborhoods[i]
-
-  def __getitem__(self, index):
-    return self._point_clouds[index]
-
-  def __len__(self):
-    return len(self._point_clouds)
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Class to represent a point cloud hierarchy."""
+
+import numpy as np
+import tensorflow as tf
+
+from pylib.pc.utils import check_valid_point_hierarchy_input
+
+from pylib.pc import PointCloud
+from pylib.pc import Grid
+from pylib.pc import Neighborhood
+from pylib.pc import sample
+from pylib.pc.utils import cast_to_num_dims
+
+
+class PointHierarchy:
+  """ A hierarchy of sampled point clouds.
+
+  Args:
+    point_cloud: A `PointCloud` instance..
+    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
+      the cell sizes for the sampling. The length of the list defines
+      the number of samplings.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  """
+
+  def __init__(self,
+               point_cloud: PointCloud,
+               cell_sizes,
+               sample_mode='poisson',
+               name=None):
+    #Initialize the attributes.
+    self._aabb = point_cloud.get_AABB()
+    self._point_clouds = [point_cloud]
+    self._cell_sizes = []
+    self._neighborhoods = []
+
+    self._dimension = point_cloud._dimension
+    self._batch_shape = point_cloud._batch_shape
+
+    #Create the different sampling operations.
+    cur_point_cloud = point_cloud
+    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
+      cur_cell_sizes  = tf.convert_to_tensor(
+        value=cur_cell_sizes, dtype=tf.float32)
+
+      # Check if the cell size is defined for all the dimensions.
+      # If not, the last cell size value is tiled until all the dimensions
+      # have a value.
+      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
+      cur_cell_sizes = tf.cond(
+          cur_num_dims < self._dimension,
+          lambda: tf.concat((cur_cell_sizes,
+                             tf.tile(tf.gather(cur_cell_sizes,
+                                               [tf.rank(cur_cell_sizes) - 1]),
+                                     [self._dimension - cur_num_dims])),
+                            axis=0),
+          lambda: cur_cell_sizes)
+      tf.assert_greater(
+          self._dimension + 1,
+          cur_num_dims,
+          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+          f'instead of max. {self._dimension}')
+      # old version, does not run in graph mode
+      # if cur_num_dims < self._dimension:
+      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
+      #                  tf.tile(tf.gather(cur_cell_sizes,
+      #                                    [tf.rank(cur_cell_sizes) - 1]),
+      #                    [self._dimension - cur_num_dims])),
+      #                       axis=0)
+      # if cur_num_dims > self._dimension:
+      #   raise ValueError(
+      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+      #       f'instead of max. {self._dimension}')
+
+      self._cell_sizes.append(cur_cell_sizes)
+
+      #Create the sampling operation.
+      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
+      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
+      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
+
+      self._neighborhoods.append(cur_neighborhood)
+      cur_point_cloud.set_batch_shape(self._batch_shape)
+      self._point_clouds.append(cur_point_cloud)
+
+  def get_points(self, batch_id=None, max_num_points=None, name=None):
+    """ Returns the points.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+      If called withoud specifying 'id' returns the points in padded format
+      `[A1, ..., An, V, D]`.
+
+    Args:
+      batch_id: An `int`, identifier of point cloud in the batch, if `None`
+        returns all points.
+
+    Return:
+      A list of `float` `Tensors` of shape
+          `[N_i, D]`, if 'batch_id' was given
+      or
+        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
+    """
+    points = []
+    for point_cloud in self._point_clouds:
+      points.append(point_cloud.get_points(batch_id))
+    return points
+
+  def get_sizes(self, name=None):
+    """ Returns the sizes of the point clouds in the point hierarchy.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Returns:
+      A `list` of `Tensors` of shape '`[A1, .., An]`'
+
+    """
+
+    sizes = []
+    for point_cloud in self._point_clouds:
+      sizes.append(point_cloud.get_sizes())
+    return sizes
+
+  def set_batch_shape(self, batch_shape, name=None):
+    """ Function to change the batch shape.
+
+      Use this to set a batch shape instead of using 'self._batch_shape'
+      to also change dependent variables.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Args:
+      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
+
+    Raises:
+      ValueError: if shape does not sum up to batch size.
+
+    """
+    for point_cloud in self._point_clouds:
+      point_cloud.set_batch_shape(batch_shape)
+
+  def get_neighborhood(self, i=None, transposed=False):
+    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
+    If called without argument returns a list of all neighborhoods.
+
+    Args:
+      i: An `int`, can be negative but must be in range
+        `[-num_levels, num_levels-1]`.
+      transposed: A `bool`, if `True` returns the neighborhood between
+        level `i+1` and `i`.
+
+    Returs:
+      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
+
+    """
+    if i is None:
+      if transposed:
+        return [nb.transpose() for nb in self._neighborhoods]
+      else:
+        return self._neighborhoods
+    else:
+      if transposed:
+        return self._neighborhoods[i].transpose()
+      else:
+        return self._neighborhoods[i]
+
+  def __getitem__(self, index):
+    return self._point_clouds[index]
+
+  def __len__(self):
+    return len(self._point_clouds)
-- 
2.43.0


From 7c73ec707f83965dcdd36f92cd4c7c1aff271ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 12/53] fix: forward max_num_points in
 PointHierarchy.get_points

---
 pylib/pc/PointHierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index df7e228..0eeba17 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -118,7 +118,7 @@ class PointHierarchy:
     """
     points = []
     for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id))
+      points.append(point_cloud.get_points(batch_id, max_num_points))
     return points
 
   def get_sizes(self, name=None):
-- 
2.43.0


From b17b146714fe96b132d41f36f00eae075944c7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 13/53] fix: accept scalar cell sizes in PointHierarchy and
 tile the last one

The first instead of the last cell size was repeated for missing dimensions.
---
 pylib/pc/PointHierarchy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 0eeba17..c3d9846 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -54,8 +54,8 @@ class PointHierarchy:
     #Create the different sampling operations.
     cur_point_cloud = point_cloud
     for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
-      cur_cell_sizes  = tf.convert_to_tensor(
-        value=cur_cell_sizes, dtype=tf.float32)
+      cur_cell_sizes  = tf.reshape(tf.convert_to_tensor(
+          value=cur_cell_sizes, dtype=tf.float32), [-1])
 
       # Check if the cell size is defined for all the dimensions.
       # If not, the last cell size value is tiled until all the dimensions
@@ -65,7 +65,7 @@ class PointHierarchy:
           cur_num_dims < self._dimension,
           lambda: tf.concat((cur_cell_sizes,
                              tf.tile(tf.gather(cur_cell_sizes,
-                                               [tf.rank(cur_cell_sizes) - 1]),
+                                               [cur_num_dims - 1]),
                                      [self._dimension - cur_num_dims])),
                             axis=0),
           lambda: cur_cell_sizes)
-- 
2.43.0


From ac3a58f72211139f3113944ff63f640b8d7ab8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 14/53] fix: reject batch indices out of range in
 PointCloud.get_points

The batch size itself, and negative indices, returned an empty point cloud.
---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index e08cf27..c6eefad 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -176,7 +176,7 @@ class PointCloud:
         for slice_id in id:
           slice = slice[slice_id]
         id = slice
-      if id > self._batch_size:
+      if id < 0 or id >= self._batch_size:
         raise IndexError('batch index out of range')
       return self._points[self._batch_ids == id]
     else:
-- 
2.43.0


From 02caa523ede3e227f9a4b2c5fa2cf8440f56112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 15/53] fix: count empty point clouds in PointCloud.get_sizes

Batch elements without points were dropped from the sizes, so the padded
points had too few elements and were shifted to other batch elements.
---
 pylib/pc/PointCloud.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index c6eefad..7c1c273 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -196,10 +196,8 @@ class PointCloud:
 
     """
     if self._sizes is None:
-      _ids, _, self._sizes = tf.unique_with_counts(
-          self._batch_ids)
-      _ids_sorted = tf.argsort(_ids)
-      self._sizes = tf.gather(self._sizes, _ids_sorted)
+      self._sizes = tf.math.unsorted_segment_sum(
+          tf.ones_like(self._batch_ids), self._batch_ids, self._batch_size)
       if self._batch_shape is not None:
         self._sizes = tf.reshape(self._sizes, self._batch_shape)
     return self._sizes
-- 
2.43.0


From d52e11cfdd7864e793fe795e468b5dcd0314cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 16/53] fix: do not cache max_num_points in
 PointCloud.get_unflatten

The first call decided the padding of all later calls, and padded clouds
ignored the argument.
---
 pylib/pc/PointCloud.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 7c1c273..6a138d9 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -223,12 +223,15 @@ class PointCloud:
       ValueError: When trying to unflatten unsorted points.
 
     """
-    if self._unflatten is None:
-      self._unflatten = lambda data: unflatten_2d_to_batch(
-          data=tf.gather(data, self._sorted_indices_batch),
-          sizes=self.get_sizes(),
-          max_rows=max_num_points)
-    return self._unflatten
+    if self._unflatten is not None and max_num_points is None:
+      return self._unflatten
+    unflatten = lambda data: unflatten_2d_to_batch(
+        data=tf.gather(data, self._sorted_indices_batch),
+        sizes=self.get_sizes(),
+        max_rows=max_num_points)
+    if max_num_points is None:
+      self._unflatten = unflatten
+    return unflatten
 
   def get_AABB(self) -> _AABB:
     """ Returns the axis aligned bounding box of the point cloud.
-- 
2.43.0


From 87d265f8a12e8880beb782069277037ac62b4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 17/53] fix: apply set_batch_shape to the padded points and the
 bounding box

The padded points of a cloud constructed from padded input and the diameters
of an existing bounding box kept the previous batch shape.
---
 pylib/pc/PointCloud.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 6a138d9..15bb665 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -59,10 +59,11 @@ class _AABB:
     """
 
     diam = tf.linalg.norm(self._aabb_max - self._aabb_min, ord=ord, axis=-1)
-    if self._batch_shape is None:
+    batch_shape = self.point_cloud_._batch_shape
+    if batch_shape is None:
       return diam
     else:
-      return tf.reshape(diam, self._batch_shape)
+      return tf.reshape(diam, batch_shape)
 
 
 class PointCloud:
@@ -280,3 +281,6 @@ class PointCloud:
         self._sizes = tf.reshape(self._sizes, self._batch_shape)
     else:
       self._batch_shape = None
+      if self._sizes is not None:
+        self._sizes = tf.reshape(self._sizes, [-1])
+    self._unflatten = None
-- 
2.43.0


From 5087c169e3aeda99af281a4f40a5e780cf770337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 18/53] fix: accept sizes of shape [A1, ..., An] for segmented
 points in PointCloud

---
 pylib/pc/PointCloud.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index 15bb665..d5735ac 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -145,7 +145,12 @@ class PointCloud:
     if self._batch_ids is None:
       if self._batch_size is None:
         self._batch_size = tf.reduce_prod(self._sizes.shape)
-      self._batch_ids = tf.repeat(tf.range(0, self._batch_size), self._sizes)
+      self._batch_ids = tf.repeat(tf.range(0, self._batch_size),
+                                  tf.reshape(self._sizes, [-1]))
+      if self._sizes.shape.ndims > 1:
+        self._batch_shape = tf.shape(self._sizes)
+        self._get_segment_id = tf.reshape(
+            tf.range(0, self._batch_size), self._batch_shape)
     if self._batch_size is None:
       self._batch_size = tf.reduce_max(self._batch_ids) + 1
     self._points = points
-- 
2.43.0


From aa138b8c88943793f02fdc86be8e46528ff3e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 19/53] fix: use the bounding box given to Grid

The argument was ignored. Points outside of it are put in the border cells.
---
 pylib/pc/Grid.py                          | 4 ++--
 pylib/pc/custom_ops/custom_ops_tf.py      | 8 ++++++--
 pylib/pc/custom_ops/custom_ops_wrapper.py | 7 +++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/Grid.py b/pylib/pc/Grid.py
index 5fc8565..1d25ee3 100755
--- a/pylib/pc/Grid.py
+++ b/pylib/pc/Grid.py
@@ -39,7 +39,7 @@ class Grid:
     self._batch_size = point_cloud._batch_size_numpy
     self._cell_sizes = cell_sizes
     self._point_cloud = point_cloud
-    self._aabb = point_cloud.get_AABB()
+    self._aabb = point_cloud.get_AABB() if aabb is None else aabb
     #Compute the number of cells in the grid.
     aabb_sizes = self._aabb._aabb_max - self._aabb._aabb_min
     batch_num_cells = tf.cast(
@@ -50,7 +50,7 @@ class Grid:
     #Compute the key for each point.
     self._cur_keys = compute_keys(
         self._point_cloud, self._num_cells,
-        self._cell_sizes)
+        self._cell_sizes, self._aabb)
 
     #Sort the keys.
     self._sorted_indices = tf.argsort(
diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 1443f9b..c175d11 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -18,7 +18,8 @@ import numpy as np
 from pylib.pc import PointCloud, Grid
 
 
-def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
+def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, aabb=None,
+                    name=None):
   """ Computes the regular grid cell keys of a point cloud.
 
     For a point in cell `c` the key is computed as
@@ -30,12 +31,15 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, name=None):
         per dimension.
       cell_size: An `int` `Tensor` of shape `[D]`, the cell sizes per
         dimension.
+      aabb: An `AABB` instance, the bounding box of the grid, if `None`
+        the bounding box of `point_cloud` is used. (optional)
 
     Returns:
       An `int` `Tensor` of shape `[N]`, the keys per point.
 
   """
-  aabb = point_cloud.get_AABB()
+  if aabb is None:
+    aabb = point_cloud.get_AABB()
   abb_min_per_batch = aabb._aabb_min
   aabb_min_per_point = tf.gather(abb_min_per_batch, point_cloud._batch_ids)
   cell_ind = tf.math.floor(
diff --git a/pylib/pc/custom_ops/custom_ops_wrapper.py b/pylib/pc/custom_ops/custom_ops_wrapper.py
index 694ee4d..2f45adc 100644
--- a/pylib/pc/custom_ops/custom_ops_wrapper.py
+++ b/pylib/pc/custom_ops/custom_ops_wrapper.py
@@ -17,7 +17,7 @@ import tensorflow as tf
 import tfg_custom_ops
 
 
-def compute_keys(point_cloud, num_cells, cell_size, name=None):
+def compute_keys(point_cloud, num_cells, cell_size, aabb=None, name=None):
   """ Method to compute the regular grid keys of a point cloud.
 
     For a point in cell `c` the key is computed as
@@ -29,12 +29,15 @@ def compute_keys(point_cloud, num_cells, cell_size, name=None):
         per dimension.
       cell_size: An `int` `Tensor` of shape `[D]`, the cell sizes per
         dimension.
+      aabb: An `AABB` instance, the bounding box of the grid, if `None`
+        the bounding box of `point_cloud` is used. (optional)
 
     Returns:
       An `int` `Tensor` of shape `[N]`, the keys per point.
 
   """
-  aabb = point_cloud.get_AABB()
+  if aabb is None:
+    aabb = point_cloud.get_AABB()
   return tfg_custom_ops.compute_keys(
     point_cloud._points,
     point_cloud._batch_ids,
-- 
2.43.0


From a3302b32e284e095376bd4b2d1f9195553269511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 20/53] fix: compute the grid keys with 64 bit integers in the
 TensorFlow ops

The keys were computed with 32 bit and cast to 64 bit afterwards, grids with
more than 2^31 cells lost neighbors.
---
 pylib/pc/custom_ops/custom_ops_tf.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index c175d11..b0cad62 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -48,9 +48,13 @@ def compute_keys_tf(point_cloud: PointCloud, num_cells, cell_size, aabb=None,
   cell_ind = tf.minimum(
       tf.maximum(cell_ind, tf.zeros_like(cell_ind)),
       num_cells - 1)
-  cell_multiplier = tf.math.cumprod(num_cells, reverse=True)
+  # the number of cells of the grid can exceed 32 bit
+  cell_ind = tf.cast(cell_ind, tf.int64)
+  batch_ids = tf.cast(point_cloud._batch_ids, tf.int64)
+  cell_multiplier = tf.math.cumprod(
+      tf.cast(num_cells, tf.int64), reverse=True)
   cell_multiplier = tf.concat((cell_multiplier, [1]), axis=0)
-  keys = point_cloud._batch_ids * cell_multiplier[0] + \
+  keys = batch_ids * cell_multiplier[0] + \
       tf.math.reduce_sum(cell_ind * tf.reshape(cell_multiplier[1:], [1, -1]),
                          axis=1)
   return tf.cast(keys, tf.int64)
@@ -73,7 +77,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
     An `int` `Tensor` of shape `[batch_size, num_cells[0], num_cells[1], 2]`.
 
   """
-  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int32)
+  sorted_keys = tf.cast(tf.convert_to_tensor(value=sorted_keys), tf.int64)
   num_cells = tf.cast(tf.convert_to_tensor(value=num_cells), tf.int32)
 
   num_keys = tf.shape(sorted_keys)[0]
@@ -83,8 +87,8 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
       'Points must have dimensionality >1.')
   cells_per_2D_cell = tf.cond(
     tf.shape(num_cells)[0] > 2,
-    lambda: tf.reduce_prod(num_cells[2:]),
-    lambda: 1
+    lambda: tf.reduce_prod(tf.cast(num_cells[2:], tf.int64)),
+    lambda: tf.constant(1, dtype=tf.int64)
   )
   # condition without graph mode
   # if tf.shape(num_cells)[0] > 2:
@@ -92,8 +96,7 @@ def build_grid_ds_tf(sorted_keys, num_cells, batch_size, name=None):
   # elif tf.shape(num_cells)[0] == 2:
   #     cells_per_2D_cell = 1
 
-  ds_indices = tf.cast(tf.floor(sorted_keys / cells_per_2D_cell),
-                       dtype=tf.int32)
+  ds_indices = tf.cast(sorted_keys // cells_per_2D_cell, dtype=tf.int32)
   indices = tf.range(0, num_keys, dtype=tf.int32)
   first_per_cell = tf.math.unsorted_segment_min(
       indices, ds_indices, num_cells_2D)
-- 
2.43.0


From e7a7c909bd10b22645b44bc4f03ce8c867464467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 21/53] fix: accept a float radius in the local pooling layers

---
 pylib/pc/layers/Pooling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/Pooling.py b/pylib/pc/layers/Pooling.py
index 77fcb8e..5fc4d87 100644
--- a/pylib/pc/layers/Pooling.py
+++ b/pylib/pc/layers/Pooling.py
@@ -144,7 +144,7 @@ class _LocalPointPooling:
     features = _flatten_features(features, point_cloud_in)
     pooling_radius = tf.convert_to_tensor(
         value=pooling_radius, dtype=tf.float32)
-    if pooling_radius.shape[0] == 1:
+    if pooling_radius.shape == [] or pooling_radius.shape[0] == 1:
       pooling_radius = tf.repeat(pooling_radius, point_cloud_in._dimension)
 
     # Compute the grid.
-- 
2.43.0


From 8a85a8aaaae4836555733a55a80f4cbfad4d6862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 22/53] fix: use the input points as centers in the ResNet
 blocks

Without samples the centers of a neighborhood are the sorted points of the
grid, but the convolutions index the point cloud with the center ids, which
mixed up the points and even the batch elements.
---
 pylib/pc/layers/network_blocks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 87c731e..e933f4b 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -129,7 +129,7 @@ class PointResNet(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # first residual convolution
@@ -266,7 +266,7 @@ class PointResNetBottleNeck(tf.Module):
       #Compute the grid.
       grid = Grid(point_cloud, radii_tensor)
       #Compute the neighborhood key.
-      neighborhood = Neighborhood(grid, radii_tensor)
+      neighborhood = Neighborhood(grid, radii_tensor, point_cloud)
     for i in range(self._num_blocks):
       skip = features
       # downsampling
@@ -417,7 +417,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
       # intra-downsampled
       grid = Grid(point_cloud_downsampled, radii_tensor[1])
       neighborhoods.append(Neighborhood(grid,
-                                        radii_tensor[1]))
+                                        radii_tensor[1],
+                                        point_cloud_downsampled))
       # upsampling
       if conv_radii[0] == conv_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
-- 
2.43.0


From bbb6ee4127520b36e370d57c52601bc6c18d93de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 23/53] fix: construct the 1x1 convolutions of
 PointResNetBottleNeck

Conv1x1 has no argument use_bias, it always has a bias.
---
 pylib/pc/layers/network_blocks.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index e933f4b..2ba7da5 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -222,12 +222,10 @@ class PointResNetBottleNeck(tf.Module):
         self._projection_layers.append(_identity)
       # up- and downwampling in feature domain
       self._downsampling_layers.append(Conv1x1(num_features,
-                                               bottle_neck_num_features,
-                                               use_bias=True))
+                                               bottle_neck_num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
       self._upsampling_layers.append(Conv1x1(bottle_neck_num_features,
-                                             num_features,
-                                             use_bias=True))
+                                             num_features))
       self._batch_norm_layers.append(tf.keras.layers.BatchNormalization())
 
   def __call__(self,
-- 
2.43.0


From e93f5530323cb5fca8b69f0bf0547a015e11a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 24/53] fix: pass the radius to KPConv in the ResNet blocks

KPConv names the argument conv_radius, the blocks raised a TypeError for
layer_type='KPConv'.
---
 pylib/pc/layers/network_blocks.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 2ba7da5..d99f699 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -136,20 +136,20 @@ class PointResNet(tf.Module):
       features = self._batch_norm_layers[2 * i](features,
                                                 training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i](features=features,
-                                          point_cloud_in=point_cloud,
-                                          point_cloud_out=point_cloud,
-                                          radius=radius,
+      features = self._conv_layers[2 * i](features,
+                                          point_cloud,
+                                          point_cloud,
+                                          radius,
                                           neighborhood=neighborhood,
                                           **kwargs)
       # second residual convolution
       features = self._batch_norm_layers[2 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[2 * i + 1](features=features,
-                                              point_cloud_in=point_cloud,
-                                              point_cloud_out=point_cloud,
-                                              radius=radius,
+      features = self._conv_layers[2 * i + 1](features,
+                                              point_cloud,
+                                              point_cloud,
+                                              radius,
                                               neighborhood=neighborhood,
                                               **kwargs)
       # skip connection
@@ -276,10 +276,10 @@ class PointResNetBottleNeck(tf.Module):
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
-      features = self._conv_layers[i](features=features,
-                                      point_cloud_in=point_cloud,
-                                      point_cloud_out=point_cloud,
-                                      radius=radius,
+      features = self._conv_layers[i](features,
+                                      point_cloud,
+                                      point_cloud,
+                                      radius,
                                       neighborhood=neighborhood,
                                       **kwargs)
       # upsampling
@@ -431,30 +431,30 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                                 training=training)
       features = self._activation(features)
       features = self._downsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud,
-          point_cloud_out=point_cloud_downsampled,
-          radius=radii[0],
+          features,
+          point_cloud,
+          point_cloud_downsampled,
+          radii[0],
           neighborhood=neighborhoods[0],
           **kwargs)
       features = self._batch_norm_layers[3 * i + 1](features,
                                                     training=training)
       features = self._activation(features)
       features = self._conv_layers[i](
-        features=features,
-        point_cloud_in=point_cloud_downsampled,
-        point_cloud_out=point_cloud_downsampled,
-        radius=radii[1],
+        features,
+        point_cloud_downsampled,
+        point_cloud_downsampled,
+        radii[1],
         neighborhood=neighborhoods[1],
         **kwargs)
       features = self._batch_norm_layers[3 * i + 2](features,
                                                     training=training)
       features = self._activation(features)
       features = self._upsampling_layers[i](
-          features=features,
-          point_cloud_in=point_cloud_downsampled,
-          point_cloud_out=point_cloud,
-          radius=radii[2],
+          features,
+          point_cloud_downsampled,
+          point_cloud,
+          radii[2],
           neighborhood=neighborhoods[2],
           **kwargs)
       features = features + self._projection_layers[i](skip, point_cloud)
-- 
2.43.0


From b50388994cc99fbe3e6f4b9aea417ccdab8eb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 25/53] fix: initialize the tf.Module of the ResNet blocks

The name of the blocks was dropped and accessing it raised an AttributeError.
---
 pylib/pc/layers/network_blocks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index d99f699..376e948 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -64,6 +64,8 @@ class PointResNet(tf.Module):
                activation=tf.nn.relu,
                name=None,
                **kwargs):
+    super().__init__(name=name)
+
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
@@ -195,6 +197,8 @@ class PointResNetBottleNeck(tf.Module):
                activation=tf.nn.relu,
                name=None,
                **kwargs):
+    super().__init__(name=name)
+
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
@@ -327,6 +331,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
                activation=tf.nn.relu,
                name=None,
                **kwargs):
+    super().__init__(name=name)
+
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
-- 
2.43.0


From ba2ee0e5236d58c24b1249b4842a7c711aa42915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 26/53] fix: return the neighborhoods between the levels of a
 PointHierarchy

get_neighborhood(i) returned the neighborhood of level i with itself instead
of the documented one between level i and i+1.
---
 pylib/pc/PointHierarchy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index c3d9846..1486c76 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -93,7 +93,8 @@ class PointHierarchy:
       cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
       cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
 
-      self._neighborhoods.append(cur_neighborhood)
+      self._neighborhoods.append(
+          Neighborhood(cur_grid, cur_cell_sizes, cur_point_cloud))
       cur_point_cloud.set_batch_shape(self._batch_shape)
       self._point_clouds.append(cur_point_cloud)
 
-- 
2.43.0


From 65ba44dc3a4eed0cb8a904618c3a96f8a391b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 27/53] fix: use the corners of a regular hexagon for the 15
 kernel points

One corner was contained twice, two kernel points coincided in each hexagon.
---
 pylib/pc/layers/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 7c25139..8f0c525 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -89,12 +89,12 @@ def _hexagon(scale, z_shift):
 
   """
   phi = np.sqrt(3) / 2
-  points = [[0, 1, 0],
-            [0, -1, 0],
+  points = [[1, 0, 0],
+            [-1, 0, 0],
             [0.5, phi, 0],
             [0.5, -phi, 0],
             [-0.5, phi, 0],
-            [0.5, -phi, 0]]
+            [-0.5, -phi, 0]]
   points = np.array(points) * scale
   points[:, 2] += z_shift
   return points
-- 
2.43.0


From 68e21554373e6f856fc7fcda195c50d6bcde5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 28/53] fix: compute the 13 kernel points on the unit sphere

tf.sqrt does not accept integers, so 13 kernel points raised, and the corners
of the icosahedron were at distance 1.9 of the center.
---
 pylib/pc/layers/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 8f0c525..462fb90 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -187,7 +187,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [0, 0, -1]], dtype=tf.float32)
   elif num_points == 13:
     # Icosahedron
-    phi = (1 + tf.sqrt(5)) / 2
+    phi = (1 + np.sqrt(5)) / 2
     points = tf.Variable([[0, 0, 0],
                           [0, 1, phi],
                           [0, 1, -phi],
@@ -201,6 +201,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
                           [-phi, 0, 1],
                           [phi, 0, -1],
                           [-phi, 0, -1]], dtype=tf.float32)
+    points = points / np.float32(np.sqrt(1 + phi**2))
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
     hex2 = _hexagon(-0.5, np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
-- 
2.43.0


From cfa953cec7404350980e34a02490365907e5ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 29/53] fix: make the name of cube_kernel_points optional

---
 pylib/pc/layers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 462fb90..13104cb 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -221,7 +221,7 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
   return points
 
 
-def cube_kernel_points(cbrt_num_points, name):
+def cube_kernel_points(cbrt_num_points, name=None):
   """ Regularily distributed points in a unit cube.
 
   Args:
-- 
2.43.0


From 63d33bf404cd77c421d0546db892cf281038083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 30/53] fix: place the 15 and 18 kernel points on both sides of
 the origin

Both hexagons and both pentagons were in the same plane, the lower half of the
sphere had no kernel point besides the pole.
---
 pylib/pc/layers/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/utils.py b/pylib/pc/layers/utils.py
index 13104cb..77785d6 100644
--- a/pylib/pc/layers/utils.py
+++ b/pylib/pc/layers/utils.py
@@ -204,14 +204,14 @@ def spherical_kernel_points(num_points, rotate=True, name=None):
     points = points / np.float32(np.sqrt(1 + phi**2))
   elif num_points == 15:
     hex1 = _hexagon(0.5, np.sqrt(3) / 2)
-    hex2 = _hexagon(-0.5, np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
+    hex2 = _hexagon(-0.5, -np.sqrt(3) / 2)[:,[1, 0, 2]]  # rotated 90 deg in xy
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]], hex1, hex2),
                             axis=0)
     points = tf.Variable(points, dtype=tf.float32)
   elif num_points == 18:
     penta1 = _pentagon(1 / np.sqrt(2), 0.5)
     penta2 = -_pentagon(1.0, 0.0) # flipped in xy
-    penta3 = _pentagon(-1 / np.sqrt(2), 0.5)
+    penta3 = _pentagon(-1 / np.sqrt(2), -0.5)
     points = np.concatenate(([[0, 0, 0], [0, 0, 1], [0, 0, -1]],
                              penta1, penta2, penta3),
                             axis=0)
-- 
2.43.0


From b4b4808c818da618b43b748f1088f2794308f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 31/53] fix: keep the last character of files without a final
 newline in the loaders

---
 pylib/io/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index cac6bde..1181140 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -49,7 +49,7 @@ def load_points_from_file_to_tensor(filename,
     if tf.io.gfile.exists(filename):
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         for line in in_file:
-          line_elements = line[:-1].split(delimiter)
+          line_elements = line.rstrip('\r\n').split(delimiter)
           points.append(line_elements[0:dimension])
           if len(line_elements) > 3:
             features.append(line_elements[dimension:])
@@ -98,7 +98,7 @@ def load_points_from_file_to_numpy(filename,
         i = 0
         for line in in_file:
           if max_num_points is not None and i < max_num_points:
-            line_elements = line[:-1].split(delimiter)
+            line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
             if len(line_elements) > 3:
               features.append(line_elements[dimension:])
-- 
2.43.0


From 98c4b079798f789f3fd7ed968841a91c2bfec685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 32/53] fix: split points and features at the given dimension
 in the loaders

Features were dropped or empty rows added for dimensions other than 3, and
files without features could not be loaded to tensors.
---
 pylib/io/points.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 1181140..e12719a 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -51,11 +51,10 @@ def load_points_from_file_to_tensor(filename,
         for line in in_file:
           line_elements = line.rstrip('\r\n').split(delimiter)
           points.append(line_elements[0:dimension])
-          if len(line_elements) > 3:
-            features.append(line_elements[dimension:])
+          features.append(line_elements[dimension:])
 
       points = tf.convert_to_tensor(value=points)
-      features = tf.convert_to_tensor(value=features)
+      features = tf.convert_to_tensor(value=features, dtype=tf.string)
       points = tf.strings.to_number(input=points, out_type=dtype)
       features = tf.strings.to_number(input=features, out_type=dtype)
       return points, features
@@ -100,8 +99,7 @@ def load_points_from_file_to_numpy(filename,
           if max_num_points is not None and i < max_num_points:
             line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
-            if len(line_elements) > 3:
-              features.append(line_elements[dimension:])
+            features.append(line_elements[dimension:])
           else:
             break
           i += 1
-- 
2.43.0


From 549b958b7b4f1408883a66ed90ed4210c49c7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 33/53] fix: read all points without max_num_points in
 load_points_from_file_to_numpy

---
 pylib/io/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index e12719a..4971fe0 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -96,7 +96,7 @@ def load_points_from_file_to_numpy(filename,
       with tf.io.gfile.GFile(filename, 'r') as in_file:
         i = 0
         for line in in_file:
-          if max_num_points is not None and i < max_num_points:
+          if max_num_points is None or i < max_num_points:
             line_elements = line.rstrip('\r\n').split(delimiter)
             points.append(line_elements[0:dimension])
             features.append(line_elements[dimension:])
-- 
2.43.0


From 0f73a9e9e031545e460bd94f50bc26bdad1861ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 34/53] fix: use point_dimension in load_batch_of_points

---
 pylib/io/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/io/points.py b/pylib/io/points.py
index 4971fe0..73458c8 100644
--- a/pylib/io/points.py
+++ b/pylib/io/points.py
@@ -146,7 +146,8 @@ def load_batch_of_points(filenames,
   sizes = []
   for filename in filenames:
     curr_points, curr_features = load_points_from_file_to_tensor(
-        filename=filename, delimiter=delimiter, dtype=dtype)
+        filename=filename, delimiter=delimiter, dimension=point_dimension,
+        dtype=dtype)
     points.append(curr_points)
     features.append(curr_features)
     sizes.append(len(curr_points))
-- 
2.43.0


From 10570d1b9ffc3bfdfb92212b29dacda1a175fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 35/53] fix: use the documented default influence distance in
 KPConv

---
 pylib/pc/layers/KPConv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 9e71127..6f12261 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -282,7 +282,7 @@ class KPConv(tf.Module):
 
     if kernel_influence_dist is None:
       # normalized
-      self._sigma = tf.constant(1.0)
+      self._sigma = tf.constant(1.0 / 2.5)
     else:
       self._sigma = tf.convert_to_tensor(
         value=kernel_influence_dist / conv_radius, dtype=tf.float32)
-- 
2.43.0


From adf38c5d1c1e16536faa079b5608b2ea61397bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 36/53] fix: compute the ranges of centers without neighbors in
 find_neighbors_no_grid

---
 pylib/pc/custom_ops/custom_ops_tf.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index b0cad62..107aadc 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -241,7 +241,6 @@ def find_neighbors_no_grid(point_cloud,
   batch_ids = point_cloud._batch_ids
   center_points = point_cloud_centers._points
   center_batch_ids = point_cloud_centers._batch_ids
-  num_center_points = tf.shape(center_points)[0]
 
   distances = tf.linalg.norm(tf.expand_dims(points, axis=0) - \
                              tf.expand_dims(center_points, axis=1),
@@ -253,11 +252,8 @@ def find_neighbors_no_grid(point_cloud,
 
   neighbors = tf.where(close)
   neighbors = tf.reverse(neighbors, axis=[1])
-  num_neighbors = tf.shape(neighbors)[0]
-  neigh_ranges = tf.math.unsorted_segment_max(
-      tf.range(1, num_neighbors + 1),
-      neighbors[:, 1],
-      num_center_points)
+  neigh_ranges = tf.math.cumsum(
+      tf.reduce_sum(tf.cast(close, tf.int32), axis=1))
   return neigh_ranges, neighbors
 tf.no_gradient('FindNeighborsNoGrid')
 
-- 
2.43.0


From 36ad2842f17a5ba3f80ea9b0d95eb2c3df8eeb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 37/53] fix: write the hdf5 cache files of the ModelNet scripts
 atomically

---
 modelnet40.py       | 10 ++++++++--
 modelnet40_small.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/modelnet40.py b/modelnet40.py
index bd51245..0098228 100644
--- a/modelnet40.py
+++ b/modelnet40.py
@@ -89,9 +89,12 @@ else:
     if quick_test and i > 100:
         break
 
-  h5File = h5py.File(hdf5_tmp_dir + "/train_data.hdf5", "w")
+  # write to a temporary file, such that the cache file is always complete
+  tmp_file = hdf5_tmp_dir + "/train_data.hdf5.tmp"
+  h5File = h5py.File(tmp_file, "w")
   h5File.create_dataset("train_data", data=train_data_points)
   h5File.close()
+  os.replace(tmp_file, hdf5_tmp_dir + "/train_data.hdf5")
 
 if os.path.exists(hdf5_tmp_dir + "/test_data.hdf5"):
   h5File = h5py.File(hdf5_tmp_dir + "/test_data.hdf5", "r")
@@ -112,9 +115,12 @@ else:
       print(f'{i}/{len(test_set)}')
     if quick_test and i > 100:
       break
-  h5File = h5py.File(hdf5_tmp_dir + "/test_data.hdf5", "w")
+  # write to a temporary file, such that the cache file is always complete
+  tmp_file = hdf5_tmp_dir + "/test_data.hdf5.tmp"
+  h5File = h5py.File(tmp_file, "w")
   h5File.create_dataset("test_data", data=test_data_points)
   h5File.close()
+  os.replace(tmp_file, hdf5_tmp_dir + "/test_data.hdf5")
 
 
 #-----------------------------------------------
diff --git a/modelnet40_small.py b/modelnet40_small.py
index a11b335..99a12b3 100644
--- a/modelnet40_small.py
+++ b/modelnet40_small.py
@@ -87,9 +87,12 @@ else:
     if quick_test and i > 100:
       break
 
-  h5File = h5py.File(hdf5_tmp_dir + "/train_data_small.hdf5", "w")
+  # write to a temporary file, such that the cache file is always complete
+  tmp_file = hdf5_tmp_dir + "/train_data_small.hdf5.tmp"
+  h5File = h5py.File(tmp_file, "w")
   h5File.create_dataset("train_data", data=train_data_points)
   h5File.close()
+  os.replace(tmp_file, hdf5_tmp_dir + "/train_data_small.hdf5")
 
 print(f'### loading modelnet{num_classes} test ###')
 if os.path.exists(hdf5_tmp_dir + "/test_data_small.hdf5"):
@@ -110,9 +113,12 @@ else:
     if quick_test and i > 100:
       break
 
-  h5File = h5py.File(hdf5_tmp_dir + "/test_data_small.hdf5", "w")
+  # write to a temporary file, such that the cache file is always complete
+  tmp_file = hdf5_tmp_dir + "/test_data_small.hdf5.tmp"
+  h5File = h5py.File(tmp_file, "w")
   h5File.create_dataset("test_data", data=test_data_points)
   h5File.close()
+  os.replace(tmp_file, hdf5_tmp_dir + "/test_data_small.hdf5")
 
 
 #-----------------------------------------------
-- 
2.43.0


From 52e44838fd800213aea2ab265538228c779cb5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 38/53] fix: run Poisson disk sampling in graph mode

---
 pylib/pc/custom_ops/custom_ops_tf.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/custom_ops/custom_ops_tf.py b/pylib/pc/custom_ops/custom_ops_tf.py
index 107aadc..428ed11 100644
--- a/pylib/pc/custom_ops/custom_ops_tf.py
+++ b/pylib/pc/custom_ops/custom_ops_tf.py
@@ -288,8 +288,11 @@ def sampling_tf(neighborhood, sample_mode, name=None):
     # to set log prob to -inf <=> prob to zero
     tf_neg_inf = tf.constant(-np.inf)
 
-    #sample points until all log probabilites are set to -inf
-    while not tf.reduce_all(tf.math.is_inf(log_probabilities)):
+    def _has_points_left(log_probabilities, sampled_indices):
+      return tf.math.logical_not(
+          tf.reduce_all(tf.math.is_inf(log_probabilities)))
+
+    def _sample_point(log_probabilities, sampled_indices):
       choice = tf.random.categorical(
           tf.expand_dims(log_probabilities, axis=0), 1)[0]
       # add choice to sampled indices
@@ -302,6 +305,13 @@ def sampling_tf(neighborhood, sample_mode, name=None):
           log_probabilities,
           tf.expand_dims(sample_neighbors, axis=1),
           tf.repeat(tf_neg_inf, num_neighbors))
+      return log_probabilities, sampled_indices
+
+    #sample points until all log probabilites are set to -inf
+    # (explicit loop, as a python loop does not run in graph mode)
+    _, sampled_indices = tf.while_loop(
+        _has_points_left, _sample_point, (log_probabilities, sampled_indices),
+        shape_invariants=(tf.TensorShape([None]), tf.TensorShape([None])))
     sampled_points = tf.gather(points, sampled_indices)
     sampled_batch_ids = tf.gather(batch_ids, sampled_indices)
 
-- 
2.43.0


From 0269c60dfef17d1ceb0fda35a02bf912b4534fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 39/53] fix: padded point clouds without sizes in graph mode

---
 pylib/pc/PointCloud.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index d5735ac..ceffb26 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -130,8 +130,7 @@ class PointCloud:
     if self._batch_size is None:
       self._batch_size = tf.reduce_prod(self._batch_shape)
     if self._sizes is None:
-      self._sizes = tf.constant(
-          value=tf.shape(points)[-2], shape=self._batch_shape)
+      self._sizes = tf.fill(self._batch_shape, tf.shape(points)[-2])
     self._get_segment_id = tf.reshape(
         tf.range(0, self._batch_size), self._batch_shape)
     self._points, self._unflatten = flatten_batch_to_2d(points, self._sizes)
-- 
2.43.0


From 1a77c83ac653590e27e3204094355ecb79f3b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 40/53] fix: point clouds from sizes of unknown shape in graph
 mode

---
 pylib/pc/PointCloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/PointCloud.py b/pylib/pc/PointCloud.py
index ceffb26..e852a39 100755
--- a/pylib/pc/PointCloud.py
+++ b/pylib/pc/PointCloud.py
@@ -143,7 +143,7 @@ class PointCloud:
     """
     if self._batch_ids is None:
       if self._batch_size is None:
-        self._batch_size = tf.reduce_prod(self._sizes.shape)
+        self._batch_size = tf.size(self._sizes)
       self._batch_ids = tf.repeat(tf.range(0, self._batch_size),
                                   tf.reshape(self._sizes, [-1]))
       if self._sizes.shape.ndims > 1:
-- 
2.43.0


From 765fe8c52fda38552f5a9e2e67ec2092f5efe26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 41/53] fix: normalize pdfs for an unknown number of points in
 graph mode

---
 pylib/pc/Neighborhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index de59dcc..44e8123 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -280,7 +280,7 @@ class Neighborhood:
       norm_factors = tf.math.unsorted_segment_sum(
           tf.ones_like(self._pdf),
           self._neighbors[:, 1],
-          self._point_cloud_sampled._points.shape[0])
+          tf.shape(self._point_cloud_sampled._points)[0])
       self._pdf = self._pdf / tf.gather(norm_factors, self._neighbors[:, 1])
 
   def get_pdf(self, **kwargs):
-- 
2.43.0


From 0038f9baa9a12e15c718e07eeba710dcd6e05f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 42/53] fix: normalize densities for an unknown number of
 points in graph mode

---
 pylib/pc/Neighborhood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/Neighborhood.py b/pylib/pc/Neighborhood.py
index 44e8123..2ca906c 100755
--- a/pylib/pc/Neighborhood.py
+++ b/pylib/pc/Neighborhood.py
@@ -139,7 +139,7 @@ def density_estimation(point_cloud,
     unsorted_indices = tf.math.invert_permutation(grid._sorted_indices)
     pdf = tf.gather(pdf_sorted, unsorted_indices)
   if normalize:
-    pdf = pdf / point_cloud._points.shape[0]
+    pdf = pdf / tf.cast(tf.shape(point_cloud._points)[0], pdf.dtype)
   return pdf
 
 
-- 
2.43.0


From 80c2feb184f3d5f4e8b1d6b023bcbc0d394f61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 43/53] fix: deformable KPConv for an unknown number of points
 in graph mode

---
 pylib/pc/layers/KPConv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 6f12261..75be294 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -278,7 +278,7 @@ class KPConv(tf.Module):
     features = tf.cast(tf.convert_to_tensor(value=features),
                        dtype=tf.float32)
     features = _flatten_features(features, point_cloud_in)
-    self._num_output_points = point_cloud_out._points.shape[0]
+    self._num_output_points = tf.shape(point_cloud_out._points)[0]
 
     if kernel_influence_dist is None:
       # normalized
@@ -387,7 +387,7 @@ class KPConv(tf.Module):
     offset_per_nb = tf.gather(offset_per_center, neighbors[:, 1])
     # reshape to shape [M, K, self._num_dims]
     return  tf.reshape(offset_per_nb,
-                       [neighbors.shape[0],
+                       [-1,
                         self._num_kernel_points,
                         self._num_dims])
 
-- 
2.43.0


From 8d054221b04c2699b1adcf707486f04ad362ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 44/53] fix: spatial bottleneck blocks in graph mode

---
 pylib/pc/layers/network_blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 376e948..373bd5f 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -424,7 +424,8 @@ class PointResNetSpatialBottleNeck(tf.Module):
                                         radii_tensor[1],
                                         point_cloud_downsampled))
       # upsampling
-      if conv_radii[0] == conv_radii[2]:
+      static_radii = tf.get_static_value(conv_radii)
+      if static_radii is not None and static_radii[0] == static_radii[2]:
         neighborhoods.append(neighborhoods[0].transpose())
       else:
         grid_up = Grid(point_cloud_downsampled, radii_tensor[2])
-- 
2.43.0


From 2dadc1652e1b28d06b8f03505e19f1ae9b27b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 45/53] Restore the line endings of PointHierarchy.py and
 sampling.py

---
 pylib/pc/PointHierarchy.py | 378 ++++++++++++++++++-------------------
 pylib/pc/sampling.py       | 300 ++++++++++++++---------------
 2 files changed, 339 insertions(+), 339 deletions(-)

diff --git a/pylib/pc/PointHierarchy.py b/pylib/pc/PointHierarchy.py
index 1486c76..90e43bb 100755
--- a/pylib/pc/PointHierarchy.py
+++ b/pylib/pc/PointHierarchy.py
@@ -1,189 +1,189 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Class to represent a point cloud hierarchy."""
-
-import numpy as np
-import tensorflow as tf
-
-from pylib.pc.utils import check_valid_point_hierarchy_input
-
-from pylib.pc import PointCloud
-from pylib.pc import Grid
-from pylib.pc import Neighborhood
-from pylib.pc import sample
-from pylib.pc.utils import cast_to_num_dims
-
-
-class PointHierarchy:
-  """ A hierarchy of sampled point clouds.
-
-  Args:
-    point_cloud: A `PointCloud` instance..
-    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
-      the cell sizes for the sampling. The length of the list defines
-      the number of samplings.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  """
-
-  def __init__(self,
-               point_cloud: PointCloud,
-               cell_sizes,
-               sample_mode='poisson',
-               name=None):
-    #Initialize the attributes.
-    self._aabb = point_cloud.get_AABB()
-    self._point_clouds = [point_cloud]
-    self._cell_sizes = []
-    self._neighborhoods = []
-
-    self._dimension = point_cloud._dimension
-    self._batch_shape = point_cloud._batch_shape
-
-    #Create the different sampling operations.
-    cur_point_cloud = point_cloud
-    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
-      cur_cell_sizes  = tf.reshape(tf.convert_to_tensor(
-          value=cur_cell_sizes, dtype=tf.float32), [-1])
-
-      # Check if the cell size is defined for all the dimensions.
-      # If not, the last cell size value is tiled until all the dimensions
-      # have a value.
-      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
-      cur_cell_sizes = tf.cond(
-          cur_num_dims < self._dimension,
-          lambda: tf.concat((cur_cell_sizes,
-                             tf.tile(tf.gather(cur_cell_sizes,
-                                               [cur_num_dims - 1]),
-                                     [self._dimension - cur_num_dims])),
-                            axis=0),
-          lambda: cur_cell_sizes)
-      tf.assert_greater(
-          self._dimension + 1,
-          cur_num_dims,
-          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-          f'instead of max. {self._dimension}')
-      # old version, does not run in graph mode
-      # if cur_num_dims < self._dimension:
-      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
-      #                  tf.tile(tf.gather(cur_cell_sizes,
-      #                                    [tf.rank(cur_cell_sizes) - 1]),
-      #                    [self._dimension - cur_num_dims])),
-      #                       axis=0)
-      # if cur_num_dims > self._dimension:
-      #   raise ValueError(
-      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
-      #       f'instead of max. {self._dimension}')
-
-      self._cell_sizes.append(cur_cell_sizes)
-
-      #Create the sampling operation.
-      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
-      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
-      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
-
-      self._neighborhoods.append(
-          Neighborhood(cur_grid, cur_cell_sizes, cur_point_cloud))
-      cur_point_cloud.set_batch_shape(self._batch_shape)
-      self._point_clouds.append(cur_point_cloud)
-
-  def get_points(self, batch_id=None, max_num_points=None, name=None):
-    """ Returns the points.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-      If called withoud specifying 'id' returns the points in padded format
-      `[A1, ..., An, V, D]`.
-
-    Args:
-      batch_id: An `int`, identifier of point cloud in the batch, if `None`
-        returns all points.
-
-    Return:
-      A list of `float` `Tensors` of shape
-          `[N_i, D]`, if 'batch_id' was given
-      or
-        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
-    """
-    points = []
-    for point_cloud in self._point_clouds:
-      points.append(point_cloud.get_points(batch_id, max_num_points))
-    return points
-
-  def get_sizes(self, name=None):
-    """ Returns the sizes of the point clouds in the point hierarchy.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Returns:
-      A `list` of `Tensors` of shape '`[A1, .., An]`'
-
-    """
-
-    sizes = []
-    for point_cloud in self._point_clouds:
-      sizes.append(point_cloud.get_sizes())
-    return sizes
-
-  def set_batch_shape(self, batch_shape, name=None):
-    """ Function to change the batch shape.
-
-      Use this to set a batch shape instead of using 'self._batch_shape'
-      to also change dependent variables.
-
-    Note:
-      In the following, A1 to An are optional batch dimensions.
-
-    Args:
-      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
-
-    Raises:
-      ValueError: if shape does not sum up to batch size.
-
-    """
-    for point_cloud in self._point_clouds:
-      point_cloud.set_batch_shape(batch_shape)
-
-  def get_neighborhood(self, i=None, transposed=False):
-    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
-    If called without argument returns a list of all neighborhoods.
-
-    Args:
-      i: An `int`, can be negative but must be in range
-        `[-num_levels, num_levels-1]`.
-      transposed: A `bool`, if `True` returns the neighborhood between
-        level `i+1` and `i`.
-
-    Returs:
-      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
-
-    """
-    if i is None:
-      if transposed:
-        return [nb.transpose() for nb in self._neighborhoods]
-      else:
-        return self._neighborhoods
-    else:
-      if transposed:
-        return self._neighborhoods[i].transpose()
-      else:
-        return self._neighborhoods[i]
-
-  def __getitem__(self, index):
-    return self._point_clouds[index]
-
-  def __len__(self):
-    return len(self._point_clouds)
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Class to represent a point cloud hierarchy."""
+
+import numpy as np
+import tensorflow as tf
+
+from pylib.pc.utils import check_valid_point_hierarchy_input
+
+from pylib.pc import PointCloud
+from pylib.pc import Grid
+from pylib.pc import Neighborhood
+from pylib.pc import sample
+from pylib.pc.utils import cast_to_num_dims
+
+
+class PointHierarchy:
+  """ A hierarchy of sampled point clouds.
+
+  Args:
+    point_cloud: A `PointCloud` instance..
+    cell_sizes: A list of  `floats` or `float` `Tensors` of shape `[D]`,
+      the cell sizes for the sampling. The length of the list defines
+      the number of samplings.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  """
+
+  def __init__(self,
+               point_cloud: PointCloud,
+               cell_sizes,
+               sample_mode='poisson',
+               name=None):
+    #Initialize the attributes.
+    self._aabb = point_cloud.get_AABB()
+    self._point_clouds = [point_cloud]
+    self._cell_sizes = []
+    self._neighborhoods = []
+
+    self._dimension = point_cloud._dimension
+    self._batch_shape = point_cloud._batch_shape
+
+    #Create the different sampling operations.
+    cur_point_cloud = point_cloud
+    for sample_iter, cur_cell_sizes in enumerate(cell_sizes):
+      cur_cell_sizes  = tf.reshape(tf.convert_to_tensor(
+          value=cur_cell_sizes, dtype=tf.float32), [-1])
+
+      # Check if the cell size is defined for all the dimensions.
+      # If not, the last cell size value is tiled until all the dimensions
+      # have a value.
+      cur_num_dims = tf.gather(cur_cell_sizes.shape, 0)
+      cur_cell_sizes = tf.cond(
+          cur_num_dims < self._dimension,
+          lambda: tf.concat((cur_cell_sizes,
+                             tf.tile(tf.gather(cur_cell_sizes,
+                                               [cur_num_dims - 1]),
+                                     [self._dimension - cur_num_dims])),
+                            axis=0),
+          lambda: cur_cell_sizes)
+      tf.assert_greater(
+          self._dimension + 1,
+          cur_num_dims,
+          f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+          f'instead of max. {self._dimension}')
+      # old version, does not run in graph mode
+      # if cur_num_dims < self._dimension:
+      #   cur_cell_sizes = tf.concat((cur_cell_sizes,
+      #                  tf.tile(tf.gather(cur_cell_sizes,
+      #                                    [tf.rank(cur_cell_sizes) - 1]),
+      #                    [self._dimension - cur_num_dims])),
+      #                       axis=0)
+      # if cur_num_dims > self._dimension:
+      #   raise ValueError(
+      #       f'Too many dimensions in cell sizes {cur_num_dims} ' + \
+      #       f'instead of max. {self._dimension}')
+
+      self._cell_sizes.append(cur_cell_sizes)
+
+      #Create the sampling operation.
+      cur_grid = Grid(cur_point_cloud, cur_cell_sizes, self._aabb)
+      cur_neighborhood = Neighborhood(cur_grid, cur_cell_sizes)
+      cur_point_cloud, _ = sample(cur_neighborhood, sample_mode)
+
+      self._neighborhoods.append(
+          Neighborhood(cur_grid, cur_cell_sizes, cur_point_cloud))
+      cur_point_cloud.set_batch_shape(self._batch_shape)
+      self._point_clouds.append(cur_point_cloud)
+
+  def get_points(self, batch_id=None, max_num_points=None, name=None):
+    """ Returns the points.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+      If called withoud specifying 'id' returns the points in padded format
+      `[A1, ..., An, V, D]`.
+
+    Args:
+      batch_id: An `int`, identifier of point cloud in the batch, if `None`
+        returns all points.
+
+    Return:
+      A list of `float` `Tensors` of shape
+          `[N_i, D]`, if 'batch_id' was given
+      or
+        `[A1, ..., An, V_i, D]`, if no 'batch_id' was given.
+    """
+    points = []
+    for point_cloud in self._point_clouds:
+      points.append(point_cloud.get_points(batch_id, max_num_points))
+    return points
+
+  def get_sizes(self, name=None):
+    """ Returns the sizes of the point clouds in the point hierarchy.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Returns:
+      A `list` of `Tensors` of shape '`[A1, .., An]`'
+
+    """
+
+    sizes = []
+    for point_cloud in self._point_clouds:
+      sizes.append(point_cloud.get_sizes())
+    return sizes
+
+  def set_batch_shape(self, batch_shape, name=None):
+    """ Function to change the batch shape.
+
+      Use this to set a batch shape instead of using 'self._batch_shape'
+      to also change dependent variables.
+
+    Note:
+      In the following, A1 to An are optional batch dimensions.
+
+    Args:
+      batch_shape: An 1D `int` `Tensor` `[A1, ..., An]`.
+
+    Raises:
+      ValueError: if shape does not sum up to batch size.
+
+    """
+    for point_cloud in self._point_clouds:
+      point_cloud.set_batch_shape(batch_shape)
+
+  def get_neighborhood(self, i=None, transposed=False):
+    """ Returns the neighborhood between level `i` and `i+1` of the hierarchy.
+    If called without argument returns a list of all neighborhoods.
+
+    Args:
+      i: An `int`, can be negative but must be in range
+        `[-num_levels, num_levels-1]`.
+      transposed: A `bool`, if `True` returns the neighborhood between
+        level `i+1` and `i`.
+
+    Returs:
+      A `Neighborhood` instance or a `list` of `Neighborhood` instances.
+
+    """
+    if i is None:
+      if transposed:
+        return [nb.transpose() for nb in self._neighborhoods]
+      else:
+        return self._neighborhoods
+    else:
+      if transposed:
+        return self._neighborhoods[i].transpose()
+      else:
+        return self._neighborhoods[i]
+
+  def __getitem__(self, index):
+    return self._point_clouds[index]
+
+  def __len__(self):
+    return len(self._point_clouds)
diff --git a/pylib/pc/sampling.py b/pylib/pc/sampling.py
index 9ea0303..18090c1 100755
--- a/pylib/pc/sampling.py
+++ b/pylib/pc/sampling.py
@@ -1,150 +1,150 @@
-# Copyright 2020 The TensorFlow Authors
-#
-# Licensed under the Apache License, Version 2.0 (the "License");
-# you may not use this file except in compliance with the License.
-# You may obtain a copy of the License at
-#
-#    https://www.apache.org/licenses/LICENSE-2.0
-#
-# Unless required by applicable law or agreed to in writing, software
-# distributed under the License is distributed on an "AS IS" BASIS,
-# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-# See the License for the specific language governing permissions and
-# limitations under the License.
-"""Methods to sample point clouds. """
-
-import tensorflow as tf
-
-from pylib.pc.custom_ops import sampling
-
-from pylib.pc import PointCloud, Neighborhood, Grid
-from pylib.pc.utils import cast_to_num_dims
-
-sample_modes = {'average': 1,
-                'cell average': 1,
-                'cell_average': 1,
-                'poisson': 0,
-                'poisson disk': 0,
-                'poisson_disk': 0}
-
-
-def poisson_disk_sampling(point_cloud,
-                          radius=None,
-                          neighborhood=None,
-                          return_ids=False,
-                          name=None):
-  """ Poisson disk sampling of a point cloud.
-
-  Note: Either `radius` or `neighborhood` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
-      Poisson disk sampling.
-    neighborhood: A `Neighborhood` instance.
-    return_ids: A `bool`, if `True` returns the indices of the sampled points.
-      (optional)
-
-    Returns:
-      A `PointCloud` instance.
-      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
-
-    Raises:
-      ValueError: If no radius or neighborhood is given.
-
-  """
-  if radius is None and neighborhood is None:
-    raise ValueError(
-        "Missing Argument! Either radius or neighborhood must be given!")
-  if neighborhood is None:
-    # compute neighborhood
-    radii = cast_to_num_dims(radius, point_cloud._dimension)
-    grid = Grid(point_cloud, radii)
-    neighborhood = Neighborhood(grid, radii)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_modes['poisson'])
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  if return_ids:
-    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
-                                sampled_indices)
-    return sampled_point_cloud, sampled_indices
-  else:
-    return sampled_point_cloud
-
-
-def cell_average_sampling(point_cloud,
-                          cell_sizes=None,
-                          grid=None,
-                          name=None):
-  """ Cell average sampling of a point cloud.
-
-  Note: Either `cell_sizes` or `grid` must be provided.
-
-  Args:
-    point_cloud: A `PointCloud` instance.
-    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
-      for the sampling.
-    grid: A `Grid` instance.
-
-    Returns:
-      A `PointCloud` instance.
-
-    Raises:
-      ValueError: If no radius or grid is given.
-
-  """
-  if cell_sizes is None and grid is None:
-    raise ValueError(
-        "Missing Argument! Either cell_sizes or grid must be given!")
-  if grid is None:
-    # compute grid
-    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
-    grid = Grid(point_cloud, cell_sizes)
-
-  neighborhood = Neighborhood(grid, grid._cell_sizes)
-
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_modes['average'])
-
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size)
-
-  return sampled_point_cloud
-
-
-def sample(neighborhood, sample_mode='poisson', name=None):
-  """ Sampling for a neighborhood.
-
-  Args:
-    neighborhood: A `Neighborhood` instance.
-    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
-
-  Returns:
-    A `PointCloud` instance, the sampled points.
-    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
-      `None` for cell average sampling.
-
-  """
-  sample_mode_value = sample_modes[sample_mode.lower()]
-  #Compute the sampling.
-  sampled_points, sampled_batch_ids, sampled_indices = \
-      sampling(neighborhood, sample_mode_value)
-
-  #Save the sampled point cloud.
-  if sample_mode_value == 0:
-    sampled_indices = tf.gather(
-        neighborhood._grid._sorted_indices, sampled_indices)
-  else:
-    sampled_indices = None
-  sampled_point_cloud = PointCloud(
-      points=sampled_points, batch_ids=sampled_batch_ids,
-      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
-  return sampled_point_cloud, sampled_indices
+# Copyright 2020 The TensorFlow Authors
+#
+# Licensed under the Apache License, Version 2.0 (the "License");
+# you may not use this file except in compliance with the License.
+# You may obtain a copy of the License at
+#
+#    https://www.apache.org/licenses/LICENSE-2.0
+#
+# Unless required by applicable law or agreed to in writing, software
+# distributed under the License is distributed on an "AS IS" BASIS,
+# WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+# See the License for the specific language governing permissions and
+# limitations under the License.
+"""Methods to sample point clouds. """
+
+import tensorflow as tf
+
+from pylib.pc.custom_ops import sampling
+
+from pylib.pc import PointCloud, Neighborhood, Grid
+from pylib.pc.utils import cast_to_num_dims
+
+sample_modes = {'average': 1,
+                'cell average': 1,
+                'cell_average': 1,
+                'poisson': 0,
+                'poisson disk': 0,
+                'poisson_disk': 0}
+
+
+def poisson_disk_sampling(point_cloud,
+                          radius=None,
+                          neighborhood=None,
+                          return_ids=False,
+                          name=None):
+  """ Poisson disk sampling of a point cloud.
+
+  Note: Either `radius` or `neighborhood` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    radius: A `float` or a `float` `Tensor` of shape `[D]`, the radius for the
+      Poisson disk sampling.
+    neighborhood: A `Neighborhood` instance.
+    return_ids: A `bool`, if `True` returns the indices of the sampled points.
+      (optional)
+
+    Returns:
+      A `PointCloud` instance.
+      An `int` `Tensor` of shape `[S]`, if `return_ids` is `True`.
+
+    Raises:
+      ValueError: If no radius or neighborhood is given.
+
+  """
+  if radius is None and neighborhood is None:
+    raise ValueError(
+        "Missing Argument! Either radius or neighborhood must be given!")
+  if neighborhood is None:
+    # compute neighborhood
+    radii = cast_to_num_dims(radius, point_cloud._dimension)
+    grid = Grid(point_cloud, radii)
+    neighborhood = Neighborhood(grid, radii)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_modes['poisson'])
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  if return_ids:
+    sampled_indices = tf.gather(neighborhood._grid._sorted_indices,
+                                sampled_indices)
+    return sampled_point_cloud, sampled_indices
+  else:
+    return sampled_point_cloud
+
+
+def cell_average_sampling(point_cloud,
+                          cell_sizes=None,
+                          grid=None,
+                          name=None):
+  """ Cell average sampling of a point cloud.
+
+  Note: Either `cell_sizes` or `grid` must be provided.
+
+  Args:
+    point_cloud: A `PointCloud` instance.
+    cell_sizes: A `float` or a `float` `Tensor` of shape `[D]`, the cell sizes
+      for the sampling.
+    grid: A `Grid` instance.
+
+    Returns:
+      A `PointCloud` instance.
+
+    Raises:
+      ValueError: If no radius or grid is given.
+
+  """
+  if cell_sizes is None and grid is None:
+    raise ValueError(
+        "Missing Argument! Either cell_sizes or grid must be given!")
+  if grid is None:
+    # compute grid
+    cell_sizes = cast_to_num_dims(cell_sizes, point_cloud._dimension)
+    grid = Grid(point_cloud, cell_sizes)
+
+  neighborhood = Neighborhood(grid, grid._cell_sizes)
+
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_modes['average'])
+
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size)
+
+  return sampled_point_cloud
+
+
+def sample(neighborhood, sample_mode='poisson', name=None):
+  """ Sampling for a neighborhood.
+
+  Args:
+    neighborhood: A `Neighborhood` instance.
+    sample_mode: A `string`, either `'poisson'`or `'cell average'`.
+
+  Returns:
+    A `PointCloud` instance, the sampled points.
+    An `int` `Tensor` of shape `[S]`, the indices of the sampled points,
+      `None` for cell average sampling.
+
+  """
+  sample_mode_value = sample_modes[sample_mode.lower()]
+  #Compute the sampling.
+  sampled_points, sampled_batch_ids, sampled_indices = \
+      sampling(neighborhood, sample_mode_value)
+
+  #Save the sampled point cloud.
+  if sample_mode_value == 0:
+    sampled_indices = tf.gather(
+        neighborhood._grid._sorted_indices, sampled_indices)
+  else:
+    sampled_indices = None
+  sampled_point_cloud = PointCloud(
+      points=sampled_points, batch_ids=sampled_batch_ids,
+      batch_size=neighborhood._point_cloud_sampled._batch_size_numpy)
+  return sampled_point_cloud, sampled_indices
-- 
2.43.0


From d6e513b31c09fea41643ccc766d79359abf2da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 46/53] fix: finite regularization loss for neighborhoods
 without points

---
 pylib/pc/layers/KPConv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 75be294..819565b 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -410,6 +410,10 @@ class KPConv(tf.Module):
     min_dists_per_nbh = tf.math.unsorted_segment_min(point_dist,
                                                      neighbors[:, 1],
                                                      self._num_output_points)
+    # neighborhoods without points have no distance to fit
+    min_dists_per_nbh = tf.where(
+        min_dists_per_nbh < min_dists_per_nbh.dtype.max,
+        min_dists_per_nbh, tf.zeros_like(min_dists_per_nbh))
     loss_fit = tf.reduce_sum(min_dists_per_nbh)
 
     # repulsive loss for kernel points with overlapping influence area.
-- 
2.43.0


From 3359a3586b09300cd312d1affe8c85766a8f8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 47/53] fix: offsets of blocks in the scan were read after the
 next ones were written

propagate_down_counters kept the offset in shared memory, which the first
thread of the block overwrote for the next round while others still read it.
---
 .../cc/kernels/scan_alg_kernels.cu.cc           | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
index a4ab33a..6fb780b 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/scan_alg_kernels.cu.cc
@@ -144,11 +144,7 @@
     const int* __restrict__ pBlockCounter,
     int* __restrict__ pElems)
 {
-    //Declare the shared memory.
-    __shared__ int blockOffset;
-
-    //Get the local and global thread index.
-    int localThread = threadIdx.x;
+    //Get the global thread index.
     int initElemIndex = mccnn::compute_global_index_gpu_funct();
     int totalThreads = mccnn::compute_total_threads_gpu_funct();
     
@@ -156,15 +152,8 @@
         curElemIndex < pNumElems; 
         curElemIndex+=totalThreads)
     {
-        //The the offset of the block.
-        if(localThread == 0){
-            blockOffset = pBlockCounter[curElemIndex/pCBlockSize];
-        }
-
-        __syncthreads();
-
-        //Update the counters.
-        pElems[curElemIndex] += blockOffset;
+        //Update the counters with the offset of the block.
+        pElems[curElemIndex] += pBlockCounter[curElemIndex/pCBlockSize];
     }
 }
 
-- 
2.43.0


From 4e9a907eb15d663c888dd316c317b6b9764ecc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 48/53] fix: ranges of neighboring cells continued in the next
 row of cells

With four or more dimensions, the range of keys of an offset ran over the end
of the last dimension, such that neighbors were listed twice.
---
 .../cc/kernels/find_ranges_grid_ds_kernels.cu.cc       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
index aa4dfb3..ef6e08a 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/find_ranges_grid_ds_kernels.cu.cc
@@ -61,8 +61,8 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
     int initPtIndex = mccnn::compute_global_index_gpu_funct();
     int totalThreads = mccnn::compute_total_threads_gpu_funct();
 
-    //Calculate the total number of cells.
-    mccnn::int64_m totalCells = mccnn::compute_total_num_cells_gpu_funct(pNumCells[0]);
+    //Get the number of cells in the last dimension.
+    mccnn::int64_m lastDCells = pNumCells[0][D-1];
 
     for(int curIter = initPtIndex; curIter < pNumSamples*pNumOffsets; curIter += totalThreads)
     {
@@ -103,8 +103,10 @@ __global__ void find_ranges_grid_ds_gpu_kernel(
                 mccnn::int64_m auxKey = mccnn::compute_key_gpu_funct(auxCell, pNumCells[0], cellIndex[0]);
                 mccnn::int64_m maxKey = auxKey+pLastDOffsets;
                 mccnn::int64_m minKey = auxKey-pLastDOffsets;
-                maxKey = (auxKey/totalCells == maxKey/totalCells)?maxKey:((auxKey/totalCells)*totalCells) + totalCells - 1;
-                minKey = (auxKey/totalCells == minKey/totalCells)?minKey:((auxKey/totalCells)*totalCells);
+                //The range can not continue in the next row of cells, since those
+                //cells are part of the range of another offset.
+                maxKey = (auxKey/lastDCells == maxKey/lastDCells)?maxKey:((auxKey/lastDCells)*lastDCells) + lastDCells - 1;
+                minKey = (auxKey/lastDCells == minKey/lastDCells)?minKey:((auxKey/lastDCells)*lastDCells);
 
                 //Declare iterators and auxiliar variables.
                 int2 curMinRange = make_int2(0, rangeSize);
-- 
2.43.0


From 313b4e885a7281062f7820050a22cce1273f85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 49/53] fix: offsets of cells were copied from a buffer after
 its release

The copies of the second loop of FindNeighbors (four or more dimensions) could
still be pending when the op returned. All offsets are copied once.
---
 .../cc/ops/find_neighbors_ops.cpp             | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 4371275..7b3a742 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -166,8 +166,6 @@ namespace mccnn{
                 mccnn::int64_m* tmpGPUPtr1 = gpuDevice->getInt64TmpGPUBuffer(numSamples);
                 int* tmpGPUPtr2 = gpuDevice->getIntTmpGPUBuffer(
                     numSamples*NUM_OFFSETS_X_COMPUTE_BLOCK*2);
-                int* tmpGPUPtr3 = gpuDevice->getIntTmpGPUBuffer(
-                    NUM_OFFSETS_X_COMPUTE_BLOCK*numDimensions);
 
                 //Compute the keys of the samples.
                 DIMENSION_SWITCH_CALL(numDimensions, mccnn::compute_keys_gpu,
@@ -185,18 +183,20 @@ namespace mccnn{
                 int* combOffsetsPinnedMem = gpuDevice->getIntTmpGPUBuffer(bufferSize, true);
                 memcpy((void*)combOffsetsPinnedMem, (void*)&combOffsets[0], sizeof(int)*bufferSize);
 
+                //Copy to device all the offsets. The copy is finished before the scan algorithm 
+                //returns, and therefore before the pinned memory is released.
+                int* tmpGPUPtr3 = gpuDevice->getIntTmpGPUBuffer(bufferSize);
+                gpuDevice->memcpy_host_to_device(
+                    tmpGPUPtr3, combOffsetsPinnedMem, sizeof(int)*bufferSize);
+                gpuDevice->check_error(__FILE__, __LINE__);
+
                 for(int i = 0; i < numOfComputations; ++i)
                 {
-                    //Copy to device the offsets.
-                    gpuDevice->memcpy_host_to_device(tmpGPUPtr3, 
-                        &combOffsetsPinnedMem[numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i], 
-                        sizeof(int)*numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK);
-                    gpuDevice->check_error(__FILE__, __LINE__);
-
                     //Find ranges of points to check in the data structure.
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::find_ranges_grid_ds_gpu,
                         gpuDevice, numSamples, numPts, 1, NUM_OFFSETS_X_COMPUTE_BLOCK, 
-                        tmpGPUPtr3, tmpGPUPtr1, ptKeysGPUPtr,
+                        tmpGPUPtr3 + numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i,
+                        tmpGPUPtr1, ptKeysGPUPtr,
                         gridDsGPUPtr, numCellsGPUPtr, tmpGPUPtr2);
 
                     //Count neighbors.
@@ -228,16 +228,11 @@ namespace mccnn{
                 for(int i = 0; i < numOfComputations; ++i)
                 {
                     if(numOfComputations > 1){
-                        //Copy to device the offsets.
-                        gpuDevice->memcpy_host_to_device(tmpGPUPtr3, 
-                            &combOffsetsPinnedMem[numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i], 
-                            sizeof(int)*numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK);
-                        gpuDevice->check_error(__FILE__, __LINE__);
-
                         //Find ranges of points to check in the data structure.
                         DIMENSION_SWITCH_CALL(numDimensions, mccnn::find_ranges_grid_ds_gpu,
                             gpuDevice, numSamples, numPts, 1, NUM_OFFSETS_X_COMPUTE_BLOCK, 
-                            tmpGPUPtr3, tmpGPUPtr1, ptKeysGPUPtr,
+                            tmpGPUPtr3 + numDimensions*NUM_OFFSETS_X_COMPUTE_BLOCK*i,
+                            tmpGPUPtr1, ptKeysGPUPtr,
                             gridDsGPUPtr, numCellsGPUPtr, tmpGPUPtr2);
                     }
 
-- 
2.43.0


From 973fdfcfdfea45e12174a6716d40ed2cfd1b6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 50/53] fix: limited neighborhoods lost and repeated neighbors

The counters were shared by the position and the number of neighbors found, and
cleared between blocks of offsets, and several threads could write a neighbor
at the same time.
---
 .../cc/kernels/store_neighbors.h              | 10 ++++-
 .../cc/kernels/store_neighbors_kernels.cu.cc  | 41 ++++++++++++++-----
 .../cc/ops/find_neighbors_ops.cpp             | 13 +++++-
 3 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
index 68a941d..72490f1 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors.h
@@ -43,6 +43,12 @@ namespace mccnn{
      *  @param  pOutGPUPtrNumNeighsU    Input/Output pointer to the vector  
      *      with the number of neighbors for each sample without the limit of
      *      pMaxNeighbors.
+     *  @param  pTmpGPUPtrCounter       Input/Output pointer to the vector
+     *      with the number of neighbors found so far for each sample. Only 
+     *      used if pMaxNeighbors > 0.
+     *  @param  pInGPUPtrStart          Input pointer to the vector with the 
+     *      position of the first neighbor of each sample. Only used if 
+     *      pMaxNeighbors > 0.
      *  @param  pOutGPUPtrNumNeighs     Input/Output pointer to the vector  
      *      with the number of neighbors for each sample on the GPU.
      *  @param  pOutGPUPtrNeighs        Output pointer to the vector with the 
@@ -60,9 +66,11 @@ namespace mccnn{
         const int* pInGPUPtrRanges,
         const float* pInGPUPtrInvRadii,
         int* pOutGPUPtrNumNeighsU,
+        int* pTmpGPUPtrCounter,
+        const int* pInGPUPtrStart,
         int* pOutGPUPtrNumNeighs,
         int* pOutGPUPtrNeighs);
         
 }
 
-#endif
\ No newline at end of file
+#endif
\ No newline at end of file
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
index 011ea22..9e3114b 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/kernels/store_neighbors_kernels.cu.cc
@@ -29,6 +29,21 @@
 
 ///////////////////////// GPU
 
+/**
+ *  Store a neighbor in a position to which several threads might write.
+ *  @param  pNeigh          Position of the neighbor.
+ *  @param  pPtIndex        Index of the point.
+ *  @param  pSampleIndex    Index of the sample.
+ */
+__device__ __forceinline__ void store_neighbor(
+    int2* pNeigh,
+    const int pPtIndex,
+    const int pSampleIndex)
+{
+    atomicExch((unsigned long long int*)pNeigh, 
+        ((unsigned long long int)(unsigned int)pSampleIndex << 32) | (unsigned int)pPtIndex);
+}
+
 /**
  *  GPU kernel to store the number of neighbors for each sample.
  *  @param  pSeed           Seed used to initialize the random state.
@@ -43,6 +58,7 @@
  *  @param  pOutNumNeighsU  Number of neighbors for each sample
  *      without the limit imposed by pMaxNeighbors.
  *  @param  pAuxCounter     Auxiliar counter.
+ *  @param  pStart          Position of the first neighbor of each sample.
  *  @param  pOutNumNeighs   Number of neighbors for each sample.
  *  @param  pOutNeighs      Final beighbors.
  *  @tparam D               Number of dimensions.
@@ -59,6 +75,7 @@
     const mccnn::fpoint<D>* __restrict__ pInvRadii,
     const int* __restrict__ pOutNumNeighsU,
     int* __restrict__ pAuxCounter,
+    const int* __restrict__ pStart,
     int* __restrict__ pOutNumNeighs,
     int2* __restrict__ pOutNeighs)
 {
@@ -93,8 +110,9 @@
                 //Increment the shared counters.
                 int neighIndex = atomicAdd(&pAuxCounter[sampleIndex], 1);
                 if(neighIndex < pMaxNeighbors){
-                    neighIndex = atomicAdd(&pOutNumNeighs[sampleIndex], 1);
-                    pOutNeighs[neighIndex] = make_int2(curPtIter, sampleIndex);
+                    atomicAdd(&pOutNumNeighs[sampleIndex], 1);
+                    store_neighbor(&pOutNeighs[pStart[sampleIndex] + neighIndex], 
+                        curPtIter, sampleIndex);
                 }else{
                     float ratio = (float)pMaxNeighbors/(float)pOutNumNeighsU[sampleIndex];
                     curSeed = mccnn::rand_xorshift(curSeed);
@@ -102,8 +120,10 @@
                     if(uniformVal < ratio){
                         curSeed = mccnn::rand_xorshift(curSeed);
                         uniformVal = mccnn::seed_to_float(curSeed);
-                        neighIndex = (int)floor(uniformVal*((float)pMaxNeighbors))+1;
-                        pOutNeighs[pOutNumNeighs[sampleIndex] - neighIndex] = make_int2(curPtIter, sampleIndex);
+                        neighIndex = min((int)floor(uniformVal*((float)pMaxNeighbors)), 
+                            pMaxNeighbors-1);
+                        store_neighbor(&pOutNeighs[pStart[sampleIndex] + neighIndex], 
+                            curPtIter, sampleIndex);
                     }
                 }
             }
@@ -181,6 +201,8 @@ void mccnn::store_neighbors(
     const int* pInGPUPtrRanges,
     const float* pInGPUPtrInvRadii,
     int* pOutGPUPtrNumNeighsU,
+    int* pTmpGPUPtrCounter,
+    const int* pInGPUPtrStart,
     int* pOutGPUPtrNumNeighs,
     int* pOutGPUPtrNeighs)
 {
@@ -194,10 +216,6 @@ void mccnn::store_neighbors(
     unsigned int blockSize;
     if(pMaxNeighbors > 0){
         //Create a temporal tensor.
-        int* tmpVect = pDevice->getIntTmpGPUBuffer(pNumSamples);
-        pDevice->memset(tmpVect, 0, sizeof(int)*pNumSamples);
-        pDevice->check_error(__FILE__, __LINE__);
-
         //Calculate the ideal number of blocks for the selected block size.
         unsigned int numMP = gpuProps.numMPs_;
         blockSize = gpuProps.warpSize_*2;
@@ -222,7 +240,8 @@ void mccnn::store_neighbors(
             (const int2*)pInGPUPtrRanges,
             (const mccnn::fpoint<D>*)pInGPUPtrInvRadii,
             pOutGPUPtrNumNeighsU,
-            tmpVect,
+            pTmpGPUPtrCounter,
+            pInGPUPtrStart,
             pOutGPUPtrNumNeighs,
             (int2*)pOutGPUPtrNeighs);
         pDevice->check_error(__FILE__, __LINE__);
@@ -282,7 +301,9 @@ void mccnn::store_neighbors(
         const int* pInGPUPtrRanges,             \
         const float* pInGPUPtrInvRadii,         \
         int* pOutGPUPtrNumNeighsU,              \
+        int* pTmpGPUPtrCounter,                 \
+        const int* pInGPUPtrStart,              \
         int* pOutGPUPtrNumNeighs,               \
         int* pOutGPUPtrNeighs);
 
-DECLARE_TEMPLATE_DIMS(STORE_NEIGHS_TEMP_DECL)
\ No newline at end of file
+DECLARE_TEMPLATE_DIMS(STORE_NEIGHS_TEMP_DECL)
\ No newline at end of file
diff --git a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
index 7b3a742..9f1aca2 100755
--- a/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
+++ b/custom_ops/tfg_custom_ops/find_neighbors/cc/ops/find_neighbors_ops.cpp
@@ -217,6 +217,17 @@ namespace mccnn{
                 unsigned int numNeighbors =  mccnn::scan_alg(
                     gpuDevice, numSamples, outputGPUPtr1);
 
+                //Create the counters used to select the neighbors if they are limited.
+                int* tmpGPUPtr5 = nullptr;
+                int* tmpGPUPtr6 = nullptr;
+                if(maxNeighs_ > 0){
+                    tmpGPUPtr5 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memset(tmpGPUPtr5, 0, sizeof(int)*numSamples);
+                    tmpGPUPtr6 = gpuDevice->getIntTmpGPUBuffer(numSamples);
+                    gpuDevice->memcpy_device_to_device(tmpGPUPtr6, outputGPUPtr1, sizeof(int)*numSamples);
+                    gpuDevice->check_error(__FILE__, __LINE__);
+                }
+
                 //Create the second output tensor.
                 int* outputGPUPtr2 = nullptr;
                 TensorShape outShape2 = TensorShape{numNeighbors, 2};
@@ -240,7 +251,7 @@ namespace mccnn{
                     DIMENSION_SWITCH_CALL(numDimensions, mccnn::store_neighbors,
                         gpuDevice, maxNeighs_, numSamples, NUM_OFFSETS_X_COMPUTE_BLOCK,  
                         samplesGPUPtr, ptsGPUPtr, tmpGPUPtr2, invRadiiGPUPtr, 
-                        tmpGPUPtr4, outputGPUPtr1, outputGPUPtr2);
+                        tmpGPUPtr4, tmpGPUPtr5, tmpGPUPtr6, outputGPUPtr1, outputGPUPtr2);
                 }
             }
 
-- 
2.43.0


From 4c51b5f0536af0adcfcb8ce86289091913d662a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 51/53] fix: radii in double precision for
 PointResNetSpatialBottleNeck

---
 pylib/pc/layers/network_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 373bd5f..763302e 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -407,7 +407,7 @@ class PointResNetSpatialBottleNeck(tf.Module):
     """
     features = tf.convert_to_tensor(value=features, dtype=tf.float32)
     features = _flatten_features(features, point_cloud)
-    conv_radii = tf.convert_to_tensor(value=conv_radii)
+    conv_radii = tf.convert_to_tensor(value=conv_radii, dtype=tf.float32)
     radii = tf.reshape(conv_radii, [3, 1])
 
     if neighborhoods is None:
-- 
2.43.0


From 8d2c33c021f1c9dc7039ba641e7910a8e5685b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 52/53] fix: refuse features of another dimension in PointConv
 and KPConv

---
 pylib/pc/layers/KPConv.py    | 5 +++++
 pylib/pc/layers/PointConv.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pylib/pc/layers/KPConv.py b/pylib/pc/layers/KPConv.py
index 819565b..6f68aed 100644
--- a/pylib/pc/layers/KPConv.py
+++ b/pylib/pc/layers/KPConv.py
@@ -277,6 +277,11 @@ class KPConv(tf.Module):
 
     features = tf.cast(tf.convert_to_tensor(value=features),
                        dtype=tf.float32)
+
+    tf.assert_equal(
+        tf.shape(features)[-1],
+        self._num_features_in)
+
     features = _flatten_features(features, point_cloud_in)
     self._num_output_points = tf.shape(point_cloud_out._points)[0]
 
diff --git a/pylib/pc/layers/PointConv.py b/pylib/pc/layers/PointConv.py
index 1a9fa94..f4d97bd 100644
--- a/pylib/pc/layers/PointConv.py
+++ b/pylib/pc/layers/PointConv.py
@@ -246,6 +246,11 @@ class PointConv(tf.Module):
 
     features = tf.cast(tf.convert_to_tensor(value=features),
                        dtype=tf.float32)
+
+    tf.assert_equal(
+        tf.shape(features)[-1],
+        self._num_features_in)
+
     features = _flatten_features(features, point_cloud_in)
 
     #Create the radii tensor.
-- 
2.43.0


From 340d42afe41f8a87783742f8cff216cf31b26913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:39 +0000
Subject: [PATCH 53/53] fix: refuse features of another dimension in ResNet
 blocks before building them

---
 pylib/pc/layers/network_blocks.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pylib/pc/layers/network_blocks.py b/pylib/pc/layers/network_blocks.py
index 763302e..31b524a 100644
--- a/pylib/pc/layers/network_blocks.py
+++ b/pylib/pc/layers/network_blocks.py
@@ -66,6 +66,7 @@ class PointResNet(tf.Module):
                **kwargs):
     super().__init__(name=name)
 
+    self._num_features = num_features
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
@@ -123,6 +124,11 @@ class PointResNet(tf.Module):
 
     """
     features = tf.convert_to_tensor(value=features, dtype=tf.float32)
+
+    tf.assert_equal(
+        tf.shape(features)[-1],
+        self._num_features)
+
     features = _flatten_features(features, point_cloud)
 
     if neighborhood is None:
@@ -199,6 +205,7 @@ class PointResNetBottleNeck(tf.Module):
                **kwargs):
     super().__init__(name=name)
 
+    self._num_features = num_features
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
@@ -261,6 +268,11 @@ class PointResNetBottleNeck(tf.Module):
 
     """
     features = tf.convert_to_tensor(value=features, dtype=tf.float32)
+
+    tf.assert_equal(
+        tf.shape(features)[-1],
+        self._num_features)
+
     features = _flatten_features(features, point_cloud)
 
     if neighborhood is None:
@@ -333,6 +345,7 @@ class PointResNetSpatialBottleNeck(tf.Module):
                **kwargs):
     super().__init__(name=name)
 
+    self._num_features = num_features
     self._num_dims = num_dims
     self._num_blocks = num_blocks
     self._activation = activation
@@ -406,6 +419,11 @@ class PointResNetSpatialBottleNeck(tf.Module):
 
     """
     features = tf.convert_to_tensor(value=features, dtype=tf.float32)
+
+    tf.assert_equal(
+        tf.shape(features)[-1],
+        self._num_features)
+
     features = _flatten_features(features, point_cloud)
     conv_radii = tf.convert_to_tensor(value=conv_radii, dtype=tf.float32)
     radii = tf.reshape(conv_radii, [3, 1])
-- 
2.43.0

