From 19d7009b6d2a4cb2dd63660d875da41011e22446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:12 +0000
Subject: [PATCH 01/35] fix: traverse trees whose levels are empty

Levels with no data have no groupby, so checking the tree or reducing it
raised AttributeError. An empty file could not be loaded with the default
arguments. Treat an empty level as having no IDs.
---
 glmtools/io/traversal.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index 6c0e0e3..59ef053 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -101,6 +101,13 @@ class OneToManyTraversal(object):
         """ Iterate from children to parents"""
         yield from zip(self.entity_id_vars[::-1], self.parent_id_vars[::-1])
 
+    @staticmethod
+    def _group_indices(grouper):
+        """ Dictionary of ID -> indices for a groupby. There is no groupby, and
+        there are no IDs, if the dimension that would be grouped is empty.
+        """
+        return {} if grouper is None else grouper.groups
+
     def count_children(self, entity_id_var, child_entity_id_var=None):
         """ Count the children of entity_id_var.
 
@@ -124,7 +131,7 @@ class OneToManyTraversal(object):
         all_counts = []
         for e_var, p_var in self._descend():
             if count_next == True:
-                grouper = self.parent_groups[p_var].groups
+                grouper = self._group_indices(self.parent_groups[p_var])
                 count = [len(grouper[eid]) if (eid in grouper) else 0
                          for eid in last_entity_ids]
                 last_entity_ids = self.dataset[e_var].data
@@ -213,7 +220,7 @@ class OneToManyTraversal(object):
         prune = False
         for e_var, p_var in self._descend():
             if prune == True:
-                p_group = self.parent_groups[p_var].groups
+                p_group = self._group_indices(self.parent_groups[p_var])
                 e_iter = (p_group[eid] for eid in last_entity_ids
                           if eid in p_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -233,7 +240,7 @@ class OneToManyTraversal(object):
                 # the need to index along two dimensions at once the first time
                 # through.
                 prune = True
-                e_group = self.entity_groups[e_var].groups
+                e_group = self._group_indices(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -257,7 +264,7 @@ class OneToManyTraversal(object):
         # child at the level of entity_id_var
         for e_var, p_var in self._ascend():
             if (prune == True):
-                e_group = self.entity_groups[e_var].groups
+                e_group = self._group_indices(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in last_entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -332,11 +339,12 @@ class OneToManyTraversal(object):
             # e.g., group_parent_flash_id
             # Check the entity ID variable and its corresponding parent data for the same set of IDs
             parent_grouper = trav.parent_groups[parent_var]
-            parent_ids = set(parent_grouper.groups.keys())
+            parent_ids = set(self._group_indices(parent_grouper).keys())
 
             # e.g., flash_id
             parent_entity_grouper = trav.entity_groups[id_entity_for_parent_var]
-            parent_entity_ids = set(parent_entity_grouper.groups.keys())
+            parent_entity_ids = set(
+                self._group_indices(parent_entity_grouper).keys())
 
             # Ensure no replication of IDs at the parent level. There should
             # only be on entity ID for each entity.
-- 
2.43.0


From 715872ae8d1b419c23020728f4702ab82edc533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:17 +0000
Subject: [PATCH 02/35] fix: drop orphan groups and childless groups when
 repairing the tree

Repair kept any flash ID named by a group, so groups whose flash is not in
the file stayed, as did groups without events, and the loaded tree was still
inconsistent. Keep just the groups that have a flash and at least one event,
and everything above and below them.
---
 glmtools/io/glm.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac65fe6..d056a8d 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -208,14 +208,19 @@ class GLMDataset(OneToManyTraversal):
                 if orphan_child_count > 0: tree_problems = True
             if tree_problems:
                 # Make a self consistent tree by pruning the tree to just the
-                # valid flash IDs, which has the side effect of making
-                # everything else self-consistent.
+                # groups that have both a parent flash and at least one event,
+                # which has the side effect of making everything else
+                # self-consistent.
                 log.warning('Fixing inconsistent parent-child IDs '
                             'in file {0}'.format(filename))
-                flashes_with_no_groups = entity_var_stats['flash_id'][2]
-                unq_fl_id = set(list(dataset.group_parent_flash_id.data))
-                good_fl_id = list(unq_fl_id - flashes_with_no_groups)
-                ds_fixed = test_trav.reduce_to_entities('flash_id', good_fl_id)
+                flashes_not_in_file = parent_var_stats['group_parent_flash_id'][2]
+                groups_with_no_events = entity_var_stats['group_id'][2]
+                good_gr_id = [gr_id for gr_id, fl_id in
+                              zip(dataset.group_id.data,
+                                  dataset.group_parent_flash_id.data)
+                              if ((fl_id not in flashes_not_in_file) and
+                                  (gr_id not in groups_with_no_events))]
+                ds_fixed = test_trav.reduce_to_entities('group_id', good_gr_id)
                 dataset = ds_fixed
 
         self._filename = filename
-- 
2.43.0


From dc32f1826a238cd94c4d24fd045fc032f5ef2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:35 +0000
Subject: [PATCH 03/35] fix: allow subset_flashes without the event field of
 view check

With check_event_xy=False the list of flash IDs passing that check was never
assigned, and the call raised UnboundLocalError.
---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index d056a8d..9c96356 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -533,7 +533,7 @@ class GLMDataset(OneToManyTraversal):
             # log.debug("Subsetting bad events with override ranges {0}".format(
                 # check_event_kw))
             good_event_flash_ids = self._check_event_xy(**check_event_kw)
-        flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
+            flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
         return self.get_flashes(flash_ids)
 
     def get_flashes(self, flash_ids):
-- 
2.43.0


From dea74f65300d4f624a60c5f4b3dfc6a40e566b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 04/35] fix: infer the lightning ellipsoid from the product
 time

The year, month and so on of the product time are data arrays, which
datetime does not accept, so loading a file without naming the ellipsoid
revision failed with a TypeError.
---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 9c96356..32ff18a 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -557,8 +557,8 @@ class GLMDataset(OneToManyTraversal):
         if ellipse_rev < 0:
             log.info("Inferring lightning ellipsoid from GLM product time")
             pt = self.dataset.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
+            date = datetime(int(pt.year), int(pt.month), int(pt.day),
+                            int(pt.hour), int(pt.minute), int(pt.second))
             ellipse_rev = ltg_ellpse_rev(date)
         log.info("Using lightning ellipsoid rev {0}".format(ellipse_rev))
 
-- 
2.43.0


From 1a3fc137fad136454aa0f51375592da13e42862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:35 +0000
Subject: [PATCH 05/35] fix: build the event lookup table for datasets without
 events

Grouping raises a ValueError when there is nothing to group, for instance
after subsetting to a region without flashes.
---
 glmtools/io/glm.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 32ff18a..ebb3914 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -637,10 +637,6 @@ def get_lutevents(dataset, scale_factor=28e-6, event_dim='number_of_events',
 
     xy_id = discretize_2d_location(event_x, event_y, scale_factor, x_range, y_range)
     dataset['event_parent_lutevent_id'] = xr.DataArray(xy_id, dims=[event_dim,])
-    eventlut_groups = dataset.groupby('event_parent_lutevent_id')
-    flash_id_groupby = dataset.groupby('flash_id')
-    group_id_groupby = dataset.groupby('group_id')
-    n_lutevents = len(eventlut_groups.groups)
 
     # Create a new dimension for the reduced set of events, with their
     # properties aggregated.
@@ -661,10 +657,20 @@ def get_lutevents(dataset, scale_factor=28e-6, event_dim='number_of_events',
                       ('lutevent_min_flash_area', 'f8')
                       ]
 
-    lut_iter = event_lut_iter(eventlut_groups, flash_id_groupby, group_id_groupby,
-                   event_x, event_y, event_energy, product_time,
-                   ev_flash_id, ev_group_id, flash_area, group_area)
-    event_lut = np.fromiter(lut_iter, dtype=eventlut_dtype, count=n_lutevents)
+    if len(xy_id) == 0:
+        # No events, so groupby will fail in xarray > 0.13
+        event_lut = np.empty(0, dtype=eventlut_dtype)
+    else:
+        eventlut_groups = dataset.groupby('event_parent_lutevent_id')
+        flash_id_groupby = dataset.groupby('flash_id')
+        group_id_groupby = dataset.groupby('group_id')
+        n_lutevents = len(eventlut_groups.groups)
+        lut_iter = event_lut_iter(eventlut_groups, flash_id_groupby,
+                       group_id_groupby, event_x, event_y, event_energy,
+                       product_time, ev_flash_id, ev_group_id, flash_area,
+                       group_area)
+        event_lut = np.fromiter(lut_iter, dtype=eventlut_dtype,
+                                count=n_lutevents)
     lutevents = xr.Dataset.from_dataframe(
                     pd.DataFrame(event_lut).set_index('lutevent_id'))
     dataset.update(lutevents)
-- 
2.43.0


From 27e61a235cff378764c96d4a631a9848120acf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:46 +0000
Subject: [PATCH 06/35] fix: give the last column of locations its own IDs

Positions run from zero to the maximum inclusive, so there is one more
column than the maximum, and the last one shared its IDs with the first
column of the next row.
---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ebb3914..bfbfe2e 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -742,5 +742,6 @@ def discretize_2d_location(x, y, scale, x_range, y_range, int_type='uint64'):
     discr_y_max = np.array((y_range[1]-y_offset)/scale, dtype=int_type)
     x_discr = ((x - x_offset) / scale).astype(int_type)
     y_discr = ((y - y_offset) / scale).astype(int_type)
-    xy_discr = x_discr + y_discr*discr_x_max
+    # There are discr_x_max+1 possible values of x_discr, including zero.
+    xy_discr = x_discr + y_discr*(discr_x_max + np.array(1, dtype=int_type))
     return xy_discr
-- 
2.43.0


From 27c2d23e728032fcd331556ea6fdc5bedae645e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:00 +0000
Subject: [PATCH 07/35] fix: look up the ellipsoid radii for a date

The function called to get the revision for the date did not exist.
---
 glmtools/io/lightning_ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/lightning_ellipse.py b/glmtools/io/lightning_ellipse.py
index fa0a469..1b7aa20 100644
--- a/glmtools/io/lightning_ellipse.py
+++ b/glmtools/io/lightning_ellipse.py
@@ -62,7 +62,7 @@ def ltg_ellps_radii(date):
     Returns: re_ltg_ellps, rp_ltg_ellps (meters): equatorial and polar radii
         of the lightning ellipsoid, respectively.
     """
-    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellps_rev(date)]
+    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellpse_rev(date)]
     return re_ltg_ellps, rp_ltg_ellps
 
 def ltg_ellps_lon_lat_to_fixed_grid(lon, lat, sat_lon, ellipse_rev,
-- 
2.43.0


From c12854b62421402af683cf147acc261fe4a6f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:39 +0000
Subject: [PATCH 08/35] fix: keep grid cells for bounding boxes that reach
 beyond the grid

---
 glmtools/grid/clipping.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 41c298c..793d94d 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -328,13 +328,14 @@ class QuadMeshSubset(object):
         # print(valid) -> [False, False,  True,  True,  True, False]
         idxx = np.digitize(xlim, self.X_edge1d, right=True) - 1
         idxy = np.digitize(ylim, self.Y_edge1d, right=True) - 1
-        validx = (idxx >= 0) & (idxx < self.N_X_ctr)
-        validy = (idxy >= 0) & (idxy < self.N_Y_ctr)
-        idxx = idxx[validx]
-        idxy = idxy[validy]
+        # A limit beyond the edge of the grid has an index of -1 or n_bins, and
+        # only clips the bounding box if the other limit is within the grid or
+        # beyond its opposite edge.
+        overlapx = (idxx.max() >= 0) & (idxx.min() < self.N_X_ctr)
+        overlapy = (idxy.max() >= 0) & (idxy.min() < self.N_Y_ctr)
         # print('indices x', idxx, self.X_edge1d.min(), self.X_edge1d.max())
         # print('indices y', idxy, self.Y_edge1d.min(), self.Y_edge1d.max())
-        if (len(idxx) > 0) & (len(idxy) > 0):
+        if overlapx & overlapy:
             xi_min = max(idxx.min() - pad, 0)
             xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
             yi_min = max(idxy.min() - pad, 0)
-- 
2.43.0


From 0c6ce33bad7d337a0cb3ab40644d79f65fc130ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:12 +0000
Subject: [PATCH 09/35] fix: find mesh cells larger than the bounding box

---
 glmtools/grid/clipping.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 793d94d..1da35a0 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -377,15 +377,14 @@ class QuadMeshSubset(object):
         # centers are outside of the bbox
         # goodx = (self.X_ctr >= xlim[0]) & (self.X_ctr <= xlim[1])
         # goody = (self.Y_ctr >= ylim[0]) & (self.Y_ctr <= ylim[1])
-        goodx = np.zeros(self.quads.shape[0:2], dtype=bool)
-        goody = np.zeros(self.quads.shape[0:2], dtype=bool)
-
-        for qi in range(4):
-            # loop over the quad corners, keeping quads with at least one corner in bounds
-            goodx |= ((self.quads[:,:,qi,0] >= xlim[0]) &
-                      (self.quads[:,:,qi,0] <= xlim[1]))
-            goody |= ((self.quads[:,:,qi,1] >= ylim[0]) &
-                      (self.quads[:,:,qi,1] <= ylim[1]))
+        # Nor is it enough to look for quad corners in the bbox, since the bbox
+        # may fall between the corners of a larger quad. Instead, keep quads
+        # whose extent overlaps the bbox.
+        quad_x, quad_y = self.quads[:,:,:,0], self.quads[:,:,:,1]
+        goodx = ((quad_x.max(axis=2) >= xlim[0]) &
+                 (quad_x.min(axis=2) <= xlim[1]))
+        goody = ((quad_y.max(axis=2) >= ylim[0]) &
+                 (quad_y.min(axis=2) <= ylim[1]))
         quad_x_idx, quad_y_idx = np.where((goodx & goody))
         quads = self.quads[quad_x_idx, quad_y_idx, :, :]
         return quads, quad_x_idx, quad_y_idx
-- 
2.43.0


From 5869673dfaf8b1047fc0dcd360f7c20a88af32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:25 +0000
Subject: [PATCH 10/35] fix: look up the nearest cell when there is only one

---
 glmtools/grid/clipping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 1da35a0..493af88 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -265,9 +265,10 @@ class QuadMeshSubset(object):
         """
         dists, quad_x_idx, quad_y_idx = self.query_tree(x)
         # quads = [q for q in self.gen_polys(quad_x_idx, quad_y_idx)]
-        # Squeeze a leading dimension of 1 on x/y_idx and therefore on quads
-        quads = self.quads[quad_x_idx, quad_y_idx, :, :].squeeze()
-        return quads, quad_x_idx.squeeze(), quad_y_idx.squeeze()
+        # Flatten a leading dimension of 1 on x/y_idx and therefore on quads
+        quad_x_idx, quad_y_idx = quad_x_idx.flatten(), quad_y_idx.flatten()
+        quads = self.quads[quad_x_idx, quad_y_idx, :, :]
+        return quads, quad_x_idx, quad_y_idx
 
     def _quads_in_bbox_regular(self, bbox, pad=2):
         """ Assume a perfectly regular grid, with uniform spacing in x and y
-- 
2.43.0


From 2d4cc7efe692aa7b9663cb1007ce5f24291eb961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:25 +0000
Subject: [PATCH 11/35] fix: slice polygons with a bounding box given by the
 caller

---
 glmtools/grid/clipping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 493af88..4c4edb5 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -563,9 +563,8 @@ class QuadMeshPolySlicer(object):
         patch_coll.set_array(np.fromiter((0 for p in polys), dtype=float))
         ax1.add_collection(patch_coll)
         """
-        if bbox == True:
-            recalc_bbox = True
-            # else use the bbox that is specified exactly
+        # If not recalculated, use the bbox that is specified exactly
+        recalc_bbox = (bbox is True)
 
         poly_arr = [np.asarray(p) for p in polys]
         areas = [np.abs(poly_area(p[:,0], p[:,1])) for p in poly_arr]
-- 
2.43.0


From 951a5f71fed297eb515256783ebf98a2406b19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:25 +0000
Subject: [PATCH 12/35] fix: use positive mesh cell areas for either corner
 order

---
 glmtools/grid/clipping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 4c4edb5..3aad4e8 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -172,8 +172,8 @@ class QuadMeshSubset(object):
         log.info('    ... {0} quads in mesh ...'.format(nq))
         self.quads_flat = self.quads.view()
         self.quads_flat.shape = (nq, 4, 2) # flatten the first two dimensions
-        self.quad_areas = vectorized_poly_area(self.quads_flat[:, :, 0],
-                                               self.quads_flat[:, :, 1])
+        self.quad_areas = np.abs(vectorized_poly_area(
+            self.quads_flat[:, :, 0], self.quads_flat[:, :, 1]))
         # self.quad_areas = np.abs(np.fromiter(
             # (poly_area(q[:,0], q[:,1]) for q in self.quads_flat),
             # dtype='f8', count=nq))
-- 
2.43.0


From 9969410b43b2bcdf4b3e58b029f094b8973ccf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:29 +0000
Subject: [PATCH 13/35] fix: return no split events when no event overlaps the
 target grid

---
 glmtools/io/mimic_lma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f4bd3d5..629cc02 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -820,6 +820,10 @@ def _fake_lma_events_from_split_glm_lutevents(split_events, basedate):
                  ('lutevent_min_flash_area', 'f4'),
                  ]
 
+    if split_events.split_event_mesh_x_idx.shape[0] == 0:
+        # None of the events overlap the target grid, so there is nothing to do
+        return np.empty((0,), dtype=lut_split_event_dtype)
+
     split_events['split_event_mesh_area_fraction'] = np.fabs(
             split_events.split_event_mesh_area_fraction)
 
-- 
2.43.0


From c9d1fcc7715776750c3a564f97713e57f1527915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:59 +0000
Subject: [PATCH 14/35] fix: slice events with every grid cell they cover, not
 only those near their center

---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 629cc02..38d27ce 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -187,7 +187,7 @@ def fast_fixed_grid_read_chunk(flash_data, target=None, base_date=None, nadir_lo
     slicer = QuadMeshPolySlicer(mesh)
     # --- Split up the events ---
     log.info("Starting to split events")
-    chopped_polys, poly_areas = slicer.slice(event_polys)
+    chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
     log.info("Sliced all events")
     split_event_polys, split_event_properties = split_event_data(
         chopped_polys, poly_areas, slicer, event_ids=event_ids)
@@ -418,7 +418,7 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         slicer = QuadMeshPolySlicer(mesh)
         # --- Split up the events ---
         log.info("Starting to split events")
-        chopped_polys, poly_areas = slicer.slice(event_polys)
+        chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
         log.info("Sliced all events")
         split_event_polys, split_event_properties = split_event_data(chopped_polys, poly_areas, slicer, event_ids=event_ids)
         if fixed_grid:
-- 
2.43.0


From fa42a0588cbf31dcc5448b85b654c27e5165a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:20 +0000
Subject: [PATCH 15/35] fix: leave the accumulated grids unchanged when writing
 imagery

---
 glmtools/io/imagery.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6f2c4bd..8a565d5 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -531,7 +531,10 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         xenc, yenc = dataset.x.encoding, dataset.y.encoding
 
         for i, (grid_allt, field_name, description, units, outformat) in enumerate(file_iter):
-            grid = grid_allt[x_slice,y_slice,ti]
+            # Work on a copy, so that dividing the grid or adjusting values to
+            # fit the packed format doesn't change the accumulated data, which
+            # may also be the denominator of another grid.
+            grid = grid_allt[x_slice,y_slice,ti].copy()
             if i in self.divide_grids:
                 denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]
                 zeros = (denom == 0) | (grid == 0)
-- 
2.43.0


From b04a08ea6aefe836ed0f19a40a91f5c4527b456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:15 +0000
Subject: [PATCH 16/35] fix: use the requested scale_and_offset option for
 every subgrid

---
 glmtools/grid/make_grids.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 1836557..978bea5 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -600,8 +600,9 @@ class GLMlutGridder(GLMGridder):
                     output_writer_3d = None,
                     output_filename_prefix = None, output_kwargs={}):
 
-        pad = output_kwargs.pop('pad', None)
-        scale_and_offset = output_kwargs.pop('scale_and_offset', True)
+        # Don't modify output_kwargs, since it is shared by all subgrids
+        pad = output_kwargs.get('pad', None)
+        scale_and_offset = output_kwargs.get('scale_and_offset', True)
 
         from glmtools.io.imagery import write_goes_imagery
         all_outfiles = write_goes_imagery(self, outpath=outpath, pad=pad,
@@ -914,8 +915,8 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
 
     preprocess_out = out_kwargs_ij.pop('preprocess_out', None)
     if preprocess_out: # in out_kwargs_ij:
-        if 'output_kwargs' not in out_kwargs_ij:
-            out_kwargs_ij['output_kwargs'] = {}
+        out_kwargs_ij['output_kwargs'] = dict(
+            out_kwargs_ij.get('output_kwargs', {}))
         # Used by GLMlutGridder.write_grids, but not the others.
         out_kwargs_ij['output_kwargs']['pad'] = preprocess_out.get_pad_slices()
 
-- 
2.43.0


From bc9a5157fd0dd90504c247b1a828a4b8a62230e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:16 +0000
Subject: [PATCH 17/35] fix: find the time range to aggregate with current
 versions of pandas

---
 glmtools/io/imagery.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 8a565d5..2187f87 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -604,11 +604,8 @@ def aggregate(glm, minutes, start_end=None):
         start = start_end[0]
         end = start_end[1]
     else:
-        start = pd.Timestamp(glm['time'].min().data).to_pydatetime()
-        end = pd.Timestamp(glm['time'].max().data).to_pydatetime() + dt
-        # The lines below might be necessary replacements for a future version
-        # start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
-        # end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
+        start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
+        end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
         # dt_np = (end - start).data
         # duration = pd.to_timedelta(dt_np).to_pytimedelta()
     duration = end - start
-- 
2.43.0


From 8e889a2bdbc2d376bdd255a57f506152f0b1fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:28 +0000
Subject: [PATCH 18/35] fix: include the first image in each interval when
 aggregating imagery

---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 2187f87..f91a0b6 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -629,8 +629,8 @@ def aggregate(glm, minutes, start_end=None):
     sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
-    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-    t_groups_min = min_data.groupby_bins('time', bins=t_bins)
+    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
+    t_groups_min = min_data.groupby_bins('time', bins=t_bins, right=False)
 
     aggregated_min = t_groups_min.min(dim='time', keep_attrs=True, skipna=True)
 
-- 
2.43.0


From 1c06d2e343e1fc46a16c97ea60c82ae1707d79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:28 +0000
Subject: [PATCH 19/35] fix: aggregate average group area from the group fields

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index f91a0b6..57f0057 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -626,7 +626,7 @@ def aggregate(glm, minutes, start_end=None):
 
 
     sum_data['total_flash_area'] = glm.average_flash_area*glm.flash_extent_density
-    sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
+    sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
     t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
-- 
2.43.0


From 58a644510fb966bfac3b388b614476bfd09ea1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 20/35] fix: return the names of the imagery files that were
 written

The GLMlutGridder writes its files directly, so the list kept by the output
preprocessor is empty and the names were dropped.
---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 978bea5..0dcc16e 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -932,7 +932,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
         # to resolve this inconsistency with a rearchitecture of how the
         # subgrids are handled - avoiding the hacky output preprocessor in
         # all cases.
-        outfilenames = preprocess_out.write_all()
+        outfilenames = preprocess_out.write_all() or output
     else:
         outfilenames = gridder.write_grids(**out_kwargs_ij)
 
-- 
2.43.0


From 703e45442181a29e42eafa2eebb79eba877fe0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 21/35] fix: allow imagery output paths without a directory

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 57f0057..31891a1 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -522,7 +522,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         outfile = outpath.format(start_time=start, end_time=end,
                                  dataset_name=dataset.attrs['dataset_name'])
         enclosing_dir = os.path.dirname(outfile)
-        if os.path.exists(enclosing_dir) == False:
+        if enclosing_dir and os.path.exists(enclosing_dir) == False:
             os.makedirs(enclosing_dir)
 
         # Adding a new variable to the dataset below clears the coord attrs
-- 
2.43.0


From 678834097888f96607c6c59e46babb7ea9b488dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 22/35] fix: write imagery for periods without any lightning

The file attributes needed when writing were only saved from files that
contain events.
---
 glmtools/grid/make_grids.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 0dcc16e..3aaf626 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -895,6 +895,9 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             process_flash_kwargs_ij))
         sys.stdout.flush()
         glm = GLMDataset(filename, ellipse_rev=ellipse_rev)
+        if not saved_first_file_metadata:
+            gridder.first_file_attrs = dict(glm.dataset.attrs)
+            saved_first_file_metadata = True
         # Pre-load the whole dataset, as recommended by the xarray docs.
         # This saves an absurd amount of time (factor of 80ish) in
         # grid.split_events.replicate_and_split_events
@@ -902,10 +905,6 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
             # xarray 0.12.1 (and others?) throws an error when trying to load
             # data from an empty dimension.
             glm.dataset.load()
-
-            if not saved_first_file_metadata:
-                gridder.first_file_attrs = dict(glm.dataset.attrs)
-                saved_first_file_metadata = True
             gridder.process_flashes(glm, **process_flash_kwargs_ij)
         else:
             log.info("Skipping {0} - number of events is 0".format(filename))
-- 
2.43.0


From e6bc863fe73a6b8175ae5d455a2598bcfb232df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:19 +0000
Subject: [PATCH 23/35] fix: infer the lightning ellipsoid when gridding
 without naming one

---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 3aaf626..d4363bd 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -863,7 +863,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
     """
 
     subgridij, kwargsij, process_flash_kwargs_ij, out_kwargs_ij, pads = subgrid
-    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev')
+    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev', -1)
 
     # Eventually, we want to trim off n_x/y_pad from each side of the grid
     # n_x_pad, n_y_pad, x_pad, y_pad = pads
-- 
2.43.0


From b5d156904e80e54c658602d1c1808b2f8e81c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:04 +0000
Subject: [PATCH 24/35] fix: use a datetime, not an array, to look up GLM files
 by time

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 38d27ce..cbc1e81 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1033,7 +1033,7 @@ class GLMncCollection(LMAh5Collection):
         glm = GLMDataset(fname, calculate_parent_child=False)
         # Get the time, using 'seconds' resolution because GLM files are
         # produced on 20 s boundaries (or any number of even seconds)
-        t_start = glm.dataset.product_time.data.astype('M8[s]').astype('O')
+        t_start = glm.dataset.product_time.data.astype('M8[s]').item()
         # In the LMA API, we track the table name in the H5 file that goes
         # with the time. No such thing exists for GLM data.
         self._time_lookup[t_start] = (fname, None)
-- 
2.43.0


From 22053fb8a168684834b8dd61c67634f8ec374f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:21 +0000
Subject: [PATCH 25/35] fix: stack lists of event and flash chunks, not
 generators

---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index cbc1e81..fb47386 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1053,8 +1053,8 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = (d['flash'][0] for d in fake_lma)
-        fl_chunks = (d['flash'][1] for d in fake_lma)
+        ev_chunks = [d['flash'][0] for d in fake_lma]
+        fl_chunks = [d['flash'][1] for d in fake_lma]
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From dd429a5df0136d85cbb2a1a2fdfb9f173d583278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:44 +0000
Subject: [PATCH 26/35] fix: return empty tables for GLM files without any
 selected flashes

---
 glmtools/io/mimic_lma.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index fb47386..d3229b9 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1055,7 +1055,12 @@ class GLMncCollection(LMAh5Collection):
                                 clip_events=False)
         ev_chunks = [d['flash'][0] for d in fake_lma]
         fl_chunks = [d['flash'][1] for d in fake_lma]
-        events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
+        if len(fake_lma) > 0:
+            events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
+        else:
+            # No flashes in the file, or none that meet the criteria
+            events = np.empty(0, dtype=event_dtype)
+            flashes = np.empty(0, dtype=flash_dtype)
         log.info('data from {0}'.format(fname))
         return events, flashes
 
-- 
2.43.0


From 718ddefb29680b757cd7ddd45303960c5dc9668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:44 +0000
Subject: [PATCH 27/35] fix: use the given base date for time series of GLM
 flashes

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index d3229b9..ffbc45c 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1069,7 +1069,7 @@ class TimeSeriesGLMFlashSubset(TimeSeriesGenericFlashSubset):
                     min_events=None, min_groups=None,
                     lon_range=None, lat_range=None):
         super(TimeSeriesGLMFlashSubset, self).__init__(t_start, t_end, dt,
-                                                    base_date=None)
+                                                    base_date=base_date)
         self.lma = GLMncCollection(glm_filenames, base_date=self.base_date,
                                    min_points=min_events, min_groups=min_groups,
                                    lat_range=lat_range, lon_range=lon_range)
-- 
2.43.0


From d811de6efa089f8fd0b3490b5bd7ee5f23d6e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:41 +0000
Subject: [PATCH 28/35] fix: count the events of each flash and group in the
 point tables

---
 glmtools/io/mimic_lma.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index ffbc45c..16e5230 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -661,7 +661,7 @@ def _fake_lma_from_glm_flashes(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.flash_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.flash_child_event_count.data
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -726,7 +726,7 @@ def _fake_lma_from_glm_groups(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.group_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.group_child_event_count.data
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -792,7 +792,7 @@ def _fake_lma_from_glm_events(flash_data, basedate,
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.event_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = 1
 
     # Fake the altitude data
     event_np['alt'] = 0.0
@@ -909,7 +909,7 @@ def _fake_lma_from_glm_lutflashes(flash_data, basedate):
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.flash_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.flash_child_event_count.data
 
     # Fake the altitude data
     flash_np['ctr_z'] = 0.0
@@ -932,7 +932,7 @@ def _fake_lma_from_glm_lutgroups(flash_data, basedate):
     flash_np['start'] = t_start
     flash_np['duration'] = t_end-t_start
     flash_np['flash_id'] = flash_data.group_id.data
-    flash_np['n_points'] = flash_data.number_of_events.shape[0]
+    flash_np['n_points'] = flash_data.group_child_event_count.data
 
     # Fake the altitude data
     flash_np['ctr_z'] = 0.0
-- 
2.43.0


From 62f41a3d42786a37c7c071b63fe6c6f5a2251a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:30 +0000
Subject: [PATCH 29/35] fix: set the coordinates of converted LCFA listings
 without the removed inplace option

---
 glmtools/io/convert_lcfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 4fb4ae5..663ec63 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -149,7 +149,7 @@ def merge_dataframes_to_xarray(flashes, groups, events):
     flx = flashes.to_xarray()
     grx = groups.to_xarray()
     egf = evx.merge(grx).merge(flx)
-    egf.set_coords(nc_coords, inplace=True)
+    egf = egf.set_coords(nc_coords)
     return egf
 
 def main(infile, outfile):
-- 
2.43.0


From c5f0b1bcea536671a8e88430c9a17aafa49de414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:18 +0000
Subject: [PATCH 30/35] fix: round to the stored integers when correcting
 unsigned values

---
 glmtools/io/glm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index bfbfe2e..9701c66 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -61,7 +61,8 @@ def fix_unsigned(data, is_xarray=True):
     dtype = data.encoding['dtype'].str.replace('i', 'u')
     scale_factor = data.encoding['scale_factor']
     add_offset = data.encoding['add_offset']
-    unscale = ((data - add_offset)/scale_factor).data.astype(dtype).astype('float64')
+    # Round, since removing the scaling only approximately recovers the integers.
+    unscale = np.rint(((data - add_offset)/scale_factor).data).astype(dtype).astype('float64')
     fixed = unscale * scale_factor + add_offset
     return fixed
 
@@ -98,8 +99,8 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
 
     if is_xarray==True:
         # unscale the data
-        unscale_lat = ((event_lats - lat_fov[0])/scale_factor).data.astype('int32')
-        unscale_lon = ((event_lons - lon_fov[0])/scale_factor).data.astype('int32')
+        unscale_lat = np.rint(((event_lats - lat_fov[0])/scale_factor).data).astype('int32')
+        unscale_lon = np.rint(((event_lons - lon_fov[0])/scale_factor).data).astype('int32')
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-- 
2.43.0


From ae139dab4dfbe5a43acddaece4097067e4270b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:18 +0000
Subject: [PATCH 31/35] fix: do not reread the times when loading an already
 open dataset from Oct-Nov 2018

---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 9701c66..7a2c633 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -244,7 +244,7 @@ class GLMDataset(OneToManyTraversal):
         else:
             self.dataset = dataset
 
-        if fix_bad_DO07_times:
+        if fix_bad_DO07_times and not isinstance(filename, xr.Dataset):
             did_fix = self._check_and_fix_missing_unsigned_time(filename)
         if check_area_units:
             # Check for missing areas (from overflow of the max value
-- 
2.43.0


From f257d440ed082c7cdeaacbca6f7eee45d96ff9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:31:53 +0000
Subject: [PATCH 32/35] fix: correct the Oct-Nov 2018 times before pruning
 inconsistent entities

---
 glmtools/io/glm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 7a2c633..c8d57dc 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -195,6 +195,11 @@ class GLMDataset(OneToManyTraversal):
                              self.entity_ids, self.parent_ids)
         else:
             dataset = xr.open_dataset(filename)
+            if fix_bad_DO07_times:
+                # Before the tree is pruned, while the dataset still has the
+                # same entities as the file the times are read from.
+                self.dataset = dataset
+                did_fix = self._check_and_fix_missing_unsigned_time(filename)
 
         if check_tree:
             tree_problems = False
@@ -244,8 +249,6 @@ class GLMDataset(OneToManyTraversal):
         else:
             self.dataset = dataset
 
-        if fix_bad_DO07_times and not isinstance(filename, xr.Dataset):
-            did_fix = self._check_and_fix_missing_unsigned_time(filename)
         if check_area_units:
             # Check for missing areas (from overflow of the max value
             # allowed by the scale_factor) before ensuring units are always km^2
-- 
2.43.0


From 822c15c04f8249819cce6b256914832f2c00873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:13 +0000
Subject: [PATCH 33/35] fix: drop unused date that stopped splitting flashes on
 the fixed grid with NameError

---
 glmtools/io/mimic_lma.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 16e5230..b59e669 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -391,10 +391,6 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         # unioning by a little bit to avoid the above problem.
 
         if fixed_grid:
-            pt = flash_data.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
-
             x_lut, y_lut, corner_lut = load_pixel_corner_lookup(corner_pickle)
             # Convert from microradians to radians
             x_lut = x_lut * 1.0e-6
-- 
2.43.0


From 2f7583d022df668e0ae83086f4094451fd19c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:58 +0000
Subject: [PATCH 34/35] fix: conserve energy and area of flashes and groups
 whose footprint is in several parts

---
 glmtools/grid/split_events.py | 20 ++++++++++++++++++++
 glmtools/io/mimic_lma.py      |  6 +++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/glmtools/grid/split_events.py b/glmtools/grid/split_events.py
index 3711455..2b449da 100644
--- a/glmtools/grid/split_events.py
+++ b/glmtools/grid/split_events.py
@@ -43,6 +43,26 @@ def gen_split_events(chopped_polys, poly_areas, slicer, event_ids=None):
                 sq_means, frac_areas, x_idxs, y_idxs, quad_fracs):
             yield(sq, sq_mean, frac_area, quad_area, (x_idx, y_idx), evid)
 
+def fraction_of_parent_area(chopped_polys, poly_areas, parent_ids):
+    """
+    chopped_polys, poly_areas are as created by QuadMeshPolySlicer.slice
+    parent_ids are the corresponding ids of the parents (flashes or groups)
+        whose footprints are made up of the polygons. The footprint of a
+        parent can have more than one polygon.
+
+    Returns chopped_polys, poly_areas with areas as a fraction of the total
+    footprint of each parent, so that values of the parent that are weighted
+    by area are conserved.
+    """
+    total_areas = dict.fromkeys(parent_ids, 0.0)
+    for parent_id, area in zip(parent_ids, poly_areas):
+        total_areas[parent_id] += area
+    parent_areas = [total_areas[parent_id] for parent_id in parent_ids]
+    parent_polys = [(subquads, [frac*area/total for frac in frac_areas], idxs)
+        for (subquads, frac_areas, idxs), area, total
+        in zip(chopped_polys, poly_areas, parent_areas)]
+    return parent_polys, parent_areas
+
 def split_event_data(split_polys, poly_areas, slicer, event_ids):
     """
     split_polys is a list of N original polygons whose elements contain the
diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index b59e669..499163a 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -11,7 +11,7 @@ log.addHandler(logging.NullHandler())
 from functools import partial
 
 from glmtools.io.glm import GLMDataset, get_lutevents
-from glmtools.grid.split_events import split_event_data, split_event_dataset_from_props, split_group_dataset_from_props, split_flash_dataset_from_props, replicate_and_weight_split_child_dataset
+from glmtools.grid.split_events import split_event_data, split_event_dataset_from_props, split_group_dataset_from_props, split_flash_dataset_from_props, replicate_and_weight_split_child_dataset, fraction_of_parent_area
 from glmtools.grid.clipping import QuadMeshPolySlicer, join_polys
 from glmtools.io.ccd import load_pixel_corner_lookup, quads_from_corner_lookup
 from lmatools.io.LMA_h5_file import LMAh5Collection
@@ -458,6 +458,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
 
         chopped_union_polys, poly_union_areas = slicer.slice(union_polys, bbox=True)
         log.info("Sliced all groups")
+        chopped_union_polys, poly_union_areas = fraction_of_parent_area(
+            chopped_union_polys, poly_union_areas, union_group_ids)
         split_group_polys, split_group_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_group_ids)
         if fixed_grid:
@@ -507,6 +509,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
 
         chopped_union_polys, poly_union_areas = slicer.slice(union_polys, bbox=True)
         log.info("Sliced all flashes")
+        chopped_union_polys, poly_union_areas = fraction_of_parent_area(
+            chopped_union_polys, poly_union_areas, union_flash_ids)
         split_flash_polys, split_flash_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_flash_ids)
         if fixed_grid:
-- 
2.43.0


From d27de84fe90c995dc5b6c9985b89af5939d9cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:05:02 +0000
Subject: [PATCH 35/35] fix: raise ValueError for filenames with too few parts,
 as the grid script expects

---
 glmtools/io/glm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index c8d57dc..169819a 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -37,6 +37,8 @@ def parse_glm_filename(filename):
         OR_GLM-L2-LCFA_G16_s20171880000200_e20171880000400_c20171880000426.nc
     """
     parts = filename.replace('.nc', '').split('_')
+    if len(parts) < 6:
+        raise ValueError('{0} is not a standard GLM filename'.format(filename))
     ops_environment = parts[0]
     algorithm = parts[1]
     platform = parts[2]
-- 
2.43.0

