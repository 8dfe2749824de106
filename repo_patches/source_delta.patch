From faa5e099dda0b79a0a7d8d0a3ef2fce3b353e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 001/117] fix: volume of hexahedral cells with non-planar faces

The correction for a non-planar (bilinear) face was subtracted rather than added by the cell volume
functions, as the base diagonal was passed in the opposite sense to that used for pyramids.
---
 resqpy/olio/volume.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resqpy/olio/volume.py b/resqpy/olio/volume.py
index 33ba4b5..9575022 100644
--- a/resqpy/olio/volume.py
+++ b/resqpy/olio/volume.py
@@ -3,8 +3,8 @@
 import numpy as np
 
 
-def _pyr(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid, defined by specific vectors
-    return np.dot(ra, np.cross(db, ac)) + 0.5 * np.dot(ac, np.cross(ad, ab))
+def _pyr(ra, ab, ac, ad, bd):  # returns 6 * volume of one quad pyramid, defined by specific vectors
+    return np.dot(ra, np.cross(bd, ac)) + 0.5 * np.dot(ac, np.cross(ab, ad))
 
 
 def pyramid_volume(apex, a, b, c, d, crs_is_right_handed = False):
@@ -25,8 +25,8 @@ def pyramid_volume(apex, a, b, c, d, crs_is_right_handed = False):
     b = np.array(b)
     c = np.array(c)
     d = np.array(d)
-    v = _pyr(a - apex, b - a, c - a, d - a, b - d) / 6.0
-    if not crs_is_right_handed:
+    v = _pyr(a - apex, b - a, c - a, d - a, d - b) / 6.0
+    if crs_is_right_handed:
         v = -v
     return v
 
@@ -114,8 +114,8 @@ def tetra_volumes(cp, centres = None, off_hand = False):
        those length units cubed
     """
 
-    def pyrs(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid (for each cell)
-        return np.sum(ra * np.cross(db, ac), axis = -1) + 0.5 * np.sum(ac * np.cross(ad, ab), axis = -1)
+    def pyrs(ra, ab, ac, ad, bd):  # returns 6 * volume of one quad pyramid (for each cell)
+        return np.sum(ra * np.cross(bd, ac), axis = -1) + 0.5 * np.sum(ac * np.cross(ab, ad), axis = -1)
 
     # Pagoda style corner point data
     assert cp.ndim == 7
-- 
2.43.0


From 6c33a48ab7d0fb5feb039b4e2b907afd77a23aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 002/117] fix: crs axis order conversion involving northing
 westing and westing northing

Row vectors of xy values need the from-order matrix applied before the transposed to-order matrix; the reverse
product is only the same when the two matrices commute.
---
 resqpy/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index d8366e4..322633a 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -537,13 +537,13 @@ class Crs(BaseResqpy):
 
 def switch_axes(from_order, to_order, x, y):
     """Return x, y pair converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     return tuple(np.matmul(np.array((x, y), dtype = float), matrix))
 
 
 def switch_axes_array(from_order, to_order, xyz_array):
     """Modify x & y values of array in situ, converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     assert xyz_array.shape[-1] in [2, 3]
     xy = np.matmul(xyz_array[..., :2], matrix)
     xyz_array[..., :2] = xy
-- 
2.43.0


From c55fc422254fdf2d60b41c0b4734a357fd388d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 003/117] fix: take rotation units into account when testing
 crs equivalence

---
 resqpy/crs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index 322633a..78b78b4 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -314,12 +314,17 @@ class Crs(BaseResqpy):
             return False
         if self.null_transform and other_crs.null_transform:
             return True
+        rotation_deg = wam.convert(self.rotation, self.rotation_units, 'dega', quantity = 'plane angle')
+        other_rotation_deg = wam.convert(other_crs.rotation,
+                                         other_crs.rotation_units,
+                                         'dega',
+                                         quantity = 'plane angle')
         if (maths.isclose(self.x_offset, other_crs.x_offset, abs_tol = 1e-4) and
                 maths.isclose(self.y_offset, other_crs.y_offset, abs_tol = 1e-4) and
                 maths.isclose(self.z_offset, other_crs.z_offset, abs_tol = 1e-4) and
-                maths.isclose(self.rotation, other_crs.rotation, abs_tol = 1e-4)):
+                maths.isclose(rotation_deg, other_rotation_deg, abs_tol = 1e-4)):
             return True
-        # todo: handle and check rotation units; modularly equivalent rotations
+        # todo: modularly equivalent rotations
         return False
 
     def convert_to(self, other_crs: 'Crs', xyz: PointType) -> Tuple[float, float, float]:
-- 
2.43.0


From 02b08d0d71931bc4d22acf889acccedc4d1223a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 004/117] fix: restore md datum, angle units and interpretation
 when loading a deviation survey

---
 resqpy/well/_deviation_survey.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 6a67a4b..7a6b892 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -272,6 +272,7 @@ class DeviationSurvey(BaseResqpy):
         # Load XML data
         self.md_uom = rqet.length_units_from_node(rqet.find_tag(node, 'MdUom', must_exist = True))
         self.angle_uom = rqet.find_tag_text(node, 'AngleUom', must_exist = True)
+        self.angles_in_degrees = self.angle_uom.strip().lower().startswith('deg')
         self.station_count = rqet.find_tag_int(node, 'StationCount', must_exist = True)
         self.first_station = rqwu.extract_xyz(rqet.find_tag(node, 'FirstStationLocation', must_exist = True))
         self.is_final = rqet.find_tag_bool(node, 'IsFinal')
@@ -287,6 +288,7 @@ class DeviationSurvey(BaseResqpy):
         # Set related objects
         self.md_datum = self._load_related_datum()
         self.represented_interp = self._load_related_wellbore_interp()
+        self.wellbore_interpretation = self.represented_interp
 
         # Validate
         assert self.measured_depths is not None
@@ -461,11 +463,9 @@ class DeviationSurvey(BaseResqpy):
     def _load_related_datum(self):
         """Return related MdDatum object from XML if present."""
 
-        md_datum_uuid = bu.uuid_from_string(rqet.find_tag(rqet.find_tag(self.root, 'MdDatum'), 'UUID'))
+        md_datum_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(self.root, ['MdDatum', 'UUID']))
         if md_datum_uuid is not None:
-            md_datum_part = 'obj_MdDatum_' + str(md_datum_uuid) + '.xml'
-            md_datum = rqmdd.MdDatum(self.model,
-                                     md_datum_root = self.model.root_for_part(md_datum_part, is_rels = False))
+            md_datum = rqmdd.MdDatum(self.model, uuid = md_datum_uuid)
         else:
             md_datum = None
         return md_datum
-- 
2.43.0


From 6dd33c8019139e59ba45b6d192f87e9cda56c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:46 +0000
Subject: [PATCH 005/117] fix: restore surface role when loading a surface

---
 resqpy/surface/_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d2b183e..cd699f7 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -225,6 +225,9 @@ class Surface(rqsb.BaseSurface):
     def _load_from_xml(self):
         root_node = self.root
         assert root_node is not None
+        role = rqet.find_tag_text(root_node, 'SurfaceRole')
+        if role:
+            self.surface_role = role
         self.extract_patches(root_node)
         ref_node = rqet.find_tag(root_node, 'RepresentedInterpretation')
         if ref_node is not None:
-- 
2.43.0


From 4eaa6712ba37ac0fca3f55d8c63b67b7c6887f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 006/117] fix: interval count for coarsened grids with varying
 ratios

---
 resqpy/grid/_create_grid_xml.py        | 2 +-
 resqpy/grid/_write_hdf5_from_caches.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_create_grid_xml.py b/resqpy/grid/_create_grid_xml.py
index e66a787..765ebc4 100644
--- a/resqpy/grid/_create_grid_xml.py
+++ b/resqpy/grid/_create_grid_xml.py
@@ -148,7 +148,7 @@ def _create_grid_xml(grid,
                 if grid.is_refinement:
                     interval_count = grid.parent_window.coarse_extent_kji[axis]
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                    interval_count = grid.parent_window.coarse_extent_kji[axis]
             ic_node = rqet.SubElement(intervals_node, ns['resqml2'] + 'IntervalCount')
             ic_node.set(ns['xsi'] + 'type', ns['xsd'] + 'positiveInteger')
             ic_node.text = str(interval_count)
diff --git a/resqpy/grid/_write_hdf5_from_caches.py b/resqpy/grid/_write_hdf5_from_caches.py
index db82c3b..7bdf784 100644
--- a/resqpy/grid/_write_hdf5_from_caches.py
+++ b/resqpy/grid/_write_hdf5_from_caches.py
@@ -154,7 +154,7 @@ def __write_geometry(grid, h5_reg, use_parametric_lines):
                     pcpi = np.ones(interval_count, dtype = int)
                     ccpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                    interval_count = grid.parent_window.coarse_extent_kji[axis]
                     pcpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                     ccpi = np.ones(interval_count, dtype = int)
             h5_reg.register_dataset(grid.uuid, 'KJI'[axis] + 'Regrid/ParentCountPerInterval', pcpi)
-- 
2.43.0


From 64a705e2b19d7be653dbefaad8c35c5e467d2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 007/117] fix: masking of property elements holding a null
 value of zero, and of points arrays

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 83aaf95..e75af3c 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1697,7 +1697,7 @@ class PropertyCollection():
         """
 
         mask = self._masked_array_apply_inactive(exclude_inactive, points, simple_array)
-        if exclude_value:
+        if exclude_value is not None:
             null_mask = (simple_array == exclude_value)
             if mask is None:
                 mask = null_mask
@@ -1719,7 +1719,7 @@ class PropertyCollection():
                 if (self.support.inactive.ndim + 1 == simple_array.ndim and
                         self.support.inactive.shape == tuple(simple_array.shape[:-1])):
                     mask = np.empty(simple_array.shape, dtype = bool)
-                    mask[:] = self.support.inactive[:, np.newaxis]
+                    mask[:] = np.expand_dims(self.support.inactive, axis = -1)
         return mask
 
     def h5_key_pair_for_part(self, part):
-- 
2.43.0


From b8a29a2c85bd9611f148f5d8a7d94e92d2267ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 008/117] fix: shape and type of points property parts

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index e75af3c..d018243 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1875,9 +1875,9 @@ class PropertyCollection():
 
     def _shape_and_type_of_part_get_h5keypair(self, part, part_node, model):
         if self.points_for_part(part):
-            patch_list = rqet.list_of_tag(part_node, 'PatchOfpoints')
+            patch_list = rqet.list_of_tag(part_node, 'PatchOfPoints')
             assert len(patch_list) == 1  # todo: handle more than one patch of points
-            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Coordinates'))
+            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Points'), tag = 'Coordinates')
         else:
             patch_list = rqet.list_of_tag(part_node, 'PatchOfValues')
             assert len(patch_list) == 1  # todo: handle more than one patch of values
-- 
2.43.0


From b06a4d910eaf13b345debccecf4e51968da3cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 009/117] fix: key limits when setting an entry in a string
 lookup

---
 resqpy/property/string_lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/string_lookup.py b/resqpy/property/string_lookup.py
index 5d99ca5..8d54b7c 100644
--- a/resqpy/property/string_lookup.py
+++ b/resqpy/property/string_lookup.py
@@ -114,11 +114,11 @@ class StringLookup(BaseResqpy):
 
         self.str_dict[key] = value
         limits_changed = False
-        if self.min_index is None or value < self.min_index:
-            self.min_index = value
+        if self.min_index is None or key < self.min_index:
+            self.min_index = key
             limits_changed = True
-        if self.max_index is None or value > self.max_index:
-            self.max_index = value
+        if self.max_index is None or key > self.max_index:
+            self.max_index = key
             limits_changed = True
         if self.stored_as_list:
             if limits_changed:
-- 
2.43.0


From 89e74de4930af075266bb228e8b7578cfa576150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 010/117] fix: leave null values out of the stored range of
 discrete properties

---
 resqpy/property/_collection_get_attributes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 4fc6445..e0f8ebd 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -83,7 +83,7 @@ def _get_property_type_details(discrete, string_lookup_uuid, points, null_value)
 def _get_property_array_min_max_value(collection, property_array, const_value, discrete, min_value, max_value,
                                       categorical, null_value):
     if const_value is not None:
-        return _get_property_array_min_max_const(const_value, collection.null_value, min_value, max_value, discrete)
+        return _get_property_array_min_max_const(const_value, null_value, min_value, max_value, discrete)
     elif property_array is not None:
         return _get_property_array_min_max_array(property_array, min_value, max_value, discrete, categorical,
                                                  null_value)
@@ -105,14 +105,17 @@ def _get_property_array_min_max_array(property_array, min_value, max_value, disc
             min_value, max_value = _get_property_array_min_max_array_categorical(property_array, min_value, max_value,
                                                                                  null_value)
         else:
-            min_value, max_value = _get_property_array_min_max_array_discrete(property_array, min_value, max_value)
+            min_value, max_value = _get_property_array_min_max_array_discrete(property_array, min_value, max_value,
+                                                                              null_value)
     else:
         min_value, max_value = _get_property_array_min_max_array_continuous(property_array, min_value, max_value)
 
     return min_value, max_value
 
 
-def _get_property_array_min_max_array_discrete(property_array, min_value, max_value):
+def _get_property_array_min_max_array_discrete(property_array, min_value, max_value, null_value):
+    if null_value is not None and (min_value is None or max_value is None):
+        property_array = property_array[property_array != null_value]
     if min_value is None:
         try:
             min_value = int(property_array.min())
-- 
2.43.0


From 3371de98f90ce50ee8116454c7ade37afe202d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 011/117] fix: sampling of constant, points and multi valued
 properties from another collection

---
 resqpy/property/property_collection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index d018243..285031d 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -414,7 +414,13 @@ class PropertyCollection():
             target_shape = self.supporting_shape(indexable_element = other.indexable_for_part(part),
                                                  direction = pcga._part_direction(other, part))
             assert np.prod(target_shape) == flattened_indices.size
-            a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
+            if other.constant_value_for_part(part) is None:
+                # elements may be compound, with extra axes for count and points
+                extra_shape = ([info[5]] if info[5] > 1 else []) + ([3] if info[21] else [])
+                a = other.cached_part_array_ref(part).reshape([-1] + extra_shape)
+                a = a[flattened_indices].reshape(list(target_shape) + extra_shape)
+            else:
+                a = None
             self.add_cached_array_to_imported_list(a,
                                                    source,
                                                    info[10],
-- 
2.43.0


From 54932a0b93b3a65639cabb30a1f375a75f1763fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 012/117] fix: shape of constant properties with count greater
 than one

---
 resqpy/property/_collection_create_xml.py     | 4 ++--
 resqpy/property/_collection_get_attributes.py | 2 ++
 resqpy/property/property_collection.py        | 6 +++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_create_xml.py b/resqpy/property/_collection_create_xml.py
index d35777d..2dfc73c 100644
--- a/resqpy/property/_collection_create_xml.py
+++ b/resqpy/property/_collection_create_xml.py
@@ -85,13 +85,13 @@ def _create_xml_property_kind(collection, p_node, find_local_property_kinds, pro
 
 
 def _create_xml_patch_node(collection, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                           expand_const_arrays, hdf5_type, xsd_type, null_value):
+                           expand_const_arrays, hdf5_type, xsd_type, null_value, count):
     # create patch node
     const_count = None
     if const_value is not None and not expand_const_arrays:
         s_shape = collection.supporting_shape(indexable_element = indexable_element, direction = direction)
         assert s_shape is not None
-        const_count = np.prod(np.array(s_shape, dtype = int))
+        const_count = count * np.prod(np.array(s_shape, dtype = int))
     else:
         const_value = None
     _ = collection.model.create_patch(p_uuid,
diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index e0f8ebd..00e07ad 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -635,6 +635,8 @@ def _cached_part_array_ref_const_notnone(collection, part, const_value, cached_a
     shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
                                         direction = _part_direction(collection, part))
     assert shape is not None
+    if collection.count_for_part(part) > 1:
+        shape = list(shape) + [collection.count_for_part(part)]
     a = np.full(shape, const_value, dtype = float if collection.continuous_for_part(part) else int)
     setattr(collection, cached_array_name, a)
 
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 285031d..4e369a2 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1872,6 +1872,8 @@ class PropertyCollection():
             shape = self.supporting_shape(indexable_element = self.indexable_for_part(part),
                                           direction = pcga._part_direction(self, part))
             assert shape is not None
+            if self.count_for_part(part) > 1:
+                shape = list(shape) + [self.count_for_part(part)]
             return shape, (float if self.continuous_for_part(part) else int)
 
         h5_key_pair = self._shape_and_type_of_part_get_h5keypair(part, part_node, model)
@@ -2473,6 +2475,8 @@ class PropertyCollection():
                 assert self.support is not None
                 #  note: will not handle direction dependent shapes or points
                 shape = self.supporting_shape(indexable_element = entry[14])
+                if entry[15] > 1:
+                    shape = list(shape) + [entry[15]]
                 value = float(entry[17]) if isinstance(entry[17], str) else entry[17]
                 self.__dict__[cached_name] = np.full(shape, value, dtype = dtype)
             else:
@@ -2717,7 +2721,7 @@ class PropertyCollection():
         property_kind_uuid = pcxml._create_xml_property_kind(self, p_node, find_local_property_kinds, property_kind,
                                                              uom, discrete, property_kind_uuid)
         pcxml._create_xml_patch_node(self, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                                     expand_const_arrays, hdf5_type, xsd_type, null_value)
+                                     expand_const_arrays, hdf5_type, xsd_type, null_value, count)
         pcxml._create_xml_facet_node(facet_type, facet, p_node)
 
         pcxml._create_xml_property_min_max(self, property_array, const_value, discrete, add_min_max, p_node, min_value,
-- 
2.43.0


From d95ffaf12bee091b3cb71349274ae15f36e9a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 013/117] fix: only pack boolean arrays when writing a mixed
 list of property arrays

---
 resqpy/property/property_collection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 4e369a2..2ac14a9 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2485,8 +2485,10 @@ class PropertyCollection():
             tail = 'points_patch0' if entry[18] else 'values_patch0'
             if use_pack and (str(dtype).startswith('bool') or
                              (dtype is None and str(self.__dict__[cached_name].dtype) == 'bool')):
-                dtype = 'pack'
-            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
+                entry_dtype = 'pack'
+            else:
+                entry_dtype = dtype
+            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = entry_dtype)
         h5_reg.write(file = file_name, mode = mode, use_int32 = use_int32)
 
     def write_hdf5_for_part(self,
-- 
2.43.0


From 4eb284999516802ddab72c3d52e123aa8bc1cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 014/117] fix: allow removal of a part which has no
 relationships

---
 resqpy/model/_forestry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index feaa787..c179c4c 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -499,7 +499,9 @@ def _del_uuid_relations(model, part_name):
     uuid = model.uuid_for_part(part_name)
     if uuid is None:
         return
-    relations = model.uuid_rels_dict[uuid.int]
+    relations = model.uuid_rels_dict.get(uuid.int)
+    if relations is None:  # part has no relationships
+        return
     for related_uuid_int in relations[0]:
         model.uuid_rels_dict[related_uuid_int][1].remove(uuid.int)
     for related_uuid_int in relations[1]:
-- 
2.43.0


From 2b0a865972d669ec598509b07f8888d809150718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 015/117] fix: record soft relationships for parts with no
 other relationships

---
 resqpy/model/_forestry.py | 5 ++---
 resqpy/model/_xml.py      | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index c179c4c..bfc61cc 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -214,9 +214,8 @@ def _add_uuid_soft_relations(model, uuid_int, part):
                 if relation_uuid_str is None:
                     return  # probably HDF5 external resource
                 relation_uuid_int = _hex_to_int(relation_uuid_str)
-                rels_sets = model.uuid_rels_dict.get(uuid_int)
-                if rels_sets is not None and relation_uuid_int not in rels_sets[
-                        0] and relation_uuid_int not in rels_sets[1]:
+                rels_sets = model.uuid_rels_dict.setdefault(uuid_int, (set(), set(), set()))
+                if relation_uuid_int not in rels_sets[0] and relation_uuid_int not in rels_sets[1]:
                     rels_sets[2].add(relation_uuid_int)
 
 
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index a0e5ffd..53da272 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -629,10 +629,10 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
     rel_uuid_a_int = rel_uuid_a.int
     rel_uuid_b_int = rel_uuid_b.int
 
-    value = model.uuid_rels_dict.get(rel_uuid_a_int)
-    if value is not None and rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_a_int, (set(), set(), set()))
+    if rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
         value[2].add(rel_uuid_b_int)
 
-    value = model.uuid_rels_dict.get(rel_uuid_b_int)
-    if value is not None and rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_b_int, (set(), set(), set()))
+    if rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
         value[2].add(rel_uuid_a_int)
-- 
2.43.0


From 2c343a72720aae4c55189e62d495a141f85ae337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 016/117] fix: do not leave references of copied parts listed
 as soft relationships

---
 resqpy/model/_forestry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index bfc61cc..5dc0112 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -234,6 +234,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[uuid_int] = ({ref_uuid_int}, set(), set())
         else:
             value[0].add(ref_uuid_int)
+            value[2].discard(ref_uuid_int)  # a reference takes precedence over a soft relationship
 
         # Adding uuid to the reference uuid key.
         ref_value = model.uuid_rels_dict.get(ref_uuid_int)
@@ -241,6 +242,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[ref_uuid_int] = (set(), {uuid_int}, set())
         else:
             ref_value[1].add(uuid_int)
+            ref_value[2].discard(uuid_int)
 
 
 def _copy_dataset_if_requested(copy_from, epc_file, quiet):
-- 
2.43.0


From ecc3db530356c1b396d67b9eea0968d085ba0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 017/117] fix: give a part made by copy_part a relationships
 part so that it can be related and removed

---
 resqpy/model/_forestry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 5dc0112..6b84d64 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -402,7 +402,7 @@ def _copy_part(model, existing_uuid, new_uuid, change_hdf5_refs = False):
     part_name = rqet.patch_uuid_in_part_root(new_root, new_uuid)
     if change_hdf5_refs:
         model.change_uuid_in_hdf5_references(new_root, old_uuid_str, new_uuid_str)
-    _add_part(model, part_type, new_uuid, new_root, add_relationship_part = False)
+    _add_part(model, part_type, new_uuid, new_root)
     return part_name
 
 
-- 
2.43.0


From f9286e7b275ab2dc85ecd5d3c56d90bdf265cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 018/117] fix: filtering of parts by epc subdirectory, from an
 empty list, and removal of hdf5 relationship of removed part

---
 resqpy/model/_catalogue.py | 4 ++--
 resqpy/model/_forestry.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 0a74510..84e9f3d 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -25,7 +25,7 @@ def _parts(model,
            sort_by = None):
     """Returns a list of parts matching all of the arguments passed."""
 
-    if not parts_list:
+    if parts_list is None:
         parts_list = _list_of_parts(model)
     if uuid is not None:
         part_name = model.uuid_part_dict.get(bu.uuid_as_int(uuid))
@@ -719,7 +719,7 @@ def _filtered_by_epc_subdir(model, parts_list, epc_subdir):
             epc_subdir += '/'
         filtered_list = []
         for part in parts_list:
-            if part.startswith[epc_subdir]:
+            if part.startswith(epc_subdir):
                 filtered_list.append(part)
         return filtered_list
     else:
diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 6b84d64..dea7100 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -478,7 +478,7 @@ def _remove_part(model, part_name, remove_relationship_part):
         else:
             related_parts = m_c._parts_list_filtered_by_related_uuid(model, m_c._list_of_parts(model),
                                                                      rqet.uuid_in_part_name(part_name))
-            for relative in related_parts:
+            for relative in related_parts + m_c._external_parts_list(model):
                 (rel_uuid, rel_tree) = model.rels_forest[rqet.rels_part_name_for_part(relative)]
                 rel_root = rel_tree.getroot()
                 for child in rel_root:
-- 
2.43.0


From 8827bf3edabdb4e47c24c1265d15a460505dc6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 019/117] fix: allow for geologic time series during
 consolidation

---
 resqpy/olio/consolidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index 5bd82f9..eb65890 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -90,7 +90,7 @@ class Consolidation:
         elif obj_type.endswith('Crs'):
             immigrant_obj = rqc.Crs(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'TimeSeries':
-            immigrant_obj = rqt.TimeSeries(immigrant_model, uuid = immigrant_uuid)
+            immigrant_obj = rqt.any_time_series(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'StringTableLookup':
             immigrant_obj = rqp.StringLookup(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'PropertyKind':
@@ -108,7 +108,7 @@ class Consolidation:
             elif obj_type.endswith('Crs'):
                 resident_obj = rqc.Crs(self.model, uuid = resident_uuid)
             elif obj_type == 'TimeSeries':
-                resident_obj = rqt.TimeSeries(self.model, uuid = resident_uuid)
+                resident_obj = rqt.any_time_series(self.model, uuid = resident_uuid)
             elif obj_type == 'StringTableLookup':
                 resident_obj = rqp.StringLookup(self.model, uuid = resident_uuid)
             elif obj_type == 'PropertyKind':
-- 
2.43.0


From cb7eaa82c994d78055765e13166cdd3f7b0a4e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 020/117] fix: cross section points for unsplit grids with k
 gaps

---
 resqpy/grid/_points_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 26ccc95..f6d6eef 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -565,7 +565,7 @@ def split_gap_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, ma
     if grid.has_split_coordinate_lines:
         points = grid.points_ref(masked = masked)
     else:
-        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps, (grid.nj + 1) * (grid.ni + 1), 3))
+        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
-- 
2.43.0


From 42f5e28000c92c20a058caff4d32be57dbfd388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 021/117] fix: split_column_faces missed last row and column
 faces split at their first pillar only

---
 resqpy/grid/_face_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index 8f7fc64..f854621 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -69,12 +69,12 @@ def split_column_faces(grid):
         if j_p > 0 and j_p < grid.nj:
             if i_p > 0 and grid.is_split_column_face(j_p, i_p - 1, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p - 1] = True
-            if i_p < grid.ni - 1 and grid.is_split_column_face(j_p, i_p, 1, 0):
+            if i_p < grid.ni and grid.is_split_column_face(j_p, i_p, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p] = True
         if i_p > 0 and i_p < grid.ni:
             if j_p > 0 and grid.is_split_column_face(j_p - 1, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p - 1, i_p - 1] = True
-            if j_p < grid.nj - 1 and grid.is_split_column_face(j_p, i_p, 2, 0):
+            if j_p < grid.nj and grid.is_split_column_face(j_p, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p, i_p - 1] = True
     return grid.array_j_column_face_split, grid.array_i_column_face_split
 
-- 
2.43.0


From 3b8580a97dc0b7ee84d25e774a3f2bffa00122d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 022/117] fix: keep the top points of areal dot cells when
 there are no k gaps

---
 resqpy/grid/_defined_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index e144010..1634c05 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -408,7 +408,7 @@ def __handle_areal_dots(areal_dots, grid, nan_mask):
     else:
         dot_mask = np.zeros((grid.nk + 1, grid.nj + 1, grid.ni + 1), dtype = bool)
         dot_mask[:-1, :-1, :-1] = areal_dots
-        dot_mask[1:, :-1, :-1] = np.logical_or(dot_mask[:-1, :-1, :-1], areal_dots)
+        dot_mask[1:, :-1, :-1] = np.logical_or(dot_mask[1:, :-1, :-1], areal_dots)
     dot_mask[:, 1:, :-1] = np.logical_or(dot_mask[:, :-1, :-1], dot_mask[:, 1:, :-1])
     dot_mask[:, :, 1:] = np.logical_or(dot_mask[:, :, :-1], dot_mask[:, :, 1:])
     if grid.has_split_coordinate_lines:
-- 
2.43.0


From 4070f3f35b602c1af890fc51abc413c2e8b7e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 023/117] fix: report flipped cell edges in the i direction as
 well as the j direction

---
 resqpy/grid/_xyz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index ad05335..e702127 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -254,19 +254,19 @@ def check_top_and_base_cell_edge_directions(grid):
     # check direction of top edges against corresponding base edges, tolerate upto 90 degree difference
     dot_j = np.sum(top_j_edge_vectors * base_j_edge_vectors, axis = 2)
     dot_i = np.sum(top_i_edge_vectors * base_i_edge_vectors, axis = 2)
-    if not np.all(dot_j >= 0.0) and np.all(dot_i >= 0.0):
+    if not (np.all(dot_j >= 0.0) and np.all(dot_i >= 0.0)):
         log.warning('one or more columns of cell edges flip direction: this grid is probably unusable')
         good = False
     log.debug('checking relative direction of edges in neighbouring cells at top of grid (and base)')
     # check direction of similar edges on neighbouring cells, tolerate upto 90 degree difference
     dot_jp = np.sum(top_j_edge_vectors[1:, :, :] * top_j_edge_vectors[:-1, :, :], axis = 2)
     dot_ip = np.sum(top_i_edge_vectors[1:, :, :] * top_i_edge_vectors[:-1, :, :], axis = 2)
-    if not np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0):
+    if not (np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0)):
         log.warning('top cell edges for neighbouring cells flip direction somewhere: this grid is probably unusable')
         good = False
     dot_jp = np.sum(base_j_edge_vectors[1:, :, :] * base_j_edge_vectors[:-1, :, :], axis = 2)
     dot_ip = np.sum(base_i_edge_vectors[1:, :, :] * base_i_edge_vectors[:-1, :, :], axis = 2)
-    if not np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0):
+    if not (np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0)):
         log.warning('base cell edges for neighbouring cells flip direction somewhere: this grid is probably unusable')
         good = False
     return good
-- 
2.43.0


From 3d6e2f86950059fae672cf93aaa52e7d79529090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 024/117] fix: raw layer index of an in-memory grid with k gaps
 built from corner points

---
 resqpy/rq_import/_grid_from_cp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index ede7fb6..6e46fd4 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -227,7 +227,7 @@ class _GridFromCp:
                 layer_gap_unmasked = np.where(gap[k].mask, 0.0, layer_gap)
                 self.__masked_cp_array[k + 1, :, :, 0, :, :, :] -= layer_gap_unmasked
                 self.__masked_cp_array[k, :, :, 1, :, :, :] += layer_gap_unmasked
-            self.__k_gap_raw_index[k + 1] = k + self.__k_gaps
+            self.__k_gap_raw_index[k + 1] = k + 1 + self.__k_gaps
 
     def __close_gaps(self, gap):
         # close voids (includes shifting x & y)
-- 
2.43.0


From 8ddd6b90190afb422655464cf989750289a9faa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 025/117] fix: point_raw consulted the wrong pillar of a split
 grid with undefined pillars

---
 resqpy/grid/_points_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index f6d6eef..73c0cce 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -158,8 +158,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         if len(index) == 3:
             ji = tuple(index[1:])
         else:
-            ji = tuple(divmod(index[1], grid.ni))
-        if ji[0] < grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
+            ji = tuple(divmod(index[1], grid.ni + 1))  # extra pillars, for split coordinate lines, follow the primaries
+        if ji[0] <= grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
             return None
     if grid.points_cached is not None:
         if index is None:
-- 
2.43.0


From e21acf179f9febdc830ea96ac91b5245804f4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 026/117] fix: asking for cell volumes in other units changed
 the previously returned array

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index d7ca8da..dfca51d 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -190,7 +190,7 @@ def volume(grid,
 
     if hasattr(grid, 'array_volume'):
         if required_uom != grid.array_volume_uom:
-            grid.array_volume = wam.convert_volumes(grid.array_volume, grid.array_volume_uom, required_uom)
+            grid.array_volume = wam.convert_volumes(grid.array_volume.copy(), grid.array_volume_uom, required_uom)
             grid.array_volume_uom = required_uom
         if cell_kji0 is None:
             return grid.array_volume
-- 
2.43.0


From 76960fffabd569e971ebb35be4f93991d73e2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 027/117] fix: list the uuids of local grids, not that of the
 parent grid, in local_grid_uuid_list

---
 resqpy/grid/_extract_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 16d490f..48fd6e6 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -462,7 +462,7 @@ def extract_children(grid):
                 continue
             parent_uuid = bu.uuid_from_string(parent_uuid)
             if bu.matching_uuids(grid.uuid, parent_uuid):
-                grid.local_grid_uuid_list.append(parent_uuid)
+                grid.local_grid_uuid_list.append(bu.uuid_from_string(related_root.attrib['uuid']))
     return grid.local_grid_uuid_list
 
 
-- 
2.43.0


From a0ef1b2423dad9d1c00e4142101a5e3deb266906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 028/117] fix: preserve first and last vertex when all vertices
 of a line are duplicates

---
 resqpy/olio/simple_lines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/olio/simple_lines.py b/resqpy/olio/simple_lines.py
index edb50ec..388c7b4 100644
--- a/resqpy/olio/simple_lines.py
+++ b/resqpy/olio/simple_lines.py
@@ -121,6 +121,7 @@ def duplicate_vertices_removed(line, tolerance = 0.001):
             whittled[c_i] = line[i]
     if c_i == len(line) - 1:
         return line
+    c_i = max(c_i, 1)  # first vertex is always preserved, as well as last
     whittled[c_i] = line[-1]
     return whittled[:c_i + 1]
 
-- 
2.43.0


From fc1c3b5225003cc27a2e77b6d5db9e37bb9a8d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 029/117] fix: face_from_triangle_index always failed due to
 wrong expected node counts

---
 resqpy/surface/_triangulated_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_triangulated_patch.py b/resqpy/surface/_triangulated_patch.py
index 9600ff9..ad2b92f 100644
--- a/resqpy/surface/_triangulated_patch.py
+++ b/resqpy/surface/_triangulated_patch.py
@@ -542,11 +542,11 @@ class TriangulatedPatch:
         """For patch freshly built for cell faces, returns (axis, polarity) for given triangle index."""
 
         if self.quad_triangles:
-            assert self.node_count == 30 and self.triangle_count == 24
+            assert self.node_count == 14 and self.triangle_count == 24
             assert 0 <= triangle_index < 24
             face = triangle_index // 4
         else:
-            assert self.node_count == 24 and self.triangle_count == 12
+            assert self.node_count == 8 and self.triangle_count == 12
             assert 0 <= triangle_index < 12
             face = triangle_index // 2
         axis, polarity = divmod(face, 2)
-- 
2.43.0


From 59343fc3f40e34078639ac5460af81d7ca73f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 030/117] fix: vertical_rescale_points failed with default
 reference depth when points not yet loaded

---
 resqpy/surface/_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index cd699f7..14458cf 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -995,7 +995,8 @@ class Surface(rqsb.BaseSurface):
             return
         if ref_depth is None:
             for patch in self.patch_list:
-                patch_min = np.min(patch.points[:, 2])
+                _, patch_points = patch.triangles_and_points()  # loads points if not yet cached
+                patch_min = np.min(patch_points[:, 2])
                 if ref_depth is None or patch_min < ref_depth:
                     ref_depth = patch_min
         assert ref_depth is not None, 'no z values found for vertical rescaling of surface'
-- 
2.43.0


From ccd86314f36807e5c9bc322e2ddb88ac50db8478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 031/117] fix: tri mesh x and y axial edge crossings used wrong
 edges and extents, and ignored the origin

---
 resqpy/surface/_tri_mesh.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/resqpy/surface/_tri_mesh.py b/resqpy/surface/_tri_mesh.py
index 2b531fa..f95017a 100644
--- a/resqpy/surface/_tri_mesh.py
+++ b/resqpy/surface/_tri_mesh.py
@@ -483,13 +483,16 @@ class TriMesh(rqs.Mesh):
         abs_zero = np.expand_dims(np.abs(zero), axis = -1)
         p = np.empty((0, 3), dtype = float)
 
+        if axis < 2 and self.origin is not None:
+            value = value - self.origin[axis]
+
         if axis == 0:  # x axis
 
             xi, xr = divmod(value, self.t_side)
-            if xi >= 0.0 and xi + xr < (float(self.ni) - 0.5) * self.t_side:
+            if xi >= 0.0 and value < (float(self.ni) - 0.5) * self.t_side:
                 i = round(xi)
                 xrf = xr / self.t_side
-                if xi + xr < float(self.ni - 1) * self.t_side:
+                if value < float(self.ni - 1) * self.t_side:
                     # I edges, even node j
                     p = xyz[::2, i] * (1.0 - xrf) + xyz[::2, i + 1] * xrf
                 if i or xrf > 0.5:
@@ -519,7 +522,7 @@ class TriMesh(rqs.Mesh):
 
             yi, yr = divmod(value, self.t_side * root_3_by_2)
 
-            if yi >= 0 and yi + yr <= (self.nj - 1) * self.t_side * root_3_by_2:
+            if yi >= 0 and value <= (self.nj - 1) * self.t_side * root_3_by_2:
                 j = round(yi)
                 if yr == 0.0:  # add first and last points from in-line edges
                     p = np.array([xyz[j, 0], xyz[j, -1]], dtype = float)
@@ -527,10 +530,10 @@ class TriMesh(rqs.Mesh):
                     yrp = yr / (self.t_side * root_3_by_2)
                     p = xyz[j, :] * (1.0 - yrp) + xyz[j + 1, :] * yrp
                     if j % 2:
-                        pp = xyz[j, 1:] * (1.0 - yrp) + xyz[j + 1, :-1] * yrp
-                    else:
                         pp = xyz[j, :-1] * (1.0 - yrp) + xyz[j + 1, 1:] * yrp
-                p = np.concatenate((p, pp))
+                    else:
+                        pp = xyz[j, 1:] * (1.0 - yrp) + xyz[j + 1, :-1] * yrp
+                    p = np.concatenate((p, pp))
 
         else:  # z axis
 
-- 
2.43.0


From ed092bf248c50a2f784f3856278ad0a9fa42b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 032/117] fix: GridConnectionSet.from_faces_indices() did not
 pass grid to new connection set

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d094452..dc38e1e 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -252,7 +252,7 @@ class GridConnectionSet(BaseResqpy):
         """
         assert isinstance(grid, grr.Grid)
 
-        gcs = cls(grid.model, title = title, originator = originator, extra_metadata = extra_metadata)
+        gcs = cls(grid.model, grid = grid, title = title, originator = originator, extra_metadata = extra_metadata)
 
         gcs._sort_out_organizing_objects(feature_type, feature_name, create_organizing_objects_where_needed)
 
-- 
2.43.0


From 96c5804c187b44dc48bc97935501c9cf0bf0e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 033/117] fix: gcs properties not re-ordered when sorting face
 indices without duplicates

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index dc38e1e..d44c1e0 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2317,7 +2317,7 @@ def _sort_and_remove_duplicates(a, props = None):
     m = np.empty(a.size, dtype = bool)
     m[0] = True
     m[1:] = (a[1:] != a[:-1])
-    if np.all(m):
+    if no_props and np.all(m):
         return a
     if not no_props:
         for i in range(len(props)):
-- 
2.43.0


From 7b33f54fa6434af54958da05508e3e49d79b5bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 034/117] fix: filtered_by_layer_range() failed when min_k0 or
 max_k0 omitted

---
 resqpy/fault/_grid_connection_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d44c1e0..aeebc12 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -846,9 +846,9 @@ class GridConnectionSet(BaseResqpy):
         self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by layer range'
         grid = self.grid_list[0]
-        if min_k0 <= 0:
+        if min_k0 is not None and min_k0 <= 0:
             min_k0 = None
-        if max_k0 >= grid.extent_kji[0] - 1:
+        if max_k0 is not None and max_k0 >= grid.extent_kji[0] - 1:
             max_k0 = None
         if min_k0 is None and max_k0 is None:
             dupe = GridConnectionSet(self.model, grid = grid)
-- 
2.43.0


From 28e722a2d8b0a4c140000eac7f2f979b9c175638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 035/117] fix: filtered_by_cell_mask() failed when gcs arrays
 not yet loaded

---
 resqpy/fault/_grid_connection_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index aeebc12..aa2f7e9 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -886,6 +886,7 @@ class GridConnectionSet(BaseResqpy):
            select equivalent entries from associated properties
         """
 
+        self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by cell mask'
         grid = self.grid_list[0]
         flat_extent = grid.cell_count()
-- 
2.43.0


From aa3c088bc4b428ec785c1b782e7724bf1292d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 036/117] fix: inherit_features() failed for shared features
 and renumbered features wrongly after removals

---
 resqpy/fault/_grid_connection_set.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index aa2f7e9..fcc1ae2 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1974,7 +1974,7 @@ class GridConnectionSet(BaseResqpy):
         for featured_triplet in featured.feature_list:
             featured_uuid = bu.uuid_from_string(featured_triplet[1])  # bu call probably not needed
             if featured_uuid in feature_uuid_list:
-                featured_index_map.append(feature_uuid_list.index[featured_uuid])
+                featured_index_map.append(feature_uuid_list.index(featured_uuid))
             else:
                 featured_index_map.append(len(self.feature_list))
                 self.feature_list.append(featured_triplet)
@@ -2018,12 +2018,10 @@ class GridConnectionSet(BaseResqpy):
         for fi in range(original_feature_count):
             if fi not in self.feature_indices:
                 removals.append(fi)
-        reduction = len(removals)
-        if reduction > 0:
-            while len(removals) > 0:
-                self.feature_list.pop(removals[-1])
-                removals.pop()
-            self.feature_indices[:] -= reduction
+        while len(removals) > 0:
+            fi = removals.pop()
+            self.feature_list.pop(fi)
+            self.feature_indices[self.feature_indices > fi] -= 1
 
     def compact_indices(self):
         """Returns numpy int array of shape (count, 2) combining each cell index, face index into a single integer."""
-- 
2.43.0


From 1c6bf49d09dc706f1aa7e5cf38918323e1ef5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 037/117] fix: gcs from faces dataframe failed when fault
 interpretation already exists

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index fcc1ae2..e5f5969 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2082,11 +2082,11 @@ class GridConnectionSet(BaseResqpy):
             if name.lower() in fault_tmult_dict:
                 fault_dict_multiplier = float(fault_tmult_dict[name.lower()])
         # fetch uuid for fault interpretation object
+        fi_root = None
         if name.lower() in fi_dict:
             fi_uuid = fi_dict[name.lower()]
         elif create_organizing_objects_where_needed:
             tbf = None
-            fi_root = None
             for tbf_part in tbf_parts_list:
                 if name.lower() == self.model.title_for_part(tbf_part).split()[0].lower():
                     tbf = rqo.TectonicBoundaryFeature(self.model, uuid = self.model.uuid_for_part(tbf_part))
-- 
2.43.0


From cb112b2da934121f4a653f8b33633faa029849ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 038/117] fix: gcs write_simulator() wrote wrong
 transmissibility multipliers for runs of layers

---
 resqpy/fault/_grid_connection_set.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index e5f5969..bbc0486 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1581,13 +1581,14 @@ class GridConnectionSet(BaseResqpy):
                     tmult_values = feat_mult_array[msi]
                     del both
                     k = None
-                    i = j = k2 = axis = polarity = None  # only needed to placate flake8 which whinges incorrectly otherwise
+                    i = j = k2 = axis = polarity = tmult = None  # only needed to placate flake8 which whinges incorrectly otherwise
                     for row in range(cell_indices.shape[0]):
                         kp, jp, ip = cell_indices[row]
                         axis_p, polarity_p = face_indices[row]
-                        tmult = tmult_values[row]
+                        tmult_p = tmult_values[row]
                         if k is not None:
-                            if axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1:
+                            if (axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1 or
+                                    tmult_p != tmult):
                                 write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
                                 k = None
                             else:
@@ -1598,6 +1599,7 @@ class GridConnectionSet(BaseResqpy):
                             k = k2 = kp
                             axis = axis_p
                             polarity = polarity_p
+                            tmult = tmult_p
                     if k is not None:
                         write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
 
-- 
2.43.0


From d682409ba3955f3da29ea7ac66426decbe877f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 039/117] fix: gcs tr_property_array() used face of first cell
 for second cell of each pair

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index bbc0486..6fc7b9e 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1899,7 +1899,7 @@ class GridConnectionSet(BaseResqpy):
         gi_m = gi_p = 0  # used below in single grid case
         for e in range(count):
             axis_m, polarity_m = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
-            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
+            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 1]]
             if single_grid:
                 kji0_m = kji0[e, 0]
                 kji0_p = kji0[e, 1]
-- 
2.43.0


From b291a9a9a6af085797941c8f079c21b61cc0eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 040/117] fix: gcs grid_face_arrays() baffle values used as
 indices instead of mask

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 6fc7b9e..6889782 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2240,7 +2240,7 @@ class GridConnectionSet(BaseResqpy):
 
         baffle_mask = None
         if baffle_uuid is not None:
-            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref()
+            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref(dtype = bool)
             assert baffle_mask is not None
 
         # note that following arrays include external faces, in line with grid properties for 'faces'
-- 
2.43.0


From 156ba4e9b2835c8d1acb01d950c70f2727f47408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 041/117] fix: gcs column edge property failed when feature has
 no faces in reference layer

---
 resqpy/fault/_grid_connection_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 6889782..b71615e 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1759,9 +1759,9 @@ class GridConnectionSet(BaseResqpy):
                                                                            max_k0 = ref_k,
                                                                            pare_down = False,
                                                                            return_indices = True)
-            assert layer_gcs.count == len(layer_indices)
-            if layer_gcs.count == 0:  # feature does not have any faces in reference layer
+            if layer_gcs is None:  # feature does not have any faces in reference layer
                 return None
+            assert layer_gcs.count == len(layer_indices)
             layer_prop_array = feature_prop_array[layer_indices]
             # fill in individual values rather laboriously
             property_value_by_column_edge = np.full(fault_by_column_edge_mask.shape, np.nan)
-- 
2.43.0


From 6e159e72bad4ccfdb4311d2e2ffa2b1bcc56704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 042/117] fix: pinchout and k gap connection sets did not pass
 grid to new connection set

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 0d54abb..a548154 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -534,7 +534,7 @@ def _make_k_gcs_from_cip_list(grid, cip_list, feature_name):
     if count == 0:
         return None
 
-    pcs = GridConnectionSet(grid.model)
+    pcs = GridConnectionSet(grid.model, grid = grid)
     pcs.grid_list = [grid]
     pcs.count = count
     pcs.grid_index_pairs = np.zeros((count, 2), dtype = int)
-- 
2.43.0


From e9a3ea982864b771aa1d44e72400aaa1bb66fd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 043/117] fix: pinchout connection set missed pinchouts
 separated by a single layer

---
 resqpy/fault/_gcs_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index a548154..392f41b 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -60,11 +60,11 @@ def pinchout_connection_set(grid, skip_inactive = True, feature_name = 'pinchout
                 if kb >= grid.nk:
                     break
                 if skip_inactive and dead[kb, j, i]:
-                    ka = kb + 1
+                    ka = kb
                     continue
                 # kb now beneath pinchout
                 cip_list.append((grid.natural_cell_index((ka, j, i)), grid.natural_cell_index((kb, j, i))))
-                ka = kb + 1
+                ka = kb
 
     log.debug(f'{len(cip_list)} pinchout connections found')
 
-- 
2.43.0


From 1e989d56375463791f13082f3ecb71831851c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 044/117] fix: pinchout connection set made connections across
 a k gap within pinched out layers

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 392f41b..2ae6c3e 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -59,7 +59,7 @@ def pinchout_connection_set(grid, skip_inactive = True, feature_name = 'pinchout
                     kb += 1
                 if kb >= grid.nk:
                     break
-                if skip_inactive and dead[kb, j, i]:
+                if (skip_inactive and dead[kb, j, i]) or (grid.k_gaps and np.any(grid.k_gap_after_array[ka:kb])):
                     ka = kb
                     continue
                 # kb now beneath pinchout
-- 
2.43.0


From 5c88efb0135572b4b58e2eae54ac6878d7cc2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 045/117] fix: grid columns property from discrete gcs property
 failed with default null value

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 2ae6c3e..33c38dc 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -286,7 +286,7 @@ def grid_columns_property_from_gcs_property(model,
             multiple_handling = 'mean'
     else:
         dtype = int
-        if null_value == np.nan:
+        if np.isnan(null_value):
             null_value = -1
         elif type(null_value) is float:
             null_value = int(null_value)
-- 
2.43.0


From 15c648fc5507e8a99f6ba71767340ab70c60ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 046/117] fix: half cell transmissibility failed for J faces of
 unfaulted grids with k gaps

---
 resqpy/olio/transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 4704c3f..2664c2a 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -290,8 +290,8 @@ def half_cell_t_irregular(grid,
                 if grid.k_gaps:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][kp][:, :, 1:] + edge_vectors[1][kp][:, :, :-1] +
                                                        edge_vectors[1][km][:, :, 1:] + edge_vectors[1][km][:, :, :-1])
-                    face_areas = (projected_tri_area(p[km][:, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
-                                  projected_tri_area(p[km][:, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
+                    face_areas = (projected_tri_area(p[km][:, :, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
+                                  projected_tri_area(p[km][:, :, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
                 else:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][1:, :, 1:] + edge_vectors[1][1:, :, :-1] +
                                                        edge_vectors[1][:-1, :, 1:] + edge_vectors[1][:-1, :, :-1])
-- 
2.43.0


From d14b91e0458ddcbfada896319b243f6c0020dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 047/117] fix: transmissibility() failed for faces multiplier
 and absolute modifier modes

---
 resqpy/grid/_transmissibility.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 1c3bf3c..dc1ce48 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -134,6 +134,7 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
     if k_tr is None or j_tr is None or i_tr is None:
 
+        pc = grid.extract_property_collection()
         half_t = grid.half_cell_transmissibility(use_property = use_tr_properties, realization = realization)
 
         if modifier_mode == 'faces per cell multiplier':
@@ -209,6 +210,7 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         else:
             assert tr_mult.shape == (grid.nk, grid.nj, grid.ni + 1)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, :, 1:-1]))
+            tr_mult = tr_mult[:, :, 1:-1]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -223,7 +225,8 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute I face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj, grid.ni + 1)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, :, 1:-1] <= 0.0)
+            tr_abs = tr_abs[:, :, 1:-1]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     i_tr[:, :, 1:-1] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     return i_tr
@@ -262,6 +265,7 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         else:
             assert tr_mult.shape == (grid.nk, grid.nj + 1, grid.ni)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, 1:-1, :]))
+            tr_mult = tr_mult[:, 1:-1, :]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -276,7 +280,8 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute J face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj + 1, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, 1:-1, :] <= 0.0)
+            tr_abs = tr_abs[:, 1:-1, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
@@ -314,6 +319,7 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_mult is not None:
             assert tr_mult.shape == (grid.nk + 1, grid.nj, grid.ni)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[1:-1, :, :]))
+            tr_mult = tr_mult[1:-1, :, :]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -342,7 +348,8 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute K face transmissibility modification')
             assert tr_abs.shape == (grid.nk + 1, grid.nj, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[1:-1, :, :] <= 0.0)
+            tr_abs = tr_abs[1:-1, :, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
-- 
2.43.0


From cc0f5a1ff5986604447c9a8cb4e5dc8c1e5a72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 048/117] fix: half cell transmissibility properties and
 multipliers could not be used

---
 resqpy/grid/_transmissibility.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index dc1ce48..27892ac 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -174,6 +174,7 @@ def __faces_per_cell_multiplier(grid, half_t, pc, realization):
         log.warning('no faces per cell transmissibility multiplier found when calculating transmissibilities')
     else:
         log.debug('applying faces per cell transmissibility multipliers')
+        half_t_mult = pc.combobulated_face_array(half_t_mult)
         half_t = np.where(np.isnan(half_t_mult), half_t, half_t * half_t_mult)
     return half_t, pc
 
@@ -389,15 +390,15 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
     half_t = None
 
     if use_property:
-        pc = grid.property_collection
+        pc = grid.extract_property_collection()
         half_t_resqml = pc.single_array_ref(property_kind = 'transmissibility',
                                             realization = realization,
                                             continuous = True,
                                             count = 1,
                                             indexable = 'faces per cell')
-        if half_t_resqml:
+        if half_t_resqml is not None:
             assert half_t_resqml.shape == (grid.nk, grid.nj, grid.ni, 6)
-            half_t = pc.combobulate(half_t_resqml)
+            half_t = pc.combobulated_face_array(half_t_resqml)
 
     if half_t is None:
         # note: properties must be identifiable in property_collection
-- 
2.43.0


From be236b11ee3c0e7c9af45455609a828177898415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 049/117] fix: transmissibility() used cached values regardless
 of modifier mode

---
 resqpy/grid/_transmissibility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 27892ac..7f7c49a 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -66,7 +66,7 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
     k_tr = j_tr = i_tr = None
 
-    if realization is None:
+    if realization is None and modifier_mode is None:
         if hasattr(grid, 'array_k_transmissibility') and grid.array_k_transmissibility is not None:
             k_tr = grid.array_k_transmissibility
         if hasattr(grid, 'array_j_transmissibility') and grid.array_j_transmissibility is not None:
@@ -285,7 +285,7 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
+    if realization is None and modifier_mode is None:
         grid.array_j_transmissibility = j_tr
     return j_tr
 
@@ -353,7 +353,7 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
+    if realization is None and modifier_mode is None:
         grid.array_k_transmissibility = k_tr
     return k_tr
 
-- 
2.43.0


From 30fb19d293519c71288644db402104658165b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 050/117] fix: find_faults() omitted a fault when every column
 edge is faulted

---
 resqpy/grid/_faults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_faults.py b/resqpy/grid/_faults.py
index 33df029..97cd74b 100644
--- a/resqpy/grid/_faults.py
+++ b/resqpy/grid/_faults.py
@@ -78,8 +78,8 @@ def find_faults(grid, set_face_sets = False, create_organizing_objects_where_nee
                     kelp_i = np.where(kelp_i == i_id, j_id, kelp_i)
                     kelp_j = np.where(kelp_j == i_id, j_id, kelp_j)
 
-    fault_id_list = np.unique(np.concatenate(
-        (np.unique(kelp_i.flatten()), np.unique(kelp_j.flatten()))))[1:]  # discard zero from list
+    fault_id_list = np.unique(np.concatenate((np.unique(kelp_i.flatten()), np.unique(kelp_j.flatten()))))
+    fault_id_list = fault_id_list[fault_id_list > 0]  # discard zero from list
     log.info('number of distinct faults: ' + str(fault_id_list.size))
     # for each fault id, make pair of tuples of kelp locations
     grid.fault_dict = {}  # maps fault_id to pair (j faces, i faces) of array of [j, i] kelp indices for that fault_id
-- 
2.43.0


From e6153e5fb39d2fede9d26d40db6cc6a437ba4609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 051/117] fix: fault connection set failed when a pillar at a
 fault is entirely undefined

---
 resqpy/olio/transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 2664c2a..f5be309 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -952,7 +952,7 @@ def fault_connection_set(grid, skip_inactive = False):
         pav = 0.5 * (pv[pam] + pv[pap])  # mean pillar unit vector for -I side of J face
         pbv = 0.5 * (pv[pbm] + pv[pbp])  # mean pillar unit vector for +I side of J face
         if all_nan(p[:, pam, :]) or all_nan(p[:, pap, :]) or all_nan(p[:, pbm, :]) or all_nan(p[:, pbp, :]):
-            return []
+            return [], (0, 0, 1.0, 1.0)
         o = np.nanmin(p[:, pam, :], axis = 0)  # arbitrary local origin
         oe = np.expand_dims(o, 0)
         paml = p[:, pam, :] - oe  # pillar points translated to local space
-- 
2.43.0


From f40be4f97bd823373c161d4f468441afc02eb48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 052/117] fix: trajectory from deviation survey treated radians
 as degrees and failed for vertical stations of differing azimuth

---
 resqpy/well/_trajectory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 624b16e..1e6532b 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -343,6 +343,8 @@ class Trajectory(BaseResqpy):
             i2 = survey.inclinations[sp]
             az1 = survey.azimuths[sp - 1]
             az2 = survey.azimuths[sp]
+            if not survey.angles_in_degrees:
+                i1, i2, az1, az2 = maths.degrees(i1), maths.degrees(i2), maths.degrees(az1), maths.degrees(az2)
             delta_md = survey.measured_depths[sp] - survey.measured_depths[sp - 1]
             assert delta_md > 0.0
             if i1 == i2 and az1 == az2:
@@ -357,8 +359,8 @@ class Trajectory(BaseResqpy):
                 cos_theta = min(max(maths.cos(i2 - i1) - sin_i1 * sin_i2 * (1.0 - maths.cos(az2 - az1)), -1.0), 1.0)
                 theta = maths.acos(cos_theta)
                 #           theta = maths.acos(sin_i1 * sin_i2 * maths.cos(az2 - az1)  +  (maths.cos(i1) * maths.cos(i2)))
-                assert theta != 0.0  # shouldn't happen as covered by if clause above
-                half_rf = maths.tan(0.5 * theta) / theta
+                # direction is unchanged at a vertical section, whatever the azimuths
+                half_rf = 0.5 if theta == 0.0 else maths.tan(0.5 * theta) / theta
                 delta_y = delta_md * half_rf * ((sin_i1 * maths.cos(az1)) + (sin_i2 * maths.cos(az2)))
                 delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
                 delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
-- 
2.43.0


From e41ffd0163ebdd7785d9b98c812f4f547af715a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 053/117] fix: trajectory inclinations() returned zero for
 intervals vertically upward

---
 resqpy/well/_trajectory.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 1e6532b..c96a75d 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -694,11 +694,8 @@ class Trajectory(BaseResqpy):
             interval_vectors[:, 2] = -interval_vectors[:, 2]
         interval_h = np.sqrt((interval_vectors[:, 0] * interval_vectors[:, 0]) +
                              (interval_vectors[:, 1] * interval_vectors[:, 1]))
-        restore = np.seterr(all = 'ignore')
-        incl_radians = np.arctan(interval_h / interval_vectors[:, 2])  # horizontal / vertical
-        np.seterr(**restore)
+        incl_radians = np.arctan2(interval_h, interval_vectors[:, 2])  # horizontal / vertical
         incl_radians = np.where(interval_vectors[:, 2] == 0.0, maths.pi / 2.0, incl_radians)
-        incl_radians = np.where(incl_radians < 0.0, incl_radians + maths.pi, incl_radians)
         return np.degrees(incl_radians)
 
     def splined_trajectory(self,
-- 
2.43.0


From 5f0646e9241ac49ac41ca4e6044aa6d7aee9dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 054/117] fix: trajectory xyz_for_md() exposed control points
 to modification by caller

---
 resqpy/well/_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index c96a75d..1012f9c 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -661,7 +661,7 @@ class Trajectory(BaseResqpy):
         def search(md, i1, i2):
             if i2 - i1 <= 1:
                 if md == self.measured_depths[i1]:
-                    return self.control_points[i1]
+                    return self.control_points[i1].copy()
                 return interpolate(self.control_points[i1], self.control_points[i1 + 1],
                                    (md - self.measured_depths[i1]) /
                                    (self.measured_depths[i1 + 1] - self.measured_depths[i1]))
@@ -674,7 +674,7 @@ class Trajectory(BaseResqpy):
             return None
         if md <= self.start_md:
             if self.start_md == 0.0:
-                return self.md_datum.location
+                return np.array(self.md_datum.location, dtype = float)
             return interpolate(np.array(self.md_datum.location), self.control_points[0], md / self.start_md)
         return search(md, 0, self.knot_count - 1)
 
-- 
2.43.0


From f21a3a187a10e7c03a3e7839167f8dc74ff7eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 055/117] fix: wellbore frame interval meeting a blocked well
 cell at a single measured depth contributed to the cell

---
 resqpy/well/blocked_well_frame.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/blocked_well_frame.py b/resqpy/well/blocked_well_frame.py
index ebe327b..832fbcf 100644
--- a/resqpy/well/blocked_well_frame.py
+++ b/resqpy/well/blocked_well_frame.py
@@ -56,10 +56,12 @@ def blocked_well_frame_contributions_list(bw, wbf):
             assert 0.0 <= cell_fr <= 1.0 + 1.0e-6
             wb_fraction_of_wbf.append([(entry_wbf_i, exit_wbf_fr - entry_wbf_fr, cell_fr)])
             continue
-        # more than one frame interval contributes to this cell
-        cell_fr = (wbf.node_mds[entry_wbf_i + 1] - max(cell_entry_md, wbf.node_mds[entry_wbf_i])) / cell_dmd
-        assert 0.0 <= cell_fr <= 1.0
-        contrib_list = [(entry_wbf_i, 1.0 - entry_wbf_fr, cell_fr)]
+        # more than one frame interval contributes to this cell, unless entry is at the end of a frame interval
+        contrib_list = []
+        if entry_wbf_fr < 1.0:
+            cell_fr = (wbf.node_mds[entry_wbf_i + 1] - max(cell_entry_md, wbf.node_mds[entry_wbf_i])) / cell_dmd
+            assert 0.0 <= cell_fr <= 1.0
+            contrib_list.append((entry_wbf_i, 1.0 - entry_wbf_fr, cell_fr))
         for wbf_i in range(entry_wbf_i + 1, exit_wbf_i):  # these frame intervals entirely within cell
             contrib_list.append((wbf_i, 1.0, (wbf.node_mds[wbf_i + 1] - wbf.node_mds[wbf_i]) / cell_dmd))
         cell_fr = (min(cell_exit_md, wbf.node_mds[exit_wbf_i + 1]) - wbf.node_mds[exit_wbf_i]) / cell_dmd
-- 
2.43.0


From cab2a320767cc6017b33227d06c86e5bfcf6d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 056/117] fix: blocked well derive_from_dataframe() failed with
 angles when not using face centres

---
 resqpy/well/_blocked_well.py | 46 +++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 0c672f7..b17b876 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -910,13 +910,13 @@ class BlockedWell(BaseResqpy):
             entry_axis, entry_polarity, exit_axis, exit_polarity = BlockedWell.__calculate_entry_and_exit_axes_polarities_and_points_using_indices(
                 df = df, i = i, cell_kji0 = cell_kji0, blocked_cells_kji0 = blocked_cells_kji0)
 
-        entry_xyz, exit_xyz = BlockedWell.__override_vector_based_xyz_entry_and_exit_points_if_necessary(
-            use_face_centres = use_face_centres,
-            entry_axis = entry_axis,
-            exit_axis = exit_axis,
-            entry_polarity = entry_polarity,
-            exit_polarity = exit_polarity,
-            cp = cp)
+        if use_face_centres:  # override the vector based xyz entry and exit points with face centres
+            entry_xyz, exit_xyz = BlockedWell.__override_vector_based_xyz_entry_and_exit_points(
+                entry_axis = entry_axis,
+                exit_axis = exit_axis,
+                entry_polarity = entry_polarity,
+                exit_polarity = exit_polarity,
+                cp = cp)
 
         return entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz
 
@@ -996,24 +996,22 @@ class BlockedWell(BaseResqpy):
         return exit_axis, exit_polarity
 
     @staticmethod
-    def __override_vector_based_xyz_entry_and_exit_points_if_necessary(use_face_centres, entry_axis, exit_axis,
-                                                                       entry_polarity, exit_polarity, cp):
-        """Override the vector based xyz entry and exit with face centres."""
+    def __override_vector_based_xyz_entry_and_exit_points(entry_axis, exit_axis, entry_polarity, exit_polarity, cp):
+        """Returns face centres to override the vector based xyz entry and exit."""
 
-        if use_face_centres:  # override the vector based xyz entry and exit points with face centres
-            if entry_axis == 0:
-                entry_xyz = np.mean(cp[entry_polarity, :, :], axis = (0, 1))
-            elif entry_axis == 1:
-                entry_xyz = np.mean(cp[:, entry_polarity, :], axis = (0, 1))
-            else:
-                entry_xyz = np.mean(cp[:, :, entry_polarity], axis = (0, 1))  # entry_axis == 2, ie. I
-            if exit_axis == 0:
-                exit_xyz = np.mean(cp[exit_polarity, :, :], axis = (0, 1))
-            elif exit_axis == 1:
-                exit_xyz = np.mean(cp[:, exit_polarity, :], axis = (0, 1))
-            else:
-                exit_xyz = np.mean(cp[:, :, exit_polarity], axis = (0, 1))  # exit_axis == 2, ie. I
-            return entry_xyz, exit_xyz
+        if entry_axis == 0:
+            entry_xyz = np.mean(cp[entry_polarity, :, :], axis = (0, 1))
+        elif entry_axis == 1:
+            entry_xyz = np.mean(cp[:, entry_polarity, :], axis = (0, 1))
+        else:
+            entry_xyz = np.mean(cp[:, :, entry_polarity], axis = (0, 1))  # entry_axis == 2, ie. I
+        if exit_axis == 0:
+            exit_xyz = np.mean(cp[exit_polarity, :, :], axis = (0, 1))
+        elif exit_axis == 1:
+            exit_xyz = np.mean(cp[:, exit_polarity, :], axis = (0, 1))
+        else:
+            exit_xyz = np.mean(cp[:, :, exit_polarity], axis = (0, 1))  # exit_axis == 2, ie. I
+        return entry_xyz, exit_xyz
 
     @staticmethod
     def __add_interval(previous_xyz, entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz,
-- 
2.43.0


From 68fd42c8366dd38ec76bdb48c54c252e6458eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 057/117] fix: blocked well derived from dataframe did not skip
 all rows for another grid, or failed if first row skipped

---
 resqpy/well/_blocked_well.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index b17b876..4433cb8 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -893,7 +893,7 @@ class BlockedWell(BaseResqpy):
             if skipped_warning_grid != other_grid:
                 log.warning('skipping perforation(s) in grid ' + other_grid + ' for well ' + str(well_name))
                 skipped_warning_grid = other_grid
-                skip_row = True
+            skip_row = True
         return skipped_warning_grid, skip_row
 
     @staticmethod
@@ -957,7 +957,7 @@ class BlockedWell(BaseResqpy):
             could use geometry but here a cheap rough-and-ready approach is used
         """
 
-        if i == 0:
+        if i == 0 or len(blocked_cells_kji0) == 0:
             entry_axis, entry_polarity = 0, 0  # K-
         else:
             entry_move = cell_kji0 - blocked_cells_kji0[-1]
-- 
2.43.0


From 2e9a8285461286c3626884f39dd815551e736dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 058/117] fix: blocked well derived from dataframe or wellspec
 took cell indices from wrong columns if not in order IW, JW, L

---
 resqpy/well/_blocked_well.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 4433cb8..92abab2 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -877,10 +877,14 @@ class BlockedWell(BaseResqpy):
     @staticmethod
     def __cell_kji0_from_df(df, df_row):
         row = df.iloc[df_row]
-        if pd.isna(row[0]) or pd.isna(row[1]) or pd.isna(row[2]):
+        if all([col in df.columns for col in ['IW', 'JW', 'L']]):
+            iw, jw, layer = row['IW'], row['JW'], row['L']
+        else:
+            iw, jw, layer = row.iloc[0], row.iloc[1], row.iloc[2]
+        if pd.isna(iw) or pd.isna(jw) or pd.isna(layer):
             return None
         cell_kji0 = np.empty((3,), dtype = np.int32)
-        cell_kji0[:] = row[2], row[1], row[0]
+        cell_kji0[:] = layer, jw, iw
         cell_kji0[:] -= 1
         return cell_kji0
 
-- 
2.43.0


From 5a810b498afe74344305e3fe22790fb573411744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 059/117] fix: get_well_pointers() could give date from other
 well to entry before first TIME

---
 resqpy/olio/wellspec_keywords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 46918e1..c6cb1e5 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -400,11 +400,12 @@ def get_well_pointers(
             date = date_obj.isoformat()
             time_pointers[file.tell()] = date
 
-    current_date = None  # Before first TIME
+    initial_date = None  # Before first TIME
     if no_date_replacement is not None:
-        current_date = no_date_replacement.isoformat()
+        initial_date = no_date_replacement.isoformat()
     for well, well_pointer_list in well_pointers.items():
         for i, well_pointer in enumerate(well_pointer_list):
+            current_date = initial_date
             for time_pointer, date in time_pointers.items():
                 if well_pointer[0] > time_pointer:
                     current_date = date
-- 
2.43.0


From 4debf7015cbc7b737c171e05fa4a0112c883cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 060/117] fix: blocked well derive_from_wellspec() failed for
 multiple dates, or when GRID column present

---
 resqpy/well/_blocked_well.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 92abab2..febef15 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -693,6 +693,7 @@ class BlockedWell(BaseResqpy):
         else:
             initial_df = df[df['DATE'] == dates_list[0]]  # both should be in iso format
             next_date_index = 1
+        initial_df = initial_df.drop(columns = ['DATE'])
 
         success = self.derive_from_dataframe(initial_df,
                                              well_name,
@@ -707,9 +708,10 @@ class BlockedWell(BaseResqpy):
             return None
 
         # for each (remaining) date in dates_list, if present in well df, creete subset df, compare row count with init, add props
-        length_uom = grid.z_units()
+        if not length_uom:
+            length_uom = grid.z_units()
         for date_index in range(next_date_index, len(dates_list)):
-            date_df = df[df['DATE'] == dates_list[date_index]]
+            date_df = df[df['DATE'] == dates_list[date_index]].drop(columns = ['DATE'])
             if len(date_df) == 0:
                 continue
             assert len(date_df) == len(initial_df),  \
@@ -719,7 +721,8 @@ class BlockedWell(BaseResqpy):
                                                   date_df,
                                                   length_uom,
                                                   time_index = date_index,
-                                                  time_series_uuid = time_series.uuid)
+                                                  time_series_uuid = time_series.uuid,
+                                                  write_blocked_well = False)
 
         return self
 
@@ -751,7 +754,9 @@ class BlockedWell(BaseResqpy):
                               grid_name_to_check = None,
                               use_face_centres = True,
                               add_as_properties = False,
-                              length_uom = None):
+                              length_uom = None,
+                              time_index = None,
+                              time_series_uuid = None):
         """Populate empty blocked well from WELLSPEC-like dataframe; first columns must be IW, JW, L (i, j, k).
 
         note:
@@ -870,7 +875,11 @@ class BlockedWell(BaseResqpy):
             trajectory_mds = trajectory_mds)
 
         self.create_md_datum_and_trajectory(grid, trajectory_mds, trajectory_points, length_uom, well_name)
-        self.__add_as_properties_if_specified(add_as_properties = add_as_properties, df = df, length_uom = length_uom)
+        self.__add_as_properties_if_specified(add_as_properties = add_as_properties,
+                                              df = df,
+                                              length_uom = length_uom,
+                                              time_index = time_index,
+                                              time_series_uuid = time_series_uuid)
 
         return self
 
@@ -1076,20 +1085,26 @@ class BlockedWell(BaseResqpy):
                                          df,
                                          length_uom,
                                          time_index = None,
-                                         time_series_uuid = None):
+                                         time_series_uuid = None,
+                                         write_blocked_well = True):
         # if add_as_properties is True and present as a list of wellspec column names, both the blocked well and
         # the properties will have their hdf5 data written, xml created and be added as parts to the model
 
         if add_as_properties and len(df.columns) > 3:
             # NB: atypical writing of hdf5 data and xml creation in order to support related properties
-            self.write_hdf5()
-            self.create_xml()
+            if write_blocked_well:
+                self.write_hdf5()
+                self.create_xml()
             if isinstance(add_as_properties, list):
                 for col in add_as_properties:
-                    assert col in df.columns[3:]  # could just skip missing columns
+                    assert col in df.columns  # could just skip missing columns
                 property_columns = add_as_properties
             else:
-                property_columns = df.columns[3:]
+                if all([col in df.columns for col in ['IW', 'JW', 'L']]):
+                    index_columns = ['IW', 'JW', 'L']
+                else:
+                    index_columns = list(df.columns[:3])
+                property_columns = [col for col in df.columns if col not in index_columns + ['GRID']]
             self.add_df_properties(df,
                                    property_columns,
                                    length_uom = length_uom,
-- 
2.43.0


From 39a66b98fad71129d9f2e2db69f0f51e08bd24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 061/117] fix: blocked well derive_from_wellspec() failed when
 checking grid name and adding all columns as properties

---
 resqpy/well/_blocked_well.py | 5 +++--
 resqpy/well/well_utils.py    | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index febef15..68ec92e 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -901,8 +901,9 @@ class BlockedWell(BaseResqpy):
     def __verify_grid_name(grid_name_to_check, row, skipped_warning_grid, well_name):
         """Check whether the grid associated with a row of the dataframe matches the expected grid name."""
         skip_row = False
-        if grid_name_to_check and pd.notna(row['GRID']) and grid_name_to_check != str(row['GRID']).upper():
-            other_grid = str(row['GRID'])
+        row_grid = row['GRID'] if 'GRID' in row.index else 'ROOT'
+        if grid_name_to_check and pd.notna(row_grid) and grid_name_to_check != str(row_grid).upper():
+            other_grid = str(row_grid)
             if skipped_warning_grid != other_grid:
                 log.warning('skipping perforation(s) in grid ' + other_grid + ' for well ' + str(well_name))
                 skipped_warning_grid = other_grid
diff --git a/resqpy/well/well_utils.py b/resqpy/well/well_utils.py
index 324b038..5c78671 100644
--- a/resqpy/well/well_utils.py
+++ b/resqpy/well/well_utils.py
@@ -161,7 +161,8 @@ def _derive_from_wellspec_check_grid_name(check_grid_name, grid, col_list):
         if not grid_name:
             name_for_check = None
         else:
-            col_list.append('GRID')
+            if col_list:  # note: empty list indicates all columns, including GRID if present
+                col_list.append('GRID')
             name_for_check = grid_name
     else:
         name_for_check = None
-- 
2.43.0


From f1bc8ec115a4d102b1e9b6ed966eadba79e1bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 062/117] fix: blocked well dataframe() X, Y, DEPTH columns had
 wrong sign or units in some circumstances

---
 resqpy/well/_blocked_well.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 68ec92e..7fc73fe 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -2081,8 +2081,7 @@ class BlockedWell(BaseResqpy):
                             ('ANGLV' in column_list and 'ANGLV' not in pc_titles), (doing_kh), (do_well_inflow)])
         doing_xyz = any([('X' in column_list and 'X' not in pc_titles), ('Y' in column_list and 'Y' not in pc_titles),
                          ('DEPTH' in column_list and 'DEPTH' not in pc_titles)])
-        doing_entry_exit = any([(doing_angles),
-                                ('LENGTH' in column_list and 'LENGTH' not in pc_titles and length_mode == 'straight')])
+        doing_entry_exit = doing_angles or length_mode == 'straight'
 
         # doing_angles = (('ANGLA' in column_list and 'ANGLA' not in pc_titles) or
         #                 ('ANGLV' in column_list and 'ANGLV' not in pc_titles) or doing_kh or do_well_inflow)
@@ -2623,16 +2622,18 @@ class BlockedWell(BaseResqpy):
 
         if length_mode == 'MD' and self.trajectory is not None:
             xyz = self.trajectory.xyz_for_md(md)
-            if length_uom is not None and length_uom != self.trajectory.md_uom:
-                wam.convert_lengths(xyz, traj_crs.z_units, length_uom)
-            if depth_inc_down and traj_z_inc_down is False:
-                xyz[2] = -xyz[2]
+            xyz_crs = traj_crs
+            z_inc_down = traj_z_inc_down
         else:
             xyz = 0.5 * (np.array(exit_xyz) + np.array(entry_xyz))
-            if length_uom is not None and length_uom != ee_crs.z_units:
-                xyz[2] = wam.convert_lengths(xyz[2], ee_crs.z_units, length_uom)
-            if depth_inc_down != ee_crs.z_inc_down:
-                xyz[2] = -xyz[2]
+            xyz_crs = ee_crs
+            z_inc_down = ee_crs.z_inc_down
+        if length_uom is not None and xyz_crs is not None:
+            xyz[0] = wam.convert_lengths(xyz[0], xyz_crs.xy_units, length_uom)
+            xyz[1] = wam.convert_lengths(xyz[1], xyz_crs.xy_units, length_uom)
+            xyz[2] = wam.convert_lengths(xyz[2], xyz_crs.z_units, length_uom)
+        if depth_inc_down and z_inc_down is False:
+            xyz[2] = -xyz[2]
 
         return xyz
 
-- 
2.43.0


From b00ec7f087be2e9035cc2a986d0968de727a7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:54 +0000
Subject: [PATCH 063/117] fix: blocked well dataframe() KH failed with net to
 gross and single permeability property

---
 resqpy/well/_blocked_well.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 7fc73fe..fe2af55 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -2049,6 +2049,7 @@ class BlockedWell(BaseResqpy):
         if doing_kh or do_well_inflow:
             if perm_j_uuid is None and perm_k_uuid is None:
                 isotropic_perm = True
+                perm_j_uuid = perm_k_uuid = perm_i_uuid
             else:
                 if perm_j_uuid is None:
                     perm_j_uuid = perm_i_uuid
-- 
2.43.0


From 41401fc78c53290b6f0d0bee632d2a7d8a06478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 064/117] fix: trajectory intersection functions modified
 trajectory control points or start point passed as argument

---
 resqpy/grid_surface/_trajectory_intersects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 51f6c98..f1f6543 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -172,6 +172,7 @@ def find_first_intersection_of_trajectory_with_surface(trajectory,
     xyz_2 = tri_2 = None
     if start_xyz is None:
         start_xyz = trajectory.control_points[knot]
+    start_xyz = np.array(start_xyz, dtype = float)  # copy, as might be modified by nudge
     if knot < trajectory.knot_count - 2 and vec.isclose(start_xyz, trajectory.control_points[knot + 1]):
         knot += 1
     if nudge is not None and nudge != 0.0:
@@ -383,7 +384,7 @@ def find_intersection_of_trajectory_interval_with_column_face(trajectory,
     log.debug(f"intersecting trajectory segment with column face ji0 {col_ji0} face {'KJI'[axis]}{'-+'[polarity]}")
     if start_xyz is not None:
         if nudge is not None and nudge != 0.0:  # here we typically nudge back up the wellbore
-            start_xyz += nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
+            start_xyz = start_xyz + nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
         line_p = start_xyz
     else:
         line_p = trajectory.control_points[start_knot]
-- 
2.43.0


From 56124afbf36e47b4512fd25ba4b053b7cda54898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 065/117] fix: first intersection of trajectory with layer
 interface of regular grid ignored origin, used y value for column i and
 failed if none found

---
 resqpy/grid_surface/_trajectory_intersects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index f1f6543..5f7258f 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -268,7 +268,7 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
 
     # log.debug('generating surface for layer: ' + str(k0) + ' ' + ref_k_faces)
     if is_regular:
-        interface_depth = grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
+        interface_depth = grid.block_origin[2] + grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
         surface = rqs.Surface(grid.model)
         surface.set_to_horizontal_plane(interface_depth, grid.xyz_box())
     elif grid.has_split_coordinate_lines and not heal_faults:
@@ -288,9 +288,11 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     col_list = []
     for traj in trajectory_list:
         xyz, knot, tri = find_first_intersection_of_trajectory_with_surface(traj, surface, start = start)
-        if is_regular:
-            col_j = int(xyz[1] / grid.block_dxyz_dkji[1, 1])
-            col_i = int(xyz[1] / grid.block_dxyz_dkji[2, 0])
+        if xyz is None:
+            col = (None, None)
+        elif is_regular:
+            col_j = int((xyz[1] - grid.block_origin[1]) / grid.block_dxyz_dkji[1, 1])
+            col_i = int((xyz[0] - grid.block_origin[0]) / grid.block_dxyz_dkji[2, 0])
             assert 0 <= col_i < grid.ni and 0 <= col_j < grid.nj
             col = (col_j, col_i)
         else:
-- 
2.43.0


From 001941467fe6829c339ebe2bd2f4ce24c90176f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 066/117] fix: generate_surface_for_blocked_well_cells() failed
 or misbehaved with active_only, depth_limit or combined False

---
 resqpy/grid_surface/_blocked_well_populate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 9a167e0..2cfb02a 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -281,11 +281,11 @@ def generate_surface_for_blocked_well_cells(blocked_well,
     for cell in range(cell_count):
         grid = grid_list[cell]
         cell_kji0 = cells_kji0[cell]
-        if active_only and grid.inactive is not None and grid.inactive[cell_kji0]:
+        if active_only and grid.inactive is not None and grid.inactive[tuple(cell_kji0)]:
             continue
         if cell_kji0[0] < min_k0 or (max_k0 is not None and cell_kji0[0] > max_k0):
             continue
-        if depth_limit is not None and grid.centre_point(cell_kji0) > depth_limit:
+        if depth_limit is not None and grid.centre_point(cell_kji0)[2] > depth_limit:
             continue
         cp = grid.corner_points(cell_kji0)
         if combined:
@@ -301,7 +301,7 @@ def generate_surface_for_blocked_well_cells(blocked_well,
 
     if combined:
         cs = rqs.Surface(blocked_well.model)
-        cs.set_to_multi_cell_faces_from_corner_points(composite_cp[:cell_p])
+        cs.set_to_multi_cell_faces_from_corner_points(composite_cp[:cell_p], quad_triangles = quad_triangles)
         return cs
 
     return surface_list
-- 
2.43.0


From 75c71258a40a08e860fc71fc41b13e9f86537b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:36 +0000
Subject: [PATCH 067/117] fix: extract_box() gave wrong points where more than
 two pillars share a primary pillar

---
 resqpy/derived_model/_extract_box.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 8d0347d..16c220a 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -277,27 +277,20 @@ def _process_split_pillars(source_grid, grid, box, pillar_box):
     local_cols_array = np.zeros(len(source_grid.cols_for_split_pillars), dtype = int)
     local_cols_cl = np.zeros(len(source_grid.split_pillar_indices_cached), dtype = int)
     local_index = 0
-    for index in range(len(source_grid.split_pillar_indices_cached)):
-        source_pi = source_grid.split_pillar_indices_cached[index]
+    for source_pi in np.unique(source_grid.split_pillar_indices_cached):
         local_pi = _local_pillar_index(source_grid.extent_kji, box, source_pi)
         if local_pi is None:
             continue
         cols = _cols_for_pillar(source_grid.extent_kji, source_pi)
         local_cols = _cols_for_pillar(grid.extent_kji, local_pi)
-        if index == 0:
-            start = 0
-        else:
-            start = source_grid.cols_for_split_pillars_cl[index - 1]
-        finish = source_grid.cols_for_split_pillars_cl[index]
-        source_pis = np.zeros((4,), dtype = int)
-        for c_i in range(4):
-            if local_cols[c_i] < 0:
-                source_pis[c_i] = -1
-                continue
-            if cols[c_i] in source_grid.cols_for_split_pillars[start:finish]:
-                source_pis[c_i] = source_base_pillar_count + index
-            else:
-                source_pis[c_i] = source_pi
+        source_pis = np.full((4,), source_pi, dtype = int)
+        source_pis[local_cols < 0] = -1
+        for index in np.where(source_grid.split_pillar_indices_cached == source_pi)[0]:
+            start = 0 if index == 0 else source_grid.cols_for_split_pillars_cl[index - 1]
+            finish = source_grid.cols_for_split_pillars_cl[index]
+            for c_i in range(4):
+                if local_cols[c_i] >= 0 and cols[c_i] in source_grid.cols_for_split_pillars[start:finish]:
+                    source_pis[c_i] = source_base_pillar_count + index
         unique_source_pis = np.unique(source_pis)
         unique_count = len(unique_source_pis)
         unique_index = 0
-- 
2.43.0


From e7e05555bc780185ce6c76c9593a72c8f3916cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 068/117] fix: porosity weighting of saturations when
 coarsening corrupted volumes used for other properties

---
 resqpy/property/grid_property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index badec26..96f66a8 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1026,8 +1026,8 @@ def _extend_imported_coarsen_sat(source_sat, other, box, collection, realization
     fine_sat_weight = fine_nrv_array
     coarse_sat_weight = coarse_nrv_array
     if fine_poro_array is not None:
-        fine_sat_weight *= fine_poro_array
-        coarse_sat_weight *= coarse_poro_array
+        fine_sat_weight = fine_sat_weight * fine_poro_array
+        coarse_sat_weight = coarse_sat_weight * coarse_poro_array
     for (part, info) in source_sat.dict.items():
         if not copy_all_realizations and info[0] != realization:
             continue
-- 
2.43.0


From adba29a24be7f12442a69e875101dcc926e64cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 069/117] fix: properties inherited by derived grids lost
 indexable element, count, null value and string lookup

---
 resqpy/property/grid_property_collection.py | 38 ++++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 96f66a8..b6a4057 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -16,6 +16,7 @@ import resqpy.olio.load_data as ld
 import resqpy.olio.write_data as wd
 import resqpy.olio.xml_et as rqet
 import resqpy.property.property_common as rqp_c
+import resqpy.property._collection_get_attributes as pcga
 
 
 class GridPropertyCollection(rqp.PropertyCollection):
@@ -772,10 +773,14 @@ class GridPropertyCollection(rqp.PropertyCollection):
                                                           nan_substitute_value = nan_substitute_value)
 
 
-def _array_box(collection, part, box = None, uncache_other_arrays = True):
+def _array_box(collection, part, box = None, uncache_other_arrays = True, indexable = 'cells'):
     full_array = collection.cached_part_array_ref(part)
     if box is None:
         a = full_array.copy()
+    elif indexable == 'layers':
+        a = full_array[box[0, 0]:box[1, 0] + 1].copy()
+    elif indexable == 'columns':
+        a = full_array[box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1].copy()
     else:
         a = full_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1].copy()
     full_array = None
@@ -1116,9 +1121,21 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
     if not copy_all_realizations and info[0] != realization:
         return
 
+    if info[6] not in ['cells', 'columns', 'layers'] and (box is not None or
+                                                          not _same_supporting_shape(collection, other, part)):
+        log.warning(f'property {info[10]} not copied to grid: not available for indexable element: {info[6]}')
+        return
+    if info[6] != 'cells' and refinement is not None:
+        log.warning(f'property {info[10]} not copied to refined grid: not available for indexable element: {info[6]}')
+        return
+
     const_value = info[20]
     if const_value is None:
-        a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
+        a = _array_box(source_collection,
+                       part,
+                       box = box,
+                       uncache_other_arrays = uncache_other_arrays,
+                       indexable = info[6])
     else:
         a = None
 
@@ -1130,10 +1147,11 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         'copied from grid ' + str(other.support.uuid),
         info[10],  # citation_title
         discrete = not info[4],
-        indexable_element = 'cells',
+        indexable_element = info[6],
+        count = info[5],
         uom = info[15],
         time_index = info[12],
-        null_value = None,  # todo: extract from other's xml
+        null_value = info[19],
         property_kind = info[7],
         local_property_kind_uuid = info[17],
         facet_type = info[8],
@@ -1141,7 +1159,17 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
+
+
+def _same_supporting_shape(collection, other, part):
+    # returns True if the two grids share a supporting shape for the indexable element (and direction) of a property
+    indexable = other.indexable_for_part(part)
+    direction = pcga._part_direction(other, part)
+    shape = collection.supporting_shape(indexable_element = indexable, direction = direction)
+    other_shape = other.supporting_shape(indexable_element = indexable, direction = direction)
+    return shape is not None and other_shape is not None and list(shape) == list(other_shape)
 
 
 def _extend_imported_no_coarsening_single_resampling(a, info, collection, refinement):
-- 
2.43.0


From e390fb1e78815808882afd7fc52ac7de5bd75668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 070/117] fix: displacement properties were lost when
 properties were also inherited by an adjusted grid

---
 resqpy/derived_model/_drape_to_surface.py       | 2 +-
 resqpy/derived_model/_fault_throw_scaling.py    | 2 +-
 resqpy/derived_model/_local_depth_adjustment.py | 2 +-
 resqpy/derived_model/_tilted_grid.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 5f6cc65..5ff30c8 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -178,7 +178,7 @@ def drape_to_surface(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid flexed from ' + str(rqet.citation_title_for_node(source_grid.root))
diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 3127b66..016aec7 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -141,7 +141,7 @@ def fault_throw_scaling(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid with fault throws scaled by ' + str(scaling_factor) + ' from ' +  \
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 7c3b283..cb49573 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -166,7 +166,7 @@ def local_depth_adjustment(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid derived from {0} with local depth shift of {1:3.1f} applied'.format(
diff --git a/resqpy/derived_model/_tilted_grid.py b/resqpy/derived_model/_tilted_grid.py
index cd347f1..efe7ba6 100644
--- a/resqpy/derived_model/_tilted_grid.py
+++ b/resqpy/derived_model/_tilted_grid.py
@@ -82,7 +82,7 @@ def tilted_grid(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'tilted version ({0:4.2f} degree dip) of '.format(abs(dip)) + str(
-- 
2.43.0


From 36944c8c1f278dec3cf8ee492969c4c96d1aa8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 071/117] fix: extract_box() failed if pillar geometry defined
 array present and removed parts from property collection of source grid

---
 resqpy/derived_model/_extract_box.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 16c220a..4b87560 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -109,7 +109,7 @@ def extract_box(epc_file = None,
     source_grid.cache_all_geometry_arrays()
 
     # determine cell geometry is defined
-    if hasattr(source_grid, 'array_cell_geometry_is_defined'):
+    if getattr(source_grid, 'array_cell_geometry_is_defined', None) is not None:
         grid.array_cell_geometry_is_defined = _array_box(source_grid.array_cell_geometry_is_defined, box)
         grid.geometry_defined_for_all_cells_cached = np.all(grid.array_cell_geometry_is_defined)
     else:
@@ -117,8 +117,10 @@ def extract_box(epc_file = None,
 
     # copy info for pillar geometry is defined
     grid.geometry_defined_for_all_pillars_cached = source_grid.geometry_defined_for_all_pillars_cached
-    if hasattr(source_grid, 'array_pillar_geometry_is_defined'):
-        grid.array_pillar_geometry_is_defined = _array_box(source_grid.array_pillar_geometry_is_defined, box)
+    if getattr(source_grid, 'array_pillar_geometry_is_defined', None) is not None:
+        grid.array_pillar_geometry_is_defined = source_grid.array_pillar_geometry_is_defined[box[0, 1]:box[1, 1] + 2,
+                                                                                             box[0, 2]:box[1, 2] +
+                                                                                             2].copy()
         grid.geometry_defined_for_all_pillars_cached = np.all(grid.array_pillar_geometry_is_defined)
 
     # get reference to points for source grid geometry
@@ -243,7 +245,11 @@ def _inherit_collection(source_grid, grid, inherit_properties, box, inherit_real
     if inherit_properties:
         source_collection = source_grid.extract_property_collection()
         if source_collection is not None:
-            # do not inherit the inactive property array by this mechanism
+            # do not inherit the inactive property array by this mechanism; work with a copy of the source collection
+            full_collection = source_collection
+            source_collection = rqp.GridPropertyCollection()
+            source_collection.set_grid(source_grid)
+            source_collection.inherit_parts_from_other_collection(full_collection)
             active_collection = rqp.selective_version_of_collection(source_collection, property_kind = 'active')
             source_collection.remove_parts_list_from_dict(active_collection.parts())
             inactive_collection = rqp.selective_version_of_collection(
-- 
2.43.0


From a37fcf44ef3610708c35c41cd0148d42de23980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 072/117] fix: zonal_grid() used wrong layer for base of zones,
 ignored k gaps and mishandled some arguments

---
 resqpy/derived_model/_zonal_grid.py           | 37 ++++++++++++-------
 .../_zone_layer_ranges_from_array.py          |  3 +-
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index e169f0a..aeb2f1c 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -70,8 +70,7 @@ def zonal_grid(epc_file,
     if source_grid.grid_representation == 'IjkBlockGrid':
         source_grid.make_regular_points_cached()
     assert model is not None
-    single_layer_mode = (not zone_title and not zone_uuid and
-                         (zone_layer_range_list is None or len(zone_layer_range_list) == 1))
+    single_layer_mode = (not zone_title and not zone_uuid and zone_layer_range_list is None)
 
     k0_min, k0_max = _set_or_check_k_min_max(k0_min, k0_max, source_grid)
 
@@ -188,11 +187,12 @@ def _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count):
     if is_regular:
         assert zone_count == 1
         dxyz_dkji = source_grid.block_dxyz_dkji.copy()
+        origin = np.array(source_grid.block_origin, dtype = float) + k0_min * dxyz_dkji[0]
         dxyz_dkji[0] *= k0_max - k0_min + 1
         grid = grr.RegularGrid(model,
                                extent_kji = (1, source_grid.nj, source_grid.ni),
                                dxyz_dkji = dxyz_dkji,
-                               origin = source_grid.block_origin,
+                               origin = origin,
                                crs_uuid = source_grid.crs_uuid,
                                set_points_cached = False)
     else:
@@ -212,6 +212,7 @@ def _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count):
 
 def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_list, zone_count):
     source_points = source_grid.points_ref()
+    k_raw = _raw_layer_indices(source_grid)
     log.debug('scanning columns (split pillars) for reference geometry')
     if not hasattr(source_grid, 'pillars_for_column'):
         source_grid.create_column_pillar_mapping()
@@ -222,7 +223,7 @@ def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_lis
         zk0_min, zk0_max = zone_layer_range_list[zone_i][0:2]
         for j in range(grid.nj):
             for i in range(grid.ni):
-                if grid.inactive[zone_i, j, i]:
+                if grid.inactive is not None and grid.inactive[zone_i, j, i]:
                     continue
                 if zone_i == 0:
                     for k in range(zk0_min, zk0_max + 1):
@@ -230,18 +231,25 @@ def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_lis
                             for jp in range(2):
                                 for ip in range(2):
                                     pillar = grid.pillars_for_column[j, i, jp, ip]
-                                    grid.points_cached[0, pillar] = source_points[k, pillar]
+                                    grid.points_cached[0, pillar] = source_points[k_raw[k], pillar]
                             break
-                for k in range(zk0_max + 1, zk0_min - 1, -1):
+                for k in range(zk0_max, zk0_min - 1, -1):
                     if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
                         for jp in range(2):
                             for ip in range(2):
                                 pillar = grid.pillars_for_column[j, i, jp, ip]
-                                grid.points_cached[zone_i + 1, pillar] = source_points[k + 1, pillar]
+                                grid.points_cached[zone_i + 1, pillar] = source_points[k_raw[k] + 1, pillar]
                         grid.array_cell_geometry_is_defined[zone_i, j, i] = True
                         break
 
 
+def _raw_layer_indices(source_grid):
+    # returns array holding the index of the points for the top of each layer, allowing for k gaps
+    if source_grid.k_gaps:
+        return source_grid.k_raw_index_array
+    return np.arange(source_grid.nk, dtype = int)
+
+
 def _set_inactive_cell_mask(source_grid, grid, inactive_laissez_faire, single_layer_mode, k0_min, k0_max,
                             zone_layer_range_list, zone_count):
     if source_grid.inactive is None:
@@ -292,19 +300,20 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
     # get reference to points for source grid geometry
     source_points = source_grid.points_ref()
     # slice top and base points
+    k_raw = _raw_layer_indices(source_grid)
     points_shape = list(source_points.shape)
     points_shape[0] = zone_count + 1  # nk + 1
     grid.points_cached = np.zeros(points_shape)
     if grid.geometry_defined_for_all_cells_cached:
         if single_layer_mode:
-            grid.points_cached[0] = source_points[k0_min]
-            grid.points_cached[1] = source_points[k0_max + 1]  # base face
+            grid.points_cached[0] = source_points[k_raw[k0_min]]
+            grid.points_cached[1] = source_points[k_raw[k0_max] + 1]  # base face
         else:
             for zone_i in range(zone_count):
                 if zone_i == 0:
-                    grid.points_cached[0] = source_points[zone_layer_range_list[zone_i][0]]
-                grid.points_cached[zone_i + 1] = source_points[zone_layer_range_list[zone_i]
-                                                               [1]]  # or could use 0th element of tuple for zone_i+1
+                    grid.points_cached[0] = source_points[k_raw[zone_layer_range_list[zone_i][0]]]
+                zone_base_k0 = min(zone_layer_range_list[zone_i][1], source_grid.nk - 1)  # tolerate layers beyond base
+                grid.points_cached[zone_i + 1] = source_points[k_raw[zone_base_k0] + 1]
     elif not grid.has_split_coordinate_lines:
         log.debug('scanning columns (unsplit pillars) for reference geometry')
         # fill in geometry: todo: replace with array operations if possible
@@ -317,11 +326,11 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
                     if zone_i == 0:
                         for k in range(zk0_min, zk0_max + 1):
                             if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
-                                grid.points_cached[0, j:j + 2, i:i + 2] = source_points[k, j:j + 2, i:i + 2]
+                                grid.points_cached[0, j:j + 2, i:i + 2] = source_points[k_raw[k], j:j + 2, i:i + 2]
                                 break
                     for k in range(zk0_max, zk0_min - 1, -1):
                         if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
-                            grid.points_cached[zone_i + 1, j:j + 2, i:i + 2] = source_points[k + 1, j:j + 2, i:i + 2]
+                            grid.points_cached[zone_i + 1, j:j + 2, i:i + 2] = source_points[k_raw[k] + 1, j:j + 2, i:i + 2]
                             grid.array_cell_geometry_is_defined[zone_i, j, i] = True
                             break
     else:
diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 394a00e..ef05792 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -66,7 +66,8 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
         if zone_layer_range_list[zone_i][0] > zone_layer_range_list[zone_i - 1][1] + 1:
             log.warning('gap in zonal layer ranges, missing layer(s) being arbitrarily assigned to zone below'
                        )  # todo: add more info to log
-            zone_layer_range_list[zone_i][0] = zone_layer_range_list[zone_i - 1][1] + 1
+            zone_layer_range_list[zone_i] = (zone_layer_range_list[zone_i - 1][1] + 1,
+                                             zone_layer_range_list[zone_i][1], zone_layer_range_list[zone_i][2])
     return zone_layer_range_list
 
 
-- 
2.43.0


From e08fd9aa6db6127bb610ec14d1e290aa39b75e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 073/117] fix: unsplit_grid(), fault_throw_scaling(),
 local_depth_adjustment() and drape_to_surface() failed or used wrong layer if
 grid has k gaps

---
 resqpy/derived_model/_common.py                 |  9 +++++++++
 resqpy/derived_model/_drape_to_surface.py       |  3 +--
 resqpy/derived_model/_fault_throw_scaling.py    | 10 +++++-----
 resqpy/derived_model/_local_depth_adjustment.py |  1 +
 resqpy/derived_model/_unsplit_grid.py           |  2 +-
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index f0b3f6c..ddfd53d 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -48,6 +48,15 @@ def _displacement_properties(new_grid, old_grid):
     return displacement_collection
 
 
+def _points_k_index(grid, k0, k_faces = 'top'):
+    # returns the k index into the points array for the top (or base) of a layer, allowing for k gaps
+    if grid.k_gaps and k0 < grid.nk:
+        k0 = grid.k_raw_index_array[k0]
+    elif grid.k_gaps:
+        k0 = grid.nk_plus_k_gaps
+    return k0 + 1 if k_faces == 'base' else k0
+
+
 def _pl(n, use_es = False):
     if n == 1:
         return ''
diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 5ff30c8..39b73b3 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -134,8 +134,7 @@ def drape_to_surface(epc_file,
     log.debug('setting up pillar sample points and directional vectors')
     line_p = unsplit_points[0, :, :, :].reshape((-1, 3))
     line_v = unsplit_points[-1, :, :, :].reshape((-1, 3)) - line_p
-    if ref_k_faces == 'base':
-        ref_k0 += 1
+    ref_k0 = rqdm_c._points_k_index(grid, ref_k0, ref_k_faces)
 
     # access triangulated surface as triangle node indices into array of points
     log.debug('fetching surface points and triangle corner indices')
diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 016aec7..e42b55f 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -88,9 +88,9 @@ def fault_throw_scaling(epc_file,
     assert source_grid.has_split_coordinate_lines, 'cannot scale fault throws in unfaulted grid'
     assert scaling_factor is not None or (connection_set is not None and scaling_dict is not None)
 
-    if ref_k_faces == 'base':
-        ref_k0 += 1
     assert ref_k0 >= 0 and ref_k0 <= source_grid.nk, 'reference layer out of range'
+    ref_k0 = rqdm_c._points_k_index(source_grid, ref_k0, ref_k_faces)
+    assert ref_k0 <= source_grid.nk_plus_k_gaps, 'reference layer out of range'
 
     # take a copy of the grid
     log.debug('copying grid')
@@ -249,7 +249,7 @@ def global_fault_throw_scaling(epc_file,
 def _set_offsets_based_on_scaling_factor(grid, scaling_factor, offsets, ref_k0, primaries):
     # fetch unsplit equivalent of grid points for reference layer interface
     log.debug('fetching unsplit equivalent grid points')
-    unsplit_points = grid.unsplit_points_ref().reshape(grid.nk + 1, -1, 3)
+    unsplit_points = grid.unsplit_points_ref().reshape(grid.nk_plus_k_gaps + 1, -1, 3)
     # determine existing throws on split pillars
     semi_throws = np.zeros(grid.points_cached.shape[1:])  # same throw applied to all layers
     unique_spi = np.unique(grid.split_pillar_indices_cached)
@@ -348,8 +348,8 @@ def _neighbourly_adjustment(grid, offsets, adjusted, cell_range):
                     contributions += 1
             if contributions == 0:
                 continue
-            dxy_dz = ((grid.points_cached[grid.nk, p, :2] - grid.points_cached[0, p, :2]) /
-                      (grid.points_cached[grid.nk, p, 2] - grid.points_cached[0, p, 2]))
+            dxy_dz = ((grid.points_cached[-1, p, :2] - grid.points_cached[0, p, :2]) /
+                      (grid.points_cached[-1, p, 2] - grid.points_cached[0, p, 2]))
             offsets[p, 2] = offset_decay * accum / float(contributions)
             offsets[p, :2] = offsets[p, 2] * dxy_dz
             grid.points_cached[:, p, :] += offsets[p, :].reshape((1, 3))
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index cb49573..6039685 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -110,6 +110,7 @@ def local_depth_adjustment(epc_file,
         nkp1, njp1, nip1, xyz = grid.points_cached.shape
         reshaped_points = grid.points_cached.copy().reshape((nkp1, njp1 * nip1, xyz))
     assert reshaped_points.ndim == 3 and reshaped_points.shape[2] == 3
+    ref_k0 = rqdm_c._points_k_index(grid, ref_k0)
     assert ref_k0 >= 0 and ref_k0 < reshaped_points.shape[0]
 
     log.debug('reshaped_points.shape: ' + str(reshaped_points.shape))
diff --git a/resqpy/derived_model/_unsplit_grid.py b/resqpy/derived_model/_unsplit_grid.py
index 422b3ad..5d2c21b 100644
--- a/resqpy/derived_model/_unsplit_grid.py
+++ b/resqpy/derived_model/_unsplit_grid.py
@@ -67,7 +67,7 @@ def unsplit_grid(epc_file,
     grid.cache_all_geometry_arrays()  # probably already cached anyway
     unsplit = source_grid.unsplit_points_ref()
     grid.points_cached = unsplit.copy()
-    assert grid.points_cached.shape == (grid.nk + 1, grid.nj + 1, grid.ni + 1, 3), 'unsplit points have incorrect shape'
+    assert grid.points_cached.shape == (grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3), 'unsplit points have incorrect shape'
 
     grid.has_split_coordinate_lines = False
     delattr(grid, 'split_pillar_indices_cached')
-- 
2.43.0


From 83d7b62905d3d764a7914360ddd5370ceef4d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 074/117] fix: local_depth_adjustment() ignored negative crs
 rotation and drape_to_surface() converted points of surface passed as
 argument

---
 resqpy/derived_model/_drape_to_surface.py       | 2 ++
 resqpy/derived_model/_local_depth_adjustment.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 39b73b3..e2005cd 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -115,6 +115,8 @@ def drape_to_surface(epc_file,
         source_grid.crs = rqc.Crs(source_grid.model, uuid = source_grid.crs_uuid)
     if surface_crs != source_grid.crs:
         surface.triangles_and_points()
+        surface = copy.copy(surface)
+        surface.points = surface.points.copy()
         surface_crs.convert_array_to(source_grid.crs, surface.points)
 
     # take a copy of the grid
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 6039685..747fcff 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -92,7 +92,7 @@ def local_depth_adjustment(epc_file,
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     if not use_local_coords:
         rotation = grid.crs.rotation
-        if rotation > 0.001:
+        if abs(rotation) > 0.001:
             log.error('unable to account for rotation in crs: use local coordinates')
             return
         centre_x -= grid.crs.x_offset
-- 
2.43.0


From 359bbccc0bc1626d666493f041314988be92bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 075/117] fix: copy_grid() did not copy crs to target model

---
 resqpy/derived_model/_copy_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_copy_grid.py b/resqpy/derived_model/_copy_grid.py
index 4a17778..5ba08c8 100644
--- a/resqpy/derived_model/_copy_grid.py
+++ b/resqpy/derived_model/_copy_grid.py
@@ -49,7 +49,9 @@ def copy_grid(source_grid, target_model = None, copy_crs = True):
     if target_model is source_grid.model:
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     elif copy_crs and source_grid.crs_uuid is not None:
-        model.duplicate_node(source_grid.model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        if target_model.part_for_uuid(source_grid.crs_uuid) is None:
+            target_model.duplicate_node(model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        grid.crs = rqc.Crs(target_model, uuid = grid.crs_uuid)
     else:
         grid.crs = None
 
-- 
2.43.0


From 8aad9282787966b43ce10e4687a121869d50e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 076/117] fix: interpolated_grid() did not set up k gaps

---
 resqpy/derived_model/_interpolated_grid.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_interpolated_grid.py b/resqpy/derived_model/_interpolated_grid.py
index 014d991..2a89868 100644
--- a/resqpy/derived_model/_interpolated_grid.py
+++ b/resqpy/derived_model/_interpolated_grid.py
@@ -128,8 +128,17 @@ def interpolated_grid(epc_file,
     return grid
 
 
+def _matching_k_gaps(grid_a, grid_b):
+    # returns True if the two grids have k gaps after the same layers, or neither has k gaps
+    if not grid_a.k_gaps or not grid_b.k_gaps:
+        return not grid_a.k_gaps and not grid_b.k_gaps
+    return bool(np.all(grid_a.k_gap_after_array == grid_b.k_gap_after_array))
+
+
 def _determine_work_from_pillars(grid_a, grid_b):
-    if not grid_a.has_split_coordinate_lines and not grid_b.has_split_coordinate_lines:
+    if not _matching_k_gaps(grid_a, grid_b):
+        work_from_pillars = False
+    elif not grid_a.has_split_coordinate_lines and not grid_b.has_split_coordinate_lines:
         work_from_pillars = True
     elif (grid_a.has_split_coordinate_lines and grid_b.has_split_coordinate_lines and
           grid_a.points_cached.shape == grid_b.points_cached.shape and
@@ -174,6 +183,10 @@ def _inherit_basics(grid, grid_a, grid_b):
 
 def _interpolate_points_cached_from_pillars(grid, grid_a, grid_b, a_weight, b_weight):
     grid.points_cached = grid_a.points_cached * a_weight + grid_b.points_cached * b_weight
+    grid.k_gaps = grid_a.k_gaps
+    if grid.k_gaps:
+        grid.k_gap_after_array = grid_a.k_gap_after_array.copy()
+        grid.k_raw_index_array = grid_a.k_raw_index_array.copy()
     grid.has_split_coordinate_lines = grid_a.has_split_coordinate_lines
     if grid.has_split_coordinate_lines:
         grid.split_pillar_indices_cached = grid_a.split_pillar_indices_cached.copy()
-- 
2.43.0


From 5959de1efde4c6f0834ed68032c5e0b5454401f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:25 +0000
Subject: [PATCH 077/117] fix: grids derived in a new epc file failed if
 inherited properties refer to time series, string lookup or local property
 kind

---
 resqpy/derived_model/_common.py       | 13 +++++++++++++
 resqpy/derived_model/_refined_grid.py |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index ddfd53d..96c8b49 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -48,6 +48,18 @@ def _displacement_properties(new_grid, old_grid):
     return displacement_collection
 
 
+def _copy_referenced_objects(model, other_model, property_collection, uuids = []):
+    # ensures model has the time series, string lookups and local kinds used by imported list of property collection
+    uuids = list(uuids)
+    if property_collection is not None:
+        for entry in property_collection.imported_list:
+            uuids += [entry[16], entry[19], entry[20]]
+    for uuid in uuids:
+        if uuid is None or model.part_for_uuid(uuid) is not None or other_model.part_for_uuid(uuid) is None:
+            continue
+        model.copy_uuid_from_other_model(other_model, uuid, consolidate = False)
+
+
 def _points_k_index(grid, k0, k_faces = 'top'):
     # returns the k index into the points array for the top (or base) of a layer, allowing for k gaps
     if grid.k_gaps and k0 < grid.nk:
@@ -156,6 +168,7 @@ def _write_grid(epc_file,
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
         grid.crs = rqc.Crs(model, uuid = model.crs_uuid)
+        _copy_referenced_objects(model, working_model, property_collection, [time_series_uuid, string_lookup_uuid])
     log.debug('write_grid(): number of starting parts: ' + str(model.number_of_parts()))
 
     if grid.inactive is not None and geometry:
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 1accb0b..b1368ad 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -115,6 +115,8 @@ def refined_grid(epc_file,
     collection = None
     if inherit_properties:
         collection = _inherit_properties(source_grid, grid, fine_coarse, inherit_realization, inherit_all_realizations)
+        if model is not model_in:
+            rqdm_c._copy_referenced_objects(model, model_in, collection)
 
     if set_parent_window:
         _set_parent_window(set_parent_window, source_grid, grid, fine_coarse)
-- 
2.43.0


From b66f233cbe85302970d9021e8294694e0e90c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:48 +0000
Subject: [PATCH 078/117] fix: add_faults() ignored deepest points when finding
 pillar direction, and failed for new epc file with gcs

---
 resqpy/derived_model/_add_faults.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index ac5e494..985ef06 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -231,7 +231,7 @@ def _pillar_vector(grid, p_index):
     k_top = 0
     while np.any(np.isnan(grid.points_cached[k_top, p_index])):
         k_top += 1
-    k_bot = grid.nk_plus_k_gaps - 1
+    k_bot = grid.nk_plus_k_gaps  # nb. points array has one more k index than there are layers (including gaps)
     while np.any(np.isnan(grid.points_cached[k_bot, p_index])):
         k_bot -= 1
     if k_bot == k_top:  # following coded to treat None directions as downwards
@@ -269,7 +269,7 @@ def _create_gcs_if_requested(create_gcs, composite_face_set_dict, new_epc_file,
         if new_epc_file is not None:
             grid_uuid = grid.uuid
             model = rq.Model(new_epc_file)
-            grid = grr.Grid(model, root = model.root(uuid = grid_uuid), find_properties = False)
+            grid = grr.Grid(model, uuid = grid_uuid, find_properties = False)
         grid.set_face_set_gcs_list_from_dict(composite_face_set_dict, create_organizing_objects_where_needed = True)
         combined_gcs = grid.face_set_gcs_list[0]
         for gcs in grid.face_set_gcs_list[1:]:
-- 
2.43.0


From fa01fead09a99f4fc6918d3774888a421b7b57f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 079/117] fix: shift_polyline() and flatten_polyline() failed

---
 resqpy/lines/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_common.py b/resqpy/lines/_common.py
index 17d1233..51c91cf 100644
--- a/resqpy/lines/_common.py
+++ b/resqpy/lines/_common.py
@@ -82,7 +82,7 @@ def shift_polyline(parent_model, poly_root, xyz_shift = (0, 0, 0), title = ''):
 
     from resqpy.lines._polyline import Polyline
 
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model = parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
@@ -100,7 +100,7 @@ def flatten_polyline(parent_model, poly_root, axis = "z", value = 0.0, title = '
     axis = axis.lower()
     value = float(value)
     assert axis in ["x", "y", "z"], 'Axis must be x, y or z'
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model = parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
-- 
2.43.0


From 9731594d752b261f62dda6da461f40aeccbd3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 080/117] fix: polyline clockwise direction wrong for some
 concave polygons or crs handedness, affecting segment normals

---
 resqpy/lines/_polyline.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index e096b06..e0d5dbf 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -324,7 +324,7 @@ class Polyline(rql_c._BasePolyline):
             if cw_bool is None:
                 result = False  # whole polyline lies in a straight line
             if result:
-                extras['is_clockwise'] = str(cw_bool).lower()
+                extras['is_clockwise'] = str(cw_bool != self._crs_is_right_handed_xy()).lower()
         extras['is_convex'] = str(result).lower()
         self.append_extra_metadata(extras)
         return result
@@ -335,16 +335,17 @@ class Polyline(rql_c._BasePolyline):
         assert self.isclosed, 'Polyline.is_clockwise() called for open polyline (only applicable to closed polylines)'
         if trust_metadata and self.extra_metadata is not None and 'is_clockwise' in self.extra_metadata.keys():
             return str(self.extra_metadata['is_clockwise']).lower() == 'true'
-        centre = np.mean(self.coordinates, axis = 0)
-        cw = vu.clockwise(centre, self.coordinates[0], self.coordinates[1])
-        result = (cw > 0.0)
-        crs = rqc.Crs(self.model, uuid = self.crs_uuid)
-        if crs.is_right_handed_xy():
-            result = not result
-        if result is not None:
-            self.append_extra_metadata({'is_clockwise': str(result).lower()})
+        # use sign of area, as individual nodes might be at a concave part of the polygon
+        cw = 0.0
+        for node in range(1, len(self.coordinates) - 1):
+            cw += vu.clockwise(self.coordinates[0], self.coordinates[node], self.coordinates[node + 1])
+        result = (cw > 0.0) != self._crs_is_right_handed_xy()
+        self.append_extra_metadata({'is_clockwise': str(result).lower()})
         return result
 
+    def _crs_is_right_handed_xy(self):
+        return rqc.Crs(self.model, uuid = self.crs_uuid).is_right_handed_xy()
+
     def point_is_inside_xy(self, p, mode = 'crossing'):
         """Returns True if point p is inside closed polygon, in xy plane, otherwise False.
 
@@ -400,9 +401,8 @@ class Polyline(rql_c._BasePolyline):
         normal_vector = np.zeros(3)
         normal_vector[0] = -segment_vector[1]
         normal_vector[1] = segment_vector[0]
-        cw = self.is_clockwise()
-        assert cw is not None, 'polyline is straight'
-        if not cw:
+        # nb. direction of normal depends on order of nodes in x,y space, regardless of handedness of axes
+        if self.is_clockwise() == self._crs_is_right_handed_xy():
             normal_vector = -normal_vector
         return normal_vector
 
-- 
2.43.0


From 6f6ad53ee4b075a644bb4001d7bf3568a5dd08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 081/117] fix: polyline area of convex polygon included effect
 of varying z

---
 resqpy/lines/_polyline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index e0d5dbf..921a1e7 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -797,10 +797,11 @@ class Polyline(rql_c._BasePolyline):
         """Returns the area in the xy plane of a closed convex polygon."""
         assert self.isclosed
         if self.is_convex():
-            centre = np.mean(self.coordinates, axis = 0)
+            xy = self.coordinates[:, :2]
+            centre = np.mean(xy, axis = 0)
             a = 0.0
-            for node in range(len(self.coordinates)):
-                a += vu.area_of_triangle(centre, self.coordinates[node - 1], self.coordinates[node])
+            for node in range(len(xy)):
+                a += vu.area_of_triangle(centre, xy[node - 1], xy[node])
         else:  # use a regular 2D sampling of points to determine approx area
             xy_box = np.zeros((2, 2), dtype = float)
             xy_box[0] = np.min(self.coordinates[:, :2], axis = 0)
-- 
2.43.0


From 080e308658a1ea8698ea69e8a2c389695db0579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 082/117] fix: polyline normalised_xy() in square mode was not
 the inverse of denormalised_xy()

---
 resqpy/lines/_polyline.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 921a1e7..485cb7a 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -642,15 +642,10 @@ class Polyline(rql_c._BasePolyline):
         segment, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], x, y, half_segment = True)
         assert px is not None
         norm_x, norm_y = None, None
-        if mode == 'square':  # todo: check square mode – looks wrong
-            if px == centre_xy[0]:
-                norm_x = 0.5
-            else:
-                norm_x = 0.5 + 0.5 * (x - centre_xy[0]) / abs(px - centre_xy[0])
-            if py == centre_xy[1]:
-                norm_y = 0.5
-            else:
-                norm_y = 0.5 + 0.5 * (y - centre_xy[1]) / abs(py - centre_xy[1])
+        if mode == 'square':  # direction from centre is preserved, perimeter of polygon maps to perimeter of square
+            extent = 2.0 * max(abs(px - centre_xy[0]), abs(py - centre_xy[1]))
+            norm_x = 0.5 + (x - centre_xy[0]) / extent
+            norm_y = 0.5 + (y - centre_xy[1]) / extent
         elif mode == 'circle':
             d_xy = np.array((x, y)) - centre_xy
             dp_xy = np.array((px, py)) - centre_xy
-- 
2.43.0


From d022d8269e39e48c589dbf0116a3f3737f73f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 083/117] fix: polyline denormalised_xy() in perimeter mode
 took varying z into account, unlike normalised_xy()

---
 resqpy/lines/_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 485cb7a..bde933e 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -739,7 +739,7 @@ class Polyline(rql_c._BasePolyline):
             if norm_y == 1.0:
                 norm_y = 0.0
             p_xy = np.empty(2)
-            p_xy[:] = self.interpolated_point(norm_y)[:2]
+            p_xy[:] = self.interpolated_point(norm_y, in_xy = True)[:2]
             f = maths.sqrt(norm_x)
             x, y = centre_xy + f * (p_xy - centre_xy)
         elif mode == 'circle':
-- 
2.43.0


From 08bfc4472a80dae6d0d670fbab5fd9fcf40484ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 084/117] fix: polyline centre cached for one set of arguments
 was returned for others

---
 resqpy/lines/_polyline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index bde933e..8504e28 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -74,6 +74,7 @@ class Polyline(rql_c._BasePolyline):
         self.crs_uuid = set_crs
         self.coordinates = None
         self.centre = None
+        self._centre_key = None
         self.rep_int_root = rep_int_root  # Optional represented interpretation xml root node
         self.property_collection = None
         super().__init__(model = parent_model,
@@ -463,9 +464,10 @@ class Polyline(rql_c._BasePolyline):
     def balanced_centre(self, mode = 'weighted', n = 20, cache = True, in_xy = False):
         """Returns a mean x,y,z based on sampling polyline at regular intervals."""
 
-        if cache and self.centre is not None:
-            return self.centre
         assert mode in ['weighted', 'sampled']
+        cache_key = (mode, n if mode == 'sampled' else None, in_xy)
+        if cache and self.centre is not None and self._centre_key == cache_key:
+            return self.centre
         if mode == 'sampled':  # this mode is deprecated as it simply approximates the weighted mode
             sample_points = self.equidistant_points(n, in_xy = in_xy)
             centre = np.mean(sample_points, axis = 0)
@@ -484,6 +486,7 @@ class Polyline(rql_c._BasePolyline):
             centre = sum / (2.0 * self.full_length(in_xy = in_xy))
         if cache:
             self.centre = centre
+            self._centre_key = cache_key
         return centre
 
     def first_line_intersection(self, x1, y1, x2, y2, half_segment = False):
-- 
2.43.0


From baabc254a052ecbebabdfe8dfcf3462fa7794d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 085/117] fix: polyline set conversion to irap format lost
 closed status of polylines

---
 resqpy/lines/_polyline_set.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 1481f04..4560508 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -586,12 +586,13 @@ class PolylineSet(rql_c._BasePolyline):
         """
 
         end_of_line = np.array([[999.0, 999.0, 999.0]])
+        out_list = []
         for poly in self.polys:
-            if poly == self.polys[0]:
-                out_coords = poly.coordinates
-            else:
-                out_coords = np.concatenate((out_coords, poly.coordinates))
-            out_coords = np.concatenate((out_coords, end_of_line))
+            out_list.append(poly.coordinates)
+            if poly.isclosed and not vu.isclose(poly.coordinates[0], poly.coordinates[-1]):
+                out_list.append(poly.coordinates[:1])  # closed polylines have first point repeated in file
+            out_list.append(end_of_line)
+        out_coords = np.concatenate(out_list)
         np.savetxt(file_name, out_coords, delimiter = ' ')
 
     def convert_to_charisma(self, file_name):
-- 
2.43.0


From 69dd3312cc8048da05e72b38b2dffa6f25f1bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 086/117] fix: polyline set from charisma or irap file
 miscounted points if sticks or lines with a single point present

---
 resqpy/lines/_polyline_set.py | 38 ++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 4560508..3772b57 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -178,7 +178,7 @@ class PolylineSet(rql_c._BasePolyline):
                     closed_array.append(True)
                 else:
                     closed_array.append(False)
-                if i == 0:
+                if self.coordinates is None:
                     self.coordinates = poly
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly))
@@ -195,25 +195,27 @@ class PolylineSet(rql_c._BasePolyline):
         closed_array = []
         if not self.title:
             self.title = os.path.basename(charisma_file).split(".")[0]
-        for i, line in enumerate(inpoints):
+        sticks = []
+        stick = None
+        for line in inpoints:
             line = line.split()
-            coord_entry = np.array([[float(line[3]), float(line[4]), float(line[5])]])
-            if i == 0:
-                self.coordinates = coord_entry
+            if len(line) == 0:
+                continue
+            coord_entry = [float(line[3]), float(line[4]), float(line[5])]
+            if len(sticks) == 0 or line[7] != stick:
                 stick = line[7]
-                count = 1
-            else:
-                self.coordinates = np.concatenate((self.coordinates, coord_entry))
-                count += 1
-                if stick != line[7] or i == len(inpoints) - 1:
-                    if count <= 2 and stick != line[7]:  # Line has fewer than 2 points
-                        log.warning(f"Polylines must contain at least 2 points - ignoring point {self.coordinates[-2]}")
-                        self.coordinates = np.delete(self.coordinates, -2, 0)  # Remove the second to last entry
-                    else:
-                        self.count_perpol.append(count - 1)
-                        closed_array.append(False)
-                    count = 1
-                    stick = line[7]
+                sticks.append([])
+            sticks[-1].append(coord_entry)
+        coords_list = []
+        for coords in sticks:
+            if len(coords) < 2:
+                log.warning(f"Polylines must contain at least 2 points - ignoring point {coords[0]}")
+                continue
+            coords_list.append(np.array(coords))
+            self.count_perpol.append(len(coords))
+            closed_array.append(False)
+        if coords_list:
+            self.coordinates = np.concatenate(coords_list)
         self.count_perpol = np.array(self.count_perpol)
         if self.crs_uuid is None:  # If no crs_uuid is provided, assume the main model crs is valid
             self.crs_uuid = self.model.crs_uuid
-- 
2.43.0


From e260ef0cdb604b6e5289202683ebdff610793c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 087/117] fix: polyline set combine_polylines() modified
 coordinates of polylines needing crs conversion

---
 resqpy/lines/_polyline_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 3772b57..114b4ac 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -521,7 +521,7 @@ class PolylineSet(rql_c._BasePolyline):
             else:
                 curr_crs = rcrs.Crs(self.model, uuid = poly.crs_uuid)
                 if not curr_crs.is_equivalent(master_crs):
-                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                     self.coordinates = np.concatenate((self.coordinates, shifted))
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly.coordinates))
-- 
2.43.0


From 2b03dce68174dd99b57c6ca98b550e74ecb363a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 088/117] fix: polyline set could not be combined if same
 polyline included twice

---
 resqpy/lines/_polyline_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 114b4ac..fb1a0a9 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -513,8 +513,8 @@ class PolylineSet(rql_c._BasePolyline):
         self.count_perpol = []
         self.closed_array = []
 
-        for poly in polylines:
-            if poly == polylines[0]:
+        for i, poly in enumerate(polylines):
+            if i == 0:
                 master_crs = rcrs.Crs(self.model, uuid = poly.crs_uuid)
                 self.crs_uuid = poly.crs_uuid
                 self.coordinates = poly.coordinates.copy()
-- 
2.43.0


From 16a31cb07bf033b776568849a39a4de4eae0d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 089/117] fix: polyline set with multiple line patches could
 not be loaded

---
 resqpy/lines/_polyline_set.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index fb1a0a9..15f186a 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -119,6 +119,8 @@ class PolylineSet(rql_c._BasePolyline):
 
         self.rep_int_root = self.model.referenced_node(rqet.find_tag(root, 'RepresentedInterpretation'))
         self.closed_array = np.empty((0,), dtype = bool)
+        count_list = []
+        coordinates_list = []
 
         for patch_node in rqet.list_of_tag(root, 'LinePatch'):  # Loop over all LinePatches - likely just the one
             assert patch_node is not None  # Required field
@@ -136,6 +138,10 @@ class PolylineSet(rql_c._BasePolyline):
 
             closed_node = rqet.find_tag(patch_node, 'ClosedPolylines')
             assert closed_node is not None  # Required field
+            # clear attributes used for temporary caching of arrays for this patch
+            self.indices_arr = None
+            self.count_perpol = None
+            self.coordinates = None
             # The ClosedPolylines could be a BooleanConstantArray, or a BooleanArrayFromIndexArray
             closed_array = self.get_bool_array(closed_node)
 
@@ -161,8 +167,14 @@ class PolylineSet(rql_c._BasePolyline):
             # delattr(self,'count_perpol')
 
             self.polys.extend(subpolys)
+            count_list.append(self.count_perpol)
+            coordinates_list.append(self.coordinates)
             self.closed_array = np.concatenate((self.closed_array, closed_array))
 
+        if len(count_list) > 1:
+            self.count_perpol = np.concatenate(count_list)
+            self.coordinates = np.concatenate(coordinates_list)
+
         self.bool_array_format()
 
     def _set_from_irap(self, irap_file):
-- 
2.43.0


From b361b3d9a9a09c684cd39dc78bded63e60aedc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 090/117] fix: fix: scan() of convex polygon: clip to the
 extent of the pixels in x

---
 resqpy/olio/point_inclusion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/point_inclusion.py b/resqpy/olio/point_inclusion.py
index 11535de..c6baff8 100644
--- a/resqpy/olio/point_inclusion.py
+++ b/resqpy/olio/point_inclusion.py
@@ -175,8 +175,9 @@ def scan(origin, ncol, nrow, dx, dy, poly):
             sx, ex = ix[1], ix[0]
         else:
             sx, ex = ix[0], ix[1]
-        scol = maths.ceil((sx - origin[0]) / dx)
-        ecol = int((ex - origin[0]) / dx)
-        inside[row, scol:ecol + 1] = True
+        scol = max(maths.ceil((sx - origin[0]) / dx), 0)
+        ecol = maths.floor((ex - origin[0]) / dx)
+        if ecol >= scol:
+            inside[row, scol:ecol + 1] = True
 
     return inside
-- 
2.43.0


From c5a6acd16759e3851af661c799921682df432da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 091/117] fix: find faces for surface: points of surface
 converted in situ when crs differs, leaving surface inconsistent

---
 resqpy/grid_surface/_find_faces.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index fdb8e4d..cfa5485 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -90,7 +90,7 @@ def find_faces_to_represent_surface_staffa(grid, surface, name, feature_type = "
         i_faces = None
 
     # log.debug('finding surface triangle boxes')
-    t, p = surface.triangles_and_points()
+    t, p = surface.triangles_and_points(copy = True)
     if not bu.matching_uuids(grid.crs_uuid, surface.crs_uuid):
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
@@ -261,7 +261,7 @@ def find_faces_to_represent_surface_regular(
         log.debug("making all triangles clockwise")
         # note: following will shuffle order of vertices within t cached in surface
         surface.make_all_clockwise_xy(reorient = True)
-    t, p = surface.triangles_and_points()
+    t, p = surface.triangles_and_points(copy = True)
     assert t is not None and p is not None, f"surface {surface.title} is empty"
     if agitate:
         if random_agitation:
@@ -275,7 +275,6 @@ def find_faces_to_represent_surface_regular(
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, p)
-        surface.crs_uuid = grid.crs.uuid
         log.debug(f"surface: {surface.title}; p0: {p[0]}; crs uuid: {surface.crs_uuid}")
         log.debug(f"surface min xyz: {np.min(p, axis = 0)}")
         log.debug(f"surface max xyz: {np.max(p, axis = 0)}")
@@ -601,7 +600,7 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         grid.block_dxyz_dkji[1, 1],
         grid.block_dxyz_dkji[0, 2],
     )
-    triangles, points = surface.triangles_and_points()
+    triangles, points = surface.triangles_and_points(copy = True)
     t_dtype = np.int32 if len(triangles) < 2_000_000_000 else np.int64
     assert (triangles is not None and points is not None), f"surface {surface.title} is empty"
     if agitate:
@@ -617,7 +616,6 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
@@ -982,7 +980,6 @@ def find_faces_to_represent_surface_regular_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
-- 
2.43.0


From 885d9338a89b2b5865d6e2c54c698def48db683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 092/117] fix: find faces regular: offsets and normal vectors
 for grid with a single cell in an axis

---
 resqpy/grid_surface/_find_faces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index cfa5485..4ae2e93 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -332,6 +332,7 @@ def find_faces_to_represent_surface_regular(
     else:
         k_faces = None
         k_sides = None
+        k_offsets = None
         k_normals = None
 
     if progress_fn is not None:
@@ -382,6 +383,7 @@ def find_faces_to_represent_surface_regular(
     else:
         j_faces = None
         j_sides = None
+        j_offsets = None
         j_normals = None
 
     if progress_fn is not None:
@@ -432,6 +434,7 @@ def find_faces_to_represent_surface_regular(
     else:
         i_faces = None
         i_sides = None
+        i_offsets = None
         i_normals = None
 
     if progress_fn is not None:
-- 
2.43.0


From 7f2e8ec3112213ec0750c37eac825c1049960d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 093/117] fix: find faces regular optimised: depth of J and I
 faces was y or x of the intersection

---
 resqpy/grid_surface/_find_faces.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 4ae2e93..295a78e 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1067,8 +1067,7 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             if return_offsets:
                 j_offsets = (j_depths - j_faces.astype(np.float64) - 0.5) * dy
             if return_depths:
-                j_depths[:] += 0.5
-                j_depths[:] *= dy
+                j_depths = (j_faces_kji0[:, 0] + 0.5) * dz
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 j_faces = np.repeat(np.expand_dims(j_faces_kji0, axis = 0), grid.nk, axis = 0)
                 j_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
@@ -1119,8 +1118,7 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             if return_offsets:
                 i_offsets = (i_depths - i_faces.astype(np.float64) - 0.5) * dx
             if return_depths:
-                i_depths[:] += 0.5
-                i_depths[:] *= dx
+                i_depths = (i_faces_kji0[:, 0] + 0.5) * dz
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 i_faces = np.repeat(np.expand_dims(i_faces_kji0, axis = 0), grid.nk, axis = 0)
                 i_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
-- 
2.43.0


From 9f5375863ed09aab3064ff30c87eb751cefac6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 094/117] fix: shadow from face indices when there are no K
 faces

---
 resqpy/grid_surface/_find_faces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 295a78e..0ebe732 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1568,6 +1568,8 @@ def shadow_from_face_indices(extent_kji, kji0):
     assert len(extent_kji) == 3
     limit = extent_kji[0] - 1  # maximum number of iterations needed to spead shadow
     shadow = np.zeros(extent_kji, dtype = np.int8)
+    if kji0 is None or len(kji0) == 0:
+        return shadow
     shadow[kji0[:, 0], kji0[:, 1], kji0[:, 2]] = 1
     shadow[kji0[:, 0] + 1, kji0[:, 1], kji0[:, 2]] += 2
     for _ in range(limit):
-- 
2.43.0


From 2c24ffe3443ab64e138f10306f615a46f3d59919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 095/117] fix: find faces dense: triangle indices were not
 integers when grid has a single cell in an axis

---
 resqpy/grid_surface/_find_faces.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 0ebe732..2871703 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -787,9 +787,9 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
     # NB. following assumes faces have been added to gcs in a particular order!
     if return_triangles:
         # log.debug('preparing triangles array')
-        k_tri_list = (np.empty((0,)) if k_triangles is None else k_triangles[_where_true(k_faces)])
-        j_tri_list = (np.empty((0,)) if j_triangles is None else j_triangles[_where_true(j_faces)])
-        i_tri_list = (np.empty((0,)) if i_triangles is None else i_triangles[_where_true(i_faces)])
+        k_tri_list = (np.empty((0,), dtype = t_dtype) if k_triangles is None else k_triangles[_where_true(k_faces)])
+        j_tri_list = (np.empty((0,), dtype = t_dtype) if j_triangles is None else j_triangles[_where_true(j_faces)])
+        i_tri_list = (np.empty((0,), dtype = t_dtype) if i_triangles is None else i_triangles[_where_true(i_faces)])
         all_tris = np.concatenate((k_tri_list, j_tri_list, i_tri_list), axis = 0)
         # log.debug(f'gcs count: {gcs.count}; all triangles shape: {all_tris.shape}')
         assert all_tris.shape == (gcs.count,)
-- 
2.43.0


From 3a0e77e25709be7327b0e93ee88d6942b5811af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:48 +0000
Subject: [PATCH 096/117] fix: find faces regular: normal vectors were not true
 normals when xy and z units differ

---
 resqpy/grid_surface/_find_faces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 2871703..c687faf 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -479,7 +479,7 @@ def find_faces_to_represent_surface_regular(
         log.debug(f"gcs count: {gcs.count}; all normals shape: {all_normals.shape}")
         assert all_normals.shape == (gcs.count, 3)
         if grid.crs.xy_units != grid.crs.z_units:
-            wam.convert_lengths(all_normals[:, 2], grid.crs.z_units, grid.crs.xy_units)
+            wam.convert_lengths(all_normals[:, 2], grid.crs.xy_units, grid.crs.z_units)
             all_normals = vec.unit_vectors(all_normals)
 
     if progress_fn is not None:
-- 
2.43.0


From cd6f7af8d15fd30c6a2cf78fec04ad98de5e7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:19 +0000
Subject: [PATCH 097/117] fix: hexa grid from unsplit grid: cell face
 handedness was wrong when z increases upwards, giving negative volumes

---
 resqpy/unstructured/_hexa_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 3f94bb5..c5e7456 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -190,8 +190,8 @@ class HexaGrid(rug.UnstructuredGrid):
         # here the assumption is clockwise ordering of nodes viewed from within cell means 'right handed'
         hexa_grid.cell_face_is_right_handed = np.zeros(6 * hexa_grid.cell_count,
                                                        dtype = bool)  # initially set to left handed
-        # if IJK grid's ijk handedness matches the xyz handedness, then set +ve faces to right handed; else -ve faces
-        if ijk_grid.off_handed():
+        # if IJK grid's ijk axes are right handed, then set -ve faces to right handed; else +ve faces
+        if ijk_grid.extract_grid_is_right_handed():
             hexa_grid.cell_face_is_right_handed[0::2] = True  # negative faces are right handed
         else:
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
-- 
2.43.0


From 6bbf41bb9c66d139c06d5c80d696c9670eeddfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:19 +0000
Subject: [PATCH 098/117] fix: hexa grid from unsplit grid: default
 write_active wrote active array but not the property, so inactive cells were
 lost

---
 resqpy/unstructured/_hexa_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index c5e7456..43d23e1 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -197,7 +197,7 @@ class HexaGrid(rug.UnstructuredGrid):
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
 
         hexa_grid.write_hdf5(write_active = write_active)
-        hexa_grid.create_xml(write_active = write_active)
+        hexa_grid.create_xml(write_active = write_active is None or write_active)
 
         if inherit_properties:
             ijk_pc = ijk_grid.extract_property_collection()
-- 
2.43.0


From 69dcb5cf1f513692bb999308bded783b26580667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:19 +0000
Subject: [PATCH 099/117] fix: unstructured grid: face centre point failed for
 a grid without cached geometry

---
 resqpy/unstructured/_unstructured_grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 4611a63..634a341 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -440,6 +440,7 @@ class UnstructuredGrid(BaseResqpy):
            its barycentre
         """
 
+        self.cache_all_geometry_arrays()
         return np.mean(self.points_cached[self.node_indices_for_face(face_index)], axis = 0)
 
     def face_count_for_cell(self, cell):
-- 
2.43.0


From d61f1ff41505e66f0a85d13b94b74eef5ee95615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 100/117] fix: vertical prism grid: column count failed for a
 grid with a single layer

---
 resqpy/unstructured/_prism_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7551487..15aaca9 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -412,7 +412,7 @@ class VerticalPrismGrid(PrismGrid):
     def column_count(self):
         """Returns the number of columns in the grid."""
 
-        assert self.nk > 1, 'no layer information set for vertical prism grid'
+        assert self.nk is not None and self.nk > 0, 'no layer information set for vertical prism grid'
         n_col, remainder = divmod(self.cell_count, self.nk)
         assert remainder == 0, 'code failure for vertical prism grid: cell and layer counts not compatible'
         return n_col
-- 
2.43.0


From be24b84837e3ddb8cb00f00fb4cdbe2a0cf925e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 101/117] fix: vertical prism grid: centre point of a single
 cell had wrong shape

---
 resqpy/unstructured/_prism_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 15aaca9..876f0b2 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -428,7 +428,8 @@ class VerticalPrismGrid(PrismGrid):
         """
 
         cp = self.corner_points(cell = cell)
-        return np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        centres = np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        return centres if cell is None else centres[0]
 
     def corner_points(self, cell = None):
         """Returns corner points for all cells or for a single cell.
-- 
2.43.0


From d31e9c84736b0084a821ab9831a69517e2e85347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 102/117] fix: vertical prism grid: half cell transmissibility
 failed when a property was present

---
 resqpy/unstructured/_prism_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 876f0b2..cc30770 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -614,7 +614,7 @@ class VerticalPrismGrid(PrismGrid):
                                          continuous = True,
                                          count = 1,
                                          indexable = 'faces per cell')
-            if half_t:
+            if half_t is not None:
                 assert half_t.size == 5 * self.cell_count
                 half_t = half_t.reshape(self.cell_count, 5)
 
-- 
2.43.0


From 91cf4ffc27daea6cee6f9ebfe58db1a9002a39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 103/117] fix: half cell transmissibility for vertical prism:
 vertical faces were out of order and cell heights not applied

---
 resqpy/olio/transmission.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index f5be309..6a90c7a 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -408,10 +408,15 @@ def half_cell_t_vertical_prism(vpg,
     p = vpg.points_ref()
     t = vpg.triangulation()
     a_t, d_t = half_cell_t_2d_triangular_precursor(p, t)
-    # find heights of cells and faces
+    # precursor arrays are indexed by opposite vertex; vertical face e is between vertices e - 1 and e
+    a_t = np.roll(a_t, -1, axis = 1)
+    d_t = np.roll(d_t, -1, axis = 1)
     # find horizontal area of triangles
     triangle_areas = vec.area_of_triangles(p, t, xy_projection = True).reshape((1, -1))
+    # find heights of cells and vertical faces
     cp = vpg.corner_points()
+    edge_heights = cp[:, 1, :, 2] - cp[:, 0, :, 2]
+    face_heights = 0.5 * (np.roll(edge_heights, 1, axis = 1) + edge_heights)
     half_thickness = 0.5 * vpg.thickness().reshape((vpg.nk, -1))
 
     # compute transmissibilities
@@ -427,6 +432,7 @@ def half_cell_t_vertical_prism(vpg,
     tr[:, 2:] = np.where(dt_full < tolerance, np.nan,
                          triple_perm_horizontal.reshape((vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) / dt_full).reshape(
                              (-1, 3))
+    tr[:, 2:] *= face_heights
     if ntg is not None:
         tr[:, 2:] *= ntg.reshape((-1, 1))
 
-- 
2.43.0


From 052b43690c50742800dc7f61610c8c135d36338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:01 +0000
Subject: [PATCH 104/117] fix: vertical prism grid: tolerance was ignored in
 half cell transmissibility

---
 resqpy/unstructured/_prism_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index cc30770..7c1e9a2 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -686,7 +686,8 @@ class VerticalPrismGrid(PrismGrid):
             half_t = rqtr.half_cell_t_vertical_prism(self,
                                                      triple_perm_horizontal = triple_perm_horizontal,
                                                      perm_k = perm_k,
-                                                     ntg = ntg)
+                                                     ntg = ntg,
+                                                     tolerance = tolerance)
 
         if realization is None:
             self.array_half_cell_t = half_t
-- 
2.43.0


From e84cf160b7bdc80366f6a32cab597177080976ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 105/117] fix: unstructured grid: planar face points were
 distorted for faces neither horizontal nor vertical, due to tilting the wrong
 way

---
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 634a341..a16a636 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -692,11 +692,11 @@ class UnstructuredGrid(BaseResqpy):
         normal = self.face_normal(face_index)
         az = vec.azimuth(normal)
         incl = vec.inclination(normal)
-        vec.tilt_points(face_centre, az, -incl, face_points)  # modifies face_points in situ
+        vec.tilt_points(face_centre, az, incl, face_points)  # modifies face_points in situ
         face_points[..., 2] = 0.0
         if not xy_plane:
             face_centre[2] = 0.0
-            vec.tilt_points(face_centre, az, incl, face_points)  # tilt back to original average normal
+            vec.tilt_points(face_centre, az, -incl, face_points)  # tilt back to original average normal
             if crs.xy_units != crs.z_units:
                 wam.convert_lengths(face_points[:, 2], crs.xy_units, crs.z_units)
             face_points[..., 2] += z_centre
-- 
2.43.0


From c2f022e86ff958e7e366d4fe2c077d0ef82fe87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:35 +0000
Subject: [PATCH 106/117] fix: time series: closest timestamp was always the
 first one when between first two timestamps

---
 resqpy/time_series/_time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index e7cdb74..dacd61e 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -138,7 +138,7 @@ class TimeSeries(ats.AnyTimeSeries):
         if not self.timestamps:
             return None
         before = self.index_for_timestamp_not_later_than(timestamp)
-        if not before:
+        if before is None:
             return 0
         if before == len(self.timestamps) - 1 or self.timestamps[before] == timestamp:
             return before
-- 
2.43.0


From 92cf9fca9d65aa9ce096dab81339bb0a43e30ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:35 +0000
Subject: [PATCH 107/117] fix: merging of time series failed for geologic time
 series

---
 resqpy/time_series/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index a5b779e..83683c5 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -109,7 +109,7 @@ def merge_timeseries_from_uuid(model, timeseries_uuid_iter):
 
         timeserieslist.append(singlets)
         # alltimestamps.update( set(singlets.timestamps) )
-        alltimestamps.update(set(singlets.datetimes()))
+        alltimestamps.update(set(singlets.datetimes() if timeframe == 'human' else singlets.timestamps))
 
     sortedtimestamps = sorted(list(alltimestamps), reverse = reverse)
 
-- 
2.43.0


From 3fb365d335e6974382535760ebab3a15a2e75513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:35 +0000
Subject: [PATCH 108/117] fix: cleaned and simplified timestamps failed for
 geologic timestamps

---
 resqpy/time_series/_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index 83683c5..ca91523 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -35,7 +35,7 @@ def simplified_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = cleaned_timestamp(timestamp)
     if len(timestamp) > 10:
         timestamp = timestamp[:10] + ' ' + timestamp[11:]
@@ -48,7 +48,7 @@ def cleaned_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = str(timestamp)
     rqts.check_timestamp(timestamp)
     if len(timestamp) < 19 or timestamp[11:19] == '00:00:00':
-- 
2.43.0


From 47ccf9672818c7d701ab81e443c287da09c6a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:46 +0000
Subject: [PATCH 109/117] fix: interpretations: an object not yet stored was
 never equivalent to a stored one, so reuse never happened

---
 resqpy/organize/earth_model_interpretation.py      | 5 +----
 resqpy/organize/geobody_boundary_interpretation.py | 5 +----
 resqpy/organize/geobody_interpretation.py          | 5 +----
 resqpy/organize/wellbore_interpretation.py         | 9 ++-------
 resqpy/strata/_geologic_unit_interpretation.py     | 5 +----
 5 files changed, 6 insertions(+), 23 deletions(-)

diff --git a/resqpy/organize/earth_model_interpretation.py b/resqpy/organize/earth_model_interpretation.py
index a6b8a4f..3732fbf 100644
--- a/resqpy/organize/earth_model_interpretation.py
+++ b/resqpy/organize/earth_model_interpretation.py
@@ -65,10 +65,7 @@ class EarthModelInterpretation(BaseResqpy):
                 return False
         elif other.organization_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/geobody_boundary_interpretation.py b/resqpy/organize/geobody_boundary_interpretation.py
index 256b224..89f6aac 100644
--- a/resqpy/organize/geobody_boundary_interpretation.py
+++ b/resqpy/organize/geobody_boundary_interpretation.py
@@ -85,10 +85,7 @@ class GeobodyBoundaryInterpretation(BaseResqpy):
                 return False
         elif other.genetic_boundary_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if ((self.domain != other.domain) or
                 not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during)):
diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index dd0bfb4..f8d9ac5 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -85,10 +85,7 @@ class GeobodyInterpretation(BaseResqpy):
                 return False
         elif other.geobody_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/wellbore_interpretation.py b/resqpy/organize/wellbore_interpretation.py
index 7ce321e..df08eda 100644
--- a/resqpy/organize/wellbore_interpretation.py
+++ b/resqpy/organize/wellbore_interpretation.py
@@ -87,16 +87,11 @@ class WellboreInterpretation(BaseResqpy):
                 return False
         elif other.wellbore_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-            if self.domain != other.domain:
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
-        return (self.title == other.title and self.is_drilled == other.is_drilled)
+        return (self.domain == other.domain and self.is_drilled == other.is_drilled)
 
     def create_xml(self,
                    wellbore_feature_root = None,
diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index 1eade6d..c9b8773 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -119,10 +119,7 @@ class GeologicUnitInterpretation(BaseResqpy):
                 return False
         elif other.geologic_unit_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not rqo.equivalent_extra_metadata(self, other):
             return False
-- 
2.43.0


From f9de0e9d07743cc7e0ee95ac293a60c135af3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:46 +0000
Subject: [PATCH 110/117] fix: fault interpretation: mean azimuth was stored in
 place of mean dip

---
 resqpy/organize/fault_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index 703ef64..fb89a9d 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -219,7 +219,7 @@ class FaultInterpretation(BaseResqpy):
         if self.mean_dip is not None:
             dip = rqet.SubElement(fi, ns['resqml2'] + 'MeanDip')
             dip.set(ns['xsi'] + 'type', ns['eml'] + 'PlaneAngleMeasure')
-            dip.text = str(self.mean_azimuth)
+            dip.text = str(self.mean_dip)
 
         if self.throw_interpretation_list is not None and len(self.throw_interpretation_list):
             previous_has_occurred_during = ('never', 'never')
-- 
2.43.0


From 9aba1169a4cf358822cf1a3a6c907af0956aab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:46 +0000
Subject: [PATCH 111/117] fix: geobody interpretation: domain was not loaded

---
 resqpy/organize/geobody_interpretation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index f8d9ac5..12c67a3 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -60,6 +60,7 @@ class GeobodyInterpretation(BaseResqpy):
 
     def _load_from_xml(self):
         root_node = self.root
+        self.domain = rqet.find_tag_text(root_node, 'Domain')
         interp_feature_ref_node = rqet.find_tag(root_node, 'InterpretedFeature')
         assert interp_feature_ref_node is not None
         self.feature_root = self.model.referenced_node(interp_feature_ref_node)
-- 
2.43.0


From 5332ae293f49b74a6608295cc9e889215b991118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:46 +0000
Subject: [PATCH 112/117] fix: generic interpretation: comparison failed due to
 wrong name of attribute

---
 resqpy/organize/generic_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/generic_interpretation.py b/resqpy/organize/generic_interpretation.py
index 470a868..1d9c382 100644
--- a/resqpy/organize/generic_interpretation.py
+++ b/resqpy/organize/generic_interpretation.py
@@ -64,7 +64,7 @@ class GenericInterpretation(BaseResqpy):
             return False
         if self.domain != other.domain:
             return False
-        if not ou.equivalent_chrono_pairs(self.main_has_occurred_during, other.main_has_occurred_during):
+        if not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during):
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
-- 
2.43.0


From af6337e7e0a684d748a4c453fe1bb040f12a1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:46 +0000
Subject: [PATCH 113/117] fix: stratigraphic unit interpretation: default title
 failed as feature has no feature_name

---
 resqpy/strata/_geologic_unit_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index c9b8773..6ebf8f5 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -69,7 +69,7 @@ class GeologicUnitInterpretation(BaseResqpy):
         self.geologic_unit_feature = geologic_unit_feature  # InterpretedFeature RESQML field
         self.has_occurred_during = (None, None)  # optional RESQML item
         if (not title) and geologic_unit_feature is not None:
-            title = geologic_unit_feature.feature_name
+            title = geologic_unit_feature.title
         self.composition = composition  # optional RESQML item
         self.material_implacement = material_implacement  # optional RESQML item
         super().__init__(model = parent_model, uuid = uuid, title = title, extra_metadata = extra_metadata)
-- 
2.43.0


From ac3b5fec32fe757a11302035e46e32e5d2303305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 114/117] fix: import nexus: y values were not converted when
 xy and z units differ

---
 resqpy/rq_import/_import_nexus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index 44342dc..eb70cab 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -251,7 +251,7 @@ def import_nexus(
     if corp_xy_units == corp_z_units and resqml_xy_units == resqml_z_units:
         bwam.convert_lengths(cp_array, corp_xy_units, resqml_xy_units)
     else:
-        bwam.convert_lengths(cp_array[:, :, :, :, :, :, 0:1], corp_xy_units, resqml_xy_units)
+        bwam.convert_lengths(cp_array[:, :, :, :, :, :, 0:2], corp_xy_units, resqml_xy_units)
         bwam.convert_lengths(cp_array[:, :, :, :, :, :, 2], corp_z_units, resqml_z_units)
 
     # invert z if required
-- 
2.43.0


From e29e6a79951b4915ff6d61bddf6af87cb06e098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:53 +0000
Subject: [PATCH 115/117] fix: import nexus: eight mode of corner points was
 ignored

---
 resqpy/rq_import/_import_nexus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index eb70cab..ee975f8 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -226,6 +226,7 @@ def import_nexus(
                     corp_bin = False,
                     comment_char = None,  # comment char will be detected automatically
                     data_free_of_comments = False,
+                    eight_mode = corp_eight_mode,
                     use_binary = use_binary)
                 if use_binary:
                     wd.write_pure_binary_data(cp_binary_file,
-- 
2.43.0


From 5dce25fc5dd48c1df0e26d9e587ee78b34b59f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 116/117] fix: import nexus: active cell mask was lost when no
 properties imported

---
 resqpy/rq_import/_import_nexus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index ee975f8..f4845b9 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -485,6 +485,10 @@ def import_nexus(
     elif not ensemble_case_dirs_root:
         log.info('no static grid properties to import')
         prop_import_collection = None
+    if prop_import_collection is None and active_mask_file and grid.inactive is not None:
+        # collection needed to hold active cell property
+        prop_import_collection = rp.GridPropertyCollection()
+        prop_import_collection.set_grid(grid)
     grid.write_hdf5_from_caches(resqml_file_root + '.h5',
                                 geometry = False,
                                 imported_properties = prop_import_collection,
-- 
2.43.0


From 6cac0a957ac5c7781ad6fad7b27a61795fb4a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:33 +0000
Subject: [PATCH 117/117] fix: infill block geometry: snapping moved all cells
 above the deepest one instead of pinched out cells at top and base

---
 resqpy/olio/grid_functions.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/resqpy/olio/grid_functions.py b/resqpy/olio/grid_functions.py
index 897fdbe..ba6e05f 100644
--- a/resqpy/olio/grid_functions.py
+++ b/resqpy/olio/grid_functions.py
@@ -177,16 +177,19 @@ def __snap_to_top_and_base(snap_to_top_and_base,
                            k_base_greater_or_equal_to_extent = False):
     # Cells above topmost active and below deepest active will be populated with pinched out cells at the top and
     # bottom faces respectively
-    if k_base_greater_or_equal_to_extent:
-        k_top = k_top - 1
-        if snap_to_top_and_base:
-            snap_depth = depth[k_top, j, i] - k_dir_sign * thickness[k_top, j, i] / 2.0
-            snap_x = x[k_top, j, i]
-            snap_y = y[k_top, j, i]
-            for k_snap in range(k_top):
-                depth[k_snap, j, i] = snap_depth
-                x[k_snap, j, i] = snap_x
-                y[k_snap, j, i] = snap_y
+    if snap_to_top_and_base:
+        if k_base_greater_or_equal_to_extent:  # k_top is one more than the deepest active layer
+            k_active = k_top - 1
+            snap_depth = depth[k_active, j, i] + k_dir_sign * thickness[k_active, j, i] / 2.0
+            k_snap_range = range(k_top, depth.shape[0])
+        else:  # k_top is the topmost active layer
+            k_active = k_top
+            snap_depth = depth[k_active, j, i] - k_dir_sign * thickness[k_active, j, i] / 2.0
+            k_snap_range = range(k_top)
+        for k_snap in k_snap_range:
+            depth[k_snap, j, i] = snap_depth
+            x[k_snap, j, i] = x[k_active, j, i]
+            y[k_snap, j, i] = y[k_active, j, i]
     return x, y, depth
 
 
-- 
2.43.0

