From c22977afe2e710f48ddc5600aac84570a668d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:36 +0000
Subject: [PATCH 01/98] fix: crop(inplace=False) returned views on the source
 field's arrays

---
 IMTreatment/core/field.py       | 4 ++--
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 2e7c8d7..e616fe1 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -568,8 +568,8 @@ class Field(object):
                 return indmin_x, indmax_x, indmin_y, indmax_y
         else:
             cropfield = self.copy()
-            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1]
-            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1]
+            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1].copy()
+            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1].copy()
             if full_output:
                 return indmin_x, indmax_x, indmin_y, indmax_y, cropfield
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 541c3f5..784251a 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1412,9 +1412,9 @@ class ScalarField(fld.Field):
                 fld.Field.crop(self, intervx=intervx, intervy=intervy,
                                full_output=True, ind=ind, inplace=False)
             cropfield.__values = self.values[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0, value=None,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f567e4e..31db2b6 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -997,11 +997,11 @@ class VectorField(field.Field):
                 field.Field.crop(self, intervx=intervx, intervy=intervy,
                                  full_output=True, ind=ind)
             cropfield.__comp_x = self.comp_x[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__comp_y = self.comp_y[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def crop_masked_border(self, hard=False, inplace=False):
-- 
2.43.0


From 8e2eb9e7de73404ee96a083757ee7f695838e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:36 +0000
Subject: [PATCH 02/98] fix: crop_masked_border(inplace=False) returned None
 when nothing is masked

---
 IMTreatment/core/scalarfield.py    | 2 +-
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/vectorfield.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 784251a..33574ea 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1741,7 +1741,7 @@ class ScalarField(fld.Field):
         # checking masked values presence
         mask = tmp_vf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_vf
         # hard cropping
         if hard:
             # remove trivial borders
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bdaf115..1dd8d3d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1302,7 +1302,7 @@ class TemporalFields(flds.Fields, fld.Field):
         mask_cum = self.mask_cum
         # checking masked values presence
         if not np.any(mask_cum):
-            return None
+            return None if inplace else self.copy()
         # hard cropping
         if hard:
             if inplace:
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 31db2b6..26f5639 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1021,7 +1021,7 @@ class VectorField(field.Field):
         # checking masked values presence
         mask = tmp_sf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_sf
         # hard cropping
         if hard:
             # remove trivial borders
-- 
2.43.0


From 52e997591acb4b76ea49d778fe09ad847c2b7f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:05 +0000
Subject: [PATCH 03/98] fix: fill(crop=True, inplace=False) cropped the source
 field; unknown kinds were ignored when nothing is masked

---
 IMTreatment/core/scalarfield.py          | 6 ++++++
 IMTreatment/core/temporalscalarfields.py | 4 ++++
 IMTreatment/core/temporalvectorfields.py | 4 ++++
 IMTreatment/core/vectorfield.py          | 6 ++++++
 4 files changed, 20 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 33574ea..8726516 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1818,7 +1818,13 @@ class ScalarField(fld.Field):
             raise TypeError("'kind' must be a string")
         if not isinstance(value, NUMBERTYPES):
             raise TypeError("'value' must be a number")
+        if kind not in ['value', 'nearest', 'linear', 'cubic']:
+            raise ValueError("unknown 'kind' value")
         if crop:
+            if not inplace:
+                cropped = self.crop_masked_border(hard=False, inplace=False)
+                return cropped.fill(kind=kind, value=value, inplace=False,
+                                    reduce_tri=reduce_tri)
             self.crop_masked_border(hard=False, inplace=True)
         # getting data
         x, y = self.axe_x, self.axe_y
diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index efa27e4..03037c4 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -356,6 +356,10 @@ class TemporalScalarFields(tf.TemporalFields):
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
         if crop:
+            if not inplace:
+                cropped = self.crop_masked_border(hard=False, inplace=False)
+                return cropped.fill(tof=tof, kind=kind, value=value,
+                                    inplace=False)
             self.crop_masked_border(hard=False, inplace=True)
         # temporal interpolation
         if tof == 'temporal':
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 79348a5..e451ffa 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -289,6 +289,10 @@ class TemporalVectorFields(tf.TemporalFields):
             raise TypeError()
         value = np.array(value)
         if crop:
+            if not inplace:
+                cropped = self.crop_masked_border(hard=False, inplace=False)
+                return cropped.fill(tof=tof, kind=kind, value=value,
+                                    inplace=False)
             self.crop_masked_border(hard=False, inplace=True)
         # temporal interpolation
         if tof == 'temporal':
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 26f5639..e25426a 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -941,7 +941,13 @@ class VectorField(field.Field):
         value = np.array(value)
         if not value.shape == (2,):
             raise ValueError()
+        if kind not in ['value', 'nearest', 'linear', 'cubic']:
+            raise ValueError("unknown 'kind' value")
         if crop:
+            if not inplace:
+                cropped = self.crop_masked_border(hard=False, inplace=False)
+                return cropped.fill(kind=kind, value=value, inplace=False,
+                                    reduce_tri=reduce_tri)
             self.crop_masked_border(hard=False, inplace=True)
         # filling components
         comp_x = self.comp_x_as_sf
-- 
2.43.0


From d595434ae8267d84fab804af8ff68e200f5c71b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:03 +0000
Subject: [PATCH 04/98] fix: get_zones_centers modified the bornes argument and
 its own default

---
 IMTreatment/core/scalarfield.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 8726516..d64e042 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -642,16 +642,15 @@ class ScalarField(fld.Field):
         pts : pts.Points object
             Contening the centers coordinates
         """
-        # correcting python's problem with egality...
-        bornes[0] -= 0.00001*abs(bornes[0])
-        bornes[1] += 0.00001*abs(bornes[1])
         # checking parameters coherence
         if not isinstance(bornes, ARRAYTYPES):
             raise TypeError("'bornes' must be an array")
-        if not isinstance(bornes, np.ndarray):
-            bornes = np.array(bornes, dtype=float)
+        bornes = np.array(bornes, dtype=float)
         if not bornes.shape == (2,):
             raise ValueError("'bornes' must be a 2x1 array")
+        # correcting python's problem with egality...
+        bornes[0] -= 0.00001*abs(bornes[0])
+        bornes[1] += 0.00001*abs(bornes[1])
         if bornes[0] == bornes[1]:
             return None
         if not bornes[0] < bornes[1]:
-- 
2.43.0


From 452921d1eeda8d568a78323da4b62bdd56d153c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:03 +0000
Subject: [PATCH 05/98] fix: temporal fill worked on the source's own fields
 and wrong indices

---
 IMTreatment/core/temporalscalarfields.py | 19 ++++++++++++-------
 IMTreatment/core/temporalvectorfields.py |  7 +++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 03037c4..978ee7a 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -370,9 +370,16 @@ class TemporalScalarFields(tf.TemporalFields):
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
+            # inplace or not
+            if inplace:
+                fields = self.fields
+            else:
+                fields = self.copy().fields
             # loop on each field position
             for i, j in np.argwhere(super_mask):
-                prof = self.get_time_profile('values', i, j, ind=True)
+                prof = self.get_time_profile('values', [i, j], ind=True)
+                # getting masked position on profile
+                inds_masked = np.where(prof.mask)[0]
                 # creating interpolation function
                 if kind == 'value':
                     def interp(x):
@@ -392,17 +399,15 @@ class TemporalScalarFields(tf.TemporalFields):
                                                kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all profile masked points
-                for ind_masked in prof.mask:
+                for ind_masked in inds_masked:
                     try:
-                        interp_val = interp(prof.x[prof.mask])
+                        interp_val = interp(prof.x[ind_masked])
                     except ValueError:
                         continue
                     # putting interpolated value in the field
-                    fields[prof.mask].values[i, j] = interp_val
-                    fields[prof.mask].mask[i, j] = False
+                    fields[ind_masked].values[i, j] = interp_val
+                    fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
             if inplace:
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index e451ffa..c397e18 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -302,6 +302,11 @@ class TemporalVectorFields(tf.TemporalFields):
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
+            # inplace or not
+            if inplace:
+                fields = self.fields
+            else:
+                fields = self.copy().fields
             # loop on each field position
             for i, j in np.argwhere(super_mask):
                 # get time profiles
@@ -340,8 +345,6 @@ class TemporalVectorFields(tf.TemporalFields):
                                                  kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all x profile masked points
                 for ind_masked in inds_masked_x:
                     try:
-- 
2.43.0


From 43cde36c4b6f12582eab3f3a17eb2034a54e8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 06/98] fix: Points addition rescaled the right operand in
 place

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e0c7ec7..f0b7d6e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -101,14 +101,14 @@ class Points(object):
             if another.xy.shape == (0,):
                 new_xy = self.xy
             elif self.xy.shape == (0,):
-                xy = another.xy
+                xy = another.xy.copy()
                 xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
                 xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
                 new_xy = xy
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
-                xy = another.xy
+                xy = another.xy.copy()
                 xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
                 xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
-- 
2.43.0


From 940031f197fab7af1b567e5cccc190da21c2b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 07/98] fix: ScalarField.fill(inplace=False) wrote the filled
 values in the source array

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d64e042..be0b69b 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1827,7 +1827,7 @@ class ScalarField(fld.Field):
             self.crop_masked_border(hard=False, inplace=True)
         # getting data
         x, y = self.axe_x, self.axe_y
-        values = self.values
+        values = self.values.copy()
         mask = self.mask
         if kind in ['nearest', 'linear', 'cubic']:
             X, Y = np.meshgrid(x, y, indexing='ij')
-- 
2.43.0


From 967e8de23f1b8f9d9f4d9f49043f2e6bba44b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 08/98] fix: reduce_spatial_resolution of temporal fields
 updated the axes of the source instead of the result

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 1dd8d3d..6e641c3 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1181,8 +1181,8 @@ class TemporalFields(flds.Fields, fld.Field):
             if verbose:
                 pg.print_progress()
         #
-        self.axe_x = self.fields[0].axe_x
-        self.axe_y = self.fields[0].axe_y
+        tmpfs._Field__axe_x = tmpfs.fields[0].axe_x.copy()
+        tmpfs._Field__axe_y = tmpfs.fields[0].axe_y.copy()
         return tmpfs
 
     def reduce_temporal_resolution(self, nmb_in_interval, mean=True,
-- 
2.43.0


From 1e2c20cdb49e3edff3a0ab6348410224c03d5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 09/98] fix: get_spectral_filtering(inplace=False) filtered the
 source fields

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 6e641c3..b076131 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -859,8 +859,8 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         # check
         try:
-            tf = self.__getattribute__("{}_as_sf".format(comp))
-        except AttributeError():
+            tf = self.__getattribute__("{}_as_sf".format(comp)).copy()
+        except AttributeError:
             raise ValueError()
         # loop on space
         xys = [[x, y]
-- 
2.43.0


From 055cff14446af2ed0dce2d8e881c7df6e79ea070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 10/98] fix: TemporalPoints.crop(inplace=False) cropped the
 source's point sets

---
 IMTreatment/core/temporalpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a495f81..10d80fb 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -293,7 +293,7 @@ class TemporalPoints(object):
             croppts.point_sets = croppts.point_sets[intervt[0]:intervt[1] + 1]
             croppts.times = croppts.times[intervt[0]:intervt[1] + 1]
         # spatial
-        for pt in self.point_sets:
+        for pt in croppts.point_sets:
             pt.crop(intervx=intervx, intervy=intervy, intervv=intervv,
                     inplace=True)
         # returning
-- 
2.43.0


From 3a4c94daa461722e5bbe4dac0056896bbc280185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 11/98] fix: dividing by a Profile replaced the zeros of the
 divisor

---
 IMTreatment/core/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 98e773a..54ecb09 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -202,8 +202,9 @@ class Profile(object):
                 tmp_unit = self.unit_y/otherone.unit_y
                 y_tmp = self.y.copy()
                 y_tmp[otherone.y == 0] = np.NaN
-                otherone.y[otherone.y == 0] = 1
-                y = y_tmp/otherone.y*tmp_unit.asNumber()
+                y_div = otherone.y.copy()
+                y_div[y_div == 0] = 1
+                y = y_tmp/y_div*tmp_unit.asNumber()
                 name = ""
                 unit_y = tmp_unit/tmp_unit.asNumber()
         else:
-- 
2.43.0


From 00434fb41f99ba1462ec2b6405f602fc80d12dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 12/98] fix: ScalarField/Profile setters stored the caller's
 arrays without copying them

---
 IMTreatment/core/profile.py     | 2 +-
 IMTreatment/core/scalarfield.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 54ecb09..8407f92 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -287,7 +287,7 @@ class Profile(object):
     @y.setter
     def y(self, values):
         if isinstance(values, np.ma.MaskedArray):
-            self.__y = values.data
+            self.__y = np.array(values.data)*1.
             self.mask = values.mask
         elif isinstance(values, ARRAYTYPES):
             self.__y = np.array(values)*1.
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index be0b69b..94aad2c 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -328,7 +328,7 @@ class ScalarField(fld.Field):
     def values(self, new_values):
         if not isinstance(new_values, ARRAYTYPES):
             raise TypeError()
-        new_values = np.asarray(new_values)
+        new_values = np.array(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
             self.__mask = np.isnan(new_values)
@@ -355,7 +355,7 @@ class ScalarField(fld.Field):
             new_mask = np.empty(self.shape, dtype=bool)
             new_mask.fill(fill_value)
         elif isinstance(new_mask, ARRAYTYPES):
-            new_mask = np.asarray(new_mask, dtype=bool)
+            new_mask = np.array(new_mask, dtype=bool)
         else:
             raise TypeError("'mask' should be an array or a boolean,"
                             " not a {}".format(type(new_mask)))
-- 
2.43.0


From e001dcd49fbec9e54f1bce83ca9c82d7af29db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 13/98] fix: times setters stored the caller's array without
 copying it

---
 IMTreatment/core/temporalfields.py | 2 +-
 IMTreatment/core/temporalpoints.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index b076131..9583c7a 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -243,7 +243,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.fields)))
-        self.__times = values
+        self.__times = np.array(values)
 
     @times.deleter
     def times(self):
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 10d80fb..c8db31f 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -82,7 +82,7 @@ class TemporalPoints(object):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.point_sets)))
-        self.__times = values
+        self.__times = np.array(values)
 
     @times.deleter
     def times(self):
-- 
2.43.0


From ee9130f58afbf933ad6a7e72f2876d430818c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 14/98] fix: decompose returned the object itself for a single
 point

---
 IMTreatment/core/orientedpoints.py | 2 +-
 IMTreatment/core/points.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index ad292db..c154ada 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -323,7 +323,7 @@ class OrientedPoints(pts.Points):
         object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f0b7d6e..05b71e8 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1195,7 +1195,7 @@ class Points(object):
         return a tuple of Points object, with only one point per object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
-- 
2.43.0


From c3f9af7cdb8875dbeb53648d3d245bcf157820c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 15/98] fix: get_interpolated_field returned the stored field
 itself

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 9583c7a..7c0f000 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -332,7 +332,7 @@ class TemporalFields(flds.Fields, fld.Field):
         assert time <= self.times[-1]
         # if time is in self.times
         if np.any(self.times == time):
-            return self.fields[self.times == time][0]
+            return self.fields[self.times == time][0].copy()
         # else, get the surrounding fields
         ind_time = np.argwhere(self.times > time)[0][0]
         denom = self.times[ind_time] - self.times[ind_time - 1]
-- 
2.43.0


From 3733ed3028f27369c8e322d2cfb3f058d8571b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 16/98] fix:
 evenly_space/reduce_temporal_resolution(inplace=True) returned a copy when
 there is nothing to do

---
 IMTreatment/core/profile.py        | 2 +-
 IMTreatment/core/temporalfields.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8407f92..4b5aac1 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1728,7 +1728,7 @@ class Profile(object):
         dxs = self.x[1::] - self.x[:-1:]
         dxi = self.x[1] - self.x[0]
         if np.all(np.abs(dxs - dxi) < 1e-6*np.max(dxs)):
-            return self.copy()
+            return tmpp
         # getting data
         mask = self.mask
         filt = np.logical_not(mask)
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 7c0f000..d0de9ab 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1212,7 +1212,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("'nmb_in_interval' must be a positive integer")
 
         if nmb_in_interval == 1:
-            return self.copy()
+            return None if inplace else self.copy()
         if nmb_in_interval >= len(self):
             raise ValueError("'nmb_in_interval' is too big")
         if not isinstance(mean, bool):
-- 
2.43.0


From 6be92260d51df57b520da846f53fe84e8d431541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:05 +0000
Subject: [PATCH 17/98] fix: get_grad_field reassigned the components of its
 argument (resetting its mask)

---
 IMTreatment/field_treatment/field_treatment.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index e70619a..a20064f 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -564,8 +564,6 @@ def get_grad_field(field, direction='x'):
     if not direction in ['x', 'y']:
         raise ValueError()
     # getting gradients
-    field.comp_x = field.comp_x
-    field.comp_y = field.comp_y
     grads = get_gradients(field)
     # returning
     if direction == 'x':
-- 
2.43.0


From 7627f5eb07e5f30316131bd3b8882bdb34aec408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:31 +0000
Subject: [PATCH 18/98] fix: crop_masked_border(inplace=False) of entirely
 masked temporal fields returned None

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index d0de9ab..0aaaa10 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1351,7 +1351,7 @@ class TemporalFields(flds.Fields, fld.Field):
             axe_x_m = ~np.all(mask_cum, axis=1)
             # skip if nothing to do
             if not np.any(axe_y_m) or not np.any(axe_x_m):
-                return None
+                return None if inplace else self.copy()
             # getting indices where we need to cut
             axe_x_min = np.where(axe_x_m)[0][0]
             axe_x_max = np.where(axe_x_m)[0][-1]
-- 
2.43.0


From 97d5dd5ca96ee374f0a3c6075e3c256559af32f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:31 +0000
Subject: [PATCH 19/98] fix: adding an empty CritPoints returned the operand
 itself

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index bb42f88..73e06bf 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -469,9 +469,9 @@ class CritPoints(object):
     def __add__(self, obj):
         if isinstance(obj, CritPoints):
             if len(obj.times) == 0:
-                return self
+                return self.copy()
             if len(self.times) == 0:
-                return obj
+                return obj.copy()
             if not self.unit_time == obj.unit_time:
                 raise ValueError()
             if not self.unit_x == obj.unit_x:
-- 
2.43.0


From 2b75e2a4f9f2e41ec806e45b332a8da1f380eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:29 +0000
Subject: [PATCH 20/98] fix: MeanTrajectory kept a reference on the caller's
 assoc_real_times

---
 IMTreatment/vortex_detection/vortex_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 73e06bf..7fd7496 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2384,7 +2384,7 @@ class MeanTrajectory(Points):
             raise TypeError()
         if not len(assoc_real_times) == len(xy):
             raise ValueError()
-        self.assoc_real_times = assoc_real_times
+        self.assoc_real_times = copy.deepcopy(assoc_real_times)
         self.assoc_std_x = np.array(assoc_std_x, dtype=float)
         self.assoc_std_y = np.array(assoc_std_y, dtype=float)
         self.nmb_traj_used = int(nmb_traj_used)
-- 
2.43.0


From 406239166c25a81c0baaa9095eafeff6a6f0cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:27 +0000
Subject: [PATCH 21/98] fix: SpatialFields.add_field converted and cropped the
 caller's field even with copy=True

---
 IMTreatment/core/spatialfields.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 9a62c72..cafa9f5 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -154,6 +154,8 @@ class SpatialFields(flds.Fields):
         # check
         if not isinstance(field, self.fields_type):
             raise TypeError()
+        if copy:
+            field = field.copy()
         # first field
         if len(self.fields) == 0:
             self.unit_x = field.unit_x
@@ -170,7 +172,7 @@ class SpatialFields(flds.Fields):
         # crop fields
         field.crop_masked_border(hard=False, inplace=True)
         # add field
-        flds.Fields.add_field(self, field, copy=copy)
+        flds.Fields.add_field(self, field, copy=False)
 
     def get_value(self, x, y, unit=False, error=True):
         """
-- 
2.43.0


From 7edb5439b4faeb85d5fbfa0826d25bacc95fee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:27 +0000
Subject: [PATCH 22/98] fix: division, iteration, gridding and profiles of
 spatial fields failed with internal errors

---
 IMTreatment/core/spatialfields.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index cafa9f5..4b43ad9 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -63,7 +63,7 @@ class SpatialFields(flds.Fields):
 
     def __truediv__(self, other):
         if isinstance(other, (NUMBERTYPES, unum.Unum)):
-            final_vfs = self.__class__.__init__()
+            final_vfs = self.__class__()
             for field in self.fields:
                 final_vfs.add_field(field/other)
             return final_vfs
@@ -82,10 +82,6 @@ class SpatialFields(flds.Fields):
             final_vfs.add_field(np.power(field, number))
         return final_vfs
 
-    def __iter__(self):
-        for i in np.arange(len(self.fields)):
-            yield self.times[i], self.fields[i]
-
     @property
     def mask(self):
         dim = (len(self.fields), self.shape[0], self.shape[1])
@@ -238,7 +234,7 @@ class SpatialFields(flds.Fields):
                         mask[i, j] = True
                     else:
                         values[i, j] = val
-            tmp_f = sf.ScalarField
+            tmp_f = sf.ScalarField()
             tmp_f.import_from_arrays(axe_x, axe_y, values, mask=mask,
                                      unit_x=self.unit_x, unit_y=self.unit_y,
                                      unit_values=self.unit_values)
@@ -287,11 +283,10 @@ class SpatialFields(flds.Fields):
         if self.fields_type == vf.VectorField:
             if component is None:
                 component = 'magnitude'
-            else:
-                try:
-                    comp = self.__getattribute__("{}_as_sf".format(component))
-                except AttributeError:
-                    raise ValueError()
+            try:
+                comp = self.__getattribute__("{}_as_sf".format(component))
+            except AttributeError:
+                raise ValueError()
         elif self.fields_type == sf.ScalarField:
             if component is None:
                 component = "values"
@@ -317,7 +312,7 @@ class SpatialFields(flds.Fields):
         elif len(inter_ind) == 1:
             return comp[inter_ind[0]].get_profile(direction=direction,
                                                   position=position,
-                                                  ind=False)[0]
+                                                  ind=False)
         else:
             # get profiles
             x = np.array([])
@@ -326,7 +321,7 @@ class SpatialFields(flds.Fields):
                 tmp_comp = comp[ind]
                 tmp_prof = tmp_comp.get_profile(direction=direction,
                                                 position=position,
-                                                ind=False)[0]
+                                                ind=False)
                 x = np.concatenate((x, tmp_prof.x))
                 y = np.concatenate((y, tmp_prof.y))
             # recreate profile object
-- 
2.43.0


From ef66ef35e7f6e0e29eec0507aa4f28427c3f747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:27 +0000
Subject: [PATCH 23/98] fix: ScalarField.extend(inplace=False) used an
 undefined name

---
 IMTreatment/core/scalarfield.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 94aad2c..8e972b2 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1489,9 +1489,12 @@ class ScalarField(fld.Field):
                                     unit_y=tmpsf.unit_y,
                                     unit_values=tmpsf.unit_values)
         else:
-            new_field.values = new_values
-            new_field.mask = new_mask
-            return new_field
+            tmpsf.import_from_arrays(axe_x=tmpsf.axe_x, axe_y=tmpsf.axe_y,
+                                     values=new_values, mask=new_mask,
+                                     unit_x=tmpsf.unit_x,
+                                     unit_y=tmpsf.unit_y,
+                                     unit_values=tmpsf.unit_values)
+            return tmpsf
 
     def mirroring(self, direction, position, inds_to_mirror='all',
                   mir_coef=1, interp=None, value=0, inplace=False):
-- 
2.43.0


From 12cf28416b2e8ae4ceac020fc5fd7062fe8c2544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:21 +0000
Subject: [PATCH 24/98] fix: Points.get_evolution_on_sf could not build its
 profile; Points.fit rejects an unknown 'simplify'

---
 IMTreatment/core/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 05b71e8..c9c94db 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -731,10 +731,10 @@ class Points(object):
         """
         # check parameters
         from .scalarfield import ScalarField
+        from .profile import Profile
         if not isinstance(SF, ScalarField):
             raise TypeError()
         if len(self.xy) == 0:
-            from .profile import Profile
             return Profile()
         if axe_x is None:
             if len(self.v) == len(self.xy):
@@ -859,6 +859,8 @@ class Points(object):
             xytmp = self.simplify(axe=0).xy
         elif simplify == 'y':
             xytmp = self.simplify(axe=1).xy
+        else:
+            raise ValueError("Unknown value for 'simplify'")
 
         if kind == 'polynomial':
             p = np.polyfit(xytmp[:, 0], xytmp[:, 1], deg=order)
-- 
2.43.0


From 227b05bad0ebad01922e9ef4b2454aa2a456437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 25/98] fix: Profile.fill: crop option, fill value, in-place
 return; unknown convolution kind rejected

---
 IMTreatment/core/profile.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 4b5aac1..55b1e87 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1221,6 +1221,8 @@ class Profile(object):
             tmp_conv = self.get_convolution_of_difference(other_profile,
                                                           normalized=True)
             tmp_deph = tmp_conv.get_value_position(tmp_conv.min)[0]
+        else:
+            raise ValueError("Unknown convolution type: {}".format(conv))
         return tmp_deph
 
     def get_convolution_of_difference(self, other_profile, normalized=True):
@@ -1576,12 +1578,17 @@ class Profile(object):
         """
         # check if filling really necessary
         if not np.any(self.mask) and inplace:
-            return None,
+            return None
         elif not np.any(self.mask):
             return self.copy()
         # crop if asked
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            if inplace:
+                self.crop_masked_border(inplace=True)
+            else:
+                cropped = self.crop_masked_border(inplace=False)
+                return cropped.fill(kind=kind, fill_value=fill_value,
+                                    inplace=False, crop=False)
         # get mask
         mask = self.mask
         filt = np.logical_not(mask)
@@ -1590,7 +1597,7 @@ class Profile(object):
         # check fill type
         if kind == 'value':
             new_y = copy.copy(self.y)
-            new_y[filt] = fill_value
+            new_y[mask] = fill_value
         else:
             # making interpolation on existent values
             x = self.x[filt]
-- 
2.43.0


From 84482edb5fa73d4a5fe5da8969370f6063c908eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 26/98] fix: file importers: spatial containers take no time,
 unbound names, import_vfs_from_ascii calls

---
 IMTreatment/file_operation/file_operation.py | 30 ++++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7c55a1e..f8bc063 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -137,6 +137,7 @@ def find_file_in_path(regs, dirpath, ask=False):
     dir_paths = []
     # recursive loop on folders
     for root, dirs, files in os.walk(dirpath):
+        match = False
         for f in files:
             match = np.any([re.match(reg, f) for reg in regs])
             if match:
@@ -796,6 +797,8 @@ def import_from_IM7(filename, infos=False):
     elif v_array.shape[0] == 1:
         values = v_array[0][:, ::1]
         mask = np.zeros(values.shape, dtype=bool)
+    else:
+        raise IOError("Unknown IM7 buffer format")
     # Values and Mask
     scale_i = atts['_SCALE_I']
     scale_i = scale_i.split("\n")
@@ -967,10 +970,12 @@ def import_from_VC7(filename, infos=False, add_fields=False):
         mask = np.logical_or(mask, mask2)
         Vx = v_array[1]
         Vy = v_array[2]
+    else:
+        raise IOError("Unknown VC7 buffer format: {}".format(fmt))
     mask = np.logical_or(mask, np.logical_and(Vx == 0., Vy == 0.))
     # additional fields if necessary
+    suppl_fields = []
     if add_fields and fmt in [1, 3]:
-        suppl_fields = []
         for i in np.arange(4, v_array.shape[0]):
             suppl_fields.append(np.transpose(np.array(v_array[i])))
     # Get and apply scale on values
@@ -1143,7 +1148,10 @@ def import_from_VC7s(fieldspath, kind='TVF', fieldnumbers=None, incr=1,
             unit_time = make_unit(dt[1])
             dt = float(dt[0])
             t += dt*incr
-            fields.add_field(tmp_vf, t, unit_time)
+            if kind == 'TVF':
+                fields.add_field(tmp_vf, t, unit_time)
+            else:
+                fields.add_field(tmp_vf)
             for i, f in enumerate(add_fields):
                 suppl_fields[i].add_field(f, t, unit_time)
         else:
@@ -1156,7 +1164,10 @@ def import_from_VC7s(fieldspath, kind='TVF', fieldnumbers=None, incr=1,
                 dt = 1.
                 unit_time = make_unit("")
             t += dt*incr
-            fields.add_field(tmp_vf, t, unit_time)
+            if kind == 'TVF':
+                fields.add_field(tmp_vf, t, unit_time)
+            else:
+                fields.add_field(tmp_vf)
     # return
     if add_fields:
         return fields, suppl_fields
@@ -1869,7 +1880,7 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
         if interval[0] > interval[1]:
             interval = [interval[1], interval[0]]
     filepath = check_path(filepath)
-    paths = glob.glob(filepath)
+    paths = glob(filepath)
     if interval is None:
         interval = [0, len(paths)-1]
     if interval[0] < 0 or interval[1] > len(paths):
@@ -1890,11 +1901,12 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
         if len(path) != ref_path_len:
             raise Warning("You should check your files names,"
                           "i may have taken them in the wrong order.")
-        tmp_vf = VectorField()
-        tmp_vf.import_from_ascii(path, x_col, y_col, vx_col, vy_col,
-                                 unit_x, unit_y, unit_values, times[i],
-                                 unit_time, **kwargs)
-        fields.add_field(tmp_vf)
+        tmp_vf = import_vf_from_ascii(path, x_col, y_col, vx_col, vy_col,
+                                      unit_x, unit_y, unit_values, **kwargs)
+        if kind == 'TVF':
+            fields.add_field(tmp_vf, times[i], unit_time)
+        else:
+            fields.add_field(tmp_vf)
     return fields
 
 
-- 
2.43.0


From 09e5326c41737540c9577a47e7bdbad5fa8569fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 27/98] fix: potential flow point objects could not be added

---
 IMTreatment/potential_flow/potential_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index d6b753a..9469054 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -75,7 +75,7 @@ class System(object):
         coords = np.array(coords)
         # object_0D
         if dim == 0:
-            self.objects_0D.append(object_0D(coords, kind, res=res))
+            self.objects_0D.append(object_0D(coords[0], coords[1]))
         # object_1D
         elif dim == 1:
             self.objects_1D.append(object_1D(coords, kind, res=res))
-- 
2.43.0


From afdc560010ad0e9cd62e5086ddb8c81455a18280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 28/98] fix: OrientedPoints streamlines import and arguments, y
 spacing, orientation shape check

---
 IMTreatment/core/orientedpoints.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index c154ada..9d37a72 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -69,7 +69,7 @@ class OrientedPoints(pts.Points):
         if len(xy) != 0 and not orientations.ndim == 3:
             raise ValueError("'orientations' must have 3 dimensions, not {}"
                              .format(orientations.ndim))
-        if not orientations.shape[0:3:2] != [len(xy), 2]:
+        if len(xy) != 0 and orientations.shape[0:3:2] != (len(xy), 2):
             raise ValueError()
         # initialize data
         pts.Points.__init__(self, xy=xy, v=v, unit_x=unit_x, unit_y=unit_y,
@@ -142,13 +142,14 @@ class OrientedPoints(pts.Points):
             Each Points object represent a streamline
         """
         # check parameters
-        from .field_treatment import get_streamlines
+        from ..field_treatment import get_streamlines_fast
         from . import vectorfield as vfp
         if not isinstance(vf, vfp.VectorField):
             raise TypeError()
         # getting streamlines
-        streams = get_streamlines(vf, self.xy, delta=delta, interp=interp,
-                                  reverse_direction=reverse_direction)
+        streams = get_streamlines_fast(vf, self.xy, delta=delta,
+                                       interp=interp,
+                                       reverse=reverse_direction)
         return streams
 
     def get_streamlines_from_orientations(self, vf, delta=.25, interp='linear',
@@ -194,7 +195,7 @@ class OrientedPoints(pts.Points):
             raise ValueError()
         # get coef
         coefx = (vf.axe_x[1] - vf.axe_x[0])*.25
-        coefy = (vf.axe_x[1] - vf.axe_x[0])*.25
+        coefy = (vf.axe_y[1] - vf.axe_y[0])*.25
         # get streamlines
         streams = []
         # for each points and each directions
-- 
2.43.0


From 43fb4b9e3ee9ac07b70de030f2a797945b3bb029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 29/98] fix: boundary layer functions used missing attributes

---
 IMTreatment/boundary_layer/boundary_layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ae9be9a..51729a9 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -241,12 +241,12 @@ class BlasiusBL(object):
             u = u_over_U*self.Uinf
         # Turbulent case
         else:
-            delta, _, _ = self.get_thickness(x, allTurbulent=True)
+            delta = self.get_BL_properties(x, allTurbulent=True)[0]
             if y is None:
                 theta = np.linspace(0, 10, 200)
-                y = theta*delta.y[0]
+                y = theta*delta[0]
             else:
-                theta = y/delta.y[0]
+                theta = y/delta[0]
             u_over_U = np.power(theta, 1./7.)
             u_over_U[theta > 1] = 1.
             u = u_over_U*self.Uinf
@@ -691,8 +691,8 @@ class WallLaw(object):
                            "Umoyen = {1:.4f}").format(self.tau, Umoy))
         y5 = 5.*self.visc_c*np.sqrt(self.rho/self.tau)
         y30 = 30.*self.visc_c*np.sqrt(self.rho/self.tau)
-        mini = prof.get_min()
-        maxi = prof.get_max()
+        mini = prof.min
+        maxi = prof.max
         plt.plot([mini, maxi], [y5, y5], 'r--')
         plt.plot([mini, maxi], [y30, y30], 'r--')
         plt.xlabel("Velocity (m/s)")
@@ -1219,7 +1219,7 @@ def get_separation_position(obj, wall_direction, wall_position,
         # checking masked values
         if np.any(obj.mask):
             warnings.warn("I can give weird results if masked values remains")
-        V = obj.values_as_sf
+        V = obj
         if wall_direction == 1:
             axe = axe_x
         else:
-- 
2.43.0


From 0a431e0528cd5c4d470b696a3a1330b0b4528b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 30/98] fix: remove_weird_fields on scalar fields,
 inject_time_profile with Points

---
 IMTreatment/core/temporalfields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 0aaaa10..fec5bdd 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -561,7 +561,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise ValueError()
         # do it
         for i in range(len(prof)):
-            self.fields[i].__getattribute__(comp)[ind_x, ind_y] = prof.y[i]
+            self.fields[i].__getattribute__(comp)[pt[i, 0], pt[i, 1]] = prof.y[i]
 
     def get_temporal_spectrum(self, component, pt, ind=False,
                               wanted_times=None, welch_seglen=None,
@@ -1447,7 +1447,11 @@ class TemporalFields(flds.Fields, fld.Field):
         # get weird fields indices
         mean_magn = []
         for field in tmp_tf.fields:
-            mean_magn.append(np.sum(field.magnitude[~field.mask]))
+            if isinstance(field, sf.ScalarField):
+                magnitude = np.abs(field.values)
+            else:
+                magnitude = field.magnitude
+            mean_magn.append(np.sum(magnitude[~field.mask]))
         mean = np.mean(mean_magn)
         mean_eps = np.std(mean_magn)*std_coef
         filt = np.logical_or(mean_magn < mean - mean_eps,
-- 
2.43.0


From 6d305b4240586028e11bae0106e1feef5f744afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 31/98] fix: ModalFields.smooth_spatial_evolutions misspelt
 attribute

---
 IMTreatment/pod/pod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1220be9..9a2a924 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -388,7 +388,7 @@ class ModalFields(Field):
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
-                tmp_MF.mdes[n].smooth(tos=tos, size=size, inplace=True)
+                tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From 5be24d5f2d4dff2b0a976afe4c1fdab116a04c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 32/98] fix: get_lambda2 raw result, get_angle_deviation local
 treatment used comp_x for y

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 726c37d..7cc4325 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -124,7 +124,7 @@ def get_angle_deviation(vectorfield, radius=None, ind=False, mask=None,
             tmp_Vx = vectorfield.comp_x[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vy = vectorfield.comp_y[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vx -= vectorfield.comp_x[ind_x, ind_y]
-            tmp_Vy -= vectorfield.comp_x[ind_x, ind_y]
+            tmp_Vy -= vectorfield.comp_y[ind_x, ind_y]
             angles = _get_angles(tmp_Vx, tmp_Vy)
         # getting neightbour angles repartition
         angles = np.sort(angles)
@@ -1283,7 +1283,7 @@ def get_lambda2(vectorfield, mask=None, raw=False):
             lambda2[i, j] = l2
     # returning
     if raw:
-        return np.ma.masked_array(l2, mask)
+        return np.ma.masked_array(lambda2, mask)
     else:
         lambd_sf = ScalarField()
         axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
-- 
2.43.0


From 1bc61ca6c2512cff8137a39db8f600206bc489a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:14 +0000
Subject: [PATCH 33/98] fix: ProgressCounter with unknown maximum read an unset
 variable

---
 IMTreatment/utils/progresscounter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/utils/progresscounter.py b/IMTreatment/utils/progresscounter.py
index b822c18..4b711ab 100644
--- a/IMTreatment/utils/progresscounter.py
+++ b/IMTreatment/utils/progresscounter.py
@@ -134,11 +134,10 @@ class ProgressCounter(object):
         if i % self.interv == 0:
             ti = modtime.time()
             if i == 0:
-                tf = '---'
+                dt = '---'
             else:
-                dt = (ti - self.t0)/i
+                dt = self._format_time((ti - self.t0)/i)
             ti = self._format_time(ti - self.t0)
-            dt = self._format_time(dt)
             text = ("===    {:{max_pad}d} {name}    {}    ({} / {})"
                     .format(i, ti, dt, self.name_things,
                             max_pad=self.nmb_max_pad,
-- 
2.43.0


From 357b2c9a170848826e9b1104f51668bdee42303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:58 +0000
Subject: [PATCH 34/98] fix: SpatialFields rotation and mask needed axes these
 containers do not have

---
 IMTreatment/core/fields.py        |  3 ++-
 IMTreatment/core/spatialfields.py | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index e8dc468..134a59d 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -112,7 +112,8 @@ class Fields(object):
         # normalize angle
         angle = angle % 360
         # rotate the parent
-        field.Field.rotate(tmp_field, angle, inplace=True)
+        if isinstance(tmp_field, field.Field):
+            field.Field.rotate(tmp_field, angle, inplace=True)
         # rotate fields
         for i in np.arange(len(tmp_field.fields)):
             tmp_field.fields[i].rotate(angle=angle, inplace=True)
diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 4b43ad9..f79c1e8 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -84,10 +84,11 @@ class SpatialFields(flds.Fields):
 
     @property
     def mask(self):
-        dim = (len(self.fields), self.shape[0], self.shape[1])
-        mask_f = np.empty(dim, dtype=bool)
+        # fields can have different shapes
+        dim = len(self.fields)
+        mask_f = np.empty(dim, dtype=object)
         for i, field in enumerate(self.fields):
-            mask_f[i, :, :] = field.mask[:, :]
+            mask_f[i] = field.mask
         return mask_f
 
     @property
@@ -170,6 +171,16 @@ class SpatialFields(flds.Fields):
         # add field
         flds.Fields.add_field(self, field, copy=False)
 
+    def rotate(self, angle, inplace=False):
+        __doc__ = flds.Fields.rotate.__doc__
+        tmp_f = self if inplace else self.copy()
+        flds.Fields.rotate(tmp_f, angle, inplace=True)
+        if angle % 180 != 0:
+            tmp_f.unit_x, tmp_f.unit_y = tmp_f.unit_y, tmp_f.unit_x
+        # returning
+        if not inplace:
+            return tmp_f
+
     def get_value(self, x, y, unit=False, error=True):
         """
         Return the field component(s) on the point (x, y).
-- 
2.43.0


From e61ea0f9a9fa0f13edacc54626da6b7030f3b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:47 +0000
Subject: [PATCH 35/98] fix: ModalFields.crop_modal_base called numpy.arrange

---
 IMTreatment/pod/pod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 9a2a924..1c9bb7f 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -176,12 +176,12 @@ class ModalFields(Field):
             modes_to_keep = np.array(modes_to_keep, dtype=int)
         else:
             if isinstance(modes_to_remove, int):
-                modes_to_remove = np.arrange(len(self.modes) - modes_to_remove,
-                                             len(self.modes))
+                modes_to_remove = np.arange(len(self.modes) - modes_to_remove,
+                                            len(self.modes))
             if not isinstance(modes_to_remove, ARRAYTYPES):
                 raise TypeError()
             modes_to_remove = np.array(modes_to_remove, dtype=int)
-            modes_to_keep = np.arrange(len(self.modes))
+            modes_to_keep = np.arange(len(self.modes))
             modes_to_keep = np.delete(modes_to_keep, modes_to_remove)
         # get data
         if inplace:
-- 
2.43.0


From 25ee3ac3cc7881382e8d4347a346b00802f1c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:47 +0000
Subject: [PATCH 36/98] fix: delete_existing_files caught a name that only
 exists on Windows

---
 IMTreatment/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 68daf5b..bdba892 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -300,7 +300,7 @@ class Files(object):
                         # else, check if each folder is empty
                         try:
                             os.rmdir(p)
-                        except WindowsError:
+                        except OSError:
                             print("+++ Following folder is not empty\n"
                                   "{}".format(p))
                             while True:
-- 
2.43.0


From 22261592e255afadc7cfb273c6dcbf26e6f70062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:20 +0000
Subject: [PATCH 37/98] fix: make_unit executed parts of the unit string

---
 IMTreatment/utils/units.py | 49 ++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index 5031bc4..23cdbe6 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -22,7 +22,7 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 
 import numpy as np
-import re
+import ast
 import unum
 import unum.units as units
 try:
@@ -57,20 +57,43 @@ def make_unit(string):
     """
     if string == "":
         return unum.Unum({})
-    # Safe check
-    forbidden = ['import', '=', '\n', ';', ':', '"', "'", "open"]
-    forbidden += [key for key in globals().keys()]
-    for f in forbidden:
-        if f in string:
-            raise Exception("Unauthorized string: {}".format(f))
-    if re.match("[a-zA-Z]+\(.*\)", string):
-        raise Exception("No call allowed here")
     # Replace '^' by '**'
     string = string.replace('^', '**')
-    # exec
-    env = {}
-    exec("from unum.units import *;res = {}".format(string), env)
-    return env['res']
+    # Only known units, numbers and their products, quotients and powers
+    # are allowed, nothing is executed
+    return _unit_from_node(ast.parse(string.strip(), mode='eval').body)
+
+
+def _unit_from_node(node):
+    """
+    Return the unit represented by a node of a parsed unit string.
+    """
+    if isinstance(node, ast.Constant) and type(node.value) in (int, float):
+        return node.value
+    elif isinstance(node, ast.Name):
+        unit = getattr(units, node.id, None)
+        if not isinstance(unit, unum.Unum):
+            raise NameError("Unknown unit: {}".format(node.id))
+        return unit
+    elif isinstance(node, ast.UnaryOp):
+        if isinstance(node.op, ast.USub):
+            return -_unit_from_node(node.operand)
+        elif isinstance(node.op, ast.UAdd):
+            return _unit_from_node(node.operand)
+    elif isinstance(node, ast.BinOp):
+        left = _unit_from_node(node.left)
+        right = _unit_from_node(node.right)
+        if isinstance(node.op, ast.Mult):
+            return left*right
+        elif isinstance(node.op, ast.Div):
+            return left/right
+        elif isinstance(node.op, ast.Pow):
+            return left**right
+        elif isinstance(node.op, ast.Add):
+            return left + right
+        elif isinstance(node.op, ast.Sub):
+            return left - right
+    raise Exception("Unauthorized unit string")
 
 
 def make_unit_old(string):
-- 
2.43.0


From bfc394794c2eb65991b474198215e4aa99dbd074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:20 +0000
Subject: [PATCH 38/98] fix: restore garbage collection, warning filters and
 file descriptors on every exit

---
 IMTreatment/boundary_layer/boundary_layer.py |   9 +-
 IMTreatment/file_operation/file_operation.py | 152 ++++++++++---------
 IMTreatment/utils/codeinteraction.py         |   4 +-
 IMTreatment/utils/memoization.py             |  15 +-
 4 files changed, 97 insertions(+), 83 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 51729a9..408db79 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -369,7 +369,6 @@ class FalknerSkanBL(object):
             This ODE system is so solved with a shooting method.
         """
         import warnings
-        warnings.filterwarnings('error')
         # Set mu values
         mu = np.linspace(0, 10, 100)
 
@@ -401,7 +400,9 @@ class FalknerSkanBL(object):
         for tmpY3 in tmp_Y3s:
             ODE.set_initial_value([0, 0, tmpY3])
             try:
-                prof = ODE.integrate(mu[-1])
+                with warnings.catch_warnings():
+                    warnings.filterwarnings('error')
+                    prof = ODE.integrate(mu[-1])
             except RuntimeWarning:
                 tmp_Y1ps.append(np.nan)
                 tmp_Y2ps.append(np.nan)
@@ -453,7 +454,9 @@ class FalknerSkanBL(object):
                        .format(nmb_it, mid_Y3)))
             # compute new Y1p at middle
             ODE.set_initial_value([0, 0, mid_Y3])
-            prof = ODE.integrate(mu[-1])
+            with warnings.catch_warnings():
+                warnings.filterwarnings('error')
+                prof = ODE.integrate(mu[-1])
             new_Y1p = prof[1]
             # replace interval with new values
             if (interval_Y1p[0] - aimed_Y1p)*(new_Y1p - aimed_Y1p) < 0:
diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index f8bc063..47c78b9 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -305,15 +305,23 @@ def import_from_file(filepath, **kw):
     extension = path.splitext(filepath)[1]
     # importing file
     if extension == ".imt":
+        gc_state = gc.isenabled()
         gc.disable()
-        with open(filepath, 'rb') as f:
-            obj = pickle.load(f)
-        gc.enable()
+        try:
+            with open(filepath, 'rb') as f:
+                obj = pickle.load(f)
+        finally:
+            if gc_state:
+                gc.enable()
     elif extension == ".cimt":
+        gc_state = gc.isenabled()
         gc.disable()
-        with gzip.open(filepath, 'rb') as f:
-            obj = pickle.load(f)
-        gc.enable()
+        try:
+            with gzip.open(filepath, 'rb') as f:
+                obj = pickle.load(f)
+        finally:
+            if gc_state:
+                gc.enable()
     else:
         raise IOError("File is not readable "
                       "(unknown extension : {})".format(extension))
@@ -347,22 +355,22 @@ def export_to_file(obj, filepath, compressed=True, **kw):
     if not isinstance(compressed, bool):
         # creating/filling up the file
         raise TypeError("'compressed' must be a boolean")
-    if compressed:
-        gc.disable()
-        if path.splitext(filepath)[1] != ".cimt":
-            filepath = filepath + ".cimt"
-        f = gzip.open(filepath, 'wb')
-        pickle.dump(obj, f, protocol=-1)
-        f.close()
-        gc.enable()
-    else:
-        gc.disable()
-        if path.splitext(filepath)[1] != ".imt":
-            filepath = filepath + ".imt"
-        f = open(filepath, 'wb')
-        pickle.dump(obj, f, protocol=-1)
-        f.close()
-        gc.enable()
+    gc_state = gc.isenabled()
+    gc.disable()
+    try:
+        if compressed:
+            if path.splitext(filepath)[1] != ".cimt":
+                filepath = filepath + ".cimt"
+            with gzip.open(filepath, 'wb') as f:
+                pickle.dump(obj, f, protocol=-1)
+        else:
+            if path.splitext(filepath)[1] != ".imt":
+                filepath = filepath + ".imt"
+            with open(filepath, 'wb') as f:
+                pickle.dump(obj, f, protocol=-1)
+    finally:
+        if gc_state:
+            gc.enable()
 
 
 def imts_to_imt(imts_path, imt_path, kind):
@@ -1918,69 +1926,65 @@ def export_to_ascii(obj, filepath):
     # obj type
     if isinstance(obj, VectorField):
         # open file
-        f = open(filepath, 'w')
-        # write header
-        header = "# X {}\tY {}\tVx {}\tVy {}\n"\
-                 .format(obj.unit_x.strUnit(),
-                         obj.unit_y.strUnit(),
-                         obj.unit_values.strUnit(),
-                         obj.unit_values.strUnit())
-        f.write(header)
-        # write data
-        for i, x in enumerate(obj.axe_x):
-            for j, y in enumerate(obj.axe_y):
-                f.write("{}\t{}\t{}\t{}\n".format(x, y, obj.comp_x[i, j],
-                                                  obj.comp_y[i, j]))
-        f.close()
+        with open(filepath, 'w') as f:
+            # write header
+            header = "# X {}\tY {}\tVx {}\tVy {}\n"\
+                     .format(obj.unit_x.strUnit(),
+                             obj.unit_y.strUnit(),
+                             obj.unit_values.strUnit(),
+                             obj.unit_values.strUnit())
+            f.write(header)
+            # write data
+            for i, x in enumerate(obj.axe_x):
+                for j, y in enumerate(obj.axe_y):
+                    f.write("{}\t{}\t{}\t{}\n".format(x, y, obj.comp_x[i, j],
+                                                      obj.comp_y[i, j]))
     elif isinstance(obj, ScalarField):
         # open file
-        f = open(filepath, 'w')
-        # write header
-        header = "# X {}\tY {}\tValue {}\n"\
-                 .format(obj.unit_x.strUnit(),
-                         obj.unit_y.strUnit(),
-                         obj.unit_values.strUnit())
-        f.write(header)
-        # write data
-        for i, x in enumerate(obj.axe_x):
-            for j, y in enumerate(obj.axe_y):
-                f.write("{}\t{}\t{}\n".format(x, y, obj.values[i, j]))
-        f.close()
+        with open(filepath, 'w') as f:
+            # write header
+            header = "# X {}\tY {}\tValue {}\n"\
+                     .format(obj.unit_x.strUnit(),
+                             obj.unit_y.strUnit(),
+                             obj.unit_values.strUnit())
+            f.write(header)
+            # write data
+            for i, x in enumerate(obj.axe_x):
+                for j, y in enumerate(obj.axe_y):
+                    f.write("{}\t{}\t{}\n".format(x, y, obj.values[i, j]))
     elif isinstance(obj, Profile):
         # open file
-        f = open(filepath, 'w')
-        # write header
-        header = "# X {}\tY {}\n"\
-                 .format(obj.unit_x.strUnit(),
-                         obj.unit_y.strUnit())
-        f.write(header)
-        # write data
-        for x, y in zip(obj.x, obj.y):
-            f.write("{}\t{}\n".format(x, y))
-        f.close()
-    elif isinstance(obj, Points):
-        # open file
-        f = open(filepath, 'w')
-        if len(obj.v) == 0:
+        with open(filepath, 'w') as f:
             # write header
             header = "# X {}\tY {}\n"\
                      .format(obj.unit_x.strUnit(),
                              obj.unit_y.strUnit())
             f.write(header)
             # write data
-            for x, y in zip(obj.xy[:, 0], obj.xy[:, 1]):
+            for x, y in zip(obj.x, obj.y):
                 f.write("{}\t{}\n".format(x, y))
-        else:
-            # write header
-            header = "# X {}\tY {}\tV {}\n"\
-                     .format(obj.unit_x.strUnit(),
-                             obj.unit_y.strUnit(),
-                             obj.unit_v.strUnit())
-            f.write(header)
-            # write data
-            for x, y, v in zip(obj.xy[:, 0], obj.xy[:, 1], obj.v):
-                f.write("{}\t{}\t{}\n".format(x, y, v))
-        f.close()
+    elif isinstance(obj, Points):
+        # open file
+        with open(filepath, 'w') as f:
+            if len(obj.v) == 0:
+                # write header
+                header = "# X {}\tY {}\n"\
+                         .format(obj.unit_x.strUnit(),
+                                 obj.unit_y.strUnit())
+                f.write(header)
+                # write data
+                for x, y in zip(obj.xy[:, 0], obj.xy[:, 1]):
+                    f.write("{}\t{}\n".format(x, y))
+            else:
+                # write header
+                header = "# X {}\tY {}\tV {}\n"\
+                         .format(obj.unit_x.strUnit(),
+                                 obj.unit_y.strUnit(),
+                                 obj.unit_v.strUnit())
+                f.write(header)
+                # write data
+                for x, y, v in zip(obj.xy[:, 0], obj.xy[:, 1], obj.v):
+                    f.write("{}\t{}\t{}\n".format(x, y, v))
     elif isinstance(obj, CritPoints):
         # get info from path
         basename = os.path.splitext(filepath)[0]
diff --git a/IMTreatment/utils/codeinteraction.py b/IMTreatment/utils/codeinteraction.py
index 95ae4ce..6fef15c 100644
--- a/IMTreatment/utils/codeinteraction.py
+++ b/IMTreatment/utils/codeinteraction.py
@@ -45,5 +45,5 @@ class RemoveFortranOutput(object):
     def __exit__(self, type, value, traceback):
         os.dup2(self.save[0], 1)
         os.dup2(self.save[1], 2)
-        os.close(self.null_fds[0])
-        os.close(self.null_fds[1])
+        for fd in list(self.null_fds) + list(self.save):
+            os.close(fd)
diff --git a/IMTreatment/utils/memoization.py b/IMTreatment/utils/memoization.py
index dcc8be3..a85d726 100644
--- a/IMTreatment/utils/memoization.py
+++ b/IMTreatment/utils/memoization.py
@@ -30,22 +30,29 @@ def memoize_to_file(file_name):
     """ Decorator that memoize the function result in a file. """
 
     def decorator(original_func):
+        gc_state = gc.isenabled()
         gc.disable()
         try:
             with gzip.open(file_name, 'rb') as f:
                 cache = pickle.load(f)
         except (IOError, ValueError):
             cache = {}
-        gc.enable()
+        finally:
+            if gc_state:
+                gc.enable()
 
         def new_func(*args, **kwargs):
             key = pickle.dumps((args, kwargs))
             if key not in cache:
                 cache[key] = original_func(*args, **kwargs)
+                gc_state = gc.isenabled()
                 gc.disable()
-                with gzip.open(file_name, 'wb') as f:
-                    pickle.dump(cache, f, protocol=-1)
-                gc.enable()
+                try:
+                    with gzip.open(file_name, 'wb') as f:
+                        pickle.dump(cache, f, protocol=-1)
+                finally:
+                    if gc_state:
+                        gc.enable()
             return cache[key]
 
         return new_func
-- 
2.43.0


From 7ab9b9711dd5326145ec774ec953fb8cdd1dd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:20 +0000
Subject: [PATCH 39/98] fix: coherence and graph layout depended on unseeded
 random numbers

---
 .../force_directed_algorithm/force_directed_algorithm.py       | 3 ++-
 IMTreatment/pod/pod.py                                         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/force_directed_algorithm/force_directed_algorithm.py b/IMTreatment/force_directed_algorithm/force_directed_algorithm.py
index bd227a5..e1c0baf 100644
--- a/IMTreatment/force_directed_algorithm/force_directed_algorithm.py
+++ b/IMTreatment/force_directed_algorithm/force_directed_algorithm.py
@@ -36,7 +36,8 @@ def FDG_optimization(nodes, edges, edge_weights, node_values):
     for edge, weight in zip(edges, edge_weights):
         graph.add_edge(*edge, weight=weight)
     # set initial position
-    init_pos = {node: (node_values[node], np.random.rand(1)) for node in nodes}
+    rand_gen = np.random.RandomState(0)
+    init_pos = {node: (node_values[node], rand_gen.rand(1)) for node in nodes}
     node_pos = nx.fruchterman_reingold_layout(graph, dim=2, weight="weight",
                                               iterations=500, pos=init_pos)
     plt.figure()
diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1c9bb7f..5723d1a 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -718,8 +718,9 @@ class ModalFields(Field):
                 return np.std(spec)
             # computing minimal variance
             min_std = 0.
+            rand_gen = np.random.RandomState(0)
             for i in np.arange(20):
-                min_std_field = np.random.rand(*shape)*2. - 1.
+                min_std_field = rand_gen.rand(*shape)*2. - 1.
                 min_std += get_field_spec_std(min_std_field)
             min_std /= 20.
             # computing maximal variance
-- 
2.43.0


From 2f6e3b957d1bbef73bce0a43e47b31310f7c4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:40 +0000
Subject: [PATCH 40/98] fix: make_unit_old needs re

---
 IMTreatment/utils/units.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index 23cdbe6..21470d3 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -23,6 +23,7 @@
 
 import numpy as np
 import ast
+import re
 import unum
 import unum.units as units
 try:
-- 
2.43.0


From f30eebbd8314e55db8cddfdfebb4fbefe4440211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:20 +0000
Subject: [PATCH 41/98] fix: close the matlab file on every exit, keep the
 animation settings local

---
 IMTreatment/core/temporalfields.py           |  17 +--
 IMTreatment/file_operation/file_operation.py | 117 ++++++++++---------
 2 files changed, 71 insertions(+), 63 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index fec5bdd..da9af06 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1767,13 +1767,16 @@ class TemporalFields(flds.Fields, fld.Field):
         import matplotlib
         if imagemagick_path is None:
             imagemagick_path = r"C:\Program Files\ImageMagick\convert.exe"
-        matplotlib.rc('animation', convert_path=imagemagick_path)
-        if kind == 'gif':
-            writer = matplotlib.animation.ImageMagickWriter(fps=fps,
-                                                            bitrate=bitrate)
-            anim.save(filepath, writer=writer, fps=fps, dpi=dpi)
-        elif kind == 'mp4':
-            anim.save(filepath, writer='fmpeg', fps=fps, bitrate=bitrate)
+        with matplotlib.rc_context({'animation.convert_path':
+                                    imagemagick_path}):
+            if kind == 'gif':
+                writer = matplotlib.animation.ImageMagickWriter(
+                    fps=fps, bitrate=bitrate)
+                anim.save(filepath, writer=writer, fps=fps, dpi=dpi)
+            elif kind == 'mp4':
+                anim.save(filepath, writer='ffmpeg', fps=fps, bitrate=bitrate)
+            else:
+                raise ValueError("Unknown animation kind: {}".format(kind))
 
     def _update_sf(self, num, fig, ax, displ, ttl, comp, compo, plotargs):
         plt.sca(ax)
diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 47c78b9..7245459 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -458,73 +458,78 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
         raise Exception('h5py needs to be installed to import from matlab.')
     filepath = check_path(filepath)
     # Get matlab dictionnary
+    h5file = None
     try:
         data = spio.loadmat(filepath)
         is_h5py = False
     except NotImplementedError:
-        data = h5py.File(filepath, 'r')
+        h5file = h5py.File(filepath, 'r')
+        data = h5file
         is_h5py = True
-    if isinstance(data, np.ndarray):
-        keys = list(data.dtype.fields.keys())
-    else:
-        keys = list(data.keys())
-    # pivmat !
-    dataf = None
-    if 'Data' in keys and 'P' in keys:
-        dataf = data
-        data = dataf['Data']
+    try:
         if isinstance(data, np.ndarray):
             keys = list(data.dtype.fields.keys())
         else:
             keys = list(data.keys())
-    # Create object
-    if obj == 'ScalarField':
-        res = ScalarField
-        default_dic = {'axe_x': 'axe_x', 'axe_y': 'axe_y', 'unit_x': 'unit_x',
-                       'unit_y': 'unit_y', 'values': 'values', 'mask': 'mask',
-                       'unit_values': 'unit_values'}
-    elif obj == 'VectorField':
-        res = VectorField
-        default_dic = {'axe_x': 'axe_x', 'axe_y': 'axe_y', 'comp_x': 'comp_x',
-                       'comp_y': 'comp_y', 'mask': 'mask', 'unit_x': 'unit_x',
-                       'unit_y': 'unit_y', 'unit_values': 'unit_values'}
-    elif obj == 'Profile':
-        res = Profile
-        default_dic = {'x': 'x', 'y': 'y', 'mask': 'mask', 'unit_x': 'unit_x',
-                       'unit_y': 'unit_y'}
-    elif obj == 'Points':
-        res = Points
-        default_dic = {'xy': 'xy', 'v': 'v', 'unit_x': 'unit_x',
-                       'unit_y': 'unit_y', 'unit_v': 'unit_v'}
-    else:
-        raise Exception()
-    default_dic.update(kwargs)
-    kwargs = default_dic
-    # Just show the structure
-    if show_struct:
-        if is_h5py:
-            print(f"Available keys in {filepath}:\n{keys})")
+        # pivmat !
+        dataf = None
+        if 'Data' in keys and 'P' in keys:
+            dataf = data
+            data = dataf['Data']
+            if isinstance(data, np.ndarray):
+                keys = list(data.dtype.fields.keys())
+            else:
+                keys = list(data.keys())
+        # Create object
+        if obj == 'ScalarField':
+            res = ScalarField
+            default_dic = {'axe_x': 'axe_x', 'axe_y': 'axe_y', 'unit_x': 'unit_x',
+                           'unit_y': 'unit_y', 'values': 'values', 'mask': 'mask',
+                           'unit_values': 'unit_values'}
+        elif obj == 'VectorField':
+            res = VectorField
+            default_dic = {'axe_x': 'axe_x', 'axe_y': 'axe_y', 'comp_x': 'comp_x',
+                           'comp_y': 'comp_y', 'mask': 'mask', 'unit_x': 'unit_x',
+                           'unit_y': 'unit_y', 'unit_values': 'unit_values'}
+        elif obj == 'Profile':
+            res = Profile
+            default_dic = {'x': 'x', 'y': 'y', 'mask': 'mask', 'unit_x': 'unit_x',
+                           'unit_y': 'unit_y'}
+        elif obj == 'Points':
+            res = Points
+            default_dic = {'xy': 'xy', 'v': 'v', 'unit_x': 'unit_x',
+                           'unit_y': 'unit_y', 'unit_v': 'unit_v'}
         else:
-            print(f"Available keys in {filepath}:"
-                  f"\n{keys}")
-        return data
-    # Create building dict
-    build_dic = {}
-    for key, entry in kwargs.items():
-        if entry in keys:
-            tdata = data[entry]
-            while not isinstance(tdata, str) and len(tdata) == 1:
-                tdata = tdata[0]
-            print(tdata)
-            if key in ['unit_x', 'unit_y', 'unit_values']:
-                if isinstance(tdata, str):
-                    build_dic[key] = tdata
-                else:
-                    build_dic[key] = ''.join(chr(n) for n in tdata)
+            raise Exception()
+        default_dic.update(kwargs)
+        kwargs = default_dic
+        # Just show the structure
+        if show_struct:
+            if is_h5py:
+                print(f"Available keys in {filepath}:\n{keys})")
             else:
-                build_dic[key] = np.array(tdata)
-    if is_h5py and dataf is not None:
-        dataf.close()
+                print(f"Available keys in {filepath}:"
+                      f"\n{keys}")
+            return data
+        # Create building dict
+        build_dic = {}
+        for key, entry in kwargs.items():
+            if entry in keys:
+                tdata = data[entry]
+                while not isinstance(tdata, str) and len(tdata) == 1:
+                    tdata = tdata[0]
+                print(tdata)
+                if key in ['unit_x', 'unit_y', 'unit_values']:
+                    if isinstance(tdata, str):
+                        build_dic[key] = tdata
+                    else:
+                        build_dic[key] = ''.join(chr(n) for n in tdata)
+                else:
+                    build_dic[key] = np.array(tdata)
+    finally:
+        # (the structure given back to the user has to stay readable)
+        if h5file is not None and not show_struct:
+            h5file.close()
     # Fix unities
     for key, item in build_dic.items():
         try:
-- 
2.43.0


From bb6ec37401cf52cdbb9cf7d50044683238281fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:41 +0000
Subject: [PATCH 42/98] fix: remove_files_in_dirs honours its depth and
 remove_files options

---
 IMTreatment/utils/files.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index bdba892..1f327f4 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -351,6 +351,12 @@ def remove_files_in_dirs(rootpath, dir_regex, file_regex,
     file_paths = []
     nmb_tot_files = 0
     for root, dirs, files in os.walk(rootpath):
+        # check depth
+        if depth != 'all':
+            sub_path = os.path.relpath(root, rootpath)
+            if sub_path != os.curdir and \
+                    sub_path.count(os.path.sep) >= depth:
+                continue
         nmb_tot_files += len(files)
         if re.match(dir_regex, root):
             tmp_nmb_files = 0
@@ -382,7 +388,7 @@ def remove_files_in_dirs(rootpath, dir_regex, file_regex,
             rep = False
             break
     # remove if necessary
-    if rep:
+    if rep and remove_files:
         print("")
         PG = ProgressCounter(init_mess="Begin cleaning",
                              nmb_max=len(file_paths),
-- 
2.43.0


From 139135c65ace7577459656cf68ef74942d5e0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:39 +0000
Subject: [PATCH 43/98] fix: modal decomposition queries left modes and
 profiles modified, stale cached coherence after a crop

---
 IMTreatment/pod/pod.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 5723d1a..8e061ac 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -303,6 +303,7 @@ class ModalFields(Field):
                                             inplace=True)
             tmp_mf.mean_field.crop(intervx=intervx, intervy=intervy, ind=ind,
                                    inplace=True)
+            tmp_mf._ModalFields__spat_coh = None
             # loop on modes
             for mode in tmp_mf.modes:
                 mode.crop(intervx=intervx, intervy=intervy,
@@ -668,7 +669,7 @@ class ModalFields(Field):
             self._ModalFields__temp_coh = var_spec
         # returning
         if raw:
-            return var_spec
+            return var_spec.copy()
         else:
             prof = Profile(np.arange(len(self.modes)), var_spec, unit_x='',
                            unit_y='', name="")
@@ -711,7 +712,7 @@ class ModalFields(Field):
             center_y = np.int(len(axe_y)/2.)
 
             def get_field_spec_std(data):
-                data -= np.mean(data)
+                data = data - np.mean(data)
                 spec = np.abs(np.real(np.fft.rfft2(data)))
                 spec = np.fft.fftshift(spec)
                 spec /= spint.simps(spint.simps(spec))
@@ -749,7 +750,7 @@ class ModalFields(Field):
             # storing in object
             self._ModalFields__spat_coh = var_spec
         if raw:
-            return var_spec
+            return var_spec.copy()
         else:
             prof = Profile(np.arange(len(self.modes)), var_spec, unit_x='',
                            unit_y='', name="")
@@ -831,8 +832,10 @@ class ModalFields(Field):
             self.temp_evo[1].display(color='k')
             plt.title("Temporal evolution of mode 2")
         elif self.decomp_type == 'dmd':
-            self.pulsation.change_unit('y', 'rad/s')
-            self.growth_rate.change_unit('y', '1/s')
+            pulsation = self.pulsation.copy()
+            pulsation.change_unit('y', 'rad/s')
+            growth_rate = self.growth_rate.copy()
+            growth_rate.change_unit('y', '1/s')
             plt.figure(figsize=figsize)
             plt.subplot(2, 3, 1)
             plt.plot(np.real(self.ritz_vals.y), np.imag(self.ritz_vals.y),
@@ -843,24 +846,24 @@ class ModalFields(Field):
             plt.xlim(-1, 1)
             plt.ylim(-1, 1)
             plt.subplot(2, 3, 2)
-            plt.plot(self.pulsation.y, self.growth_rate.y, 'ko')
+            plt.plot(pulsation.y, growth_rate.y, 'ko')
             plt.title("Growth rate spectrum")
             plt.xlabel("Pulsation [rad/s]")
             plt.ylabel("Growth rate [1/s]")
             x_max = np.max([np.abs(plt.xlim()[0]), np.abs(plt.xlim()[1])])
             plt.xlim(-x_max, x_max)
             plt.subplot(2, 3, 3)
-            sorted_omega = np.sort(self.pulsation.y)
+            sorted_omega = np.sort(pulsation.y)
             delta_omega = np.mean(np.abs(sorted_omega[1::] -
                                   sorted_omega[0:-1:]))
             width = delta_omega/2.
-            plt.bar(self.pulsation.y - width/2., self.mode_norms.y,
+            plt.bar(pulsation.y - width/2., self.mode_norms.y,
                     width=width)
             plt.title("Mode amplitude spectrum")
             plt.xlabel("Pulsation [rad/s]")
             plt.ylabel("Mode amplitude []")
             plt.subplot(2, 3, 5)
-            stab_sort = np.argsort(np.abs(self.growth_rate.y))
+            stab_sort = np.argsort(np.abs(growth_rate.y))
             tmp_sf = self.modes[stab_sort[0]].copy()
             if isinstance(tmp_sf, ScalarField):
                 tmp_sf.values = np.real(tmp_sf.values)
@@ -870,7 +873,7 @@ class ModalFields(Field):
             tmp_sf.display()
             plt.title("More stable mode (pulsation={:.2f})\n"
                       "(Real representation)"
-                      .format(self.pulsation.y[stab_sort[-0]]))
+                      .format(pulsation.y[stab_sort[-0]]))
             plt.subplot(2, 3, 4)
             tmp_prof = self.get_modes_energy()
             tmp_prof.y /= np.sum(tmp_prof.y)
-- 
2.43.0


From dc1cd24771609a0373d007251179c9c1b861bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:39 +0000
Subject: [PATCH 44/98] fix: compounded vectors used outdated imaginary
 vortices

---
 IMTreatment/vortex_creation/vortex_creation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 9c13636..01e76de 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -892,6 +892,9 @@ class VortexSystem(object):
         cf_ids : Mx1 array of integer
             Associated id
         """
+        # refesh if necessary
+        if self.to_refresh:
+            self.refresh_imaginary_vortex()
         vects = []
         vects_cf = []
         if detailed:
-- 
2.43.0


From d69191b39da726d3dec0b55e69ecd1dffc8831e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:43 +0000
Subject: [PATCH 45/98] fix: display_recap plots the converted pulsations
 everywhere

---
 IMTreatment/pod/pod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 8e061ac..ac07635 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -877,7 +877,7 @@ class ModalFields(Field):
             plt.subplot(2, 3, 4)
             tmp_prof = self.get_modes_energy()
             tmp_prof.y /= np.sum(tmp_prof.y)
-            plt.plot(self.pulsation.y, tmp_prof.y, 'ko')
+            plt.plot(pulsation.y, tmp_prof.y, 'ko')
             plt.title('Modes energy')
             plt.ylabel("Normalized kinetic energy []")
             plt.xlabel("Pulsation [rad/s]")
@@ -893,7 +893,7 @@ class ModalFields(Field):
             tmp_sf.display()
             plt.title("Mode with the bigger norm (pulsation={:.2f})\n"
                       "(Real representation)"
-                      .format(self.pulsation.y[norm_sort[-1]]))
+                      .format(pulsation.y[norm_sort[-1]]))
         plt.tight_layout()
 
 
-- 
2.43.0


From 61455bc2206c83e0adbedd3ffb57978b60e23a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:41 +0000
Subject: [PATCH 46/98] fix: drop the cached coherence when modes or temporal
 evolutions change

---
 IMTreatment/pod/pod.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index ac07635..03990c3 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -341,6 +341,8 @@ class ModalFields(Field):
         for i in range(len(tmp_mf.modes)):
             tmp_mf.modes[i].scale(scalex=scalex, scaley=scaley,
                                   inplace=True)
+        tmp_mf._ModalFields__spat_coh = None
+        tmp_mf._ModalFields__temp_coh = None
         # return
         if not inplace:
             return tmp_mf
@@ -363,10 +365,12 @@ class ModalFields(Field):
         if inplace:
             for n in np.arange(len(self.modes)):
                 self.temp_evo[n].smooth(tos=tos, size=size, inplace=True)
+            self._ModalFields__temp_coh = None
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
                 tmp_MF.temp_evo[n].smooth(tos=tos, size=size, inplace=True)
+            tmp_MF._ModalFields__temp_coh = None
             return tmp_MF
 
     def smooth_spatial_evolutions(self, tos='uniform', size=None, inplace=True):
@@ -386,10 +390,12 @@ class ModalFields(Field):
         if inplace:
             for n in np.arange(len(self.modes)):
                 self.modes[n].smooth(tos=tos, size=size, inplace=True)
+            self._ModalFields__spat_coh = None
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
                 tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
+            tmp_MF._ModalFields__spat_coh = None
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
-- 
2.43.0


From a8261fe56946b11f027625602862fcbbd7115fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 47/98] fix: reduce_spatial_resolution(inplace=True) lost the
 units, odd factors crashed

---
 IMTreatment/core/scalarfield.py | 20 +++++++++++---------
 IMTreatment/core/vectorfield.py |  6 +++---
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 8e972b2..4b9d7d4 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -2036,16 +2036,16 @@ class ScalarField(fld.Field):
                                                    [~mask[intervx, intervy]])
 
         else:
-            inds_x = np.arange((fact - 1)/2, len(axe_x) - (fact - 1)/2, fact)
-            inds_y = np.arange((fact - 1)/2, len(axe_y) - (fact - 1)/2, fact)
+            inds_x = np.arange((fact - 1)//2, len(axe_x) - (fact - 1)//2, fact)
+            inds_y = np.arange((fact - 1)//2, len(axe_y) - (fact - 1)//2, fact)
             new_values = np.zeros((len(inds_x), len(inds_y)))
             new_mask = np.zeros((len(inds_x), len(inds_y)))
             for i in np.arange(len(inds_x)):
-                intervx = slice(inds_x[i] - (fact - 1)/2,
-                                inds_x[i] + (fact - 1)/2 + 1)
+                intervx = slice(inds_x[i] - (fact - 1)//2,
+                                inds_x[i] + (fact - 1)//2 + 1)
                 for j in np.arange(len(inds_y)):
-                    intervy = slice(inds_y[j] - (fact - 1)/2,
-                                    inds_y[j] + (fact - 1)/2 + 1)
+                    intervy = slice(inds_y[j] - (fact - 1)//2,
+                                    inds_y[j] + (fact - 1)//2 + 1)
                     if np.all(mask[intervx, intervy]):
                         new_mask[i, j] = True
                         new_values[i, j] = 0.
@@ -2056,12 +2056,14 @@ class ScalarField(fld.Field):
         new_values = np.array(new_values, dtype=self._values_dtype)
         # returning
         if inplace:
+            unit_x, unit_y = self.unit_x, self.unit_y
+            unit_values, dtype = self.unit_values, self._values_dtype
             self.__init__()
             self.import_from_arrays(new_axe_x, new_axe_y, new_values,
                                     mask=new_mask,
-                                    unit_x=self.unit_x, unit_y=self.unit_y,
-                                    unit_values=self.unit_values,
-                                    dtype=self._values_dtype)
+                                    unit_x=unit_x, unit_y=unit_y,
+                                    unit_values=unit_values,
+                                    dtype=dtype)
 
         else:
             sf = ScalarField()
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index e25426a..73a8c3a 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1212,9 +1212,9 @@ class VectorField(field.Field):
             self.__init__()
             self.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values,
                                     Vy.values,
-                                    mask=Vx.mask, unit_x=self.unit_x,
-                                    unit_y=self.unit_y,
-                                    unit_values=self.unit_values)
+                                    mask=Vx.mask, unit_x=Vx.unit_x,
+                                    unit_y=Vx.unit_y,
+                                    unit_values=Vx.unit_values)
         else:
             vf = VectorField()
             vf.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values, Vy.values,
-- 
2.43.0


From ed1e0a45b0b6098f0591da933bd90d7c0e471dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 48/98] fix: fields of mask booleans carried the unit of the
 values

---
 IMTreatment/core/scalarfield.py | 2 +-
 IMTreatment/core/vectorfield.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 4b9d7d4..9b25d69 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -380,7 +380,7 @@ class ScalarField(fld.Field):
         tmp_sf.import_from_arrays(self.axe_x, self.axe_y, self.mask,
                                   mask=False, unit_x=self.unit_x,
                                   unit_y=self.unit_y,
-                                  unit_values=self.unit_values)
+                                  unit_values='')
         return tmp_sf
 
     @property
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 73a8c3a..807e077 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -384,7 +384,7 @@ class VectorField(field.Field):
         tmp_sf.import_from_arrays(self.axe_x, self.axe_y, self.mask,
                                   mask=False, unit_x=self.unit_x,
                                   unit_y=self.unit_y,
-                                  unit_values=self.unit_values)
+                                  unit_values='')
         return tmp_sf
 
     @property
-- 
2.43.0


From c5a0095dc1f323b30e3891df2ca4c27236f4f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 49/98] fix: VectorField times ScalarField ignored the unit of
 the scalar field

---
 IMTreatment/core/vectorfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 807e077..a850b87 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -231,9 +231,12 @@ class VectorField(field.Field):
             if other.shape != self.shape:
                 raise ValueError()
             tmpvf = self.copy()
-            tmpvf.comp_x *= other.values
-            tmpvf.comp_y *= other.values
+            unit = self.unit_values * other.unit_values
+            fact = unit.asNumber()
+            tmpvf.comp_x = self.comp_x * other.values * fact
+            tmpvf.comp_y = self.comp_y * other.values * fact
             tmpvf.mask = np.logical_or(other.mask, self.mask)
+            tmpvf.unit_values = unit/fact
             return tmpvf
         else:
             raise TypeError("You cannot multiply Vectorfields object "
-- 
2.43.0


From 965eda9911a6132f4e8546604effcc94d94b622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 50/98] fix: adding a quantity with another dimension was
 accepted, adding profiles used the inverse unit factor

---
 IMTreatment/core/profile.py     | 10 ++++++++--
 IMTreatment/core/vectorfield.py |  5 +++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 55b1e87..c805597 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -102,6 +102,11 @@ class Profile(object):
             name = self.name
             mask = self.mask
         elif isinstance(otherone, unum.Unum):
+            try:
+                self.unit_y + otherone
+            except:
+                raise ValueError("Given number have to be consistent with "
+                                 "the profile (same units)")
             y = self.y + (otherone/self.unit_y).asNumber()
             name = self.name
             mask = self.mask
@@ -113,9 +118,10 @@ class Profile(object):
                 raise ValueError("Profiles have not the same unit system")
             if not len(self.x) == len(otherone.x):
                 raise ValueError("Profiles have not the same length")
-            if not all(self.x == otherone.x):
+            fact_x = (otherone.unit_x/self.unit_x).asNumber()
+            if not all(self.x == otherone.x*fact_x):
                 raise ValueError("Profiles have not the same x axis")
-            y = self.y + (self.unit_y/otherone.unit_y*otherone.y).asNumber()
+            y = self.y + otherone.y*(otherone.unit_y/self.unit_y).asNumber()
             name = ""
             mask = np.logical_or(self.mask, otherone.mask)
         else:
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index a850b87..1993608 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -138,6 +138,11 @@ class VectorField(field.Field):
             else:
                 raise ValueError()
         elif isinstance(other, unum.Unum):
+            try:
+                self.unit_values + other
+            except:
+                raise ValueError("Given number have to be consistent with "
+                                 "the vector field (same units)")
             tmpvf = self.copy()
             fact = (other / self.unit_values).asNumber()
             tmpvf.comp_x = self.comp_x + fact
-- 
2.43.0


From 35bd9552b5d0bcc1971ee4e9fef956d71db28374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 51/98] fix: product and convolution of profiles ignored the
 unit conversion factor

---
 IMTreatment/core/profile.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index c805597..5a744ee 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -147,12 +147,12 @@ class Profile(object):
             y = self.y*new_unit_y.asNumber()
             new_unit_y = new_unit_y/new_unit_y.asNumber()
         elif isinstance(otherone, Profile):
-            if np.any(otherone.x - self.x > 1e-6*np.mean(abs(self.x))):
-                raise ValueError("Given profiles does'nt share the same"
-                                 " x axis")
             if not otherone.unit_x == self.unit_x:
                 raise ValueError("Given profiles does'nt share the same"
                                  " x units")
+            if np.any(otherone.x - self.x > 1e-6*np.mean(abs(self.x))):
+                raise ValueError("Given profiles does'nt share the same"
+                                 " x axis")
             # get shared x
             # TODO : find another way to deal with quasi equal values
             dx = self.x[1] - self.x[0]
@@ -176,6 +176,8 @@ class Profile(object):
             mask = np.logical_or(self.mask[filt_self],
                                  otherone.mask[filt_other])
             unit_y = self.unit_y*otherone.unit_y
+            values = values*unit_y.asNumber()
+            unit_y = unit_y/unit_y.asNumber()
             tmp_prof = Profile(x, values, mask=mask, unit_x=self.unit_x,
                                unit_y=unit_y)
             return tmp_prof
@@ -1194,11 +1196,12 @@ class Profile(object):
             raise Exception("Profiles should have the same x unit")
         dx = self.x[1] - self.x[0]
         # get convolution
-        conv = np.convolve(self.y, other_prof.y, mode=mode)
+        unit_y = self.unit_y*other_prof.unit_y
+        conv = np.convolve(self.y, other_prof.y, mode=mode)*unit_y.asNumber()
         # store in a profile
         conv_prof = Profile(np.arange(0, dx*len(conv), dx),
                             conv, unit_x=self.unit_x,
-                            unit_y=self.unit_y*other_prof.unit_y)
+                            unit_y=unit_y/unit_y.asNumber())
         # return
         return conv_prof
 
-- 
2.43.0


From adac410afcf372af118e8b3b87bed32b855046df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:12 +0000
Subject: [PATCH 52/98] fix: adding points in other units used the inverse
 conversion factor

---
 IMTreatment/core/points.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index c9c94db..61a276b 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -102,15 +102,15 @@ class Points(object):
                 new_xy = self.xy
             elif self.xy.shape == (0,):
                 xy = another.xy.copy()
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = xy
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
                 xy = another.xy.copy()
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
             # testing v presence
             v_presence = True
@@ -126,11 +126,11 @@ class Points(object):
                 if self.v is None and another.v is None:
                     v = np.array([])
                 elif self.v is None:
-                    v = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v = another.v*(another.unit_v/self.unit_v).asNumber()
                 elif another.v is None:
                     v = self.v
                 else:
-                    v_tmp = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v_tmp = another.v*(another.unit_v/self.unit_v).asNumber()
                     v = np.append(self.v, v_tmp)
                 return Points(new_xy, v,
                               unit_x=self.unit_x,
-- 
2.43.0


From c2de97aa0ca35440abb0416c7539720c3469dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 53/98] fix: adding fields, dividing profiles compared axes
 given in different units as bare numbers

---
 IMTreatment/core/profile.py     |  3 ++-
 IMTreatment/core/scalarfield.py | 15 +++++++++------
 IMTreatment/core/vectorfield.py | 15 +++++++++------
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 5a744ee..442f84f 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -202,7 +202,8 @@ class Profile(object):
             name = self.name
             unit_y = tmpunit/tmpunit.asNumber()
         elif isinstance(otherone, Profile):
-            if not np.all(self.x == otherone.x):
+            if not (self.unit_x == otherone.unit_x and
+                    np.all(self.x == otherone.x)):
                 raise ValueError("Profile has to have identical x axis in "
                                  "order to divide them")
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 9b25d69..83e3d37 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -87,9 +87,12 @@ class ScalarField(fld.Field):
                 self.unit_y + otherone.unit_y
             except:
                 raise ValueError("I think these units don't match, fox")
+            # axis in the same units
+            axe_x_o = otherone.axe_x*(otherone.unit_x/self.unit_x).asNumber()
+            axe_y_o = otherone.axe_y*(otherone.unit_y/self.unit_y).asNumber()
             # identical shape and axis
-            if np.all(self.axe_x == otherone.axe_x) and \
-                    np.all(self.axe_y == otherone.axe_y):
+            if np.all(self.axe_x == axe_x_o) and \
+                    np.all(self.axe_y == axe_y_o):
                 tmpsf = self.copy()
                 fact = otherone.unit_values/self.unit_values
                 tmpsf.values += np.array(otherone.values*fact.asNumber(),
@@ -98,14 +101,14 @@ class ScalarField(fld.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([val in otherone.axe_x
+                new_ind_x = np.array([val in axe_x_o
                                       for val in self.axe_x])
-                new_ind_y = np.array([val in otherone.axe_y
+                new_ind_y = np.array([val in axe_y_o
                                       for val in self.axe_y])
                 new_ind_xo = np.array([val in self.axe_x
-                                       for val in otherone.axe_x])
+                                       for val in axe_x_o])
                 new_ind_yo = np.array([val in self.axe_y
-                                       for val in otherone.axe_y])
+                                       for val in axe_y_o])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
                     raise ValueError("Incompatible shapes")
                 new_ind_Y, new_ind_X = np.meshgrid(new_ind_y, new_ind_x)
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 1993608..c640f97 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -64,9 +64,12 @@ class VectorField(field.Field):
                 self.unit_y + other.unit_y
             except:
                 raise ValueError("I think these units don't match, fox")
+            # axis in the same units
+            axe_x_o = other.axe_x*(other.unit_x/self.unit_x).asNumber()
+            axe_y_o = other.axe_y*(other.unit_y/self.unit_y).asNumber()
             # identical shape and axis
-            if np.all(self.axe_x == other.axe_x) and \
-                    np.all(self.axe_y == other.axe_y):
+            if np.all(self.axe_x == axe_x_o) and \
+                    np.all(self.axe_y == axe_y_o):
                 tmpvf = self.copy()
                 fact = (other.unit_values/self.unit_values).asNumber()
                 tmpvf.comp_x = self.comp_x + other.comp_x*fact
@@ -76,18 +79,18 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <
+                new_ind_x = np.array([np.any(np.abs(val - axe_x_o) <
                                       np.abs(val)*1e-4)
                                       for val in self.axe_x])
-                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <
+                new_ind_y = np.array([np.any(np.abs(val - axe_y_o) <
                                       np.abs(val)*1e-4)
                                       for val in self.axe_y])
                 new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <
                                        np.abs(val)*1e-4)
-                                       for val in other.axe_x])
+                                       for val in axe_x_o])
                 new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <
                                        np.abs(val)*1e-4)
-                                       for val in other.axe_y])
+                                       for val in axe_y_o])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
                     raise ValueError("Incompatible shapes")
                 new_ind_Y, new_ind_X = np.meshgrid(new_ind_y, new_ind_x)
-- 
2.43.0


From 1ae011456e60f240b4cc1e73e4ccc68a1307d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 54/98] fix: setting unit_times from a string had no effect

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index da9af06..d2bb12d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -265,7 +265,7 @@ class TemporalFields(flds.Fields, fld.Field):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From 464bef3974b4f4ce5c88042b2d15d6e0187e987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 55/98] fix: add_field used the inverse time conversion factor

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index d2bb12d..23cdd8e 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1134,7 +1134,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
-- 
2.43.0


From 7cb79e050d7b4da4e65710ebe9aba7f41f76dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:42 +0000
Subject: [PATCH 56/98] fix: TemporalPoints: unit_times as a string had no
 effect, inverse time factor in add_pts

---
 IMTreatment/core/temporalpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index c8db31f..db52d86 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -107,7 +107,7 @@ class TemporalPoints(object):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
@@ -218,7 +218,7 @@ class TemporalPoints(object):
         # if not
         else:
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         self.point_sets.append(pt)
-- 
2.43.0


From be42659ca0e1940fdfb6af194e455594421e1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:42 +0000
Subject: [PATCH 57/98] fix: operations on temporal fields lost the times;
 fields with another y axis were accepted

---
 IMTreatment/core/temporalfields.py | 47 ++++++++++++++++++------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 23cdd8e..eb967a8 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -63,12 +63,14 @@ class TemporalFields(flds.Fields, fld.Field):
             return tmp_TF
         elif isinstance(other, self.__class__):
             tmp_tf = self.copy()
-            if np.all(self.times == other.times):
+            fact = (other.unit_times/self.unit_times).asNumber()
+            if np.array_equal(self.times, other.times*fact):
                 for i in np.arange(len(self.fields)):
                     tmp_tf.fields[i] += other.fields[i]
             else:
                 for i in np.arange(len(other.fields)):
-                    tmp_tf.add_field(other.fields[i])
+                    tmp_tf.add_field(other.fields[i], time=other.times[i],
+                                     unit_times=other.unit_times)
             return tmp_tf
         else:
             tmp_TF = self.copy()
@@ -92,19 +94,22 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.all(self.axe_x == other.axe_x) and
+                    np.all(self.axe_y == other.axe_y)):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not (self.unit_times == other.unit_times and
+                    np.all(self.times == other.times)):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]*other.fields[i])
+                vfs.add_field(self.fields[i]*other.fields[i], time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            for i, field in enumerate(self.fields):
+                final_vfs.add_field(field*other, time=self.times[i],
+                                    unit_times=self.unit_times)
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -116,27 +121,30 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.all(self.axe_x == other.axe_x) and
+                    np.all(self.axe_y == other.axe_y)):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not (self.unit_times == other.unit_times and
+                    np.all(self.times == other.times)):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other.fields[i])
+                vfs.add_field(self.fields[i]/other.fields[i], time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.all(self.axe_x == other.axe_x) and
+                    np.all(self.axe_y == other.axe_y)):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other)
+                vfs.add_field(self.fields[i]/other, time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
             for i, field in enumerate(self.fields):
-                final_vfs.add_field(other, time=self.times[i],
+                final_vfs.add_field(field/other, time=self.times[i],
                                     unit_times=self.unit_times)
             return final_vfs
         else:
@@ -149,8 +157,9 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
         final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        for i, field in enumerate(self.fields):
+            final_vfs.add_field(np.power(field, number), time=self.times[i],
+                                unit_times=self.unit_times)
         return final_vfs
 
     def __iter__(self):
@@ -1130,7 +1139,7 @@ class TemporalFields(flds.Fields, fld.Field):
             # checking axis
             axe_x, axe_y = self.axe_x, self.axe_y
             vaxe_x, vaxe_y = field.axe_x, field.axe_y
-            if not np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y):
+            if not (np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-- 
2.43.0


From abc16c5f2cfd87d7235ac0289b78674718d6c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:49 +0000
Subject: [PATCH 58/98] fix: background fields lost or ignored the unit of the
 values

---
 IMTreatment/core/temporalscalarfields.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 978ee7a..8df56ac 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -147,7 +147,8 @@ class TemporalScalarFields(tf.TemporalFields):
                               axe_y=self.axe_y,
                               values=values,
                               unit_x=self.unit_x,
-                              unit_y=self.unit_y)
+                              unit_y=self.unit_y,
+                              unit_values=self.unit_values)
         return bg
 
     def substract_background(self, bg, noise_level=10,
@@ -177,7 +178,9 @@ class TemporalScalarFields(tf.TemporalFields):
         """
         # data
         ntf = self.copy()
-        bg_mean = bg.mean
+        fact = (bg.unit_values/self.unit_values).asNumber()
+        bg_values = bg.values*fact
+        bg_mean = bg.mean*fact
         if filling_value is None:
             filling_value = bg_mean
         if verbose:
@@ -188,8 +191,8 @@ class TemporalScalarFields(tf.TemporalFields):
         for n in range(len(ntf)):
             # Get foreground
             values = ntf.fields[n].values
-            mask = np.logical_and(values < bg.values + noise_level,
-                                  bg.values - noise_level < values)
+            mask = np.logical_and(values < bg_values + noise_level,
+                                  bg_values - noise_level < values)
             # get foreground and background avg
             if blend:
                 fg_mean = np.mean(values[~mask])
-- 
2.43.0


From c334041bebaa0d892c11e6917b0bbece798057f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:49 +0000
Subject: [PATCH 59/98] fix: get_phase_map used the number of fields as a time
 and transposed the maps

---
 IMTreatment/core/temporalscalarfields.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 8df56ac..f27b36f 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -234,6 +234,7 @@ class TemporalScalarFields(tf.TemporalFields):
         compo = "values"
         if tf is None:
             tf = len(self.fields)
+        wanted_times = [self.times[0], self.times[tf - 1]]
         # select spectrum to display
         if check_spec is not None:
             check_spec_inds = np.random.choice(range(self.shape[0] *
@@ -250,7 +251,7 @@ class TemporalScalarFields(tf.TemporalFields):
                     pg.print_progress()
                 # get profile
                 profile = self.get_time_profile(compo, (x, y),
-                                                wanted_times=[0, tf])
+                                                wanted_times=wanted_times)
                 prof = profile.y
                 dx = profile.x[1] - profile.x[0]
                 # get fft
@@ -279,14 +280,14 @@ class TemporalScalarFields(tf.TemporalFields):
         norm = sf.ScalarField()
         norm.import_from_arrays(axe_x=self.axe_x,
                                 axe_y=self.axe_y,
-                                values=norms.transpose(),
+                                values=norms,
                                 unit_x=self.unit_x,
                                 unit_y=self.unit_y,
-                                unit_values="")
+                                unit_values=self.unit_values)
         phase = sf.ScalarField()
         phase.import_from_arrays(axe_x=self.axe_x,
                                  axe_y=self.axe_y,
-                                 values=phases.transpose(),
+                                 values=phases,
                                  unit_x=self.unit_x,
                                  unit_y=self.unit_y,
                                  unit_values="rad")
-- 
2.43.0


From da0ebb21ecea6009fd4e5753b387d0b6a7e19c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:49 +0000
Subject: [PATCH 60/98] fix: cropping a dmd base gave the mode profiles the
 units of the eigenvalues

---
 IMTreatment/pod/pod.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 03990c3..274800b 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -196,14 +196,14 @@ class ModalFields(Field):
                                   unit_y=self.eigvals.unit_y)
             new_eigvects = []
         elif self.decomp_type == "dmd":
-            new_growth_rate = Profile(unit_x=self.eigvals.unit_x,
-                                      unit_y=self.eigvals.unit_y)
-            new_mode_norms = Profile(unit_x=self.eigvals.unit_x,
-                                     unit_y=self.eigvals.unit_y)
-            new_pulsation = Profile(unit_x=self.eigvals.unit_x,
-                                    unit_y=self.eigvals.unit_y)
-            new_ritz_vals = Profile(unit_x=self.eigvals.unit_x,
-                                    unit_y=self.eigvals.unit_y)
+            new_growth_rate = Profile(unit_x=self.growth_rate.unit_x,
+                                      unit_y=self.growth_rate.unit_y)
+            new_mode_norms = Profile(unit_x=self.mode_norms.unit_x,
+                                     unit_y=self.mode_norms.unit_y)
+            new_pulsation = Profile(unit_x=self.pulsation.unit_x,
+                                    unit_y=self.pulsation.unit_y)
+            new_ritz_vals = Profile(unit_x=self.ritz_vals.unit_x,
+                                    unit_y=self.ritz_vals.unit_y)
         else:
             raise Exception('Not implemented for {}'.format(self.decomp_type))
         # loop on wanted modes
-- 
2.43.0


From 2974969a00b42e8f6a136203239bb886e6df7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:49 +0000
Subject: [PATCH 61/98] fix: compute_pressure_from_velocity relabelled the axes
 in metres

---
 IMTreatment/potential_flow/potential_flow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index 9469054..c876ce0 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -283,7 +283,8 @@ class System(object):
             else:
                 sf = ScalarField()
                 sf.import_from_arrays(grid_x, grid_y, cp, mask=mask,
-                                      unit_x='m', unit_y='m', unit_values='')
+                                      unit_x=obj.unit_x, unit_y=obj.unit_y,
+                                      unit_values='')
                 return sf
         elif isinstance(obj, (tuple, list)):
             if isinstance(obj[0], Profile):
-- 
2.43.0


From 534372bfed93e0e02f005d1b79bcd99c4aaa109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:49 +0000
Subject: [PATCH 62/98] fix: reconstruct_from_gradients ignored the units of
 the second gradient

---
 IMTreatment/field_treatment/field_treatment.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index a20064f..1c9f339 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -217,7 +217,8 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
         Vy = reconstruct_from_gradients(field2_dx, field2_dy, ols=ols)
         mask = np.logical_or(Vx.mask, Vy.mask)
         V = VectorField()
-        V.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values, Vy.values,
+        fact = (Vy.unit_values/Vx.unit_values).asNumber()
+        V.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values, Vy.values*fact,
                              mask=mask, unit_x=Vx.unit_x, unit_y=Vx.unit_y,
                              unit_values=Vx.unit_values)
         return V
@@ -225,11 +226,13 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
     else:
         ### getting data
         axe_x = field_dx.axe_x
-        axe_y = field_dy.axe_y
+        axe_y = field_dx.axe_y
         dx = axe_x[1] - axe_x[0]
         dy = axe_y[1] - axe_y[0]
         du_dx = field_dx.values
-        du_dy = field_dy.values
+        fact = field_dy.unit_values*field_dx.unit_y
+        fact = (fact/(field_dx.unit_values*field_dx.unit_x)).asNumber()
+        du_dy = field_dy.values*fact
         unit_values = field_dx.unit_values*field_dx.unit_x
         fact_unit_values = unit_values.asNumber()
         unit_values /= unit_values.asNumber()
-- 
2.43.0


From 40724246d557cf232658926c1ca40d9a6150cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:19 +0000
Subject: [PATCH 63/98] fix: get_gamma kind 'gamma1b' carries the unit of the
 velocity it is multiplied with

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 7cc4325..d3bfc5d 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -301,9 +301,13 @@ def get_gamma(vectorfield, radius=None, ind=False, kind='gamma1', mask=None,
     else:
         gamma_sf = ScalarField()
         unit_x, unit_y = vectorfield.unit_x, vectorfield.unit_y
+        if kind == 'gamma1b':
+            unit_values = vectorfield.unit_values
+        else:
+            unit_values = make_unit('')
         gamma_sf.import_from_arrays(axe_x, axe_y, gammas, mask,
                                     unit_x=unit_x, unit_y=unit_y,
-                                    unit_values=make_unit(''))
+                                    unit_values=unit_values)
         return gamma_sf
 
 
-- 
2.43.0


From 52a8d6e99e65d2921a01d2bce640544fcc3a31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:19 +0000
Subject: [PATCH 64/98] fix: mean trajectories own copies of the trajectories
 they are based on

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 7fd7496..4f1ae16 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -984,7 +984,7 @@ class CritPoints(object):
                         av_t = tmp_t.copy()
                         used[i] = True
                         used_traj_inds.append(i)
-                        used_trajs.append(traj)
+                        used_trajs.append(traj.copy())
                         nmb_traj_used += 1
                         continue
                     # actualize reference
@@ -1021,7 +1021,7 @@ class CritPoints(object):
                     av_t.add_points(tmp_t)
                     used[i] = True
                     used_traj_inds.append(i)
-                    used_trajs.append(traj)
+                    used_trajs.append(traj.copy())
                     nmb_traj_used += 1
             # if no remaining trajectories, end the While loop
             if av_x is None:
-- 
2.43.0


From b3fb5b835f9567896f9894e487888686e75f2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:05 +0000
Subject: [PATCH 65/98] fix: smooth(inplace=True) filled the object before
 rejecting an unknown kind of smoothing

---
 IMTreatment/core/profile.py     | 2 ++
 IMTreatment/core/scalarfield.py | 2 ++
 IMTreatment/core/vectorfield.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 442f84f..1cdaaf7 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1795,6 +1795,8 @@ class Profile(object):
         """
         if not isinstance(tos, STRINGTYPES):
             raise TypeError("'tos' must be a string")
+        if tos not in ['uniform', 'gaussian']:
+            raise ValueError("'tos' must be 'uniform' or 'gaussian'")
         if size is None and tos == 'uniform':
             size = 3
         elif size is None and tos == 'gaussian':
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 83e3d37..c1a44f5 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1914,6 +1914,8 @@ class ScalarField(fld.Field):
         """
         if not isinstance(tos, STRINGTYPES):
             raise TypeError("'tos' must be a string")
+        if tos not in ['uniform', 'gaussian']:
+            raise ValueError("'tos' must be 'uniform' or 'gaussian'")
         if size is None and tos == 'uniform':
             size = 3
         elif size is None and tos == 'gaussian':
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index c640f97..66376bc 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -868,6 +868,8 @@ class VectorField(field.Field):
         """
         if not isinstance(tos, STRINGTYPES):
             raise TypeError("'tos' must be a string")
+        if tos not in ['uniform', 'gaussian']:
+            raise ValueError("'tos' must be 'uniform' or 'gaussian'")
         if size is None and tos == 'uniform':
             size = 3
         elif size is None and tos == 'gaussian':
-- 
2.43.0


From 6f401eb5054290fcae100c2762dba10741b0e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:05 +0000
Subject: [PATCH 66/98] fix: Profile.x kept an x array of the wrong length it
 had rejected

---
 IMTreatment/core/profile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 1cdaaf7..f10832b 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -271,13 +271,12 @@ class Profile(object):
 
     @x.setter
     def x(self, values):
-        if isinstance(values, ARRAYTYPES):
-            self.__x = np.array(values, dtype=float)
-        else:
+        if not isinstance(values, ARRAYTYPES):
             raise Exception("'x' should be an array, not {}"
                             .format(type(values)))
         if len(values) != len(self.__y):
             raise Exception("Please set 'y' before 'x'")
+        self.__x = np.array(values, dtype=float)
         if len(self.__x) > 1:
             ind_sort = np.argsort(self.__x)
             self.__x = self.__x[ind_sort]
-- 
2.43.0


From e62ed5d609ffc6f7244f7b9682992441417e85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:05 +0000
Subject: [PATCH 67/98] fix: Points.add stored the position of a point it
 rejects for its missing value

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 61a276b..9acd4b9 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -893,10 +893,10 @@ class Points(object):
         if v is not None:
             if not isinstance(v, NUMBERTYPES):
                 raise TypeError()
+        elif self.v.shape[0] != 0:
+            raise ValueError('You should specify an associated value : v')
         # store new data
         self.__xy = np.append(self.xy, [pt], axis=0)
-        if v is None and self.v.shape[0] != 0:
-            raise ValueError('You should specify an associated value : v')
         if v is not None:
             self.__v = np.append(self.v, v)
 
-- 
2.43.0


From c4f6f653ec002395e3b3a7d69e7ff81ad5f9b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:05 +0000
Subject: [PATCH 68/98] fix: TemporalFields.crop cut the series before
 rejecting bad spatial intervals

---
 IMTreatment/core/temporalfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index eb967a8..73d5e8e 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1535,13 +1535,13 @@ class TemporalFields(flds.Fields, fld.Field):
             cropfield = self
         else:
             cropfield = self.copy()
+        # spatial (check the intervals before modifying anything)
+        fld.Field.crop(cropfield, intervx=intervx, intervy=intervy, ind=ind,
+                       inplace=True)
         # temporal
         if intervt is not None:
             cropfield.fields = cropfield.fields[intervt[0]:intervt[1] + 1]
             cropfield.times = cropfield.times[intervt[0]:intervt[1] + 1]
-        # spatial
-        fld.Field.crop(cropfield, intervx=intervx, intervy=intervy, ind=ind,
-                       inplace=True)
         for field in cropfield.fields:
             field.crop(intervx=intervx, intervy=intervy, ind=ind,
                        inplace=True)
-- 
2.43.0


From 0d9b26af883ab47a4622688289bb8ec2b9636300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:05 +0000
Subject: [PATCH 69/98] fix: temporal scale() modified the object before
 rejecting a bad time scale

---
 IMTreatment/core/temporalfields.py | 5 +++--
 IMTreatment/core/temporalpoints.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 73d5e8e..c37deb6 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1005,6 +1005,9 @@ class TemporalFields(flds.Fields, fld.Field):
         inplace : boolean
             .
         """
+        if scalet is not None and \
+                not isinstance(scalet, NUMBERTYPES + (unum.Unum,)):
+            raise TypeError()
         if inplace:
             tmp_f = self
         else:
@@ -1031,8 +1034,6 @@ class TemporalFields(flds.Fields, fld.Field):
             new_unit /= fact
             tmp_f.unit_times = new_unit
             tmp_f.times *= fact
-        else:
-            raise TypeError()
         # returning
         if not inplace:
             return tmp_f
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index db52d86..4939c37 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -127,6 +127,9 @@ class TemporalPoints(object):
         inplace : boolean
             .
         """
+        if scalet is not None and \
+                not isinstance(scalet, NUMBERTYPES + (unum.Unum,)):
+            raise TypeError()
         if inplace:
             tmp_ps = self
         else:
@@ -147,8 +150,6 @@ class TemporalPoints(object):
             new_unit /= fact
             tmp_ps.unit_times = new_unit
             tmp_ps.times *= fact
-        else:
-            raise TypeError()
         # returning
         return tmp_ps
 
-- 
2.43.0


From b99d8e853d403fd7d435e0fd780fee42ae0cc35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:24 +0000
Subject: [PATCH 70/98] fix: temporal fill() cropped the series before
 rejecting the 'nearest' kind

---
 IMTreatment/core/temporalscalarfields.py | 4 ++--
 IMTreatment/core/temporalvectorfields.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index f27b36f..cb9fea1 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -359,6 +359,8 @@ class TemporalScalarFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        if tof == 'temporal' and kind == 'nearest':
+            raise Exception("Not implemented yet")
         if crop:
             if not inplace:
                 cropped = self.crop_masked_border(hard=False, inplace=False)
@@ -388,8 +390,6 @@ class TemporalScalarFields(tf.TemporalFields):
                 if kind == 'value':
                     def interp(x):
                         return value
-                elif kind == 'nearest':
-                    raise Exception("Not implemented yet")
                 elif kind == 'linear':
                     prof_filt = np.logical_not(prof.mask)
                     interp = spinterp.interp1d(prof.x[prof_filt],
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index c397e18..dbc336e 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -283,6 +283,8 @@ class TemporalVectorFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        if tof == 'temporal' and kind == 'nearest':
+            raise Exception("Not implemented yet")
         if isinstance(value, NUMBERTYPES):
             value = [value, value]
         elif not isinstance(value, ARRAYTYPES):
@@ -323,8 +325,6 @@ class TemporalVectorFields(tf.TemporalFields):
                         return value[0]
                     def interp_y(x):
                         return value[1]
-                elif kind == 'nearest':
-                    raise Exception("Not implemented yet")
                 elif kind == 'linear':
                     prof_filt = np.logical_not(prof_x.mask)
                     interp_x = spinterp.interp1d(prof_x.x[prof_filt],
-- 
2.43.0


From 5f078470831929a549b01c6cb566b39b8db20e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:24 +0000
Subject: [PATCH 71/98] fix: ScalarField.mirroring cropped the field before
 rejecting a plane at its middle

---
 IMTreatment/core/scalarfield.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index c1a44f5..6d6c4b1 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1537,6 +1537,10 @@ class ScalarField(fld.Field):
         # get data
         axe_x = self.axe_x
         axe_y = self.axe_y
+        axe = axe_x if direction == 'x' else axe_y
+        median = (axe[-1] + axe[0])/2.
+        if not (position < median or position > median):
+            raise ValueError()
         if inplace:
             tmp_vf = self
         else:
@@ -1559,15 +1563,13 @@ class ScalarField(fld.Field):
                 side = 'left'
                 axe_x = tmp_vf.axe_x
                 border = axe_x[0]
-            elif position > x_median:
+            else:
                 tmp_vf.crop(intervx=[axe_x[0], position], ind=False,
                             inplace=True)
                 side = 'right'
                 axe_x = tmp_vf.axe_x
                 border = axe_x[-1]
-            else:
-                raise ValueError()
-        elif direction == 'y':
+        else:
             axe = axe_y
             y_median = (axe_y[-1] + axe_y[0])/2.
             delta = axe_y[1] - axe_y[0]
@@ -1583,16 +1585,12 @@ class ScalarField(fld.Field):
                 side = 'down'
                 axe_y = tmp_vf.axe_y
                 border = axe_y[0]
-            elif position > y_median:
+            else:
                 tmp_vf.crop(intervy=[axe_y[0], position], ind=False,
                             inplace=True)
                 side = 'up'
                 axe_y = tmp_vf.axe_y
                 border = axe_y[-1]
-            else:
-                raise ValueError()
-        else:
-            raise ValueError()
         # get length to mirror
         if inds_to_mirror == 'all' or inds_to_mirror > len(axe):
             inds_to_mirror = len(axe) - 1
-- 
2.43.0


From 64d9813325cd9ab5fb95133f09e4e3262a4bc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:37 +0000
Subject: [PATCH 72/98] fix: comparing two ScalarField objects of different
 sizes raised an error

---
 IMTreatment/core/scalarfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 6d6c4b1..e13f980 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -53,6 +53,8 @@ class ScalarField(fld.Field):
     def __eq__(self, another):
         if not isinstance(another, ScalarField):
             return False
+        if self.shape != another.shape:
+            return False
         if not np.allclose(self.axe_x, another.axe_x):
             return False
         if not np.allclose(self.axe_y, another.axe_y):
-- 
2.43.0


From 88e69033388dd94c42e358b35e2f73821c90b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 73/98] fix: iterating on OrientedPoints always gave the
 position of the first point

---
 IMTreatment/core/orientedpoints.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 9d37a72..9b7036e 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -77,9 +77,7 @@ class OrientedPoints(pts.Points):
         self.orientations = orientations
 
     def __iter__(self):
-        for i in np.arange(len(self.xy)):
-            pts_iter = pts.Points.__iter__(self)
-            pts_value = next(pts_iter)
+        for i, pts_value in enumerate(pts.Points.__iter__(self)):
             if type(pts_value) is tuple:
                 yield pts_value + (self.orientations[i],)
             else:
-- 
2.43.0


From ee10e2c3d1a37bdeb107e6b3b3f1e35b37600047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 74/98] fix: equality of OrientedPoints ignored the
 orientations

---
 IMTreatment/core/orientedpoints.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 9b7036e..9064524 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -97,6 +97,15 @@ class OrientedPoints(pts.Points):
             tmp_opts.import_from_Points(tmp_pts, tmp_ori)
             return tmp_opts
 
+    def __eq__(self, obj):
+        if not isinstance(obj, OrientedPoints):
+            return False
+        if not pts.Points.__eq__(self, obj):
+            return False
+        if self.orientations.shape != obj.orientations.shape:
+            return False
+        return bool(np.allclose(self.orientations, obj.orientations))
+
     @property
     def orientations(self):
         return self.__orientations
-- 
2.43.0


From 8d3bfbf05063eb7bf523cd4ea461e32dfbc9b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 75/98] fix: Points.fit rejects an unknown kind instead of
 failing later

---
 IMTreatment/core/points.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 9acd4b9..d8fc9e1 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -870,6 +870,8 @@ class Points(object):
             res = fte.fit_ellipse(xytmp)
             radii, center, alpha = fte.get_parameters(res)
             return radii, center, alpha
+        else:
+            raise ValueError("Unknown value for 'kind': {}".format(kind))
 
     def add(self, pt, v=None):
         """
-- 
2.43.0


From c5e5ae87b00c76b5b31fae95b8fa26be6de1a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 76/98] fix: Points.display rejects unknown axes

---
 IMTreatment/core/points.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index d8fc9e1..5c31eb3 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1498,6 +1498,10 @@ class Points(object):
         **plotargs : dic
             Additionnal arguments sent to 'plot' or 'scatter'
         """
+        # check
+        for axe in (axe_x, axe_y, axe_color):
+            if axe not in [None, 'x', 'y', 'v']:
+                raise ValueError("Unknown axis: {}".format(axe))
         # default values
         if axe_x is None:
             if axe_y != 'x':
-- 
2.43.0


From 7816cf7a228d546636fd7d3918074435f39118ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 77/98] fix: VectorField.get_pbi rejects an unknown direction

---
 IMTreatment/vortex_detection/vortex_detection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 4f1ae16..11db4a9 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -332,6 +332,8 @@ class VF(object):
         """
         Return the PBI along the given axe.
         """
+        if direction not in ['x', 'y']:
+            raise ValueError("'direction' must be 'x' or 'y'")
         theta = self.theta.copy()
         if direction == 'y':
             theta = np.rot90(theta, 3)
@@ -419,7 +421,7 @@ class VF(object):
         Return the possible number of structures in the field along each axis.
         """
         if self.shape == (2, 2):
-            pbi_x = self.get_pbi(1)
+            pbi_x = self.get_pbi('x')
             self.pbi_x = pbi_x
             self.pbi_y = pbi_x
             poi_x = pbi_x[1::] - pbi_x[0:-1]
-- 
2.43.0


From 5d2f94908402116692dca9c8c85d61f9abe8ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 78/98] fix: FTLE rejects an unknown interpolation

---
 IMTreatment/vortex_criterions/FTLE/ftle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/vortex_criterions/FTLE/ftle.py b/IMTreatment/vortex_criterions/FTLE/ftle.py
index 95fff31..601ee45 100644
--- a/IMTreatment/vortex_criterions/FTLE/ftle.py
+++ b/IMTreatment/vortex_criterions/FTLE/ftle.py
@@ -52,6 +52,8 @@ class FTLE(object):
                                               kx=3, ky=3)
             self.Vy_tor = RectBivariateSpline(self.axe_x, self.axe_y, self.Vy,
                                               kx=3, ky=3)
+        else:
+            raise ValueError("Unknown interpolation: {}".format(interp))
 
     def generate_point_field(self, res):
         """
-- 
2.43.0


From 64ef06e81dcfb5c2816281b6f64763efe000955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 79/98] fix: IM7_to_imt and VC7_to_imt reject an unknown kind

---
 IMTreatment/file_operation/file_operation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7245459..ec00c07 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1209,6 +1209,8 @@ def IM7_to_imt(im7_path, imt_path, kind='SF', compressed=True, **kwargs):
         Additional arguments for 'import_from_***()'.
     """
     # checking parameters
+    if kind not in ['TSF', 'SSF', 'SF']:
+        raise ValueError("Unknown kind of object: {}".format(kind))
     im7_path = check_path(im7_path)
     imt_path = check_path(imt_path, newfile=True)
     # checking if file or directory
@@ -1253,6 +1255,8 @@ def VC7_to_imt(vc7_path, imt_path, kind='VF', compressed=True, **kwargs):
         Additional arguments for 'import_from_***()'.
     """
     # checking parameters
+    if kind not in ['TVF', 'SVF', 'VF']:
+        raise ValueError("Unknown kind of object: {}".format(kind))
     vc7_path = check_path(vc7_path)
     imt_path = check_path(imt_path)
     # checking if file or directory
-- 
2.43.0


From dcdc7e11d7742dfa61090676ab92ced902cde837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 80/98] fix: TemporalPoints.change_unit accepts the documented
 axe 'values'

---
 IMTreatment/core/temporalpoints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 4939c37..cdf9f8c 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -174,6 +174,8 @@ class TemporalPoints(object):
         if not isinstance(axe, STRINGTYPES):
             raise TypeError()
         if axe in ['x', 'y', 'values']:
+            if axe == 'values':
+                axe = 'v'
             for pt in self.point_sets:
                 pt.change_unit(axe, new_unit)
         elif axe == 'time':
-- 
2.43.0


From 51a8a5cea83d6ff7aea1505e13a175b8e41867eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 81/98] fix: ScalarField.mirroring rejects an unknown
 interpolation

---
 IMTreatment/core/scalarfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e13f980..e8a5627 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1535,6 +1535,8 @@ class ScalarField(fld.Field):
         if not isinstance(position, NUMBERTYPES):
             raise TypeError("Position should be a number, not {}"
                             .format(type(position)))
+        if interp not in [None, 'value', 'nearest', 'linear', 'cubic']:
+            raise ValueError("Unknown interpolation: {}".format(interp))
         position = float(position)
         # get data
         axe_x = self.axe_x
-- 
2.43.0


From 496770c7064aaf926f19ef049b6cd15bbacec3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 82/98] fix: get_streamlines rejects an unknown resolution_kind

---
 IMTreatment/field_treatment/field_treatment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 1c9f339..47dea1f 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -810,6 +810,8 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
         raise TypeError()
     if boundary_tr not in ['stop', 'hide']:
         raise ValueError()
+    if resolution_kind not in ['time', 'length']:
+        raise ValueError()
 
     ################
     ### get data ###
-- 
2.43.0


From 308ba034eb83171821e3ed6e9950f0e65fe9ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 83/98] fix: ModalFields keeps its own copies of the data it is
 given

---
 IMTreatment/pod/pod.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 274800b..439c05c 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -110,7 +110,7 @@ class ModalFields(Field):
                 raise ValueError()
         # storing
         self.decomp_type = decomp_type
-        self.mean_field = mean_field
+        self.mean_field = mean_field.copy()
         self.axe_x = mean_field.axe_x
         self.axe_y = mean_field.axe_y
         self.unit_x = mean_field.unit_x
@@ -119,20 +119,20 @@ class ModalFields(Field):
         self.modes = modes
         self.modes_nmb = modes_numbers
         self.temp_evo = temporal_evolutions
-        self.times = temporal_evolutions[0].x
+        self.times = temporal_evolutions[0].x.copy()
         self.unit_times = temporal_evolutions[0].unit_x
         if eigvals is not None:
-            self.eigvals = eigvals
+            self.eigvals = eigvals.copy()
         if eigvects is not None:
             self.eigvects = eigvects
         if ritz_vals is not None:
-            self.ritz_vals = ritz_vals
+            self.ritz_vals = ritz_vals.copy()
         if mode_norms is not None:
-            self.mode_norms = mode_norms
+            self.mode_norms = mode_norms.copy()
         if growth_rate is not None:
-            self.growth_rate = growth_rate
+            self.growth_rate = growth_rate.copy()
         if pulsation is not None:
-            self.pulsation = pulsation
+            self.pulsation = pulsation.copy()
         self.__temp_coh = None
         self.__spat_coh = None
 
-- 
2.43.0


From 3bfd6f947f039b390dc9d8254552106c1f5db764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 84/98] fix: Field.scale checks its arguments before changing
 anything

---
 IMTreatment/core/field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index e616fe1..a1d93ba 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -301,6 +301,11 @@ class Field(object):
         inplace : boolean
             .
         """
+        # check
+        for scale in (scalex, scaley):
+            if scale is not None and not isinstance(scale, NUMBERTYPES +
+                                                    (unum.Unum, )):
+                raise TypeError()
         if inplace:
             tmp_f = self
         else:
-- 
2.43.0


From ca008ae28c5b2604f8f985e418af1aecd33e5e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:14 +0000
Subject: [PATCH 85/98] fix: Field.set_origin checks its arguments before
 changing anything

---
 IMTreatment/core/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index a1d93ba..ddb8d80 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -474,10 +474,12 @@ class Field(object):
         if x is not None:
             if not isinstance(x, NUMBERTYPES):
                 raise TypeError("'x' must be a number")
-            self.axe_x -= x
         if y is not None:
             if not isinstance(y, NUMBERTYPES):
                 raise TypeError("'y' must be a number")
+        if x is not None:
+            self.axe_x -= x
+        if y is not None:
             self.axe_y -= y
 
     def crop(self, intervx=None, intervy=None, full_output=False,
-- 
2.43.0


From f63a18793d9fe42054650c237315ca948ced63c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 86/98] fix: field scaling checks scalev before changing the
 axes

---
 IMTreatment/core/scalarfield.py | 4 ++++
 IMTreatment/core/vectorfield.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e8a5627..341c2e1 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1270,6 +1270,10 @@ class ScalarField(fld.Field):
         inplace : boolean
             .
         """
+        # check
+        if scalev is not None and not isinstance(scalev, NUMBERTYPES +
+                                                 (unum.Unum, )):
+            raise TypeError()
         if inplace:
             tmp_f = self
         else:
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 66376bc..fc227d0 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -716,6 +716,10 @@ class VectorField(field.Field):
         inplace : boolean
             .
         """
+        # check
+        if scalev is not None and not isinstance(scalev, NUMBERTYPES +
+                                                 (unum.Unum, )):
+            raise TypeError()
         if inplace:
             tmp_f = self
         else:
-- 
2.43.0


From aa098d2d609e8c90e5a60c66a10171bd717639e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 87/98] fix: Points.set_origin checks its arguments before
 changing anything

---
 IMTreatment/core/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 5c31eb3..6114e8c 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -980,10 +980,12 @@ class Points(object):
         if x is not None:
             if not isinstance(x, NUMBERTYPES):
                 raise TypeError()
-            self.xy[:, 0] -= x
         if y is not None:
             if not isinstance(y, NUMBERTYPES):
                 raise TypeError()
+        if x is not None:
+            self.xy[:, 0] -= x
+        if y is not None:
             self.xy[:, 1] -= y
 
     def crop(self, intervx=None, intervy=None, intervv=None, inplace=True,
-- 
2.43.0


From d50c31086e9df3b4932f40839374ea58214b4d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 88/98] fix: Fields.set_origin checks its arguments before
 changing anything

---
 IMTreatment/core/fields.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index 134a59d..25b0a76 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -164,13 +164,11 @@ class Fields(object):
         if x is not None:
             if not isinstance(x, NUMBERTYPES):
                 raise TypeError("'x' must be a number")
-            for tmp_field in self.fields:
-                tmp_field.set_origin(x, None)
         if y is not None:
             if not isinstance(y, NUMBERTYPES):
                 raise TypeError("'y' must be a number")
-            for tmp_field in self.fields:
-                tmp_field.set_origin(None, y)
+        for tmp_field in self.fields:
+            tmp_field.set_origin(x, y)
 
     def smooth(self, tos='uniform', size=None, inplace=False, **kw):
         """
-- 
2.43.0


From 7b25b30aa4f339a061921fd33ce1f0eaa33f3dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 89/98] fix: TemporalFields.add_field sets field_type after the
 checks

---
 IMTreatment/core/temporalfields.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index c37deb6..c41176d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1109,9 +1109,8 @@ class TemporalFields(flds.Fields, fld.Field):
         # checking parameters
         if not isinstance(field, (vf.VectorField, sf.ScalarField)):
             raise TypeError()
-        if self.field_type is None:
-            self.field_type = field.__class__
-        if not isinstance(field, self.field_type):
+        if self.field_type is not None and \
+                not isinstance(field, self.field_type):
             raise TypeError()
         if not isinstance(time, NUMBERTYPES):
             raise TypeError("'time' should be a number, not {}"
-- 
2.43.0


From 76c3976527398145451c4bea61ca4ec82af96155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 90/98] fix: MeanTrajectory.scale checks its arguments before
 changing anything

---
 IMTreatment/vortex_detection/vortex_detection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index 11db4a9..51b327f 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -2478,6 +2478,9 @@ class MeanTrajectory(Points):
                 return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalet=1., inplace=False):
+        for scale in (scalex, scaley, scalet):
+            if not isinstance(scale, NUMBERTYPES + (unum.Unum, )):
+                raise TypeError()
         if inplace:
             tmp_mt = self
         else:
-- 
2.43.0


From c19af24da7cf81043d907d87511495747e30ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 91/98] fix: ModalFields.crop checks its arguments before
 changing anything

---
 IMTreatment/pod/pod.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 439c05c..56a8135 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -270,7 +270,7 @@ class ModalFields(Field):
             tmp_mf = self
         else:
             tmp_mf = self.copy()
-        # temporal crop (first for efficiency)
+        # get the temporal interval
         if intervt is not None:
             times = self.times
             # get time indices
@@ -290,11 +290,6 @@ class ModalFields(Field):
                     ind_2 = np.where(times > intervt[1])[0][0]
                 intervt = [ind_1, ind_2]
             intervt = np.array(intervt, dtype=int)
-            # crop
-            tmp_mf.times = tmp_mf.times[intervt[0]:intervt[1]]
-            tmp_mf._ModalFields__temp_coh = None
-            for prof in tmp_mf.temp_evo:
-                prof.crop(intervx=intervt, ind=True, inplace=True)
         # spatial crop
         if intervx is not None or intervy is not None:
             # crop Field and mean field
@@ -308,6 +303,12 @@ class ModalFields(Field):
             for mode in tmp_mf.modes:
                 mode.crop(intervx=intervx, intervy=intervy,
                           ind=ind, inplace=True)
+        # temporal crop (last, the other intervals being then known valid)
+        if intervt is not None:
+            tmp_mf.times = tmp_mf.times[intervt[0]:intervt[1]]
+            tmp_mf._ModalFields__temp_coh = None
+            for prof in tmp_mf.temp_evo:
+                prof.crop(intervx=intervt, ind=True, inplace=True)
         # return
         if not inplace:
             return tmp_mf
-- 
2.43.0


From d4f2c09865c443174360057204a37a5783238ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 92/98] fix: Points.xy setter copies the given array

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 6114e8c..1285288 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -165,7 +165,7 @@ class Points(object):
 
     @xy.setter
     def xy(self, values):
-        values = np.asarray(values, dtype=float)
+        values = np.array(values, dtype=float)
         if len(values != 0):
             if not values.ndim == 2:
                 raise ValueError("ndim of xy is {} and should be 2"
-- 
2.43.0


From 8a1495f4c5883fac0a3c664bfedeb0fbebf5ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 93/98] fix: ScalarField.import_from_arrays reorders the mask
 with the values

---
 IMTreatment/core/scalarfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 341c2e1..0ffedb7 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -508,9 +508,11 @@ class ScalarField(fld.Field):
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
             values = values[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             values = values[:, ::-1]
+            mask = mask[:, ::-1]
         # storing datas
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From be2dfad14e192897b116423555fa28af448b3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 94/98] fix: VectorField.import_from_arrays reorders the mask
 with the components

---
 IMTreatment/core/vectorfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index fc227d0..51402a2 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -568,10 +568,12 @@ class VectorField(field.Field):
             axe_x = axe_x[::-1]
             comp_x = comp_x[::-1]
             comp_y = comp_y[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             comp_x = comp_x[:, ::-1]
             comp_y = comp_y[:, ::-1]
+            mask = mask[:, ::-1]
         # Store data
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From fadffaf0126900451c8f6961fcac598631614561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 95/98] fix: VectorField.scale reverses the mask with the
 components

---
 IMTreatment/core/vectorfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 51402a2..ad8ff58 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -747,12 +747,15 @@ class VectorField(field.Field):
         if revx and revy:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[::-1, ::-1]
+            tmp_f.__mask = tmp_f.mask[::-1, ::-1]
         elif revx:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, :]
             tmp_f.comp_y = tmp_f.comp_y[::-1, :]
+            tmp_f.__mask = tmp_f.mask[::-1, :]
         elif revy:
             tmp_f.comp_x = tmp_f.comp_x[:, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[:, ::-1]
+            tmp_f.__mask = tmp_f.mask[:, ::-1]
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From 4ad8931fd641676165c598a690a1ad84e7b3f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:03 +0000
Subject: [PATCH 96/98] fix: Points.get_points_density rejects an unknown
 output_format before anything else

---
 IMTreatment/core/points.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 1285288..f78bb48 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -318,6 +318,10 @@ class Points(object):
         density : array, ScalarField object or None
             Return 'None' if there is not enough points in the cloud.
         """
+        # check
+        if output_format not in (None, 'normalized', 'ponderated',
+                                 'percentage', 'concentration'):
+            raise ValueError()
         # checking points length
         if len(self.xy) < 2:
             return None
-- 
2.43.0


From 1a00cf886c55486bccb599dc5817d638434613c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 97/98] fix: Points.sort reorders the orientations of
 OrientedPoints with the points

---
 IMTreatment/core/orientedpoints.py | 4 ++++
 IMTreatment/core/points.py         | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 9064524..a1ca5d9 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -325,6 +325,10 @@ class OrientedPoints(pts.Points):
         if not inplace:
             return tmp_pts
 
+    def _select_additional_data(self, inds):
+        if len(self.orientations) != 0:
+            self.orientations = self.orientations[inds]
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f78bb48..83b07f6 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1214,6 +1214,12 @@ class Points(object):
                                    self.unit_y, self.unit_v, self.name))
         return pts_tupl
 
+    def _select_additional_data(self, inds):
+        """
+        Apply a selection of points to the data stored by the subclasses.
+        """
+        pass
+
     def sort(self, ref='x', inplace=False):
         """
         Sort the points according to the reference.
@@ -1257,6 +1263,7 @@ class Points(object):
         tmp_pt.xy = tmp_pt.xy[order]
         if len(tmp_pt.v) == len(tmp_pt.xy):
             tmp_pt.v = tmp_pt.v[order]
+        tmp_pt._select_additional_data(order)
         # returning
         if not inplace:
             return tmp_pt
-- 
2.43.0


From 9b5a74d7d93ccca798075429dbb61c5c616ee79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 98/98] fix: Points.cut removes the orientations of
 OrientedPoints with the points

---
 IMTreatment/core/points.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 83b07f6..7b3c1e7 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1073,6 +1073,7 @@ class Points(object):
         tmp_pts.xy = tmp_pts.xy[~mask, :]
         if len(tmp_pts.v) != 0:
             tmp_pts.v = tmp_pts.v[~mask]
+        tmp_pts._select_additional_data(~mask)
         return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalev=1., inplace=False):
-- 
2.43.0

