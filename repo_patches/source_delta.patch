From d503a58312a904dd25c6b75921d511c6bc02c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:38 +0000
Subject: [PATCH 01/84] fix: keep the mask attached to its points when
 importing decreasing axes

---
 IMTreatment/core/scalarfield.py | 2 ++
 IMTreatment/core/vectorfield.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 541c3f5..e81a011 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -503,9 +503,11 @@ class ScalarField(fld.Field):
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
             values = values[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             values = values[:, ::-1]
+            mask = mask[:, ::-1]
         # storing datas
         self.axe_x = axe_x
         self.axe_y = axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f567e4e..78f86f2 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -557,10 +557,12 @@ class VectorField(field.Field):
             axe_x = axe_x[::-1]
             comp_x = comp_x[::-1]
             comp_y = comp_y[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             comp_x = comp_x[:, ::-1]
             comp_y = comp_y[:, ::-1]
+            mask = mask[:, ::-1]
         # Store data
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From 0980a06031702c8e41454298ac9fe7eac1c1ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:23 +0000
Subject: [PATCH 02/84] fix: keep scalar field units free of hidden factors
 when multiplying or dividing by a quantity (and refuse such units)

---
 IMTreatment/core/scalarfield.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e81a011..7a70493 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -211,8 +211,9 @@ class ScalarField(fld.Field):
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
-            tmpsf.values = obj.asNumber()/tmpsf.values
-            tmpsf.unit_values = obj/obj.asNumber()/tmpsf.unit_values
+            unit_values = obj / tmpsf.unit_values
+            tmpsf.values = unit_values.asNumber()/tmpsf.values
+            tmpsf.unit_values = unit_values/unit_values.asNumber()
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
             obj = np.array(obj, subok=True)
@@ -250,8 +251,9 @@ class ScalarField(fld.Field):
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
-            tmpsf.values *= obj.asNumber()
-            tmpsf.unit_values *= obj/obj.asNumber()
+            unit_values = tmpsf.unit_values * obj
+            tmpsf.values *= unit_values.asNumber()
+            tmpsf.unit_values = unit_values/unit_values.asNumber()
             tmpsf.mask = self.mask
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
@@ -390,7 +392,7 @@ class ScalarField(fld.Field):
     @unit_values.setter
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
-            if (new_unit_values.asNumber() - 1.) < 1e-10:
+            if np.abs(new_unit_values.asNumber() - 1.) < 1e-10:
                 self.__unit_values = new_unit_values
             else:
                 raise ValueError()
-- 
2.43.0


From 89c881171e6b5a0b62d0370a92df7719d0ba271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 03/84] fix: multiply the units when multiplying a vector field
 by a scalar field

---
 IMTreatment/core/vectorfield.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 78f86f2..1b45079 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -231,8 +231,12 @@ class VectorField(field.Field):
             if other.shape != self.shape:
                 raise ValueError()
             tmpvf = self.copy()
-            tmpvf.comp_x *= other.values
-            tmpvf.comp_y *= other.values
+            new_unit = tmpvf.unit_values*other.unit_values
+            scale = new_unit.asNumber()
+            new_unit /= scale
+            tmpvf.unit_values = new_unit
+            tmpvf.comp_x *= other.values*scale
+            tmpvf.comp_y *= other.values*scale
             tmpvf.mask = np.logical_or(other.mask, self.mask)
             return tmpvf
         else:
-- 
2.43.0


From c374b560c0d37cba41160bbe17797e90a3483be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:37 +0000
Subject: [PATCH 04/84] fix: do not drop the shared coordinate 0 when adding
 vector fields with partially shared axes

---
 IMTreatment/core/vectorfield.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 1b45079..7725e9d 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -76,16 +76,16 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <
+                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_x])
-                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <
+                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_y])
-                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <
+                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_x])
-                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <
+                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <=
                                        np.abs(val)*1e-4)
                                        for val in other.axe_y])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
-- 
2.43.0


From d518887c0dd7e2cf50b51b982f42ee7d9d4d8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 05/84] fix: refuse to add a quantity of another dimension to a
 vector field

---
 IMTreatment/core/vectorfield.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 7725e9d..d7a9f51 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -138,6 +138,11 @@ class VectorField(field.Field):
             else:
                 raise ValueError()
         elif isinstance(other, unum.Unum):
+            try:
+                self.unit_values + other
+            except:
+                raise ValueError("Given number have to be consistent with"
+                                 "the vector field (same units)")
             tmpvf = self.copy()
             fact = (other / self.unit_values).asNumber()
             tmpvf.comp_x = self.comp_x + fact
-- 
2.43.0


From 1e7ad58216d1192bc5ab99f299a8794974fea7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:22 +0000
Subject: [PATCH 06/84] fix: keep the mask of integer scalar fields through
 operations

---
 IMTreatment/core/scalarfield.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 7a70493..a0af80c 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -333,7 +333,10 @@ class ScalarField(fld.Field):
         new_values = np.asarray(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
-            self.__mask = np.isnan(new_values)
+            # (types without 'nan' can't carry the mask, so it is conserved)
+            if np.issubdtype(new_values.dtype, np.inexact) or \
+               self.__mask.shape != new_values.shape:
+                self.__mask = np.isnan(new_values)
             # storing data
             self.__values = new_values
         else:
@@ -1291,12 +1294,14 @@ class ScalarField(fld.Field):
             tmp_f.values *= fact
         else:
             raise TypeError()
-        if revx and revy:
-            tmp_f.values = tmp_f.values[::-1, ::-1]
-        elif revx:
+        if revx:
+            mask = tmp_f.mask[::-1, :]
             tmp_f.values = tmp_f.values[::-1, :]
-        elif revy:
+            tmp_f.mask = mask
+        if revy:
+            mask = tmp_f.mask[:, ::-1]
             tmp_f.values = tmp_f.values[:, ::-1]
+            tmp_f.mask = mask
         # returning
         if not inplace:
             return tmp_f
@@ -1349,7 +1354,9 @@ class ScalarField(fld.Field):
         Change the values dtype.
         """
         if new_type != self._values_dtype:
+            mask = self.mask
             self.values = np.asarray(self.values, dtype=new_type)
+            self.mask = mask
             self._values_dtype = new_type
 
     def change_unit(self, axe, new_unit):
-- 
2.43.0


From 5d3850a72b4fef34816213eb8c10d40955bca4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:51 +0000
Subject: [PATCH 07/84] fix: make the copying extend of scalar fields work
 (NameError)

---
 IMTreatment/core/scalarfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index a0af80c..51455f0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1501,9 +1501,9 @@ class ScalarField(fld.Field):
                                     unit_y=tmpsf.unit_y,
                                     unit_values=tmpsf.unit_values)
         else:
-            new_field.values = new_values
-            new_field.mask = new_mask
-            return new_field
+            tmpsf.values = new_values
+            tmpsf.mask = new_mask
+            return tmpsf
 
     def mirroring(self, direction, position, inds_to_mirror='all',
                   mir_coef=1, interp=None, value=0, inplace=False):
-- 
2.43.0


From abac99893908d38844da91951adca3133e3ad2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:04 +0000
Subject: [PATCH 08/84] fix: return the (uncropped) copy when there is no
 masked border to crop

---
 IMTreatment/core/scalarfield.py | 4 +++-
 IMTreatment/core/vectorfield.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 51455f0..e3f7be4 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1752,7 +1752,9 @@ class ScalarField(fld.Field):
         # checking masked values presence
         mask = tmp_vf.mask
         if not np.any(mask):
-            return None
+            if inplace:
+                return None
+            return tmp_vf
         # hard cropping
         if hard:
             # remove trivial borders
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index d7a9f51..bb4a62d 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1032,7 +1032,9 @@ class VectorField(field.Field):
         # checking masked values presence
         mask = tmp_sf.mask
         if not np.any(mask):
-            return None
+            if inplace:
+                return None
+            return tmp_sf
         # hard cropping
         if hard:
             # remove trivial borders
-- 
2.43.0


From 185743ed65644fa16979ef0131db5106a19d7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:15 +0000
Subject: [PATCH 09/84] fix: allow index crops keeping only the first line
 (broke cropping of masked borders)

---
 IMTreatment/core/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 2e7c8d7..b2e6354 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -527,8 +527,7 @@ class Field(object):
             raise ValueError("'intervy' values must be crescent")
         # checking crooping windows
         if ind:
-            if intervx[0] < 0 or intervx[1] == 0 or \
-                    intervy[0] < 0 or intervy[1] == 0:
+            if intervx[0] < 0 or intervy[0] < 0:
                 raise ValueError("Invalid cropping window")
         else:
             if np.all(intervx < axe_x[0]) or np.all(intervx > axe_x[-1])\
-- 
2.43.0


From 9d6b89fc2b12dbb5defa66e343c290d65e417297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:27 +0000
Subject: [PATCH 10/84] fix: allow fields with a single line or column to be
 imported

---
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e3f7be4..6042dd6 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -490,8 +490,8 @@ class ScalarField(fld.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index bb4a62d..001f559 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -546,8 +546,8 @@ class VectorField(field.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
-- 
2.43.0


From b07d27cf0d7450f378be5be59ca65fa9ce689568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:38 +0000
Subject: [PATCH 11/84] fix: reduce_spatial_resolution: support odd factors and
 keep the units in place

---
 IMTreatment/core/scalarfield.py | 17 +++++++++--------
 IMTreatment/core/vectorfield.py |  1 -
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 6042dd6..15c04a4 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1991,7 +1991,7 @@ class ScalarField(fld.Field):
             raise ValueError()
         if fact == 1:
             if inplace:
-                pass
+                return None
             else:
                 return self.copy()
         if fact % 2 == 0:
@@ -2041,16 +2041,18 @@ class ScalarField(fld.Field):
                                                    [~mask[intervx, intervy]])
 
         else:
-            inds_x = np.arange((fact - 1)/2, len(axe_x) - (fact - 1)/2, fact)
-            inds_y = np.arange((fact - 1)/2, len(axe_y) - (fact - 1)/2, fact)
+            inds_x = np.arange((fact - 1)/2, len(axe_x) - (fact - 1)/2,
+                               fact, dtype=int)
+            inds_y = np.arange((fact - 1)/2, len(axe_y) - (fact - 1)/2,
+                               fact, dtype=int)
             new_values = np.zeros((len(inds_x), len(inds_y)))
             new_mask = np.zeros((len(inds_x), len(inds_y)))
             for i in np.arange(len(inds_x)):
-                intervx = slice(inds_x[i] - (fact - 1)/2,
-                                inds_x[i] + (fact - 1)/2 + 1)
+                intervx = slice(inds_x[i] - (fact - 1)//2,
+                                inds_x[i] + (fact - 1)//2 + 1)
                 for j in np.arange(len(inds_y)):
-                    intervy = slice(inds_y[j] - (fact - 1)/2,
-                                    inds_y[j] + (fact - 1)/2 + 1)
+                    intervy = slice(inds_y[j] - (fact - 1)//2,
+                                    inds_y[j] + (fact - 1)//2 + 1)
                     if np.all(mask[intervx, intervy]):
                         new_mask[i, j] = True
                         new_values[i, j] = 0.
@@ -2061,7 +2063,6 @@ class ScalarField(fld.Field):
         new_values = np.array(new_values, dtype=self._values_dtype)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(new_axe_x, new_axe_y, new_values,
                                     mask=new_mask,
                                     unit_x=self.unit_x, unit_y=self.unit_y,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 001f559..58963d6 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1216,7 +1216,6 @@ class VectorField(field.Field):
         Vy.reduce_spatial_resolution(fact, inplace=True)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values,
                                     Vy.values,
                                     mask=Vx.mask, unit_x=self.unit_x,
-- 
2.43.0


From 367e28f5438f52599becf1ccf75a6684b5109651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:03 +0000
Subject: [PATCH 12/84] fix: leave no spurious zero vectors on the masked lines
 added by extend

---
 IMTreatment/core/vectorfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 58963d6..2cd5e5a 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1116,6 +1116,8 @@ class VectorField(field.Field):
         new_Vy[slice_x, slice_y] = self.comp_y
         new_mask = np.ones(new_shape, dtype=bool)
         new_mask[slice_x, slice_y] = self.mask
+        new_Vx[new_mask] = np.NaN
+        new_Vy[new_mask] = np.NaN
         if inplace:
             self.comp_x = new_Vx
             self.comp_y = new_Vy
-- 
2.43.0


From 9183c5c7e0ffc69ee1b8ed97627d7a498fba3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:15 +0000
Subject: [PATCH 13/84] fix: keep the mask attached to its points when scaling
 vector fields by negative factors

---
 IMTreatment/core/vectorfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 2cd5e5a..378b0cb 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -741,12 +741,15 @@ class VectorField(field.Field):
         if revx and revy:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[::-1, ::-1]
+            tmp_f.__mask = tmp_f.mask[::-1, ::-1]
         elif revx:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, :]
             tmp_f.comp_y = tmp_f.comp_y[::-1, :]
+            tmp_f.__mask = tmp_f.mask[::-1, :]
         elif revy:
             tmp_f.comp_x = tmp_f.comp_x[:, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[:, ::-1]
+            tmp_f.__mask = tmp_f.mask[:, ::-1]
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From 89276e173addccb9e2592afc56bc9a7c919fd082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:25 +0000
Subject: [PATCH 14/84] fix: rotate the coordinate of single line fields as
 well

---
 IMTreatment/core/field.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index b2e6354..088186e 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -402,24 +402,19 @@ class Field(object):
             pass
         elif angle == 90:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_y[::-1], tmp_field.axe_x
+                = -tmp_field.axe_y[::-1], tmp_field.axe_x
             tmp_field.__unit_x, tmp_field.__unit_y \
                 = tmp_field.unit_y, tmp_field.unit_x
         elif angle == 180:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_x[::-1], tmp_field.axe_y[::-1]
+                = -tmp_field.axe_x[::-1], -tmp_field.axe_y[::-1]
         elif angle == 270:
             tmp_field.__axe_x, tmp_field.__axe_y \
-                = tmp_field.axe_y, tmp_field.axe_x[::-1]
+                = tmp_field.axe_y, -tmp_field.axe_x[::-1]
             tmp_field.__unit_x, tmp_field.__unit_y \
                 = tmp_field.unit_y, tmp_field.unit_x
         else:
             raise Exception()
-        # correction non-crescent axis
-        if tmp_field.axe_x[-1] < tmp_field.axe_x[0]:
-            tmp_field.__axe_x = -tmp_field.axe_x
-        if tmp_field.axe_y[-1] < tmp_field.axe_y[0]:
-            tmp_field.__axe_y = -tmp_field.axe_y
         # returning
         if not inplace:
             return tmp_field
-- 
2.43.0


From 3136318947da851382d384f40358579e6ce5b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 15/84] fix: fill the right columns when mirroring along x with
 linear interpolation

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 15c04a4..b90ec71 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1653,7 +1653,7 @@ class ScalarField(fld.Field):
             # direction x
             if side in ['right', 'left']:
                 # get last column
-                ind_last = np.where(mask[:, 0])[0][0] - 1
+                ind_last = np.where(mask[:, 0])[0][0]
                 # get number of missing values
                 nmb_masked = np.sum(mask[:, 0])
                 # loop on lines
-- 
2.43.0


From 97f7112390af01a75ade530ccb05d89969bc7c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 16/84] fix: do not modify the bounds given to (or by default
 in) get_zones_centers

---
 IMTreatment/core/scalarfield.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index b90ec71..16a8d6e 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -649,16 +649,15 @@ class ScalarField(fld.Field):
         pts : pts.Points object
             Contening the centers coordinates
         """
-        # correcting python's problem with egality...
-        bornes[0] -= 0.00001*abs(bornes[0])
-        bornes[1] += 0.00001*abs(bornes[1])
         # checking parameters coherence
         if not isinstance(bornes, ARRAYTYPES):
             raise TypeError("'bornes' must be an array")
-        if not isinstance(bornes, np.ndarray):
-            bornes = np.array(bornes, dtype=float)
+        bornes = np.array(bornes, dtype=float)
         if not bornes.shape == (2,):
             raise ValueError("'bornes' must be a 2x1 array")
+        # correcting python's problem with egality...
+        bornes[0] -= 0.00001*abs(bornes[0])
+        bornes[1] += 0.00001*abs(bornes[1])
         if bornes[0] == bornes[1]:
             return None
         if not bornes[0] < bornes[1]:
-- 
2.43.0


From fbfa7d421dde931b274a6ec1bfc68efe61b0d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:26 +0000
Subject: [PATCH 17/84] fix: fill with the nearest value when the valid points
 cannot be triangulated

---
 IMTreatment/core/scalarfield.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 16a8d6e..58c1242 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -28,6 +28,7 @@ import scipy.ndimage.measurements as msr
 import matplotlib.pyplot as plt
 import numpy as np
 import scipy.interpolate as spinterp
+from scipy.spatial import QhullError
 import unum
 from scipy import ndimage
 
@@ -1865,15 +1866,24 @@ class ScalarField(fld.Field):
             nearest = spinterp.NearestNDInterpolator(xy_good, values_good)
             values[mask] = nearest(xy_masked)
         elif kind == 'linear':
-            linear = spinterp.LinearNDInterpolator(xy_good, values_good)
-            values[mask] = linear(xy_masked)
+            try:
+                linear = spinterp.LinearNDInterpolator(xy_good, values_good)
+                values[mask] = linear(xy_masked)
+            except QhullError:
+                # aligned points cannot be triangulated
+                pass
             new_mask = np.isnan(values)
             if np.any(new_mask):
                 nearest = spinterp.NearestNDInterpolator(xy_good, values_good)
                 values[new_mask] = nearest(xy[new_mask.flatten()])
         elif kind == 'cubic':
-            cubic = spinterp.CloughTocher2DInterpolator(xy_good, values_good)
-            values[mask] = cubic(xy_masked)
+            try:
+                cubic = spinterp.CloughTocher2DInterpolator(xy_good,
+                                                            values_good)
+                values[mask] = cubic(xy_masked)
+            except QhullError:
+                # aligned points cannot be triangulated
+                pass
             new_mask = np.isnan(values)
             if np.any(new_mask):
                 nearest = spinterp.NearestNDInterpolator(xy_good, values_good)
-- 
2.43.0


From 6e7fb19a03ad43bc3f42b015b0a6dd4035fb9100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:37 +0000
Subject: [PATCH 18/84] fix: do not crop the original field when returning a
 cropped and filled copy

---
 IMTreatment/core/scalarfield.py | 4 ++++
 IMTreatment/core/vectorfield.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 58c1242..7bc4b02 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1832,6 +1832,10 @@ class ScalarField(fld.Field):
         if not isinstance(value, NUMBERTYPES):
             raise TypeError("'value' must be a number")
         if crop:
+            if not inplace:
+                tmp_field = self.crop_masked_border(hard=False, inplace=False)
+                return tmp_field.fill(kind=kind, value=value, inplace=False,
+                                      reduce_tri=reduce_tri)
             self.crop_masked_border(hard=False, inplace=True)
         # getting data
         x, y = self.axe_x, self.axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 378b0cb..cdb16c0 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -956,6 +956,10 @@ class VectorField(field.Field):
         if not value.shape == (2,):
             raise ValueError()
         if crop:
+            if not inplace:
+                tmp_field = self.crop_masked_border(hard=False, inplace=False)
+                return tmp_field.fill(kind=kind, value=value, inplace=False,
+                                      reduce_tri=reduce_tri)
             self.crop_masked_border(hard=False, inplace=True)
         # filling components
         comp_x = self.comp_x_as_sf
-- 
2.43.0


From db36b10cbb16232fff864ab78753d32dfb95f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:48 +0000
Subject: [PATCH 19/84] fix: fill the masked values (and not the valid ones) of
 profiles with the given value

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 98e773a..d06d87c 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1589,7 +1589,7 @@ class Profile(object):
         # check fill type
         if kind == 'value':
             new_y = copy.copy(self.y)
-            new_y[filt] = fill_value
+            new_y[mask] = fill_value
         else:
             # making interpolation on existent values
             x = self.x[filt]
-- 
2.43.0


From e6c5a12d0c8709cf25294331905f7c2c28adcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:59 +0000
Subject: [PATCH 20/84] fix: make fill(crop=True) work on profiles, without
 cropping the original one

---
 IMTreatment/core/profile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d06d87c..8b5b35a 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1575,12 +1575,16 @@ class Profile(object):
         """
         # check if filling really necessary
         if not np.any(self.mask) and inplace:
-            return None,
+            return None
         elif not np.any(self.mask):
             return self.copy()
         # crop if asked
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            if not inplace:
+                tmp_prof = self.crop_masked_border(inplace=False)
+                return tmp_prof.fill(kind=kind, fill_value=fill_value,
+                                     inplace=False)
+            self.crop_masked_border(inplace=True)
         # get mask
         mask = self.mask
         filt = np.logical_not(mask)
-- 
2.43.0


From f1f0a9dff65e9be041d11a8805743226e0a38694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 21/84] fix: convert units in the right direction when adding
 profiles

---
 IMTreatment/core/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8b5b35a..c2f38e7 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -115,7 +115,8 @@ class Profile(object):
                 raise ValueError("Profiles have not the same length")
             if not all(self.x == otherone.x):
                 raise ValueError("Profiles have not the same x axis")
-            y = self.y + (self.unit_y/otherone.unit_y*otherone.y).asNumber()
+            fact = (otherone.unit_y/self.unit_y).asNumber()
+            y = self.y + otherone.y*fact
             name = ""
             mask = np.logical_or(self.mask, otherone.mask)
         else:
-- 
2.43.0


From 2f5540c1b5087197eec37875932c877c7fe6adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:33 +0000
Subject: [PATCH 22/84] fix: do not modify the divisor when dividing profiles

---
 IMTreatment/core/profile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index c2f38e7..8c98c77 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -202,9 +202,10 @@ class Profile(object):
                 mask = np.logical_or(self.mask, otherone.mask)
                 tmp_unit = self.unit_y/otherone.unit_y
                 y_tmp = self.y.copy()
-                y_tmp[otherone.y == 0] = np.NaN
-                otherone.y[otherone.y == 0] = 1
-                y = y_tmp/otherone.y*tmp_unit.asNumber()
+                y_div = otherone.y.copy()
+                y_tmp[y_div == 0] = np.NaN
+                y_div[y_div == 0] = 1
+                y = y_tmp/y_div*tmp_unit.asNumber()
                 name = ""
                 unit_y = tmp_unit/tmp_unit.asNumber()
         else:
-- 
2.43.0


From 835834e4335e9d68bbc80a31c416115ba4006482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:44 +0000
Subject: [PATCH 23/84] fix: allow to crop profiles along x and y at once

---
 IMTreatment/core/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8c98c77..39949d7 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1453,7 +1453,7 @@ class Profile(object):
             new_mask = new_mask[indices[0]:indices[1]]
         # treat intervy with ind=False
         if not ind and intervy is not None:
-            filt = np.logical_and(self.y > intervy[0], self.y < intervy[1])
+            filt = np.logical_and(new_y > intervy[0], new_y < intervy[1])
             new_x = new_x[filt]
             new_y = new_y[filt]
             new_mask = new_mask[filt]
-- 
2.43.0


From f8424c5acab855edd06768b923df70603f5e557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:06 +0000
Subject: [PATCH 24/84] fix: refuse to add a quantity of another dimension to a
 profile

---
 IMTreatment/core/profile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 39949d7..bb11b89 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -102,6 +102,11 @@ class Profile(object):
             name = self.name
             mask = self.mask
         elif isinstance(otherone, unum.Unum):
+            try:
+                self.unit_y + otherone
+            except:
+                raise ValueError("Given quantity is not consistent with the "
+                                 "profile unit")
             y = self.y + (otherone/self.unit_y).asNumber()
             name = self.name
             mask = self.mask
-- 
2.43.0


From 2b50236ec162e17cf4f41984e132c84b8aed7e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:52 +0000
Subject: [PATCH 25/84] fix: keep the last point of the wanted interval when
 cropping profiles

---
 IMTreatment/core/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index bb11b89..2c4f3bf 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1438,7 +1438,9 @@ class Profile(object):
                     or all(intervx > np.max(self.x)):
                 raise ValueError("'intervx' values are out of profile")
             ind1 = 0
-            ind2 = -1
+            ind2 = len(new_x)
+            if new_x[0] == intervx[1]:
+                ind2 = 1
             for i in np.arange(len(new_x)-1, 0, -1):
                 if new_x[i] == intervx[0]:
                     ind1 = i
-- 
2.43.0


From 315470f4875ef54f1280c7a7efdfc6a2463ac673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:47 +0000
Subject: [PATCH 26/84] fix: apply the lower bound when cropping profiles to
 less than an interval

---
 IMTreatment/core/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 2c4f3bf..1e7ae14 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1444,12 +1444,12 @@ class Profile(object):
             for i in np.arange(len(new_x)-1, 0, -1):
                 if new_x[i] == intervx[0]:
                     ind1 = i
-                elif new_x[i] == intervx[1]:
-                    ind2 = i + 1
                 elif (new_x[i] > intervx[0] and new_x[i-1] < intervx[0]) \
                         or (new_x[i] < intervx[0] and
                             new_x[i-1] > intervx[0]):
                     ind1 = i + 1
+                if new_x[i] == intervx[1]:
+                    ind2 = i + 1
                 elif (new_x[i] > intervx[1] and new_x[i-1] < intervx[1]) \
                         or (new_x[i] < intervx[1] and
                             new_x[i-1] > intervx[1]):
-- 
2.43.0


From 6d4ff28f19355f9f0d5ef370cda4f10ba29e6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:23 +0000
Subject: [PATCH 27/84] fix: do not share the given coordinates array with the
 points

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e0c7ec7..f1780a7 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -165,7 +165,7 @@ class Points(object):
 
     @xy.setter
     def xy(self, values):
-        values = np.asarray(values, dtype=float)
+        values = np.array(values, dtype=float)
         if len(values != 0):
             if not values.ndim == 2:
                 raise ValueError("ndim of xy is {} and should be 2"
-- 
2.43.0


From 4bb2530f8b28c9b79cf71ca29f9bf615247aa8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:38 +0000
Subject: [PATCH 28/84] fix: refuse to add a point with (without) value to
 points without (with) values

---
 IMTreatment/core/points.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f1780a7..198605b 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -891,10 +891,12 @@ class Points(object):
         if v is not None:
             if not isinstance(v, NUMBERTYPES):
                 raise TypeError()
+        if v is None and len(self.v) != 0:
+            raise ValueError('You should specify an associated value : v')
+        if v is not None and len(self.v) != len(self.xy):
+            raise ValueError('The other points have no associated values')
         # store new data
         self.__xy = np.append(self.xy, [pt], axis=0)
-        if v is None and self.v.shape[0] != 0:
-            raise ValueError('You should specify an associated value : v')
         if v is not None:
             self.__v = np.append(self.v, v)
 
-- 
2.43.0


From c2e0e859c3d159c504344ada66748ae932a8ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:51 +0000
Subject: [PATCH 29/84] fix: keep the values of the remaining points when
 removing or cutting points

---
 IMTreatment/core/points.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 198605b..c1446b5 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -915,13 +915,12 @@ class Points(object):
             if not np.all([isinstance(val, int) for val in ind]):
                 raise TypeError("'ind' must be an integer or an array of"
                                 " integer")
-            ind = np.array(ind)
+            ind = np.array(ind, dtype=int)
         else:
             raise TypeError("'ind' must be an integer or an array of integer")
-        tmp_v = self.v.copy()
-        self.xy = np.delete(self.xy, ind, axis=0)
-        if len(self.v) == len(self.xy) + 1:
-            self.v = np.delete(tmp_v, ind, axis=0)
+        if len(self.v) == len(self.xy):
+            self.__v = np.delete(self.v, ind, axis=0)
+        self.__xy = np.delete(self.xy, ind, axis=0)
 
     def change_unit(self, axe, new_unit):
         """
@@ -1062,9 +1061,9 @@ class Points(object):
             out_zone = np.logical_and(self.xy[:, 1] > intervy[0],
                                       self.xy[:, 1] < intervy[1])
             mask = np.logical_and(mask, out_zone)
-        tmp_pts.xy = tmp_pts.xy[~mask, :]
+        tmp_pts.__xy = tmp_pts.xy[~mask, :]
         if len(tmp_pts.v) != 0:
-            tmp_pts.v = tmp_pts.v[~mask]
+            tmp_pts.__v = tmp_pts.v[~mask]
         return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalev=1., inplace=False):
-- 
2.43.0


From 40135ae8e21f838544f11e28771bd88a5bdd44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:06 +0000
Subject: [PATCH 30/84] fix: allow to remove the nans of points without values

---
 IMTreatment/core/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index c1446b5..bfa6aaa 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1296,7 +1296,8 @@ class Points(object):
         # get indices to remove
         inds = np.logical_or(np.isnan(tmp_pts.xy[:, 0]),
                              np.isnan(tmp_pts.xy[:, 1]))
-        inds = np.logical_or(inds, np.isnan(tmp_pts.v))
+        if len(tmp_pts.v) != 0:
+            inds = np.logical_or(inds, np.isnan(tmp_pts.v))
         # remove
         for ind in np.where(inds)[0][::-1]:
             tmp_pts.remove(ind)
-- 
2.43.0


From ebda392298ca37955bb6ec0f9f2742c3a15bb74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:19 +0000
Subject: [PATCH 31/84] fix: convert the units the right way when merging
 points and do not modify them

---
 IMTreatment/core/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index bfa6aaa..0370343 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -108,9 +108,9 @@ class Points(object):
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
             # testing v presence
             v_presence = True
@@ -130,7 +130,7 @@ class Points(object):
                 elif another.v is None:
                     v = self.v
                 else:
-                    v_tmp = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v_tmp = another.v*(another.unit_v/self.unit_v).asNumber()
                     v = np.append(self.v, v_tmp)
                 return Points(new_xy, v,
                               unit_x=self.unit_x,
-- 
2.43.0


From 7410aa6b3595ca09202097e194feaf8035d26e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:32 +0000
Subject: [PATCH 32/84] fix: swap the units and the orientations along with the
 axis in Points.reverse

---
 IMTreatment/core/orientedpoints.py | 9 +++++++++
 IMTreatment/core/points.py         | 1 +
 2 files changed, 10 insertions(+)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index ad292db..680bc35 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -317,6 +317,15 @@ class OrientedPoints(pts.Points):
         if not inplace:
             return tmp_pts
 
+    def reverse(self):
+        """
+        Return an OrientedPoints object where x and y axis are swaped.
+        """
+        tmp_pts = pts.Points.reverse(self)
+        if len(self) != 0:
+            tmp_pts.orientations = self.orientations[:, :, ::-1]
+        return tmp_pts
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 0370343..e7e3f0c 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1189,6 +1189,7 @@ class Points(object):
         xy_tmp[:, 0] = tmp_pt.xy[:, 1]
         xy_tmp[:, 1] = tmp_pt.xy[:, 0]
         tmp_pt.xy = xy_tmp
+        tmp_pt.unit_x, tmp_pt.unit_y = self.unit_y, self.unit_x
         return tmp_pt
 
     def decompose(self):
-- 
2.43.0


From aee241706da5e22dde3108eada8bf3611ebe9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:49 +0000
Subject: [PATCH 33/84] fix: iterate on all the points of OrientedPoints

---
 IMTreatment/core/orientedpoints.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 680bc35..5886c12 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -77,9 +77,7 @@ class OrientedPoints(pts.Points):
         self.orientations = orientations
 
     def __iter__(self):
-        for i in np.arange(len(self.xy)):
-            pts_iter = pts.Points.__iter__(self)
-            pts_value = next(pts_iter)
+        for i, pts_value in enumerate(pts.Points.__iter__(self)):
             if type(pts_value) is tuple:
                 yield pts_value + (self.orientations[i],)
             else:
-- 
2.43.0


From 52c2cdc33a9e59cdd95b7c3793c2b7db9abbc9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 34/84] fix: keep the orientations paired with their points
 when sorting or cutting

---
 IMTreatment/core/orientedpoints.py |  5 +++++
 IMTreatment/core/points.py         | 16 ++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 5886c12..171e1cf 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -315,6 +315,11 @@ class OrientedPoints(pts.Points):
         if not inplace:
             return tmp_pts
 
+    def _reorder(self, order):
+        pts.Points._reorder(self, order)
+        if len(self.orientations) != 0:
+            self.orientations = self.orientations[order]
+
     def reverse(self):
         """
         Return an OrientedPoints object where x and y axis are swaped.
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e7e3f0c..369cb73 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1061,9 +1061,7 @@ class Points(object):
             out_zone = np.logical_and(self.xy[:, 1] > intervy[0],
                                       self.xy[:, 1] < intervy[1])
             mask = np.logical_and(mask, out_zone)
-        tmp_pts.__xy = tmp_pts.xy[~mask, :]
-        if len(tmp_pts.v) != 0:
-            tmp_pts.__v = tmp_pts.v[~mask]
+        tmp_pts._reorder(np.where(~mask)[0])
         return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalev=1., inplace=False):
@@ -1246,13 +1244,19 @@ class Points(object):
             tmp_pt = self
         else:
             tmp_pt = self.copy()
-        tmp_pt.xy = tmp_pt.xy[order]
-        if len(tmp_pt.v) == len(tmp_pt.xy):
-            tmp_pt.v = tmp_pt.v[order]
+        tmp_pt._reorder(order)
         # returning
         if not inplace:
             return tmp_pt
 
+    def _reorder(self, order):
+        """
+        Keep, in place, the points of the given indices, in that order.
+        """
+        if len(self.v) == len(self.xy):
+            self.__v = self.v[order]
+        self.__xy = self.xy[order]
+
     def order_on_line(self, inplace=False):
         """
         Re-order the set of points to try to create a line.
-- 
2.43.0


From 57b09573f1567ec61f6b8a91394ba7e9896dccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:18 +0000
Subject: [PATCH 35/84] fix: Points.decompose returns copies,
 get_evolution_on_sf works on points

---
 IMTreatment/core/orientedpoints.py | 2 +-
 IMTreatment/core/points.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 171e1cf..433f79c 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -335,7 +335,7 @@ class OrientedPoints(pts.Points):
         object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 369cb73..dc93a1e 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -733,8 +733,8 @@ class Points(object):
         from .scalarfield import ScalarField
         if not isinstance(SF, ScalarField):
             raise TypeError()
+        from .profile import Profile
         if len(self.xy) == 0:
-            from .profile import Profile
             return Profile()
         if axe_x is None:
             if len(self.v) == len(self.xy):
@@ -1195,7 +1195,7 @@ class Points(object):
         return a tuple of Points object, with only one point per object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
-- 
2.43.0


From d1c4ab31f3ef333ab7fa2ffd58b75aca3deaa024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:49 +0000
Subject: [PATCH 36/84] fix: add the asked number of lines when extending
 fields with non binary steps

---
 IMTreatment/core/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 088186e..b78eabd 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -591,22 +591,22 @@ class Field(object):
         if nmb_left != 0:
             dx = self.axe_x[1] - self.axe_x[0]
             x0 = self.axe_x[0]
-            new_xs = np.arange(x0-dx*nmb_left, x0, dx)
+            new_xs = x0 + dx*np.arange(-nmb_left, 0)
             new_axe_x = np.concatenate((new_xs, new_axe_x))
         if nmb_right != 0:
             dx = self.axe_x[-1] - self.axe_x[-2]
             x0 = self.axe_x[-1]
-            new_xs = np.arange(x0 + dx, x0+dx*(nmb_right + 1), dx)
+            new_xs = x0 + dx*np.arange(1, nmb_right + 1)
             new_axe_x = np.concatenate((new_axe_x, new_xs))
         if nmb_down != 0:
             dy = self.axe_y[1] - self.axe_y[0]
             y0 = self.axe_y[0]
-            new_ys = np.arange(y0-dy*nmb_down, y0, dy)
+            new_ys = y0 + dy*np.arange(-nmb_down, 0)
             new_axe_y = np.concatenate((new_ys, new_axe_y))
         if nmb_up != 0:
             dy = self.axe_y[-1] - self.axe_y[-2]
             y0 = self.axe_y[-1]
-            new_ys = np.arange(y0 + dy, y0+dy*(nmb_up + 1), dy)
+            new_ys = y0 + dy*np.arange(1, nmb_up + 1)
             new_axe_y = np.concatenate((new_axe_y, new_ys))
         if inplace:
             self.__axe_x = new_axe_x
-- 
2.43.0


From 7843160cd3f28e5706d7d814925f74abdc6fe9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:12 +0000
Subject: [PATCH 37/84] fix: make the unit_times setter of series accept
 strings, copy given times

---
 IMTreatment/core/temporalfields.py | 4 ++--
 IMTreatment/core/temporalpoints.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bdaf115..af68cea 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -243,7 +243,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.fields)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
@@ -265,7 +265,7 @@ class TemporalFields(flds.Fields, fld.Field):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a495f81..20e6853 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -82,7 +82,7 @@ class TemporalPoints(object):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.point_sets)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
@@ -107,7 +107,7 @@ class TemporalPoints(object):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From d9ac7637c5fa50f3795515b661b4a4e6fe5d26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 38/84] fix: convert the time given to add_field and add_pts in
 the right direction, refuse fields on other axes

---
 IMTreatment/core/temporalfields.py | 10 ++++------
 IMTreatment/core/temporalpoints.py |  3 ++-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index af68cea..29cf6c4 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1099,10 +1099,6 @@ class TemporalFields(flds.Fields, fld.Field):
         # checking parameters
         if not isinstance(field, (vf.VectorField, sf.ScalarField)):
             raise TypeError()
-        if self.field_type is None:
-            self.field_type = field.__class__
-        if not isinstance(field, self.field_type):
-            raise TypeError()
         if not isinstance(time, NUMBERTYPES):
             raise TypeError("'time' should be a number, not {}"
                             .format(type(time)))
@@ -1130,11 +1126,13 @@ class TemporalFields(flds.Fields, fld.Field):
             # checking axis
             axe_x, axe_y = self.axe_x, self.axe_y
             vaxe_x, vaxe_y = field.axe_x, field.axe_y
-            if not np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y):
+            if not (np.array_equal(axe_x, vaxe_x) and
+                    np.array_equal(axe_y, vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            if unit_times.strUnit() != make_unit('').strUnit():
+                time = (time*unit_times).asNumber(self.unit_times)
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 20e6853..a9e6315 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -218,7 +218,8 @@ class TemporalPoints(object):
         # if not
         else:
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            if unit_times.strUnit() != make_unit('').strUnit():
+                time = (time*unit_times).asNumber(self.unit_times)
             self.__times = np.append(self.__times, time)
         # use default constructor
         self.point_sets.append(pt)
-- 
2.43.0


From 8786ad4fac976b705dfbdfe68b051635e4bccf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:02 +0000
Subject: [PATCH 39/84] fix: remove the asked elements of a series when several
 indices are given

---
 IMTreatment/core/fields.py         | 3 +--
 IMTreatment/core/temporalfields.py | 3 +--
 IMTreatment/core/temporalpoints.py | 6 +++---
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index e8dc468..a7cdcb9 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -148,8 +148,7 @@ class Fields(object):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.fields = np.delete(self.fields, nmb)
+        self.fields = np.delete(self.fields, fieldnumbers)
 
     def set_origin(self, x=None, y=None):
         """
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 29cf6c4..80d5bd1 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1150,8 +1150,7 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.__times = np.delete(self.times, nmb)
+        self.__times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
 
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index a9e6315..9b827db 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -237,9 +237,9 @@ class TemporalPoints(object):
         """
         if isinstance(indice, INTEGERTYPES):
             indice = [indice]
-        for i in indice:
-            self.__times = np.delete(self.times, i)
-            self.point_sets = np.delete(self.point_sets, i)
+        kept = np.delete(np.arange(len(self.point_sets)), indice)
+        self.__times = self.times[kept]
+        self.point_sets = [self.point_sets[i] for i in kept]
 
     def crop(self, intervx=None, intervy=None, intervv=None, intervt=None,
              full_output=False, ind=False, inplace=False):
-- 
2.43.0


From 49af4e04f7ed44cfe1aecbc33ae687b450a03a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:48 +0000
Subject: [PATCH 40/84] fix: flip the fields of a series scaled by a negative
 factor, keep its times sorted

---
 IMTreatment/core/temporalfields.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 80d5bd1..381f6da 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1000,17 +1000,18 @@ class TemporalFields(flds.Fields, fld.Field):
             tmp_f = self
         else:
             tmp_f = self.copy()
-        # scale the field (automaticly scale the fields axis)
         # for compatibility purpose
         if not hasattr(self, "xy_scale"):
             self.xy_scale = make_unit('')
         for field in self.fields:
             if not hasattr(field, "xy_scale"):
                 field.xy_scale = self.xy_scale
+        # scale the fields
+        flds.Fields.scale(tmp_f, scalex=scalex, scaley=scaley, scalev=scalev,
+                          inplace=True)
+        # scale the series axis
         fld.Field.scale(tmp_f, scalex=scalex, scaley=scaley,
                         inplace=True)
-        # scale the values
-        flds.Fields.scale(tmp_f, scalev=scalev, inplace=True)
         # scale the time
         if scalet is None:
             pass
@@ -1024,6 +1025,7 @@ class TemporalFields(flds.Fields, fld.Field):
             tmp_f.times *= fact
         else:
             raise TypeError()
+        tmp_f.__sort_field_by_time()
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From 241c7c765dd35eb3b2d96e068833199a14ea9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:44 +0000
Subject: [PATCH 41/84] fix: update the axes of a series after a reduction or a
 mirroring, return a copy when there is no border to crop

---
 IMTreatment/core/temporalfields.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 381f6da..6462558 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1180,8 +1180,8 @@ class TemporalFields(flds.Fields, fld.Field):
             if verbose:
                 pg.print_progress()
         #
-        self.axe_x = self.fields[0].axe_x
-        self.axe_y = self.fields[0].axe_y
+        tmpfs.axe_x = tmpfs.fields[0].axe_x
+        tmpfs.axe_y = tmpfs.fields[0].axe_y
         return tmpfs
 
     def reduce_temporal_resolution(self, nmb_in_interval, mean=True,
@@ -1301,7 +1301,7 @@ class TemporalFields(flds.Fields, fld.Field):
         mask_cum = self.mask_cum
         # checking masked values presence
         if not np.any(mask_cum):
-            return None
+            return None if inplace else self.copy()
         # hard cropping
         if hard:
             if inplace:
@@ -1350,7 +1350,7 @@ class TemporalFields(flds.Fields, fld.Field):
             axe_x_m = ~np.all(mask_cum, axis=1)
             # skip if nothing to do
             if not np.any(axe_y_m) or not np.any(axe_x_m):
-                return None
+                return None if inplace else self.copy()
             # getting indices where we need to cut
             axe_x_min = np.where(axe_x_m)[0][0]
             axe_x_max = np.where(axe_x_m)[0][-1]
@@ -1409,8 +1409,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                        mir_coef=mir_coef, inplace=True,
                                        interp=interp, value=value)
         # update field
-        tmp_tf.__axe_x = self.fields[0].axe_x
-        tmp_tf.__axe_y = self.fields[0].axe_y
+        tmp_tf.axe_x = tmp_tf.fields[0].axe_x
+        tmp_tf.axe_y = tmp_tf.fields[0].axe_y
         # return
         if not inplace:
             return tmp_tf
-- 
2.43.0


From d25b78d62b503a886edb8169d851a8a4be7d7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:58 +0000
Subject: [PATCH 42/84] fix: make fill of series leave its source alone, make
 the temporal fill of scalar series work

---
 IMTreatment/core/temporalscalarfields.py | 33 ++++++++++--------------
 IMTreatment/core/temporalvectorfields.py | 31 ++++++++++------------
 2 files changed, 27 insertions(+), 37 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index efa27e4..ef10488 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -355,20 +355,26 @@ class TemporalScalarFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        # inplace or not
+        if inplace:
+            tmp_tsf = self
+        else:
+            tmp_tsf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tsf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tsf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting datas
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tsf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
-                prof = self.get_time_profile('values', i, j, ind=True)
+                prof = tmp_tsf.get_time_profile('values', pt=[i, j], ind=True)
                 # creating interpolation function
                 if kind == 'value':
                     def interp(x):
@@ -388,32 +394,21 @@ class TemporalScalarFields(tf.TemporalFields):
                                                kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all profile masked points
-                for ind_masked in prof.mask:
+                for ind_masked in np.where(prof.mask)[0]:
                     try:
-                        interp_val = interp(prof.x[prof.mask])
+                        interp_val = interp(prof.x[ind_masked])
                     except ValueError:
                         continue
                     # putting interpolated value in the field
-                    fields[prof.mask].values[i, j] = interp_val
-                    fields[prof.mask].mask[i, j] = False
+                    fields[ind_masked].values[i, j] = interp_val
+                    fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tsf = self.copy()
-                fields = tmp_tsf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tsf = self.copy()
-            tmp_tsf.fields = fields
+        if not inplace:
             return tmp_tsf
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 79348a5..8757ea6 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -288,23 +288,29 @@ class TemporalVectorFields(tf.TemporalFields):
         elif not isinstance(value, ARRAYTYPES):
             raise TypeError()
         value = np.array(value)
+        # inplace or not
+        if inplace:
+            tmp_tvf = self
+        else:
+            tmp_tvf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tvf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tvf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tvf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
                 # get time profiles
-                prof_x = self.get_time_profile(component='comp_x', pt=[i, j],
-                                               ind=True)
-                prof_y = self.get_time_profile(component='comp_y', pt=[i, j],
-                                               ind=True)
+                prof_x = tmp_tvf.get_time_profile(component='comp_x',
+                                                  pt=[i, j], ind=True)
+                prof_y = tmp_tvf.get_time_profile(component='comp_y',
+                                                  pt=[i, j], ind=True)
                 # getting masked position on profile
                 inds_masked_x = np.where(prof_x.mask)[0]
                 inds_masked_y = np.where(prof_y.mask)[0]
@@ -336,8 +342,6 @@ class TemporalVectorFields(tf.TemporalFields):
                                                  kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all x profile masked points
                 for ind_masked in inds_masked_x:
                     try:
@@ -358,19 +362,10 @@ class TemporalVectorFields(tf.TemporalFields):
                     fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tvf = self.copy()
-                fields = tmp_tvf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tvf = self.copy()
-            tmp_tvf.fields = fields
+        if not inplace:
             return tmp_tvf
-- 
2.43.0


From 4264599471bccfe8d17f8d8854b6beff6ffc0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 43/84] fix: keep the last full interval when reducing the
 temporal resolution, return copies of interpolated fields

---
 IMTreatment/core/temporalfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 6462558..c6ffd65 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -332,7 +332,7 @@ class TemporalFields(flds.Fields, fld.Field):
         assert time <= self.times[-1]
         # if time is in self.times
         if np.any(self.times == time):
-            return self.fields[self.times == time][0]
+            return self.fields[np.argwhere(self.times == time)[0][0]].copy()
         # else, get the surrounding fields
         ind_time = np.argwhere(self.times > time)[0][0]
         denom = self.times[ind_time] - self.times[ind_time - 1]
@@ -1231,7 +1231,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 time /= nmb_in_interval
             tmp_TFS.add_field(tmp_f, time, self.unit_times)
             i += nmb_in_interval
-            if i + nmb_in_interval >= len(self):
+            if i + nmb_in_interval > len(self):
                 break
         # returning
         if inplace:
@@ -1279,7 +1279,7 @@ class TemporalFields(flds.Fields, fld.Field):
         for time in new_times:
             new_fields.append(tf.get_interpolated_field(time))
         # store
-        tf.fields = new_fields
+        tf.fields = np.append(np.array([], dtype=object), new_fields)
         tf.times = new_times
         # returning
         if not inplace:
-- 
2.43.0


From 3ca8d771b846f250fdcc1fb093787e80dc4adf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:28 +0000
Subject: [PATCH 44/84] fix: keep the times of a series in arithmetic, divide
 it by numbers and quantities

---
 IMTreatment/core/temporalfields.py | 50 +++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index c6ffd65..429d741 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -63,12 +63,13 @@ class TemporalFields(flds.Fields, fld.Field):
             return tmp_TF
         elif isinstance(other, self.__class__):
             tmp_tf = self.copy()
-            if np.all(self.times == other.times):
+            if self._has_same_times(other):
                 for i in np.arange(len(self.fields)):
                     tmp_tf.fields[i] += other.fields[i]
             else:
                 for i in np.arange(len(other.fields)):
-                    tmp_tf.add_field(other.fields[i])
+                    tmp_tf.add_field(other.fields[i], time=other.times[i],
+                                     unit_times=other.unit_times)
             return tmp_tf
         else:
             tmp_TF = self.copy()
@@ -79,6 +80,12 @@ class TemporalFields(flds.Fields, fld.Field):
         #     raise TypeError("cannot concatenate {} with"
         #                     " {}.".format(self.__class__, type(other)))
 
+    def _has_same_times(self, other):
+        if len(self.times) != len(other.times):
+            return False
+        fact = (other.unit_times/self.unit_times).asNumber()
+        return np.allclose(self.times, other.times*fact, rtol=1e-12, atol=0.)
+
     def __sub__(self, other):
         return self.__add__(-other)
 
@@ -92,19 +99,22 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x) and
+                    np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not self._has_same_times(other):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]*other.fields[i])
+                vfs.add_field(self.fields[i]*other.fields[i],
+                              time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            for i, field in enumerate(self.fields):
+                final_vfs.add_field(field*other, time=self.times[i],
+                                    unit_times=self.unit_times)
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -116,27 +126,30 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(other, self.__class__):
             if not len(self) == len(other):
                 raise Exception()
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x) and
+                    np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not self._has_same_times(other):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other.fields[i])
+                vfs.add_field(self.fields[i]/other.fields[i],
+                              time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
-            if not np.all(self.axe_x == other.axe_x) \
-                    and np.all(self.axe_y == other.axe_y):
+            if not (np.array_equal(self.axe_x, other.axe_x) and
+                    np.array_equal(self.axe_y, other.axe_y)):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other)
+                vfs.add_field(self.fields[i]/other, time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
             for i, field in enumerate(self.fields):
-                final_vfs.add_field(other, time=self.times[i],
+                final_vfs.add_field(field/other, time=self.times[i],
                                     unit_times=self.unit_times)
             return final_vfs
         else:
@@ -149,8 +162,9 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
         final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        for i, field in enumerate(self.fields):
+            final_vfs.add_field(np.power(field, number), time=self.times[i],
+                                unit_times=self.unit_times)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From 71e0a94bbf1becfae29c71e42146bb73311d7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:58 +0000
Subject: [PATCH 45/84] fix: make the cropping, scaling and unit changes of
 series of points act on the result and keep its units

---
 IMTreatment/core/temporalpoints.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 9b827db..3617173 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -132,10 +132,14 @@ class TemporalPoints(object):
         else:
             tmp_ps = self.copy()
         for i in range(len(self.point_sets)):
-            tmp_ps.point_sets[i].scale(scalex=scalex,
-                                       scaley=scaley,
-                                       scalev=scalev,
-                                       inplace=True)
+            tmp_ps.point_sets[i].scale(
+                scalex=1. if scalex is None else scalex,
+                scaley=1. if scaley is None else scaley,
+                scalev=1. if scalev is None else scalev,
+                inplace=True)
+        if len(tmp_ps.point_sets) != 0:
+            tmp_ps.unit_x = tmp_ps.point_sets[0].unit_x
+            tmp_ps.unit_y = tmp_ps.point_sets[0].unit_y
         # scale the time
         if scalet is None:
             pass
@@ -149,6 +153,7 @@ class TemporalPoints(object):
             tmp_ps.times *= fact
         else:
             raise TypeError()
+        tmp_ps.__sort_field_by_time()
         # returning
         return tmp_ps
 
@@ -174,7 +179,11 @@ class TemporalPoints(object):
             raise TypeError()
         if axe in ['x', 'y', 'values']:
             for pt in self.point_sets:
-                pt.change_unit(axe, new_unit)
+                pt.change_unit('v' if axe == 'values' else axe, new_unit)
+            if axe == 'x':
+                self.unit_x = new_unit
+            elif axe == 'y':
+                self.unit_y = new_unit
         elif axe == 'time':
             old_unit = self.unit_times
             new_unit = old_unit.asUnit(new_unit)
@@ -284,6 +293,8 @@ class TemporalPoints(object):
                 else:
                     ind2 = np.where(intervt[1] >= self.times)[0][-1]
                 intervt = [ind1, ind2]
+            else:
+                intervt = [int(intervt[0]), int(intervt[1])]
         # crop
         if inplace:
             croppts = self
@@ -294,7 +305,7 @@ class TemporalPoints(object):
             croppts.point_sets = croppts.point_sets[intervt[0]:intervt[1] + 1]
             croppts.times = croppts.times[intervt[0]:intervt[1] + 1]
         # spatial
-        for pt in self.point_sets:
+        for pt in croppts.point_sets:
             pt.crop(intervx=intervx, intervy=intervy, intervv=intervv,
                     inplace=True)
         # returning
-- 
2.43.0


From 93c43acbe3df3bd32bd993f105e18b1bd2799ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:23 +0000
Subject: [PATCH 46/84] fix: accept composed time units in add_field and
 add_pts

---
 IMTreatment/core/temporalfields.py | 3 ++-
 IMTreatment/core/temporalpoints.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 429d741..9da9a2d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1148,7 +1148,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                  "with current axes")
             # storing time
             if unit_times.strUnit() != make_unit('').strUnit():
-                time = (time*unit_times).asNumber(self.unit_times)
+                fact = unit_times/self.unit_times
+                time = time*fact.asNumber(make_unit(''))
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 3617173..87b62fa 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -228,7 +228,8 @@ class TemporalPoints(object):
         else:
             # storing time
             if unit_times.strUnit() != make_unit('').strUnit():
-                time = (time*unit_times).asNumber(self.unit_times)
+                fact = unit_times/self.unit_times
+                time = time*fact.asNumber(make_unit(''))
             self.__times = np.append(self.__times, time)
         # use default constructor
         self.point_sets.append(pt)
-- 
2.43.0


From 3f0df3c75dcd73dc21f3c2a676e28ab9cc8311f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:12 +0000
Subject: [PATCH 47/84] fix: keep the points having the minimum number of
 values in the mean, minimum and maximum fields

---
 IMTreatment/core/temporalfields.py       |  2 +-
 IMTreatment/core/temporalscalarfields.py | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 9da9a2d..487f5ae 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -327,7 +327,7 @@ class TemporalFields(flds.Fields, fld.Field):
             added_field.fill(kind='value', value=0., inplace=True)
             result_f += added_field
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < max(nmb_min, 1)
         result_f.mask = mask
         result_f.change_dtype(dtype)
         fact = mask_cum
diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index ef10488..0934c16 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -64,11 +64,12 @@ class TemporalScalarFields(tf.TemporalFields):
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_min_mask = np.logical_and(field.values < result_f.values,
-                                          np.logical_not(field.mask))
+            new_min_mask = np.logical_and(
+                np.logical_or(field.values < result_f.values, mask_cum == 0),
+                np.logical_not(field.mask))
             result_f.values[new_min_mask] = field.values[new_min_mask]
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < max(nmb_min, 1)
         result_f.mask = mask
         return result_f
 
@@ -88,11 +89,12 @@ class TemporalScalarFields(tf.TemporalFields):
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_max_mask = np.logical_and(field.values > result_f.values,
-                                          np.logical_not(field.mask))
+            new_max_mask = np.logical_and(
+                np.logical_or(field.values > result_f.values, mask_cum == 0),
+                np.logical_not(field.mask))
             result_f.values[new_max_mask] = field.values[new_max_mask]
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = mask_cum < max(nmb_min, 1)
         result_f.mask = mask
         return result_f
 
-- 
2.43.0


From 7f107ee1c4c35793a29a04d52c714ce93163396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:25 +0000
Subject: [PATCH 48/84] fix: correct the units of spectrum maps and normalized
 recurrence maps

---
 IMTreatment/core/temporalfields.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 487f5ae..d4dd0f7 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -838,7 +838,7 @@ class TemporalFields(flds.Fields, fld.Field):
                                            mask=map_freq_mask,
                                            unit_x=self.unit_x,
                                            unit_y=self.unit_y,
-                                           unit_values=spec.unit_y)
+                                           unit_values=spec.unit_x)
             map_freq_quality_sf = sf.ScalarField()
             map_freq_quality_sf.import_from_arrays(axe_x=self.axe_x,
                                                    axe_y=self.axe_y,
@@ -922,7 +922,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 magnitude = self.get_mean_field().magnitude
                 normalizer = np.sum(magnitude**norm)**inv_norm/nmb_val
             else:
-                magnitude = self.get_mean_field().values
+                magnitude = np.abs(self.get_mean_field().values)
                 normalizer = np.sum(magnitude**norm)**inv_norm/nmb_val
         # double loop
         for i in range(length):
@@ -954,15 +954,17 @@ class TemporalFields(flds.Fields, fld.Field):
                 rec_map[i, j] = res
                 rec_map[j, i] = res
         # normalize
+        unit_values = self.unit_values
         if normalized:
             rec_map /= normalizer
+            unit_values = make_unit('')
         # return
         rec_map_sf = sf.ScalarField()
         rec_map_sf.import_from_arrays(axe_x=self.times, axe_y=self.times,
                                       values=rec_map,
                                       unit_x=self.unit_times,
                                       unit_y=self.unit_times,
-                                      unit_values=self.unit_values)
+                                      unit_values=unit_values)
         return rec_map_sf
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0,
-- 
2.43.0


From f8f54ced23e7e78033aec9a860becf392121291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:39 +0000
Subject: [PATCH 49/84] fix: pair the points with their times in
 get_time_profile and inject_time_profile

---
 IMTreatment/core/temporalfields.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index d4dd0f7..26699d3 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -501,10 +501,12 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
-            pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
-                   self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
-            pt = np.array(pt, dtype=int)
+            inds = np.zeros((len(self.times), 2), dtype=int)
+            for i in np.where(~mask_times)[0]:
+                x, y = pt.xy[np.where(pt.v == self.times[i])[0][0]]
+                inds[i] = [self.get_indice_on_axe(1, x, kind='nearest'),
+                           self.get_indice_on_axe(2, y, kind='nearest')]
+            pt = inds
         if wanted_times is not None:
             if wanted_times[-1] <= wanted_times[0]:
                 raise ValueError()
@@ -519,7 +521,7 @@ class TemporalFields(flds.Fields, fld.Field):
         compo = np.empty(dim, dtype=float)
         masks = np.empty(dim, dtype=float)
         for i, time_ind in enumerate(w_times_ind):
-            ind_x, ind_y = pt[i]
+            ind_x, ind_y = pt[time_ind]
             compo[i] = self.fields[time_ind].__getattribute__(component)[ind_x,
                                                                          ind_y]
             masks[i] = self.fields[time_ind].mask[ind_x, ind_y]
@@ -567,14 +569,17 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
-            pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
-                   self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
-            pt = np.array(pt, dtype=int)
+            inds = np.zeros((len(self.times), 2), dtype=int)
+            for i in np.where(~mask_times)[0]:
+                x, y = pt.xy[np.where(pt.v == self.times[i])[0][0]]
+                inds[i] = [self.get_indice_on_axe(1, x, kind='nearest'),
+                           self.get_indice_on_axe(2, y, kind='nearest')]
+            pt = inds
         if len(prof) != len(self):
             raise ValueError()
         # do it
-        for i in range(len(prof)):
+        for i in np.where(~mask_times)[0]:
+            ind_x, ind_y = pt[i]
             self.fields[i].__getattribute__(comp)[ind_x, ind_y] = prof.y[i]
 
     def get_temporal_spectrum(self, component, pt, ind=False,
-- 
2.43.0


From 9972b261e1dcb69ded4429ef70ed79cd99db760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:02 +0000
Subject: [PATCH 50/84] fix: make the spectra, phase maps, background and
 filtering of series work on every grid and leave their source alone

---
 IMTreatment/core/scalarfield.py          |  4 ++++
 IMTreatment/core/temporalfields.py       |  6 +++---
 IMTreatment/core/temporalscalarfields.py | 14 ++++++++------
 IMTreatment/core/temporalvectorfields.py |  4 ++--
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 7bc4b02..926779a 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -349,6 +349,10 @@ class ScalarField(fld.Field):
     def values(self):
         raise Exception("Nope, can't do that")
 
+    @property
+    def values_as_sf(self):
+        return self
+
     @property
     def mask(self):
         return self.__mask
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 26699d3..7e4d08f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -420,7 +420,7 @@ class TemporalFields(flds.Fields, fld.Field):
         # check parameters
         try:
             self[0].__getattribute__('{}_as_sf'.format(component))
-        except AttributeError():
+        except AttributeError:
             raise ValueError()
         if not isinstance(direction, STRINGTYPES):
             raise TypeError()
@@ -437,7 +437,7 @@ class TemporalFields(flds.Fields, fld.Field):
             intervtime[0] = self.times[0]
         if intervtime[-1] > self.times[-1]:
             intervtime[-1] = self.times[-1]
-        if intervtime[0] >= intervtime[1]:
+        if intervtime[0] > intervtime[1]:
             raise ValueError()
         # loop on times
         spec = 0
@@ -878,7 +878,7 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         # check
         try:
-            tf = self.__getattribute__("{}_as_sf".format(comp))
+            tf = self.__getattribute__("{}_as_sf".format(comp)).copy()
         except AttributeError():
             raise ValueError()
         # loop on space
diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 0934c16..1777410 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -134,8 +134,8 @@ class TemporalScalarFields(tf.TemporalFields):
             old_std = 0
             mean = np.mean(vals, dtype=float)
             while True:
-                vals = vals[np.logical_and(vals > mean - std,
-                                           vals < mean + std)]
+                vals = vals[np.logical_and(vals >= mean - std,
+                                           vals <= mean + std)]
                 old_std = std
                 std = np.std(vals)
                 mean = np.mean(vals)
@@ -248,8 +248,10 @@ class TemporalScalarFields(tf.TemporalFields):
                 if verbose:
                     pg.print_progress()
                 # get profile
-                profile = self.get_time_profile(compo, (x, y),
-                                                wanted_times=[0, tf])
+                profile = self.get_time_profile(
+                    compo, (x, y),
+                    wanted_times=[self.times[0],
+                                  self.times[min(tf, len(self) - 1)]])
                 prof = profile.y
                 dx = profile.x[1] - profile.x[0]
                 # get fft
@@ -278,14 +280,14 @@ class TemporalScalarFields(tf.TemporalFields):
         norm = sf.ScalarField()
         norm.import_from_arrays(axe_x=self.axe_x,
                                 axe_y=self.axe_y,
-                                values=norms.transpose(),
+                                values=norms,
                                 unit_x=self.unit_x,
                                 unit_y=self.unit_y,
                                 unit_values="")
         phase = sf.ScalarField()
         phase.import_from_arrays(axe_x=self.axe_x,
                                  axe_y=self.axe_y,
-                                 values=phases.transpose(),
+                                 values=phases,
                                  unit_x=self.unit_x,
                                  unit_y=self.unit_y,
                                  unit_values="rad")
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 8757ea6..93963c8 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -106,12 +106,12 @@ class TemporalVectorFields(tf.TemporalFields):
         """
         Vx0 = self.fields[0].comp_x
         Vy0 = self.fields[0].comp_y
-        norm = np.mean(Vx0*Vx0 + Vy0*Vy0)
+        norm = np.nanmean(Vx0*Vx0 + Vy0*Vy0)
         corr = np.zeros((len(self.times),))
         for i, time in enumerate(self.times):
             Vxi = self.fields[i].comp_x
             Vyi = self.fields[i].comp_y
-            corr[i] = np.mean(Vx0*Vxi + Vy0*Vyi)/norm
+            corr[i] = np.nanmean(Vx0*Vxi + Vy0*Vyi)/norm
         return prof.Profile(self.times, corr, mask=False,
                             unit_x=self.unit_times,
                             unit_y=make_unit(''))
-- 
2.43.0


From d75f906ab8393d5b6b01bcf5490bb806a3d895da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:05 +0000
Subject: [PATCH 51/84] fix: take the minimum and maximum fields over the valid
 values only, also where the first field is masked

---
 IMTreatment/core/temporalscalarfields.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 1777410..739a02a 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -61,15 +61,17 @@ class TemporalScalarFields(tf.TemporalFields):
         if len(self.fields) == 0:
             raise ValueError("There is no fields in this object")
         result_f = self.fields[0].copy()
+        values = result_f.values.copy()
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
             new_min_mask = np.logical_and(
-                np.logical_or(field.values < result_f.values, mask_cum == 0),
+                np.logical_or(field.values < values, mask_cum == 0),
                 np.logical_not(field.mask))
-            result_f.values[new_min_mask] = field.values[new_min_mask]
+            values[new_min_mask] = field.values[new_min_mask]
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum < max(nmb_min, 1)
+        result_f.values = values
         result_f.mask = mask
         return result_f
 
@@ -86,15 +88,17 @@ class TemporalScalarFields(tf.TemporalFields):
         if len(self.fields) == 0:
             raise ValueError("There is no fields in this object")
         result_f = self.fields[0].copy()
+        values = result_f.values.copy()
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
             new_max_mask = np.logical_and(
-                np.logical_or(field.values > result_f.values, mask_cum == 0),
+                np.logical_or(field.values > values, mask_cum == 0),
                 np.logical_not(field.mask))
-            result_f.values[new_max_mask] = field.values[new_max_mask]
+            values[new_max_mask] = field.values[new_max_mask]
             mask_cum[np.logical_not(field.mask)] += 1
         mask = mask_cum < max(nmb_min, 1)
+        result_f.values = values
         result_f.mask = mask
         return result_f
 
-- 
2.43.0


From 580d87a1af5a8f71025eff09bb027e7973fefaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:23 +0000
Subject: [PATCH 52/84] fix: make Points.change_unit work on integer values

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index dc93a1e..7c1ec5d 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -957,7 +957,7 @@ class Points(object):
             old_unit = self.unit_v
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
-            self.v *= fact
+            self.v = self.v*fact
             self.unit_v = new_unit/fact
         else:
             raise ValueError()
-- 
2.43.0


From 97b2e17369bdd12f838065a70871868c73acc026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:35 +0000
Subject: [PATCH 53/84] fix: let make_unit evaluate unit expressions only, and
 know every unit by its name

---
 IMTreatment/utils/units.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index 5031bc4..d5e0628 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -22,6 +22,7 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 
 import numpy as np
+import ast
 import re
 import unum
 import unum.units as units
@@ -57,20 +58,22 @@ def make_unit(string):
     """
     if string == "":
         return unum.Unum({})
-    # Safe check
-    forbidden = ['import', '=', '\n', ';', ':', '"', "'", "open"]
-    forbidden += [key for key in globals().keys()]
-    for f in forbidden:
-        if f in string:
-            raise Exception("Unauthorized string: {}".format(f))
-    if re.match("[a-zA-Z]+\(.*\)", string):
-        raise Exception("No call allowed here")
     # Replace '^' by '**'
-    string = string.replace('^', '**')
-    # exec
-    env = {}
-    exec("from unum.units import *;res = {}".format(string), env)
-    return env['res']
+    string = string.replace('^', '**').strip()
+    # Safe check (only numbers, units and operators)
+    allowed = (ast.Expression, ast.BinOp, ast.UnaryOp, ast.operator,
+               ast.unaryop, ast.Name, ast.Load, ast.Constant)
+    for node in ast.walk(ast.parse(string, mode='eval')):
+        if not isinstance(node, allowed):
+            raise Exception("Unauthorized string: {}".format(string))
+        if isinstance(node, ast.Name) and \
+           not isinstance(getattr(units, node.id, None), unum.Unum):
+            raise Exception("Unknown unit: {}".format(node.id))
+        if isinstance(node, ast.Constant) and \
+           not isinstance(node.value, NUMBERTYPES):
+            raise Exception("Unauthorized string: {}".format(string))
+    # evaluation
+    return eval(string, {'__builtins__': {}}, vars(units))
 
 
 def make_unit_old(string):
-- 
2.43.0


From 511fa97a41c88861a20caeaba84786aa2f7e0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:53 +0000
Subject: [PATCH 54/84] fix: give fields and series data of their own when
 cropping and when their values are set

---
 IMTreatment/core/field.py          | 4 ++--
 IMTreatment/core/scalarfield.py    | 8 ++++----
 IMTreatment/core/temporalpoints.py | 2 +-
 IMTreatment/core/vectorfield.py    | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index b78eabd..da42056 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -562,8 +562,8 @@ class Field(object):
                 return indmin_x, indmax_x, indmin_y, indmax_y
         else:
             cropfield = self.copy()
-            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1]
-            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1]
+            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1].copy()
+            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1].copy()
             if full_output:
                 return indmin_x, indmax_x, indmin_y, indmax_y, cropfield
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 926779a..e789560 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -331,7 +331,7 @@ class ScalarField(fld.Field):
     def values(self, new_values):
         if not isinstance(new_values, ARRAYTYPES):
             raise TypeError()
-        new_values = np.asarray(new_values)
+        new_values = np.array(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
             # (types without 'nan' can't carry the mask, so it is conserved)
@@ -365,7 +365,7 @@ class ScalarField(fld.Field):
             new_mask = np.empty(self.shape, dtype=bool)
             new_mask.fill(fill_value)
         elif isinstance(new_mask, ARRAYTYPES):
-            new_mask = np.asarray(new_mask, dtype=bool)
+            new_mask = np.array(new_mask, dtype=bool)
         else:
             raise TypeError("'mask' should be an array or a boolean,"
                             " not a {}".format(type(new_mask)))
@@ -1427,9 +1427,9 @@ class ScalarField(fld.Field):
                 fld.Field.crop(self, intervx=intervx, intervy=intervy,
                                full_output=True, ind=ind, inplace=False)
             cropfield.__values = self.values[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0, value=None,
diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 87b62fa..5fb0d84 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -232,7 +232,7 @@ class TemporalPoints(object):
                 time = time*fact.asNumber(make_unit(''))
             self.__times = np.append(self.__times, time)
         # use default constructor
-        self.point_sets.append(pt)
+        self.point_sets.append(pt.copy())
         # sorting the field with time
         self.__sort_field_by_time()
 
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index cdb16c0..9faa17d 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1015,11 +1015,11 @@ class VectorField(field.Field):
                 field.Field.crop(self, intervx=intervx, intervy=intervy,
                                  full_output=True, ind=ind)
             cropfield.__comp_x = self.comp_x[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__comp_y = self.comp_y[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
+                                             indmin_y:indmax_y + 1].copy()
             cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+                                         indmin_y:indmax_y + 1].copy()
             return cropfield
 
     def crop_masked_border(self, hard=False, inplace=False):
-- 
2.43.0


From 8e47bf848a9564e4cadb33be6202237c12e67256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:52 +0000
Subject: [PATCH 55/84] fix: make the in-place variants of evenly_space and
 reduce_temporal_resolution work on the object, and conserve xy_scale in the
 copying variants

---
 IMTreatment/core/profile.py        | 2 +-
 IMTreatment/core/scalarfield.py    | 2 ++
 IMTreatment/core/temporalfields.py | 2 ++
 IMTreatment/core/vectorfield.py    | 1 +
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 1e7ae14..68ee73d 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1740,7 +1740,7 @@ class Profile(object):
         dxs = self.x[1::] - self.x[:-1:]
         dxi = self.x[1] - self.x[0]
         if np.all(np.abs(dxs - dxi) < 1e-6*np.max(dxs)):
-            return self.copy()
+            return tmpp
         # getting data
         mask = self.mask
         filt = np.logical_not(mask)
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e789560..5eb9ce9 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1907,6 +1907,7 @@ class ScalarField(fld.Field):
             sf.import_from_arrays(x, y, values, mask=False, unit_x=self.unit_x,
                                   unit_y=self.unit_y,
                                   unit_values=self.unit_values)
+            sf.xy_scale = self.xy_scale
             return sf
 
     def smooth(self, tos='uniform', size=None, inplace=False, **kw):
@@ -2093,6 +2094,7 @@ class ScalarField(fld.Field):
                                   unit_x=self.unit_x, unit_y=self.unit_y,
                                   unit_values=self.unit_values,
                                   dtype=self._values_dtype)
+            sf.xy_scale = self.xy_scale
             return sf
 
     def __clean(self):
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 7e4d08f..ac25328 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1233,6 +1233,8 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("'nmb_in_interval' must be a positive integer")
 
         if nmb_in_interval == 1:
+            if inplace:
+                return None
             return self.copy()
         if nmb_in_interval >= len(self):
             raise ValueError("'nmb_in_interval' is too big")
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 9faa17d..471d74c 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -981,6 +981,7 @@ class VectorField(field.Field):
                                   new_comp_y.values, mask=False,
                                   unit_x=self.unit_x, unit_y=self.unit_y,
                                   unit_values=self.unit_values)
+            vf.xy_scale = self.xy_scale
             return vf
 
     def crop(self, intervx=None, intervy=None, ind=False,
-- 
2.43.0


From 0a68ba9a2f66a73800ed71d4325d81aebb4e7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:29 +0000
Subject: [PATCH 56/84] fix: put the garbage collection back in its previous
 state when loading or saving a file fails

---
 IMTreatment/file_operation/file_operation.py | 24 ++++++--------------
 IMTreatment/utils/codeinteraction.py         | 17 ++++++++++++++
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 7c55a1e..9c89dd3 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -21,7 +21,6 @@
 # You should have received a copy of the GNU General Public License
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 
-import gc
 import gzip
 import os
 from glob import glob
@@ -46,6 +45,7 @@ from ..core import (Points, Profile, ScalarField, SpatialScalarFields,
                     VectorField)
 from ..vortex_detection import CritPoints
 from ..utils import ProgressCounter, make_unit
+from ..utils.codeinteraction import disabled_gc
 from ..utils.types import ARRAYTYPES, STRINGTYPES
 
 
@@ -304,15 +304,11 @@ def import_from_file(filepath, **kw):
     extension = path.splitext(filepath)[1]
     # importing file
     if extension == ".imt":
-        gc.disable()
-        with open(filepath, 'rb') as f:
+        with disabled_gc(), open(filepath, 'rb') as f:
             obj = pickle.load(f)
-        gc.enable()
     elif extension == ".cimt":
-        gc.disable()
-        with gzip.open(filepath, 'rb') as f:
+        with disabled_gc(), gzip.open(filepath, 'rb') as f:
             obj = pickle.load(f)
-        gc.enable()
     else:
         raise IOError("File is not readable "
                       "(unknown extension : {})".format(extension))
@@ -347,21 +343,15 @@ def export_to_file(obj, filepath, compressed=True, **kw):
         # creating/filling up the file
         raise TypeError("'compressed' must be a boolean")
     if compressed:
-        gc.disable()
         if path.splitext(filepath)[1] != ".cimt":
             filepath = filepath + ".cimt"
-        f = gzip.open(filepath, 'wb')
-        pickle.dump(obj, f, protocol=-1)
-        f.close()
-        gc.enable()
+        with disabled_gc(), gzip.open(filepath, 'wb') as f:
+            pickle.dump(obj, f, protocol=-1)
     else:
-        gc.disable()
         if path.splitext(filepath)[1] != ".imt":
             filepath = filepath + ".imt"
-        f = open(filepath, 'wb')
-        pickle.dump(obj, f, protocol=-1)
-        f.close()
-        gc.enable()
+        with disabled_gc(), open(filepath, 'wb') as f:
+            pickle.dump(obj, f, protocol=-1)
 
 
 def imts_to_imt(imts_path, imt_path, kind):
diff --git a/IMTreatment/utils/codeinteraction.py b/IMTreatment/utils/codeinteraction.py
index 95ae4ce..15c9d50 100644
--- a/IMTreatment/utils/codeinteraction.py
+++ b/IMTreatment/utils/codeinteraction.py
@@ -21,7 +21,24 @@
 # You should have received a copy of the GNU General Public License
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 
+import gc
 import os
+from contextlib import contextmanager
+
+
+@contextmanager
+def disabled_gc():
+    """
+    Context object to disable the garbage collection (pickling is faster
+    without it) and put it back in its previous state, even on failure.
+    """
+    enabled = gc.isenabled()
+    gc.disable()
+    try:
+        yield
+    finally:
+        if enabled:
+            gc.enable()
 
 
 class RemoveFortranOutput(object):
-- 
2.43.0


From 0cbad944127aeb2be5e2c66a6b91ec29de07ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:42 +0000
Subject: [PATCH 57/84] fix: let memoized functions start from a damaged cache
 file and restore the garbage collection on failure

---
 IMTreatment/utils/memoization.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/utils/memoization.py b/IMTreatment/utils/memoization.py
index dcc8be3..6dccb22 100644
--- a/IMTreatment/utils/memoization.py
+++ b/IMTreatment/utils/memoization.py
@@ -21,31 +21,30 @@
 # You should have received a copy of the GNU General Public License
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 
-import gc
 import gzip
 import pickle
+import zlib
+
+from .codeinteraction import disabled_gc
 
 
 def memoize_to_file(file_name):
     """ Decorator that memoize the function result in a file. """
 
     def decorator(original_func):
-        gc.disable()
         try:
-            with gzip.open(file_name, 'rb') as f:
+            with disabled_gc(), gzip.open(file_name, 'rb') as f:
                 cache = pickle.load(f)
-        except (IOError, ValueError):
+        except (IOError, ValueError, EOFError, zlib.error,
+                pickle.UnpicklingError):
             cache = {}
-        gc.enable()
 
         def new_func(*args, **kwargs):
             key = pickle.dumps((args, kwargs))
             if key not in cache:
                 cache[key] = original_func(*args, **kwargs)
-                gc.disable()
-                with gzip.open(file_name, 'wb') as f:
+                with disabled_gc(), gzip.open(file_name, 'wb') as f:
                     pickle.dump(cache, f, protocol=-1)
-                gc.enable()
             return cache[key]
 
         return new_func
-- 
2.43.0


From 3cafc10569acf61ae411641187a0a56e5f73d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:56 +0000
Subject: [PATCH 58/84] fix: concatenate the files in order and list only the
 folders holding a matching file

---
 IMTreatment/file_operation/file_operation.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 9c89dd3..82f42f9 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -137,11 +137,7 @@ def find_file_in_path(regs, dirpath, ask=False):
     dir_paths = []
     # recursive loop on folders
     for root, dirs, files in os.walk(dirpath):
-        for f in files:
-            match = np.any([re.match(reg, f) for reg in regs])
-            if match:
-                break
-        if match:
+        if any(re.match(reg, f) for f in files for reg in regs):
             dir_paths.append(root)
     # choose
     if ask and len(dir_paths) > 1:
@@ -375,7 +371,7 @@ def imts_to_imt(imts_path, imt_path, kind):
     if not isinstance(kind, STRINGTYPES):
         raise TypeError()
     # getting paths
-    paths = glob(imts_path + "/*")
+    paths = sorted(glob(imts_path + "/*"))
     # getting data type
     if kind == 'TSF':
         imts_type = 'SF'
-- 
2.43.0


From 5ea09e2ac3422ccef97ac11f35b515de5b6dea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:01 +0000
Subject: [PATCH 59/84] fix: put every value of a text file at its own
 coordinates and make the import of series of text files work

---
 IMTreatment/file_operation/file_operation.py | 63 +++++---------------
 1 file changed, 15 insertions(+), 48 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 82f42f9..ff4e08d 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -1673,45 +1673,12 @@ def import_sf_from_ascii(filepath, x_col=1, y_col=2, vx_col=3,
     # extract data from file
     data = np.genfromtxt(filepath, **kwargs)
     # get axes
-    x = data[:, x_col-1]
-    x_org = np.sort(np.unique(x))
-    y = data[:, y_col-1]
-    y_org = np.sort(np.unique(y))
-    vx = data[:, vx_col-1]
-
-    # check if structured or not
-    X1 = x.reshape(len(x_org), len(y_org))
-    X2 = x.reshape(len(y_org), len(x_org))
-    if np.allclose(np.mean(X1, axis=1), x_org):
-        vx_org = vx.reshape(len(x_org), len(y_org))
-        mask = np.isnan(vx_org)
-    elif np.allclose(np.mean(X2, axis=0), x_org):
-        vx_org = vx.reshape(len(y_org), len(x_org)).transpose()
-        vx_org = np.fliplr(vx_org)
-        mask = np.isnan(vx_org)
-    else:
-        # Masking all the initial fields (to handle missing values)
-        vx_org = np.zeros((y_org.shape[0], x_org.shape[0]))
-        vx_org_mask = np.ones(vx_org.shape)
-        vx_org = np.ma.masked_array(vx_org, vx_org_mask)
-        #loop on all 'v' values
-        x_ind = 0
-        y_ind = 0
-        for i in np.arange(vx.shape[0]):
-            x_tmp = x[i]
-            y_tmp = y[i]
-            vx_tmp = vx[i]
-            #find x index
-            if x_org[x_ind] != x_tmp:
-                x_ind = np.where(x_tmp == x_org)[0][0]
-            #find y index
-            if y_org[y_ind] != y_tmp:
-                y_ind = np.where(y_tmp == y_org)[0][0]
-            #put the value at its place
-            vx_org[y_ind, x_ind] = vx_tmp
-        # Treating 'nan' values
-        mask = np.logical_or(vx_org.mask, np.isnan(vx_org.data))
-
+    x_org, x_ind = np.unique(data[:, x_col-1], return_inverse=True)
+    y_org, y_ind = np.unique(data[:, y_col-1], return_inverse=True)
+    # put the values at their place (missing values are masked)
+    vx_org = np.full((len(x_org), len(y_org)), np.nan)
+    vx_org[x_ind, y_ind] = data[:, vx_col-1]
+    mask = np.isnan(vx_org)
     #store field in attributes
     tmpsf = ScalarField()
     tmpsf.import_from_arrays(x_org, y_org, vx_org, mask=mask, unit_x=unit_x,
@@ -1854,13 +1821,12 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
             raise ValueError("'interval' must be a 2x1 array")
         if interval[0] > interval[1]:
             interval = [interval[1], interval[0]]
-    filepath = check_path(filepath)
-    paths = glob.glob(filepath)
+    paths = sorted(glob(filepath))
     if interval is None:
         interval = [0, len(paths)-1]
-    if interval[0] < 0 or interval[1] > len(paths):
+    if interval[0] < 0 or interval[1] >= len(paths):
         raise ValueError("'interval' is out of bounds")
-    if times == []:
+    if len(times) == 0:
         times = np.arange(len(paths))
     if len(paths) != len(times):
         raise ValueError("Not enough values in 'times'")
@@ -1876,11 +1842,12 @@ def import_vfs_from_ascii(filepath, kind='TVF', incr=1, interval=None,
         if len(path) != ref_path_len:
             raise Warning("You should check your files names,"
                           "i may have taken them in the wrong order.")
-        tmp_vf = VectorField()
-        tmp_vf.import_from_ascii(path, x_col, y_col, vx_col, vy_col,
-                                 unit_x, unit_y, unit_values, times[i],
-                                 unit_time, **kwargs)
-        fields.add_field(tmp_vf)
+        tmp_vf = import_vf_from_ascii(path, x_col, y_col, vx_col, vy_col,
+                                      unit_x, unit_y, unit_values, **kwargs)
+        if kind == 'TVF':
+            fields.add_field(tmp_vf, times[i], unit_time)
+        else:
+            fields.add_field(tmp_vf)
     return fields
 
 
-- 
2.43.0


From b1604414803888c95e72a85b7836e55df8a699fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:38 +0000
Subject: [PATCH 60/84] fix: MATLAB and picture exchange lost units,
 dimensions, orientation and refused new files

---
 IMTreatment/file_operation/file_operation.py | 54 +++++++++++++-------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index ff4e08d..9544819 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -156,6 +156,19 @@ def find_file_in_path(regs, dirpath, ask=False):
     return dir_paths
 
 
+def _unit_to_string(unit):
+    """
+    Return a string representing the unit and readable by 'make_unit'.
+    """
+    def factors(part):
+        return '*'.join(name + ('**' + exp if exp else '') for name, exp
+                        in re.findall(r'([^\d.]+)(\d+(?:\.\d+)?)?', part))
+    num, _, den = unit.strUnit()[1:-1].partition('/')
+    if den == '':
+        return factors(num)
+    return "{}/({})".format(factors(num) or '1', factors(den))
+
+
 def matlab_parser(obj, name):
     classic_types = (int, float, str, bool)
     array_types = (list, float)
@@ -179,17 +192,17 @@ def matlab_parser(obj, name):
         xy = [list(comp) for comp in xy]
         dic = matlab_parser(list(obj.v), 'v')
         dic.update(matlab_parser(xy, 'xy'))
-        dic.update(matlab_parser(obj.unit_x.strUnit()[1:-1], 'unit_x'))
-        dic.update(matlab_parser(obj.unit_y.strUnit()[1:-1], 'unit_y'))
-        dic.update(matlab_parser(obj.unit_v.strUnit()[1:-1], 'unit_v'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_x), 'unit_x'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_y), 'unit_y'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_v), 'unit_v'))
         return {name: dic}
     elif isinstance(obj, Profile):
         mask = [int(val) for val in obj.mask]
         dic = matlab_parser(list(obj.x), 'x')
         dic.update(matlab_parser(list(obj.y), 'y'))
         dic.update(matlab_parser(mask, 'mask'))
-        dic.update(matlab_parser(obj.unit_x.strUnit()[1:-1], 'unit_x'))
-        dic.update(matlab_parser(obj.unit_y.strUnit()[1:-1], 'unit_y'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_x), 'unit_x'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_y), 'unit_y'))
         return {name: dic}
     elif isinstance(obj, VectorField):
         x = obj.axe_x
@@ -210,9 +223,9 @@ def matlab_parser(obj, name):
         dic.update(matlab_parser(comp_x, 'comp_x'))
         dic.update(matlab_parser(comp_y, 'comp_y'))
         dic.update(matlab_parser(mask, 'mask'))
-        dic.update(matlab_parser(obj.unit_x.strUnit()[1:-1], 'unit_x'))
-        dic.update(matlab_parser(obj.unit_y.strUnit()[1:-1], 'unit_y'))
-        dic.update(matlab_parser(obj.unit_values.strUnit()[1:-1],
+        dic.update(matlab_parser(_unit_to_string(obj.unit_x), 'unit_x'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_y), 'unit_y'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_values),
                                  'unit_values'))
         return {name: dic}
     elif isinstance(obj, ScalarField):
@@ -231,9 +244,9 @@ def matlab_parser(obj, name):
         dic.update(matlab_parser(list(Y), 'Y'))
         dic.update(matlab_parser(values, 'values'))
         dic.update(matlab_parser(mask, 'mask'))
-        dic.update(matlab_parser(obj.unit_x.strUnit()[1:-1], 'unit_x'))
-        dic.update(matlab_parser(obj.unit_y.strUnit()[1:-1], 'unit_y'))
-        dic.update(matlab_parser(obj.unit_values.strUnit()[1:-1],
+        dic.update(matlab_parser(_unit_to_string(obj.unit_x), 'unit_x'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_y), 'unit_y'))
+        dic.update(matlab_parser(_unit_to_string(obj.unit_values),
                                  'unit_values'))
         return {name: dic}
     elif isinstance(obj, CritPoints):
@@ -490,10 +503,11 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
     for key, entry in kwargs.items():
         if entry in keys:
             tdata = data[entry]
-            while not isinstance(tdata, str) and len(tdata) == 1:
+            while not isinstance(tdata, str) and np.ndim(tdata) != 0 and \
+                    len(tdata) == 1:
                 tdata = tdata[0]
             print(tdata)
-            if key in ['unit_x', 'unit_y', 'unit_values']:
+            if key in ['unit_x', 'unit_y', 'unit_values', 'unit_v']:
                 if isinstance(tdata, str):
                     build_dic[key] = tdata
                 else:
@@ -509,6 +523,12 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
                 build_dic[key] = build_dic[key][0]
         except TypeError:
             pass
+    # Get back the dimensions lost by matlab
+    for key in ['x', 'y', 'v', 'mask']:
+        if key in build_dic and obj in ['Profile', 'Points']:
+            build_dic[key] = np.ravel(build_dic[key])
+    if 'xy' in build_dic:
+        build_dic['xy'] = np.reshape(build_dic['xy'], (-1, 2))
     # Fill the object
     if obj in ['ScalarField', 'VectorField']:
         ress = res()
@@ -1344,10 +1364,8 @@ def import_from_pictures(filepath, axe_x=None, axe_y=None, unit_x='',
     else:
         if fieldnumbers[0] < 0:
             raise ValueError()
-        if fieldnumbers[1] > len(paths):
-            fieldnumbers[1] = len(paths)
         start = fieldnumbers[0]
-        end = fieldnumbers[1]
+        end = min(fieldnumbers[1], len(paths))
     if verbose:
         pg = ProgressCounter(init_mess="Importing pictures",
                              nmb_max=int((end - start + 1)/incr),
@@ -1471,7 +1489,7 @@ def export_to_picture(SF, filepath):
     filepath : string
         Path to the picture file.
     """
-    filepath = check_path(filepath)
+    filepath = check_path(filepath, newfile=True)
     values = SF.values[:, ::-1].transpose()
     imageio.imwrite(filepath, values)
 
@@ -1494,7 +1512,7 @@ def export_to_pictures(SFs, filepath):
     values = []
     if isinstance(SFs, ARRAYTYPES):
         for i in np.arange(len(SFs)):
-            values.append(SFs[i].values)
+            values.append(SFs[i].values[:, ::-1].transpose())
     elif isinstance(SFs, (SpatialScalarFields, TemporalScalarFields)):
         for i in np.arange(len(SFs.fields)):
             values.append(SFs.fields[i].values[:, ::-1].transpose())
-- 
2.43.0


From d33934a0f7d42b761b1dfc48ee42a94a8ece881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:50 +0000
Subject: [PATCH 61/84] fix: derivatives ignored uneven axes and the units of
 the y axis

---
 .../field_treatment/field_treatment.py        | 120 +++++++++++-------
 1 file changed, 77 insertions(+), 43 deletions(-)

diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index e70619a..17b5d24 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -29,9 +29,20 @@ import os
 from .. import Points, ScalarField, VectorField, Profile, \
     TemporalVectorFields, TemporalScalarFields
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
-from ..utils import RemoveFortranOutput
+from ..utils import RemoveFortranOutput, make_unit
 
 ### Gradients based operation
+def get_spacing(axe):
+    """
+    Return the spacing of an axis, as wanted by 'numpy.gradient': a number for
+    an evenly spaced axis, else the coordinates.
+    """
+    delta = axe[1] - axe[0]
+    if np.allclose(np.diff(axe), delta, rtol=1e-6, atol=0):
+        return delta
+    return axe
+
+
 def get_gradients(field, raw=False):
     """
     Return gradients along x and y.
@@ -54,8 +65,8 @@ def get_gradients(field, raw=False):
         for Profile input : dy/dx.
     """
     if isinstance(field, ScalarField):
-        dx = field.axe_x[1] - field.axe_x[0]
-        dy = field.axe_y[1] - field.axe_y[0]
+        dx = get_spacing(field.axe_x)
+        dy = get_spacing(field.axe_y)
         grad_x, grad_y = np.gradient(np.ma.masked_array(field.values,
                                                         field.mask),
                                      dx, dy)
@@ -89,8 +100,8 @@ def get_gradients(field, raw=False):
                                      unit_values=unit_values_y)
             return gradx, grady
     elif isinstance(field, VectorField):
-        dx = field.axe_x[1] - field.axe_x[0]
-        dy = field.axe_y[1] - field.axe_y[0]
+        dx = get_spacing(field.axe_x)
+        dy = get_spacing(field.axe_y)
         Vx_dx, Vx_dy = np.gradient(np.ma.masked_array(field.comp_x,
                                                       field.mask),
                                    dx, dy)
@@ -226,46 +237,50 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
         ### getting data
         axe_x = field_dx.axe_x
         axe_y = field_dy.axe_y
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dx = np.diff(axe_x)
+        dy = np.diff(axe_y)
         du_dx = field_dx.values
         du_dy = field_dy.values
         unit_values = field_dx.unit_values*field_dx.unit_x
         fact_unit_values = unit_values.asNumber()
         unit_values /= unit_values.asNumber()
+        # expressing the y increments in the same unit as the x ones
+        unit_values_y = field_dy.unit_values*field_dy.unit_y
+        du_dy = du_dy*(unit_values_y/unit_values).asNumber(make_unit('')) \
+            / fact_unit_values
 
         ###  Getting borders
         # 1 (0, 0)
         u1 = np.zeros(du_dx.shape)
         for i in np.arange(1, u1.shape[0]):
-            u1[i, 0] = u1[i - 1, 0] + dx*(du_dx[i - 1, 0]
+            u1[i, 0] = u1[i - 1, 0] + dx[i - 1]*(du_dx[i - 1, 0]
                                           + du_dx[i, 0])/2.
         for i in np.arange(1, u1.shape[1]):
-            u1[0, i] = u1[0, i - 1] + dy*(du_dy[0, i - 1]
+            u1[0, i] = u1[0, i - 1] + dy[i - 1]*(du_dy[0, i - 1]
                                           + du_dy[0, i])/2.
         # 2(0, 1)
         u2 = np.zeros(du_dx.shape)
         for i in np.arange(1, u2.shape[0]):
-            u2[i, -1] = u2[i - 1, -1] + dx*(du_dx[i - 1, -1]
+            u2[i, -1] = u2[i - 1, -1] + dx[i - 1]*(du_dx[i - 1, -1]
                                             + du_dx[i, -1])/2.
         for i in np.arange(u2.shape[1] - 2, -1, -1):
-            u2[0, i] = u2[0, i + 1] - dy*(du_dy[0, i + 1]
+            u2[0, i] = u2[0, i + 1] - dy[i]*(du_dy[0, i + 1]
                                           + du_dy[0, i])/2.
         # 3 (1, 0)
         u3 = np.zeros(du_dx.shape)
         for i in np.arange(u3.shape[0] - 2, -1, -1):
-            u3[i, 0] = u3[i + 1, 0] - dx*(du_dx[i + 1, 0]
+            u3[i, 0] = u3[i + 1, 0] - dx[i]*(du_dx[i + 1, 0]
                                           + du_dx[i, 0])/2.
         for i in np.arange(1, u3.shape[1]):
-            u3[-1, i] = u3[-1, i - 1] + dy*(du_dy[-1, i - 1]
+            u3[-1, i] = u3[-1, i - 1] + dy[i - 1]*(du_dy[-1, i - 1]
                                             + du_dy[-1, i])/2.
         # 4 (1, 1)
         u4 = np.zeros(du_dx.shape)
         for i in np.arange(u4.shape[0] - 2, -1, -1):
-            u4[i, -1] = u4[i + 1, -1] - dx*(du_dx[i + 1, -1]
+            u4[i, -1] = u4[i + 1, -1] - dx[i]*(du_dx[i + 1, -1]
                                             + du_dx[i, -1])/2.
         for i in np.arange(u4.shape[1] - 2, -1, -1):
-            u4[-1, i] = u4[-1, i + 1] - dy*(du_dy[-1, i + 1]
+            u4[-1, i] = u4[-1, i + 1] - dy[i]*(du_dy[-1, i + 1]
                                             + du_dy[-1, i])/2.
         # concatenate borders
         filt_border = np.zeros(u1.shape, dtype=bool)
@@ -291,36 +306,36 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
         u1 = u.copy()
         for i in np.arange(1, u1.shape[0]):
             for j in np.arange(1, u1.shape[1]):
-                est_a = u1[i - 1, j] + dx*(du_dx[i - 1, j]
+                est_a = u1[i - 1, j] + dx[i - 1]*(du_dx[i - 1, j]
                                            + du_dx[i, j])/2.
-                est_b = u1[i, j - 1] + dy*(du_dy[i, j - 1]
+                est_b = u1[i, j - 1] + dy[j - 1]*(du_dy[i, j - 1]
                                            + du_dy[i, j])/2.
                 u1[i, j] = (est_a + est_b)/2.
         # 2 from (0, 1)
         u2 = u.copy()
         for i in np.arange(1, u2.shape[0]):
             for j in np.arange(u2.shape[1] - 2, -1, -1):
-                est_a = u2[i - 1, j] + dx*(du_dx[i - 1, j]
+                est_a = u2[i - 1, j] + dx[i - 1]*(du_dx[i - 1, j]
                                            + du_dx[i, j])/2.
-                est_b = u2[i, j + 1] - dy*(du_dy[i, j + 1]
+                est_b = u2[i, j + 1] - dy[j]*(du_dy[i, j + 1]
                                            + du_dy[i, j])/2.
                 u2[i, j] = (est_a + est_b)/2.
         # 3 from (1, 0)
         u3 = u.copy()
         for i in np.arange(u3.shape[0] - 2, -1, -1):
             for j in np.arange(1, u3.shape[1]):
-                est_a = u3[i + 1, j] - dx*(du_dx[i + 1, j]
+                est_a = u3[i + 1, j] - dx[i]*(du_dx[i + 1, j]
                                            + du_dx[i, j])/2.
-                est_b = u3[i, j - 1] + dy*(du_dy[i, j - 1]
+                est_b = u3[i, j - 1] + dy[j - 1]*(du_dy[i, j - 1]
                                            + du_dy[i, j])/2.
                 u3[i, j] = (est_a + est_b)/2.
         # 4 from (1, 1)
         u4 = u.copy()
         for i in np.arange(u4.shape[0] - 2, -1, -1):
             for j in np.arange(u2.shape[1] - 2, -1, -1):
-                est_a = u4[i + 1, j] - dx*(du_dx[i + 1, j]
+                est_a = u4[i + 1, j] - dx[i]*(du_dx[i + 1, j]
                                            + du_dx[i, j])/2.
-                est_b = u4[i, j + 1] - dy*(du_dy[i, j + 1]
+                est_b = u4[i, j + 1] - dy[j]*(du_dy[i, j + 1]
                                            + du_dy[i, j])/2.
                 u4[i, j] = (est_a + est_b)/2.
         # normalize
@@ -345,13 +360,13 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
 
         ### Second OLS reconstruction
         if ols:
-            def min_funct(u, du_dx, du_dy, dx, dy):
+            def min_funct(u, du_dx, du_dy):
                 u = u.reshape(du_dx.shape)
-                du2_dx, du2_dy = np.gradient(u, dx, dy)
+                du2_dx, du2_dy = np.gradient(u, axe_x, axe_y)
                 res = np.abs(du_dx - du2_dx) + np.abs(du_dy - du2_dy)
                 return res.flatten()
             u, mess = leastsq(min_funct, u.flatten(),
-                              args=(du_dx, du_dy, dx, dy),
+                              args=(du_dx, du_dy),
                               maxfev=maxiter*len(u.flatten()))
             u = u.reshape(du_dx.shape)
         ### retuning
@@ -366,6 +381,35 @@ def reconstruct_from_gradients(field_dx, field_dy, field2_dx=None,
         return U
 
 
+def get_jacobian(field):
+    """
+    Return the components of the Jacobian matrix, expressed in the same unit.
+
+    Parameters
+    ----------
+    field : VectorField object
+        .
+
+    Returns
+    -------
+    jacobian : tuple of arrays
+        (dVx/dx, dVx/dy, dVy/dx, dVy/dy)
+    mask : array of boolean
+        .
+    unit_values : Unit object
+        .
+    """
+    grads = get_gradients(field)
+    mask = grads[0].mask
+    unit_values = grads[0].unit_values
+    jacobian = []
+    for grad in grads:
+        mask = np.logical_or(mask, grad.mask)
+        fact = (grad.unit_values/unit_values).asNumber(make_unit(''))
+        jacobian.append(grad.values*fact)
+    return tuple(jacobian), mask, unit_values
+
+
 def get_jacobian_eigenproperties(field, raw=False, eig_val=True,
                                  eig_vect=True):
     """
@@ -400,16 +444,8 @@ def get_jacobian_eigenproperties(field, raw=False, eig_val=True,
         Eigenvector associated with second eigenvalue.
     """
     # getting datas
-    Vx_dx, Vx_dy, Vy_dx, Vy_dy = get_gradients(field, raw=True)
+    (Vx_dx, Vx_dy, Vy_dx, Vy_dy), mask, unit_values = get_jacobian(field)
     shape = Vx_dx.shape
-    mask = Vx_dx.mask
-    mask = np.logical_or(mask, Vx_dy.mask)
-    mask = np.logical_or(mask, Vy_dx.mask)
-    mask = np.logical_or(mask, Vy_dy.mask)
-    Vx_dx = Vx_dx.data
-    Vx_dy = Vx_dy.data
-    Vy_dx = Vy_dx.data
-    Vy_dy = Vy_dy.data
     # loop on flatten arrays
     eig1 = np.zeros(shape, dtype=complex)
     eig2 = np.zeros(shape, dtype=complex)
@@ -458,22 +494,22 @@ def get_jacobian_eigenproperties(field, raw=False, eig_val=True,
             eig1_re_sf.import_from_arrays(field.axe_x, field.axe_y, eig1_r,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_values)
             eig1_im_sf = ScalarField()
             eig1_im_sf.import_from_arrays(field.axe_x, field.axe_y, eig1_i,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_values)
             eig2_re_sf = ScalarField()
             eig2_re_sf.import_from_arrays(field.axe_x, field.axe_y, eig2_r,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_values)
             eig2_im_sf = ScalarField()
             eig2_im_sf.import_from_arrays(field.axe_x, field.axe_y, eig2_i,
                                           mask=mask, unit_x=field.unit_x,
                                           unit_y=field.unit_y,
-                                          unit_values="")
+                                          unit_values=unit_values)
             ret += (eig1_re_sf, eig1_im_sf, eig2_re_sf, eig2_im_sf)
         if eig_vect:
             eig1_vf = VectorField()
@@ -564,8 +600,6 @@ def get_grad_field(field, direction='x'):
     if not direction in ['x', 'y']:
         raise ValueError()
     # getting gradients
-    field.comp_x = field.comp_x
-    field.comp_y = field.comp_y
     grads = get_gradients(field)
     # returning
     if direction == 'x':
@@ -1050,8 +1084,8 @@ def get_shear_stress(vf, raw=False):
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
     mask = tmp_vf.mask
-    dx = axe_x[1] - axe_x[0]
-    dy = axe_y[1] - axe_y[0]
+    dx = get_spacing(axe_x)
+    dy = get_spacing(axe_y)
     du_dx, du_dy = np.gradient(comp_x, dx, dy)
     dv_dx, dv_dy = np.gradient(comp_y, dx, dy)
     # swirling vectors matrix
-- 
2.43.0


From 208ace97bc8b4a17528e4764aefb08b7bed95326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:43 +0000
Subject: [PATCH 62/84] fix: vortex criteria used wrong neighbourhoods, units,
 masks and formulas

---
 IMTreatment/core/field.py                     |  50 +----
 .../vortex_criterions/vortex_criterions.py    | 209 +++++++++---------
 2 files changed, 114 insertions(+), 145 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index da42056..37a1711 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -250,44 +250,18 @@ class Field(object):
             raise TypeError("'radius' must be a number")
         if not radius > 0:
             raise ValueError("'radius' must be positive")
-        # getting indice data when 'ind=False'
-        if not ind:
-            dx = self.axe_x[1] - self.axe_x[0]
-            dy = self.axe_y[1] - self.axe_y[0]
-            delta = (dx + dy)/2.
-            radius = radius/delta
-            center_x = self.get_indice_on_axe(1, center[0], kind='decimal')
-            center_y = self.get_indice_on_axe(2, center[1], kind='decimal')
-            center = np.array([center_x, center_y])
-        # pre-computing somme properties
-        radius2 = radius**2
-        radius_int = radius/np.sqrt(2)
-        # isolating possibles indices
-        inds_x = np.arange(np.int(np.ceil(center[0] - radius)),
-                           np.int(np.floor(center[0] + radius)) + 1)
-        inds_y = np.arange(np.int(np.ceil(center[1] - radius)),
-                           np.int(np.floor(center[1] + radius)) + 1)
-        inds_x, inds_y = np.meshgrid(inds_x, inds_y)
-        inds_x = inds_x.flatten()
-        inds_y = inds_y.flatten()
-        # loop on possibles points
-        inds = []
-        for i in np.arange(len(inds_x)):
-            x = inds_x[i]
-            y = inds_y[i]
-            # test if the point is in the square 'compris' in the cercle
-            if x <= center[0] + radius_int \
-                    and x >= center[0] - radius_int \
-                    and y <= center[1] + radius_int \
-                    and y >= center[1] - radius_int:
-                inds.append([x, y])
-            # test if the point is the center
-            elif all([x, y] == center):
-                pass
-            # test if the point is in the circle
-            elif ((x - center[0])**2 + (y - center[1])**2 <= radius2):
-                inds.append([x, y])
-        return np.array(inds, subok=True)
+        # getting the points positions
+        if ind:
+            x = np.arange(len(self.axe_x))
+            y = np.arange(len(self.axe_y))
+        else:
+            x = self.axe_x
+            y = self.axe_y
+        # getting the points in the circle
+        dist2 = ((x[np.newaxis, :] - center[0])**2
+                 + (y[:, np.newaxis] - center[1])**2)
+        inds_y, inds_x = np.where(dist2 <= radius**2)
+        return np.transpose([inds_x, inds_y])
 
     def scale(self, scalex=None, scaley=None, inplace=False,
               output_reverse=False):
diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 726c37d..ea1a9d5 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -25,7 +25,7 @@ from ..core import ScalarField, VectorField, TemporalScalarFields,\
     TemporalVectorFields
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 from ..utils import make_unit
-from ..field_treatment import get_gradients
+from ..field_treatment.field_treatment import get_jacobian, get_spacing
 import numpy as np
 from scipy import linalg
 
@@ -124,7 +124,7 @@ def get_angle_deviation(vectorfield, radius=None, ind=False, mask=None,
             tmp_Vx = vectorfield.comp_x[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vy = vectorfield.comp_y[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vx -= vectorfield.comp_x[ind_x, ind_y]
-            tmp_Vy -= vectorfield.comp_x[ind_x, ind_y]
+            tmp_Vy -= vectorfield.comp_y[ind_x, ind_y]
             angles = _get_angles(tmp_Vx, tmp_Vy)
         # getting neightbour angles repartition
         angles = np.sort(angles)
@@ -228,8 +228,7 @@ def get_gamma(vectorfield, radius=None, ind=False, kind='gamma1', mask=None,
         _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
                                             dev_pass)
     # getting the vectors between center and neighbouring
-    deltax = axe_x[1] - axe_x[0]
-    deltay = axe_y[1] - axe_y[0]
+    deltax, deltay = _get_steps(vectorfield)
     vector_a_x = np.zeros(motif.shape[0])
     vector_a_y = np.zeros(motif.shape[0])
     for i, indaround in enumerate(motif):
@@ -261,7 +260,7 @@ def get_gamma(vectorfield, radius=None, ind=False, kind='gamma1', mask=None,
                                  v_mean[1])**2)
             fact = np.sqrt(v_mean2[0] + v_mean2[1]) / \
                 np.sqrt(v_mean[0]**2 + v_mean[1]**2)
-            if np.abs(fact) > 1:
+            if not np.abs(fact) <= 1:
                 fact = 1.
         # Loop on neighbouring points
         gamma = 0.
@@ -351,6 +350,7 @@ def get_NL_residual_vorticity(vectorfield, radius=None, ind=False, mask=None,
     # getting data and masks
     Vx = vectorfield.comp_x
     Vy = vectorfield.comp_y
+    fact_y = (vectorfield.unit_y/vectorfield.unit_x).asNumber(make_unit(''))
     mask, nmbpts, mask_dev, mask_border, mask_surr, motif =\
         _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
                                             dev_pass=False)
@@ -374,9 +374,9 @@ def get_NL_residual_vorticity(vectorfield, radius=None, ind=False, mask=None,
         Vxs = Vx[ind_xs, ind_ys]
         Vys = Vy[ind_xs, ind_ys]
         Exx[ind_x, ind_y], a_xx = np.polyfit(axe_x[ind_xs], Vxs, 1)
-        Exy[ind_x, ind_y], a_xy = np.polyfit(axe_y[ind_ys], Vxs, 1)
+        Exy[ind_x, ind_y], a_xy = np.polyfit(axe_y[ind_ys]*fact_y, Vxs, 1)
         Eyx[ind_x, ind_y], _ = np.polyfit(axe_x[ind_xs], Vys, 1)
-        Eyy[ind_x, ind_y], _ = np.polyfit(axe_y[ind_ys], Vys, 1)
+        Eyy[ind_x, ind_y], _ = np.polyfit(axe_y[ind_ys]*fact_y, Vys, 1)
     # getting principal rate of strain (s)
     s = np.sqrt(4*Exx**2 + (Exy + Eyx)**2)/2.
     # getting the vorticity-tensor component
@@ -467,8 +467,7 @@ def get_kappa(vectorfield, radius=None, ind=False, kind='kappa1', mask=None,
         _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
                                             dev_pass)
     # getting the vectors between center and neighbouring
-    deltax = axe_x[1] - axe_x[0]
-    deltay = axe_y[1] - axe_y[0]
+    deltax, deltay = _get_steps(vectorfield)
     vector_a_x = np.zeros(motif.shape[0])
     vector_a_y = np.zeros(motif.shape[0])
     for i, indaround in enumerate(motif):
@@ -489,12 +488,8 @@ def get_kappa(vectorfield, radius=None, ind=False, kind='kappa1', mask=None,
         # If necessary, compute mean velocity on points (kappa2)
         v_mean = [0., 0.]
         if kind == 'kappa2':
-            nmbpts = len(indsaround)
-            for indaround in indsaround:
-                v_mean[0] += Vx[ind_x, ind_y]
-                v_mean[1] += Vy[ind_x, ind_y]
-            v_mean[0] /= nmbpts
-            v_mean[1] /= nmbpts
+            v_mean[0] = np.mean(Vx[indsaround[:, 0], indsaround[:, 1]])
+            v_mean[1] = np.mean(Vy[indsaround[:, 0], indsaround[:, 1]])
         # Loop on neighbouring points
         kappa = 0.
         nmbpts = len(indsaround)
@@ -591,7 +586,7 @@ def get_iota(vectorfield, mask=None, radius=None, ind=False, raw=False):
     theta_y[filty] = theta2_y[filty]
     iota = 1/2.*np.sqrt(theta_x**2 + theta_y**2)
     # getting mask
-    maskf = np.logical_or(vectorfield.mask, np.isnan(iota))
+    maskf = np.logical_or(mask, np.isnan(iota))
     # returning
     if raw:
         return np.ma.masked_array(iota, maskf)
@@ -646,13 +641,13 @@ def get_enstrophy(vectorfield, radius=None, ind=False, mask=None,
         mask = np.array(mask)
     # getting data and masks
     vort2 = get_vorticity(vectorfield, raw=False)**2
-    unit_values = vort2.unit_values*vectorfield.unit_x*vectorfield.unit_y
+    unit_values = vort2.unit_values*vectorfield.unit_x**2
     vort2 = vort2.values
     mask, nmbpts, mask_dev, mask_border, mask_surr, motif =\
         _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
                                             dev_pass=False)
-    dv = ((vectorfield.axe_x[1] - vectorfield.axe_x[0]) *
-          (vectorfield.axe_y[1] - vectorfield.axe_y[0]))
+    dx, dy = _get_steps(vectorfield)
+    dv = dx*dy
     # Loop on points
     enstrophy = np.zeros(vectorfield.shape)
     for inds, pos, _ in vectorfield:
@@ -665,7 +660,7 @@ def get_enstrophy(vectorfield, radius=None, ind=False, mask=None,
         # getting neighbour points
         indsaround = motif + inds
         # Loop on neighbouring points
-        loc_enstrophy = 0.
+        loc_enstrophy = vort2[ind_x, ind_y]
         for i, indaround in enumerate(indsaround):
             loc_enstrophy += vort2[indaround[0], indaround[1]]
         # storing computed gamma value
@@ -694,18 +689,22 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
     """
     # Importing data from vectorfield (velocity, axis and mask)
     mask = np.logical_or(mask, vectorfield.mask)
-    # Compute motif and motif angles on an arbitrary point
+    # Compute motif (neighbours relative indices)
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
-    indcentral = [int(len(axe_x)/2.), int(len(axe_y)/2.)]
     if ind:
-        motif = vectorfield.get_points_around(indcentral, radius, ind)
-        motif = motif - indcentral
-        motif = np.delete(motif, int(len(motif)/2), axis=0)
+        dx, dy = 1., 1.
     else:
-        ptcentral = [axe_x[indcentral[0]], axe_y[indcentral[1]]]
-        motif = vectorfield.get_points_around(ptcentral, radius, ind)
-        motif = motif - indcentral
+        dx, dy = _get_steps(vectorfield)
+    nmb_x = int(np.floor(radius/dx))
+    nmb_y = int(np.floor(radius/dy))
+    motif = np.array([[i, j] for j in range(-nmb_y, nmb_y + 1)
+                      for i in range(-nmb_x, nmb_x + 1)
+                      if (i, j) != (0, 0)
+                      and (i*dx)**2 + (j*dy)**2 <= radius**2],
+                     dtype=int).reshape((-1, 2))
     nmbpts = len(motif)
+    if nmbpts == 0:
+        raise ValueError("'radius' is too small to reach other points")
     # Generating masks
     # creating surrounding masked point zone mask
     mask_surr = np.zeros(mask.shape)
@@ -718,23 +717,14 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
                 continue
             mask_surr[i, j] = True
     # creating near-border zone mask
-    if ind:
-        indx = np.arange(len(axe_x))
-        indy = np.arange(len(axe_y))
-        border_x = np.logical_or(indx <= indx[0] + (int(radius) - 1),
-                                 indx >= indx[-1] - (int(radius) - 1))
-        border_y = np.logical_or(indy <= indy[0] + (int(radius) - 1),
-                                 indy >= indy[-1] - (int(radius) - 1))
-        border_x, border_y = np.meshgrid(border_x, border_y)
-        mask_border = np.transpose(np.logical_or(border_x, border_y))
-    else:
-        delta = (axe_x[1] - axe_x[0] + axe_y[1] - axe_y[0])/2
-        border_x = np.logical_or(axe_x <= axe_x[0] + (radius - delta),
-                                 axe_x >= axe_x[-1] - (radius - delta))
-        border_y = np.logical_or(axe_y <= axe_y[0] + (radius - delta),
-                                 axe_y >= axe_y[-1] - (radius - delta))
-        border_x, border_y = np.meshgrid(border_x, border_y)
-        mask_border = np.transpose(np.logical_or(border_x, border_y))
+    nmb_x = np.max(np.abs(motif[:, 0]))
+    nmb_y = np.max(np.abs(motif[:, 1]))
+    indx = np.arange(len(axe_x))
+    indy = np.arange(len(axe_y))
+    border_x = np.logical_or(indx < nmb_x, indx > indx[-1] - nmb_x)
+    border_y = np.logical_or(indy < nmb_y, indy > indy[-1] - nmb_y)
+    mask_border = np.logical_or(border_x[:, np.newaxis],
+                                border_y[np.newaxis, :])
     # creating dev mask
     mask_dev = np.zeros(vectorfield.shape)
     if dev_pass:
@@ -746,6 +736,26 @@ def _non_local_criterion_precomputation(vectorfield, mask, radius, ind,
             motif)
 
 
+def _get_steps(vectorfield):
+    """
+    Return the grid steps along x and y, both in the unit of the x axis.
+    """
+    dx = vectorfield.axe_x[1] - vectorfield.axe_x[0]
+    dy = vectorfield.axe_y[1] - vectorfield.axe_y[0]
+    fact = (vectorfield.unit_y/vectorfield.unit_x).asNumber(make_unit(''))
+    return dx, dy*fact
+
+
+def _get_spacings(vectorfield):
+    """
+    Return the spacings along x and y wanted by 'numpy.gradient', both in the
+    unit of the x axis.
+    """
+    fact = (vectorfield.unit_y/vectorfield.unit_x).asNumber(make_unit(''))
+    return (get_spacing(vectorfield.axe_x),
+            get_spacing(vectorfield.axe_y)*fact)
+
+
 def _get_angles(Vx, Vy, check=False):
     """
     Return the angles from velocities vectors.
@@ -794,8 +804,7 @@ def get_divergence(vf, raw=False):
         axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dx, dy = _get_spacings(tmp_vf)
         Exx, _ = np.gradient(comp_x, dx, dy)
         _, Eyy = np.gradient(comp_y, dx, dy)
         div = Exx + Eyy
@@ -850,8 +859,7 @@ def get_vorticity(vf, raw=False):
         axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dx, dy = _get_spacings(tmp_vf)
         _, Exy = np.gradient(comp_x, dx, dy)
         Eyx, _ = np.gradient(comp_y, dx, dy)
         vort = (Eyx - Exy)/2.
@@ -908,23 +916,23 @@ def get_stokes_vorticity(vf, window_size=2, raw=False):
     """
     # getting data
     axe_x, axe_y = vf.axe_x, vf.axe_y
-    dx = axe_x[1] - axe_x[0]
-    dy = axe_y[1] - axe_y[0]
+    fact_y = (vf.unit_y/vf.unit_x).asNumber(make_unit(''))
     Vx = vf.comp_x
     Vy = vf.comp_y
     mask = vf.mask
     # creating new axis
-    new_axe_x = np.arange(np.mean(axe_x[0:window_size]),
-                          np.mean(axe_x[-window_size::] + dx*.9),
-                          dx)
-    new_axe_y = np.arange(np.mean(axe_y[0:window_size]),
-                          np.mean(axe_y[-window_size::] + dy*.9),
-                          dy)
+    new_axe_x = np.array([np.mean(axe_x[i:i + window_size])
+                          for i in range(len(axe_x) - window_size + 1)])
+    new_axe_y = np.array([np.mean(axe_y[j:j + window_size])
+                          for j in range(len(axe_y) - window_size + 1)])
     # Loop on field
     vort = np.zeros((len(new_axe_x), len(new_axe_y)))
     new_mask = np.zeros((len(new_axe_x), len(new_axe_y)), dtype=bool)
     for i in np.arange(len(axe_x) - window_size + 1):
         for j in np.arange(len(axe_y) - window_size + 1):
+            # getting the window
+            win_x = axe_x[i:i + window_size]
+            win_y = axe_y[j:j + window_size]*fact_y
             # reinitialazing
             tmp_vort = 0.
             # checking masked values
@@ -933,18 +941,18 @@ def get_stokes_vorticity(vf, window_size=2, raw=False):
                 continue
             # summing over first border
             bord_vec = -Vy[i, j:j + window_size].copy()
-            tmp_vort += np.trapz(bord_vec, dx=dy)
+            tmp_vort += np.trapz(bord_vec, win_y)
             # summing over second border
             bord_vec = Vy[i + window_size - 1, j:j + window_size].copy()
-            tmp_vort += np.trapz(bord_vec, dx=dy)
+            tmp_vort += np.trapz(bord_vec, win_y)
             # summing over third border
             bord_vec = Vx[i:i + window_size, j].copy()
-            tmp_vort += np.trapz(bord_vec, dx=dx)
+            tmp_vort += np.trapz(bord_vec, win_x)
             # summing over fourth border
             bord_vec = -Vx[i:i + window_size, j + window_size - 1].copy()
-            tmp_vort += np.trapz(bord_vec, dx=dx)
+            tmp_vort += np.trapz(bord_vec, win_x)
             # adding coefficients
-            tmp_vort *= 1./(dx*dy*window_size**2)
+            tmp_vort /= (win_x[-1] - win_x[0])*(win_y[-1] - win_y[0])
             # storing
             vort[i, j] = tmp_vort
     # returning
@@ -983,14 +991,11 @@ def get_swirling_strength(vf, raw=False):
     """
     if not isinstance(vf, VectorField):
         raise TypeError()
-    tmp_vf = vf.copy()
-    tmp_vf.fill()
     # Getting gradients and axes
-    axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    mask = tmp_vf.mask
-    du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    axe_x, axe_y = vf.axe_x, vf.axe_y
+    (du_dx, du_dy, dv_dx, dv_dy), mask, unit_values = get_jacobian(vf)
     # swirling stregnth matrix
-    swst = np.zeros(tmp_vf.shape)
+    swst = np.zeros(vf.shape)
     # loop on  points
     for i in np.arange(len(axe_x)):
         for j in np.arange(len(axe_y)):
@@ -1002,11 +1007,9 @@ def get_swirling_strength(vf, raw=False):
     mask = np.logical_or(mask, np.isnan(swst))
     # creating ScalarField object
     if raw:
-        return swst
+        return np.ma.masked_array(swst, mask)
     else:
-        unit_x, unit_y = tmp_vf.unit_x, tmp_vf.unit_y
-        # TODO: Implement unities
-        unit_values = ""
+        unit_x, unit_y = vf.unit_x, vf.unit_y
         tmp_sf = ScalarField()
         tmp_sf.import_from_arrays(axe_x, axe_y, swst, mask=mask,
                                   unit_x=unit_x, unit_y=unit_y,
@@ -1035,18 +1038,11 @@ def get_improved_swirling_strength(vf, raw=False):
     """
     if not isinstance(vf, VectorField):
         raise TypeError()
-    tmp_vf = vf.copy()
-    tmp_vf.fill()
     # Getting gradients and axes
-    axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
-    mask = tmp_vf.mask
-    dx = axe_x[1] - axe_x[0]
-    dy = axe_y[1] - axe_y[0]
-    du_dx, du_dy = np.gradient(comp_x, dx, dy)
-    dv_dx, dv_dy = np.gradient(comp_y, dx, dy)
+    axe_x, axe_y = vf.axe_x, vf.axe_y
+    (du_dx, du_dy, dv_dx, dv_dy), mask, unit_values = get_jacobian(vf)
     # swirling stregnth matrix
-    swst = np.zeros(tmp_vf.shape)
+    swst = np.zeros(vf.shape)
     # loop on  points
     for i in np.arange(len(axe_x)):
         for j in np.arange(len(axe_y)):
@@ -1058,14 +1054,14 @@ def get_improved_swirling_strength(vf, raw=False):
                 lambci = np.abs(np.imag(eigvals[0]))
                 if lambci == 0:
                     mask[i, j] = True
+                    continue
                 swst[i, j] = lambcr/lambci
     mask = np.logical_or(mask, np.isnan(swst))
     # creating ScalarField object
     if raw:
-        return swst
+        return np.ma.masked_array(swst, mask)
     else:
-        unit_x, unit_y = tmp_vf.unit_x, tmp_vf.unit_y
-        # TODO: Implement unities
+        unit_x, unit_y = vf.unit_x, vf.unit_y
         unit_values = ""
         tmp_sf = ScalarField()
         tmp_sf.import_from_arrays(axe_x, axe_y, swst, mask=mask,
@@ -1100,15 +1096,13 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
         mask = np.array(mask)
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
-    Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    (Exx, Exy, Eyx, Eyy), jac_mask, unit_grad = get_jacobian(vectorfield)
+    mask = np.logical_or(mask, jac_mask)
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    qcrit = .5*(norm_rot2) - norm_shear2
-    unit_values = (vectorfield.unit_values/vectorfield.unit_x)**2
-    scale = unit_values.asNumber()
-    qcrit *= scale
-    unit_values = unit_values/scale
+    qcrit = .5*(norm_rot2 - norm_shear2)
+    unit_values = unit_grad**2
     if raw:
         return np.ma.masked_array(qcrit, mask)
     else:
@@ -1152,11 +1146,14 @@ def get_Nk_criterion(vectorfield, mask=None, raw=False):
         mask = np.array(mask)
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
-    Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    (Exx, Exy, Eyx, Eyy), jac_mask, unit_grad = get_jacobian(vectorfield)
+    mask = np.logical_or(mask, jac_mask)
     # calcul de Nk
     norm_rot = 1./2.**.5*np.abs(Exy - Eyx)
     norm_shear = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)**.5
-    Nkcrit = norm_rot/norm_shear
+    mask = np.logical_or(mask, norm_shear == 0)
+    Nkcrit = np.zeros(norm_rot.shape)
+    Nkcrit[~mask] = norm_rot[~mask]/norm_shear[~mask]
     unit_values = make_unit('')
     if raw:
         return np.ma.masked_array(Nkcrit, mask)
@@ -1200,15 +1197,18 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
         mask = np.array(mask, dtype=bool)
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
-    Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    (Exx, Exy, Eyx, Eyy), jac_mask, unit_grad = get_jacobian(vectorfield)
+    mask = np.logical_or(mask, jac_mask)
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    Q = .5*(norm_rot2) - norm_shear2
+    Q = .5*(norm_rot2 - norm_shear2)
     # calcul de R
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
         for j in np.arange(Exx.shape[1]):
+            if mask[i, j]:
+                continue
             Jac = [[Exx[i, j], Exy[i, j]], [Eyx[i, j], Eyy[i, j]]]
             eigval, eigvect = np.linalg.eig(Jac)
             if np.all(np.imag(eigval) == 0):
@@ -1217,10 +1217,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
             R[i, j] = -np.linalg.det(Jac)
     # calcul de Delta
     delta = (Q/3.)**3 + (R/2.)**2
-    unit_values = ((vectorfield.unit_values/vectorfield.unit_x)**2)**3
-    scale = unit_values.asNumber()
-    delta *= scale
-    unit_values = unit_values/scale
+    unit_values = unit_grad**6
     if raw:
         return np.ma.masked_array(delta, mask)
     else:
@@ -1259,8 +1256,8 @@ def get_lambda2(vectorfield, mask=None, raw=False):
         mask = np.array(mask)
     mask = np.logical_or(mask, vectorfield.mask)
     # getting velocity gradients
-    Udx, Udy, Vdx, Vdy = get_gradients(vectorfield, raw=True)
-    mask = np.logical_or(mask, Udx.mask)
+    (Udx, Udy, Vdx, Vdy), jac_mask, unit_grad = get_jacobian(vectorfield)
+    mask = np.logical_or(mask, jac_mask)
     # creating returning matrix
     lambda2 = np.zeros(vectorfield.shape)
     # loop on points
@@ -1283,14 +1280,14 @@ def get_lambda2(vectorfield, mask=None, raw=False):
             lambda2[i, j] = l2
     # returning
     if raw:
-        return np.ma.masked_array(l2, mask)
+        return np.ma.masked_array(lambda2, mask)
     else:
         lambd_sf = ScalarField()
         axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
         unit_x, unit_y = vectorfield.unit_x, vectorfield.unit_y
         lambd_sf.import_from_arrays(axe_x, axe_y, lambda2, mask,
                                     unit_x=unit_x, unit_y=unit_y,
-                                    unit_values=make_unit(''))
+                                    unit_values=unit_grad**2)
         return lambd_sf
 
 
@@ -1314,8 +1311,7 @@ def get_residual_vorticity(vf, raw=False):
         axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dx, dy = _get_spacings(tmp_vf)
         # getting gradients
         Exx, Exy = np.gradient(comp_x, dx, dy)
         Eyx, Eyy = np.gradient(comp_y, dx, dy)
@@ -1381,8 +1377,7 @@ def get_shear_vorticity(vf, raw=False):
         axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
         comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
         mask = tmp_vf.mask
-        dx = axe_x[1] - axe_x[0]
-        dy = axe_y[1] - axe_y[0]
+        dx, dy = _get_spacings(tmp_vf)
         # getting gradients
         Exx, Exy = np.gradient(comp_x, dx, dy)
         Eyx, Eyy = np.gradient(comp_y, dx, dy)
-- 
2.43.0


From 0107a1ef5cd9d6b802ed8e78fcb71b7b38e2fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:52 +0000
Subject: [PATCH 63/84] fix: streamlines ignored 'hide', 'reverse', integer
 start points and uneven axes, leaked file descriptors and jumped at
 stagnation points

---
 IMTreatment/core/orientedpoints.py            |  6 +-
 .../field_treatment/field_treatment.py        | 66 ++++++++++---------
 IMTreatment/utils/codeinteraction.py          |  4 +-
 3 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 433f79c..f76d7fa 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -140,13 +140,13 @@ class OrientedPoints(pts.Points):
             Each Points object represent a streamline
         """
         # check parameters
-        from .field_treatment import get_streamlines
+        from ..field_treatment import get_streamlines_fast
         from . import vectorfield as vfp
         if not isinstance(vf, vfp.VectorField):
             raise TypeError()
         # getting streamlines
-        streams = get_streamlines(vf, self.xy, delta=delta, interp=interp,
-                                  reverse_direction=reverse_direction)
+        streams = get_streamlines_fast(vf, self.xy, delta=delta, interp=interp,
+                                       reverse=reverse_direction)
         return streams
 
     def get_streamlines_from_orientations(self, vf, delta=.25, interp='linear',
diff --git a/IMTreatment/field_treatment/field_treatment.py b/IMTreatment/field_treatment/field_treatment.py
index 17b5d24..dab8a7c 100644
--- a/IMTreatment/field_treatment/field_treatment.py
+++ b/IMTreatment/field_treatment/field_treatment.py
@@ -702,9 +702,10 @@ def get_streamlines_fast(vf, xy, delta=.25, interp='linear',
         raise ValueError("Unknown interpolation method")
     # getting datas
     tmpvf = vf.copy()
-    tmpvf.fill()
+    if np.any(tmpvf.mask):
+        tmpvf.fill(inplace=True)
     unit_x, unit_y = vf.unit_x, vf.unit_y
-    Vx, Vy = vf.comp_x, vf.comp_y
+    Vx, Vy = tmpvf.comp_x, tmpvf.comp_y
     deltaabs = delta * ((axe_x[-1]-axe_x[0])/len(axe_x)
                         + (axe_y[-1]-axe_y[0])/len(axe_y))/2.
     deltaabs2 = deltaabs**2
@@ -769,7 +770,7 @@ def get_streamlines_fast(vf, xy, delta=.25, interp='linear',
         # creating Points objects for returning
         stream = stream[:i]
         pts = Points(stream, unit_x=unit_x, unit_y=unit_y,
-                     name='streamline at x={:.3f}, y={:.3f}'.format(x, y))
+                     name='streamline at x={:.3f}, y={:.3f}'.format(*coord))
         streams.append(pts)
     # returning
     if len(streams) == 0:
@@ -825,7 +826,7 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
         masked_values = False
     if not isinstance(xys, ARRAYTYPES):
         raise TypeError()
-    xys = np.array(xys)
+    xys = np.array(xys, dtype=float)
     if xys.shape == (2,):
         xys = np.array([xys], subok=True, dtype=float)
     if xys.ndim != 2:
@@ -843,6 +844,8 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
         raise TypeError()
     if boundary_tr not in ['stop', 'hide']:
         raise ValueError()
+    if resolution_kind not in ['time', 'length']:
+        raise ValueError()
 
     ################
     ### get data ###
@@ -870,28 +873,15 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
     Vy_tor = RectBivariateSpline(axe_x, axe_y, vy,
                                  kx=1, ky=1)
     # velocity function
-    if reverse:
-        def fun(xy):
-            if is_outside(axe_x, axe_y, xy):
-                raise ValueError()
-            if masked_values:
-                ind_x = int(round(xy[0]/dx))
-                ind_y = int(round(xy[1]/dy))
-                if mask[ind_x, ind_y]:
-                    raise ValueError()
-            return -np.array([Vx_tor(*xy)[0][0],
-                              Vy_tor(*xy)[0][0]])
-    else:
-        def fun(xy):
-            if is_outside(axe_x, axe_y, xy):
+    def fun(xy):
+        if is_outside(axe_x, axe_y, xy):
+            raise ValueError()
+        if masked_values:
+            ind_x = np.argmin(np.abs(axe_x - xy[0]))
+            ind_y = np.argmin(np.abs(axe_y - xy[1]))
+            if mask[ind_x, ind_y]:
                 raise ValueError()
-            if masked_values:
-                ind_x = int(round(xy[0]/dx))
-                ind_y = int(round(xy[1]/dy))
-                if mask[ind_x, ind_y]:
-                    raise ValueError()
-            return np.array([Vx_tor(*xy)[0][0],
-                             Vy_tor(*xy)[0][0]])
+        return fun2(0, xy)
     if reverse:
         def fun2(t, xy):
             return -np.array([Vx_tor(*xy)[0][0],
@@ -932,6 +922,7 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
         ############################
         new_xys = [xy]
         new_ts = [0]
+        boundary = False
         with RemoveFortranOutput():
             ODE = spinteg.ode(fun2)
             ODE.set_integrator('vode')
@@ -940,12 +931,16 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
             nmb_it = 0
             while ODE.successful():
                 try:
-                    if resolution_kind == "time":
-                        rk_dt = resolution
-                    else:
-                        rk_dt = dxy/np.linalg.norm(fun(res[-1]))*resolution
-                except (ValueError, RuntimeWarning):
+                    vel = np.linalg.norm(fun(res[-1]))
+                except ValueError:
+                    boundary = True
+                    break
+                if vel == 0:
                     break
+                if resolution_kind == "time":
+                    rk_dt = resolution
+                else:
+                    rk_dt = dxy/vel*resolution
                 try:
                     tmp_xy = ODE.integrate(ODE.t + rk_dt)
                 except UserWarning:
@@ -954,15 +949,22 @@ def get_streamlines(VF, xys, reverse=False, rel_err=1.e-8,
                 # stopping tests (max iteration)
                 if nmb_it > max_steps:
                     break
+                dist2 = ((tmp_xy[0] - res[-1][0])**2
+                         + (tmp_xy[1] - res[-1][1])**2)
                 if resolution_kind == "time":
                     min_dxy = (dxy/40)**2
-                    if (tmp_xy[0] - res[-1][0])**2 + (tmp_xy[1] - res[-1][1])**2 < min_dxy:
+                    if dist2 < min_dxy:
                         break
+                # stopping test (the point is beyond a stagnation point)
+                elif dist2 > (dxy*resolution*10)**2:
+                    break
                 # store
                 new_ts.append(new_ts[-1] + rk_dt)
                 res.append(tmp_xy)
             new_xys = res
 #        warnings.filterwarnings('once')
+        if boundary and boundary_tr == 'hide':
+            continue
         # storing and rescaling
         if len(new_xys) != 0:
             new_xys = np.array(new_xys, dtype=float)
@@ -1058,7 +1060,7 @@ def get_tracklines(VF, xys, reverse=False, rel_err=1.e-8,
     """
     # get the track field
     track_field = get_track_field(VF)
-    return get_streamlines(track_field, xys, rel_err=rel_err,
+    return get_streamlines(track_field, xys, reverse=reverse, rel_err=rel_err,
                            max_steps=max_steps, resolution=resolution,
                            resolution_kind=resolution_kind,
                            boundary_tr=boundary_tr)
diff --git a/IMTreatment/utils/codeinteraction.py b/IMTreatment/utils/codeinteraction.py
index 15c9d50..fe787ba 100644
--- a/IMTreatment/utils/codeinteraction.py
+++ b/IMTreatment/utils/codeinteraction.py
@@ -62,5 +62,5 @@ class RemoveFortranOutput(object):
     def __exit__(self, type, value, traceback):
         os.dup2(self.save[0], 1)
         os.dup2(self.save[1], 2)
-        os.close(self.null_fds[0])
-        os.close(self.null_fds[1])
+        for fd in self.null_fds + list(self.save):
+            os.close(fd)
-- 
2.43.0


From 5c97c3fa36130f44a4bff4c2f40c838e2db7d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:12 +0000
Subject: [PATCH 64/84] fix: vortex systems lost count, units and images of
 some members; Hill and Lamb-Chaplygin vortices had wrong velocities

---
 .../vortex_creation/vortex_creation.py        | 80 +++++++++++++++----
 1 file changed, 65 insertions(+), 15 deletions(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 9c13636..1b0fadb 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -24,7 +24,7 @@
 import numpy as np
 from ..core import VectorField, TemporalVectorFields, Points
 from ..utils import make_unit
-from ..utils.types import NUMBERTYPES, ARRAYTYPES
+from ..utils.types import NUMBERTYPES, ARRAYTYPES, STRINGTYPES
 import copy
 import matplotlib.pyplot as plt
 from .. import boundary_layer as imtbl
@@ -114,15 +114,40 @@ class Vortex(object):
     def copy(self):
         return copy.deepcopy(self)
 
-    def symetrize(self):
+    def symetrize(self, direction='x'):
         """
         Return a symetrized copy of the vortex
+
+        Parameters
+        ----------
+        direction : string in ['x', 'y']
+            Direction along which the flow is mirrored.
         """
         tmp_vort = self.copy()
         tmp_vort.rot_dir *= -1
         return tmp_vort
 
 
+class Dipole(Vortex):
+    """
+    Vortex symmetric with respect to the 'x' axis.
+    """
+
+    def symetrize(self, direction='x'):
+        """
+        Return a symetrized copy of the vortex
+
+        Parameters
+        ----------
+        direction : string in ['x', 'y']
+            Direction along which the flow is mirrored.
+        """
+        tmp_vort = self.copy()
+        if direction == 'x':
+            tmp_vort.rot_dir *= -1
+        return tmp_vort
+
+
 class SolidVortex(Vortex):
     """
     Representing a solid rotation.
@@ -264,7 +289,7 @@ class BurgerVortex(Vortex):
         return Vx, Vy
 
 
-class HillVortex(Vortex):
+class HillVortex(Dipole):
     """
     Representing a Hill Vortex, a convected vortex sphere in a inviscid flow.
 
@@ -300,10 +325,14 @@ class HillVortex(Vortex):
         # compute theta
         theta = self._get_theta(self.x0, x, self.y0, y)
         # compute velocity in clyndrical referentiel
-        Vr = -3./4.*self.U*r*(1 - r**2/self.rv**2) \
-            * 2*np.sin(theta)*np.cos(theta)
-        Vphi = 3./2.*self.U*np.sin(theta)**2 \
-            * r*(1 - 2*r**2/self.rv**2)*self.rot_dir
+        if r < self.rv:
+            Vr = -3./2.*self.U*(1 - r**2/self.rv**2)*np.cos(theta)
+            Vphi = 3./2.*self.U*(1 - 2*r**2/self.rv**2)*np.sin(theta)
+        else:
+            Vr = self.U*(1 - self.rv**3/r**3)*np.cos(theta)
+            Vphi = -self.U*(1 + self.rv**3/(2*r**3))*np.sin(theta)
+        Vr *= self.rot_dir
+        Vphi *= self.rot_dir
         # get velocity in the cartesian refenrentiel
         Vx, Vy = self._cyl_to_cart(theta, Vr, Vphi)
         # returning
@@ -418,7 +447,7 @@ class RankineVortex(Vortex):
         return Vx, Vy
 
 
-class LambChaplyginVortex(Vortex):
+class LambChaplyginVortex(Dipole):
     """
     Representing a Lamb-Chaplygin dipole vortex, with potential flow in the
     exterior region, and a linear relation between stream function and
@@ -465,11 +494,15 @@ class LambChaplyginVortex(Vortex):
         # compute stream function
         if r < self.rv:
             J1_p = (jn(2, k*r) - jn(0, k*r))/(-2)
-            Vr = -2*self.U/(r*k*jn(0, k*self.rv))*jn(1, k*r)*np.cos(theta)
+            # limit of J1(kr)/kr at the center
+            J1_r = jn(1, k*r)/(k*r) if r != 0 else .5
+            Vr = -2*self.U/jn(0, k*self.rv)*J1_r*np.cos(theta)
             Vphi = 2*self.U/(jn(0, k*self.rv))*np.sin(theta)*J1_p
         else:
-            Vr = -self.U*(r - self.rv**2/r)*np.cos(theta)
+            Vr = -self.U*(1 - self.rv**2/r**2)*np.cos(theta)
             Vphi = +self.U*(1 + self.rv**2/r**2)*np.sin(theta)
+        Vr *= self.rot_dir
+        Vphi *= self.rot_dir
         # get velocity in the cartesian refenrentiel
         Vx, Vy = self._cyl_to_cart(theta, Vr, Vphi)
         # returning
@@ -579,7 +612,7 @@ class CustomField(object):
         Representing the field.
         Has to take (x, y) as input and return (Vx, Vy).
     """
-    def __init__(self, funct, unit_values='', idi=0):
+    def __init__(self, funct, unit_values='m/s', idi=0):
         # check params
         try:
             Vx, Vy = funct(1., 1.)
@@ -732,6 +765,7 @@ class VortexSystem(object):
         """
         if not isinstance(custfield, CustomField):
             raise TypeError()
+        custfield = custfield.copy()
         custfield.id = self.curr_cf_id
         self.curr_cf_id += 1
         self.custfields.append(custfield)
@@ -764,6 +798,7 @@ class VortexSystem(object):
                 self.im_vortex[i].id -= 1
         # adapt current id
         self.curr_id -= 1
+        self.nmb_vortex -= 1
 
     def display(self):
         """
@@ -862,12 +897,24 @@ class VortexSystem(object):
         for cst_field in self.custfields:
             if cst_field.id not in cf_ids:
                 continue
-            tmp_Vx, tmp_Vy = cst_field.get_vector(x, y)
+            tmp_Vx, tmp_Vy = self._get_cf_vector(cst_field, x, y)
             Vx += tmp_Vx
             Vy += tmp_Vy
         # returning
         return Vx, Vy
 
+    @staticmethod
+    def _get_cf_vector(custfield, x, y):
+        """
+        Return the velocity vector of a custom field (in m/s).
+        """
+        unit = custfield.unit_values
+        if isinstance(unit, STRINGTYPES):
+            unit = make_unit(unit)
+        fact = (unit/make_unit('m/s')).asNumber(make_unit(''))
+        Vx, Vy = custfield.get_vector(x, y)
+        return Vx*fact, Vy*fact
+
     def get_compounded_vector(self, x, y, detailed=False):
         """
         Return a list f vector, for each structure of the system
@@ -894,6 +941,9 @@ class VortexSystem(object):
         """
         vects = []
         vects_cf = []
+        # refresh if necessary
+        if self.to_refresh:
+            self.refresh_imaginary_vortex()
         if detailed:
             vortex_ids = []
             cf_ids = []
@@ -907,7 +957,7 @@ class VortexSystem(object):
                 vortex_ids.append(vort.id)
             # loop on custom field
             for cf in self.custfields:
-                vects_cf.append(cf.get_vector(x, y))
+                vects_cf.append(self._get_cf_vector(cf, x, y))
                 cf_ids.append(cf.id)
         else:
             vortex_ids = np.arange(self.curr_id)
@@ -929,13 +979,13 @@ class VortexSystem(object):
         self.im_vortex = []
         for wall in self.walls:
             for i, ivort in enumerate(self.im_vortex[:]):
-                im_vort = ivort.symetrize()
+                im_vort = ivort.symetrize(wall.direction)
                 im_vort.movable = True
                 im_vort.x0, im_vort.y0 = wall.get_symmetry((ivort.x0,
                                                             ivort.y0))
                 self.im_vortex.append(im_vort)
             for i, vort in enumerate(self.vortex):
-                im_vort = vort.symetrize()
+                im_vort = vort.symetrize(wall.direction)
                 im_vort.movable = True
                 im_vort.x0, im_vort.y0 = wall.get_symmetry((vort.x0, vort.y0))
                 self.im_vortex.append(im_vort)
-- 
2.43.0


From e30d29445537ba377411f24b25c3c31fe0b2d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:25 +0000
Subject: [PATCH 65/84] fix: critical points were misplaced or missed on null
 nodes, linear cells and uneven grids, and smoothing modified the field

---
 .../vortex_detection/vortex_detection.py      | 161 +++++++++++++-----
 1 file changed, 118 insertions(+), 43 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index bb42f88..cb6ad0c 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -105,11 +105,6 @@ class VF(object):
             4      stable node
             ====   ===============
         """
-        # get axe data
-        delta_x = self.axe_x[1] - self.axe_x[0]
-        delta_y = self.axe_y[1] - self.axe_y[0]
-        vx_sup_0 = np.array(self.vx > 0, dtype=int)
-        vy_sup_0 = np.array(self.vy > 0, dtype=int)
         # check if any masks
         if np.any(self.mask):
             mask = self.mask
@@ -120,13 +115,14 @@ class VF(object):
         else:
             mask = np.zeros((self.mask.shape[0] - 1, self.mask.shape[1] - 1))
         # fast first check to see where 0-levelset pass
-        signx = (vx_sup_0[0:-1, 0:-1] + vx_sup_0[1::, 0:-1] +
-                 vx_sup_0[0:-1, 1::] + vx_sup_0[1::, 1::])
-        signy = (vy_sup_0[0:-1, 0:-1] + vy_sup_0[1::, 0:-1] +
-                 vy_sup_0[0:-1, 1::] + vy_sup_0[1::, 1::])
-        lsx = np.logical_and(signx != 0, signx != 4)
-        lsy = np.logical_and(signy != 0, signy != 4)
-        filt_0ls = np.logical_and(lsx, lsy)
+        # (a component can also be null on some of the cell nodes)
+        def get_levelset(v):
+            nodes = [v[0:-1, 0:-1], v[1::, 0:-1], v[0:-1, 1::], v[1::, 1::]]
+            return np.logical_and(np.min(nodes, axis=0) <= 0,
+                                  np.max(nodes, axis=0) >= 0)
+
+        filt_0ls = np.logical_and(get_levelset(self.vx),
+                                  get_levelset(self.vy))
         filt = np.logical_and(np.logical_not(mask), filt_0ls)
         # loop on filtered cells
         positions = []
@@ -152,13 +148,16 @@ class VF(object):
             if nmb_struct == (0, 0):
                 continue
             else:
+                delta_x = _get_cell_size(self.axe_x, j)
+                delta_y = _get_cell_size(self.axe_y, i)
                 positions.append((tmp_vf.axe_x[0] + delta_x/2.,
                                   tmp_vf.axe_y[0] + delta_y/2.))
                 # getting CP type
                 if tmp_vf.pbi_x[1] == -1:
                     cp_types.append(0)
                 else:
-                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy)
+                    jac = _get_jacobian_matrix(tmp_vf.vx, tmp_vf.vy,
+                                               delta_x, delta_y)
                     eigvals, eigvects = np.linalg.eig(jac)
                     tau = np.real(eigvals[0])
                     mu = np.sum(np.abs(np.imag(eigvals)))
@@ -210,12 +209,21 @@ class VF(object):
         Vx = self.vx
         Vy = self.vy
         mask = self.mask
-        real_dx = axe_x[1] - axe_x[0]
-        real_dy = axe_y[1] - axe_y[0]
         # import linear interpolation levelset solutions (computed with sympy)
         from .levelset_data import get_sol
         sol = get_sol()
 
+        # function to get the position in cells where the sympy solution is
+        #     not usable
+        def get_zeros_in_cell(pos, ind_x, ind_y):
+            zeros = _get_bilinear_zeros(Vx[ind_y:ind_y + 2, ind_x:ind_x + 2],
+                                        Vy[ind_y:ind_y + 2, ind_x:ind_x + 2])
+            if len(zeros) == 0:
+                return np.array(pos)
+            s, t = np.mean(zeros, axis=0)
+            return np.array([axe_x[ind_x] + s*_get_cell_size(axe_x, ind_x),
+                             axe_y[ind_y] + t*_get_cell_size(axe_y, ind_y)])
+
         # function to get the position in a cell detected by
         #     get_cp_cell_position
         def get_cp_position_in_cell(pos):
@@ -224,6 +232,8 @@ class VF(object):
             # get the cell indices
             ind_x = np.where(tmp_x < axe_x)[0][0] - 1
             ind_y = np.where(tmp_y < axe_y)[0][0] - 1
+            real_dx = _get_cell_size(axe_x, ind_x)
+            real_dy = _get_cell_size(axe_y, ind_y)
             # get data
             Vx_bl = Vx[ind_y:ind_y + 2, ind_x:ind_x + 2]
             Vy_bl = Vy[ind_y:ind_y + 2, ind_x:ind_x + 2]
@@ -233,28 +243,21 @@ class VF(object):
                 res_pos = pos
                 return pos
             # check if null values
-            nmb_zeros = np.sum(Vx_bl + Vy_bl == 0)
+            filt = np.logical_and(Vx_bl == 0, Vy_bl == 0)
+            nmb_zeros = np.sum(filt)
             if nmb_zeros == 1:
-                inds = np.array(np.where(Vx_bl + Vy_bl == 0)).reshape(2)
-                res_pos = np.array([axe_x[ind_x + inds[0]],
-                                    axe_y[ind_y + inds[1]]])
+                inds = np.argwhere(filt)[0]
+                res_pos = np.array([axe_x[ind_x + inds[1]],
+                                    axe_y[ind_y + inds[0]]])
                 return res_pos
             elif nmb_zeros > 1:
                 res_pos = pos
                 return res_pos
-            # check if zero values
-            if np.any(Vx_bl == 0) or np.any(Vy_bl == 0):
-                # if only one point
-                filt = np.logical_and(Vx_bl == 0, Vy_bl == 0)
-                if np.sum(filt) == 1:
-                    tmp_inds = np.argwhere(filt)
-                    return np.array([tmp_inds[0] + axe_x[ind_x],
-                                     tmp_inds[1] + axe_y[ind_y]])
-                # else raise warning
-                warnings.warn("There is a point with zero velocity, it's"
-                              "a particular case not implemented yet. "
-                              "Skipping this cell (there will be missing CP).")
-                return np.array([np.nan, np.nan])
+            # particular cases (null components on the cell nodes, or field
+            # too close to a linear one for the sympy solution)
+            if (np.any(Vx_bl == 0) or np.any(Vy_bl == 0)
+                    or _is_nearly_linear(Vx_bl, Vy_bl)):
+                return get_zeros_in_cell(pos, ind_x, ind_y)
             # solve to get the zero velocity point
             tmp_dic = {'Vx_1': Vx_bl[0, 0], 'Vx_2': Vx_bl[0, 1],
                        'Vx_3': Vx_bl[1, 0], 'Vx_4': Vx_bl[1, 1],
@@ -284,17 +287,16 @@ class VF(object):
                     x_sols[j] = x_sols[j].as_real_imag()[0]
                 if np.iscomplex(y_sols[j]):
                     y_sols[j] = y_sols[j].as_real_imag()[0]
-                if (x_sols[j] < 0 or x_sols[j] > real_dx or
-                        y_sols[j] < 0 or y_sols[j] > real_dy):
+                if not (0 <= x_sols[j] <= real_dx and
+                        0 <= y_sols[j] <= real_dy):
                     continue
                 tmp_sol.append([x_sols[j], y_sols[j]])
             # if no more points
             if len(tmp_sol) == 0:
-                res_pos = np.array([tmp_x, tmp_y])
+                res_pos = get_zeros_in_cell(pos, ind_x, ind_y)
             # if multiple points
             elif len(tmp_sol) != 1:
                 tmp_sol = np.array(tmp_sol)
-                tmp_sol = [t for t in tmp_sol if not np.any(np.isnan(t))]
                 if not np.all(tmp_sol[0] == tmp_sol):
                     tmp_sol = [np.mean(tmp_sol, axis=0)]
                 tmp_sol = tmp_sol[0]
@@ -2717,7 +2719,8 @@ def get_critical_points(obj, time=0, unit_time='', window_size=4,
             tmp_vf = obj
         # smoothing if necessary
         if smoothing_size != 0:
-            tmp_vf.smooth(tos='gaussian', size=smoothing_size, inplace=True)
+            tmp_vf = tmp_vf.smooth(tos='gaussian', size=smoothing_size,
+                                   inplace=False)
         # get cp positions
         if kind == 'pbi':
             res = _get_cp_pbi_on_VF(tmp_vf, time=time, unit_time=unit_time,
@@ -3381,8 +3384,13 @@ def _get_saddle_orientations(vectorfield, pt):
     inds_X_2, inds_Y_2 = np.meshgrid(inds_x_2, inds_y_2)
     local_Vx = Vx[inds_X_2, inds_Y_2]
     local_Vy = Vy[inds_X_2, inds_Y_2]
+    # use the local positions on uneven grids
+    if not np.allclose(np.diff(axe_x), dx):
+        dx = axe_x[inds_x_2]
+    if not np.allclose(np.diff(axe_y), dy):
+        dy = axe_y[inds_y_2]
     # get jacobian eignevalues
-    jac = _get_jacobian_matrix(local_Vx, local_Vy, dx, dy, pt)
+    jac = _get_jacobian_matrix(local_Vx, local_Vy, dx, dy)
     eigvals, eigvects = np.linalg.eig(jac)
     if eigvals[1] < eigvals[0]:
         orient1 = np.real(eigvects[:, 0])
@@ -3393,7 +3401,78 @@ def _get_saddle_orientations(vectorfield, pt):
     return np.real(orient1), np.real(orient2)
 
 
-def _get_jacobian_matrix(Vx, Vy, dx=1., dy=1, pt=None):
+def _get_cell_size(axe, ind):
+    """
+    Return the size of a cell along the given axis.
+    """
+    steps = np.diff(axe)
+    if np.allclose(steps, steps[0]):
+        return steps[0]
+    return steps[ind]
+
+
+def _get_bilinear_coefs(V):
+    """
+    Return the coefficients of the bilinear interpolation
+    'c0 + c1*s + c2*t + c3*s*t' of a component in a cell.
+    """
+    return (V[0, 0], V[0, 1] - V[0, 0], V[1, 0] - V[0, 0],
+            V[1, 1] - V[0, 1] - V[1, 0] + V[0, 0])
+
+
+def _is_nearly_linear(Vx, Vy):
+    """
+    Return 'True' if the bilinear terms are negligible in a cell.
+    """
+    coefs = np.abs([_get_bilinear_coefs(Vx), _get_bilinear_coefs(Vy)])
+    return np.max(coefs[:, 3]) <= 1e-6*np.max(coefs[:, 0:3])
+
+
+def _get_bilinear_zeros(Vx, Vy):
+    """
+    Return the zeros of the bilinear interpolation of a vector field in a cell.
+
+    Parameters
+    ----------
+    Vx, Vy : 2x2 arrays
+        Velocity components on the cell nodes (indexed by [y, x]).
+
+    Returns
+    -------
+    zeros : list of [s, t]
+        Positions of the zeros relative to the cell (between 0 and 1).
+    """
+    a0, a1, a2, a3 = _get_bilinear_coefs(Vx)
+    b0, b1, b2, b3 = _get_bilinear_coefs(Vy)
+    # second order equation on 's' (the second order term can be null)
+    c2 = a1*b3 - b1*a3
+    c1 = a0*b3 + a1*b2 - b0*a3 - b1*a2
+    c0 = a0*b2 - b0*a2
+    delta = c1**2 - 4*c2*c0
+    if delta < 0:
+        return []
+    q = -(c1 + np.copysign(delta**.5, c1))/2.
+    roots = []
+    if q != 0:
+        roots.append(c0/q)
+    if c2 != 0:
+        roots.append(q/c2)
+    zeros = []
+    for s in roots:
+        # use the best conditioned equation to get 't'
+        den_a, den_b = a2 + a3*s, b2 + b3*s
+        if den_a == 0 and den_b == 0:
+            continue
+        if abs(den_a) > abs(den_b):
+            t = -(a0 + a1*s)/den_a
+        else:
+            t = -(b0 + b1*s)/den_b
+        if -1e-9 <= s <= 1 + 1e-9 and -1e-9 <= t <= 1 + 1e-9:
+            zeros.append([min(max(s, 0.), 1.), min(max(t, 0.), 1.)])
+    return zeros
+
+
+def _get_jacobian_matrix(Vx, Vy, dx=1., dy=1):
     """
     Return the jacobian matrix at the center of 4 points.
     """
@@ -3409,10 +3488,6 @@ def _get_jacobian_matrix(Vx, Vy, dx=1., dy=1, pt=None):
     # compute gradients
     Vx_dx, Vx_dy = np.gradient(Vx.transpose(), dx, dy)
     Vy_dx, Vy_dy = np.gradient(Vy.transpose(), dx, dy)
-    axe_x = np.arange(0, Vx.shape[0]*dx, dx)
-    axe_y = np.arange(0, Vx.shape[1]*dy, dy)
-    if pt is None:
-        pt = [np.mean(axe_x), np.mean(axe_y)]
     # get interpolated gradient at the point
     Vx_dx2 = np.mean(Vx_dx)
     Vx_dy2 = np.mean(Vx_dy)
-- 
2.43.0


From 51ca0d9dae5b5769a0bfe81f9319d30dfaf32793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 66/84] fix: critical point collections shared, lost or kept
 obsolete points and trajectories; trajectories linked points by squared
 distance

---
 .../vortex_detection/vortex_detection.py      | 83 ++++++++++++-------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/IMTreatment/vortex_detection/vortex_detection.py b/IMTreatment/vortex_detection/vortex_detection.py
index cb6ad0c..71539f0 100644
--- a/IMTreatment/vortex_detection/vortex_detection.py
+++ b/IMTreatment/vortex_detection/vortex_detection.py
@@ -25,7 +25,7 @@ from ..core import Points, OrientedPoints, Profile, ScalarField, VectorField,\
     TemporalScalarFields,\
     TemporalVectorFields
 from ..utils import ProgressCounter, make_unit
-from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
+from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from ..vortex_criterions import get_kappa, get_gamma, get_iota, \
     get_residual_vorticity
 import matplotlib.pyplot as plt
@@ -471,9 +471,9 @@ class CritPoints(object):
     def __add__(self, obj):
         if isinstance(obj, CritPoints):
             if len(obj.times) == 0:
-                return self
+                return self.copy()
             if len(self.times) == 0:
-                return obj
+                return obj.copy()
             if not self.unit_time == obj.unit_time:
                 raise ValueError()
             if not self.unit_x == obj.unit_x:
@@ -490,6 +490,8 @@ class CritPoints(object):
             tmp_CP.node_o = np.append(self.node_o, obj.node_o)
             tmp_CP.sadd = np.append(self.sadd, obj.sadd)
             tmp_CP.times = np.append(self.times, obj.times)
+            for pts in tmp_CP.iter:
+                pts[:] = [pt.copy() for pt in pts]
             tmp_CP._sort_by_time()
             # test if there is double
             for i, t in enumerate(tmp_CP.times[0:-1]):
@@ -614,11 +616,10 @@ class CritPoints(object):
         elif isinstance(epsilon, NUMBERTYPES):
             pass
         elif isinstance(epsilon, unum.Unum):
-            fact = epsilon/self.unit_x
-            unit_fact = fact.strUnit()
-            if unit_fact != '[]':
+            try:
+                epsilon = (epsilon/self.unit_x).asNumber(make_unit(''))
+            except unum.IncompatibleUnitsError:
                 raise ValueError()
-            epsilon = fact.asNumber()
         else:
             raise TypeError()
         self.current_epsilon = epsilon
@@ -727,7 +728,7 @@ class CritPoints(object):
         for pt in pts:
             tot += pt
         # getting density map
-            absolute = False
+        absolute = False
         if output_format == 'absolute':
             absolute = True
             output_format = 'normalized'
@@ -861,6 +862,9 @@ class CritPoints(object):
         new_trajs = []
         for traj_type in tmp_cp.iter_traj:
             tmp_trajs = []
+            if traj_type is None:
+                new_trajs.append(None)
+                continue
             for traj in traj_type:
                 # if trajectory too short, just keep it
                 if len(traj) <= 2:
@@ -1011,8 +1015,9 @@ class CritPoints(object):
                     if tmp_conv.min > rel_diff_epsilon:
                         continue
                     # else, shift the trajectory and add it to the set
-                    shift = tmp_conv.x[min(list(range(len(tmp_conv))),
-                                           key=lambda i: tmp_conv.y[i])]
+                    shift = tmp_conv.x[np.argmin(np.where(tmp_conv.mask,
+                                                          np.inf,
+                                                          tmp_conv.y))]
                     dx = tmp_x.x[1] - tmp_x.x[0]
                     shift = np.floor(shift/dx)*dx   # not allow quarter-dx
                     tmp_x.x += shift
@@ -1206,6 +1211,8 @@ class CritPoints(object):
             for pt in pts:
                 pt.set_origin(x=x, y=y)
         for trajs in self.iter_traj:
+            if trajs is None:
+                continue
             for traj in trajs:
                 traj.set_origin(x=x, y=y)
 
@@ -1245,8 +1252,9 @@ class CritPoints(object):
                 for pt in kind:
                     pt.change_unit('v', new_unit)
             for kind in self.iter_traj:
-                for pt in kind:
-                    pt.change_unit('v', new_unit)
+                if kind is not None:
+                    for pt in kind:
+                        pt.change_unit('v', new_unit)
             old_unit = self.unit_time
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
@@ -1336,10 +1344,15 @@ class CritPoints(object):
             tmp_cp.sadd = tmp_cp.sadd[filt]
             tmp_cp.node_i = tmp_cp.node_i[filt]
             tmp_cp.node_o = tmp_cp.node_o[filt]
-            for traj_type in self.iter_traj:
-                [traj.crop(intervv=intervt, ind=ind, inplace=True)
-                 for traj in traj_type]
-            self._remove_void_trajectories()
+            if ind:
+                intervt = [np.min(tmp_cp.times, initial=np.inf),
+                           np.max(tmp_cp.times, initial=-np.inf)]
+            for traj_type in tmp_cp.iter_traj:
+                if traj_type is None:
+                    continue
+                for traj in traj_type:
+                    traj.crop(intervv=intervt, inplace=True)
+            tmp_cp._remove_void_trajectories()
         # spatial cropping
         if intervx is not None or intervy is not None:
             for kind in tmp_cp.iter:
@@ -1422,8 +1435,12 @@ class CritPoints(object):
         """
         # loop on trajectories
         for typ in self.iter_traj:
+            if typ is None:
+                continue
             for traj in typ:
+                times = traj.v
                 traj.smooth(tos=tos, size=size, inplace=True)
+                traj.v = times
 
     def topo_simplify(self, dist_min, kind='replacement'):
         """
@@ -1531,6 +1548,9 @@ class CritPoints(object):
             new_pt.xy = tmp_field.get_nearest_extrema(cp_pts[i].xy,
                                                       extrema=extrema)
             new_cp_pts.append(new_pt)
+        tmp_pts = np.empty((len(new_cp_pts),), dtype=object)
+        tmp_pts[:] = new_cp_pts
+        new_cp_pts = tmp_pts
         # store new positions
         if inplace:
             tmp_traj = self
@@ -1558,8 +1578,8 @@ class CritPoints(object):
         This method is called when some points are modified (deleted or added).
         """
         self.current_epsilon = None
-        for i in range(len(self.iter_traj)):
-            self.iter_traj[i] = None
+        for cp_type in self.cp_types:
+            self.__setattr__('{}_traj'.format(cp_type), None)
 
     def _remove_void_trajectories(self):
         """
@@ -1568,8 +1588,10 @@ class CritPoints(object):
         for traj_type in self.cp_types:
             traj_type = "{}_traj".format(traj_type)
             trajs = self.__getattribute__(traj_type)
-            filt = np.array([len(traj) != 0 for traj in trajs])
-            self.__setattr__(traj_type, trajs[filt])
+            if trajs is None:
+                continue
+            self.__setattr__(traj_type,
+                             [traj for traj in trajs if len(traj) != 0])
 
     def _sort_by_time(self):
         """
@@ -1606,13 +1628,14 @@ class CritPoints(object):
             for traj in traj_type:
                 tot += traj
             # replace exising points
-            self.iter[i] = np.empty((len(self.times),), dtype=object)
+            new_pts = np.empty((len(self.times),), dtype=object)
             for j, time in enumerate(self.times):
                 filt = tot.v == time
-                self.iter[i][j] = Points(tot.xy[filt], v=tot.v[filt],
-                                         unit_x=tot.unit_x,
-                                         unit_y=tot.unit_y,
-                                         unit_v=tot.unit_v)
+                new_pts[j] = Points(tot.xy[filt], v=tot.v[filt],
+                                    unit_x=tot.unit_x,
+                                    unit_y=tot.unit_y,
+                                    unit_v=tot.unit_v)
+            self.__setattr__(self.cp_types[i], new_pts)
 
     @staticmethod
     def _get_cp_time_evolution(points, times=None, epsilon=None,
@@ -1738,7 +1761,7 @@ class CritPoints(object):
                         = np.unravel_index(np.argmin(dist2_mat),
                                            dist2_mat.shape)
                     # if dist to big or nothing remaining, we stop
-                    if (dist2_mat[indmin_pt, indmin_line] > epsilon or
+                    if (dist2_mat[indmin_pt, indmin_line] > self.epsilon2 or
                             dist2_mat[indmin_pt, indmin_line] == np.inf):
                         break
                     # append pt to Line
@@ -2158,13 +2181,15 @@ class TopoPoints(object):
             types = np.array(types, dtype=int)
         except ValueError:
             raise TypeError()
+        if len(xy) == 0:
+            xy = xy.reshape(0, 2)
         if xy.ndim != 2:
             raise ValueError()
         if types.ndim != 1:
             raise ValueError()
         if xy.shape[1] != 2:
             raise ValueError()
-        if not xy.shape[0] != types.shape:
+        if xy.shape[0] != types.shape[0]:
             raise ValueError()
         # storing
         self.xy = xy
@@ -2187,7 +2212,7 @@ class TopoPoints(object):
         # check params
         if not isinstance(CP_obj, CritPoints):
             raise TypeError()
-        if not isinstance(wanted_ind, int):
+        if not isinstance(wanted_ind, INTEGERTYPES):
             raise TypeError()
         if wanted_ind > len(CP_obj.foc) - 1:
             raise ValueError()
@@ -2246,7 +2271,7 @@ class TopoPoints(object):
         types = [[typ] for typ in types]
         pbis = self.pbis.copy()
         # simplication loop
-        while True:
+        while self.dim > 1:
             # get min position
             amin = np.argmin(dist2)
             ind_1 = int(amin/self.dim)
-- 
2.43.0


From 76044ef497eedeb1db389a8acbd2702db7fa476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:01 +0000
Subject: [PATCH 67/84] fix: modal bases lost eigenvectors, times and modes
 when cropped, and were modified by get_spatial_coherence

---
 IMTreatment/pod/pod.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/IMTreatment/pod/pod.py b/IMTreatment/pod/pod.py
index 1220be9..0fa54d8 100644
--- a/IMTreatment/pod/pod.py
+++ b/IMTreatment/pod/pod.py
@@ -176,12 +176,12 @@ class ModalFields(Field):
             modes_to_keep = np.array(modes_to_keep, dtype=int)
         else:
             if isinstance(modes_to_remove, int):
-                modes_to_remove = np.arrange(len(self.modes) - modes_to_remove,
-                                             len(self.modes))
+                modes_to_remove = np.arange(len(self.modes) - modes_to_remove,
+                                            len(self.modes))
             if not isinstance(modes_to_remove, ARRAYTYPES):
                 raise TypeError()
             modes_to_remove = np.array(modes_to_remove, dtype=int)
-            modes_to_keep = np.arrange(len(self.modes))
+            modes_to_keep = np.arange(len(self.modes))
             modes_to_keep = np.delete(modes_to_keep, modes_to_remove)
         # get data
         if inplace:
@@ -194,7 +194,6 @@ class ModalFields(Field):
         if self.decomp_type == 'pod':
             new_eigvals = Profile(unit_x=self.eigvals.unit_x,
                                   unit_y=self.eigvals.unit_y)
-            new_eigvects = []
         elif self.decomp_type == "dmd":
             new_growth_rate = Profile(unit_x=self.eigvals.unit_x,
                                       unit_y=self.eigvals.unit_y)
@@ -213,10 +212,6 @@ class ModalFields(Field):
             if self.decomp_type == 'pod':
                 new_eigvals.add_point(tmp_pod.eigvals.x[ind],
                                       tmp_pod.eigvals.y[ind])
-                tmp_vect = []
-                for ind2 in modes_to_keep:
-                    tmp_vect.append(tmp_pod.eigvects[ind, ind2])
-                new_eigvects.append(tmp_vect)
             if self.decomp_type == "dmd":
                 new_growth_rate.add_point(tmp_pod.growth_rate.x[ind],
                                           tmp_pod.growth_rate.y[ind])
@@ -232,7 +227,7 @@ class ModalFields(Field):
         tmp_pod.temp_evo = new_temp_evo
         if self.decomp_type == 'pod':
             tmp_pod.eigvals = new_eigvals
-            tmp_pod.eigvects = np.array(new_eigvects, dtype=float)
+            tmp_pod.eigvects = tmp_pod.eigvects[:, modes_to_keep]
         if self.decomp_type == "dmd":
             tmp_pod.growth_rate = new_growth_rate
             tmp_pod.mode_norms = new_mode_norms
@@ -281,7 +276,7 @@ class ModalFields(Field):
                 elif intervt[0] >= times[-1]:
                     raise ValueError()
                 else:
-                    ind_1 = np.where(times > intervt[0])[0][0]
+                    ind_1 = np.where(times >= intervt[0])[0][0]
                 if intervt[1] >= times[-1]:
                     ind_2 = len(times)
                 elif intervt[1] <= times[0]:
@@ -388,7 +383,7 @@ class ModalFields(Field):
         else:
             tmp_MF = self.copy()
             for n in np.arange(len(tmp_MF.modes)):
-                tmp_MF.mdes[n].smooth(tos=tos, size=size, inplace=True)
+                tmp_MF.modes[n].smooth(tos=tos, size=size, inplace=True)
             return tmp_MF
 
     def augment_temporal_resolution(self, fact=2, interp='linear',
@@ -711,7 +706,7 @@ class ModalFields(Field):
             center_y = np.int(len(axe_y)/2.)
 
             def get_field_spec_std(data):
-                data -= np.mean(data)
+                data = data - np.mean(data)
                 spec = np.abs(np.real(np.fft.rfft2(data)))
                 spec = np.fft.fftshift(spec)
                 spec /= spint.simps(spint.simps(spec))
-- 
2.43.0


From c986e2112671af22306c2ca63821c13980518ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:03 +0000
Subject: [PATCH 68/84] fix: removal from a collection of files by regex or by
 several indices removes exactly those entries; the depth limit no longer
 hides other directories; deleting non-empty, nested or repeated entries no
 longer fails and keeps the existence flags right

---
 IMTreatment/utils/files.py | 54 ++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/IMTreatment/utils/files.py b/IMTreatment/utils/files.py
index 68daf5b..4d22509 100644
--- a/IMTreatment/utils/files.py
+++ b/IMTreatment/utils/files.py
@@ -28,7 +28,7 @@ import os
 from os.path import join
 import copy
 import re
-from ..utils.types import ARRAYTYPES
+from ..utils.types import ARRAYTYPES, INTEGERTYPES, STRINGTYPES
 from ..utils.progresscounter import ProgressCounter
 
 try:
@@ -172,22 +172,23 @@ class Files(object):
             if a regex, remove the paths that match,
             if an array, delete paths for each element.
         """
-        if isinstance(arg, int):
-            ind = arg
+        # indices refer to the files set as it was given, so nothing is
+        # removed before all the elements have been looked at
+        inds = set()
+        for thing in arg if isinstance(arg, ARRAYTYPES) else [arg]:
+            if isinstance(thing, INTEGERTYPES):
+                inds.add(range(len(self.paths))[thing])
+            elif isinstance(thing, STRINGTYPES):
+                for i, path in enumerate(self.paths):
+                    if re.match(thing, path) is not None:
+                        print("remove {}".format(path))
+                        inds.add(i)
+            else:
+                raise TypeError()
+        for ind in sorted(inds, reverse=True):
             del self.paths[ind]
             del self.exist[ind]
             del self.isdir[ind]
-        elif isinstance(arg, ARRAYTYPES):
-            for thing in arg:
-                self.remove_files(thing)
-        elif isinstance(arg, str):
-            for i in np.arange(len(self.paths) - 1, -1, -1):
-                res = re.match(arg, self.paths[i])
-                if res is not None:
-                    print("remove {}".format(self.paths[i]))
-                    self.remove_files(i)
-        else:
-            raise TypeError()
 
     def remove_empty_directories():
         """
@@ -210,7 +211,8 @@ class Files(object):
                 tmp_depth = (root[len(rootpath) + len(os.path.sep):]
                              .count(os.path.sep))
                 if depth < tmp_depth:
-                    break
+                    dirs[:] = []
+                    continue
             # load direcories
             if load_dirs:
                 for d in dirs:
@@ -260,9 +262,13 @@ class Files(object):
         self.tree = dic
 
     def delete_existing_files(self, recursive=False):
-        tmp_isdir = list(np.array(self.isdir)[np.array(self.exist)])
-        tmp_paths = list(np.array(self.paths)[np.array(self.exist)])
-        nmb_dir = np.sum(tmp_isdir)
+        tmp_isdir = [d for d, e in zip(self.isdir, self.exist) if e]
+        tmp_paths = [p for p, e in zip(self.paths, self.exist) if e]
+        # a path present several times is only removed once
+        tmp_isdir = [d for i, d in enumerate(tmp_isdir)
+                     if tmp_paths[i] not in tmp_paths[:i]]
+        tmp_paths = list(dict.fromkeys(tmp_paths))
+        nmb_dir = int(np.sum(tmp_isdir))
         nmb_files = len(tmp_paths) - nmb_dir
         print("+++ Ready to remove {} files and {} directories "
               .format(nmb_files, nmb_dir))
@@ -284,14 +290,16 @@ class Files(object):
                                  name_things='files',
                                  perc_interv=10)
             # remove files
-            for i, p in enumerate(np.array(tmp_paths)):
+            for i, p in enumerate(tmp_paths):
                 if tmp_isdir[i]:
                     continue
                 PG.print_progress()
                 os.remove(p)
 
-            # remove dirs
-            for i, p in enumerate(np.array(tmp_paths)):
+            # remove dirs (the deepest first)
+            for i in sorted(range(len(tmp_paths)),
+                            key=lambda i: -tmp_paths[i].count(os.path.sep)):
+                p = tmp_paths[i]
                 if tmp_isdir[i]:
                     # force recursive removing
                     if recursive:
@@ -300,7 +308,7 @@ class Files(object):
                         # else, check if each folder is empty
                         try:
                             os.rmdir(p)
-                        except WindowsError:
+                        except OSError:
                             print("+++ Following folder is not empty\n"
                                   "{}".format(p))
                             while True:
@@ -318,7 +326,7 @@ class Files(object):
                                 shutil.rmtree(p)
             #
             for i in range(len(self.exist)):
-                self.exist[i] = False
+                self.exist[i] = os.path.exists(self.paths[i])
 
 
 def remove_files_in_dirs(rootpath, dir_regex, file_regex,
-- 
2.43.0


From f83537b80ee596b1a0dfa7fc6b8de7c2f4c3a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 69/84] fix: radius of vortices turning clockwise, unit of the
 radius, vortex zone when the centre is outside or at rest

---
 .../vortex_properties/vortex_properties.py    | 86 +++++++++++--------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/IMTreatment/vortex_properties/vortex_properties.py b/IMTreatment/vortex_properties/vortex_properties.py
index 573888c..42de5c9 100644
--- a/IMTreatment/vortex_properties/vortex_properties.py
+++ b/IMTreatment/vortex_properties/vortex_properties.py
@@ -32,6 +32,38 @@ from ..vortex_criterions import (get_NL_residual_vorticity,
                                  get_residual_vorticity, get_vorticity)
 
 
+def _get_vortex_zone(crit, ind_x, ind_y, crit_lim):
+    """
+    Return the vortex zone around the given point.
+
+    Parameters
+    ----------
+    crit : array of positive numbers
+        Criterion used to define the vortex zone.
+    ind_x, ind_y : integers
+        Indices of the vortex center.
+    crit_lim : number
+        Fraction of the criterion maximum defining the zone edge.
+
+    Returns
+    -------
+    zone : array of booleans
+        Vortex zone (empty if the center is not in a vortex)
+    """
+    # first guess, using the value at center as a predicate for the maxima
+    maxi = crit[ind_x, ind_y]
+    # second guess, with the real maxima
+    for _ in range(2):
+        zones, _ = msr.label(crit > maxi*crit_lim)
+        zone_number = zones[ind_x, ind_y]
+        # if we're outside, just give up
+        if zone_number == 0:
+            return np.zeros(crit.shape, dtype=bool)
+        zone = zones == zone_number
+        maxi = np.max(crit[zone])
+    return zone
+
+
 def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
                       output_center=False, output_unit=False):
     """
@@ -71,32 +103,28 @@ def get_vortex_radius(VF, vort_center, NL_radius=None, eps_detection=0.1,
     else:
         vort = get_NL_residual_vorticity(VF, radius=NL_radius, ind=False,
                                          mask=None, raw=False)
+    # the vortex may turn in both directions
+    vort = np.abs(vort.values)
     dx = VF.axe_x[1] - VF.axe_x[0]
     dy = VF.axe_y[1] - VF.axe_y[0]
-    # getting the ~initial maximum vorticity of the zone
+    # getting the vortex zone
     ind_x = VF.get_indice_on_axe(1, vort_center[0], kind='nearest')
     ind_y = VF.get_indice_on_axe(2, vort_center[1], kind='nearest')
-    max_vort = vort.values[ind_x, ind_y]
-    # getting zone around point
-    zones, nmb_zones = msr.label(vort.values > eps_detection*max_vort)
-    zone_number = zones[ind_x, ind_y]
-    # getting the real maximum vorticity
-    max_vort = np.max(vort.values[zones == zone_number])
-    # getting the real zones
-    zones, nmb_zones = msr.label(vort.values > eps_detection*max_vort)
-    zone_number = zones[ind_x, ind_y]
+    zone = _get_vortex_zone(vort, ind_x, ind_y, eps_detection)
     # getting the zone area and radius
-    area = np.sum(zones == zone_number)*dx*dy
+    area = np.sum(zone)*dx*dy
     radius = (area/np.pi)**.5
     # getting the new center
     if output_center:
-        center = np.array(msr.center_of_mass(np.abs(vort.values),
-                                             zones == zone_number))
-        center[0] = VF.axe_x[0] + center[0]*dx
-        center[1] = VF.axe_y[0] + center[1]*dy
+        if radius == 0:
+            center = np.array(vort_center, dtype=float)
+        else:
+            center = np.array(msr.center_of_mass(vort, zone))
+            center[0] = VF.axe_x[0] + center[0]*dx
+            center[1] = VF.axe_y[0] + center[1]*dy
     # optional computed unit
     if output_unit:
-        unit_radius = (VF.unit_x**2 + VF.unit_y**2)**.5
+        unit_radius = (VF.unit_x*VF.unit_y)**.5
     # return
     if not output_unit and not output_center:
         return radius
@@ -249,29 +277,18 @@ def get_vortex_property(VF, vort_center, size_crit=None, size_crit_lim=0.1,
     ind_x = VF.get_indice_on_axe(1, vort_center[0], kind='nearest')
     ind_y = VF.get_indice_on_axe(2, vort_center[1], kind='nearest')
     unit_int = prop_crit.unit_values*prop_crit.unit_x*prop_crit.unit_y
-    # check if value is positive at the vortex center
-    if VF.magnitude[ind_x, ind_y] <= 0:
-        raise ValueError()
-    # get first guess vortex zone (use value at center as a predica of
-    #    the maxima)
-    tmp_maxi = size_crit.values[ind_x, ind_y]
-    vort_zones = size_crit.values > tmp_maxi*size_crit_lim
-    vort_zones_labs, _ = msr.label(vort_zones)
-    lab = vort_zones_labs[ind_x, ind_y]
+    # get the vortex zone
+    vort_zone = _get_vortex_zone(size_crit.values, ind_x, ind_y,
+                                 size_crit_lim)
     # if we're outside, just give up
-    if lab == 0:
+    if not np.any(vort_zone):
         if output_unit:
             return 0, unit_int
         else:
             return 0
-    # get final vortex zone with real maxima
-    size_crit_maxi = np.max(size_crit.values[lab == vort_zones_labs])
-    vort_zones = size_crit.values > size_crit_maxi*size_crit_lim
-    vort_zones_labs, _ = msr.label(vort_zones)
-    lab = vort_zones_labs[ind_x, ind_y]
     # get prop_crit integral along zone
     tmp_prop_crit = prop_crit.values.copy()
-    tmp_prop_crit[lab != vort_zones_labs] = 0.
+    tmp_prop_crit[~vort_zone] = 0.
     dx = VF.axe_x[1] - VF.axe_x[0]
     dy = VF.axe_y[1] - VF.axe_y[0]
     prop = simps(simps(tmp_prop_crit, dx=dy), dx=dx)
@@ -279,7 +296,7 @@ def get_vortex_property(VF, vort_center, size_crit=None, size_crit_lim=0.1,
     if verbose:
         tmp_vort_zone = ScalarField()
         tmp_vort_zone.import_from_arrays(VF.axe_x, VF.axe_y,
-                                         values=lab == vort_zones_labs)
+                                         values=vort_zone)
         fig, axs = plt.subplots(2, 1)
         plt.sca(axs[0])
         size_crit.display()
@@ -429,7 +446,8 @@ def get_vortex_circulation(VF, vort_center, epsilon=0.1, output_unit=False,
     # if we are outside a zone
     if lab == 0:
         if output_unit:
-            return 0., make_unit("")
+            unit_circ = vort.unit_values*VF.unit_x*VF.unit_y
+            return 0., unit_circ/unit_circ.asNumber()
         else:
             return 0.
     if verbose:
-- 
2.43.0


From 0f58668235d68bfbf069649ef360691e9f628b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:48 +0000
Subject: [PATCH 70/84] fix: open walls in potential flow, points in line with
 a panel, abscissa of oblique lines

---
 IMTreatment/potential_flow/potential_flow.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index d6b753a..3b8578e 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -257,9 +257,10 @@ class System(object):
         if raw:
             return vx, vy
         else:
-            x = x - np.min(x)
-            y = y - np.min(y)
-            new_x = np.sqrt(x**2 + y**2) - np.sqrt(x[0]**2 + y[0]**2)
+            # distance from the first point (negative if going backward)
+            new_x = np.sqrt((x - xa)**2 + (y - ya)**2)
+            if xb < xa or (xb == xa and yb < ya):
+                new_x = -new_x
             prof_vx = Profile(new_x, vx, mask=mask, unit_x='m',
                               unit_y='m/s')
             prof_vy = Profile(new_x, vy, mask=mask, unit_x='m',
@@ -430,9 +431,9 @@ class object_1D(object):
                 continue
             new_x += list(np.linspace(x[i], x[i + 1], tmp_nmb + 1)[:-1])
             new_y += list(np.linspace(y[i], y[i + 1], tmp_nmb + 1)[:-1])
-        # closing
-        new_x += [x[0]]
-        new_y += [y[0]]
+        # last point
+        new_x += [x[-1]]
+        new_y += [y[-1]]
         new_x = np.array(new_x, dtype=float)
         new_y = np.array(new_y, dtype=float)
         # storing new values
@@ -577,7 +578,7 @@ class Panel(object):
         """
         # check if around the point c
         dist_c = (self.xc - x)**2 + (self.yc - y)**2
-        if dist_c > self.length2/2.:
+        if dist_c > self.length2/4.*(1. + 1e-6):
             return False
         # check if on the panle line
         if self.vertical:
-- 
2.43.0


From fbaf301220288caea3fc04d0377378dfe410329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:15 +0000
Subject: [PATCH 71/84] fix: boundary layer quantities of scalar fields
 (profile directions, units), separation position, Blasius profiles at given
 heights, turbulent profiles, Thwaites pressure gradient

---
 IMTreatment/boundary_layer/boundary_layer.py | 92 ++++++++++----------
 1 file changed, 46 insertions(+), 46 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ae9be9a..c02c279 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -234,19 +234,20 @@ class BlasiusBL(object):
             else:
                 theta = y/(np.sqrt(x)*np.sqrt(self.nu/self.Uinf))
             # solving with scipy ode solver
-            sol = odeint(f_deriv, f0, theta)
+            # (the initial values are those at the wall)
+            sol = odeint(f_deriv, f0, np.append([0.], theta))[1:]
             # getting adimensionnale velocity
             u_over_U = sol[:, 1]
             # getting dimensionnal values
             u = u_over_U*self.Uinf
         # Turbulent case
         else:
-            delta, _, _ = self.get_thickness(x, allTurbulent=True)
+            delta = self.get_BL_properties(x, allTurbulent=True)[0][0]
             if y is None:
                 theta = np.linspace(0, 10, 200)
-                y = theta*delta.y[0]
+                y = theta*delta
             else:
-                theta = y/delta.y[0]
+                theta = y/delta
             u_over_U = np.power(theta, 1./7.)
             u_over_U[theta > 1] = 1.
             u = u_over_U*self.Uinf
@@ -291,7 +292,7 @@ class BlasiusBL(object):
         Return a the x value that give the wanted delta.
         """
         # getting the laminar value of x
-        xpos = (delta**2*self.Uinf)/(4.92**2*self.nu)
+        xpos = (delta**2*self.Uinf)/(4.91**2*self.nu)
         # checking if turbulent
         Re_x = self.get_Rex(xpos)
         if Re_x > 5e5 or allTurbulent:
@@ -602,7 +603,7 @@ class ThwaitesBL(object):
         """
         # get u_e and grad u_e
         u_e = np.array([self.u_e(xi) for xi in x])
-        d_u_e = np.gradient(u_e)
+        d_u_e = np.gradient(u_e, x)
         # get delta2
         delta2 = self.get_momentum_thikness(x)
         # get lambda
@@ -814,6 +815,19 @@ class WakeLaw(WallLaw):
                 2.*Cc/self.k*np.sin(np.pi*y/(2.*self.delta))**2)
 
 
+_DIRECTIONS = {1: 'x', 2: 'y'}
+
+
+def _get_swept_axis(obj, direction):
+    """
+    Return the swept axis, its unit and the unit along the profiles.
+    """
+    if direction == 1:
+        return obj.axe_x, obj.unit_x, obj.unit_y
+    else:
+        return obj.axe_y, obj.unit_y, obj.unit_x
+
+
 def get_bl_thickness(obj, direction=1, perc=0.95):
     """
     Return a boundary layer thickness if 'obj' is a Profile.
@@ -842,13 +856,10 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
         value = obj.get_interpolated_values(y=maxi*perc)
         return value[0]
     elif isinstance(obj, ScalarField):
-        if direction == 1:
-            axe = obj.axe_x
-        else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe, unit_axe, unit_prof = _get_swept_axis(obj, direction)
+        profiles = [obj.get_profile(_DIRECTIONS[direction], x) for x in axe]
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_prof)
     else:
         raise TypeError("Can't compute (yet ?) BL thickness on this kind of"
                         " data : {}".format(type(obj)))
@@ -892,15 +903,12 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
         return Delta_star
     # if obj is a scalarField
     elif isinstance(obj, ScalarField):
-        if direction == 1:
-            axe = obj.axe_x
-        else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe, unit_axe, unit_prof = _get_swept_axis(obj, direction)
+        profiles = [obj.get_profile(_DIRECTIONS[direction], x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
-                                        nu=nu)
-                  for prof, _ in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+                                        nu=nu, tau=tau)
+                  for prof in profiles]
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_prof)
 
 
 def get_displ_thickness(obj, direction=1):
@@ -948,13 +956,10 @@ def get_displ_thickness(obj, direction=1):
         delta = np.trapz(fonct, pos_x)
         return delta
     elif isinstance(obj, ScalarField):
-        if direction == 1:
-            axe = obj.axe_x
-        else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe, unit_axe, unit_prof = _get_swept_axis(obj, direction)
+        profiles = [obj.get_profile(_DIRECTIONS[direction], x) for x in axe]
         values = [get_displ_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_prof)
     else:
         raise TypeError("Can't compute (yet ?) BL displacement thickness on"
                         "this kind of data : {}".format(type(obj)))
@@ -1005,13 +1010,10 @@ def get_momentum_thickness(obj, direction=1):
         delta = np.trapz(fonct, pos_x)
         return delta
     elif isinstance(obj, ScalarField):
-        if direction == 1:
-            axe = obj.axe_x
-        else:
-            axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        axe, unit_axe, unit_prof = _get_swept_axis(obj, direction)
+        profiles = [obj.get_profile(_DIRECTIONS[direction], x) for x in axe]
         values = [get_momentum_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_prof)
     else:
         raise TypeError("Can't compute (yet ?) BL momentum thickness on"
                         "this kind of data")
@@ -1140,24 +1142,22 @@ def get_shear_stress(obj, direction=1, method='simple',
         else:
             axe = obj.axe_y
         # get profiles
-        profiles = [obj.get_profile(direction, pos_ind, ind=True)
+        profiles = [obj.get_profile(_DIRECTIONS[direction], pos_ind, ind=True)
                     for pos_ind in range(len(axe))]
         # get shear stresses
         values = np.zeros(obj.shape)
         for i in range(len(profiles)):
+            tau_prof = get_shear_stress(profiles[i], direction=1,
+                                        method=method, respace=False,
+                                        tau_w_guess=tau_w_guess,
+                                        rho=rho, nu=nu)
             if direction == 1:
-                values[i, :] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                values[i, :] = tau_prof.y
             else:
-                values[:, i] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                values[:, i] = tau_prof.y
         # returning
         mask = np.isnan(values)
-        unit_values = profiles[0].unit_y
+        unit_values = tau_prof.unit_y
         tau_w = ScalarField()
         tau_w.import_from_arrays(obj.axe_x, obj.axe_y, values, mask=mask,
                                  unit_x=obj.unit_x, unit_y=obj.unit_y,
@@ -1262,18 +1262,18 @@ def get_separation_position(obj, wall_direction, wall_position,
         inds = V.get_indice_on_axe(wall_direction, wall_position)
         if len(inds) == 1:
             inds = [inds[0], inds[0] + 1]
-        if inds[0] - nmb_lines/2 < 0:
+        if inds[0] - nmb_lines//2 < 0:
             lines_pos = axe[0:nmb_lines]
-        elif inds[-1] + nmb_lines/2 > len(axe):
+        elif inds[-1] + nmb_lines//2 > len(axe):
             lines_pos = axe[-nmb_lines-1:-1]
         else:
-            lines_pos = axe[inds[0] - nmb_lines/2:inds[1] + nmb_lines/2]
+            lines_pos = axe[inds[0] - nmb_lines//2:inds[1] + nmb_lines//2]
     # Getting separation points on surrounding lines
     seps = np.array([])
     new_lines_pos = np.array([])
     for lp in lines_pos:
         # extraction one line
-        tmp_profile = V.get_profile(wall_direction, lp)
+        tmp_profile = V.get_profile(_DIRECTIONS[wall_direction], lp)
         # getting the velocity sign changment on the line
         values = tmp_profile.get_interpolated_values(y=0)
         values = np.array(values)
-- 
2.43.0


From e60827f468d7ade578dad77141ca66715b7ef83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:09 +0000
Subject: [PATCH 72/84] fix: positions of a value in a profile include all the
 crossings, also when the value is stored somewhere

---
 IMTreatment/core/profile.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 68ee73d..5987b4d 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -589,18 +589,23 @@ class Profile(object):
                 values = np.ma.masked_array(self.y, self.mask)
             values2 = np.array(self.x)
         # if the wanted value is already present
-        if np.any(value == values):
+        if x is not None and np.any(value == values):
             i_values = values2[np.where(value == values)[0]]
         # if we have to do an interpolation
         else:
             i_values = []
-            for ind in np.arange(0, len(values) - 1):
+            for ind in np.arange(0, len(values)):
                 val_i = values[ind]
-                val_ipp = values[ind + 1]
                 val2_i = values2[ind]
+                # no interpolation needed
+                if val_i == value:
+                    i_values.append(val2_i)
+                if ind == len(values) - 1:
+                    break
+                val_ipp = values[ind + 1]
                 val2_ipp = values2[ind + 1]
-                if (val_i >= value and val_ipp < value) \
-                        or (val_i <= value and val_ipp > value):
+                if (val_i > value and val_ipp < value) \
+                        or (val_i < value and val_ipp > value):
                     i_value = ((val2_i*np.abs(val_ipp - value) +
                                val2_ipp*np.abs(values[ind] - value)) /
                                np.abs(values[ind] - val_ipp))
@@ -623,21 +628,16 @@ class Profile(object):
         # check parameters
         if not isinstance(value, NUMBERTYPES):
             raise TypeError()
-        # if the asked value is present
-        if np.any(self.y == value):
-            ind_0 = np.argwhere(self.y == value)[0]
-            if ind:
-                return ind_0
-            else:
-                pos_0 = [self.x[i] for i in ind_0]
-                return pos_0
         # search for positions
         y = self.y
         y[self.mask] = 0
         y = y - value
         x = self.x
-        sign = y > 0
-        chang = np.abs(np.logical_xor(sign[1::], sign[0:-1:]))
+        # where the asked value is present
+        exact = np.argwhere(np.logical_and(y == 0, ~self.mask)).flatten()
+        # where the asked value is between two points
+        sign = np.sign(y)
+        chang = sign[1::]*sign[0:-1:] < 0
         mask_chang = np.logical_or(self.mask[1::], self.mask[0:-1:])
         chang[mask_chang] = False
         ind_0 = np.argwhere(chang).flatten()
@@ -654,7 +654,8 @@ class Profile(object):
             x_2 = x[ind_0 + 1]
         pos_0 = x_1 + val_1/(val_1 + val_2)*(x_2 - x_1)
         # returning
-        return pos_0
+        pos_exact = exact if ind else x[exact]
+        return np.sort(np.append(pos_exact, pos_0))
 
     def get_integral(self):
         """
-- 
2.43.0


From 9d6aff24160d6611413372e7078242328893b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:27 +0000
Subject: [PATCH 73/84] fix: spectrum of an interval, one-sided spectral
 filters, histograms of fields with missing values, kernel widths of
 distributions, convolutions on negative or decimal axes, last window of
 autocorrelations, zone centres on uneven grids

---
 IMTreatment/core/profile.py     | 49 +++++++++++++++++++--------------
 IMTreatment/core/scalarfield.py | 19 +++++++++----
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 5987b4d..6539cd2 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -760,6 +760,13 @@ class Profile(object):
         from scipy.signal import periodogram, welch
         from scipy.signal import detrend as spdetrend
         tmp_prof = self.copy()
+        # crop if asked
+        if wanted_x is not None:
+            filt = np.logical_and(self.x >= wanted_x[0],
+                                  self.x <= wanted_x[1])
+            tmp_prof = Profile(self.x[filt], self.y[filt],
+                               mask=self.mask[filt], unit_x=self.unit_x,
+                               unit_y=self.unit_y)
         # fill if asked (and if necessary)
         if isinstance(fill, NUMBERTYPES):
             tmp_prof.fill(kind='value', fill_value=fill, inplace=True)
@@ -907,7 +914,7 @@ class Profile(object):
         y_max = np.max(y)
         # get kernel
         import scipy.stats.kde as spkde
-        kernel = spkde.gaussian_kde(y)
+        kernel = spkde.gaussian_kde(y, bw_method=bw_method)
         # get values
         pdf_x = np.linspace(y_min, y_max, resolution)
         pdf_y = kernel(pdf_x)
@@ -946,7 +953,7 @@ class Profile(object):
         corr = np.zeros(2*window_len + 1)
         corr_ad = 0
         nmb = 0
-        for i in np.arange(window_len, len(self.y) - window_len - 1):
+        for i in np.arange(window_len, len(self.y) - window_len):
             central_val = self.y[i]
             surr_vals = self.y[i - window_len:i + window_len + 1]
             tmp_corr = surr_vals*central_val
@@ -959,7 +966,7 @@ class Profile(object):
             return corr
         else:
             dx = self.x[1] - self.x[0]
-            x = np.arange(0, dx*len(corr), dx)
+            x = dx*np.arange(len(corr))
             return Profile(x, corr, unit_x=self.unit_x, unit_y=make_unit(''))
 
     def get_fitting(self, func, p0=None, output_param=False):
@@ -1047,14 +1054,8 @@ class Profile(object):
         y = self.y[filt]
 
         # AD bandwidth
-        width_x = np.max(self.x) - np.min(self.x)
-        width_y = np.max(self.y) - np.min(self.y)
         if isinstance(bw_method, NUMBERTYPES):
-            if width_x > width_y:
-                ad_len = width_y
-            else:
-                ad_len = width_x
-            ad_bw_method = bw_method/float(ad_len)
+            ad_bw_method = bw_method/np.std(y, ddof=1)
         else:
             ad_bw_method = bw_method
 
@@ -1182,22 +1183,21 @@ class Profile(object):
             raise TypeError()
         if mode not in ['full', 'same', 'valid']:
             raise ValueError()
-        if not np.all(self.x[1:] - self.x[0:-1] - (self.x[1] - self.x[0]) <
-                      self.x[-1]*1e-10):
+        dx = self.x[1] - self.x[0]
+        if not np.all(np.abs(self.x[1:] - self.x[0:-1] - dx) < 1e-6*dx):
             raise Exception("Profiles should have orthogonal x axis")
-        if not np.all(other_prof.x[1:] - other_prof.x[0:-1] -
-                      other_prof.x[1] - other_prof.x[0] <
-                      1e-6*np.mean(other_prof.x)):
+        other_dx = other_prof.x[1] - other_prof.x[0]
+        if not np.all(np.abs(other_prof.x[1:] - other_prof.x[0:-1] -
+                             other_dx) < 1e-6*other_dx):
             raise Exception("Profiles should have orthogonal x axis")
-        if not self.x[1] - self.x[0] == other_prof.x[1] - other_prof.x[0]:
+        if not np.abs(dx - other_dx) < 1e-6*dx:
             raise Exception("Profiles should have same x discretization step")
         if not self.unit_x == other_prof.unit_x:
             raise Exception("Profiles should have the same x unit")
-        dx = self.x[1] - self.x[0]
         # get convolution
         conv = np.convolve(self.y, other_prof.y, mode=mode)
         # store in a profile
-        conv_prof = Profile(np.arange(0, dx*len(conv), dx),
+        conv_prof = Profile(dx*np.arange(len(conv)),
                             conv, unit_x=self.unit_x,
                             unit_y=self.unit_y*other_prof.unit_y)
         # return
@@ -1317,9 +1317,16 @@ class Profile(object):
         # define butterworth filter
         fs = len(tmp_prof.x)/(tmp_prof.x[-1] - tmp_prof.x[0])
         nyq = 0.5 * fs
-        low = fmin / nyq
-        high = fmax / nyq
-        b, a = spsign.butter(order, [low, high], btype='band')
+        if fmin is None and fmax is None:
+            raise ValueError("'fmin' or 'fmax' should be specified")
+        elif fmin is None:
+            b, a = spsign.butter(order, fmax / nyq, btype='low')
+        elif fmax is None:
+            b, a = spsign.butter(order, fmin / nyq, btype='high')
+        else:
+            low = fmin / nyq
+            high = fmax / nyq
+            b, a = spsign.butter(order, [low, high], btype='band')
         # Apply filter to data
         y = spsign.lfilter(b, a, tmp_prof.y)
         # Readd average
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 5eb9ce9..246864b 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -729,18 +729,25 @@ class ScalarField(fld.Field):
         else:
             raise ValueError("Invalid value for 'kind'")
         coords = []
+
+        def local_step(axe, ind):
+            # constant for evenly spaced axes, whatever the rounding errors
+            steps = np.diff(axe)
+            if np.allclose(steps, steps[0]):
+                return steps[0]
+            return steps[min(ind, len(steps) - 1)]
         for ind in inds:
             indx = ind[0]
             indy = ind[1]
             if indx % 1 == 0:
                 x = self.axe_x[int(indx)]
             else:
-                dx = self.axe_x[1] - self.axe_x[0]
+                dx = local_step(self.axe_x, int(indx))
                 x = self.axe_x[int(indx)] + dx*(indx % 1)
             if indy % 1 == 0:
                 y = self.axe_y[int(indy)]
             else:
-                dy = self.axe_y[1] - self.axe_y[0]
+                dy = local_step(self.axe_y, int(indy))
                 y = self.axe_y[int(indy)] + dy*(indy % 1)
             coords.append([x, y])
         coords = np.array(coords, dtype=float)
@@ -966,11 +973,11 @@ class ScalarField(fld.Field):
         """
         if bins is None:
             bins = 10
-        hist, xs = np.histogram(self.values.flatten(),
+        hist, xs = np.histogram(self.values[~self.mask],
                                 bins=bins,
                                 range=range,
                                 density=normalized)
-        xs = xs[0:-1] + np.mean(xs[0:2])
+        xs = (xs[0:-1] + xs[1:])/2.
         if cum:
             hist = np.cumsum(hist)
 
@@ -1010,7 +1017,7 @@ class ScalarField(fld.Field):
             cor /= nmb
             # returning
             dx = self.axe_x[1] - self.axe_x[0]
-            x = np.arange(0, len(cor)*dx, dx)
+            x = dx*np.arange(len(cor))
             return prof.Profile(x=x, y=cor, unit_x=self.unit_x,
                                 unit_y=make_unit(''))
         elif direction == 'y':
@@ -1026,7 +1033,7 @@ class ScalarField(fld.Field):
             cor /= nmb
             # returning
             dy = self.axe_y[1] - self.axe_y[0]
-            y = np.arange(0, len(cor)*dy, dy)
+            y = dy*np.arange(len(cor))
             return prof.Profile(x=y, y=cor, unit_x=self.unit_y,
                                 unit_y=make_unit(''))
         else:
-- 
2.43.0


From c203aa68531b40d5bbe756e0b78869d14480acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:40 +0000
Subject: [PATCH 74/84] fix: comparisons of fields, profiles and points of
 different sizes, dimensions, magnitudes or orientations

---
 IMTreatment/core/orientedpoints.py |  7 +++++++
 IMTreatment/core/points.py         | 11 ++++++-----
 IMTreatment/core/profile.py        |  7 ++++---
 IMTreatment/core/scalarfield.py    | 22 +++++++++++++++-------
 IMTreatment/core/temporalfields.py |  9 ++++++---
 IMTreatment/core/vectorfield.py    |  7 ++++---
 IMTreatment/utils/units.py         | 11 +++++++++++
 7 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index f76d7fa..18cbe19 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -83,6 +83,13 @@ class OrientedPoints(pts.Points):
             else:
                 yield (pts_value,) + (self.orientations[i],)
 
+    def __eq__(self, obj):
+        if not isinstance(obj, OrientedPoints):
+            return False
+        return (pts.Points.__eq__(self, obj) and
+                self.orientations.shape == obj.orientations.shape and
+                np.allclose(self.orientations, obj.orientations))
+
     def __add__(self, obj):
         if isinstance(obj, pts.Points):
             tmp_pts = pts.Points.__add__(self, obj)
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 7c1ec5d..0b5500f 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -30,6 +30,7 @@ from scipy import stats
 from scipy import ndimage
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from ..utils import make_unit
+from ..utils.units import same_unit
 
 
 class Points(object):
@@ -147,15 +148,15 @@ class Points(object):
     def __eq__(self, obj):
         if not isinstance(obj, Points):
             return False
-        if not np.all(self.xy == obj.xy):
+        if not np.array_equal(self.xy, obj.xy):
             return False
-        if not np.all(self.v == obj.v):
+        if not np.array_equal(self.v, obj.v):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_unit(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_unit(self.unit_y, obj.unit_y):
             return False
-        if not self.unit_v == obj.unit_v:
+        if not same_unit(self.unit_v, obj.unit_v):
             return False
         return True
 
diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 6539cd2..d4bcffa 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -31,6 +31,7 @@ from scipy import ndimage
 import scipy.optimize as spopt
 import scipy.signal as spsign
 from ..utils import make_unit
+from ..utils.units import same_unit
 from .. import plotlib as pplt
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from .scalarfield import ScalarField
@@ -234,15 +235,15 @@ class Profile(object):
     def __eq__(self, obj):
         if not isinstance(obj, Profile):
             return False
-        if not np.all(self.mask == obj.mask):
+        if not np.array_equal(self.mask, obj.mask):
             return False
         if not np.all(self.x[~self.mask] == obj.x[~obj.mask]):
             return False
         if not np.all(self.y[~self.mask] == obj.y[~obj.mask]):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_unit(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_unit(self.unit_y, obj.unit_y):
             return False
         return True
 
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 246864b..3218aa8 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -35,6 +35,7 @@ from scipy import ndimage
 from .. import plotlib as pplt
 from . import field as fld, profile as prof, points as pts
 from ..utils import make_unit
+from ..utils.units import same_unit
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -54,20 +55,27 @@ class ScalarField(fld.Field):
     def __eq__(self, another):
         if not isinstance(another, ScalarField):
             return False
-        if not np.allclose(self.axe_x, another.axe_x):
+        if not self.shape == another.shape:
             return False
-        if not np.allclose(self.axe_y, another.axe_y):
+
+        def close(arr1, arr2):
+            # the tolerance should depend on the order of magnitude
+            if len(arr1) == 0:
+                return True
+            return np.allclose(arr1, arr2, atol=1e-8*np.max(np.abs(arr1)))
+        if not close(self.axe_x, another.axe_x):
+            return False
+        if not close(self.axe_y, another.axe_y):
             return False
         if not np.all(self.mask == another.mask):
             return False
-        if not np.allclose(self.values[~self.mask],
-                      another.values[~another.mask]):
+        if not close(self.values[~self.mask], another.values[~another.mask]):
             return False
-        if not np.all(self.unit_x == another.unit_x):
+        if not same_unit(self.unit_x, another.unit_x):
             return False
-        if not np.all(self.unit_y == another.unit_y):
+        if not same_unit(self.unit_y, another.unit_y):
             return False
-        if not np.all(self.unit_values == another.unit_values):
+        if not same_unit(self.unit_values, another.unit_values):
             return False
         return True
 
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index ac25328..20c7a7c 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -27,6 +27,7 @@ import numpy as np
 import unum
 import copy
 from ..utils import make_unit, ProgressCounter
+from ..utils.units import same_unit
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from . import field as fld
 from . import fields as flds
@@ -182,9 +183,11 @@ class TemporalFields(flds.Fields, fld.Field):
             if not np.all(self.__getattribute__(attr) ==
                           obj.__getattribute__(attr)):
                 return False
-        for attr in ['field_type', 'unit_x', 'unit_y', 'unit_times']:
-            if not (self.__getattribute__(attr) ==
-                    obj.__getattribute__(attr)):
+        if self.field_type != obj.field_type:
+            return False
+        for attr in ['unit_x', 'unit_y', 'unit_times']:
+            if not same_unit(self.__getattribute__(attr),
+                             obj.__getattribute__(attr)):
                 return False
         return True
 
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 471d74c..fa03d86 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -32,6 +32,7 @@ from .. import plotlib as pplt
 import unum
 from . import field, scalarfield as sf
 from ..utils import make_unit
+from ..utils.units import same_unit
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -291,11 +292,11 @@ class VectorField(field.Field):
             return False
         if not np.all(self.comp_y[~self.mask] == obj.comp_y[~self.mask]):
             return False
-        if not self.unit_x == obj.unit_x:
+        if not same_unit(self.unit_x, obj.unit_x):
             return False
-        if not self.unit_y == obj.unit_y:
+        if not same_unit(self.unit_y, obj.unit_y):
             return False
-        if not self.unit_values == obj.unit_values:
+        if not same_unit(self.unit_values, obj.unit_values):
             return False
         return True
 
diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index d5e0628..d0ee6ad 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -76,6 +76,17 @@ def make_unit(string):
     return eval(string, {'__builtins__': {}}, vars(units))
 
 
+def same_unit(unit1, unit2):
+    """
+    Return True if the units are equal
+    (False if they do not even have the same dimension).
+    """
+    try:
+        return bool(unit1 == unit2)
+    except unum.IncompatibleUnitsError:
+        return False
+
+
 def make_unit_old(string):
     """
     Function helping for the creation of units. For more details, see the
-- 
2.43.0


From e099e18ba30218490f6b95d448e70d95a9f92260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:57 +0000
Subject: [PATCH 75/84] fix: keep integer indices for the positions of stored
 values (used by the spectrum maps)

---
 IMTreatment/core/profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d4bcffa..e79057b 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -656,6 +656,8 @@ class Profile(object):
         pos_0 = x_1 + val_1/(val_1 + val_2)*(x_2 - x_1)
         # returning
         pos_exact = exact if ind else x[exact]
+        if len(pos_0) == 0:
+            return pos_exact
         return np.sort(np.append(pos_exact, pos_0))
 
     def get_integral(self):
-- 
2.43.0


From 8b5a25c36a892b4c627d651163eb6b4eb3b5e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:26 +0000
Subject: [PATCH 76/84] fix: arithmetic of fields: zero divisors, arrays on the
 left, positions in other units or at other magnitudes

---
 IMTreatment/core/field.py       | 30 ++++++++++++++++++++++++++++++
 IMTreatment/core/scalarfield.py | 33 ++++++++++++++++++---------------
 IMTreatment/core/vectorfield.py | 30 +++++++++++++++---------------
 3 files changed, 63 insertions(+), 30 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 37a1711..e43f939 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -26,10 +26,14 @@ import unum
 import copy
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 from ..utils import make_unit
+from ..utils.units import same_unit
 
 
 class Field(object):
 
+    # let fields handle themselves operations with numpy arrays on the left
+    __array_priority__ = 1000
+
     def __init__(self):
         self.__axe_x = np.array([], dtype=float)
         self.__axe_y = np.array([], dtype=float)
@@ -152,6 +156,32 @@ class Field(object):
         """
         return copy.deepcopy(self)
 
+    def _get_shared_points(self, other, direction):
+        """
+        Return the boolean arrays telling which points of the axis of the
+        field and of the axis of another one (along 'x' or 'y', expressed in
+        the same unit) are at the same position.
+        """
+        axe = self.axe_x if direction == 'x' else self.axe_y
+        axeo = other.axe_x if direction == 'x' else other.axe_y
+        steps = np.abs(np.concatenate((np.diff(axe), np.diff(axeo))))
+        eps = 1e-4*np.min(steps) if len(steps) > 0 else 0.
+        shared = np.abs(axe[:, np.newaxis] - axeo[np.newaxis, :]) <= eps
+        return np.any(shared, axis=1), np.any(shared, axis=0)
+
+    def _in_axis_units_of(self, other):
+        """
+        Return the field with its axis expressed in the units of the axis of
+        another field.
+        """
+        if same_unit(self.unit_x, other.unit_x) and \
+                same_unit(self.unit_y, other.unit_y):
+            return self
+        tmp_f = self.copy()
+        tmp_f.change_unit('x', other.unit_x)
+        tmp_f.change_unit('y', other.unit_y)
+        return tmp_f
+
     def get_indice_on_axe(self, direction, value, kind='bounds'):
         """
         Return, on the given axe, the indices representing the positions
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 3218aa8..17dda04 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -96,25 +96,23 @@ class ScalarField(fld.Field):
                 self.unit_y + otherone.unit_y
             except:
                 raise ValueError("I think these units don't match, fox")
+            otherone = otherone._in_axis_units_of(self)
             # identical shape and axis
             if np.all(self.axe_x == otherone.axe_x) and \
                     np.all(self.axe_y == otherone.axe_y):
                 tmpsf = self.copy()
                 fact = otherone.unit_values/self.unit_values
-                tmpsf.values += np.array(otherone.values*fact.asNumber(),
-                                         dtype=self._values_dtype)
+                fact = fact.asNumber()
+                values_o = otherone.values if fact == 1 \
+                    else otherone.values*fact
+                tmpsf.values = self.values + values_o
+                tmpsf._values_dtype = tmpsf.values.dtype
                 tmpsf.mask = np.logical_or(self.mask, otherone.mask)
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([val in otherone.axe_x
-                                      for val in self.axe_x])
-                new_ind_y = np.array([val in otherone.axe_y
-                                      for val in self.axe_y])
-                new_ind_xo = np.array([val in self.axe_x
-                                       for val in otherone.axe_x])
-                new_ind_yo = np.array([val in self.axe_y
-                                       for val in otherone.axe_y])
+                new_ind_x, new_ind_xo = self._get_shared_points(otherone, 'x')
+                new_ind_y, new_ind_yo = self._get_shared_points(otherone, 'y')
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
                     raise ValueError("Incompatible shapes")
                 new_ind_Y, new_ind_X = np.meshgrid(new_ind_y, new_ind_x)
@@ -215,13 +213,18 @@ class ScalarField(fld.Field):
     def __rtruediv__(self, obj):
         if isinstance(obj, NUMBERTYPES):
             tmpsf = self.copy()
-            tmpsf.values = obj/tmpsf.values
+            mask = np.logical_or(self.mask, self.values == 0)
+            tmpsf.values = obj/np.where(mask, 1., self.values)
+            tmpsf.mask = mask
             tmpsf.unit_values = 1/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
             unit_values = obj / tmpsf.unit_values
-            tmpsf.values = unit_values.asNumber()/tmpsf.values
+            mask = np.logical_or(self.mask, self.values == 0)
+            tmpsf.values = (unit_values.asNumber() /
+                            np.where(mask, 1., self.values))
+            tmpsf.mask = mask
             tmpsf.unit_values = unit_values/unit_values.asNumber()
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
@@ -229,10 +232,10 @@ class ScalarField(fld.Field):
             if not obj.shape == self.shape:
                 raise ValueError()
             tmpsf = self.copy()
-            mask = np.logical_or(self.mask, obj == 0)
-            not_mask = np.logical_not(mask)
-            tmpsf.values[not_mask] = obj[not_mask] / tmpsf.values[not_mask]
+            mask = np.logical_or(self.mask, self.values == 0)
+            tmpsf.values = obj/np.where(mask, 1., self.values)
             tmpsf.mask = mask
+            tmpsf.unit_values = 1/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, ScalarField):
             if np.any(self.axe_x != obj.axe_x)\
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index fa03d86..0ae7521 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -65,6 +65,7 @@ class VectorField(field.Field):
                 self.unit_y + other.unit_y
             except:
                 raise ValueError("I think these units don't match, fox")
+            other = other._in_axis_units_of(self)
             # identical shape and axis
             if np.all(self.axe_x == other.axe_x) and \
                     np.all(self.axe_y == other.axe_y):
@@ -77,18 +78,8 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <=
-                                      np.abs(val)*1e-4)
-                                      for val in self.axe_x])
-                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <=
-                                      np.abs(val)*1e-4)
-                                      for val in self.axe_y])
-                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <=
-                                       np.abs(val)*1e-4)
-                                       for val in other.axe_x])
-                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <=
-                                       np.abs(val)*1e-4)
-                                       for val in other.axe_y])
+                new_ind_x, new_ind_xo = self._get_shared_points(other, 'x')
+                new_ind_y, new_ind_yo = self._get_shared_points(other, 'y')
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
                     raise ValueError("Incompatible shapes")
                 new_ind_Y, new_ind_X = np.meshgrid(new_ind_y, new_ind_x)
@@ -163,6 +154,8 @@ class VectorField(field.Field):
     __radd__ = __add__
 
     def __sub__(self, other):
+        if isinstance(other, ARRAYTYPES):
+            other = np.array(other, subok=True)
         other_tmp = other.__neg__()
         tmpvf = self.__add__(other_tmp)
         return tmpvf
@@ -203,7 +196,10 @@ class VectorField(field.Field):
     __div__ = __truediv__
 
     def __rtruediv__(self, other):
-        return other * self**(-1)
+        inv = self**(-1)
+        inv.mask = np.logical_or(inv.mask, np.logical_or(self.comp_x == 0,
+                                                         self.comp_y == 0))
+        return other * inv
 
     __rdiv__ = __rtruediv__
 
@@ -234,8 +230,12 @@ class VectorField(field.Field):
             tmpvf.mask = self.mask
             return tmpvf
         elif isinstance(other, sf.ScalarField):
-            if other.shape != self.shape:
-                raise ValueError()
+            if other.shape != self.shape \
+                    or np.any(self.axe_x != other.axe_x)\
+                    or np.any(self.axe_y != other.axe_y)\
+                    or self.unit_x != other.unit_x\
+                    or self.unit_y != other.unit_y:
+                raise ValueError("Fields are not consistent")
             tmpvf = self.copy()
             new_unit = tmpvf.unit_values*other.unit_values
             scale = new_unit.asNumber()
-- 
2.43.0


From 96cbd6fbc5eb7d7248373126de4ff0cfbc98600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:47 +0000
Subject: [PATCH 77/84] fix: arithmetic of profiles at other positions;
 profiles over an interval of indices

---
 IMTreatment/core/profile.py     | 15 ++++++++++++---
 IMTreatment/core/scalarfield.py |  1 +
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index e79057b..a6ad87b 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -119,7 +119,14 @@ class Profile(object):
                 raise ValueError("Profiles have not the same unit system")
             if not len(self.x) == len(otherone.x):
                 raise ValueError("Profiles have not the same length")
-            if not all(self.x == otherone.x):
+            if not same_unit(self.unit_x, otherone.unit_x):
+                otherone = otherone.copy()
+                otherone.change_unit('x', self.unit_x)
+                same_x = np.allclose(self.x, otherone.x, rtol=1e-10,
+                                     atol=1e-10*np.max(np.abs(self.x)))
+            else:
+                same_x = np.all(self.x == otherone.x)
+            if not same_x:
                 raise ValueError("Profiles have not the same x axis")
             fact = (otherone.unit_y/self.unit_y).asNumber()
             y = self.y + otherone.y*fact
@@ -148,7 +155,8 @@ class Profile(object):
             y = self.y*new_unit_y.asNumber()
             new_unit_y = new_unit_y/new_unit_y.asNumber()
         elif isinstance(otherone, Profile):
-            if np.any(otherone.x - self.x > 1e-6*np.mean(abs(self.x))):
+            if np.any(np.abs(otherone.x - self.x) >
+                      1e-6*np.mean(abs(self.x))):
                 raise ValueError("Given profiles does'nt share the same"
                                  " x axis")
             if not otherone.unit_x == self.unit_x:
@@ -201,7 +209,8 @@ class Profile(object):
             name = self.name
             unit_y = tmpunit/tmpunit.asNumber()
         elif isinstance(otherone, Profile):
-            if not np.all(self.x == otherone.x):
+            if not np.all(self.x == otherone.x) or \
+                    not same_unit(self.unit_x, otherone.unit_x):
                 raise ValueError("Profile has to have identical x axis in "
                                  "order to divide them")
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 17dda04..36c8b11 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -885,6 +885,7 @@ class ScalarField(fld.Field):
                np.max(position) > len(axe) - 1:
                 raise ValueError("'position' must be included in"
                                  " the choosen axis values")
+            position = np.array(position, dtype=int)
         elif isinstance(position, NUMBERTYPES) and not ind:
             if position > axe.max() or position < axe.min():
                 raise ValueError("'position' must be included in the choosen"
-- 
2.43.0


From 09f98841e6509fb9ce49275e5e35299586daa7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:36 +0000
Subject: [PATCH 78/84] fix: operations on fields of integers (refused or
 truncated decimal results)

---
 IMTreatment/core/scalarfield.py | 41 ++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 36c8b11..3c56eaf 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -79,6 +79,16 @@ class ScalarField(fld.Field):
             return False
         return True
 
+    def _change_values(self, values):
+        """
+        Replace the values (possibly by values of another type), conserving
+        the mask.
+        """
+        mask = self.mask
+        self.values = values
+        self.mask = np.logical_or(mask, self.mask)
+        self._values_dtype = self.values.dtype
+
     def __neg__(self):
         if self._values_dtype == np.uint8:
             raise Exception('Cannot invert unsigned integers')
@@ -141,7 +151,7 @@ class ScalarField(fld.Field):
         # if we add with a number
         elif isinstance(otherone, NUMBERTYPES):
             tmpsf = self.copy()
-            tmpsf.values += otherone
+            tmpsf._change_values(tmpsf.values + otherone)
             return tmpsf
         elif isinstance(otherone, unum.Unum):
             try:
@@ -150,7 +160,8 @@ class ScalarField(fld.Field):
                 raise ValueError("Given number have to be consistent with"
                                  "the scalar field (same units)")
             tmpsf = self.copy()
-            tmpsf.values += (otherone/self.unit_values).asNumber()
+            tmpsf._change_values(tmpsf.values +
+                                 (otherone/self.unit_values).asNumber())
             return tmpsf
         else:
             raise TypeError("You can only add a scalarfield "
@@ -168,12 +179,12 @@ class ScalarField(fld.Field):
     def __truediv__(self, obj):
         if isinstance(obj, NUMBERTYPES):
             tmpsf = self.copy()
-            tmpsf.values /= obj
+            tmpsf._change_values(tmpsf.values / obj)
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
             unit_values = tmpsf.unit_values / obj
-            tmpsf.values *= unit_values.asNumber()
+            tmpsf._change_values(tmpsf.values*unit_values.asNumber())
             unit_values /= unit_values.asNumber()
             tmpsf.unit_values = unit_values
             return tmpsf
@@ -184,7 +195,7 @@ class ScalarField(fld.Field):
             tmpsf = self.copy()
             mask = np.logical_or(self.mask, obj == 0)
             not_mask = np.logical_not(mask)
-            tmpsf.values[not_mask] = tmpsf.values[not_mask] / obj[not_mask]
+            tmpsf._change_values(tmpsf.values/np.where(not_mask, obj, 1))
             tmpsf.mask = mask
             return tmpsf
         elif isinstance(obj, ScalarField):
@@ -258,13 +269,13 @@ class ScalarField(fld.Field):
     def __mul__(self, obj):
         if isinstance(obj, NUMBERTYPES):
             tmpsf = self.copy()
-            tmpsf.values *= obj
+            tmpsf._change_values(tmpsf.values*obj)
             tmpsf.mask = self.mask
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
             unit_values = tmpsf.unit_values * obj
-            tmpsf.values *= unit_values.asNumber()
+            tmpsf._change_values(tmpsf.values*unit_values.asNumber())
             tmpsf.unit_values = unit_values/unit_values.asNumber()
             tmpsf.mask = self.mask
             return tmpsf
@@ -275,7 +286,7 @@ class ScalarField(fld.Field):
             tmpsf = self.copy()
             mask = self.mask
             not_mask = np.logical_not(mask)
-            tmpsf.values[not_mask] *= obj[not_mask]
+            tmpsf._change_values(tmpsf.values*np.where(not_mask, obj, 1))
             tmpsf.mask = mask
             return tmpsf
         elif isinstance(obj, np.ma.MaskedArray):
@@ -314,8 +325,11 @@ class ScalarField(fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Scalar field")
         tmpsf = self.copy()
-        tmpsf.values[np.logical_not(tmpsf.mask)] \
-            = np.power(tmpsf.values[np.logical_not(tmpsf.mask)], number)
+        values = tmpsf.values
+        if number % 1 != 0 or number < 0:
+            values = np.array(values, dtype=float)
+            values[tmpsf.mask] = np.nan
+        tmpsf._change_values(np.power(values, number))
         tmpsf.mask = self.mask
         tmpsf.unit_values = np.power(tmpsf.unit_values, number)
         return tmpsf
@@ -1308,13 +1322,13 @@ class ScalarField(fld.Field):
         if scalev is None:
             pass
         elif isinstance(scalev, NUMBERTYPES):
-            tmp_f.values *= scalev
+            tmp_f._change_values(tmp_f.values*scalev)
         elif isinstance(scalev, unum.Unum):
             new_unit = tmp_f.unit_values*scalev
             fact = new_unit.asNumber()
             new_unit /= fact
             tmp_f.unit_values = new_unit
-            tmp_f.values *= fact
+            tmp_f._change_values(tmp_f.values*fact)
         else:
             raise TypeError()
         if revx:
@@ -1409,7 +1423,8 @@ class ScalarField(fld.Field):
             old_unit = self.unit_values
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
-            self.values *= fact
+            if fact != 1:
+                self._change_values(self.values*fact)
             self.unit_values = new_unit/fact
         else:
             raise ValueError()
-- 
2.43.0


From 83741dda04e4145af615ab9156c1db985b9638fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:20 +0000
Subject: [PATCH 79/84] fix: spatial assemblies of fields: values at borders
 and overlaps, grids, profiles, division, iteration, rotation; given fields
 are left alone; units of quotients stay convertible

---
 IMTreatment/core/fields.py              |  3 +-
 IMTreatment/core/scalarfield.py         |  4 +-
 IMTreatment/core/spatialfields.py       | 98 +++++++++++++------------
 IMTreatment/core/spatialscalarfields.py |  2 +-
 IMTreatment/core/spatialvectorfields.py |  2 +-
 IMTreatment/core/vectorfield.py         |  4 +-
 IMTreatment/utils/units.py              | 13 ++++
 7 files changed, 71 insertions(+), 55 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index a7cdcb9..4bd2c2e 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -112,7 +112,8 @@ class Fields(object):
         # normalize angle
         angle = angle % 360
         # rotate the parent
-        field.Field.rotate(tmp_field, angle, inplace=True)
+        if isinstance(tmp_field, field.Field):
+            field.Field.rotate(tmp_field, angle, inplace=True)
         # rotate fields
         for i in np.arange(len(tmp_field.fields)):
             tmp_field.fields[i].rotate(angle=angle, inplace=True)
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 3c56eaf..0e4f6d8 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -35,7 +35,7 @@ from scipy import ndimage
 from .. import plotlib as pplt
 from . import field as fld, profile as prof, points as pts
 from ..utils import make_unit
-from ..utils.units import same_unit
+from ..utils.units import same_unit, basic_unit
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -426,7 +426,7 @@ class ScalarField(fld.Field):
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
             if np.abs(new_unit_values.asNumber() - 1.) < 1e-10:
-                self.__unit_values = new_unit_values
+                self.__unit_values = basic_unit(new_unit_values)
             else:
                 raise ValueError()
         elif isinstance(new_unit_values, STRINGTYPES):
diff --git a/IMTreatment/core/spatialfields.py b/IMTreatment/core/spatialfields.py
index 9a62c72..04322eb 100644
--- a/IMTreatment/core/spatialfields.py
+++ b/IMTreatment/core/spatialfields.py
@@ -38,6 +38,7 @@ class SpatialFields(flds.Fields):
     """
 
     def __init__(self):
+        flds.Fields.__init__(self)
         self.unit_x = make_unit('')
         self.unit_y = make_unit('')
         self.unit_values = make_unit('')
@@ -63,7 +64,7 @@ class SpatialFields(flds.Fields):
 
     def __truediv__(self, other):
         if isinstance(other, (NUMBERTYPES, unum.Unum)):
-            final_vfs = self.__class__.__init__()
+            final_vfs = self.__class__()
             for field in self.fields:
                 final_vfs.add_field(field/other)
             return final_vfs
@@ -83,16 +84,11 @@ class SpatialFields(flds.Fields):
         return final_vfs
 
     def __iter__(self):
-        for i in np.arange(len(self.fields)):
-            yield self.times[i], self.fields[i]
+        return flds.Fields.__iter__(self)
 
     @property
     def mask(self):
-        dim = (len(self.fields), self.shape[0], self.shape[1])
-        mask_f = np.empty(dim, dtype=bool)
-        for i, field in enumerate(self.fields):
-            mask_f[i, :, :] = field.mask[:, :]
-        return mask_f
+        return [field.mask for field in self.fields]
 
     @property
     def mask_as_sf(self):
@@ -104,6 +100,8 @@ class SpatialFields(flds.Fields):
 
     @property
     def unit_x(self):
+        if len(self.fields) > 0:
+            return self.fields[0].unit_x
         return self.__unit_x
 
     @unit_x.setter
@@ -114,6 +112,8 @@ class SpatialFields(flds.Fields):
 
     @property
     def unit_y(self):
+        if len(self.fields) > 0:
+            return self.fields[0].unit_y
         return self.__unit_y
 
     @unit_y.setter
@@ -124,7 +124,9 @@ class SpatialFields(flds.Fields):
 
     @property
     def unit_values(self):
-        return self._SpatialFields__unit_values
+        if len(self.fields) > 0:
+            return self.fields[0].unit_values
+        return self.__unit_values
 
     @unit_values.setter
     def unit_values(self, unit):
@@ -154,6 +156,8 @@ class SpatialFields(flds.Fields):
         # check
         if not isinstance(field, self.fields_type):
             raise TypeError()
+        if copy:
+            field = field.copy()
         # first field
         if len(self.fields) == 0:
             self.unit_x = field.unit_x
@@ -170,7 +174,7 @@ class SpatialFields(flds.Fields):
         # crop fields
         field.crop_masked_border(hard=False, inplace=True)
         # add field
-        flds.Fields.add_field(self, field, copy=copy)
+        flds.Fields.add_field(self, field, copy=False)
 
     def get_value(self, x, y, unit=False, error=True):
         """
@@ -189,8 +193,8 @@ class SpatialFields(flds.Fields):
         # get interesting fields
         inter_ind = []
         for i, field in enumerate(self.fields):
-            if (x > field.axe_x[0] and x < field.axe_x[-1] and
-                    y > field.axe_y[0] and y < field.axe_y[-1]):
+            if (x >= field.axe_x[0] and x <= field.axe_x[-1] and
+                    y >= field.axe_y[0] and y <= field.axe_y[-1]):
                 inter_ind.append(i)
         # get values (mean over fields if necessary)
         if len(inter_ind) == 0:
@@ -198,15 +202,13 @@ class SpatialFields(flds.Fields):
                 raise ValueError("coordinates outside the fields")
             else:
                 return None
-        elif len(inter_ind) == 1:
-            values = self.fields[inter_ind[0]].get_value(x, y,
-                                                         ind=False, unit=False)
-        else:
-            values = self.fields[inter_ind[0]].get_value(x, y,
-                                                         ind=False, unit=False)
-            for field in self.fields[inter_ind][1::]:
-                values += field.get_value(x, y, ind=False, unit=False)
-            values /= len(inter_ind)
+        values = [self.fields[i].get_value(x, y, ind=False, unit=False)
+                  for i in inter_ind]
+        # (masked values are not used, except if there is nothing else)
+        valid = [val for val in values if not np.any(np.isnan(val))]
+        values = np.mean(valid if len(valid) > 0 else values, axis=0)
+        if unit:
+            values = values*self.unit_values
         return values
 
     def get_values_on_grid(self, axe_x, axe_y):
@@ -236,7 +238,7 @@ class SpatialFields(flds.Fields):
                         mask[i, j] = True
                     else:
                         values[i, j] = val
-            tmp_f = sf.ScalarField
+            tmp_f = sf.ScalarField()
             tmp_f.import_from_arrays(axe_x, axe_y, values, mask=mask,
                                      unit_x=self.unit_x, unit_y=self.unit_y,
                                      unit_values=self.unit_values)
@@ -268,8 +270,9 @@ class SpatialFields(flds.Fields):
 
         Parameters
         ----------
-        direction : integer
-            Direction along which we choose a position (1 for x and 2 for y)
+        direction : integer or string
+            Direction along which we choose a position
+            (1 or 'x' for x and 2 or 'y' for y)
         position : float, interval of float
             Position, interval in which we want a profile
 
@@ -282,40 +285,39 @@ class SpatialFields(flds.Fields):
             Wanted profile
         """
         # getting data
-        if self.fields_type == vf.VectorField:
-            if component is None:
+        if component is None:
+            if self.fields_type == vf.VectorField:
                 component = 'magnitude'
             else:
-                try:
-                    comp = self.__getattribute__("{}_as_sf".format(component))
-                except AttributeError:
-                    raise ValueError()
-        elif self.fields_type == sf.ScalarField:
-            if component is None:
                 component = "values"
-            try:
-                comp = self.__getattribute__("{}_as_sf".format(component))
-            except AttributeError:
-                raise ValueError()
+        try:
+            comp = self.__getattribute__("{}_as_sf".format(component))
+        except AttributeError:
+            raise ValueError()
+        if direction in [1, 'x']:
+            direction = 'x'
+        elif direction in [2, 'y']:
+            direction = 'y'
+        else:
+            raise ValueError()
         # get fields of interest
         inter_ind = []
-        if direction == 1:
-            for i, field in enumerate(self.fields):
-                if np.any(position < field.axe_x[-1]) and \
-                   np.any(position > field.axe_x[0]):
-                    inter_ind.append(i)
-        elif direction == 2:
-            for i, field in enumerate(self.fields):
-                if np.any(position < field.axe_y[-1]) and \
-                   np.any(position > field.axe_y[0]):
-                    inter_ind.append(i)
+        for i, field in enumerate(self.fields):
+            axe = field.axe_x if direction == 'x' else field.axe_y
+            if isinstance(position, ARRAYTYPES):
+                interested = np.any(np.logical_and(axe >= position[0],
+                                                   axe <= position[1]))
+            else:
+                interested = axe[0] <= position <= axe[-1]
+            if interested:
+                inter_ind.append(i)
         # get profiles
         if len(inter_ind) == 0:
             return None
         elif len(inter_ind) == 1:
             return comp[inter_ind[0]].get_profile(direction=direction,
                                                   position=position,
-                                                  ind=False)[0]
+                                                  ind=False)
         else:
             # get profiles
             x = np.array([])
@@ -324,7 +326,7 @@ class SpatialFields(flds.Fields):
                 tmp_comp = comp[ind]
                 tmp_prof = tmp_comp.get_profile(direction=direction,
                                                 position=position,
-                                                ind=False)[0]
+                                                ind=False)
                 x = np.concatenate((x, tmp_prof.x))
                 y = np.concatenate((y, tmp_prof.y))
             # recreate profile object
diff --git a/IMTreatment/core/spatialscalarfields.py b/IMTreatment/core/spatialscalarfields.py
index 03f247d..e95ab93 100644
--- a/IMTreatment/core/spatialscalarfields.py
+++ b/IMTreatment/core/spatialscalarfields.py
@@ -30,7 +30,7 @@ from . import fields as flds
 class SpatialScalarFields(sfs.SpatialFields):
 
     def __init__(self):
-        flds.Fields.__init__(self)
+        sfs.SpatialFields.__init__(self)
         self.fields_type = sf.ScalarField
 
     @property
diff --git a/IMTreatment/core/spatialvectorfields.py b/IMTreatment/core/spatialvectorfields.py
index 11c8a1c..1a5428a 100644
--- a/IMTreatment/core/spatialvectorfields.py
+++ b/IMTreatment/core/spatialvectorfields.py
@@ -31,7 +31,7 @@ class SpatialVectorFields(SpatialFields):
     """
 
     def __init__(self):
-        Fields.__init__(self)
+        SpatialFields.__init__(self)
         self.fields_type = VectorField
 
     @property
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 0ae7521..e8a4058 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -32,7 +32,7 @@ from .. import plotlib as pplt
 import unum
 from . import field, scalarfield as sf
 from ..utils import make_unit
-from ..utils.units import same_unit
+from ..utils.units import same_unit, basic_unit
 from ..utils.types import ARRAYTYPES, NUMBERTYPES, STRINGTYPES
 
 
@@ -405,7 +405,7 @@ class VectorField(field.Field):
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
             if new_unit_values.asNumber() == 1:
-                self.__unit_values = new_unit_values
+                self.__unit_values = basic_unit(new_unit_values)
             else:
                 raise ValueError()
         elif isinstance(new_unit_values, STRINGTYPES):
diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index d0ee6ad..7d2995b 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -87,6 +87,19 @@ def same_unit(unit1, unit2):
         return False
 
 
+def basic_unit(unit):
+    """
+    Return the same unit without the factor hidden in its composition
+    (1000 mm/(m.s) -> 1/s), to be able to convert into it.
+    """
+    try:
+        unit.asUnit(unit)
+    except unum.NonBasicUnitError:
+        unit = unit.copy(True)
+        unit = unit/unit.asNumber()
+    return unit
+
+
 def make_unit_old(string):
     """
     Function helping for the creation of units. For more details, see the
-- 
2.43.0


From 42c301b659dc1265e2f0af196cf6addc4a44d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:50 +0000
Subject: [PATCH 80/84] fix: points: units of velocities and evolutions,
 scaling of integer values, rotation of orientations, equal null values

---
 IMTreatment/core/orientedpoints.py | 18 ++++++++++++++-
 IMTreatment/core/points.py         | 36 +++++++++++++++++++-----------
 IMTreatment/utils/units.py         | 11 +++++++++
 3 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 18cbe19..95c29a4 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -199,7 +199,7 @@ class OrientedPoints(pts.Points):
             raise ValueError()
         # get coef
         coefx = (vf.axe_x[1] - vf.axe_x[0])*.25
-        coefy = (vf.axe_x[1] - vf.axe_x[0])*.25
+        coefy = (vf.axe_y[1] - vf.axe_y[0])*.25
         # get streamlines
         streams = []
         # for each points and each directions
@@ -336,6 +336,22 @@ class OrientedPoints(pts.Points):
             tmp_pts.orientations = self.orientations[:, :, ::-1]
         return tmp_pts
 
+    def rotate(self, angle, inplace=False):
+        """
+        Rotate the point set, and the orientations.
+
+        Parameters
+        ----------
+        angle: number
+            Rotation angle in radian.
+        """
+        tmp_pts = pts.Points.rotate(self, angle, inplace=inplace)
+        if len(tmp_pts) != 0:
+            rot = np.array([[np.cos(angle), np.sin(angle)],
+                            [-np.sin(angle), np.cos(angle)]])
+            tmp_pts.orientations = np.dot(tmp_pts.orientations, rot)
+        return tmp_pts
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 0b5500f..12968dc 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -30,6 +30,7 @@ from scipy import stats
 from scipy import ndimage
 from ..utils.types import ARRAYTYPES, INTEGERTYPES, NUMBERTYPES, STRINGTYPES
 from ..utils import make_unit
+from ..utils.units import unit_factor
 from ..utils.units import same_unit
 
 
@@ -679,8 +680,6 @@ class Points(object):
             x = x[::incr]
             y = y[::incr]
             times = times[::incr]
-        dx = x[1::] - x[:-1]
-        dy = y[1::] - y[:-1]
         dt = times[1::] - times[:-1]
         # smoothing if necessary
         if smooth != 0:
@@ -696,21 +695,24 @@ class Points(object):
         # getting xaxis
         if xaxis == 'time':
             x_prof = times[:-1] + dt/2.
+            unit_prof = self.unit_v
         elif xaxis == 'x':
-            x_prof = x[:-1] + dx/2.
+            x_prof = (x[:-1] + x[1::])/2.
+            unit_prof = self.unit_x
         elif xaxis == 'y':
-            x_prof = y[:-1] + dy/2.
+            x_prof = (y[:-1] + y[1::])/2.
+            unit_prof = self.unit_y
         # returning profiles
         from .profile import Profile
         unit_Vx = self.unit_x/self.unit_v
         Vx *= unit_Vx.asNumber()
         unit_Vx /= unit_Vx.asNumber()
-        prof_x = Profile(x_prof, Vx, mask=False, unit_x=self.unit_v,
+        prof_x = Profile(x_prof, Vx, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vx)
         unit_Vy = self.unit_y/self.unit_v
         Vy *= unit_Vy.asNumber()
         unit_Vy /= unit_Vy.asNumber()
-        prof_y = Profile(x_prof, Vy, mask=False, unit_x=self.unit_v,
+        prof_y = Profile(x_prof, Vy, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vy)
         return prof_x, prof_y
 
@@ -760,7 +762,9 @@ class Points(object):
             raise ValueError()
         # get the y value
         y_prof = np.empty((len(self.xy)), dtype=float)
-        for i, pt in enumerate(self.xy):
+        fact = [unit_factor(self.unit_x, SF.unit_x),
+                unit_factor(self.unit_y, SF.unit_y)]
+        for i, pt in enumerate(self.xy*fact):
             y_prof[i] = SF.get_value(*pt, ind=False, unit=False)
         mask = np.isnan(y_prof)
         unit_y = SF.unit_values
@@ -812,11 +816,14 @@ class Points(object):
         else:
             raise ValueError()
         # get the y value
-        times = self.v
+        times = self.v*unit_factor(self.unit_v, TSF.unit_times)
         y_prof = np.empty((len(self.xy)), dtype=float)
-        for i, pt in enumerate(self.xy):
+        fact = [unit_factor(self.unit_x, TSF.unit_x),
+                unit_factor(self.unit_y, TSF.unit_y)]
+        for i, pt in enumerate(self.xy*fact):
             time = times[i]
-            SF = TSF.fields[TSF.times == time][0]
+            SF = TSF.fields[np.isclose(TSF.times, time, rtol=1e-10,
+                                       atol=0.)][0]
             y_prof[i] = SF.get_value(*pt, ind=False, unit=False)
         mask = np.isnan(y_prof)
         unit_y = TSF.unit_values
@@ -1113,7 +1120,7 @@ class Points(object):
         if scalex != 1. or scaley != 1.:
             tmp_pt.xy *= np.array([scalex, scaley])
         if scalev != 1.:
-            tmp_pt.v *= scalev
+            tmp_pt.v = tmp_pt.v*scalev
         # returning
         if not inplace:
             return tmp_pt
@@ -1159,8 +1166,11 @@ class Points(object):
             tmp_pt = self.copy()
         vs = tmp_pt.v
         ord_magn = (np.sum(vs**2)/len(vs))**.5
-        nmb_dec = -int(round(np.log10(ord_magn*eps_rel)))
-        tmp_vs = np.round(vs, decimals=nmb_dec)
+        if ord_magn == 0:
+            tmp_vs = vs
+        else:
+            nmb_dec = -int(round(np.log10(ord_magn*eps_rel)))
+            tmp_vs = np.round(vs, decimals=nmb_dec)
         new_vs = np.sort(list(set(tmp_vs)))
         if method == 'average':
             new_xy = [np.mean(tmp_pt.xy[tmp_vs == vi], axis=0)
diff --git a/IMTreatment/utils/units.py b/IMTreatment/utils/units.py
index 7d2995b..fd4d8d1 100644
--- a/IMTreatment/utils/units.py
+++ b/IMTreatment/utils/units.py
@@ -87,6 +87,17 @@ def same_unit(unit1, unit2):
         return False
 
 
+def unit_factor(unit, new_unit):
+    """
+    Return the factor to apply to numbers to get from the first unit to the
+    second one (1 if those units do not have the same dimension).
+    """
+    try:
+        return float((unit/new_unit).asNumber(make_unit('')))
+    except unum.IncompatibleUnitsError:
+        return 1.
+
+
 def basic_unit(unit):
     """
     Return the same unit without the factor hidden in its composition
-- 
2.43.0


From 0f04f2698fbff239f4b36f0d549ec457d5b2ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:54 +0000
Subject: [PATCH 81/84] fix: profiles: masked values stay masked in null powers
 and when a masked array or a single mask is given

---
 IMTreatment/core/profile.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index a6ad87b..9f4357a 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -66,8 +66,7 @@ class Profile(object):
         if not isinstance(y, np.ma.MaskedArray):
             y = np.array(y, dtype=float)
         if isinstance(mask, bool):
-            mask = np.empty(x.shape, dtype=bool)
-            mask.fill(False)
+            mask = np.full(x.shape, mask, dtype=bool)
         if not isinstance(mask, ARRAYTYPES):
             raise TypeError("'mask' must be an array")
         if not isinstance(mask, (np.ndarray, np.ma.MaskedArray)):
@@ -235,8 +234,8 @@ class Profile(object):
                             "on a Profile")
         y = np.power(self.y, number)
         unit_y = np.power(self.unit_y, number)
-        return Profile(x=self.x, y=y, unit_x=self.unit_x, unit_y=unit_y,
-                       name=self.name)
+        return Profile(x=self.x, y=y, mask=self.mask, unit_x=self.unit_x,
+                       unit_y=unit_y, name=self.name)
 
     def __len__(self):
         return len(self.x)
@@ -303,8 +302,9 @@ class Profile(object):
     @y.setter
     def y(self, values):
         if isinstance(values, np.ma.MaskedArray):
-            self.__y = values.data
-            self.mask = values.mask
+            self.__y = np.array(values.data)*1.
+            self.mask = np.logical_or(np.ma.getmaskarray(values),
+                                      np.isnan(self.__y))
         elif isinstance(values, ARRAYTYPES):
             self.__y = np.array(values)*1.
             self.mask = np.isnan(values)
-- 
2.43.0


From b6c9ab0d7fe53e971d64c4715423d14bf7a0e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:39 +0000
Subject: [PATCH 82/84] fix: convert the positions of points added to a series
 in other units

---
 IMTreatment/core/temporalpoints.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalpoints.py b/IMTreatment/core/temporalpoints.py
index 5fb0d84..fd538e5 100644
--- a/IMTreatment/core/temporalpoints.py
+++ b/IMTreatment/core/temporalpoints.py
@@ -218,6 +218,7 @@ class TemporalPoints(object):
             unit_times = make_unit(unit_times)
         else:
             raise TypeError()
+        pt = pt.copy()
         # if this is the first field
         if len(self.point_sets) == 0:
             self.unit_x = pt.unit_x
@@ -231,8 +232,14 @@ class TemporalPoints(object):
                 fact = unit_times/self.unit_times
                 time = time*fact.asNumber(make_unit(''))
             self.__times = np.append(self.__times, time)
+            # the points of a set share the same units
+            for axe, unit in (('x', self.unit_x), ('y', self.unit_y)):
+                try:
+                    pt.change_unit(axe, unit)
+                except unum.IncompatibleUnitsError:
+                    pass
         # use default constructor
-        self.point_sets.append(pt.copy())
+        self.point_sets.append(pt)
         # sorting the field with time
         self.__sort_field_by_time()
 
-- 
2.43.0


From 59d399295949f86c4e00442cccbba188a1fd3394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:27 +0000
Subject: [PATCH 83/84] fix: boundary layers: confined turbulent profiles,
 lines used in time series, Falkner-Skan solver for flat plates, without
 changing the warnings' filters

---
 IMTreatment/boundary_layer/boundary_layer.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index c02c279..debae5b 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -283,7 +283,7 @@ class BlasiusBL(object):
         # get
         delta = self.get_thickness_with_confinement(x, h,
                                                     allTurbulent=allTurbulent)
-        eq_x = self.get_x_from_delta(delta.y[0])
+        eq_x = self.get_x_from_delta(delta.y[0], allTurbulent=allTurbulent)
         # return
         return self.get_profile(eq_x, y=y, allTurbulent=allTurbulent)
 
@@ -369,8 +369,6 @@ class FalknerSkanBL(object):
             Runge-Kutta or Vode cannot take care of the :math:`f'(\\infty)=0`.
             This ODE system is so solved with a shooting method.
         """
-        import warnings
-        warnings.filterwarnings('error')
         # Set mu values
         mu = np.linspace(0, 10, 100)
 
@@ -402,8 +400,11 @@ class FalknerSkanBL(object):
         for tmpY3 in tmp_Y3s:
             ODE.set_initial_value([0, 0, tmpY3])
             try:
-                prof = ODE.integrate(mu[-1])
-            except RuntimeWarning:
+                # diverging integrations are discarded
+                with warnings.catch_warnings():
+                    warnings.simplefilter('error')
+                    prof = ODE.integrate(mu[-1])
+            except (RuntimeWarning, UserWarning):
                 tmp_Y1ps.append(np.nan)
                 tmp_Y2ps.append(np.nan)
             else:
@@ -420,9 +421,7 @@ class FalknerSkanBL(object):
             tmp_neg = resid[:-1]*resid[1::]
             ind1 = np.where(tmp_neg < 0)[0]
             ind2 = np.where(tmp_Y2ps[:-1]*tmp_Y2ps[1:] < 0)[0]
-            ind = [ind1[i]
-                   for i in np.arange(len(ind1))
-                   if ind1[i] == ind2[i]][0]
+            ind = ([i for i in ind1 if i in ind2] or list(ind1))[0]
             interval_Y1p = [tmp_Y1ps[ind], tmp_Y1ps[ind + 1]]
             interval_Y3 = [tmp_Y3s[ind], tmp_Y3s[ind + 1]]
         # check if we get a lesser cool interval
@@ -483,6 +482,8 @@ class FalknerSkanBL(object):
         # Solve ODE with the new set of boundary conditions : f(0)=f'(0)= 0 and
         # f''(0) = Y3
         sol = odeint(deriv, y0=[0, 0, Y3], t=mu)
+        if not np.abs(sol[-1, 1] - aimed_Y1p) < 1e-2:
+            raise Exception("The shooting method did not converge")
 
         # Return
         return mu, sol
@@ -1246,7 +1247,8 @@ def get_separation_position(obj, wall_direction, wall_position,
             pts.append(get_separation_position(field,
                                                wall_direction=wall_direction,
                                                wall_position=wall_position,
-                                               interval=interval))
+                                               interval=interval,
+                                               nmb_lines=nmb_lines))
         return Profile(times, pts, unit_x=obj.unit_times,
                        unit_y=unit_axe)
     else:
-- 
2.43.0


From 3fd50f564018ac32fb7195da78c71d7d53db7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:11 +0000
Subject: [PATCH 84/84] fix: units of one letter in newer matlab files, which
 are closed once read

---
 IMTreatment/file_operation/file_operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/file_operation/file_operation.py b/IMTreatment/file_operation/file_operation.py
index 9544819..1acef5d 100644
--- a/IMTreatment/file_operation/file_operation.py
+++ b/IMTreatment/file_operation/file_operation.py
@@ -511,11 +511,11 @@ def import_from_matlab(filepath, obj, show_struct=False, **kwargs):
                 if isinstance(tdata, str):
                     build_dic[key] = tdata
                 else:
-                    build_dic[key] = ''.join(chr(n) for n in tdata)
+                    build_dic[key] = ''.join(chr(n) for n in np.ravel(tdata))
             else:
                 build_dic[key] = np.array(tdata)
-    if is_h5py and dataf is not None:
-        dataf.close()
+    if is_h5py:
+        (data if dataf is None else dataf).close()
     # Fix unities
     for key, item in build_dic.items():
         try:
-- 
2.43.0

