From 31ee0aaefb8d8cac4a7d083628be40e3933dd808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:14 +0000
Subject: [PATCH 01/60] fix: contact_surface could not be imported
 (self-referencing annotation) and 'dem' mode read a missing attribute

---
 hyvr/geo/contact_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 82637c5..4c98a21 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -1,3 +1,4 @@
+from __future__ import annotations
 
 import numpy as np
 import hyvr.utils as hu
@@ -32,7 +33,7 @@ class ContactSurface:
             self.zmin = self.z
             self.zmax = self.z
 
-        elif self.mode == "dem":
+        elif kwargs['mode'] == "dem":
             raise NotImplementedError("This is not implemented yet!")
 
 
-- 
2.43.0


From 41118580a8afffe0f420488d5f36fc9ece6fa13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:15 +0000
Subject: [PATCH 02/60] fix: optimized.py used sin, cos and sqrt without
 importing them

---
 hyvr/optimized.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b317e72..e8dacd5 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -53,9 +53,9 @@ def set_anisotropic_ktensor(ktensors: npt.NDArray[np.float64],
                 kiso = k_iso[i,j,k]
                 a00 = kiso*(sink**2 + cosk**2*(cosp**2 + a*sinp**2))
                 a01 = kiso*(1-a)*sink*cosk*sinp**2
-                a02 = kiso*((a-1)*(sin(kappa+2*psi)-sin(kappa-2*psi)))/4
+                a02 = kiso*((a-1)*(np.sin(kappa+2*psi)-np.sin(kappa-2*psi)))/4
                 a11 = kiso*((a-1)*sink**2*sinp**2+1)
-                a12 = kiso*((1-a)*(cos(kappa-2*psi)-cos(kappa+2*psi)))/4
+                a12 = kiso*((1-a)*(np.cos(kappa-2*psi)-np.cos(kappa+2*psi)))/4
                 a22 = kiso*(a*cosp**2+sinp**2)
 
                 ktensors[i,j,k,0,0] = a00
@@ -108,7 +108,7 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
         total_dist = 0
         j = ic + 1 # this is to make sure j is initialized
         for j in range(ic+1, nc):
-            total_dist += sqrt((xc[j] - xc[j-1]) ** 2 + (yc[j] - yc[j-1]) ** 2)
+            total_dist += np.sqrt((xc[j] - xc[j-1]) ** 2 + (yc[j] - yc[j-1]) ** 2)
             if total_dist > tol:
                 idx.append(j)
                 break
-- 
2.43.0


From b29de18d24891cad03c36dabd0d3c85cf96a8b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:15 +0000
Subject: [PATCH 03/60] fix: np.float was removed from numpy, use np.float64

---
 hyvr/assign_points.py      |  6 +++---
 hyvr/geo/ae_realization.py |  4 ++--
 hyvr/geo/channel_ae.pyx    | 28 ++++++++++++++--------------
 hyvr/geo/model.py          |  8 ++++----
 hyvr/geo/sheet_ae.py       | 16 ++++++++--------
 hyvr/geo/trough_ae.pyx     | 34 +++++++++++++++++-----------------
 6 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index d4b5669..aefcdf7 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -61,13 +61,13 @@ def assign_points(model):
     hat_array = -1*np.ones((nx, ny, nz), dtype=np.int32)
 
     # angles
-    azim_array = np.zeros((nx, ny, nz), dtype=np.float)
-    dip_array = np.zeros((nx, ny, nz), dtype=np.float)
+    azim_array = np.zeros((nx, ny, nz), dtype=np.float64)
+    dip_array = np.zeros((nx, ny, nz), dtype=np.float64)
 
 
     # container for passing facies, ae, ha, and hat, and azimuth and dip
     geo_ids = np.empty(4, dtype=np.int32)
-    angles = np.empty(2, dtype=np.float)
+    angles = np.empty(2, dtype=np.float64)
 
     total_n = nx * ny
 
diff --git a/hyvr/geo/ae_realization.py b/hyvr/geo/ae_realization.py
index 4988634..d7a04e9 100644
--- a/hyvr/geo/ae_realization.py
+++ b/hyvr/geo/ae_realization.py
@@ -117,8 +117,8 @@ class AERealization:
         self.object_zmins = np.array(self.object_zmin_list)
         self.object_zmaxs = np.array(self.object_zmax_list)
         # get the rest from the object list
-        self.object_azim = np.zeros(self.n_objects, dtype=np.float)
-        self.object_dip = np.zeros(self.n_objects, dtype=np.float)
+        self.object_azim = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_dip = np.zeros(self.n_objects, dtype=np.float64)
         self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 43edc15..4a1bad5 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -16,17 +16,17 @@ cdef class ChannelAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i, nx, ny, j, k, max_len_centerline
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_width = np.zeros(self.n_objects, dtype=np.float)
-        self.object_depth = np.zeros(self.n_objects, dtype=np.float)
-        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_width = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_depth = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float64)
         self.object_len_centerline = np.zeros(self.n_objects, dtype=np.int32)
-        self.object_ztop = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float)
+        self.object_ztop = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
@@ -59,10 +59,10 @@ cdef class ChannelAE(AERealization):
             max_len_centerline = np.max(self.object_len_centerline)
         else:
             max_len_centerline = 0
-        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
+        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             for j in range(self.object_len_centerline[i]):
diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 8ffb396..b6e5503 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -175,13 +175,13 @@ class Model:
         # Initialise storage arrays:
         # hydraulic conductivity
         self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # porosity
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # anisotropy ratio
         self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
@@ -289,7 +289,7 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float)
+        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
         ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 1c15e83..d1ec85c 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -14,20 +14,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 5f05c34..54565ab 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -17,23 +17,23 @@ cdef class TroughAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i
-        self.object_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_b = np.zeros(self.n_objects, dtype=np.float)
-        self.object_c = np.zeros(self.n_objects, dtype=np.float)
-        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float)
-        self.object_alpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
+        self.object_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_b = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_c = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_alpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_structure = np.zeros(self.n_objects, dtype=np.int32)
 
-- 
2.43.0


From c980ab3fd658969152edd9a81ad9ab3aecfaad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:43 +0000
Subject: [PATCH 04/60] fix: trough and channel extensions no longer matched
 the pure-Python base classes

The .pyx modules cimported extension types (hyvr.optimized, AERealization,
ContactSurface, Grid) that are plain Python modules now, so they could neither
be translated nor imported.
---
 hyvr/geo/channel.pyx    |  1 -
 hyvr/geo/channel_ae.pxd | 32 --------------------------------
 hyvr/geo/channel_ae.pyx | 18 +++++++++---------
 hyvr/geo/trough.pyx     |  2 --
 hyvr/geo/trough_ae.pxd  | 29 -----------------------------
 hyvr/geo/trough_ae.pyx  | 20 ++++++++++----------
 6 files changed, 19 insertions(+), 83 deletions(-)
 delete mode 100644 hyvr/geo/channel_ae.pxd
 delete mode 100644 hyvr/geo/trough_ae.pxd

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index aaf2fc2..421575f 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -1,7 +1,6 @@
 import numpy as np
 cimport numpy as np
 cimport cython
-from hyvr.geo.grid cimport Grid
 from libc.math cimport sqrt, sin, cos, atan2
 import hyvr.utils as hu
 
diff --git a/hyvr/geo/channel_ae.pxd b/hyvr/geo/channel_ae.pxd
deleted file mode 100644
index 8b74e03..0000000
--- a/hyvr/geo/channel_ae.pxd
+++ /dev/null
@@ -1,32 +0,0 @@
-
-cimport numpy as np
-from hyvr.geo.contact_surface cimport ContactSurface
-from hyvr.geo.grid cimport Grid
-from hyvr.geo.ae_realization cimport AERealization
-
-
-cdef class ChannelAE(AERealization):
-
-    cdef public:
-        # These are arrays of object attributes for better access from cython
-        np.float_t [:,:] object_x_center, object_y_center
-        np.float_t [:,:] object_vx, object_vy
-        np.float_t [:] object_a, object_width, object_depth, object_min_dx_dy
-        np.int32_t [:] object_len_centerline
-        np.float_t [:] object_ztop
-        np.float_t [:] object_sin_dip, object_cos_dip
-        np.float_t [:] object_shift, object_layer_dist
-        np.float_t [:] object_lag_height
-        np.int32_t [:] object_lag_facies
-        np.int32_t [:] object_dipsets
-        np.int32_t [:,:,:] object_dont_check
-
-
-
-    cpdef create_object_arrays(self)
-    cpdef maybe_assign_points_to_object(self, int oi,
-                                        np.int32_t [:] geo_ids,
-                                        np.float_t [:] angles,
-                                        np.float_t x, np.float_t y, np.float_t z,
-                                        int x_idx, int y_idx,
-                                        Grid grid)
\ No newline at end of file
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 4a1bad5..5985c9c 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -2,18 +2,18 @@
 import numpy as np
 from hyvr.geo.channel_utils import ferguson_curve
 from hyvr.geo.channel import Channel
+from hyvr.geo.ae_realization import AERealization
 
 cimport cython
 cimport numpy as np
 from libc.math cimport sqrt, atan2
-from hyvr.geo.ae_realization cimport AERealization
 
 
-cdef class ChannelAE(AERealization):
+class ChannelAE(AERealization):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    cpdef create_object_arrays(self):
+    def create_object_arrays(self):
         # This is super ugly :(
         cdef int i, nx, ny, j, k, max_len_centerline
         self.object_a = np.zeros(self.n_objects, dtype=np.float64)
@@ -168,12 +168,12 @@ cdef class ChannelAE(AERealization):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     @cython.cdivision(True)
-    cpdef maybe_assign_points_to_object(self, int oi,
-                                        np.int32_t [:] geo_ids,
-                                        np.float_t [:] angles,
-                                        np.float_t x, np.float_t y, np.float_t z,
-                                        int x_idx, int y_idx,
-                                        Grid grid):
+    def maybe_assign_points_to_object(self, int oi,
+                                      np.int32_t [:] geo_ids,
+                                      np.float_t [:] angles,
+                                      np.float_t x, np.float_t y, np.float_t z,
+                                      int x_idx, int y_idx,
+                                      grid):
         """
         This function checks whether the current grid cell with given
         coordinates is inside the trough and assigns facies, azimuth and dip by
diff --git a/hyvr/geo/trough.pyx b/hyvr/geo/trough.pyx
index 5cdf582..6b8042c 100644
--- a/hyvr/geo/trough.pyx
+++ b/hyvr/geo/trough.pyx
@@ -1,9 +1,7 @@
 import numpy as np
-cimport hyvr.optimized as ho
 import hyvr.utils as hu
 from libc.math cimport sin, cos, ceil, acos, sqrt
 cimport numpy as np
-from hyvr.geo.grid cimport Grid
 cimport cython
 
 cdef class Trough:
diff --git a/hyvr/geo/trough_ae.pxd b/hyvr/geo/trough_ae.pxd
deleted file mode 100644
index ab3d91d..0000000
--- a/hyvr/geo/trough_ae.pxd
+++ /dev/null
@@ -1,29 +0,0 @@
-
-cimport numpy as np
-from hyvr.geo.contact_surface cimport ContactSurface
-from hyvr.geo.grid cimport Grid
-from hyvr.geo.ae_realization cimport AERealization
-
-cdef class TroughAE(AERealization):
-
-    cdef public:
-        # These are arrays of object attributes for better access from cython
-        np.float_t [:] object_x, object_y, object_z
-        np.float_t [:] object_a, object_b, object_c
-        np.float_t [:] object_max_ab
-        np.float_t [:] object_alpha, object_sinalpha, object_cosalpha
-        np.float_t [:] object_lag, object_shift
-        np.int32_t [:] object_structure
-        np.int32_t [:] object_lag_facies
-        np.float_t [:] object_layer_dist
-        np.float_t [:] object_cosdip
-        np.float_t [:] object_normvec_x, object_normvec_y, object_normvec_z
-
-
-    cpdef create_object_arrays(self)
-    cpdef maybe_assign_points_to_object(self, int oi,
-                                        np.int32_t [:] geo_ids,
-                                        np.float_t [:] angles,
-                                        np.float_t x, np.float_t y, np.float_t z,
-                                        int x_idx, int y_idx,
-                                        Grid grid)
\ No newline at end of file
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 54565ab..94fd5ed 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -2,19 +2,19 @@
 import numpy as np
 from hyvr.geo.trough_utils import *
 from hyvr.geo.trough import Trough
+from hyvr.geo.ae_realization import AERealization
+import hyvr.optimized as ho
 
 cimport cython
 cimport numpy as np
 from libc.math cimport sqrt, ceil, acos, pi, fabs, atan
-from hyvr.geo.ae_realization cimport AERealization
-cimport hyvr.optimized as ho
 
 
-cdef class TroughAE(AERealization):
+class TroughAE(AERealization):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    cpdef create_object_arrays(self):
+    def create_object_arrays(self):
         # This is super ugly :(
         cdef int i
         self.object_x = np.zeros(self.n_objects, dtype=np.float64)
@@ -88,12 +88,12 @@ cdef class TroughAE(AERealization):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     @cython.cdivision(True)
-    cpdef maybe_assign_points_to_object(self, int oi,
-                                        np.int32_t [:] geo_ids,
-                                        np.float_t [:] angles,
-                                        np.float_t x, np.float_t y, np.float_t z,
-                                        int x_idx, int y_idx,
-                                        Grid grid):
+    def maybe_assign_points_to_object(self, int oi,
+                                      np.int32_t [:] geo_ids,
+                                      np.float_t [:] angles,
+                                      np.float_t x, np.float_t y, np.float_t z,
+                                      int x_idx, int y_idx,
+                                      grid):
         """
         This function checks whether the current grid cell with given
         coordinates is inside the trough and assigns facies, azimuth and dip by
-- 
2.43.0


From 0344e4b41797f5485a5849d083ea131bf81aa746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:58 +0000
Subject: [PATCH 05/60] fix: load the compiled trough and channel modules only
 when they are used

'import hyvr' and models consisting only of sheets do not need them.
---
 hyvr/geo/ae_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/ae_types.py b/hyvr/geo/ae_types.py
index f001cd5..fce5480 100644
--- a/hyvr/geo/ae_types.py
+++ b/hyvr/geo/ae_types.py
@@ -4,8 +4,6 @@ This module contains the architectural element types.
 
 from hyvr.geo.ae_realization import AERealization
 from hyvr.geo.sheet_ae import SheetAE
-from hyvr.geo.channel_ae import ChannelAE
-from hyvr.geo.trough_ae import TroughAE
 
 class AEType:
     """
@@ -58,9 +56,13 @@ class AEType:
             The top surface of the AE.
         model : Model object
         """
+        # The trough and channel modules are compiled extensions; they are only
+        # loaded when they are needed.
         if self.geometry == 'trough':
+            from hyvr.geo.trough_ae import TroughAE
             return TroughAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
         elif self.geometry == 'channel':
+            from hyvr.geo.channel_ae import ChannelAE
             return ChannelAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
         elif self.geometry == 'sheet':
             return SheetAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
-- 
2.43.0


From 730a255362f6f061f0f397f77d508750385fea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:43 +0000
Subject: [PATCH 06/60] fix: Sheet lacked the attributes its AE reads for the
 other internal structure

The cdef class initialised them to zero, the Python class raised AttributeError
for every sheet.
---
 hyvr/geo/sheet.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index eeed2e8..ba115fa 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -35,6 +35,16 @@ class Sheet:
         self.zmin = self.bottom_surface.zmin
         self.zmax = self.top_surface.zmax
         self.dipsets = type_params['structure'] == 'dip'
+        # defaults for the attributes that only one of the structures sets
+        self.num_ha = 0
+        self.facies = 0
+        self.num_facies = 0
+        self.facies_array = np.zeros(0, dtype=np.int32)
+        self.shift = 0.
+        self.layer_dist = 0.
+        self.normvec_x = 0.
+        self.normvec_y = 0.
+        self.normvec_z = 0.
         if self.dipsets:
             # the dipsets are layers of planes with distance dipset_dist such that
             # the 'zero plane' goes through the center of the bottom surface of
-- 
2.43.0


From 38791e7abca975771f091045c301e10bb88e979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 07/60] fix: domain top was placed at lz instead of z0 + lz

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b6e5503..f58943c 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -106,7 +106,7 @@ class Model:
             'strata',
         ]
 
-        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.lz)
+        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
         for si in range(self.n_strata):
             # create top surface
             if si == self.n_strata - 1:
-- 
2.43.0


From 08c18546d61fba8b4772355febcd1accf015a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 08/60] fix: homogeneous hydraulics read the 'hydro' option of
 the deprecated ini format

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index f58943c..31528c8 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -282,7 +282,7 @@ class Model:
 
         else:
             # Homogeneous case
-            for hy_idx, hyi in enumerate(hydraulics['hydro']):
+            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                 hyi = hy_idx
                 k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                 poros[fac == hyi] = hydraulics['n'][hy_idx]
-- 
2.43.0


From af4083f45d39187cc1d5dcab19027207e59abf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 09/60] fix: object numbers (ha) were all zero, they were
 copied before being assigned

---
 hyvr/geo/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 31528c8..a5b509e 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -144,8 +144,10 @@ class Model:
             for ae in stratum.aes:
                 ae.num = num_ae
                 num_ae += 1
-                for obj in ae.object_list:
+                for oi, obj in enumerate(ae.object_list):
                     obj.num_ha = num_ha
+                    # the arrays were created before the objects got numbered
+                    ae.object_num_ha[oi] = num_ha
                     num_ha += 1
 
 
-- 
2.43.0


From 43be7207e5752abd59117a34e4c0938061c6a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:29 +0000
Subject: [PATCH 10/60] fix: background hydraulics were assigned to object 0
 instead of the background (ha == -1)

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index a5b509e..60b3beb 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -229,7 +229,7 @@ class Model:
                 # for si, aei in enumerate(ae_lu):
                 for stratum in self.strata:
                     for ae in stratum.aes:
-                        m0 = ha_arr == 0
+                        m0 = ha_arr == -1
                         ms = ae_arr == ae.num
                         ae_mask = m0 & ms     # Get material that equals zero within in architectural element
                         if np.all(ae_mask == False):
-- 
2.43.0


From e286bafe08e8454095922fec5173aec832009a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 11/60] fix: element trends scaled the whole domain once per
 element instead of the element's own cells

They also skipped elements without background cells, and the porosity trends
of an element were ignored.
---
 hyvr/geo/model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 60b3beb..d1ca1e6 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -258,14 +258,23 @@ class Model:
                         # Assign background anisotropy ratio
                         anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
 
-                        # Assign architectural element trends
+                # Assign architectural element trends
+                for stratum in self.strata:
+                    for ae in stratum.aes:
+                        ms = ae_arr == ae.num
                         if ae.type_params['k_ztrend'] is not None:
                             # Vertical trend
                             zf_vec = np.linspace(*ae.type_params['k_ztrend'], self.grid.nz)  # Z factor at each elevation
-                            k_iso *= zf_vec
+                            k_iso[ms] = (k_iso * zf_vec)[ms]
                         if ae.type_params['k_xtrend'] is not None:
                             xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
-                            k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                            k_iso[ms] = np.transpose(k_iso.transpose() * xf_vec)[ms]
+                        if ae.type_params['n_ztrend'] is not None:
+                            zf_vec = np.linspace(*ae.type_params['n_ztrend'], self.grid.nz)
+                            poros[ms] = (poros * zf_vec)[ms]
+                        if ae.type_params['n_xtrend'] is not None:
+                            xf_vec = np.linspace(*ae.type_params['n_xtrend'], self.grid.nx)
+                            poros[ms] = np.transpose(poros.transpose() * xf_vec)[ms]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
-- 
2.43.0


From 5c38b9884bd16eeabcec8f08e842b5e4e21794f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 12/60] fix: global x-trends were computed on a copy and never
 reached the model data

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index d1ca1e6..902a06b 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -282,14 +282,14 @@ class Model:
                     k_iso *= zf_vec
                 if hydraulics['k_xtrend'] is not None:
                     xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
-                    k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                    k_iso[:] = np.transpose(k_iso.transpose() * xf_vec)
 
                 if hydraulics['n_ztrend'] is not None:
                     zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation
                     poros *= zf_vec
                 if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
-                   poros = np.transpose(poros.transpose() * xf_vec)
+                   poros[:] = np.transpose(poros.transpose() * xf_vec)
 
         else:
             # Homogeneous case
-- 
2.43.0


From e0c10f73d1890b91e5545b24e2e75975aa9637fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 13/60] fix: background cells exactly on a contact surface were
 not assigned, nor anything below them

---
 hyvr/assign_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index aefcdf7..e192f3f 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -315,7 +315,7 @@ def maybe_assign_points_to_ae(
         return 0
     z_above = top_surface[x_idx, y_idx]
     z_below = bottom_surface[x_idx, y_idx]
-    if z_below < z and z < z_above:
+    if z_below <= z and z <= z_above:
         geo_ids[0] = ae.bg_facies
         angles[0] = ae.bg_azim
         angles[1] = ae.bg_dip
-- 
2.43.0


From 1093c1dc1fb790e842f86cec45612c9a422c7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 14/60] fix: sheets were not cut off at the bottom surface of
 their element

---
 hyvr/geo/sheet_ae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index d1ec85c..8a1b806 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -87,7 +87,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
-- 
2.43.0


From e9f341e544068e22ac94005b1b1bb5828e41d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 15/60] fix: dipping layers of sheets were mirrored w.r.t. the
 reported azimuth and dip

The normal vector is R*(0,0,1) as in trough.pyx and in the conductivity tensor.
---
 hyvr/geo/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index ba115fa..71ffc86 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -59,8 +59,8 @@ class Sheet:
             cos_dip = np.cos(self.dip*np.pi/180)
             sin_azim = np.sin(self.azim*np.pi/180)
             cos_azim = np.cos(self.azim*np.pi/180)
-            self.normvec_x = -sin_dip*cos_azim
-            self.normvec_y = sin_dip*sin_azim
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
             self.normvec_z = cos_dip
 
 
-- 
2.43.0


From 96210c14837ca2fbd25428516e8180347f0272f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 16/60] fix: number of dipping layers of a sheet depended on
 its position and was often too small

---
 hyvr/geo/sheet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index 71ffc86..3c49127 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -83,9 +83,11 @@ class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
+            # No point of the domain is further away from the center point than
+            # sqrt((lx/2)**2 + (ly/2)**2 + lz**2), in both directions.
             # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            max_dist = np.sqrt((grid.lx/2)**2 + (grid.ly/2)**2 + grid.lz**2)
+            self.num_facies = int(np.ceil(2*max_dist/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
-- 
2.43.0


From 56f72508c2d80a2b6d1d686846d913c0a313fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 17/60] fix: the dipping layer at the zero plane was twice as
 thick as all others

---
 hyvr/geo/sheet_ae.py   | 2 +-
 hyvr/geo/trough_ae.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 8a1b806..a135ff1 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -152,7 +152,7 @@ class SheetAE(AERealization):
         geo_ids[2] = self.object_num_ha[oi]
         if self.object_dipsets[oi]:
             d = self.object_normvec_x[oi]*x + self.object_normvec_y[oi]*y + self.object_normvec_z[oi]*z - self.object_shift[oi]
-            n = int(d/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            n = int(np.floor(d/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
             geo_ids[0] = self.object_facies_array[oi,n]
             return
         else:
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 94fd5ed..bc3e86b 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -7,7 +7,7 @@ import hyvr.optimized as ho
 
 cimport cython
 cimport numpy as np
-from libc.math cimport sqrt, ceil, acos, pi, fabs, atan
+from libc.math cimport sqrt, ceil, floor, acos, pi, fabs, atan
 
 
 class TroughAE(AERealization):
@@ -192,7 +192,7 @@ class TroughAE(AERealization):
                          dy*self.object_normvec_y[oi] +\
                          dz*self.object_normvec_z[oi] + self.object_shift[oi]
             # get index in facies vector, where n = len(facies)//2 at d=0
-            n = int(plane_dist/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            n = int(floor(plane_dist/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
             geo_ids[0] = self.object_facies_array[oi,n]
             angles[0] = self.object_azim[oi]
             angles[1] = self.object_dip[oi]
-- 
2.43.0


From e033f57e6363f3298805687fbefe02014d6ef57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 18/60] fix: dipping layers of channels were read from negative
 indices in deep cells

---
 hyvr/geo/channel_ae.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 5985c9c..4346b18 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -6,7 +6,7 @@ from hyvr.geo.ae_realization import AERealization
 
 cimport cython
 cimport numpy as np
-from libc.math cimport sqrt, atan2
+from libc.math cimport sqrt, atan2, floor, ceil
 
 
 class ChannelAE(AERealization):
@@ -300,7 +300,9 @@ class ChannelAE(AERealization):
                 # To correct for the distance in z-direction we subtract |dz| * cos(dip)
                 # note that dz is negative here
                 d = dist_along_curve * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
-                n = int(d/self.object_layer_dist[oi])
+                # d is negative for deep cells close to the channel start
+                n = int(floor(d/self.object_layer_dist[oi])
+                        + ceil(self.object_depth[oi]/self.object_layer_dist[oi]))
                 geo_ids[0] = self.object_facies_array[oi,n]
                 return
             else:
-- 
2.43.0


From a575cf8ec45d75c77c41f73d808a8d7508a0d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 19/60] fix: channel search skipped cells that are too far away
 in y-direction if dy > 1

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 4346b18..467de12 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -268,7 +268,7 @@ class ChannelAE(AERealization):
                     #
                     #     y(x) = sqrt(radius**2 - x**2)
                     #
-                    ny = int(sqrt(radius**2 - (i*grid.dx)**2))
+                    ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)
                     for j in range(ny):
                         if y_idx-j >= 0 and y_idx+j < grid.ny:
                             self.object_dont_check[oi,x_idx+i, y_idx+j] = 1
-- 
2.43.0


From bb44999f4dc06ba674fe87f74b07d634820ffc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 20/60] fix: channel start points were off by half the grid
 origin

---
 hyvr/geo/channel_ae.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 467de12..245bcf0 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -133,8 +133,8 @@ class ChannelAE(AERealization):
 
             for i in range(n_channels):
                 # get start of channel
-                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
-                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                ystart_grid = grid.y0 + grid.ly/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = grid.x0 + grid.lx/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                 # generate centerline
                 outputs = ferguson_curve(grid,
                                          self.type_params['h'],
-- 
2.43.0


From 33e9b350e9f7bd9223749123c1c33d1d401a0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 21/60] fix: channels with size_ztrend raised a TypeError

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 245bcf0..e82487a 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -112,7 +112,7 @@ class ChannelAE(AERealization):
         dz = self.type_params['agg']
         if self.type_params['size_ztrend'] is not None:
             z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
-            zfactor = np.interp(z, [grid.z0, grid.zmax], *self.type_params['size_ztrend'])
+            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
         else:
             zfactor = 1
         depth = self.type_params['depth'] * zfactor
-- 
2.43.0


From 0f60ace2e3d3874336ea78684cdb0e259bc22bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 22/60] fix: curve_interp only used the first few interpolated
 points

Channel centerlines ended long before they had crossed the domain.
---
 hyvr/optimized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index e8dacd5..6fbe743 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -102,6 +102,8 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
     t = np.arange(xc[0], nc, spacing * 0.1)
     xc = np.interp(t, np.arange(nc), xc)
     yc = np.interp(t, np.arange(nc), yc)
+    # continue with the interpolated points
+    nc = len(xc)
     tol = spacing
     ic, idx = 0, [0]
     while ic < nc:
-- 
2.43.0


From 82ef8506224902cc0210e0046609ca97ddf2fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:51 +0000
Subject: [PATCH 23/60] fix: manually placed troughs were not found if they
 were not given from top to bottom

---
 hyvr/geo/trough_ae.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index bc3e86b..e57c2ff 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -70,7 +70,8 @@ class TroughAE(AERealization):
                 self.bottom_surface, self.top_surface, self.type_params, grid
             )
         else:
-            te_xyz = self.type_params['te_xyz']
+            # the objects have to be sorted from top to bottom
+            te_xyz = sorted(self.type_params['te_xyz'], key=lambda xyz: -xyz[2])
 
         # Generate troughs
         for xc, yc, zc in te_xyz:
-- 
2.43.0


From cccf15c28832f8f5cd90df0c4e53f495070242c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:51 +0000
Subject: [PATCH 24/60] fix: bulb orientation of rotated troughs was rotated in
 the wrong direction

---
 hyvr/geo/trough_ae.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index e57c2ff..50b5b83 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -209,8 +209,8 @@ class TroughAE(AERealization):
             #
             # The gradient is (up to a scalar)
             #
-            #             /  nx*cos/a + ny*sin/b  \
-            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             /  nx*cos/a - ny*sin/b  \
+            # grad f(x) = |  nx*sin/a + ny*cos/b  |
             #             \          nz/c         /
             #
             # where nx, ny, nz are the normalized distances.
@@ -229,8 +229,8 @@ class TroughAE(AERealization):
             len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
             if len_normvec != 0:
                 normvec_x = (aaa*self.object_cosalpha[oi]
-                             + bbb*self.object_sinalpha[oi])/len_normvec
-                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             - bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (aaa*self.object_sinalpha[oi]
                              + bbb*self.object_cosalpha[oi])/len_normvec
                 normvec_z = ccc/len_normvec
                 len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
-- 
2.43.0


From 860296b681099490fbe149c962a022101fad8fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:51 +0000
Subject: [PATCH 25/60] fix: sign of the bulb dip was mirrored below the trough
 top

At the rim (and everywhere else in HyVR) the bedding normal is
(sin(dip)cos(azim), -sin(dip)sin(azim), cos(dip)).
---
 hyvr/geo/trough_ae.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 50b5b83..b1c1beb 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -241,15 +241,15 @@ class TroughAE(AERealization):
                 else:
                     # The dip angle can be found as acos of the normalized
                     # scalar product of unit z-vector and normal vector
-                    # It should be negative, if the gradient points in positive
+                    # It should be positive, if the gradient points in positive
                     # x direction and in positive z direction, or if it points
-                    # in negative x and z direction.
-                    # direction.
+                    # in negative x and z direction, such that the normal
+                    # vector has the same meaning as for dipping layers.
                     if normvec_z == 0:
                         # in this case only the sign of x is relevant
                         dip = -acos(fabs(normvec_z))*ho.sign(normvec_x)/pi*180
                     else:
-                        dip = -acos(fabs(normvec_z))\
+                        dip = acos(fabs(normvec_z))\
                               * ho.sign(normvec_x*normvec_z)/ pi*180
 
                     # The azimuth angle should also be between -90 and 90. It is
-- 
2.43.0


From d978dd1241526c57f8cad39c1539264178c0eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 26/60] fix: specsim removed all modes that are constant in x
 instead of only the mean

---
 hyvr/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index c192bf7..cbea278 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -464,10 +464,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
 
         else:
             x_idx, y_idx, z_idx = np.where(selection_mask)
-            try:
-                min_x_idx = min(x_idx)
-            except:
-                import pdb; pdb.set_trace()
+            min_x_idx = np.min(x_idx)
             max_x_idx = np.max(x_idx)
             min_y_idx = np.min(y_idx)
             max_y_idx = np.max(y_idx)
@@ -512,7 +509,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # Power spectrum of variable
     syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
     syy = np.abs(syy)       # Remove imaginary artifacts
-    syy[0] = 0
+    syy.flat[0] = 0     # only remove the mean
 
     real = np.random.randn(*syy.shape)
     imag = np.random.randn(*syy.shape)
-- 
2.43.0


From ae287afca66e7db5c4b5c04300fbf386a03cd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 27/60] fix: the overwrite flag (--overwrite, flag_ow) was
 ignored, only the ini option counted

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 532af78..672375d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -498,7 +498,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if overwrite_old_output is None:
         overwrite_old_output = run['overwrite_old_output']
     if run['rundir'].exists():
-        if run['overwrite_old_output'] is True:
+        if overwrite_old_output is True:
             # If it exists, we just delete everything in it
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
-- 
2.43.0


From 522d5477d31784daca4fb4bf5bf198390fd31d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 28/60] fix: overwriting a run directory left broken links
 behind and failed on links to directories

---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 672375d..c49beb7 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -503,10 +503,10 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if path.is_file():
-                    path.unlink()
-                elif path.is_dir():
+                if path.is_dir() and not path.is_symlink():
                     shutil.rmtree(path)
+                else:
+                    path.unlink()
         else:
             raise FileExistsError(
                 "Run directory already exists and overwrite flag is "
-- 
2.43.0


From d81a11e6b8dee9800baaa0add06ada2538a1de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 29/60] fix: modeldir given in the ini-file (or selected
 interactively) raised an error

---
 hyvr/input/parameters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index c49beb7..0fa08ad 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -149,10 +149,11 @@ def parameters(inifile):
             directory = input(
                 'Please input the model directory save path, or press <enter> to'
                 'save in default directory:\n')
-            if len(run['modeldir']) == 0:
-                run['modeldir'] = inipath
+            if len(directory) == 0:
+                run['modeldir'] = ini_path
             else:
-                run['modeldir'] = pathlib.Path(directory).resolve()
+                run['modeldir'] = directory
+        run['modeldir'] = pathlib.Path(run['modeldir']).resolve()
         run['rundir'] = run['modeldir'] / run['runname']
 
     return run, model, strata, hydraulics, flowtrans, elements
-- 
2.43.0


From c571a6569bc80a36f21604c8aeefee63b5beee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 30/60] fix: error message for a missing parameter file failed
 for pathlib paths

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 0fa08ad..e1235be 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -101,7 +101,7 @@ def parameters(inifile):
         # this is probably caused by a wrong encoding
         p.read(inifile, encoding='utf-8-sig')
     if len(p.sections()) == 0:
-        raise FileNotFoundError("Parameter file {:s} not found!".format(inifile))
+        raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
     old_format = 'dataoutputs' in dict(p['run'])
     if old_format:
-- 
2.43.0


From 61b2f1c36e2869f7b788442ae1f4b9329d0c7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 31/60] fix: missing run section raised KeyError, and old
 ini-files with the l_-prefix or without data outputs were not recognized

---
 hyvr/input/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index e1235be..d87c910 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -103,7 +103,11 @@ def parameters(inifile):
     if len(p.sections()) == 0:
         raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
-    old_format = 'dataoutputs' in dict(p['run'])
+    if 'run' not in p:
+        raise MissingSectionError('run')
+    old_format = any(name in p['run'] for name in [
+        'dataoutputs', 'l_dataoutputs', 'modeloutputs', 'l_modeloutputs'
+    ])
     if old_format:
         run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
 
-- 
2.43.0


From d1ff99f65220089a5715b3c531cb9c6b3c37da4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 32/60] fix: error message for unknown background facies failed
 itself

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index d87c910..8a7ebad 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -231,7 +231,7 @@ def parse_inifile(p):
     try:
         strata['bg_facies'] = parse_facies(strata['bg_facies'], hydraulics['hydrofacies'])
     except:
-        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + strata['bg_facies'])
+        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + str(strata['bg_facies']))
 
 
     # flowtrans section
-- 
2.43.0


From 8831e3871064958f2a698334bcd284fd837f78a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 33/60] fix: bulbset_dist was required for 'bulb' instead of
 'bulb_sets'

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 8a7ebad..5cdd50d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -285,7 +285,7 @@ def parse_inifile(p):
         if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
             assert_exists('dipset_dist', dictionary, section)
         # if structure is 'bulb_sets', require 'bulbset_dist'
-        if elements[section]['structure'] == 'bulb' or elements[section]['structure'] == 'random':
+        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':
             assert_exists('bulbset_dist', dictionary, section)
 
         # lag surface facies
-- 
2.43.0


From 55a859b0f38cfa8aa9cb98853a5b81c1a3c82c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 34/60] fix: a missing contact_model raised a TypeError instead
 of MissingOptionError

---
 hyvr/input/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/options.py b/hyvr/input/options.py
index a4edcab..1cfde56 100644
--- a/hyvr/input/options.py
+++ b/hyvr/input/options.py
@@ -78,7 +78,7 @@ options['strata'] = [
 element_options = [
     Option('geometry', str, optional=False,
            validation_func=lambda x: x in ['trough', 'channel', 'sheet']),
-    Option('contact_model', list, optional=True, shape=[-1], datatype=str),
+    Option('contact_model', list, optional=False, shape=[-1], datatype=str),
     Option('facies', list, optional=False, shape=[-1], datatype=str),
     Option('altfacies', list, optional=True, shape=['facies', -1], datatype=str),
     Option('size_ztrend', list, optional=True, shape=2, datatype=float),
-- 
2.43.0


From d7c7029a58488d408669143fb787025d1a1d33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:32 +0000
Subject: [PATCH 35/60] fix: empty run names made the model directory the run
 directory

With overwrite_old_output everything in it was deleted, including the ini-file.
---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 5cdd50d..d7d8fb4 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -127,11 +127,11 @@ def parameters(inifile):
     # in the test case runname is given
     ini_path = pathlib.Path(inifile).parent.resolve()
     ini_name = pathlib.Path(inifile).name
-    if run['runname'] is None:
-        if ini_name.endswith("autogenerated_backup.ini"):
+    if not run['runname']:
+        if ini_name.endswith("_autogenerated_backup.ini"):
             run['runname'] = ini_name[0:-25]
         else:
-            run['runname'] = ".".join(ini_name.split('.')[0:-1])
+            run['runname'] = pathlib.Path(ini_name).stem
 
 
     # separate task: find modeldir
-- 
2.43.0


From c99bf34eb05b6f4abe7f03dc33961141d8e6030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 36/60] fix: list options with three levels, line breaks or
 unbalanced brackets were parsed wrongly

---
 hyvr/input/option_parsing.py | 44 +++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index b11d1b9..9e637fd 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -312,6 +312,8 @@ def numdim(l):
     """
     if not isinstance(l, (list, tuple)):
         return 0
+    if len(l) == 0:
+        return 1
     if not isinstance(l[-1], (list, tuple)):
         return 1
     else:
@@ -465,20 +467,36 @@ def parse_list(string, dtype):
     list of elements of type ``dtype`` or list of lists of elements of type
     ``dtype``. Returns a single value if only a single value is given.
     """
-    # l =  string.replace('[', '').replace(']', '').replace(' ', '').split(',')
-    s = string.replace(' ', '') # remove all spaces first
-    if s[0] == '[': # it's not only a single item
-        s = s[1:-1] # remove [ and ] from start and end only
-    else: # it's just a single item
+    s = ''.join(string.split()) # remove all whitespace first
+    if not s.startswith('['): # it's just a single item
+        if not s or any(c in s for c in '[],'):
+            raise ValueError('Invalid list: ' + string)
         return dtype(s)
-    if s[0] == '[': # it's a list of lists
-        splitted = s.split('],')
-        for i in range(len(splitted)-1):
-            splitted[i] += ']' # splitting removed the closing bracket from all but the last item
-        l = list(map(lambda x: parse_list(x, dtype), splitted))
-    else:
-        splitted = s.split(',')
-        l = list(map(dtype, splitted))
+
+    # split at the commas of the outermost list only
+    items = ['']
+    depth = 0
+    for i, c in enumerate(s):
+        if c == '[':
+            depth += 1
+        elif c == ']':
+            depth -= 1
+        if depth == 0 and i < len(s) - 1:
+            # the outermost list was closed before the end of the string
+            raise ValueError('Invalid list: ' + string)
+        if i == 0 or i == len(s) - 1:
+            continue
+        if c == ',' and depth == 1:
+            items.append('')
+        else:
+            items[-1] += c
+    if depth != 0:
+        raise ValueError('Invalid list: ' + string)
+    if items == ['']:
+        return []
+    l = [parse_list(item, dtype) for item in items]
+    if len(set(numdim(li) for li in l)) > 1:
+        raise ValueError('Invalid list: ' + string)
     return l
 
 def parse_bool(section, optionname):
-- 
2.43.0


From f18673e9741e31413834ec27ba6f60761376ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:32 +0000
Subject: [PATCH 37/60] fix: scalars were not expanded to nested lists, and
 three-dimensional or ragged shapes failed

---
 hyvr/input/option_parsing.py | 40 ++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 9e637fd..74f03ae 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -265,39 +265,43 @@ class Option():
                 # if it's flat, it might contain dimensions with -1 that cannot be
                 # autoexpanded. We first need to determine the shape of this dimension.
                 if is_flat(shape):
-                    real_shape = get_shape(value)
-                    if isinstance(real_shape, (list, tuple)):
-                        # if it's just a single number we can expand it
+                    if value == [] and shape[0] == -1:
+                        # without any entries there are no inner lists
+                        return value
+                    depth = numdim(value)
+                    if depth > len(shape):
+                        raise ShapeError(self.name, section.name)
+                    if depth > 0:
                         # Here I'm trying to find the flat shape of the value that was
                         # given in the configuration file.
-                        flat_shape_value = try_flattening_shape(real_shape)
+                        flat_shape_value = try_flattening_shape(get_shape(value))
                         # It might happen that we cannot flatten the shape, in this
                         # case there are negative values remaining in flat_shape_value.
                         # If there are, this means that there is a dimension
                         # containing lists of different lengths.
                         # In any case I will try to replace any -1 in ``shape``
                         # with the value in ``flat_shape_value``.
-                        shape = get_positive_shape(shape, flat_shape_value)
+                        given_shape = get_positive_shape(shape, flat_shape_value)
                         # Now we do a test for equality of the asserted shape and
                         # the shape of the value found in the config file. Keep in
                         # mind that there might be -1 values left.
-                        if flat_shape_value != shape[-len(flat_shape_value):]:
+                        if flat_shape_value != given_shape[-depth:]:
                             raise ShapeError(self.name, section.name)
-                        # If there are -1's left we must ensure that the "depth" of
-                        # the given value, i.e. the number of dimensions, is higher
-                        # than the ``number of dimensions after the value preceding
-                        # the first -1`` + 1 .
-                        if any(map(lambda x: x == -1, shape)):
-                            depth = numdim(value)
-                            mindepth = len(shape) - shape.index(-1) + 1
-                            if depth < mindepth:
-                                raise ValueError('Option ' + self.name + ' in section ' +
-                                                section.name + ' can not be expanded!')
-                        shape = expand_shape(shape)
+                    # The value has the right shape, but the outer dimensions might
+                    # be missing. These can only be expanded if their length is known.
+                    missing = shape[:len(shape)-depth]
+                    if -1 in missing:
+                        raise ValueError('Option ' + self.name + ' in section ' +
+                                         section.name + ' can not be expanded!')
+                    for n in reversed(missing):
+                        value = [deepcopy(value) for i in range(n)]
+                    return value
 
                 # Now we have an expanded shape, so only two tasks remain:
                 # * auto-expansion
                 # * shape validation
+                if numdim(value) > len(shape):
+                    raise ShapeError(self.name, section.name)
                 value = expand_to_shape(shape, value)
                 if not compare_shapes(shape, get_shape(value)):
                     raise ShapeError(self.name, section.name)
@@ -403,7 +407,7 @@ def expand_shape(shape):
     expanded = [shape[0]]
     for i in range(1, len(shape)):
         next = [shape[i]] * shape[i-1]
-        for j in range(1, i):
+        for j in range(i-2, -1, -1):
             next = [next] * shape[j]
         expanded.append(next)
     return expanded
-- 
2.43.0


From eefb4802c9df766a9fc3469affa8a554ed09a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:16 +0000
Subject: [PATCH 38/60] fix: background dip and facies of elements in old
 ini-files (dip was the azimuth, facies a float)

---
 hyvr/input/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index d7d8fb4..44df738 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -346,9 +346,9 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem = elements[elem_name]
         elem['size_ztrend'] = elem['geo_ztrend']
         if elem['bg'] is not None:
-            elem['bg_facies'] = elem['bg'][0]
+            elem['bg_facies'] = int(elem['bg'][0])
             elem['bg_azim'] = elem['bg'][1]
-            elem['bg_dip'] = elem['bg'][1]
+            elem['bg_dip'] = elem['bg'][2]
         else:
             elem['bg_facies'] = -1
             elem['bg_azim'] = float('NaN')
-- 
2.43.0


From 8863553eb75645d572e069ab28597c5927743db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:16 +0000
Subject: [PATCH 39/60] fix: channels and lag facies of old ini-files were not
 converted to the new format

---
 hyvr/input/parameters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 44df738..bb25a01 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -359,11 +359,17 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
+        elif elem['geometry'] == 'ext_par':
+            elem['geometry'] = 'channel'
+            elem['channel_no'] = int(elem['channel_no'])
+            # these do not exist in the old format
+            elem['flow_angle'] = 0.
+            elem['mig'] = 0.
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
                 elem['lag_height'] = elem['lag'][0]
-                elem['lag_facies'] = elem['lag'][1]
+                elem['lag_facies'] = int(elem['lag'][1])
             else:
                 elem['lag_height'] = 0.0
                 elem['lag_facies'] = -1
-- 
2.43.0


From 1ff9d09cf232f09d5e21d070b328daa9ca22c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:16 +0000
Subject: [PATCH 40/60] fix: structure 'bulb_l' of old ini-files was not
 converted to 'bulb_sets'

---
 hyvr/input/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index bb25a01..eae72f7 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -356,6 +356,8 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem['dipset_dist'] = elem['dipset_d']
         if 'bulbset_d' in elem:
             elem['bulbset_dist'] = elem['bulbset_d']
+        if elem['structure'] == 'bulb_l':
+            elem['structure'] = 'bulb_sets'
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
-- 
2.43.0


From f1d8f06c78a161150b3f668f61a49569c18ec326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:16 +0000
Subject: [PATCH 41/60] fix: unsupported options of old ini-files failed with a
 NameError (ae_table) or were silently ignored (hetlev = ae)

---
 hyvr/input/parameters.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index eae72f7..86ac0a7 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -320,6 +320,8 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
     model['hydraulics'] = hydraulics['gen']
     model['heterogeneity'] = run['het']
     model['heterogeneity_level'] = model['hetlev']
+    if model['heterogeneity_level'] == 'ae':
+        raise ValueError("hetlev 'ae' is not supported anymore")
     if model['display']:
         raise ValueError('display option is not supported anymore')
 
@@ -454,10 +456,6 @@ def parse_deprecated_inifile(p):
 
     strata = Section('strata', old_options['strata']).parse(dict(p['strata']))
     del sections[sections.index('strata')]
-    if strata['ae_table'] is not None:
-        ae_table = pathlib.Path(inifile).parent / strata['ae_table']
-        if not ae_table.exists():
-            raise FileNotFoundError('ae_table-file {:s} not found!'.format(ae_table))
 
     hydraulics = Section('hydraulics', old_options['hydraulics']).parse(dict(p['hydraulics']))
     del sections[sections.index('hydraulics')]
-- 
2.43.0


From 6afd558db175c3f2a1819b6b8a71b8dda4fe8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:47 +0000
Subject: [PATCH 42/60] fix: massive sheets got an additional sheet of zero
 thickness due to rounding errors

---
 hyvr/geo/sheet_ae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index a135ff1..d261a35 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -60,8 +60,8 @@ class SheetAE(AERealization):
         # non-flat contact surfaces as they use the contact surface of the AE.
 
         if self.type_params['lens_thickness'] == -1:
-            # massive bedding
-            thickness = self.zmax - self.zmin
+            # massive bedding: there is only one sheet
+            thickness = np.inf
         elif self.type_params['size_ztrend'] is not None:
             zfactor = np.interp(np.mean([self.zmin, self.zmax]),
                                 [grid.z0, grid.zmax],
-- 
2.43.0


From e35fe1fe7d8a58cbde1c30a394869d2c9be43c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:15 +0000
Subject: [PATCH 43/60] fix: channels that migrate out of the domain raised an
 OverflowError

---
 hyvr/geo/channel_ae.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index e82487a..f7b902f 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -153,9 +153,10 @@ class ChannelAE(AERealization):
                 vy = outputs[:,3]
 
 
-                # generate channels
-                channel = Channel(self.type_params, x_center, y_center, vx, vy, z, width, depth, grid)
-                self._add_object(channel)
+                # generate channels, if they did not migrate out of the domain
+                if len(x_center) > 0:
+                    channel = Channel(self.type_params, x_center, y_center, vx, vy, z, width, depth, grid)
+                    self._add_object(channel)
 
                 if self.type_params['mig'] is not None:
                     ystart[i] -= np.random.uniform(-self.type_params['mig'], self.type_params['mig'])
-- 
2.43.0


From 28ef4bfc4ea1566feca9aa059c5721abbe9bb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:40 +0000
Subject: [PATCH 44/60] fix: outputs were reported as saved if their optional
 dependency is missing

---
 hyvr/postprocess/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 867fc1e..26aa14b 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -75,7 +75,8 @@ def create_outputs(model, realization_dir, runname, formats):
             # in case of an import error, only warn the user instead of raising
             # an error
             warnings.warn(str(e))
-        print_to_stdout('Saved', fmt, 'output to', realization_dir)
+        else:
+            print_to_stdout('Saved', fmt, 'output to', realization_dir)
 
 
 def to_mat(model, fname):
-- 
2.43.0


From 0c31e46ee6fc3713b47e044012e077d93bc10590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:40 +0000
Subject: [PATCH 45/60] fix: vtr coordinates could have one node too many due
 to rounding errors

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 26aa14b..0d91e94 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -156,9 +156,9 @@ def to_vtr(model, fname):
     try:
         from pyevtk.hl import gridToVTK
         data_dict = {key:model.data[key] for key in model.data if key != "ktensors"}
-        xv = np.arange(model.grid.x0, model.grid.xmax+model.grid.dx, model.grid.dx)
-        yv = np.arange(model.grid.y0, model.grid.ymax+model.grid.dy, model.grid.dy)
-        zv = np.arange(model.grid.z0, model.grid.zmax+model.grid.dz, model.grid.dz)
+        xv = model.grid.x0 + model.grid.dx*np.arange(model.grid.nx + 1)
+        yv = model.grid.y0 + model.grid.dy*np.arange(model.grid.ny + 1)
+        zv = model.grid.z0 + model.grid.dz*np.arange(model.grid.nz + 1)
         gridToVTK(fname, xv, yv, zv, cellData=data_dict)
     except ImportError as e:
         raise type(e)(str(e) + ", vtr output not possible!")
-- 
2.43.0


From 77019379d57eb90b80631eef1c90b7690b81ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:40 +0000
Subject: [PATCH 46/60] fix: row and column spacing were swapped in MODFLOW
 output

---
 hyvr/postprocess/output.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 0d91e94..a0f01eb 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -194,7 +194,8 @@ def to_modflow(model, fname):
     zbot = model.grid.z0
     botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.nx, model.grid.ny, 
-                                   delr=model.grid.dx, delc=model.grid.dy,
+                                   # rows follow x, columns follow y
+                                   delr=model.grid.dy, delc=model.grid.dx,
                                    top=ztop, botm=botm[1:])
 
     # Variables for the BAS package
@@ -305,8 +306,8 @@ def to_mf6(model, fname):
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
                                                    ncol=model.grid.nx,
-                                                   delr=model.grid.dy,
-                                                   delc=model.grid.dx,
+                                                   delr=model.grid.dx,
+                                                   delc=model.grid.dy,
                                                    top=ztop,
                                                    botm=botm[1:],
                                                    filename='{}.dis'.format(runname))
-- 
2.43.0


From 643a152e3208e885bae4e1d5127ae2ad7a58fead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:40 +0000
Subject: [PATCH 47/60] fix: MODFLOW layers are numbered from top to bottom,
 the output was upside down

---
 hyvr/postprocess/output.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index a0f01eb..bb37f22 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -210,10 +210,11 @@ def to_modflow(model, fname):
     bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
 
     # Assign hydraulic conductivity
-    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))
+    # MODFLOW layers are numbered from top to bottom
+    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))[::-1]
     hyvr_layvka = 1                                           # VKA dataset is ratio of horizontal K
     if 'anirat' in model.data.keys():
-        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))
+        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))[::-1]
 
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
@@ -257,13 +258,13 @@ def to_mf6(model, fname):
     mfdir.mkdir(parents=True, exist_ok=True)
     mfname = str(mfdir / runname)
 
-    # Transpose HyVR arrays for MF6 input
+    # Transpose HyVR arrays for MF6 input. Layers are numbered from top to bottom.
     transpose_order = (2, 1, 0)
-    k_iso = np.transpose(model.data['k_iso'], transpose_order)
+    k_iso = np.transpose(model.data['k_iso'], transpose_order)[::-1]
     if set(['anirat', 'dip', 'azim']).issubset(model.data.keys()):
-        anirat = np.transpose(model.data['anirat'], transpose_order)
-        dip = np.transpose(model.data['dip'], transpose_order)
-        azim = np.transpose(model.data['azim'], transpose_order)
+        anirat = np.transpose(model.data['anirat'], transpose_order)[::-1]
+        dip = np.transpose(model.data['dip'], transpose_order)[::-1]
+        azim = np.transpose(model.data['azim'], transpose_order)[::-1]
         xt3d = True
     else:
         xt3d = False
@@ -319,7 +320,7 @@ def to_mf6(model, fname):
                                               k=k_iso,                                  # within-bedding hydraulic conductivity
                                               k33=k_iso/anirat,                         # across-bedding hydraulic conductivity
                                               angle1=azim,                              # azimuth
-                                              angle2=dip,                               # dip
+                                              angle2=-dip,                              # dip (downwards)
                                               angle3=np.zeros((model.grid.nz, model.grid.ny, model.grid.nx)))   # no rotation
     else:
         npf_package = flopy.mf6.ModflowGwfnpf(gwf,
-- 
2.43.0


From dce40bcf1744c5c37b07350fd28a582e15b07b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:40 +0000
Subject: [PATCH 48/60] fix: NameError in MODFLOW 6 output if only a head
 gradient is given

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index bb37f22..f756b43 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -332,9 +332,9 @@ def to_mf6(model, fname):
         hin = model.flowtrans['hin'][0]
         hout = model.flowtrans['hout'][0]
 
-    elif flowtrans['gradh'] is not None:
+    elif model.flowtrans['gradh'] is not None:
         hout = 1
-        hin = hout + model.grid.lx * flowtrans['gradh']
+        hin = hout + model.grid.lx * model.flowtrans['gradh']
 
     if np.any([model.flowtrans['hin'] is not None, model.flowtrans['gradh'] is not None]):
         chd_rec = []
-- 
2.43.0


From ee0509f16905191ae460b97326b1ad1f16a19e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:40 +0000
Subject: [PATCH 49/60] fix: MODFLOW 6 output contained an inflow of 0.01 if no
 inflow was given

---
 hyvr/postprocess/output.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index f756b43..ff75a32 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -372,11 +372,8 @@ def to_mf6(model, fname):
 
     """ Create well package """
     # Apply constant discharges at model faces
-    if 'q_in' in model.flowtrans:
-        if model.flowtrans['q_in'] is not None:
-            q_in = model.flowtrans['q_in']
-        else:
-            q_in = 0.01
+    if model.flowtrans['q_in'] is not None:
+        q_in = model.flowtrans['q_in']
 
         # if 'q_out' in flowtrans:
         #     q_out = flowtrans['q_out']
-- 
2.43.0


From f61d0f151d1f38dae9cb1267b654e8d651e6f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:58 +0000
Subject: [PATCH 50/60] fix: MODFLOW 6 output used options that flopy does not
 accept anymore, and rounded layer bottoms

---
 hyvr/postprocess/output.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index ff75a32..e4836c1 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -281,17 +281,17 @@ def to_mf6(model, fname):
                                                 time_units='DAYS')
 
     """ create gwf model """
-    gwf = flopy.mf6.MFModel(sim, modelname=runname)
+    gwf = flopy.mf6.ModflowGwf(sim, modelname=runname)
 
 
     ims = flopy.mf6.ModflowIms(sim,
                                print_option='SUMMARY',
                                complexity='COMPLEX',
-                               outer_hclose=1e-3,
+                               outer_dvclose=1e-3,
                                outer_maximum=500,
                                under_relaxation='NONE',
                                inner_maximum=100,
-                               inner_hclose=1e-4,
+                               inner_dvclose=1e-4,
                                rcloserecord=0.001,
                                linear_acceleration='BICGSTAB',
                                scaling_method='NONE',
@@ -302,7 +302,7 @@ def to_mf6(model, fname):
     """ Create discretization """
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
-    botm = np.around(np.arange(ztop, zbot-model.grid.dz, -model.grid.dz), decimals=3)
+    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf,
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
-- 
2.43.0


From 04894f56a39eaa0f8d061b5dcf5828b12480fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:35 +0000
Subject: [PATCH 51/60] fix: MODFLOW 6 output did not activate XT3D, so the
 angles had no effect

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index e4836c1..5142d7c 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -316,7 +316,7 @@ def to_mf6(model, fname):
     """ Create Node Property Flow package object """
     if xt3d is True:
         npf_package = flopy.mf6.ModflowGwfnpf(gwf,
-                                              save_flows=True, icelltype=0, xt3doptions='',
+                                              save_flows=True, icelltype=0, xt3doptions=True,
                                               k=k_iso,                                  # within-bedding hydraulic conductivity
                                               k33=k_iso/anirat,                         # across-bedding hydraulic conductivity
                                               angle1=azim,                              # azimuth
-- 
2.43.0


From 960adb0ac41d85bd9f815541ba7f6e7650b98426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:26 +0000
Subject: [PATCH 52/60] fix: mean and maximum of clipped contact surfaces were
 not updated, so strata with crossing contacts were left empty and their cells
 unassigned

---
 hyvr/geo/contact_surface.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 4c98a21..8dadea5 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -44,8 +44,7 @@ class ContactSurface:
             for j in range(self.ny):
                 if self.surface[i,j] > other_surf[i,j]:
                     self.surface[i,j] = other_surf[i,j]
-        # using the higher of both values might have changed the minimum 
-        self.zmin = np.min(self.surface)
+        self._update_statistics(other_surface)
 
 
 
@@ -55,5 +54,16 @@ class ContactSurface:
             for j in range(self.ny):
                 if self.surface[i,j] < other_surf[i,j]:
                     self.surface[i,j] = other_surf[i,j]
-        # using the higher of both values might have changed the maximum 
-        self.zmax = np.max(self.surface)
\ No newline at end of file
+        self._update_statistics(other_surface)
+
+
+    def _update_statistics(self, other_surface: ContactSurface):
+        # replacing values might have changed the minimum, maximum and mean
+        self.zmin = np.min(self.surface)
+        self.zmax = np.max(self.surface)
+        if np.array_equal(self.surface, other_surface.surface):
+            self.zmean = other_surface.zmean
+        elif self.zmin == self.zmax:
+            self.zmean = self.zmin
+        else:
+            self.zmean = np.mean(self.surface)
-- 
2.43.0


From 12e1a6ec0e870a77811652eaba27d4b6bd0d6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:08 +0000
Subject: [PATCH 53/60] fix: contact types written in upper case, which the
 parser accepts, are generated

---
 hyvr/geo/contact_surface_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/contact_surface_utils.py b/hyvr/geo/contact_surface_utils.py
index bdf9b30..41d2051 100644
--- a/hyvr/geo/contact_surface_utils.py
+++ b/hyvr/geo/contact_surface_utils.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def parse_contact_model(param_list, depth=False):
-    mode = param_list[0].strip("\"'")
+    mode = param_list[0].strip("\"'").lower()
     cm = {'mode': mode}
     param_idx = 1
     if depth:
-- 
2.43.0


From 40a199a66a377caef66ee02551cedaf55edc16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:08 +0000
Subject: [PATCH 54/60] fix: a missing section of an element is reported before
 old results are removed

---
 hyvr/input/parameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 86ac0a7..da5340b 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -46,6 +46,12 @@ def setup_from_inifile(inifile, flag_ow):
     """
     run, model_dict, strata_dict, hydraulics, flowtrans, elements = parameters(inifile)
 
+    # Every element that is used in a stratum needs its own section
+    for ae_names in strata_dict['ae_in_strata']:
+        for ae_name in ae_names:
+            if ae_name not in elements:
+                raise MissingSectionError(ae_name)
+
     # Assign architectural element identifiers
     for element in elements.keys():
         elements[element]['ae_id'] = strata_dict['ae'].index(element)
-- 
2.43.0


From df786667b26e4c81391912e427e0f84a4229903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:51 +0000
Subject: [PATCH 55/60] fix: lists that are expanded to the shape of another
 option are not shared

---
 hyvr/input/option_parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 74f03ae..74daf6c 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -420,7 +420,7 @@ def expand_to_shape(shape, value):
 
 def _expand_to_shape(shape, value):
     if isinstance(shape, int):
-        value = [value] * shape
+        value = [deepcopy(value) for i in range(shape)]
         return value
     else:
         return [_expand_to_shape(s, value) for s in shape]
-- 
2.43.0


From 2a5b743328983f28313dfa8ecfc3ef42738611e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:21 +0000
Subject: [PATCH 56/60] fix: old ini-files with unknown facies or without bed
 distances are rejected

---
 hyvr/input/parameters.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index da5340b..1c5cb3f 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -337,6 +337,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
     strata['bg_facies'] = [int(strata['bg'][0])] * n_strata
     strata['bg_azim'] = [strata['bg'][1]] * n_strata
     strata['bg_dip'] = [strata['bg'][2]] * n_strata
+    check_old_facies(strata['bg_facies'], hydraulics['hydrofacies'], 'strata')
     strata['strata'] = strata['ssm']
     if strata['ae_table'] is not None:
         raise ValueError('AE tables are not supported anymore!')
@@ -384,7 +385,21 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
                 elem['lag_height'] = 0.0
                 elem['lag_facies'] = -1
 
+        # facies are given as indices of the list of hydrofacies
+        facies = list(elem['facies'])
+        for altfacies in elem['altfacies'] or []:
+            facies += altfacies
+        if elem['bg'] is not None:
+            facies.append(elem['bg_facies'])
+        if elem.get('lag') is not None:
+            facies.append(elem['lag_facies'])
+        check_old_facies(facies, hydraulics['hydrofacies'], elem_name)
 
+        # same requirements as for the new format
+        if elem['structure'] in ['dip', 'random'] and elem['dipset_dist'] is None:
+            raise MissingOptionError('dipset_d', elem_name)
+        if elem['structure'] in ['bulb_sets', 'random'] and elem['bulbset_dist'] is None:
+            raise MissingOptionError('bulbset_d', elem_name)
 
     return run, model, strata, hydraulics, flowtrans, elements
 
@@ -398,6 +413,14 @@ def parse_facies(facies_list, hydrofacies):
         hydrofacies.index(facies) for facies in facies_list
     ]
 
+def check_old_facies(facies_list, hydrofacies, section):
+    """
+    Checks whether facies indices refer to an entry of the hydrofacies list.
+    """
+    for facies in facies_list:
+        if not 0 <= facies < len(hydrofacies):
+            raise ValueError('Invalid facies index in section ' + section + ': ' + str(facies))
+
 def get_new_facies_list(facies_list, hydrofacies):
     return [hydrofacies[i] for i in facies_list]
 
-- 
2.43.0


From 323336743eda6d25bbb4a03961775946fd72897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 57/60] fix: an ini-file that cannot be read again is reported,
 not stored as an empty backup

---
 hyvr/input/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 1c5cb3f..b07acdc 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -524,10 +524,12 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
 
     p = cp.ConfigParser()
     try:
-        p.read(inifile, encoding='utf-8')
+        files = p.read(inifile, encoding='utf-8')
     except cp.MissingSectionHeaderError:
         # this is probably caused by a wrong encoding
-        p.read(inifile, encoding='utf-8-sig')
+        files = p.read(inifile, encoding='utf-8-sig')
+    if len(files) == 0:
+        raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
     # we're now done with parsing and can create the model directory.
     run['modeldir'].mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 4bb5fcf1fb52b1ec2f8ed47d63497c9de536cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 58/60] fix: write the backup of the ini-file in the encoding
 in which it is read

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index b07acdc..eb8022c 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -559,5 +559,5 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
         run['rundir'].mkdir(parents=True, exist_ok=True)
 
     backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
-    with open(backup_file, 'w') as f:
+    with open(backup_file, 'w', encoding='utf-8') as f:
         p.write(f)
-- 
2.43.0


From 2ad4cf29e935eb04fb772c6572031aa3ef55418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:37 +0000
Subject: [PATCH 59/60] fix: MODFLOW name files refer to the other files by
 their absolute path

---
 hyvr/postprocess/output.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 5142d7c..838c8cb 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -184,10 +184,9 @@ def to_modflow(model, fname):
     runname = pathlib.Path(fname).name
     mfdir = realization_dir / 'MODFLOW'
     mfdir.mkdir(parents=True, exist_ok=True)
-    mfname = str(mfdir / runname)
 
     # Assign name and create modflow model object
-    mf = flopy.modflow.Modflow(mfname, exe_name='mf2005')
+    mf = flopy.modflow.Modflow(runname, exe_name='mf2005', model_ws=str(mfdir))
 
     # Create the discretization object
     ztop = model.grid.z0 + model.grid.lz
-- 
2.43.0


From 10264a640ed09dedd6f6fcb8d34e581f4943209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:47 +0000
Subject: [PATCH 60/60] fix: two runs that start at the same time can get the
 same run directory

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index eb8022c..32c2ff0 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -556,7 +556,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
                 "change the overwrite flag ('overwrite_old_output') "
                 "in the config file or run hyvr with --overwrite.")
     else:
-        run['rundir'].mkdir(parents=True, exist_ok=True)
+        run['rundir'].mkdir(parents=True)
 
     backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
     with open(backup_file, 'w', encoding='utf-8') as f:
-- 
2.43.0

