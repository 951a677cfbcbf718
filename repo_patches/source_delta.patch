From 567987220e7051c3f41b385e159772e8bb5cd859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 01/46] fix: convert the input type along with the array in the
 3D median filters

float64 (and other) input was converted to float32 but still processed by the
uint16 kernel; Fortran ordered input was written back in the wrong order.
---
 source/tomopy/misc/corr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 06cc0ae..4bcd24b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -385,7 +385,8 @@ def median_filter3d(arr, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
-    out = np.empty_like(arr)
+        input_type = arr.dtype
+    out = np.empty_like(arr, order="C")
     dif = 0.0  # set to 0 to avoid selective filtering
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
@@ -447,6 +448,7 @@ def remove_outlier3d(arr, dif, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
+        input_type = arr.dtype
     out = np.copy(arr, order="C")
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
-- 
2.43.0


From 17e40141ab916a22f1ccdca9b16b72997f01ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:32 +0000
Subject: [PATCH 02/46] fix: sobel_filter and remove_outlier1d use tuple
 indices and scipy.ndimage

Indexing with a list of slices raises, and sobel_filter referred to a name
that is not defined; the errors were swallowed by the thread pool and
uninitialized memory was returned.
---
 source/tomopy/misc/corr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 4bcd24b..8b2e635 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -501,7 +501,11 @@ def sobel_filter(arr, axis=0, ncore=None):
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(filters.sobel, arr[slc], output=out[slc])
+            e.submit(
+                scipy.ndimage.sobel,
+                arr[tuple(slc)],
+                output=out[tuple(slc)],
+            )
     return out
 
 
@@ -659,9 +663,9 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
             slc[lar_axis] = chnk_slices[i]
             e.submit(
                 scipy.ndimage.median_filter,
-                arr[slc],
+                arr[tuple(slc)],
                 size=filt_size,
-                output=tmp[slc],
+                output=tmp[tuple(slc)],
                 mode="mirror",
             )
 
-- 
2.43.0


From fc903b72c34b1201e6314bacebc73608ee314315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:11 +0000
Subject: [PATCH 03/46] fix: remove_ring filters rec into a separate or strided
 out array

With out given, rec was ignored and whatever out held was filtered; arrays that
are not C contiguous were handed to the C routine by their base pointer.
---
 source/tomopy/misc/corr.py        | 2 ++
 source/tomopy/util/extern/misc.py | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8b2e635..431c983 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -814,6 +814,8 @@ def remove_ring(
         out = rec.copy()
     else:
         out = dtype.as_float32(out)
+        if out is not rec:
+            out[:] = rec
 
     dz, dy, dx = rec.shape
 
diff --git a/source/tomopy/util/extern/misc.py b/source/tomopy/util/extern/misc.py
index 34fd972..7a7fb9e 100644
--- a/source/tomopy/util/extern/misc.py
+++ b/source/tomopy/util/extern/misc.py
@@ -49,6 +49,8 @@
 Module for external library wrappers.
 """
 
+import numpy as np
+
 import tomopy.util.dtype as dtype
 from . import c_shared_lib
 
@@ -91,11 +93,13 @@ def c_sample(
 
 
 def c_remove_ring(rec, *args):
+    # REC object must be contiguous for c function to work
+    contiguous_rec = np.require(rec, requirements="AC")
     istart = 0
     iend = rec.shape[0]
     LIB_TOMOPY_MISC.remove_ring.restype = dtype.as_c_void_p()
-    return LIB_TOMOPY_MISC.remove_ring(
-        dtype.as_c_float_p(rec),
+    LIB_TOMOPY_MISC.remove_ring(
+        dtype.as_c_float_p(contiguous_rec),
         dtype.as_c_float(args[0]),  # center_x
         dtype.as_c_float(args[1]),  # center_y
         dtype.as_c_int(args[2]),  # dx
@@ -110,6 +114,7 @@ def c_remove_ring(rec, *args):
         dtype.as_c_int(istart),  # istart
         dtype.as_c_int(iend),  # iend
     )
+    rec[:] = contiguous_rec[:]
 
 
 def c_median_filt3d_float32(
-- 
2.43.0


From 8e76190f6d1d897184b8dcbe2adf45c6167a9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:35 +0000
Subject: [PATCH 04/46] fix: pass C contiguous arrays to the projectors and
 reconstruction routines

Strided or Fortran ordered angles, centers, objects, block orders and
regularization data were read by the C code as if they were contiguous.
---
 source/tomopy/recon/algorithm.py | 11 ++++++++---
 source/tomopy/recon/vector.py    | 12 ++++++------
 source/tomopy/sim/project.py     | 20 ++++++++++----------
 3 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2a73132..b88b914 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -296,8 +296,13 @@ def recon(tomo,
 
                 # Make sure reg_par and filter_par is float32.
                 if key == 'reg_par' or key == 'filter_par' or key == 'reg_data':
-                    if not isinstance(kwargs[key], np.float32):
-                        kwargs[key] = np.array(value, dtype='float32')
+                    kwargs[key] = np.require(value, dtype=np.float32,
+                                             requirements="AC")
+
+                # The C functions read the block order as contiguous int.
+                if key == 'ind_block':
+                    kwargs[key] = np.require(value, dtype=np.int32,
+                                             requirements="AC")
 
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
@@ -469,7 +474,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
 
 
 def _get_algorithm_args(theta):
-    theta = dtype.as_float32(theta)
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
     return (theta, )
 
 
diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index 5775dcc..ea5b8b4 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -68,7 +68,7 @@ __all__ = ['vector', 'vector2', 'vector3']
 
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
-    theta = dtype.as_float32(theta)
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
@@ -87,8 +87,8 @@ def vector(tomo, theta, center=None, num_iter=1):
 def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1, axis1=1, axis2=2):
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
+    theta1 = np.require(theta1, dtype=np.float32, requirements="AC")
+    theta2 = np.require(theta2, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
@@ -111,9 +111,9 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
     tomo3 = dtype.as_float32(tomo3)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
-    theta3 = dtype.as_float32(theta3)
+    theta1 = np.require(theta1, dtype=np.float32, requirements="AC")
+    theta2 = np.require(theta2, dtype=np.float32, requirements="AC")
+    theta3 = np.require(theta3, dtype=np.float32, requirements="AC")
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 765051f..ad2604a 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -298,8 +298,8 @@ def project(
     ndarray
         3D tomographic data.
     """
-    obj = dtype.as_float32(obj)
-    theta = dtype.as_float32(theta)
+    obj = np.require(obj, dtype=np.float32, requirements="AC")
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = obj.shape
@@ -367,9 +367,9 @@ def project2(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    theta = dtype.as_float32(theta)
+    objx = np.require(objx, dtype=np.float32, requirements="AC")
+    objy = np.require(objy, dtype=np.float32, requirements="AC")
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -433,10 +433,10 @@ def project3(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    objz = dtype.as_float32(objz)
-    theta = dtype.as_float32(theta)
+    objx = np.require(objx, dtype=np.float32, requirements="AC")
+    objy = np.require(objy, dtype=np.float32, requirements="AC")
+    objz = np.require(objz, dtype=np.float32, requirements="AC")
+    theta = np.require(theta, dtype=np.float32, requirements="AC")
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -472,7 +472,7 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
-    return dtype.as_float32(center)
+    return np.require(center, dtype=np.float32, requirements="AC")
 
 
 def fan_to_para(tomo, dist, geom):
-- 
2.43.0


From 22fd1a95f38a3a082c3773d87157e6e3e9fd7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:35 +0000
Subject: [PATCH 05/46] fix: recon does not change the table of allowed
 keywords

The shallow copy let every accelerated call append to the module level lists.
---
 source/tomopy/recon/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index b88b914..1727a9a 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -273,7 +273,7 @@ def recon(tomo,
 
     if isinstance(algorithm, str):
 
-        allowed_kwargs = copy.copy(allowed_recon_kwargs)
+        allowed_kwargs = copy.deepcopy(allowed_recon_kwargs)
         if algorithm in allowed_accelerated_kwargs:
             allowed_kwargs[algorithm] += allowed_accelerated_kwargs[algorithm]
 
-- 
2.43.0


From beb14a758c2dc91e21afdf09c7a6b141fc31c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:15 +0000
Subject: [PATCH 06/46] fix: restore TOMOPY_PYTHON_THREADS when a
 reconstruction fails

---
 source/tomopy/recon/algorithm.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 1727a9a..745c0ca 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -49,6 +49,7 @@
 Module for reconstruction algorithms.
 """
 import concurrent.futures as cf
+import contextlib
 import copy
 import logging
 import warnings
@@ -394,6 +395,20 @@ def _run_accel_algorithm(idx, _func, tomo, center, recon, *_args, **_kwargs):
     return recon
 
 
+@contextlib.contextmanager
+def _keep_python_threads():
+    """Leave TOMOPY_PYTHON_THREADS as it was, also when an error is raised."""
+    pythreads = os.environ.get("TOMOPY_PYTHON_THREADS")
+    try:
+        yield
+    finally:
+        if pythreads is not None:
+            os.environ["TOMOPY_PYTHON_THREADS"] = pythreads
+        else:
+            os.environ.pop("TOMOPY_PYTHON_THREADS", None)
+
+
+@_keep_python_threads()
 def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     axis_size = recon.shape[0]
     ncore, slcs = mproc.get_ncore_slices(axis_size, ncore, nchunk)
-- 
2.43.0


From 78f8ed51cdb900829b858b8a11dcf40ccc7170cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:15 +0000
Subject: [PATCH 07/46] fix: give every chunk of slices its own part of
 reg_data

Each chunk read the regularization data of the first slices, and the default
data had the wrong size for grids other than the detector width.
---
 source/tomopy/recon/algorithm.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 745c0ca..b8f8c22 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -308,6 +308,14 @@ def recon(tomo,
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
             kwargs.setdefault(kw, kwargs_defaults[kw])
+        if algorithm == 'tikh':
+            reg_shape = (tomo.shape[0], int(kwargs['num_gridx']),
+                         int(kwargs['num_gridy']))
+            if kwargs['reg_data'] is None:
+                kwargs['reg_data'] = np.zeros(reg_shape, dtype='float32')
+            elif kwargs['reg_data'].shape != reg_shape:
+                raise ValueError(
+                    'reg_data must have the shape of the reconstruction.')
 
     elif hasattr(algorithm, '__call__'):
         # Set kwarg defaults.
@@ -408,6 +416,13 @@ def _keep_python_threads():
             os.environ.pop("TOMOPY_PYTHON_THREADS", None)
 
 
+def _slice_kwargs(kwargs, slc):
+    """Return kwargs with the per-slice regularization data cut to slc."""
+    if 'reg_data' in kwargs:
+        kwargs = dict(kwargs, reg_data=kwargs['reg_data'][slc])
+    return kwargs
+
+
 @_keep_python_threads()
 def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     axis_size = recon.shape[0]
@@ -447,7 +462,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args, **kwargs)
+            algorithm(tomo[slc], center[slc], recon[slc], *args,
+                      **_slice_kwargs(kwargs, slc))
     else:
         # execute recon on ncore processes. Accelerated methods have internal
         # thread-pool and NVIDIA NPP library does not support simulatenously
@@ -459,7 +475,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
                     futures.append(
                         e.submit(_run_accel_algorithm, idx, algorithm,
                                  tomo[slc], center[slc], recon[slc], *args,
-                                 **kwargs))
+                                 **_slice_kwargs(kwargs, slc)))
 
             for f, slc in zip(futures, use_slcs):
                 if f.exception() is not None:
@@ -470,7 +486,8 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
             with cf.ThreadPoolExecutor(ncore) as e:
                 futures = [
                     e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **kwargs) for slc in use_slcs
+                             *args, **_slice_kwargs(kwargs, slc))
+                    for slc in use_slcs
                 ]
             done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
             for f in done:
@@ -502,7 +519,8 @@ def _get_algorithm_kwargs(shape):
         'filter_par': np.array([0.5, 8], dtype='float32'),
         'num_iter': dtype.as_int32(1),
         'reg_par': np.ones(10, dtype='float32'),
-        'reg_data': np.zeros([dy, dx, dx], dtype='float32'),
+        # if None, zeros of the shape of the reconstruction
+        'reg_data': None,
         'num_block': dtype.as_int32(1),
         'ind_block': np.arange(0, dt, dtype=np.int32),
         'options': {},
-- 
2.43.0


From af3b16126e8e9e25c047c9a9ce83dae966b090d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:15 +0000
Subject: [PATCH 08/46] fix: reject block arguments and parameters that make
 the C code crash

num_block=0 divided by zero; a short or out of range ind_block and a single
reg_par for the methods that take two were read out of bounds.
---
 source/tomopy/recon/algorithm.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index b8f8c22..6017f52 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -316,6 +316,19 @@ def recon(tomo,
             elif kwargs['reg_data'].shape != reg_shape:
                 raise ValueError(
                     'reg_data must have the shape of the reconstruction.')
+        if 'num_block' in kwargs:
+            if kwargs['num_block'] < 1:
+                raise ValueError('num_block must be positive.')
+            ind_block = kwargs['ind_block']
+            if (ind_block.shape != (tomo.shape[1], ) or
+                    (ind_block < 0).any() or
+                    (ind_block >= tomo.shape[1]).any()):
+                raise ValueError(
+                    'ind_block must list one projection index for every '
+                    'projection.')
+        if algorithm in ('ospml_hybrid', 'pml_hybrid', 'tikh'):
+            if kwargs['reg_par'].size < 2:
+                raise ValueError('reg_par must hold two parameters.')
 
     elif hasattr(algorithm, '__call__'):
         # Set kwarg defaults.
-- 
2.43.0


From 4ffcfbf2058b0d4f59eab441f755c53eb104804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:15 +0000
Subject: [PATCH 09/46] fix: reject init_recon of the wrong shape instead of
 writing out of bounds

---
 source/tomopy/recon/algorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 6017f52..ef80c4b 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -388,6 +388,9 @@ def _init_recon(shape, init_recon, val=1e-6, sharedmem=True, empty=False):
                 recon = np.zeros(shape, dtype=np.float32)
     else:
         recon = np.require(init_recon, dtype=np.float32, requirements="AC")
+        if recon.shape != tuple(int(n) for n in shape):
+            raise ValueError(
+                'init_recon must have the shape of the reconstruction.')
         if sharedmem:
             recon = dtype.as_sharedmem(recon)
     return recon
-- 
2.43.0


From 882e9dba7d118ce4dbaedc8063c57594252ad760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 10/46] fix: nchunk=0 in recon and project, whose one center is
 a scalar

---
 source/tomopy/util/dtype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 510a5c8..6566b02 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -120,6 +120,7 @@ def as_uint8(arr):
 
 def as_c_float_p(arr):
     c_float_p = ctypes.POINTER(ctypes.c_float)
+    arr = as_ndarray(arr, np.float32)
     return arr.ctypes.data_as(c_float_p)
 
 
-- 
2.43.0


From 325386323b6c4b4ab50263ee70736c020b847bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 11/46] fix: vector2 and vector3 use the angles and centers of
 every tilt series

The second and third data sets were processed with the geometry of the first.
---
 source/libtomo/recon/vector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index daa8b94..96dc917 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -353,7 +353,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -366,7 +366,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -623,7 +623,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -636,7 +636,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -729,7 +729,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center3[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -742,7 +742,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta3[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
-- 
2.43.0


From 86b224ffdd71cc276e2d4e4d2e72421158cdf3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:34 +0000
Subject: [PATCH 12/46] fix: honour per-slice centers in project, art and
 gridrec

project, project2, project3 and art applied the first center of a chunk to all
of its slices and gridrec the first center of each pair.
---
 source/tomopy/util/extern/__init__.py | 12 +++++++++++
 source/tomopy/util/extern/gridrec.py  |  7 +++++++
 source/tomopy/util/extern/recon.py    | 30 +++++++++++++++++++++++++++
 3 files changed, 49 insertions(+)

diff --git a/source/tomopy/util/extern/__init__.py b/source/tomopy/util/extern/__init__.py
index 48f3da3..92d3d06 100644
--- a/source/tomopy/util/extern/__init__.py
+++ b/source/tomopy/util/extern/__init__.py
@@ -51,6 +51,8 @@ import ctypes.util
 import os
 import warnings
 
+import numpy as np
+
 
 def c_shared_lib(lib_name, error=True):
     """Get the path and import the C-shared library.
@@ -87,6 +89,16 @@ def c_shared_lib(lib_name, error=True):
     return None
 
 
+def _equal_center_slices(center):
+    """Return the slices that split center into runs of one value."""
+    center = np.atleast_1d(center)
+    edges = np.flatnonzero(center[1:] != center[:-1]) + 1
+    return [
+        slice(start, stop)
+        for start, stop in zip([0, *edges], [*edges, center.size])
+    ]
+
+
 def _missing_library(function):
     raise ModuleNotFoundError(
         f"The {function} algorithm is unavailable because its shared library"
diff --git a/source/tomopy/util/extern/gridrec.py b/source/tomopy/util/extern/gridrec.py
index 08e4755..c2c27aa 100644
--- a/source/tomopy/util/extern/gridrec.py
+++ b/source/tomopy/util/extern/gridrec.py
@@ -51,6 +51,7 @@ Module for external library wrappers.
 """
 import tomopy.util.dtype as dtype
 from . import c_shared_lib
+from . import _equal_center_slices
 
 __author__ = "Doga Gursoy"
 __copyright__ = "Copyright (c) 2015, UChicago Argonne, LLC."
@@ -62,6 +63,12 @@ LIB_TOMOPY_GRIDREC = c_shared_lib("tomo-gridrec")
 
 
 def c_gridrec(tomo, center, recon, theta, **kwargs):
+    # The C function uses one center for each pair of slices.
+    runs = _equal_center_slices(center)
+    if len(runs) > 1:
+        for slc in runs:
+            c_gridrec(tomo[slc], center[slc], recon[slc], theta, **kwargs)
+        return
 
     if len(tomo.shape) == 2:
         # no y-axis (only one slice)
diff --git a/source/tomopy/util/extern/recon.py b/source/tomopy/util/extern/recon.py
index 656b3c8..21467a3 100644
--- a/source/tomopy/util/extern/recon.py
+++ b/source/tomopy/util/extern/recon.py
@@ -53,6 +53,7 @@ import numpy as np
 
 import tomopy.util.dtype as dtype
 from . import c_shared_lib
+from . import _equal_center_slices
 from .accel import c_accel_mlem
 from .accel import c_accel_sirt
 
@@ -84,6 +85,13 @@ LIB_TOMOPY_RECON = c_shared_lib("tomo-recon")
 
 
 def c_project(obj, center, tomo, theta):
+    # The C function uses the first center for all of its slices.
+    runs = _equal_center_slices(center)
+    if len(runs) > 1:
+        for slc in runs:
+            c_project(obj[slc], center[slc], tomo[slc], theta)
+        return
+
     # TODO: we should fix this elsewhere...
     # TOMO object must be contiguous for c function to work
 
@@ -118,6 +126,13 @@ def c_project(obj, center, tomo, theta):
 
 
 def c_project2(objx, objy, center, tomo, theta):
+    # The C function uses the first center for all of its slices.
+    runs = _equal_center_slices(center)
+    if len(runs) > 1:
+        for slc in runs:
+            c_project2(objx[slc], objy[slc], center[slc], tomo[slc], theta)
+        return
+
     # TODO: we should fix this elsewhere...
     # TOMO object must be contiguous for c function to work
 
@@ -153,6 +168,14 @@ def c_project2(objx, objy, center, tomo, theta):
 
 
 def c_project3(objx, objy, objz, center, tomo, theta, axis):
+    # The C function uses the first center for all of its slices.
+    runs = _equal_center_slices(center)
+    if len(runs) > 1:
+        for slc in runs:
+            c_project3(objx[slc], objy[slc], objz[slc], center[slc], tomo[slc],
+                       theta, axis)
+        return
+
     # TODO: we should fix this elsewhere...
     # TOMO object must be contiguous for c function to work
 
@@ -190,6 +213,13 @@ def c_project3(objx, objy, objz, center, tomo, theta, axis):
 
 
 def c_art(tomo, center, recon, theta, **kwargs):
+    # The C function uses the first center for all of its slices.
+    runs = _equal_center_slices(center)
+    if len(runs) > 1:
+        for slc in runs:
+            c_art(tomo[slc], center[slc], recon[slc], theta, **kwargs)
+        return
+
     if len(tomo.shape) == 2:
         # no y-axis (only one slice)
         dy = 1
-- 
2.43.0


From 65eeddd2c8c3650c5fef802cc3596b4889ae4e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:27 +0000
Subject: [PATCH 13/46] fix: gridrec reads its correction table out of bounds

The table had one element too few for grids as wide as the padded data (any
power of two from 16), so the last row and column held garbage; larger grids
were read and written far out of bounds and are rejected now.
---
 source/libtomo/gridrec/gridrec.c | 1144 +++++++++++++++---------------
 source/tomopy/recon/algorithm.py |    7 +
 2 files changed, 580 insertions(+), 571 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index a4cd574..d6d9c54 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -1,571 +1,573 @@
-// Copyright (c) 2015, UChicago Argonne, LLC. All rights reserved.
-
-// Copyright 2015. UChicago Argonne, LLC. This software was produced
-// under U.S. Government contract DE-AC02-06CH11357 for Argonne National
-// Laboratory (ANL), which is operated by UChicago Argonne, LLC for the
-// U.S. Department of Energy. The U.S. Government has rights to use,
-// reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR
-// UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR
-// ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is
-// modified to produce derivative works, such modified software should
-// be clearly marked, so as not to confuse it with the version available
-// from ANL.
-
-// Additionally, redistribution and use in source and binary forms, with
-// or without modification, are permitted provided that the following
-// conditions are met:
-
-//     * Redistributions of source code must retain the above copyright
-//       notice, this list of conditions and the following disclaimer.
-
-//     * Redistributions in binary form must reproduce the above copyright
-//       notice, this list of conditions and the following disclaimer in
-//       the documentation and/or other materials provided with the
-//       distribution.
-
-//     * Neither the name of UChicago Argonne, LLC, Argonne National
-//       Laboratory, ANL, the U.S. Government, nor the names of its
-//       contributors may be used to endorse or promote products derived
-//       from this software without specific prior written permission.
-
-// THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS
-// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
-// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
-// FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago
-// Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
-// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
-// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
-// LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
-// CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
-// LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
-// ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
-// POSSIBILITY OF SUCH DAMAGE.
-
-// Possible speedups:
-//   * Profile code and check adding SIMD to various functions (from OpenMP)
-
-#include <math.h>
-
-#include "libtomo/filters.h"
-#include "libtomo/gridrec.h"
-#include "pal.h"
-
-#ifdef TOMOPY_USE_MKL
-#    include "mkl.h"
-#endif
-#ifdef TOMOPY_USE_FFTW
-// Import pal.h first to import <complex.h> first so fftw uses native complex types
-#    include "fftw3.h"
-#endif
-
-float
-legendre(int n, const float* coefs, float x)
-{
-    // Compute SUM(coefs(k)*P(2*k,x), for k=0,n/2)
-    // where P(j,x) is the jth Legendre polynomial.
-    // x must be between -1 and 1.
-    float penult, last, cur, y, mxlast;
-
-    y      = coefs[0];
-    penult = 1.0;
-    last   = x;
-    for(int j = 2; j <= n; j++)
-    {
-        mxlast = -(x * last);
-        cur    = -(2 * mxlast + penult) + (penult + mxlast) / j;
-        // cur = (x*(2*j-1)*last-(j-1)*penult)/j;
-        if(!(j & 1))  // if j is even
-        {
-            y += cur * coefs[j >> 1];
-        }
-
-        penult = last;
-        last   = cur;
-    }
-    return y;
-}
-
-void
-set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int linv,
-                float* wtbl, float* winv)
-{
-    // Set up lookup tables for convolvent (used in Phase 1 of
-    // do_recon()), and for the final correction factor (used in
-    // Phase 3).
-
-    int         i;
-    float       norm;
-    const float fac   = (float) ltbl / (linv + 0.5);
-    const float polyz = legendre(nt, coefs, 0.);
-
-    wtbl[0] = 1.0;
-    for(i = 1; i <= ltbl; i++)
-    {
-        wtbl[i] = legendre(nt, coefs, (float) i / ltbl) / polyz;
-    }
-
-    // Note the final result at end of Phase 3 contains the factor,
-    // norm^2.  This incorporates the normalization of the 2D
-    // inverse FFT in Phase 2 as well as scale factors involved
-    // in the inverse Fourier transform of the convolvent.
-    norm = sqrt(M_PI / 2 / C / lambda) / 1.2;
-
-    winv[linv] = norm / wtbl[0];
-    __PRAGMA_IVDEP
-    for(i = 1; i <= linv; i++)
-    {
-        // Minus sign for alternate entries
-        // corrects for "natural" data layout
-        // in array H at end of Phase 1.
-        norm           = -norm;
-        winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
-    }
-}
-
-void
-set_trig_tables(int dt, const float* theta, float** sine, float** cose)
-{
-    // Set up tables of sines and cosines.
-    float *s, *c;
-
-    *sine = s = malloc_vector_f(dt);
-    __ASSSUME_64BYTES_ALIGNED(s);
-    *cose = c = malloc_vector_f(dt);
-    __ASSSUME_64BYTES_ALIGNED(c);
-
-    __PRAGMA_SIMD
-    for(int j = 0; j < dt; j++)
-    {
-        s[j] = sinf(theta[j]);
-        c[j] = cosf(theta[j]);
-    }
-}
-
-void
-set_filter_tables(int dt, int pd, float center, filter_func pf, const float* filter_par,
-                  PAL_COMPLEX* A, unsigned char filter2d)
-{
-    // Set up the complex array, filphase[], each element of which
-    // consists of a real filter factor [obtained from the function,
-    // pf(...)], multiplying a complex phase factor (derived from the
-    // parameter, center}.  See Phase 1 comments.
-
-    const float norm  = M_PI / pd / dt;
-    const float rtmp1 = 2 * M_PI * center / pd;
-    int         j, i;
-    int         pd2 = pd / 2;
-    float       x;
-
-    if(!filter2d)
-    {
-        for(j = 0; j < pd2; j++)
-        {
-            A[j] = pf((float) j / pd, j, 0, pd2, filter_par);
-        }
-
-        __PRAGMA_SIMD
-        for(j = 0; j < pd2; j++)
-        {
-            x = j * rtmp1;
-            A[j] *= (cosf(x) - I * sinf(x)) * norm;
-        }
-    }
-    else
-    {
-        for(i = 0; i < dt; i++)
-        {
-            int j0 = i * pd2;
-
-            for(j = 0; j < pd2; j++)
-            {
-                A[j0 + j] = pf((float) j / pd, j, i, pd2, filter_par);
-            }
-
-            __PRAGMA_SIMD
-            for(j = 0; j < pd2; j++)
-            {
-                x = j * rtmp1;
-                A[j0 + j] *= (cosf(x) - I * sinf(x)) * norm;
-            }
-        }
-    }
-}
-
-void
-gridrec(const float* data, int dy, int dt, int dx, const float* center,
-        const float* theta, float* recon, int ngridx, int ngridy, const char* fname,
-        const float* filter_par)
-{
-    if(dy == 0 || dt == 0 || dx == 0)
-        return;
-
-    int    s, p, iu, iv;
-    int    j;
-    float *sine, *cose, *wtbl, *winv;
-
-    float *work, *work2;
-
-    filter_func filter = get_filter(fname);
-
-    const float        C      = 7.0;
-    const float        nt     = 20.0;
-    const float        lambda = 0.99998546;
-    const unsigned int L      = (int) (2 * C / M_PI);
-    const int          ltbl   = 512;
-    int                pdim;
-    PAL_COMPLEX *      sino, *filphase, *filphase_iter = NULL, **H;
-    PAL_COMPLEX **     U_d, **V_d;
-    float *            J_z, *P_z;
-
-    const float coefs[11] = { 0.5767616E+02,  -0.8931343E+02, 0.4167596E+02,
-                              -0.1053599E+02, 0.1662374E+01,  -0.1780527E-00,
-                              0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
-                              -0.1295941E-05, 0.3817796E-07 };
-
-    // Compute pdim = next power of 2 >= dx
-    for(pdim = 16; pdim < dx; pdim *= 2)
-        ;
-
-    const int pdim2 = pdim >> 1;
-    const int M02   = pdim2 - 1;
-    const int M2    = pdim2;
-
-    unsigned char filter2d = filter_is_2d(fname);
-
-    // Allocate storage for various arrays.
-    sino = malloc_vector_c(pdim);
-    if(!filter2d)
-    {
-        filphase      = malloc_vector_c(pdim2);
-        filphase_iter = filphase;
-    }
-    else
-    {
-        filphase = malloc_vector_c(dt * (pdim2));
-    }
-    __ASSSUME_64BYTES_ALIGNED(filphase);
-    H = malloc_matrix_c(pdim, pdim);
-    __ASSSUME_64BYTES_ALIGNED(H);
-    wtbl = malloc_vector_f(ltbl + 1);
-    __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim - 1);
-    __ASSSUME_64BYTES_ALIGNED(winv);
-    J_z = malloc_vector_f(pdim2 * dt);
-    __ASSSUME_64BYTES_ALIGNED(J_z);
-    P_z = malloc_vector_f(pdim2 * dt);
-    __ASSSUME_64BYTES_ALIGNED(P_z);
-    U_d = malloc_matrix_c(dt, pdim);
-    __ASSSUME_64BYTES_ALIGNED(U_d);
-    V_d = malloc_matrix_c(dt, pdim);
-    __ASSSUME_64BYTES_ALIGNED(V_d);
-    work = malloc_vector_f(L + 1);
-    __ASSSUME_64BYTES_ALIGNED(work);
-    work2 = malloc_vector_f(L + 1);
-    __ASSSUME_64BYTES_ALIGNED(work2);
-
-    // Set up table of sines and cosines.
-    set_trig_tables(dt, theta, &sine, &cose);
-    __ASSSUME_64BYTES_ALIGNED(sine);
-    __ASSSUME_64BYTES_ALIGNED(cose);
-
-    // Set up PSWF lookup tables.
-    set_pswf_tables(C, nt, lambda, coefs, ltbl, M02, wtbl, winv);
-
-#ifdef TOMOPY_USE_MKL
-    DFTI_DESCRIPTOR_HANDLE reverse_1d;
-    MKL_LONG               length_1d = (MKL_LONG) pdim;
-    DftiCreateDescriptor(&reverse_1d, DFTI_SINGLE, DFTI_COMPLEX, 1, length_1d);
-    DftiSetValue(reverse_1d, DFTI_THREAD_LIMIT,
-                 1);  // FFT should run sequentially to avoid oversubscription
-    DftiCommitDescriptor(reverse_1d);
-    DFTI_DESCRIPTOR_HANDLE forward_2d;
-    MKL_LONG               length_2d[2] = { (MKL_LONG) pdim, (MKL_LONG) pdim };
-    DftiCreateDescriptor(&forward_2d, DFTI_SINGLE, DFTI_COMPLEX, 2, length_2d);
-    DftiSetValue(forward_2d, DFTI_THREAD_LIMIT,
-                 1);  // FFT should run sequentially to avoid oversubscription
-    DftiCommitDescriptor(forward_2d);
-#endif
-#ifdef TOMOPY_USE_FFTW
-    fftwf_make_planner_thread_safe();
-    fftwf_plan reverse_1d;
-    reverse_1d = fftwf_plan_dft_1d(pdim, sino, sino, FFTW_BACKWARD, FFTW_ESTIMATE);
-    fftwf_plan forward_2d;
-    forward_2d = fftwf_plan_dft_2d(pdim, pdim, H[0], H[0], FFTW_FORWARD, FFTW_ESTIMATE);
-#endif
-
-    for(p = 0; p < dt; p++)
-    {
-        for(j = 1; j < pdim2; j++)
-        {
-            U_d[p][j] = j * cose[p] + M2;
-            V_d[p][j] = j * sine[p] + M2;
-        }
-    }
-
-    float       U, V;
-    const float L2      = (int) (C / M_PI);
-    const float tblspcg = 2 * ltbl / L;
-    int         iul, iuh, ivl, ivh;
-    int         k, k2;
-
-    // For each slice.
-    for(s = 0; s < dy; s += 2)
-    {
-        // Set up table of combined filter-phase factors.
-        set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
-
-        // First clear the array H
-        memset(H[0], 0, pdim * pdim * sizeof(H[0][0]));
-
-        // Loop over the dt projection angles. For each angle, do the following:
-
-        //     1. Copy the real projection data from the two slices into the
-        //      real and imaginary parts of the first dx elements of the
-        //      complex array, sino[].  Set the remaining pdim-dx elements
-        //      to zero (zero-padding).
-
-        //     2. Carry out a (1D) Fourier transform on the complex data.
-        //      This results in transform data that is arranged in
-        //      "wrap-around" order, with non-negative spatial frequencies
-        //      occupying the first half, and negative frequencies the second
-        //      half, of the array, sino[].
-
-        //     3. Multiply each element of the 1-D transform by a complex,
-        //      frequency dependent factor, filphase[].  These factors were
-        //      precomputed as part of recofour1((float*)sino-1,pdim,1);n_init()
-        //      and combine the tomographic filtering with a phase factor which
-        //      shifts the origin in configuration space to the projection of
-        //      the rotation axis as defined by the parameter, "center".  If a
-        //      region of interest (ROI) centered on a different origin has
-        //      been specified [(X0,Y0)!=(0,0)], multiplication by an
-        //      additional phase factor, dependent on angle as well as
-        //      frequency, is required.
-
-        //     4. For each data element, find the Cartesian coordinates,
-        //      <U,V>, of the corresponding point in the 2D frequency plane,
-        //      in  units of the spacing in the MxM rectangular grid placed
-        //      thereon; then calculate the upper and lower limits in each
-        //      coordinate direction of the integer coordinates for the
-        //      grid points contained in an LxL box centered on <U,V>.
-        //      Using a precomputed table of the (1-D) convolving function,
-        //      W, calculate the contribution of this data element to the
-        //      (2-D) convolvent (the 2_D convolvent is the product of
-        //      1_D convolvents in the X and Y directions) at each of these
-        //      grid points, and update the complex 2D array H accordingly.
-
-        // At the end of Phase 1, the array H[][] contains data arranged in
-        // "natural", rather than wrap-around order -- that is, the origin in
-        // the spatial frequency plane is situated in the middle, rather than
-        // at the beginning, of the array, H[][].  This simplifies the code
-        // for carrying out the convolution (step 4 above), but necessitates
-        // an additional correction -- See Phase 3 below.
-
-        PAL_COMPLEX Cdata1, Cdata2;
-
-        // For each projection
-        for(p = 0; p < dt; p++)
-        {
-            float              sine_p = sine[p], cose_p = cose[p];
-            const unsigned int j0 = dx * (p + s * dt), delta_index = dx * dt;
-
-            __PRAGMA_SIMD_VECREMAINDER
-            for(j = 0; j < dx; j++)
-            {
-                // Add data from both slices
-                float              second_sino = 0.0;
-                const unsigned int index       = j + j0;
-                if(__LIKELY((s + 1) < dy))
-                {
-                    second_sino = data[index + delta_index];
-                }
-                sino[j] = data[index] + I * second_sino;
-            }
-
-            __PRAGMA_SIMD_VECREMAINDER
-            for(j = dx; j < pdim; j++)
-            {
-                // Zero fill the rest of the array
-                sino[j] = 0.0;
-            }
-
-#ifdef TOMOPY_USE_MKL
-            DftiComputeBackward(reverse_1d, sino);
-#endif
-#ifdef TOMOPY_USE_FFTW
-            fftwf_execute(reverse_1d);
-#endif
-            if(filter2d)
-                filphase_iter = filphase + pdim2 * p;
-
-            // For each FFT(projection)
-            for(j = 1; j < pdim2; j++)
-            {
-                Cdata1 = filphase_iter[j] * sino[j];
-                Cdata2 = conjf(filphase_iter[j]) * sino[pdim - j];
-
-                U = j * cose_p + M2;
-                V = j * sine_p + M2;
-
-                // Note freq space origin is at (M2,M2), but we
-                // offset the indices U, V, etc. to range from 0 to M-1.
-                iul = ceilf(U - L2);
-                iuh = floorf(U + L2);
-                ivl = ceilf(V - L2);
-                ivh = floorf(V + L2);
-                if(iul < 1)
-                    iul = 1;
-                if(iuh >= pdim)
-                    iuh = pdim - 1;
-                if(ivl < 1)
-                    ivl = 1;
-                if(ivh >= pdim)
-                    ivh = pdim - 1;
-
-                // Note aliasing value (at index=0) is forced to zero.
-                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
-                for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
-                {
-                    work[k] = wtbl[(int) roundf(fabsf(V - iv) * tblspcg)];
-                }
-
-                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
-                for(iu = iul, k = 0; iu <= iuh; iu++, k++)
-                {
-                    work2[k] = wtbl[(int) roundf(fabsf(U - iu) * tblspcg)];
-                }
-
-                __PRAGMA_OMP_SIMD_COLLAPSE
-                for(iu = iul, k2 = 0; iu <= iuh; iu++, k2++)
-                {
-                    for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
-                    {
-                        const float rtmp    = work2[k2];
-                        const float convolv = rtmp * work[k];
-                        H[iu][iv] += convolv * Cdata1;
-                        H[pdim - iu][pdim - iv] += convolv * Cdata2;
-                    }
-                }
-            }
-        }
-
-        // Carry out a 2D inverse FFT on the array H.
-
-        // At the conclusion of this phase, the configuration
-        // space data is arranged in wrap-around order with the origin
-        // (center of reconstructed images) situated at the start of the
-        // array.  The first (resp. second) half of the array contains the
-        // lower, Y<0 (resp, upper Y>0) part of the image, and within each row
-        // of the array, the first (resp. second) half contains data for the
-        // right [X>0] (resp. left [X<0]) half of the image.
-
-#ifdef TOMOPY_USE_MKL
-        DftiComputeForward(forward_2d, H[0]);
-#endif
-#ifdef TOMOPY_USE_FFTW
-        fftwf_execute(forward_2d);
-#endif
-        // Copy the real and imaginary parts of the complex data from H[][],
-        // into the output buffers for the two reconstructed real images,
-        // simultaneously carrying out a final multiplicative correction.
-        // The correction factors are taken from the array, winv[], previously
-        // computed in set_pswf_tables(), and consist logically of three parts,
-        // namely:
-
-        //  1. A positive real factor, corresponding to the reciprocal
-        //     of the inverse Fourier transform, of the convolving
-        //     function, W, and
-
-        //  2. Multiplication by the cell size, (1/D1)^2, in 2D frequency
-        //     space.  This correctly normalizes the 2D inverse FFT carried
-        //     out in Phase 2.  (Note that all quantities are expressed in
-        //     units in which the detector spacing is one.)
-
-        //  3. A sign change for the "odd-numbered" elements (in a
-        //     checkerboard pattern) of the array.  This compensates
-        //     for the fact that the 2-D Fourier transform (Phase 2)
-        //     started with a frequency array in which the zero frequency
-        //     point appears in the middle of the array instead of at
-        //     its start.
-
-        // Only the elements in the square M0xM0 subarray of H[][], centered
-        // about the origin, are utilized.  The other elements are not part of
-        // the actual region being reconstructed and are discarded.  Because of
-        // the wrap-around ordering, the subarray must actually be taken from
-        // the four corners" of the 2D array, H[][] -- See Phase 2 description,
-        // above.
-
-        // The final data corresponds physically to the linear X-ray absorption
-        // coefficient expressed in units of the inverse detector spacing -- to
-        // convert to inverse cm (say), one must divide the data by the detector
-        // spacing in cm.
-
-        int       ustart, vstart, ufin, vfin;
-        const int padx    = (pdim - ngridx) / 2;
-        const int pady    = (pdim - ngridy) / 2;
-        const int offsetx = M02 + 1 - padx;
-        const int offsety = M02 + 1 - pady;
-        const int islc1   = s * ngridx * ngridy;        // index slice 1
-        const int islc2   = (s + 1) * ngridx * ngridy;  // index slice 2
-
-        ustart = pdim - offsety;
-        ufin   = pdim;
-        j      = 0;
-        while(j < ngridy)
-        {
-            for(iu = ustart; iu < ufin; j++, iu++)
-            {
-                const float corrn_u = winv[j + pady];
-                vstart              = pdim - offsetx;
-                vfin                = pdim;
-                k                   = 0;
-                while(k < ngridx)
-                {
-                    __PRAGMA_SIMD
-                    for(iv = vstart; iv < vfin; k++, iv++)
-                    {
-                        const float corrn = corrn_u * winv[k + padx];
-                        recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
-                            corrn * crealf(H[iu][iv]);
-                        if(__LIKELY((s + 1) < dy))
-                        {
-                            recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
-                                corrn * cimagf(H[iu][iv]);
-                        }
-                    }
-                    if(k < ngridx)
-                    {
-                        vstart = 0;
-                        vfin   = ngridx - offsetx;
-                    }
-                }
-            }
-            if(j < ngridy)
-            {
-                ustart = 0;
-                ufin   = ngridy - offsety;
-            }
-        }
-    }
-
-    free_vector_f(sine);
-    free_vector_f(cose);
-    free_vector_c(sino);
-    free_vector_f(wtbl);
-    free_vector_c(filphase);
-    free_vector_f(winv);
-    free_vector_f(work);
-    free_matrix_c(H);
-    free_vector_f(J_z);
-    free_vector_f(P_z);
-    free_matrix_c(U_d);
-    free_matrix_c(V_d);
-#ifdef TOMOPY_USE_MKL
-    DftiFreeDescriptor(&reverse_1d);
-    DftiFreeDescriptor(&forward_2d);
-#endif
-#ifdef TOMOPY_USE_FFTW
-    fftwf_destroy_plan(reverse_1d);
-    fftwf_destroy_plan(forward_2d);
-#endif
-    return;
-}
+// Copyright (c) 2015, UChicago Argonne, LLC. All rights reserved.
+
+// Copyright 2015. UChicago Argonne, LLC. This software was produced
+// under U.S. Government contract DE-AC02-06CH11357 for Argonne National
+// Laboratory (ANL), which is operated by UChicago Argonne, LLC for the
+// U.S. Department of Energy. The U.S. Government has rights to use,
+// reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR
+// UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR
+// ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is
+// modified to produce derivative works, such modified software should
+// be clearly marked, so as not to confuse it with the version available
+// from ANL.
+
+// Additionally, redistribution and use in source and binary forms, with
+// or without modification, are permitted provided that the following
+// conditions are met:
+
+//     * Redistributions of source code must retain the above copyright
+//       notice, this list of conditions and the following disclaimer.
+
+//     * Redistributions in binary form must reproduce the above copyright
+//       notice, this list of conditions and the following disclaimer in
+//       the documentation and/or other materials provided with the
+//       distribution.
+
+//     * Neither the name of UChicago Argonne, LLC, Argonne National
+//       Laboratory, ANL, the U.S. Government, nor the names of its
+//       contributors may be used to endorse or promote products derived
+//       from this software without specific prior written permission.
+
+// THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS
+// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+// FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago
+// Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
+// LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+// CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
+// LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
+// ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+// POSSIBILITY OF SUCH DAMAGE.
+
+// Possible speedups:
+//   * Profile code and check adding SIMD to various functions (from OpenMP)
+
+#include <math.h>
+
+#include "libtomo/filters.h"
+#include "libtomo/gridrec.h"
+#include "pal.h"
+
+#ifdef TOMOPY_USE_MKL
+#    include "mkl.h"
+#endif
+#ifdef TOMOPY_USE_FFTW
+// Import pal.h first to import <complex.h> first so fftw uses native complex types
+#    include "fftw3.h"
+#endif
+
+float
+legendre(int n, const float* coefs, float x)
+{
+    // Compute SUM(coefs(k)*P(2*k,x), for k=0,n/2)
+    // where P(j,x) is the jth Legendre polynomial.
+    // x must be between -1 and 1.
+    float penult, last, cur, y, mxlast;
+
+    y      = coefs[0];
+    penult = 1.0;
+    last   = x;
+    for(int j = 2; j <= n; j++)
+    {
+        mxlast = -(x * last);
+        cur    = -(2 * mxlast + penult) + (penult + mxlast) / j;
+        // cur = (x*(2*j-1)*last-(j-1)*penult)/j;
+        if(!(j & 1))  // if j is even
+        {
+            y += cur * coefs[j >> 1];
+        }
+
+        penult = last;
+        last   = cur;
+    }
+    return y;
+}
+
+void
+set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int linv,
+                float* wtbl, float* winv)
+{
+    // Set up lookup tables for convolvent (used in Phase 1 of
+    // do_recon()), and for the final correction factor (used in
+    // Phase 3).
+
+    int         i;
+    float       norm;
+    const float fac   = (float) ltbl / (linv + 0.5);
+    const float polyz = legendre(nt, coefs, 0.);
+
+    wtbl[0] = 1.0;
+    for(i = 1; i <= ltbl; i++)
+    {
+        wtbl[i] = legendre(nt, coefs, (float) i / ltbl) / polyz;
+    }
+
+    // Note the final result at end of Phase 3 contains the factor,
+    // norm^2.  This incorporates the normalization of the 2D
+    // inverse FFT in Phase 2 as well as scale factors involved
+    // in the inverse Fourier transform of the convolvent.
+    norm = sqrt(M_PI / 2 / C / lambda) / 1.2;
+
+    winv[linv] = norm / wtbl[0];
+    __PRAGMA_IVDEP
+    for(i = 1; i <= linv; i++)
+    {
+        // Minus sign for alternate entries
+        // corrects for "natural" data layout
+        // in array H at end of Phase 1.
+        norm           = -norm;
+        winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
+    }
+}
+
+void
+set_trig_tables(int dt, const float* theta, float** sine, float** cose)
+{
+    // Set up tables of sines and cosines.
+    float *s, *c;
+
+    *sine = s = malloc_vector_f(dt);
+    __ASSSUME_64BYTES_ALIGNED(s);
+    *cose = c = malloc_vector_f(dt);
+    __ASSSUME_64BYTES_ALIGNED(c);
+
+    __PRAGMA_SIMD
+    for(int j = 0; j < dt; j++)
+    {
+        s[j] = sinf(theta[j]);
+        c[j] = cosf(theta[j]);
+    }
+}
+
+void
+set_filter_tables(int dt, int pd, float center, filter_func pf, const float* filter_par,
+                  PAL_COMPLEX* A, unsigned char filter2d)
+{
+    // Set up the complex array, filphase[], each element of which
+    // consists of a real filter factor [obtained from the function,
+    // pf(...)], multiplying a complex phase factor (derived from the
+    // parameter, center}.  See Phase 1 comments.
+
+    const float norm  = M_PI / pd / dt;
+    const float rtmp1 = 2 * M_PI * center / pd;
+    int         j, i;
+    int         pd2 = pd / 2;
+    float       x;
+
+    if(!filter2d)
+    {
+        for(j = 0; j < pd2; j++)
+        {
+            A[j] = pf((float) j / pd, j, 0, pd2, filter_par);
+        }
+
+        __PRAGMA_SIMD
+        for(j = 0; j < pd2; j++)
+        {
+            x = j * rtmp1;
+            A[j] *= (cosf(x) - I * sinf(x)) * norm;
+        }
+    }
+    else
+    {
+        for(i = 0; i < dt; i++)
+        {
+            int j0 = i * pd2;
+
+            for(j = 0; j < pd2; j++)
+            {
+                A[j0 + j] = pf((float) j / pd, j, i, pd2, filter_par);
+            }
+
+            __PRAGMA_SIMD
+            for(j = 0; j < pd2; j++)
+            {
+                x = j * rtmp1;
+                A[j0 + j] *= (cosf(x) - I * sinf(x)) * norm;
+            }
+        }
+    }
+}
+
+void
+gridrec(const float* data, int dy, int dt, int dx, const float* center,
+        const float* theta, float* recon, int ngridx, int ngridy, const char* fname,
+        const float* filter_par)
+{
+    if(dy == 0 || dt == 0 || dx == 0)
+        return;
+
+    int    s, p, iu, iv;
+    int    j;
+    float *sine, *cose, *wtbl, *winv;
+
+    float *work, *work2;
+
+    filter_func filter = get_filter(fname);
+
+    const float        C      = 7.0;
+    const float        nt     = 20.0;
+    const float        lambda = 0.99998546;
+    const unsigned int L      = (int) (2 * C / M_PI);
+    const int          ltbl   = 512;
+    int                pdim;
+    PAL_COMPLEX *      sino, *filphase, *filphase_iter = NULL, **H;
+    PAL_COMPLEX **     U_d, **V_d;
+    float *            J_z, *P_z;
+
+    const float coefs[11] = { 0.5767616E+02,  -0.8931343E+02, 0.4167596E+02,
+                              -0.1053599E+02, 0.1662374E+01,  -0.1780527E-00,
+                              0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
+                              -0.1295941E-05, 0.3817796E-07 };
+
+    // Compute pdim = next power of 2 >= dx
+    for(pdim = 16; pdim < dx; pdim *= 2)
+        ;
+
+    const int pdim2 = pdim >> 1;
+    const int M02   = pdim2 - 1;
+    const int M2    = pdim2;
+
+    unsigned char filter2d = filter_is_2d(fname);
+
+    // Allocate storage for various arrays.
+    sino = malloc_vector_c(pdim);
+    if(!filter2d)
+    {
+        filphase      = malloc_vector_c(pdim2);
+        filphase_iter = filphase;
+    }
+    else
+    {
+        filphase = malloc_vector_c(dt * (pdim2));
+    }
+    __ASSSUME_64BYTES_ALIGNED(filphase);
+    H = malloc_matrix_c(pdim, pdim);
+    __ASSSUME_64BYTES_ALIGNED(H);
+    wtbl = malloc_vector_f(ltbl + 1);
+    __ASSSUME_64BYTES_ALIGNED(wtbl);
+    winv = malloc_vector_f(pdim);
+    __ASSSUME_64BYTES_ALIGNED(winv);
+    J_z = malloc_vector_f(pdim2 * dt);
+    __ASSSUME_64BYTES_ALIGNED(J_z);
+    P_z = malloc_vector_f(pdim2 * dt);
+    __ASSSUME_64BYTES_ALIGNED(P_z);
+    U_d = malloc_matrix_c(dt, pdim);
+    __ASSSUME_64BYTES_ALIGNED(U_d);
+    V_d = malloc_matrix_c(dt, pdim);
+    __ASSSUME_64BYTES_ALIGNED(V_d);
+    work = malloc_vector_f(L + 1);
+    __ASSSUME_64BYTES_ALIGNED(work);
+    work2 = malloc_vector_f(L + 1);
+    __ASSSUME_64BYTES_ALIGNED(work2);
+
+    // Set up table of sines and cosines.
+    set_trig_tables(dt, theta, &sine, &cose);
+    __ASSSUME_64BYTES_ALIGNED(sine);
+    __ASSSUME_64BYTES_ALIGNED(cose);
+
+    // Set up PSWF lookup tables.
+    set_pswf_tables(C, nt, lambda, coefs, ltbl, M02, wtbl, winv);
+    // The table is one short of a grid of pdim pixels: extend it.
+    winv[pdim - 1] = -winv[pdim - 2];
+
+#ifdef TOMOPY_USE_MKL
+    DFTI_DESCRIPTOR_HANDLE reverse_1d;
+    MKL_LONG               length_1d = (MKL_LONG) pdim;
+    DftiCreateDescriptor(&reverse_1d, DFTI_SINGLE, DFTI_COMPLEX, 1, length_1d);
+    DftiSetValue(reverse_1d, DFTI_THREAD_LIMIT,
+                 1);  // FFT should run sequentially to avoid oversubscription
+    DftiCommitDescriptor(reverse_1d);
+    DFTI_DESCRIPTOR_HANDLE forward_2d;
+    MKL_LONG               length_2d[2] = { (MKL_LONG) pdim, (MKL_LONG) pdim };
+    DftiCreateDescriptor(&forward_2d, DFTI_SINGLE, DFTI_COMPLEX, 2, length_2d);
+    DftiSetValue(forward_2d, DFTI_THREAD_LIMIT,
+                 1);  // FFT should run sequentially to avoid oversubscription
+    DftiCommitDescriptor(forward_2d);
+#endif
+#ifdef TOMOPY_USE_FFTW
+    fftwf_make_planner_thread_safe();
+    fftwf_plan reverse_1d;
+    reverse_1d = fftwf_plan_dft_1d(pdim, sino, sino, FFTW_BACKWARD, FFTW_ESTIMATE);
+    fftwf_plan forward_2d;
+    forward_2d = fftwf_plan_dft_2d(pdim, pdim, H[0], H[0], FFTW_FORWARD, FFTW_ESTIMATE);
+#endif
+
+    for(p = 0; p < dt; p++)
+    {
+        for(j = 1; j < pdim2; j++)
+        {
+            U_d[p][j] = j * cose[p] + M2;
+            V_d[p][j] = j * sine[p] + M2;
+        }
+    }
+
+    float       U, V;
+    const float L2      = (int) (C / M_PI);
+    const float tblspcg = 2 * ltbl / L;
+    int         iul, iuh, ivl, ivh;
+    int         k, k2;
+
+    // For each slice.
+    for(s = 0; s < dy; s += 2)
+    {
+        // Set up table of combined filter-phase factors.
+        set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
+
+        // First clear the array H
+        memset(H[0], 0, pdim * pdim * sizeof(H[0][0]));
+
+        // Loop over the dt projection angles. For each angle, do the following:
+
+        //     1. Copy the real projection data from the two slices into the
+        //      real and imaginary parts of the first dx elements of the
+        //      complex array, sino[].  Set the remaining pdim-dx elements
+        //      to zero (zero-padding).
+
+        //     2. Carry out a (1D) Fourier transform on the complex data.
+        //      This results in transform data that is arranged in
+        //      "wrap-around" order, with non-negative spatial frequencies
+        //      occupying the first half, and negative frequencies the second
+        //      half, of the array, sino[].
+
+        //     3. Multiply each element of the 1-D transform by a complex,
+        //      frequency dependent factor, filphase[].  These factors were
+        //      precomputed as part of recofour1((float*)sino-1,pdim,1);n_init()
+        //      and combine the tomographic filtering with a phase factor which
+        //      shifts the origin in configuration space to the projection of
+        //      the rotation axis as defined by the parameter, "center".  If a
+        //      region of interest (ROI) centered on a different origin has
+        //      been specified [(X0,Y0)!=(0,0)], multiplication by an
+        //      additional phase factor, dependent on angle as well as
+        //      frequency, is required.
+
+        //     4. For each data element, find the Cartesian coordinates,
+        //      <U,V>, of the corresponding point in the 2D frequency plane,
+        //      in  units of the spacing in the MxM rectangular grid placed
+        //      thereon; then calculate the upper and lower limits in each
+        //      coordinate direction of the integer coordinates for the
+        //      grid points contained in an LxL box centered on <U,V>.
+        //      Using a precomputed table of the (1-D) convolving function,
+        //      W, calculate the contribution of this data element to the
+        //      (2-D) convolvent (the 2_D convolvent is the product of
+        //      1_D convolvents in the X and Y directions) at each of these
+        //      grid points, and update the complex 2D array H accordingly.
+
+        // At the end of Phase 1, the array H[][] contains data arranged in
+        // "natural", rather than wrap-around order -- that is, the origin in
+        // the spatial frequency plane is situated in the middle, rather than
+        // at the beginning, of the array, H[][].  This simplifies the code
+        // for carrying out the convolution (step 4 above), but necessitates
+        // an additional correction -- See Phase 3 below.
+
+        PAL_COMPLEX Cdata1, Cdata2;
+
+        // For each projection
+        for(p = 0; p < dt; p++)
+        {
+            float              sine_p = sine[p], cose_p = cose[p];
+            const unsigned int j0 = dx * (p + s * dt), delta_index = dx * dt;
+
+            __PRAGMA_SIMD_VECREMAINDER
+            for(j = 0; j < dx; j++)
+            {
+                // Add data from both slices
+                float              second_sino = 0.0;
+                const unsigned int index       = j + j0;
+                if(__LIKELY((s + 1) < dy))
+                {
+                    second_sino = data[index + delta_index];
+                }
+                sino[j] = data[index] + I * second_sino;
+            }
+
+            __PRAGMA_SIMD_VECREMAINDER
+            for(j = dx; j < pdim; j++)
+            {
+                // Zero fill the rest of the array
+                sino[j] = 0.0;
+            }
+
+#ifdef TOMOPY_USE_MKL
+            DftiComputeBackward(reverse_1d, sino);
+#endif
+#ifdef TOMOPY_USE_FFTW
+            fftwf_execute(reverse_1d);
+#endif
+            if(filter2d)
+                filphase_iter = filphase + pdim2 * p;
+
+            // For each FFT(projection)
+            for(j = 1; j < pdim2; j++)
+            {
+                Cdata1 = filphase_iter[j] * sino[j];
+                Cdata2 = conjf(filphase_iter[j]) * sino[pdim - j];
+
+                U = j * cose_p + M2;
+                V = j * sine_p + M2;
+
+                // Note freq space origin is at (M2,M2), but we
+                // offset the indices U, V, etc. to range from 0 to M-1.
+                iul = ceilf(U - L2);
+                iuh = floorf(U + L2);
+                ivl = ceilf(V - L2);
+                ivh = floorf(V + L2);
+                if(iul < 1)
+                    iul = 1;
+                if(iuh >= pdim)
+                    iuh = pdim - 1;
+                if(ivl < 1)
+                    ivl = 1;
+                if(ivh >= pdim)
+                    ivh = pdim - 1;
+
+                // Note aliasing value (at index=0) is forced to zero.
+                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
+                for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
+                {
+                    work[k] = wtbl[(int) roundf(fabsf(V - iv) * tblspcg)];
+                }
+
+                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
+                for(iu = iul, k = 0; iu <= iuh; iu++, k++)
+                {
+                    work2[k] = wtbl[(int) roundf(fabsf(U - iu) * tblspcg)];
+                }
+
+                __PRAGMA_OMP_SIMD_COLLAPSE
+                for(iu = iul, k2 = 0; iu <= iuh; iu++, k2++)
+                {
+                    for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
+                    {
+                        const float rtmp    = work2[k2];
+                        const float convolv = rtmp * work[k];
+                        H[iu][iv] += convolv * Cdata1;
+                        H[pdim - iu][pdim - iv] += convolv * Cdata2;
+                    }
+                }
+            }
+        }
+
+        // Carry out a 2D inverse FFT on the array H.
+
+        // At the conclusion of this phase, the configuration
+        // space data is arranged in wrap-around order with the origin
+        // (center of reconstructed images) situated at the start of the
+        // array.  The first (resp. second) half of the array contains the
+        // lower, Y<0 (resp, upper Y>0) part of the image, and within each row
+        // of the array, the first (resp. second) half contains data for the
+        // right [X>0] (resp. left [X<0]) half of the image.
+
+#ifdef TOMOPY_USE_MKL
+        DftiComputeForward(forward_2d, H[0]);
+#endif
+#ifdef TOMOPY_USE_FFTW
+        fftwf_execute(forward_2d);
+#endif
+        // Copy the real and imaginary parts of the complex data from H[][],
+        // into the output buffers for the two reconstructed real images,
+        // simultaneously carrying out a final multiplicative correction.
+        // The correction factors are taken from the array, winv[], previously
+        // computed in set_pswf_tables(), and consist logically of three parts,
+        // namely:
+
+        //  1. A positive real factor, corresponding to the reciprocal
+        //     of the inverse Fourier transform, of the convolving
+        //     function, W, and
+
+        //  2. Multiplication by the cell size, (1/D1)^2, in 2D frequency
+        //     space.  This correctly normalizes the 2D inverse FFT carried
+        //     out in Phase 2.  (Note that all quantities are expressed in
+        //     units in which the detector spacing is one.)
+
+        //  3. A sign change for the "odd-numbered" elements (in a
+        //     checkerboard pattern) of the array.  This compensates
+        //     for the fact that the 2-D Fourier transform (Phase 2)
+        //     started with a frequency array in which the zero frequency
+        //     point appears in the middle of the array instead of at
+        //     its start.
+
+        // Only the elements in the square M0xM0 subarray of H[][], centered
+        // about the origin, are utilized.  The other elements are not part of
+        // the actual region being reconstructed and are discarded.  Because of
+        // the wrap-around ordering, the subarray must actually be taken from
+        // the four corners" of the 2D array, H[][] -- See Phase 2 description,
+        // above.
+
+        // The final data corresponds physically to the linear X-ray absorption
+        // coefficient expressed in units of the inverse detector spacing -- to
+        // convert to inverse cm (say), one must divide the data by the detector
+        // spacing in cm.
+
+        int       ustart, vstart, ufin, vfin;
+        const int padx    = (pdim - ngridx) / 2;
+        const int pady    = (pdim - ngridy) / 2;
+        const int offsetx = M02 + 1 - padx;
+        const int offsety = M02 + 1 - pady;
+        const int islc1   = s * ngridx * ngridy;        // index slice 1
+        const int islc2   = (s + 1) * ngridx * ngridy;  // index slice 2
+
+        ustart = pdim - offsety;
+        ufin   = pdim;
+        j      = 0;
+        while(j < ngridy)
+        {
+            for(iu = ustart; iu < ufin; j++, iu++)
+            {
+                const float corrn_u = winv[j + pady];
+                vstart              = pdim - offsetx;
+                vfin                = pdim;
+                k                   = 0;
+                while(k < ngridx)
+                {
+                    __PRAGMA_SIMD
+                    for(iv = vstart; iv < vfin; k++, iv++)
+                    {
+                        const float corrn = corrn_u * winv[k + padx];
+                        recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
+                            corrn * crealf(H[iu][iv]);
+                        if(__LIKELY((s + 1) < dy))
+                        {
+                            recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
+                                corrn * cimagf(H[iu][iv]);
+                        }
+                    }
+                    if(k < ngridx)
+                    {
+                        vstart = 0;
+                        vfin   = ngridx - offsetx;
+                    }
+                }
+            }
+            if(j < ngridy)
+            {
+                ustart = 0;
+                ufin   = ngridy - offsety;
+            }
+        }
+    }
+
+    free_vector_f(sine);
+    free_vector_f(cose);
+    free_vector_c(sino);
+    free_vector_f(wtbl);
+    free_vector_c(filphase);
+    free_vector_f(winv);
+    free_vector_f(work);
+    free_matrix_c(H);
+    free_vector_f(J_z);
+    free_vector_f(P_z);
+    free_matrix_c(U_d);
+    free_matrix_c(V_d);
+#ifdef TOMOPY_USE_MKL
+    DftiFreeDescriptor(&reverse_1d);
+    DftiFreeDescriptor(&forward_2d);
+#endif
+#ifdef TOMOPY_USE_FFTW
+    fftwf_destroy_plan(reverse_1d);
+    fftwf_destroy_plan(forward_2d);
+#endif
+    return;
+}
diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index ef80c4b..3d2cbab 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -326,6 +326,13 @@ def recon(tomo,
                 raise ValueError(
                     'ind_block must list one projection index for every '
                     'projection.')
+        if algorithm == 'gridrec':
+            # width of the Fourier grid in the C function
+            pdim = max(16, 2**int(np.ceil(np.log2(max(tomo.shape[2], 1)))))
+            if kwargs['num_gridx'] > pdim or kwargs['num_gridy'] > pdim:
+                raise ValueError(
+                    'gridrec can not reconstruct more than {0} pixels along '
+                    'x or y from this data.'.format(pdim))
         if algorithm in ('ospml_hybrid', 'pml_hybrid', 'tikh'):
             if kwargs['reg_par'].size < 2:
                 raise ValueError('reg_par must hold two parameters.')
-- 
2.43.0


From 98330088b282207d479a23f8b2e7a1db9267154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:40 +0000
Subject: [PATCH 14/46] fix: free the work arrays of gridrec, grad, tikh,
 project2 and project3

---
 source/libtomo/gridrec/gridrec.c | 1 +
 source/libtomo/recon/grad.c      | 1 +
 source/libtomo/recon/project.c   | 4 ++++
 source/libtomo/recon/tikh.c      | 1 +
 4 files changed, 7 insertions(+)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index d6d9c54..670366c 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -556,6 +556,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     free_vector_c(filphase);
     free_vector_f(winv);
     free_vector_f(work);
+    free_vector_f(work2);
     free_matrix_c(H);
     free_vector_f(J_z);
     free_vector_f(P_z);
diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index 4c44b10..51db831 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -250,6 +250,7 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
     free(coory);
     free(dist);
     free(indi);
+    free(lambda);
     free(simdata);
     free(sum_dist);
     free(prox1);
diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index aa38e49..d65ca55 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -238,6 +238,8 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     free(coorx);
     free(coory);
     free(dist);
+    free(indx);
+    free(indy);
     free(indi);
 }
 
@@ -343,5 +345,7 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     free(coorx);
     free(coory);
     free(dist);
+    free(indx);
+    free(indy);
     free(indi);
 }
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index f62050b..a23e3da 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -257,6 +257,7 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
     free(coory);
     free(dist);
     free(indi);
+    free(lambda);
     free(simdata);
     free(sum_dist);
     free(prox1);
-- 
2.43.0


From a199c2f7bb78a9ed763ce17ee03dd017e6601d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:29 +0000
Subject: [PATCH 15/46] fix: downsample axes whose length is not a multiple of
 the bin size

The left over rows and columns were not skipped, so every later row was taken
from the wrong place.
---
 source/libtomo/misc/morph.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/misc/morph.c b/source/libtomo/misc/morph.c
index 3c31fdd..0117173 100755
--- a/source/libtomo/misc/morph.c
+++ b/source/libtomo/misc/morph.c
@@ -51,7 +51,7 @@ DLL void
 downsample(const float* data, int dx, int dy, int dz, int level, int axis, float* out)
 {
     unsigned           m, n, p, binsize;
-    unsigned long long i, j, k, ind;
+    unsigned long long i, j, k, ind, rem;
 
     binsize = pow(2, level);
     // Ensure that largest array is small enough to be indexable
@@ -81,6 +81,7 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
     }
     else if(axis == 1)
     {
+        rem = dy % binsize;
         dy /= binsize;
         for(m = 0, ind = 0; m < (unsigned) dx; m++)
         {
@@ -97,10 +98,13 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
                     }
                 }
             }
+            // Skip the rows that do not fill a bin
+            ind += rem * dz;
         }
     }
     else if(axis == 2)
     {
+        rem = dz % binsize;
         dz /= binsize;
         for(m = 0, ind = 0; m < (unsigned) dx; m++)
         {
@@ -116,6 +120,8 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
                         ind++;
                     }
                 }
+                // Skip the columns that do not fill a bin
+                ind += rem;
             }
         }
     }
-- 
2.43.0


From 25b3c7a3a4c7d6ec82142a27e2a5f4d9bf9a1eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 16/46] fix: trim_sinogram indexed with floats and always
 raised TypeError

---
 source/tomopy/misc/morph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 5d7668b..ed9cb2c 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -285,14 +285,14 @@ def trim_sinogram(data, center, x, y, diameter):
     l1 = center - diameter / 2
     l2 = center - diameter / 2 + rad
 
-    roidata = np.ones((dx, dy, diameter), dtype='float32')
+    roidata = np.ones((dx, dy, int(diameter)), dtype='float32')
 
     delphi = np.pi / dx
     for m in range(dx):
 
         # Calculate start end coordinates for each row of the sinogram.
-        ind1 = np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1)
-        ind2 = np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter)
+        ind1 = int(np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1))
+        ind2 = int(np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter))
 
         # Make sure everythin is inside the frame.
         if ind1 < 0:
-- 
2.43.0


From 4fc4b2dbff0127c213adb4d9783a9516cdcdcda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 17/46] fix: sino_360_to_180 for overlaps of zero, one and the
 full width

Zero overlap raised for rotation='right', full overlap raised for both, and the
weights of a single overlapping column did not add up to one.
---
 source/tomopy/misc/morph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index ed9cb2c..8bc1c1f 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -341,15 +341,15 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
     out = np.empty((n, dy, 2*dz-overlap), dtype=data.dtype)
 
     if rotation == 'left':
-        weights = np.linspace(0, 1.0, overlap)
-        out[:, :, -dz+overlap:] = data[:n, :, overlap:]
+        weights = np.linspace(0, 1.0, overlap) if overlap != 1 else 0.5
+        out[:, :, dz:] = data[:n, :, overlap:]
         out[:, :, :dz-overlap] = data[n:2*n, :, overlap:][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
-        weights = np.linspace(1.0, 0, overlap)
-        out[:, :, :dz-overlap] = data[:n, :, :-overlap]
-        out[:, :, -dz+overlap:] = data[n:2*n, :, :-overlap][:, :, ::-1]
-        out[:, :, dz-overlap:dz] = weights*data[:n, :, -overlap:] + (weights*data[n:2*n, :, -overlap:])[:, :, ::-1]
+        weights = np.linspace(1.0, 0, overlap) if overlap != 1 else 0.5
+        out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
+        out[:, :, dz:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
+        out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
     return out
 
 # For backward compatibility
-- 
2.43.0


From 3bf06b3bfde467575c74fe7cfe2a42337fbc82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 18/46] fix: normalize_nf with averaging='median', which always
 raised TypeError

---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index c75e513..ca6aadb 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -302,7 +302,7 @@ def normalize_nf(
     if averaging == 'mean':
         dark = np.mean(dark, axis=0, dtype=np.float32)
     elif averaging == 'median':
-        dark = np.median(dark, axis=0, dtype=np.float32)
+        dark = np.median(dark, axis=0).astype(np.float32)
     else:
         raise ValueError(
             f"'averaging' must be 'mean' or 'median' not {averaging}")
-- 
2.43.0


From cf9c3d3d0f640f717351c138b0c839e62780febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 19/46] fix: normalize_bg for air wider than the data and for
 data of width one

The C routine read outside of the data, or divided by zero and returned NaN.
---
 source/libtomo/prep/prep.c      | 2 +-
 source/tomopy/prep/normalize.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/prep/prep.c b/source/libtomo/prep/prep.c
index b5ed9b6..2346a6f 100755
--- a/source/libtomo/prep/prep.c
+++ b/source/libtomo/prep/prep.c
@@ -75,7 +75,7 @@ normalize_bg(float* data, int dx, int dy, int dz, int nair)
                 air_right = 1.;
             }
 
-            air_slope = (air_right - air_left) / (dz - 1);
+            air_slope = (dz > 1) ? (air_right - air_left) / (dz - 1) : 0;
 
             for(j = 0; j < dz; j++)
             {
diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index ca6aadb..bb9f254 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -230,6 +230,9 @@ def normalize_bg(tomo, air=1, ncore=None, nchunk=None):
     """
     tomo = dtype.as_float32(tomo)
     air = dtype.as_int32(air)
+    if not 1 <= air <= tomo.shape[2]:
+        raise ValueError(
+            "'air' must be at least one and at most the width of the data.")
 
     arr = mproc.distribute_jobs(
         tomo,
-- 
2.43.0


From 6976d472755f0dfdc145c59c0b21844e0b39b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:53 +0000
Subject: [PATCH 20/46] fix: retrieve_phase with pad=False

With no padding prj[-0:] is the whole projection, which was overwritten by its
last row and column.
---
 source/tomopy/prep/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index e1be769..bf32a5e 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -137,9 +137,9 @@ def _retrieve_phase(tomo, phase_filter, px, py, prj, pad):
     for m in range(num_jobs):
         prj[px:dy + px, py:dz + py] = tomo[m]
         prj[:px] = prj[px]
-        prj[-px:] = prj[-px-1]
+        prj[dy + px:] = prj[dy + px - 1]
         prj[:, :py] = prj[:, py][:, np.newaxis]
-        prj[:, -py:] = prj[:, -py-1][:, np.newaxis]
+        prj[:, dz + py:] = prj[:, dz + py - 1][:, np.newaxis]
         fproj = fft2(prj, extra_info=num_jobs)
         fproj *= normalized_phase_filter
         proj = np.real(ifft2(fproj, extra_info=num_jobs, overwrite_input=True))
-- 
2.43.0


From 458431fd0d6fb81e9b8d78dd14e13d0ac889fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:53 +0000
Subject: [PATCH 21/46] fix: get_worker_ncore_slices used np.int, which numpy
 has removed

---
 source/tomopy/util/mproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f9b5672..f12a824 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -166,10 +166,10 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
         # calculate number of slices to send to each GPU
         chunk_size = axis_size // ncore
         leftover = axis_size % ncore
-        sizes = np.ones(ncore, dtype=np.int) * chunk_size
+        sizes = np.ones(ncore, dtype=int) * chunk_size
         # evenly distribute leftover across workers
         sizes[:leftover] += 1
-        offsets = np.zeros(ncore+1, dtype=np.int)
+        offsets = np.zeros(ncore+1, dtype=int)
         offsets[1:] = np.cumsum(sizes)
         slcs = [np.s_[offsets[i]:offsets[i+1]]
                 for i in range(offsets.shape[0]-1)]
-- 
2.43.0


From 73ab10cb4cd9483bfb3179d4be210670449cec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:53 +0000
Subject: [PATCH 22/46] fix: distribute_jobs reads every array with its own
 type

The type of the last array was used for all of them.
---
 source/tomopy/util/mproc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f12a824..8478f56 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -288,13 +288,14 @@ def distribute_jobs(arr,
         else:
             map_args.append((func, args, kwargs, i, axis))
 
-    init_shared(shared_arrays, shared_out, arr.dtype, shared_shape,
+    shared_type = [a.dtype for a in arrs]
+    init_shared(shared_arrays, shared_out, shared_type, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
-                             initargs=(shared_arrays, shared_out, arr.dtype,
+                             initargs=(shared_arrays, shared_out, shared_type,
                                        shared_shape, shared_out_type,
                                        shared_out_shape, queue))) as p:
             if p._pool:
@@ -374,7 +375,7 @@ def _arg_parser(params):
     global INSHAPE
     global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE, INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
-- 
2.43.0


From d38aadd80035ebc211aa01d67b0491ef8b6afec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:53 +0000
Subject: [PATCH 23/46] fix: inpainter_morph along an axis of data with another
 axis of length one

---
 source/tomopy/misc/corr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 431c983..377cc6e 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1108,8 +1108,8 @@ def inpainter_morph(
             slices_list = [slice(None), slice(None), slice(None)]
             for m in range(arr.shape[axis]):
                 slices_list[axis] = slice(m,m+1)
-                slice2d = arr[tuple(slices_list)].squeeze()
-                mask2d = mask[tuple(slices_list)].squeeze()
+                slice2d = arr[tuple(slices_list)].squeeze(axis)
+                mask2d = mask[tuple(slices_list)].squeeze(axis)
                 dy, dx = slice2d.shape
                 out2d = np.empty_like(slice2d, order="C")
                 extern.c_inpainter(
-- 
2.43.0


From dc5e264a4f563245ea00a017c7b4161dc679c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:53 +0000
Subject: [PATCH 24/46] fix: remove_outlier_cuda passes its axis on to the CPU
 filter

---
 source/tomopy/misc/corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 377cc6e..318991b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -749,7 +749,7 @@ def remove_outlier_cuda(arr, dif, size=3, axis=0):
 
     except ImportError:
         warnings.warn("The tomocuda is not support, using cpu outlier removal")
-        out = remove_outlier(arr, dif, size)
+        out = remove_outlier(arr, dif, size, axis)
 
     return out
 
-- 
2.43.0


From 7b3886eb8643223e14a4c1ad1d08beb19c36dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:06 +0000
Subject: [PATCH 25/46] fix: pad with npad=0 and of bool arrays with a constant

---
 source/tomopy/misc/morph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 8bc1c1f..4cfe9c8 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -133,13 +133,13 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
     slc_r_v = tuple(slc_r_v)
 
     out = np.empty(newshape, dtype=arr.dtype)
-    if arr.dtype in [np.float32, np.float64, bool,
-                     np.int32, np.int64, np.complex128]:
+    if npad > 0 and arr.dtype in [np.float32, np.float64, bool,
+                                  np.int32, np.int64, np.complex128]:
         # Datatype supported by numexpr
         with mproc.set_numexpr_threads(ncore):
             ne.evaluate("arr", out=out[slc_in])
             if mode == 'constant':
-                np_cast = getattr(np, str(arr.dtype))
+                np_cast = arr.dtype.type
                 cval = np_cast(kwargs['constant_values'])
                 ne.evaluate("cval", out=out[slc_l])
                 ne.evaluate("cval", out=out[slc_r])
-- 
2.43.0


From 2722e30ed2391ba0aaf713ee6f9b0ce19017d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:51 +0000
Subject: [PATCH 26/46] fix: stripe detection reads outside of arrays smaller
 than its windows

The mirrored neighbours are out of bounds as well when a dimension is shorter
than twice the window.
---
 source/libtomo/prep/stripes_detect3d.c | 49 +++++++++++++++-----------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index b51ec83..8fffb8c 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -56,6 +56,15 @@
 /********************************************************************/
 /**********************Supporting Functions**************************/
 /********************************************************************/
+/* Index of the neighbour at offset from index mirrored about index, or index
+itself where the mirrored neighbour is out of the range of dim as well */
+static long
+mirror_index(long index, long offset, long dim)
+{
+    long mirrored = index - offset;
+    return ((mirrored < 0) || (mirrored >= dim)) ? index : mirrored;
+}
+
 /* Calculate the forward difference derrivative of the 3D input in the
 direction of the "axis" parameter using the step_size in pixels to skip pixels
 (i.e. step_size = 1 is the classical gradient)
@@ -88,7 +97,7 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 {
                     i1 = i + step_size;
                     if(i1 >= dimX)
-                        i1 = i - step_size;
+                        i1 = (i >= step_size) ? i - step_size : i;
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)] -
                         input[index];
@@ -97,7 +106,7 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 {
                     j1 = j + step_size;
                     if(j1 >= dimY)
-                        j1 = j - step_size;
+                        j1 = (j >= step_size) ? j - step_size : j;
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i)] -
                         input[index];
@@ -106,7 +115,7 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 {
                     k1 = k + step_size;
                     if(k1 >= dimZ)
-                        k1 = k - step_size;
+                        k1 = (k >= step_size) ? k - step_size : k;
                     output[index] =
                         input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] -
                         input[index];
@@ -144,12 +153,12 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     {
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+            j1 = mirror_index(j, j_m, dimY);
         for(k_m = -radius; k_m <= radius; k_m++)
         {
             k1 = k + k_m;
             if((k1 < 0) || (k1 >= dimZ))
-                k1 = k - k_m;
+                k1 = mirror_index(k, k_m, dimZ);
             newindex = (size_t) (dimX * dimY * k1) + (size_t) (j1 * dimX + i);
             mean_plate += fabsf(input[newindex]);
         }
@@ -162,12 +171,12 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     {
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+            j1 = mirror_index(j, j_m, dimY);
         for(i_m = 1; i_m <= radius; i_m++)
         {
             i1 = i + i_m;
             if(i1 >= dimX)
-                i1 = i - i_m;
+                i1 = mirror_index(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz += fabsf(input[newindex]);
         }
@@ -180,12 +189,12 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     {
         j1 = j + j_m;
         if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+            j1 = mirror_index(j, j_m, dimY);
         for(i_m = -radius; i_m <= -1; i_m++)
         {
             i1 = i + i_m;
             if(i1 < 0)
-                i1 = i - i_m;
+                i1 = mirror_index(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz2 += fabsf(input[newindex]);
         }
@@ -238,7 +247,7 @@ vertical_median_stride3d(const float* input, float* output,
     {
         k1 = k + k_m;
         if((k1 < 0) || (k1 >= dimZ))
-            k1 = k - k_m;
+            k1 = mirror_index(k, k_m, dimZ);
         _values[counter] = input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)];
         counter++;
     }
@@ -277,15 +286,15 @@ mean_stride3d(const float* input, float* output, long i, long j, long k, long di
     k2 = k + 1;
 
     if(i1 < 0)
-        i1 = i2;
+        i1 = (i2 < dimX) ? i2 : i;
     if(i2 >= dimX)
         i2 = i1;
     if(j1 < 0)
-        j1 = j2;
+        j1 = (j2 < dimY) ? j2 : j;
     if(j2 >= dimY)
         j2 = j1;
     if(k1 < 0)
-        k1 = k2;
+        k1 = (k2 < dimZ) ? k2 : k;
     if(k2 >= dimZ)
         k2 = k1;
 
@@ -328,7 +337,7 @@ remove_inconsistent_stripes(const bool* mask, bool* out, int stripe_length_min,
             {
                 k1 = k + k_m;
                 if((k1 < 0) || (k1 >= dimZ))
-                    k1 = k - k_m;
+                    k1 = mirror_index(k, k_m, dimZ);
                 if(mask[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] == true)
                     counter_vert_voxels++;
             }
@@ -353,7 +362,7 @@ remove_inconsistent_stripes(const bool* mask, bool* out, int stripe_length_min,
                 {
                     y1 = j + y_m;
                     if((y1 < 0) || (y1 >= dimY))
-                        y1 = j - y_m;
+                        y1 = mirror_index(j, y_m, dimY);
                     if(mask[(size_t) (dimX * dimY * k) + (size_t) (y1 * dimX + i)] ==
                        true)
                         counter_depth_voxels++;
@@ -383,7 +392,7 @@ remove_short_stripes(const bool* mask, bool* out, int stripe_length_min, long i,
         {
             k1 = k + k_m;
             if((k1 < 0) || (k1 >= dimZ))
-                k1 = k - k_m;
+                k1 = mirror_index(k, k_m, dimZ);
             if(mask[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] == true)
                 counter_vert_voxels++;
         }
@@ -419,7 +428,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
         {
             x_l = i + x;
             if(x_l < 0)
-                x_l = i - x;
+                x_l = mirror_index(i, x, dimX);
             if(mask[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + x_l)] == true)
             {
                 mask_left = 1;
@@ -432,7 +441,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
         {
             x_r = i + x;
             if(x_r >= dimX)
-                x_r = i - x;
+                x_r = mirror_index(i, x, dimX);
             if(mask[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + x_r)] == true)
             {
                 mask_right = 1;
@@ -453,7 +462,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             {
                 k_u = k + x;
                 if(k_u < 0)
-                    k_u = k - x;
+                    k_u = mirror_index(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_u) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_up = 1;
@@ -466,7 +475,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             {
                 k_d = k + x;
                 if(k_d >= dimZ)
-                    k_d = k - x;
+                    k_d = mirror_index(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_d) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_down = 1;
-- 
2.43.0


From 17b505d13402c49c3e19c2a98fcba394714fb06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:51 +0000
Subject: [PATCH 27/46] fix: remove_stripe_ti with blocks zeroes NaN as it does
 without

---
 source/tomopy/prep/stripe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 7523f0b..21db598 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -305,7 +305,7 @@ def _ringb(sino, m, n, step):
     N = np.size(mysino, 1)
 
     # Remove NaN.
-    pos = np.where(np.isnan(mysino) is True)
+    pos = np.where(np.isnan(mysino))
     mysino[pos] = 0
 
     # Kernel & regularization parameter.
-- 
2.43.0


From d1b9ec5a693ae007a2906340fa873519cc272eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:07 +0000
Subject: [PATCH 28/46] fix: inpainter_morph's 3D median is taken from the
 collected neighbours only

---
 source/libtomo/misc/inpainter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/libtomo/misc/inpainter.c b/source/libtomo/misc/inpainter.c
index 80c9cb0..51dce30 100644
--- a/source/libtomo/misc/inpainter.c
+++ b/source/libtomo/misc/inpainter.c
@@ -505,7 +505,7 @@ median_rand_inpainting_3D(bool* M_upd, const float* Output, float* Updated,
             if(method_type == 1)
             {
                 /* inpainting based on the median neighbour */
-                qsort(_values, window_fullength, sizeof(float), floatcomp1);
+                qsort(_values, counter_local, sizeof(float), floatcomp1);
                 median_val     = (counter_local / 2);
                 Updated[index] = _values[median_val];
             }
-- 
2.43.0


From 57b2378b3d8e513dee8d0653acb312591bee5b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:36 +0000
Subject: [PATCH 29/46] fix: vector fields along other axes read out of bounds
 or the wrong slices

---
 source/tomopy/recon/vector.py      | 10 ++++++++++
 source/tomopy/sim/project.py       |  2 ++
 source/tomopy/util/extern/recon.py |  6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index ea5b8b4..653714e 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -66,6 +66,14 @@ __docformat__ = 'restructuredtext en'
 __all__ = ['vector', 'vector2', 'vector3']
 
 
+def _check_cubic(tomos, axes):
+    first = tomos[0]
+    if any(t.shape != first.shape for t in tomos):
+        raise ValueError("the tilt series must have the same shape")
+    if any(axis != 0 for axis in axes) and first.shape[0] != first.shape[2]:
+        raise ValueError("axes 1 and 2 need as many slices as detector pixels")
+
+
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
     theta = np.require(theta, dtype=np.float32, requirements="AC")
@@ -93,6 +101,7 @@ def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
+    _check_cubic((tomo1, tomo2), (axis1, axis2))
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
@@ -119,6 +128,7 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
     tomo3 = init_tomo(tomo3, sinogram_order=False, sharedmem=False)
+    _check_cubic((tomo1, tomo2, tomo3), (axis1, axis2, axis3))
 
     recon_shape = (tomo1.shape[0], tomo1.shape[2], tomo1.shape[2])
     recon1 = np.zeros(recon_shape, dtype=np.float32)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index ad2604a..c12978f 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -440,6 +440,8 @@ def project3(
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
+    if axis in (1, 2) and not (oy == ox == oz):
+        raise ValueError("projecting along axis 1 or 2 needs a cubic object")
     dt = theta.size
     dy = oy
     if pad is True:
diff --git a/source/tomopy/util/extern/recon.py b/source/tomopy/util/extern/recon.py
index 21467a3..69f92ec 100644
--- a/source/tomopy/util/extern/recon.py
+++ b/source/tomopy/util/extern/recon.py
@@ -171,6 +171,12 @@ def c_project3(objx, objy, objz, center, tomo, theta, axis):
     # The C function uses the first center for all of its slices.
     runs = _equal_center_slices(center)
     if len(runs) > 1:
+        # bring the axis of the slices to the front
+        if axis == 1:
+            objx, objy, axis = objy.transpose(2, 1, 0), objz.transpose(2, 1, 0), 0
+        elif axis == 2:
+            objx, objy, axis = objx.transpose(1, 2, 0), objz.transpose(1, 2, 0), 0
+        objx, objy = np.ascontiguousarray(objx), np.ascontiguousarray(objy)
         for slc in runs:
             c_project3(objx[slc], objy[slc], objz[slc], center[slc], tomo[slc],
                        theta, axis)
-- 
2.43.0


From 8ba66de1fa4634dd526cb534330d720f9c3b9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 30/46] fix: vector leaves pixels that no ray crosses at zero,
 not NaN

---
 source/libtomo/recon/vector.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index 96dc917..1c58a00 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -171,10 +171,13 @@ vector(const float* data, int dy, int dt, int dx, const float* center, const flo
             {
                 for(n = 0; n < ngridy; n++)
                 {
-                    recon1[n + m * ngridy + s * ngridx * ngridy] +=
-                        update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    recon2[n + m * ngridy + s * ngridx * ngridy] +=
-                        update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    if(sum_dist[n + m * ngridy] != 0.0)
+                    {
+                        recon1[n + m * ngridy + s * ngridx * ngridy] +=
+                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
+                        recon2[n + m * ngridy + s * ngridx * ngridy] +=
+                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    }
                 }
             }
 
-- 
2.43.0


From 847339b40d1a3c9c4e379a17b473c6f199369fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:48 +0000
Subject: [PATCH 31/46] fix: osem and ospml divide by a simulated ray sum of
 zero and return NaN

---
 source/libtomo/recon/osem.c         | 4 ++--
 source/libtomo/recon/ospml_hybrid.c | 4 ++--
 source/libtomo/recon/ospml_quad.c   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/libtomo/recon/osem.c b/source/libtomo/recon/osem.c
index da2843d..20d79c8 100755
--- a/source/libtomo/recon/osem.c
+++ b/source/libtomo/recon/osem.c
@@ -159,9 +159,9 @@ osem(const float* data, int dy, int dt, int dx, const float* center, const float
                         }
 
                         // Update
-                        if(sum_dist2 != 0.0f)
+                        ind_data = d + p * dx + s * dt * dx;
+                        if(sum_dist2 != 0.0f && simdata[ind_data] != 0.0f)
                         {
-                            ind_data = d + p * dx + s * dt * dx;
                             upd      = data[ind_data] / simdata[ind_data];
                             for(n = 0; n < csize - 1; n++)
                             {
diff --git a/source/libtomo/recon/ospml_hybrid.c b/source/libtomo/recon/ospml_hybrid.c
index 62feda3..7004fc2 100755
--- a/source/libtomo/recon/ospml_hybrid.c
+++ b/source/libtomo/recon/ospml_hybrid.c
@@ -158,9 +158,9 @@ ospml_hybrid(const float* data, int dy, int dt, int dx, const float* center,
                         }
 
                         // Update
-                        if(sum_dist2 != 0.0f)
+                        ind_data = d + p * dx + s * dt * dx;
+                        if(sum_dist2 != 0.0f && simdata[ind_data] != 0.0f)
                         {
-                            ind_data  = d + p * dx + s * dt * dx;
                             ind_recon = s * ngridx * ngridy;
                             upd       = data[ind_data] / simdata[ind_data];
                             for(n = 0; n < csize - 1; n++)
diff --git a/source/libtomo/recon/ospml_quad.c b/source/libtomo/recon/ospml_quad.c
index 71e40e9..3388d08 100755
--- a/source/libtomo/recon/ospml_quad.c
+++ b/source/libtomo/recon/ospml_quad.c
@@ -158,9 +158,9 @@ ospml_quad(const float* data, int dy, int dt, int dx, const float* center,
                         }
 
                         // Update
-                        if(sum_dist2 != 0.0f)
+                        ind_data = d + p * dx + s * dt * dx;
+                        if(sum_dist2 != 0.0f && simdata[ind_data] != 0.0f)
                         {
-                            ind_data  = d + p * dx + s * dt * dx;
                             ind_recon = s * ngridx * ngridy;
                             upd       = data[ind_data] / simdata[ind_data];
                             for(n = 0; n < csize - 1; n++)
-- 
2.43.0


From 7b33b205078d448c2febefbe4d4f95f867c8b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:45 +0000
Subject: [PATCH 32/46] fix: tv takes differences of pixels that are not
 neighbours on grids that are not square

---
 source/libtomo/recon/tv.c | 70 +++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/source/libtomo/recon/tv.c b/source/libtomo/recon/tv.c
index 2f3e054..c40601c 100755
--- a/source/libtomo/recon/tv.c
+++ b/source/libtomo/recon/tv.c
@@ -127,27 +127,27 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
             // compute proximal of the gradient in x and y directions
             // prox0 = prox0+c*grad(recon);
             // prox0 = prox0/max(1,abs(prox0)/lambda);
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    prox0x[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + iy * ngridx + ix + 1] -
-                             recon[ind_recon + iy * ngridx + ix]);
-                    prox0y[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + (iy + 1) * ngridx + ix] -
-                             recon[ind_recon + iy * ngridx + ix]);
+                    prox0x[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + iy * ngridy + ix + 1] -
+                             recon[ind_recon + iy * ngridy + ix]);
+                    prox0y[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + (iy + 1) * ngridy + ix] -
+                             recon[ind_recon + iy * ngridy + ix]);
                 }
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    upd = sqrt(prox0x[ind_recon + iy * ngridx + ix] *
-                                   prox0x[ind_recon + iy * ngridx + ix] +
-                               prox0y[ind_recon + iy * ngridx + ix] *
-                                   prox0y[ind_recon + iy * ngridx + ix]) /
+                    upd = sqrt(prox0x[ind_recon + iy * ngridy + ix] *
+                                   prox0x[ind_recon + iy * ngridy + ix] +
+                               prox0y[ind_recon + iy * ngridy + ix] *
+                                   prox0y[ind_recon + iy * ngridy + ix]) /
                           lambda;
                     upd = upd < 1 ? 1 : upd;
-                    prox0x[ind_recon + iy * ngridx + ix] /= upd;
-                    prox0y[ind_recon + iy * ngridx + ix] /= upd;
+                    prox0x[ind_recon + iy * ngridy + ix] /= upd;
+                    prox0y[ind_recon + iy * ngridy + ix] /= upd;
                 }
 
             // compute proximal of the projections
@@ -226,34 +226,34 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
 
             // backward step. update with the divergence of prox0 and the
             // adjoint of prox1 update = update-c*R^*(prox1)-c*div(prox0);
-            for(iy = 0; iy < ngridy; iy++)
-                for(ix = 0; ix < ngridx; ix++)
+            for(iy = 0; iy < ngridx; iy++)
+                for(ix = 0; ix < ngridy; ix++)
                 {
-                    update[ind_recon + iy * ngridx + ix] -=
-                        c * adjdata[ind_recon + iy * ngridx + ix];
+                    update[ind_recon + iy * ngridy + ix] -=
+                        c * adjdata[ind_recon + iy * ngridy + ix];
                     if(ix == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0x[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0x[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0x[ind_recon + iy * ngridx + ix] -
-                                 prox0x[ind_recon + iy * ngridx + ix - 1]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0x[ind_recon + iy * ngridy + ix] -
+                                 prox0x[ind_recon + iy * ngridy + ix - 1]);
                     if(iy == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0y[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0y[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0y[ind_recon + iy * ngridx + ix] -
-                                 prox0y[ind_recon + (iy - 1) * ngridx + ix]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0y[ind_recon + iy * ngridy + ix] -
+                                 prox0y[ind_recon + (iy - 1) * ngridy + ix]);
                 }
 
             // update of recon
             // recon = 2*update - recon
-            for(iy = 0; iy < ngridy; iy++)
-                for(ix = 0; ix < ngridx; ix++)
-                    recon[ind_recon + iy * ngridx + ix] =
-                        2 * update[ind_recon + iy * ngridx + ix] -
-                        recon[ind_recon + iy * ngridx + ix];
+            for(iy = 0; iy < ngridx; iy++)
+                for(ix = 0; ix < ngridy; ix++)
+                    recon[ind_recon + iy * ngridy + ix] =
+                        2 * update[ind_recon + iy * ngridy + ix] -
+                        recon[ind_recon + iy * ngridy + ix];
         }
     }
 
-- 
2.43.0


From 812ad550941bf8469872acc3f1ce504d017b8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:45 +0000
Subject: [PATCH 33/46] fix: tv returns NaN without regularization (reg_par 0)

---
 source/libtomo/recon/tv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/libtomo/recon/tv.c b/source/libtomo/recon/tv.c
index c40601c..0e12137 100755
--- a/source/libtomo/recon/tv.c
+++ b/source/libtomo/recon/tv.c
@@ -145,7 +145,7 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
                                prox0y[ind_recon + iy * ngridy + ix] *
                                    prox0y[ind_recon + iy * ngridy + ix]) /
                           lambda;
-                    upd = upd < 1 ? 1 : upd;
+                    upd = upd > 1 ? upd : 1;
                     prox0x[ind_recon + iy * ngridy + ix] /= upd;
                     prox0y[ind_recon + iy * ngridy + ix] /= upd;
                 }
-- 
2.43.0


From 841b736a9c2358efcc36ef6f873261dc58faa2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:34 +0000
Subject: [PATCH 34/46] fix: rays along the grid lines at 90 degrees count
 pixels several times

---
 source/libtomo/recon/utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/recon/utils.c b/source/libtomo/recon/utils.c
index 72c480e..6b7c7c8 100755
--- a/source/libtomo/recon/utils.c
+++ b/source/libtomo/recon/utils.c
@@ -185,7 +185,8 @@ sort_intersections(int ind_condition, int asize, const float* ax, const float* a
     {
         while(i < asize && j < bsize)
         {
-            if(ax[asize - 1 - i] < bx[j])
+            // compare along the ray: x grows and y falls
+            if(ax[asize - 1 - i] - ay[asize - 1 - i] < bx[j] - by[j])
             {
                 coorx[k] = ax[asize - 1 - i];
                 coory[k] = ay[asize - 1 - i];
@@ -221,7 +222,8 @@ sort_intersections(int ind_condition, int asize, const float* ax, const float* a
     {
         while(i < asize && j < bsize)
         {
-            if(ax[i] < bx[j])
+            // compare along the ray: x and y grow
+            if(ax[i] + ay[i] < bx[j] + by[j])
             {
                 coorx[k] = ax[i];
                 coory[k] = ay[i];
-- 
2.43.0


From ffb59b7f77a6141a6b9bc377d68104e044a43139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:22 +0000
Subject: [PATCH 35/46] fix: ospml loses the root to cancellation and returns
 negative pixels and NaN

---
 source/libtomo/recon/ospml_hybrid.c | 6 ++++--
 source/libtomo/recon/ospml_quad.c   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/recon/ospml_hybrid.c b/source/libtomo/recon/ospml_hybrid.c
index 7004fc2..7a715a8 100755
--- a/source/libtomo/recon/ospml_hybrid.c
+++ b/source/libtomo/recon/ospml_hybrid.c
@@ -395,8 +395,10 @@ ospml_hybrid(const float* data, int dy, int dt, int dx, const float* center,
                         if(F[q] != 0.0)
                         {
                             ind0        = q + s * ngridx * ngridy;
-                            recon[ind0] = (-G[q] + sqrt(G[q] * G[q] - 8 * E[q] * F[q])) /
-                                          (4 * F[q]);
+                            const double root = sqrt(G[q] * G[q] - 8 * E[q] * F[q]);
+                            // the form of the root without cancellation
+                            recon[ind0] = (G[q] > 0) ? -2 * E[q] / (G[q] + root)
+                                                     : (-G[q] + root) / (4 * F[q]);
                         }
                     }
                 }
diff --git a/source/libtomo/recon/ospml_quad.c b/source/libtomo/recon/ospml_quad.c
index 3388d08..ec8bcdd 100755
--- a/source/libtomo/recon/ospml_quad.c
+++ b/source/libtomo/recon/ospml_quad.c
@@ -377,8 +377,10 @@ ospml_quad(const float* data, int dy, int dt, int dx, const float* center,
                         if(F[q] != 0.0)
                         {
                             ind0        = q + s * ngridx * ngridy;
-                            recon[ind0] = (-G[q] + sqrt(G[q] * G[q] - 8 * E[q] * F[q])) /
-                                          (4 * F[q]);
+                            const double root = sqrt(G[q] * G[q] - 8 * E[q] * F[q]);
+                            // the form of the root without cancellation
+                            recon[ind0] = (G[q] > 0) ? -2 * E[q] / (G[q] + root)
+                                                     : (-G[q] + root) / (4 * F[q]);
                         }
                     }
                 }
-- 
2.43.0


From 7207bdff7af3d180df88eed59793ad1e31fb56c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:05 +0000
Subject: [PATCH 36/46] fix: remove_ring reads and writes out of bounds for
 small images and off-center rings

---
 source/libtomo/misc/remove_ring.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 1768f39..b6b4a0a 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -221,6 +221,10 @@ quick_sort_2_arrays(float* median_array, int* position_array, int left, int righ
 void
 bubble_2_arrays(float* median_array, int* position_array, int index, int length)
 {
+    if(length < 2)
+    {
+        return;
+    }
     if(index > 0 && index < length - 1)
     {
         if(median_array[index] < median_array[index - 1])
@@ -285,12 +289,10 @@ median_filter_fast_1D(float*** filtered_image, float*** image, int start_row,
                     {
                         adjusted_row -= height / 2;
                     }
-                    median_array[n + kernel_rad] = image[0][adjusted_row][adjusted_col];
-                }
-                else
-                {
-                    median_array[n + kernel_rad] = image[0][row][adjusted_col];
                 }
+                // Outside of the image there are zeros, as for the rolling filter below
+                median_array[n + kernel_rad] =
+                    (adjusted_col < width) ? image[0][adjusted_row][adjusted_col] : 0.0F;
                 position_array[n + kernel_rad] = n + kernel_rad;
             }
             // Sort the array
@@ -625,12 +627,22 @@ remove_ring(float* data, float center_x, float center_y, int dx, int dy, int dz,
         {
             image[i] = image[i - 1] + dx;
         }
+        // Without a full circle around the center there is nothing to filter
+        if(min_distance_to_edge(center_x, center_y, dx, dy) < 1)
+        {
+            continue;
+        }
         // Translate Image to Polar Coordinates
         polar_image =
             polar_transform(image, center_x, center_y, dx, dy, &pol_width, &pol_height,
                             thresh_max, thresh_min, r_scale, ang_scale, ring_width);
         m_azi = floor((float) pol_height / 360.0 * angular_min);
         m_rad = 2 * ring_width + 1;
+        if(int_mode == INT_MODE_REFLECT && m_azi > pol_height / 2 - 1)
+        {
+            // Reflections reach at most once across half of the circle
+            m_azi = pol_height / 2 - 1;
+        }
 
         // Call Ring Algorithm
         ring_filter(&polar_image, pol_height, pol_width, threshold, m_rad, m_azi,
-- 
2.43.0


From a737a7587d5d88df47c19927e0f82cc179689abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:08 +0000
Subject: [PATCH 37/46] fix: stripes_detect3d returns negative weights for flat
 areas of negative value

---
 source/libtomo/prep/stripes_detect3d.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index 8fffb8c..55b5b67 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -203,7 +203,8 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
 
     /* calculate the ratio between two means assuming that the mean
     orthogonal to stripes direction should be larger than the mean
-    parallel to it */
+    parallel to it; the ratio is zero where there is no gradient at all */
+    output[index] = 0.0F;
     if((mean_horiz >= mean_plate) && (mean_horiz != 0.0F))
         output[index] = mean_plate / mean_horiz;
     if((mean_horiz < mean_plate) && (mean_plate != 0.0F))
-- 
2.43.0


From 0840015d56122bdf59c67d7fb9dc74b318afb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:48 +0000
Subject: [PATCH 38/46] fix: filters return unset values when a worker fails

Errors raised in the worker threads (for example by a window size of zero)
were dropped and uninitialised memory returned.
---
 source/tomopy/misc/corr.py | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 318991b..18efa73 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -150,17 +150,20 @@ def gaussian_filter(arr, sigma=3, order=0, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    tasks = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            tasks.append(e.submit(
                 scipy.ndimage.gaussian_filter,
                 arr[tuple(slc)],
                 sigma,
                 order=order,
                 output=out[tuple(slc)],
-            )
+            ))
+    for task in tasks:
+        task.result()
     return out
 
 
@@ -190,16 +193,19 @@ def median_filter(arr, size=3, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    tasks = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            tasks.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=(size, size),
                 output=out[tuple(slc)],
-            )
+            ))
+    for task in tasks:
+        task.result()
     return out
 
 
@@ -497,15 +503,18 @@ def sobel_filter(arr, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    tasks = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            tasks.append(e.submit(
                 scipy.ndimage.sobel,
                 arr[tuple(slc)],
                 output=out[tuple(slc)],
-            )
+            ))
+    for task in tasks:
+        task.result()
     return out
 
 
@@ -597,16 +606,19 @@ def remove_outlier(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [size] * arr.ndim
     filt_size[axis] = 1
 
+    tasks = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[axis] = chnk_slices[i]
-            e.submit(
+            tasks.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
-            )
+            ))
+    for task in tasks:
+        task.result()
 
     arr = dtype.as_float32(arr)
     tmp = dtype.as_float32(tmp)
@@ -657,17 +669,20 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [1] * arr.ndim
     filt_size[axis] = size
 
+    tasks = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[lar_axis] = chnk_slices[i]
-            e.submit(
+            tasks.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
                 mode="mirror",
-            )
+            ))
+    for task in tasks:
+        task.result()
 
     with mproc.set_numexpr_threads(ncore):
         out = ne.evaluate("where(arr-tmp>=dif,tmp,arr)", out=out)
@@ -850,10 +865,13 @@ def remove_ring(
 
     axis_size = rec.shape[0]
     ncore, nchunk = mproc.get_ncore_nchunk(axis_size, ncore, nchunk)
+    tasks = []
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            e.submit(extern.c_remove_ring, out[slc], *args)
+            tasks.append(e.submit(extern.c_remove_ring, out[slc], *args))
+    for task in tasks:
+        task.result()
     return out
 
 
-- 
2.43.0


From 478cd4cc6110d59944434f90a9753f97fd9d9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:13 +0000
Subject: [PATCH 39/46] fix: remove_outlier1d with a negative axis filters
 blocks of the axis separately

---
 source/tomopy/misc/corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 18efa73..91f4fdc 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -662,7 +662,7 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
 
     tmp = np.empty_like(arr)
 
-    other_axes = [i for i in range(arr.ndim) if i != axis]
+    other_axes = [i for i in range(arr.ndim) if i != axis % arr.ndim]
     largest = np.argmax([arr.shape[i] for i in other_axes])
     lar_axis = other_axes[largest]
     ncore, chnk_slices = mproc.get_ncore_slices(arr.shape[lar_axis], ncore=ncore)
-- 
2.43.0


From b80046916ec7bff50cf8319c6b4f7ba73b97747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 40/46] fix: find_slits_corners_aps_1id cuts the upper right
 quadrant of non-square images wrong

---
 source/tomopy/prep/alignment.py | 2142 +++++++++++++++----------------
 1 file changed, 1071 insertions(+), 1071 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index abc70a9..2089eb5 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -1,1071 +1,1071 @@
-#!/usr/bin/env python
-# -*- coding: utf-8 -*-
-
-# #########################################################################
-# Copyright (c) 2016-2019, UChicago Argonne, LLC. All rights reserved.    #
-#                                                                         #
-# Copyright 2016-2019. UChicago Argonne, LLC. This software was produced  #
-# under U.S. Government contract DE-AC02-06CH11357 for Argonne National   #
-# Laboratory (ANL), which is operated by UChicago Argonne, LLC for the    #
-# U.S. Department of Energy. The U.S. Government has rights to use,       #
-# reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR    #
-# UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR        #
-# ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is     #
-# modified to produce derivative works, such modified software should     #
-# be clearly marked, so as not to confuse it with the version available   #
-# from ANL.                                                               #
-#                                                                         #
-# Additionally, redistribution and use in source and binary forms, with   #
-# or without modification, are permitted provided that the following      #
-# conditions are met:                                                     #
-#                                                                         #
-#     * Redistributions of source code must retain the above copyright    #
-#       notice, this list of conditions and the following disclaimer.     #
-#                                                                         #
-#     * Redistributions in binary form must reproduce the above copyright #
-#       notice, this list of conditions and the following disclaimer in   #
-#       the documentation and/or other materials provided with the        #
-#       distribution.                                                     #
-#                                                                         #
-#     * Neither the name of UChicago Argonne, LLC, Argonne National       #
-#       Laboratory, ANL, the U.S. Government, nor the names of its        #
-#       contributors may be used to endorse or promote products derived   #
-#       from this software without specific prior written permission.     #
-#                                                                         #
-# THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS     #
-# "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT       #
-# LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS       #
-# FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago     #
-# Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,        #
-# INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,    #
-# BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;        #
-# LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER        #
-# CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT      #
-# LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN       #
-# ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE         #
-# POSSIBILITY OF SUCH DAMAGE.                                             #
-# #########################################################################
-
-import numpy as np
-import concurrent.futures as cf
-import tomopy.util.mproc as mproc
-import logging
-
-from skimage import transform as tf
-from skimage.registration import phase_cross_correlation
-from tomopy.recon.algorithm import recon
-from tomopy.sim.project import project
-from tomopy.misc.npmath import gauss1d, calc_affine_transform
-from tomopy.util.misc import write_tiff
-from scipy.signal import medfilt, medfilt2d
-from scipy.optimize import curve_fit
-from scipy.ndimage import affine_transform
-from scipy.ndimage import map_coordinates
-from collections import namedtuple
-
-logger = logging.getLogger(__name__)
-
-
-__author__ = "Doga Gursoy, Chen Zhang, Nghia Vo"
-__copyright__ = "Copyright (c) 2016-19, UChicago Argonne, LLC."
-__docformat__ = 'restructuredtext en'
-__all__ = ['align_seq',
-           'align_joint',
-           'scale',
-           'tilt',
-           'add_jitter',
-           'add_noise',
-           'blur_edges',
-           'shift_images',
-           'find_slits_corners_aps_1id',
-           'calc_slit_box_aps_1id',
-           'remove_slits_aps_1id',
-           'distortion_correction_proj',
-           'distortion_correction_sino',
-           'load_distortion_coefs',
-           ]
-
-
-def align_seq(
-        prj, ang, fdir='.', iters=10, pad=(0, 0),
-        blur=True, center=None, algorithm='sirt',
-        upsample_factor=10, rin=0.5, rout=0.8,
-        save=False, debug=True):
-    """
-    Aligns the projection image stack using the sequential
-    re-projection algorithm :cite:`Gursoy:17`.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ang : ndarray
-        Projection angles in radians as an array.
-    iters : scalar, optional
-        Number of iterations of the algorithm.
-    pad : list-like, optional
-        Padding for projection images in x and y-axes.
-    blur : bool, optional
-        Blurs the edge of the image before registration.
-    center: array, optional
-        Location of rotation axis.
-    algorithm : {str, function}
-        One of the following string values.
-
-        'art'
-            Algebraic reconstruction technique :cite:`Kak:98`.
-        'gridrec'
-            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
-            :cite:`Rivers:06`.
-        'mlem'
-            Maximum-likelihood expectation maximization algorithm
-            :cite:`Dempster:77`.
-        'sirt'
-            Simultaneous algebraic reconstruction technique.
-        'tv'
-            Total Variation reconstruction technique
-            :cite:`Chambolle:11`.
-        'grad'
-            Gradient descent method with a constant step size
-
-    upsample_factor : integer, optional
-        The upsampling factor. Registration accuracy is
-        inversely propotional to upsample_factor.
-    rin : scalar, optional
-        The inner radius of blur function. Pixels inside
-        rin is set to one.
-    rout : scalar, optional
-        The outer radius of blur function. Pixels outside
-        rout is set to zero.
-    save : bool, optional
-        Saves projections and corresponding reconstruction
-        for each algorithm iteration.
-    debug : book, optional
-        Provides debugging info such as iterations and error.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    ndarray
-        Error array for each iteration.
-    """
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Shift arrays
-    sx = np.zeros((prj.shape[0]))
-    sy = np.zeros((prj.shape[0]))
-
-    conv = np.zeros((iters))
-
-    # Pad images.
-    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
-    prj = np.pad(prj, npad, mode='constant', constant_values=0)
-
-    # Register each image frame-by-frame.
-    for n in range(iters):
-        # Reconstruct image.
-        rec = recon(prj, ang, center=center, algorithm=algorithm)
-
-        # Re-project data and obtain simulated data.
-        sim = project(rec, ang, center=center, pad=False)
-
-        # Blur edges.
-        if blur:
-            _prj = blur_edges(prj, rin, rout)
-            _sim = blur_edges(sim, rin, rout)
-        else:
-            _prj = prj
-            _sim = sim
-
-        # Initialize error matrix per iteration.
-        err = np.zeros((prj.shape[0]))
-
-        # For each projection
-        for m in range(prj.shape[0]):
-
-            # Register current projection in sub-pixel precision
-            shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], upsample_factor=upsample_factor)
-            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
-            sx[m] += shift[0]
-            sy[m] += shift[1]
-
-            # Register current image with the simulated one
-            tform = tf.SimilarityTransform(translation=(shift[1], shift[0]))
-            prj[m] = tf.warp(prj[m], tform, order=5)
-
-        if debug:
-            print('iter=' + str(n) + ', err=' + str(np.linalg.norm(err)))
-            conv[n] = np.linalg.norm(err)
-
-        if save:
-            write_tiff(prj, fdir + '/tmp/iters/prj', n)
-            write_tiff(sim, fdir + '/tmp/iters/sim', n)
-            write_tiff(rec, fdir + '/tmp/iters/rec', n)
-
-    # Re-normalize data
-    prj *= scl
-    return prj, sx, sy, conv
-
-
-def align_joint(
-        prj, ang, fdir='./', iters=10, pad=(0, 0),
-        blur=True, center=None, algorithm='sirt',
-        upsample_factor=10, rin=0.5, rout=0.8,
-        save=False, debug=True):
-    """
-    Aligns the projection image stack using the joint
-    re-projection algorithm :cite:`Gursoy:17`.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ang : ndarray
-        Projection angles in radians as an array.
-    iters : scalar, optional
-        Number of iterations of the algorithm.
-    pad : list-like, optional
-        Padding for projection images in x and y-axes.
-    blur : bool, optional
-        Blurs the edge of the image before registration.
-    center: array, optional
-        Location of rotation axis.
-    algorithm : {str, function}
-        One of the following string values.
-
-        'art'
-            Algebraic reconstruction technique :cite:`Kak:98`.
-        'gridrec'
-            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
-            :cite:`Rivers:06`.
-        'mlem'
-            Maximum-likelihood expectation maximization algorithm
-            :cite:`Dempster:77`.
-        'sirt'
-            Simultaneous algebraic reconstruction technique.
-        'tv'
-            Total Variation reconstruction technique
-            :cite:`Chambolle:11`.
-        'grad'
-            Gradient descent method with a constant step size
-
-    upsample_factor : integer, optional
-        The upsampling factor. Registration accuracy is
-        inversely propotional to upsample_factor.
-    rin : scalar, optional
-        The inner radius of blur function. Pixels inside
-        rin is set to one.
-    rout : scalar, optional
-        The outer radius of blur function. Pixels outside
-        rout is set to zero.
-    save : bool, optional
-        Saves projections and corresponding reconstruction
-        for each algorithm iteration.
-    debug : book, optional
-        Provides debugging info such as iterations and error.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    ndarray
-        Error array for each iteration.
-    """
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Shift arrays
-    sx = np.zeros((prj.shape[0]))
-    sy = np.zeros((prj.shape[0]))
-
-    conv = np.zeros((iters))
-
-    # Pad images.
-    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
-    prj = np.pad(prj, npad, mode='constant', constant_values=0)
-
-    # Initialization of reconstruction.
-    rec = 1e-12 * np.ones((prj.shape[1], prj.shape[2], prj.shape[2]))
-
-    extra_kwargs = {}
-    if algorithm != 'gridrec':
-        extra_kwargs['num_iter'] = 1
-
-    # Make a copy of the projections
-    prj_copy = prj.copy()
-
-    # Register each image frame-by-frame.
-    for n in range(iters):
-
-        if np.mod(n, 1) == 0:
-            _rec = rec
-
-        # Reconstruct image.
-        rec = recon(prj_copy, ang, center=center, algorithm=algorithm,
-                    init_recon=_rec, **extra_kwargs)
-
-        # Re-project data and obtain simulated data.
-        sim = project(rec, ang, center=center, pad=False)
-
-        # Blur edges.
-        if blur:
-            _prj = blur_edges(prj_copy, rin, rout)
-            _sim = blur_edges(sim, rin, rout)
-        else:
-            _prj = prj_copy
-            _sim = sim
-
-        # Initialize error matrix per iteration.
-        err = np.zeros((prj.shape[0]))
-
-        # For each projection
-        for m in range(prj.shape[0]):
-
-            # Register current projection in sub-pixel precision
-            shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], normalization=None,
-                    upsample_factor=upsample_factor)
-            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
-            sx[m] += shift[0]
-            sy[m] += shift[1]
-
-            # Register current image with the simulated one
-            tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
-            prj_copy[m] = tf.warp(prj[m].copy(), tform, order=5)
-
-        if debug:
-            print('iter=' + str(n) + 
-                  ', err=' + str(np.linalg.norm(err) / prj.shape[0]))
-            conv[n] = np.linalg.norm(err)
-
-        if save:
-            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
-            write_tiff(sim, fdir + 'tmp/iters/sim', n)
-            write_tiff(rec, fdir + 'tmp/iters/rec', n)
-            write_tiff(sx, fdir + 'tmp/iters/sx', n)
-            write_tiff(sy, fdir + 'tmp/iters/sy', n)
-
-    # Re-normalize data
-    prj *= scl
-    return prj, sx, sy, conv
-
-
-def tilt(obj, rad=0, phi=0):
-    """
-    Tilt object at a given angle from the rotation axis.
-
-    Warning
-    -------
-    Not implemented yet.
-
-    Parameters
-    ----------
-    obj : ndarray
-        3D discrete object.
-    rad : scalar, optional
-        Radius in polar cordinates to define tilt angle.
-        The value is between 0 and 1, where 0 means no tilt
-        and 1 means a tilt of 90 degrees. The tilt angle
-        can be obtained by arcsin(rad).
-    phi : scalar, optional
-        Angle in degrees to define tilt direction from the
-        rotation axis. 0 degree means rotation in sagittal
-        plane and 90 degree means rotation in coronal plane.
-
-    Returns
-    -------
-    ndarray
-        Tilted 3D object.
-    """
-    pass
-
-
-def add_jitter(prj, low=0, high=1):
-    """
-    Simulates jitter in projection images. The jitter
-    is simulated by drawing random samples from a uniform
-    distribution over the half-open interval [low, high).
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    low : float, optional
-        Lower boundary of the output interval. All values
-        generated will be greater than or equal to low. The
-        default value is 0.
-    high : float
-        Upper boundary of the output interval. All values
-        generated will be less than high. The default value
-        is 1.0.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    """
-    from skimage import transform as tf
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Random jitter parameters are drawn from uniform distribution.
-    jitter = np.random.uniform(low, high, size=(prj.shape[0], 2))
-
-    for m in range(prj.shape[0]):
-        tform = tf.SimilarityTransform(translation=jitter[m])
-        prj[m] = tf.warp(prj[m], tform, order=0)
-
-    # Re-scale back to original values.
-    prj *= scl
-    return prj, jitter[:, 0], jitter[:, 1]
-
-
-def add_noise(prj, ratio=0.05):
-    """
-    Adds Gaussian noise with zero mean and a given standard
-    deviation as a ratio of the maximum value in data.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ratio : float, optional
-        Ratio of the standard deviation of the Gaussian noise
-        distribution to the maximum value in data.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with added Gaussian noise.
-    """
-    std = prj.max() * ratio
-    noise = np.random.normal(0, std, size=prj.shape)
-    return prj + noise.astype('float32')
-
-
-def scale(prj):
-    """
-    Linearly scales the projection images in the range
-    between -1 and 1.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-
-    Returns
-    -------
-    ndarray
-        Scaled 3D stack of projection images.
-    """
-    scl = max(abs(prj.max()), abs(prj.min()))
-    prj /= scl
-    return prj, scl
-
-
-def blur_edges(prj, low=0, high=0.8):
-    """
-    Blurs the edge of the projection images.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    low : scalar, optional
-        Min ratio of the blurring frame to the image size.
-    high : scalar, optional
-        Max ratio of the blurring frame to the image size.
-
-    Returns
-    -------
-    ndarray
-        Edge-blurred 3D stack of projection images.
-    """
-    _prj = prj.copy()
-    dx, dy, dz = _prj.shape
-    rows, cols = np.mgrid[:dy, :dz]
-    rad = np.sqrt((rows - dy / 2)**2 + (cols - dz / 2)**2)
-    mask = np.zeros((dy, dz))
-    rmin, rmax = low * rad.max(), high * rad.max()
-    mask[rad < rmin] = 1
-    mask[rad > rmax] = 0
-    zone = np.logical_and(rad >= rmin, rad <= rmax)
-    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
-    feathered = np.empty((dy, dz), dtype=np.uint8)
-    _prj *= mask
-    return _prj
-
-
-def shift_images(prj, sx, sy):
-    """
-    Shift projections images for a given set of shift
-    values in horizontal and vertical directions.
-    """
-
-    from skimage import transform as tf
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # For each projection
-    for m in range(prj.shape[0]):
-        tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
-        prj[m] = tf.warp(prj[m], tform, order=5)
-
-    # Re-normalize data
-    prj *= scl
-
-    return prj
-
-
-def find_slits_corners_aps_1id(img,
-                               method='quadrant+',
-                               medfilt2_kernel_size=3,
-                               medfilt_kernel_size=23,
-                               ):
-    """
-    Automatically locate the slit box location by its four corners.
-
-    NOTE:
-    The four slits that form a binding box is the current setup at aps_1id,
-    which reduce the illuminated region on the detector. Since the slits are
-    stationary, they can serve as a reference to check detector drifting
-    during the scan. Technically, the four slits should be used to find
-    the transformation matrix (not necessarily affine) to correct the image.
-    However, since we are dealing with 2D images with very little distortion,
-    affine transformation matrices were used for approximation. Therefore
-    the "four corners" are used instead of all four slits.
-
-    Parameters
-    ----------
-    img : np.ndarray
-        2D images
-    method : str,  ['simple', 'quadrant', 'quadrant+'], optional
-        method for auto detecting slit corners
-            - simple    :: assume a rectange slit box, fast but less accurate
-                           (1 pixel precision)
-            - quadrant  :: subdivide the image into four quandrant, then use
-                           an explicit method to find the corner
-                           (1 pixel precision)
-            - quadrant+ :: similar to quadrant, but use curve_fit (gauss1d) to
-                           find the corner
-                           (0.1 pixel precision)
-    medfilt2_kernel_size : int, optional
-        2D median filter kernel size for noise reduction
-    medfilt_kernel_size : int, optional
-        1D median filter kernel size for noise reduction
-
-    Returns
-    -------
-    tuple
-        autodetected slit corners (counter-clockwise order)
-        (upperLeft, lowerLeft, lowerRight, upperRight)
-    """
-    img = medfilt2d(np.log(img.astype(np.float64)),
-                    kernel_size=medfilt2_kernel_size,
-                    )
-    rows, cols = img.shape
-
-    # simple method is simple, therefore it stands out
-    if method.lower() == 'simple':
-        # assuming a rectangle type slit box
-        col_std = medfilt(np.std(img, axis=0), kernel_size=medfilt_kernel_size)
-        row_std = medfilt(np.std(img, axis=1), kernel_size=medfilt_kernel_size)
-        # NOTE: in the tiff img
-        #  x is col index, y is the row index  ==> key point here !!!
-        #  img slicing is doen with img[row_idx, col_idx]
-        #  ==> so the image idx and corner position are FLIPPED!
-        _left = np.argmax(np.gradient(col_std))
-        _right = np.argmin(np.gradient(col_std))
-        _top = np.argmax(np.gradient(row_std))
-        _bottom = np.argmin(np.gradient(row_std))
-
-        cnrs = np.array([[_left, _top],
-                         [_left, _bottom],
-                         [_right, _bottom],
-                         [_right, _top],
-                         ])
-    else:
-        # predefine all quadrants
-        # Here let's assume that the four corners of the slit box are in the
-        # four quadrant defined by the center of the image
-        # i.e.
-        #  uppper left quadrant: img[0     :cnt[1], 0     :cnt[0]]  => quadarnt origin =  (0,           0)
-        #  lower  left quadrant: img[cnt[1]:      , 0     :cnt[0]]  => quadarnt origin =  (cnt[0],      0)
-        #  lower right quadrant: img[cnt[1]:      , cnt[0]:      ]  => quadarnt origin =  (cnt[0], cnt[1])
-        # upper right quadrant: img[0     :cnt[1], cnt[0]:      ]  => quadarnt
-        # origin =  (0,      cnt[1])
-        # center of image that defines FOUR quadrants
-        cnt = [int(cols / 2), int(rows / 2)]
-        Quadrant = namedtuple('Quadrant', 'img col_func, row_func')
-        quadrants = [Quadrant(img=img[0:cnt[1], 0:cnt[0]], col_func=np.argmax, row_func=np.argmax),  # upper left,  1st quadrant
-                     # lower left,  2nd quadrant
-                     Quadrant(img=img[cnt[1]:, 0:cnt[0]],
-                              col_func=np.argmax, row_func=np.argmin),
-                     # lower right, 3rd quadrant
-                     Quadrant(img=img[cnt[1]:, cnt[0]:],
-                              col_func=np.argmin, row_func=np.argmin),
-                     # upper right, 4th quadrant
-                     Quadrant(img=img[0:cnt[0], cnt[1]:],
-                              col_func=np.argmin, row_func=np.argmax),
-                     ]
-        # the origin in each quadrants ==> easier to set it here
-        quadrantorigins = np.array([[0, 0],  # upper left,  1st quadrant
-                                    [0, cnt[1]],  # lower left,  2nd quadrant
-                                    # lower right, 3rd quadrant
-                                    [cnt[0], cnt[1]],
-                                    [cnt[1], 0],  # upper right, 4th quadrant
-                                    ])
-        # init four corners
-        cnrs = np.zeros((4, 2))
-        if method.lower() == 'quadrant':
-            # the standard quadrant method
-            for i, q in enumerate(quadrants):
-                cnrs[i, :] = np.array([q.col_func(np.gradient(medfilt(np.std(q.img, axis=0), kernel_size=medfilt_kernel_size))),  # x is col_idx
-                                       q.row_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=1),
-                            kernel_size=medfilt_kernel_size))),
-                    # y is row_idx
-                ])
-            # add the origin offset back
-            cnrs = cnrs + quadrantorigins
-        elif method.lower() == 'quadrant+':
-            # use Gaussian curve fitting to achive subpixel precision
-            # TODO:
-            # improve the curve fitting with Lorentz and Voigt fitting function
-            for i, q in enumerate(quadrants):
-                # -- find x subpixel position
-                cnr_x_guess = q.col_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=0),
-                            kernel_size=medfilt_kernel_size)))
-                # isolate the strongest peak to fit
-                tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
-                tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
-                # tmpy[0] is the value from the highest/lowest pixle
-                # tmpx[0] is basically cnr_x_guess
-                # 5.0 is the guessted std,
-                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
-                                     maxfev=int(1e6),
-                                     )
-                cnrs[i, 0] = coeff[1]  # x position
-                # -- find y subpixel positoin
-                cnr_y_guess = q.row_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=1),
-                            kernel_size=medfilt_kernel_size)))
-                # isolate the peak (x, y here is only associated with the peak)
-                tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
-                tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
-                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
-                                     maxfev=int(1e6),
-                                     )
-                cnrs[i, 1] = coeff[1]  # y posiiton
-            # add the quadrant shift back
-            cnrs = cnrs + quadrantorigins
-
-        else:
-            raise NotImplementedError(
-                "Available methods are: simple, quadrant, quadrant+")
-
-    # return the slit corner detected
-    return cnrs
-
-
-def calc_slit_box_aps_1id(slit_box_corners, inclip=(1, 10, 1, 10)):
-    """
-    Calculate the clip box based on given slip corners.
-
-    Parameters
-    ----------
-    slit_box_corners : np.ndarray
-        Four corners of the slit box as a 4x2 matrix
-    inclip : tuple, optional
-        Extra inclipping to avoid clipping artifacts
-
-    Returns
-    -------
-    Tuple:
-        Cliping indices as a tuple of four
-        (clipFromTop, clipToBottom, clipFromLeft, clipToRight)
-
-    """
-    return (
-        np.floor(slit_box_corners[:, 0].min()).astype(
-            int) + inclip[0],  # clip top    row
-        np.ceil(slit_box_corners[:, 0].max()).astype(
-            int) - inclip[1],  # clip bottom row
-        np.floor(slit_box_corners[:, 1].min()).astype(
-            int) + inclip[2],  # clip left   col
-        np.ceil(slit_box_corners[:, 1].max()).astype(
-            int) - inclip[3],  # clip right  col
-    )
-
-
-def remove_slits_aps_1id(imgstacks, slit_box_corners, inclip=(1, 10, 1, 10)):
-    """
-    Remove the slits from still images
-
-    Parameters
-    ----------
-    imgstacks : np.ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    slit_box_corners : np.ndarray
-        four corners of the slit box
-    inclip : tuple, optional
-        Extra inclipping to avoid clipping artifacts
-
-    Returns
-    -------
-    np.ndarray
-        tomopy images stacks without regions outside slits
-    """
-    xl, xu, yl, yu = calc_slit_box_aps_1id(slit_box_corners, inclip=inclip)
-    return imgstacks[:, yl:yu, xl:xu]
-
-
-def detector_drift_adjust_aps_1id(imgstacks,
-                                  slit_cnr_ref,
-                                  medfilt2_kernel_size=3,
-                                  medfilt_kernel_size=3,
-                                  ncore=None,
-                                  ):
-    """
-    Adjust each still image based on the slit corners and generate report fig
-
-    Parameters
-    ----------
-    imgstacks : np.ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    slit_cnr_ref : np.ndarray
-        reference slit corners from white field images
-    medfilt2_kernel_size : int, optional
-        2D median filter kernel size for slit conner detection
-    medfilt_kernel_size  : int, optional
-        1D median filter kernel size for slit conner detection
-    ncore : int, optional
-        number of cores used for speed up
-
-    Returns
-    -------
-    np.ndarray
-        adjusted imgstacks
-    np.ndarray
-        detected corners on each still image
-    np.ndarray
-        transformation matrices used to adjust each image
-    """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
-
-    def quick_diff(x): return np.amax(np.absolute(x))
-
-    # -- find all projection corners (slow)
-    # NOTE:
-    #  Here we are using an iterative approach to find stable slit corners
-    #  from each image
-    #  1. calculate all slit corners with the given kernel size, preferably
-    #     a small one for speed.
-    #  2. double the kernel size and calculate again, but this time we are
-    #     checking whether the slit corners are stable.
-    #  3. find the ids (n_imgs) for those that are difficult, continue
-    #     increasing the kernel size until all slit corners are found, or max
-    #     number of iterations.
-    #  4. move on to next step.
-    nlist = range(imgstacks.shape[0])
-    proj_cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
-                                'quadrant+',
-                                medfilt2_kernel_size,
-                                medfilt_kernel_size,
-                                )
-    cnrs_found = np.array([quick_diff(proj_cnrs[n, :, :] - slit_cnr_ref) < 15
-                           for n in nlist])
-    kernels = [(medfilt2_kernel_size+2*i, medfilt_kernel_size+2*j)
-               for i in range(15)
-               for j in range(15)]
-    counter = 0
-
-    while not cnrs_found.all():
-        nlist = [idx for idx, cnr_found in enumerate(cnrs_found)
-                 if not cnr_found]
-        # NOTE:
-        #   Check to see if we run out of candidate kernels:
-        if counter > len(kernels):
-            # we are giving up here...
-            for idx, n_img in enumerate(nlist):
-                proj_cnrs[n_img, :, :] = slit_cnr_ref
-            break
-        else:
-            # test with differnt 2D and 1D kernels
-            ks2d, ks1d = kernels[counter]
-
-        _cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
-                                'quadrant+', ks2d, ks1d)
-        for idx, _cnr in enumerate(_cnrs):
-            n_img = nlist[idx]
-            cnr = proj_cnrs[n_img, :, :]  # previous results
-            # NOTE:
-            #  The detector corner should not be far away from reference
-            #  -> adiff < 15
-            #  The detected corner should be stable
-            #  -> rdiff < 0.1 (pixel)s
-            adiff = quick_diff(_cnr - slit_cnr_ref)
-            rdiff = quick_diff(_cnr - cnr)
-            if rdiff < 0.1 and adiff < 15:
-                cnrs_found[n_img] = True
-            else:
-                # update results
-                proj_cnrs[n_img, :, :] = _cnr  # update results for next iter
-
-        # next
-        counter += 1
-
-    # -- calculate affine transformation (fast)
-    img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
-    for n_img in range(imgstacks.shape[0]):
-        img_correct_F[n_img, :, :] = calc_affine_transform(
-            proj_cnrs[n_img, :, :], slit_cnr_ref)
-
-    # -- apply affine transformation (slow)
-    tmp = []
-    with cf.ProcessPoolExecutor(ncore) as e:
-        for n_img in range(imgstacks.shape[0]):
-            tmp.append(e.submit(affine_transform,
-                                # input image
-                                imgstacks[n_img, :, :],
-                                # rotation matrix
-                                img_correct_F[n_img, 0:2, 0:2],
-                                # offset vector
-                                offset=img_correct_F[n_img, 0:2,  2],
-                                )
-                       )
-    imgstacks = np.stack([me.result() for me in tmp], axis=0)
-
-    return imgstacks, proj_cnrs, img_correct_F
-
-
-def _calc_proj_cnrs(imgs,
-                    ncore,
-                    nlist,
-                    method,
-                    medfilt2_kernel_size,
-                    medfilt_kernel_size,
-                    ):
-    """
-    Private function calculate slit corners concurrently
-
-    Parameters
-    ----------
-    imgs : ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    ncore : int
-        number of cores to use
-    nlist : list of int
-        index of images to be processed
-    method : str
-        slit corner detection method name
-    medfilt2_kernel_size : int
-        2D median filter kernel size, must be odd
-    medfilt_kernel_size : int
-        1D median filter kernel size, must be odd
-
-    Returns
-    -------
-    np.3darray
-        detected corners on each still image
-    """
-    tmp = []
-    with cf.ProcessPoolExecutor(ncore) as e:
-        for n_img in nlist:
-            tmp.append(e.submit(find_slits_corners_aps_1id,
-                                imgs[n_img, :, :],
-                                method=method,
-                                medfilt2_kernel_size=medfilt2_kernel_size,
-                                medfilt_kernel_size=medfilt_kernel_size,
-                                )
-                       )
-    return np.stack([me.result() for me in tmp], axis=0)
-
-
-def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
-                                ncore=None, nchunk=None):
-    """
-    Apply distortion correction to projections using the polynomial model.
-    Coefficients are calculated using Vounwarp package :cite:`Vo:15`.
-
-    .. versionadded:: 1.7
-
-    Parameters
-    ----------
-    tomo : ndarray
-        3D tomographic data.
-    xcenter : float
-        Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-        Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-        Polynomial coefficients of the backward model.
-    ncore : int, optional
-        Number of cores that will be assigned to jobs.
-    nchunk : int, optional
-        Chunk size for each core.
-
-    Returns
-    -------
-    ndarray
-        Corrected 3D tomographic data.
-    """
-    arr = mproc.distribute_jobs(
-        tomo,
-        func=_distortion_correction_proj,
-        args=(xcenter, ycenter, list_fact),
-        axis=0,
-        ncore=ncore,
-        nchunk=nchunk)
-    return arr
-
-
-def _unwarp_image_backward(mat, xcenter, ycenter, list_fact):
-    """
-    Unwarp an image using the polynomial model.
-
-    Parameters
-    ----------
-    mat : 2D array.
-    xcenter : float
-            Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-            Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-            Polynomial coefficients of the backward model.
-
-    Returns
-    -------
-    2D array
-        Corrected image.
-    """
-    (height, width) = mat.shape
-    xu_list = np.arange(width) - xcenter
-    yu_list = np.arange(height) - ycenter
-    xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
-    ru_mat = np.sqrt(xu_mat**2 + yu_mat**2)
-    fact_mat = np.sum(
-        np.asarray([factor * ru_mat**i for i,
-                    factor in enumerate(list_fact)]), axis=0)
-    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
-    indices = np.reshape(yd_mat, (-1, 1)), np.reshape(xd_mat, (-1, 1))
-    mat = map_coordinates(mat, indices, order=1, mode='reflect')
-    return mat.reshape((height, width))
-
-
-def _distortion_correction_proj(tomo, xcenter, ycenter, list_fact):
-    for m in np.arange(tomo.shape[0]):
-        proj = tomo[m, :, :]
-        proj = _unwarp_image_backward(proj, xcenter, ycenter, list_fact)
-        tomo[m, :, :] = proj
-
-
-def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
-    """
-    Generate an unwarped sinogram of a 3D tomographic data using
-    the polynomial model. Coefficients are calculated using Vounwarp
-    package :cite:`Vo:15`.
-
-    .. versionadded:: 1.7
-
-    Parameters
-    ----------
-    tomo : ndarray
-        3D tomographic data.
-    ind : int
-        Index of the unwarped sinogram.
-    xcenter : float
-        Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-        Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-        Polynomial coefficients of the backward model.
-
-    Returns
-    -------
-    2D array
-        Corrected sinogram.
-    """
-    (depth, height, width) = tomo.shape
-    xu_list = np.arange(0, width) - xcenter
-    yu = ind - ycenter
-    ru_list = np.sqrt(xu_list**2 + yu**2)
-    flist = np.sum(
-        np.asarray([factor * ru_list**i for i,
-                    factor in enumerate(list_fact)]), axis=0)
-    xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
-    yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
-    yd_list = yd_list - yd_min
-    sino = np.zeros((depth, width), dtype=np.float32)
-    indices = yd_list, xd_list
-    for i in np.arange(depth):
-        sino[i] = map_coordinates(
-            tomo[i, yd_min:yd_max, :], indices, order=1, mode='reflect')
-    return sino
-
-
-def load_distortion_coefs(file_path):
-        """
-        Load distortion coefficients from a text file.
-        Order of the infor in the text file:
-        xcenter
-        ycenter
-        factor_0
-        factor_1
-        factor_2
-        ..
-
-        Parameters
-        ----------
-        file_path: Path to the file.
-
-        Returns
-        -------
-        Tuple of (xcenter, ycenter, list_fact).
-        """
-        with open(file_path, 'r') as f:
-            x = f.read().splitlines()
-            list_data = []
-            for i in x:
-                list_data.append(float(i.split()[-1]))
-        xcenter = list_data[0]
-        ycenter = list_data[1]
-        list_fact = list_data[2:]
-        return xcenter, ycenter, list_fact
+#!/usr/bin/env python
+# -*- coding: utf-8 -*-
+
+# #########################################################################
+# Copyright (c) 2016-2019, UChicago Argonne, LLC. All rights reserved.    #
+#                                                                         #
+# Copyright 2016-2019. UChicago Argonne, LLC. This software was produced  #
+# under U.S. Government contract DE-AC02-06CH11357 for Argonne National   #
+# Laboratory (ANL), which is operated by UChicago Argonne, LLC for the    #
+# U.S. Department of Energy. The U.S. Government has rights to use,       #
+# reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR    #
+# UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR        #
+# ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is     #
+# modified to produce derivative works, such modified software should     #
+# be clearly marked, so as not to confuse it with the version available   #
+# from ANL.                                                               #
+#                                                                         #
+# Additionally, redistribution and use in source and binary forms, with   #
+# or without modification, are permitted provided that the following      #
+# conditions are met:                                                     #
+#                                                                         #
+#     * Redistributions of source code must retain the above copyright    #
+#       notice, this list of conditions and the following disclaimer.     #
+#                                                                         #
+#     * Redistributions in binary form must reproduce the above copyright #
+#       notice, this list of conditions and the following disclaimer in   #
+#       the documentation and/or other materials provided with the        #
+#       distribution.                                                     #
+#                                                                         #
+#     * Neither the name of UChicago Argonne, LLC, Argonne National       #
+#       Laboratory, ANL, the U.S. Government, nor the names of its        #
+#       contributors may be used to endorse or promote products derived   #
+#       from this software without specific prior written permission.     #
+#                                                                         #
+# THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS     #
+# "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT       #
+# LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS       #
+# FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago     #
+# Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,        #
+# INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,    #
+# BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;        #
+# LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER        #
+# CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT      #
+# LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN       #
+# ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE         #
+# POSSIBILITY OF SUCH DAMAGE.                                             #
+# #########################################################################
+
+import numpy as np
+import concurrent.futures as cf
+import tomopy.util.mproc as mproc
+import logging
+
+from skimage import transform as tf
+from skimage.registration import phase_cross_correlation
+from tomopy.recon.algorithm import recon
+from tomopy.sim.project import project
+from tomopy.misc.npmath import gauss1d, calc_affine_transform
+from tomopy.util.misc import write_tiff
+from scipy.signal import medfilt, medfilt2d
+from scipy.optimize import curve_fit
+from scipy.ndimage import affine_transform
+from scipy.ndimage import map_coordinates
+from collections import namedtuple
+
+logger = logging.getLogger(__name__)
+
+
+__author__ = "Doga Gursoy, Chen Zhang, Nghia Vo"
+__copyright__ = "Copyright (c) 2016-19, UChicago Argonne, LLC."
+__docformat__ = 'restructuredtext en'
+__all__ = ['align_seq',
+           'align_joint',
+           'scale',
+           'tilt',
+           'add_jitter',
+           'add_noise',
+           'blur_edges',
+           'shift_images',
+           'find_slits_corners_aps_1id',
+           'calc_slit_box_aps_1id',
+           'remove_slits_aps_1id',
+           'distortion_correction_proj',
+           'distortion_correction_sino',
+           'load_distortion_coefs',
+           ]
+
+
+def align_seq(
+        prj, ang, fdir='.', iters=10, pad=(0, 0),
+        blur=True, center=None, algorithm='sirt',
+        upsample_factor=10, rin=0.5, rout=0.8,
+        save=False, debug=True):
+    """
+    Aligns the projection image stack using the sequential
+    re-projection algorithm :cite:`Gursoy:17`.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ang : ndarray
+        Projection angles in radians as an array.
+    iters : scalar, optional
+        Number of iterations of the algorithm.
+    pad : list-like, optional
+        Padding for projection images in x and y-axes.
+    blur : bool, optional
+        Blurs the edge of the image before registration.
+    center: array, optional
+        Location of rotation axis.
+    algorithm : {str, function}
+        One of the following string values.
+
+        'art'
+            Algebraic reconstruction technique :cite:`Kak:98`.
+        'gridrec'
+            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
+            :cite:`Rivers:06`.
+        'mlem'
+            Maximum-likelihood expectation maximization algorithm
+            :cite:`Dempster:77`.
+        'sirt'
+            Simultaneous algebraic reconstruction technique.
+        'tv'
+            Total Variation reconstruction technique
+            :cite:`Chambolle:11`.
+        'grad'
+            Gradient descent method with a constant step size
+
+    upsample_factor : integer, optional
+        The upsampling factor. Registration accuracy is
+        inversely propotional to upsample_factor.
+    rin : scalar, optional
+        The inner radius of blur function. Pixels inside
+        rin is set to one.
+    rout : scalar, optional
+        The outer radius of blur function. Pixels outside
+        rout is set to zero.
+    save : bool, optional
+        Saves projections and corresponding reconstruction
+        for each algorithm iteration.
+    debug : book, optional
+        Provides debugging info such as iterations and error.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    ndarray
+        Error array for each iteration.
+    """
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Shift arrays
+    sx = np.zeros((prj.shape[0]))
+    sy = np.zeros((prj.shape[0]))
+
+    conv = np.zeros((iters))
+
+    # Pad images.
+    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
+    prj = np.pad(prj, npad, mode='constant', constant_values=0)
+
+    # Register each image frame-by-frame.
+    for n in range(iters):
+        # Reconstruct image.
+        rec = recon(prj, ang, center=center, algorithm=algorithm)
+
+        # Re-project data and obtain simulated data.
+        sim = project(rec, ang, center=center, pad=False)
+
+        # Blur edges.
+        if blur:
+            _prj = blur_edges(prj, rin, rout)
+            _sim = blur_edges(sim, rin, rout)
+        else:
+            _prj = prj
+            _sim = sim
+
+        # Initialize error matrix per iteration.
+        err = np.zeros((prj.shape[0]))
+
+        # For each projection
+        for m in range(prj.shape[0]):
+
+            # Register current projection in sub-pixel precision
+            shift, error, diffphase = phase_cross_correlation(
+                    _prj[m], _sim[m], upsample_factor=upsample_factor)
+            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
+            sx[m] += shift[0]
+            sy[m] += shift[1]
+
+            # Register current image with the simulated one
+            tform = tf.SimilarityTransform(translation=(shift[1], shift[0]))
+            prj[m] = tf.warp(prj[m], tform, order=5)
+
+        if debug:
+            print('iter=' + str(n) + ', err=' + str(np.linalg.norm(err)))
+            conv[n] = np.linalg.norm(err)
+
+        if save:
+            write_tiff(prj, fdir + '/tmp/iters/prj', n)
+            write_tiff(sim, fdir + '/tmp/iters/sim', n)
+            write_tiff(rec, fdir + '/tmp/iters/rec', n)
+
+    # Re-normalize data
+    prj *= scl
+    return prj, sx, sy, conv
+
+
+def align_joint(
+        prj, ang, fdir='./', iters=10, pad=(0, 0),
+        blur=True, center=None, algorithm='sirt',
+        upsample_factor=10, rin=0.5, rout=0.8,
+        save=False, debug=True):
+    """
+    Aligns the projection image stack using the joint
+    re-projection algorithm :cite:`Gursoy:17`.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ang : ndarray
+        Projection angles in radians as an array.
+    iters : scalar, optional
+        Number of iterations of the algorithm.
+    pad : list-like, optional
+        Padding for projection images in x and y-axes.
+    blur : bool, optional
+        Blurs the edge of the image before registration.
+    center: array, optional
+        Location of rotation axis.
+    algorithm : {str, function}
+        One of the following string values.
+
+        'art'
+            Algebraic reconstruction technique :cite:`Kak:98`.
+        'gridrec'
+            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
+            :cite:`Rivers:06`.
+        'mlem'
+            Maximum-likelihood expectation maximization algorithm
+            :cite:`Dempster:77`.
+        'sirt'
+            Simultaneous algebraic reconstruction technique.
+        'tv'
+            Total Variation reconstruction technique
+            :cite:`Chambolle:11`.
+        'grad'
+            Gradient descent method with a constant step size
+
+    upsample_factor : integer, optional
+        The upsampling factor. Registration accuracy is
+        inversely propotional to upsample_factor.
+    rin : scalar, optional
+        The inner radius of blur function. Pixels inside
+        rin is set to one.
+    rout : scalar, optional
+        The outer radius of blur function. Pixels outside
+        rout is set to zero.
+    save : bool, optional
+        Saves projections and corresponding reconstruction
+        for each algorithm iteration.
+    debug : book, optional
+        Provides debugging info such as iterations and error.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    ndarray
+        Error array for each iteration.
+    """
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Shift arrays
+    sx = np.zeros((prj.shape[0]))
+    sy = np.zeros((prj.shape[0]))
+
+    conv = np.zeros((iters))
+
+    # Pad images.
+    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
+    prj = np.pad(prj, npad, mode='constant', constant_values=0)
+
+    # Initialization of reconstruction.
+    rec = 1e-12 * np.ones((prj.shape[1], prj.shape[2], prj.shape[2]))
+
+    extra_kwargs = {}
+    if algorithm != 'gridrec':
+        extra_kwargs['num_iter'] = 1
+
+    # Make a copy of the projections
+    prj_copy = prj.copy()
+
+    # Register each image frame-by-frame.
+    for n in range(iters):
+
+        if np.mod(n, 1) == 0:
+            _rec = rec
+
+        # Reconstruct image.
+        rec = recon(prj_copy, ang, center=center, algorithm=algorithm,
+                    init_recon=_rec, **extra_kwargs)
+
+        # Re-project data and obtain simulated data.
+        sim = project(rec, ang, center=center, pad=False)
+
+        # Blur edges.
+        if blur:
+            _prj = blur_edges(prj_copy, rin, rout)
+            _sim = blur_edges(sim, rin, rout)
+        else:
+            _prj = prj_copy
+            _sim = sim
+
+        # Initialize error matrix per iteration.
+        err = np.zeros((prj.shape[0]))
+
+        # For each projection
+        for m in range(prj.shape[0]):
+
+            # Register current projection in sub-pixel precision
+            shift, error, diffphase = phase_cross_correlation(
+                    _prj[m], _sim[m], normalization=None,
+                    upsample_factor=upsample_factor)
+            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
+            sx[m] += shift[0]
+            sy[m] += shift[1]
+
+            # Register current image with the simulated one
+            tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
+            prj_copy[m] = tf.warp(prj[m].copy(), tform, order=5)
+
+        if debug:
+            print('iter=' + str(n) + 
+                  ', err=' + str(np.linalg.norm(err) / prj.shape[0]))
+            conv[n] = np.linalg.norm(err)
+
+        if save:
+            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
+            write_tiff(sim, fdir + 'tmp/iters/sim', n)
+            write_tiff(rec, fdir + 'tmp/iters/rec', n)
+            write_tiff(sx, fdir + 'tmp/iters/sx', n)
+            write_tiff(sy, fdir + 'tmp/iters/sy', n)
+
+    # Re-normalize data
+    prj *= scl
+    return prj, sx, sy, conv
+
+
+def tilt(obj, rad=0, phi=0):
+    """
+    Tilt object at a given angle from the rotation axis.
+
+    Warning
+    -------
+    Not implemented yet.
+
+    Parameters
+    ----------
+    obj : ndarray
+        3D discrete object.
+    rad : scalar, optional
+        Radius in polar cordinates to define tilt angle.
+        The value is between 0 and 1, where 0 means no tilt
+        and 1 means a tilt of 90 degrees. The tilt angle
+        can be obtained by arcsin(rad).
+    phi : scalar, optional
+        Angle in degrees to define tilt direction from the
+        rotation axis. 0 degree means rotation in sagittal
+        plane and 90 degree means rotation in coronal plane.
+
+    Returns
+    -------
+    ndarray
+        Tilted 3D object.
+    """
+    pass
+
+
+def add_jitter(prj, low=0, high=1):
+    """
+    Simulates jitter in projection images. The jitter
+    is simulated by drawing random samples from a uniform
+    distribution over the half-open interval [low, high).
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    low : float, optional
+        Lower boundary of the output interval. All values
+        generated will be greater than or equal to low. The
+        default value is 0.
+    high : float
+        Upper boundary of the output interval. All values
+        generated will be less than high. The default value
+        is 1.0.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    """
+    from skimage import transform as tf
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Random jitter parameters are drawn from uniform distribution.
+    jitter = np.random.uniform(low, high, size=(prj.shape[0], 2))
+
+    for m in range(prj.shape[0]):
+        tform = tf.SimilarityTransform(translation=jitter[m])
+        prj[m] = tf.warp(prj[m], tform, order=0)
+
+    # Re-scale back to original values.
+    prj *= scl
+    return prj, jitter[:, 0], jitter[:, 1]
+
+
+def add_noise(prj, ratio=0.05):
+    """
+    Adds Gaussian noise with zero mean and a given standard
+    deviation as a ratio of the maximum value in data.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ratio : float, optional
+        Ratio of the standard deviation of the Gaussian noise
+        distribution to the maximum value in data.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with added Gaussian noise.
+    """
+    std = prj.max() * ratio
+    noise = np.random.normal(0, std, size=prj.shape)
+    return prj + noise.astype('float32')
+
+
+def scale(prj):
+    """
+    Linearly scales the projection images in the range
+    between -1 and 1.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+
+    Returns
+    -------
+    ndarray
+        Scaled 3D stack of projection images.
+    """
+    scl = max(abs(prj.max()), abs(prj.min()))
+    prj /= scl
+    return prj, scl
+
+
+def blur_edges(prj, low=0, high=0.8):
+    """
+    Blurs the edge of the projection images.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    low : scalar, optional
+        Min ratio of the blurring frame to the image size.
+    high : scalar, optional
+        Max ratio of the blurring frame to the image size.
+
+    Returns
+    -------
+    ndarray
+        Edge-blurred 3D stack of projection images.
+    """
+    _prj = prj.copy()
+    dx, dy, dz = _prj.shape
+    rows, cols = np.mgrid[:dy, :dz]
+    rad = np.sqrt((rows - dy / 2)**2 + (cols - dz / 2)**2)
+    mask = np.zeros((dy, dz))
+    rmin, rmax = low * rad.max(), high * rad.max()
+    mask[rad < rmin] = 1
+    mask[rad > rmax] = 0
+    zone = np.logical_and(rad >= rmin, rad <= rmax)
+    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
+    feathered = np.empty((dy, dz), dtype=np.uint8)
+    _prj *= mask
+    return _prj
+
+
+def shift_images(prj, sx, sy):
+    """
+    Shift projections images for a given set of shift
+    values in horizontal and vertical directions.
+    """
+
+    from skimage import transform as tf
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # For each projection
+    for m in range(prj.shape[0]):
+        tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
+        prj[m] = tf.warp(prj[m], tform, order=5)
+
+    # Re-normalize data
+    prj *= scl
+
+    return prj
+
+
+def find_slits_corners_aps_1id(img,
+                               method='quadrant+',
+                               medfilt2_kernel_size=3,
+                               medfilt_kernel_size=23,
+                               ):
+    """
+    Automatically locate the slit box location by its four corners.
+
+    NOTE:
+    The four slits that form a binding box is the current setup at aps_1id,
+    which reduce the illuminated region on the detector. Since the slits are
+    stationary, they can serve as a reference to check detector drifting
+    during the scan. Technically, the four slits should be used to find
+    the transformation matrix (not necessarily affine) to correct the image.
+    However, since we are dealing with 2D images with very little distortion,
+    affine transformation matrices were used for approximation. Therefore
+    the "four corners" are used instead of all four slits.
+
+    Parameters
+    ----------
+    img : np.ndarray
+        2D images
+    method : str,  ['simple', 'quadrant', 'quadrant+'], optional
+        method for auto detecting slit corners
+            - simple    :: assume a rectange slit box, fast but less accurate
+                           (1 pixel precision)
+            - quadrant  :: subdivide the image into four quandrant, then use
+                           an explicit method to find the corner
+                           (1 pixel precision)
+            - quadrant+ :: similar to quadrant, but use curve_fit (gauss1d) to
+                           find the corner
+                           (0.1 pixel precision)
+    medfilt2_kernel_size : int, optional
+        2D median filter kernel size for noise reduction
+    medfilt_kernel_size : int, optional
+        1D median filter kernel size for noise reduction
+
+    Returns
+    -------
+    tuple
+        autodetected slit corners (counter-clockwise order)
+        (upperLeft, lowerLeft, lowerRight, upperRight)
+    """
+    img = medfilt2d(np.log(img.astype(np.float64)),
+                    kernel_size=medfilt2_kernel_size,
+                    )
+    rows, cols = img.shape
+
+    # simple method is simple, therefore it stands out
+    if method.lower() == 'simple':
+        # assuming a rectangle type slit box
+        col_std = medfilt(np.std(img, axis=0), kernel_size=medfilt_kernel_size)
+        row_std = medfilt(np.std(img, axis=1), kernel_size=medfilt_kernel_size)
+        # NOTE: in the tiff img
+        #  x is col index, y is the row index  ==> key point here !!!
+        #  img slicing is doen with img[row_idx, col_idx]
+        #  ==> so the image idx and corner position are FLIPPED!
+        _left = np.argmax(np.gradient(col_std))
+        _right = np.argmin(np.gradient(col_std))
+        _top = np.argmax(np.gradient(row_std))
+        _bottom = np.argmin(np.gradient(row_std))
+
+        cnrs = np.array([[_left, _top],
+                         [_left, _bottom],
+                         [_right, _bottom],
+                         [_right, _top],
+                         ])
+    else:
+        # predefine all quadrants
+        # Here let's assume that the four corners of the slit box are in the
+        # four quadrant defined by the center of the image
+        # i.e.
+        #  uppper left quadrant: img[0     :cnt[1], 0     :cnt[0]]  => quadarnt origin =  (0,           0)
+        #  lower  left quadrant: img[cnt[1]:      , 0     :cnt[0]]  => quadarnt origin =  (cnt[0],      0)
+        #  lower right quadrant: img[cnt[1]:      , cnt[0]:      ]  => quadarnt origin =  (cnt[0], cnt[1])
+        # upper right quadrant: img[0     :cnt[1], cnt[0]:      ]  => quadarnt
+        # origin =  (0,      cnt[1])
+        # center of image that defines FOUR quadrants
+        cnt = [int(cols / 2), int(rows / 2)]
+        Quadrant = namedtuple('Quadrant', 'img col_func, row_func')
+        quadrants = [Quadrant(img=img[0:cnt[1], 0:cnt[0]], col_func=np.argmax, row_func=np.argmax),  # upper left,  1st quadrant
+                     # lower left,  2nd quadrant
+                     Quadrant(img=img[cnt[1]:, 0:cnt[0]],
+                              col_func=np.argmax, row_func=np.argmin),
+                     # lower right, 3rd quadrant
+                     Quadrant(img=img[cnt[1]:, cnt[0]:],
+                              col_func=np.argmin, row_func=np.argmin),
+                     # upper right, 4th quadrant
+                     Quadrant(img=img[0:cnt[1], cnt[0]:],
+                              col_func=np.argmin, row_func=np.argmax),
+                     ]
+        # the origin in each quadrants ==> easier to set it here
+        quadrantorigins = np.array([[0, 0],  # upper left,  1st quadrant
+                                    [0, cnt[1]],  # lower left,  2nd quadrant
+                                    # lower right, 3rd quadrant
+                                    [cnt[0], cnt[1]],
+                                    [cnt[0], 0],  # upper right, 4th quadrant
+                                    ])
+        # init four corners
+        cnrs = np.zeros((4, 2))
+        if method.lower() == 'quadrant':
+            # the standard quadrant method
+            for i, q in enumerate(quadrants):
+                cnrs[i, :] = np.array([q.col_func(np.gradient(medfilt(np.std(q.img, axis=0), kernel_size=medfilt_kernel_size))),  # x is col_idx
+                                       q.row_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=1),
+                            kernel_size=medfilt_kernel_size))),
+                    # y is row_idx
+                ])
+            # add the origin offset back
+            cnrs = cnrs + quadrantorigins
+        elif method.lower() == 'quadrant+':
+            # use Gaussian curve fitting to achive subpixel precision
+            # TODO:
+            # improve the curve fitting with Lorentz and Voigt fitting function
+            for i, q in enumerate(quadrants):
+                # -- find x subpixel position
+                cnr_x_guess = q.col_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=0),
+                            kernel_size=medfilt_kernel_size)))
+                # isolate the strongest peak to fit
+                tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
+                tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
+                # tmpy[0] is the value from the highest/lowest pixle
+                # tmpx[0] is basically cnr_x_guess
+                # 5.0 is the guessted std,
+                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
+                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     maxfev=int(1e6),
+                                     )
+                cnrs[i, 0] = coeff[1]  # x position
+                # -- find y subpixel positoin
+                cnr_y_guess = q.row_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=1),
+                            kernel_size=medfilt_kernel_size)))
+                # isolate the peak (x, y here is only associated with the peak)
+                tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
+                tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
+                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
+                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     maxfev=int(1e6),
+                                     )
+                cnrs[i, 1] = coeff[1]  # y posiiton
+            # add the quadrant shift back
+            cnrs = cnrs + quadrantorigins
+
+        else:
+            raise NotImplementedError(
+                "Available methods are: simple, quadrant, quadrant+")
+
+    # return the slit corner detected
+    return cnrs
+
+
+def calc_slit_box_aps_1id(slit_box_corners, inclip=(1, 10, 1, 10)):
+    """
+    Calculate the clip box based on given slip corners.
+
+    Parameters
+    ----------
+    slit_box_corners : np.ndarray
+        Four corners of the slit box as a 4x2 matrix
+    inclip : tuple, optional
+        Extra inclipping to avoid clipping artifacts
+
+    Returns
+    -------
+    Tuple:
+        Cliping indices as a tuple of four
+        (clipFromTop, clipToBottom, clipFromLeft, clipToRight)
+
+    """
+    return (
+        np.floor(slit_box_corners[:, 0].min()).astype(
+            int) + inclip[0],  # clip top    row
+        np.ceil(slit_box_corners[:, 0].max()).astype(
+            int) - inclip[1],  # clip bottom row
+        np.floor(slit_box_corners[:, 1].min()).astype(
+            int) + inclip[2],  # clip left   col
+        np.ceil(slit_box_corners[:, 1].max()).astype(
+            int) - inclip[3],  # clip right  col
+    )
+
+
+def remove_slits_aps_1id(imgstacks, slit_box_corners, inclip=(1, 10, 1, 10)):
+    """
+    Remove the slits from still images
+
+    Parameters
+    ----------
+    imgstacks : np.ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    slit_box_corners : np.ndarray
+        four corners of the slit box
+    inclip : tuple, optional
+        Extra inclipping to avoid clipping artifacts
+
+    Returns
+    -------
+    np.ndarray
+        tomopy images stacks without regions outside slits
+    """
+    xl, xu, yl, yu = calc_slit_box_aps_1id(slit_box_corners, inclip=inclip)
+    return imgstacks[:, yl:yu, xl:xu]
+
+
+def detector_drift_adjust_aps_1id(imgstacks,
+                                  slit_cnr_ref,
+                                  medfilt2_kernel_size=3,
+                                  medfilt_kernel_size=3,
+                                  ncore=None,
+                                  ):
+    """
+    Adjust each still image based on the slit corners and generate report fig
+
+    Parameters
+    ----------
+    imgstacks : np.ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    slit_cnr_ref : np.ndarray
+        reference slit corners from white field images
+    medfilt2_kernel_size : int, optional
+        2D median filter kernel size for slit conner detection
+    medfilt_kernel_size  : int, optional
+        1D median filter kernel size for slit conner detection
+    ncore : int, optional
+        number of cores used for speed up
+
+    Returns
+    -------
+    np.ndarray
+        adjusted imgstacks
+    np.ndarray
+        detected corners on each still image
+    np.ndarray
+        transformation matrices used to adjust each image
+    """
+    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+
+    def quick_diff(x): return np.amax(np.absolute(x))
+
+    # -- find all projection corners (slow)
+    # NOTE:
+    #  Here we are using an iterative approach to find stable slit corners
+    #  from each image
+    #  1. calculate all slit corners with the given kernel size, preferably
+    #     a small one for speed.
+    #  2. double the kernel size and calculate again, but this time we are
+    #     checking whether the slit corners are stable.
+    #  3. find the ids (n_imgs) for those that are difficult, continue
+    #     increasing the kernel size until all slit corners are found, or max
+    #     number of iterations.
+    #  4. move on to next step.
+    nlist = range(imgstacks.shape[0])
+    proj_cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
+                                'quadrant+',
+                                medfilt2_kernel_size,
+                                medfilt_kernel_size,
+                                )
+    cnrs_found = np.array([quick_diff(proj_cnrs[n, :, :] - slit_cnr_ref) < 15
+                           for n in nlist])
+    kernels = [(medfilt2_kernel_size+2*i, medfilt_kernel_size+2*j)
+               for i in range(15)
+               for j in range(15)]
+    counter = 0
+
+    while not cnrs_found.all():
+        nlist = [idx for idx, cnr_found in enumerate(cnrs_found)
+                 if not cnr_found]
+        # NOTE:
+        #   Check to see if we run out of candidate kernels:
+        if counter > len(kernels):
+            # we are giving up here...
+            for idx, n_img in enumerate(nlist):
+                proj_cnrs[n_img, :, :] = slit_cnr_ref
+            break
+        else:
+            # test with differnt 2D and 1D kernels
+            ks2d, ks1d = kernels[counter]
+
+        _cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
+                                'quadrant+', ks2d, ks1d)
+        for idx, _cnr in enumerate(_cnrs):
+            n_img = nlist[idx]
+            cnr = proj_cnrs[n_img, :, :]  # previous results
+            # NOTE:
+            #  The detector corner should not be far away from reference
+            #  -> adiff < 15
+            #  The detected corner should be stable
+            #  -> rdiff < 0.1 (pixel)s
+            adiff = quick_diff(_cnr - slit_cnr_ref)
+            rdiff = quick_diff(_cnr - cnr)
+            if rdiff < 0.1 and adiff < 15:
+                cnrs_found[n_img] = True
+            else:
+                # update results
+                proj_cnrs[n_img, :, :] = _cnr  # update results for next iter
+
+        # next
+        counter += 1
+
+    # -- calculate affine transformation (fast)
+    img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
+    for n_img in range(imgstacks.shape[0]):
+        img_correct_F[n_img, :, :] = calc_affine_transform(
+            proj_cnrs[n_img, :, :], slit_cnr_ref)
+
+    # -- apply affine transformation (slow)
+    tmp = []
+    with cf.ProcessPoolExecutor(ncore) as e:
+        for n_img in range(imgstacks.shape[0]):
+            tmp.append(e.submit(affine_transform,
+                                # input image
+                                imgstacks[n_img, :, :],
+                                # rotation matrix
+                                img_correct_F[n_img, 0:2, 0:2],
+                                # offset vector
+                                offset=img_correct_F[n_img, 0:2,  2],
+                                )
+                       )
+    imgstacks = np.stack([me.result() for me in tmp], axis=0)
+
+    return imgstacks, proj_cnrs, img_correct_F
+
+
+def _calc_proj_cnrs(imgs,
+                    ncore,
+                    nlist,
+                    method,
+                    medfilt2_kernel_size,
+                    medfilt_kernel_size,
+                    ):
+    """
+    Private function calculate slit corners concurrently
+
+    Parameters
+    ----------
+    imgs : ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    ncore : int
+        number of cores to use
+    nlist : list of int
+        index of images to be processed
+    method : str
+        slit corner detection method name
+    medfilt2_kernel_size : int
+        2D median filter kernel size, must be odd
+    medfilt_kernel_size : int
+        1D median filter kernel size, must be odd
+
+    Returns
+    -------
+    np.3darray
+        detected corners on each still image
+    """
+    tmp = []
+    with cf.ProcessPoolExecutor(ncore) as e:
+        for n_img in nlist:
+            tmp.append(e.submit(find_slits_corners_aps_1id,
+                                imgs[n_img, :, :],
+                                method=method,
+                                medfilt2_kernel_size=medfilt2_kernel_size,
+                                medfilt_kernel_size=medfilt_kernel_size,
+                                )
+                       )
+    return np.stack([me.result() for me in tmp], axis=0)
+
+
+def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
+                                ncore=None, nchunk=None):
+    """
+    Apply distortion correction to projections using the polynomial model.
+    Coefficients are calculated using Vounwarp package :cite:`Vo:15`.
+
+    .. versionadded:: 1.7
+
+    Parameters
+    ----------
+    tomo : ndarray
+        3D tomographic data.
+    xcenter : float
+        Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+        Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+        Polynomial coefficients of the backward model.
+    ncore : int, optional
+        Number of cores that will be assigned to jobs.
+    nchunk : int, optional
+        Chunk size for each core.
+
+    Returns
+    -------
+    ndarray
+        Corrected 3D tomographic data.
+    """
+    arr = mproc.distribute_jobs(
+        tomo,
+        func=_distortion_correction_proj,
+        args=(xcenter, ycenter, list_fact),
+        axis=0,
+        ncore=ncore,
+        nchunk=nchunk)
+    return arr
+
+
+def _unwarp_image_backward(mat, xcenter, ycenter, list_fact):
+    """
+    Unwarp an image using the polynomial model.
+
+    Parameters
+    ----------
+    mat : 2D array.
+    xcenter : float
+            Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+            Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+            Polynomial coefficients of the backward model.
+
+    Returns
+    -------
+    2D array
+        Corrected image.
+    """
+    (height, width) = mat.shape
+    xu_list = np.arange(width) - xcenter
+    yu_list = np.arange(height) - ycenter
+    xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
+    ru_mat = np.sqrt(xu_mat**2 + yu_mat**2)
+    fact_mat = np.sum(
+        np.asarray([factor * ru_mat**i for i,
+                    factor in enumerate(list_fact)]), axis=0)
+    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    indices = np.reshape(yd_mat, (-1, 1)), np.reshape(xd_mat, (-1, 1))
+    mat = map_coordinates(mat, indices, order=1, mode='reflect')
+    return mat.reshape((height, width))
+
+
+def _distortion_correction_proj(tomo, xcenter, ycenter, list_fact):
+    for m in np.arange(tomo.shape[0]):
+        proj = tomo[m, :, :]
+        proj = _unwarp_image_backward(proj, xcenter, ycenter, list_fact)
+        tomo[m, :, :] = proj
+
+
+def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
+    """
+    Generate an unwarped sinogram of a 3D tomographic data using
+    the polynomial model. Coefficients are calculated using Vounwarp
+    package :cite:`Vo:15`.
+
+    .. versionadded:: 1.7
+
+    Parameters
+    ----------
+    tomo : ndarray
+        3D tomographic data.
+    ind : int
+        Index of the unwarped sinogram.
+    xcenter : float
+        Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+        Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+        Polynomial coefficients of the backward model.
+
+    Returns
+    -------
+    2D array
+        Corrected sinogram.
+    """
+    (depth, height, width) = tomo.shape
+    xu_list = np.arange(0, width) - xcenter
+    yu = ind - ycenter
+    ru_list = np.sqrt(xu_list**2 + yu**2)
+    flist = np.sum(
+        np.asarray([factor * ru_list**i for i,
+                    factor in enumerate(list_fact)]), axis=0)
+    xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
+    yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
+    yd_min = np.int16(np.floor(np.amin(yd_list)))
+    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_list = yd_list - yd_min
+    sino = np.zeros((depth, width), dtype=np.float32)
+    indices = yd_list, xd_list
+    for i in np.arange(depth):
+        sino[i] = map_coordinates(
+            tomo[i, yd_min:yd_max, :], indices, order=1, mode='reflect')
+    return sino
+
+
+def load_distortion_coefs(file_path):
+        """
+        Load distortion coefficients from a text file.
+        Order of the infor in the text file:
+        xcenter
+        ycenter
+        factor_0
+        factor_1
+        factor_2
+        ..
+
+        Parameters
+        ----------
+        file_path: Path to the file.
+
+        Returns
+        -------
+        Tuple of (xcenter, ycenter, list_fact).
+        """
+        with open(file_path, 'r') as f:
+            x = f.read().splitlines()
+            list_data = []
+            for i in x:
+                list_data.append(float(i.split()[-1]))
+        xcenter = list_data[0]
+        ycenter = list_data[1]
+        list_fact = list_data[2:]
+        return xcenter, ycenter, list_fact
-- 
2.43.0


From 084036c66caff8b4563e749992bd9804375ff92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:32 +0000
Subject: [PATCH 41/46] fix: detector_drift_adjust_aps_1id fails when no kernel
 finds the corners

instead of falling back on the reference corners.
---
 source/tomopy/prep/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 2089eb5..38ac872 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -819,7 +819,7 @@ def detector_drift_adjust_aps_1id(imgstacks,
                  if not cnr_found]
         # NOTE:
         #   Check to see if we run out of candidate kernels:
-        if counter > len(kernels):
+        if counter >= len(kernels):
             # we are giving up here...
             for idx, n_img in enumerate(nlist):
                 proj_cnrs[n_img, :, :] = slit_cnr_ref
-- 
2.43.0


From 3b551144c6ffc51c41104c440f2b39fc93df2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 42/46] fix: calc_intensity does not return for a probe larger
 than the projection

---
 source/tomopy/sim/propagate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index efe6e4f..5fa852d 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -147,9 +147,9 @@ def _rect_scan_coords(probe_grid, proj_grid, shift_x, shift_y):
     """
     x = np.arange(0, proj_grid[0], shift_x)
     y = np.arange(0, proj_grid[1], shift_y)
-    while x.size * shift_x > proj_grid[0] - probe_grid[0] + shift_x:
+    while x.size and x.size * shift_x > proj_grid[0] - probe_grid[0] + shift_x:
         x = x[:-1]
-    while y.size * shift_y > proj_grid[1] - probe_grid[1] + shift_y:
+    while y.size and y.size * shift_y > proj_grid[1] - probe_grid[1] + shift_y:
         y = y[:-1]
     return x, y
 
-- 
2.43.0


From cad522991f3535861bfde134b41ef1e35cd725c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 43/46] fix: calc_intensity changes the order of the scanned
 images in the far field

---
 source/tomopy/sim/propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index 5fa852d..9b67679 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -214,5 +214,5 @@ def calc_intensity(probe, proj, shift_x=None, shift_y=None, mode='near'):
     if mode == 'near':
         intensity = abs(psi) ** 2
     elif mode == 'far':
-        intensity = abs(np.fft.fftshift(np.fft.fft2(psi))) ** 2
+        intensity = abs(np.fft.fftshift(np.fft.fft2(psi), axes=(-2, -1))) ** 2
     return intensity
-- 
2.43.0


From fc77aa5ba8e39172c1f7abb0b8e1b51fc59dc364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:31 +0000
Subject: [PATCH 44/46] fix: gridrec reads past the end of a filter_par that is
 too short

---
 source/tomopy/recon/algorithm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 3d2cbab..a80a408 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -333,6 +333,15 @@ def recon(tomo,
                 raise ValueError(
                     'gridrec can not reconstruct more than {0} pixels along '
                     'x or y from this data.'.format(pdim))
+            # number of parameters that the C function reads
+            par_size = {'hann': 1, 'hamming': 1, 'parzen': 1, 'butterworth': 2,
+                        'custom': pdim // 2,
+                        'custom2d': tomo.shape[1] * (pdim // 2)
+                        }.get(str(kwargs['filter_name']), 0)
+            if kwargs['filter_par'].size < par_size:
+                raise ValueError(
+                    'filter_par must hold {0} values for this filter.'.format(
+                        par_size))
         if algorithm in ('ospml_hybrid', 'pml_hybrid', 'tikh'):
             if kwargs['reg_par'].size < 2:
                 raise ValueError('reg_par must hold two parameters.')
-- 
2.43.0


From 38a0df8be532a6df75063c8416712ff3455992ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:09 +0000
Subject: [PATCH 45/46] fix: adjust_range with a maximum below all of the data
 returned the old minimum

---
 source/tomopy/misc/corr.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 91f4fdc..582b4f0 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -104,13 +104,9 @@ def adjust_range(arr, dmin=None, dmax=None):
     ndarray
         Output array.
     """
-    if dmax is None:
-        dmax = np.max(arr)
-    if dmin is None:
-        dmin = np.min(arr)
-    if dmax < np.max(arr):
+    if dmax is not None and dmax < np.max(arr):
         arr[arr > dmax] = dmax
-    if dmin > np.min(arr):
+    if dmin is not None and dmin > np.min(arr):
         arr[arr < dmin] = dmin
     return arr
 
-- 
2.43.0


From f5b841060776abd38626739ac029a2c6af326b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 46/46] fix: restore the CRLF line endings of alignment.py and
 gridrec.c

---
 source/libtomo/gridrec/gridrec.c | 1148 ++++++++--------
 source/tomopy/prep/alignment.py  | 2142 +++++++++++++++---------------
 2 files changed, 1645 insertions(+), 1645 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 670366c..7abd739 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -1,574 +1,574 @@
-// Copyright (c) 2015, UChicago Argonne, LLC. All rights reserved.
-
-// Copyright 2015. UChicago Argonne, LLC. This software was produced
-// under U.S. Government contract DE-AC02-06CH11357 for Argonne National
-// Laboratory (ANL), which is operated by UChicago Argonne, LLC for the
-// U.S. Department of Energy. The U.S. Government has rights to use,
-// reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR
-// UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR
-// ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is
-// modified to produce derivative works, such modified software should
-// be clearly marked, so as not to confuse it with the version available
-// from ANL.
-
-// Additionally, redistribution and use in source and binary forms, with
-// or without modification, are permitted provided that the following
-// conditions are met:
-
-//     * Redistributions of source code must retain the above copyright
-//       notice, this list of conditions and the following disclaimer.
-
-//     * Redistributions in binary form must reproduce the above copyright
-//       notice, this list of conditions and the following disclaimer in
-//       the documentation and/or other materials provided with the
-//       distribution.
-
-//     * Neither the name of UChicago Argonne, LLC, Argonne National
-//       Laboratory, ANL, the U.S. Government, nor the names of its
-//       contributors may be used to endorse or promote products derived
-//       from this software without specific prior written permission.
-
-// THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS
-// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
-// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
-// FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago
-// Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
-// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
-// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
-// LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
-// CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
-// LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
-// ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
-// POSSIBILITY OF SUCH DAMAGE.
-
-// Possible speedups:
-//   * Profile code and check adding SIMD to various functions (from OpenMP)
-
-#include <math.h>
-
-#include "libtomo/filters.h"
-#include "libtomo/gridrec.h"
-#include "pal.h"
-
-#ifdef TOMOPY_USE_MKL
-#    include "mkl.h"
-#endif
-#ifdef TOMOPY_USE_FFTW
-// Import pal.h first to import <complex.h> first so fftw uses native complex types
-#    include "fftw3.h"
-#endif
-
-float
-legendre(int n, const float* coefs, float x)
-{
-    // Compute SUM(coefs(k)*P(2*k,x), for k=0,n/2)
-    // where P(j,x) is the jth Legendre polynomial.
-    // x must be between -1 and 1.
-    float penult, last, cur, y, mxlast;
-
-    y      = coefs[0];
-    penult = 1.0;
-    last   = x;
-    for(int j = 2; j <= n; j++)
-    {
-        mxlast = -(x * last);
-        cur    = -(2 * mxlast + penult) + (penult + mxlast) / j;
-        // cur = (x*(2*j-1)*last-(j-1)*penult)/j;
-        if(!(j & 1))  // if j is even
-        {
-            y += cur * coefs[j >> 1];
-        }
-
-        penult = last;
-        last   = cur;
-    }
-    return y;
-}
-
-void
-set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int linv,
-                float* wtbl, float* winv)
-{
-    // Set up lookup tables for convolvent (used in Phase 1 of
-    // do_recon()), and for the final correction factor (used in
-    // Phase 3).
-
-    int         i;
-    float       norm;
-    const float fac   = (float) ltbl / (linv + 0.5);
-    const float polyz = legendre(nt, coefs, 0.);
-
-    wtbl[0] = 1.0;
-    for(i = 1; i <= ltbl; i++)
-    {
-        wtbl[i] = legendre(nt, coefs, (float) i / ltbl) / polyz;
-    }
-
-    // Note the final result at end of Phase 3 contains the factor,
-    // norm^2.  This incorporates the normalization of the 2D
-    // inverse FFT in Phase 2 as well as scale factors involved
-    // in the inverse Fourier transform of the convolvent.
-    norm = sqrt(M_PI / 2 / C / lambda) / 1.2;
-
-    winv[linv] = norm / wtbl[0];
-    __PRAGMA_IVDEP
-    for(i = 1; i <= linv; i++)
-    {
-        // Minus sign for alternate entries
-        // corrects for "natural" data layout
-        // in array H at end of Phase 1.
-        norm           = -norm;
-        winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
-    }
-}
-
-void
-set_trig_tables(int dt, const float* theta, float** sine, float** cose)
-{
-    // Set up tables of sines and cosines.
-    float *s, *c;
-
-    *sine = s = malloc_vector_f(dt);
-    __ASSSUME_64BYTES_ALIGNED(s);
-    *cose = c = malloc_vector_f(dt);
-    __ASSSUME_64BYTES_ALIGNED(c);
-
-    __PRAGMA_SIMD
-    for(int j = 0; j < dt; j++)
-    {
-        s[j] = sinf(theta[j]);
-        c[j] = cosf(theta[j]);
-    }
-}
-
-void
-set_filter_tables(int dt, int pd, float center, filter_func pf, const float* filter_par,
-                  PAL_COMPLEX* A, unsigned char filter2d)
-{
-    // Set up the complex array, filphase[], each element of which
-    // consists of a real filter factor [obtained from the function,
-    // pf(...)], multiplying a complex phase factor (derived from the
-    // parameter, center}.  See Phase 1 comments.
-
-    const float norm  = M_PI / pd / dt;
-    const float rtmp1 = 2 * M_PI * center / pd;
-    int         j, i;
-    int         pd2 = pd / 2;
-    float       x;
-
-    if(!filter2d)
-    {
-        for(j = 0; j < pd2; j++)
-        {
-            A[j] = pf((float) j / pd, j, 0, pd2, filter_par);
-        }
-
-        __PRAGMA_SIMD
-        for(j = 0; j < pd2; j++)
-        {
-            x = j * rtmp1;
-            A[j] *= (cosf(x) - I * sinf(x)) * norm;
-        }
-    }
-    else
-    {
-        for(i = 0; i < dt; i++)
-        {
-            int j0 = i * pd2;
-
-            for(j = 0; j < pd2; j++)
-            {
-                A[j0 + j] = pf((float) j / pd, j, i, pd2, filter_par);
-            }
-
-            __PRAGMA_SIMD
-            for(j = 0; j < pd2; j++)
-            {
-                x = j * rtmp1;
-                A[j0 + j] *= (cosf(x) - I * sinf(x)) * norm;
-            }
-        }
-    }
-}
-
-void
-gridrec(const float* data, int dy, int dt, int dx, const float* center,
-        const float* theta, float* recon, int ngridx, int ngridy, const char* fname,
-        const float* filter_par)
-{
-    if(dy == 0 || dt == 0 || dx == 0)
-        return;
-
-    int    s, p, iu, iv;
-    int    j;
-    float *sine, *cose, *wtbl, *winv;
-
-    float *work, *work2;
-
-    filter_func filter = get_filter(fname);
-
-    const float        C      = 7.0;
-    const float        nt     = 20.0;
-    const float        lambda = 0.99998546;
-    const unsigned int L      = (int) (2 * C / M_PI);
-    const int          ltbl   = 512;
-    int                pdim;
-    PAL_COMPLEX *      sino, *filphase, *filphase_iter = NULL, **H;
-    PAL_COMPLEX **     U_d, **V_d;
-    float *            J_z, *P_z;
-
-    const float coefs[11] = { 0.5767616E+02,  -0.8931343E+02, 0.4167596E+02,
-                              -0.1053599E+02, 0.1662374E+01,  -0.1780527E-00,
-                              0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
-                              -0.1295941E-05, 0.3817796E-07 };
-
-    // Compute pdim = next power of 2 >= dx
-    for(pdim = 16; pdim < dx; pdim *= 2)
-        ;
-
-    const int pdim2 = pdim >> 1;
-    const int M02   = pdim2 - 1;
-    const int M2    = pdim2;
-
-    unsigned char filter2d = filter_is_2d(fname);
-
-    // Allocate storage for various arrays.
-    sino = malloc_vector_c(pdim);
-    if(!filter2d)
-    {
-        filphase      = malloc_vector_c(pdim2);
-        filphase_iter = filphase;
-    }
-    else
-    {
-        filphase = malloc_vector_c(dt * (pdim2));
-    }
-    __ASSSUME_64BYTES_ALIGNED(filphase);
-    H = malloc_matrix_c(pdim, pdim);
-    __ASSSUME_64BYTES_ALIGNED(H);
-    wtbl = malloc_vector_f(ltbl + 1);
-    __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim);
-    __ASSSUME_64BYTES_ALIGNED(winv);
-    J_z = malloc_vector_f(pdim2 * dt);
-    __ASSSUME_64BYTES_ALIGNED(J_z);
-    P_z = malloc_vector_f(pdim2 * dt);
-    __ASSSUME_64BYTES_ALIGNED(P_z);
-    U_d = malloc_matrix_c(dt, pdim);
-    __ASSSUME_64BYTES_ALIGNED(U_d);
-    V_d = malloc_matrix_c(dt, pdim);
-    __ASSSUME_64BYTES_ALIGNED(V_d);
-    work = malloc_vector_f(L + 1);
-    __ASSSUME_64BYTES_ALIGNED(work);
-    work2 = malloc_vector_f(L + 1);
-    __ASSSUME_64BYTES_ALIGNED(work2);
-
-    // Set up table of sines and cosines.
-    set_trig_tables(dt, theta, &sine, &cose);
-    __ASSSUME_64BYTES_ALIGNED(sine);
-    __ASSSUME_64BYTES_ALIGNED(cose);
-
-    // Set up PSWF lookup tables.
-    set_pswf_tables(C, nt, lambda, coefs, ltbl, M02, wtbl, winv);
-    // The table is one short of a grid of pdim pixels: extend it.
-    winv[pdim - 1] = -winv[pdim - 2];
-
-#ifdef TOMOPY_USE_MKL
-    DFTI_DESCRIPTOR_HANDLE reverse_1d;
-    MKL_LONG               length_1d = (MKL_LONG) pdim;
-    DftiCreateDescriptor(&reverse_1d, DFTI_SINGLE, DFTI_COMPLEX, 1, length_1d);
-    DftiSetValue(reverse_1d, DFTI_THREAD_LIMIT,
-                 1);  // FFT should run sequentially to avoid oversubscription
-    DftiCommitDescriptor(reverse_1d);
-    DFTI_DESCRIPTOR_HANDLE forward_2d;
-    MKL_LONG               length_2d[2] = { (MKL_LONG) pdim, (MKL_LONG) pdim };
-    DftiCreateDescriptor(&forward_2d, DFTI_SINGLE, DFTI_COMPLEX, 2, length_2d);
-    DftiSetValue(forward_2d, DFTI_THREAD_LIMIT,
-                 1);  // FFT should run sequentially to avoid oversubscription
-    DftiCommitDescriptor(forward_2d);
-#endif
-#ifdef TOMOPY_USE_FFTW
-    fftwf_make_planner_thread_safe();
-    fftwf_plan reverse_1d;
-    reverse_1d = fftwf_plan_dft_1d(pdim, sino, sino, FFTW_BACKWARD, FFTW_ESTIMATE);
-    fftwf_plan forward_2d;
-    forward_2d = fftwf_plan_dft_2d(pdim, pdim, H[0], H[0], FFTW_FORWARD, FFTW_ESTIMATE);
-#endif
-
-    for(p = 0; p < dt; p++)
-    {
-        for(j = 1; j < pdim2; j++)
-        {
-            U_d[p][j] = j * cose[p] + M2;
-            V_d[p][j] = j * sine[p] + M2;
-        }
-    }
-
-    float       U, V;
-    const float L2      = (int) (C / M_PI);
-    const float tblspcg = 2 * ltbl / L;
-    int         iul, iuh, ivl, ivh;
-    int         k, k2;
-
-    // For each slice.
-    for(s = 0; s < dy; s += 2)
-    {
-        // Set up table of combined filter-phase factors.
-        set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
-
-        // First clear the array H
-        memset(H[0], 0, pdim * pdim * sizeof(H[0][0]));
-
-        // Loop over the dt projection angles. For each angle, do the following:
-
-        //     1. Copy the real projection data from the two slices into the
-        //      real and imaginary parts of the first dx elements of the
-        //      complex array, sino[].  Set the remaining pdim-dx elements
-        //      to zero (zero-padding).
-
-        //     2. Carry out a (1D) Fourier transform on the complex data.
-        //      This results in transform data that is arranged in
-        //      "wrap-around" order, with non-negative spatial frequencies
-        //      occupying the first half, and negative frequencies the second
-        //      half, of the array, sino[].
-
-        //     3. Multiply each element of the 1-D transform by a complex,
-        //      frequency dependent factor, filphase[].  These factors were
-        //      precomputed as part of recofour1((float*)sino-1,pdim,1);n_init()
-        //      and combine the tomographic filtering with a phase factor which
-        //      shifts the origin in configuration space to the projection of
-        //      the rotation axis as defined by the parameter, "center".  If a
-        //      region of interest (ROI) centered on a different origin has
-        //      been specified [(X0,Y0)!=(0,0)], multiplication by an
-        //      additional phase factor, dependent on angle as well as
-        //      frequency, is required.
-
-        //     4. For each data element, find the Cartesian coordinates,
-        //      <U,V>, of the corresponding point in the 2D frequency plane,
-        //      in  units of the spacing in the MxM rectangular grid placed
-        //      thereon; then calculate the upper and lower limits in each
-        //      coordinate direction of the integer coordinates for the
-        //      grid points contained in an LxL box centered on <U,V>.
-        //      Using a precomputed table of the (1-D) convolving function,
-        //      W, calculate the contribution of this data element to the
-        //      (2-D) convolvent (the 2_D convolvent is the product of
-        //      1_D convolvents in the X and Y directions) at each of these
-        //      grid points, and update the complex 2D array H accordingly.
-
-        // At the end of Phase 1, the array H[][] contains data arranged in
-        // "natural", rather than wrap-around order -- that is, the origin in
-        // the spatial frequency plane is situated in the middle, rather than
-        // at the beginning, of the array, H[][].  This simplifies the code
-        // for carrying out the convolution (step 4 above), but necessitates
-        // an additional correction -- See Phase 3 below.
-
-        PAL_COMPLEX Cdata1, Cdata2;
-
-        // For each projection
-        for(p = 0; p < dt; p++)
-        {
-            float              sine_p = sine[p], cose_p = cose[p];
-            const unsigned int j0 = dx * (p + s * dt), delta_index = dx * dt;
-
-            __PRAGMA_SIMD_VECREMAINDER
-            for(j = 0; j < dx; j++)
-            {
-                // Add data from both slices
-                float              second_sino = 0.0;
-                const unsigned int index       = j + j0;
-                if(__LIKELY((s + 1) < dy))
-                {
-                    second_sino = data[index + delta_index];
-                }
-                sino[j] = data[index] + I * second_sino;
-            }
-
-            __PRAGMA_SIMD_VECREMAINDER
-            for(j = dx; j < pdim; j++)
-            {
-                // Zero fill the rest of the array
-                sino[j] = 0.0;
-            }
-
-#ifdef TOMOPY_USE_MKL
-            DftiComputeBackward(reverse_1d, sino);
-#endif
-#ifdef TOMOPY_USE_FFTW
-            fftwf_execute(reverse_1d);
-#endif
-            if(filter2d)
-                filphase_iter = filphase + pdim2 * p;
-
-            // For each FFT(projection)
-            for(j = 1; j < pdim2; j++)
-            {
-                Cdata1 = filphase_iter[j] * sino[j];
-                Cdata2 = conjf(filphase_iter[j]) * sino[pdim - j];
-
-                U = j * cose_p + M2;
-                V = j * sine_p + M2;
-
-                // Note freq space origin is at (M2,M2), but we
-                // offset the indices U, V, etc. to range from 0 to M-1.
-                iul = ceilf(U - L2);
-                iuh = floorf(U + L2);
-                ivl = ceilf(V - L2);
-                ivh = floorf(V + L2);
-                if(iul < 1)
-                    iul = 1;
-                if(iuh >= pdim)
-                    iuh = pdim - 1;
-                if(ivl < 1)
-                    ivl = 1;
-                if(ivh >= pdim)
-                    ivh = pdim - 1;
-
-                // Note aliasing value (at index=0) is forced to zero.
-                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
-                for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
-                {
-                    work[k] = wtbl[(int) roundf(fabsf(V - iv) * tblspcg)];
-                }
-
-                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
-                for(iu = iul, k = 0; iu <= iuh; iu++, k++)
-                {
-                    work2[k] = wtbl[(int) roundf(fabsf(U - iu) * tblspcg)];
-                }
-
-                __PRAGMA_OMP_SIMD_COLLAPSE
-                for(iu = iul, k2 = 0; iu <= iuh; iu++, k2++)
-                {
-                    for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
-                    {
-                        const float rtmp    = work2[k2];
-                        const float convolv = rtmp * work[k];
-                        H[iu][iv] += convolv * Cdata1;
-                        H[pdim - iu][pdim - iv] += convolv * Cdata2;
-                    }
-                }
-            }
-        }
-
-        // Carry out a 2D inverse FFT on the array H.
-
-        // At the conclusion of this phase, the configuration
-        // space data is arranged in wrap-around order with the origin
-        // (center of reconstructed images) situated at the start of the
-        // array.  The first (resp. second) half of the array contains the
-        // lower, Y<0 (resp, upper Y>0) part of the image, and within each row
-        // of the array, the first (resp. second) half contains data for the
-        // right [X>0] (resp. left [X<0]) half of the image.
-
-#ifdef TOMOPY_USE_MKL
-        DftiComputeForward(forward_2d, H[0]);
-#endif
-#ifdef TOMOPY_USE_FFTW
-        fftwf_execute(forward_2d);
-#endif
-        // Copy the real and imaginary parts of the complex data from H[][],
-        // into the output buffers for the two reconstructed real images,
-        // simultaneously carrying out a final multiplicative correction.
-        // The correction factors are taken from the array, winv[], previously
-        // computed in set_pswf_tables(), and consist logically of three parts,
-        // namely:
-
-        //  1. A positive real factor, corresponding to the reciprocal
-        //     of the inverse Fourier transform, of the convolving
-        //     function, W, and
-
-        //  2. Multiplication by the cell size, (1/D1)^2, in 2D frequency
-        //     space.  This correctly normalizes the 2D inverse FFT carried
-        //     out in Phase 2.  (Note that all quantities are expressed in
-        //     units in which the detector spacing is one.)
-
-        //  3. A sign change for the "odd-numbered" elements (in a
-        //     checkerboard pattern) of the array.  This compensates
-        //     for the fact that the 2-D Fourier transform (Phase 2)
-        //     started with a frequency array in which the zero frequency
-        //     point appears in the middle of the array instead of at
-        //     its start.
-
-        // Only the elements in the square M0xM0 subarray of H[][], centered
-        // about the origin, are utilized.  The other elements are not part of
-        // the actual region being reconstructed and are discarded.  Because of
-        // the wrap-around ordering, the subarray must actually be taken from
-        // the four corners" of the 2D array, H[][] -- See Phase 2 description,
-        // above.
-
-        // The final data corresponds physically to the linear X-ray absorption
-        // coefficient expressed in units of the inverse detector spacing -- to
-        // convert to inverse cm (say), one must divide the data by the detector
-        // spacing in cm.
-
-        int       ustart, vstart, ufin, vfin;
-        const int padx    = (pdim - ngridx) / 2;
-        const int pady    = (pdim - ngridy) / 2;
-        const int offsetx = M02 + 1 - padx;
-        const int offsety = M02 + 1 - pady;
-        const int islc1   = s * ngridx * ngridy;        // index slice 1
-        const int islc2   = (s + 1) * ngridx * ngridy;  // index slice 2
-
-        ustart = pdim - offsety;
-        ufin   = pdim;
-        j      = 0;
-        while(j < ngridy)
-        {
-            for(iu = ustart; iu < ufin; j++, iu++)
-            {
-                const float corrn_u = winv[j + pady];
-                vstart              = pdim - offsetx;
-                vfin                = pdim;
-                k                   = 0;
-                while(k < ngridx)
-                {
-                    __PRAGMA_SIMD
-                    for(iv = vstart; iv < vfin; k++, iv++)
-                    {
-                        const float corrn = corrn_u * winv[k + padx];
-                        recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
-                            corrn * crealf(H[iu][iv]);
-                        if(__LIKELY((s + 1) < dy))
-                        {
-                            recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
-                                corrn * cimagf(H[iu][iv]);
-                        }
-                    }
-                    if(k < ngridx)
-                    {
-                        vstart = 0;
-                        vfin   = ngridx - offsetx;
-                    }
-                }
-            }
-            if(j < ngridy)
-            {
-                ustart = 0;
-                ufin   = ngridy - offsety;
-            }
-        }
-    }
-
-    free_vector_f(sine);
-    free_vector_f(cose);
-    free_vector_c(sino);
-    free_vector_f(wtbl);
-    free_vector_c(filphase);
-    free_vector_f(winv);
-    free_vector_f(work);
-    free_vector_f(work2);
-    free_matrix_c(H);
-    free_vector_f(J_z);
-    free_vector_f(P_z);
-    free_matrix_c(U_d);
-    free_matrix_c(V_d);
-#ifdef TOMOPY_USE_MKL
-    DftiFreeDescriptor(&reverse_1d);
-    DftiFreeDescriptor(&forward_2d);
-#endif
-#ifdef TOMOPY_USE_FFTW
-    fftwf_destroy_plan(reverse_1d);
-    fftwf_destroy_plan(forward_2d);
-#endif
-    return;
-}
+// Copyright (c) 2015, UChicago Argonne, LLC. All rights reserved.
+
+// Copyright 2015. UChicago Argonne, LLC. This software was produced
+// under U.S. Government contract DE-AC02-06CH11357 for Argonne National
+// Laboratory (ANL), which is operated by UChicago Argonne, LLC for the
+// U.S. Department of Energy. The U.S. Government has rights to use,
+// reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR
+// UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR
+// ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is
+// modified to produce derivative works, such modified software should
+// be clearly marked, so as not to confuse it with the version available
+// from ANL.
+
+// Additionally, redistribution and use in source and binary forms, with
+// or without modification, are permitted provided that the following
+// conditions are met:
+
+//     * Redistributions of source code must retain the above copyright
+//       notice, this list of conditions and the following disclaimer.
+
+//     * Redistributions in binary form must reproduce the above copyright
+//       notice, this list of conditions and the following disclaimer in
+//       the documentation and/or other materials provided with the
+//       distribution.
+
+//     * Neither the name of UChicago Argonne, LLC, Argonne National
+//       Laboratory, ANL, the U.S. Government, nor the names of its
+//       contributors may be used to endorse or promote products derived
+//       from this software without specific prior written permission.
+
+// THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS
+// "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+// LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+// FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago
+// Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
+// LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+// CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
+// LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
+// ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+// POSSIBILITY OF SUCH DAMAGE.
+
+// Possible speedups:
+//   * Profile code and check adding SIMD to various functions (from OpenMP)
+
+#include <math.h>
+
+#include "libtomo/filters.h"
+#include "libtomo/gridrec.h"
+#include "pal.h"
+
+#ifdef TOMOPY_USE_MKL
+#    include "mkl.h"
+#endif
+#ifdef TOMOPY_USE_FFTW
+// Import pal.h first to import <complex.h> first so fftw uses native complex types
+#    include "fftw3.h"
+#endif
+
+float
+legendre(int n, const float* coefs, float x)
+{
+    // Compute SUM(coefs(k)*P(2*k,x), for k=0,n/2)
+    // where P(j,x) is the jth Legendre polynomial.
+    // x must be between -1 and 1.
+    float penult, last, cur, y, mxlast;
+
+    y      = coefs[0];
+    penult = 1.0;
+    last   = x;
+    for(int j = 2; j <= n; j++)
+    {
+        mxlast = -(x * last);
+        cur    = -(2 * mxlast + penult) + (penult + mxlast) / j;
+        // cur = (x*(2*j-1)*last-(j-1)*penult)/j;
+        if(!(j & 1))  // if j is even
+        {
+            y += cur * coefs[j >> 1];
+        }
+
+        penult = last;
+        last   = cur;
+    }
+    return y;
+}
+
+void
+set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int linv,
+                float* wtbl, float* winv)
+{
+    // Set up lookup tables for convolvent (used in Phase 1 of
+    // do_recon()), and for the final correction factor (used in
+    // Phase 3).
+
+    int         i;
+    float       norm;
+    const float fac   = (float) ltbl / (linv + 0.5);
+    const float polyz = legendre(nt, coefs, 0.);
+
+    wtbl[0] = 1.0;
+    for(i = 1; i <= ltbl; i++)
+    {
+        wtbl[i] = legendre(nt, coefs, (float) i / ltbl) / polyz;
+    }
+
+    // Note the final result at end of Phase 3 contains the factor,
+    // norm^2.  This incorporates the normalization of the 2D
+    // inverse FFT in Phase 2 as well as scale factors involved
+    // in the inverse Fourier transform of the convolvent.
+    norm = sqrt(M_PI / 2 / C / lambda) / 1.2;
+
+    winv[linv] = norm / wtbl[0];
+    __PRAGMA_IVDEP
+    for(i = 1; i <= linv; i++)
+    {
+        // Minus sign for alternate entries
+        // corrects for "natural" data layout
+        // in array H at end of Phase 1.
+        norm           = -norm;
+        winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
+    }
+}
+
+void
+set_trig_tables(int dt, const float* theta, float** sine, float** cose)
+{
+    // Set up tables of sines and cosines.
+    float *s, *c;
+
+    *sine = s = malloc_vector_f(dt);
+    __ASSSUME_64BYTES_ALIGNED(s);
+    *cose = c = malloc_vector_f(dt);
+    __ASSSUME_64BYTES_ALIGNED(c);
+
+    __PRAGMA_SIMD
+    for(int j = 0; j < dt; j++)
+    {
+        s[j] = sinf(theta[j]);
+        c[j] = cosf(theta[j]);
+    }
+}
+
+void
+set_filter_tables(int dt, int pd, float center, filter_func pf, const float* filter_par,
+                  PAL_COMPLEX* A, unsigned char filter2d)
+{
+    // Set up the complex array, filphase[], each element of which
+    // consists of a real filter factor [obtained from the function,
+    // pf(...)], multiplying a complex phase factor (derived from the
+    // parameter, center}.  See Phase 1 comments.
+
+    const float norm  = M_PI / pd / dt;
+    const float rtmp1 = 2 * M_PI * center / pd;
+    int         j, i;
+    int         pd2 = pd / 2;
+    float       x;
+
+    if(!filter2d)
+    {
+        for(j = 0; j < pd2; j++)
+        {
+            A[j] = pf((float) j / pd, j, 0, pd2, filter_par);
+        }
+
+        __PRAGMA_SIMD
+        for(j = 0; j < pd2; j++)
+        {
+            x = j * rtmp1;
+            A[j] *= (cosf(x) - I * sinf(x)) * norm;
+        }
+    }
+    else
+    {
+        for(i = 0; i < dt; i++)
+        {
+            int j0 = i * pd2;
+
+            for(j = 0; j < pd2; j++)
+            {
+                A[j0 + j] = pf((float) j / pd, j, i, pd2, filter_par);
+            }
+
+            __PRAGMA_SIMD
+            for(j = 0; j < pd2; j++)
+            {
+                x = j * rtmp1;
+                A[j0 + j] *= (cosf(x) - I * sinf(x)) * norm;
+            }
+        }
+    }
+}
+
+void
+gridrec(const float* data, int dy, int dt, int dx, const float* center,
+        const float* theta, float* recon, int ngridx, int ngridy, const char* fname,
+        const float* filter_par)
+{
+    if(dy == 0 || dt == 0 || dx == 0)
+        return;
+
+    int    s, p, iu, iv;
+    int    j;
+    float *sine, *cose, *wtbl, *winv;
+
+    float *work, *work2;
+
+    filter_func filter = get_filter(fname);
+
+    const float        C      = 7.0;
+    const float        nt     = 20.0;
+    const float        lambda = 0.99998546;
+    const unsigned int L      = (int) (2 * C / M_PI);
+    const int          ltbl   = 512;
+    int                pdim;
+    PAL_COMPLEX *      sino, *filphase, *filphase_iter = NULL, **H;
+    PAL_COMPLEX **     U_d, **V_d;
+    float *            J_z, *P_z;
+
+    const float coefs[11] = { 0.5767616E+02,  -0.8931343E+02, 0.4167596E+02,
+                              -0.1053599E+02, 0.1662374E+01,  -0.1780527E-00,
+                              0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
+                              -0.1295941E-05, 0.3817796E-07 };
+
+    // Compute pdim = next power of 2 >= dx
+    for(pdim = 16; pdim < dx; pdim *= 2)
+        ;
+
+    const int pdim2 = pdim >> 1;
+    const int M02   = pdim2 - 1;
+    const int M2    = pdim2;
+
+    unsigned char filter2d = filter_is_2d(fname);
+
+    // Allocate storage for various arrays.
+    sino = malloc_vector_c(pdim);
+    if(!filter2d)
+    {
+        filphase      = malloc_vector_c(pdim2);
+        filphase_iter = filphase;
+    }
+    else
+    {
+        filphase = malloc_vector_c(dt * (pdim2));
+    }
+    __ASSSUME_64BYTES_ALIGNED(filphase);
+    H = malloc_matrix_c(pdim, pdim);
+    __ASSSUME_64BYTES_ALIGNED(H);
+    wtbl = malloc_vector_f(ltbl + 1);
+    __ASSSUME_64BYTES_ALIGNED(wtbl);
+    winv = malloc_vector_f(pdim);
+    __ASSSUME_64BYTES_ALIGNED(winv);
+    J_z = malloc_vector_f(pdim2 * dt);
+    __ASSSUME_64BYTES_ALIGNED(J_z);
+    P_z = malloc_vector_f(pdim2 * dt);
+    __ASSSUME_64BYTES_ALIGNED(P_z);
+    U_d = malloc_matrix_c(dt, pdim);
+    __ASSSUME_64BYTES_ALIGNED(U_d);
+    V_d = malloc_matrix_c(dt, pdim);
+    __ASSSUME_64BYTES_ALIGNED(V_d);
+    work = malloc_vector_f(L + 1);
+    __ASSSUME_64BYTES_ALIGNED(work);
+    work2 = malloc_vector_f(L + 1);
+    __ASSSUME_64BYTES_ALIGNED(work2);
+
+    // Set up table of sines and cosines.
+    set_trig_tables(dt, theta, &sine, &cose);
+    __ASSSUME_64BYTES_ALIGNED(sine);
+    __ASSSUME_64BYTES_ALIGNED(cose);
+
+    // Set up PSWF lookup tables.
+    set_pswf_tables(C, nt, lambda, coefs, ltbl, M02, wtbl, winv);
+    // The table is one short of a grid of pdim pixels: extend it.
+    winv[pdim - 1] = -winv[pdim - 2];
+
+#ifdef TOMOPY_USE_MKL
+    DFTI_DESCRIPTOR_HANDLE reverse_1d;
+    MKL_LONG               length_1d = (MKL_LONG) pdim;
+    DftiCreateDescriptor(&reverse_1d, DFTI_SINGLE, DFTI_COMPLEX, 1, length_1d);
+    DftiSetValue(reverse_1d, DFTI_THREAD_LIMIT,
+                 1);  // FFT should run sequentially to avoid oversubscription
+    DftiCommitDescriptor(reverse_1d);
+    DFTI_DESCRIPTOR_HANDLE forward_2d;
+    MKL_LONG               length_2d[2] = { (MKL_LONG) pdim, (MKL_LONG) pdim };
+    DftiCreateDescriptor(&forward_2d, DFTI_SINGLE, DFTI_COMPLEX, 2, length_2d);
+    DftiSetValue(forward_2d, DFTI_THREAD_LIMIT,
+                 1);  // FFT should run sequentially to avoid oversubscription
+    DftiCommitDescriptor(forward_2d);
+#endif
+#ifdef TOMOPY_USE_FFTW
+    fftwf_make_planner_thread_safe();
+    fftwf_plan reverse_1d;
+    reverse_1d = fftwf_plan_dft_1d(pdim, sino, sino, FFTW_BACKWARD, FFTW_ESTIMATE);
+    fftwf_plan forward_2d;
+    forward_2d = fftwf_plan_dft_2d(pdim, pdim, H[0], H[0], FFTW_FORWARD, FFTW_ESTIMATE);
+#endif
+
+    for(p = 0; p < dt; p++)
+    {
+        for(j = 1; j < pdim2; j++)
+        {
+            U_d[p][j] = j * cose[p] + M2;
+            V_d[p][j] = j * sine[p] + M2;
+        }
+    }
+
+    float       U, V;
+    const float L2      = (int) (C / M_PI);
+    const float tblspcg = 2 * ltbl / L;
+    int         iul, iuh, ivl, ivh;
+    int         k, k2;
+
+    // For each slice.
+    for(s = 0; s < dy; s += 2)
+    {
+        // Set up table of combined filter-phase factors.
+        set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
+
+        // First clear the array H
+        memset(H[0], 0, pdim * pdim * sizeof(H[0][0]));
+
+        // Loop over the dt projection angles. For each angle, do the following:
+
+        //     1. Copy the real projection data from the two slices into the
+        //      real and imaginary parts of the first dx elements of the
+        //      complex array, sino[].  Set the remaining pdim-dx elements
+        //      to zero (zero-padding).
+
+        //     2. Carry out a (1D) Fourier transform on the complex data.
+        //      This results in transform data that is arranged in
+        //      "wrap-around" order, with non-negative spatial frequencies
+        //      occupying the first half, and negative frequencies the second
+        //      half, of the array, sino[].
+
+        //     3. Multiply each element of the 1-D transform by a complex,
+        //      frequency dependent factor, filphase[].  These factors were
+        //      precomputed as part of recofour1((float*)sino-1,pdim,1);n_init()
+        //      and combine the tomographic filtering with a phase factor which
+        //      shifts the origin in configuration space to the projection of
+        //      the rotation axis as defined by the parameter, "center".  If a
+        //      region of interest (ROI) centered on a different origin has
+        //      been specified [(X0,Y0)!=(0,0)], multiplication by an
+        //      additional phase factor, dependent on angle as well as
+        //      frequency, is required.
+
+        //     4. For each data element, find the Cartesian coordinates,
+        //      <U,V>, of the corresponding point in the 2D frequency plane,
+        //      in  units of the spacing in the MxM rectangular grid placed
+        //      thereon; then calculate the upper and lower limits in each
+        //      coordinate direction of the integer coordinates for the
+        //      grid points contained in an LxL box centered on <U,V>.
+        //      Using a precomputed table of the (1-D) convolving function,
+        //      W, calculate the contribution of this data element to the
+        //      (2-D) convolvent (the 2_D convolvent is the product of
+        //      1_D convolvents in the X and Y directions) at each of these
+        //      grid points, and update the complex 2D array H accordingly.
+
+        // At the end of Phase 1, the array H[][] contains data arranged in
+        // "natural", rather than wrap-around order -- that is, the origin in
+        // the spatial frequency plane is situated in the middle, rather than
+        // at the beginning, of the array, H[][].  This simplifies the code
+        // for carrying out the convolution (step 4 above), but necessitates
+        // an additional correction -- See Phase 3 below.
+
+        PAL_COMPLEX Cdata1, Cdata2;
+
+        // For each projection
+        for(p = 0; p < dt; p++)
+        {
+            float              sine_p = sine[p], cose_p = cose[p];
+            const unsigned int j0 = dx * (p + s * dt), delta_index = dx * dt;
+
+            __PRAGMA_SIMD_VECREMAINDER
+            for(j = 0; j < dx; j++)
+            {
+                // Add data from both slices
+                float              second_sino = 0.0;
+                const unsigned int index       = j + j0;
+                if(__LIKELY((s + 1) < dy))
+                {
+                    second_sino = data[index + delta_index];
+                }
+                sino[j] = data[index] + I * second_sino;
+            }
+
+            __PRAGMA_SIMD_VECREMAINDER
+            for(j = dx; j < pdim; j++)
+            {
+                // Zero fill the rest of the array
+                sino[j] = 0.0;
+            }
+
+#ifdef TOMOPY_USE_MKL
+            DftiComputeBackward(reverse_1d, sino);
+#endif
+#ifdef TOMOPY_USE_FFTW
+            fftwf_execute(reverse_1d);
+#endif
+            if(filter2d)
+                filphase_iter = filphase + pdim2 * p;
+
+            // For each FFT(projection)
+            for(j = 1; j < pdim2; j++)
+            {
+                Cdata1 = filphase_iter[j] * sino[j];
+                Cdata2 = conjf(filphase_iter[j]) * sino[pdim - j];
+
+                U = j * cose_p + M2;
+                V = j * sine_p + M2;
+
+                // Note freq space origin is at (M2,M2), but we
+                // offset the indices U, V, etc. to range from 0 to M-1.
+                iul = ceilf(U - L2);
+                iuh = floorf(U + L2);
+                ivl = ceilf(V - L2);
+                ivh = floorf(V + L2);
+                if(iul < 1)
+                    iul = 1;
+                if(iuh >= pdim)
+                    iuh = pdim - 1;
+                if(ivl < 1)
+                    ivl = 1;
+                if(ivh >= pdim)
+                    ivh = pdim - 1;
+
+                // Note aliasing value (at index=0) is forced to zero.
+                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
+                for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
+                {
+                    work[k] = wtbl[(int) roundf(fabsf(V - iv) * tblspcg)];
+                }
+
+                __PRAGMA_SIMD_VECREMAINDER_VECLEN8
+                for(iu = iul, k = 0; iu <= iuh; iu++, k++)
+                {
+                    work2[k] = wtbl[(int) roundf(fabsf(U - iu) * tblspcg)];
+                }
+
+                __PRAGMA_OMP_SIMD_COLLAPSE
+                for(iu = iul, k2 = 0; iu <= iuh; iu++, k2++)
+                {
+                    for(iv = ivl, k = 0; iv <= ivh; iv++, k++)
+                    {
+                        const float rtmp    = work2[k2];
+                        const float convolv = rtmp * work[k];
+                        H[iu][iv] += convolv * Cdata1;
+                        H[pdim - iu][pdim - iv] += convolv * Cdata2;
+                    }
+                }
+            }
+        }
+
+        // Carry out a 2D inverse FFT on the array H.
+
+        // At the conclusion of this phase, the configuration
+        // space data is arranged in wrap-around order with the origin
+        // (center of reconstructed images) situated at the start of the
+        // array.  The first (resp. second) half of the array contains the
+        // lower, Y<0 (resp, upper Y>0) part of the image, and within each row
+        // of the array, the first (resp. second) half contains data for the
+        // right [X>0] (resp. left [X<0]) half of the image.
+
+#ifdef TOMOPY_USE_MKL
+        DftiComputeForward(forward_2d, H[0]);
+#endif
+#ifdef TOMOPY_USE_FFTW
+        fftwf_execute(forward_2d);
+#endif
+        // Copy the real and imaginary parts of the complex data from H[][],
+        // into the output buffers for the two reconstructed real images,
+        // simultaneously carrying out a final multiplicative correction.
+        // The correction factors are taken from the array, winv[], previously
+        // computed in set_pswf_tables(), and consist logically of three parts,
+        // namely:
+
+        //  1. A positive real factor, corresponding to the reciprocal
+        //     of the inverse Fourier transform, of the convolving
+        //     function, W, and
+
+        //  2. Multiplication by the cell size, (1/D1)^2, in 2D frequency
+        //     space.  This correctly normalizes the 2D inverse FFT carried
+        //     out in Phase 2.  (Note that all quantities are expressed in
+        //     units in which the detector spacing is one.)
+
+        //  3. A sign change for the "odd-numbered" elements (in a
+        //     checkerboard pattern) of the array.  This compensates
+        //     for the fact that the 2-D Fourier transform (Phase 2)
+        //     started with a frequency array in which the zero frequency
+        //     point appears in the middle of the array instead of at
+        //     its start.
+
+        // Only the elements in the square M0xM0 subarray of H[][], centered
+        // about the origin, are utilized.  The other elements are not part of
+        // the actual region being reconstructed and are discarded.  Because of
+        // the wrap-around ordering, the subarray must actually be taken from
+        // the four corners" of the 2D array, H[][] -- See Phase 2 description,
+        // above.
+
+        // The final data corresponds physically to the linear X-ray absorption
+        // coefficient expressed in units of the inverse detector spacing -- to
+        // convert to inverse cm (say), one must divide the data by the detector
+        // spacing in cm.
+
+        int       ustart, vstart, ufin, vfin;
+        const int padx    = (pdim - ngridx) / 2;
+        const int pady    = (pdim - ngridy) / 2;
+        const int offsetx = M02 + 1 - padx;
+        const int offsety = M02 + 1 - pady;
+        const int islc1   = s * ngridx * ngridy;        // index slice 1
+        const int islc2   = (s + 1) * ngridx * ngridy;  // index slice 2
+
+        ustart = pdim - offsety;
+        ufin   = pdim;
+        j      = 0;
+        while(j < ngridy)
+        {
+            for(iu = ustart; iu < ufin; j++, iu++)
+            {
+                const float corrn_u = winv[j + pady];
+                vstart              = pdim - offsetx;
+                vfin                = pdim;
+                k                   = 0;
+                while(k < ngridx)
+                {
+                    __PRAGMA_SIMD
+                    for(iv = vstart; iv < vfin; k++, iv++)
+                    {
+                        const float corrn = corrn_u * winv[k + padx];
+                        recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
+                            corrn * crealf(H[iu][iv]);
+                        if(__LIKELY((s + 1) < dy))
+                        {
+                            recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
+                                corrn * cimagf(H[iu][iv]);
+                        }
+                    }
+                    if(k < ngridx)
+                    {
+                        vstart = 0;
+                        vfin   = ngridx - offsetx;
+                    }
+                }
+            }
+            if(j < ngridy)
+            {
+                ustart = 0;
+                ufin   = ngridy - offsety;
+            }
+        }
+    }
+
+    free_vector_f(sine);
+    free_vector_f(cose);
+    free_vector_c(sino);
+    free_vector_f(wtbl);
+    free_vector_c(filphase);
+    free_vector_f(winv);
+    free_vector_f(work);
+    free_vector_f(work2);
+    free_matrix_c(H);
+    free_vector_f(J_z);
+    free_vector_f(P_z);
+    free_matrix_c(U_d);
+    free_matrix_c(V_d);
+#ifdef TOMOPY_USE_MKL
+    DftiFreeDescriptor(&reverse_1d);
+    DftiFreeDescriptor(&forward_2d);
+#endif
+#ifdef TOMOPY_USE_FFTW
+    fftwf_destroy_plan(reverse_1d);
+    fftwf_destroy_plan(forward_2d);
+#endif
+    return;
+}
diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 38ac872..86f119c 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -1,1071 +1,1071 @@
-#!/usr/bin/env python
-# -*- coding: utf-8 -*-
-
-# #########################################################################
-# Copyright (c) 2016-2019, UChicago Argonne, LLC. All rights reserved.    #
-#                                                                         #
-# Copyright 2016-2019. UChicago Argonne, LLC. This software was produced  #
-# under U.S. Government contract DE-AC02-06CH11357 for Argonne National   #
-# Laboratory (ANL), which is operated by UChicago Argonne, LLC for the    #
-# U.S. Department of Energy. The U.S. Government has rights to use,       #
-# reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR    #
-# UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR        #
-# ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is     #
-# modified to produce derivative works, such modified software should     #
-# be clearly marked, so as not to confuse it with the version available   #
-# from ANL.                                                               #
-#                                                                         #
-# Additionally, redistribution and use in source and binary forms, with   #
-# or without modification, are permitted provided that the following      #
-# conditions are met:                                                     #
-#                                                                         #
-#     * Redistributions of source code must retain the above copyright    #
-#       notice, this list of conditions and the following disclaimer.     #
-#                                                                         #
-#     * Redistributions in binary form must reproduce the above copyright #
-#       notice, this list of conditions and the following disclaimer in   #
-#       the documentation and/or other materials provided with the        #
-#       distribution.                                                     #
-#                                                                         #
-#     * Neither the name of UChicago Argonne, LLC, Argonne National       #
-#       Laboratory, ANL, the U.S. Government, nor the names of its        #
-#       contributors may be used to endorse or promote products derived   #
-#       from this software without specific prior written permission.     #
-#                                                                         #
-# THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS     #
-# "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT       #
-# LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS       #
-# FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago     #
-# Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,        #
-# INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,    #
-# BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;        #
-# LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER        #
-# CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT      #
-# LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN       #
-# ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE         #
-# POSSIBILITY OF SUCH DAMAGE.                                             #
-# #########################################################################
-
-import numpy as np
-import concurrent.futures as cf
-import tomopy.util.mproc as mproc
-import logging
-
-from skimage import transform as tf
-from skimage.registration import phase_cross_correlation
-from tomopy.recon.algorithm import recon
-from tomopy.sim.project import project
-from tomopy.misc.npmath import gauss1d, calc_affine_transform
-from tomopy.util.misc import write_tiff
-from scipy.signal import medfilt, medfilt2d
-from scipy.optimize import curve_fit
-from scipy.ndimage import affine_transform
-from scipy.ndimage import map_coordinates
-from collections import namedtuple
-
-logger = logging.getLogger(__name__)
-
-
-__author__ = "Doga Gursoy, Chen Zhang, Nghia Vo"
-__copyright__ = "Copyright (c) 2016-19, UChicago Argonne, LLC."
-__docformat__ = 'restructuredtext en'
-__all__ = ['align_seq',
-           'align_joint',
-           'scale',
-           'tilt',
-           'add_jitter',
-           'add_noise',
-           'blur_edges',
-           'shift_images',
-           'find_slits_corners_aps_1id',
-           'calc_slit_box_aps_1id',
-           'remove_slits_aps_1id',
-           'distortion_correction_proj',
-           'distortion_correction_sino',
-           'load_distortion_coefs',
-           ]
-
-
-def align_seq(
-        prj, ang, fdir='.', iters=10, pad=(0, 0),
-        blur=True, center=None, algorithm='sirt',
-        upsample_factor=10, rin=0.5, rout=0.8,
-        save=False, debug=True):
-    """
-    Aligns the projection image stack using the sequential
-    re-projection algorithm :cite:`Gursoy:17`.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ang : ndarray
-        Projection angles in radians as an array.
-    iters : scalar, optional
-        Number of iterations of the algorithm.
-    pad : list-like, optional
-        Padding for projection images in x and y-axes.
-    blur : bool, optional
-        Blurs the edge of the image before registration.
-    center: array, optional
-        Location of rotation axis.
-    algorithm : {str, function}
-        One of the following string values.
-
-        'art'
-            Algebraic reconstruction technique :cite:`Kak:98`.
-        'gridrec'
-            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
-            :cite:`Rivers:06`.
-        'mlem'
-            Maximum-likelihood expectation maximization algorithm
-            :cite:`Dempster:77`.
-        'sirt'
-            Simultaneous algebraic reconstruction technique.
-        'tv'
-            Total Variation reconstruction technique
-            :cite:`Chambolle:11`.
-        'grad'
-            Gradient descent method with a constant step size
-
-    upsample_factor : integer, optional
-        The upsampling factor. Registration accuracy is
-        inversely propotional to upsample_factor.
-    rin : scalar, optional
-        The inner radius of blur function. Pixels inside
-        rin is set to one.
-    rout : scalar, optional
-        The outer radius of blur function. Pixels outside
-        rout is set to zero.
-    save : bool, optional
-        Saves projections and corresponding reconstruction
-        for each algorithm iteration.
-    debug : book, optional
-        Provides debugging info such as iterations and error.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    ndarray
-        Error array for each iteration.
-    """
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Shift arrays
-    sx = np.zeros((prj.shape[0]))
-    sy = np.zeros((prj.shape[0]))
-
-    conv = np.zeros((iters))
-
-    # Pad images.
-    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
-    prj = np.pad(prj, npad, mode='constant', constant_values=0)
-
-    # Register each image frame-by-frame.
-    for n in range(iters):
-        # Reconstruct image.
-        rec = recon(prj, ang, center=center, algorithm=algorithm)
-
-        # Re-project data and obtain simulated data.
-        sim = project(rec, ang, center=center, pad=False)
-
-        # Blur edges.
-        if blur:
-            _prj = blur_edges(prj, rin, rout)
-            _sim = blur_edges(sim, rin, rout)
-        else:
-            _prj = prj
-            _sim = sim
-
-        # Initialize error matrix per iteration.
-        err = np.zeros((prj.shape[0]))
-
-        # For each projection
-        for m in range(prj.shape[0]):
-
-            # Register current projection in sub-pixel precision
-            shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], upsample_factor=upsample_factor)
-            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
-            sx[m] += shift[0]
-            sy[m] += shift[1]
-
-            # Register current image with the simulated one
-            tform = tf.SimilarityTransform(translation=(shift[1], shift[0]))
-            prj[m] = tf.warp(prj[m], tform, order=5)
-
-        if debug:
-            print('iter=' + str(n) + ', err=' + str(np.linalg.norm(err)))
-            conv[n] = np.linalg.norm(err)
-
-        if save:
-            write_tiff(prj, fdir + '/tmp/iters/prj', n)
-            write_tiff(sim, fdir + '/tmp/iters/sim', n)
-            write_tiff(rec, fdir + '/tmp/iters/rec', n)
-
-    # Re-normalize data
-    prj *= scl
-    return prj, sx, sy, conv
-
-
-def align_joint(
-        prj, ang, fdir='./', iters=10, pad=(0, 0),
-        blur=True, center=None, algorithm='sirt',
-        upsample_factor=10, rin=0.5, rout=0.8,
-        save=False, debug=True):
-    """
-    Aligns the projection image stack using the joint
-    re-projection algorithm :cite:`Gursoy:17`.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ang : ndarray
-        Projection angles in radians as an array.
-    iters : scalar, optional
-        Number of iterations of the algorithm.
-    pad : list-like, optional
-        Padding for projection images in x and y-axes.
-    blur : bool, optional
-        Blurs the edge of the image before registration.
-    center: array, optional
-        Location of rotation axis.
-    algorithm : {str, function}
-        One of the following string values.
-
-        'art'
-            Algebraic reconstruction technique :cite:`Kak:98`.
-        'gridrec'
-            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
-            :cite:`Rivers:06`.
-        'mlem'
-            Maximum-likelihood expectation maximization algorithm
-            :cite:`Dempster:77`.
-        'sirt'
-            Simultaneous algebraic reconstruction technique.
-        'tv'
-            Total Variation reconstruction technique
-            :cite:`Chambolle:11`.
-        'grad'
-            Gradient descent method with a constant step size
-
-    upsample_factor : integer, optional
-        The upsampling factor. Registration accuracy is
-        inversely propotional to upsample_factor.
-    rin : scalar, optional
-        The inner radius of blur function. Pixels inside
-        rin is set to one.
-    rout : scalar, optional
-        The outer radius of blur function. Pixels outside
-        rout is set to zero.
-    save : bool, optional
-        Saves projections and corresponding reconstruction
-        for each algorithm iteration.
-    debug : book, optional
-        Provides debugging info such as iterations and error.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    ndarray
-        Error array for each iteration.
-    """
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Shift arrays
-    sx = np.zeros((prj.shape[0]))
-    sy = np.zeros((prj.shape[0]))
-
-    conv = np.zeros((iters))
-
-    # Pad images.
-    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
-    prj = np.pad(prj, npad, mode='constant', constant_values=0)
-
-    # Initialization of reconstruction.
-    rec = 1e-12 * np.ones((prj.shape[1], prj.shape[2], prj.shape[2]))
-
-    extra_kwargs = {}
-    if algorithm != 'gridrec':
-        extra_kwargs['num_iter'] = 1
-
-    # Make a copy of the projections
-    prj_copy = prj.copy()
-
-    # Register each image frame-by-frame.
-    for n in range(iters):
-
-        if np.mod(n, 1) == 0:
-            _rec = rec
-
-        # Reconstruct image.
-        rec = recon(prj_copy, ang, center=center, algorithm=algorithm,
-                    init_recon=_rec, **extra_kwargs)
-
-        # Re-project data and obtain simulated data.
-        sim = project(rec, ang, center=center, pad=False)
-
-        # Blur edges.
-        if blur:
-            _prj = blur_edges(prj_copy, rin, rout)
-            _sim = blur_edges(sim, rin, rout)
-        else:
-            _prj = prj_copy
-            _sim = sim
-
-        # Initialize error matrix per iteration.
-        err = np.zeros((prj.shape[0]))
-
-        # For each projection
-        for m in range(prj.shape[0]):
-
-            # Register current projection in sub-pixel precision
-            shift, error, diffphase = phase_cross_correlation(
-                    _prj[m], _sim[m], normalization=None,
-                    upsample_factor=upsample_factor)
-            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
-            sx[m] += shift[0]
-            sy[m] += shift[1]
-
-            # Register current image with the simulated one
-            tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
-            prj_copy[m] = tf.warp(prj[m].copy(), tform, order=5)
-
-        if debug:
-            print('iter=' + str(n) + 
-                  ', err=' + str(np.linalg.norm(err) / prj.shape[0]))
-            conv[n] = np.linalg.norm(err)
-
-        if save:
-            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
-            write_tiff(sim, fdir + 'tmp/iters/sim', n)
-            write_tiff(rec, fdir + 'tmp/iters/rec', n)
-            write_tiff(sx, fdir + 'tmp/iters/sx', n)
-            write_tiff(sy, fdir + 'tmp/iters/sy', n)
-
-    # Re-normalize data
-    prj *= scl
-    return prj, sx, sy, conv
-
-
-def tilt(obj, rad=0, phi=0):
-    """
-    Tilt object at a given angle from the rotation axis.
-
-    Warning
-    -------
-    Not implemented yet.
-
-    Parameters
-    ----------
-    obj : ndarray
-        3D discrete object.
-    rad : scalar, optional
-        Radius in polar cordinates to define tilt angle.
-        The value is between 0 and 1, where 0 means no tilt
-        and 1 means a tilt of 90 degrees. The tilt angle
-        can be obtained by arcsin(rad).
-    phi : scalar, optional
-        Angle in degrees to define tilt direction from the
-        rotation axis. 0 degree means rotation in sagittal
-        plane and 90 degree means rotation in coronal plane.
-
-    Returns
-    -------
-    ndarray
-        Tilted 3D object.
-    """
-    pass
-
-
-def add_jitter(prj, low=0, high=1):
-    """
-    Simulates jitter in projection images. The jitter
-    is simulated by drawing random samples from a uniform
-    distribution over the half-open interval [low, high).
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    low : float, optional
-        Lower boundary of the output interval. All values
-        generated will be greater than or equal to low. The
-        default value is 0.
-    high : float
-        Upper boundary of the output interval. All values
-        generated will be less than high. The default value
-        is 1.0.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with jitter.
-    """
-    from skimage import transform as tf
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # Random jitter parameters are drawn from uniform distribution.
-    jitter = np.random.uniform(low, high, size=(prj.shape[0], 2))
-
-    for m in range(prj.shape[0]):
-        tform = tf.SimilarityTransform(translation=jitter[m])
-        prj[m] = tf.warp(prj[m], tform, order=0)
-
-    # Re-scale back to original values.
-    prj *= scl
-    return prj, jitter[:, 0], jitter[:, 1]
-
-
-def add_noise(prj, ratio=0.05):
-    """
-    Adds Gaussian noise with zero mean and a given standard
-    deviation as a ratio of the maximum value in data.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    ratio : float, optional
-        Ratio of the standard deviation of the Gaussian noise
-        distribution to the maximum value in data.
-
-    Returns
-    -------
-    ndarray
-        3D stack of projection images with added Gaussian noise.
-    """
-    std = prj.max() * ratio
-    noise = np.random.normal(0, std, size=prj.shape)
-    return prj + noise.astype('float32')
-
-
-def scale(prj):
-    """
-    Linearly scales the projection images in the range
-    between -1 and 1.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-
-    Returns
-    -------
-    ndarray
-        Scaled 3D stack of projection images.
-    """
-    scl = max(abs(prj.max()), abs(prj.min()))
-    prj /= scl
-    return prj, scl
-
-
-def blur_edges(prj, low=0, high=0.8):
-    """
-    Blurs the edge of the projection images.
-
-    Parameters
-    ----------
-    prj : ndarray
-        3D stack of projection images. The first dimension
-        is projection axis, second and third dimensions are
-        the x- and y-axes of the projection image, respectively.
-    low : scalar, optional
-        Min ratio of the blurring frame to the image size.
-    high : scalar, optional
-        Max ratio of the blurring frame to the image size.
-
-    Returns
-    -------
-    ndarray
-        Edge-blurred 3D stack of projection images.
-    """
-    _prj = prj.copy()
-    dx, dy, dz = _prj.shape
-    rows, cols = np.mgrid[:dy, :dz]
-    rad = np.sqrt((rows - dy / 2)**2 + (cols - dz / 2)**2)
-    mask = np.zeros((dy, dz))
-    rmin, rmax = low * rad.max(), high * rad.max()
-    mask[rad < rmin] = 1
-    mask[rad > rmax] = 0
-    zone = np.logical_and(rad >= rmin, rad <= rmax)
-    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
-    feathered = np.empty((dy, dz), dtype=np.uint8)
-    _prj *= mask
-    return _prj
-
-
-def shift_images(prj, sx, sy):
-    """
-    Shift projections images for a given set of shift
-    values in horizontal and vertical directions.
-    """
-
-    from skimage import transform as tf
-
-    # Needs scaling for skimage float operations.
-    prj, scl = scale(prj)
-
-    # For each projection
-    for m in range(prj.shape[0]):
-        tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
-        prj[m] = tf.warp(prj[m], tform, order=5)
-
-    # Re-normalize data
-    prj *= scl
-
-    return prj
-
-
-def find_slits_corners_aps_1id(img,
-                               method='quadrant+',
-                               medfilt2_kernel_size=3,
-                               medfilt_kernel_size=23,
-                               ):
-    """
-    Automatically locate the slit box location by its four corners.
-
-    NOTE:
-    The four slits that form a binding box is the current setup at aps_1id,
-    which reduce the illuminated region on the detector. Since the slits are
-    stationary, they can serve as a reference to check detector drifting
-    during the scan. Technically, the four slits should be used to find
-    the transformation matrix (not necessarily affine) to correct the image.
-    However, since we are dealing with 2D images with very little distortion,
-    affine transformation matrices were used for approximation. Therefore
-    the "four corners" are used instead of all four slits.
-
-    Parameters
-    ----------
-    img : np.ndarray
-        2D images
-    method : str,  ['simple', 'quadrant', 'quadrant+'], optional
-        method for auto detecting slit corners
-            - simple    :: assume a rectange slit box, fast but less accurate
-                           (1 pixel precision)
-            - quadrant  :: subdivide the image into four quandrant, then use
-                           an explicit method to find the corner
-                           (1 pixel precision)
-            - quadrant+ :: similar to quadrant, but use curve_fit (gauss1d) to
-                           find the corner
-                           (0.1 pixel precision)
-    medfilt2_kernel_size : int, optional
-        2D median filter kernel size for noise reduction
-    medfilt_kernel_size : int, optional
-        1D median filter kernel size for noise reduction
-
-    Returns
-    -------
-    tuple
-        autodetected slit corners (counter-clockwise order)
-        (upperLeft, lowerLeft, lowerRight, upperRight)
-    """
-    img = medfilt2d(np.log(img.astype(np.float64)),
-                    kernel_size=medfilt2_kernel_size,
-                    )
-    rows, cols = img.shape
-
-    # simple method is simple, therefore it stands out
-    if method.lower() == 'simple':
-        # assuming a rectangle type slit box
-        col_std = medfilt(np.std(img, axis=0), kernel_size=medfilt_kernel_size)
-        row_std = medfilt(np.std(img, axis=1), kernel_size=medfilt_kernel_size)
-        # NOTE: in the tiff img
-        #  x is col index, y is the row index  ==> key point here !!!
-        #  img slicing is doen with img[row_idx, col_idx]
-        #  ==> so the image idx and corner position are FLIPPED!
-        _left = np.argmax(np.gradient(col_std))
-        _right = np.argmin(np.gradient(col_std))
-        _top = np.argmax(np.gradient(row_std))
-        _bottom = np.argmin(np.gradient(row_std))
-
-        cnrs = np.array([[_left, _top],
-                         [_left, _bottom],
-                         [_right, _bottom],
-                         [_right, _top],
-                         ])
-    else:
-        # predefine all quadrants
-        # Here let's assume that the four corners of the slit box are in the
-        # four quadrant defined by the center of the image
-        # i.e.
-        #  uppper left quadrant: img[0     :cnt[1], 0     :cnt[0]]  => quadarnt origin =  (0,           0)
-        #  lower  left quadrant: img[cnt[1]:      , 0     :cnt[0]]  => quadarnt origin =  (cnt[0],      0)
-        #  lower right quadrant: img[cnt[1]:      , cnt[0]:      ]  => quadarnt origin =  (cnt[0], cnt[1])
-        # upper right quadrant: img[0     :cnt[1], cnt[0]:      ]  => quadarnt
-        # origin =  (0,      cnt[1])
-        # center of image that defines FOUR quadrants
-        cnt = [int(cols / 2), int(rows / 2)]
-        Quadrant = namedtuple('Quadrant', 'img col_func, row_func')
-        quadrants = [Quadrant(img=img[0:cnt[1], 0:cnt[0]], col_func=np.argmax, row_func=np.argmax),  # upper left,  1st quadrant
-                     # lower left,  2nd quadrant
-                     Quadrant(img=img[cnt[1]:, 0:cnt[0]],
-                              col_func=np.argmax, row_func=np.argmin),
-                     # lower right, 3rd quadrant
-                     Quadrant(img=img[cnt[1]:, cnt[0]:],
-                              col_func=np.argmin, row_func=np.argmin),
-                     # upper right, 4th quadrant
-                     Quadrant(img=img[0:cnt[1], cnt[0]:],
-                              col_func=np.argmin, row_func=np.argmax),
-                     ]
-        # the origin in each quadrants ==> easier to set it here
-        quadrantorigins = np.array([[0, 0],  # upper left,  1st quadrant
-                                    [0, cnt[1]],  # lower left,  2nd quadrant
-                                    # lower right, 3rd quadrant
-                                    [cnt[0], cnt[1]],
-                                    [cnt[0], 0],  # upper right, 4th quadrant
-                                    ])
-        # init four corners
-        cnrs = np.zeros((4, 2))
-        if method.lower() == 'quadrant':
-            # the standard quadrant method
-            for i, q in enumerate(quadrants):
-                cnrs[i, :] = np.array([q.col_func(np.gradient(medfilt(np.std(q.img, axis=0), kernel_size=medfilt_kernel_size))),  # x is col_idx
-                                       q.row_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=1),
-                            kernel_size=medfilt_kernel_size))),
-                    # y is row_idx
-                ])
-            # add the origin offset back
-            cnrs = cnrs + quadrantorigins
-        elif method.lower() == 'quadrant+':
-            # use Gaussian curve fitting to achive subpixel precision
-            # TODO:
-            # improve the curve fitting with Lorentz and Voigt fitting function
-            for i, q in enumerate(quadrants):
-                # -- find x subpixel position
-                cnr_x_guess = q.col_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=0),
-                            kernel_size=medfilt_kernel_size)))
-                # isolate the strongest peak to fit
-                tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
-                tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
-                # tmpy[0] is the value from the highest/lowest pixle
-                # tmpx[0] is basically cnr_x_guess
-                # 5.0 is the guessted std,
-                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
-                                     maxfev=int(1e6),
-                                     )
-                cnrs[i, 0] = coeff[1]  # x position
-                # -- find y subpixel positoin
-                cnr_y_guess = q.row_func(
-                    np.gradient(
-                        medfilt(
-                            np.std(
-                                q.img,
-                                axis=1),
-                            kernel_size=medfilt_kernel_size)))
-                # isolate the peak (x, y here is only associated with the peak)
-                tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
-                tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
-                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
-                                     p0=[tmpy[0], tmpx[0], 5.0],
-                                     maxfev=int(1e6),
-                                     )
-                cnrs[i, 1] = coeff[1]  # y posiiton
-            # add the quadrant shift back
-            cnrs = cnrs + quadrantorigins
-
-        else:
-            raise NotImplementedError(
-                "Available methods are: simple, quadrant, quadrant+")
-
-    # return the slit corner detected
-    return cnrs
-
-
-def calc_slit_box_aps_1id(slit_box_corners, inclip=(1, 10, 1, 10)):
-    """
-    Calculate the clip box based on given slip corners.
-
-    Parameters
-    ----------
-    slit_box_corners : np.ndarray
-        Four corners of the slit box as a 4x2 matrix
-    inclip : tuple, optional
-        Extra inclipping to avoid clipping artifacts
-
-    Returns
-    -------
-    Tuple:
-        Cliping indices as a tuple of four
-        (clipFromTop, clipToBottom, clipFromLeft, clipToRight)
-
-    """
-    return (
-        np.floor(slit_box_corners[:, 0].min()).astype(
-            int) + inclip[0],  # clip top    row
-        np.ceil(slit_box_corners[:, 0].max()).astype(
-            int) - inclip[1],  # clip bottom row
-        np.floor(slit_box_corners[:, 1].min()).astype(
-            int) + inclip[2],  # clip left   col
-        np.ceil(slit_box_corners[:, 1].max()).astype(
-            int) - inclip[3],  # clip right  col
-    )
-
-
-def remove_slits_aps_1id(imgstacks, slit_box_corners, inclip=(1, 10, 1, 10)):
-    """
-    Remove the slits from still images
-
-    Parameters
-    ----------
-    imgstacks : np.ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    slit_box_corners : np.ndarray
-        four corners of the slit box
-    inclip : tuple, optional
-        Extra inclipping to avoid clipping artifacts
-
-    Returns
-    -------
-    np.ndarray
-        tomopy images stacks without regions outside slits
-    """
-    xl, xu, yl, yu = calc_slit_box_aps_1id(slit_box_corners, inclip=inclip)
-    return imgstacks[:, yl:yu, xl:xu]
-
-
-def detector_drift_adjust_aps_1id(imgstacks,
-                                  slit_cnr_ref,
-                                  medfilt2_kernel_size=3,
-                                  medfilt_kernel_size=3,
-                                  ncore=None,
-                                  ):
-    """
-    Adjust each still image based on the slit corners and generate report fig
-
-    Parameters
-    ----------
-    imgstacks : np.ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    slit_cnr_ref : np.ndarray
-        reference slit corners from white field images
-    medfilt2_kernel_size : int, optional
-        2D median filter kernel size for slit conner detection
-    medfilt_kernel_size  : int, optional
-        1D median filter kernel size for slit conner detection
-    ncore : int, optional
-        number of cores used for speed up
-
-    Returns
-    -------
-    np.ndarray
-        adjusted imgstacks
-    np.ndarray
-        detected corners on each still image
-    np.ndarray
-        transformation matrices used to adjust each image
-    """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
-
-    def quick_diff(x): return np.amax(np.absolute(x))
-
-    # -- find all projection corners (slow)
-    # NOTE:
-    #  Here we are using an iterative approach to find stable slit corners
-    #  from each image
-    #  1. calculate all slit corners with the given kernel size, preferably
-    #     a small one for speed.
-    #  2. double the kernel size and calculate again, but this time we are
-    #     checking whether the slit corners are stable.
-    #  3. find the ids (n_imgs) for those that are difficult, continue
-    #     increasing the kernel size until all slit corners are found, or max
-    #     number of iterations.
-    #  4. move on to next step.
-    nlist = range(imgstacks.shape[0])
-    proj_cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
-                                'quadrant+',
-                                medfilt2_kernel_size,
-                                medfilt_kernel_size,
-                                )
-    cnrs_found = np.array([quick_diff(proj_cnrs[n, :, :] - slit_cnr_ref) < 15
-                           for n in nlist])
-    kernels = [(medfilt2_kernel_size+2*i, medfilt_kernel_size+2*j)
-               for i in range(15)
-               for j in range(15)]
-    counter = 0
-
-    while not cnrs_found.all():
-        nlist = [idx for idx, cnr_found in enumerate(cnrs_found)
-                 if not cnr_found]
-        # NOTE:
-        #   Check to see if we run out of candidate kernels:
-        if counter >= len(kernels):
-            # we are giving up here...
-            for idx, n_img in enumerate(nlist):
-                proj_cnrs[n_img, :, :] = slit_cnr_ref
-            break
-        else:
-            # test with differnt 2D and 1D kernels
-            ks2d, ks1d = kernels[counter]
-
-        _cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
-                                'quadrant+', ks2d, ks1d)
-        for idx, _cnr in enumerate(_cnrs):
-            n_img = nlist[idx]
-            cnr = proj_cnrs[n_img, :, :]  # previous results
-            # NOTE:
-            #  The detector corner should not be far away from reference
-            #  -> adiff < 15
-            #  The detected corner should be stable
-            #  -> rdiff < 0.1 (pixel)s
-            adiff = quick_diff(_cnr - slit_cnr_ref)
-            rdiff = quick_diff(_cnr - cnr)
-            if rdiff < 0.1 and adiff < 15:
-                cnrs_found[n_img] = True
-            else:
-                # update results
-                proj_cnrs[n_img, :, :] = _cnr  # update results for next iter
-
-        # next
-        counter += 1
-
-    # -- calculate affine transformation (fast)
-    img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
-    for n_img in range(imgstacks.shape[0]):
-        img_correct_F[n_img, :, :] = calc_affine_transform(
-            proj_cnrs[n_img, :, :], slit_cnr_ref)
-
-    # -- apply affine transformation (slow)
-    tmp = []
-    with cf.ProcessPoolExecutor(ncore) as e:
-        for n_img in range(imgstacks.shape[0]):
-            tmp.append(e.submit(affine_transform,
-                                # input image
-                                imgstacks[n_img, :, :],
-                                # rotation matrix
-                                img_correct_F[n_img, 0:2, 0:2],
-                                # offset vector
-                                offset=img_correct_F[n_img, 0:2,  2],
-                                )
-                       )
-    imgstacks = np.stack([me.result() for me in tmp], axis=0)
-
-    return imgstacks, proj_cnrs, img_correct_F
-
-
-def _calc_proj_cnrs(imgs,
-                    ncore,
-                    nlist,
-                    method,
-                    medfilt2_kernel_size,
-                    medfilt_kernel_size,
-                    ):
-    """
-    Private function calculate slit corners concurrently
-
-    Parameters
-    ----------
-    imgs : ndarray
-        tomopy images stacks (axis_0 is the oemga direction)
-    ncore : int
-        number of cores to use
-    nlist : list of int
-        index of images to be processed
-    method : str
-        slit corner detection method name
-    medfilt2_kernel_size : int
-        2D median filter kernel size, must be odd
-    medfilt_kernel_size : int
-        1D median filter kernel size, must be odd
-
-    Returns
-    -------
-    np.3darray
-        detected corners on each still image
-    """
-    tmp = []
-    with cf.ProcessPoolExecutor(ncore) as e:
-        for n_img in nlist:
-            tmp.append(e.submit(find_slits_corners_aps_1id,
-                                imgs[n_img, :, :],
-                                method=method,
-                                medfilt2_kernel_size=medfilt2_kernel_size,
-                                medfilt_kernel_size=medfilt_kernel_size,
-                                )
-                       )
-    return np.stack([me.result() for me in tmp], axis=0)
-
-
-def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
-                                ncore=None, nchunk=None):
-    """
-    Apply distortion correction to projections using the polynomial model.
-    Coefficients are calculated using Vounwarp package :cite:`Vo:15`.
-
-    .. versionadded:: 1.7
-
-    Parameters
-    ----------
-    tomo : ndarray
-        3D tomographic data.
-    xcenter : float
-        Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-        Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-        Polynomial coefficients of the backward model.
-    ncore : int, optional
-        Number of cores that will be assigned to jobs.
-    nchunk : int, optional
-        Chunk size for each core.
-
-    Returns
-    -------
-    ndarray
-        Corrected 3D tomographic data.
-    """
-    arr = mproc.distribute_jobs(
-        tomo,
-        func=_distortion_correction_proj,
-        args=(xcenter, ycenter, list_fact),
-        axis=0,
-        ncore=ncore,
-        nchunk=nchunk)
-    return arr
-
-
-def _unwarp_image_backward(mat, xcenter, ycenter, list_fact):
-    """
-    Unwarp an image using the polynomial model.
-
-    Parameters
-    ----------
-    mat : 2D array.
-    xcenter : float
-            Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-            Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-            Polynomial coefficients of the backward model.
-
-    Returns
-    -------
-    2D array
-        Corrected image.
-    """
-    (height, width) = mat.shape
-    xu_list = np.arange(width) - xcenter
-    yu_list = np.arange(height) - ycenter
-    xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
-    ru_mat = np.sqrt(xu_mat**2 + yu_mat**2)
-    fact_mat = np.sum(
-        np.asarray([factor * ru_mat**i for i,
-                    factor in enumerate(list_fact)]), axis=0)
-    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
-    indices = np.reshape(yd_mat, (-1, 1)), np.reshape(xd_mat, (-1, 1))
-    mat = map_coordinates(mat, indices, order=1, mode='reflect')
-    return mat.reshape((height, width))
-
-
-def _distortion_correction_proj(tomo, xcenter, ycenter, list_fact):
-    for m in np.arange(tomo.shape[0]):
-        proj = tomo[m, :, :]
-        proj = _unwarp_image_backward(proj, xcenter, ycenter, list_fact)
-        tomo[m, :, :] = proj
-
-
-def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
-    """
-    Generate an unwarped sinogram of a 3D tomographic data using
-    the polynomial model. Coefficients are calculated using Vounwarp
-    package :cite:`Vo:15`.
-
-    .. versionadded:: 1.7
-
-    Parameters
-    ----------
-    tomo : ndarray
-        3D tomographic data.
-    ind : int
-        Index of the unwarped sinogram.
-    xcenter : float
-        Center of distortion in x-direction. From the left of the image.
-    ycenter : float
-        Center of distortion in y-direction. From the top of the image.
-    list_fact : list of floats
-        Polynomial coefficients of the backward model.
-
-    Returns
-    -------
-    2D array
-        Corrected sinogram.
-    """
-    (depth, height, width) = tomo.shape
-    xu_list = np.arange(0, width) - xcenter
-    yu = ind - ycenter
-    ru_list = np.sqrt(xu_list**2 + yu**2)
-    flist = np.sum(
-        np.asarray([factor * ru_list**i for i,
-                    factor in enumerate(list_fact)]), axis=0)
-    xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
-    yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
-    yd_list = yd_list - yd_min
-    sino = np.zeros((depth, width), dtype=np.float32)
-    indices = yd_list, xd_list
-    for i in np.arange(depth):
-        sino[i] = map_coordinates(
-            tomo[i, yd_min:yd_max, :], indices, order=1, mode='reflect')
-    return sino
-
-
-def load_distortion_coefs(file_path):
-        """
-        Load distortion coefficients from a text file.
-        Order of the infor in the text file:
-        xcenter
-        ycenter
-        factor_0
-        factor_1
-        factor_2
-        ..
-
-        Parameters
-        ----------
-        file_path: Path to the file.
-
-        Returns
-        -------
-        Tuple of (xcenter, ycenter, list_fact).
-        """
-        with open(file_path, 'r') as f:
-            x = f.read().splitlines()
-            list_data = []
-            for i in x:
-                list_data.append(float(i.split()[-1]))
-        xcenter = list_data[0]
-        ycenter = list_data[1]
-        list_fact = list_data[2:]
-        return xcenter, ycenter, list_fact
+#!/usr/bin/env python
+# -*- coding: utf-8 -*-
+
+# #########################################################################
+# Copyright (c) 2016-2019, UChicago Argonne, LLC. All rights reserved.    #
+#                                                                         #
+# Copyright 2016-2019. UChicago Argonne, LLC. This software was produced  #
+# under U.S. Government contract DE-AC02-06CH11357 for Argonne National   #
+# Laboratory (ANL), which is operated by UChicago Argonne, LLC for the    #
+# U.S. Department of Energy. The U.S. Government has rights to use,       #
+# reproduce, and distribute this software.  NEITHER THE GOVERNMENT NOR    #
+# UChicago Argonne, LLC MAKES ANY WARRANTY, EXPRESS OR IMPLIED, OR        #
+# ASSUMES ANY LIABILITY FOR THE USE OF THIS SOFTWARE.  If software is     #
+# modified to produce derivative works, such modified software should     #
+# be clearly marked, so as not to confuse it with the version available   #
+# from ANL.                                                               #
+#                                                                         #
+# Additionally, redistribution and use in source and binary forms, with   #
+# or without modification, are permitted provided that the following      #
+# conditions are met:                                                     #
+#                                                                         #
+#     * Redistributions of source code must retain the above copyright    #
+#       notice, this list of conditions and the following disclaimer.     #
+#                                                                         #
+#     * Redistributions in binary form must reproduce the above copyright #
+#       notice, this list of conditions and the following disclaimer in   #
+#       the documentation and/or other materials provided with the        #
+#       distribution.                                                     #
+#                                                                         #
+#     * Neither the name of UChicago Argonne, LLC, Argonne National       #
+#       Laboratory, ANL, the U.S. Government, nor the names of its        #
+#       contributors may be used to endorse or promote products derived   #
+#       from this software without specific prior written permission.     #
+#                                                                         #
+# THIS SOFTWARE IS PROVIDED BY UChicago Argonne, LLC AND CONTRIBUTORS     #
+# "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT       #
+# LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS       #
+# FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL UChicago     #
+# Argonne, LLC OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,        #
+# INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,    #
+# BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;        #
+# LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER        #
+# CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT      #
+# LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN       #
+# ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE         #
+# POSSIBILITY OF SUCH DAMAGE.                                             #
+# #########################################################################
+
+import numpy as np
+import concurrent.futures as cf
+import tomopy.util.mproc as mproc
+import logging
+
+from skimage import transform as tf
+from skimage.registration import phase_cross_correlation
+from tomopy.recon.algorithm import recon
+from tomopy.sim.project import project
+from tomopy.misc.npmath import gauss1d, calc_affine_transform
+from tomopy.util.misc import write_tiff
+from scipy.signal import medfilt, medfilt2d
+from scipy.optimize import curve_fit
+from scipy.ndimage import affine_transform
+from scipy.ndimage import map_coordinates
+from collections import namedtuple
+
+logger = logging.getLogger(__name__)
+
+
+__author__ = "Doga Gursoy, Chen Zhang, Nghia Vo"
+__copyright__ = "Copyright (c) 2016-19, UChicago Argonne, LLC."
+__docformat__ = 'restructuredtext en'
+__all__ = ['align_seq',
+           'align_joint',
+           'scale',
+           'tilt',
+           'add_jitter',
+           'add_noise',
+           'blur_edges',
+           'shift_images',
+           'find_slits_corners_aps_1id',
+           'calc_slit_box_aps_1id',
+           'remove_slits_aps_1id',
+           'distortion_correction_proj',
+           'distortion_correction_sino',
+           'load_distortion_coefs',
+           ]
+
+
+def align_seq(
+        prj, ang, fdir='.', iters=10, pad=(0, 0),
+        blur=True, center=None, algorithm='sirt',
+        upsample_factor=10, rin=0.5, rout=0.8,
+        save=False, debug=True):
+    """
+    Aligns the projection image stack using the sequential
+    re-projection algorithm :cite:`Gursoy:17`.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ang : ndarray
+        Projection angles in radians as an array.
+    iters : scalar, optional
+        Number of iterations of the algorithm.
+    pad : list-like, optional
+        Padding for projection images in x and y-axes.
+    blur : bool, optional
+        Blurs the edge of the image before registration.
+    center: array, optional
+        Location of rotation axis.
+    algorithm : {str, function}
+        One of the following string values.
+
+        'art'
+            Algebraic reconstruction technique :cite:`Kak:98`.
+        'gridrec'
+            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
+            :cite:`Rivers:06`.
+        'mlem'
+            Maximum-likelihood expectation maximization algorithm
+            :cite:`Dempster:77`.
+        'sirt'
+            Simultaneous algebraic reconstruction technique.
+        'tv'
+            Total Variation reconstruction technique
+            :cite:`Chambolle:11`.
+        'grad'
+            Gradient descent method with a constant step size
+
+    upsample_factor : integer, optional
+        The upsampling factor. Registration accuracy is
+        inversely propotional to upsample_factor.
+    rin : scalar, optional
+        The inner radius of blur function. Pixels inside
+        rin is set to one.
+    rout : scalar, optional
+        The outer radius of blur function. Pixels outside
+        rout is set to zero.
+    save : bool, optional
+        Saves projections and corresponding reconstruction
+        for each algorithm iteration.
+    debug : book, optional
+        Provides debugging info such as iterations and error.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    ndarray
+        Error array for each iteration.
+    """
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Shift arrays
+    sx = np.zeros((prj.shape[0]))
+    sy = np.zeros((prj.shape[0]))
+
+    conv = np.zeros((iters))
+
+    # Pad images.
+    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
+    prj = np.pad(prj, npad, mode='constant', constant_values=0)
+
+    # Register each image frame-by-frame.
+    for n in range(iters):
+        # Reconstruct image.
+        rec = recon(prj, ang, center=center, algorithm=algorithm)
+
+        # Re-project data and obtain simulated data.
+        sim = project(rec, ang, center=center, pad=False)
+
+        # Blur edges.
+        if blur:
+            _prj = blur_edges(prj, rin, rout)
+            _sim = blur_edges(sim, rin, rout)
+        else:
+            _prj = prj
+            _sim = sim
+
+        # Initialize error matrix per iteration.
+        err = np.zeros((prj.shape[0]))
+
+        # For each projection
+        for m in range(prj.shape[0]):
+
+            # Register current projection in sub-pixel precision
+            shift, error, diffphase = phase_cross_correlation(
+                    _prj[m], _sim[m], upsample_factor=upsample_factor)
+            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
+            sx[m] += shift[0]
+            sy[m] += shift[1]
+
+            # Register current image with the simulated one
+            tform = tf.SimilarityTransform(translation=(shift[1], shift[0]))
+            prj[m] = tf.warp(prj[m], tform, order=5)
+
+        if debug:
+            print('iter=' + str(n) + ', err=' + str(np.linalg.norm(err)))
+            conv[n] = np.linalg.norm(err)
+
+        if save:
+            write_tiff(prj, fdir + '/tmp/iters/prj', n)
+            write_tiff(sim, fdir + '/tmp/iters/sim', n)
+            write_tiff(rec, fdir + '/tmp/iters/rec', n)
+
+    # Re-normalize data
+    prj *= scl
+    return prj, sx, sy, conv
+
+
+def align_joint(
+        prj, ang, fdir='./', iters=10, pad=(0, 0),
+        blur=True, center=None, algorithm='sirt',
+        upsample_factor=10, rin=0.5, rout=0.8,
+        save=False, debug=True):
+    """
+    Aligns the projection image stack using the joint
+    re-projection algorithm :cite:`Gursoy:17`.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ang : ndarray
+        Projection angles in radians as an array.
+    iters : scalar, optional
+        Number of iterations of the algorithm.
+    pad : list-like, optional
+        Padding for projection images in x and y-axes.
+    blur : bool, optional
+        Blurs the edge of the image before registration.
+    center: array, optional
+        Location of rotation axis.
+    algorithm : {str, function}
+        One of the following string values.
+
+        'art'
+            Algebraic reconstruction technique :cite:`Kak:98`.
+        'gridrec'
+            Fourier grid reconstruction algorithm :cite:`Dowd:99`,
+            :cite:`Rivers:06`.
+        'mlem'
+            Maximum-likelihood expectation maximization algorithm
+            :cite:`Dempster:77`.
+        'sirt'
+            Simultaneous algebraic reconstruction technique.
+        'tv'
+            Total Variation reconstruction technique
+            :cite:`Chambolle:11`.
+        'grad'
+            Gradient descent method with a constant step size
+
+    upsample_factor : integer, optional
+        The upsampling factor. Registration accuracy is
+        inversely propotional to upsample_factor.
+    rin : scalar, optional
+        The inner radius of blur function. Pixels inside
+        rin is set to one.
+    rout : scalar, optional
+        The outer radius of blur function. Pixels outside
+        rout is set to zero.
+    save : bool, optional
+        Saves projections and corresponding reconstruction
+        for each algorithm iteration.
+    debug : book, optional
+        Provides debugging info such as iterations and error.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    ndarray
+        Error array for each iteration.
+    """
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Shift arrays
+    sx = np.zeros((prj.shape[0]))
+    sy = np.zeros((prj.shape[0]))
+
+    conv = np.zeros((iters))
+
+    # Pad images.
+    npad = ((0, 0), (pad[1], pad[1]), (pad[0], pad[0]))
+    prj = np.pad(prj, npad, mode='constant', constant_values=0)
+
+    # Initialization of reconstruction.
+    rec = 1e-12 * np.ones((prj.shape[1], prj.shape[2], prj.shape[2]))
+
+    extra_kwargs = {}
+    if algorithm != 'gridrec':
+        extra_kwargs['num_iter'] = 1
+
+    # Make a copy of the projections
+    prj_copy = prj.copy()
+
+    # Register each image frame-by-frame.
+    for n in range(iters):
+
+        if np.mod(n, 1) == 0:
+            _rec = rec
+
+        # Reconstruct image.
+        rec = recon(prj_copy, ang, center=center, algorithm=algorithm,
+                    init_recon=_rec, **extra_kwargs)
+
+        # Re-project data and obtain simulated data.
+        sim = project(rec, ang, center=center, pad=False)
+
+        # Blur edges.
+        if blur:
+            _prj = blur_edges(prj_copy, rin, rout)
+            _sim = blur_edges(sim, rin, rout)
+        else:
+            _prj = prj_copy
+            _sim = sim
+
+        # Initialize error matrix per iteration.
+        err = np.zeros((prj.shape[0]))
+
+        # For each projection
+        for m in range(prj.shape[0]):
+
+            # Register current projection in sub-pixel precision
+            shift, error, diffphase = phase_cross_correlation(
+                    _prj[m], _sim[m], normalization=None,
+                    upsample_factor=upsample_factor)
+            err[m] = np.sqrt(shift[0]*shift[0] + shift[1]*shift[1])
+            sx[m] += shift[0]
+            sy[m] += shift[1]
+
+            # Register current image with the simulated one
+            tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
+            prj_copy[m] = tf.warp(prj[m].copy(), tform, order=5)
+
+        if debug:
+            print('iter=' + str(n) + 
+                  ', err=' + str(np.linalg.norm(err) / prj.shape[0]))
+            conv[n] = np.linalg.norm(err)
+
+        if save:
+            write_tiff(_prj, fdir + 'tmp/iters/prj', n)
+            write_tiff(sim, fdir + 'tmp/iters/sim', n)
+            write_tiff(rec, fdir + 'tmp/iters/rec', n)
+            write_tiff(sx, fdir + 'tmp/iters/sx', n)
+            write_tiff(sy, fdir + 'tmp/iters/sy', n)
+
+    # Re-normalize data
+    prj *= scl
+    return prj, sx, sy, conv
+
+
+def tilt(obj, rad=0, phi=0):
+    """
+    Tilt object at a given angle from the rotation axis.
+
+    Warning
+    -------
+    Not implemented yet.
+
+    Parameters
+    ----------
+    obj : ndarray
+        3D discrete object.
+    rad : scalar, optional
+        Radius in polar cordinates to define tilt angle.
+        The value is between 0 and 1, where 0 means no tilt
+        and 1 means a tilt of 90 degrees. The tilt angle
+        can be obtained by arcsin(rad).
+    phi : scalar, optional
+        Angle in degrees to define tilt direction from the
+        rotation axis. 0 degree means rotation in sagittal
+        plane and 90 degree means rotation in coronal plane.
+
+    Returns
+    -------
+    ndarray
+        Tilted 3D object.
+    """
+    pass
+
+
+def add_jitter(prj, low=0, high=1):
+    """
+    Simulates jitter in projection images. The jitter
+    is simulated by drawing random samples from a uniform
+    distribution over the half-open interval [low, high).
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    low : float, optional
+        Lower boundary of the output interval. All values
+        generated will be greater than or equal to low. The
+        default value is 0.
+    high : float
+        Upper boundary of the output interval. All values
+        generated will be less than high. The default value
+        is 1.0.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with jitter.
+    """
+    from skimage import transform as tf
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # Random jitter parameters are drawn from uniform distribution.
+    jitter = np.random.uniform(low, high, size=(prj.shape[0], 2))
+
+    for m in range(prj.shape[0]):
+        tform = tf.SimilarityTransform(translation=jitter[m])
+        prj[m] = tf.warp(prj[m], tform, order=0)
+
+    # Re-scale back to original values.
+    prj *= scl
+    return prj, jitter[:, 0], jitter[:, 1]
+
+
+def add_noise(prj, ratio=0.05):
+    """
+    Adds Gaussian noise with zero mean and a given standard
+    deviation as a ratio of the maximum value in data.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    ratio : float, optional
+        Ratio of the standard deviation of the Gaussian noise
+        distribution to the maximum value in data.
+
+    Returns
+    -------
+    ndarray
+        3D stack of projection images with added Gaussian noise.
+    """
+    std = prj.max() * ratio
+    noise = np.random.normal(0, std, size=prj.shape)
+    return prj + noise.astype('float32')
+
+
+def scale(prj):
+    """
+    Linearly scales the projection images in the range
+    between -1 and 1.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+
+    Returns
+    -------
+    ndarray
+        Scaled 3D stack of projection images.
+    """
+    scl = max(abs(prj.max()), abs(prj.min()))
+    prj /= scl
+    return prj, scl
+
+
+def blur_edges(prj, low=0, high=0.8):
+    """
+    Blurs the edge of the projection images.
+
+    Parameters
+    ----------
+    prj : ndarray
+        3D stack of projection images. The first dimension
+        is projection axis, second and third dimensions are
+        the x- and y-axes of the projection image, respectively.
+    low : scalar, optional
+        Min ratio of the blurring frame to the image size.
+    high : scalar, optional
+        Max ratio of the blurring frame to the image size.
+
+    Returns
+    -------
+    ndarray
+        Edge-blurred 3D stack of projection images.
+    """
+    _prj = prj.copy()
+    dx, dy, dz = _prj.shape
+    rows, cols = np.mgrid[:dy, :dz]
+    rad = np.sqrt((rows - dy / 2)**2 + (cols - dz / 2)**2)
+    mask = np.zeros((dy, dz))
+    rmin, rmax = low * rad.max(), high * rad.max()
+    mask[rad < rmin] = 1
+    mask[rad > rmax] = 0
+    zone = np.logical_and(rad >= rmin, rad <= rmax)
+    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
+    feathered = np.empty((dy, dz), dtype=np.uint8)
+    _prj *= mask
+    return _prj
+
+
+def shift_images(prj, sx, sy):
+    """
+    Shift projections images for a given set of shift
+    values in horizontal and vertical directions.
+    """
+
+    from skimage import transform as tf
+
+    # Needs scaling for skimage float operations.
+    prj, scl = scale(prj)
+
+    # For each projection
+    for m in range(prj.shape[0]):
+        tform = tf.SimilarityTransform(translation=(sy[m], sx[m]))
+        prj[m] = tf.warp(prj[m], tform, order=5)
+
+    # Re-normalize data
+    prj *= scl
+
+    return prj
+
+
+def find_slits_corners_aps_1id(img,
+                               method='quadrant+',
+                               medfilt2_kernel_size=3,
+                               medfilt_kernel_size=23,
+                               ):
+    """
+    Automatically locate the slit box location by its four corners.
+
+    NOTE:
+    The four slits that form a binding box is the current setup at aps_1id,
+    which reduce the illuminated region on the detector. Since the slits are
+    stationary, they can serve as a reference to check detector drifting
+    during the scan. Technically, the four slits should be used to find
+    the transformation matrix (not necessarily affine) to correct the image.
+    However, since we are dealing with 2D images with very little distortion,
+    affine transformation matrices were used for approximation. Therefore
+    the "four corners" are used instead of all four slits.
+
+    Parameters
+    ----------
+    img : np.ndarray
+        2D images
+    method : str,  ['simple', 'quadrant', 'quadrant+'], optional
+        method for auto detecting slit corners
+            - simple    :: assume a rectange slit box, fast but less accurate
+                           (1 pixel precision)
+            - quadrant  :: subdivide the image into four quandrant, then use
+                           an explicit method to find the corner
+                           (1 pixel precision)
+            - quadrant+ :: similar to quadrant, but use curve_fit (gauss1d) to
+                           find the corner
+                           (0.1 pixel precision)
+    medfilt2_kernel_size : int, optional
+        2D median filter kernel size for noise reduction
+    medfilt_kernel_size : int, optional
+        1D median filter kernel size for noise reduction
+
+    Returns
+    -------
+    tuple
+        autodetected slit corners (counter-clockwise order)
+        (upperLeft, lowerLeft, lowerRight, upperRight)
+    """
+    img = medfilt2d(np.log(img.astype(np.float64)),
+                    kernel_size=medfilt2_kernel_size,
+                    )
+    rows, cols = img.shape
+
+    # simple method is simple, therefore it stands out
+    if method.lower() == 'simple':
+        # assuming a rectangle type slit box
+        col_std = medfilt(np.std(img, axis=0), kernel_size=medfilt_kernel_size)
+        row_std = medfilt(np.std(img, axis=1), kernel_size=medfilt_kernel_size)
+        # NOTE: in the tiff img
+        #  x is col index, y is the row index  ==> key point here !!!
+        #  img slicing is doen with img[row_idx, col_idx]
+        #  ==> so the image idx and corner position are FLIPPED!
+        _left = np.argmax(np.gradient(col_std))
+        _right = np.argmin(np.gradient(col_std))
+        _top = np.argmax(np.gradient(row_std))
+        _bottom = np.argmin(np.gradient(row_std))
+
+        cnrs = np.array([[_left, _top],
+                         [_left, _bottom],
+                         [_right, _bottom],
+                         [_right, _top],
+                         ])
+    else:
+        # predefine all quadrants
+        # Here let's assume that the four corners of the slit box are in the
+        # four quadrant defined by the center of the image
+        # i.e.
+        #  uppper left quadrant: img[0     :cnt[1], 0     :cnt[0]]  => quadarnt origin =  (0,           0)
+        #  lower  left quadrant: img[cnt[1]:      , 0     :cnt[0]]  => quadarnt origin =  (cnt[0],      0)
+        #  lower right quadrant: img[cnt[1]:      , cnt[0]:      ]  => quadarnt origin =  (cnt[0], cnt[1])
+        # upper right quadrant: img[0     :cnt[1], cnt[0]:      ]  => quadarnt
+        # origin =  (0,      cnt[1])
+        # center of image that defines FOUR quadrants
+        cnt = [int(cols / 2), int(rows / 2)]
+        Quadrant = namedtuple('Quadrant', 'img col_func, row_func')
+        quadrants = [Quadrant(img=img[0:cnt[1], 0:cnt[0]], col_func=np.argmax, row_func=np.argmax),  # upper left,  1st quadrant
+                     # lower left,  2nd quadrant
+                     Quadrant(img=img[cnt[1]:, 0:cnt[0]],
+                              col_func=np.argmax, row_func=np.argmin),
+                     # lower right, 3rd quadrant
+                     Quadrant(img=img[cnt[1]:, cnt[0]:],
+                              col_func=np.argmin, row_func=np.argmin),
+                     # upper right, 4th quadrant
+                     Quadrant(img=img[0:cnt[1], cnt[0]:],
+                              col_func=np.argmin, row_func=np.argmax),
+                     ]
+        # the origin in each quadrants ==> easier to set it here
+        quadrantorigins = np.array([[0, 0],  # upper left,  1st quadrant
+                                    [0, cnt[1]],  # lower left,  2nd quadrant
+                                    # lower right, 3rd quadrant
+                                    [cnt[0], cnt[1]],
+                                    [cnt[0], 0],  # upper right, 4th quadrant
+                                    ])
+        # init four corners
+        cnrs = np.zeros((4, 2))
+        if method.lower() == 'quadrant':
+            # the standard quadrant method
+            for i, q in enumerate(quadrants):
+                cnrs[i, :] = np.array([q.col_func(np.gradient(medfilt(np.std(q.img, axis=0), kernel_size=medfilt_kernel_size))),  # x is col_idx
+                                       q.row_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=1),
+                            kernel_size=medfilt_kernel_size))),
+                    # y is row_idx
+                ])
+            # add the origin offset back
+            cnrs = cnrs + quadrantorigins
+        elif method.lower() == 'quadrant+':
+            # use Gaussian curve fitting to achive subpixel precision
+            # TODO:
+            # improve the curve fitting with Lorentz and Voigt fitting function
+            for i, q in enumerate(quadrants):
+                # -- find x subpixel position
+                cnr_x_guess = q.col_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=0),
+                            kernel_size=medfilt_kernel_size)))
+                # isolate the strongest peak to fit
+                tmpx = np.arange(cnr_x_guess - 10, cnr_x_guess + 11)
+                tmpy = np.gradient(np.std(q.img, axis=0))[tmpx]
+                # tmpy[0] is the value from the highest/lowest pixle
+                # tmpx[0] is basically cnr_x_guess
+                # 5.0 is the guessted std,
+                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
+                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     maxfev=int(1e6),
+                                     )
+                cnrs[i, 0] = coeff[1]  # x position
+                # -- find y subpixel positoin
+                cnr_y_guess = q.row_func(
+                    np.gradient(
+                        medfilt(
+                            np.std(
+                                q.img,
+                                axis=1),
+                            kernel_size=medfilt_kernel_size)))
+                # isolate the peak (x, y here is only associated with the peak)
+                tmpx = np.arange(cnr_y_guess - 10, cnr_y_guess + 11)
+                tmpy = np.gradient(np.std(q.img, axis=1))[tmpx]
+                coeff, _ = curve_fit(gauss1d, tmpx, tmpy,
+                                     p0=[tmpy[0], tmpx[0], 5.0],
+                                     maxfev=int(1e6),
+                                     )
+                cnrs[i, 1] = coeff[1]  # y posiiton
+            # add the quadrant shift back
+            cnrs = cnrs + quadrantorigins
+
+        else:
+            raise NotImplementedError(
+                "Available methods are: simple, quadrant, quadrant+")
+
+    # return the slit corner detected
+    return cnrs
+
+
+def calc_slit_box_aps_1id(slit_box_corners, inclip=(1, 10, 1, 10)):
+    """
+    Calculate the clip box based on given slip corners.
+
+    Parameters
+    ----------
+    slit_box_corners : np.ndarray
+        Four corners of the slit box as a 4x2 matrix
+    inclip : tuple, optional
+        Extra inclipping to avoid clipping artifacts
+
+    Returns
+    -------
+    Tuple:
+        Cliping indices as a tuple of four
+        (clipFromTop, clipToBottom, clipFromLeft, clipToRight)
+
+    """
+    return (
+        np.floor(slit_box_corners[:, 0].min()).astype(
+            int) + inclip[0],  # clip top    row
+        np.ceil(slit_box_corners[:, 0].max()).astype(
+            int) - inclip[1],  # clip bottom row
+        np.floor(slit_box_corners[:, 1].min()).astype(
+            int) + inclip[2],  # clip left   col
+        np.ceil(slit_box_corners[:, 1].max()).astype(
+            int) - inclip[3],  # clip right  col
+    )
+
+
+def remove_slits_aps_1id(imgstacks, slit_box_corners, inclip=(1, 10, 1, 10)):
+    """
+    Remove the slits from still images
+
+    Parameters
+    ----------
+    imgstacks : np.ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    slit_box_corners : np.ndarray
+        four corners of the slit box
+    inclip : tuple, optional
+        Extra inclipping to avoid clipping artifacts
+
+    Returns
+    -------
+    np.ndarray
+        tomopy images stacks without regions outside slits
+    """
+    xl, xu, yl, yu = calc_slit_box_aps_1id(slit_box_corners, inclip=inclip)
+    return imgstacks[:, yl:yu, xl:xu]
+
+
+def detector_drift_adjust_aps_1id(imgstacks,
+                                  slit_cnr_ref,
+                                  medfilt2_kernel_size=3,
+                                  medfilt_kernel_size=3,
+                                  ncore=None,
+                                  ):
+    """
+    Adjust each still image based on the slit corners and generate report fig
+
+    Parameters
+    ----------
+    imgstacks : np.ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    slit_cnr_ref : np.ndarray
+        reference slit corners from white field images
+    medfilt2_kernel_size : int, optional
+        2D median filter kernel size for slit conner detection
+    medfilt_kernel_size  : int, optional
+        1D median filter kernel size for slit conner detection
+    ncore : int, optional
+        number of cores used for speed up
+
+    Returns
+    -------
+    np.ndarray
+        adjusted imgstacks
+    np.ndarray
+        detected corners on each still image
+    np.ndarray
+        transformation matrices used to adjust each image
+    """
+    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+
+    def quick_diff(x): return np.amax(np.absolute(x))
+
+    # -- find all projection corners (slow)
+    # NOTE:
+    #  Here we are using an iterative approach to find stable slit corners
+    #  from each image
+    #  1. calculate all slit corners with the given kernel size, preferably
+    #     a small one for speed.
+    #  2. double the kernel size and calculate again, but this time we are
+    #     checking whether the slit corners are stable.
+    #  3. find the ids (n_imgs) for those that are difficult, continue
+    #     increasing the kernel size until all slit corners are found, or max
+    #     number of iterations.
+    #  4. move on to next step.
+    nlist = range(imgstacks.shape[0])
+    proj_cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
+                                'quadrant+',
+                                medfilt2_kernel_size,
+                                medfilt_kernel_size,
+                                )
+    cnrs_found = np.array([quick_diff(proj_cnrs[n, :, :] - slit_cnr_ref) < 15
+                           for n in nlist])
+    kernels = [(medfilt2_kernel_size+2*i, medfilt_kernel_size+2*j)
+               for i in range(15)
+               for j in range(15)]
+    counter = 0
+
+    while not cnrs_found.all():
+        nlist = [idx for idx, cnr_found in enumerate(cnrs_found)
+                 if not cnr_found]
+        # NOTE:
+        #   Check to see if we run out of candidate kernels:
+        if counter >= len(kernels):
+            # we are giving up here...
+            for idx, n_img in enumerate(nlist):
+                proj_cnrs[n_img, :, :] = slit_cnr_ref
+            break
+        else:
+            # test with differnt 2D and 1D kernels
+            ks2d, ks1d = kernels[counter]
+
+        _cnrs = _calc_proj_cnrs(imgstacks, ncore, nlist,
+                                'quadrant+', ks2d, ks1d)
+        for idx, _cnr in enumerate(_cnrs):
+            n_img = nlist[idx]
+            cnr = proj_cnrs[n_img, :, :]  # previous results
+            # NOTE:
+            #  The detector corner should not be far away from reference
+            #  -> adiff < 15
+            #  The detected corner should be stable
+            #  -> rdiff < 0.1 (pixel)s
+            adiff = quick_diff(_cnr - slit_cnr_ref)
+            rdiff = quick_diff(_cnr - cnr)
+            if rdiff < 0.1 and adiff < 15:
+                cnrs_found[n_img] = True
+            else:
+                # update results
+                proj_cnrs[n_img, :, :] = _cnr  # update results for next iter
+
+        # next
+        counter += 1
+
+    # -- calculate affine transformation (fast)
+    img_correct_F = np.ones((imgstacks.shape[0], 3, 3))
+    for n_img in range(imgstacks.shape[0]):
+        img_correct_F[n_img, :, :] = calc_affine_transform(
+            proj_cnrs[n_img, :, :], slit_cnr_ref)
+
+    # -- apply affine transformation (slow)
+    tmp = []
+    with cf.ProcessPoolExecutor(ncore) as e:
+        for n_img in range(imgstacks.shape[0]):
+            tmp.append(e.submit(affine_transform,
+                                # input image
+                                imgstacks[n_img, :, :],
+                                # rotation matrix
+                                img_correct_F[n_img, 0:2, 0:2],
+                                # offset vector
+                                offset=img_correct_F[n_img, 0:2,  2],
+                                )
+                       )
+    imgstacks = np.stack([me.result() for me in tmp], axis=0)
+
+    return imgstacks, proj_cnrs, img_correct_F
+
+
+def _calc_proj_cnrs(imgs,
+                    ncore,
+                    nlist,
+                    method,
+                    medfilt2_kernel_size,
+                    medfilt_kernel_size,
+                    ):
+    """
+    Private function calculate slit corners concurrently
+
+    Parameters
+    ----------
+    imgs : ndarray
+        tomopy images stacks (axis_0 is the oemga direction)
+    ncore : int
+        number of cores to use
+    nlist : list of int
+        index of images to be processed
+    method : str
+        slit corner detection method name
+    medfilt2_kernel_size : int
+        2D median filter kernel size, must be odd
+    medfilt_kernel_size : int
+        1D median filter kernel size, must be odd
+
+    Returns
+    -------
+    np.3darray
+        detected corners on each still image
+    """
+    tmp = []
+    with cf.ProcessPoolExecutor(ncore) as e:
+        for n_img in nlist:
+            tmp.append(e.submit(find_slits_corners_aps_1id,
+                                imgs[n_img, :, :],
+                                method=method,
+                                medfilt2_kernel_size=medfilt2_kernel_size,
+                                medfilt_kernel_size=medfilt_kernel_size,
+                                )
+                       )
+    return np.stack([me.result() for me in tmp], axis=0)
+
+
+def distortion_correction_proj(tomo, xcenter, ycenter, list_fact,
+                                ncore=None, nchunk=None):
+    """
+    Apply distortion correction to projections using the polynomial model.
+    Coefficients are calculated using Vounwarp package :cite:`Vo:15`.
+
+    .. versionadded:: 1.7
+
+    Parameters
+    ----------
+    tomo : ndarray
+        3D tomographic data.
+    xcenter : float
+        Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+        Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+        Polynomial coefficients of the backward model.
+    ncore : int, optional
+        Number of cores that will be assigned to jobs.
+    nchunk : int, optional
+        Chunk size for each core.
+
+    Returns
+    -------
+    ndarray
+        Corrected 3D tomographic data.
+    """
+    arr = mproc.distribute_jobs(
+        tomo,
+        func=_distortion_correction_proj,
+        args=(xcenter, ycenter, list_fact),
+        axis=0,
+        ncore=ncore,
+        nchunk=nchunk)
+    return arr
+
+
+def _unwarp_image_backward(mat, xcenter, ycenter, list_fact):
+    """
+    Unwarp an image using the polynomial model.
+
+    Parameters
+    ----------
+    mat : 2D array.
+    xcenter : float
+            Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+            Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+            Polynomial coefficients of the backward model.
+
+    Returns
+    -------
+    2D array
+        Corrected image.
+    """
+    (height, width) = mat.shape
+    xu_list = np.arange(width) - xcenter
+    yu_list = np.arange(height) - ycenter
+    xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
+    ru_mat = np.sqrt(xu_mat**2 + yu_mat**2)
+    fact_mat = np.sum(
+        np.asarray([factor * ru_mat**i for i,
+                    factor in enumerate(list_fact)]), axis=0)
+    xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    indices = np.reshape(yd_mat, (-1, 1)), np.reshape(xd_mat, (-1, 1))
+    mat = map_coordinates(mat, indices, order=1, mode='reflect')
+    return mat.reshape((height, width))
+
+
+def _distortion_correction_proj(tomo, xcenter, ycenter, list_fact):
+    for m in np.arange(tomo.shape[0]):
+        proj = tomo[m, :, :]
+        proj = _unwarp_image_backward(proj, xcenter, ycenter, list_fact)
+        tomo[m, :, :] = proj
+
+
+def distortion_correction_sino(tomo, ind, xcenter, ycenter, list_fact):
+    """
+    Generate an unwarped sinogram of a 3D tomographic data using
+    the polynomial model. Coefficients are calculated using Vounwarp
+    package :cite:`Vo:15`.
+
+    .. versionadded:: 1.7
+
+    Parameters
+    ----------
+    tomo : ndarray
+        3D tomographic data.
+    ind : int
+        Index of the unwarped sinogram.
+    xcenter : float
+        Center of distortion in x-direction. From the left of the image.
+    ycenter : float
+        Center of distortion in y-direction. From the top of the image.
+    list_fact : list of floats
+        Polynomial coefficients of the backward model.
+
+    Returns
+    -------
+    2D array
+        Corrected sinogram.
+    """
+    (depth, height, width) = tomo.shape
+    xu_list = np.arange(0, width) - xcenter
+    yu = ind - ycenter
+    ru_list = np.sqrt(xu_list**2 + yu**2)
+    flist = np.sum(
+        np.asarray([factor * ru_list**i for i,
+                    factor in enumerate(list_fact)]), axis=0)
+    xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
+    yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
+    yd_min = np.int16(np.floor(np.amin(yd_list)))
+    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_list = yd_list - yd_min
+    sino = np.zeros((depth, width), dtype=np.float32)
+    indices = yd_list, xd_list
+    for i in np.arange(depth):
+        sino[i] = map_coordinates(
+            tomo[i, yd_min:yd_max, :], indices, order=1, mode='reflect')
+    return sino
+
+
+def load_distortion_coefs(file_path):
+        """
+        Load distortion coefficients from a text file.
+        Order of the infor in the text file:
+        xcenter
+        ycenter
+        factor_0
+        factor_1
+        factor_2
+        ..
+
+        Parameters
+        ----------
+        file_path: Path to the file.
+
+        Returns
+        -------
+        Tuple of (xcenter, ycenter, list_fact).
+        """
+        with open(file_path, 'r') as f:
+            x = f.read().splitlines()
+            list_data = []
+            for i in x:
+                list_data.append(float(i.split()[-1]))
+        xcenter = list_data[0]
+        ycenter = list_data[1]
+        list_fact = list_data[2:]
+        return xcenter, ycenter, list_fact
-- 
2.43.0

