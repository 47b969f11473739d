From 575b440993603cf05b438018e4f30338c582038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 001/101] fix: NURBSCurve.set_degree drops cached points and
 refreshes the Greville abscissae

---
 mmcore/geom/nurbs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 41829f1..1acc78c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1206,6 +1206,8 @@ cdef class NURBSCurve(ParametricCurve):
         return obj
     cpdef void set_degree(self, int val):
         self._degree=val
+        self.knots_update_hook()
+        self._evaluate_cached.cache_clear()
 
 
     cpdef int get_degree(self):
-- 
2.43.0


From 46f0a857e3202222c37671c6f0dd9cfcef7128a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 002/101] fix: NURBSCurve.set refreshes the interval and the
 Greville abscissae

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 1acc78c..5d5cd2b 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1501,6 +1501,7 @@ cdef class NURBSCurve(ParametricCurve):
     cpdef set(self, double[:,:] control_points, double[:] knots ):
         self._control_points=control_points
         self._knots=knots
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From 232b0394c18acd3d80ad5af796a20a63b620bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 003/101] fix: knot insertion and trimming refresh the Greville
 abscissae of the curve

---
 mmcore/geom/nurbs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 5d5cd2b..3bfd729 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1746,7 +1746,7 @@ cdef class NURBSCurve(ParametricCurve):
         # Update curve
 
         self._knots=k_v
-        self._update_interval()
+        self.knots_update_hook()
 
         self._evaluate_cached.cache_clear()
 
@@ -2030,6 +2030,7 @@ cdef class NURBSCurve(ParametricCurve):
         curve._knots = new_knots
         curve._interval[0] = new_knots[0]
         curve._interval[1] = new_knots[new_knots.shape[0]-1]
+        curve.knots_update_hook()
 
         return curve
 
-- 
2.43.0


From 7d1065b26b4675bfe943122133bd50f11607e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 004/101] fix: NURBSCurve.__setstate__ refreshes the Greville
 abscissae

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 3bfd729..78f9111 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1262,6 +1262,7 @@ cdef class NURBSCurve(ParametricCurve):
         self._periodic = state['_periodic']
         self.weights = state['_control_points'][:,3]
         self._interval = state['_interval']
+        self.knots_update_hook()
 
 
     @property
-- 
2.43.0


From 29c36ae96ab475c60f554211d6f1775ffdab6424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 005/101] fix: NURBSSurface.degree setter refreshes the
 interval of the regenerated knots

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 78f9111..eb9b8cf 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2393,6 +2393,7 @@ cdef class NURBSSurface(ParametricSurface):
         self._degree[1]=val[1]
         self.generate_knots_u()
         self.generate_knots_v()
+        self._update_interval()
 
 
     @cython.boundscheck(False)
-- 
2.43.0


From 429ddc7a67392c171064b654c5e09ba5a40ea233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 006/101] fix: NURBSCurve.evaluate returns a fresh array
 instead of the cached one

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index eb9b8cf..fb6513a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1545,7 +1545,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From 6546e2afd3e47c786beb82ca99bcfcbe6abe8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 007/101] fix: NURBSCurve.copy no longer evaluates the curve it
 was copied from

---
 mmcore/geom/nurbs.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index fb6513a..eb3bb60 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1796,7 +1796,6 @@ cdef class NURBSCurve(ParametricCurve):
     def copy(self):
         cdef NURBSCurve crv = self.ccopy()
 
-        crv._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
         return crv
 
     @cython.boundscheck(False)
-- 
2.43.0


From 1ab7cac6511ca7f1e62e7a6c44b4afea93556135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 008/101] fix: split_curve_multiple without parameters returns
 a copy, not the input curve

---
 mmcore/geom/nurbs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index eb3bb60..535108c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2239,9 +2239,10 @@ cpdef tuple split_curve2(NURBSCurve obj, double param, double tol=1e-12):
 @cython.cdivision(True)
 cpdef list split_curve_multiple(NURBSCurve crv, double[:] params):
     cdef list crvs = []
-    cdef NURBSCurve temp=crv
     cdef int i
     cdef tuple tpl
+    if params.shape[0] == 0:
+        return [crv.ccopy()]
     for i in range(params.shape[0]):
         tpl = split_curve2(crv, params[i] )
         crv=tpl[1]
-- 
2.43.0


From 594c714df3f0939e88b93b02d89f359c787d72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 009/101] fix: NURBSCurve keeps its own copy of the arrays it
 is given

---
 mmcore/geom/nurbs.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 535108c..f59404a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1134,7 +1134,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
             self.generate_knots()
         else:
-            self._knots = knots
+            self._knots = knots.copy()
             self.knots_update_hook()
 
         if periodic:
@@ -1164,7 +1164,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
 
         if  periodic:
@@ -1307,7 +1307,7 @@ cdef class NURBSCurve(ParametricCurve):
     @knots.setter
     def knots(self, double[:] v):
 
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
@@ -1500,8 +1500,8 @@ cdef class NURBSCurve(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
+        self._control_points=control_points.copy()
+        self._knots=knots.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 909268e75850e5076bceb425c8996ec2e4969acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 010/101] fix: NURBSSurface keeps its own copy of the knot
 vectors it is given

---
 mmcore/geom/nurbs.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f59404a..d57e968 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2286,11 +2286,11 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
         return self
     def __init__(self, double[:,:,:] control_points, tuple degree, double[:] knots_u=None, double[:] knots_v=None ):
@@ -2322,18 +2322,18 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
     @property
     def knots_u(self):
         return np.array(self._knots_u)
     @knots_u.setter
     def knots_u(self,val):
-        self._knots_u=val
+        self._knots_u=np.array(val,dtype=float)
         self._update_interval()
 
     @property
@@ -2381,7 +2381,7 @@ cdef class NURBSSurface(ParametricSurface):
 
     @knots_v.setter
     def knots_v(self,val):
-        self._knots_v=val
+        self._knots_v=np.array(val,dtype=float)
         self._update_interval()
     @property
     def degree(self):
-- 
2.43.0


From 310f4ef4285583b765b01c5b827b5eabd185c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 011/101] fix: building a BVH leaves the order of the given
 object list alone

---
 mmcore/geom/bvh/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ba4fcb0..ef92fe9 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -366,7 +366,8 @@ def split_objects(objects):
     axis = np.argmax(max_centroid - min_centroid)
 
     # Sort objects along chosen axis by centroids
-    objects.sort(
+    objects = sorted(
+        objects,
         key=lambda obj: (
             obj.bounding_box.min_point[axis] + obj.bounding_box.max_point[axis]
         )
-- 
2.43.0


From 6321d2b6322fb611807cef9f1a052c8a5c1b6787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 012/101] fix: solve3x2 works on copies of the columns it is
 given

---
 mmcore/numeric/numeric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 25ac739..f548207 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -416,6 +416,7 @@ def solve3x2(col0, col1, d0, d1, d2):
     x, y = 0.0, 0.0
     pivot_ratio = 0.0
     err = float('inf')
+    col0, col1 = list(col0), list(col1)
 
     i = np.argmax([abs(val) for val in col0 + col1])
     if i >= 3:
-- 
2.43.0


From cb53cbf3977907cc7cbb0a50fa50ddf66cad0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 013/101] fix: nd_min and nd_max leave their arguments
 unchanged

---
 mmcore/numeric/routines/__init__.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 64a6009..440bb7f 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -17,14 +17,11 @@ def point_grid_2d(count_u, count_v, bounds_u=(0., 1.), bounds_v=(0., 1.)):
 def nd_min(a, b):
     a_cond, b_cond = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
     if a_cond and b_cond:
-        a[a > b] = b[a > b]
-        return a
+        return np.where(a > b, b, a)
     elif a_cond:
-        a[a > b] = b
-        return a
+        return np.where(a > b, b, a)
     elif b_cond:
-        b[b > a] = a
-        return b
+        return np.where(b > a, a, b)
     else:
         return min(a, b)
 
@@ -32,14 +29,11 @@ def nd_min(a, b):
 def nd_max(a, b):
     a_cond, b_cond = isinstance(a, np.ndarray), isinstance(b, np.ndarray)
     if a_cond and b_cond:
-        a[a < b] = b[a < b]
-        return a
+        return np.where(a < b, b, a)
     elif a_cond:
-        a[a < b] = b
-        return a
+        return np.where(a < b, b, a)
     elif b_cond:
-        b[b < a] = a
-        return b
+        return np.where(b < a, a, b)
     else:
         return max(a, b)
 
-- 
2.43.0


From 2bfee2a252cbcb7c0ca61063d5bea1b706d2c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 014/101] fix: orthonormalize leaves its arguments unchanged

---
 mmcore/geom/vec/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index d911247..e70ae37 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -301,7 +301,7 @@ Out:
  array([-0.00107956, -0.21301218, -0.97704895]))
     """
     u = u / np.linalg.norm(u)  # Ensure u is a unit vector
-    v -= u * np.dot(u, v)  # Make v orthogonal to u
+    v = v - u * np.dot(u, v)  # Make v orthogonal to u
 
     # Re-normalize v in case it's very close to zero
     if (np.linalg.norm(v) > 1e-10):
@@ -310,7 +310,7 @@ Out:
         raise ValueError('Vectors u and v are parallel')
 
     # w vector
-    w -= u * np.dot(u, w)
+    w = w - u * np.dot(u, w)
     w -= v * np.dot(v, w)
 
     # Re-normalize w
-- 
2.43.0


From e95107f95d141b0e6560154b774c848e318ee86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 015/101] fix: numeric gradient perturbs a copy of the point,
 not the point itself

---
 mmcore/numeric/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index ed20d19..774b4b3 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -472,7 +472,7 @@ def gradient(f, point, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    point = np.asarray(point)
+    point = np.array(point, dtype=float)
     grad = np.zeros_like(point)
     for i in range(point.size):
 
-- 
2.43.0


From 17cc1f70561e3eb1a92a2356d0f6e523d29e8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 016/101] fix: BoundingBox.split and expand refresh the center,
 dims and array of the box

---
 mmcore/geom/bvh/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ef92fe9..f671d59 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -25,6 +25,9 @@ class BoundingBox:
     def __init__(self, min_point, max_point):
         self.min_point = np.array(min_point, dtype=float)  # (x_min, y_min, z_min)
         self.max_point = np.array(max_point, dtype=float)  # (x_max, y_max, z_max)
+        self._update()
+
+    def _update(self):
         self.center = (self.min_point + self.max_point) * 0.5
         self.dims = self.max_point - self.min_point
         self._arr=np.array([self.min_point, self.max_point], dtype=float)
@@ -32,7 +35,9 @@ class BoundingBox:
     def split(self, axis=0, parameter=0.5):
         left = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
         right = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right.min_point[axis] = left.max_point[axis] = (self.min_point[axis] + self.max_point[axis])*parameter
+        right.min_point[axis] = left.max_point[axis] = self.min_point[axis] + (self.max_point[axis] - self.min_point[axis])*parameter
+        left._update()
+        right._update()
         return left, right
 
     def get_corners(self):
@@ -117,6 +122,7 @@ class BoundingBox:
         )
         self.min_point[:]=new_min
         self.max_point[:]=new_max
+        self._update()
 
     def contains_point(self, point):
         return bool(np.all(self.min_point<=point)and np.all(point<=self.max_point))
-- 
2.43.0


From e91af4462c9095c18e2847723a264811f6f2dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 017/101] fix: BoundingBox.evaluate interpolates between the
 corners of the box

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index f671d59..2a4eb69 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -63,7 +63,7 @@ class BoundingBox:
         return list(reduce(lambda x,y: x+y, (item.split(axis1, parameter1) for item in self.split4(axis2, axis3, parameter2, parameter3))))
 
     def evaluate(self, uvh):
-        return (self.min_point + self.max_point)*uvh
+        return self.min_point + (self.max_point - self.min_point)*uvh
 
     def centroid(self):
         return (self.min_point + self.max_point)*0.5
-- 
2.43.0


From e8a086803fd780e0a7de4b030639e680fb97c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 018/101] fix: NURBSSurface.geometry_hash, __hash__ and __eq__
 read the control points the surface has

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d57e968..173e9f2 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2571,7 +2571,7 @@ cdef class NURBSSurface(ParametricSurface):
     def geometry_hash(self, check_interval=False):
         cdef bytes ku = np.ascontiguousarray(self._knots_u).tobytes()
         cdef bytes kv = np.ascontiguousarray(self._knots_v).tobytes()
-        cdef bytes pts = np.ascontiguousarray(self._control_points).tobytes()
+        cdef bytes pts = np.ascontiguousarray(self.control_points_view).tobytes()
         cdef double u0 = self._interval[0][0]
         cdef double u1 = self._interval[0][1]
         cdef double v0 = self._interval[1][0]
@@ -2580,7 +2580,7 @@ cdef class NURBSSurface(ParametricSurface):
         if check_interval:
             itms = (self._degree[0], self._degree[1],ku,kv, pts, u0,u1,v0,v1)
         else:
-            itms = (self._degree[0], self._degree[1],self._degree, ku,kv, pts)
+            itms = (self._degree[0], self._degree[1], ku,kv, pts)
         return hash(itms)
     def __hash__(self):
         return self.geometry_hash(check_interval=True)
-- 
2.43.0


From fac20b83578a696a867252cf9ecf30967432b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 019/101] fix: fundamental_forms imports with current scipy
 (simps is gone and was unused)

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index a7b4e15..5cd1d2e 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -168,7 +168,7 @@ def classify_point(K,H):
     else:
         raise ValueError('Classification fail: K={K},H={H}')
 
-from scipy.integrate import odeint, ode, solve_ivp, simps, simpson
+from scipy.integrate import odeint, ode, solve_ivp, simpson
 
 
 def line_of_curvature(surface, u0, v0, principal_index, t_range):
-- 
2.43.0


From 50637bd82b44a37903983eaa277dba5c2a526774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 020/101] fix: vec.dot calls scalar_dot through the vectors
 module

---
 mmcore/geom/vec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index e70ae37..470ecd6 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -160,7 +160,7 @@ def dot(a, b):
     :return: The dot product of `a` and `b`.
     :rtype: numpy.ndarray[Any, numpy.dtype[float]]
     """
-    return scalar_dot(a, b)
+    return vectors.scalar_dot(a, b)
 
 def perp2d(v):
     """
-- 
2.43.0


From e26c26d0eca3a5cb56af2358945180f77c31c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 021/101] fix: bvh_ray_intersection passes the output buffer
 segment_aabb_clip needs

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 2a4eb69..8420759 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -851,7 +851,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr)
+    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2, 3)))
     if segm is None:
         return []
     else:
-- 
2.43.0


From 043ff8705c5bd7ae1c07a3216dfc31a5df4b9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 022/101] fix: pull_curve passes the result buffer improve_uv
 writes to

---
 mmcore/numeric/algorithms/pull_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/pull_curve.py b/mmcore/numeric/algorithms/pull_curve.py
index 9caadd9..b153932 100644
--- a/mmcore/numeric/algorithms/pull_curve.py
+++ b/mmcore/numeric/algorithms/pull_curve.py
@@ -39,7 +39,8 @@ class Sphere(Surface):
         K = orthogonal_projective_tensor(uv)
         dS_du, dS_dv = surf.derivatives(uv)
         dp_dt = curve_derivative(t, uv)
-        uvd=improve_uv(  dS_du,  dS_dv, surf.evaluate(uv),surf.evaluate(uv)+ dp_dt )
+        uvd=np.zeros(2)
+        improve_uv(  dS_du,  dS_dv, surf.evaluate(uv),surf.evaluate(uv)+ dp_dt, uvd )
         #du_dt = np.linalg.solve(K, dp_dt[:2])
         return uvd
 
-- 
2.43.0


From 42a524ef5e5bffa9091b9495b4865b8d116393c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 023/101] fix: bspline_first.NURBSCurve.derivatives uses the
 result curve_derivs_alg2 returns

---
 mmcore/geom/curves/bspline_first.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_first.py b/mmcore/geom/curves/bspline_first.py
index 93ebc82..9f03e4c 100644
--- a/mmcore/geom/curves/bspline_first.py
+++ b/mmcore/geom/curves/bspline_first.py
@@ -350,8 +350,7 @@ Index 1 is the first derivative,
 under index 2 is the second derivative, and so on.
         """
         du=min(d, self.degree)
-        CK = np.zeros((du + 1, self.control_points.shape[1]), dtype=np.float64)
-        curve_derivs_alg2(self.n, self.degree, self.knots, self._control_points, t, d,  CK)
+        CK = curve_derivs_alg2(self.n, self.degree, self.knots, self._control_points, t, d)
 
         return np.array(CK)
 
-- 
2.43.0


From ab1afb8d3c29dfd70b7b03209340bf839d9e569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 024/101] fix: ColorRGBA.todict no longer reads an attribute
 that does not exist

---
 mmcore/geom/materials/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/geom/materials/__init__.py b/mmcore/geom/materials/__init__.py
index 278f992..00f7c3b 100644
--- a/mmcore/geom/materials/__init__.py
+++ b/mmcore/geom/materials/__init__.py
@@ -116,7 +116,6 @@ class ColorRGBA(ColorRGB):
         return obj
 
     def todict(self):
-        self.s
         return {"r": self.r, "g": self.g, "b": self.b, "a": 255}
 def rgb_to_three_decimal(color: typing.Union[ColorRGB, ColorRGBA]) -> int:
     return int("%02x%02x%02x" % (color.r, color.g, color.b), 16)
-- 
2.43.0


From 426e0dcf662b4f122b003a4a262fbfb208a29337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 025/101] fix: plane_ray_intersection accepts the (origin,
 normal) plane it documents

---
 mmcore/numeric/plane/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 07ac6ee..481a6ac 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -205,6 +205,8 @@ def plane_ray_intersection(plane, ray):
         pln=np.zeros((2,3))
         pln[0,:]=plane[0,:]
         pln[1,:] = plane[3,:]
+    else:
+        pln=plane
 
     return ray_plane_intersection(pln,ray)
 
-- 
2.43.0


From 15b10c0fc3dd853144ee8fbf9a3841739918c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 026/101] fix: newtons_method_with_constraints reports a
 singular first Hessian instead of failing on unbound names

---
 mmcore/numeric/newton/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/newton/__init__.py b/mmcore/numeric/newton/__init__.py
index 4ac5c56..71b5e8d 100644
--- a/mmcore/numeric/newton/__init__.py
+++ b/mmcore/numeric/newton/__init__.py
@@ -37,6 +37,8 @@ def newtons_method_with_constraints(f, constraint, initial_point, tol=0.00001, m
     else:
         hess = hess
 
+    new_point = point
+    grad_F = H_F = H_inv_f = None
     for _ in range(max_iter):
         grad_f = _grad(point)
         grad_g = gradient(constraint, point)
-- 
2.43.0


From 078783f7fa834c51fbd33d88e10eb3c2752577dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 027/101] fix: multi newton returns H_inv=None when the first
 Hessian is singular

---
 mmcore/numeric/fdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index 774b4b3..0a98afb 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -715,6 +715,7 @@ def multi_newtons_method(f, initial_point, tol=1e-6, max_iter=100, no_warn=False
 
     else:
         hess = hess
+    H_inv = None
     grad = None
     for _ in range(max_iter):
         grad = _grad(point)
-- 
2.43.0


From 450d21a97aa5d4af55c02f720d3553c0074de7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 028/101] fix: Terminator.remove lets a failing query raise its
 own error

---
 mmcore/numeric/intersection/ssx/_terminator.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/_terminator.py b/mmcore/numeric/intersection/ssx/_terminator.py
index 8fd85ed..be576e4 100644
--- a/mmcore/numeric/intersection/ssx/_terminator.py
+++ b/mmcore/numeric/intersection/ssx/_terminator.py
@@ -87,13 +87,7 @@ class Terminator:
         elif  self._kd is None and self._size==0:
             return
         else:
-            try:
-
-
-
-                d,i = self._kd.query(xyz, k=1)
-            except Exception as err:
-                print(xyz,self.xyz)
+            d,i = self._kd.query(xyz, k=1)
             if d==0:
 
 
-- 
2.43.0


From 16cc30acab0905259b63febf9e607d03e26e8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 029/101] fix: Terminator.__delitem__ removes the rows it is
 asked to remove

---
 mmcore/numeric/intersection/ssx/_terminator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/_terminator.py b/mmcore/numeric/intersection/ssx/_terminator.py
index be576e4..18cfbde 100644
--- a/mmcore/numeric/intersection/ssx/_terminator.py
+++ b/mmcore/numeric/intersection/ssx/_terminator.py
@@ -63,9 +63,9 @@ class Terminator:
     def __bool__(self):
         return self._size > 0
     def __delitem__(self, key):
-        np.delete(self.xyz,key)
-        np.delete(self.uv1,key)
-        np.delete(self.uv2,key)
+        self.xyz = np.delete(self.xyz, key, axis=0)
+        self.uv1 = np.delete(self.uv1, key, axis=0)
+        self.uv2 = np.delete(self.uv2, key, axis=0)
         self._size -= 1
         if self._size>1:
             self._kd = KDTree(self.xyz)
-- 
2.43.0


From 5e65d326b3bd5816cbb1a7e616a645e26ec2e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 030/101] fix: NURBSSurface.realloc_control_points rebinds the
 views the surface has

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 173e9f2..f37982e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2522,8 +2522,8 @@ cdef class NURBSSurface(ParametricSurface):
 
         self._control_points_arr= <double*> realloc(self._control_points_arr, new_size_u*new_size_v*4*sizeof(double))
         with gil:
-            self._control_points_view=<double[:new_size_u,:new_size_v,:4]>self._control_points_arr
-            self._control_points_flat_view = <double[:(new_size_u*new_size_v), :4]>self._control_points_arr
+            self.control_points_view=<double[:new_size_u,:new_size_v,:4]>self._control_points_arr
+            self.control_points_flat_view = <double[:(new_size_u*new_size_v), :4]>self._control_points_arr
         self._size[0]=new_size_u
         self._size[1] = new_size_v
 
-- 
2.43.0


From a9ddfbb5efd289cbfa3acbe18fccf0b576b79436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 031/101] fix: ccx of two implicit curves returns the
 intersections instead of raising the result

---
 mmcore/numeric/intersection/ccx/ccx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 6b1448c..99427cc 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -111,7 +111,7 @@ def ccx(curve1, curve2, tol: float = 0.01):
     elif hasattr(curve2, "evaluate") and hasattr(curve1, "evaluate"):
         return curve_ppx(curve1, curve2, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "implicit"):
-        raise curve_iix(
+        return curve_iix(
             curve1, curve2)
     else:
         raise ValueError(
-- 
2.43.0


From 3bab3695dc7557355d98b823f37c699786dd9cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 032/101] fix: BRep.add_shell/add_solid with check raise
 NotImplementedError, not TypeError

---
 mmcore/topo/brep/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index b31e668..ea5b00a 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -274,7 +274,7 @@ class BRep:
 
     def add_shell(self, faces:list[Face],check=True):
         if check:
-            raise NotImplemented
+            raise NotImplementedError
         return self.add_shell_unsafe(faces)
 
     def add_shell_unsafe(self, faces:list[Face]):
@@ -283,7 +283,7 @@ class BRep:
         return v
     def add_solid(self, shells:list[Shell],check=True):
         if check:
-            raise NotImplemented
+            raise NotImplementedError
         return self.add_solid_unsafe(shells)
 
     def add_solid_unsafe(self, shells:list[Shell]):
-- 
2.43.0


From 2e801b910e738ee67524b8b5acf970602c057a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 033/101] fix: gauss_map.is_bezier counts the distinct knots of
 both directions

---
 mmcore/numeric/gauss_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 508385a..9f41141 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -110,7 +110,7 @@ def cross_product(a, b):
 
 
 def is_bezier(surface: NURBSSurface):
-    kv, ku = unique(surface.knots_u).shape[0], unique(surface.knots_u).shape[0]
+    ku, kv = unique(surface.knots_u), unique(surface.knots_v)
     if kv.shape[0] < 2 or ku.shape[0] < 2:
         raise ValueError("Degenerated patch")
 
-- 
2.43.0


From 6b31348d464e28a902c5d345a8054e9512f42e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 034/101] fix: CDLL.insert at index 0 puts the element before
 the head

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index b0fd298..8682ea9 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -148,7 +148,7 @@ class CDLL:
             node.next = node
             node.previous = node
         else:
-            temp = self.head
+            temp = self.head.previous if index == 0 else self.head
             for _ in range(index - 1):
                 temp = temp.next
             temp.next.previous = node
-- 
2.43.0


From 97e296250b393b7379145ca5aa624caac1071d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 035/101] fix: CDLL.remove leaves the list alone when the data
 is absent and empties it when the last element goes

---
 mmcore/ds/cdll/cdll.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 8682ea9..5bbfb72 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -195,13 +195,15 @@ class CDLL:
             if (temp.data == data):
 
                 if temp is self.head:
-                    self.head = self.head.next
+                    self.head = self.head.next if self.count > 1 else None
                 temp.previous.next, temp.next.previous = temp.next, temp.previous
 
                 self.count -= 1
                 break
 
             temp = temp.next
+        else:
+            return
         self.remove_hook(temp)
         del temp.next
         del temp.previous
-- 
2.43.0


From 6f55c1e375e7774de407c996179a29be8c861a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 036/101] fix: CDLL.get refuses a negative index before the
 first element

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 5bbfb72..fd1639f 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -221,7 +221,7 @@ class CDLL:
         if index < 0:
             index = self.count + index
 
-        elif (index >= self.count):
+        if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         temp = self.head
         for _ in range(index):
-- 
2.43.0


From d5e4c0a5020234426f2e911ddd8cf69ff9dd779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 037/101] fix: CDLL.replace_node links the new node in both
 directions

---
 mmcore/ds/cdll/cdll.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index fd1639f..5312cbf 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -248,7 +248,8 @@ class CDLL:
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         if self.count == 1:
             self.head =  node
-
+            node.next = node
+            node.previous = node
             return
         target = self.head
         for _ in range(index):
@@ -256,17 +257,12 @@ class CDLL:
 
 
         if target is self.head:
-            node.next = self.head.next
-            node.prev = self.head.previous
-            self.head.previous.next=node
-            self.head.next.previous=node
             self.head = node
         node.next = target.next
-        node.prev = target.previous
+        node.previous = target.previous
 
         target.previous.next = node
         target.next.previous = node
-        target.previous.next=node
 
 
 
-- 
2.43.0


From 3630a41d33ec5bb0a7440b9e2dbfa12deb961886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 038/101] fix: iterating an empty CDLL yields nothing

---
 mmcore/ds/cdll/cdll.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 5312cbf..a66bc5d 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -116,8 +116,6 @@ class CDLL:
             while (temp != self.head):
                 yield temp.data
                 temp = temp.next
-        else:
-            yield
 
     def __len__(self):
         return self.count
-- 
2.43.0


From 612c0fa77c2337c91c29cd986c1df480ea746efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:56 +0000
Subject: [PATCH 039/101] fix: CDLL.append_node closes the ring when the list
 was empty

---
 mmcore/ds/cdll/cdll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index a66bc5d..f826290 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -126,6 +126,8 @@ class CDLL:
     def append_node(self, node):
         if self.head is None:
             self.head = node
+            node.next = node
+            node.previous = node
             self.count = 1
         else:
             node.previous = self.head.previous
-- 
2.43.0


From d4a6790f94bc671fa55c1de4b620242fd9310e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 040/101] fix: TrimmedCurve.start reads the trim instead of
 recursing

---
 mmcore/geom/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 427e819..2c80bea 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -381,7 +381,7 @@ class TrimmedCurve(Curve):
 
     @property
     def start(self):
-        return self.start[0]
+        return self.trim[0]
 
     @start.setter
     def start(self, v):
-- 
2.43.0


From 6cb74430765ae58695e4bbe0cb80161996dd76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 041/101] fix: ReparametrizedCurve.circle_of_curvature asks the
 wrapped curve instead of recursing

---
 mmcore/geom/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 2c80bea..e128d31 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -571,7 +571,7 @@ class ReparametrizedCurve(Curve):
     def planes_at(self, t):
         return self.curve.planes_at(self.parametrization(t))
     def circle_of_curvature(self, t):
-        return self.circle_of_curvature(self.parametrization(t))
+        return self.curve.circle_of_curvature(self.parametrization(t))
 
 class ArcLengthParameterization(ReparametrizedCurve):
     def __init__(self, curve:Curve):
-- 
2.43.0


From 4368c7b7c31e85a6c14bd28268cb92b301272caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:25 +0000
Subject: [PATCH 042/101] fix: OffsetCurve.offset returns the stored offset
 instead of recursing

---
 mmcore/geom/curves/offset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 31ac20c..5b20a31 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -40,7 +40,7 @@ class OffsetCurve(Curve):
 
     @property
     def offset(self):
-        return self.offset
+        return self._offset
 
     @offset.setter
     def offset(self, v):
-- 
2.43.0


From d17861f1572b9246167213cc5ce3cea4214c83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 043/101] fix: Circle's default origin is no longer one array
 shared by all circles

---
 mmcore/geom/curves/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/__init__.py b/mmcore/geom/curves/__init__.py
index 2ccaaac..dfda532 100644
--- a/mmcore/geom/curves/__init__.py
+++ b/mmcore/geom/curves/__init__.py
@@ -26,10 +26,10 @@ from mmcore.geom.curves.knot import (
 
 
 class Circle(Curve):
-    def __init__(self, radius, origin=np.array([0.0, 0.0, 0.0])):
+    def __init__(self, radius, origin=None):
         super().__init__()
         self.r = radius
-        self.origin = origin
+        self.origin = np.array([0.0, 0.0, 0.0]) if origin is None else origin
 
     @property
     def a(self):
-- 
2.43.0


From 1cb52d4d21e61d7a96b8e34a78b4201a418e453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 044/101] fix: do not memoise edge end parameters on
 unhashable, mutable arguments

---
 mmcore/topo/brep/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index ea5b00a..9cc9143 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 from collections import namedtuple
-from functools import lru_cache
 from types import GenericAlias
 from typing import TypeVar, Generic
 
@@ -62,7 +61,6 @@ class _EdgeCurveParametersResult:
             raise ValueError(
                 f"The starting vertex does not belong to the edge. Error value: {self.end.dist}")
 
-@lru_cache(maxsize=None)
 def _get_edge_curve_parameters_at_points(curve:NURBSCurve,
                        start:NDArray[float],
                        end:NDArray[float],
-- 
2.43.0


From ff2715fab77ba59798c30423c24a5fd921b7870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 045/101] fix: bpmat hands out a copy of its memoised matrix

---
 mmcore/numeric/monomial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 6c89eec..f78ece1 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -7,12 +7,16 @@ from mmcore.geom.nurbs import NURBSSurface
 from mmcore.geom.surfaces import Surface
 from mmcore.numeric.binom import binomial_coefficient_py
 from functools import lru_cache
-@lru_cache(maxsize=None)
 def bpmat(n, method="mmcore"):
 
     """Create Bernstein to monomial conversion matrix.
 
     """
+    return _bpmat(n, method).copy()
+
+
+@lru_cache(maxsize=None)
+def _bpmat(n, method):
     method=comb if method=="scipy" else binomial_coefficient_py
     return np.array(
         [
-- 
2.43.0


From 1a4858d03bf2bc6e2c679bc9d063da043e097508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:08 +0000
Subject: [PATCH 046/101] fix: a SweepIntersector can be used for more than one
 set of segments

---
 mmcore/numeric/algorithms/sweep_line/sweep_intersector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
index 7d54212..b8b96ee 100644
--- a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
+++ b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
@@ -11,6 +11,9 @@ from .point import Point
 
 class SweepIntersector():
     def __init__(self):
+        self.reset()
+
+    def reset(self):
         self.X_structure = SortSeq()
         self.Y_structure = SortSeq()
         self.lastNode = dict()
@@ -55,6 +58,7 @@ class SweepIntersector():
                 ...
 
         """
+        self.reset()
         self.initializeStructures(origSegList)
 
         # Main loop
-- 
2.43.0


From b3b33db77d40b7a3f8a39ea2f42856b2db643b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:08 +0000
Subject: [PATCH 047/101] fix: NURBSCurveSurfaceIntersector.intersect starts
 from an empty result

---
 mmcore/numeric/intersection/csx/_ncsx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/intersection/csx/_ncsx.py b/mmcore/numeric/intersection/csx/_ncsx.py
index 5e6af8d..b280214 100644
--- a/mmcore/numeric/intersection/csx/_ncsx.py
+++ b/mmcore/numeric/intersection/csx/_ncsx.py
@@ -50,6 +50,7 @@ class NURBSCurveSurfaceIntersector:
         self.ptol = ptol
 
     def intersect(self):
+        self.intersections = []
         self._curve_surface_intersect(self.curve, self.surface)
         return self.intersections
 
-- 
2.43.0


From 1cf6bcc80e2e684963b1e9018f0eb789bd76f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 048/101] fix: triangles tested in parallel each use their own
 scratch vectors

---
 mmcore/numeric/algorithms/moller.pyx | 62 ++++++++++++++--------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/mmcore/numeric/algorithms/moller.pyx b/mmcore/numeric/algorithms/moller.pyx
index a3b9118..91af7a9 100644
--- a/mmcore/numeric/algorithms/moller.pyx
+++ b/mmcore/numeric/algorithms/moller.pyx
@@ -353,6 +353,34 @@ def intersect_triangles_segment(
             flags[ixs]=0
 
 
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef inline void _intersect_triangle_at(
+    double[:,:] V0,
+    double[:,:] V1,
+    double[:,:] V2,
+    double* c_S,
+    double* c_E,
+    double[:,:] outs,
+    int[:] flags,
+    int ixs
+) noexcept nogil:
+    # the scratch vectors are local to the call, hence to the thread
+    cdef double[3] c_V0, c_V1, c_V2, c_I
+    cdef int k
+    for k in range(3):
+        c_V0[k] = V0[ixs, k]
+        c_V1[k] = V1[ixs, k]
+        c_V2[k] = V2[ixs, k]
+    if _intersect_triangle_segment(c_V0, c_V1, c_V2, c_S, c_E, c_I):
+        flags[ixs] = _classify_intersection(c_I, c_V0, c_V1, c_V2)
+        outs[ixs, 0] = c_I[0]
+        outs[ixs, 1] = c_I[1]
+        outs[ixs, 2] = c_I[2]
+    else:
+        flags[ixs] = 0
+
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 
@@ -380,9 +408,8 @@ def intersect_triangles_segment_parallel(
     """
     cdef int tris=V0.shape[0]
 
-    cdef double[3] c_V0, c_V1, c_V2, c_S, c_E, c_I
-    cdef int exists, flag
-    cdef int ixs,i
+    cdef double[3] c_S, c_E
+    cdef int ixs
     with nogil:
         c_S[0] = S[0]
         c_E[0] = E[0]
@@ -393,31 +420,4 @@ def intersect_triangles_segment_parallel(
 
         # Copy inputs to C arrays
         for ixs in prange(tris, schedule='static'):
-
-
-            c_V0[0] = V0[ixs][0]
-            c_V1[0] = V1[ixs][0]
-            c_V2[0] = V2[ixs][0]
-
-            c_V0[1] = V0[ixs][1]
-            c_V1[1] = V1[ixs][1]
-            c_V2[1] = V2[ixs][1]
-
-            c_V0[2] = V0[ixs][2]
-            c_V1[2] = V1[ixs][2]
-            c_V2[2] = V2[ixs][2]
-
-            # Perform intersection
-            exists = _intersect_triangle_segment(c_V0, c_V1, c_V2, c_S, c_E, c_I)
-            if exists:
-                # Classify the intersection
-                flags[ixs] = _classify_intersection(c_I, c_V0, c_V1, c_V2)
-
-                outs[ixs,0]=c_I[0]
-                outs[ixs, 1] = c_I[1]
-                outs[ixs, 2] = c_I[2]
-            else:
-                flags[ixs]=0
-
-
-
+            _intersect_triangle_at(V0, V1, V2, c_S, c_E, outs, flags, ixs)
-- 
2.43.0


From 4c004fd79009717ca48b7b517f2a9743991ac87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 049/101] fix: Intersection2D.solve_bounds assigns the bounds
 instead of calling None

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 7010d17..ddcbd81 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -396,7 +396,7 @@ class Intersection2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds(max(axmin, bxmin), max(aymin, bymin)), (
+        self._bounds = (max(axmin, bxmin), max(aymin, bymin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
         )
-- 
2.43.0


From 22ba1737f7de67cda7dda3f17561b38bb37a12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:11 +0000
Subject: [PATCH 050/101] fix: NURBSCurve.control_points accepts the arrays it
 documents

---
 mmcore/geom/curves/_nurbs.pyx | 10 ++++------
 mmcore/geom/nurbs.pyx         | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f6b863a..3a24bed 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -522,12 +522,10 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._control_points[:,:-1])
     @control_points.setter
     def control_points(self, control_points):
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-            self._control_points[:]=control_points
-        else:
-
-            self._control_points[:, :control_points.shape[1]] = control_points
+        new_control_points = np.zeros((control_points.shape[0],4))
+        new_control_points[:, 3] = 1.
+        new_control_points[:, :control_points.shape[1]] = control_points
+        self._control_points = new_control_points
         self._evaluate_cached.cache_clear()
 
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f37982e..050134e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1289,12 +1289,10 @@ cdef class NURBSCurve(ParametricCurve):
                              "If you know what you are doing, assign control points directly by setting the _control_points attribute value. "
                              "However, you will have to clear caches, update the knots and possibly the periodicity.")
 
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-                self._control_points[:]=control_points
-        else:
-
-                self._control_points[:, :control_points.shape[1]] = control_points
+        new_control_points = np.zeros((control_points.shape[0],4))
+        new_control_points[:, 3] = 1.
+        new_control_points[:, :control_points.shape[1]] = control_points
+        self._control_points = new_control_points
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 1447d3d359c2193ff29aee4cffe522b1e3353e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 051/101] fix: dot_array_x_array and its kin assign the sums
 instead of adding to uninitialised memory

---
 mmcore/numeric/vectors.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index c057da1..92ee6de 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -45,7 +45,7 @@ cpdef dot_array_x_array(double[:,:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[1]):
             item += vec_a[i, j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -78,7 +78,7 @@ cpdef dot_vec_x_array(double[:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[0]):
             item += vec_a[j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -91,7 +91,7 @@ cpdef dot_array_x_vec(double[:,:]vec_a, double[:]vec_b):
         item = 0.0
         for j in range(vec_b.shape[0]):
             item += vec_a[i, j] * vec_b[j]
-        res[i] += item
+        res[i] = item
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From f9a8cd5916cca62504d69d096b39f451bcccdd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 052/101] fix: matmul_array accumulates into zeros, not into
 uninitialised memory

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 92ee6de..778ab66 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -58,7 +58,7 @@ cpdef matmul_array(double[:,:,:] vec_a, double[:,:,:] vec_b):
     cdef int cols_A = vec_a.shape[2]
     cdef int rows_B = vec_b.shape[1]
     cdef int cols_B = vec_b.shape[2]
-    cdef double[:,:,:] result=np.empty((l,rows_A,cols_B))
+    cdef double[:,:,:] result=np.zeros((l,rows_A,cols_B))
     for w in range(l):
         for i in range(rows_A):
             for j in range(cols_B):
-- 
2.43.0


From c65ee6e56955b86e60753d9b0235a6384415e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 053/101] fix: invert_jacobian allocates one status per
 Jacobian

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 778ab66..1f89242 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -421,7 +421,7 @@ cpdef invert_jacobian(J):
 
     else:
         J_inv = np.empty((J.shape[0], 2, 2))
-        status=np.empty((J.shape[0], 2, 2), dtype=np.intc)
+        status=np.empty((J.shape[0],), dtype=np.intc)
         with nogil:
             cinvert_jacobian_vec(J, J_inv,  status)
         return J_inv, status
-- 
2.43.0


From 0d976c9da18ddaad60c24eeff740e71dffdf0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 054/101] fix: gram_schmidt indexes the components with its own
 loop variable

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 1f89242..1d27bb1 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -255,7 +255,7 @@ cpdef gram_schmidt(double[:,:]vec_a,
         for j in range(vec_a.shape[1]):
             item_dot += vec_b[i, j] * vec_a[i, j]
         for k in range(vec_a.shape[1]):
-            res[i, k] = vec_b[i, j] - (vec_a[i, j] * item_dot)
+            res[i, k] = vec_b[i, k] - (vec_a[i, k] * item_dot)
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From b30f1853d3b5e24647fd2d0116431997b8fc8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 055/101] fix: decompose_vector(s) refuse dependent axes
 instead of returning uninitialised memory

---
 mmcore/numeric/vectors.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 1d27bb1..4a29998 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -712,7 +712,8 @@ cpdef decompose_vector(double [:] v,double [:] a, double [:] b):
     A[1, 1] =   scalar_dot(b, b)
     y[0] = scalar_dot(a, v)
     y[1] = scalar_dot(b,v)
-    solve2x2(A,y,xy)
+    if not solve2x2(A,y,xy):
+        raise ValueError('the vectors a and b are linearly dependent')
     return xy
 
 @cython.boundscheck(False)
@@ -734,7 +735,8 @@ cpdef decompose_vectors(double[:,:] v, double[:] a, double[:] b, double[:,:] res
             A[1, 1] =  _dot_inl(b, b)
             y[0] = _dot_inl(a, v[i])
             y[1] = _dot_inl(b, v[i])
-            solve2x2(A, y, result[i])
+            if not solve2x2(A, y, result[i]):
+                raise ValueError('the vectors a and b are linearly dependent')
     return result
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 0ec3e278d90f6438ce510525abe2a1fff5ed9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 056/101] fix: cnormal gives cplane the four rows it fills

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 mmcore/geom/nurbs.pyx         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 3a24bed..8f22d84 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -857,7 +857,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 050134e..9b1af5a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1635,7 +1635,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From fc5587af2dc017f5ec2d3c53bb8ba67694d01b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 057/101] fix: derivative_control_points differentiates the
 point columns its result has room for

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 mmcore/geom/nurbs.pyx         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 8f22d84..6a95625 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -912,7 +912,7 @@ cdef class NURBSpline(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return np.asarray(PK)
     @cython.cdivision(True)
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 9b1af5a..62553fc 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1690,7 +1690,7 @@ cdef class NURBSCurve(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef cnp.ndarray[double, ndim=3] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return PK
     @cython.cdivision(True)
-- 
2.43.0


From c248f10ee88be423987fee321407329070188d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 058/101] fix: invert_jacobian takes the view of J before it
 releases the GIL

---
 mmcore/numeric/vectors.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 4a29998..4c9bba2 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -414,16 +414,18 @@ cpdef invert_jacobian(J):
     cdef double[:,:, :] J_inv
     cdef int[:] status
     cdef int status_m
+    cdef double[:,:,:] J_m
     if J.ndim==2:
         J_inv_m=np.empty((2,2))
         status_m=cinvert_jacobian(J,J_inv_m)
         return J_inv_m,status_m
 
     else:
+        J_m = J
         J_inv = np.empty((J.shape[0], 2, 2))
         status=np.empty((J.shape[0],), dtype=np.intc)
         with nogil:
-            cinvert_jacobian_vec(J, J_inv,  status)
+            cinvert_jacobian_vec(J_m, J_inv,  status)
         return J_inv, status
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 3f48c9d8ea4404ee521327a7a2ea0746171af567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 059/101] fix: knot_refinement frees the unique knots and
 leaves the caller's knot list alone

---
 mmcore/geom/nurbs.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 62553fc..ebfea4c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -677,12 +677,16 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
 
         knot_list = np.concatenate((knot_list, add_knot_list))
 
+    # uniqueSorted sorts in place and returns memory the caller has to free: give it a copy of the list and keep a copy of the result
+    knot_list = np.array(knot_list, dtype=np.float64)
     cdef int usz=knot_list.shape[0]
     cdef int new_knot_len
 
     cdef double* sorted_knots=uniqueSorted(&knot_list[0],usz, &new_knot_len )
 
-    knot_list = <double[:new_knot_len]>sorted_knots
+    knot_list = np.array(<double[:new_knot_len]>sorted_knots, dtype=np.float64)
+    free(sorted_knots)
+    usz = new_knot_len
 
 
     cdef double[:] rknots
-- 
2.43.0


From f6ffe567325651a67dc6faa6a617a5b82f49e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 060/101] fix: copying a NURBSSurface no longer leaks its knot
 vectors

---
 mmcore/geom/nurbs.pyx | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ebfea4c..6d5cc52 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2487,29 +2487,26 @@ cdef class NURBSSurface(ParametricSurface):
         cdef int n_knots_v = self._knots_v.shape[0]
 
         # Allocate memory for new arrays
+        # (the knot vectors are views nothing else owns, so they get arrays of their own)
+        cdef double[:] new_knots_u = np.empty(n_knots_u, dtype=np.float64)
+        cdef double[:] new_knots_v = np.empty(n_knots_v, dtype=np.float64)
         cdef double* new_control_points_arr = <double*>malloc(n_ctrlpts_u * n_ctrlpts_v * 4 * sizeof(double))
-        cdef double* new_knots_u = <double*>malloc(n_knots_u * sizeof(double))
-        cdef double* new_knots_v = <double*>malloc(n_knots_v * sizeof(double))
-
-        if new_control_points_arr == NULL or new_knots_u == NULL or new_knots_v == NULL:
-            free(new_control_points_arr)
-            free(new_knots_u)
-            free(new_knots_v)
 
+        if new_control_points_arr == NULL:
             raise MemoryError("Failed to allocate memory for surface copy")
 
         # Copy data using memcpy for efficiency
         memcpy(new_control_points_arr, self._control_points_arr, n_ctrlpts_u * n_ctrlpts_v * 4 * sizeof(double))
-        memcpy(new_knots_u, &self._knots_u[0], n_knots_u * sizeof(double))
-        memcpy(new_knots_v, &self._knots_v[0], n_knots_v * sizeof(double))
+        new_knots_u[:] = self._knots_u
+        new_knots_v[:] = self._knots_v
 
         # Create new NURBSSurface object
         cdef NURBSSurface new_surface = NURBSSurface.__new__(NURBSSurface)
         new_surface._control_points_arr = new_control_points_arr
         new_surface.control_points_view = <double[:n_ctrlpts_u, :n_ctrlpts_v, :4]>new_control_points_arr
         new_surface.control_points_flat_view = <double[:n_ctrlpts_u*n_ctrlpts_v, :4]>new_control_points_arr
-        new_surface._knots_u = <double[:n_knots_u]>new_knots_u
-        new_surface._knots_v = <double[:n_knots_v]>new_knots_v
+        new_surface._knots_u = new_knots_u
+        new_surface._knots_v = new_knots_v
         new_surface._degree[0] = self._degree[0]
         new_surface._degree[1] = self._degree[1]
         new_surface._size[0] = self._size[0]
-- 
2.43.0


From 3c74f0120542418a81d1569af99badc4a1ee094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 061/101] fix: NURBSCurve.deserialize keeps its data in arrays
 that are freed with the curve

---
 mmcore/geom/nurbs.pyx | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 6d5cc52..a14fd52 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1920,25 +1920,16 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int n_knots = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
 
-        # Allocate memory for control points and knots
-        cdef double* control_points_data = <double*>malloc(n_ctrlpts * 4 * sizeof(double))
-        cdef double* knots_data = <double*>malloc(n_knots * sizeof(double))
-
-        if control_points_data == NULL or knots_data == NULL:
-            free(control_points_data)
-            free(knots_data)
-            raise MemoryError("Failed to allocate memory for deserialization")
+        # Allocate arrays for control points and knots
+        cdef double[:, :] control_points = np.empty((n_ctrlpts, 4), dtype=np.float64)
+        cdef double[:] knots = np.empty(n_knots, dtype=np.float64)
 
         # Copy control points data
-        memcpy(control_points_data, current, n_ctrlpts * 4 * sizeof(double))
+        memcpy(&control_points[0, 0], current, n_ctrlpts * 4 * sizeof(double))
         current += n_ctrlpts * 4 * sizeof(double)
 
         # Copy knots data
-        memcpy(knots_data, current, n_knots * sizeof(double))
-
-        # Create memory views for the allocated arrays
-        cdef double[:, :] control_points = <double[:n_ctrlpts, :4]>control_points_data
-        cdef double[:] knots = <double[:n_knots]>knots_data
+        memcpy(&knots[0], current, n_knots * sizeof(double))
 
         # Create new NURBSCurve object
         cdef NURBSCurve new_curve = NURBSCurve.__new__(NURBSCurve)
-- 
2.43.0


From 73353f3f13c91894913abbf6d810aea0a766d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 062/101] fix: NURBSSurface.control_points_w no longer hands
 out memory the surface frees

---
 mmcore/geom/nurbs.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index a14fd52..e0135e3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2363,14 +2363,14 @@ cdef class NURBSSurface(ParametricSurface):
         return pts
     @property
     def control_points_flat_w(self):
-
-        return self.control_points_flat_view
+        # a copy: the memory behind the view goes away with the surface and moves when knots are inserted
+        return self.control_points_flat_view.copy()
     @property
     def shape(self):
         return tuple(self._size)
     @property
     def control_points_w(self):
-        return self.control_points_view
+        return self.control_points_view.copy()
 
     @knots_v.setter
     def knots_v(self,val):
-- 
2.43.0


From 762b39787f14c0a47ce05bd62d52fb241304a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 063/101] fix: unique sorts a copy and no longer reallocates
 memory NumPy owns

---
 mmcore/numeric/algorithms/_unique.c     | 13 ++-----------
 mmcore/numeric/algorithms/quicksort.pyx |  6 ++++--
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/mmcore/numeric/algorithms/_unique.c b/mmcore/numeric/algorithms/_unique.c
index 5d6c927..1789232 100644
--- a/mmcore/numeric/algorithms/_unique.c
+++ b/mmcore/numeric/algorithms/_unique.c
@@ -100,7 +100,6 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
     }
     if (n == 1) {
         *new_len = 1;
-        result = (double*)realloc(result, sizeof(double));
         result[0] = arr[0];
         return 1;
     }
@@ -108,8 +107,7 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
     // Sort the array
     qsort(arr, n, sizeof(double), compare2);
 
-    // Allocate memory for the unique sorted array
-    result = (double*)realloc(result,n * sizeof(double));
+    // The result has room for n elements and belongs to the caller: it must not be reallocated here
     int j = 0;
 
     // Add the first element
@@ -122,8 +120,6 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
         }
     }
 
-    // Resize the memory to match the number of unique elements
-    result = (double*)realloc(result, j * sizeof(double));
     *new_len = j;
 
     return 1;
@@ -181,8 +177,7 @@ void uniqueSortedIntEmplace(int *arr, int n, int *new_len,int *unique_arr ) {
     }
     if (n == 1) {
         *new_len = 1;
-        int *result = (int*)malloc(sizeof(int));
-        result[0] = arr[0];
+        unique_arr[0] = arr[0];
         return ;
     }
 
@@ -203,9 +198,5 @@ void uniqueSortedIntEmplace(int *arr, int n, int *new_len,int *unique_arr ) {
         }
     }
 
-    // Resize the memory to match the number of unique elements
-    unique_arr = (int*)realloc(unique_arr, j * sizeof(int));
     *new_len = j;
-
-   
 }
diff --git a/mmcore/numeric/algorithms/quicksort.pyx b/mmcore/numeric/algorithms/quicksort.pyx
index 3ab9889..0e38575 100644
--- a/mmcore/numeric/algorithms/quicksort.pyx
+++ b/mmcore/numeric/algorithms/quicksort.pyx
@@ -41,8 +41,10 @@ cpdef int[:] argsort(double[:] arr) :
 cpdef double[:] unique(double[:] arr, double[:] result=None) noexcept nogil:
     cdef int new_len=0;
     cdef bint success
-    if result is None:
-        with gil:
+    with gil:
+        # uniqueSortedByRef sorts the array it is given
+        arr=arr.copy()
+        if result is None:
             result=arr.copy()
     success=uniqueSortedByRef(&arr[0],arr.shape[0], &new_len,&result[0])
     if success==0:
-- 
2.43.0


From 03b7e380c56a20621e3cb0e84dfaca7b202356f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 064/101] fix: astuple of the primitives packs Python floats
 (PyTuple_Pack read the C doubles as objects)

---
 mmcore/geom/primitives.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index ada9699..a91aa1c 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -3,7 +3,7 @@ cimport cython
 import numpy as np
 from libc.math cimport fabs, sqrt,fmin,fmax,pow,pi,sin,cos
 from libc.stdlib cimport malloc,free
-from cpython cimport PyTuple_New,PyTuple_Pack,PyTuple_GetItem,PyTuple_GET_ITEM
+from cpython cimport PyTuple_New,PyTuple_GetItem,PyTuple_GET_ITEM
 cimport numpy as np
 from mmcore.geom.parametric cimport ParametricSurface
 from mmcore.numeric.vectors cimport scalar_cross
@@ -211,7 +211,7 @@ cdef class Sphere(Implicit3D):
 
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(4,self.ox,self.oy,self.oz,self._radius )
+        cdef tuple tpl=(self.ox,self.oy,self.oz,self._radius)
         return tpl
 
     @property
@@ -308,7 +308,7 @@ cdef class ImplicitCylinder(Implicit3D):
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius,self._bounds)
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(7,self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius )
+        cdef tuple tpl=(self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius)
         return tpl
 
     @property
@@ -545,7 +545,7 @@ cdef class Tube(ImplicitCylinder):
     cdef void _calculate_bounds(self) noexcept nogil:
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius+self._thickness/2, self._bounds)
     def astuple(self):
-        cdef tuple tpl = PyTuple_Pack(8, self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
+        cdef tuple tpl = (self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
         return tpl
 
 
-- 
2.43.0


From cd8819f1c9959fb814568169ba7b3102d4ee9a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 065/101] fix: sectional_tangent_uv takes the second surface's
 own normal

---
 mmcore/numeric/intersection/ssx/sectioal_tangent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ssx/sectioal_tangent.py b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
index 60bacff..17356d6 100644
--- a/mmcore/numeric/intersection/ssx/sectioal_tangent.py
+++ b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
@@ -43,7 +43,7 @@ def sectional_tangent_uv(s1: Surface, s2: Surface,  uv1,  uv2, tol=1e-3):
 
     """
 
-    n1, n2 = s1.normal(uv1), s1.normal(uv2)
+    n1, n2 = s1.normal(uv1), s2.normal(uv2)
     T = np.array(np.cross(n1, n2))
     T /= np.linalg.norm(T)
     return T
-- 
2.43.0


From d81480109c1f3475b2a70854f8adf9eaa3f38c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 066/101] fix: edge end check reports the start vertex's
 distance, not its parameter again

---
 mmcore/topo/brep/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index 9cc9143..f79972c 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -73,7 +73,7 @@ def _get_edge_curve_parameters_at_points(curve:NURBSCurve,
 
 
 
-    return _EdgeCurveParametersResult(_EndParameterResult(success_start, start_param, start_param), _EndParameterResult(success_end, end_param, end_dist))
+    return _EdgeCurveParametersResult(_EndParameterResult(success_start, start_param, start_dist), _EndParameterResult(success_end, end_param, end_dist))
 
 
 def get_edge_ends_parameters(edge:Edge,check:bool=False)->tuple[float,float]:
-- 
2.43.0


From c610dcf51a0905468aea086d68b6f8167f6dc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 067/101] fix: points_inversion_surface measures dv by dv

---
 mmcore/numeric/algorithms/point_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index dbd006c..02adf2a 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -243,7 +243,7 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
         du = sdu(uivi)
         dv = sdv(uivi)
         du_norm = np.array(norm(du))
-        dv_norm = np.array(norm(du))
+        dv_norm = np.array(norm(dv))
 
         dot_du_du, dot_du_dv, dot_dv_dv, dot_dv_du = np.array(dot(du, du)), np.array(dot(du, dv)), np.array(
             dot(dv, dv)), np.array(dot(dv, du))
-- 
2.43.0


From 38bad94034223ad53d78cc385276959cd4d360e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 068/101] fix: deep copies of NURBSpline keep the periodic flag

---
 mmcore/geom/curves/_nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 6a95625..99b3e77 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -444,10 +444,10 @@ cdef class NURBSpline(ParametricCurve):
 
 
     def __deepcopy__(self, memodict={}):
-        obj=self.__class__(control_points=self.control_points.copy(), degree=self._degree, knots=np.asarray(self._knots).copy())
+        cdef NURBSpline obj=self.__class__(control_points=self.control_points.copy(), degree=self._degree, knots=np.asarray(self._knots).copy())
 
         obj.weights=self.weights
-
+        obj._periodic=self._periodic
 
         return obj
     cpdef void set_degree(self, int val):
-- 
2.43.0


From cec42a8d6fd095d92436de967f39f9a24270c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 069/101] fix: ColorRGBA.todict carries the alpha of the colour

---
 mmcore/geom/materials/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/materials/__init__.py b/mmcore/geom/materials/__init__.py
index 00f7c3b..4996eff 100644
--- a/mmcore/geom/materials/__init__.py
+++ b/mmcore/geom/materials/__init__.py
@@ -116,6 +116,8 @@ class ColorRGBA(ColorRGB):
         return obj
 
     def todict(self):
-        return {"r": self.r, "g": self.g, "b": self.b, "a": 255}
+        # like the other channels: integers are taken as they are, fractions are scaled to 0..255
+        a = self.a if isinstance(self.a, int) else int(round(self.a * 255))
+        return {"r": self.r, "g": self.g, "b": self.b, "a": a}
 def rgb_to_three_decimal(color: typing.Union[ColorRGB, ColorRGBA]) -> int:
     return int("%02x%02x%02x" % (color.r, color.g, color.b), 16)
-- 
2.43.0


From d0c9303c7be001553c40769e1800473fb9064a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 070/101] fix: create_from_min_max_points does not swap its two
 corners

---
 mmcore/api/bbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 0231453..ebada0a 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -75,8 +75,8 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         Returns the new bounding box.
         """
         self = cls()
-        self.max = cls.__point_class__.cast(min_point)
-        self.min = cls.__point_class__.cast(max_point)
+        self.min = cls.__point_class__.cast(min_point)
+        self.max = cls.__point_class__.cast(max_point)
         return self
 
     @classmethod
-- 
2.43.0


From c7723481c8fec80412d6257cf2d7d297e5c33212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 071/101] fix: join_two_curves keeps the weights and builds a
 knot vector of the right length

---
 mmcore/geom/curves/knot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index cefa036..2f41feb 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1147,8 +1147,11 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     degree = curve1.degree  # Now both curves have same degree
 
     # Get control points and weights
-    cpts1 = curve1.control_points
-    cpts2 = curve2.control_points
+    cpts1 = curve1.control_pointsw
+    cpts2 = curve2.control_pointsw.copy()
+    # The curves share the control point at the joint, so they have to agree on its weight
+    # (scaling every weight of a curve by the same factor does not change the curve)
+    cpts2[:, 3] *= cpts1[-1, 3] / cpts2[0, 3]
 
     # Create new knot vector by joining and scaling
     knots1 = curve1.knots
@@ -1158,8 +1161,8 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
 
 
     # Combine knot vectors
-    print(knots1,knots1.max()+knots2-knots2.min())
-    new_knots = np.concatenate([knots1,knots1.max()+knots2-knots2.min()])
+    # At the joint the knot has multiplicity degree: the curves meet in one shared control point
+    new_knots = np.concatenate([knots1[:-1], (knots1.max() + knots2 - knots2.min())[degree + 1:]])
 
     # Combine control points, merging the connecting points
     new_cpts = np.vstack([
-- 
2.43.0


From ced59b36fee76b19bd40e2d797ffe5d85e6a228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 072/101] fix: NURBSCurve byte form has the size of what is
 written and short data is refused

---
 mmcore/geom/nurbs.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e0135e3..64fdf88 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1810,7 +1810,7 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Calculate total size of the byte array
         cdef size_t total_size = (
-            sizeof(MAGIC_BYTES) +
+            MAGIC_BYTES_SIZE +
             sizeof(uint32_t) + # Magic bytes and version
             sizeof(uint32_t) +  # degree
             sizeof(bint) +  # periodic flag
@@ -1899,6 +1899,10 @@ cdef class NURBSCurve(ParametricCurve):
         cdef const char* buffer = <const char*>&data[0]
         cdef const char* current = buffer
         cdef int vers
+        cdef size_t size = data.shape[0]
+        cdef size_t header_size = MAGIC_BYTES_SIZE + 5 * sizeof(uint32_t)
+        if size < header_size:
+            raise ValueError(f"Invalid data: {size} bytes are too few for a serialized NURBS curve")
         # Check magic bytes and version
         if memcmp(current, MAGIC_BYTES, MAGIC_BYTES_SIZE) != 0:
             raise ValueError(f"Invalid magic bytes: {current}")
@@ -1920,6 +1924,9 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int n_knots = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
 
+        if size < header_size + (<size_t> n_ctrlpts * 4 + <size_t> n_knots) * sizeof(double):
+            raise ValueError(f"Invalid data: {size} bytes are too few for {n_ctrlpts} control points and {n_knots} knots")
+
         # Allocate arrays for control points and knots
         cdef double[:, :] control_points = np.empty((n_ctrlpts, 4), dtype=np.float64)
         cdef double[:] knots = np.empty(n_knots, dtype=np.float64)
-- 
2.43.0


From 6e1a85b7301b7506ce201f8bbae19b9e220da1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 073/101] fix: reverse_curve mirrors the knots instead of
 reading before them (wraparound is off in this build)

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 64fdf88..f558b68 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2063,7 +2063,7 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
     cdef double b = curve._knots[curve._knots.shape[0]-1]
     cdef int i
     for i in range(len(curve._knots)):
-        new_knots[i] = a + b - curve._knots[-(i+1)]
+        new_knots[i] = a + b - curve._knots[curve._knots.shape[0] - 1 - i]
 
     return NURBSCurve.create(new_cpts, curve._degree, new_knots, curve._periodic)
 
-- 
2.43.0


From 54a76c529290fb43fe8ba59f2ac608ec155b57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 074/101] fix: csx grid search looks at its own surface and
 uses the caller's steps

---
 mmcore/numeric/intersection/csx/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index c31ce4d..6e57d51 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -102,7 +102,7 @@ def bvh_search(curve,surface):
 
 
 def gs2(curve, surface, threshold, t_range=None, uv_range=None,tol=1e-3, counts=None):
-    (umin, umax), (vmin, vmax) = surf.interval() if uv_range is None else uv_range
+    (umin, umax), (vmin, vmax) = surface.interval() if uv_range is None else uv_range
     (tmin, tmax) = curve.interval() if t_range is None else t_range
     bvh1=curve.tree
     bvh2=surface.tree
@@ -183,7 +183,7 @@ grid_search=gs2
 def find_intersections_grid(curve, surface, t_range, uv_range, steps=50, threshold=0.1, tol=1e-6):
 
     initial_guesses = list(grid_search(curve, surface, t_range=
-    t_range,threshold=threshold,uv_range= uv_range,tol=tol))
+    t_range,threshold=threshold,uv_range= uv_range,tol=tol,counts=(steps,steps,steps)))
     intersections = []
     for guess in initial_guesses:
         refined = newton_raphson(curve, surface, guess,tol=tol)
-- 
2.43.0


From 4431c2c6a1a65a74fb625e78c9b1c29f4b67ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 075/101] fix: the caller's tolerance reaches gjk simplices,
 curve_pix, sectional tangents, pp marching and perp_to_vector

---
 mmcore/numeric/algorithms/gjk.py                    | 10 +++++-----
 mmcore/numeric/intersection/ccx/ccx.py              |  4 ++--
 mmcore/numeric/intersection/pp.py                   |  9 ++++++---
 mmcore/numeric/intersection/ssx/sectioal_tangent.py |  4 ++--
 mmcore/numeric/plane/__init__.py                    |  2 +-
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/mmcore/numeric/algorithms/gjk.py b/mmcore/numeric/algorithms/gjk.py
index 7cf2f66..1d194b2 100644
--- a/mmcore/numeric/algorithms/gjk.py
+++ b/mmcore/numeric/algorithms/gjk.py
@@ -161,10 +161,10 @@ def handle_simplex(simplex, d, tol=1e-6):
                 simplex.pop(1)
                 d[:] = scalar_cross(scalar_cross(ac, ao), ac)
             else:
-                return handle_simplex([simplex[2], simplex[1]], d)
+                return handle_simplex([simplex[2], simplex[1]], d, tol=tol)
         else:
             if scalar_dot(scalar_cross(ab, abc), ao) > tol:
-                return handle_simplex([simplex[2], simplex[1]], d)
+                return handle_simplex([simplex[2], simplex[1]], d, tol=tol)
             else:
                 if scalar_dot(abc, ao) > tol:
                     d[:] = abc
@@ -188,13 +188,13 @@ def handle_simplex(simplex, d, tol=1e-6):
 
         if scalar_dot(abc, ao) > 0:
             simplex.pop(0)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
+            return handle_simplex([simplex[2], simplex[1], simplex[0]], d, tol=tol)
         elif scalar_dot(acd, ao) > 0:
             simplex.pop(1)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
+            return handle_simplex([simplex[2], simplex[1], simplex[0]], d, tol=tol)
         elif scalar_dot(adb, ao) > 0:
             simplex.pop(2)
-            return handle_simplex([simplex[2], simplex[1], simplex[0]], d)
+            return handle_simplex([simplex[2], simplex[1], simplex[0]], d, tol=tol)
         else:
 
             return True
diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 99427cc..40a5c7b 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -105,9 +105,9 @@ def ccx(curve1, curve2, tol: float = 0.01):
 
     """
     if hasattr(curve1, "implicit") and hasattr(curve2, "evaluate"):
-        return curve_pix(curve2, curve1)
+        return curve_pix(curve2, curve1, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "evaluate"):
-        return curve_pix(curve1, curve2)
+        return curve_pix(curve1, curve2, tol=tol)
     elif hasattr(curve2, "evaluate") and hasattr(curve1, "evaluate"):
         return curve_ppx(curve1, curve2, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "implicit"):
diff --git a/mmcore/numeric/intersection/pp.py b/mmcore/numeric/intersection/pp.py
index b316854..7665027 100644
--- a/mmcore/numeric/intersection/pp.py
+++ b/mmcore/numeric/intersection/pp.py
@@ -178,8 +178,11 @@ def marching_method(s1, s2, initial_uv1, initial_uv2, tol=TOL, max_iter=1000, no
     iterations = 0
 
 
-    (initial_xyz1, uv1), (initial_xyz2, uv2) = freeform_step(s1, s2, initial_uv1, initial_uv2)
-    (xyz1, uv1_new), (xyz2, uv2_new), step = marching_step(s1, s2, uv1, uv2)
+    if no_ff:
+        uv1, uv2 = initial_uv1, initial_uv2
+    else:
+        (initial_xyz1, uv1), (initial_xyz2, uv2) = freeform_step(s1, s2, initial_uv1, initial_uv2, tol)
+    (xyz1, uv1_new), (xyz2, uv2_new), step = marching_step(s1, s2, uv1, uv2, tol)
 
     pts = [(xyz1, xyz2)]
     uvs = [(uv1_new, uv2_new)]
@@ -188,7 +191,7 @@ def marching_method(s1, s2, initial_uv1, initial_uv2, tol=TOL, max_iter=1000, no
     for i in range(max_iter):
 
         uv1, uv2 = uv1_new, uv2_new
-        res=marching_step(s1, s2, uv1, uv2)
+        res=marching_step(s1, s2, uv1, uv2, tol)
         if res is None:
             break
 
diff --git a/mmcore/numeric/intersection/ssx/sectioal_tangent.py b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
index 17356d6..3f537eb 100644
--- a/mmcore/numeric/intersection/ssx/sectioal_tangent.py
+++ b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
@@ -102,7 +102,7 @@ def sectional_tangent_der(s1: Surface, s2: Surface, pt, eps=DEFAULT_H, tol=1e-3,
     """
     tangent = sectional_tangent(s1, s2, pt, tol=tol,uv1=uv1,uv2=uv2)
     veps = tangent * eps
-    der = (sectional_tangent(s1, s2, pt + veps) - sectional_tangent(s1, s2, pt - veps)) / (2 * np.linalg.norm(veps))
+    der = (sectional_tangent(s1, s2, pt + veps, tol=tol) - sectional_tangent(s1, s2, pt - veps, tol=tol)) / (2 * np.linalg.norm(veps))
     return tangent, der
 def sectional_tangent_der_local(s1: Surface, s2: Surface, pt, eps=DEFAULT_H, tol=1e-3,uv1=None,uv2=None):
     """
@@ -117,7 +117,7 @@ def sectional_tangent_der_local(s1: Surface, s2: Surface, pt, eps=DEFAULT_H, tol
     """
     tangent = sectional_tangent(s1, s2, pt, tol=tol,uv1=uv1,uv2=uv2)
     veps = tangent * eps
-    der = (sectional_tangent(s1, s2, pt + veps) - sectional_tangent(s1, s2, pt - veps)) / (2 * np.linalg.norm(veps))
+    der = (sectional_tangent(s1, s2, pt + veps, tol=tol) - sectional_tangent(s1, s2, pt - veps, tol=tol)) / (2 * np.linalg.norm(veps))
     return tangent, der
 
 
diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 481a6ac..5abe193 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -76,7 +76,7 @@ def plane_from_normal2(origin, normal, tol=1e-5):
         normal = np.array([0, 0, 1], dtype=float)
     else:
         normal = scalar_unit(normal)
-    xaxis = scalar_unit(perp_to_vector(normal))
+    xaxis = scalar_unit(perp_to_vector(normal, tol))
     yaxis = scalar_unit(_mycross(xaxis, normal))
     return np.array([origin, xaxis, yaxis, normal])
 
-- 
2.43.0


From 87150bf10425e72cb84781034efeb0080a10b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 076/101] fix: decompose_surface normalises the knots of the
 patches when asked to

---
 mmcore/geom/nurbs.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f558b68..a8a5be2 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2889,6 +2889,12 @@ cdef inline list decompose_direction(NURBSSurface srf, int idx,double tol=1e-7):
 @cython.boundscheck(False)
 @cython.cdivision(True)
 def decompose_surface(surface, decompose_dir="uv",normalize_knots=False):
+    def finish(srf_list):
+        if normalize_knots:
+            for srf in srf_list:
+                srf.normalize_knots()
+        return srf_list
+
     def decompose_direction(srf, idx):
         srf_list = []
         knots = srf.knots_u if idx == 0 else srf.knots_v
@@ -2916,11 +2922,11 @@ def decompose_surface(surface, decompose_dir="uv",normalize_knots=False):
     if decompose_dir == "u":
         surfs_u=decompose_direction(surf, 0)
 
-        return surfs_u
+        return finish(surfs_u)
     elif decompose_dir == "v":
         surfs_v=decompose_direction(surf, 1)
 
-        return surfs_v
+        return finish(surfs_v)
 
 
     elif decompose_dir == "uv":
@@ -2932,7 +2938,7 @@ def decompose_surface(surface, decompose_dir="uv",normalize_knots=False):
             dsf=decompose_direction(sfu, 1)
 
             multi_surf+=dsf
-        return multi_surf
+        return finish(multi_surf)
     else:
         raise ValueError(
             f"Cannot decompose in {decompose_dir} direction. Acceptable values: u, v, uv"
-- 
2.43.0


From c7e2c9cac19733e85d00986669debab19cad4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 077/101] fix: evaluate_parameter_at_length measures from t0
 and honours the tolerance of every call

---
 mmcore/geom/curves/curve.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index e128d31..1c6fe1e 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -298,11 +298,9 @@ class Curve:
         :param kwargs: Additional keyword arguments to be passed.
         :return: The parameter value at the specified length.
         """
-        if hasattr(self,'_length_evaluator'):
-            return self._length_evaluator(length)
-        else:
-            self._length_evaluator=length_evaluator(self,tol)
-
+        if t0 is not None:
+            # the length is measured from t0
+            length = length + self.evaluate_length((self.interval()[0], float(t0)), tol=tol)
 
         #start, end = self.interval()
         #t0 = t0 if t0 is not None else start
@@ -316,7 +314,7 @@ class Curve:
         #return newton(
         #    func, res[0], tol=tol, x1=t1_limit, **kwargs
         #)
-        return self._length_evaluator(length)
+        return length_evaluator(self, tol)(length)
 
     def apply_operator(self, other, op: Callable):
         if isinstance(other, Curve):
-- 
2.43.0


From 9a9c0a0a37a3e78d9c20aec8c3537119110eb5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 078/101] fix: a point with one vanishing curvature is
 parabolic; add_face compares the loops of both faces

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 mmcore/topo/brep/__init__.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index 5cd1d2e..3f0cd02 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -252,7 +252,7 @@ def classify_point_dupin(k1,k2):
         if k1 != 0:
             return PointOnSurfaceType.PARABOLIC
         elif k2 != 0:
-            return PointOnSurfaceType.FLAT
+            return PointOnSurfaceType.PARABOLIC
         else:
             return PointOnSurfaceType.FLAT
 
diff --git a/mmcore/topo/brep/__init__.py b/mmcore/topo/brep/__init__.py
index f79972c..5908444 100644
--- a/mmcore/topo/brep/__init__.py
+++ b/mmcore/topo/brep/__init__.py
@@ -261,7 +261,7 @@ class BRep:
                     if hash(v.represented_by) == hash(representation):
                             if bounded_by[0] is v.bounded_by[0]:
 
-                                if sorted((hash(b) for b in bounded_by[1:]))==sorted((hash(b) for b in bounded_by[1:])):
+                                if sorted(id(b) for b in v.bounded_by[1:])==sorted(id(b) for b in bounded_by[1:]):
                                     return v
 
 
-- 
2.43.0


From 1bb341a323ae88c16275a9986f62f13f0d4c798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 079/101] fix: raster_algorithm_2d uses the caller's gradient
 and a correct default one

---
 mmcore/numeric/marching.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index e2b1be9..b419a3e 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -156,8 +156,8 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     """Raster algorithm to find points close to the implicit curve f(x, y) = 0."""
     if grad is None:
         def grad(xy):
-            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0], - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
-                    f((xy[0], xy[1] + DEFAULT_H)) - f((xy[0], xy[1] - DEFAULT_H))) / (2 * DEFAULT_H)
+            return np.array([(f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0] - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
+                    f((xy[0], xy[1] + DEFAULT_H)) - f((xy[0], xy[1] - DEFAULT_H))) / (2 * DEFAULT_H)])
 
     x_vals = np.linspace(x_min, x_max, nx)
     y_vals = np.linspace(y_min, y_max, ny)
@@ -167,9 +167,9 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     grad_f = np.zeros(2, dtype=float)
     xy = np.zeros(2, dtype=float)
     if general_implicit:
-        curve_pt = lambda pt: curve_point(f, pt)
+        curve_pt = lambda pt: curve_point(f, pt, grad=grad)
     else:
-        curve_pt = lambda pt: pt + grad * f_val
+        curve_pt = lambda pt: pt - grad_f * f_val
     for i, x in enumerate(x_vals):
         for j, y in enumerate(y_vals):
             xy[:] = x, y
-- 
2.43.0


From a87deda9fcce92fe373502730dba5763ecbc69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 080/101] fix: dqr4 subdivision counts its depth and keeps the
 caller's limit

---
 mmcore/numeric/intersection/ssx/dqr4.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/intersection/ssx/dqr4.py b/mmcore/numeric/intersection/ssx/dqr4.py
index ff6763e..7978b19 100644
--- a/mmcore/numeric/intersection/ssx/dqr4.py
+++ b/mmcore/numeric/intersection/ssx/dqr4.py
@@ -174,6 +174,8 @@ def find_intersections(
                             sub_u2_range,
                             sub_v2_range,
                             tolerance,
+                            depth + 1,
+                            max_depth,
                         )
                     )
 
-- 
2.43.0


From 06ae5be9af628a36bfe2e79c083c272410386f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 081/101] fix: a singular Newton system is a failure, not a
 converged point (implicit curve point)

---
 mmcore/numeric/algorithms/implicit_point.py | 19 +++++++++++++------
 mmcore/numeric/calgorithms.pxd              | 13 +++++++++++--
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index a86880d..57fdcad 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -102,18 +102,23 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     ])
 
     g = np.array([f1, f2])
-    success = solve2x2(J, -g, alpha_beta)
+    singular = not solve2x2(J, -g, alpha_beta)
+    if singular:
+        alpha_beta[:] = 0.
     delta = alpha_beta[0] * grad1(qk) + alpha_beta[1] * grad2(qk)
     qk_next = delta + qk
     d = scalar_norm(qk_next - qk)
     i = 0
 
     success = True
-    while d > tol:
+    while d > tol or singular:
+        if singular and scalar_norm(g) <= tol:
+            # the gradients are parallel, but the point is already on both surfaces
+            break
 
-        if i > max_iter:
+        if singular or i > max_iter:
             if not no_err:
-                raise ValueError(f'Maximum iterations exceeded, No convergence {d}')
+                raise ValueError(f'Maximum iterations exceeded, No convergence {d}' if not singular else f'The gradients are parallel at {qk_next}, No convergence')
             else:
                 success = False
                 break
@@ -129,7 +134,9 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         g[:] = f1, f2
 
-        _success = solve2x2(J, -g, alpha_beta)
+        singular = not solve2x2(J, -g, alpha_beta)
+        if singular:
+            alpha_beta[:] = 0.
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
@@ -141,7 +148,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
         i += 1
 
     if return_grads:
-        return (success, (qk_next, f1, f2, g1, g2)) if no_err else qk_next, f1, f2, g1, g2
+        return (success, (qk_next, f1, f2, g1, g2)) if no_err else (qk_next, f1, f2, g1, g2)
 
     return (success, qk_next) if no_err else qk_next
 
diff --git a/mmcore/numeric/calgorithms.pxd b/mmcore/numeric/calgorithms.pxd
index 1f35acf..dfd9b00 100644
--- a/mmcore/numeric/calgorithms.pxd
+++ b/mmcore/numeric/calgorithms.pxd
@@ -94,7 +94,12 @@ cdef inline bint cintersection_curve_point(Implicit3D surf1, Implicit3D surf2, d
 
     g[0]= -f[0]
     g[1]= -f[1]
-    success = solve2x2(J, g, alpha_beta)
+    if not solve2x2(J, g, alpha_beta):
+        # the gradients are parallel: there is no step, only a point that is already on both surfaces is an answer
+        if fabs(g[0]) > tol or fabs(g[1]) > tol:
+            return 0
+        alpha_beta[0] = 0.
+        alpha_beta[1] = 0.
     surf1.cgradient(qk[0], qk[1], qk[2], g1)
     surf2.cgradient(qk[0], qk[1], qk[2], g2)
 
@@ -131,7 +136,11 @@ cdef inline bint cintersection_curve_point(Implicit3D surf1, Implicit3D surf2, d
 
         g[0]= -f[0]
         g[1]= -f[1]
-        _success = solve2x2(J, g, alpha_beta)
+        if not solve2x2(J, g, alpha_beta):
+            if fabs(g[0]) > tol or fabs(g[1]) > tol:
+                return 0
+            alpha_beta[0] = 0.
+            alpha_beta[1] = 0.
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
-- 
2.43.0


From 612f25cf2d9082e6c444cd9cf1307fd2aa79161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 082/101] fix: plane-plane marching stops when a step leaves
 the domain or the planes are parallel

---
 mmcore/numeric/intersection/pp.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/intersection/pp.py b/mmcore/numeric/intersection/pp.py
index 7665027..fb99d8d 100644
--- a/mmcore/numeric/intersection/pp.py
+++ b/mmcore/numeric/intersection/pp.py
@@ -136,13 +136,15 @@ def freeform_step(s1, s2, uvb1, uvb2, tol=TOL):
     xyz1_new = s1(uvb1_better)
     xyz2_new = s2(uvb2_better)
 
-    return (xyz1_new, uvb1_better), (xyz2_new, uvb2_better) if np.linalg.norm(xyz1_new - xyz2_new) < tol else \
+    return ((xyz1_new, uvb1_better), (xyz2_new, uvb2_better)) if np.linalg.norm(xyz1_new - xyz2_new) < tol else \
         freeform_step(s1, s2, uvb1_better, uvb2_better, tol)
 
 
 def marching_step(s1, s2, uvb1, uvb2, tol=TOL):
 
     xyz_better, step = solve_marching(s1, s2, uvb1, uvb2, tol)
+    if xyz_better is None:
+        return
     uvb1_better = uvb1 + improve_uv(s1, uvb1, xyz_better)
     uvb2_better = uvb2 + improve_uv(s2, uvb2, xyz_better)
     print(uvb1_better,uvb2_better)
@@ -151,7 +153,7 @@ def marching_step(s1, s2, uvb1, uvb2, tol=TOL):
     xyz1_new = s1(uvb1_better)
     xyz2_new = s2(uvb2_better)
 
-    return (xyz1_new, uvb1_better), (xyz2_new, uvb2_better), step if np.linalg.norm(xyz1_new - xyz2_new) < tol else \
+    return ((xyz1_new, uvb1_better), (xyz2_new, uvb2_better), step) if np.linalg.norm(xyz1_new - xyz2_new) < tol else \
         marching_step(s1, s2, uvb1_better, uvb2_better, tol)
 
 
@@ -181,8 +183,14 @@ def marching_method(s1, s2, initial_uv1, initial_uv2, tol=TOL, max_iter=1000, no
     if no_ff:
         uv1, uv2 = initial_uv1, initial_uv2
     else:
-        (initial_xyz1, uv1), (initial_xyz2, uv2) = freeform_step(s1, s2, initial_uv1, initial_uv2, tol)
-    (xyz1, uv1_new), (xyz2, uv2_new), step = marching_step(s1, s2, uv1, uv2, tol)
+        res = freeform_step(s1, s2, initial_uv1, initial_uv2, tol)
+        if res is None:
+            return [], [], []
+        (initial_xyz1, uv1), (initial_xyz2, uv2) = res
+    res = marching_step(s1, s2, uv1, uv2, tol)
+    if res is None:
+        return [], [], []
+    (xyz1, uv1_new), (xyz2, uv2_new), step = res
 
     pts = [(xyz1, xyz2)]
     uvs = [(uv1_new, uv2_new)]
-- 
2.43.0


From e9bfabfb3d16dcc0399c44b71951ef80858b0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 083/101] fix: closest point on a curve skips candidates whose
 search failed

---
 mmcore/numeric/closest_point.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 42a97b5..7dd97cf 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -148,12 +148,11 @@ def _find_cls(bvh:_BVHN, point):
         elif left_sd > right_sd:
             return _find_closest_vicinity(bvh.right, point)
         else:
-            left, left_sd = _find_closest_vicinity(bvh.left, point)
-            right, right_sd = _find_closest_vicinity(bvh.right, point)
-            if left_sd <= right_sd:
-                return left_sd
-            else:
-                return right_sd
+            left = _find_closest_vicinity(bvh.left, point)
+            right = _find_closest_vicinity(bvh.right, point)
+            if left is None or right is None:
+                return right if left is None else left
+            return left if left[1] <= right[1] else right
 
 
 from mmcore.numeric.newton.bounded import bounded_newtons_method
@@ -182,9 +181,13 @@ def closest_point_on_nurbs_curve(curve: NURBSCurve, point: NDArray[float], tol=1
             res=newtons_method(objective, np.array([(a+ b)/2]), tol=tol)
             print(res)
 
-
+        if res is None:
+            return None
         return res, objective(res)
-    return True,sorted((inner(_curve.curve) for _curve in rr[0]),key=lambda x: x[1])[0]
+    candidates=[c for c in (inner(_curve.curve) for _curve in rr[0]) if c is not None]
+    if not candidates:
+        raise ValueError(f'the closest point search did not converge at {point}')
+    return True,sorted(candidates,key=lambda x: x[1])[0]
 
 
 
-- 
2.43.0


From 8011d4b00d96109c7c52488b6b40769fe6e2bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 084/101] fix: AVL lookup of a missing key raises KeyError

---
 mmcore/ds/tree/avl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 8fa2b83..54a892b 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -369,7 +369,10 @@ class AVL(object):
         return AVLPrinter(self)()
 
     def __getitem__(self, item):
-        return self.search(item).data
+        found = self.search(item)
+        if found is None:
+            raise KeyError(item)
+        return found.data
 
     def __setitem__(self, item, val):
         return self.insert(item, data=val)
-- 
2.43.0


From 3ceecc41c741b633b468805c15f4fe0d997e3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 085/101] fix: surface inversion falls back to the subdivision
 search when Newton fails

---
 mmcore/geom/surfaces/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 63602d3..adf87db 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -202,7 +202,11 @@ class Surface:
         else:
 
             initial = np.average(min(cpt, key=lambda x: x.bounding_box.volume()).uvs, axis=0)
-            return newtons_method(wrp1, initial)
+            uv = newtons_method(wrp1, initial)
+            if uv is None:
+                (umin, umax), (vmin, vmax) = self.interval()
+                return divide_and_conquer_min_2d(wrp, (umin, umax), (vmin, vmax), 1e-3)
+            return uv
     def evaluate_v2(self, u,v):
         return self.evaluate(np.array([u,v]))
     def implicit(self, pt):
-- 
2.43.0


From 3ea3fc3091744b365f183f1567fd9d79d5e8b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 086/101] fix: singular surface derivatives are reported, not
 used as a zero step

---
 mmcore/geom/curves/offset.py                        | 3 ++-
 mmcore/numeric/algorithms/pull_curve.py             | 3 ++-
 mmcore/numeric/intersection/ssx/sectioal_tangent.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 5b20a31..065106f 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -21,7 +21,8 @@ def _improve_uv(du, dv, xyz_old, xyz_better):
 
     max_det = max([xy, xz, yz], key=lambda Ab: det(Ab[0]))
     res = np.zeros(2)
-    solve2x2(max_det[0], np.array(max_det[1]), res)
+    if not solve2x2(max_det[0], np.array(max_det[1]), res):
+        raise ValueError('the vectors du and dv are linearly dependent')
     return res
 
 
diff --git a/mmcore/numeric/algorithms/pull_curve.py b/mmcore/numeric/algorithms/pull_curve.py
index b153932..f2b6ac0 100644
--- a/mmcore/numeric/algorithms/pull_curve.py
+++ b/mmcore/numeric/algorithms/pull_curve.py
@@ -40,7 +40,8 @@ class Sphere(Surface):
         dS_du, dS_dv = surf.derivatives(uv)
         dp_dt = curve_derivative(t, uv)
         uvd=np.zeros(2)
-        improve_uv(  dS_du,  dS_dv, surf.evaluate(uv),surf.evaluate(uv)+ dp_dt, uvd )
+        if improve_uv(  dS_du,  dS_dv, surf.evaluate(uv),surf.evaluate(uv)+ dp_dt, uvd ):
+            raise ValueError(f'the surface is singular at {uv}')
         #du_dt = np.linalg.solve(K, dp_dt[:2])
         return uvd
 
diff --git a/mmcore/numeric/intersection/ssx/sectioal_tangent.py b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
index 3f537eb..bc72f7d 100644
--- a/mmcore/numeric/intersection/ssx/sectioal_tangent.py
+++ b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
@@ -58,7 +58,8 @@ def improve_uv(du, dv, delta):
 
     max_det = max([xy, xz, yz], key=lambda Ab: det(Ab[0]))
     res = np.zeros(2)
-    solve2x2(max_det[0], np.array(max_det[1]), res)
+    if not solve2x2(max_det[0], np.array(max_det[1]), res):
+        raise ValueError('the vectors du and dv are linearly dependent')
     return res
 
 
-- 
2.43.0


From 91c0a4d8488c835c4a4263a8c4b75ffc59551216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 087/101] fix: the best-conditioned coordinate pair is chosen
 by the magnitude of its determinant; magnitudes are compared with magnitudes

---
 mmcore/geom/curves/offset.py                        | 2 +-
 mmcore/numeric/intersection/ssx/sectioal_tangent.py | 2 +-
 mmcore/numeric/intersection/ssx/surface_surface.py  | 2 +-
 mmcore/numeric/newton/constrained.py                | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 065106f..71c7335 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -19,7 +19,7 @@ def _improve_uv(du, dv, xyz_old, xyz_better):
     xz = np.array([[dxdu, dxdv], [dzdu, dzdv]]), [delta[0], delta[2]]
     yz = np.array([[dydu, dydv], [dzdu, dzdv]]), [delta[1], delta[2]]
 
-    max_det = max([xy, xz, yz], key=lambda Ab: det(Ab[0]))
+    max_det = max([xy, xz, yz], key=lambda Ab: abs(det(Ab[0])))
     res = np.zeros(2)
     if not solve2x2(max_det[0], np.array(max_det[1]), res):
         raise ValueError('the vectors du and dv are linearly dependent')
diff --git a/mmcore/numeric/intersection/ssx/sectioal_tangent.py b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
index bc72f7d..2a1136c 100644
--- a/mmcore/numeric/intersection/ssx/sectioal_tangent.py
+++ b/mmcore/numeric/intersection/ssx/sectioal_tangent.py
@@ -56,7 +56,7 @@ def improve_uv(du, dv, delta):
     xz = np.array([[dxdu, dxdv], [dzdu, dzdv]]), [delta[0], delta[2]]
     yz = np.array([[dydu, dydv], [dzdu, dzdv]]), [delta[1], delta[2]]
 
-    max_det = max([xy, xz, yz], key=lambda Ab: det(Ab[0]))
+    max_det = max([xy, xz, yz], key=lambda Ab: abs(det(Ab[0])))
     res = np.zeros(2)
     if not solve2x2(max_det[0], np.array(max_det[1]), res):
         raise ValueError('the vectors du and dv are linearly dependent')
diff --git a/mmcore/numeric/intersection/ssx/surface_surface.py b/mmcore/numeric/intersection/ssx/surface_surface.py
index 2b8375c..9f3690f 100644
--- a/mmcore/numeric/intersection/ssx/surface_surface.py
+++ b/mmcore/numeric/intersection/ssx/surface_surface.py
@@ -64,7 +64,7 @@ def improve_uv(du, dv, xyz_old, xyz_better, res):
     xz = np.array([[dxdu, dxdv], [dzdu, dzdv]]), [delta[0], delta[2]]
     yz = np.array([[dydu, dydv], [dzdu, dzdv]]), [delta[1], delta[2]]
 
-    max_det = max([xy, xz, yz], key=lambda Ab: det(Ab[0]))
+    max_det = max([xy, xz, yz], key=lambda Ab: abs(det(Ab[0])))
 
 
     return solve2x2(max_det[0], np.array(max_det[1]), res)
diff --git a/mmcore/numeric/newton/constrained.py b/mmcore/numeric/newton/constrained.py
index e3764d1..7229848 100644
--- a/mmcore/numeric/newton/constrained.py
+++ b/mmcore/numeric/newton/constrained.py
@@ -49,7 +49,7 @@ def opt1(s1,s2,initial_point,orig,normal):
         m = (p + q) / 2  # Midpoint
         d1=scalar_dot(p-np.array(orig),normal)
         d2=scalar_dot(q - np.array(orig), normal)
-        if abs(d1)>d2:
+        if abs(d1)>abs(d2):
             return d1
         else:
             return d2
-- 
2.43.0


From 9d5ec589302514e3574744182a5b8ec458b6b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 088/101] fix: point inversion measures the step and the
 distance as lengths

---
 mmcore/numeric/algorithms/point_inversion.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index 02adf2a..fd0225c 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -65,7 +65,7 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         C_prime = curve.derivative(ui1)
 
         if abs(scalar_dot(C_prime, C_point - P)) / (
-                scalar_norm(C_prime) * scalar_norm(C_prime - P)) <= tol2:
+                scalar_norm(C_prime) * scalar_norm(C_point - P)) <= tol2:
             break
         C_double_prime = curve.second_derivative(ui1)
         ui = ui1
@@ -180,8 +180,7 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         ui1vi1 = uivi - delta
 
         # Check convergence criteria
-        if np.linalg.norm(ui1vi1 - uivi) * (np.linalg.norm(du) + np.linalg.norm(
-                dv)) <= tol1:
+        if np.linalg.norm(delta[0] * np.asarray(du) + delta[1] * np.asarray(dv)) <= tol1:
             break
         new_pt=surface.evaluate(ui1vi1)
         if scalar_norm( new_pt- P) <= tol1:
-- 
2.43.0


From 10a798d34fd08a92b4a1611e5d3d0c1975796cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 089/101] fix: second fundamental form on a surface gets its
 arguments in order

---
 mmcore/geom/surfaces/fundamental_forms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index 3f0cd02..817c88f 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -331,7 +331,7 @@ def dupin_indicatrix_on_surface(surface,u,v):
     n = scalar_cross(du, dv)
     scalar_normalize(n)
 
-    L, M, N = second_fundamental_form(np.array(n), duu, duv, dvv)
+    L, M, N = second_fundamental_form(duu, duv, dvv, np.array(n))
     k1, k2 = principal_curvatures(E, F, G, L, M, N)
     return dupin_indicatrix(k1,k2)
 
@@ -356,7 +356,7 @@ def classify_point_on_surface(surface,u,v, use_dupin=False, return_indicatrix=Fa
     n=scalar_cross(du,dv)
     scalar_normalize(n)
 
-    L,M,N=second_fundamental_form(np.array(n), duu, duv, dvv)
+    L,M,N=second_fundamental_form(duu, duv, dvv, np.array(n))
 
     if use_dupin:
         k1, k2 = principal_curvatures(E, F, G, L, M, N)
-- 
2.43.0


From 6f21a997c8c0a99c914f80d5b21b110f4f2e52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 090/101] fix: closest point on a line projects on its
 direction

---
 mmcore/numeric/intersection/pp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/pp.py b/mmcore/numeric/intersection/pp.py
index fb99d8d..5ce78c1 100644
--- a/mmcore/numeric/intersection/pp.py
+++ b/mmcore/numeric/intersection/pp.py
@@ -82,8 +82,7 @@ def _plane_plane_plane_intersect(first, second, third, tol=1e-6):
 
 
 def _vector_projection(a, b):
-    bn = np.dot(b, b)
-    return np.outer(a, b).sum(axis=-1) / bn
+    return np.dot(a, b) / np.dot(b, b) * b
 
 
 def _closest_point_on_line(line, point):
-- 
2.43.0


From d474126b4eca30ee10156200eb86c51f886f1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 091/101] fix: ParametricCurve divides differences by the step

---
 mmcore/geom/parametric.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 28805f1..34c16ec 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -68,9 +68,9 @@ cdef class ParametricCurve:
         t2 = t - DEFAULT_H
         self.cevaluate(t1,v1)
         self.cevaluate(t2,v2)
-        result[0]=(v1[0]- v2[0])*(0.5*DEFAULT_H)
-        result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-        result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+        result[0]=(v1[0]- v2[0])/ (2 * DEFAULT_H)
+        result[1] = (v1[1] - v2[1]) / (2 * DEFAULT_H)
+        result[2] = (v1[2] - v2[2]) / (2 * DEFAULT_H)
 
 
     cpdef double[:] end(self):
@@ -110,9 +110,9 @@ cdef class ParametricCurve:
             t2 = t - DEFAULT_H
             self.cderivative(t1,v1)
             self.cderivative(t2,v2)
-            result[0] = (v1[0] - v2[0]) * (0.5 * DEFAULT_H)
-            result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-            result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+            result[0] = (v1[0] - v2[0]) / (2 * DEFAULT_H)
+            result[1] = (v1[1] - v2[1]) / (2 * DEFAULT_H)
+            result[2] = (v1[2] - v2[2]) / (2 * DEFAULT_H)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From 0579344f4fd80f7a0c6e1eaf1c2e068d2e53fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 092/101] fix: curvature of an intersection uses the components
 of the tangent

---
 mmcore/geom/surfaces/__init__.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index adf87db..d2c9c82 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -85,9 +85,19 @@ def compute_intersection_curvature(Su1, Sv1, Suu1, Suv1, Svv1, Su2, Sv2, Suu2, S
     L2 = np.dot(Suu2, N2)
     M2 = np.dot(Suv2, N2)
     N2_2 = np.dot(Svv2, N2)
-    k1 = (L1 * (np.dot(Su1, T)) ** 2 + 2 * M1 * np.dot(Su1, T) * np.dot(Sv1, T) + N1_2 * (np.dot(Sv1, T)) ** 2)
-    k2 = (L2 * (np.dot(Su2, T)) ** 2 + 2 * M2 * np.dot(Su2, T) * np.dot(Sv2, T) + N2_2 * (np.dot(Sv2, T)) ** 2)
-    curvature_vector = (k1 * N1 + k2 * N2) / (1 - cos_theta ** 2)
+    # Components of the tangent vector in the parametric directions of each surface
+    du1, dv1 = np.linalg.solve(
+        [[np.dot(Su1, Su1), np.dot(Su1, Sv1)], [np.dot(Su1, Sv1), np.dot(Sv1, Sv1)]],
+        [np.dot(Su1, T), np.dot(Sv1, T)],
+    )
+    du2, dv2 = np.linalg.solve(
+        [[np.dot(Su2, Su2), np.dot(Su2, Sv2)], [np.dot(Su2, Sv2), np.dot(Sv2, Sv2)]],
+        [np.dot(Su2, T), np.dot(Sv2, T)],
+    )
+    # Normal curvatures in the direction of the tangent vector
+    k1 = L1 * du1 ** 2 + 2 * M1 * du1 * dv1 + N1_2 * dv1 ** 2
+    k2 = L2 * du2 ** 2 + 2 * M2 * du2 * dv2 + N2_2 * dv2 ** 2
+    curvature_vector = ((k1 - k2 * cos_theta) * N1 + (k2 - k1 * cos_theta) * N2) / (1 - cos_theta ** 2)
 
     # Compute the curvature magnitude
     #curvature = np.linalg.norm(curvature_vector)
-- 
2.43.0


From c2e37858410c43847d5934b87050cb001ae7f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 093/101] fix: plane_from_eq returns a point of the plane

---
 mmcore/numeric/plane/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 5abe193..c038100 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -105,7 +105,8 @@ def plane_from_eq(plane_eq):
     # Normal vector to the plane
     n = np.array([a, b, c])
     N = scalar_unit(n)
-    origin = N*d
+    # The point of the plane closest to the world origin: a*x + b*y + c*z + d = 0
+    origin = np.asarray(N) * (-d / scalar_norm(n))
     # Generate a vector on the plane
     return origin,N
 
-- 
2.43.0


From cb8f6ea2799bc03686cc634d16826445927d3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 094/101] fix: curve trees follow interval, trim and offset

---
 mmcore/geom/curves/curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 1c6fe1e..04b97ed 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -58,6 +58,7 @@ class Curve:
 
         self._evaluate_cached.cache_clear()
         self._evaluate_length_cached.cache_clear()
+        self._tree = None
 
     @property
     def tree(self):
@@ -154,6 +155,7 @@ class Curve:
 
     def extend(self, start=0., end=0.):
         self._interval = (self._interval[0] - start, self._interval[1] + end)
+        self._tree = None
 
     def normal(self, t):
         """
@@ -384,6 +386,7 @@ class TrimmedCurve(Curve):
     @start.setter
     def start(self, v):
         self.trim = (float(v), self.end)
+        self._tree = None
 
     @property
     def end(self):
@@ -392,6 +395,7 @@ class TrimmedCurve(Curve):
     @end.setter
     def end(self, v):
         self.trim = (self.start, float(v))
+        self._tree = None
 
     def interval(self):
         return self.trim
@@ -411,6 +415,7 @@ class CurveWrapper(Curve):
 
     def set_interval(self, t: tuple[float, float]):
         self._interval = t
+        self._tree = None
 
     def evaluate(self, t):
         return self.func(t)
-- 
2.43.0


From e5a71d9b93cafe4d84699d73eb843c2660df8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 095/101] fix: NURBSCurve.__setstate__ copies the knots and
 interval of the state

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index a8a5be2..e8bda52 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1261,11 +1261,11 @@ cdef class NURBSCurve(ParametricCurve):
             self._control_points[i, 2] = state['_control_points'][i][2]
             self._control_points[i, 3] = state['_weights'][i]
 
-        self._knots = state['_knots']
+        self._knots = np.array(state['_knots'], dtype=float)
         self._degree = state['_degree']
         self._periodic = state['_periodic']
         self.weights = state['_control_points'][:,3]
-        self._interval = state['_interval']
+        self._interval = np.array(state['_interval'], dtype=float)
         self.knots_update_hook()
 
 
-- 
2.43.0


From f8fc775cada029d586307922b155074fcf376aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 096/101] fix: implicit point searches give up after max_iter
 steps

---
 mmcore/numeric/algorithms/implicit_point.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 57fdcad..bf8d3d5 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -11,13 +11,14 @@ from mmcore.numeric import scalar_dot, scalar_cross
 from mmcore.numeric.fdm import Grad
 
 
-def curve_point(func, initial_point: np.ndarray = None, delta=0.001, grad=None):
+def curve_point(func, initial_point: np.ndarray = None, delta=0.001, grad=None, max_iter=1000):
     """
     Calculates the point on the curve along the "steepest path".
     @param func:
     @param grad:
     @param initial_point:
     @param delta:
+    @param max_iter: the number of steps after which the search is given up (ValueError)
     @return: point on the curve along the "steepest path"
     @type: np.ndarray
 
@@ -35,7 +36,11 @@ def curve_point(func, initial_point: np.ndarray = None, delta=0.001, grad=None):
 
     new_point = initial_point + f * g
     d = np.linalg.norm(initial_point - new_point)
+    i = 0
     while delta < d:
+        if i > max_iter:
+            raise ValueError(f'Maximum iterations exceeded, No convergence {d}')
+        i += 1
         initial_point = new_point
         f = func(initial_point)
         g = grad(initial_point)
@@ -169,11 +174,15 @@ def _curve_point_newton_step(func: callable, x: np.ndarray, grad: callable):
     return x + t * g
 
 
-def _curve_point2(func, x0, tol=1e-5, grad=None):
+def _curve_point2(func, x0, tol=1e-5, grad=None, max_iter=1000):
     grad = _resolve_grad(func, grad)
     x0 = np.copy(x0)
     delta = 1.0
+    i = 0
     while delta >= tol:
+        if i > max_iter:
+            raise ValueError(f'Maximum iterations exceeded, No convergence {delta}')
+        i += 1
         xi1, yi1 = _curve_point_newton_step(func, x0, grad=grad)
         delta = abs(x0[0] - xi1) + abs(x0[1] - yi1)
         x0[0] = xi1
@@ -196,9 +205,10 @@ def _implicit_tangent(d1, d2):
     return unit(make_perpendicular(d1, d2))
 
 
-def surface_point(fun, p0, grad=None, tol=1e-8):
+def surface_point(fun, p0, grad=None, tol=1e-8, max_iter=1000):
     p_i = p0
     grad = _resolve_grad(fun, grad)
+    i = 0
     while True:
         fi, gradfi = (fun(p_i), grad(p_i))
         cc = scalar_dot(gradfi, gradfi)
@@ -214,7 +224,10 @@ def surface_point(fun, p0, grad=None, tol=1e-8):
 
         if delta < tol:
             break
+        if i > max_iter:
+            raise ValueError(f'Maximum iterations exceeded, No convergence {delta}')
 
+        i += 1
         p_i = p_i1
 
     #fi, gradfi = fun(p_i), grad(p_i)
-- 
2.43.0


From b8de9f39fa830111fe9d3899779d2f8dba75150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 097/101] fix: foot_point gives up after max_iter steps

---
 mmcore/numeric/closest_point.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/closest_point.py b/mmcore/numeric/closest_point.py
index 7dd97cf..8000b6b 100644
--- a/mmcore/numeric/closest_point.py
+++ b/mmcore/numeric/closest_point.py
@@ -191,7 +191,7 @@ def closest_point_on_nurbs_curve(curve: NURBSCurve, point: NDArray[float], tol=1
 
 
 
-def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=20):
+def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=20, max_iter=1000):
     """
     Find the foot point on the parametric surface S(s, t) closest to the given point P.
     """
@@ -200,6 +200,7 @@ def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=2
         partial_derivatives = lambda uv: _pde(uv).T
     s, t = st = np.array([s0, t0])
 
+    i = 0
     while True:
         p_i = S(st)
         e_s, e_t = partial_derivatives(st)
@@ -223,6 +224,9 @@ def foot_point(S, P, s0, t0, partial_derivatives=None, epsilon=1e-6, alpha_max=2
         # Check convergence
         if np.linalg.norm(q_i - p_i) < epsilon:
             break
+        if i > max_iter:
+            raise ValueError(f'Maximum iterations exceeded, No convergence {np.linalg.norm(q_i - p_i)}')
+        i += 1
         # Newton step for the foot point on the tangent parabola
         a0 = scalar_dot(P - p_i, f1)
         a1 = 2 * scalar_dot(f2, P - p_i) - scalar_dot(f1, f1)
-- 
2.43.0


From 53519f709589c312cdf4e7402f2398195fe0bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 098/101] fix: Interval.from_tuple builds the interval from the
 two values

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b5d0311..6c473cd 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -185,7 +185,7 @@ class Interval:
     @classmethod
     def from_tuple(cls, t):
 
-        return cls(cls.from_tuple(t[0]), cls.from_tuple(t[1]))
+        return cls(t[0], t[1])
 
     def to_tuple(self):
 
-- 
2.43.0


From 34e227b5305df134f1fc4a4511d2772f5bfd913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 099/101] fix: rk45_vector gives up after max_iter steps

---
 mmcore/numeric/integrate/rk45.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/integrate/rk45.pyx b/mmcore/numeric/integrate/rk45.pyx
index bf7c724..ac82619 100644
--- a/mmcore/numeric/integrate/rk45.pyx
+++ b/mmcore/numeric/integrate/rk45.pyx
@@ -2,7 +2,7 @@ import numpy as np
 
 
 
-def rk45_vector(f, t0, y0, t1, tol=1e-6, hmax=0.1, hmin=1e-6):
+def rk45_vector(f, t0, y0, t1, tol=1e-6, hmax=0.1, hmin=1e-6, max_iter=1000000):
     def rk_step(f, t, y, h):
         k1 = h * f(t, y)
         k2 = h * f(t + 1 / 4 * h, y + 1 / 4 * k1)
@@ -42,7 +42,11 @@ def rk45_vector(f, t0, y0, t1, tol=1e-6, hmax=0.1, hmin=1e-6):
     t = t0
     y = y0
 
+    i = 0
     while t < t1:
+        if i > max_iter:
+            raise ValueError(f'Maximum iterations exceeded, the tolerance is not reached at {t}')
+        i += 1
         if t + h > t1:
             h = t1 - t
 
-- 
2.43.0


From a1f0a12bfbd861d1e88161b4507114b37d9bc4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 100/101] fix: BoundingBox.split4 cuts each axis at its own
 parameter

---
 mmcore/geom/bvh/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 8420759..d09d803 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -56,8 +56,8 @@ class BoundingBox:
         return self.is_finite() and self.is_non_zero_volume() and self.is_consistency()
 
     def split4(self, axis1, axis2, parameter1=0.5, parameter2=0.5):
-        a,b = self.split(axis2, parameter1)
-        return a.split(axis1,parameter2) + b.split(axis1,parameter2)
+        a,b = self.split(axis2, parameter2)
+        return a.split(axis1,parameter1) + b.split(axis1,parameter1)
 
     def split8(self, axis1=0, axis2=1, axis3=2, parameter1=0.5, parameter2=0.5, parameter3=0.5):
         return list(reduce(lambda x,y: x+y, (item.split(axis1, parameter1) for item in self.split4(axis2, axis3, parameter2, parameter3))))
-- 
2.43.0


From 627443936148a3644c8e2bb47a9580c56eac3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 101/101] fix: dqr.find_intersections subdivides the second
 surface at its own midpoints and tries every pair of quarters

---
 mmcore/numeric/intersection/ssx/dqr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/intersection/ssx/dqr.py b/mmcore/numeric/intersection/ssx/dqr.py
index 7851ffb..414c869 100644
--- a/mmcore/numeric/intersection/ssx/dqr.py
+++ b/mmcore/numeric/intersection/ssx/dqr.py
@@ -53,8 +53,8 @@ def find_intersections(
             ((u1_range[0], u1_mid), (v1_mid, v1_range[1])),
         ]
         sb = [
-            ((u2_range[0], u1_mid), (v2_range[0], v1_mid)),
-            ((u2_mid, u2_range[1]), (v2_range[0], v1_mid)),
+            ((u2_range[0], u2_mid), (v2_range[0], v2_mid)),
+            ((u2_mid, u2_range[1]), (v2_range[0], v2_mid)),
             ((u2_mid, u2_range[1]), (v2_mid, v2_range[1])),
             ((u2_range[0], u2_mid), (v2_mid, v2_range[1])),
         ]
@@ -71,7 +71,7 @@ def find_intersections(
         for i in range(4):
             for j in range(4):
                 if not visited[i, j]:
-                    visited[i, j] = visited[j, i] = True
+                    visited[i, j] = True
                     if np.any(ixs[i]) and step>=2:
                         continue
                     else:
-- 
2.43.0

