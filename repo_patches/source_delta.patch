From 67f0f7e8f7c9ba04e8a24e3f213cf4d2ceb8b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:37 +0000
Subject: [PATCH 01/26] fix: Value.prettified passes the number, not the value,
 to prettify

With the Value itself round() raises TypeError on Python 3, and the rounded
entries carried the original unit.
---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index 818453b..abf70c2 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -170,7 +170,7 @@ class Value(object):
     @cached_property
     def prettified(self):
         from blmath import units as unit_conversions
-        return unit_conversions.prettify(self, self.units)
+        return unit_conversions.prettify(self.value, self.units)
 
     def for_json(self):
         '''
-- 
2.43.0


From 765d96ed281d67bc86fabc8ff8f8ebcfcad8fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 02/26] fix: Value.round rounds the number

round_to() applies round() to a Value, which raises TypeError on Python 3.
---
 blmath/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/value.py b/blmath/value.py
index abf70c2..53bda5c 100644
--- a/blmath/value.py
+++ b/blmath/value.py
@@ -48,7 +48,7 @@ class Value(object):
 
     def round(self, nearest):
         from blmath.numerics import round_to
-        return round_to(self, nearest)
+        return round_to(self.value, nearest)
 
     def __float__(self):
         return self.value
-- 
2.43.0


From 0ac3ea715a4dedd332be6b000bd9c017b86183be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 03/26] fix: units.factor checks the units also when both are
 the same

The shortcut for equal units skipped the class check (and accepted unknown
units).
---
 blmath/units.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/blmath/units.py b/blmath/units.py
index 352f7a4..8f950bf 100644
--- a/blmath/units.py
+++ b/blmath/units.py
@@ -141,8 +141,6 @@ class Units(object):
         '''
         if (from_units is None or not len(from_units)) and (to_units is None or not len(to_units)): # pylint: disable=len-as-condition
             return 1.0
-        if from_units == to_units:
-            return 1.0
         if self._units[from_units][0] != self._units[to_units][0]:
             raise ValueError("Can't convert between apples and oranges (%s and %s)" % (from_units, to_units))
         if units_class and self._units[from_units][0] != units_class:
-- 
2.43.0


From 73fce1277ed523547275317df6f62cee025e5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 04/26] fix: partition_by_length uses int, numpy has no np.int

---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index d5799f2..3cde8fa 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -205,7 +205,7 @@ class Polyline(object):
             if num_segments <= 1:
                 new_v = np.vstack((new_v, start_point.reshape(-1, 3)))
             else:
-                new_v = np.vstack((new_v, partition_segment(start_point, end_point, np.int(num_segments), endpoint=False)))
+                new_v = np.vstack((new_v, partition_segment(start_point, end_point, int(num_segments), endpoint=False)))
 
         if not self.closed:
             indices_of_orig_vertices.append(len(new_v))
-- 
2.43.0


From aa20b72b0888d8f2eeb2f9ec733819ea8622cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:36 +0000
Subject: [PATCH 05/26] fix: line_intersect3 finds the intersection wherever
 the defining points lie

---
 blmath/geometry/segment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index de1968e..5d460bb 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -138,16 +138,17 @@ def line_intersect3(p0, q0, p1, q1):
     # g would be zero length and we can't continue
     if np.all(p0 == p1) or np.all(p0 == q1):
         return p0
-    if np.all(q0 == p1) or np.all(p0 == q1):
+    if np.all(q0 == p1) or np.all(q0 == q1):
         return q0
     g = p0 - p1 # line between to complete a triangle
     h = np.cross(f, g)
     k = np.cross(f, e)
     h_ = np.linalg.norm(h)
     k_ = np.linalg.norm(k)
-    if h_ == 0 or k_ == 0:
+    if k_ == 0:
         # there is no intesection; either parallel (k=0) or colinear (both=0) lines
         return None
     l = h_ / k_ * e
-    sign = -1 if np.all(h / h_ == k / k_) else +1
+    # h and k are parallel; only their relative orientation matters
+    sign = -1 if np.dot(h, k) > 0 else +1
     return p0 + sign * l
-- 
2.43.0


From 67655347e7a8939fb27210bf28e6bda50ca2469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 06/26] fix: rotation_from_up_and_look refuses colinear
 directions despite rounding

---
 blmath/geometry/transform/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index 18b6e07..a63c37c 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -74,7 +74,7 @@ def rotation_from_up_and_look(up, look):
         raise ValueError("Singular look")
     y = up / np.linalg.norm(up)
     z = look - np.dot(look, y)*y
-    if np.linalg.norm(z) == 0:
+    if np.linalg.norm(z) <= 1e-12 * np.linalg.norm(look): # all that is left of a colinear look is rounding error
         raise ValueError("up and look are colinear")
     z = z / np.linalg.norm(z)
     x = np.cross(y, z)
-- 
2.43.0


From 753ca8b465e4630f61fc3792f521c09b48ac4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 07/26] fix: a closed Polyline may have no vertices

Edges of a closed chain without vertices were derived by writing to the
last row of an empty array, which raised IndexError.
---
 blmath/geometry/primitives/polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/polyline.py b/blmath/geometry/primitives/polyline.py
index 3cde8fa..5160959 100644
--- a/blmath/geometry/primitives/polyline.py
+++ b/blmath/geometry/primitives/polyline.py
@@ -75,7 +75,7 @@ class Polyline(object):
 
         edges = np.vstack([np.arange(num_edges), np.arange(num_edges) + 1]).T
 
-        if self.closed:
+        if self.closed and num_edges > 0:
             edges[-1][1] = 0
 
         edges.flags.writeable = False
-- 
2.43.0


From f254c94b10ccb80e335b40cc7127c27a2d9eb7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 08/26] fix: partition keeps points that repeat

---
 blmath/geometry/segment.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/blmath/geometry/segment.py b/blmath/geometry/segment.py
index 5d460bb..26c04cc 100644
--- a/blmath/geometry/segment.py
+++ b/blmath/geometry/segment.py
@@ -20,19 +20,15 @@ def partition(v, partition_size=5):
 
     diffs = v[dst] - v[src]
 
-    sqdis = np.square(diffs)
-    dists = np.sqrt(np.sum(sqdis, axis=1))
-
-    unitds = diffs / dists[:, np.newaxis]
-    widths = dists / partition_size
-
-    domain = widths[:, np.newaxis] * np.arange(0, partition_size)
-    domain = domain.flatten()[:, np.newaxis]
+    # Fractions of each segment, rather than lengths along a unit vector, so
+    # that repeated points (segments of zero length) are fine too.
+    domain = np.arange(0, partition_size) / float(partition_size)
+    domain = np.tile(domain, len(diffs))[:, np.newaxis]
 
     points = np.repeat(v[:-1], partition_size, axis=0)
-    unitds = np.repeat(unitds, partition_size, axis=0)
+    diffs = np.repeat(diffs, partition_size, axis=0)
 
-    filled = points + (unitds * domain)
+    filled = points + (diffs * domain)
 
     return np.vstack((filled, v[-1]))
 
-- 
2.43.0


From 6ca457a82a46c34445c8d22094c95a24356749df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 09/26] fix: CompositeTransform.convert_units returns the index
 of the transform, like scale

---
 blmath/geometry/transform/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/composite.py b/blmath/geometry/transform/composite.py
index 5e280d2..7e99fd4 100644
--- a/blmath/geometry/transform/composite.py
+++ b/blmath/geometry/transform/composite.py
@@ -191,7 +191,7 @@ class CompositeTransform(object):
             to_units=to_units,
             units_class='length'
         )
-        self.scale(factor)
+        return self.scale(factor)
 
     def translate(self, vector):
         '''
-- 
2.43.0


From dd91b542f2f60c2644a292d32c922f75846ec014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 10/26] fix: find_rigid_transform aligns coplanar points
 despite rounding

---
 blmath/geometry/transform/rigid_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 0335b4d..5234a53 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -33,7 +33,7 @@ def find_rigid_transform(a, b, visualize=False):
     R = v.dot(u.T)
 
     if scipy.linalg.det(R) < 0:
-        if np.any(s == 0): # This is only valid in the noiseless case; see the paper
+        if np.any(s <= 1e-10 * np.max(s)): # Zero up to rounding. This is only valid in the noiseless case; see the paper
             v[:, 2] = -v[:, 2]
             R = v.dot(u.T)
         else:
-- 
2.43.0


From db9c41ce02609f3c4e18b1492a50fd3a25d089ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 11/26] fix: find_rigid_rotation scales a single point by the
 ratio of the points, not of the frames built from them

---
 blmath/geometry/transform/rigid_transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rigid_transform.py b/blmath/geometry/transform/rigid_transform.py
index 5234a53..4865ff2 100644
--- a/blmath/geometry/transform/rigid_transform.py
+++ b/blmath/geometry/transform/rigid_transform.py
@@ -71,6 +71,9 @@ def find_rigid_rotation(a, b, allow_scaling=False):
     assert a.shape[0] == 3
     assert b.shape[0] == 3
 
+    if allow_scaling:
+        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
+
     if a.size == 3:
         cx = np.cross(a.ravel(), b.ravel())
         a = np.hstack((col(a), col(cx)))
@@ -86,7 +89,6 @@ def find_rigid_rotation(a, b, allow_scaling=False):
         R = v.dot(u.T)
 
     if allow_scaling:
-        scalefactor = scipy.linalg.norm(b) / scipy.linalg.norm(a)
         R = R * scalefactor
 
     return R
-- 
2.43.0


From 0f0981c31dacc3f602f2cad9926b51dc786687ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 12/26] fix: isomorphism refuses dependent bases despite
 rounding

---
 blmath/numerics/linalg/isomorphism.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/isomorphism.py b/blmath/numerics/linalg/isomorphism.py
index f7bd94f..2e6b367 100644
--- a/blmath/numerics/linalg/isomorphism.py
+++ b/blmath/numerics/linalg/isomorphism.py
@@ -38,9 +38,9 @@ def isomorphism(frame1, frame2):
             raise DimensionalityError('Extra dimensions: %s' % L_frame2_e)
         elif L_frame1_e.shape[1] != L_frame2_e.shape[1]:
             raise DimensionalityError('Basis vectors must all have the same dimension.')
-        elif np.linalg.det(L_frame1_e) == 0:
+        elif np.linalg.matrix_rank(L_frame1_e) < max(L_frame1_e.shape):
             raise LinearDependenceError('%s is linearly dependent.' % frame1)
-        elif np.linalg.det(L_frame2_e) == 0:
+        elif np.linalg.matrix_rank(L_frame2_e) < max(L_frame2_e.shape):
             raise LinearDependenceError('%s is linearly dependent.' % frame2)
 
     _validate_frames(frame1, frame2)
-- 
2.43.0


From 68d95b0844b31d39aeae87a04a43f4d7ba771d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 13/26] fix: orthonormalize accepts a single vector of integers

---
 blmath/numerics/linalg/gram_schmidt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/gram_schmidt.py b/blmath/numerics/linalg/gram_schmidt.py
index 8fa2fd8..4d471ff 100644
--- a/blmath/numerics/linalg/gram_schmidt.py
+++ b/blmath/numerics/linalg/gram_schmidt.py
@@ -41,7 +41,7 @@ def orthonormalize(v, indices=None):
     if indices is None:
         indices = range(len(v))
 
-    res = orthogonalize(v)
+    res = orthogonalize(v).astype(float)
 
     for idx in indices:
         v = res[idx]
-- 
2.43.0


From a7875556673fa21f8f25e6c89dfdbefab75d7821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 14/26] fix: bsxfun expands a column against a row

---
 blmath/numerics/matlab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/matlab.py b/blmath/numerics/matlab.py
index 0c90921..e1b2b3c 100644
--- a/blmath/numerics/matlab.py
+++ b/blmath/numerics/matlab.py
@@ -6,7 +6,7 @@ def bsxfun(oper, a, b):
         if a.shape[0] == 1:
             return oper(np.tile(a, (b.shape[0], 1)), b)
         else:
-            return oper(np.tile(a, (1, b.shape[1], b)))
+            return oper(np.tile(a, (1, b.shape[1])), b)
     else:
         raise Exception('_bsxfun failure')
 
-- 
2.43.0


From d5378724812b969a5f1f567cc1f24f6083f6d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 15/26] fix: rotate_to_xz_plane accepts a normal

---
 blmath/geometry/transform/rotation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/transform/rotation.py b/blmath/geometry/transform/rotation.py
index a63c37c..858f1b9 100644
--- a/blmath/geometry/transform/rotation.py
+++ b/blmath/geometry/transform/rotation.py
@@ -34,8 +34,10 @@ def rotate_to_xz_plane(points, normal=None):
     else:
         translated, p0 = points, None
 
-    if not normal:
+    if normal is None:
         normal = estimate_normal(points)
+    else:
+        normal = normal / np.linalg.norm(normal)
 
     e_2 = np.array([0., 1., 0.])
     theta = np.arccos(np.dot(e_2, normal))
-- 
2.43.0


From 4ff50308182dcba5328a7c941f5cb48007537fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 16/26] fix: flattening convex hulls without np.mat, which is
 gone from numpy

---
 blmath/geometry/convexify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 84518ee..3ce77f5 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -69,7 +69,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
     hull_vertices = ConvexHull(projected).vertices
     rotated_hull = rotated[hull_vertices]
 
-    R_inv = np.array(np.mat(R.T).I)
+    R_inv = np.linalg.inv(R.T)
     inv_rotated = np.dot(rotated_hull, R_inv)
 
     if p0 is not None:
-- 
2.43.0


From d3057e7eb2cea5c06342fabe4647b468c43b2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 17/26] fix: the cross section nearest to a neighborhood is
 open when its chain is open

---
 blmath/geometry/primitives/plane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 1d4339c..0cf16c0 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -419,7 +419,8 @@ class Plane(object):
 
         # number of components will not be large in practice, so this loop won't hurt
         means = [np.mean(kdtree.query(component)[0]) for component in components]
-        return [Polyline(components[np.argmin(means)], closed=True)]
+        nearest = np.argmin(means)
+        return [Polyline(components[nearest], closed=components_closed[nearest])]
 
 
 def main():
-- 
2.43.0


From 9b6189da810f35971f48664cd1b7a9ca008b688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 18/26] fix: the convex hull of an empty curve without vertices
 is that curve

---
 blmath/geometry/convexify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/geometry/convexify.py b/blmath/geometry/convexify.py
index 3ce77f5..1f2b094 100644
--- a/blmath/geometry/convexify.py
+++ b/blmath/geometry/convexify.py
@@ -22,7 +22,7 @@ def convexify_planar_curve(polyline, flatten=False, want_vertices=False, normal=
         return convexify_and_flatten_planar_curve(polyline, want_vertices, normal)
 
     v = polyline.v
-    if len(v) <= 1:
+    if v is None or len(v) <= 1:
         return polyline
 
     if normal is None:
@@ -57,7 +57,7 @@ def convexify_and_flatten_planar_curve(polyline, want_vertices=False, normal=Non
         - want_vertices:
             Boolean; do you want the indices to the convex hull vertices?
     '''
-    if len(polyline.v) <= 1:
+    if polyline.v is None or len(polyline.v) <= 1:
         return polyline
 
     rotated, R, p0 = rotate_to_xz_plane(polyline.v, normal=normal)
-- 
2.43.0


From 1b7fff6c3a92f35d3fe3554e6cb332f8bf4f5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 19/26] fix: multiplying a block-sparse matrix with dense rows
 or columns by a vector

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 68d5a34..b2c2677 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,12 +61,12 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[:, self.dense_column_indices].todense() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
         self.block_d_sparse = mask_sparse_matrix_by_rows(M_coo, self.row_density).tocsr()
-        self.block_d = self.block_d_sparse[self.dense_row_indices, :].todense()
+        self.block_d = self.block_d_sparse[self.dense_row_indices, :].toarray()
         self.block_ds = self.block_d[:, self.sparse_column_indices]
         self.block_dd = self.block_d[:, self.dense_column_indices]
 
-- 
2.43.0


From 4b54b675b10b4a45052dcbc6f743caa6134b307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 20/26] fix: StaticBlockSparseMatrix.linOp passed itself as the
 shape of the operator

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index b2c2677..2f4f937 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -146,7 +146,7 @@ class StaticBlockSparseMatrix(object):
 
     @property
     def linOp(self):
-        return sp.sparse.linalg.LinearOperator(self, shape=self.shape, matvec=self.matvec, matmat=self.matmat) # FIXME pylint: disable=redundant-keyword-arg
+        return sp.sparse.linalg.LinearOperator(self.shape, matvec=self.matvec, matmat=self.matmat)
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-- 
2.43.0


From 7b85601ca1a73bdafa5a55193811b70591fe6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 21/26] fix: conjGradSolve creates a starting vector of the
 right size, accepts one, and recognises one that solves the system

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 2f4f937..7aa1c81 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -150,9 +150,11 @@ class StaticBlockSparseMatrix(object):
 
     def conjGradSolve(self, b, x0=None, tol=1.0e-9, maxiter=None):
         n = len(b)
-        x = x0 if x0 else np.zeros(b)
+        x = x0 if x0 is not None else np.zeros(n)
 
         r = b - self.matvec(x)
+        if np.sqrt(np.dot(r, r)) < tol:
+            return x, 0
         s = r.copy()
 
         num_iterations = maxiter if maxiter else n
-- 
2.43.0


From d5d4e2efc5d3def86800773e71c5672b5fd12db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 22/26] fix: scipy's cg takes its relative tolerance as rtol

---
 blmath/numerics/linalg/sparse_cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/sparse_cg.py b/blmath/numerics/linalg/sparse_cg.py
index e228111..c7f2e4d 100644
--- a/blmath/numerics/linalg/sparse_cg.py
+++ b/blmath/numerics/linalg/sparse_cg.py
@@ -29,4 +29,4 @@ def block_sparse_cg_solve(A, x):
         return ans
 
     precon = scipy.sparse.linalg.LinearOperator(A.shape, matvec=A_inv_mult)
-    return scipy.sparse.linalg.cg(A, x, M=precon, tol=1e-5)[0]
+    return scipy.sparse.linalg.cg(A, x, M=precon, rtol=1e-5)[0]
-- 
2.43.0


From 10e18d94b61051ff94909241e79c330b02e5ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 23/26] fix: multiplying an integer block-sparse matrix without
 dense columns by a vector of integers

---
 blmath/numerics/linalg/static_block_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/numerics/linalg/static_block_sparse_matrix.py b/blmath/numerics/linalg/static_block_sparse_matrix.py
index 7aa1c81..fc27f81 100644
--- a/blmath/numerics/linalg/static_block_sparse_matrix.py
+++ b/blmath/numerics/linalg/static_block_sparse_matrix.py
@@ -61,7 +61,7 @@ class StaticBlockSparseMatrix(object):
         self.block_s = mask_sparse_matrix_by_rows(M_coo, self.row_sparsity)
         self.block_ss = mask_sparse_matrix_by_columns(self.block_s, self.column_sparsity).tocsr()
         self.block_ss_csc = self.block_ss.tocsc()
-        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns))
+        self.block_sd = mask_sparse_matrix_by_columns(self.block_s, self.column_density).tocsr()[self.sparse_row_indices, :][:, self.dense_column_indices].toarray() if self.num_dense_columns else np.zeros((self.num_sparse_rows, self.num_dense_columns), dtype=M_coo.dtype)
         self.block_s = self.block_s.tocsr()
         self.block_s_csc = self.block_s.tocsc()
 
-- 
2.43.0


From ae34a676f27c50815f89d041f3925ec480400806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 24/26] fix: lchol flags matrices that are not positive
 definite

---
 blmath/numerics/linalg/cholmod.c | 3 ++-
 blmath/numerics/linalg/lchol.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/blmath/numerics/linalg/cholmod.c b/blmath/numerics/linalg/cholmod.c
index 747c5bd..8ea0a88 100644
--- a/blmath/numerics/linalg/cholmod.c
+++ b/blmath/numerics/linalg/cholmod.c
@@ -213,9 +213,10 @@ cholmod_lchol_c(PyObject *self, PyObject *args)
 
     L = cholmod_l_analyze(&A, &Common);
     cholmod_l_factorize(&A, L, &Common);
+    /* the conversion below makes L symbolic and resets L->minor */
+    minor = L->minor;
     Lsparse = cholmod_l_factor_to_sparse(L, &Common);
 
-    minor = L->minor;
     if (minor < ncol)
     {
         /* remove columns minor to n-1 from Lsparse */
diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index d4d83e8..c56d2d9 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -11,7 +11,7 @@ def lchol(A):
 
     [L_ind, L_iptr, L_data, L_nonpsd, q] = cholmod.lchol_c(A64)
 
-    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=A64.shape)
+    L = sp.csc_matrix((L_data, L_ind, L_iptr), shape=(A64.shape[0], len(L_iptr) - 1)) # fewer columns when not positive definite
     S = sp.csc_matrix((np.ones(len(q)), (q, range(len(q)))), shape=(max(q)+1, len(q)))
 
     return L, L_nonpsd, S
-- 
2.43.0


From 9709b0e60e8d4a5b03f34fe3cff36ebe2428687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 25/26] fix: lchol takes matrices of integers and single
 precision numbers, whose bits were read as double precision

---
 blmath/numerics/linalg/lchol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blmath/numerics/linalg/lchol.py b/blmath/numerics/linalg/lchol.py
index c56d2d9..06736e3 100644
--- a/blmath/numerics/linalg/lchol.py
+++ b/blmath/numerics/linalg/lchol.py
@@ -6,6 +6,7 @@ def lchol(A):
 
     # the cholmod port needs 64b data, while scipy sparse is 32b
     A64 = copy.copy(A)
+    A64.data = A.data.astype(np.float64)
     A64.indices = A.indices.astype(np.int64)
     A64.indptr = A.indptr.astype(np.int64)
 
-- 
2.43.0


From 01890e25becd386debe1902edaef5b00acd699d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 26/26] fix: fitting a plane to points on a line, or with equal
 variances, gave a normal which was complex or not of least variance

---
 blmath/geometry/primitives/plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blmath/geometry/primitives/plane.py b/blmath/geometry/primitives/plane.py
index 0cf16c0..ae9bdf9 100644
--- a/blmath/geometry/primitives/plane.py
+++ b/blmath/geometry/primitives/plane.py
@@ -76,7 +76,7 @@ class Plane(object):
         Fits a plane whose normal is orthgonal to the first two principal axes
         of variation in the data and centered on the points' centroid.
         '''
-        eigval, eigvec = np.linalg.eig(np.cov(points.T))
+        eigval, eigvec = np.linalg.eigh(np.cov(points.T))
         ordering = np.argsort(eigval)[::-1]
         normal = np.cross(eigvec[:, ordering[0]], eigvec[:, ordering[1]])
         return cls(points.mean(axis=0), normal)
-- 
2.43.0

