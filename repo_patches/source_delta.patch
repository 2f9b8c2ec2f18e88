From e5bcdcf34689430953460f3002e683817abe09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 01/35] fix: test collinearity of points relative to each
 other, not to the origin

The rank of the coordinate matrix is at most 1 only when the line passes
through the origin, so collinear points on any other line were reported as
not collinear (and overlapping segments there as not intersecting).
---
 skcurve/_geomalg.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e7284d0..fa1915f 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -199,7 +199,8 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     -----
 
     In n-dimensional space, a set of three or more distinct points are collinear
-    if and only if, the matrix of the coordinates of these vectors is of rank 1 or less.
+    if and only if, the matrix of the coordinates of the vectors from one of these
+    points to the others is of rank 1 or less.
 
     Parameters
     ----------
@@ -225,7 +226,14 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     if m.shape[1] < 3:
         return True
 
-    return np.linalg.matrix_rank(m, tol=tol) <= 1
+    # Relative differences: the line does not have to pass through the origin
+    dm = m[:, 1:] - m[:, :1]
+
+    if tol is None:
+        # The differences carry the rounding errors of the coordinates
+        tol = np.abs(m).max() * max(m.shape) * F_EPS
+
+    return np.linalg.matrix_rank(dm, tol=tol) <= 1
 
 
 def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
-- 
2.43.0


From b50241e02eeb6431323ed0363bd84e91f9db92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 02/35] fix: overlap of segments along a line with a negative
 slope

The overlap was always the increasing diagonal of the common bounding box,
which is not on the segments when some coordinate decreases along them.
---
 skcurve/_geomalg.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index fa1915f..58fbc24 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -309,6 +309,21 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
     if np.any(data_maxmin > data_minmax):
         return None
 
+    # The overlap is the diagonal of the box that goes along the segments. The coordinates which
+    # decrease while the first changing coordinate increases go from the maximum to the minimum.
+    direction = p12_data - p11_data
+
+    if not np.any(direction):
+        direction = p22_data - p21_data
+
+    if np.any(direction):
+        decrease = direction * direction[np.flatnonzero(direction)[0]] < 0
+
+        data_maxmin, data_minmax = (
+            np.where(decrease, data_minmax, data_maxmin),
+            np.where(decrease, data_maxmin, data_minmax),
+        )
+
     return skcurve._base.Segment(p1=skcurve._base.Point(data_maxmin),
                                  p2=skcurve._base.Point(data_minmax))
 
-- 
2.43.0


From d59c22900ffbe27d1b112489062b1b74e956e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 03/35] fix: shortest segment to a zero-length second segment

When the second segment is a point the beginning of the first segment was
always taken instead of the projection of the point on it.
---
 skcurve/_geomalg.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 58fbc24..7928790 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -406,6 +406,11 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
         # the lines are almost parallel
         sn, sd = 0.0, 1.0
         tn, td = e, c
+
+        if c == 0:
+            # the second segment is a point: project it on the first segment
+            sn, sd = min(max(-d, 0.0), a), a
+            td = 1.0
     else:
         sn = b * e - c * d
         tn = a * e - b * d
@@ -525,6 +530,13 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     tn[dd_lt_tol] = e[dd_lt_tol]
     td[dd_lt_tol] = c[dd_lt_tol]
 
+    # the second segment is a point: project it on the first segment
+    c_zero = (c == 0) & dd_lt_tol
+
+    sn[c_zero] = np.clip(-d[c_zero], 0.0, a[c_zero])
+    sd[c_zero] = a[c_zero]
+    td[c_zero] = 1.0
+
     be_cd = b * e - c * d
     ae_bd = a * e - b * d
 
-- 
2.43.0


From 661083335966264ab7df51c7bea81c206ec18403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 04/35] fix: make parallel and shortest segment tolerances
 relative to the lengths

The absolute tolerances took all segments shorter than about 1e-4 for
parallel ones and snapped their closest points to the ends, so densely
sampled or small figures lost their intersections and got wrong distances.
---
 skcurve/_geomalg.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 7928790..e5d129d 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -188,7 +188,8 @@ def parallel_segments(segment1: 'Segment', segment2: 'Segment', tol: float = F_E
 
     d = a * c - b * b
 
-    return d < tol
+    # d is |u|^2 |v|^2 sin^2(phi), the tolerance must not depend on the lengths of the segments
+    return d <= tol * a * c
 
 
 def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
@@ -350,12 +351,12 @@ def segment_to_point(segment: 'Segment', point: 'Point') -> float:
 
     c1 = to_point_direction @ segment_direction
 
-    if c1 < 0 or np.isclose(c1, 0):
+    if c1 <= 0:
         return 0.0
 
     c2 = segment_direction @ segment_direction
 
-    if c2 < c1 or np.isclose(c2, c1):
+    if c2 <= c1:
         return 1.0
 
     t = c1 / c2
@@ -402,7 +403,7 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
     sd = td = dd
 
     # Compute the line parameters of the two closest points
-    if dd < tol:
+    if dd <= tol * a * c:
         # the lines are almost parallel
         sn, sd = 0.0, 1.0
         tn, td = e, c
@@ -449,8 +450,8 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             sd = a
 
     # finally do the division to get sc and tc
-    t1 = 0.0 if np.abs(sn) < tol else sn / sd
-    t2 = 0.0 if np.abs(tn) < tol else tn / td
+    t1 = 0.0 if np.abs(sn) <= tol * sd else sn / sd
+    t2 = 0.0 if np.abs(tn) <= tol * td else tn / td
 
     return t1, t2
 
@@ -523,7 +524,7 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn = np.zeros_like(dd)
     tn = np.zeros_like(dd)
 
-    dd_lt_tol = dd < tol
+    dd_lt_tol = dd <= tol * a * c
     not_dd_lt_tol = ~dd_lt_tol
 
     sd[dd_lt_tol] = 1.0
@@ -581,8 +582,8 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     sn[bmd_else] = bmd[bmd_else]
     sd[bmd_else] = a[bmd_else]
 
-    abs_sn_gt_tol = ~(np.abs(sn) < tol)
-    abs_tn_gt_tol = ~(np.abs(tn) < tol)
+    abs_sn_gt_tol = ~(np.abs(sn) <= tol * sd)
+    abs_tn_gt_tol = ~(np.abs(tn) <= tol * td)
 
     t1 = np.zeros_like(dd)
     t2 = np.zeros_like(dd)
-- 
2.43.0


From 021ebc462408758df4d44823bca2bc13a229630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:52 +0000
Subject: [PATCH 05/35] fix: closest points of nearly parallel segments

Both parameters were computed independently from the same ill-conditioned
system, so for nearly parallel (or parallel up to rounding) segments the
connecting segment could be arbitrarily far from the shortest one.
---
 skcurve/_geomalg.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index e5d129d..bf680f6 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -414,17 +414,18 @@ def segment_to_segment(segment1: 'Segment', segment2: 'Segment', tol: float = F_
             td = 1.0
     else:
         sn = b * e - c * d
-        tn = a * e - b * d
 
         if sn < 0.0:
             # sc < 0 => the s=0 edge is visible
             sn = 0.0
-            tn, td = e, c
         elif sn > sd:
             # sc > 1  => the s=1 edge is visible
             sn = sd
-            tn = e + b
-            td = c
+
+        # tc is computed for this sc: when the lines are nearly parallel, independently
+        # computed sc and tc would carry independent large errors
+        tn = b * (sn / sd) + e
+        td = c
 
     if tn < 0.0:
         # tc < 0 => the t=0 edge is visible
@@ -539,22 +540,20 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
     td[c_zero] = 1.0
 
     be_cd = b * e - c * d
-    ae_bd = a * e - b * d
 
     sn[not_dd_lt_tol] = be_cd[not_dd_lt_tol]
-    tn[not_dd_lt_tol] = ae_bd[not_dd_lt_tol]
 
     sn_lt_zero = (sn < 0) & not_dd_lt_tol
-
     sn[sn_lt_zero] = 0.0
-    tn[sn_lt_zero] = e[sn_lt_zero]
-    td[sn_lt_zero] = c[sn_lt_zero]
 
     sn_gt_sd = (sn > sd) & not_dd_lt_tol
-
     sn[sn_gt_sd] = sd[sn_gt_sd]
-    tn[sn_gt_sd] = e[sn_gt_sd] + b[sn_gt_sd]
-    td[sn_gt_sd] = c[sn_gt_sd]
+
+    # tc is computed for this sc: when the lines are nearly parallel, independently
+    # computed sc and tc would carry independent large errors
+    tn[not_dd_lt_tol] = (b[not_dd_lt_tol] * (sn[not_dd_lt_tol] / sd[not_dd_lt_tol])
+                         + e[not_dd_lt_tol])
+    td[not_dd_lt_tol] = c[not_dd_lt_tol]
 
     tn_lt_zero = tn < 0
     tn[tn_lt_zero] = 0.0
-- 
2.43.0


From 623b68860a010969879053186b25cdf777a13733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 06/35] fix: angle between short segments

The absolute tolerance returned NaN for well defined angles when the product
of the segment lengths was below 1e-8.
---
 skcurve/_geomalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index bf680f6..9c4245d 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -142,7 +142,7 @@ def segments_angle(segment1: 'Segment', segment2: 'Segment',
 
     denominator = u1.norm() * u2.norm()
 
-    if np.isclose(denominator, 0.0):
+    if denominator == 0:
         warnings.warn(
             'Cannot compute angle between segments. One or both segments degenerate into a point.',
             GeometryAlgorithmsWarning)
-- 
2.43.0


From ab81378e7c62eb4853f0b149c84ba28d0e5fe47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 07/35] fix: Segment.t for a list with one point that is off
 the line

The result was squeezed to a 0-d array before it was indexed with the mask of
collinear points, so IndexError was raised instead of returning NaN.
---
 skcurve/_geomalg.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 9c4245d..c636a51 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -89,7 +89,6 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
                 GeometryAlgorithmsWarning)
             return np.nan
         b = point.data - segment.p1.data
-        is_collinear = np.asarray([])
     else:
         is_collinear = np.array([segment.collinear(p, tol=tol) for p in point], dtype=np.bool_)
         b = np.stack([p.data - segment.p1.data for p in point], axis=1)
@@ -103,17 +102,15 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
             f"The 'lstsq' residuals are {residuals}. 't' value(s) might be wrong.",
             GeometryAlgorithmsWarning)
 
-    t = t.squeeze()
+    t = t.squeeze(axis=0)
 
-    if is_collinear.size == 0:
+    if isinstance(point, skcurve._base.Point):
         return float(t)
     else:
         if not np.all(is_collinear):
             warnings.warn(
                 "Some given points are not collinear with the segment", GeometryAlgorithmsWarning)
             t[~is_collinear] = np.nan
-        if t.size == 1:
-            t = np.array(t, ndmin=1)
         return t
 
 
-- 
2.43.0


From 215a732e85f4bb28ecccdf0bda2dfc0e6648d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 08/35] fix: lengths of the empty curve

chordlen was a 0-d array with uninitialized memory, so arclen was a random
number, cumarclen had two values and nonsingular raised ValueError.
---
 skcurve/_diffgeom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 9265fff..bba96f7 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -61,7 +61,7 @@ def nonsingular(curve: 'Curve'):
 
     def is_singular(curve_data):
         return (np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1) |
-                np.isclose(np.hstack([1.0, chord_lengths]), 0.0))
+                np.isclose(np.hstack([1.0, chord_lengths])[:curve.size], 0.0))
 
     return curve.drop(is_singular)
 
@@ -86,7 +86,7 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     """
 
     if not curve:
-        return np.ndarray([], dtype=np.float64)
+        return np.array([], dtype=np.float64)
 
     return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
 
@@ -237,6 +237,9 @@ class CurvePointFunctionMixin:
 
         """
 
+        if not self:
+            return np.array([], dtype=np.float64)
+
         return np.hstack((0.0, np.cumsum(self.chordlen)))
 
     @cached_property
-- 
2.43.0


From 3519c6b8792cc33c240642666e7b00ccacd837c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 09/35] fix: nonsingular left zero-length segments around NaN
 and Inf points

The chord lengths were computed before the non-finite points were dropped, so
equal points on both sides of them were both kept.
---
 skcurve/_diffgeom.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index bba96f7..b2425cb 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -57,13 +57,11 @@ def nonsingular(curve: 'Curve'):
 
     """
 
+    curve = curve.drop(lambda curve_data: ~np.isfinite(curve_data))
     chord_lengths = curve.chordlen
 
-    def is_singular(curve_data):
-        return (np.any(np.isnan(curve_data) | np.isinf(curve_data), axis=1) |
-                np.isclose(np.hstack([1.0, chord_lengths])[:curve.size], 0.0))
-
-    return curve.drop(is_singular)
+    # The points on both sides of the dropped ones may be close too
+    return curve.drop(lambda _: np.isclose(np.hstack([1.0, chord_lengths])[:curve.size], 0.0))
 
 
 def chordlen(curve: 'Curve') -> np.ndarray:
-- 
2.43.0


From 5f36eee65b4bdfad4f743f88ffe8be0e8783c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 10/35] fix: Curve.index with a negative start

The start was added as is to the found position, so the result was a wrong
(negative, possibly out of range) index.
---
 skcurve/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 78ab123..65881b8 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1382,6 +1382,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         if start is None and end is None:
             data = self._data
         else:
+            start, *_ = slice(start, end).indices(self.size)
             data = self._data[slice(start, end)]
 
         is_close = allequal(point.data, data, axis=1)
-- 
2.43.0


From 08a1439433da0a910665d74dd81e816a34280a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 11/35] fix: reject too negative indices of curve points and
 segments

---
 skcurve/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 65881b8..7b2eda5 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -401,6 +401,8 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     __slots__ = Point.__slots__ + ('_curve', '_idx')
 
     def __init__(self, curve: 'Curve', index: int):
+        if not -curve.size <= index < curve.size:
+            raise IndexError(f'Index {index} is out of bounds for curve size {curve.size}')
         if index < 0:
             index = curve.size + index
 
@@ -929,7 +931,7 @@ class CurveSegment(Segment):
     def __init__(self, curve: 'Curve', index: int) -> None:
         if index < 0:
             index = (curve.size - 1) + index
-        if index >= (curve.size - 1):
+        if index < 0 or index >= (curve.size - 1):
             raise ValueError('The index is out of curve size')
 
         self._curve = curve
-- 
2.43.0


From f3eab07a1d78184cfc90ff078bbfd1ac25bde457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 12/35] fix: raise ValueError for a non-numeric dtype

---
 skcurve/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 7b2eda5..40f8e3f 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -139,7 +139,7 @@ class Point(abc.Sequence):
             dtype = DEFAULT_DTYPE
 
         if not np.issubdtype(dtype, np.number):
-            ValueError('dtype must be a numeric type.')
+            raise ValueError('dtype must be a numeric type.')
 
         data = np.array(point_data, dtype=np.dtype(dtype))
 
@@ -1139,7 +1139,7 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         dtype = np.dtype(dtype)
 
         if not np.issubdtype(dtype, np.number):
-            ValueError(f"'dtype' must be a numeric type not {dtype}.")
+            raise ValueError(f"'dtype' must be a numeric type not {dtype}.")
 
         data = as2d(curve_data, axis=axis).astype(dtype)
 
-- 
2.43.0


From d9fe8993a5fba1798b09aeb163d33bfb7e37d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 13/35] fix: IntersectionType.NONE could not be called

---
 skcurve/_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index bf51f66..f31cd70 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -57,7 +57,7 @@ class IntersectionType(enum.Enum):
     ALMOST = 3
 
     def __call__(self, intersect_data: ty.Optional[ty.Union['Point', 'Segment']] = None) -> 'IntersectionInfo':
-        if self == IntersectionType.NONE and intersect_data is not IntersectionType:
+        if self == IntersectionType.NONE and intersect_data is not None:
             raise ValueError(f"'intersect_data' must be 'None' for type {self}")
 
         if self == IntersectionType.EXACT and not isinstance(intersect_data, skcurve._base.Point):
-- 
2.43.0


From cb25b4cebd1430da795f222096a8f6c95e87c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 14/35] fix: registering decorators replaced the decorated
 object with None

---
 skcurve/_interpolate.py | 1 +
 skcurve/_intersect.py   | 2 ++
 skcurve/_smooth.py      | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index ba10931..5c9be25 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -394,6 +394,7 @@ def register_interpolator(method: str):
         if not issubclass(cls, InterpolatorBase):
             raise TypeError(f"{cls} is not a subclass of 'InterpolatorBase'")
         _interpolators[method] = cls
+        return cls
     return decorator
 
 
diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index f31cd70..b1d5971 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -435,6 +435,8 @@ def register_intersect_method(method: str, default: bool = False):
         if default:
             set_default_intersect_method(method)
 
+        return cls
+
     return decorator
 
 
diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index b71e98f..d5a103e 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -72,6 +72,8 @@ def register_smooth_method(method: str):
                 f"'{method}' smoothing method already registered for {_smooth_methods[method]}")
         _smooth_methods[method] = method_callable
 
+        return method_callable
+
     return decorator
 
 
-- 
2.43.0


From baa0e9fe9969e8b0fce66ef5a89b3a8dc091546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 15/35] fix: smooth curves of any dtype in float64 as
 documented

---
 skcurve/_smooth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index d5a103e..0b48ee2 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -136,7 +136,7 @@ def savgol_filter(curve: 'Curve', window_length: int, polyorder: int, *,
     """
 
     return signal.savgol_filter(
-        curve.data,
+        curve.data.astype(np.float64),
         window_length=window_length,
         polyorder=polyorder,
         deriv=deriv,
@@ -172,7 +172,7 @@ def window_filter(curve: 'Curve',
     window /= window.sum()
 
     return ndimage.convolve1d(
-        curve.data,
+        curve.data.astype(np.float64),
         weights=window,
         mode=mode,
         cval=cval,
@@ -218,4 +218,4 @@ def smooth(curve: 'Curve', method: str, **params) -> 'Curve':
     except Exception as err:
         raise SmoothingError(f'Smoothing has failed: {err}') from err
 
-    return type(curve)(smoothed_data)
+    return type(curve)(smoothed_data, dtype=np.float64)
-- 
2.43.0


From ad60071a2620b1a7ad5ea3cc6aaa4885bea103cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 16/35] fix: window filter changed the array returned by the
 caller's window function

---
 skcurve/_smooth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 0b48ee2..80d2666 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -169,7 +169,7 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
-    window /= window.sum()
+    window = window / window.sum()
 
     return ndimage.convolve1d(
         curve.data.astype(np.float64),
-- 
2.43.0


From 1341e6e9435dedcb04ec1bdf5bdd218a1705aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 17/35] fix: empty sub-curves and copies lost the dimension of
 the curve

---
 skcurve/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 40f8e3f..0082e94 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1144,6 +1144,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
         data = as2d(curve_data, axis=axis).astype(dtype)
 
         if data.size == 0:
+            if is_array and curve_data.ndim == 2 and axis == 0:
+                # An empty sub-curve or a copy of an empty curve keeps its dimension
+                ndmin = max(ndmin, curve_data.shape[1])
             data = np.reshape([], (0, ndmin)).astype(dtype)
 
         m, n = data.shape
-- 
2.43.0


From 3ca738a6757aac020ab57f06ab80f77d71c2f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 18/35] fix: copy of a point lost its dtype

---
 skcurve/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 0082e94..2b59623 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -275,7 +275,7 @@ class Point(abc.Sequence):
         return self.__deepcopy__()
 
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Point':
-        return Point(self)
+        return Point(self, dtype=self.dtype)
 
     @property
     def data(self) -> np.ndarray:
-- 
2.43.0


From b4d822aeaf1b2b652df965ee78982533c53e618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 19/35] fix: chord lengths of integer curves wrapped around

---
 skcurve/_diffgeom.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index b2425cb..ceb8bc5 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -86,7 +86,12 @@ def chordlen(curve: 'Curve') -> np.ndarray:
     if not curve:
         return np.array([], dtype=np.float64)
 
-    return np.sqrt(np.sum((np.diff(curve.data, axis=0))**2, axis=1))
+    data = curve.data
+    if np.issubdtype(data.dtype, np.integer):
+        # Avoid wrap-around of the differences and squares of integers
+        data = data.astype(np.float64)
+
+    return np.sqrt(np.sum((np.diff(data, axis=0))**2, axis=1))
 
 
 def arclen(curve: 'Curve') -> float:
-- 
2.43.0


From ad7f2f535e64545423f38af2acd4870e9b9f777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 20/35] fix: plane test and almost intersection of integer
 curves wrapped around

---
 skcurve/_geomalg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index c636a51..946a9df 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -257,6 +257,10 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
     else:
         points_data = np.vstack([point.data for point in points])
 
+    if np.issubdtype(points_data.dtype, np.integer):
+        # Avoid wrap-around of the differences of integers
+        points_data = points_data.astype(np.float64)
+
     if points_data.shape[1] < 3:
         # In dimension < 3 the points are coplanar
         return True
@@ -496,6 +500,10 @@ def segments_to_segments(data1: np.ndarray, data2: np.ndarray, tol: float = F_EP
 
     """
 
+    # The data of curves may have an integer or less precise type than curve segments have
+    data1 = np.asarray(data1, dtype=np.float64)
+    data2 = np.asarray(data2, dtype=np.float64)
+
     m1 = data1.shape[0] - 1
     m2 = data2.shape[0] - 1
 
-- 
2.43.0


From b6b7f5a7a13256074232b96b64b6a88b4a4ac87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 21/35] fix: derivatives of a single-point curve had one column
 only

---
 skcurve/_diffgeom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index ceb8bc5..2b15502 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -152,7 +152,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
             break
     else:
         warnings.warn('Cannot calculate a numerical gradient.', DifferentialGeometryWarning)
-        return np.zeros((m_rows, 1), dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     return np.gradient(data, axis=0, edge_order=edge_order)
 
-- 
2.43.0


From d6307bbdd85929867f71e400f03ea53416bc1458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 22/35] fix: arrays cached in a curve could be changed in place

---
 skcurve/_base.py     | 8 ++++++--
 skcurve/_diffgeom.py | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 2b59623..6a05c1a 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -1610,7 +1610,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        return _diffgeom.chordlen(self)
+        lengths = _diffgeom.chordlen(self)
+        lengths.flags.writeable = False
+        return lengths
 
     @cached_property
     def arclen(self) -> float:
@@ -1640,7 +1642,9 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
 
         """
 
-        return np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object)
+        segments = np.array([CurveSegment(self, idx) for idx in range(self.size - 1)], dtype=np.object)
+        segments.flags.writeable = False
+        return segments
 
     def reverse(self) -> 'Curve':
         """Reverses the curve
diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 2b15502..3632506 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -213,7 +213,10 @@ def _maybe_curve_point(func):
     def wrapper(obj):
         if isinstance(obj, skcurve._base.CurvePoint):
             return getattr(obj.curve, func.__name__)[obj.idx]
-        return func(obj)
+        result = func(obj)
+        # The result is cached in the immutable curve object
+        result.flags.writeable = False
+        return result
     return wrapper
 
 
-- 
2.43.0


From b19dcff67294697e65857704af1600bb9ff815e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 23/35] fix: normal and torsion of densely sampled curves were
 zero

---
 skcurve/_diffgeom.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 3632506..89e614f 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -157,9 +157,18 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     return np.gradient(data, axis=0, edge_order=edge_order)
 
 
-def _frenet_vector_norm(v: np.ndarray, warn_msg: str) -> np.ndarray:
+def _frenet_vector_norm(v: np.ndarray, warn_msg: str, curve: ty.Optional['Curve'] = None) -> np.ndarray:
     norm = np.linalg.norm(v, axis=1)
-    not_well_defined = np.isclose(norm, 0.0)
+
+    if curve is None:
+        not_well_defined = np.isclose(norm, 0.0)
+    else:
+        # The higher order vectors get small when a curve is sampled densely: they are
+        # not well defined when they are small relative to the speed and the coordinates
+        data = curve.data[np.isfinite(curve.data)]
+        rounding = 32 * np.finfo(v.dtype).eps * np.max(np.abs(data), initial=0.0)
+        not_well_defined = norm <= np.maximum(1e-8 * curve.speed, rounding)
+
     is_not_well_defined = np.any(not_well_defined)
 
     if is_not_well_defined:
@@ -496,7 +505,7 @@ class CurvePointFunctionMixin:
             'The curve is straight line and normal vectors are not well defined. '
         )
 
-        norm = _frenet_vector_norm(curve.normal, not_well_defined_warn_msg)
+        norm = _frenet_vector_norm(curve.normal, not_well_defined_warn_msg, curve)
         e2 = curve.normal / norm
 
         # FIXME: what to do with not well defined the normal vectors?
@@ -538,7 +547,7 @@ class CurvePointFunctionMixin:
             'May be the curve is straight line or a plane and binormal vectors are not well defined. '
         )
 
-        norm = _frenet_vector_norm(curve.binormal, not_well_defined_warn_msg)
+        norm = _frenet_vector_norm(curve.binormal, not_well_defined_warn_msg, curve)
         e3 = curve.binormal / norm
 
         # FIXME: what to do with not well defined the binormal vectors?
-- 
2.43.0


From 45cf5037cdf58102af36fdfd67d2b1ebf35052f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 24/35] fix: isplane of empty and one-point curves raised an
 error

---
 skcurve/_geomalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 946a9df..5737253 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -265,6 +265,10 @@ def coplanar_points(points: ty.Union[ty.List['Point'], np.ndarray],
         # In dimension < 3 the points are coplanar
         return True
 
+    if points_data.shape[0] < 4:
+        # Up to three points are always coplanar
+        return True
+
     # Relative differences
     points_data -= points_data[-1, :]
     return np.linalg.matrix_rank(points_data[:-1, :], tol=tol) <= 2
-- 
2.43.0


From 8a4f08278ba1279ea349240ad64f774d9ab43dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 25/35] fix: speed of an empty curve raised an error,
 derivatives and frames had the wrong shape

---
 skcurve/_diffgeom.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/skcurve/_diffgeom.py b/skcurve/_diffgeom.py
index 89e614f..d565476 100644
--- a/skcurve/_diffgeom.py
+++ b/skcurve/_diffgeom.py
@@ -140,7 +140,7 @@ def _gradient(data: np.ndarray, edge_order: int = DEFAULT_GRAD_EDGE_ORDER) -> np
     m_rows = data.shape[0]
 
     if m_rows == 0:
-        return np.array([], dtype=np.float64)
+        return np.zeros(data.shape, dtype=np.float64)
 
     for edge_order in range(edge_order, 0, -1):
         if m_rows < (edge_order + 1):
@@ -366,7 +366,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         sder = curve.secondderiv
         e1 = curve.frenet1
@@ -403,7 +403,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         tder = curve.thirdderiv
         e1 = curve.frenet1
@@ -458,7 +458,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the first Frenet vectors (unit tangent vectors). '
@@ -498,7 +498,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the second Frenet vectors (unit normal vectors). '
@@ -540,7 +540,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.zeros(curve.data.shape, dtype=np.float64)
 
         not_well_defined_warn_msg = (
             'Cannot calculate the third Frenet vectors (unit binormal vectors). '
@@ -599,7 +599,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.array([], dtype=np.float64)
 
         if curve.is2d:
             # Compute signed curvature value for a plane curve
@@ -648,7 +648,7 @@ class CurvePointFunctionMixin:
         curve = self
 
         if not curve:
-            return np.array([], ndmin=curve.ndim, dtype=np.float64)
+            return np.array([], dtype=np.float64)
 
         e2_grad = _gradient(curve.frenet2)
         tangent_norm = np.linalg.norm(curve.tangent, axis=1)
-- 
2.43.0


From beb55d62f2635f2f858e0ec589ddd1286ed2b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 26/35] fix: some points computed on a segment were not
 collinear with it

---
 skcurve/_geomalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 5737253..5468e1e 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -228,8 +228,8 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     dm = m[:, 1:] - m[:, :1]
 
     if tol is None:
-        # The differences carry the rounding errors of the coordinates
-        tol = np.abs(m).max() * max(m.shape) * F_EPS
+        # The differences carry the rounding errors of the coordinates and of points computed on the line
+        tol = 4 * np.abs(m).max() * max(m.shape) * F_EPS
 
     return np.linalg.matrix_rank(dm, tol=tol) <= 1
 
-- 
2.43.0


From 42a688603d9d83e5d0c3938629964ac9ec5a07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 27/35] fix: Segment.t warned about rounding of large
 coordinates

---
 skcurve/_geomalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 5468e1e..c5d097d 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -97,7 +97,7 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
 
     t, residuals, *_ = np.linalg.lstsq(a, b, rcond=None)
 
-    if residuals.size > 0 and residuals[0] > F_EPS:
+    if residuals.size > 0 and residuals[0] > F_EPS * max(1.0, np.sum(b**2)):
         warnings.warn(
             f"The 'lstsq' residuals are {residuals}. 't' value(s) might be wrong.",
             GeometryAlgorithmsWarning)
-- 
2.43.0


From fa7fcbef82fc8d8d273459fb9929fee12d6b0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 28/35] fix: csaps interpolation on as many grid points as
 dimensions was transposed

---
 skcurve/_interpolate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 5c9be25..8823aaa 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -632,11 +632,13 @@ class CsapsInterpolator(InterpolatorBase):
                  smooth: ty.Optional[float] = 1.0,
                  weights: ty.Optional[np.ndarray] = None):
         super().__init__(curve)
+        # The values along the last axis: with axis=0 csaps returns transposed
+        # result when the number of grid points is equal to the number of dimensions.
         self.csaps = csaps.CubicSmoothingSpline(
-            curve.t, curve.data, weights=weights, smooth=smooth, axis=0)
+            curve.t, curve.data.T, weights=weights, smooth=smooth, axis=-1)
 
     def _interpolate(self, grid: np.ndarray) -> np.ndarray:
-        return self.csaps(grid)
+        return self.csaps(grid).T
 
 
 def interp_methods() -> ty.List[str]:
-- 
2.43.0


From dca0265c0c88424abba5e448df54d61fd4fdfe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 29/35] fix: speed-preserving grid of one point was NaN instead
 of rejected

---
 skcurve/_interpolate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index 8823aaa..d56e707 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -240,6 +240,9 @@ class PreservedSpeedInterpolationGrid(InterpolationGrid):
     """
 
     def __init__(self, pcount: int, interp_kind: str = 'linear'):
+        if pcount < 2:
+            raise ValueError('There must be at least two interpolation points.')
+
         self.pcount = pcount
         self.interp_kind = interp_kind
 
-- 
2.43.0


From 4a3b8c41ae9f707ef35d075981cd0e28716ef016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:47 +0000
Subject: [PATCH 30/35] fix: smoothing with a window of zero sum gave NaN
 instead of an error

---
 skcurve/_smooth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skcurve/_smooth.py b/skcurve/_smooth.py
index 80d2666..756ffe7 100644
--- a/skcurve/_smooth.py
+++ b/skcurve/_smooth.py
@@ -169,6 +169,9 @@ def window_filter(curve: 'Curve',
     else:
         window = windows.get_window(window_type, window_size, fftbins=False)
 
+    if window.sum() == 0:
+        raise ValueError('The sum of the window values is zero')
+
     window = window / window.sum()
 
     return ndimage.convolve1d(
-- 
2.43.0


From dc931cd2a00bf21a0c0ad5a29fa6e3cd63e539c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 31/35] fix: overlap of segments with integer points wrapped
 around

---
 skcurve/_geomalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index c5d097d..434d9af 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -317,10 +317,11 @@ def overlap_segments(segment1: 'Segment', segment2: 'Segment',
 
     # The overlap is the diagonal of the box that goes along the segments. The coordinates which
     # decrease while the first changing coordinate increases go from the maximum to the minimum.
-    direction = p12_data - p11_data
+    # Only the signs are used: the differences of fixed-width integers may wrap around.
+    direction = np.subtract(p12_data > p11_data, p12_data < p11_data, dtype=np.int64)
 
     if not np.any(direction):
-        direction = p22_data - p21_data
+        direction = np.subtract(p22_data > p21_data, p22_data < p21_data, dtype=np.int64)
 
     if np.any(direction):
         decrease = direction * direction[np.flatnonzero(direction)[0]] < 0
-- 
2.43.0


From 979b2ed0de04f53ac15b5365a1258825eb78ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 32/35] fix: unpickled points and curves could be modified in
 place

---
 skcurve/_base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 6a05c1a..5bf3ee1 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -277,6 +277,10 @@ class Point(abc.Sequence):
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Point':
         return Point(self, dtype=self.dtype)
 
+    def __reduce__(self):
+        # Default unpickling makes the data writable
+        return Point, (self._data, self._data.dtype)
+
     @property
     def data(self) -> np.ndarray:
         """Returns the point data as numpy array
@@ -422,6 +426,9 @@ class CurvePoint(Point, _diffgeom.CurvePointFunctionMixin):
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'CurvePoint':
         return CurvePoint(self.curve, self.idx)
 
+    def __reduce__(self):
+        return CurvePoint, (self._curve, self._idx)
+
     @property
     def curve(self) -> 'Curve':
         """Returns the reference to the curve object
@@ -1356,6 +1363,10 @@ class Curve(abc.Sequence, _diffgeom.CurvePointFunctionMixin):
     def __deepcopy__(self, memodict: ty.Optional[dict] = None) -> 'Curve':
         return Curve(self)
 
+    def __reduce__(self):
+        # Default unpickling makes the data writable
+        return Curve, (self._data, self._tdata)
+
     def index(self, point: Point, start: ty.Optional[int] = None, end: ty.Optional[int] = None) -> int:
         """Returns the first index for given point in the curve
 
-- 
2.43.0


From f53d1fb6674976fc56c26d261397d8da412ce2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 33/35] fix: arithmetic, distances and geometry of points of
 narrow integer types wrap around

---
 skcurve/_base.py    | 13 ++++++++-----
 skcurve/_geomalg.py |  8 ++++----
 skcurve/_numeric.py | 22 ++++++++++++++++++++++
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/skcurve/_base.py b/skcurve/_base.py
index 5bf3ee1..4129790 100644
--- a/skcurve/_base.py
+++ b/skcurve/_base.py
@@ -31,7 +31,7 @@ import skcurve._geomalg as _geomalg
 import skcurve._intersect as _intersect
 import skcurve._interpolate as _interpolate
 import skcurve._smooth as _smooth
-from skcurve._numeric import allequal, F_EPS
+from skcurve._numeric import allequal, F_EPS, widen
 from skcurve._utils import as2d
 
 
@@ -269,7 +269,7 @@ class Point(abc.Sequence):
         if not isinstance(other, Point):
             return NotImplemented
 
-        return ty.cast(Numeric, np.dot(self._data, other.data))
+        return ty.cast(Numeric, np.dot(widen(self._data), widen(other.data)))
 
     def __copy__(self) -> 'Point':
         return self.__deepcopy__()
@@ -355,19 +355,22 @@ class Point(abc.Sequence):
 
         """
 
+        data1, data2 = self._data, other.data
+
         if isinstance(metric, str):
             metric = _distance.get_metric(metric, **kwargs)
+            data1, data2 = widen(data1), widen(data2)
 
         if not callable(metric):
             raise TypeError('Metric must be str or callable')
 
-        return metric(self._data, other.data)
+        return metric(data1, data2)
 
     def _op(self, op, other: ty.Union['Point', Numeric], right: bool = False) -> ty.Optional['Point']:
-        left_data = self._data
+        left_data = widen(self._data)
 
         if isinstance(other, Point):
-            right_data = other.data
+            right_data = widen(other.data)
         elif isinstance(other, numbers.Number):
             right_data = other
         else:
diff --git a/skcurve/_geomalg.py b/skcurve/_geomalg.py
index 434d9af..6d5e44f 100644
--- a/skcurve/_geomalg.py
+++ b/skcurve/_geomalg.py
@@ -12,7 +12,7 @@ import typing as ty
 import numpy as np
 
 import skcurve._base
-from skcurve._numeric import F_EPS
+from skcurve._numeric import F_EPS, widen
 
 if ty.TYPE_CHECKING:
     from skcurve._base import Point, Segment  # noqa
@@ -88,10 +88,10 @@ def segment_t(segment: 'Segment', point: ty.Union['Point', ty.Sequence['Point']]
                 f"Given point '{point}' is not collinear with the segment '{segment}'",
                 GeometryAlgorithmsWarning)
             return np.nan
-        b = point.data - segment.p1.data
+        b = (point - segment.p1).data
     else:
         is_collinear = np.array([segment.collinear(p, tol=tol) for p in point], dtype=np.bool_)
-        b = np.stack([p.data - segment.p1.data for p in point], axis=1)
+        b = np.stack([(p - segment.p1).data for p in point], axis=1)
 
     a = segment.direction.data[np.newaxis].T
 
@@ -219,7 +219,7 @@ def collinear_points(points: ty.Union[ty.List['Point'], np.ndarray],
     else:
         points_data = np.vstack([point.data for point in points]).T
 
-    m = np.unique(points_data, axis=1)
+    m = widen(np.unique(points_data, axis=1))
 
     if m.shape[1] < 3:
         return True
diff --git a/skcurve/_numeric.py b/skcurve/_numeric.py
index 104b529..c083fd5 100644
--- a/skcurve/_numeric.py
+++ b/skcurve/_numeric.py
@@ -12,6 +12,28 @@ import numpy as np
 F_EPS = np.finfo(np.float64).eps
 
 
+def widen(data: np.ndarray) -> np.ndarray:
+    """Returns integer data in a type wide enough to not wrap around in arithmetic operations
+
+    Parameters
+    ----------
+    data : np.ndarray
+        Data array
+
+    Returns
+    -------
+    data : np.ndarray
+        The same array if it is not an integer array, otherwise the array of int64 (or
+        float64 for uint64) type
+
+    """
+
+    if np.issubdtype(data.dtype, np.integer):
+        data = data.astype(np.result_type(data.dtype, np.int64), copy=False)
+
+    return data
+
+
 def isequal(obj1: np.ndarray, obj2: np.ndarray, **kwargs) -> np.ndarray:
     """Returns a boolean array where two arrays are element-wise equal
 
-- 
2.43.0


From 7913f2ec03f393f1009ae4c74c04b22df5e5ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:35 +0000
Subject: [PATCH 34/35] fix: reject interpolation grids with NaN as not
 strictly increasing

---
 skcurve/_interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skcurve/_interpolate.py b/skcurve/_interpolate.py
index d56e707..8d4ea32 100644
--- a/skcurve/_interpolate.py
+++ b/skcurve/_interpolate.py
@@ -360,7 +360,7 @@ class InterpolatorBase:
 
         dt = np.diff(grid)
 
-        if np.any(dt < 0) or np.any(np.isclose(dt, 0)):
+        if not np.all(dt > 0) or np.any(np.isclose(dt, 0)):
             raise ValueError(
                 'The values in the interpolation grid must be strictly increasing ordered.')
 
-- 
2.43.0


From 0cecdce3e7c88adc15d800ed1a3d0806ddde9d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:49 +0000
Subject: [PATCH 35/35] fix: exact intersection compares the two points
 relative to the coordinates of the segments

---
 skcurve/_intersect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skcurve/_intersect.py b/skcurve/_intersect.py
index b1d5971..e76a073 100644
--- a/skcurve/_intersect.py
+++ b/skcurve/_intersect.py
@@ -513,8 +513,10 @@ class ExactIntersectionMethod(IntersectionMethodBase):
 
             if intersect_point1 != intersect_point2:
                 distance = intersect_point1.distance(intersect_point2)
+                # The points carry the rounding errors of the coordinates of the segments
+                scale = max(1.0, np.abs(segment1.data).max(), np.abs(segment2.data).max())
 
-                if distance > self._feps:
+                if distance > 16 * self._feps * scale:
                     warnings.warn(
                         f"Incorrect solution. The points for 't1' and 't2' are different (distance: {distance}).",
                         IntersectionWarning)
-- 
2.43.0

