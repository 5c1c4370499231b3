From 7288ce8d059cd615129317d9ec642df74a5f05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 01/47] fix: angle between (anti)parallel vectors is never NaN

The normalized dot product of a vector with itself can round to just above 1,
for which arccos is undefined; fit_angle(fit, fit) and the rake of planes
elongated along dip came out as NaN.
---
 attitude/geom/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index 5ef2bca..ceff005 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -60,7 +60,8 @@ def angle(v1,v2, cos=False):
     angle will be returned. False by default.
     """
     n = (norm(v1)*norm(v2))
-    _ = dot(v1,v2)/n
+    # Rounding can push the ratio marginally outside of the domain of arccos
+    _ = N.clip(dot(v1,v2)/n, -1, 1)
     return _ if cos else N.arccos(_)
 
 class Plane(N.ndarray):
-- 
2.43.0


From ad5cf6257cdb2c7dbc848d12e8df8654668a4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 02/47] fix: computing or plotting errors no longer flips a
 fit's axes in place

normal_errors, iterative_normal_errors, the polar pole_error and as_conic
multiplied the caller's axes by -1 in place for upside-down fits, changing the
fit's hash (uid) and serialized axes as a side effect of drawing it.
---
 attitude/display/polar.py   | 2 +-
 attitude/orientation/pca.py | 7 ++++---
 attitude/stereonet.py       | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/attitude/display/polar.py b/attitude/display/polar.py
index b83c055..4fad9c4 100644
--- a/attitude/display/polar.py
+++ b/attitude/display/polar.py
@@ -27,7 +27,7 @@ def pole_error(ax, fit, *args, **kwargs):
     ell = ellipse()
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 327df06..04803e2 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -401,8 +401,9 @@ class PCAOrientation(BaseOrientation):
 
     def as_conic(self, level=1):
 
-        if dot(self.axes[2],vector(0,0,1)) < 0:
-            self.axes *= -1
+        axes = self.axes
+        if dot(axes[2],vector(0,0,1)) < 0:
+            axes = -axes
 
         cov = self.covariance_matrix
         idx = N.diag_indices(3)
@@ -416,7 +417,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate ellipse matrix into cartesian
         # plane
-        R = augment(self.axes)
+        R = augment(axes)
         return ell.transform(R)
 
     def as_hyperbola(self, rotated=False):
diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index d73210b..5ce06e3 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -49,7 +49,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
     ell = ellipse(**kwargs)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
@@ -129,7 +129,7 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-- 
2.43.0


From 678e52998460b2537adee69de3ab146ecec37020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 03/47] fix: exactly horizontal planes have a defined rake

The cross product of a vertical normal with the vertical is zero, and
normalizing it made dip_dr, the rake and the serialized mapping NaN.
---
 attitude/orientation/pca.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 04803e2..b3518cd 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -225,6 +225,10 @@ class PCAOrientation(BaseOrientation):
         v[-1] = 1
         self._vertical = v
         self.strike = N.cross(self.normal,self._vertical)
+        if len(v) == 3 and not self.strike.any():
+            # The strike of a horizontal plane is undefined: follow
+            # the convention of `strike_dip` (strike of 270)
+            self.strike = vector(1.,0.,0.)
         try:
             self.dip_dr = normalize(N.cross(self.strike,self.normal))
         except ValueError:
-- 
2.43.0


From ee3baa8a6681a0df9d90cc9dd30129ec52a4af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 04/47] fix: perpendicular_vector returns a perpendicular unit
 vector

In 2D it swapped the components, which is only perpendicular for vectors along
a coordinate axis; in 3D its length depended on the orientation of the input,
so slices by oblique planes came out in scaled coordinates.
---
 attitude/geom/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index ceff005..676d84b 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -96,7 +96,8 @@ def perpendicular_vector(n):
     """
     dim = len(n)
     if dim == 2:
-        return n[::-1]
+        v = N.array([n[1],-n[0]])
+        return v/N.linalg.norm(v)
     # More complex in 3d
     for ix in range(dim):
         _ = N.zeros(dim)
@@ -107,6 +108,6 @@ def perpendicular_vector(n):
         _[dim-ix-1] = 1
         v1 = N.cross(n,_)
         if N.linalg.norm(v1) != 0:
-            return v1
+            return v1/N.linalg.norm(v1)
     raise ValueError("Cannot find perpendicular vector")
 
-- 
2.43.0


From 03fdc5fc13ef9b0e10fab3ab099db4ff496d96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 05/47] fix: major axes of conics that are not unit spheres

The semiaxes of x.A.x = k are sqrt(k/s) along the rows of V; the code took
sqrt(k*s), scaled the columns, and assumed a conic centered on the origin.
---
 attitude/geom/conics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 1245220..5607e82 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -81,10 +81,11 @@ class Conic(N.ndarray):
         """
         Gets major axes of ellipsoids
         """
-        _ = ell[:-1,:-1]
+        _ = N.array(ell[:-1,:-1])
         U,s,V = N.linalg.svd(_)
-        scalar = -(ell.sum()-_.sum())
-        return N.sqrt(s*scalar)*V
+        # Value at center
+        scalar = -ell.solve(augment(ell.center()))
+        return N.sqrt(scalar/s)[:,N.newaxis]*V
 
     def __type(self):
         return N.linalg.det(self[:-1,:-1])
-- 
2.43.0


From 555d8b670717fd32239ce1a1489f0da0ffcd9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 06/47] fix: angle_subtended from a viewpoint other than the
 origin

The distance to the plane of tangency was always measured from the origin.
---
 attitude/geom/conics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 5607e82..6dbdb88 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -17,11 +17,17 @@ def angle_subtended(ell, **kwargs):
     """
     return_tangent = kwargs.pop('tangent',False)
 
+    viewpoint = kwargs.get('viewpoint',None)
+    if viewpoint is None:
+        viewpoint = N.zeros(ell.shape[0]-1)
+
     con, transform, offset = ell.projection(**kwargs)
     v = N.linalg.norm(N.array(con.major_axes()),axis=1)
     A = N.sort(v)[::-1] # Sort highest values first
     A = N.squeeze(A)
-    B = N.linalg.norm(offset)
+    # Distance from viewpoint to the center of the cut
+    center = dot(augment(con.center()),transform)[:-1]
+    B = N.linalg.norm(center-viewpoint)
     if return_tangent: return A/B
     return N.arctan2(A,B)
 
-- 
2.43.0


From 402cf8e286706ec5657cf917066f89885c8a2e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 07/47] fix: center 3xn regression input over points, not over
 coordinates

---
 attitude/orientation/linear/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/linear/regression.py b/attitude/orientation/linear/regression.py
index 78c3740..4e4a726 100644
--- a/attitude/orientation/linear/regression.py
+++ b/attitude/orientation/linear/regression.py
@@ -22,9 +22,10 @@ class Regression(object):
         Solves plane equation Z = a(C[0])+b(C[1])+c by solving linear equation Cm=Z where m=[a,b,c]
         C and Z are the dependent and independent variables, respectively.
         """
-        coordinates = centered(N.array(coordinates))
+        coordinates = N.array(coordinates)
         if len(coordinates[0]) > 3:
             coordinates = N.swapaxes(coordinates, 0, 1)
+        coordinates = centered(coordinates)
 
         self.C = add_ones(coordinates[:,0:2])
         self.Z = coordinates[:,-1]
-- 
2.43.0


From 8ca5e32b0d5586efb2243900fbd880ac14c1e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 08/47] fix: rotate the covariance in the same sense as the
 coefficients

The errors of a linear fit depended on the compass direction that the survey
happened to face.
---
 attitude/orientation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/base.py b/attitude/orientation/base.py
index 7cf12cf..274cb0a 100644
--- a/attitude/orientation/base.py
+++ b/attitude/orientation/base.py
@@ -51,7 +51,7 @@ class BaseOrientation(object):
     @property
     def rotated_covariance(self):
         r = rotation(self.azimuth)
-        return dot(r.T,self.covariance_matrix,r)
+        return dot(r,self.covariance_matrix,r.T)
 
     def standard_errors(self):
         return N.sqrt(N.diagonal(self.rotated_covariance))
-- 
2.43.0


From 7fc3fd025d67f8ff04b55777c91a757ac32b594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 09/47] fix: cartesian() is the inverse of spherical()

It expected transposed input and exchanged x and y.
---
 attitude/coordinates/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/attitude/coordinates/__init__.py b/attitude/coordinates/__init__.py
index a407156..c980d80 100644
--- a/attitude/coordinates/__init__.py
+++ b/attitude/coordinates/__init__.py
@@ -9,11 +9,11 @@ def spherical(coordinates):
     return N.column_stack((r,theta,phi))
 
 def cartesian(spherical):
-    r,theta,phi = spherical
+    r,theta,phi = N.transpose(spherical)
     z = r*N.cos(theta)
     zc = r*N.sin(theta)
-    x = zc*N.sin(phi)
-    y = zc*N.cos(phi)
+    x = zc*N.cos(phi)
+    y = zc*N.sin(phi)
     return x,y,z
 
 def centered(coordinates):
-- 
2.43.0


From 6dfa5f322d47ec5957feaac94350b6a55ea2ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 10/47] fix: transform() uses the matrix exponential

The elementwise exponential is not a rotation and does not map v1 onto v2.
---
 attitude/coordinates/rotations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/coordinates/rotations.py b/attitude/coordinates/rotations.py
index 10d30e5..280f10c 100644
--- a/attitude/coordinates/rotations.py
+++ b/attitude/coordinates/rotations.py
@@ -5,6 +5,7 @@ Prior art: http://bl.ocks.org/ivyywang/7c94cb5a3accd9913263
 """
 from __future__ import division
 import numpy as N
+from scipy.linalg import expm
 from mplstereonet import stereonet_math, stereonet2xyz, xyz2stereonet
 from ..geom.util import angle, vector, dot
 
@@ -23,7 +24,7 @@ def transform(v1, v2):
         [0, -x[2], x[1]],
         [x[2], 0, -x[0]],
         [-x[1], x[0], 0]])
-    R = N.exp(A*theta)
+    R = expm(A*theta)
 
     return R
 
-- 
2.43.0


From 4c6bad631bee2fe4593b72ac457a0db584e82ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 11/47] fix: sph2cart rolls components, not the flattened array

---
 attitude/stereonet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 5ce06e3..6080836 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -26,7 +26,7 @@ def ellipse(n=1000, adaptive=False):
 def sph2cart(lat,lon):
     _ = stereonet_math.sph2cart(lat,lon)
     #val = N.array(_).flatten()
-    val = N.roll(_,-1)
+    val = N.roll(_,-1,axis=0)
     val[:-1] *= -1
     return val
 
-- 
2.43.0


From 0ac5c7e8787d685d5025c3e4aea380c5e5bf8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:30 +0000
Subject: [PATCH 12/47] fix: import reduce for compose_affine

---
 attitude/orientation/pca.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index b3518cd..323f4aa 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -7,6 +7,7 @@ from scipy.linalg import lu
 from scipy.sparse.linalg import svds
 from scipy.integrate import quad
 from itertools import chain
+from functools import reduce
 from ..coordinates import centered
 from .base import BaseOrientation, rotation
 from ..error.ellipse import ellipse
-- 
2.43.0


From e40f7124ff680f1119d4bebc85e639994979f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:55 +0000
Subject: [PATCH 13/47] fix: a measurement cannot end up in two groups

create_groups only noticed members of groups that existed before the call, and
with copy=True not even those, because the copied group still referred to the
original members (whose membership it then changed behind the caller's back,
while the copies lost theirs). Membership was also lost when a group preceded
its members in the list, and a rejected group left some of its would-be members
marked as belonging to it.
---
 attitude/orientation/grouped.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index e228ac2..4722a1e 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -19,13 +19,15 @@ class GroupedOrientation(PCAOrientation):
         for o in orientations:
             if hasattr(o,'members'):
                 raise GroupedPlaneError("Cannot group already-grouped planes")
-            o.member_of = self
 
         self.members = orientations
 
         super().__init__(array,**kwargs)
         self.mean = all_values.mean(axis=0)
 
+        for o in orientations:
+            o.member_of = self
+
     def to_mapping(self,**values):
         values.setdefault('centered_array',None)
         values['members'] = [a.hash for a in self.members]
@@ -40,11 +42,19 @@ def create_groups(orientations, *groups, **kwargs):
     # Copy all datasets to be safe (this could be bad for
     # memory usage, so can be disabled).
     if kwargs.pop('copy', True):
-        orientations = [copy(o) for o in orientations]
+        copies = {id(o): copy(o) for o in orientations}
+        orientations = [copies[id(o)] for o in orientations]
+        # Copied groups refer to the copies of their members
+        for o in copies.values():
+            if hasattr(o,'members'):
+                o.members = tuple(copies.get(id(a)) or copy(a)
+                                  for a in o.members)
 
     for o in orientations:
         # Get rid of and recreate group membership
         o.member_of = None
+
+    for o in orientations:
         try:
             grouped += o.members
             for a in o.members:
@@ -66,6 +76,7 @@ def create_groups(orientations, *groups, **kwargs):
     for uid_list in groups:
         vals = [find(uid) for uid in uid_list]
         o = GroupedOrientation(*vals, **kwargs)
+        grouped += vals
         orientations.append(o)
 
     return orientations
-- 
2.43.0


From 052064ff503cd81bd42f6295cfd880c73aea6784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 14/47] fix: shape mismatch in PCAOrientation.error_ellipse

It always raised a ValueError.
---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 323f4aa..7c1bb79 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -451,7 +451,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate major axes into 3d space
         axs_ = N.append(ax,N.zeros((2,1)),axis=1)
-        axs = dot(axs_,matrix[:3])
+        axs = dot(axs_,matrix[:,:3])
         u = N.linspace(0,2*N.pi,1000)
 
         # Get a bundle of vectors defining cone
-- 
2.43.0


From 0ba6ed0a3e17ca472598079e86f6d860fbeb8a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 15/47] fix: plot_interactive passes any attribute to the
 browser intact

The JSON was spliced into a quoted javascript string without escaping, so an
apostrophe, quote, backslash or </script> in e.g. a plane's name broke the page.
---
 attitude/display/nbextension.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/attitude/display/nbextension.py b/attitude/display/nbextension.py
index 45a40da..f3a6942 100644
--- a/attitude/display/nbextension.py
+++ b/attitude/display/nbextension.py
@@ -32,7 +32,7 @@ def init_notebook_mode():
 __TEMPLATE__ = """
 <div id='a__<<<hash>>>'></div>
 <script type='text/javascript'>
-  var data=JSON.parse('<<<data>>>');
+  var data=<<<data>>>;
   attitudeUI(document.querySelector('#a__<<<hash>>>'),data);
 </script>
 """
@@ -44,7 +44,8 @@ def plot_interactive(attitudes):
                  if hasattr(a,'to_mapping') else a
                  for a in attitudes]
 
-    data = dumps(attitudes)
+    # JSON is a subset of javascript, but must not be able to end the script tag
+    data = dumps(attitudes).replace('<','\\u003c')
     script = __TEMPLATE__.replace("<<<data>>>",data)
 
     classname = "A"+str(uuid4())
-- 
2.43.0


From c316c675c21f643f2ae900783226f5459171ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 16/47] fix: point display/lib at the frontend's new location

The symlink was left dangling when js-frontend was renamed, so
init_notebook_mode failed to find attitude-ui.js.
---
 attitude/display/lib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/lib b/attitude/display/lib
index 25a333a..64a739a 120000
--- a/attitude/display/lib
+++ b/attitude/display/lib
@@ -1 +1 @@
-../../js-frontend/lib
\ No newline at end of file
+../../frontend/packages/attitude/lib
\ No newline at end of file
-- 
2.43.0


From 6dc1cad252233c50c8fb2e58fc15b90bfeeccab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 17/47] fix: error_comparison(do_bootstrap=True) raised a
 NameError

---
 attitude/display/error_comparison.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/display/error_comparison.py b/attitude/display/error_comparison.py
index 7932d1c..886aff3 100644
--- a/attitude/display/error_comparison.py
+++ b/attitude/display/error_comparison.py
@@ -8,7 +8,7 @@ from ..geom.util import vector
 from .plot.cov_types import hyperbola, bootstrap_noise, augment, ci
 from .hyperbola import HyperbolicErrors
 
-def bootstrap_ci(deskewed_data):
+def bootstrap_ci(deskewed_data, xvals):
     # Bootstrap with noise std greater of 1m or the standard deviation of residuals
     # (in this case about 1m)
     def func(arr):
@@ -72,7 +72,7 @@ def error_comparison(fit, do_bootstrap=False, **kwargs):
     err.plot(ax, fc='dodgerblue', alpha=0.3, label="Noise-based")
 
     if do_bootstrap:
-        err_bands = bootstrap_ci(deskewed_data)
+        err_bands = bootstrap_ci(deskewed_data, xvals)
         ax.fill_between(xvals, *err_bands, facecolor="none",edgecolor='blue',
                         alpha=.5, label="Noise bootstrap",linestyle='--')
 
-- 
2.43.0


From 13dd3b6caeb6dd501f43467cc101246714e4d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 18/47] fix: DEM extraction works with shapely 2

asShape and asLineString (unused here) no longer exist, geometries are
immutable, and multi-part geometries are not iterable. Interpolating at a point
also passed the coordinates nested one level too deep.
---
 attitude/helpers/dem.py           |  2 +-
 attitude/helpers/interpolation.py | 12 ++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index 881198d..cfe1146 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -7,7 +7,7 @@ from rasterio.features import rasterize, geometry_mask
 from affine import Affine
 from subdivide import subdivide
 
-from shapely.geometry import shape, mapping, asShape
+from shapely.geometry import shape, mapping
 from shapely.ops import transform
 
 from .interpolation import bilinear
diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index 256afa8..f1bdffc 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -16,13 +16,12 @@ def __factory__(order):
         """Interpolates geometries to the specified order"""
         import numpy as N
         from scipy.ndimage import map_coordinates
-        from shapely.geometry import shape, mapping, asLineString
 
         if hasattr(array, 'mask'):
             array = array.astype(float).filled(N.nan)
 
         def point_handler(coords):
-            return line_handler([coords])[0]
+            return line_handler(coords)[0]
 
         def line_handler(coords):
             coordinates = N.array(coords)
@@ -35,13 +34,10 @@ def __factory__(order):
             return list(map(tuple, coordinates))
 
         if geometry.geom_type == "Point":
-            geometry.coords  = point_handler(geometry.coords)
+            return geometry.__class__(point_handler(geometry.coords))
         elif geometry.geom_type == "MultiLineString":
-            return MultiLineString([line_handler(g.coords) for g in geometry])
-        else:
-            geometry.coords  = line_handler(geometry.coords)
-
-        return geometry
+            return MultiLineString([line_handler(g.coords) for g in geometry.geoms])
+        return geometry.__class__(line_handler(geometry.coords))
     return interpolate
 
 nearest = __factory__(0)
-- 
2.43.0


From 1311b575b34599b8eea4e2e73d3caa9280e19320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 19/47] fix: line extraction reads the pixels it interpolates
 between

The window ended at the pixel containing the outermost vertices, so values in
the outer half pixel were clamped instead of interpolated, and a line along a
pixel boundary gave an empty window.
---
 attitude/helpers/dem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index cfe1146..b626a03 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -83,8 +83,12 @@ def extract_line(geom, dem, **kwargs):
     # are outside of footprint of DEM
 
     coords_px = coords_array(px)
-    mins = N.floor(coords_px.min(axis=0))
-    maxs = N.ceil(coords_px.max(axis=0))
+    # Values are interpolated between pixel centers, so the
+    # window extends to those that surround the geometry
+    mins = N.floor(coords_px.min(axis=0)-0.5)
+    maxs = N.ceil(coords_px.max(axis=0)+0.5)
+    mins = N.maximum(mins, 0)
+    maxs = N.minimum(maxs, dem.shape[::-1])
 
     window = tuple((int(mn),int(mx))
         for mn,mx in zip(mins[::-1],maxs[::-1]))
-- 
2.43.0


From 278f8bf76a4632f049b23112911a8d810448f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 20/47] fix: interpolating an integer raster truncated
 elevations to integers

---
 attitude/helpers/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index f1bdffc..158e85f 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -17,8 +17,10 @@ def __factory__(order):
         import numpy as N
         from scipy.ndimage import map_coordinates
 
+        # Interpolated values take the type of the input
+        array = array.astype(float)
         if hasattr(array, 'mask'):
-            array = array.astype(float).filled(N.nan)
+            array = array.filled(N.nan)
 
         def point_handler(coords):
             return line_handler(coords)[0]
-- 
2.43.0


From 16ab82a847da0c2f10db9a374d7f71e35b7cbf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:30 +0000
Subject: [PATCH 21/47] fix: explained_variance is a proportion of variance

It summed the noise covariance (which grows with the cube of axis lengths)
rather than the variances along the principal components.
---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 7c1bb79..ce194c4 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -338,7 +338,7 @@ class PCAOrientation(BaseOrientation):
         represent the planar fit). Analogous to R^2 of
         linear least squares.
         """
-        v = N.diagonal(self.covariance_matrix)
+        v = self.eigenvalues
         return v[0:2].sum()/v.sum()
 
     @property
-- 
2.43.0


From 6965be044d4f197f6fce79a20a83295b60c102d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 22/47] fix: trend_plunge and normal plots raised with current
 matplotlib

Polygon needs a sequence of vertices, and the default alpha a list.
---
 attitude/display/plot/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/attitude/display/plot/__init__.py b/attitude/display/plot/__init__.py
index 62f1734..7989b4b 100644
--- a/attitude/display/plot/__init__.py
+++ b/attitude/display/plot/__init__.py
@@ -33,7 +33,7 @@ def trend_plunge(orientation, *args, **kwargs):
             orientation.error_ellipse(vector=True, level=level)]
         lat,lon = line(el[1], el[0])
 
-        e = Polygon(zip(lat,lon), alpha=a[i], **kwargs)
+        e = Polygon(list(zip(lat,lon)), alpha=a[i], **kwargs)
         ax.add_patch(e)
 
 def normal(orientation, *args, **kwargs):
@@ -42,7 +42,7 @@ def normal(orientation, *args, **kwargs):
     normal = kwargs.pop("normal",False)
     kwargs["linewidth"] = 0
 
-    a = kwargs.pop("alpha",0.7)
+    a = kwargs.pop("alpha",[0.7])
     if len(a) != len(levels):
         a = [a]*len(levels)
 
@@ -50,7 +50,7 @@ def normal(orientation, *args, **kwargs):
         _ = orientation.error_ellipse(vector=True, level=level)
         el = [N.degrees(i) for i in _]
         lat,lon = line(el[1], el[0])
-        e = Polygon(zip(lat,lon), alpha=a[i], **kwargs)
+        e = Polygon(list(zip(lat,lon)), alpha=a[i], **kwargs)
         ax.add_patch(e)
 
 def plane_confidence(orientation, *args, **kwargs):
-- 
2.43.0


From 87cec652a9ec1996751fd7a6bebb2a97388d4adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:40 +0000
Subject: [PATCH 23/47] fix: normal and iterative error curves honour the
 requested level

---
 attitude/stereonet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 6080836..2a33044 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -53,7 +53,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-    c1 = 2
+    c1 = 2*level
     axis_lengths = d[:2]
     f = N.linalg.norm(
         ell*axis_lengths,axis=1)
@@ -133,7 +133,7 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-    c1 = 2
+    c1 = 2*level
 
     def sdot(a,b):
         return sum([i*j for i,j in zip(a,b)])
@@ -173,7 +173,7 @@ def iterative_plane_errors(axes,covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     scales = dict(upper=1,lower=-1,nominal=0)
-    c1 = scales[sheet]*2 # We double the scale of errors since they are symmetrical
+    c1 = scales[sheet]*2*level # We double the scale of errors since they are symmetrical
     c1 *= -1 # We assume upper hemisphere
     if axes[2,2] < 0:
         c1 *= -1
-- 
2.43.0


From 2289b957f45b001d9688f4f0e93e2957b5b1181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:44 +0000
Subject: [PATCH 24/47] fix: tell ellipsoids from hyperboloids in three
 dimensions

---
 attitude/geom/conics.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 6dbdb88..8afe03c 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -94,20 +94,27 @@ class Conic(N.ndarray):
         return N.sqrt(scalar/s)[:,N.newaxis]*V
 
     def __type(self):
-        return N.linalg.det(self[:-1,:-1])
+        """
+        Signs of the eigenvalues of the quadratic part
+        (the determinant alone does not separate ellipsoids
+        from hyperboloids in three dimensions)
+        """
+        return N.sign(N.linalg.eigvalsh(N.array(self[:-1,:-1])))
 
     def is_elliptical(self):
         """
         Check that geometry is an ellipse,
         ellipsoid, or n-dimensional equivalent.
         """
-        return self.__type() > 0
+        s = self.__type()
+        return bool(N.all(s > 0) or N.all(s < 0))
 
     def is_hyperbolic(self):
-        return self.__type() < 0
+        s = self.__type()
+        return bool(N.all(s != 0) and N.any(s > 0) and N.any(s < 0))
 
     def is_parabolic(self):
-        return self.__type() == 0
+        return bool(N.any(self.__type() == 0))
 
     def solve(conic,v):
         """
-- 
2.43.0


From 3678fe73e0ff934d6b1db69cdd43cccfafc816d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 25/47] fix: hyperbolic_errors honours correct_apparent_dip

---
 attitude/display/hyperbola.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/attitude/display/hyperbola.py b/attitude/display/hyperbola.py
index 4e4feb9..cff3086 100644
--- a/attitude/display/hyperbola.py
+++ b/attitude/display/hyperbola.py
@@ -88,7 +88,10 @@ def hyperbolic_errors(hyp_axes, xvals,
 
     # Rotate the whole result if the PCA axes aren't aligned to the
     # major axes of the view coordinate system
-    ax1 = apparent_dip_correction(axes)
+    if correct_apparent_dip:
+        ax1 = apparent_dip_correction(axes)
+    else:
+        ax1 = N.identity(2)
 
     # This is a dirty hack to flip things left to right
     if reverse:
-- 
2.43.0


From 38500784eeabf6d3ee44bca6904e3e1bd304f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 26/47] fix: error bands can be updated before they are plotted

---
 attitude/display/hyperbola.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/attitude/display/hyperbola.py b/attitude/display/hyperbola.py
index cff3086..f17fc6b 100644
--- a/attitude/display/hyperbola.py
+++ b/attitude/display/hyperbola.py
@@ -214,6 +214,7 @@ class HyperbolicErrors(object):
     """
     def __init__(self, *args, **kwargs):
         """Wraps `hyperbolic_errors` function."""
+        self.poly = None
         if len(args):
             self.data = hyperbolic_errors(*args,**kwargs)
         else:
@@ -245,7 +246,9 @@ class HyperbolicErrors(object):
 
     def update_data(self, *args, **kwargs):
         self.data = hyperbolic_errors(*args,**kwargs)
-        self.__set_plot_data(self.data)
+        # Data that is updated prior to plotting is drawn by `plot`
+        if self.poly is not None:
+            self.__set_plot_data(self.data)
 
     def __set_plot_data(self,n):
         coords = N.concatenate((n[1],n[2]),axis=1).T
-- 
2.43.0


From a390dcfcce36b2e5c5f089f0b266a1db1cc57ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:01 +0000
Subject: [PATCH 27/47] fix: drawing a plane in the browser flipped the axes of
 its data in place

---
 frontend/packages/attitude/src/functions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/functions.ts b/frontend/packages/attitude/src/functions.ts
index 78a2d06..9bda3be 100644
--- a/frontend/packages/attitude/src/functions.ts
+++ b/frontend/packages/attitude/src/functions.ts
@@ -55,7 +55,7 @@ const createNominalPlane = function (d, baseData = null) {
 
 const flipAxesIfNeeded = function (axes) {
   if (axes[2][2] < 0) {
-    axes[2] = axes[2].map((e) => -e);
+    return [axes[0], axes[1], axes[2].map((e) => -e)];
   }
   return axes;
 };
-- 
2.43.0


From ecf31174c2d272504bf3575bcb050cbcdb96e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:01 +0000
Subject: [PATCH 28/47] fix: computeCentroidAverage referred to d3, which is
 not imported

---
 frontend/packages/attitude/src/util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/util.ts b/frontend/packages/attitude/src/util.ts
index e2bf71b..bcafa01 100644
--- a/frontend/packages/attitude/src/util.ts
+++ b/frontend/packages/attitude/src/util.ts
@@ -33,7 +33,7 @@ const computeCentroidAverage = function(planes){
     return d.center.map(a => a*len);
   });
 
-  const overallCenter = [0, 1, 2].map(i => d3.sum(weights, d => d[i]/totalLength));
+  const overallCenter = [0, 1, 2].map(i => sum(weights, d => d[i]/totalLength));
   return overallCenter;
 };
 
-- 
2.43.0


From bfefaa278a7180ddc30b08070af9b9d1116e3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:01 +0000
Subject: [PATCH 29/47] fix: convolveAxes is the inverse of deconvolveAxes, and
 neither modifies the axes given

---
 frontend/packages/attitude/src/math.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/math.ts b/frontend/packages/attitude/src/math.ts
index 9765816..2f15cd2 100644
--- a/frontend/packages/attitude/src/math.ts
+++ b/frontend/packages/attitude/src/math.ts
@@ -231,7 +231,7 @@ const convolveAxes = function (axes, sv) {
   // In case we don't pass normalized axes
   let residual;
   [residual, axes] = deconvolveAxes(axes);
-  return axes.map((row, i) => row.map((e) => e * sv[i]));
+  return axes.map((row) => row.map((e, i) => e * sv[i]));
 };
 
 var deconvolveAxes = function (axes) {
@@ -240,6 +240,7 @@ var deconvolveAxes = function (axes) {
   // Inverse of `convolveAxes`
   const ax = transpose(axes);
   const sv = ax.map(norm);
+  axes = axes.map((row) => [...row]);
   for (
     let i = 0, end = axes.length, asc = 0 <= end;
     asc ? i < end : i > end;
-- 
2.43.0


From 4542beac05ca4f6a3376156040921b390e63cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:07 +0000
Subject: [PATCH 30/47] fix: write plain numbers in the mapping of
 single-precision attitudes

---
 attitude/orientation/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/attitude/orientation/base.py b/attitude/orientation/base.py
index 274cb0a..59dd1ca 100644
--- a/attitude/orientation/base.py
+++ b/attitude/orientation/base.py
@@ -105,11 +105,11 @@ class BaseOrientation(object):
             uid=self.hash,
             axes=self.axes.tolist(),
             hyperbolic_axes=self.hyperbolic_axes.tolist(),
-            max_angular_error=max,
-            min_angular_error=min,
-            strike=strike,
-            dip=dip,
-            rake=rake,
+            max_angular_error=float(max),
+            min_angular_error=float(min),
+            strike=float(strike),
+            dip=float(dip),
+            rake=float(rake),
             disabled=disabled)
 
         # Add in user-provided-values, overwriting if
-- 
2.43.0


From 7cf0f2d9e22c7f8f0ed814b56366d184aea32599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:15 +0000
Subject: [PATCH 31/47] fix: PlaneData computes the mean of the points it is
 given

The constructor's mean parameter hid the imported d3 function, so planes
built from extracted points alone raised a TypeError.
---
 frontend/packages/attitude/src/hyperbola.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index 77574d5..bd5fab0 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -6,7 +6,7 @@
  */
 import M from "mathjs";
 import Q from "quaternion";
-import { mean } from "d3-array";
+import { mean as arrayMean } from "d3-array";
 import { line } from "d3-shape";
 import * as d3 from "d3";
 import "d3-jetpack";
@@ -500,7 +500,7 @@ class PlaneData {
     }
     //# Extract mean of data on each axis ##
     if (this.mean == null) {
-      this.mean = [0, 1, 2].map((i) => mean(this.array, (d) => d[i]));
+      this.mean = [0, 1, 2].map((i) => arrayMean(this.array, (d) => d[i]));
     }
     if (this.centered == null) {
       this.centered = this.array.map((d) => M.subtract(d, this.mean));
-- 
2.43.0


From a832f1a07713c19927a3c900a84805a43bc8c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:15 +0000
Subject: [PATCH 32/47] fix: keep the sense of the major axis when slicing
 side-view errors

The arc cosine of the axis' map direction loses its sign, so error bands of
axes towards the third and fourth quadrants had the width of another view.
---
 frontend/packages/attitude/src/hyperbola.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index bd5fab0..4d89645 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -92,7 +92,7 @@ const getRatios = function (x, y) {
 const __planeAngle = function (axes, angle) {
   // Get angle of the plane from the major axes
   const a0 = axes.toArray()[0];
-  return angle - M.acos(vecAngle([a0[0], a0[1], 0], [1, 0, 0]));
+  return angle - Math.atan2(a0[1], a0[0]);
 };
 
 const createTransform = function (
-- 
2.43.0


From 8c03fd44f56eb74fec56bc65ad090e6a9ada42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:15 +0000
Subject: [PATCH 33/47] fix: nominal lines of side views are as long as their
 error band

Their ends were given in data units while the band's are scaled to pixels.
---
 frontend/packages/attitude/src/hyperbola.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index 4d89645..f1b327b 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -324,7 +324,7 @@ rotate(${v})`
     if (nominal) {
       return hyp
         .selectAppend("line.nominal")
-        .attrs({ x1: -largeNumber, x2: largeNumber })
+        .attrs({ x1: -width, x2: width })
         .attr("stroke", (d) => d.color)
         .attr("mask", `url(#${mid})`);
     }
-- 
2.43.0


From 63e31eda1e9a9615bea5fc8ad646e3cb99a2d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:09 +0000
Subject: [PATCH 34/47] fix: draw several levels of errors with one opacity

strike_dip, normal and trend_plunge repeated the list of opacities instead of
its only value, so that the default (or a number) raised a TypeError with
more than one level.
---
 attitude/display/plot/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/attitude/display/plot/__init__.py b/attitude/display/plot/__init__.py
index 7989b4b..fb72a07 100644
--- a/attitude/display/plot/__init__.py
+++ b/attitude/display/plot/__init__.py
@@ -15,6 +15,12 @@ def current_axes():
     import matplotlib.pyplot as P
     return P.gca()
 
+def opacities(alpha, levels):
+    """
+    One opacity for each level; a single one serves them all
+    """
+    return N.broadcast_to(alpha, len(levels))
+
 def trend_plunge(orientation, *args, **kwargs):
     ax = kwargs.pop("ax",current_axes())
     levels = kwargs.pop("levels",[1])
@@ -24,9 +30,7 @@ def trend_plunge(orientation, *args, **kwargs):
     kwargs.update({k:kwargs.pop(k,v)
         for k,v in defaults.items()})
 
-    a = kwargs.pop("alpha",[0.7])
-    if len(a) != len(levels):
-        a = [a]*len(levels)
+    a = opacities(kwargs.pop("alpha",[0.7]), levels)
 
     for i,level in enumerate(levels):
         el = [N.degrees(i) for i in
@@ -42,9 +46,7 @@ def normal(orientation, *args, **kwargs):
     normal = kwargs.pop("normal",False)
     kwargs["linewidth"] = 0
 
-    a = kwargs.pop("alpha",[0.7])
-    if len(a) != len(levels):
-        a = [a]*len(levels)
+    a = opacities(kwargs.pop("alpha",[0.7]), levels)
 
     for i,level in enumerate(levels):
         _ = orientation.error_ellipse(vector=True, level=level)
@@ -78,9 +80,7 @@ def strike_dip(orientation, *args, **kwargs):
     spherical = kwargs.pop("spherical", False)
     kwargs["linewidth"] = 0
 
-    a = kwargs.pop("alpha",[1])
-    if len(a) != len(levels):
-        a = [a]*len(levels)
+    a = opacities(kwargs.pop("alpha",[1]), levels)
 
     for i,level in enumerate(levels):
         el = [N.degrees(ell) for ell in
-- 
2.43.0


From 823662b589ebd08472837d226bee125feff8781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:10 +0000
Subject: [PATCH 35/47] fix: a stereonet's center() reads back its rotation

It returned d3's rotate method instead of calling it.
---
 frontend/packages/attitude/src/stereonet/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 775272e..db000d8 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -371,7 +371,7 @@ function Stereonet(o1 = {}) {
       return __redraw();
     }
   };
-  f.center = __getSet(() => proj.rotate, _);
+  f.center = __getSet(() => proj.rotate(), _);
 
   _ = function (c) {
     clipAngle = c;
-- 
2.43.0


From 8b3d2c6d155ab31aa3b644c3baafd618e2e4210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:11 +0000
Subject: [PATCH 36/47] fix: draw the points of direction labels when they are
 added

The stereonet was refreshed before the points were there, so they appeared
only after the first rotation.
---
 frontend/packages/attitude/src/stereonet/labels.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/labels.ts b/frontend/packages/attitude/src/stereonet/labels.ts
index feb5259..911302b 100644
--- a/frontend/packages/attitude/src/stereonet/labels.ts
+++ b/frontend/packages/attitude/src/stereonet/labels.ts
@@ -113,8 +113,6 @@ const globalLabels = function(opts){
       });
     };
 
-    stereonet.call(horizontalLine);
-
     const esel = container
       .selectAll("g.label")
       .data(labels)
@@ -127,6 +125,9 @@ const globalLabels = function(opts){
     esel.append("text")
       .text(d => d.name);
 
+    // Draws all paths, including the points of labels
+    stereonet.call(horizontalLine);
+
     updateLabels.apply(stereonet);
 
     return stereonet.on('rotate', updateLabels);
-- 
2.43.0


From d412455ebc205ed7e7b8e2d531917c10436245c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:21 +0000
Subject: [PATCH 37/47] fix: a stereonet can return from a small clip angle to
 a hemisphere

clipAngle(90) after clipAngle(45) left the projection clipped at 45 degrees.
---
 frontend/packages/attitude/src/stereonet/index.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index db000d8..619050a 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -178,11 +178,12 @@ function Stereonet(o1 = {}) {
       radius = scale / 2.5 - margin;
     }
 
+    if (shouldClip) {
+      proj.clipAngle(clipAngle);
+    }
+
     if (clipAngle < 89) {
       const _pscale = radius / Math.sin((Math.PI / 180) * clipAngle);
-      if (shouldClip) {
-        proj.clipAngle(clipAngle);
-      }
       proj.scale(_pscale).translate([scale / 2, scale / 2]);
     } else {
       proj.scale(radius).translate([scale / 2, scale / 2]);
-- 
2.43.0


From ce5790923525fe8047458e25af51ca7543d3155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:21 +0000
Subject: [PATCH 38/47] fix: direction labels follow the centre of a stereonet

Setting the centre did not tell of the rotation, so labels stayed where
they were.
---
 frontend/packages/attitude/src/stereonet/index.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 619050a..cad39a0 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -367,10 +367,7 @@ function Stereonet(o1 = {}) {
     if (c === "vertical") {
       c = [0, 90];
     }
-    proj.rotate(c);
-    if (el != null) {
-      return __redraw();
-    }
+    return f.rotate(c);
   };
   f.center = __getSet(() => proj.rotate(), _);
 
-- 
2.43.0


From a7e3f0dd2911d85c52598e8bf21105f203077147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:26 +0000
Subject: [PATCH 39/47] fix: labels of a resized stereonet are hidden on its
 far side

Their distance from the centre was measured from the centre of the
original size.
---
 frontend/packages/attitude/src/stereonet/labels.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/labels.ts b/frontend/packages/attitude/src/stereonet/labels.ts
index 911302b..3b5d5e2 100644
--- a/frontend/packages/attitude/src/stereonet/labels.ts
+++ b/frontend/packages/attitude/src/stereonet/labels.ts
@@ -57,7 +57,6 @@ const globalLabels = function(opts){
   }
 
   return function(stereonet){
-    const sz = stereonet.size();
     let proj = stereonet.projection();
     const svg = stereonet.overlay();
 
@@ -71,8 +70,8 @@ const globalLabels = function(opts){
 
     const updateLabels = function() {
       proj = this.projection();
-      const centerPos = proj.invert([sz/2,sz/2]);
       const width = stereonet.size();
+      const centerPos = proj.invert([width/2,width/2]);
 
       const v = container.selectAll(".label");
 
-- 
2.43.0


From 1ec570072f7730b0074bf722bc4c1b096e0216c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:33 +0000
Subject: [PATCH 40/47] fix: every stereonet of a page can be dragged

The window's listeners of one stereonet replaced those of the others.
---
 frontend/packages/attitude/src/stereonet/interaction.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/interaction.ts b/frontend/packages/attitude/src/stereonet/interaction.ts
index 872c2f3..d90edb6 100644
--- a/frontend/packages/attitude/src/stereonet/interaction.ts
+++ b/frontend/packages/attitude/src/stereonet/interaction.ts
@@ -47,7 +47,8 @@ export default (function(stereonet){
   };
 
   el.on('mousedown', mousedown);
+  // Listeners are named, as there may be several stereonets on a page
   return select(window)
-    .on("mousemove", mousemove)
-    .on("mouseup", mouseup);
+    .on(`mousemove.${stereonet.uid()}`, mousemove)
+    .on(`mouseup.${stereonet.uid()}`, mouseup);
 });
-- 
2.43.0


From 155ffd156aea46c5890dbbf38518f6db40fe7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:55 +0000
Subject: [PATCH 41/47] fix: options of opacityByCertainty can be read, and max
 has its effect

Reading an option called its value, and max was never applied to the scale.
---
 .../packages/attitude/src/stereonet/index.ts  | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index cad39a0..551bc02 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -479,10 +479,25 @@ const opacityByCertainty = function (colorFunc, accessor = null) {
 
   const __getSet = getterSetter(f);
 
-  f.alphaScale = __getSet(alphaScale, (v) => (alphaScale = v));
-  f.angularError = __getSet(angularError, (v) => (angularError = v));
-  f.max = __getSet(maxOpacity, (v) => (maxOpacity = v));
-  f.domain = __getSet(alphaScale.domain(), (v) => alphaScale.domain(v));
+  f.alphaScale = __getSet(
+    () => alphaScale,
+    (v) => (alphaScale = v)
+  );
+  f.angularError = __getSet(
+    () => angularError,
+    (v) => (angularError = v)
+  );
+  f.max = __getSet(
+    () => maxOpacity,
+    (v) => {
+      maxOpacity = v;
+      alphaScale.domain([0, maxOpacity]);
+    }
+  );
+  f.domain = __getSet(
+    () => alphaScale.domain(),
+    (v) => alphaScale.domain(v)
+  );
 
   return f;
 };
-- 
2.43.0


From 9c096b6f2f63fd2d5beb3cc1c31cfb92d71e5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:38 +0000
Subject: [PATCH 42/47] fix: notebook interface can be constructed

AttitudeUI used `this` before calling super, which raises a ReferenceError.
---
 frontend/packages/notebook-ui/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index df3c4ad..b9e1b5e 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -45,10 +45,10 @@ class AttitudeUI extends React.Component {
     };
   }
   constructor(props) {
+    super(props);
     this.getData = this.getData.bind(this);
     this.onStereonetRotate = this.onStereonetRotate.bind(this);
     this.onHover = this.onHover.bind(this);
-    super(props);
     this.state = {
       showGroups: true,
       azimuth: 0,
-- 
2.43.0


From 958d3f2ee1b02c65d6b967b901acbc5df795cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:53 +0000
Subject: [PATCH 43/47] fix: styling planes in the notebook keeps their
 geometries

d3's selection.select hands the datum of the parent down to the child, so
that nominal planes and hovered errors lost the geometry they are drawn from
and vanished when the stereonet was next drawn.
---
 .../packages/notebook-ui/src/components/stereonet.ts   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index e80a7a7..14e49fb 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -20,12 +20,13 @@ import { Switch, Button, Card } from "@blueprintjs/core";
 
 const setHoveredFill = function (d) {
   const s = d3.select(this);
-  const err = s.select("path.error");
+  // `selectAll`, as `select` would replace the geometries of the paths
+  const err = s.selectAll("path.error");
   err.style("fill", d.color);
   err.style("stroke", d.color);
   err.style("opacity", 1);
 
-  s.select("path.nominal").style("stroke", d.color);
+  s.selectAll("path.nominal").style("stroke", d.color);
   if (d.member_of != null) {
     return;
   }
@@ -141,7 +142,10 @@ class StereonetComponent extends React.Component {
           d3.select(this).select("path.error").remove();
         }
 
-        return d3.select(this).select("path.nominal").attr("stroke", d.color);
+        return d3
+          .select(this)
+          .selectAll("path.nominal")
+          .attr("stroke", d.color);
       });
   }
 
-- 
2.43.0


From c7f252de91ba7da7a090a98fbeaab1af20f1f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:19 +0000
Subject: [PATCH 44/47] fix: stereonet that shows the selection follows changes
 of it

The selection was changed in place, and components that compare their data
with the previous ones did not see a difference.
---
 frontend/packages/notebook-ui/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index b9e1b5e..44f19f8 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -164,7 +164,8 @@ class AttitudeUI extends React.Component {
   }
 
   updateSelection(ids) {
-    const collectedIDs = this.state.selection;
+    // A copy, so that a change of the selection can be noticed
+    const collectedIDs = [...this.state.selection];
     for (let id of Array.from(ids)) {
       if (id.members != null && !this.props.allowGroupSelection) {
         continue;
-- 
2.43.0


From cf5e6e904c5824fd55fe6b0ac27ee0ef0994a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:31 +0000
Subject: [PATCH 45/47] fix: hovering a group that has a member missing from
 the data

---
 frontend/packages/notebook-ui/src/index.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index 44f19f8..1a55ab0 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -61,7 +61,10 @@ class AttitudeUI extends React.Component {
     const { attitudes } = this.props;
     const out = [];
     for (var o of Array.from(list)) {
-      out.push(attitudes.find((d) => o === d.uid));
+      const found = attitudes.find((d) => o === d.uid);
+      if (found != null) {
+        out.push(found);
+      }
     }
     return out;
   }
-- 
2.43.0


From 07db010158822d80be934bc4674b42ce9feed28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:31 +0000
Subject: [PATCH 46/47] fix: stereonet without a hover callback ignores the
 pointer

---
 frontend/packages/notebook-ui/src/components/stereonet.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index 14e49fb..9a74df2 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -36,6 +36,7 @@ const setHoveredFill = function (d) {
 class StereonetComponent extends React.Component {
   static defaultProps = {
     onRotate() {},
+    onHover() {},
     mode: "planes",
     drawPlanes: true,
     drawPoles: false,
-- 
2.43.0


From b0d0ee295115cec23cd15938271cbe9eec07434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:49 +0000
Subject: [PATCH 47/47] fix: vertical axis labels no longer change the caller's
 options, so labels drawn again with them stay in place

---
 .../packages/attitude/src/stereonet/vertical.ts   | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/vertical.ts b/frontend/packages/attitude/src/stereonet/vertical.ts
index b14fe52..fb100ec 100644
--- a/frontend/packages/attitude/src/stereonet/vertical.ts
+++ b/frontend/packages/attitude/src/stereonet/vertical.ts
@@ -12,19 +12,14 @@ export default (stereonet) =>
     if (opts == null) {
       opts = {};
     }
-    if (opts.startOffset == null) {
-      opts.startOffset = 10;
-    }
     // correct for start at bottom
-    opts.startOffset += 100;
-    if (opts.labelPadding == null) {
-      opts.labelPadding = 2;
-    }
+    const startOffset = (opts.startOffset ?? 10) + 100;
+    const labelPadding = opts.labelPadding ?? 2;
     let { dipLabels, nLabels } = opts;
     if (nLabels == null) {
       nLabels = 2;
     }
-    const dy = opts.labelPadding;
+    const dy = labelPadding;
 
     const g = stereonet.overlay();
 
@@ -54,7 +49,7 @@ export default (stereonet) =>
       .attr("transform", function (d, i) {
         const szm = innerRadius + m;
         const angle = ((locs[i] - 90) * Math.PI) / 180;
-        const z = innerRadius + opts.labelPadding + padding[i];
+        const z = innerRadius + labelPadding + padding[i];
         const x = szm + Math.cos(angle) * z;
         let y = szm + Math.sin(angle) * z;
         if (i === 0) {
@@ -105,7 +100,7 @@ export default (stereonet) =>
       .text("Azimuth →")
       .attrs({
         "xlink:href": sphereId,
-        startOffset: `${innerRadius * opts.startOffset * d2r}`,
+        startOffset: `${innerRadius * startOffset * d2r}`,
         method: "stretch",
       });
     dip
-- 
2.43.0

