From 7b69768490b8e9b9edf5bc1d2c72c590dc0350b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 01/36] fix: copying an undefined Bounds no longer makes it
 defined

---
 jax_galsim/bounds.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 69ab874..87b6d11 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -78,7 +78,6 @@ class Bounds:
                         "Single argument to %s must be either a Bounds or a Position"
                         % (self.__class__.__name__)
                     )
-                self._isdefined = True
             elif len(args) == 2:
                 if isinstance(args[0], Position) and isinstance(args[1], Position):
                     self._isdefined = True
-- 
2.43.0


From 086c2c66e252db4c0e4f402430cf6cb07338724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 02/36] fix: BoundsI from arrays is undefined when either
 dimension is empty

---
 jax_galsim/bounds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 87b6d11..680d4b9 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -525,7 +525,7 @@ class BoundsI(Bounds):
             self._ymin, "BoundsI must be initialized with integer values"
         )
 
-        if self.deltax < 1 and self.deltay < 1:
+        if self.deltax < 1 or self.deltay < 1:
             self._isdefined = False
 
     def _check_scalar(self, x, name):
@@ -653,7 +653,7 @@ class BoundsI(Bounds):
                 ret._ymin = children[1]
             ret.deltax = aux_data["deltax"]
             ret.deltay = aux_data["deltay"]
-            if ret.deltax < 1 and ret.deltay < 1:
+            if ret.deltax < 1 or ret.deltay < 1:
                 ret._isdefined = False
             else:
                 ret._isdefined = True
-- 
2.43.0


From 622c9a980d4f2eadc997f2021df6869ca7d2f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 03/36] fix: Image.replaceNegative works under jit

---
 jax_galsim/image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 63e4da7..fd31c98 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1173,7 +1173,9 @@ class Image(object):
     def replaceNegative(self, replace_value=0):
         if self.isconst:
             raise GalSimImmutableError("Cannot modify an immutable Image", self)
-        self._array = self.array.at[self.array < 0].set(replace_value)
+        self._array = self.array.at[...].set(
+            jnp.where(self.array < 0, replace_value, self.array)
+        )
 
     def __eq__(self, other):
         # Note that numpy.array_equal can return True if the dtypes of the two arrays involved are
-- 
2.43.0


From ce86237dcfe0f3f29ef0732c096abe80b959152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 04/36] fix: images made by _Image (transpose, flips,
 rotations) have a constness flag

---
 jax_galsim/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index fd31c98..e15d3e4 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1353,6 +1353,7 @@ def _Image(array, bounds, wcs):
         array = _safe_cast(array, jnp.issubdtype(ret._dtype, jnp.integer), ret._dtype)
     ret._array = array
     ret._bounds = bounds
+    ret._is_const = False
     return ret
 
 
-- 
2.43.0


From 3455a56323ffd4da2ea146b3dfa53b3f3da55b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 05/36] fix: Image accepts a traced pixel scale, so its FFTs
 run under jit

---
 jax_galsim/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index e15d3e4..5611f3c 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -8,6 +8,7 @@ from jax.tree_util import register_pytree_node_class
 from jax_galsim.bounds import Bounds, BoundsD, BoundsI
 from jax_galsim.core.utils import (
     cast_numpy_array_to_native_byte_order,
+    cast_to_float,
     ensure_hashable,
     implements,
 )
@@ -263,7 +264,7 @@ class Image(object):
                     wcs=wcs,
                     scale=scale,
                 )
-            self.wcs = PixelScale(float(scale))
+            self.wcs = PixelScale(cast_to_float(scale, accept_strings=True))
         else:
             if wcs is not None and not isinstance(wcs, BaseWCS):
                 raise TypeError("wcs parameters must be a galsim.BaseWCS instance")
-- 
2.43.0


From 8975129e38fc37fb04e9ad42c781c51af8630b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 06/36] fix: WCS of images whose origin is not (1,1) can be
 written to a FITS header

---
 jax_galsim/wcs.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index ea3a9db..75fafd3 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -196,6 +196,38 @@ class BaseWCS(_galsim.BaseWCS):
         depr("withOrigin", 2.3, "shiftOrigin")
         return self.shiftOrigin(origin, world_origin, color)
 
+    @implements(_galsim.BaseWCS.writeToFitsHeader)
+    def writeToFitsHeader(self, header, bounds):
+        # First write the XMIN, YMIN values
+        xmin = _cast_to_static_numeric_scalar(bounds.xmin)
+        ymin = _cast_to_static_numeric_scalar(bounds.ymin)
+        header["GS_XMIN"] = (xmin, "GalSim image minimum x coordinate")
+        header["GS_YMIN"] = (ymin, "GalSim image minimum y coordinate")
+
+        if xmin != 1 or ymin != 1:
+            # ds9 always assumes the image has an origin at (1,1), so we always write the
+            # WCS to the file with this convention.  We'll convert back when we read it
+            # in if necessary.
+            delta = PositionI(1 - xmin, 1 - ymin)
+            bounds = bounds.shift(delta)
+            wcs = self.shiftOrigin(delta)
+        else:
+            wcs = self
+
+        wcs._writeHeader(header, bounds)
+
+        if hasattr(self, "header"):
+            # Store the items that are in self.header in the header if they weren't already put
+            # there by the call to wcs._writeHeader() call.  (We don't want to overwrite the WCS.)
+            for key in self.header:
+                if (
+                    key not in header
+                    and key.strip() != ""
+                    and key.strip() != "COMMENT"
+                    and key.strip() != "HISTORY"
+                ):
+                    header[key] = self.header[key]
+
     # A lot of classes will need these checks, so consolidate them here
     def _set_origin(self, origin, world_origin=None):
         if origin is None:
-- 
2.43.0


From 85e28ef0a1e01bde1299567497cc926e35b656fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 07/36] fix: ShearWCS and OffsetShearWCS can be read back from
 a FITS header

---
 jax_galsim/wcs.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index 75fafd3..cdb413f 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -1102,6 +1102,13 @@ class ShearWCS(LocalWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        return ShearWCS(scale, Shear(g1=g1, g2=g2))
+
     @implements(_galsim.wcs.ShearWCS.copy)
     def copy(self):
         return ShearWCS(self._scale, self._shear)
@@ -1502,6 +1509,19 @@ class OffsetShearWCS(UniformWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        x0 = header["GS_X0"]
+        y0 = header["GS_Y0"]
+        u0 = header["GS_U0"]
+        v0 = header["GS_V0"]
+        return OffsetShearWCS(
+            scale, Shear(g1=g1, g2=g2), PositionD(x0, y0), PositionD(u0, v0)
+        )
+
     @implements(_galsim.wcs.OffsetShearWCS.copy)
     def copy(self):
         return OffsetShearWCS(self.scale, self.shear, self.origin, self.world_origin)
-- 
2.43.0


From 7d667de05a9ffe328998c222884c98facc5c72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 08/36] fix: keep every term of a TPV polynomial whose last
 coefficient starts an order

---
 jax_galsim/fitswcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/fitswcs.py b/jax_galsim/fitswcs.py
index 0165486..32887dc 100644
--- a/jax_galsim/fitswcs.py
+++ b/jax_galsim/fitswcs.py
@@ -332,7 +332,7 @@ class GSFitsWCS(CelestialWCS):
 
         maxk = max(np.nonzero(pv1)[0][-1], np.nonzero(pv2)[0][-1])
         # maxk = (order+1) * (order+2) / 2 - 1
-        order = int(np.floor(np.sqrt(2 * (maxk + 1)))) - 1
+        order = int(np.ceil((np.sqrt(8 * maxk + 9) - 3) / 2))
         self.pv = np.zeros((2, order + 1, order + 1))
 
         # Another strange thing is that the two matrices are defined in the opposite order
-- 
2.43.0


From 29e5ea763e8457daf67e7d7bdcad74a555e8a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 09/36] fix: read TNX headers whose distortion is already an
 ordinary polynomial

---
 jax_galsim/fitswcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/fitswcs.py b/jax_galsim/fitswcs.py
index 32887dc..3318b62 100644
--- a/jax_galsim/fitswcs.py
+++ b/jax_galsim/fitswcs.py
@@ -579,8 +579,9 @@ class GSFitsWCS(CelestialWCS):
                     ) / m
                     ym[m, 1:] += ((2.0 * m - 1.0) * d * ym[m - 1, :-1]) / m
 
-            pv2 = np.dot(xm.T, np.dot(pv, ym))
-            return pv2
+            pv = np.dot(xm.T, np.dot(pv, ym))
+
+        return pv
 
     def _apply_ab(self, x, y, ab):
         # Note: this is used for both pv and ab, since the action is the same.
-- 
2.43.0


From 8d9f93e9b8151d8e9b4d388460b8cd0592bda44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 10/36] fix: TanWCS puts the tangent point where the affine u
 is zero, not minus u0

---
 jax_galsim/fitswcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/fitswcs.py b/jax_galsim/fitswcs.py
index 3318b62..51cc000 100644
--- a/jax_galsim/fitswcs.py
+++ b/jax_galsim/fitswcs.py
@@ -898,7 +898,7 @@ def TanWCS(affine, world_origin, units=arcsec):
     # (x0',y0') = (x0,y0) - CD^-1 (u0,v0)
     uv = jnp.array(
         [
-            affine.world_origin.x * units / degrees,
+            -affine.world_origin.x * units / degrees,
             affine.world_origin.y * units / degrees,
         ]
     )
-- 
2.43.0


From b6e14bad63581713ee15f2bece7c9e7c79e8156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 11/36] fix: combining transformations does not modify the
 caller's flux ratio array

---
 jax_galsim/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/transform.py b/jax_galsim/transform.py
index e78a67e..3e4deed 100644
--- a/jax_galsim/transform.py
+++ b/jax_galsim/transform.py
@@ -83,7 +83,7 @@ class Transformation(GSObject):
             self._offset.x += dx
             self._offset.y += dy
             self._params["jac"] = self._jac.dot(obj._jac)
-            self._params["flux_ratio"] *= obj._flux_ratio
+            self._params["flux_ratio"] = self._params["flux_ratio"] * obj._flux_ratio
             self._original = obj._original
         else:
             self._original = obj
-- 
2.43.0


From 9c0dc0458693f9f4999fc99cf0fb6039fb478c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 12/36] fix: drawing in real space keeps the data type of the
 image

---
 jax_galsim/gsobject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index a5cf51b..8dcf252 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -835,10 +835,12 @@ The JAX-GalSim version of ``drawImage``
             # so we explicitly round to ints if needed
             temp.array = jnp.around(temp.array)
 
+        # the image keeps its own data type
+        array = temp._array.astype(image._array.dtype)
         if add_to_image:
-            image._array = image._array.at[...].add(temp._array)
+            image._array = image._array.at[...].add(array)
         else:
-            image._array = temp._array
+            image._array = array
 
         return temp.array.sum(dtype=float)
 
-- 
2.43.0


From 00e5ac8d3bf04299e3629b4a7156fe10d8fa0fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 13/36] fix: interpolating images uses both neighbours for
 interpolants of odd range

---
 jax_galsim/interpolatedimage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 9564bd3..beba6d5 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1017,7 +1017,7 @@ def _draw_with_interpolant_xval(x, y, xmin, ymin, zp, interp):
     yp = yi + ymin
     ny = zp.shape[0]
 
-    irange = interp.ixrange // 2
+    irange = (interp.ixrange + 1) // 2
     iinds = jnp.arange(-irange, irange + 1)
 
     wx, xind = _interp_weight_1d_xval(
@@ -1124,7 +1124,7 @@ def _draw_with_interpolant_kval(kx, ky, kxmin, kymin, zp, interp):
     kyp = kyi + kymin
     nky = zp.shape[0]
 
-    irange = interp.ixrange // 2
+    irange = (interp.ixrange + 1) // 2
     iinds = jnp.arange(-irange, irange + 1)
 
     wkx, kxind = _interp_weight_1d_kval(
-- 
2.43.0


From 67ccc17bb9f56ea189f05a04fd174e6572ee094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 14/36] fix: akima end slopes at the upper edge use the last
 intervals

---
 jax_galsim/core/interpolate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/core/interpolate.py b/jax_galsim/core/interpolate.py
index 34e2339..bc9e265 100644
--- a/jax_galsim/core/interpolate.py
+++ b/jax_galsim/core/interpolate.py
@@ -44,8 +44,8 @@ def _akima_interp_coeffs_nojax(x, y):
     # at the ends
     s0 = mi[0:1]
     s1 = (mi[0:1] + mi[1:2]) / 2.0
-    snm2 = (mi[-3:-2] + mi[-2:-1]) / 2.0
-    snm1 = mi[-2:-1]
+    snm2 = (mi[-2:-1] + mi[-1:]) / 2.0
+    snm1 = mi[-1:]
 
     wim1 = np.abs(mi[3:] - mi[2:-1])
     wi = np.abs(mi[1:-2] - mi[0:-3])
@@ -78,8 +78,8 @@ def _akima_interp_coeffs_jax(x, y):
     # at the ends
     s0 = mi[0:1]
     s1 = (mi[0:1] + mi[1:2]) / 2.0
-    snm2 = (mi[-3:-2] + mi[-2:-1]) / 2.0
-    snm1 = mi[-2:-1]
+    snm2 = (mi[-2:-1] + mi[-1:]) / 2.0
+    snm1 = mi[-1:]
 
     wim1 = jnp.abs(mi[3:] - mi[2:-1])
     wi = jnp.abs(mi[1:-2] - mi[0:-3])
-- 
2.43.0


From 625dec2acb001e2ec5ee94d6af04218b33cd61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 15/36] fix: bisection keeps the bracket when an iterate hits
 the root exactly

---
 jax_galsim/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/core/utils.py b/jax_galsim/core/utils.py
index 839d065..f10ab48 100644
--- a/jax_galsim/core/utils.py
+++ b/jax_galsim/core/utils.py
@@ -169,7 +169,7 @@ def bisect_for_root(func, low, high, niter=75):
         mid = (low + high) / 2.0
         fmid = func(mid)
         return jax.lax.cond(
-            fmid * fhigh < 0,
+            fmid * flow > 0,
             lambda func, low, flow, mid, fmid, high, fhigh: (
                 func,
                 mid,
-- 
2.43.0


From bbb67af51330befeab56b100058abc241b9ef01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 16/36] fix: centroid of an interpolated image is relative to
 its center

---
 jax_galsim/interpolatedimage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index beba6d5..7901423 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -581,7 +581,8 @@ class _InterpolatedImageImpl(GSObject):
         tot = jnp.sum(self._pad_image.array)
         xpos = jnp.sum(x * self._pad_image.array) / tot
         ypos = jnp.sum(y * self._pad_image.array) / tot
-        return PositionD(xpos, ypos)
+        # account for the offset of the profile center from the image center
+        return PositionD(xpos - self._offset.x, ypos - self._offset.y)
 
     @property
     def _max_sb(self):
-- 
2.43.0


From cb0e3fe9075c440f686e2844ddc99b42c4a038db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 17/36] fix: stepk of elongated interpolated images uses a size
 that contains the flux

---
 jax_galsim/interpolatedimage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 7901423..dcf84fe 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1182,7 +1182,7 @@ def _flux_frac(a, x, y, cenx, ceny):
     dx = jnp.reshape(dx, (a.shape[0], a.shape[1], 1))
     dy = y - ceny
     dy = jnp.reshape(dy, (a.shape[0], a.shape[1], 1))
-    d = jnp.arange(min(a.shape[0], a.shape[1]))
+    d = jnp.arange(max(a.shape[0], a.shape[1]))
     d = jnp.reshape(d, (1, 1, -1))
     msk = (jnp.abs(dx) <= d) & (jnp.abs(dy) <= d)
     res = jnp.sum(
@@ -1203,7 +1203,7 @@ def _calculate_size_containing_flux(image, thresh):
     fluxes = _flux_frac(image.array, x, y, cenx, ceny)
     # we add 1 since the flux fraction computation above starts at
     # one pixel and jnp.arange starts at zero
-    d = jnp.arange(min(image.array.shape[0], image.array.shape[1])) + 1.0
+    d = jnp.arange(max(image.array.shape[0], image.array.shape[1])) + 1.0
     p = jnp.sign(thresh)
     msk = (p * fluxes) >= (p * thresh)
     return (
-- 
2.43.0


From 567abf35003f81c93cdc2dce49e4c7bbf526fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 18/36] fix: number of photons of a profile with negative flux
 is positive without Poisson variation

---
 jax_galsim/core/draw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index 181bf46..67869f0 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -453,7 +453,11 @@ def _calculate_n_photons_flux_nonzero(
         lambda poisson_flux, flux, mod_flux, eta_factor, rng, g: _adjust_flux_g_poisson(
             poisson_flux, flux, mod_flux, eta_factor, rng, g
         ),
-        lambda poisson_flux, flux, mod_flux, eta_factor, rng, g: (mod_flux, g, rng),
+        lambda poisson_flux, flux, mod_flux, eta_factor, rng, g: (
+            jnp.abs(mod_flux),
+            g,
+            rng,
+        ),
         poisson_flux,
         flux,
         mod_flux,
-- 
2.43.0


From 390396e80b99f877547a1abc95b28d608e87bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 19/36] fix: photon arrays that keep no photons have zero flux,
 not NaN

---
 jax_galsim/photon_array.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index e97ee2b..4e790c8 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -316,7 +316,8 @@ class PhotonArray:
             lambda flux, ratio: flux,
             lambda flux, ratio: flux * ratio,
             jnp.where(self._nokeep, 0.0, self._flux),
-            self._Ntot / self._num_keep,
+            # the maximum avoids NaNs when no photons are kept
+            self._Ntot / jnp.maximum(self._num_keep, 1),
         )
 
     @flux.setter
@@ -879,7 +880,9 @@ class PhotonArray:
             self._y,
             # this computation is the same as self.flux, but we've left it duplicated here
             # so that we don't change this line to self._flux only by accident in the future
-            jnp.where(self._nokeep, 0.0, self._flux) * self._Ntot / self._num_keep,
+            jnp.where(self._nokeep, 0.0, self._flux)
+            * self._Ntot
+            / jnp.maximum(self._num_keep, 1),
             image.bounds.xmin,
             image.bounds.ymin,
             image._array,
-- 
2.43.0


From 2a97f2a1b294ddf8c2a71e0b8c2884193580288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 20/36] fix: photon arrays read from file keep the fluxes of
 masked arrays

---
 jax_galsim/photon_array.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 4e790c8..0b42086 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -979,9 +979,8 @@ class PhotonArray:
             x=jnp.array(cast_numpy_array_to_native_byte_order(data["x"])),
             y=jnp.array(cast_numpy_array_to_native_byte_order(data["y"])),
             flux=jnp.array(cast_numpy_array_to_native_byte_order(data["flux"])),
-        )
-        photons._nokeep = jnp.array(
-            cast_numpy_array_to_native_byte_order(data["_nokeep"])
+            # needed on construction so that the fluxes are scaled properly
+            _nokeep=jnp.array(cast_numpy_array_to_native_byte_order(data["_nokeep"])),
         )
         if "dxdz" in names:
             photons.dxdz = jnp.array(
-- 
2.43.0


From d202757006c16d72c481ed9323320e6fec1002ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 21/36] fix: shooting into a fixed-size photon array larger
 than the count keeps the total flux

---
 jax_galsim/gsobject.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 8dcf252..75bf191 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1332,7 +1332,14 @@ The JAX-GalSim version of ``drawPhot``
 
         if photons.x.shape[0] > 0:
             _rng = BaseDeviate(rng)
-            self._shoot(photons, _rng)
+            if pa._JAX_GALSIM_PHOTON_ARRAY_SIZE is not None:
+                # the profiles spread their flux over the whole array, so keep only
+                # n_photons of them after shooting
+                photons._num_keep = photons.size()
+                self._shoot(photons, _rng)
+                photons._num_keep = n_photons
+            else:
+                self._shoot(photons, _rng)
             if rng is not None:
                 rng._state = _rng._state
 
-- 
2.43.0


From 059e07b84798cd56d86a84e38b9591d15ae2daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 22/36] fix: drawPhot accepts a tuple of photon operators

---
 jax_galsim/gsobject.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 75bf191..e4f3a85 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1312,8 +1312,9 @@ The JAX-GalSim version of ``drawPhot``
             rng._state = _dfret.rng._state
         else:
             rng = _dfret.rng
-        for i in range(len(photon_ops)):
-            photon_ops[i] = _dfret.photon_ops[i]
+        if isinstance(photon_ops, list):
+            for i in range(len(photon_ops)):
+                photon_ops[i] = _dfret.photon_ops[i]
 
         image._array = _dfret.image._array
 
-- 
2.43.0


From f5a34c91a4e51ca3bd810dfed65d7c6e594a9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 23/36] fix: linearised core of the Spergel photon-shooting CDF
 integrates the right powers

---
 jax_galsim/spergel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index 200d197..c2163ee 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -486,11 +486,11 @@ class Spergel(GSObject):
         a = knur - shoot_rmin * b
 
         def cumulflux(z, a, b, zmin, nu, norm=1.0):
-            flux_min = a / 3.0 * zmin * zmin * zmin + b / 2.0 * zmin * zmin
+            flux_min = a / 2.0 * zmin * zmin + b / 3.0 * zmin * zmin * zmin
             c1 = fz_nup1(zmin, nu)
             res = jnp.where(
                 z <= zmin,
-                a / 3.0 * z * z * z + b / 2.0 * z * z,
+                a / 2.0 * z * z + b / 3.0 * z * z * z,
                 flux_min + c1 - fz_nup1(z, nu),
             )
             return res / norm
-- 
2.43.0


From 6ae641056d98e0e04c6fddbfba3526039e6f9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 24/36] fix: CCDNoise advances the random state when applied

---
 jax_galsim/noise.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 3956cf6..16c7666 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -334,23 +334,27 @@ class CCDNoise(BaseNoise):
             self.sky_level,
         )
 
+        # the deviates used inside of lax.cond are not linked to self.rng, so the
+        # advanced random state is returned and set on self.rng explicitly
+
         # First add the poisson noise from the signal + sky:
-        noise_array = jax.lax.cond(
+        noise_array, self.rng._key = jax.lax.cond(
             self.gain > 0.0,
             lambda pd, na, gain: (
-                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain
+                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain,
+                pd._key,
             ),
-            lambda pd, na, gain: na,
+            lambda pd, na, gain: (na, pd._key),
             self._pd,
             noise_array,
             self.gain,
         )
 
         # Now add the read noise:
-        noise_array = jax.lax.cond(
+        noise_array, self.rng._key = jax.lax.cond(
             self.read_noise > 0.0,
-            lambda na, gd: na + gd.generate(na),
-            lambda na, gd: na,
+            lambda na, gd: (na + gd.generate(na), gd._key),
+            lambda na, gd: (na, gd._key),
             noise_array,
             self._gd,
         )
-- 
2.43.0


From 18df0aee169df8655eb52171910b8e5f4ed700a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 25/36] fix: DeviateNoise can be rebuilt from its pytree leaves

---
 jax_galsim/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 16c7666..ea4bea0 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -505,7 +505,7 @@ class DeviateNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(rng=children[0])
+        return cls(children[0])
 
 
 @implements(_galsim.noise.VariableGaussianNoise)
-- 
2.43.0


From 02db727f1f5d1ca2e891bccf10d185a57348339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 26/36] fix: CCDNoise.withVariance shares the random state like
 the other noise models

---
 jax_galsim/noise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index ea4bea0..2058e39 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -391,7 +391,7 @@ class CCDNoise(BaseNoise):
 
     def _withVariance(self, variance):
         current_var = self._getVariance()
-        return jax.lax.cond(
+        ret = jax.lax.cond(
             current_var > 0.0,
             lambda variance, current_var: self._withScaledVariance(
                 variance / current_var
@@ -400,6 +400,9 @@ class CCDNoise(BaseNoise):
             variance,
             current_var,
         )
+        # lax.cond returns a copy of the random state, so link to it again
+        ret._rng = self.rng
+        return ret
 
     def _withScaledVariance(self, variance_ratio):
         return CCDNoise(
-- 
2.43.0


From 38659f65bfdd8df6ad0ee90cb3590fff8b498284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 27/36] fix: Poisson and CCD noise can be applied under jit
 with a traced sky level

---
 jax_galsim/noise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 2058e39..2ad3db3 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -208,7 +208,7 @@ class PoissonNoise(BaseNoise):
         # right if the sky has a fractional part.  So only subtract off the integer part of the
         # sky at the end.  For float images, you get the same answer either way, so it doesn't
         # matter.
-        frac_sky = self.sky_level - image.dtype(self.sky_level)
+        frac_sky = self.sky_level - jnp.asarray(self.sky_level).astype(image.dtype)
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
@@ -323,7 +323,9 @@ class CCDNoise(BaseNoise):
         noise_array = image.array.copy().astype(float)
 
         # cf. PoissonNoise._applyTo function
-        frac_sky = self.sky_level - image.dtype(self.sky_level)  # 0 if dtype = float
+        frac_sky = self.sky_level - jnp.asarray(self.sky_level).astype(
+            image.dtype
+        )  # 0 if dtype = float
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
-- 
2.43.0


From 05b80480275f5d3c70e2517e3637062eeaacfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 28/36] fix: images holding photons but no added_flux can be
 rebuilt from their pytree leaves

---
 jax_galsim/image.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 5611f3c..3121927 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1257,12 +1257,11 @@ class Image(object):
             aux_data = {"dtype": self.dtype, "isconst": self.isconst}
         # other routines may add these attributes to images on the fly
         # we have to include them here so that JAX knows how to handle them in jitting etc.
-        if hasattr(self, "added_flux"):
-            children += (self.added_flux,)
+        extra = tuple(nm for nm in ("added_flux", "photons") if hasattr(self, nm))
+        children += tuple(getattr(self, nm) for nm in extra)
+        aux_data["extra"] = extra
         if hasattr(self, "header"):
             aux_data["header"] = self.header
-        if hasattr(self, "photons"):
-            children += (self.photons,)
 
         return (children, aux_data)
 
@@ -1274,24 +1273,16 @@ class Image(object):
         obj.wcs = children[1]
         if "bounds" in aux_data:
             obj._bounds = aux_data["bounds"]
-            obj._dtype = aux_data["dtype"]
-            obj._is_const = aux_data["isconst"]
-            if len(children) > 2:
-                obj.added_flux = children[2]
-            if "header" in aux_data:
-                obj.header = aux_data["header"]
-            if len(children) > 3:
-                obj.photons = children[3]
+            extra = children[2:]
         else:
             obj._bounds = children[2]
-            obj._dtype = aux_data["dtype"]
-            obj._is_const = aux_data["isconst"]
-            if len(children) > 3:
-                obj.added_flux = children[3]
-            if "header" in aux_data:
-                obj.header = aux_data["header"]
-            if len(children) > 4:
-                obj.photons = children[4]
+            extra = children[3:]
+        obj._dtype = aux_data["dtype"]
+        obj._is_const = aux_data["isconst"]
+        for nm, val in zip(aux_data["extra"], extra):
+            setattr(obj, nm, val)
+        if "header" in aux_data:
+            obj.header = aux_data["header"]
         return obj
 
     @classmethod
-- 
2.43.0


From c896142798b2fd38c31e3316fa7e0d4685a64b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 29/36] fix: noise models keep all their pytree leaves when
 rebuilt (vmap over noise objects)

---
 jax_galsim/noise.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 2ad3db3..776609e 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -126,7 +126,9 @@ class BaseNoise:
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(rng=children[0])
+        ret = cls.__new__(cls)
+        (ret._rng,) = children
+        return ret
 
 
 @implements(_galsim.noise.GaussianNoise)
@@ -185,7 +187,9 @@ class GaussianNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(sigma=children[0], rng=children[1])
+        ret = cls.__new__(cls)
+        ret._sigma, ret._rng = children
+        return ret
 
 
 @implements(_galsim.noise.PoissonNoise)
@@ -277,7 +281,9 @@ class PoissonNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(sky_level=children[0], rng=children[1])
+        ret = cls.__new__(cls)
+        ret._sky_level, ret._rng = children
+        return ret
 
 
 @implements(_galsim.noise.CCDNoise)
@@ -450,12 +456,9 @@ class CCDNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(
-            rng=children[0],
-            sky_level=children[1],
-            gain=children[2],
-            read_noise=children[3],
-        )
+        ret = cls.__new__(cls)
+        ret._rng, ret._sky_level, ret._gain, ret._read_noise = children
+        return ret
 
 
 @implements(_galsim.noise.DeviateNoise)
@@ -510,7 +513,9 @@ class DeviateNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(children[0])
+        ret = cls.__new__(cls)
+        (ret._rng,) = children
+        return ret
 
 
 @implements(_galsim.noise.VariableGaussianNoise)
@@ -591,4 +596,6 @@ class VariableGaussianNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(children[0], children[1])
+        ret = cls.__new__(cls)
+        ret._rng, ret._var_image = children
+        return ret
-- 
2.43.0


From 9f962f7a74bb3fe3568ad01362a067a5eb8fa77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 30/36] fix: BinomialDeviate can be drawn from inside jit and
 noise models compare equal after jit

---
 jax_galsim/noise.py  | 19 +++++++++++--------
 jax_galsim/random.py | 13 +++++++++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 776609e..82b5d95 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -264,10 +264,13 @@ class PoissonNoise(BaseNoise):
         return PoissonNoise(rng=rng, sky_level=self.sky_level)
 
     def __repr__(self):
-        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (self.rng, self.sky_level)
+        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (
+            self.rng,
+            ensure_hashable(self.sky_level),
+        )
 
     def __str__(self):
-        return "galsim.PoissonNoise(sky_level=%s)" % (self.sky_level)
+        return "galsim.PoissonNoise(sky_level=%s)" % (ensure_hashable(self.sky_level),)
 
     def tree_flatten(self):
         """This function flattens the PoissonNoise into a list of children
@@ -432,16 +435,16 @@ class CCDNoise(BaseNoise):
     def __repr__(self):
         return "galsim.CCDNoise(rng=%r, sky_level=%r, gain=%r, read_noise=%r)" % (
             self.rng,
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def __str__(self):
         return "galsim.CCDNoise(sky_level=%r, gain=%r, read_noise=%r)" % (
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def tree_flatten(self):
diff --git a/jax_galsim/random.py b/jax_galsim/random.py
index 2cf2db2..c66bb25 100644
--- a/jax_galsim/random.py
+++ b/jax_galsim/random.py
@@ -448,6 +448,19 @@ class BinomialDeviate(BaseDeviate):
         # argument order is scale, concentration
         return (_key, p), jnp.sum(jrandom.bernoulli(subkey, p))
 
+    def tree_flatten(self):
+        """This function flattens the PRNG into a list of children
+        nodes that will be traced by JAX and auxiliary static data."""
+        # the number of trials sets the shape of the draws, so it has to be static
+        children = (self._state, {"p": self._params["p"]})
+        aux_data = {"N": ensure_hashable(self._params["N"])}
+        return (children, aux_data)
+
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        """Recreates an instance of the class from flatten representation"""
+        return cls(children[0], **(children[1]), **aux_data)
+
     def __repr__(self):
         return "galsim.BinomialDeviate(seed=%r, N=%r, p=%r)" % (
             ensure_hashable(jrandom.key_data(self._key)),
-- 
2.43.0


From ef24b39812a75f6ea492d5acb208d35ae69e5e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 31/36] fix: InterpolatedImage does not change when the image
 it was made from is modified later

---
 jax_galsim/interpolatedimage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index dcf84fe..5c7677a 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -126,6 +126,10 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
                 "Interpolated images must use a float-type image.", image.dtype
             )
 
+        # images are mutable, so make sure that later changes to the caller's image do not
+        # change this profile (the array itself is immutable and does not need to be copied)
+        image = copy.copy(image)
+
         self._jax_children = (
             image,
             dict(
-- 
2.43.0


From 68bdc39252e48a1838ed0fce1dffd02d14494e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 32/36] fix: Convolution.is_axisymmetric and is_analytic_k work
 inside jit

---
 jax_galsim/convolve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/convolve.py b/jax_galsim/convolve.py
index e6df076..248078f 100644
--- a/jax_galsim/convolve.py
+++ b/jax_galsim/convolve.py
@@ -220,7 +220,7 @@ class Convolution(GSObject):
     @property
     def _is_axisymmetric(self):
         axi_list = [obj.is_axisymmetric for obj in self.obj_list]
-        return jnp.all(jnp.array(axi_list)).item()
+        return all(axi_list)
 
     @property
     def _is_analytic_x(self):
@@ -228,14 +228,14 @@ class Convolution(GSObject):
             return self.obj_list[0].is_analytic_x
         elif self.real_space and len(self.obj_list) == 2:
             ax_list = [obj.is_analytic_x for obj in self.obj_list]
-            return jnp.all(jnp.arry(ax_list)).item()  # return a bool
+            return all(ax_list)
         else:
             return False
 
     @property
     def _is_analytic_k(self):
         ak_list = [obj.is_analytic_k for obj in self.obj_list]
-        return jnp.all(jnp.array(ak_list)).item()  # return a bool
+        return all(ak_list)
 
     @property
     def _centroid(self):
-- 
2.43.0


From a1684dcd76f2ef7b218b8e57a4c58817d5151cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 33/36] fix: derivatives of Shear from and to eta are finite at
 zero shear

---
 jax_galsim/shear.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/shear.py b/jax_galsim/shear.py
index b066389..23a94ae 100644
--- a/jax_galsim/shear.py
+++ b/jax_galsim/shear.py
@@ -251,9 +251,12 @@ class Shear(object):
 
     def _g2eta(self, absg):
         absgsq = absg * absg
+        msk = absg > 1.0e-4
+        # masked so that the unused branch does not make the derivatives NaN at zero
+        absg_msk = jnp.where(msk, absg, 0.5)
         return jnp.where(
-            absg > 1.0e-4,
-            2.0 * jnp.arctanh(absg) / absg,
+            msk,
+            2.0 * jnp.arctanh(absg_msk) / absg_msk,
             # This doesn't have as much trouble with accuracy, but have to avoid absg=0,
             # so might as well Taylor expand for small values.
             2.0 + absgsq * ((2.0 / 3.0) + absgsq * 0.4),
@@ -261,9 +264,12 @@ class Shear(object):
 
     def _eta2g(self, abseta):
         absetasq = abseta * abseta
+        msk = abseta > 1.0e-4
+        # masked so that the unused branch does not make the derivatives NaN at zero
+        abseta_msk = jnp.where(msk, abseta, 1.0)
         return jnp.where(
-            abseta > 1.0e-4,
-            jnp.tanh(0.5 * abseta) / abseta,
+            msk,
+            jnp.tanh(0.5 * abseta_msk) / abseta_msk,
             0.5 + absetasq * ((-1.0 / 24.0) + absetasq * (1.0 / 240.0)),
         )
 
-- 
2.43.0


From ad778a6437be3023256065cad74d892d24059d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:30 +0000
Subject: [PATCH 34/36] fix: derivatives of Exponential values are finite at
 the centre

---
 jax_galsim/exponential.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/exponential.py b/jax_galsim/exponential.py
index 1d47254..78900af 100644
--- a/jax_galsim/exponential.py
+++ b/jax_galsim/exponential.py
@@ -6,6 +6,7 @@ import numpy as np
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue
+from jax_galsim.core.math import safe_sqrt
 from jax_galsim.core.utils import ensure_hashable, implements
 from jax_galsim.gsobject import GSObject
 from jax_galsim.random import UniformDeviate
@@ -128,7 +129,7 @@ class Exponential(GSObject):
         return self._norm
 
     def _xValue(self, pos):
-        r = jnp.sqrt(pos.x**2 + pos.y**2)
+        r = safe_sqrt(pos.x**2 + pos.y**2)
         return self._norm * jnp.exp(-r * self._inv_r0)
 
     def _kValue(self, kpos):
-- 
2.43.0


From 8d1d2f361a518e66c48047086b43364b5c48bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:30 +0000
Subject: [PATCH 35/36] fix: derivatives of the Postel deprojection are finite
 at the tangent point

---
 jax_galsim/celestial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index 5645eda..e530b9d 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -31,6 +31,7 @@ import numpy as np
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.angle import Angle, _Angle, arcsec, degrees, radians
+from jax_galsim.core.math import safe_sqrt
 from jax_galsim.core.utils import ensure_hashable, implements
 
 
@@ -567,7 +568,7 @@ class CelestialCoord(object):
             cosc = 1.0 - rsq / 2.0
             sinc_over_r = jnp.sqrt(4.0 - rsq) / 2.0
         else:
-            r = jnp.sqrt(rsq)
+            r = safe_sqrt(rsq)
             cosc = jnp.cos(r)
             sinc_over_r = jnp.sinc(r / jnp.pi)
 
-- 
2.43.0


From 88df091d5d96814cf37894cf9edf67dc8e3c91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:30 +0000
Subject: [PATCH 36/36] fix: derivatives of Spergel values are finite at the
 centre

---
 jax_galsim/spergel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index c2163ee..ced3313 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -6,6 +6,7 @@ from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.bessel import kv
 from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue
+from jax_galsim.core.math import safe_sqrt
 from jax_galsim.core.utils import bisect_for_root, ensure_hashable, implements
 from jax_galsim.gsobject import GSObject
 from jax_galsim.random import UniformDeviate
@@ -412,8 +413,12 @@ class Spergel(GSObject):
 
     @jax.jit
     def _xValue(self, pos):
-        r = jnp.sqrt(pos.x**2 + pos.y**2) * self._inv_r0
-        res = jnp.where(r == 0, self._xnorm0, fz_nu(r, jax.lax.stop_gradient(self.nu)))
+        r = safe_sqrt(pos.x**2 + pos.y**2) * self._inv_r0
+        # masked so that the unused branch does not make the derivatives NaN at r=0
+        r_msk = jnp.where(r == 0, 1.0, r)
+        res = jnp.where(
+            r == 0, self._xnorm0, fz_nu(r_msk, jax.lax.stop_gradient(self.nu))
+        )
         return self._xnorm * res
 
     @jax.jit
-- 
2.43.0

