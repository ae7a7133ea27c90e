From c32a7b7863a081304d9191527185bf03995d68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 01/67] fix: keep the image's dtype and round integer images
 once when drawing

drawReal and drawFFT_finish replaced the array of the image by a double
precision one while image.dtype still named the requested type, so drawing into
(or asking for) float32 or integer images gave float64 arrays, complex64 k images
became complex128, and each component of a sum was rounded separately when drawn
into an integer image. Draw into a double precision temporary and cast once.
---
 jax_galsim/gsobject.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index a5cf51b..37f69b4 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -821,24 +821,21 @@ The JAX-GalSim version of ``drawImage``
 
     @implements(_galsim.GSObject.drawReal)
     def drawReal(self, image, add_to_image=False):
+        from jax_galsim.image import Image
+
         if image.wcs is None or not image.wcs.isPixelScale():
             raise _galsim.GalSimValueError(
                 "drawReal requires an image with a PixelScale wcs", image
             )
-        im1 = self._drawReal(image)
-        temp = im1.subImage(image.bounds)
-
-        if jnp.issubdtype(temp.array.dtype, jnp.floating) and jnp.issubdtype(
-            image.array.dtype, jnp.integer
-        ):
-            # jax-galsim's rounding of float-to-int is platform dependent
-            # so we explicitly round to ints if needed
-            temp.array = jnp.around(temp.array)
+        # Draw into a double precision temporary, so that the result is cast to the
+        # type of the image only once, after all components have been summed.
+        temp = Image(bounds=image.bounds, wcs=image.wcs, dtype=float)
+        temp = self._drawReal(temp).subImage(image.bounds)
 
         if add_to_image:
-            image._array = image._array.at[...].add(temp._array)
+            image += temp
         else:
-            image._array = temp._array
+            image._copyFrom(temp)
 
         return temp.array.sum(dtype=float)
 
@@ -951,22 +948,15 @@ The JAX-GalSim version of ``drawImage``
             jnp.fft.irfft2(kimg_shift, breal.numpyShape())
         )
         real_image = Image(
-            bounds=breal, array=real_image_arr, dtype=image.dtype, wcs=image.wcs
+            bounds=breal, array=real_image_arr, dtype=float, wcs=image.wcs
         )
 
-        if jnp.issubdtype(real_image.array.dtype, jnp.floating) and jnp.issubdtype(
-            image.array.dtype, jnp.integer
-        ):
-            # jax-galsim's rounding of float-to-int is platform dependent
-            # so we explicitly round to ints if needed
-            real_image.array = jnp.around(real_image.array)
-
         # Add (a portion of) this to the original image.
         temp = real_image.subImage(image.bounds)
         if add_to_image:
-            image._array = image._array.at[...].add(temp._array)
+            image += temp
         else:
-            image._array = temp._array
+            image._copyFrom(temp)
 
         return temp.array.sum(dtype=float)
 
@@ -1076,9 +1066,9 @@ The JAX-GalSim version of ``drawImage``
         im2 = self._drawKImage(im2)
 
         if not add_to_image:
-            image._array = im2._array
+            image._copyFrom(im2)
         else:
-            image._array = image._array.at[...].add(im2._array)
+            image += im2
 
         image_in._array = image._array
         image_in._bounds = image._bounds
-- 
2.43.0


From 9b2c3ec15066dbd9b1b40c8975f9a2ea4448e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 02/67] fix: bounds that are empty in one direction are
 undefined

BoundsI built from JAX scalars was only considered undefined when both widths were
below one pixel, so e.g. BoundsI(jnp.array(5), jnp.array(3), 1, 4) was a defined
bounds of negative width.
---
 jax_galsim/bounds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index 69ab874..b7b4c6d 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -526,7 +526,7 @@ class BoundsI(Bounds):
             self._ymin, "BoundsI must be initialized with integer values"
         )
 
-        if self.deltax < 1 and self.deltay < 1:
+        if self.deltax < 1 or self.deltay < 1:
             self._isdefined = False
 
     def _check_scalar(self, x, name):
@@ -654,7 +654,7 @@ class BoundsI(Bounds):
                 ret._ymin = children[1]
             ret.deltax = aux_data["deltax"]
             ret.deltay = aux_data["deltay"]
-            if ret.deltax < 1 and ret.deltay < 1:
+            if ret.deltax < 1 or ret.deltay < 1:
                 ret._isdefined = False
             else:
                 ret._isdefined = True
-- 
2.43.0


From dcf617b11288546a3c78d532f745185e9a859d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 03/67] fix: images made by _Image are not const

transpose, flip_lr, flip_ud, rot_cw, rot_ccw and rot_180 returned images without
an _is_const attribute, so their isconst, ==, fill, repr, pytree flattening and
every other use of it raised AttributeError.
---
 jax_galsim/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 63e4da7..4ac7a9a 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1351,6 +1351,7 @@ def _Image(array, bounds, wcs):
         array = _safe_cast(array, jnp.issubdtype(ret._dtype, jnp.integer), ret._dtype)
     ret._array = array
     ret._bounds = bounds
+    ret._is_const = False
     return ret
 
 
-- 
2.43.0


From d313c80afd1bf9d4f561744feda9314ab8fbc81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 04/67] fix: refuse in-place arithmetic on const images

Constant images refuse setValue, fill, copyFrom and so on, but im += 1, im *= 2 and the
other in-place operators silently modified them (GalSim raises).
---
 jax_galsim/image.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 4ac7a9a..d873b2e 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1468,6 +1468,12 @@ def check_image_consistency(im1, im2, integer=False):
             raise _galsim.GalSimValueError("Image must have integer values.", im2)
 
 
+# jax arrays cannot be marked as read-only, so the in-place operators have to check this
+def _check_image_mutable(im):
+    if im.isconst:
+        raise GalSimImmutableError("Cannot modify an immutable Image", im)
+
+
 def Image_add(self, other):
     check_image_consistency(self, other)
     try:
@@ -1478,6 +1484,7 @@ def Image_add(self, other):
 
 
 def Image_iadd(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1510,6 +1517,7 @@ def Image_rsub(self, other):
 
 
 def Image_isub(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1538,6 +1546,7 @@ def Image_mul(self, other):
 
 
 def Image_imul(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1570,6 +1579,7 @@ def Image_rdiv(self, other):
 
 
 def Image_idiv(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other)
     try:
         a = other.array
@@ -1605,6 +1615,7 @@ def Image_rfloordiv(self, other):
 
 
 def Image_ifloordiv(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1638,6 +1649,7 @@ def Image_rmod(self, other):
 
 
 def Image_imod(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1661,6 +1673,7 @@ def Image_pow(self, other):
 
 
 def Image_ipow(self, other):
+    _check_image_mutable(self)
     if not isinstance(other, int) and not isinstance(other, float):
         raise TypeError("Can only raise an image to a float or int power!")
 
@@ -1692,6 +1705,7 @@ def Image_and(self, other):
 
 
 def Image_iand(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1711,6 +1725,7 @@ def Image_xor(self, other):
 
 
 def Image_ixor(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
@@ -1730,6 +1745,7 @@ def Image_or(self, other):
 
 
 def Image_ior(self, other):
+    _check_image_mutable(self)
     check_image_consistency(self, other, integer=True)
     try:
         a = other.array
-- 
2.43.0


From 0e3f778226f66dc042c2da672f2a41d44fc3aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 05/67] fix: refuse to wrap onto bounds outside the image
 before changing it

---
 jax_galsim/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index d873b2e..90d0593 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -756,6 +756,7 @@ class Image(object):
 
         # Get this at the start to check for invalid bounds and raise the exception before
         # possibly writing data past the edge of the image.
+        self.subImage(bounds)
         if not hermitian:
             return self._wrap(bounds, False, False, None)
         elif hermitian == "x":
-- 
2.43.0


From 839d03bc25f670e91cb66d14598ebf40026f1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 06/67] fix: accept complex shears with zero imaginary part
 given as arrays

---
 jax_galsim/shear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/shear.py b/jax_galsim/shear.py
index b066389..43eb80c 100644
--- a/jax_galsim/shear.py
+++ b/jax_galsim/shear.py
@@ -37,7 +37,7 @@ class Shear(object):
         # Unnamed arg must be a complex shear
         if len(args) == 1:
             self._g = args[0]
-            if not (jnp.all(jnp.iscomplex(self._g)) or isinstance(self._g, complex)):
+            if not jnp.iscomplexobj(self._g):
                 raise TypeError(
                     "Non-keyword argument to Shear must be complex g1 + 1j * g2"
                 )
-- 
2.43.0


From 553b04568486a601d23e296f48d75f06be1c89b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 07/67] fix: Postel projection of a point onto itself is not
 NaN

---
 jax_galsim/celestial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index 5645eda..17b5cec 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -488,7 +488,8 @@ class CelestialCoord(object):
         elif projection[0] == "l":
             k = jnp.sqrt(2.0 / (1.0 + cosc))
         else:
-            c = jnp.arccos(cosc)
+            # rounding can put cosc just outside [-1, 1]
+            c = jnp.arccos(jnp.clip(cosc, -1.0, 1.0))
             # k = c / np.sin(c)
             # np.sinc is defined as sin(pi x) / (pi x)
             # So need to divide by pi first.
-- 
2.43.0


From 76c097648b142884160a03ee94f7d734427e26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 08/67] fix: CelestialCoord does not modify the declination
 angle it is given

---
 jax_galsim/celestial.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index 17b5cec..c885fc5 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -80,10 +80,12 @@ class CelestialCoord(object):
                 if dec._rad < -np.pi / 2 or dec._rad > np.pi / 2:
                     raise ValueError("dec must be between -90 deg and +90 deg.")
             else:
-                dec._rad = equinox.error_if(
-                    jnp.array(dec._rad),
-                    jnp.any((dec._rad < -jnp.pi / 2) | (dec._rad > jnp.pi / 2)),
-                    "dec must be between -90 deg and +90 deg.",
+                dec = _Angle(
+                    equinox.error_if(
+                        jnp.array(dec._rad),
+                        jnp.any((dec._rad < -jnp.pi / 2) | (dec._rad > jnp.pi / 2)),
+                        "dec must be between -90 deg and +90 deg.",
+                    )
                 )
 
             # Normal case
-- 
2.43.0


From f1f587f8a88d591620ccf21cd67d956305d2add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 09/67] fix: write WCS headers for images whose origin is not
 (1,1)

---
 jax_galsim/wcs.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index ea3a9db..b0446c5 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -196,6 +196,38 @@ class BaseWCS(_galsim.BaseWCS):
         depr("withOrigin", 2.3, "shiftOrigin")
         return self.shiftOrigin(origin, world_origin, color)
 
+    @implements(_galsim.BaseWCS.writeToFitsHeader)
+    def writeToFitsHeader(self, header, bounds):
+        # First write the XMIN, YMIN values
+        xmin = int(_cast_to_static_numeric_scalar(bounds.xmin))
+        ymin = int(_cast_to_static_numeric_scalar(bounds.ymin))
+        header["GS_XMIN"] = (xmin, "GalSim image minimum x coordinate")
+        header["GS_YMIN"] = (ymin, "GalSim image minimum y coordinate")
+
+        if xmin != 1 or ymin != 1:
+            # ds9 always assumes the image has an origin at (1,1), so we always write the
+            # WCS to the file with this convention.  We'll convert back when we read it
+            # in if necessary.
+            delta = PositionI(1 - xmin, 1 - ymin)
+            bounds = bounds.shift(delta)
+            wcs = self.shiftOrigin(delta)
+        else:
+            wcs = self
+
+        wcs._writeHeader(header, bounds)
+
+        if hasattr(self, "header"):
+            # Store the items that are in self.header in the header if they weren't already put
+            # there by the call to wcs._writeHeader() call.  (We don't want to overwrite the WCS.)
+            for key in self.header:
+                if (
+                    key not in header
+                    and key.strip() != ""
+                    and key.strip() != "COMMENT"
+                    and key.strip() != "HISTORY"
+                ):
+                    header[key] = self.header[key]
+
     # A lot of classes will need these checks, so consolidate them here
     def _set_origin(self, origin, world_origin=None):
         if origin is None:
-- 
2.43.0


From b00bba1c4e98ec62b4e15f6f1b79c67c753c458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 10/67] fix: read ShearWCS and OffsetShearWCS from FITS headers

---
 jax_galsim/wcs.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index b0446c5..1f31236 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -1102,6 +1102,13 @@ class ShearWCS(LocalWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        return ShearWCS(scale, Shear(g1=g1, g2=g2))
+
     @implements(_galsim.wcs.ShearWCS.copy)
     def copy(self):
         return ShearWCS(self._scale, self._shear)
@@ -1502,6 +1509,19 @@ class OffsetShearWCS(UniformWCS):
         )
         return self.affine()._writeLinearWCS(header, bounds)
 
+    @staticmethod
+    def _readHeader(header):
+        scale = header["GS_SCALE"]
+        g1 = header["GS_G1"]
+        g2 = header["GS_G2"]
+        x0 = header["GS_X0"]
+        y0 = header["GS_Y0"]
+        u0 = header["GS_U0"]
+        v0 = header["GS_V0"]
+        return OffsetShearWCS(
+            scale, Shear(g1=g1, g2=g2), PositionD(x0, y0), PositionD(u0, v0)
+        )
+
     @implements(_galsim.wcs.OffsetShearWCS.copy)
     def copy(self):
         return OffsetShearWCS(self.scale, self.shear, self.origin, self.world_origin)
-- 
2.43.0


From 78c57d86ce27e632c4fcbc5c82932ff151fb8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 11/67] fix: FITS writers accept keyword arguments, tuples and
 3-d JAX arrays

---
 jax_galsim/fits.py | 62 ++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/jax_galsim/fits.py b/jax_galsim/fits.py
index 8c7837f..294d8bf 100644
--- a/jax_galsim/fits.py
+++ b/jax_galsim/fits.py
@@ -76,49 +76,45 @@ def _image_as_numpy(image):
 
 
 @implements(_galsim.fits.write)
-def write(*args, **kwargs):
-    if len(args) >= 1 and isinstance(args[0], Image):
-        with _image_as_numpy(args[0]) as image:
-            _galsim.fits.write(image, *args[1:], **kwargs)
+def write(image, *args, **kwargs):
+    if isinstance(image, Image):
+        with _image_as_numpy(image) as image:
+            _galsim.fits.write(image, *args, **kwargs)
     else:
-        _galsim.fits.write(*args, **kwargs)
+        _galsim.fits.write(image, *args, **kwargs)
 
 
 @implements(_galsim.fits.writeMulti)
-def writeMulti(*args, **kwargs):
-    if len(args) >= 1:
-        with ExitStack() as stack:
+def writeMulti(image_list, *args, **kwargs):
+    with ExitStack() as stack:
+        gsimage_list = [
+            (
+                stack.enter_context(_image_as_numpy(image))
+                if isinstance(image, Image)
+                else image
+            )
+            for image in image_list
+        ]
+        _galsim.fits.writeMulti(gsimage_list, *args, **kwargs)
+
+
+@implements(_galsim.fits.writeCube)
+def writeCube(image_list, *args, **kwargs):
+    with ExitStack() as stack:
+        if isinstance(image_list, (list, tuple)):
             gsimage_list = [
                 (
                     stack.enter_context(_image_as_numpy(image))
-                    if isinstance(image, Image)
+                    if (isinstance(image, Image) or isinstance(image, jax.Array))
                     else image
                 )
-                for image in args[0]
+                for image in image_list
             ]
-            _galsim.fits.writeMulti(gsimage_list, *args[1:], **kwargs)
-    else:
-        _galsim.fits.writeMulti(*args, **kwargs)
-
-
-@implements(_galsim.fits.writeCube)
-def writeCube(*args, **kwargs):
-    if len(args) >= 1:
-        with ExitStack() as stack:
-            if isinstance(args[0], list):
-                gsimage_list = [
-                    (
-                        stack.enter_context(_image_as_numpy(image))
-                        if (isinstance(image, Image) or isinstance(image, jax.Array))
-                        else image
-                    )
-                    for image in args[0]
-                ]
-            else:
-                gsimage_list = args[0]
-            _galsim.fits.writeCube(gsimage_list, *args[1:], **kwargs)
-    else:
-        _galsim.fits.writeCube(*args, **kwargs)
+        elif isinstance(image_list, jax.Array):
+            gsimage_list = np.asarray(image_list)
+        else:
+            gsimage_list = image_list
+        _galsim.fits.writeCube(gsimage_list, *args, **kwargs)
 
 
 Image.write = write
-- 
2.43.0


From 09d00da4b4694a4b46bdcde14ea6527281cc8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 12/67] fix: wrapping integer images onto bounds of less than
 1/50 of their area

---
 jax_galsim/core/wrap_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/core/wrap_image.py b/jax_galsim/core/wrap_image.py
index de41040..6218eb1 100644
--- a/jax_galsim/core/wrap_image.py
+++ b/jax_galsim/core/wrap_image.py
@@ -29,7 +29,7 @@ def _block_reduce_index(sim, nxwrap, nywrap):
     y = jnp.moveaxis(y, -1, -2)
     # now the array shape is (ny * nx, nywrap, nxwrap)
     # then we sum on axis 0 to get the final shape (nywrap, nxwrap)
-    return y.sum(axis=0)
+    return y.sum(axis=0, dtype=sim.dtype)
 
 
 @partial(jax.jit, static_argnames=("nx", "ny", "nxwrap", "nywrap"))
-- 
2.43.0


From 648405e511ebed14b480903b6058b85437916b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 13/67] fix: centroid of interpolated images includes their
 offset

---
 jax_galsim/interpolatedimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 9564bd3..56b1118 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -581,7 +581,7 @@ class _InterpolatedImageImpl(GSObject):
         tot = jnp.sum(self._pad_image.array)
         xpos = jnp.sum(x * self._pad_image.array) / tot
         ypos = jnp.sum(y * self._pad_image.array) / tot
-        return PositionD(xpos, ypos)
+        return PositionD(xpos, ypos) - self._offset
 
     @property
     def _max_sb(self):
-- 
2.43.0


From 93722f006163a7a32a27a063d24c949d49667c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 14/67] fix: step size of interpolated images that are not
 square

---
 jax_galsim/interpolatedimage.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 56b1118..a07d49c 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -1174,6 +1174,11 @@ def _draw_with_interpolant_kval(kx, ky, kxmin, kymin, zp, interp):
     return z.reshape(orig_shape)
 
 
+def _max_box_half_size(a):
+    # like galsim, only boxes that fit in the shorter dimension are considered
+    return (min(a.shape[0], a.shape[1]) - 1) // 2
+
+
 @jax.jit
 def _flux_frac(a, x, y, cenx, ceny):
     a = jnp.reshape(a, (a.shape[0], a.shape[1], 1))
@@ -1181,7 +1186,7 @@ def _flux_frac(a, x, y, cenx, ceny):
     dx = jnp.reshape(dx, (a.shape[0], a.shape[1], 1))
     dy = y - ceny
     dy = jnp.reshape(dy, (a.shape[0], a.shape[1], 1))
-    d = jnp.arange(min(a.shape[0], a.shape[1]))
+    d = jnp.arange(_max_box_half_size(a) + 1)
     d = jnp.reshape(d, (1, 1, -1))
     msk = (jnp.abs(dx) <= d) & (jnp.abs(dy) <= d)
     res = jnp.sum(
@@ -1200,21 +1205,15 @@ def _calculate_size_containing_flux(image, thresh):
     cenx, ceny = image.center.x, image.center.y
     x, y = image.get_pixel_centers()
     fluxes = _flux_frac(image.array, x, y, cenx, ceny)
-    # we add 1 since the flux fraction computation above starts at
-    # one pixel and jnp.arange starts at zero
-    d = jnp.arange(min(image.array.shape[0], image.array.shape[1])) + 1.0
     p = jnp.sign(thresh)
     msk = (p * fluxes) >= (p * thresh)
-    return (
-        jnp.argmin(
-            jnp.where(
-                msk,
-                d,
-                jnp.inf,
-            )
-        )
-        + 0.5
+    # if no box contains enough flux, we use the next size up as galsim does
+    d = jnp.where(
+        jnp.any(msk),
+        jnp.argmax(msk),
+        _max_box_half_size(image.array) + 1,
     )
+    return d + 0.5
 
 
 # this version doe snot match galsim's maxk operation exactly,
-- 
2.43.0


From ab7e494dd4d7968872434b83890b7a42865c2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 15/67] fix: _InterpolatedImage of images that are not centered
 on (0,0)

---
 jax_galsim/interpolatedimage.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index a07d49c..5fc4b81 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -209,7 +209,7 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
         return super().__getattribute__(name)
 
     def __dir__(self):
-        allattrs = set(self.__dict__.keys() + dir(self.__class__))
+        allattrs = set(self.__dict__.keys()) | set(dir(self.__class__))
         allattrs -= set(_KEYS_TO_REMOVE)
         return list(allattrs)
 
@@ -251,7 +251,10 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
     @property
     @implements(_galsim.interpolatedimage.InterpolatedImage.image)
     def image(self):
-        return self._original._image
+        image = self._original._image
+        if not self._jax_aux_data["_recenter_image"]:
+            image.setCenter(self._jax_children[0].center)
+        return image
 
     def __hash__(self):
         # Definitely want to cache this, since the size of the image could be large.
@@ -612,9 +615,14 @@ class _InterpolatedImageImpl(GSObject):
         # Figure out the offset to apply based on the original image (not the padded one).
         # We will apply this below in _sbp.
         offset = self._parse_offset(self._jax_children[1]["offset"])
-        return self._adjust_offset(
+        offset = self._adjust_offset(
             self._image.bounds, offset, None, self._jax_aux_data["use_true_center"]
         )
+        if not self._jax_aux_data["_recenter_image"]:
+            # Here (0,0) of the profile is (0,0) of the original image, not its center.
+            cen = self._jax_children[0].center
+            offset = PositionD(offset.x - cen.x, offset.y - cen.y)
+        return offset
 
     @property
     def _image(self):
@@ -629,8 +637,9 @@ class _InterpolatedImageImpl(GSObject):
         else:
             image = self._jax_children[0].copy(dtype=float)
 
-        if self._jax_aux_data["_recenter_image"]:
-            image.setCenter(0, 0)
+        # All of the internal images are centered on (0,0). If the user's image is not
+        # to be recentered, we account for that in the offset.
+        image.setCenter(0, 0)
 
         return image
 
-- 
2.43.0


From 605140401f5adfd180ab4da8c78735249556d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 16/67] fix: InterpolatedImage copies the image it is given
 instead of modifying it

---
 jax_galsim/interpolatedimage.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 5fc4b81..4537187 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -126,6 +126,10 @@ class InterpolatedImage(Transformation, metaclass=DirMeta):
                 "Interpolated images must use a float-type image.", image.dtype
             )
 
+        if _obj is None:
+            # Later changes to the user's image must not change the profile.
+            image = image.copy()
+
         self._jax_children = (
             image,
             dict(
@@ -518,13 +522,15 @@ class _InterpolatedImageImpl(GSObject):
                 )
 
         if calculate_stepk or calculate_maxk or flux is not None:
-            image.array = jnp.array(image.array)
+            # Attach the check to a copy, so that the image we were given is not modified.
+            image = image.copy()
             image.array = equinox.error_if(
-                image.array,
+                jnp.array(image.array),
                 jnp.any(image.array.sum() == 0.0),
                 "This input image has zero total flux. It does not define a "
                 "valid surface brightness profile.",
             )
+            self._jax_children = (image, self._jax_children[1])
 
     @doc_inherit
     def withGSParams(self, gsparams=None, **kwargs):
-- 
2.43.0


From 13c3f64870c8ec1630b2b28f42dec1303608dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 17/67] fix: binomial deviates can be used as arguments of
 compiled functions

---
 jax_galsim/random.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jax_galsim/random.py b/jax_galsim/random.py
index 2cf2db2..f3e7365 100644
--- a/jax_galsim/random.py
+++ b/jax_galsim/random.py
@@ -448,6 +448,19 @@ class BinomialDeviate(BaseDeviate):
         # argument order is scale, concentration
         return (_key, p), jnp.sum(jrandom.bernoulli(subkey, p))
 
+    def tree_flatten(self):
+        """This function flattens the PRNG into a list of children
+        nodes that will be traced by JAX and auxiliary static data."""
+        # N sets the shape of an array and so it has to be static
+        children = (self._state, {"p": self._params["p"]})
+        aux_data = {"N": ensure_hashable(self._params["N"])}
+        return (children, aux_data)
+
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        """Recreates an instance of the class from flatten representation"""
+        return cls(children[0], **(children[1]), **aux_data)
+
     def __repr__(self):
         return "galsim.BinomialDeviate(seed=%r, N=%r, p=%r)" % (
             ensure_hashable(jrandom.key_data(self._key)),
-- 
2.43.0


From d848c800c0717aba733080273c6be9b892113955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 18/67] fix: CCDNoise advances its random state instead of
 repeating its noise

---
 jax_galsim/noise.py | 47 +++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 3956cf6..f28e693 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -289,21 +289,6 @@ class CCDNoise(BaseNoise):
         self._gain = cast_to_float(gain)
         self._read_noise = cast_to_float(read_noise)
 
-    @property
-    def _pd(self):
-        return PoissonDeviate(self.rng)
-
-    @property
-    def _gd(self):
-        return jax.lax.cond(
-            self.gain > 0.0,
-            lambda rng, read_noise, gain: GaussianDeviate(rng, sigma=read_noise / gain),
-            lambda rng, read_noise, gain: GaussianDeviate(rng, sigma=read_noise),
-            self.rng,
-            self.read_noise,
-            self.gain,
-        )
-
     @property
     @implements(_galsim.noise.CCDNoise.sky_level)
     def sky_level(self):
@@ -334,26 +319,38 @@ class CCDNoise(BaseNoise):
             self.sky_level,
         )
 
+        # The deviates made inside of the branches below cannot share the state of our rng.
+        # So we pass its key through them to make sure that the state advances.
+        def _add_poisson_noise(key, na, gain):
+            pd = PoissonDeviate(key)
+            na = pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain
+            return pd._key, na
+
+        def _add_read_noise(key, na, sigma):
+            gd = GaussianDeviate(key, sigma=sigma)
+            na = gd.add_generate(na)
+            return gd._key, na
+
         # First add the poisson noise from the signal + sky:
-        noise_array = jax.lax.cond(
+        key, noise_array = jax.lax.cond(
             self.gain > 0.0,
-            lambda pd, na, gain: (
-                pd.generate_from_expectation(jnp.clip(na * gain, 0.0)) / gain
-            ),
-            lambda pd, na, gain: na,
-            self._pd,
+            _add_poisson_noise,
+            lambda key, na, gain: (key, na),
+            self.rng._key,
             noise_array,
             self.gain,
         )
 
         # Now add the read noise:
-        noise_array = jax.lax.cond(
+        key, noise_array = jax.lax.cond(
             self.read_noise > 0.0,
-            lambda na, gd: na + gd.generate(na),
-            lambda na, gd: na,
+            _add_read_noise,
+            lambda key, na, sigma: (key, na),
+            key,
             noise_array,
-            self._gd,
+            self.read_noise / jnp.where(self.gain > 0.0, self.gain, 1.0),
         )
+        self.rng._key = key
 
         noise_array = jax.lax.cond(
             frac_sky != 0.0,
-- 
2.43.0


From 74f8bec3b9bb8b696623bdf39fadbfe5a3fa565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 19/67] fix: drawImage does not recenter the given image when
 it fails

---
 jax_galsim/gsobject.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 37f69b4..c8d20ab 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -760,24 +760,22 @@ The JAX-GalSim version of ``drawImage``
 
         # Make sure image is setup correctly
         image = prof._setup_image(image, nx, ny, bounds, add_to_image, dtype, center)
-        image_in = (
-            image  # For compatibility with normal galsim, we update image_in below.
-        )
         image.wcs = wcs
 
         if setup_only:
             image.added_flux = 0.0
             return image
 
-        # Making a view of the image lets us change the center without messing up the original.
+        # Making a copy of the image lets us change the center without messing up the original,
+        # even if drawing raises an error.
         original_center = image.center
-        wcs = image.wcs
-        image.setCenter(0, 0)
-        image.wcs = PixelScale(1.0)
+        imview = image.copy()
+        imview.setCenter(0, 0)
+        imview.wcs = PixelScale(1.0)
 
         if method == "phot":
             added_photons, photons = prof.drawPhot(
-                image,
+                imview,
                 gain,
                 add_to_image,
                 n_photons,
@@ -797,26 +795,16 @@ The JAX-GalSim version of ``drawImage``
                 )
 
             if prof.is_analytic_x:
-                added_photons = prof.drawReal(image, add_to_image)
+                added_photons = prof.drawReal(imview, add_to_image)
             else:
-                added_photons = prof.drawFFT(image, add_to_image)
+                added_photons = prof.drawFFT(imview, add_to_image)
 
+        # Update the original image to satisfy GalSim API
+        image._array = imview._array
         image.added_flux = added_photons / flux_scale
-        # Restore the original center and wcs
-        image.shift(original_center)
-        image.wcs = wcs
         if save_photons:
             image.photons = photons
 
-        # Update image_in to satisfy GalSim API
-        image_in._array = image._array
-        image_in.added_flux = image.added_flux
-        image_in._bounds = image._bounds
-        image_in.wcs = image.wcs
-        image_in._dtype = image._dtype
-        if save_photons:
-            image_in.photons = photons
-
         return image
 
     @implements(_galsim.GSObject.drawReal)
-- 
2.43.0


From 6ec0f5367e7ebb909e8ad98a991c2bb931c89722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 20/67] fix: refuse to draw, add noise or photons, or wrap onto
 const images

---
 jax_galsim/gsobject.py     | 12 ++++++++++--
 jax_galsim/image.py        |  4 ++++
 jax_galsim/noise.py        | 10 +++++++++-
 jax_galsim/photon_array.py |  3 +++
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index c8d20ab..7cbfd64 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -349,6 +349,10 @@ class GSObject:
 
         # If image is given, check validity of nx,ny,bounds:
         if image is not None:
+            if image.isconst:
+                raise _galsim.GalSimImmutableError(
+                    "Cannot draw onto an immutable Image", image
+                )
             if bounds is not None:
                 raise _galsim.GalSimIncompatibleValuesError(
                     "Cannot provide bounds if image is provided",
@@ -823,7 +827,7 @@ The JAX-GalSim version of ``drawImage``
         if add_to_image:
             image += temp
         else:
-            image._copyFrom(temp)
+            image.copyFrom(temp)
 
         return temp.array.sum(dtype=float)
 
@@ -944,7 +948,7 @@ The JAX-GalSim version of ``drawImage``
         if add_to_image:
             image += temp
         else:
-            image._copyFrom(temp)
+            image.copyFrom(temp)
 
         return temp.array.sum(dtype=float)
 
@@ -1015,6 +1019,10 @@ The JAX-GalSim version of ``drawImage``
             )
         else:
             # Do some checks that setup_image would have done for us
+            if image.isconst:
+                raise _galsim.GalSimImmutableError(
+                    "Cannot draw onto an immutable Image", image
+                )
             if bounds is not None:
                 raise _galsim.GalSimIncompatibleValuesError(
                     "Cannot provide bounds if image is provided",
diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 90d0593..a8b356b 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -367,6 +367,8 @@ class Image(object):
 
     @array.setter
     def array(self, other):
+        if self.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", self)
         # jax-galsim's rounding of float-to-int is platform dependent
         # so we explicitly round to ints if needed
         self._array = self._array.at[...].set(
@@ -719,6 +721,8 @@ class Image(object):
 
     @implements(_galsim.Image.wrap)
     def wrap(self, bounds, hermitian=False):
+        if self.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", self)
         if not isinstance(bounds, BoundsI):
             raise TypeError("bounds must be a galsim.BoundsI instance")
 
diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index f28e693..aacb232 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -4,7 +4,11 @@ import jax.numpy as jnp
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.utils import cast_to_float, ensure_hashable, implements
-from jax_galsim.errors import GalSimError, GalSimIncompatibleValuesError
+from jax_galsim.errors import (
+    GalSimError,
+    GalSimImmutableError,
+    GalSimIncompatibleValuesError,
+)
 from jax_galsim.image import Image, ImageD
 from jax_galsim.random import BaseDeviate, GaussianDeviate, PoissonDeviate
 
@@ -100,6 +104,8 @@ class BaseNoise:
     def applyTo(self, image):
         if not isinstance(image, Image):
             raise TypeError("Provided image must be a galsim.Image")
+        if image.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", image)
         return self._applyTo(image)
 
     def _applyTo(self, image):
@@ -521,6 +527,8 @@ class VariableGaussianNoise(BaseNoise):
     def applyTo(self, image):
         if not isinstance(image, Image):
             raise TypeError("Provided image must be a galsim.Image")
+        if image.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", image)
         if image.array.shape != self.var_image.array.shape:
             raise GalSimIncompatibleValuesError(
                 "Provided image shape does not match the shape of var_image",
diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index e97ee2b..d635f76 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -13,6 +13,7 @@ from jax_galsim.core.utils import (
     implements,
 )
 from jax_galsim.errors import (
+    GalSimImmutableError,
     GalSimIncompatibleValuesError,
     GalSimRangeError,
     GalSimUndefinedBoundsError,
@@ -869,6 +870,8 @@ class PhotonArray:
         lax_description="The JAX equivalent of galsim.PhotonArray.addTo may not raise for undefined bounds.",
     )
     def addTo(self, image):
+        if image.isconst:
+            raise GalSimImmutableError("Cannot modify an immutable Image", image)
         if not image.bounds.isDefined():
             raise GalSimUndefinedBoundsError(
                 "Attempting to PhotonArray::addTo an Image with undefined Bounds"
-- 
2.43.0


From 1c6dd29efd11b213ca4ced70ead6eb63ecb44454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 21/67] fix: unflatten DeviateNoise

---
 jax_galsim/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index aacb232..efbc195 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -504,7 +504,7 @@ class DeviateNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(rng=children[0])
+        return cls(children[0])
 
 
 @implements(_galsim.noise.VariableGaussianNoise)
-- 
2.43.0


From 86042310d36abc88b04783c5b79bd452ad0e0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 22/67] fix: noise models with traced sky levels can be applied
 under jit

---
 jax_galsim/noise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index efbc195..4a73e6e 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -214,7 +214,7 @@ class PoissonNoise(BaseNoise):
         # right if the sky has a fractional part.  So only subtract off the integer part of the
         # sky at the end.  For float images, you get the same answer either way, so it doesn't
         # matter.
-        frac_sky = self.sky_level - image.dtype(self.sky_level)
+        frac_sky = self.sky_level - jnp.asarray(self.sky_level).astype(image.dtype)
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
@@ -314,7 +314,8 @@ class CCDNoise(BaseNoise):
         noise_array = image.array.copy().astype(float)
 
         # cf. PoissonNoise._applyTo function
-        frac_sky = self.sky_level - image.dtype(self.sky_level)  # 0 if dtype = float
+        # 0 if dtype = float
+        frac_sky = self.sky_level - jnp.asarray(self.sky_level).astype(image.dtype)
         int_sky = self.sky_level - frac_sky
 
         noise_array = jax.lax.cond(
-- 
2.43.0


From 62eda4f842a27cc4c8427c282d8296294850aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 23/67] fix: CCDNoise.withVariance keeps using the rng of the
 original noise

---
 jax_galsim/noise.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 4a73e6e..e6c1ee5 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -390,15 +390,16 @@ class CCDNoise(BaseNoise):
         )
 
     def _withVariance(self, variance):
+        # the new noise object has to share the state of our rng, so it cannot be made inside
+        # of a jax.lax.cond
         current_var = self._getVariance()
-        return jax.lax.cond(
-            current_var > 0.0,
-            lambda variance, current_var: self._withScaledVariance(
-                variance / current_var
-            ),
-            lambda variance, current_var: CCDNoise(self.rng, sky_level=variance),
-            variance,
-            current_var,
+        is_scaled = current_var > 0.0
+        ratio = variance / jnp.where(is_scaled, current_var, 1.0)
+        return CCDNoise(
+            self.rng,
+            sky_level=jnp.where(is_scaled, self.sky_level * ratio, variance),
+            gain=jnp.where(is_scaled, self.gain, 1.0),
+            read_noise=jnp.where(is_scaled, self.read_noise * jnp.sqrt(ratio), 0.0),
         )
 
     def _withScaledVariance(self, variance_ratio):
-- 
2.43.0


From 952d10872b13ff09e760bcd5af4ae0db12db1e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 24/67] fix: photon shooting keeps the given rng linked to the
 deviates that share its state

---
 jax_galsim/core/draw.py | 8 ++++----
 jax_galsim/gsobject.py  | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index 181bf46..e23ce7f 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -316,7 +316,7 @@ def calculate_n_photons(
         n_photons_data,
     )
     if rng is not None:
-        rng._state = _rng._state
+        rng._key = _rng._key
     return _n_photons, g, rng
 
 
@@ -342,7 +342,7 @@ def _sample_zero(n_photons_data):
         n_photons_data.rng,
     )
     if n_photons_data.rng is not None:
-        n_photons_data.rng._state = _rng._state
+        n_photons_data.rng._key = _rng._key
 
     return _n_photons, _g, n_photons_data.rng
 
@@ -358,7 +358,7 @@ def _sample_nonzero(n_photons_data):
         n_photons_data,
     )
     if n_photons_data.rng is not None:
-        n_photons_data.rng._state = _rng._state
+        n_photons_data.rng._key = _rng._key
     vals = jnp.int_(n_photons_data.n_photons + 0.5), g, n_photons_data.rng
     return vals
 
@@ -462,7 +462,7 @@ def _calculate_n_photons_flux_nonzero(
         g,
     )
     if rng is not None:
-        rng._state = _rng._state
+        rng._key = _rng._key
 
     mod_flux, g = jax.lax.cond(
         max_extra_noise > 0.0,
diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 7cbfd64..9895329 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1095,7 +1095,7 @@ The JAX-GalSim version of ``drawImage``
             poisson_flux=poisson_flux,
         )
         if rng is not None:
-            rng._state = _rng._state
+            rng._key = _rng._key
         return n_photons, g
 
     @implements(
@@ -1293,7 +1293,8 @@ The JAX-GalSim version of ``drawPhot``
                 orig_center=orig_center,
             )
         if rng is not None:
-            rng._state = _dfret.rng._state
+            # set the key and not the state so that everything linked to rng stays linked to it
+            rng._key = _dfret.rng._key
         else:
             rng = _dfret.rng
         for i in range(len(photon_ops)):
@@ -1318,7 +1319,7 @@ The JAX-GalSim version of ``drawPhot``
             _rng = BaseDeviate(rng)
             self._shoot(photons, _rng)
             if rng is not None:
-                rng._state = _rng._state
+                rng._key = _rng._key
 
         return photons
 
-- 
2.43.0


From a6877ae885f7cefc0d1e9537abe3955bb5cf5114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 25/67] fix: photon shooting of objects with zero flux is not
 NaN

---
 jax_galsim/core/draw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index e23ce7f..0cd9254 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -369,7 +369,9 @@ def _sample_poisson_flux(flux, eta_factor, rng):
     mean = eta_factor * eta_factor * absflux
     pd = PoissonDeviate(rng, mean)
     pd_val = pd() - mean + absflux
-    return pd_val / absflux, rng
+    # there is nothing to scale if there is no flux
+    has_flux = absflux > 0.0
+    return jnp.where(has_flux, pd_val / jnp.where(has_flux, absflux, 1.0), 1.0), rng
 
 
 def _adjust_flux_g_poisson(poisson_flux, flux, mod_flux, eta_factor, rng, g):
-- 
2.43.0


From e7666839295b3bf49967c60ae1b2d1fa7d65218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 26/67] fix: number of photons shot for negative and
 Poisson-varied fluxes

---
 jax_galsim/core/draw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/core/draw.py b/jax_galsim/core/draw.py
index 0cd9254..b0f3a52 100644
--- a/jax_galsim/core/draw.py
+++ b/jax_galsim/core/draw.py
@@ -478,4 +478,5 @@ def _calculate_n_photons_flux_nonzero(
         max_sb,
     )
 
-    return jnp.ceil(mod_flux).astype(int), g, rng
+    # Make the number of photons an integer.
+    return jnp.int_(jnp.abs(mod_flux) + 0.5), g, rng
-- 
2.43.0


From 1b8a54f851023e9c5b9af7b799761f7b7f557eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 27/67] fix: shoot and makePhot conserve flux when photon
 arrays have a fixed size

---
 jax_galsim/gsobject.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 9895329..93e32df 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -1316,8 +1316,13 @@ The JAX-GalSim version of ``drawPhot``
         photons = pa.PhotonArray(n_photons)
 
         if photons.x.shape[0] > 0:
+            # profiles always fill the whole array, so with a fixed array size we mask the
+            # extra photons only after they have been shot
+            nokeep = photons._nokeep
+            photons._nokeep = jnp.zeros_like(nokeep)
             _rng = BaseDeviate(rng)
             self._shoot(photons, _rng)
+            photons._nokeep = nokeep
             if rng is not None:
                 rng._key = _rng._key
 
-- 
2.43.0


From 2c34d4631b2636dfc5ca59b3ac62f503b5529902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 28/67] fix: photon arrays that keep no photons have zero flux
 instead of NaN

---
 jax_galsim/photon_array.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index d635f76..783579e 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -280,6 +280,12 @@ class PhotonArray:
         self._nokeep = jnp.arange(self._Ntot) >= num_keep
         self._set_self_at_inds(sinds)
 
+    @property
+    def _flux_ratio(self):
+        """The ratio of the fluxes of the photons to the values in ``_flux``."""
+        # there may be no photons to keep
+        return self._Ntot / jnp.maximum(self._num_keep, 1)
+
     @property
     @implements(
         _galsim.photon_array.PhotonArray.x,
@@ -317,7 +323,7 @@ class PhotonArray:
             lambda flux, ratio: flux,
             lambda flux, ratio: flux * ratio,
             jnp.where(self._nokeep, 0.0, self._flux),
-            self._Ntot / self._num_keep,
+            self._flux_ratio,
         )
 
     @flux.setter
@@ -327,7 +333,7 @@ class PhotonArray:
             # scale it down to account for scaling in flux getter above
             # this factor has to be computed after _nokeep is set above
             # so that _num_keep is the right value
-            / (self._Ntot / self._num_keep)
+            / self._flux_ratio
         )
 
     @property
@@ -606,12 +612,12 @@ class PhotonArray:
                 arr2,
             )
 
-        old_flux_ratio = self._Ntot / self._num_keep
+        old_flux_ratio = self._flux_ratio
 
         if do_xy or do_flux or do_other:
             self._nokeep = self._nokeep.at[s1].set(rhs._nokeep.at[s2].get())
 
-        new_flux_ratio = self._Ntot / self._num_keep
+        new_flux_ratio = self._flux_ratio
 
         if do_xy:
             self._x = self._x.at[s1].set(rhs.x.at[s2].get())
@@ -633,7 +639,7 @@ class PhotonArray:
                 rhs._flux.at[s2].get()
                 # these factors conserve the flux of the assigned photons
                 # gets us to the true flux of the photon
-                * (rhs._Ntot / rhs._num_keep)
+                * rhs._flux_ratio
                 # scale it back down to account for scaling later
                 # this factor has to be computed after _nokeep is set above
                 # so that _num_keep is the right value
@@ -667,11 +673,11 @@ class PhotonArray:
         where cat_ind == cat_ind_to_assign.
         """
         msk = cat_ind_to_assign == cat_inds
-        old_flux_ratio = self._Ntot / self._num_keep
+        old_flux_ratio = self._flux_ratio
         self._nokeep = jnp.where(msk, rhs._nokeep, self._nokeep)
-        new_flux_ratio = self._Ntot / self._num_keep
+        new_flux_ratio = self._flux_ratio
 
-        rhs_flux_ratio = rhs._Ntot / rhs._num_keep
+        rhs_flux_ratio = rhs._flux_ratio
 
         self._x = jnp.where(msk, rhs._x, self._x)
         self._y = jnp.where(msk, rhs._y, self._y)
@@ -882,7 +888,7 @@ class PhotonArray:
             self._y,
             # this computation is the same as self.flux, but we've left it duplicated here
             # so that we don't change this line to self._flux only by accident in the future
-            jnp.where(self._nokeep, 0.0, self._flux) * self._Ntot / self._num_keep,
+            jnp.where(self._nokeep, 0.0, self._flux) * self._flux_ratio,
             image.bounds.xmin,
             image.bounds.ymin,
             image._array,
-- 
2.43.0


From 616c181d1d948e1a37491177cfa348826ff46ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 29/67] fix: PhotonArray.read of masked arrays and of files
 written by GalSim

---
 jax_galsim/photon_array.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 783579e..24420e8 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -980,14 +980,19 @@ class PhotonArray:
         N = len(data)
         names = data.columns.names
 
+        # the fluxes depend on which photons are kept, so this has to be known first
+        # (files written by galsim do not have this column)
+        if "_nokeep" in names:
+            _nokeep = jnp.array(cast_numpy_array_to_native_byte_order(data["_nokeep"]))
+        else:
+            _nokeep = None
+
         photons = cls(
             N,
             x=jnp.array(cast_numpy_array_to_native_byte_order(data["x"])),
             y=jnp.array(cast_numpy_array_to_native_byte_order(data["y"])),
             flux=jnp.array(cast_numpy_array_to_native_byte_order(data["flux"])),
-        )
-        photons._nokeep = jnp.array(
-            cast_numpy_array_to_native_byte_order(data["_nokeep"])
+            _nokeep=_nokeep,
         )
         if "dxdz" in names:
             photons.dxdz = jnp.array(
-- 
2.43.0


From 65dfb914ef38e31c9225c73b12c9f4f8e241749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 30/67] fix: PhotonArray.copyFrom of positions alone conserves
 fluxes when the mask changes

---
 jax_galsim/photon_array.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 24420e8..1a4916f 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -623,16 +623,16 @@ class PhotonArray:
             self._x = self._x.at[s1].set(rhs.x.at[s2].get())
             self._y = self._y.at[s1].set(rhs.y.at[s2].get())
 
-        if do_flux:
-            # we first scale the existing fluxes to account for the change in num_keep
-            self._flux = (
-                self._flux
-                # this factor gets us back to true flux
-                * old_flux_ratio
-                # this factor gets us back to the internal units
-                / new_flux_ratio
-            )
+        # we first scale the existing fluxes to account for the change in num_keep
+        self._flux = (
+            self._flux
+            # this factor gets us back to true flux
+            * old_flux_ratio
+            # this factor gets us back to the internal units
+            / new_flux_ratio
+        )
 
+        if do_flux:
             # next we assign the RHS fluxes accounting for the change in num_keep from the
             # RHS to the new flux_ratio
             self._flux = self._flux.at[s1].set(
-- 
2.43.0


From 7bc22734aba48229d09ca10d39acda1f88b83eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 31/67] fix: flux of photons shot from images with negative
 pixels

---
 jax_galsim/interpolatedimage.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index 4537187..b3274f1 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -885,6 +885,7 @@ class _InterpolatedImageImpl(GSObject):
     def _negative_flux(self):
         return self._pos_neg_fluxes[1]
 
+    @property
     def _flux_per_photon(self):
         return self._calculate_flux_per_photon()
 
@@ -910,27 +911,11 @@ class _InterpolatedImageImpl(GSObject):
         photons.x = xcens[xinds]
         photons.y = ycens[yinds]
 
-        # this magic set of factors comes from the galsim C++ code in
-        # a few spots it is
-        #
-        #  - the sign of the photon flux
-        #  - the flux per photon = 1 - 2 neg / (pos + neg)
-        #  - the total absolute flux in the image = (pos + neg)
-        #  - the number of photons to draw = photons.size()
-        #
-        # If you unpack it all, then you get
-        #
-        #  sign * (1 - 2 neg / (pos + neg)) * (pos + neg) / photons.size()
-        #  = sign * (pos + neg - 2 neg) / (pos + neg) * (pos + neg) / photons.size()
-        #  = sign * (pos - neg) / photons.size()
-        #
-        # So what we have is a sign that oscillates between -1 and 1 with each photon getting
-        # the flux of the object divided by the number of photons (which is inflated to get the total flux
-        # correct by other bits of the code)
+        # each photon carries the same share of the total absolute flux of the pixels with
+        # the sign of its pixel, so that the photons sum to the flux of the image on average
         photons.flux = (
             jnp.sign(img.array.ravel())[inds]
-            * self._flux_per_photon()
-            * (self.positive_flux + self.negative_flux)
+            * jnp.sum(jnp.abs(img.array))
             / photons.size()
         )
 
-- 
2.43.0


From 8d4424a717dc269f2efea4558be8f544376d36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 32/67] fix: photons shot from sums of objects with positive
 and negative fluxes

---
 jax_galsim/sum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/sum.py b/jax_galsim/sum.py
index 8dae7ac..58128d0 100644
--- a/jax_galsim/sum.py
+++ b/jax_galsim/sum.py
@@ -190,10 +190,11 @@ class Sum(GSObject):
 
     @implements(_galsim.Sum._shoot)
     def _shoot(self, photons, rng):
-        tot_flux = self.positive_flux + self.negative_flux
-        fluxes = jnp.array(
-            [obj.positive_flux + obj.negative_flux for obj in self.obj_list]
+        # the total absolute fluxes, which are negative for objects scaled by a negative flux
+        fluxes = jnp.abs(
+            jnp.array([obj.positive_flux + obj.negative_flux for obj in self.obj_list])
         )
+        tot_flux = jnp.sum(fluxes)
         # for a sum of objects, we use a slightly different approach than galsim did
         # as of version 2.5
         # galsim uses a binomial distribution to compute the number of photons per object
-- 
2.43.0


From a1623d8201dc38cd50f5e117ffd5c782ebcdb26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 33/67] fix: PhotonArray.copyFrom zeroes unset angles,
 wavelengths, pupil positions and times like GalSim

---
 jax_galsim/photon_array.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 1a4916f..5073e6d 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -603,10 +603,13 @@ class PhotonArray:
         s2 = source_indices
 
         @jax.jit
-        def _cond_set_indices(arr1, arr2, cond_val):
+        def _cond_set_indices(arr1, arr2, is_alloc1, cond_val):
+            # values that are not set are zero once any of them are set
             return jax.lax.cond(
                 cond_val,
-                lambda arr1, arr2: arr1.at[s1].set(arr2.at[s2].get()),
+                lambda arr1, arr2: (
+                    jnp.where(is_alloc1, arr1, 0.0).at[s1].set(arr2.at[s2].get())
+                ),
                 lambda arr1, arr2: arr1,
                 arr1,
                 arr2,
@@ -647,23 +650,28 @@ class PhotonArray:
             )
 
         if do_other:
+            has_angles = self.hasAllocatedAngles()
             self._dxdz = _cond_set_indices(
-                self._dxdz, rhs.dxdz, rhs.hasAllocatedAngles()
+                self._dxdz, rhs.dxdz, has_angles, rhs.hasAllocatedAngles()
             )
             self._dydz = _cond_set_indices(
-                self._dydz, rhs.dydz, rhs.hasAllocatedAngles()
+                self._dydz, rhs.dydz, has_angles, rhs.hasAllocatedAngles()
             )
             self._wave = _cond_set_indices(
-                self._wave, rhs.wavelength, rhs.hasAllocatedWavelengths()
+                self._wave,
+                rhs.wavelength,
+                self.hasAllocatedWavelengths(),
+                rhs.hasAllocatedWavelengths(),
             )
+            has_pupil = self.hasAllocatedPupil()
             self._pupil_u = _cond_set_indices(
-                self._pupil_u, rhs.pupil_u, rhs.hasAllocatedPupil()
+                self._pupil_u, rhs.pupil_u, has_pupil, rhs.hasAllocatedPupil()
             )
             self._pupil_v = _cond_set_indices(
-                self._pupil_v, rhs.pupil_v, rhs.hasAllocatedPupil()
+                self._pupil_v, rhs.pupil_v, has_pupil, rhs.hasAllocatedPupil()
             )
             self._time = _cond_set_indices(
-                self._time, rhs.time, rhs.hasAllocatedTimes()
+                self._time, rhs.time, self.hasAllocatedTimes(), rhs.hasAllocatedTimes()
             )
 
         return self
-- 
2.43.0


From bcc084801e7f53f42b3a0abb24119896c837fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 34/67] fix: PhotonArray.copyFrom refuses index sets of
 different sizes

---
 jax_galsim/photon_array.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 5073e6d..68b2992 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -584,6 +584,18 @@ class PhotonArray:
                 f"source_indices is invalid for the source PhotonArray. Got {source_indices!r}"
             )
 
+        # jax would broadcast a single source photon
+        n1 = self._x.at[target_indices].get().size
+        n2 = rhs._x.at[source_indices].get().size
+        if n1 != n2:
+            raise GalSimIncompatibleValuesError(
+                "target_indices and source_indices do not reference the same number of elements "
+                "in their respective PhotonArrays ({} and {} respectively)".format(
+                    n1, n2
+                ),
+                dict(target_indices=target_indices, source_indices=source_indices),
+            )
+
         return self._copyFrom(
             rhs, target_indices, source_indices, do_xy, do_flux, do_other
         )
-- 
2.43.0


From e5fdcefceb37da10ca00019fc0e1d701ac1178ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 35/67] fix: pickled deviates can draw again (Poisson) after
 unpickling

---
 jax_galsim/random.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jax_galsim/random.py b/jax_galsim/random.py
index f3e7365..5ea0673 100644
--- a/jax_galsim/random.py
+++ b/jax_galsim/random.py
@@ -69,6 +69,15 @@ class _DeviateState:
     def tree_unflatten(cls, aux_data, children):
         return cls(children[0])
 
+    # The dtype of a pickled key does not compare as JAX's own afterwards, so
+    # the raw key data is saved instead.
+    def __getstate__(self):
+        return (jrandom.key_data(self.key), jrandom.key_impl(self.key))
+
+    def __setstate__(self, state):
+        data, impl = state
+        self.key = wrap_key_data(data, impl=impl)
+
 
 @implements(
     _galsim.BaseDeviate,
-- 
2.43.0


From ab541db7019be45ca73355673e6ec0ef575a353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 36/67] fix: slopes of Akima splines at the upper end

---
 jax_galsim/core/interpolate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/core/interpolate.py b/jax_galsim/core/interpolate.py
index 34e2339..bc9e265 100644
--- a/jax_galsim/core/interpolate.py
+++ b/jax_galsim/core/interpolate.py
@@ -44,8 +44,8 @@ def _akima_interp_coeffs_nojax(x, y):
     # at the ends
     s0 = mi[0:1]
     s1 = (mi[0:1] + mi[1:2]) / 2.0
-    snm2 = (mi[-3:-2] + mi[-2:-1]) / 2.0
-    snm1 = mi[-2:-1]
+    snm2 = (mi[-2:-1] + mi[-1:]) / 2.0
+    snm1 = mi[-1:]
 
     wim1 = np.abs(mi[3:] - mi[2:-1])
     wi = np.abs(mi[1:-2] - mi[0:-3])
@@ -78,8 +78,8 @@ def _akima_interp_coeffs_jax(x, y):
     # at the ends
     s0 = mi[0:1]
     s1 = (mi[0:1] + mi[1:2]) / 2.0
-    snm2 = (mi[-3:-2] + mi[-2:-1]) / 2.0
-    snm1 = mi[-2:-1]
+    snm2 = (mi[-2:-1] + mi[-1:]) / 2.0
+    snm1 = mi[-1:]
 
     wim1 = jnp.abs(mi[3:] - mi[2:-1])
     wi = jnp.abs(mi[1:-2] - mi[0:-3])
-- 
2.43.0


From 775032dfd70c6d195cbb589812f8ef2832b69571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 37/67] fix: bisection through an exact root

---
 jax_galsim/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/core/utils.py b/jax_galsim/core/utils.py
index 839d065..04b0a98 100644
--- a/jax_galsim/core/utils.py
+++ b/jax_galsim/core/utils.py
@@ -169,7 +169,8 @@ def bisect_for_root(func, low, high, niter=75):
         mid = (low + high) / 2.0
         fmid = func(mid)
         return jax.lax.cond(
-            fmid * fhigh < 0,
+            # a midpoint that is a root itself becomes the upper end
+            jnp.sign(fmid) == jnp.sign(flow),
             lambda func, low, flow, mid, fmid, high, fhigh: (
                 func,
                 mid,
-- 
2.43.0


From 7e76dfe739e9f64f408b0e105dc060d6d5b3a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 38/67] fix: noise models with array-valued levels compare
 equal to those with the same plain values

---
 jax_galsim/noise.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index e6c1ee5..02b00bd 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -266,10 +266,13 @@ class PoissonNoise(BaseNoise):
         return PoissonNoise(rng=rng, sky_level=self.sky_level)
 
     def __repr__(self):
-        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (self.rng, self.sky_level)
+        return "galsim.PoissonNoise(rng=%r, sky_level=%r)" % (
+            self.rng,
+            ensure_hashable(self.sky_level),
+        )
 
     def __str__(self):
-        return "galsim.PoissonNoise(sky_level=%s)" % (self.sky_level)
+        return "galsim.PoissonNoise(sky_level=%s)" % (ensure_hashable(self.sky_level),)
 
     def tree_flatten(self):
         """This function flattens the PoissonNoise into a list of children
@@ -422,16 +425,16 @@ class CCDNoise(BaseNoise):
     def __repr__(self):
         return "galsim.CCDNoise(rng=%r, sky_level=%r, gain=%r, read_noise=%r)" % (
             self.rng,
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def __str__(self):
         return "galsim.CCDNoise(sky_level=%r, gain=%r, read_noise=%r)" % (
-            self.sky_level,
-            self.gain,
-            self.read_noise,
+            ensure_hashable(self.sky_level),
+            ensure_hashable(self.gain),
+            ensure_hashable(self.read_noise),
         )
 
     def tree_flatten(self):
-- 
2.43.0


From 638d459bc405032217fff2ad6ed9340558ff4854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 39/67] fix: photon arrays made from NumPy arrays can be
 assigned to

PhotonArray.fromArrays kept the NumPy arrays it was given, so that setting
x, y, flux, ... or convolving afterwards raised AttributeError.
---
 jax_galsim/photon_array.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jax_galsim/photon_array.py b/jax_galsim/photon_array.py
index 68b2992..2c12701 100644
--- a/jax_galsim/photon_array.py
+++ b/jax_galsim/photon_array.py
@@ -189,37 +189,37 @@ class PhotonArray:
 
         ret = cls.__new__(cls)
         ret._Ntot = _JAX_GALSIM_PHOTON_ARRAY_SIZE or x.shape[0]
-        ret._x = x.copy()
-        ret._y = y.copy()
-        ret._flux = flux.copy()
+        ret._x = jnp.array(x)
+        ret._y = jnp.array(y)
+        ret._flux = jnp.array(flux)
         ret._nokeep = jnp.arange(ret._Ntot) >= x.shape[0]
         ret._dxdz = (
-            dxdz.copy()
+            jnp.array(dxdz)
             if dxdz is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._dydz = (
-            dydz.copy()
+            jnp.array(dydz)
             if dydz is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._wave = (
-            wavelength.copy()
+            jnp.array(wavelength)
             if wavelength is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._pupil_u = (
-            pupil_u.copy()
+            jnp.array(pupil_u)
             if pupil_u is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._pupil_v = (
-            pupil_v.copy()
+            jnp.array(pupil_v)
             if pupil_v is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
         ret._time = (
-            time.copy()
+            jnp.array(time)
             if time is not None
             else jnp.full(ret._Ntot, jnp.nan, dtype=float)
         )
-- 
2.43.0


From d5f5c5837d23e00c09666433c5dc6718a2b9671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 40/67] fix: parse_pos_args leaves the caller's list of other
 names alone

---
 jax_galsim/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_galsim/utilities.py b/jax_galsim/utilities.py
index 8f575c6..e08938f 100644
--- a/jax_galsim/utilities.py
+++ b/jax_galsim/utilities.py
@@ -21,6 +21,8 @@ def parse_pos_args(args, kwargs, name1, name2, integer=False, others=[]):
         else:
             return True
 
+    # never pop from the list of the caller
+    others = list(others)
     other_vals = []
     if len(args) == 0:
         # Then name1,name2 need to be kwargs
-- 
2.43.0


From 74f7fc0b8775548ae2ad17f3d1ba404e2ccaf2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 41/67] fix: Spergel refuses indices outside of its documented
 range

---
 jax_galsim/spergel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index 200d197..a7f6274 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -277,6 +277,15 @@ class Spergel(GSObject):
         flux=1.0,
         gsparams=None,
     ):
+        if isinstance(nu, (float, int)):
+            if nu < self._minimum_nu or nu > self._maximum_nu:
+                raise _galsim.GalSimRangeError(
+                    "Requested Spergel index is not in the allowed range",
+                    nu,
+                    self._minimum_nu,
+                    self._maximum_nu,
+                )
+
         # Parse the radius options
         if half_light_radius is not None:
             if scale_radius is not None:
-- 
2.43.0


From 5ef5b8c2c0ff98ff58487faa34e2d26cbee2cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 42/67] fix: the sum of an empty list is refused with a clear
 error

---
 jax_galsim/sum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/sum.py b/jax_galsim/sum.py
index 58128d0..2d3fc02 100644
--- a/jax_galsim/sum.py
+++ b/jax_galsim/sum.py
@@ -26,7 +26,9 @@ class Sum(GSObject):
     def __init__(self, *args, gsparams=None, propagate_gsparams=True):
         self._propagate_gsparams = propagate_gsparams
 
-        if len(args) == 0:
+        if len(args) == 0 or (
+            len(args) == 1 and isinstance(args[0], (list, tuple)) and len(args[0]) == 0
+        ):
             raise TypeError("At least one GSObject must be provided.")
         elif len(args) == 1:
             # 1 argument.  Should be either a GSObject or a list of GSObjects
-- 
2.43.0


From 20ee35cbf1f91216c16888f02cd119d4d894dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 43/67] fix: noise models refuse generators that are not
 deviates

---
 jax_galsim/noise.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 02b00bd..0736e76 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -45,14 +45,18 @@ Image.addNoiseSNR = addNoiseSNR
 @register_pytree_node_class
 class BaseNoise:
     def __init__(self, rng=None):
+        self._check_rng(rng)
         if rng is None:
             self._rng = BaseDeviate()
         else:
-            if not isinstance(rng, BaseDeviate):
-                raise TypeError("rng must be a galsim.BaseDeviate instance.")
             # we link the noise fields to the RNG state
             self._rng = rng
 
+    @staticmethod
+    def _check_rng(rng):
+        if rng is not None and not isinstance(rng, BaseDeviate):
+            raise TypeError("rng must be a galsim.BaseDeviate instance.")
+
     @property
     @implements(_galsim.noise.BaseNoise.rng)
     def rng(self):
@@ -139,6 +143,7 @@ class BaseNoise:
 @register_pytree_node_class
 class GaussianNoise(BaseNoise):
     def __init__(self, rng=None, sigma=1.0):
+        self._check_rng(rng)
         super().__init__(GaussianDeviate(rng, sigma=sigma))
         self._sigma = cast_to_float(sigma)
 
@@ -198,6 +203,7 @@ class GaussianNoise(BaseNoise):
 @register_pytree_node_class
 class PoissonNoise(BaseNoise):
     def __init__(self, rng=None, sky_level=0.0):
+        self._check_rng(rng)
         super().__init__(PoissonDeviate(rng))
         self._sky_level = cast_to_float(sky_level)
 
@@ -516,6 +522,7 @@ class DeviateNoise(BaseNoise):
 @register_pytree_node_class
 class VariableGaussianNoise(BaseNoise):
     def __init__(self, rng, var_image):
+        self._check_rng(rng)
         super().__init__(GaussianDeviate(rng))
 
         # Make sure var_image is an ImageD, converting dtype if necessary
-- 
2.43.0


From a9971003df448842a6f9e9b061a508672afc1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 44/67] fix: multiplying a profile by something that is not a
 number is refused

---
 jax_galsim/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/transform.py b/jax_galsim/transform.py
index e78a67e..15aa1bc 100644
--- a/jax_galsim/transform.py
+++ b/jax_galsim/transform.py
@@ -4,6 +4,7 @@ import jax.numpy as jnp
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.utils import (
+    cast_to_float,
     ensure_hashable,
     implements,
 )
@@ -70,7 +71,7 @@ class Transformation(GSObject):
         self._params = {
             "jac": jac,
             "offset": PositionD(offset),
-            "flux_ratio": flux_ratio,
+            "flux_ratio": cast_to_float(flux_ratio),
         }
 
         # this import is here to avoid circular imports
-- 
2.43.0


From 9d6359932a3f71fa0d59ff12d2566efa0e1c9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 45/67] fix: batches of interpolated images can cross the
 boundary of mapped functions

---
 jax_galsim/interpolatedimage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/interpolatedimage.py b/jax_galsim/interpolatedimage.py
index b3274f1..645b513 100644
--- a/jax_galsim/interpolatedimage.py
+++ b/jax_galsim/interpolatedimage.py
@@ -523,7 +523,9 @@ class _InterpolatedImageImpl(GSObject):
 
         if calculate_stepk or calculate_maxk or flux is not None:
             # Attach the check to a copy, so that the image we were given is not modified.
-            image = image.copy()
+            # The image may hold a batch of arrays if we are being unflattened.
+            children, aux_data = image.tree_flatten()
+            image = image.tree_unflatten(aux_data, children)
             image.array = equinox.error_if(
                 jnp.array(image.array),
                 jnp.any(image.array.sum() == 0.0),
-- 
2.43.0


From ad2e42c73f7bbb5489585ff567455e5fe929aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 46/67] fix: batches of noise models keep every parameter
 batched

---
 jax_galsim/noise.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/noise.py b/jax_galsim/noise.py
index 0736e76..545d4e7 100644
--- a/jax_galsim/noise.py
+++ b/jax_galsim/noise.py
@@ -196,7 +196,9 @@ class GaussianNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(sigma=children[0], rng=children[1])
+        obj = cls.__new__(cls)
+        obj._sigma, obj._rng = children
+        return obj
 
 
 @implements(_galsim.noise.PoissonNoise)
@@ -292,7 +294,9 @@ class PoissonNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(sky_level=children[0], rng=children[1])
+        obj = cls.__new__(cls)
+        obj._sky_level, obj._rng = children
+        return obj
 
 
 @implements(_galsim.noise.CCDNoise)
@@ -599,4 +603,6 @@ class VariableGaussianNoise(BaseNoise):
     @classmethod
     def tree_unflatten(cls, aux_data, children):
         """Recreates an instance of the class from flatten representation"""
-        return cls(children[0], children[1])
+        obj = cls.__new__(cls)
+        obj._rng, obj._var_image = children
+        return obj
-- 
2.43.0


From e26871e9e2737f8242eca67deeaa8025f3d03497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 47/67] fix: integer scales of profiles and pixel scales work
 under jit

---
 jax_galsim/gsobject.py | 2 +-
 jax_galsim/wcs.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 93e32df..6a6f714 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -256,7 +256,7 @@ class GSObject:
         from jax_galsim.transform import Transform
 
         # equivalent to self.expand(scale) * (1./scale**2)
-        return Transform(self, jac=[scale, 0.0, 0.0, scale], flux_ratio=scale**-2)
+        return Transform(self, jac=[scale, 0.0, 0.0, scale], flux_ratio=scale**-2.0)
 
     @implements(_galsim.GSObject.magnify)
     def magnify(self, mu):
diff --git a/jax_galsim/wcs.py b/jax_galsim/wcs.py
index 1f31236..28edb46 100644
--- a/jax_galsim/wcs.py
+++ b/jax_galsim/wcs.py
@@ -933,7 +933,7 @@ class PixelScale(LocalWCS):
         return _Transform(
             image_profile,
             (self._scale, 0.0, 0.0, self._scale),
-            flux_ratio=self._scale**-2 * flux_ratio,
+            flux_ratio=self._scale**-2.0 * flux_ratio,
             offset=offset,
         )
 
-- 
2.43.0


From 3040adddacb1b3df018ccd6b507968a19cb73dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 48/67] fix: drawKImage works under jit with a traced scale

---
 jax_galsim/gsobject.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index 6a6f714..d670c1b 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -995,16 +995,16 @@ The JAX-GalSim version of ``drawImage``
 
         # The input scale (via scale or image.scale) is really a dk value, so call it that for
         # clarity here, since we also need the real-space pixel scale, which we will call dx.
-        if scale is None or scale <= 0:
+        if scale is None:
             dk = self.stepk
         else:
-            dk = scale
+            dk = jnp.where(scale <= 0, self.stepk, scale)
         if image is not None and image.bounds.isDefined():
             dx = np.pi / (max(image.array.shape) // 2 * dk)
-        elif scale is None or scale <= 0:
+        elif scale is None:
             dx = self.nyquist_scale
         else:
-            # Then dk = scale, which implies that we need to have dx smaller than nyquist_scale
+            # If dk = scale, this implies that we need to have dx smaller than nyquist_scale
             # by a factor of (dk/stepk)
             dx = self.nyquist_scale * dk / self.stepk
 
-- 
2.43.0


From bf1620fb51e01088741a7b4b62f1c21c3f095acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 49/67] fix: g1g2_to_e1e2 works under jit

---
 jax_galsim/utilities.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/jax_galsim/utilities.py b/jax_galsim/utilities.py
index e08938f..fddf9ef 100644
--- a/jax_galsim/utilities.py
+++ b/jax_galsim/utilities.py
@@ -86,16 +86,10 @@ def g1g2_to_e1e2(g1, g2):
     # g = (a-b) / (a+b)
     # b/a = (1-g)/(1+g)
     # e = (1-(b/a)^2) / (1+(b/a)^2)
+    #   = 2g / (1+g^2)
     gsq = g1 * g1 + g2 * g2
-    if gsq == 0.0:
-        return 0.0, 0.0
-    else:
-        g = jnp.sqrt(gsq)
-        boa = (1 - g) / (1 + g)
-        e = (1 - boa * boa) / (1 + boa * boa)
-        e1 = g1 * (e / g)
-        e2 = g2 * (e / g)
-        return e1, e2
+    e_over_g = 2.0 / (1.0 + gsq)
+    return g1 * e_over_g, g2 * e_over_g
 
 
 @implements(_galsim.utilities.convert_interpolant)
-- 
2.43.0


From 2f3c761fb963855e5f3e4e91636bcd89094cf89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 50/67] fix: deviates can be seeded by traced numbers

---
 jax_galsim/random.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jax_galsim/random.py b/jax_galsim/random.py
index 5ea0673..9e27796 100644
--- a/jax_galsim/random.py
+++ b/jax_galsim/random.py
@@ -119,8 +119,14 @@ class BaseDeviate:
 
     @implements(_galsim.BaseDeviate._seed)
     def _seed(self, seed=None):
-        _initial_seed = seed or secrets.randbelow(2**31)
-        self._state.key = jrandom.key(_initial_seed)
+        self._state.key = jrandom.key(self._get_initial_seed(seed))
+
+    @staticmethod
+    def _get_initial_seed(seed):
+        # a traced seed cannot be compared to zero
+        if isinstance(seed, jax.core.Tracer):
+            return seed
+        return seed or secrets.randbelow(2**31)
 
     @implements(
         _galsim.BaseDeviate.reset,
@@ -148,8 +154,7 @@ class BaseDeviate:
             )
             or seed is None
         ):
-            _initial_seed = seed or secrets.randbelow(2**31)
-            self._state = _DeviateState(jrandom.key(_initial_seed))
+            self._state = _DeviateState(jrandom.key(self._get_initial_seed(seed)))
         else:
             raise TypeError(
                 "Seeds for BaseDeviate must be an int-like, str, tuple, or another BaseDeviate. "
-- 
2.43.0


From a798606feb370d8dcd156b387948ea8aaa18e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 51/67] fix: images can be made with a traced scale

---
 jax_galsim/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index a8b356b..85979b8 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -8,6 +8,7 @@ from jax.tree_util import register_pytree_node_class
 from jax_galsim.bounds import Bounds, BoundsD, BoundsI
 from jax_galsim.core.utils import (
     cast_numpy_array_to_native_byte_order,
+    cast_to_float,
     ensure_hashable,
     implements,
 )
@@ -263,7 +264,7 @@ class Image(object):
                     wcs=wcs,
                     scale=scale,
                 )
-            self.wcs = PixelScale(float(scale))
+            self.wcs = PixelScale(cast_to_float(scale))
         else:
             if wcs is not None and not isinstance(wcs, BaseWCS):
                 raise TypeError("wcs parameters must be a galsim.BaseWCS instance")
-- 
2.43.0


From d1d1a3c84e766eba8e150db7795188fb25a13286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 52/67] fix: Bounds.includes(x, y) works with traced
 coordinates

---
 jax_galsim/bounds.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jax_galsim/bounds.py b/jax_galsim/bounds.py
index b7b4c6d..9e265ff 100644
--- a/jax_galsim/bounds.py
+++ b/jax_galsim/bounds.py
@@ -206,13 +206,13 @@ class Bounds:
             else:
                 raise TypeError("Invalid argument %s" % args[0])
         elif len(args) == 2:
-            x, y = args
+            x, y = map(cast_to_float, args)
             return (
                 self.isDefined()
-                & (self.xmin <= float(x))
-                & (self.ymin <= float(y))
-                & (float(x) <= self.xmax)
-                & (float(y) <= self.ymax)
+                & (self.xmin <= x)
+                & (self.ymin <= y)
+                & (x <= self.xmax)
+                & (y <= self.ymax)
             )
         elif len(args) == 0:
             raise TypeError("include takes at least 1 argument (0 given)")
-- 
2.43.0


From 5cf5c75615f3ec275b1e5e82d03af34eab786e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 53/67] fix: horner2d accounts for the type of y and accepts
 any dtype for its result

---
 jax_galsim/utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/utilities.py b/jax_galsim/utilities.py
index fddf9ef..8c4e48d 100644
--- a/jax_galsim/utilities.py
+++ b/jax_galsim/utilities.py
@@ -170,7 +170,7 @@ def horner2d(x, y, coefs, dtype=None, triangle=False):
     y = jnp.array(y)
     coefs = jnp.atleast_1d(jnp.asarray(coefs))
     if dtype is None:
-        res_dtype = jnp.result_type(x, coefs)
+        res_dtype = jnp.result_type(x, y, coefs)
     else:
         res_dtype = dtype
     res = jnp.zeros_like(x, dtype=res_dtype)
@@ -203,7 +203,12 @@ def horner2d(x, y, coefs, dtype=None, triangle=False):
 
     res = jnp.zeros_like(x, dtype=res_dtype)
     res, _ = jax.lax.scan(
-        lambda res, p: (res * x + horner(y, p, dtype=res_dtype), None), res, coefs
+        lambda res, p: (
+            (res * x + horner(y, p, dtype=res_dtype)).astype(res_dtype),
+            None,
+        ),
+        res,
+        coefs,
     )
 
     return res.astype(res_dtype)
-- 
2.43.0


From b084e1cdc2e75c6ca78c3389e13304c10b4f63e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 54/67] fix: Spergel takes its sizes in GalSim's order

---
 jax_galsim/spergel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index a7f6274..3a09329 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -272,8 +272,8 @@ class Spergel(GSObject):
     def __init__(
         self,
         nu,
-        scale_radius=None,
         half_light_radius=None,
+        scale_radius=None,
         flux=1.0,
         gsparams=None,
     ):
-- 
2.43.0


From 07b7fe1af644cccaca78cedb5434460ce163ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:08 +0000
Subject: [PATCH 55/67] fix: photon_ops may be a tuple or None

---
 jax_galsim/gsobject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/gsobject.py b/jax_galsim/gsobject.py
index d670c1b..83f0596 100644
--- a/jax_galsim/gsobject.py
+++ b/jax_galsim/gsobject.py
@@ -628,6 +628,8 @@ The JAX-GalSim version of ``drawImage``
 
             depr("surface_ops", 2.3, "photon_ops")
             photon_ops = surface_ops
+        if photon_ops is None:
+            photon_ops = ()
 
         if image is not None and not isinstance(image, Image):
             raise TypeError("image is not an Image instance", image)
@@ -1297,8 +1299,8 @@ The JAX-GalSim version of ``drawPhot``
             rng._key = _dfret.rng._key
         else:
             rng = _dfret.rng
-        for i in range(len(photon_ops)):
-            photon_ops[i] = _dfret.photon_ops[i]
+        if isinstance(photon_ops, list):
+            photon_ops[:] = _dfret.photon_ops
 
         image._array = _dfret.image._array
 
-- 
2.43.0


From d7b2fb792f5c46386ee04319e311a76275ab59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 56/67] fix: Quintic.unit_integrals honours max_len

---
 jax_galsim/interpolant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_galsim/interpolant.py b/jax_galsim/interpolant.py
index 1b48939..89e4804 100644
--- a/jax_galsim/interpolant.py
+++ b/jax_galsim/interpolant.py
@@ -653,6 +653,10 @@ class Quintic(Interpolant):
     def ixrange(self):
         return 6
 
+    @implements(_galsim.interpolant.Quintic.unit_integrals)
+    def unit_integrals(self, max_len=None):
+        return self._unit_integrals[:max_len]
+
 
 @implements(_galsim.interpolant.Lanczos)
 @register_pytree_node_class
-- 
2.43.0


From bc04afadcd1084a8e311808944a108e01a2dbca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 57/67] fix: images converted to GalSim stay writable and keep
 their header and constness

---
 jax_galsim/image.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/image.py b/jax_galsim/image.py
index 85979b8..48ed042 100644
--- a/jax_galsim/image.py
+++ b/jax_galsim/image.py
@@ -1311,6 +1311,7 @@ class Image(object):
             ),
             wcs=wcs,
             bounds=Bounds.from_galsim(galsim_image.bounds),
+            make_const=galsim_image.isconst,
         )
         if hasattr(galsim_image, "header"):
             im.header = galsim_image.header
@@ -1319,9 +1320,16 @@ class Image(object):
     def to_galsim(self):
         """Create a galsim `Image` from a `jax_galsim.Image` object."""
         wcs = self.wcs.to_galsim() if self.wcs is not None else None
-        return _galsim.Image(
-            np.asarray(self.array), bounds=self.bounds.to_galsim(), wcs=wcs
+        im = _galsim.Image(
+            # copied since the arrays of JAX are read-only
+            np.array(self.array),
+            bounds=self.bounds.to_galsim(),
+            wcs=wcs,
+            make_const=self.isconst,
         )
+        if hasattr(self, "header"):
+            im.header = self.header
+        return im
 
     @implements(
         _galsim.Image.FindAdaptiveMom,
-- 
2.43.0


From 917d498af77d27db05aceae34b60e19f0707bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 58/67] fix: derivatives of shears are finite at zero

---
 jax_galsim/shear.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/shear.py b/jax_galsim/shear.py
index 43eb80c..bbdac86 100644
--- a/jax_galsim/shear.py
+++ b/jax_galsim/shear.py
@@ -251,9 +251,11 @@ class Shear(object):
 
     def _g2eta(self, absg):
         absgsq = absg * absg
+        # the masked value keeps derivatives finite near g=0
+        absg_msk = jnp.where(absg > 1.0e-4, absg, 0.5)
         return jnp.where(
             absg > 1.0e-4,
-            2.0 * jnp.arctanh(absg) / absg,
+            2.0 * jnp.arctanh(absg_msk) / absg_msk,
             # This doesn't have as much trouble with accuracy, but have to avoid absg=0,
             # so might as well Taylor expand for small values.
             2.0 + absgsq * ((2.0 / 3.0) + absgsq * 0.4),
@@ -261,9 +263,11 @@ class Shear(object):
 
     def _eta2g(self, abseta):
         absetasq = abseta * abseta
+        # the masked value keeps derivatives finite near eta=0
+        abseta_msk = jnp.where(abseta > 1.0e-4, abseta, 1.0)
         return jnp.where(
             abseta > 1.0e-4,
-            jnp.tanh(0.5 * abseta) / abseta,
+            jnp.tanh(0.5 * abseta_msk) / abseta_msk,
             0.5 + absetasq * ((-1.0 / 24.0) + absetasq * (1.0 / 240.0)),
         )
 
-- 
2.43.0


From 994205aa5a800e2dde1a99837811cc7a49909d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 59/67] fix: the derivative of the sine integral is finite at
 zero

---
 jax_galsim/bessel.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jax_galsim/bessel.py b/jax_galsim/bessel.py
index f7b14ac..0f553f9 100644
--- a/jax_galsim/bessel.py
+++ b/jax_galsim/bessel.py
@@ -95,11 +95,15 @@ def _si_small_pade(x, x2):
 @jax.jit
 def si(x):
     x2 = x * x
+    msk = x2 > 16.0
+    # the masked value keeps derivatives finite near x=0
+    x_msk = jnp.where(msk, x, 5.0)
+    x2_msk = x_msk * x_msk
     return jnp.where(
-        x2 > 16.0,
+        msk,
         jnp.sign(x) * (jnp.pi / 2)
-        - _f_pade(x, x2) * jnp.cos(x)
-        - _g_pade(x, x2) * jnp.sin(x),
+        - _f_pade(x_msk, x2_msk) * jnp.cos(x_msk)
+        - _g_pade(x_msk, x2_msk) * jnp.sin(x_msk),
         _si_small_pade(x, x2),
     )
 
-- 
2.43.0


From da779dda135908ddde7e0aa58f8a0aa7c65b114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 60/67] fix: derivatives of exponential profiles are finite at
 the center

---
 jax_galsim/core/math.py   | 2 +-
 jax_galsim/exponential.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/core/math.py b/jax_galsim/core/math.py
index e4cde10..80d3fbd 100644
--- a/jax_galsim/core/math.py
+++ b/jax_galsim/core/math.py
@@ -5,6 +5,6 @@ import jax.numpy as jnp
 @jax.jit
 def safe_sqrt(x):
     """Numerically safe sqrt operation with zero derivative at zero."""
-    msk = x > 0
+    msk = ~(x <= 0)  # NaN is passed on
     x_msk = jnp.where(msk, x, 1.0)
     return jnp.where(msk, jnp.sqrt(x_msk), 0.0)
diff --git a/jax_galsim/exponential.py b/jax_galsim/exponential.py
index 1d47254..78900af 100644
--- a/jax_galsim/exponential.py
+++ b/jax_galsim/exponential.py
@@ -6,6 +6,7 @@ import numpy as np
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue
+from jax_galsim.core.math import safe_sqrt
 from jax_galsim.core.utils import ensure_hashable, implements
 from jax_galsim.gsobject import GSObject
 from jax_galsim.random import UniformDeviate
@@ -128,7 +129,7 @@ class Exponential(GSObject):
         return self._norm
 
     def _xValue(self, pos):
-        r = jnp.sqrt(pos.x**2 + pos.y**2)
+        r = safe_sqrt(pos.x**2 + pos.y**2)
         return self._norm * jnp.exp(-r * self._inv_r0)
 
     def _kValue(self, kpos):
-- 
2.43.0


From 073c3725e3018cc2aedf0b0a4d3ca12e41d1d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 61/67] fix: derivatives of Spergel profiles are finite at the
 center and unflattening does not validate

---
 jax_galsim/spergel.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jax_galsim/spergel.py b/jax_galsim/spergel.py
index 3a09329..cc252ef 100644
--- a/jax_galsim/spergel.py
+++ b/jax_galsim/spergel.py
@@ -6,6 +6,7 @@ from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.bessel import kv
 from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue
+from jax_galsim.core.math import safe_sqrt
 from jax_galsim.core.utils import bisect_for_root, ensure_hashable, implements
 from jax_galsim.gsobject import GSObject
 from jax_galsim.random import UniformDeviate
@@ -315,6 +316,15 @@ class Spergel(GSObject):
                 gsparams=gsparams,
             )
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        """Recreates an instance of the class from flatten representation"""
+        # the leaves may be anything with the same structure (e.g. derivatives), so the
+        # parameters are not validated here
+        obj = cls.__new__(cls)
+        GSObject.__init__(obj, **(children[0]), **aux_data)
+        return obj
+
     @property
     @implements(_galsim.spergel.Spergel.nu)
     def nu(self):
@@ -421,8 +431,11 @@ class Spergel(GSObject):
 
     @jax.jit
     def _xValue(self, pos):
-        r = jnp.sqrt(pos.x**2 + pos.y**2) * self._inv_r0
-        res = jnp.where(r == 0, self._xnorm0, fz_nu(r, jax.lax.stop_gradient(self.nu)))
+        r = safe_sqrt(pos.x**2 + pos.y**2) * self._inv_r0
+        msk = r != 0
+        # the masked value keeps derivatives finite at the center
+        r_msk = jnp.where(msk, r, 1.0)
+        res = jnp.where(msk, fz_nu(r_msk, jax.lax.stop_gradient(self.nu)), self._xnorm0)
         return self._xnorm * res
 
     @jax.jit
-- 
2.43.0


From 4a4e9bb9556f60f86e9693e252c1be48186f2bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 62/67] fix: unflattening Moffat profiles does not validate
 their numbers

---
 jax_galsim/moffat.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jax_galsim/moffat.py b/jax_galsim/moffat.py
index 13ea2a3..f4f3012 100644
--- a/jax_galsim/moffat.py
+++ b/jax_galsim/moffat.py
@@ -126,11 +126,24 @@ class Moffat(GSObject):
                 gsparams=gsparams,
             )
 
+        self._check_gsparams()
+
+    def _check_gsparams(self):
         if self.gsparams.maxk_threshold > 0.1:
             raise ValueError(
                 "JAX-GalSim Moffat profiles do not support gsparams.maxk_threshold values greater than 0.1!"
             )
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        """Recreates an instance of the class from flatten representation"""
+        # the leaves may be anything with the same structure (e.g. derivatives), so the
+        # parameters are not validated here
+        obj = cls.__new__(cls)
+        GSObject.__init__(obj, **(children[0]), **aux_data)
+        obj._check_gsparams()
+        return obj
+
     @property
     @implements(_galsim.moffat.Moffat.beta)
     def beta(self):
-- 
2.43.0


From cea938011f70466fd9970e2842bc5c912e24b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 63/67] fix: bisection with constant arguments compiles quickly

---
 jax_galsim/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/core/utils.py b/jax_galsim/core/utils.py
index 04b0a98..f73bad5 100644
--- a/jax_galsim/core/utils.py
+++ b/jax_galsim/core/utils.py
@@ -170,7 +170,7 @@ def bisect_for_root(func, low, high, niter=75):
         fmid = func(mid)
         return jax.lax.cond(
             # a midpoint that is a root itself becomes the upper end
-            jnp.sign(fmid) == jnp.sign(flow),
+            jnp.where(fhigh == 0, fmid != 0, fmid * fhigh < 0),
             lambda func, low, flow, mid, fmid, high, fhigh: (
                 func,
                 mid,
-- 
2.43.0


From 2d425bb0194c6b21032cfe7345206a5e17d9a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 64/67] fix: derivatives near zeros of the argument of sinc are
 accurate

---
 jax_galsim/box.py         |  3 ++-
 jax_galsim/celestial.py   |  5 +++--
 jax_galsim/core/math.py   | 17 +++++++++++++++++
 jax_galsim/interpolant.py | 15 ++++++++-------
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/jax_galsim/box.py b/jax_galsim/box.py
index 6a6ccde..e06fe4d 100644
--- a/jax_galsim/box.py
+++ b/jax_galsim/box.py
@@ -3,6 +3,7 @@ import jax.numpy as jnp
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.draw import draw_by_kValue, draw_by_xValue
+from jax_galsim.core.math import safe_sinc
 from jax_galsim.core.utils import ensure_hashable, implements
 from jax_galsim.gsobject import GSObject
 from jax_galsim.random import UniformDeviate
@@ -89,7 +90,7 @@ class Box(GSObject):
     def _kValue(self, kpos):
         _wo2pi = self.width / (2.0 * jnp.pi)
         _ho2pi = self.height / (2.0 * jnp.pi)
-        return self.flux * jnp.sinc(kpos.x * _wo2pi) * jnp.sinc(kpos.y * _ho2pi)
+        return self.flux * safe_sinc(kpos.x * _wo2pi) * safe_sinc(kpos.y * _ho2pi)
 
     def _drawReal(self, image, jac=None, offset=(0.0, 0.0), flux_scaling=1.0):
         _jac = jnp.eye(2) if jac is None else jac
diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index c885fc5..41b8e98 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -31,6 +31,7 @@ import numpy as np
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.angle import Angle, _Angle, arcsec, degrees, radians
+from jax_galsim.core.math import safe_sinc
 from jax_galsim.core.utils import ensure_hashable, implements
 
 
@@ -495,7 +496,7 @@ class CelestialCoord(object):
             # k = c / np.sin(c)
             # np.sinc is defined as sin(pi x) / (pi x)
             # So need to divide by pi first.
-            k = 1.0 / jnp.sinc(c / jnp.pi)
+            k = 1.0 / safe_sinc(c / jnp.pi)
 
         # u = k * cosdec * sindra
         # v = k * ( self._cosdec * sindec - self._sindec * cosdec * cosdra )
@@ -572,7 +573,7 @@ class CelestialCoord(object):
         else:
             r = jnp.sqrt(rsq)
             cosc = jnp.cos(r)
-            sinc_over_r = jnp.sinc(r / jnp.pi)
+            sinc_over_r = safe_sinc(r / jnp.pi)
 
         # Compute sindec, tandra
         # Note: more efficient to use numpy op= as much as possible to avoid temporary arrays.
diff --git a/jax_galsim/core/math.py b/jax_galsim/core/math.py
index 80d3fbd..d3b0459 100644
--- a/jax_galsim/core/math.py
+++ b/jax_galsim/core/math.py
@@ -8,3 +8,20 @@ def safe_sqrt(x):
     msk = ~(x <= 0)  # NaN is passed on
     x_msk = jnp.where(msk, x, 1.0)
     return jnp.where(msk, jnp.sqrt(x_msk), 0.0)
+
+
+@jax.jit
+def safe_sinc(x):
+    """sin(pi x) / (pi x) with accurate derivatives for small x
+
+    The derivatives of jnp.sinc suffer from large cancellation errors for tiny
+    but nonzero x.
+    """
+    msk = jnp.abs(x) < 1e-3
+    pix_msk = jnp.pi * jnp.where(msk, 1.0, x)
+    y = jnp.where(msk, (jnp.pi * x) ** 2, 0.0)
+    return jnp.where(
+        msk,
+        1.0 - y / 6.0 * (1.0 - y / 20.0 * (1.0 - y / 42.0)),
+        jnp.sin(pix_msk) / pix_msk,
+    )
diff --git a/jax_galsim/interpolant.py b/jax_galsim/interpolant.py
index 89e4804..4a9eed8 100644
--- a/jax_galsim/interpolant.py
+++ b/jax_galsim/interpolant.py
@@ -16,6 +16,7 @@ from galsim.errors import GalSimValueError
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.core.interpolate import akima_interp, akima_interp_coeffs
+from jax_galsim.core.math import safe_sinc
 from jax_galsim.core.utils import implements, is_equal_with_arrays
 from jax_galsim.errors import GalSimError
 from jax_galsim.gsparams import GSParams
@@ -340,7 +341,7 @@ class Nearest(Interpolant):
 
     @jax.jit
     def _uval(u):
-        return jnp.sinc(u)
+        return safe_sinc(u)
 
     def urange(self):
         """The maximum extent of the interpolant in Fourier space (in 2pi/pixels)."""
@@ -405,7 +406,7 @@ class SincInterpolant(Interpolant):
 
     @jax.jit
     def _xval(x):
-        return jnp.sinc(x)
+        return safe_sinc(x)
 
     @jax.jit
     def _uval(u):
@@ -470,7 +471,7 @@ class Linear(Interpolant):
 
     @jax.jit
     def _uval(u):
-        s = jnp.sinc(u)
+        s = safe_sinc(u)
         return s * s
 
     def urange(self):
@@ -534,7 +535,7 @@ class Cubic(Interpolant):
     @jax.jit
     def _uval(u):
         u = jnp.abs(u)
-        s = jnp.sinc(u)
+        s = safe_sinc(u)
         c = jnp.cos(jnp.pi * u)
         return s * s * s * (3.0 * s - 2.0 * c)
 
@@ -625,7 +626,7 @@ class Quintic(Interpolant):
     @jax.jit
     def _uval(u):
         u = jnp.abs(u)
-        s = jnp.sinc(u)
+        s = safe_sinc(u)
         piu = jnp.pi * u
         c = jnp.cos(piu)
         ssq = s * s
@@ -1444,7 +1445,7 @@ class Lanczos(Interpolant):
         if conserve_dc or (n > 1 and n < 8):
             pix = jnp.pi * x
 
-        sincx_n = jnp.sinc(x / n)
+        sincx_n = safe_sinc(x / n)
         if n == 1:
             sincx = sincx_n
         elif n == 2:
@@ -1473,7 +1474,7 @@ class Lanczos(Interpolant):
             snsq = sn * sn
             sincx = sincx_n * (1.0 - snsq / 7 * (56 - snsq * (112 - 64 * snsq)))
         else:
-            sincx = jnp.sinc(x)
+            sincx = safe_sinc(x)
 
         val = sincx * sincx_n
 
-- 
2.43.0


From ce923584623402b7b140cce4d92195f349df6b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 65/67] fix: unflattened Moffat profiles know their beta
 threshold

---
 jax_galsim/moffat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_galsim/moffat.py b/jax_galsim/moffat.py
index f4f3012..ee90dfc 100644
--- a/jax_galsim/moffat.py
+++ b/jax_galsim/moffat.py
@@ -43,6 +43,7 @@ class Moffat(GSObject):
     _is_analytic_x = True
     _is_analytic_k = True
     _has_hard_edges = False
+    _beta_thr = 1.1
 
     def __init__(
         self,
@@ -56,7 +57,6 @@ class Moffat(GSObject):
     ):
         # notice that trunc==0. means no truncated Moffat.
         # let define beta_thr a threshold to trigger the truncature
-        self._beta_thr = 1.1
 
         if (not isinstance(trunc, (float, int))) or trunc != 0:
             raise ValueError(
-- 
2.43.0


From 8a2202346a2617aabdaea1ecff32f6b3fc00c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 66/67] fix: derivatives of Postel projections are finite at
 the center

---
 jax_galsim/celestial.py | 58 +++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index 41b8e98..dab2381 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -31,7 +31,7 @@ import numpy as np
 from jax.tree_util import register_pytree_node_class
 
 from jax_galsim.angle import Angle, _Angle, arcsec, degrees, radians
-from jax_galsim.core.math import safe_sinc
+from jax_galsim.core.math import safe_sinc, safe_sqrt
 from jax_galsim.core.utils import ensure_hashable, implements
 
 
@@ -492,11 +492,18 @@ class CelestialCoord(object):
             k = jnp.sqrt(2.0 / (1.0 + cosc))
         else:
             # rounding can put cosc just outside [-1, 1]
-            c = jnp.arccos(jnp.clip(cosc, -1.0, 1.0))
+            t = 1.0 - jnp.clip(cosc, -1.0, 1.0)
+            msk = t < 1.0e-4
+            c = jnp.arccos(1.0 - jnp.where(msk, 1.0, t))
             # k = c / np.sin(c)
             # np.sinc is defined as sin(pi x) / (pi x)
             # So need to divide by pi first.
-            k = 1.0 / safe_sinc(c / jnp.pi)
+            # Near the center, where arccos is not differentiable, expand in 1 - cos(c).
+            k = jnp.where(
+                msk,
+                1.0 + t / 3.0 + 2.0 * t**2 / 15.0 + 2.0 * t**3 / 35.0,
+                1.0 / safe_sinc(c / jnp.pi),
+            )
 
         # u = k * cosdec * sindra
         # v = k * ( self._cosdec * sindec - self._sindec * cosdec * cosdra )
@@ -571,7 +578,7 @@ class CelestialCoord(object):
             cosc = 1.0 - rsq / 2.0
             sinc_over_r = jnp.sqrt(4.0 - rsq) / 2.0
         else:
-            r = jnp.sqrt(rsq)
+            r = safe_sqrt(rsq)
             cosc = jnp.cos(r)
             sinc_over_r = safe_sinc(r / jnp.pi)
 
@@ -647,7 +654,7 @@ class CelestialCoord(object):
             dsdu = -u / (4.0 * s)
             dsdv = -v / (4.0 * s)
         else:
-            r = jnp.sqrt(rsq)
+            r = safe_sqrt(rsq)
 
             # original code for reference
             # if r == 0.:
@@ -663,36 +670,19 @@ class CelestialCoord(object):
             #     dsdu = (c-s)*u/rsq
             #     dsdv = (c-s)*v/rsq
 
-            c = jnp.where(
-                r == 0.0,
-                1.0,
-                jnp.cos(r),
-            )
-            s = jnp.where(
-                r == 0.0,
-                1.0,
-                jnp.sin(r) / r,
-            )
-            dcdu = jnp.where(
-                r == 0.0,
-                -u,
-                -s * u,
-            )
-            dcdv = jnp.where(
-                r == 0.0,
-                -v,
-                -s * v,
-            )
-            dsdu = jnp.where(
-                r == 0.0,
-                0.0,
-                (c - s) * u / rsq,
-            )
-            dsdv = jnp.where(
-                r == 0.0,
-                0.0,
-                (c - s) * v / rsq,
+            c = jnp.cos(r)
+            s = safe_sinc(r / jnp.pi)
+            dcdu = -s * u
+            dcdv = -s * v
+            # (c - s) / rsq, expanded for small r where it is not accurate or differentiable
+            msk = rsq < 1.0e-4
+            cms = jnp.where(
+                msk,
+                -1.0 / 3.0 + rsq / 30.0 - rsq**2 / 840.0 + rsq**3 / 45360.0,
+                (c - s) / jnp.where(msk, 1.0, rsq),
             )
+            dsdu = cms * u
+            dsdv = cms * v
 
         _cosra, _sinra, _cosdec, _sindec = self._get_aux()[:4]
         s0 = _sindec
-- 
2.43.0


From 63cba707fabe0da09ee1f36b8a39d956dc8486f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:22 +0000
Subject: [PATCH 67/67] fix: derivatives of distances and angles on the sky are
 finite at special separations

---
 jax_galsim/celestial.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/jax_galsim/celestial.py b/jax_galsim/celestial.py
index dab2381..9ac78a5 100644
--- a/jax_galsim/celestial.py
+++ b/jax_galsim/celestial.py
@@ -235,17 +235,22 @@ class CelestialCoord(object):
         # d^2 = (x1-x2)^2 + (y1-y2)^2 + (z1-z2)^2
         dsq = self._raw_dsq(aux, auxc)
 
+        # Neither formula is differentiable everywhere that the other one is used.
+        msk = dsq < 3.99
+        dsq_msk = jnp.where(msk, dsq, 1.0)
+        crsq = jnp.sum(jnp.array(self._raw_cross(aux, auxc)) ** 2)
+        crsq_msk = jnp.where(msk, 0.25, crsq)
+
         theta = jnp.where(
-            dsq < 3.99,
+            msk,
             # (The usual case.  This formula is perfectly stable here.)
             # This direct distance can then be converted to a great circle distance via
             #
             # sin(theta/2) = d/2
-            2.0 * jnp.arcsin(0.5 * jnp.sqrt(dsq)),
+            2.0 * jnp.arcsin(0.5 * jnp.sqrt(dsq_msk)),
             # Points are nearly antipodes where the accuracy of this formula starts to break down.
             # But in this case, the cross product provides an accurate distance.
-            jnp.pi
-            - jnp.arcsin(jnp.sqrt(jnp.sum(jnp.array(self._raw_cross(aux, auxc)) ** 2))),
+            jnp.pi - jnp.arcsin(jnp.sqrt(crsq_msk)),
         )
 
         return _Angle(theta)
@@ -326,13 +331,15 @@ class CelestialCoord(object):
 
         # JAX has separate code path for 3x3 determinants that doesn't match the LU path in
         # galsim/ numpy. The slogdet function uses the LU decomp by default, so we use that.
-        sign, logdet = jnp.linalg.slogdet(
-            jnp.array(
-                [[c2_x, c2_y, c2_z], [_x, _y, _z], [c3_x, c3_y, c3_z]],
-                dtype=float,
-            )
+        mat = jnp.array(
+            [[c2_x, c2_y, c2_z], [_x, _y, _z], [c3_x, c3_y, c3_z]],
+            dtype=float,
         )
-        return sign * jnp.exp(logdet)
+        sign, logdet = jax.lax.stop_gradient(jnp.linalg.slogdet(mat))
+        # The derivatives are those of the explicit formula, since the derivatives of the
+        # log are not finite for a singular matrix. The last two terms cancel exactly.
+        det = jnp.linalg.det(mat)
+        return sign * jnp.exp(logdet) + (det - jax.lax.stop_gradient(det))
 
     @jax.jit
     def _alt_triple(self, aux, auxc2, auxc3):
-- 
2.43.0

