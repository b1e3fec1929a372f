From 05090a1c3a84c4260ded0c957da5178a7567bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 01/47] fix: append header lines verbatim when writing hdr
 images

quotes and backslashes in a header line were interpreted by shlex (lost, or
ValueError)
---
 raytools/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index e5f3292..6694789 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -144,8 +144,7 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
     if header is not None:
         if clean:
             header = clean_header(header)
-        hdr = "' '".join(header)
-        getinfo = shlex.split(f"getinfo -a '{hdr}'")
+        getinfo = ["getinfo", "-a", *(list(header) or [""])]
         p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
         q = Popen(getinfo, stdin=p.stdout, stdout=f)
     else:
-- 
2.43.0


From 355c24175fa7fce9be61667bfcb0404dbabb1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 02/47] fix: is_hdr compares bytes, so that it can be true

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 6694789..da3f6ff 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -295,7 +295,7 @@ def clean_header(header):
 
 
 def is_hdr(imgf):
-    f = open(imgf)
+    f = open(imgf, 'rb')
     ishdr = f.read(10) == b'#?RADIANCE'
     f.close()
     return ishdr
-- 
2.43.0


From 7ac509f79f6fc3d4f3c6cb8a5905377fc74f2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 03/47] fix: GSS falls back to a 180 degree view for images
 without a view

the missing view was looked up as a file called None, and the image then
parsed as a view file (UnicodeDecodeError)
---
 raytools/evaluate/hvsgsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index a7e4818..f2db68d 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -414,6 +414,8 @@ class GSS:
     def vm(self, view):
         if isinstance(view, ViewMapper):
             vm = view
+        elif view is None:
+            vm = None
         else:
             try:
                 vm = itl.hdr2vm(view)
-- 
2.43.0


From 3a0a81fb42adc039ba69062bd89b4d1412311b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 04/47] fix: read hdr files whose name contains spaces or
 quotes

commands were built as strings and split again, so such names were taken
apart; pass the arguments as lists
---
 raytools/imagetools.py | 17 ++++++++---------
 raytools/io.py         |  9 ++++-----
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 65afb52..e74f891 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -8,9 +8,9 @@
 # =======================================================================
 
 """functions for translating from mappers to hdr"""
-import numpy as np
-import clasp.script_tools as cst
+from subprocess import Popen, PIPE
 
+import numpy as np
 
 from raytools import translate, io
 from raytools.evaluate import MetricSet, ColorMetricSet, retina
@@ -219,10 +219,11 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline([f"getinfo -d {imgf}"]).strip().split()
+    hd = Popen(["getinfo", "-d", imgf], stdout=PIPE).communicate()[0]
+    hd = hd.decode("utf-8", "replace").rsplit(":", 1)[-1].split()
     x = 1
     y = 1
-    for i in range(2, len(hd)):
+    for i in range(1, len(hd)):
         if 'X' in hd[i - 1]:
             x = int(hd[i])
         elif 'Y' in hd[i - 1]:
@@ -232,11 +233,9 @@ def img_size(imgf):
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline([f"getinfo {imgf}"], caperr=True)
-    try:
-        err = err.decode("utf-8")
-    except AttributeError:
-        pass
+    header, err = Popen(["getinfo", imgf], stdout=PIPE, stderr=PIPE).communicate()
+    header = header.decode("utf-8", "replace")
+    err = err.decode("utf-8", "replace")
     if "bad header!" in err:
         raise IOError(f"{err} - wrong file type?")
     elif "cannot open" in header:
diff --git a/raytools/io.py b/raytools/io.py
index da3f6ff..2a74827 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -9,7 +9,6 @@
 
 """functions for reading and writing"""
 import re
-import shlex
 import os
 import sys
 import textwrap
@@ -203,7 +202,7 @@ def carray2hdr(ar, imgf, header=None, clean=False):
 
 
 def _hdr_in(pval, imgf, stdin):
-    p = Popen(shlex.split(pval), stdin=stdin, stdout=PIPE, stderr=PIPE)
+    p = Popen(pval, stdin=stdin, stdout=PIPE, stderr=PIPE)
     shape = p.stdout.readline().strip().split()
     try:
         shape = (int(shape[-3]), int(shape[-1]))
@@ -237,7 +236,7 @@ def hdr2array(imgf, stdin=None, header=False, vlambda=None):
         imgd = hdr2carray(imgf, stdin)
         imgd = np.einsum("ijk,i->jk", imgd, vlambda)
     else:
-        pval = f'pvalue -b -h -df -o {imgf}'
+        pval = ['pvalue', '-b', '-h', '-df', '-o'] + [imgf]*(imgf != "")
         imgd = bytes2np(*_hdr_in(pval, imgf, stdin)).T[:, ::-1]
     if header:
         return imgd, hdr_header(imgf)
@@ -257,7 +256,7 @@ def hdr2carray(imgf, stdin=None, header=False):
     -------
     ar: np.array
     """
-    pval = f'pvalue -n -h -df -o {imgf}'
+    pval = ['pvalue', '-n', '-h', '-df', '-o'] + [imgf]*(imgf != "")
     data, shape = _hdr_in(pval, imgf, stdin)
     shape = (3, *shape)
     imgd = np.transpose(bytes2np(data, shape)[:, ::-1], (0, 2, 1))
@@ -302,7 +301,7 @@ def is_hdr(imgf):
 
 
 def hdr_header(imgf, clean=False, items=None):
-    p = Popen(shlex.split(f"getinfo {imgf}"), stdout=PIPE,
+    p = Popen(["getinfo", imgf], stdout=PIPE,
               stderr=PIPE).communicate()
     err = p[1]
     try:
-- 
2.43.0


From 510c4078c291765a45179fbda4ffd7b03c14b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 05/47] fix: colour metrics of images without LuminanceRGB use
 the default weights

imgmetric passed vlambda=None (TypeError); with weights given or in the header
the peak normalisation of colour images did not use them
---
 raytools/imagetools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index e74f891..27ddb9a 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -468,7 +468,11 @@ def imgmetric(imgf, metrics, peakn=False, scale=179, lumrgb=None, threshold=2000
         else:
             if not needscolor and np.allclose((0.26507413, 0.67011463, 0.06481124), lumrgb, atol=.001):
                 lumrgb = None
+    if needscolor and lumrgb is None:
+        lumrgb = (0.265, 0.670, 0.065)
     v, o, l = hdr2vol(imgf, vm, needscolor, vlambda=lumrgb)
+    if peakn and needscolor:
+        peakwargs = {"vlambda": lumrgb, **peakwargs}
     if peakn:
         v, o, l = normalize_peak(v, o, l, scale, **peakwargs)
     if needscolor:
-- 
2.43.0


From 6201297f758e1c212b0a72389a500c2c67fb6fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 06/47] fix: non_uniform_gaussian_filter returns results in the
 order of x

the test whether coordinates were given looked at the function resample, so
unsorted data came back in sorted order
---
 raytools/translate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 4acecee..a4e9f2d 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -558,8 +558,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         idxs = xr
     amu = np.apply_along_axis(nugf, 0, np.reshape(idxs, (1, -1)), x, y, sigma)
     # sort back unless already sorted or resampled
-    if inv_sort is not None and resample is None:
-        amu = amu[inv_sort]
+    if inv_sort is not None and xr is None:
+        amu = amu[..., inv_sort]
     return amu
 
 
-- 
2.43.0


From 54aafdd5a2861eeb9d19b40be9a09917fc41dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 07/47] fix: do not change coordinate and solid angle arrays of
 the caller

tpnorm, tp2xyz, vxy2xyz and metric sets with rays on the view edge worked in
place on their arguments
---
 raytools/evaluate/basemetricset.py | 1 +
 raytools/mapper/angularmixin.py    | 3 +--
 raytools/mapper/mapper.py          | 1 +
 raytools/translate.py              | 2 +-
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index bbda4a9..6ddf1f0 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -85,6 +85,7 @@ class BaseMetricSet(object):
             else:
                 stray = []
             if len(stray) > 0:
+                omega = np.copy(omega)
                 ost = np.atleast_1d(omega[stray])
                 vsts = v[stray].reshape(-1, 3)
                 ds = self.vm.radians(vsts)
diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index de6c559..2cd86f8 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -68,8 +68,7 @@ class AngularMixin(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
-        pxy = np.atleast_2d(xy)
-        pxy -= .5
+        pxy = np.atleast_2d(xy) - .5
         pxy *= (np.array([self._xsign, 1]) *
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index fecf9e0..e3c5f23 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -132,6 +132,7 @@ class Mapper(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
+        xy = np.array(xy, dtype=float)
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
diff --git a/raytools/translate.py b/raytools/translate.py
index a4e9f2d..1adc68b 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -231,7 +231,7 @@ def xyz2xy(xyz, axes=(0, 1, 2), flip=False):
 
 def tpnorm(thetaphi):
     """normalize angular vector to 0-pi, 0-2pi"""
-    thetaphi = np.atleast_2d(thetaphi)
+    thetaphi = np.array(thetaphi, dtype=float, ndmin=2)
     thetaphi[:, 0] = np.mod(thetaphi[:, 0] + np.pi, np.pi)
     thetaphi[:, 1] = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
     return thetaphi
-- 
2.43.0


From d13cb3fdeeb724ffe3464e2b9acb8f0bb95aa402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 08/47] fix: each stray ray gets its own overlap area

with several bright rays on the view edge, all got the area of the last
---
 raytools/evaluate/basemetricset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index 6ddf1f0..f190890 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -98,8 +98,8 @@ class BaseMetricSet(object):
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
                         y = np.sqrt(a2 - x2)
-                        omega[stray] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
-                                        y * (x + np.sqrt(b2 - a2 + x2)))
+                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
+                                    y * (x + np.sqrt(b2 - a2 + x2)))
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
                         ymtx, pmtx = translate.rmtx_yp(up)
-- 
2.43.0


From ee2007c7c8691f36d2843ba05a9f70fffdf0bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 09/47] fix: array_rotate samples at pixel centres

the interpolation grid was half a pixel off, so that every rotation shifted
the image and rotating by 0 was not the identity
---
 raytools/imagetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 27ddb9a..08cd5bf 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -120,7 +120,7 @@ def array_rotate(imarray, ang, center=None, rotate_first=True, fill_value=None,
             pxyz = vm2.view2world(vm.world2view(pxyz))
 
     pxy = vm.ray2pixel(pxyz, res, integer=False)
-    x = np.arange(res)
+    x = np.arange(res) + .5
     if nearest:
         method = "nearest"
     else:
-- 
2.43.0


From e8dca1913e67d8f5ec57c5a546187e8f3855bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 10/47] fix: framesize follows the current aspect

the cached size stayed after the aspect of the mapper was changed
---
 raytools/mapper/mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index e3c5f23..041c108 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -6,8 +6,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import functools
-
 import numpy as np
 from scipy.ndimage import uniform_filter
 
@@ -136,7 +134,6 @@ class Mapper(object):
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-    @functools.lru_cache(1)
     def framesize(self, res):
         if self.aspect < 1:
             yres = res
-- 
2.43.0


From e5fb347d6a343e84a685e71c649f2d26c397c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 11/47] fix: uv2xy and uv2xyz leave the floating point error
 handling alone

np.seterr(all="ignore") silenced numpy errors for the whole process
---
 raytools/translate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 1adc68b..18fb754 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -37,7 +37,6 @@ def uv2xy(uv):
     -map.html.
     """
     uv = np.atleast_2d(uv)
-    np.seterr(all="ignore")
     xy = np.empty((uv.shape[0], 2), float)
     u = uv[:, 0]
     v = uv[:, 1]
@@ -47,7 +46,8 @@ def uv2xy(uv):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
     xy[:, 0] = n*np.cos(phi)*r
     xy[:, 1] = np.sin(phi)*r
     return xy
@@ -58,7 +58,6 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     http://psgraphics.blogspot.com/2011/01/improved-code-for-concentric
     -map.html.
     """
-    np.seterr(all="ignore")
     uv = np.atleast_2d(uv)
     xyz = np.empty((uv.shape[0], 3), float)
     u = uv[:, 0]
@@ -71,8 +70,9 @@ def uv2xyz(uv, axes=(0, 1, 2), xsign=1):
     b = 2. * v - 1
     cond = a*a > b*b
     r = np.where(cond, a, np.where(b == 0, 0, b))
-    phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
-    sphterm = r*np.sqrt(2 - r*r)
+    with np.errstate(all="ignore"):
+        phi = np.where(cond, b/(2*a), np.where(b == 0, 0, 1 - a/(2*b)))*np.pi/2
+        sphterm = r*np.sqrt(2 - r*r)
     # flip back x in positive z space
     xyz[:, axes[0]] = xsign*n*np.cos(phi)*sphterm
     xyz[:, axes[1]] = np.sin(phi)*sphterm
-- 
2.43.0


From ea51b23bcf89b78765cb7365f21bb2fe32e8bcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:28 +0000
Subject: [PATCH 12/47] fix: GSS follows a change of view on a model in use

solid angles, masks and eccentricities were only derived again when the
resolution of the image changed
---
 raytools/evaluate/hvsgsm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index f2db68d..74b5231 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -346,6 +346,10 @@ class GSS:
     def lum(self, img):
         """reads image and updates view based values if necessary"""
         self._lum = io.hdr2array(img)*self.scale
+        self._update_tables()
+
+    def _update_tables(self):
+        """update view and resolution based values if necessary"""
         r = self._lum.shape[0]
         if self._res != r:
             self._vecs = self.vm.pixelrays(r)
@@ -424,6 +428,10 @@ class GSS:
             if vm is None:
                 vm = ViewMapper(viewangle=180)
         self._vm = vm
+        # everything derived from the previous view is stale
+        self._res = 0
+        if self._lum is not None:
+            self._update_tables()
 
     # Step 3
     def pupil(self, ev):
-- 
2.43.0


From 1381a10a47d046a32cd93e4fb1f8fb66e1876133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:24 +0000
Subject: [PATCH 13/47] fix: hdr_header only drops the file signature

the unescaped ? made every line that mentions RADIANCE disappear, for example
SOFTWARE= lines
---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 2a74827..c310294 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -316,7 +316,7 @@ def hdr_header(imgf, clean=False, items=None):
         raise IOError(f"{err} - wrong file type?")
     if "cannot open" in header:
         raise FileNotFoundError(f"{imgf} not found")
-    header = [i for i in header.strip().splitlines() if not re.match(r".*#?RADIANCE.*", i)]
+    header = [i for i in header.strip().splitlines() if not re.match(r"\s*#\?RADIANCE", i)]
     if items is not None:
         header = header_items(header, items=items)
     elif clean:
-- 
2.43.0


From 8c768a9a3605af93434d37e8e04d4e22b6e288f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 14/47] fix: cleaning a header keeps EXPOSURE and COLORCORR
 inside their file

A repeated EXPOSURE line was promoted to the top level of the header, where
it applies to the picture written: rotating or cleaning a picture exposed
twice by the same factor changed its values.
---
 raytools/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/io.py b/raytools/io.py
index c310294..4723127 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -512,6 +512,8 @@ class CleanHeader(object):
             if key == "..." or key == lastkey and len(curf) > 0:  # unwrap previously cleaned header
                 curf[-1] += " " + val.lstrip()
                 vals[-1] += " " + val.lstrip()
+            elif cl in vals and key in ["EXPOSURE", "COLORCORR"]:
+                pass  # outside of its file it would apply to the output
             elif cl in vals:  # promote
                 idx = self._pop_and_promote(files, cl)
                 if idx is not None:
-- 
2.43.0


From c1fc9e41b3fb4cdc96fdce3d3df4209f1a942b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 15/47] fix: header cleaning finds repeated lines in every file
 section

Only the first section was searched, so that a repetition in another one
was added to the top of the header without being removed.
---
 raytools/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 4723127..ec53883 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -549,8 +549,10 @@ class CleanHeader(object):
                     data.pop(i)
                     return idx + [i]
                 continue
-            return self._pop_and_promote(v['content'], val, idx + [i])
-        return idx
+            found = self._pop_and_promote(v['content'], val, idx + [i])
+            if found is not None:
+                return found
+        return None
 
     def _clean_up(self, data, depth=0, da=0):
         """recursive function to format the prepocessed data into a new
-- 
2.43.0


From 3df69115eed398aed6bb9851e72f551963733dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 16/47] fix: header cleaning does not append to the line before
 a removed repetition

x=1, y=1, x=1, x=2 became y=1 2, and x=1, x=1 became x=1 1. Words without
value and lines with repeated spaces are recognised as repeated as well.
---
 raytools/io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index ec53883..14d3629 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -462,6 +462,7 @@ class CleanHeader(object):
         vals = []  # use to check for redundant lines
         cs = []  # the current stack of file nesting
         lastkey = ""
+        lastline = ""
         for i, h in enumerate(self._text.splitlines()):
             cl = h.strip()
             cl = re.sub(r"\S*clasp_tmp[^\s:]*", "<stdin>", cl)
@@ -502,6 +503,7 @@ class CleanHeader(object):
                 continue
             if sep is None:
                 sep = " "
+            cl = f"{key}{sep}{val}".strip()
             if key == "VIEW":  # only store last view
                 view = val
                 continue
@@ -509,11 +511,12 @@ class CleanHeader(object):
                 curf = cs[-1]['content']
             else:
                 curf = files
-            if key == "..." or key == lastkey and len(curf) > 0:  # unwrap previously cleaned header
+            unwrap = key == "..." or key == lastkey and cl != lastline
+            if unwrap and len(curf) > 0 and type(curf[-1]) == str:  # unwrap previously cleaned header
                 curf[-1] += " " + val.lstrip()
                 vals[-1] += " " + val.lstrip()
             elif cl in vals and key in ["EXPOSURE", "COLORCORR"]:
-                pass  # outside of its file it would apply to the output
+                key = ""  # outside of its file it would apply to the output
             elif cl in vals:  # promote
                 idx = self._pop_and_promote(files, cl)
                 if idx is not None:
@@ -523,8 +526,9 @@ class CleanHeader(object):
                         k += 1
                         f = f[j]['content']
                     f.insert(idx[k], cl)
+                key = ""  # nothing to unwrap into
             else:
-                vals.append(f"{key}{sep}{val}")
+                vals.append(cl)
                 if len(cs) > 0 and depth <= cs[-1]['depth']:
                     le = cs[-1]['depth'] - depth
                     cs = cs[:-(le + 1)]
@@ -533,6 +537,7 @@ class CleanHeader(object):
                 else:
                     files.append(vals[-1])
             lastkey = key
+            lastline = cl
         return files, view
 
     def _pop_and_promote(self, data, val, idx=None):
-- 
2.43.0


From aacd1e63afa6cf5514176e79f08bdabeb5d22392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 17/47] fix: header cleaning closes the right number of file
 sections

A section one level up from the last one was put at the top level, and so
became a part of the section before it in the cleaned header.
---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index 14d3629..d3fcb51 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -481,7 +481,7 @@ class CleanHeader(object):
                     cs[-1]['content'].append(fi)
                     cs.append(fi)
                 else:
-                    le = depth - cs[-1]['depth']
+                    le = cs[-1]['depth'] - depth
                     cs = cs[:-(le+1)]
                     if len(cs) == 0:
                         cs.append(fi)
-- 
2.43.0


From d25786a579bc49d8243ed656a34bf62fbda8ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 18/47] fix: load_txt reads paths given as bytes

np.loadtxt takes bytes for an iterable of lines and raised TypeError.
---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index d3fcb51..add77ed 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -380,7 +380,7 @@ def load_txt(farray, **kwargs):
     if isinstance(farray, (str, bytes)):
         if os.path.isfile(farray):
             try:
-                return np.loadtxt(farray, **kwargs)
+                return np.loadtxt(os.fsdecode(farray), **kwargs)
             except (ValueError, AttributeError):
                 raise ValueError
         else:
-- 
2.43.0


From d82cce76ca21a758392dcf5d2c79e2127e1f4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 19/47] fix: xyz2skybin tolerance does not wrap to the opposite
 horizon

---
 raytools/translate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/translate.py b/raytools/translate.py
index 18fb754..7b1b7bd 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -180,6 +180,8 @@ def xyz2skybin(xyz, side, tol=0, normalize=False):
         tol = tol/side
         uvi = np.linspace(-tol, tol, 3)
         uvs = np.stack(np.meshgrid(uvi, uvi)).reshape(2, 9).T + uv
+        # do not wrap around to bins on the opposite side of the horizon
+        uvs = uvs[np.all((uvs >= 0) & (uvs < 1), axis=1)]
         sbin = np.unique(uv2bin(uvs, side)).astype(int)
         skybin = sbin[sbin < side**2]
     else:
-- 
2.43.0


From c290b6dd05640a33a63fe2e152aaf970d30aa710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 20/47] fix: far edge of the square belongs to its last cell,
 not the first

---
 raytools/translate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 7b1b7bd..4b7e59f 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -120,7 +120,7 @@ def xyz2uv(xyz, normalize=False, axes=(0, 1, 2), flipu=False):
 
 scbinscal = ("""
 { map U/V axis to bin divisions }
-axis(x) : mod(floor(side * x), side);
+axis(x) : if(1 - x, mod(floor(side * x), side), side - 1);
 nrbins = side * side;
 { get bin of u,v }
 binl(u, v) : axis(u)*side + axis(v);
@@ -333,7 +333,9 @@ def degrees(a, b):
 
 def uv2ij(uv, side, aspect=2):
     uv = np.atleast_2d(uv)
-    ij = np.mod(np.floor(side*uv), side)
+    # the far edge closes the last cell (instead of wrapping to the first)
+    edge = np.equal(uv, (aspect, 1))
+    ij = np.mod(np.floor(side*uv) - edge, side)
     if aspect == 2:
         ij[:, 0] += (uv[:, 0] >= 1) * side
     return ij.astype(int)
-- 
2.43.0


From 5f1ccff597b998ba33aa68485b752f6ff5815ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 21/47] fix: xyz2tp (and rmtx_yp) keep the direction of vectors
 next to -z, no nan at +z

---
 raytools/translate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 4b7e59f..7cffc42 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -255,9 +255,10 @@ def tp2xyz(thetaphi, normalize=True):
 def xyz2tp(xyz):
     """calculate theta (0-pi), phi from x,y,z RHS Z-up"""
     xyz = np.atleast_2d(xyz)
-    theta = np.arccos(xyz[:, 2])
-    phi = np.where(np.isclose(theta, 0.0, atol=1e-10), np.pi,
-                   np.where(np.isclose(theta, np.pi, atol=1e-10),
+    # accurate at the poles, also when rounding leaves |z| > 1
+    theta = np.arctan2(np.hypot(xyz[:, 0], xyz[:, 1]), xyz[:, 2])
+    phi = np.where(np.isclose(theta, 0.0, rtol=0, atol=1e-10), np.pi,
+                   np.where(np.isclose(theta, np.pi, rtol=0, atol=1e-10),
                             np.pi, np.arctan2(xyz[:, 1], xyz[:, 0])))
     return tpnorm(np.column_stack([theta, phi]))
 
-- 
2.43.0


From b3b797c89b30a84e8d49109251be2da253130afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 22/47] fix: tpnorm keeps theta = pi, straight down does not
 turn into straight up

---
 raytools/translate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 7cffc42..259aaab 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -234,7 +234,10 @@ def xyz2xy(xyz, axes=(0, 1, 2), flip=False):
 def tpnorm(thetaphi):
     """normalize angular vector to 0-pi, 0-2pi"""
     thetaphi = np.array(thetaphi, dtype=float, ndmin=2)
-    thetaphi[:, 0] = np.mod(thetaphi[:, 0] + np.pi, np.pi)
+    # theta = pi (straight down) is in range
+    thetaphi[:, 0] = np.where(np.isclose(thetaphi[:, 0], np.pi, rtol=0,
+                                         atol=1e-15), np.pi,
+                              np.mod(thetaphi[:, 0] + np.pi, np.pi))
     thetaphi[:, 1] = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
     return thetaphi
 
-- 
2.43.0


From e407ec2d4a1fa46cdedd382c845b0c5e8c2f1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 23/47] fix: xyz2aa azimuths are in (-180, 180] as documented

---
 raytools/translate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 259aaab..1f7145a 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -279,7 +279,9 @@ def xyz2aa(xyz):
     xyz = np.atleast_2d(xyz)
     tp = xyz2tp(xyz)
     tp[:, 1] -= np.pi
-    return (np.pi/2 - tp)/(np.pi/180)
+    aa = (np.pi/2 - tp)/(np.pi/180)
+    aa[:, 1] = np.where(aa[:, 1] > 180, aa[:, 1] - 360, aa[:, 1])
+    return aa
 
 
 def chord2theta(c):
-- 
2.43.0


From 8c3329fc62f85729a7bdc58a5198cc3b955fa9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 24/47] fix: Mapper.pixels accepts a jitter

---
 raytools/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 041c108..0927f6f 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -148,7 +148,7 @@ class Mapper(object):
         xres, yres = self.framesize(res)
         if jitter > 0:
             rng = ((1 - jitter)/2, (1 + jitter)/2)
-            offset = np.random.default_rng().uniform(*rng, (xres, yres)).T
+            offset = np.random.default_rng().uniform(*rng, (xres, yres, 2))
         else:
             offset = 0.5
         return np.stack(np.mgrid[0:xres, 0:yres], 2) + offset
-- 
2.43.0


From 9aba9480724b345e6d54c2fe050be204106ab85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 25/47] fix: ViewMapper.uv2idx inverts idx2uv for 360 degree
 views

---
 raytools/mapper/viewmapper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raytools/mapper/viewmapper.py b/raytools/mapper/viewmapper.py
index 0354a0b..de43c9c 100644
--- a/raytools/mapper/viewmapper.py
+++ b/raytools/mapper/viewmapper.py
@@ -94,6 +94,12 @@ class ViewMapper(AngularMixin, Mapper):
         uv = (si.T + offset)/shape[1]
         return uv
 
+    @staticmethod
+    def uv2idx(uv, shape):
+        # inverse of idx2uv: u continues past 1 in the second square
+        ij = (uv * shape[1]).astype(int)
+        return ij[:, 0] * shape[1] + ij[:, 1]
+
     def transform_to(self, imarray, other, nearest=False):
         """take an image arrray with an assumed projection of self and
         transform it to other
-- 
2.43.0


From 02075959b4a947f0299442e258b514972d2d45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 26/47] fix: keep vectors past the sides of the square off
 square images

---
 raytools/mapper/angularmixin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 2cd86f8..656156f 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -229,7 +229,10 @@ class AngularMixin(object):
             if self.aspect == 2:
                 pa = translate.uv2ij(self.xyz2uv(v), res)
             else:
-                pa = translate.uv2ij(self.xyz2uv(v[self.in_view(v)]), res)
+                uv = self.xyz2uv(v[self.in_view(v)])
+                # the view cone reaches past the sides of its square
+                inside = np.all(np.logical_and(uv >= 0, uv <= 1), axis=-1)
+                pa = translate.uv2ij(uv[inside], res, aspect=1)
             xp = pa[:, 0]
             yp = pa[:, 1]
         r = int(grow*2 + 1)
-- 
2.43.0


From 1e6e732927324c540ba2e85c8a644aaeb3a02ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:21 +0000
Subject: [PATCH 27/47] fix: give views straight down an up vector

---
 raytools/mapper/angularmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 656156f..af81a87 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -118,7 +118,7 @@ class AngularMixin(object):
             return mask
 
     def header(self, pt=(0, 0, 0), viewproj='vta', **kwargs):
-        if np.allclose(self.dxyz, (0, 0, 1)):
+        if np.allclose(np.abs(self.dxyz), (0, 0, 1)):
             vup = "0 1 0"
         else:
             vup = "0 0 1"
-- 
2.43.0


From 340878bb3abeab821da5c6bfd2aeed249e57068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 28/47] fix: convert both halves of a full angular image to the
 square

---
 raytools/imagetools.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 08cd5bf..9b77e40 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -48,16 +48,19 @@ def hdr_uv2ang(imgf, outf=None, stdout=False, **kwargs):
 
 
 def array_ang2uv(imarray, vm=None):
-    if vm is None:
-        vm = ViewMapper(viewangle=180)
+    resx = imarray.shape[-2]
     res = imarray.shape[-1]
-    uv = translate.bin2uv(np.arange(res*res), res)
+    if vm is None:
+        vm = ViewMapper(viewangle=360 if resx > res else 180)
+    if vm.aspect == 1:
+        resx = res
+    uv = translate.bin2uv(np.arange(resx*res), res)
     xyz = vm.uv2xyz(uv)
     pxy = vm.ray2pixel(xyz, imarray.shape[-1])
     if len(imarray.shape) == 3:
-        return imarray[:, pxy[:, 0], pxy[:, 1]].reshape(3, res, res)
+        return imarray[:, pxy[:, 0], pxy[:, 1]].reshape(3, resx, res)
     else:
-        return imarray[pxy[:, 0], pxy[:, 1]].reshape(res, res)
+        return imarray[pxy[:, 0], pxy[:, 1]].reshape(resx, res)
 
 
 def hdr_ang2uv(imgf, useview=True, outf=None, stdout=False, **kwargs):
@@ -66,8 +69,6 @@ def hdr_ang2uv(imgf, useview=True, outf=None, stdout=False, **kwargs):
     vm = None
     if useview:
         vm = hdr2vm(imgf)
-    if vm is None:
-        vm = ViewMapper(viewangle=180)
     imarray, header = io.hdr2carray(imgf, header=True)
     img = array_ang2uv(imarray, vm)
     io.carray2hdr(img, outf, header=header, clean=True)
-- 
2.43.0


From 76abc1dab60ed434cee2b3d302cb3c855acf0748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:03 +0000
Subject: [PATCH 29/47] fix: give every ray of a full image its solid angle

---
 raytools/imagetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 9b77e40..4de0908 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -204,6 +204,8 @@ def hdr2vol(imgf, vm=None, color=False, vlambda=None):
         vm = hdr2vm(imgf)
     vecs = vm.pixelrays(ar.shape[-1]).reshape(-1, 3)
     oga = vm.pixel2omega(vm.pixels(ar.shape[-1]), ar.shape[-1]).ravel()
+    # the opposite half of a full view has the same solid angles
+    oga = np.tile(oga, vm.aspect)
     return vecs, oga, np.squeeze(ar.reshape(-1, ar.shape[-1]*ar.shape[-2])).T
 
 
-- 
2.43.0


From c15c48021c8894570ea1b821c773b0ce386d89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 30/47] fix: overlap area of bright rays centred inside the
 view edge

---
 raytools/evaluate/basemetricset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index f190890..f22cb9d 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -98,8 +98,8 @@ class BaseMetricSet(object):
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
                         y = np.sqrt(a2 - x2)
-                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
-                                    y * (x + np.sqrt(b2 - a2 + x2)))
+                        omega[s] = (a2*np.arcsin(y/a) +
+                                    b2*np.arccos((d - x)/b) - y*d)
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
                         ymtx, pmtx = translate.rmtx_yp(up)
-- 
2.43.0


From 7a8afa2cdcc6d9cda2c0ab23b5e29371e37e9afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:12 +0000
Subject: [PATCH 31/47] fix: keep the shape of luminances when one ray is left
 after peak normalisation

---
 raytools/imagetools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 4de0908..f142636 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -427,12 +427,13 @@ def normalize_peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4,
         if returnparts:
             v = vol[:, 0:3]
             omega = vol[:, 3]
-            lum = np.squeeze(vol[:, 4:])
+            lum = vol[:, 4:].reshape((-1,) + l.shape[1:])
         else:
             # then add new consolidated ray back to output v, o, l
             v = np.vstack((vol[:, 0:3], [pvol[0]]))
             omega = np.concatenate((vol[:, 3], [pvol[1]]))
-            lum = np.squeeze(np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T))))
+            lum = np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T)))
+            lum = lum.reshape((-1,) + l.shape[1:])
     else:
         if len(l.shape) > 1:
             pvol = np.zeros(4 + l.shape[-1])
-- 
2.43.0


From 8b1a844000a4714be65334c439269eb9c8ad6b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 32/47] fix: conserve the energy of every channel of a partly
 visible peak

---
 raytools/imagetools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index f142636..1166628 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -339,8 +339,8 @@ def find_peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4,
         if peakc > 1:
             peakl = cume[stop - 1] / peaka
         else:
-            peakl = pvol[0, 4:]
-            peaka = cume[stop - 1, 0] / peakl[0]
+            peaka = cume[stop - 1, 0] / pvol[0, 4]
+            peakl = cume[stop - 1] / peaka
     pc = pc[:stop]
     pvol = pvol[:stop]
     # new source vector weight by L*omega of source rarys
-- 
2.43.0


From 6a993073219388c23724f88e7f7be25a6417f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:33 +0000
Subject: [PATCH 33/47] fix: allow peak normalisation to take every ray

---
 raytools/imagetools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 1166628..3a31336 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -427,13 +427,13 @@ def normalize_peak(v, o, l, scale=179, peaka=6.7967e-05, peakt=1e5, peakr=4,
         if returnparts:
             v = vol[:, 0:3]
             omega = vol[:, 3]
-            lum = vol[:, 4:].reshape((-1,) + l.shape[1:])
+            lum = vol[:, 4:].reshape((len(vol),) + l.shape[1:])
         else:
             # then add new consolidated ray back to output v, o, l
             v = np.vstack((vol[:, 0:3], [pvol[0]]))
             omega = np.concatenate((vol[:, 3], [pvol[1]]))
             lum = np.vstack((vol[:, 4:], np.atleast_2d(pvol[2].T)))
-            lum = lum.reshape((-1,) + l.shape[1:])
+            lum = lum.reshape((len(lum),) + l.shape[1:])
     else:
         if len(l.shape) > 1:
             pvol = np.zeros(4 + l.shape[-1])
-- 
2.43.0


From ed90086e46978fff7ee7db8434c7664a3be656ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 34/47] fix: resample down by whole factors that do not divide
 exactly in floating point

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 1f7145a..7ba7e94 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -393,7 +393,7 @@ def resample(samps, ts=None, gauss=True, radius=None):
                 radius = tuple(rs - 1)
             samps = gaussian_filter(samps, radius)
     elif np.prod(rs) < 1:
-        rs = (1/rs).astype(int)
+        rs = np.rint(1/rs).astype(int)
         og = (-rs/2).astype(int)
         samps = uniform_filter(samps, rs, origin=og)
         for i, j in enumerate(rs):
-- 
2.43.0


From 6c34e1642e356edddabfa534578546f0d2973a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:00 +0000
Subject: [PATCH 35/47] fix: weighted quantiles just below one

---
 raytools/translate.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 7ba7e94..32fcd59 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -443,14 +443,10 @@ def weighted_quantile(d, weights=None, q=0.5, t=0.0):
         cw = cw - cw[0]
         midp = np.asarray(q) * cw[-1]
         li = np.searchsorted(cw, midp, side='right') - 1
-        ri = np.where(np.isclose(q, 1), li, li+1)
-        try:
-            dn = np.where(np.isclose(q, 1), 1, (cw[ri] - cw[li]))
-        except IndexError as ex:
-            result = np.quantile(d, q)
-        else:
-            result = d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
-        return result
+        # the last element has none above to interpolate with
+        ri = np.minimum(li + 1, len(cw) - 1)
+        dn = np.where(ri > li, cw[ri] - cw[li], 1)
+        return d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
 
 
 def weighted_median(d, weights=None, t=0.0):
-- 
2.43.0


From a0f20273cdf769461458734f6318d2347e79ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 36/47] fix: median and single quantiles of several features in
 non_uniform_gaussian_filter

---
 raytools/translate.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 32fcd59..c91bb93 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -481,11 +481,19 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
     mu : np.array
         shape (M,), or (R,) if resample
     """
+    def _by_feature(func):
+        """apply func to each feature (row) of y"""
+        def _func(yp, **kwargs):
+            if len(yp) == 1:
+                return func(yp, **kwargs)
+            return np.ravel([func(yi, **kwargs) for yi in yp])
+        return _func
+
     if type(amethod) == str and amethod == 'mean':
         afunc = np.average
         akwargs = dict(axis=1)
     elif type(amethod) == str and amethod == 'median':
-        afunc = weighted_median
+        afunc = _by_feature(weighted_median)
         akwargs = {}
     else:
         try:
@@ -498,7 +506,7 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         if y.size > max(y.shape) and len(q) > 1:
             raise ValueError(f"y must only have one dimension when calculating "
                              f"more than 1 quantile")
-        afunc = weighted_quantile
+        afunc = _by_feature(weighted_quantile)
         akwargs = dict(q=q)
 
     def _nugf_x(x0, xp, yp, sp):
@@ -518,7 +526,7 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
                 mu = np.average((yp[:, mui], yp[:, mui-1]), axis=0,
                                 weights=(x0-xp[mui-1], xp[mui]-x0))
             if 'q' in akwargs:
-                mu = np.full(len(akwargs['q']), mu)
+                mu = np.repeat(mu, len(akwargs['q']))
         return mu
 
     def _nugf_i(i, xp, yp, sp):
-- 
2.43.0


From 25abd1f5d6c14ca3765ce368d40e7e8d373bfc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 37/47] fix: smoothing several features at coordinates out of
 reach of the data

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index c91bb93..9213352 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -524,7 +524,7 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
                 mu = yp[:, 0]
             else:
                 mu = np.average((yp[:, mui], yp[:, mui-1]), axis=0,
-                                weights=(x0-xp[mui-1], xp[mui]-x0))
+                                weights=np.ravel((x0-xp[mui-1], xp[mui]-x0)))
             if 'q' in akwargs:
                 mu = np.repeat(mu, len(akwargs['q']))
         return mu
-- 
2.43.0


From 70a99b6acb94e1eb81e853cc93e7821083b4c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 38/47] fix: keep the GSS point spread centered when its window
 is an even number of pixels

---
 raytools/evaluate/hvsgsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 74b5231..2a27801 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -467,6 +467,8 @@ class GSS:
         """
         # approximates that relationship of pixels in cone is constant
         window = int(np.ceil(self.fwidth*60*self._pparcmin))
+        # an even kernel has no center pixel
+        window += 1 - window % 2
         vm = ViewMapper(viewangle=self.fwidth)
         img, vecs, mask, _, _ = vm.init_img(window)
         phi = vm.radians(vecs[mask])
-- 
2.43.0


From 4a2dbf01ef890985a90f17d2340e5a55f77d012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 39/47] fix: GSS of an image without a view specification is
 hemispherical

---
 raytools/evaluate/hvsgsm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 2a27801..3c99a0e 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -228,9 +228,7 @@ class GSS:
             self.vm = view
         else:
             try:
-                self.vm = itl.hdr2vm(view)
-            except ValueError:
-                self.vm = ViewMapper(viewangle=180)
+                self.vm = view
             except IOError:
                 self.vm = itl.vf_to_vm(view)
             else:
-- 
2.43.0


From 3b1639023c65e6b0799ad7b094f605302812194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 40/47] fix: name results of images without an extension after
 the image, not its directory

---
 raytools/evaluate/hvsgsm.py | 3 ++-
 raytools/imagetools.py      | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index 3c99a0e..bbad67c 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -5,6 +5,7 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
+import os
 import warnings
 
 import numpy as np
@@ -59,7 +60,7 @@ def process_gss(img, illum, ins, outf=False, outdir=None, suffix="_rg.hdr"):
     """called by gss_compute in parallel"""
     ins.lum = img
     if outf:
-        saverg = img.rsplit(".", 1)[0] + suffix
+        saverg = os.path.splitext(img)[0] + suffix
         if outdir is not None:
             saverg = outdir + "/" + saverg.rsplit("/")[-1]
     else:
diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 3a31336..e30a5c8 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -8,6 +8,7 @@
 # =======================================================================
 
 """functions for translating from mappers to hdr"""
+import os
 from subprocess import Popen, PIPE
 
 import numpy as np
@@ -40,7 +41,7 @@ def array_uv2ang(imarray):
 
 def hdr_uv2ang(imgf, outf=None, stdout=False, **kwargs):
     if outf is None and not stdout:
-        outf = imgf.rsplit(".", 1)[0] + "_ang.hdr"
+        outf = os.path.splitext(imgf)[0] + "_ang.hdr"
     imarray, header = io.hdr2carray(imgf, header=True)
     img = array_uv2ang(imarray)
     io.carray2hdr(img, outf, header=header, clean=True)
@@ -65,7 +66,7 @@ def array_ang2uv(imarray, vm=None):
 
 def hdr_ang2uv(imgf, useview=True, outf=None, stdout=False, **kwargs):
     if outf is None and not stdout:
-        outf = imgf.rsplit(".", 1)[0] + "_uv.hdr"
+        outf = os.path.splitext(imgf)[0] + "_uv.hdr"
     vm = None
     if useview:
         vm = hdr2vm(imgf)
@@ -168,7 +169,7 @@ def hdr_solid2ang(imgf, outf=None, nearest=False, stdout=False, reverse=False,
     img, vmo = array_solid2ang(imarray, nearest, reverse, viewangle)
 
     if outf is None and not stdout:
-        outf = imgf.rsplit(".", 1)[0] + f"_2{vmo.name}.hdr"
+        outf = os.path.splitext(imgf)[0] + f"_2{vmo.name}.hdr"
 
     header.append(vmo.header())
     io.carray2hdr(img, outf, header, clean=True)
@@ -186,7 +187,7 @@ def hdr_rotate(imgf, outf=None, rotate=0.0, center=None, rotate_first=True,
     if (not rotate_first) and rotate != 0:
         cl += f"_r{int(rotate):02d}"
     if outf is None and not stdout:
-        outf = imgf.rsplit(".", 1)[0] + f"{cl}.hdr"
+        outf = os.path.splitext(imgf)[0] + f"{cl}.hdr"
     imarray, header = io.hdr2carray(imgf, header=True)
     header.append(f"hdr_rotate rotate:{rotate} center:{center}, rotate_first:{rotate_first}, nearest:{nearest}")
     img = array_rotate(imarray, rotate, center, rotate_first=rotate_first,
-- 
2.43.0


From ca642245e08e34768de027d153ef62c6ae230d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 41/47] fix: hdr_rotate without rotation or centering no longer
 overwrites its input

---
 raytools/imagetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index e30a5c8..f254fb7 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -186,6 +186,8 @@ def hdr_rotate(imgf, outf=None, rotate=0.0, center=None, rotate_first=True,
         cl += f"_{center[0]}-{center[1]}"
     if (not rotate_first) and rotate != 0:
         cl += f"_r{int(rotate):02d}"
+    if cl == "":
+        cl = "_r00"
     if outf is None and not stdout:
         outf = os.path.splitext(imgf)[0] + f"{cl}.hdr"
     imarray, header = io.hdr2carray(imgf, header=True)
-- 
2.43.0


From 1753e1d309ce348e829d6a8c3196f2ea4b715eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 42/47] fix: raytools smooth scaled the bandwidth of densities
 by the deviation of x twice

---
 raytools/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/cli.py b/raytools/cli.py
index 9ee7c21..73249a3 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -271,7 +271,8 @@ def smooth(ctx, dataf, x=0, x_out=(1000.0,), y=(-1,), sigma=None, sf=1.0,
     sigma *= sf
     bw = None
     if dy.size == 0:
-        k = stats.gaussian_kde(dx, bw_method=sigma)
+        # bw_method is relative to the standard deviation of x
+        k = stats.gaussian_kde(dx, bw_method=sigma/np.std(dx, ddof=1))
         y_out = k(x_out)[None]
     else:
         y_out = translate.non_uniform_gaussian_filter(dx, dy, x_out,
-- 
2.43.0


From b18b2134490ed493adf3fed74f863e5583465dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:01 +0000
Subject: [PATCH 43/47] fix: raytools metric labels every column when
 irradiance is among the metrics

---
 raytools/cli.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raytools/cli.py b/raytools/cli.py
index 73249a3..d0e321e 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -142,7 +142,13 @@ def metric(ctx, imgs, metrics=None, parallel=True, peakn=False,
             results = np.hstack((results, gresult))
         else:
             results = gresult
-    print("image\t" + "\t".join(metrics))
+    labels = []
+    for m in metrics:
+        if m == "irradiance":
+            labels += ["irradiance_r", "irradiance_g", "irradiance_b"]
+        else:
+            labels.append(m)
+    print("image\t" + "\t".join(labels))
     for img, result in zip(imgs, results):
         print(img + "\t" + "\t".join([f"{i:.06g}" for i in result]))
 
-- 
2.43.0


From 15e57ee599070ab9235233f827eaa7edb6dbcb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:42 +0000
Subject: [PATCH 44/47] fix: non_uniform_gaussian_filter no longer scales the
 sigma array of the caller

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 9213352..02c4185 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -557,7 +557,7 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         inv_sort = None
     if sigma is None:
         sigma = np.sqrt(np.cov(x) * len(x) ** (-.4))
-    sigma *= sscale
+    sigma = sigma * sscale
     if bw is None and xr is None:  # no bandwidth and self
         nugf = _nugf_i
         idxs = np.arange(x.size)
-- 
2.43.0


From cca27bf0e378553dfa3f0708eb7b2a89442d8d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:22 +0000
Subject: [PATCH 45/47] fix: the point spread reads the image alone where its
 kernel is many times the size of the image

---
 raytools/evaluate/hvsgsm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index bbad67c..2829199 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -543,8 +543,12 @@ class GSS:
         psfk[pk] = cap_eg - np.sum(psfk)
 
         # apply filter than balance energy outside window
-        e_r_psf = convolve(e_r, psfk)
-        e_r_psf += base
+        # convolve reads beyond its reflections with a kernel more than 8 times
+        # the size of the image (narrow views), so reflect these before
+        r = e_r.shape[0]
+        pad = r * (psfk.shape[0] // (8*r))
+        e_r_psf = convolve(np.pad(e_r, pad, 'symmetric'), psfk)
+        e_r_psf = e_r_psf[pad:pad + r, pad:pad + r] + base
         return e_r_psf
 
     # Step 7
-- 
2.43.0


From a5545fd994c07af612faccc6094751965682d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:50 +0000
Subject: [PATCH 46/47] fix: rgbe2lum wraps exponents below 128 of unsigned
 bytes

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index add77ed..b81a0ee 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -347,7 +347,7 @@ def rgbe2lum(rgbe):
     -------
     lum: luminance in cd/m^2
     """
-    v = np.power(2., rgbe[:, 3] - 128).reshape(-1, 1) / 256
+    v = np.power(2., rgbe[:, 3] - 128.).reshape(-1, 1) / 256
     rgb = np.where(rgbe[:, 0:3] == 0, 0, (rgbe[:, 0:3] + 0.5) * v)
     # luminance = 179 * (0.265*R + 0.670*G + 0.065*B)
     return rgb2lum(rgb)
-- 
2.43.0


From c176b94f5d8e1d3838955a556d2662299670a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:50 +0000
Subject: [PATCH 47/47] fix: xyz2uv gives directions on the horizon the patch
 of the opposite side when rounding exceeds one

---
 raytools/translate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 02c4185..5d78862 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -96,7 +96,8 @@ def xyz2uv(xyz, normalize=False, axes=(0, 1, 2), flipu=False):
     r2 = 1 - n*xyz[:, axes[2]]
     x = xyz[:, axes[0]] / np.sqrt(2 - r2)
     y = xyz[:, axes[1]] / np.sqrt(2 - r2)
-    r = np.sqrt(np.square(x) + np.square(y))
+    # rounding should not carry directions on the horizon over the edge
+    r = np.minimum(np.sqrt(np.square(x) + np.square(y)), 1)
     phi = np.arctan2(y, x)
     pi4 = np.pi/4
     phi = phi + np.where(phi < -pi4, 2*np.pi, 0)
-- 
2.43.0

