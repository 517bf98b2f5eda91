From 47b532e49674aa8955c9730ac442e0112ba68cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:38 +0000
Subject: [PATCH 001/104] fix: keep quaternions of 180-degree rotations
 (sign(0) zeroed them)

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 33d0ba2..37ffe38 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -113,7 +113,7 @@ def _quat_to_scipy_rotation(q: NDArray[np.float64]) -> R:
 def _scipy_rotation_to_quat(r: R) -> NDArray[np.float64]:
     quat = np.roll(np.atleast_2d(r.as_quat()), 1, axis=1).T
     # Fix quat would work, but it does too much.  Only need to check positive
-    quat *= np.sign(quat[0, :])
+    quat[:, quat[0, :] < 0] *= -1
     return quat
 
 
-- 
2.43.0


From f29b32eb8462cb40894f758090c3f86ef16a7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:49 +0000
Subject: [PATCH 002/104] fix: misorientation returns one quaternion per input
 when equivalents tie

---
 hexrd/core/rotations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 37ffe38..107dbc8 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -238,10 +238,8 @@ def misorientation(q1, q2, symmetries=None):
     qmax = sclEqvMis.max(0)
 
     # remap indices to use in eqvMis
-    qmaxInd = (sclEqvMis == qmax).nonzero()
-    qmaxInd = np.c_[qmaxInd[0], qmaxInd[1]]
-
-    eqvMisColInd = np.sort(qmaxInd[:, 0] + qmaxInd[:, 1] * p * m)
+    # (one column per quaternion in q2, also when equivalents tie)
+    eqvMisColInd = sclEqvMis.argmax(0) + np.arange(n) * p * m
 
     # store Rmin in q
     mis = eqvMis[np.ix_(list(range(4)), eqvMisColInd)]
-- 
2.43.0


From 96a82a8ecc30dfb4e7b18c82dad613f92914b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:06 +0000
Subject: [PATCH 003/104] fix: Pa-3 reflections 0kl (k=2n), h0l (l=2n) are not
 absent

---
 hexrd/core/material/spacegroup.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/material/spacegroup.py b/hexrd/core/material/spacegroup.py
index f454f16..d09df89 100644
--- a/hexrd/core/material/spacegroup.py
+++ b/hexrd/core/material/spacegroup.py
@@ -801,12 +801,9 @@ def omitglideplaneabsences(sgnum, hkllist, plane, ip):
             mask5 = np.mod(hkllist[:, 1] + 100, 2) != 0
             mask6 = np.mod(hkllist[:, 2] + 100, 2) != 0
             if plane == 'a':
-                mask1 = np.logical_or(
-                    np.logical_and(mask1, mask5), np.logical_and(mask1, mask6)
-                )
-                mask2 = np.logical_or(
-                    np.logical_and(mask2, mask4), np.logical_and(mask2, mask6)
-                )
+                # 0kl: k = 2n; h0l: l = 2n; hk0: h = 2n (cyclic, as in Pa-3)
+                mask1 = np.logical_and(mask1, mask5)
+                mask2 = np.logical_and(mask2, mask6)
                 mask3 = np.logical_and(mask3, mask4)
                 mask = np.logical_not(np.logical_or(mask1, np.logical_or(mask2, mask3)))
             elif plane == 'b':
-- 
2.43.0


From 8d56ea46d62df718bf207373ed5faaf80e78c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:05 +0000
Subject: [PATCH 004/104] fix: generate the whole point group when generators
 do not commute

---
 hexrd/core/material/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/symmetry.py b/hexrd/core/material/symmetry.py
index c4b46e6..6595fec 100644
--- a/hexrd/core/material/symmetry.py
+++ b/hexrd/core/material/symmetry.py
@@ -349,7 +349,8 @@ def GeneratePGSYM(pgsym):
     k1 = 0
     while k1 < nsym:
         g1 = np.squeeze(SYM_GEN_PG[k1, :, :])
-        k2 = k1
+        # all ordered pairs: the generators need not commute
+        k2 = 0
         while k2 < nsym:
             g2 = np.squeeze(SYM_GEN_PG[k2, :, :])
             gnew = np.dot(g1, g2)
-- 
2.43.0


From 656d39f41a7cda8266c6c96f31d85adbf6bea3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:46 +0000
Subject: [PATCH 005/104] fix: tensor helpers no longer reshape the caller's
 array in place

---
 hexrd/core/matrixutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/matrixutil.py b/hexrd/core/matrixutil.py
index b64cd89..472c487 100644
--- a/hexrd/core/matrixutil.py
+++ b/hexrd/core/matrixutil.py
@@ -294,7 +294,7 @@ def skew(A):
             raise RuntimeError(
                 "this function only works for square arrays; yours is (%d, %d)" % (m, n)
             )
-        A.resize(1, m, n)
+        A = A.reshape(1, m, n)
     elif A.ndim == 3:
         m = A.shape[1]
         n = A.shape[2]
@@ -320,7 +320,7 @@ def symm(A):
             raise RuntimeError(
                 "this function only works for square arrays; yours is (%d, %d)" % (m, n)
             )
-        A.resize(1, m, n)
+        A = A.reshape(1, m, n)
     elif A.ndim == 3:
         m = A.shape[1]
         n = A.shape[2]
@@ -379,7 +379,7 @@ def vectorOfSkewMatrix(W):
         if W.shape[0] != 3 or W.shape[0] != 3:
             raise RuntimeError('input is not (3, 3)')
         stackdim = 1
-        W.resize(1, 3, 3)
+        W = W.reshape(1, 3, 3)
     elif W.ndim == 3:
         if W.shape[1] != 3 or W.shape[2] != 3:
             raise RuntimeError('input is not (3, 3)')
-- 
2.43.0


From 5be0b2c1ca4118dd8e715af5faf9011355d79c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 006/104] fix: Miller to Miller-Bravais directions keep their
 sense and a correct redundant index

---
 hexrd/core/material/crystallography.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 435d342..0172094 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -673,13 +673,13 @@ def convert_Miller_direction_to_MillerBravias(uvw, suppress_redundant=True):
     retval = np.vstack([(2 * u - v) / 3, (2 * v - u) / 3, w]).T
     rem = np.vstack([np.mod(np.tile(i[0], 2), i[1:]) for i in retval])
     rem[abs(rem) < epsf] = np.nan
-    lcm = np.nanmin(rem, axis=1)
+    lcm = np.nanmin(abs(rem), axis=1)
     lcm[np.isnan(lcm)] = 1
     retval = retval / np.tile(lcm, (3, 1)).T
     if suppress_redundant:
         return retval
     else:
-        t = np.atleast_2d(1 - np.sum(retval[:2], axis=1)).T
+        t = np.atleast_2d(-np.sum(retval[:, :2], axis=1)).T
         return np.hstack([retval[:, :2], t, np.atleast_2d(retval[:, 2]).T])
 
 
@@ -702,7 +702,7 @@ def convert_MillerBravias_direction_to_Miller(UVW):
     * NOT for plane normals!!!
     """
     U, V, W = np.atleast_2d(UVW).T
-    return np.vstack([2 * U + V, 2 * V + U, W])
+    return np.vstack([2 * U + V, 2 * V + U, W]).T
 
 
 class PlaneData(object):
-- 
2.43.0


From 10c84bb98390f340b60bce5bd2afaa358a1a8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:28 +0000
Subject: [PATCH 007/104] fix: makeGVector normalises each vector; gvec_to_xy
 honours bmat and vmat_inv

---
 hexrd/core/transforms/xfcapi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/xfcapi.py b/hexrd/core/transforms/xfcapi.py
index 0cc167c..3970d90 100644
--- a/hexrd/core/transforms/xfcapi.py
+++ b/hexrd/core/transforms/xfcapi.py
@@ -169,7 +169,7 @@ def makeGVector(
     """
     if hkl.shape[0] != 3:
         raise ValueError('hkl input must be (3, n)')
-    return unit_vector(np.dot(bMat, hkl))
+    return unit_vector(np.dot(bMat, hkl).T).T
 
 
 def gvec_to_xy(
@@ -256,6 +256,12 @@ def gvec_to_xy(
     tvec_c = np.ascontiguousarray(tvec_c.flatten())
     beam_vec = np.ascontiguousarray(beam_vec.flatten())
 
+    if bmat is not None:
+        gvec_c = unit_vector(np.dot(gvec_c, np.transpose(bmat)))
+    if vmat_inv is not None:
+        vmat_inv_c = np.dot(rmat_c.T, np.dot(vmat_inv, rmat_c))
+        gvec_c = unit_vector(np.dot(gvec_c, vmat_inv_c.T))
+
     # depending on the number of dimensions of rmat_s use either the array
     # version or the "scalar" (over rmat_s) version. Note that rmat_s is either
     # a 3x3 matrix (ndim 2) or an nx3x4 array of matrices (ndim 3)
-- 
2.43.0


From b799202845106f778716b203e2eaba5906eb95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 008/104] fix: cylindrical detector inverse projection works
 again (missing imports, lab-frame rays, sample sense, optional distortion)

---
 hexrd/core/instrument/cylindrical_detector.py | 6 +++---
 hexrd/hed/xrdutil/utils.py                    | 8 +++++---
 hexrd/hedm/xrdutil/utils.py                   | 8 +++++++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/hexrd/core/instrument/cylindrical_detector.py b/hexrd/core/instrument/cylindrical_detector.py
index fa9c2f3..d2fe454 100644
--- a/hexrd/core/instrument/cylindrical_detector.py
+++ b/hexrd/core/instrument/cylindrical_detector.py
@@ -89,8 +89,8 @@ class CylindricalDetector(Detector):
         # !!! WARNING: API ambiguity
         # !!! this assumes rmat_s was made from the composition
         # !!! rmat_s = R(Xl, chi) * R(Yl, ome)
-        chi = np.arccos(rmat_s[1, 1])
-        ome = np.arccos(rmat_s[0, 0])
+        chi = np.arctan2(rmat_s[2, 1], rmat_s[1, 1])
+        ome = np.arctan2(rmat_s[0, 2], rmat_s[0, 0])
 
         angs = np.hstack([tth_eta, np.tile(ome, (len(tth_eta), 1))])
         kwargs = {
@@ -109,7 +109,7 @@ class CylindricalDetector(Detector):
             self.radius,
             self.physical_size,
             self.angle_extent,
-            self.distortion,
+            self.distortion if apply_distortion else None,
         )
 
         proj_func = xrdutil.utils._project_on_detector_cylinder
diff --git a/hexrd/hed/xrdutil/utils.py b/hexrd/hed/xrdutil/utils.py
index a81f434..243d7e8 100644
--- a/hexrd/hed/xrdutil/utils.py
+++ b/hexrd/hed/xrdutil/utils.py
@@ -125,8 +125,10 @@ def _project_on_detector_cylinder(
     detector plane parameterized by the args. this function does the
     computation for a cylindrical detector
     """
+    # the cylinder is given in the lab frame, so drop omega and chi to get the
+    # diffraction vectors there as well
     dVec_cs = xfcapi.angles_to_dvec(
-        allAngs, chi=chi, rmat_c=np.eye(3), beam_vec=beamVec, eta_vec=etaVec
+        allAngs[:, :2], beam_vec=beamVec, eta_vec=etaVec
     )
 
     rMat_ss = np.tile(rmat_s, [allAngs.shape[0], 1, 1])
@@ -266,7 +268,7 @@ def _clip_to_cylindrical_detector(
     tvec = np.atleast_2d(tVec_d).T
 
     # ycomp = uvwp - np.tile(tVec_d,[num, 1])
-    mask1 = np.squeeze(np.abs(dp) > size[0] * 0.5)
+    mask1 = (np.abs(dp) > size[0] * 0.5)[:, 0]
     uvwp[mask1, :] = np.nan
 
     # next get rid of points that fall outside
@@ -276,7 +278,7 @@ def _clip_to_cylindrical_detector(
     ang[np.abs(ang) > 1.0] = np.sign(ang[np.abs(ang) > 1.0])
 
     ang = np.arccos(ang)
-    mask2 = np.squeeze(ang >= angle_extent)
+    mask2 = (ang >= angle_extent)[:, 0]
     mask = np.logical_or(mask1, mask2)
     res = uvw.copy()
     res[mask, :] = np.nan
diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 77c9c45..80f95d5 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -40,7 +40,13 @@ from hexrd.core import matrixutil as mutil
 from hexrd.core import rotations as rot
 from hexrd.core import gridutil as gutil
 
-from hexrd.hed.xrdutil.utils import _project_on_detector_plane
+from hexrd.hed.xrdutil.utils import (
+    _clip_to_cylindrical_detector,
+    _dewarp_from_cylinder,
+    _project_on_detector_cylinder,
+    _project_on_detector_plane,
+    _unitvec_to_cylinder,
+)
 from hexrd.core.material.crystallography import processWavelength, PlaneData
 
 from hexrd.core.transforms import xfcapi
-- 
2.43.0


From 55cbc62f6951436410dd150402b066e4327f51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 009/104] fix: angularPixelSize uses the column pitch along x
 and the row pitch along y

---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 80f95d5..aff70d8 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -791,7 +791,7 @@ def angularPixelSize(
 
     xy_expanded = np.empty((len(xy_det) * 4, 2), dtype=xy_det.dtype)
     xy_expanded = _expand_pixels(
-        xy_det, xy_pixelPitch[0], xy_pixelPitch[1], xy_expanded
+        xy_det, xy_pixelPitch[1], xy_pixelPitch[0], xy_expanded
     )
 
     rmat_b = xfcapi.make_beam_rmat(beamVec, etaVec)
-- 
2.43.0


From f558cd88af9c2679ce03a237c9ae16238741118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 010/104] fix: planar angles_to_cart keeps the sign of chi and
 omega and does not apply the crystal orientation

---
 hexrd/core/instrument/planar_detector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/instrument/planar_detector.py b/hexrd/core/instrument/planar_detector.py
index 97f0802..062a23a 100644
--- a/hexrd/core/instrument/planar_detector.py
+++ b/hexrd/core/instrument/planar_detector.py
@@ -74,11 +74,13 @@ class PlanarDetector(Detector):
         # !!! WARNING: API ambiguity
         # !!! this assumes rmat_s was made from the composition
         # !!! rmat_s = R(Xl, chi) * R(Yl, ome)
-        chi = np.arccos(rmat_s[1, 1])
-        ome = np.arccos(rmat_s[0, 0])
+        chi = np.arctan2(rmat_s[2, 1], rmat_s[1, 1])
+        ome = np.arctan2(rmat_s[0, 2], rmat_s[0, 0])
 
         angs = np.hstack([tth_eta, np.tile(ome, (len(tth_eta), 1))])
-        gvec = angles_to_gvec(angs, beam_vec=self.bvec, eta_vec=self.evec, chi=chi)
+        gvec = angles_to_gvec(
+            angs, beam_vec=self.bvec, eta_vec=self.evec, chi=chi, rmat_c=rmat_c
+        )
         xy_det = gvec_to_xy(
             gvec,
             self.rmat,
-- 
2.43.0


From b21065d746eeb8f6e0969f52fd95eaa4f50dd603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 011/104] fix: GE_41RT inverse distortion for outward
 distortion and at the origin (was nan)

---
 .../cpp_sublibrary/src/inverse_distortion.cpp | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp b/hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp
index e3ef027..76a7367 100644
--- a/hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp
+++ b/hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp
@@ -6,8 +6,7 @@
 #include <xsimd/xsimd.hpp>
 
 namespace py = pybind11;
-const double FOUR_THIRDS_PI = M_PI * 4.0 / 3.0;
-const double N_THREE_HALVES_SQRT_3 = -3.0 / 2.0 * std::sqrt(3.0);
+const double THREE_HALVES_SQRT_3 = 3.0 / 2.0 * std::sqrt(3.0);
 const double TWO_OVER_SQRT_THREE = 2.0 / std::sqrt(3.0);
 
 Eigen::ArrayXXd ge_41rt_inverse_distortion(const Eigen::ArrayXXd &inputs,
@@ -19,17 +18,24 @@ Eigen::ArrayXXd ge_41rt_inverse_distortion(const Eigen::ArrayXXd &inputs,
   Eigen::ArrayXd cosine_double_angles = 2 * cosines.square() - 1;
   Eigen::ArrayXd cosine_quadruple_angles =
       2 * cosine_double_angles.square() - 1;
-  Eigen::ArrayXd sqrt_p_is =
-      rhoMax / (-params[0] * cosine_double_angles -
-                params[1] * cosine_quadruple_angles - params[2])
-                   .sqrt();
+  // Solve r + s * (r / rhoMax)^2 * r == rho, where s is signed
+  Eigen::ArrayXd s = params[0] * cosine_double_angles +
+                     params[1] * cosine_quadruple_angles + params[2];
+  Eigen::ArrayXd scale = s.abs().sqrt() / rhoMax;
+  Eigen::ArrayXd args = THREE_HALVES_SQRT_3 * radii * scale;
   Eigen::ArrayXd solutions =
-      TWO_OVER_SQRT_THREE * sqrt_p_is *
-      (acos(N_THREE_HALVES_SQRT_3 * radii / sqrt_p_is) / 3 + FOUR_THIRDS_PI)
-          .cos();
+      TWO_OVER_SQRT_THREE / scale *
+      (s < 0).select((args.asin() / 3).sin(), (args.asinh() / 3).sinh());
+  // No distortion left: the radius is unchanged
+  solutions = (args < 1e-10).select(radii, solutions);
   Eigen::ArrayXXd results =
       solutions.rowwise().replicate(inputs.cols()).array() * inputs *
       inverted_radii.rowwise().replicate(inputs.cols()).array();
+  // The center stays where it is
+  results = (radii == 0)
+                .rowwise()
+                .replicate(inputs.cols())
+                .select(inputs, results);
 
   return results;
 }
-- 
2.43.0


From 23fdccc5a4d4c7dcb5c88efada66785cc12def17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 012/104] fix: bilinear interpolation of integer images is not
 truncated to integers

---
 hexrd/core/instrument/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 78df625..8302418 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -2074,7 +2074,8 @@ def _interpolate_bilinear(
 ) -> NDArray[np.float64]:
     # The math is faster and uses the GIL less (which is more
     # multi-threading friendly) when we run this code in numba.
-    result = np.zeros(i_floor_img.shape[0], dtype=img.dtype)
+    # !!! integer images have non-integer interpolants
+    result = np.zeros(i_floor_img.shape[0], dtype=cc.dtype)
     on_panel_idx = np.arange(i_floor_img.shape[0])
     _interpolate_bilinear_in_place(
         img,
-- 
2.43.0


From bffdc7f9ed80672ba0ef6ea64fe8bbc7f3c5dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 013/104] fix: polar view honours the eta vector and, for
 cylinders, the sample origin

---
 hexrd/core/projections/polar.py | 3 ++-
 hexrd/hed/xrdutil/utils.py      | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/projections/polar.py b/hexrd/core/projections/polar.py
index 26de5a1..e37eb9c 100644
--- a/hexrd/core/projections/polar.py
+++ b/hexrd/core/projections/polar.py
@@ -227,7 +227,7 @@ class PolarView:
             return _project_on_detector_plane
 
     def _args_project_on_detector(self, gvec_angs, detector):
-        kwargs = {'beamVec': detector.bvec}
+        kwargs = {'beamVec': detector.bvec, 'etaVec': detector.evec}
         arg = (
             gvec_angs,
             detector.rmat,
@@ -250,6 +250,7 @@ class PolarView:
                 detector.angle_extent,
                 detector.distortion,
             )
+            kwargs['tVec_s'] = self.tvec
 
         return arg, kwargs
 
diff --git a/hexrd/hed/xrdutil/utils.py b/hexrd/hed/xrdutil/utils.py
index 243d7e8..a7e950d 100644
--- a/hexrd/hed/xrdutil/utils.py
+++ b/hexrd/hed/xrdutil/utils.py
@@ -73,12 +73,15 @@ def _project_on_detector_plane(
     tVec_s: np.ndarray,
     distortion: Optional[DistortionABC] = None,
     beamVec: np.ndarray = constants.beam_vec,
+    etaVec: np.ndarray = constants.eta_vec,
 ) -> tuple[np.ndarray, np.ndarray, np.ndarray]:
     """
     utility routine for projecting a list of (tth, eta, ome) onto the
     detector plane parameterized by the args
     """
-    gVec_cs = xfcapi.angles_to_gvec(allAngs, chi=chi, rmat_c=rMat_c, beam_vec=beamVec)
+    gVec_cs = xfcapi.angles_to_gvec(
+        allAngs, chi=chi, rmat_c=rMat_c, beam_vec=beamVec, eta_vec=etaVec
+    )
 
     rMat_ss = xfcapi.make_sample_rmat(chi, allAngs[:, 2])
 
-- 
2.43.0


From ebed708fd92a13cd2a5be44ad4bb6db1904c5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 014/104] fix: planar filter transmission uses the detector's
 eta vector

---
 hexrd/core/instrument/planar_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/planar_detector.py b/hexrd/core/instrument/planar_detector.py
index 062a23a..3065682 100644
--- a/hexrd/core/instrument/planar_detector.py
+++ b/hexrd/core/instrument/planar_detector.py
@@ -178,7 +178,7 @@ class PlanarDetector(Detector):
             (tth.flatten(), eta.flatten(), np.zeros(tth.flatten().shape))
         ).T
 
-        dvecs = angles_to_dvec(angs, beam_vec=bvec)
+        dvecs = angles_to_dvec(angs, beam_vec=bvec, eta_vec=self.evec)
 
         secb = 1.0 / np.dot(dvecs, det_normal).reshape(self.shape)
 
-- 
2.43.0


From 62d6a2c44ef473cc6cd39451d0cc93f14cf72cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 015/104] fix: spot panel mask projects with the instrument's
 beam vector

---
 hexrd/core/instrument/hedm_instrument.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 7ee65be..e92574f 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2084,6 +2084,7 @@ class HEDMInstrument(object):
             tVec_c,
             self.tvec,
             panel.distortion,
+            panel.bvec,
         )
 
         _, on_panel = panel.clip_to_panel(det_xy, buffer_edges=True)
-- 
2.43.0


From 9b71a7d1a667286d50ef77c2a140983b95889bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 016/104] fix: reflection patch pixel edges for non-square
 pixels

---
 hexrd/hedm/xrdutil/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index aff70d8..0258df6 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -866,8 +866,8 @@ def make_reflection_patches(
         -0.5 * np.r_[frame_ncols * pixel_size[1], frame_nrows * pixel_size[0]],
         0.5 * np.r_[frame_ncols * pixel_size[1], frame_nrows * pixel_size[0]],
     )
-    row_edges = np.arange(frame_nrows + 1)[::-1] * pixel_size[1] + panel_dims[0][1]
-    col_edges = np.arange(frame_ncols + 1) * pixel_size[0] + panel_dims[0][0]
+    row_edges = np.arange(frame_nrows + 1)[::-1] * pixel_size[0] + panel_dims[0][1]
+    col_edges = np.arange(frame_ncols + 1) * pixel_size[1] + panel_dims[0][0]
 
     # handle distortion
     distortion = None
-- 
2.43.0


From c7054f921e54c59fcf86b81fbea8f6e8548e04a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 017/104] fix: compute_areas uses consecutive triangles of the
 quadrilateral

---
 hexrd/core/gridutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/core/gridutil.py b/hexrd/core/gridutil.py
index 39da717..71bfa21 100644
--- a/hexrd/core/gridutil.py
+++ b/hexrd/core/gridutil.py
@@ -161,6 +161,7 @@ def compute_areas(xy_eval_vtx, conn):
             v1x = vtx_x - vtx0x
             v1y = vtx_y - vtx0y
             acc += v0x * v1y - v1x * v0y
+            v0x, v0y = v1x, v1y
 
         areas[i] = 0.5 * acc
     return areas
-- 
2.43.0


From a0404ecc0c629aab907f45f6d8ee7dff18d9bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 018/104] fix: interpolate_nearest takes the nearest pixel (was
 the floor between pixel centres, wrapping at the edge)

---
 hexrd/core/instrument/detector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 8302418..fa56976 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1117,8 +1117,9 @@ class Detector:
         xy_clip, on_panel = self.clip_to_panel(xy, buffer_edges=True)
 
         # get pixel indices of clipped points
-        i_src = cellIndices(self.row_pixel_vec, xy_clip[:, 1])
-        j_src = cellIndices(self.col_pixel_vec, xy_clip[:, 0])
+        ij_pix = self.cartToPixel(xy_clip, pixels=True)
+        i_src = _fix_indices(ij_pix[:, 0], 0, self.rows - 1)
+        j_src = _fix_indices(ij_pix[:, 1], 0, self.cols - 1)
 
         # next interpolate across cols
         int_vals = img[i_src, j_src]
-- 
2.43.0


From ac6c2516354df43202ac75bbbd4934d5f5bfde73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:51 +0000
Subject: [PATCH 019/104] fix: two-theta of the direct beam is zero, not nan
 (round-off outside acos domain)

---
 hexrd/core/transforms/new_capi/xy_to_gvec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/new_capi/xy_to_gvec.c b/hexrd/core/transforms/new_capi/xy_to_gvec.c
index 611a839..4be1ca8 100644
--- a/hexrd/core/transforms/new_capi/xy_to_gvec.c
+++ b/hexrd/core/transforms/new_capi/xy_to_gvec.c
@@ -54,7 +54,8 @@ xy_to_gvec(size_t npts, double *xy, double *rMat_d, double *rMat_s,
         for (j=0; j<3; j++) {
             nrm += bVec[j]*dHat_l[j];
         }
-        tTh[i] = acos(nrm);
+        /* round-off can leave the unit interval in the (anti)parallel case */
+        tTh[i] = acos(nrm > 1.0 ? 1.0 : nrm < -1.0 ? -1.0 : nrm);
 
         /* Compute eta */
         for (j=0; j<2; j++) {
-- 
2.43.0


From 79b44b3b704acfb29d070bccad45eba45e5a6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:37 +0000
Subject: [PATCH 020/104] fix: panel buffers given as a pair (list or tuple)
 work in clip_to_panel

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index fa56976..a3bfa65 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1072,7 +1072,7 @@ class Detector:
                 # Convert it to a known panel buffer
                 panel_buffer = panel_buffer_from_str(panel_buffer, self)
 
-            if panel_buffer.ndim == 2:
+            if np.ndim(panel_buffer) == 2:
                 pix = self.cartToPixel(xy, pixels=True)
 
                 roff = np.logical_or(pix[:, 0] < 0, pix[:, 0] >= self.rows)
-- 
2.43.0


From cec41c96024f11f2690fa8dd7454b8546f7e90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:48 +0000
Subject: [PATCH 021/104] fix: sample and window transmission use the
 detector's eta vector

---
 hexrd/core/instrument/detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index a3bfa65..e0f0324 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1754,7 +1754,7 @@ class Detector:
             (tth.flatten(), eta.flatten(), np.zeros(tth.flatten().shape))
         ).T
 
-        dvecs = angles_to_dvec(angs, beam_vec=bvec)
+        dvecs = angles_to_dvec(angs, beam_vec=bvec, eta_vec=self.evec)
 
         cosb = np.dot(dvecs, sample_normal)
         '''angles for which secb <= 0 or close are diffracted beams
@@ -1798,7 +1798,7 @@ class Detector:
             (tth.flatten(), eta.flatten(), np.zeros(tth.flatten().shape))
         ).T
 
-        dvecs = angles_to_dvec(angs, beam_vec=bvec)
+        dvecs = angles_to_dvec(angs, beam_vec=bvec, eta_vec=self.evec)
 
         cosb = np.dot(dvecs, sample_normal)
         '''angles for which secb <= 0 or close are diffracted beams
@@ -1844,7 +1844,7 @@ class Detector:
             (tth.flatten(), eta.flatten(), np.zeros(tth.flatten().shape))
         ).T
 
-        dvecs = angles_to_dvec(angs, beam_vec=bvec)
+        dvecs = angles_to_dvec(angs, beam_vec=bvec, eta_vec=self.evec)
 
         cosb = np.dot(dvecs, sample_normal)
         '''angles for which secb <= 0 or close are diffracted beams
-- 
2.43.0


From 216d8b38f971585fdad402015353df74f2444118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:55 +0000
Subject: [PATCH 022/104] fix: Compton transmission of the window uses the
 window's absorption length

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index e0f0324..2e502c5 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1927,7 +1927,7 @@ class Detector:
 
             density = physics_package.window_density
             thickness = physics_package.window_thickness
-            mu = 1.0 / physics_package.sample_absorption_length(energy)
+            mu = 1.0 / physics_package.window_absorption_length(energy)
             mu_prime = 1.0 / self.pixel_compton_attenuation_length(
                 energy, density, formula
             )
-- 
2.43.0


From bb8fb7e151199ab00aa416229a02a202fc044ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 023/104] fix: per-pixel Compton energy and attenuation honour
 the origin

---
 hexrd/core/instrument/detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 2e502c5..2ae9c5d 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -636,7 +636,7 @@ class Detector:
             scatterd photons in keV
         '''
         energy = np.asarray(energy)
-        tth, _ = self.pixel_angles()
+        tth, _ = self.pixel_angles(origin=origin)
         ang_fact = 1 - np.cos(tth)
         beta = energy / ct.cRestmasskeV
         return energy / (1 + beta * ang_fact)
@@ -672,7 +672,7 @@ class Detector:
             pixel wise attentuation length of compton
             scattered photons
         '''
-        pixel_energy = self.pixel_compton_energy_loss(energy)
+        pixel_energy = self.pixel_compton_energy_loss(energy, origin=origin)
 
         pixel_attenuation_length = calculate_linear_absorption_length(
             density,
@@ -709,7 +709,7 @@ class Detector:
             intensity
         '''
 
-        q = self.pixel_Q(energy)
+        q = self.pixel_Q(energy, origin=origin)
         inc_s = calculate_incoherent_scattering(
             physics_package.sample_material, q.flatten()
         ).reshape(self.shape)
-- 
2.43.0


From 6a921dbdbaff688440eea02146b424a0fcd6561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 024/104] fix: phosphor response is given its readout length
 and absorption coefficient (arguments were swapped)

---
 hexrd/core/instrument/cylindrical_detector.py | 2 +-
 hexrd/core/instrument/detector.py             | 1 +
 hexrd/core/instrument/planar_detector.py      | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/cylindrical_detector.py b/hexrd/core/instrument/cylindrical_detector.py
index d2fe454..8ee7598 100644
--- a/hexrd/core/instrument/cylindrical_detector.py
+++ b/hexrd/core/instrument/cylindrical_detector.py
@@ -206,7 +206,7 @@ class CylindricalDetector(Detector):
         transmission_filter = self.calc_transmission_generic(secb, t_f, al_f)
         transmission_coating = self.calc_transmission_generic(secb, t_c, al_c)
         transmission_phosphor = self.calc_transmission_phosphor(
-            secb, t_p, al_p, L, energy, pre_U0
+            secb, t_p, L, 1.0 / al_p, energy, pre_U0
         )
 
         transmission_filter = transmission_filter.reshape(self.shape)
diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 2ae9c5d..7cc41db 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -2033,6 +2033,7 @@ class Detector:
         if np.isclose(thickness, 0):
             return np.ones(self.shape)
 
+        # !!! here absorption_length is the absorption coefficient, in microns^-1
         f1 = absorption_length * thickness
         f2 = absorption_length * readout_length
         arg = secb + 1 / f2
diff --git a/hexrd/core/instrument/planar_detector.py b/hexrd/core/instrument/planar_detector.py
index 3065682..ca66ae8 100644
--- a/hexrd/core/instrument/planar_detector.py
+++ b/hexrd/core/instrument/planar_detector.py
@@ -185,7 +185,7 @@ class PlanarDetector(Detector):
         transmission_filter = self.calc_transmission_generic(secb, t_f, al_f)
         transmission_coating = self.calc_transmission_generic(secb, t_c, al_c)
         transmission_phosphor = self.calc_transmission_phosphor(
-            secb, t_p, al_p, L, energy, pre_U0
+            secb, t_p, L, 1.0 / al_p, energy, pre_U0
         )
         transmission_filter_coating = transmission_filter * transmission_coating
 
-- 
2.43.0


From 1a9b6a22f0989d60afa5e8c5c352aa5e139b1f09 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 025/104] fix: a panel buffer given as a plain pair converts to
 a pixel mask

---
 hexrd/core/utils/panel_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/utils/panel_buffer.py b/hexrd/core/utils/panel_buffer.py
index b5f9058..f46fbb9 100644
--- a/hexrd/core/utils/panel_buffer.py
+++ b/hexrd/core/utils/panel_buffer.py
@@ -20,7 +20,7 @@ def panel_buffer_as_2d_array(panel: Detector) -> np.ndarray:
     elif isinstance(panel.panel_buffer, str):
         # Load the known panel buffer and return
         return panel_buffer_from_str(panel.panel_buffer, panel)
-    elif panel.panel_buffer.shape == (2,):
+    elif np.shape(panel.panel_buffer) == (2,):
         # The two floats are specifying the borders in mm for x and y.
         # Convert to pixel borders. Swap x and y so we have i, j in pixels.
         borders = np.round(
-- 
2.43.0


From 0a845c388209de92782bce94ac5171f6a367f70e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 026/104] fix: zproject_sph_angles no longer inverts the z
 components of the caller's vectors

---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 0258df6..8c3e38d 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -200,7 +200,7 @@ def zproject_sph_angles(
     elif source.lower() == 'q':
         spts_s = xfcapi.angles_to_gvec(invecs, chi=chi)
     elif source.lower() == 'g':
-        spts_s = invecs
+        spts_s = invecs.copy()
 
     if rmat is not None:
         spts_s = np.dot(spts_s, rmat.T)
-- 
2.43.0


From 9ad9a79c54e5d75f951458fbeee5a13245fdcdb0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 027/104] fix: dark subtraction clips unsigned images at zero
 instead of wrapping around

---
 hexrd/core/imageseries/process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/process.py b/hexrd/core/imageseries/process.py
index efdef17..d8ee8ce 100644
--- a/hexrd/core/imageseries/process.py
+++ b/hexrd/core/imageseries/process.py
@@ -126,8 +126,10 @@ class ProcessedImageSeries(ImageSeries):
         #    return ret
         # Method 1 was the slowest, and method 4 was the fastest, perhaps
         # because it creates fewer copies of the data.
+        # note: compare the images, since the difference of unsigned images
+        # wraps around instead of being negative
         ret = img - dark
-        ret[ret < 0] = 0
+        ret[img < dark] = 0
         return ret
 
     def _rectangle_optimized(self, img_key, r):
-- 
2.43.0


From 8affd83cd9782fe0c0e3440b15d0f5c332ecee90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 028/104] fix: regions of processed imageseries (e.g. rectangle
 of a processed series)

---
 hexrd/core/imageseries/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexrd/core/imageseries/process.py b/hexrd/core/imageseries/process.py
index d8ee8ce..bd7ce11 100644
--- a/hexrd/core/imageseries/process.py
+++ b/hexrd/core/imageseries/process.py
@@ -135,6 +135,10 @@ class ProcessedImageSeries(ImageSeries):
     def _rectangle_optimized(self, img_key, r):
         return self._imser.get_region(img_key, r)
 
+    def get_region(self, frame_idx, region):
+        r = region
+        return self[frame_idx][r[0][0] : r[0][1], r[1][0] : r[1][1]]
+
     def _rectangle(self, img, r):
         # restrict to rectangle
         return img[r[0][0] : r[0][1], r[1][0] : r[1][1]]
-- 
2.43.0


From 8eb32801005f50a29ccdd8b958a24e9b77746606 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 029/104] fix: numpy integers are accepted as frame indices by
 all imageseries

---
 hexrd/core/imageseries/load/eiger_stream_v1.py | 2 +-
 hexrd/core/imageseries/load/eiger_stream_v2.py | 2 +-
 hexrd/core/imageseries/load/framecache.py      | 2 +-
 hexrd/core/imageseries/load/function.py        | 2 +-
 hexrd/core/imageseries/load/hdf5.py            | 2 +-
 hexrd/core/imageseries/load/imagefiles.py      | 2 +-
 hexrd/core/imageseries/load/rawimage.py        | 2 +-
 hexrd/core/imageseries/process.py              | 4 ++--
 8 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/hexrd/core/imageseries/load/eiger_stream_v1.py b/hexrd/core/imageseries/load/eiger_stream_v1.py
index 25ebe67..94180b4 100644
--- a/hexrd/core/imageseries/load/eiger_stream_v1.py
+++ b/hexrd/core/imageseries/load/eiger_stream_v1.py
@@ -43,7 +43,7 @@ class EigerStreamV1ImageSeriesAdapter(ImageSeriesAdapter):
             warnings.warn(msg)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             idx = key
             rest = None
         else:
diff --git a/hexrd/core/imageseries/load/eiger_stream_v2.py b/hexrd/core/imageseries/load/eiger_stream_v2.py
index 74a99a7..244c087 100644
--- a/hexrd/core/imageseries/load/eiger_stream_v2.py
+++ b/hexrd/core/imageseries/load/eiger_stream_v2.py
@@ -119,7 +119,7 @@ class EigerStreamV2ImageSeriesAdapter(ImageSeriesAdapter):
             warnings.warn(msg)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             idx = key
             rest = None
         else:
diff --git a/hexrd/core/imageseries/load/framecache.py b/hexrd/core/imageseries/load/framecache.py
index 51cab3c..12a0885 100644
--- a/hexrd/core/imageseries/load/framecache.py
+++ b/hexrd/core/imageseries/load/framecache.py
@@ -243,7 +243,7 @@ class FrameCacheImageSeriesAdapter(ImageSeriesAdapter):
 
     def __getitem__(self, key):
         self._load_framelist_if_needed()
-        if not isinstance(key, int):
+        if not isinstance(key, (int, np.integer)):
             # Extract only what we need from the sparse array
             # using fancy indexing before we convert it to a
             # numpy array.
diff --git a/hexrd/core/imageseries/load/function.py b/hexrd/core/imageseries/load/function.py
index 8ad93b7..c68e836 100644
--- a/hexrd/core/imageseries/load/function.py
+++ b/hexrd/core/imageseries/load/function.py
@@ -64,7 +64,7 @@ class FunctionImageSeriesAdapter(ImageSeriesAdapter):
         self._dtype = value
 
     def __getitem__(self, key):
-        if not isinstance(key, int):
+        if not isinstance(key, (int, np.integer)):
             msg = f'Only int keys are supported, but "{key}" was provided'
             raise Exception(msg)
 
diff --git a/hexrd/core/imageseries/load/hdf5.py b/hexrd/core/imageseries/load/hdf5.py
index 1b84730..84442e3 100644
--- a/hexrd/core/imageseries/load/hdf5.py
+++ b/hexrd/core/imageseries/load/hdf5.py
@@ -64,7 +64,7 @@ class HDF5ImageSeriesAdapter(ImageSeriesAdapter):
             warnings.warn("HDF5ImageSeries could not close h5 file")
 
     def __getitem__(self, key):
-        if not isinstance(key, int):
+        if not isinstance(key, (int, np.integer)):
             # FIXME: we do not yet support fancy indexing here.
             # Fully expand the array then apply the fancy indexing.
             return self[key[0]][tuple(key[1:])]
diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index a9b127a..96c46f2 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -36,7 +36,7 @@ class ImageFilesImageSeriesAdapter(ImageSeriesAdapter):
             return self._nframes
 
     def __getitem__(self, key):
-        if not isinstance(key, int):
+        if not isinstance(key, (int, np.integer)):
             # FIXME: we do not yet support fancy indexing here.
             # Fully expand the array then apply the fancy indexing.
             return self[key[0]][tuple(key[1:])]
diff --git a/hexrd/core/imageseries/load/rawimage.py b/hexrd/core/imageseries/load/rawimage.py
index 1dd06c1..dc1e252 100644
--- a/hexrd/core/imageseries/load/rawimage.py
+++ b/hexrd/core/imageseries/load/rawimage.py
@@ -112,7 +112,7 @@ class RawImageSeriesAdapter(ImageSeriesAdapter):
         return ImageSeriesIterator(self)
 
     def __getitem__(self, key):
-        if not isinstance(key, int):
+        if not isinstance(key, (int, np.integer)):
             # FIXME: we do not yet support fancy indexing here.
             # Fully expand the array then apply the fancy indexing.
             return self[key[0]][tuple(key[1:])]
diff --git a/hexrd/core/imageseries/process.py b/hexrd/core/imageseries/process.py
index bd7ce11..5593f12 100644
--- a/hexrd/core/imageseries/process.py
+++ b/hexrd/core/imageseries/process.py
@@ -50,7 +50,7 @@ class ProcessedImageSeries(ImageSeries):
         self.addop(self.ADD_COL, self._add_col)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             idx = key
             rest = []
         else:
@@ -85,7 +85,7 @@ class ProcessedImageSeries(ImageSeries):
         # applied, otherwise operations like dark subtraction will receive
         # a spatially-indexed subarray that doesn't match the full-frame
         # operation data (e.g. full-size dark image).
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             idx = key
             rest = []
         else:
-- 
2.43.0


From 0577f438ddb42907171130230825d76cbdd29271 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 030/104] fix: frame-cache frames accept slices and row indices
 like other imageseries

---
 hexrd/core/imageseries/load/framecache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/imageseries/load/framecache.py b/hexrd/core/imageseries/load/framecache.py
index 12a0885..5198572 100644
--- a/hexrd/core/imageseries/load/framecache.py
+++ b/hexrd/core/imageseries/load/framecache.py
@@ -248,15 +248,15 @@ class FrameCacheImageSeriesAdapter(ImageSeriesAdapter):
             # using fancy indexing before we convert it to a
             # numpy array.
             mat = self._framelist[key[0]]
-            if len(key) == 3:
+            if len(key) == 3 and all(isinstance(k, np.ndarray) for k in key[1:]):
                 # This is definitely used frequently and needs to
                 # be performant.
                 ind1 = key[1]
                 ind2 = key[2]
                 return mat[ind1.ravel(), ind2.ravel()].reshape(ind1.shape)
-            elif len(key) == 2:
-                # Not sure if this will actually be used.
-                return mat[key[1]].toarray()
+
+            # Not sure if this will actually be used.
+            return mat.toarray()[tuple(key[1:])]
 
         return self._framelist[key].toarray()
 
-- 
2.43.0


From 982d5676258497c9bf06c481680f6392627a6ec2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 031/104] fix: shape and length of fch5 frame caches are plain
 integers like those of npz

---
 hexrd/core/imageseries/load/framecache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/imageseries/load/framecache.py b/hexrd/core/imageseries/load/framecache.py
index 5198572..26198dc 100644
--- a/hexrd/core/imageseries/load/framecache.py
+++ b/hexrd/core/imageseries/load/framecache.py
@@ -101,8 +101,8 @@ class FrameCacheImageSeriesAdapter(ImageSeriesAdapter):
                     "Framecache version is not " f"supported: {version}"
                 )
 
-            self._shape = file["shape"][()]
-            self._nframes = file["nframes"][()]
+            self._shape = tuple(int(x) for x in file["shape"][()])
+            self._nframes = int(file["nframes"][()])
             self._dtype = np.dtype(h5py_read_string(file["dtype"]))
             self._meta = {}
             unwrap_h5_to_dict(file["metadata"], self._meta)
-- 
2.43.0


From a77162bfbe85db61eab3cd4bf621513b119756b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 032/104] fix: metadata need not be numpy arrays when writing
 HDF5 imageseries

---
 hexrd/core/imageseries/save.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/imageseries/save.py b/hexrd/core/imageseries/save.py
index aa65d59..0a6160c 100644
--- a/hexrd/core/imageseries/save.py
+++ b/hexrd/core/imageseries/save.py
@@ -176,10 +176,10 @@ class WriteH5(Writer):
 
         # add metadata
         for k, v in list(self._meta.items()):
-            if np.issubdtype(v.dtype, 'U'):
+            if np.issubdtype(np.asarray(v).dtype, 'U'):
                 # HDF5 can't handle unicode strings.
                 # Turn it into a regular string.
-                v = v.astype('S')
+                v = np.asarray(v).astype('S')
 
             g.attrs[k] = v
 
-- 
2.43.0


From 205b74620c9bcb2b9a219b19ec9aabcc703c8708 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 033/104] fix: name of the cache file in the frame-cache YAML

---
 hexrd/core/imageseries/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/save.py b/hexrd/core/imageseries/save.py
index 0a6160c..786571c 100644
--- a/hexrd/core/imageseries/save.py
+++ b/hexrd/core/imageseries/save.py
@@ -310,7 +310,7 @@ class WriteFrameCache(Writer):
 
     def _write_yml(self):
         datad = {
-            'file': self._cachename,
+            'file': self.cachename,
             'dtype': str(self._ims.dtype),
             'nframes': len(self._ims),
             'shape': list(self._ims.shape),
-- 
2.43.0


From 6298a303f07e4f574addbb146f1b6fb86c305253 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 034/104] fix: first image of average_iter is not overwritten
 by later frames

---
 hexrd/core/imageseries/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/stats.py b/hexrd/core/imageseries/stats.py
index 433bfb4..46e82d9 100644
--- a/hexrd/core/imageseries/stats.py
+++ b/hexrd/core/imageseries/stats.py
@@ -164,7 +164,8 @@ def average_iter(
     if stop == 0:
         if nf > 1:
             s0, stop = 1, stops[1]
-        yield img
+        # Copy so later in-place accumulation can't mutate the yielded array.
+        yield img.copy()
 
     for i in range(1, nf):
         img += ims[i]
-- 
2.43.0


From d2f6c0171cb3466432720a127ba832865b66dc6e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 035/104] fix: empty frames are skipped when each image file
 has a single remaining frame

---
 hexrd/core/imageseries/load/imagefiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index 96c46f2..b01984c 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -141,7 +141,7 @@ number of files: %s
                 dtp = self._checkvalue(dtp, info.dtype, "inconsistent image dtypes")
             fcl = self._checkvalue(fcl, info.fabioclass, "inconsistent image types")
             nf += info.nframes
-            if info.nframes > 1:
+            if info.nframes > 1 or info.empty > 0:
                 self._singleframes = False
 
         self._nframes = nf
-- 
2.43.0


From 503cc736b5e476de5c94a14e893cbc9abc027c49 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 036/104] fix: an omega just below the end of a wedge belongs
 to its last frame

---
 hexrd/core/imageseries/omega.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/omega.py b/hexrd/core/imageseries/omega.py
index 2307f3c..3f2bce9 100644
--- a/hexrd/core/imageseries/omega.py
+++ b/hexrd/core/imageseries/omega.py
@@ -101,7 +101,9 @@ class OmegaImageSeries(ImageSeries):
             omcheck = omin + np.mod(om - omin, self.TAU)
             if omcheck < omax:
                 odel = self._wedge_om[i, 2]
-                f = self._wedge_f[i, 0] + int(np.floor((omcheck - omin) / odel))
+                step = int(np.floor((omcheck - omin) / odel))
+                # rounding may give one step too many just below omax
+                f = self._wedge_f[i, 0] + min(step, self._wedge_f[i, 1] - 1)
                 w = i
                 break
 
-- 
2.43.0


From 62ac3f1bb931c317d7c073df7884ed744098913d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 037/104] fix: omega range inside a single frame gives that
 frame

---
 hexrd/core/imageseries/omega.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexrd/core/imageseries/omega.py b/hexrd/core/imageseries/omega.py
index 3f2bce9..ea2e614 100644
--- a/hexrd/core/imageseries/omega.py
+++ b/hexrd/core/imageseries/omega.py
@@ -123,6 +123,10 @@ class OmegaImageSeries(ImageSeries):
         if (w0 == w1) and (f1 > f0):
             return list(range(f0, f1 + 1))
 
+        # case: range inside a single frame
+        if (f0 == f1) and (omax - omin < self._wedge_om[w0, 2]):
+            return [f0]
+
         # case: adjacent wedges with 2pi jump in omega
         w0max = self._wedge_om[w0, 1]
         w1min = self._wedge_om[w1, 0]
-- 
2.43.0


From 0c08dd7cbfa93540791168dc7b03eadaa2338ad4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 038/104] fix: omega wedges adjoin when their jump is just
 below a full turn

---
 hexrd/core/imageseries/omega.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/omega.py b/hexrd/core/imageseries/omega.py
index ea2e614..0c60e4c 100644
--- a/hexrd/core/imageseries/omega.py
+++ b/hexrd/core/imageseries/omega.py
@@ -131,7 +131,8 @@ class OmegaImageSeries(ImageSeries):
         w0max = self._wedge_om[w0, 1]
         w1min = self._wedge_om[w1, 0]
 
-        if np.mod(np.abs(w1min - w0max), self.TAU) < self.DFLT_TOL:
+        jump = np.mod(w1min - w0max, self.TAU)
+        if min(jump, self.TAU - jump) < self.DFLT_TOL:
             r0 = list(range(f0, self._wedge_f[w0, 0] + self._wedge_f[w0, 1]))
             r1 = list(range(self._wedge_f[w1, 0], f1 + 1))
             return r0 + r1
-- 
2.43.0


From d62b00de6e433e4c510c1903336963f02ebaaccf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:44:28 +0000
Subject: [PATCH 039/104] fix: writing a dictionary to HDF5 leaves the
 dictionary as it was

---
 hexrd/core/utils/hdf5.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/core/utils/hdf5.py b/hexrd/core/utils/hdf5.py
index 99e934c..43171ab 100644
--- a/hexrd/core/utils/hdf5.py
+++ b/hexrd/core/utils/hdf5.py
@@ -22,8 +22,7 @@ def unwrap_dict_to_h5(grp, d, asattr=False):
     None.
 
     """
-    while len(d) > 0:
-        key, item = d.popitem()
+    for key, item in d.items():
         if isinstance(item, dict):
             subgrp = grp.create_group(key)
             unwrap_dict_to_h5(subgrp, item, asattr=asattr)
-- 
2.43.0


From 9e7d2d3b2fb96ca771df187727cbc39bbbd8984a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:56 +0000
Subject: [PATCH 040/104] fix: exclusions apply to the excluded reflections for
 every two-theta ordering

---
 hexrd/core/material/crystallography.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 0172094..c748d89 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -921,11 +921,11 @@ class PlaneData(object):
             else:
                 if len(exclusions.shape) == 1:
                     # treat exclusions as indices
-                    excl[self.tThSortInv[exclusions]] = True
+                    excl[self.tThSort[exclusions]] = True
                 elif len(exclusions.shape) == 2:
                     # treat exclusions as ranges of indices
                     for r in exclusions:
-                        excl[self.tThSortInv[r[0] : r[1]]] = True
+                        excl[self.tThSort[r[0] : r[1]]] = True
                 else:
                     raise RuntimeError(f'Unclear behavior for shape {exclusions.shape}')
         self._exclusions = excl
@@ -1326,7 +1326,8 @@ class PlaneData(object):
     def _thisHKL(self, iHKLr: int) -> bool:
         hklData = self.hklDataList[iHKLr]
         if self._exclusions is not None:
-            if self._exclusions[self.tThSortInv[iHKLr]]:
+            # _exclusions are in _hkl ordering
+            if self._exclusions[self.tThSort[iHKLr]]:
                 return False
         if self._tThMax is not None:
             if hklData['tTheta'] > self._tThMax or np.isnan(hklData['tTheta']):
-- 
2.43.0


From 7746c825f2761ae086ba9c71d7db7dd9a8419c11 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:56 +0000
Subject: [PATCH 041/104] fix: hkl IDs of the included reflections for every
 two-theta ordering

---
 hexrd/core/material/crystallography.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index c748d89..500545f 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -1527,7 +1527,7 @@ class PlaneData(object):
         else:
             hklList = self.getSymHKLs()  # !!! list, reduced by exclusions
             intl_hklIDs = np.asarray([i['hklID'] for i in self.hklDataList])
-            intl_hklIDs_sorted = intl_hklIDs[~self.exclusions[self.tThSortInv]]
+            intl_hklIDs_sorted = intl_hklIDs[~self.exclusions]
             dHKLInv = {}
             for iHKL, symHKLs in enumerate(hklList):
                 idx = intl_hklIDs_sorted[iHKL] if master else iHKL
@@ -1605,7 +1605,7 @@ class PlaneData(object):
             #     RuntimeError, and if allHKLs=True and the hkl_id is
             #     excluded, it also raises a RuntimeError
             all_hkl_ids = np.asarray([i['hklID'] for i in self.hklDataList])
-            sorted_excl = self.exclusions[self.tThSortInv]
+            sorted_excl = self.exclusions
             idx = np.zeros(len(self.hklDataList), dtype=int)
             for i, hkl_id in enumerate(hkl_ids):
                 # find ordinal index of current hklID
-- 
2.43.0


From d41fc77e3492c664d87cfaab960cff291627dd25 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:56 +0000
Subject: [PATCH 042/104] fix: exclusions report unreachable reflections when
 tThMax is set, like the hkl list

---
 hexrd/core/material/crystallography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 500545f..30fc1d5 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -903,7 +903,7 @@ class PlaneData(object):
             retval[:] = self._exclusions[self.tThSort]
         if self._tThMax is not None:
             for iHKLr, hklData in enumerate(self.hklDataList):
-                if hklData['tTheta'] > self._tThMax:
+                if hklData['tTheta'] > self._tThMax or np.isnan(hklData['tTheta']):
                     retval[iHKLr] = True
         return retval
 
-- 
2.43.0


From f20e1cddba3686b51987b9233e63e4cae5abd900 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:56 +0000
Subject: [PATCH 043/104] fix: number of included reflections follows tThMax

---
 hexrd/core/material/crystallography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 30fc1d5..86ac501 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -886,6 +886,7 @@ class PlaneData(object):
     @tThMax.setter
     def tThMax(self, t_th_max: Union[float, valunits.valWUnit]) -> None:
         self._tThMax = toFloat(t_th_max, 'radians')
+        self.nHKLs = len(self.getHKLs())
 
     @property
     def exclusions(self) -> NDArray[np.bool_]:
@@ -929,7 +930,7 @@ class PlaneData(object):
                 else:
                     raise RuntimeError(f'Unclear behavior for shape {exclusions.shape}')
         self._exclusions = excl
-        self.nHKLs = np.sum(np.logical_not(self._exclusions))
+        self.nHKLs = len(self.getHKLs())
 
     def exclude(
         self,
-- 
2.43.0


From 1e859a99013e365006fca2223b18d8811646c1de Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 20:45:56 +0000
Subject: [PATCH 044/104] fix: exclude() handles unreachable reflections

---
 hexrd/core/material/crystallography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 86ac501..b772d46 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -988,6 +988,8 @@ class PlaneData(object):
                 excl[tth < tthmin] = True
             if tthmax is not None:
                 excl[tth > tthmax] = True
+            # unreachable reflections
+            excl[np.isnan(tth)] = True
 
         if (sfacmin is not None) or (sfacmax is not None):
             sfac = self.structFact
@@ -999,11 +1001,13 @@ class PlaneData(object):
 
         if (pintmin is not None) or (pintmax is not None):
             pint = self.powder_intensity
-            pint = pint / pint.max()
+            # unreachable reflections have no intensity (nan)
+            pint = pint / np.nanmax(pint)
             if pintmin is not None:
                 excl[pint < pintmin] = True
             if pintmax is not None:
                 excl[pint > pintmax] = True
+            excl[np.isnan(pint)] = True
 
         self.exclusions = excl
 
-- 
2.43.0


From e2566f502523cc4528aed2e186b6155f16383904 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:22 +0000
Subject: [PATCH 045/104] fix: equation of state gives the volume on the branch
 through zero pressure

---
 hexrd/core/material/material.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 8dda950..4868efe 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -525,15 +525,14 @@ class Material(object):
             p[4] = alpha - 1
             p[9] = -2 * pressure / 3 / kt
             res = np.roots(p)
-            res = res[np.isreal(res)]
-            res = 1 / np.real(res) ** 3
-
-            mask = np.logical_and(res >= 0.0, res <= 1.0)
-            res = res[mask]
+            res = np.real(res[np.isreal(res)])
+            res = res[res > 0.0]
             if len(res) == 0:
                 return vt
             else:
-                return np.nanmax(res) * vt
+                # the solution on the branch through zero pressure; round-off
+                # may put it on either side of 1 there
+                return vt / res[np.argmin(np.abs(res - 1.0))] ** 3
 
     def calc_lp_factor(self, pressure=None, temperature=None):
         '''calculate the factor to multiply the lattice
-- 
2.43.0


From 076f896730f1615f36419fd5bf923e89e6e54656 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:22 +0000
Subject: [PATCH 046/104] fix: lattice parameters at P, T include the thermal
 expansion

---
 hexrd/core/material/material.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 4868efe..78993fe 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -539,9 +539,8 @@ class Material(object):
         constants by. only the lengths will be modified, the
         angles will be kept constant.
         '''
-        vt = self.vt(temperature=temperature)
         vpt = self.calc_volume(pressure=pressure, temperature=temperature)
-        return (vpt / vt) ** (1.0 / 3.0)
+        return (vpt / self.v0) ** (1.0 / 3.0)
 
     def calc_lp_at_PT(self, pressure=None, temperature=None):
         '''calculate the lattice parameters for a given
-- 
2.43.0


From b18ded1d40d211293d8b404742db6be3e9e754e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:22 +0000
Subject: [PATCH 047/104] fix: memoized results are kept apart for arrays of
 different types with the same bytes

---
 hexrd/core/utils/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index b9aa391..52737f3 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -112,7 +112,7 @@ def _make_hashable(items):
             # Create an sha1 of the data, and throw in a string
             # and the shape.
             x = np.ascontiguousarray(x)
-            return ('__type_np.ndarray', x.shape, xxhash.xxh3_128_hexdigest(x))
+            return ('__type_np.ndarray', x.dtype.str, x.shape, xxhash.xxh3_128_hexdigest(x))
         elif isinstance(x, (list, tuple)):
             return _make_hashable(x)
         elif isinstance(x, dict):
-- 
2.43.0


From cc74d1dbffe89dd35a6f682bb2f1ec64675c9315 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:53 +0000
Subject: [PATCH 048/104] fix: memoize tells keyword arguments from positional
 (name, value) pairs

---
 hexrd/core/utils/decorators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index 52737f3..d238c35 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -67,8 +67,7 @@ def memoize(func=None, maxsize=2):
             nonlocal misses
             nonlocal hits
 
-            all_args = list(args) + sorted(kwargs.items())
-            key = _make_hashable(all_args)
+            key = _make_hashable([args, sorted(kwargs.items())])
             if key not in cache:
                 # Make sure the current size is less than the max size
                 while len(cache) >= maxsize:
-- 
2.43.0


From 1e58a324ea9b090350c0398a01ed9ff9af6c5556 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:53 +0000
Subject: [PATCH 049/104] fix: arrays in cached tuples cannot be modified by
 callers either

---
 hexrd/core/utils/decorators.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index d238c35..a0a0195 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -75,11 +75,10 @@ def memoize(func=None, maxsize=2):
                     cache.popitem(last=False)
 
                 output = func(*args, **kwargs)
-                if isinstance(output, np.ndarray):
-                    # Make the array readonly so that caller functions *cannot*
-                    # modify the cached output array. Otherwise, we run into
-                    # hard-to-track-down bugs.
-                    output.flags.writeable = False
+                # Make arrays readonly so that caller functions *cannot*
+                # modify the cached output arrays. Otherwise, we run into
+                # hard-to-track-down bugs.
+                _make_readonly(output)
 
                 # This inserts the item on the right (most recently used)
                 cache[key] = output
@@ -99,6 +98,14 @@ def memoize(func=None, maxsize=2):
         return decorator(func)
 
 
+def _make_readonly(output):
+    if isinstance(output, np.ndarray):
+        output.flags.writeable = False
+    elif isinstance(output, (list, tuple)):
+        for x in output:
+            _make_readonly(x)
+
+
 def _make_hashable(items):
     """Convert a list of items into hashable forms
 
-- 
2.43.0


From 3380f073cb6eca70f2944999fcef3b1a5d7c82ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:03:53 +0000
Subject: [PATCH 050/104] fix: cached pixel angles follow changes of the
 distortion parameters

---
 hexrd/core/utils/decorators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index a0a0195..db79a7d 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -13,6 +13,8 @@ import numba
 import numpy as np
 import xxhash
 
+from hexrd.core.distortion.distortionabc import DistortionABC
+
 
 def undoc(func):
     """Mark a function or class as undocumented.
@@ -123,6 +125,9 @@ def _make_hashable(items):
             return _make_hashable(x)
         elif isinstance(x, dict):
             return _make_hashable(sorted(x.items()))
+        elif isinstance(x, DistortionABC):
+            # These are mutable: the mapping is defined by the parameters
+            return (type(x), *_make_hashable([getattr(x, 'params', None)]))
         return x
 
     return tuple(map(convert, items))
-- 
2.43.0


From 0b4e9311b30b0058bff799d33caf96594ed0171e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:06:51 +0000
Subject: [PATCH 051/104] fix: pink-beam gaussian weights both exponentials
 with the normalisation

---
 hexrd/core/fitting/peakfunctions.py | 6 +++---
 hexrd/core/fitting/utils.py         | 6 +++---
 hexrd/powder/wppf/peakfunctions.py  | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hexrd/core/fitting/peakfunctions.py b/hexrd/core/fitting/peakfunctions.py
index 6dee7ec..1ae0f3c 100644
--- a/hexrd/core/fitting/peakfunctions.py
+++ b/hexrd/core/fitting/peakfunctions.py
@@ -483,9 +483,9 @@ def _gaussian_pink_beam(p, x):
     g = np.zeros(x.shape)
     zmask = np.abs(del_tth) > 5.0
 
-    g[~zmask] = (0.5 * (alpha * beta) / (alpha + beta)) * np.exp(u[~zmask]) * t1[
-        ~zmask
-    ] + np.exp(v[~zmask]) * t2[~zmask]
+    g[~zmask] = (0.5 * (alpha * beta) / (alpha + beta)) * (
+        np.exp(u[~zmask]) * t1[~zmask] + np.exp(v[~zmask]) * t2[~zmask]
+    )
     mask = np.isnan(g)
     g[mask] = 0.0
     g *= A / g.max()
diff --git a/hexrd/core/fitting/utils.py b/hexrd/core/fitting/utils.py
index e5b9e05..06dfe2a 100644
--- a/hexrd/core/fitting/utils.py
+++ b/hexrd/core/fitting/utils.py
@@ -206,9 +206,9 @@ def _gaussian_pink_beam(p, x):
     g = np.zeros(x.shape)
     zmask = np.abs(del_tth) > 5.0
 
-    g[~zmask] = (0.5 * (alpha * beta) / (alpha + beta)) * np.exp(u[~zmask]) * t1[
-        ~zmask
-    ] + np.exp(v[~zmask]) * t2[~zmask]
+    g[~zmask] = (0.5 * (alpha * beta) / (alpha + beta)) * (
+        np.exp(u[~zmask]) * t1[~zmask] + np.exp(v[~zmask]) * t2[~zmask]
+    )
 
     mask = np.isnan(g)
     g[mask] = 0.0
diff --git a/hexrd/powder/wppf/peakfunctions.py b/hexrd/powder/wppf/peakfunctions.py
index 8a50fad..c0c98cf 100644
--- a/hexrd/powder/wppf/peakfunctions.py
+++ b/hexrd/powder/wppf/peakfunctions.py
@@ -520,7 +520,7 @@ def _gaussian_pink_beam(alpha, beta, fwhm_g, tth, tth_list):
     t2 = erfc(z)
     g = np.zeros(tth_list.shape)
 
-    g = (0.5 * (alpha * beta) / (alpha + beta)) * np.exp(u) * t1 + np.exp(v) * t2
+    g = (0.5 * (alpha * beta) / (alpha + beta)) * (np.exp(u) * t1 + np.exp(v) * t2)
     mask = np.isnan(g)
     g[mask] = 0.0
 
-- 
2.43.0


From 35b700ac9e2905951f13b68e18faec6ac8811f53 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:06:51 +0000
Subject: [PATCH 052/104] fix: pink-beam lorentzian has its rising exponential
 on the low side

---
 hexrd/core/fitting/peakfunctions.py | 2 +-
 hexrd/core/fitting/utils.py         | 2 +-
 hexrd/powder/wppf/peakfunctions.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/fitting/peakfunctions.py b/hexrd/core/fitting/peakfunctions.py
index 1ae0f3c..f4c5343 100644
--- a/hexrd/core/fitting/peakfunctions.py
+++ b/hexrd/core/fitting/peakfunctions.py
@@ -511,7 +511,7 @@ def _lorentzian_pink_beam(p, x):
 
     del_tth = x - x0
 
-    p = -alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
+    p = alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
     q = -beta * del_tth + 1j * 0.5 * beta * fwhm_l
 
     y = np.zeros(x.shape)
diff --git a/hexrd/core/fitting/utils.py b/hexrd/core/fitting/utils.py
index 06dfe2a..971409f 100644
--- a/hexrd/core/fitting/utils.py
+++ b/hexrd/core/fitting/utils.py
@@ -235,7 +235,7 @@ def _lorentzian_pink_beam(p, x):
 
     del_tth = x - x0
 
-    p = -alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
+    p = alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
     q = -beta * del_tth + 1j * 0.5 * beta * fwhm_l
 
     y = np.zeros(x.shape)
diff --git a/hexrd/powder/wppf/peakfunctions.py b/hexrd/powder/wppf/peakfunctions.py
index c0c98cf..d024104 100644
--- a/hexrd/powder/wppf/peakfunctions.py
+++ b/hexrd/powder/wppf/peakfunctions.py
@@ -538,7 +538,7 @@ def _lorentzian_pink_beam(alpha, beta, fwhm_l, tth, tth_list):
     Von Dreele et. al., J. Appl. Cryst. (2021). 54, 3–6
     """
     del_tth = tth_list - tth
-    p = -alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
+    p = alpha * del_tth + 1j * 0.5 * alpha * fwhm_l
     q = -beta * del_tth + 1j * 0.5 * beta * fwhm_l
 
     f1 = exp1exp(p)
-- 
2.43.0


From 5f38cfbc353fac389abaab1d55a00d9cf7cf67c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 053/104] fix: split pseudo-Voigt fit bounds the background by
 its own estimate

---
 hexrd/core/fitting/fitpeak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/fitting/fitpeak.py b/hexrd/core/fitting/fitpeak.py
index 263ff03..0bc763c 100644
--- a/hexrd/core/fitting/fitpeak.py
+++ b/hexrd/core/fitting/fitpeak.py
@@ -239,7 +239,7 @@ def fit_pk_parms_1d(p0, x, f, pktype='pvoigt'):
     elif pktype == 'split_pvoigt':
         # fmt: off
         lb = [p0[0]*0.5, np.min(x), 0., 0., 0., 0., 0., None]
-        ub = [p0[0]*2.0, np.max(x), 4.*p0[2], 4.*p0[2], 1., 1., 2.*p0[4], None]
+        ub = [p0[0]*2.0, np.max(x), 4.*p0[2], 4.*p0[3], 1., 1., 2.*p0[-2], None]
         # fmt: on
         fitArgs = (x, f, pktype, weight, lb, ub)
         p, outflag = optimize.leastsq(
-- 
2.43.0


From cd4bd5837fc25e3a88bbea435b07d87e3cd8670a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 054/104] fix: amplitude bounds of pseudo-Voigt fits do not
 depend on the background

the upper bound subtracted the minimum of the data from an amplitude that
is already above the background: with a background higher than the peak
the bounds were inverted and the fit raised.
---
 hexrd/core/fitting/fitpeak.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hexrd/core/fitting/fitpeak.py b/hexrd/core/fitting/fitpeak.py
index 0bc763c..ebb7b95 100644
--- a/hexrd/core/fitting/fitpeak.py
+++ b/hexrd/core/fitting/fitpeak.py
@@ -399,8 +399,6 @@ def estimate_mpk_parms_1d(
     if len(fwhm_guess) < 2:
         fwhm_guess = fwhm_guess * np.ones(num_pks)
 
-    min_val = np.min(f)
-
     # estimate background with SNIP1d
     bkg = snip1d(
         np.atleast_2d(f),
@@ -466,7 +464,7 @@ def estimate_mpk_parms_1d(
                 0.0,
             ]
             p0tmp_ub[ii, :] = [
-                (amp_guess - min_val + 1.0) * amp_lim_mult[1],
+                amp_guess * amp_lim_mult[1],
                 pk_pos_0[ii] + center_bnd[ii],
                 fwhm_guess[ii] * fwhm_lim_mult[1],
                 1.0,
-- 
2.43.0


From 10b1fdf1b721bee1b71bbaeaee182cd467500fe3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:13:57 +0000
Subject: [PATCH 055/104] fix: JCPDS matches_material() tells a match from a
 mismatch

it returned None when every lattice parameter agreed, which callers
cannot tell from False.
---
 hexrd/core/material/jcpds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/material/jcpds.py b/hexrd/core/material/jcpds.py
index 202b296..76c5daa 100644
--- a/hexrd/core/material/jcpds.py
+++ b/hexrd/core/material/jcpds.py
@@ -291,6 +291,8 @@ class JCPDS_extend:
             if not np.isclose(v1, v2):
                 return False
 
+        return True
+
     def write_lattice_params_to_material(self, mat):
         self.verify_symmetry_match(mat)
         mat.latticeParameters = self.lattice_params
-- 
2.43.0


From 00a20887bdd6c7dc441fbe6c04427b4cc415a2ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 056/104] fix: memoize tells dict arguments from sequences of
 pairs

---
 hexrd/core/utils/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index db79a7d..d56726a 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -124,7 +124,7 @@ def _make_hashable(items):
         elif isinstance(x, (list, tuple)):
             return _make_hashable(x)
         elif isinstance(x, dict):
-            return _make_hashable(sorted(x.items()))
+            return ('__type_dict', *_make_hashable(sorted(x.items())))
         elif isinstance(x, DistortionABC):
             # These are mutable: the mapping is defined by the parameters
             return (type(x), *_make_hashable([getattr(x, 'params', None)]))
-- 
2.43.0


From 8ba5cf11dc0a31090e5e5c9fd2b9be80cb7487ff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 057/104] fix: coherent scattering factors are evaluated at (Q
 / 4 pi)^2

the tabulated exponentials are in sin(theta)^2/lambda^2, not sin(theta)/lambda.
---
 hexrd/core/material/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/utils.py b/hexrd/core/material/utils.py
index e8a71c2..6f5d333 100644
--- a/hexrd/core/material/utils.py
+++ b/hexrd/core/material/utils.py
@@ -234,7 +234,7 @@ def calculate_coherent_scattering_factor(
     element: str,
     Q: NDArray[np.float64],
 ) -> NDArray[np.float64]:
-    s = Q / (4.0 * np.pi)
+    s = (Q / (4.0 * np.pi)) ** 2
     sfact = constants.scatfac[element]
     fe = sfact[5]
     for jj in range(5):
-- 
2.43.0


From 62e6c6dd2fcf03b19a0a00690cc07aa9e84408c9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 058/104] fix: incoherent scattering of a composition is the
 mean of its elements

the tabulated Compton functions are intensities (they tend to the number
of electrons); they were squared, weights included.
---
 hexrd/core/material/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/utils.py b/hexrd/core/material/utils.py
index 6f5d333..6a1a078 100644
--- a/hexrd/core/material/utils.py
+++ b/hexrd/core/material/utils.py
@@ -304,5 +304,5 @@ def calculate_incoherent_scattering(
     norm_elemental_abundances = normalize_composition(formula)
     res: NDArray[np.float64] = np.zeros_like(Q, dtype=np.float64)
     for key, value in norm_elemental_abundances.items():
-        res += (value * calculate_incoherent_scattering_factor(key, Q)) ** 2
+        res += value * calculate_incoherent_scattering_factor(key, Q)
     return res
-- 
2.43.0


From 7da579f3c9a9f794efc024ba5dd10ce7b494ff57 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 059/104] fix: absorption length of a compound weights its
 elements by mass

the tabulated cross sections are per gram but were averaged by number of atoms.
---
 hexrd/core/material/unitcell.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 419bec2..25350d0 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -899,13 +899,14 @@ class unitcell:
         return 1e-12 * self.density * Na / M
 
     def calc_absorption_cross_sec(self):
+        # the tabulated cross sections are in cm^2/g: weight them by mass
+        occ = self.atom_pos[:, 3]
+        mass = constants.atom_weights[self.atom_type - 1] * self.numat * occ
         abs_cs_total = 0.0
         for i in range(self.atom_ntype):
             Z = self.atom_type[i]
             elem = constants.ptableinverse[Z]
-            abs_cs_total += (
-                self.pe_cs[elem](self.wavelength) * self.numat[i] / np.sum(self.numat)
-            )
+            abs_cs_total += self.pe_cs[elem](self.wavelength) * mass[i] / np.sum(mass)
         return abs_cs_total
 
     """
-- 
2.43.0


From d9fbff3caea0e9a199276546c97894f0fcbb644b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 060/104] fix: unit cell mass counts partially occupied sites
 like the density does

---
 hexrd/core/material/unitcell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 25350d0..a5b397f 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -884,7 +884,7 @@ class unitcell:
 
     def calc_unitcell_mass(self):
         a_mass = constants.atom_weights[self.atom_type - 1]
-        return np.sum(a_mass * self.numat)
+        return np.sum(a_mass * self.numat * self.atom_pos[:, 3])
 
     """
     calculate the number density in 1/micron^3
-- 
2.43.0


From a21cba6dbefb4b87cdd1f522d7e244d28c204824 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 061/104] fix: distortion parameters of a panel are those with
 its own name, in index order

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index dc359e2..15bf26f 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -381,12 +381,14 @@ def update_unconstrained_detector_parameters(instr, params, euler_convention):
             rad = params[f'{det}_radius'].value
             detector.radius = rad
 
-        distortion_str = f'{det}_distortion_param'
-        if any(distortion_str in p for p in params):
+        distortion_str = f'{det}_distortion_param_'
+        names = [p for p in params if p.startswith(distortion_str)]
+        if names:
             if detector.distortion is None:
                 raise RuntimeError(f"distortion discrepancy for '{det}'!")
             else:
-                names = np.sort([p for p in params if distortion_str in p])
+                # Order by parameter index
+                names.sort(key=lambda p: int(p[len(distortion_str):]))
                 distortion = np.r_[[params[n].value for n in names]]
                 try:
                     detector.distortion.params = distortion
-- 
2.43.0


From 35e2398aa0165f4f09c7eb04aa660e3ab457990f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 062/104] fix: grain calibrators accept the default (tuple)
 euler convention

---
 .../core/fitting/calibration/abstract_grain.py  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hexrd/core/fitting/calibration/abstract_grain.py b/hexrd/core/fitting/calibration/abstract_grain.py
index 5ee41ed..e923241 100644
--- a/hexrd/core/fitting/calibration/abstract_grain.py
+++ b/hexrd/core/fitting/calibration/abstract_grain.py
@@ -99,6 +99,14 @@ class AbstractGrainCalibrator(Calibrator):
     def strain_param_names(self) -> list[str]:
         return self.param_names[6:]
 
+    def _zero_rot_mat_euler(self):
+        convention = self.euler_convention
+        if not isinstance(convention, dict):
+            axes_order, extrinsic = convention
+            convention = {'axes_order': axes_order, 'extrinsic': extrinsic}
+
+        return RotMatEuler(np.zeros(3), **convention)
+
     @property
     def grain_params_euler(self):
         # Grain parameters with orientation set using Euler angle convention
@@ -106,7 +114,7 @@ class AbstractGrainCalibrator(Calibrator):
             return self.grain_params
 
         grain_params = self.grain_params.copy()
-        rme = RotMatEuler(np.zeros(3), **self.euler_convention)
+        rme = self._zero_rot_mat_euler()
         rme.rmat = xfcapi.make_rmat_of_expmap(grain_params[:3])
         grain_params[:3] = np.degrees(rme.angles)
         return grain_params
@@ -116,12 +124,7 @@ class AbstractGrainCalibrator(Calibrator):
         # Grain parameters with orientation set using Euler angle convention
         grain_params = v.copy()
         if self.euler_convention is not None:
-            rme = RotMatEuler(
-                np.zeros(
-                    3,
-                ),
-                **self.euler_convention
-            )
+            rme = self._zero_rot_mat_euler()
             rme.angles = np.radians(grain_params[:3])
             phi, n = angleAxisOfRotMat(rme.rmat)
             grain_params[:3] = phi * n.flatten()
-- 
2.43.0


From 7c50ea018157c935cc8ad11d5327dc3c5f0773dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 063/104] fix: constrained updates work on panels with integer
 translations

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index 15bf26f..e0a63ce 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -449,7 +449,7 @@ def _update_constrained_detector_parameters(
 
         diff = new_tvec - tvec
         for panel in detectors:
-            panel.tvec += diff
+            panel.tvec = panel.tvec + diff
 
         # Update the tvec
         tvec[:] = new_tvec
-- 
2.43.0


From 0a197163749e23550b9c815496a047b5867d2434 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 064/104] fix: constrained poses about the lab origin depend on
 the parameters only, not on earlier updates

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index e0a63ce..5d20609 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -25,6 +25,7 @@ from .relative_constraints import (
     RelativeConstraintsSystem,
     RelativeConstraintsType,
     RelativeConstraintsNone,
+    RotationCenter,
 )
 from hexrd.core.fitting.calibration.relative_constraints import (
     RelativeConstraintsType,
@@ -467,6 +468,9 @@ def update_system_constrained_detector_parameters(
     rotation_center = relative_constraints.center_of_rotation(instr)
     prefix = 'system'
     constraint_params = relative_constraints.params
+    if relative_constraints.rotation_center == RotationCenter.lab_origin:
+        # Tilt is applied before translation: rotate as if not yet translated
+        rotation_center = rotation_center + constraint_params['translation']
 
     _update_constrained_detector_parameters(
         detectors,
@@ -491,6 +495,9 @@ def update_group_constrained_detector_parameters(
         rotation_center = relative_constraints.center_of_rotation(instr, group)
         prefix = group.replace('-', '_')
         constraint_params = relative_constraints.params[group]
+        if relative_constraints.rotation_center == RotationCenter.lab_origin:
+            # Tilt is applied before translation: rotate as if not yet translated
+            rotation_center = rotation_center + constraint_params['translation']
 
         _update_constrained_detector_parameters(
             detectors,
-- 
2.43.0


From 95a7d1fee930de4881c94e3cf5599b64068c8c9e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 065/104] fix: invalid engineering constraints are reported
 with the valid ones

---
 hexrd/core/fitting/calibration/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/fitting/calibration/instrument.py b/hexrd/core/fitting/calibration/instrument.py
index eebff01..c53a281 100644
--- a/hexrd/core/fitting/calibration/instrument.py
+++ b/hexrd/core/fitting/calibration/instrument.py
@@ -152,7 +152,7 @@ class InstrumentCalibrator:
             'TARDIS',
         ]
         if v not in valid_settings:
-            valid_str = ', '.join(map(valid_settings, str))
+            valid_str = ', '.join(map(str, valid_settings))
             msg = (
                 f'Invalid engineering constraint "{v}". Valid constraints '
                 f'are: "{valid_str}"'
-- 
2.43.0


From 0b172a513fac2620ea91b0629d4b8f171d8aaadd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 066/104] fix: beam names with '-' can be calibrated like
 detector names with '-'

---
 hexrd/core/fitting/calibration/lmfit_param_handling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/fitting/calibration/lmfit_param_handling.py b/hexrd/core/fitting/calibration/lmfit_param_handling.py
index 5d20609..62cfde9 100644
--- a/hexrd/core/fitting/calibration/lmfit_param_handling.py
+++ b/hexrd/core/fitting/calibration/lmfit_param_handling.py
@@ -249,7 +249,8 @@ def add_group_constrained_detector_parameters(
 def create_beam_param_names(instr: HEDMInstrument) -> dict[str, dict[str, str]]:
     param_names = {}
     for k in instr.beam_dict.keys():
-        prefix = f'{k}_' if instr.has_multi_beam else ''
+        # lmfit doesn't like '-' in names
+        prefix = f'{k.replace("-", "_")}_' if instr.has_multi_beam else ''
         param_names[k] = {
             'beam_polar': f'{prefix}beam_polar',
             'beam_azimuth': f'{prefix}beam_azimuth',
@@ -565,7 +566,8 @@ def tth_parameter_prefixes(instr: HEDMInstrument) -> dict[str, str]:
     if len(beam_names) == 1:
         return {beam_names[0]: prefix}
 
-    return {name: f'{name}_{prefix}' for name in beam_names}
+    # lmfit doesn't like '-' in names
+    return {name: f'{name.replace("-", "_")}_{prefix}' for name in beam_names}
 
 
 def create_material_params(material, refinements=None):
-- 
2.43.0


From 3fba2bb342e91cdc144a332b12cf783916820387 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 067/104] fix: tiles of a chunked instrument are not shifted by
 half a pixel

---
 hexrd/core/instrument/hedm_instrument.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index e92574f..3cfe761 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -209,7 +209,8 @@ def chunk_instrument(instr, rects, labels, use_roi=False):
 
             row_col_dim = np.diff(rect)  # (2, 1)
             shape = tuple(row_col_dim.flatten())
-            center = rect[:, 0].reshape(2, 1) + 0.5 * row_col_dim
+            # pixel coordinates of the center; (0, 0) is the center of a pixel
+            center = rect[:, 0].reshape(2, 1) + 0.5 * row_col_dim - 0.5
 
             sp_tvec = np.concatenate(
                 [panel.pixelToCart(center.T).flatten(), np.zeros(1)]
-- 
2.43.0


From 3ed1ef3bfad3ec2d1b734e437f94b5bf3ca3a391 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 068/104] fix: regions of shared image stacks are taken from
 each image

---
 hexrd/core/instrument/hedm_instrument.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 3cfe761..7582f17 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -330,10 +330,8 @@ def _parse_imgser_dict(
                 ncols = roi[1][1] - roi[1][0]
                 n_images = len(images_in)
                 ims = np.empty((n_images, nrows, ncols), dtype=images_in.dtype)
-                for i, image in images_in:  # TODO: Is this meant to be an enumerate?
-                    ims[i, :, :] = images_in[
-                        roi[0][0] : roi[0][1], roi[1][0] : roi[1][1]
-                    ]
+                for i, image in enumerate(images_in):
+                    ims[i, :, :] = image[roi[0][0] : roi[0][1], roi[1][0] : roi[1][1]]
             else:
                 raise RuntimeError(f"image input dim must be 2 or 3; you gave {ndim}")
     return ims
-- 
2.43.0


From 651a64c6a98771beb114221f667acc9a735b138f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 069/104] fix: detectors without a saturation level can be
 written to a configuration

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 7cc41db..2c4450e 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -892,7 +892,7 @@ class Detector:
         # saturation level
         if sat_level is None:
             sat_level = self.saturation_level
-        det_dict['saturation_level'] = float(sat_level)
+        det_dict['saturation_level'] = None if sat_level is None else float(sat_level)
 
         # panel buffer
         if panel_buffer is None:
-- 
2.43.0


From 02fc2c877e3d4c45892526dcd81b96f673bf91da Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 070/104] fix: source distances read as numpy integers are
 accepted

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 2c4450e..a779148 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -515,7 +515,7 @@ class Detector:
     @xrs_dist.setter
     def xrs_dist(self, x):
         if x is not None:
-            if not isinstance(x, (float, int)):
+            if not isinstance(x, (float, int, np.integer, np.floating)):
                 raise ValueError('xrs_dist must be a scalar value')
         self._xrs_dist = x
 
-- 
2.43.0


From 4c685a84dd73684f6e97601ad838cd009c01036f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 071/104] fix: configuration values set in a missing block are
 kept

---
 hexrd/core/config/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/config/config.py b/hexrd/core/config/config.py
index db2d889..5311ddf 100644
--- a/hexrd/core/config/config.py
+++ b/hexrd/core/config/config.py
@@ -54,9 +54,10 @@ class Config(object):
         args, item = args[:-1], args[-1]
         temp = self._cfg
         for arg in args:
-            temp = temp.get(arg, {})
-            # intermediate block may be None:
-            temp = {} if temp is None else temp
+            # intermediate block may be missing or None:
+            if temp.get(arg) is None:
+                temp[arg] = {}
+            temp = temp[arg]
         if temp.get(item, null) != val:
             temp[item] = val
             self._dirty = True
-- 
2.43.0


From 0020b06a31c33f0a1b0a2e87174b016661a2d509 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 072/104] fix: configuration with a working directory set by
 the program can be written

---
 hexrd/core/config/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/config/root.py b/hexrd/core/config/root.py
index 61fea33..97571fc 100644
--- a/hexrd/core/config/root.py
+++ b/hexrd/core/config/root.py
@@ -37,7 +37,7 @@ class RootConfig(Config):
         val = Path(val)
         if not val.is_dir():
             raise IOError('"working_dir": "%s" does not exist' % str(val))
-        self.set('working_dir', val)
+        self.set('working_dir', str(val))
 
     @property
     def analysis_name(self):
-- 
2.43.0


From 5ae409385a51b09f04d12fdb688de1a170cebc34 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 073/104] fix: at least one process is used when the
 multiprocessing setting is invalid

---
 hexrd/core/config/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/config/root.py b/hexrd/core/config/root.py
index 97571fc..fed432d 100644
--- a/hexrd/core/config/root.py
+++ b/hexrd/core/config/root.py
@@ -156,7 +156,7 @@ class RootConfig(Config):
                 else:
                     res = temp
         else:
-            temp = ncpus - 1
+            temp = max(ncpus - 1, 1)
             logger.warning("Invalid value %s for multiprocessing", multiproc)
             res = temp
         return res
-- 
2.43.0


From cb7825df313e298aa86924f3ee743830e0d4f4fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 074/104] fix: a single saved configuration can be opened again

---
 hexrd/core/config/__init__.py | 5 +----
 hexrd/hedm/config/__init__.py | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/hexrd/core/config/__init__.py b/hexrd/core/config/__init__.py
index 075f339..f0f93c0 100644
--- a/hexrd/core/config/__init__.py
+++ b/hexrd/core/config/__init__.py
@@ -44,7 +44,4 @@ def save(config_list, file_name):
     res = [cfg._cfg for cfg in config_list]
 
     with open_file(file_name, 'w') as f:
-        if len(res) > 1:
-            yaml.safe_dump_all(res, f)
-        else:
-            yaml.safe_dump(res, f)
+        yaml.safe_dump_all(res, f)
diff --git a/hexrd/hedm/config/__init__.py b/hexrd/hedm/config/__init__.py
index 7dca7e8..c318157 100644
--- a/hexrd/hedm/config/__init__.py
+++ b/hexrd/hedm/config/__init__.py
@@ -46,7 +46,4 @@ def save(config_list, file_name):
     res = [cfg._cfg for cfg in config_list]
 
     with open_file(file_name, 'w') as f:
-        if len(res) > 1:
-            yaml.safe_dump_all(res, f)
-        else:
-            yaml.safe_dump(res, f)
+        yaml.safe_dump_all(res, f)
-- 
2.43.0


From 18142dfbafc12134bec62b6d89c5d0299d0e88d6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 075/104] fix: a section of a later document replaces a plain
 value and leaves aliased sections alone

---
 hexrd/core/config/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/config/utils.py b/hexrd/core/config/utils.py
index 4733a6e..7db64a1 100644
--- a/hexrd/core/config/utils.py
+++ b/hexrd/core/config/utils.py
@@ -34,10 +34,11 @@ def merge_dicts(a, b):
 def _merge_dicts(a, b):
     for k, v in b.items():
         if isinstance(v, dict):
-            if a.get(k) is None:
-                # happens in cases where all but section head is commented
-                a[k] = {}
-            _merge_dicts(a[k], v)
+            # The section may be missing, have all but its head commented out
+            # or have been a plain value. Otherwise, it is copied since YAML
+            # aliases can make several keys share the same section.
+            section = dict(a[k]) if isinstance(a.get(k), dict) else {}
+            a[k] = _merge_dicts(section, v)
         else:
             if v is None and a.get(k) is not None:
                 # entire section commented out. Inherit, don't overwrite
-- 
2.43.0


From 43102eaf7cf0c5da6fa516d8982dc4d269ea1f8c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 076/104] fix: empty configuration documents are accepted

---
 hexrd/core/config/__init__.py | 2 ++
 hexrd/hedm/config/__init__.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hexrd/core/config/__init__.py b/hexrd/core/config/__init__.py
index f0f93c0..6e910f6 100644
--- a/hexrd/core/config/__init__.py
+++ b/hexrd/core/config/__init__.py
@@ -29,6 +29,8 @@ def open(file_name=None):
     with open_file(file_name) as f:
         res = []
         for cfg in yaml.load_all(f, Loader=yaml.SafeLoader):
+            # a document may be empty
+            cfg = {} if cfg is None else cfg
             try:
                 # take the previous config section and update with values
                 # from the current one
diff --git a/hexrd/hedm/config/__init__.py b/hexrd/hedm/config/__init__.py
index c318157..aca7fdd 100644
--- a/hexrd/hedm/config/__init__.py
+++ b/hexrd/hedm/config/__init__.py
@@ -31,6 +31,8 @@ def open(file_name=None) -> list['root.RootConfig']:
     with open_file(file_name) as f:
         res: list[config.Config] = []
         for cfg in yaml.load_all(f, Loader=yaml.SafeLoader):
+            # a document may be empty
+            cfg = {} if cfg is None else cfg
             try:
                 # take the previous config section and update with values
                 # from the current one
-- 
2.43.0


From 9538371d5f813ee8236ff6800cac6144cd0304c1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 077/104] fix: seed search method that is not a section is
 rejected

---
 hexrd/hedm/config/findorientations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hexrd/hedm/config/findorientations.py b/hexrd/hedm/config/findorientations.py
index e895b84..5d8524f 100644
--- a/hexrd/hedm/config/findorientations.py
+++ b/hexrd/hedm/config/findorientations.py
@@ -210,12 +210,12 @@ class SeedSearchConfig(Config):
         try:
             temp = self._cfg.get(key)
             assert len(temp) == 1.0, "method must have exactly one key"
-            if isinstance(temp, dict):
-                method_spec = next(iter(list(temp.keys())))
-                if method_spec.lower() not in seed_search_methods:
-                    raise RuntimeError('invalid seed search method "%s"' % method_spec)
-                else:
-                    return temp
+            assert isinstance(temp, dict), "method must have keyword arguments"
+            method_spec = next(iter(list(temp.keys())))
+            if method_spec.lower() not in seed_search_methods:
+                raise RuntimeError('invalid seed search method "%s"' % method_spec)
+            else:
+                return temp
         except:
             raise RuntimeError('"%s" must be defined for seeded search' % key)
 
-- 
2.43.0


From d7e29d441bcbe501ae83557043ef93719fa385c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 078/104] fix: beam energy of a material given in other units
 reaches its unit cell in keV

---
 hexrd/core/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 78993fe..c5a05f7 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -274,7 +274,7 @@ class Material(object):
             self._atominfo,
             self._U,
             self._dmin.getVal('nm'),
-            self._beamEnergy.value,
+            self._beamEnergy.getVal('keV'),
             self._sgsetting,
         )
 
@@ -1259,7 +1259,7 @@ class Material(object):
         @TODO make voltage valWUnit instance so this that we dont have to
         track this manually inn the future
         '''
-        self.unitcell.voltage = self.beamEnergy.value * 1e3
+        self.unitcell.voltage = self.beamEnergy.getVal('keV') * 1e3
         self.planeData.wavelength = keV
         self._hkls_changed()
 
-- 
2.43.0


From fb83793645ac346b367ba316e2a0383ecaad0c91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 079/104] fix: nanometers can be converted to the other units
 of length

---
 hexrd/core/valunits.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexrd/core/valunits.py b/hexrd/core/valunits.py
index 1eaf028..b9e9ad4 100644
--- a/hexrd/core/valunits.py
+++ b/hexrd/core/valunits.py
@@ -75,6 +75,10 @@ cv_dict = {
     ('angstrom', 'meter'): 1.0e-10,
     ('angstrom', 'mm'): 1.0e-7,
     ('angstrom', 'nm'): 1.0e-1,
+    ('nm', 'm'): 1.0e-9,
+    ('nm', 'meter'): 1.0e-9,
+    ('nm', 'mm'): 1.0e-6,
+    ('nm', 'angstrom'): 10.0,
     ('keV', 'J'): 1.60217646e-16,
     ('J', 'keV'): (1 / 1.60217646e-16),
 }
-- 
2.43.0


From eff39a5b25b080985221bb151a92c1ac3b6610a9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 080/104] fix: plane data of a configuration are those of its
 active material

---
 hexrd/core/config/material.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/config/material.py b/hexrd/core/config/material.py
index b8954de..8c00dcc 100644
--- a/hexrd/core/config/material.py
+++ b/hexrd/core/config/material.py
@@ -57,6 +57,7 @@ class MaterialConfig(Config):
     def materials(self, mats):
         assert isinstance(mats, dict), "input must be a dict"
         self._materials = mats
+        self._plane_data_name = None
 
     @property
     def dmin(self):
@@ -93,8 +94,11 @@ class MaterialConfig(Config):
     @property
     def plane_data(self) -> PlaneData:
         """crystallographic information"""
-        if not hasattr(self, "_plane_data"):
+        # the active material may change
+        name = self.active
+        if getattr(self, "_plane_data_name", None) != name:
             self._plane_data = self._make_plane_data()
+            self._plane_data_name = name
         return self._plane_data
 
     def _make_plane_data(self) -> PlaneData:
-- 
2.43.0


From 1a518c37f0d9415fe03e1997e8acc67b17762a8c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 081/104] fix: overlapping angle ranges are refused, any number
 of separate ones is not

---
 hexrd/hedm/indexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 7b657a8..d2df65a 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -461,7 +461,8 @@ def _normalize_ranges(
         new_result[-1] = offset + two_pi
         result = new_result
 
-    if not np.all(starts[1:] > stops[0:-2]):
+    # the limits are in order, unless ranges overlap (up to round-off)
+    if np.any(np.diff(result) < -1e-8):
         raise ValueError("Angle ranges overlap")
 
     return result
-- 
2.43.0


From 46dcc62f30b29332d7b41f88eb862b43960f59ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 082/104] fix: fewer orientations than processes are scored

---
 hexrd/hedm/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index d2df65a..b6ed133 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -295,7 +295,7 @@ def paintGrid(
 
     if multiProcMode:
         nCPUs = nCPUs or nCPUs_DFLT
-        chunksize = min(quats.shape[1] // nCPUs, 10)
+        chunksize = max(min(quats.shape[1] // nCPUs, 10), 1)
         logger.debug(
             "using multiprocessing with %d processes and a chunk size of %d",
             nCPUs,
-- 
2.43.0


From f23c45f4fabfca21b7e5e8bc297418f268e6c720 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 083/104] fix: default intensity threshold of maps with missing
 bins

---
 hexrd/hedm/indexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index b6ed133..125688c 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -232,8 +232,8 @@ def paintGrid(
         for i in range(nHKLS):
             threshold[i] = np.mean(
                 np.r_[
-                    np.mean(etaOmeMaps.dataStore[i]),
-                    np.median(etaOmeMaps.dataStore[i]),
+                    np.nanmean(etaOmeMaps.dataStore[i]),
+                    np.nanmedian(etaOmeMaps.dataStore[i]),
                 ]
             )
     elif threshold is not None and not hasattr(threshold, "__len__"):
-- 
2.43.0


From 38362a0f8e3e8bbbb7fd2e7233b180538aa0f7fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 084/104] fix: orientations can be found without an azimuth
 mask

---
 hexrd/hedm/findorientations.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/findorientations.py b/hexrd/hedm/findorientations.py
index 5747672..29981b9 100644
--- a/hexrd/hedm/findorientations.py
+++ b/hexrd/hedm/findorientations.py
@@ -627,6 +627,10 @@ def create_clustering_parameters(cfg, eta_ome):
     eta_ranges = cfg.find_orientations.eta.range
     compl_thresh = cfg.find_orientations.clustering.completeness
 
+    # no mask: use all azimuths
+    if eta_ranges is None:
+        eta_ranges = [[-180.0, 180.0]]
+
     # handle omega period
     ome_period, ome_ranges = _process_omegas(imsd)
 
@@ -711,6 +715,10 @@ def find_orientations(
     instr = cfg.instrument.hedm
     eta_ranges = cfg.find_orientations.eta.range
 
+    # no mask: use all azimuths
+    if eta_ranges is None:
+        eta_ranges = [[-180.0, 180.0]]
+
     # tolerances
     tth_tol = plane_data.tThWidth
     eta_tol = np.radians(cfg.find_orientations.eta.tolerance)
@@ -819,7 +827,7 @@ def find_orientations(
         completeness = indexer.paintGrid(
             qfib,
             eta_ome,
-            etaRange=np.radians(cfg.find_orientations.eta.range),
+            etaRange=np.radians(eta_ranges),
             omeTol=np.radians(cfg.find_orientations.omega.tolerance),
             etaTol=np.radians(cfg.find_orientations.eta.tolerance),
             omePeriod=np.radians(cfg.find_orientations.omega.period),
-- 
2.43.0


From 84ed9202c8866b80d2be48eee2581e235eb52675 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 085/104] fix: orientations are scored over the omega period of
 the images

---
 hexrd/hedm/findorientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/findorientations.py b/hexrd/hedm/findorientations.py
index 29981b9..4889213 100644
--- a/hexrd/hedm/findorientations.py
+++ b/hexrd/hedm/findorientations.py
@@ -830,7 +830,7 @@ def find_orientations(
             etaRange=np.radians(eta_ranges),
             omeTol=np.radians(cfg.find_orientations.omega.tolerance),
             etaTol=np.radians(cfg.find_orientations.eta.tolerance),
-            omePeriod=np.radians(cfg.find_orientations.omega.period),
+            omePeriod=np.radians(ome_period),
             threshold=on_map_threshold,
             doMultiProc=ncpus > 1,
             nCPUs=ncpus,
-- 
2.43.0


From 2ce3e5963a7d752c1f76c4101b131fde826bf024 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 086/104] fix: number of omega steps between wedges is not
 reduced by round-off

---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index 298631e..d1ba493 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -88,8 +88,7 @@ class GenerateEtaOmeMaps:
             ostart = owedges[0]['ostart']  # !!! DEGREES
             ostop = float(mapAngle(owedges[-1]['ostop'], ome_period, units='degrees'))
             # compute total nsteps
-            # FIXME: need check for roundoff badness
-            nsteps = int((ostop - ostart) / delta_ome)
+            nsteps = int(round((ostop - ostart) / delta_ome))
             ome_edges_full = np.linspace(ostart, ostop, num=nsteps + 1, endpoint=True)
             omegas_array = np.vstack([ome_edges_full[:-1], ome_edges_full[1:]]).T
             ome_centers = np.average(omegas_array, axis=1)
-- 
2.43.0


From eab7e7cf396ebb56a9c00b1ec75a675260aadba0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 087/104] fix: positions of a ring with one sector on the panel
 are an array of positions

---
 hexrd/core/instrument/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index a779148..18b799a 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1518,7 +1518,7 @@ class Detector:
                 )
             else:
                 patch_valid_angs = these_angs[patch_is_on, :2]
-                patch_valid_xys = patch_xys[:, -1, :].squeeze()
+                patch_valid_xys = patch_xys[:, -1, :]
 
             # form output arrays
             valid_ang.append(patch_valid_angs)
-- 
2.43.0


From 73ace87a2051401017c77148385fa2649c462da8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 088/104] fix: sectors of powder rings have the given azimuthal
 width

---
 hexrd/core/instrument/detector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 18b799a..98f3e29 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1387,13 +1387,13 @@ class Detector:
                 [
                     [
                         i[0],
-                        -del_eta,
+                        -0.5 * del_eta,
                         i[0],
-                        del_eta,
+                        0.5 * del_eta,
                         i[1],
-                        del_eta,
+                        0.5 * del_eta,
                         i[1],
-                        -del_eta,
+                        -0.5 * del_eta,
                         0.0,
                         0.0,
                     ]
-- 
2.43.0


From 0f648490b404142eb025588ac1c54ab47bffa8ba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 089/104] fix: powder rings have their last sector whatever the
 round-off of its width

---
 hexrd/core/instrument/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index 98f3e29..c708135 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1433,7 +1433,8 @@ class Detector:
             del_eta = np.radians(delta_eta)
 
         if eta_list is None:
-            neta = int(360.0 / float(delta_eta))
+            # !!! round-off must not lose the last sector
+            neta = int(360.0 / float(delta_eta) + 1e-8)
             # this is the vector of ETA EDGES
             eta_edges = mapAngle(
                 np.radians(delta_eta * np.linspace(0.0, neta, num=neta + 1))
-- 
2.43.0


From 7f6788f0fc41ff6aa5276628f6069af32d79b0bb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 090/104] fix: last edge of the sectors of powder rings stays
 at the end of the period

---
 hexrd/core/instrument/detector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/detector.py b/hexrd/core/instrument/detector.py
index c708135..e9260e6 100644
--- a/hexrd/core/instrument/detector.py
+++ b/hexrd/core/instrument/detector.py
@@ -1436,9 +1436,13 @@ class Detector:
             # !!! round-off must not lose the last sector
             neta = int(360.0 / float(delta_eta) + 1e-8)
             # this is the vector of ETA EDGES
+            # !!! round-off must not take the last one past the period
             eta_edges = mapAngle(
-                np.radians(delta_eta * np.linspace(0.0, neta, num=neta + 1))
-                + eta_period[0],
+                np.minimum(
+                    np.radians(delta_eta * np.linspace(0.0, neta, num=neta + 1))
+                    + eta_period[0],
+                    eta_period[1],
+                ),
                 eta_period,
             )
 
-- 
2.43.0


From cdc4987ee3156da3e0a16606d24904aa6db75b89 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 091/104] fix: polar maps accept hkl ids that are python
 integers

---
 hexrd/core/instrument/hedm_instrument.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 7582f17..3f4b33e 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -1119,7 +1119,9 @@ class HEDMInstrument(object):
                 raise TypeError("active_hkls must be an iterable with __len__")
 
             # these are all active reflection unique hklIDs
-            active_hklIDs = plane_data.getHKLID(plane_data.hkls, master=True)
+            active_hklIDs = np.asarray(
+                plane_data.getHKLID(plane_data.hkls, master=True)
+            )
 
             # find indices
             idx = np.zeros_like(active_hkls, dtype=int)
-- 
2.43.0


From 123d6386adca6f5a60e1dc4b4c22d5accf3927de Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 092/104] fix: orientation maps are filtered when they are
 recomputed, too

---
 hexrd/hedm/findorientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/findorientations.py b/hexrd/hedm/findorientations.py
index 4889213..c5dec4a 100644
--- a/hexrd/hedm/findorientations.py
+++ b/hexrd/hedm/findorientations.py
@@ -424,7 +424,7 @@ def load_eta_ome_maps(
             )
             res = generate_eta_ome_maps(cfg, hkls=hkls)
 
-        filter_maps_if_requested(res, cfg)
+    filter_maps_if_requested(res, cfg)
     return res
 
 
-- 
2.43.0


From 98c352a7b65c91c8c2eda5aacc023db057241420 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:55:22 +0000
Subject: [PATCH 093/104] fix: eta-omega maps of several wedges can be made

---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index d1ba493..40e7bbf 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -86,7 +86,7 @@ class GenerateEtaOmeMaps:
             #     the omegas attribute?
             owedges = this_det_ims.omegawedges.wedges
             ostart = owedges[0]['ostart']  # !!! DEGREES
-            ostop = float(mapAngle(owedges[-1]['ostop'], ome_period, units='degrees'))
+            ostop = mapAngle(owedges[-1]['ostop'], ome_period, units='degrees').item()
             # compute total nsteps
             nsteps = int(round((ostop - ostart) / delta_ome))
             ome_edges_full = np.linspace(ostart, ostop, num=nsteps + 1, endpoint=True)
-- 
2.43.0


From a14111189911eea13e0dd088a283c4155a5c47ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:55:22 +0000
Subject: [PATCH 094/104] fix: fibers of several directions of which one is
 opposite

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 107dbc8..4260855 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -1077,7 +1077,7 @@ def discreteFiber(c, s, B=I3, ndiv=120, invert=False, csym=None, ssym=None):
                 ax = np.tile(hperp, (1, npts))
             else:
                 ax[:, okay] = ax[:, okay] / np.tile(anrm[okay], (3, 1))
-                ax[:, not okay] = np.tile(hperp, (1, npts - nokay))
+                ax[:, ~okay] = np.tile(hperp, (1, npts - nokay))
 
         q0 = np.vstack([np.zeros(npts), ax])
 
-- 
2.43.0


From 17c956515a155da2a83dea34b5015c3ce0c101a3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 095/104] fix: line positions are those of the rings merged
 within the given tolerance

---
 hexrd/core/instrument/hedm_instrument.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 3f4b33e..0c716e4 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2598,6 +2598,10 @@ def _extract_detector_line_positions(
 
     # !!! this is only needed if doing fitting
     if isinstance(plane_data, PlaneData):
+        # the rings are merged within tth_tol, if given
+        if tth_tol is not None:
+            plane_data = PlaneData(None, plane_data)
+            plane_data.tThWidth = np.radians(tth_tol)
         tth_idx, tth_ranges = plane_data.getMergedRanges(cullDupl=True)
         tth_ref = plane_data.getTTh()
         tth0 = [np.degrees(tth_ref[i]) for i in tth_idx]
-- 
2.43.0


From 2b610b24f8535cd1cb882092edfa96bd184068e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:33:06 +0000
Subject: [PATCH 096/104] fix: angles a full turn above the start of a range
 are inside it

---
 hexrd/core/transforms/new_capi/validate_angle_ranges.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/new_capi/validate_angle_ranges.c b/hexrd/core/transforms/new_capi/validate_angle_ranges.c
index d489672..6a77363 100644
--- a/hexrd/core/transforms/new_capi/validate_angle_ranges.c
+++ b/hexrd/core/transforms/new_capi/validate_angle_ranges.c
@@ -61,7 +61,8 @@ validate_angle_ranges(size_t na, double *aPtr, size_t nr, double *minPtr,
             while ( theta > 2.0*M_PI )
                 theta -= 2.0*M_PI;
 
-            if ( theta >= -sqrt_epsf && theta <= thetaMax+sqrt_epsf ) {
+            /* just below the start wraps to just below (or to) a full turn */
+            if ( theta <= thetaMax+sqrt_epsf || theta >= 2.0*M_PI-sqrt_epsf ) {
                 rPtr[i] = true;
 
                 /* No need to check other ranges */
-- 
2.43.0


From 0babccb2e8be47d09ddb1fce2cc5cd04460734ff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:38:06 +0000
Subject: [PATCH 097/104] fix: absorption length follows the lattice parameters
 and the energy of a cell

---
 hexrd/core/material/unitcell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index a5b397f..62036d2 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1453,6 +1453,7 @@ class unitcell:
         self.CalcMaxGIndex()
         if hasattr(self, "numat"):
             self.CalcDensity()
+            self.calc_absorption_length()
 
     @property
     def lparms_reduced(self):
@@ -1576,6 +1577,8 @@ class unitcell:
     def voltage(self, v):
         self._voltage = v
         self.CalcWavelength()
+        if hasattr(self, "density"):
+            self.calc_absorption_length()
 
     @property
     def wavelength(self):
-- 
2.43.0


From d17eb963b8b3e95203aa5b1e1b9aecb947bb027f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:38:06 +0000
Subject: [PATCH 098/104] fix: Euler angles in degrees given as a list

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 4260855..64cf8de 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -883,7 +883,7 @@ class RotMatEuler(object):
         """
         angs_in = self.angles
         if self.units == 'degrees':
-            angs_in = conversion_to_dict['radians'] * angs_in
+            angs_in = conversion_to_dict['radians'] * np.asarray(angs_in)
         self._rmat = make_rmat_euler(angs_in, self.axes_order, self.extrinsic)
         return self._rmat
 
-- 
2.43.0


From 175ab8597f19b3efee8a40e12156894ac127f974 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:03:28 +0000
Subject: [PATCH 099/104] fix: symmetric orientation kernel keeps the leading
 dimensions of its inputs

The documented result shape is the broadcast of both operands, but a
stack of one orientation against a single one gave a scalar when the
kernel has symmetry (and an array without).
---
 hexrd/phase_transition/texture/kernels.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hexrd/phase_transition/texture/kernels.py b/hexrd/phase_transition/texture/kernels.py
index c9c10a8..ed88fd6 100644
--- a/hexrd/phase_transition/texture/kernels.py
+++ b/hexrd/phase_transition/texture/kernels.py
@@ -438,9 +438,12 @@ class DeLaValleePoussinKernel(SO3Kernel):
                 total = total + self._kernel_values(omega)
 
         result = total / (sample_ops.shape[0] * crystal_ops.shape[0])
-        if result.ndim == 0:
+        # One operand holds a single orientation, possibly with leading
+        # dimensions of length one: they are part of the output shape.
+        output_shape = np.broadcast_shapes(R1.shape[:-2], R2.shape[:-2])
+        if output_shape == ():
             return float(result)
-        return result
+        return result.reshape(output_shape)
 
     def __repr__(self) -> str:
         """String representation of kernel."""
-- 
2.43.0


From 3c3d41a5badf874f488f38130bdb2fc92e0fb33a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:14:58 +0000
Subject: [PATCH 100/104] fix: cartesian vectors into the direct and reciprocal
 space of a phase

The two structure matrices were exchanged: transforming there and back
did not give the vector (compare unitcell.TransSpace).
---
 hexrd/powder/wppf/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 96a0bcd..763a6c5 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -678,9 +678,9 @@ class Material_Rietveld(Material_LeBail):
                 )
         elif inspace == 'c':
             if outspace == 'r':
-                v_out = np.dot(v_in, self.rsm)
-            elif outspace == 'd':
                 v_out = np.dot(v_in, self.dsm)
+            elif outspace == 'd':
+                v_out = np.dot(v_in, self.rsm)
             else:
                 raise ValueError(
                     'inspace in ' 'c' ' but outspace can' 't be identified'
-- 
2.43.0


From 98ab2b55316ad82b1a026fc4ee6faf455947a13a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:14:59 +0000
Subject: [PATCH 101/104] fix: the background set on a spectrum is subtracted

set_background and reset_background assigned an attribute that nothing
reads.
---
 hexrd/powder/wppf/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/spectrum.py b/hexrd/powder/wppf/spectrum.py
index fab744b..ab9a9f7 100644
--- a/hexrd/powder/wppf/spectrum.py
+++ b/hexrd/powder/wppf/spectrum.py
@@ -59,10 +59,10 @@ class Spectrum:
         np.savetxt(filename, data[0], header=header)
 
     def set_background(self, Spectrum):
-        self.bkg_spectrum = Spectrum
+        self.bkg_Spectrum = Spectrum
 
     def reset_background(self):
-        self.bkg_spectrum = None
+        self.bkg_Spectrum = None
 
     def set_smoothing(self, amount):
         self.smoothing = amount
-- 
2.43.0


From f4e593974fe6594b0347da3175c5f2c12f7bdbff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:14:59 +0000
Subject: [PATCH 102/104] fix: extinction of strong reflections in the Laue
 case

The asymptotic series is multiplied by the square root of 2 / (pi x), as
in Sabine's theory; with the square the factor jumped at x = 1.
---
 hexrd/powder/wppf/xtal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/xtal.py b/hexrd/powder/wppf/xtal.py
index acd6a9a..8fec94c 100644
--- a/hexrd/powder/wppf/xtal.py
+++ b/hexrd/powder/wppf/xtal.py
@@ -199,7 +199,7 @@ def _calc_laue_factor(x, tth):
     if x <= 1.0:
         El = 1.0 - 0.5 * x + 0.25 * x**2 - (5.0 / 48.0) * x**3 + (7.0 / 192.0) * x**4
     else:
-        El = (2.0 / np.pi / x) ** 2 * (
+        El = np.sqrt(2.0 / np.pi / x) * (
             1.0
             - (1 / 8.0 / x)
             - (3.0 / 128.0) * (1.0 / x) ** 2
-- 
2.43.0


From df4177702ca4c8b252bb5ab89792e29e8f593017 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:20:28 +0000
Subject: [PATCH 103/104] fix: anisotropic displacement parameters in the
 structure factor

The reciprocal lengths are per nanometre while the parameters are square
angstroms, so the exponent was a hundred times too large; it also kept the
lattice it was first computed with.
---
 hexrd/core/material/unitcell.py | 5 ++++-
 hexrd/powder/wppf/phase.py      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 62036d2..91d79d0 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -144,7 +144,8 @@ class unitcell:
                 [[U[0], U[3], U[4]], [U[3], U[1], U[5]], [U[4], U[5], U[2]]]
             )
 
-            self.betaij[:, :, i] *= 2.0 * np.pi**2 * self._aij
+            # U is in angstrom^2, the reciprocal lengths in nm^-1
+            self.betaij[:, :, i] *= 2.0 * np.pi**2 * self._aij * 1e-2
 
     def calcmatrices(self):
         a = self.a
@@ -835,6 +836,8 @@ class unitcell:
         occ = self.atom_pos[:, 3]
         aniU = self.aniU
         if aniU:
+            # the lattice may have changed
+            self.calcBetaij()
             betaij = self.betaij
         else:
             betaij = self.U
diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 763a6c5..dd181e4 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -619,7 +619,8 @@ class Material_Rietveld(Material_LeBail):
                 [[U[0], U[3], U[4]], [U[3], U[1], U[5]], [U[4], U[5], U[2]]]
             )
 
-            self.betaij[:, :, i] *= 2.0 * np.pi**2 * self.aij
+            # U is in angstrom^2, the reciprocal lengths in nm^-1
+            self.betaij[:, :, i] *= 2.0 * np.pi**2 * self.aij * 1e-2
 
     def CalcWavelength(self):
         # wavelength in nm
@@ -776,6 +777,8 @@ class Material_Rietveld(Material_LeBail):
         aniU = self.aniU
         occ = self.atom_pos[:, 3]
         if aniU:
+            # the lattice may have changed
+            self.calcBetaij()
             betaij = self.betaij
         else:
             betaij = self.U
-- 
2.43.0


From cd0375dcc1d958067c6db0a30ee5f5717ace7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:24 +0000
Subject: [PATCH 104/104] fix: sums and differences of spectra with as many
 points on different grids

---
 hexrd/powder/wppf/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/spectrum.py b/hexrd/powder/wppf/spectrum.py
index ab9a9f7..a5a05b6 100644
--- a/hexrd/powder/wppf/spectrum.py
+++ b/hexrd/powder/wppf/spectrum.py
@@ -267,7 +267,7 @@ class Spectrum:
         orig_x, orig_y = self.data
         other_x, other_y = other.data
 
-        if orig_x.shape != other_x.shape:
+        if not np.array_equal(orig_x, other_x):
             # todo different shape subtraction of spectra
             # seems the fail somehow...
             # the background will be interpolated
@@ -292,7 +292,7 @@ class Spectrum:
         orig_x, orig_y = self.data
         other_x, other_y = other.data
 
-        if orig_x.shape != other_x.shape:
+        if not np.array_equal(orig_x, other_x):
             # the background will be interpolated
             other_fcn = interp1d(other_x, other_y, kind='linear')
 
-- 
2.43.0

