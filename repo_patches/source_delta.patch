From fd7a85579271bd1469974acd1dd0124922f5fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 01/31] fix: return plain integer as the Fringe index

np.sign() made get_fringe_index() / osa2fringe() return numpy.int64, which is not
accepted back by fringe2osa() and by ZernPol(fringe_index=...).
---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5a03ed2..363a814 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -711,7 +711,7 @@ class ZernPol:
             Fringe index.
 
         """
-        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2
+        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + int(m < 0)
 
     @staticmethod
     def index2orders(**kwargs) -> tuple:
-- 
2.43.0


From e4bb017cad8d5e4f4b8b49fe7a139f057f55dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 02/31] fix: reject azimuthal orders with |m| > n

ZernPol(m=4, n=2) was accepted with indices of other polynomials and
ZernPol(m=-4, n=2) ran into infinite recursion on evaluation.
---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 363a814..a56bde6 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -117,6 +117,8 @@ class ZernPol:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n == 0 and self.__m != 0:
                                     raise ValueError("Failed sanity check: when n == 0, m should be also == 0")
+                                elif abs(self.__m) > self.__n:
+                                    raise ValueError("Failed sanity check: |m| should be not more than n")
                                 elif self.__n < 0:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n > 54:
-- 
2.43.0


From 809462f3dd985ee49f754d22aff93bd26e6ae0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 03/31] fix: do not return wrong orders for not found index

index2orders() and the methods converting indices silently returned the last searched
orders for an index outside the searched range (e.g. osa2noll(5000) == 1598).
---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index a56bde6..5bc12d4 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -758,6 +758,8 @@ class ZernPol:
                 m += 2
             if stop_search:
                 break
+        if not stop_search:
+            raise ValueError(f"The orders (m, n) haven't been found for the provided index: {kwargs}")
         return m, n
 
     @staticmethod
-- 
2.43.0


From 4932e2e14c680810a394fc1b4ab9e4d7f1b5c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 04/31] fix: make validation of steps for polar coordinates
 effective

The chained comparison could be never True, so wrong steps led to IndexError,
ZeroDivisionError or degenerate vectors instead of the documented ValueError.
---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5bc12d4..6fdad14 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1018,9 +1018,9 @@ class ZernPol:
             Theta - vector with theta angles values [0.0, theta_rad_step, ... 2*pi].
 
         """
-        if 0.0 >= r_step > 0.5:
+        if not 0.0 < r_step <= 0.5:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
-        if 0.0 >= theta_rad_step > np.pi:
+        if not 0.0 < theta_rad_step <= np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
         Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
-- 
2.43.0


From 7a250550a207758a221b27e6790f4f53e62a643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 05/31] fix: return new array from the radial polynomial of 1st
 order

The input array itself was returned, its modification changed the coordinates of a caller.
---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 65f2b67..fd63e79 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -114,7 +114,7 @@ def radial_polynomial(zernike_pol, r):
             return np.ones(shape=r.shape)
     # 1st order
     elif ((m == -1) and (n == 1)) or ((m == 1) and (n == 1)):
-        return r
+        return 1.0*r  # not the same array as the provided one
     # 2nd order
     elif ((m == -2) and (n == 2)) or ((m == 2) and (n == 2)):
         return np.power(r, 2)  # r^2
-- 
2.43.0


From c729d01d0fa23bb7bc5f4257dba5e37db70f5b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 06/31] fix: derivative of radial polynomials with m=0 and
 order higher than 38

Derivative of the product 2*r*R(1, n-1) should contain R(1, n-1) itself.
---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index fd63e79..8aa6615 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -547,7 +547,7 @@ def radial_polynomial_coeffs_dr(zernike_pol, r):
         if abs(m) == n:  # simplified recurrence formula from [3]
             r_sum = float(n)*np.power(r, n-1)
         elif m == 0:  # derivative from the simplified recurrence formula from [3]
-            r_sum = (2.0*(radial_polynomial_coeffs_dr((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
+            r_sum = (2.0*(radial_polynomial_coeffs((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
                      - radial_polynomial_coeffs_dr((0, n-2), r))
         elif abs(m) == n-2:  # derivative from my guess about overall equation
             r_sum = float(n)*float(n)*np.power(r, n-1) - float(n-1)*float(n-2)*np.power(r, n-3)
-- 
2.43.0


From b43ebc715f971b38c4970882969f787f315eb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 07/31] fix: accelerated calculation of polynomials with |m| ==
 n for n > 7

Only radial part was used for these polynomials, without the normalization factor and
the triangular function, so accelerated PSF kernels were wrong.
---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index c569a67..3957009 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -151,9 +151,9 @@ def zernpol_value(orders: tuple, r: Union[float, np.ndarray], theta: Union[float
         # 252r^10 - 630r^8 + 560r^6 - 210r^4 + 30r^2 - 1
         radial = 252.0*np.power(r, 10) - 630.0*np.power(r, 8) + 560.0*np.power(r, 6) - 210.0*np.power(r, 4) + 30.0*np.power(r, 2) - 1.0
     elif n > 7 and abs(m) == n:  # equation for high order polynomials (equal orders)
-        return np.power(r, n)
+        radial = np.power(r, n)
     elif n > 10 and abs(m) == n-2:  # equation for high order polynomials (orders with abs(m) == n-2)
-        return float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
+        radial = float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
     # Polynomial value as the multiplication of calculated above components
     return norm*triangular*radial
 
-- 
2.43.0


From 20383446dfa1bd93889b92822f84d5a1c542f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 08/31] fix: include all points to the Simpson integration rule
 on angle

The last even and the last odd nodes were skipped, a part of the pupil was not integrated
(e.g. 0.986711 instead of 1.0 for the center of not aberrated PSF).
---
 src/zernpy/calculations/calc_psfs.py       | 16 ++++++++--------
 src/zernpy/calculations/calc_psfs_numba.py |  8 ++++----
 src/zernpy/zernpsf.py                      |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 406d067..33f9bbf 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -217,9 +217,9 @@ def get_psf_point_r(zernike_pol, r: float, theta: float, alpha: float, n_int_r_p
     """
     # Integration on the pupil radius using Simpson equation
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    for i in range(2, n_int_phi_points-2, 2):
+    for i in range(2, n_int_phi_points, 2):
         phi = i*h_phi; even_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
-    for i in range(1, n_int_phi_points-1, 2):
+    for i in range(1, n_int_phi_points, 2):
         phi = i*h_phi; odd_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
     yA = radial_integral(zernike_pol, r, theta, 0.0, alpha, n_int_r_points)
     yB = radial_integral(zernike_pol, r, theta, 2.0*pi, alpha, n_int_r_points)
@@ -263,14 +263,14 @@ def get_psf_point_r_parallel(zernike_pol, r: float, theta: float, alpha: float,
 
     # Vectorized or parallelized form of for loop for even and odd phi-s
     if not joblib_installed or paralleljobs is None:
-        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
         even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
         odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     else:
         if paralleljobs is not None and isinstance(paralleljobs, Parallel):
-            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points-2, 2))
-            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points-1, 2))
+            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points, 2))
+            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points, 2))
             # even_sum = sum(even_sums, start=even_sum); odd_sum = sum(even_sums, start=odd_sum)
             even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums); odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
 
@@ -592,9 +592,9 @@ def get_psf_point_r_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     # Vectorized or parallelized form of for loop for even and odd phi-s
-    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols(polynomials, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 3957009..398ad0a 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -258,9 +258,9 @@ def get_psf_point_r_comp(orders: tuple, r: float, theta: float, alpha: float, n_
 
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_comp(orders, r, theta, 0.0, alpha, n_int_r_points)
@@ -541,10 +541,10 @@ def get_psf_point_r_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     even_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                 for i in range(2, n_int_phi_points-2, 2)]
+                 for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
     odd_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                for i in range(1, n_int_phi_points-1, 2)]
+                for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f7f937b..b7d8a0f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -694,13 +694,13 @@ class ZernPSF:
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
             constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
-            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points-2, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             # print("Forming params takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
             # t1 = time.perf_counter()
             even_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
             # print("Calculation takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
-            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points-1, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
         # Simpson integration rule implementation
-- 
2.43.0


From 5cf2aac177e0d8e50ba41e3204a21688ff8312bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 09/31] fix: do not count the pupil border twice in the
 trapezoidal rule

np.arange() with float step contains the additional node (1.0) for some numbers of
integration points (24, 27, 28, 54, ...), which is already accounted by the rule.
---
 src/zernpy/calculations/calc_psfs.py       | 6 +++---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 33f9bbf..b3ee082 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -129,7 +129,7 @@ def radial_integral(zernike_pol, r: float, theta: float, phi: float, alpha: floa
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -164,7 +164,7 @@ def radial_integral_args(phi: float, zernike_pol, r: float, theta: float, alpha:
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -558,7 +558,7 @@ def radial_integral_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols(polynomials, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols(polynomials, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols(polynomials, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 398ad0a..08f219c 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -221,7 +221,7 @@ def radial_integral_comp(orders: tuple, r: float, theta: float, phi: float, alph
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_comp(orders, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r_comp(orders, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_comp(orders, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -501,7 +501,7 @@ def radial_integral_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
-- 
2.43.0


From 6185e7c31ac196afd2f719bf851b44a9cd00e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 10/31] fix: raise documented ValueError for wrong polynomial
 provided to ZernPSF

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b7d8a0f..a277e43 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -120,6 +120,8 @@ class ZernPSF:
                 raise ValueError("Provided empty Sequence, expected - Sequence with the 'ZernPol' class instances")
             # Single element should be unpacked and used
             elif seq_length == 1:
+                if not isinstance(zernpol[0], ZernPol):
+                    raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
                 self.zernpol = zernpol[0]; m, n = self.zernpol.get_mn_orders()
                 if m == 0 and n == 0:
                     self.airy = True
@@ -145,7 +147,7 @@ class ZernPSF:
                 else:
                     raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
         else:
-            ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
+            raise ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
 
     # %% Set properties
     def set_physical_props(self, NA: float, wavelength: float, expansion_coeff: Union[float, Sequence[float]], pixel_physical_size: float):
-- 
2.43.0


From 1c8826998c4e3a3e4baa9a4f0b51a01c4b1d3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 11/31] fix: raise documented ValueError for zero NA instead of
 ZeroDivisionError

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index a277e43..80760e9 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -187,7 +187,7 @@ class ZernPSF:
 
         """
         # Sanity check for NA
-        if NA < 0.0 or NA > 1.7:
+        if NA <= 0.0 or NA > 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
         if wavelength <= 0.0:
-- 
2.43.0


From 4f4f2724f03156a411a4abf39e563e0dcd31d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 12/31] fix: calculate angular frequency from the provided
 wavelength

It was computed from the previously stored wavelength.
---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 80760e9..a539063 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,8 +192,8 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
         self.NA = NA; self.wavelength = wavelength  # save as the class properties
+        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
         self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
-- 
2.43.0


From 4063bc74cc9d2261223bc16ff6b814d2f524aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 13/31] fix: do not change PSF kernel size by the flag for
 suppressing warnings

Without set physical properties the default size (19) was assigned only if warnings were
not suppressed, also overwriting the size set by set_calculation_props().
---
 src/zernpy/zernpsf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index a539063..e591be7 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -370,9 +370,12 @@ class ZernPSF:
         """
         if len(self.__warn_message) > 0 and not suppress_warnings:
             warnings.warn(self.__warn_message)
-        if not self.__physical_props_set and not suppress_warnings:
-            self.kernel_size = 19; self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
-            warnings.warn(self.__warn_message); self.__warn_message = ""
+        if not self.__physical_props_set:
+            if self.kernel_size < 3:  # kernel size hasn't been set before
+                self.kernel_size = 19
+            if not suppress_warnings:
+                self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
+                warnings.warn(self.__warn_message); self.__warn_message = ""
         global numba_installed  # access the flag
         # Check provided flag
         if numba_installed and accelerated is None:
-- 
2.43.0


From 64b73e098b3449281e78a5d05a33a0b25f4ad3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 14/31] fix: convolution of a blank image

Scaling of zero image to the original intensity returned NaN values.
---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index b3ee082..dfd5841 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -729,7 +729,8 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         convolved_img /= conv_coeff  # correct the convolution result by dividing to the kernel sum
     if scale2original:
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
-        scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+        if max_conv_pixel != 0.0:  # blank image cannot be scaled
+            scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From 18312d19d98edba89cd958602a14e048842019e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 15/31] fix: accept string path in save_json()

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index e591be7..6009ab2 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -573,7 +573,7 @@ class ZernPSF:
         """
         if abs_path is None:
             abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
-        if not Path.exists(abs_path):
+        if not Path(abs_path).exists():
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
             abs_path = str(abs_path)  # convert to the expected string format
-- 
2.43.0


From 574669eeb136eefc5b6a3b6f42924d29a7e506c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 16/31] fix: keep the default folder for repeated calls of
 save_json()

After the first call the path to the saved file was used as the root folder.
---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 6009ab2..d7dd64c 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -572,7 +572,7 @@ class ZernPSF:
 
         """
         if abs_path is None:
-            abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
+            abs_path = Path(__file__).parent.absolute().joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
         if not Path(abs_path).exists():
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
-- 
2.43.0


From 2be948fb6ba544a5f3b7549d6db14b3882693b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 17/31] fix: restore saved state completely by read_json()

Kernel size was replaced by the estimated one, the flag for Airy pattern and previously
stored polynomials were not reset for a single read polynomial.
---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index d7dd64c..f41bdf3 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -638,6 +638,7 @@ class ZernPSF:
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
                     osa_index = item; self.zernpol = ZernPol(osa=osa_index)
+                    self.airy = osa_index == 0; self.polynomials = ()
                 elif key == "Polynomials":
                     osa_indices = item; pols = []; pols_len = len(osa_indices)
                     if pols_len == 1:
@@ -653,6 +654,7 @@ class ZernPSF:
             # Assign read physical properties
             if read_props == 8:
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                self.kernel_size = json_data["Kernel Size"]  # restore, because it is estimated again by the call above
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From 7c6b88e60a1a179b4962ae1fc3f1328dfe5b34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 18/31] fix: do not share workers between instances of
 DispenserManager

Lists with workers were stored in the class, the second instance (also after closing the
first one) assigned jobs to released workers and waited for their results forever.
---
 src/zernpy/utils/intmproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 84107fe..503f4cf 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -54,6 +54,7 @@ class DispenserManager():
 
         """
         self.verbose_info = verbose_info
+        self.__workers_pool = []; self.__triggers = []; self.__queues = []  # not shared between instances
         if self.verbose_info:
             t1 = time.perf_counter(); self.done_jobs_percentage = 0
         # Checking input parameters - workers
-- 
2.43.0


From 909de61d0ba21ea43f33ccaec7bafb858a9839e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 19/31] fix: provide NA for estimation of kernel size in
 get_kernel_parallel()

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f41bdf3..55b7053 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -735,7 +735,7 @@ class ZernPSF:
         """
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-                                               wavelength=self.wavelength)
+                                               wavelength=self.wavelength, NA=self.NA)
         if self.zernpol is None:
             self.kernel_size = 3
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
-- 
2.43.0


From 2ff99f2acda062f12a36e64873217d4cf13ac29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 20/31] fix: limit length of the file name composed for saving
 PSF

Saving of PSF with ~20 and more polynomials failed with OSError (file name too long).
---
 src/zernpy/calculations/calc_psfs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index dfd5841..0050977 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -15,6 +15,7 @@ import warnings
 from math import sqrt, pi, e
 import time
 from scipy.ndimage import convolve
+import hashlib
 import json
 from matplotlib.patches import Circle
 from functools import partial
@@ -801,6 +802,9 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
             json_file_path = saved_psfs_folder.joinpath(f"psf_{(m, n)}_{expansion_coefficient}.json")
         else:
             json_file_path = saved_psfs_folder.joinpath(f"psf_{osa_indices}_{expansion_coefficient}.json")
+    if len(json_file_path.name) > 255:  # longer file names aren't supported by the common file systems
+        name_hash = hashlib.sha256(json_file_path.name.encode()).hexdigest()
+        json_file_path = saved_psfs_folder.joinpath(f"{json_file_path.stem[:180]}_{name_hash}.json")
     # Data composing for recording
     data4serialization = {}   # python dictionary is similar to the JSON file structure and can be dumped directly there
     data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = NA; data4serialization['Wavelength'] = wavelength
-- 
2.43.0


From 23f3a5215110e0b2348178dd87e03be4d139b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 21/31] fix: keep the settings unchanged if the provided ones
 are rejected

---
 src/zernpy/zernpsf.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 55b7053..9bcdbaf 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,17 +192,14 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.NA = NA; self.wavelength = wavelength  # save as the class properties
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
-        self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-        self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
+        pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
+        pixel_size_nyquist_eStr = "{:.3e}".format(pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
         if pixel_physical_size <= 0.0:
             raise ValueError("Pixel physical size should be positive real number")
-        if pixel_physical_size > self.pixel_size_nyquist:
-            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {self.pixel_size_nyquist_eStr}"
+        if pixel_physical_size > pixel_size_nyquist:
+            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {pixel_size_nyquist_eStr}"
                              + f" computed from the Abbe's resolution limit (0.5*{lambda_char}/NA)")
-        self.pixel_size = pixel_physical_size
         # Check which type is provided as the expansion_coeff parameter
         if hasattr(expansion_coeff, '__len__'):
             coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
@@ -213,7 +210,7 @@ class ZernPSF:
                     self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
                     if len(self.__warn_message) > 0:
                         warnings.warn(self.__warn_message); self.__warn_message = ""
-                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
                 else:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
@@ -224,7 +221,7 @@ class ZernPSF:
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
                 if len(self.__warn_message) > 0:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
-                self.amplitudes = self.coefficients / self.wavelength
+                self.amplitudes = self.coefficients / wavelength
         else:
             # Check consistency of provided type of polynomials and coefficients
             if self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
@@ -237,7 +234,11 @@ class ZernPSF:
             self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
             if len(self.__warn_message) > 0:
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
+        # Save as the class properties only after all checks above, rejected parameters shouldn't be partially saved
+        self.NA = NA; self.wavelength = wavelength; self.pixel_size = pixel_physical_size
+        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
+        self.pixel_size_nyquist = pixel_size_nyquist; self.pixel_size_nyquist_eStr = pixel_size_nyquist_eStr
         # Kernel size estimation (could be changed explicitly in the method 'set_calculation_props'). Redefine it for each call
         if self.zernpol is not None:  # for single polynomial
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
@@ -306,12 +307,12 @@ class ZernPSF:
         else:
             self.__warn_message = "Please set the physical properties first for estimation of kernel size and after call this method"
             warnings.warn(self.__warn_message); self.__warn_message = ""
-        self.kernel_size = kernel_size  # overwrite stored property, show before all warnings if kernel size is inconsistent
         # Sanity checks for n_integration_points_r and n_integration_points_phi
         if n_integration_points_r < 20:
             raise ValueError("# of integration points for radius should be not less than 20")
         if n_integration_points_phi < 36:
             raise ValueError("# of integration points for angle phi should be not less than 36")
+        self.kernel_size = kernel_size  # overwrite stored property, show before all warnings if kernel size is inconsistent
         self.n_int_r_points = n_integration_points_r; self.n_int_phi_points = n_integration_points_phi
         # Associated with slow calculations warnings
         if n_integration_points_r > 500 and n_integration_points_phi > 400:
-- 
2.43.0


From dc408a567eab6accb994451bffadbef34c41f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 22/31] fix: convert arrays with integers to floats before
 calculations

---
 src/zernpy/zernikepol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 6fdad14..1354ffb 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1282,6 +1282,9 @@ class ZernPol:
                 radii = np.asarray(radii)  # convert list or tuple to np.array
             else:
                 radii = float(radii)  # attempt to convert r to float number, will raise ValueError if it's impossible
+        # Conversion of integers for preventing overflow of small types (e.g., uint8) in the calculations
+        if isinstance(radii, np.ndarray) and radii.dtype.kind in "iu":
+            radii = radii.astype(float)
         # Checking that radii or radius lie in the range [0.0, 1.0]
         if isinstance(radii, np.ndarray):
             if np.min(radii) < 0.0 or np.max(radii) > 1.0:
@@ -1321,6 +1324,9 @@ class ZernPol:
                 angles = np.asarray(angles)  # convert list or tuple to np.array
             else:
                 angles = float(angles)  # attempt to convert to float number, will raise ValueError if it's impossible
+        # Conversion of integers for preventing overflow of small types (e.g., uint8) in the calculations
+        if isinstance(angles, np.ndarray) and angles.dtype.kind in "iu":
+            angles = angles.astype(float)
         # Checking that angles lie in the range [0, 2*pi]
         if isinstance(angles, np.ndarray):
             if np.max(angles) - np.min(angles) > 2.0*np.pi:
-- 
2.43.0


From 4ca137719b06670e943fb8bf3303eb499a5168e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 23/31] fix: copy provided sequences with polynomials and
 coefficients in ZernPSF

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 9bcdbaf..1eb605f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -139,7 +139,7 @@ class ZernPSF:
                         if m == 0 and n == 0:
                             self.airy = True  # check if Airy pattern is among provided polynomials
                 if all_are_polls:
-                    self.polynomials = zernpol; self.zernpol = None
+                    self.polynomials = tuple(zernpol); self.zernpol = None  # copied for preventing changes of the Sequence outside
                     unique_osa_orders = set(osa_orders)  # check that all OSA orders are unique
                     if len(osa_orders) > len(unique_osa_orders):
                         raise ValueError("There might be some repeated polynomials provided, "
@@ -215,7 +215,7 @@ class ZernPSF:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                self.coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                self.coefficients = np.array(expansion_coeff)  # conversion to efficient array format, copied for preventing outer changes
                 # Sanity check for the maximum expansion coefficient of the polynomial
                 max_module_coeff = max(np.max(self.coefficients), abs(np.min(self.coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
-- 
2.43.0


From e63f80bfa5f75f7c572db0102a7408fc4925795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 24/31] fix: save PSF with properties provided as numpy numbers

---
 src/zernpy/calculations/calc_psfs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 0050977..440c4cd 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -807,9 +807,11 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
         json_file_path = saved_psfs_folder.joinpath(f"{json_file_path.stem[:180]}_{name_hash}.json")
     # Data composing for recording
     data4serialization = {}   # python dictionary is similar to the JSON file structure and can be dumped directly there
-    data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = NA; data4serialization['Wavelength'] = wavelength
-    data4serialization["Pixel Size"] = pixel_size; data4serialization["Kernel Size"] = kernel_size
-    data4serialization["# of integration points R"] = n_int_points_r; data4serialization["# of integration points angle"] = n_int_points_phi
+    # Explicit conversions, because numpy scalars (e.g., numpy.int64, numpy.float32) aren't serializable by the json library
+    data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = float(NA)
+    data4serialization['Wavelength'] = float(wavelength); data4serialization["Pixel Size"] = float(pixel_size)
+    data4serialization["Kernel Size"] = int(kernel_size); data4serialization["# of integration points R"] = int(n_int_points_r)
+    data4serialization["# of integration points angle"] = int(n_int_points_phi)
     if single_pol_used:
         data4serialization["Expansion Coefficient"] = expansion_coefficient; data4serialization["Polynomial"] = zernike_pol.get_indices()[1]
     else:
-- 
2.43.0


From a0297749b0f1d185d24878a33f549355a1f98244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 25/31] fix: coefficients of radial derivatives for orders
 below 9 in recursive search

---
 src/zernpy/calculations/find_pols_coeffs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/find_pols_coeffs.py b/src/zernpy/calculations/find_pols_coeffs.py
index 02f7753..e194660 100644
--- a/src/zernpy/calculations/find_pols_coeffs.py
+++ b/src/zernpy/calculations/find_pols_coeffs.py
@@ -211,8 +211,12 @@ def check_special_orders_dr(orders: tuple) -> dict:
     """
     special_coefficients = None
     m, n = orders
-    if abs(m) == n:
+    if n == 0:
+        special_coefficients = make_orders_coeffs({}, 0)  # derivative of the constant (piston)
+    elif abs(m) == n:
         special_coefficients = make_orders_coeffs({n-1: n}, n-1)
+    elif m == 0 and n == 2:
+        special_coefficients = make_orders_coeffs({1: 4}, 1)  # the second term of the equation below vanishes along with its negative power
     elif abs(m) == n-2:
         special_coefficients = make_orders_coeffs({n-1: n*n, n-3: -(n-1)*(n-2)}, n-1)
     return special_coefficients
-- 
2.43.0


From 165c1bb342e302ad892c7d57e78659ae05c7226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 26/31] fix: cropped image is 0 outside of the circle also for
 infinite and NaN pixels

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 1354ffb..ab87639 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1552,7 +1552,7 @@ def fit_polynomials(phases_image: np.ndarray, polynomials: tuple, crop_radius: f
     zernike_coefficients = np.zeros(shape=(len(polynomials), ))
     logic_mask, cropped_phases_coordinates = crop_phases_img(phases_image, crop_radius, suppress_warnings, strict_circle_border)
     if return_cropped_image:
-        cropped_image = logic_mask*phases_image  # for debugging
+        cropped_image = np.where(logic_mask, phases_image, np.zeros_like(phases_image))  # for debugging
     zernike_coefficients = fit_zernikes(cropped_phases_coordinates, polynomials)
     zernike_coefficients = np.round(zernike_coefficients, round_digits)
     if return_cropped_image:
-- 
2.43.0


From 31f1cdfaf1881026e157f86dd25064ee6bfb6711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:02 +0000
Subject: [PATCH 27/31] fix: mesh with the same number of radii and angles is
 fitted, inconsistent number of phases is refused

---
 src/zernpy/calculations/fit_zernike_pols.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/fit_zernike_pols.py b/src/zernpy/calculations/fit_zernike_pols.py
index 77144a7..800d5a8 100644
--- a/src/zernpy/calculations/fit_zernike_pols.py
+++ b/src/zernpy/calculations/fit_zernike_pols.py
@@ -199,10 +199,12 @@ def fit_zernikes(phases_coordinates_vectors: tuple, polynomials: tuple) -> np.nd
     if len(polynomials) > 0:
         # Calculation of Zernike polynomials values in the polar coordinates composed in radii, thetas vectors
         for j in range(len(polynomials)):
-            if cropped_radii_vector.shape[0] == cropped_thetas_vector.shape[0]:
+            if cropped_radii_vector.shape[0] == cropped_thetas_vector.shape[0] == vector_length:
                 zernike_values[:, j] = polynomials[j].polynomial_value(cropped_radii_vector, cropped_thetas_vector)
             else:
                 thetas_length = cropped_thetas_vector.shape[0]
+                if cropped_radii_vector.shape[0]*thetas_length != vector_length:
+                    raise ValueError("Number of phases isn't equal to the number of points or nodes of the mesh of radii and thetas")
                 for i in range(cropped_radii_vector.shape[0]):
                     zernike_values[i*thetas_length:(i+1)*thetas_length, j] = polynomials[j].polynomial_value(cropped_radii_vector[i],
                                                                                                              cropped_thetas_vector)
-- 
2.43.0


From 1a8f809e85eaf799606c982b42a43ffd2f18e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:00 +0000
Subject: [PATCH 28/31] fix: announce completed computation only after all jobs
 are done

---
 src/zernpy/utils/intmproc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 503f4cf..fcab848 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -157,8 +157,10 @@ class DispenserManager():
                 if self.verbose_info:
                     # print(f"Remained computations: {len(self.__results) - computed_tasks}")
                     done_jobs_percent = int(round(100.0*(computed_tasks/len(self.__results)), 0))
-                    if done_jobs_percent >= 100 or len(self.__results) == computed_tasks:
+                    if len(self.__results) == computed_tasks:
                         done_jobs_percent = 100; print("Computation completed")
+                    elif done_jobs_percent >= 100:
+                        done_jobs_percent = 99  # rounded up, but some computations haven't been completed yet
                     if self.done_jobs_percentage == 0 and done_jobs_percent >= 10:
                         self.done_jobs_percentage = done_jobs_percent
                         print(f"Done {done_jobs_percent}% of calculations")
-- 
2.43.0


From 7096ef56b551be172ee5359354549bc4f3196925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:00 +0000
Subject: [PATCH 29/31] fix: report the actual number of polynomials used for
 comparison of performances

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index ab87639..fccde82 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1648,7 +1648,7 @@ def compare_performances(min_order: int, max_order: int) -> tuple:
         polynomial.radial(test_r, use_exact_eq=True)  # calculate radial polynomials over vector of radii
     t2 = time.perf_counter()
     t_exact_ms = round(1000*(t2-t1), 3)
-    return (t_recursive_ms, t_exact_ms, f"Used polynomials: {i}", f"Radii: {n_points}")
+    return (t_recursive_ms, t_exact_ms, f"Used polynomials: {len(zernpols)}", f"Radii: {n_points}")
 
 
 def _estimate_high_order_calc_times():
-- 
2.43.0


From 74b3ff009817c9eac2bff4b13b568206635606ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 30/31] fix: keep stored coefficients if provided ones are
 rejected because of their type

---
 src/zernpy/zernpsf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 1eb605f..31fadbf 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -215,13 +215,14 @@ class ZernPSF:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                self.coefficients = np.array(expansion_coeff)  # conversion to efficient array format, copied for preventing outer changes
+                coefficients = np.array(expansion_coeff)  # conversion to efficient array format, copied for preventing outer changes
                 # Sanity check for the maximum expansion coefficient of the polynomial
-                max_module_coeff = max(np.max(self.coefficients), abs(np.min(self.coefficients)))
+                max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
                 if len(self.__warn_message) > 0:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
-                self.amplitudes = self.coefficients / wavelength
+                amplitudes = coefficients / wavelength
+                self.coefficients = coefficients; self.amplitudes = amplitudes  # saved only after all conversions and checks above
         else:
             # Check consistency of provided type of polynomials and coefficients
             if self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
-- 
2.43.0


From a8ab7c6fe53a3afe1da5d4be7307364f7e438c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 31/31] fix: report repeated polynomials for fitting in the
 error message instead of printing them

---
 src/zernpy/calculations/fit_zernike_pols.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/fit_zernike_pols.py b/src/zernpy/calculations/fit_zernike_pols.py
index 800d5a8..4b8f832 100644
--- a/src/zernpy/calculations/fit_zernike_pols.py
+++ b/src/zernpy/calculations/fit_zernike_pols.py
@@ -191,8 +191,7 @@ def fit_zernikes(phases_coordinates_vectors: tuple, polynomials: tuple) -> np.nd
             provided_orders.append(polynomial.get_mn_orders())
         set_provided_orders = set(provided_orders)  # filter out if there is any repeated polynomials provided
         if len(set_provided_orders) != len(provided_orders):
-            print(set_provided_orders, provided_orders)
-            raise ValueError("Provided repeated polynomials")
+            raise ValueError(f"Provided repeated polynomials, their orders: {provided_orders}")
     else:
         raise ValueError("Provided zero length tuple with polynomials")
     # Checking the length of provided tuple with polynomials
-- 
2.43.0

