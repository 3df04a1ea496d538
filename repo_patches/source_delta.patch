From 7c1be31db745e445eaa46c847306fa3bcf001ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 01/45] fix: get_fringe_index returns a plain int, so that its
 result is accepted as an index again

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5a03ed2..e272ba1 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -711,7 +711,7 @@ class ZernPol:
             Fringe index.
 
         """
-        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2
+        return int((1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2)
 
     @staticmethod
     def index2orders(**kwargs) -> tuple:
-- 
2.43.0


From 779ae3136f05e59a56457425bce966cfa77f7ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 02/45] fix: reject orders with |m| > n, they do not define any
 Zernike polynomial

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index e272ba1..0287596 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -117,8 +117,8 @@ class ZernPol:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n == 0 and self.__m != 0:
                                     raise ValueError("Failed sanity check: when n == 0, m should be also == 0")
-                                elif self.__n < 0:
-                                    raise ValueError("Failed sanity check: order n less than 0")
+                                elif abs(self.__m) > self.__n:
+                                    raise ValueError("Failed sanity check: |m| should be not more than n")
                                 elif self.__n > 54:
                                     raise ValueError("Initialization of Zernike with radial order higher than 54"
                                                      + " is meaningless because of very slow calculation performance")
-- 
2.43.0


From cf9440ad499b634b5b64fd8ce84dada0253a28b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 03/45] fix: index2orders raises ValueError instead of
 returning wrong orders for an index it cannot find

---
 src/zernpy/zernikepol.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 0287596..b35ba2c 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -723,6 +723,11 @@ class ZernPol:
         **kwargs : dict
             Recognizable values: osa_index, noll_index, fringe_index.
 
+        Raises
+        ------
+        ValueError
+            If the provided index isn't recognized or there is no polynomial with this index in the supported range.
+
         Returns
         -------
         tuple
@@ -756,6 +761,8 @@ class ZernPol:
                 m += 2
             if stop_search:
                 break
+        if not stop_search:
+            raise ValueError(f"Provided index isn't recognized or lies outside of the supported range: {kwargs}")
         return m, n
 
     @staticmethod
-- 
2.43.0


From b243f824f64b8dcc10f08d241c5560d1d8fe8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 04/45] fix: derivative of radial polynomials with m == 0 and n
 > 39 (product rule of the recurrence)

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 65f2b67..e636aa3 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -547,7 +547,7 @@ def radial_polynomial_coeffs_dr(zernike_pol, r):
         if abs(m) == n:  # simplified recurrence formula from [3]
             r_sum = float(n)*np.power(r, n-1)
         elif m == 0:  # derivative from the simplified recurrence formula from [3]
-            r_sum = (2.0*(radial_polynomial_coeffs_dr((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
+            r_sum = (2.0*(radial_polynomial_coeffs((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
                      - radial_polynomial_coeffs_dr((0, n-2), r))
         elif abs(m) == n-2:  # derivative from my guess about overall equation
             r_sum = float(n)*float(n)*np.power(r, n-1) - float(n-1)*float(n-2)*np.power(r, n-3)
-- 
2.43.0


From 5552eadec3e739697603dd44dc04f0b93b137888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 05/45] fix: 1st order radial polynomial returns a new array
 and not the provided array of radii itself

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index e636aa3..f9bb227 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -114,7 +114,7 @@ def radial_polynomial(zernike_pol, r):
             return np.ones(shape=r.shape)
     # 1st order
     elif ((m == -1) and (n == 1)) or ((m == 1) and (n == 1)):
-        return r
+        return 1.0*r
     # 2nd order
     elif ((m == -2) and (n == 2)) or ((m == 2) and (n == 2)):
         return np.power(r, 2)  # r^2
-- 
2.43.0


From f70ebe77f6577d595b879399bb5f4a4093fa3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 06/45] fix: accelerated PSF of polynomials with |m| == n, n >
 7 (angular part and norm were lost) and of n > 10 with |m| in (n, n-2)

---
 src/zernpy/calculations/calc_psfs_numba.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index c569a67..de51ffe 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -151,9 +151,9 @@ def zernpol_value(orders: tuple, r: Union[float, np.ndarray], theta: Union[float
         # 252r^10 - 630r^8 + 560r^6 - 210r^4 + 30r^2 - 1
         radial = 252.0*np.power(r, 10) - 630.0*np.power(r, 8) + 560.0*np.power(r, 6) - 210.0*np.power(r, 4) + 30.0*np.power(r, 2) - 1.0
     elif n > 7 and abs(m) == n:  # equation for high order polynomials (equal orders)
-        return np.power(r, n)
+        radial = np.power(r, n)
     elif n > 10 and abs(m) == n-2:  # equation for high order polynomials (orders with abs(m) == n-2)
-        return float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
+        radial = float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
     # Polynomial value as the multiplication of calculated above components
     return norm*triangular*radial
 
@@ -311,7 +311,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
     Raises
     ------
     ValueError
-        If the Zernike polynomial has the radial order > 10 and (abs(m) != n or abs(m) != n-2).
+        If the Zernike polynomial has the radial order > 10 and (abs(m) != n and abs(m) != n-2).
 
     Returns
     -------
@@ -334,7 +334,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
     if not hasattr(zernike_pol, "__len__") and isinstance(alpha, float):
         alpha /= wavelength  # normalize to wavelength (physical units)
         m, n = zernike_pol.get_mn_orders(); single_polynomial_provided = True
-        if n > 10 and (abs(m) != n or abs(m) != n-2):
+        if n > 10 and (abs(m) != n and abs(m) != n-2):
             raise ValueError(f"The calculation PSF function isn't implemented for these orders: {m, n}")
     else:
         if not isinstance(alpha, np.ndarray):
@@ -342,7 +342,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
         polynomials_orders = []  # for checking and providing for further compilation polynomials in a tuple
         for pol in zernike_pol:
             m, n = pol.get_mn_orders(); polynomials_orders.append((m, n))
-            if n > 10 and (abs(m) != n or abs(m) != n-2):
+            if n > 10 and (abs(m) != n and abs(m) != n-2):
                 raise ValueError(f"The calculation PSF function isn't implemented for these orders: {m, n}")
         polynomials_orders = tuple(polynomials_orders)  # convert list to tuple
     # Check that the calibration coefficient is sufficient for calculation
-- 
2.43.0


From 8c700dd7cc3bcec4edbc2c220912e2c71a850a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 07/45] fix: Simpson rule for the pupil angle omitted the last
 even and odd points (PSF peak was 0.9867 instead of 1.0)

---
 src/zernpy/calculations/calc_psfs.py       | 18 ++++++++----------
 src/zernpy/calculations/calc_psfs_numba.py |  8 ++++----
 src/zernpy/zernpsf.py                      |  4 ++--
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 406d067..a1b48b0 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -63,8 +63,6 @@ def airy_ref_pattern(r: float):
         ratio = jv(1, 1E-11)/1E-11
     else:
         ratio = jv(1, r)/r
-    # NOTE that the values produced by exact equation below is off with the direct computation of diffraction integral
-    # apporoximate coefficient is 0.986711 for a central point. Most likely, the difference because of numerical integration
     return 4.0*pow(ratio, 2)
 
 
@@ -217,9 +215,9 @@ def get_psf_point_r(zernike_pol, r: float, theta: float, alpha: float, n_int_r_p
     """
     # Integration on the pupil radius using Simpson equation
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    for i in range(2, n_int_phi_points-2, 2):
+    for i in range(2, n_int_phi_points, 2):
         phi = i*h_phi; even_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
-    for i in range(1, n_int_phi_points-1, 2):
+    for i in range(1, n_int_phi_points, 2):
         phi = i*h_phi; odd_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
     yA = radial_integral(zernike_pol, r, theta, 0.0, alpha, n_int_r_points)
     yB = radial_integral(zernike_pol, r, theta, 2.0*pi, alpha, n_int_r_points)
@@ -263,14 +261,14 @@ def get_psf_point_r_parallel(zernike_pol, r: float, theta: float, alpha: float,
 
     # Vectorized or parallelized form of for loop for even and odd phi-s
     if not joblib_installed or paralleljobs is None:
-        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
         even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
         odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     else:
         if paralleljobs is not None and isinstance(paralleljobs, Parallel):
-            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points-2, 2))
-            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points-1, 2))
+            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points, 2))
+            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points, 2))
             # even_sum = sum(even_sums, start=even_sum); odd_sum = sum(even_sums, start=odd_sum)
             even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums); odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
 
@@ -592,9 +590,9 @@ def get_psf_point_r_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     # Vectorized or parallelized form of for loop for even and odd phi-s
-    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols(polynomials, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index de51ffe..bed9805 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -258,9 +258,9 @@ def get_psf_point_r_comp(orders: tuple, r: float, theta: float, alpha: float, n_
 
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_comp(orders, r, theta, 0.0, alpha, n_int_r_points)
@@ -541,10 +541,10 @@ def get_psf_point_r_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
     """
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     even_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                 for i in range(2, n_int_phi_points-2, 2)]
+                 for i in range(2, n_int_phi_points, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
     odd_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                for i in range(1, n_int_phi_points-1, 2)]
+                for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f7f937b..b7d8a0f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -694,13 +694,13 @@ class ZernPSF:
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
             constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
-            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points-2, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             # print("Forming params takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
             # t1 = time.perf_counter()
             even_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
             # print("Calculation takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
-            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points-1, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
         # Simpson integration rule implementation
-- 
2.43.0


From d7f9aabeb3197643d7cac3b0a10eff5213e424fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 08/45] fix: trapezoidal rule for the pupil radius got an extra
 point for some # of points because of rounding in np.arange

---
 src/zernpy/calculations/calc_psfs.py       | 6 +++---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index a1b48b0..fed4938 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -127,7 +127,7 @@ def radial_integral(zernike_pol, r: float, theta: float, phi: float, alpha: floa
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -162,7 +162,7 @@ def radial_integral_args(phi: float, zernike_pol, r: float, theta: float, alpha:
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -556,7 +556,7 @@ def radial_integral_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols(polynomials, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols(polynomials, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols(polynomials, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index bed9805..4342e8e 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -221,7 +221,7 @@ def radial_integral_comp(orders: tuple, r: float, theta: float, phi: float, alph
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_comp(orders, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r_comp(orders, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_comp(orders, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -501,7 +501,7 @@ def radial_integral_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
-- 
2.43.0


From f01ee59b225e6170b21d3880f577c80060020c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 09/45] fix: ZernPSF raises the documented ValueError for a not
 ZernPol input instead of silently using Piston

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b7d8a0f..f96238f 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -120,6 +120,8 @@ class ZernPSF:
                 raise ValueError("Provided empty Sequence, expected - Sequence with the 'ZernPol' class instances")
             # Single element should be unpacked and used
             elif seq_length == 1:
+                if not isinstance(zernpol[0], ZernPol):
+                    raise ValueError("Object in the provided Sequence isn't an instance of the 'ZernPol' class")
                 self.zernpol = zernpol[0]; m, n = self.zernpol.get_mn_orders()
                 if m == 0 and n == 0:
                     self.airy = True
@@ -145,7 +147,7 @@ class ZernPSF:
                 else:
                     raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
         else:
-            ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
+            raise ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
 
     # %% Set properties
     def set_physical_props(self, NA: float, wavelength: float, expansion_coeff: Union[float, Sequence[float]], pixel_physical_size: float):
-- 
2.43.0


From 9b3308f071f95901e8d332141d17adcc9cbe96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 10/45] fix: set_physical_props calculates angular frequency
 from the provided and not from the previous wavelength

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f96238f..f4bb9c7 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,8 +192,8 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
         self.NA = NA; self.wavelength = wavelength  # save as the class properties
+        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
         self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
-- 
2.43.0


From 18f60094f4d45d9e285d82dab5cc26f4f0a410c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 11/45] fix: NA = 0.0 is rejected with ValueError, as its range
 is documented, instead of ZeroDivisionError

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f4bb9c7..198faa9 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -187,7 +187,7 @@ class ZernPSF:
 
         """
         # Sanity check for NA
-        if NA < 0.0 or NA > 1.7:
+        if NA <= 0.0 or NA > 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
         if wavelength <= 0.0:
-- 
2.43.0


From 43be4d4992e6c6103f5eeac8da618e071745041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 12/45] fix: odd # of integration points for the angle is
 rounded up, because the Simpson rule needs an even one

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 198faa9..ae8171a 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -312,6 +312,8 @@ class ZernPSF:
             raise ValueError("# of integration points for radius should be not less than 20")
         if n_integration_points_phi < 36:
             raise ValueError("# of integration points for angle phi should be not less than 36")
+        if n_integration_points_phi % 2 != 0:
+            n_integration_points_phi += 1; print("Note that # of integration points for angle phi should be even for Simpson rule")
         self.n_int_r_points = n_integration_points_r; self.n_int_phi_points = n_integration_points_phi
         # Associated with slow calculations warnings
         if n_integration_points_r > 500 and n_integration_points_phi > 400:
-- 
2.43.0


From 0f3157b6afc8652ad2c99be8b8a99f089ceb4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 13/45] fix: workers of ZernPSF could not be initialized again
 after deinitialize_workers()

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index ae8171a..4292eca 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -763,7 +763,7 @@ class ZernPSF:
 
         """
         if self.__ParallelCalc is not None:
-            self.__ParallelCalc.close()
+            self.__ParallelCalc.close(); self.__ParallelCalc = None  # allow initializing workers again
 
 
 # %% Utility functions
-- 
2.43.0


From bbcce2fac111640051405ce1ece169129656797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 14/45] fix: get_kernel_parallel without initialized workers
 returned a wrong kernel (and failed for not estimated kernel size)

---
 src/zernpy/zernpsf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 4292eca..678cfb2 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -695,9 +695,9 @@ class ZernPSF:
 
         """
         h_phi = 2.0*pi/self.n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
+        constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
-            constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
             self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             # print("Forming params takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
@@ -707,6 +707,9 @@ class ZernPSF:
             self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
+        else:  # workers aren't initialized (or not used - for Piston), compute the same sums in this process
+            even_sum = sum(radial_integral_s((i*h_phi, constants)) for i in range(2, self.n_int_phi_points, 2))
+            odd_sum = sum(radial_integral_s((i*h_phi, constants)) for i in range(1, self.n_int_phi_points, 2))
         # Simpson integration rule implementation
         yA = radial_integral(self.zernpol, r, theta, 0.0, self.alpha, self.n_int_r_points)
         yB = radial_integral(self.zernpol, r, theta, 2.0*pi, self.alpha, self.n_int_r_points)
@@ -732,7 +735,7 @@ class ZernPSF:
         """
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-                                               wavelength=self.wavelength)
+                                               wavelength=self.wavelength, NA=self.NA)
         if self.zernpol is None:
             self.kernel_size = 3
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
-- 
2.43.0


From 6695e6c0b095c722d6a406d7f8edea5b0ddd624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 15/45] fix: rejected physical / calculation properties leave
 ZernPSF unchanged, checks are done before any assignment

---
 src/zernpy/zernpsf.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 678cfb2..051b88a 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,17 +192,14 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.NA = NA; self.wavelength = wavelength  # save as the class properties
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
-        self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-        self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
+        pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
+        pixel_size_nyquist_eStr = "{:.3e}".format(pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
         if pixel_physical_size <= 0.0:
             raise ValueError("Pixel physical size should be positive real number")
-        if pixel_physical_size > self.pixel_size_nyquist:
-            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {self.pixel_size_nyquist_eStr}"
+        if pixel_physical_size > pixel_size_nyquist:
+            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {pixel_size_nyquist_eStr}"
                              + f" computed from the Abbe's resolution limit (0.5*{lambda_char}/NA)")
-        self.pixel_size = pixel_physical_size
         # Check which type is provided as the expansion_coeff parameter
         if hasattr(expansion_coeff, '__len__'):
             coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
@@ -213,18 +210,18 @@ class ZernPSF:
                     self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
                     if len(self.__warn_message) > 0:
                         warnings.warn(self.__warn_message); self.__warn_message = ""
-                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
                 else:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                self.coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
                 # Sanity check for the maximum expansion coefficient of the polynomial
-                max_module_coeff = max(np.max(self.coefficients), abs(np.min(self.coefficients)))
+                max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
                 if len(self.__warn_message) > 0:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
-                self.amplitudes = self.coefficients / self.wavelength
+                self.coefficients = coefficients; self.amplitudes = self.coefficients / wavelength
         else:
             # Check consistency of provided type of polynomials and coefficients
             if self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
@@ -237,7 +234,11 @@ class ZernPSF:
             self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
             if len(self.__warn_message) > 0:
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
+        # All provided parameters have been checked, save them as the class properties
+        self.NA = NA; self.wavelength = wavelength; self.pixel_size = pixel_physical_size
+        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
+        self.pixel_size_nyquist = pixel_size_nyquist; self.pixel_size_nyquist_eStr = pixel_size_nyquist_eStr
         # Kernel size estimation (could be changed explicitly in the method 'set_calculation_props'). Redefine it for each call
         if self.zernpol is not None:  # for single polynomial
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
@@ -295,6 +296,11 @@ class ZernPSF:
         # Sanity check for kernel size
         if kernel_size < 3:
             raise ValueError("Kernel size should be more than 3")
+        # Sanity checks for n_integration_points_r and n_integration_points_phi
+        if n_integration_points_r < 20:
+            raise ValueError("# of integration points for radius should be not less than 20")
+        if n_integration_points_phi < 36:
+            raise ValueError("# of integration points for angle phi should be not less than 36")
         # Check provided kernel size and the estimated one
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
@@ -307,11 +313,6 @@ class ZernPSF:
             self.__warn_message = "Please set the physical properties first for estimation of kernel size and after call this method"
             warnings.warn(self.__warn_message); self.__warn_message = ""
         self.kernel_size = kernel_size  # overwrite stored property, show before all warnings if kernel size is inconsistent
-        # Sanity checks for n_integration_points_r and n_integration_points_phi
-        if n_integration_points_r < 20:
-            raise ValueError("# of integration points for radius should be not less than 20")
-        if n_integration_points_phi < 36:
-            raise ValueError("# of integration points for angle phi should be not less than 36")
         if n_integration_points_phi % 2 != 0:
             n_integration_points_phi += 1; print("Note that # of integration points for angle phi should be even for Simpson rule")
         self.n_int_r_points = n_integration_points_r; self.n_int_phi_points = n_integration_points_phi
-- 
2.43.0


From 8342fed625f60a737e6b40748549760a66445559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 16/45] fix: ZernPSF keeps own copies of provided sequences, so
 their later change by a caller doesn't affect it

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 051b88a..d071832 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -139,7 +139,7 @@ class ZernPSF:
                         if m == 0 and n == 0:
                             self.airy = True  # check if Airy pattern is among provided polynomials
                 if all_are_polls:
-                    self.polynomials = zernpol; self.zernpol = None
+                    self.polynomials = tuple(zernpol); self.zernpol = None
                     unique_osa_orders = set(osa_orders)  # check that all OSA orders are unique
                     if len(osa_orders) > len(unique_osa_orders):
                         raise ValueError("There might be some repeated polynomials provided, "
@@ -215,7 +215,7 @@ class ZernPSF:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                coefficients = np.array(expansion_coeff)  # conversion to efficient array format
                 # Sanity check for the maximum expansion coefficient of the polynomial
                 max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
-- 
2.43.0


From 3f7d8ad6addcbaafe4c31dbb97a79a97d2604ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 17/45] fix: suppress_warnings changed the kernel size used
 without physical properties, and an explicitly set one was ignored

---
 src/zernpy/zernpsf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index d071832..1338f41 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -373,9 +373,12 @@ class ZernPSF:
         """
         if len(self.__warn_message) > 0 and not suppress_warnings:
             warnings.warn(self.__warn_message)
-        if not self.__physical_props_set and not suppress_warnings:
-            self.kernel_size = 19; self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
-            warnings.warn(self.__warn_message); self.__warn_message = ""
+        if not self.__physical_props_set:
+            if self.kernel_size < 3:  # kernel size hasn't been specified explicitly by set_calculation_props()
+                self.kernel_size = 19
+            if not suppress_warnings:
+                self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
+                warnings.warn(self.__warn_message); self.__warn_message = ""
         global numba_installed  # access the flag
         # Check provided flag
         if numba_installed and accelerated is None:
-- 
2.43.0


From 4c891bd1a07363854c269b4b43f2630054610a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 18/45] fix: crop_kernel checks its parameter for any kernel
 size

---
 src/zernpy/zernpsf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 1338f41..f493039 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -532,12 +532,12 @@ class ZernPSF:
         None.
 
         """
+        if min_part_of_max <= 0.0:
+            raise ValueError("\nParameter 'min_part_of_max' should be > 0.0, but it is:", min_part_of_max)
+        if min_part_of_max >= 0.5:
+            raise ValueError("\nParameter 'min_part_of_max' should be < 0.5, but it is:", min_part_of_max)
         if self.kernel_size > 3:  # crop redundant points in kernel
             max_kernel_value = np.max(self.kernel)  # if kernel normalized, will be 1.0
-            if min_part_of_max <= 0.0:
-                raise ValueError("\nParameter 'min_part_of_max' should be > 0.0, but it is:", min_part_of_max)
-            if min_part_of_max >= 0.5:
-                raise ValueError("\nParameter 'min_part_of_max' should be < 0.5, but it is:", min_part_of_max)
             min_kernel_value = min_part_of_max*max_kernel_value  # by default, 1% of max kernel value
             # print("min value:", min_kernel_value)
             rows, cols = self.kernel.shape; stop_cropping_loop = False; step_row = 0; step_column = 0
-- 
2.43.0


From ac12b3588e6a85ea48bbfbc5e1204cd7bd549e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 19/45] fix: read_json restores the saved kernel size and type
 of polynomial(-s), and ignores incomplete data completely

---
 src/zernpy/zernpsf.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f493039..cd8d9f5 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -616,17 +616,18 @@ class ZernPSF:
             abs_path = str(abs_path)
         json_data = read_psf(abs_path)  # raw parsed data from a file
         if json_data is not None:
-            wavelen: float; na: float; a: float; pols: list; ps: float; read_props = 0
+            wavelen: float; na: float; a: float; pols: list = []; ps: float; read_props = 0
+            kernel: np.ndarray; kernel_size: int; n_int_r: int; n_int_phi: int
             for key, item in json_data.items():
                 # Calculation properties + calculated kernel
                 if key == "PSF Kernel":
-                    self.kernel = np.asarray(item); read_props += 1
+                    kernel = np.asarray(item); read_props += 1
                 elif key == "Kernel Size":
-                    self.kernel_size = item; read_props += 1
+                    kernel_size = item; read_props += 1
                 elif key == "# of integration points R":
-                    self.n_int_r_points = item; read_props += 1
+                    n_int_r = item; read_props += 1
                 elif key == "# of integration points angle":
-                    self.n_int_phi_points = item; read_props += 1
+                    n_int_phi = item; read_props += 1
                 # Read the physical properties and store them in a list for further setting
                 elif key == "NA":
                     na = item; read_props += 1
@@ -638,24 +639,19 @@ class ZernPSF:
                     a = np.asarray(item); read_props += 1
                 elif key == "Pixel Size":
                     ps = item; read_props += 1
-                # Getting and reassigning used polynomial(-s)
+                # Getting used polynomial(-s)
                 elif key == "Polynomial":
-                    osa_index = item; self.zernpol = ZernPol(osa=osa_index)
+                    pols = [ZernPol(osa=item)]
                 elif key == "Polynomials":
-                    osa_indices = item; pols = []; pols_len = len(osa_indices)
-                    if pols_len == 1:
-                        self.zernpol = ZernPol(osa=osa_indices[0])
-                        if osa_indices[0] == 0:
-                            self.airy = True
-                        else:
-                            self.airy = False
-                    else:
-                        for index in osa_indices:
-                            pols.append(ZernPol(osa=index))
-                        self.polynomials = pols; self.zernpol = None; self.airy = False
-            # Assign read physical properties
-            if read_props == 8:
+                    pols = [ZernPol(osa=index) for index in item]
+            # Assign read polynomial(-s) and properties only if all of them are available and accepted
+            if read_props == 8 and len(pols) > 0:
+                loaded_psf = ZernPSF(pols)  # performs the sanity checks before changing this instance
+                loaded_psf.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                self.zernpol = loaded_psf.zernpol; self.polynomials = loaded_psf.polynomials; self.airy = loaded_psf.airy
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                # The saved kernel and its calculation properties, overwrites the kernel size estimated above
+                self.kernel = kernel; self.kernel_size = kernel_size; self.n_int_r_points = n_int_r; self.n_int_phi_points = n_int_phi
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From ed9fd47238515625c07fcbc2496d0a4435f1a760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 20/45] fix: save_json accepts a path as str and always saves
 by default in the folder 'saved_psfs' of the package

---
 src/zernpy/zernpsf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index cd8d9f5..612954d 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -575,9 +575,10 @@ class ZernPSF:
 
         """
         if abs_path is None:
-            abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
-        if not Path.exists(abs_path):
-            abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
+            abs_path = Path(__file__).parent.absolute().joinpath("saved_psfs")  # default folder for JSON files (root for the package)
+            abs_path.mkdir(exist_ok=True)
+        if not Path(abs_path).exists():
+            abs_path = ""  # the folder "saved_psfs" will be created in the current working folder
         if isinstance(abs_path, Path):
             abs_path = str(abs_path)  # convert to the expected string format
         if self.kernel_size == 1:
-- 
2.43.0


From f7b3b2c270384f12418622649aa300272943519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 21/45] fix: failed or interrupted saving of PSF doesn't
 destroy the already saved file

---
 src/zernpy/calculations/calc_psfs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index fed4938..76f5878 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -16,6 +16,7 @@ from math import sqrt, pi, e
 import time
 from scipy.ndimage import convolve
 import json
+import os
 from matplotlib.patches import Circle
 from functools import partial
 from typing import Union
@@ -811,8 +812,15 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
     if json_file_path.exists() and not overwrite:
         _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
-        with open(json_file_path, 'w') as json_write_file:
-            json.dump(data4serialization, json_write_file)
+        json_str = json.dumps(data4serialization)  # serialize everything before touching the file
+        # Write to the temporary file and replace by it the target file, for not losing already saved data if writing fails
+        tmp_file_path = json_file_path.with_name(json_file_path.name + ".tmp")
+        try:
+            with open(tmp_file_path, 'w') as json_write_file:
+                json_write_file.write(json_str); json_write_file.flush(); os.fsync(json_write_file.fileno())
+            os.replace(tmp_file_path, json_file_path)
+        except OSError:
+            tmp_file_path.unlink(missing_ok=True); raise
     return str(json_file_path.absolute())
 
 
-- 
2.43.0


From d484ba8ebba26563ed8ff526495e6cbff7808f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 22/45] fix: convolution of zero images produced NaN values,
 and of integer ones - truncated instead of rounded values

---
 src/zernpy/calculations/calc_psfs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 76f5878..beddef8 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -728,7 +728,10 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         convolved_img /= conv_coeff  # correct the convolution result by dividing to the kernel sum
     if scale2original:
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
-        scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+        if max_conv_pixel != 0.0:  # nothing to scale, e.g. for the image with only zero pixels
+            scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+    if np.issubdtype(img_type, np.integer):
+        convolved_img = np.round(convolved_img)  # conversion to integers below discards the fractional part
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From 32607d5ad466c2505b822a539b441968d326472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 23/45] fix: gen_polar_coordinates raises the documented
 ValueError for steps out of the ranges

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index b35ba2c..c8a8445 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1021,9 +1021,9 @@ class ZernPol:
             Theta - vector with theta angles values [0.0, theta_rad_step, ... 2*pi].
 
         """
-        if 0.0 >= r_step > 0.5:
+        if not 0.0 < r_step <= 0.5:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
-        if 0.0 >= theta_rad_step > np.pi:
+        if not 0.0 < theta_rad_step <= np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
         Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
-- 
2.43.0


From c18ebb655bb7b4db9e830ec061b8803415854476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 24/45] fix: fitting of phases on the polar mesh with equal
 number of radii and thetas, inconsistent lengths are rejected

---
 src/zernpy/calculations/fit_zernike_pols.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/calculations/fit_zernike_pols.py b/src/zernpy/calculations/fit_zernike_pols.py
index 77144a7..aad7bc0 100644
--- a/src/zernpy/calculations/fit_zernike_pols.py
+++ b/src/zernpy/calculations/fit_zernike_pols.py
@@ -168,7 +168,8 @@ def fit_zernikes(phases_coordinates_vectors: tuple, polynomials: tuple) -> np.nd
     AttributeError
         If the input tuple with polynomials composed not from instances of ZernPol class.
     ValueError
-        If the length of the tuple with polynomials is zero or if provided tuple contains repeated polynomials.
+        If the length of the tuple with polynomials is zero or if provided tuple contains repeated polynomials. \n
+        Or if number of phases doesn't correspond to the number of provided polar coordinates.
     numpy.linalg.LinAlgError
         If the fit procedure doesn't converge (namely, np.linalg.lstsq(...) function doesn't converge).
 
@@ -182,6 +183,12 @@ def fit_zernikes(phases_coordinates_vectors: tuple, polynomials: tuple) -> np.nd
     cropped_phases_vector = phases_coordinates_vectors[0]; cropped_radii_vector = phases_coordinates_vectors[1]
     cropped_thetas_vector = phases_coordinates_vectors[2]
     vector_length, = cropped_phases_vector.shape; zernike_coefficients = None
+    radii_length, = cropped_radii_vector.shape; thetas_length, = cropped_thetas_vector.shape
+    # Coordinates provided for each phase or as the axes of polar mesh (all thetas for the 1st radius, for the 2nd one, etc.)
+    pointwise_coordinates = radii_length == thetas_length == vector_length
+    if not pointwise_coordinates and radii_length*thetas_length != vector_length:
+        raise ValueError(f"Number of phases ({vector_length}) doesn't correspond to the number of radii ({radii_length})"
+                         + f" and thetas ({thetas_length})")
     # Calculate polynomials values in the unit circle defined by polar coordinates
     zernike_values = np.zeros(shape=(vector_length, len(polynomials)))
     # Checking that all polynomials are unique
@@ -199,10 +206,9 @@ def fit_zernikes(phases_coordinates_vectors: tuple, polynomials: tuple) -> np.nd
     if len(polynomials) > 0:
         # Calculation of Zernike polynomials values in the polar coordinates composed in radii, thetas vectors
         for j in range(len(polynomials)):
-            if cropped_radii_vector.shape[0] == cropped_thetas_vector.shape[0]:
+            if pointwise_coordinates:
                 zernike_values[:, j] = polynomials[j].polynomial_value(cropped_radii_vector, cropped_thetas_vector)
             else:
-                thetas_length = cropped_thetas_vector.shape[0]
                 for i in range(cropped_radii_vector.shape[0]):
                     zernike_values[i*thetas_length:(i+1)*thetas_length, j] = polynomials[j].polynomial_value(cropped_radii_vector[i],
                                                                                                              cropped_thetas_vector)
-- 
2.43.0


From db5d9a4f62aaba35142d2c585432d31535c19029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 25/45] fix: workers of several DispenserManager instances were
 stored in shared lists (2nd instance hung or failed)

---
 src/zernpy/utils/intmproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 84107fe..7039c39 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -54,6 +54,7 @@ class DispenserManager():
 
         """
         self.verbose_info = verbose_info
+        self.__workers_pool = []; self.__triggers = []; self.__queues = []  # own containers for each instance
         if self.verbose_info:
             t1 = time.perf_counter(); self.done_jobs_percentage = 0
         # Checking input parameters - workers
-- 
2.43.0


From 36d3a6d456059fb62eab86db394cadb5bcdc94ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 26/45] fix: computation with the default number of workers
 hung forever (0 workers) if only 1 CPU is available

---
 src/zernpy/utils/intmproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 7039c39..02496c9 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -19,7 +19,7 @@ from typing import Callable, Any, Union  # Callable[..., Any] - should check for
 class DispenserManager():
     """Manager for the distributing calculation job on several Processes."""
 
-    __MAX_WORKERS: int = os.cpu_count(); workers_number: int = __MAX_WORKERS // 2; __warn_message: str = ""
+    __MAX_WORKERS: int = os.cpu_count() or 1; workers_number: int = max(__MAX_WORKERS // 2, 1); __warn_message: str = ""
     __workers_pool: list = []; __results: list = []; __triggers: list = []; __initialized: bool = False
     __global_live_trigger: Event = None; __queues: list = []; __parameters_vector: list = []
 
-- 
2.43.0


From c5d209da2fcb87a6219c7f20fc090ec712fc02e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 27/45] fix: computation hung forever if the computing function
 raised an Exception in a worker or a worker terminated

---
 src/zernpy/utils/intmproc.py | 76 +++++++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 02496c9..1687f6b 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -8,6 +8,7 @@ Experiment with the multiprocessing speeding up of calculations.
 """
 # %% Global imports
 from multiprocessing import Process, Event, Queue
+from queue import Empty
 import os
 import warnings
 import time
@@ -118,6 +119,11 @@ class DispenserManager():
         """
         Perform computation using provided parameters and function / method.
 
+        Raises
+        ------
+        RuntimeError
+            If the computation function raised an Exception or a worker terminated unexpectedly, all workers are released before.
+
         Returns
         -------
         list
@@ -142,7 +148,7 @@ class DispenserManager():
                 for proc_i in range(len(self.__workers_pool)):
                     if task_assigned[proc_i] and not self.__triggers[proc_i].is_set():
                         current_param_index = processing_indices[proc_i]
-                        self.__results[current_param_index] = self.__queues[proc_i].get()
+                        self.__results[current_param_index] = self.__receive_result(proc_i)
                         computed_tasks += 1  # computation has been done
                         task_assigned[proc_i] = False  # next comptutation hasn't been yet assigned, check if still jobs are available
                         if len(indices2process) > 0:
@@ -152,6 +158,8 @@ class DispenserManager():
                             # print(f"Set job for parameter {self.__parameters_vector[current_param_index]}, index {current_param_index}")
                             time.sleep(0.0001)
                     else:
+                        if task_assigned[proc_i] and not self.__workers_pool[proc_i].is_alive() and self.__triggers[proc_i].is_set():
+                            self.__raise_error(f"Worker #{proc_i} terminated unexpectedly")
                         time.sleep(0.0001)
                 # print(f"Remaining indices of parameters to compute: {indices2process}")
                 if self.verbose_info:
@@ -170,6 +178,59 @@ class DispenserManager():
             self.__warn_message = ("All workers have been released, no computation has been performed")
             warnings.warn(self.__warn_message); return None
 
+    def __receive_result(self, proc_i: int) -> Any:
+        """
+        Receive the result from the worker which reported that the job is done.
+
+        Parameters
+        ----------
+        proc_i : int
+            Index of the worker.
+
+        Raises
+        ------
+        RuntimeError
+            If the computation failed or the worker terminated before sending the result.
+
+        Returns
+        -------
+        Any
+            Result of the computation.
+
+        """
+        while True:
+            worker_alive = self.__workers_pool[proc_i].is_alive()  # checked before waiting for the result
+            try:
+                result = self.__queues[proc_i].get(timeout=0.5); break
+            except Empty:
+                if not worker_alive:
+                    self.__raise_error(f"Worker #{proc_i} terminated unexpectedly")
+        if isinstance(result, FailedComputation):
+            self.__raise_error(f"Computation failed with the error: {result.message}")
+        return result
+
+    def __raise_error(self, message: str):
+        """
+        Release all workers and raise RuntimeError.
+
+        Parameters
+        ----------
+        message : str
+            Error message.
+
+        Raises
+        ------
+        RuntimeError
+            Always.
+
+        Returns
+        -------
+        None.
+
+        """
+        self.close()
+        raise RuntimeError(message)
+
     def close(self):
         """
         Release all initialized Process()-based classes (workers).
@@ -233,6 +294,14 @@ class DispenserManager():
                 self.__results = [None]*len(params_list); self.__parameters_vector = params_list
 
 
+# %% Report about the failed computation
+class FailedComputation():
+    """Wrapper for reporting from a worker that the computation function raised an Exception."""
+
+    def __init__(self, message: str):
+        self.message = message
+
+
 # %% Individual worker special class
 class IndiWorker(Process):
     """Individual Worker based on Process() class for performing computations using provided function."""
@@ -283,7 +352,10 @@ class IndiWorker(Process):
                     #     time.sleep(0.001); attempts += 1
                     parameter = self.__data_queue.get()
                     # print(f"Start computing for parameter {parameter}", flush=True)
-                    result = self.computation(parameter)  # computation work
+                    try:
+                        result = self.computation(parameter)  # computation work
+                    except Exception as error:
+                        result = FailedComputation(repr(error))  # report about the error instead of silent termination
                     self.__data_queue.put_nowait(result)  # returning the result
                     self.__trigger.clear()
                     # print(f"Finished computing for parameter {parameter} and report result {result}", flush=True)
-- 
2.43.0


From 159125689b6f67abe256afd3cba9116ffb740b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 28/45] fix: str() of a polynomial without conventional name
 contains its orders and indices as documented

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index c8a8445..7791f52 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -295,7 +295,7 @@ class ZernPol:
         if len(name) > 0:
             return name + pol_signature
         else:
-            return "Zernike polynomial"
+            return "Zernike polynomial" + pol_signature
 
     def __gt__(self, other) -> bool:
         """
-- 
2.43.0


From 28cc0a8be76daa24ccb8fb9285b46766d3389550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 29/45] fix: cropped image contained NaN outside of the
 aperture for NaN / infinite background pixels of a phases image

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 7791f52..d674ccf 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1549,7 +1549,7 @@ def fit_polynomials(phases_image: np.ndarray, polynomials: tuple, crop_radius: f
     zernike_coefficients = np.zeros(shape=(len(polynomials), ))
     logic_mask, cropped_phases_coordinates = crop_phases_img(phases_image, crop_radius, suppress_warnings, strict_circle_border)
     if return_cropped_image:
-        cropped_image = logic_mask*phases_image  # for debugging
+        cropped_image = np.where(logic_mask == 1, phases_image, np.zeros_like(phases_image))  # for debugging, background is always 0
     zernike_coefficients = fit_zernikes(cropped_phases_coordinates, polynomials)
     zernike_coefficients = np.round(zernike_coefficients, round_digits)
     if return_cropped_image:
-- 
2.43.0


From 13755b3141f0d726028bc143cc08e57bab225fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 30/45] fix: get_kernel_parallel and get_psf_point_r_parallel
 for several polynomials returned NaN kernel of the size 3 or failed

---
 src/zernpy/zernpsf.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 612954d..ba37ec3 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -27,7 +27,7 @@ except ModuleNotFoundError:
 # %% Local (package-scoped) imports
 if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__mp_main__":
     from calculations.calc_psfs import (get_psf_kernel, lambda_char, radial_integral_s, radial_integral, get_kernel_size,
-                                        convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns)
+                                        convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns, get_psf_point_r_pols)
     from zernikepol import ZernPol
     from utils.intmproc import DispenserManager
     if numba_installed:
@@ -36,7 +36,7 @@ if __name__ == "__main__" or __name__ == Path(__file__).stem or __name__ == "__m
         methods_compiled = False
 else:
     from .calculations.calc_psfs import (get_psf_kernel, lambda_char, radial_integral_s, radial_integral, get_kernel_size,
-                                         convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns)
+                                         convolute_img_psf, get_bumped_circle, save_psf, read_psf, get_psf_kernel_zerns, get_psf_point_r_pols)
     from .zernikepol import ZernPol
     from .utils.intmproc import DispenserManager
     if numba_installed:
@@ -695,6 +695,8 @@ class ZernPSF:
             Each point for PSF kernel.
 
         """
+        if self.zernpol is None:  # parallel calculation isn't implemented for several polynomials, compute in this process
+            return get_psf_point_r_pols(self.polynomials, self.amplitudes, r, theta, self.n_int_r_points, self.n_int_phi_points)
         h_phi = 2.0*pi/self.n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
         constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
         if self.__ParallelCalc is not None:
@@ -737,8 +739,6 @@ class ZernPSF:
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
                                                wavelength=self.wavelength, NA=self.NA)
-        if self.zernpol is None:
-            self.kernel_size = 3
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
         calculated_points = 0
         for i in range(self.kernel_size):
@@ -748,8 +748,7 @@ class ZernPSF:
                 distance = self.k*self.NA*self.pixel_size*pixel_dist  # conversion from pixel distance into phase multiplier
                 theta = np.arctan2((i - i_center), (j - j_center))  # The PSF also has the angular dependency, not only the radial one
                 theta += np.pi  # shift angles to the range [0, 2pi]
-                if self.zernpol is not None:
-                    self.kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
+                self.kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
                 # print(f"Calculated point {[i, j]} from {[self.kernel_size-1, self.kernel_size-1]}")
                 print(f"Calculated point #{calculated_points} from {self.kernel_size*self.kernel_size}, takes ms: ",
                       int(round(1000*(time.perf_counter() - t1), 0)))
-- 
2.43.0


From 1ff4a2deb3d5a94c68a01c4ac33ea270fd09991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 31/45] fix: simultaneous savings of the same PSF by several
 processes or threads failed or mixed their temporary files

---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index beddef8..09d152e 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -17,6 +17,7 @@ import time
 from scipy.ndimage import convolve
 import json
 import os
+from threading import get_ident
 from matplotlib.patches import Circle
 from functools import partial
 from typing import Union
@@ -817,7 +818,7 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
         json_str = json.dumps(data4serialization)  # serialize everything before touching the file
         # Write to the temporary file and replace by it the target file, for not losing already saved data if writing fails
-        tmp_file_path = json_file_path.with_name(json_file_path.name + ".tmp")
+        tmp_file_path = saved_psfs_folder.joinpath(f"psf_{os.getpid()}_{get_ident()}.tmp")  # unique for simultaneous savings
         try:
             with open(tmp_file_path, 'w') as json_write_file:
                 json_write_file.write(json_str); json_write_file.flush(); os.fsync(json_write_file.fileno())
-- 
2.43.0


From 2ae27c099c2e33f846824e103e93d1341139de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 32/45] fix: estimated kernel size was less than the minimal
 allowed one (3) for small NA

---
 src/zernpy/calculations/calc_psfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 09d152e..ba739a8 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -328,7 +328,7 @@ def get_kernel_size(zernike_pol, len2pixels: float, alpha: float, wavelength: fl
         size_ext += 1  # add one more line for kernel (prevent automatic warnings)
         multiplier *= sqrt(4.25*abs(alpha))  # Enlarge kernel size according to the provided amplitude, scaling with the coefficient
     # Estimation below based on the provided physical properties
-    size = int(round((multiplier*wavelength)/len2pixels, 0)) + 1 + size_ext
+    size = max(int(round((multiplier*wavelength)/len2pixels, 0)) + 1 + size_ext, 3)  # the minimal size of a kernel is 3
     # Correct the size of a kernel to the odd integer below
     if size % 2 == 0:
         size += 1
-- 
2.43.0


From ce04336be65452701ad335f385a245c8d9034318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 33/45] fix: manager hung forever if an idle worker had been
 terminated (its Event.set() waited for the terminated worker)

---
 src/zernpy/utils/intmproc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 1687f6b..3fbd3df 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -343,7 +343,9 @@ class IndiWorker(Process):
         if self.__keep_event.is_set():
             self.__data_queue.put_nowait("Started")  # send back the confirmation that the task is started
             while self.__keep_event.is_set():
-                self.__trigger.wait()  # wait that the parameter is transferred
+                # Wait that the parameter is transferred. Note that a Process terminated in Event.wait() blocks Event.set() of the manager
+                while not self.__trigger.is_set() and self.__keep_event.is_set():
+                    time.sleep(0.0001)
                 if self.__trigger.is_set() and self.__keep_event.is_set():
                     # attempts = 0
                     # if not self.__data_queue.empty() and attempts < 11:
-- 
2.43.0


From 5beeca84d6717cd4141ecb452c3ceb4626a8d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 34/45] fix: initialization hung forever if a worker terminated
 before confirming its start

---
 src/zernpy/utils/intmproc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 3fbd3df..0390c9a 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -48,6 +48,8 @@ class DispenserManager():
             Check the signature. Most probably there is some incosistency in n_workers, compute_func or params_list.
         ValueError
             If number of workers > number of parameters.
+        RuntimeError
+            If a worker terminated before confirming that it has been started.
 
         Returns
         -------
@@ -87,7 +89,9 @@ class DispenserManager():
             trigger_event = Event(); queue = Queue(); self.__triggers.append(trigger_event)
             worker = IndiWorker(keep_run_trigger=self.__global_live_trigger, trigger=trigger_event, data_queue=queue, compute_func=compute_func)
             worker.start(); received_confirmation = False  # for waiting of initializaton of the Process
+            self.__workers_pool.append(worker); self.__queues.append(queue)
             while not received_confirmation:
+                worker_alive = worker.is_alive()  # checked before the confirmation, because it could be sent right before the termination
                 if not queue.empty():
                     confirmation = queue.get_nowait()
                     if confirmation == "Started":
@@ -95,9 +99,10 @@ class DispenserManager():
                     else:
                         self.__warn_message = f"Not recognized confirmation message '{confirmation}', contact the developer"
                         warnings.warn(self.__warn_message); break
+                elif not worker_alive:
+                    self.__initialized = True; self.__raise_error(f"Worker #{i} terminated before confirming its start")  # release others
                 else:
                     time.sleep(0.005)
-            self.__workers_pool.append(worker); self.__queues.append(queue)
         if self.verbose_info:
             elapsed_ms = int(round(1000.0*(time.perf_counter() - t1), 0))
             print(f"# of workers as Processes initialized: {self.workers_number}, took {elapsed_ms} ms")
-- 
2.43.0


From 402a42f948855bdf26d1e6de431585a3f5a8d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 35/45] fix: results returned before and parameters of the
 caller were shared with the manager and changed by the next computation

---
 src/zernpy/utils/intmproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 0390c9a..d3320eb 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -81,7 +81,7 @@ class DispenserManager():
         elif len(params_list) < self.workers_number:
             raise ValueError("There is no sence for trying to split number of jobs less than initialized workers")
         else:
-            self.__results = [None]*len(params_list); self.__parameters_vector = params_list
+            self.__results = [None]*len(params_list); self.__parameters_vector = list(params_list)
         # Initializing the pool with Processes
         self.__global_live_trigger = Event(); self.__global_live_trigger.set(); time.sleep(0.01)
         # print(f"Initializing {self.workers_number} Processes")
@@ -136,6 +136,7 @@ class DispenserManager():
 
         """
         if self.__initialized:
+            self.__results = [None]*len(self.__parameters_vector)  # new list for each computation, the previous one belongs to the caller
             computed_tasks = 0; init_step = True; indices2process = [i for i in range(len(self.__parameters_vector))]
             processing_indices = [None]*len(self.__workers_pool); task_assigned = [False]*len(self.__workers_pool); self.done_jobs_percentage = 0
             while computed_tasks < len(self.__results):
@@ -296,7 +297,7 @@ class DispenserManager():
             elif len(params_list) < self.workers_number:
                 raise ValueError("There is no sence for trying to split number of jobs less than initialized workers")
             else:
-                self.__results = [None]*len(params_list); self.__parameters_vector = params_list
+                self.__results = [None]*len(params_list); self.__parameters_vector = list(params_list)
 
 
 # %% Report about the failed computation
-- 
2.43.0


From b067efdd18fceb505a4537e27a3397b49c5b24a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:02 +0000
Subject: [PATCH 36/45] fix: crop_kernel depends on the size of the kernel, not
 of the next one

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index ba37ec3..84c20e8 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -536,7 +536,7 @@ class ZernPSF:
             raise ValueError("\nParameter 'min_part_of_max' should be > 0.0, but it is:", min_part_of_max)
         if min_part_of_max >= 0.5:
             raise ValueError("\nParameter 'min_part_of_max' should be < 0.5, but it is:", min_part_of_max)
-        if self.kernel_size > 3:  # crop redundant points in kernel
+        if self.kernel.shape[0] > 3:  # crop redundant points in kernel
             max_kernel_value = np.max(self.kernel)  # if kernel normalized, will be 1.0
             min_kernel_value = min_part_of_max*max_kernel_value  # by default, 1% of max kernel value
             # print("min value:", min_kernel_value)
-- 
2.43.0


From adc5e2d3277f750b0958f485d7ed8040b70c606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 37/45] fix: PSF of many polynomials could not be saved, the
 composed file name was too long

---
 src/zernpy/calculations/calc_psfs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index ba739a8..97d3366 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -17,6 +17,7 @@ import time
 from scipy.ndimage import convolve
 import json
 import os
+from hashlib import sha256
 from threading import get_ident
 from matplotlib.patches import Circle
 from functools import partial
@@ -803,6 +804,10 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
             json_file_path = saved_psfs_folder.joinpath(f"psf_{(m, n)}_{expansion_coefficient}.json")
         else:
             json_file_path = saved_psfs_folder.joinpath(f"psf_{osa_indices}_{expansion_coefficient}.json")
+    # File name composed for many polynomials may be longer than file systems allow (255 bytes), use then the shorter unique one
+    if not single_pol_used and len(json_file_path.name.encode()) > 255:
+        name_hash = sha256(json_file_path.name.encode()).hexdigest()[:32]
+        json_file_path = saved_psfs_folder.joinpath(f"psf_{len(osa_indices)}_polynomials_{name_hash}.json")
     # Data composing for recording
     data4serialization = {}   # python dictionary is similar to the JSON file structure and can be dumped directly there
     data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = NA; data4serialization['Wavelength'] = wavelength
-- 
2.43.0


From d66a625df95f78171d662c651b60809b31c625ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:27 +0000
Subject: [PATCH 38/45] fix: simultaneous savings creating the default folder
 failed

---
 src/zernpy/calculations/calc_psfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 97d3366..21ce0e0 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -788,7 +788,7 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
     if folder_path is None or len(folder_path) == 0 or not Path(folder_path).is_dir():
         working_folder = Path(__file__).cwd(); saved_psfs_folder = Path(working_folder).joinpath("saved_psfs")
         if not saved_psfs_folder.is_dir():
-            saved_psfs_folder.mkdir()
+            saved_psfs_folder.mkdir(exist_ok=True)
         print("Auto assigned folder for saving calculated PSF kernel:", saved_psfs_folder)
     else:
         if Path(folder_path).is_dir():
-- 
2.43.0


From ddbb9ecd63a817e9a4590deeaf8a230d61325156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:33 +0000
Subject: [PATCH 39/45] fix: in-place changes of the default kernel of one
 ZernPSF object changed all other objects

---
 src/zernpy/zernpsf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 84c20e8..b17bcaa 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -107,6 +107,7 @@ class ZernPSF:
 
         """
         self.json_file_path = str(Path(__file__).parent.absolute())  # initialize default path as the root folder containing the script
+        self.kernel = np.ones(shape=(1, 1))  # own default kernel, not shared with the other instances
         if not hasattr(zernpol, '__len__') and isinstance(zernpol, ZernPol):
             self.zernpol = zernpol; m, n = self.zernpol.get_mn_orders()
             if m == 0 and n == 0:
-- 
2.43.0


From 6a5a477eaedcd611c9667f19e420702bf51c2241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:33 +0000
Subject: [PATCH 40/45] fix: fit of phases with the half or extended precision
 raised TypeError

---
 src/zernpy/calculations/fit_zernike_pols.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/calculations/fit_zernike_pols.py b/src/zernpy/calculations/fit_zernike_pols.py
index aad7bc0..ed536df 100644
--- a/src/zernpy/calculations/fit_zernike_pols.py
+++ b/src/zernpy/calculations/fit_zernike_pols.py
@@ -213,6 +213,8 @@ def fit_zernikes(phases_coordinates_vectors: tuple, polynomials: tuple) -> np.nd
                     zernike_values[i*thetas_length:(i+1)*thetas_length, j] = polynomials[j].polynomial_value(cropped_radii_vector[i],
                                                                                                              cropped_thetas_vector)
         # Fitting procedure of calculated polynomials values to the provided phases (deformations)
+        if np.issubdtype(cropped_phases_vector.dtype, np.floating):
+            cropped_phases_vector = np.float64(cropped_phases_vector)  # half and extended precision aren't supported by the fit below
         zernike_coefficients = np.linalg.lstsq(zernike_values, cropped_phases_vector, rcond=None)
         zernike_coefficients = zernike_coefficients[0]  # unpacking fitting results
     else:
-- 
2.43.0


From 274616b549fc5a748407580469f5c6b63a6d07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:29 +0000
Subject: [PATCH 41/45] fix: PSF with settings given as numpy numbers could not
 be saved

---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 21ce0e0..59db0fc 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -821,7 +821,8 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
     if json_file_path.exists() and not overwrite:
         _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
-        json_str = json.dumps(data4serialization)  # serialize everything before touching the file
+        # Serialize everything before touching the file, numbers of the numpy types - as the Python ones
+        json_str = json.dumps(data4serialization, default=lambda number: number.item())
         # Write to the temporary file and replace by it the target file, for not losing already saved data if writing fails
         tmp_file_path = saved_psfs_folder.joinpath(f"psf_{os.getpid()}_{get_ident()}.tmp")  # unique for simultaneous savings
         try:
-- 
2.43.0


From 680d75ed5a9886e510167ec49b0d4b0da51d0e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:23 +0000
Subject: [PATCH 42/45] fix: versions of numba older than 0.57 with a patch
 number weren't reported as not recommended

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b17bcaa..b2f5963 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -818,7 +818,7 @@ def force_get_psf_compilation(verbose_report: bool = False) -> Union[tuple, None
         try:
             if int(numba_ver_n[0]) == 0:
                 if int(numba_ver_n[1]) <= 57:
-                    if int(numba_ver_n[2]) < 1:
+                    if int(numba_ver_n[1]) < 57 or int(numba_ver_n[2]) < 1:
                         __warn_message = "\nRecommended numba version for compilation >= 0.57.1"; warnings.warn(__warn_message)
         except ValueError:
             __warn_message = "\nCannot parse 'numba' version, expected in format 'x.yy.zz' - all integers"; warnings.warn(__warn_message)
-- 
2.43.0


From f18984328cbffb4926280082f99a5e178ab9d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:07 +0000
Subject: [PATCH 43/45] fix: precompilation raised NameError if numba is
 installed without its metadata

---
 src/zernpy/zernpsf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b2f5963..e2438d1 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -13,14 +13,13 @@ import matplotlib.pyplot as plt
 from math import pi
 import time
 from typing import Union, Sequence
-from importlib.metadata import version
 
 # Check if numba library installed for importing compilable methods
 numba_installed = False  # default value for checking if 'numba' library is installed
 try:
     import numba
     if numba is not None:
-        numba_installed = True; numba_version = version('numba'); numba_ver_n = numba_version.split('.')
+        numba_installed = True; numba_version = numba.__version__; numba_ver_n = numba_version.split('.')
 except ModuleNotFoundError:
     pass
 
-- 
2.43.0


From 6053009a8597e51b7e7f90f2edfb7a8538b14ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:50 +0000
Subject: [PATCH 44/45] fix: an exception (e.g. KeyboardInterrupt) arriving
 during creation, computation or closing of workers leads to wrong results
 later or leaves them running

---
 src/zernpy/utils/intmproc.py | 48 ++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index d3320eb..f04d3a8 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -85,6 +85,29 @@ class DispenserManager():
         # Initializing the pool with Processes
         self.__global_live_trigger = Event(); self.__global_live_trigger.set(); time.sleep(0.01)
         # print(f"Initializing {self.workers_number} Processes")
+        try:
+            self.__start_workers(compute_func)
+        except BaseException:  # e.g. KeyboardInterrupt, release already started workers
+            self.close(); raise
+        if self.verbose_info:
+            elapsed_ms = int(round(1000.0*(time.perf_counter() - t1), 0))
+            print(f"# of workers as Processes initialized: {self.workers_number}, took {elapsed_ms} ms")
+        self.__initialized = True  # global flag that pool of workers should be initialized
+
+    def __start_workers(self, compute_func: Callable[..., Any]):
+        """
+        Start Processes and wait their confirmations.
+
+        Parameters
+        ----------
+        compute_func : Callable[..., Any]
+            Function for computation.
+
+        Returns
+        -------
+        None.
+
+        """
         for i in range(self.workers_number):
             trigger_event = Event(); queue = Queue(); self.__triggers.append(trigger_event)
             worker = IndiWorker(keep_run_trigger=self.__global_live_trigger, trigger=trigger_event, data_queue=queue, compute_func=compute_func)
@@ -100,13 +123,9 @@ class DispenserManager():
                         self.__warn_message = f"Not recognized confirmation message '{confirmation}', contact the developer"
                         warnings.warn(self.__warn_message); break
                 elif not worker_alive:
-                    self.__initialized = True; self.__raise_error(f"Worker #{i} terminated before confirming its start")  # release others
+                    raise RuntimeError(f"Worker #{i} terminated before confirming its start")
                 else:
                     time.sleep(0.005)
-        if self.verbose_info:
-            elapsed_ms = int(round(1000.0*(time.perf_counter() - t1), 0))
-            print(f"# of workers as Processes initialized: {self.workers_number}, took {elapsed_ms} ms")
-        self.__initialized = True  # global flag that pool of workers should be initialized
 
     def get_max_workers(self) -> int:
         """
@@ -129,6 +148,21 @@ class DispenserManager():
         RuntimeError
             If the computation function raised an Exception or a worker terminated unexpectedly, all workers are released before.
 
+        Returns
+        -------
+        list
+            List with computation results.
+
+        """
+        try:
+            return self.__compute()
+        except BaseException:  # e.g. KeyboardInterrupt, not received results would be mixed up with the next parameters
+            self.close(); raise
+
+    def __compute(self):
+        """
+        Distribute parameters between workers and collect results.
+
         Returns
         -------
         list
@@ -246,14 +280,14 @@ class DispenserManager():
         None.
 
         """
-        if self.__initialized:
+        self.__initialized = False  # set the global flag to False for preventing calling the computation
+        if self.__global_live_trigger is not None:  # not yet completely closed, also if the previous call has been interrupted
             self.__global_live_trigger.clear(); time.sleep(0.005)  # set global trigger for all Processes as False
             for trigger in self.__triggers:
                 trigger.set(); time.sleep(0.005)  # set all triggers for releasing wait() methods for letting all Process run() to stop
             for worker in self.__workers_pool:
                 if worker.is_alive():
                     worker.join(timeout=0.1)  # wait all Processes stopped
-        self.__initialized = False  # set the global flag to False for preventing calling the computation
         self.__workers_pool = []; self.__global_live_trigger = None  # replace all attributes with the default empty values
         self.__triggers = []; self.__results = []; self.__queues = []; self.__parameters_vector = []   # default empty values
 
-- 
2.43.0


From 5a447aaaf2cc565152a440a694354ac665ed0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:35 +0000
Subject: [PATCH 45/45] fix: interrupted get_kernel_parallel() left a partially
 calculated kernel

---
 src/zernpy/zernpsf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index e2438d1..95572bb 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -739,7 +739,7 @@ class ZernPSF:
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
                                                wavelength=self.wavelength, NA=self.NA)
-        self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
+        kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
         calculated_points = 0
         for i in range(self.kernel_size):
             for j in range(self.kernel_size):
@@ -748,12 +748,13 @@ class ZernPSF:
                 distance = self.k*self.NA*self.pixel_size*pixel_dist  # conversion from pixel distance into phase multiplier
                 theta = np.arctan2((i - i_center), (j - j_center))  # The PSF also has the angular dependency, not only the radial one
                 theta += np.pi  # shift angles to the range [0, 2pi]
-                self.kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
+                kernel[i, j] = self.get_psf_point_r_parallel(r=distance, theta=theta); calculated_points += 1
                 # print(f"Calculated point {[i, j]} from {[self.kernel_size-1, self.kernel_size-1]}")
                 print(f"Calculated point #{calculated_points} from {self.kernel_size*self.kernel_size}, takes ms: ",
                       int(round(1000*(time.perf_counter() - t1), 0)))
         if normalize_values:
-            self.kernel /= np.max(self.kernel)
+            kernel /= np.max(kernel)
+        self.kernel = kernel  # stored only when completely calculated, the calculation could be interrupted
         return self.kernel
 
     def deinitialize_workers(self):
-- 
2.43.0

