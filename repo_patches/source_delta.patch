From e1cf1f357a4e6e16018ab27809ad7e36872c87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 01/36] fix: use the highest orbital energy as HOMO in
 core/valence density

---
 bfit/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/density.py b/bfit/density.py
index 564c9e9..4de0873 100644
--- a/bfit/density.py
+++ b/bfit/density.py
@@ -349,10 +349,10 @@ class SlaterAtoms:
         # compute orbital occupation numbers
         orb_occs = self.orbitals_occupation
         if mode == "valence":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
         elif mode == "core":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
         # compute density
         dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
-- 
2.43.0


From 3d0af2fa0022e83d61f03537cd16f02be4835bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 02/36] fix: Kullback-Leibler integrand is zero, not nan, where
 the density is zero

---
 bfit/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index 776ed7c..7966949 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -222,6 +222,8 @@ class KLDivergence(Measure):
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
+        # The limit of f log(f / g) as f goes to zero is zero, not np.nan.
+        value[density == 0.] = 0.
         # compute derivative
         if deriv:
             return value, -ratio
-- 
2.43.0


From 3666dd2288bd8ed82e186c987fbf2ee69e8cf85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 03/36] fix: Tsallis divergence with alpha < 1 is finite where
 the density or model vanishes

---
 bfit/measure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 7966949..b5a2c11 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -344,7 +344,10 @@ class TsallisDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=0.0)
-        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
+        # Zero ratios (zero density or masked model) stay zero, also when alpha is less than one.
+        power = np.zeros_like(ratio)
+        np.power(ratio, self.alpha - 1.0, out=power, where=ratio != 0.)
+        value = density * (power - 1.0)
         integrand = value / (self.alpha - 1.0)
         if deriv:
             return integrand, -np.power(ratio, self.alpha)
-- 
2.43.0


From 62815c324a62ff0fdbe1fc9935aedad5a8516a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 04/36] fix: the default measure of ScipyFit is an instance,
 the class itself is rejected

---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 9b061ba..b533f69 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -467,7 +467,7 @@ class ScipyFit(_BaseFit):
 
     """
 
-    def __init__(self, grid, density, model, measure=KLDivergence, method="SLSQP", weights=None,
+    def __init__(self, grid, density, model, measure=KLDivergence(), method="SLSQP", weights=None,
                  integral_dens=None, spherical=False, mask_value=1e-18):
         r"""
         Construct the ScipyFit object.
-- 
2.43.0


From af5b05280db9517f0563e55ea3122d123bf25afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 05/36] fix: pass the fixed parameters to the constraint of the
 trust-constr method

---
 bfit/fit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index b533f69..f63bba6 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -592,7 +592,11 @@ class ScipyFit(_BaseFit):
             if self.method == "slsqp":
                 constraints = [{"fun": self.const_norm, "type": "eq", "args": args}]
             elif self.method == "trust-constr":
-                constraints = [NonlinearConstraint(self.const_norm, 0.0, 0.0, jac="3-point")]
+                constraints = [
+                    NonlinearConstraint(
+                        lambda x: self.const_norm(x, *args), 0.0, 0.0, jac="3-point"
+                    )
+                ]
         # set optimization options
         if self.method == "slsqp":
             options = {"ftol": tol, "maxiter": maxiter, "disp": disp}
-- 
2.43.0


From 9cfc810b7c1d9d7365860f429ecb3edded1a3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 06/36] fix: return the objective gradient, not the constraint
 jacobians, for trust-constr

---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index f63bba6..26035d4 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -696,7 +696,7 @@ class ScipyFit(_BaseFit):
                    "fun": res["fun"],
                    "success": res["success"],
                    "message": res["message"],
-                   "jacobian": res["jac"],
+                   "jacobian": res["jac"] if self.method == "slsqp" else res["grad"],
                    "performance": np.array(self.goodness_of_fit(coeffs, expons)),
                    "time": time}
         return results
-- 
2.43.0


From 309c7f47ac43a4b076ab25f1f3143bb0fe43ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 07/36] fix: trust-constr method fails on the default long
 double radial grids

---
 bfit/fit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 26035d4..49bf206 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -594,7 +594,7 @@ class ScipyFit(_BaseFit):
             elif self.method == "trust-constr":
                 constraints = [
                     NonlinearConstraint(
-                        lambda x: self.const_norm(x, *args), 0.0, 0.0, jac="3-point"
+                        lambda x: float(self.const_norm(x, *args)), 0.0, 0.0, jac="3-point"
                     )
                 ]
         # set optimization options
@@ -655,8 +655,14 @@ class ScipyFit(_BaseFit):
         # optimize
         # scipy.minimize no longer supports extended precision
         x0 = x0.astype(np.float64)
+        fun = self.func
+        if self.method == "trust-constr":
+            # nor does its trust-constr method support an extended precision objective
+            def fun(x, *fun_args):
+                obj, d_obj = self.func(x, *fun_args)
+                return float(obj), d_obj
         start = timer()  # Start timer
-        res = minimize(fun=self.func,
+        res = minimize(fun=fun,
                        x0=x0,
                        args=args,
                        method=self.method,
-- 
2.43.0


From c15c64af984189383348284cd0e51c08c8d8dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 08/36] fix: keep the iterates of the trust-constr method
 positive

---
 bfit/fit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 49bf206..986fd43 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -26,7 +26,7 @@ import warnings
 from timeit import default_timer as timer
 
 import numpy as np
-from scipy.optimize import minimize, NonlinearConstraint
+from scipy.optimize import Bounds, minimize, NonlinearConstraint
 
 from bfit.measure import KLDivergence, Measure, SquaredDifference
 
@@ -657,6 +657,10 @@ class ScipyFit(_BaseFit):
         x0 = x0.astype(np.float64)
         fun = self.func
         if self.method == "trust-constr":
+            # keep every iterate within the bounds, the initial guess needs to be inside of them.
+            bounds = Bounds([b[0] for b in bounds], [b[1] for b in bounds], keep_feasible=True)
+            x0 = np.maximum(x0, 2.e-12)
+
             # nor does its trust-constr method support an extended precision objective
             def fun(x, *fun_args):
                 obj, d_obj = self.func(x, *fun_args)
-- 
2.43.0


From 1887ad9cb412b16afd7f98a61413de2b44ed549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 09/36] fix: remove_redundancies keeps the sum of coefficients
 for chains of close exponents

---
 bfit/greedy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index cf3a279..738fb12 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -65,14 +65,18 @@ def remove_redundancies(coeffs, fparams, eps=1e-3):
 
     # Indexes where they're the same.
     indexes_same = []
+    removed = set()  # Indexes already grouped with an earlier one
     for i, alpha in enumerate(fparams):
+        if i in removed:
+            continue
         similar_indexes = []
         for j in range(i + 1, len(fparams)):
-            if j not in similar_indexes:
+            if j not in removed:
                 if np.abs(alpha - fparams[j]) < eps:
                     if i not in similar_indexes:
                         similar_indexes.append(i)
                     similar_indexes.append(j)
+                    removed.add(j)
         if len(similar_indexes) != 0:
             indexes_same.append(similar_indexes)
 
-- 
2.43.0


From 1ae21bbe949a1dabceb4acf792b180a96f501408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 10/36] fix: greedy run starts from one s-type function each
 time it is called

---
 bfit/greedy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 738fb12..8a84968 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -507,6 +507,8 @@ class GreedyStrategy(metaclass=ABCMeta):
             raise ValueError(f"Scale {factor} should be positive.")
 
         # Initialize all the variables
+        self.num_s, self.num_p, self.err_arr = 1, 0, []
+        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
         gparams = self.get_best_one_function_solution()
         self.store_errors(gparams)
         exit_info = None  # String containing information about how it exits.
-- 
2.43.0


From 828a535743f11b35bfeeb1f07fd39802b49976a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 11/36] fix: greedy accepts local guesses whose objective
 function is above 1e10

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 8a84968..ce3dd8f 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -387,7 +387,7 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         """
         # Initialize the values being returned.
-        best_local_value = 1e10
+        best_local_value = np.inf
         best_local_param = None
         is_s_optimal = False
         for i in range(0, num_s_choices + num_p_choices):
-- 
2.43.0


From 9ec6a4dece031a75890ae93118a1ded75fde30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 12/36] fix: greedy pick-two does not exceed the maximum number
 of basis functions

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index ce3dd8f..5c462de 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -523,7 +523,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             template_iters = self._print_header()
 
         success = True
-        while numb_funcs <= max_numb_funcs - 1 and numb_redum < 5 and \
+        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \
                 np.abs(best_gval - prev_gval) >= d_threshold:
             s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
 
-- 
2.43.0


From a2ee36e8cb139a57f24df3d8613a05200eec2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 13/36] fix: one-function solution of GreedyKLFPI ignores that
 the integration is not spherical

---
 bfit/greedy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 5c462de..655016d 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -950,8 +950,8 @@ class GreedyKLFPI(GreedyStrategy):
 
     def get_best_one_function_solution(self):
         r"""Obtain the best one s-type function to Kullback-Leibler."""
-        denom = self.grid.integrate(self.density * np.power(self.grid.points ** 2, 2.))
-        exps = 3. * self.integral_dens / (2. * 4. * np.pi * denom)
+        denom = self.fitting_obj.integrate(self.density * np.power(self.model.radii, 2.))
+        exps = 1.5 * self.fitting_obj.integrate(self.density) / denom
         return np.array([self.integral_dens, exps])
 
     # pylint: disable=arguments-differ
-- 
2.43.0


From 757213529612186c361e998ba290b0d972c563ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 14/36] fix: one-function solution of GreedyLeastSquares is nan
 when the density has zeros

---
 bfit/greedy.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 655016d..a485ef5 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -754,14 +754,18 @@ class GreedyLeastSquares(GreedyStrategy):
 
     def _solve_one_function_weight(self, weight):
         r"""Solve the best one-basis function solution."""
+        # The logarithm is only defined where the density does not vanish.
+        mask = self.density > 0.
+        weight, points = weight[mask], self.grid.points[mask]
+        log_dens = np.log(self.density[mask])
         a = 2.0 * np.sum(weight)
-        sum_of_grid_squared = np.sum(weight * np.power(self.grid.points, 2))
+        sum_of_grid_squared = np.sum(weight * np.power(points, 2))
         b = 2.0 * sum_of_grid_squared
-        sum_ln_electron_density = np.sum(weight * np.log(self.density))
+        sum_ln_electron_density = np.sum(weight * log_dens)
         c = 2.0 * sum_ln_electron_density
         d = b
-        e = 2.0 * np.sum(weight * np.power(self.grid.points, 4))
-        f = 2.0 * np.sum(weight * np.power(self.grid.points, 2) * np.log(self.density))
+        e = 2.0 * np.sum(weight * np.power(points, 4))
+        f = 2.0 * np.sum(weight * np.power(points, 2) * log_dens)
         big_a = (b * f - c * e) / (b * d - a * e)
         big_b = (a * f - c * d) / (a * e - b * d)
         coefficient = np.exp(big_a)
-- 
2.43.0


From b7009dbe585abe754c4fda2ddfb194ddde6a6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 15/36] fix: one-function solution of GreedyLeastSquares with
 normalized Gaussians

---
 bfit/greedy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index a485ef5..374dbf7 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -770,6 +770,9 @@ class GreedyLeastSquares(GreedyStrategy):
         big_b = (a * f - c * d) / (a * e - b * d)
         coefficient = np.exp(big_a)
         exponent = - big_b
+        if self.model.normalized:
+            # coefficient of the normalized Gaussian
+            coefficient /= (exponent / np.pi) ** 1.5
         return np.array([coefficient, exponent])
 
     def get_best_one_function_solution(self):
-- 
2.43.0


From c7761429b884e87c63fa3bf29649b84756e72382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 16/36] fix: NNLS initial coefficients of GreedyLeastSquares
 with normalized Gaussians

---
 bfit/greedy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 374dbf7..9469435 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -805,6 +805,9 @@ class GreedyLeastSquares(GreedyStrategy):
             exponential = np.hstack(
                 (exponential, grid_squared_col * np.exp(-exponents_p * grid_squared_col))
             )
+        if self.model.normalized:
+            exponential = exponential * (exponents / np.pi) ** 1.5
+            exponential[:, self.model.num_s:] *= exponents[self.model.num_s:] / 1.5
         return exponential
 
     @staticmethod
-- 
2.43.0


From ea95d1ea24b7b7e63791320fa87bcb5b824abc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 17/36] fix: GreedyLeastSquares fails on cubic grids, it needs
 the radius of the points

---
 bfit/greedy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 9469435..e0e8d82 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -756,7 +756,7 @@ class GreedyLeastSquares(GreedyStrategy):
         r"""Solve the best one-basis function solution."""
         # The logarithm is only defined where the density does not vanish.
         mask = self.density > 0.
-        weight, points = weight[mask], self.grid.points[mask]
+        weight, points = weight[mask], self.model.radii[mask]
         log_dens = np.log(self.density[mask])
         a = 2.0 * np.sum(weight)
         sum_of_grid_squared = np.sum(weight * np.power(points, 2))
@@ -797,7 +797,7 @@ class GreedyLeastSquares(GreedyStrategy):
     def _create_cofactor_matrix(self, exponents):
         r"""Create cofactor matrix for solving nnls."""
         exponents_s = exponents[:self.model.num_s]
-        grid_squared_col = np.power(self.grid.points, 2.0).reshape((len(self.grid.points), 1))
+        grid_squared_col = np.power(self.model.radii, 2.0).reshape((len(self.grid.points), 1))
         exponential = np.exp(-exponents_s * grid_squared_col)
 
         if self.model.num_p != 0:
-- 
2.43.0


From 639be6e66570eb64b114bdb48718f17ef6e3cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 18/36] fix: axes of the rotated molecular grid are the
 principal axes, not their transpose

---
 bfit/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 15df63c..042f11c 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -332,7 +332,8 @@ class CubicGrid:
             _, v = np.linalg.eigh(itensor)
             # Project the coordinates of atoms centered at the center of mass to the eigenvectors
             new_coordinates = np.dot((atcoords - com), v)
-            axes = spacing * v
+            # (the eigenvectors are the columns of v, the axes are rows).
+            axes = spacing * v.T
         else:
             # Just use the original coordinates
             new_coordinates = atcoords
-- 
2.43.0


From e82a4a19157f5a1585a6cbc72dc69e858441bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 19/36] fix: molecular grid encloses all the atoms by the
 extension, also of asymmetric molecules

---
 bfit/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 042f11c..ee8d3a4 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -348,9 +348,12 @@ class CubicGrid:
         # Add one to include the upper-bound as well.
         shape = np.ceil(shape)
         shape = np.array(shape, int)
-        # Compute origin by taking the center of mass then subtracting the half of the number
+        # Compute origin by taking the middle of the molecule then subtracting the half of the number
         #    of points in the direction of the axes.
-        origin = com - np.dot((0.5 * shape), axes)
+        middle = 0.5 * (max_coordinate + min_coordinate)
+        if rotate:
+            middle = com + np.dot(v, middle)
+        origin = middle - np.dot((0.5 * shape), axes)
         return cls(origin, axes, shape)
 
     def _calculate_volume(self, shape):
-- 
2.43.0


From 087051dbea084ff466bb88f480449abb42a14a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 20/36] fix: divergence from a model which is nan is nan, not
 zero

---
 bfit/measure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index b5a2c11..f3d3614 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -217,6 +217,8 @@ class KLDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=1.0)
+        # The masked division also masks np.nan, but an undefined model isn't a perfect one.
+        ratio[np.isnan(model)] = np.nan
 
         # compute KL divergence
         # Add ignoring division by zero and multiplying by np.nan
@@ -344,6 +346,8 @@ class TsallisDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=0.0)
+        # The masked division also masks np.nan, but an undefined model isn't a masked one.
+        ratio[np.isnan(model)] = np.nan
         # Zero ratios (zero density or masked model) stay zero, also when alpha is less than one.
         power = np.zeros_like(ratio)
         np.power(ratio, self.alpha - 1.0, out=power, where=ratio != 0.)
-- 
2.43.0


From 0d0588f210b9d113de66162afa6ab2f3250f7f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 21/36] fix: fixed-point iteration is not successful when its
 parameters are not finite

---
 bfit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 986fd43..dbc110a 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -420,6 +420,8 @@ class KLDivergenceFPI(_BaseFit):
         # check whether convergence is reached.
         if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
             success = False
+        elif not (np.all(np.isfinite(new_cs)) and np.all(np.isfinite(new_es))):
+            success = False
         else:
             success = True
 
-- 
2.43.0


From 3ed02a3eb3e266b6cdf406e2c1bfbf0cee1689b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 22/36] fix: greedy moves back when the objective function of
 the next fit is nan

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index e0e8d82..1c0aa24 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -581,7 +581,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             p_coeffs_new, _ = remove_redundancies(p_coeffs, p_exps)
             found_s_redundances = self.num_s != len(s_coeffs_new)
             found_p_redundancies = self.num_p != len(p_coeffs_new)
-            if found_s_redundances or found_p_redundancies or opt_lvalue > best_gval:
+            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
                 # Move back one function and try a different factor to generate
                 #    better initial guesses.
                 numb_redum += 1  # Update the termination criteria
-- 
2.43.0


From 10d2193a50a89c287d5ec929808891b0509c1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 23/36] fix: greedy least-squares does not run out of
 iterations of nnls

---
 bfit/greedy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 1c0aa24..6f18e9b 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -815,7 +815,9 @@ class GreedyLeastSquares(GreedyStrategy):
         r"""Solve for the coefficients using non-linear least squares."""
         b_vector = np.copy(true_dens)
         b_vector = np.ravel(b_vector)
-        row_nnls_coefficients = nnls(cofactor_matrix, b_vector)
+        # The default number of iterations (three per column) is too small for a few columns.
+        maxiter = 100 * (cofactor_matrix.shape[1] + 1)
+        row_nnls_coefficients = nnls(cofactor_matrix, b_vector, maxiter=maxiter)
         return row_nnls_coefficients[0]
 
     # pylint: disable=arguments-differ
-- 
2.43.0


From 899507362507c1936a60a48557780a4c8b442137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 24/36] fix: Kullback-Leibler integrand is not -inf where the
 ratio of density and model underflows

---
 bfit/measure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index f3d3614..6383926 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -224,8 +224,9 @@ class KLDivergence(Measure):
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
-        # The limit of f log(f / g) as f goes to zero is zero, not np.nan.
-        value[density == 0.] = 0.
+        # The limit of f log(f / g) as f goes to zero is zero, not np.nan (or -np.inf if the
+        #    ratio of a tiny density underflows).
+        value[(density == 0.) | ((ratio == 0.) & np.isfinite(model))] = 0.
         # compute derivative
         if deriv:
             return value, -ratio
-- 
2.43.0


From 2adf876bcf6d49ff418e7916d553607dda478091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 25/36] fix: reject a center of several elements for 1D points

With N 1D points, a center of N elements was broadcast against the points
(and any center against a single point), which gave radii that mean nothing.
---
 bfit/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/model.py b/bfit/model.py
index 9928c12..813da2c 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -81,6 +81,8 @@ class AtomicGaussianDensity:
                 raise ValueError("Argument center should be a 1D numpy array.")
             if points.ndim > 1 and points.shape[1] != center.size:
                 raise ValueError("Points & center should have the same number of columns.")
+            if points.ndim == 1 and center.size != 1:
+                raise ValueError("Argument center should have one element for 1D points.")
         elif points.ndim > 1:
             center = np.array([0.] * points.shape[1])
         else:
-- 
2.43.0


From 49ca7ec0d554585c7f1357693a4f1535d78476c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 26/36] fix: greedy fit which converges one function below the
 maximum is a success

It was reported as unsuccessful and as having reached the maximum number of
functions, unlike the same fit with a larger maximum.
---
 bfit/greedy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 6f18e9b..6876677 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -607,7 +607,8 @@ class GreedyStrategy(metaclass=ABCMeta):
                     np.abs(best_gval - prev_gval)
                 ))
 
-        if numb_funcs == max_numb_funcs - 1 or numb_redum == 5:
+        converged = np.abs(best_gval - prev_gval) < d_threshold
+        if (numb_funcs == max_numb_funcs - 1 and not converged) or numb_redum == 5:
             success = False
             if numb_redum == 5:
                 exit_info = f"Next Iteration Did Not Find The Best Choice at" \
@@ -648,11 +649,11 @@ class GreedyStrategy(metaclass=ABCMeta):
     def _final_exit_info(num_func, max_func, best_val, prev_gval, d_threshold):
         r"""Return string that holds how the greedy algorithm teminated."""
         exit_info = None
-        if not num_func < max_func - 1:
-            exit_info = "Max number of functions reached,  " + str(num_func)
-        elif np.abs(best_val - prev_gval) < d_threshold:
+        if np.abs(best_val - prev_gval) < d_threshold:
             exit_info = "Cost function is less than some epsilon: " + \
                              str(best_val - prev_gval) + " <= " + str(d_threshold)
+        elif not num_func < max_func - 1:
+            exit_info = "Max number of functions reached,  " + str(num_func)
         if exit_info is None:
             raise RuntimeError(f"Exit information {exit_info} should not be None. "
                                f"There is an error in the termination of the algorithm.")
-- 
2.43.0


From 4550946bfee884b0db057580c1044b58476e1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 27/36] fix: greedy least-squares starts from the best of the
 solutions which exist

The minimum over the objectives was nan if the first of the three was.
---
 bfit/greedy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 6876677..e686d7f 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -791,7 +791,9 @@ class GreedyLeastSquares(GreedyStrategy):
         cost_func3 = self.eval_obj_function(p3)
 
         p_min = min(
-            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)], key=lambda t: t[0]
+            [(cost_func1, p1), (cost_func2, p2), (cost_func3, p3)],
+            # a negative exponent cannot be normalized, then the cost function is nan.
+            key=lambda t: np.inf if np.isnan(t[0]) else t[0]
         )
         return p_min[1]
 
-- 
2.43.0


From c2dedc38746cabb483302aeea11020e1521be07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 28/36] fix: refuse negative indices of basis functions

MolecularGaussianDensity.assign_basis_to_center(-1) returned the first center instead of
raising the ValueError of indices which are out of range.
---
 bfit/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/model.py b/bfit/model.py
index 813da2c..42814e7 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -411,7 +411,7 @@ class MolecularGaussianDensity:
             The index of atomic center.
 
         """
-        if index >= self.nbasis:
+        if index < 0 or index >= self.nbasis:
             raise ValueError(f"The {index} is invalid for {self.nbasis} basis.")
         # compute the number of basis on each center
         nbasis = np.sum(self._basis, axis=1)
-- 
2.43.0


From 8ea1a21cc2daea74e44464d5c79acf482ec56121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 29/36] fix: distances from centers of small or unsigned
 integers

---
 bfit/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/model.py b/bfit/model.py
index 42814e7..0cd1b9d 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -87,6 +87,8 @@ class AtomicGaussianDensity:
             center = np.array([0.] * points.shape[1])
         else:
             center = np.array([0.])
+        # differences of small (or unsigned) integers would overflow
+        center = 1.0 * center
         self.coord = center
 
         # compute radii (distance of points from center center)
-- 
2.43.0


From 04ede146a5c88e54ccc562c114217f7bd8ce530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 30/36] fix: exponents given as unsigned integers

---
 bfit/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/model.py b/bfit/model.py
index 0cd1b9d..bee2948 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -198,6 +198,8 @@ class AtomicGaussianDensity:
         if coeffs.size != self.nbasis:
             raise ValueError(f"Argument coeffs should have size {self.nbasis}.")
 
+        # unsigned integers cannot be negated
+        expons = 1.0 * expons
         # evaluate all Gaussian basis on the grid, i.e., exp(-a * r**2)
         matrix = np.exp(-expons[None, :] * np.power(self.radii, 2)[:, None])
 
-- 
2.43.0


From 154791d5d144577adf9a90025296fdda8adc8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 31/36] fix: gradient of the objective at parameters of
 integers

---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index dbc110a..d933802 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -736,7 +736,7 @@ class ScipyFit(_BaseFit):
         k, dk = self.measure.evaluate(self.density, m, deriv=True)
         # compute objective function & its derivative
         obj = self.integrate(self.weights * k)
-        d_obj = np.zeros_like(x)
+        d_obj = np.zeros_like(x, dtype=np.result_type(x, np.float64))
         for index in range(len(x)):
             d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
         return obj, d_obj
-- 
2.43.0


From c2c92a1d5df371a50954c5024d81cc74ad13780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 32/36] fix: next choices of the greedy algorithm from arrays
 of integers

---
 bfit/greedy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index e686d7f..8da9618 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -125,6 +125,8 @@ def get_next_choices(factor, coeffs, fparams, coeff_val=100.):
         List of the next possible initial guesses for :math:`(n+1)` basis-functions,
         coefficients are listed first, then exponents.
     """
+    # inserting into arrays of integers would truncate the new values
+    coeffs, fparams = np.multiply(1.0, coeffs), np.multiply(1.0, fparams)
     size = fparams.shape[0]
     all_choices = []
     for index, exp in np.ndenumerate(fparams):
@@ -199,6 +201,8 @@ def get_two_next_choices(factor, coeffs, fparams, coeff_val=100.):
                 all_choices_of_coeffs.append(np.append(coeffs, np.array([coeff_val])))
         return all_choices_of_coeffs, all_choices_of_exponents
 
+    # inserting into arrays of integers would truncate the new values
+    coeffs, fparams = np.multiply(1.0, coeffs), np.multiply(1.0, fparams)
     size = len(fparams)
     choices_coeff = []
     choices_fparams = []
-- 
2.43.0


From 57a5ee5ba27251840a38777627971528984febfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 33/36] fix: one-function solutions of a density of small
 integers

---
 bfit/greedy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 8da9618..965b032 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -762,7 +762,8 @@ class GreedyLeastSquares(GreedyStrategy):
         # The logarithm is only defined where the density does not vanish.
         mask = self.density > 0.
         weight, points = weight[mask], self.model.radii[mask]
-        log_dens = np.log(self.density[mask])
+        # the logarithm of small integers has half precision only
+        log_dens = np.log(1.0 * self.density[mask])
         a = 2.0 * np.sum(weight)
         sum_of_grid_squared = np.sum(weight * np.power(points, 2))
         b = 2.0 * sum_of_grid_squared
-- 
2.43.0


From 345590f0f3f614efa97879e732c4e25f1156853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 34/36] fix: radial integration of small integers

---
 bfit/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index ee8d3a4..7f595af 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -74,7 +74,8 @@ class _BaseRadialGrid:
             raise ValueError(
                 f"The argument arr should have {self.points.shape} shape!"
             )
-        return np.trapz(y=arr, x=self.points)
+        # sums of small integers would overflow
+        return np.trapz(y=1.0 * arr, x=self.points)
 
 
 class UniformRadialGrid(_BaseRadialGrid):
-- 
2.43.0


From ac777bb444e6418f7592fea1a2b9a60f81043a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 35/36] fix: cubic grids from arrays of small integers

---
 bfit/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 7f595af..a1a2923 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -316,6 +316,8 @@ class CubicGrid:
             If False, generates axes based on the x,y,z-axis and the spacing parameter, and
             the origin is defined by the maximum/minimum of the atomic coordinates.
         """
+        # sums and products of small integers would overflow
+        atcoords = np.multiply(1.0, atcoords)
         # calculate center of mass of the nuclear charges:
         totz = np.sum(atcorenums)
         com = np.dot(atcorenums, atcoords) / totz
@@ -363,9 +365,11 @@ class CubicGrid:
         #       initializing the _HyperRectangleGrid (where shape is set there).
         # Three-Dims: Volume of a parallelepiped spanned by a, b, c is  | (a x b) dot c|.
         if len(shape) == 3:
+            # products of small integers would overflow
+            axes = np.multiply(1.0, self.axes)
             volume = np.dot(
-                np.cross(shape[0] * self.axes[0], shape[1] * self.axes[1]),
-                shape[2] * self.axes[2],
+                np.cross(shape[0] * axes[0], shape[1] * axes[1]),
+                shape[2] * axes[2],
             )
         else:
             # Two-Dims: Volume of a parallelogram is the absolute value of the determinant |a x b|
-- 
2.43.0


From a263ff647747fe8bb96b32b8b9e18021acd389ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 36/36] fix: squared difference of small or unsigned integers

---
 bfit/measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 6383926..84135f2 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -108,7 +108,8 @@ class SquaredDifference(Measure):
         if not isinstance(deriv, bool):
             raise TypeError(f"Deriv {type(deriv)} should be Boolean type.")
         # compute residual
-        residual = density - model
+        # differences of small (or unsigned) integers would overflow
+        residual = 1.0 * density - model
         # compute squared residual
         value = np.power(residual, 2)
         # compute derivative of squared residual w.r.t. model
-- 
2.43.0

