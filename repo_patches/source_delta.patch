From bb1ea4bd331eeac2249d88ef043211321b169b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:44 +0000
Subject: [PATCH 001/131] fix: special functions no longer overwrite the
 caller's array

---
 copulae/special/_specfunc.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index cbdceda..1361899 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -82,7 +82,7 @@ cdef:
 def clausen(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -98,7 +98,7 @@ def clausen(x, bint threaded=True):
 def debye_1(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -114,7 +114,7 @@ def debye_1(x, bint threaded=True):
 def debye_2(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -130,7 +130,7 @@ def debye_2(x, bint threaded=True):
 def dilog(x, bint threaded):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -149,8 +149,8 @@ def dilog_complex(r, theta, bint threaded):
 
     cdef:
         ComplexResult c
-        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.ravel()
-        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.flatten()
+        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.flatten()
         int n = r_vec.size
 
     assert r.shape == theta.shape, "Radius of complex vector must have same shape as the angled part"
-- 
2.43.0


From 995a1b8a5cbdbaee6f75f4815ebd5d0514e276f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:56 +0000
Subject: [PATCH 002/131] fix: angle reduction of the Clausen function for
 arguments beyond 2 pi

---
 copulae/special/_specfunc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index 1361899..5218a38 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -170,7 +170,7 @@ cdef double angle_restrict_pos_err(double theta) nogil:
     cdef:
         double two_pi = 2 * PI
         double y = 2 * cm.floor(theta / two_pi)
-        double r = theta - y * 2 * two_pi
+        double r = theta - y * PI
 
     if cm.fabs(theta) > 0.0625 / DBL_EPSILON:
         return cm.NAN
-- 
2.43.0


From e9fa49a2ca71ec6fd52da02d213d157a41768c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:00 +0000
Subject: [PATCH 003/131] fix: log1mexp and log1pexp lose all precision for
 small or large arguments

---
 copulae/special/special_func.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 1754d3a..adabbab 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -88,7 +88,9 @@ def log1mexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 - np.exp(-x))
+    x = np.asarray(x, float)
+    with np.errstate(all='ignore'):
+        return np.where(x > np.log(2), np.log1p(-np.exp(-x)), np.log(-np.expm1(-x)))[()]
 
 
 def log1pexp(x):
@@ -105,7 +107,7 @@ def log1pexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 + np.exp(x))
+    return np.logaddexp(0, x)
 
 
 def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] = None) -> Union[np.ndarray, float]:
-- 
2.43.0


From 8eb508a01d6f3d5a8199b9052740990988ec8eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:28 +0000
Subject: [PATCH 004/131] fix: comb and perm return NaN once n exceeds 170

---
 copulae/special/combinatorics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/special/combinatorics.py b/copulae/special/combinatorics.py
index 9f8b8d0..54bfffc 100644
--- a/copulae/special/combinatorics.py
+++ b/copulae/special/combinatorics.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import gammaln, gamma
+from scipy.special import binom, gammaln, poch
 
 __all__ = ['comb', 'perm']
 
@@ -29,7 +29,7 @@ def comb(n, r, log=False):
 
     if log:
         return gammaln(n + 1) - gammaln(n + 1 - r) - gammaln(r + 1)
-    return gamma(n + 1) / (gamma(n + 1 - r) * gamma(r + 1))
+    return binom(n, r)
 
 
 def perm(n, r, log=False):
@@ -57,4 +57,4 @@ def perm(n, r, log=False):
 
     if log:
         return gammaln(n + 1) - gammaln(n + 1 - r)
-    return gamma(n + 1) / gamma(n + 1 - r)
+    return poch(n + 1 - r, r)
-- 
2.43.0


From 24093ce0e6d09ef31c43458e3695c2d0229ee11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:49 +0000
Subject: [PATCH 005/131] fix: factorials overflow in poly_log for orders below
 -20

---
 copulae/special/special_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index adabbab..ac27990 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -205,7 +205,7 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
 
     if method == 'neg-stirling':
         r = z / iz
-        f = np.cumprod([1, *range(1, n + 1)])
+        f = np.cumprod([1., *range(1, n + 1)])
         s = stirling_second_all(n + 1)
         p = polyn_eval(f * s, r)
         if log:
-- 
2.43.0


From 7477993a7dc5b35cfb8851ec1d63339218614003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 006/131] fix: poly_log ignores log=True for the dilogarithm

---
 copulae/special/special_func.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index ac27990..22abe1a 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -189,7 +189,8 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     method = method.lower()
     assert method in ('default', 'neg-stirling', 'neg-eulerian')
     if s == 2 and method == 'default':
-        return dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        r = dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        return np.log(r) if log else r
 
     elif method == 'default':
         method = 'neg-stirling'
-- 
2.43.0


From 209dcfcee42b9dfd84262b0fdc758667982858af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 007/131] fix: Eulerian numbers are inexact from n = 18 on

---
 copulae/special/special_func.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 22abe1a..ce96ce2 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -1,9 +1,10 @@
+import math
 from typing import Iterable, Optional, Union
 
 import numpy as np
 from scipy.stats import logistic as logis
 
-from copulae.special.combinatorics import comb
+
 from copulae.special.dilog import dilog, dilog_complex
 
 __all__ = ['eulerian', 'eulerian_all', 'log1mexp', 'log1pexp', 'log_sum', 'poly_log', 'polyn_eval', 'sign_ff',
@@ -40,17 +41,14 @@ def eulerian(n, k):
 
     assert 0 <= k <= n, "`k` must be in the range of [0, `n`]"
 
-    if k == n:
-        return 0
     if k == 0:
         return 1
+    if k == n:
+        return 0
     if k >= (n + 1) // 2:
         k = n - k - 1
     k1 = k + 1
-    sig = np.ones(k1)
-    sig[1::2] *= -1
-
-    return int(round(sum(sig * comb(n + 1, np.arange(k + 1)) * np.arange(k1, 0, -1, np.float64) ** n)))
+    return sum((-1) ** i * math.comb(n + 1, i) * (k1 - i) ** n for i in range(k1))
 
 
 def eulerian_all(n):
-- 
2.43.0


From 2759c77a58c083efad9faf108798e2423332a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:03 +0000
Subject: [PATCH 008/131] fix: sign_ff raises for scalar arguments and for
 alpha = 1

---
 copulae/special/special_func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index ce96ce2..f57f239 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -292,7 +292,7 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
     assert np.all(j >= 0), "all elements in `j` must be >= 0"
 
     if d.ndim == 0 and j.ndim == 0:
-        d, j = int(d), int(j)
+        d, j = d.reshape(1), j.reshape(1)
     elif d.ndim == 0 and j.ndim > 0:
         d = np.repeat(d, len(j))
     elif j.ndim == 0 and d.ndim > 0:
@@ -304,7 +304,7 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
             d = np.asarray([d[i % len(d)] for i in range(len(j))])
 
     if alpha == 1:
-        res = (j > d) * (-1) ** (d - j) + (j == d)
+        res = (j > d) * (-1.) ** (d - j) + (j == d)
     else:
         res = np.where(j > d, np.nan, 0)
         x = alpha * j
-- 
2.43.0


From 96be3706c3363e98958e8097e95df994c36314a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:30 +0000
Subject: [PATCH 009/131] fix: Frank inverse generator is wrong for u <= 0.01

---
 copulae/archimedean/frank.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 83a6a02..8c13098 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -76,7 +76,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['u'], optional=True)
     @squeeze_output
     def ipsi(self, u, log=False):
-        r = np.asarray(u) * self.params
+        r = np.asarray(np.asarray(u) * self.params)
 
         res = np.copy(r)
         res[np.isnan(r)] = np.nan
@@ -92,10 +92,10 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         m1 = big_mask & mid_mask
         m2 = big_mask & ~mid_mask
-        r[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
-        r[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
+        res[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
+        res[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
 
-        return np.log(r) if log else r
+        return np.log(res) if log else res
 
     def irho(self, rho: Array):  # pragma: no cover
         # TODO frank: add inverse rho
-- 
2.43.0


From 167f5c594cb2d36f12ef919e584bfa3c960f80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 010/131] fix: Frank generator overwrites the caller's array

---
 copulae/archimedean/frank.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 8c13098..f5b91f1 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -164,11 +164,11 @@ class FrankCopula(AbstractArchimedeanCopula):
             return np.exp(-s)
         else:
             const = log1mexp(self.params)
-            m = np.less(s, const, where=~np.isnan(s))
+            m = s >= const
 
-            s[m] = np.nan
-            s[~m] = -log1mexp(s[~m] - log1mexp(self.params)) / self.params
-            return s
+            res = np.full(s.shape, np.nan)
+            res[m] = -log1mexp(s[m] - const) / self.params
+            return res
 
     @cast_output
     def random(self, n: int, seed: int = None):
-- 
2.43.0


From 3ed72b8fb34bd1fdbb59872a55ebfb5364951b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 011/131] fix: derivative of Spearman's rho of the Frank copula

---
 copulae/archimedean/frank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index f5b91f1..90276c4 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -64,7 +64,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     def drho(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return 12 * (x / np.expm1(x) - 3 * debye1(x) + 2 * debye1(x)) / x ** 2
+        return 12 * (x / np.expm1(x) - 3 * debye2(x) + 2 * debye1(x)) / x ** 2
 
     @cast_input(['x'], optional=True)
     @squeeze_output
-- 
2.43.0


From 1d68cb0a9cc21f2bdea44ac11457eaa75b997587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:35 +0000
Subject: [PATCH 012/131] fix: derivative of Kendall's tau of the Frank copula

---
 copulae/archimedean/frank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 90276c4..3abcd8d 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -71,7 +71,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     def dtau(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return (x / np.expm1(x) + 1 - debye1(x) / x) * (2 / x) ** 2
+        return (x / np.expm1(x) + 1 - 2 * debye1(x)) * (2 / x) ** 2
 
     @cast_input(['u'], optional=True)
     @squeeze_output
-- 
2.43.0


From 3857f07fc36c50dfeb4828b1b625a9f68d715520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:04 +0000
Subject: [PATCH 013/131] fix: Frank itau raises when tau is zero

---
 copulae/archimedean/frank.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 3abcd8d..c7c5c65 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -104,12 +104,11 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['tau'])
     @squeeze_output
     def itau(self, tau):
-        res = np.array([find_root(lambda x: self._tau(x) - t,
+        res = np.array([9. * t if np.isclose(t, 0) else
+                        find_root(lambda x: self._tau(x) - t,
                                   2.2e-16 if t > 0 else -1e20,
                                   1e20 if t > 0 else -2.2e-16) for t in tau.ravel()])
-        res = res.reshape(tau.shape)
-        res[tau == 0] = tau[tau == 0]
-        return res
+        return res.reshape(tau.shape)
 
     @property
     def lambda_(self):  # pragma: no cover
-- 
2.43.0


From 6cdc4a1529084f9118dfa561004f4625e9550d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 014/131] fix: Frank density is NaN for negative and zero
 parameters

---
 copulae/archimedean/frank.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index c7c5c65..8796ad2 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -136,7 +136,15 @@ class FrankCopula(AbstractArchimedeanCopula):
         ok = valid_rows_in_u(u)
         res = np.repeat(np.nan, n)
 
-        u_ = u[ok]
+        if theta == 0:
+            res[ok] = 0
+            return res if log else np.exp(res)
+
+        u_ = np.asarray(u)[ok]
+        if theta < 0:  # dim == 2, reflection of the copula with the positive parameter
+            theta = -theta
+            u_ = np.column_stack([u_[:, 0], 1 - u_[:, 1]])
+
         u_sum = u_.sum(1)
         lp = log1mexp(theta)
         lpu = log1mexp(theta * u_)
-- 
2.43.0


From f796b0e7b584cf946a1cf545123f6263df27d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 015/131] fix: Frank cdf is 1 everywhere when the parameter is
 zero

---
 copulae/archimedean/frank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 8796ad2..bb60a49 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -76,6 +76,9 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['u'], optional=True)
     @squeeze_output
     def ipsi(self, u, log=False):
+        if self.params == 0:
+            return np.log(-np.log(u)) if log else -np.log(u)
+
         r = np.asarray(np.asarray(u) * self.params)
 
         res = np.copy(r)
-- 
2.43.0


From 48b36e082f9408a130c160c1bb77f2a2f8f45955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:53 +0000
Subject: [PATCH 016/131] fix: Frank cdf loses all precision for large negative
 parameters

---
 copulae/archimedean/frank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index bb60a49..1a14629 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -80,6 +80,9 @@ class FrankCopula(AbstractArchimedeanCopula):
             return np.log(-np.log(u)) if log else -np.log(u)
 
         r = np.asarray(np.asarray(u) * self.params)
+        if self.params < 0:
+            res = r - self.params + log1mexp(-self.params) - log1mexp(-r)
+            return np.log(res) if log else res
 
         res = np.copy(r)
         res[np.isnan(r)] = np.nan
-- 
2.43.0


From 692c0bf082c1af1df1eb6f5c481981f45005252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 017/131] fix: Frank density overflows for large parameters

---
 copulae/archimedean/frank.py    |  3 +--
 copulae/special/special_func.py | 13 +++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 1a14629..c79406c 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -156,8 +156,7 @@ class FrankCopula(AbstractArchimedeanCopula):
         lpu = log1mexp(theta * u_)
         lu = lpu.sum(1)
 
-        li_arg = np.exp(lp + (lpu - lp).sum(1))
-        li = poly_log(li_arg, 1 - d, log=True)
+        li = poly_log(lp + (lpu - lp).sum(1), 1 - d, log=True, is_log_z=True)
 
         res[ok] = (d - 1) * np.log(theta) + li - theta * u_sum - lu
 
diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index f57f239..38ed834 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -154,7 +154,7 @@ def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] =
     return res if len(res) > 1 else res[0]
 
 
-def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
+def poly_log(z, s, method='default', log=False, is_log_z=False) -> Union[float, np.ndarray]:
     r"""
     Computes the polylogarithm function. Current implementation only takes care of :math:`s \leq 0`
 
@@ -176,6 +176,9 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     log: bool
         If True, returns the log of poly logarithms
 
+    is_log_z: bool
+        If True, `z` is the log of the argument, which retains precision for arguments close to 1
+
     Returns
     -------
     {array_like, scalar}
@@ -184,6 +187,9 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     if isinstance(z, (complex, int, float)):
         z = np.ravel(z)
 
+    iz = -np.expm1(z) if is_log_z else 1 - z
+    z = np.exp(z) if is_log_z else z
+
     method = method.lower()
     assert method in ('default', 'neg-stirling', 'neg-eulerian')
     if s == 2 and method == 'default':
@@ -199,7 +205,6 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
         r = -np.log1p(-z)
         return np.log(r) if log else r
 
-    iz = 1 - z
     n = abs(int(s))
 
     if method == 'neg-stirling':
@@ -208,7 +213,7 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
         s = stirling_second_all(n + 1)
         p = polyn_eval(f * s, r)
         if log:
-            res = np.log(p) + logis.ppf(z)
+            res = np.log(p) + (np.log(r) if is_log_z else logis.ppf(z))
         else:
             res = r * p
 
@@ -216,7 +221,7 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
         #  method == 'neg-eulerian'
         p = polyn_eval(eulerian_all(n), z)
         if log:
-            res = np.log(p) + np.log(z) - (n + 1) * np.log1p(-z)
+            res = np.log(p) + np.log(z) - (n + 1) * (np.log(iz) if is_log_z else np.log1p(-z))
         else:
             res = z * p / iz ** (n + 1)
 
-- 
2.43.0


From 688fddf6984e0799525db9501f0238ea3e04fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:08 +0000
Subject: [PATCH 018/131] fix: log-series variates used by the Frank sampler do
 not follow their distribution

---
 copulae/stats/log.py | 61 +++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/copulae/stats/log.py b/copulae/stats/log.py
index 4d6864d..91cc32c 100644
--- a/copulae/stats/log.py
+++ b/copulae/stats/log.py
@@ -5,41 +5,26 @@ from copulae.types import Numeric
 
 def random_log_series_ln1p(alpha: float, size: Numeric = 1):
     """"""
-    if alpha < -3:
-        # random variate following the logarithmic (series) distribution Log(alpha)
-        p = - alpha / np.log(1 - np.expm1(alpha))
-        u = np.random.uniform(size=size)
-
-        up = u > p
-        x = 1
-        while np.any(up):
-            u[up] -= p
-            x += 1
-            p *= alpha * (x - 1) / x
-
-            up = u > p
-        return u
-    else:
-        # random variate following the logarithmic (series) distribution Log(1 - e^h)
-        e = -np.expm1(alpha)
-        u1 = np.random.uniform(size=size)
-        u2 = np.random.uniform(size=size)
-
-        h = u2 * alpha
-        q = -np.expm1(h)
-        log_q = np.where(h > -0.69314718055994530942, np.log(-np.expm1(h)), np.log1p(-np.exp(h)))
-
-        mask1 = u1 > e
-        mask2 = u1 < q * q
-        mask3 = mask2 & (log_q == 0)
-        mask4 = mask2 & (log_q != 0)
-        mask5 = ~mask2 & (u1 > q)
-        mask6 = ~mask2 & (u1 <= q)
-
-        u1[mask6] = 2
-        with np.errstate(invalid='ignore'):
-            u1[mask4] = 1 + np.floor(np.log(u1 / log_q))[mask4]
-        u1[mask3] = np.inf
-        u1[mask1 | mask5] = 1
-
-        return u1
+    # random variate following the logarithmic (series) distribution Log(1 - e^h)
+    e = -np.expm1(alpha)
+    u1 = np.random.uniform(size=size)
+    u2 = np.random.uniform(size=size)
+
+    h = u2 * alpha
+    q = -np.expm1(h)
+    log_q = np.where(h > -0.69314718055994530942, np.log(-np.expm1(h)), np.log1p(-np.exp(h)))
+
+    mask1 = u1 > e
+    mask2 = u1 < q * q
+    mask3 = mask2 & (log_q == 0)
+    mask4 = mask2 & (log_q != 0)
+    mask5 = ~mask2 & (u1 > q)
+    mask6 = ~mask2 & (u1 <= q)
+
+    u1[mask6] = 2
+    with np.errstate(invalid='ignore'):
+        u1[mask4] = 1 + np.floor(np.log(u1) / log_q)[mask4]
+    u1[mask3] = np.inf
+    u1[mask1 | mask5] = 1
+
+    return u1
-- 
2.43.0


From e049ed0cd1885a083159bbd82a9929581c7f35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:13 +0000
Subject: [PATCH 019/131] fix: Frank samples are all 1 when the parameter is
 very large

---
 copulae/archimedean/frank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index c79406c..ee57e94 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -197,7 +197,7 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         # alpha too large
         if log1mexp(self.params) == 0:
-            return np.ones((n, self.dim))
+            return np.repeat(u[:, :1], self.dim, axis=1)
 
         fr = random_log_series_ln1p(-self.params, n)[:, None]
         return self.psi(-np.log(u) / fr)
-- 
2.43.0


From d53d3fed86d015224f64e86768c44e96c4479e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:39 +0000
Subject: [PATCH 020/131] fix: Clayton cdf raises when the parameter is zero

---
 copulae/archimedean/clayton.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 4e6d950..c9aebfc 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -75,7 +75,10 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @cast_input(['u'])
     @squeeze_output
     def ipsi(self, u: Array, log=False):
-        v = np.sign(self._theta) * (u ** -self._theta - 1)
+        if self._theta == 0:
+            v = -np.log(u)
+        else:
+            v = np.sign(self._theta) * (u ** -self._theta - 1)
         return np.log(v) if log else v
 
     @cast_input(['tau'])
@@ -139,6 +142,8 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @cast_input(['s'])
     @squeeze_output
     def psi(self, s: Array):
+        if self._theta == 0:
+            return np.exp(-s)
         return np.maximum(1 + np.sign(self._theta) * s, np.zeros_like(s)) ** (-1 / self._theta)
 
     @cast_output
-- 
2.43.0


From 30ef1140db3429fd54c5e5e2efe00f27e59d040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 021/131] fix: Clayton density is 0 instead of 1 when the
 parameter is zero

---
 copulae/archimedean/clayton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index c9aebfc..2884f89 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -123,7 +123,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             return log_pdf
         elif theta == 0:
             log_pdf[ok] = 0
-            return log_pdf
+            return log_pdf if log else np.exp(log_pdf)
 
         lu = np.log(u).sum(1)
         t = self.ipsi(u).sum(1)
-- 
2.43.0


From 97dac15593ecbbe756493586efc935f7daec0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 022/131] fix: Clayton density is finite for points outside the
 unit cube

---
 copulae/archimedean/clayton.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 2884f89..2fbc4c1 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -136,6 +136,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         else:
             p = np.log1p(theta * np.arange(1, d)).sum()
             log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * np.log1p(t)
+            log_pdf[~ok] = np.nan
 
         return log_pdf if log else np.exp(log_pdf)
 
-- 
2.43.0


From f829fe240fd051a757694528006c717751ec3180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 023/131] fix: Clayton dipsi is NaN for negative parameters

---
 copulae/archimedean/clayton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 2fbc4c1..9918b7d 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -48,9 +48,9 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         t = self.params
 
         if degree == 1:
-            a = np.log(t) - (1 + t) * np.log(u)
+            a = np.log(abs(t)) - (1 + t) * np.log(u)
         else:
-            a = np.log(t) + np.log1p(t) - (t + 2) * np.log(u)
+            a = np.log(abs(t)) + np.log1p(t) - (t + 2) * np.log(u)
 
         return s * (a if log else np.exp(a))
 
-- 
2.43.0


From 99ff50632a4e116d5f4ad0265508c8576383086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 024/131] fix: Clayton constructor accepts parameters below -1

---
 copulae/archimedean/clayton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 9918b7d..de08445 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -35,7 +35,8 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             Dimension of the copula
         """
         super().__init__(dim, theta, 'Clayton')
-        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension == 2'
+        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension > 2'
+        assert not (dim == 2 and theta < -1), 'Clayton Copula parameter must be >= -1 when dimension == 2'
 
         self._bounds = (-1 + EPS) if dim == 2 else 0, np.inf
 
-- 
2.43.0


From 72b39868bdde6bf5b6b68500e9aaf55cf08ba315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 025/131] fix: Clayton cdf loses all precision for parameters
 close to zero

---
 copulae/archimedean/clayton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index de08445..c323155 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -79,7 +79,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         if self._theta == 0:
             v = -np.log(u)
         else:
-            v = np.sign(self._theta) * (u ** -self._theta - 1)
+            v = np.sign(self._theta) * np.expm1(-self._theta * np.log(u))
         return np.log(v) if log else v
 
     @cast_input(['tau'])
@@ -146,7 +146,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     def psi(self, s: Array):
         if self._theta == 0:
             return np.exp(-s)
-        return np.maximum(1 + np.sign(self._theta) * s, np.zeros_like(s)) ** (-1 / self._theta)
+        return np.exp(-np.log1p(np.maximum(np.sign(self._theta) * s, -1)) / self._theta)
 
     @cast_output
     def random(self, n: int, seed: int = None) -> np.ndarray:
-- 
2.43.0


From 9f8957b2a5f341e9daa02bf8512198d2722518ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 026/131] fix: Clayton dipsi is 0 when the parameter is zero

---
 copulae/archimedean/clayton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index c323155..64a1ae7 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -49,9 +49,9 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         t = self.params
 
         if degree == 1:
-            a = np.log(abs(t)) - (1 + t) * np.log(u)
+            a = np.log(abs(t) or 1) - (1 + t) * np.log(u)
         else:
-            a = np.log(abs(t)) + np.log1p(t) - (t + 2) * np.log(u)
+            a = np.log(abs(t) or 1) + np.log1p(t) - (t + 2) * np.log(u)
 
         return s * (a if log else np.exp(a))
 
-- 
2.43.0


From be99eb477f5a25166502d68a3dfe300b3301e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:01 +0000
Subject: [PATCH 027/131] fix: Clayton random raises when the parameter is -1

---
 copulae/archimedean/clayton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 64a1ae7..dceb8d6 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -159,7 +159,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         r = random_uniform(n, self.dim, seed)
         if self.dim == 2:
-            r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** (-theta / (theta + 1)) - 1) + 1) ** (-1 / theta)
+            r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** np.divide(-theta, theta + 1) - 1) + 1) ** (-1 / theta)
             return r
         else:
             gam = rng.standard_gamma(1 / theta, n)[:, None]
-- 
2.43.0


From 9620200dbb275b172d3148ec575786bef136a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 028/131] fix: Gumbel tail dependence is not a property and has
 the wrong value

---
 copulae/archimedean/gumbel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c38cbfa..af619fa 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -166,8 +166,9 @@ class GumbelCopula(AbstractArchimedeanCopula):
                 tau[tau < 0] = 0
         return 1 / (1 - tau)
 
+    @property
     def lambda_(self):
-        return TailDep(0, 2 * 2 ** (1 / self.params))
+        return TailDep(0, 2 - 2 ** (1 / self.params))
 
     @property
     def params(self):
-- 
2.43.0


From 9a74f35ed040d3facc0b65cca32d7e9a074ac813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 029/131] fix: Gumbel Pickands function raises for scalars

---
 copulae/archimedean/gumbel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index af619fa..efc2612 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -71,8 +71,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         """
         bnd = (w == 0) | (w == 1)
         r = (w ** self.params + (1 - w) ** self.params) ** (1 / self.params)
-        r[bnd] = 1
-        return r
+        return np.where(bnd, 1, r)
 
     @cast_input(['w'])
     @squeeze_output
-- 
2.43.0


From 608f3b13e5206adedf1d2332f0422f59817dff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 030/131] fix: derivatives of the Gumbel Pickands function
 always raise

---
 copulae/archimedean/gumbel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index efc2612..edf6cff 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -102,7 +102,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         expr4 = expr3 - 1
         expr5 = expr2 ** expr4
         expr6 = alpha - 1
-        expr7 = alpha * w ** expr6 - alpha * expr1 ^ expr6
+        expr7 = alpha * w ** expr6 - alpha * expr1 ** expr6
         expr8 = expr3 * expr7
         expr9 = expr6 - 1
         # value = expr4 ** expr5
@@ -112,7 +112,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
                alpha * expr3 * expr5 * expr6 * (w ** expr9 + expr1 ** expr9)
 
         if isinstance(grad, float) and isinstance(hess, float):
-            return grad, hess
+            return np.array([grad, hess])
         else:
             res = np.zeros((len(grad), 2))
             res[:, 0] = grad
-- 
2.43.0


From d6b1ea4a4d9be1ab0a1c733a0c69e81d2b1b9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:54 +0000
Subject: [PATCH 031/131] fix: Gumbel itau overwrites negative values in the
 caller's array

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index edf6cff..8bb7130 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -162,7 +162,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         else:
             if np.any(tau < 0):
                 warnings.warn(warning_message)
-                tau[tau < 0] = 0
+                tau = np.where(tau < 0, 0, tau)
         return 1 / (1 - tau)
 
     @property
-- 
2.43.0


From d23d559459cbf8b0fe1a67c48fd7e24dec02177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 032/131] fix: Gumbel density is NaN in the upper corner for
 large parameters

---
 copulae/archimedean/gumbel.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 8bb7130..e6db9fe 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -203,12 +203,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
         lip = self.ipsi(u, log=True)  # log ipsi u
 
         # get sum of logs
-        if u.ndim == 1:
-            offset = np.max(u)
-            ln = offset + np.log(np.exp(lip - offset).sum(1))
-        else:
-            offset = np.max(u, axis=1)
-            ln = offset + np.log(np.exp(lip - offset[:, None]).sum(1))
+        offset = np.max(np.asarray(lip), axis=1)
+        ln = offset + np.log(np.exp(np.asarray(lip) - offset[:, None]).sum(1))
 
         alpha = 1 / self.params
         lx = alpha * ln
-- 
2.43.0


From f32dde816f9be0413248cb7d2ddd0ecd7afe7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:51 +0000
Subject: [PATCH 033/131] fix: Gumbel density is NaN in more than 30 dimensions

---
 copulae/archimedean/gumbel.py | 59 ++++++++++++-----------------------
 1 file changed, 20 insertions(+), 39 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index e6db9fe..e3a6121 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -274,7 +274,7 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
     alpha: float
         Inverse of the theta parameter (that describes the Gumbel copula)
 
-    method: { 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff' }, optional
+    method: { 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff', 'recursive' }, optional
         String specifying computation method to compute coefficient
 
     log: bool, optional
@@ -289,8 +289,8 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
     assert isinstance(d, int) and d >= 1, "dimension of copula must be an integer and >= 1"
 
     method = method.lower()
-    assert method in ('sort', 'horner', 'direct', 'log', 'ds.direct', 'diff'), \
-        "Method must be one of 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff'"
+    assert method in ('sort', 'horner', 'direct', 'log', 'ds.direct', 'diff', 'recursive'), \
+        "Method must be one of 'sort', 'horner', 'direct', 'log', 'ds.direct', 'diff', 'recursive'"
 
     if method == 'sort':
         ls = np.log(np.abs(stirling_first_all(d)))
@@ -319,6 +319,17 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
             pol[i] = polyn_eval(c_j, -alpha)
 
         return (ds + 1) * np.log(alpha) + np.log(pol) if log else pol * alpha ** (ds + 1)
+    elif method == 'recursive':
+        # a[d + 1, k] = (d - k * alpha) * a[d, k] + alpha * a[d, k - 1], no term is negative
+        a = np.full(d, -np.inf)
+        a[0] = np.log(alpha)
+        k = np.arange(1, d + 1)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            for i in range(1, d):
+                stay = np.where(k <= i, np.log(i - k * alpha) + a, -np.inf)
+                a = np.logaddexp(stay, np.log(alpha) + np.append(-np.inf, a[:-1]))
+        return a if log else np.exp(a)
+
     elif method == 'direct':
         s = np.asarray(stirling_first_all(d))
         ds = np.arange(d)
@@ -358,7 +369,7 @@ def gumbel_poly(log_x: np.ndarray, alpha: float, d: int, method='default', log=F
     d: int
         Dimension of the Gumbel copula
 
-    method: { 'default', 'pois', 'direct', 'log' }, optional
+    method: { 'default', 'pois', 'direct', 'log', 'recursive' }, optional
         String specifying computation method to compute polynomial. If set to 'default', an algorithm will
         automatically determine best method to use
 
@@ -398,7 +409,8 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
     k = np.arange(d) + 1
 
     method = method.lower()
-    assert method in ('pois', 'direct', 'log', 'sort'), "Method must be one of 'pois', 'direct', 'log', 'sort'"
+    assert method in ('pois', 'direct', 'log', 'sort', 'recursive'), \
+        "Method must be one of 'pois', 'direct', 'log', 'sort', 'recursive'"
 
     if method == 'pois':
         n = len(lx)
@@ -421,8 +433,8 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
         log_a_dk = gumbel_coef(d, alpha, method, True)
 
         log_x = log_a_dk[:, None] + k.reshape(-1, 1) @ lx.reshape(1, -1)
-        x = np.exp(log_x).sum(0)
-        return np.log(x) if log else x
+        res = np.logaddexp.reduce(log_x, axis=0)
+        return res if log else np.exp(res)
 
 
 def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
@@ -430,35 +442,4 @@ def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
 
     if d <= 30:
         return 'direct'
-    elif d <= 50:
-        return 'direct' if alpha <= 0.8 else 'log'
-    elif d <= 70:
-        return 'direct' if alpha <= 0.7 else 'log'
-    elif d <= 90:
-        if d <= 0.5:
-            return 'direct'
-        elif lx <= 4.08:
-            return 'pois'
-        return 'log'
-    elif d <= 120:
-        if alpha < 0.003:
-            return 'sort'
-        elif alpha <= 0.4:
-            return 'direct'
-        elif lx <= 3.55:
-            return 'pois'
-        elif lx >= 5.92:
-            return 'direct'
-        return 'log'
-    elif d <= 170:
-        if alpha < 0.01:
-            return 'sort'
-        elif alpha <= 0.3:
-            return 'direct'
-        elif lx <= 3.55:
-            return 'pois'
-        return 'log'
-    elif d <= 200:
-        return 'pois' if lx <= 2.56 else 'log'
-    else:
-        return 'log'
+    return 'recursive'
-- 
2.43.0


From 9d36eaa4c33401d793e4c916695c31e90ae2b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 034/131] fix: tail dependence of the Gaussian copula is not a
 property

---
 copulae/elliptical/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 7ea67f4..f466d28 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -57,6 +57,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def irho(self, rho: Array):
         return np.sin(np.array(rho) * np.pi / 6) * 2
 
+    @property
     def lambda_(self):
         res = (self._rhos == 1).astype(float)
         return TailDep(res, res)
-- 
2.43.0


From 8979b3fee3732ff939193a636713a81b6da4250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 035/131] fix: tail dependence of the Student copula lacks the
 factor 1 / (1 + rho)

---
 copulae/elliptical/student.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 2e3b846..925d9e1 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -127,7 +127,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         if np.isinf(df):
             res = (self._rhos == 1).astype(float)
         else:
-            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho)), df=df + 1)
+            with np.errstate(divide='ignore'):
+                res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho) / (1 + rho)), df=df + 1)
 
         return TailDep(res, res)
 
-- 
2.43.0


From 0ed0b5fc08376f0a8dd4634c41c733df0b74ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 036/131] fix: elliptical random(1) loses the observation axis

---
 copulae/elliptical/gaussian.py | 2 +-
 copulae/elliptical/student.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index f466d28..c62b83d 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -85,7 +85,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvn.rvs(cov=self.sigma, size=n, random_state=seed)
-        return norm.cdf(r)
+        return norm.cdf(np.reshape(r, (n, self.dim)))
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 925d9e1..dc327b4 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -180,7 +180,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvt.rvs(cov=self.sigma, df=self._df, size=n, random_state=seed)
-        return t.cdf(r, self._df)
+        return t.cdf(np.reshape(r, (n, self.dim)), self._df)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
-- 
2.43.0


From 8dfa39af40c8ae0f579349d266941e55c74774dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:02 +0000
Subject: [PATCH 037/131] fix: Gaussian params setter accepts vectors of the
 wrong length and aliases the caller's array

---
 copulae/elliptical/gaussian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index c62b83d..2e1eb48 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -71,7 +71,10 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
         if isinstance(params, (float, int)):
             params = np.repeat(params, len(self._rhos))
-        self._rhos = np.asarray(params)
+        params = np.array(params, dtype=float)
+        if params.shape != (sum(range(self.dim)),):
+            raise ValueError('Incompatible parameters for Gaussian copula')
+        self._rhos = params
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From 2577fd204d0809052ff0731707dacfb484baaae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 038/131] fix: Student params setter does not validate
 StudentParams and aliases the caller's array

---
 copulae/elliptical/student.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index dc327b4..bf1b487 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -153,19 +153,18 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @params.setter
     def params(self, params: Union[np.ndarray, StudentParams]):
         if isinstance(params, StudentParams):
-            self._df = params.df
-            self._rhos = params.rho
+            df, rhos = params.df, np.array(params.rho, dtype=float)
         else:
-            params = np.asarray(params)
-            if len(params) != 1 + sum(range(self.dim)):
-                raise ValueError('Incompatible parameters for student copula')
+            params = np.array(params, dtype=float)
+            df, rhos = params[0], params[1:]
 
-            df = params[0]
-            if df <= 0:
-                raise ValueError('Degrees of freedom must be greater than 0')
+        if rhos.shape != (sum(range(self.dim)),):
+            raise ValueError('Incompatible parameters for student copula')
+        if not df > 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
 
-            self._df = df
-            self._rhos = params[1:]
+        self._df = df
+        self._rhos = rhos
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From 54cf94fd4d7ca6420967d421e20c1c859ca2d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 039/131] fix: Student constructor accepts degrees of freedom
 that are not positive

---
 copulae/elliptical/student.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index bf1b487..ed6b959 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -44,6 +44,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             Degrees of freedom of the copula
         """
         super().__init__(dim, 'Student')
+        if not df > 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
 
         n = sum(range(dim))
         self._df = df
-- 
2.43.0


From 69ee8375f9c9765ee07d52e8a556bcd94f0b7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 040/131] fix: setting a NaN correlation leaves the elliptical
 copula unusable

---
 copulae/elliptical/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 802308f..d77ab10 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -81,7 +81,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         d = self.dim
 
         if np.isscalar(value):
-            if value < -1 or value > 1:
+            if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
             value = np.asarray(value)
-- 
2.43.0


From 07180d3578564901fadc1c650cebae6311339d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:53 +0000
Subject: [PATCH 041/131] fix: Student fit with fix_df does not keep the
 degrees of freedom and changes optim_options

---
 copulae/elliptical/student.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index ed6b959..a9f7811 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -110,9 +110,12 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         if fix_df:
-            if optim_options is None:
-                optim_options = {'constraints': []}
-            optim_options['constraints'].append({'type': 'eq', 'fun': lambda x: x[0] - self._df})  # df doesn't change
+            df = self._df  # value before the optimizer starts changing the parameters
+
+            optim_options = dict(optim_options or {})
+            constraints = optim_options.get('constraints', [])
+            constraints = [constraints] if isinstance(constraints, dict) else list(constraints)
+            optim_options['constraints'] = [*constraints, {'type': 'eq', 'fun': lambda x: x[0] - df}]  # df doesn't change
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
-- 
2.43.0


From 10500ebe178d93c19c9d07443c4f2f9535f00088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:10 +0000
Subject: [PATCH 042/131] fix: multivariate t density underflows for small or
 large degrees of freedom and takes memory quadratic in the sample size

---
 copulae/stats/_multivariate_t.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 228e058..012ad8a 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 
 import numpy as np
 import numpy.linalg as la
-from scipy.special import beta, gamma
+from scipy.special import gammaln
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.core import is_psd
@@ -76,7 +76,18 @@ class multivariate_t:
         pdf: ndarray or scalar
             Log of probability density function evaluated at `x`
         """
-        return np.log(cls.pdf(x, mean, cov, df))
+        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
+        x = cls._process_input(x, dim)
+
+        if df > cls._T_LIMIT:  # if greater than 500, just assume to be normal
+            return mvn.logpdf(x, mean=mean, cov=cov)
+
+        # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
+        log_det = la.slogdet(cov)[1]
+        x_us = x - mean  # difference between x and mu (mean)
+        q = np.sum((x_us @ la.inv(cov)) * x_us, axis=-1) / df
+        return (gammaln((dim + df) / 2) - gammaln(df / 2)
+                - (dim * np.log(df * np.pi) + log_det + (dim + df) * np.log1p(q)) / 2)
 
     @classmethod
     def pdf(cls, x: Numeric, mean: Numeric = None, cov: Numeric = 1, df: float = None):
@@ -101,21 +112,7 @@ class multivariate_t:
         pdf: ndarray or scalar
             Probability density function evaluated at `x`
         """
-        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
-        x = cls._process_input(x, dim)
-
-        if df > cls._T_LIMIT:  # if greater than 500, just assume to be normal
-            return mvn.pdf(x, mean=mean, cov=cov)
-
-        # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
-        # break into 3 portions, we use beta function to avoid some amount of numeric overflow
-        a = gamma(dim / 2)
-        b = beta(df / 2, dim / 2) * ((df * np.pi) ** (dim / 2)) * (la.det(cov) ** 0.5)
-
-        x_us = x - mean  # difference between x and mu (mean)
-        c = np.diag(1 + (x_us @ la.inv(cov) @ x_us.T) / df) ** ((dim + df) / 2)
-
-        return a / (b * c)
+        return np.exp(cls.logpdf(x, mean, cov, df))
 
     @classmethod
     def rvs(cls, mean: OptNumeric = None, cov: Numeric = 1, df: float = None, size: Numeric = 1, type_='shifted',
-- 
2.43.0


From cfba026221759097fe95e8526b42f2d7892f4ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:41 +0000
Subject: [PATCH 043/131] fix: Student maximum likelihood runs off to degrees
 of freedom near zero where the quantiles saturate

---
 copulae/elliptical/student.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index a9f7811..8699595 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -53,7 +53,8 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
 
         eps = 1e-6
         lower, upper = np.repeat(-1., n + 1) - eps, np.repeat(1., n + 1) + eps
-        lower[0], upper[0] = 0, np.inf  # bounds for df, the rest are correlation
+        # bounds for df, the rest are correlation. The quantile function saturates for df below the lower bound
+        lower[0], upper[0] = 0.1, np.inf
         self._bounds = (lower, upper)
 
     @validate_data_dim({"x": [1, 2]})
-- 
2.43.0


From 4ab84be41e50ab4c7f027709a9ac56b166fd46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:04 +0000
Subject: [PATCH 044/131] fix: seeded multivariate t variates use the same
 stream for the chi-square and the normal draws

---
 copulae/stats/_multivariate_t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 012ad8a..cecd47c 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -180,13 +180,13 @@ class multivariate_t:
         dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
 
         if type_.casefold() == 'kshirsagar':
-            r = mvn.rvs(mean, cov, size, random_state)
+            r = mvn.rvs(mean, cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size, random_state)
+            r = mvn.rvs(np.zeros(len(cov)), cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
-- 
2.43.0


From 5a62352084de464e335fc9ccf60c233ff49adebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:33 +0000
Subject: [PATCH 045/131] fix: one-dimensional multivariate t variates raise

---
 copulae/stats/_multivariate_t.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index cecd47c..c457e9e 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -168,17 +168,17 @@ class multivariate_t:
             np.random.seed(random_state)
         d = np.sqrt(np.random.chisquare(df, size) / df)
 
+        # size and dim used to reshape generated tensor correctly before dividing by chi-square rvs
+        dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
+
         if isinstance(size, abc.Iterable):
             d = d.reshape(*size, -1)
             size_is_iterable = True
         else:
-            if size > 1:
+            if size > 1 and dim > 1:
                 d = d.reshape(size, -1)
             size_is_iterable = False
 
-        # size and dim used to reshape generated tensor correctly before dividing by chi-square rvs
-        dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
-
         if type_.casefold() == 'kshirsagar':
             r = mvn.rvs(mean, cov, size)
             if size_is_iterable:
@@ -186,7 +186,7 @@ class multivariate_t:
             r /= d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size)
+            r = mvn.rvs(np.zeros(dim), cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
-- 
2.43.0


From 83d1d018cd763a30d9d92d459913a5d612497ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 046/131] fix: fitting bivariate elliptical copulas by
 inversion of tau or rho raises

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 1536e65..7e069c6 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -79,6 +79,6 @@ def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
         raise ValueError("Correlation Inversion must be either 'itau' or 'irho'")
 
     if is_elliptical(copula):
-        theta = near_psd(create_cov_matrix(theta))[indices]
+        theta = near_psd(create_cov_matrix(np.atleast_1d(theta)))[indices]
 
     return theta
-- 
2.43.0


From fefad46056bb439e11b8cd8b7710e79104ba0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 047/131] fix: log likelihood in the summary of tau and rho
 fits is that of re-ranked data

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 7e069c6..9cfc744 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -45,7 +45,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
         raise NotImplementedError(f"Have not developed for '{copula.name} copula'")
 
     method = f"Inversion of {'Spearman Rho' if type_ == 'irho' else 'Kendall Tau'} Correlation"
-    return FitSummary(estimate, method, copula.log_lik(data), len(data))
+    return FitSummary(estimate, method, copula.log_lik(data, to_pobs=False), len(data))
 
 
 def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
-- 
2.43.0


From 0cca0652fb37eb64ae7a637067b6b2b58ffa5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 048/131] fix: log likelihood in the fit summary is multiplied
 by scale

---
 copulae/copula/estimator/max_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 9ae5d15..8bab675 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -65,4 +65,4 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         estimate = res['x']
         copula.params = estimate
 
-    return FitSummary(estimate, "Maximum likelihood", -res['fun'], len(data), optim_options, res)
+    return FitSummary(estimate, "Maximum likelihood", -res['fun'] / scale, len(data), optim_options, res)
-- 
2.43.0


From 6464f32e029e3c30b14d6103b51fd0f7ae320535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:14 +0000
Subject: [PATCH 049/131] fix: HTML fit summary raises for tau and rho fits

---
 copulae/copula/estimator/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/summary.py b/copulae/copula/estimator/summary.py
index e738059..03ed579 100644
--- a/copulae/copula/estimator/summary.py
+++ b/copulae/copula/estimator/summary.py
@@ -45,7 +45,7 @@ class FitSummary(SummaryType):
 
     def _repr_html_(self):
         portions = []
-        for s, r in zip_longest(self.setup.items(), self.results.items()):
+        for s, r in zip_longest((self.setup or {}).items(), (self.results or {}).items()):
             (sk, sv) = (None, None) if s is None else s
             (rk, rv) = (None, None) if r is None else r
             portions.append('<tr>' + ''.join(f"<td>{i}</td>" for i in (sk, sv, rk, rv)) + '</tr>')
-- 
2.43.0


From 3cb5c23e928975aca61927a01a747c320b5d221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 050/131] fix: merge_dict changes its first argument

---
 copulae/utility/dict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/utility/dict.py b/copulae/utility/dict.py
index 5637b38..4518857 100644
--- a/copulae/utility/dict.py
+++ b/copulae/utility/dict.py
@@ -21,6 +21,7 @@ def merge_dict(a: dict, b: dict) -> dict:
     dict
         Merged dictionary
     """
+    a = dict(a)
     for key in b:
         if key in a:
             if isinstance(a[key], dict) and isinstance(b[key], dict):
-- 
2.43.0


From 1712d8837d2732095517391b2086a90a9718ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 051/131] fix: fit changes the caller's optim_options

---
 copulae/copula/estimator/estimator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index e74545b..5b771c1 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -146,6 +146,7 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
     def method_is(method: str):
         return options['method'].casefold() == method.casefold()
 
+    options = dict(options)  # leave the caller's dictionary alone
     max_iter = min(len(data) * 250, 20000)
     disp = verbose >= 2
 
-- 
2.43.0


From d5f0857f474e66a9222029c8f0815bb4f1ed40e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 052/131] fix: range check of the data in fit_copula never
 triggers

---
 copulae/copula/estimator/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index 5b771c1..a0dde86 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -87,7 +87,7 @@ def fit_copula(copula: Copula, data: Union[pd.DataFrame, np.ndarray],
     if not isinstance(data, np.ndarray):
         data = np.asarray(data)
 
-    if np.any(data) < 0 or np.any(data) > 1:
+    if not np.all((data >= 0) & (data <= 1)):
         raise ValueError("data must be in [0, 1] -- you probably forgot to convert data to pseudo-observations")
     elif len(data) < copula.dim:
         raise ValueError("number of data (rows) must be greater than its dimension")
-- 
2.43.0


From 56db799473dafd2fbb87ade5930735540b373f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 053/131] fix: fit with the trust-constr optimizer raises

---
 copulae/copula/estimator/estimator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index a0dde86..90d450a 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -203,9 +203,11 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
         }, options)
     elif method_is('trust-constr'):
         return merge_dict({
-            'maxiter': max_iter,
-            'disp': disp,
-            'bounds': bounds
+            'bounds': bounds,
+            'options': {
+                'maxiter': max_iter,
+                'disp': disp
+            }
         }, options)
     else:
         return options
-- 
2.43.0


From 955689738dc66ab7348821e6d7eb9b7fb27ae369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 054/131] fix: a fit which does not converge leaves the copula
 at the optimizer's last trial value

---
 copulae/copula/estimator/max_likelihood.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 8bab675..280627b 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -56,10 +56,12 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         except ValueError:  # error encountered when setting invalid parameters
             return np.inf
 
+    start = copula.params
     res: OptimizeResult = minimize(calc_log_lik, x0, **optim_options)
     if not res['success']:
         if verbose >= 1:
             warn_no_convergence()
+        copula.params = start  # the last value tried by the optimizer may not even be valid
         estimate = np.nan if np.isscalar(x0) else np.repeat(np.nan, len(x0))
     else:
         estimate = res['x']
-- 
2.43.0


From 5df2053bff16128c93e7e16f97d86119aa46134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 055/131] fix: fit prints a description of DataFrames
 regardless of verbose

---
 copulae/copula/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index aa5c40b..72234ab 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -135,7 +135,6 @@ class BaseCopula(ABC, Generic[Param]):
 
         if isinstance(data, pd.DataFrame):
             self._columns = list(data.columns)
-            print(data.describe())
 
         return self
 
-- 
2.43.0


From e603477e341eeeef77532ea740c98c67dd707040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 056/131] fix: columns of an earlier fit are kept after fitting
 an array

---
 copulae/copula/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index 72234ab..14e3149 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -133,8 +133,7 @@ class BaseCopula(ABC, Generic[Param]):
         x0 = np.asarray(x0) if x0 is not None and not isinstance(x0, np.ndarray) and isinstance(x0, Collection) else x0
         self._fit_smry = fit_copula(self, data, x0, method, verbose, optim_options, scale)
 
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
+        self._columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
 
         return self
 
-- 
2.43.0


From ba8ed5ab84ace2c6b16d192b889fdbcd86b9ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 057/131] fix: log_lik raises for a single observation

---
 copulae/copula/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index 14e3149..175c088 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -161,7 +161,7 @@ class BaseCopula(ABC, Generic[Param]):
             Log Likelihood
         """
         data = self.pobs(data, ties) if to_pobs else data
-        return self.pdf(data, log=True).sum()
+        return np.sum(self.pdf(data, log=True))
 
     @property
     def name(self):
-- 
2.43.0


From 2b9ecb3ab649b7556d744e453e58f7e60bfdb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 058/131] fix: Gaussian cdf is NaN when some coordinate is 0

---
 copulae/elliptical/gaussian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 2e1eb48..219bb7f 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -48,9 +48,13 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @shape_first_input_to_cop_dim
     @squeeze_output
     def cdf(self, x: np.ndarray, log=False):
+        x = np.asarray(x, dtype=float)
         q = norm.ppf(x)
         sigma = self.sigma
-        return mvn.logcdf(q, cov=sigma) if log else mvn.cdf(q, cov=sigma)
+        zero = (x == 0).any(axis=1)  # infinite quantiles are NaN for the integration routine
+        q[zero] = 0
+        p = np.where(zero, 0, mvn.cdf(q, cov=sigma))
+        return np.log(p) if log else p
 
     @cast_input(['rho'])
     @squeeze_output
-- 
2.43.0


From b9edbcafc4a3fedda5167d988007d4fd92d4e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 059/131] fix: array arguments passed by keyword are not cast

---
 copulae/utility/annotations/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 7b7db12..28a02b6 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -32,7 +32,7 @@ class cast_input:
                 args[i] = self.cast(a, arg_name)
 
         for arg_name, a in kwargs.items():
-            if arg_name is self.arguments:
+            if arg_name in self.arguments:
                 kwargs[arg_name] = self.cast(a, arg_name)
 
         return method(*args, **kwargs)
-- 
2.43.0


From 9449c459667bb0953b7ab7bf39b7e63a372d9679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:25 +0000
Subject: [PATCH 060/131] fix: cdf and pdf raise when the input is passed by
 keyword

---
 copulae/utility/annotations/reshape.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 28a02b6..f02e6fd 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -67,8 +67,13 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     As a side effect, also reorders the DataFrame or Series input if the fitted data was a DataFrame.
     With a fitted DataFrame, the _column will be present to allow for ordering
     """
-    x = args[0]
     args = list(args)
+    if not args:  # passed by keyword
+        name = getfullargspec(method).args[1]
+        if name not in kwargs:
+            return method(**kwargs)  # raises the usual error for missing arguments
+        args.append(kwargs.pop(name))
+    x = args[0]
 
     columns = getattr(instance, "_columns", None)
     if isinstance(x, pd.Series):
-- 
2.43.0


From b18d88ea67c42c843d452cbaea3bbbcd8c3b90d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 061/131] fix: density of the empirical copula iterates over
 the column names of DataFrames

---
 copulae/empirical/empirical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 9171d17..0671b26 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -155,6 +155,7 @@ class EmpiricalCopula(BaseCopula[None]):
     def pdf(self, u: Array, log=False):
         assert self.smoothing == "beta", "Empirical Copula only has density (PDF) for 'beta' smoothing"
 
+        u = np.asarray(u, dtype=float)
         data_rank = rank_data(self.data, 1, self.ties)
         n = len(self.data)
 
-- 
2.43.0


From 1d365c493c0c7f2cb5f9de7a60acef40319e4506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 062/131] fix: to_marginals raises for u = 1

---
 copulae/empirical/empirical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 0671b26..45a7bc4 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -256,7 +256,7 @@ class EmpiricalCopula(BaseCopula[None]):
         """
         # because it is pseudo-observations, and already ranked within the columns, we can just
         # multiply by the number of rows in the original data set to get the position rank
-        index = np.array(np.floor(u * len(original)), int)
+        index = np.minimum(np.array(np.floor(u * len(original)), int), len(original) - 1)
         data = np.array(original)
         source = np.take_along_axis(data, data.argsort(axis=0), axis=0)
 
-- 
2.43.0


From 4009f0e348659c5cedd2a65887c32967890a2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 063/131] fix: marginal copula truncates probabilities of
 integer data

---
 copulae/marginal/marginal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 3f71091..0f6cd93 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -94,7 +94,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
     @squeeze_output
     def cdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
         x = self._check_x_input(x)
-        u = np.empty_like(x)
+        u = np.empty(x.shape)
         for i, m in enumerate(self._marginals):
             u[:, i] = m.cdf(x[:, i])
 
@@ -131,7 +131,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
     @squeeze_output
     def pdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
         x = self._check_x_input(x)
-        u = np.empty_like(x)
+        u = np.empty(x.shape)
         density_margin = 0 if log else 1
 
         for i, m in enumerate(self._marginals):
-- 
2.43.0


From fd75a7ec62102059eb54ce493b3d5e437dc25ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 064/131] fix: marginal copula cannot be sampled when its
 copula was fitted to a DataFrame

---
 copulae/marginal/marginal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 0f6cd93..58aa52c 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -147,7 +147,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-        u = self._copula.random(n, seed)
+        u = np.asarray(self._copula.random(n, seed))
         x = np.empty_like(u)
         for i, m in enumerate(self._marginals):
             x[:, i] = m.ppf(u[:, i])
-- 
2.43.0


From ed9406376d4ca02cff7182ca43bc88f712559f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 065/131] fix: columns of an earlier marginal copula fit are
 kept after fitting an array

---
 copulae/marginal/marginal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 58aa52c..4f72609 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -102,8 +102,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     def fit(self, data: Union[pd.DataFrame, np.ndarray], x0: Union[Collection[float], np.ndarray] = None, method='ml',
             verbose=1, optim_options: dict = None, ties='average', to_pobs=True, scale=1.0):
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
 
         data = np.asarray(data)
         if data.ndim != 2:
@@ -111,6 +110,8 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         elif self.dim != data.shape[1]:
             raise InputDataError('Dimension of data does not match copula')
 
+        self._columns = columns
+
         for i, m in enumerate(self._marginals):
             self._marginals[i] = m.dist(*m.dist.fit(data[:, i]))
 
-- 
2.43.0


From 491d5b4aba3b9d88572cbdeb7e6642b31879d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 066/131] fix: marginal copula adds parameters to the caller's
 dictionary

---
 copulae/marginal/univariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index c4ada04..d44b26f 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -20,7 +20,7 @@ class DistDetail(TypedDict, total=False):
 
 def create_univariate(details: DistDetail) -> rv_frozen:
     dist = get_marginal_class(details)
-    parameters = details.get('parameters', {})
+    parameters = dict(details.get('parameters', {}))
     for p in signature(getattr(dist, "_parse_args")).parameters.values():
         if p.default is Parameter.empty and p.name not in parameters:
             parameters[p.name] = 0.5
-- 
2.43.0


From 23c9b105c02a33c5018c7b83c14b6bb2f7e36ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 067/131] fix: log of the Gaussian mixture density and
 distribution is the weighted sum of the logs

---
 copulae/mixtures/gmc/gmc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 541b46d..203e6a8 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -2,6 +2,7 @@ from typing import Collection, Literal, Optional, Union
 
 import numpy as np
 import pandas as pd
+from scipy.special import logsumexp
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.copula import BaseCopula
@@ -121,9 +122,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logcdf(x, mean, cov) if log else mvn.cdf(x, mean, cov))
+            out += prob * mvn.cdf(x, mean, cov)
 
-        return out
+        return np.log(out) if log else out
 
     @property
     def clusters(self):
@@ -267,9 +268,13 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         if self.params is None:
             raise GMCNotFittedError
 
+        if log:
+            return logsumexp([np.ravel(mvn.logpdf(x, mean, cov)) for _, mean, cov in self.params], axis=0,
+                             b=self.params.prob[:, None])
+
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logpdf(x, mean, cov) if log else mvn.pdf(x, mean, cov))
+            out += prob * mvn.pdf(x, mean, cov)
 
         return out
 
-- 
2.43.0


From 42746ec56f999ce52cb446a76f9a172b941b6dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 068/131] fix: GMCParam.to_vector changes the parameter and is
 infinite for a single cluster

---
 copulae/mixtures/gmc/parameter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 0db3f55..655ce6d 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -38,12 +38,12 @@ class GMCParam:
         Converts GMCParam to a 1-D vector representation. Vector representation enables GMCParam to be
         updated via scipy's optimize module.
         """
-        self.prob[self.prob == 0] += 1e-5
-        self.prob[self.prob == 1] -= 1e-5
-        self.prob /= self.prob.sum()
+        prob = np.array(self.prob, dtype=float)  # probabilities are normalized by from_vector
+        prob[prob == 0] += 1e-5
+        prob[prob == 1] -= 1e-5
 
         return np.array([
-            *np.log(self.prob / (1 - self.prob)),
+            *np.log(prob / (1 - prob)),
             *self.means.ravel(),
             *np.ravel([c[np.triu_indices(self.n_dim)] for c in self.covs])
         ])
-- 
2.43.0


From e0111644490ff27c771caae00915475d2a7af4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 069/131] fix: sampling a Gaussian mixture copula without
 parameters raises AttributeError

---
 copulae/mixtures/gmc/gmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 203e6a8..5c15cac 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -296,6 +296,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         np.ndarray
             array of generated observations
         """
+        if self.params is None:
+            raise GMCNotFittedError
+
         if seed is not None:
             np.random.seed(seed)
 
-- 
2.43.0


From 143cac539421cda820957a2390a8a3500366c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 070/131] fix: quantiles of the Gaussian mixture marginals
 raise for probabilities near 0 and 1

---
 copulae/mixtures/gmc/marginals.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/copulae/mixtures/gmc/marginals.py b/copulae/mixtures/gmc/marginals.py
index 526218f..84f1b0e 100644
--- a/copulae/mixtures/gmc/marginals.py
+++ b/copulae/mixtures/gmc/marginals.py
@@ -51,12 +51,11 @@ def gmm_marginal_ppf(q: np.ndarray, param: GMCParam, resolution=2000, spread=5,
     ppf = np.empty_like(q)
     for i in range(param.n_dim):
         # does an inverse cdf, ppf, to get the marginals
-        ppf[:, i] = interp1d(dist[:, i], grid[:, i], fill_value='interpolate')(q[:, i])
+        ppf[:, i] = interp1d(dist[:, i], grid[:, i], bounds_error=False,
+                             fill_value=(grid[:, i].min(), grid[:, i].max()))(q[:, i])
 
-    is_nan = np.isnan(ppf)
-    if is_nan.any():
-        ppf[is_nan & (q >= 1)] = np.inf  # infinity because marginal is greater or equal to 1
-        ppf[is_nan & (q <= 0)] = -np.inf  # infinity because marginal is less than or equal to 0
+    ppf[q >= 1] = np.inf  # infinity because marginal is greater or equal to 1
+    ppf[q <= 0] = -np.inf  # infinity because marginal is less than or equal to 0
 
     return ppf
 
-- 
2.43.0


From 0d3e88afaed5d66d60e6595de5f80738a06c73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 071/131] fix: log likelihood reported for a Gaussian mixture
 fit is not that of its best parameters

---
 copulae/mixtures/gmc/estimators/em.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index a422980..bf8525a 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -153,4 +153,6 @@ class LogLik:
 
     @property
     def best_log_lik(self):
+        if self.criteria in ('GMCM', 'LI'):
+            return max(self._gmcm)
         return self._gmcm[-1]
-- 
2.43.0


From 7387d60779727feba2289550c0c815008748cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 072/131] fix: GMCParam shares memory with the caller's arrays

---
 copulae/mixtures/gmc/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 655ce6d..708bd45 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -85,7 +85,7 @@ class GMCParam:
 
     @prob.setter
     def prob(self, value: Union[C[float], np.ndarray]):
-        value = np.ravel(value)
+        value = np.array(value, dtype=float).ravel()
 
         if len(value) != self.n_clusters:
             raise GMCParamError(f"probability vector should have {self.n_clusters} components")
@@ -100,7 +100,7 @@ class GMCParam:
 
     @means.setter
     def means(self, value: Union[C[float], np.ndarray]):
-        value = np.asarray(value)
+        value = np.array(value, dtype=float)
 
         shape = self.n_clusters, self.n_dim
         if value.shape != shape:
-- 
2.43.0


From 080dd844178c32f85ad7e46fb9a4814a71c53ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 073/131] fix: goodness of fit bootstrap for data with ties
 sorts the columns independently

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index d5b46ac..6a04683 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -131,12 +131,12 @@ class GofParametricBootstrap:
 
     def _sort_data_by_column_inplace(self, data: np.ndarray):
         """
-        Use pre-calculated duplicate ranks array to sort random data with. This ensures that the
-        resulting data (column-by-column) is ordered from lowest to highest
+        Use pre-calculated duplicate ranks array to reproduce the ties of the original data, column by column.
+        The rows are kept together so that the dependence between the columns is not changed
         """
         assert data.ndim == 2 and self.data.duplicated_ranks_array.shape == data.shape
-        data.sort(0)
         for i in range(data.shape[1]):
+            data[:] = data[np.argsort(data[:, i])]
             data[:, i] = data[self.data.duplicated_ranks_array[:, i], i]
 
         return data
-- 
2.43.0


From 97b8b6837b074b4cf29746de1c00263faac9db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 074/131] fix: workers of the multiprocess goodness of fit test
 draw the same samples

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index 6a04683..b30de44 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -102,7 +102,9 @@ class GofParametricBootstrap:
 
         if self.multiprocess:
             with ProcessPoolExecutor(os.cpu_count()) as P:
-                ts = np.array([f.result() for f in (P.submit(self._process_result) for _ in range(self.reps))])
+                # forked workers start with the same state of the random generator
+                seeds = np.random.randint(0, 2 ** 31 - 1, self.reps)
+                ts = np.array([f.result() for f in [P.submit(self._process_result, s) for s in seeds]])
         else:
             ts = np.array([self._process_result() for _ in range(self.reps)])
 
@@ -111,8 +113,8 @@ class GofParametricBootstrap:
                        statistic=t,
                        pvalue=(sum(np.abs(ts) >= abs(t)) + 0.5) / (self.reps + 1))
 
-    def _process_result(self):
-        u = self.copula.random(self.data.n_row)
+    def _process_result(self, seed: int = None):
+        u = self.copula.random(self.data.n_row, seed)
 
         if self.data.has_ties:
             u = self._sort_data_by_column_inplace(u)
-- 
2.43.0


From e7db2f07d2336efdbf187d44bbc3560ce8073d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 075/131] fix: goodness of fit test ignores fit_ties

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index b30de44..028a7e9 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -93,7 +93,7 @@ class GofParametricBootstrap:
         self.data = data
 
         self.copula = self.new_copula()
-        self.fit_options = fit_options
+        self.fit_options = {'to_pobs': False, **fit_options}  # ranking again would undo fit_ties
         self.reps = reps
         self.multiprocess = multiprocess
 
-- 
2.43.0


From 1b5ea13a872f582e1753a04a90f7acf97596f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 076/131] fix: exch_test resets the global random state

---
 copulae/gof/_exchangeability.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index be7c4b2..c268f96 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -155,10 +155,10 @@ def exch_test_cn(double[:, :] u, double[:, :] g, int n, int m, int N, int random
                                - (U[j] <= y) * (V[j] <= x)
                                + d1yx * (U[j] <= y) + d2yx * (V[j] <= x)) / sqrt(n)
 
-    np.random.seed(random_state)
+    rng = np.random.RandomState(random_state)
 
     for i in range(N):
-        random = np.random.normal(size=n)
+        random = rng.normal(size=n)
         mean = 0.0
         for j in range(n):
             mean += random[j] / n
-- 
2.43.0


From a40dc5789057fe20b09b91f97946b1e3e944fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 077/131] fix: symmetry tests read out of bounds when data
 contains missing values

---
 copulae/gof/exchangeability.py | 3 +++
 copulae/gof/radial_symmetry.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/copulae/gof/exchangeability.py b/copulae/gof/exchangeability.py
index f1fa444..424cf6d 100644
--- a/copulae/gof/exchangeability.py
+++ b/copulae/gof/exchangeability.py
@@ -91,6 +91,9 @@ def exch_test(x, y, N=1000, m=0, ties='average'):
     assert x.ndim == 1 and y.ndim == 1, "x and y must be vectors. Exchangeability tests is bivariate"
     assert isinstance(N, int) and N >= 1, "number of replications for exchangeability test must be a positive integer"
 
+    if np.isnan(u).any():
+        raise ValueError("x and y must not contain missing values")
+
     n = len(u)
     if m > 0:
         xis = np.linspace(1 / m, 1 - 1 / m, m)
diff --git a/copulae/gof/radial_symmetry.py b/copulae/gof/radial_symmetry.py
index f8d36d4..3033f7a 100644
--- a/copulae/gof/radial_symmetry.py
+++ b/copulae/gof/radial_symmetry.py
@@ -67,6 +67,8 @@ def rad_sym_test(x, N=1000, ties: Ties = 'average'):
 
     n, p = x.shape
     u = pseudo_obs(x, ties)
+    if np.isnan(u).any():
+        raise ValueError("input data must not contain missing values")
 
     s = rad_sym_test_stat(u.ravel('F'), n, p)
 
-- 
2.43.0


From 0670c0797ffc145db9aea63f970ad50e08fd1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 078/131] fix: typo in the upper integration bound of the
 stable density

---
 copulae/stats/stable/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/common.py b/copulae/stats/stable/common.py
index fcd85d8..43d1a76 100644
--- a/copulae/stats/stable/common.py
+++ b/copulae/stats/stable/common.py
@@ -7,7 +7,7 @@ __all__ = ['LARGE_EXP_POW', 'PI', 'PI2', 'PI2E', 'eplus', 'eminus', 'integrate',
 LARGE_EXP_POW = 708.3964
 PI = np.pi
 PI2 = np.pi / 2
-PI2E = PI2 * (1 - 1e6)
+PI2E = PI2 * (1 - 1e-6)
 
 
 def eplus(x):
-- 
2.43.0


From 6ed78757b827a0dffd5d8a36dc3ec12d3d94d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 079/131] fix: stable density is 0 when beta is 1 or -1 and
 alpha is below 1

---
 copulae/stats/stable/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 0e00920..6ac6d3c 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -101,7 +101,7 @@ def aux_f1(x, alpha, beta, log=False):
                 while np.isclose(g1((ll + uu) / 2), 1):
                     uu = (ll + uu) / 2
 
-            if np.isclose(uu + ll, 0, 1e-13):
+            if np.isclose(uu - ll, 0, 1e-13):
                 return -np.inf if log else 0
 
         r1 = find_root(lambda t: g1(t) - 1, ll, uu)
-- 
2.43.0


From ea2391067be52d3d1e9f1eb514004de1122d8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 080/131] fix: stable density is NaN when alpha is 1 and beta
 is negative

---
 copulae/stats/stable/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 6ac6d3c..803e5dc 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -166,7 +166,7 @@ def aux_f2(x, beta, log=False):
         return -np.inf if log else 0
 
     def g1(u):
-        if np.isclose(abs(u + np.size(beta)), 0, atol=1e-10):
+        if np.isclose(abs(u + np.sign(beta)), 0, atol=1e-10):
             return 0
         h = p2b + u * PI2
         return h / p2b * np.exp(ea + h * tanpi2(u)) / cospi2(u)
-- 
2.43.0


From f9d0845c95c48322c1628fa1bfe116eb6a8370c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 081/131] fix: stable density does not use the tail
 approximation where the integral vanishes

---
 copulae/stats/stable/stable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 25b8c5a..47e8a41 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -101,8 +101,8 @@ class skew_stable:
         if ans.size == 1:
             ans = ans.ravel()
 
-        infs = ans == 0
-        if np.any(ans):
+        infs = np.isneginf(ans) if log else ans == 0
+        if np.any(infs):
             d = pdf.pareto(x, alpha, beta, log)[infs]
             ans[infs] = (d - np.log(gamma)) if log else (d / gamma)
 
-- 
2.43.0


From 37f11c54ac3b4ed96d6bb3b05335317b955f3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 082/131] fix: mode of the stable distribution ignores the
 skewness

---
 copulae/stats/stable/stable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 47e8a41..3c909fc 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -192,7 +192,7 @@ class skew_stable:
         if alpha * beta == 0:
             return 0
 
-        beta = max(beta, beta_max)
+        beta = min(max(beta, -beta_max), beta_max)
         bounds = sorted([0, np.sign(beta) * -0.7])
 
         return float(opt.minimize_scalar(lambda x: -cls.pdf(x, alpha, beta), bounds=bounds)['x'])
-- 
2.43.0


From 8a028cedcf206d9b3d463186e55861994e40aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:20 +0000
Subject: [PATCH 083/131] fix: stable variates are garbage when alpha is 1 and
 beta is not 0

---
 copulae/stats/stable/stable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 3c909fc..5cf35d7 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -155,6 +155,11 @@ class skew_stable:
             theta = np.pi * (np.random.uniform(size=size) - 0.5)
             w = np.random.standard_exponential(size)
 
+            if np.isclose(alpha, 1):
+                h = PI2 + beta * theta
+                z = (h * np.tan(theta) - beta * np.log(PI2 * w * np.cos(theta) / h)) / PI2
+                return z * gamma + delta
+
             bt = beta * tanpi2(alpha)
             t0 = min(max(-PI2, np.arctan(bt) / alpha), PI2)
             at = alpha * (theta + t0)
-- 
2.43.0


From 422821492a9c9200c03c06d6e9dd228d02a619bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 084/131] fix: is_psd with strict accepts singular and slightly
 indefinite matrices

---
 copulae/core/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/core/linalg.py b/copulae/core/linalg.py
index 9da4833..3db5734 100644
--- a/copulae/core/linalg.py
+++ b/copulae/core/linalg.py
@@ -85,14 +85,14 @@ def is_psd(M: np.ndarray, strict=False, tol=1e-12) -> bool:
         True if matrix is positive (semi-)definite, else False
     """
     if isinstance(M, (int, float)):
-        return M > -tol if strict else M >= -tol
+        return M > tol if strict else M >= -tol
 
     M = np.asarray(M)
     if not is_symmetric(M, tol):
         return False
 
     if strict:
-        return (la.eigvalsh(M) > -tol).all()
+        return (la.eigvalsh(M) > tol).all()
     else:
         return (la.eigvalsh(M) >= -tol).all()
 
-- 
2.43.0


From 5a4baf9f0ea9cd8ac01e85788001cc633a3ad9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 085/131] fix: log_sum is NaN when all values are infinite

---
 copulae/special/special_func.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 38ed834..b638226 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -146,6 +146,7 @@ def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] =
 
     if offset is None:
         offset = log_x.max(0)  # maximum from each column
+        offset = np.where(np.isfinite(offset), offset, 0)
     elif hasattr(offset, "__iter__"):
         offset = np.asarray(offset)
         assert len(offset) == log_x.shape[1], "Offset must match data dimensions"
-- 
2.43.0


From a1864ba4d61cd4fb8eab11c16cc400e9b9ce480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:25 +0000
Subject: [PATCH 086/131] fix: bivariate Frank variates overflow for large
 parameters

---
 copulae/archimedean/frank.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index ee57e94..f672268 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -191,7 +191,11 @@ class FrankCopula(AbstractArchimedeanCopula):
         if self.dim == 2:
             v = u[:, 1]
             a = -abs(self.params)
-            v = -1 / a * np.log1p(-v * np.expm1(-a) / (np.exp(-a * u[:, 0]) * (v - 1) - v))
+            if a < -700:  # np.exp(-a) overflows
+                e = np.log1p(-v) + a * (1 - u[:, 0])
+                v = (np.logaddexp(e, np.log(v) + a) - np.logaddexp(e, np.log(v))) / a
+            else:
+                v = -1 / a * np.log1p(-v * np.expm1(-a) / (np.exp(-a * u[:, 0]) * (v - 1) - v))
             u[:, 1] = 1 - v if self.params > 0 else v
             return u
 
-- 
2.43.0


From 2abbc5b1e50b9cbe73d3fb975e6ad9e1b825c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 087/131] fix: gof_copula rejects the verbose fit option

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index 028a7e9..d67de59 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -84,7 +84,7 @@ def gof_copula(copula: Type[Copula], data: Union[pd.DataFrame, np.ndarray], reps
         Test statistics
     """
     data = GofData(data, ties, fit_ties)
-    return GofParametricBootstrap(copula, data, reps, multiprocess, verbose=0, **fit_options).fit()
+    return GofParametricBootstrap(copula, data, reps, multiprocess, **{'verbose': 0, **fit_options}).fit()
 
 
 class GofParametricBootstrap:
-- 
2.43.0


From 015bb8f5faa1f527d594b299d8bad27165bf80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 088/131] fix: Gumbel variates over- or underflow for strong
 dependence

---
 copulae/archimedean/gumbel.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index e3a6121..a30607e 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -7,8 +7,7 @@ from scipy.special import gammaln
 
 from copulae.copula import Summary, TailDep
 from copulae.special.special_func import polyn_eval, sign_ff, stirling_first_all, stirling_second_all
-from copulae.special.trig import cospi2
-from copulae.stats import poisson, random_uniform, skew_stable
+from copulae.stats import poisson, random_uniform
 from copulae.types import Array, Numeric
 from copulae.utility.annotations import *
 from ._shared import valid_rows_in_u
@@ -233,9 +232,15 @@ class GumbelCopula(AbstractArchimedeanCopula):
             return u
 
         alpha = 1 / self.params
-        fr = skew_stable.rvs(alpha, beta=1, gamma=cospi2(alpha) ** self.params, pm=1, size=n)
 
-        return self.psi(-np.log(u) / fr[:, None])
+        # log of the positive stable frailty (Chambers, Mallows and Stuck), which itself over- or underflows for large theta
+        v = np.pi * (np.random.uniform(size=n) - 0.5)
+        w = np.random.standard_exponential(n)
+        at = alpha * (v + np.pi / 2)
+        log_fr = np.log(np.sin(at)) - np.log(np.cos(v)) / alpha + \
+            (1 / alpha - 1) * (np.log(np.cos(v - at)) - np.log(w))
+
+        return np.exp(-np.exp(alpha * (np.log(-np.log(u)) - log_fr[:, None])))
 
     @property
     def rho(self):
-- 
2.43.0


From 6b29fbbff853f8f061430fda587ffd22cad737c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 089/131] fix: ml fit of an Archimedean copula to negatively
 dependent data in three dimensions

---
 copulae/copula/estimator/estimator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index 90d450a..bf4dd32 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -119,7 +119,10 @@ def initial_params(copula: Copula, data: np.ndarray, x0: np.ndarray):
             return rhos
 
     try:
-        start = estimate_corr_inverse_params(copula, data, 'itau').params
+        try:
+            start = estimate_corr_inverse_params(copula, data, 'itau').params
+        except ValueError:  # negative dependence, which the copula cannot have in this dimension
+            start = copula.params = copula.bounds[0]
         ll = copula.log_lik(data)
 
         if np.isfinite(ll):
-- 
2.43.0


From 36b8bb7f0494d1a8322d6febb8a52ddfb86b4a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 090/131] fix: log likelihood raises when the correlation
 matrix is singular

---
 copulae/elliptical/abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index d77ab10..cbf6c79 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -43,7 +43,10 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         if hasattr(self, '_df') and getattr(self, "_df", 0) <= 0:  # t copula
             return -np.inf
 
-        return super().log_lik(data, to_pobs=to_pobs, ties=ties)
+        try:
+            return super().log_lik(data, to_pobs=to_pobs, ties=ties)
+        except np.linalg.LinAlgError:  # no density if the correlation matrix is singular
+            return -np.inf
 
     @property
     def rho(self):
-- 
2.43.0


From 30752471a0c1d2b2ca80f11551850bac64acee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:13 +0000
Subject: [PATCH 091/131] fix: pem and sgd fits of the Gaussian mixture copula
 raise for DataFrames

---
 copulae/mixtures/gmc/gmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 5c15cac..be10c9c 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -188,6 +188,8 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         method = method.lower()
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
+        data = np.asarray(data)
 
         if x0 is None:
             self._fit_smry = k_means(data, self.clusters, self.dim)
@@ -211,6 +213,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
             raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
 
         self.params = self._fit_smry.best_params
+        self._columns = columns
         self._fit_details["method"] = method
         return self
 
-- 
2.43.0


From fa3823f582040c14c286285ee91fd4e5087bb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 092/131] fix: HTML summary of a Gaussian mixture copula
 without parameters raises

---
 copulae/mixtures/gmc/summary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/mixtures/gmc/summary.py b/copulae/mixtures/gmc/summary.py
index 3486e2d..77c6237 100644
--- a/copulae/mixtures/gmc/summary.py
+++ b/copulae/mixtures/gmc/summary.py
@@ -11,6 +11,9 @@ class Summary(SummaryType):
         self.fit = fit_details
 
     def _repr_html_(self):
+        if self.params is None:
+            return f"<div><h2>{self.name} Summary</h2><div>No parameters</div></div>"
+
         params = [f"<strong>{title}</strong>" + pd.DataFrame(values).to_html(header=False, index=False)
                   for title, values in [("Mixture Probability", self.params.prob),
                                         ("Means", self.params.means)]]
-- 
2.43.0


From 0d3b14e182c4ce649fbf5e97cb78d584c479ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 093/131] fix: density of the marginal copula is NaN outside
 the support of the margins

---
 copulae/marginal/marginal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 4f72609..659cc02 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -144,7 +144,10 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
                 density_margin *= m.pdf(xx)
 
         d = self._copula.pdf(u, log)
-        return (d + density_margin) if log else (d * density_margin)
+        # the copula's density may not be defined on the edges of the unit cube, where points without density end up
+        if log:
+            return np.where(np.isneginf(density_margin), -np.inf, d + density_margin)
+        return np.where(density_margin == 0, 0., d * density_margin)
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-- 
2.43.0


From 14f3cced93fa70127bf07f63a6483ba799215abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:55 +0000
Subject: [PATCH 094/131] fix: sgd fit of the Gaussian mixture copula raises
 when a trial variance is negative

---
 copulae/mixtures/gmc/estimators/sgd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/copulae/mixtures/gmc/estimators/sgd.py b/copulae/mixtures/gmc/estimators/sgd.py
index eeb3644..c3a9d9b 100644
--- a/copulae/mixtures/gmc/estimators/sgd.py
+++ b/copulae/mixtures/gmc/estimators/sgd.py
@@ -35,7 +35,12 @@ def gradient_descent(u: np.ndarray, param: GMCParam, **kwargs):
 
 
 def create_objective_function(u: np.ndarray, m: int, d: int):
+    is_variance = np.equal(*np.triu_indices(d))
+
     def f(param: np.ndarray):
+        if np.any(param[m * (d + 1):].reshape(m, -1)[:, is_variance] <= 0):
+            return np.inf  # there is no such mixture
+
         p = GMCParam.from_vector(param, m, d)
         p.prob /= p.prob.sum()
         return -gmcm_log_likelihood(u, p)
-- 
2.43.0


From ab103ed0ad6a31a4aeb3df34e29da97f2484c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:46 +0000
Subject: [PATCH 095/131] fix: replications of the symmetry tests ignore ties

---
 copulae/gof/_exchangeability.pyx | 7 +++++--
 copulae/gof/_radial_symmetry.pyx | 4 ++--
 copulae/gof/exchangeability.py   | 2 +-
 copulae/gof/radial_symmetry.py   | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index c268f96..5899195 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -209,7 +209,7 @@ def exch_test_stat(double[:, :] u, double[:, :] g, int n, int m):
     return s * n / m
 
 
-def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m, int ng):
+def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m, int ng, str ties='average'):
     """
     One instance of the bootstrap replication
 
@@ -232,6 +232,9 @@ def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m
     ng: int
         number of rows in g
 
+    ties: str
+        The method used to assign ranks to tied elements
+
     Returns
     -------
     float
@@ -258,7 +261,7 @@ def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m
         for j in range(n):
             ub[j, i] = tub[ir[j, i], i]
 
-    ub = pseudo_obs(ub)
+    ub = pseudo_obs(ub, ties)
 
     if m == 0:
         g = ub
diff --git a/copulae/gof/_radial_symmetry.pyx b/copulae/gof/_radial_symmetry.pyx
index 35fe77f..b5a4afa 100644
--- a/copulae/gof/_radial_symmetry.pyx
+++ b/copulae/gof/_radial_symmetry.pyx
@@ -37,7 +37,7 @@ def rad_sym_test_stat(const double[:] u, const int n, const int p):
     return s
 
 
-def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, bint has_ties):
+def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, bint has_ties, str ties='average'):
     """One instance of bootstrap replication for radial symmetry test"""
     cdef:
         double[:, :] ub = np.copy(u), tub
@@ -61,7 +61,7 @@ def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, b
             for j in range(n):
                 ub[j, i] = tub[ir[j, i], i]
 
-    ub = pseudo_obs(ub)
+    ub = pseudo_obs(ub, ties)
     return rad_sym_test_stat(np.ravel(ub, 'F'), n, p)
 
 
diff --git a/copulae/gof/exchangeability.py b/copulae/gof/exchangeability.py
index 424cf6d..9e896c2 100644
--- a/copulae/gof/exchangeability.py
+++ b/copulae/gof/exchangeability.py
@@ -109,7 +109,7 @@ def exch_test(x, y, N=1000, m=0, ties='average'):
 
     if has_ties:
         ir = np.floor(rank_data(np.sort(u, 0), axis=1)).astype(int) - 1
-        s0 = np.asarray([exch_replication(ir, u, g, n, m, ng) for _ in range(N)])
+        s0 = np.asarray([exch_replication(ir, u, g, n, m, ng, ties) for _ in range(N)])
 
     else:
         s0 = exch_test_cn(u, g, n, ng, N)
diff --git a/copulae/gof/radial_symmetry.py b/copulae/gof/radial_symmetry.py
index 3033f7a..180a470 100644
--- a/copulae/gof/radial_symmetry.py
+++ b/copulae/gof/radial_symmetry.py
@@ -79,7 +79,7 @@ def rad_sym_test(x, N=1000, ties: Ties = 'average'):
             break
 
     ir = np.floor(rank_data(np.sort(u, 0), axis=1)).astype(int) - 1
-    s0 = np.array([rad_sym_replicate(u, ir, n, p, has_ties) for _ in range(N)])
+    s0 = np.array([rad_sym_replicate(u, ir, n, p, has_ties, ties) for _ in range(N)])
 
     return TestStatistic(
         s,
-- 
2.43.0


From 7ab49af5c863111ac850c2714d1aa641016a5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 096/131] fix: polynomial evaluation drops imaginary parts and
 rejects matrices and lists of lists

---
 copulae/special/special_func.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index b638226..bcde517 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -251,21 +251,11 @@ def polyn_eval(coef, x) -> Union[float, np.ndarray]:
     """
     if isinstance(coef, (float, int)):
         coef = [coef]
-    if isinstance(x, (float, int)):
-        x = [x]
 
-    m = len(coef)
-
-    res = np.zeros(len(x), np.float64)
-    for i, xi in enumerate(x):
-        if m == 1:
-            r = coef[0]
-        else:
-            r = coef[-1]
-            for j in coef[:-1][::-1]:
-                r = j + r * xi
-
-        res[i] = r
+    x = np.asarray(x)
+    res = np.full(x.shape, coef[-1], np.result_type(x, np.float64))
+    for c in coef[:-1][::-1]:
+        res = c + res * x
 
     return res.item(0) if res.size == 1 else res
 
-- 
2.43.0


From 7520fcd1c5a3664303cc1bf1573edd3eb7e36eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 097/131] fix: poly_log rejects lists and returns arrays for
 scalars

---
 copulae/special/special_func.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index bcde517..39908c5 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -185,9 +185,7 @@ def poly_log(z, s, method='default', log=False, is_log_z=False) -> Union[float,
     {array_like, scalar}
         Poly logarithms
     """
-    if isinstance(z, (complex, int, float)):
-        z = np.ravel(z)
-
+    z = np.atleast_1d(z)
     iz = -np.expm1(z) if is_log_z else 1 - z
     z = np.exp(z) if is_log_z else z
 
@@ -195,7 +193,7 @@ def poly_log(z, s, method='default', log=False, is_log_z=False) -> Union[float,
     assert method in ('default', 'neg-stirling', 'neg-eulerian')
     if s == 2 and method == 'default':
         r = dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
-        return np.log(r) if log else r
+        return _poly_log_out(np.log(r) if log else r)
 
     elif method == 'default':
         method = 'neg-stirling'
@@ -204,7 +202,7 @@ def poly_log(z, s, method='default', log=False, is_log_z=False) -> Union[float,
 
     if s == 1:
         r = -np.log1p(-z)
-        return np.log(r) if log else r
+        return _poly_log_out(np.log(r) if log else r)
 
     n = abs(int(s))
 
@@ -226,7 +224,11 @@ def poly_log(z, s, method='default', log=False, is_log_z=False) -> Union[float,
         else:
             res = z * p / iz ** (n + 1)
 
-    return res.item(0) if res.size == 1 else res
+    return _poly_log_out(res)
+
+
+def _poly_log_out(res):
+    return np.asarray(res).item(0) if np.size(res) == 1 else res
 
 
 def polyn_eval(coef, x) -> Union[float, np.ndarray]:
-- 
2.43.0


From f527ba8be6a87db4c97f0ffc5029666f2498c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 098/131] fix: dilog of NaN is 0 and of large negative numbers
 infinite

---
 copulae/special/_specfunc.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index 5218a38..f68d827 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -340,8 +340,12 @@ cdef double _dilog(double x) nogil:
     cdef:
         double res = 0, d1, d2
 
+    if x != x:
+        return cm.NAN
     if x >= 0:
         return dilog_xge0(x)
+    if x < -1e100:  # inversion formula, x * x could overflow
+        return -PI * PI / 6 - 0.5 * cm.log(-x) ** 2
     d1 = dilog_xge0(-x)
     d2 = dilog_xge0(x * x)
     res = 0.5 * d2 - d1
-- 
2.43.0


From 1a4462cc8f6a27da96ac9f9b8ee39d6e63015fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 099/131] fix: Sibuya sums of vectors mix up their summands

---
 copulae/archimedean/auxiliary.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/copulae/archimedean/auxiliary.py b/copulae/archimedean/auxiliary.py
index 1c98bc9..3dc62ec 100644
--- a/copulae/archimedean/auxiliary.py
+++ b/copulae/archimedean/auxiliary.py
@@ -52,30 +52,32 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
 
     len_long = max(len_x, len_n)
     if len_x != len_n:
-        if len_x < len_long:
-            x = np.repeat(x, len_long)
-        else:
-            n = np.repeat(n, len_long)
+        x, n = np.resize(x, len_long), np.resize(n, len_long)
 
     if alpha == 1:
-        return (x == n).astype(float)
+        s = (x == n).astype(float)
+        if log:
+            with np.errstate(divide='ignore'):
+                return np.log(s)
+        return s
 
     method = method.lower()
     assert method in ('log', 'direct', 'diff')
 
     s = np.zeros(len_long)
     if method == 'log':
-        signs = sign_ff(alpha, np.arange(np.max(n)) + 1, x)
-
         for i, xx, nn in zip(range(len_long), x, n):
             if xx < nn:
                 s[i] = -np.inf
                 continue
+            if nn == 0:
+                s[i] = 0 if xx == 0 else -np.inf
+                continue
             js = np.arange(nn)
             lxabs = comb(nn, js + 1, log=True) + comb(alpha * (js + 1), xx, log=True)
 
             offset = np.max(lxabs)
-            sum_ = np.sum(signs[js] * np.exp(lxabs - offset))
+            sum_ = np.sum(sign_ff(alpha, js + 1, xx) * np.exp(lxabs - offset))
             s[i] = np.log(sum_) + offset
 
         return s if log else np.exp(s)
@@ -83,6 +85,9 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
         for i, xx, nn in zip(range(len_long), x, n):
             if xx < nn:
                 continue
+            if nn == 0:
+                s[i] = xx == 0
+                continue
             js = np.arange(nn) + 1
             s[i] = np.sum(comb(nn, js) * comb(alpha * js, xx) * (-1) ** (xx - js))
 
@@ -90,6 +95,8 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
 
     else:  # diff
         for i, xx, nn in zip(range(len_long), x, n):
+            if xx < nn:
+                continue
             dd = comb(np.array([*range(nn, 0, -1), 0]) * alpha, xx)
             s[i] = np.diff(dd, nn) * (-1) ** xx
 
-- 
2.43.0


From 0cbf1208e82d70eca8a5cf98c3d68df51322853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 100/131] fix: Pickands dependence function of strong Gumbel
 copulas is 0

---
 copulae/archimedean/gumbel.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index a30607e..7c9f435 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -69,7 +69,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
             Array containing values of the dependence function
         """
         bnd = (w == 0) | (w == 1)
-        r = (w ** self.params + (1 - w) ** self.params) ** (1 / self.params)
+        m = np.maximum(w, 1 - w)  # w ** theta itself could underflow
+        r = m * ((w / m) ** self.params + ((1 - w) / m) ** self.params) ** (1 / self.params)
         return np.where(bnd, 1, r)
 
     @cast_input(['w'])
@@ -95,20 +96,12 @@ class GumbelCopula(AbstractArchimedeanCopula):
 
         alpha = self.params
 
-        expr1 = 1 - w
-        expr2 = w ** alpha + expr1 ** alpha
-        expr3 = 1 / alpha
-        expr4 = expr3 - 1
-        expr5 = expr2 ** expr4
-        expr6 = alpha - 1
-        expr7 = alpha * w ** expr6 - alpha * expr1 ** expr6
-        expr8 = expr3 * expr7
-        expr9 = expr6 - 1
-        # value = expr4 ** expr5
-
-        grad = expr5 * expr8
-        hess = expr4 * expr7 * expr8 * expr2 ** (expr4 - 1) + \
-               alpha * expr3 * expr5 * expr6 * (w ** expr9 + expr1 ** expr9)
+        m = np.maximum(w, 1 - w)  # w ** alpha itself could underflow
+        x, y = w / m, (1 - w) / m
+        expr = x ** alpha + y ** alpha
+
+        grad = expr ** (1 / alpha - 1) * (x ** (alpha - 1) - y ** (alpha - 1))
+        hess = (alpha - 1) * (x * y) ** (alpha - 2) * expr ** (1 / alpha - 2) / m ** 3
 
         if isinstance(grad, float) and isinstance(hess, float):
             return np.array([grad, hess])
-- 
2.43.0


From 30921894255c55ad9d285a9acfbb0e84cf3b7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 101/131] fix: derivative of the inverse Frank generator is NaN
 for theta = 0

---
 copulae/archimedean/frank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index f672268..649616c 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -52,10 +52,12 @@ class FrankCopula(AbstractArchimedeanCopula):
         s = 1 if log or degree % 2 == 0 else -1
 
         ut = u * self.params
-        if degree == 1:
+        if self.params == 0:
+            v = u ** -float(degree)
+        elif degree == 1:
             v = self.params / np.expm1(ut)
         else:
-            v = (self.params ** 2 * np.exp(ut)) / np.expm1(ut) ** 2
+            v = -self.params ** 2 / (np.expm1(ut) * np.expm1(-ut))
 
         return s * (np.log(v) if log else v)
 
-- 
2.43.0


From 59dd668a5079e91a3d8a09598f07db9ab0a128dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 102/131] fix: cdf and density of strong Clayton and Gumbel
 copulas are 0, 1 or NaN

---
 copulae/archimedean/clayton.py | 23 +++++++++++++++++++++--
 copulae/archimedean/gumbel.py  | 13 +++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index dceb8d6..944bd82 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -40,6 +40,25 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         self._bounds = (-1 + EPS) if dim == 2 else 0, np.inf
 
+    @validate_data_dim({"x": [1, 2]})
+    @shape_first_input_to_cop_dim
+    @squeeze_output
+    def cdf(self, x: Array, log=False) -> np.ndarray:
+        if self._theta > 0:
+            log_cdf = -self._log1p_sum_ipsi(x) / self._theta
+            return log_cdf if log else np.exp(log_cdf)
+
+        cdf = self.psi(self.ipsi(x).sum(1))
+        return np.log(cdf) if log else cdf
+
+    def _log1p_sum_ipsi(self, u: Array):
+        """log of 1 plus the sum of the inverse generators, which themselves overflow for large theta"""
+        u = np.asarray(u)
+        e = -self._theta * np.log(u)
+        m = e.max(1)
+        big = m + np.log(np.exp(e - np.where(np.isfinite(m), m, 0)[:, None]).sum(1))
+        return np.where(m > 600, big, np.log1p(np.expm1(e).sum(1)))
+
     @cast_input(['u'])
     @squeeze_output
     def dipsi(self, u: Array, degree=1, log=False):
@@ -127,16 +146,16 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             return log_pdf if log else np.exp(log_pdf)
 
         lu = np.log(u).sum(1)
-        t = self.ipsi(u).sum(1)
 
         if theta < 0:  # dim == 2
+            t = self.ipsi(u).sum(1)
             pos_t = t < 1
             log_pdf = np.log1p(theta) - (1 + theta) * lu - (d + 1 / theta) * np.log1p(-t)
             log_pdf[~ok] = np.nan
             log_pdf[ok & ~pos_t] = -np.inf
         else:
             p = np.log1p(theta * np.arange(1, d)).sum()
-            log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * np.log1p(t)
+            log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * self._log1p_sum_ipsi(u)
             log_pdf[~ok] = np.nan
 
         return log_pdf if log else np.exp(log_pdf)
diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 7c9f435..31f475d 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -111,6 +111,15 @@ class GumbelCopula(AbstractArchimedeanCopula):
             res[:, 1] = hess
             return res
 
+    @validate_data_dim({"x": [1, 2]})
+    @shape_first_input_to_cop_dim
+    @squeeze_output
+    def cdf(self, x: Array, log=False) -> np.ndarray:
+        # on the log scale, the inverse generator itself over- or underflows for large theta
+        lip = np.asarray(self.ipsi(x, log=True)).reshape(-1, self.dim)
+        log_cdf = -np.exp(np.logaddexp.reduce(lip, axis=1) / self.params)
+        return log_cdf if log else np.exp(log_cdf)
+
     @cast_input(['u'])
     @squeeze_output
     def dipsi(self, u, degree=1, log=False) -> np.ndarray:
@@ -139,8 +148,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
     @cast_input(['u'])
     @squeeze_output
     def ipsi(self, u: Array, log=False):
-        v = (-np.log(u)) ** self.params
-        return np.log(v) if log else v
+        nlu = -np.log(u)
+        return self.params * np.log(nlu) if log else nlu ** self.params
 
     @cast_input(['tau'])
     @squeeze_output
-- 
2.43.0


From dfc3815f80e4320cc1bdf1c1e063aac5b809f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:42 +0000
Subject: [PATCH 103/131] fix: cdf and density of strong Frank copulas are
 infinite or NaN

---
 copulae/archimedean/frank.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 649616c..c6e5a4c 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -1,6 +1,7 @@
 from typing import Literal
 
 import numpy as np
+from scipy.special import gammaln
 
 from copulae.copula import Summary, TailDep
 from copulae.special.debye import debye_1, debye_2
@@ -44,6 +45,26 @@ class FrankCopula(AbstractArchimedeanCopula):
         super().__init__(dim, theta, 'Frank')
         self._bounds = (-np.inf if dim == 2 else 0), np.inf
 
+    @validate_data_dim({"x": [1, 2]})
+    @shape_first_input_to_cop_dim
+    @squeeze_output
+    def cdf(self, x: Array, log=False) -> np.ndarray:
+        u = np.asarray(x)
+        cdf = np.atleast_1d(self.psi(np.asarray(self.ipsi(u)).reshape(-1, self.dim).sum(1)))
+        if self.params > 0:
+            far = (self.params * u > 40).all(1)
+            cdf[far] = -self._log_sum_ipsi(u[far], self.params) / self.params
+        return np.log(cdf) if log else cdf
+
+    def _log_sum_ipsi(self, u: np.ndarray, theta: float):
+        """
+        log of -log(1 - exp(-theta * C(u))) where all theta * u are large. There the inverse generators are exp(-theta * u)
+        up to rounding, and underflow for large theta
+        """
+        e = -theta * u
+        m = e.max(1)
+        return m + np.log(np.exp(e - m[:, None]).sum(1) - (self.dim - 1) * np.exp(-theta - m))
+
     @cast_input(['u'])
     @squeeze_output
     def dipsi(self, u: Array, degree=1, log=False):
@@ -158,7 +179,9 @@ class FrankCopula(AbstractArchimedeanCopula):
         lpu = log1mexp(theta * u_)
         lu = lpu.sum(1)
 
-        li = poly_log(lp + (lpu - lp).sum(1), 1 - d, log=True, is_log_z=True)
+        li = np.ravel(poly_log(lp + (lpu - lp).sum(1), 1 - d, log=True, is_log_z=True))
+        far = (theta * u_ > 40).all(1)
+        li[far] = gammaln(d) - d * self._log_sum_ipsi(u_[far], theta)
 
         res[ok] = (d - 1) * np.log(theta) + li - theta * u_sum - lu
 
-- 
2.43.0


From 4038aec87d008647449acb3a94526a34de915d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 104/131] fix: Clayton random for strong theta is 0 or
 degenerate

---
 copulae/archimedean/clayton.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 944bd82..4c76020 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -178,8 +178,15 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         r = random_uniform(n, self.dim, seed)
         if self.dim == 2:
-            r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** np.divide(-theta, theta + 1) - 1) + 1) ** (-1 / theta)
+            if theta > 20:  # the powers overflow
+                b = np.log(np.expm1(-theta / (theta + 1) * np.log(r[:, 1])))
+                r[:, 1] = np.exp(-np.logaddexp(0, -theta * np.log(r[:, 0]) + b) / theta)
+            else:
+                r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** np.divide(-theta, theta + 1) - 1) + 1) ** (-1 / theta)
             return r
+        elif theta > 20:  # the frailty underflows
+            log_gam = np.log(rng.standard_gamma(1 / theta + 1, n)) + theta * np.log(rng.random_sample(n))
+            return np.exp(-np.logaddexp(0, np.log(-np.log(r)) - log_gam[:, None]) / theta)
         else:
             gam = rng.standard_gamma(1 / theta, n)[:, None]
             r = -np.log(r) / gam
-- 
2.43.0


From 8ed1a3c5fb28656785f6ab40437b41c6b87ef45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 105/131] fix: cdf of strong Frank copulas loses digits in the
 lower tail

---
 copulae/archimedean/frank.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index c6e5a4c..470cc86 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -52,15 +52,23 @@ class FrankCopula(AbstractArchimedeanCopula):
         u = np.asarray(x)
         cdf = np.atleast_1d(self.psi(np.asarray(self.ipsi(u)).reshape(-1, self.dim).sum(1)))
         if self.params > 0:
-            far = (self.params * u > 40).all(1)
+            far = (self.params * u > 10).all(1)
             cdf[far] = -self._log_sum_ipsi(u[far], self.params) / self.params
         return np.log(cdf) if log else cdf
 
     def _log_sum_ipsi(self, u: np.ndarray, theta: float):
         """
-        log of -log(1 - exp(-theta * C(u))) where all theta * u are large. There the inverse generators are exp(-theta * u)
-        up to rounding, and underflow for large theta
+        log of 1 - exp(-sum(ipsi(u))) where all theta * u are large. The inverse generators, exp(-theta * u) up to rounding,
+        lose digits and underflow there
         """
+        near = (theta * u < 40).any(1)
+        if near.any():
+            out = np.empty(len(u))
+            t = np.log1p(-np.exp(-theta * u[near])) - np.log1p(-np.exp(-theta))
+            out[near] = np.log(np.exp(t.sum(1) - theta) - np.expm1(t.sum(1)))
+            out[~near] = self._log_sum_ipsi(u[~near], theta)
+            return out
+
         e = -theta * u
         m = e.max(1)
         return m + np.log(np.exp(e - m[:, None]).sum(1) - (self.dim - 1) * np.exp(-theta - m))
-- 
2.43.0


From 8073ca9c0f1de3312d8dcabdaf47ce9550af0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 106/131] fix: Gumbel polynomial of degree 1 by the Poisson
 method raises

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 31f475d..bed2156 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -430,7 +430,7 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
 
         lxabs = llx + lppois + np.tile(labs_poch - lfac, (n, 1)).T + np.tile(x, (d, 1))
 
-        signs = sign_ff(alpha, k, d)
+        signs = np.atleast_1d(sign_ff(alpha, k, d))
         offset = np.max(lxabs, 0)
         sum_ = np.sum(signs[:, None] * np.exp(lxabs - offset[None, :]), 0)
         res = np.log(sum_) + offset
-- 
2.43.0


From 8b35c8ad33bc83df85fd31488a15000e4eacc8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:15 +0000
Subject: [PATCH 107/131] fix: stable density for alpha = 1 misses narrow peaks

---
 copulae/stats/stable/pdf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 803e5dc..7d6b526 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -176,13 +176,19 @@ def aux_f2(x, beta, log=False):
 
     root = find_root(lambda u: g1(u) - 1, -1, 1)
 
-    r1 = integrate(g2, -1, root)
-    r2 = integrate(g2, root, 1)
+    # the peak at the root may be very narrow, hence the splits where g1, which is monotone, has fixed values
+    edges = [-1, root, 1]
+    for v in (1e-9, 1e-6, 1e-3, 0.1, 5, 30):
+        a, b = (-1, root) if (g1(-1) < 1) == (v < 1) else (root, 1)
+        if (g1(a) - v) * (g1(b) - v) < 0:
+            edges.append(find_root(lambda u: g1(u) - v, a, b))
+    edges.sort()
+    r = sum(integrate(g2, a, b) for a, b in zip(edges[:-1], edges[1:]))
 
     if log:
-        return np.log(PI2) + np.log(abs(i2b)) + np.log(r1 + r2)
+        return np.log(PI2) + np.log(abs(i2b)) + np.log(r)
     else:
-        return PI2 * abs(i2b) * (r1 + r2)
+        return PI2 * abs(i2b) * r
 
 
 def pareto(x, alpha, beta, log=False):
-- 
2.43.0


From 27fae7feeeec9927dec73cd4d491f8f4728d1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 108/131] fix: stable density raises or vanishes in the far
 tails

---
 copulae/stats/stable/pdf.py    |  7 ++-----
 copulae/stats/stable/stable.py | 22 ++++++++++++----------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 7d6b526..19fb660 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -197,11 +197,8 @@ def pareto(x, alpha, beta, log=False):
     if x.ndim == 0:
         x = x.ravel()
 
-    neg = x < 0
-    if np.any(neg):
-        x[neg] *= -1
-        beta = np.repeat(beta, len(x))
-        beta[neg] *= -1
+    beta = np.where(x < 0, -beta, beta)
+    x = np.abs(x)
 
     if log:
         return np.log(alpha) + np.log1p(beta) + stable_tail(alpha, log=True) - (1 + alpha) * np.log(x)
diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 5cf35d7..cf8cac2 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -87,16 +87,18 @@ class skew_stable:
         elif alpha == 1 and beta == 0:
             ans = cauchy.logpdf(x) if log else cauchy.pdf(x)
 
-        elif alpha == 1:  # beta not 0
-            if isinstance(x, (complex, float, int)):
-                ans = np.array([pdf.aux_f2(x, beta, log)])
-            else:
-                ans = np.array([pdf.aux_f2(e, beta, log) for e in x.ravel()]).reshape(x.shape)
-        else:  # alpha != 1
-            if isinstance(x, (complex, float, int)):
-                ans = np.array([pdf.aux_f1(x, alpha, beta, log)])
-            else:
-                ans = np.array([pdf.aux_f1(e, alpha, beta, log) for e in x.ravel()]).reshape(x.shape)
+        else:
+            # far out the integrals fail or vanish whereas the tail approximation is exact up to this order
+            x = np.atleast_1d(x)
+            far = np.abs(x) > 10 ** (5 / alpha)
+
+            def aux(e):
+                if np.isnan(e):
+                    return np.nan
+                return pdf.aux_f2(e, beta, log) if alpha == 1 else pdf.aux_f1(e, alpha, beta, log)
+
+            ans = np.full(x.shape, -np.inf if log else 0.)
+            ans[~far] = [aux(e) for e in x[~far]]
 
         if ans.size == 1:
             ans = ans.ravel()
-- 
2.43.0


From 1dc6d06a925c061e5493ad00b992a01db460cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:09 +0000
Subject: [PATCH 109/131] fix: exch_test on a large integration grid overflows
 an index and crashes

---
 copulae/gof/_exchangeability.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index 5899195..c045769 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -137,8 +137,8 @@ def exch_test_cn(double[:, :] u, double[:, :] g, int n, int m, int N, int random
         Random state used to standardize calculated p-value
     """
     cdef:
-        double[:] influ = np.zeros(m * n), s0 = np.zeros(N), random
-        int i, j, k
+        double[:] influ = np.zeros(<Py_ssize_t> m * n), s0 = np.zeros(N), random
+        Py_ssize_t i, j, k
         double x, y, d1xy, d2xy, d1yx, d2yx, mean, process
         double[:] U = u[:, 0], V = u[:, 1]
 
-- 
2.43.0


From a3dcba085de02d763260260c146bfb957619f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 110/131] fix: a failed or unconverged fit leaves its starting
 estimate as the parameters

---
 copulae/copula/estimator/estimator.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index bf4dd32..0760cee 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Any, Literal, Optional, Protocol, Tuple, Union
 
 import numpy as np
@@ -93,13 +94,19 @@ def fit_copula(copula: Copula, data: Union[pd.DataFrame, np.ndarray],
         raise ValueError("number of data (rows) must be greater than its dimension")
 
     m = method.lower()
-    if m in {'ml'}:
-        x0 = initial_params(copula, data, x0)
-        return estimate_max_likelihood_params(copula, data, x0, options, verbose, scale)
-    elif m in ('itau', 'irho'):
-        return estimate_corr_inverse_params(copula, data, m)
-    else:
-        raise NotImplementedError(f"'{m}' is not implemented")
+    start = deepcopy(copula.params)
+    try:
+        if m in {'ml'}:
+            x0 = initial_params(copula, data, x0)
+            copula.params = start
+            return estimate_max_likelihood_params(copula, data, x0, options, verbose, scale)
+        elif m in ('itau', 'irho'):
+            return estimate_corr_inverse_params(copula, data, m)
+        else:
+            raise NotImplementedError(f"'{m}' is not implemented")
+    except Exception:
+        copula.params = start  # a fit which failed leaves the copula as it was
+        raise
 
 
 def initial_params(copula: Copula, data: np.ndarray, x0: np.ndarray):
-- 
2.43.0


From 47d8976df8e2ccbc0f27f569425a5a5bd070da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:32 +0000
Subject: [PATCH 111/131] fix: MarginalCopula keeps the margins of a fit that
 failed

---
 copulae/marginal/marginal.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 659cc02..bdacfa1 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -110,14 +110,13 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         elif self.dim != data.shape[1]:
             raise InputDataError('Dimension of data does not match copula')
 
-        self._columns = columns
-
-        for i, m in enumerate(self._marginals):
-            self._marginals[i] = m.dist(*m.dist.fit(data[:, i]))
+        marginals = [m.dist(*m.dist.fit(data[:, i])) for i, m in enumerate(self._marginals)]
 
         # writing it as such to get past the type-hints flags
         self._copula.fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
         self._fit_smry = self._copula._fit_smry
+        self._marginals = marginals
+        self._columns = columns
         return self
 
     @property
-- 
2.43.0


From 45b9dec2cb89b5afd5bfde800a4f1a0bed4d855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:19 +0000
Subject: [PATCH 112/131] fix: GaussianMixtureCopula keeps the starting
 parameters of a fit that failed

---
 copulae/mixtures/gmc/gmc.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index be10c9c..85808ff 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -191,6 +191,21 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
         data = np.asarray(data)
 
+        if method not in ('pem', 'sgd', 'kmeans'):
+            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+
+        previous = self._param, self._fit_smry
+        try:
+            self._fit(data, x0, method, optim_options, ties, verbose, max_iter, criteria, eps)
+        except Exception:
+            self._param, self._fit_smry = previous  # a fit which failed leaves the copula as it was
+            raise
+
+        self._columns = columns
+        self._fit_details["method"] = method
+        return self
+
+    def _fit(self, data, x0, method, optim_options, ties, verbose, max_iter, criteria, eps):
         if x0 is None:
             self._fit_smry = k_means(data, self.clusters, self.dim)
             self.params = self._fit_smry.best_params
@@ -206,16 +221,10 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         elif method == 'sgd':
             u = pseudo_obs(data, ties)
             self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
-        elif method == 'kmeans':
-            if x0 is not None:  # otherwise already fitted by default
-                self._fit_smry = k_means(data, self.clusters, self.dim)
-        else:
-            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+        elif x0 is not None:  # kmeans, otherwise already fitted by default
+            self._fit_smry = k_means(data, self.clusters, self.dim)
 
         self.params = self._fit_smry.best_params
-        self._columns = columns
-        self._fit_details["method"] = method
-        return self
 
     @property
     def params(self):
-- 
2.43.0


From cdb003129439affefad4f7fe0f7853de8fe56e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:36 +0000
Subject: [PATCH 113/131] fix: GaussianMixtureCopula.fit ignores ties when it
 fits by k-means

---
 copulae/mixtures/gmc/gmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 85808ff..9c8c2f8 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -207,7 +207,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
     def _fit(self, data, x0, method, optim_options, ties, verbose, max_iter, criteria, eps):
         if x0 is None:
-            self._fit_smry = k_means(data, self.clusters, self.dim)
+            self._fit_smry = k_means(data, self.clusters, self.dim, ties)
             self.params = self._fit_smry.best_params
         elif isinstance(x0, GMCParam):
             self.params = x0
@@ -222,7 +222,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
             u = pseudo_obs(data, ties)
             self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
         elif x0 is not None:  # kmeans, otherwise already fitted by default
-            self._fit_smry = k_means(data, self.clusters, self.dim)
+            self._fit_smry = k_means(data, self.clusters, self.dim, ties)
 
         self.params = self._fit_smry.best_params
 
-- 
2.43.0


From 960d02341ed627d5cf2b34640dc057a6aba40b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 114/131] fix: GaussianMixtureCopula accepts a dictionary of
 parameters of another dimension

---
 copulae/mixtures/gmc/gmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 9c8c2f8..f672db7 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -240,10 +240,11 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
     @params.setter
     def params(self, params: Optional[Union[GMCParam, np.ndarray, Collection, GMCParamDict]]):
+        if isinstance(params, dict):
+            params = GMCParam.from_dict(params)
+
         if params is None:
             self._param = None
-        elif isinstance(params, dict):
-            self._param = GMCParam.from_dict(params)
         elif isinstance(params, GMCParam):
             if params.n_dim != self.dim or params.n_clusters != self.clusters:
                 raise GMCParamMismatchError(f"Expected {self.clusters} clusters and {self.dim} dimensions "
-- 
2.43.0


From d7afb7a7985738d611589df19015b241804d42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:28 +0000
Subject: [PATCH 115/131] fix: GMCParam.from_vector makes up the missing
 elements of a short vector

---
 copulae/mixtures/gmc/parameter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 708bd45..b4abe56 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -64,13 +64,16 @@ class GMCParam:
         """
         m, d = n_clusters, n_dim
         vector = np.array(vector)
+        step = d * (d + 1) // 2
+        if vector.shape != (m * (1 + d + step),):
+            raise GMCParamError(f"parameter vector should have {m * (1 + d + step)} components")
+
         prob = np.exp(vector[:m]) / (1 + np.exp(vector[:m]))
         prob /= prob.sum()
 
         means = vector[m:(m + m * d)].reshape(m, d)
 
         covs = []
-        step = d * (d + 1) // 2
         for i in range(m * (d + 1), len(vector), step):
             cov = np.zeros((d, d))
             cov[np.triu_indices(d)] = vector[i:i + step]
-- 
2.43.0


From a700443668ab953da148131c2de63322099e65e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:32 +0000
Subject: [PATCH 116/131] fix: FrankCopula.random without a parameter gives NaN
 columns

---
 copulae/archimedean/frank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 470cc86..f95a3f4 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -217,6 +217,9 @@ class FrankCopula(AbstractArchimedeanCopula):
 
     @cast_output
     def random(self, n: int, seed: int = None):
+        if np.isnan(self.params):
+            raise RuntimeError('Frank copula parameter cannot be nan')
+
         u = random_uniform(n, self.dim, seed)
         if abs(self.params) < 1e-7:
             return u
-- 
2.43.0


From 5560825cb339093445d9d975f52a42d653ad7036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:46 +0000
Subject: [PATCH 117/131] fix: IndepCopula has density 1 outside the unit cube

---
 copulae/indep/indep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/indep/indep.py b/copulae/indep/indep.py
index c0fa8a9..c59ec31 100644
--- a/copulae/indep/indep.py
+++ b/copulae/indep/indep.py
@@ -56,7 +56,8 @@ class IndepCopula(BaseCopula[int]):
     @shape_first_input_to_cop_dim
     @squeeze_output
     def pdf(self, x: Array, log=False):
-        return np.repeat(0 if log else 1, len(x))
+        ok = ((0 <= x) & (x <= 1)).all(1)
+        return np.where(ok, 0. if log else 1., np.nan)
 
     @cast_output
     def random(self, n: int, seed: int = None):
-- 
2.43.0


From 06f15de4136dc0549c535c6cc4f2023107028bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:02 +0000
Subject: [PATCH 118/131] fix: EmpiricalCopula.cdf is 0 for missing values

---
 copulae/empirical/distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copulae/empirical/distribution.py b/copulae/empirical/distribution.py
index 93515d1..3cd6ca0 100644
--- a/copulae/empirical/distribution.py
+++ b/copulae/empirical/distribution.py
@@ -40,7 +40,9 @@ def emp_dist_func(x: np.ndarray, y: np.ndarray, smoothing: Optional[str] = "none
     assert np.ndim(x) == 2 and np.ndim(y) == 2, "input data must be matrices"
     assert x.shape[1] == y.shape[1], "input data must have the same dimensions"
 
-    return emp_copula_dist(x, y, offset, smoothing)
+    res = emp_copula_dist(x, y, offset, smoothing)
+    res[np.isnan(x).any(1)] = np.nan  # comparisons with nan are false, which would count as below all the data
+    return res
 
 
 def _map_smoothing(smoothing: Optional[str]):
-- 
2.43.0


From bb279e771d9efca07a40099694ded607d5e42e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:06 +0000
Subject: [PATCH 119/131] fix: EmpiricalCopula.to_marginals maps values outside
 [0, 1] to the wrong end of the data

---
 copulae/empirical/empirical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 45a7bc4..5998698 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -254,6 +254,9 @@ class EmpiricalCopula(BaseCopula[None]):
         1 -1.054686  2.917943  0.261550
         2 -0.428498  3.176723  0.492262
         """
+        if not np.all((np.asarray(u) >= 0) & (np.asarray(u) <= 1)):
+            raise ValueError("sample marginals must be between [0, 1]")
+
         # because it is pseudo-observations, and already ranked within the columns, we can just
         # multiply by the number of rows in the original data set to get the position rank
         index = np.minimum(np.array(np.floor(u * len(original)), int), len(original) - 1)
-- 
2.43.0


From b10bd95ed9f2dbf41b16971058170002ca39c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 120/131] fix: Gaussian cdf of missing values is 0 in more than
 2 dimensions

---
 copulae/elliptical/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 219bb7f..8138e11 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -51,9 +51,11 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
         x = np.asarray(x, dtype=float)
         q = norm.ppf(x)
         sigma = self.sigma
+        missing = np.isnan(q).any(axis=1)
         zero = (x == 0).any(axis=1)  # infinite quantiles are NaN for the integration routine
         q[zero] = 0
         p = np.where(zero, 0, mvn.cdf(q, cov=sigma))
+        p[missing] = np.nan  # which the integration routine takes for 0 in more than 2 dimensions
         return np.log(p) if log else p
 
     @cast_input(['rho'])
-- 
2.43.0


From 2998b24028af0863d8233531f7100df65cf110b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:38 +0000
Subject: [PATCH 121/131] fix: Gaussian mixture cdf of missing values is 0 in
 more than 2 dimensions

---
 copulae/mixtures/gmc/gmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index f672db7..2ee604f 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -123,6 +123,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
             out += prob * mvn.cdf(x, mean, cov)
+        out[np.isnan(x).any(axis=1)] = np.nan  # which the integration routine takes for 0 in more than 2 dimensions
 
         return np.log(out) if log else out
 
-- 
2.43.0


From 1404211ff66109a8c3decc7980bb0920622aba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:27 +0000
Subject: [PATCH 122/131] fix: correlations assigned as a matrix of integers no
 longer truncate later items

---
 copulae/elliptical/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index cbf6c79..8d68b9a 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -87,7 +87,7 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
             if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
-            value = np.asarray(value)
+            value = np.asarray(value, dtype=float)
             if not np.all((value >= -1 - EPS) & (value <= 1 + EPS)):
                 raise ValueError("correlation value must be between -1 and 1")
 
-- 
2.43.0


From 60e19d7c57455df1b0c3fbbeb3a2362a717f5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:39 +0000
Subject: [PATCH 123/131] fix: Gumbel dtau of integers

---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index bed2156..2a9ef4d 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -143,7 +143,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     def dtau(self, x=None):
         if x is None:
             x = self.params
-        return x ** -2
+        return x ** -2.
 
     @cast_input(['u'])
     @squeeze_output
-- 
2.43.0


From 6635350ff56eed4ee136efeef65cf8891bf24ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:06 +0000
Subject: [PATCH 124/131] fix: summaries show parameters that are NumPy numbers
 of any type

---
 copulae/copula/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/copula/summary.py b/copulae/copula/summary.py
index 2379d73..f846cb5 100644
--- a/copulae/copula/summary.py
+++ b/copulae/copula/summary.py
@@ -31,7 +31,7 @@ class Summary(SummaryType):
     def _repr_html_(self):
         params = []
         for k, v in self.params.items():
-            if isinstance(v, (int, float, complex, str)):
+            if isinstance(v, (int, float, complex, str, np.number)):
                 params.append(f"<strong>{k}</strong><span>{v}</span>")
             if isinstance(v, np.ndarray) and v.ndim == 2:  # correlation matrix
                 params.append(f"<strong>{k}</strong>" + pd.DataFrame(v).to_html(header=False, index=False))
@@ -64,7 +64,7 @@ class Summary(SummaryType):
             msg.extend(["Parameters", "-" * 80])
 
             for k, v in self.params.items():
-                if isinstance(v, (int, float, complex, str)):
+                if isinstance(v, (int, float, complex, str, np.number)):
                     msg.extend([f"{k:^20}: {v}", ''])
                 if isinstance(v, np.ndarray) and v.ndim == 2:  # correlation matrix
                     msg.extend([f"{k:^20}", pd.DataFrame(v).to_string(header=False, index=False), ''])
-- 
2.43.0


From 576a8747b3bad60f07ed910004aee89e2b205949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:16 +0000
Subject: [PATCH 125/131] fix: is_psd of NumPy numbers of any type

---
 copulae/core/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/core/linalg.py b/copulae/core/linalg.py
index 3db5734..5541145 100644
--- a/copulae/core/linalg.py
+++ b/copulae/core/linalg.py
@@ -84,7 +84,7 @@ def is_psd(M: np.ndarray, strict=False, tol=1e-12) -> bool:
     bool
         True if matrix is positive (semi-)definite, else False
     """
-    if isinstance(M, (int, float)):
+    if np.isscalar(M):
         return M > tol if strict else M >= -tol
 
     M = np.asarray(M)
-- 
2.43.0


From ea54dbb9c2a7300eae61776aa0557090fa357b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:05 +0000
Subject: [PATCH 126/131] fix: dilog_complex of angles beyond (-pi, pi]

---
 copulae/special/_specfunc.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index f68d827..5bf95b6 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -456,6 +456,9 @@ cdef ComplexResult _dilog_complex(double r, double theta) nogil:
 
         double ln_minusz_re, ln_minusz_im, lmz2_re, lmz2_im
 
+    if cm.fabs(theta) > PI:  # the formulas below use the principal angle
+        theta = cm.atan2(y, x)
+
     if cm.fabs(y) < 10 * DBL_EPSILON:
         c.real = _dilog(x)
         if x >= 1:
-- 
2.43.0


From ae085f067f192c65028eea781ec051f282e78b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:21 +0000
Subject: [PATCH 127/131] fix: merge_dicts of one dictionary returned the
 caller's own

---
 copulae/utility/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/utility/dict.py b/copulae/utility/dict.py
index 4518857..2b3fb81 100644
--- a/copulae/utility/dict.py
+++ b/copulae/utility/dict.py
@@ -63,7 +63,7 @@ def merge_dicts(*dicts: dict) -> dict:
 
     a = dicts[0]
     if len(dicts) == 1:
-        return dicts[0]
+        return dict(a)
 
     for b in dicts:
         a = merge_dict(a, b)
-- 
2.43.0


From 33d7f45d5c3ef27bb2db9dbab66fc516ea78bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:56 +0000
Subject: [PATCH 128/131] fix: Frank measures of weak dependence

---
 copulae/archimedean/frank.py | 41 ++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index f95a3f4..809c803 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -1,7 +1,7 @@
 from typing import Literal
 
 import numpy as np
-from scipy.special import gammaln
+from scipy.special import gamma, gammaln
 
 from copulae.copula import Summary, TailDep
 from copulae.special.debye import debye_1, debye_2
@@ -95,14 +95,15 @@ class FrankCopula(AbstractArchimedeanCopula):
     def drho(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return 12 * (x / np.expm1(x) - 3 * debye2(x) + 2 * debye1(x)) / x ** 2
+        return _about_zero(x, _RHO_SERIES, 1,
+                           lambda t: 12 * (t / np.expm1(t) - 3 * debye2(t) + 2 * debye1(t)) / t ** 2)
 
     @cast_input(['x'], optional=True)
     @squeeze_output
     def dtau(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return (x / np.expm1(x) + 1 - 2 * debye1(x)) * (2 / x) ** 2
+        return _about_zero(x, _TAU_SERIES, 1, lambda t: (t / np.expm1(t) + 1 - 2 * debye1(t)) * (2 / t) ** 2)
 
     @cast_input(['u'], optional=True)
     @squeeze_output
@@ -252,23 +253,37 @@ class FrankCopula(AbstractArchimedeanCopula):
 
     @property
     def tau(self):
-        t = self.params
-        if np.isclose(t, 0):
-            return t / 9
         return self._tau(self.params)
 
     @staticmethod
     def _rho(theta):
-        if np.isclose(theta, 0):
-            return theta / 6
-        return 1 + 12 / theta * (debye2(theta) - debye1(theta))
+        return _about_zero(theta, _RHO_SERIES, 0, lambda t: 1 + 12 / t * (debye2(t) - debye1(t)))
 
     @staticmethod
     def _tau(theta):
-        theta = np.asarray(theta)
-        if theta.size == 1:
-            theta = float(theta)
-        return 1 + 4 * (debye1(theta) - 1) / theta
+        return _about_zero(theta, _TAU_SERIES, 0, lambda t: 1 + 4 * (debye1(t) - 1) / t)
+
+
+# Taylor coefficients (of the odd powers) of Kendall's tau and Spearman's rho about theta = 0. There, the closed forms
+# are differences of numbers that are nearly equal
+_K = np.arange(1, 8)
+_BERNOULLI = np.array([1 / 6, -1 / 30, 1 / 42, -1 / 30, 5 / 66, -691 / 2730, 7 / 6]) / gamma(2 * _K + 1)
+_TAU_SERIES = 4 * _BERNOULLI / (2 * _K + 1)
+_RHO_SERIES = 12 * _BERNOULLI * _K / ((_K + 1) * (2 * _K + 1))
+
+
+def _about_zero(theta, series, derivative, closed_form):
+    """Value (or first derivative) of a measure of dependence: the series for small parameters, else the closed form"""
+    theta = np.asarray(theta, dtype=float)
+    t = theta.ravel()
+    res = np.empty(t.shape)
+    small = np.abs(t) < 0.3
+    power = 2 * _K - 1
+    coef = series * power if derivative else series
+    res[small] = (t[small, None] ** (power - derivative)) @ coef
+    if not np.all(small):
+        res[~small] = closed_form(t[~small])
+    return res.item(0) if theta.size == 1 else res.reshape(theta.shape)
 
 
 def debye1(x):
-- 
2.43.0


From 0878598b4257b036328d48608c37d394d0bbd3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:51 +0000
Subject: [PATCH 129/131] fix: mixtures are drawn from weights that sum to 1
 approximately

---
 copulae/mixtures/gmc/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/random.py b/copulae/mixtures/gmc/random.py
index 561d029..4e322ba 100644
--- a/copulae/mixtures/gmc/random.py
+++ b/copulae/mixtures/gmc/random.py
@@ -32,7 +32,7 @@ def random_gmm(n: int, param: GMCParam):
     """Generates random variables from a Gaussian Mixture Model"""
 
     output = np.empty((n, param.n_dim))
-    order = choice(range(param.n_clusters), n, p=param.prob)
+    order = choice(range(param.n_clusters), n, p=param.prob / param.prob.sum())
     for i in range(param.n_clusters):
         k = sum(order == i)
         output[order == i] = mvn.rvs(param.means[i], cov=param.covs[i], size=k)
-- 
2.43.0


From 59062ee94b1d92422144e94d502baf805a5182a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:09 +0000
Subject: [PATCH 130/131] fix: stable density for alpha = 1 and tiny beta is
 off by orders of magnitude

---
 copulae/stats/stable/pdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 19fb660..a30e2a5 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -158,6 +158,11 @@ def aux_f2(x, beta, log=False):
     scalar
         Output of auxiliary function
     """
+    if abs(beta) < 1e-11 * x ** 2:
+        # the peak of the integrand is narrower than the spacing of its arguments, the law next to a Cauchy law
+        ans = (1 + beta * np.sign(x)) / (PI * (1 + x ** 2))
+        return np.log(ans) if log else ans
+
     i2b = 1 / (2 * beta)
     p2b = PI * i2b
     ea = -p2b * x
-- 
2.43.0


From 9ae6e229227c10cd85c0b7aa696bcfb2b6f24fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:14 +0000
Subject: [PATCH 131/131] fix: stable density next to its mode is off by 1 %

---
 copulae/stats/stable/common.py | 3 ++-
 copulae/stats/stable/pdf.py    | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/stats/stable/common.py b/copulae/stats/stable/common.py
index 43d1a76..7c76227 100644
--- a/copulae/stats/stable/common.py
+++ b/copulae/stats/stable/common.py
@@ -20,7 +20,8 @@ def eminus(x):
 
 def integrate(f, lower: float, upper: float):
     """Helper integration function"""
-    return quad(f, lower, upper, limit=1000)[0]
+    # what is integrated gets divided by numbers that may be tiny
+    return quad(f, lower, upper, limit=1000, epsabs=1e-14)[0]
 
 
 def stable_tail(alpha, log=False):
diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index a30e2a5..19d4b4c 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -52,6 +52,9 @@ def aux_f1(x, alpha, beta, log=False):
     if np.isfinite(x) and x_m_zeta <= zeta_tol * (zeta_tol + np.abs([x, zeta]).max()):
         return f_zeta
 
+    if alpha > 1 and x_m_zeta < 1e-6:  # the density is smooth, the integrals below are not accurate
+        return f_zeta
+
     if x < zeta:
         theta0 = -theta0
         if alpha < 1e-17:
-- 
2.43.0

