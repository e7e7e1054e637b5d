From 0599684673448095440f00a2c0df9e4a58c2fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 01/62] fix: Huber.prox switches to soft-thresholding at |x| >
 alpha + tau

---
 pyproximal/proximal/Huber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 2085c5b..c4e001e 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -60,7 +60,7 @@ class Huber(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         y = np.zeros_like(x)
         xabs = np.abs(x)
-        mask = xabs > self.alpha
+        mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
         y[mask] = self.l1.prox(x[mask], tau)
         # alternative from https://math.stackexchange.com/questions/1650411/
-- 
2.43.0


From 7abb929f4d1d9586932e816fe23a6cc65d1f8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 02/62] fix: L1BallProj leaves points inside the ball unmoved

---
 pyproximal/projection/L1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyproximal/projection/L1.py b/pyproximal/projection/L1.py
index e6991fd..15a19e4 100644
--- a/pyproximal/projection/L1.py
+++ b/pyproximal/projection/L1.py
@@ -49,6 +49,8 @@ class L1BallProj:
         self.simplex = SimplexProj(n, radius, maxiter, xtol)
 
     def __call__(self, x: NDArray) -> NDArray:
+        if np.sum(np.abs(x)) <= self.radius:
+            return x
         if np.iscomplexobj(x):
             return np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))
         else:
-- 
2.43.0


From 85aff78acce52414aa8b0ace462f5626350540b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 03/62] fix: L0BallProj and L10BallProj with zero radius return
 zeros

---
 pyproximal/projection/L0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/L0.py b/pyproximal/projection/L0.py
index e470d28..d1c2c5b 100644
--- a/pyproximal/projection/L0.py
+++ b/pyproximal/projection/L0.py
@@ -34,7 +34,7 @@ class L0BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xshape = x.shape
         xf = x.copy().flatten()
-        xf[np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xf[np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xf.reshape(xshape)
 
 
@@ -71,7 +71,7 @@ class L10BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xc = x.copy()
         xf = np.linalg.norm(x, axis=0, ord=1)
-        xc[:, np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xc[:, np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xc
 
 
-- 
2.43.0


From 885fc6ab162bd783fcdb98ef35e5c5f72b41cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 04/62] fix: IntersectionProj does not overwrite its input

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bdd765d..86202d9 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n)
+        x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From fd19704fab430cc08cba067dfb4339ee987a161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 05/62] fix: L21_plus_L1.prox with rho=1 or axis=1

---
 pyproximal/proximal/L21_plus_L1.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 10dcbd4..7978d40 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -47,8 +47,12 @@ class L21_plus_L1(ProxOperator):
         l1 = np.maximum(np.abs(x) - thresh * self.rho, 0)
         # Axis defines what dimension to perform grouping over
         aux_l21 = np.sqrt(
-            np.sum(np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2, axis=axis)
+            np.sum(
+                np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2,
+                axis=axis,
+                keepdims=True,
+            )
         )
-        l21 = np.maximum(1 - thresh * (1 - self.rho) / aux_l21, 0)
+        l21 = np.maximum(np.nan_to_num(1 - thresh * (1 - self.rho) / aux_l21), 0)
         x = np.nan_to_num(x / np.abs(x)) * l1 * l21
         return x
-- 
2.43.0


From a863e2e70fab319719c0ba9e08292c21caaef362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 06/62] fix: L1.proxdual of complex vectors clips magnitudes,
 not real parts

---
 pyproximal/proximal/L1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 42129ae..33f63ed 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -147,7 +147,7 @@ class L1(ProxOperator):
 
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
-        if not isinstance(self.gdual, np.ndarray):
+        if not isinstance(self.gdual, np.ndarray) and not np.iscomplexobj(x):
             x = self.box(x)
         else:
             x = self._proxdual_moreau(x, tau)
-- 
2.43.0


From cece850d4a1c62a1b0b5848fffd3a729f2b0f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 07/62] fix: Log1.prox of complex vectors shifts the magnitude
 by delta

---
 pyproximal/proximal/Log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 5a9d10b..8b4a3c4 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -172,7 +172,7 @@ class Log1(ProxOperator):
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
-                        np.abs(x[np.abs(x) > thresh] + self.delta) ** 2 - 2 * tau1
+                        (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
                     )
                 )
             )
-- 
2.43.0


From be8328644c957576136f7b45458d90c23597bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 08/62] fix: QuadraticEnvelopeCard.prox for tau > 1 returns the
 global minimiser

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index a07ee16..b13c1e4 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -87,7 +87,7 @@ class QuadraticEnvelopeCard(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         r = np.abs(x)
-        idx = r < np.sqrt(2 * self.mu)
+        idx = r < np.sqrt(2 * self.mu * max(1.0, tau))
         if tau >= 1:
             r[idx] = 0
         else:
-- 
2.43.0


From d00401ed22c6a99910e5d8198679abfd80edfcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 09/62] fix: QuadraticEnvelopeCardIndicator for tau >= 1 and r0
 = 1

---
 pyproximal/proximal/QuadraticEnvelope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index b13c1e4..9c1517b 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -1,7 +1,7 @@
 import numpy as np
-from pylops.optimization.cls_sparsity import _hardthreshold
 from pylops.utils.typing import IntNDArray, NDArray, ShapeLike
 
+from pyproximal.projection import L0BallProj
 from pyproximal.ProxOperator import ProxOperator, _check_tau
 
 
@@ -173,7 +173,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
         xs = np.sort(np.abs(x))[::-1]
         sums = np.cumsum(xs[::-1])
         sums = sums[-self.r0 :] / np.arange(1, self.r0 + 1)
-        tmp = np.diff(sums) > 0
+        tmp = np.append(np.diff(sums) > 0, self.r0 == 1)
         k_star = int(np.argmax(tmp))
         if k_star == 0 and not tmp[k_star]:
             k_star = self.r0 - 1
@@ -189,7 +189,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     def prox(self, y: NDArray, tau: float) -> NDArray:
         rho = 1 / tau
         if rho <= 1:
-            return _hardthreshold(y, tau)
+            return L0BallProj(self.r0)(y)
         if y.size <= self.r0:
             return y
 
-- 
2.43.0


From 6cb3ac387933f4439d6bab2db5cca5853543e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 10/62] fix: QuadraticEnvelopeRankL2.prox no longer reads past
 the last threshold

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 9c1517b..893aaa1 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -321,7 +321,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
             s = b / a
 
-            if p[k] <= s <= p[k + 1]:
+            if p[k] <= s and (k + 1 == n or s <= p[k + 1]):
                 zk = np.maximum(s, yk)
                 zk[self.r0 :] = np.minimum(s, (1 + rho) * yk[self.r0 :])
                 break
-- 
2.43.0


From 3f171b239f54c20ade48ae9e5156840a7cad5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 11/62] fix: ProximalGradient relaxes from the extrapolated
 point, with one proximal step

---
 pyproximal/optimization/primal.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fad1fe7..2714fbc 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -376,20 +376,13 @@ def ProximalGradient(
 
         # proximal step
         if not backtracking:
-            if eta == 1.0:
-                x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
-            else:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+            x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
         else:
             x, tau = _backtracking(
                 y, tau, proxf, proxg, epsg[iiter], beta=beta, niterback=niterback
             )
-            if eta != 1.0:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+        if eta != 1.0:
+            x = y + eta * (x - y)
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-- 
2.43.0


From 1bc014efd6589b0c22d1e235e337c1738a5012cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 12/62] fix: AndersonProximalGradient starts its histories with
 the matching vectors

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 2714fbc..124703e 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -619,10 +619,10 @@ def AndersonProximalGradient(
     r = g - x0
     R, G = (
         [
-            g,
+            r,
         ],
         [
-            r,
+            g,
         ],
     )
     pf = proxf(x)
-- 
2.43.0


From 7cbf2bbfacadf5c5ec9667336cf48c223c6d3a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 13/62] fix: AndersonProximalGradient safeguard compares with
 the value of the accepted iterate

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 124703e..d399b13 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -671,6 +671,7 @@ def AndersonProximalGradient(
             else:
                 x = proxg.prox(g, epsg[iiter] * tau)
                 y = g
+                pf = proxf(x)
 
         # run callback
         if callback is not None:
-- 
2.43.0


From 6b2fd83f33e2cdfdf8c10111a2aaca44469ef0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 14/62] fix: GeneralizedProximalGradient accepts weights
 summing to one up to rounding

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index d399b13..f3ed256 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -799,7 +799,7 @@ def GeneralizedProximalGradient(
     # check if weights sum to 1
     if weights is None:
         weights = np.ones(len(proxgs)) / len(proxgs)
-    if len(weights) != len(proxgs) or np.sum(weights) != 1.0:
+    if len(weights) != len(proxgs) or not np.isclose(np.sum(weights), 1.0):
         msg = f"omega={weights} must be an array of size {len(proxgs)} summing to 1"
         raise ValueError(msg)
 
-- 
2.43.0


From 651fc95cb6f8fabbb72029c18e30950d3d8dbac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 15/62] fix: ADMML2 with gfirst=True updates the dual variable
 with the new iterate

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index f3ed256..ff5b6ab 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1330,6 +1330,7 @@ def ADMML2(
                 ],
                 **kwargs_solver,
             )[0]
+            Ax = A @ x
         else:
             # solve augumented system
             x = regularized_inversion(
-- 
2.43.0


From 25c50828f845284e56d2867b3febc4655f4b1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 16/62] fix: LinearizedADMM with z0 takes its first step with A
 x0

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index ff5b6ab..43c5043 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1462,7 +1462,7 @@ def LinearizedADMM(
     """
     # initialize variables
     x, z = _x0z0_init(x0, z0, A, Opname="A")
-    Ax = A.matvec(x) if z0 is None else z
+    Ax = A.matvec(x)
     ncp = get_array_module(x)
     u = ncp.zeros_like(z)
 
-- 
2.43.0


From 454b556a36aaa27dd4f6205fdccff1cb1c7929ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 17/62] fix: PPXA starts from the weighted mean of its starting
 points

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 43c5043..1da1252 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1935,7 +1935,7 @@ def PPXA(  # pylint: disable=invalid-name
     else:
         y = ncp.full((m, x0.size), x0)  # y1_0 = y2_0 = ... = ym_0 = x0
 
-    x = ncp.mean(y, axis=0)
+    x = ncp.sum(w[:, None] * y, axis=0)
     x_old = x.copy()
 
     # iterate
-- 
2.43.0


From 5c5b7a7d3eb71b71deecf83078aca4f251384c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 18/62] fix: PPXA and ConsensusADMM accept tol=None

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 1da1252..2ccfee8 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1956,7 +1956,7 @@ def PPXA(  # pylint: disable=invalid-name
                 print(f"{iiter + 1:6d}  {ncp.real(to_numpy(x[0])):12.5e}  {pf:10.3e}")
 
         # break if tolerance condition is met
-        if ncp.abs(x - x_old).max() < tol:
+        if tol is not None and ncp.abs(x - x_old).max() < tol:
             break
 
         x_old = x
@@ -2090,7 +2090,7 @@ def ConsensusADMM(  # pylint: disable=invalid-name
                 )
 
         # break if tolerance condition is met
-        if ncp.abs(x_bar - x_bar_old).max() < tol:
+        if tol is not None and ncp.abs(x_bar - x_bar_old).max() < tol:
             break
 
         x_bar_old = x_bar
-- 
2.43.0


From 3b9fae040f2c7808b2b7879be22b76fda44cb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 19/62] fix: PrimalDual and AdaptivePrimalDual do not add z to
 the dual variable

---
 pyproximal/optimization/primaldual.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index d98491b..f9e3d65 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -180,13 +180,13 @@ def PrimalDual(
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
         else:
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
@@ -360,7 +360,7 @@ def AdaptivePrimalDual(
 
         # proxf
         if z is not None:
-            ATy += z
+            ATy = ATy + z
         x = proxf.prox(x - tau * ATy, tau)
         Ax = A.matvec(x)
         Axhat = 2 * Ax - Axold
-- 
2.43.0


From 5d984651d31069a7299e5762220d0e4fae3d5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 20/62] fix: AdaptivePrimalDual primal residual does not depend
 on z

---
 pyproximal/optimization/primaldual.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f9e3d65..1a43ffa 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -370,12 +370,7 @@ def AdaptivePrimalDual(
         ATy = A.rmatvec(y)
 
         # update steps
-        if z is not None:
-            p = float(
-                np.linalg.norm((xold - x) / tau - (ATyold - ATy) - A.rmatvec(z) + z)
-            )
-        else:
-            p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
+        p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
         d = float(np.linalg.norm((yold - y) / mu - (Axold - Ax)))
 
         if p > s * d * delta:
-- 
2.43.0


From 44544c8edd451f8492b178006f3449a8a6c10042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 21/62] fix: AdaptivePrimalDual extrapolates from A x0 in its
 first iteration

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 1a43ffa..f48ccf8 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -342,7 +342,7 @@ def AdaptivePrimalDual(
     # initialization
     x = x0.copy()
     y = np.zeros(A.shape[0], dtype=x.dtype)
-    Ax = np.zeros(A.shape[0], dtype=x.dtype)
+    Ax = A.matvec(x)
     ATy = np.zeros(A.shape[1], dtype=x.dtype)
     taus = np.zeros(niter + 1)
     mus = np.zeros(niter + 1)
-- 
2.43.0


From 42c0fff26208d5ad59229088bce912eb588acd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 22/62] fix: PALM and iPALM backtrack the second factor with
 its own term and point

---
 pyproximal/optimization/palm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a8bca32..b3ce975 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -188,7 +188,7 @@ def PALM(
                 y = proxg.prox(y, 1.0 / dk)
         else:
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
@@ -373,7 +373,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, z], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 38bed7a375646374946f3b5784da44046a12b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 23/62] fix: iPALM initialises the second step when only it is
 backtracked

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index b3ce975..93a7352 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -339,7 +339,7 @@ def iPALM(
     if gammaf is None:
         tauf = 1.0
         ck = 0.0
-    if gammaf is None:
+    if gammag is None:
         taug = 1.0
         dk = 0.0
 
-- 
2.43.0


From f9075285480ef077920384e14a30bcceca18f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 24/62] fix: PALM and iPALM take the first gradient at the
 given starting factors

---
 pyproximal/optimization/palm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 93a7352..003e9da 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -166,6 +166,8 @@ def PALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         if gammaf is not None:
@@ -344,6 +346,8 @@ def iPALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     xold, yold = x0.copy(), y0.copy()
     for iiter in range(niter):
         # x step
-- 
2.43.0


From 7549d03e4ed1826ea7330daf35240000d3848236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 25/62] fix: TwIST estimates alpha and beta from the
 eigenvalues of A^H A

---
 pyproximal/optimization/primal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 2ccfee8..73c1ba2 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1608,8 +1608,9 @@ def TwIST(
     # find alpha and beta
     if alpha is None or beta is None:
         if eigs is None:
-            emin = A.eigs(neigs=1, which="SM")
-            emax = max([1, A.eigs(neigs=1, which="LM")])
+            AHA = A.H @ A
+            emin = max([0, AHA.eigs(neigs=1, symmetric=True, which="SM")[0]])
+            emax = max([1, AHA.eigs(neigs=1, symmetric=True, which="LM")[0]])
         else:
             emax, emin = eigs
         k = emin / emax
-- 
2.43.0


From c2beed7c6f83474d35657687d4a9b1930b57d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 26/62] fix: backtracking uses the inner product of complex
 vectors

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 73c1ba2..568f952 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -37,7 +37,7 @@ def _backtracking(
     def ftilde(x: NDArray, y: NDArray, f: ProxOperator, tau: float) -> float:
         xy = x - y
         return float(
-            f(y) + np.dot(f.grad(y), xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(y) + np.real(np.vdot(f.grad(y), xy)) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From 08f18e052a0a95b17d05874d4e7c053b146509fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 27/62] fix: ProximalGradient takes the gradient of a bilinear
 operator at the current point

---
 pyproximal/optimization/primal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 568f952..da9541e 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -374,6 +374,10 @@ def ProximalGradient(
     for iiter in range(niter):
         xold = x.copy()
 
+        # evaluate the gradient of a bilinear operator at y
+        if isinstance(proxf, BilinearOperator):
+            proxf.updatexy(y)
+
         # proximal step
         if not backtracking:
             x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
-- 
2.43.0


From 71d06c1d1d73bc1a19462dc8ba8282abe301e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 28/62] fix: ProximalPoint with tol does not fail when the
 objective reaches zero

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index da9541e..6a39526 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -184,7 +184,7 @@ def ProximalPoint(
         # objective does not decrease below tolerance
         if tol is not None:
             pfold = pf
-            pf = prox(x)
+            pf = np.float64(prox(x))
             if np.abs(1.0 - pf / pfold) < tol:
                 tolbreak = True
 
-- 
2.43.0


From 821ef3bcf337d6f7194d174ae7b914d6b672b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 29/62] fix: AndersonProximalGradient stays at a fixed point
 instead of returning NaNs

---
 pyproximal/optimization/primal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 6a39526..478d101 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -651,7 +651,12 @@ def AndersonProximalGradient(
         Rinv = np.linalg.pinv(Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2)
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
-        alpha = Rinvones / (ones[None] @ Rinvones)
+        Rinvsum = ones @ Rinvones
+        if Rinvsum != 0.0:
+            alpha = Rinvones / Rinvsum
+        else:
+            # all residuals are zero (fixed point)
+            alpha = np.eye(len(ones))[0]
 
         if not safeguard:
             # update auxiliary variable
-- 
2.43.0


From b7a8976ba6d3ed5a545b17173d6352fe37c140af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 30/62] fix: an operator can be scaled by an integer, as
 documented by __rmul__

---
 pyproximal/ProxOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index f32d07c..7c01dee 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -303,7 +303,7 @@ class ProxOperator:
 
     def __rmul__(self, sigma: Union[float, int, "ProxOperator"]) -> "ProxOperator":
         if isinstance(sigma, (int, float)):
-            return self.postcomposition(sigma)
+            return self.postcomposition(float(sigma))
         else:
             return self.chain(sigma)
 
-- 
2.43.0


From 387bf0124053b6c75c6d029b58680ddad43b2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 31/62] fix: evaluating Orthogonal does not write into x when Q
 returns its input

---
 pyproximal/proximal/Orthogonal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Orthogonal.py b/pyproximal/proximal/Orthogonal.py
index b284d5c..d770612 100644
--- a/pyproximal/proximal/Orthogonal.py
+++ b/pyproximal/proximal/Orthogonal.py
@@ -76,8 +76,7 @@ class Orthogonal(ProxOperator):
         self.b = b if b is not None else 0.0
 
     def __call__(self, x: NDArray) -> bool | float | int:
-        y = self.Q.matvec(x)
-        y += self.b
+        y = self.Q.matvec(x) + self.b
         f = self.f(y)
         return f
 
-- 
2.43.0


From 3a3d37014f5e1f7e3ce7703fb509c7eae5242b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 32/62] fix: L2Convolve returns real proximal points and
 gradients for real vectors

---
 pyproximal/proximal/L2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index f38f53b..6d6380c 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -364,6 +364,9 @@ class L2Convolve(ProxOperator):
                 else get_normalize_axis_index()(dir, len(dims))
             )
 
+        # real filter and data leave real vectors real
+        self.isreal = not (np.iscomplexobj(h) or np.iscomplexobj(b))
+
         # convert data and filter to Fourier domain
         self.bf = np.fft.fft(b, self.nfft, axis=self.dir)
         self.hf = np.fft.fft(h, self.nfft, axis=0 if h.ndim == 1 else self.dir)
@@ -401,6 +404,8 @@ class L2Convolve(ProxOperator):
         xf = np.fft.fft(x, self.nfft, axis=self.dir)
         yf = (xf + self.sigma * tau * self.hbf) / (1.0 + self.sigma * tau * self.h2f)
         y = np.fft.ifft(yf, axis=self.dir)
+        if self.isreal and not np.iscomplexobj(x):
+            y = y.real
         if self.dims is None:
             y = y[: len(x)]
         else:
@@ -415,6 +420,8 @@ class L2Convolve(ProxOperator):
         g = self.sigma * np.fft.ifft(
             np.conj(self.hf) * (self.hf * xf - self.bf), axis=self.dir
         )
+        if self.isreal and not np.iscomplexobj(x):
+            g = g.real
         g = np.take(g, range(x.shape[self.dir]), axis=self.dir).ravel()
 
         return g
-- 
2.43.0


From 723230ca097a714fda8969f8410f2e17ef2649d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 33/62] fix: a step passed by name is checked instead of
 raising IndexError

---
 pyproximal/ProxOperator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index 7c01dee..8d44c62 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -19,7 +19,8 @@ def _check_tau(func: Callable[..., NDArray]) -> Callable[..., NDArray]:
     """
 
     def wrapper(*args: Any, **kwargs: Any) -> Any:
-        if np.any(args[2] <= 0):
+        tau = kwargs["tau"] if "tau" in kwargs else args[2]
+        if np.any(tau <= 0):
             msg = "tau must be positive"
             raise ValueError(msg)
         return func(*args, **kwargs)
-- 
2.43.0


From 2f406e1cb7083a92e13c95e692816a6660044ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 34/62] fix: a proximal call rejected for its step does not
 advance the call counter

---
 pyproximal/proximal/L0.py        | 6 +++---
 pyproximal/proximal/L1.py        | 2 +-
 pyproximal/proximal/L2.py        | 2 +-
 pyproximal/proximal/RelaxedMS.py | 2 +-
 pyproximal/proximal/TV.py        | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyproximal/proximal/L0.py b/pyproximal/proximal/L0.py
index 95668e8..95051e3 100644
--- a/pyproximal/proximal/L0.py
+++ b/pyproximal/proximal/L0.py
@@ -103,8 +103,8 @@ class L0(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         x = _hardthreshold(x, tau * sigma)
@@ -155,8 +155,8 @@ class L0Ball(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         radius = _current_radius(self.radius, self.count)
         self.ball.radius = radius
@@ -217,8 +217,8 @@ class L10Ball(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
         radius = _current_radius(self.radius, self.count)
diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 33f63ed..fe160fe 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -134,8 +134,8 @@ class L1(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         if self.g is None:
diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 6d6380c..92db1e7 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -211,8 +211,8 @@ class L2(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
         if isinstance(self.niter, int):
diff --git a/pyproximal/proximal/RelaxedMS.py b/pyproximal/proximal/RelaxedMS.py
index a679a52..a583742 100644
--- a/pyproximal/proximal/RelaxedMS.py
+++ b/pyproximal/proximal/RelaxedMS.py
@@ -93,8 +93,8 @@ class RelaxedMumfordShah(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         kappa = _current_sigma(self.kappa, self.count)
diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 2fd6035..8d3ad75 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -83,8 +83,8 @@ class TV(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
         if isinstance(self.niter, int):
-- 
2.43.0


From 2527fdf68a22b6770d16fbb2155d2171ea5c72b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 35/62] fix: L2.prox with a linear term does not write into x

---
 pyproximal/proximal/L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 92db1e7..45f3e88 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -265,7 +265,7 @@ class L2(ProxOperator):
             else:
                 y = x
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
                 x = regularized_inversion(
                     np.sqrt(tau * self.sigma) * self.Op,
                     np.sqrt(tau * self.sigma) * self.b,
@@ -290,7 +290,7 @@ class L2(ProxOperator):
         else:
             num = x
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         return x
 
-- 
2.43.0


From 35ee9b680a0dbc4cb3c030588c6582986ab42e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 36/62] fix: Quadratic.grad without Op returns a new vector, of
 the size of x

---
 pyproximal/proximal/Quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 07ce21d..6631b49 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -133,7 +133,7 @@ class Quadratic(ProxOperator):
         if self.Op is not None and self.b is not None:
             g = self.Op.matvec(x) + self.b
         elif self.b is not None:
-            g = self.b
+            g = self.b.copy()
         else:
-            g = 0.0
+            g = np.zeros_like(x)
         return g
-- 
2.43.0


From 78833b108512eaf1394d59c8ffb80f35488f9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 37/62] fix: Sum does not normalise the caller's weights in
 place

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 3596435..683b030 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -104,7 +104,7 @@ def parallel_dykstra_prox(
     m = len(prox_ops)
     z = ncp.stack([x0.copy() for _ in range(m)])
     w = ncp.asarray(weights, dtype=float)
-    w /= w.sum()
+    w = w / w.sum()
 
     for _ in range(niter):
         x_old = x.copy()
-- 
2.43.0


From c550f52ed7f03323e487338f542fa1f2212c336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 38/62] fix: the parallel Dykstra-like prox weights the terms,
 not the rows, of a matrix

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 683b030..9ccaf24 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -109,7 +109,7 @@ def parallel_dykstra_prox(
     for _ in range(niter):
         x_old = x.copy()
         prox_z = ncp.stack([prox_ops[i](z[i], taus[i]) for i in range(m)])
-        x = ncp.sum(w[:, None] * prox_z, axis=0)
+        x = ncp.tensordot(w, prox_z, axes=1)
         z = z + x - prox_z
 
         if ncp.abs(x - x_old).max() < tol:
-- 
2.43.0


From b4a91352615ce924a955bd3a9c1d5af0b47582a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 39/62] fix: the parallel Dykstra-like prox does not stop while
 its terms disagree

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 9ccaf24..7ab931a 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -112,7 +112,7 @@ def parallel_dykstra_prox(
         x = ncp.tensordot(w, prox_z, axes=1)
         z = z + x - prox_z
 
-        if ncp.abs(x - x_old).max() < tol:
+        if max(ncp.abs(x - x_old).max(), ncp.abs(prox_z - x).max()) < tol:
             break
 
     return x
-- 
2.43.0


From e45d5a2390ba92e829c4643742d8886d3cc53df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 40/62] fix: warm starts do not share memory with the result
 handed to the caller

---
 pyproximal/proximal/L2.py        | 2 +-
 pyproximal/proximal/Nonlinear.py | 2 +-
 pyproximal/proximal/Quadratic.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 45f3e88..c52c791 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -281,7 +281,7 @@ class L2(ProxOperator):
                     **self.kwargs_solver,
                 )[0].ravel()
             if self.warm:
-                self.x0 = x
+                self.x0 = x.copy()
         elif self.b is not None:
             num = x + tau * self.sigma * self.b
             if self.q is not None:
diff --git a/pyproximal/proximal/Nonlinear.py b/pyproximal/proximal/Nonlinear.py
index 291a51c..9a240b0 100644
--- a/pyproximal/proximal/Nonlinear.py
+++ b/pyproximal/proximal/Nonlinear.py
@@ -100,5 +100,5 @@ class Nonlinear(ABC, ProxOperator):
         self.tau = tau
         x = self.optimize()
         if self.warm:
-            self.x0 = x
+            self.x0 = x.copy()
         return x
diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 6631b49..14af883 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -111,7 +111,7 @@ class Quadratic(ProxOperator):
                 Op1 = Identity(self.Op.shape[0], dtype=self.Op.dtype) + tau * self.Op
                 x = lsqr(Op1, y, iter_lim=self.niter, x0=self.x0)[0]
             if self.warm:
-                self.x0 = x
+                self.x0 = x.copy()
         elif self.b is not None:
             x = x - tau * self.b
         return x
-- 
2.43.0


From d9eb463bf2b88a5ec0c2097b8ce7ecf478778c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 41/62] fix: TV accepts dims=None, as documented

---
 pyproximal/proximal/TV.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 8d3ad75..ba501ad 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -48,7 +48,7 @@ class TV(ProxOperator):
         **kwargs: Any,
     ) -> None:
         super().__init__(None, True)
-        self.dims = (0,) if dims is None else dims
+        self.dims = (-1,) if dims is None else dims
         self.ndim = 1 if dims is None else len(dims)
         self.sigma = sigma
         self.niter = niter
@@ -60,7 +60,7 @@ class TV(ProxOperator):
         x = x.reshape(self.dims)
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
             dx = derivOp @ x
             y = np.sum(np.abs(dx), axis=0)
@@ -101,7 +101,7 @@ class TV(ProxOperator):
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
         else:
             gradOp = Gradient(x.shape, edge=False, dtype=x.dtype, kind="forward")
-- 
2.43.0


From 28f2c5913bead15cd82983cedc256dec3fa52527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 42/62] fix: Nuclear evaluates complex matrices and weights of
 wide matrices

---
 pyproximal/proximal/Nuclear.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/Nuclear.py b/pyproximal/proximal/Nuclear.py
index 149c5c0..3fcade9 100644
--- a/pyproximal/proximal/Nuclear.py
+++ b/pyproximal/proximal/Nuclear.py
@@ -62,9 +62,13 @@ class Nuclear(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(np.flip(self.sigma) * np.sqrt(eigs)))
+        S = np.linalg.svd(X, compute_uv=False)
+        sigma = (
+            self.sigma[: S.size]
+            if isinstance(self.sigma, np.ndarray) and self.sigma.size > 1
+            else self.sigma
+        )
+        return float(np.sum(sigma * S))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-- 
2.43.0


From 1d01d8032c55127a717445f49a62fb535ca99976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 43/62] fix: SR3's inner LSQR stops at an exact solution
 instead of dividing by zero

---
 pyproximal/optimization/sr3.py | 416 +++++++++++++++++----------------
 1 file changed, 212 insertions(+), 204 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 10f3381..9e68af7 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -1,204 +1,212 @@
-from typing import TYPE_CHECKING
-
-import numpy as np
-import pylops
-from pylops.utils.typing import NDArray
-from scipy.sparse.linalg import lsqr as sp_lsqr
-
-if TYPE_CHECKING:
-    from pylops.linearoperator import LinearOperator
-
-
-def _lsqr(
-    Op: "LinearOperator",
-    data: NDArray,
-    iter_lim: int,
-    z_old: NDArray,
-    x0: NDArray,
-    kappa: float,
-    eps: float,
-    Reg: "LinearOperator",
-) -> NDArray:
-    r"""LSQR
-
-    This function uses LSQR to solve the inner iteration of SR3, given by
-
-    .. math::
-        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
-        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
-
-    LSQR is stopped when the maximum amount of iterations are reached or when
-    the stopping criterion is satisfied. There are no other stopping criteria,
-    hence the solver should not be used outside of the context of solving the
-    inner iteration of SR3.
-
-    Parameters
-    ----------
-    Op: :obj:`pylops.LinearOperator`
-        Forward operator. This is the stacked operator
-        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
-    data: :obj:`numpy.ndarray`
-        Data
-    iter_lim: :obj:`int`
-        Maximum number of iterations
-    z_old: :obj:`numpy.ndarray`
-        The previous outer iteration
-    x0: :obj:`numpy.ndarray`
-       initial guess
-    kappa: :obj:`float`
-        The regularization parameter for the inner iteration
-    eps: :obj:`float`
-        The regularization parameter for the outer iteration
-    Reg: :obj:`numpy.ndarray`
-        The regularization operator L
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution
-
-    """
-    data -= Op.matvec(x0)
-    x = x0
-    beta = np.linalg.norm(data)
-    u = data / beta
-    v = Op.rmatvec(u)
-    alpha = np.linalg.norm(v)
-    v = v / alpha
-    w = v
-    phi_bar = beta
-    rho_bar = alpha
-    for _ in range(iter_lim):
-        u = Op.matvec(v) - alpha * u
-        beta = np.linalg.norm(u)
-        u = u / beta
-        v = Op.rmatvec(u) - beta * v
-        alpha = np.linalg.norm(v)
-        v = v / alpha
-        rho = np.sqrt(rho_bar**2 + beta**2)
-        c = rho_bar / rho
-        s = beta / rho
-        theta = s * alpha
-        rho_bar = -c * alpha
-        phi = c * phi_bar
-        phi_bar = s * phi_bar
-        x += (phi / rho) * w
-        temp = Reg.matvec(x)
-        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
-        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-            return x
-        w = v - (theta / rho) * w
-        z_old = z
-    return x
-
-
-def SR3(
-    Op: "LinearOperator",
-    Reg: "LinearOperator",
-    data: NDArray,
-    kappa: float,
-    eps: float,
-    x0: NDArray | None = None,
-    adaptive: bool = True,
-    iter_lim_outer: int = 100,
-    iter_lim_inner: int = 100,
-) -> NDArray:
-    r"""Sparse Relaxed Regularized Regression
-
-    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
-    an inverse problem with a sparsity constraint of the form
-
-    .. math::
-
-        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
-        \lambda\Vert \mathbf{Lx}\Vert_1
-
-    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
-    and instead solves
-
-    .. math::
-
-        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
-        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
-        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
-
-    Parameters
-    ----------
-    Op : :obj:`pylops.LinearOperator`
-        Forward operator
-    Reg : :obj:`numpy.ndarray`
-        Regularization operator
-    data : :obj:`numpy.ndarray`
-        Data
-    kappa : :obj:`float`
-        Parameter controlling the difference between :math:`\mathbf{z}`
-        and :math:`\mathbf{Lx}`
-    eps : :obj:`float`
-        Regularization parameter
-    x0 : :obj:`numpy.ndarray`, optional
-        Initial guess
-    adaptive : :obj:`bool`, optional
-        Use adaptive SR3 with a stopping criterion for the inner iterations
-        or not
-    iter_lim_outer : :obj:`int`, optional
-        Maximum number of iterations for the outer iteration
-    iter_lim_inner : :obj:`int`, optional
-        Maximum number of iterations for the inner iteration
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution.
-
-    Notes
-    -----
-    SR3 uses the following algorithm:
-
-        .. math::
-            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
-            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
-            \kappa \mathbf{L}^T\mathbf{y}_k) \\
-            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
-            (\mathbf{Lx}_{k+1})
-
-    """
-    (m, n) = Op.shape
-    if x0 is None:
-        x0 = np.zeros(n)
-    x = x0.copy()
-    p = Reg.shape[0]
-    v = np.zeros(p)
-    w = v
-    eta = 1 / kappa
-    theta = 1
-    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
-    for _ in range(iter_lim_outer):
-        # Compute the inner iteration
-        if adaptive:
-            x = _lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim_inner,
-                v,
-                x,
-                kappa,
-                eps,
-                Reg,
-            )
-        else:
-            x = sp_lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim=iter_lim_inner,
-                x0=x,
-            )[0]
-        # Compute the outer iteration
-        w_old = w
-        temp = Reg.matvec(x)
-        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
-        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
-        if err1 < 1e-6:
-            return x
-        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
-        v = w + (1 - theta) * (w - w_old)
-    return x
+from typing import TYPE_CHECKING
+
+import numpy as np
+import pylops
+from pylops.utils.typing import NDArray
+from scipy.sparse.linalg import lsqr as sp_lsqr
+
+if TYPE_CHECKING:
+    from pylops.linearoperator import LinearOperator
+
+
+def _lsqr(
+    Op: "LinearOperator",
+    data: NDArray,
+    iter_lim: int,
+    z_old: NDArray,
+    x0: NDArray,
+    kappa: float,
+    eps: float,
+    Reg: "LinearOperator",
+) -> NDArray:
+    r"""LSQR
+
+    This function uses LSQR to solve the inner iteration of SR3, given by
+
+    .. math::
+        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
+        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
+
+    LSQR is stopped when the maximum amount of iterations are reached or when
+    the stopping criterion is satisfied. There are no other stopping criteria,
+    hence the solver should not be used outside of the context of solving the
+    inner iteration of SR3.
+
+    Parameters
+    ----------
+    Op: :obj:`pylops.LinearOperator`
+        Forward operator. This is the stacked operator
+        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
+    data: :obj:`numpy.ndarray`
+        Data
+    iter_lim: :obj:`int`
+        Maximum number of iterations
+    z_old: :obj:`numpy.ndarray`
+        The previous outer iteration
+    x0: :obj:`numpy.ndarray`
+       initial guess
+    kappa: :obj:`float`
+        The regularization parameter for the inner iteration
+    eps: :obj:`float`
+        The regularization parameter for the outer iteration
+    Reg: :obj:`numpy.ndarray`
+        The regularization operator L
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution
+
+    """
+    data -= Op.matvec(x0)
+    x = x0
+    beta = np.linalg.norm(data)
+    if beta == 0.0:
+        return x
+    u = data / beta
+    v = Op.rmatvec(u)
+    alpha = np.linalg.norm(v)
+    if alpha == 0.0:
+        return x
+    v = v / alpha
+    w = v
+    phi_bar = beta
+    rho_bar = alpha
+    for _ in range(iter_lim):
+        u = Op.matvec(v) - alpha * u
+        beta = np.linalg.norm(u)
+        if beta > 0.0:
+            u = u / beta
+            v = Op.rmatvec(u) - beta * v
+            alpha = np.linalg.norm(v)
+            if alpha > 0.0:
+                v = v / alpha
+        rho = np.sqrt(rho_bar**2 + beta**2)
+        c = rho_bar / rho
+        s = beta / rho
+        theta = s * alpha
+        rho_bar = -c * alpha
+        phi = c * phi_bar
+        phi_bar = s * phi_bar
+        x += (phi / rho) * w
+        temp = Reg.matvec(x)
+        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
+        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
+            return x
+        if beta == 0.0 or alpha == 0.0:
+            return x
+        w = v - (theta / rho) * w
+        z_old = z
+    return x
+
+
+def SR3(
+    Op: "LinearOperator",
+    Reg: "LinearOperator",
+    data: NDArray,
+    kappa: float,
+    eps: float,
+    x0: NDArray | None = None,
+    adaptive: bool = True,
+    iter_lim_outer: int = 100,
+    iter_lim_inner: int = 100,
+) -> NDArray:
+    r"""Sparse Relaxed Regularized Regression
+
+    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
+    an inverse problem with a sparsity constraint of the form
+
+    .. math::
+
+        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
+        \lambda\Vert \mathbf{Lx}\Vert_1
+
+    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
+    and instead solves
+
+    .. math::
+
+        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
+        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
+        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
+
+    Parameters
+    ----------
+    Op : :obj:`pylops.LinearOperator`
+        Forward operator
+    Reg : :obj:`numpy.ndarray`
+        Regularization operator
+    data : :obj:`numpy.ndarray`
+        Data
+    kappa : :obj:`float`
+        Parameter controlling the difference between :math:`\mathbf{z}`
+        and :math:`\mathbf{Lx}`
+    eps : :obj:`float`
+        Regularization parameter
+    x0 : :obj:`numpy.ndarray`, optional
+        Initial guess
+    adaptive : :obj:`bool`, optional
+        Use adaptive SR3 with a stopping criterion for the inner iterations
+        or not
+    iter_lim_outer : :obj:`int`, optional
+        Maximum number of iterations for the outer iteration
+    iter_lim_inner : :obj:`int`, optional
+        Maximum number of iterations for the inner iteration
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution.
+
+    Notes
+    -----
+    SR3 uses the following algorithm:
+
+        .. math::
+            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
+            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
+            \kappa \mathbf{L}^T\mathbf{y}_k) \\
+            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
+            (\mathbf{Lx}_{k+1})
+
+    """
+    (m, n) = Op.shape
+    if x0 is None:
+        x0 = np.zeros(n)
+    x = x0.copy()
+    p = Reg.shape[0]
+    v = np.zeros(p)
+    w = v
+    eta = 1 / kappa
+    theta = 1
+    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
+    for _ in range(iter_lim_outer):
+        # Compute the inner iteration
+        if adaptive:
+            x = _lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim_inner,
+                v,
+                x,
+                kappa,
+                eps,
+                Reg,
+            )
+        else:
+            x = sp_lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim=iter_lim_inner,
+                x0=x,
+            )[0]
+        # Compute the outer iteration
+        w_old = w
+        temp = Reg.matvec(x)
+        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
+        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
+        if err1 < 1e-6:
+            return x
+        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
+        v = w + (1 - theta) * (w - w_old)
+    return x
-- 
2.43.0


From 4a1b6697bd215685c57d0e1b5c03f85a4bcdcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 44/62] fix: gradtest_proximal perturbs the real part of real
 vectors

---
 pyproximal/utils/gradtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 96ec9c7..1534560 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -93,7 +93,7 @@ def gradtest_proximal(
 
     # choose location of perturbation, whether to act on x or y and on real or imag part
     iqx = np.random.randint(0, n)
-    r_or_i = np.random.randint(0, 2)
+    r_or_i = np.random.randint(0, 2) if ncp.iscomplexobj(x) else 0
 
     delta1: float | complex = delta
     if r_or_i != 0:
-- 
2.43.0


From bd94af6f99c07189b6ed61e5e8033bd958e7f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 45/62] fix: the gradient tests do not perturb the caller's
 vector or the operator's factors

---
 pyproximal/utils/gradtest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 1534560..fc93966 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -100,6 +100,7 @@ def gradtest_proximal(
         delta1 = delta * 1j
 
     # extract gradient value to test
+    x = x.copy()
     x[iqx] = x[iqx] + delta1
     grad = g[iqx]
 
@@ -202,7 +203,7 @@ def gradtest_bilinear(
     ny = Op.sizey
 
     # extract x and y from Op
-    x, y = Op.x.ravel(), Op.y.ravel()
+    x, y = Op.x.flatten(), Op.y.flatten()
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From d7af91aaf2b52e15deba0b724d53861bb5ac43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 46/62] fix: Sum refuses an empty list of operators with its
 ValueError

---
 pyproximal/proximal/Sum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyproximal/proximal/Sum.py b/pyproximal/proximal/Sum.py
index b386050..b46e968 100644
--- a/pyproximal/proximal/Sum.py
+++ b/pyproximal/proximal/Sum.py
@@ -124,11 +124,6 @@ class Sum(ProxOperator):
         self.tol = tol
         self.use_original_tau = use_original_tau
 
-        if weights is None:
-            self.w = [1.0 / len(self.ops)] * len(self.ops)
-        else:
-            self.w = weights
-
         self._prox = _select_impl_by_arity(
             ops,
             use_parallel=use_parallel,
@@ -137,6 +132,11 @@ class Sum(ProxOperator):
             more=self._more_prox,
         )
 
+        if weights is None:
+            self.w = [1.0 / len(self.ops)] * len(self.ops)
+        else:
+            self.w = weights
+
     def __call__(self, x: NDArray) -> bool | float:
         """Evaluate proximable functions
 
-- 
2.43.0


From 0b131d279fe00b843a051744e3dccfffc19e217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 47/62] fix: IntersectionProj does not stop while its
 corrections still change

---
 pyproximal/projection/Intersection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index 86202d9..bc8d7f6 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -55,7 +55,7 @@ class IntersectionProj:
         x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
-            xold = x.copy()
+            xold, x12old = x.copy(), x12.copy()
             for i1 in range(self.k - 1):
                 for i2 in range(i1 + 1, self.k):
                     xtilde = x[i2] - x[i1] + x12[i1, i2]
@@ -68,6 +68,10 @@ class IntersectionProj:
                     x[i1] = x[i1] + 0.5 * (xdtilde - x12[i1, i2])
                     x[i2] = x[i2] - 0.5 * (xdtilde - x12[i1, i2])
                     x12[i1, i2] = xdtilde
-            if max(np.sum(np.abs(x - xold), axis=0)) < self.tol:
+            # x may stand still over a cycle whilst its corrections still change
+            if (
+                max(np.sum(np.abs(x - xold), axis=0)) < self.tol
+                and np.abs(x12 - x12old).max() < self.tol
+            ):
                 break
         return x.ravel()
-- 
2.43.0


From b65539831f83a031a7564dccfa69c47ae75e7b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 48/62] fix: the gradient tests honour their relative tolerance

---
 pyproximal/utils/gradtest.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index fc93966..d1f9c91 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -109,8 +109,8 @@ def gradtest_proximal(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (grad.real if r_or_i == 0 else grad.imag)
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    grad_part = grad.real if r_or_i == 0 else grad.imag
+    passed = bool(ncp.isclose(grad_delta, grad_part, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
@@ -237,10 +237,8 @@ def gradtest_bilinear(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (
-        grad.real if not complexflag or r_or_i == 0 else grad.imag
-    )
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    grad_part = grad.real if r_or_i == 0 else grad.imag
+    passed = bool(ncp.isclose(grad_delta, grad_part, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
-- 
2.43.0


From 6a0282295b73500ca91d8b3191b64b1275bcfb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 49/62] fix: L21 and L21_plus_L1 use magnitudes, so complex
 vectors are handled

---
 pyproximal/proximal/L21.py         | 6 +++---
 pyproximal/proximal/L21_plus_L1.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyproximal/proximal/L21.py b/pyproximal/proximal/L21.py
index bf59462..5cf2f17 100644
--- a/pyproximal/proximal/L21.py
+++ b/pyproximal/proximal/L21.py
@@ -65,13 +65,13 @@ class L21(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        f = self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+        f = self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         return float(f)
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = (1 - (tau * self.sigma) / np.maximum(aux, tau * self.sigma)) * x.ravel()
         return x
@@ -79,7 +79,7 @@ class L21(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)
         return x
diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 7978d40..f5cde1b 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -38,7 +38,7 @@ class L21_plus_L1(ProxOperator):
     def __call__(self, x: NDArray) -> float:
         return float(
             self.rho * self.sigma * np.sum(np.abs(x))
-            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         )
 
     @_check_tau
-- 
2.43.0


From 5d2ca009c135cd83e352ff97db9fb8dcc3c23ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 50/62] fix: ETP.prox compares magnitudes, so complex vectors
 are handled

---
 pyproximal/proximal/ETP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/ETP.py b/pyproximal/proximal/ETP.py
index 8643114..50bb128 100644
--- a/pyproximal/proximal/ETP.py
+++ b/pyproximal/proximal/ETP.py
@@ -83,8 +83,9 @@ class ETP(ProxOperator):
 
         # Check which stationary points are global minima
         idx_minima = (
-            tau * self.elementwise(stat_points) + (stat_points - x[idx]) ** 2 / 2
-            < x[idx] ** 2 / 2
+            tau * self.elementwise(stat_points)
+            + np.abs(stat_points - x[idx]) ** 2 / 2
+            < np.abs(x[idx]) ** 2 / 2
         )
         idx[idx] = idx_minima
         out[idx] = stat_points[idx_minima]
-- 
2.43.0


From fbb0eb6ba66f65b8fe9f756bb99f0d40d857f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 51/62] fix: SCAD evaluates magnitudes, so complex vectors are
 handled

---
 pyproximal/proximal/SCAD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index 9e7ef77..19e2b0f 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -64,13 +64,13 @@ class SCAD(ProxOperator):
         return float(np.sum(self.elementwise(x)))
 
     def elementwise(self, x: NDArray) -> NDArray:
-        f = np.zeros_like(x)
         absx = np.abs(x)
+        f = np.zeros_like(absx)
         ind = absx <= self.sigma
         f[ind] = self.sigma * absx[ind]
         ind = np.logical_and(self.sigma < absx, absx <= self.a * self.sigma)
         f[ind] = (
-            -(x[ind] ** 2) + 2 * self.a * self.sigma * absx[ind] - self.sigma**2
+            -(absx[ind] ** 2) + 2 * self.a * self.sigma * absx[ind] - self.sigma**2
         ) / (2 * (self.a - 1))
         ind = absx > self.a * self.sigma
         f[ind] = (self.a + 1) * self.sigma**2 / 2
-- 
2.43.0


From 35cf70284ff05f7dd3a60485d4a798b881dcd3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 52/62] fix: SingularValuePenalty evaluates complex matrices

---
 pyproximal/proximal/SingularValuePenalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/SingularValuePenalty.py b/pyproximal/proximal/SingularValuePenalty.py
index 9019327..837cb54 100644
--- a/pyproximal/proximal/SingularValuePenalty.py
+++ b/pyproximal/proximal/SingularValuePenalty.py
@@ -47,7 +47,7 @@ class SingularValuePenalty(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
+        eigs = np.linalg.eigvalsh(np.conj(X.T) @ X)
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
         return float(np.sum(self.penalty(np.sqrt(eigs))))
 
-- 
2.43.0


From 516c8fff7fa5ea12939c79676c010cea65765f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 53/62] fix: sr3.py keeps its line endings

---
 pyproximal/optimization/sr3.py | 424 ++++++++++++++++-----------------
 1 file changed, 212 insertions(+), 212 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 9e68af7..98c1a78 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -1,212 +1,212 @@
-from typing import TYPE_CHECKING
-
-import numpy as np
-import pylops
-from pylops.utils.typing import NDArray
-from scipy.sparse.linalg import lsqr as sp_lsqr
-
-if TYPE_CHECKING:
-    from pylops.linearoperator import LinearOperator
-
-
-def _lsqr(
-    Op: "LinearOperator",
-    data: NDArray,
-    iter_lim: int,
-    z_old: NDArray,
-    x0: NDArray,
-    kappa: float,
-    eps: float,
-    Reg: "LinearOperator",
-) -> NDArray:
-    r"""LSQR
-
-    This function uses LSQR to solve the inner iteration of SR3, given by
-
-    .. math::
-        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
-        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
-
-    LSQR is stopped when the maximum amount of iterations are reached or when
-    the stopping criterion is satisfied. There are no other stopping criteria,
-    hence the solver should not be used outside of the context of solving the
-    inner iteration of SR3.
-
-    Parameters
-    ----------
-    Op: :obj:`pylops.LinearOperator`
-        Forward operator. This is the stacked operator
-        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
-    data: :obj:`numpy.ndarray`
-        Data
-    iter_lim: :obj:`int`
-        Maximum number of iterations
-    z_old: :obj:`numpy.ndarray`
-        The previous outer iteration
-    x0: :obj:`numpy.ndarray`
-       initial guess
-    kappa: :obj:`float`
-        The regularization parameter for the inner iteration
-    eps: :obj:`float`
-        The regularization parameter for the outer iteration
-    Reg: :obj:`numpy.ndarray`
-        The regularization operator L
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution
-
-    """
-    data -= Op.matvec(x0)
-    x = x0
-    beta = np.linalg.norm(data)
-    if beta == 0.0:
-        return x
-    u = data / beta
-    v = Op.rmatvec(u)
-    alpha = np.linalg.norm(v)
-    if alpha == 0.0:
-        return x
-    v = v / alpha
-    w = v
-    phi_bar = beta
-    rho_bar = alpha
-    for _ in range(iter_lim):
-        u = Op.matvec(v) - alpha * u
-        beta = np.linalg.norm(u)
-        if beta > 0.0:
-            u = u / beta
-            v = Op.rmatvec(u) - beta * v
-            alpha = np.linalg.norm(v)
-            if alpha > 0.0:
-                v = v / alpha
-        rho = np.sqrt(rho_bar**2 + beta**2)
-        c = rho_bar / rho
-        s = beta / rho
-        theta = s * alpha
-        rho_bar = -c * alpha
-        phi = c * phi_bar
-        phi_bar = s * phi_bar
-        x += (phi / rho) * w
-        temp = Reg.matvec(x)
-        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
-        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-            return x
-        if beta == 0.0 or alpha == 0.0:
-            return x
-        w = v - (theta / rho) * w
-        z_old = z
-    return x
-
-
-def SR3(
-    Op: "LinearOperator",
-    Reg: "LinearOperator",
-    data: NDArray,
-    kappa: float,
-    eps: float,
-    x0: NDArray | None = None,
-    adaptive: bool = True,
-    iter_lim_outer: int = 100,
-    iter_lim_inner: int = 100,
-) -> NDArray:
-    r"""Sparse Relaxed Regularized Regression
-
-    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
-    an inverse problem with a sparsity constraint of the form
-
-    .. math::
-
-        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
-        \lambda\Vert \mathbf{Lx}\Vert_1
-
-    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
-    and instead solves
-
-    .. math::
-
-        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
-        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
-        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
-
-    Parameters
-    ----------
-    Op : :obj:`pylops.LinearOperator`
-        Forward operator
-    Reg : :obj:`numpy.ndarray`
-        Regularization operator
-    data : :obj:`numpy.ndarray`
-        Data
-    kappa : :obj:`float`
-        Parameter controlling the difference between :math:`\mathbf{z}`
-        and :math:`\mathbf{Lx}`
-    eps : :obj:`float`
-        Regularization parameter
-    x0 : :obj:`numpy.ndarray`, optional
-        Initial guess
-    adaptive : :obj:`bool`, optional
-        Use adaptive SR3 with a stopping criterion for the inner iterations
-        or not
-    iter_lim_outer : :obj:`int`, optional
-        Maximum number of iterations for the outer iteration
-    iter_lim_inner : :obj:`int`, optional
-        Maximum number of iterations for the inner iteration
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution.
-
-    Notes
-    -----
-    SR3 uses the following algorithm:
-
-        .. math::
-            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
-            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
-            \kappa \mathbf{L}^T\mathbf{y}_k) \\
-            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
-            (\mathbf{Lx}_{k+1})
-
-    """
-    (m, n) = Op.shape
-    if x0 is None:
-        x0 = np.zeros(n)
-    x = x0.copy()
-    p = Reg.shape[0]
-    v = np.zeros(p)
-    w = v
-    eta = 1 / kappa
-    theta = 1
-    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
-    for _ in range(iter_lim_outer):
-        # Compute the inner iteration
-        if adaptive:
-            x = _lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim_inner,
-                v,
-                x,
-                kappa,
-                eps,
-                Reg,
-            )
-        else:
-            x = sp_lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim=iter_lim_inner,
-                x0=x,
-            )[0]
-        # Compute the outer iteration
-        w_old = w
-        temp = Reg.matvec(x)
-        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
-        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
-        if err1 < 1e-6:
-            return x
-        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
-        v = w + (1 - theta) * (w - w_old)
-    return x
+from typing import TYPE_CHECKING
+
+import numpy as np
+import pylops
+from pylops.utils.typing import NDArray
+from scipy.sparse.linalg import lsqr as sp_lsqr
+
+if TYPE_CHECKING:
+    from pylops.linearoperator import LinearOperator
+
+
+def _lsqr(
+    Op: "LinearOperator",
+    data: NDArray,
+    iter_lim: int,
+    z_old: NDArray,
+    x0: NDArray,
+    kappa: float,
+    eps: float,
+    Reg: "LinearOperator",
+) -> NDArray:
+    r"""LSQR
+
+    This function uses LSQR to solve the inner iteration of SR3, given by
+
+    .. math::
+        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
+        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
+
+    LSQR is stopped when the maximum amount of iterations are reached or when
+    the stopping criterion is satisfied. There are no other stopping criteria,
+    hence the solver should not be used outside of the context of solving the
+    inner iteration of SR3.
+
+    Parameters
+    ----------
+    Op: :obj:`pylops.LinearOperator`
+        Forward operator. This is the stacked operator
+        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
+    data: :obj:`numpy.ndarray`
+        Data
+    iter_lim: :obj:`int`
+        Maximum number of iterations
+    z_old: :obj:`numpy.ndarray`
+        The previous outer iteration
+    x0: :obj:`numpy.ndarray`
+       initial guess
+    kappa: :obj:`float`
+        The regularization parameter for the inner iteration
+    eps: :obj:`float`
+        The regularization parameter for the outer iteration
+    Reg: :obj:`numpy.ndarray`
+        The regularization operator L
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution
+
+    """
+    data -= Op.matvec(x0)
+    x = x0
+    beta = np.linalg.norm(data)
+    if beta == 0.0:
+        return x
+    u = data / beta
+    v = Op.rmatvec(u)
+    alpha = np.linalg.norm(v)
+    if alpha == 0.0:
+        return x
+    v = v / alpha
+    w = v
+    phi_bar = beta
+    rho_bar = alpha
+    for _ in range(iter_lim):
+        u = Op.matvec(v) - alpha * u
+        beta = np.linalg.norm(u)
+        if beta > 0.0:
+            u = u / beta
+            v = Op.rmatvec(u) - beta * v
+            alpha = np.linalg.norm(v)
+            if alpha > 0.0:
+                v = v / alpha
+        rho = np.sqrt(rho_bar**2 + beta**2)
+        c = rho_bar / rho
+        s = beta / rho
+        theta = s * alpha
+        rho_bar = -c * alpha
+        phi = c * phi_bar
+        phi_bar = s * phi_bar
+        x += (phi / rho) * w
+        temp = Reg.matvec(x)
+        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
+        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
+            return x
+        if beta == 0.0 or alpha == 0.0:
+            return x
+        w = v - (theta / rho) * w
+        z_old = z
+    return x
+
+
+def SR3(
+    Op: "LinearOperator",
+    Reg: "LinearOperator",
+    data: NDArray,
+    kappa: float,
+    eps: float,
+    x0: NDArray | None = None,
+    adaptive: bool = True,
+    iter_lim_outer: int = 100,
+    iter_lim_inner: int = 100,
+) -> NDArray:
+    r"""Sparse Relaxed Regularized Regression
+
+    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
+    an inverse problem with a sparsity constraint of the form
+
+    .. math::
+
+        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
+        \lambda\Vert \mathbf{Lx}\Vert_1
+
+    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
+    and instead solves
+
+    .. math::
+
+        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
+        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
+        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
+
+    Parameters
+    ----------
+    Op : :obj:`pylops.LinearOperator`
+        Forward operator
+    Reg : :obj:`numpy.ndarray`
+        Regularization operator
+    data : :obj:`numpy.ndarray`
+        Data
+    kappa : :obj:`float`
+        Parameter controlling the difference between :math:`\mathbf{z}`
+        and :math:`\mathbf{Lx}`
+    eps : :obj:`float`
+        Regularization parameter
+    x0 : :obj:`numpy.ndarray`, optional
+        Initial guess
+    adaptive : :obj:`bool`, optional
+        Use adaptive SR3 with a stopping criterion for the inner iterations
+        or not
+    iter_lim_outer : :obj:`int`, optional
+        Maximum number of iterations for the outer iteration
+    iter_lim_inner : :obj:`int`, optional
+        Maximum number of iterations for the inner iteration
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution.
+
+    Notes
+    -----
+    SR3 uses the following algorithm:
+
+        .. math::
+            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
+            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
+            \kappa \mathbf{L}^T\mathbf{y}_k) \\
+            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
+            (\mathbf{Lx}_{k+1})
+
+    """
+    (m, n) = Op.shape
+    if x0 is None:
+        x0 = np.zeros(n)
+    x = x0.copy()
+    p = Reg.shape[0]
+    v = np.zeros(p)
+    w = v
+    eta = 1 / kappa
+    theta = 1
+    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
+    for _ in range(iter_lim_outer):
+        # Compute the inner iteration
+        if adaptive:
+            x = _lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim_inner,
+                v,
+                x,
+                kappa,
+                eps,
+                Reg,
+            )
+        else:
+            x = sp_lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim=iter_lim_inner,
+                x0=x,
+            )[0]
+        # Compute the outer iteration
+        w_old = w
+        temp = Reg.matvec(x)
+        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
+        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
+        if err1 < 1e-6:
+            return x
+        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
+        v = w + (1 - theta) * (w - w_old)
+    return x
-- 
2.43.0


From 1146be5389d50214eff75e3d6076e07d830d2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 54/62] fix: Geman.prox set large entries to zero (cancellation
 in the cubic's discriminant)

---
 pyproximal/proximal/Geman.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 371591d..67c3499 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -65,10 +65,7 @@ class Geman(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         out = np.zeros_like(x)
-        b = 2 * self.gamma - np.abs(x)
-        c = self.gamma**2 - 2 * self.gamma * np.abs(x)
-        d = self.gamma * self.sigma * tau - self.gamma**2 * np.abs(x)
-        idx, loc_mins = self._find_local_minima(b, c, d)
+        idx, loc_mins = self._find_local_minima(np.abs(x), tau)
         global_min_idx = (
             tau * self.elementwise(loc_mins) + (loc_mins - np.abs(x[idx])) ** 2 / 2
             < np.abs(x[idx]) ** 2 / 2
@@ -77,14 +74,13 @@ class Geman(ProxOperator):
         out[idx] = np.sign(x[idx]) * loc_mins[global_min_idx]
         return out
 
-    @staticmethod
-    def _find_local_minima(
-        b: NDArray, c: NDArray, d: NDArray
-    ) -> tuple[NDArray, NDArray]:
-        f = -((c - b**2.0 / 3.0) ** 3.0) / 27.0
-        g = (2.0 * b**3.0 - 9.0 * b * c + 27.0 * d) / 27.0
-        idx = g**2.0 / 4.0 - f <= 0
-        sqrtf = np.sqrt(f[idx])
-        k = np.arccos(-(g[idx] / (2 * sqrtf)))
-        loc_mins = 2 * sqrtf ** (1 / 3.0) * np.cos(k / 3.0) - b[idx] / 3.0
+    def _find_local_minima(self, absx: NDArray, tau: float) -> tuple[NDArray, NDArray]:
+        # with u = z + gamma and y = |x| + gamma the stationary points are the
+        # roots of u^3 - y u^2 + tau * sigma * gamma, and the local minimum (if
+        # any) is the largest one, found here for v = u / y
+        y = absx + self.gamma
+        q = tau * self.sigma * self.gamma / y**3
+        idx = q <= 4.0 / 27.0
+        k = np.arccos(np.maximum(1.0 - 13.5 * q[idx], -1.0))
+        loc_mins = y[idx] * (1.0 + 2.0 * np.cos(k / 3.0)) / 3.0 - self.gamma
         return idx, loc_mins
-- 
2.43.0


From f4a62bc1b6f1de046863c108fd5c8ed8609bbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 55/62] fix: ProximalGradient and AndersonProximalGradient with
 vector tau failed when show=True

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 478d101..62db249 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -432,7 +432,7 @@ def ProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(tau),
                 )
                 print(msg)
 
@@ -711,7 +711,7 @@ def AndersonProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(tau),
                 )
                 print(msg)
 
-- 
2.43.0


From 714b4f403e03bd4610b0e42ad81c7729b7d89ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 56/62] fix: AndersonProximalGradient with vector tau failed
 when safeguard=True

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 62db249..56d7e13 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -674,7 +674,7 @@ def AndersonProximalGradient(
 
             # check if function is decreased, otherwise do basic PG step
             pfold, pf = pf, proxf(xtest)
-            if pf <= pfold - tau * np.linalg.norm(proxf.grad(x)) ** 2 / 2:
+            if pf <= pfold - np.sum(tau * np.abs(proxf.grad(x)) ** 2) / 2:
                 y = ytest
                 x = xtest
             else:
-- 
2.43.0


From 036f45cf32317ac79665d5bf3dcdee7090313ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 57/62] fix: Log1.prox moved small entries away from zero or
 across it when delta > sqrt(tau sigma / 2)

---
 pyproximal/proximal/Log.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 8b4a3c4..d5ad0bb 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -162,29 +162,32 @@ class Log1(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         tau1 = self.sigma * tau
-        thresh = np.sqrt(2 * tau1) - self.delta
+        thresh = np.maximum(np.sqrt(2 * tau1) - self.delta, 0.0)
         x1 = np.zeros_like(x, dtype=x.dtype)
         if np.iscomplexobj(x):
             x1[np.abs(x) > thresh] = (
                 0.5
                 * np.exp(1j * np.angle(x[np.abs(x) > thresh]))
-                * (
+                * np.maximum(
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
                         (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
-                    )
+                    ),
+                    0.0,
                 )
             )
         else:
-            x1[x > thresh] = 0.5 * (
+            x1[x > thresh] = 0.5 * np.maximum(
                 x[x > thresh]
                 - self.delta
-                + np.sqrt(np.abs(x[x > thresh] + self.delta) ** 2 - 2 * tau1)
+                + np.sqrt(np.abs(x[x > thresh] + self.delta) ** 2 - 2 * tau1),
+                0.0,
             )
-            x1[x < -thresh] = 0.5 * (
+            x1[x < -thresh] = 0.5 * np.minimum(
                 x[x < -thresh]
                 + self.delta
-                - np.sqrt(np.abs(x[x < -thresh] - self.delta) ** 2 - 2 * tau1)
+                - np.sqrt(np.abs(x[x < -thresh] - self.delta) ** 2 - 2 * tau1),
+                0.0,
             )
         return x1
-- 
2.43.0


From 4fbb2eae0e9585d0975e69762ab039b6ff656adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:41 +0000
Subject: [PATCH 58/62] fix: points given as integer arrays gave results
 truncated to integers

---
 pyproximal/projection/Intersection.py    | 2 +-
 pyproximal/proximal/ETP.py               | 2 +-
 pyproximal/proximal/Geman.py             | 2 +-
 pyproximal/proximal/Huber.py             | 4 ++--
 pyproximal/proximal/Log.py               | 4 ++--
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 pyproximal/proximal/SCAD.py              | 4 ++--
 pyproximal/proximal/Simplex.py           | 4 ++--
 pyproximal/proximal/VStack.py            | 4 ++--
 9 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bc8d7f6..4416fba 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n).copy()
+        x = x.reshape(self.k, self.n).astype(np.result_type(x, np.float32))
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold, x12old = x.copy(), x12.copy()
diff --git a/pyproximal/proximal/ETP.py b/pyproximal/proximal/ETP.py
index 50bb128..165720e 100644
--- a/pyproximal/proximal/ETP.py
+++ b/pyproximal/proximal/ETP.py
@@ -72,7 +72,7 @@ class ETP(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         k = tau * self.sigma / (1 - np.exp(-self.gamma))
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x, np.float32))
 
         # Get real-valued solutions to the Lambert W function
         tmp = np.exp(-np.abs(x) * self.gamma) * k * self.gamma**2
diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 67c3499..49e649e 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -64,7 +64,7 @@ class Geman(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         idx, loc_mins = self._find_local_minima(np.abs(x), tau)
         global_min_idx = (
             tau * self.elementwise(loc_mins) + (loc_mins - np.abs(x[idx])) ** 2 / 2
diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index c4e001e..5dedd09 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -49,7 +49,7 @@ class Huber(ProxOperator):
         self.l1 = L1()
 
     def __call__(self, x: NDArray) -> float:
-        h = np.zeros_like(x)
+        h = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         xabs = np.abs(x)
         mask = xabs > self.alpha
         h[~mask] = xabs[~mask] ** 2 / (2.0 * self.alpha)
@@ -58,7 +58,7 @@ class Huber(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        y = np.zeros_like(x)
+        y = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         xabs = np.abs(x)
         mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index d5ad0bb..299a076 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -90,7 +90,7 @@ class Log(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         k = tau * self.sigma / np.log(self.gamma + 1)
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         b = self.gamma * np.abs(x) - 1
         discriminant = b**2 - 4 * self.gamma * (k * self.gamma - np.abs(x))
         idx = discriminant >= 0
@@ -163,7 +163,7 @@ class Log1(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         tau1 = self.sigma * tau
         thresh = np.maximum(np.sqrt(2 * tau1) - self.delta, 0.0)
-        x1 = np.zeros_like(x, dtype=x.dtype)
+        x1 = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         if np.iscomplexobj(x):
             x1[np.abs(x) > thresh] = (
                 0.5
diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 893aaa1..979f2e8 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -86,7 +86,7 @@ class QuadraticEnvelopeCard(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        r = np.abs(x)
+        r = np.abs(x).astype(np.result_type(np.abs(x), np.float32))
         idx = r < np.sqrt(2 * self.mu * max(1.0, tau))
         if tau >= 1:
             r[idx] = 0
diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index 19e2b0f..6e220f0 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -65,7 +65,7 @@ class SCAD(ProxOperator):
 
     def elementwise(self, x: NDArray) -> NDArray:
         absx = np.abs(x)
-        f = np.zeros_like(absx)
+        f = np.zeros_like(absx, dtype=np.result_type(absx, np.float32))
         ind = absx <= self.sigma
         f[ind] = self.sigma * absx[ind]
         ind = np.logical_and(self.sigma < absx, absx <= self.a * self.sigma)
@@ -78,7 +78,7 @@ class SCAD(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        theta = x.copy()
+        theta = x.astype(np.result_type(x, np.float32))
         absx = np.abs(x)
         first_threshold = self.sigma * (self.a - 1 - tau + tau * self.a) / (self.a - 1)
         ind = absx <= first_threshold
diff --git a/pyproximal/proximal/Simplex.py b/pyproximal/proximal/Simplex.py
index 6a5a3ee..aa13c51 100644
--- a/pyproximal/proximal/Simplex.py
+++ b/pyproximal/proximal/Simplex.py
@@ -81,7 +81,7 @@ class _Simplex(ProxOperator):
             x = x.reshape(self.dims)
             if self.axis == 0:
                 x = x.T
-            y = np.zeros_like(x)
+            y = np.zeros_like(x, dtype=np.result_type(x, np.float32))
             for i in range(self.dims[self.otheraxis]):
                 y[i] = self.simplex(x[i])
             if self.axis == 0:
@@ -138,7 +138,7 @@ class _Simplex_numba(_Simplex):
             if self.axis == 0:
                 x = x.T
             y = simplex_jit(
-                x,
+                x.astype(np.result_type(x, np.float32), copy=False),
                 self.coeffs,
                 self.radius,
                 0,
diff --git a/pyproximal/proximal/VStack.py b/pyproximal/proximal/VStack.py
index 8c3cc6a..9c01223 100644
--- a/pyproximal/proximal/VStack.py
+++ b/pyproximal/proximal/VStack.py
@@ -103,7 +103,7 @@ class VStack(ProxOperator):
                 ]
             )
         else:
-            f = np.zeros_like(x)
+            f = np.zeros_like(x, dtype=np.result_type(x, np.float32))
             for op, restr in zip(self.ops, self.restr, strict=True):
                 f[restr.iava] = op.prox(restr.matvec(x), tau)
         return f
@@ -122,7 +122,7 @@ class VStack(ProxOperator):
                 ]
             )
         else:
-            f = np.zeros_like(x)
+            f = np.zeros_like(x, dtype=np.result_type(x, np.float32))
             for op, restr in zip(self.ops, self.restr, strict=True):
                 f[restr.iava] = op.grad(restr.matvec(x))
         return f
-- 
2.43.0


From d98cfa98fcbf45441fb2b38671608850b7d20d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 59/62] fix: PALM and iPALM backtracking uses the inner product
 of complex vectors

---
 pyproximal/optimization/palm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 003e9da..ed9b91e 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -35,7 +35,9 @@ def _backtracking(
     ) -> float:
         xy = x - y[ix]
         return float(
-            f(*y) + np.dot(g, xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(*y)
+            + np.real(np.vdot(g, xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From 4f7b8b86ffa6b070ba4bd66982ef8bc70de206f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 60/62] fix: printing handles complex vectors in ProximalPoint,
 PALM, iPALM, Bregman and the primal-dual solvers

---
 pyproximal/optimization/bregman.py    | 3 ++-
 pyproximal/optimization/palm.py       | 9 +++++----
 pyproximal/optimization/primal.py     | 6 +++++-
 pyproximal/optimization/primaldual.py | 4 ++--
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyproximal/optimization/bregman.py b/pyproximal/optimization/bregman.py
index 851eeb4..d0e6f22 100644
--- a/pyproximal/optimization/bregman.py
+++ b/pyproximal/optimization/bregman.py
@@ -4,6 +4,7 @@ from copy import deepcopy
 from typing import TYPE_CHECKING, Any, Optional
 
 import numpy as np
+from pylops.utils.backend import to_numpy
 from pylops.utils.typing import NDArray
 
 from pyproximal.ProxOperator import ProxOperator
@@ -163,7 +164,7 @@ def Bregman(
                 pg = proxg(A.matvec(x)) if A is not None else proxg(x)
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e" % (
                     iiter + 1,
-                    x[0],
+                    np.real(to_numpy(x[0])),
                     pf,
                     pg,
                     pf + pg,
diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index ed9b91e..c150944 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -2,6 +2,7 @@ import time
 from collections.abc import Callable
 
 import numpy as np
+from pylops.utils.backend import to_numpy
 from pylops.utils.typing import NDArray
 
 from pyproximal.ProxOperator import ProxOperator
@@ -207,8 +208,8 @@ def PALM(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 msg = "%6g  %5.5e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e" % (
                     iiter + 1,
-                    x[0],
-                    y[0],
+                    np.real(to_numpy(x[0])),
+                    np.real(to_numpy(y[0])),
                     pf,
                     pg,
                     H(x, y),
@@ -394,8 +395,8 @@ def iPALM(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 msg = "%6g  %5.5e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e" % (
                     iiter + 1,
-                    x[0],
-                    y[0],
+                    np.real(to_numpy(x[0])),
+                    np.real(to_numpy(y[0])),
                     pf,
                     pg,
                     H(x, y),
diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 56d7e13..2a2e793 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -193,7 +193,11 @@ def ProximalPoint(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 if tol is None:
                     pf = prox(x)
-                msg = "%6g  %12.5e  %10.3e" % (iiter + 1, x[0], pf)
+                msg = "%6g  %12.5e  %10.3e" % (
+                    iiter + 1,
+                    np.real(to_numpy(x[0])),
+                    pf,
+                )
                 print(msg)
 
         # break if tolerance condition is met
diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f48ccf8..b8db2d9 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -202,7 +202,7 @@ def PrimalDual(
                 pf, pg = proxf(x), proxg(A.matvec(x))
                 pf = 0.0 if isinstance(pf, bool) else pf
                 pg = 0.0 if isinstance(pg, bool) else pg
-                zx = 0.0 if z is None else np.dot(z, x)
+                zx = 0.0 if z is None else np.real(np.vdot(z, x))
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e      %10.3e" % (
                     iiter + 1,
                     np.real(to_numpy(x[0])),
@@ -397,7 +397,7 @@ def AdaptivePrimalDual(
                 pf, pg = proxf(x), proxg(A.matvec(x))
                 pf = 0.0 if isinstance(pf, bool) else pf
                 pg = 0.0 if isinstance(pg, bool) else pg
-                zx = 0.0 if z is None else np.dot(z, x)
+                zx = 0.0 if z is None else np.real(np.vdot(z, x))
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e      %10.3e" % (
                     iiter + 1,
                     np.real(to_numpy(x[0])),
-- 
2.43.0


From eb95dd7952c75dffa4c51b3da239ba04d8a12483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 61/62] fix: Segment computes with floating-point numbers for
 images and classes of small integers

---
 pyproximal/optimization/segmentation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/segmentation.py b/pyproximal/optimization/segmentation.py
index 5063220..b06c6f8 100644
--- a/pyproximal/optimization/segmentation.py
+++ b/pyproximal/optimization/segmentation.py
@@ -95,7 +95,12 @@ def Segment(
     ncl = len(cl)
 
     # Data (difference between image and center of classes)
-    g = sigma / 2.0 * (y.reshape(1, dimsprod) - cl[:, np.newaxis]) ** 2
+    dtype = np.result_type(y, cl, float)
+    g = (
+        sigma
+        / 2.0
+        * np.subtract(y.reshape(1, dimsprod), cl[:, np.newaxis], dtype=dtype) ** 2
+    )
     if clsigmas is not None:
         g /= clsigmas[:, np.newaxis]
     g = g.ravel()
-- 
2.43.0


From 2614eb8143885b6aae29bac800be9cd306a66d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 62/62] fix: GeneralizedProximalGradient accepts a starting
 point of integers

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 2a2e793..290d831 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -851,7 +851,7 @@ def GeneralizedProximalGradient(
 
     # initialize model
     t = 1.0
-    x = x0.copy()
+    x = x0.astype(np.result_type(x0, np.float32))
     y = x.copy()
     zs = [x.copy() for _ in range(len(proxgs))]
 
-- 
2.43.0

