From f8b7febf898ad67ed009902fbc5f7d362f98c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 01/70] fix: Huber proximal operator switches branch at alpha +
 tau

---
 pyproximal/proximal/Huber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 2085c5b..c4e001e 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -60,7 +60,7 @@ class Huber(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         y = np.zeros_like(x)
         xabs = np.abs(x)
-        mask = xabs > self.alpha
+        mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
         y[mask] = self.l1.prox(x[mask], tau)
         # alternative from https://math.stackexchange.com/questions/1650411/
-- 
2.43.0


From 16c8b22613d861361a5c5510ad6df43009e1e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 02/70] fix: L1 ball projection leaves points inside the ball
 unchanged

---
 pyproximal/projection/L1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyproximal/projection/L1.py b/pyproximal/projection/L1.py
index e6991fd..e9c8ed9 100644
--- a/pyproximal/projection/L1.py
+++ b/pyproximal/projection/L1.py
@@ -49,6 +49,8 @@ class L1BallProj:
         self.simplex = SimplexProj(n, radius, maxiter, xtol)
 
     def __call__(self, x: NDArray) -> NDArray:
+        if np.sum(np.abs(x)) <= self.radius:
+            return x.copy()
         if np.iscomplexobj(x):
             return np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))
         else:
-- 
2.43.0


From 1f3feba65b387006675ebb337d658538e9b8660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 03/70] fix: L0 and L10 ball projections handle zero radius

---
 pyproximal/projection/L0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/L0.py b/pyproximal/projection/L0.py
index e470d28..d1c2c5b 100644
--- a/pyproximal/projection/L0.py
+++ b/pyproximal/projection/L0.py
@@ -34,7 +34,7 @@ class L0BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xshape = x.shape
         xf = x.copy().flatten()
-        xf[np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xf[np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xf.reshape(xshape)
 
 
@@ -71,7 +71,7 @@ class L10BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xc = x.copy()
         xf = np.linalg.norm(x, axis=0, ord=1)
-        xc[:, np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xc[:, np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xc
 
 
-- 
2.43.0


From 0e1825f0a0de19d280fd5812b72a45681b645fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 04/70] fix: L2 proximal operator does not modify its input
 when q is given

---
 pyproximal/proximal/L2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index f38f53b..01179d5 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -225,7 +225,7 @@ class L2(ProxOperator):
             if self.normaleqs or self.Op.explicit:
                 y = x + tau * self.OpTb
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
             if self.Op.explicit:
                 if self.densesolver != "factorize":
                     Op1 = MatrixMult(
@@ -265,7 +265,7 @@ class L2(ProxOperator):
             else:
                 y = x
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
                 x = regularized_inversion(
                     np.sqrt(tau * self.sigma) * self.Op,
                     np.sqrt(tau * self.sigma) * self.b,
@@ -285,12 +285,12 @@ class L2(ProxOperator):
         elif self.b is not None:
             num = x + tau * self.sigma * self.b
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         else:
             num = x
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         return x
 
-- 
2.43.0


From 1dbaf0b3ad28f6ceb7415f13b543b64ffe63241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 05/70] fix: IntersectionProj does not modify its input

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bdd765d..86202d9 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n)
+        x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From d9202d29ae44a77a18eceaacb2760b1cc0b241b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 06/70] fix: Orthogonal does not modify its input when Q
 returns it unchanged

---
 pyproximal/proximal/Orthogonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Orthogonal.py b/pyproximal/proximal/Orthogonal.py
index b284d5c..29884eb 100644
--- a/pyproximal/proximal/Orthogonal.py
+++ b/pyproximal/proximal/Orthogonal.py
@@ -77,7 +77,7 @@ class Orthogonal(ProxOperator):
 
     def __call__(self, x: NDArray) -> bool | float | int:
         y = self.Q.matvec(x)
-        y += self.b
+        y = y + self.b
         f = self.f(y)
         return f
 
-- 
2.43.0


From e2638c20a177f027a9b932c0e7cbb9a8955e7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 07/70] fix: primal-dual solvers do not modify the dual
 variable when adding z

---
 pyproximal/optimization/primaldual.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index d98491b..f9e3d65 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -180,13 +180,13 @@ def PrimalDual(
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
         else:
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
@@ -360,7 +360,7 @@ def AdaptivePrimalDual(
 
         # proxf
         if z is not None:
-            ATy += z
+            ATy = ATy + z
         x = proxf.prox(x - tau * ATy, tau)
         Ax = A.matvec(x)
         Axhat = 2 * Ax - Axold
-- 
2.43.0


From 825ce053a5bb2d44edef2af059fc2b12e2c125c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 08/70] fix: AdaptivePrimalDual primal residual does not depend
 on z

---
 pyproximal/optimization/primaldual.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f9e3d65..1a43ffa 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -370,12 +370,7 @@ def AdaptivePrimalDual(
         ATy = A.rmatvec(y)
 
         # update steps
-        if z is not None:
-            p = float(
-                np.linalg.norm((xold - x) / tau - (ATyold - ATy) - A.rmatvec(z) + z)
-            )
-        else:
-            p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
+        p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
         d = float(np.linalg.norm((yold - y) / mu - (Axold - Ax)))
 
         if p > s * d * delta:
-- 
2.43.0


From 75dc24b2dc91a06c2426c87ab90f55f0e991d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 09/70] fix: AdaptivePrimalDual starts from the given x0 also
 in data space

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 1a43ffa..f48ccf8 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -342,7 +342,7 @@ def AdaptivePrimalDual(
     # initialization
     x = x0.copy()
     y = np.zeros(A.shape[0], dtype=x.dtype)
-    Ax = np.zeros(A.shape[0], dtype=x.dtype)
+    Ax = A.matvec(x)
     ATy = np.zeros(A.shape[1], dtype=x.dtype)
     taus = np.zeros(niter + 1)
     mus = np.zeros(niter + 1)
-- 
2.43.0


From f3edf41c55c594eb965b6b77fea1a861423fa1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 10/70] fix: ProximalGradient relaxes around y as documented

---
 pyproximal/optimization/primal.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fad1fe7..2714fbc 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -376,20 +376,13 @@ def ProximalGradient(
 
         # proximal step
         if not backtracking:
-            if eta == 1.0:
-                x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
-            else:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+            x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
         else:
             x, tau = _backtracking(
                 y, tau, proxf, proxg, epsg[iiter], beta=beta, niterback=niterback
             )
-            if eta != 1.0:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+        if eta != 1.0:
+            x = y + eta * (x - y)
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-- 
2.43.0


From a7277aa5bac852b6b9d94e5f64d9ee705637eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 11/70] fix: backtracking in ProximalGradient supports complex
 variables

---
 pyproximal/optimization/primal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 2714fbc..86987cd 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -37,7 +37,9 @@ def _backtracking(
     def ftilde(x: NDArray, y: NDArray, f: ProxOperator, tau: float) -> float:
         xy = x - y
         return float(
-            f(y) + np.dot(f.grad(y), xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(y)
+            + np.real(np.vdot(f.grad(y), xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From c9ac4f480be17a6ade4928d85e94cd4f9c2ecaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 12/70] fix: AndersonProximalGradient history, regularization
 and safeguard

---
 pyproximal/optimization/primal.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 86987cd..9c949f5 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -621,10 +621,10 @@ def AndersonProximalGradient(
     r = g - x0
     R, G = (
         [
-            g,
+            r,
         ],
         [
-            r,
+            g,
         ],
     )
     pf = proxf(x)
@@ -646,7 +646,9 @@ def AndersonProximalGradient(
 
         # solve for alpha coefficients
         Rstack = np.vstack(R)
-        Rinv = np.linalg.pinv(Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2)
+        Rinv = np.linalg.pinv(
+            Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2 * np.eye(len(R))
+        )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
         alpha = Rinvones / (ones[None] @ Rinvones)
@@ -666,13 +668,15 @@ def AndersonProximalGradient(
             xtest = proxg.prox(ytest, epsg[iiter] * tau)
 
             # check if function is decreased, otherwise do basic PG step
-            pfold, pf = pf, proxf(xtest)
-            if pf <= pfold - tau * np.linalg.norm(proxf.grad(x)) ** 2 / 2:
+            pftest = proxf(xtest)
+            if pftest <= pf - tau * np.linalg.norm(proxf.grad(x)) ** 2 / 2:
                 y = ytest
                 x = xtest
+                pf = pftest
             else:
                 x = proxg.prox(g, epsg[iiter] * tau)
                 y = g
+                pf = proxf(x)
 
         # run callback
         if callback is not None:
-- 
2.43.0


From c377e0c52ebe0bf51dd9d36ef9db5a61f08582c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 13/70] fix: AndersonProximalGradient does not break down at a
 fixed point

---
 pyproximal/optimization/primal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 9c949f5..f771aaa 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -651,7 +651,11 @@ def AndersonProximalGradient(
         )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
-        alpha = Rinvones / (ones[None] @ Rinvones)
+        if np.any(Rinvones):
+            alpha = Rinvones / (ones[None] @ Rinvones)
+        else:
+            # all residuals are zero (fixed point reached)
+            alpha = ones / ones.size
 
         if not safeguard:
             # update auxiliary variable
-- 
2.43.0


From dc57b8f851db0c6173f05f95255955afedf29b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 14/70] fix: GeneralizedProximalGradient accepts weights
 summing to one up to rounding

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index f771aaa..17b2e5a 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -808,7 +808,7 @@ def GeneralizedProximalGradient(
     # check if weights sum to 1
     if weights is None:
         weights = np.ones(len(proxgs)) / len(proxgs)
-    if len(weights) != len(proxgs) or np.sum(weights) != 1.0:
+    if len(weights) != len(proxgs) or not np.isclose(np.sum(weights), 1.0):
         msg = f"omega={weights} must be an array of size {len(proxgs)} summing to 1"
         raise ValueError(msg)
 
-- 
2.43.0


From bbb4c4fa35cbc90c5ad42edf63f98051898a11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 15/70] fix: LinearizedADMM uses A x0 in the first step also
 when z0 is provided

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 17b2e5a..9b538e9 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1470,7 +1470,7 @@ def LinearizedADMM(
     """
     # initialize variables
     x, z = _x0z0_init(x0, z0, A, Opname="A")
-    Ax = A.matvec(x) if z0 is None else z
+    Ax = A.matvec(x)
     ncp = get_array_module(x)
     u = ncp.zeros_like(z)
 
-- 
2.43.0


From bbc46c41f8fd30ae9af7b0cf7eb14ef6fe2388a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 16/70] fix: PPXA starts from the weighted mean of the initial
 vectors

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 9b538e9..1d49524 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1943,7 +1943,7 @@ def PPXA(  # pylint: disable=invalid-name
     else:
         y = ncp.full((m, x0.size), x0)  # y1_0 = y2_0 = ... = ym_0 = x0
 
-    x = ncp.mean(y, axis=0)
+    x = ncp.sum(w[:, None] * y, axis=0)
     x_old = x.copy()
 
     # iterate
-- 
2.43.0


From daef10bbb9a4397dc4b6298b94cf454cf6f0b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 17/70] fix: ADMML2 updates the dual with the current model
 when gfirst=True

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 1d49524..29697d6 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1339,6 +1339,7 @@ def ADMML2(
                 ],
                 **kwargs_solver,
             )[0]
+            Ax = A @ x
         else:
             # solve augumented system
             x = regularized_inversion(
-- 
2.43.0


From 1852d802b4df5e08d7cf0fb4b0605a8800f11c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 18/70] fix: TwIST estimates eigenvalues of A^H A as documented

---
 pyproximal/optimization/primal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 29697d6..712e69a 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1617,8 +1617,9 @@ def TwIST(
     # find alpha and beta
     if alpha is None or beta is None:
         if eigs is None:
-            emin = A.eigs(neigs=1, which="SM")
-            emax = max([1, A.eigs(neigs=1, which="LM")])
+            AHA = A.H * A
+            emin = max([0, AHA.eigs(neigs=1, symmetric=True, which="SM")[0]])
+            emax = max([1, AHA.eigs(neigs=1, symmetric=True, which="LM")[0]])
         else:
             emax, emin = eigs
         k = emin / emax
-- 
2.43.0


From 33cc7ecf977843dffdaf2c78df57e96cfea14c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 19/70] fix: PALM and iPALM backtracking on y uses proxg and
 the inertial point

---
 pyproximal/optimization/palm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a8bca32..93a7352 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -188,7 +188,7 @@ def PALM(
                 y = proxg.prox(y, 1.0 / dk)
         else:
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
@@ -339,7 +339,7 @@ def iPALM(
     if gammaf is None:
         tauf = 1.0
         ck = 0.0
-    if gammaf is None:
+    if gammag is None:
         taug = 1.0
         dk = 0.0
 
@@ -373,7 +373,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, z], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 3f92a14807eb081020714982907134c95da65154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 20/70] fix: PALM and iPALM start from x0 and y0 instead of the
 state of H

---
 pyproximal/optimization/palm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 93a7352..003e9da 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -166,6 +166,8 @@ def PALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         if gammaf is not None:
@@ -344,6 +346,8 @@ def iPALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     xold, yold = x0.copy(), y0.copy()
     for iiter in range(niter):
         # x step
-- 
2.43.0


From 33797ebf25c1e2ff72b82c65699f188d34797c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 21/70] fix: backtracking in PALM and iPALM supports complex
 variables

---
 pyproximal/optimization/palm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 003e9da..ed9b91e 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -35,7 +35,9 @@ def _backtracking(
     ) -> float:
         xy = x - y[ix]
         return float(
-            f(*y) + np.dot(g, xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(*y)
+            + np.real(np.vdot(g, xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From 865639202236d577c4d3943868dadf153142ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 22/70] fix: gradient tests perturb a copy and along the real
 axis for real inputs

---
 pyproximal/utils/gradtest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 96ec9c7..464dae5 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -93,13 +93,14 @@ def gradtest_proximal(
 
     # choose location of perturbation, whether to act on x or y and on real or imag part
     iqx = np.random.randint(0, n)
-    r_or_i = np.random.randint(0, 2)
+    r_or_i = np.random.randint(0, 2) if np.iscomplexobj(x) else 0
 
     delta1: float | complex = delta
     if r_or_i != 0:
         delta1 = delta * 1j
 
     # extract gradient value to test
+    x = x.copy()
     x[iqx] = x[iqx] + delta1
     grad = g[iqx]
 
@@ -202,7 +203,7 @@ def gradtest_bilinear(
     ny = Op.sizey
 
     # extract x and y from Op
-    x, y = Op.x.ravel(), Op.y.ravel()
+    x, y = Op.x.ravel().copy(), Op.y.ravel().copy()
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From ce462c98c2b46637458b2dcadf31838b49682afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 23/70] fix: gradient tests apply rtol relative to the analytic
 gradient

---
 pyproximal/utils/gradtest.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 464dae5..ad50ac4 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -109,8 +109,8 @@ def gradtest_proximal(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (grad.real if r_or_i == 0 else grad.imag)
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    grad_analytic = grad.real if r_or_i == 0 else grad.imag
+    passed = bool(ncp.isclose(grad_delta, grad_analytic, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
@@ -237,10 +237,8 @@ def gradtest_bilinear(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (
-        grad.real if not complexflag or r_or_i == 0 else grad.imag
-    )
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    grad_analytic = grad.real if not complexflag or r_or_i == 0 else grad.imag
+    passed = bool(ncp.isclose(grad_delta, grad_analytic, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
-- 
2.43.0


From 6f4b504c9b3646b657a9b9dc3b48973abf3e16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 24/70] fix: SR3 inner solver does not divide by zero when it
 terminates exactly

---
 pyproximal/optimization/sr3.py | 417 +++++++++++++++++----------------
 1 file changed, 213 insertions(+), 204 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 10f3381..735d77c 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -1,204 +1,213 @@
-from typing import TYPE_CHECKING
-
-import numpy as np
-import pylops
-from pylops.utils.typing import NDArray
-from scipy.sparse.linalg import lsqr as sp_lsqr
-
-if TYPE_CHECKING:
-    from pylops.linearoperator import LinearOperator
-
-
-def _lsqr(
-    Op: "LinearOperator",
-    data: NDArray,
-    iter_lim: int,
-    z_old: NDArray,
-    x0: NDArray,
-    kappa: float,
-    eps: float,
-    Reg: "LinearOperator",
-) -> NDArray:
-    r"""LSQR
-
-    This function uses LSQR to solve the inner iteration of SR3, given by
-
-    .. math::
-        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
-        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
-
-    LSQR is stopped when the maximum amount of iterations are reached or when
-    the stopping criterion is satisfied. There are no other stopping criteria,
-    hence the solver should not be used outside of the context of solving the
-    inner iteration of SR3.
-
-    Parameters
-    ----------
-    Op: :obj:`pylops.LinearOperator`
-        Forward operator. This is the stacked operator
-        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
-    data: :obj:`numpy.ndarray`
-        Data
-    iter_lim: :obj:`int`
-        Maximum number of iterations
-    z_old: :obj:`numpy.ndarray`
-        The previous outer iteration
-    x0: :obj:`numpy.ndarray`
-       initial guess
-    kappa: :obj:`float`
-        The regularization parameter for the inner iteration
-    eps: :obj:`float`
-        The regularization parameter for the outer iteration
-    Reg: :obj:`numpy.ndarray`
-        The regularization operator L
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution
-
-    """
-    data -= Op.matvec(x0)
-    x = x0
-    beta = np.linalg.norm(data)
-    u = data / beta
-    v = Op.rmatvec(u)
-    alpha = np.linalg.norm(v)
-    v = v / alpha
-    w = v
-    phi_bar = beta
-    rho_bar = alpha
-    for _ in range(iter_lim):
-        u = Op.matvec(v) - alpha * u
-        beta = np.linalg.norm(u)
-        u = u / beta
-        v = Op.rmatvec(u) - beta * v
-        alpha = np.linalg.norm(v)
-        v = v / alpha
-        rho = np.sqrt(rho_bar**2 + beta**2)
-        c = rho_bar / rho
-        s = beta / rho
-        theta = s * alpha
-        rho_bar = -c * alpha
-        phi = c * phi_bar
-        phi_bar = s * phi_bar
-        x += (phi / rho) * w
-        temp = Reg.matvec(x)
-        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
-        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-            return x
-        w = v - (theta / rho) * w
-        z_old = z
-    return x
-
-
-def SR3(
-    Op: "LinearOperator",
-    Reg: "LinearOperator",
-    data: NDArray,
-    kappa: float,
-    eps: float,
-    x0: NDArray | None = None,
-    adaptive: bool = True,
-    iter_lim_outer: int = 100,
-    iter_lim_inner: int = 100,
-) -> NDArray:
-    r"""Sparse Relaxed Regularized Regression
-
-    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
-    an inverse problem with a sparsity constraint of the form
-
-    .. math::
-
-        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
-        \lambda\Vert \mathbf{Lx}\Vert_1
-
-    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
-    and instead solves
-
-    .. math::
-
-        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
-        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
-        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
-
-    Parameters
-    ----------
-    Op : :obj:`pylops.LinearOperator`
-        Forward operator
-    Reg : :obj:`numpy.ndarray`
-        Regularization operator
-    data : :obj:`numpy.ndarray`
-        Data
-    kappa : :obj:`float`
-        Parameter controlling the difference between :math:`\mathbf{z}`
-        and :math:`\mathbf{Lx}`
-    eps : :obj:`float`
-        Regularization parameter
-    x0 : :obj:`numpy.ndarray`, optional
-        Initial guess
-    adaptive : :obj:`bool`, optional
-        Use adaptive SR3 with a stopping criterion for the inner iterations
-        or not
-    iter_lim_outer : :obj:`int`, optional
-        Maximum number of iterations for the outer iteration
-    iter_lim_inner : :obj:`int`, optional
-        Maximum number of iterations for the inner iteration
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution.
-
-    Notes
-    -----
-    SR3 uses the following algorithm:
-
-        .. math::
-            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
-            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
-            \kappa \mathbf{L}^T\mathbf{y}_k) \\
-            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
-            (\mathbf{Lx}_{k+1})
-
-    """
-    (m, n) = Op.shape
-    if x0 is None:
-        x0 = np.zeros(n)
-    x = x0.copy()
-    p = Reg.shape[0]
-    v = np.zeros(p)
-    w = v
-    eta = 1 / kappa
-    theta = 1
-    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
-    for _ in range(iter_lim_outer):
-        # Compute the inner iteration
-        if adaptive:
-            x = _lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim_inner,
-                v,
-                x,
-                kappa,
-                eps,
-                Reg,
-            )
-        else:
-            x = sp_lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim=iter_lim_inner,
-                x0=x,
-            )[0]
-        # Compute the outer iteration
-        w_old = w
-        temp = Reg.matvec(x)
-        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
-        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
-        if err1 < 1e-6:
-            return x
-        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
-        v = w + (1 - theta) * (w - w_old)
-    return x
+from typing import TYPE_CHECKING
+
+import numpy as np
+import pylops
+from pylops.utils.typing import NDArray
+from scipy.sparse.linalg import lsqr as sp_lsqr
+
+if TYPE_CHECKING:
+    from pylops.linearoperator import LinearOperator
+
+
+def _lsqr(
+    Op: "LinearOperator",
+    data: NDArray,
+    iter_lim: int,
+    z_old: NDArray,
+    x0: NDArray,
+    kappa: float,
+    eps: float,
+    Reg: "LinearOperator",
+) -> NDArray:
+    r"""LSQR
+
+    This function uses LSQR to solve the inner iteration of SR3, given by
+
+    .. math::
+        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
+        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
+
+    LSQR is stopped when the maximum amount of iterations are reached or when
+    the stopping criterion is satisfied. There are no other stopping criteria,
+    hence the solver should not be used outside of the context of solving the
+    inner iteration of SR3.
+
+    Parameters
+    ----------
+    Op: :obj:`pylops.LinearOperator`
+        Forward operator. This is the stacked operator
+        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
+    data: :obj:`numpy.ndarray`
+        Data
+    iter_lim: :obj:`int`
+        Maximum number of iterations
+    z_old: :obj:`numpy.ndarray`
+        The previous outer iteration
+    x0: :obj:`numpy.ndarray`
+       initial guess
+    kappa: :obj:`float`
+        The regularization parameter for the inner iteration
+    eps: :obj:`float`
+        The regularization parameter for the outer iteration
+    Reg: :obj:`numpy.ndarray`
+        The regularization operator L
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution
+
+    """
+    data -= Op.matvec(x0)
+    x = x0
+    beta = np.linalg.norm(data)
+    if beta == 0:
+        return x
+    u = data / beta
+    v = Op.rmatvec(u)
+    alpha = np.linalg.norm(v)
+    if alpha == 0:
+        return x
+    v = v / alpha
+    w = v
+    phi_bar = beta
+    rho_bar = alpha
+    for _ in range(iter_lim):
+        u = Op.matvec(v) - alpha * u
+        beta = np.linalg.norm(u)
+        if beta > 0:
+            u = u / beta
+        v = Op.rmatvec(u) - beta * v
+        alpha = np.linalg.norm(v) if beta > 0 else 0.0
+        if alpha > 0:
+            v = v / alpha
+        rho = np.sqrt(rho_bar**2 + beta**2)
+        c = rho_bar / rho
+        s = beta / rho
+        theta = s * alpha
+        rho_bar = -c * alpha
+        phi = c * phi_bar
+        phi_bar = s * phi_bar
+        x += (phi / rho) * w
+        if alpha == 0:
+            # exact solution found, the bidiagonalization has terminated
+            return x
+        temp = Reg.matvec(x)
+        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
+        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
+            return x
+        w = v - (theta / rho) * w
+        z_old = z
+    return x
+
+
+def SR3(
+    Op: "LinearOperator",
+    Reg: "LinearOperator",
+    data: NDArray,
+    kappa: float,
+    eps: float,
+    x0: NDArray | None = None,
+    adaptive: bool = True,
+    iter_lim_outer: int = 100,
+    iter_lim_inner: int = 100,
+) -> NDArray:
+    r"""Sparse Relaxed Regularized Regression
+
+    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
+    an inverse problem with a sparsity constraint of the form
+
+    .. math::
+
+        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
+        \lambda\Vert \mathbf{Lx}\Vert_1
+
+    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
+    and instead solves
+
+    .. math::
+
+        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
+        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
+        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
+
+    Parameters
+    ----------
+    Op : :obj:`pylops.LinearOperator`
+        Forward operator
+    Reg : :obj:`numpy.ndarray`
+        Regularization operator
+    data : :obj:`numpy.ndarray`
+        Data
+    kappa : :obj:`float`
+        Parameter controlling the difference between :math:`\mathbf{z}`
+        and :math:`\mathbf{Lx}`
+    eps : :obj:`float`
+        Regularization parameter
+    x0 : :obj:`numpy.ndarray`, optional
+        Initial guess
+    adaptive : :obj:`bool`, optional
+        Use adaptive SR3 with a stopping criterion for the inner iterations
+        or not
+    iter_lim_outer : :obj:`int`, optional
+        Maximum number of iterations for the outer iteration
+    iter_lim_inner : :obj:`int`, optional
+        Maximum number of iterations for the inner iteration
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution.
+
+    Notes
+    -----
+    SR3 uses the following algorithm:
+
+        .. math::
+            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
+            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
+            \kappa \mathbf{L}^T\mathbf{y}_k) \\
+            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
+            (\mathbf{Lx}_{k+1})
+
+    """
+    (m, n) = Op.shape
+    if x0 is None:
+        x0 = np.zeros(n)
+    x = x0.copy()
+    p = Reg.shape[0]
+    v = np.zeros(p)
+    w = v
+    eta = 1 / kappa
+    theta = 1
+    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
+    for _ in range(iter_lim_outer):
+        # Compute the inner iteration
+        if adaptive:
+            x = _lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim_inner,
+                v,
+                x,
+                kappa,
+                eps,
+                Reg,
+            )
+        else:
+            x = sp_lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim=iter_lim_inner,
+                x0=x,
+            )[0]
+        # Compute the outer iteration
+        w_old = w
+        temp = Reg.matvec(x)
+        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
+        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
+        if err1 < 1e-6:
+            return x
+        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
+        v = w + (1 - theta) * (w - w_old)
+    return x
-- 
2.43.0


From 57863046c1d39d457c7f38b6b5a8a28d9c131168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 25/70] fix: Segment uses the norm bound of the gradient of the
 actual dimension

---
 pyproximal/optimization/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/segmentation.py b/pyproximal/optimization/segmentation.py
index 5063220..5b7cae6 100644
--- a/pyproximal/optimization/segmentation.py
+++ b/pyproximal/optimization/segmentation.py
@@ -116,7 +116,7 @@ def Segment(
     )
 
     # Steps
-    L = 8.0 / sampling**2
+    L = 4.0 * ndims / sampling**2
     tau = 1.0
     mu = 1.0 / (tau * L)
 
-- 
2.43.0


From 8a02da217b0cde384fb3dc727d72722bcde9b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 26/70] fix: L1 dual proximal handles complex inputs and
 scheduled sigma

---
 pyproximal/proximal/L1.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 42129ae..8e68d12 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -148,7 +148,13 @@ class L1(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         if not isinstance(self.gdual, np.ndarray):
-            x = self.box(x)
+            sigma = _current_sigma(self.sigma, self.count)
+            if np.iscomplexobj(x):
+                x = x - _softthreshold(x, sigma)
+            elif callable(self.sigma):
+                x = BoxProj(-sigma, sigma)(x)
+            else:
+                x = self.box(x)
         else:
             x = self._proxdual_moreau(x, tau)
         return x
-- 
2.43.0


From de4d9912ce78f31e33a7f72d433dbfa5efdf421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 27/70] fix: L21 supports complex inputs

---
 pyproximal/proximal/L21.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L21.py b/pyproximal/proximal/L21.py
index bf59462..5cf2f17 100644
--- a/pyproximal/proximal/L21.py
+++ b/pyproximal/proximal/L21.py
@@ -65,13 +65,13 @@ class L21(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        f = self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+        f = self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         return float(f)
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = (1 - (tau * self.sigma) / np.maximum(aux, tau * self.sigma)) * x.ravel()
         return x
@@ -79,7 +79,7 @@ class L21(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)
         return x
-- 
2.43.0


From 806438351c8e563ddfc270e66bf09585c6d20f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 28/70] fix: L21_plus_L1 handles zero groups, other axes and
 complex inputs

---
 pyproximal/proximal/L21_plus_L1.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 10dcbd4..ea33f45 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -1,6 +1,7 @@
 import numpy as np
 from pylops.utils.typing import NDArray
 
+from pyproximal.proximal.L1 import _softthreshold
 from pyproximal.ProxOperator import ProxOperator, _check_tau
 
 
@@ -38,17 +39,16 @@ class L21_plus_L1(ProxOperator):
     def __call__(self, x: NDArray) -> float:
         return float(
             self.rho * self.sigma * np.sum(np.abs(x))
-            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+            + (1 - self.rho) * self.sigma
+            * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         )
 
     @_check_tau
     def prox(self, x: NDArray, tau: float, axis: int = 0) -> NDArray:
         thresh = self.sigma * tau
-        l1 = np.maximum(np.abs(x) - thresh * self.rho, 0)
+        l1 = _softthreshold(x, thresh * self.rho)
         # Axis defines what dimension to perform grouping over
-        aux_l21 = np.sqrt(
-            np.sum(np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2, axis=axis)
-        )
-        l21 = np.maximum(1 - thresh * (1 - self.rho) / aux_l21, 0)
-        x = np.nan_to_num(x / np.abs(x)) * l1 * l21
+        aux_l21 = np.sqrt(np.sum(np.abs(l1) ** 2, axis=axis, keepdims=True))
+        l21 = np.maximum(aux_l21 - thresh * (1 - self.rho), 0)
+        x = l1 * (l21 / np.where(aux_l21 > 0, aux_l21, 1))
         return x
-- 
2.43.0


From 52b503f1104bd3249e10bda32789d4b9afec1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 29/70] fix: spectral functionals evaluate complex and wide
 matrices

---
 pyproximal/proximal/Nuclear.py              | 10 +++++++---
 pyproximal/proximal/QuadraticEnvelope.py    |  5 ++---
 pyproximal/proximal/SingularValuePenalty.py |  5 ++---
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyproximal/proximal/Nuclear.py b/pyproximal/proximal/Nuclear.py
index 149c5c0..3fcade9 100644
--- a/pyproximal/proximal/Nuclear.py
+++ b/pyproximal/proximal/Nuclear.py
@@ -62,9 +62,13 @@ class Nuclear(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(np.flip(self.sigma) * np.sqrt(eigs)))
+        S = np.linalg.svd(X, compute_uv=False)
+        sigma = (
+            self.sigma[: S.size]
+            if isinstance(self.sigma, np.ndarray) and self.sigma.size > 1
+            else self.sigma
+        )
+        return float(np.sum(sigma * S))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index a07ee16..c825097 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -282,10 +282,9 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
+        S = np.linalg.svd(X, compute_uv=False)
         return float(
-            np.sum(self.penalty(np.sqrt(eigs)))
+            np.sum(self.penalty(S))
             + 0.5 * np.linalg.norm(X - self.M, "fro")
         )
 
diff --git a/pyproximal/proximal/SingularValuePenalty.py b/pyproximal/proximal/SingularValuePenalty.py
index 9019327..6ec0a03 100644
--- a/pyproximal/proximal/SingularValuePenalty.py
+++ b/pyproximal/proximal/SingularValuePenalty.py
@@ -47,9 +47,8 @@ class SingularValuePenalty(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(self.penalty(np.sqrt(eigs))))
+        S = np.linalg.svd(X, compute_uv=False)
+        return float(np.sum(self.penalty(S)))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-- 
2.43.0


From 10ad9486f0467677ea7e5a0ad38e69bba63012c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 30/70] fix: Geman proximal returns zero or nan for large
 inputs and sigma=0

---
 pyproximal/proximal/Geman.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 371591d..582ff05 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -65,10 +65,7 @@ class Geman(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         out = np.zeros_like(x)
-        b = 2 * self.gamma - np.abs(x)
-        c = self.gamma**2 - 2 * self.gamma * np.abs(x)
-        d = self.gamma * self.sigma * tau - self.gamma**2 * np.abs(x)
-        idx, loc_mins = self._find_local_minima(b, c, d)
+        idx, loc_mins = self._find_local_minima(np.abs(x), tau)
         global_min_idx = (
             tau * self.elementwise(loc_mins) + (loc_mins - np.abs(x[idx])) ** 2 / 2
             < np.abs(x[idx]) ** 2 / 2
@@ -77,14 +74,13 @@ class Geman(ProxOperator):
         out[idx] = np.sign(x[idx]) * loc_mins[global_min_idx]
         return out
 
-    @staticmethod
-    def _find_local_minima(
-        b: NDArray, c: NDArray, d: NDArray
-    ) -> tuple[NDArray, NDArray]:
-        f = -((c - b**2.0 / 3.0) ** 3.0) / 27.0
-        g = (2.0 * b**3.0 - 9.0 * b * c + 27.0 * d) / 27.0
-        idx = g**2.0 / 4.0 - f <= 0
-        sqrtf = np.sqrt(f[idx])
-        k = np.arccos(-(g[idx] / (2 * sqrtf)))
-        loc_mins = 2 * sqrtf ** (1 / 3.0) * np.cos(k / 3.0) - b[idx] / 3.0
+    def _find_local_minima(self, absx: NDArray, tau: float) -> tuple[NDArray, NDArray]:
+        # With u = z + gamma and s = |x| + gamma, the stationary points solve
+        # u^3 - s u^2 + gamma * sigma * tau = 0; the largest root (if any exists)
+        # is the local minimum
+        s = absx + self.gamma
+        r = 27.0 * self.gamma * self.sigma * tau / (4.0 * s**3.0)
+        idx = r <= 1.0
+        k = np.arccos(1.0 - 2.0 * r[idx])
+        loc_mins = s[idx] / 3.0 * (1.0 + 2.0 * np.cos(k / 3.0)) - self.gamma
         return idx, loc_mins
-- 
2.43.0


From bd10a032cd426709b9801be594b2b4e566f6fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 31/70] fix: SCAD proximal for tau larger than a-1

---
 pyproximal/proximal/SCAD.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index 9e7ef77..404f38c 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -80,6 +80,17 @@ class SCAD(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         theta = x.copy()
         absx = np.abs(x)
+        if tau >= self.a - 1:
+            # concave between sigma and a * sigma, the minimum is either given by
+            # soft thresholding or by the input itself
+            threshold = (
+                (self.a + 1 + tau) / 2
+                if tau <= self.a + 1
+                else np.sqrt((self.a + 1) * tau)
+            ) * self.sigma
+            ind = absx <= threshold
+            theta[ind] = np.sign(x[ind]) * np.maximum(0, absx[ind] - self.sigma * tau)
+            return theta
         first_threshold = self.sigma * (self.a - 1 - tau + tau * self.a) / (self.a - 1)
         ind = absx <= first_threshold
         theta[ind] = np.sign(x[ind]) * np.maximum(0, absx[ind] - self.sigma * tau)
-- 
2.43.0


From 7c701f5d12401e2e8eabbf649e85cc4d275e72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 32/70] fix: quadratic envelopes for tau>=1, r0=1 and tied
 entries

---
 pyproximal/proximal/QuadraticEnvelope.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index c825097..4c77a35 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -1,5 +1,4 @@
 import numpy as np
-from pylops.optimization.cls_sparsity import _hardthreshold
 from pylops.utils.typing import IntNDArray, NDArray, ShapeLike
 
 from pyproximal.ProxOperator import ProxOperator, _check_tau
@@ -89,7 +88,7 @@ class QuadraticEnvelopeCard(ProxOperator):
         r = np.abs(x)
         idx = r < np.sqrt(2 * self.mu)
         if tau >= 1:
-            r[idx] = 0
+            r[r < np.sqrt(2 * self.mu * tau)] = 0
         else:
             r[idx] = np.maximum(0, (r[idx] - tau * np.sqrt(2 * self.mu)) / (1 - tau))
         return r * np.sign(x)
@@ -173,7 +172,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
         xs = np.sort(np.abs(x))[::-1]
         sums = np.cumsum(xs[::-1])
         sums = sums[-self.r0 :] / np.arange(1, self.r0 + 1)
-        tmp = np.diff(sums) > 0
+        tmp = np.append(np.diff(sums) > 0, False)
         k_star = int(np.argmax(tmp))
         if k_star == 0 and not tmp[k_star]:
             k_star = self.r0 - 1
@@ -188,14 +187,18 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     @_check_tau
     def prox(self, y: NDArray, tau: float) -> NDArray:
         rho = 1 / tau
-        if rho <= 1:
-            return _hardthreshold(y, tau)
         if y.size <= self.r0:
             return y
 
         r = np.abs(y)
         theta = np.sign(y)
         id = np.argsort(-r, kind="quicksort")
+        if rho <= 1:
+            # retain the r0 largest entries (best approximation with at most r0
+            # nonzero elements)
+            x = np.zeros_like(y)
+            x[id[: self.r0]] = y[id[: self.r0]]
+            return x
         rsort = r[id]
         idinv = np.zeros_like(id)
         idinv[id] = np.arange(r.size)
@@ -210,6 +213,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
             iend = np.max(np.where(rnew >= rnew[self.r0 - 1])[0])
             z = np.sort(rnew[istart : iend + 1])[::-1]
             z1 = z[0]
+            tol = 10 * np.finfo(z.dtype).eps * z1  # account for rounding in sI
             for z2 in z[1:]:
                 s = (z1 + z2) / 2
                 istart1 = np.min(np.where(rnew <= s)[0])
@@ -217,7 +221,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
                 sI = (rho * sum(rsort[istart1 : iend1 + 1])) / (
                     (self.r0 - istart1) * rho + (iend1 + 1 - self.r0) * 1
                 )
-                if z2 <= sI <= z1:
+                if z2 - tol <= sI <= z1 + tol:
                     x = np.concatenate(
                         (
                             np.maximum(rnew[: self.r0], sI),
-- 
2.43.0


From d143752c121b9fd91148c25ce7e3f26935bcb4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 33/70] fix: QuadraticEnvelopeRankL2 proximal for any shape and
 rank threshold

---
 pyproximal/proximal/QuadraticEnvelope.py | 35 ++----------------------
 1 file changed, 3 insertions(+), 32 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 4c77a35..b87fc16 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -299,36 +299,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
         Y = (self.M + rho * P) / (1 + rho)
         U, yk, Vh = np.linalg.svd(Y, full_matrices=False)
-        n = yk.size
-        r = np.concatenate((yk[: self.r0], (1 + rho) * yk[self.r0 :]))
-        ind = np.argsort(r, kind="quicksort")
-        p = r[ind]
-
-        a = (n - self.r0) / rho
-        b = (rho + 1) / rho * np.sum(yk[self.r0 :])
-
-        # Base case
-        zk = yk.copy()
-        zk[self.r0 :] = (1 + rho) * yk[self.r0 :]
-
-        for k, ii in enumerate(ind):
-            if ii < self.r0:
-                a = a + (rho + 1) / rho
-                b = b + (rho + 1) / rho * yk[ii]
-            else:
-                a = a - 1 / rho
-                b = b - (rho + 1) / rho * yk[ii]
-
-            if a == 0:
-                continue
-
-            s = b / a
-
-            if p[k] <= s <= p[k + 1]:
-                zk = np.maximum(s, yk)
-                zk[self.r0 :] = np.minimum(s, (1 + rho) * yk[self.r0 :])
-                break
-
-        Z = np.dot(U * zk, Vh)
-        X = P + (self.M - Z) / rho
+        # The objective equals, up to a constant, the quadratic envelope plus
+        # (1 + rho) / 2 * ||Z - Y||_F^2
+        X = np.dot(U * self.penalty.prox(yk, 1 / (1 + rho)), Vh)
         return X.ravel()
-- 
2.43.0


From 94e8813205af8c50c0ba4f242afb7c6e07d08506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 34/70] fix: accept tau passed by keyword to proximal operators

---
 pyproximal/ProxOperator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index f32d07c..33a3ed7 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -19,7 +19,8 @@ def _check_tau(func: Callable[..., NDArray]) -> Callable[..., NDArray]:
     """
 
     def wrapper(*args: Any, **kwargs: Any) -> Any:
-        if np.any(args[2] <= 0):
+        tau = kwargs["tau"] if "tau" in kwargs else args[2]
+        if np.any(tau <= 0):
             msg = "tau must be positive"
             raise ValueError(msg)
         return func(*args, **kwargs)
-- 
2.43.0


From be8fb32e51cc5d685f822deda7fc5221cec3ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 35/70] fix: rejected proximal calls do not advance parameter
 schedules

---
 pyproximal/proximal/L0.py        | 6 +++---
 pyproximal/proximal/L1.py        | 2 +-
 pyproximal/proximal/L2.py        | 2 +-
 pyproximal/proximal/RelaxedMS.py | 2 +-
 pyproximal/proximal/TV.py        | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyproximal/proximal/L0.py b/pyproximal/proximal/L0.py
index 95668e8..95051e3 100644
--- a/pyproximal/proximal/L0.py
+++ b/pyproximal/proximal/L0.py
@@ -103,8 +103,8 @@ class L0(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         x = _hardthreshold(x, tau * sigma)
@@ -155,8 +155,8 @@ class L0Ball(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         radius = _current_radius(self.radius, self.count)
         self.ball.radius = radius
@@ -217,8 +217,8 @@ class L10Ball(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
         radius = _current_radius(self.radius, self.count)
diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 8e68d12..e1b71a1 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -134,8 +134,8 @@ class L1(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         if self.g is None:
diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 01179d5..a80aa26 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -211,8 +211,8 @@ class L2(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
         if isinstance(self.niter, int):
diff --git a/pyproximal/proximal/RelaxedMS.py b/pyproximal/proximal/RelaxedMS.py
index a679a52..a583742 100644
--- a/pyproximal/proximal/RelaxedMS.py
+++ b/pyproximal/proximal/RelaxedMS.py
@@ -93,8 +93,8 @@ class RelaxedMumfordShah(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         sigma = _current_sigma(self.sigma, self.count)
         kappa = _current_sigma(self.kappa, self.count)
diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 2fd6035..8d3ad75 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -83,8 +83,8 @@ class TV(ProxOperator):
 
         return wrapped
 
-    @_increment_count
     @_check_tau
+    @_increment_count
     def prox(self, x: NDArray, tau: float) -> NDArray:
         # define current number of iterations
         if isinstance(self.niter, int):
-- 
2.43.0


From 926e8c7d41bc9123684ebcebe47405ed92026e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 36/70] fix: TV accepts dims=None and axes with a single sample

---
 pyproximal/proximal/TV.py | 38 +++++++-------------------------------
 1 file changed, 7 insertions(+), 31 deletions(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 8d3ad75..f41273e 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -48,7 +48,7 @@ class TV(ProxOperator):
         **kwargs: Any,
     ) -> None:
         super().__init__(None, True)
-        self.dims = (0,) if dims is None else dims
+        self.dims = (-1,) if dims is None else dims
         self.ndim = 1 if dims is None else len(dims)
         self.sigma = sigma
         self.niter = niter
@@ -60,7 +60,7 @@ class TV(ProxOperator):
         x = x.reshape(self.dims)
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
             dx = derivOp @ x
             y = np.sum(np.abs(dx), axis=0)
@@ -101,7 +101,7 @@ class TV(ProxOperator):
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
         else:
             gradOp = Gradient(x.shape, edge=False, dtype=x.dtype, kind="forward")
@@ -193,10 +193,7 @@ class TV(ProxOperator):
                             axis=0,
                         ),
                         rr[1:-1,] - rr[:-2,],
-                        -np.expand_dims(
-                            rr[-2,],
-                            axis=0,
-                        ),
+                        -rr[-2:-1],
                     ),
                     axis=0,
                 )
@@ -218,13 +215,7 @@ class TV(ProxOperator):
                             :,
                             :-2,
                         ],
-                        -np.expand_dims(
-                            ss[
-                                :,
-                                -2,
-                            ],
-                            axis=1,
-                        ),
+                        -ss[:, -2:-1],
                     ),
                     axis=1,
                 )
@@ -249,14 +240,7 @@ class TV(ProxOperator):
                             :,
                             :-2,
                         ],
-                        -np.expand_dims(
-                            kk[
-                                :,
-                                :,
-                                -2,
-                            ],
-                            axis=2,
-                        ),
+                        -kk[:, :, -2:-1],
                     ),
                     axis=2,
                 )
@@ -284,15 +268,7 @@ class TV(ProxOperator):
                             :,
                             :-2,
                         ],
-                        -np.expand_dims(
-                            uu[
-                                :,
-                                :,
-                                :,
-                                -2,
-                            ],
-                            axis=3,
-                        ),
+                        -uu[:, :, :, -2:-1],
                     ),
                     axis=3,
                 )
-- 
2.43.0


From d165086591d631bcfa93ccb15733b205b8296330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 37/70] fix: TV stopping criterion does not apply sigma twice

---
 pyproximal/proximal/TV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index f41273e..f8611e9 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -275,7 +275,7 @@ class TV(ProxOperator):
             sol = x - gamma * div
 
             #  Objective function value
-            obj = 0.5 * np.power(np.linalg.norm(x[:] - sol[:]), 2) + gamma * np.sum(
+            obj = 0.5 * np.power(np.linalg.norm(x[:] - sol[:]), 2) + tau * np.sum(
                 self.__call__(sol), axis=0
             )
             if obj > 1e-10:
-- 
2.43.0


From 4e3765bdcf6ecdde0d81f79aaf0385f0ace1f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 38/70] fix: parallel Dykstra does not normalise the caller's
 weights in place

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 3596435..683b030 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -104,7 +104,7 @@ def parallel_dykstra_prox(
     m = len(prox_ops)
     z = ncp.stack([x0.copy() for _ in range(m)])
     w = ncp.asarray(weights, dtype=float)
-    w /= w.sum()
+    w = w / w.sum()
 
     for _ in range(niter):
         x_old = x.copy()
-- 
2.43.0


From cb9bef6abb03b2a5a54053bf155ddae1b87b887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 39/70] fix: Quadratic gradient of linear and constant
 functions

---
 pyproximal/proximal/Quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 07ce21d..6631b49 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -133,7 +133,7 @@ class Quadratic(ProxOperator):
         if self.Op is not None and self.b is not None:
             g = self.Op.matvec(x) + self.b
         elif self.b is not None:
-            g = self.b
+            g = self.b.copy()
         else:
-            g = 0.0
+            g = np.zeros_like(x)
         return g
-- 
2.43.0


From d4f69706569b1d281189e5ea13fc20914ae2efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 40/70] fix: Euclidean ball of zero radius at its center

---
 pyproximal/projection/Euclidean.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/projection/Euclidean.py b/pyproximal/projection/Euclidean.py
index 83c99af..351a8ba 100644
--- a/pyproximal/projection/Euclidean.py
+++ b/pyproximal/projection/Euclidean.py
@@ -37,7 +37,7 @@ class EuclideanBallProj:
         self.radius = radius
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = self.center + self.radius / (
-            max(float(np.linalg.norm(x - self.center)), self.radius)
-        ) * (x - self.center)
+        dist = float(np.linalg.norm(x - self.center))
+        scale = self.radius / dist if dist > self.radius else 1.0
+        x = self.center + scale * (x - self.center)
         return x
-- 
2.43.0


From 8c1ec4132f3d608117e5e81dfe1893e2605dcdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 41/70] fix: L2Convolve returns real proximal and gradient for
 real inputs

---
 pyproximal/proximal/L2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index a80aa26..1b56046 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -364,6 +364,9 @@ class L2Convolve(ProxOperator):
                 else get_normalize_axis_index()(dir, len(dims))
             )
 
+        # identify if real inputs lead to real outputs
+        self.real = not (np.iscomplexobj(h) or np.iscomplexobj(b))
+
         # convert data and filter to Fourier domain
         self.bf = np.fft.fft(b, self.nfft, axis=self.dir)
         self.hf = np.fft.fft(h, self.nfft, axis=0 if h.ndim == 1 else self.dir)
@@ -405,6 +408,8 @@ class L2Convolve(ProxOperator):
             y = y[: len(x)]
         else:
             y = np.take(y, range(self.dims[self.dir]), axis=self.dir).ravel()
+        if self.real and not np.iscomplexobj(x):
+            y = y.real
         return y
 
     def grad(self, x: NDArray) -> NDArray:
@@ -416,5 +421,7 @@ class L2Convolve(ProxOperator):
             np.conj(self.hf) * (self.hf * xf - self.bf), axis=self.dir
         )
         g = np.take(g, range(x.shape[self.dir]), axis=self.dir).ravel()
+        if self.real and not np.iscomplexobj(x):
+            g = g.real
 
         return g
-- 
2.43.0


From 6c3d571de6bb2814485a2ab275590b6a414f5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 42/70] fix: Log1 proximal of complex inputs adds delta to the
 modulus

---
 pyproximal/proximal/Log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 5a9d10b..8b4a3c4 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -172,7 +172,7 @@ class Log1(ProxOperator):
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
-                        np.abs(x[np.abs(x) > thresh] + self.delta) ** 2 - 2 * tau1
+                        (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
                     )
                 )
             )
-- 
2.43.0


From 9d9fd5b7798ae5a148c714e8fe923b9498f5c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 43/70] fix: Log1 proximal with delta larger than the threshold

---
 pyproximal/proximal/Log.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 8b4a3c4..62bd1f5 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -162,29 +162,33 @@ class Log1(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         tau1 = self.sigma * tau
-        thresh = np.sqrt(2 * tau1) - self.delta
+        # the threshold is only meaningful if positive
+        thresh = max(np.sqrt(2 * tau1) - self.delta, 0.0)
         x1 = np.zeros_like(x, dtype=x.dtype)
         if np.iscomplexobj(x):
             x1[np.abs(x) > thresh] = (
                 0.5
                 * np.exp(1j * np.angle(x[np.abs(x) > thresh]))
-                * (
+                * np.maximum(
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
                         (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
-                    )
+                    ),
+                    0.0,
                 )
             )
         else:
-            x1[x > thresh] = 0.5 * (
+            x1[x > thresh] = 0.5 * np.maximum(
                 x[x > thresh]
                 - self.delta
-                + np.sqrt(np.abs(x[x > thresh] + self.delta) ** 2 - 2 * tau1)
+                + np.sqrt(np.abs(x[x > thresh] + self.delta) ** 2 - 2 * tau1),
+                0.0,
             )
-            x1[x < -thresh] = 0.5 * (
+            x1[x < -thresh] = 0.5 * np.minimum(
                 x[x < -thresh]
                 + self.delta
-                - np.sqrt(np.abs(x[x < -thresh] - self.delta) ** 2 - 2 * tau1)
+                - np.sqrt(np.abs(x[x < -thresh] - self.delta) ** 2 - 2 * tau1),
+                0.0,
             )
         return x1
-- 
2.43.0


From b95f573ac38a1349116f79277cc7b3875c3a19b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 44/70] fix: Log rejects gamma=0 for which it is not defined

---
 pyproximal/proximal/Log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 62bd1f5..d80c8bb 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -75,7 +75,7 @@ class Log(ProxOperator):
         if sigma < 0:
             msg = 'Variable "sigma" must be positive.'
             raise ValueError(msg)
-        if gamma < 0:
+        if gamma <= 0:
             msg = 'Variable "gamma" must be positive.'
             raise ValueError(msg)
         self.sigma = sigma
-- 
2.43.0


From 2526d787f86e44f8ac27283f036c55a37d453795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 45/70] fix: SCAD, ETP and Huber handle complex inputs

---
 pyproximal/proximal/ETP.py   | 4 ++--
 pyproximal/proximal/Huber.py | 2 +-
 pyproximal/proximal/SCAD.py  | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyproximal/proximal/ETP.py b/pyproximal/proximal/ETP.py
index 8643114..2ffb348 100644
--- a/pyproximal/proximal/ETP.py
+++ b/pyproximal/proximal/ETP.py
@@ -83,8 +83,8 @@ class ETP(ProxOperator):
 
         # Check which stationary points are global minima
         idx_minima = (
-            tau * self.elementwise(stat_points) + (stat_points - x[idx]) ** 2 / 2
-            < x[idx] ** 2 / 2
+            tau * self.elementwise(stat_points) + np.abs(stat_points - x[idx]) ** 2 / 2
+            < np.abs(x[idx]) ** 2 / 2
         )
         idx[idx] = idx_minima
         out[idx] = stat_points[idx_minima]
diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index c4e001e..90fe3d8 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -49,8 +49,8 @@ class Huber(ProxOperator):
         self.l1 = L1()
 
     def __call__(self, x: NDArray) -> float:
-        h = np.zeros_like(x)
         xabs = np.abs(x)
+        h = np.zeros_like(xabs)
         mask = xabs > self.alpha
         h[~mask] = xabs[~mask] ** 2 / (2.0 * self.alpha)
         h[mask] = xabs[mask] - self.alpha / 2.0
diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index 404f38c..c14c3f6 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -64,13 +64,13 @@ class SCAD(ProxOperator):
         return float(np.sum(self.elementwise(x)))
 
     def elementwise(self, x: NDArray) -> NDArray:
-        f = np.zeros_like(x)
         absx = np.abs(x)
+        f = np.zeros_like(absx)
         ind = absx <= self.sigma
         f[ind] = self.sigma * absx[ind]
         ind = np.logical_and(self.sigma < absx, absx <= self.a * self.sigma)
         f[ind] = (
-            -(x[ind] ** 2) + 2 * self.a * self.sigma * absx[ind] - self.sigma**2
+            -(absx[ind] ** 2) + 2 * self.a * self.sigma * absx[ind] - self.sigma**2
         ) / (2 * (self.a - 1))
         ind = absx > self.a * self.sigma
         f[ind] = (self.a + 1) * self.sigma**2 / 2
-- 
2.43.0


From 6981016008b991ff4297cc964d271b1ba6727f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 46/70] fix: intersection projection does not stop while its
 corrections change

---
 pyproximal/projection/Intersection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index 86202d9..a3b8a3c 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -56,6 +56,7 @@ class IntersectionProj:
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
+            x12old = x12.copy()
             for i1 in range(self.k - 1):
                 for i2 in range(i1 + 1, self.k):
                     xtilde = x[i2] - x[i1] + x12[i1, i2]
@@ -68,6 +69,10 @@ class IntersectionProj:
                     x[i1] = x[i1] + 0.5 * (xdtilde - x12[i1, i2])
                     x[i2] = x[i2] - 0.5 * (xdtilde - x12[i1, i2])
                     x12[i1, i2] = xdtilde
-            if max(np.sum(np.abs(x - xold), axis=0)) < self.tol:
+            # x may stall before reaching the projection: x12 must settle too
+            if (
+                max(np.sum(np.abs(x - xold), axis=0)) < self.tol
+                and np.max(np.abs(x12 - x12old)) < self.tol
+            ):
                 break
         return x.ravel()
-- 
2.43.0


From 7448bd3026c8c334e12c70a35dc82e7145d791d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 47/70] fix: Log1 proximal finite when rounding at its
 threshold

---
 pyproximal/proximal/Log.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index d80c8bb..3af828b 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -173,7 +173,11 @@ class Log1(ProxOperator):
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
-                        (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
+                        np.maximum(
+                            (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2
+                            - 2 * tau1,
+                            0.0,
+                        )
                     ),
                     0.0,
                 )
@@ -182,13 +186,17 @@ class Log1(ProxOperator):
             x1[x > thresh] = 0.5 * np.maximum(
                 x[x > thresh]
                 - self.delta
-                + np.sqrt(np.abs(x[x > thresh] + self.delta) ** 2 - 2 * tau1),
+                + np.sqrt(
+                    np.maximum(np.abs(x[x > thresh] + self.delta) ** 2 - 2 * tau1, 0.0)
+                ),
                 0.0,
             )
             x1[x < -thresh] = 0.5 * np.minimum(
                 x[x < -thresh]
                 + self.delta
-                - np.sqrt(np.abs(x[x < -thresh] - self.delta) ** 2 - 2 * tau1),
+                - np.sqrt(
+                    np.maximum(np.abs(x[x < -thresh] - self.delta) ** 2 - 2 * tau1, 0.0)
+                ),
                 0.0,
             )
         return x1
-- 
2.43.0


From 3afe15be94013e7ed3970ad32117f15765fc3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 48/70] fix: warm-started least-squares proximal steps are
 solved for zero data

---
 pyproximal/proximal/L2.py        | 4 +++-
 pyproximal/proximal/Quadratic.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 1b56046..2d2f96b 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -251,8 +251,10 @@ class L2(ProxOperator):
                 ) * (self.Op.H * self.Op)
                 if self.solver == "legacy":
                     if get_module_name(get_array_module(x)) == "numpy":
+                        # lsqr stops at once for zero data when given a starting guess
+                        x0 = self.x0 if np.any(y) else None
                         x = sp_lsqr(
-                            Op1, y, iter_lim=niter, x0=self.x0, **self.kwargs_solver
+                            Op1, y, iter_lim=niter, x0=x0, **self.kwargs_solver
                         )[0]
                     else:
                         x = lsqr(Op1, y, niter=niter, x0=self.x0, **self.kwargs_solver)[
diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 6631b49..d7fad27 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -109,7 +109,9 @@ class Quadratic(ProxOperator):
                 x = Op1.div(y)
             else:
                 Op1 = Identity(self.Op.shape[0], dtype=self.Op.dtype) + tau * self.Op
-                x = lsqr(Op1, y, iter_lim=self.niter, x0=self.x0)[0]
+                # lsqr stops at once for zero data when given a starting guess
+                x0 = self.x0 if np.any(y) else None
+                x = lsqr(Op1, y, iter_lim=self.niter, x0=x0)[0]
             if self.warm:
                 self.x0 = x
         elif self.b is not None:
-- 
2.43.0


From 336cecb10fe8fc54e7268b062e77a2c21a5ae543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 49/70] fix: TV proximal does not stop when only its objective
 stalls

---
 pyproximal/proximal/TV.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index f8611e9..b9813ba 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -272,6 +272,7 @@ class TV(ProxOperator):
                     ),
                     axis=3,
                 )
+            solold = sol
             sol = x - gamma * div
 
             #  Objective function value
@@ -284,8 +285,10 @@ class TV(ProxOperator):
                 rel_obj = 2 * rtol
             prev_obj = obj
 
-            # Stopping criterion
-            if rel_obj < rtol:
+            # Stopping criterion (the objective may stall while the solution moves)
+            if rel_obj < rtol and np.linalg.norm(
+                sol - solold
+            ) <= rtol * np.linalg.norm(sol):
                 break
 
             #  Update divergence vectors and project
-- 
2.43.0


From 4495448f263adbcb97b00d24d3a0ce9998a9e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 50/70] fix: integer scalings of an operator are accepted

---
 pyproximal/ProxOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index 33a3ed7..8d44c62 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -304,7 +304,7 @@ class ProxOperator:
 
     def __rmul__(self, sigma: Union[float, int, "ProxOperator"]) -> "ProxOperator":
         if isinstance(sigma, (int, float)):
-            return self.postcomposition(sigma)
+            return self.postcomposition(float(sigma))
         else:
             return self.chain(sigma)
 
-- 
2.43.0


From 5330cb91da94914adfdac124ea3461197adfcd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 51/70] fix: stopping criterion does not divide by a zero
 objective

---
 pyproximal/optimization/primal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 712e69a..84fbdce 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -187,7 +187,7 @@ def ProximalPoint(
         if tol is not None:
             pfold = pf
             pf = prox(x)
-            if np.abs(1.0 - pf / pfold) < tol:
+            if np.abs(pfold - pf) < tol * np.abs(pfold):
                 tolbreak = True
 
         # show iteration logger
@@ -411,7 +411,7 @@ def ProximalGradient(
             pfgold = pfg
             pf, pg = proxf(x), proxg(x)
             pfg = pf + np.sum(epsg[iiter] * pg)
-            if np.abs(1.0 - pfg / pfgold) < tol:
+            if np.abs(pfgold - pfg) < tol * np.abs(pfgold):
                 tolbreak = True
 
         # show iteration logger
@@ -692,7 +692,7 @@ def AndersonProximalGradient(
             pfgold = pfg
             pf, pg = proxf(x), proxg(x)
             pfg = pf + np.sum(epsg[iiter] * pg)
-            if np.abs(1.0 - pfg / pfgold) < tol:
+            if np.abs(pfgold - pfg) < tol * np.abs(pfgold):
                 tolbreak = True
 
         # show iteration logger
-- 
2.43.0


From 8f49602f33c7625c86b21ce6622fc43046ce254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 52/70] fix: progress of solvers can be shown for complex
 variables

---
 pyproximal/optimization/bregman.py    | 3 ++-
 pyproximal/optimization/palm.py       | 9 +++++----
 pyproximal/optimization/primal.py     | 6 +++++-
 pyproximal/optimization/primaldual.py | 4 ++--
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyproximal/optimization/bregman.py b/pyproximal/optimization/bregman.py
index 851eeb4..d0e6f22 100644
--- a/pyproximal/optimization/bregman.py
+++ b/pyproximal/optimization/bregman.py
@@ -4,6 +4,7 @@ from copy import deepcopy
 from typing import TYPE_CHECKING, Any, Optional
 
 import numpy as np
+from pylops.utils.backend import to_numpy
 from pylops.utils.typing import NDArray
 
 from pyproximal.ProxOperator import ProxOperator
@@ -163,7 +164,7 @@ def Bregman(
                 pg = proxg(A.matvec(x)) if A is not None else proxg(x)
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e" % (
                     iiter + 1,
-                    x[0],
+                    np.real(to_numpy(x[0])),
                     pf,
                     pg,
                     pf + pg,
diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index ed9b91e..c150944 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -2,6 +2,7 @@ import time
 from collections.abc import Callable
 
 import numpy as np
+from pylops.utils.backend import to_numpy
 from pylops.utils.typing import NDArray
 
 from pyproximal.ProxOperator import ProxOperator
@@ -207,8 +208,8 @@ def PALM(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 msg = "%6g  %5.5e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e" % (
                     iiter + 1,
-                    x[0],
-                    y[0],
+                    np.real(to_numpy(x[0])),
+                    np.real(to_numpy(y[0])),
                     pf,
                     pg,
                     H(x, y),
@@ -394,8 +395,8 @@ def iPALM(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 msg = "%6g  %5.5e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e  %5.2e" % (
                     iiter + 1,
-                    x[0],
-                    y[0],
+                    np.real(to_numpy(x[0])),
+                    np.real(to_numpy(y[0])),
                     pf,
                     pg,
                     H(x, y),
diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 84fbdce..e0c74f0 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -195,7 +195,11 @@ def ProximalPoint(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 if tol is None:
                     pf = prox(x)
-                msg = "%6g  %12.5e  %10.3e" % (iiter + 1, x[0], pf)
+                msg = "%6g  %12.5e  %10.3e" % (
+                    iiter + 1,
+                    np.real(to_numpy(x[0])),
+                    pf,
+                )
                 print(msg)
 
         # break if tolerance condition is met
diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f48ccf8..b8db2d9 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -202,7 +202,7 @@ def PrimalDual(
                 pf, pg = proxf(x), proxg(A.matvec(x))
                 pf = 0.0 if isinstance(pf, bool) else pf
                 pg = 0.0 if isinstance(pg, bool) else pg
-                zx = 0.0 if z is None else np.dot(z, x)
+                zx = 0.0 if z is None else np.real(np.vdot(z, x))
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e      %10.3e" % (
                     iiter + 1,
                     np.real(to_numpy(x[0])),
@@ -397,7 +397,7 @@ def AdaptivePrimalDual(
                 pf, pg = proxf(x), proxg(A.matvec(x))
                 pf = 0.0 if isinstance(pf, bool) else pf
                 pg = 0.0 if isinstance(pg, bool) else pg
-                zx = 0.0 if z is None else np.dot(z, x)
+                zx = 0.0 if z is None else np.real(np.vdot(z, x))
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e      %10.3e" % (
                     iiter + 1,
                     np.real(to_numpy(x[0])),
-- 
2.43.0


From 335d2a38b6b4269d13cb4e4e7864308167b387f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 53/70] fix: scalar steps of PrimalDual are not cast to the
 type of x0

---
 pyproximal/optimization/primaldual.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index b8db2d9..dfaa3f6 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -137,11 +137,12 @@ def PrimalDual(
 
     # check if tau and mu are scalars or arrays
     fixedtau = fixedmu = False
-    if isinstance(tau, (int, float)):
-        tau = tau * ncp.ones(niter, dtype=x0.dtype)
+    stepdtype = np.result_type(x0.real.dtype, np.float32)
+    if np.ndim(tau) == 0:
+        tau = tau * ncp.ones(niter, dtype=stepdtype)
         fixedtau = True
-    if isinstance(mu, (int, float)):
-        mu = mu * ncp.ones(niter, dtype=x0.dtype)
+    if np.ndim(mu) == 0:
+        mu = mu * ncp.ones(niter, dtype=stepdtype)
         fixedmu = True
 
     if show:
-- 
2.43.0


From dc3390910cd00df16b2aa9c21680497f96a0bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 54/70] fix: GeneralizedProximalGradient accepts integer and
 real starts of any problem

---
 pyproximal/optimization/primal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index e0c74f0..18bc3c1 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -862,15 +862,15 @@ def GeneralizedProximalGradient(
         # gradient
         grad = np.zeros_like(x)
         for _, proxf in enumerate(proxfs):
-            grad += proxf.grad(x)
+            grad = grad + proxf.grad(x)
 
         # proximal step
         x = np.zeros_like(x)
         for i, proxg in enumerate(proxgs):
             ztmp = 2 * y - zs[i] - tau * grad
             ztmp = proxg.prox(ztmp, tau * epsg[i] / weights[i])
-            zs[i] += eta * (ztmp - y)
-            x += weights[i] * zs[i]
+            zs[i] = zs[i] + eta * (ztmp - y)
+            x = x + weights[i] * zs[i]
 
         # update y
         if acceleration == "vandenberghe":
-- 
2.43.0


From c2197a1722bdeaef3ddad2798f1fe0f8e0bbe136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 55/70] fix: SR3 accepts integer starting points

---
 pyproximal/optimization/sr3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 735d77c..016f45f 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -88,7 +88,7 @@ def _lsqr(
         rho_bar = -c * alpha
         phi = c * phi_bar
         phi_bar = s * phi_bar
-        x += (phi / rho) * w
+        x = x + (phi / rho) * w
         if alpha == 0:
             # exact solution found, the bidiagonalization has terminated
             return x
-- 
2.43.0


From 9eb7c1c70489d4655ef3dd437dcd10a23c245c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 56/70] fix: integer inputs are not truncated by proximal
 operators and projections

---
 pyproximal/projection/Intersection.py    | 3 ++-
 pyproximal/proximal/ETP.py               | 2 +-
 pyproximal/proximal/Geman.py             | 2 +-
 pyproximal/proximal/Huber.py             | 4 ++--
 pyproximal/proximal/Log.py               | 4 ++--
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 pyproximal/proximal/SCAD.py              | 4 ++--
 pyproximal/proximal/Simplex.py           | 4 ++--
 pyproximal/proximal/VStack.py            | 4 ++--
 pyproximal/proximal/_Dykstra.py          | 2 +-
 10 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index a3b8a3c..183467e 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,8 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n).copy()
+        x = x.reshape(self.k, self.n)
+        x = x.astype(np.result_type(x, np.float32))
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
diff --git a/pyproximal/proximal/ETP.py b/pyproximal/proximal/ETP.py
index 2ffb348..6c1537b 100644
--- a/pyproximal/proximal/ETP.py
+++ b/pyproximal/proximal/ETP.py
@@ -72,7 +72,7 @@ class ETP(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         k = tau * self.sigma / (1 - np.exp(-self.gamma))
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x, np.float32))
 
         # Get real-valued solutions to the Lambert W function
         tmp = np.exp(-np.abs(x) * self.gamma) * k * self.gamma**2
diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 582ff05..142eea1 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -64,7 +64,7 @@ class Geman(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         idx, loc_mins = self._find_local_minima(np.abs(x), tau)
         global_min_idx = (
             tau * self.elementwise(loc_mins) + (loc_mins - np.abs(x[idx])) ** 2 / 2
diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 90fe3d8..eee4fe5 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -50,7 +50,7 @@ class Huber(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         xabs = np.abs(x)
-        h = np.zeros_like(xabs)
+        h = np.zeros_like(xabs, dtype=np.result_type(xabs, np.float32))
         mask = xabs > self.alpha
         h[~mask] = xabs[~mask] ** 2 / (2.0 * self.alpha)
         h[mask] = xabs[mask] - self.alpha / 2.0
@@ -58,7 +58,7 @@ class Huber(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        y = np.zeros_like(x)
+        y = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         xabs = np.abs(x)
         mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 3af828b..d68c254 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -90,7 +90,7 @@ class Log(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         k = tau * self.sigma / np.log(self.gamma + 1)
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         b = self.gamma * np.abs(x) - 1
         discriminant = b**2 - 4 * self.gamma * (k * self.gamma - np.abs(x))
         idx = discriminant >= 0
@@ -164,7 +164,7 @@ class Log1(ProxOperator):
         tau1 = self.sigma * tau
         # the threshold is only meaningful if positive
         thresh = max(np.sqrt(2 * tau1) - self.delta, 0.0)
-        x1 = np.zeros_like(x, dtype=x.dtype)
+        x1 = np.zeros_like(x, dtype=np.result_type(x, np.float32))
         if np.iscomplexobj(x):
             x1[np.abs(x) > thresh] = (
                 0.5
diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index b87fc16..7ef0034 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -85,7 +85,7 @@ class QuadraticEnvelopeCard(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        r = np.abs(x)
+        r = np.abs(x).astype(np.result_type(np.abs(x), np.float32))
         idx = r < np.sqrt(2 * self.mu)
         if tau >= 1:
             r[r < np.sqrt(2 * self.mu * tau)] = 0
diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index c14c3f6..52811b0 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -65,7 +65,7 @@ class SCAD(ProxOperator):
 
     def elementwise(self, x: NDArray) -> NDArray:
         absx = np.abs(x)
-        f = np.zeros_like(absx)
+        f = np.zeros_like(absx, dtype=np.result_type(absx, np.float32))
         ind = absx <= self.sigma
         f[ind] = self.sigma * absx[ind]
         ind = np.logical_and(self.sigma < absx, absx <= self.a * self.sigma)
@@ -78,7 +78,7 @@ class SCAD(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        theta = x.copy()
+        theta = x.astype(np.result_type(x, np.float32))
         absx = np.abs(x)
         if tau >= self.a - 1:
             # concave between sigma and a * sigma, the minimum is either given by
diff --git a/pyproximal/proximal/Simplex.py b/pyproximal/proximal/Simplex.py
index 6a5a3ee..aa13c51 100644
--- a/pyproximal/proximal/Simplex.py
+++ b/pyproximal/proximal/Simplex.py
@@ -81,7 +81,7 @@ class _Simplex(ProxOperator):
             x = x.reshape(self.dims)
             if self.axis == 0:
                 x = x.T
-            y = np.zeros_like(x)
+            y = np.zeros_like(x, dtype=np.result_type(x, np.float32))
             for i in range(self.dims[self.otheraxis]):
                 y[i] = self.simplex(x[i])
             if self.axis == 0:
@@ -138,7 +138,7 @@ class _Simplex_numba(_Simplex):
             if self.axis == 0:
                 x = x.T
             y = simplex_jit(
-                x,
+                x.astype(np.result_type(x, np.float32), copy=False),
                 self.coeffs,
                 self.radius,
                 0,
diff --git a/pyproximal/proximal/VStack.py b/pyproximal/proximal/VStack.py
index 8c3cc6a..9c01223 100644
--- a/pyproximal/proximal/VStack.py
+++ b/pyproximal/proximal/VStack.py
@@ -103,7 +103,7 @@ class VStack(ProxOperator):
                 ]
             )
         else:
-            f = np.zeros_like(x)
+            f = np.zeros_like(x, dtype=np.result_type(x, np.float32))
             for op, restr in zip(self.ops, self.restr, strict=True):
                 f[restr.iava] = op.prox(restr.matvec(x), tau)
         return f
@@ -122,7 +122,7 @@ class VStack(ProxOperator):
                 ]
             )
         else:
-            f = np.zeros_like(x)
+            f = np.zeros_like(x, dtype=np.result_type(x, np.float32))
             for op, restr in zip(self.ops, self.restr, strict=True):
                 f[restr.iava] = op.grad(restr.matvec(x))
         return f
diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 683b030..475b3f6 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -69,7 +69,7 @@ def parallel_dykstra_projection(
     r"""Compute Dykstra's projection algorithm for :math:`m \ge 2`."""
     ncp = get_array_module(x0)
 
-    u = x0.copy()
+    u = x0.astype(ncp.result_type(x0, ncp.float32))
     m = len(proj_ops)
     z = [ncp.zeros_like(u) for _ in range(m)]
 
-- 
2.43.0


From 98980217b8a6af07c2857210f0cff82803b9d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 57/70] fix: AdaptivePrimalDual numbers the iterations it shows
 from one

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index dfaa3f6..a8fdbe1 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -400,7 +400,7 @@ def AdaptivePrimalDual(
                 pg = 0.0 if isinstance(pg, bool) else pg
                 zx = 0.0 if z is None else np.real(np.vdot(z, x))
                 msg = "%6g  %12.5e  %10.3e  %10.3e  %10.3e      %10.3e" % (
-                    iiter + 1,
+                    iiter,
                     np.real(to_numpy(x[0])),
                     pf,
                     pg,
-- 
2.43.0


From 2340e56b878103a500858ff09b0d14fa787b31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 58/70] fix: progress of ProximalGradient can be shown for
 vector tau

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 18bc3c1..152cfd9 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -434,7 +434,7 @@ def ProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(tau),
                 )
                 print(msg)
 
@@ -715,7 +715,7 @@ def AndersonProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(tau),
                 )
                 print(msg)
 
-- 
2.43.0


From b89f9c78c7de56b402ecfbb1fd48ec96f13a4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 59/70] fix: SR3 with the non-adaptive solver is solved for
 zero data and a starting guess

---
 pyproximal/optimization/sr3.py | 427 +++++++++++++++++----------------
 1 file changed, 214 insertions(+), 213 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 016f45f..2b02e93 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -1,213 +1,214 @@
-from typing import TYPE_CHECKING
-
-import numpy as np
-import pylops
-from pylops.utils.typing import NDArray
-from scipy.sparse.linalg import lsqr as sp_lsqr
-
-if TYPE_CHECKING:
-    from pylops.linearoperator import LinearOperator
-
-
-def _lsqr(
-    Op: "LinearOperator",
-    data: NDArray,
-    iter_lim: int,
-    z_old: NDArray,
-    x0: NDArray,
-    kappa: float,
-    eps: float,
-    Reg: "LinearOperator",
-) -> NDArray:
-    r"""LSQR
-
-    This function uses LSQR to solve the inner iteration of SR3, given by
-
-    .. math::
-        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
-        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
-
-    LSQR is stopped when the maximum amount of iterations are reached or when
-    the stopping criterion is satisfied. There are no other stopping criteria,
-    hence the solver should not be used outside of the context of solving the
-    inner iteration of SR3.
-
-    Parameters
-    ----------
-    Op: :obj:`pylops.LinearOperator`
-        Forward operator. This is the stacked operator
-        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
-    data: :obj:`numpy.ndarray`
-        Data
-    iter_lim: :obj:`int`
-        Maximum number of iterations
-    z_old: :obj:`numpy.ndarray`
-        The previous outer iteration
-    x0: :obj:`numpy.ndarray`
-       initial guess
-    kappa: :obj:`float`
-        The regularization parameter for the inner iteration
-    eps: :obj:`float`
-        The regularization parameter for the outer iteration
-    Reg: :obj:`numpy.ndarray`
-        The regularization operator L
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution
-
-    """
-    data -= Op.matvec(x0)
-    x = x0
-    beta = np.linalg.norm(data)
-    if beta == 0:
-        return x
-    u = data / beta
-    v = Op.rmatvec(u)
-    alpha = np.linalg.norm(v)
-    if alpha == 0:
-        return x
-    v = v / alpha
-    w = v
-    phi_bar = beta
-    rho_bar = alpha
-    for _ in range(iter_lim):
-        u = Op.matvec(v) - alpha * u
-        beta = np.linalg.norm(u)
-        if beta > 0:
-            u = u / beta
-        v = Op.rmatvec(u) - beta * v
-        alpha = np.linalg.norm(v) if beta > 0 else 0.0
-        if alpha > 0:
-            v = v / alpha
-        rho = np.sqrt(rho_bar**2 + beta**2)
-        c = rho_bar / rho
-        s = beta / rho
-        theta = s * alpha
-        rho_bar = -c * alpha
-        phi = c * phi_bar
-        phi_bar = s * phi_bar
-        x = x + (phi / rho) * w
-        if alpha == 0:
-            # exact solution found, the bidiagonalization has terminated
-            return x
-        temp = Reg.matvec(x)
-        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
-        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-            return x
-        w = v - (theta / rho) * w
-        z_old = z
-    return x
-
-
-def SR3(
-    Op: "LinearOperator",
-    Reg: "LinearOperator",
-    data: NDArray,
-    kappa: float,
-    eps: float,
-    x0: NDArray | None = None,
-    adaptive: bool = True,
-    iter_lim_outer: int = 100,
-    iter_lim_inner: int = 100,
-) -> NDArray:
-    r"""Sparse Relaxed Regularized Regression
-
-    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
-    an inverse problem with a sparsity constraint of the form
-
-    .. math::
-
-        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
-        \lambda\Vert \mathbf{Lx}\Vert_1
-
-    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
-    and instead solves
-
-    .. math::
-
-        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
-        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
-        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
-
-    Parameters
-    ----------
-    Op : :obj:`pylops.LinearOperator`
-        Forward operator
-    Reg : :obj:`numpy.ndarray`
-        Regularization operator
-    data : :obj:`numpy.ndarray`
-        Data
-    kappa : :obj:`float`
-        Parameter controlling the difference between :math:`\mathbf{z}`
-        and :math:`\mathbf{Lx}`
-    eps : :obj:`float`
-        Regularization parameter
-    x0 : :obj:`numpy.ndarray`, optional
-        Initial guess
-    adaptive : :obj:`bool`, optional
-        Use adaptive SR3 with a stopping criterion for the inner iterations
-        or not
-    iter_lim_outer : :obj:`int`, optional
-        Maximum number of iterations for the outer iteration
-    iter_lim_inner : :obj:`int`, optional
-        Maximum number of iterations for the inner iteration
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution.
-
-    Notes
-    -----
-    SR3 uses the following algorithm:
-
-        .. math::
-            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
-            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
-            \kappa \mathbf{L}^T\mathbf{y}_k) \\
-            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
-            (\mathbf{Lx}_{k+1})
-
-    """
-    (m, n) = Op.shape
-    if x0 is None:
-        x0 = np.zeros(n)
-    x = x0.copy()
-    p = Reg.shape[0]
-    v = np.zeros(p)
-    w = v
-    eta = 1 / kappa
-    theta = 1
-    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
-    for _ in range(iter_lim_outer):
-        # Compute the inner iteration
-        if adaptive:
-            x = _lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim_inner,
-                v,
-                x,
-                kappa,
-                eps,
-                Reg,
-            )
-        else:
-            x = sp_lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim=iter_lim_inner,
-                x0=x,
-            )[0]
-        # Compute the outer iteration
-        w_old = w
-        temp = Reg.matvec(x)
-        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
-        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
-        if err1 < 1e-6:
-            return x
-        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
-        v = w + (1 - theta) * (w - w_old)
-    return x
+from typing import TYPE_CHECKING
+
+import numpy as np
+import pylops
+from pylops.utils.typing import NDArray
+from scipy.sparse.linalg import lsqr as sp_lsqr
+
+if TYPE_CHECKING:
+    from pylops.linearoperator import LinearOperator
+
+
+def _lsqr(
+    Op: "LinearOperator",
+    data: NDArray,
+    iter_lim: int,
+    z_old: NDArray,
+    x0: NDArray,
+    kappa: float,
+    eps: float,
+    Reg: "LinearOperator",
+) -> NDArray:
+    r"""LSQR
+
+    This function uses LSQR to solve the inner iteration of SR3, given by
+
+    .. math::
+        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
+        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
+
+    LSQR is stopped when the maximum amount of iterations are reached or when
+    the stopping criterion is satisfied. There are no other stopping criteria,
+    hence the solver should not be used outside of the context of solving the
+    inner iteration of SR3.
+
+    Parameters
+    ----------
+    Op: :obj:`pylops.LinearOperator`
+        Forward operator. This is the stacked operator
+        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
+    data: :obj:`numpy.ndarray`
+        Data
+    iter_lim: :obj:`int`
+        Maximum number of iterations
+    z_old: :obj:`numpy.ndarray`
+        The previous outer iteration
+    x0: :obj:`numpy.ndarray`
+       initial guess
+    kappa: :obj:`float`
+        The regularization parameter for the inner iteration
+    eps: :obj:`float`
+        The regularization parameter for the outer iteration
+    Reg: :obj:`numpy.ndarray`
+        The regularization operator L
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution
+
+    """
+    data -= Op.matvec(x0)
+    x = x0
+    beta = np.linalg.norm(data)
+    if beta == 0:
+        return x
+    u = data / beta
+    v = Op.rmatvec(u)
+    alpha = np.linalg.norm(v)
+    if alpha == 0:
+        return x
+    v = v / alpha
+    w = v
+    phi_bar = beta
+    rho_bar = alpha
+    for _ in range(iter_lim):
+        u = Op.matvec(v) - alpha * u
+        beta = np.linalg.norm(u)
+        if beta > 0:
+            u = u / beta
+        v = Op.rmatvec(u) - beta * v
+        alpha = np.linalg.norm(v) if beta > 0 else 0.0
+        if alpha > 0:
+            v = v / alpha
+        rho = np.sqrt(rho_bar**2 + beta**2)
+        c = rho_bar / rho
+        s = beta / rho
+        theta = s * alpha
+        rho_bar = -c * alpha
+        phi = c * phi_bar
+        phi_bar = s * phi_bar
+        x = x + (phi / rho) * w
+        if alpha == 0:
+            # exact solution found, the bidiagonalization has terminated
+            return x
+        temp = Reg.matvec(x)
+        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
+        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
+            return x
+        w = v - (theta / rho) * w
+        z_old = z
+    return x
+
+
+def SR3(
+    Op: "LinearOperator",
+    Reg: "LinearOperator",
+    data: NDArray,
+    kappa: float,
+    eps: float,
+    x0: NDArray | None = None,
+    adaptive: bool = True,
+    iter_lim_outer: int = 100,
+    iter_lim_inner: int = 100,
+) -> NDArray:
+    r"""Sparse Relaxed Regularized Regression
+
+    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
+    an inverse problem with a sparsity constraint of the form
+
+    .. math::
+
+        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
+        \lambda\Vert \mathbf{Lx}\Vert_1
+
+    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
+    and instead solves
+
+    .. math::
+
+        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
+        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
+        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
+
+    Parameters
+    ----------
+    Op : :obj:`pylops.LinearOperator`
+        Forward operator
+    Reg : :obj:`numpy.ndarray`
+        Regularization operator
+    data : :obj:`numpy.ndarray`
+        Data
+    kappa : :obj:`float`
+        Parameter controlling the difference between :math:`\mathbf{z}`
+        and :math:`\mathbf{Lx}`
+    eps : :obj:`float`
+        Regularization parameter
+    x0 : :obj:`numpy.ndarray`, optional
+        Initial guess
+    adaptive : :obj:`bool`, optional
+        Use adaptive SR3 with a stopping criterion for the inner iterations
+        or not
+    iter_lim_outer : :obj:`int`, optional
+        Maximum number of iterations for the outer iteration
+    iter_lim_inner : :obj:`int`, optional
+        Maximum number of iterations for the inner iteration
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution.
+
+    Notes
+    -----
+    SR3 uses the following algorithm:
+
+        .. math::
+            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
+            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
+            \kappa \mathbf{L}^T\mathbf{y}_k) \\
+            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
+            (\mathbf{Lx}_{k+1})
+
+    """
+    (m, n) = Op.shape
+    if x0 is None:
+        x0 = np.zeros(n)
+    x = x0.copy()
+    p = Reg.shape[0]
+    v = np.zeros(p)
+    w = v
+    eta = 1 / kappa
+    theta = 1
+    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
+    for _ in range(iter_lim_outer):
+        # Compute the inner iteration
+        if adaptive:
+            x = _lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim_inner,
+                v,
+                x,
+                kappa,
+                eps,
+                Reg,
+            )
+        else:
+            rhs = np.concatenate((data, np.sqrt(kappa) * v))
+            x = sp_lsqr(
+                AL,
+                rhs,
+                iter_lim=iter_lim_inner,
+                x0=x if np.any(rhs) else None,
+            )[0]
+        # Compute the outer iteration
+        w_old = w
+        temp = Reg.matvec(x)
+        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
+        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
+        if err1 < 1e-6:
+            return x
+        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
+        v = w + (1 - theta) * (w - w_old)
+    return x
-- 
2.43.0


From 537809fb15962c118c602c78f9b9eae6f4f02740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 60/70] fix: TV proximal accepts integer inputs

---
 pyproximal/proximal/TV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index b9813ba..df31267 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -97,7 +97,7 @@ class TV(ProxOperator):
         # TODO implement test_gamma
 
         # Initialization
-        x = x.reshape(self.dims)
+        x = x.reshape(self.dims).astype(np.result_type(x, np.float32), copy=False)
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-- 
2.43.0


From d5d9f67d3ef832f4fa3361523578680fbf5ae84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 61/70] fix: factorized L2 proximal keeps factor and step
 together across threads

---
 pyproximal/proximal/L2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 2d2f96b..c40a9cb 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -178,7 +178,7 @@ class L2(ProxOperator):
         # when using factorize, store the first tau*sigma=0 so that the
         # first time it will be recomputed (as tau cannot be 0)
         if self.densesolver == "factorize":
-            self.tausigma = 0.0
+            self.cl: tuple[float, Any] = (0.0, None)
 
         # create data term
         if (
@@ -239,12 +239,14 @@ class L2(ProxOperator):
                     else:
                         x = Op1.div(y, densesolver=self.densesolver)
                 else:
-                    if self.tausigma != tau * self.sigma:
+                    tausigma, cl = self.cl
+                    if tausigma != tau * self.sigma:
                         # recompute factorization
-                        self.tausigma = tau * self.sigma
-                        ATA = np.eye(self.Op.shape[1]) + self.tausigma * self.ATA
-                        self.cl = cho_factor(ATA)
-                    x = cho_solve(self.cl, y)
+                        tausigma = tau * self.sigma
+                        ATA = np.eye(self.Op.shape[1]) + tausigma * self.ATA
+                        cl = cho_factor(ATA)
+                        self.cl = (tausigma, cl)
+                    x = cho_solve(cl, y)
             elif self.normaleqs:
                 Op1 = Identity(self.Op.shape[1], dtype=self.Op.dtype) + float(
                     tau * self.sigma
-- 
2.43.0


From aa54a97d0dc6819bb73d78530c718081d252824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 62/70] fix: parallel Dykstra prox does not stop while its
 proximal points disagree

---
 pyproximal/proximal/_Dykstra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 475b3f6..6ccea50 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -112,7 +112,8 @@ def parallel_dykstra_prox(
         x = ncp.sum(w[:, None] * prox_z, axis=0)
         z = z + x - prox_z
 
-        if ncp.abs(x - x_old).max() < tol:
+        # the average may stall while the proximal points still disagree
+        if max(ncp.abs(x - x_old).max(), ncp.abs(prox_z - x).max()) < tol:
             break
 
     return x
-- 
2.43.0


From 0ae961e07b31fa053b94f7e309902c9c5fa51137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 63/70] fix: AndersonProximalGradient mixes complex residuals
 with their Gram matrix

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 152cfd9..82d2603 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -651,7 +651,7 @@ def AndersonProximalGradient(
         # solve for alpha coefficients
         Rstack = np.vstack(R)
         Rinv = np.linalg.pinv(
-            Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2 * np.eye(len(R))
+            Rstack.conj() @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2 * np.eye(len(R))
         )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
-- 
2.43.0


From 1fcf558a93326a05bf5a0b4ef9bde20c6e10b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 64/70] fix: linear and quadratic values are real and match
 their gradients for complex variables

---
 pyproximal/ProxOperator.py       | 2 +-
 pyproximal/proximal/L2.py        | 2 +-
 pyproximal/proximal/Quadratic.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index 8d44c62..22fbb6f 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -345,7 +345,7 @@ class _SumOperator(ProxOperator):
         super().__init__(None, f.hasgrad)
 
     def __call__(self, x: NDArray) -> float:
-        f: float = self.f(x) + np.dot(self.v, x)
+        f: float = self.f(x) + np.real(np.vdot(self.v, x))
         return f
 
     @_check_tau
diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index c40a9cb..a93d2b7 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -199,7 +199,7 @@ class L2(ProxOperator):
         else:
             f = (self.sigma / 2.0) * (np.linalg.norm(x) ** 2)
         if self.q is not None:
-            f += self.alpha * np.dot(self.q, x)
+            f += self.alpha * np.real(np.vdot(self.q, x))
         return float(f)
 
     def _increment_count(func: Callable[..., Any]) -> Callable[..., Any]:
diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index d7fad27..b28aa23 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -93,9 +93,9 @@ class Quadratic(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         if self.Op is not None and self.b is not None:
-            f = np.dot(x, self.Op * x) / 2.0 + np.dot(self.b, x) + self.c
+            f = np.real(np.vdot(x, self.Op * x) / 2.0 + np.vdot(self.b, x)) + self.c
         elif self.b is not None:
-            f = np.dot(self.b, x) + self.c
+            f = np.real(np.vdot(self.b, x)) + self.c
         else:
             f = self.c
         return float(f)
-- 
2.43.0


From 5c7c7fe5db009fda3ba4caf71b49ae1fc79b44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 65/70] fix: TV proximal with zero weight returns its input
 instead of nan

---
 pyproximal/proximal/TV.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index df31267..d2d11f2 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -99,6 +99,9 @@ class TV(ProxOperator):
         # Initialization
         x = x.reshape(self.dims).astype(np.result_type(x, np.float32), copy=False)
         sol = x
+        # the dual updates divide by gamma: a zero weight leaves x unchanged
+        if gamma == 0.0:
+            return sol.ravel().copy()
         if self.ndim == 1:
             derivOp = FirstDerivative(
                 dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
-- 
2.43.0


From bb2093e2f36527494215b21d9367a410c85d3ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 66/70] fix: RelaxedMumfordShah proximal with zero sigma does
 not divide by zero

---
 pyproximal/proximal/RelaxedMS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/RelaxedMS.py b/pyproximal/proximal/RelaxedMS.py
index a583742..1f4d252 100644
--- a/pyproximal/proximal/RelaxedMS.py
+++ b/pyproximal/proximal/RelaxedMS.py
@@ -100,7 +100,7 @@ class RelaxedMumfordShah(ProxOperator):
         kappa = _current_sigma(self.kappa, self.count)
 
         x = np.where(
-            np.abs(x) <= np.sqrt(kappa / sigma * (1 + 2 * tau * sigma)),
+            np.sqrt(sigma) * np.abs(x) <= np.sqrt(kappa * (1 + 2 * tau * sigma)),
             _l2(x, tau * sigma),
             x,
         )
-- 
2.43.0


From baef478707dfec65a96156f04d4c21e20b71aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 67/70] fix: L21 and Euclidean steps with zero sigma return
 zero at zero instead of nan

---
 pyproximal/proximal/Euclidean.py | 9 +++++----
 pyproximal/proximal/L21.py       | 8 ++++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyproximal/proximal/Euclidean.py b/pyproximal/proximal/Euclidean.py
index 4e1a939..8907b87 100644
--- a/pyproximal/proximal/Euclidean.py
+++ b/pyproximal/proximal/Euclidean.py
@@ -48,14 +48,15 @@ class Euclidean(ProxOperator):
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-        x = (
-            1.0 - (tau * self.sigma) / max(float(np.linalg.norm(x)), tau * self.sigma)
-        ) * x
+        # a zero denominator (zero input and weight) leaves the zero input as it is
+        denom = max(float(np.linalg.norm(x)), tau * self.sigma) or 1.0
+        x = (1.0 - (tau * self.sigma) / denom) * x
         return x
 
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
-        x = self.sigma * x / (max(float(np.linalg.norm(x)), self.sigma))
+        denom = max(float(np.linalg.norm(x)), self.sigma) or 1.0
+        x = self.sigma * x / denom
         return x
 
     def grad(self, x: NDArray) -> NDArray:
diff --git a/pyproximal/proximal/L21.py b/pyproximal/proximal/L21.py
index 5cf2f17..2ee6966 100644
--- a/pyproximal/proximal/L21.py
+++ b/pyproximal/proximal/L21.py
@@ -73,7 +73,9 @@ class L21(ProxOperator):
         x = x.reshape(self.ndim, len(x) // self.ndim)
         aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
-        x = (1 - (tau * self.sigma) / np.maximum(aux, tau * self.sigma)) * x.ravel()
+        denom = np.maximum(aux, tau * self.sigma)
+        denom[denom == 0] = 1.0  # zero columns with zero weight
+        x = (1 - (tau * self.sigma) / denom) * x.ravel()
         return x
 
     @_check_tau
@@ -81,5 +83,7 @@ class L21(ProxOperator):
         x = x.reshape(self.ndim, len(x) // self.ndim)
         aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
-        x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)
+        denom = np.maximum(aux, self.sigma)
+        denom[denom == 0] = 1.0  # zero columns with zero weight
+        x = self.sigma * x.ravel() / denom
         return x
-- 
2.43.0


From 81b26f176597a01ecacc7f5050908b30b0f2e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 68/70] fix: Sum without terms raises ValueError instead of
 ZeroDivisionError

---
 pyproximal/proximal/Sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Sum.py b/pyproximal/proximal/Sum.py
index b386050..6b6dbfe 100644
--- a/pyproximal/proximal/Sum.py
+++ b/pyproximal/proximal/Sum.py
@@ -125,7 +125,7 @@ class Sum(ProxOperator):
         self.use_original_tau = use_original_tau
 
         if weights is None:
-            self.w = [1.0 / len(self.ops)] * len(self.ops)
+            self.w = [1.0 / len(self.ops) for _ in self.ops]
         else:
             self.w = weights
 
-- 
2.43.0


From 991c77932e134cc5c4876a68d9c90b8bae6c54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:58 +0000
Subject: [PATCH 69/70] fix: backtracking mistakes rounding for a too large
 step and shrinks tau for good near convergence

---
 pyproximal/optimization/palm.py   | 5 ++++-
 pyproximal/optimization/primal.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index c150944..ee67b11 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -41,6 +41,9 @@ def _backtracking(
             + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
+    # close to convergence both sides of the condition agree up to rounding, which
+    # must not be mistaken for a too large step (tau would shrink for good)
+    rounding = 10 * np.finfo(np.result_type(x[ix], np.float32)).eps
     iiterback = 0
     if ix == 0:
         grad = H.gradx(x[ix])
@@ -53,7 +56,7 @@ def _backtracking(
             z[ix] = proxf.prox(z[ix], tau)
         ft = ftilde(z[ix], x, H, grad, tau, ix)
         f = H(*z)
-        if f <= ft or tau < 1e-12:
+        if f <= ft + rounding * np.abs(ft) or tau < 1e-12:
             break
         tau *= beta
         iiterback += 1
diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 82d2603..adac3a5 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -42,11 +42,14 @@ def _backtracking(
             + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
+    # close to convergence both sides of the condition agree up to rounding, which
+    # must not be mistaken for a too large step (tau would shrink for good)
+    rounding = 10 * np.finfo(np.result_type(x, np.float32)).eps
     iiterback = 0
     while iiterback < niterback:
         z = proxg.prox(x - tau * proxf.grad(x), epsg * tau)
         ft = ftilde(z, x, proxf, tau)
-        if proxf(z) <= ft:
+        if proxf(z) <= ft + rounding * np.abs(ft):
             break
         tau *= beta
         iiterback += 1
-- 
2.43.0


From a262f727aed7a4e17aadfceb9199f19acffa31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 70/70] fix: numba Simplex overflows for large inputs and caps
 the radius at 1e10

---
 pyproximal/proximal/Simplex.py        | 18 +++++++-----------
 pyproximal/proximal/_Simplex_numba.py |  4 ++--
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/pyproximal/proximal/Simplex.py b/pyproximal/proximal/Simplex.py
index aa13c51..245650e 100644
--- a/pyproximal/proximal/Simplex.py
+++ b/pyproximal/proximal/Simplex.py
@@ -110,29 +110,25 @@ class _Simplex_numba(_Simplex):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         if self.dims is None:
-            bisect_lower = -1
-            while (
-                fun_jit(bisect_lower, x, self.coeffs, self.radius, 0, 10000000000) < 0
-            ):
+            bisect_lower = -1.0
+            while fun_jit(bisect_lower, x, self.coeffs, self.radius, 0, np.inf) < 0:
                 bisect_lower *= 2
-            bisect_upper = 1
-            while (
-                fun_jit(bisect_upper, x, self.coeffs, self.radius, 0, 10000000000) > 0
-            ):
+            bisect_upper = 1.0
+            while fun_jit(bisect_upper, x, self.coeffs, self.radius, 0, np.inf) > 0:
                 bisect_upper *= 2
             c = bisect_jit(
                 x,
                 self.coeffs,
                 self.radius,
                 0,
-                10000000000,
+                np.inf,
                 bisect_lower,
                 bisect_upper,
                 self.maxiter,
                 self.ftol,
                 self.xtol,
             )
-            y = np.minimum(np.maximum(x - c * self.coeffs, 0), 10000000000)
+            y = np.minimum(np.maximum(x - c * self.coeffs, 0), np.inf)
         else:
             x = x.reshape(self.dims)
             if self.axis == 0:
@@ -142,7 +138,7 @@ class _Simplex_numba(_Simplex):
                 self.coeffs,
                 self.radius,
                 0,
-                10000000000,
+                np.inf,
                 self.maxiter,
                 self.ftol,
                 self.xtol,
diff --git a/pyproximal/proximal/_Simplex_numba.py b/pyproximal/proximal/_Simplex_numba.py
index 177e8e3..38311f6 100644
--- a/pyproximal/proximal/_Simplex_numba.py
+++ b/pyproximal/proximal/_Simplex_numba.py
@@ -111,10 +111,10 @@ def simplex_jit(
     """
     y = np.zeros_like(x)
     for i in range(x.shape[0]):
-        bisect_lower = -1
+        bisect_lower = -1.0
         while fun_jit(bisect_lower, x[i], coeffs, scalar, lower, upper) < 0:
             bisect_lower *= 2
-        bisect_upper = 1
+        bisect_upper = 1.0
         while fun_jit(bisect_upper, x[i], coeffs, scalar, lower, upper) > 0:
             bisect_upper *= 2
         c = bisect_jit(
-- 
2.43.0

