From 3ec5deedb891ea91fc4e650fb9fb80105b218dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 01/32] fix: genQDeltaCoeffs must not extend the list given by
 the caller

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 6aebf15..61286be 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -274,7 +274,7 @@ def genQDeltaCoeffs(qDeltaType, nSweeps=None, form="Z2N", dTau=False, **params):
             # complete with additional sweeps
             assert nSweeps >= len(qDeltaType), \
                 f"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})"
-            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
+            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
         else:
             raise ValueError(f"bad value of nSweep {nSweeps}")
     else:
-- 
2.43.0


From a1af4b55e422bdb765bf7706c552980a0c4a586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 02/32] fix: QDeltaGenerator.genCoeffs must not hand out its
 internal matrix

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 61286be..7114cf7 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -196,7 +196,7 @@ class QDeltaGenerator(object):
             If `dTau=True`, returns a tuple `(QDelta, dTau)`.
         """
         if form == "Z2N":
-            gen = lambda k, copy=False: self.getQDelta(k, copy)
+            gen = lambda k, copy=True: self.getQDelta(k, copy)
         elif form == "N2N":
             gen = lambda k, copy=None: self.getSDelta(k)
         else:
-- 
2.43.0


From 5a5d0cf8c8cc5e90144235df3b96a1e9bb089e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 03/32] fix: QGenerator.genCoeffs must not hand out the
 scheme's own arrays

---
 qmat/qcoeff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index dc58760..c3074cc 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -117,7 +117,7 @@ class QGenerator(object):
             mat = self.S
         else:
             raise ValueError(f"form must be Z2N or N2N, not {form}")
-        out = [self.nodes, self.weights, mat]
+        out = [np.array(coeff) for coeff in (self.nodes, self.weights, mat)]
         if embedded:
             out[1] = np.vstack([out[1], self.weightsEmbedded])
         if hCoeffs:
-- 
2.43.0


From 32d2ef373336f0b80fa82c3b2462ea3324da2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 04/32] fix: RK padding must also pad the embedded weights

---
 qmat/qcoeff/butcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9d46bdb..2a1f592 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -51,6 +51,8 @@ class RK(QGenerator):
             if padding in ["LEFT", "BOTH"]:
                 self.c = np.array([0] + self.c.tolist())
                 self.b = np.array([0] + self.b.tolist())
+                if self.b2 is not None:
+                    self.b2 = np.array([0] + self.b2.tolist())
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[1:, 1:] = self.A
@@ -59,6 +61,8 @@ class RK(QGenerator):
             if padding in ["RIGHT", "BOTH"]:
                 self.c = np.array(self.c.tolist() + [1])
                 self.b = np.array(self.b.tolist() + [0])
+                if self.b2 is not None:
+                    self.b2 = np.array(self.b2.tolist() + [0])
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[:-1, :-1] = self.A
-- 
2.43.0


From 31e1804aef7115e5625e3357be8c92ec1893cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 05/32] fix: Collocation hCoeffs and rightIsNode must use
 tRight as right boundary

---
 qmat/qcoeff/collocation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index ff7dcee..7de3e45 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -91,7 +91,11 @@ class Collocation(QGenerator):
 
     @property
     def hCoeffs(self)->np.ndarray:
-        return self.approx.getInterpolationMatrix([1]).ravel()
+        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
+
+    @property
+    def rightIsNode(self)->bool:
+        return self.nodes[-1] == self.tRight
 
     @property
     def order(self)->int:
-- 
2.43.0


From 6d6ec3535b726222e58bcc9c624379bbb2a650c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 06/32] fix: Collocation must only set to the boundaries the
 nodes that are boundaries

---
 qmat/qcoeff/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index 7de3e45..78b641b 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -56,8 +56,8 @@ class Collocation(QGenerator):
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-        if np.allclose(tLeft, nodes[0]): nodes[0] = tLeft
-        if np.allclose(tRight, nodes[-1]): nodes[-1] = tRight
+        if quadType in ["LOBATTO", "RADAU-LEFT"]: nodes[0] = tLeft
+        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
         self._nodes = nodes
 
         # Lagrange approximation based on nodes
-- 
2.43.0


From 6fb2e3d1c05a5a46b93b5f028c31ca7a668cd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 07/32] fix: RK53 second stage coefficient must be consistent
 with its node (3/16)

---
 qmat/qcoeff/butcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 2a1f592..4e2c0b3 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -219,7 +219,7 @@ class RK53(RK):
     aliases = ["ERK53"]
     A = [[0, 0, 0, 0, 0],
          [1/7, 0, 0, 0, 0],
-         [0, 3/13, 0, 0, 0],
+         [0, 3/16, 0, 0, 0],
          [0, 0, 1/3, 0, 0],
          [0, 0, 0, 2/3, 0]]
     b = [1/4, 0, 0, 0, 3/4]
-- 
2.43.0


From a0e2e2e49939a32286f5164e8a9694d5f7e71886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 08/32] fix: BEPAR, TRAPAR and SOE with a left bound different
 from zero

---
 qmat/qdelta/timestepping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 5b64d15..7c38018 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -118,7 +118,7 @@ class BEPAR(TimeStepping):
     aliases = ["IEpar"]
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)
 
 
 @register
@@ -126,11 +126,11 @@ class TRAPAR(TimeStepping):
     """Approximation based on parallel Trapezoidal Rule from zero to nodes"""
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes/2) - self.tLeft
+        return np.diag((self.nodes - self.tLeft)/2)
 
     @property
     def dTau(self)->np.ndarray:
-        return self.nodes/2.0 - self.tLeft
+        return (self.nodes - self.tLeft)/2.0
 
 
 @register
@@ -141,7 +141,7 @@ class SOE(TimeStepping):
 
     def computeQDelta(self, k=None):
         QDelta, M = self.zeros, self.nodes.size
-        times = [0] + self.nodes.tolist()
+        times = [self.tLeft] + self.nodes.tolist()
         alpha = [
             LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
             for i in range(M-1)
-- 
2.43.0


From 8f9729b6d6ec9d35c015796a7185612f9320761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 09/32] fix: time-stepping QDelta must not truncate node
 differences of integer nodes

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 7c38018..1d51451 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.asarray(nodes)
+        nodes = np.asarray(nodes, dtype=float)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From 758c421f5ee9a97e688eee033fd46949ff4399b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 10/32] fix: time-stepping QDelta must extract the left bound
 from qGen

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 1d51451..8d46d54 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -58,7 +58,7 @@ class TimeStepping(QDeltaGenerator):
         required to instantiate the :math:`Q_\Delta`-generator
         """
         assert isinstance(qGen, QGenerator), "qGen parameter must be a QGenerator object"
-        return {"nodes": qGen.nodes}
+        return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}
 
     @property
     def size(self)->int:
-- 
2.43.0


From 73408263ef56cd23ee1685ba99a1f42d2b047d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 11/32] fix: barycentric weights must follow the order of the
 given points

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ab84845..ffe3583 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -175,7 +175,7 @@ class LagrangeApproximation(object):
             self.points = self.uniquePoints = points
             self._handleDuplicates = self._passThrough
 
-        points = uniques  # require unique points for weight computation
+        points = self.uniquePoints  # require unique points for weight computation
 
         diffs = points[:, None] - points[None, :]
         diffs[np.diag_indices_from(diffs)] = 1
-- 
2.43.0


From 8a94637ec530415da0d2f8a06cbfeedda8dd27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 12/32] fix: AUTO weights must use the STABLE algorithm when
 FAST overflows or underflows

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ffe3583..7cf5604 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,7 +211,7 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='ignore'):
+            with np.errstate(divide='raise', over='raise', under='raise'):
                 try:
                     invProd = analytic(diffs)
                 except FloatingPointError:
-- 
2.43.0


From 14dd0a42e18c9a1b80c9cb49ea9a3feb2b93ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 13/32] fix: CHEBFUN weights for a single point

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 7cf5604..4a1a858 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -202,7 +202,8 @@ class LagrangeApproximation(object):
 
         def chebfun(diffs):
             # Implementation used in chebfun
-            diffs *= 4 / (points.max() - points.min())
+            if points.size > 1:
+                diffs *= 4 / (points.max() - points.min())
             sign = np.sign(diffs).prod(axis=1)
             vv = np.exp(np.log(np.abs(diffs)).sum(axis=1))
             invProd = (sign * vv)
-- 
2.43.0


From 8f51753d84549f2eb1c6c67ea2d2c2a60942e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 14/32] fix: sparse interpolation must only reuse a line for
 identical stencils

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 4a1a858..b6e697e 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -585,7 +585,8 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
-        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints):
+        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(
+                closestPoints, lastClosestPoints, rtol=0, atol=1e-13*np.ptp(closestPoints)):
             interpolationLine = lastInterpolationLine
         else:
             interpolator = LagrangeApproximation(points = closestPoints)
-- 
2.43.0


From 097bddb2d61385101fb22e84aec4c183dce1c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 15/32] fix: a rejected class must leave nothing in the
 registry

---
 qmat/utils/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 5082079..1c90c4d 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -46,13 +46,18 @@ def storeAlias(cls, dico, alias):
 
 def storeClass(cls, dico):
     """Store a class into a dictionary"""
-    storeAlias(cls, dico, cls.__name__)
+    names = [cls.__name__]
     aliases = getattr(cls, "aliases", None)
     if aliases:
         assert isinstance(aliases, list), \
             f"aliases must be a list in class {cls.__name__}"
-        for alias in aliases:
-            storeAlias(cls, dico, alias)
+        names += aliases
+    # Check all names before storing any of them
+    for i, name in enumerate(names):
+        assert name not in dico and name not in names[:i], \
+            f"{name} alias already registered in {dico}"
+    for name in names:
+        storeAlias(cls, dico, name)
 
 
 def importAll(localVars, __all__, __path__, __name__, __import__):
-- 
2.43.0


From a9b1152dfe6f3e4c09c56758c65fcf402aa2def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 16/32] fix: a RK scheme rejected by register must not stay in
 RK_SCHEMES

---
 qmat/qcoeff/butcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 4e2c0b3..4928c61 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -101,7 +101,7 @@ RK_SCHEMES:dict[str, type[RK]] = {}
 """Dictionary storing all the implemented RK methods"""
 
 def checkAndStore(cls:RK) -> RK:
-    """Check that a `RK`-inherited class is correctly implemented (and store it into the :class:`RK_SCHEMES` dict)"""
+    """Check that a `RK`-inherited class is correctly implemented (and register it, and store it into the :class:`RK_SCHEMES` dict)"""
     cls.A = np.array(cls.A, dtype=float)
     cls.b = np.array(cls.b, dtype=float)
     cls.c = np.array(cls.c, dtype=float)
@@ -118,12 +118,13 @@ def checkAndStore(cls:RK) -> RK:
     assert cls.order is not None, \
         f"order not defined for {cls.__name__}"
 
+    register(cls)
     storeClass(cls, RK_SCHEMES)
     return cls
 
 def registerRK(cls:RK)->RK:
     """Class decorator registering a RK method in `qmat`"""
-    return register(checkAndStore(cls))
+    return checkAndStore(cls)
 
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 26bf4c0abdccb655c07b305f46694c08dd7f9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 17/32] fix: Radau and Lobatto nodes must not underflow with
 many nodes

---
 qmat/nodes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qmat/nodes.py b/qmat/nodes.py
index ccb5810..25334ff 100644
--- a/qmat/nodes.py
+++ b/qmat/nodes.py
@@ -211,11 +211,13 @@ class NodesGenerator(object):
         # If not Gauss quadrature type, modify the alpha/beta coefficients
         if self.quadType.startswith('RADAU'):
             b = -1.0 if self.quadType.endswith('LEFT') else 1.0
-            b1, b2 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]
-            alpha[-1] = b - beta[-1] * b1 / b2
+            # Evaluation scaled by 2^n, to avoid underflow with many nodes
+            b1, b2 = self.evalOrthogPoly(2*b, 2*alpha[:-1], 4*beta[:-1])[:2]
+            alpha[-1] = b - beta[-1] * 2 * b1 / b2
         elif self.quadType == 'LOBATTO':
             a, b = -1.0, 1.0
-            a2, a1 = self.evalOrthogPoly(a, alpha[:-1], beta[:-1])[:2]
-            b2, b1 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]
-            alpha[-1], beta[-1] = np.linalg.solve([[a1, a2], [b1, b2]], [a * a1, b * b1])
+            # Evaluation scaled by 2^n, to avoid underflow with many nodes
+            a2, a1 = self.evalOrthogPoly(2*a, 2*alpha[:-1], 4*beta[:-1])[:2]
+            b2, b1 = self.evalOrthogPoly(2*b, 2*alpha[:-1], 4*beta[:-1])[:2]
+            alpha[-1], beta[-1] = np.linalg.solve([[a1, 2*a2], [b1, 2*b2]], [a * a1, b * b1])
         return alpha, beta
-- 
2.43.0


From 7d23faec20d21a80db7da36dda6d5766270563e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 18/32] fix: refuse Runge-Kutta tables with missing nodes or
 inconsistent (embedded) weights

---
 qmat/qcoeff/butcher.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 4928c61..337e500 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -109,9 +109,13 @@ def checkAndStore(cls:RK) -> RK:
     if cls.b2 is not None:
         cls.b2 = np.array(cls.b2, dtype=float)
 
-    assert cls.b.shape[-1] == cls.c.size, \
-        f"b (size {cls.b.shape[-1]}) and c (size {cls.c.size})" + \
+    assert cls.c.ndim == 1, \
+        f"c (shape {cls.c.shape}) is not one dimensional in {cls.__name__}"
+    assert cls.b.shape == cls.c.shape, \
+        f"b (shape {cls.b.shape}) and c (size {cls.c.size})" + \
         f" have not the same size in {cls.__name__}"
+    assert cls.b2 is None or cls.b2.shape == cls.c.shape, \
+        f"b2 and c (size {cls.c.size}) have not the same size in {cls.__name__}"
     assert cls.A.shape == (cls.c.size, cls.c.size), \
         f"A (shape {cls.A.shape}) and c (size {cls.b.size})" + \
         f" have inconsistent dimensions in {cls.__name__}"
-- 
2.43.0


From 4339b8befabeac6d28dd9b5ab0fb6f45d523dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:05 +0000
Subject: [PATCH 19/32] fix: extrapolation must not overflow with integer nodes

---
 qmat/utils/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/utils/num.py b/qmat/utils/num.py
index bbc6a94..9605af1 100644
--- a/qmat/utils/num.py
+++ b/qmat/utils/num.py
@@ -107,7 +107,7 @@ def getExtrapolationMatrix(nodes, times, pOrder=None):
         Extrapolation matrix, that can be used on any node values.
     """
     if pOrder is None: pOrder = np.size(nodes)-1
-    X = np.vander(nodes, N=pOrder+1, increasing=True)
-    T = np.vander(times, N=pOrder+1, increasing=True)
+    X = np.vander(np.asarray(nodes, dtype=float), N=pOrder+1, increasing=True)
+    T = np.vander(np.asarray(times, dtype=float), N=pOrder+1, increasing=True)
     P = T @ np.linalg.solve(X.T @ X, X.T)
     return P
\ No newline at end of file
-- 
2.43.0


From 0d723e61bfd506f6f648cf87474f5c0219619c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:55 +0000
Subject: [PATCH 20/32] fix: periodic sparse interpolation for a grid that is
 not within [0, period]

The output points were moved into [0, period], so the closest points were
searched in the wrong period if the grid lies elsewhere.
---
 qmat/lagrange.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index b6e697e..a2a459a 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -572,9 +572,11 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
 
     for i in range(len(outPoints)):
         if gridPeriod > 0:
-            pathL = (inPoints - gridPeriod - outPoints[i] % gridPeriod)
-            pathR = (inPoints + gridPeriod - outPoints[i] % gridPeriod)
-            pathC = (inPoints - outPoints[i] % gridPeriod)
+            # Shift the output point to the period starting with the grid
+            outPoint = outPoints[i] - gridPeriod*np.floor((outPoints[i] - np.min(inPoints))/gridPeriod)
+            pathL = (inPoints - gridPeriod - outPoint)
+            pathR = (inPoints + gridPeriod - outPoint)
+            pathC = (inPoints - outPoint)
             path = np.append(np.append(pathR, pathL), pathC)
             dist = np.abs(path)
             _closestPointsIdx = np.sort(np.argsort(dist)[:order])
-- 
2.43.0


From 884dc6ce2da60c5ebd5c33daf4d01e302b5a40d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:55 +0000
Subject: [PATCH 21/32] fix: lduFactorization dropped the imaginary part of
 complex matrices

---
 qmat/utils/num.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmat/utils/num.py b/qmat/utils/num.py
index 9605af1..ce6099f 100644
--- a/qmat/utils/num.py
+++ b/qmat/utils/num.py
@@ -66,9 +66,10 @@ def lduFactorization(A:np.ndarray):
     assert n == m, "Matrix A must be square."
 
     # Initialize L, D, U matrices
-    L = np.eye(n)
-    D = np.zeros((n, n))
-    U = np.eye(n)
+    dtype = np.result_type(A, float)
+    L = np.eye(n, dtype=dtype)
+    D = np.zeros((n, n), dtype=dtype)
+    U = np.eye(n, dtype=dtype)
 
     # Decompose A into L, D, U
     for i in range(n):
-- 
2.43.0


From 94e55f94d006e6849fbf5a877218b4759d3169d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:55 +0000
Subject: [PATCH 22/32] fix: subclass of a k-dependent QDelta generator that
 does not depend on k was announced as k-dependent

The flag was inherited from the base class and never set back when the
subclass is registered.
---
 qmat/qdelta/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 7114cf7..8091e83 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -222,8 +222,7 @@ def register(cls: type[T]) -> type[T]:
         sig = inspect.signature(cls.computeQDelta)
         par = sig.parameters["k"]
         assert par.kind == par.POSITIONAL_OR_KEYWORD
-        if par.default is not None:
-            cls._K_DEPENDENT = True
+        cls._K_DEPENDENT = par.default is not None
     except (KeyError, AssertionError):
         raise AssertionError(f"{cls.__name__} class does not properly override the computeQDelta method")
     cls.__init__ = useQGen(cls.__init__)
-- 
2.43.0


From 1945feed8fe68d5b7fab2a268275160b5eac4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:55 +0000
Subject: [PATCH 23/32] fix: solveDahlquistSDC accepted a Q matrix that is not
 square

---
 qmat/utils/sdc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmat/utils/sdc.py b/qmat/utils/sdc.py
index 2027b1a..9f0b251 100644
--- a/qmat/utils/sdc.py
+++ b/qmat/utils/sdc.py
@@ -42,6 +42,8 @@ def solveDahlquistSDC(lam, u0, tEnd, nSteps:int, nSweeps:int, Q:np.ndarray, QDel
     dt = tEnd/nSteps
     times = np.linspace(0, tEnd, nSteps+1)
 
+    assert Q.shape == (nNodes, nNodes), "Q is not a square matrix"
+
     QDelta = np.asarray(QDelta)
     if QDelta.ndim == 3:
         assert QDelta.shape == (nSweeps, nNodes, nNodes), "inconsistent shape for QDelta"
-- 
2.43.0


From e72eb342ddfcd13ec14bba14e968f37da71d2406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 24/32] fix: integration over intervals given with unsigned or
 small integers

The lengths and centers of the intervals were computed in the integer type
of the array, with which reversed intervals wrap around (unsigned types)
and the sums of the bounds overflow (8 and 16 bits).
---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index a2a459a..a272dc4 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -402,7 +402,7 @@ class LagrangeApproximation(object):
             The integration matrix, with :math:`M` rows (number of intervals)
             and :math:`n` columns.
         """
-        intervals = np.array(intervals)
+        intervals = np.array(intervals, dtype=float)
         assert intervals.ndim == 2, "intervals is not a 2D array"
         assert intervals.shape[1] == 2, "intervals must contains only pairs"
 
-- 
2.43.0


From 0eb92632d65a8002869b331c9f36896d6864919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 25/32] fix: sparse interpolation for points given with
 unsigned or small integers

The distances were computed in the integer type of the arrays, with which
they wrap around.
---
 qmat/lagrange.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index a272dc4..85ddf53 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -564,6 +564,9 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
     """
     import scipy.sparse as sp
 
+    inPoints = np.asarray(inPoints, dtype=float)
+    outPoints = np.asarray(outPoints, dtype=float)
+
     assert order <= len(inPoints), f'Cannot interpolate {len(inPoints)} to order {order}! Please reduce order'
 
     A = sp.lil_matrix((len(outPoints), len(inPoints)))
-- 
2.43.0


From 0e500e557e1aa49854501be535bb9bd2b8d3ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 26/32] fix: divided nodes given with small integers or floats

The nodes were divided in their own type: dividers above 255 were refused for
an array of 8 bits integers, and quotients of short floats were rounded to it.
---
 qmat/qdelta/diag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/diag.py b/qmat/qdelta/diag.py
index 7355aed..b7cda30 100644
--- a/qmat/qdelta/diag.py
+++ b/qmat/qdelta/diag.py
@@ -125,7 +125,7 @@ class MIN_SR_NS(QDeltaGenerator):
     aliases = ["MIN-SR-NS", "MIN_GT"]
 
     def __init__(self, nodes, **kwargs):
-        self.nodes = np.asarray(nodes)
+        self.nodes = np.asarray(nodes, dtype=float)
 
     @staticmethod
     def extractParams(qGen:QGenerator) -> dict:
-- 
2.43.0


From 01c8c5fbf2b5a55b71315bc9a5d7fb16d8dded9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:48 +0000
Subject: [PATCH 27/32] fix: numericalOrder for errors given with small
 integers or floats

The logarithms were computed with half precision for 8 bits integers.
---
 qmat/utils/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/utils/num.py b/qmat/utils/num.py
index ce6099f..5763708 100644
--- a/qmat/utils/num.py
+++ b/qmat/utils/num.py
@@ -24,7 +24,7 @@ def numericalOrder(nSteps, err):
     rmse : float
         The root mean square error of the linear regression.
     """
-    nSteps = np.asarray(nSteps)
+    nSteps, err = np.asarray(nSteps, dtype=float), np.asarray(err, dtype=float)
     x, y = np.log10(1/nSteps), np.log10(err)
 
     # Compute regression coefficients and rmse
-- 
2.43.0


From d01b96eed366701f407dd5b30581caef6f26b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:14 +0000
Subject: [PATCH 28/32] fix: solveDahlquistSDC for matrices of unsigned
 integers

The difference Q - QDelta wrapped around.
---
 qmat/utils/sdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/utils/sdc.py b/qmat/utils/sdc.py
index 9f0b251..1b03519 100644
--- a/qmat/utils/sdc.py
+++ b/qmat/utils/sdc.py
@@ -44,7 +44,7 @@ def solveDahlquistSDC(lam, u0, tEnd, nSteps:int, nSweeps:int, Q:np.ndarray, QDel
 
     assert Q.shape == (nNodes, nNodes), "Q is not a square matrix"
 
-    QDelta = np.asarray(QDelta)
+    Q, QDelta = 1.0*Q, 1.0*np.asarray(QDelta)  # no integers, whose differences may wrap around
     if QDelta.ndim == 3:
         assert QDelta.shape == (nSweeps, nNodes, nNodes), "inconsistent shape for QDelta"
     else:
-- 
2.43.0


From 03b345d10ab727913c7f24e54f2ddfbe168e94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:07 +0000
Subject: [PATCH 29/32] fix: getOrderSDC ignored the aliases of the
 approximations

The first sweep of CN (alias of TRAP) counted for one order only, and the
special combinations were not recognized under an alias (IE, EE, LF, ...).
---
 qmat/utils/sdc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qmat/utils/sdc.py b/qmat/utils/sdc.py
index 1b03519..ac5959f 100644
--- a/qmat/utils/sdc.py
+++ b/qmat/utils/sdc.py
@@ -163,6 +163,11 @@ def getOrderSDC(coll, nSweeps, qDelta, stepUpdate):
     """
     # TODO : extend with additional using time-dependent terms
 
+    # Aliases of the approximations are accepted too
+    from qmat.qdelta import QDELTA_GENERATORS
+    if qDelta in QDELTA_GENERATORS:
+        qDelta = QDELTA_GENERATORS[qDelta].__name__
+
     nNodes, nodeType, quadType = coll.nodes.size, coll.nodeType, coll.quadType
 
     # Maximum order from the collocation problem
-- 
2.43.0


From 1861ec7a1fed111d9ff8b4506225702096f0df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:13 +0000
Subject: [PATCH 30/32] fix: AUTO weights raised an underflow error for more
 than a thousand points

---
 qmat/lagrange.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 85ddf53..55b77a3 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -212,11 +212,11 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='raise', under='raise'):
-                try:
+            try:
+                with np.errstate(divide='raise', over='raise', under='raise'):
                     invProd = analytic(diffs)
-                except FloatingPointError:
-                    invProd = logScale(diffs)
+            except FloatingPointError:
+                invProd = logScale(diffs)
         elif weightComputation == 'FAST':
             invProd = analytic(diffs)
         elif weightComputation == 'STABLE':
-- 
2.43.0


From 9d8f0e379aba42f291cd99912d9b02ab9a63d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:36 +0000
Subject: [PATCH 31/32] fix: interpolation matrices do not overflow with large
 or small weights

Weights of representable size, divided by small (or large) differences, over- or underflowed
and gave rows of NaN. They are now scaled by a power of two first.
---
 qmat/lagrange.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 55b77a3..7c9abfd 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -345,8 +345,10 @@ class LagrangeApproximation(object):
         # Replace iDiff by one on those lines to get a simple copy of the value
         iDiff[i, :] = concom[i, :]
 
-        # Compute interpolation matrix using weights
-        P = iDiff * self.weights
+        # Compute interpolation matrix using weights, scaled (by a power of two)
+        # such that the products do not over- or underflow
+        scale = np.frexp(np.max(np.abs(self.weights)))[1]
+        P = iDiff * np.ldexp(self.weights, -scale)
         P /= P.sum(axis=-1)[:, None]
 
         if duplicates:
-- 
2.43.0


From 6f5df53aa0c8348782272077f8cee68eab0897da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:21 +0000
Subject: [PATCH 32/32] fix: periodic sparse interpolation from grids that
 cover the whole period

The first and last point are images of each other, but differ by rounding errors, which gave stencils
with two nearly equal points (or one point too few if they were exactly equal).
---
 qmat/lagrange.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 7c9abfd..edf22b8 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -572,6 +572,15 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
     assert order <= len(inPoints), f'Cannot interpolate {len(inPoints)} to order {order}! Please reduce order'
 
     A = sp.lil_matrix((len(outPoints), len(inPoints)))
+
+    # If the grid covers the whole period, its last point is the image of the first one
+    # (up to rounding errors), and does not bring an additional interpolation point
+    if gridPeriod > 0 and len(inPoints) > 1 and np.isclose(
+            abs(inPoints[-1] - inPoints[0]), gridPeriod,
+            rtol=0, atol=1e-14*max(gridPeriod, np.max(np.abs(inPoints)))):
+        inPoints = inPoints[:-1]
+        order = min(order, len(inPoints))
+
     lastInterpolationLine = None
     lastClosestPoints = None
 
-- 
2.43.0

