From 9113524b9df53284ccca59e2041d2ebdd3a068c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 01/25] fix: QPHD compared the function np.amin, not the
 smallest input, with -1

With all inputs at most 1 the comparison either raised TypeError (Python 3) or
was always False (Python 2), so inputs below -1 were taken for uniform ones.
---
 active_subspaces/subspaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 2cdfe70..002cab3 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -273,7 +273,7 @@ def qphd_subspace(X, f, weights):
     X, f, M, m = process_inputs_outputs(X, f)
     
     # check if the points are uniform or Gaussian, set 2nd moment
-    if np.amax(X) > 1.0 or np.amin < -1.0:
+    if np.amax(X) > 1.0 or np.amin(X) < -1.0:
         gamma = 1.0
     else:
         gamma = 1.0 / 3.0
-- 
2.43.0


From 939823adff4c235f4b71a04130cde663effd6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 02/25] fix: radial basis training failed with numpy >= 1.24
 (ragged np.max)

Take the scalar out of the 1-by-1 product before comparing it with a scalar.
---
 active_subspaces/utils/response_surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index b720b5d..fb1abbc 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -381,7 +381,7 @@ def _rbf_objective(log10g, X, f, v, N, e):
     res = f - np.dot(B, beta)
 
     # variance
-    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))/M, 5*np.finfo(float).eps])
+    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))[0,0]/M, 5*np.finfo(float).eps])
     
 
     r = np.sum(np.log(np.diag(L))) + M*np.log(sig2)
-- 
2.43.0


From d4cc4043389f5e3a36f4b5ae9b810c3e706a986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 03/25] fix: pass one-dimensional starting points to
 scipy.optimize.minimize

Recent SciPy refuses a two-dimensional x0, so maximin designs and the
minimization over zonotopes and unbounded domains always raised.
---
 active_subspaces/optimizers.py    | 4 ++--
 active_subspaces/utils/designs.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index d91df65..1d0cd1c 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -331,7 +331,7 @@ def zonotope_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -387,7 +387,7 @@ def unbounded_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 8430b28..7bd0fb1 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -74,7 +74,7 @@ def maximin_design(vert, N):
     minres = []
 
     for i in range(3):
-        y0 = np.random.normal(size=(N, n))
+        y0 = np.random.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
-- 
2.43.0


From dbecea7a1e847b108226267202e4b03f95e57197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 04/25] fix: random_walk_z scrambled the components of its
 samples

The (m-n)-by-N array of samples has to be transposed; reshaping it mixed
components of different samples and returned infeasible points.
---
 active_subspaces/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index fda1fe8..0cab762 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -741,7 +741,7 @@ def random_walk_z(N, y, W1, W2):
             z0 = zc
         Z[:,i] = z0.reshape((z0.shape[0], ))
 
-    return Z.reshape((N, m-n))
+    return Z.transpose()
 
 def _rotate_x(Y, Z, W):
     """A convenience function for rotating subspace coordinates to x space.
-- 
2.43.0


From b294ad7b9e517eb5ce6e8076c5bd703e3c4cc132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 05/25] fix: hit_and_run_z could step out of the polytope

Nearly active constraints were left out of the bounds on the step, so in thin
slices a step crossed them, by far. Constraints parallel to the direction
(g == 0) were divided by zero and made the bounds infinite.
---
 active_subspaces/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 0cab762..5b51ed4 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -602,11 +602,11 @@ def hit_and_run_z(N, y, W1, W2):
         f, g = b - np.dot(A,z0), np.dot(A, d)
 
         # find an upper bound on the step
-        min_ind = np.logical_and(g<=0, f < -np.sqrt(np.finfo(np.float).eps))
+        min_ind = g<0
         eps_max = np.amin(f[min_ind]/g[min_ind])
 
         # find a lower bound on the step
-        max_ind = np.logical_and(g>0, f < -np.sqrt(np.finfo(np.float).eps))
+        max_ind = g>0
         eps_min = np.amax(f[max_ind]/g[max_ind])
 
         # randomly sample eps
-- 
2.43.0


From 6467b513af34aa751ceb9a5efc5efe56ddbe78fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 06/25] fix: weighted polynomial fit applied the weights twice

Scaling rows by the weights minimizes the sum of squared residuals weighted by
the squared weights; the rows are to be scaled by the square roots, as in
ols_subspace. The training outputs and R-squared are those of the given data.
---
 active_subspaces/utils/response_surfaces.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index fb1abbc..7681d0f 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -100,9 +100,10 @@ class PolynomialApproximation(ResponseSurface):
         B, indices = polynomial_bases(X,  self.N)
         p = B.shape[1]
         if weights is not None:
-            B, f = weights*B, weights*f
-
-        poly_weights = np.linalg.lstsq(B, f)[0]
+            sqw = np.sqrt(weights)
+            poly_weights = np.linalg.lstsq(sqw*B, sqw*f)[0]
+        else:
+            poly_weights = np.linalg.lstsq(B, f)[0]
         Rsqr = 1.0 - ( np.linalg.norm(np.dot(B, poly_weights) - f)**2 / (M*np.var(f)) )
 
         # store data
-- 
2.43.0


From 2186724702b88c15101ab1076758cb0f2013108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 07/25] fix: local linear models dropped the wrong sample

The mask of coincident points was not in sorted order: the base point stayed in
and an arbitrary neighbor was left out.
---
 active_subspaces/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index a137f70..e1e853c 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -55,7 +55,7 @@ def local_linear_gradients(X, f, p=None, weights=None):
         x = X[ii,:]
         D2 = np.sum((X - x)**2, axis=1)
         ind = np.argsort(D2)
-        ind = ind[D2 != 0]
+        ind = ind[D2[ind] != 0]
         A = np.hstack((np.ones((p,1)), X[ind[:p],:])) * np.sqrt(weights[ii])
         b = f[ind[:p]] * np.sqrt(weights[ii])
         u = np.linalg.lstsq(A, b)[0]
-- 
2.43.0


From 634c5c82e83625de247576cf9a6a5f2317a4d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 08/25] fix: sign of the inactive variables in the unbounded
 MinVariableMap

The stationary point of c^T z + 0.5 z^T A z solves A z = -c.
---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 1d0cd1c..5c35a6f 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -160,7 +160,7 @@ class UnboundedMinVariableMap(MinVariableMap):
         Zlist = []
         for y in Y:
             c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
-            z = np.linalg.solve(self._zAz, c)
+            z = np.linalg.solve(self._zAz, -c)
             Zlist.append(z)
         return np.array(Zlist).reshape((NY, m-n, N))
 
-- 
2.43.0


From c79fc69b8f2063cf6f7bb696faa3be924a7b50fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 09/25] fix: factor one half in the quadratic of the bounded
 MinVariableMap

The trained H is the Hessian, the surrogate is c^T z + 0.5 z^T A z, and
quadratic_program_ineq minimizes c^T z + z^T Q z.
---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 5c35a6f..116fd7a 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -113,7 +113,7 @@ class BoundedMinVariableMap(MinVariableMap):
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
                 ))
-            z = qps.quadratic_program_ineq(c, self._zAz, A_ineq, b_ineq)
+            z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
         Z = np.array(Zlist).reshape((NY, m-n, N))
         return Z
-- 
2.43.0


From ad01c24d5cdbaf7b8db53d5ba479daf79f0d79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 10/25] fix: gradient of the quadratic program with a
 nonsymmetric Q

---
 active_subspaces/utils/qp_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 9ab00ca..c7d88ab 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -234,7 +234,7 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # make bounds
@@ -267,7 +267,7 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
         return f[0]
 
     def jac(x):
-        j = c.T + 2.0*np.dot(x, Q)
+        j = c.T + np.dot(x, Q + Q.T)
         return j[0]
 
     # inequality constraints
-- 
2.43.0


From d334c45dcff36908646876f675b993da2fafec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 11/25] fix: ladle partition chose one dimension too many

The k-th entry of the ladle (k=0,1,...) adds the (k+1)-st eigenvalue to the
variability of the k-dimensional subspace, so its minimizer is the dimension.
Gradients that span a single direction gave n=2.
---
 active_subspaces/subspaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 002cab3..d8ccc24 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -405,7 +405,8 @@ def ladle_partition(e, li_F):
         
     """
     G = li_F + e.reshape((e.size, 1)) / np.sum(e)
-    n = np.argmin(G) + 1
+    # row k of G measures a k-dimensional subspace, starting from k=0
+    n = np.maximum(np.argmin(G), 1)
     return n, G
     
 def _bootstrap_ranges(e, W, X, f, df, weights, ssmethod, nboot=100):
-- 
2.43.0


From a7b25b8b6c260b89dae22fc70b6469d5687308c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 12/25] fix: a failed Subspaces.compute left a mixed state

An unusable partition type was reported only after the eigenpairs had been
overwritten, leaving W1 and W2 from the previous call next to them.
---
 active_subspaces/subspaces.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index d8ccc24..03c76ba 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -131,8 +131,6 @@ class Subspaces():
             ssmethod = None
             raise Exception('Unrecognized subspace type: {}'.format(sstype))
         
-        self.eigenvals, self.eigenvecs = e, W    
-        
         # Compute bootstrap ranges and partition
         if nboot > 0:
             e_br, sub_br, li_F = _bootstrap_ranges(e, W, X, f, df, weights, ssmethod, nboot)
@@ -142,8 +140,6 @@ class Subspaces():
             
             e_br, sub_br = None, None
             
-        self.e_br, self.sub_br = e_br, sub_br
-        
         # Compute the partition
         if ptype == 'EVG':
             n = eig_partition(e)[0]
@@ -155,6 +151,9 @@ class Subspaces():
         else:
             raise Exception('Unrecognized partition type: {}'.format(ptype))
         
+        # set the attributes only now, so that a failed call changes none
+        self.eigenvals, self.eigenvecs = e, W
+        self.e_br, self.sub_br = e_br, sub_br
         self.partition(n)
 
 
-- 
2.43.0


From fcc7960525b988c05a174a09213c3c11747afa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 13/25] fix: points per dimension of tensor grids for perfect
 powers

np.power(125, 1.0/3) is less than 5, so N=125 gave a grid of 4**3 points.
---
 active_subspaces/integrals.py         | 6 +++++-
 active_subspaces/response_surfaces.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/integrals.py b/active_subspaces/integrals.py
index 9c23709..05c0afc 100644
--- a/active_subspaces/integrals.py
+++ b/active_subspaces/integrals.py
@@ -201,7 +201,11 @@ def av_quadrature_rule(avmap, N):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        k = int(np.floor(np.power(N, 1.0/n)))
+        if (k+1)**n <= N:
+            # the floating-point root of a perfect power can be too small
+            k += 1
+        NN = [k for i in range(n)]
         Yp, Yw = gq.gauss_hermite(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
diff --git a/active_subspaces/response_surfaces.py b/active_subspaces/response_surfaces.py
index b7e3e56..5b1e1d1 100644
--- a/active_subspaces/response_surfaces.py
+++ b/active_subspaces/response_surfaces.py
@@ -279,7 +279,11 @@ def av_design(avmap, N, NMC=10):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        k = int(np.floor(np.power(N, 1.0/n)))
+        if (k+1)**n <= N:
+            # the floating-point root of a perfect power can be too small
+            k += 1
+        NN = [k for i in range(n)]
         Y = dn.gauss_hermite_design(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
-- 
2.43.0


From 967e4758e2bf835546ffaddffe290c1e5469bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 14/25] fix: restore the random state when a seeded search
 fails

A failure, or an exception from the user's function, left the caller's global
generator seeded with 42.
---
 active_subspaces/optimizers.py    | 49 ++++++++++++++++---------------
 active_subspaces/utils/designs.py | 25 ++++++++--------
 2 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 116fd7a..ac9288a 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -327,21 +327,22 @@ def zonotope_minimize(avfun, avdom, avdfun):
 
     # a bit of globalization
     curr_state = np.random.get_state()
-    np.random.seed(42)
     minf = 1e100
     minres = []
-    for i in range(10):
-        y0 = np.random.normal(size=(n, ))
-        cons = avdom.constraints
-        result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
-                            jac=avdfun, options=opts)
-        if not result.success:
-            raise Exception('SLSQP failed with message: {}.'.format(result.message))
-        if result.fun < minf:
-            minf = result.fun
-            minres = result
-
-    np.random.set_state(curr_state)
+    try:
+        np.random.seed(42)
+        for i in range(10):
+            y0 = np.random.normal(size=(n, ))
+            cons = avdom.constraints
+            result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
+                                jac=avdfun, options=opts)
+            if not result.success:
+                raise Exception('SLSQP failed with message: {}.'.format(result.message))
+            if result.fun < minf:
+                minf = result.fun
+                minres = result
+    finally:
+        np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
 
@@ -383,17 +384,19 @@ def unbounded_minimize(avfun, avdom, avdfun):
 
     # some tricks for globalization
     curr_state = np.random.get_state()
-    np.random.seed(42)
     minf = 1e100
     minres = []
-    for i in range(10):
-        y0 = np.random.normal(size=(n, ))
-        result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
-        if not result.success:
-            raise Exception('{} failed with message: {}.'.format(method, result.message))
-        if result.fun < minf:
-            minf = result.fun
-            minres = result
-    np.random.set_state(curr_state)
+    try:
+        np.random.seed(42)
+        for i in range(10):
+            y0 = np.random.normal(size=(n, ))
+            result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
+            if not result.success:
+                raise Exception('{} failed with message: {}.'.format(method, result.message))
+            if result.fun < minf:
+                minf = result.fun
+                minres = result
+    finally:
+        np.random.set_state(curr_state)
     ystar, fstar = minres.x, minres.fun
     return ystar, fstar
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 7bd0fb1..b3b62d0 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -69,21 +69,22 @@ def maximin_design(vert, N):
     # some tricks for the globalization
     curr_state = np.random.get_state()
 
-    np.random.seed(42)
     minf = 1e10
     minres = []
 
-    for i in range(3):
-        y0 = np.random.normal(size=(N*n, ))
-        res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
-                        method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
-        if not res.success:
-            raise Exception('SLSQP failed with message: {}.'.format(res.message))
-        if res.fun < minf:
-            minf = res.fun
-            minres = res
-
-    np.random.set_state(curr_state)
+    try:
+        np.random.seed(42)
+        for i in range(3):
+            y0 = np.random.normal(size=(N*n, ))
+            res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
+                            method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
+            if not res.success:
+                raise Exception('SLSQP failed with message: {}.'.format(res.message))
+            if res.fun < minf:
+                minf = res.fun
+                minres = res
+    finally:
+        np.random.set_state(curr_state)
     design = minres.x.reshape((N, n))
     return design
 
-- 
2.43.0


From 2d0f7ac9342cac84261c07c987f3979481513e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 15/25] fix: maximin designs of polytopes that are not
 symmetric about 0

A point of the hull satisfies A x + b <= 0. The constraint A x - b >= 0 describes
its mirror image.
---
 active_subspaces/utils/designs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index b3b62d0..0b67716 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -63,8 +63,8 @@ def maximin_design(vert, N):
     A = np.kron(np.eye(N), C.equations[:,:n])
     b = np.kron(np.ones(N), C.equations[:,n])
     cons = ({'type':'ineq',
-                'fun' : lambda x: np.dot(A, x) - b,
-                'jac' : lambda x: A})
+                'fun' : lambda x: -np.dot(A, x) - b,
+                'jac' : lambda x: -A})
 
     # some tricks for the globalization
     curr_state = np.random.get_state()
-- 
2.43.0


From 2e20670777624fffeb7ebc0302e14407368a04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 16/25] fix: default number of neighbors exceeded the number of
 other samples

With M <= floor(1.7*m) samples the default was M, but a point has only M-1 others.
---
 active_subspaces/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index e1e853c..63c8aab 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -38,7 +38,7 @@ def local_linear_gradients(X, f, p=None, weights=None):
     if M<=m: raise Exception('Not enough samples for local linear models.')
 
     if p is None:
-        p = int(np.minimum(np.floor(1.7*m), M))
+        p = int(np.minimum(np.floor(1.7*m), M-1))
     elif not isinstance(p, int):
         raise TypeError('p must be an integer.')
 
-- 
2.43.0


From 7aa32a72b319deddfc239c317ec859b54eb86216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 17/25] fix: radial basis training failed without noise in the
 data

The search for the length scales did not use the lower bound that train puts on
the regularization, so for a function that varies along the active subspace
only (trailing eigenvalues or conditional variances of zero) the matrix was not
numerically positive definite and training raised LinAlgError.
---
 active_subspaces/utils/response_surfaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index 7681d0f..cb39487 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -367,6 +367,9 @@ def _rbf_objective(log10g, X, f, v, N, e):
         if v is None:
             v = g*np.sum(e[m:])*np.ones(f.shape)
 
+    # ensure conditioning, as in train
+    v = np.amax([v.reshape(f.shape), 1e-6*np.ones(f.shape)], axis=0)
+
     # covariance matrix
     K = exponential_squared(X, X, 1.0, ell)
     K += np.diag(v.reshape((M,)))
-- 
2.43.0


From c3ea8b05fb76ba023d5fa657979f44d68df79aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 18/25] fix: bound constrained quadratic programs could stop
 short of the minimizer

L-BFGS-B occasionally reports convergence (relative reduction of f) at a
point that is not stationary; continuing from there finds the minimizer.
---
 active_subspaces/utils/qp_solver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index c7d88ab..1ce1573 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -246,6 +246,14 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
     res = minimize(fun, x0, method='L-BFGS-B', jac=jac,
                     bounds=bounds, options={"disp": False})
 
+    # L-BFGS-B may report convergence away from the minimizer when a line
+    # search stalls on old curvature information, so start it again from there
+    if res.success:
+        again = minimize(fun, res.x, method='L-BFGS-B', jac=jac,
+                        bounds=bounds, options={"disp": False})
+        if again.success:
+            res = again
+
     if res.success:
         xstar = res.x
         if isinstance(xstar, float):
-- 
2.43.0


From d31a46acef8e8a96d4b73a0320abc7415ca683ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 19/25] fix: bounded active subspaces without inactive
 variables

Points on the boundary of the domain, such as its vertices or those of a
maximin design, were refused because of roundoff, and minimize always failed
in an empty quadratic program.
---
 active_subspaces/domains.py    | 6 ++++++
 active_subspaces/optimizers.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 5b51ed4..ef9e8e3 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -524,6 +524,12 @@ def sample_z(N, y, W1, W2):
     if not isinstance(N, int):
         raise TypeError('N should be an integer.')
 
+    if W2.shape[1] == 0:
+        # nothing to sample, but y must be in the domain (up to roundoff)
+        if np.any(np.abs(np.dot(W1, y)) > 1.0 + 1e-7):
+            raise Exception('The active variables are out of bounds.')
+        return np.zeros((N, 0))
+
     Z = rejection_sampling_z(N, y, W1, W2)
     if Z is None:
         Z = hit_and_run_z(N, y, W1, W2)
diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index ac9288a..327c855 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -103,6 +103,9 @@ class BoundedMinVariableMap(MinVariableMap):
         W1, W2 = self.domain.subspaces.W1, self.domain.subspaces.W2
         m, n = W1.shape
         NY = Y.shape[0]
+        if m == n:
+            # no inactive variables to choose
+            return np.zeros((NY, 0, N))
         qps = QPSolver()
 
         Zlist = []
-- 
2.43.0


From a63093358de87c19c741a3daa5f111b4edde5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 20/25] fix: maximin designs could collapse onto the vertices

Starting points outside the polytope were moved to its vertices by the
optimizer, where the minimum distance is 0 and stationary, so designs with
points at the vertices (or on top of each other) were returned.
---
 active_subspaces/utils/designs.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 0b67716..283c7ff 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -66,6 +66,10 @@ def maximin_design(vert, N):
                 'fun' : lambda x: -np.dot(A, x) - b,
                 'jac' : lambda x: -A})
 
+    # center of the polytope and its distances to the faces
+    center = np.mean(vert, axis=0)
+    slack = -np.dot(C.equations[:,:n], center) - C.equations[:,n]
+
     # some tricks for the globalization
     curr_state = np.random.get_state()
 
@@ -75,7 +79,12 @@ def maximin_design(vert, N):
     try:
         np.random.seed(42)
         for i in range(3):
-            y0 = np.random.normal(size=(N*n, ))
+            # start inside the polytope: the optimizer would move points from
+            # outside onto the vertices, where the distance is stationary at 0
+            y0 = np.random.normal(size=(N, n))
+            s = np.amax(np.dot(y0, C.equations[:,:n].T) / slack, axis=1)
+            y0 = center + y0 / np.maximum(1.25*s, 1.0).reshape((N, 1))
+            y0 = y0.reshape((N*n, ))
             res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                             method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
             if not res.success:
-- 
2.43.0


From e0b575a955b9688007c2ea4d02d4521f4b97fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 21/25] fix: inequality-constrained QP failed over feasible
 sets without interior

---
 active_subspaces/utils/qp_solver.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index 1ce1573..e240c5e 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -287,6 +287,21 @@ def _scipy_quadratic_program_ineq(c, Q, A, b):
     res = minimize(fun, x0, method='SLSQP', jac=jac,
                     constraints=cons, options={"disp": False})
 
+    # SLSQP may fail when the feasible set has no interior, such as the single
+    # point over a vertex of a zonotope. So start it again from the point that
+    # satisfies the constraints best, without asking for more than that point
+    # satisfies.
+    if not res.success:
+        m, n = A.shape
+        inner = linprog(np.append(np.zeros(n), -1.0),
+                        A_ub=np.hstack((-A, np.ones((m, 1)))), b_ub=-b,
+                        bounds=[(None, None)]*n + [(None, 1.0)])
+        if inner.status == 0 and inner.x[-1] > -1e-8:
+            x0 = inner.x[:n]
+            b = np.minimum(b, np.dot(A, x0)) - 1e-8
+            res = minimize(fun, x0, method='SLSQP', jac=jac,
+                            constraints=cons, options={"disp": False})
+
     if res.success:
         xstar = res.x
         if isinstance(xstar, float):
-- 
2.43.0


From 615102a7623a7187e026c128715d057b8c1529d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 22/25] fix: maximin design points could lie slightly outside
 the polytope

---
 active_subspaces/utils/designs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 283c7ff..d07a364 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -95,6 +95,11 @@ def maximin_design(vert, N):
     finally:
         np.random.set_state(curr_state)
     design = minres.x.reshape((N, n))
+
+    # the optimizer satisfies the constraints only up to a tolerance, so pull
+    # points outside the polytope back onto its boundary
+    s = np.amax(np.dot(design - center, C.equations[:,:n].T) / slack, axis=1)
+    design = center + (design - center) / np.maximum(s, 1.0).reshape((N, 1))
     return design
 
 def gauss_hermite_design(N):
-- 
2.43.0


From 87231f8a045e0b396e12947803f4e7464763c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 23/25] fix: restart L-BFGS-B until the restarts make no
 difference

---
 active_subspaces/utils/qp_solver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/utils/qp_solver.py b/active_subspaces/utils/qp_solver.py
index e240c5e..49e392e 100644
--- a/active_subspaces/utils/qp_solver.py
+++ b/active_subspaces/utils/qp_solver.py
@@ -248,11 +248,14 @@ def _scipy_quadratic_program_bnd(c, Q, lb, ub):
 
     # L-BFGS-B may report convergence away from the minimizer when a line
     # search stalls on old curvature information, so start it again from there
-    if res.success:
+    # until that makes no difference
+    restarts = 20 if res.success else 0
+    for _ in range(restarts):
         again = minimize(fun, res.x, method='L-BFGS-B', jac=jac,
                         bounds=bounds, options={"disp": False})
-        if again.success:
-            res = again
+        if not again.success or again.fun >= res.fun:
+            break
+        res = again
 
     if res.success:
         xstar = res.x
-- 
2.43.0


From e660658121e0552abd606ae2540c47f6cda0f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 24/25] fix: do not cover the points of two dimensional plots
 with empty axes

---
 active_subspaces/utils/plotters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 4c04d1b..3edc021 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -382,7 +382,7 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
         ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
         plt.axis([ymin, ymax, ymin, ymax])
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.grid(True)
         plt.title(out_label)
         plt.colorbar()
@@ -472,7 +472,7 @@ def zonotope_2d_plot(vertices, design=None, y=None, f=None, out_label=None, opts
 
     if y is not None:
         plt.scatter(y[:,0], y[:,1], c=f, s=100.0, vmin=np.min(f), vmax=np.max(f))
-        plt.axes().set_aspect('equal')
+        plt.gca().set_aspect('equal')
         plt.title(out_label)
         plt.colorbar()
 
-- 
2.43.0


From 7bec8d18eccfd53063fe107a297eab4aa1c51713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 25/25] fix: summary plots keep points in view when all active
 variables have one sign

---
 active_subspaces/utils/plotters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/plotters.py b/active_subspaces/utils/plotters.py
index 3edc021..e875655 100644
--- a/active_subspaces/utils/plotters.py
+++ b/active_subspaces/utils/plotters.py
@@ -379,8 +379,9 @@ def sufficient_summary(y, f, out_label=None, opts=None):
         plt.scatter(y1, y2, c=f, s=150.0, vmin=np.min(f), vmax=np.max(f))
         plt.xlabel('Active variable 1')
         plt.ylabel('Active variable 2')
-        ymin = 1.1*np.amin([np.amin(y1), np.amin(y2)])
-        ymax = 1.1*np.amax([np.amax(y1), np.amax(y2)])
+        ymin = np.amin([np.amin(y1), np.amin(y2)])
+        ymax = np.amax([np.amax(y1), np.amax(y2)])
+        ymin, ymax = ymin - 0.1*np.abs(ymin), ymax + 0.1*np.abs(ymax)
         plt.axis([ymin, ymax, ymin, ymax])
         plt.gca().set_aspect('equal')
         plt.grid(True)
-- 
2.43.0

