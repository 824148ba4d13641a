From b0976f2d81a9fcb5c30f55a0fcb6d4232ea49c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 001/150] fix: PointDomain.isinside ignored the tolerance it
 was given

Membership compared coordinates for exact equality, so a point inside the
tolerance (for example one that went through normalize/unnormalize as part of a
tensor product domain) was reported as outside.
---
 psdr/domains/point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/point.py b/psdr/domains/point.py
index b1cebcc..300690d 100644
--- a/psdr/domains/point.py
+++ b/psdr/domains/point.py
@@ -42,7 +42,7 @@ class PointDomain(BoxDomain):
 
 	def _isinside(self, X, tol = TOL):
 		Pcopy = np.tile(self._x.reshape(1,-1), (X.shape[0],1))
-		return np.all(X == Pcopy, axis = 1)	
+		return np.all(np.abs(X - Pcopy) <= tol, axis = 1)	
 
 	def _sample(self, draw = 1):
 		return np.tile(self._x.reshape(1,-1), (draw, 1))
-- 
2.43.0


From 181b191f3a106382e76e66213f3639563b4624a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 002/150] fix: ConvexHullDomain.isinside accepted non-convex
 combinations

The coefficients found by least squares need not sum to one when the point is
outside the hull; the residual of the coordinates alone can still vanish.
---
 psdr/domains/convexhull.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index babea3a..9918781 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -266,7 +266,8 @@ class ConvexHullDomain(LinQuadDomain):
 		for i, xi in enumerate(X):
 			alpha = self.coefficients(xi)
 			rnorm = np.linalg.norm( xi - self._X.T.dot(alpha))
-			inside[i] = (rnorm < tol)
+			# the coefficients must also sum to one for this to be a convex combination
+			inside[i] = (rnorm < tol) and (np.abs(np.sum(alpha) - 1) < tol)
 
 		# Now check linear inequality/equality constraints and quadratic constraints
 		inside &= self._isinside_bounds(X, tol = tol)
-- 
2.43.0


From f30ecd5713685cfca7532c275a047018a62fc1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 003/150] fix: normalized centers of quadratic constraints were
 not rescaled

ys_norm shifted the centers into the normalized coordinates but did not scale
them, so corner, closest_point, constrained_least_squares and
normalized_domain worked on a different set whenever the normalization was not
a pure translation.
---
 psdr/domains/euclidean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 4f38fed..c0f675d 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -994,7 +994,8 @@ class EuclideanDomain(Domain):
 	@property
 	def ys_norm(self):
 		c = self._center()
-		return [y - c for y in self.ys]	
+		D = self._normalize_der()
+		return [D.dot(y - c) for y in self.ys]	
 
 	@property
 	def rhos_norm(self):
-- 
2.43.0


From e87c8264fcbf44dfe6b5bb09dbcc6645c782ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 004/150] fix: BoxDomain.corner with infinite or integer bounds

Infinite corners were returned rather than raising UnboundedDomainException,
coordinates not in the search direction were sent to infinity, and with integer
lower bounds the (float) upper bounds were truncated.
---
 psdr/domains/box.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/box.py b/psdr/domains/box.py
index a008969..8238a81 100644
--- a/psdr/domains/box.py
+++ b/psdr/domains/box.py
@@ -5,7 +5,7 @@ from scipy.spatial.distance import pdist
 
 from .domain import TOL
 from .linineq import LinIneqDomain
-from ..exceptions import EmptyDomainException
+from ..exceptions import EmptyDomainException, UnboundedDomainException
 
 
 class BoxDomain(LinIneqDomain):
@@ -64,11 +64,16 @@ class BoxDomain(LinIneqDomain):
 
 	def _corner(self, p, **kwargs):
 		# Since the domain is a box, we can find the corners simply by looking at the sign of p
-		x = np.copy(self.lb)
+		x = np.array(self.lb, dtype = float)
 		I = (p>=0)
 		x[I] = self.ub[I]
+		# Coordinates that do not influence the objective may take any value inside the bounds
+		I = (p == 0) & ~np.isfinite(x)
+		x[I] = np.where(np.isfinite(self.lb[I]), self.lb[I], 0.)
 		if not self.isinside(x):
 			raise EmptyDomainException
+		if not np.all(np.isfinite(x)):
+			raise UnboundedDomainException
 		return x
 
 	def _extent(self, x, p):
-- 
2.43.0


From 04db1cc6402dc53f21a1407d420fa3a5cc911b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 005/150] fix: finite bounds were dropped when another bound
 was infinite

Normalizing a bound vector containing an infinite entry produced NaN in the
remaining entries, so lb_norm/ub_norm lost the finite bounds and the solvers
worked on a larger domain.
---
 psdr/domains/euclidean.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index c0f675d..e907d89 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -954,15 +954,16 @@ class EuclideanDomain(Domain):
 	
 	@property
 	def lb_norm(self):
-		lb_norm = self.normalize(self.lb)
 		I = ~np.isfinite(self.lb)
+		# Infinite entries would contaminate every other entry of the normalized bound
+		lb_norm = self.normalize(np.where(I, 0., self.lb))
 		lb_norm[I] = -np.inf
 		return lb_norm
 
 	@property
 	def ub_norm(self):
-		ub_norm = self.normalize(self.ub)
 		I = ~np.isfinite(self.ub)
+		ub_norm = self.normalize(np.where(I, 0., self.ub))
 		ub_norm[I] = np.inf
 		return ub_norm
 
-- 
2.43.0


From 83c8af0f424c25d6e0fca4c11e92d76699b4603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 006/150] fix: UnboundedDomain could not be asked for corners
 or closest points

The solver arguments used by every query were never set.
---
 psdr/domains/unbounded.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 40c41e2..e9efb34 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -3,6 +3,8 @@ from __future__ import division
 import numpy as np
 
 from .euclidean import EuclideanDomain
+from .domain import DEFAULT_CVXPY_KWARGS
+from ..misc import merge
 
 class UnboundedDomain(EuclideanDomain):
 	r""" A domain without any constraints
@@ -22,6 +24,7 @@ class UnboundedDomain(EuclideanDomain):
 		self._dimension = dimension
 		self._init_names(names)
 
+		self.kwargs = merge(DEFAULT_CVXPY_KWARGS, {})
 		self._unbounded = True
 		self._empty = False
 		self._point = False
@@ -39,7 +42,7 @@ class UnboundedDomain(EuclideanDomain):
 		return []
 
 	def _closest_point(self, x0, L = None, **kwargs):
-		return x0
+		return np.copy(x0)
 
 	def _normalize(self, X):
 		return X
-- 
2.43.0


From b0bc792c9751d13e7d92666f39da60604cac943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 007/150] fix: LogNormalDomain could not be asked for corners
 or closest points

The solver arguments used by every query were never set.
---
 psdr/domains/lognormal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 7973b80..832de4a 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -1,7 +1,8 @@
 from __future__ import division
 
 import numpy as np
-from .domain import TOL
+from ..misc import merge
+from .domain import TOL, DEFAULT_CVXPY_KWARGS
 from .box import BoxDomain
 from .random import RandomDomain
 from .normal import NormalDomain
@@ -35,6 +36,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 	"""	
 	def __init__(self, mean, cov = 1., offset = 0., scaling = 1., truncate = None, names = None):
 		self.tol = 1e-6
+		self.kwargs = merge(DEFAULT_CVXPY_KWARGS, {})
 		self.normal_domain = NormalDomain(mean, cov, truncate = truncate)
 		assert len(self.normal_domain) == 1, "Only defined for one-dimensional distributions"
 
-- 
2.43.0


From ddcba1d378ad37d4d348fd6ce18ff9ec55a33abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 008/150] fix: lower bound of an untruncated LogNormalDomain
 ignored its offset

---
 psdr/domains/lognormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 832de4a..7f552ec 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -54,7 +54,7 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			self._lb = self.offset + self.scaling*np.exp(self.normal_domain.norm_lb)
 			self._ub = self.offset + self.scaling*np.exp(self.normal_domain.norm_ub)
 		else:
-			self._lb = 0.*np.ones(1)
+			self._lb = self.offset*np.ones(1)
 			self._ub = np.inf*np.ones(1)
 
 		self._init_names(names)
-- 
2.43.0


From 6831d98eb5b8e49247542fff3121637041db0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:49 +0000
Subject: [PATCH 009/150] fix: constrained_least_squares solved a shifted
 problem

The offset between application and normalized coordinates entered the residual
with the wrong sign, so the answer was only right for domains centered at the
origin; the solver options of the domain were ignored as well.
---
 psdr/domains/euclidean.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index e907d89..576ca0e 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -338,7 +338,8 @@ class EuclideanDomain(Domain):
 		except ValueError:
 			raise ValueError("dimension of b in least squares problem doesn't match A")
 
-		return self._constrained_least_squares(A, b, **kwargs)	
+		local_kwargs = merge(self.kwargs, kwargs)
+		return self._constrained_least_squares(A, b, **local_kwargs)	
 	
 	def _constrained_least_squares(self, A, b, **kwargs):
 		if not self.is_linquad_domain:
@@ -353,10 +354,11 @@ class EuclideanDomain(Domain):
 		# Setup the problem in CVXPY	
 		x_norm = cp.Variable(len(self))
 		D = self._unnormalize_der() 
-		c = self._center()	
+		# The point in application units corresponding to the origin in normalized units
+		c = self.unnormalize(np.zeros(len(self)))
 			
-		# \| A x - b\|_2 
-		obj = cp.norm( (A @ D) @ x_norm - b - (A @ c) )
+		# \| A x - b\|_2 where x = D x_norm + c
+		obj = cp.norm( (A @ D) @ x_norm - b + (A @ c) )
 		constraints = self._build_constraints_norm(x_norm)
 		problem = cp.Problem(cp.Minimize(obj), constraints)
 		problem.solve(**kwargs)
-- 
2.43.0


From 978d2a2877f681545e724a88e9b69550a6afd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 010/150] fix: closest points on wide domains failed with
 SolverError

---
 psdr/domains/euclidean.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 576ca0e..689487f 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -211,6 +211,10 @@ class EuclideanDomain(Domain):
 			
 		D = self._unnormalize_der() 	
 		LD = L.dot(D)
+		# Scale the objective to be order one; otherwise the solver can fail on wide domains
+		scale = np.linalg.norm(LD)
+		if scale > 0:
+			LD = LD/scale
 		obj = cp.norm(LD @ x_norm - LD.dot(x0_norm))
 
 		problem = cp.Problem(cp.Minimize(obj), constraints)
@@ -358,7 +362,13 @@ class EuclideanDomain(Domain):
 		c = self.unnormalize(np.zeros(len(self)))
 			
 		# \| A x - b\|_2 where x = D x_norm + c
-		obj = cp.norm( (A @ D) @ x_norm - b + (A @ c) )
+		AD = A @ D
+		b_norm = b - A @ c
+		# Scale the objective to be order one; otherwise the solver can fail on wide domains
+		scale = np.linalg.norm(AD)
+		if scale > 0:
+			AD, b_norm = AD/scale, b_norm/scale
+		obj = cp.norm(AD @ x_norm - b_norm)
 		constraints = self._build_constraints_norm(x_norm)
 		problem = cp.Problem(cp.Minimize(obj), constraints)
 		problem.solve(**kwargs)
-- 
2.43.0


From d823c63bf8acc211da1c0b1d07e71cee222eccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 011/150] fix: fitting a Lipschitz matrix could fail with
 ZeroDivisionError

---
 psdr/lipschitz.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 4f8311e..fe1edcc 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -346,7 +346,14 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			if name in self.kwargs:
 				cvxopt.solvers.options[name] = self.kwargs[name]
 
-		sol = cvxopt.solvers.sdp(c, Gs = Gs, hs = hs)
+		try:
+			sol = cvxopt.solvers.sdp(c, Gs = Gs, hs = hs)
+		except ArithmeticError:
+			# Near the solution tight tolerances can make CVXOPT divide by zero;
+			# if this happens, stop slightly earlier
+			for name in ['abstol', 'reltol', 'feastol']:
+				cvxopt.solvers.options[name] = max(1e-7, cvxopt.solvers.options.get(name, 0))
+			sol = cvxopt.solvers.sdp(c, Gs = Gs, hs = hs)
 		alpha = sol['x']
 		H = np.sum([ alpha_i * Ei for alpha_i, Ei in zip(alpha, Es)], axis = 0)
 		return H
-- 
2.43.0


From b25c2210a2d8bb19518fb49a203e62e7b4a4be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 012/150] fix: extent of convex hull domains ignored additional
 constraints

---
 psdr/domains/convexhull.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 9918781..3453d18 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -79,11 +79,15 @@ class _Extent:
 			self.domain._X_norm.T @ self.alpha == self.p_norm * self.beta + self.x_norm,
 			cp.sum(self.alpha) == 1
 		] 
-		self.constraints += LinQuadDomain._build_constraints_norm(domain, self.x_norm) 
 		
 		self.prob = cp.Problem(self.obj, self.constraints)
 
 	def __call__(self, x, p, **kwargs):
+		# Limits due to the constraints in addition to the hull; if these (or a zero direction, for
+		# which any step is feasible) prevent or never limit movement there is no need to involve the hull.
+		alpha = LinQuadDomain._extent(self.domain, x, p)
+		if alpha == 0 or np.all(p == 0):
+			return alpha
 		kwargs['warm_start'] = False
 		self.x_norm.value = self.domain.normalize(x)
 		self.p_norm.value = self.domain.normalize(x+p)-self.domain.normalize(x)
@@ -91,7 +95,7 @@ class _Extent:
 		#self.prob.solve(verbose = True)
 		self.prob.solve(**merge(self.domain.kwargs, kwargs))
 		try:
-			return float(self.beta.value)
+			return max(0., min(alpha, float(self.beta.value)))
 		except Exception as e:
 			print(e)
 			return 0
-- 
2.43.0


From c80a31184b27ef69451ac9c1bba455c8cf00a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 013/150] fix: extent of tensor products with a point,
 unbounded or unmoved factor

---
 psdr/domains/point.py     | 5 ++++-
 psdr/domains/tensor.py    | 6 ++++--
 psdr/domains/unbounded.py | 3 +++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/psdr/domains/point.py b/psdr/domains/point.py
index 300690d..ac5577d 100644
--- a/psdr/domains/point.py
+++ b/psdr/domains/point.py
@@ -38,7 +38,10 @@ class PointDomain(BoxDomain):
 		return np.copy(self._x)
 
 	def _extent(self, x, p, **kwargs):
-		return 0
+		# A zero direction never leaves the domain (e.g., as part of a tensor product domain)
+		if np.all(p == 0):
+			return np.inf
+		return 0.
 
 	def _isinside(self, X, tol = TOL):
 		Pcopy = np.tile(self._x.reshape(1,-1), (X.shape[0],1))
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index c22f574..2c4f073 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -76,8 +76,10 @@ class TensorProductDomain(EuclideanDomain):
 		return inside
 
 	def _extent(self, x, p):
-		alpha = [dom._extent(x[I], p[I]) for dom, I in zip(self.domains, self._slices)]
-		return min(alpha)
+		# Subdomains we do not move in (up to rounding) do not limit the step
+		tol = 1e-13*np.linalg.norm(p)
+		alpha = [dom._extent(x[I], p[I]) for dom, I in zip(self.domains, self._slices) if np.linalg.norm(p[I]) > tol]
+		return min(alpha, default = np.inf)
 
 
 	def __len__(self):
diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index e9efb34..e802f94 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -44,6 +44,9 @@ class UnboundedDomain(EuclideanDomain):
 	def _closest_point(self, x0, L = None, **kwargs):
 		return np.copy(x0)
 
+	def _extent(self, x, p):
+		return np.inf
+
 	def _normalize(self, X):
 		return X
 
-- 
2.43.0


From 601c6e57b8ca3ca2fd9360142a92fdf195dffe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 014/150] fix: extent on the boundary and along equality
 constraints

---
 psdr/domains/euclidean.py | 79 ++++++++++++++++++++-------------------
 psdr/domains/linineq.py   |  2 +-
 psdr/domains/linquad.py   |  6 +--
 3 files changed, 42 insertions(+), 45 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 689487f..47dda76 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -495,6 +495,10 @@ class EuclideanDomain(Domain):
 			x = np.array(x).reshape(len(self))
 		except ValueError:
 			raise ValueError("Starting point not the same dimension as the domain")
+		try:
+			p = np.array(p).reshape(len(self))
+		except ValueError:
+			raise ValueError("Direction not the same dimension as the domain")
 
 		assert self.isinside(x), "Starting point must be inside the domain" 
 		return self._extent(x, p)
@@ -1166,42 +1170,35 @@ class EuclideanDomain(Domain):
 	# Extent functions 
 	################################################################################		
 	
+	def _extent_linear(self, slack, rate, tol):
+		r""" Largest step such that slack - alpha*rate stays nonnegative
+
+		Points on (or due to rounding slightly beyond) the boundary cannot be moved any further outside.
+		Directions parallel to the boundary up to rounding (rate <= tol) do not approach it.
+		"""
+		I = rate > tol
+		if not np.any(I):
+			return np.inf
+		return max(0., float(np.min(slack[I]/rate[I])))
+
 	def _extent_bounds(self, x, p):
 		"""Check the extent from the box constraints"""
-		alpha = np.inf
-		
-		# If on the boundary, the direction needs to point inside the domain
-		# otherwise we cannot move
-		if np.any(p[self.lb == x] < 0):
-			return 0.
-		if np.any(p[self.ub == x] > 0):
-			return 0.	
-		
-		# To prevent divide-by-zero we ignore directions we are not moving in
-		I = np.nonzero(p)
-
-		# Check upper bounds
-		y = (self.ub - x)[I]/p[I]
-		if np.any(y>0):
-			alpha = min(alpha, np.min(y[y>0]))	
-
-		# Check lower bounds
-		y = (self.lb - x)[I]/p[I]
-		if np.any(y>0):
-			alpha = min(alpha, np.min(y[y>0]))
-		
-		return alpha
+		tol = 1e-13*np.linalg.norm(p)*np.ones(len(self))
+		return min(self._extent_linear(self.ub - x, p, tol), self._extent_linear(x - self.lb, -p, tol))
 
 	def _extent_ineq(self, x, p):
 		""" check the extent from the inequality constraints """
-		alpha = np.inf
-		# positive extent
-		with np.errstate(divide = 'ignore'):
-			y = (self.b - np.dot(self.A, x)	)/np.dot(self.A, p)
-		if np.sum(y>0) > 0:
-			alpha = min(alpha, np.min(y[y>0]))
-
-		return alpha
+		tol = 1e-13*np.linalg.norm(self.A, axis = 1)*np.linalg.norm(p)
+		# Points computed to be on the boundary may be slightly outside due to rounding 
+		slack = np.maximum(self.b - np.dot(self.A, x), np.finfo(float).eps)
+		return self._extent_linear(slack, np.dot(self.A, p), tol)
+
+	def _extent_eq(self, x, p):
+		""" check the extent from the equality constraints: movement is only possible parallel to these"""
+		A_eq = self.A_eq
+		if np.all(np.abs(np.dot(A_eq, p)) <= 1e-6*np.linalg.norm(A_eq, axis = 1)*np.linalg.norm(p)):
+			return np.inf
+		return 0.
 	
 	def _extent_quad(self, x, p):
 		""" check the extent from the quadratic constraints"""
@@ -1209,14 +1206,18 @@ class EuclideanDomain(Domain):
 		for L, y, rho in zip(self.Ls, self.ys, self.rhos):
 			Lp = L.dot(p)
 			Lxy = L.dot(x - y)
-			# Terms in quadratic formula a alpha^2 + b alpha + c
+			# Terms in quadratic formula a alpha^2 + 2 b alpha + c;
+			# since x is inside, the step is the largest of the two roots
 			a = Lp.T.dot(Lp)
-			b = 2*Lp.T.dot(Lxy)
+			b = Lp.T.dot(Lxy)
 			c = Lxy.T.dot(Lxy) - rho**2
-			
-			roots = np.roots([a,b,c])
-			real_roots = roots[np.isreal(roots)]
-			pos_roots = real_roots[real_roots>=0]
-			if len(pos_roots) > 0:
-				alpha = min(alpha, min(pos_roots))
+			if np.sqrt(a) <= 1e-13*np.linalg.norm(L)*np.linalg.norm(p):
+				# This constraint does not limit movement in this direction
+				continue
+			sqrt_disc = np.sqrt(max(b**2 - a*c, 0.))
+			if b > 0:
+				root = -c/(b + sqrt_disc)
+			else:
+				root = (sqrt_disc - b)/a
+			alpha = min(alpha, max(0., float(root)))
 		return alpha
diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index e5e0072..0a87be1 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -50,7 +50,7 @@ class LinIneqDomain(LinQuadDomain):
 		return self._isinside_bounds(X, tol = tol) & self._isinside_ineq(X, tol = tol) & self._isinside_eq(X, tol = tol)
 
 	def _extent(self, x, p):
-		return min(self._extent_bounds(x, p), self._extent_ineq(x, p))
+		return min(self._extent_bounds(x, p), self._extent_ineq(x, p), self._extent_eq(x, p))
 	
 	def _normalized_domain(self, **kwargs):
 		names_norm = [name + ' (normalized)' for name in self.names]
diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index f4c00bd..3664960 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -255,11 +255,7 @@ class LinQuadDomain(EuclideanDomain):
 		return self._isinside_bounds(X, tol = tol) & self._isinside_ineq(X, tol = tol) & self._isinside_eq(X, tol = tol) & self._isinside_quad(X, tol = tol)
 
 	def _extent(self, x, p):
-		# Check that direction satisfies equality constraints to a tolerance
-		if self.A_eq.shape[0] == 0 or np.all(np.abs(self.A_eq.dot(p) ) < self.tol):
-			return min(self._extent_bounds(x, p), self._extent_ineq(x, p), self._extent_quad(x, p))
-		else:
-			return 0. 
+		return min(self._extent_bounds(x, p), self._extent_ineq(x, p), self._extent_eq(x, p), self._extent_quad(x, p))
 
 	################################################################################		
 	# Convex Solver Functions 
-- 
2.43.0


From d75f081e0d3728b0c005692be4200c39ab893e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 015/150] fix: corner returned a point when the maximum is
 infinite

---
 psdr/domains/euclidean.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 47dda76..352b88d 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -308,7 +308,16 @@ class EuclideanDomain(Domain):
 
 		# If we have found a solution, then the domain is not empty
 		self._empty = False
-		return self.unnormalize(np.array(x_norm.value).reshape(len(self)))
+		x = self.unnormalize(np.array(x_norm.value).reshape(len(self)))
+
+		# The solver does not notice the domain is unbounded if no inequality constraint is ever reached;
+		# hence if we can move forever along the direction, restricted to equality constraints, the domain is unbounded
+		if not (np.all(np.isfinite(self.norm_lb)) and np.all(np.isfinite(self.norm_ub))):
+			p_free = p - self._A_eq_basis @ (self._A_eq_basis.T @ p)
+			if np.linalg.norm(p_free) > 1e-10*np.linalg.norm(p) and np.isinf(self._extent(x, p_free)):
+				raise UnboundedDomainException
+
+		return x
 		
 
 
-- 
2.43.0


From 643be625be87713a509bfa185458125df86c72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 016/150] fix: normalized_domain of hulls dropped the hull, of
 uniform domains the measure, and failed for unbounded domains

---
 psdr/domains/convexhull.py | 6 ++++++
 psdr/domains/unbounded.py  | 4 ++++
 psdr/domains/uniform.py    | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 3453d18..42ef80b 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -187,6 +187,12 @@ class ConvexHullDomain(LinQuadDomain):
 		ret += ">"
 		return ret
 
+	def _normalized_domain(self, **kwargs):
+		names_norm = [name + ' (normalized)' for name in self.names]
+		return ConvexHullDomain(self._X_norm, lb = self.lb_norm, ub = self.ub_norm, A = self.A_norm, b = self.b_norm, 
+			A_eq = self.A_eq_norm, b_eq = self.b_eq_norm, Ls = self.Ls_norm, ys = self.ys_norm, rhos = self.rhos_norm,
+			names = names_norm, tol = self.tol, **merge(self.kwargs, kwargs))
+
 	def chebyshev_center(self):
 		raise NotImplementedError
 
diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index e802f94..302a489 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -53,6 +53,10 @@ class UnboundedDomain(EuclideanDomain):
 	def _unnormalize(self, X_norm):
 		return X_norm
 
+	def _normalized_domain(self, **kwargs):
+		names_norm = [name + ' (normalized)' for name in self.names]
+		return UnboundedDomain(len(self), names = names_norm)
+
 	def _isinside(self, X, tol = None):
 		if X.shape[1]== len(self):
 			return np.ones(X.shape[0],dtype = np.bool)
diff --git a/psdr/domains/uniform.py b/psdr/domains/uniform.py
index 4306b2f..49f15d0 100644
--- a/psdr/domains/uniform.py
+++ b/psdr/domains/uniform.py
@@ -12,3 +12,8 @@ class UniformDomain(BoxDomain, RandomDomain):
 	def _pdf(self, X):
 		area = np.prod([ (ub - lb) for lb, ub in zip(self.lb, self.ub)])
 		return self.isinside(X).astype(np.float)/area
+
+	def _normalized_domain(self, **kwargs):
+		# We need to do this to keep the sampling measure
+		names_norm = [name + ' (normalized)' for name in self.names]
+		return UniformDomain(lb = self.lb_norm, ub = self.ub_norm, names = names_norm)
-- 
2.43.0


From 2ebef1df6e8dbf8457e1016c4decfb40c88f90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 017/150] fix: corner missed that the domain is unbounded along
 a component of the direction

---
 psdr/domains/euclidean.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 352b88d..7481635 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -311,11 +311,13 @@ class EuclideanDomain(Domain):
 		x = self.unnormalize(np.array(x_norm.value).reshape(len(self)))
 
 		# The solver does not notice the domain is unbounded if no inequality constraint is ever reached;
-		# hence if we can move forever along the direction, restricted to equality constraints, the domain is unbounded
+		# hence if we can move forever along the direction or along one of its components,
+		# restricted to equality constraints, the domain is unbounded
 		if not (np.all(np.isfinite(self.norm_lb)) and np.all(np.isfinite(self.norm_ub))):
-			p_free = p - self._A_eq_basis @ (self._A_eq_basis.T @ p)
-			if np.linalg.norm(p_free) > 1e-10*np.linalg.norm(p) and np.isinf(self._extent(x, p_free)):
-				raise UnboundedDomainException
+			for q in np.vstack([p, np.diag(p)]):
+				q_free = q - self._A_eq_basis @ (self._A_eq_basis.T @ q)
+				if q_free @ p > 1e-10*(p @ p) and np.isinf(self._extent(x, q_free)):
+					raise UnboundedDomainException
 
 		return x
 		
-- 
2.43.0


From ac7b9ecfcce7c4bf59697908121fe4c6c1fb13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 018/150] fix: intersections dropped hulls, quadratic
 constraints of products, options, and failed with unbounded domains

---
 psdr/domains/convexhull.py |  2 +-
 psdr/domains/linquad.py    | 27 ++++++++++++++++------
 psdr/domains/tensor.py     | 47 ++++++++++++++++++++++++++++++++++----
 psdr/domains/unbounded.py  | 15 ++++++++++++
 4 files changed, 78 insertions(+), 13 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 42ef80b..14bf185 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -205,7 +205,7 @@ class ConvexHullDomain(LinQuadDomain):
 		dom_hull = LinQuadDomain(A = A, b = b, A_eq = A_eq, b_eq = b_eq, names = self.names, **kwargs)
 		dom_hull.vertices = np.copy(vertices)
 		# Add back in non-hull constraints
-		dom = dom_hull.add_constraints(A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
+		dom = dom_hull.add_constraints(lb = self.lb, ub = self.ub, A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
 				Ls = self.Ls, ys = self.ys, rhos = self.rhos)
 		return dom
 
diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index 3664960..3b9131d 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -347,21 +347,34 @@ class LinQuadDomain(EuclideanDomain):
 
 		if len(Ls) > 0:
 			return LinQuadDomain(lb = lb, ub = ub, A = A, b = b, A_eq = A_eq, b_eq = b_eq,
-				 Ls = Ls, ys = ys, rhos = rhos, names = self.names)
+				 Ls = Ls, ys = ys, rhos = rhos, names = self.names, **self.kwargs)
 		elif len(b) > 0 or len(b_eq) > 0:
 			from .linineq import LinIneqDomain
-			return LinIneqDomain(lb = lb, ub = ub, A = A, b = b, A_eq = A_eq, b_eq = b_eq, names = self.names)
+			return LinIneqDomain(lb = lb, ub = ub, A = A, b = b, A_eq = A_eq, b_eq = b_eq, names = self.names, **self.kwargs)
 		else:
 			from .box import BoxDomain
 			return BoxDomain(lb = lb, ub = ub, names = self.names)
 
 	def __and__(self, other):
-		if isinstance(other, LinQuadDomain) or (isinstance(other, TensorProductDomain) and other.is_linquad_domain):
-			return self.add_constraints(lb = other.lb, ub = other.ub,
-				A = other.A, b = other.b, A_eq = other.A_eq, b_eq = other.b_eq,
-				Ls = other.Ls, ys = other.ys, rhos = other.rhos)
-		else:
+		from .convexhull import ConvexHullDomain
+
+		if not (isinstance(other, EuclideanDomain) and other.is_linquad_domain):
 			raise NotImplementedError
 
+		if isinstance(other, TensorProductDomain):
+			other = other._to_linquad()
+		elif isinstance(other, ConvexHullDomain):
+			# The hull itself is not visible in the constraints below
+			if isinstance(self, ConvexHullDomain):
+				other = other.to_linineq()
+			else:
+				dom = other & self
+				dom._init_names(self.names)
+				return dom
+
+		return self.add_constraints(lb = other.lb, ub = other.ub,
+			A = other.A, b = other.b, A_eq = other.A_eq, b_eq = other.b_eq,
+			Ls = other.Ls, ys = other.ys, rhos = other.rhos)
+
 	def __rand__(self, other):
 		return self.__and__(other)
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index 2c4f073..33a507d 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -162,12 +162,49 @@ class TensorProductDomain(EuclideanDomain):
 	def b_eq(self):
 		return np.concatenate([dom.b_eq for dom in self.domains])
 
-	def add_constraints(self, *args, **kwargs):
-		if self.is_linquad_domain:
-			from .linquad import LinQuadDomain
-			return LinQuadDomain.add_constraints(self, *args, **kwargs)
-		else:
+	@property
+	def Ls(self):
+		Ls = []
+		for dom, I in zip(self.domains, self._slices):
+			for L in dom.Ls:
+				L_tmp = np.zeros((L.shape[0], len(self)))
+				L_tmp[:,I] = L
+				Ls.append(L_tmp)
+		return Ls
+
+	@property
+	def ys(self):
+		ys = []
+		for dom, I in zip(self.domains, self._slices):
+			for y in dom.ys:
+				y_tmp = np.zeros(len(self))
+				y_tmp[I] = y
+				ys.append(y_tmp)
+		return ys
+
+	@property
+	def rhos(self):
+		return list(itertools.chain(*[dom.rhos for dom in self.domains]))
+
+	def _to_linquad(self):
+		r""" Convert into a single domain described by linear and quadratic constraints
+		"""
+		from .linquad import LinQuadDomain
+		if not self.is_linquad_domain:
 			raise NotImplementedError
+		# Convex hulls are not described by the constraints, so these must be converted first
+		dom = TensorProductDomain([dom.to_linineq() if hasattr(dom, 'to_linineq') else dom for dom in self.domains])
+		return LinQuadDomain(lb = dom.lb, ub = dom.ub, A = dom.A, b = dom.b, A_eq = dom.A_eq, b_eq = dom.b_eq,
+			Ls = dom.Ls, ys = dom.ys, rhos = dom.rhos, names = self.names, **self.kwargs)
+
+	def add_constraints(self, *args, **kwargs):
+		return self._to_linquad().add_constraints(*args, **kwargs)
+
+	def __and__(self, other):
+		return self._to_linquad() & other
+
+	def __rand__(self, other):
+		return self.__and__(other)
 
 	def _init_lb(self, *args, **kwargs):
 		from .linquad import LinQuadDomain
diff --git a/psdr/domains/unbounded.py b/psdr/domains/unbounded.py
index 302a489..e4a2254 100644
--- a/psdr/domains/unbounded.py
+++ b/psdr/domains/unbounded.py
@@ -57,6 +57,21 @@ class UnboundedDomain(EuclideanDomain):
 		names_norm = [name + ' (normalized)' for name in self.names]
 		return UnboundedDomain(len(self), names = names_norm)
 
+	def _to_linquad(self):
+		from .linquad import LinQuadDomain
+		return LinQuadDomain(lb = self.lb, ub = self.ub, names = self.names, **self.kwargs)
+
+	def add_constraints(self, *args, **kwargs):
+		r"""Add new constraints to the domain
+		"""
+		return self._to_linquad().add_constraints(*args, **kwargs)
+
+	def __and__(self, other):
+		return self._to_linquad() & other
+
+	def __rand__(self, other):
+		return self.__and__(other)
+
 	def _isinside(self, X, tol = None):
 		if X.shape[1]== len(self):
 			return np.ones(X.shape[0],dtype = np.bool)
-- 
2.43.0


From f7e4f8ec1af2286379ba2f18c9bfcd757080aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 019/150] fix: asking whether a box is empty changed whether it
 is a point or unbounded

---
 psdr/domains/box.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/psdr/domains/box.py b/psdr/domains/box.py
index 8238a81..4b1ff06 100644
--- a/psdr/domains/box.py
+++ b/psdr/domains/box.py
@@ -30,30 +30,15 @@ class BoxDomain(LinIneqDomain):
 
 	@property
 	def is_empty(self):
-		try:
-			return self._empty
-		except AttributeError:
-			self._empty = np.any(self.lb > self.ub)
-			self._point = False
-			self._unbounded = False
-			return self._empty
-	
+		return bool(np.any(self.lb > self.ub))
+
 	@property
 	def is_point(self):
-		try:
-			return self._point
-		except AttributeError:
-			self._point = np.all(np.abs(self.ub - self.lb) < TOL)
-			return self._point
+		return bool(not self.is_empty and np.all(np.abs(self.ub - self.lb) < TOL))
 
 	@property
 	def is_unbounded(self):
-		try:
-			return self._unbounded
-		except AttributeError:
-			self._unbounded = np.any(np.isinf(self.lb)) | np.any(np.isinf(self.ub))
-			return self._unbounded
-
+		return bool(not self.is_empty and (np.any(np.isinf(self.lb)) | np.any(np.isinf(self.ub))))
 
 	# Due to the simplicity of this domain, we can use a more efficient sampling routine
 	def _sample(self, draw = 1):
-- 
2.43.0


From ffe68f6616dd2ae3310146b669aee13e205a397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 020/150] fix: is_unbounded failed for one dimensional domains

---
 psdr/domains/euclidean.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 7481635..dafe573 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -113,7 +113,11 @@ class EuclideanDomain(Domain):
 	@cached_property
 	def is_unbounded(self):
 		try:
-			U = ortho_group.rvs(len(self))
+			if len(self) > 1:
+				U = ortho_group.rvs(len(self))
+			else:
+				U = np.ones((1,1))
+
 			for u in U:
 				x1 = self.corner(u)
 				x2 = self.corner(-u)
-- 
2.43.0


From d5c0660c9ddc424bdc140aba3acd03235b04b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 021/150] fix: sweep modified the direction it was given,
 failed for integer directions, single points, and points that cannot move

---
 psdr/domains/euclidean.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index dafe573..41b7922 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -445,6 +445,7 @@ class EuclideanDomain(Domain):
 			p = np.random.randn(len(self))
 		else:
 			assert len(p) == len(self), "Length of direction vector 'p' does not match the domain"
+			p = np.array(p, dtype = float)
 
 		if corner:
 			# Two end points for search
@@ -453,18 +454,27 @@ class EuclideanDomain(Domain):
 		else:
 			# Orthogonalize search direction against equality constraints 
 			Qeq = self._A_eq_basis
-			p -= Qeq.dot(Qeq.T.dot(p))
-
-			a1 = self.extent(x, p)
+			p_free = p - Qeq.dot(Qeq.T.dot(p))
+			if np.linalg.norm(p_free) <= 1e-10*np.linalg.norm(p):
+				# We cannot move in this direction
+				p_free *= 0
+				a1 = a2 = 0.
+			else:
+				a1 = self.extent(x, p_free)
+				a2 = -self.extent(x, -p_free)
+			p = p_free
+			if not (np.isfinite(a1) and np.isfinite(a2)):
+				raise UnboundedDomainException
 			c1 = x + a1*p
-			a2 = -self.extent(x, -p)
 			c2 = x + a2*p
 		
 		# Samples
 		X = np.array([ (1-alpha)*c1 + alpha*c2 for alpha in np.linspace(0,1,n)])
 
 		# line direction
-		d = (X[1] - X[0])/np.linalg.norm(X[1] - X[0])	
+		d = c2 - c1
+		if np.linalg.norm(d) > 0:
+			d = d/np.linalg.norm(d)
 		y = X.dot(d)
 		return X, y
 
-- 
2.43.0


From e9904ac5a75fe0edf36b8c38a487ce9e9a680d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 022/150] fix: sample_boundary and samples of point-like
 domains needed a center that most domains lack

---
 psdr/domains/euclidean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 41b7922..9925f37 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -645,7 +645,7 @@ class EuclideanDomain(Domain):
 
 		# However, we only use hit and run if it isn't a point
 		if self.is_point:
-			c = self.center
+			c = self._corner_center()
 			return np.array([c for i in range(draw)])
 
 		X = [self._hit_and_run() for i in range(3*draw)]
@@ -686,7 +686,7 @@ class EuclideanDomain(Domain):
 		"""
 		draw = int(draw)
 	
-		dirs = [self.random_direction(self.center) for i in range(draw)]
+		dirs = [self.random_direction(None) for i in range(draw)]
 		X = np.array([self.corner(d) for d in dirs])
 	
 		if draw == 1:
-- 
2.43.0


From 5f8d16c788d45f7fbfee83e8b67569c7b0193098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 023/150] fix: random directions on domains that are flat
 without equality constraints never terminated

---
 psdr/domains/convexhull.py |  8 +++----
 psdr/domains/euclidean.py  | 44 +++++++++++++++++++++++++++++---------
 psdr/domains/tensor.py     |  5 +++++
 3 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 14bf185..d8b09ef 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -315,10 +315,10 @@ class ConvexHullDomain(LinQuadDomain):
 
 	@cached_property
 	def _A_eq_basis(self):
-		try: 
-			if len(self.A_eq) == 0: raise AttributeError
-			Qeq = orth(self.A_eq.T)
-		except AttributeError:
+		A_eq = np.vstack([self.A_eq, self._A_implicit_eq])
+		if len(A_eq) > 0:
+			Qeq = orth(A_eq.T)
+		else:
 			Qeq = np.zeros((len(self),0))
 		
 		# Check if points are colinear; if so add the corresponding equality constraint	
diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 9925f37..f4e8e0e 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -714,15 +714,29 @@ class EuclideanDomain(Domain):
 			raise NotImplementedError
 
 		Qeq = self._A_eq_basis
-		while True:
+		for it in range(100):
 			# Generate a random direction inside 
 			p = np.random.normal(size = (len(self),))
 			# Orthogonalize against equality constarints constraints
 			p = p - Qeq @ (Qeq.T @ p)
 			# check that the direction isn't hitting a constraint
-			if x is None or self.extent(x, p) > 0:
-				break
-		return p	
+			if np.linalg.norm(p) > 1e-10 and (x is None or self.extent(x, p) > 1e-7):
+				return p
+
+		# If (almost) no direction is allowed, move towards another point in the domain
+		# along the constraints that are active at both points
+		A, b = self.A_aug, self.b_aug
+		for p in np.vstack([np.eye(len(self)), -np.eye(len(self))]):
+			y = self.corner(p)
+			active = (np.abs(A @ x - b) < 1e-7) & (np.abs(A @ y - b) < 1e-7)
+			Q = np.hstack([Qeq, A[active].T])
+			if Q.shape[1] > 0:
+				Q = orth(Q)
+			p = (y - x) - Q @ (Q.T @ (y - x))
+			if np.linalg.norm(p) > 1e-7 and self.extent(x, p) > 1e-7:
+				return p
+
+		raise ValueError("Could not find a direction that stays inside the domain")
 
 	def quadrature_rule(self, N, method = 'auto'):
 		r""" Constructs quadrature rule for the domain
@@ -857,12 +871,22 @@ class EuclideanDomain(Domain):
 	def _A_eq_basis(self):
 		r""" This contains an orthogonal basis for the directions that are *not* allowed to be moved along
 		"""
-		try: 
-			if len(self.A_eq) == 0: raise AttributeError
-			Qeq = orth(self.A_eq.T)
-		except AttributeError:
-			Qeq = np.zeros((len(self),0))
-		return Qeq
+		A_eq = np.vstack([self.A_eq, self._A_implicit_eq])
+		if len(A_eq) == 0:
+			return np.zeros((len(self),0))
+		return orth(A_eq.T)
+
+	@property
+	def _A_implicit_eq(self):
+		r""" Inequality and bound constraints that appear with both signs and hence are equality constraints
+		"""
+		A, b = self.A_aug, self.b_aug
+		normA = np.linalg.norm(A, axis = 1)
+		I = normA > 0
+		A, b = A[I]/normA[I].reshape(-1,1), b[I]/normA[I]
+		opposing = np.linalg.norm(A[:,None,:] + A[None,:,:], axis = 2) < 1e-13
+		gap = np.abs(b.reshape(-1,1) + b.reshape(1,-1)) <= 1e-13*(1 + np.abs(b).reshape(-1,1))
+		return A[np.any(np.triu(opposing & gap), axis = 1)]
 
 
 	def _corner_center(self):
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index 33a507d..ea2c6c8 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -2,6 +2,7 @@ from __future__ import division
 
 import numpy as np
 import itertools
+from scipy.linalg import block_diag
 
 from ..misc import merge
 from .euclidean import EuclideanDomain
@@ -82,6 +83,10 @@ class TensorProductDomain(EuclideanDomain):
 		return min(alpha, default = np.inf)
 
 
+	@property
+	def _A_eq_basis(self):
+		return block_diag(*[dom._A_eq_basis for dom in self.domains])
+
 	def __len__(self):
 		return sum([len(dom) for dom in self.domains])
 
-- 
2.43.0


From f07132dbe4b06ff9c3951d8ee16e9a4b27bcc366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 024/150] fix: corner missed infinite maxima along general
 directions and reported some empty domains as unbounded

---
 psdr/domains/convexhull.py |  3 +++
 psdr/domains/euclidean.py  | 29 +++++++++++++++++++++--------
 psdr/domains/tensor.py     |  3 +++
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index d8b09ef..a14119a 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -313,6 +313,9 @@ class ConvexHullDomain(LinQuadDomain):
 
 
 
+	def _is_unbounded_along(self, p):
+		return False
+
 	@cached_property
 	def _A_eq_basis(self):
 		A_eq = np.vstack([self.A_eq, self._A_implicit_eq])
diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index f4e8e0e..0fa196e 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from scipy.stats import ortho_group
 from scipy.linalg import orth
+from scipy.optimize import linprog
 from scipy.spatial.distance import pdist
 
 from functools import lru_cache
@@ -306,6 +307,7 @@ class EuclideanDomain(Domain):
 			#self._unbounded = True
 			#self._empty = False
 			#self._point = False
+			self._check_feasible()
 			raise UnboundedDomainException
 		elif problem.status not in ['optimal', 'optimal_inaccurate']:
 			raise SolverError("CVXPY exited with status '%s'" % problem.status)
@@ -314,18 +316,29 @@ class EuclideanDomain(Domain):
 		self._empty = False
 		x = self.unnormalize(np.array(x_norm.value).reshape(len(self)))
 
-		# The solver does not notice the domain is unbounded if no inequality constraint is ever reached;
-		# hence if we can move forever along the direction or along one of its components,
-		# restricted to equality constraints, the domain is unbounded
+		# The solver does not reliably notice that the maximum is infinite
 		if not (np.all(np.isfinite(self.norm_lb)) and np.all(np.isfinite(self.norm_ub))):
-			for q in np.vstack([p, np.diag(p)]):
-				q_free = q - self._A_eq_basis @ (self._A_eq_basis.T @ q)
-				if q_free @ p > 1e-10*(p @ p) and np.isinf(self._extent(x, q_free)):
-					raise UnboundedDomainException
+			if self._is_unbounded_along(p):
+				self._check_feasible()
+				raise UnboundedDomainException
 
 		return x
-		
 
+	def _check_feasible(self):
+		r""" Empty domains can be described by constraints that allow moving forever; this raises an error for these
+		"""
+		try:
+			self.closest_point(np.zeros(len(self)))
+		except SolverError:
+			pass
+
+	def _is_unbounded_along(self, p):
+		r""" Check if there is a direction q in which we can move forever (from any point) that increases p.T @ q
+		"""
+		A, A_eq = self.A, np.vstack([self.A_eq] + list(self.Ls))
+		bounds = [(0 if np.isfinite(lb) else -1, 0 if np.isfinite(ub) else 1) for lb, ub in zip(self.lb, self.ub)]
+		res = linprog(-p, A_ub = A, b_ub = np.zeros(len(A)), A_eq = A_eq, b_eq = np.zeros(len(A_eq)), bounds = bounds)
+		return res.status == 0 and -res.fun > 1e-7*np.linalg.norm(p)
 
 	def constrained_least_squares(self, A, b, **kwargs):
 		r"""Solves a least squares problem constrained to the domain
diff --git a/psdr/domains/tensor.py b/psdr/domains/tensor.py
index ea2c6c8..d083bbc 100644
--- a/psdr/domains/tensor.py
+++ b/psdr/domains/tensor.py
@@ -83,6 +83,9 @@ class TensorProductDomain(EuclideanDomain):
 		return min(alpha, default = np.inf)
 
 
+	def _is_unbounded_along(self, p):
+		return any([dom._is_unbounded_along(p[I]) for dom, I in zip(self.domains, self._slices)])
+
 	@property
 	def _A_eq_basis(self):
 		return block_diag(*[dom._A_eq_basis for dom in self.domains])
-- 
2.43.0


From dd68528ac53987fbc5823edeba01e2727322acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 025/150] fix: density and bounds of log-normal domains

The density divided by the variance instead of the standard deviation, was nan
outside of the support, ignored the truncation, and was returned as a (N,1)
array; a negative scaling exchanged the lower and upper bound.
---
 psdr/domains/lognormal.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/psdr/domains/lognormal.py b/psdr/domains/lognormal.py
index 7f552ec..5fa5632 100644
--- a/psdr/domains/lognormal.py
+++ b/psdr/domains/lognormal.py
@@ -51,11 +51,13 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 		# truncated domains, we manually specify these here as they cannot be inferred
 		# from the (non-existant) quadratic constraints as in the NormalDomain case.
 		if self.truncate is not None:
-			self._lb = self.offset + self.scaling*np.exp(self.normal_domain.norm_lb)
-			self._ub = self.offset + self.scaling*np.exp(self.normal_domain.norm_ub)
+			ends = [self.offset + self.scaling*np.exp(self.normal_domain.norm_lb),
+				self.offset + self.scaling*np.exp(self.normal_domain.norm_ub)]
 		else:
-			self._lb = self.offset*np.ones(1)
-			self._ub = np.inf*np.ones(1)
+			ends = [self.offset*np.ones(1), np.copysign(np.inf, self.scaling)*np.ones(1)]
+		# If the scaling is negative the distribution is reflected
+		self._lb = np.minimum(*ends)
+		self._ub = np.maximum(*ends)
 
 		self._init_names(names)
 
@@ -77,6 +79,12 @@ class LogNormalDomain(BoxDomain, RandomDomain):
 			return self
 
 	def _pdf(self, X):
-		X_norm = (X - self.offset)/self.scaling
-		p = np.exp(-(np.log(X_norm) - self.mean)**2/(2*self.cov))/(X_norm*self.cov*np.sqrt(2*np.pi))
+		# Density with respect to the scaled variable (x - offset)/scaling
+		X_norm = (X[:,0] - self.offset)/self.scaling
+		p = np.zeros(X_norm.shape)
+		I = (X_norm > 0)
+		p[I] = np.exp(-(np.log(X_norm[I]) - self.mean)**2/(2*self.cov))/(X_norm[I]*np.sqrt(2*np.pi*self.cov))
+		if self.truncate is not None:
+			p[~self.isinside(X)] = 0
+			p /= (1. - self.truncate)
 		return p
-- 
2.43.0


From 52c0811ef44b953d681395eeb531a3420503d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 026/150] fix: chebyshev_center answered for empty domains and
 when the radius is unlimited

Empty domains were given a center with a negative radius, unlimited radii an
arbitrary one; the center handed out was the array kept by the domain.
---
 psdr/domains/euclidean.py |  2 +-
 psdr/domains/linineq.py   | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 0fa196e..1ef386a 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -951,7 +951,7 @@ class EuclideanDomain(Domain):
 	
 				# TODO: chebyshev_center breaks when running test_lipschitz_sample yielding a SolverError
 				# It really shouldn't error
-			except (AttributeError, NotImplementedError):
+			except (AttributeError, NotImplementedError, UnboundedDomainException):
 				x0 = self._corner_center()
 			self._hit_and_run_state = x0
 		
diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index 0a87be1..ef3c5b0 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -2,12 +2,14 @@ from __future__ import division
 
 import numpy as np
 
+from scipy.optimize import linprog
 import cvxpy as cp
 
 from .domain import TOL
 from .linquad import LinQuadDomain
 
 from ..misc import merge
+from ..exceptions import EmptyDomainException, UnboundedDomainException
 
 class LinIneqDomain(LinQuadDomain):
 	r"""A domain specified by a combination of linear equality and inequality constraints.
@@ -80,6 +82,13 @@ class LinIneqDomain(LinQuadDomain):
 		radius: float
 			radius of largest circle inside the domain
 
+		Raises
+		------
+		EmptyDomainException
+			If there is no point satisfying the constraints
+		UnboundedDomainException
+			If there are circles of any radius inside the domain
+
 		References
 		----------
 		.. [BVNotes] https://see.stanford.edu/materials/lsocoee364a/04ConvexOptimizationProblems.pdf, page 4-19.
@@ -94,6 +103,14 @@ class LinIneqDomain(LinQuadDomain):
 		# 
 		normA = np.sqrt( np.sum( np.power(A, 2), axis=1 ) ).reshape((A.shape[0], ))
 		
+		# The radius is not limited if we can move forever while increasing the radius
+		res = linprog(np.append(np.zeros(len(self)), -1), A_ub = np.column_stack([A, normA]), b_ub = np.zeros(len(b)),
+			A_eq = np.column_stack([self.A_eq, np.zeros(len(self.A_eq))]), b_eq = np.zeros(len(self.A_eq)),
+			bounds = [(-1,1)]*len(self) + [(0,1)])
+		if res.status == 0 and -res.fun > 1e-7:
+			if self.is_empty: raise EmptyDomainException
+			raise UnboundedDomainException
+
 		r = cp.Variable(1)
 		x = cp.Variable(len(self))
 		
@@ -103,7 +120,14 @@ class LinIneqDomain(LinQuadDomain):
 
 		problem = cp.Problem(cp.Maximize(r), constraints)
 		problem.solve(**self.kwargs)
-		radius = float(r.value)
+		if problem.status in ['infeasible', 'infeasible_inaccurate']:
+			raise EmptyDomainException
+
+		# The problem above is feasible with a negative radius even if the domain is empty 
+		radius = float(np.asarray(r.value).item())
+		if radius < 0:
+			if self.is_empty: raise EmptyDomainException
+			radius = 0.
 		center = np.array(x.value).reshape(len(self))
 		
 		#AA = np.hstack(( A, normA.reshape(-1,1) ))
@@ -121,7 +145,7 @@ class LinIneqDomain(LinQuadDomain):
 		#print(zc.value[0:-1])
 
 		self._radius = radius
-		self._cheb_center = center
+		self._cheb_center = np.copy(center)
 		
 		return center, radius
 		
@@ -129,17 +153,17 @@ class LinIneqDomain(LinQuadDomain):
 	def radius(self):
 		try:
 			return self._radius
-		except:
+		except AttributeError:
 			self.chebyshev_center()
 			return self._radius
 
 	@property
 	def center(self):
 		try:
-			return self._cheb_center
-		except:
+			return np.copy(self._cheb_center)
+		except AttributeError:
 			self.chebyshev_center()
-			return self._cheb_center
+			return np.copy(self._cheb_center)
 
 	@property
 	def Ls(self): return []
-- 
2.43.0


From f1af31526efc78ab6c9b445fd5cb97bcf5ac032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 027/150] fix: quadrature rules on thin and empty domains never
 terminated

The tensor product rule was refined until it had too many points inside the domain.
---
 psdr/domains/euclidean.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 1ef386a..71db487 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -785,6 +785,9 @@ class EuclideanDomain(Domain):
 			if self.truncate is not None:
 				raise NotImplementedError
 
+		if self.is_empty:
+			raise EmptyDomainException
+
 		# If we have a single point in the domain, we can't really integrate
 		if self.is_point:
 			return self.sample().reshape(1,-1), np.ones(1) 
@@ -843,7 +846,8 @@ class EuclideanDomain(Domain):
 			# Now we iterate, increasing the density of the quadrature rule
 			# while staying below the maximum number of points 
 			# TODO: Use a bisection search to find the right spacing
-			while True:
+			# As thin domains might never contain N points, we limit the size of the tensor product rule
+			while np.prod(qs + 1.) <= max(1e4, 100*N) and np.max(qs) < max(500, 2*q):
 				# increase dimension of the rule 
 				qs += 1.
 				Xnew, wnew = quad(qs)
@@ -853,9 +857,13 @@ class EuclideanDomain(Domain):
 				else:
 					break
 
-			return X, w 
+			if len(X) > 0:
+				return X, w 
+
+			# If no tensor product rule has points inside the domain, sample the domain instead 
+			method = 'montecarlo'
 
-		elif method == 'montecarlo':
+		if method == 'montecarlo':
 			# For a Monte-Carlo rule we simply sample the domain randomly.
 			w = (1./N)*np.ones(N)
 			X = self.sample(N)
-- 
2.43.0


From 549cb576c0de1389318e08453e2e2437833f228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 028/150] fix: Monte Carlo quadrature rules with a single node
 returned a vector

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 71db487..a738ee2 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -866,7 +866,7 @@ class EuclideanDomain(Domain):
 		if method == 'montecarlo':
 			# For a Monte-Carlo rule we simply sample the domain randomly.
 			w = (1./N)*np.ones(N)
-			X = self.sample(N)
+			X = self.sample(N).reshape(N, len(self))
 
 			# However, we need to include a correction to account for the 
 			# volume of this domain
-- 
2.43.0


From a333e23f52aa68046a238a78795957d1ca7598e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 029/150] fix: the vertices of a convex hull were missing from
 its conversion to inequalities

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index a14119a..1fb04dd 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -203,11 +203,11 @@ class ConvexHullDomain(LinQuadDomain):
 		"""
 		A, b, A_eq, b_eq, vertices = _hull_to_linineq(self._X)
 		dom_hull = LinQuadDomain(A = A, b = b, A_eq = A_eq, b_eq = b_eq, names = self.names, **kwargs)
-		dom_hull.vertices = np.copy(vertices)
 		# Add back in non-hull constraints
 		dom = dom_hull.add_constraints(lb = self.lb, ub = self.ub, A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
 				Ls = self.Ls, ys = self.ys, rhos = self.rhos)
 		return dom
+		dom.vertices = np.copy(vertices)
 
 
 	def coefficients(self, x, **kwargs):
-- 
2.43.0


From f7335733e46197cba056e63f33f820d82f13ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 030/150] fix: samples of a single point hull ignored its
 constraints

---
 psdr/domains/convexhull.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 1fb04dd..dee7c77 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -19,6 +19,7 @@ from .domain import TOL, DEFAULT_CVXPY_KWARGS
 from .linquad import LinQuadDomain
 from .box import BoxDomain
 from ..misc import merge
+from ..exceptions import EmptyDomainException
 from ..geometry import unique_points
 from .euclidean import TOL
 
@@ -206,8 +207,8 @@ class ConvexHullDomain(LinQuadDomain):
 		# Add back in non-hull constraints
 		dom = dom_hull.add_constraints(lb = self.lb, ub = self.ub, A = self.A, b = self.b, A_eq = self.A_eq, b_eq = self.b_eq,
 				Ls = self.Ls, ys = self.ys, rhos = self.rhos)
-		return dom
 		dom.vertices = np.copy(vertices)
+		return dom
 
 
 	def coefficients(self, x, **kwargs):
@@ -230,6 +231,8 @@ class ConvexHullDomain(LinQuadDomain):
 
 	def _sample(self, draw = 1):
 		if len(self.X) == 1:
+			# The point has to satisfy the remaining constraints as well
+			if not np.all(self.isinside(self.X)): raise EmptyDomainException
 			return np.outer(np.ones(draw), self.X)
 
 		try:
-- 
2.43.0


From f74831149aa64955241d09ad85fe9efaeaa9baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 031/150] fix: an active constraint stopped the search for a
 Voronoi vertex

---
 psdr/geometry/vertex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 2d747a1..31da995 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -292,6 +292,9 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 			alpha_c = (b - AX0)/Ah
 		alpha_c[~np.isfinite(alpha_c)] = np.inf
 		alpha_c[alpha_c <= 0] = np.inf
+		# The search direction is parallel to the active constraints
+		# so up to rounding errors they do not limit the step
+		alpha_c[active] = np.inf
 		# When the step size is near zero, the above formula is inaccurate
 		# causing points to emerge outside of the domain. Hence, we zero the
 		# step size for these points.
-- 
2.43.0


From c6d3c75227d016c31ee9616d1cbf7c3fb6463394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 032/150] fix: sampled Voronoi vertices with dependent or tied
 constraints

---
 psdr/geometry/vertex.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 31da995..2cdfa7e 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -236,15 +236,17 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 				if active[i,j] : nullspace += [A[j].reshape(-1,1)]
 
 			# constraints from other points in the domain
-			for j in range(1, min(k+1, len(Xhat))):
-				if np.isclose(D[i,I[i,0]], D[i,I[i,j]]):	
-					nullspace += [LTL.dot(Xhat[I[i,0]] - Xhat[I[i,j]]).reshape(-1,1)]
+			for j in range(1, len(Xhat)):
+				if not np.isclose(D[i,I[i,0]], D[i,I[i,j]]):	
+					break
+				nullspace += [LTL.dot(Xhat[I[i,0]] - Xhat[I[i,j]]).reshape(-1,1)]
 					#h[i] += (X0[i] - Xhat[I[i,j]])
 
 			nullspace = np.hstack(nullspace)
 			# If there are no active constraints, don't do anything
 			if nullspace.shape[1]>0:
-				Q, R = scipy.linalg.qr(nullspace, overwrite_a = True, mode = 'economic')
+				# These constraints are not necessarily linearly independent
+				Q = scipy.linalg.orth(nullspace)
 				h[i] -= Q.dot(Q.T.dot(h[i]))
 				if np.isclose(np.linalg.norm(h[i]), 0) and randomize:
 					# If L is low-rank we can have situations where h[i]	
-- 
2.43.0


From 56244dd6b8defb854588af7696d40392a7ff8f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 033/150] fix: Voronoi vertices of a site on the boundary of
 the domain

---
 psdr/geometry/vertex.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 2cdfa7e..22e7b41 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -64,11 +64,6 @@ def voronoi_vertex(domain, Xhat, L = None):
 	# Half spaces from the domain
 	A, b = domain.A_aug, domain.b_aug
 
-	if len(Xhat) == 1:
-		halfspaces = np.hstack([A, -b.reshape(-1,1)])
-		hs = HalfspaceIntersection(halfspaces, Xhat[0])
-		return hs.intersections	
-
 	Yhat = (L @ Xhat.T).T
 	LV = []
 	for k, xhat in enumerate(Xhat):
@@ -86,6 +81,10 @@ def voronoi_vertex(domain, Xhat, L = None):
 		halfspaces = np.hstack([np.vstack([A @ Linv , Ak  ]) , -np.hstack([b, bk]).reshape(-1,1)])
 
 		try:
+			# Qhull is inaccurate if the point is only inside the constraints by rounding errors
+			slack = -(halfspaces[:,:-1] @ xhat + halfspaces[:,-1])/np.linalg.norm(halfspaces[:,:-1], axis = 1)
+			if np.min(slack) <= 1e-7*np.max(slack):
+				raise QhullError
 			hs = HalfspaceIntersection(halfspaces, xhat)
 		except QhullError:
 			# The point xhat isn't strictly inside the constraints, so we try with a point that is
-- 
2.43.0


From dc47a1cb61fe6aaf7c6b49253c1bfdc1f67348fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 034/150] fix: Voronoi vertices for a weight with more rows
 than columns

---
 psdr/geometry/vertex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 22e7b41..6906a14 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -56,6 +56,9 @@ def voronoi_vertex(domain, Xhat, L = None):
 		L = np.eye(len(domain))
 		Linv = np.eye(len(domain))
 	else:
+		# Use the equivalent square weight if there are more rows than dimensions
+		if len(L) > len(domain):
+			L = scipy.linalg.qr(L, mode = 'economic')[1]
 		U, s, VT = np.linalg.svd(L)
 		Linv = VT.T @ np.diag(1./s) @ U.T
 
-- 
2.43.0


From 49d9b73ea597d72a1b9db38bc9d5534e32505bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 035/150] fix: Voronoi vertices of domains with equality
 constraints

---
 psdr/geometry/vertex.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index 6906a14..bb9b1f5 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -51,6 +51,20 @@ def voronoi_vertex(domain, Xhat, L = None):
 	
 	assert np.all(domain.isinside(Xhat))
 
+	assert len(domain.Ls) == 0, "Currently this does not support domains with quadratic constraints"
+
+	if len(domain.A_eq) > 0:
+		# Use coordinates for the affine subspace satisfying the equality constraints
+		from ..domains import LinIneqDomain
+		Q = scipy.linalg.null_space(domain.A_eq)
+		x0 = Xhat[0]
+		if Q.shape[1] == 0:
+			return np.copy(x0).reshape(1,-1)
+		A = domain.A_aug @ Q
+		b = domain.b_aug - domain.A_aug @ x0
+		I = np.linalg.norm(A, axis = 1) > 1e-10
+		V = voronoi_vertex(LinIneqDomain(A = A[I], b = b[I]), (Xhat - x0) @ Q, L = Q if L is None else L @ Q)
+		return V @ Q.T + x0
 
 	if L is None:
 		L = np.eye(len(domain))
-- 
2.43.0


From 9bc40babe2d92d23d4b9ca8837f6c9f72ce2cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 036/150] fix: one-dimensional Voronoi vertices had spurious
 midpoints with the boundary

---
 psdr/geometry/vertex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index bb9b1f5..deaad5c 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -28,7 +28,7 @@ def voronoi_vertex_1d(domain, Xhat, L = None):
 	lb = domain.corner(np.array([-1]))
 	ub = domain.corner(np.array([1]))
 	
-	X = np.sort(np.hstack([Xhat.flatten(), ub, lb]))
+	X = np.unique(Xhat.flatten())
 	# mid point between X
 	V = 0.5*(X[1:] + X[:-1])
 	# add boundaries
-- 
2.43.0


From 9ab04aecaa9cedb449d04a4cbf68654d119005b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 037/150] fix: Voronoi vertices on a convex hull domain raised
 an error

---
 psdr/geometry/vertex.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/geometry/vertex.py b/psdr/geometry/vertex.py
index deaad5c..d9bc343 100644
--- a/psdr/geometry/vertex.py
+++ b/psdr/geometry/vertex.py
@@ -50,6 +50,10 @@ def voronoi_vertex(domain, Xhat, L = None):
 		return voronoi_vertex_1d(domain, Xhat)
 	
 	assert np.all(domain.isinside(Xhat))
+	
+	# Convex hulls do not provide their inequality constraints
+	if hasattr(domain, 'to_linineq'):
+		domain = domain.to_linineq()
 
 	assert len(domain.Ls) == 0, "Currently this does not support domains with quadratic constraints"
 
@@ -201,6 +205,9 @@ def voronoi_vertex_sample(domain, Xhat, X0, L = None, randomize = True):
 
 	# Startup checks
 	#assert isinstance(domain, Domain), "domain must be an instance of the Domain class"
+	# Convex hulls do not provide their inequality constraints
+	if hasattr(domain, 'to_linineq'):
+		domain = domain.to_linineq()
 	assert len(domain.Ls) == 0, "Currently this does not support domains with quadratic constraints"
 	Xhat = np.atleast_2d(np.array(Xhat))
 	X0 = np.atleast_2d(np.array(X0)).copy()
-- 
2.43.0


From b2d4cf50f844c495349e35c6fbf7826974e76f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 038/150] fix: maximin Latin hypercube designs with a single
 point raised an error

---
 psdr/sample/latin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/latin.py b/psdr/sample/latin.py
index ce5b445..b75f445 100644
--- a/psdr/sample/latin.py
+++ b/psdr/sample/latin.py
@@ -92,9 +92,13 @@ def _latin_hypercube_maximin_box(domain, N, maxiter = 1000):
 		xs.append(xi)
 	
 	score_best = tuple(np.zeros(N))
-	X_best = None
 	# Generate random initial permutations
 	perms_best = np.vstack([np.random.permutation(N) for i in range(len(domain))])
+	X_best = np.array([ [xs[i][j] for j in perms_best[i]] for i in range(len(domain))]).T
+
+	# With a single point there is nothing to permute
+	if N == 1:
+		return X_best
 	
 	for it in range(maxiter):
 		# Generate new permutation of the permutations
-- 
2.43.0


From 3909ffc59ddb108e49d397c5f4043532b3ec5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 039/150] fix: projection samples with a single point raised an
 error

---
 psdr/sample/projection.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 025393c..29a5ca0 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -77,12 +77,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			I = np.argsort(y.flatten())
 			neighbors = [ None for j in range(Nsamp)]
 			for j in range(Nsamp):
-				if j == 0:
-					neighbors[I[j]] = np.array([I[j+1]], dtype = np.int)
-				elif j == Nsamp - 1:
-					neighbors[I[j]] = np.array([I[j-1]], dtype = np.int)
-				else:
-					neighbors[I[j]] = np.array([ I[j-1], I[j+1] ], dtype = np.int)
+				neighbors[I[j]] = np.array([I[k] for k in (j-1, j+1) if 0 <= k < Nsamp], dtype = np.int)
 			
 		else:
 			delaunay = Delaunay(y)
@@ -93,8 +88,9 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		
 		# Now construct the inequality constraints for each point's Voronoi cell
 		for j, neigh in enumerate(neighbors):
-			A = []
-			b = []
+			# a single point has no neighbors
+			A = [np.zeros((0, len(domain)))]
+			b = [np.zeros(0)]
 			for k in neigh:
 				p = 0.5*(X[j] + X[k]) 	# point on separating hyperplane
 				n = (X[k] - X[j]).reshape(-1,1) 		# normal vector to hyperplane
@@ -238,7 +234,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			min_dist = np.min(D, axis = 0)
 			score = tuple(np.sort(min_dist))	
 
-			if score > score_best:
+			if X_best is None or score > score_best:
 				X_best = X
 				score_best = score
 				perms_best = perms
-- 
2.43.0


From 03206a3fb6330c6bbadd481067185c4f0f266113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 040/150] fix: projection samples on domains not containing the
 coordinate axes

---
 psdr/sample/projection.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 29a5ca0..6bea5bb 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -99,9 +99,6 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 			
 			As[i][j] = np.vstack(A)
 			bs[i][j] = np.hstack(b)
-			dom = domain.add_constraints(A = As[i][j], b = bs[i][j])
-			assert dom.isinside(X[j])
-			assert np.sum(dom.isinside(X)) == 1	
 
 
 	def encode(metric, order, value):
-- 
2.43.0


From 59aec909959fea20b4e35d9fd8fd0cdd1470b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 041/150] fix: projection samples with subdomains touching the
 domain in a point

---
 psdr/sample/projection.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 6bea5bb..a9c5677 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -1,6 +1,7 @@
 from __future__ import print_function
 
 import numpy as np
+import cvxpy as cp
 from scipy.spatial.distance import pdist, squareform
 from satyrn import picosat
 
@@ -13,7 +14,7 @@ from .util import low_rank_L
 from .maximin import maximin_block
 from .latin import _score_maximin
 from ..geometry import voronoi_vertex_sample
-from ..exceptions import EmptyDomainException
+from ..exceptions import EmptyDomainException, SolverError
 
 def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs = False):
 	r""" Construct a maximin design with respect to multiple projections
@@ -117,9 +118,13 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	def subdomain_sample(idx):
 		# The point in the domain that is nearest to the target position
 		subdom = subdomain(idx)
-		A = np.vstack([Ls])
 		b = np.hstack([y[i] for y, i in zip(ys, idx)])
-		return subdom.constrained_least_squares(A, b)
+		try:
+			if subdom.is_empty: return None
+			return subdom.constrained_least_squares(Lall, b)
+		except (EmptyDomainException, SolverError, cp.SolverError):
+			# Subdomains touching the domain in a single point can only be recognized as empty by now
+			return None
 			
 
 	# Construct the geometric constraints we enforce with the SAT solver
@@ -184,8 +189,9 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		# at the start---something that is expensive in cases where only a small 
 		# fraction of subdomains are invalid
 		new_geo_cnf = []
-		for order, subdom in enumerate(subdoms):
-			if subdom.is_empty:
+		points = [subdomain_sample(tuple(perms[:,order])) for order in range(Nsamp)]
+		for order, point in enumerate(points):
+			if point is None:
 				# If the subdomain is empty, block future samples from using this one
 				new_geo_cnf += [ [-encode(metric, o, perms[metric, order]) for metric in range(len(Ls))] 
 						for o in range(Nsamp)] 
@@ -193,10 +199,10 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 		sat_iter.add_clauses(new_geo_cnf)
 		geo_cnf += new_geo_cnf
 
-		if all([ not subdom.is_empty for subdom in subdoms]):
+		if all([ point is not None for point in points]):
 			it += 1	
 	
-			X = np.vstack([subdomain_sample(tuple(perms[:,order])) for order in range(Nsamp)])
+			X = np.vstack(points)
 			
 			if Lall.shape[0] < len(domain):
 				# If the Ls do not completely fix each of the samples, iterate to find maximin design
-- 
2.43.0


From 62f30a4a25e4b8c61da13e25c4c04c2f0e030d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 042/150] fix: evaluate polynomial tensor bases for lists and
 integer points

---
 psdr/basis.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index 4661665..b8cbea9 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -22,6 +22,15 @@ class Basis(object):
 	pass
 
 
+def _as_points(X, dim):
+	r""" Convert to a two-dimensional array of floating point numbers with one point per row
+	"""
+	X = np.array(X)
+	if not np.issubdtype(X.dtype, np.inexact):
+		X = X.astype(float)
+	return X.reshape(-1, dim)
+
+
 
 ################################################################################
 # Indexing utility functions for total degree
@@ -179,8 +188,7 @@ class PolynomialTensorBasis(Basis):
 		elif X is None:
 			raise NotImplementedError
 
-		X = X.reshape(-1, self.dim)
-		X = self._scale(np.array(X))
+		X = self._scale(_as_points(X, self.dim))
 		M = X.shape[0]
 		assert X.shape[1] == self.dim, "Expected %d dimensions, got %d" % (self.dim, X.shape[1])
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
@@ -213,8 +221,7 @@ class PolynomialTensorBasis(Basis):
 		Vc: np.array (M,)
 			Product of Vandermonde matrix and :math:`\mathbf c`
 		"""
-		X = X.reshape(-1, self.dim)
-		X = self._scale(np.array(X))
+		X = self._scale(_as_points(X, self.dim))
 		M = X.shape[0]
 		c = np.array(c)
 		assert len(self.indices) == c.shape[0]
@@ -266,8 +273,7 @@ class PolynomialTensorBasis(Basis):
 			Derivative of Vandermonde matrix where :code:`Vp[i,j,:]`
 			is the gradient of :code:`V[i,j]`. 
 		"""
-		X = X.reshape(-1, self.dim)
-		X = self._scale(np.array(X))
+		X = self._scale(_as_points(X, self.dim))
 		M = X.shape[0]
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
 		
@@ -317,8 +323,7 @@ class PolynomialTensorBasis(Basis):
 			Second derivative of Vandermonde matrix where :code:`Vpp[i,j,:,:]`
 			is the Hessian of :code:`V[i,j]`. 
 		"""
-		X = X.reshape(-1, self.dim)
-		X = self._scale(np.array(X))
+		X = self._scale(_as_points(X, self.dim))
 		M = X.shape[0]
 		V_coordinate = [self.vander(X[:,k], self.degree) for k in range(self.dim)]
 		
-- 
2.43.0


From 364c6065bff799860b0b5dd4ad58f9ec204fec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 043/150] fix: scale polynomial bases when a coordinate of the
 data is constant

---
 psdr/basis.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index b8cbea9..95ecedc 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -141,8 +141,12 @@ class PolynomialTensorBasis(Basis):
 	def _set_scale(self, X):
 		r""" default scaling to [-1,1]
 		"""
-		self._lb = np.min(X, axis = 0)
-		self._ub = np.max(X, axis = 0)
+		self._lb = np.min(X, axis = 0).astype(float)
+		self._ub = np.max(X, axis = 0).astype(float)
+		# Coordinates that do not vary cannot be scaled; simply center these
+		const = (self._lb == self._ub)
+		self._lb[const] -= 1
+		self._ub[const] += 1
 
 	def _scale(self, X):
 		r""" Apply the scaling to the input coordinates
@@ -417,6 +421,8 @@ class HermiteTensorBasis(PolynomialTensorBasis):
 	def _set_scale(self, X):
 		self._mean = np.mean(X, axis = 0)
 		self._std = np.std(X, axis = 0)
+		# Coordinates that do not vary cannot be scaled; simply center these
+		self._std[np.min(X, axis = 0) == np.max(X, axis = 0)] = 1
 
 	def _scale(self, X):
 		try:
-- 
2.43.0


From db8608b6973f23af1a1b2305372209b88f56b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 044/150] fix: roots of polynomials in a basis without scaling

---
 psdr/basis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/basis.py b/psdr/basis.py
index 95ecedc..fec8b14 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -364,6 +364,9 @@ class PolynomialTensorBasis(Basis):
 		if self.dim > 1:
 			raise NotImplementedError
 		r = self.polyroots(coef)
+		if not hasattr(self, '_lb'):
+			# No scaling has been applied
+			return r
 		return r*(self._ub[0] - self._lb[0])/2.0 + (self._ub[0] + self._lb[0])/2.
 		 
 
@@ -440,6 +443,9 @@ class HermiteTensorBasis(PolynomialTensorBasis):
 		if self.dim > 1:
 			raise NotImplementedError
 		r = hermroots(coef)
+		if not hasattr(self, '_std'):
+			# No scaling has been applied
+			return r
 		return r*self._std[0]*np.sqrt(2) + self._mean[0]
 
 
-- 
2.43.0


From 693d4e8c4b45e78864a00c9acf44c8dcff3f2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 045/150] fix: evaluate Arnoldi bases for lists and integer
 points

---
 psdr/basis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/basis.py b/psdr/basis.py
index fec8b14..684f234 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -506,6 +506,7 @@ class ArnoldiPolynomialBasis(Basis):
 	def arnoldi_X(self, X):
 		r""" Generate a Vandermonde matrix corresponding to a different set of points
 		"""
+		X = _as_points(X, self.dim)
 		W = np.zeros((X.shape[0], len(self.indices)), dtype = X.dtype)
 
 		iteridx = enumerate(self.indices)
@@ -528,6 +529,9 @@ class ArnoldiPolynomialBasis(Basis):
 		
 
 	def V(self, X = None):
+		if X is not None:
+			X = _as_points(X, self.dim)
+
 		if X is None or np.array_equal(X, self.X):
 			return self.Q
 		else:
@@ -535,6 +539,9 @@ class ArnoldiPolynomialBasis(Basis):
 
 
 	def DV(self, X = None):
+		if X is not None:
+			X = _as_points(X, self.dim)
+
 		if X is None or np.array_equal(X, self.X):
 			X = self.X
 			V = self.Q
-- 
2.43.0


From 53aaf41cbae8283af665cc39c78250fdbce6d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 046/150] fix: accept lists of points in polynomial functions
 and approximations

---
 psdr/poly.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psdr/poly.py b/psdr/poly.py
index b0f321f..1f12ad9 100644
--- a/psdr/poly.py
+++ b/psdr/poly.py
@@ -75,12 +75,14 @@ class PolynomialFunction(BaseFunction):
 		return self.basis.DDV(X)
 
 	def eval(self, X):
+		X = np.array(X)
 		if len(X.shape) == 1:
 			return self.V(X.reshape(1,-1)).dot(self.coef).reshape(1)
 		else:
 			return self.V(X).dot(self.coef)
 
 	def grad(self, X):
+		X = np.array(X)
 		if len(X.shape) == 1:
 			one_d = True
 			X = X.reshape(1,-1)	
@@ -97,6 +99,7 @@ class PolynomialFunction(BaseFunction):
 			return Df
 
 	def hessian(self, X):
+		X = np.array(X)
 		if len(X.shape) == 1:
 			one_d = True
 			X = X.reshape(1,-1)	
@@ -146,6 +149,8 @@ class PolynomialApproximation(PolynomialFunction):
 		
 
 	def fit(self, X, fX):
+		X = np.array(X)
+		fX = np.array(fX)
 		M, m = X.shape
 
 		# Since we don't know the input dimension until we get the data, we initialize the basis here
-- 
2.43.0


From 9ed95606ea7420373a0741fb476fad743d164715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 047/150] fix: decrease half the squared residual in the line
 search, whose gradient it is given

---
 psdr/gn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index ca2da09..fc00174 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -67,7 +67,8 @@ def linesearch_armijo(f, g, p, x0, bt_factor=0.5, ftol=1e-4, maxiter=40, traject
 			x = trajectory(x0, p, alpha)
 			fx = f(x)
 			fx_norm = np.linalg.norm(fx)
-			if fx_norm < fx0_norm + alpha * ftol * dg:
+			# g is the gradient of 0.5*||f||^2
+			if 0.5*fx_norm**2 < 0.5*fx0_norm**2 + alpha * ftol * dg:
 				success = True
 				break
 		except BadStep:
-- 
2.43.0


From b0fca1d5f2704cb3658f17a9a590cb1278b877a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 048/150] fix: track the gradient norm in Gauss-Newton when not
 printing

---
 psdr/gn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/gn.py b/psdr/gn.py
index fc00174..7c41338 100644
--- a/psdr/gn.py
+++ b/psdr/gn.py
@@ -217,7 +217,8 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 
 		normdx = np.linalg.norm(dx)
 		F_eval = F(x)
-		grad = F_eval.T @ f_eval_new
+		grad = F_eval.T @ f_eval
+		normgrad = np.linalg.norm(grad)
 		
 
 		#########################################################################
@@ -228,7 +229,6 @@ def gauss_newton(f, F, x0, tol=1e-10, tol_normdx=1e-12,
 			cond = s[0] / s[-1]
 		
 		if verbose >= 1:
-			normgrad = np.linalg.norm(grad)
 			print(
 				'    %3d  |  %1.4e  |  %8.2e  |  %8.2e  |  %8.2e  |  %8.2e' % (
 				it, normf, normdx, cond, alpha, normgrad))
-- 
2.43.0


From a0780a0f99de73ca3837976e190eeaa8d38e22d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 049/150] fix: verbose sequential LP started at the optimum or
 without a step

---
 psdr/seqlp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/seqlp.py b/psdr/seqlp.py
index 3ffce95..fcb64e0 100644
--- a/psdr/seqlp.py
+++ b/psdr/seqlp.py
@@ -183,6 +183,8 @@ def sequential_lp(f, x0, jac, search_constraints = None,
 		domain_constraints = domain._build_constraints(x + p)
 
 		stop = False
+		constraint_violation = 0.
+		px = np.zeros(x.shape)
 		for it2 in range(bt_maxiter):
 			active_constraints = nonlinear_constraints + domain_constraints + search_step_constraints
 
-- 
2.43.0


From 860c15fd0cdc8ee0caa6c6eb1d93795f083f7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 050/150] fix: check the nonlinear constraints of the
 sequential LP at the new point

---
 psdr/seqlp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psdr/seqlp.py b/psdr/seqlp.py
index fcb64e0..dba1a44 100644
--- a/psdr/seqlp.py
+++ b/psdr/seqlp.py
@@ -234,6 +234,11 @@ def sequential_lp(f, x0, jac, search_constraints = None,
 				if obj_ub is not None:
 					I = ~(fx_new <= obj_ub)
 					constraint_violation += np.linalg.norm((fx_new - obj_ub)[I], 1)
+				for con, con_lb, con_ub in zip(constraints, constraints_lb, constraints_ub):
+					conx_new = con(x_new)
+					# the solver only satisfies these constraints approximately
+					if conx_new < con_lb - 1e-6: constraint_violation += con_lb - conx_new
+					if conx_new > con_ub + 1e-6: constraint_violation += conx_new - con_ub
 
 				if objval_new < objval and np.isclose(constraint_violation, 0., rtol = 1e-10, atol = 1e-10):
 					x = x_new
-- 
2.43.0


From a950cfa4ded4d0e09efe90330edddf9e6903ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 051/150] fix: accept steps of the sequential LP on the bounds
 of the objective

---
 psdr/seqlp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/seqlp.py b/psdr/seqlp.py
index dba1a44..453d30f 100644
--- a/psdr/seqlp.py
+++ b/psdr/seqlp.py
@@ -228,11 +228,13 @@ def sequential_lp(f, x0, jac, search_constraints = None,
 				objval_new = objfun(fx_new)
 
 				constraint_violation = 0.
+				# the solver only satisfies the bounds approximately
+				tol_con = 1e-7*max(1., np.max(np.abs(fx_new)))
 				if obj_lb is not None:
-					I = ~(obj_lb <= fx_new)
+					I = ~(obj_lb <= fx_new + tol_con)
 					constraint_violation += np.linalg.norm((fx_new - obj_lb)[I], 1)
 				if obj_ub is not None:
-					I = ~(fx_new <= obj_ub)
+					I = ~(fx_new - tol_con <= obj_ub)
 					constraint_violation += np.linalg.norm((fx_new - obj_ub)[I], 1)
 				for con, con_lb, con_ub in zip(constraints, constraints_lb, constraints_ub):
 					conx_new = con(x_new)
-- 
2.43.0


From d6b0ae8a8ab4e859ded833ebec0747ef93136d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 052/150] fix: orthogonality constraints in ridge
 approximations with several directions

---
 psdr/polyridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index ea99544..54d8558 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -649,7 +649,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 			N = len(self.basis)
 			n = self.subspace_dimension
 			U = U_c[:m*n].reshape(m,n)
-			constraints = [ pU_pc[k*m:(k+1)*m].__rmatmul__(U.T) == np.zeros(n) for k in range(n)]
+			constraints = [ pU_pc[k:m*n:n].__rmatmul__(U.T) == np.zeros(n) for k in range(n)]
 			return constraints
 
 		# setup lower/upper bound into SLP solver
-- 
2.43.0


From 392d06174af2f7a40aa5c1b542046239ed9b3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 053/150] fix: zero singular values in the ridge approximation
 step

---
 psdr/polyridge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 54d8558..a10616d 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -520,7 +520,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 			Y, s, ZT = scipy.linalg.svd(J_flat, full_matrices = False, lapack_driver = 'gesvd')
 			# Apply the pseudoinverse
 			n = self.subspace_dimension
-			Delta_flat = -ZT[:-n**2,:].T.dot(np.diag(1/s[:-n**2]).dot(Y[:,:-n**2].T.dot(r)))
+			s_inv = np.zeros(len(s[:-n**2]))
+			np.divide(1., s[:-n**2], out = s_inv, where = s[:-n**2] > 0)
+			Delta_flat = -ZT[:-n**2,:].T.dot(np.diag(s_inv).dot(Y[:,:-n**2].T.dot(r)))
 			return Delta_flat, s[:-n**2]
 
 		def jacobian(U_flat):
-- 
2.43.0


From d5b535bcc98816c473523520e0e8225bda29a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 054/150] fix: keep ridge directions of zero average slope

---
 psdr/polyridge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index a10616d..3b138c6 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -103,7 +103,7 @@ class IllposedException(Exception):
 def orth(U):
 	""" Orthgonalize, but keep directions"""
 	U, R = np.linalg.qr(U, mode = 'reduced')
-	U = np.dot(U, np.diag(np.sign(np.diag(R)))) 
+	U = np.dot(U, np.diag(np.where(np.diag(R) < 0, -1., 1.)))
 	return U
 
 def inf_norm_fit(A, b):
@@ -436,7 +436,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		if self.rotate:
 			self.coef = self._fit_coef(X, fX, U)
 			grads = self.profile.grad(Y)
-			self._U = U = U.dot(np.diag(np.sign(np.mean(grads, axis = 0))))
+			self._U = U = U.dot(np.diag(np.where(np.mean(grads, axis = 0) < 0, -1., 1.)))
 		
 		# Step 3: final fit	
 		self.coef = self._fit_coef(X, fX, U)
-- 
2.43.0


From 619fafedae2954294fe35717b039f2ff3feb9399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 055/150] fix: flip the signs of ridge directions by the slopes
 at the rotated samples

---
 psdr/polyridge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 3b138c6..e9b8e03 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -429,6 +429,7 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 			# We only need the short-form SVD
 			Ur = scipy.linalg.svd(grads.T, full_matrices = False)[0]
 			U = U @ Ur
+			Y = (U.T @ X.T).T
 		
 		self._U = U
 
-- 
2.43.0


From d72245980a5a4fce95b9bfeb5430d60785970d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 056/150] fix: affine ridge approximation of constant data

---
 psdr/polyridge.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index e9b8e03..2de6f8b 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -371,7 +371,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		XX = np.hstack([dom.normalize(X), np.ones((X.shape[0],1))])
 
 		# Normalize the output
-		fX = (fX - np.min(fX))/(np.max(fX) - np.min(fX))
+		fX = fX - np.min(fX)
+		if np.max(fX) > 0:
+			fX = fX/np.max(fX)
 
 		if self.bound is None:
 			if self.norm == 1:
@@ -390,7 +392,11 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		# Correct for transform 
 		U = dom._normalize_der().dot(U)
 		# Force to have unit norm
-		U /= np.linalg.norm(U)
+		if np.linalg.norm(U) > 0:
+			U /= np.linalg.norm(U)
+		else:
+			# constant data; any direction will do
+			U[0] = 1.
 		return U	
 
 	def _fit_coef(self, X, fX, U):
-- 
2.43.0


From f4c61cb05747f4a26a08b4662d469b826737b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 057/150] fix: affine lower and upper ridge bounds were swapped

---
 psdr/polyridge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 2de6f8b..9ce7f4c 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -384,9 +384,9 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 				b = inf_norm_fit(XX, fX)
 		elif self.bound == 'lower':
 			# fX >= XX b
-			b = bound_fit(XX, fX, norm = self.norm)
+			b = bound_fit(-XX, -fX, norm = self.norm)
 		elif self.bound == 'upper':
-			b = bound_fit(-XX, -fX, norm = self.norm)	 	
+			b = bound_fit(XX, fX, norm = self.norm)	 	
 
 		U = b[0:-1].reshape(-1,1)
 		# Correct for transform 
-- 
2.43.0


From 6891b79993dee6446bca07b3f849fdbec7f30f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 058/150] fix: ridge approximation whose subspace is the whole
 space

---
 psdr/polyridge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 9ce7f4c..ae0c33c 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -352,6 +352,10 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 		# Orthogonalize just to make sure the starting value satisfies constraints	
 		U0 = orth(U0)
 			
+		# If the subspace is the whole space there is nothing to optimize
+		if n == m:
+			return self._finish(X, fX, U0)
+
 		# TODO Implement multiple initializations
 		if self.norm == 2 and self.bound == None:
 			return self._fit_varpro(X, fX, U0, **kwargs)
-- 
2.43.0


From e8f1074c282b1e17b73086e0cdc3b9af4501aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 059/150] fix: polynomial ridge approximation of degree zero

---
 psdr/basis.py     | 2 ++
 psdr/polyridge.py | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/psdr/basis.py b/psdr/basis.py
index 684f234..0b23e28 100644
--- a/psdr/basis.py
+++ b/psdr/basis.py
@@ -28,6 +28,8 @@ def _as_points(X, dim):
 	X = np.array(X)
 	if not np.issubdtype(X.dtype, np.inexact):
 		X = X.astype(float)
+	if X.ndim == 2 and X.shape[1] == dim:
+		return X
 	return X.reshape(-1, dim)
 
 
diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index ae0c33c..850a30b 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -32,7 +32,7 @@ class PolynomialRidgeFunction(RidgeFunction):
 	
 	def V(self, X, U = None):
 		if U is None: U = self.U
-		X = np.array(X)	
+		X = np.atleast_2d(np.array(X))
 		Y = (U.T @ X.T).T
 		return self.basis.V(Y)
 
@@ -334,6 +334,10 @@ class PolynomialRidgeApproximation(PolynomialRidgeFunction):
 			mess += "requires at least %d samples to not be underdetermined" % (n_param, )
 			raise UnderdeterminedException(mess) 	
 
+		# A constant does not depend on any direction
+		if self.degree == 0:
+			return self._finish(X, fX, np.zeros((m, 0)))
+
 		# Special case where solution is convex and no iteration is required
 		if self.subspace_dimension == 1 and self.degree == 1:
 			self._U = self._fit_affine(X, fX)	
-- 
2.43.0


From 53736968d0d7779244eed4331cf1f3ab55482038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 060/150] fix: raise the UnderdeterminedException of
 psdr.exceptions in ridge approximations

---
 psdr/polyridge.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 850a30b..8494e0c 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -91,11 +91,8 @@ class PolynomialRidgeFunction(RidgeFunction):
 
 
 ################################################################################
-# Two types of custom errors raised by PolynomialRidgeApproximation
+# Custom error raised by PolynomialRidgeApproximation
 ################################################################################
-class UnderdeterminedException(Exception):
-	pass
-
 class IllposedException(Exception):
 	pass
 
-- 
2.43.0


From 5f733666b3336a3a787a7ac94d43a212715bddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 061/150] fix: accept lists of points in derivatives of ridge
 functions

---
 psdr/polyridge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 8494e0c..77f31b1 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -38,12 +38,13 @@ class PolynomialRidgeFunction(RidgeFunction):
 
 	def DV(self, X, U = None):
 		if U is None: U = self.U
-		
+		X = np.array(X)	
 		Y = (U.T @ X.T).T
 		return self.basis.DV(Y)
 
 	def DDV(self, X, U = None):
 		if U is None: U = self.U
+		X = np.array(X)	
 		Y = (U.T @ X.T).T
 		return self.basis.DDV(Y)
 
@@ -52,6 +53,7 @@ class PolynomialRidgeFunction(RidgeFunction):
 		return Vc
 	
 	def grad(self, X):
+		X = np.array(X)
 		if len(X.shape) == 1:
 			one_d = True
 			X = X.reshape(1,-1)	
@@ -69,6 +71,7 @@ class PolynomialRidgeFunction(RidgeFunction):
 			return Df
 
 	def hessian(self, X):
+		X = np.array(X)
 		if len(X.shape) == 1:
 			one_d = True
 			X = X.reshape(1,-1)	
-- 
2.43.0


From 1b40c9e11a6e1170fff177264754c35143bd1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 062/150] fix: vector ridge approximation whose subspace is the
 whole space

---
 psdr/polyridge_vec.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psdr/polyridge_vec.py b/psdr/polyridge_vec.py
index 5052603..69d3808 100644
--- a/psdr/polyridge_vec.py
+++ b/psdr/polyridge_vec.py
@@ -149,6 +149,9 @@ def polynomial_ridge_approximation(X, fX, dimension, degree, fixed_subspace = No
 
 	if fixed_subspace is None:
 		n = dimension
+		if n == m:
+			# The subspace is the whole space; there is nothing to optimize
+			return U0
 		residual = lambda u: _varpro_residual(u.reshape(m,n), X, fX, Basis, degree)	
 		jacobian = lambda u: _varpro_jacobian(u.reshape(m,n), X, fX, Basis, degree)	
 		trajectory = lambda u, d, t: _grassmann_trajectory(u.reshape(m,n), d.reshape(m,n), t)
@@ -166,6 +169,9 @@ def polynomial_ridge_approximation(X, fX, dimension, degree, fixed_subspace = No
 		trajectory = lambda u, d, t: _grassmann_trajectory(u.reshape(mm,n), d.reshape(mm,n), t)
 		gnsolver = lambda J, r: _gn_solver(J, r, n)
 		
+		if n == mm:
+			return Q
+		
 		# Restrict to the lower-dimensional subspace
 		U0, _, _ = scipy.linalg.svd(Uc.T @ U0, full_matrices = False, compute_uv = True)
 		U0 = U0[:, :n]
-- 
2.43.0


From 3848d4f58377efc9bcce563efa90e4ac87f11eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 063/150] fix: vector ridge approximation of a single output

---
 psdr/polyridge_vec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/polyridge_vec.py b/psdr/polyridge_vec.py
index 69d3808..d6d899b 100644
--- a/psdr/polyridge_vec.py
+++ b/psdr/polyridge_vec.py
@@ -140,7 +140,7 @@ def polynomial_ridge_approximation(X, fX, dimension, degree, fixed_subspace = No
 	# TODO: Dimension checks
 
 	M, m = X.shape
-	fX = np.atleast_2d(fX)
+	fX = np.array(fX).reshape(M, -1)
 
 	if U0 is None:
 		A = np.hstack([initialize_subspace(X = X, fX = fXi) for fXi in fX.T]) 
-- 
2.43.0


From 20977ca40f7f1444f04b98abe2dc088f8569d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 064/150] fix: shadow plots of two dimensional ridge functions
 without axis and of lists

---
 psdr/ridge.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/psdr/ridge.py b/psdr/ridge.py
index 923c0fa..e929dee 100644
--- a/psdr/ridge.py
+++ b/psdr/ridge.py
@@ -18,6 +18,9 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 		else:
 			assert dim == self.U.shape[1]
 
+		X = np.atleast_2d(X)
+		fX = np.array(fX)
+
 		ax = SubspaceBasedDimensionReduction.shadow_plot(self, X = X, fX = fX, dim = dim, ax = ax, pgfname = pgfname)
 
 		# Draw the response surface
@@ -57,10 +60,11 @@ class RidgeFunction(BaseFunction, SubspaceBasedDimensionReduction):
 			XX = np.dot(self.U, UXX).T
 			YY = self.eval(XX).reshape(XX0.shape)
 			
-			ax.contour(xx0, xx1, YY, 
-				levels = np.linspace(np.min(fX), np.max(fX), 20), 
-				vmin = np.min(fX), vmax = np.max(fX),
-				linewidths = 0.5)
+			if ax is not None:
+				ax.contour(xx0, xx1, YY, 
+					levels = np.linspace(np.min(fX), np.max(fX), 20), 
+					vmin = np.min(fX), vmax = np.max(fX),
+					linewidths = 0.5)
 		
 
 		else: 
-- 
2.43.0


From 2c53ae507223d31a3370327bc686087143cf7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 065/150] fix: keep directions of zero average slope in active
 subspaces

---
 psdr/subspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index 425b2b5..67ddcb8 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -274,7 +274,8 @@ class SubspaceBasedDimensionReduction(object):
 		return U.dot(np.diag(np.sign(sgn)))	
 
 	def _fix_subspace_signs_grads(self, U, grads):
-		return U.dot(np.diag(np.sign(np.mean(grads.dot(U), axis = 0))))
+		# If the average slope is zero, keep the current orientation
+		return U.dot(np.diag(np.where(np.mean(grads.dot(U), axis = 0) < 0, -1., 1.)))
 
 	
 	def approximate_lipschitz(self, X = None, fX = None, grads = None,  dim = None):
-- 
2.43.0


From c39038a2a3b246c8e164bb7ceecdbdffe4c49438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 066/150] fix: two dimensional shadow plots of lists

---
 psdr/subspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index 67ddcb8..69b6686 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -82,6 +82,8 @@ class SubspaceBasedDimensionReduction(object):
 	
 		# Check dimensions
 		X = np.atleast_2d(X)
+		if fX is not None:
+			fX = np.array(fX)
 		assert X.shape[1] == len(self), "Samples do not match dimension of space"	
 
 		if U is None:
-- 
2.43.0


From ee59510dbf26c21193994ef574c8f61b7511d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 067/150] fix: shadow envelopes when OSQP does not converge

---
 psdr/subspace.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/psdr/subspace.py b/psdr/subspace.py
index 69b6686..a00e2e2 100644
--- a/psdr/subspace.py
+++ b/psdr/subspace.py
@@ -150,6 +150,16 @@ class SubspaceBasedDimensionReduction(object):
 		# Since this is for plotting purposes, we reduce accuracy to 3 digits	
 		solver_kwargs = {'verbose': verbose, 'solver': 'OSQP', 'eps_abs': 1e-3, 'eps_rel': 1e-3}				
 
+		def solve(prob, var):
+			try:
+				prob.solve(**solver_kwargs)
+			except cp.SolverError:
+				pass
+			if var.value is None:
+				# OSQP does not always converge, even for well posed problems
+				prob.solve(solver = 'ECOS', verbose = verbose)
+			return var.value
+
 		X = np.array(X)
 		fX = np.array(fX)
 		assert len(X) == len(fX), "Number of inputs did not match number of outputs"
@@ -202,15 +212,13 @@ class SubspaceBasedDimensionReduction(object):
 		#ub0 = [ max(max(fX[j == i]), max(fX[j== i+1]))  for i in np.arange(0,ngrid-1)] +[max(fX[j == ngrid - 1])]
 		#ub.value = np.array(ub0).flatten()
 		prob = cp.Problem(cp.Minimize(cp.sum(ub)), [A*ub >= fX.flatten()])
-		prob.solve(**solver_kwargs)
-		ub = ub.value
+		ub = solve(prob, ub)
 		
 		lb = cp.Variable(len(yy))
 		#lb0 = [ min(min(fX[j == i]), min(fX[j== i+1]))  for i in np.arange(0,ngrid-1)] +[min(fX[j == ngrid - 1])]
 		#lb.value = np.array(lb0).flatten()
 		prob = cp.Problem(cp.Maximize(cp.sum(lb)), [A*lb <= fX.flatten()])
-		prob.solve(**solver_kwargs)
-		lb = lb.value
+		lb = solve(prob, lb)
 
 		if ax is not None:
 			ax.fill_between(yy, lb, ub, **kwargs) 
-- 
2.43.0


From a685d9bc9c5c34c25095119c4112482abe7972c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 068/150] fix: local linear models at other points than the
 samples

---
 psdr/local_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 3f12067..5115596 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -175,7 +175,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 	Y = np.hstack([np.ones((M, 1)), X])
 	
 	# Coefficients in linear models
-	A = np.zeros((M, m+1))
+	A = np.zeros((len(Xt), m+1))
 	for i, xi in enumerate(Xt):
 		d = cdist(X, xi.reshape(1,-1), 'sqeuclidean').flatten()
 		if perplexity:
-- 
2.43.0


From 004430dfc3c65c27a07056979ae3eade7d973ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 069/150] fix: Xia's bandwidth depends on the dimension

---
 psdr/local_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 5115596..97342ee 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -167,7 +167,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		perplexity = None
 		if bandwidth == 'xia':
 			# Bandwidth from Xia 2007, [Li18, eq. 11.5] 
-			bandwidth = 2.34*M**(-1./(max(M, 3) +6))
+			bandwidth = 2.34*M**(-1./(max(m, 3) +6))
 
 
 	# Storage for the gradients
-- 
2.43.0


From 2d58a8a33302dfbaf0d0c0329bb8bf21c60982a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 070/150] fix: local linear models of lists

---
 psdr/local_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 97342ee..2a7a73e 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -151,12 +151,14 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		A[:,0] is the constant term and A[:,1:m+1] is the linear coefficients.
 	"""
 
+	X = np.array(X, dtype = float)
 	M, m = X.shape
-	fX = fX.flatten()
+	fX = np.array(fX).flatten()
 	assert len(fX) == M, "Number of function evaluations does not match number of samples"
 
 	if Xt is None:
 		Xt = X
+	Xt = np.array(Xt, dtype = float)
 
 	if perplexity is None and bandwidth is None:
 		perplexity = min(m+1, M)
-- 
2.43.0


From 92bfb118e09e3e4ffdd4e0df9e222a647c1ce7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 071/150] fix: entropy of far away points

---
 psdr/local_linear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index 2a7a73e..bc31fbb 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -40,6 +40,7 @@ def _compute_p1(M, perplexity):
 
 
 def log_entropy(beta, d):
+	d = d - np.min(d)
 	p = np.exp(-beta*d)
 	sum_p = np.sum(p)
 	# Shannon entropy H = np.sum(-p*np.log2(p)) 
-- 
2.43.0


From e8bb805efc7aaa1d4303c525c1bed93b07fc5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 072/150] fix: perplexity bandwidths with ties, few samples,
 and far away points

---
 psdr/local_linear.py | 86 ++++++++++++--------------------------------
 1 file changed, 23 insertions(+), 63 deletions(-)

diff --git a/psdr/local_linear.py b/psdr/local_linear.py
index bc31fbb..a806b05 100644
--- a/psdr/local_linear.py
+++ b/psdr/local_linear.py
@@ -2,43 +2,11 @@
 """
 import numpy as np
 from scipy.optimize import root_scalar
-from scipy.special import xlogy
 from scipy.spatial.distance import cdist
 import scipy.linalg
 
-try:
-    from functools import lru_cache
-except ImportError:
-    from backports.functools_lru_cache import lru_cache
-
 __all__ = ['perplexity_bandwidth', 'local_linear_grads', 'local_linear']
 
-@lru_cache(maxsize = int(10))
-def _compute_p1(M, perplexity):
-	r""" The constant appearing in VC13, eq. 9
-	"""
-	#res = root_scalar(lambda x: np.log(min(np.sqrt(2*M), perplexity)) - 2*(1 - x)*np.log(M/(2*(1 - x))), bracket = [3./4,1 - 1e-14],)
-	#p1 = res.root
-	# Instead we solve in terms of x = 2*(1-p1)
-	# x * log(N/x) = x * log(N) - x*log(x)
-	# and xlogy(x, x) = x * log(x)
-	fun = lambda x: x * np.log(M) - xlogy(x, x) - np.log(np.min([np.sqrt(2*M), perplexity]))
-
-	try:
-		res = root_scalar(fun, bracket = [0, 0.5])
-		x = res.root
-	except ValueError:
-		if np.isclose(fun(0.5), 0):
-			x = 0.5
-		elif np.isclose(fun(0), 0):
-			x = 0
-		else:
-			raise ValueError
- 
-	p1 = 1. - x/2.
-	return p1
-
-
 def log_entropy(beta, d):
 	d = d - np.min(d)
 	p = np.exp(-beta*d)
@@ -67,20 +35,11 @@ def perplexity_bandwidth(d, perplexity):
 	# TODO: Is perplexity necessarily in this interval
 	#perplexity = min(M, perplexity)
 
-	p1 = _compute_p1(M, perplexity)
-	# Compute upper and lower bounds of beta from [VC13, eq. (7) (8)]
-	# These are constants appearing the bounds
-	dM = np.max(d)
-	d1 = np.min(d[d>0])
-	delta2 = d - d1
-	delta2 = np.min(delta2[delta2>0])
-	deltaM = dM - d1
-
-	# lower bound VC13 (7)
-	beta1 = max(M*np.log(M/perplexity)/((M-1)*deltaM), np.sqrt(np.log(M/perplexity)/(dM**4 - d1**4)))
-	# upper bound VC13 (8)
-	beta2 = 1/delta2*np.log(p1/(1-p1)*(M - 1))
-	
+	# Shifting the distances scales all weights equally and leaves the entropy unchanged;
+	# without this all weights underflow when every point is far away
+	d = np.asarray(d, dtype = float) - np.min(d)
+	scale = np.max(d)
+
 	log_perplexity = np.log(perplexity)
 
 	# TODO: Ideally we would use (root) Newton to find the optimal bandwidth
@@ -89,23 +48,24 @@ def perplexity_bandwidth(d, perplexity):
 	# TODO: There are some fancy initialization strategies that can be used
 	# based on caching previous values; we ignore this here
 
-	#print("beta1", beta1, log_entropy(beta1, d), "\nbeta2", beta2, log_entropy(beta2,d))
-
+	# The entropy decreases monotonically from log(M) when the bandwidth is zero 
+	if perplexity >= M:
+		return 0.
+
+	# The entropy is invariant to scaling the distances, so we search over beta*scale.
+	# The bounds in [VC13, eq. (7) (8)] assume there are no ties in the distances 
+	# and that there are not too few points, so we find an upper bound by expansion. 
+	fun = lambda t: log_entropy(t/scale, d) - log_perplexity
+	upper = 1.
+	while scale > 0 and fun(upper) > 0 and upper < 1e18:
+		upper *= 2
+	
+	if scale == 0 or fun(upper) > 0:
+		raise ValueError("Requested perplexity is smaller than the number of nearest points")
 
 	# Compute bandwidth beta
-	try:
-		res = root_scalar(lambda beta: log_entropy(beta, d) - log_perplexity,
-			bracket = [beta1, beta2],
-			method = 'brenth',
-			rtol = 1e-10)
-		beta = res.root
-	except ValueError as e:
-		f1 = log_entropy(beta1, d) - log_perplexity
-		f2 = log_entropy(beta2, d) - log_perplexity
-		print("beta", beta1, "f", f1)
-		print("beta", beta2, "f", f2)
-		raise e
-	return beta
+	res = root_scalar(fun, bracket = [0, upper], method = 'brenth', rtol = 1e-10)
+	return res.root/scale
 
 
 def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
@@ -165,7 +125,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 		perplexity = min(m+1, M)
 	if perplexity is not None:
 		bandwidth = None
-		assert perplexity >= 2 and perplexity < M, "Perplexity must be in the interval [2,M)"
+		assert perplexity >= 2 and perplexity <= M, "Perplexity must be in the interval [2,M]"
 	elif bandwidth is not None:
 		perplexity = None
 		if bandwidth == 'xia':
@@ -181,7 +141,7 @@ def local_linear(X, fX, perplexity = None, bandwidth = None, Xt = None):
 	A = np.zeros((len(Xt), m+1))
 	for i, xi in enumerate(Xt):
 		d = cdist(X, xi.reshape(1,-1), 'sqeuclidean').flatten()
-		if perplexity:
+		if perplexity is not None:
 			beta = perplexity_bandwidth(d, perplexity)
 		else:
 			beta = 0.5*bandwidth
-- 
2.43.0


From b0c9a17caf2d270733894745e936049def8b2014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 073/150] fix: signs of outer product gradient directions in
 original coordinates

---
 psdr/opg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/opg.py b/psdr/opg.py
index 57d0f5d..aca15e1 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -131,5 +131,5 @@ class OuterProductGradient(ActiveSubspace):
 			U = Dinv2.dot(self.U)
 			Q, R = np.linalg.qr(U, mode = 'reduced')
 			self._U = Q
-			self._U = self._fix_subspace_signs_grads(self._U, z_grads)		
+			self._U = self._fix_subspace_signs_grads(self._U, z_grads/std)		
 		
-- 
2.43.0


From 016e6a694184a9fc636815992951668d288eef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 074/150] fix: undo standardization in outer product gradient

---
 psdr/opg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/opg.py b/psdr/opg.py
index aca15e1..0533bb0 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -127,7 +127,7 @@ class OuterProductGradient(ActiveSubspace):
 			
 		if self.standardize:
 			# Undo the coordiante change introduced by standardization 
-			Dinv2 = np.diag(std**(-0.5))
+			Dinv2 = np.diag(1./std)
 			U = Dinv2.dot(self.U)
 			Q, R = np.linalg.qr(U, mode = 'reduced')
 			self._U = Q
-- 
2.43.0


From 82dc2369955dba4c5997bd20b3879cdd63f81e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 075/150] fix: outer product gradient with coordinates that do
 not vary

---
 psdr/opg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/opg.py b/psdr/opg.py
index 0533bb0..e335a0a 100644
--- a/psdr/opg.py
+++ b/psdr/opg.py
@@ -108,6 +108,8 @@ class OuterProductGradient(ActiveSubspace):
 		if self.standardize:
 			mean = np.mean(X, axis = 0)
 			std = np.std(X, axis = 0)
+			# Do not rescale coordinates that do not vary
+			std[std == 0] = 1.
 			Z = (X - mean)/std
 		else:
 			Z = X
-- 
2.43.0


From 3445708b795c96b26688177495c658eba203fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 076/150] fix: gradients of Lipschitz bounds for rectangular
 matrices

---
 psdr/lipschitz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index fe1edcc..7aadf3c 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -665,7 +665,7 @@ class LowerBound(BaseFunction):
 	def grad(self, x):
 		y = np.dot(self.L, x)
 		norms = cdist(y.reshape(1,-1), self.Y, 'euclidean').flatten()
-		G = np.zeros([self.Y.shape[0], x.shape[0]] )
+		G = np.zeros(self.Y.shape)
 		I = (norms > 0)
 		G[I,:] = -(  (y - self.Y[I]).T /norms[I]).T
 		G = self.L.T.dot(G.T).T
@@ -685,7 +685,7 @@ class UpperBound(BaseFunction):
 	def grad(self, x):
 		y = np.dot(self.L, x)
 		norms = cdist(y.reshape(1,-1), self.Y, 'euclidean').flatten()
-		G = np.zeros([self.Y.shape[0], x.shape[0]] )
+		G = np.zeros(self.Y.shape)
 		I = (norms > 0)
 		G[I,:] = -((y - self.Y[I]).T/norms[I]).T
 		G = self.L.T.dot(G.T).T
-- 
2.43.0


From 7daa6fc4080987e0c6fe7c7460090ee4b47cdff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 077/150] fix: Lipschitz constant with noise, repeated points,
 and a single sample

---
 psdr/lipschitz.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 7aadf3c..821b1e3 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -626,10 +626,11 @@ class LipschitzConstant(LipschitzMatrix):
 
 	def _fit(self, X, fX, grads, epsilon, scale):
 		L = 0
-		if len(X) > 0:
-			L_samp = np.max([ (abs(fX[i] - fX[j]) - epsilon )/ np.linalg.norm(X[i] - X[j]) 
-				for i,j in combinations(range(len(X)), 2)])
-			L = max(L, L_samp)
+		# NB: epsilon has been scaled by 1/scale, unlike fX 
+		for i, j in combinations(range(len(X)), 2):
+			diff = abs(fX[i] - fX[j]) - scale*epsilon
+			if diff > 0:
+				L = max(L, diff/np.linalg.norm(X[i] - X[j]))
 
 		if len(grads) > 0:
 			L_grad = np.max([np.linalg.norm(grad) for grad in grads])
-- 
2.43.0


From 570e1501d1cf63a27d656529a41519f2d88f105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 078/150] fix: stale coordinate order of diagonal Lipschitz
 matrices

---
 psdr/lipschitz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 821b1e3..95d2a59 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -599,6 +599,7 @@ class DiagonalLipschitzMatrix(CoordinateBasedDimensionReduction, LipschitzMatrix
 		if L is not None:
 			L = np.atleast_2d(L)
 			self._L = np.diag(np.diag(L))
+			self._score = np.diag(self._L).copy()
 
 		LipschitzMatrix.__init__(self,**kwargs)
 		
@@ -612,6 +613,8 @@ class DiagonalLipschitzMatrix(CoordinateBasedDimensionReduction, LipschitzMatrix
 		self._L = scale * np.diag(np.sqrt(np.diag(H)))
 		
 		self._score = np.diag(self._L).copy()		
+		# Remove any coordinate ordering from a previous fit
+		self._U = None
 		#self._U = np.eye(len(self._score))[:,np.argsort(-self._score)] 
 
 class LipschitzConstant(LipschitzMatrix):
-- 
2.43.0


From 9607b64a8d3664892f1237d5c2e620e9f1070772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 079/150] fix: progress bar in shadow uncertainty

---
 psdr/lipschitz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 95d2a59..1280315 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -576,7 +576,7 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 
 		for i in iterator:
 			dom_eq = domain.add_constraints(A_eq = u.reshape(1,-1), b_eq = ys[i].reshape(1))
-			lbs[i], ubs[i] = self.uncertainty_domain(X, fX, dom_eq, progress = progress - 1, tqdm_kwargs = tqdm_kwargs, **kwargs)
+			lbs[i], ubs[i] = self.uncertainty_domain(X, fX, dom_eq, progress = max(progress - 1, 0), tqdm_kwargs = tqdm_kwargs, **kwargs)
 
 		if ax is not None:
 			ax.fill_between(ys, lbs, ubs, **plot_kwargs)	
-- 
2.43.0


From b96f7e53e4c65a7902fcec05e896951a9c09bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 080/150] fix: bounds over a domain include epsilon

---
 psdr/lipschitz.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 1280315..5b92021 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -483,7 +483,12 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 			x = minimax(upper_bound, x0, domain = domain, verbose = verbose, trust_region = False)
 			ubs.append(np.min(-upper_bound(x)))
 			#print(lbs[-1], ubs[-1])
-		return float(np.min(lbs)), float(np.max(ubs))
+		lb, ub = float(np.min(lbs)), float(np.max(ubs))
+
+		if self.epsilon is None:
+			return lb, ub
+		else:
+			return lb - self.epsilon, ub + self.epsilon
 
 #		# Attempts at making a parallel interface
 #		else:
-- 
2.43.0


From 9a9d7adcafa9ca83a887f21927520b84ef8ae306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 081/150] fix: Lipschitz bounds for data given as lists

---
 psdr/lipschitz.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 5b92021..e270bf1 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -396,7 +396,7 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		lb = -np.inf*np.ones(Xtest.shape[0])
 		ub = np.inf*np.ones(Xtest.shape[0])
 
-		fX = fX.flatten()
+		fX = np.array(fX).flatten()
 
 		LX = self.L.dot(X.T).T
 		LXtest = self.L.dot(Xtest.T).T
@@ -451,10 +451,11 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		ub: float
 			Upper bound
 		"""
+		X = np.atleast_2d(np.array(X))
+		fX = np.array(fX).flatten()
+
 		lower_bound = LowerBound(self.L, X, fX)
 		upper_bound = UpperBound(self.L, X, fX)
-		
-		fX = fX.flatten()
 	
 		# Force these to be far apart
 		#X0 = initial_sample(domain, self.L, Nsamp = Nsamp) 
-- 
2.43.0


From afadb78b079227ff87816626e2bcf7d199c20bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 082/150] fix: remove debugging output of Lipschitz matrix

---
 psdr/lipschitz.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index e270bf1..35141f0 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -226,8 +226,6 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 
 		problem = cp.Problem(cp.Minimize(cp.trace(H)), constraints)
 		problem.solve(**self.kwargs)
-		print("Inside Lipschitz")
-		print(np.array(H.value))	
 		return np.array(H.value).reshape(len(self),len(self))
 				
 	
-- 
2.43.0


From 14332f9d28700f93ed7be224f753cfb5a2ac5158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 083/150] fix: all solution methods for diagonal Lipschitz
 matrices

---
 psdr/lipschitz.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 35141f0..7809e09 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -203,11 +203,15 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		"""
 		return self._L
 
-	def _build_lipschitz_matrix_cvxpy(self, X, fX, grads, epsilon):
+	def _build_lipschitz_matrix_cvxpy(self, X, fX, grads, epsilon, structure = 'full'):
 		# Constrain H to symmetric positive semidefinite (PSD)
 		H = cp.Variable( (len(self), len(self)), PSD = True)
 		
 		constraints = []		
+		if structure == 'diag':
+			constraints.append(H == cp.diag(cp.diag(H)))
+		elif structure != 'full':
+			raise NotImplementedError	
 
 		# Sample constraint	
 		for i in range(len(X)):
@@ -239,6 +243,8 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		for i in range(len(self)):
 			ei = I[:,i]
 			Es.append(np.outer(ei,ei))
+			if structure == 'diag':
+				continue
 			for j in range(i+1,len(self)):
 				ej = I[:,j]
 				Es.append(0.5*np.outer(ei+ej,ei+ej))
-- 
2.43.0


From 101596760082396b7c56130cd6fa00286c5d770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 084/150] fix: samples and gradients of Lipschitz matrices

---
 psdr/lipschitz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 7809e09..c71bdd3 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -154,6 +154,9 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		else:
 			epsilon = 0.
 
+		self._X = X
+		self._fX = fX
+		self._grads = grads
 		self._fit(X, fX, grads, epsilon, scale)
 
 
-- 
2.43.0


From 50499fa9be3d8a69b7a1811ee3af0070aaed2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 085/150] fix: scaling of the Lipschitz matrix for small and
 constant data

---
 psdr/lipschitz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index c71bdd3..512b881 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -142,12 +142,14 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		try:	
 			scale1 = np.max(fX) - np.min(fX)
 		except ValueError:
-			scale1 = 1.
+			scale1 = 0.
 		try:
 			scale2 = np.max([np.linalg.norm(grad) for grad in grads])
 		except ValueError:
-			scale2 = 1.
+			scale2 = 0.
 		scale = max(scale1, scale2)
+		if scale == 0:
+			scale = 1.
 	
 		if self.epsilon is not None:
 			epsilon = self.epsilon/scale
@@ -236,7 +238,7 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		return np.array(H.value).reshape(len(self),len(self))
 				
 	
-	def _build_lipschitz_matrix_param(self, X, fX, grads, epsilon):
+	def _build_lipschitz_matrix_param(self, X, fX, grads, epsilon, structure = 'full'):
 		r""" Use an explicit parameterization
 		"""
 
-- 
2.43.0


From dec287c1431de2e5f28b6e9155f46826869a0793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 086/150] fix: partial Lipschitz matrix when no descent
 direction is found

---
 psdr/lipschitz_partial.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index d465cb9..5536c1f 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -250,7 +250,13 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 			print("%4d | %14.10e |          |          | %7.2e | %7.2e | %7.2e |" % (0, obj, np.max(lam), np.min(lam), alpha))	
 
 		for it in range(self.maxiter):
-			dU, dJ, dalpha = self._U_descent(U, J, alpha, X, fX, grads, epsilon)
+			try:
+				dU, dJ, dalpha = self._U_descent(U, J, alpha, X, fX, grads, epsilon)
+			except (ValueError, cp.SolverError) as err:
+				# The current iterate still satisfies the constraints
+				if self.verbose:
+					print(err)
+				break
 
 			if np.linalg.norm(dU) < self.tol_dx:
 				if self.verbose:
-- 
2.43.0


From 369b5ffb6915732db5ca3f77582723f300f468a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 087/150] fix: descent direction of the partial Lipschitz
 matrix

---
 psdr/lipschitz_partial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index 5536c1f..e824e58 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -209,7 +209,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 				# 2 * y.T @ U.T @ J @ Up @ y + y.T @ U.T @ Jp @ U @ y
 				rhs = (2*Up.T.__rmatmul__(J.dot(UTy))).__matmul__(y) + cp.quad_form(UTy, Jp) # 1st order term
 				#rhs = 2*Up.T.__matmul__(y).__rmatmul__(J.dot(UTy)) + cp.quad_form(UTy, Jp)
-				rhs += -2*alpha*(Up.T.__matmul__(y)).__rmatmul__(J.dot(UTy).T) + alphap*(y.dot(y) - UTy.dot(UTy))
+				rhs += -2*alpha*(Up.T.__matmul__(y)).__rmatmul__(UTy.T) + alphap*(y.dot(y) - UTy.dot(UTy))
 				constraints.append(lhs <= rhs)
 
 		Pperp = np.eye(m) - U.dot(U.T) 
-- 
2.43.0


From bf55190d4011951c7f1ccfdf985a0c079ebe0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 088/150] fix: partial Lipschitz matrix with noise

---
 psdr/lipschitz_partial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index e824e58..86e7a8e 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -161,7 +161,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 		for i in range(len(X)):
 			for j in range(i+1, len(X)):
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
 				rhs = cp.quad_form(UTy, J) + alpha*( y.dot(y) - UTy.dot(UTy))
@@ -203,7 +203,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 			for j in range(i+1, len(X)):
 				y = X[i] - X[j]
 				UTy = U.T.dot(y)
-				lhs = (np.abs(fX[i] - fX[j]) - epsilon)**2 
+				lhs = max(np.abs(fX[i] - fX[j]) - epsilon, 0)**2 
 				# y.T @ U.T @ J @  U @ y + alpha* y.T @ (I - U @ U.T) @ y
 				lhs -= UTy.dot(J.dot(UTy)) + alpha*(y.dot(y) - UTy.dot(UTy)) # 0th order term
 				# 2 * y.T @ U.T @ J @ Up @ y + y.T @ U.T @ Jp @ U @ y
-- 
2.43.0


From 06da34504515e60b11580a75f6f3ed4d4466ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 089/150] fix: square root of a singular partial Lipschitz
 matrix

---
 psdr/lipschitz_partial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index 86e7a8e..921e071 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -87,7 +87,8 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 		ew = ew[::-1]
 		ev = ev[:,::-1]
 		# Rotate onto the domaint subspace, so J becomes diagonal
-		J = np.diag(ew)
+		# (numerically eigenvalues may be slightly negative)
+		J = np.diag(np.maximum(ew, 0))
 		# NB: since J is symmetric, its eigenvectors are orthogonal and hence
 		# after the rotation below, U is still unitary
 		U = U.dot(ev)
@@ -179,7 +180,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 		problem.solve(**self.solver_kwargs)
 
 		J = np.array(J.value)
-		alpha = float(alpha.value)
+		alpha = max(float(alpha.value), 0.)
 		return J, alpha
 
 	def _U_descent(self, U, J, alpha, X, fX, grads, epsilon):
-- 
2.43.0


From 6e55d11d04cf08387fa180df8a4138f30e3ac198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 090/150] fix: initial subspaces from few gradients

---
 psdr/initialization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/initialization.py b/psdr/initialization.py
index 950697b..fce301b 100644
--- a/psdr/initialization.py
+++ b/psdr/initialization.py
@@ -20,6 +20,9 @@ def initialize_subspace(X = None, fX = None, grads = None, n_grads = 100):
 		all_grads = grads
 
 	# Compute SVD
-	U, s, VH = scipy.linalg.svd(all_grads.T, full_matrices = False, compute_uv = True)
+	# NB: if there are fewer gradients than dimensions, we still return a basis for the whole space
+	if len(all_grads) == 0:
+		return np.eye(X.shape[1])
+	U, s, VH = scipy.linalg.svd(all_grads.T, full_matrices = True, compute_uv = True)
 	return U	
 	
-- 
2.43.0


From 0dacf2b4d45ebca53de88fbdfc966bfcc16c1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 091/150] fix: projection onto gradient constraints terminates

---
 psdr/lipschitz_utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/psdr/lipschitz_utils.py b/psdr/lipschitz_utils.py
index e9e0a71..8247aa7 100644
--- a/psdr/lipschitz_utils.py
+++ b/psdr/lipschitz_utils.py
@@ -82,7 +82,7 @@ def dist_grad_constraints_slow(H, grads):
  	
 	# This avoids evaluating on the asymptote of the secular equation
 	# and pushes slightly to the right (this is confusing because ew[-1] is negative). 
-	left = ew[-1]*(1 - eps)
+	left = ew[-1] + eps*max(-ew[0], np.max(Ugrads2, initial = 0))
 
 	# the right bound is ew[-1] + || g ||_2^2 
 	right = ew[-1] + np.sum(Ugrads2, axis = 1)
@@ -102,7 +102,14 @@ def dist_grad_constraints_slow(H, grads):
 		# DLAED4 uses a much more sophisticated algorithm, but we use
 		# brenth simply as a fall back when the LAPACK version doesn't work 
 		
-		dist[k] = brenth(obj, left, right[k])
+		# If the gradient has no component along the smallest eigenvector of H,
+		# or all its weight is there, the root is at an end point. 
+		if obj(left) >= 0:
+			dist[k] = ew[-1]
+		elif obj(right[k]) <= 0:
+			dist[k] = right[k]
+		else:
+			dist[k] = brenth(obj, left, right[k])
 
 	return -dist
 
@@ -204,7 +211,8 @@ def project_grads(H, grads):
 	while True: 
 		dist = dist_grad_constraints(H, grads)
 		k = np.nanargmin(dist)
-		if dist[k] >= 0: break
+		# Stop once the violation is at the level of accuracy of the distances
+		if dist[k] >= -1e-10*np.max(np.abs(H)): break
 		g = grads[k]
 		ew, V = np.linalg.eigh(H - np.outer(g,g))
 		H = np.outer(g, g) + V @ np.diag(np.maximum(0, ew)) @ V.T
-- 
2.43.0


From f618d17b66432fd1c8aeb293804ead31b9687882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 092/150] fix: asynchronous calls without gradients, and
 gradients in normalized coordinates

---
 psdr/function.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 84541f1..908504b 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -166,12 +166,19 @@ class Function(BaseFunction):
 		X = self.domain_app.unnormalize(X_norm)
 		X = np.atleast_2d(X)
 
-		def subcall(funs_pickle, x, **kwargs_):
+		D = self.domain_app._unnormalize_der() 	
+
+		def subcall(funs_pickle, x, D, **kwargs_):
 			import cloudpickle
+			import numpy as np
 			funs = [cloudpickle.loads(fun) for fun in funs_pickle]
-			return [fun(x, **kwargs_) for fun in funs]
+			res = [fun(x, **kwargs_) for fun in funs]
+			if kwargs_.get('return_grad', False):
+				# Correct gradients to apply to normalized domain
+				res = [(fx, np.dot(grad, D.T)) for fx, grad in res]
+			return res
 
-		results = [self.dask_client.submit(subcall, self._funs_pickle, x, **kwargs) for x in X]	
+		results = [self.dask_client.submit(subcall, self._funs_pickle, x, D, **kwargs) for x in X]	
 		if len(X_norm.shape) == 1:
 			return results[0]
 		else:
@@ -301,7 +308,9 @@ class Function(BaseFunction):
 		and this function, call_async, which can optionally return gradients, like __call__.
 		"""
 		kwargs = merge(self.kwargs, kwargs)
-		return self.eval_async(X_norm, return_grad = return_grad, **kwargs)
+		if return_grad:
+			kwargs['return_grad'] = True
+		return self.eval_async(X_norm, **kwargs)
 	
 #	def __get__(self, i):
 #		"""Get a particular sub-function as another Function"""
-- 
2.43.0


From 73bf6c2d9d97d39e4836329f62ad1455a59e265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 093/150] fix: gradients of vectorized and multiple functions,
 and of lists of points

---
 psdr/function.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/psdr/function.py b/psdr/function.py
index 908504b..f252f76 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -208,14 +208,13 @@ class Function(BaseFunction):
 			h = 1e-7
 			grads = []
 			for x in np.atleast_2d(X_norm):
-				fx = self.eval(x)
-				grad = np.zeros(x.shape)
+				fx = self.eval(x, **kwargs)
+				grad = np.zeros((len(fx), len(x)))
 				for i in range(len(x)):
 					ei = np.zeros(x.shape)
 					ei[i] = 1.
-					grad[i] = (self.eval(x + h*ei, **kwargs) - fx)/h
-				# This ensures the dimensions match expectation for 
-				grads.append(np.atleast_2d(grad))
+					grad[:,i] = (self.eval(x + h*ei, **kwargs) - fx)/h
+				grads.append(grad)
 			
 			return self._shape_grad(X_norm, grads)
 
@@ -227,9 +226,8 @@ class Function(BaseFunction):
 			X = np.atleast_2d(X)
 			
 			if self.vectorized:
-				# TODO: I don't think this will get dimensions quite right
-				grads = np.array([ np.array(grad(X, **kwargs)) for grad in self._grads])
-				grads = np.transpose(grads, (1,0,2))
+				grads = [ np.array(grad(X, **kwargs)).reshape(len(X), -1, len(self.domain)) for grad in self._grads]
+				grads = np.concatenate(grads, axis = 1)
 			else:
 				grads = np.array([ np.vstack([grad(x, **kwargs) for grad in self._grads]) for x in X])
 		
@@ -245,8 +243,8 @@ class Function(BaseFunction):
 				grads = []
 				for fun in self._funs:
 					fXi, gradsi = fun(X, return_grad = True, **kwargs)
-					grads.append(gradsi)
-				grads = np.array([ np.atleast_2d(grad) for grad in grads])
+					grads.append(np.array(gradsi).reshape(len(X), -1, len(self.domain)))
+				grads = np.concatenate(grads, axis = 1)
 			else:
 				grads = []
 				for x in X:
@@ -269,13 +267,14 @@ class Function(BaseFunction):
 
 		if self.return_grad:
 			# If the function can return both the value and gradient simultaneously
+			X_norm = np.atleast_1d(X_norm)
 			X = self.domain_app.unnormalize(X_norm)
 			X = np.atleast_2d(X)
 			D = self.domain_app._unnormalize_der() 	
 			if self.vectorized:
 				ret = [fun(X, return_grad = True, **kwargs) for fun in self._funs]
-				fX = np.hstack([r[0] for r in ret])
-				grads = np.concatenate([r[1].reshape(X.shape[0], -1, len(self.domain)) for r in ret], axis = 1)
+				fX = np.hstack([np.array(r[0]).reshape(len(X), -1) for r in ret])
+				grads = np.concatenate([np.array(r[1]).reshape(X.shape[0], -1, len(self.domain)) for r in ret], axis = 1)
 			else:
 				fX = []
 				grads = []
-- 
2.43.0


From 44c6ce63d5c01cf3e1ca889d253ccd50d66013db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 094/150] fix: borehole accepts any array-like input as
 documented

---
 psdr/demos/borehole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/demos/borehole.py b/psdr/demos/borehole.py
index d05b07c..4136abb 100644
--- a/psdr/demos/borehole.py
+++ b/psdr/demos/borehole.py
@@ -122,7 +122,7 @@ def borehole(X):
 		Output of borehole function
 	"""
 	import numpy as np
-	X = X.reshape(-1, 8)
+	X = np.array(X).reshape(-1, 8)
 
 	# Split the variables
 	r_w = X[:,0]
-- 
2.43.0


From 6426467f6630c06771f824aaf3f16527137c0fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 095/150] fix: gradient of QuadraticFunction with a
 nonsymmetric matrix

---
 psdr/demos/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/demos/polynomial.py b/psdr/demos/polynomial.py
index 3559d39..ec19715 100644
--- a/psdr/demos/polynomial.py
+++ b/psdr/demos/polynomial.py
@@ -80,4 +80,4 @@ class QuadraticFunction(Function):
 		return 	(X.dot(self.quad)*X).sum(axis = 1) + self.linear.dot(X.T) + self.constant
 
 	def _func_grad(self, X):
-		 return 2*X.dot(self.quad) + np.tile(self.linear, (len(X),1))
+		 return X.dot(self.quad + self.quad.T) + np.tile(self.linear, (len(X),1))
-- 
2.43.0


From 0a2ecd74555f44036c90726893f0c19fbfa0a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 096/150] fix: golinski random domain ignored its truncation

---
 psdr/demos/golinski.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/psdr/demos/golinski.py b/psdr/demos/golinski.py
index 90d3e03..fa9fb76 100755
--- a/psdr/demos/golinski.py
+++ b/psdr/demos/golinski.py
@@ -314,7 +314,6 @@ def golinski_constraint25_grad(x):
 			0*x1,
 			1.1/x5,
 		]).T
-	return val, grad
 
 # Units of cm
 def build_golinski_design_domain():
@@ -330,12 +329,12 @@ def build_golinski_design_domain():
 
 # Taken from table 3 of Hu, Zhou, Chen, Parks, 2017 in AIAA journal 
 def build_golinski_random_domain(clip = None):
-	return TensorProductDomain([NormalDomain(0,21e-4**2, clip = clip),
-				NormalDomain(0, 1e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip),
-				NormalDomain(0, 21e-4**2, clip = clip),
-				NormalDomain(0, 30e-4**2, clip = clip)])
+	return TensorProductDomain([NormalDomain(0,21e-4**2, truncate = clip),
+				NormalDomain(0, 1e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip),
+				NormalDomain(0, 21e-4**2, truncate = clip),
+				NormalDomain(0, 30e-4**2, truncate = clip)])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 7d2e3e6dba317ebbf4feea37bd5fa1d39734c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 097/150] fix: NameError in build_multif_random_domain

---
 psdr/demos/multif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index d3e0016..56004ce 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -101,7 +101,7 @@ def build_multif_domain(truncate = 1e-7, **kwargs):
 def build_multif_design_domain(output = 'none', **kwargs):
 	return buildDesignDomain(output = output, **kwargs)
 
-def build_multif_random_domain(truncate = 1e-7):
+def build_multif_random_domain(truncate = 1e-7, **kwargs):
 	return buildRandomDomain(truncate = truncate, **kwargs)
 
 
-- 
2.43.0


From 972c26e0e091182908026c96b6bcc44dbe5e99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 098/150] fix: MULTIF ignored level, su2_maxiter and workdir

---
 psdr/demos/multif.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/demos/multif.py b/psdr/demos/multif.py
index 56004ce..c28d1f1 100644
--- a/psdr/demos/multif.py
+++ b/psdr/demos/multif.py
@@ -88,6 +88,7 @@ class MULTIF(Function):
 		self.random_domain = self.random_domain_norm		
 
 		domain = self.design_domain_app * self.random_domain_app
+		kwargs.update({'level': level, 'su2_maxiter': su2_maxiter, 'workdir': workdir})
 		Function.__init__(self, multif, domain, vectorized = False, dask_client = dask_client, kwargs = kwargs )
 
 	def __str__(self):
-- 
2.43.0


From e20e5360903b5b165cae036a4b8aa72b8c056121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 099/150] fix: names of the OpenAeroStruct domain for other
 numbers of control points

---
 psdr/demos/oas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/demos/oas.py b/psdr/demos/oas.py
index f5c504b..6b8aaa5 100644
--- a/psdr/demos/oas.py
+++ b/psdr/demos/oas.py
@@ -27,9 +27,9 @@ class OpenAeroStruct(Function):
 
 def build_oas_design_domain(n_cp = 3):
 	# Twist
-	domain_twist = BoxDomain(-1*np.ones(n_cp), 1*np.ones(n_cp), names = ['twist %d' % (i,) for i in range(1,4)] )
+	domain_twist = BoxDomain(-1*np.ones(n_cp), 1*np.ones(n_cp), names = ['twist %d' % (i,) for i in range(1,n_cp+1)] )
 	# Thick
-	domain_thick = BoxDomain(0.005*np.ones(n_cp), 0.05*np.ones(n_cp), names = ['thickness %d' % (i,) for i in range(1,4)] )
+	domain_thick = BoxDomain(0.005*np.ones(n_cp), 0.05*np.ones(n_cp), names = ['thickness %d' % (i,) for i in range(1,n_cp+1)] )
 	# Root Chord
 	domain_root_chord = BoxDomain(0.7, 1.3, names = ['root chord'])
 	# Taper ratio
-- 
2.43.0


From 220bee75ab12476fe9e2d4f55fb5c3545543ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 100/150] fix: OpenAeroStruct evaluated at a single point

---
 psdr/demos/oas.py            | 4 ++--
 psdr/demos/oas/oas_driver.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/demos/oas.py b/psdr/demos/oas.py
index 6b8aaa5..bb413b6 100644
--- a/psdr/demos/oas.py
+++ b/psdr/demos/oas.py
@@ -72,7 +72,7 @@ def oas_func(x, version = 'v1', workdir = None, verbose = False, keep_data = Fal
 		os.makedirs(workdir)
 
 	# Copy the inputs to a file
-	np.savetxt(workdir + '/my.input', x, fmt = '%.15e')
+	np.savetxt(workdir + '/my.input', np.atleast_2d(x), fmt = '%.15e')
 	call = "docker run -t --rm --mount type=bind,source='%s',target='/workdir' jeffreyhokanson/oas:%s /workdir/my.input" % (workdir, version)
 	args = shlex.split(call)
 	with open(workdir + '/output.log', 'ab') as log:
@@ -92,7 +92,7 @@ def oas_func(x, version = 'v1', workdir = None, verbose = False, keep_data = Fal
 		if p.returncode != 0:
 			print("exited with error code %d" % p.returncode)
 
-	Y = np.loadtxt(workdir + '/my.output')
+	Y = np.loadtxt(workdir + '/my.output', ndmin = 2)
 
 	if not keep_data:
 		shutil.rmtree(workdir) 
diff --git a/psdr/demos/oas/oas_driver.py b/psdr/demos/oas/oas_driver.py
index 74c1234..a255673 100644
--- a/psdr/demos/oas/oas_driver.py
+++ b/psdr/demos/oas/oas_driver.py
@@ -115,7 +115,7 @@ if __name__ == '__main__':
 	args = parser.parse_args()
 
 	infile = args.infile
-	X = np.loadtxt(infile)
+	X = np.loadtxt(infile, ndmin = 2)
 	
 	if len(X.shape) == 1:
 		X = X.reshape(1,-1)
-- 
2.43.0


From 93bf2a35dd8607cbd09bf4b58554b1b021ed1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 101/150] fix: asynchronous evaluation of functions using names
 from their module

---
 psdr/function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/psdr/function.py b/psdr/function.py
index f252f76..50e84c3 100644
--- a/psdr/function.py
+++ b/psdr/function.py
@@ -117,7 +117,10 @@ class Function(BaseFunction):
 				code = textwrap.dedent(code)
 				
 				# Execute code	
-				scope = {}
+				# Names from the module defining the function must be available when it is called;
+				# without __name__ the function is pickled by value
+				scope = dict(getattr(fun, '__globals__', {}))
+				scope.pop('__name__', None)
 				exec(code, scope, scope)
 	
 				# (2) We now pickle this function 
-- 
2.43.0


From e8d54a66cda82f33f29c5b2245f67bd2f05a6310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 102/150] fix: sampler keeps samples and values aligned when
 starting without values or when the function fails

---
 psdr/sample/sample.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/psdr/sample/sample.py b/psdr/sample/sample.py
index 5d48efe..9c3f0c9 100644
--- a/psdr/sample/sample.py
+++ b/psdr/sample/sample.py
@@ -129,25 +129,31 @@ class SequentialMaximinSampler(Sampler):
 		self._L = L
 
 	def _sample(self, draw = 1, verbose = False):
-		Xnew = []
+		X = self._X
 		# As L is fixed, we can draw these samples at once
 		for i in range(draw):
-			xnew = seq_maximin_sample(self._fun.domain, self._X, Ls = [self._L])
-			Xnew.append(xnew)
+			xnew = seq_maximin_sample(self._fun.domain, X, Ls = [self._L])
 			if verbose:
 				print('%3d: ' % (i,),  ' '.join(['%8.3f' % x for x in xnew]))
-			self._X = np.vstack([self._X, xnew])
+			X = np.vstack([X, xnew])
 
 		# Now we evaluate the function at these new points
 		# (this takes advantage of potential vectorization of fun)
-		fXnew = self._fun.eval(Xnew)
-		if self._fX is None:
-			self._fX = fXnew
-		else:
-			if len(fXnew.shape) > 1:
-				self._fX = np.vstack([self._fX, fXnew])
+		# and, if necessary, at those provided without function values
+		nfX = 0 if self._fX is None else len(self._fX)
+		fX = self._fX
+		if len(X) > nfX:
+			fXnew = np.array(self._fun.eval(X[nfX:]))
+			if nfX == 0:
+				fX = fXnew
+			elif len(fXnew.shape) > 1:
+				fX = np.vstack([self._fX.reshape(nfX, -1), fXnew])
 			else:
-				self._fX = np.hstack([self._fX, fXnew])
+				fX = np.hstack([self._fX.flatten(), fXnew])
+
+		# Only store the new samples once their function values are available
+		self._X = X
+		self._fX = fX
 
 
 class StretchedSampler(Sampler):
-- 
2.43.0


From 138afdf248787d20979cc481a13ac56753720efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 103/150] fix: missing import in SequentialMaximinSampler

---
 psdr/sample/sample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/sample.py b/psdr/sample/sample.py
index 9c3f0c9..5d85e92 100644
--- a/psdr/sample/sample.py
+++ b/psdr/sample/sample.py
@@ -16,6 +16,7 @@ from ..geometry import sample_sphere, unique_points, sample_simplex
 from ..domains import LinIneqDomain, ConvexHullDomain
 
 from .initial import initial_sample
+from .seqmaximin import seq_maximin_sample
 
 __all__ = ['Sampler', 'SequentialMaximinSampler', 'StretchedSampler']
 
-- 
2.43.0


From 7316dd8a8b8dc1a67502180ec32d989df0270cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 104/150] fix: minimax clustering left the domain and stopped
 by signed movement

---
 psdr/sample/minimax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 4e5955a..bd9b00f 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -315,6 +315,7 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 		N0 = min(N*100, int(1e4))
 	N0 = int(N0)
 
+	solver_opts = dict(solver_opts)
 	if 'warm_start' not in solver_opts:
 		solver_opts['warm_start'] = True
 
@@ -373,9 +374,10 @@ def minimax_cluster(domain, N, L = None, maxiter = 50, N0 = None, xtol = 1e-5,
 			break
 
 		# TODO: This is easy to parallelize, but attempts have not improved wall clock time
-		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts) for i in range(N)]
+		Xhat_new = [ _cq_center_cvxpy(Y[I == i], L, q = q, xhat = Xhat[i], solver_opts = solver_opts, domain = domain)
+			if np.any(I == i) else Xhat[i] for i in range(N)]
 		Xhat_new = np.array(Xhat_new)
-		dx = np.max(Xhat_new - Xhat)	
+		dx = np.max(np.abs(Xhat_new - Xhat))
 		Xhat = Xhat_new
 
 		if dx < xtol:
-- 
2.43.0


From ea85c3a4c5cb85a1d067ee2c7a1e21e905f071c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 105/150] fix: particle swarm minimax designs left the domain

---
 psdr/sample/minimax.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index bd9b00f..86459a5 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -172,7 +172,7 @@ def minimax_cluster_pso(domain, N, L = None, maxiter = 10, X = None, N0 = None,
 		Xhat[0] = domain.sample(1)
 		for j in range(1,N):
 			Xt = domain.sample(10*N)
-			k = np.argmax(np.min(cdist( (L @ Xhat[:j].T).T, (L @ Xt.T).T)))
+			k = np.argmax(np.min(cdist( (L @ Xhat[:j].T).T, (L @ Xt.T).T), axis = 0))
 			Xhat[j] = Xt[k]
 		return Xhat
 	
@@ -224,11 +224,12 @@ def minimax_cluster_pso(domain, N, L = None, maxiter = 10, X = None, N0 = None,
 					pass
 			
 
-			# Construct random convex combination
-			A1 = a1*np.random.uniform(size = Xhat_new.shape)
-			A2 = a2*np.random.uniform(size = Xhat_new.shape)
-			A3 = a3*np.random.uniform(size = Xhat_new.shape)
-			A4 = a4*np.random.uniform(size = Xhat_new.shape)
+			# Construct random convex combination of each node
+			# (using the same weights in each coordinate to remain inside the domain)
+			A1 = a1*np.random.uniform(size = (N,1))
+			A2 = a2*np.random.uniform(size = (N,1))
+			A3 = a3*np.random.uniform(size = (N,1))
+			A4 = a4*np.random.uniform(size = (N,1))
 				
 
 			A_sum = A1 + A2 + A3 + A4
-- 
2.43.0


From 2ee57e87ddc3d4e2bd6f5fc187d5379f80faf689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 106/150] fix: optimal covers without or with unsymmetric
 metrics and when the bounds on the size suffice or do not

---
 psdr/sample/minimax.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/minimax.py b/psdr/sample/minimax.py
index 86459a5..41be024 100644
--- a/psdr/sample/minimax.py
+++ b/psdr/sample/minimax.py
@@ -111,17 +111,20 @@ def minimax_optimal_cover(domain, r, L = None, X = None, **kwargs):
 	if 'verbose' not in kwargs:
 		kwargs['verbose'] = False
 
+	if L is None:
+		L = np.eye(len(domain))
+
 	if X is None:
-		X = sobol_sequence(domain, 1e4)
+		X = sobol_sequence(domain, int(1e4))
 
 	@lru_cache(maxsize = None)
 	def design(N):
 		return minimax_cluster(domain, N, L = L, X = X, **kwargs)
 	
-	Y = (L.T @ X.T).T
+	Y = (L @ X.T).T
 	def maximin_distance(N):
 		Xhat = design(N)
-		Yhat = (L.T @ Xhat.T).T
+		Yhat = (L @ Xhat.T).T
 		return np.max(np.min(cdist(Yhat, Y), axis = 0))
 		
 	domain_volume = domain.volume()
@@ -131,6 +134,16 @@ def minimax_optimal_cover(domain, r, L = None, X = None, **kwargs):
 	N0 = int(np.floor((1/r)**len(domain) * (domain_volume/ball_volume) * np.abs(np.linalg.det(L))))
 	N1 = int(np.floor((3/r)**len(domain) * (domain_volume/ball_volume) * np.abs(np.linalg.det(L))))
 	
+	# The lower bound may already be sufficient
+	N0 = max(N0, 1)
+	if maximin_distance(N0) <= r:
+		return design(N0)
+
+	# As the designs are not optimal, the upper bound might not yet be sufficient 
+	N1 = min(max(N1, N0 + 1), len(X))
+	while maximin_distance(N1) >= r and N1 < len(X):
+		N1 = min(2*N1, len(X))
+
 	# Do a simple bisection search
 	N = _int_bisect(lambda N: r - maximin_distance(N), N0, N1)
 	return design(N)
-- 
2.43.0


From 8a31c54ce58a453dcd1e6400a813934f5ecebd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 107/150] fix: initial sample with a single point

---
 psdr/sample/initial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/initial.py b/psdr/sample/initial.py
index 0abf86b..62cc9aa 100644
--- a/psdr/sample/initial.py
+++ b/psdr/sample/initial.py
@@ -36,10 +36,11 @@ def initial_sample(domain, L, Nsamp = int(1e2), Nboundary = 50):
 	"""
 	# If we are sampling with a scalar multiple of the identity matrix,
 	# we can do no better than random sampling on the original domain
+	L = np.atleast_2d(np.array(L))
 	if L.shape[0] == L.shape[1]:
 		err = np.linalg.norm(L[0,0]*np.eye(L.shape[0]) - L)
 		if np.isclose(err, 0):
-			return domain.sample(Nsamp)
+			return np.atleast_2d(domain.sample(Nsamp))
 
 	# If there is only one point in the domain,
 	# we simply return that one point
@@ -73,7 +74,7 @@ def initial_sample(domain, L, Nsamp = int(1e2), Nboundary = 50):
 	# Create a domain using these points
 	Ldom = ConvexHullDomain(Lcs)
 	# Determine which points were used
-	Y = Ldom.sample(Nsamp)
+	Y = np.atleast_2d(Ldom.sample(Nsamp))
 
 	# Convert back to the ambient space
 	X = np.zeros((Nsamp, len(domain)))
-- 
2.43.0


From ac02852ac7c5df239a363e91b48134e1bcdfe53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 108/150] fix: maximin design with a single or integer valued
 points

---
 psdr/sample/maximin.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/psdr/sample/maximin.py b/psdr/sample/maximin.py
index 0408bf8..57ee99f 100644
--- a/psdr/sample/maximin.py
+++ b/psdr/sample/maximin.py
@@ -89,13 +89,17 @@ def maximin_block(domain, Nsamp, L = None, xtol = 1e-6, verbose = False, maxiter
 	if X0 is None:
 		X = initial_sample(domain, L, Nsamp)
 	else:
-		X = np.array(X0)
+		X = np.array(X0, dtype = float)
 
 	if verbose:
 		printer = IterationPrinter(it = '4d', maximin = '16.8e', dx = '10.3e')
 		printer.print_header(it = 'iter', maximin = 'maximin dist.', dx = 'Δx')
 
 	
+	# A single point has no neighbors from which to move away
+	if Nsamp == 1:
+		return X
+
 	mask = np.ones(Nsamp, dtype = np.bool)
 	for it in range(maxiter):
 		max_move = 0
-- 
2.43.0


From 27a437f3d446436a42b98c0e3e1b83e76eb44110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 109/150] fix: coffeehouse designs with rank deficient metrics
 in low dimension

---
 psdr/sample/maximin_coffeehouse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/maximin_coffeehouse.py b/psdr/sample/maximin_coffeehouse.py
index e78c0a8..73268f6 100644
--- a/psdr/sample/maximin_coffeehouse.py
+++ b/psdr/sample/maximin_coffeehouse.py
@@ -33,14 +33,16 @@ def maximin_coffeehouse(domain, N, L = None, verbose = True, N0 = None, full = N
 		Appearing in "Optimum Design 2000", pp 241--248. Atkinson et al. eds.
 	"""
 
+	if L is None:
+		L = np.eye(len(domain))
+
 	if full is None:
-		if len(domain) <= 3:
+		# The Voronoi diagram is unbounded in the domain's space if L is rank deficient
+		if len(domain) <= 3 and np.linalg.matrix_rank(L) == len(domain):
 			full = True
 		else:
 			full = False
 
-	if L is None:
-		L = np.eye(len(domain))
 	if N0 is None:
 		N0 = 10*N
 
-- 
2.43.0


From 63e003e458cd038257e010cc0baf46ad09df7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 110/150] fix: Lloyd iteration overwrote the design provided

---
 psdr/sample/minimax_lloyd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psdr/sample/minimax_lloyd.py b/psdr/sample/minimax_lloyd.py
index a63f090..a4611d8 100644
--- a/psdr/sample/minimax_lloyd.py
+++ b/psdr/sample/minimax_lloyd.py
@@ -94,6 +94,9 @@ def minimax_lloyd(domain, M, L = None, maxiter = 100, Xhat = None, verbose = Tru
 		# The Shrinkage suggested by Pro17 hasn't been demonstrated to be useful with this initialization, so we avoid it
 		if verbose: print('\n'+10*'='+" Building Minimax Design " + 10*'=')
 
+	# Copy so that a design provided is not modified
+	Xhat = np.array(Xhat, dtype = float)
+
 	x = cp.Variable(len(domain))
 	c = cp.Variable(len(domain))
 	constraints = domain._build_constraints(x)
-- 
2.43.0


From bc0904c784ed86b495c5853bbde28b5df130ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:14 +0000
Subject: [PATCH 111/150] fix: scaled minimax design scored against the
 unscaled design and returned inferior scalings

---
 psdr/sample/minimax_scale.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/minimax_scale.py b/psdr/sample/minimax_scale.py
index 1491d9b..425e41b 100644
--- a/psdr/sample/minimax_scale.py
+++ b/psdr/sample/minimax_scale.py
@@ -41,7 +41,7 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 	@lru_cache()	
 	def score_design_full(alpha):
 		Xtmp = scale_design(alpha)
-		V = voronoi_vertex(domain, Xhat, L = L)
+		V = voronoi_vertex(domain, Xtmp, L = L)
 		D = cdist(Xtmp, V, L = L)
 		d = np.max(np.min(D, axis = 0))
 		if verbose:
@@ -51,7 +51,7 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 	@lru_cache()
 	def score_design_sample(alpha):
 		Xtmp = scale_design(alpha)
-		V = voronoi_vertex_sample(domain, Xhat, X0, L = L)
+		V = voronoi_vertex_sample(domain, Xtmp, X0, L = L)
 		D = cdist(Xtmp, V, L = L)
 		d = np.max(np.min(D, axis = 0))
 		if verbose:
@@ -72,7 +72,8 @@ def minimax_scale(domain, Xhat, L = None, full = None, npoints = 20, N0 = None,
 		printer.print_iter()
 	try:
 		res = minimize_scalar(score_design, (alpha_vec[k-1], alpha_vec[k], alpha_vec[k+1]), bounds =[0,1], options = {'maxiter': 10})
-		alpha = res.x
+		# only use this scaling if it improves on the best candidate found so far
+		alpha = res.x if res.fun < score_vec[k] else alpha_vec[k]
 	except (ValueError, IndexError) :
 		alpha = alpha_vec[k]
 
-- 
2.43.0


From 80763cb9c5432bdadad15655e3105b0e15b5d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 112/150] fix: Poisson disk grid compared with the wrong cells

---
 psdr/sample/poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index 527cee8..afb8661 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -122,7 +122,7 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 				idxc = grid_coord(xc)
 				neighbors = []
 				grid_rad = int(2*np.ceil(np.sqrt(L.shape[0])))+1
-				for idx in itertools.product(*[ (j+k for k in range(-grid_rad, grid_rad+1)) for j in idxc]):
+				for idx in itertools.product(*[ range(j - grid_rad, j + grid_rad+1) for j in idxc]):
 					try:
 						if min(idx) < 0: raise IndexError
 						n = grid[idx]
-- 
2.43.0


From af48231c9acab458e4f889359fb5d0215f6c2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 113/150] fix: Poisson disk grid for points on the boundary of
 the domain

---
 psdr/sample/poisson.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index afb8661..a7f5638 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -86,13 +86,14 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 		grid_dims[i] = int(np.ceil((L[i,:].dot(c2) - L[i,:].dot(c1))/grid_size))
 
 	# Setup the grid
-	grid = np.zeros(grid_dims, dtype = np.uint32)
+	grid = np.zeros(np.maximum(grid_dims, 1), dtype = np.uint32)
 
 	def grid_coord(x):
 		""" location of x on the grid"""
 		Lx = L.dot(x).flatten()
 		idx = np.floor((Lx - grid_start)/grid_size)
-		return idx.astype(np.int)
+		# points on the boundary of the domain belong to the outermost cells
+		return np.clip(idx, 0, np.array(grid.shape) - 1).astype(np.int)
 
 	X = [domain.sample()]
 	active = [True]
@@ -107,7 +108,6 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 			break
 		
 		LX = L.dot(np.array(X).T).T
-		print(active)
 		success = False
 		for it in range(Ntries):
 			# Generate a random direction
-- 
2.43.0


From a58b13ee8810aeffe4a52100b261780b39e42c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 114/150] fix: Poisson disk sampling along directions not
 changing the metric

---
 psdr/sample/poisson.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/poisson.py b/psdr/sample/poisson.py
index a7f5638..8b82747 100644
--- a/psdr/sample/poisson.py
+++ b/psdr/sample/poisson.py
@@ -35,7 +35,10 @@ def poisson_disk_sample(domain, r, L = None, Ntries = 100):
 		for it in range(Ntries):
 			# Generate a random direction
 			p = domain.random_direction(X[i])
-			p /= np.linalg.norm(L.dot(p))
+			p_norm = np.linalg.norm(L.dot(p))
+			# moving in this direction does not change the distance in this metric
+			if np.isclose(p_norm, 0): continue
+			p /= p_norm
 
 			# TODO: Change distribution to sample annulus uniformly
 			ri = np.random.uniform(r, 2*r)
@@ -112,7 +115,10 @@ def poisson_disk_sample_grid(domain, r, L = None, Ntries = 100):
 		for it in range(Ntries):
 			# Generate a random direction
 			p = domain.random_direction(X[i])
-			p /= np.linalg.norm(L.dot(p))
+			p_norm = np.linalg.norm(L.dot(p))
+			# moving in this direction does not change the distance in this metric
+			if np.isclose(p_norm, 0): continue
+			p /= p_norm
 			# TODO: Change distribution to sample annulus uniformly
 			ri = np.random.uniform(r, 2*r)
 	
-- 
2.43.0


From c734b2deaed8f12533c82de9b6e59145231a0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 115/150] fix: projection design with all arrangements
 exhausted or ill-conditioned cells

---
 psdr/sample/projection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index a9c5677..646d966 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -400,8 +400,12 @@ def projection_design(domain, M, Ls, ys = None, maxiter = 1000, verbose = True,
 			except (KeyboardInterrupt, SystemExit):
 				raise
 			except StopIteration:
-				pass
+				sol = None
 		
+		# There are no more designs to try
+		if sol is None:
+			break
+
 		# Convert the solution format into a permutation matrix
 		sol = np.array(sol)
 		perms = -np.ones((len(Ls), M), dtype = np.int)
@@ -415,7 +419,7 @@ def projection_design(domain, M, Ls, ys = None, maxiter = 1000, verbose = True,
 			try: 
 				x = voronoi_cell_point(tuple(perms[:,j]))
 				X.append(x)
-			except EmptyDomainException:
+			except (EmptyDomainException, SolverError, cp.SolverError):
 				# Add constraint to prevent this cell from being sampled again
 				new_geo_cnf = [[-encode(k, o, perms[k,j]) for k in range(len(Ls))] for o in range(M)] 
 				sat_iter.add_clauses(new_geo_cnf)
-- 
2.43.0


From 942d2a31245e4e33fc55e6c0c1436ceb81513e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 116/150] fix: projection sample and design with a single point

---
 psdr/sample/projection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 646d966..1aa6026 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -204,7 +204,7 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 	
 			X = np.vstack(points)
 			
-			if Lall.shape[0] < len(domain):
+			if Lall.shape[0] < len(domain) and Nsamp > 1:
 				# If the Ls do not completely fix each of the samples, iterate to find maximin design
 				consubdoms = [subdom.add_constraints(A_eq = Lall, b_eq = Lall.dot(x)) for subdom, x in zip(subdoms, X)]
 				X = np.vstack([consubdom.sample() for consubdom in consubdoms])
@@ -283,8 +283,9 @@ def _voronoi_cell_point(coord, domain, Ls, ys):
 	M = len(ys[0])
 	Lall = np.vstack(Ls)
 	# Generate inequality constraints based on each
-	A = []
-	b = []
+	# a single point has no neighbors
+	A = [np.zeros((0, len(domain)))]
+	b = [np.zeros(0)]
 	for i, (L, y) in enumerate(zip(Ls, ys)):
 		for k in range(M):
 			j = coord[i]
-- 
2.43.0


From 6dc2c7b7bbbfd06e4aa61f663ea50dd4431d487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 117/150] fix: projection sample with multidimensional metrics

---
 psdr/sample/projection.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/psdr/sample/projection.py b/psdr/sample/projection.py
index 1aa6026..7d4c5c2 100644
--- a/psdr/sample/projection.py
+++ b/psdr/sample/projection.py
@@ -3,6 +3,8 @@ from __future__ import print_function
 import numpy as np
 import cvxpy as cp
 from scipy.spatial.distance import pdist, squareform
+from scipy.spatial import Delaunay
+from scipy.spatial.qhull import QhullError
 from satyrn import picosat
 
 try:
@@ -81,11 +83,15 @@ def projection_sample(domain, Nsamp, Ls, maxiter = 1000, verbose = False, _lhs =
 				neighbors[I[j]] = np.array([I[k] for k in (j-1, j+1) if 0 <= k < Nsamp], dtype = np.int)
 			
 		else:
-			delaunay = Delaunay(y)
-			indices, indptr = delaunay.vertex_neighbor_vertices
-			# Convert the Delaunay data structure into a list of neighbors
-			# https://stackoverflow.com/a/23700182
-			neighbors = [indptr[indices[k]:indices[k+1]] for k in range(len(y))]
+			try:
+				delaunay = Delaunay(y)
+				indices, indptr = delaunay.vertex_neighbor_vertices
+				# Convert the Delaunay data structure into a list of neighbors
+				# https://stackoverflow.com/a/23700182
+				neighbors = [indptr[indices[k]:indices[k+1]] for k in range(len(y))]
+			except (QhullError, ValueError):
+				# If there are too few points for a triangulation, every point is a neighbor
+				neighbors = [np.array([k for k in range(len(y)) if k != j], dtype = np.int) for j in range(len(y))]
 		
 		# Now construct the inequality constraints for each point's Voronoi cell
 		for j, neigh in enumerate(neighbors):
-- 
2.43.0


From a804650a13d45a492593cbb78278f79fcfa3b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 118/150] fix: sequential maximin with metrics given as lists

---
 psdr/sample/seqmaximin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/sample/seqmaximin.py b/psdr/sample/seqmaximin.py
index 2da0295..44f6526 100644
--- a/psdr/sample/seqmaximin.py
+++ b/psdr/sample/seqmaximin.py
@@ -57,6 +57,7 @@ def seq_maximin_sample(domain, Xhat, Ls = None, Nsamp = int(1e3), X0 = None, sla
 	"""
 	if Ls is None:
 		Ls = [np.eye(len(domain))]
+	Ls = [np.atleast_2d(np.array(L)) for L in Ls]
 
 	# If we have no samples we pick a corner in the direction
 	# of the dominant singular vector of the stacked L matrices
-- 
2.43.0


From 5d98a5ae1dfb3f99ef41f8b6aab4455740cfa597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 119/150] fix: sequential maximin with ill-conditioned
 combinations of metrics

---
 psdr/sample/seqmaximin.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/seqmaximin.py b/psdr/sample/seqmaximin.py
index 44f6526..d24dd0d 100644
--- a/psdr/sample/seqmaximin.py
+++ b/psdr/sample/seqmaximin.py
@@ -3,9 +3,11 @@ from __future__ import division, print_function
 import itertools
 import numpy as np
 import scipy
+import cvxpy as cp
 from scipy.spatial.distance import cdist
 
 from ..geometry import voronoi_vertex_sample, unique_points
+from ..exceptions import EmptyDomainException, SolverError
 from .initial import initial_sample
 
 def seq_maximin_sample(domain, Xhat, Ls = None, Nsamp = int(1e3), X0 = None, slack = 0.9):
@@ -149,7 +151,12 @@ def seq_maximin_sample(domain, Xhat, Ls = None, Nsamp = int(1e3), X0 = None, sla
 				L = Ls[k]
 				vert = vertices[k][idx_i[k]]
 				domain_test = domain_samp.add_constraints(A_eq = L, b_eq = L.dot(vert) )
-				if domain_test.is_empty:
+				try:
+					is_empty = domain_test.is_empty
+				except (SolverError, cp.SolverError):
+					# We cannot use these constraints if they are too ill-conditioned to find a point
+					is_empty = True
+				if is_empty:
 					#print("empty after %d constraints" % k)
 					break
 				else:
@@ -167,8 +174,12 @@ def seq_maximin_sample(domain, Xhat, Ls = None, Nsamp = int(1e3), X0 = None, sla
 			break
 		
 		# Generate candidates 
-		X0 = initial_sample(domain_samp, np.eye(len(domain)), Nsamp = 100)
-		Xcan_new = voronoi_vertex_sample(domain_samp, Xhat, X0)
+		try:
+			X0 = initial_sample(domain_samp, np.eye(len(domain)), Nsamp = 100)
+			Xcan_new = voronoi_vertex_sample(domain_samp, Xhat, X0)
+		except (EmptyDomainException, SolverError, cp.SolverError):
+			# If this domain is too ill-conditioned to sample, we use the points defining its constraints 
+			Xcan_new = np.vstack([vertices[k][i] for k, i in enumerate(idx_i)])
 		
 		# Score samples: product of distances in each of the L metrics
 		score_Ls_new = np.ones(Xcan_new.shape[0])
-- 
2.43.0


From 77c92ac41fe0ff96e19cd17de8cb2537c047609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 120/150] fix: stretch sampling overwrote its samples

---
 psdr/sample/stretch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psdr/sample/stretch.py b/psdr/sample/stretch.py
index a2ad68f..de575be 100644
--- a/psdr/sample/stretch.py
+++ b/psdr/sample/stretch.py
@@ -46,10 +46,10 @@ def stretch_sample_domain(domain, X, Ls, verbose = False):
 		xd = []
 		for k, L in enumerate(Ls):
 			try:
-				X, d = _maximin_block_candidate(domain, X, L)
+				x, d = _maximin_block_candidate(domain, X, L)
 			except (SolverError, EmptyDomainException):
-				pass
-			xd.append( list([X, d, L, k]))
+				continue
+			xd.append( list([x, d, L, k]))
 		#xd = [list(_maximin_block_candidate(domain, X, L)) + [L, k] for k, L in enumerate(Ls)]
 		if len(xd) == 0:
 			break
-- 
2.43.0


From 3f4c7c06a2aa42b7c55f7402e78b9408c224eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:26 +0000
Subject: [PATCH 121/150] fix: constraints of convex hull domains had the wrong
 orientation

---
 psdr/domains/convexhull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index dee7c77..8f23ee3 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -261,7 +261,7 @@ class ConvexHullDomain(LinQuadDomain):
 	def _build_constraints(self, x):
 		
 		alpha = cp.Variable(len(self.X), name = 'alpha')
-		constraints = [x == alpha @ self._X.T,  alpha >=0, cp.sum(alpha) == 1]
+		constraints = [x == alpha @ self._X,  alpha >=0, cp.sum(alpha) == 1]
 		constraints += LinQuadDomain._build_constraints(self, x)
 		return constraints
 		
-- 
2.43.0


From 16f621757e39ce103878fb3df3618993787e50a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 122/150] fix: save_contour(fmt='prepared') wrote undefined
 points; write every point of each path

---
 psdr/pgf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index b7914ef..d3a109d 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -66,7 +66,8 @@ def save_contour(fname, cs, fmt = 'matlab', simplify = 1e-3, **kwargs):
 			fout.write("%15.15e\t%15.15e\n" % (x,y))
 
 	def write_path_prepared(fout, x_vec, y_vec, z):
-		fout.write("%15.15e\t%15.15e\t%15.15e\n" % (x0,y0,z))
+		for x, y in zip(x_vec, y_vec):
+			fout.write("%15.15e\t%15.15e\t%15.15e\n" % (x,y,z))
 		fout.write("\t\t\t\n")
 
 	if fmt == 'matlab':
-- 
2.43.0


From 5c465cff4407e45f7aa97545f05d75e48fd3b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 123/150] fix: PGF tables without columns can be written and
 read back

---
 psdr/pgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index d3a109d..845acf1 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -30,7 +30,7 @@ class PGF:
 			f.write(name + '\t')
 		f.write("\n")		
 
-		for j in range(len(self.columns[0])):
+		for j in range(len(self.columns[0]) if len(self.columns) > 0 else 0):
 			for col in self.columns:
 				f.write("{}\t".format(float(col[j])))
 			f.write("\n")
@@ -43,7 +43,7 @@ class PGF:
 				# Remove the newline and trailing tab if present
 				line = line.replace('\t\n','').replace('\n','')
 				if i == 0:
-					self.column_names = line.split('\t')
+					self.column_names = line.split('\t') if len(line) > 0 else []
 					self.columns = [ [] for name in self.column_names]
 				else:
 					cols = line.split('\t')
-- 
2.43.0


From c5889a77c2414e25e26e9ba084c1cfe4ec706c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 124/150] fix: PGF.add checks the length of the second column
 too

---
 psdr/pgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/pgf.py b/psdr/pgf.py
index 845acf1..aecc0e8 100644
--- a/psdr/pgf.py
+++ b/psdr/pgf.py
@@ -10,7 +10,7 @@ class PGF:
 		self.columns = []
 
 	def add(self, name, column):
-		if len(self.columns) > 1:
+		if len(self.columns) > 0:
 			assert len(self.columns[0]) == len(column)
 
 		self.columns.append(deepcopy(column))
-- 
2.43.0


From 77465c6a4975f1ac3603a77bbd1277d5a6167b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 125/150] fix: GaussianProcess.eval accepts a single point and
 lists

---
 psdr/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/psdr/gp.py b/psdr/gp.py
index 0116d93..0e0a783 100644
--- a/psdr/gp.py
+++ b/psdr/gp.py
@@ -363,6 +363,7 @@ class GaussianProcess(BaseFunction):
 		self._ell = ell
 
 	def eval(self, Xnew, return_cov = False):
+		Xnew = np.atleast_2d(np.array(Xnew))
 		Y = np.dot(self.L, self.X.T).T
 		Ynew = np.dot(self.L, Xnew.T).T
 		dij = cdist(Ynew, Y, 'sqeuclidean')	
-- 
2.43.0


From e71bc1b1260539f92ab038a926a9c957d0bf8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 126/150] fix: GaussianProcess.fit restarts when the line
 search fails away from a stationary point

---
 psdr/gp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/gp.py b/psdr/gp.py
index 0e0a783..ece66c9 100644
--- a/psdr/gp.py
+++ b/psdr/gp.py
@@ -356,6 +356,13 @@ class GaussianProcess(BaseFunction):
 				#method = 'L-BFGS-B',
 				#options = {'disp': True}, 
 			)
+		# The line search can fail far from a stationary point when a trial step lands 
+		# where the kernel matrix is numerically singular; restart from the best point found
+		for it in range(10):
+			if res.success: break
+			restart = scipy.optimize.minimize(self._obj, res.x, jac = self._grad)
+			if not (restart.fun < res.fun): break
+			res = restart
 		ell = res.x
 		self.L = self._make_L(ell)
 		self.alpha, self.beta = self._log_marginal_likelihood(ell, 
-- 
2.43.0


From 166e60bb54b466c5cabd9d184f9513e7773f0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 127/150] fix: GaussianProcess.fit raised ValueError when a
 trial length scale overflowed

---
 psdr/gp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/psdr/gp.py b/psdr/gp.py
index ece66c9..bfeca77 100644
--- a/psdr/gp.py
+++ b/psdr/gp.py
@@ -189,6 +189,13 @@ class GaussianProcess(BaseFunction):
 		# Covariance matrix
 		K = np.exp(-0.5*squareform(dij))
 
+		# If the length scales have overflowed there is no likelihood: reject this point
+		if not np.all(np.isfinite(K)) and not return_alpha_beta:
+			obj, grad = np.inf, np.zeros(len(ell))
+			if return_obj and return_grad:
+				return obj, grad
+			return obj if return_obj else grad
+
 		# Solve the linear system to compute the coefficients
 		#alpha = np.dot(ev,(1./(ew+tikh))*np.dot(ev.T,y)) 
 		A = np.vstack([np.hstack([K + self.nugget*np.eye(K.shape[0]), self.V]), 
-- 
2.43.0


From 2892575130ce63af68f9ce90c541a98a8730c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:25 +0000
Subject: [PATCH 128/150] fix: measure_nonlinearity returned the negative of
 the best linear fit

---
 psdr/nonlin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/nonlin.py b/psdr/nonlin.py
index 3bb026a..939d516 100644
--- a/psdr/nonlin.py
+++ b/psdr/nonlin.py
@@ -47,8 +47,8 @@ def measure_nonlinearity(X, fX, **kwargs):
 	a = cp.Variable(m)
 	L = cp.Variable(1)
 	constraints = [ 
-		fdiff + P @ a <= L * Pnorm,
-		fdiff + P @ a >= -L * Pnorm 
+		fdiff - P @ a <= L * Pnorm,
+		fdiff - P @ a >= -L * Pnorm 
 	]
 	prob = cp.Problem(cp.Minimize(L), constraints)
 	prob.solve(**kwargs)
-- 
2.43.0


From 6894be73f4e23f368760084f724d2e630823d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 129/150] fix: measure_nonlinearity with repeated samples
 divided zero by zero

---
 psdr/nonlin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/nonlin.py b/psdr/nonlin.py
index 939d516..2308e97 100644
--- a/psdr/nonlin.py
+++ b/psdr/nonlin.py
@@ -40,6 +40,10 @@ def measure_nonlinearity(X, fX, **kwargs):
 	Pnorm = np.sqrt(_vec_norm(P))
 	fdiff = (fX[i] - fX[j]).flatten()
 
+	# Repeated samples place no constraint on the Lipschitz constant
+	I = Pnorm > 0
+	P, Pnorm, fdiff = P[I], Pnorm[I], fdiff[I]
+
 	# Compute standard Lipschitz constant
 	L0 = np.max(np.abs(fdiff)/Pnorm)
 
-- 
2.43.0


From 3b415cb75736d321882e9e4a2f1c7967c20e40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 130/150] fix: measure_nonlinearity of constant data returned
 inf instead of zero

---
 psdr/nonlin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psdr/nonlin.py b/psdr/nonlin.py
index 2308e97..f9cdb8e 100644
--- a/psdr/nonlin.py
+++ b/psdr/nonlin.py
@@ -47,6 +47,10 @@ def measure_nonlinearity(X, fX, **kwargs):
 	# Compute standard Lipschitz constant
 	L0 = np.max(np.abs(fdiff)/Pnorm)
 
+	# Constant functions are linear 
+	if L0 == 0:
+		return 0., np.zeros(m)
+
 	# Compute Lipschitz constant when subtracting 	
 	a = cp.Variable(m)
 	L = cp.Variable(1)
-- 
2.43.0


From d5a37885d34100e9deb309b7e773815ee8f0f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 131/150] fix: single points of large domains were not
 recognized as such

---
 psdr/domains/euclidean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index a738ee2..8c3e27d 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -99,10 +99,12 @@ class EuclideanDomain(Domain):
 			else:
 				U = np.ones((1,1))
 
+			# The accuracy of the corners depends on the scale of the constraints
+			scale = np.max(np.abs(np.hstack([1., self.b_aug, self.b_eq])))
 			for u in U:
 				x1 = self.corner(u)
 				x2 = self.corner(-u)
-				if not np.all(np.isclose(x1, x2)):
+				if not np.all(np.isclose(x1, x2, atol = 1e-8*scale)):
 					return False
 
 			return True
-- 
2.43.0


From 675e3cfb79bbda72fc15d887c3b37b802a0f828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 132/150] fix: corner of domains given by constraints depended
 on the length of the direction

---
 psdr/domains/euclidean.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 8c3e27d..d2560dd 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -287,11 +287,17 @@ class EuclideanDomain(Domain):
 		x_norm = cp.Variable(len(self))
 		D = self._unnormalize_der() 	
 		
+		# The solver uses absolute tolerances, so rescale objectives that are far from order one
+		c = D.dot(p)
+		scale = np.max(np.abs(c))
+		if scale > 0 and not (1e-3 <= scale <= 1e3):
+			c = c/scale
+
 		# p.T @ x
 		if len(self) > 1:
-			obj = D.dot(p).reshape(1,-1) @ x_norm
+			obj = c.reshape(1,-1) @ x_norm
 		else:
-			obj = x_norm*float(D.dot(p))
+			obj = x_norm*float(c)
 
 		constraints = self._build_constraints_norm(x_norm)
 		problem = cp.Problem(cp.Maximize(obj), constraints)
-- 
2.43.0


From b83f1f0337d0812ea9905f28a402f9e188d527d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:01 +0000
Subject: [PATCH 133/150] fix: measure_nonlinearity depended on the units of
 the data

---
 psdr/nonlin.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/psdr/nonlin.py b/psdr/nonlin.py
index f9cdb8e..06d6a9c 100644
--- a/psdr/nonlin.py
+++ b/psdr/nonlin.py
@@ -51,15 +51,19 @@ def measure_nonlinearity(X, fX, **kwargs):
 	if L0 == 0:
 		return 0., np.zeros(m)
 
+	# The solver uses absolute tolerances, so normalize the slopes and the directions
+	P = P/Pnorm[:,None]
+	slope = fdiff/Pnorm/L0
+
 	# Compute Lipschitz constant when subtracting 	
 	a = cp.Variable(m)
 	L = cp.Variable(1)
 	constraints = [ 
-		fdiff - P @ a <= L * Pnorm,
-		fdiff - P @ a >= -L * Pnorm 
+		slope - P @ a <= L,
+		slope - P @ a >= -L 
 	]
 	prob = cp.Problem(cp.Minimize(L), constraints)
 	prob.solve(**kwargs)
 
-	return float(L.value/L0), a.value
+	return float(L.value), L0*a.value
 
-- 
2.43.0


From 7aafaf23b4adc2eb142bd826ee779e7c0f8eac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:31 +0000
Subject: [PATCH 134/150] fix: Lipschitz matrices of inputs with large or small
 ranges did not satisfy the data

---
 psdr/lipschitz.py         | 16 ++++++++++++----
 psdr/lipschitz_partial.py |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/psdr/lipschitz.py b/psdr/lipschitz.py
index 512b881..3473991 100644
--- a/psdr/lipschitz.py
+++ b/psdr/lipschitz.py
@@ -138,13 +138,17 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		else:
 			grads = np.zeros((0, len(self)))
 	
-		# Scale the output units for numerical stability	
+		# Scale the input and output units for numerical stability
+		self._xscale = 1.
+		if len(X) > 0 and np.max(np.ptp(X, axis = 0)) > 0:
+			self._xscale = np.max(np.ptp(X, axis = 0))
+
 		try:	
 			scale1 = np.max(fX) - np.min(fX)
 		except ValueError:
 			scale1 = 0.
 		try:
-			scale2 = np.max([np.linalg.norm(grad) for grad in grads])
+			scale2 = np.max([np.linalg.norm(self._xscale*grad) for grad in grads])
 		except ValueError:
 			scale2 = 0.
 		scale = max(scale1, scale2)
@@ -163,7 +167,7 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 
 
 	def _fit(self, X, fX, grads, epsilon, scale):
-		H = self._build_lipschitz_matrix(X, fX/scale, grads/scale, epsilon)
+		H = self._build_lipschitz_matrix(X/self._xscale, fX/scale, grads*(self._xscale/scale), epsilon)
 
 		# Compute the important directions
 		#self._U, _, _ = np.linalg.svd(self._H)
@@ -175,6 +179,8 @@ class LipschitzMatrix(SubspaceBasedDimensionReduction):
 		# Fix the signs for the subspace directions 
 		U = self._fix_subspace_signs(U, X, fX/scale, grads/scale)
 		self._U = U	
+		# Return to the original units
+		scale = scale/self._xscale
 		# Force to be SPD
 		self._H = scale**2 * U.dot(np.diag(np.maximum(ew,0)).dot(U.T))
 
@@ -620,7 +626,9 @@ class DiagonalLipschitzMatrix(CoordinateBasedDimensionReduction, LipschitzMatrix
 		
 
 	def _fit(self, X, fX, grads, epsilon, scale):
-		H = self._build_lipschitz_matrix(X, fX/scale, grads/scale, epsilon, structure = 'diag')
+		H = self._build_lipschitz_matrix(X/self._xscale, fX/scale, grads*(self._xscale/scale), epsilon, structure = 'diag')
+		# Return to the original units
+		scale = scale/self._xscale
 		# Ensure entries are numerically positive
 		H = np.diag(np.maximum(np.diag(H),0))
 		# Unlike the matrix case, we do not rotate coordinates
diff --git a/psdr/lipschitz_partial.py b/psdr/lipschitz_partial.py
index 921e071..ca1a646 100644
--- a/psdr/lipschitz_partial.py
+++ b/psdr/lipschitz_partial.py
@@ -64,6 +64,8 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 
 	def _fit(self, X, fX, grads, epsilon, scale):
 		m = grads.shape[1]
+		X = X/self._xscale
+		grads = grads*self._xscale
 
 		if self.rank == m:
 			U = np.eye(m)
@@ -97,6 +99,7 @@ class PartialLipschitzMatrix(LipschitzMatrix):
 		U = self._fix_subspace_signs(U, X, fX/scale, grads/scale)
 
 		# Fix scaling	
+		scale = scale/self._xscale
 		J *= scale**2
 		alpha *= scale**2
 
-- 
2.43.0


From 4186f4fe805f77baae163ba02fa8a5a8c880e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 135/150] fix: one, sup-norm and bounded polynomial fits
 depended on the units of the data

---
 psdr/poly.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/psdr/poly.py b/psdr/poly.py
index 1f12ad9..b03d22b 100644
--- a/psdr/poly.py
+++ b/psdr/poly.py
@@ -25,8 +25,16 @@ def linear_fit(A, b, norm = 2, bound = None):
 	if norm == 2 and bound == None:
 		return scipy.linalg.lstsq(A, b)[0]
 	else:
+		# The solver uses absolute tolerances, so we find the correction to the least squares fit
+		# in units where the mismatch is order one
+		x0 = scipy.linalg.lstsq(A, b)[0]
+		b = b - A @ x0
+		scale = np.max(np.abs(b))
+		if scale == 0:
+			return x0
+
 		x = cp.Variable(A.shape[1])
-		residual = x.__rmatmul__(A) - b
+		residual = x.__rmatmul__(A) - b/scale
 		if norm == 1:   	 obj = cp.norm1(residual)
 		elif norm == 2: 	 obj = cp.norm(residual)
 		elif norm == np.inf: obj = cp.norm_inf(residual)
@@ -41,7 +49,7 @@ def linear_fit(A, b, norm = 2, bound = None):
 		# Now actually solve the problem
 		problem = cp.Problem(cp.Minimize(obj), constraint)
 		problem.solve(feastol = 1e-10, reltol = 1e-8, abstol = 1e-8, solver = cp.ECOS)
-		return x.value
+		return x0 + scale*x.value
 
 
 class PolynomialFunction(BaseFunction):
-- 
2.43.0


From a70be62872b3abdb4b40af34cc50773504d8770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 136/150] fix: one, sup-norm and bounded ridge fits depended on
 the units of the data

---
 psdr/polyridge.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/psdr/polyridge.py b/psdr/polyridge.py
index 77f31b1..bba2942 100644
--- a/psdr/polyridge.py
+++ b/psdr/polyridge.py
@@ -106,6 +106,29 @@ def orth(U):
 	U = np.dot(U, np.diag(np.where(np.diag(R) < 0, -1., 1.)))
 	return U
 
+def _split_fit(A, b):
+	r""" Split data into the least squares fit and a scaled mismatch
+
+	The solvers use absolute tolerances, so the problems below find the correction 
+	to the least squares fit in units where the mismatch is order one
+
+	Returns
+	-------
+	x0: np.array
+		least squares fit
+	r: np.array
+		mismatch divided by scale
+	scale: float
+		scale of the mismatch
+	"""
+	b = b.flatten()
+	x0 = two_norm_fit(A, b)
+	r = b - A @ x0
+	scale = np.max(np.abs(r))
+	if scale == 0:
+		scale = 1.
+	return x0, r/scale, scale
+
 def inf_norm_fit(A, b):
 	r""" Solve inf-norm linear optimization problem
 
@@ -116,11 +139,12 @@ def inf_norm_fit(A, b):
 	"""
 	with warnings.catch_warnings():
 		warnings.simplefilter('ignore', PendingDeprecationWarning)
+		x0, r, scale = _split_fit(A, b)
 		x = cp.Variable(A.shape[1])
-		obj = cp.norm_inf(A @ x - b.flatten())
+		obj = cp.norm_inf(A @ x - r)
 		problem = cp.Problem(cp.Minimize(obj))
 		problem.solve(solver = 'ECOS')
-		return x.value
+		return x0 + scale*x.value
 
 def one_norm_fit(A, b):
 	r""" solve 1-norm linear optimization problem
@@ -132,11 +156,12 @@ def one_norm_fit(A, b):
 	"""
 	with warnings.catch_warnings():
 		warnings.simplefilter('ignore', PendingDeprecationWarning)
+		x0, r, scale = _split_fit(A, b)
 		x = cp.Variable(A.shape[1])
-		obj = cp.norm1(x.__rmatmul__(A) - b)
+		obj = cp.norm1(x.__rmatmul__(A) - r)
 		problem = cp.Problem(cp.Minimize(obj))
 		problem.solve(solver = 'ECOS')
-		return x.value
+		return x0 + scale*x.value
 
 def two_norm_fit(A,b):
 	r""" solve 2-norm linear optimization problem
@@ -158,8 +183,9 @@ def bound_fit(A, b, norm = 2):
 	"""
 	with warnings.catch_warnings():
 		warnings.simplefilter('ignore', PendingDeprecationWarning)
+		x0, r, scale = _split_fit(A, b)
 		x = cp.Variable(A.shape[1])
-		residual = x.__rmatmul__(A) - b
+		residual = x.__rmatmul__(A) - r
 		if norm == 1:
 			obj = cp.norm1(residual)
 		elif norm == 2:
@@ -173,7 +199,7 @@ def bound_fit(A, b, norm = 2):
 		#problem.solve(eps = 1e-10, solver = cp.SCS)
 		#problem.solve(feastol = 1e-10, solver = cp.CVXOPT)
 		# TODO: The solution doesn't obey the constraints for 1 and inf norm, but does for 2-norm.
-		return x.value
+		return x0 + scale*x.value
 
 
 class PolynomialRidgeApproximation(PolynomialRidgeFunction):
-- 
2.43.0


From cd21bc6e062ce34ff12c23ebdcd2668f15dc64e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 137/150] fix: miniball depended on the units of the points

---
 psdr/geometry/miniball.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/psdr/geometry/miniball.py b/psdr/geometry/miniball.py
index fba92d9..59b9489 100644
--- a/psdr/geometry/miniball.py
+++ b/psdr/geometry/miniball.py
@@ -26,10 +26,22 @@ def miniball(X, L = None):
 	if L is None:
 		L = np.eye(m)
 
+	# The solver uses absolute tolerances, so shift and scale the points to be order one
+	x0 = np.mean(X, axis = 0)
+	scale = np.max(np.abs(X - x0))
+	if scale == 0:
+		scale = 1.
+	Y = (X - x0)/scale
+	L = np.array(L)
+	L_scale = np.max(np.abs(L))
+	if L_scale == 0:
+		L_scale = 1.
+	L = L/L_scale
+
 	x = cp.Variable(m)
 	ones = np.ones((1, M))
-	obj = cp.mixed_norm( (L @ ( cp.reshape(x,(m,1)) @ ones - X.T)).T, 2, np.inf)
+	obj = cp.mixed_norm( (L @ ( cp.reshape(x,(m,1)) @ ones - Y.T)).T, 2, np.inf)
 	prob = cp.Problem(cp.Minimize(obj))
 	prob.solve()
 
-	return x.value, obj.value
+	return x0 + scale*x.value, scale*L_scale*obj.value
-- 
2.43.0


From faec308844c154d3d59c54feb6c881532fcedf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 138/150] fix: data compatible with a Lipschitz matrix depended
 on the units of the data

---
 psdr/lipschitz_approx.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/psdr/lipschitz_approx.py b/psdr/lipschitz_approx.py
index f21f907..94e562a 100644
--- a/psdr/lipschitz_approx.py
+++ b/psdr/lipschitz_approx.py
@@ -28,20 +28,25 @@ def lipschitz_approximation_compatible_data(L, X, fX, norm = 1, **kwargs):
 	# Set default arguments
 	kwargs = merge(DEFAULT_CVXPY_KWARGS, kwargs)
 
-	y = cp.Variable(len(fX))
-	y.value = fX
-	obj = cp.norm(y - fX, norm)
+	# The solver uses absolute tolerances, so we find the correction to the data
+	# in units where the range of the data is order one
+	scale = np.max(fX) - np.min(fX)
+	if scale == 0:
+		scale = 1.
+	
+	dy = cp.Variable(len(fX))
+	obj = cp.norm(dy, norm)
 
 	I, J = np.tril_indices(len(X), k=1)
 
 	# np.linalg.norm(L @ (X[i] - X[j]), 2)
 	rhs = np.sqrt(np.sum( (L @ (X[I] - X[J]).T)**2, axis = 0))
-	constraints = [cp.abs(y[I] - y[J]) <= rhs]
+	constraints = [cp.abs(dy[I] - dy[J] + (fX[I] - fX[J])/scale) <= rhs/scale]
 
 	prob = cp.Problem(cp.Minimize(obj), constraints)
 	prob.solve(**kwargs)
 
-	return y.value	
+	return fX + scale*dy.value
 
 
 class LipschitzApproximation(LipschitzMatrix, RidgeFunction):
-- 
2.43.0


From e1a075477f2c31ff4d0c3f149bda3afe1cb11c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:19 +0000
Subject: [PATCH 139/150] fix: data compatible with a steep Lipschitz matrix
 could not be computed

---
 psdr/lipschitz_approx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psdr/lipschitz_approx.py b/psdr/lipschitz_approx.py
index 94e562a..38c4212 100644
--- a/psdr/lipschitz_approx.py
+++ b/psdr/lipschitz_approx.py
@@ -41,6 +41,8 @@ def lipschitz_approximation_compatible_data(L, X, fX, norm = 1, **kwargs):
 
 	# np.linalg.norm(L @ (X[i] - X[j]), 2)
 	rhs = np.sqrt(np.sum( (L @ (X[I] - X[J]).T)**2, axis = 0))
+	# compatible data closest to fX never spreads out further than fX, so larger bounds are inactive 
+	rhs = np.minimum(rhs, 2*scale)
 	constraints = [cp.abs(dy[I] - dy[J] + (fX[I] - fX[J])/scale) <= rhs/scale]
 
 	prob = cp.Problem(cp.Minimize(obj), constraints)
-- 
2.43.0


From 60a2849d4af9fe6cbdf373297d336df7495c8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:32 +0000
Subject: [PATCH 140/150] fix: narrow domains far from the origin were
 considered points

---
 psdr/domains/euclidean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index d2560dd..9786fc0 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -104,7 +104,7 @@ class EuclideanDomain(Domain):
 			for u in U:
 				x1 = self.corner(u)
 				x2 = self.corner(-u)
-				if not np.all(np.isclose(x1, x2, atol = 1e-8*scale)):
+				if not np.all(np.isclose(x1, x2, rtol = 0, atol = 1e-7*scale)):
 					return False
 
 			return True
-- 
2.43.0


From e4392a687bc7031fad439ef24fc76c0e22e9f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 141/150] fix: bounds that differ only by rounding errors were
 normalized

---
 psdr/domains/euclidean.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 9786fc0..c86df8d 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1174,17 +1174,25 @@ class EuclideanDomain(Domain):
 	def isnormalized(self):
 		return np.all( (~np.isfinite(self.norm_lb)) | (self.norm_lb == -1.) ) and np.all( (~np.isfinite(self.norm_ub)) | (self.norm_ub == 1.) ) 
 
+	@property
+	def _has_width(self):
+		r""" Coordinates with different, finite normalization bounds (up to rounding errors) """
+		lb, ub = self.norm_lb, self.norm_ub
+		I = np.isfinite(lb) & np.isfinite(ub)
+		I[I] = np.abs(ub[I] - lb[I]) > 1e-13*np.maximum(np.abs(lb[I]), np.abs(ub[I]))
+		return I
+
 	def _normalize_der(self):
 		"""Derivative of normalization function"""
 
 		slope = np.ones(len(self))
-		I = (self.norm_ub != self.norm_lb) & np.isfinite(self.norm_lb) & np.isfinite(self.norm_ub)
+		I = self._has_width
 		slope[I] = 2.0/(self.norm_ub[I] - self.norm_lb[I])
 		return np.diag(slope)
 
 	def _unnormalize_der(self):
 		slope = np.ones(len(self))
-		I = (self.norm_ub != self.norm_lb) & np.isfinite(self.norm_lb) & np.isfinite(self.norm_ub)
+		I = self._has_width
 		slope[I] = (self.norm_ub[I] - self.norm_lb[I])/2.0
 		return np.diag(slope)
 	
-- 
2.43.0


From 30fa6ddab614453411c530c7bd5f03badb919da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 142/150] fix: Chebyshev center depended on the units of the
 domain

---
 psdr/domains/linineq.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index ef3c5b0..a4138e5 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -111,12 +111,26 @@ class LinIneqDomain(LinQuadDomain):
 			if self.is_empty: raise EmptyDomainException
 			raise UnboundedDomainException
 
+		# The solver uses absolute tolerances, so shift and scale the domain to be order one
+		# (by the same factor in every direction as this preserves circles)
+		lb, ub = self.norm_lb, self.norm_ub
+		I = np.isfinite(lb) & np.isfinite(ub)
+		x0 = np.where(I, 0.5*(np.where(I, lb, 0.) + np.where(I, ub, 0.)), np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub, 0.)))
+		scale = np.max(ub[I] - lb[I], initial = 0)
+		if scale <= 1e-10*np.max(np.abs(x0)):
+			scale = max(1., np.max(np.abs(x0)))
+
 		r = cp.Variable(1)
 		x = cp.Variable(len(self))
 		
-		constraints = [A @ x + normA * r <= b]
+		# Rows of zeros do not limit the radius
+		I = (normA > 0)
+		normA[~I] = 1.
+		constraints = [(A/normA.reshape(-1,1)) @ x + I.astype(float) * r <= (b - A @ x0)/(normA*scale)]
 		if len(self.A_eq) > 0:
-			constraints += [self.A_eq @ x == self.b_eq]	
+			norm_eq = np.linalg.norm(self.A_eq, axis = 1)
+			norm_eq[norm_eq == 0] = 1.
+			constraints += [(self.A_eq/norm_eq.reshape(-1,1)) @ x == (self.b_eq - self.A_eq @ x0)/(norm_eq*scale)]	
 
 		problem = cp.Problem(cp.Maximize(r), constraints)
 		problem.solve(**self.kwargs)
@@ -124,11 +138,11 @@ class LinIneqDomain(LinQuadDomain):
 			raise EmptyDomainException
 
 		# The problem above is feasible with a negative radius even if the domain is empty 
-		radius = float(np.asarray(r.value).item())
+		radius = scale*float(np.asarray(r.value).item())
 		if radius < 0:
 			if self.is_empty: raise EmptyDomainException
 			radius = 0.
-		center = np.array(x.value).reshape(len(self))
+		center = x0 + scale*np.array(x.value).reshape(len(self))
 		
 		#AA = np.hstack(( A, normA.reshape(-1,1) ))
 		#c = np.zeros((A.shape[1]+1,))
-- 
2.43.0


From 26f2d3d168e7cc43c1cba387caf68e480e0347bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:39 +0000
Subject: [PATCH 143/150] fix: optimization over domains depended on their
 units and distance from the origin

---
 psdr/domains/euclidean.py | 45 ++++++++++++++++++++
 psdr/domains/linquad.py   | 87 ++++++++++++++++++++++++++++++++++++---
 2 files changed, 126 insertions(+), 6 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index c86df8d..d03fa8d 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -211,6 +211,16 @@ class EuclideanDomain(Domain):
 			self._empty = False
 			return np.copy(x0)
 		
+		# There is only one candidate
+		if np.array_equal(self.norm_lb, self.norm_ub) and self.isinside(self.norm_lb):
+			self._empty = False
+			return np.copy(self.norm_lb)
+
+		# If the normalization of this domain is not known, use units where the constraints are order one 
+		xc, d, dom = self._rescaled(x0)
+		if dom is not None:
+			return xc + d*dom._closest_point((x0 - xc)/d, L = L*d/np.max(d), **kwargs)
+
 		# Setup the problem in CVXPY
 		x_norm = cp.Variable(len(self))
 		constraints = self._build_constraints_norm(x_norm)
@@ -283,6 +293,13 @@ class EuclideanDomain(Domain):
 		except AttributeError:
 			pass
 	
+		# If the normalization of this domain is not (yet) known, use units where the constraints are order one 
+		x0, d, dom = self._rescaled()
+		if dom is not None:
+			x = x0 + d*dom._corner(d*p/np.max(d), **kwargs)
+			self._empty = False
+			return x
+
 		# Setup the problem in CVXPY	
 		x_norm = cp.Variable(len(self))
 		D = self._unnormalize_der() 	
@@ -332,6 +349,24 @@ class EuclideanDomain(Domain):
 
 		return x
 
+	def _rescaled(self, x = None):
+		r""" Find coordinates x = x0 + d*z where the constraints are order one and the domain in these coordinates
+
+		Convex solvers use absolute tolerances, so problems are normally posed on the normalized domain. 
+		However, this is not possible if the domain is unbounded or while bounds for normalization are being found.
+
+		Parameters
+		----------
+		x: np.ndarray (m,), optional
+			Point of interest, used to find a scale if there is none in the constraints
+
+		Returns
+		-------
+		x0, d: np.ndarray (m,)
+		dom: domain in the new coordinates; None if there is no need to change coordinates
+		"""
+		return None, None, None
+
 	def _check_feasible(self):
 		r""" Empty domains can be described by constraints that allow moving forever; this raises an error for these
 		"""
@@ -391,6 +426,16 @@ class EuclideanDomain(Domain):
 		except AttributeError:
 			pass
 		
+		# There is only one candidate
+		if np.array_equal(self.norm_lb, self.norm_ub) and self.isinside(self.norm_lb):
+			self._empty = False
+			return np.copy(self.norm_lb)
+
+		# If the normalization of this domain is not known, use units where the constraints are order one 
+		x0, d, dom = self._rescaled(np.linalg.lstsq(A, b, rcond = None)[0])
+		if dom is not None:
+			return x0 + d*dom._constrained_least_squares(A*d, b - A @ x0, **kwargs)
+
 		# Setup the problem in CVXPY	
 		x_norm = cp.Variable(len(self))
 		D = self._unnormalize_der() 
diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index 3b9131d..baf9256 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -18,6 +18,14 @@ from .tensor import TensorProductDomain
 
 from ..misc import merge
 
+def _unit_rows(A, b, floor = 0.):
+	r""" Scale (in)equality constraints such that each row of A has unit norm (or its norm is below the floor)
+	"""
+	scale = np.maximum(np.linalg.norm(A, axis = 1), floor)
+	scale[scale == 0] = 1.
+	return A/scale.reshape(-1,1), b/scale
+
+
 class LinQuadDomain(EuclideanDomain):
 	r"""A domain specified by a combination of linear (in)equality constraints and convex quadratic constraints
 
@@ -261,6 +269,70 @@ class LinQuadDomain(EuclideanDomain):
 	# Convex Solver Functions 
 	################################################################################		
 
+	def _rescaled(self, x = None):
+		if np.all(np.isfinite(self.norm_lb)) and np.all(np.isfinite(self.norm_ub)):
+			return None, None, None
+		
+		try:
+			if x is None or self._rescaled_cache[-1] is not None:
+				return self._rescaled_cache
+		except AttributeError:
+			pass
+
+		# Find a point close to all constraints
+		I = np.eye(len(self))
+		finite_lb, finite_ub = np.isfinite(self.lb), np.isfinite(self.ub)
+		A_lin, b_lin = _unit_rows(
+			np.vstack([self.A, self.A_eq, I[finite_lb], I[finite_ub]]),
+			np.hstack([self.b, self.b_eq, self.lb[finite_lb], self.ub[finite_ub]])
+		)
+		Ls = [_unit_rows(L, np.zeros(len(L)))[0] for L in self.Ls]
+		A = np.vstack([A_lin] + Ls)
+		b = np.hstack([b_lin] + [L @ y for L, y in zip(Ls, self.ys)])
+		x0 = np.linalg.lstsq(A, b, rcond = None)[0]
+
+		# Distance from this point to the constraints
+		dist = np.abs(b - A @ x0)
+		for L, rho, i in zip(self.Ls, self.rhos, len(A_lin) + np.cumsum([0] + [len(L) for L in self.Ls])):
+			n = np.linalg.norm(L, axis = 1)
+			n[n == 0] = np.inf
+			dist[i:i+len(L)] += rho/n
+
+		# Typical distance to the constraints along each coordinate
+		d = np.ones(len(self))
+		I = dist > max(1e-9*np.max(dist, initial = 0), 1e-12*np.max(np.abs(b), initial = 0))
+		if x is not None and not np.any(I):
+			# Without a length scale from the constraints, use the distance to the point of interest
+			x0 = x - np.linalg.lstsq(A, A @ x - b, rcond = None)[0]
+			dist_x = np.max(np.abs(x - x0))
+			if dist_x > 0:
+				d *= dist_x
+		if np.any(I):
+			d *= np.exp(np.mean(np.log(dist[I])))
+		for i in range(len(self)):
+			Ii = I & (np.abs(A[:,i]) > 1e-10)
+			if np.any(Ii):
+				d[i] = np.exp(np.mean(np.log(dist[Ii]/np.abs(A[Ii,i]))))
+
+		if np.all( (1e-2 <= d) & (d <= 1e2) & (np.abs(x0) <= 1e2)):
+			rescaled = (None, None, None)
+		else:
+			# Domain in the new coordinates
+			A, b = _unit_rows(self.A*d, self.b - self.A @ x0)
+			A_eq, b_eq = _unit_rows(self.A_eq*d, self.b_eq - self.A_eq @ x0)
+			dom = LinQuadDomain(A = A, b = b, A_eq = A_eq, b_eq = b_eq,
+				lb = (self.lb - x0)/d, ub = (self.ub - x0)/d, 
+				Ls = [L*d/rho for L, rho in zip(self.Ls, self.rhos)],
+				ys = [(y - x0)/d for y in self.ys],
+				rhos = [1. for rho in self.rhos], **self.kwargs)
+			# do not repeat this process
+			dom._rescaled_cache = (None, None, None)
+			rescaled = (x0, d, dom)
+
+		if x is None or np.any(I):
+			self._rescaled_cache = rescaled
+		return rescaled
+
 	def _build_constraints_norm(self, x_norm):
 		r""" Build the constraints corresponding to the domain given a vector x
 		"""
@@ -275,16 +347,19 @@ class LinQuadDomain(EuclideanDomain):
 		if np.sum(I) > 0:
 			constraints.append( x_norm[I] <= self.ub_norm[I])
 	
+		# The solver uses absolute tolerances, so scale each constraint to be order one
+		# (the floor prevents amplifying rounding errors if the domain is very thin)
+		center = np.abs(self._center())
 		if self.A.shape[0] > 0:	
-			constraints.append( x_norm.__rmatmul__(self.A_norm) <= self.b_norm)
+			A, b = _unit_rows(self.A_norm, self.b_norm, 1e-8*np.abs(self.A) @ center)
+			constraints.append( x_norm.__rmatmul__(A) <= b)
 		if self.A_eq.shape[0] > 0:
-			constraints.append( x_norm.__rmatmul__(self.A_eq_norm) == self.b_eq_norm)
+			A_eq, b_eq = _unit_rows(self.A_eq_norm, self.b_eq_norm, 1e-8*np.abs(self.A_eq) @ center)
+			constraints.append( x_norm.__rmatmul__(A_eq) == b_eq)
 
 		for L, y, rho in zip(self.Ls_norm, self.ys_norm, self.rhos_norm):
-			if len(L) > 1:
-				constraints.append( cp.norm( L @ x_norm - L @ y) <= rho )
-			elif len(L) == 1:
-				constraints.append( cp.norm(L @ x_norm - L @ y) <= rho)
+			L = L/rho
+			constraints.append( cp.norm( L @ x_norm - L @ y) <= 1.)
 
 		return constraints
 	
-- 
2.43.0


From f7222ffea2bfb1d11e7fa8644865d7946acc5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:07 +0000
Subject: [PATCH 144/150] fix: corner failed if the direction was long or short
 relative to the domain

---
 psdr/domains/euclidean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index d03fa8d..22eed4e 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -304,10 +304,10 @@ class EuclideanDomain(Domain):
 		x_norm = cp.Variable(len(self))
 		D = self._unnormalize_der() 	
 		
-		# The solver uses absolute tolerances, so rescale objectives that are far from order one
+		# The solver uses absolute tolerances, so scale the objective to be order one
 		c = D.dot(p)
 		scale = np.max(np.abs(c))
-		if scale > 0 and not (1e-3 <= scale <= 1e3):
+		if scale > 0:
 			c = c/scale
 
 		# p.T @ x
-- 
2.43.0


From 7cff716207b5d3517655eb59e6356cda15fa9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:10 +0000
Subject: [PATCH 145/150] fix: extent of a hull failed if the direction was
 short relative to the hull

---
 psdr/domains/convexhull.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index 8f23ee3..a2dc4db 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -91,12 +91,15 @@ class _Extent:
 			return alpha
 		kwargs['warm_start'] = False
 		self.x_norm.value = self.domain.normalize(x)
-		self.p_norm.value = self.domain.normalize(x+p)-self.domain.normalize(x)
+		# The solver uses absolute tolerances, so take the direction to be order one
+		p_norm = self.domain._normalize_der() @ p
+		scale = np.max(np.abs(p_norm))
+		self.p_norm.value = p_norm/scale
 
 		#self.prob.solve(verbose = True)
 		self.prob.solve(**merge(self.domain.kwargs, kwargs))
 		try:
-			return max(0., min(alpha, float(self.beta.value)))
+			return max(0., min(alpha, float(self.beta.value)/scale))
 		except Exception as e:
 			print(e)
 			return 0
-- 
2.43.0


From 5ce0aa4c7771f342f7f275982b1fb5cca9270168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:10 +0000
Subject: [PATCH 146/150] fix: small domains with a coordinate without width
 were not solved

---
 psdr/domains/convexhull.py | 3 +++
 psdr/domains/linquad.py    | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/convexhull.py b/psdr/domains/convexhull.py
index a2dc4db..a731648 100644
--- a/psdr/domains/convexhull.py
+++ b/psdr/domains/convexhull.py
@@ -319,6 +319,9 @@ class ConvexHullDomain(LinQuadDomain):
 
 
 
+	def _rescaled(self, x = None):
+		return None, None, None
+
 	def _is_unbounded_along(self, p):
 		return False
 
diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index baf9256..65e8974 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -271,7 +271,10 @@ class LinQuadDomain(EuclideanDomain):
 
 	def _rescaled(self, x = None):
 		if np.all(np.isfinite(self.norm_lb)) and np.all(np.isfinite(self.norm_ub)):
-			return None, None, None
+			# Coordinates without width are not normalized
+			fixed = np.abs(self.norm_lb[~self._has_width])
+			if np.all( (fixed == 0) | ((1e-2 <= fixed) & (fixed <= 1e2)) ):
+				return None, None, None
 		
 		try:
 			if x is None or self._rescaled_cache[-1] is not None:
-- 
2.43.0


From 8d75b5443db01ea7f8d79ef17c6c9eebfb3c33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:11 +0000
Subject: [PATCH 147/150] fix: Chebyshev center of a domain that is almost a
 point could not be found

---
 psdr/domains/linineq.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/psdr/domains/linineq.py b/psdr/domains/linineq.py
index a4138e5..1b8f61b 100644
--- a/psdr/domains/linineq.py
+++ b/psdr/domains/linineq.py
@@ -9,7 +9,7 @@ from .domain import TOL
 from .linquad import LinQuadDomain
 
 from ..misc import merge
-from ..exceptions import EmptyDomainException, UnboundedDomainException
+from ..exceptions import EmptyDomainException, UnboundedDomainException, SolverError
 
 class LinIneqDomain(LinQuadDomain):
 	r"""A domain specified by a combination of linear equality and inequality constraints.
@@ -117,8 +117,6 @@ class LinIneqDomain(LinQuadDomain):
 		I = np.isfinite(lb) & np.isfinite(ub)
 		x0 = np.where(I, 0.5*(np.where(I, lb, 0.) + np.where(I, ub, 0.)), np.where(np.isfinite(lb), lb, np.where(np.isfinite(ub), ub, 0.)))
 		scale = np.max(ub[I] - lb[I], initial = 0)
-		if scale <= 1e-10*np.max(np.abs(x0)):
-			scale = max(1., np.max(np.abs(x0)))
 
 		r = cp.Variable(1)
 		x = cp.Variable(len(self))
@@ -126,10 +124,17 @@ class LinIneqDomain(LinQuadDomain):
 		# Rows of zeros do not limit the radius
 		I = (normA > 0)
 		normA[~I] = 1.
+		norm_eq = np.linalg.norm(self.A_eq, axis = 1)
+		norm_eq[norm_eq == 0] = 1.
+	
+		# The constraints of a thin domain are only accurate relative to its distance to the origin
+		size = np.max(np.abs(np.hstack([x0, b/normA, self.b_eq/norm_eq])))
+		scale = max(scale, 1e-6*size)
+		if scale == 0:
+			scale = 1.
+
 		constraints = [(A/normA.reshape(-1,1)) @ x + I.astype(float) * r <= (b - A @ x0)/(normA*scale)]
 		if len(self.A_eq) > 0:
-			norm_eq = np.linalg.norm(self.A_eq, axis = 1)
-			norm_eq[norm_eq == 0] = 1.
 			constraints += [(self.A_eq/norm_eq.reshape(-1,1)) @ x == (self.b_eq - self.A_eq @ x0)/(norm_eq*scale)]	
 
 		problem = cp.Problem(cp.Maximize(r), constraints)
@@ -137,6 +142,9 @@ class LinIneqDomain(LinQuadDomain):
 		if problem.status in ['infeasible', 'infeasible_inaccurate']:
 			raise EmptyDomainException
 
+		elif r.value is None:
+			raise SolverError("CVXPY exited with status '%s'" % problem.status)
+
 		# The problem above is feasible with a negative radius even if the domain is empty 
 		radius = scale*float(np.asarray(r.value).item())
 		if radius < 0:
-- 
2.43.0


From 643f2295bd097e56ea0b703bad34e40b7b18d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:11 +0000
Subject: [PATCH 148/150] fix: domains that are almost a point could not be
 sampled

---
 psdr/domains/euclidean.py | 6 ++++--
 psdr/domains/linquad.py   | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 22eed4e..635d2a8 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -1012,7 +1012,7 @@ class EuclideanDomain(Domain):
 	
 				# TODO: chebyshev_center breaks when running test_lipschitz_sample yielding a SolverError
 				# It really shouldn't error
-			except (AttributeError, NotImplementedError, UnboundedDomainException):
+			except (AttributeError, NotImplementedError, UnboundedDomainException, SolverError, cp.SolverError):
 				x0 = self._corner_center()
 			self._hit_and_run_state = x0
 		
@@ -1224,7 +1224,9 @@ class EuclideanDomain(Domain):
 		r""" Coordinates with different, finite normalization bounds (up to rounding errors) """
 		lb, ub = self.norm_lb, self.norm_ub
 		I = np.isfinite(lb) & np.isfinite(ub)
-		I[I] = np.abs(ub[I] - lb[I]) > 1e-13*np.maximum(np.abs(lb[I]), np.abs(ub[I]))
+		# Bounds that have been found by a solver are only accurate relative to the scale of the constraints
+		tol = 1e-9*getattr(self, '_constraint_scale', 0.)*~(np.isfinite(self.lb) & np.isfinite(self.ub))
+		I[I] = np.abs(ub[I] - lb[I]) > np.maximum(tol, 1e-13*np.maximum(np.abs(lb), np.abs(ub)))[I]
 		return I
 
 	def _normalize_der(self):
diff --git a/psdr/domains/linquad.py b/psdr/domains/linquad.py
index 65e8974..d43e2c7 100644
--- a/psdr/domains/linquad.py
+++ b/psdr/domains/linquad.py
@@ -317,6 +317,9 @@ class LinQuadDomain(EuclideanDomain):
 			if np.any(Ii):
 				d[i] = np.exp(np.mean(np.log(dist[Ii]/np.abs(A[Ii,i]))))
 
+		if np.any(I):
+			self._constraint_scale = d
+
 		if np.all( (1e-2 <= d) & (d <= 1e2) & (np.abs(x0) <= 1e2)):
 			rescaled = (None, None, None)
 		else:
-- 
2.43.0


From 4e4e830337a672d7709c5079445796490792adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 149/150] fix: low rank factor depended on the units of the
 matrix

---
 psdr/sample/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdr/sample/util.py b/psdr/sample/util.py
index 559d241..db25daa 100644
--- a/psdr/sample/util.py
+++ b/psdr/sample/util.py
@@ -19,7 +19,7 @@ def low_rank_L(L):
 	L = np.atleast_2d(L)
 	_, s, VT = scipy.linalg.svd(L)
 	
-	I = np.argwhere(~np.isclose(s,0)).flatten()
+	I = np.argwhere(~np.isclose(s, 0, atol = 1e-8*np.max(s, initial = 0))).flatten()
 	if np.all(I):
 		return L
 	else:
-- 
2.43.0


From a02fe11fb22007ad6cba02e640f059fc7344eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:01 +0000
Subject: [PATCH 150/150] fix: volume of an empty domain was negative or could
 not be computed

---
 psdr/domains/euclidean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psdr/domains/euclidean.py b/psdr/domains/euclidean.py
index 635d2a8..d3e0a98 100644
--- a/psdr/domains/euclidean.py
+++ b/psdr/domains/euclidean.py
@@ -929,7 +929,9 @@ class EuclideanDomain(Domain):
 
 	@lru_cache()
 	def volume(self, N = 1e4):
-		if self.is_box_domain:
+		if self.is_empty:
+			vol = 0.
+		elif self.is_box_domain:
 			# if the domain is a box domain, this is simple
 			vol = np.prod(self.ub - self.lb)
 		else:
-- 
2.43.0

