From c02d963b40764f3d6810042355c67f29bb9f0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 01/45] fix: return a copy of the running mean, so later
 updates do not change it

---
 src/primate/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 2216d0c..237bbed 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -13,12 +13,12 @@ class Mean:
 	def __call__(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def mean(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def update(self, X: Union[float, np.ndarray]) -> None:
 		"""Update sample mean estimates based on new observations.
-- 
2.43.0


From 43343b8475c1e30ad8c7e0675ff9acfd4e712eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 02/45] fix: record copies of the samples, not views of the
 caller's array

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1366d47..246a7de 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -138,7 +138,7 @@ class MeanEstimator(Estimator):
 			self.delta = self._mean.mu - old_mu
 		self.n_samples += x.shape[0]
 		if self.values is not None:
-			self.values.extend(x)
+			self.values.extend(x.copy())
 
 	@property
 	def estimate(self) -> Union[float, np.ndarray]:
-- 
2.43.0


From 7b7a65212766fdeb7a3de63f97fc4285a49b5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 03/45] fix: use n-1 degrees of freedom for the t-score in
 ConfidenceCriterion

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 246a7de..2770a84 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -283,7 +283,7 @@ class ConfidenceCriterion(ConvergenceCriterion):
 		std_dev = est._cov.covariance() ** (1 / 2)
 		std_error = std_dev / np.sqrt(est.n_samples)
 		rel_error = abs(std_error / est.estimate)
-		score = self.t_scores[est.n_samples] if est.n_samples < 30 else self.z
+		score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z  # t with n-1 degrees of freedom
 		margin_of_error = score * std_error
 		return (margin_of_error, rel_error)
 
-- 
2.43.0


From 159a5cb0f2f1fe25227dd3112c3633513c8ad81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 04/45] fix: KneeCriterion follows the running sample mean, not
 the samples divided by their index

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 2770a84..732a85b 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -310,7 +310,7 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Extract the differences between the sample means
 		mv = np.array(est.values).ravel()
-		cum_sample_mean = mv / np.arange(1, len(mv) + 1)
+		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)
 		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))
 
 		## Normalize to [0, 1], calculate difference curve
-- 
2.43.0


From 85cab121cee3da1760f2615f539cde498ac5760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 05/45] fix: ControlVariableEstimator accepts a first update
 with a single sample

---
 src/primate/estimators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 732a85b..d3db65c 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -167,8 +167,8 @@ class ControlVariableEstimator(MeanEstimator):
 		samples: np.ndarray = np.atleast_1d(samples)
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
-		C = self.cov(ddof=1)
-		if self._estimate_cor:
+		if self._estimate_cor and self.n_samples > 1:  # the sample covariance needs at least two samples
+			C = self.cov(ddof=1)
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
@@ -190,6 +190,8 @@ class ControlVariableEstimator(MeanEstimator):
 	def estimate(self):
 		if self.n_samples == 0:
 			return np.nan
+		if self.alpha is None:
+			return self.cov.mu[0].item()
 		cv_est = self.cov.mu[0] - np.dot(self.alpha, self.cov.mu[1:] - self.ecv)
 		# alpha = self.alpha if self.alpha is not None else (C[0, 1] / C[1, 1])
 		# cv_est = self.cov.mean[0] - alpha * (self.cov.mean[1] - self.ev)
-- 
2.43.0


From bd4996a8a74ecc9cd60c7a28931e8fcd39e72da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 06/45] fix: ControlVariableEstimator tracks the change of its
 estimate, as every estimator does

---
 src/primate/estimators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index d3db65c..56a4e59 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -165,12 +165,14 @@ class ControlVariableEstimator(MeanEstimator):
 	@typing.no_type_check
 	def update(self, samples: ArrayLike):
 		samples: np.ndarray = np.atleast_1d(samples)
+		old_est = self.estimate if self.n_samples > 0 else 0.0
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
 		if self._estimate_cor and self.n_samples > 1:  # the sample covariance needs at least two samples
 			C = self.cov(ddof=1)
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+		self.delta = np.atleast_1d(self.estimate - old_est)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From b72679101134237c7650229f7dacb65c900ecbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 07/45] fix: fill single-precision arrays with Rademacher
 vectors too

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 7ee99fa..0a80f1a 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -20,7 +20,7 @@ _ISO_DISTRIBUTIONS = {
 
 ## NOTE: It's 2-3x faster to use the four ufuncs below than sign
 def _rademacher_inplace(rng: np.random.Generator, out: np.ndarray) -> None:
-	rng.random(out=out)
+	rng.random(out=out, dtype=out.dtype)
 	# np.subtract(out, 0.5, out=out)
 	# np.sign(out, out=out)
 	np.multiply(out, 2, out=out)  # [0, 2]
-- 
2.43.0


From 35439cc3db85ceb93f2bab5d08fcdee2727274d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 08/45] fix: symmetric(pd=True) clips the prescribed
 eigenvalues, as documented

---
 src/primate/random.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/random.py b/src/primate/random.py
index 0a80f1a..6c39494 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -175,6 +175,7 @@ def symmetric(
 	if ew is None:
 		ew = rng.uniform(size=n, low=0.0 if pd else -1.0, high=1.0)
 	ew = np.atleast_1d(ew)
+	ew = np.maximum(ew, 0.0) if pd else ew  # clip, as documented
 	A = Q @ np.diag(ew) @ Q.T
 	A = (A + A.T) / 2
 	return A
-- 
2.43.0


From 272a85a2245d0406554b3bfe277bfa2d490f16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 09/45] fix: accept 'softsign' as the name of a builtin
 function

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index bf5c0ff..cab78aa 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union
 import numpy as np
 
 ## Natively support matrix functions
-_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank"]
+_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]
 
 
 def softsign(x: Optional[np.ndarray] = None, q: int = 1) -> Union[Callable, np.ndarray]:
-- 
2.43.0


From ffb50776268675ffd38c977f0e69b3c9bcb27db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 10/45] fix: Toeplitz operators with a first row that differs
 from the first column

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a9fb30b..0803d75 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -169,7 +169,7 @@ class Toeplitz(LinearOperator):
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
-		self._dfft = np.real(np.fft.fft(self._d))
+		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
 		self.shape = (len(c), len(c))
 		self.dtype = dtype
-- 
2.43.0


From 144fc911d316f24c75797e14e469398aa2563be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 11/45] fix: is_linear_op answers False for objects without a
 two-dimensional shape

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 0803d75..52c5831 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -29,7 +29,7 @@ def is_linear_op(A: Any) -> bool:
 	is_valid_op = True
 	is_valid_op &= any(attr_checks)  # , "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
 	is_valid_op &= hasattr(A, "shape") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
-	is_valid_op &= A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
+	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
 	return is_valid_op
 
 
-- 
2.43.0


From c751a0053a635bb997799979fc8f82627e81f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 12/45] fix: initialize the LinearOperator base of
 MatrixFunction and Toeplitz, which current SciPy requires

---
 src/primate/operators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 52c5831..bcf622a 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,8 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		self.shape = A.shape
-		self.dtype = np.dtype(dtype)
+		super().__init__(dtype=np.dtype(dtype), shape=A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -171,8 +170,7 @@ class Toeplitz(LinearOperator):
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
 		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
-		self.shape = (len(c), len(c))
-		self.dtype = dtype
+		super().__init__(dtype=np.dtype(dtype), shape=(len(c), len(c)))
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d532c24a5d1e06e267daf4cdd1ea883bea266cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 13/45] fix: MatrixFunction applied to several vectors at once
 (M @ V) returns a matrix

---
 src/primate/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index bcf622a..f650a4e 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -120,7 +120,8 @@ class MatrixFunction(LinearOperator):
 		## TODO: call the lapack function with pre-allocated memory for extra speed
 		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		y = x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return y[:, 0] if y.shape[1] == 1 else y
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
-- 
2.43.0


From 117030117f926f586a2d6e8bdf56d0c95ae9192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 14/45] fix: re-orthogonalize only against Lanczos vectors of
 the current expansion, not against stale workspace

---
 src/primate/include/lanczos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 13c2d3a..b4c170e 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -132,7 +132,7 @@ void lanczos_recurrence(
     // Re-orthogonalize q_n against previous orth lanczos vectors, up to ncv-1
     if (orth > 0) {
       auto qn = Eigen::Ref< Vector< F > >(v);          
-      orth_vector(qn, Q_ref, c, orth, true);
+      orth_vector(qn, Q_ref, c, std::min(orth, j + 1), true); // only j+1 vectors belong to this expansion
     }
 
     // Early-stop criterion is when K_j(A, v) is near invariant subspace.
-- 
2.43.0


From 55b030baec3b0f3a7054ad1b206fcb773995eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 15/45] fix: MatrixFunction ignores entries past the breakdown
 when Lanczos finds an invariant subspace

---
 src/primate/operators.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index f650a4e..0741f7e 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -98,6 +98,11 @@ class MatrixFunction(LinearOperator):
 	def _adjoint(self):
 		return self
 
+	def _krylov_dim(self) -> int:
+		"""Dimension of the last Krylov expansion; less than the degree if an invariant subspace was found."""
+		small = np.flatnonzero(self._beta[1 : self._deg] < np.sqrt(self.shape[0]) * self._rtol)
+		return int(small[0]) + 1 if len(small) > 0 else self._deg
+
 	def _matvec(self, x: np.ndarray):
 		r"""Estimates the matrix-vector action using the Lanczos method.
 
@@ -118,9 +123,10 @@ class MatrixFunction(LinearOperator):
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
-		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
+		k = self._krylov_dim()  # entries past the k-th are not part of this expansion
+		rw, Y = eigh_tridiag(self._alpha[:k], self._beta[1:k])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		y = x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		y = x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
 		return y[:, 0] if y.shape[1] == 1 else y
 
 	def quad(self, x: np.ndarray):
@@ -146,8 +152,10 @@ class MatrixFunction(LinearOperator):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
-			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
-			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
+			k = self._krylov_dim()  # entries past the k-th are not part of this expansion
+			nodes, weights = self._nodes[:k], self._weights[:k]
+			quadrature(self._alpha, self._beta, deg=k, quad="gw", nodes=nodes, weights=weights)
+			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
 		return y
 
 
-- 
2.43.0


From e1e7df1f8c460dbca70c5f9acdaac4676d0205e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 16/45] fix: quadrature(quad='fttr') honours the degree

---
 src/primate/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 3609ac2..d562ba1 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,9 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d, e, **kwargs)
+		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d, e, deg, tau)
+		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From 666f5342d12d9585e991a69bd7c70773716d6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 17/45] fix: fttr weights of one-node rules

---
 src/primate/fttr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 2f133a5..29d899c 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -4,7 +4,8 @@ import numpy as np
 # pythran export ortho_poly(float, float, float[:], float[:], float[:], int)
 def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np.ndarray, n: int):
 	z[0] = mu_sqrt_rec
-	z[1] = (x - a[0]) * z[0] / b[1]
+	if n > 1:
+		z[1] = (x - a[0]) * z[0] / b[1]
 	for i in range(2, n):
 		s = (x - a[i - 1]) / b[i]
 		t = -b[i - 1] / b[i]
@@ -21,6 +22,8 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	"""
 	n = len(alpha)
 	mu_0 = np.sum(np.abs(theta[:k]))
+	if mu_0 == 0.0:
+		mu_0 = 1.0
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
-- 
2.43.0


From 5fa618f3fa6d72dc918b3e482bfba2a41b250d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 18/45] fix: tqli computes the implicit QL shift from the
 updated differences and a true copysign

---
 src/primate/tqli.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 7e5c736..e80fe22 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -3,8 +3,8 @@ import numpy as np
 
 # pythran export sign(float, float)
 def sign(a: float, b: float):
-	# return 1 if b > 0 else (-1 if a < 0 else 1)
-	return int(b > 1) - int(a < 0) + 1
+	"""Magnitude of `a` with the sign of `b`."""
+	return abs(a) if b >= 0 else -abs(a)
 
 
 ## Based on: https://github.com/rappoccio/PHY410/blob/f6a183eb48807841f6d35be45b4aa845d905a04c/cpt_python/cpt.py#L438
@@ -57,9 +57,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				ii += 1
 				g = (d[it + 1] - d[it]) / (2.0 * e[it])  # shift
 				r = np.hypot(g, 1.0)  # pythag
-				g = d[m] - d[it]
-				g += e[it] / (g + sign(r, g))  # dm - ks
-				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
+				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				s, c, p = 1.0, 1.0, 0.0
 				for i in range(m - 1, it - 1, -1):
 					## Plane rotation followed by Givens to restore tridiagonal
-- 
2.43.0


From b9c56565a1cdf5b61b83043e8bf8ae91127aa099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 19/45] fix: xtrace honours the given convergence criterion

---
 src/primate/trace.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 373f10e..4d27be0 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -265,14 +265,11 @@ def xtrace(
 	n = A.shape[0]
 	callback = (lambda result: ...) if not callable(callback) else callback
 	record = kwargs.pop("record", False)
-	estimator = MeanEstimator(record=record)
+	estimator = MeanEstimator(covariance=True, record=record)
 
 	## Parameterize the convergence criteria
-	if converge == "default":
-		converge = CountCriterion(count=n)
-	else:
-		converge = CountCriterion(count=n)
-		converge |= convergence_criterion(converge, **kwargs)
+	budget = CountCriterion(count=n)  # at most n samples are possible
+	converge = budget if converge == "default" else budget | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
 	## Setup outputs. TODO: these should really be resizable arrays
@@ -305,7 +302,7 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
-		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
+		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
 		callback(result)
 
-- 
2.43.0


From 60eacf7b8c57e45ed7d8305471d8e7f66ed0bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 20/45] fix: xtrace applies the normalization of spherical
 samples

---
 src/primate/trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 4d27be0..4a92d6d 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -282,6 +282,7 @@ def xtrace(
 	## Commence the batch-iterations
 	result = EstimatorResult()
 	rng = np.random.default_rng(seed)
+	pdf_name = pdf if isinstance(pdf, str) else ""
 	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
@@ -299,7 +300,7 @@ def xtrace(
 		Z = np.c_[Z, A @ Q[:, -ns:]]
 
 		## Expand the subspace
-		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
+		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf_name)
 
 		## Test for convergence
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
-- 
2.43.0


From dec218f4191da63deafd5b9290285ada2e25ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 21/45] fix: hutch reports the estimate and the number of
 samples in its result

---
 src/primate/trace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 4a92d6d..67f68e8 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -107,7 +107,9 @@ def hutch(
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
 			estimator.update(quad_form(v))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			callback(result)
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
 	else:
-- 
2.43.0


From 4a3e4b1dec6010f6c44595fdbc8346b44d1b1289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 22/45] fix: xtrace hands its callback the current estimate,
 not an empty result

---
 src/primate/trace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 67f68e8..871be85 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -282,7 +282,7 @@ def xtrace(
 	R_inv = np.zeros(shape=(0, 0))
 
 	## Commence the batch-iterations
-	result = EstimatorResult()
+	result = EstimatorResult(estimator, converge)
 	rng = np.random.default_rng(seed)
 	pdf_name = pdf if isinstance(pdf, str) else ""
 	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
@@ -307,9 +307,9 @@ def xtrace(
 		## Test for convergence
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		result.estimator, result.estimate, result.nit = estimator, estimator.estimate, len(estimator)
 		callback(result)
 
-	result.estimator = estimator
 	result.estimate = estimator.estimate
-	result.criterion = converge
+	result.message = converge.message(estimator)
 	return (result.estimate, result) if full else result.estimate
-- 
2.43.0


From 3f3e718542eb3f0ec61d9deb1a2378c5f0c45c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 23/45] fix: diag reports estimate, count and message, and
 accepts a callable pdf, as documented

---
 src/primate/diagonal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0c7f167..238e344 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -58,7 +58,7 @@ def diag(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(dim=N, covariance=False, record=record)
 	converge = convergence_criterion(converge, **kwargs)
 
@@ -77,9 +77,11 @@ def diag(
 			numer += u * v.ravel()
 			denom += np.square(v.ravel())
 			estimator.update(np.atleast_2d(numer / denom))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			if callback is not None:
 				callback(result)
-		result.estimate = estimator.estimate
+		result.estimate, result.nit = estimator.estimate, len(estimator)
+		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
 	else:
 		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)
-- 
2.43.0


From 7fc48cab154dbb446eb08295b3d10abf402d94c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 24/45] fix: hutchpp on operators smaller than three, with a
 callable pdf, and full=True on operators with a quad method

---
 src/primate/trace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 871be85..881225e 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -139,7 +139,7 @@ def hutchpp(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 
 	## Prepare quadratic form evaluator
 	# quad_form = (lambda v: A.quad(v)) if hasattr(A, "quad") else (lambda v: (v.T @ (A @ v)).item())
@@ -150,7 +150,7 @@ def hutchpp(
 		return 0.0 if not full else (0.0, EstimatorResult())
 
 	## Setup constants
-	nb = (N // 3) if m is None else m  # number of samples to dedicate to deflation
+	nb = max(N // 3, 1) if m is None else m  # number of samples to dedicate to deflation
 	nb += nb % 3  # ensure nb divides by 3
 	# maxiter: int = (N // 3) if maxiter == "auto" else int(maxiter)  # residual samples; default rule uses Hutch++ result
 	# assert nb % 3 == 0, "Number of samples must be divisible by 3"
@@ -165,7 +165,7 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
-- 
2.43.0


From daf7d424c607262a19dc6162c15ec8f74b113dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 25/45] fix: tolerance criteria answer for a control-variate
 estimator without samples

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 56a4e59..5316169 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -157,7 +157,7 @@ class ControlVariableEstimator(MeanEstimator):
 		self.cov = Covariance(dim=len(ecv) + 1)
 		self._estimate_cor = alpha is None
 		self.n_samples = 0
-		self.delta = np.inf
+		self.delta = np.atleast_1d(np.inf)
 
 	def __len__(self) -> int:
 		return self.n_samples
-- 
2.43.0


From c40c2bf72baf91fae289cdd8e2f473c7c229ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 26/45] fix: normal confidence intervals of constant samples

---
 src/primate/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 237bbed..b50ed0d 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -108,7 +108,8 @@ def confidence_interval(a: np.ndarray, confidence: float = 0.95, sdist: str = "t
 	elif sdist == "normal":
 		sq_n = np.sqrt(len(a))
 		mean, std = np.mean(a), np.std(a, ddof=1)
-		return sp.stats.norm.interval(confidence, loc=mean, scale=std / sq_n)
+		m = sp.stats.norm.ppf((1 + confidence) / 2.0)  # norm.interval is nan when the scale is zero
+		return mean - m * std / sq_n, mean + m * std / sq_n
 	else:
 		raise ValueError(f"Unknown sampling distribution '{sdist}'.")
 
-- 
2.43.0


From 4b27d7a17330448bc9fe35add69617cfec96911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 27/45] fix: xtrace on one-by-one operators

---
 src/primate/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 881225e..9ba6af7 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -296,7 +296,10 @@ def xtrace(
 		N = pdf(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
-			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
+			if Q.shape[1] == 0:
+				Q, R = np.linalg.qr(Y[:, [j]], mode="reduced")
+			else:
+				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
 			R_inv = update_trinv(R_inv, R[:, -1])
 		W = np.c_[W, N]
 		Z = np.c_[Z, A @ Q[:, -ns:]]
-- 
2.43.0


From 7bdca970026da5e36a0287391aaaee45f9730522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 28/45] fix: hutchpp reports one residual sample per test
 vector, not one per row

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 9ba6af7..6fbd625 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -165,13 +165,13 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("...i,...i->...", (A @ Q).T, Q.T) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
 	G = pdf(size=(N, nb)).astype(f_dtype)
 	G -= Q @ (Q.T @ G)
-	defl_ests = np.einsum("...i,...i->...", A @ G, G)  # [(g @ A @ g) for g in G[g_1, g_2, ..., g_nb]]
+	defl_ests = np.einsum("...i,...i->...", (A @ G).T, G.T)  # [(g @ A @ g) for g in G[g_1, g_2, ..., g_nb]]
 	tr_defl = (1 / nb) * np.sum(defl_ests)
 
 	if not full:
-- 
2.43.0


From c0b055a098b5c70d9273ad8ae5e1748b695b04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 29/45] fix: lanczos(dtype=...) returned zeros when the
 precision differs from that of the operator

---
 src/primate/lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index d641026..7b79030 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -82,6 +82,7 @@ def lanczos(
 
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
+	f_dtype = np.dtype(f_dtype if dtype is None else dtype)
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
 
 	## Determine number of projections + lanczos vectors
-- 
2.43.0


From b567818b1a708b814a0e80c3ff6893a73c2ca4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 30/45] fix: quadrature with quad='fttr' on strided diagonals

---
 src/primate/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index d562ba1..cc2d2aa 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -66,7 +66,7 @@ def quadrature(
 		## Uses the Forward Three Term Recurrence (FTTR) approach
 		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d[:deg], e[:deg], deg, tau)
+		fttr(theta, np.ascontiguousarray(d[:deg]), np.ascontiguousarray(e[:deg]), deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From ebae1b869c0469493ce147b1c5a88f83633c57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 31/45] fix: MatrixFunction maps the zero vector to zero for
 functions undefined at zero

---
 src/primate/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 0741f7e..6171127 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -127,6 +127,7 @@ class MatrixFunction(LinearOperator):
 		rw, Y = eigh_tridiag(self._alpha[:k], self._beta[1:k])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
 		y = x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		y = y if x_norm > 0 else np.zeros_like(y)  # f may be undefined at the zeros that stand for the Ritz values
 		return y[:, 0] if y.shape[1] == 1 else y
 
 	def quad(self, x: np.ndarray):
@@ -151,6 +152,8 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
+			if x_norm_sq == 0:
+				continue
 			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 			k = self._krylov_dim()  # entries past the k-th are not part of this expansion
 			nodes, weights = self._nodes[:k], self._weights[:k]
-- 
2.43.0


From 3d75780c0956b96a3c233a59a53b1f8bbb1c8eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 32/45] fix: update_trinv keeps the precision of the inverse,
 so that single-precision columns can be appended repeatedly

---
 src/primate/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/linalg.py b/src/primate/linalg.py
index 513ccf0..3fbbbb7 100644
--- a/src/primate/linalg.py
+++ b/src/primate/linalg.py
@@ -17,7 +17,7 @@ def update_trinv(B_inv: np.ndarray, b: np.ndarray):
 	b = np.atleast_2d(b).reshape((n + 1, 1))
 	assert B_inv.dtype == b.dtype, "dtypes of `B_inv` and `b` did not match."
 
-	B_ast = np.zeros(shape=(n + 1, n + 1))
+	B_ast = np.zeros(shape=(n + 1, n + 1), dtype=B_inv.dtype)
 	B_ast[:n, :n] = B_inv
 	B_ast[n, n] = np.reciprocal(b[-1]).item()
 	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])
-- 
2.43.0


From acc86dd4aa5c082d1c3a889f024ce5adf0942117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 33/45] fix: haar draws unspecified eigenvalues from [-1, 1],
 not [0, 1] as documented

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 6c39494..8ea689e 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -186,7 +186,7 @@ def haar(n: int, ew: Optional[np.ndarray] = None, seed: Union[int, np.random.Gen
 
 	Parameters:
 		n: The size of the matrix.
-		ew: Desired eigenvalues of `A`. If not provided, generates random values in the range [0, 1].
+		ew: Desired eigenvalues of `A`. If not provided, generates random values in the range [-1, 1].
 		seed: seed for the random number generator.
 
 	Returns:
-- 
2.43.0


From b3a6020ecc18e8f3abada3e5df65c2e12e4bca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 34/45] fix: is_linear_op answers objects whose shape is not a
 tuple with False instead of raising, and three-dimensional arrays with False

---
 src/primate/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 6171127..afe349a 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -28,7 +28,8 @@ def is_linear_op(A: Any) -> bool:
 	attr_checks = [hasattr(A, "__matmul__"), hasattr(A, "matmul"), hasattr(A, "dot"), hasattr(A, "matvec")]
 	is_valid_op = True
 	is_valid_op &= any(attr_checks)  # , "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
-	is_valid_op &= hasattr(A, "shape") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
+	shape = getattr(A, "shape", None)
+	is_valid_op &= isinstance(shape, (tuple, list)) and len(shape) == 2  # , "Operator must be two dimensional."
 	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
 	return is_valid_op
 
-- 
2.43.0


From 5edc71f76ae5748aceeb449773d7011eda6cf65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 35/45] fix: lanczos refuses operators that are not square,
 start vectors that are not single vectors, and outputs it would not write,
 instead of aborting or returning zeros

---
 src/primate/lanczos.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 7b79030..0c82440 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -79,6 +79,7 @@ def lanczos(
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
 	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype
 	assert deg > 0, "Number of steps must be positive!"
+	assert len(A.shape) == 2 and A.shape[0] == A.shape[1], "This function only works with square, symmetric matrices!"
 
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
@@ -97,6 +98,7 @@ def lanczos(
 	else:
 		v0: np.ndarray = np.array(v0).astype(dt)
 	assert len(v0) == A.shape[1], "Invalid starting vector; must match the number of columns of A."  # type: ignore
+	assert v0.size == A.shape[1], "Invalid starting vector; must be a single vector."
 
 	## Allocate the tridiagonal elements + lanczos vectors in column-major storage
 	alpha = kwargs.get("alpha", np.zeros(deg + 1, dtype=f_dtype))
@@ -104,7 +106,8 @@ def lanczos(
 	Q = kwargs.get("Q", np.zeros((n, ncv), dtype=f_dtype, order="F"))
 	assert isinstance(alpha, np.ndarray) and len(alpha) == deg + 1 and alpha.dtype == f_dtype and alpha.flags["WRITEABLE"]
 	assert isinstance(beta, np.ndarray) and len(beta) == deg + 1 and beta.dtype == f_dtype and beta.flags["WRITEABLE"]
-	assert Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
+	assert alpha.flags["C_CONTIGUOUS"] and beta.flags["C_CONTIGUOUS"], "Output arrays must be contiguous."
+	assert Q.dtype == f_dtype and Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
 
 	## Call the procedure
 	_lanczos.lanczos(A, v0, deg, rtol, orth, alpha, beta, Q)
-- 
2.43.0


From a321ff167fa5e66490fbbec81328fa8e5b5eb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 36/45] fix: MatrixFunction refuses vectors of the wrong length
 and non-float dtypes, and maps empty vectors to empty vectors, instead of
 reading out of bounds or aborting

---
 src/primate/operators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index afe349a..bb2962b 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -58,6 +58,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
+		assert np.dtype(dtype).type in {np.float32, np.float64}, "Only 32- or 64-bit floats are supported."
 		super().__init__(dtype=np.dtype(dtype), shape=A.shape)
 
 		## Parmaeterize function
@@ -120,6 +121,9 @@ class MatrixFunction(LinearOperator):
 		# self.Q.fill(0)  # this is necessary to prevent orthogonalization
 		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
+		assert len(x) == self.shape[1], f"Invalid shape of input vector 'x'; must have length {self.shape[1]}"
+		if len(x) == 0:
+			return x
 		x_norm = np.linalg.norm(x)
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 
@@ -148,6 +152,7 @@ class MatrixFunction(LinearOperator):
 		x = x.astype(self.dtype)
 		x = np.atleast_2d(x).T if x.ndim == 1 else x
 		x = np.array(x, order="F", copy=None)
+		assert x.shape[0] == self.shape[1], f"Invalid shape of input 'x'; must have {self.shape[1]} rows"
 		x_norm_sq = np.square(np.linalg.norm(x, axis=0))
 		y = np.zeros(x.shape[1])
 		for j in range(x.shape[1]):
-- 
2.43.0


From 3afc5bddecfd926879f1b899a68620a2a5ef74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 37/45] fix: xtrace of an empty operator is zero, and operators
 that are not square are refused

---
 src/primate/trace.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 6fbd625..551c365 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -15,7 +15,7 @@ from .estimators import (
 	convergence_criterion,
 )
 from .linalg import update_trinv
-from .operators import is_valid_operator
+from .operators import is_linear_op, is_valid_operator
 from .random import isotropic
 
 
@@ -262,6 +262,7 @@ def xtrace(
 	from scipy.linalg import qr_insert
 
 	assert batch >= 1, "Batch size must be positive."
+	assert is_linear_op(A), "Invalid operator `A`; must be a square operator with an overloaded 'matvec' or 'matmul' method"
 	# assert atol >= 0.0 and rtol >= 0.0, "Error tolerances must be positive"
 	# assert cond_tol >= 0.0, "Condition number must be non-negative"
 	n = A.shape[0]
@@ -286,6 +287,11 @@ def xtrace(
 	rng = np.random.default_rng(seed)
 	pdf_name = pdf if isinstance(pdf, str) else ""
 	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
+
+	## Catch degenerate case
+	if n == 0:
+		return 0.0 if not full else (0.0, EstimatorResult(estimator, converge))
+
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
 		ns = min(A.shape[1] - W.shape[1], int(batch))
-- 
2.43.0


From 13905f63bc48faba00b1962348cd43d9c51f65ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 38/45] fix: quadrature refuses non-positive degrees instead of
 returning a truncated rule

---
 src/primate/integrate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index cc2d2aa..ddfd23f 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -55,6 +55,7 @@ def quadrature(
 		should be done to ensure that instability does not cause a large bias in the approximation.
 	"""
 	deg = len(d) if deg is None else int(min(deg, len(d)))
+	assert deg > 0, "Degree of the quadrature must be positive."
 	e = np.append([0], e) if len(e) == (len(d) - 1) else e
 	assert len(d) == len(e) and np.isclose(e[0], 0.0), "Subdiagonal first element 'e[0]' must be close to zero"
 
-- 
2.43.0


From 4408311037e76d939c27dd2db11036114270a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 39/45] fix: rayleigh_ritz uses the documented method and
 refuses unknown ones

---
 src/primate/lanczos.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 0c82440..7afa3f7 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -150,6 +150,9 @@ def rayleigh_ritz(
 	n: int = A.shape[0]
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
 	assert deg > 0, "Number of steps must be positive!"
+	assert method.lower() in {"rrr", "tqli"}, f"Invalid method '{method}' supplied"
+	method = "tqli" if method.lower() == "tqli" else "auto"
+	maxiter = kwargs.pop("maxiter", 30)
 
 	## Run the lanczos method
 	deg = np.clip([deg], 2, n).item()
@@ -161,10 +164,10 @@ def rayleigh_ritz(
 
 	## Return Rayleigh-Ritz values, Ritz vectors Y (if requested), and Lanczos basis Q (if requested)
 	if return_eigenvectors:
-		rw, Y = eigh_tridiag(a, b)
+		rw, Y = eigh_tridiag(a, b, method=method, maxiter=maxiter)
 		return (rw, Y) if not Q_basis else (rw, Y, Q)
 	else:
-		rw = eigvalsh_tridiag(a, b)
+		rw = eigvalsh_tridiag(a, b, method=method, maxiter=maxiter)
 		return rw if not Q_basis else (rw, Q)
 
 
-- 
2.43.0


From e9778ff36c47a799ed5ef75c1a442ee482a8966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 40/45] fix: operators whose matvec returns a non-contiguous
 view or an image of the wrong length are not misread by Lanczos

---
 src/primate/include/pylinop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 6f3d39f..e52a530 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -33,7 +33,8 @@ struct PyLinearOperator {
     auto ts = hr_clock::now(); 
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
-    py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
+    auto output = matvec_out.cast< py::array_t< F, py::array::c_style | py::array::forcecast > >(); // may be a view of any layout
+    if (size_t(output.size()) != _shape.first){ throw std::invalid_argument("Output of 'matvec' does not match the shape of the operator."); }
     // std::copy(output.data(), output.data() + output.size(), out);
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
-- 
2.43.0


From dcd52f1555c4231911371b993356a3fb89c04b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 41/45] fix: lanczos returned zeros for operators whose matvec
 returns another precision than their dtype

---
 src/primate/lanczos.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 7afa3f7..bfbf30b 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -77,7 +77,6 @@ def lanczos(
 	## Basic parameter validation
 	n: int = A.shape[0]
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
-	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype
 	assert deg > 0, "Number of steps must be positive!"
 	assert len(A.shape) == 2 and A.shape[0] == A.shape[1], "This function only works with square, symmetric matrices!"
 
@@ -94,9 +93,9 @@ def lanczos(
 	## Generate the starting vector if none is specified
 	if v0 is None:
 		rng = np.random.default_rng(seed)
-		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(dt)
+		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(f_dtype)
 	else:
-		v0: np.ndarray = np.array(v0).astype(dt)
+		v0: np.ndarray = np.array(v0).astype(f_dtype)
 	assert len(v0) == A.shape[1], "Invalid starting vector; must match the number of columns of A."  # type: ignore
 	assert v0.size == A.shape[1], "Invalid starting vector; must be a single vector."
 
-- 
2.43.0


From d36f856bc35b8c0151f65452be778b9802ea00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 42/45] fix: the message of a count criterion must not fail
 before there is an estimate

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 5316169..af5b2e6 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -218,7 +218,7 @@ class CountCriterion(ConvergenceCriterion):
 		return len(est) >= self.count
 
 	def message(self, est: Estimator) -> str:
-		msg = f"Est: {arr_summary(np.array(est.estimate))} (#S:{ len(est) })"
+		msg = f"Est: {arr_summary(est.estimate)} (#S:{ len(est) })"
 		return msg
 
 
-- 
2.43.0


From 99ba964a6b8c665e5fb8f928daf9f95a02accdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 43/45] fix: ControlVariableEstimator records its samples when
 asked to

---
 src/primate/estimators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index af5b2e6..b7fbec1 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -173,6 +173,8 @@ class ControlVariableEstimator(MeanEstimator):
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
 		self.delta = np.atleast_1d(self.estimate - old_est)
+		if self.values is not None:
+			self.values.extend(samples.copy())
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From 31b44ae205815747f91884312945ada4a172e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:47 +0000
Subject: [PATCH 44/45] fix: control-variate estimators accept updates before
 the control covariance is invertible

---
 src/primate/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index b7fbec1..2d954e5 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -168,10 +168,10 @@ class ControlVariableEstimator(MeanEstimator):
 		old_est = self.estimate if self.n_samples > 0 else 0.0
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
-		if self._estimate_cor and self.n_samples > 1:  # the sample covariance needs at least two samples
+		if self._estimate_cor and self.n_samples >= self.cov.dim:  # fewer samples leave the control covariance singular
 			C = self.cov(ddof=1)
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
-			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+			self.alpha = np.linalg.lstsq(C_11, C_01, rcond=None)[0]
 		self.delta = np.atleast_1d(self.estimate - old_est)
 		if self.values is not None:
 			self.values.extend(samples.copy())
-- 
2.43.0


From 0e8306ca1267b1452bb861017e77c570dcaff536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:34 +0000
Subject: [PATCH 45/45] fix: fttr weights were nan where the orthogonal
 polynomials overflow

---
 src/primate/fttr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 29d899c..54bcd09 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -10,6 +10,9 @@ def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np
 		s = (x - a[i - 1]) / b[i]
 		t = -b[i - 1] / b[i]
 		z[i] = s * z[i - 1] + t * z[i - 2]
+		if abs(z[i]) > 1e150 * mu_sqrt_rec:  # the weight is zero to working precision; going on would overflow
+			z[i + 1 :] = 0.0
+			break
 
 
 ## Algorithm from: "Computing Gaussian quadrature rules with high relative accuracy."
-- 
2.43.0

