"""Calls with arguments of every class: what is answered and what is refused."""

import numpy as np
import scipy.sparse as sps
from primate import operators as po
from primate import special as fs
from primate.diagonal import diag, xdiag
from primate.estimators import ConfidenceCriterion, ControlVariableEstimator, CountCriterion, MeanEstimator, convergence_criterion
from primate.integrate import quadrature
from primate.lanczos import lanczos, rayleigh_ritz
from primate.linalg import update_trinv
from primate.random import Isotropic, haar, isotropic, symmetric
from primate.stats import Covariance, confidence_interval
from primate.trace import hutch, hutchpp, xtrace
from primate.tridiag import eigh_tridiag, eigvalsh_tridiag
from scipy.sparse.linalg import LinearOperator

from .enc import attempt, num

N = 4
SHAPE = {"square": (N, N), "one": (1, 1), "wide": (3, N), "tall": (N, 3), "vector": (N,), "cube": (N, N, N), "scalar": (), "empty": (0, 0), "emptywide": (0, 3), "int": N, "null": None}
DTYPE = {"f64": "float64", "f32": "float32", "i64": "int64", "bool": "bool", "c128": "complex128", "f16": "float16", "long": "longdouble", "object": "object"}


def entries(shape, t):
	"""An operator whose first basis vectors and all-ones vector are cyclic."""
	if not isinstance(shape, tuple):
		shape = (N, N)
	if len(shape) == 2:
		M = np.array([[(i + 1.0) * (i == j) + 1.0 for j in range(shape[1])] for i in range(shape[0])]).reshape(shape)
	else:
		M = 1.0 + np.arange(float(int(np.prod(shape, dtype=int)))).reshape(shape)
	return M.astype(DTYPE.get(t, "float64"))


class Bare:
	def __init__(self, M, shape, t):
		self.M = M
		if shape is not ...:
			self.shape = shape
		if t != "none":
			self.dtype = np.dtype(DTYPE[t])


class Matmul(Bare):
	def __matmul__(self, x):
		return self.M @ x


class Matvec(Bare):
	def matvec(self, x):
		return self.M @ x


class Both(Matmul, Matvec):
	pass


class Dot(Bare):
	def dot(self, x):
		return self.M @ x


class Cut:
	"""An operator whose images have the wrong length."""

	def __init__(self, A, by):
		self.A, self.by, self.shape = A, by, A.shape
		if hasattr(A, "dtype"):
			self.dtype = A.dtype

	def __matmul__(self, x):
		return self.A @ x

	def matvec(self, x):
		y = np.asarray(self.A @ x)
		return y[:-1] if self.by == "short" else np.append(y, y[:1])


def operator(o):
	p, s, t = o["p"], o["s"], o["t"]
	if p == "list":
		return [[2.0, 1.0], [1.0, 2.0]]
	if p in ("nothing", "text", "number", "function", "class", "dict"):
		return {"nothing": None, "text": "A", "number": 3.0, "function": lambda x: x, "class": np.ndarray, "dict": {}}[p]
	shape = SHAPE.get(s, ...)
	M = entries(shape, t)
	if p == "array":
		return M
	if p == "sparse":
		return sps.csr_array(M)
	if p == "linop":
		return LinearOperator(shape=shape, matvec=lambda x: M @ x, rmatvec=lambda x: M.T @ x, dtype=M.dtype)
	return {"bare": Bare, "matmul": Matmul, "matvec": Matvec, "both": Both, "dot": Dot}[p](M, shape, t)


def seed(k):
	return {"none": None, "int": 3, "gen": np.random.Generator(np.random.PCG64(1)), "text": "a", "negative": -1, "fraction": 1.5}[k]


def criterion(k):
	kw = {"count": 5}
	c = {"object": CountCriterion(5), "None": None, "3": 3}.get(k, k)
	return c, kw if k.lower() == "count" else {}


def vec(n, dtype="float64"):
	return 1.0 + np.arange(n, dtype=dtype)


def drop(kw, *names):
	return {k: v for k, v in kw.items() if v not in ("none", "default") or k not in names}


def call(fn, o, a, n):
	A = operator(o) if o["p"] else None
	by = a.get("image", "short" if a.get("use", "").endswith("cut") else "full")
	if by != "full" and hasattr(A, "shape") and hasattr(A, "__matmul__"):
		A = Cut(A, by)
	kw = {}
	if "pdf" in a and a["pdf"] != "default":
		kw["pdf"] = a["pdf"]
	if fn in ("hutch", "diag", "xtrace"):
		kw["seed"] = 5
		if a["crit"] != "default":
			c, more = criterion(a["crit"])
			kw.update(converge=c, **more)
		if "batch" in a:
			kw["batch"] = int(a["batch"])
		if "full" in a:
			kw["full"] = a["full"] == "yes"
		r = {"hutch": hutch, "diag": diag, "xtrace": xtrace}[fn](A, **kw)
		return r[0] if kw.get("full") else r
	if fn == "hutchpp":
		if a["m"] != "none":
			kw["m"] = int(a["m"])
		r = hutchpp(A, seed=5, full=a["full"] == "yes", **kw)
		return r[0] if isinstance(r, tuple) else r
	if fn == "xdiag":
		if a["m"] != "none":
			kw["m"] = int(a["m"])
		return xdiag(A, seed=5, **kw)
	if fn in ("lanczos", "rayleigh_ritz"):
		deg = N if n > 1 else max(n, 1)
		if a["deg"] != "none":
			kw["deg"] = deg = int(a["deg"])
		v = a["v0"]
		if v == "none":
			kw["seed"] = 5
		else:
			ones = np.ones(n)
			kw["v0"] = {"ok": ones, "list": [1.0] * n, "column": ones[:, None], "short": np.ones(max(n - 1, 0)), "long": np.ones(n + 1), "row": ones[None, :], "matrix": np.ones((n, 2))}[v]
		if fn == "rayleigh_ritz":
			if a["method"] != "default":
				kw["method"] = a["method"]
			return rayleigh_ritz(A, **kw)
		if a["dtype"] != "none":
			kw["dtype"] = {"f32": np.float32, "f64": np.float64, "int": int, "f16": np.float16}[a["dtype"]]
		outs = a["outs"]
		if outs != "none":
			dt = np.dtype(kw.get("dtype", DTYPE.get(o["t"], "float64")))
			deg = max(1, min(deg if a["deg"] != "none" else n, n))
			al, be = np.zeros(deg + 1, dtype=dt), np.zeros(deg + 1, dtype=dt)
			Q = np.zeros((n, deg), dtype=dt, order="F")
			if outs == "short alpha":
				al = al[:-1].copy()
			elif outs == "long beta":
				be = np.zeros(deg + 2, dtype=dt)
			elif outs == "int alpha":
				al = al.astype(int)
			elif outs == "strided alpha":
				al = np.zeros(2 * deg + 2, dtype=dt)[::2]
			elif outs == "Q order":
				Q = np.zeros((n + 1, 2 * (deg + 1)), dtype=dt)[:n, ::2][:, :deg]
			elif outs == "Q shape":
				Q = np.zeros((n + 1, deg), dtype=dt, order="F")
			elif outs == "Q type":
				Q = Q.astype(np.float32 if dt == np.float64 else np.float64, order="F")
			kw.update(alpha=al, beta=be, Q=Q, return_basis=True)
			return lanczos(A, **kw)[0]
		return lanczos(A, **kw)
	if fn == "MatrixFunction":
		if a["deg"] != "none":
			kw["deg"] = int(a["deg"])
		f = {"none": None, "callable": np.exp, "number": 3, "unknown name": "x", "short values": lambda x: x[:-1], "one value": lambda x: 3.0}.get(a["fun"], a["fun"])
		if f is not None:
			kw["fun"] = f
		if a["dtype"] != "none":
			kw["dtype"] = {"f32": np.float32, "f64": np.float64, "int": int, "complex": complex}[a["dtype"]]
		F = po.MatrixFunction(A, **kw)
		use, _, how = a["use"].partition(" ")
		if use == "construct":
			return 0
		m = {"": n, "short": n - 1, "long": n + 1}.get(how, n)
		x = np.ones(max(m, 0))
		if how == "of two":
			x = np.ones((n, 2))
		if how == "transposed":
			x = np.ones((n + 1, n))
		return {"matvec": lambda: F @ x, "quad": lambda: F.quad(x), "direct": lambda: F._matvec(x)}[use]()
	if fn == "normalize_unit":
		return po.normalize_unit(A) @ np.ones(n)
	if fn == "is_linear_op":
		return po.is_linear_op(A)
	if fn == "is_valid_operator":
		po.is_valid_operator(A)
		return 0
	if fn in ("quadrature", "eigh_tridiag", "eigvalsh_tridiag"):
		d = vec(5) * 2
		e = np.ones({"n-1": 4, "n": 5, "n+1": 6, "n-2": 3}[a["off"]])
		if a["off"] == "n" and a.get("first") != "nonzero":
			e[0] = 0.0
		if fn != "quadrature":
			kw = {} if a["method"] == "auto" else {"method": a["method"]}
			return {"eigh_tridiag": eigh_tridiag, "eigvalsh_tridiag": eigvalsh_tridiag}[fn](d, e, **kw)
		deg = 5
		if a["deg"] != "none":
			kw["deg"] = int(a["deg"])
			deg = max(0, min(kw["deg"], 5))
		if a["outs"] != "none":
			kw["nodes"] = np.zeros(max(deg + {"short": -1, "long": 1}.get(a["outs"], 0), 0))
			kw["weights"] = np.zeros(max(deg - (a["outs"] == "short weights") + {"short": -1, "long": 1}.get(a["outs"], 0), 0))
		return quadrature(d, e, quad=a["quad"], **kw)
	if fn == "update_trinv":
		k = 0 if a["B"] == "empty" else 3
		B = {"square": np.eye(3), "empty": np.zeros((0, 0)), "wide": np.eye(3, 4), "tall": np.eye(4, 3), "vector": np.ones(3), "cube": np.ones((3, 3, 3))}[a["B"]]
		b = vec(k + 1 + {"short": -1, "long": 1}.get(a["b"], 0))
		if a["b"] == "column":
			b = b[:, None]
		return update_trinv(B, b.astype("float32") if a["types"] == "mixed" else b)
	if fn == "isotropic":
		out = a["out"]
		if out != "none":
			kw["out"] = {"array": np.zeros((3, 2)), "list": [1.0, 2.0], "int array": np.zeros(3, dtype=int)}[out]
		else:
			kw["size"] = (3, 2)
		return isotropic(seed=seed(a["seed"]), **kw)
	if fn == "Isotropic":
		F = Isotropic((3, 2), threads=int(a["threads"]), seed=seed(a["seed"]), **kw)
		F.fill()
		return F.values
	if fn in ("symmetric", "haar"):
		ew = {"none": None, "ok": vec(4), "short": vec(3), "long": vec(5), "one": vec(1)}[a["ew"]]
		if fn == "symmetric" and a["dist"] != "default":
			kw["dist"] = a["dist"]
		return {"symmetric": symmetric, "haar": haar}[fn](4, ew=ew, seed=seed(a["seed"]), **kw)
	if fn == "confidence_interval":
		c = {"nan": np.nan, "text": "a", "None": None}.get(a["conf"])
		c = float(a["conf"]) if c is None and a["conf"] != "None" else c
		return confidence_interval(vec(6), c, **({} if a["sdist"] == "default" else {"sdist": a["sdist"]}))
	if fn == "ConfidenceCriterion":
		ConfidenceCriterion(confidence=float(a["conf"]))
		return 0
	if fn == "convergence_criterion":
		c = {"object": CountCriterion(5), "None": None, "3": 3}.get(a["crit"], a["crit"])
		convergence_criterion(c, count=5)
		return 0
	if fn == "update":
		cls = a["cls"]
		if cls == "ControlVariableEstimator":
			E, d = ControlVariableEstimator(ecv=[1.0]), 2
		else:
			E, d = {"Mean": lambda: MeanEstimator(dim=2), "Covariance": lambda: Covariance(2), "MeanEstimator": lambda: MeanEstimator(dim=2), "covariance MeanEstimator": lambda: MeanEstimator(dim=2, covariance=True)}[cls](), 2
		x = {"ok": vec(6).reshape(3, 2), "one sample": vec(2).reshape(1, 2), "wide": vec(9).reshape(3, 3), "narrow": vec(3).reshape(3, 1), "vector": vec(3)}[a["data"]]
		E.update(x)
		return 0
	if fn == "ControlVariableEstimator":
		kw = {"none": {}, "ok": {"alpha": [1.0, 2.0]}, "short": {"alpha": [1.0]}, "long": {"alpha": [1.0, 2.0, 3.0]}}[a["alpha"]]
		ControlVariableEstimator(ecv=[1.0, 2.0], **kw)
		return 0
	if fn == "param_callable":
		f = fs.param_callable({"None": None, "callable": np.exp, "3": 3}.get(a["name"], a["name"]))
		return f(vec(3))
	if fn == "smoothstep":
		return fs.smoothstep(vec(3), deg=int(a["deg"]))
	if fn == "Toeplitz":
		c = vec(4)
		r = {"none": None, "ok": vec(4), "short": vec(3), "long": vec(5)}[a["r"]]
		x = {"ok": vec(4), "column": vec(4)[:, None], "short": vec(3), "long": vec(5)}[a["x"]]
		return po.Toeplitz(c, r) @ x
	raise KeyError(fn)


def flat(r):
	if isinstance(r, (bool, np.bool_)):
		return ["true" if r else "false"]
	if isinstance(r, (tuple, list)):
		return [x for t in r for x in flat(t)]
	if isinstance(r, (int, float, complex, np.ndarray, np.generic)):
		x = np.asarray(r)
		return [num(t) if t == t else "nan" for t in np.real(x).astype(float).ravel()]
	return [type(r).__name__]


def run(h, emit):
	for c in h["ops"]:
		o = c["o"]
		s = SHAPE.get(o["s"])
		n = s[-1] if isinstance(s, tuple) and s else N
		ok, r = attempt(call, c["fn"], o, c["a"], n)
		if not ok and r.startswith("KeyError: ") and c["fn"] in r:
			raise RuntimeError(r)
		emit({"op": "case", "fn": c["fn"], "o": o, "a": c["a"], "ok": ok, "v": flat(r)[:8] if ok else [], "exc": "" if ok else r})
