"""Trace and diagonal estimation: every draw, callback and result of a call is an event."""

import itertools
import json

import numpy as np
import scipy.sparse as sps
from primate.diagonal import diag, xdiag
from primate.lanczos import lanczos, rayleigh_ritz
from primate.trace import hutch, hutchpp, xtrace
from scipy.sparse.linalg import LinearOperator, aslinearoperator

from .crit import build, pyargs, tf
from .enc import arr, attempt, num, unarr, unnum


class Exhausted(Exception):
	pass


class MatMul:
	"""The least an operator needs: a shape, a dtype and a product."""

	def __init__(self, M, sink=None):
		self.M, self.shape, self.dtype, self.sink = M, M.shape, M.dtype, sink

	def __matmul__(self, x):
		if self.sink is not None:
			self.sink(np.asarray(x))
		return self.M @ x

	@property
	def T(self):
		return MatMul(self.M.T.copy(), None)


class Bare:
	"""No dtype: images have the precision of the argument."""

	def __init__(self, M):
		self.M, self.shape = M, M.shape

	def __matmul__(self, x):
		return self.M.astype(x.dtype) @ x


class WithQuad(MatMul):
	def quad(self, x):
		x = np.atleast_2d(x.T).T
		return np.array([x[:, j] @ (self.M @ x[:, j]) for j in range(x.shape[1])])


class Answering:
	"""A bare operator whose images come back in an unusual form."""

	def __init__(self, M, form):
		self.M, self.form, self.shape, self.dtype = M, form, M.shape, M.dtype

	def matvec(self, x):
		return self.form(self.M @ x)

	def __matmul__(self, x):
		return self.matvec(x) if x.ndim == 1 else self.M @ x


def represent(M, rep, sink=None):
	if rep == "C":
		return np.ascontiguousarray(M)
	if rep == "F":
		return np.asfortranarray(M)
	if rep == "view":
		B = np.zeros((2 * M.shape[0], 2 * M.shape[1]), dtype=M.dtype)
		B[::2, ::2] = M
		return B[::2, ::2]
	if rep == "csr":
		return sps.csr_array(M)
	if rep == "csc":
		return sps.csc_array(M)
	if rep == "coo":
		return sps.coo_array(M)
	if rep == "linop":
		return aslinearoperator(M)
	if rep == "matvec":
		return LinearOperator(shape=M.shape, matvec=lambda x: M @ x, rmatvec=lambda x: M.T @ x, dtype=M.dtype)
	if rep == "strided":  # the image is every other entry of a larger array
		return Answering(M, lambda y: np.repeat(y, 2, axis=0)[::2])
	if rep == "reversed":  # the image is a view that runs backwards
		return Answering(M, lambda y: np.ascontiguousarray(y[::-1])[::-1])
	if rep == "column":  # the image of a vector is a column
		return Answering(M, lambda y: y.reshape(-1, 1))
	if rep == "narrow":
		return Answering(M, lambda y: y.astype(np.float32))
	if rep == "wide":
		return Answering(M, lambda y: y.astype(np.float64))
	if rep == "matmul":
		return MatMul(M)
	if rep == "bare":
		return Bare(M)
	if rep == "mf":  # the identity function of the matrix
		from primate.operators import MatrixFunction

		return MatrixFunction(M, fun=None, deg=M.shape[0], orth=M.shape[0])
	if rep == "quad":
		return WithQuad(M)
	if rep == "rec":
		return MatMul(M, sink)
	raise KeyError(rep)


def operator(t, held):
	"""The operator a term describes, from the library's own operators."""
	from primate.operators import MatrixFunction, Toeplitz, normalize_unit

	from .fun import resolve

	key = json.dumps(t, sort_keys=True)
	if t.get("share") and key in held:
		return held[key]
	k = t["k"]
	if k == "matrix":
		A = represent(unarr(t["A"]), t["rep"])
	elif k == "toeplitz":
		A = Toeplitz(unarr(t["c"]), unarr(t["r"]))
	elif k == "unit":
		A = normalize_unit(operator(t["of"], held))
	elif k == "fun":
		A = MatrixFunction(operator(t["of"], held), fun=resolve(t["f"], "factory" if t["f"]["name"] == "step" else "name"), deg=t["deg"], orth=t["orth"])
	elif k in ("sum", "times"):
		x, y = (aslinearoperator(operator(t[i], held)) for i in "xy")
		A = x + y if k == "sum" else x @ y
	elif k == "scaled":
		A = float(unnum(t["s"])) * aslinearoperator(operator(t["of"], held))
	elif k == "adjoint":
		A = aslinearoperator(operator(t["of"], held)).H
	else:
		raise KeyError(k)
	held[key] = A
	return A


def columns(x):
	x = np.asarray(x)
	x = x[:, None] if x.ndim == 1 else x
	return [[num(t) for t in x[:, j]] for j in range(x.shape[1])]


class Stream:
	def __init__(self, vectors, emit):
		self.it = iter(vectors)
		self.emit = emit

	def __call__(self, size):
		shape = (size, 1) if isinstance(size, (int, np.integer)) else tuple(int(t) for t in size)
		k = shape[1] if len(shape) > 1 else 1
		cols = list(itertools.islice(self.it, k))
		if len(cols) < k:
			raise Exhausted("drew past the end of the stream")
		X = np.asfortranarray(unarr(cols).T)
		if self.emit:
			self.emit({"op": "draw", "size": [int(t) for t in shape], "v": columns(X)})
		return X


def call(c, stream, emit, quiet=False):
	M = None if "term" in c else unarr(c["A"], dtype=np.dtype(c.get("dtype", "float64")))
	n = c["n"] if M is None else M.shape[0]

	def sink(x):
		x2 = x[:, None] if x.ndim == 1 else x
		if quiet or (c["alg"] in ("xtrace", "xdiag") and n > 1 and not np.all(np.abs(np.sum(np.square(x2), axis=0) - n) < 1e-6 * n)):
			return  # not a batch of test vectors
		emit({"op": "draw", "size": [int(t) for t in x2.shape], "v": columns(x2)})

	A = operator(c["term"], {}) if M is None else represent(M, c["rep"], sink)
	pdf = Stream(stream, None if quiet else emit) if c["pdf"] == "callable" else {"signs": "rademacher"}.get(c["pdf"], c["pdf"])
	seed = c.get("seed")
	alg = c["alg"]
	if alg == "xdiag":
		kw = {} if c["m"] == 0 else {"m": c["m"]}
		return xdiag(A, pdf=pdf, seed=seed, **kw), None
	if alg == "hutchpp":
		kw = {} if c["m"] == 0 else {"m": c["m"]}
		r = hutchpp(A, mode=c.get("mode", "reduced"), pdf=pdf, seed=seed, full=c["full"], **kw)
		return r if c["full"] else (r, None)
	kw = {}
	if c["via"] == "default":
		pass
	elif c["via"] == "name":
		f = c["f"]
		kw["converge"] = {"count": "count", "tol": "tolerance", "conf": "confidence", "knee": "knee"}[f["k"]]
		names = {"c": "count", "lev": "confidence"}
		kw.update(pyargs({names.get(k, k): v for k, v in f.items() if k != "k"}))
	else:
		kw["converge"] = build(c["f"], {})
	if c["rec"]:
		kw["record"] = True
	if c["alg"] != "diag":
		kw["batch"] = c["batch"]
	if c["cb"]:

		def callback(r):
			if not quiet:
				emit({"op": "callback", "nit": int(r.nit), "len": len(r.estimator), "est": arr(r.estimate), "ans": tf(r.criterion(r.estimator))})

		kw["callback"] = callback
	fun = {"hutch": hutch, "diag": diag, "xtrace": xtrace}[alg]
	r = fun(A, pdf=pdf, seed=seed, full=c["full"], **kw)
	# with a callback the result may come along although it was not asked for
	return r if c["full"] else (r[0] if isinstance(r, tuple) else r, None)


def observe(c, r):
	est, res = r
	ev = {"est": arr(est)}
	if res is None:
		return ev
	ev["rest"] = arr(res.estimate)
	ev["nit"] = int(res.nit)
	if c["alg"] == "hutchpp":
		ev["samples"] = [num(t) for t in np.ravel(res.samples)]
		return ev
	e = res.estimator
	ev.update(len=len(e), eest=arr(e.estimate), msg=isinstance(res.message, str) and res.message != "", ans=tf(res.criterion(e)))
	if c["rec"]:
		ev["vals"] = [arr(v) for v in e.values]
	return ev


def applied(c, op):
	A = operator(c["term"], {})
	X = np.array([unarr(v) for v in op["V"]]).T
	y = A @ (X if op["many"] else X[:, 0])
	return {"y": arr(y)}


def jacobi(c, op):
	a, b = lanczos(operator(c["term"], {}), v0=unarr(op["v"]), deg=op["deg"], orth=op["deg"])
	return {"a": [num(t) for t in a], "b": [num(t) for t in b]}


def ritz(c, op):
	w = rayleigh_ritz(operator(c["term"], {}), deg=c["n"], v0=unarr(op["v"]), orth=c["n"])
	return {"w": [num(t) for t in np.ravel(w)]}


SOLO = {"apply": applied, "jacobi": jacobi, "ritz": ritz}


def run(h, emit):
	for op in h["ops"]:
		c = op["c"]
		if op["op"] == "call":
			emit({"op": "call", "c": c})
			ok, r = attempt(lambda: observe(c, call(c, op["stream"], emit)))
			emit({"op": "return", "ok": ok, **(r if ok else {"exc": r})})
		elif op["op"] == "signs":
			# the complete space of sign vectors, one estimate per vector
			n = c["n"] if "term" in c else len(c["A"])
			k = op.get("k", 1)
			emit({"op": "call", "c": c})
			pre = op.get("pre", [])
			cnt = 0
			for s in itertools.product(["1", "-1"], repeat=n * k):
				vs = [list(s[i * n : (i + 1) * n]) for i in range(k)]
				ok, r = attempt(lambda: arr(call(c, pre + vs, emit, quiet=True)[0]))
				emit({"op": "sign", "s": "".join("+" if t == "1" else "-" for t in s), "ok": ok, "est": r if ok else {"sh": [], "v": ["nan"]}})
				cnt += 1
			emit({"op": "allsigns", "n": cnt, "tag": op["tag"]})
		elif op["op"] in ("apply", "jacobi", "ritz"):
			emit({"op": "call", "c": c})
			ok, r = attempt(SOLO[op["op"]], c, op)
			emit({"op": op["op"], "ok": ok, **{k: op[k] for k in ("V", "many", "v", "deg") if k in op}, **(r if ok else {"exc": r})})
		elif op["op"] == "same":
			emit({"op": "call", "c": c})
			for k, d in enumerate(op["variants"]):
				cc = {**c, **d}

				def vals():
					est, res = call(cc, op["stream"], emit, quiet=True)
					if cc["alg"] == "hutchpp":
						return [num(est)] if res is None else [num(est)] + [num(t) for t in np.ravel(res.samples)[-len(res.samples) // 2 :]][:0]
					if res is not None and cc["rec"]:
						return [num(t) for v in res.estimator.values for t in np.ravel(v)]
					return [num(t) for t in np.ravel(est)]

				ok, r = attempt(vals)
				emit({"op": "same", "ok": ok, "vals": r if ok else [], "eps": op["eps"], "what": {a: str(b) for a, b in d.items()}, **({} if ok else {"exc": r})})
