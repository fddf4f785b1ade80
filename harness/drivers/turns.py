"""Several computations in progress, taking turns at their products, draws, function evaluations and callbacks."""

import hashlib
import threading

import numpy as np
import scipy.sparse as sps
from primate import operators as po
from primate import random as pr
from primate.diagonal import diag, xdiag
from primate.estimators import ConfidenceCriterion, ControlVariableEstimator, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion
from primate.integrate import quadrature
from primate.lanczos import lanczos, rayleigh_ritz
from primate.linalg import update_trinv
from primate.special import param_callable
from primate.trace import hutch, hutchpp, xtrace
from primate.tridiag import eigh_tridiag, eigvalsh_tridiag
from scipy.sparse.linalg import LinearOperator

from .enc import attempt, num
from .seeds import flat


def digest(x):
	x = np.asarray(x)
	return hashlib.sha256(repr(x.shape).encode() + np.ascontiguousarray(x).tobytes()).hexdigest()[:10]


def short(v):
	if len(v) <= 60:
		return v
	return v[:20] + [hashlib.sha256(repr(v).encode()).hexdigest()[:16]]


class Pausing:
	"""An operator that hands over control before each product."""

	def __init__(self, M, pause):
		self.M, self.pause, self.shape, self.dtype = M, pause, M.shape, M.dtype

	def __matmul__(self, x):
		self.pause(x)
		return self.M @ x

	def matvec(self, x):
		self.pause(x)
		return self.M @ x

	@property
	def T(self):
		return Pausing(self.M.T, self.pause)


def matrix(n, seed, dtype="float64"):
	g = np.random.Generator(np.random.PCG64(seed))
	M = np.round(g.normal(size=(n, n)) * 8) / 8
	return ((M + M.T) / 2 + np.diag(np.arange(1.0, n + 1))).astype(dtype)


CRIT = {"count": CountCriterion, "tolerance": ToleranceCriterion, "confidence": ConfidenceCriterion, "knee": KneeCriterion}


class Shared:
	"""What several jobs of a history may use at once: matrices, functions, criteria."""

	def __init__(self):
		self.held = {}

	def get(self, key, make):
		if key not in self.held:
			self.held[key] = make()
		return self.held[key]


def operator(j, pause, sh):
	n, seed, kind = j["n"], j["mseed"], j.get("kind", "matrix")
	M = sh.get(("M", n, seed, j.get("dtype")), lambda: matrix(n, seed, j.get("dtype") or "float64"))
	if kind == "csr":
		return Pausing(sh.get(("csr", n, seed), lambda: sps.csr_array(M)), pause)
	if kind == "linop":
		def mv(x):
			pause(x)
			return M @ x

		return LinearOperator(shape=M.shape, dtype=M.dtype, matvec=mv)
	if kind == "toeplitz":
		return Pausing(po.Toeplitz(M[0]), pause)
	if kind == "fun":
		return po.MatrixFunction(Pausing(M, pause), fun=spectral(j, pause, sh), deg=max(2, n - 1), orth=j.get("orth", 3))
	return Pausing(M, pause)


def spectral(j, pause, sh):
	f = sh.get(("f", j["fun"]), lambda: param_callable(j["fun"]))

	def g(x):
		pause(x)
		return f(x)

	return g if j.get("slowfun") else f


def sampler(j, pause):
	g = np.random.default_rng(j["seed"])

	def draw(size):
		pause(np.array(size))
		return np.where(g.random(size) < 0.5, -1.0, 1.0) if j["draw"] == "own" else pr.isotropic(size, pdf="normal", seed=g)

	return draw


def estimation(j, pause, sh):
	fn = j["fn"]
	A = operator(j, pause, sh)
	kw = {"seed": j["seed"]}
	kw["pdf"] = sampler(j, pause) if j["draw"] in ("own", "lib") else j["draw"]
	if fn in ("hutchpp", "xdiag"):
		kw["m"] = j["m"]
		if fn == "hutchpp":
			kw.update(mode=j["mode"], full=j["full"])
		r = {"hutchpp": hutchpp, "xdiag": xdiag}[fn](A, **kw)
		return flat(r)
	c = j["crit"]
	kw["converge"] = sh.get(("crit", repr(c)), lambda: CRIT[c["k"]](**c["args"])) | CountCriterion(12 if fn != "xtrace" else j["n"])
	if fn != "diag":
		kw["batch"] = j["batch"]
	if c["k"] == "knee" or j.get("rec"):
		kw["record"] = True
	seen = []
	if j["cb"]:

		def cb(r):
			pause(np.array(r.nit))
			seen.extend(flat([r.estimate, r.nit]))

		kw["callback"] = cb
	r = {"hutch": hutch, "diag": diag, "xtrace": xtrace}[fn](A, full=j["full"], **kw)
	out = flat(r) + seen
	if isinstance(r, tuple) and hasattr(r[1], "message"):
		out.append(r[1].message)
	return out


def expansion(j, pause, sh):
	A = operator(j, pause, sh)
	v = np.random.default_rng(j["seed"]).normal(size=j["n"])
	out = []
	for _ in range(j["times"]):
		kw = {} if j["draw"] == "seed" else {"v0": v}
		if j["fn"] == "lanczos":
			r = lanczos(A, deg=j["deg"], orth=j["orth"], return_basis=j["basis"], seed=j["seed"], **kw)
		else:
			r = rayleigh_ritz(A, deg=j["deg"], orth=j["orth"], method=j["method"], return_eigenvectors=j["basis"], seed=j["seed"], **kw)
		out += flat(r)
		v = np.roll(v, 1)
	return out


def function(j, pause, sh):
	A = operator({**j, "kind": j["under"]}, pause, sh)
	F = po.MatrixFunction(A, fun=spectral(j, pause, sh), deg=j["deg"], orth=j["orth"])
	v = np.random.default_rng(j["seed"]).normal(size=(j["n"], 2))
	out = []
	for o in j["ops"]:
		out += flat({"apply": lambda: F @ v[:, 0], "block": lambda: F @ v, "quad": lambda: F.quad(v)}[o]())
		v = v[::-1].copy()
	return out


def sequence(j, pause, sh):
	g = np.random.default_rng(j["seed"])
	n, out = j["n"], []
	w = j["what"]
	if w == "toeplitz":
		T = po.Toeplitz(g.normal(size=n), g.normal(size=n))
	elif w == "factory":
		T = pr.isotropic(pdf=j["pdf"], seed=j["seed"])
	elif w == "threads":
		T = pr.Isotropic((n, 40), pdf=j["pdf"], seed=j["seed"], threads=2)
	elif w == "estimator":
		T = {"mean": lambda: MeanEstimator(dim=2, record=True), "cov": lambda: MeanEstimator(dim=2, covariance=True), "cv": lambda: ControlVariableEstimator(ecv=0.5)}[j["est"]]()
	elif w == "trinv":
		T = np.zeros((0, 0))
	for i in range(j["times"]):
		pause(np.array(i))
		if w == "toeplitz":
			out += flat(T @ g.normal(size=n) if i % 2 else T @ g.normal(size=(n, 2)))
		elif w == "factory":
			out += flat(T((n, 3)))
		elif w == "threads":
			T.fill()
			out += flat(T.values)
		elif w == "estimator":
			T.update(g.normal(size=(3, 2)))
			out += flat(T.estimate) + flat(T.delta)
		elif w == "trinv":
			b = g.normal(size=i + 1)
			b[-1] += 3
			T = update_trinv(T, b)
			out += flat(T)
		elif w == "tri":
			d, e = g.normal(size=n), 0.5 + g.random(n - 1)
			out += flat(eigvalsh_tridiag(d, e, method=j["method"])) + flat(np.abs(eigh_tridiag(d, e, method=j["method"])[1]))
		elif w == "quadrature":
			d, e = g.normal(size=n), 0.5 + g.random(n - 1)
			out += flat(quadrature(d, e, quad=j["quad"]))
		elif w == "isotropic":
			out += flat(pr.isotropic((n, 3), pdf=j["pdf"], seed=g))
		elif w == "matrices":
			out += flat(pr.symmetric(n, seed=g, pd=bool(i % 2))) + flat(pr.haar(n, seed=g))
		elif w == "special":
			x = g.normal(size=n)
			for f in ("softsign", "smoothstep", "exp", "numrank", "abs"):
				out += flat(sh.get(("f", f), lambda: param_callable(f))(x))
	return out


KINDS = {"estimation": estimation, "expansion": expansion, "function": function, "sequence": sequence}


class Turns:
	"""The jobs of a history, in threads of which one runs at a time."""

	def __init__(self, jobs, sh, order, emit):
		self.jobs, self.sh, self.order, self.emit = jobs, sh, order, emit
		self.go = [threading.Semaphore(0) for _ in jobs]
		self.back = threading.Semaphore(0)
		self.alive = [True] * len(jobs)

	def work(self, p):
		self.go[p].acquire()

		def pause(x):
			self.emit({"op": "turn", "p": p + 1, "x": digest(x)})
			self.back.release()
			self.go[p].acquire()

		ok, r = attempt(KINDS[self.jobs[p]["job"]], self.jobs[p], pause, self.sh)
		self.emit({"op": "end", "p": p + 1, "ok": ok, "v": short(r) if ok else [], **({} if ok else {"exc": r})})
		self.alive[p] = False
		self.back.release()

	def run(self):
		ts = [threading.Thread(target=self.work, args=(p,), daemon=True) for p in range(len(self.jobs))]
		for t in ts:
			t.start()
		for p in self.order:
			if self.alive[p]:
				self.turn(p)
		for p in range(len(self.jobs)):
			while self.alive[p]:
				self.turn(p)
		for t in ts:
			t.join()

	def turn(self, p):
		self.go[p].release()
		self.back.acquire()


def alone(jobs, emit, shared):
	for p, j in enumerate(jobs):
		seen = []
		ok, r = attempt(KINDS[j["job"]], j, lambda x: seen.append(digest(x)), shared or Shared())
		emit({"op": "alone", "p": p + 1, "ok": ok, "pauses": seen, "v": short(r) if ok else [], **({} if ok else {"exc": r})})


def run(h, emit):
	op = h["ops"][0]
	sh = Shared()
	if op["first"] == "alone":
		alone(op["jobs"], emit, sh if op["keep"] else None)
	Turns(op["jobs"], sh, op["order"], emit).run()
	if op["first"] != "alone":
		alone(op["jobs"], emit, sh if op["keep"] else None)
