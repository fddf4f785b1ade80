"""Calls with operators that count the vectors they are multiplied with."""

import threading

import numpy as np
from primate import operators as po
from primate.diagonal import diag, xdiag
from primate.estimators import ConfidenceCriterion, CountCriterion, ToleranceCriterion
from primate.lanczos import lanczos, rayleigh_ritz
from primate.trace import hutch, hutchpp, xtrace
from scipy.sparse.linalg import LinearOperator

from .enc import attempt, unarr


class Book:
	def __init__(self, n):
		self.n, self.cols, self.form, self.open, self.thread = n, 0, True, False, threading.get_ident()

	def note(self, x):
		x = np.asarray(x)
		ok = x.ndim in (1, 2) and x.shape[0] == self.n and x.dtype.kind == "f" and bool(np.isfinite(x).all())
		self.form &= ok and self.open and threading.get_ident() == self.thread
		self.cols += 1 if x.ndim < 2 else x.shape[1]


class Duck:
	"""The least an operator can be: neither entries nor an array."""

	def __init__(self, M, book, methods):
		self.M, self.book, self.methods = M, book, methods

	def __getattr__(self, name):
		if name == "shape":
			return self.M.shape
		if name == "dtype" and "dtype" in self.methods:
			return self.M.dtype
		if name in ("matvec", "T") and name in self.methods:
			return self.matvec_ if name == "matvec" else type(self)(self.M.T, self.book, self.methods)
		raise AttributeError(name)

	def matvec_(self, x):
		self.book.note(x)
		return self.M @ x


class Mat(Duck):
	def __matmul__(self, x):
		self.book.note(x)
		return self.M @ x


class Linop(LinearOperator):
	def __init__(self, M, book):
		self.M, self.book = M, book
		super().__init__(M.dtype, M.shape)

	def _matvec(self, x):
		self.book.note(x)
		return self.M @ x

	def _matmat(self, X):
		self.book.note(X)
		return self.M @ X

	def _adjoint(self):
		return self


def wrap(M, rep, book):
	if rep == "linop":
		return Linop(M, book)
	methods = {"duck": ("matvec", "dtype"), "mat": ("dtype",), "both": ("matvec", "dtype", "T")}[rep]
	return (Duck if rep == "duck" else Mat)(M, book, methods)


CRIT = {"count": CountCriterion, "tolerance": ToleranceCriterion, "confidence": ConfidenceCriterion}


def run(h, emit):
	cfg = h["cfg"]
	M = unarr(cfg["A"])
	n = len(M)
	book = Book(n)
	A = wrap(M, cfg["rep"], book)
	held = {}
	for op in h["ops"]:
		fn, a = op["fn"], op.get("args", {})
		c = {"alg": op["alg"], "dim": n, "cost": op.get("cost", 1), "m": a.get("m") or 0, "deg": op.get("deg", 0), "many": op.get("many", 1)}
		marks, ret = [], {"nit": 0}
		X = held["F"] if op.get("on") == "F" else A
		kw = {k: v for k, v in a.items() if k in ("batch", "seed", "m", "mode", "full", "pdf", "record")}
		if "crit" in a:
			kw["converge"] = CRIT[a["crit"]["k"]](**a["crit"]["args"])
			if "cap" in a:
				kw["converge"] = kw["converge"] | CountCriterion(a["cap"])
		if a.get("cb"):
			kw["callback"] = lambda r: marks.append([int(r.nit), book.cols - start])
		if fn in ("hutch", "diag", "xtrace") and "crit" in a:
			kw["full"] = True
		start = book.cols
		book.form, book.open = True, True

		def go():
			if fn in ("hutch", "diag", "xtrace"):
				_, r = {"hutch": hutch, "diag": diag, "xtrace": xtrace}[fn](X, **kw)
				ret["nit"] = int(r.nit)
			elif fn == "hutchpp":
				hutchpp(X, **kw)
			elif fn == "xdiag":
				xdiag(X, **kw)
			elif fn == "lanczos":
				lanczos(X, v0=unarr(op["v"]), deg=op["deg"], orth=op["orth"], return_basis=op["basis"])
			elif fn == "ritz":
				rayleigh_ritz(X, v0=unarr(op["v"]), deg=op["deg"], orth=op["orth"], return_eigenvectors=op["vecs"], return_basis=op["basis"])
			elif fn == "make":
				held["F"] = po.MatrixFunction(A, fun=op["fun"], deg=op["deg"], orth=op["orth"])
			elif fn == "setfun":
				held["F"].fun = np.exp
			elif fn == "look":
				F = held["F"]
				return F.shape, F.dtype, repr(F)
			elif fn == "apply":
				V = unarr(op["V"]).T
				held["F"] @ (V if op["block"] else V[:, 0])
			elif fn == "quad":
				V = unarr(op["V"]).T
				held["F"].quad(V if op["block"] else V[:, 0])
			elif fn == "unit":
				held["U"] = po.normalize_unit(A)
			elif fn == "times":
				V = unarr(op["V"]).T
				held["U"] @ (V if op["block"] else V[:, 0])

		ok, r = attempt(go)
		book.open = False
		if fn == "unit":  # the power iteration has no budget
			emit({"op": fn, "c": c, "ok": ok, "cols": 0, "form": True, "nit": 0, "marks": [], **({} if ok else {"exc": r})})
			continue
		ev = {"op": fn, "c": c, "ok": ok, "cols": book.cols - start, "form": book.form, "nit": ret["nit"], "marks": marks}
		if ok and not op.get("skip"):
			V = [op["v"]] if "v" in op else op["V"] if fn in ("apply", "quad") else None
			if V:
				ev.update(A=cfg["A"], V=V)
		emit(ev if ok else {**ev, "exc": r})
