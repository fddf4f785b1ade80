"""Triangular inverses, Toeplitz products and normalized operators, in histories of calls on kept objects."""

import numpy as np
from primate.linalg import update_trinv
from primate.operators import Toeplitz, normalize_unit

from .enc import arr, attempt, unarr
from .matfun import vecs
from .trace import represent


def trinv(h, emit):
	dt = np.float32 if h["cfg"].get("prec") == 32 else np.float64
	vers = [np.zeros((0, 0), dtype=dt)]
	snaps = [vers[0].copy()]
	same = lambda: all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(vers, snaps))
	for op in h["ops"]:
		M = vers[op["of"] - 1]
		if op["op"] == "refuse":
			b = np.ones(len(M) + 1, dtype=dt)
			if op["what"] == "short":
				b = b[:-1]
			elif op["what"] == "long":
				b = np.ones(len(M) + 2, dtype=dt)
			elif op["what"] == "nonsquare":
				M = np.vstack([M, np.zeros((1, M.shape[1]), dtype=dt)])
			elif op["what"] == "dtype":
				b = b.astype(np.float64 if dt == np.float32 else np.float32)
			ok, r = attempt(update_trinv, M, b)
			emit({"op": "refuse", "what": op["what"], "ok": ok, "kept": bool(same())})
			continue
		b = unarr(op["b"], dtype=dt).reshape(-1)
		form = op.get("form", "flat")
		if form == "column":
			b = b.reshape(-1, 1)
		elif form == "strided":
			w = np.full(3 * len(b), 9.0, dtype=dt)
			w[::3] = b
			b = w[::3]
		elif form == "fortran":
			M = np.asfortranarray(M)
		b0 = b.copy()
		ok, r = attempt(update_trinv, M, b)
		ev = {"op": "append", "of": op["of"], "b": op["b"], "ok": ok}
		if ok:
			ev.update(M=arr(r), kept=bool(same()), arg=bool(np.array_equal(b, b0)))
			vers.append(np.asarray(r))
			snaps.append(np.array(r))
		else:
			ev["exc"] = r
		emit(ev)
		if not ok:
			return


def products(h, emit, make):
	c = h["cfg"]
	dt = np.float32 if c.get("prec") == 32 else np.float64
	ok, T = attempt(make)
	if not ok:
		return emit({"op": h["kind"], "ok": False, "exc": T, "V": [], "many": False, "column": False})
	results = []
	for op in h["ops"]:
		if op["op"] == "reread":
			emit({"op": "reread", "ys": [arr(y) for y in results]})
			continue
		if op["op"] == "poke":  # the caller reuses its own arrays
			for a in make.args:
				a[...] = 99
			continue
		if op["op"] == "refuse":
			x = np.ones(max(0, len(c["c"]) + op["by"]))
			ok, y = attempt(lambda: T.matvec(x) if op.get("how") == "matvec" else T @ x)
			emit({"op": "refuse", "ok": ok, "kept": True})
			continue
		X = vecs(op, dt)
		if op.get("int"):
			X = X.astype(np.int64)
		X0 = X.copy()
		how = op.get("how", "matmul")
		f = {"matvec": lambda: T.matvec(X), "matmat": lambda: T.matmat(X), "dot": lambda: T.dot(X), "matmul": lambda: T @ X}[how]
		ok, y = attempt(f)
		ev = {"op": op["op"], "V": op["V"], "many": op["many"], "column": bool(op.get("column")), "how": how, "ok": ok}
		if ok:
			y = np.asarray(y)
			results.append(y)
			ev.update(y=arr(y), kept=bool(np.array_equal(X, X0)))
		else:
			ev["exc"] = y
		emit(ev)


class MakeToeplitz:
	def __init__(self, c):
		dt = np.float32 if c.get("prec") == 32 else np.float64
		self.c = unarr(c["c"], dtype=np.int64 if c.get("int") or c.get("cint") else dt).reshape(-1)
		self.r = unarr(c["r"], dtype=np.int64 if c.get("int") or c.get("rint") else dt).reshape(-1)
		self.sym, self.dt = c.get("sym"), dt
		if c.get("view"):
			self.c, self.r = np.repeat(self.c, 2)[::2], np.repeat(self.r, 2)[::2]
		self.args = [self.c, self.r]

	def __call__(self):
		kw = {} if self.dt == np.float64 else {"dtype": self.dt}
		return Toeplitz(self.c, **kw) if self.sym else Toeplitz(self.c, self.r, **kw)


def run(h, emit):
	if h["kind"] == "trinv":
		return trinv(h, emit)
	if h["kind"] == "mul":
		return products(h, emit, MakeToeplitz(h["cfg"]))
	c = h["cfg"]
	A = represent(unarr(c["A"], dtype=np.float32 if c.get("prec") == 32 else np.float64), c["rep"])
	products(h, emit, lambda: normalize_unit(A))
