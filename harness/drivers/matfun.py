"""Matrix-function operators: applications, quadratic forms, function changes, in one operator's life."""

import numpy as np
from primate.operators import MatrixFunction, matrix_function

from .enc import arr, attempt, unarr
from .fun import params, resolve
from .trace import represent


def make(c, A, f):
	form = c.get("form", "callable")
	kw = {}
	if form == "name" and f["name"] not in ("poly", "step"):
		fun = f["name"]
		kw = params(f)
	elif form == "none" and f["name"] == "identity":
		fun = None
	else:
		fun = resolve(f, "name" if f["name"] != "step" else "factory")
	if c.get("prec") == 32:
		kw["dtype"] = np.float32
	if "orth" in c:
		kw["orth"] = c["orth"]
	if c.get("via") == "matrix_function":  # passes no parameters on
		if form == "name" and params(f):
			fun = resolve(f, "name")
		return matrix_function(A, fun=fun, deg=c["deg"])
	return MatrixFunction(A, fun=fun, deg=c["deg"], **kw)


def vecs(op, dt):
	X = np.array([[float(t) for t in unarr(v)] for v in op["V"]], dtype=dt).T
	X = X.astype(op.get("vdtype", dt))
	lay = op.get("layout", "C")
	if lay == "F":
		X = np.asfortranarray(X)
	elif lay == "strided":
		w = np.zeros((2 * X.shape[0], 2 * X.shape[1]), dtype=X.dtype)
		w[::2, ::2] = X
		X = w[::2, ::2]
	else:
		X = np.ascontiguousarray(X)
	if op["many"]:
		return X
	return X if op.get("column") else X[:, 0]


def call(M, op, X, c, A, f):
	if op["op"] == "quad":
		return M.quad(X)
	how = op.get("how", "matmul")
	if how == "matvec":
		return M.matvec(X)
	if how == "matmat":
		return M.matmat(X)
	if how == "dot":
		return M.dot(X)
	if how == "adjoint":
		return M.H @ X
	if how == "rmatvec":
		return M.rmatvec(X)
	if how == "function":
		return matrix_function(A, fun=resolve(f, "name"), v=X, deg=c["deg"])
	return M @ X


def run(h, emit):
	c = h["cfg"]
	dt = np.dtype("float32" if c.get("prec") == 32 else "float64")
	A = represent(unarr(c["A"], dtype=np.dtype(c.get("adtype", "float64"))), c["rep"])
	f = c["f"]
	ok, M = attempt(make, c, A, f)
	emit({"op": "info", "ok": ok, **({"degree": int(M.degree), "shape": [int(t) for t in M.shape]} if ok else {"exc": M})})
	if not ok:
		return
	results, last = [], None
	for op in h["ops"]:
		if op["op"] == "setfun":
			f = op["f"]

			def setf():
				M.fun = resolve(f, "name" if f["name"] != "step" else "factory")

			ok, r = attempt(setf)
			emit({"op": "setfun", "f": f, "ok": ok})
			continue
		if op["op"] == "reread":
			emit({"op": "reread", "ys": [arr(y) for y in results]})
			continue
		X = vecs(op, dt)
		if op.get("reuse") and last is not None and last.shape == X.shape and last.dtype == X.dtype:
			last[...] = X  # the caller's own array, refilled in place
			X = last
		last = X
		X0 = X.copy()
		ok, y = attempt(call, M, op, X, c, A, f)
		ev = {"op": op["op"], "V": op["V"], "many": op["many"], "column": bool(op.get("column")), "how": op.get("how", "matmul"), "ok": ok}
		if ok:
			y = np.asarray(y)
			results.append(y)
			ev.update(y=arr(y), kept=bool(np.array_equal(X, X0)))
			if op.get("fresh"):
				ok2, y2 = attempt(lambda: call(make(c, A, f), op, X0.copy(), c, A, f))
				if ok2:
					ev["fresh"] = arr(y2)
		else:
			ev["exc"] = y
		emit(ev)
