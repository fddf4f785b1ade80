"""Eigenvalues and quadrature rules of symmetric tridiagonal matrices."""

import numpy as np
from primate.integrate import quadrature
from primate.tridiag import eigh_tridiag, eigvalsh_tridiag

from .enc import arr, attempt, unarr


def layout(x, how):
	if how == "strided":
		w = np.full(3 * len(x) + 1, 7.0, dtype=x.dtype)
		w[1::3] = x
		return w[1::3]
	if how == "reversed":
		return x[::-1].copy()[::-1]
	return x


def run(h, emit):
	for op in h["ops"]:
		dt = np.float32 if op["prec"] == 32 else np.float64
		d = layout(unarr(op["d"], dtype=dt).reshape(-1), op.get("layout"))
		b = unarr(op["b"], dtype=dt).reshape(-1)
		e = layout(np.append(np.zeros(1, dtype=dt), b) if op["form"] == "n" else b, op.get("layout"))
		d0, e0 = d.copy(), e.copy()
		kept = lambda: bool(np.array_equal(d, d0) and np.array_equal(e, e0))
		ev = {k: v for k, v in op.items()}
		kw = {k: op[k] for k in ("method", "maxiter") if op.get(k)}
		if op["op"] == "eig":
			ok, r = attempt(lambda: (eigh_tridiag if op["vecs"] else eigvalsh_tridiag)(d, e, **kw))
			if ok:
				w, Z = r if op["vecs"] else (r, None)
				ev["w"] = arr(w)
				if Z is not None:
					ev["Z"] = arr(Z)
		else:
			if op["deg"]:
				kw["deg"] = op["deg"]
			if op["name"]:
				kw["quad"] = op["name"]
			k = len(d) if op["deg"] == 0 else min(op["deg"], len(d))
			nodes = weights = None
			if op["out"]:
				nodes, weights = np.full(k, 3.25, dtype=dt), np.full(k, -1.5, dtype=dt)
				if op["out"] == 2:  # views into larger arrays, as a caller with a workspace has them
					nodes, weights = np.full(2 * k, 3.25, dtype=dt)[::2], np.full(k + 3, -1.5, dtype=dt)[:k]
				kw.update(nodes=nodes, weights=weights)
			ok, r = attempt(lambda: quadrature(d, e, **kw))
			if ok:
				ev["x"], ev["w"] = arr(r[0]), arr(r[1])
				if op["out"]:
					ev["ox"], ev["ow"] = arr(nodes), arr(weights)
			ev["out"] = bool(op["out"])
		ev.update(ok=ok, kept=kept())
		if not ok:
			ev["exc"] = r
		emit(ev)
