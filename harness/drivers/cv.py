"""ControlVariableEstimator histories."""

import numpy as np
from primate.estimators import ControlVariableEstimator, CountCriterion, ToleranceCriterion

from .enc import arr, attempt, num, unarr, unnum


def make(ecv, alpha, form, rec):
	e = unarr(ecv)
	a = None if not alpha else unarr(alpha)
	if form == "scalar" and len(ecv) == 1:
		e = float(e[0])
		a = None if a is None else float(a[0])
	elif form == "list":
		e = e.tolist()
		a = None if a is None else a.tolist()
	return ControlVariableEstimator(ecv=e, alpha=a, **({"record": True} if rec else {}))


def as_form(X, form):
	if form == "F":
		return np.asfortranarray(X)
	if form == "list":
		return X.tolist()
	if form == "strided":
		Y = np.zeros((2 * X.shape[0], 3 * X.shape[1]))
		Y[::2, ::3] = X
		return Y[::2, ::3]
	return X


def run(h, emit):
	cfg = h["cfg"]
	rec = cfg.get("rec", False)
	ok, o = attempt(make, cfg["ecv"], cfg["alpha"], cfg.get("form", "array"), rec)
	emit({"op": "new", "ecv": cfg["ecv"], "alpha": cfg["alpha"], "rec": rec, "ok": ok})
	if not ok:
		return
	ok, r = attempt(lambda: {"n": len(o), "est": num(o.estimate), "tol": "T" if ToleranceCriterion(atol=1e6, rtol=0.0)(o) else "F"})
	emit({"op": "fresh", "ok": ok, **(r if ok else {"n": -1, "est": "", "tol": "", "exc": r})})
	keep, snaps = [], []

	def vals():
		return {"nvals": -1 if o.values is None else len(o.values), "vals": [] if o.values is None else [arr(np.ravel(v)) for v in o.values]}

	def whole():
		return (num(o.estimate), [num(v) for v in np.ravel(o.delta)], len(o), vals())

	for op in h["ops"]:
		if op["op"] == "refuse":
			ok, r = attempt(ControlVariableEstimator, ecv=[0.0, 1.0], alpha=[0.5])
			emit({"op": "refuse", "ok": ok})
			continue
		if op["op"] == "other":  # a second estimator of the same kind lives its own life
			def elsewhere():
				z = ControlVariableEstimator(ecv=np.full(len(cfg["ecv"]), 3.0), alpha=op["alpha"] or None)
				z.update(np.random.default_rng(op["seed"]).normal(size=(4 + 2 * len(cfg["ecv"]), 1 + len(cfg["ecv"]))))
				keep.append(z)
				return z.estimate

			ok, r = attempt(elsewhere)
			emit({"op": "other", "ok": ok})
			continue
		if op["op"] == "badupdate":
			before = whole()
			ok, r = attempt(o.update, unarr(op["rows"]))
			emit({"op": "badupdate", "ok": ok, "kept": whole() == before, "n": len(o), **vals()})
			continue
		X = as_form(unarr(op["rows"]), op.get("form", "2d"))
		atol = op.get("atol", "1/8")

		def step():
			o.update(X)
			if isinstance(X, np.ndarray):
				X[...] = 77.0  # the caller reuses its buffer
			if op.get("quiet"):
				return {}
			e, d = o.estimate, np.ravel(o.delta)
			snaps.append((o.delta, np.array(o.delta), list(o.values or []), [np.array(v) for v in o.values or []]))
			return {**vals(), "n": len(o), "est": num(e), "scalar": np.ndim(e) == 0, "delta": num(d[0]) if d.size == 1 else "nan", "again": num(o.estimate) == num(e),
				"tol": "T" if ToleranceCriterion(atol=unnum(atol), rtol=0.0)(o) else "F", "count": "T" if CountCriterion(len(o))(o) and not CountCriterion(len(o) + 1)(o) else "F"}

		ok, r = attempt(step)
		emit({"op": "silent" if op.get("quiet") else "update", "rows": op["rows"], "atol": atol, "ok": ok, **(r if ok else {"exc": r})})
		if not ok:
			return
		same = all(np.array_equal(d, d0, equal_nan=True) and len(v) == len(v0) and all(map(np.array_equal, v, v0)) for d, d0, v, v0 in snaps)
		emit({"op": "snapcheck", "ok": same})
