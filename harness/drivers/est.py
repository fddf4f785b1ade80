"""Mean / Covariance / MeanEstimator / ControlVariableEstimator histories."""

import numpy as np
from primate.estimators import MeanEstimator
from primate.stats import Covariance, Mean

from .enc import arr, attempt, num, unarr


def make(op):
	k, d = op["k"], op["dim"]
	if k == "mean":
		return Mean() if d == 1 and op.get("bare") else Mean(d)
	if k == "cov":
		return Covariance() if d == 1 and op.get("bare") else Covariance(dim=d)
	return MeanEstimator(dim=d, covariance=(k == "estcov"), record=op["rec"])


def inner(o):
	"""The covariance an estimator keeps is not part of its interface: looked up by type, not by name."""
	return next((v for v in vars(o).values() if isinstance(v, Covariance)), None)


def read(k, o, dd=(0, 1, 2)):
	ev = {"dd": [str(j) for j in dd]}
	ev["n"] = int(len(o)) if k.startswith("est") else int(o.n)
	if k.startswith("est"):
		ev["mean"], ev["est"], ev["delta"] = arr(o.mean), arr(o.estimate), arr(o.delta)
		ev["nvals"] = -1 if o.values is None else len(o.values)
		ev["vals"] = [] if o.values is None else [arr(np.ravel(v)) for v in o.values]
	else:
		ev["mean"] = arr(o.mean())
		b = arr(o()) if k == "mean" else None
		if b is not None and b != ev["mean"]:
			ev["mean"] = {"sh": [-1], "v": ["nan", "nan"]}
	if k in ("cov", "estcov"):
		c = o if k == "cov" else inner(o)
		if c is None:
			ev["cov"], ev["covdef"] = [], True
			return ev
		ev["cov"] = [arr(c(ddof=j)) for j in dd]
		ev["covdef"] = arr(c()) == arr(c(ddof=1)) and arr(c.covariance()) == arr(c(ddof=1))
	return ev


def shape_input(op, rows, d, dtype):
	"""The same observations in one of the forms the API accepts."""
	form = op.get("form", "2d")
	X = unarr(rows, dtype=dtype)
	if d == 1 and form == "flat":
		return X.ravel()
	if d == 1 and form == "scalar" and len(rows) == 1:
		return X.ravel()[0].item()
	if d == 1 and form == "list":
		return X.ravel().tolist()
	if form == "list":
		return X.tolist()
	if form == "F":
		return np.asfortranarray(X)
	if form == "strided":
		Y = np.zeros((2 * X.shape[0], 2 * X.shape[1]), dtype=dtype)
		Y[::2, ::2] = X
		return Y[::2, ::2]
	return X


def run(h, emit):
	dtype = np.dtype(h.get("cfg", {}).get("dtype", "f8"))
	objs, ks, bufs, snaps = {}, {}, {}, []

	dd = h.get("cfg", {}).get("dd", [0, 1, 2])
	quiet = h.get("cfg", {}).get("quiet", False)  # look at the estimators at the end only

	def reads(names):
		for o in names:
			ok, r = attempt(read, ks[o], objs[o], dd)
			emit({"op": "read", "o": o, "ok": ok, **(r if ok else {"exc": r})})
		for i, s in enumerate(snaps, 1):
			emit({"op": "snapcheck", "i": i, "o": "", "val": arr(s)})

	for i, op in enumerate(h["ops"]):
		o = op["o"]
		if op["op"] == "new":
			ok, r = attempt(make, op)
			if ok:
				objs[o], ks[o] = r, op["k"]
			emit({**op, "ok": ok})
			if not ok:
				return
			op["dim"] = op["dim"]
		elif op["op"] in ("update", "badupdate"):
			d = len(op["rows"][0])
			X = shape_input(op, op["rows"], d, dtype) if op["op"] == "update" else unarr(op["rows"])
			bufs[o] = X
			ok, r = attempt(objs[o].update, X)
			emit({"op": op["op"], "o": o, "rows": op["rows"], "ok": ok, "exc": "" if ok else r})
		elif op["op"] == "snap":
			s = objs[o].estimate if ks[o].startswith("est") else objs[o]()if ks[o] == "mean" else objs[o].mean()
			snaps.append(s)
			emit({"op": "snap", "o": o, "val": arr(s)})
		elif op["op"] == "scribble":
			if isinstance(bufs.get(o), np.ndarray):
				bufs[o][...] = 99
			emit({"op": "scribble", "o": o})
		if not quiet or i == len(h["ops"]) - 1:
			reads(sorted(objs))
