"""What criteria print, and what full results say about the computation they belong to."""

import re

import numpy as np
from primate.diagonal import diag
from primate.estimators import ControlVariableEstimator, EstimatorResult, MeanEstimator
from primate.trace import hutch, xtrace

from .crit import build, snapshot
from .enc import arr, attempt, num, unarr, unnum

NUM = r"(?:nan|[-+]?inf|[-+]?\d[\d.]*(?:e[-+]?\d+)?)"


def printed(t):
	t = t.strip()
	if t in ("...", "nan", "None"):
		return {"p": t, "d": 2}
	if t.lstrip("+-") == "inf":
		return {"p": num(float(t)), "d": 2}
	if not re.fullmatch(NUM, t):
		return {"p": "nan", "d": 99}
	m, _, e = t.partition("e")
	from fractions import Fraction

	f = Fraction(t)
	return {"p": str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}", "d": len(m.partition(".")[2]) - int(e or 0)}


def parse(msg):
	"""The numbers in a message; what is absent is an empty sequence."""
	if not isinstance(msg, str):
		return {"text": False}
	out = {"text": True, "empty": msg == ""}
	m = re.search(rf"Est:\s*(\[[^\]]*\]|None|{NUM})", msg)
	out["est"] = [] if m is None else [printed(t) for t in m.group(1).strip("[]").split(",") if t.strip()]
	for k, p in {
		"count": r"#S:\s*(\d+)", "atol": rf"atol=\s*({NUM})", "rtol": rf"rtol=\s*({NUM})", "S": rf"[, ]S=\s*({NUM})", "margin": rf"\+/-\s*({NUM})",
		"conf": rf"\(({NUM})% CI", "error": rf"norm\(it - est, [^)]*\) = ({NUM})", "norm": rf"norm\(est, [^)]*\) = ({NUM})",
	}.items():
		m = re.findall(p, msg)
		out[k] = [printed(t) for t in m]
	return out


class Latest:
	"""A user's estimator: the latest sample is the estimate; there is none at first."""

	def __init__(self, dim):
		self.n_samples, self.values, self.delta, self._est = 0, None, np.full(dim, np.inf), None

	def __len__(self):
		return self.n_samples

	def update(self, x):
		x = np.atleast_2d(x)
		self.delta = x[-1] if self._est is None else x[-1] - self._est
		self._est = x[-1].copy()
		self.n_samples += x.shape[0]

	@property
	def estimate(self):
		return None if self._est is None else (self._est.item() if len(self._est) == 1 else self._est)


def est_arr(e):
	return {"none": True} if e is None else arr(e)


def state(o):
	return {"n": len(o), "est": est_arr(o.estimate)}


def snap(o):
	return [len(o), est_arr(o.estimate), arr(o.delta), None if o.values is None else [arr(v) for v in o.values]]


class Stop(Exception):
	pass


def loop(op, cache):
	A = unarr(op["A"])
	c = build(op["f"], cache)
	seen = []

	def note(r):
		seen.append({"nit": int(r.nit), "est": arr(r.estimate), **state(r.estimator)})
		seen[-1]["len"] = seen[-1].pop("n")
		seen[-1]["eest"] = arr(r.estimator.estimate)
		if len(seen) > 400:
			raise Stop()

	kw = {"converge": c, "seed": op["seed"], "full": True}
	if op["cb"]:
		kw["callback"] = note
	if op["fn"] != "diag":
		kw["batch"] = op["batch"]
	fn = {"hutch": hutch, "diag": diag, "xtrace": xtrace}[op["fn"]]
	out = fn(A, pdf=op["pdf"], **kw)
	est, r = out
	assert isinstance(out, tuple) and isinstance(r, EstimatorResult)
	six = list(r)
	return {
		"est": arr(est), "rest": arr(r.estimate), "eest": arr(r.estimator.estimate), "nit": int(r.nit), "len": len(r.estimator), "msg": parse(r.message),
		"again": bool(r.message == r.criterion.message(r.estimator)), "done": bool(r.criterion(r.estimator)), "crit": r.criterion is c,
		"six": len(six) == 6 and all(a is b for a, b in zip(six, (r.estimator, r.criterion, r.estimate, r.message, r.nit, r.info))),
		"seen": seen, "info": r.info == {},
	}


def run(h, emit):
	cache, o, kept = {}, None, []
	for op in h["ops"]:
		k = op["op"]
		if k == "new":
			o = (
				Latest(op["dim"]) if op["k"] == "latest"
				else ControlVariableEstimator(np.array([unnum(t) for t in op["ecv"]]), np.array([unnum(t) for t in op["alpha"]]))
				if op["k"] == "cv"
				else MeanEstimator(dim=op["dim"], covariance=op["k"] == "estcov", record=op["rec"])
			)
			emit(op)
		elif k == "update":
			ok, r = attempt(o.update, unarr(op["rows"]))
			emit({**op, "ok": ok, "exc": "" if ok else r})
		elif k == "message":
			before = snap(o)
			c = build(op["f"], cache)
			ok, r = attempt(c.message, o)
			ok2, r2 = attempt(c.message, o)
			emit({**op, "ok": ok and ok2, "exc": "" if ok else r, "same": r == r2, "untouched": snap(o) == before, "msg": parse(r) if ok else parse("")})
		elif k == "loop":
			ok, r = attempt(loop, op, cache)
			emit({**op, "ok": ok, **(r if ok else {"exc": r})})
		elif k == "info":  # notes made on one result stay there
			a, b = EstimatorResult(), EstimatorResult()
			a.info["note"] = 1
			emit({**op, "ok": True, "apart": b.info == {} and EstimatorResult().info == {}, "empty": [b.nit, b.message, num(b.estimate), b.estimator is None, b.criterion is None] == [0, "", "0", True, True]})
