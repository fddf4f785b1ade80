"""Convergence criteria asked along estimator histories."""

import json
import re

import numpy as np
from primate.estimators import (
	ConfidenceCriterion,
	ConvergenceCriterion,
	CountCriterion,
	KneeCriterion,
	MeanEstimator,
	ToleranceCriterion,
	convergence_criterion,
)

from .enc import arr, attempt, num, unarr, unnum

ORD = {"1": 1, "2": 2.0, "inf": np.inf, "-inf": -np.inf, "none": None, "3": 3.0}


def build(f, cache):
	key = json.dumps(f, sort_keys=True)
	if key not in cache:
		k = f["k"]
		if k == "count":
			c = CountCriterion(f["c"])
		elif k == "tol":
			c = ToleranceCriterion(rtol=unnum(f["rtol"]), atol=unnum(f["atol"]), ord=ORD[f["ord"]])
		elif k == "conf":
			c = ConfidenceCriterion(confidence=float(f["lev"]), atol=unnum(f["atol"]), rtol=unnum(f["rtol"]))
		elif k == "knee":
			c = KneeCriterion(S=unnum(f["S"]))
		elif k == "every":  # a criterion made from a function
			m = f["m"]
			c = ConvergenceCriterion((lambda est: np.bool_(len(est) % m == 0)) if f["np"] else (lambda est: len(est) % m == 0))
		elif k == "or":
			c = build(f["a"], cache) | build(f["b"], cache)
		elif k == "and":
			c = build(f["a"], cache) & build(f["b"], cache)
		elif k == "not":
			c = ~build(f["a"], cache)
		cache[key] = c
	return cache[key]


def snapshot(o):
	return [len(o), arr(o.estimate), arr(o.delta), None if o.values is None else [arr(v) for v in o.values]]


def tf(x):
	return "T" if bool(x) else "F"


def pyargs(kw):
	out = {}
	for k, v in kw.items():
		if k == "ord":
			out[k] = ORD[v]
		elif k == "confidence":
			out[k] = float(v)
		elif isinstance(v, str) and k in ("atol", "rtol", "S"):
			out[k] = unnum(v)
		else:
			out[k] = v
	return out


def ask(c, o):
	before = snapshot(o)
	a = c(o)
	b = c(o)
	d = c(o)
	return {"ans": tf(a), "bool": isinstance(a, (bool, np.bool_)), "same": bool(a) == bool(b) == bool(d), "untouched": snapshot(o) == before}


def run(h, emit):
	cache, o, other = {}, None, None
	for op in h["ops"]:
		k = op["op"]
		if k == "new":
			o = MeanEstimator(dim=op["dim"], covariance=op["k"] == "estcov", record=op["rec"])
			emit(op)
		elif k == "swap":
			o, other = other, o
			emit(op)
		elif k == "update":
			ok, r = attempt(o.update, unarr(op["rows"]))
			emit({**op, "ok": ok, "exc": "" if ok else r})
		elif k == "ask":
			okc, c = attempt(build, op["f"], cache)
			ok, r = attempt(ask, c, o) if okc else (False, c)
			emit({**op, "ok": ok, **(r if ok else {"exc": r})})
		elif k == "resolve":
			ok, c = attempt(convergence_criterion, op["as"], **pyargs(op["kw"]), **op.get("extra", {}))
			ok, r = attempt(lambda: {"ans": tf(c(o)), "ident": convergence_criterion(c) is c and convergence_criterion(c, count=3) is c}) if ok else (False, c)
			emit({**op, "ok": ok, **(r if ok else {"exc": r})})
		elif k == "refuse":
			v = {"unknown": "bogus", "empty": "", "number": 3, "none": None, "list": ["count"]}[op["what"]]
			ok, r = attempt(convergence_criterion, v)
			emit({**op, "ok": ok})
		elif k == "message":
			ok, r = attempt(build(op["f"], cache).message, o)
			m = re.search(r"\+/- (inf|nan|[-+0-9.e]+)", r) if ok and isinstance(r, str) else None
			emit({**op, "ok": ok and isinstance(r, str), "margin": "none" if m is None else num(float(m.group(1)))})
