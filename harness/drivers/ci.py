"""confidence_interval."""

import numpy as np
from primate.stats import confidence_interval

from .enc import attempt, num, unarr


def call(a, lev, dist, form, default):
	x = unarr(a)
	if form == "list":
		x = x.tolist()
	elif form == "tuple":
		x = tuple(x.tolist())
	elif form == "ints":
		x = [int(t) for t in x]
	elif form == "int":
		x = x.astype(np.int64)
	elif form == "f4":
		x = x.astype(np.float32)
	elif form == "reversed":
		x = x[::-1].copy()[::-1]
	elif form == "strided":
		y = np.zeros(2 * len(x))
		y[::2] = x
		x = y[::2]
	if default and lev == "0.95" and dist == "t":
		r = confidence_interval(x)
	else:
		r = confidence_interval(x, confidence=float(lev), sdist=dist)
	lo, hi = r
	return {"lo": num(lo), "hi": num(hi)}


def run(h, emit):
	for op in h["ops"]:
		if op["op"] == "ci":
			ok, r = attempt(call, op["a"], op["lev"], op["dist"], op["form"], op["default"])
			emit({**op, "ok": ok, "spread": len(set(op["a"])) > 1, **(r if ok else {"exc": r})})
		elif op["op"] == "nest":
			ok, r = attempt(call, op["a"], op["p"], op["dist"], op["form"], False)
			ok2, r2 = attempt(call, op["a"], op["q"], op["dist"], op["form"], False)
			emit({**op, "ok": ok and ok2, **(r if ok else {"exc": r}), **({"lo2": r2["lo"], "hi2": r2["hi"]} if ok2 else {})})
		elif op["op"] == "refuse":
			kw = {"high": {"confidence": 1.5}, "low": {"confidence": -0.1}, "text": {"confidence": "0.9"}, "dist": {"sdist": "cauchy"}, "empty": {"sdist": ""}}[op["what"]]
			ok, r = attempt(confidence_interval, np.arange(5.0), **kw)
			emit({**op, "ok": ok})
