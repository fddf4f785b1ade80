"""C01, C02: running estimators."""

import random

from . import cv, hist, q

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS MomentsExact DeltaIsChange Recorded Emit
{props}
CONSTANTS
 Vals = {vals}
 MaxRows = {rows}
 MaxOps = {ops}
 Objs = {objs}
 Dims = {dims}
 MaxBatch = {batch}
 EMIT = {emit}
"""


def model(c, tier):
	big = tier == "thorough"
	c.model(
		"MCEstimator",
		CFG.format(props="VIEW View\nPROPERTIES Isolation Stable Refused", vals='{"-1", "0", "5/2"}' if big else '{"-1", "5/2"}', rows=4 if big else 3, ops=4, objs='{"a"}', dims="{1, 2}", batch=2, emit="FALSE"),
	)
	c.model(
		"MCEstimator",
		CFG.format(props="VIEW View\nPROPERTIES Isolation Stable Refused", vals='{"-1", "2"}', rows=2, ops=5 if big else 4, objs='{"a", "b"}', dims="{1}", batch=2, emit="FALSE"),
	)


def behaviours(c, tier):
	n = 900 if tier == "thorough" else 120
	out = []
	for objs, dims, depth, vals in (('{"a", "b"}', "{1, 2}", 9, '{"-3", "0", "7/4"}'), ('{"a"}', "{1, 3}", 7, '{"1", "7/4"}')):
		out += c.generate(
			"MCEstimator",
			CFG.format(props="", vals=vals, rows=9, ops=depth, objs=objs, dims=dims, batch=2, emit="TRUE"),
			simulate=n // 60 + 2, depth=depth + 2, seed=c.seed + 11, workers=8, limit=n,
		)
	forms = ["2d", "flat", "scalar", "list", "F", "strided"]
	for h in out:
		for op in h:
			if op["op"] == "update":
				op["form"] = c.rng.choice(forms)
	return [hist("g%d" % i, h) for i, h in enumerate(out)]


def wide(c, tier):
	"""Driver-made histories: larger dimensions, offsets, dtypes, long sequences and many batch sizes."""
	rng = c.rng
	n = 260 if tier == "thorough" else 45
	hs = []
	for i in range(n):
		k = rng.choice(["mean", "cov", "est", "estcov", "estcov", "cov"])
		d = rng.choice([1, 1, 2, 3, 5])
		off = rng.choice([0, 0, 1, -1000, 10**6, -(10**8), 2**36])
		scale = rng.choice([1, 1, q(1, 1024), 1000])
		dtype = "f8"
		if i % 4 == 0:
			k = rng.choice(["cov", "estcov", k])
			dtype, off, scale = ["f4", "i8"][i // 4 % 2], 0, 1
		base = rng.choice([0, 2**30 + 1, -(2**31) - 7, 2**40]) if dtype == "i8" else 0
		ops = [{"op": "new", "o": "a", "k": k, "dim": d, "rec": rng.random() < 0.5 and k.startswith("est"), "bare": rng.random() < 0.5}]
		for _ in range(rng.randint(2, 7)):
			b = rng.choice([1, 1, 2, 3, 5, 8, 33 if d < 3 else 9])
			rows = []
			for _ in range(b):
				if dtype == "f8":
					rows.append([q.add(off, q.mul(scale, q(rng.randint(-64, 64), 16))) for _ in range(d)])
				else:
					rows.append([str(rng.randint(-9, 9) + base) for _ in range(d)])
			ops.append({"op": "update", "o": "a", "rows": rows, "form": rng.choice(["2d", "flat", "scalar", "list", "F", "strided"])})
			if rng.random() < 0.3:
				ops.append({"op": rng.choice(["snap", "scribble"]), "o": "a"})
		cfg = {"dtype": dtype, "quiet": rng.random() < 0.3, "dd": rng.choice([[0, 1, 2], [0, 1, 2], [0, 1, 2, 3, 5, 9], [2, 7, 0]])}
		if dtype == "f4":
			cfg["eps"] = "1/8388608"
		hs.append(hist("w%d" % i, ops, cfg))
	# long streams, big batches, many dimensions, looked at rarely
	for i in range(60 if tier == "thorough" else 12):
		k = rng.choice(["cov", "estcov", "mean", "est"])
		d, cuts = BIG[i % 4] if i < 8 else rng.choice([(1, [1] * 140), (1, [1, 100, 1, 128, 257]), (2, [1] * 70), (3, [64, 1, 65, 2]), (9, [1, 2, 11, 30, 1]), (12, [3, 20, 1]), (1, [512, 1, 512]), (1, [1] * 33 + [1000, 1]), (2, [300, 299, 1]), (4, [1] * 20 + [50])])
		ops = [{"op": "new", "o": "a", "k": k, "dim": d, "rec": k.startswith("est") and rng.random() < 0.5, "bare": True}]
		if i < 8:
			k = ["cov", "estcov"][(i + i // 4) % 2]
		off = rng.choice([0, 0, 100, -(10**7)])
		for b in cuts:
			ops.append({"op": "update", "o": "a", "rows": [[q(16 * off + rng.randint(-64, 64), 16) for _ in range(d)] for _ in range(b)], "form": rng.choice(["2d", "flat", "list", "F", "strided"])})
		hs.append(hist("l%d" % i, ops, {"dtype": "f8", "quiet": True, "dd": [0, 1, 2, 4]}))
	return hs


def corrupt_mean(h, ev):
	"""Shift one recorded mean: the specification must reject it."""
	for e in ev:
		if e["op"] == "read" and e["n"] > 0 and all(x not in ("nan", "inf") for x in e["mean"]["v"]):
			e["mean"]["v"][-1] = q.add(e["mean"]["v"][-1], q(1, 100))
			return ev
	return None


def corrupt_delta(h, ev):
	for e in ev:
		if e["op"] == "read" and e["n"] > 0 and "delta" in e:
			e["delta"]["v"][0] = q.add(e["delta"]["v"][0], q(1, 7))
			return ev
	return None


BIG = [(1, [3, 1500, 1]), (1, [1] * 5 + [5000, 2]), (2, [1100, 1, 40]), (1, [1, 2100, 2100])]
MOMENTS = ["mean equals", "covariance equals", "covariance divides", "update is accepted", "construction succeeds", "reading an"]


def c01(c, tier):
	model(c, tier)
	c.bind("est", "TrEstimator", behaviours(c, tier) + wide(c, tier), canary=corrupt_mean, clauses=lambda s: any(s.startswith(m) for m in MOMENTS) or "died" in s or "outside" in s)


def c02(c, tier):
	model(c, tier)
	c.bind("est", "TrEstimator", behaviours(c, tier) + wide(c, tier), canary=corrupt_delta, clauses=lambda s: not s.startswith("mean equals") and not s.startswith("covariance"))
	cv.models(c)
	cv.books(c)
