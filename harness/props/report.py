"""C33: messages and full results."""

from . import hist, q

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
{props}
CONSTANTS
 Vals = {vals}
 MaxN = {n}
 MaxBatch = 2
 STALE = {stale}
 CUT = {cut}
"""
LEVELS = ["0.5", "0.68", "0.9", "0.95", "0.99"]
ORDS = ["1", "2", "inf", "-inf", "none", "3"]


def formula(rng, dim, kind):
	k = rng.choice(["count", "tol", "tol", "conf", "knee"] if dim == 1 and kind == "estcov" else ["count", "tol", "tol", "knee"])
	dec = lambda lo, hi, d: q(rng.randint(lo, hi), d)
	if k == "count":
		return {"k": k, "c": rng.choice([0, 1, 5, 100])}
	if k == "tol":
		return {"k": k, "atol": q.s(_f(rng.choice(["0", "1/100", "149/10000000000", dec(0, 999999, 1000)]))), "rtol": q.s(_f(rng.choice(["0", "1/100", dec(0, 99999, 100000)]))), "ord": rng.choice(ORDS)}
	if k == "conf":
		return {"k": k, "lev": rng.choice(LEVELS), "atol": "0", "rtol": q(1, 64)}
	return {"k": k, "S": rng.choice(["1", "1/8", "25/2", q.s(_f(dec(1, 99999, 1000)))])}


def _f(x):
	"""as the double the code receives"""
	from fractions import Fraction

	return Fraction(float(q.f(x)))


def messages(c, n):
	rng, hs = c.rng, []
	for i in range(n):
		kind = rng.choice(["est", "est", "estcov", "estcov", "latest", "cv"])
		dim = rng.choice([1, 1, 1, 2, 3, 4, 5, 9, 40]) if kind != "cv" else rng.choice([2, 3])
		width = 1 if kind == "cv" else dim
		new = {"op": "new", "k": kind, "dim": dim, "rec": dim == 1 and rng.random() < 0.5}
		if kind == "cv":
			new.update(rec=False, ecv=[q(rng.randint(-8, 8), 4) for _ in range(dim - 1)], alpha=[q(rng.randint(-8, 8), 4) for _ in range(dim - 1)])
		ops = [new]
		fs = [formula(rng, width, kind) for _ in range(3)]
		if rng.random() < 0.3:
			fs.append({"k": rng.choice(["or", "and"]), "a": fs[0], "b": {"k": "not", "a": fs[1]}})
		off, sc, den = rng.choice([(0, 1, 16), (0, 100, 8), (5, 1, 1000), (-3000, 7, 64), (0, 1, 3), (0, q(1, 1000), 1)])
		if rng.random() < 0.6:
			ops += [{"op": "message", "f": f} for f in fs]
		if kind == "estcov" and dim > 1:
			fs = [f for f in fs if f["k"] != "conf"]
		for _ in range(rng.choice([1, 2, 4, 12])):
			b = rng.choice([1, 1, 2, 3, 7, 33])
			ops.append({"op": "update", "rows": [[q.s(_f(q.add(off, q.mul(sc, q(rng.randint(-99, 99), den))))) for _ in range(dim)] for _ in range(b)]})
			ops += [{"op": "message", "f": f} for f in rng.sample(fs, min(len(fs), 2))]
		hs.append(hist("m%d" % i, ops))
	return hs


def loops(c, n):
	rng, hs = c.rng, []
	for i in range(n):
		ops = []
		for _ in range(rng.choice([1, 2, 3])):
			fn = rng.choice(["hutch", "hutch", "diag", "xtrace"])
			N = rng.choice([2, 3, 4, 5, 8, 13])
			A = [["0"] * N for _ in range(N)]
			for r in range(N):
				for s in range(r + 1):
					A[r][s] = A[s][r] = q(rng.randint(-32, 32), 8)
				A[r][r] = q(rng.randint(1, 64), 8) if rng.random() < 0.8 else A[r][r]
				if fn == "xtrace":
					A[r][r] = q(rng.randint(1, 64) + 256 * N, 8)
			cnt = {"k": "count", "c": rng.choice([0, 1, 2, 5, 17, 40])}
			f = cnt
			t = rng.random()
			if t < 0.3:
				f = {"k": "or", "a": cnt, "b": {"k": "tol", "atol": q(1, 64), "rtol": "0", "ord": "2"}}
			elif t < 0.5:
				f = {"k": "tol", "atol": q(rng.choice([8, 64]), 8), "rtol": q(1, 4), "ord": rng.choice(ORDS)}
			elif t < 0.65 and fn != "diag":
				f = {"k": "conf", "lev": rng.choice(LEVELS), "atol": q(rng.randint(64, 400), 8), "rtol": q(1, 4)}
			if fn == "xtrace" and f["k"] == "count" and f["c"] == 0:
				f = {"k": "count", "c": 2}
			ops.append({"op": "loop", "fn": fn, "A": A, "f": f, "batch": rng.choice([1, 2, 3, 5, 32]), "seed": rng.randint(0, 10**6), "cb": rng.random() < 0.7,
				"pdf": rng.choice(["normal", "sphere", "rademacher"]) if fn != "xtrace" else rng.choice(["normal", "sphere"])})
			if rng.random() < 0.3:
				ops.append({"op": "info"})
		hs.append(hist("l%d" % i, ops))
	return hs


def wrong(h, ev):
	for e in ev:
		if e["op"] == "message" and e["ok"] and e["msg"]["count"]:
			e["msg"]["count"][0]["p"] = q.add(e["msg"]["count"][0]["p"], 1)
			return ev
		if e["op"] == "loop" and e["ok"]:
			e["nit"] += 1
			return ev
	return None


def c33(c, tier):
	inv = "INVARIANTS Current Final Seen Faithful Rounding"
	vals = '{"1/3", "-5/2", "0", "1999/2000"}' if c.thorough else '{"1/3", "-5/2", "1999/2000"}'
	kw = dict(vals=vals, n=4 if c.thorough else 3, stale="FALSE", cut="FALSE")
	c.model("MCReport", CFG.format(props=inv, **kw))
	small = dict(vals='{"1/3", "2"}', n=2)
	c.model("MCReport", CFG.format(props="INVARIANTS Final", **{**kw, **small, "stale": "TRUE"}), refuted="Final")
	c.model("MCReport", CFG.format(props="INVARIANTS Faithful", **{**kw, **small, "cut": "TRUE"}), refuted="Faithful")
	c.bind("report", "TrReport", messages(c, 600 if c.thorough else 120) + loops(c, 300 if c.thorough else 70), canary=wrong)
