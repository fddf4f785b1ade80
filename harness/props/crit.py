"""C04-C07: convergence criteria."""

import math

from . import hist, q

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
{props}
CONSTANTS
 Vals = {vals}
 MaxOps = {ops}
 MaxBatch = {batch}
 ALLASKS = {asks}
 EMIT = {emit}
"""
INV = "VIEW View\nINVARIANTS TwoValued Boolean FewSamples Monotone Equivariant BandSound\nPROPERTIES Pure CountStable"
LEVELS = ["0.5", "0.68", "0.8", "0.9", "0.95", "0.975", "0.99", "0.999"]
FAR = ["0.001", "0.05", "0.1", "0.25", "0.33", "0.6827", "0.7", "0.85", "0.9545", "0.98", "0.995", "0.9973", "0.9999", "0.99999", "0.999999", "0.99999999"]


def model(c):
	c.model("MCCriteria", CFG.format(props=INV, vals='{"-1", "0", "3"}' if c.thorough else '{"-1", "3"}', ops=6 if c.thorough else 5, batch=2, asks="FALSE", emit="FALSE"), timeout=1500)


def behaviours(c):
	n = 700 if c.thorough else 120
	out = []
	for depth, vals in ((7, '{"-3", "0", "7/4", "5"}'), (9, '{"1", "9/8"}')):
		out += c.generate("MCCriteria", CFG.format(props="INVARIANT Emit", vals=vals, ops=depth, batch=2, asks="TRUE", emit="TRUE"),
			simulate=n // 50 + 2, depth=depth + 2, seed=c.seed + 5, workers=8, limit=n)
	return [hist("g%d" % i, [{"op": "new", "k": "estcov", "dim": 1, "rec": True}] + h) for i, h in enumerate(out)]


def mean(v):
	return sum(v) / len(v)


def near_thresholds(rng, vals, last, dim):
	"""Formulas whose thresholds lie just above or below what the data attains (inputs only; the verdict is TLC's)."""
	F = []
	from fractions import Fraction

	n = len(vals)
	x = [[float(q.f(t)) for t in r] for r in vals]
	mu = [mean([r[k] for r in x]) for k in range(dim)]
	old = [mean([r[k] for r in x[: n - last]]) if n > last else 0.0 for k in range(dim)]
	delta = [a - b for a, b in zip(mu, old)]
	near = [q(1) if False else q.s(q.f("1") + s * q.f(e)) for s in (1, -1) for e in ("1/1000", "1/100000", "1/1000000000", "1/5")]

	def times(v):
		return q.s(Fraction(v) * q.f(rng.choice(near)))

	two = lambda v: math.sqrt(sum(t * t for t in v))
	nm = {"1": lambda v: sum(map(abs, v)), "2": two, "none": two, "inf": lambda v: max(map(abs, v)), "-inf": lambda v: min(map(abs, v)), "3": lambda v: sum(abs(t) ** 3 for t in v) ** (1 / 3)}
	o = rng.choice(list(nm))
	e, m = nm[o](delta), nm[o](mu)
	if m > 0 and e > 0:  # one of the two tolerances decides, the other is out of reach
		F.append({"k": "tol", "atol": times(e), "rtol": q.s(Fraction(e / m) / 8), "ord": o} if rng.random() < 0.5 else {"k": "tol", "atol": q.s(Fraction(e) / 8), "rtol": times(e / m), "ord": o})
	F.append({"k": "tol", "atol": times(e), "rtol": "0", "ord": o})
	if m > 0:
		F.append({"k": "tol", "atol": "0", "rtol": times(e / m), "ord": o})
	F.append({"k": "count", "c": n + rng.choice([-1, 0, 1])})
	if dim == 1 and n >= 2:
		from scipy.stats import norm, t

		sd = math.sqrt(sum((r[0] - mu[0]) ** 2 for r in x) / (n - 1))
		lev = rng.choice(LEVELS + FAR)
		sc = t.ppf((1 + float(lev)) / 2, n - 1) if n < 30 else norm.ppf((1 + float(lev)) / 2)
		F.append({"k": "conf", "lev": lev, "atol": times(sc * sd / math.sqrt(n)), "rtol": "0"})
		if mu[0] != 0:
			F.append({"k": "conf", "lev": lev, "atol": "0", "rtol": times(sd / math.sqrt(n) / abs(mu[0]))})
			moe, rel = sc * sd / math.sqrt(n), sd / math.sqrt(n) / abs(mu[0])
			F.append({"k": "conf", "lev": lev, "atol": times(moe), "rtol": q.s(Fraction(rel) / 4)} if rng.random() < 0.5 else {"k": "conf", "lev": lev, "atol": q.s(Fraction(moe) / 4), "rtol": times(rel)})
	if dim == 1 and n >= 4:
		cm, s = [], 0.0
		for i, r in enumerate(x):
			s += r[0]
			cm.append(s / (i + 1))
		y, s = [], 0.0
		for i in range(1, n):
			s += abs(cm[i] - cm[i - 1])
			y.append(s)
		if y[-1] > y[0]:
			h = max((t - y[0]) / (y[-1] - y[0]) - i / (len(y) - 1) for i, t in enumerate(y))
			if h > 1e-6:
				F.append({"k": "knee", "S": times(h * (len(y) - 1))})
	return F


def wide(c, n, dims, resolve=False, only=None):
	rng = c.rng
	hs = []
	for i in range(n):
		dim = rng.choice(dims)
		kind = "est" if dim > 1 or (only and "conf" not in only and rng.random() < 0.5) else "estcov"
		rec = dim == 1 and rng.random() < 0.7
		ops = [{"op": "new", "k": kind, "dim": dim, "rec": rec}]
		if i % 4 == 3:  # the same criteria have already judged another estimator
			ops += earlier(rng, dim, kind, rec, fixed_parts(rng, only, dim))
			ops.append({"op": "new", "k": kind, "dim": dim, "rec": rec})
		vals = []
		off, sc = rng.choice([(0, 1), (0, 1), (5, 1), (1000, 3), (-7, q(1, 64))])
		decay = rng.random() < 0.5
		asked = []
		again = [op["f"] for op in ops if op["op"] == "ask"]
		fixed = (again[:2] if again else []) if only else standing(rng, dim)
		target = rng.choice([5, 8, 12, rng.choice([33, 33, 33, 70, 70, 160, 520]) if dim == 1 else 9])
		if only == ("knee",) and i % 12 == 5:
			target = 260
		while len(vals) < target:
			b = rng.choice([1, 1, 1, 2, 3, 7] if target < 40 else [1, 2, 9, 14, 20] if target < 100 else [1, 1, 65, 128, 200])
			rows = [[q.add(off, q.mul(sc, q.mul(q(1, 1 + len(vals)) if decay else 1, q(rng.randint(-64, 64), 16)))) for _ in range(dim)] for _ in range(b)]
			# as the double the code receives
			rows = [[q.s(type(q.f("1"))(float(q.f(t)))) for t in r] for r in rows]
			ops.append({"op": "update", "rows": rows})
			vals += rows
			F = near_thresholds(rng, vals, b, dim)
			if only:
				F = [f for f in F if f["k"] in only]
			rng.shuffle(F)
			for f in F[:3]:
				ops.append({"op": "ask", "f": f})
				if f["k"] == "conf" and rng.random() < 0.5:
					ops.append({"op": "message", "f": f})
				asked.append(f)
			if len(asked) >= 2 and not only:
				a, b2 = rng.choice(asked), rng.choice(asked)
				g = {"k": rng.choice(["or", "and"]), "a": a, "b": b2}
				if rng.random() < 0.4:
					g = {"k": "not", "a": g}
				if rng.random() < 0.3:
					g = {"k": rng.choice(["or", "and"]), "a": {"k": "not", "a": rng.choice(asked)}, "b": g}
				if size(g) < 12:
					ops.append({"op": "ask", "f": g})
			for g in fixed:
				ops.append({"op": "ask", "f": g})
			if resolve:
				ops += named(rng, vals, F, rec, dim)
			if asked and rng.random() < 0.4:
				ops.append({"op": "ask", "f": rng.choice(asked)})
		if asked and rng.random() < 0.3:
			ops.insert(1, {"op": "ask", "f": rng.choice(asked)})
		hs.append(hist("w%d" % i, ops))
	return hs


def standing(rng, dim):
	"""Composite formulas asked after every update, whose parts change their answers along the history."""
	def part():
		k = rng.choice(["count", "count", "tol", "every"] + (["conf"] if dim == 1 else []))
		if k == "every":
			return {"k": "every", "m": rng.choice([2, 3]), "np": rng.random() < 0.5}
		if k == "count":
			return {"k": "count", "c": rng.choice([1, 2, 3, 4, 6, 9])}
		if k == "tol":
			return {"k": "tol", "atol": rng.choice(["1/8", "1/2", "2"]), "rtol": rng.choice(["0", "1/10"]), "ord": rng.choice(["1", "2", "inf"])}
		return {"k": "conf", "lev": rng.choice(LEVELS), "atol": rng.choice(["1/2", "2", "8"]), "rtol": rng.choice(["0", "1/10", "1"])}

	out = []
	for _ in range(2):
		a, b = part(), part()
		if rng.random() < 0.3:
			a = {"k": "not", "a": a}
		if rng.random() < 0.2:
			b = {"k": rng.choice(["or", "and"]), "a": b, "b": part()}
		g = {"k": rng.choice(["or", "and"]), "a": a, "b": b}
		if rng.random() < 0.25:
			g = {"k": "not", "a": {"k": "not", "a": g}}
		elif rng.random() < 0.2:
			g = {"k": "and" if g["k"] == "or" else "or", "a": {"k": "not", "a": g}, "b": {"k": "and", "a": part(), "b": {"k": "not", "a": part()}}}
		out.append(g if rng.random() < 0.7 else {"k": "not", "a": g})
	return out


def fixed_parts(rng, only, dim):
	out = []
	for k in only or ("count", "tol"):
		if k == "count":
			out.append({"k": "count", "c": rng.choice([2, 4, 6])})
		elif k == "tol":
			out.append({"k": "tol", "atol": rng.choice(["1/8", "1/2", "2"]), "rtol": rng.choice(["0", "1/10"]), "ord": rng.choice(["1", "2", "inf"])})
		elif k == "conf":
			out.append({"k": "conf", "lev": rng.choice(LEVELS), "atol": rng.choice(["1/2", "2", "8"]), "rtol": rng.choice(["0", "1/10", "1"])})
		else:
			out.append({"k": "knee", "S": rng.choice(["1/4", "1", "2"])})
	return out


def earlier(rng, dim, kind, rec, F):
	"""Another estimator with the same number of samples at each moment but steadily different data."""
	ops = []
	for k in range(rng.choice([6, 12])):
		ops.append({"op": "update", "rows": [[q(rng.choice([1, 200]) * rng.randint(-64, 64) if k % 3 else 16, 16) for _ in range(dim)]]})
		ops += [{"op": "ask", "f": f} for f in F]
	return ops


def pairs(c, n, only=None):
	"""The same criteria judge two estimators in turn, which always have the same number of samples."""
	rng, hs = c.rng, []
	for i in range(n):
		dim = 1 if only and set(only) & {"conf", "knee"} else rng.choice([1, 1, 2])
		kind = "estcov" if dim == 1 else "est"
		new = {"op": "new", "k": kind, "dim": dim, "rec": dim == 1}
		ops = [new, {"op": "swap"}, new]
		F = fixed_parts(rng, only, dim) if only else standing(rng, dim)
		data = [[], []]
		for _ in range(rng.choice([5, 8, 12])):
			b = rng.choice([1, 1, 2, 5])
			for side in (0, 1):
				ops.append({"op": "swap"})
				rows = [[q(rng.randint(-64, 64) * (40 if side else 1) if rng.random() < 0.7 else 16, 16) for _ in range(dim)] for _ in range(b)]
				data[side] += rows
				ops.append({"op": "update", "rows": rows})
			G = list(F)
			for side in (0, 1):
				N = near_thresholds(rng, data[side], b, dim)
				G += rng.sample(N, 1) if not only else [f for f in N if f["k"] in only][:1]
			if not only:
				G.append({"k": "or", "a": {"k": "not", "a": G[-1]}, "b": G[-2]})
			for f in G:
				ops += [{"op": "ask", "f": f}, {"op": "swap"}, {"op": "ask", "f": f}, {"op": "swap"}, {"op": "ask", "f": f}]
		hs.append(hist("p%d" % i, ops))
	return hs


def grown(c, n):
	"""Criteria built from criteria that stay in use themselves."""
	rng, hs = c.rng, []
	for i in range(n):
		ops = [{"op": "new", "k": "estcov", "dim": 1, "rec": False}]
		pool = [{"k": "count", "c": rng.randint(1, 9)} if rng.random() < 0.6 else {"k": "every", "m": rng.choice([2, 3]), "np": rng.random() < 0.5} for _ in range(4)]
		for step in range(rng.choice([4, 6])):
			ops.append({"op": "update", "rows": [[q(rng.randint(-64, 64), 16)] for _ in range(rng.choice([1, 2]))]})
			for _ in range(2):
				a, b = pool[-1] if rng.random() < 0.6 else rng.choice(pool), rng.choice(pool)
				f = {"k": rng.choice(["or", "and"]), "a": a, "b": b} if rng.random() < 0.85 else {"k": "not", "a": a}
				if size(f) < 12:
					pool.append(f)
					ops.append({"op": "ask", "f": f})
			ops += [{"op": "ask", "f": f} for f in rng.sample(pool, min(len(pool), 7))]
		hs.append(hist("r%d" % i, ops))
	return hs


def settling(c, n):
	"""Long sequences that move at first and hardly later, so that the knee lies far behind."""
	rng, hs = c.rng, []
	for i in range(n):
		m, long = rng.randint(8, 90), [300, 700, 1100, 2300][i % 4]
		vals = [[q(rng.randint(-640, 640), 16)] for _ in range(m)] + [[q(rng.randint(1020, 1028), 1024)] for _ in range(long)]
		ops = [{"op": "new", "k": "estcov", "dim": 1, "rec": True}]
		for k in (0, 1):
			rows = vals[: m + long // 2] if k == 0 else vals[m + long // 2 :]
			ops.append({"op": "update", "rows": rows})
			seen = vals if k else rows
			for _ in range(4):
				ops += [{"op": "ask", "f": f} for f in near_thresholds(rng, seen, 1, 1) if f["k"] == "knee"]
		hs.append(hist("s%d" % i, ops))
	return hs


def size(f):
	return 1 + sum(size(f[k]) for k in ("a", "b") if k in f)


def named(rng, vals, F, rec, dim):
	out = []
	for f in F:
		if rng.random() < 0.6:
			continue
		if f["k"] == "count":
			name, kw, extra = "count", {"count": f["c"]}, {"atol": 0.5, "rtol": 0.25, "bogus": 1}
		elif f["k"] == "tol":
			name, kw, extra = "tolerance", {"atol": f["atol"], "rtol": f["rtol"], "ord": f["ord"]}, {"count": 1, "confidence": 0.5}
			if f["atol"] == "0" and rng.random() < 0.5:
				del kw["atol"]
		elif f["k"] == "conf":
			name, kw, extra = "confidence", {"confidence": f["lev"], "atol": f["atol"], "rtol": f["rtol"]}, {"count": 1, "S": 0.1, "ord": 1}
			if f["atol"] == "0" and rng.random() < 0.5:
				del kw["atol"]
			if f["lev"] == "0.95" and rng.random() < 0.5:
				del kw["confidence"]
		else:
			name, kw, extra = "knee", {"S": f["S"]}, {"atol": 3.0}
		if not rng.random() < 0.7:
			extra = {}
		as_ = rng.choice([name, name.upper(), name.capitalize()])
		out.append({"op": "resolve", "name": name, "as": as_, "kw": kw, "extra": extra})
	if rng.random() < 0.3:
		out.append({"op": "resolve", "name": "tolerance", "as": "tolerance", "kw": {}, "extra": {}})
	if rng.random() < 0.3 and dim == 1:
		out.append({"op": "resolve", "name": rng.choice(["confidence", "knee"]), "as": "x", "kw": {}, "extra": {}})
		out[-1]["as"] = out[-1]["name"]
	if rng.random() < 0.2:
		out.append({"op": "refuse", "what": rng.choice(["unknown", "empty", "number", "none", "list"])})
	return out


def flip(kinds):
	def canary(h, ev):
		for e in ev:
			if e["op"] == "ask" and e["ok"] and e["f"]["k"] in kinds:
				if e["f"]["k"] in ("count", "or", "and", "not") or (e["f"].get("atol", "0") in ("0", "1000")):
					pass
				e["ans"] = "F" if e["ans"] == "T" else "T"
		return ev if any(e["op"] == "ask" and e["f"]["k"] in kinds for e in ev) else None

	return canary


def exact(c, n, kinds):
	"""Data for which every floating-point step is exact: thresholds are met exactly."""
	rng, hs = c.rng, []
	for i in range(n):
		if "tol" in kinds:
			dim = rng.choice([1, 1, 2, 3])
			ops, vals = [{"op": "new", "k": "est" if dim > 1 else "estcov", "dim": dim, "rec": False}], []
			for b in rng.choice([(1, 1, 2, 4), (2, 2, 4, 8), (4, 4), (1, 1, 2, 4, 8, 16)]):
				rows = [[rng.randint(-64, 64) * rng.choice([0, 1, 1]) for _ in range(dim)] for _ in range(b)]
				old = [sum(r[k] for r in vals) / max(1, len(vals)) for k in range(dim)]
				vals += rows
				mu = [sum(r[k] for r in vals) / len(vals) for k in range(dim)]
				d = [abs(x - y) for x, y in zip(mu, old)]
				ops.append({"op": "update", "rows": [[q(x) for x in r] for r in rows]})
				for o, nm in (("1", sum), ("inf", max), ("-inf", min)) + ((("2", sum), ("none", sum)) if dim == 1 else ()):
					e, m = q.s(q.f(nm(d))), nm([abs(t) for t in mu])
					ops.append({"op": "ask", "f": {"k": "tol", "atol": e, "rtol": "0", "ord": o}})
					if m and (q.f(nm(d)) / q.f(m)).denominator in (1, 2, 4, 8, 16, 32, 64):
						ops.append({"op": "ask", "f": {"k": "tol", "atol": "0", "rtol": q.s(q.f(nm(d) / m)), "ord": o}})
			hs.append(hist("x%d" % i, ops))
		else:
			n4 = rng.choice([4, 16])
			k, base = rng.choice([0, 1, 2]), rng.choice([8, -8, 4, -32, 0])
			if i % 4 == 0:
				k = base = 0
			rows = [[q(base + k * (n4 - 1 if j == 0 else -1))] for j in range(n4)]
			rng.shuffle(rows)
			ops = [{"op": "new", "k": "estcov", "dim": 1, "rec": False}]
			cut = rng.choice([n4, n4 // 2])
			for part in (rows[:cut], rows[cut:]):
				if part:
					ops.append({"op": "update", "rows": part})
					F = [{"k": "conf", "lev": rng.choice(LEVELS + FAR), "atol": "0", "rtol": "0"}]
					if base:
						se = q.f(k)
						F.append({"k": "conf", "lev": rng.choice(LEVELS), "atol": "0", "rtol": q.s(se / abs(base))})
					ops += [{"op": "ask", "f": f} for f in F]
			hs.append(hist("x%d" % i, ops))
	return hs


BASIC = ("update is accepted", "asking a criterion succeeds", "the answer of")


def keep(*names):
	return lambda s: any(s.startswith(n) for n in names + BASIC)


def c04(c, tier):
	model(c)
	n = 260 if c.thorough else 50
	hs = behaviours(c) + wide(c, n, [1, 1, 2, 3, 8], only=("count", "tol")) + pairs(c, n // 5, ("count", "tol")) + exact(c, n // 3, ("tol",))
	c.bind("crit", "TrCriteria", hs, canary=flip(("count", "tol")), clauses=keep("count criterion", "tolerance criterion", "asking"))


def c05(c, tier):
	model(c)
	n = 300 if c.thorough else 60
	hs = behaviours(c) + wide(c, n, [1], only=("conf",)) + pairs(c, n // 5, ("conf",)) + around_thirty(c) + exact(c, n // 3, ("conf",))
	c.bind("crit", "TrCriteria", hs, canary=flip(("conf",)), clauses=keep("confidence criterion", "the confidence message", "a criterion describes"))


def around_thirty(c):
	"""Every sample count from 25 to 32, asked with margins just around the attained one, for every level."""
	hs = []
	for i, lev in enumerate(LEVELS * (4 if c.thorough else 1)):
		rng = c.rng
		ops = [{"op": "new", "k": "estcov", "dim": 1, "rec": False}]
		vals = []
		for b in (2, 1, 1, 21 + i % 4) + (1,) * 8 + (7 + i % 5, 1, 20, 1) + ((100, 1, 300) if c.thorough else ()):
			rows = [[q(rng.randint(-640, 640) + 100 * i * (-1) ** i, 16)] for _ in range(b)]
			ops.append({"op": "update", "rows": rows})
			vals += rows
			for f in near_thresholds(rng, vals, b, 1):
				if f["k"] == "conf":
					ops.append({"op": "ask", "f": f})
			for f in near_thresholds(rng, vals, b, 1):
				if f["k"] == "conf":
					ops.append({"op": "message", "f": {**f, "lev": lev}})
					break
		hs.append(hist("t%d" % i, ops))
	return hs


def c06(c, tier):
	model(c)
	n = 260 if c.thorough else 55
	hs = behaviours(c) + wide(c, n, [1, 1, 2], resolve=True) + pairs(c, n // 3) + grown(c, n // 2)
	c.bind("crit", "TrCriteria", hs, canary=flip(("or", "and", "not")), clauses=keep("composite", "asking", "a named", "a criterion", "an unknown"))


def c07(c, tier):
	model(c)
	n = 300 if c.thorough else 60
	hs = behaviours(c) + wide(c, n, [1], only=("knee",)) + pairs(c, n // 5, ("knee",)) + settling(c, 24 if c.thorough else 6)
	c.bind("crit", "TrCriteria", hs, canary=flip(("knee",)), clauses=keep("knee criterion"))
