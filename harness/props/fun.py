"""C18, C19, C27: spectral functions and matrix functions."""

import itertools
from fractions import Fraction

from . import hist, q

FUN = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Odd Even Monotone Unit SoftUnit SoftFirst Step3 Exp Log LogGuard Root Inv Rank Emit
CONSTANTS
 Grid = {grid}
 Rates = {rates}
 Orders = {orders}
 Thresholds = {thr}
 EMIT = TRUE
"""
S = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"


def fun_model(c):
	grid = ["-3", "-1", "-3/4", "-1/4", "-1/1048576", "0", "1/4503599627370496", "1/1048576", "1/8", "1/2", "3/4", "1", "5/4", "2", "7"]
	if c.thorough:
		grid += ["-15/16", "-1/2", "1/16", "1/3", "5/8", "7/8", "15/16", "3", "33/2", "-40"]
	return c.generate("MCFunctions", FUN.format(
		grid=S(grid), rates=S(["-2", "-1/2", "0", "1", "3"]), orders="{0, 1, 2, 5, 10}", thr=S(["1/1000000", "1/2", "1", "0"])), timeout=1800)


def number(rng, lo, hi):
	return q(Fraction(rng.randint(int(lo * 4096), int(hi * 4096)), rng.choice([4096, 4096 * 1024])))


def random_fun(rng):
	n = rng.choice(["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank", "step"])
	f = {"name": n}
	if n == "exp":
		f["t"] = q(rng.randint(-24, 24), 8)
	if n == "smoothstep":
		a = Fraction(rng.randint(-16, 16), 8)
		f.update(a=q.s(a), b=q.s(a + Fraction(rng.choice([1, 2, 4, 8, 16, 24, 0, -3, -8]), 8)))
	if n == "softsign":
		f["q"] = rng.choice([rng.randint(0, 14), rng.randint(0, 14), rng.randint(15, 64)])
	if n == "numrank":
		f["threshold"] = q.s(Fraction(rng.choice([1e-6, 1e-3, 0.5, 1.0, 1e-10])))
	if n == "step":
		f.update(c=q.s(Fraction(rng.choice([0.0, 0.5, -1.0, 1.5]))), nonneg=rng.random() < 0.5)
	return f


def forms(f):
	if f["name"] == "step":
		return ["factory", "direct"]
	return ["name"] + (["factory", "direct"] if f["name"] in ("exp", "smoothstep", "softsign") else ["direct"] if f["name"] == "identity" else [])


DEF = {"exp": {"t": "1"}, "smoothstep": {"a": "0", "b": "1"}, "softsign": {"q": 10}, "numrank": {"threshold": q.s(Fraction(1e-6))}}


def exactf(f):
	"""Parameters as the floats they become."""
	g = dict(f)
	for k, v in f.items():
		if isinstance(v, str) and k != "name":
			g[k] = q.s(Fraction(float(Fraction(v))))
	return g


def allowed(f, x):
	x = Fraction(x)
	if f["name"] == "sqrt":
		return x >= 0
	if f["name"] == "inv":
		return x != 0
	return True


def fcanary(h, ev):
	for e in ev:
		if e["op"] == "eval" and e.get("ok") and e["y"]["v"] and e["f"]["name"] not in ("inv",):
			e["y"]["v"][0] = q.add(e["y"]["v"][0], q(1, 1000))
			return ev


def c27(c, tier):
	pts = fun_model(c)
	rng = c.rng
	by = {}
	for p in pts:
		by.setdefault(tuple(sorted((k, str(v)) for k, v in p["f"].items())), (p["f"], []))[1].append(p["x"])
	hs, i = [], 0

	def add(f, xs, form, prec=64, **kw):
		nonlocal i
		f = exactf(f)
		xs = [x for x in xs if allowed(f, x)]
		hs.append(hist("f%d" % i, [{"op": "eval", "f": f, "x": xs, "form": form, "prec": prec, **kw}]))
		i += 1

	for f, xs in by.values():
		if f["name"] == "step" and f.get("nonneg") is None:
			continue
		for form in forms(f):
			add(f, xs, form)
	for n in ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]:
		add({"name": n, **DEF.get(n, {})}, ["1/2", "-1/4", "3", "0", "1/2097152", "1/1048576", "1/524288", "1"], "default")
		add({"name": n, **DEF.get(n, {})}, [], "default")
		hs.append(hist("k" + n, [{"op": "resolve", "what": "known", "name": n}]))
	for k in range(1500 if c.thorough else 260):
		f = random_fun(rng)
		r = rng.choice([1, 1, 2, 8])
		m = rng.choice([0, 1, 1, 2, 3, 5, 12, 12, 40, 150])
		xs = []
		for _ in range(m):
			z = rng.random()
			if z < 0.6:
				xs.append(number(rng, -r, r))
			elif z < 0.8:
				xs.append(q.s(Fraction(rng.choice([-1, 1]) * rng.randint(1, 63), 64) * Fraction(2) ** rng.randint(-50, 3)))
			else:
				xs.append(rng.choice([v for kk, v in f.items() if isinstance(v, str) and kk != "name"] or ["1"]))
		prec = 64
		if rng.random() < 0.2:
			prec = 32
			deep = rng.random() < 0.5  # far below the resolution of single precision
			xs = [q.s(Fraction(rng.choice([-1, 1, 1]) * rng.randint(1, 63), 64) / 2 ** rng.randint(0, 60)) if deep else q(rng.randint(-64, 64), 32) for _ in xs]
		kw = {"strided": rng.random() < 0.3}
		shape = rng.choice(["array"] * 5 + ["int", "scalar", "matrix"])
		if shape == "int" and prec == 64 and f["name"] != "inv":
			kw["shape"], xs = shape, [q(rng.randint(-4, 6)) for _ in xs]
		elif shape == "scalar" and m > 0:
			kw["shape"], xs = shape, [x for x in xs if allowed(f, x)][:1]
		elif shape == "matrix" and f["name"] != "softsign":
			xs = [x for x in xs if allowed(f, x)]
			kw.update(shape=shape, order=rng.choice("CF"))
			xs = xs[: len(xs) // 2 * 2]
		if not xs:
			kw = {}
		add(f, xs, rng.choice(forms(f)), prec, ints=rng.random() < 0.3, **kw)
	for k in range(80 if c.thorough else 20):  # steep functions next to zero
		e = rng.randint(4, 40)
		f = {"name": "exp", "t": q.s(rng.choice([-1, 1]) * Fraction(2) ** e)}
		add(f, [q.s(Fraction(rng.randint(-64, 64), 16) / 2**e) for _ in range(3)], rng.choice(forms(f)))
		e = rng.randint(4, 40)
		a = Fraction(rng.choice([-1, 1]) * rng.randint(0, 3), 2**e)
		f = {"name": "smoothstep", "a": q.s(a), "b": q.s(a + Fraction(2, 2**e))}
		add(f, [q.s(a + Fraction(rng.randint(-8, 40), 16) / 2**e) for _ in range(4)], rng.choice(forms(f)))
	for k in range(100 if c.thorough else 30):  # long arrays
		f = random_fun(rng)
		xs = [x for x in [number(rng, -2, 2) for _ in range(rng.choice([1, 3, 7]))] if allowed(f, x)]
		if xs:
			add(f, xs, rng.choice(forms(f)), rng.choice([64, 64, 32]), tile=rng.choice([257, 1000, 1025, 1500, 2049, 4097, 5000, 65537]))
	for n in ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]:
		f = {"name": n, **DEF.get(n, {})}
		add(f, [x for x in ["1/2", "-1/4", "3", "1"] if allowed(exactf(f), x)], "default", tile=rng.choice([1500, 3001]))
	for k in range(120 if c.thorough else 24):  # functions resolved together and evaluated in any order
		n = rng.choice(["exp", "smoothstep", "softsign", "numrank", "step"])
		fs = []
		while len(fs) < rng.randint(2, 4):
			f = random_fun(rng)
			if f["name"] == n or rng.random() < 0.1:
				fs.append(exactf(f))
		fms = [rng.choice(forms(f)) for f in fs]
		ops = [{"op": "hold", "slot": j, "f": f, "form": fm} for j, (f, fm) in enumerate(zip(fs, fms))]
		for _ in range(rng.randint(3, 6)):
			j = rng.randrange(len(fs))
			xs = [number(rng, -2, 2) for _ in range(rng.choice([1, 4, 9]))]
			ops.append({"op": "eval", "slot": j, "f": fs[j], "form": fms[j], "x": [x for x in xs if allowed(fs[j], x)], "prec": 64})
		hs.append(hist("s%d" % k, ops))
	for k, n in enumerate(["", "sign", "EXP", "exp ", "power", "softstep", "pca", "numrank2", "smooth", "heat", "soft-sign", "none", "sqr", "1", "identity\n", "smoothstep(0,1)"]):
		hs.append(hist("u%d" % k, [{"op": "resolve", "what": "unknown", "name": n}]))
	for k in range(3):
		hs.append(hist("c%d" % k, [{"op": "resolve", "what": "callable", "which": k}]))
	hs.append(hist("n0", [{"op": "resolve", "what": "none", "x": ["1", "-2", "1/4"]}]))
	c.bind("fun", "TrFun", hs, canary=fcanary)


# ---------------------------------------------------------------- matrix functions

import numpy as np  # noqa: E402

from .lan import REPS, cond_ok, long_problem, ring_model, with_spectrum  # noqa: E402,F401
from .trace import symm, vec, wide  # noqa: E402

MF = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS RitzOk QuadOk PolyExact Interp Linear Symmetric Commutes AbsSq ExpPos Bounded
CONSTANTS
 N = {n}
 Vals = {vals}
 Starts = {starts}
"""
WS = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OwnReads LastFun KDimOk Emit
CONSTANTS
 Deg = {d}
 MaxCalls = {m}
 Grades = {g}
 EMIT = {emit}
"""


def matfun_models(c):
	c.model("MCMatFun", MF.format(n=2, vals=S(["-1", "1/2", "2"] if c.thorough else ["-1", "2"]), starts=S(["-1", "0", "2"] if c.thorough else ["0", "2"])), timeout=1800)
	if c.thorough:
		c.model("MCMatFun", MF.format(n=3, vals=S(["0", "2"]), starts=S(["0", "1"])), timeout=1800)


def poly(rng, deg):
	return {"name": "poly", "c": [q(rng.choice([-2, -1, 0, 1, 2, 3]), rng.choice([1, 1, 2])) for _ in range(deg)] + [q(rng.choice([-2, -1, 1, 2]), rng.choice([1, 2, 4]))]}


def mfun(rng, D=None, want=None):
	"""A function of the specification with moderate slope, suited to the spectrum D (None: unknown)."""
	n = want or rng.choice(["poly", "poly", "identity", "abs", "exp", "smoothstep", "softsign", "numrank", "sqrt", "log", "inv", "step"])
	pos = D is not None and all(x >= Fraction(1, 2) for x in D)
	if n in ("sqrt", "log", "inv") and not pos:
		n = "exp"
	if n == "poly":
		return poly(rng, rng.randint(0, 6))
	if n == "exp":
		return exactf({"name": "exp", "t": q(rng.randint(-6, 6), 16)})
	if n == "smoothstep":
		a = Fraction(rng.randint(-16, 16), 4)
		return {"name": "smoothstep", "a": q.s(a), "b": q.s(a + rng.choice([1, 2, 4]))}
	if n == "softsign":
		return {"name": "softsign", "q": rng.randint(0, 6)}
	if n == "numrank":
		return exactf({"name": "numrank", "threshold": q.s(Fraction(rng.choice([1e-6, 0.25, 1.25])))})
	if n == "step":
		return {"name": "step", "c": q.s(Fraction(rng.choice([5, -3, 13]), 8)), "nonneg": rng.random() < 0.5}
	return {"name": n}


def operator(rng, nmax=5, full=None):
	"""(cfg without function, spectrum or None, vectors of chosen grade)."""
	n = rng.choice([1, 2, 3, 3, 4, 4, nmax] * 3 + [6, 8, 10])
	kind = rng.choice(["any", "spectral", "spectral", "positive", "grade"])
	deg = rng.choice([n, n, n + 3, *range(2, n + 1)]) if n > 1 else rng.choice([2, 5])
	cfg = {"deg": max(deg, 2), "rep": rng.choice(REPS), "orth": rng.choice([0, 3, 3, n, -1, 1, n + 5]), "prec": 64}
	if kind == "any":
		A = symm(rng, n, rng.choice(["any", "dominant", "sparse"]))
		if n > 5:
			cfg["deg"] = rng.randint(2, 5)
		return {**cfg, "A": A}, None, None
	if n > 5:
		cfg["deg"] = rng.choice([cfg["deg"], rng.randint(2, 5), 20, 50])
	if kind == "grade" and n > 1:
		g = rng.randint(1, min(n - 1, 5))
		vals = rng.sample([Fraction(x, 2) for x in range(-6, 9) if x != 0], g)
		D = [vals[i % g] for i in range(n)]
		rng.shuffle(D)
	elif kind == "positive":
		D = [Fraction(x, 2) for x in rng.sample(range(1, 16), n)]
	else:
		D = [Fraction(x, 2) for x in rng.sample(range(-8, 9), n)]
	A, U = with_spectrum(rng, n, D, rng.choice([1, 2]))
	return {**cfg, "A": A, "U": [[q.s(x) for x in r] for r in U], "D": [q.s(x) for x in D]}, D, U


def mvec(rng, cfg, U, D, prec=64):
	n = len(cfg["A"])
	z = rng.random()
	if z < 0.06:
		return ["0"] * n
	if U is not None and z < 0.5:
		J = rng.sample(range(n), rng.randint(1, n))
		v = [q.s(sum(U[i][j] * rng.choice([1, 2, -1]) for j in J)) for i in range(n)]
		if any(x != "0" for x in v):
			return v
	for _ in range(30):
		v = vec(rng, n, rng.choice(["signs", "ints", "real"]))
		if cond_ok(cfg["A"], v, min(cfg["deg"], n), 1e7):
			break
	return v


def application(rng, cfg, U, D, kind=None, fresh=False, column=True):
	o = kind or rng.choice(["apply", "apply", "quad"])
	many = rng.random() < 0.3
	V = [mvec(rng, cfg, U, D) for _ in range(rng.choice([1, 2, 3, 3, 7]) if many else 1)]
	if rng.random() < 0.15:  # homogeneous of degree one (two)
		sc = Fraction(2) ** rng.choice([-24, -12, 10, 16])
		V = [[q.s(sc * Fraction(x)) for x in v] for v in V]
	op = {"op": o, "V": V, "many": many, "layout": rng.choice(["C", "F", "strided"])}
	if o == "apply":
		op["how"] = rng.choice(["matmul", "matmul", "matmat", "dot"] if many else ["matmul", "matvec", "dot", "adjoint", "rmatvec"])
		if not many and rng.random() < 0.25 and op["how"] != "dot":
			op["column"] = True
	if all(Fraction(x).denominator == 1 for v in V for x in v) and rng.random() < 0.15:
		op["vdtype"] = "int64"
	if fresh:
		op["fresh"] = True
	return op


def broad(rng, i, fresh):
	"""Operators of many rows, low degrees."""
	n = [66, 100, 130, 72][i % 4]
	A = [[q.s(Fraction(x) / 16) for x in r] for r in wide(rng, n, rng.choice(["any", "any", "indefinite"]))]
	cfg = {"A": A, "deg": rng.choice([2, 3, 4, 5]), "rep": rng.choice(REPS), "orth": rng.choice([0, 3, -1, 2]), "prec": 64, "f": rng.choice([poly(rng, rng.randint(1, 3)), {"name": "exp", "t": "1/4"}, {"name": "softsign", "q": 2}, {"name": "identity"}])}
	cfg["f"] = exactf(cfg["f"])
	ops = []
	for _ in range(rng.choice([1, 2])):
		m = rng.choice([1, 1, 3])
		ops.append({"op": rng.choice(["apply", "quad"]), "V": [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(m)], "many": m > 1, "layout": rng.choice(["C", "F", "strided"])})
		if fresh:
			ops[-1]["fresh"] = True
	return hist("x%d" % i, ops + ([{"op": "reread"}] if fresh else []), cfg if fresh else {**cfg, "form": rng.choice(["name", "callable"])}, weight=30)


def mcanary(h, ev):
	if h["cfg"]["prec"] != 64 or h["cfg"].get("tier"):
		return None
	for e in ev:
		if e["op"] in ("apply", "quad") and e.get("ok") and "y" in e and all(cond_ok(h["cfg"]["A"], v, min(h["cfg"]["deg"], len(v)), 1e3) for v in e["V"]) and all(any(x != "0" for x in v) for v in e["V"]):
			f = next((x["f"] for x in reversed(ev[: ev.index(e)]) if x["op"] == "setfun"), h["cfg"]["f"])
			if f["name"] in ("poly", "identity", "exp") and e["y"]["v"]:
				e["y"]["v"][0] = q.add(e["y"]["v"][0], q(1, 8))
				return ev
	return None


def narrow(cfg, rng, f, V):
	"""Turn a configuration into single precision when everything in it is representable."""
	xs = [x for r in cfg["A"] for x in r] + [x for v in V for x in v]
	if all(float(np.float32(float(Fraction(x)))) == float(Fraction(x)) for x in xs):
		cfg["prec"] = 32
		cfg["adtype"] = rng.choice(["float32", "float64"])


def c18(c, tier):
	matfun_models(c)
	rng = c.rng
	hs = []
	for i in range(700 if c.thorough else 200):
		cfg, D, U = operator(rng)
		f = mfun(rng, D)
		cfg["f"] = f
		cfg["form"] = rng.choice(["name", "callable", "none"])
		op = application(rng, cfg, U, D)
		if rng.random() < 0.12 and cfg["orth"] == 3 and f["name"] not in ("step",):
			cfg["via"] = "matrix_function"
			if not op["many"] and op["op"] == "apply" and rng.random() < 0.5:
				op["how"] = "function"
				op.pop("column", None)
		ops = [op]
		if "via" not in cfg and rng.random() < 0.25:
			# the same array, refilled in place by its owner, and applied again
			for _ in range(rng.choice([1, 1, 2])):
				new = dict(op, V=[mvec(rng, cfg, U, D) for _ in range(len(op["V"]))], reuse=True)
				new.pop("vdtype", None)
				ops.append(new)
		if "via" not in cfg and rng.random() < 0.25:  # the same vectors under another function
			ops += [{"op": "setfun", "f": mfun(rng, D)}, dict(ops[-1])]
		if rng.random() < 0.15 and len(cfg["A"]) <= 3 and "via" not in cfg and len(ops) == 1:
			narrow(cfg, rng, f, [v for o in ops for v in o["V"]])
		hs.append(hist("m%d" % i, ops, cfg))
	hs += [broad(rng, i, False) for i in range(16 if c.thorough else 5)]
	for i in range(60 if c.thorough else 12):
		n = rng.randint(24, 30)
		A, D, U, v = long_problem(rng, n)
		gap = sorted(D)
		k = rng.randrange(n // 2)
		f = rng.choice([{"name": "inv"}, {"name": "sqrt"}, {"name": "log"}, {"name": "step", "c": q.s((gap[k] + gap[k + 1]) / 2), "nonneg": False}])
		cfg = {"A": A, "U": [[q.s(x) for x in r] for r in U], "D": [q.s(x) for x in D], "deg": n + rng.choice([0, 0, 5]), "orth": rng.choice([-1, n, n + 1, 5 * n]), "prec": 64, "rep": rng.choice(REPS), "f": f, "form": "callable", "tier": "long"}
		ops = [{"op": "apply", "V": [v], "many": False, "layout": "C"}, {"op": "quad", "V": [v], "many": False, "layout": "C"}]
		hs.append(hist("l%d" % i, rng.sample(ops, rng.choice([1, 2])), cfg, weight=40))
	c.bind("matfun", "TrMatFun", hs, canary=mcanary)


def c19(c, tier):
	matfun_models(c)
	rng = c.rng
	hs = []
	seqs = c.generate("MCWorkspace", WS.format(d=3, m=4 if c.thorough else 3, g="{1, 2, 3}", emit="TRUE"), limit=1200 if c.thorough else 150)
	for i, s in enumerate(seqs):
		# a matrix with eigenvectors to span every grade
		n = rng.choice([3, 4, 5])
		pos = rng.random() < 0.3
		D = [Fraction(x) for x in rng.sample(range(1, 7) if pos else range(-4, 5), n)]
		A, U = with_spectrum(rng, n, D, 1)
		cfg = {"A": A, "U": [[q.s(x) for x in r] for r in U], "D": [q.s(x) for x in D], "deg": 3, "orth": rng.choice([0, 3, 2]), "prec": 64, "rep": rng.choice(REPS)}
		fs = [mfun(rng, D), mfun(rng, D, "poly")]
		cfg["f"], k = fs[0], 0
		ops = []
		for o in s:
			if o["o"] == "setfun":
				k = 1 - k
				ops.append({"op": "setfun", "f": fs[k]})
				continue
			g = o["g"]
			J = rng.sample(range(n), g if g < 3 else n)
			v = [q.s(sum(U[r][j] * rng.choice([1, 2, 3]) for j in J)) for r in range(n)]
			if all(x == "0" for x in v):
				v[0] = "1"
			ops.append({"op": "quad" if o["o"] == "quad" else "apply", "V": [v], "many": False, "fresh": True, "reuse": rng.random() < 0.5})
		ops.append({"op": "reread"})
		hs.append(hist("w%d" % i, ops, cfg))
	for i in range(400 if c.thorough else 50):
		cfg, D, U = operator(rng)
		cfg["f"] = mfun(rng, D)
		ops = []
		for _ in range(rng.randint(3, 7)):
			if rng.random() < 0.2:
				ops.append({"op": "setfun", "f": mfun(rng, D)})
			else:
				ops.append(application(rng, cfg, U, D, fresh=True))
				if rng.random() < 0.3:
					ops += [{"op": "setfun", "f": mfun(rng, D)}, dict(ops[-1])]
				if rng.random() < 0.5:  # in the caller's previous array
					ops[-1]["reuse"] = True
			if rng.random() < 0.2:
				ops.append({"op": "reread"})
		ops.append({"op": "reread"})
		hs.append(hist("h%d" % i, ops, cfg))
	hs += [broad(rng, i, True) for i in range(12 if c.thorough else 4)]
	c.bind("matfun", "TrMatFun", hs, canary=mcanary)
