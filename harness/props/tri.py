"""C20, C21: eigenpairs and Gauss rules of Jacobi matrices."""

from fractions import Fraction

import numpy as np

from . import hist, q

S = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
JAC = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Counts PowerSums Reversal Union Interlace Simple Positive Exact Defect
CONSTANTS
 N = {n}
 Diag = {diag}
 Off = {off}
"""
QL = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Orth Similar Traces Converges Result
PROPERTY Ends
CONSTANTS
 N = {n}
 Diag = {diag}
 Off = {off}
 MaxIter = 30
"""


def models(c, ql=True):
	big = c.thorough
	c.model("MCJacobi", JAC.format(n=3, diag=S(["-1", "0", "2"]), off=S(["0", "1", "-1/2"])), timeout=1800)
	c.model("MCJacobi", JAC.format(n=4, diag=S(["-1", "0", "2"] if big else ["0", "2"]), off=S(["0", "1", "-3"] if big else ["0", "1"])), timeout=1800)
	if ql:
		c.model("MCQL", QL.format(n=3, diag=S(["-1", "0", "2"] if big else ["0", "2"]), off=S(["0", "1", "-1/2"] if big else ["0", "1"])), timeout=1800)
		c.model("MCQL", QL.format(n=2, diag=S(["-1", "0", "2"]), off=S(["0", "1", "-1/2", "1/1048576"])), timeout=1800)
		if big:
			c.model("MCQL", QL.format(n=4, diag=S(["0", "2"]), off=S(["0", "1", "-3"])), timeout=1800)


def jacobi(rng, n, prec=64):
	kind = rng.choice(["any", "any", "split", "const", "zero", "graded", "wilkinson", "small", "negative"])
	den = rng.choice([1, 2, 8]) if prec == 32 else rng.choice([1, 2, 8, 1024])
	d = [Fraction(rng.randint(-40, 40), den) for _ in range(n)]
	b = [Fraction(rng.choice([-1, 1]) * rng.randint(1, 24), den) for _ in range(n - 1)]
	if kind == "split":
		b = [x if rng.random() < 0.6 else Fraction(0) for x in b]
	if kind == "const":
		d = [d[0]] * n
	if kind == "zero":
		d = [Fraction(0)] * n
	if kind == "graded" and prec == 64:
		d = [x * Fraction(2) ** (-3 * i) for i, x in enumerate(d)]
		b = [x * Fraction(2) ** (-3 * i) for i, x in enumerate(b)]
	if kind == "wilkinson":
		d = [Fraction(abs(n - 1 - 2 * i), 2) for i in range(n)]
		b = [Fraction(1)] * (n - 1)
	if kind == "small":
		b = [x / 2**rng.randint(10, 60 if prec == 64 else 14) for x in b]
	if rng.random() < 0.1:
		s = Fraction(2) ** rng.choice([-20, 20, 40] if prec == 64 else [-4, 4])
		d, b = [x * s for x in d], [x * s for x in b]
	if prec == 32 and not all(float(np.float32(float(x))) == x for x in d + b):
		return jacobi(rng, n, prec)
	return [q.s(x) for x in d], [q.s(x) for x in b]


def size(rng, thorough):
	return rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8] * 3 + ([12, 16, 20, 30] * 2 if thorough else [10, 10, 13, 18]))


def canary(h, ev):
	for e in ev:
		if e.get("ok") and e["op"] == "eig" and not e["vecs"] and e["prec"] == 64:
			e["w"]["v"][0] = q.add(e["w"]["v"][0], q.s(Fraction(1, 1000) * max([1] + [abs(Fraction(x)) for x in e["d"] + e["b"]])))
			return ev
		if e.get("ok") and e["op"] == "quad" and e["quad"] == "gw" and e["prec"] == 64 and len(e["w"]["v"]) > 1:
			e["w"]["v"][0] = q.add(e["w"]["v"][0], q(1, 1000))
			return ev


def c20(c, tier):
	models(c)
	rng = c.rng
	hs = []
	for i in range(700 if c.thorough else 200):
		prec = 32 if rng.random() < 0.1 else 64
		d, b = jacobi(rng, size(rng, c.thorough), prec)
		ops = []
		for _ in range(rng.choice([1, 1, 2, 3])):
			if rng.random() < 0.2:  # another matrix in between
				d, b = jacobi(rng, rng.choice([len(d), max(1, len(d) - 1), len(d) + 1]), prec)
			m = rng.choice(["mrrr", "auto", ""] if prec == 32 else ["mrrr", "tqli", "tqli", "auto", ""])
			ops.append({"op": "eig", "d": d, "b": b, "prec": prec, "method": m, "vecs": rng.random() < 0.6, "form": rng.choice(["n", "n-1"]), "layout": rng.choice(["", "", "strided", "reversed"])})
			if m == "tqli" and rng.random() < 0.3:
				ops[-1]["maxiter"] = rng.choice([30, 50, 200])
		hs.append(hist("e%d" % i, ops))
	for i in range(200 if c.thorough else 40):  # the smallest orders, with entries of all sizes
		n = [2, 2, 3][i % 3]
		d = [q(rng.randint(-4, 4), rng.choice([1, 2])) for _ in range(n)]
		b = [q.s(Fraction(rng.choice([-3, -1, 1, 5])) / 2 ** rng.choice([0, 1, 20, 28, 34, 50])) if rng.random() < 0.9 else "0" for _ in range(n - 1)]
		hs.append(hist("s%d" % i, [{"op": "eig", "d": d, "b": b, "prec": 64, "method": m, "vecs": v, "form": rng.choice(["n", "n-1"]), "layout": ""} for m, v in rng.sample([(m, v) for m in ("mrrr", "tqli", "auto", "") for v in (True, False)], 4)]))
	for i in range(16 if c.thorough else 4):  # large orders
		d, b = jacobi(rng, [40, 130, 64, 100][i % 4], 64)
		hs.append(hist("x%d" % i, [{"op": "eig", "d": d, "b": b, "prec": 64, "method": ["tqli", "mrrr"][i // 2 % 2], "vecs": i % 3 == 0, "form": "n", "layout": ""}], weight=30))
	c.bind("tri", "TrTri", hs, canary=canary)


def c21(c, tier):
	models(c, ql=False)
	rng = c.rng
	hs = []
	for i in range(700 if c.thorough else 220):
		prec = 32 if rng.random() < 0.08 else 64
		n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6] * 4 + ([8, 10, 14, 20] * 2 if c.thorough else [7, 9, 12]))
		d, b = jacobi(rng, n, prec)
		ops = []
		for _ in range(rng.choice([1, 1, 2, 3])):
			if rng.random() < 0.2:
				d, b = jacobi(rng, n, prec)
			quad = rng.choice(["gw", "fttr"]) if prec == 64 and all(x != "0" for x in b) else "gw"
			name = quad if quad == "fttr" else rng.choice(["gw", "golub_welsch", ""])
			ops.append({"op": "quad", "d": d, "b": b, "prec": prec, "quad": quad, "name": name, "deg": rng.choice([0, n, n + 3, *range(1, n + 1)]), "out": rng.choice([0, 0, 1, 2]),
				"form": rng.choice(["n", "n-1"]), "layout": rng.choice(["", "", "strided"])})
			if rng.random() < 0.3 and prec == 64:
				ops[-1]["method"] = rng.choice(["tqli", "mrrr", "auto"])
		hs.append(hist("q%d" % i, ops))
	for i in range(16 if c.thorough else 4):  # large orders
		n = [30, 64, 40, 100][i % 4]
		d, b = jacobi(rng, n, 64)
		quad = ["gw", "fttr"][i % 2] if all(x != "0" for x in b) else "gw"
		hs.append(hist("x%d" % i, [{"op": "quad", "d": d, "b": b, "prec": 64, "quad": quad, "name": quad, "deg": rng.choice([0, n]), "out": 0, "form": "n", "layout": ""}], weight=30))
	c.bind("tri", "TrTri", hs, canary=canary)
