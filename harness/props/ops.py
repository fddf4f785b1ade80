"""C26, C28, C29: triangular inverses, Toeplitz products, normalized operators."""

from fractions import Fraction

from . import hist, q
from .lan import REPS, with_spectrum
from .trace import vec

S = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
TRI = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS IsInverse Upper0 General PathFree Nested DiagRec Emit
PROPERTY Kept
CONSTANTS
 Diag = {diag}
 Upper = {up}
 MaxOrder = {order}
 MaxOps = {ops}
 EMIT = {emit}
"""
TOE = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Product Padding Constant Transpose Corner Symmetric Emit
CONSTANTS
 N = {n}
 Entry = {entry}
 Arg = {arg}
 MaxOps = {ops}
 EMIT = {emit}
"""
UNIT = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EigenKept Bounded DomToOne Sym Applies Order
CONSTANTS
 N = {n}
 Spectrum = {spec}
"""


def column(rng, n, kind, prec=64):
	if kind == "dyadic":
		return [q(rng.randint(-8, 8), 4) for _ in range(n - 1)] + [q(rng.choice([-1, 1]) * 2 ** rng.randint(0, 3), rng.choice([1, 2, 4]))]
	b = [q(rng.randint(-48, 48), rng.choice([1, 8, 16])) for _ in range(n - 1)]
	if kind == "sparse":
		b = [x if rng.random() < 0.4 else "0" for x in b]
	far = (-150, 150) if prec == 64 else (-30, 30)
	s = Fraction(2) ** (rng.randint(-12, 12) if kind == "scaled" else 0 if not kind.startswith("far") else rng.randint(*far) if kind == "far" else int(kind[3:]))
	d = Fraction(rng.choice([-1, 1]) * rng.randint(1, 40), rng.choice([1, 8, 16]))
	return [q.s(Fraction(x) * s) for x in b] + [q.s(d * s)]


def tcanary(h, ev):
	if h["cfg"]["prec"] != 64:
		return None
	for e in reversed(ev):
		if e["op"] == "append" and e["ok"] and len(e["M"]["v"]) in (4, 9):
			e["M"]["v"][1] = q.add(e["M"]["v"][1], q.s(Fraction(1, 1000) * max([1] + [abs(Fraction(x)) for x in e["M"]["v"]])))
			return ev


def c26(c, tier):
	big = c.thorough
	c.model("MCTriInverse", TRI.format(diag=S(["1", "-2"]), up=S(["-1", "0", "3"] if big else ["-1", "0", "2"]), order=3, ops=3, emit="FALSE"), timeout=1800)
	beh = c.generate("MCTriInverse", TRI.format(diag=S(["-2", "1/4"]), up=S(["-3", "1/2"]), order=5, ops=5, emit="TRUE"), simulate=100 if big else 15, depth=6, limit=600 if big else 120)
	rng = c.rng
	hs = []
	for i, b in enumerate(beh):
		hs.append(hist("g%d" % i, b["ops"], {"prec": 64}, kind="trinv"))
	for i in range(600 if big else 150):
		prec = 32 if rng.random() < 0.2 else 64
		orders, ops = [0], []
		kind = rng.choice(["any", "dyadic", "sparse", "scaled", "far%d" % rng.choice([60, 140, -60, -140] if prec == 64 else [30, -30])])
		fork = rng.choice([0, 0, 0.2])
		for _ in range(rng.choice([1, 2, 3, 5, 8, 12, 18] + ([20, 40] if big else []))):
			k = len(orders) if rng.random() >= fork else rng.randint(1, len(orders))
			if rng.random() < 0.12:
				w = rng.choice(["short", "long", "nonsquare", "dtype"])
				ops.append({"op": "refuse", "of": k, "what": w})
				continue
			ops.append({"op": "append", "of": k, "b": column(rng, orders[k - 1] + 1, kind, prec), "form": rng.choice(["flat", "flat", "column", "strided", "fortran"])})
			orders.append(orders[k - 1] + 1)
		hs.append(hist("t%d" % i, ops, {"prec": prec}, kind="trinv"))
	c.bind("ops", "TrOps", hs, canary=tcanary)


def ycanary(h, ev):
	if h["cfg"]["prec"] != 64:
		return None
	for e in ev:
		if e["op"] in ("mul", "unit") and e["ok"] and e["y"]["v"] and e["V"]:
			e["y"]["v"][-1] = q.add(e["y"]["v"][-1], q.s(Fraction(1, 1000) * max([1] + [abs(Fraction(x)) for v in e["V"] for x in v])))
			return ev


def product(rng, kind, n, scale=1):
	many = rng.random() < 0.25
	m = rng.choice([1, 2, 3, 6]) if many else 1
	V = []
	for _ in range(m):
		z = rng.random()
		v = ["0"] * n if z < 0.05 else ["1" if i == rng.randrange(n) else "0" for i in range(n)] if z < 0.15 else vec(rng, n, rng.choice(["signs", "ints", "real"]))
		V.append([q.s(Fraction(x) * scale) for x in v])
	op = {"op": kind, "V": V, "many": many, "layout": rng.choice(["C", "F", "strided"])}
	op["how"] = rng.choice(["matmul", "matmat", "dot"] if many else ["matmul", "matmul", "matvec", "dot"])
	if not many and rng.random() < 0.25:
		op["column"] = True
	return op


def c28(c, tier):
	big = c.thorough
	c.model("MCToeplitz", TOE.format(n=2, entry=S(["-1", "0", "2"]), arg=S(["0", "1", "-3"]), ops=2, emit="FALSE"), timeout=1800)
	c.model("MCToeplitz", TOE.format(n=3, entry=S(["-1", "0", "2"] if big else ["0", "2"]), arg=S(["0", "1", "-3"] if big else ["1", "-3"]), ops=2, emit="FALSE"), timeout=1800)
	beh = c.generate("MCToeplitz", TOE.format(n=3, entry=S(["-1", "0", "2", "1/2"]), arg=S(["0", "1", "-3"]), ops=3, emit="TRUE"), simulate=20, depth=4, limit=200)
	rng = c.rng
	hs = []
	for i, b in enumerate(beh):
		hs.append(hist("g%d" % i, [{"op": "mul", "V": [x], "many": False} for x in b["xs"]] + [{"op": "reread"}], {"c": b["c"], "r": b["r"], "prec": 64}, kind="mul"))
	for i in range(700 if big else 180):
		n = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 13, 16] * 3 + ([32, 50, 100] * 3 if big else [33, 64, 90]))
		n = {7: 128, 57: 257, 107: 300, 157: 101}.get(i, n)
		cfg = {"c": vec(rng, n, rng.choice(["ints", "real"])), "r": vec(rng, n, rng.choice(["ints", "real"])), "prec": 32 if rng.random() < 0.15 else 64}
		if rng.random() < 0.3:
			cfg["c"] = [x if rng.random() < 0.5 else "0" for x in cfg["c"]]
		if rng.random() < 0.25:
			cfg.update(sym=True, r=list(cfg["c"]))
		if rng.random() < 0.25 and all("/" not in x for x in cfg["c"] + cfg["r"]):
			cfg["int"] = True
		for k in "cr":  # one of the two in integers
			if "int" not in cfg and rng.random() < 0.5 and all("/" not in x for x in cfg[k]):
				cfg[k + "int"] = True
		if rng.random() < 0.2:
			cfg["view"] = True
		ops = []
		for _ in range(rng.choice([1, 2, 3, 5, 12]) if n < 20 else 2 if n < 128 else 1):
			z = rng.random()
			if z < 0.08:
				ops.append({"op": "refuse", "by": rng.choice([-1, 1, 2, n]) if n > 1 else rng.choice([1, 2]), "how": rng.choice(["matvec", "matmul"])})
			elif z < 0.18:
				ops.append({"op": "poke"})
			else:
				ops.append(product(rng, "mul", n, Fraction(2) ** rng.choice([0, 0, 0, 20, -20])))
				if rng.random() < 0.15 and all("/" not in x for v in ops[-1]["V"] for x in v):
					ops[-1]["int"] = True
		if rng.random() < 0.7:
			ops.append({"op": "reread"})
		hs.append(hist("z%d" % i, ops, cfg, kind="mul"))
	c.bind("ops", "TrOps", hs, canary=ycanary)


def c29(c, tier):
	big = c.thorough
	c.model("MCUnit", UNIT.format(n=2, spec=S(["-3", "-1", "0", "1/2", "2", "3"])), timeout=1800)
	c.model("MCUnit", UNIT.format(n=3, spec=S(["-3", "-1", "0", "1/2", "2", "3"] if big else ["-3", "0", "1/2", "2"])), timeout=1800)
	rng = c.rng
	hs = []
	for i in range(600 if big else 150):
		n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8] * 3 + [12, 20, 27])
		prec = 32 if rng.random() < 0.1 else 64
		top = Fraction(rng.randint(8, 32), 4)
		D = [Fraction(rng.randint(-int(top * 4) + 1, int(top * 4) - 1), 4) for _ in range(n)]
		if rng.random() < 0.3:
			D = [abs(x) for x in D]
		if rng.random() < 0.2:
			D = [-abs(x) for x in D]
		D = [x if abs(x) <= top * Fraction(9, 10) else Fraction(1, 2) for x in D]
		D[rng.randrange(n)] = top * rng.choice([-1, 1])
		s = Fraction(2) ** rng.choice([0, 0, 0, -20, 20])
		A, U = with_spectrum(rng, n, D, rng.choice([0, 1, 2]))
		cfg = {"A": [[q.s(Fraction(x) * s) for x in r] for r in A], "D": [q.s(x * s) for x in D], "rep": rng.choice(REPS[:-1]), "prec": prec}
		ops = [product(rng, "unit", n) for _ in range(rng.choice([1, 2, 3]))]
		j = rng.randrange(n)
		if rng.random() < 0.4:
			ops.append({"op": "unit", "V": [[q.s(U[i][j]) for i in range(n)]], "many": False})
		ops.append({"op": "reread"})
		hs.append(hist("u%d" % i, ops, cfg, kind="unit"))
	for i in range(20 if big else 6):  # many dimensions, other eigenvalues close to the dominant one
		n = rng.choice([36, 50, 64])
		D = [Fraction(1) - Fraction(rng.randint(1, 16) if rng.random() < 0.7 else rng.randint(100, 6000), 8192) for _ in range(n)]
		if rng.random() < 0.5:
			D = [x * rng.choice([1, 1, Fraction(-1, 2)]) for x in D]
		s = rng.choice([1, -1, 8, Fraction(1, 1024)])
		j = rng.randrange(n)
		D[j] = Fraction(1)
		A = [[q.s(s * D[r]) if r == t else "0" for t in range(n)] for r in range(n)]
		cfg = {"A": A, "D": [q.s(x * s) for x in D], "rep": rng.choice(REPS[:-1]), "prec": 64}
		ops = [{"op": "unit", "V": [[q(int(t == j)) for t in range(n)]], "many": False}, product(rng, "unit", n), {"op": "reread"}]
		hs.append(hist("c%d" % i, ops, cfg, kind="unit", weight=5))
	c.bind("ops", "TrOps", hs, canary=ycanary)
