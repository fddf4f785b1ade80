"""C23, C24, C25: isotropic vectors, threaded fills, random matrices."""

from fractions import Fraction

from . import hist, q

S = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
ISO = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Column Second Fourths SphereSum Synonyms
CONSTANTS
 N = {n}
"""
FILL = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Partition Complete NoSharing Plain Emit
{live}
CONSTANTS
 MaxM = {m}
 MaxT = {t}
 Rounds = {r}
 Passes = {p}
 EMIT = {emit}
"""
SPEC = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Orthogonal Symmetric Found Others Definite Inside Clipped HaarTrace HaarNorm HaarTurn
CONSTANTS
 N = {n}
 Values = {values}
"""
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]


def dcanary(h, ev):
	for e in ev:
		if e["op"] == "draw" and e.get("ok") and e["w"]["v"] and e["pdf"] in ("rademacher", "signs", "sphere"):
			e["w"]["v"][0] = q.mul(e["w"]["v"][0], q(9, 8))
			return ev
		if e["op"] == "moments" and e.get("ok"):
			e["second"][0][0] = q(5, 4)
			return ev


def c23(c, tier):
	big = c.thorough
	for n in [1, 2, 3, 4] + ([5] if big else []):
		c.model("MCIso", ISO.format(n=n))
	rng = c.rng
	hs = []
	for i in range(500 if big else 160):
		gens = {"g": rng.randint(0, 10**6)}
		ops = []
		for k in range(rng.choice([1, 2, 3, 4])):
			pdf = rng.choice(PDFS)
			n, m = rng.choice([1, 2, 3, 5, 8, 17]), rng.choice([1, 1, 2, 3, 7])
			op = {"op": "draw", "pdf": pdf, "form": rng.choice(["new", "new", "out", "out", "factory"]), "size": rng.choice([[n, m], [n, m], [n], [n, 1], [n, rng.choice([1, 2, 3]), rng.choice([2, 3])]])}
			if pdf == "rademacher" and rng.random() < 0.3:
				op["named"] = False
			if rng.random() < 0.4:
				op["gen"] = "g"
			else:
				op["seed"] = rng.randint(0, 999)
			if op["form"] == "out":
				op["prec"] = rng.choice([64, 64, 32])
				op["layout"] = rng.choice(["C", "F", "cols", "rows", "strided", "T"]) if len(op["size"]) == 2 else rng.choice(["C", "F", "strided"])
			elif len(op["size"]) == 1 and rng.random() < 0.6:
				op["int"] = True
			if op["form"] == "factory":
				op["key"] = "f%d" % k
				ops.append(op)
				if rng.random() < 0.7:
					ops.append(dict(op, size=[n + 1, m], int=False))
				continue
			ops.append(op)
		hs.append(hist("d%d" % i, ops, {"gens": gens}))
	for i in range(120 if big else 40):
		hs.append(hist("s%d" % i, [{"op": "stream", "seed": rng.randint(0, 9999), "n": rng.choice([1, 2, 3, 6, 11]), "pdf": rng.choice(PDFS), "parts": [rng.choice([1, 1, 2, 3, 8]) for _ in range(rng.randint(1, 5))],
			"factory": rng.random() < 0.4, "ints": rng.random() < 0.7}]))
	m = 400000 if big else 60000
	for pdf in PDFS:
		for via in ["new", "out", "threads", "single"]:
			for n in [1, 2, 3, 4, 5] if big else [rng.choice([1, 2]), rng.choice([3, 4, 5])]:
				hs.append(hist(f"m-{pdf}-{via}-{n}", [{"op": "moments", "pdf": pdf, "via": via, "n": n, "m": m // 6 if via == "single" else 10 * m if pdf in ("rademacher", "signs") else m, "seed": rng.randint(0, 10**6), "prec": rng.choice([32, 64]) if via == "out" else 64,
					"order": rng.choice(["C", "F"]), "threads": rng.choice([1, 2, 3, 5])}]))
	for i, d in enumerate(["rademacher", "signs"]):  # every value of a single-precision uniform draw
		hs.append(hist("n%d" % i, [{"op": "census", "pdf": d, "n": 2**rng.choice([1, 10, 23]), "m": 1, "times": 1, "seed": rng.randint(0, 10**6), "prec": 32, "order": rng.choice("CF")}], weight=40))
		o = hs[-1]["ops"][0]
		o["m"] = 2**23 // o["n"]
		o["times"] = 60 if big else 16
	for i in range(60 if big else 16):  # long vectors
		n = rng.choice([33, 64, 100, 257, 1000])
		pdf = rng.choice(PDFS)
		if Fraction(i, 2).denominator == 1:
			ms = max(2, 2000 // n)
			op = {"op": "draw", "pdf": pdf, "form": rng.choice(["new", "out"]), "size": rng.choice([[n, ms], [n], [n, 1], [ms, n]]), "seed": rng.randint(0, 999), "layout": "F"}
			hs.append(hist("L%d" % i, [op, {"op": "stream", "seed": rng.randint(0, 9999), "n": n, "pdf": pdf, "parts": [1, rng.choice([1, 2, 3])], "factory": False, "ints": True}], {"gens": {}}))
		else:
			pdf = rng.choice(["rademacher", "signs", "normal", "gaussian"])
			hs.append(hist("L%d" % i, [{"op": "moments", "pdf": pdf, "via": rng.choice(["new", "out", "threads"]), "n": n, "m": 4 * m // n, "pool": rng.choice([1, 2, 3]), "order": rng.choice("CF"), "arrange": rng.choice("CF"), "seed": rng.randint(0, 10**6), "prec": rng.choice([32, 64]), "threads": rng.choice([1, 2, 7])}]))
	c.bind("rand", "TrRand", hs, canary=dcanary)


def wcanary(h, ev):
	seen = False
	for e in ev:
		if e["op"] == "fill" and e.get("ok") and e["round"] == 1 and seen:
			e["w"]["v"][-1] = q.mul(e["w"]["v"][-1], "-1")
			return ev
		seen = True


def c24(c, tier):
	big = c.thorough
	c.model("MCFill", FILL.format(m=4 if big else 3, t=3, r=2, p=2, emit="FALSE", live="PROPERTY Ends"), timeout=1800)
	c.model("MCFill", FILL.format(m=7, t=9, r=1, p=1, emit="FALSE", live=""), timeout=1800)
	scheds = c.generate("MCFill", FILL.format(m=6, t=5, r=1, p=3, emit="TRUE", live=""), simulate=400 if big else 120, depth=20, limit=300 if big else 90)
	rng = c.rng
	hs = []
	for i, b in enumerate(scheds):
		cfg = {"n": rng.choice([1, 2, 3, 5]), "m": b["m"], "t": b["t"], "pdf": rng.choice(PDFS), "seed": rng.randint(0, 10**6), "kind": rng.choice(["int", "gen", "seq"])}
		ops = [{"op": "fill", "obj": "a", "sched": "seq"}, {"op": "fill", "obj": "b", "sched": b["sched"]}, {"op": "fill", "obj": "b", "sched": b["sched"][::-1]},
			{"op": "fill", "obj": "a", "sched": "rev"}, {"op": "fill", "obj": "c", "sched": "free"}, {"op": "fill", "obj": "c", "sched": rng.choice(["seq", "rev"])}]
		hs.append(hist("f%d" % i, ops, cfg))
	for i in range(200 if big else 60):
		t = rng.choice([1, 1, 2, 3, 4, 6, 8, 12, 16])
		m = rng.choice([1, 2, 3, 5, 7, 11, 16, 37, 64])
		cfg = {"n": rng.choice([1, 2, 3, 8, 33]), "m": m, "t": t, "pdf": rng.choice(PDFS), "seed": rng.randint(0, 10**6), "kind": rng.choice(["int", "gen", "seq"])}
		ops = []
		for _ in range(rng.choice([2, 4, 6])):
			if rng.random() < 0.3:
				ops.append({"op": rng.choice(["make", "drop"]), "obj": rng.choice("abc")})
			ops.append({"op": "fill", "obj": rng.choice("abc"), "sched": rng.choice(["seq", "rev", "free", [rng.randint(1, t) for _ in range(rng.randint(3, 40))]])})
		hs.append(hist("r%d" % i, ops, cfg))
	c.bind("rand", "TrRand", hs, canary=wcanary)


def scanary(h, ev):
	for e in ev:
		if e.get("ok") and "ew" in e and e["fits"]:
			e["M"]["v"][0] = q.add(e["M"]["v"][0], q(1, 1000))
			return ev


def spectrum(rng, n):
	kind = rng.choice(["any", "repeat", "zero", "neg", "sorted", "one", "scaled", "tiny", "fine", "fine"])
	D = [Fraction(rng.randint(-32, 32), 8) for _ in range(n)]
	if kind == "repeat":
		D = [rng.choice(D[:2]) for _ in range(n)]
	if kind == "zero":
		D = [x if rng.random() < 0.5 else Fraction(0) for x in D]
	if kind == "neg":
		D = [-abs(x) for x in D]
	if kind == "sorted":
		D = sorted(D)
	if kind == "one":
		D = [D[0]] * n
	if kind == "scaled":
		D = [x * 2**10 for x in D]
	if kind == "tiny":
		D = [x / 2**20 for x in D]
	if kind == "fine":  # needs double precision
		D = [Fraction(rng.choice([-1, 1]) * (2**38 + rng.randint(1, 2**38) * 2 + 1), 2**38) for _ in range(n)]
	return [q.s(x) for x in D]


def c25(c, tier):
	big = c.thorough
	c.model("MCSpectrum", SPEC.format(n=2, values=S(["-2", "-1", "0", "1/2", "3"])), timeout=1800)
	c.model("MCSpectrum", SPEC.format(n=3, values=S(["-1", "0", "1/2", "3"] if big else ["-1", "0", "2"])), timeout=1800)
	rng = c.rng
	hs = []
	for i in range(600 if big else 200):
		n = rng.choice([1, 2, 2, 3, 4, 5, 6, 8] * 4 + ([10, 12, 16] * 2 if big else [9, 11, 14]))
		ops = []
		for _ in range(rng.choice([1, 1, 2])):
			what = rng.choice(["symmetric", "symmetric", "haar"])
			op = {"op": "matrix", "what": what, "n": n, "seed": rng.randint(0, 10**6), "gen": rng.random() < 0.3}
			if rng.random() < 0.7:
				op["ew"] = spectrum(rng, n)
				if rng.random() < 0.3:
					z = Fraction(2) ** rng.choice([-60, -20, 30])
					op["ew"] = [q.s(Fraction(x) * z) for x in op["ew"]]
				op.update(aslist=rng.random() < 0.2, readonly=rng.random() < 0.3)
			if what == "symmetric":
				if rng.random() < 0.7:
					op["dist"] = rng.choice(["normal", "uniform"])
				if rng.random() < 0.4:
					op["pd"] = True
			if rng.random() < 0.12:
				op["fits"] = False
				if what == "haar" or rng.random() < 0.5:
					k = rng.choice([j for j in (0, 1, n - 1, n + 1, n + 3) if j >= 0 and j != n])
					op["ew"] = spectrum(rng, k) if k else []
				else:
					op["dist"] = rng.choice(["gaussian", "rademacher", "", "Normal", "exp"])
			ops.append(op)
		hs.append(hist("m%d" % i, ops))
	for i in range(24 if big else 6):
		n = rng.choice([2, 2, 3, 4]) if i else 2
		D = spectrum(rng, n)
		if len(set(D)) == 1:
			D[0] = q.add(D[0], "1")
		hs.append(hist("e%d" % i, [{"op": "ensemble", "n": n, "m": 60000 if big else 30000 if i < 2 else 4000, "ew": D, "seed": rng.randint(0, 10**6)}]))
	c.bind("rand", "TrRand", hs, canary=scanary)
