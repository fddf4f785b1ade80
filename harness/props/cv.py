"""C03: control variates."""

from . import hist, q

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
{props}
CONSTANTS
 Vals = {vals}
 P = {p}
 Alphas <- {al}
 Ecvs <- {ec}
 MaxRows = {rows}
 MaxOps = {ops}
 MaxBatch = {batch}
 EMIT = {emit}
"""


def cfg(**k):
	return CFG.format(**k)


def models(c):
	big = c.thorough
	inv = "VIEW View\nINVARIANTS Definition Exact KnownWhenRegular Recorded"
	c.model("MCControlVariate1", cfg(props=inv, vals='{"-1", "0", "3"}' if big else '{"-1", "3"}', p=1, al="A1", ec="E1", rows=4, ops=3, batch=2, emit="FALSE"))
	c.model("MCControlVariate1", cfg(props=inv, vals='{"0", "2"}', p=2, al="A2", ec="E2", rows=4 if big else 3, ops=2, batch=3, emit="FALSE"))


def histories(c, n, wide):
	out = []
	for p, vals in ((1, '{"-3", "0", "7/4", "5"}'), (2, '{"1", "-2", "1/2"}')):
		out += c.generate("MCControlVariate1", cfg(props="INVARIANT Emit", vals=vals, p=p, al=f"A{p}", ec=f"E{p}", rows=12, ops=5 if p == 1 else 3, batch=2 if p == 1 else 3, emit="TRUE"),
			simulate=n // 50 + 2, depth=8, seed=c.seed + 3, workers=8, limit=n)
	rng = c.rng
	hs = [hist("g%d" % i, h["ops"], {"ecv": h["ecv"], "alpha": h["alpha"], "rec": rng.random() < 0.4}) for i, h in enumerate(out)]
	for i in range(wide):
		p = rng.choice([1, 1, 2, 3, 5])
		off = rng.choice([0, 0, 10, -100, 20000])
		quiet = rng.random() < 0.3
		alpha = [q(rng.randint(-8, 8), 4) for _ in range(p)] if rng.random() < 0.35 else []
		ecv = [q(rng.randint(-8, 8) + 4 * off, 4) for _ in range(p)]
		affine = rng.random() < 0.25
		co = [rng.randint(-3, 3) for _ in range(p)]
		ops = []
		near = rng.choice([16, 64, 256]) if p > 1 and rng.random() < 0.5 else 0
		early = i % 5 == 3  # few samples at a time, also fewer than controls, also collinear at first
		first = rng.choice([1, 1, 2, 3]) if early else rng.choice([1, 2, 5, 200]) if p == 1 or alpha else rng.choice([8, 12, 150])
		long = i % 12 == 7 and not near
		huge = i % 15 == 4 and p < 3  # one update with very many samples
		flat = early and rng.random() < 0.4
		for k in range(rng.choice([25, 40]) if long else rng.randint(2, 6) + (4 if early else 0)):
			b = 1100 + 300 * k if huge and k < 2 else first if k == 0 else 1 if early else rng.choice([1, 1, 2, 5, 9] if not long else [1, 1, 1, 1, 50])
			rows = []
			for t in range(b):
				x = [q(rng.randint(-4096, 4096) + 64 * off, 64) for _ in range(p)]
				if near and not early:  # the last control almost repeats the first
					x[-1] = q.add(x[0], q(rng.randint(-64, 64), near))
				if flat and k < 3:
					x[-1] = "3"
				y = q(rng.randint(-256, 256), 64) if not affine else "1/2"
				for m, xx in zip(co, x):
					y = q.add(y, q.mul(m, xx))
				rows.append([y] + x)
			ops.append({"op": "update", "rows": rows, "atol": rng.choice(["1/8", "1", "4", "1/64", "20"]), "form": rng.choice(["2d", "2d", "F", "list", "strided"])})
			if rng.random() < 0.2:
				ops.append({"op": "other", "seed": rng.randint(0, 99), "alpha": rng.choice([[], [9.0] * p])})
			if rng.random() < 0.1:
				ops.append({"op": "badupdate", "rows": [["1"] * (p + rng.choice([0, 2]) if p > 1 else 3)] * rng.choice([1, 2])})
		last = max(k for k in range(len(ops)) if ops[k]["op"] == "update")
		for k in range(last):
			if (quiet or (long and k % 5)) and ops[k]["op"] == "update":
				ops[k]["quiet"] = True
		if i % 10 == 0:
			ops.append({"op": "refuse"})
		hs.append(hist("w%d" % i, ops, {"ecv": ecv, "alpha": alpha, "form": rng.choice(["array", "scalar", "list"]), "rec": rng.random() < 0.4}))
	return hs


def c03(c, tier):
	models(c)

	def canary(h, ev):
		for e in ev:
			if e["op"] == "update" and "est" in e and e["n"] > 3 and e["est"] not in ("nan", "inf", "-inf"):
				e["est"] = q.add(e["est"], q(1, 1000))
				return ev

	c.bind("cv", "TrControlVariate", histories(c, 500 if c.thorough else 100, 240 if c.thorough else 60), canary=canary)


BOOKS = ("length", "count criteria", "delta", "recorded", "rows of", "a refused", "a returned", "update is", "construction", "reading the", "without samples")


def books(c):
	"""C02 for control-variate estimators."""
	def canary(h, ev):
		for e in ev:
			if e["op"] == "update" and e.get("nvals", -1) > 0:
				e["vals"][-1]["v"][0] = "12345"
				return ev

	c.bind("cv", "TrControlVariate", histories(c, 300 if c.thorough else 40, 160 if c.thorough else 40), canary=canary,
		clauses=lambda s: s.startswith(BOOKS) or "died" in s or "outside" in s)
