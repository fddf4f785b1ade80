"""C08: confidence intervals."""

from . import hist, q
from .crit import FAR, LEVELS

CFG = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Nested Heavier Shifted Permuted Emit
CONSTANTS
 Vals = {vals}
 MaxLen = {n}
 EMIT = {emit}
"""


def c08(c, tier):
	rng = c.rng
	out = c.generate("MCInterval", CFG.format(vals='{"-3", "1/2", "4"}', n=6 if c.thorough else 4, emit="TRUE"), limit=400 if c.thorough else 60)
	hs = []
	for i, a in enumerate(out):
		ops = [{"op": "ci", "a": a, "lev": lev, "dist": d, "form": "array", "default": False} for lev in rng.sample(LEVELS, 2) for d in ("t", "normal")]
		hs.append(hist("g%d" % i, ops))
	for i in range(250 if c.thorough else 70):
		n = 2 + i % 40 if i % 7 else rng.choice([41, 64, 100, 128, 200, 333, 700])
		off, sc = rng.choice([(0, 1), (10, 1), (-1000, q(1, 8)), (2**30, 16), (0, q(1, 2**40)), (0, 0)])
		a = [q.add(off, q.mul(sc, q(rng.randint(-512, 512), 64))) for _ in range(n)]
		ops = []
		whole = i % 5 == 2
		if whole:
			a = [q(rng.randint(-50, 50)) for _ in range(n)]
		for lev in (LEVELS if n < 60 else rng.sample(LEVELS, 2)) + rng.sample(FAR, 3) + ["0", "1"]:
			for d in ("t", "normal"):
				ops.append({"op": "ci", "a": a, "lev": lev, "dist": d, "form": rng.choice(["array", "list", "strided", "tuple", "reversed"] + (["int", "ints"] if whole else [])), "default": rng.random() < 0.5})
		for _ in range(2):
			p, p2 = sorted([rng.uniform(0.01, 0.999), rng.uniform(0.01, 0.999)])
			ops.append({"op": "nest", "a": a, "p": repr(p), "q": repr(p2), "dist": rng.choice(["t", "normal"]), "form": "array"})
		ops.append({"op": "refuse", "what": rng.choice(["high", "low", "text", "dist", "empty"])})
		hs.append(hist("w%d" % i, ops))

	for i, n in enumerate([1001, 1500, 2100, 4000] * (3 if c.thorough else 1)):  # many samples
		a = [q(rng.randint(-50, 50), 4) for _ in range(n)]
		hs.append(hist("l%d" % i, [{"op": "ci", "a": a, "lev": rng.choice(LEVELS), "dist": d, "form": "array", "default": False} for d in ("t", "normal")], weight=20))

	def canary(h, ev):
		for e in ev:
			if e["op"] == "ci" and e["lev"] not in ("0", "1") and e["spread"]:
				e["lo"] = q.sub(e["lo"], q(1, 10**4))
				return ev

	c.bind("ci", "TrInterval", hs, canary=canary)
