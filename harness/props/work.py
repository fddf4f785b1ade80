"""C36: operators are used through products only, and through no more than documented."""

from fractions import Fraction

from . import hist, q
from .lan import deficient, with_spectrum
from .trace import symm, vec, wide

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS {inv}
{live}
CONSTANTS
 Dim = {dim}
 Degs = {degs}
 Budgets = {m}
 Batches = {b}
 FAULT = "{fault}"
"""
REPS = ["linop", "mat", "duck", "both"]


def matrix(rng):
	"""Operator, a start vector, and whether power iterations settle; Krylov spaces that end early included."""
	n = rng.choice([2, 3, 4, 5, 6, 7])
	if rng.random() < 0.5:
		A, v, D = deficient(rng, n)
		return A, v, False
	kind = rng.choice(["dominant", "diag", "sparse"])
	A = symm(rng, n, kind)
	leads = rng.random() < 0.3
	if leads:
		A[0][0] = "200"
	return A, vec(rng, n, rng.choice(["signs", "ints"])), leads


def criterion(rng):
	return rng.choice([{"k": "count", "args": {"count": rng.choice([0, 1, 3, 4, 7])}}] * 3 + [{"k": "tolerance", "args": {"rtol": 0.05, "atol": 0.0}}, {"k": "confidence", "args": {"rtol": 0.5, "atol": 0.0}}])


def call(rng, n, on, cost):
	fn = rng.choice(["hutch", "hutch", "diag", "hutchpp"] + ([] if on else ["xtrace", "xdiag", "xdiag"]))
	a = {"seed": rng.randint(0, 10**6)}
	if fn in ("hutch", "diag", "xtrace"):
		a.update(crit=criterion(rng), cap=rng.choice([2, 5, 9]), cb=rng.random() < 0.5)
		if fn == "xtrace":
			a["crit"] = {"k": "count", "args": {"count": rng.choice([1, 2, n, n + 2])}}
		if fn == "diag" and a["crit"]["k"] == "confidence":  # of numbers only
			a["crit"]["k"] = "tolerance"
		if fn != "diag":
			a["batch"] = rng.choice([1, 2, 3, 7])
		a["record"] = rng.random() < 0.3
	else:
		a["m"] = rng.choice([None, 1, 2, 3, 4, n])
		if fn == "hutchpp":
			a.update(mode=rng.choice(["reduced", "full"]), full=rng.random() < 0.5)
	if fn in ("xtrace", "xdiag", "hutchpp"):
		a["pdf"] = rng.choice(["normal", "sphere"])
	return {"fn": fn, "alg": fn, "args": a, "cost": cost, **({"on": "F"} if on else {})}


def suited(rng, ops, rep):
	"""A representation that has what the calls need."""
	fns = {o["fn"] for o in ops}
	if "xdiag" in fns:
		return rng.choice(["linop", "both"])
	if fns & {"make", "lanczos", "ritz"} and rep == "mat":
		return "linop"
	if fns & {"hutch", "diag", "xtrace", "hutchpp"} and rep == "duck":
		return "mat" if not fns & {"make", "lanczos", "ritz"} else "both"
	return rep


def canary(h, ev):
	for e in ev:
		if e["ok"] and e["cols"]:
			e["cols"] *= 40
			return ev


def c36(c, tier):
	big = c.thorough
	K = dict(dim=4, degs="{1, 2, 5}", m="{0, 1, 3}", b="{1, 2, 3}")
	c.model("MCWork", MC.format(**{**K, "dim": 5 if big else 4}, fault="none", inv="Within Broken Lazy", live="PROPERTY Ends"), timeout=1800)
	for f, inv in (("probe", "Within"), ("late", "Broken"), ("again", "Within"), ("eager", "Within")):
		c.model("MCWork", MC.format(**{**K, "dim": 3}, fault=f, inv=inv, live=""), refuted=inv)
	rng = c.rng
	hs = []
	for i in range(900 if big else 260):
		A, v, leads = matrix(rng)
		n = len(A)
		rep = rng.choice(REPS)
		ops, deg = [], rng.choice([2, 3, n, n + 2])
		fun = rng.random() < 0.45
		if fun:
			ops.append({"fn": "make", "alg": "make", "deg": deg, "orth": rng.choice([0, 3, n]), "fun": rng.choice(["exp", "abs", "smoothstep"])})
		for _ in range(rng.choice([1, 2, 3, 4])):
			z = rng.random()
			if fun and z < 0.5:
				k = rng.choice([1, 1, 2, 4])
				V = [rng.choice([v, v, vec(rng, n, "ints"), ["0"] * n]) for _ in range(k)]
				ops.append({"fn": rng.choice(["apply", "quad"]), "alg": "function", "deg": deg, "many": k, "V": V, "block": k > 1})
			elif fun and z < 0.6:
				ops.append({"fn": rng.choice(["look", "setfun"]), "alg": "make", "fun": "exp"})
			elif fun and z < 0.8:
				ops.append(call(rng, n, True, min(max(deg, 1), n)))
			elif z < 0.75:
				ops.append(call(rng, n, False, 1))
			elif z < 0.95:
				fn = rng.choice(["lanczos", "ritz"])
				ops.append({"fn": fn, "alg": fn, "deg": rng.choice([1, 2, 3, n, n + 3] if fn == "lanczos" else [2, 3, n, n + 3]), "orth": rng.choice([0, 0, 2, n]), "v": v, "basis": rng.random() < 0.5, "vecs": rng.random() < 0.5})
			elif rep == "linop" and leads:
				ops.append({"fn": "unit", "alg": "unit"})
				k = rng.choice([1, 3])
				ops.append({"fn": "times", "alg": "times", "many": k, "V": [vec(rng, n, "ints") for _ in range(k)], "block": k > 1})
		hs.append(hist("k%d" % i, ops, {"A": A, "rep": suited(rng, ops, rep)}))
	for i in range(20 if big else 6):  # many dimensions
		n = [40, 100, 65][i % 3]
		A = wide(rng, n)
		ops = [call(rng, n, False, 1), {"fn": "lanczos", "alg": "lanczos", "deg": rng.choice([5, 33]), "orth": 0, "v": vec(rng, n, "signs"), "basis": False}]
		if any(o["fn"] == "xdiag" for o in ops):
			ops = ops[1:]
		for o in ops:
			if o["fn"] == "xtrace":
				o["args"]["crit"] = {"k": "count", "args": {"count": rng.choice([4, 9])}}
			o.pop("cb", None)
		ops[-1]["skip"] = True
		hs.append(hist("x%d" % i, ops, {"A": A, "rep": suited(rng, ops, rng.choice(REPS))}))
	c.bind("work", "TrWork", hs, canary=canary)
