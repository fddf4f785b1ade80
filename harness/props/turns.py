"""C35: computations in progress at the same time."""

from . import hist

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AsAlone {own} Emit
{live}
CONSTANTS
 Procs = {procs}
 Steps = {steps}
 Sizes = {{1, 2}}
 FAULT = "{fault}"
 EMIT = {emit}
"""


def est_job(rng, n):
	fn = rng.choice(["hutch", "hutch", "hutch", "hutchpp", "xtrace", "diag", "diag", "xdiag"])
	j = {"job": "estimation", "fn": fn, "n": n, "kind": rng.choice(["matrix", "matrix", "csr", "linop", "toeplitz", "fun"] if fn in ("hutch", "hutchpp", "diag") else ["matrix"]), "draw": rng.choice(["own", "lib", "lib", "normal", "sphere"]), "full": rng.random() < 0.6, "cb": rng.random() < 0.5, "batch": rng.choice([1, 2, 3]), "rec": rng.random() < 0.5, "m": rng.choice([3, 4]), "mode": rng.choice(["reduced", "full"]), "fun": rng.choice(["exp", "abs", "smoothstep"]), "slowfun": rng.random() < 0.4}
	k = rng.choice(["count", "count", "tolerance", "confidence", "knee"])
	if fn != "hutch" and k in ("confidence", "knee"):
		k = "count"
	j["crit"] = {"k": k, "args": {"count": {"count": rng.choice([3, 4, 6])}, "tolerance": {"rtol": 0.01}, "confidence": {"rtol": 0.2}, "knee": {}}[k]}
	if fn in ("xtrace", "hutchpp", "xdiag") and j["draw"] == "own":
		j["draw"] = "lib"
	if fn == "xdiag":
		j["draw"] = rng.choice(["normal", "sphere"])
	return j


def exp_job(rng, n):
	return {"job": "expansion", "fn": rng.choice(["lanczos", "lanczos", "ritz"]), "n": n, "kind": rng.choice(["matrix", "csr", "linop", "toeplitz"]), "deg": rng.choice([n, n, max(2, n - 1)]), "orth": rng.choice([0, 2, n]), "basis": rng.random() < 0.5, "draw": rng.choice(["seed", "v0"]), "times": rng.choice([1, 2]), "method": rng.choice(["rrr", "tqli"])}


def fun_job(rng, n):
	return {"job": "function", "n": n, "under": rng.choice(["matrix", "csr", "linop", "toeplitz", "fun"]), "deg": rng.choice([n, n, max(2, n - 1), n + 3]), "orth": rng.choice([0, 3, n]), "fun": rng.choice(["exp", "abs", "smoothstep"]), "slowfun": rng.random() < 0.5, "ops": [rng.choice(["apply", "apply", "block", "quad"]) for _ in range(rng.choice([1, 2, 3]))]}


def seq_job(rng, n):
	return {"job": "sequence", "n": n, "what": rng.choice(["toeplitz", "toeplitz", "factory", "factory", "threads", "estimator", "estimator", "trinv", "tri", "quadrature", "quadrature", "isotropic", "matrices", "special"]), "pdf": rng.choice(["normal", "sphere", "rademacher"]), "est": rng.choice(["mean", "cov", "cv"]), "times": rng.choice([3, 4, 6]), "method": rng.choice(["auto", "tqli"]), "quad": rng.choice(["gw", "fttr"])}


MAKE = [est_job, est_job, exp_job, fun_job, fun_job, seq_job, seq_job]


def canary(h, ev):
	for e in ev:
		if e["op"] == "end" and e["ok"] and e["v"]:
			e["v"][0] = "12345"
			return ev


def c35(c, tier):
	big = c.thorough
	P = "{1, 2, 3}"
	two = "{1, 2}"
	c.model("MCTurns", MC.format(procs=P, steps="{1, 2, 3}" if big else "{1, 2}", fault="none", emit="FALSE", own="OwnBlock", live="PROPERTY Ends"), timeout=1800)
	for f in ("shared", "bySize", "early"):
		c.model("MCTurns", MC.format(procs=two, steps="{2, 3}", fault=f, emit="FALSE", own="", live=""), refuted="AsAlone")
	rng = c.rng
	sims = c.generate("MCTurns", MC.format(procs=P, steps="{5, 9, 16}", fault="none", emit="TRUE", own="", live=""), simulate=600 if big else 200, depth=100, limit=600 if big else 150, seed=c.seed + 5)
	hs = []
	for i in range(700 if big else 170):
		t = sims[i % len(sims)]
		k = rng.choice([2, 2, 2, 3])
		dims = [rng.choice([3, 4, 5]) for _ in range(2)]
		make = rng.choice(MAKE)
		proto = None
		jobs = []
		for p in range(k):
			if proto is not None and rng.random() < 0.35:  # the same computation on other data
				j = dict(proto)
			else:
				j = (make if rng.random() < 0.7 else rng.choice(MAKE))(rng, dims[t["size"][p] - 1])
			proto = j
			jobs.append({**j, "seed": rng.randint(0, 10**6), "mseed": rng.randint(0, 3)})
		order = [p - 1 for p in t["turns"] if p <= k]
		z = rng.random()
		if z < 0.15:  # one inside a pause of the other
			cut = rng.randint(1, 6)
			order = [0] * cut + [1] * 400
		elif z < 0.3:  # strictly alternating
			order = list(range(k)) * 60
		hs.append(hist("t%d" % i, [{"op": "turns", "jobs": jobs, "order": order, "first": rng.choice(["alone", "together"]), "keep": rng.random() < 0.5}], {"jobs": k}))
	c.bind("turns", "TrTurns", hs, canary=canary)
