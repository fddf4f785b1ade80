"""C09-C15: trace and diagonal estimation."""

import itertools
from fractions import Fraction

import numpy as np

from . import hist, q
from .crit import near_thresholds
from .rand import dcanary

MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Definition Counted StopsFirst DiagExact BoundOk Emit
{live}
CONSTANTS
 Algs = {algs}
 Batches = {batches}
 MaxDraws = {draws}
 Which = {which}
 EMIT = {emit}
"""
SK = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS TraceUnbiased TraceVariance DiagUnbiased HutchppUnbiased LooUnbiased FullBudget
CONSTANTS
 N = {n}
 Vals = {vals}
 DEEP = {deep}
 SYM = {sym}
"""
REPS = ["C", "F", "view", "csr", "csc", "linop", "matvec", "matmul", "bare", "quad"]
CAP = lambda k: {"k": "count", "c": k}


def run_models(c, algs, which=None):
	big = c.thorough
	which = which or ("{1, 2, 3, 4, 5}" if big else "{2, 3}")
	for alg in algs:
		c.model("MCHutch", MC.format(algs='{"%s"}' % alg, batches="{1, 2, 3}" if big else "{2}", draws=8, which=which, emit="FALSE", live="PROPERTY Terminates"), timeout=1800)


def sketch_models(c):
	c.model("MCSketch", SK.format(n=2, vals='{"-1", "0", "1/2", "2", "3"}', deep="TRUE", sym="FALSE"))
	c.model("MCSketch", SK.format(n=3, vals='{"-1", "0", "2"}' if c.thorough else '{"-1", "2"}', deep="TRUE" if c.thorough else "FALSE", sym="TRUE"), timeout=1800)


def symm(rng, n, kind="any"):
	"""A symmetric matrix with exactly representable entries."""
	A = [["0"] * n for _ in range(n)]
	for i in range(n):
		for j in range(i + 1):
			x = q(rng.randint(-12, 12), rng.choice([1, 1, 2, 4]))
			if kind == "diag" and i != j:
				x = "0"
			if kind == "sparse" and i != j and rng.random() < 0.6:
				x = "0"
			A[i][j] = A[j][i] = x
		if kind == "dominant":
			A[i][i] = q.add(A[i][i], rng.choice([-1, 1]) * rng.randint(10, 20))
	if kind == "lowrank":
		A = [["0"] * n for _ in range(n)]
		for _ in range(rng.choice([1, 1, 2])):
			u = [rng.randint(-3, 3) for _ in range(n)]
			s = rng.choice([-1, 1, 2])
			A = [[q.add(A[i][j], q(s * u[i] * u[j])) for j in range(n)] for i in range(n)]
	return A


def square(rng, n, kind="any"):
	"""A square matrix, symmetric or not: the estimators do not depend on symmetry."""
	A = symm(rng, n, kind)
	if kind != "diag" and rng.random() < 0.4:
		for i in range(n):
			for j in range(i):
				if rng.random() < 0.7:
					A[i][j] = q.add(A[i][j], q(rng.randint(-8, 8), rng.choice([1, 2])))
	return A


def vec(rng, n, kind):
	if kind == "signs":
		return [rng.choice(["1", "-1"]) for _ in range(n)]
	if kind == "ints":
		return [q(rng.choice([-3, -2, -1, 1, 2, 3])) for _ in range(n)]
	return [q(rng.choice([-1, 1]) * rng.randint(1, 96), 32) for _ in range(n)]


def wide(rng, n, kind="any"):
	"""A matrix of many rows with few non-zero entries in each."""
	A = [["0"] * n for _ in range(n)]
	for i in range(n):
		A[i][i] = q(rng.randint(3, 12), rng.choice([1, 2])) if kind != "indefinite" else q(rng.choice([-1, 1]) * rng.randint(1, 12), rng.choice([1, 2]))
		if kind != "diag":
			A[i][(i + 1) % n] = A[(i + 1) % n][i] = q(rng.randint(-3, 3), 4)
			j = rng.randrange(n)
			if kind == "general" and j != i:
				A[i][j] = q.add(A[i][j], q(rng.choice([-1, 1]), 2))
	return A


def M(A):
	return np.array([[float(Fraction(x)) for x in r] for r in A])


def V(vs):
	return np.array([[float(Fraction(x)) for x in v] for v in vs]).T


def conf(**k):
	return {"alg": "hutch", "f": {"k": "none"}, "batch": 1, "m": 0, "cb": False, "full": False, "rec": False, "pdf": "callable", "rep": "C", "via": "object", "norm": False, "cap": False, **k}


def from_spec(c, alg, n):
	"""Complete runs of the specification: operator, criterion, configuration and vector stream."""
	which = "{1, 2, 3, 4, 5}"
	out = c.generate("MCHutch", MC.format(algs='{"%s"}' % alg, batches="{1, 2, 3}", draws=12, which=which, emit="TRUE", live=""), simulate=n * 2, depth=14, seed=c.seed + 11, workers=8, limit=n)
	hs = []
	for i, h in enumerate(out):
		d = h["c"]
		cc = conf(alg=alg, A=d["A"], f=d["f"], batch=d["batch"], cb=d["cb"], full=d["full"], rec=d["full"], rep=REPS[i % len(REPS)])
		hs.append(hist("g%d" % i, [{"op": "call", "c": cc, "stream": h["W"] + [["1", "1"]] * 40}]))
	return hs


def pick_stop(rng, rows, batch, dim, kinds):
	"""A criterion that starts to hold around some batch boundary of the given samples."""
	n = len(rows)
	k = rng.randint(1, max(1, n // batch)) * batch
	k = min(k, n)
	F = [f for f in near_thresholds(rng, rows[:k], batch if k > batch else k, dim) if f["k"] in kinds]
	f = rng.choice(F) if F else CAP(k)
	return f


def c09(c, tier):
	run_models(c, ["hutch"])
	hs = from_spec(c, "hutch", 300 if c.thorough else 50)
	rng = c.rng
	for i in range(500 if c.thorough else 110):
		n = rng.choice([1, 2, 3, 4, 5, 7, rng.choice([11, 17, 33])])
		A = square(rng, n, rng.choice(["any", "any", "dominant", "diag", "sparse"]))
		batch = rng.choice([1, 1, 2, 3, 4, 7])
		total = rng.choice([8, 12, 24, 36])
		W = [vec(rng, n, rng.choice(["signs", "ints", "real"])) for _ in range(total + 32)]
		AM, WM = M(A), V(W)
		rows = [[q.s(Fraction(float(WM[:, j] @ AM @ WM[:, j])))] for j in range(total)]
		full, cb = rng.random() < 0.6, rng.random() < 0.5
		b = batch if full or cb else 1
		via = rng.choice(["object", "object", "name"])
		f = pick_stop(rng, rows, b, 1, ("count", "tol", "conf") if via == "name" else ("count", "tol", "conf", "knee"))
		if via == "name" and f["k"] in ("tol", "conf"):
			f = {**f, **({"atol": "1/1000", "rtol": "1000"} if f["k"] == "tol" and f["atol"] == "0" else {})}
		if via == "object":
			if rng.random() < 0.4:
				g = pick_stop(rng, rows, b, 1, ("count", "tol", "conf"))
				f = {"k": rng.choice(["or", "and"]), "a": f, "b": g}
			if rng.random() < 0.2:
				f = {"k": "not", "a": {"k": "not", "a": f}}
			f = {"k": "or", "a": CAP(total), "b": f}
		elif f["k"] in ("conf", "tol"):
			# by name there is no cap: allow as many vectors as it takes, all alike at the end
			W = W[:total] + [W[0]] * 400 if f["k"] == "tol" else W
			if f["k"] == "conf":
				f = {**f, "atol": "1000000"} if rng.random() < 0.5 else {"k": "count", "c": rng.choice([0, 1, b, b + 1, 2 * b])}
		rec = rng.random() < 0.5 or "knee" in str(f)
		dt = rng.choice(["float64"] * 5 + ["float32"])
		cc = conf(A=A, f=f, batch=batch, cb=cb, full=full, rec=rec, rep=rng.choice(REPS), via=via, dtype=dt)
		if dt == "float32":
			cc["eps"] = "1/8388608"
		hs.append(hist("w%d" % i, [{"op": "call", "c": cc, "stream": W}]))
	for i in range(40 if c.thorough else 10):  # long runs
		n = rng.choice([1, 2, 3])
		A = square(rng, n)
		stop = rng.choice([31, 32, 33, 47, 64, 65, 101] + ([200, 201, 333] if c.thorough else []))
		full, cb, batch = i % 3 == 0, i % 5 == 0, rng.choice([1, 2, 7, 32])
		W = [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(stop + 40)]
		f = CAP(stop)
		if i % 2:  # a confidence criterion that is decided after thirty samples
			AM, WM = M(A), V(W)
			rows = [[q.s(Fraction(float(WM[:, j] @ AM @ WM[:, j])))] for j in range(stop)]
			F = [g for g in near_thresholds(rng, rows, 1, 1) if g["k"] in ("conf", "tol")]
			f = {"k": "or", "a": f, "b": rng.choice(F)} if F else f
		hs.append(hist("l%d" % i, [{"op": "call", "c": conf(A=A, f=f, batch=batch, cb=cb, full=full, rec=i % 2 == 0, rep=rng.choice(REPS)), "stream": W}]))
	for i in range(24 if c.thorough else 8):  # operators of many rows, batches of many vectors
		n, batch, total = [(65, 1, 5), (130, 3, 7), (257, 2, 4), (3, 150, 300), (2, 513, 600), (100, 40, 70), (33, 130, 131), (300, 5, 5)][i % 8]
		W = [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(total + 2 * batch)]
		cc = conf(A=wide(rng, n, rng.choice(["any", "general", "indefinite"])), f=CAP(total), batch=batch, cb=rng.random() < 0.5, full=i % 8 != 0, rec=rng.random() < 0.5, rep=rng.choice(REPS))
		hs.append(hist("x%d" % i, [{"op": "call", "c": cc, "stream": W}], weight=40))
	# named distributions and the default criterion, observed at the operator
	for i in range(40 if c.thorough else 14):
		n = rng.choice([2, 3, 5])
		A = square(rng, n, rng.choice(["any", "diag"]))
		default = i % 3 == 0
		f = {"k": "or", "a": CAP(200), "b": {"k": "conf", "lev": "0.95", "atol": "1", "rtol": "0"}} if default else CAP(rng.choice([1, 5, 9]))
		full = rng.random() < 0.7
		cc = conf(A=A, f=f, batch=32 if default and full else rng.choice([1, 2, 5]), full=full, cb=rng.random() < 0.4, rec=full, rep="rec", pdf="signs" if default else rng.choice(["signs", "sphere", "normal"]), via="default" if default else "object", seed=rng.randint(0, 99))
		hs.append(hist("n%d" % i, [{"op": "call", "c": cc, "stream": []}]))

	def canary(h, ev):
		if h["ops"][0]["c"]["f"]["k"] in ("knee",) or len(ev) < 4 or not ev[-1].get("ok"):
			return None
		ev[-1]["est"]["v"][0] = q.add(ev[-1]["est"]["v"][0], q(1, 100))
		return ev

	c.bind("trace", "TrTrace", hs, canary=canary)


def c14(c, tier):
	run_models(c, ["diag"], None if c.thorough else "{2, 4, 5}")
	hs = from_spec(c, "diag", 300 if c.thorough else 50)
	rng = c.rng
	for i in range(400 if c.thorough else 100):
		n = rng.choice([1, 2, 3, 4, 6, rng.choice([9, 16, 34])])
		A = square(rng, n, rng.choice(["any", "dominant", "diag", "sparse"]))
		total = rng.choice([4, 7, 10]) if i % 15 else rng.choice([33, 65])
		W = [vec(rng, n, rng.choice(["signs", "ints", "real"])) for _ in range(total + 8)]
		AM, WM = M(A), V(W)
		num = np.cumsum((AM @ WM) * WM, axis=1) / np.cumsum(WM * WM, axis=1)
		rows = [[q.s(Fraction(float(t))) for t in num[:, j]] for j in range(total)]
		via = rng.choice(["object", "object", "name"])
		f = pick_stop(rng, rows, 1, n, ("count", "tol"))
		if via == "object":
			if rng.random() < 0.4:
				f = {"k": rng.choice(["or", "and"]), "a": f, "b": pick_stop(rng, rows, 1, n, ("count", "tol"))}
			f = {"k": "or", "a": CAP(total), "b": f}
		elif f["k"] == "tol":
			W = W[:total] + [W[0]] * 600
			f = {**f, "atol": q.add(f["atol"], q(1, 50))}
		full, cb = rng.random() < 0.6, rng.random() < 0.5
		cc = conf(alg="diag", A=A, f=f, cb=cb, full=full, rec=rng.random() < 0.5, rep=rng.choice(REPS[:-1]), via=via)
		if i % 11 == 4:
			cc.update(dtype="float32", eps="1/8388608")
		hs.append(hist("w%d" % i, [{"op": "call", "c": cc, "stream": W}]))
	for i in range(30 if c.thorough else 10):
		n = rng.choice([2, 3, 5])
		cc = conf(alg="diag", A=square(rng, n, "any"), f=CAP(rng.choice([1, 4, 6])), full=rng.random() < 0.7, rec=True, rep="rec", pdf=rng.choice(["signs", "sphere", "normal"]), seed=rng.randint(0, 99), cb=rng.random() < 0.4)
		hs.append(hist("n%d" % i, [{"op": "call", "c": cc, "stream": []}]))
	for i in range(15 if c.thorough else 5):  # many dimensions
		n = [65, 130, 100, 257, 72][i % 5]
		total = rng.choice([2, 3, 5])
		W = [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(total + 3)]
		cc = conf(alg="diag", A=wide(rng, n, rng.choice(["any", "general", "indefinite", "diag"])), f=CAP(total), cb=rng.random() < 0.4, full=rng.random() < 0.5, rec=rng.random() < 0.5, rep=rng.choice(REPS[:-1]))
		hs.append(hist("x%d" % i, [{"op": "call", "c": cc, "stream": W}], weight=40))
	# the default tolerance criterion, reached on a diagonal operator (whose ratios never change)
	for i in range(6):
		n = rng.choice([2, 3])
		f = {"k": "tol", "atol": "149/10000000000", "rtol": "1/100", "ord": "2"}
		cc = conf(alg="diag", A=square(rng, n, "diag"), f=f, full=i % 2 == 0, rep="C", via="default")
		hs.append(hist("d%d" % i, [{"op": "call", "c": cc, "stream": [vec(rng, n, "ints") for _ in range(30)]}]))

	def canary(h, ev):
		if len(ev) < 4 or not ev[-1].get("ok"):
			return None
		ev[-1]["est"]["v"][0] = q.add(ev[-1]["est"]["v"][0], q(1, 100))
		return ev

	c.bind("trace", "TrTrace", hs, canary=canary)


def full_rank(A, W, need=1e-4):
	Y = M(A) @ V(W)
	if Y.shape[1] == 0:
		return True
	s = np.linalg.svd(Y, compute_uv=False)
	return Y.shape[1] <= Y.shape[0] and s[-1] > need * s[0]


def c12(c, tier):
	sketch_models(c)
	rng = c.rng
	hs = []
	for i in range(600 if c.thorough else 130):
		n = rng.choice([1, 2, 3, 4, 5, 6, 8]) if i % 9 else rng.choice([10, 12, 15, 18])
		kind = rng.choice(["any", "any", "dominant", "lowrank", "lowrank", "sparse"])
		A = square(rng, n, kind)
		m = rng.choice([0, 0, 1, 2, 3, 4] if n < 9 else [0, 3, 5, 6, 7])
		size = [t for t in (m, m + 1, m + 2)]
		S = [vec(rng, n, rng.choice(["signs", "ints", "real"])) for _ in range(40)]
		AM = M(A)
		r = np.linalg.matrix_rank(AM) if n else 0
		# every sketch size the code may choose must capture the range for the exactness clause
		lo = max(n // 3, 1) if m == 0 else m
		cap = bool(np.linalg.matrix_rank(AM @ V(S[:lo])) == r)
		cc = conf(alg="hutchpp", A=A, m=m, full=rng.random() < 0.6, mode=rng.choice(["reduced", "full"]), rep=rng.choice(REPS), cap=cap)
		if rng.random() < 0.12:
			cc.update(dtype="float32", eps="1/8388608")
		hs.append(hist("w%d" % i, [{"op": "call", "c": cc, "stream": S}]))

	for i in range(16 if c.thorough else 5):  # many dimensions, few vectors
		n = [66, 70, 100, 130, 80][i % 5]
		A = wide(rng, n, rng.choice(["any", "general"]))
		m = rng.choice([1, 2, 3, 4])
		S = [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(2 * (m + 2))]
		cc = conf(alg="hutchpp", A=A, m=m, full=rng.random() < 0.6, mode=["reduced", "full"][i % 2], rep=rng.choice(REPS), cap=False)
		hs.append(hist("x%d" % i, [{"op": "call", "c": cc, "stream": S}], weight=40))

	def canary(h, ev):
		if h["ops"][0]["c"]["f"]["k"] == "none" and h["ops"][0]["c"].get("dtype") is None and h["ops"][0]["c"]["cap"]:
			ev[-1]["est"]["v"][0] = q.add(ev[-1]["est"]["v"][0], q(1, 100))
			return ev

	c.bind("trace", "TrTrace", hs, canary=canary)


def c13(c, tier):
	sketch_models(c)
	rng = c.rng
	hs = []
	i = tries = 0
	while i < (350 if c.thorough else 90) and tries < 5000:
		tries += 1
		n = rng.choice([2, 3, 3, 4, 4, 5]) if tries % 8 else rng.choice([7, 8, 10])
		A = square(rng, n, rng.choice(["any", "dominant", "dominant", "sparse"]))
		if np.linalg.cond(M(A)) > 1e3:
			continue
		W = [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(n)]
		top = n if n < 6 else rng.choice([2, 3, 4])
		if not full_rank(A, W, 1e-3):
			continue
		f = rng.choice([{"k": "none"}, CAP(rng.randint(1, n + 2)), {"k": "conf", "lev": rng.choice(["0.5", "0.95"]), "atol": rng.choice(["1/2", "3", "10"]), "rtol": "0"}, {"k": "conf", "lev": "0.9", "atol": "0", "rtol": rng.choice(["1/10", "1"])}])
		via = "default" if f["k"] == "none" else rng.choice(["object", "name"])
		ff = CAP(n) if via == "default" else f
		if via == "object" and rng.random() < 0.3:
			ff = {"k": rng.choice(["or", "and"]), "a": f, "b": CAP(rng.randint(1, n))}
		if top < n:  # many dimensions, few vectors
			ff, via = CAP(top), rng.choice(["object", "name"])
		cc = conf(alg="xtrace", A=A, f=ff, batch=rng.choice([1, 1, 2, 3, n, 32] if top == n else [1, 2, 3]), cb=rng.random() < 0.5, full=rng.random() < 0.6, rec=rng.random() < 0.6, rep=rng.choice(REPS[:-1]), via=via)
		hs.append(hist("w%d" % i, [{"op": "call", "c": cc, "stream": W}]))
		i += 1
	for i in range(120 if c.thorough else 36):
		n = rng.choice([2, 2, 3, 3, 4])
		A = square(rng, n, "dominant")
		while np.linalg.cond(M(A)) > 100:
			A = square(rng, n, "dominant")
		f = rng.choice([CAP(n), CAP(1), CAP(2), {"k": "conf", "lev": "0.95", "atol": "2", "rtol": "0"}])
		cc = conf(alg="xtrace", A=A, f=f, batch=rng.choice([1, 2, n]), cb=rng.random() < 0.4, full=rng.random() < 0.6, rec=rng.random() < 0.5, rep="rec", pdf="sphere", norm=True, seed=rng.randint(0, 9999))
		hs.append(hist("s%d" % i, [{"op": "call", "c": cc, "stream": []}], weight=40))

	for i in range(12 if c.thorough else 3):  # many dimensions, few vectors
		n = [66, 100, 70, 130][i % 4]
		top = rng.choice([2, 3, 4])
		cc = conf(alg="xtrace", A=wide(rng, n, rng.choice(["any", "general"])), f=CAP(top), batch=rng.choice([1, 2, 3]), cb=rng.random() < 0.5, full=rng.random() < 0.6, rec=rng.random() < 0.6, rep=rng.choice(REPS[:-1]))
		hs.append(hist("x%d" % i, [{"op": "call", "c": cc, "stream": [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(8)]}], weight=40))

	def canary(h, ev):
		if len(ev) < 3 or h["ops"][0]["c"]["pdf"] == "sphere" or not ev[-1]["ok"]:
			return None
		ev[-1]["est"]["v"][0] = q.add(ev[-1]["est"]["v"][0], q(1, 10))
		return ev

	c.bind("trace", "TrTrace", hs, canary=canary)


def c15(c, tier):
	sketch_models(c)
	rng = c.rng
	hs = []
	for i in range(400 if c.thorough else 110):
		pdf = rng.choice(["signs", "signs", "sphere"])
		n = rng.choice([2, 3, 4, 5] if pdf == "signs" else [2, 3]) if i % 10 else rng.choice([6, 7, 8] if pdf == "signs" else [3, 4])
		kind = rng.choice(["any", "dominant", "sparse"])
		A = square(rng, n, kind)
		while np.linalg.cond(M(A)) > 1e3:
			A = square(rng, n, kind)
		# seeds whose sign vectors are independent (inputs only)
		for _ in range(200):
			m = rng.choice([0, 1, 2, 3, 4, 2 * n, 2 * n - 1, 2 * n + 3]) if pdf == "signs" else rng.choice([1, 2, 3, 4])
			k = n if m == 0 else min((m + 1) // 2, n)
			seed = rng.randint(0, 10**6)
			if pdf != "signs":
				break
			X = np.floor(np.random.default_rng(seed).random((k, n)).T * 2) * 2 - 1
			if np.linalg.svd(M(A) @ X, compute_uv=False)[-1] > 1e-2:
				break
		else:
			continue
		cc = conf(alg="xdiag", A=A, m=m, rep="rec", pdf=pdf, seed=seed)
		hs.append(hist("w%d" % i, [{"op": "call", "c": cc, "stream": []}]))

	for i in range(9 if c.thorough else 3):  # many dimensions, few vectors
		n = [66, 100, 70][i % 3]
		hs.append(hist("x%d" % i, [{"op": "call", "c": conf(alg="xdiag", A=wide(rng, n, rng.choice(["any", "general"])), m=rng.choice([2, 3, 4]), rep="rec", pdf=rng.choice(["signs", "sphere"]), seed=rng.randint(0, 10**6)), "stream": []}], weight=40))

	def canary(h, ev):
		if ev[-1]["ok"] and h["ops"][0]["c"]["pdf"] == "signs":
			ev[-1]["est"]["v"][0] = q.add(ev[-1]["est"]["v"][0], q(1, 10))
			return ev

	c.bind("trace", "TrTrace", hs, canary=canary)


def c11(c, tier):
	sketch_models(c)
	rng = c.rng
	hs = []
	for i in range(60 if c.thorough else 20):
		n = rng.choice([1, 2, 3, 4, 4, 5] + ([6, 7] if c.thorough else [])) if i else 8
		A = square(rng, n, rng.choice(["any", "dominant", "sparse", "lowrank"]))
		rep = rng.choice(REPS)
		ops = [{"op": "signs", "tag": "hutch", "c": conf(A=A, f=CAP(1), rep=rep)}]
		ops.append({"op": "signs", "tag": "hutch", "c": conf(A=A, f=CAP(1), rep=rep, full=True, cb=True)})
		ops.append({"op": "signs", "tag": "diag", "c": conf(alg="diag", A=A, f=CAP(1), rep=rng.choice(REPS[:-1]), full=rng.random() < 0.5)})
		hs.append(hist("a%d" % i, ops))
	i = tries = 0
	while i < (60 if c.thorough else 16) and tries < 3000:
		tries += 1
		n, m = rng.choice([(2, 1), (3, 1), (3, 1), (2, 2)] + ([(4, 1), (3, 3)] if c.thorough else []))
		nb = m + m % 3
		A = square(rng, n, rng.choice(["any", "dominant"]))
		pre = [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(nb)]
		if nb < n and not full_rank(A, pre, 1e-2) or n * nb > 9:
			continue
		if nb >= n and np.linalg.matrix_rank(M(A) @ V(pre)) < np.linalg.matrix_rank(M(A)):
			continue
		hs.append(hist("p%d" % i, [{"op": "signs", "tag": "hutchpp", "k": nb, "pre": pre, "c": conf(alg="hutchpp", A=A, m=m, rep=rng.choice(REPS), mode=rng.choice(["reduced", "full"]))}]))
		i += 1

	def canary(h, ev):
		for e in ev:
			if e["op"] == "sign":
				e["est"]["v"][0] = q.add(e["est"]["v"][0], q(1, 10))
				return ev

	c.bind("trace", "TrTrace", hs, canary=canary)
	# ... and the sign vectors drawn are equally likely
	ms = [hist("e%d" % i, [{"op": "moments", "pdf": pdf, "via": via, "n": n, "m": 600000, "seed": rng.randint(0, 10**6), "prec": 64, "order": "F", "threads": 1}]) for i, (pdf, via, n) in enumerate([("rademacher", "new", 2), ("signs", "new", 3), ("rademacher", "threads", 4)])]
	c.bind("rand", "TrRand", ms, canary=dcanary)


def c10(c, tier):
	run_models(c, ["hutch"], "{2}")
	rng = c.rng
	hs = []
	for i in range(160 if c.thorough else 45):
		n = rng.choice([1, 2, 3, 5, 8, 8, 14, 27])
		A = square(rng, n, rng.choice(["any", "dominant", "sparse"]))
		alg = rng.choice(["hutch", "hutch", "hutch", "hutchpp", "xtrace", "diag"])
		total = rng.choice([6, 12, 24])
		seeded = rng.random() < 0.5
		pdf = rng.choice(["signs", "sphere", "normal"]) if seeded else "callable"
		W = [vec(rng, n, rng.choice(["signs", "ints", "real"])) for _ in range(total + 40)]
		if alg == "hutchpp":
			W = [vec(rng, n, "real") for _ in range(60)]
		reps = REPS if alg != "diag" else REPS[:-1]
		if alg == "xtrace":
			reps = REPS[:-1]
			A = square(rng, n, "dominant")
			while np.linalg.cond(M(A)) > 50:
				A = square(rng, n, "dominant")
			pdf = "sphere" if pdf == "signs" else pdf
			k = rng.randint(1, n)
			if pdf == "callable" and not full_rank(A, W[:n], 1e-2):
				continue
		if alg == "hutchpp" and not full_rank(A, W[: min(n, 3)], 1e-2):
			continue
		base = conf(alg=alg, A=A, f=CAP(total if alg in ("hutch", "diag") else (k if alg == "xtrace" else 0)), rep="C", pdf=pdf, full=True, rec=alg != "xtrace", m=1 + n // 3 if alg == "hutchpp" else 0)
		if seeded:
			base["seed"] = rng.randint(0, 9999)
		var = []
		for r in rng.sample(reps, min(len(reps), 6)):
			d = {"rep": r}
			if alg in ("hutch", "xtrace"):
				d["batch"] = rng.choice([1, 2, 3, 5, 7, 32]) if alg == "hutch" else rng.choice([b for b in (1, 2, 3, 5, 8) if k % min(b, n) == 0] or [1])
			if alg == "hutchpp":
				d["mode"] = rng.choice(["reduced", "full"])
				d["full"] = rng.random() < 0.5
			elif alg != "xtrace":
				d["cb"] = rng.random() < 0.5
			elif rng.random() < 0.5:
				d["cb"] = True
			if alg == "xtrace":
				d["full"] = rng.random() < 0.6
			var.append(d)
		if alg in ("hutch", "diag"):
			# the plain call gives the estimate only: compare it with the plain call of another representation below
			pass
		eps = "1/4503599627370496" if alg in ("hutch", "diag") else "1/100000000000000"
		ops = [{"op": "same", "c": base, "stream": W, "variants": var, "eps": eps}]
		hs.append(hist("s%d" % i, ops))
		# estimates of plain calls: same stream, every representation, with and without result or callback
		if alg in ("hutch", "diag"):
			b = rng.choice([1, 1, 2, 3])
			tot = total - total % b
			plain = []
			for r in rng.sample(reps, 4):
				full = rng.random() < 0.5
				plain.append({"rep": r, "full": full, "cb": rng.random() < 0.5, "rec": False, "batch": b if alg == "hutch" else 1})
			hs.append(hist("e%d" % i, [{"op": "same", "c": {**base, "f": CAP(tot), "rec": False}, "stream": W, "variants": plain, "eps": eps}]))

	for i in range(12 if c.thorough else 4):  # many dimensions
		n = [70, 130, 100, 257][i % 4]
		alg = rng.choice(["hutch", "diag"])
		W = [vec(rng, n, rng.choice(["signs", "ints"])) for _ in range(40)]
		base = conf(alg=alg, A=wide(rng, n, rng.choice(["any", "general"])), f=CAP(6), full=True, rec=True)
		var = [{"rep": r, "batch": rng.choice([1, 2, 3, 6]) if alg == "hutch" else 1, "cb": rng.random() < 0.5} for r in rng.sample(REPS[:-1], 4)]
		hs.append(hist("x%d" % i, [{"op": "same", "c": base, "stream": W, "variants": var, "eps": "1/4503599627370496"}], weight=20))

	for i in range(24 if c.thorough else 8):  # the identity matrix function stands for the matrix
		n = rng.choice([2, 3, 5, 9])
		A = symm(rng, n, rng.choice(["any", "dominant"]))
		alg = rng.choice(["hutch", "hutch", "hutchpp"])
		W = [vec(rng, n, rng.choice(["signs", "ints", "real"]) if alg == "hutch" else "real") for _ in range(60)]
		if alg == "hutchpp" and not full_rank(A, W[: min(n, 3)], 1e-2):
			continue
		base = conf(alg=alg, A=A, f=CAP(12 if alg == "hutch" else 0), full=True, rec=True, m=1 + n // 3 if alg == "hutchpp" else 0)
		var = [{"rep": "C"}] + [{"rep": "mf", "batch": b, "cb": b == 3, "mode": m} for b, m in ((1, "reduced"), (3, "reduced"), (5, "full"))]
		hs.append(hist("m%d" % i, [{"op": "same", "c": base, "stream": W, "variants": var, "eps": "1/10000000000"}]))

	def canary(h, ev):
		if h["ops"][0]["c"]["pdf"] == "callable" and len(ev) > 3 and all(e.get("ok", True) for e in ev):
			ev[-1]["vals"][0] = q.add(ev[-1]["vals"][0], q(1, 100))
			return ev

	c.bind("trace", "TrTrace", hs, canary=canary)
