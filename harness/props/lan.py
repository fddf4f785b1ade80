"""C16, C17, C22: Lanczos expansions and Ritz values."""

from fractions import Fraction

import numpy as np

from . import hist, q
from .trace import symm, vec, wide

KRY = """SPECIFICATION SpecF
CHECK_DEADLOCK FALSE
INVARIANTS Orthogonal PosCoupling Recurrence Moments LowDegree AtMostN Complete Prefix Interlace Covariant
PROPERTY Terminates
CONSTANTS
 N = {n}
 Vals = {vals}
 Starts = {starts}
 DEEP = {deep}
"""
RING = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Current Previous First Reorth Distinct Recent Basis Emit
PROPERTY Ends
CONSTANTS
 MaxDeg = {d}
 EMIT = {emit}
"""
REPS = ["C", "F", "view", "csr", "csc", "linop", "matvec", "strided", "reversed", "column"]


def krylov_models(c):
	c.model("MCKrylov", KRY.format(n=2, vals='{"-1", "0", "1/2", "2"}', starts='{"-1", "0", "2"}', deep="TRUE"))
	big = c.thorough
	c.model("MCKrylov", KRY.format(n=3, vals='{"-1", "0", "2"}', starts='{"-1", "0", "1"}' if big else '{"0", "1"}', deep="TRUE" if big else "FALSE"), timeout=1800)
	if big:
		c.model("MCKrylov", KRY.format(n=4, vals='{"0", "1"}', starts='{"0", "1"}', deep="FALSE"), timeout=1800)


def ring_model(c, emit=False):
	return c.generate("MCRing", RING.format(d=9 if c.thorough else 6, emit="TRUE"), limit=2000 if c.thorough else 160)


def house(rng, n, times=2):
	"""An orthogonal matrix with dyadic entries (rows of Fractions)."""
	Q = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
	for _ in range(times):
		opts = [(1, 1)] + ([(1, 1, 1, 1)] if n >= 4 else []) + ([(1, 1, 1, 1, 2)] if n >= 5 else []) + ([(3, 2, 1, 1, 1)] if n >= 5 else [])
		if n < 2:
			break
		t = rng.choice(opts)
		idx = rng.sample(range(n), len(t))
		u = [Fraction(0)] * n
		for i, x in zip(idx, t):
			u[i] = Fraction(rng.choice([-1, 1]) * x)
		s = sum(x * x for x in u)
		uq = [sum(u[i] * Q[i][j] for i in range(n)) for j in range(n)]
		Q = [[Q[i][j] - 2 * u[i] * uq[j] / s for j in range(n)] for i in range(n)]
	return Q


def with_spectrum(rng, n, D, times=2):
	"""A symmetric matrix with spectrum D, and its eigenvectors (columns of U), exactly."""
	U = house(rng, n, times)
	A = [[sum(U[i][k] * D[k] * U[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
	return [[q.s(x) for x in r] for r in A], U


def deficient(rng, n):
	"""A matrix and a start vector of small grade."""
	g = rng.randint(1, max(1, n - 1))
	vals = rng.sample([Fraction(x, 2) for x in range(-8, 9)], g)
	D = [vals[i % g] for i in range(n)]
	rng.shuffle(D)
	A, U = with_spectrum(rng, n, D, rng.choice([1, 2]))
	if rng.random() < 0.5:
		v = vec(rng, n, "ints")
	else:  # in the span of few eigenvectors
		J = rng.sample(range(n), rng.randint(1, n))
		v = [q.s(sum(U[i][j] * rng.choice([1, 2, -1]) for j in J)) for i in range(n)]
		if all(x == "0" for x in v):
			v[0] = "1"
	return A, v, D


def cond_ok(A, v, k, lim):
	"""Whether the exact entries can be compared (input generation only)."""
	a = np.array([[float(Fraction(x)) for x in r] for r in A])
	x = np.array([float(Fraction(t)) for t in v])
	f2 = (a * a).sum()
	s = a - np.trace(a) / len(a) * np.eye(len(a))
	s2 = (s * s).sum()
	amp = np.sqrt(f2 / s2) if s2 > 0 else 1.0
	p0, p, b = np.zeros(len(x)), x.copy(), 0.0
	for _ in range(k):
		nn = p @ p
		ap = a @ p
		al = p @ ap / nn
		nx = ap - al * p - b * p0
		b = nx @ nx / nn
		if b < max(1e-13 * s2, 1e-29 * f2, 1e-43):
			break
		amp *= max(1, s2 / b)
		p0, p = p, nx
	return amp < lim


def large_problem(rng, nmax=13):
	"""Dimensions beyond the small ones: as much of the expansion as exactness allows is compared."""
	n = rng.randint(7, nmax)
	for _ in range(50):
		if rng.random() < 0.4:
			A, v, D = deficient(rng, n)
		else:
			A, v = symm(rng, n, rng.choice(["any", "dominant", "sparse", "diag"])), vec(rng, n, rng.choice(["signs", "ints", "real"]))
		if cond_ok(A, v, min(n, 6), 1e7):
			break
	return A, v, None


def scaled(rng, v):
	"""The direction of a start vector is all that counts."""
	s = Fraction(2) ** rng.choice([-40, -20, -9, 7, 20, 45])
	return [q.s(s * Fraction(x)) for x in v]


def problem(rng, kind=None, nmax=6, shift=True):
	n = rng.choice([1, 2, 3, 3, 4, 4, 5, nmax])
	if kind is None and rng.random() < 0.12:
		return large_problem(rng)
	if (kind or rng.choice(["any", "any", "grade"])) == "grade" and n > 1:
		return deficient(rng, n)
	for _ in range(50):
		A = symm(rng, n, rng.choice(["any", "any", "dominant", "sparse", "diag"]))
		far = shift and rng.random() < 0.3
		if far:  # narrow spectra far from zero
			s, z = Fraction(rng.choice([2**8, -(2**12), 2**18, -(2**22), 2**25, -(2**25)])), rng.choice([1, 8, 32])
			A = [[q.s(Fraction(x) / z + (s if i == j else 0)) for j, x in enumerate(r)] for i, r in enumerate(A)]
		v = vec(rng, n, rng.choice(["signs", "ints", "real"]))
		if cond_ok(A, v, n, 1e9 if far else 1e7):
			return A, v, None
	return A, v, None


def conf(A, v, **k):
	d = {"A": A, "deg": 0, "orth": 0, "prec": 64, "rep": "C", "sparse": False, "basis": False, "ws": "fresh", "tier": "exact", "vform": "array", **k}
	if v is not None:
		d["v0"] = v
	return d


def broad(rng, i):
	"""Many dimensions and a low degree."""
	n = [70, 130, 100, 257, 66][i % 5]
	A, v = wide(rng, n, rng.choice(["any", "any", "indefinite"])), vec(rng, n, rng.choice(["signs", "ints"]))
	return conf(A, v, deg=rng.choice([1, 2, 3, 4, 6]), orth=rng.choice([0, 0, 2, -1]), rep=rng.choice(REPS), basis=rng.random() < 0.6, vform=rng.choice(["array", "list", "column", "strided"]))


def random_conf(rng, nmax=6, **k):
	A, v, _ = problem(rng, nmax=nmax)
	n = len(A)
	deg = rng.choice([0, n + rng.randint(0, 3)] + list(range(1, n + 1)) * 2)
	d = conf(A, v, deg=deg, orth=rng.choice([0, 0, 1, 2, 3, n, n + 4, -1]), rep=rng.choice(REPS), basis=rng.random() < 0.6, sparse=rng.random() < 0.3, vform=rng.choice(["array", "array", "list", "column", "f32", "strided", "reversed", "tuple", "int"]))
	if d["vform"] == "int" and any(Fraction(x).denominator != 1 for x in v):
		d["vform"] = "array"
	elif d["vform"] != "int" and rng.random() < 0.2:
		v = d["v0"] = scaled(rng, v)
	if cond_ok(A, v, min(n, deg or n), 1e4) and rng.random() < 0.2:
		d["rtol"] = rng.choice(["1e-12", "1e-10", "1e-6"])
	if d["vform"] == "f32" and any(float(np.float32(float(Fraction(x)))) != float(Fraction(x)) for x in v):
		d["vform"] = "array"
	if rng.random() < 0.25 and (n <= 4 or rng.random() < 0.3):
		d["prec"] = 32
		if rng.random() < 0.5:
			d["dtype"] = "float32"
			d["adtype"] = rng.choice(["float32", "float64"])
		else:
			d["adtype"] = "float32"
		if any(float(np.float32(float(Fraction(x)))) != float(Fraction(x)) for r in [*A, v] for x in r):
			d.update(prec=64)
			d.pop("dtype", None)
			d.pop("adtype", None)
	if rng.random() < 0.06 and not d.get("dtype") and n <= 4:  # images of another precision than the operator's
		if d["prec"] == 32:
			d["rep"] = "wide"
		elif all(float(np.float32(float(Fraction(x)))) == float(Fraction(x)) for r in [*A, v] for x in r):
			d.update(rep="narrow", prec=32)
		return {**d, **k}
	if rng.random() < 0.15 and not d.get("dtype") and d["prec"] == 64:
		d["basis"] = True
		del d["v0"]
		d["seed"] = rng.randint(0, 99)
	if d["basis"] and rng.random() < 0.4:  # into the caller's workspaces, whatever is in them
		d["ws"] = rng.choice(["dirty", "nan", "nan"])
	d.update(k)
	return d


def canary(h, ev):
	for e in ev:
		if e.get("ok") and e["op"] == "lanczos" and e["c"]["tier"] == "exact" and e["c"]["prec"] == 64 and "a" in e and "v0" in e["c"] and cond_ok(e["c"]["A"], e["c"]["v0"], len(e["c"]["A"]), 1e4):
			e["a"]["v"][0] = q.add(e["a"]["v"][0], q(1, 10))
			return ev
		if e.get("ok") and e["op"] == "ritz" and "v0" in e["c"] and cond_ok(e["c"]["A"], e["c"]["v0"], len(e["c"]["A"]), 1e4) and e["c"]["deg"] == 2:
			e["w"]["v"][0] = q.add(e["w"]["v"][0], q(1, 10))
			return ev


def c16(c, tier):
	krylov_models(c)
	rng = c.rng
	hs = []
	for i in range(900 if c.thorough else 220):
		d = random_conf(rng, nmax=8 if c.thorough else 6)
		hs.append(hist("k%d" % i, [{"op": "lanczos", "c": d}]))
		if rng.random() < 0.3 and "v0" in d:  # the same expansion of lower degree, in another representation
			hs[-1]["ops"].append({"op": "lanczos", "c": {**d, "deg": rng.randint(1, len(d["A"])), "rep": rng.choice(REPS), "sparse": not d["sparse"]}})
	for i in range(20 if c.thorough else 5):
		hs.append(hist("x%d" % i, [{"op": "lanczos", "c": {**broad(rng, i), "sparse": i % 2 == 0}}], weight=30))
	i = tries = 0
	while i < (60 if c.thorough else 20) and tries < 2000:  # narrow spectra very far from zero: only relative couplings count
		tries += 1
		n = rng.choice([2, 3, 4])
		B, s = symm(rng, n, "any"), rng.choice([-1, 1]) * Fraction(2) ** rng.choice([20, 22, 24, 25])
		A = [[q.s(Fraction(x) / 32 + (s if i == j else 0)) for j, x in enumerate(r)] for i, r in enumerate(B)]
		v = vec(rng, n, rng.choice(["signs", "ints"]))
		if cond_ok(A, v, 2, 1e9):
			hs.append(hist("f%d" % i, [{"op": "lanczos", "c": conf(A, v, deg=rng.choice([0, 2, n]), orth=rng.choice([0, 0, n]), rep=rng.choice(REPS))}]))
			i += 1
	c.bind("lan", "TrLanczos", hs, canary=canary)


def big_matrix(rng, n, kind):
	if kind == "clustered":
		D = [Fraction(1) + Fraction(rng.randint(0, 3), 64) for _ in range(n - 2)] + [Fraction(40), Fraction(-30)]
	elif kind == "spread":
		D = [Fraction(2) ** (i % 12 - 6) for i in range(n)]
	else:
		D = [Fraction(rng.randint(-64, 64), 8) for _ in range(n)]
	return with_spectrum(rng, n, D, n)[0]


def long_problem(rng, n):
	"""A spectrum whose Lanczos vectors lose orthogonality long before the space is exhausted, and a vector of equal weights."""
	p = rng.choice([2, 3])
	D = [Fraction(i**p, 64 if p == 2 else 512) for i in range(1, n + 1)]
	rng.shuffle(D)
	A, U = with_spectrum(rng, n, D, rng.choice([0, 1]))
	sg = [rng.choice([-1, 1]) for _ in range(n)]
	return A, D, U, [q.s(sum(U[i][j] * sg[j] for j in range(n))) for i in range(n)]


def c17(c, tier):
	krylov_models(c)
	rng = c.rng
	hs = []
	# every ring size, re-orthogonalization depth and breakdown of the specification, into dirty rings
	for i, g in enumerate(ring_model(c)):
		deg = g["deg"]
		n = deg + rng.randint(0, 2)
		gr = g["grade"]
		if gr < deg:
			vals = rng.sample([Fraction(x) for x in range(-6, 7)], gr)
			D = [vals[k % gr] for k in range(n)]
			A, U = with_spectrum(rng, n, D)
			v = [q.s(sum(U[r][k] for k in range(gr))) for r in range(n)]
			if all(x == "0" for x in v):
				continue
		else:
			A, v, _ = problem(rng, "any", nmax=6)
			for _ in range(60):
				if len(A) >= deg:
					break
				A, v, _ = problem(rng, "any", nmax=max(6, deg))
			if len(A) < deg:
				continue
		hs.append(hist("r%d" % i, [{"op": "raw", "c": conf(A, v, deg=deg, orth=g["orth"], ncv=g["ncv"], ws=rng.choice(["nan", "noise"]), rep=rng.choice(REPS))}]))
	for i in range(400 if c.thorough else 90):
		# histories of expansions into the same workspace
		ops = []
		n0 = rng.choice([2, 3, 4, 5])
		for _ in range(rng.randint(2, 4)):
			for _ in range(60):
				d = random_conf(rng, ws=rng.choice(["shared", "shared", "dirty", "nan"]), basis=True)
				if len(d["A"]) == n0:
					break
			if d["ws"] == "nan" and not d["basis"]:
				d["ws"] = "dirty"
			ops.append({"op": "lanczos", "c": d})
		hs.append(hist("h%d" % i, ops))
	for i in range(60 if c.thorough else 16):
		n = rng.choice([12, 16, 20])
		if i % 2:  # orthogonality to the first vectors is lost without re-orthogonalization
			D = [Fraction(k, n) for k in range(n - 3)] + [Fraction(x) for x in rng.choice([(100, 1000, 10000), (64, -512, 4096), (-100, -300, 9999)])]
			A, U = with_spectrum(rng, n, D, rng.choice([1, 2]))
			sg = [rng.choice([-1, 1]) for _ in range(n)]
			v = [q.s(sum(U[k][j] * sg[j] for j in range(n))) for k in range(n)]
		else:
			A = big_matrix(rng, n, rng.choice(["clustered", "spread", "random"]))
			v = vec(rng, n, "ints")
		orth = rng.choice([-1, n, n + 1]) if i % 2 else rng.choice([-1, n, n + 1, 3, 6])
		hs.append(hist("b%d" % i, [{"op": "lanczos", "c": conf(A, v, deg=rng.choice([0, n - 2] if i % 2 else [0, n // 2]), orth=orth, basis=True, ws=rng.choice(["fresh", "dirty"]), tier="relations", rep=rng.choice(REPS))}], weight=60))
	for i in range(8 if c.thorough else 2):  # many dimensions, many steps
		n = [100, 130][i % 2]
		A, v = wide(rng, n, "any"), vec(rng, n, "signs")
		hs.append(hist("y%d" % i, [{"op": "lanczos", "c": conf(A, v, deg=rng.choice([20, 35]), orth=-1, basis=True, ws=rng.choice(["fresh", "dirty"]), tier="relations", rep=rng.choice(REPS))}], weight=60))
	c.bind("lan", "TrLanczos", hs, canary=canary)


def c22(c, tier):
	krylov_models(c)
	rng = c.rng
	hs = []
	i = tries = 0
	while i < (500 if c.thorough else 140) and tries < 5000:
		tries += 1
		n = rng.choice([2, 3, 4, 5] * 4 + [6, 7, 8, 9])
		if rng.random() < 0.5:
			D = rng.sample([Fraction(x, 2) for x in range(-8, 9)], n)
			A, U = with_spectrum(rng, n, D)
			v = vec(rng, n, "ints")
		else:
			D = None
			A, v = symm(rng, n, rng.choice(["any", "dominant"])), vec(rng, n, "ints")
		deg = rng.choice([0, n + 2, *range(2, n + 1)])
		if not cond_ok(A, v, n, 1e7):
			continue
		d = conf(A, v, deg=deg, orth=rng.choice([0, 0, 2, n, -1]), vecs=rng.random() < 0.6, basis=rng.random() < 0.5, rep=rng.choice(REPS), method=rng.choice(["RRR", "rrr", "", "tqli", "TQLI"]))
		d["vform"] = rng.choice(["array", "array", "list", "column", "strided", "reversed", "tuple", "int"])
		if d["vform"] == "int" and any(Fraction(x).denominator != 1 for x in v):
			d["vform"] = "array"
		if d["vform"] != "int" and rng.random() < 0.2:
			d["v0"] = scaled(rng, v)
		if D is not None:
			d["D"] = [q.s(x) for x in D]
		if d["basis"] and rng.random() < 0.2:
			del d["v0"]
			d["seed"] = rng.randint(0, 99)
		hs.append(hist("z%d" % i, [{"op": "ritz", "c": d}]))
		i += 1
	for i in range(15 if c.thorough else 4):
		d = broad(rng, i)
		d.update(deg=max(2, d["deg"]), vecs=rng.random() < 0.6, method=rng.choice(["RRR", "tqli", ""]))
		hs.append(hist("x%d" % i, [{"op": "ritz", "c": d}], weight=30))
	for i in range(40 if c.thorough else 8):
		n = rng.randint(24, 30)
		A, D, U, v = long_problem(rng, n)
		d = conf(A, v, deg=rng.choice([0, n]), orth=rng.choice([-1, n, n + 3]), vecs=i % 2 == 0, basis=i % 4 < 2, rep=rng.choice(REPS), method=rng.choice(["RRR", "rrr", "", "tqli"]), tier="long", D=[q.s(x) for x in D])
		hs.append(hist("l%d" % i, [{"op": "ritz", "c": d}], weight=40))
	c.bind("lan", "TrLanczos", hs, canary=canary)
