"""C34: operators built from operators of the library."""

from fractions import Fraction

import numpy as np

from . import hist, q
from .fun import exactf
from .lan import with_spectrum
from .trace import CAP, V, conf, full_rank, symm, vec

MC = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Lower Symmetric SlqUnbiased Norms Nested
CONSTANTS
 N = {n}
 Vals = {vals}
 Coeffs <- {coeffs}
 DEEP = {deep}
"""
FL = lambda A: np.array([[float(Fraction(x)) for x in r] for r in A])
PY = {
	"identity": lambda x: x,
	"abs": np.abs,
	"sqrt": np.sqrt,
	"log": np.log,
	"inv": lambda x: 1 / x,
}


class Node:
	"""A term with what the generator knows of it: its matrix in floating point, and its spectrum if that is rational."""

	def __init__(self, t, M, U=None, D=None):
		self.t, self.M, self.U, self.D = t, M, U, D
		self.sym = bool(np.allclose(M, M.T, rtol=1e-12, atol=1e-12))
		self.n = len(M)


def peval(c, x):
	y = Fraction(0)
	for t in reversed(c):
		y = y * x + Fraction(t)
	return y


def leaf(rng, n, sym=True):
	z = rng.random()
	rep = rng.choice(["C", "F", "view", "csr", "csc", "linop", "matvec", "reversed"])
	if z < 0.3:
		c = [q(rng.randint(-4, 4), rng.choice([1, 2])) for _ in range(n)]
		r = c if sym or rng.random() < 0.4 else [c[0]] + [q(rng.randint(-4, 4)) for _ in range(n - 1)]
		M = np.array([[float(Fraction(c[i - j] if i >= j else r[j - i])) for j in range(n)] for i in range(n)])
		return Node({"k": "toeplitz", "c": c, "r": r}, M)
	if z < 0.5:
		A = symm(rng, n, rng.choice(["any", "sparse", "dominant"]))
		A = [[q.s(Fraction(x) / 4) for x in r] for r in A]
		return Node({"k": "matrix", "A": A, "rep": rep}, FL(A))
	pool = range(1, 9) if rng.random() < 0.5 else range(-7, 9)
	D = [Fraction(x, 2) for x in rng.sample(pool, n)]
	A, U = with_spectrum(rng, n, D, rng.choice([1, 2]))
	return Node({"k": "matrix", "A": A, "rep": rep}, FL(A), U, D)


def fun(rng, x, deg=None):
	n = x.n
	f = {"name": "poly", "c": [q(rng.choice([-2, -1, 0, 1, 2]), rng.choice([1, 2])) for _ in range(rng.choice([1, 2, 2, 3]))] + [rng.choice(["1", "-1", "1/2"])]}
	if deg is not None:
		f["c"] = f["c"][: max(1, 2 * deg)]
	elif x.D is not None and rng.random() < 0.7:
		pos = all(d >= Fraction(1, 2) for d in x.D)
		name = rng.choice(["identity", "exp", "smoothstep", "abs"] + (["sqrt", "log", "inv", "sqrt", "inv"] if pos else []))
		if name == "exp":
			f = exactf({"name": "exp", "t": rng.choice(["1/8", "-1/4", "1/2", "-1/16"])})
		elif name == "smoothstep":
			f = {"name": name, "a": rng.choice(["-1", "0"]), "b": rng.choice(["1", "3", "4"])}
		else:
			f = {"name": name}
	if x.t["k"] == "matrix" and rng.random() < 0.1:
		x.t["rep"] = rng.choice(["column", "strided"])
	t = {"k": "fun", "of": x.t, "f": f, "deg": deg or n + rng.choice([0, 0, 3]), "orth": rng.choice([n, -1, n + 2])}
	w, Y = np.linalg.eigh(x.M)
	if f["name"] == "poly":
		M = sum(float(Fraction(c)) * np.linalg.matrix_power(x.M, i) for i, c in enumerate(f["c"]))
		D = None if x.D is None else [peval(f["c"], d) for d in x.D]
		return Node(t, M, x.U, D)
	t["U"], t["D"] = [[q.s(u) for u in r] for r in x.U], [q.s(d) for d in x.D]
	if f["name"] == "exp":
		g = np.exp(float(Fraction(f["t"])) * w)
	elif f["name"] in PY:
		g = PY[f["name"]](w)
	else:
		a, b = float(Fraction(f["a"])), float(Fraction(f["b"]))
		z = np.clip((w - a) / (b - a), 0, 1)
		g = 3 * z**2 - 2 * z**3
	return Node(t, (Y * g) @ Y.T)


def unit(rng, x):
	a = max(x.D, key=abs)
	D = [(d + a) / (2 * a) for d in x.D]
	return Node({"k": "unit", "of": x.t, "a": q.s(a)}, (x.M + float(a) * np.eye(x.n)) / (2 * float(a)), x.U, D)


def unique(D):
	a = max(abs(d) for d in D)
	near = [d for d in D if abs(d) > a * Fraction(9, 10)]
	return a != 0 and len(set(near)) == 1


def term(rng, n, depth, sym=True):
	if depth == 0:
		return leaf(rng, n, sym)
	k = rng.choice(["fun", "fun", "fun", "unit", "unit", "sum", "times", "scaled", "adjoint", "leaf"])
	if k == "leaf":
		return leaf(rng, n, sym)
	if k == "fun":
		return fun(rng, term(rng, n, depth - 1))
	if k == "unit":
		for _ in range(20):
			x = term(rng, n, depth - 1)
			if x.D is not None and n > 1 and unique(x.D):
				return unit(rng, x)
		return fun(rng, term(rng, n, depth - 1))
	if k == "sum":
		x, y = term(rng, n, depth - 1, sym), term(rng, n, rng.choice([0, depth - 1]), sym)
		return Node({"k": "sum", "x": x.t, "y": y.t}, x.M + y.M)
	if k == "times":
		x = term(rng, n, depth - 1, sym)
		if sym or rng.random() < 0.4:  # one operator, used twice
			s = {**x.t, "share": True}
			return Node({"k": "times", "x": s, "y": s}, x.M @ x.M, x.U, None if x.D is None else [d * d for d in x.D])
		y = term(rng, n, 0, sym)
		return Node({"k": "times", "x": x.t, "y": y.t}, x.M @ y.M)
	x = term(rng, n, depth - 1, sym)
	if k == "scaled":
		s = rng.choice(["-1/2", "2", "1/4", "-3"])
		return Node({"k": "scaled", "s": s, "of": x.t}, float(Fraction(s)) * x.M, x.U, None if x.D is None else [Fraction(s) * d for d in x.D])
	if not adjoinable(x.t):
		return x
	return Node({"k": "adjoint", "of": x.t}, x.M.T, x.U, x.D)


def adjoinable(t):
	"""Toeplitz operators come without an adjoint, and so do operators given by their products only."""
	if t["k"] == "toeplitz":
		return False
	if t["k"] == "fun":
		return True
	if t["k"] == "matrix":
		return t["rep"] in ("C", "F", "view", "csr", "csc", "linop", "matvec")
	return all(adjoinable(t[k]) for k in ("of", "x", "y") if k in t)


def magn(t):
	"""As Compose!Magn, roughly."""
	k = t["k"]
	if k == "matrix":
		return np.linalg.norm(FL(t["A"]))
	if k == "toeplitz":
		return len(t["c"]) * max(np.linalg.norm([float(Fraction(x)) for x in t[s]]) for s in "cr")
	if k == "unit":
		return 1 + magn(t["of"]) / abs(float(Fraction(t["a"])))
	if k == "fun":
		r = magn(t["of"])
		return 4 * (1 + r + (sum(abs(float(Fraction(c))) * (1 + i) * r**i for i, c in enumerate(t["f"]["c"])) if t["f"]["name"] == "poly" else np.exp(min(r, 100) / 2) if t["f"]["name"] == "exp" else 8 * r))
	if k == "sum":
		return magn(t["x"]) + magn(t["y"])
	if k == "times":
		return magn(t["x"]) * magn(t["y"])
	return magn(t["of"]) * abs(float(Fraction(t.get("s", "1"))))


def some(rng, sym=True, need=lambda x: True, n=None):
	for _ in range(400):
		d = rng.choice([1, 1, 2, 2, 3])
		x = term(rng, n or rng.choice([2, 3, 3, 4]), d, sym)
		if x.t["k"] not in ("matrix",) and magn(x.t) < 3e4 and (x.sym or not sym) and need(x):
			return x
	raise RuntimeError("no term found")


def cc(x, **k):
	d = conf(**k)
	d.update(term=x.t, n=x.n)
	return d


def separated(x):
	w = np.linalg.eigvalsh(x.M)
	return len(w) < 2 or np.min(np.diff(w)) > 0.05 * max(1, np.max(np.abs(w)))


def c34(c, tier):
	big = c.thorough
	c.model("MCCompose", MC.format(n=2, vals='{"-1", "0", "1/2", "2"}', coeffs="MoreCoeffs", deep="TRUE"), timeout=1800)
	c.model("MCCompose", MC.format(n=3, vals='{"-1", "0", "2"}' if big else '{"0", "2"}', coeffs="MoreCoeffs" if big else "FewCoeffs", deep="TRUE"), timeout=1800)
	rng = c.rng
	hs = []
	K = 4 if big else 1
	for i in range(44 * K):  # products
		x = some(rng, sym=rng.random() < 0.6)
		many = rng.random() < 0.4
		W = [vec(rng, x.n, rng.choice(["signs", "ints", "real"])) for _ in range(rng.choice([1, 2, 4]) if many else 1)]
		hs.append(hist("p%d" % i, [{"op": "apply", "c": cc(x), "V": W, "many": many}]))
	for i in range(40 * K):  # averages
		alg = rng.choice(["hutch", "hutch", "diag"])
		x = some(rng, sym=rng.random() < 0.6)
		if alg == "hutch" and rng.random() < 0.4:  # quadrature of few steps
			b = some(rng) if rng.random() < 0.5 else leaf(rng, rng.choice([3, 4]))
			x = fun(rng, b, deg=rng.randint(2, max(2, b.n - 1)))
			if magn(x.t) > 1e5:
				continue
		k = rng.choice([1, 3, 6])
		W = [vec(rng, x.n, rng.choice(["signs", "ints"])) for _ in range(k + 8)]
		full = rng.random() < 0.6
		hs.append(hist("m%d" % i, [{"op": "call", "c": cc(x, alg=alg, f=CAP(k), batch=rng.choice([1, 2, 3]), full=full, cb=rng.random() < 0.3, rec=rng.random() < 0.5), "stream": W}]))
	for i in range(24 * K):  # deflation
		alg = rng.choice(["hutchpp", "xtrace"])
		fit = lambda x: np.linalg.cond(x.M) < 50
		x = some(rng, sym=rng.random() < 0.6, need=fit)
		for _ in range(100):
			W = [vec(rng, x.n, "real" if alg == "hutchpp" else "ints") for _ in range(60 if alg == "hutchpp" else x.n)]
			Y = x.M @ V(W[: x.n if alg == "xtrace" else min(x.n, 3)])
			if np.linalg.cond(Y) < 100:
				break
		else:
			continue
		k = rng.randint(1, x.n)
		hs.append(hist("d%d" % i, [{"op": "call", "c": cc(x, alg=alg, f=CAP(k), batch=rng.choice([1, 2, x.n]), full=rng.random() < 0.6, m=rng.choice([0, 1, 2, 3]) if alg == "hutchpp" else 0, mode=rng.choice(["reduced", "full"])), "stream": W}]))
	for i in range(14 * K):  # all sign vectors: the trace of a function by quadrature of degree k
		b = some(rng, n=rng.choice([2, 3, 4])) if rng.random() < 0.5 else leaf(rng, rng.choice([3, 4, 5]))
		x = fun(rng, b, deg=rng.randint(2, max(2, b.n - 1))) if rng.random() < 0.7 else some(rng, n=3)
		if magn(x.t) > 1e5:
			continue
		alg = "hutch" if x.t.get("deg", 9) < x.n or rng.random() < 0.6 else "diag"
		hs.append(hist("s%d" % i, [{"op": "signs", "tag": alg, "c": cc(x, alg=alg, f=CAP(1))}]))
	for i in range(30 * K):  # expansions and spectra
		x = some(rng, need=lambda x: x.sym and separated(x))
		Y = np.linalg.eigh(x.M)[1]
		for _ in range(100):
			v = vec(rng, x.n, "ints")
			z = np.array([float(Fraction(t)) for t in v])
			if np.min(np.abs(Y.T @ z)) > 0.05 * np.linalg.norm(z):
				break
		else:
			continue
		if rng.random() < 0.5:
			hs.append(hist("j%d" % i, [{"op": "jacobi", "c": cc(x), "v": v, "deg": rng.randint(2, x.n)}]))
		else:
			hs.append(hist("r%d" % i, [{"op": "ritz", "c": cc(x), "v": v}]))

	def canary(h, ev):
		e = ev[-1]
		d = q.s(Fraction(max(1.0, magn(h["ops"][0]["c"]["term"]))))
		if e["op"] == "return" and e["ok"]:
			e["est"]["v"][0] = q.add(e["est"]["v"][0], d)
		elif e["op"] == "apply" and e["ok"]:
			e["y"]["v"][0] = q.add(e["y"]["v"][0], d)
		elif e["op"] == "ritz" and e["ok"]:
			e["w"][0] = q.add(e["w"][0], d)
		elif e["op"] == "jacobi" and e["ok"]:
			e["a"][0] = q.add(e["a"][0], d)
		else:
			return None
		return ev

	c.bind("trace", "TrCompose", hs, canary=canary)
