"""Calls on shared arrays (read-only, strided, either order), with the caller writing to arrays in between."""

import hashlib

import numpy as np
import scipy.sparse as sps
from primate import operators as po
from primate import random as pr
from primate import special as fs
from primate import stats
from primate.diagonal import diag, xdiag
from primate.estimators import ConfidenceCriterion, ControlVariableEstimator, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion
from primate.integrate import quadrature
from primate.lanczos import lanczos, rayleigh_ritz
from primate.linalg import update_trinv
from primate.trace import hutch, hutchpp, xtrace
from primate.tridiag import eigh_tridiag, eigvalsh_tridiag

from .enc import attempt, num


def content(role, n, m, seed):
	g = np.random.Generator(np.random.PCG64(seed))
	if role == "sym":
		M = g.normal(size=(n, n))
		return (M + M.T) / 2 + np.diag(np.arange(1.0, n + 1))
	if role == "upper":
		return np.linalg.inv(np.triu(g.normal(size=(n, n))) + 3 * np.eye(n))
	if role == "samples":
		return g.normal(size=(m, n))
	if role == "off":
		return np.append([0.0], 0.5 + g.random(n - 1)) if m else 0.5 + g.random(n)
	if role == "spread":
		return np.sort(g.normal(size=n)) + np.arange(n)
	return g.normal(size=n)


def place(x, layout, dtype):
	"""(buffer, the array handed over)"""
	x = np.asarray(x, dtype=dtype)
	ro = layout.endswith("ro")
	k = layout[:-2] if ro else layout
	if k == "F":
		b = np.array(x, order="F")
		v = b
	elif k == "view":
		b = np.full(tuple(2 * s + 1 for s in x.shape), 5.5, dtype=dtype)
		v = b[tuple(slice(1, None, 2) for _ in x.shape)]
		v[...] = x
	else:
		b = np.array(x, order="C")
		v = b
	if ro:
		b.flags.writeable = False
		v.flags.writeable = False
	return b, v


def digest(a):
	return hashlib.sha256(repr((a.shape, str(a.dtype))).encode() + np.ascontiguousarray(a).tobytes()).hexdigest()[:12]


def arrays(r):
	if isinstance(r, (tuple, list)):
		return [a for t in r for a in arrays(t)]
	if sps.issparse(r):
		return [r.tocsr().data]
	if hasattr(r, "estimate") and hasattr(r, "nit"):
		return arrays([r.estimate, getattr(r, "samples", None)])
	return [r] if isinstance(r, np.ndarray) and r.ndim > 0 else []


CRIT = {"count": lambda: CountCriterion(4), "tol": lambda: ToleranceCriterion(rtol=0.3), "conf": lambda: ConfidenceCriterion(rtol=0.3), "knee": lambda: KneeCriterion()}
FUNS = {"softsign": lambda x: fs.softsign(x, q=3), "smoothstep": lambda x: fs.smoothstep(x, a=-1.0, b=2.0), "exp": lambda x: fs.exp(x, t=-0.5), "step": lambda x: fs.step(x, c=0.25, nonnegative=True)}


class World:
	def __init__(self):
		self.buf, self.arr, self.obj, self.kind, self.dim, self.held = {}, {}, {}, {}, {}, []

	def add(self, name, buffer, array):
		self.buf[name], self.arr[name] = buffer, array

	def heap(self):
		return {k: digest(b) for k, b in self.buf.items()}

	def answers(self):
		out = {}
		for k, o in self.obj.items():
			vals = []
			for a in self.observe(k):
				vals += [num(t) for t in np.asarray(a, dtype=float).ravel()]
			out[k] = vals
		return out

	def observe(self, k, fresh=False):
		o, kind = self.obj[k], self.kind[k]
		if kind == "cov":
			return [np.atleast_1d(o.mean()), np.atleast_1d(o())] + ([] if fresh else [np.atleast_1d(o.n)])
		if kind == "mean":
			return [np.atleast_1d(o.mean()), np.atleast_1d(o())] + ([] if fresh else [np.atleast_1d(o.n)])
		if kind == "est":
			return [np.atleast_1d(o.estimate)] + ([np.atleast_1d(o.mean)] if fresh else [np.atleast_1d(o.delta), np.atleast_1d(len(o))] + [np.ravel(v) for v in (o.values or [])])
		if kind == "cv":
			return [np.atleast_1d(o.estimate)] + ([] if fresh else [np.atleast_1d(o.delta), np.atleast_1d(len(o))])
		return [o @ np.arange(1.0, 1 + o.shape[1])]


def run(h, emit):
	w = World()
	for op in h["ops"]:
		k = op["op"]
		if k == "new":
			w.add(op["name"], *place(content(op["role"], op["n"], op.get("m", 0), op["seed"]), op["layout"], op.get("dtype", "float64")))
			emit({"op": "new", "heap": w.heap(), "ans": w.answers()})
			continue
		if k == "scribble":
			x = op["x"]
			if x not in w.arr:
				continue
			a, b = w.arr[x], w.buf[x]
			f = (a.flags.writeable, b.flags.writeable)
			ok = True
			if not f[0]:
				try:
					b.flags.writeable = True
					a.flags.writeable = True
				except ValueError:
					ok = False
			if ok:
				np.subtract(0.75, a, out=a)
				a.flags.writeable = f[0]
				b.flags.writeable = f[1]
				emit({"op": "scribble", "x": x, "heap": w.heap(), "ans": w.answers()})
			continue
		I = {p: w.arr[x] for p, x in op.get("in", {}).items()}
		O = {p: w.arr[x] for p, x in op.get("outs", {}).items()}
		a = dict(op.get("args", {}))
		if op.get("row") and I["x"].shape[-1] != w.dim[op["obj"]]:
			continue
		seen = []

		def watch(r):
			for t in arrays(r):
				seen.append((t, t.copy()))

		def matrix():
			A = I["A"]
			rep = a.pop("rep", "array")
			if rep == "csr":
				S = sps.csr_array(A)
				seen.extend((t, t.copy()) for t in (S.data, S.indices, S.indptr))
				return S
			return A if rep == "array" else po.aslinearoperator(A)

		def hold(f):
			"""f, remembering the arrays it returned."""

			def g(*a, **kw):
				r = f(*a, **kw)
				w.held.append((r, r.copy()))
				return r

			return g

		def crit():
			if "draws" in a:  # the caller's own distribution, whose arrays stay the caller's
				g, layout = np.random.default_rng(11), a.pop("draws")
				a["pdf"] = hold(lambda size: g.normal(size=size if isinstance(size, tuple) else (size, 1)) if layout == "C" else np.asfortranarray(g.normal(size=size if isinstance(size, tuple) else (size, 1))))
			if "crit" in a:
				a["converge"] = CRIT[a.pop("crit")]()
			if a.pop("callback", False):
				a["callback"] = watch
			return a

		def go():
			fn = op["fn"] if k == "call" else k
			if fn in ("hutch", "xtrace", "diag", "hutchpp", "xdiag"):
				return {"hutch": hutch, "xtrace": xtrace, "diag": diag, "hutchpp": hutchpp, "xdiag": xdiag}[fn](matrix(), **crit(), seed=5)
			if fn == "lanczos":
				return lanczos(matrix(), v0=I["v0"], **a, **O)
			if fn == "rayleigh_ritz":
				return rayleigh_ritz(matrix(), v0=I["v0"], **a)
			if fn == "eigh":
				return eigh_tridiag(I["d"], I["e"], **a)
			if fn == "eigvalsh":
				return eigvalsh_tridiag(I["d"], I["e"], **a)
			if fn == "quadrature":
				return quadrature(I["d"], I["e"], **a, **O)
			if fn == "trinv":
				return update_trinv(I["B"], I["b"])
			if fn == "matrix_function":
				return po.matrix_function(matrix(), fun=hold(np.exp), v=I["v"], deg=a["deg"])
			if fn == "matvec":
				return w.obj[op["on"]] @ I["v"]
			if fn == "quad":
				return w.obj[op["on"]].quad(I["v"])
			if fn == "normalize_unit":
				return po.normalize_unit(matrix()) @ I["v"]
			if fn == "symmetric":
				return pr.symmetric(len(I["ew"]), ew=I["ew"], seed=3, **a)
			if fn == "haar":
				return pr.haar(len(I["ew"]), ew=I["ew"], seed=3)
			if fn == "isotropic_out":
				return pr.isotropic(out=O["out"], seed=9, **a)
			if fn == "interval":
				return stats.confidence_interval(I["a"], 0.9, **a)
			if fn == "special":
				return FUNS[a["name"]](I["x"])
			if fn == "named":
				return fs.param_callable(a["name"])(I["x"])
			if fn == "criterion":
				o = w.obj[op["on"]]
				CRIT[a["name"]]()(o)
				return None
			if fn == "make":
				c = a.pop("cls")
				w.kind[op["obj"]] = c
				w.dim[op["obj"]] = a.get("dim")
				mk = {
					"mean": lambda: stats.Mean(**a), "cov": lambda: stats.Covariance(**a), "est": lambda: MeanEstimator(**a),
					"cv": lambda: ControlVariableEstimator(I["ecv"]), "toeplitz": lambda: po.Toeplitz(I["c"], I.get("r")),
					"fun": lambda: po.MatrixFunction(I["A"], fun=hold(np.exp), **a),
				}
				w.obj[op["obj"]] = mk[c]()
				return None
			if fn == "update":
				x = I["x"]
				w.obj[op["obj"]].update(x[None, :] if x.ndim == 1 and op.get("row") else x)
				return None
			if fn == "get":
				return w.observe(op["obj"], fresh=True)
			raise KeyError(fn)

		ok, r = attempt(go)
		if not ok and op.get("obj") in w.kind and op.get("obj") not in w.obj:
			del w.kind[op["obj"]]
		shares = []
		if ok:
			new = [(f"{op['res']}.{i}", t) for i, t in enumerate(arrays(r))] if "res" in op else []
			own = set(op.get("outs", {}).values())
			for nm, t in new:
				for x, b in w.buf.items():
					if np.shares_memory(t, b):
						shares.append([nm, x])
			viewed = {s for s, x in shares if x in own}
			for nm, t in new:
				if nm not in viewed:
					w.add(nm, t, t)
		ev = {"op": k, "fn": op.get("fn", k), "obj": op.get("obj", ""), "ok": ok, "outs": op.get("outs", {"none": "none"}), "shares": shares, "kept": all(np.array_equal(x, y, equal_nan=True) for x, y in seen + w.held), "heap": w.heap(), "ans": w.answers()}
		if not ok:
			ev["exc"] = r
		emit(ev)
