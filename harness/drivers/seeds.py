"""Randomized entry points with integer seeds, shared generators, factories and threaded samplers, interleaved."""

import hashlib
import json
import pickle
import random
import subprocess
import sys

import numpy as np
import scipy.sparse as sps
from primate import operators as po
from primate import random as pr
from primate.diagonal import diag, xdiag
from primate.estimators import ConfidenceCriterion, CountCriterion, KneeCriterion, ToleranceCriterion
from primate.integrate import quadrature
from primate.lanczos import lanczos, rayleigh_ritz
from primate.stats import confidence_interval
from primate.trace import hutch, hutchpp, xtrace

from .enc import attempt, num
from .trace import represent

CRIT = {"count": CountCriterion, "tolerance": ToleranceCriterion, "confidence": ConfidenceCriterion, "knee": KneeCriterion}


def digest(x):
	return hashlib.sha256(pickle.dumps(x)).hexdigest()[:16]


def state(g):
	b = g.bit_generator
	return digest((b.state, b.seed_seq.n_children_spawned))


def globs():
	return digest((np.random.get_state(), random.getstate()))


def flat(x):
	if isinstance(x, (tuple, list)):
		return [v for t in x for v in flat(t)]
	if x is None:
		return []
	if hasattr(x, "estimate") and hasattr(x, "nit"):
		return flat([x.estimate, x.nit])
	if sps.issparse(x):
		x = x.toarray()
	return [num(v) for v in np.asarray(x, dtype=object).ravel(order="C")]


class World:
	"""Operators and criteria are made once per history and shared by its calls."""

	def __init__(self):
		self.ops, self.crits = {}, {}

	def A(self, n, rep):
		if (n, rep) not in self.ops:
			g = np.random.Generator(np.random.PCG64(1000 + n))
			M = g.normal(size=(n, n))
			M = (M + M.T) / 2 + np.diag(np.arange(1.0, n + 1))
			if rep.startswith("fun:"):
				X = po.MatrixFunction(M, fun=rep[4:], deg=max(2, n - 1), orth=n)
			elif rep == "toeplitz":
				X = po.Toeplitz(M[0])
			elif rep == "f32":
				X = M.astype(np.float32)
			else:
				X = represent(M, rep)
			self.ops[n, rep] = X
		return self.ops[n, rep]

	def crit(self, c):
		if c is None or isinstance(c, str):
			return c
		k = json.dumps(c, sort_keys=True)
		if k not in self.crits:
			self.crits[k] = CRIT[c["k"]](**c["args"])
		return self.crits[k]


def invoke(w, op, seed):
	a = dict(op["args"])
	fn = op["fn"]
	kw = {} if seed is Ellipsis else {"seed": seed}
	if "A" in a:
		A = w.A(*a.pop("A"))
	if "converge" in a:
		a["converge"] = w.crit(a["converge"])
	if "v0" in a:
		a["v0"] = np.array(a["v0"], dtype=float)
	if a.pop("callback", False):
		seen = []
		a["callback"] = lambda r: seen.append(flat(r))
	if fn == "isotropic":
		return pr.isotropic(tuple(a.pop("size")), **a, **kw)
	if fn == "isotropic_out":
		out = np.empty(tuple(a.pop("size")), dtype=a.pop("dtype"))
		pr.isotropic(out=out, **a, **kw)
		return out
	if fn == "symmetric":
		return pr.symmetric(a.pop("n"), **a, **kw)
	if fn == "haar":
		return pr.haar(a.pop("n"), **a, **kw)
	if fn in ("hutch", "hutchpp", "xtrace", "diag", "xdiag"):
		return {"hutch": hutch, "hutchpp": hutchpp, "xtrace": xtrace, "diag": diag, "xdiag": xdiag}[fn](A, **a, **kw)
	if fn == "lanczos":
		return lanczos(A, **a, **kw)
	if fn == "rayleigh_ritz":
		return rayleigh_ritz(A, **a, **kw)
	x = np.arange(1.0, 1 + a.get("n", 4))
	if fn == "normalize_unit":
		return po.normalize_unit(A) @ np.arange(1.0, 1 + A.shape[0])
	if fn == "matvec":
		return A @ np.arange(1.0, 1 + A.shape[0])
	if fn == "quad":
		return A.quad(np.arange(1.0, 1 + A.shape[0]))
	if fn == "quadrature":
		return quadrature(x, np.ones(len(x) - 1), quad=a["quad"])
	if fn == "interval":
		return confidence_interval(x**2, 0.9, a["sdist"])
	if fn == "matrix_function":
		return po.matrix_function(A, fun=None, v=np.arange(1.0, 1 + A.shape[0]), deg=A.shape[0])
	raise KeyError(fn)


def rich(op):
	"""Results with so much randomness in them that two equal ones cannot be independent."""
	a, fn = op["args"], op["fn"]
	if fn in ("isotropic", "isotropic_out", "fill", "use"):
		return (a["pdf"] not in ("rademacher", "signs") and (a["pdf"] != "sphere" or a["size"][0] > 1)) or int(np.prod(a["size"])) >= 64
	if fn in ("hutchpp", "xtrace") and a["A"][0] <= 6:
		return False  # with as many vectors as dimensions the result is the trace, whatever the seed
	if fn in ("hutch", "hutchpp", "xtrace", "diag", "xdiag"):
		return a.get("pdf") in ("normal", "gaussian", "sphere")
	return fn in ("symmetric", "haar", "lanczos", "rayleigh_ritz")


PROBE = """
import random, numpy as np, hashlib, pickle
np.random.seed(3); random.seed(4)
d = lambda: hashlib.sha256(pickle.dumps((np.random.get_state(), random.getstate()))).hexdigest()
import scipy.sparse.linalg, scipy.stats, scipy.spatial
a = d()
import sys; sys.path.insert(0, %r)
import loader; loader.install()
import primate.trace, primate.diagonal, primate.operators, primate.random, primate.lanczos, primate.integrate, primate.estimators, primate.special, primate.stats
print("GLOBALS", a == d())
"""


def run(h, emit):
	gens = {n: np.random.default_rng(int(s)) for n, s in h["cfg"]["gens"].items()}
	w, facts, isos = World(), {}, {}
	for op in h["ops"]:
		k = op["op"]
		if k == "perturb":
			np.random.seed(op["to"])
			random.seed(op["to"])
			emit({"op": k, "ok": True})
			continue
		if k == "import":
			p = subprocess.run([sys.executable, "-c", PROBE % h["cfg"]["harness"]], capture_output=True, text=True)
			emit({"op": k, "ok": "GLOBALS" in p.stdout, "globals": "GLOBALS True" in p.stdout, **({} if "GLOBALS" in p.stdout else {"exc": p.stderr[-300:]})})
			continue
		kind = op.get("kind", "")
		seed = {"int": lambda: int(op["seed"]), "gen": lambda: gens[op["seed"]], "none": lambda: None, "fixed": lambda: Ellipsis, "": lambda: None}[kind]()
		before, g0 = {n: state(g) for n, g in gens.items()}, globs()
		ev = {"op": k, "kind": kind, "seed": op.get("seed", ""), "key": op.get("key", ""), "obj": op.get("obj", ""), "rich": bool("args" in op and rich(op))}

		def go():
			if k == "call":
				return invoke(w, op, seed)
			if k == "make":
				facts[op["obj"]] = pr.isotropic(pdf=op["args"]["pdf"], seed=seed)
			elif k == "use":
				return facts[op["obj"]](tuple(op["args"]["size"]))
			elif k == "iso":
				isos[op["obj"]] = pr.Isotropic(size=tuple(op["args"]["size"]), pdf=op["args"]["pdf"], seed=seed, threads=op["threads"])
			elif k == "fill":
				isos[op["obj"]].fill()
				return np.array(isos[op["obj"]].values)

		if k == "iso":
			ev["threads"] = op["threads"]
		ok, r = attempt(go)
		ev.update(ok=ok, globals=g0 == globs(), before=before, after={n: state(g) for n, g in gens.items()})
		if ok:
			v = flat(r)
			if len(v) > 400:  # long results by numbers that stand for them
				d = digest(v)
				v = [str(int(d[i : i + 4], 16)) for i in range(0, 16, 4)]
			ev["v"] = v
		else:
			ev["exc"] = r
		emit(ev)
