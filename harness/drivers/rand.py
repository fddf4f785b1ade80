"""Isotropic vectors, threaded fills, and random matrices with prescribed spectra."""

import gc

import numpy as np
from primate import random as pr

from .enc import arr, attempt, num, unarr
from .gate import Gate

GATE = Gate("primate/random.py")


def dt(op):
	return np.float32 if op.get("prec") == 32 else np.float64


def buffer(op):
	"""(the whole buffer, the array handed over as `out`)"""
	sh = tuple(op["size"])
	k = op.get("layout", "C")
	d = dt(op)
	if k == "C":
		b = np.full(sh, 7.5, dtype=d)
		return b, b
	if k == "F":
		b = np.full(sh, 7.5, dtype=d, order="F")
		return b, b
	if k == "cols":
		b = np.full((sh[0], sh[1] + 3), 7.5, dtype=d, order="F")
		return b, b[:, 2 : 2 + sh[1]]
	if k == "rows":
		b = np.full((sh[0] + 3, sh[1]), 7.5, dtype=d)
		return b, b[1 : 1 + sh[0]]
	if k == "strided":
		b = np.full(tuple(2 * s for s in sh), 7.5, dtype=d)
		return b, b[tuple(slice(None, None, 2) for _ in sh)]
	b = np.full(sh[::-1], 7.5, dtype=d)
	return b, b.T


def draw(op, gens, facts):
	seed = gens[op["gen"]] if "gen" in op else op.get("seed")
	size = op["size"]
	size = int(size[0]) if op.get("int") else tuple(size)
	ev = {k: op[k] for k in ("pdf", "size") if k in op}
	ev.update(op="draw", form=op["form"], int=bool(op.get("int")), prec=op.get("prec", 64), gen=op.get("gen", ""))
	kw = {"pdf": op["pdf"]} if op.get("named", True) else {}
	if op["form"] == "out":
		b, out = buffer(op)
		ok, r = attempt(lambda: pr.isotropic(out=out, seed=seed, **kw))
		ev["none"] = r is None
		inside = np.array(out)
		rest = b.copy()
		out[...] = 7.5
		ev["rest"] = bool(np.all(b == 7.5))  # nothing but the view was written
		ev["untouched"] = bool(np.all(rest == 7.5))
		if ok:
			ev["w"] = arr(inside)
	elif op["form"] == "factory":
		key = op["key"]
		if key not in facts:
			facts[key] = pr.isotropic(seed=seed, **kw)
		ok, r = attempt(lambda: facts[key](size))
		if ok:
			ev["w"] = arr(r)
	else:
		ok, r = attempt(lambda: pr.isotropic(size, seed=seed, **kw))
		if ok:
			ev["w"] = arr(r)
	ev["ok"] = ok
	if not ok:
		ev["exc"] = str(r)
	return ev


def sample(op):
	n, m, d, seed = op["n"], op["m"], dt(op), op["seed"]
	if op["via"] == "out":
		W = np.empty((n, m), dtype=d, order=op.get("order", "F"))
		pr.isotropic(out=W, pdf=op["pdf"], seed=seed)
	elif op["via"] == "threads":
		I = pr.Isotropic((n, m), pdf=op["pdf"], seed=seed, threads=op["threads"])
		I.fill()
		W = I.values
	elif op["via"] == "single":
		g = np.random.default_rng(seed)
		W = np.hstack([pr.isotropic(n, pdf=op["pdf"], seed=g) for _ in range(m)])
	else:
		W = pr.isotropic((n, m), pdf=op["pdf"], seed=seed)
	W = np.asarray(W, dtype=np.float64)
	if op.get("pool"):  # independent entries: any arrangement of them is a sample
		m = W.size // op["pool"]
		n = op["pool"]
		W = W.reshape(-1, order=op.get("order", "C"))[: n * m].reshape(n, m, order=op.get("arrange", "C"))
	sq = W**2
	mat = lambda A: [[num(x) for x in r] for r in A]
	ev = {"n": n, "m": m, "pdf": op["pdf"], "via": op["via"]}
	ev.update(
		op="moments", mean=[num(x) for x in W.mean(axis=1)], second=mat(W @ W.T / m), fourth=mat(sq @ sq.T / m), next=mat(W[:, :-1] @ W[:, 1:].T / (m - 1)),
		third=[num((W[i] * W[j] * W[k]).mean()) for i in range(n) for j in range(i, n) for k in range(j, n)],
		halves=mat(W[:, : m // 2] @ W[:, m - m // 2 :].T / (m // 2)),
		below=[num((W <= t).mean()) for t in (-2, -1, -0.5, 0.25, 1.5)],
	)
	return ev


def census(op):
	"""How many entries of many sign vectors are +1, -1 and anything else."""
	W, g, up, down = np.empty((op["n"], op["m"]), dtype=dt(op), order=op["order"]), np.random.default_rng(op["seed"]), 0, 0
	for _ in range(op["times"]):
		pr.isotropic(out=W, pdf=op["pdf"], seed=g)
		up += int(np.count_nonzero(W == 1))
		down += int(np.count_nonzero(W == -1))
	size = op["times"] * W.size
	return {"op": "census", "size": str(size), "up": str(up), "down": str(down), "other": str(size - up - down)}


class Objects:
	def __init__(self, c):
		self.c, self.objs, self.plain = c, {}, {}

	def fill(self, op):
		c = self.c
		k = op["obj"]
		mk = {"int": lambda: c["seed"], "gen": lambda: np.random.default_rng(c["seed"]), "seq": lambda: np.random.SeedSequence(c["seed"])}[c.get("kind", "int")]
		ev = {"op": "fill", "obj": k}

		def make():
			if k not in self.objs:
				self.objs[k] = [pr.Isotropic(size=(c["n"], c["m"]), pdf=c["pdf"], seed=mk(), threads=c["t"]), 0, np.random.default_rng(mk())]

		if op["op"] == "make":  # exists, and is filled later or never
			return {"op": "make", "ok": attempt(make)[0]}
		if op["op"] == "drop":  # deleted while others live
			self.objs.pop(k, None)
			gc.collect()
			return {"op": "drop", "ok": True}

		def go():
			make()
			I, _, g = self.objs[k]
			v = I.values
			v[...] = np.nan
			if op["sched"] == "free":
				I.fill()
				w, steps = np.array(I.values), 0
			else:
				w, steps = GATE.controlled(I.fill, op["sched"], c["t"], lambda: np.array(I.values))
			self.objs[k][1] += 1
			ev.update(w=arr(w), same=I.values is v)
			if c["t"] == 1:
				ev["plain"] = arr(pr.isotropic((c["n"], c["m"]), pdf=c["pdf"], seed=g))

		ok, r = attempt(go)
		ev["ok"] = ok
		ev["round"] = self.objs[k][1] if k in self.objs else 0
		if not ok:
			ev["exc"] = r
		return ev


def matrix(op):
	kw = {k: op[k] for k in ("dist", "pd") if k in op}
	ew = None
	if "ew" in op:
		ew = unarr(op["ew"]).reshape(-1)
		if op.get("aslist"):
			ew = [float(x) for x in ew]
		elif op.get("readonly"):
			ew.flags.writeable = False
		kw["ew"] = ew
	seed = np.random.default_rng(op["seed"]) if op.get("gen") else op["seed"]
	f = pr.symmetric if op["what"] == "symmetric" else pr.haar
	keep = None if ew is None else list(ew)
	ok, r = attempt(lambda: f(op["n"], seed=seed, **kw))
	ev = {"op": "matrix", "what": op["what"], "n": op["n"], "pd": bool(op.get("pd")), "ok": ok, "fits": op.get("fits", True)}
	if "ew" in op:
		ev["ew"] = op["ew"]
		ev["kept"] = keep == list(ew)
	if ok:
		ev["M"] = arr(r)
	else:
		ev["exc"] = r
	return ev


def ensemble(op):
	g = np.random.default_rng(op["seed"])
	ew, n, m = unarr(op["ew"]).reshape(-1), op["n"], op["m"]
	As = np.array([pr.haar(n, ew=ew, seed=g) for _ in range(m)])
	dg = np.einsum("kii->ki", As)
	mat = lambda A: [[num(x) for x in r] for r in A]
	up = [(i, j) for i in range(n) for j in range(i, n)]
	cross = [(As[:, i, j] * As[:, k, l]).mean() for x, (i, j) in enumerate(up) for k, l in up[x + 1 :] if i != j or k != l]
	return {"op": "ensemble", "n": n, "m": m, "ew": op["ew"], "mean": mat(As.mean(axis=0)), "second": mat((As**2).mean(axis=0)), "diags": mat(dg.T @ dg / m), "cross": [num(x) for x in cross]}


def run(h, emit):
	gens = {k: np.random.default_rng(s) for k, s in h["cfg"].get("gens", {}).items()}
	facts = {}
	objs = Objects(h["cfg"]) if "t" in h["cfg"] else None
	for op in h["ops"]:
		if op["op"] == "draw":
			emit(draw(op, gens, facts))
		elif op["op"] == "stream":

			def go():
				g, n = np.random.default_rng(op["seed"]), op["n"]
				f = pr.isotropic(pdf=op["pdf"], seed=g) if op["factory"] else lambda size: pr.isotropic(size, pdf=op["pdf"], seed=g)
				parts = [f(n if m == 1 and op["ints"] else (n, m)) for m in op["parts"]]
				return np.hstack(parts), pr.isotropic((n, sum(op["parts"])), pdf=op["pdf"], seed=op["seed"])

			ok, r = attempt(go)
			emit({"op": "stream", "ok": ok, **({"parts": arr(r[0]), "whole": arr(r[1])} if ok else {"exc": r})})
		elif op["op"] == "moments":
			ok, r = attempt(sample, op)
			emit({**r, "ok": True} if ok else {"op": "moments", "ok": False, "exc": r})
		elif op["op"] == "census":
			ok, r = attempt(census, op)
			emit({**r, "ok": True} if ok else {"op": "census", "ok": False, "exc": r})
		elif op["op"] == "ensemble":
			ok, r = attempt(ensemble, op)
			emit({**r, "ok": True} if ok else {"op": "ensemble", "ok": False, "exc": r})
		elif op["op"] in ("fill", "make", "drop"):
			emit(objs.fill(op))
		else:
			emit(matrix(op))
