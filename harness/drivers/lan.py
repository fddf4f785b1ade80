"""Lanczos expansions and Rayleigh-Ritz values, optionally into reused workspaces."""

import numpy as np
from primate import lanczos as mod
from primate.lanczos import lanczos, rayleigh_ritz

from .enc import arr, attempt, unarr
from .trace import represent


def junk(rng, shape, dt, order="C", fill="noise"):
	x = np.full(shape, np.nan) if fill == "nan" else rng.normal(size=shape) * 7
	return np.array(x, dtype=dt, order=order)


def start(c):
	v = unarr(c["v0"])
	f = c.get("vform", "array")
	if f == "list":
		return [float(t) for t in v]
	if f == "tuple":
		return tuple(float(t) for t in v)
	if f == "int":
		return v.astype(np.int64)
	if f == "reversed":
		return np.array(v[::-1])[::-1]
	if f == "column":
		return v[:, None]
	if f == "f32":
		return v.astype(np.float32)
	if f == "strided":
		w = np.zeros(2 * len(v))
		w[::2] = v
		return w[::2]
	return v


def run(h, emit):
	rng = np.random.default_rng(7)
	shared = {}
	for op in h["ops"]:
		c = op["c"]
		n = len(c["A"])
		A = represent(unarr(c["A"], dtype=np.dtype(c.get("adtype", "float64"))), c["rep"])
		deg = n if c["deg"] == 0 or c["deg"] > n else c["deg"]
		dt = np.dtype("float32" if c["prec"] == 32 and c["rep"] != "narrow" else "float64")
		if op["op"] == "raw":
			ncv = c["ncv"]
			al, be, Q = (junk(rng, s, dt, "F", c["ws"]) for s in ((deg + 1,), (deg + 1,), (n, ncv)))
			if c["ws"] == "nan":  # what is never written stays as it was
				al[:], be[:] = 0, 0
			v = unarr(c["v0"]).astype(dt)

			def f():
				mod._lanczos.lanczos(A, v, deg, float(c.get("rtol", 1e-8)), c["orth"], al, be, Q)
				d = {"a": arr(al[:deg].copy()), "b": arr(be[1:deg].copy())}
				if ncv == deg and deg > 1:
					d["Q"] = arr(Q)
				return d

			ok, r = attempt(f)
			emit({"op": "lanczos", "c": c, "ok": ok, **(r if ok else {"exc": r})})
			continue
		kw = {}
		if c["deg"] != 0:
			kw["deg"] = c["deg"]
		if "v0" in c:
			kw["v0"] = start(c)
		else:
			kw["seed"] = c["seed"]
		if c.get("dtype"):
			kw["dtype"] = np.dtype(c["dtype"])
		if "orth" in c:
			kw["orth"] = c["orth"]
		if c.get("rtol"):
			kw["rtol"] = float(c["rtol"])
		if op["op"] == "ritz":
			if c["vecs"]:
				kw["return_eigenvectors"] = True
			if c["basis"]:
				kw["return_basis"] = True
			if c.get("method"):
				kw["method"] = c["method"]

			def f():
				r = rayleigh_ritz(A, **kw)
				r = r if isinstance(r, tuple) else (r,)
				names = ["w"] + (["Y"] if c["vecs"] else []) + (["Q"] if c["basis"] else [])
				return {k: arr(x) for k, x in zip(names, r, strict=True)}

			ok, r = attempt(f)
			emit({"op": "ritz", "c": c, "ok": ok, **(r if ok else {"exc": r})})
			continue
		if c["ws"] != "fresh":
			key = (n, deg, str(dt))
			if c["ws"] == "shared" and key in shared:
				ws = shared[key]
			else:
				ws = {"alpha": junk(rng, deg + 1, dt), "beta": junk(rng, deg + 1, dt)}
				if c["basis"]:
					ws["Q"] = junk(rng, (n, deg), dt, "F", "nan" if c["ws"] == "nan" else "noise")
				shared[key] = ws
			kw.update(ws if c["basis"] else {k: ws[k] for k in ("alpha", "beta")})
			if c["basis"] and "Q" not in ws:
				ws["Q"] = kw["Q"] = junk(rng, (n, deg), dt, "F")
		if c["sparse"]:
			kw["sparse_mat"] = True
		if c["basis"]:
			kw["return_basis"] = True

		def f():
			r = lanczos(A, **kw)
			t, Q = r if c["basis"] else (r, None)
			d = {"T": arr(t.todense())} if c["sparse"] else {"a": arr(t[0]), "b": arr(t[1])}
			if Q is not None:
				d["Q"] = arr(Q)
			return d

		ok, r = attempt(f)
		emit({"op": "lanczos", "c": c, "ok": ok, **(r if ok else {"exc": r})})
