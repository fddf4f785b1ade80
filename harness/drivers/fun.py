"""Spectral functions: resolved by name, or called directly, or as factories."""

import numpy as np
from primate import special
from primate.special import param_callable

from .enc import arr, attempt, num, unarr, unnum

ARGS = {"exp": ["t"], "smoothstep": ["a", "b"], "softsign": ["q"], "numrank": ["threshold"], "step": ["c", "nonneg"]}
DIRECT = {"identity": "identity", "exp": "exp", "smoothstep": "smoothstep", "softsign": "softsign", "step": "step"}


def params(f, ints=False):
	kw = {}
	for k in ARGS.get(f["name"], []):
		v = f[k]
		v = v if isinstance(v, (bool, int)) else unnum(v)
		if ints and isinstance(v, float) and v == int(v):
			v = int(v)
		kw[{"nonneg": "nonnegative"}.get(k, k)] = v
	return kw


def horner(c):
	c = [unnum(t) for t in c]

	def p(x):
		y = np.zeros_like(x) + (c[-1] if c else 0.0)
		for t in c[-2::-1]:
			y = y * x + t
		return y

	return p


def resolve(f, form="name", ints=False):
	"""The function of a record, as a user obtains it."""
	if f["name"] == "poly":
		return horner(f["c"])
	kw = params(f, ints)
	if form == "default":
		kw = {}
	if form in ("name", "default"):
		return param_callable(f["name"], **kw)
	g = getattr(special, DIRECT[f["name"]])
	if f["name"] == "identity":
		return g
	if form == "factory":
		return g(**kw)
	return lambda x: g(x, **kw)


def run(h, emit):
	held = {}
	for op in h["ops"]:
		if op["op"] == "hold":  # resolved now, evaluated later
			ok, held[op["slot"]] = attempt(resolve, op["f"], op["form"], bool(op.get("ints")))
			emit({"op": "hold", "ok": ok})
		elif op["op"] == "eval":
			f = op["f"]
			dt = np.float32 if op["prec"] == 32 else np.float64
			x = unarr(op["x"], dtype=dt).reshape(-1)
			if op.get("strided"):
				w = np.zeros(2 * len(x), dtype=dt)
				w[::2] = x
				x = w[::2]
			x0 = x.copy()
			tile, k = op.get("tile"), len(x0)
			if tile:  # the same points over and over in a long array
				x = np.resize(x, tile)
			shape = op.get("shape", "array")
			if shape == "int":
				x = x.astype(np.int64)
			elif shape == "scalar":
				x = float(x[0])
			elif shape == "matrix":
				x = x.reshape(2, -1, order=op.get("order", "C"))

			def go():
				g = held[op["slot"]] if "slot" in op else resolve(f, op["form"], bool(op.get("ints")))
				y = np.array(g(x))
				y2 = np.array(g(np.array(x) if shape != "scalar" else x))
				same = bool(np.array_equal(y, y2, equal_nan=True))
				if tile:  # the least and the greatest value at each point
					assert y.size == tile
					return [f(y[i::k]) for f in (np.min, np.max) for i in range(k)], same
				if shape in ("scalar", "matrix"):
					assert y.size == np.size(x) and (shape == "scalar" or y.shape == x.shape)
					y = y.reshape(-1, order=op.get("order", "C"))
				return y, same

			ok, r = attempt(go)
			d = {"op": "eval", "f": f, "x": [num(t) for t in x0], "prec": op["prec"], "form": op["form"], "ok": ok}
			if tile:
				kept = bool(np.array_equal(x, np.resize(x0, tile)))
				for i in (0, k):
					emit({**d, "y": arr(np.array(r[0][i : i + k])), "repeat": r[1], "kept": kept} if ok else {**d, "exc": r})
				continue
			emit({**d, "y": arr(r[0]), "repeat": r[1], "kept": bool(np.array_equal(np.reshape(x, -1, order=op.get("order", "C")), x0))} if ok else {**d, "exc": r})
		elif op["op"] == "resolve":
			w = op["what"]
			d = {"op": "resolve", "what": w}
			if w in ("unknown", "known"):
				ok, g = attempt(param_callable, op["name"])
				emit({**d, "name": op["name"], "ok": ok, "callable": bool(ok and callable(g))})
			elif w == "callable":
				g0 = [np.cos, lambda x: x + 1, max][op["which"]]
				ok, g = attempt(param_callable, g0, **op.get("kw", {}))
				emit({**d, "ok": ok, "same": bool(ok and g is g0)})
			else:
				x = unarr(op["x"])
				ok, y = attempt(lambda: param_callable(None)(x))
				emit({**d, "ok": ok, "x": op["x"], **({"y": arr(y)} if ok else {"exc": y})})
