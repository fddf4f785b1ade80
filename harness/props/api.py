"""C30, C31, C32: argument checking, independence of arguments and results, seeds."""

import json

from . import hist, q

STREAMS = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Determined Distinct Disjoint GlobalKept Agree Emit
{prop}
CONSTANTS
 Seeds = {{"3", "14"}}
 Names = {{"g1", "g2"}}
 Calls = {{1, 2}}
 Depth = {depth}
 EMIT = {emit}
"""
PDFS = ["rademacher", "signs", "normal", "gaussian", "sphere"]


def vector(rng):
	size = rng.choice([[rng.choice([1, 2, 3, 5, 8, 32]), rng.choice([1, 2, 4, 7])]] * 5 + [[rng.choice([100, 257, 1000]), rng.choice([1, 3, 20, 64])]])
	pdf = rng.choice(PDFS)
	return {"fn": "isotropic", "args": {"size": size, "pdf": pdf}}


def criterion(rng, fn):
	k = rng.choice(["name", "obj", "obj", "tol", "conf", "knee"])
	if k == "name" or fn == "xtrace":
		return {"converge": "count", "count": rng.choice([2, 3, 5, 5, 40 if fn != "xtrace" else 6])}
	if k == "obj":
		return {"converge": {"k": "count", "args": {"count": rng.choice([3, 6])}}}
	if k == "tol":
		return {"converge": {"k": "tolerance", "args": {"rtol": 0.05}}}
	if k == "conf" and fn == "hutch":
		return {"converge": {"k": "confidence", "args": {"rtol": 0.1}}}
	if fn == "hutch":
		return {"converge": {"k": "knee", "args": {}}, "record": True}
	return {"converge": "tolerance", "rtol": 0.1}


FNS = ["isotropic", "isotropic_out", "symmetric", "haar", "hutch", "hutchpp", "xtrace", "diag", "xdiag", "lanczos", "rayleigh_ritz"]


def randomized(rng, fn=None):
	fn = fn or rng.choice(["isotropic", "isotropic", "isotropic_out", "symmetric", "haar", "hutch", "hutch", "hutchpp", "xtrace", "diag", "xdiag", "lanczos", "lanczos", "rayleigh_ritz"])
	if fn == "isotropic":
		return vector(rng)
	if fn == "isotropic_out":
		v = vector(rng)
		return {"fn": fn, "args": dict(v["args"], dtype=rng.choice(["float64", "float32"]))}
	n = rng.choice([6, 8, 9] * 4 + [24, 40])
	if fn in ("symmetric", "haar"):
		a = {"n": rng.choice([2, 3, 5, 5, 20])}
		if fn == "symmetric" and rng.random() < 0.5:
			a["dist"] = rng.choice(["normal", "uniform"])
		if fn == "symmetric" and rng.random() < 0.3:
			a["pd"] = True
		if rng.random() < 0.3:
			a["ew"] = [float(k) for k in range(1, a["n"] + 1)]
		return {"fn": fn, "args": a}
	rep = rng.choice(["C", "C", "F", "csr", "matvec", "linop", "toeplitz", "f32", "fun:exp", "quad"])
	a = {"A": [n, rep]}
	pdf = {"pdf": rng.choice(PDFS)} if rng.random() < 0.8 else {}
	if fn == "hutch":
		if rep == "f32":
			a["A"] = [n, "C"]
		a.update(pdf, **criterion(rng, fn))
		if rng.random() < 0.4:
			a.update(full=True, batch=rng.choice([1, 2, 4]))
		if rng.random() < 0.2:
			a["callback"] = True
	elif fn == "hutchpp":
		a.update(pdf, m=rng.choice([3, 3, 6]), full=rng.random() < 0.3)
		if rng.random() < 0.4:
			a["mode"] = "full"
	elif fn == "xtrace":
		a["A"] = [n, rng.choice(["C", "F", "csr", "linop"])]
		a.update({"pdf": rng.choice(["sphere", "normal"])}, batch=rng.choice([1, 2]), full=rng.random() < 0.3, **criterion(rng, fn))
	elif fn == "diag":
		a.update(pdf, full=rng.random() < 0.3, **criterion(rng, fn))
	elif fn == "xdiag":
		a["A"] = [n, rng.choice(["C", "F"])]
		a.update({"pdf": rng.choice(["sphere", "normal"])} if rng.random() < 0.7 else {}, m=rng.choice([4, 6]))
	elif fn in ("lanczos", "rayleigh_ritz"):
		a["A"] = [n, rng.choice(["C", "F", "csr", "linop", "matvec", "f32"])]
		a.update(deg=rng.choice([3, 4]))
		if fn == "lanczos" and rng.random() < 0.4:
			a["return_basis"] = True
		if fn == "lanczos" and rng.random() < 0.2:
			a["sparse_mat"] = True
		if rng.random() < 0.3:
			a["orth"] = rng.choice([1, 3])
	return {"fn": fn, "args": a}


def fixed(rng):
	n = rng.choice([6, 8])
	fn = rng.choice(["normalize_unit", "matvec", "matvec", "quad", "quadrature", "interval", "matrix_function", "lanczos", "rayleigh_ritz"])
	a = {}
	if fn == "normalize_unit":
		a = {"A": [n, rng.choice(["C", "csr", "linop"])]}
	elif fn == "matvec":
		a = {"A": [n, rng.choice(["fun:exp", "fun:abs", "toeplitz"])]}
	elif fn == "quad":
		a = {"A": [n, rng.choice(["fun:exp", "fun:abs"])]}
	elif fn == "quadrature":
		a = {"n": rng.choice([3, 5]), "quad": rng.choice(["gw", "fttr"])}
	elif fn == "interval":
		a = {"n": 5, "sdist": rng.choice(["t", "normal"])}
	elif fn == "matrix_function":
		a = {"A": [n, rng.choice(["C", "linop"])]}
	else:
		a = {"A": [n, "C"], "deg": 4, "v0": [1.0] * (n - 1) + [2.0]}
	return {"fn": fn, "args": a}


def key(c):
	return c["fn"] + " " + json.dumps(c["args"], sort_keys=True)


def canary32(h, ev):
	seen = {}
	for o, e in zip(h["ops"], ev):
		if e["op"] == "call" and e.get("kind") == "int" and e.get("ok") and e["v"]:
			k = (e["key"], e["seed"])
			if k in seen and e["v"][0] not in ("nan", "inf", "-inf"):
				e["v"][0] = q.add(q.mul(e["v"][0], 2), 1)
				return ev
			seen[k] = 1


def c32(c, tier):
	big = c.thorough
	from common import VERIF

	c.model("MCStreams", STREAMS.format(depth=6 if big else 5, emit="FALSE", prop="PROPERTY Consumed"), timeout=1800)
	bs = c.generate("MCStreams", STREAMS.format(depth=8, emit="TRUE", prop=""), simulate=400 if big else 150, depth=10, limit=240 if big else 70)
	rng = c.rng
	hs = []
	for i, b in enumerate(bs):
		cs = {1: vector(rng), 2: randomized(rng)}
		ops = []
		v = vector(rng)["args"]
		v["size"][1] = max(v["size"][1], 3)
		iso = {"fn": "fill", "args": v}
		isos = 0
		pdf = cs[1]["args"]["pdf"]
		for o in b["ops"]:
			sd = {"kind": "gen", "seed": o["gen"]} if "gen" in o else {"kind": "int", "seed": o["int"]} if "int" in o else {}
			if o["op"] == "call":
				ops.append({"op": "call", **sd, **cs[o["call"]], "key": key(cs[o["call"]])})
			elif o["op"] == "make":
				ops.append({"op": "make", "obj": "f", **sd, "fn": "make", "args": {"pdf": pdf, "size": [9, 9]}})
			elif o["op"] == "use":
				c1 = {"fn": "isotropic", "args": dict(cs[1]["args"], size=cs[1]["args"]["size"] if o["call"] == 1 else [3, 2])}
				ops.append({"op": "use", "obj": "f", **c1, "key": key(c1)})
			elif o["op"] == "iso":
				isos += 1
				ops.append({"op": "iso", "obj": "i%d" % isos, "threads": 2, **sd, **iso})
			else:
				ops.append({"op": "fill", "obj": "i%d" % o["iso"], "key": "2 threads " + key(iso), **iso})
		if rng.random() < 0.5:
			ops.insert(rng.randint(0, len(ops)), {"op": "perturb", "to": 1})
		hs.append(hist("b%d" % i, ops, {"gens": b["seeds"]}))
	for i in range(500 if big else 130):
		pool = [randomized(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
		det = [fixed(rng) for _ in range(2)]
		gens = {n: str(rng.choice([7, 8])) for n in ("g1", "g2")}
		seeds = [str(rng.randint(0, 2**31)), "7", rng.choice(["8", "0", "0"])]
		ops, isos, facts = [], {}, {}
		for j in range(rng.randint(6, 14)):
			r = rng.random()
			if r < 0.12:
				ops.append({"op": "perturb", "to": rng.choice([0, 1])})
			elif r < 0.62:
				x = rng.choice(pool)
				kind = rng.choice(["int", "int", "gen", "gen", "none"])
				ops.append({"op": "call", "kind": kind, "seed": {"int": rng.choice(seeds), "gen": rng.choice(["g1", "g2"]), "none": ""}[kind], **x, "key": key(x)})
			elif r < 0.77:
				x = rng.choice(det)
				ops.append({"op": "call", "kind": "fixed", **x, "key": key(x)})
			elif r < 0.88:
				if not facts or rng.random() < 0.3:
					o, x, kind = "f%d" % len(facts), vector(rng), rng.choice(["int", "gen", "none"])
					facts[o] = x
					ops.append({"op": "make", "obj": o, "kind": kind, "seed": {"int": rng.choice(seeds), "gen": rng.choice(["g1", "g2"]), "none": ""}[kind], **x})
				o = rng.choice(list(facts))
				ops.append({"op": "use", "obj": o, **facts[o], "key": key(facts[o])})
			else:
				if not isos or rng.random() < 0.3:
					o, x, kind = "i%d" % len(isos), vector(rng), rng.choice(["int", "gen", "none"])
					t = rng.choice([1, 2, 3, 3, 8, 13])
					isos[o] = (x, t)
					ops.append({"op": "iso", "obj": o, "kind": kind, "seed": {"int": rng.choice(seeds), "gen": rng.choice(["g1", "g2"]), "none": ""}[kind], "threads": t, **x})
				o = rng.choice(list(isos))
				x, t = isos[o]
				ops.append({"op": "fill", "obj": o, **x, "key": key(x) if t == 1 else "%d threads " % t + key(x)})
		hs.append(hist("r%d" % i, ops, {"gens": gens}))
	for i, fn in enumerate(FNS * (3 if big else 1)):  # the smallest and the largest seeds, for every entry point
		ops = []
		for s in ["0", "1", str(2**63 + 5)]:
			x = randomized(rng, fn)
			ops += [{"op": "call", "kind": "int", "seed": s, **x, "key": key(x)}, {"op": "call", "kind": "none", "seed": "", **x, "key": key(x)}, {"op": "call", "kind": "int", "seed": s, **x, "key": key(x)}]
		x, b = randomized(rng, fn), rng.choice([0, 3, 7, 8])
		for s in [b, b + 2**32, b + 2 ** rng.choice([8, 15, 16, 24, 31, 33, 63]), b + 2 ** rng.choice([64, 65, 96, 128]), b]:  # seeds that agree in their low bits
			ops.append({"op": "call", "kind": "int", "seed": str(s), **x, "key": key(x)})
		hs.append(hist("z%d" % i, ops, {"gens": {"g1": "1"}}))
	hs.append(hist("import", [{"op": "import"}], {"gens": {"g1": "1"}, "harness": str(VERIF / "harness")}))
	c.bind("seeds", "TrStreams", hs, canary=canary32)


HEAP = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS {inv}
CONSTANTS
 Inputs = 2
 Depth = {depth}
 FAULT = "{fault}"
 EMIT = {emit}
"""
LAYOUTS = ["C", "C", "Cro", "F", "Fro", "view", "viewro"]


def heap_call(rng, new, on):
	"""One call with its inputs; new(role, n, ...) names an array, on() an object of a kind or none."""
	fn = rng.choice(["hutch", "diag", "xtrace", "hutchpp", "xdiag", "lanczos", "lanczos", "lanczos", "rayleigh_ritz", "eigh", "eigvalsh", "quadrature", "quadrature", "trinv", "matrix_function",
		"matvec", "matvec", "quad", "normalize_unit", "symmetric", "haar", "isotropic_out", "interval", "special", "special", "named", "criterion"])
	n = rng.choice([5, 6] * 5 + [40])
	o = {"op": "call", "fn": fn}
	rep = rng.choice(["array", "array", "csr", "linop"])
	if fn in ("hutch", "diag", "xtrace", "hutchpp", "xdiag"):
		o["in"] = {"A": new("sym", n)}
		a = {"rep": rep if fn != "xdiag" else "array"}
		if fn == "hutch":
			a.update(crit=rng.choice(["count", "tol", "conf", "knee"]))
			if a["crit"] == "knee":
				a["record"] = True
		if fn == "diag":
			a.update(crit=rng.choice(["count", "tol"]), full=rng.random() < 0.5, record=rng.random() < 0.3)
		if fn == "xtrace":
			a.update(batch=2)
		if fn in ("hutchpp",):
			a.update(m=3, full=rng.random() < 0.5)
		if fn == "xdiag":
			a.update(m=4)
		if fn in ("hutch", "diag", "xtrace") and rng.random() < 0.5:
			a["callback"] = True
		if fn != "xdiag" and rng.random() < 0.4:
			a["draws"] = rng.choice("CF")
		o["args"] = a
		return o
	if fn in ("lanczos", "rayleigh_ritz"):
		o["in"] = {"A": new("sym", n), "v0": new("vec", n)}
		d = rng.choice([3, 4, n])
		a = {"rep": rep, "deg": d}
		if rng.random() < 0.5:
			a["return_basis"] = True
		if rng.random() < 0.3:
			a["orth"] = 2
		if fn == "rayleigh_ritz" and rng.random() < 0.5:
			a["return_eigenvectors"] = True
		if fn == "lanczos":
			r = rng.random()
			if r < 0.2:
				a["sparse_mat"] = True
			elif r < 0.5:
				o["outs"] = {"alpha": new("vec", d + 1, plain=True), "beta": new("vec", d + 1, plain=True)}
				o["distinct"] = True
		o["args"] = a
		return o
	if fn in ("eigh", "eigvalsh", "quadrature"):
		o["in"] = {"d": new("spread", n), "e": new("off", n, m=1)}
		if fn != "quadrature" and rng.random() < 0.4:
			o["in"]["e"] = new("off", n - 1)
		a = {"method": rng.choice(["auto", "mrrr", "tqli"])} if fn != "quadrature" else {"quad": rng.choice(["gw", "fttr"])}
		if fn == "quadrature" and rng.random() < 0.5:
			a["deg"] = rng.choice([3, n])
			o["outs"] = {"nodes": new("vec", a["deg"], plain=True), "weights": new("vec", a["deg"], plain=True)}
			o["distinct"] = True
		o["args"] = a
		return o
	if fn == "trinv":
		o["in"] = {"B": new("upper", n), "b": new("vec", n + 1)}
		return o
	if fn == "matrix_function":
		o["in"] = {"A": new("sym", n), "v": new("vec", n)}
		o["args"] = {"rep": rep, "deg": rng.choice([3, n])}
		return o
	if fn in ("matvec", "quad"):
		k, m = on(["fun"] if fn == "quad" else ["fun", "toeplitz"])
		o.update(on=k)
		o["in"] = {"v": new("vec", m)}
		return o
	if fn == "normalize_unit":
		o["in"] = {"A": new("sym", n), "v": new("vec", n)}
		o["args"] = {"rep": rep}
		return o
	if fn in ("symmetric", "haar"):
		o["in"] = {"ew": new("vec", n)}
		if fn == "symmetric" and rng.random() < 0.4:
			o["args"] = {"pd": True}
		return o
	if fn == "isotropic_out":
		o["outs"] = {"out": new("samples", n, m=3, plain=True)}
		o["args"] = {"pdf": rng.choice(["rademacher", "normal", "sphere"])}
		return o
	if fn == "interval":
		o["in"] = {"a": new("vec", n)}
		o["args"] = {"sdist": rng.choice(["t", "normal"])}
		return o
	if fn == "special":
		o["in"] = {"x": new("vec", n)}
		o["args"] = {"name": rng.choice(["softsign", "smoothstep", "exp", "step"])}
		return o
	if fn == "named":
		o["in"] = {"x": new("vec", n)}
		o["args"] = {"name": rng.choice(["abs", "log", "exp", "smoothstep", "softsign", "numrank"])}
		return o
	k, _ = on(["est"])
	o.update(on=k, args={"name": rng.choice(["count", "tol", "conf", "knee"])})
	return o


def canary31(h, ev):
	for i, e in enumerate(ev):
		if e["op"] in ("call", "update", "get") and i > 1 and ev[i - 1]["heap"]:
			k = next(iter(ev[i - 1]["heap"]))
			if k in e["heap"] and k not in e["outs"].values():
				e["heap"][k] = "changed"
				return ev


def c31(c, tier):
	big = c.thorough
	c.model("MCHeap", HEAP.format(depth=5 if big else 4, fault="none", emit="FALSE", inv="Agree NoSharing"), timeout=1800)
	for f in ["returns its argument", "works in place", "keeps its argument", "returns its state"]:
		c.model("MCHeap", HEAP.format(depth=4, fault=f, emit="FALSE", inv="Agree"), refuted="Agree")
	bs = c.generate("MCHeap", HEAP.format(depth=7, fault="none", emit="TRUE", inv="Emit"), simulate=250 if big else 80, depth=9, limit=250 if big else 80)
	rng = c.rng
	hs = []
	for i, b in enumerate(bs):
		dim = rng.choice([2, 3])
		cls = rng.choice(["est", "cov", "mean"])
		ops = [{"op": "new", "name": "x%d" % k, "role": "samples", "n": dim, "m": rng.choice([1, 2, 4]), "seed": rng.randint(0, 10**6), "layout": rng.choice(LAYOUTS)} for k in (1, 2)]
		args = {"dim": dim}
		if cls == "est":
			args.update(covariance=rng.random() < 0.5, record=True)
		ops.append({"op": "make", "obj": "o", "args": dict(args, cls=cls)})
		names = {1: "x1", 2: "x2"}
		for o in b["ops"]:
			x = names[o["x"]] if "x" in o else ""
			if o["op"] == "call":
				r = len(names) + 1
				names[r] = "r%d.0" % r
				ops.append({"op": "call", "fn": "special", "in": {"x": x}, "args": {"name": rng.choice(["smoothstep", "exp", "step"])}, "res": "r%d" % r})
			elif o["op"] == "update":
				ops.append({"op": "update", "obj": "o", "in": {"x": x}, "row": True})
			elif o["op"] == "get":
				r = len(names) + 1
				names[r] = "r%d.0" % r
				ops.append({"op": "get", "obj": "o", "res": "r%d" % r})
			else:
				ops.append({"op": "scribble", "x": x})
		hs.append(hist("b%d" % i, ops))
	for i in range(700 if big else 200):
		ops, pool, objs, res, used = [], {}, {}, [], set()

		def new(role, n, m=0, plain=False):
			have = [k for k, v in pool.items() if v == (role, n, m, plain) and k not in used]
			if have and rng.random() < 0.6:
				k = rng.choice(have)
			else:
				k = "x%d" % (len(pool) + 1)
				pool[k] = (role, n, m, plain)
				ops.append({"op": "new", "name": k, "role": role, "n": n, "m": m, "seed": rng.randint(0, 10**6), "layout": "C" if plain else rng.choice(LAYOUTS)})
			used.add(k)
			return k

		def on(kinds):
			have = [k for k, v in objs.items() if v[0] in kinds and (v[0] != "est" or v[1] > 2)]
			if have and rng.random() < 0.7:
				k = rng.choice(have)
				return k, objs[k][1]
			c2 = rng.choice(kinds)
			k = "o%d" % (len(objs) + 1)
			n = rng.choice([5, 6] * 4 + [33])
			if c2 == "est":
				ops.append({"op": "make", "obj": k, "args": {"cls": "est", "dim": 1, "covariance": True, "record": True}})
				ops.append({"op": "update", "obj": k, "in": {"x": new("vec", 6)}})
			elif c2 == "toeplitz":
				ops.append({"op": "make", "obj": k, "in": {"c": new("vec", n), **({"r": new("vec", n)} if rng.random() < 0.5 else {})}, "args": {"cls": "toeplitz"}})
			else:
				x = new("sym", n)
				pool.pop(x)  # held by reference: never written or reused for another purpose
				pool[x] = ("held", n, 0, False)
				ops.append({"op": "make", "obj": k, "in": {"A": x}, "args": {"cls": "fun", "deg": rng.choice([3, n]), "orth": n}})
			objs[k] = (c2, n)
			return k, n

		for j in range(rng.randint(3, 8)):
			used.clear()
			r = rng.random()
			if r < 0.6 or not pool:
				o = heap_call(rng, new, on)
				o["res"] = "r%d" % j
				res.append(o["res"])
				ops.append(o)
			elif r < 0.85:
				x = rng.choice([k for k in pool if pool[k][0] != "held"] * 1 + ["%s.%d" % (t, rng.choice([0, 0, 1, 2])) for t in res] + ["none"])
				if x in pool and pool[x][0] in ("spread", "off", "upper", "sym"):
					continue  # keeps its role
				ops.append({"op": "scribble", "x": x})
			else:
				dim = rng.choice([1, 2])
				cls = rng.choice(["est", "cov", "mean", "cv"])
				have = [k for k, v in objs.items() if v[0] == cls and v[1] <= 2]
				if not have or rng.random() < 0.4:
					k = "o%d" % (len(objs) + 1)
					a = {"cls": cls}
					if cls == "cv":
						ops.append({"op": "make", "obj": k, "in": {"ecv": new("vec", 1)}, "args": a})
						pool[ops[-1]["in"]["ecv"]] = ("held", 1, 0, False)
						dim = 2
					else:
						a["dim"] = dim
						if cls == "est":
							a.update(covariance=rng.random() < 0.5, record=rng.random() < 0.5)
						ops.append({"op": "make", "obj": k, "args": a})
					objs[k] = (cls, dim)
					have = [k]
				k = rng.choice(have)
				dim = objs[k][1]
				if dim > 2:
					continue
				ops.append({"op": "update", "obj": k, "in": {"x": new("samples", dim, m=rng.choice([1, 2, 2, 3]))}})
				if rng.random() < 0.6:
					ops.append({"op": "get", "obj": k, "res": "g%d" % j})
					res.append("g%d" % j)
		hs.append(hist("r%d" % i, ops))
	for i in range(200 if big else 50):  # one object, read after every few updates
		cls, dim = ["cov", "est", "mean", "cov"][i % 4], rng.choice([2, 3])
		args = {"cls": cls, "dim": dim}
		if cls == "est":
			args.update(covariance=rng.random() < 0.5, record=rng.random() < 0.5)
		ops = [{"op": "make", "obj": "o", "args": args}]
		for j in range(rng.randint(3, 6)):
			ops.append({"op": "new", "name": "x%d" % j, "role": "samples", "n": dim, "m": rng.choice([1, 1, 2, 2, 3, 5]), "seed": rng.randint(0, 10**6), "layout": rng.choice(LAYOUTS)})
			ops.append({"op": "update", "obj": "o", "in": {"x": "x%d" % j}})
			if rng.random() < 0.8:
				ops.append({"op": "get", "obj": "o", "res": "g%d" % j})
			if rng.random() < 0.4:
				ops.append({"op": "scribble", "x": rng.choice(["x%d" % j, "g%d.%d" % (j, rng.choice([0, 1]))])})
		hs.append(hist("o%d" % i, ops))
	c.bind("pure", "TrHeap", hs, canary=canary31)


VALIDATE = """INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS {inv}
CONSTANTS
 Width = {width}
 EMIT = {emit}
"""


def canary30(h, ev):
	if ev:
		ev[0]["ok"] = not ev[0]["ok"]
		ev[0]["v"] = ["5"]
		return ev


def c30(c, tier):
	big = c.thorough
	c.model("MCValidate", VALIDATE.format(width=3 if big else 2, emit="FALSE", inv="Fixable Classes OrdinaryAnswered Agreement"), timeout=1800)
	bs = c.generate("MCValidate", VALIDATE.format(width=3 if big else 2, emit="TRUE", inv="Emit"), timeout=1800, workers=1)
	bs.sort(key=lambda b: json.dumps(b, sort_keys=True))
	c.rng.shuffle(bs)
	hs = [hist("c%d" % i, bs[i : i + 40]) for i in range(0, len(bs), 40)]
	c.bind("valid", "TrValidate", hs, canary=canary30, timeout=60)
