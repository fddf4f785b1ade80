"""Shared machinery of the checks: TLC runs, sharded replay of histories into the real code, trace
validation, verdicts and evidence.  See DESIGN.md, section "How a check runs"."""

import hashlib
import json
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
BUILD = VERIF / "build"
PY = "/opt/venv/bin/python"
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
	pass


# ---------------------------------------------------------------- java


def java_classes():
	src = sorted((SPEC / "lib").glob("*.java"))
	h = hashlib.sha256(b"".join(f.read_bytes() for f in src)).hexdigest()[:16]
	out = BUILD / f"java-{h}"
	if not (out / "ok").exists():
		tmp = pathlib.Path(tempfile.mkdtemp(dir=_mk(BUILD)))
		p = subprocess.run(["javac", "-nowarn", "-cp", JARS[0], "-d", str(tmp), *map(str, src)], capture_output=True, text=True)
		if p.returncode:
			raise MachineryError("javac: " + p.stderr)
		(tmp / "ok").write_text("")
		try:
			os.rename(tmp, out)
		except OSError:
			shutil.rmtree(tmp)
	return out


def _mk(p):
	p.mkdir(parents=True, exist_ok=True)
	return p


def short(out):
	return "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Linting")))[-3000:]


class TLCResult:
	def __init__(self, rc, out, wall):
		self.rc, self.out, self.wall = rc, out, wall
		m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
		self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
		if not m:
			m = re.findall(r"states checked: (\d+)|Progress: (\d+) states checked", out)
			if m:
				self.generated = self.distinct = int([x for t in m for x in t if x][-1])

	def json_lines(self, tag):
		"""Lines printed by PrintT(tag \\o ToJson(..))."""
		pre = '"' + tag
		for line in self.out.splitlines():
			if line.startswith(pre):
				yield json.loads(json.loads(line)[len(tag) :])


def tlc(module, cfg, env=None, simulate=None, depth=None, workers=1, timeout=600, seed=None, heap="3g", coverage=False, dumpdir=None):
	"""Run TLC on spec/<module>.tla with the configuration text or file `cfg`."""
	classes = java_classes()
	work = pathlib.Path(tempfile.mkdtemp(prefix="tlc", dir=_mk(BUILD / "tmp")))
	try:
		path = next(SPEC.rglob(f"{module}.tla"))
		if "\n" in cfg or "=" in cfg or " " in cfg:
			cfgp = work / "run.cfg"
			cfgp.write_text(cfg)
		else:
			cfgp = next(SPEC.rglob(cfg))
		libs = os.pathsep.join(str(d) for d in [SPEC, *[p for p in SPEC.iterdir() if p.is_dir()]])
		cmd = ["java", f"-Djava.io.tmpdir={work}", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-DTLA-Library={libs}"]
		cmd += ["-cp", os.pathsep.join([str(classes), *JARS]), "tlc2.TLC", "-metadir", str(work), "-config", str(cfgp)]
		cmd += ["-workers", str(workers), "-nowarning", "-noGenerateSpecTE"]
		if simulate is not None:
			cmd += ["-simulate", f"num={simulate}"]
		if depth is not None:
			cmd += ["-depth", str(depth)]
		if seed is not None:
			cmd += ["-seed", str(seed)]
		if coverage:
			cmd += ["-coverage", "1"]
		cmd += [str(path)]
		e = dict(os.environ, **(env or {}))
		t0 = time.time()
		try:
			p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=work)
		except subprocess.TimeoutExpired:
			raise MachineryError(f"TLC timeout on {module} after {timeout}s")
		return TLCResult(p.returncode, p.stdout + p.stderr, time.time() - t0)
	finally:
		shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- replay into the real code


def _worker(driver, hists, out, timeout, env):
	"""Run histories through one worker process after another; a death or a hang is an event of the trace."""
	events = {}
	i = 0
	deaths = 0
	while i < len(hists):
		with tempfile.NamedTemporaryFile("w", suffix=".json", dir=out, delete=False) as f:
			json.dump(hists[i:], f)
		p = subprocess.Popen(
			[PY, "-X", "faulthandler", str(VERIF / "harness" / "worker.py"), driver, f.name],
			stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=str(out),
		)
		last = [time.time()]
		timedout = [False]
		errbuf = []

		def drain():
			for ln in p.stderr:
				errbuf.append(ln)
				del errbuf[:-60]

		def watch():
			while p.poll() is None:
				if time.time() - last[0] > timeout:
					timedout[0] = True
					p.kill()
					return
				time.sleep(0.2)

		ts = [threading.Thread(target=drain, daemon=True), threading.Thread(target=watch, daemon=True)]
		for t in ts:
			t.start()
		cur, ready, fatal = None, False, None
		for line in p.stdout:
			last[0] = time.time()
			if not line.startswith("@"):
				continue
			kind, _, rest = line[1:].rstrip("\n").partition(" ")
			if kind == "ready":
				ready = True
			elif kind == "begin":
				cur = hists[i]["id"]
				events[cur] = []
			elif kind == "ev":
				events[cur].append(json.loads(rest))
			elif kind == "end":
				cur = None
				i += 1
			elif kind == "driverfail":
				fatal = json.loads(rest)
		rc = p.wait()
		for t in ts:
			t.join(1)
		os.unlink(f.name)
		if fatal:
			raise MachineryError(f"driver {driver}: {fatal}")
		if cur is None and i >= len(hists):
			break
		if not ready:
			# the code under test cannot even be imported: every history of the shard is rejected
			tail = "".join(errbuf)[-1500:]
			if "BuildError" in tail or "MachineryFault" in tail:
				raise MachineryError(f"worker could not start: {tail}")
			for h in hists[i:]:
				events[h["id"]] = [{"op": "died", "how": "import", "detail": tail}]
			break
		if cur is None:
			raise MachineryError(f"worker of {driver} ended early rc={rc}: {''.join(errbuf)[-1500:]}")
		events[cur].append({"op": "died", "how": "hang" if timedout[0] else f"exit {rc}", "detail": "".join(errbuf)[-600:]})
		i += 1
		deaths += 1
		if deaths > 20:
			break
	return events


def replay(driver, hists, shards=NPROC, timeout=120, env=None):
	"""Step every history through the real code.  Returns {history id: [events]}."""
	if not hists:
		return {}
	e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", **(env or {}))
	out = pathlib.Path(tempfile.mkdtemp(prefix="replay", dir=_mk(BUILD / "tmp")))
	try:
		shards = max(1, min(shards, len(hists)))
		parts = [hists[k::shards] for k in range(shards)]
		with ThreadPoolExecutor(shards) as ex:
			res = list(ex.map(lambda hs: _worker(driver, hs, out, timeout, e), parts))
		ev = {}
		for r in res:
			ev.update(r)
		return ev
	finally:
		shutil.rmtree(out, ignore_errors=True)


# ---------------------------------------------------------------- trace validation


class Verdict:
	def __init__(self):
		self.events = self.histories = self.states = self.generated = 0
		self.bad = []  # (history id, index in history, op, [clauses])
		self.counts = {}


def _validate_part(module, lines, timeout, prop):
	"""lines: [(hid, k, event dict)].  Returns the list of rejections and TLC's counts."""
	tmp = _mk(BUILD / "tmp")
	fd, name = tempfile.mkstemp(suffix=".ndjson", dir=tmp)
	with os.fdopen(fd, "w") as f:
		for _, _, ev in lines:
			f.write(json.dumps(ev) + "\n")
	try:
		cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
		r = tlc(module, cfg, env={"TRACE": name, "PROP": prop}, timeout=timeout)
	finally:
		os.unlink(name)
	bad, counts = [], {}
	for x in r.json_lines("@BAD "):
		l = x["l"]
		hid, k, ev = lines[l - 1]
		bad.append((hid, k, ev["op"], sorted(x["bad"])))
	done = list(r.json_lines("@DONE "))
	for x in r.json_lines("@CNT "):
		counts = x
	if done and done[-1]["n"] == len(lines) and r.rc == 0:
		return bad, r, counts
	# TLC stopped inside the trace: the recorded event is outside the domain of the specification's action
	m = re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)
	d = r.distinct
	if "ndDeserialize" in r.out:
		raise MachineryError(f"TLC on {module} cannot read the trace\n{short(r.out)}")
	if ("Error: " in r.out) and (m or d >= 1) and "Parsing or semantic analysis failed" not in r.out and "OutOfMemory" not in r.out and "StackOverflow" not in r.out:
		l = min(max(int(m[-1]) if m else d, 1), len(lines))
		hid, k, ev = lines[l - 1]
		err = re.findall(r"Error: (.*(?:\n(?!Error).*){0,6})", r.out)
		bad.append((hid, k, ev["op"], ["outside the domain of the specification: " + " | ".join(e.strip()[:300] for e in err[:2])]))
		rest = [x for x in lines[l:] if x[0] != hid]
		if rest:
			b2, r2, c2 = _validate_part(module, rest, timeout, prop)
			bad += b2
			r2.distinct += r.distinct
			r2.generated += r.generated
			return bad, r2, c2
		return bad, r, counts
	raise MachineryError(f"TLC on {module}: rc={r.rc}\n{short(r.out)}")


def validate(module, hists, events, shards=NPROC, timeout=800, prop=""):
	"""Check the recorded events of every history against the trace specification `module`."""
	v = Verdict()
	order = [h["id"] for h in hists]
	size = {h: len(events.get(h, [])) + 1 for h in order}
	total = sum(size.values())
	shards = max(1, min(shards, total // 40 + 1, len(order)))
	parts = [[] for _ in range(shards)]
	load = [0] * shards
	for h in hists:
		hid = h["id"]
		if hid not in events:
			raise MachineryError(f"no events for history {hid}")
		k = load.index(min(load))
		w = h.get("weight")
		load[k] += w if w else size[hid]
		parts[k].append((hid, 0, {"op": "begin", "h": hid, "cfg": h.get("cfg", {"none": True})}))
		for j, ev in enumerate(events[hid], 1):
			parts[k].append((hid, j, ev))
	with ThreadPoolExecutor(shards) as ex:
		res = list(ex.map(lambda p: _validate_part(module, p, timeout, prop), [p for p in parts if p]))
	for bad, r, counts in res:
		v.bad += bad
		v.states += r.distinct
		v.generated += r.generated
		for k, c in counts.items():
			v.counts[k] = v.counts.get(k, 0) + c
	for evs in events.values():
		for ev in evs:
			v.counts[ev["op"]] = v.counts.get(ev["op"], 0) + 1
	v.events = total
	v.histories = len(order)
	return v


# ---------------------------------------------------------------- one check


def findings():
	p = VERIF / "KNOWN_FINDINGS.json"
	return json.loads(p.read_text()) if p.exists() else {"known": [], "fixed": []}


class Check:
	"""Collects what one run of one property covered and renders the verdict."""

	def __init__(self, prop, tier, seed, only=None):
		self.prop, self.tier, self.seed = prop, tier, seed
		self.thorough = tier == "thorough"
		self.only = only
		self.rng = random.Random(f"{prop}-{seed}")
		self.t0 = time.time()
		self.states = self.transitions = self.traces = self.events = 0
		self.models, self.bindings, self.samples, self.violations, self.known = [], [], [], [], []
		self.assumptions = []
		self.exhaustive = True

	# -- the design: exhaustive exploration of the specification
	def model(self, module, cfg, expect=(), refuted=None, **kw):
		"""Check the specification itself; a failure here is an error of the specification, not of the code.
		`refuted`: the configuration describes a faulty design, which the named invariant must exclude."""
		if self.only is not None:
			return None
		kw.setdefault("workers", NPROC)
		r = tlc(module, cfg, **kw)
		if refuted:
			if r.rc == 0 or f"Invariant {refuted} is violated" not in r.out:
				raise MachineryError(f"model {module}: the faulty design is not excluded by {refuted}\n{short(r.out)}")
			self.models.append({"module": module, "refuted_by": refuted, "distinct_states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)})
			return r
		if r.rc != 0:
			raise MachineryError(f"model {module} does not satisfy its own properties: rc={r.rc}\n{short(r.out)}")
		for e in expect:
			if e not in r.out:
				raise MachineryError(f"model {module}: expected output missing: {e}")
		self.states += r.distinct
		self.transitions += r.generated
		self.models.append({"module": module, "distinct_states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)})
		return r

	def generate(self, module, cfg, tag="@HIST ", limit=None, **kw):
		"""Behaviours of the specification, as printed by it, to be stepped through the real code."""
		if kw.get("simulate"):  # one worker: the same seed gives the same behaviours
			kw.update(simulate=kw["simulate"] * kw.get("workers", 1), workers=1)
		r = self.model(module, cfg, **kw)
		if r is None:
			return []
		seen, out = set(), []
		for h in r.json_lines(tag):
			k = json.dumps(h, sort_keys=True)
			if k not in seen:
				seen.add(k)
				out.append(h)
		if not out:
			raise MachineryError(f"model {module} generated no behaviour")
		out.sort(key=lambda h: json.dumps(h, sort_keys=True))
		self.models[-1]["behaviours"] = len(out)
		if limit and len(out) > limit:
			self.rng.shuffle(out)
			out = out[:limit]
			self.models[-1]["behaviours_replayed"] = limit
		return out

	# -- the binding: replay into the code, validate what was recorded
	def bind(self, driver, module, hists, name=None, timeout=120, env=None, canary=None, shards=NPROC, clauses=None):
		"""hists: [{id, cfg, ops}] -> replay, record, validate.  `canary(events)` corrupts one recorded history
		in a way the specification must reject (shows that the binding is not vacuous)."""
		if self.only is not None:
			hists = [h for h in self.only if h.get("driver") == driver and h.get("module") == module]
			if not hists:
				return
		if not hists:
			raise MachineryError("no histories to bind")
		for h in hists:
			h.setdefault("driver", driver)
			h.setdefault("module", module)
		ids = [h["id"] for h in hists]
		if len(set(ids)) != len(ids):
			raise MachineryError("duplicate history ids")
		t0 = time.time()
		ev = replay(driver, hists, timeout=timeout, env=env, shards=shards)
		dead = [h for h in hists if h["id"] not in ev]
		hists = [h for h in hists if h["id"] in ev]
		t1 = time.time()
		want_canary = canary is not None and self.only is None
		chists, cev = [], {}
		if want_canary:
			for h in hists:
				try:
					c = canary(json.loads(json.dumps(h)), json.loads(json.dumps(ev[h["id"]])))
				except (ValueError, TypeError, KeyError, IndexError):  # nothing that can be corrupted was recorded
					c = None
				if c is not None:
					ch = dict(h, id="canary-" + str(h["id"]))
					chists.append(ch)
					cev[ch["id"]] = c
					if len(chists) >= 3:
						break
		v = validate(module, hists + chists, {**ev, **cev}, prop=self.prop)
		if clauses is not None:
			keep = [(a, b, o, [x for x in cl if clauses(x) or x.startswith("outside the domain") or x.startswith("the process")]) for a, b, o, cl in v.bad]
			v.bad = [x for x in keep if x[3]]
		byid = {h["id"]: h for h in hists}
		cbad = {b[0] for b in v.bad if str(b[0]).startswith("canary-")}
		real = [b for b in v.bad if not str(b[0]).startswith("canary-")]
		if want_canary and not real and not cbad:
			raise MachineryError(f"binding {driver}/{module} is vacuous: corrupted history accepted ({len(cbad)} of {len(chists)} rejected)")
		self.states += v.states
		self.transitions += v.generated
		self.traces += len(hists)
		self.events += v.events
		self.bindings.append({
			"driver": driver, "trace_spec": module, "histories": len(hists), "events": v.events, "canaries_rejected": len(cbad),
			"event_counts": v.counts, "replay_s": round(t1 - t0, 1), "validate_s": round(time.time() - t1, 1),
		})
		for h in hists[:: max(1, len(hists) // 2)][:2]:
			s = json.dumps({"history": h, "events": ev[h["id"]][:4]})
			self.samples.append(json.loads(s) if len(s) < 6000 else s[:6000])
		for hid, k, op, clauses in real:
			h = byid[hid]
			self.violation(h, k, op, clauses, ev[hid][k - 1] if 0 < k <= len(ev[hid]) else None)

	def violation(self, h, k, op, clauses, event):
		for f in findings()["known"]:
			if f["property"] == self.prop and f.get("op", op) == op and set(clauses) <= set(f["clauses"]) and all(
				h.get("cfg", {}).get(a) == b for a, b in f.get("cfg", {}).items()
			):
				line = f"KNOWN-FINDING: property={self.prop} {f['what']}"
				if line not in self.known:
					self.known.append(line)
				return
		self.violations.append({"history": h, "index": k, "op": op, "clauses": clauses, "event": event})

	def finish(self):
		cov = {
			"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
			"events_validated": self.events, "models": self.models, "bindings": self.bindings, "samples": self.samples[:6],
		}
		ev = {
			"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
			"assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
		}
		if self.only is None:
			_mk(VERIF / "evidence")
			(VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
		for ln in self.known:
			print(ln)
		if not self.violations:
			print(f"OK property={self.prop} tier={self.tier} states={self.states} histories={self.traces} events={self.events} wall={ev['wall_s']}s")
			return 0
		d = _mk(BUILD / "replay")
		p = d / f"{self.prop}.json"
		seen, keep = set(), []
		for x in self.violations:
			key = (x["op"], tuple(x["clauses"]))
			if key not in seen or len(keep) < 20:
				keep.append(x)
			seen.add(key)
		p.write_text(json.dumps({"property": self.prop, "seed": self.seed, "violations": keep[:60]}, indent=1))
		for op, cl in sorted(seen)[:12]:
			x = next(x for x in keep if (x["op"], tuple(x["clauses"])) == (op, cl))
			n = sum(1 for y in self.violations if (y["op"], tuple(y["clauses"])) == (op, cl))
			print(f"  rejected: {op}: {', '.join(cl)}  [{n}x, first: history {x['history']['id']} event {x['index']}]")
		print(f"VIOLATION property={self.prop} replay={p}")
		return 1
