"""Planted bugs: python3 tools/plant.py make DEFS.py   (confirm and keep under seeded/)
              python3 tools/plant.py detect [ID ...]   (which checks catch which)

DEFS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo=python source, ext=bool)].
Everything happens in scratch copies under /tmp; /repo is never changed."""

import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path(__file__).resolve().parent.parent
SEED = V / "seeded"
PY = "/opt/venv/bin/python"

EXT = '''"""Compiles the Lanczos extension of the tree in the working directory and makes it importable."""
import importlib.util, os, shutil, subprocess, sys, sysconfig, tempfile, atexit
import numpy, pybind11
src = os.path.join(os.getcwd(), "src", "primate")
tmp = tempfile.mkdtemp()
atexit.register(shutil.rmtree, tmp, True)
so = os.path.join(tmp, "_lanczos" + sysconfig.get_config_var("EXT_SUFFIX"))
subprocess.run(["g++", "-std=c++20", "-O0", "-w", "-fPIC", "-shared", "-I" + os.path.join(src, "include"), "-I" + sysconfig.get_path("include"),
	"-I" + pybind11.get_include(), "-I/usr/include/eigen3", os.path.join(src, "_lanczos.cpp"), "-o", so], check=True)
spec = importlib.util.spec_from_file_location("primate._lanczos", so)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
import primate
sys.modules["primate._lanczos"] = mod
primate._lanczos = mod
'''
HEAD = 'import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
SH = '#!/bin/bash\nset -u\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
	return subprocess.run(a, capture_output=True, text=True, **k)


def scratch():
	d = pathlib.Path(tempfile.mkdtemp(prefix="plant")) / "repo"
	subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
	return d


def rebuild(d, files):
	for n in ("tqli", "fttr"):
		if any(f.endswith(n + ".py") for f in files):
			env = dict(os.environ, VERIF_REPO=str(d))
			p = sh(PY, str(V / "harness" / "loader.py"), n, env=env)
			if p.returncode:
				return False
			so = p.stdout.strip()
			shutil.copy(so, d / "src" / "primate" / os.path.basename(so))
	return True


def tests(d):
	e = dict(os.environ, PYTHONPATH=str(d / "src"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
	ig = [f"--ignore=tests/test_{x}.py" for x in ("diagonal", "lanczos", "operator", "quadrature", "trace", "tridiagonal")]
	p = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:benchmark", *ig, "--deselect", "tests/test_random.py::test_Isotropic", "tests", cwd=d, env=e)
	failed = [x for x in p.stdout.splitlines() if x.startswith(("FAILED", "ERROR")) and "test_pythran_imports" not in x]
	return not failed and "18 passed" in p.stdout, p.stdout[-900:]


def demo(folder, d):
	out = pathlib.Path(tempfile.mkdtemp()) / "x"
	out.mkdir()
	for f in folder.iterdir():
		if f.suffix not in (".diff", ".patch") and f.name != "meta.json":
			shutil.copy(f, out)
	p = sh("bash", str(out / "demo.sh"), cwd=d, timeout=300)
	shutil.rmtree(out.parent)
	return p.returncode, (p.stdout + p.stderr)[-500:]


def make(b):
	dst = SEED / b["id"]
	d = scratch()
	try:
		files = sorted({f for f, _, _ in b["edits"]})
		for f, old, new in b["edits"]:
			p = d / f
			s = p.read_text()
			if s.count(old) != 1:
				return f"edit does not apply ({s.count(old)} matches): {old!r}"
			p.write_text(s.replace(old, new))
		diff = sh("git", "-C", str(d), "diff").stdout
		base = sh("git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD").stdout.strip()
		orig = {x.strip() for f in files for x in sh("git", "-C", "/repo", "show", f"{base}:{f}").stdout.splitlines()}
		gone = [x[1:].strip() for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
		if gone and not any(x in orig for x in gone):
			return f"changes no original line: {gone}"
		tmp = pathlib.Path(tempfile.mkdtemp())
		(tmp / "patch.diff").write_text(diff)
		(tmp / "demo.py").write_text(HEAD + ("import lanczos_ext\n" if b.get("ext") else "") + b["demo"])
		if b.get("ext"):
			(tmp / "lanczos_ext.py").write_text(EXT)
		(tmp / "demo.sh").write_text(SH)
		(tmp / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
		if not rebuild(d, files):
			return "does not build"
		ok, out = tests(d)
		if not ok:
			return "tests fail: " + out
		rc, out = demo(tmp, d)
		if rc == 0:
			return "demo passes with the change"
		rc0, out0 = demo(tmp, pathlib.Path("/repo"))
		if rc0 != 0:
			return "demo fails without the change: " + out0
		if "Error" in out and "AssertionError" not in out:
			print("  note:", out.strip().splitlines()[-1])
		if dst.exists():
			shutil.rmtree(dst)
		dst.parent.mkdir(exist_ok=True)
		shutil.copytree(tmp, dst)
		shutil.rmtree(tmp)
		return "kept"
	finally:
		shutil.rmtree(d.parent)


def detect(i, tier="quick", seed="1", props=None):
	meta = json.loads((SEED / i / "meta.json").read_text())
	d = scratch()
	try:
		p = sh("git", "-C", str(d), "apply", str(SEED / i / "patch.diff"))
		if p.returncode:
			return {"apply": p.stderr}
		res = {}
		for prop in props or [meta["property"]]:
			p = sh(PY, str(V / "harness" / "check.py"), prop, "--tier", tier, "--seed", seed, env=dict(os.environ, VERIF_REPO=str(d)), cwd=V)
			why = [x.strip() for x in p.stdout.splitlines() if "rejected:" in x][:2]
			res[prop] = {0: "MISSED", 1: "caught"}.get(p.returncode, "ERROR " + p.stderr[-300:]) + (" | " + "; ".join(why) if why else "")
		return res
	finally:
		shutil.rmtree(d.parent)


if __name__ == "__main__":
	if sys.argv[1] == "make":
		ns = {}
		exec(open(sys.argv[2]).read(), ns)
		for b in ns["BUGS"]:
			if len(sys.argv) > 3 and b["id"] not in sys.argv[3:]:
				continue
			print(b["id"], make(b), flush=True)
	else:
		for i in sys.argv[2:] or sorted(x.name for x in SEED.iterdir()):
			print(i, json.dumps(detect(i)), flush=True)
