"""Import primate from the working tree of the repository under check.

Python sources are imported straight from <repo>/src/primate.  The three compiled modules
(tqli, fttr: pythran; _lanczos: pybind11 + Eigen) are compiled from the sources in the tree into a
content-addressed cache under /verif/build, never into the repository, and resolved by a meta-path
finder that takes precedence over any stale extension lying in the tree.
"""

import fcntl
import hashlib
import importlib.machinery
import importlib.metadata
import importlib.util
import os
import pathlib
import subprocess
import sys
import sysconfig

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src" / "primate"
CACHE = VERIF / "build" / "ext"
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


class BuildError(Exception):
	pass


def _run(cmd, log):
	p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/")
	if p.returncode != 0:
		raise BuildError(f"{log}: {' '.join(map(str, cmd))}\n{p.stdout[-3000:]}")


def _digest(files, extra):
	h = hashlib.sha256(extra.encode())
	for f in sorted(files):
		h.update(f.name.encode())
		h.update(f.read_bytes())
	return h.hexdigest()[:24]


def build(name):
	"""Compile extension `name` from the tree (or find it in the cache) and return the .so path."""
	import numpy

	pyinc = sysconfig.get_path("include")
	common = ["-std=c++20", "-fPIC", "-shared", "-fvisibility=hidden", "-w", f"-I{pyinc}", f"-I{numpy.get_include()}"]
	if name in ("tqli", "fttr"):
		files = [SRC / f"{name}.py"]
	else:
		files = [SRC / "_lanczos.cpp", *sorted((SRC / "include").glob("*.h"))]
	out = CACHE / f"{name}-{_digest(files, 'v1' + name)}" / f"{name}{SUFFIX}"
	if out.exists():
		return out
	out.parent.mkdir(parents=True, exist_ok=True)
	with open(out.parent / "lock", "w") as lk:
		fcntl.flock(lk, fcntl.LOCK_EX)
		if out.exists():
			return out
		tmp = out.parent / f"tmp{os.getpid()}.so"
		if name in ("tqli", "fttr"):
			import pythran

			cpp = out.parent / f"{name}.cpp"
			exe = pathlib.Path(sys.prefix) / "bin" / "pythran"
			_run([str(exe), "-E", str(files[0]), "-o", str(cpp)], name)
			_run(
				["g++", "-O2", *common, "-DENABLE_PYTHON_MODULE", "-D__PYTHRAN__=3", f"-I{pythran.get_include()}", str(cpp), "-o", str(tmp)],
				name,
			)
		else:
			import pybind11

			_run(
				["g++", "-O1", *common, f"-I{SRC / 'include'}", f"-I{pybind11.get_include()}", "-I/usr/include/eigen3", str(files[0]), "-o", str(tmp)],
				name,
			)
		os.replace(tmp, out)
	return out


class _Finder:
	def __init__(self, table):
		self.table = table

	def find_spec(self, fullname, path=None, target=None):
		so = self.table.get(fullname)
		if so is None:
			return None
		if callable(so):
			so = self.table[fullname] = so()
		loader = importlib.machinery.ExtensionFileLoader(fullname, str(so))
		return importlib.util.spec_from_file_location(fullname, str(so), loader=loader)


def install():
	"""Make `import primate` mean the tree under check."""
	sys.dont_write_bytecode = True
	sys.meta_path.insert(0, _Finder({f"primate.{n}": (lambda n=n: build(n)) for n in ("tqli", "fttr", "_lanczos")}))
	src = str(REPO / "src")
	sys.path[:] = [src] + [p for p in sys.path if p != src]
	try:
		importlib.metadata.version("scikit-primate")
	except importlib.metadata.PackageNotFoundError:
		real = importlib.metadata.version
		importlib.metadata.version = lambda n: "0" if n == "scikit-primate" else real(n)
	import primate

	assert pathlib.Path(primate.__file__).resolve().parent == SRC.resolve(), primate.__file__
	return primate


if __name__ == "__main__":
	for n in sys.argv[1:] or ("tqli", "fttr", "_lanczos"):
		print(build(n))
