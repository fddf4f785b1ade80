"""Compiles the arithmetic module of the specifications and the extensions of the current tree."""

import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

common.java_classes()
p = subprocess.run([common.PY, "-c", "import sys; sys.path.insert(0, sys.argv[1]); import loader; loader.install(); import primate._lanczos, primate.tqli, primate.fttr", str(common.VERIF / "harness")])
print("setup done" if p.returncode == 0 else "extensions of the current tree do not build; checks will report it")
sys.exit(0)
