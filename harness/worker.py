"""Runs inside the venv: steps histories through the real primate and prints the recorded events."""

import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
	out = os.fdopen(os.dup(1), "w", buffering=1)
	os.dup2(2, 1)  # whatever the code under test prints goes to stderr
	import loader

	loader.install()
	driver = importlib.import_module(f"drivers.{sys.argv[1]}")
	hists = json.load(open(sys.argv[2]))
	if hasattr(driver, "setup"):
		driver.setup()
	out.write("@ready\n")
	for h in hists:
		out.write("@begin\n")

		def emit(ev):
			out.write("@ev " + json.dumps(ev) + "\n")
			out.flush()

		try:
			driver.run(h, emit)
		except Exception:
			# anything the driver did not expect is its own failure, never a verdict
			out.write("@driverfail " + json.dumps(traceback.format_exc()[-2500:]) + "\n")
			out.flush()
			return 3
		out.write("@end\n")
		out.flush()
	os._exit(0)


sys.exit(main())
