"""python3 tools/manifest.py  writes MANIFEST.json from properties.jsonl and the registry of checks."""

import json
import pathlib
import sys

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
sys.dont_write_bytecode = True
import registry  # noqa: E402

props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
	i = p["id"]
	if i in registry.CHECKS:
		checks.append({
			"property": i,
			"quick_cmd": f"/opt/venv/bin/python harness/check.py {i} --tier quick",
			"thorough_cmd": f"/opt/venv/bin/python harness/check.py {i} --tier thorough",
			"technique": "TLA+ specification model-checked with TLC; behaviours replayed into the real code; recorded traces validated by TLC",
			"level": "model_checking",
			"level_note": registry.NOTES[i],
		})
	else:
		na.append({"property": i, "reason": registry.NOT_YET.get(i, "the specification and binding for this property are still being built")})
m = {
	"version": 1,
	"setup_cmd": "/opt/venv/bin/python harness/setup.py",
	"checks": checks,
	"not_applicable": na,
	"notes": "All checks: explicit TLA+ specification under spec/, exhaustively explored with TLC in small constants, and bound to the code by trace validation (TLC) of executions recorded from /repo's working tree. No hooks in /repo.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
