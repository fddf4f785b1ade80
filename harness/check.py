"""python check.py <property> [--tier quick|thorough] [--replay file]

Decides one property.  Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Anything else: the machinery failed."""

import argparse
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import common  # noqa: E402
import registry  # noqa: E402


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument("prop")
	ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
	ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
	ap.add_argument("--replay")
	a = ap.parse_args()
	only = None
	if a.replay:
		d = json.load(open(a.replay))
		only = [v["history"] for v in d["violations"]]
	c = common.Check(a.prop, a.tier, a.seed, only=only)
	try:
		registry.CHECKS[a.prop](c, a.tier)
		return c.finish()
	except Exception:
		traceback.print_exc()
		print(f"ERROR property={a.prop}: the check itself failed", file=sys.stderr)
		return 2


sys.exit(main())
