from props import api, ci, comp, crit, cv, est, fun, lan, ops, rand, report, trace, tri, turns, work

BASE = "Exact rational arithmetic in TLC (Rat.java override) and the stated rounding allowances are trusted; the real code is exercised on the generated and randomized histories of the run only. "
CHECKS = {"C01": est.c01, "C02": est.c02, "C03": cv.c03, "C04": crit.c04, "C05": crit.c05, "C06": crit.c06, "C07": crit.c07, "C08": ci.c08}
CHECKS.update({f"C{k:02d}": getattr(trace, f"c{k:02d}") for k in range(9, 16)})
CHECKS.update({"C16": lan.c16, "C17": lan.c17, "C22": lan.c22})
CHECKS.update({"C18": fun.c18, "C19": fun.c19, "C27": fun.c27, "C20": tri.c20, "C21": tri.c21})
CHECKS.update({"C26": ops.c26, "C28": ops.c28, "C29": ops.c29})
CHECKS.update({"C23": rand.c23, "C24": rand.c24, "C25": rand.c25})
CHECKS.update({"C30": api.c30, "C31": api.c31, "C32": api.c32})
CHECKS["C33"] = report.c33
CHECKS["C34"] = comp.c34
CHECKS["C35"] = turns.c35
CHECKS["C36"] = work.c36
NOTES = {k: BASE for k in CHECKS}
NOT_YET = {}
