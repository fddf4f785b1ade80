"""How observations of the real code are written into traces (exactly: floats become rationals)."""

from fractions import Fraction

import numpy as np


def num(x):
	x = float(x)
	if x != x:
		return "nan"
	if x in (float("inf"), float("-inf")):
		return "inf" if x > 0 else "-inf"
	f = Fraction(x)
	return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def arr(x):
	a = np.asarray(x)
	return {"sh": list(a.shape), "v": [num(t) for t in a.ravel(order="C").astype(object)], "dt": str(a.dtype)}


def unnum(s):
	"""Exact rational string -> nearest float."""
	if s in ("nan", "inf", "-inf"):
		return float(s)
	return float(Fraction(s))


def unarr(rows, dtype=np.float64, order="C"):
	return np.array([[unnum(t) for t in r] if isinstance(r, list) else unnum(r) for r in rows], dtype=dtype, order=order)


def kind(x):
	if isinstance(x, (bool, np.bool_)):
		return "bool"
	if isinstance(x, (int, np.integer)):
		return "int"
	if isinstance(x, (float, np.floating)):
		return "float"
	if isinstance(x, np.ndarray):
		return "array"
	if isinstance(x, tuple):
		return "tuple"
	return type(x).__name__


class Caught(dict):
	pass


def attempt(f, *a, **k):
	"""(True, value) or (False, exception class name)."""
	try:
		with np.errstate(all="ignore"):
			return True, f(*a, **k)
	except Exception as e:
		return False, type(e).__name__ + ": " + str(e)[:160]
