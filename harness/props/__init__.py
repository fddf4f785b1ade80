from fractions import Fraction


class _Q:
	"""Exact rationals as the strings the specifications use."""

	def __call__(self, n, d=1):
		return self.s(Fraction(n) / Fraction(d))

	def s(self, f):
		return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"

	def f(self, x):
		return Fraction(x)

	def add(self, a, b):
		return self.s(Fraction(a) + Fraction(b))

	def sub(self, a, b):
		return self.s(Fraction(a) - Fraction(b))

	def mul(self, a, b):
		return self.s(Fraction(a) * Fraction(b))


q = _Q()


def hist(i, ops, cfg=None, **kw):
	return {"id": i, "ops": ops, "cfg": cfg or {"none": True}, **kw}
