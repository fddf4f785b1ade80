----------------------------- MODULE SpectralFun -----------------------------
(***************************************************************************)
(* The spectral functions, in exact arithmetic (exponential, logarithm and *)
(* square root within 2^-150).  A function is a record: f.name and its     *)
(* parameters.                                                             *)
(*   identity, abs, sqrt, log, inv, exp (t), smoothstep (a, b),            *)
(*   softsign (q), numrank (threshold), step (c, nonneg), poly (c)         *)
(***************************************************************************)
EXTENDS LinAlg

EPSF == "1/4503599627370496"
Clamp(x, lo, hi) == RMax(lo, RMin(hi, x))

RECURSIVE SoftJ(_), SoftSum(_, _, _)
SoftJ(j) == IF j = 0 THEN "1" ELSE RMul(RDiv(2 * j - 1, 2 * j), SoftJ(j - 1))
SoftSum(x, y, i) == IF i < 0 THEN "0" ELSE RAdd(RMul(SoftJ(i), RMul(x, RPow(y, i))), SoftSum(x, y, i - 1))
Soft(x, q) == LET c == Clamp(x, "-1", "1") IN SoftSum(c, RSub("1", RMul(c, c)), q)

Smooth(x, a, b) ==
  LET d == IF a = b THEN "1" ELSE RSub(b, a)
      y == Clamp(RDiv(RSub(x, a), d), "0", "1")
  IN RSub(RMul(3, RMul(y, y)), RMul(2, RPow(y, 3)))

RECURSIVE Horner(_, _, _)
Horner(c, x, i) == IF i = Len(c) THEN c[i] ELSE RAdd(c[i], RMul(x, Horner(c, x, i + 1)))

F(f, x) ==
  CASE f.name = "identity"   -> x
    [] f.name = "abs"        -> RAbs(x)
    [] f.name = "sqrt"       -> IF RSign(x) = 0 THEN "0" ELSE RSqrt(x)
    [] f.name = "log"        -> RLog(RMax(x, EPSF))
    [] f.name = "inv"        -> RDiv("1", x)
    [] f.name = "exp"        -> RExp(RMul(f.t, x))
    [] f.name = "smoothstep" -> Smooth(x, f.a, f.b)
    [] f.name = "softsign"   -> Soft(x, f.q)
    [] f.name = "numrank"    -> IF RLt(RAbs(x), f.threshold) THEN "0" ELSE "1"
    [] f.name = "step"       -> IF RLt(IF f.nonneg THEN RAbs(x) ELSE x, f.c) THEN "0" ELSE "1"
    [] f.name = "poly"       -> IF f.c = << >> THEN "0" ELSE Horner(f.c, x, 1)

(* what a caller that gives no parameters gets *)
Default(name) ==
  CASE name = "exp"        -> [name |-> "exp", t |-> "1"]
    [] name = "smoothstep" -> [name |-> "smoothstep", a |-> "0", b |-> "1"]
    [] name = "softsign"   -> [name |-> "softsign", q |-> 10]
    [] name = "numrank"    -> [name |-> "numrank", threshold |-> "1/1000000"]
    [] OTHER               -> [name |-> name]
Builtins == {"identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"}

\* ---- allowances: the error of evaluating F(f, x) in floating point with unit roundoff eps
FTol(f, x, eps) ==
  LET y == F(f, x)
  IN CASE f.name \in {"identity", "abs", "numrank", "step"} -> "0"
       [] f.name \in {"sqrt", "inv"} -> RMul(4, RMul(eps, RAbs(y)))
       [] f.name = "log" -> RMul(4, RMul(eps, RAdd(RAbs(y), "1/1000000")))
       [] f.name = "exp" -> RMul(RMul(8, eps), RMul(RAbs(y), RAdd("1", RAbs(RMul(f.t, x)))))
       [] f.name = "smoothstep" -> RMul(RMul(32, eps), RAdd("1", IF f.a = f.b THEN RAdd(RAbs(x), RAbs(f.a)) ELSE RDiv(RAdd(RAbs(x), RAbs(f.a)), RAbs(RSub(f.b, f.a)))))
       [] f.name = "softsign" -> RMul(8 * (f.q + 2) * (f.q + 2), eps)
       [] OTHER -> RMul(RMul(8 * Len(f.c), eps), Horner([i \in 1..Len(f.c) |-> RAbs(f.c[i])], RAbs(x), 1))

(* size and slope of f where the spectrum is [lo, hi] (for inv, sqrt and log: away from zero) *)
FSize(f, r) ==     \* r bounds the magnitude of the spectrum
  CASE f.name \in {"identity", "abs"} -> r
    [] f.name = "sqrt" -> RAdd("1", r)
    [] f.name = "log"  -> RAdd(40, r)
    [] f.name = "exp"  -> RExp(RMul(RAbs(f.t), r))
    [] f.name = "poly" -> Horner([i \in 1..Len(f.c) |-> RAbs(f.c[i])], r, 1)
    [] f.name = "softsign" -> f.q + 2
    [] OTHER -> "4"
FSlope(f, r) ==
  CASE f.name \in {"identity", "abs"} -> "2"
    [] f.name \in {"sqrt", "log"} -> "4"
    [] f.name = "inv" -> "16"
    [] f.name = "exp"  -> RMul(RAbs(f.t), RExp(RMul(RAbs(f.t), r)))
    [] f.name = "poly" -> RSum([i \in 1..Len(f.c) |-> RMul(RMul(i, RAbs(f.c[i])), RPow(RMax("1", r), i - 1))])
    [] f.name = "smoothstep" -> IF f.a = f.b THEN "2" ELSE RDiv(2, RAbs(RSub(f.b, f.a)))
    [] f.name = "softsign" -> 2 * (f.q + 2)
    [] OTHER -> "16"
=============================================================================
