-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  A number is a string "n" or "n/d" in lowest *)
(* terms (so = is numeric equality), or "nan" / "inf" / "-inf".  The       *)
(* operators are evaluated by Rat.java (module override); an operand may   *)
(* also be a TLA+ integer.  The definitions below only fix the arities:    *)
(* a run without the override stops at the first use.                      *)
(***************************************************************************)
RNum(a)        == CHOOSE x \in {} : TRUE   \* canonical form
RAdd(a, b)     == CHOOSE x \in {} : TRUE
RSub(a, b)     == CHOOSE x \in {} : TRUE
RMul(a, b)     == CHOOSE x \in {} : TRUE
RDiv(a, b)     == CHOOSE x \in {} : TRUE   \* x/0 = inf, -inf or nan
RNeg(a)        == CHOOSE x \in {} : TRUE
RAbs(a)        == CHOOSE x \in {} : TRUE
RLt(a, b)      == CHOOSE x \in {} : TRUE   \* FALSE when either is nan
RLe(a, b)      == CHOOSE x \in {} : TRUE
REq(a, b)      == CHOOSE x \in {} : TRUE
RSign(a)       == CHOOSE x \in {} : TRUE   \* an integer: -1, 0, 1
RFinite(a)     == CHOOSE x \in {} : TRUE
RIsNum(a)      == CHOOSE x \in {} : TRUE
RFloor(a)      == CHOOSE x \in {} : TRUE
RToInt(a)      == CHOOSE x \in {} : TRUE   \* a TLA+ integer
RPow(a, k)     == CHOOSE x \in {} : TRUE   \* k a TLA+ integer
RSum(s)        == CHOOSE x \in {} : TRUE   \* sum of a sequence
RCumSum(s)     == CHOOSE x \in {} : TRUE   \* partial sums of a sequence
RMaxAbs(s)     == CHOOSE x \in {} : TRUE   \* largest magnitude in a sequence, "0" when empty
RMaxOf(s)      == CHOOSE x \in {} : TRUE   \* largest member of a non-empty sequence
RMinOf(s)      == CHOOSE x \in {} : TRUE
RDot(s, t)     == CHOOSE x \in {} : TRUE   \* inner product of two sequences
RNear(a, b, t) == CHOOSE x \in {} : TRUE   \* |a - b| <= t
RRound(a, k)   == CHOOSE x \in {} : TRUE   \* to k significant bits
RSqrt(a)       == CHOOSE x \in {} : TRUE   \* within 2^-200 relative
RExp(a)        == CHOOSE x \in {} : TRUE   \* within 2^-150 relative
RJacobi(d, b, k) == CHOOSE x \in {} : TRUE  \* eigenvalues of a Jacobi matrix (diagonal, squared off-diagonal) within 2^-k
RLevel(lev)      == CHOOSE x \in {} : TRUE  \* the double nearest to a decimal string
RTQuant(lev, df) == CHOOSE x \in {} : TRUE  \* two-sided quantile of Student's t; lev is a decimal string
RNQuant(lev)   == CHOOSE x \in {} : TRUE   \* the same for the normal distribution
RLog(a)        == CHOOSE x \in {} : TRUE
=============================================================================
