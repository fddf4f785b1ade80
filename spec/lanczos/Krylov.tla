------------------------------- MODULE Krylov -------------------------------
(***************************************************************************)
(* The Lanczos expansion of a symmetric matrix A at a start vector v, in   *)
(* exact arithmetic: the vectors p are left unnormalized (monic), so every *)
(* quantity is rational.  Entry j of an expansion carries the vector, its  *)
(* squared norm, the diagonal entry a and the squared coupling b to the    *)
(* next vector; b = 0 where the Krylov space is exhausted.                 *)
(***************************************************************************)
EXTENDS LinAlg

Entry(A, prev, cur, bs) ==
  LET Ac == MVec(A, cur)
      nn == VNormSq(cur)
      a  == RDiv(RDot(cur, Ac), nn)
      nx == VSub(VSub(Ac, VScale(a, cur)), VScale(bs, prev))
  IN TLCEval([p |-> cur, nn |-> nn, a |-> a, next |-> nx, b |-> RDiv(VNormSq(nx), nn)])

RECURSIVE ExpandR(_, _, _, _, _)
ExpandR(A, prev, cur, bs, k) ==
  LET e == Entry(A, prev, cur, bs)
  IN IF k = 1 \/ RSign(e.b) = 0 THEN <<e>> ELSE <<e>> \o ExpandR(A, cur, e.next, e.b, k - 1)
Expand(A, v, k) == ExpandR(A, VZero(Len(v)), v, "0", k)

Exhausted(E) == RSign(E[Len(E)].b) = 0

\* ---- the Jacobi matrix of an expansion, in the similar monic form
Monic(E) ==
  LET k == Len(E)
  IN TLCEval([i \in 1..k |-> [j \in 1..k |-> IF i = j THEN E[i].a ELSE IF i = j + 1 THEN "1" ELSE IF j = i + 1 THEN E[i].b ELSE "0"]])
Alphas(E) == TLCEval([i \in 1..Len(E) |-> E[i].a])
Betas(E)  == TLCEval([i \in 1..Len(E) |-> RSqrt(E[i].b)])
BetaSq(E) == TLCEval([i \in 1..Len(E) |-> E[i].b])

\* ---- polynomials, coefficients from the constant term on
RECURSIVE PApplyR(_, _, _, _)
PApplyR(c, A, v, i) == IF i = Len(c) THEN VScale(c[i], v) ELSE VAdd(VScale(c[i], v), MVec(A, PApplyR(c, A, v, i + 1)))
PApply(c, A, v) == IF c = << >> THEN VZero(Len(v)) ELSE PApplyR(c, A, v, 1)
RECURSIVE PEvalR(_, _, _)
PEvalR(c, x, i) == IF i = Len(c) THEN c[i] ELSE RAdd(c[i], RMul(x, PEvalR(c, x, i + 1)))
PEval(c, x) == IF c = << >> THEN "0" ELSE PEvalR(c, x, 1)

\* ---- what a degree-k expansion makes of f(A)v and v'f(A)v for a polynomial f
Combine(E, z) ==
  LET n == Len(E[1].p) IN TLCEval([i \in 1..n |-> RSum([j \in 1..Len(E) |-> RMul(z[j], E[j].p[i])])])
KrylovApply(E, c) == Combine(E, PApply(c, Monic(E), VUnit(Len(E), 1)))
KrylovQuad(E, c)  == RMul(E[1].nn, PApply(c, Monic(E), VUnit(Len(E), 1))[1])

\* ---- scales of rounding
NormF(A) == RSqrt(RSum([i \in 1..Len(A) |-> RDot(A[i], A[i])]))
(* the distance of A from the multiples of the identity, which the recurrence does not see *)
Spread(A) == LET n == Len(A)
                 m == RDiv(RSum([i \in 1..n |-> A[i][i]]), n)
             IN RSqrt(RSum([i \in 1..n |-> RSum([j \in 1..n |-> LET x == IF i = j THEN RSub(A[i][j], m) ELSE A[i][j] IN RMul(x, x)])]))
RECURSIVE AmpR(_, _, _)
AmpR(E, s2, j) == IF j = 0 THEN "1" ELSE RMul(RMax("1", IF RSign(E[j].b) = 0 THEN "1" ELSE RDiv(s2, E[j].b)), AmpR(E, s2, j - 1))
(* amplification of rounding in entry j of an expansion without re-orthogonalization *)
Amp(A, E, j) == LET f == NormF(A)
                    s == Spread(A)
                IN IF j <= 1 \/ RSign(s) = 0 THEN "1" ELSE RRound(RMul(RDiv(f, s), AmpR(E, RMul(s, s), j - 1)), 20)
=============================================================================
