------------------------------- MODULE Jacobi -------------------------------
(***************************************************************************)
(* Symmetric tridiagonal (Jacobi) matrices: d the diagonal, b the off-     *)
(* diagonal; their orthogonal polynomials, Gauss rules, and plane          *)
(* rotations.                                                              *)
(***************************************************************************)
EXTENDS Sturm

Sq(b) == TLCEval([i \in 1..Len(b) |-> RMul(b[i], b[i])])
TriMat(d, b) == LET k == Len(d) IN TLCEval([i \in 1..k |-> [j \in 1..k |-> IF i = j THEN d[i] ELSE IF i = j + 1 THEN b[j] ELSE IF j = i + 1 THEN b[i] ELSE "0"]])
TriNorm(d, b) == RSqrt(RAdd(RDot(d, d), RMul(2, IF b = << >> THEN "0" ELSE RDot(b, b))))
TriApply(d, b, x) ==
  TLCEval([i \in 1..Len(d) |-> RAdd(RMul(d[i], x[i]), RAdd(IF i = 1 THEN "0" ELSE RMul(b[i - 1], x[i - 1]), IF i = Len(d) THEN "0" ELSE RMul(b[i], x[i + 1])))])
(* (T^i)_{11}, for i = 0 .. m *)
RECURSIVE MomR(_, _, _, _)
MomR(d, b, x, m) == IF m < 0 THEN << >> ELSE <<x[1]>> \o MomR(d, b, TriApply(d, b, x), m - 1)
Moments(d, b, m) == TLCEval(MomR(d, b, VUnit(Len(d), 1), m))
Lead(d, k)  == SubSeq(d, 1, k)
LeadB(b, k) == SubSeq(b, 1, k - 1)

(* monic orthogonal polynomials p_0 .. p_{k-1} at x, and their squared norms b1^2 ... bj^2 *)
RECURSIVE PolsR(_, _, _, _, _, _)
PolsR(d, b2, x, p, pm, i) ==
  IF i > Len(d) THEN << >>
  ELSE LET q == RSub(RMul(RSub(x, d[i]), p), IF i = 1 THEN "0" ELSE RMul(b2[i - 1], pm))
       IN <<p>> \o PolsR(d, b2, x, TLCEval(q), p, i + 1)
Pols(d, b2, x) == TLCEval(PolsR(d, b2, x, "1", "0", 1))
RECURSIVE ProdTo(_, _)
ProdTo(b2, j) == IF j = 0 THEN "1" ELSE RMul(b2[j], ProdTo(b2, j - 1))
(* Christoffel number at a node *)
Weight(d, b2, x) == LET p == Pols(d, b2, x) IN RDiv("1", RSum([j \in 1..Len(d) |-> RDiv(RMul(p[j], p[j]), ProdTo(b2, j - 1))]))
=============================================================================
