------------------------------- MODULE MatFun -------------------------------
(***************************************************************************)
(* Functions of symmetric matrices through Krylov expansions.  Ritz values *)
(* are found by bisection on exact pivot counts, to 2^-130; a function   *)
(* of the Jacobi matrix is its interpolating polynomial there.             *)
(***************************************************************************)
EXTENDS SpectralFun, Krylov, Sturm, SequencesExt

(* the eigenvalues, ascending, of a Jacobi matrix *)
Ritz(d, b2) == RJacobi(d, SubSeq(b2, 1, Len(d) - 1), 130)

(* divided differences of the values y at the points w, in the order given *)
RECURSIVE DivDiff(_, _)
DivDiff(w, y) ==
  LET k == Len(y)
      o == Len(w) - k + 1           \* y holds differences of order o - 1
  IN IF k = 1 THEN <<y[1]>>
     ELSE <<y[1]>> \o DivDiff(w, TLCEval([i \in 1..(k - 1) |-> RRound(RDiv(RSub(y[i + 1], y[i]), RSub(w[i + o], w[i])), 260)]))
(* sum of c[i] (M - w[1]) .. (M - w[i-1]) e1 *)
RECURSIVE NewtonSum(_, _, _, _, _)
NewtonSum(c, w, M, x, i) ==
  IF i > Len(c) THEN VZero(Len(x))
  ELSE VAdd(VScale(c[i], x), NewtonSum(c, w, M, LET y == VSub(MVec(M, x), VScale(w[i], x)) IN TLCEval([r \in 1..Len(x) |-> RRound(y[r], 260)]), i + 1))

(* f of the Jacobi matrix of E, applied to the first unit vector, in the monic basis *)
FunCol(f, E, w) ==
  IF f.name = "poly" THEN PApply(f.c, Monic(E), VUnit(Len(E), 1))
  ELSE NewtonSum(TLCEval(DivDiff(w, TLCEval([i \in 1..Len(w) |-> F(f, w[i])]))), w, Monic(E), VUnit(Len(E), 1), 1)
FunApply(f, E, w) == Combine(E, FunCol(f, E, w))
FunQuad(f, E, w)  == RMul(E[1].nn, FunCol(f, E, w)[1])

(* f(A) v by the spectral decomposition A U = U D, the columns of U orthogonal *)
Decomposes(A, U, D) == /\ MMul(A, U) = [i \in 1..Len(A) |-> VMulE(U[i], D)]
                       /\ \A i, j \in 1..Len(D) : i < j => RSign(RDot(Col(U, i), Col(U, j))) = 0
SpecApply(f, U, D, v) ==
  LET co == TLCEval([j \in 1..Len(D) |-> LET u == Col(U, j) IN RMul(F(f, D[j]), RDiv(RDot(u, v), VNormSq(u)))])
  IN MVec(U, co)
=============================================================================
