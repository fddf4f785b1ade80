-------------------------------- MODULE Unit --------------------------------
(* The affine image (A + aI)/(2a), a the eigenvalue of largest magnitude.   *)
EXTENDS LinAlg

RECURSIVE DomR(_, _, _)
DomR(D, i, best) == IF i > Len(D) THEN best ELSE DomR(D, i + 1, IF RLt(RAbs(best), RAbs(D[i])) THEN D[i] ELSE best)
Dominant(D) == DomR(D, 2, D[1])
UniqueDom(D) == LET a == Dominant(D) IN RSign(a) # 0 /\ Cardinality({i \in DOMAIN D : RAbs(D[i]) = RAbs(a)}) >= 1
                                       /\ \A i \in DOMAIN D : RAbs(D[i]) = RAbs(a) => D[i] = a
UnitApply(A, a, x) == VScale(RDiv("1", RMul(2, a)), VAdd(MVec(A, x), VScale(a, x)))
UnitMat(A, a) == MScale(RDiv("1", RMul(2, a)), MAdd(A, MScale(a, MId(Rows(A)))))
UnitMap(a, t) == RDiv(RAdd(t, a), RMul(2, a))
=============================================================================
