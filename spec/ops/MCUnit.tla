------------------------------- MODULE MCUnit -------------------------------
(* Every small spectrum, in every basis made of reflections and rotations.  *)
EXTENDS Unit

CONSTANTS N, Spectrum
VARIABLES D, U
Rot(i, j) == [k \in 1..N |-> [l \in 1..N |-> IF (k = i /\ l = i) \/ (k = j /\ l = j) THEN "3/5" ELSE IF k = i /\ l = j THEN "4/5" ELSE IF k = j /\ l = i THEN "-4/5" ELSE IF k = l THEN "1" ELSE "0"]]
Bases == {MId(N)} \cup {Rot(i, j) : i \in 1..(N - 1), j \in {N}} \cup (IF N = 3 THEN {MMul(Rot(1, 2), Rot(2, 3)), MMul(Rot(1, 3), Rot(1, 2))} ELSE {})
Init == D \in {d \in [1..N -> Spectrum] : UniqueDom(d)} /\ U \in Bases
Next == FALSE /\ UNCHANGED <<D, U>>

A == MMul(MMul(U, [i \in 1..N |-> VScale(D[i], VUnit(N, i))]), MT(U))
a == Dominant(D)
B == UnitMat(A, a)
EigenKept == \A i \in 1..N : MVec(B, Col(U, i)) = VScale(UnitMap(a, D[i]), Col(U, i))
Bounded   == \A i \in 1..N : RLe("0", UnitMap(a, D[i])) /\ RLe(UnitMap(a, D[i]), "1")
DomToOne  == UnitMap(a, a) = "1"
Sym       == IsSym(B)
Applies   == \A i \in 1..N : UnitApply(A, a, VUnit(N, i)) = Col(B, i)
(* for either sign of the dominant eigenvalue the order along a is kept *)
Order     == \A i, j \in 1..N : RLt(RDiv(D[i], a), RDiv(D[j], a)) => RLt(UnitMap(a, D[i]), UnitMap(a, D[j]))
=============================================================================
