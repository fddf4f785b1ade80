-------------------------------- MODULE MCIso --------------------------------
(* The sign distribution in full: every vector of N signs, all moments.     *)
EXTENDS Iso, SequencesExt

CONSTANTS N
VARIABLES x
W == [1..N -> {"1", "-1"}]
Init == x \in W
Next == FALSE /\ UNCHANGED x
All == SetToSeq(W)
Mean(f(_)) == RDiv(RSum([k \in 1..Len(All) |-> f(All[k])]), Len(All))
Column   == ColumnOk("rademacher", x, "0") /\ ColumnOk("sphere", x, "0")
Second   == \A i, j \in 1..N : LET f(w) == RMul(w[i], w[j]) IN Mean(f) = IF i = j THEN "1" ELSE "0"
Fourths  == \A i, j \in 1..N : LET f(w) == RMul(RPow(w[i], 2), RPow(w[j], 2)) IN Mean(f) = IF i = j THEN Fourth("rademacher", N) ELSE Cross("rademacher", N)
(* fixed norm is what makes the fourth moments of the sphere add up: (sum w_i^2)^2 = n^2 *)
SphereSum == RAdd(RMul(N, Fourth("sphere", N)), RMul(N * (N - 1), Cross("sphere", N))) = RNum(N * N)
Synonyms  == {Canon(n) : n \in Names} = {"rademacher", "normal", "sphere"} /\ \A n \in Names : Canon(Canon(n)) = Canon(n)
=============================================================================
