------------------------------ MODULE MCKrylov ------------------------------
(***************************************************************************)
(* The Lanczos process, one step at a time, on every symmetric matrix with *)
(* entries in Vals and every start vector with entries in Starts.          *)
(***************************************************************************)
EXTENDS Krylov, Sturm

CONSTANTS N, Vals, Starts, DEEP
VARIABLES A, v, E, done

Sym == {M \in [1..N -> [1..N -> Vals]] : \A i \in 1..N : \A j \in 1..N : M[i][j] = M[j][i]}
SymOf(f) == [i \in 1..N |-> [j \in 1..N |-> IF i <= j THEN f[<<i, j>>] ELSE f[<<j, i>>]]]
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i <= j}
Init == /\ A \in {SymOf(f) : f \in [Pairs -> Vals]}
        /\ v \in {w \in [1..N -> Starts] : \E i \in 1..N : w[i] # "0"}
        /\ E = << >> /\ done = FALSE
Start == E = << >> /\ E' = <<Entry(A, VZero(N), v, "0")>>
Step  == /\ E # << >> /\ ~Exhausted(E)
         /\ E' = Append(E, Entry(A, E[Len(E)].p, E[Len(E)].next, E[Len(E)].b))
Next  == /\ ~done
         /\ (Start \/ Step \/ (E # << >> /\ Exhausted(E) /\ UNCHANGED E))
         /\ done' = (E # << >> /\ Exhausted(E))
         /\ UNCHANGED <<A, v>>
Spec == Init /\ [][Next]_<<A, v, E, done>>
SpecF == Spec /\ WF_<<A, v, E, done>>(Next)

k == Len(E)
X(i) == [j \in 1..(i + 1) |-> IF j = i + 1 THEN "1" ELSE "0"]       \* the polynomial x^i
Orthogonal   == \A i \in 1..k : \A j \in 1..(i - 1) : RSign(RDot(E[i].p, E[j].p)) = 0
PosCoupling  == \A i \in 1..(k - 1) : RSign(E[i].b) = 1
Recurrence   == \A i \in 1..k : VSub(VSub(MVec(A, E[i].p), VScale(E[i].a, E[i].p)), IF i = 1 THEN VZero(N) ELSE VScale(E[i - 1].b, E[i - 1].p))
                               = (IF i < k THEN E[i + 1].p ELSE E[i].next)
Moments      == k > 0 => \A i \in 0..(2 * k - 1) : KrylovQuad(E, X(i)) = RDot(v, PApply(X(i), A, v))
LowDegree    == k > 0 => \A i \in 0..(k - 1) : KrylovApply(E, X(i)) = PApply(X(i), A, v)
AtMostN      == k <= N
(* an exhausted expansion represents every function of A at v: every power, hence every polynomial *)
Complete     == (k > 0 /\ Exhausted(E)) => \A i \in 0..(N + 1) : KrylovApply(E, X(i)) = PApply(X(i), A, v)
(* nested: the expansion of smaller degree is a prefix *)
Prefix       == k > 0 => Expand(A, v, k) = E
(* the eigenvalues of successive Jacobi matrices interlace (checked at a grid of points), none is lost or doubled *)
Grid == {"-7/2", "-2", "-1", "-1/2", "0", "1/3", "1", "2", "5/2", "4"}
Interlace    == k > 1 => \A x \in Grid :
                  LET c1 == StCount(Alphas(E), BetaSq(E), x)
                      c0 == StCount(SubSeq(Alphas(E), 1, k - 1), SubSeq(BetaSq(E), 1, k - 1), x)
                  IN c0 <= c1 /\ c1 <= c0 + 1
(* shifting and scaling the matrix shifts and scales the Jacobi matrix *)
Covariant    == (DEEP /\ k > 0) =>
                  LET B == MAdd(MScale("-3/2", A), MScale("2", MId(N)))
                      F == Expand(B, v, k)
                  IN /\ Alphas(F) = [i \in 1..k |-> RAdd("2", RMul("-3/2", E[i].a))]
                     /\ BetaSq(F) = [i \in 1..k |-> RMul("9/4", E[i].b)]
Terminates == <>done
=============================================================================
