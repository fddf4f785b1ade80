------------------------------ MODULE MCMatFun ------------------------------
(* Functional calculus on small matrices: what the operator f(A) built from *)
(* Krylov expansions must satisfy, for every matrix, vector and function of *)
(* the configuration.                                                       *)
EXTENDS MatFun, TLC

CONSTANTS N, Vals, Starts
VARIABLES A, v, f

Polys == {[name |-> "poly", c |-> c] : c \in {<<"3">>, <<"0", "1">>, <<"1", "-2">>, <<"1/2", "0", "2">>, <<"0", "0", "0", "1">>, <<"-1", "1", "0", "1/3", "1">>}}
Funs == Polys \cup {[name |-> "identity"], [name |-> "abs"], [name |-> "exp", t |-> "1/2"], [name |-> "exp", t |-> "0"],
                    [name |-> "smoothstep", a |-> "-1", b |-> "2"], [name |-> "softsign", q |-> 2]}
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i <= j}
SymOf(g) == [i \in 1..N |-> [j \in 1..N |-> IF i <= j THEN g[<<i, j>>] ELSE g[<<j, i>>]]]
Init == /\ A \in {SymOf(g) : g \in [Pairs -> Vals]}
        /\ v \in {w \in [1..N -> Starts] : \E i \in 1..N : w[i] # "0"}
        /\ f \in Funs
Next == FALSE /\ UNCHANGED <<A, v, f>>

E(k) == Expand(A, v, k)
W(e) == Ritz(Alphas(e), BetaSq(e))
TINY == "1/1000000000000000000000000"
Ap(k) == LET e == E(k) IN FunApply(f, e, W(e))
Qu(k) == LET e == E(k) IN FunQuad(f, e, W(e))

RitzOk    == \A k \in 1..N : LET e == E(k) IN EigVals(W(e), Alphas(e), BetaSq(e), TINY)
(* the quadratic form is that of the application *)
QuadOk    == \A k \in 1..N : RNear(RDot(v, Ap(k)), Qu(k), TINY)
PolyExact == f.name = "poly" => /\ Len(f.c) <= N => Ap(Len(f.c)) = PApply(f.c, A, v)
                                /\ \A k \in 1..N : Len(f.c) <= 2 * k => Qu(k) = RDot(v, PApply(f.c, A, v))
                                /\ Ap(N) = PApply(f.c, A, v)
(* interpolation at the Ritz values agrees with the polynomial *)
Interp    == f.name = "poly" => \A k \in 1..N : LET e == E(k) w == W(e)
               IN VNear(NewtonSum(DivDiff(w, [i \in 1..Len(w) |-> F(f, w[i])]), w, Monic(e), VUnit(Len(e), 1), 1), FunCol(f, e, w), TINY)
(* at full degree f(A) is linear and symmetric, commutes with A, and |A|^2 = A^2, exp(A/2) is positive *)
u == [i \in 1..N |-> IF i = 1 THEN "1" ELSE "2"]
Full(x) == LET e == Expand(A, x, N) IN FunApply(f, e, Ritz(Alphas(e), BetaSq(e)))
Linear    == LET s == VAdd(v, u) IN RSign(VNormSq(s)) = 1 => VNear(Full(s), VAdd(Full(v), Full(u)), TINY)
Symmetric == RNear(RDot(u, Full(v)), RDot(Full(u), v), TINY)
Commutes  == LET x == MVec(A, v) IN RSign(VNormSq(x)) = 1 => VNear(Full(x), MVec(A, Full(v)), TINY)
AbsSq     == f.name = "abs" => LET x == Full(v) IN RSign(VNormSq(x)) = 1 => VNear(Full(x), MVec(A, MVec(A, v)), TINY)
ExpPos    == f.name = "exp" => RSign(Qu(N)) = 1 /\ (f.t = "0" => VNear(Full(v), v, TINY))
Bounded   == f.name \in {"smoothstep", "softsign"} => RLe(RAbs(Qu(N)), RAdd(TINY, VNormSq(v)))
=============================================================================
