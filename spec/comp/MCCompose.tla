----------------------------- MODULE MCCompose ------------------------------
(* Every small operator term, two levels deep: applying it is multiplying   *)
(* by the matrix it denotes, and the stochastic Lanczos quadrature built on *)
(* it averages to the trace of the function.                                *)
EXTENDS Compose, SequencesExt

CONSTANTS N, Vals, Coeffs, DEEP
FewCoeffs == {<<"1", "-2">>, <<"1/2", "0", "2">>, <<"0", "0", "0", "1">>}
MoreCoeffs == FewCoeffs \cup {<<"3">>, <<"-1", "1", "0", "1/3">>, <<"2", "0", "-1", "0", "1", "1/2">>}
VARIABLES t, v, phase
vars == <<t, v, phase>>

Pairs == {<<i, j>> \in (1..N) \X (1..N) : i <= j}
SymOf(g) == [i \in 1..N |-> [j \in 1..N |-> IF i <= j THEN g[<<i, j>>] ELSE g[<<j, i>>]]]
Base  == {[k |-> "matrix", A |-> SymOf(g)] : g \in [Pairs -> Vals]} \cup {[k |-> "toeplitz", c |-> c, r |-> c] : c \in [1..N -> Vals]}
Polys == {[name |-> "poly", c |-> c] : c \in Coeffs}
Over(S) == {[k |-> "fun", of |-> b, f |-> f, deg |-> d] : b \in S, f \in Polys, d \in (IF DEEP THEN 1..N ELSE {N})}
           \cup {[k |-> "unit", of |-> b, a |-> a] : b \in S, a \in {"-2", "3"}}
           \cup {[k |-> "scaled", of |-> b, s |-> "-1/2"] : b \in S}
Pair(S) == {[k |-> o, x |-> x, y |-> y] : o \in {"sum", "times"}, x \in S, y \in {[k |-> "toeplitz", c |-> [i \in 1..N |-> IF i = 2 THEN "1" ELSE "0"], r |-> [i \in 1..N |-> IF i = 2 THEN "1" ELSE "0"]]}}

Few == {b \in Base : b.k = "toeplitz"}
Full(x) == x.k # "fun" \/ x.deg = N
Terms == Over(Base) \cup Pair(Base) \cup Over({x \in Over(Few) : Full(x)}) \cup Pair({x \in Over(Few) : Full(x)})
Starts == {[i \in 1..N |-> "1"], [i \in 1..N |-> IF i = 1 THEN "1" ELSE "0"], [i \in 1..N |-> IF i = 1 THEN "-2" ELSE "1"], [i \in 1..N |-> "0"]}
Init == t \in Terms /\ v \in Starts /\ phase = "pick"
Next == phase = "pick" /\ phase' = "done" /\ UNCHANGED <<t, v>>

Go == phase = "done"
Faithful == Go /\ Full(t) => Product(t, v) = MVec(Denote(t), v)
(* below full degree the polynomials of lower degree are still applied exactly, quadratic forms up to twice that *)
Lower    == Go /\ t.k = "fun" =>
              /\ (Len(t.f.c) <= t.deg => Product(t, v) = MVec(Denote(t), v))
              /\ (Len(t.f.c) <= 2 * t.deg /\ RSign(VNormSq(v)) = 1 => Quad(t, v) = QuadForm(v, Denote(t)))
Symmetric == Go /\ t.k # "times" => IsSym(Denote(t))
Signs == SetToSeq([1..N -> {"1", "-1"}])
SlqUnbiased == Go /\ t.k = "fun" /\ Len(t.f.c) <= 2 * t.deg =>
                 RDiv(RSum([i \in 1..Len(Signs) |-> Quad(t, Signs[i])]), Len(Signs)) = MTrace(Denote(t))
Norms    == Go /\ Full(t) => RLe(VNorm(Product(t, v)), RAdd("1/1000000000", RMul(Magn(t), VNorm(v))))
(* a function of a function is the composed function *)
Nested   == Go /\ t.k = "fun" /\ t.of.k = "fun" => Denote(t) = MPoly(t.f.c, MPoly(t.of.f.c, Denote(t.of.of)))
=============================================================================
