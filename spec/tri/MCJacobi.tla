------------------------------ MODULE MCJacobi ------------------------------
(* Every small Jacobi matrix: counting, spectra and Gauss rules.            *)
EXTENDS Jacobi

CONSTANTS N, Diag, Off
VARIABLES d, b
Init == d \in [1..N -> Diag] /\ b \in [1..(N - 1) -> Off]
Next == FALSE /\ UNCHANGED <<d, b>>

TINY == "1/100000000000000000000"
B2 == Sq(b)
W  == RJacobi(d, B2, 130)
T  == TriMat(d, b)
Splits == \E i \in 1..(N - 1) : RSign(b[i]) = 0
Counts    == EigVals(W, d, B2, TINY)
PowerSums == \A i \in 1..N : RNear(RSum([j \in 1..N |-> RPow(W[j], i)]), MTrace(MPow(T, i)), TINY)
(* the sign of an off-diagonal entry does not matter, nor does reversal *)
Reversal  == LET r == [i \in 1..N |-> d[N + 1 - i]]
                 s == [i \in 1..(N - 1) |-> B2[N - i]]
             IN VNear(RJacobi(r, s, 130), W, TINY)
(* a split matrix has the union of the spectra *)
Union     == \A m \in 1..(N - 1) : RSign(b[m]) = 0 =>
               SortSeq(W, LAMBDA x, y : RLt(x, y)) # << >> /\
               VNear(SortSeq(RJacobi(Lead(d, m), LeadB(B2, m), 130) \o RJacobi(SubSeq(d, m + 1, N), SubSeq(B2, m + 1, N - 1), 130), LAMBDA x, y : RLt(x, y)), W, TINY)
Interlace == \A i \in 1..(N - 1) : LET V == RJacobi(Lead(d, N - 1), LeadB(B2, N - 1), 130)
                                   IN RLe(RSub(W[i], TINY), V[i]) /\ RLe(V[i], RAdd(W[i + 1], TINY))
Simple    == ~Splits => \A i \in 1..(N - 1) : RLt(W[i], W[i + 1])
(* Gauss rules of every degree *)
Rule(k)   == LET w == RJacobi(Lead(d, k), LeadB(B2, k), 130) IN [x |-> w, w |-> TLCEval([i \in 1..k |-> RRound(Weight(Lead(d, k), LeadB(B2, k), w[i]), 200)])]
Integral(r, i) == RSum([j \in 1..Len(r.x) |-> RMul(r.w[j], RPow(r.x[j], i))])
Positive  == ~Splits => \A k \in 1..N : LET r == TLCEval(Rule(k)) IN (\A i \in 1..k : RSign(r.w[i]) = 1) /\ RNear(RSum(r.w), "1", TINY)
Exact     == ~Splits => \A k \in 1..N : LET r == TLCEval(Rule(k)) m == Moments(d, b, 2 * k - 1) IN \A i \in 0..(2 * k - 1) : RNear(Integral(r, i), m[i + 1], TINY)
(* and not beyond: the next moment is missed by the product of the squared couplings *)
Defect    == ~Splits => \A k \in 1..(N - 1) : LET r == TLCEval(Rule(k)) IN RNear(RSub(Moments(d, b, 2 * k)[2 * k + 1], Integral(r, 2 * k)), ProdTo(B2, k), TINY)
=============================================================================
