------------------------------ MODULE MCSketch ------------------------------
(* For every small (symmetric) matrix and every choice of sign vectors: what  *)
(* the deflated estimators promise follows from their definitions.          *)
EXTENDS Sketch, TLC, FiniteSetsExt, SequencesExt
CONSTANTS N, Vals, DEEP, SYM

VARIABLES A, phase
vars == <<A, phase>>

Idx == {<<i, j>> \in (1..N) \X (1..N) : ~SYM \/ i <= j}
Init == /\ \E m \in [Idx -> Vals] : A = [i \in 1..N |-> [j \in 1..N |-> m[IF ~SYM \/ i <= j THEN <<i, j>> ELSE <<j, i>>]]]
        /\ phase = "pick"
Next == phase = "pick" /\ phase' = "done" /\ UNCHANGED A
Signs == [1..N -> {"1", "-1"}]
SignSeq == SetToSeq(Signs)
NS == Len(SignSeq)
Mean(F(_)) == RDiv(RSum([i \in 1..NS |-> F(SignSeq[i])]), NS)
MeanVec(F(_)) == VScale(RDiv(1, NS), SumRows([i \in 1..NS |-> F(SignSeq[i])]))
OffSq == RSum([i \in 1..N |-> RSum([j \in 1..N |-> IF i = j THEN "0" ELSE LET x == RAdd(A[i][j], A[j][i]) IN RMul("1/4", RMul(x, x))])])

\* ---- over the complete space of sign vectors
TraceUnbiased == Mean(LAMBDA v : Sample(A, v)) = MTrace(A)
TraceVariance == Mean(LAMBDA v : LET d == RSub(Sample(A, v), MTrace(A)) IN RMul(d, d)) = RMul(2, OffSq)
DiagUnbiased  == MeanVec(LAMBDA v : DiagRow(A, <<v>>)) = MDiag(A)
(* conditional on every sketch of full rank, over all residual vectors *)
Sketches == IF DEEP THEN {<<v>> : v \in Signs} \cup {<<v, w>> : v, w \in Signs} ELSE {<<v>> : v \in Signs}
HutchppUnbiased ==
  \A W \in Sketches : LET P == ProjOf(A, W) IN
    P # NoMat => /\ Mean(LAMBDA g : HutchppEst(A, P, <<g>>)) = MTrace(A)
                 /\ MMul(P, P) = P /\ IsSym(P)
                 /\ Captures(A, P) => \A g \in Signs : HutchppEst(A, P, <<g>>) = MTrace(A)
(* a leave-one-out term is unbiased given the other vectors *)
LooUnbiased ==
  \A w \in Signs : LET P == ProjOf(A, <<w>>) IN
    P # NoMat => /\ Mean(LAMBDA v : XtTerm(A, <<w, v>>, P, 2, FALSE)) = MTrace(A)
                 /\ MeanVec(LAMBDA v : XdTerm(A, <<w, v>>, P, 2)) = MDiag(A)
(* with as many vectors as dimensions the normalized terms are the trace *)
Bases == IF N = 2 THEN {<<v, w>> : v, w \in Signs} ELSE {<< <<"1", "1", "1">>, <<"1", "-1", "1">>, w>> : w \in Signs}
FullBudget ==
  \A W \in Bases : ~Singular(Images(A, W)) =>
    \A i \in 1..N : LET P == ProjOf(A, Without(W, i)) IN
      RSign(VNormSq(Off(P, W[i]))) # 0 => XtTerm(A, W, P, i, TRUE) = MTrace(A)
=============================================================================
