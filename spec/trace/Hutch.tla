-------------------------------- MODULE Hutch --------------------------------
(***************************************************************************)
(* The Monte-Carlo loops: hutch (trace) and diag.  One estimation is a     *)
(* sequence of draws, each of a batch of vectors, while the criterion does *)
(* not hold of the estimator; each vector v contributes the sample v'Av    *)
(* (hutch), respectively the running Hadamard ratio (diag).                *)
(***************************************************************************)
EXTENDS Criteria

AbsV(v)  == [i \in 1..Len(v) |-> RAbs(v[i])]
AbsM(A)  == [i \in 1..Len(A) |-> AbsV(A[i])]
Sample(A, v) == QuadForm(v, A)
(* magnitude of the terms a computed sample is summed from *)
SampleBound(A, v) == RMul(Len(v), QuadForm(AbsV(v), AbsM(A)))
RECURSIVE MaxOver(_, _, _)
MaxOver(F(_), S, i) == IF i = 0 THEN "0" ELSE RMax(F(S[i]), MaxOver(F, S, i - 1))

WithBound(o, b) == [o EXCEPT !.acc.m = RMax(o.acc.m, b)]

\* ---- hutch: one batch of vectors vs
HutchStep(o, A, vs) ==
  WithBound(Updated(o, [i \in 1..Len(vs) |-> <<Sample(A, vs[i])>>]), MaxOver(LAMBDA v : SampleBound(A, v), vs, Len(vs)))

\* ---- diag: one vector
DiagRow(A, W) ==
  LET n == Len(A)
      num == [i \in 1..n |-> RSum([k \in 1..Len(W) |-> RMul(W[k][i], RDot(A[i], W[k]))])]
      den == [i \in 1..n |-> RSum([k \in 1..Len(W) |-> RMul(W[k][i], W[k][i])])]
  IN VDivE(num, den)
DiagBound(A, W) == RMul(Len(A) + Len(W), VMaxAbs(DiagRow(AbsM(A), [k \in 1..Len(W) |-> AbsV(W[k])])))
DiagStep(o, A, W) == WithBound(Updated(o, <<DiagRow(A, W)>>), DiagBound(A, W))
=============================================================================
