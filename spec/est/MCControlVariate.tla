-------------------------- MODULE MCControlVariate --------------------------
EXTENDS ControlVariate, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Vals, P, Alphas, Ecvs, MaxRows, MaxOps, MaxBatch, EMIT
VARIABLES o, rows, hist
vars == <<o, rows, hist>>
View == <<o, rows, Len(hist)>>

Init == /\ \E a \in Alphas, e \in Ecvs : o = NewCV(e, a, TRUE)
        /\ rows = << >> /\ hist = << >>
Batches == UNION {[1..b -> [1..(P + 1) -> Vals]] : b \in 1..MaxBatch}
Update(B) == /\ Len(hist) < MaxOps /\ Len(rows) + Len(B) <= MaxRows 
             /\ o' = CVUpdated(o, B) /\ rows' = rows \o B
             /\ hist' = Append(hist, [op |-> "update", rows |-> B])
Next == \E B \in Batches : Update(B)
Spec == Init /\ [][Next]_vars

\* the estimate computed incrementally is the definition over the whole history
WholeMean(j) == RDiv(RSum([i \in 1..Len(rows) |-> rows[i][j]]), Len(rows))
Definition ==
  LET n == Len(rows)
      m == [j \in 1..(P + 1) |-> WholeMean(j)]
      C(j, k) == RSum([i \in 1..n |-> RMul(RSub(rows[i][j], m[j]), RSub(rows[i][k], m[k]))])
      A == IF o.alpha # << >> THEN o.alpha
           ELSE IF n <= P THEN << >>
           ELSE LET X == MSolve([i \in 1..P |-> [k \in 1..P |-> C(i + 1, k + 1)]], [i \in 1..P |-> <<C(i + 1, 1)>>])
                IN [i \in 1..P |-> X[i][1]]
  IN (n > 0 /\ Known(o)) => EstOf(o) = IF A = << >> THEN m[1] ELSE RSub(m[1], RDot(A, [i \in 1..P |-> RSub(m[i + 1], o.ecv[i])]))
\* from as many samples on as it takes, nothing but collinear controls leaves the estimate open
KnownWhenRegular == (Len(rows) <= P \/ Regular(o.acc.S, P)) => Known(o)
Recorded == o.vals = rows
(* samples that are an affine function of the controls are estimated without error *)
Exact ==
  \A c0 \in Vals : \A k \in 1..P :
    (Len(rows) > P /\ o.alpha = << >> /\ Regular(o.acc.S, P)
      /\ \A i \in 1..Len(rows) : rows[i][1] = RAdd(c0, RMul("2", rows[i][k + 1])))
    => EstOf(o) = RAdd(c0, RMul("2", o.ecv[k]))
Emit == (EMIT /\ Len(hist) = MaxOps) => PrintT("@HIST " \o ToJson([ecv |-> o.ecv, alpha |-> o.alpha, ops |-> hist]))
=============================================================================
