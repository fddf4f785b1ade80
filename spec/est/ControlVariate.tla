--------------------------- MODULE ControlVariate ---------------------------
(* Control-variate estimators: a joint running covariance of (sample,       *)
(* controls), and the regression-adjusted mean computed from it.            *)
EXTENDS Estimator

NewCV(ecv, alpha, rec) ==      \* alpha = << >> when the coefficients are to be estimated
  [acc |-> AccEmpty(Len(ecv) + 1), ecv |-> ecv, alpha |-> alpha, p |-> Len(ecv), cur |-> alpha, prev |-> "nan", rec |-> rec, vals |-> << >>]

Scatter11(S, p) == [i \in 1..p |-> [j \in 1..p |-> S[i + 1][j + 1]]]
Scatter01(S, p) == [i \in 1..p |-> S[i + 1][1]]
Regular(S, p) == MInv(Scatter11(S, p)) # << >>
Coef(S, p) == LET M == MSolve(Scatter11(S, p), [i \in 1..p |-> <<Scatter01(S, p)[i]>>]) IN [i \in 1..p |-> M[i][1]]

(* coefficients in use after the last update; << >> : none, the plain mean *)
CurCoef(o) == IF o.alpha # << >> THEN o.alpha ELSE o.cur
EstOf(o) ==
  IF CurCoef(o) = << >> THEN o.acc.mu[1]
  ELSE RSub(o.acc.mu[1], RDot(CurCoef(o), [i \in 1..o.p |-> RSub(o.acc.mu[i + 1], o.ecv[i])]))

(* while there are no more samples than controls, the plain mean; after that the least-squares coefficients as soon as   *)
(* the control covariance is invertible.  With more samples and collinear controls the coefficients are open.            *)
Open == <<"open">>
Known(o) == CurCoef(o) # Open
CVUpdated(o, B) ==
  LET a == AccMerge(o.acc, B)
      c == IF o.alpha # << >> \/ a.n <= o.p THEN o.cur ELSE IF Regular(a.S, o.p) THEN Coef(a.S, o.p) ELSE Open
  IN [o EXCEPT !.acc = a, !.cur = c, !.prev = IF o.acc.n = 0 THEN "0" ELSE IF Known(o) THEN EstOf(o) ELSE "nan", !.vals = IF o.rec THEN o.vals \o B ELSE << >>]
Delta(o) == RSub(EstOf(o), o.prev)

(* rounding allowance: coefficients move with the condition of the control scatter *)
CondOf(o) == LET S == Scatter11(o.acc.S, o.p) IN RMul(RMul(MMaxAbs(S), MMaxAbs(MInv(S))), o.p)
TolCV(o, eps) ==
  LET t0 == TolMean(o.acc, eps)
      c  == CurCoef(o)
  IN IF c = << >> THEN t0
     ELSE LET sc == VSum1(c)
              dev == VMaxAbs([i \in 1..o.p |-> RSub(o.acc.mu[i + 1], o.ecv[i])])
              \* relative error of the scatter, magnified by its condition
              rel == IF o.alpha # << >> THEN eps
                     ELSE RMul(RMul(o.p * 64, CondOf(o)), RAdd(eps, RDiv(TolS(o.acc, eps), RMax(MMaxAbs(Scatter11(o.acc.S, o.p)), VMaxAbs(Scatter01(o.acc.S, o.p))))))
          IN RSum(<<t0, RMul(RMul(4, t0), sc), RMul(RMul(RAdd(sc, "1"), dev), RMul(4, rel))>>)
=============================================================================
