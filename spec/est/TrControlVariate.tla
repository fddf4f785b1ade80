-------------------------- MODULE TrControlVariate --------------------------
EXTENDS ControlVariate, TraceKit
ValsSeen(o, e) == IF ~o.rec THEN e.nvals = -1 ELSE e.nvals = Len(o.vals) /\ \A i \in 1..Len(e.vals) : e.vals[i].v = o.vals[i]
\* a change is known as well as the two estimates it lies between
DTol(o0, o) == RAdd(TolCV(o, EPS), IF o0.acc.n = 0 THEN "0" ELSE TolCV(o0, EPS))
Fresh(cfg) == [o |-> << >>]
Step(s, e) ==
  CASE e.op = "new" -> [st |-> [o |-> NewCV(e.ecv, e.alpha, e.rec)], bad |-> If(e.ok, "construction succeeds")]
    [] e.op = "update" ->
         LET o == CVUpdated(s.o, e.rows)
         IN [st |-> [o |-> o],
             bad |-> IF ~e.ok THEN {"update is accepted"}
                     ELSE If(e.n = o.acc.n, "length counts the samples")
                       \cup If(e.count = "T", "count criteria see the length")
                       \cup If(ValsSeen(o, e), "recorded values are the observations in order")
                       \cup If(e.again, "reading the estimate does not change it")
                       \cup If(~Known(o) \/ (e.scalar /\ RNear(e.est, EstOf(o), TolCV(o, EPS))), "estimate is the regression-adjusted mean")
                       \cup If(~Known(o) \/ ~Known(s.o) \/ RNear(e.delta, Delta(o), RMul(8, DTol(s.o, o))) \/ s.o.acc.n = 0, "delta is the change made by the last update")
                       \cup If(~Known(o) \/ ~Known(s.o) \/ e.tol \in {"U", IF RLt(RAbs(Delta(o)), e.atol) THEN "T" ELSE "F"}
                               \/ RNear(RAbs(Delta(o)), e.atol, RMul(16, DTol(s.o, o))), "tolerance criteria see the last change")]
    [] e.op = "silent" -> [st |-> [o |-> CVUpdated(s.o, e.rows)], bad |-> If(e.ok, "update is accepted")]
    [] e.op = "badupdate" ->
         [st |-> s,
          bad |-> If(~e.ok, "rows of the wrong width are refused")
                  \cup If(e.kept /\ e.n = s.o.acc.n /\ ValsSeen(s.o, e), "a refused update changes nothing")]
    [] e.op = "snapcheck" -> [st |-> s, bad |-> If(e.ok, "a returned estimate, change or record is not changed by later activity")]
    [] e.op = "other" -> [st |-> s, bad |-> If(e.ok, "construction succeeds")]
    [] e.op = "fresh" -> [st |-> s, bad |-> If(e.ok /\ e.n = 0 /\ e.est = "nan" /\ e.tol = "F", "without samples there is no estimate and no convergence")]
    [] e.op = "refuse" -> [st |-> s, bad |-> If(~e.ok, "coefficients of the wrong length are refused")]
TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
