----------------------------- MODULE TrInterval -----------------------------
EXTENDS Interval, TraceKit
Fresh(cfg) == [a |-> << >>]
Tol(a, e) ==
  LET m == VMaxAbs(a)
      R == RSub(m, RNeg(m))
      h == IF e.lev = "1" THEN "0" ELSE Half(a, e.lev, e.dist)
      o == Updated(NewObj("estcov", 1, FALSE), Sample(a))
      \* |sqrt(v + dv) - sqrt(v)| <= sqrt(dv), and <= dv / sqrt(v)
      dv == TolCov(o.acc, 1, EPS)
      v  == AccCov(o.acc, 1)[1][1]
      ds == IF RSign(v) = 0 THEN RSqrt(dv) ELSE RMin(RSqrt(dv), RDiv(dv, RSqrt(v)))
  IN RSum(<<TolMean(o.acc, EPS), IF e.lev \in {"0", "1"} THEN "0" ELSE RMul(QRel(e.lev), h), IF e.lev = "1" THEN "0" ELSE RMul(Quant(e.lev, e.dist, Len(a)), ds)>>)
Step(s, e) ==
  CASE e.op = "ci" ->
         [st |-> s,
          bad |-> IF ~e.ok THEN {"an interval is returned"}
                  ELSE IF e.lev = "1" /\ e.spread THEN If(e.lo = "-inf" /\ e.hi = "inf", "full confidence spans everything")
                  ELSE IF e.lev = "1" THEN {}
                  ELSE LET t == Tol(e.a, e) IN
                       If(RNear(e.lo, Lo(e.a, e.lev, e.dist), t), "lower end is mean minus quantile times standard error")
                       \cup If(RNear(e.hi, Hi(e.a, e.lev, e.dist), t), "upper end is mean plus quantile times standard error")]
    [] e.op = "nest" ->   \* arbitrary levels p <= q
         [st |-> s, bad |-> IF ~e.ok THEN {"an interval is returned"}
                  ELSE LET t == RMul("1/100000000000", RAdd(VMaxAbs(e.a), RAbs(RSub(e.hi, e.lo)))) IN
                       If(RLe(e.lo2, RAdd(e.lo, t)) /\ RLe(RSub(e.hi, t), e.hi2), "intervals are nested in the confidence level")
                       \cup If(RNear(RAdd(e.lo, e.hi), RMul("2", MeanV(e.a)), t), "intervals are centred on the mean")]
    [] e.op = "refuse" -> [st |-> s, bad |-> If(~e.ok, "invalid levels and distributions are refused")]
TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
