---------------------------- MODULE TrEstimator ----------------------------
(* Recorded executions of Mean / Covariance / MeanEstimator checked against *)
(* the actions of Estimator.                                                *)
EXTENDS Estimator, TraceKit

Fresh(cfg) == [objs |-> << >>, snaps |-> << >>, eps |-> IF Has(cfg, "eps") THEN cfg.eps ELSE EPS]

Obj(s, o) == s.objs[o]
Put(s, o, x) == [s EXCEPT !.objs = (o :> x) @@ s.objs]

\* an observation of the mean: scalar in one dimension, an array otherwise, nan when empty
MeanSeen(ob, obs, eps) ==
  IF ob.acc.n = 0 THEN obs.v = <<"nan">>
  ELSE IF ob.dim = 1 THEN obs.sh = << >> /\ RNear(obs.v[1], ob.acc.mu[1], TolMean(ob.acc, eps))
  ELSE ObsVec(obs, ob.acc.mu, TolMean(ob.acc, eps))
CovSeen(ob, obs, ddof, eps) ==
  IF RLe(ob.acc.n, ddof) THEN obs.v = <<"inf">>
  ELSE LET C == AccCov(ob.acc, ddof)
           t == TolCov(ob.acc, ddof, eps)
       IN IF ob.dim = 1 THEN obs.sh = << >> /\ RNear(obs.v[1], C[1][1], t) ELSE ObsMat(obs, C, t)
DeltaSeen(ob, obs, eps) ==
  IF ob.acc.n = 0 THEN \A i \in 1..Len(obs.v) : obs.v[i] = "inf"
  ELSE ObsVec(obs, ob.delta, RMul(4, TolMean(ob.acc, eps)))
ValsSeen(ob, e) ==
  IF ~ob.rec THEN e.nvals = -1
  ELSE e.nvals = Len(ob.vals) /\ \A i \in 1..Len(e.vals) : e.vals[i].v = ob.vals[i]

IsEst(ob) == ob.k \in {"est", "estcov"}
Cmp(ob, e, eps) ==
  UNION {
    If(e.n = ob.acc.n, "number of samples counts every observation once"),
    If(MeanSeen(ob, e.mean, eps), "mean equals the mean of all observations"),
    IF ob.k \in {"cov", "estcov"} THEN
        If(\A i \in 1..Len(e.cov) : CovSeen(ob, e.cov[i], e.dd[i], eps), "covariance equals the covariance of all observations")
        \cup If(e.covdef, "covariance divides by n-1 by default") ELSE {},
    IF IsEst(ob) THEN
        If(MeanSeen(ob, e.est, eps), "estimate equals the mean of all observations")
        \cup If(DeltaSeen(ob, e.delta, eps), "delta is the change made by the last update")
        \cup If(ValsSeen(ob, e), "recorded values are the observations in order") ELSE {} }

Step(s, e) ==
  CASE e.op = "new" ->
         [st |-> Put(s, e.o, NewObj(e.k, e.dim, e.rec)), bad |-> If(e.ok, "construction succeeds")]
    [] e.op = "update" ->
         [st |-> Put(s, e.o, Updated(Obj(s, e.o), e.rows)), bad |-> If(e.ok, "update is accepted")]
    [] e.op = "badupdate" ->
         [st |-> s, bad |-> If(~e.ok, "rows of the wrong width are refused")]
    [] e.op = "scribble" -> [st |-> s, bad |-> {}]
    [] e.op = "read" ->
         [st |-> s, bad |-> IF e.ok THEN Cmp(Obj(s, e.o), e, s.eps) ELSE {"reading an estimator succeeds"}]
    [] e.op = "snap" ->
         [st |-> [s EXCEPT !.snaps = Append(s.snaps, [v |-> e.val.v])],
          bad |-> If(MeanSeen(Obj(s, e.o), e.val, s.eps), "estimate equals the mean of all observations")]
    [] e.op = "snapcheck" ->
         [st |-> s, bad |-> If(e.val.v = s.snaps[e.i].v, "a returned estimate is not changed by later activity")]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
