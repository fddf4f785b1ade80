------------------------------ MODULE Criteria ------------------------------
(***************************************************************************)
(* Convergence criteria as formulas over the state of an estimator.        *)
(*                                                                         *)
(* A formula is a record: [k |-> "count", c], [k |-> "tol", atol, rtol,    *)
(* ord], [k |-> "conf", lev, atol, rtol], [k |-> "knee", S], and           *)
(* [k |-> "or" / "and", a, b], [k |-> "not", a].                           *)
(*                                                                         *)
(* Sat is three-valued: "U" is returned only where the margin to the       *)
(* threshold is smaller than the rounding the computation may commit       *)
(* (eps = "0" gives the exact, two-valued semantics).                      *)
(***************************************************************************)
EXTENDS Estimator, Quantiles

K3Not(x) == IF x = "T" THEN "F" ELSE IF x = "F" THEN "T" ELSE "U"
K3Or(x, y) == IF x = "T" \/ y = "T" THEN "T" ELSE IF x = "F" /\ y = "F" THEN "F" ELSE "U"
K3And(x, y) == K3Not(K3Or(K3Not(x), K3Not(y)))

(* x < y (strict) or x <= y decided with the intervals x +- dx, y +- dy     *)
Less3(x, dx, y, dy, strict) ==
  LET lo == RSub(RAdd(x, dx), RSub(y, dy))      \* largest possible x - y
      hi == RSub(RSub(x, dx), RAdd(y, dy))      \* smallest possible x - y
  IN IF (IF strict THEN RLt(lo, 0) ELSE RLe(lo, 0)) THEN "T"
     ELSE IF (IF strict THEN RLe(0, hi) ELSE RLt(0, hi)) THEN "F" ELSE "U"

(* norm orders: "1", "2", "none" (the Euclidean norm), "inf", "-inf" (the smallest magnitude), "3" *)
Norm(v, ord) == CASE ord = "1" -> VSum1(v)
                  [] ord \in {"2", "none"} -> (IF Len(v) = 1 THEN RAbs(v[1]) ELSE VNorm(v))
                  [] ord = "inf" -> VMaxAbs(v)
                  [] ord = "-inf" -> RMinOf([i \in 1..Len(v) |-> RAbs(v[i])])
                  [] ord = "3" -> LET c == RSum([i \in 1..Len(v) |-> RPow(RAbs(v[i]), 3)])
                                  IN IF RSign(c) = 0 THEN "0" ELSE RExp(RDiv(RLog(c), 3))
NormFac(v, ord) == IF ord = "inf" THEN 1 ELSE Len(v)

\* ---- count
SatCount(o, f) == IF o.acc.n >= f.c THEN "T" ELSE "F"

\* ---- tolerance: norm(delta) < atol or norm(delta) < rtol * norm(estimate)
ExactTol(o, f) == /\ o.acc.ex /\ Dyadic(f.atol) /\ Dyadic(f.rtol)
                  /\ (Len(o.delta) = 1 /\ f.ord # "3") \/ f.ord \in {"1", "inf", "-inf"}
SatTol(o, f, eps0) ==
  IF o.acc.n = 0 THEN "F"
  ELSE LET eps == IF ExactTol(o, f) THEN "0" ELSE eps0
           t  == TolMean(o.acc, eps)
           e  == Norm(o.delta, f.ord)
           de == RMul(NormFac(o.delta, f.ord), RAdd(RMul(4, t), RMul(RMul(8, eps), e)))
           m  == Norm(o.acc.mu, f.ord)
           dm == RMul(NormFac(o.delta, f.ord), RAdd(t, RMul(RMul(8, eps), m)))
       IN K3Or(Less3(e, de, f.atol, "0", TRUE), Less3(e, de, RMul(f.rtol, m), RMul(f.rtol, dm), TRUE))

\* ---- confidence: the margin of error of the sample mean, and the relative standard error
Score(lev, n) == IF n < 30 THEN TQ(lev, n - 1) ELSE NQ(lev)
StdErr(o) == RSqrt(RDiv(AccCov(o.acc, 1)[1][1], o.acc.n))
StdErrBand(o, eps) ==             \* interval for the computed standard error
  LET v == AccCov(o.acc, 1)[1][1]
      t == RAdd(TolCov(o.acc, 1, eps), RMul(RMul(8, eps), v))
  IN [lo |-> RSqrt(RDiv(RMax("0", RSub(v, t)), o.acc.n)), hi |-> RSqrt(RDiv(RAdd(v, t), o.acc.n))]
Margin(o, lev) == RMul(Score(lev, o.acc.n), StdErr(o))
(* the standard error is a short dyadic number: the variance is a square and so is the count *)
ExactSE(o) == LET v == AccCov(o.acc, 1)[1][1]
                  r == RRound(RSqrt(v), 60)
              IN o.acc.ex /\ (RSign(v) = 0 \/ (o.acc.n \in {4, 16, 64} /\ Dyadic(r) /\ RMul(r, r) = v))
SatConf(o, f, eps0) ==
  IF o.acc.n < 3 THEN "F"
  ELSE LET ex == ExactSE(o)
           eps == IF ex THEN "0" ELSE eps0
           b  == IF ex /\ RSign(AccCov(o.acc, 1)[1][1]) # 0 THEN LET r == RDiv(RRound(RSqrt(AccCov(o.acc, 1)[1][1]), 60), RRound(RSqrt(o.acc.n), 60)) IN [lo |-> r, hi |-> r]
                 ELSE StdErrBand(o, eps)
           s  == Score(f.lev, o.acc.n)
           rq == IF eps0 = "0" THEN "0" ELSE QRel(f.lev)
           ml == RMul(RMul(s, RSub("1", rq)), b.lo)
           mh == RMul(RMul(s, RAdd("1", rq)), b.hi)
           a  == RAbs(o.acc.mu[1])
           ta == IF ex /\ Dyadic(f.rtol) /\ (RSign(o.acc.mu[1]) = 0 \/ Dyadic(RDiv(b.lo, a))) THEN "0" ELSE TolMean(o.acc, eps0)
           al == RMax("0", RSub(a, ta))
           ah == RAdd(a, ta)
           one == IF RLe(mh, f.atol) THEN "T" ELSE IF RLt(f.atol, ml) THEN "F" ELSE "U"
           two == IF RSign(al) > 0 /\ RLe(b.hi, RMul(f.rtol, al)) THEN "T"
                  ELSE IF RLt(RMul(f.rtol, ah), b.lo) THEN "F" ELSE "U"
       IN K3Or(one, two)

\* ---- knee of the accumulated absolute changes of the running mean
RunMeans(vs) == LET s == TLCEval(RCumSum(vs)) IN TLCEval([i \in 1..Len(vs) |-> RDiv(s[i], i)])
CumAbsDiffs(ms) == TLCEval(RCumSum([i \in 1..Len(ms) - 1 |-> RAbs(RSub(ms[i + 1], ms[i]))]))
KneeHeight(vs) ==                \* height of the normalized curve above its chord; "nan" when it is flat
  LET y == CumAbsDiffs(RunMeans(vs))
      m == Len(y)
      r == RSub(y[m], y[1])
  IN IF RSign(r) = 0 THEN "nan"
     ELSE RMaxOf([i \in 1..m |-> RSub(RDiv(RSub(y[i], y[1]), r), RDiv(i - 1, m - 1))])
KneeRange(vs) == LET y == CumAbsDiffs(RunMeans(vs)) IN RSub(y[Len(y)], y[1])
SatKnee(o, f, eps) ==
  IF ~o.rec \/ Len(o.vals) < 3 THEN "F"
  ELSE LET vs == [i \in 1..Len(o.vals) |-> o.vals[i][1]]
           h  == KneeHeight(vs)
           r  == KneeRange(vs)
           m  == Len(vs) - 1
           th == RDiv(f.S, m - 1)
           t  == RMul(64 * Len(vs) * Len(vs), RMul(eps, RAdd("1", RDiv(RMax(o.acc.m, VMaxAbs(vs)), r))))
       IN IF h = "nan" THEN (IF eps = "0" \/ VMaxAbs(vs) = "0" THEN "F" ELSE "U")
          ELSE IF RLt("1", t) THEN "U"
          ELSE Less3(th, "0", h, t, TRUE)

RECURSIVE Sat(_, _, _)
Sat(o, f, eps) ==
  CASE f.k = "count" -> SatCount(o, f)
    [] f.k = "tol"   -> SatTol(o, f, eps)
    [] f.k = "conf"  -> SatConf(o, f, eps)
    [] f.k = "knee"  -> SatKnee(o, f, eps)
    [] f.k = "every" -> IF o.acc.n % f.m = 0 THEN "T" ELSE "F"     \* a criterion made from a function
    [] f.k = "or"    -> K3Or(Sat(o, f.a, eps), Sat(o, f.b, eps))
    [] f.k = "and"   -> K3And(Sat(o, f.a, eps), Sat(o, f.b, eps))
    [] f.k = "not"   -> K3Not(Sat(o, f.a, eps))

\* ---- resolution of a criterion by name: only the arguments the criterion knows are used, absent ones default
Default(kw, f, d) == IF f \in DOMAIN kw THEN kw[f] ELSE d
Resolve(name, kw) ==
  CASE name = "count"      -> [k |-> "count", c |-> kw.count]
    [] name = "tolerance"  -> [k |-> "tol", atol |-> Default(kw, "atol", "149/10000000000"),
                               rtol |-> Default(kw, "rtol", "1/100"), ord |-> Default(kw, "ord", "2")]
    [] name = "confidence" -> [k |-> "conf", lev |-> Default(kw, "confidence", "0.95"), atol |-> Default(kw, "atol", "0"),
                               rtol |-> Default(kw, "rtol", "1/100")]
    [] name = "knee"       -> [k |-> "knee", S |-> Default(kw, "S", "1")]
=============================================================================
