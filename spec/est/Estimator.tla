----------------------------- MODULE Estimator -----------------------------
(***************************************************************************)
(* Running estimators: primate.stats.Mean / Covariance and the             *)
(* primate.estimators.MeanEstimator built on them.                         *)
(*                                                                         *)
(* The state is a heap of estimator objects (so that independence between  *)
(* objects is expressible), the snapshots a caller has kept of values that *)
(* an estimator returned, and nothing else.  An accumulator is updated the *)
(* way the code does it - batch by batch, with the merge rule of Chan et   *)
(* al. - and the invariants compare it with the definition over the whole  *)
(* history of observations.                                                *)
(***************************************************************************)
EXTENDS LinAlg

EPS == "1/4503599627370496"                         \* 2^-52

\* ---- definitions over a history of rows
SumRows(B)   == TLCEval([k \in 1..Len(B[1]) |-> RSum([i \in 1..Len(B) |-> B[i][k]])])
MeanOf(B)    == VScale(RDiv(1, Len(B)), SumRows(B))
ScatterOf(B) == LET m == MeanOf(B)
                    D == Len(B[1])
                    C == TLCEval([k \in 1..D |-> [i \in 1..Len(B) |-> RSub(B[i][k], m[k])]])
                IN TLCEval([k \in 1..D |-> [j \in 1..D |-> RDot(C[k], C[j])]])
MaxAbsOf(B)  == VMaxAbs([i \in 1..Len(B) |-> VMaxAbs(B[i])])

(* Numbers and sample counts for which every arithmetic step is exact in floating point: short dyadic numbers, *)
(* averaged over powers of two.  There, decisions at the threshold itself are determined.                     *)
Dyadic(x) == LET y == RMul(x, 1048576) IN RFloor(y) = y /\ RLe(RAbs(x), 1048576)
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64}

\* ---- the incremental accumulator
AccEmpty(d) == [n |-> 0, mu |-> VZero(d), S |-> MZero(d, d), m |-> "0", lo |-> VZero(d), hi |-> VZero(d), upd |-> 0, ex |-> TRUE]

AccMerge(a, B) ==
  LET b   == Len(B)
      nn  == a.n + b
      bm  == MeanOf(B)
      dm  == VSub(bm, a.mu)
      w   == RDiv(RMul(a.n, b), nn)
      D   == Len(bm)
      cmin(k) == RMinOf([i \in 1..b |-> B[i][k]])
      cmax(k) == RMaxOf([i \in 1..b |-> B[i][k]])
  IN [n  |-> nn,
      mu |-> VAdd(a.mu, VScale(RDiv(b, nn), dm)),
      S  |-> MAdd(MAdd(a.S, ScatterOf(B)), MScale(w, Outer(dm, dm))),
      m  |-> RMax(a.m, MaxAbsOf(B)),
      lo |-> [k \in 1..D |-> IF a.n = 0 THEN cmin(k) ELSE RMin(a.lo[k], cmin(k))],
      hi |-> [k \in 1..D |-> IF a.n = 0 THEN cmax(k) ELSE RMax(a.hi[k], cmax(k))],
      upd |-> a.upd + 1,
      ex |-> a.ex /\ IsPow2(nn) /\ \A i \in 1..b : \A k \in 1..D : Dyadic(B[i][k])]

AccCov(a, ddof) == MScale(RDiv(1, RSub(a.n, ddof)), a.S)   \* for a.n > ddof

\* ---- the estimator object
Kinds == {"mean", "cov", "est", "estcov"}
NewObj(k, d, rec) == [k |-> k, dim |-> d, rec |-> rec, acc |-> AccEmpty(d), delta |-> [i \in 1..d |-> "inf"],
                      vals |-> << >>]
Updated(o, B) ==
  LET a == AccMerge(o.acc, B)
  IN [o EXCEPT !.acc = a, !.delta = VSub(a.mu, o.acc.mu), !.vals = IF o.rec THEN o.vals \o B ELSE o.vals]
RowsOk(o, B) == B # << >> /\ \A i \in 1..Len(B) : Len(B[i]) = o.dim

\* ---- rounding allowances (double precision unless a history says otherwise); see DESIGN.md
TolMean(a, eps) == RMul(RMul(16 * (4 + a.upd), eps), a.m)
Spread(a)  == VMaxAbs(VSub(a.hi, a.lo))
TolS(a, eps) == LET R == Spread(a)
                    E == RMul(eps, a.m)
                IN RMul(16 * (4 + a.upd) * a.n, RSum(<<RMul(eps, RMul(R, R)), RMul(R, E), RMul(E, E)>>))
TolCov(a, ddof, eps) == RDiv(TolS(a, eps), RSub(a.n, ddof))
=============================================================================
