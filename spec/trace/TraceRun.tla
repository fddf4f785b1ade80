------------------------------- MODULE TraceRun -------------------------------
(* Recorded estimations checked step by step: every draw, callback and      *)
(* result must be one the specification allows at that moment.              *)
EXTENDS Sketch, TraceKit

Fresh(cfg) == [none |-> TRUE]

N(s) == Len(s.c.A)
Eps(c) == IF Has(c, "eps") THEN c.eps ELSE EPS
(* size of the numbers behind a product, for operators that are computed rather than stored *)
Size(c, x) == IF Has(c, "magn") THEN RMul(RMul(Len(c.A), c.magn), x) ELSE "0"
Swell(c) == IF Has(c, "magn") THEN RMax("1", RDiv(c.magn, RMax("1/1048576", NormA(c.A)))) ELSE "1"
MaxSq(vs) == MaxOver(LAMBDA v : VNormSq(v), vs, Len(vs))
New(c) == IF c.alg = "diag" THEN NewObj("est", Len(c.A), c.rec) ELSE NewObj("estcov", 1, c.rec)
Answer(s) == IF s.c.f.k = "none" THEN "U" ELSE Sat(s.o, s.c.f, Eps(s.c))
Budget(s) == s.c.alg = "xtrace" /\ Len(s.W) >= Len(s.c.A)
Sat2(s) == IF Budget(s) THEN "T" ELSE Answer(s)

Scalar(s) == s.c.alg # "diag"
EstSeen(s, est) ==
  IF s.o.acc.n = 0 THEN TRUE             \* no sample was asked for: there is no mean
  ELSE IF Scalar(s) THEN est.sh = << >> /\ RNear(est.v[1], s.o.acc.mu[1], TolMean(s.o.acc, Eps(s.c)))
       ELSE (N(s) = 1 \/ IsVec(est, N(s))) /\ VNear(est.v, s.o.acc.mu, TolMean(s.o.acc, Eps(s.c)))
ValSeen(s, vals) ==
  /\ Len(vals) = Len(s.o.vals)
  /\ \A i \in 1..Len(vals) : VNear(vals[i].v, s.o.vals[i], TolMean([s.o.acc EXCEPT !.upd = 1], Eps(s.c)))

\* ---- the XTrace samples of all vectors so far; << >> when some sketch is (nearly) dependent
XtAll(s, W) ==
  LET A  == s.c.A
      Ps == TLCEval([i \in 1..Len(W) |-> ProjOf(A, Without(W, i))])
      a  == TLCEval([i \in 1..Len(W) |-> RDiv(VNormSq(Off(Ps[i], W[i])), VNormSq(W[i]))])
  IN IF \E i \in DOMAIN W : Ps[i] = NoMat THEN << >>
     ELSE IF ~s.c.norm THEN [t |-> TLCEval([i \in 1..Len(W) |-> XtTerm(A, W, Ps[i], i, FALSE)]), f |-> "1"]
     ELSE IF \E i \in DOMAIN W : RLt(a[i], "1/10000") THEN << >>     \* normalization by (nearly) nothing
     ELSE [t |-> TLCEval([i \in 1..Len(W) |-> XtTerm(A, W, Ps[i], i, TRUE)]), f |-> MaxOver(LAMBDA x : RDiv("1", RMul(x, x)), a, Len(a))]
XtStep(s, W) ==
  LET t == IF Singular(Gram(Images(s.c.A, W))) THEN << >> ELSE XtAll(s, W)
      k2 == KappaSq(Images(s.c.A, W))
      tol == RMul(RMul(RMul(16, Swell(s.c)), t.f), SketchTol(s.c.A, W, k2, Eps(s.c)))
  IN IF t = << >> THEN NoMat
     ELSE IF RLt("1/1000", RDiv(tol, NormA(s.c.A))) THEN NoMat           \* too ill-conditioned to be judged
     ELSE WithBound(Updated(New(s.c), [i \in 1..Len(t.t) |-> <<t.t[i]>>]), RDiv(tol, RMul(64, Eps(s.c))))

Sizes(s, e) ==
  CASE s.c.alg = "hutch"  -> \/ e.size = <<N(s), s.c.batch>>
                             \/ (~s.c.full /\ ~s.c.cb /\ e.size = <<N(s), 1>>)
    [] s.c.alg = "diag"   -> Len(e.v) = 1
    [] s.c.alg = "xtrace" -> LET left == N(s) - Len(s.W)
                             IN e.size = <<N(s), IF s.c.batch < left THEN s.c.batch ELSE left>>
    [] OTHER -> TRUE

Loop == {"hutch", "diag", "xtrace"}
DrawStep(s, e) ==
  LET W2 == s.W \o e.v
      o2 == CASE s.c.alg = "hutch"  -> WithBound(HutchStep(s.o, s.c.A, e.v), Size(s.c, MaxSq(e.v)))
              [] s.c.alg = "diag"   -> WithBound(DiagStep(s.o, s.c.A, W2), Size(s.c, RMul(4, MaxSq(W2))))
              [] s.c.alg = "xtrace" -> XtStep(s, W2)
              [] OTHER -> s.o
  IN [st |-> [s EXCEPT !.W = W2, !.o = IF o2 = NoMat THEN s.o ELSE o2, !.pend = s.c.cb, !.lost = s.lost \/ o2 = NoMat, !.draws = Append(s.draws, e.v)],
      bad |-> If(s.c.alg \notin Loop \/ s.lost \/ Sat2(s) # "T", "no sample is drawn once the criterion holds")
              \cup If(Sizes(s, e), "batches have the requested size")
              \cup If(~s.pend, "the callback runs after every batch")
              \cup If(s.c.pdf # "signs" \/ \A i \in DOMAIN e.v : \A j \in DOMAIN e.v[i] : e.v[i][j] \in {"1", "-1"}, "sign vectors are drawn")]

CallbackStep(s, e) ==
  [st |-> [s EXCEPT !.pend = FALSE],
   bad |-> If(s.pend, "the callback runs once per batch")
           \cup If(e.nit = Len(s.W) /\ e.len = Len(s.W), "the callback sees the number of samples so far")
           \cup If(s.lost \/ EstSeen(s, e.est), "the callback sees the current estimate")
           \cup If(s.lost \/ Sat2(s) = "U" \/ e.ans = Sat2(s), "the callback sees the criterion in use")]

\* ---- result of a Hutch++ estimation: two draws, the sketch and the residual vectors
HutchppReturn(s, e) ==
  LET A  == s.c.A
      W  == s.draws[1]
      G  == s.draws[2]
      Y  == Images(A, W)
      full == Len(W) <= N(s) /\ ~Singular(Gram(Y))
      P  == Projector(Y)
      k2 == KappaSq(Y)
      tol == RMul(RMul(IF s.c.alg = "hutchpp" THEN 16 ELSE 1, RMul(Swell(s.c), RDiv(Eps(s.c), EPS))), SketchTol(A, W \o G, k2, EPS))
      lo == RMul(Swell(s.c), SketchTol(A, W \o G, "1000000", Eps(s.c)))
      x  == TLCEval([j \in 1..Len(G) |-> QuadForm(Off(P, G[j]), A)])
      r  == IF Len(W) < N(s) THEN Len(W) ELSE N(s)
  IN IF Len(s.draws) # 2 \/ Len(G) # Len(W) THEN {"as many residual vectors as sketch vectors are drawn"}
     ELSE If(s.c.m = 0 \/ (s.c.m <= Len(W) /\ Len(W) <= s.c.m + 2), "the sketch has the requested size")
       \cup (IF ~full THEN If(~s.c.cap \/ RNear(e.est.v[1], MTrace(A), lo), "a sketch that captures the range gives the trace")
             ELSE If(RNear(e.est.v[1], HutchppEst(A, P, G), tol), "the estimate is sketched trace plus mean residual form")
                  \cup If(RNear(e.est.v[1], MTrace(A), tol) \/ ~Captures(A, P), "a sketch that captures the range gives the trace"))
       \cup (IF ~s.c.full THEN {}
             ELSE If(e.nit = Len(W) + Len(G), "the result counts the vectors used")
                  \cup If(e.rest.v = e.est.v, "result and returned estimate agree")
                  \cup If(Len(e.samples) = r + Len(G), "the result lists the summed samples")
                  \cup (IF ~full \/ Len(e.samples) # r + Len(G) THEN {}
                        ELSE If(/\ RNear(RSum(SubSeq(e.samples, 1, r)), Compress(P, A), tol)
                                /\ VNear(SubSeq(e.samples, r + 1, r + Len(G)), x, tol), "the result lists the summed samples")))

XdiagReturn(s, e) ==
  LET A  == s.c.A
      W  == IF s.draws = << >> THEN << >> ELSE s.draws[1]
      want == IF s.c.m = 0 THEN N(s) ELSE LET h == (s.c.m + 1) \div 2 IN IF h < N(s) THEN h ELSE N(s)
      Y  == Images(A, W)
      Ps == TLCEval([i \in 1..Len(W) |-> ProjOf(A, Without(W, i))])
      d  == VScale(RDiv(1, Len(W)), SumRows(TLCEval([i \in 1..Len(W) |-> XdTerm(A, W, Ps[i], i)])))
  IN If(Len(W) = want, "half the budget is spent on test vectors")
     \cup (IF Len(W) = 0 \/ Len(W) > N(s) \/ Singular(Gram(Y)) THEN {}
           ELSE LET tol == RMul(16, SketchTol(A, W, KappaSq(Y), EPS))
                IN If(RLt("1/100", RDiv(tol, NormA(A))) \/ ObsVec(e.est, d, tol), "the estimate is the mean of the leave-one-out diagonals"))

ReturnStep(s, e) ==
  [st |-> s,
   bad |-> IF ~e.ok THEN {"the call succeeds"}
     ELSE CASE s.c.alg = "hutchpp" -> HutchppReturn(s, e)
            [] s.c.alg = "xdiag"   -> XdiagReturn(s, e)
            [] OTHER ->
              If(~s.pend, "the callback runs after every batch")
              \cup (IF s.lost THEN {} ELSE
                If(Sat2(s) # "F", "sampling goes on until the criterion holds")
                \cup If(EstSeen(s, e.est), "the estimate is the mean of the samples")
                \cup If(s.c.alg # "xtrace" \/ ~s.c.norm \/ Len(s.W) < N(s) \/ RNear(e.est.v[1], MTrace(s.c.A), TolMean(s.o.acc, Eps(s.c))), "with all vectors the estimate is the trace")
                \cup (IF ~s.c.full THEN {}
                      ELSE If(e.rest.v = e.est.v, "result and returned estimate agree")
                           \cup If(e.nit = Len(s.W) /\ e.len = Len(s.W), "the result counts the samples")
                           \cup If(EstSeen(s, e.eest), "the result carries the estimator")
                           \cup If(e.msg, "the result carries a message")
                           \cup If(Sat2(s) = "U" \/ e.ans = Sat2(s), "the result carries the criterion")
                           \cup If(~s.c.rec \/ ValSeen(s, e.vals), "the recorded samples are those of the vectors drawn, in order")))]

\* ---- exact expectations: all sign vectors
SignStep(s, e) ==      \* one single-vector estimate for the sign vector e.s
  [st |-> [s EXCEPT !.seen = s.seen \cup {e.s}, !.sum = IF s.sum = << >> THEN e.est.v ELSE VAdd(s.sum, e.est.v),
                    !.dev = RAdd(s.dev, LET d == RSub(e.est.v[1], MTrace(s.c.A)) IN RMul(d, d))],
   bad |-> If(e.ok /\ \A i \in DOMAIN e.est.v : RFinite(e.est.v[i]), "the call succeeds")]
\* of the symmetric part, which is all that a quadratic form sees
OffDiagSq(A) == RSum([i \in 1..Len(A) |-> RSum([j \in 1..Len(A) |->
                  IF i = j THEN "0" ELSE LET x == RAdd(A[i][j], A[j][i]) IN RMul("1/4", RMul(x, x))])])
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
AllSigns(s, e) ==
  LET A == s.c.A
      tol == RMul(4096, RMul(Eps(s.c), RMul(Len(A) * Len(A), RMax(MMaxAbs(A), Size(s.c, "1")))))
      mean == VScale(RDiv(1, e.n), s.sum)
  IN [st |-> [s EXCEPT !.seen = {}, !.sum = << >>, !.dev = "0"],
      bad |-> IF Cardinality(s.seen) # e.n THEN {"HARNESS: sign space incomplete"}
        ELSE IF e.tag = "diag" THEN If(VNear(mean, MDiag(A), tol), "the diagonal estimate averages to the diagonal")
        ELSE IF e.tag = "hutchpp" THEN (If(RNear(mean[1], MTrace(A), RMul("1000", tol)), "the Hutch++ estimate averages to the trace"))
        ELSE If(RNear(mean[1], MTrace(A), tol), "the trace estimate averages to the trace")
             \cup If(RNear(RDiv(s.dev, e.n), RMul(2, OffDiagSq(A)), RMul(tol, RMul(Len(A) * Len(A) * 4, RMax("1", RMax(MMaxAbs(A), Size(s.c, "1")))))), "the variance is twice the squared off-diagonal (of the symmetric part)")]

\* ---- one stream, many configurations: sample sequences agree
SameStep(s, e) ==
  LET v == e.vals
      k == IF Len(v) < Len(s.ref) THEN Len(v) ELSE Len(s.ref)
      t == RMul(e.eps, RMul(4096 * Len(s.c.A), RMax("1", RMax(VMaxAbs(v), VMaxAbs(s.ref)))))
  IN [st |-> IF Len(s.ref) < Len(v) THEN [s EXCEPT !.ref = v] ELSE s,
      bad |-> IF ~e.ok THEN {"the call succeeds"}
              ELSE If(VNear(SubSeq(v, 1, k), SubSeq(s.ref, 1, k), t), "samples do not depend on batching and representation")]

Step(s, e) ==
  CASE e.op = "call" ->
         LET c == e.c IN
         [st |-> [c |-> c, o |-> New(c), W |-> << >>, draws |-> << >>, pend |-> FALSE, lost |-> FALSE,
                  seen |-> {}, sum |-> << >>, dev |-> "0", ref |-> IF Has(s, "ref") THEN s.ref ELSE << >>],
          bad |-> {}]
    [] e.op = "draw"     -> DrawStep(s, e)
    [] e.op = "callback" -> CallbackStep(s, e)
    [] e.op = "return"   -> ReturnStep(s, e)
    [] e.op = "sign"     -> SignStep(s, e)
    [] e.op = "allsigns" -> AllSigns(s, e)
    [] e.op = "same"     -> SameStep(s, e)
=============================================================================
