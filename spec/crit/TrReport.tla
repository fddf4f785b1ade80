------------------------------ MODULE TrReport ------------------------------
(* Recorded messages and full results checked against Report.               *)
EXTENDS Report, TraceKit

Fresh(cfg) == [o |-> << >>]

(* a user's estimator whose estimate is its latest sample *)
LatestOf(o, B) == LET x == B[Len(B)]
                  IN [o EXCEPT !.acc = [AccMerge(o.acc, B) EXCEPT !.mu = x, !.m = VMaxAbs(x)], !.delta = IF o.acc.n = 0 THEN x ELSE VSub(x, o.acc.mu)]
(* control variates with given coefficients: the value, and the change, of the corrected mean *)
CvEst(o) == <<RSub(o.acc.mu[1], RSum([i \in 1..Len(o.ecv) |-> RMul(o.alpha[i], RSub(o.acc.mu[i + 1], o.ecv[i]))]))>>
Fill(o) == IF o.k = "cv" THEN (IF o.acc.n = 0 THEN <<"nan">> ELSE CvEst(o)) ELSE o.acc.mu
Feed(o, B) == IF o.k = "latest" THEN LatestOf(o, B)
              ELSE IF o.k = "cv"
              THEN LET a == [o EXCEPT !.acc = AccMerge(o.acc, B)]
                       d == VSub(CvEst(a), IF o.acc.n = 0 THEN <<"0">> ELSE CvEst(o))
                   IN [a EXCEPT !.delta = IF o.acc.n = 0 THEN <<"?">> ELSE d]
              ELSE Updated(o, B)
New(e) == IF e.k = "cv" THEN [NewObj("est", e.dim, FALSE) EXCEPT !.k = "cv"] @@ [ecv |-> e.ecv, alpha |-> e.alpha] ELSE NewObj(e.k, e.dim, e.rec)
Size(o) == IF o.k = "cv" THEN RAdd("1", RSum([i \in 1..Len(o.ecv) |-> RMul(4, RAbs(o.alpha[i]))])) ELSE "1"
CvBig(o) == IF o.k = "cv" THEN RMax(o.acc.m, VMaxAbs(o.ecv)) ELSE o.acc.m
Tol(o) == RMul(RMul(RMul(64 * (4 + o.acc.upd), EPS), CvBig(o)), Size(o))

One(s, x, t) == Len(s) = 1 /\ s[1].d >= 2 /\ Reads(s[1], x, t)
Absent(s) == s = << >>
Estimate(o, m) == IF o.acc.n = 0 THEN Len(m.est) = 1 /\ m.est[1].p \in {"nan", "None"}
                  ELSE Shows(m.est, Fill(o), Tol(o))
Count(m, n) == Len(m.count) = 1 /\ m.count[1].p = RNum(n)

NormTol(o, v) == RMul(Len(v), RAdd(RMul(4, Tol(o)), RMul(RMul(64, EPS), VSum1(v))))
Said(o, f, m) ==
  IF ~m.text THEN {"a message is text"}
  ELSE IF f.k \in {"or", "and", "not", "every"} THEN {}
  ELSE If(Estimate(o, m), "a message shows the current estimate")
       \cup If(Count(m, o.acc.n), "a message shows the number of samples")
       \cup (CASE f.k = "tol" ->
                 If(One(m.atol, f.atol, "0") /\ One(m.rtol, f.rtol, "0"), "a tolerance message shows its tolerances")
                 \cup (IF o.acc.n = 0 THEN {} ELSE
                       If((Len(o.delta) > 0 /\ o.delta[1] = "?") \/ One(m.error, Norm(o.delta, f.ord), NormTol(o, o.delta)), "a tolerance message shows the last change")
                       \cup If(One(m.norm, Norm(Fill(o), f.ord), NormTol(o, Fill(o))), "a tolerance message shows the size of the estimate"))
              [] f.k = "conf" ->
                 If(Len(m.conf) = 1 /\ Reads(m.conf[1], RMul(100, RLevel(f.lev)), "1/1000000"), "a confidence message shows its level")
                 \cup (IF o.acc.n < 3 THEN If(Len(m.margin) = 1 /\ m.margin[1].p = "inf", "a confidence message shows the margin of error")
                       ELSE LET x == Margin(o, f.lev) IN
                            If(One(m.margin, x, RAdd(RMul(RAdd("1/1000000", QRel(f.lev)), x), RSqrt(RDiv(TolCov(o.acc, 1, EPS), o.acc.n)))), "a confidence message shows the margin of error"))
              [] f.k = "knee" -> If(One(m.S, f.S, "0"), "a knee message shows its sensitivity")
              [] OTHER -> {})

(* ---- full results *)
Grow(e) == \* the counts at which the loop publishes
  LET n == Len(e.A)
      step(c) == CASE e.fn = "hutch" -> e.batch [] e.fn = "diag" -> 1 [] e.fn = "xtrace" -> (IF n - c < e.batch THEN n - c ELSE e.batch)
  IN \A i \in 1..Len(e.seen) : e.seen[i].nit = LET c == IF i = 1 THEN 0 ELSE e.seen[i - 1].nit IN c + step(c)
Loop(s, e) ==
  IF ~e.ok THEN {"a full estimation succeeds"}
  ELSE If(e.est.v = e.rest.v /\ e.est.v = e.eest.v, "the result carries the returned estimate")
       \cup If(e.nit = e.len, "the result counts the samples")
       \cup If(e.six, "a result unpacks into its six parts")
       \cup If(e.info, "a new result carries no notes")
       \cup If(e.crit \/ e.fn = "xtrace", "the result carries the criterion in use")
       \cup If(e.done, "the estimation stops when its criterion holds")
       \cup If(e.again, "the final message describes the final estimator")
       \cup (LET m == e.msg IN
             IF ~m.text THEN {"a message is text"}
             ELSE IF e.f.k \in {"or", "and", "not", "every"} \/ e.fn = "xtrace" THEN {}
             ELSE If(Len(m.est) > 0 /\ Shows(m.est, e.est.v, "0"), "the final message shows the final estimate")
                  \cup If(Count(m, e.nit), "the final message shows the number of samples"))
       \cup (IF ~e.cb THEN {}
             ELSE If(Grow(e), "the result grows by one batch at a time")
                  \cup If(\A i \in 1..Len(e.seen) : e.seen[i].nit = e.seen[i].len /\ e.seen[i].est.v = e.seen[i].eest.v, "a published result describes the estimator")
                  \cup If(e.seen # << >> => e.seen[Len(e.seen)].nit = e.nit /\ e.seen[Len(e.seen)].est.v = e.est.v, "the last published result is the final one"))

Step(s, e) ==
  CASE e.op = "new"    -> [st |-> [o |-> New(e)], bad |-> {}]
    [] e.op = "update" -> [st |-> [o |-> Feed(s.o, e.rows)], bad |-> If(e.ok, "update is accepted")]
    [] e.op = "message" -> [st |-> s, bad |-> IF ~e.ok THEN {"a criterion describes itself"}
                                              ELSE Said(s.o, e.f, e.msg) \cup If(e.same, "a message is repeatable")
                                                   \cup If(e.untouched, "a message does not change the estimator")]
    [] e.op = "loop" -> [st |-> s, bad |-> Loop(s, e)]
    [] e.op = "info" -> [st |-> s, bad |-> If(e.apart, "a new result carries no notes") \cup If(e.empty, "an empty result is empty")]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
