----------------------------- MODULE TrCriteria -----------------------------
(* Recorded updates and decisions checked against Criteria.                 *)
EXTENDS Criteria, TraceKit

Fresh(cfg) == [o |-> << >>, p |-> << >>]     \* the estimator at hand, and another one put aside

Answer(s, e) == LET x == Sat(s.o, e.f, EPS) IN x = "U" \/ e.ans = x
Name(f) == CASE f.k = "count" -> "count criterion holds exactly at its count"
             [] f.k = "tol"   -> "tolerance criterion decides by the last change"
             [] f.k = "conf"  -> "confidence criterion decides by the margin of error"
             [] f.k = "knee"  -> "knee criterion decides by the height of the knee"
             [] OTHER         -> "composite criterion is the Boolean formula of its parts"

MarginSeen(s, e) ==    \* the margin printed with three decimals
  IF s.o.acc.n < 3 THEN e.margin \in {"inf", "none"}
  ELSE e.margin = "none" \/ RNear(e.margin, Margin(s.o, e.f.lev), RAdd("51/100000", RMul(RAdd("1/1000000", QRel(e.f.lev)), Margin(s.o, e.f.lev))))

Step(s, e) ==
  CASE e.op = "new"    -> [st |-> [s EXCEPT !.o = NewObj(e.k, e.dim, e.rec)], bad |-> {}]
    [] e.op = "swap"   -> [st |-> [o |-> s.p, p |-> s.o], bad |-> {}]
    [] e.op = "update" -> [st |-> [s EXCEPT !.o = Updated(s.o, e.rows)], bad |-> If(e.ok, "update is accepted")]
    [] e.op = "ask"    ->
         [st |-> s,
          bad |-> IF ~e.ok THEN {"asking a criterion succeeds"}
                  ELSE If(e.bool, "the answer of a criterion is a truth value")
                       \cup If(Answer(s, e), Name(e.f))
                       \cup If(e.same, "asking again gives the same answer")
                       \cup If(e.untouched, "asking does not change the estimator")]
    [] e.op = "resolve" ->
         \* a criterion obtained by name answers like the formula the name denotes
         LET x == Sat(s.o, Resolve(e.name, e.kw), EPS)
         IN [st |-> s, bad |-> IF ~e.ok THEN {"a criterion resolves by its name"}
                               ELSE If(x = "U" \/ e.ans = x, "a named criterion uses exactly the arguments it accepts")
                                    \cup If(e.ident, "a criterion object resolves to itself")]
    [] e.op = "refuse" -> [st |-> s, bad |-> If(~e.ok, "an unknown criterion is refused")]
    [] e.op = "message" -> [st |-> s, bad |-> IF ~e.ok THEN {"a criterion describes itself"}
                                              ELSE If(e.f.k # "conf" \/ MarginSeen(s, e), "the confidence message reports the margin of error")]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
