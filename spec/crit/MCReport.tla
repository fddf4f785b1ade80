------------------------------ MODULE MCReport ------------------------------
(* An estimation loop that publishes a result after every batch and a message at the end; *)
(* STALE describes a faulty loop whose final message and counts are taken one batch early; *)
(* CUT describes a faulty summary that leaves out the wrong end.                           *)
EXTENDS Report, TLC, FiniteSetsExt
CONSTANTS Vals, MaxN, MaxBatch, STALE, CUT

VARIABLES o, r, seen, phase, old, shown
vars == <<o, r, seen, phase, old, shown>>
Msg(x) == [n |-> x.acc.n, est |-> Printed(IF x.acc.n = 0 THEN "0" ELSE x.acc.mu[1], 3)]
Init == /\ o = NewObj("estcov", 1, FALSE) /\ r = NoResult /\ seen = << >> /\ phase = "loop" /\ old = o
        /\ \E k \in 1..5 : \E v \in [1..k -> Vals] : shown = [v |-> v, s |-> LET s == Summary(v) IN IF CUT /\ k > 3 THEN [s EXCEPT ![4] = [p |-> Printed(v[k - 1], 2), d |-> 2]] ELSE s]
Batch == /\ phase = "loop" /\ o.acc.n < MaxN
         /\ \E b \in 1..MaxBatch : \E B \in [1..b -> [1..1 -> Vals]] : old' = o /\ o' = Updated(o, B)
         /\ phase' = "publish" /\ UNCHANGED <<r, seen, shown>>
Out == /\ phase = "publish" /\ r' = Publish(r, o.acc.n, o.acc.mu[1]) /\ seen' = Append(seen, r') /\ phase' = "loop"
       /\ UNCHANGED <<o, old, shown>>
Stop == /\ phase = "loop" /\ o.acc.n >= MaxN
        /\ r' = LET x == IF STALE THEN old ELSE o IN Finished(r, x.acc.n, IF x.acc.n = 0 THEN "0" ELSE x.acc.mu[1], Msg(x))
        /\ phase' = "done" /\ UNCHANGED <<o, seen, old, shown>>
Next == Batch \/ Out \/ Stop

(* what is published describes the estimator as it is *)
Current == (phase = "loop" /\ seen # << >>) => /\ r.nit = o.acc.n /\ r.est = o.acc.mu[1]
Final == phase = "done" => /\ r.nit = o.acc.n /\ r.est = o.acc.mu[1] /\ r.msg.n = o.acc.n
                           /\ Reads([p |-> r.msg.est, d |-> 3], o.acc.mu[1], "0")
(* every batch was seen once, in order, with growing counts *)
Seen == /\ \A i \in 1..Len(seen) - 1 : seen[i].nit < seen[i + 1].nit
        /\ phase = "done" => seen[Len(seen)].nit = r.nit /\ seen[Len(seen)].est = r.est
(* the summary is faithful, and two estimates that differ visibly in a shown entry have different summaries *)
Faithful == Shows(shown.s, shown.v, "0")
Rounding == \A x \in Vals : \A d \in {2, 3, 6} :
              /\ Reads([p |-> Printed(x, d), d |-> d], x, "0")
              /\ Printed(Printed(x, d), d) = Printed(x, d)
              /\ ~Reads([p |-> RAdd(Printed(x, d), RDiv(2, Pow10(d))), d |-> d], x, "0")
=============================================================================
