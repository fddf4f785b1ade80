------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What criteria print about an estimator, and what a full result says     *)
(* about the computation it belongs to.                                    *)
(*                                                                         *)
(* A printed number is [p |-> its value, d |-> its decimals]; the printed  *)
(* summary of an estimate is a sequence of printed numbers, in which the   *)
(* value "..." stands for entries left out.                                *)
(***************************************************************************)
EXTENDS Criteria

Pow10(d) == RPow(10, d)
Printed(x, d) == RDiv(RFloor(RAdd(RMul(x, Pow10(d)), "1/2")), Pow10(d))    \* x with d decimals
Unit(d) == RDiv(1, RMul(2, Pow10(d)))                                      \* half a unit of the last decimal
(* t: what the computed number may differ from x; the last term is the rounding of the conversion itself *)
Reads(q, x, t) == IF ~RFinite(x) THEN q.p = x
                  ELSE RFinite(q.p) /\ RNear(q.p, x, RSum(<<Unit(q.d), t, RMul("1/1000000000000", RAdd("1", RAbs(x)))>>))

(* The summary shows all entries, or the first few, "..." and the last few *)
Shows(sum, v, t) ==
  LET gaps == {i \in 1..Len(sum) : sum[i].p = "..."}
  IN IF gaps = {} THEN Len(sum) = Len(v) /\ \A i \in 1..Len(v) : sum[i].d >= 2 /\ Reads(sum[i], v[i], t)
     ELSE /\ Cardinality(gaps) = 1
          /\ LET g == CHOOSE i \in gaps : TRUE
                 after == Len(sum) - g
             IN /\ g > 1 /\ after > 0 /\ g - 1 + after < Len(v)
                /\ \A i \in 1..g - 1 : sum[i].d >= 2 /\ Reads(sum[i], v[i], t)
                /\ \A i \in 1..after : sum[g + i].d >= 2 /\ Reads(sum[g + i], v[Len(v) - after + i], t)
(* the summary as the design prints it: at most three entries in full *)
Summary(v) == LET P(x) == [p |-> Printed(x, IF Len(v) = 1 THEN 3 ELSE 2), d |-> IF Len(v) = 1 THEN 3 ELSE 2]
              IN IF Len(v) <= 3 THEN [i \in 1..Len(v) |-> P(v[i])]
                 ELSE <<P(v[1]), P(v[2]), [p |-> "...", d |-> 2], P(v[Len(v)])>>

(* The full result of an estimation loop: what is published after every batch and at the end *)
NoResult == [nit |-> 0, est |-> "0", msg |-> "", fin |-> FALSE]
Publish(r, n, est) == [r EXCEPT !.nit = n, !.est = est]
Finished(r, n, est, msg) == [nit |-> n, est |-> est, msg |-> msg, fin |-> TRUE]
=============================================================================
