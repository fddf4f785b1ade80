------------------------------- MODULE MCHutch -------------------------------
(* All runs of the two loops for small operators, vectors and criteria.     *)
EXTENDS Hutch, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Algs, Batches, MaxDraws, Which, EMIT

VARIABLES c, o, W, phase, sats, pend
vars == <<c, o, W, phase, sats, pend>>

Mats == << << <<"2", "1">>, <<"1", "-1">> >>, << <<"0", "3">>, <<"3", "0">> >>, << <<"4", "0">>, <<"0", "1/2">> >> >>
Vecs == { <<"1", "1">>, <<"1", "-1">>, <<"-1", "1">>, <<"2", "1">> }
Cap  == [k |-> "count", c |-> 5]
Crits == << [k |-> "count", c |-> 1], [k |-> "count", c |-> 3],
            [k |-> "or", a |-> Cap, b |-> [k |-> "conf", lev |-> "0.9", atol |-> "3", rtol |-> "0"]],
            [k |-> "or", a |-> Cap, b |-> [k |-> "and", a |-> [k |-> "count", c |-> 2], b |-> [k |-> "tol", atol |-> "1/2", rtol |-> "0", ord |-> "2"]]],
            [k |-> "or", a |-> Cap, b |-> [k |-> "tol", atol |-> "0", rtol |-> "1/4", ord |-> "1"]] >>
CritOk(alg, f) == alg = "hutch" \/ ~(f.k = "or" /\ f.b.k = "conf")

Init == /\ \E alg \in Algs, i \in DOMAIN Mats, k \in Which, b \in Batches, cb \in BOOLEAN, full \in BOOLEAN :
             /\ CritOk(alg, Crits[k])
             /\ (alg = "diag" => b = 1)
             /\ c = [alg |-> alg, A |-> Mats[i], f |-> Crits[k], batch |-> b, cb |-> cb, full |-> full]
             /\ o = (IF alg = "hutch" THEN NewObj("estcov", 1, TRUE) ELSE NewObj("est", 2, TRUE))
        /\ W = << >> /\ phase = "loop" /\ sats = << >> /\ pend = FALSE

Size == IF c.alg = "hutch" /\ (c.cb \/ c.full) THEN c.batch ELSE 1
Draw(vs) ==
  /\ phase = "loop" /\ ~pend /\ Sat(o, c.f, "0") # "T" /\ Len(W) < MaxDraws
  /\ W' = W \o vs
  /\ o' = IF c.alg = "hutch" THEN HutchStep(o, c.A, vs) ELSE DiagStep(o, c.A, W \o vs)
  /\ sats' = Append(sats, Sat(o, c.f, "0"))
  /\ pend' = c.cb
  /\ UNCHANGED <<c, phase>>
Callback == /\ phase = "loop" /\ pend /\ pend' = FALSE /\ UNCHANGED <<c, o, W, phase, sats>>
Return   == /\ phase = "loop" /\ ~pend /\ Sat(o, c.f, "0") = "T" /\ phase' = "done" /\ UNCHANGED <<c, o, W, sats, pend>>
Next == (\E vs \in [1..Size -> Vecs] : Draw(vs)) \/ Callback \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties
Definition ==
  Len(W) > 0 =>
    IF c.alg = "hutch"
    THEN o.acc.mu[1] = RDiv(RSum([i \in 1..Len(W) |-> QuadForm(W[i], c.A)]), Len(W))
    ELSE o.acc.mu = VScale(RDiv(1, Len(W)), SumRows([k \in 1..Len(W) |-> DiagRow(c.A, SubSeq(W, 1, k))]))
Counted    == o.acc.n = Len(W)
StopsFirst == (\A i \in DOMAIN sats : sats[i] # "T") /\ (phase = "done" => Sat(o, c.f, "0") = "T")
DiagExact  == (c.alg = "diag" /\ c.A[1][2] = "0" /\ Len(W) > 0) => o.acc.mu = MDiag(c.A)
BoundOk    == RLe(VMaxAbs(o.acc.mu), o.acc.m)
Terminates == <>(phase = "done")

Emit == (EMIT /\ phase = "done") => PrintT("@HIST " \o ToJson([c |-> c, W |-> W]))
=============================================================================
