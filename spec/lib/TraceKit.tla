------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Validation of recorded executions.  The trace is a file of JSON events, *)
(* one per line, recorded at the return of each public call; "begin"       *)
(* starts a new history (with its configuration), "died" records that the  *)
(* process executing the real code ended or hung.                          *)
(*                                                                         *)
(* A trace module supplies Fresh(cfg), the abstract state at the start of  *)
(* a history, and Step(s, e), which applies the specification's action for *)
(* event e and returns [st |-> next abstract state, bad |-> the set of     *)
(* names of the clauses the recorded observation violates].  The verdict   *)
(* is total: every event is consumed, every rejected clause is printed.    *)
(***************************************************************************)
EXTENDS LinAlg, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

VARIABLES l, st

Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP  == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE ""

TraceStart == l = 1 /\ st = [none |-> TRUE]

TraceStep(Fresh(_), Step(_, _)) ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         r == CASE e.op = "begin" -> [st |-> Fresh(e.cfg), bad |-> {}]
                [] e.op = "died"  -> [st |-> st, bad |-> {"the process executing the call died: " \o e.how}]
                [] OTHER          -> Step(st, e)
     IN /\ st' = r.st
        /\ l' = l + 1
        /\ IF r.bad = {} THEN TRUE ELSE PrintT("@BAD " \o ToJson([l |-> l, bad |-> SetToSeq(r.bad)]))

TraceAccepted == PrintT("@DONE " \o ToJson([n |-> TLCGet("stats").diameter - 1]))

(* Clauses: If(cond, name) is the empty set when cond holds, {name} otherwise *)
If(cond, name) == IF cond THEN {} ELSE {name}
Has(r, f) == f \in DOMAIN r

(* Recorded arrays: [sh |-> shape, v |-> flat data in row-major order]        *)
Vec(o)     == o.v
IsVec(o, n)    == o.sh = <<n>> /\ Len(o.v) = n
IsMat(o, n, m) == o.sh = <<n, m>> /\ Len(o.v) = n * m
Mat(o)     == [i \in 1..o.sh[1] |-> [j \in 1..o.sh[2] |-> o.v[(i - 1) * o.sh[2] + j]]]
AllFinite(o) == \A i \in 1..Len(o.v) : RFinite(o.v[i])
(* entrywise agreement of a recorded array with an exact one *)
ObsVec(o, x, tol) == IsVec(o, Len(x)) /\ VNear(o.v, x, tol)
ObsMat(o, A, tol) == IsMat(o, Rows(A), Cols(A)) /\ MNear(Mat(o), A, tol)
=============================================================================
