------------------------------- MODULE TrTurns -------------------------------
(* Recorded runs: each job alone, and all of them taking turns.  What a job *)
(* hands out at its j-th pause and what it returns must be the same.        *)
EXTENDS TraceKit

None == [pauses |-> << >>, v |-> << >>, known |-> FALSE]
Fresh(cfg) == [alone |-> [p \in 1..cfg.jobs |-> None], here |-> [p \in 1..cfg.jobs |-> None]]

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Agree(a, t) == If(a.pauses = t.pauses, "the same products and draws are asked for as alone, in the same order")
               \cup If(a.v = t.v, "the result is the one obtained alone")

Step(s, e) ==
  CASE e.op = "alone" -> LET a == [pauses |-> e.pauses, v |-> e.v, known |-> TRUE]
                         IN [st |-> [s EXCEPT !.alone[e.p] = a],
                             bad |-> If(e.ok, "the call succeeds") \cup (IF s.here[e.p].known THEN Agree(a, s.here[e.p]) ELSE {})]
    [] e.op = "turn"  -> LET h == [s.here[e.p] EXCEPT !.pauses = Append(@, e.x)]
                         IN [st |-> [s EXCEPT !.here[e.p] = h],
                             bad |-> If(~s.here[e.p].known, "no turn is taken after the end")
                                     \cup If(~s.alone[e.p].known \/ Prefix(h.pauses, s.alone[e.p].pauses), "the same products and draws are asked for as alone, in the same order")]
    [] e.op = "end"   -> LET h == [s.here[e.p] EXCEPT !.v = e.v, !.known = TRUE]
                         IN [st |-> [s EXCEPT !.here[e.p] = h],
                             bad |-> If(e.ok, "the call succeeds") \cup (IF s.alone[e.p].known THEN Agree(s.alone[e.p], h) ELSE {})]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
