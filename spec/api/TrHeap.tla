------------------------------- MODULE TrHeap -------------------------------
(* Recorded calls on shared arrays.                                         *)
EXTENDS TraceKit, Heap

Fresh(c) == [heap |-> << >>, ans |-> << >>]
Near(x, y) == x = y \/ (RFinite(x) /\ RFinite(y) /\ RNear(x, y, RMul("1/1000000000", RMax("1", RAbs(x)))))
Same(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Near(x[i], y[i])

Inputs(s, e, but)  == If(Unchanged(s.heap, e.heap, but), IF e.op = "scribble" THEN "writing one array changes no other" ELSE "only documented outputs are written")
Objects(s, e, but) == If(\A o \in DOMAIN s.ans : o \in but \/ Same(s.ans[o], e.ans[o]), "objects change only by their own updates")
Written(e) == {e.outs[k] : k \in DOMAIN e.outs \cap Outputs(e.fn)}
(* results may share memory only with arrays documented as outputs of this very call *)
Shared(e) == If(\A i \in DOMAIN e.shares : e.shares[i][2] \in {e.outs[k] : k \in DOMAIN e.outs}, "results share no memory with arguments or other results")

Step(s, e) ==
  LET next == [heap |-> Extend(s.heap, e.heap), ans |-> Extend(s.ans, e.ans)]
  IN [st |-> next,
      bad |-> CASE e.op = "new"      -> Inputs(s, e, {}) \cup Objects(s, e, {})
                [] e.op = "scribble" -> Inputs(s, e, {e.x}) \cup Objects(s, e, {})
                [] OTHER             -> If(e.ok, "the call succeeds")
                                        \cup Inputs(s, e, IF e.op = "call" THEN Written(e) ELSE {})
                                        \cup Objects(s, e, IF e.op = "update" \/ e.op = "make" THEN {e.obj} ELSE {})
                                        \cup Shared(e)
                                        \cup If(e.kept, "what callbacks were given and what functions and distributions returned stays as it was")]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
