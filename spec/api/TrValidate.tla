----------------------------- MODULE TrValidate -----------------------------
EXTENDS TraceKit, Validate

Fresh(c) == [none |-> TRUE]
Zero(v) == v = <<"0">>
Step(s, e) ==
  LET v == Verdict(e.fn, e.o, e.a)
  IN [st |-> s,
      bad |-> If(v # "refuse" \/ ~e.ok, "what cannot be used is refused")
              \cup If(v # "answer" \/ e.ok, "what can be used is answered")
              \cup If(e.fn # "is_linear_op" \/ ~e.ok \/ e.v = <<IF Linear(e.o) THEN "true" ELSE "false">>, "the linear-operator test tells operators from other objects")
              \cup If(~(e.fn \in {"hutch", "hutchpp", "xtrace"} /\ v = "answer" /\ e.ok /\ e.o.s = "empty") \/ Zero(e.v), "the trace of an empty operator is zero")]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
