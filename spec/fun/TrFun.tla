-------------------------------- MODULE TrFun --------------------------------
(* Recorded evaluations of spectral functions.                              *)
EXTENDS SpectralFun, TraceKit

Fresh(cfg) == [none |-> TRUE]
Eps(e) == IF e.prec = 32 THEN "1/8388608" ELSE EPSF

EvalStep(e) ==
  IF ~e.ok THEN {"the function is available"}
  ELSE IF e.y.sh # <<Len(e.x)>> THEN {"one value per argument is returned"}
  ELSE If(\A i \in 1..Len(e.x) : RNear(e.y.v[i], F(e.f, e.x[i]), FTol(e.f, e.x[i], Eps(e))), "the values are those of the function named")
       \cup If(e.kept, "the argument is left alone")
       \cup If(e.repeat, "evaluating again gives the same values")

ResolveStep(e) ==
  CASE e.what = "unknown"  -> If(~e.ok, "unknown names are refused")
    [] e.what = "known"    -> If(e.ok /\ e.callable, "every documented name resolves to a function")
    [] e.what = "callable" -> If(e.ok /\ e.same, "callables resolve to themselves")
    [] e.what = "none"     -> If(e.ok /\ ObsVec(e.y, e.x, "0"), "no name means the identity")

Step(s, e) ==
  CASE e.op = "eval"    -> [st |-> s, bad |-> EvalStep(e)]
    [] e.op = "hold"    -> [st |-> s, bad |-> If(e.ok, "the function is available")]
    [] e.op = "resolve" -> [st |-> s, bad |-> ResolveStep(e)]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
