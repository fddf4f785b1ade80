------------------------------- MODULE TrTrace -------------------------------
(* Recorded estimations of stored matrices.                                 *)
EXTENDS TraceRun

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
