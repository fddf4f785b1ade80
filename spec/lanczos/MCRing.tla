------------------------------- MODULE MCRing -------------------------------
(***************************************************************************)
(* The Lanczos vectors live in a ring of ncv columns, which at the start   *)
(* hold whatever an earlier expansion left there.  A column is a label:    *)
(* "stale", "zero", or the number of a vector of the current expansion.    *)
(* Refinement: every read of the recurrence and of the re-orthogonali-     *)
(* zation finds the vector of the abstract process (Krylov) it stands for. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDeg, EMIT
VARIABLES deg, ncv, orth, grade, buf, pos, j, ph

vars == <<deg, ncv, orth, grade, buf, pos, j, ph>>
Stale == -2
Zero  == -1
Init ==
  /\ deg \in 1..MaxDeg
  /\ ncv \in {n \in 1..deg : n >= 2 \/ deg = 1}
  /\ orth \in 0..ncv
  /\ grade \in 1..deg                       \* the process may find an invariant subspace at any step
  /\ buf = [i \in 0..(ncv - 1) |-> Stale]
  /\ pos = <<ncv - 1, 0, 1>> /\ j = 0 /\ ph = "load"
Load ==   \* the previous vector is zero, the current one the normalized start vector, in this order
  /\ ph = "load" /\ ph' = "step"
  /\ buf' = [[buf EXCEPT ![pos[1]] = Zero] EXCEPT ![0] = 0]
  /\ UNCHANGED <<deg, ncv, orth, grade, pos, j>>
Window(c, p) == {(c - i) % ncv : i \in 0..(p - 1)}
Step ==
  /\ ph = "step"
  /\ IF j + 1 = deg \/ j + 1 = grade
     THEN ph' = "done" /\ UNCHANGED <<buf, pos, j>>
     ELSE /\ buf' = [buf EXCEPT ![pos[3]] = j + 1]
          /\ pos' = <<pos[2], pos[3], (j + 2) % ncv>>
          /\ j' = j + 1 /\ UNCHANGED ph
  /\ UNCHANGED <<deg, ncv, orth, grade>>
Next == Load \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Min(a, b) == IF a < b THEN a ELSE b
Current  == ph = "step" => buf[pos[2]] = j
Previous == (ph = "step" /\ j > 0) => buf[pos[1]] = j - 1
(* with the first coupling zero the previous vector of the first step does not count, but must be finite *)
First    == (ph = "step" /\ j = 0) => buf[pos[1]] # Stale
Reorth   == ph = "step" => \A i \in Window(pos[2], Min(orth, j + 1)) : buf[i] \in 0..j
Distinct == ph = "step" => Cardinality({buf[i] : i \in Window(pos[2], Min(orth, j + 1))}) = Cardinality(Window(pos[2], Min(orth, j + 1)))
(* the newest vectors are kept: with full re-orthogonalization all of them *)
Recent   == ph = "step" => {buf[i] : i \in 0..(ncv - 1)} \ {Stale, Zero} = {i \in 0..j : i > j - ncv}
(* with as many columns as steps the ring is the basis *)
Basis    == (ph = "done" /\ ncv = deg) => \A i \in 0..j : buf[i] = i
Ends     == <>(ph = "done")
Emit     == EMIT /\ ph = "done" => PrintT("@HIST " \o ToJson([deg |-> deg, ncv |-> ncv, orth |-> orth, grade |-> grade]))
=============================================================================
