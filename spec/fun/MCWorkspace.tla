---------------------------- MODULE MCWorkspace ----------------------------
(***************************************************************************)
(* A matrix-function operator computes every result in the same arrays.    *)
(* Each entry carries the number of the call that wrote it; a call finds   *)
(* an invariant subspace after g steps (its grade) and writes only so far. *)
(* Refinement of the memoryless operator: a call reads only what it wrote  *)
(* itself, uses the function current at its time, and returns fresh memory.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deg, MaxCalls, Grades, EMIT
VARIABLES al, be, q, fun, n, read, used, h

vars == <<al, be, q, fun, n, read, used, h>>
Init == /\ al = [i \in 1..Deg |-> 0] /\ be = [i \in 1..Deg |-> [by |-> 0, small |-> TRUE]]
        /\ q = [i \in 1..Deg |-> 0] /\ fun = 1 /\ n = 0 /\ read = {} /\ used = 0 /\ h = << >>
(* where an expansion ended: the first coupling that is negligible, or the degree *)
KDim(b) == LET S == {i \in 1..(Deg - 1) : b[i].small} IN IF S = {} THEN Deg ELSE CHOOSE i \in S : \A j \in S : i <= j
Expansion(g) ==
  /\ n' = n + 1
  /\ al' = [i \in 1..Deg |-> IF i <= g THEN n + 1 ELSE al[i]]
  /\ be' = [i \in 1..Deg |-> IF i <= g THEN [by |-> n + 1, small |-> i = g] ELSE be[i]]
Matvec(g) ==
  /\ Expansion(g)
  /\ q' = [i \in 1..Deg |-> IF i <= g THEN n + 1 ELSE 0]      \* cleared first
  /\ LET k == KDim(be') IN read' = {al'[i] : i \in 1..k} \cup {be'[i].by : i \in 1..(k - 1)} \cup {q'[i] : i \in 1..k}
Quad(g) ==
  /\ Expansion(g)
  /\ q' = [i \in 1..Deg |-> IF i <= g THEN n + 1 ELSE q[i]]
  /\ LET k == KDim(be') IN read' = {al'[i] : i \in 1..k} \cup {be'[i].by : i \in 1..(k - 1)}
Call ==
  /\ n < MaxCalls
  /\ \E g \in Grades : \E o \in {"matvec", "quad"} :
       /\ IF o = "matvec" THEN Matvec(g) ELSE Quad(g)
       /\ used' = fun /\ UNCHANGED fun
       /\ h' = Append(h, [o |-> o, g |-> g])
SetFun == /\ h # << >> /\ h[Len(h)].o # "setfun" /\ n < MaxCalls
          /\ fun' = 3 - fun /\ h' = Append(h, [o |-> "setfun", g |-> 0]) /\ UNCHANGED <<al, be, q, n, read, used>>
Next == Call \/ SetFun
Spec == Init /\ [][Next]_vars

OwnReads == n > 0 => read = {n}
LastFun  == (n > 0 /\ h[Len(h)].o # "setfun") => used = fun
KDimOk   == (n > 0 /\ h[Len(h)].o # "setfun") => KDim(be) = h[Len(h)].g
Emit     == (EMIT /\ n = MaxCalls) => PrintT("@HIST " \o ToJson(h))
=============================================================================
