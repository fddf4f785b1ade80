------------------------------- MODULE MCTurns -------------------------------
(***************************************************************************)
(* Computations in progress at the same time.  Each repeats: put its value *)
(* in a workspace, hand over control (an operator product, a draw, a       *)
(* callback), and go on from the workspace.  With workspaces of their own  *)
(* each ends as it would alone, whatever the order of turns; with one      *)
(* workspace for all (FAULT = "shared"), one per size ("bySize"), or one   *)
(* that a computation gives back while still using it ("early"), it does   *)
(* not.                                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS Procs, Steps, Sizes, FAULT, EMIT
VARIABLES x, ws, left, mid, start, size, steps, turns, own, free
vars == <<x, ws, left, mid, start, size, steps, turns, own, free>>

Advance(v, w) == (3 * v + 5 * w + 1) % 97
RECURSIVE Alone(_, _)
Alone(v, k) == IF k = 0 THEN v ELSE Alone(Advance(v, v), k - 1)

Init == /\ size \in [Procs -> Sizes]
        /\ steps \in [Procs -> Steps]
        /\ x = [p \in Procs |-> 7 * p + 1]
        /\ start = x
        /\ left = steps
        /\ mid = [p \in Procs |-> FALSE]
        /\ ws = << >>                       \* blocks
        /\ own = [p \in Procs |-> 0]
        /\ free = {}
        /\ turns = << >>

Sharer(p) == {q \in Procs : own[q] # 0 /\ (FAULT = "shared" \/ (FAULT = "bySize" /\ size[q] = size[p]))}
(* the block p works in from now on *)
Taken(p) == IF own[p] # 0 THEN own[p]
            ELSE IF Sharer(p) # {} THEN own[CHOOSE q \in Sharer(p) : TRUE]
            ELSE IF FAULT = "early" /\ free # {} THEN CHOOSE b \in free : TRUE
            ELSE Len(ws) + 1
Put(b, v) == IF b > Len(ws) THEN Append(ws, v) ELSE [ws EXCEPT ![b] = v]
Note(p) == turns' = IF EMIT THEN Append(turns, p) ELSE turns

Begin(p) == /\ ~mid[p] /\ left[p] > 0
            /\ LET b == Taken(p) IN /\ ws' = Put(b, x[p])
                                    /\ own' = [own EXCEPT ![p] = b]
                                    /\ free' = IF FAULT = "early" THEN free \cup {b} ELSE free
            /\ mid' = [mid EXCEPT ![p] = TRUE]
            /\ Note(p) /\ UNCHANGED <<x, left, start, size, steps>>
Finish(p) == /\ mid[p]
             /\ x' = [x EXCEPT ![p] = Advance(@, ws[own[p]])]
             /\ mid' = [mid EXCEPT ![p] = FALSE] /\ left' = [left EXCEPT ![p] = @ - 1]
             /\ Note(p) /\ UNCHANGED <<ws, own, free, start, size, steps>>
Next == \E p \in Procs : Begin(p) \/ Finish(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Begin(p) \/ Finish(p))

Over == \A p \in Procs : left[p] = 0
AsAlone == \A p \in Procs : ~mid[p] => x[p] = Alone(start[p], steps[p] - left[p])
OwnBlock == \A p, q \in Procs : p # q /\ own[p] # 0 => own[p] # own[q]
Ends == <>Over
Emit == ~(EMIT /\ Over) \/ PrintT("@HIST " \o ToJson([turns |-> turns, size |-> size]))
=============================================================================
