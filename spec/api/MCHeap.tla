------------------------------- MODULE MCHeap -------------------------------
(***************************************************************************)
(* A heap of blocks behind the names the caller sees.  FAULT = "none" is   *)
(* the design: results are copied out of object state, recorded samples    *)
(* are copied in, calls write new blocks.  The other values are the ways   *)
(* of sharing that must not be there; each is refuted by Agree.            *)
(***************************************************************************)
EXTENDS Heap, Sequences, Json, TLC

CONSTANTS Inputs, Depth, FAULT, EMIT
VARIABLES mem, at, obj, seen, state, log
vars == <<mem, at, obj, seen, state, log>>
(* mem: contents of blocks; at: name -> block; obj: the object's blocks; seen: name -> content the caller expects; state: the object's expected content *)

Alloc(c) == Append(mem, c)
New == Len(mem) + 1
Init == /\ mem = [i \in 1..(Inputs + 1) |-> <<i>>]
        /\ at = [i \in 1..Inputs |-> i]
        /\ obj = [cur |-> Inputs + 1, kept |-> << >>]
        /\ seen = [i \in 1..Inputs |-> <<i>>]
        /\ state = [cur |-> <<Inputs + 1>>, kept |-> << >>]
        /\ log = << >>
More == Len(log) < Depth
Log(o) == log' = Append(log, IF EMIT THEN o ELSE 0)
Return(b, m, c) == /\ mem' = m /\ at' = Append(at, b) /\ seen' = Append(seen, c)

Call(x) == /\ IF FAULT = "returns its argument" THEN Return(at[x], mem, mem[at[x]])
              ELSE IF FAULT = "works in place" THEN Return(New, Append([mem EXCEPT ![at[x]] = Append(@, 9)], Append(mem[at[x]], 1)), Append(mem[at[x]], 1))
              ELSE Return(New, Alloc(Append(mem[at[x]], 1)), Append(mem[at[x]], 1))
           /\ Log([op |-> "call", x |-> x]) /\ UNCHANGED <<obj, state>>
Update(x) == LET c == mem[obj.cur] \o <<2>> \o mem[at[x]]
                 m == [mem EXCEPT ![obj.cur] = c]
             IN /\ IF FAULT = "keeps its argument" THEN mem' = m /\ obj' = [obj EXCEPT !.kept = Append(@, at[x])]
                   ELSE mem' = Append(m, mem[at[x]]) /\ obj' = [obj EXCEPT !.kept = Append(@, New)]
                /\ state' = [cur |-> c, kept |-> Append(state.kept, mem[at[x]])]
                /\ Log([op |-> "update", x |-> x]) /\ UNCHANGED <<at, seen>>
Get == /\ IF FAULT = "returns its state" THEN Return(obj.cur, mem, mem[obj.cur]) ELSE Return(New, Alloc(mem[obj.cur]), mem[obj.cur])
       /\ Log([op |-> "get"]) /\ UNCHANGED <<obj, state>>
Scribble(x) == /\ mem' = [mem EXCEPT ![at[x]] = Append(@, 3)]
               /\ seen' = [seen EXCEPT ![x] = Append(@, 3)]
               /\ Log([op |-> "scribble", x |-> x]) /\ UNCHANGED <<at, obj, state>>
Next == More /\ (Get \/ \E x \in DOMAIN at : Call(x) \/ Update(x) \/ Scribble(x))

Agree == /\ \A x \in DOMAIN at : mem[at[x]] = seen[x]
         /\ mem[obj.cur] = state.cur
         /\ \A i \in DOMAIN obj.kept : mem[obj.kept[i]] = state.kept[i]
NoSharing == \A x, y \in DOMAIN at : x # y => at[x] # at[y] /\ at[x] # obj.cur
Emit == ~(EMIT /\ ~More) \/ PrintT("@HIST " \o ToJson([ops |-> log]))
=============================================================================
