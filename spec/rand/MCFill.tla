------------------------------- MODULE MCFill -------------------------------
EXTENDS Fill, Json, TLC, SequencesExt

CONSTANTS MaxM, MaxT, Rounds, Passes, EMIT
VARIABLES M, T, round, todo, pos, cols, ret, sched
vars == <<M, T, round, todo, pos, cols, ret, sched>>

None == [stream |-> 0, at |-> 0, pass |-> 0]
(* the steps of a task: pass p over each of its columns *)
StepsOf(i) == LET B == SetToSortSeq(Block(M, T, i), LAMBDA x, y : x < y)
              IN [s \in 1..(Len(B) * Passes) |-> [col |-> B[((s - 1) % Len(B)) + 1], pass |-> ((s - 1) \div Len(B)) + 1]]

Init == /\ M \in 1..MaxM /\ T \in 1..MaxT
        /\ round = 1 /\ ret = FALSE /\ sched = << >>
        /\ todo = [i \in 1..T |-> StepsOf(i)]
        /\ pos = [i \in 1..T |-> 0]
        /\ cols = [j \in 1..M |-> None]
Work(i) == /\ ~ret /\ todo[i] # << >>
           /\ LET s == Head(todo[i])
              IN /\ cols' = [cols EXCEPT ![s.col] = IF s.pass = 1 THEN [stream |-> i, at |-> pos[i] + 1, pass |-> 1] ELSE [@ EXCEPT !.pass = @ + 1]]
                 /\ pos' = [pos EXCEPT ![i] = IF s.pass = 1 THEN @ + 1 ELSE @]
           /\ todo' = [todo EXCEPT ![i] = Tail(@)]
           /\ sched' = IF EMIT THEN Append(sched, i) ELSE sched
           /\ UNCHANGED <<M, T, round, ret>>
Return  == /\ ~ret /\ \A i \in 1..T : todo[i] = << >>
           /\ ret' = TRUE /\ UNCHANGED <<M, T, round, todo, pos, cols, sched>>
Again   == /\ ret /\ round < Rounds
           /\ round' = round + 1 /\ ret' = FALSE /\ todo' = [i \in 1..T |-> StepsOf(i)]
           /\ UNCHANGED <<M, T, pos, cols, sched>>
Next == Return \/ Again \/ \E i \in 1..T : Work(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Partition == /\ UNION {Block(M, T, i) : i \in 1..T} = 1..M
             /\ \A i, k \in 1..T : i # k => Block(M, T, i) \cap Block(M, T, k) = {}
             /\ \A j \in 1..M : j \in Block(M, T, Owner(M, T, j))
Complete  == ret => \A j \in 1..M : cols[j] = [stream |-> Draw(M, T, round, j).stream, at |-> Draw(M, T, round, j).at, pass |-> Passes]
NoSharing == \A j, k \in 1..M : j # k /\ cols[j].pass > 0 /\ cols[k].pass > 0 => <<cols[j].stream, cols[j].at>> # <<cols[k].stream, cols[k].at>>
Plain     == T = 1 /\ ret => \A j \in 1..M : cols[j].at = (round - 1) * M + j
Ends      == <>(ret /\ round = Rounds)
Emit      == ~(EMIT /\ ret /\ round = Rounds) \/ PrintT("@HIST " \o ToJson([m |-> M, t |-> T, sched |-> sched]))
=============================================================================
