----------------------------- MODULE MCStreams -----------------------------
(***************************************************************************)
(* The design behind Streams: generators are cells of a heap that hold a   *)
(* root and a position; drawing k numbers moves the position by k; an      *)
(* integer seed allocates a new cell, a generator is a reference to its    *)
(* cell, a factory keeps a reference, and a threaded sampler keeps new     *)
(* cells rooted at children of the cell it was given.  The global          *)
(* generator is a cell nothing refers to.                                  *)
(***************************************************************************)
EXTENDS Streams, Json, TLC, SequencesExt

CONSTANTS Seeds, Names, Calls, Depth, EMIT
VARIABLES heap, gens, abs, facts, isos, res, log
vars == <<heap, gens, abs, facts, isos, res, log>>
GLOBAL == 1
Cell(root) == [root |-> root, pos |-> 0, kids |-> 0]
Segment(c, k) == <<c.root, c.pos, k>>
Move(c, k) == [c EXCEPT !.pos = @ + k]

Init == \E seed \in [Names -> Seeds] :
        LET ns == SetToSeq(Names)
        IN /\ heap = <<Cell(<<"global">>)>> \o [i \in 1..Len(ns) |-> Cell(<<seed[ns[i]]>>)]
           /\ gens = [n \in Names |-> CHOOSE i \in 2..(Len(ns) + 1) : ns[i - 1] = n]
           /\ abs = [n \in Names |-> NewStream(seed[n])]
           /\ facts = << >> /\ isos = << >> /\ res = {} /\ log = << >>

Note(r) == res' = res \cup {r}
Log(o)  == log' = IF EMIT THEN Append(log, o) ELSE Append(log, 0)
More    == Len(log) < Depth

WithInt(k, s) == /\ heap' = Append(heap, Move(Cell(<<s>>), k))
                 /\ Note([key |-> Key(k, NewStream(s)), seg |-> <<Segment(Cell(<<s>>), k)>>])
                 /\ Log([op |-> "call", call |-> k, int |-> s])
                 /\ UNCHANGED <<gens, abs, facts, isos>>
WithGen(k, n) == LET i == gens[n]
                 IN /\ heap' = [heap EXCEPT ![i] = Move(@, k)]
                    /\ Note([key |-> Key(k, abs[n]), seg |-> <<Segment(heap[i], k)>>])
                    /\ abs' = [abs EXCEPT ![n] = Drawn(@, k)]
                    /\ Log([op |-> "call", call |-> k, gen |-> n])
                    /\ UNCHANGED <<gens, facts, isos>>
(* one factory, holding the cell of a generator *)
MakeFact(n)   == /\ facts = << >> /\ facts' = <<n>>
                 /\ Log([op |-> "make", gen |-> n]) /\ UNCHANGED <<heap, gens, abs, isos, res>>
UseFact(k)    == /\ facts # << >>
                 /\ LET n == facts[1]
                        i == gens[n]
                    IN /\ heap' = [heap EXCEPT ![i] = Move(@, k)]
                       /\ Note([key |-> Key(k, abs[n]), seg |-> <<Segment(heap[i], k)>>])
                       /\ abs' = [abs EXCEPT ![n] = Drawn(@, k)]
                 /\ Log([op |-> "use", call |-> k]) /\ UNCHANGED <<gens, facts, isos>>
(* a sampler with two threads: two children of the cell *)
MakeIso(n)    == /\ Len(isos) < 2
                 /\ LET i == gens[n]
                        c == heap[i]
                        kid(j) == Cell(Append(c.root, c.kids + j))
                    IN /\ heap' = [heap EXCEPT ![i] = [@ EXCEPT !.kids = @ + 2]] \o <<kid(1), kid(2)>>
                       /\ isos' = Append(isos, [at |-> Len(heap) + 1, from |-> abs[n], fills |-> 0])
                       /\ abs' = [abs EXCEPT ![n] = Spawned(@, 2)]
                 /\ Log([op |-> "iso", gen |-> n]) /\ UNCHANGED <<gens, facts, res>>
FillIso(x)    == /\ LET s == isos[x]
                        a == s.at
                    IN /\ heap' = [heap EXCEPT ![a] = Move(@, 1), ![a + 1] = Move(@, 1)]
                       /\ Note([key |-> ChildKey(0, s.from, s.fills), seg |-> <<Segment(heap[a], 1), Segment(heap[a + 1], 1)>>])
                       /\ isos' = [isos EXCEPT ![x].fills = @ + 1]
                 /\ Log([op |-> "fill", iso |-> x]) /\ UNCHANGED <<gens, abs, facts>>

Next == /\ More
        /\ \/ \E k \in Calls, s \in Seeds : WithInt(k, s)
           \/ \E k \in Calls, n \in Names : WithGen(k, n)
           \/ \E n \in Names : MakeFact(n)
           \/ \E k \in Calls : UseFact(k)
           \/ \E n \in Names : MakeIso(n)
           \/ \E x \in DOMAIN isos : FillIso(x)

Determined == \A r, t \in res : r.key = t.key => r.seg = t.seg
Distinct   == \A r, t \in res : Apart(r.key, t.key) => r.seg # t.seg
(* the parts of one generator's stream that its calls get never overlap *)
Disjoint   == \A n \in Names : \A r, t \in {x \in res : x.key.seed = abs[n].seed /\ x.key.kids = 0 /\ Before(x.key.drawn, abs[n].drawn)} :
                Before(r.key.drawn, t.key.drawn) /\ Before(Append(r.key.drawn, r.key.call), Append(t.key.drawn, t.key.call))
                /\ t.key.drawn[Len(r.key.drawn) + 1] = r.key.call
                => r.seg[1][2] + r.seg[1][3] <= t.seg[1][2]
GlobalKept == heap[GLOBAL] = Cell(<<"global">>)
(* generators with the same seed and calls are in the same state *)
Agree      == \A m, n \in Names : abs[m] = abs[n] => heap[gens[m]] = heap[gens[n]]
Consumed   == [][\A n \in Names : (heap'[gens[n]].pos # heap[gens[n]].pos) = (abs'[n].drawn # abs[n].drawn)]_vars
Emit       == ~(EMIT /\ ~More) \/ PrintT("@HIST " \o ToJson([seeds |-> [n \in Names |-> abs[n].seed], ops |-> log]))
=============================================================================
