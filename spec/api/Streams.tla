------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* Sources of randomness as a caller sees them.  A stream is known by what *)
(* it was seeded with, the calls that have drawn from it, and the number   *)
(* of children it has spawned.  An integer seed stands for a new stream; a *)
(* generator is a stream the caller keeps, and every call it is handed to  *)
(* continues it.  A call is known by the function and all its arguments.   *)
(***************************************************************************)
EXTENDS Sequences, Naturals

NewStream(seed) == [seed |-> seed, drawn |-> << >>, kids |-> 0]
Drawn(g, call)  == [g EXCEPT !.drawn = Append(@, call)]
Spawned(g, t)   == [g EXCEPT !.kids = @ + t]

(* what the result of a call may depend on *)
Key(call, g)         == [call |-> call, seed |-> g.seed, drawn |-> g.drawn, kids |-> 0, fill |-> 0]
ChildKey(call, g, k) == [call |-> call, seed |-> g.seed, drawn |-> << >>, kids |-> g.kids + 1, fill |-> k]
FixedKey(call)       == [call |-> call, seed |-> "", drawn |-> << >>, kids |-> 0, fill |-> 0]

Before(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* equal keys: equal results.  Keys that stand for disjoint parts of streams: different results *)
Apart(k, l) == /\ k.call = l.call
               /\ \/ k.seed # l.seed
                  \/ Before(k.drawn, l.drawn) \/ Before(l.drawn, k.drawn)
                  \/ k.kids # l.kids \/ k.fill # l.fill
=============================================================================
