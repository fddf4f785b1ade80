-------------------------------- MODULE TrWork --------------------------------
(* Recorded calls with operators that count: e.cols is the number of vectors *)
(* multiplied during the event, e.form whether all of them came as finite    *)
(* blocks of the right height, from the calling thread, with the call still  *)
(* going on; e.marks are the numbers at the callbacks.                       *)
EXTENDS TraceKit, Krylov, Work

Fresh(cfg) == [none |-> TRUE]

(* the dimension of the Krylov space of v, taken as whole where rounding could hide its end *)
Grade(e, v) ==
  LET K == TLCEval(Expand(e.A, v, e.c.dim)) g == Len(K)
      sure == RLt(RMul(RMul(64 * e.c.dim, "1/4503599627370496"), Amp(e.A, K, g)), "1/1000000000")
  IN IF \A i \in DOMAIN v : v[i] = "0" THEN 1 ELSE IF sure THEN g ELSE e.c.dim
Reach(e) == FoldLeft(LAMBDA t, v : t + Lesser(Steps(e.c), Grade(e, v)), 0, e.V)
Step(s, e) ==
  [st |-> s,
   bad |-> IF ~e.ok /\ e.op \notin {"xtrace", "xdiag"} THEN {"the call succeeds"}  \* those refuse images that are dependent
           ELSE If(e.cols <= Bound(e.c, IF e.ok THEN e.nit ELSE e.c.dim), "no more products are made than documented")
                \cup If(e.cols = 0 \/ e.form, "products are asked for with finite blocks of vectors of the dimension, by the calling thread")
                \cup If(\A i \in DOMAIN e.marks : e.marks[i][2] <= Bound(e.c, e.marks[i][1]), "no products are made ahead")
                \cup If(~Has(e, "A") \/ e.cols <= Reach(e), "no product is made once the Krylov space is exhausted")]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
