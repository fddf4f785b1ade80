----------------------------- MODULE TrStreams -----------------------------
(* Recorded interleavings of randomized calls.                             *)
EXTENDS TraceKit, Streams

Fresh(c) == [gens |-> [n \in DOMAIN c.gens |-> NewStream(c.gens[n])], facts |-> << >>, isos |-> << >>, res |-> << >>]
TOL == "1/1000000"
Alike(x, y) == Len(x) = Len(y) /\ LET m == RMax("1", VMaxAbs(x)) IN VNear(x, y, RMul(TOL, m))

(* the generators that may move: e.used is the one handed over (or held by the object used), "" if none *)
Quiet(e, moves) ==
  If(e.globals, "the global random state is untouched")
  \cup If(\A n \in DOMAIN e.before : n = moves \/ e.before[n] = e.after[n], "no other generator is touched")
  \cup If(moves = "" \/ e.before[moves] # e.after[moves], "a generator is consumed")
Answer(s, e, key) ==
  If(\A i \in DOMAIN s.res : s.res[i].key # key \/ Alike(s.res[i].v, e.v), "the same seed and arguments give the same result")
  \cup If(~e.rich \/ \A i \in DOMAIN s.res : ~Apart(s.res[i].key, key) \/ s.res[i].v # e.v, "different seeds and later draws give different results")
Remember(s, e, key) == [s EXCEPT !.res = Append(@, [key |-> key, v |-> e.v])]

(* the stream a seed argument stands for *)
Stream(s, e) == CASE e.kind = "int" -> NewStream(e.seed) [] e.kind = "gen" -> s.gens[e.seed] [] OTHER -> NewStream("?" \o ToString(l))
GenOf(e) == IF e.kind = "gen" THEN e.seed ELSE ""
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

CallStep(s, e) ==
  LET g == Stream(s, e)
      key == TLCEval(IF e.kind = "fixed" THEN FixedKey(e.key) ELSE Key(e.key, g))
      s1 == Remember(s, e, key)
  IN [st |-> IF e.kind = "gen" THEN [s1 EXCEPT !.gens[e.seed] = Drawn(g, e.key)] ELSE s1,
      bad |-> Quiet(e, GenOf(e)) \cup Answer(s, e, key)]
(* factories: keep a reference to the generator, or their own stream *)
MakeStep(s, e) ==
  [st |-> [s EXCEPT !.facts = Put(@, e.obj, [gen |-> GenOf(e), own |-> Stream(s, e)])], bad |-> If(e.globals, "the global random state is untouched") \cup If(e.before = e.after, "making a factory draws nothing")]
UseStep(s, e) ==
  LET f == s.facts[e.obj]
      g == IF f.gen = "" THEN f.own ELSE s.gens[f.gen]
      key == TLCEval(Key(e.key, g))
      s1 == Remember(s, e, key)
  IN [st |-> IF f.gen = "" THEN [s1 EXCEPT !.facts[e.obj].own = Drawn(g, e.key)] ELSE [s1 EXCEPT !.gens[f.gen] = Drawn(g, e.key)],
      bad |-> Quiet(e, f.gen) \cup Answer(s, e, key)]
(* samplers with one thread draw from the stream itself, with more from new children of it *)
IsoStep(s, e) ==
  LET g == Stream(s, e)
      o == [gen |-> GenOf(e), own |-> g, threads |-> e.threads, fills |-> 0]
  IN [st |-> IF e.kind = "gen" /\ e.threads > 1 THEN [s EXCEPT !.isos = Put(@, e.obj, o), !.gens[e.seed] = Spawned(g, e.threads)] ELSE [s EXCEPT !.isos = Put(@, e.obj, o)],
      bad |-> If(e.globals, "the global random state is untouched")
              \cup If(\A n \in DOMAIN e.before : (n = GenOf(e) /\ e.threads > 1) \/ e.before[n] = e.after[n], "no other generator is touched")]
FillStep(s, e) ==
  LET o == s.isos[e.obj]
      g == IF o.gen = "" THEN o.own ELSE s.gens[o.gen]
      many == o.threads > 1
      key == TLCEval(IF many THEN ChildKey(e.key, o.own, o.fills) ELSE Key(e.key, g))
      s1 == Remember([s EXCEPT !.isos[e.obj].fills = @ + 1], e, key)
  IN [st |-> IF many THEN s1 ELSE IF o.gen = "" THEN [s1 EXCEPT !.isos[e.obj].own = Drawn(g, e.key)] ELSE [s1 EXCEPT !.gens[o.gen] = Drawn(g, e.key)],
      bad |-> Quiet(e, IF many THEN "" ELSE o.gen) \cup Answer(s, e, key)]

Step(s, e) ==
  IF ~e.ok THEN [st |-> s, bad |-> {"the call succeeds"}]
  ELSE CASE e.op = "call"    -> CallStep(s, e)
         [] e.op = "make"    -> MakeStep(s, e)
         [] e.op = "use"     -> UseStep(s, e)
         [] e.op = "iso"     -> IsoStep(s, e)
         [] e.op = "fill"    -> FillStep(s, e)
         [] e.op = "import"  -> [st |-> s, bad |-> If(e.globals, "the global random state is untouched")]
         [] e.op = "perturb" -> [st |-> s, bad |-> {}]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
