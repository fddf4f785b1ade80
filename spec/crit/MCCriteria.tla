----------------------------- MODULE MCCriteria -----------------------------
(* One recording estimator, its updates, and criteria asked at every moment. *)
EXTENDS Criteria, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Vals, MaxOps, MaxBatch, ALLASKS, EMIT

VARIABLES o, hist
vars == <<o, hist>>
View == <<o, Len(hist)>>

Basics == << [k |-> "count", c |-> 2], [k |-> "count", c |-> 4],
             [k |-> "tol", atol |-> "3/4", rtol |-> "0", ord |-> "2"],
             [k |-> "tol", atol |-> "0", rtol |-> "1/4", ord |-> "1"],
             [k |-> "conf", lev |-> "0.9", atol |-> "5/2", rtol |-> "0"],
             [k |-> "conf", lev |-> "0.95", atol |-> "0", rtol |-> "1/3"],
             [k |-> "knee", S |-> "1"], [k |-> "knee", S |-> "1/8"] >>
NB == Len(Basics)
Formulas == {Basics[i] : i \in 1..NB}
  \cup {[k |-> "or", a |-> Basics[i], b |-> Basics[j]] : i \in 1..NB, j \in 1..NB}
  \cup {[k |-> "not", a |-> [k |-> "and", a |-> Basics[i], b |-> [k |-> "not", a |-> Basics[j]]]] : i \in 1..NB, j \in 1..NB}

Init == o = NewObj("estcov", 1, TRUE) /\ hist = << >>
Room == Len(hist) < MaxOps
Update(B) == /\ Room /\ o' = Updated(o, B) /\ hist' = Append(hist, [op |-> "update", rows |-> B])
Ask(f)    == /\ Room /\ (hist # << >> => hist[Len(hist)].op # "ask") /\ o' = o
             /\ hist' = Append(hist, [op |-> "ask", f |-> f])
Batches == UNION {[1..b -> [1..1 -> Vals]] : b \in 1..MaxBatch}
Next == (\E B \in Batches : Update(B)) \/ (\E f \in (IF ALLASKS THEN Formulas ELSE {Basics[1], Basics[8]}) : Ask(f))
Spec == Init /\ [][Next]_vars

Ev(f) == Sat(o, f, "0")
TwoValued == \A i \in 1..NB : Ev(Basics[i]) \in {"T", "F"}
(* composite formulas obey the laws of Boolean algebra in the truth values of their parts *)
Boolean ==
  LET ev == [i \in 1..NB |-> Ev(Basics[i]) = "T"]
      N(x) == [k |-> "not", a |-> x]
      A(x, y) == [k |-> "and", a |-> x, b |-> y]
      O(x, y) == [k |-> "or", a |-> x, b |-> y]
  IN \A i \in 1..NB, j \in {1, 4, 6} :
       LET a == Basics[i]
           b == Basics[j]
       IN /\ (Ev(O(a, b)) = "T") = (ev[i] \/ ev[j])
          /\ (Ev(A(b, a)) = "T") = (ev[i] /\ ev[j])
          /\ (Ev(N(O(N(a), N(b)))) = "T") = (ev[i] /\ ev[j])
          /\ (Ev(N(N(a))) = "T") = ev[i]
          /\ Ev(O(a, N(a))) = "T"
FewSamples ==
  /\ o.acc.n = 0 => \A i \in 1..NB : Ev(Basics[i]) = "F"
  /\ o.acc.n < 3 => Ev(Basics[5]) = "F" /\ Ev(Basics[6]) = "F" /\ Ev(Basics[7]) = "F"
(* a count, once reached, stays reached; tighter tolerances are harder *)
Monotone ==
  /\ (Ev([k |-> "count", c |-> 4]) = "T" => Ev([k |-> "count", c |-> 2]) = "T")
  /\ (Ev([k |-> "conf", lev |-> "0.99", atol |-> "5/2", rtol |-> "0"]) = "T" => Ev(Basics[5]) = "T")
  /\ (Ev([k |-> "tol", atol |-> "1/2", rtol |-> "0", ord |-> "2"]) = "T" => Ev(Basics[3]) = "T")
  /\ (Ev(Basics[7]) = "T" => Ev(Basics[8]) = "T")
(* scaling the data together with the absolute tolerances, and shifting it for the knee, changes nothing *)
Map(g(_)) == LET vs == [i \in 1..Len(o.vals) |-> <<g(o.vals[i][1])>>] IN
             IF vs = << >> THEN NewObj("estcov", 1, TRUE)
             ELSE LET last == IF Len(hist) > 0 /\ hist[Len(hist)].op = "update" THEN Len(hist[Len(hist)].rows) ELSE 1
                      k == IF last = Len(vs) THEN 0 ELSE Len(vs) - last
                  IN IF k = 0 THEN Updated(NewObj("estcov", 1, TRUE), vs)
                     ELSE Updated(Updated(NewObj("estcov", 1, TRUE), SubSeq(vs, 1, k)), SubSeq(vs, k + 1, Len(vs)))
Equivariant ==
  LET s == Map(LAMBDA x : RMul("3/2", x))
      t == Map(LAMBDA x : RAdd("7", x))
  IN /\ Sat(s, [k |-> "conf", lev |-> "0.9", atol |-> "15/4", rtol |-> "0"], "0") = Ev(Basics[5])
     /\ Sat(s, Basics[6], "0") = Ev(Basics[6])
     /\ Sat(t, Basics[5], "0") = Ev(Basics[5])
     /\ \A i \in {7, 8} : Sat(t, Basics[i], "0") = Ev(Basics[i]) /\ Sat(s, Basics[i], "0") = Ev(Basics[i])
(* the rounding-tolerant decision never contradicts the exact one *)
BandSound == \A i \in 1..NB : Sat(o, Basics[i], EPS) \in {"U", Ev(Basics[i])}
Pure == [][(hist' # hist /\ hist'[Len(hist')].op = "ask") => o' = o]_vars
CountStable == [][\A i \in {1, 2} : Sat(o, Basics[i], "0") = "T" => Sat(o', Basics[i], "0") = "T"]_vars

Emit == (EMIT /\ Len(hist) = MaxOps) => PrintT("@HIST " \o ToJson(hist))
=============================================================================
