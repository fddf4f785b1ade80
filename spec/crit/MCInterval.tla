----------------------------- MODULE MCInterval -----------------------------
EXTENDS Interval, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Vals, MaxLen, EMIT
VARIABLE a
Init == a = << >>
Next == Len(a) < MaxLen /\ \E v \in Vals : a' = Append(a, v)
Levels == <<"0.5", "0.68", "0.8", "0.9", "0.95", "0.975", "0.99", "0.999">>
Dists == {"t", "normal"}
Nested == Len(a) >= 2 => \A d \in Dists : \A i \in 1..7 :
            RLe(Half(a, Levels[i], d), Half(a, Levels[i + 1], d))
Heavier == Len(a) >= 2 => \A i \in 1..8 : RLe(Half(a, Levels[i], "normal"), Half(a, Levels[i], "t"))
NearR(x, y) == RNear(x, y, "1/1000000000000000000000000")
Shifted == Len(a) >= 2 => LET b == [i \in 1..Len(a) |-> RAdd("7", RMul("-3", a[i]))] IN
             \A d \in Dists : /\ NearR(Lo(b, "0.9", d), RAdd("7", RMul("-3", Hi(a, "0.9", d))))
                              /\ NearR(Hi(b, "0.9", d), RAdd("7", RMul("-3", Lo(a, "0.9", d))))
Permuted == Len(a) >= 2 => LET b == Reverse(a) IN Lo(b, "0.95", "t") = Lo(a, "0.95", "t")
Emit == (EMIT /\ Len(a) = MaxLen) => PrintT("@HIST " \o ToJson(a))
=============================================================================
