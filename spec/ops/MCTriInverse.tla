---------------------------- MODULE MCTriInverse ----------------------------
(* A caller appends columns to any of the matrices seen so far.             *)
EXTENDS TriInverse, Json, SequencesExt

CONSTANTS Diag, Upper, MaxOrder, MaxOps, EMIT
VARIABLES vers, hist
vars == <<vers, hist>>

Init == vers = <<Empty>> /\ hist = << >>
Columns(n) == {Append(h, z) : h \in [1..n -> Upper], z \in Diag}
Next == /\ Len(hist) < MaxOps
        /\ \E k \in 1..Len(vers) : Order(vers[k]) < MaxOrder /\
             \E b \in Columns(Order(vers[k])) :
               /\ vers' = Append(vers, AppendCol(vers[k], b, "1/1048576"))
               /\ hist' = Append(hist, [op |-> "append", of |-> k, b |-> b])
Spec == Init /\ [][Next]_vars

Cur == vers[Len(vers)]
IsInverse == Order(Cur) = 0 \/ (MMul(Cur.inv, Full(Cur)) = MId(Order(Cur)) /\ MMul(Full(Cur), Cur.inv) = MId(Order(Cur)))
Upper0   == \A i \in 1..Order(Cur) : \A j \in 1..(i - 1) : Cur.inv[i][j] = "0" /\ Cur.err[i][j] = "0"
General  == Order(Cur) = 0 \/ Cur.inv = MInv(Full(Cur))
(* the inverse depends on the matrix, not on the way to it, and contains those of its leading blocks *)
PathFree == \A k \in 1..Len(vers) : vers[k].cols = Cur.cols => vers[k] = Cur
Nested   == \A k \in 1..Len(vers) : Order(vers[k]) <= Order(Cur) /\ vers[k].cols = SubSeq(Cur.cols, 1, Order(vers[k])) =>
              \A i, j \in 1..Order(vers[k]) : Cur.inv[i][j] = vers[k].inv[i][j]
DiagRec  == \A i \in 1..Order(Cur) : Cur.inv[i][i] = RDiv("1", Cur.cols[i][i])
Kept     == [][SubSeq(vers', 1, Len(vers)) = vers]_vars
Emit     == ~(EMIT /\ Len(hist) = MaxOps) \/ PrintT("@HIST " \o ToJson([ops |-> hist]))
=============================================================================
