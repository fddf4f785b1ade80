----------------------------- MODULE MCToeplitz -----------------------------
(* One operator with its workspace z, reused by every product.              *)
EXTENDS Toeplitz, Json

CONSTANTS N, Entry, Arg, MaxOps, EMIT
VARIABLES c, r, z, y, hist
vars == <<c, r, z, y, hist>>

Init == /\ c \in [1..N -> Entry] /\ r \in [1..N -> Entry]
        /\ z = VZero(2 * N) /\ y = << >> /\ hist = << >>
Mult(x) == /\ z' = [i \in 1..(2 * N) |-> IF i <= N THEN x[i] ELSE z[i]]
           /\ y' = SubSeq(Convolve(Symbol(c, r), z'), 1, N)
           /\ hist' = Append(hist, x)
           /\ UNCHANGED <<c, r>>
Next == Len(hist) < MaxOps /\ \E x \in [1..N -> Arg] : Mult(x)
Spec == Init /\ [][Next]_vars

Product   == hist = << >> \/ y = ToepMul(c, r, hist[Len(hist)])
Padding   == \A i \in (N + 1)..(2 * N) : z[i] = "0"
(* constant along diagonals; the transpose swaps column and row *)
Constant  == LET T == Dense(c, r) IN \A i, j \in 1..(N - 1) : T[i + 1][j + 1] = T[i][j]
Transpose == MT(Dense(c, [r EXCEPT ![1] = c[1]])) = Dense([r EXCEPT ![1] = c[1]], c)
Corner    == Dense(c, r) = Dense(c, [r EXCEPT ![1] = "17"])
Symmetric == IsSym(Dense(c, c))
Emit      == ~(EMIT /\ Len(hist) = MaxOps) \/ PrintT("@HIST " \o ToJson([c |-> c, r |-> r, xs |-> hist]))
=============================================================================
