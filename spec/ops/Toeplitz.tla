------------------------------ MODULE Toeplitz ------------------------------
(***************************************************************************)
(* Toeplitz matrices: first column c, first row r (its first entry is      *)
(* ignored), and their products by way of a circulant of twice the size.   *)
(***************************************************************************)
EXTENDS LinAlg

Dense(c, r) == LET n == Len(c) IN TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i >= j THEN c[i - j + 1] ELSE r[j - i + 1]]])
ToepMul(c, r, x) == MVec(Dense(c, r), x)

(* first column of the circulant *)
Symbol(c, r) == LET n == Len(c) IN TLCEval([i \in 1..(2 * n) |-> IF i <= n THEN c[i] ELSE IF i = n + 1 THEN "0" ELSE r[2 * n + 2 - i]])
Convolve(d, z) == LET m == Len(d) IN TLCEval([i \in 1..m |-> RSum([j \in 1..m |-> RMul(d[((i - j) % m) + 1], z[j])])])
=============================================================================
