-------------------------------- MODULE Fill --------------------------------
(***************************************************************************)
(* Filling an array of M columns with T worker tasks.  Task i owns the     *)
(* columns of block i and its own random stream; it draws the block, then  *)
(* transforms it in place, column by column, in several passes.  The tasks *)
(* run in any interleaving; the caller returns when all have ended.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b
Width(M, T) == CeilDiv(M, T)
Block(M, T, i) == LET w == Width(M, T) IN {j \in 1..M : (i - 1) * w < j /\ j <= i * w}
Owner(M, T, j) == (j - 1) \div Width(M, T) + 1

(* what column j holds after round k: the position in its owner's stream *)
Draw(M, T, k, j) ==
  LET i == Owner(M, T, j)
  IN [stream |-> i, at |-> (k - 1) * Cardinality(Block(M, T, i)) + (j - (i - 1) * Width(M, T))]
=============================================================================
