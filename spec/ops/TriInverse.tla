----------------------------- MODULE TriInverse -----------------------------
(***************************************************************************)
(* Inverses of growing upper-triangular matrices.  A matrix is kept as the *)
(* sequence of its columns (column j has j entries), its inverse as rows.  *)
(* err bounds, entry by entry, what a floating-point implementation of the *)
(* bordering step may be off by (running error analysis).                  *)
(***************************************************************************)
EXTENDS LinAlg

Empty == [cols |-> << >>, inv |-> << >>, err |-> << >>]
Order(s) == Len(s.cols)
Fits(s, b) == Len(b) = Order(s) + 1 /\ RSign(b[Len(b)]) # 0
Full(s) == LET n == Order(s) IN TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN s.cols[j][i] ELSE "0"]])

AbsV(x) == TLCEval([i \in 1..Len(x) |-> RAbs(x[i])])
AbsM(A) == TLCEval([i \in 1..Len(A) |-> AbsV(A[i])])

Border(M, x, z) ==      \* M with column (x, z) and a zero row
  LET n == Len(M) IN TLCEval([i \in 1..(n + 1) |-> IF i <= n THEN Append(M[i], x[i]) ELSE Append(VZero(n), z)])
AppendCol(s, b, eps) ==
  LET n  == Order(s)
      h  == SubSeq(b, 1, n)
      be == b[n + 1]
      x  == VScale(RDiv("-1", be), MVec(s.inv, h))
      ab == AbsV(h)
      e1 == VAdd(MVec(s.err, ab), VScale(RMul(2 * (n + 3), eps), MVec(MAdd(AbsM(s.inv), s.err), ab)))
      ex == TLCEval([i \in 1..n |-> RRound(RMul("2", RDiv(e1[i], RAbs(be))), 30)])
  IN [cols |-> Append(s.cols, b), inv |-> Border(s.inv, x, RDiv("1", be)), err |-> Border(s.err, ex, RDiv(RMul("2", eps), RAbs(be)))]
=============================================================================
