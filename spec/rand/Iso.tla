--------------------------------- MODULE Iso ---------------------------------
(***************************************************************************)
(* Isotropic distributions: synonyms, what one column looks like, and the  *)
(* moments of the entries.  Dimension n.                                   *)
(***************************************************************************)
EXTENDS LinAlg

Canon(name) == CASE name = "signs" -> "rademacher" [] name = "gaussian" -> "normal" [] OTHER -> name
Names == {"rademacher", "signs", "normal", "gaussian", "sphere"}

(* squared norm of every column, where it is fixed *)
ColumnOk(d, x, tol) ==
  LET n == Len(x)
  IN CASE d = "rademacher" -> \A i \in 1..n : x[i] \in {"1", "-1"}
       [] d = "sphere"     -> RNear(VNormSq(x), n, RMul(n, tol))
       [] OTHER            -> \A i \in 1..n : RFinite(x[i])

(* E w_i^4 and E w_i^2 w_j^2 *)
Fourth(d, n) == CASE d = "rademacher" -> "1" [] d = "normal" -> "3" [] d = "sphere" -> RDiv(3 * n, n + 2)
Cross(d, n)  == CASE d = "sphere" -> RDiv(n, n + 2) [] OTHER -> "1"
=============================================================================
