--------------------------------- MODULE Work ---------------------------------
(***************************************************************************)
(* How many vectors an operator is multiplied with.  A configuration c has *)
(* alg, dim (the dimension), and: cost, the products one application of    *)
(* the operator handed over stands for (1 for the operator itself, up to   *)
(* deg for a matrix function); m (0: not given); deg; many (vectors of     *)
(* one application).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b

(* Hutch++: the sketch is a multiple of three vectors or up to two more *)
SketchSize(c) == IF c.m = 0 THEN Greater(c.dim \div 3, 1) + 2 ELSE c.m + 2
(* XDiag: half the budget, rounded up *)
TestSize(c) == Lesser(c.dim, IF c.m = 0 THEN c.dim ELSE (c.m + 1) \div 2)
Steps(c) == Lesser(c.dim, Greater(c.deg, IF c.alg = "ritz" THEN 2 ELSE 1))

(* at most this many products once nit vectors have been used *)
Bound(c, nit) ==
  CASE c.alg = "hutch"    -> c.cost * nit
    [] c.alg = "diag"     -> c.cost * nit
    [] c.alg = "xtrace"   -> c.cost * 2 * nit
    [] c.alg = "hutchpp"  -> c.cost * 3 * SketchSize(c)
    [] c.alg = "xdiag"    -> c.cost * 2 * TestSize(c)
    [] c.alg \in {"lanczos", "ritz"} -> Steps(c)
    [] c.alg = "function" -> c.many * Steps(c)
    [] c.alg = "times"    -> c.many           \* a normalized operator, applied
    [] OTHER -> 0                             \* making or configuring something
=============================================================================
