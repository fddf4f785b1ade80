-------------------------------- MODULE TrOps --------------------------------
(* Recorded histories of triangular inverses, Toeplitz products and          *)
(* normalized operators.                                                     *)
EXTENDS TraceKit, TriInverse, Toeplitz, Unit

Eps(p) == IF p = 32 THEN "1/8388608" ELSE "1/4503599627370496"
Fresh(c) == [c |-> c, vers |-> <<Empty>>, seen |-> << >>]
NearE(o, M, E, n) == \A i, j \in 1..n : RNear(o[i][j], M[i][j], E[i][j])

AppendStep(s, e) ==
  IF ~e.ok THEN [st |-> s, bad |-> {"a column that fits is accepted"}]
  ELSE LET old == s.vers[e.of]
           v == AppendCol(old, e.b, Eps(s.c.prec))
           n == Order(v)
       IN [st |-> [s EXCEPT !.vers = Append(@, v)],
           bad |-> IF ~IsMat(e.M, n, n) THEN {"the inverse has one more row and column"}
                   ELSE LET M == TLCEval(Mat(e.M))
                        IN If(AllFinite(e.M), "no entry is nan")
                           \cup If(NearE(M, v.inv, v.err, n), "the inverse times the matrix is the identity")
                           \cup If(\A i \in 1..n : \A j \in 1..(i - 1) : M[i][j] = "0", "the inverse is upper triangular")
                           \cup If(e.kept, "earlier inverses are unchanged")
                           \cup If(e.arg, "the column is unchanged")]
RefuseStep(s, e) == [st |-> s, bad |-> If(~e.ok, "what does not fit is refused") \cup If(e.kept, "a refused call changes nothing")]

Col2(o, j, m) == [i \in 1..(Len(o.v) \div m) |-> o.v[(i - 1) * m + j]]
ShapeOf(e, n) == IF e.many THEN <<n, Len(e.V)>> ELSE IF e.column THEN <<n, 1>> ELSE <<n>>
MulStep(s, e) ==
  LET c == s.c.c
      r == s.c.r
      n == Len(c)
      m == Len(e.V)
      d == Symbol(c, r)
  IN [st |-> IF e.ok THEN [s EXCEPT !.seen = Append(@, e.y)] ELSE s,
      bad |-> IF ~e.ok THEN {"the product succeeds"}
              ELSE IF e.y.sh # ShapeOf(e, n) THEN {"the product has the shape of the argument"}
              ELSE If(\A j \in 1..m : VNear(Col2(e.y, j, m), ToepMul(c, r, e.V[j]), RMul(RMul(64 * n, RMul(VNorm(d), VNorm(e.V[j]))), Eps(s.c.prec))), "the product is that of the Toeplitz matrix")
                   \cup If(e.kept, "the argument is unchanged")]

UnitStep(s, e) ==
  LET D == s.c.D
      a == Dominant(D)
      tol(x) == RMul(IF s.c.prec = 32 THEN "1/10000" ELSE "1/1000000000", VNorm(x))
      m == Len(e.V)
  IN [st |-> IF e.ok THEN [s EXCEPT !.seen = Append(@, e.y)] ELSE s,
      bad |-> IF ~UniqueDom(D) THEN {}
              ELSE IF ~e.ok THEN {"normalization succeeds"}
              ELSE IF e.y.sh # ShapeOf(e, Len(D)) THEN {"the product has the shape of the argument"}
              ELSE If(\A j \in 1..m : VNear(Col2(e.y, j, m), UnitApply(s.c.A, a, e.V[j]), tol(e.V[j])), "the operator is (A + aI)/(2a)")
                   \cup If(\A j \in 1..m : RLe(RNeg(tol(e.V[j])), RDot(e.V[j], Col2(e.y, j, m))), "no quadratic form is negative")
                   \cup If(\A j \in 1..m : RLe(VNorm(Col2(e.y, j, m)), RAdd(VNorm(e.V[j]), tol(e.V[j]))), "no vector gets longer")
                   \cup If(e.kept, "the argument is unchanged")]

Step(s, e) ==
  CASE e.op = "append" -> AppendStep(s, e)
    [] e.op = "refuse" -> RefuseStep(s, e)
    [] e.op = "mul"    -> MulStep(s, e)
    [] e.op = "unit"   -> UnitStep(s, e)
    [] e.op = "reread" -> [st |-> s, bad |-> If(e.ys = s.seen, "earlier results stay as they were")]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
