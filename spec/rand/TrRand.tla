------------------------------- MODULE TrRand -------------------------------
(* Recorded draws, fills and random matrices.                               *)
EXTENDS TraceKit, Iso, Spectrum

Fresh(c) == [c |-> c, ref |-> << >>, rounds |-> << >>, cols |-> {}]
Eps(p) == IF p = 32 THEN "1/8388608" ELSE "1/4503599627370496"

(* a column runs along the first axis, whatever the other axes *)
Columns(o) == LET n == o.sh[1]  P == Len(o.v) \div n IN TLCEval([j \in 1..P |-> [i \in 1..n |-> o.v[(i - 1) * P + j]]])
AllCols(d, o, eps) == \A x \in Range(Columns(o)) : ColumnOk(d, x, RMul(64, eps))
ShapeAsked(e) == IF e.int THEN <<e.size[1], 1>> ELSE e.size

DrawStep(s, e) ==
  LET d == Canon(e.pdf)
  IN [st |-> s,
      bad |-> IF e.form = "out" /\ ~e.ok THEN If(e.untouched, "a refused array is left alone")
              ELSE IF ~e.ok THEN {"the call succeeds"}
              ELSE If(e.w.sh = ShapeAsked(e), "the array has the requested shape")
                   \cup (IF e.w.sh # ShapeAsked(e) THEN {} ELSE If(AllCols(d, e.w, RMul(Len(e.w.v) + 1, Eps(e.prec))), "every column has the form of its distribution"))
                   \cup (IF e.form # "out" THEN {} ELSE If(e.none, "filling returns nothing") \cup If(e.rest, "nothing else is written") \cup If(e.w.dt = (IF e.prec = 32 THEN "float32" ELSE "float64"), "the precision is kept"))]

(* batches from one generator are the columns of one draw *)
StreamStep(s, e) ==
  [st |-> s,
   bad |-> IF ~e.ok THEN {"the call succeeds"}
           ELSE If(e.whole.sh = e.parts.sh /\ VNear(e.whole.v, e.parts.v, RMul(Len(e.whole.v) + 1, RMul(64, Eps(64)))), "batches continue one stream")]

Sd(v, m) == RRound(RMul("6", RSqrt(RDiv(v, m))), 30)          \* six standard errors
NearM(A, n, f(_, _), tol) == \A i, j \in 1..n : RNear(A[i][j], f(i, j), tol)
NormalCdf == <<"93185/4096000", "649852/4096000", "1263770/4096000", "2452301/4096000", "3822358/4096000">>     \* at -2, -1, -1/2, 1/4, 3/2
MomentStep(s, e) ==
  [st |-> s,
   bad |-> IF ~e.ok THEN {"the call succeeds"}
           ELSE LET d == Canon(e.pdf)
                    n == e.n
                    delta(i, j) == IF i = j THEN "1" ELSE "0"
                    zero(i, j) == "0"
                    four(i, j) == IF i = j THEN Fourth(d, n) ELSE Cross(d, n)
                IN If(\A i \in 1..n : RNear(e.mean[i], "0", Sd("1", e.m)), "the mean is zero")
                   \cup If(NearM(e.second, n, delta, Sd("2", e.m)), "the second moments are the identity")
                   \cup If(NearM(e.next, n, zero, Sd("3/2", e.m)), "consecutive columns are uncorrelated")
                   \cup If(NearM(e.halves, n, zero, Sd("3", e.m)), "distant columns are uncorrelated")
                   \cup If(\A i \in DOMAIN e.third : RNear(e.third[i], "0", Sd("15", e.m)), "the third moments vanish")
                   \cup If(NearM(e.fourth, n, four, Sd("96", e.m)), "the fourth moments are those of the distribution")
                   \cup If(d # "normal" \/ \A i \in 1..5 : RNear(e.below[i], NormalCdf[i], RAdd(Sd("1/4", e.m), "1/10000")), "the entries are standard normal")]

(* signs, counted: so many that every value of a single-precision uniform draw occurs *)
CensusStep(s, e) ==
  [st |-> s,
   bad |-> IF ~e.ok THEN {"the call succeeds"}
           ELSE If(e.other = "0", "every entry is a sign")
                \cup If(RLe(RAbs(RSub(e.up, e.down)), RRound(RMul("6", RSqrt(e.size)), 30)), "both signs are equally likely")]

FillStep(s, e) ==
  IF ~e.ok THEN [st |-> s, bad |-> {"the call succeeds"}]
  ELSE
  LET c == s.c
      d == Canon(c.pdf)
      shape == e.w.sh = <<c.n, c.m>>
      cs == Columns(e.w)
      new == Range(cs)
      first == Len(s.ref) < e.round
      (* columns of independent continuous draws never repeat; those of the reference object are remembered *)
      distinct == d = "rademacher" \/ c.n < 2 \/ Cardinality(new) = c.m
  IN [st |-> IF ~shape THEN s
             ELSE IF first THEN [s EXCEPT !.ref = Append(@, e.w.v), !.cols = @ \cup new] ELSE s,
      bad |-> IF ~shape THEN {"the array keeps its shape"}
              ELSE If(AllFinite(e.w), "every column is written before fill returns")
                   \cup If(~AllFinite(e.w) \/ AllCols(d, e.w, RMul(c.n, Eps(64))), "every column is a sample of the distribution")
                   \cup If(~AllFinite(e.w) \/ first \/ s.ref[e.round] = e.w.v, "the array does not depend on the schedule")
                   \cup If(~AllFinite(e.w) \/ distinct, "no two columns are the same draw")
                   \cup If(~AllFinite(e.w) \/ ~first \/ d = "rademacher" \/ c.n < 2 \/ s.cols \cap new = {}, "a later fill continues the streams")
                   \cup If(~Has(e, "plain") \/ e.plain = e.w, "one thread reproduces the plain generator")
                   \cup If(e.same, "the array is filled in place")]

MatrixStep(s, e) ==
  [st |-> s,
   bad |-> IF ~e.fits THEN If(~e.ok, "what does not fit is refused")
           ELSE IF ~e.ok THEN {"the call succeeds"}
           ELSE IF ~IsMat(e.M, e.n, e.n) THEN {"the matrix has the requested size"}
           ELSE LET A == TLCEval(Mat(e.M))
                    eps == Eps(64)
                    D == IF Has(e, "ew") THEN IF e.pd THEN Clip(e.ew) ELSE e.ew ELSE << >>
                    r == IF Has(e, "ew") /\ RSign(VMaxAbs(e.ew)) # 0 THEN VMaxAbs(e.ew) ELSE "1"
                    tol == RMul(RMul(64 * e.n * e.n, eps), r)
                IN If(AllFinite(e.M), "no entry is nan")
                   \cup If(IF e.what = "symmetric" THEN IsSym(A) ELSE MNear(A, MT(A), tol), "the matrix is symmetric")
                   \cup (IF Has(e, "ew") THEN If(HasSpectrum(A, D, eps), "the eigenvalues are the prescribed ones") \cup If(e.kept, "the prescribed eigenvalues are not modified")
                         ELSE If(Within(SymPart(A), IF e.pd THEN "0" ELSE "-1", "1", tol), "the eigenvalues lie in the documented interval"))
                   \cup If(~e.pd \/ PosDef(Shift(SymPart(A), "1", tol)), "no eigenvalue is negative")]

(* many matrices of the orthogonal ensemble with one spectrum: e.mean[i][j], e.second[i][j] are averages of A_ij and of its
   square, e.diags[i][j] of A_ii A_jj, e.cross of products of two different off-diagonal or diagonal entries *)
EnsembleStep(s, e) ==
  [st |-> s,
   bad |-> IF ~e.ok THEN {"the call succeeds"}
           ELSE LET n == e.n
                    r == VMaxAbs(e.ew)
                    t1 == Sd(RMul(r, r), e.m)
                    t2 == Sd(RPow(r, 4), e.m)
                    mean(i, j) == IF i = j THEN HaarMean(e.ew) ELSE "0"
                    second(i, j) == IF i = j THEN HaarDD(e.ew) ELSE HaarOO(e.ew)
                    diags(i, j) == IF i = j THEN HaarDD(e.ew) ELSE HaarDE(e.ew)
                    w == Spread(e.ew)      \* an off-diagonal entry is at most half the distance of the extreme eigenvalues
                    q1 == Sd(RMul("1/4", RPow(r, 4)), e.m)
                    q2 == Sd(RMul("1/4", RPow(w, 4)), e.m)
                IN If(NearM(e.mean, n, mean, t1), "the mean of the orthogonal ensemble is a multiple of the identity")
                   \cup If((\A i, j \in 1..n : RNear(e.second[i][j], second(i, j), IF i = j THEN q1 ELSE q2)) /\ NearM(e.diags, n, diags, t2), "the second moments of the orthogonal ensemble are rotation invariant")
                   \cup If(\A i \in DOMAIN e.cross : RNear(e.cross[i], "0", t2), "different entries of the orthogonal ensemble are uncorrelated")]

Step(s, e) ==
  CASE e.op = "draw"    -> DrawStep(s, e)
    [] e.op = "stream"  -> StreamStep(s, e)
    [] e.op = "moments" -> MomentStep(s, e)
    [] e.op = "fill"    -> FillStep(s, e)
    [] e.op \in {"make", "drop"} -> [st |-> s, bad |-> If(e.ok, "the call succeeds")]      \* nothing to another object
    [] e.op = "census"  -> CensusStep(s, e)
    [] e.op = "ensemble" -> EnsembleStep(s, e)
    [] e.op = "matrix"  -> MatrixStep(s, e)

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
