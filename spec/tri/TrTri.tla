-------------------------------- MODULE TrTri --------------------------------
(* Recorded eigenvalue computations and quadrature rules of Jacobi matrices. *)
EXTENDS Jacobi, TraceKit

Fresh(cfg) == [none |-> TRUE]
Eps(e) == IF e.prec = 32 THEN "1/8388608" ELSE "1/4503599627370496"
N(e) == Len(e.d)
Tol(e, m) == RAdd("1/1000000000000000000000000000000000000000000", RMul(m * N(e), RMul(Eps(e), TriNorm(e.d, e.b))))
Lt(x, y) == RLt(x, y)
Col2(M, j) == [i \in 1..Len(M) |-> M[i][j]]

EigStep(e) ==
  LET n == N(e)
      tol == Tol(e, 256)
  IN IF ~e.ok THEN {"the call succeeds"}
     ELSE IF ~IsVec(e.w, n) THEN {"one value per row is returned"}
     ELSE IF ~AllFinite(e.w) THEN {"no value is nan"}
     ELSE If(EigVals(SortSeq(e.w.v, LAMBDA x, y : RLt(x, y)), e.d, Sq(e.b), tol), "the values are the eigenvalues, with multiplicity")
          \cup If(e.kept, "the inputs are not modified")
          \cup (IF ~e.vecs THEN {}
                ELSE IF ~IsMat(e.Z, n, n) THEN {"the vectors form a square matrix"}
                ELSE LET Z == TLCEval(Mat(e.Z))
                         z == TLCEval([j \in 1..n |-> Col2(Z, j)])
                     IN If(\A i \in 1..n : \A j \in 1..i : RNear(RDot(z[i], z[j]), IF i = j THEN "1" ELSE "0", RMul(256 * n, Eps(e))), "the vectors are orthonormal")
                        \cup If(\A j \in 1..n : VNear(TriApply(e.d, e.b, z[j]), VScale(e.w.v[j], z[j]), tol), "values and vectors are eigenpairs"))

(* amplification of node errors in the recurrence for the weights *)
RECURSIVE AmpR(_, _, _)
AmpR(b2, f2, j) == IF j = 0 THEN "1" ELSE RMul(RMax("1", RDiv(f2, b2[j])), AmpR(b2, f2, j - 1))
(* the supplied array holds the returned values, in its own precision *)
Kept(o, x, eps) == o.sh = x.sh /\ \A i \in DOMAIN x.v : o.v[i] = x.v[i] \/ RNear(o.v[i], x.v[i], RMul(RMul(2, eps), RMax(RAbs(x.v[i]), "1/1000000000000000000000000000000")))
QuadStep(e) ==
  LET k == IF e.deg = 0 \/ e.deg > N(e) THEN N(e) ELSE e.deg
      d == TLCEval(Lead(e.d, k))
      b == TLCEval(LeadB(e.b, k))
      f == RMax("1", TriNorm(d, b))
      tol == Tol(e, 256)
      amp == IF e.quad = "fttr" THEN RRound(RMul(AmpR(Sq(b), RMul(f, f), k - 1), k), 20) ELSE "1"
      tw == RMul(RMul(256 * N(e), Eps(e)), amp)
      m == Moments(d, b, 2 * k - 1)
  IN IF ~e.ok THEN {"the call succeeds"}
     ELSE IF ~(IsVec(e.x, k) /\ IsVec(e.w, k)) THEN {"one node and one weight per degree are returned"}
     ELSE IF e.quad = "fttr" /\ (\E i \in 1..(k - 1) : RSign(b[i]) = 0) THEN {}
     ELSE If(AllFinite(e.x) /\ AllFinite(e.w), "no node or weight is nan")
          \cup If(EigVals(SortSeq(e.x.v, LAMBDA x, y : RLt(x, y)), d, Sq(b), tol), "the nodes are the eigenvalues of the leading block")
          \cup If(\A i \in 1..k : RSign(e.w.v[i]) >= 0, "the weights are not negative")
          \cup (IF RLt("1/1000000", tw) THEN {}
                ELSE If(RNear(RSum(e.w.v), "1", tw), "the weights sum to one")
                     \cup If(\A i \in 1..(2 * k - 1) : RNear(RSum([j \in 1..k |-> RMul(e.w.v[j], RPow(e.x.v[j], i))]), m[i + 1], RMul(RMul(i + 1, tw), RPow(RMul("11/10", f), i))), "powers below twice the degree are integrated exactly"))
          \cup If(e.kept, "the inputs are not modified")
          \cup If(~e.out \/ (Kept(e.ox, e.x, Eps(e)) /\ Kept(e.ow, e.w, Eps(e))), "supplied arrays receive the rule")

Step(s, e) ==
  CASE e.op = "eig"  -> [st |-> s, bad |-> EigStep(e)]
    [] e.op = "quad" -> [st |-> s, bad |-> QuadStep(e)]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
