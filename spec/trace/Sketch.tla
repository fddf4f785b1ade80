------------------------------- MODULE Sketch -------------------------------
(***************************************************************************)
(* Estimators that deflate: Hutch++, XTrace and XDiag.  W, G are sequences *)
(* of vectors.  Definitions, not algorithms: orthogonal projectors instead *)
(* of QR factors and rank-one updates.                                     *)
(***************************************************************************)
EXTENDS Hutch

NoMat == << >>
Gram(Y)   == MMul(MT(Y), Y)
(* Y: matrix of images; the projector onto its columns, NoMat when they are dependent *)
Projector(Y) ==
  LET G == Gram(Y)
      X == MSolve(G, MT(Y))
  IN IF X = NoMat THEN NoMat ELSE MMul(Y, X)
KappaSq(Y) ==   \* square of the condition number in the Frobenius norm (an upper bound)
  LET I == MInv(Gram(Y)) IN RMul(MTrace(Gram(Y)), MTrace(I))
Images(A, W) == MMul(A, FromCols(W))
Without(W, i) == SubSeq(W, 1, i - 1) \o SubSeq(W, i + 1, Len(W))
ProjOf(A, W) == IF W = << >> THEN MZero(Len(A), Len(A)) ELSE Projector(Images(A, W))
Captures(A, P) == LET B == TLCEval(MT(A)) IN \A i \in 1..Len(A) : \A j \in 1..Len(A) : RDot(P[i], B[j]) = A[i][j]
Off(P, v) == VSub(v, MVec(P, v))          \* (I - P) v
CompressDiag(P, A) == LET B == TLCEval(MT(A)) IN TLCEval([i \in 1..Len(A) |-> RDot(P[i], B[i])])   \* diagonal of P A
Compress(P, A) == RSum(CompressDiag(P, A))      \* trace of A restricted to the range of P

\* ---- Hutch++
HutchppEst(A, P, G) == RAdd(Compress(P, A), RDiv(RSum([j \in 1..Len(G) |-> QuadForm(Off(P, G[j]), A)]), Len(G)))

\* ---- XTrace: contribution of the i-th vector; norm: vectors are spherical
XtTerm(A, W, P, i, norm) ==
  LET u == Off(P, W[i])
      c == IF norm THEN RDiv(Len(A) - Len(W) + 1, VNormSq(u)) ELSE "1"
  IN RAdd(Compress(P, A), RMul(c, QuadForm(u, A)))

\* ---- XDiag: contribution of the i-th vector
XdTerm(A, W, P, i) ==
  LET y == MVec(A, W[i])
  IN VAdd(CompressDiag(P, A), VMulE(W[i], Off(P, y)))

\* ---- numerical scale of a sketched computation
NormA(A) == RMul(Len(A), MMaxAbs(A))
SketchTol(A, W, k2, eps) ==
  LET w == MaxOver(LAMBDA v : VNormSq(v), W, Len(W))
  IN RMul(RMul(64 * Len(A) * Len(A), eps), RMul(k2, RMul(NormA(A), RMax("1", w))))
=============================================================================
