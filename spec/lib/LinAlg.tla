------------------------------- MODULE LinAlg -------------------------------
(* Vectors are sequences of Rat numbers, matrices sequences of rows.        *)
EXTENDS Rat, Naturals, Integers, Sequences, FiniteSets, TLC

RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b

VDim(x)      == Len(x)
VZero(n)     == [i \in 1..n |-> "0"]
VUnit(n, k)  == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
VAdd(x, y)   == TLCEval([i \in 1..Len(x) |-> RAdd(x[i], y[i])])
VSub(x, y)   == TLCEval([i \in 1..Len(x) |-> RSub(x[i], y[i])])
VScale(c, x) == TLCEval([i \in 1..Len(x) |-> RMul(c, x[i])])
VMulE(x, y)  == TLCEval([i \in 1..Len(x) |-> RMul(x[i], y[i])])
VDivE(x, y)  == TLCEval([i \in 1..Len(x) |-> RDiv(x[i], y[i])])
VNormSq(x)   == RDot(x, x)
VNorm(x)     == RSqrt(RDot(x, x))
VMaxAbs(x)   == RMaxAbs(x)
VSum1(x)     == RSum([i \in 1..Len(x) |-> RAbs(x[i])])

Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
Col(M, j)    == TLCEval([i \in 1..Len(M) |-> M[i][j]])
MT(M)        == TLCEval([j \in 1..Cols(M) |-> [i \in 1..Rows(M) |-> M[i][j]]])
MVec(M, x)   == TLCEval([i \in 1..Rows(M) |-> RDot(M[i], x)])
MMul(A, B)   == LET BT == MT(B) IN TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> RDot(A[i], BT[j])]])
MAdd(A, B)   == TLCEval([i \in 1..Rows(A) |-> VAdd(A[i], B[i])])
MSub(A, B)   == TLCEval([i \in 1..Rows(A) |-> VSub(A[i], B[i])])
MScale(c, A) == TLCEval([i \in 1..Rows(A) |-> VScale(c, A[i])])
MId(n)       == [i \in 1..n |-> VUnit(n, i)]
MZero(n, m)  == [i \in 1..n |-> VZero(m)]
MTrace(A)    == RSum([i \in 1..Rows(A) |-> A[i][i]])
MDiag(A)     == TLCEval([i \in 1..Rows(A) |-> A[i][i]])
MMaxAbs(A)   == VMaxAbs([i \in 1..Rows(A) |-> VMaxAbs(A[i])])
MCols(A, J)  == TLCEval([i \in 1..Rows(A) |-> [k \in 1..Len(J) |-> A[i][J[k]]]])   \* J a sequence of column indices
Outer(x, y)  == TLCEval([i \in 1..Len(x) |-> VScale(x[i], y)])
QuadForm(x, A) == RDot(x, MVec(A, x))
IsSym(A)     == \A i \in 1..Rows(A) : \A j \in 1..i : A[i][j] = A[j][i]
FromCols(cs) == TLCEval([i \in 1..Len(cs[1]) |-> [j \in 1..Len(cs) |-> cs[j][i]]])

RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 0 THEN MId(Rows(A)) ELSE MMul(A, MPow(A, k - 1))

(* Gauss-Jordan on the augmented rows of M (r rows): << >> when singular *)
RECURSIVE GJ(_, _, _)
GJ(M, r, k) ==
  IF k > r THEN M
  ELSE LET piv == {i \in k..r : RSign(M[i][k]) # 0}
       IN IF piv = {} THEN << >>
          ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                   S == [M EXCEPT ![k] = M[p], ![p] = M[k]]
                   pr == VScale(RDiv("1", S[k][k]), S[k])
                   E == TLCEval([i \in 1..r |-> IF i = k THEN pr
                                        ELSE IF RSign(S[i][k]) = 0 THEN S[i]
                                        ELSE VSub(S[i], VScale(S[i][k], pr))])
               IN GJ(E, r, k + 1)
MInv(A) ==
  LET n == Rows(A)
      G == TLCEval(GJ([i \in 1..n |-> A[i] \o VUnit(n, i)], n, 1))
  IN IF G = << >> THEN << >> ELSE TLCEval([i \in 1..n |-> SubSeq(G[i], n + 1, 2 * n)])
Singular(A) == MInv(A) = << >>
(* Solve A X = B *)
MSolve(A, B) ==
  LET n == Rows(A)
      m == Cols(B)
      G == TLCEval(GJ([i \in 1..n |-> A[i] \o B[i]], n, 1))
  IN IF G = << >> THEN << >> ELSE TLCEval([i \in 1..n |-> SubSeq(G[i], n + 1, n + m)])
(* Orthogonal projector onto the column space of Y (full column rank) *)
MProj(Y) == LET YT == MT(Y) IN MMul(Y, MSolve(MMul(YT, Y), YT))

(* Comparison of an observed array with an exact one: entrywise within tol *)
VNear(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RNear(x[i], y[i], tol)
MNear(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], tol)
=============================================================================
