------------------------------ MODULE TrLanczos ------------------------------
(* Recorded Lanczos expansions and Ritz computations, checked against the   *)
(* exact expansion, or, where that is too sensitive to rounding to compare  *)
(* entry by entry, against the relations its output must satisfy.           *)
EXTENDS Krylov, Sturm, TraceKit

Fresh(cfg) == [none |-> TRUE]
EPS64 == "1/4503599627370496"
EPS32 == "1/8388608"

Dim(c) == Len(c.A)
Eps(c) == IF c.prec = 32 THEN EPS32 ELSE EPS64
Degree(c) == IF c.deg = 0 \/ c.deg > Dim(c) THEN Dim(c) ELSE c.deg
Lim(c) == IF c.prec = 32 THEN "1/50" ELSE "1/10000"
Base(c) == RMul(64 * Dim(c), Eps(c))
\* entries vary on the scale of the spread only, however large the operator
Tol(c, E, i) == LET s == Spread(c.A) IN RMul(Base(c), IF i <= 1 \/ RSign(s) = 0 THEN NormF(c.A) ELSE RMul(s, Amp(c.A, E, i)))
TolQ(c, E, i) == RMul(Base(c), Amp(c.A, E, i))
Judged(c, E, i) == RLt(TolQ(c, E, i), Lim(c))

ColOf(M, j) == [i \in 1..Len(M) |-> M[i][j]]
\* the start vector of a call: given, or the first column of the basis
StartOf(c, e) == IF Has(c, "v0") THEN c.v0 ELSE ColOf(Mat(e.Q), 1)

\* ---- entries a (length k) and b (length k-1) against the exact expansion
Entries(c, E, a, b) ==
  LET k == Len(a)
      g == Len(E)
  IN If(\A i \in 1..g : ~Judged(c, E, i) \/ RNear(a[i], E[i].a, Tol(c, E, i)), "the diagonal is that of the Jacobi matrix")
     \cup If(\A i \in 1..(g - 1) : ~Judged(c, E, i + 1) \/ (RSign(b[i]) >= 0 /\ RNear(b[i], RSqrt(E[i].b), Tol(c, E, i + 1))), "the off-diagonal is that of the Jacobi matrix")
     \cup If(g >= k \/ ~Judged(c, E, g) \/ RNear(b[g], "0", RMul(16, Tol(c, E, g))), "the coupling vanishes where the Krylov space ends")

\* ---- basis: Q[j] is column j; gram entries, recurrence
Cols2(Q) == [j \in 1..Cols(Q) |-> ColOf(Q, j)]
Ortho(q, J, tol) == \A i \in J : \A j \in J : i > j \/ RNear(RDot(q[i], q[j]), IF i = j THEN "1" ELSE "0", tol)
Residual(A, q, a, b, j) ==       \* A q_j - b_{j-1} q_{j-1} - a_j q_j
  VSub(VSub(MVec(A, q[j]), VScale(a[j], q[j])), IF j = 1 THEN VZero(Len(A)) ELSE VScale(b[j - 1], q[j - 1]))
Relation(A, q, a, b, J, tol) ==
  \A j \in J : VNear(Residual(A, q, a, b, j), VScale(b[j], q[j + 1]), tol)

Normalized(c, v, q1) == LET s == VNorm(v) IN \A i \in 1..Len(v) : RNear(RMul(q1[i], s), v[i], RMul(RMul(8, Eps(c)), s))

BasisExact(c, v, E, a, b, Q) ==
  LET q == Cols2(Q)
      g == Len(E)
      j == IF \E i \in 1..g : ~Judged(c, E, i) THEN (CHOOSE i \in 1..g : ~Judged(c, E, i) /\ \A h \in 1..(i - 1) : Judged(c, E, h)) - 1 ELSE g
      tq == TolQ(c, E, j)
      loc == RMul(Base(c), IF c.orth = 0 THEN NormF(c.A) ELSE RMul(NormF(c.A), Amp(c.A, E, j)))
  IN If(Normalized(c, v, q[1]), "the basis starts with the normalized start vector")
     \cup If(Ortho(q, 1..j, tq), "the basis is orthonormal")
     \cup If(Relation(c.A, q, a, b, 1..(j - 1), loc), "the operator acts on the basis as the Jacobi matrix")
     \cup If(j < Len(a) \/ \A i \in 1..j : RNear(RDot(q[i], Residual(c.A, q, a, b, j)), "0", RMul(NormF(c.A), tq)), "the residual is orthogonal to the basis")
     \cup If(\A i \in 1..j : VNear(VScale(RSqrt(E[i].nn), q[i]), E[i].p, RMul(RSqrt(E[i].nn), TolQ(c, E, i))), "the basis spans the Krylov space")

\* ---- large expansions: relations only.  w: number of latest vectors every new one is orthogonal to
MinPos(b, f) == LET S == {b[i] : i \in 1..Len(b)} IN IF S = {} THEN f ELSE CHOOSE x \in S : \A y \in S : RLe(x, y)
Posterior(c, v, a, b, Q) ==
  LET q == Cols2(Q)
      k == Len(a)
      f == RMax("1", NormF(c.A))
      mb == MinPos(b, f)
      tq == RMul(RMul(4, Base(c)), RDiv(f, mb))
      w == IF c.orth < 0 \/ c.orth > k THEN k ELSE c.orth
  IN IF RLt(RMul(mb, "100000"), f) THEN {}
     ELSE If(Normalized(c, v, q[1]), "the basis starts with the normalized start vector")
          \cup If(\A i \in 1..k : RNear(VNormSq(q[i]), "1", tq), "the basis is orthonormal")
          \cup If(\A j \in 2..k : \A i \in (IF w > j - 1 THEN 1 ELSE j - w)..(j - 1) : RNear(RDot(q[i], q[j]), "0", tq), "the basis is orthonormal")
          \cup If(\A j \in 2..k : RNear(RDot(q[j - 1], q[j]), "0", tq), "the basis is orthonormal")
          \cup If(Relation(c.A, q, a, b, 1..(k - 1), RMul(f, RMul(w + 1, tq))), "the operator acts on the basis as the Jacobi matrix")
          \cup If(\A j \in 1..k : RNear(a[j], RDot(q[j], MVec(c.A, q[j])), RMul(f, RMul(w + 1, tq))), "the diagonal is that of the Jacobi matrix")

TriOf(T, k) == [a |-> [i \in 1..k |-> T[i][i]], b |-> [i \in 1..(k - 1) |-> T[i][i + 1]],
                ok |-> \A i \in 1..k : \A j \in 1..k : IF i = j THEN TRUE ELSE IF i - j \in {1, -1} THEN T[i][j] = T[j][i] ELSE RSign(T[i][j]) = 0]

LanczosStep(s, e) ==
  LET c == e.c
      k == Degree(c)
      v == StartOf(c, e)
  IN IF ~e.ok THEN {"the call succeeds"}
     ELSE IF Has(e, "T") /\ ~IsMat(e.T, k, k) THEN {"the Jacobi matrix has the requested size"}
     ELSE IF ~Has(e, "T") /\ ~(IsVec(e.a, k) /\ IsVec(e.b, k - 1)) THEN {"the Jacobi matrix has the requested size"}
     ELSE IF Has(e, "Q") /\ ~IsMat(e.Q, Dim(c), k) THEN {"the basis has one column per step"}
     ELSE LET t == IF Has(e, "T") THEN TriOf(Mat(e.T), k) ELSE [a |-> e.a.v, b |-> e.b.v, ok |-> TRUE]
              E == Expand(c.A, v, k)
              g == IF c.tier = "exact" THEN Len(E) ELSE k
          IN If(t.ok, "the sparse Jacobi matrix is symmetric tridiagonal")
             \cup If(\A i \in 1..g : RFinite(t.a[i]) /\ (i = k \/ RFinite(t.b[i])), "no entry is nan")
             \cup If(c.ws # "fresh" \/ ((\A i \in 1..k : RFinite(t.a[i])) /\ (\A i \in 1..(k - 1) : RFinite(t.b[i]))), "no entry is nan")
             \cup If(~Has(e, "Q") \/ \A i \in 1..Dim(c) : \A j \in 1..g : RFinite(Mat(e.Q)[i][j]), "no entry is nan")
             \cup (IF \E i \in 1..g : ~RFinite(t.a[i]) \/ (i < k /\ ~RFinite(t.b[i])) THEN {}
                   ELSE IF c.tier = "exact"
                   THEN Entries(c, E, t.a, t.b) \cup (IF Has(e, "Q") /\ (\A i \in 1..Dim(c) : \A j \in 1..g : RFinite(Mat(e.Q)[i][j])) THEN BasisExact(c, v, E, t.a, t.b, Mat(e.Q)) ELSE {})
                   ELSE IF Has(e, "Q") THEN Posterior(c, v, t.a, t.b, Mat(e.Q)) ELSE {})

\* ---- Rayleigh-Ritz
VMaxOf(d) == CHOOSE x \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : RLe(d[i], x)
VMinOf(d) == CHOOSE x \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : RLe(x, d[i])
PowerSum(w, i) == RSum([j \in 1..Len(w) |-> RPow(w[j], i)])
TriMat(a, b) == LET k == Len(a) IN [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN a[i] ELSE IF i = j + 1 THEN b[j] ELSE IF j = i + 1 THEN b[i] ELSE "0"]]
(* long expansions to full degree, fully re-orthogonalized: the whole spectrum is found *)
LongRitz(c, e) ==
  LET w == SortSeq(e.w.v, LAMBDA x, y : RLt(x, y))
      d == SortSeq(c.D, LAMBDA x, y : RLt(x, y))
  IN IF ~IsVec(e.w, Dim(c)) THEN {"one Ritz value per step is returned"}
     ELSE If(\A i \in 1..Dim(c) : RNear(w[i], d[i], RMul("1/10000000000", NormF(c.A))), "at full degree the Ritz values are the spectrum")
          \cup (IF ~Has(e, "Y") \/ ~Has(e, "Q") THEN {}
                ELSE LET r == Cols2(MMul(Mat(e.Q), Mat(e.Y)))
                     IN If(\A j \in 1..Dim(c) : VNear(MVec(c.A, r[j]), VScale(e.w.v[j], r[j]), RMul("1/100000000", NormF(c.A))), "at full degree the Ritz pairs are eigenpairs"))
RitzStep(s, e) ==
  LET c == e.c
      k == Degree(c)
      v == StartOf(c, e)
      E == Expand(c.A, v, k)
      tol == RMul(8, Tol(c, E, Len(E)))
      tq == RMul(RMul(8, TolQ(c, E, Len(E))), "1")
      w == SortSeq(e.w.v, LAMBDA x, y : RLt(x, y))
      T == TriMat(Alphas(E), SubSeq(Betas(E), 1, k - 1))
  IN IF ~e.ok THEN {"the call succeeds"}
     ELSE IF c.tier = "long" THEN LongRitz(c, e)
     ELSE IF ~IsVec(e.w, k) THEN {"one Ritz value per step is returned"}
     ELSE IF Len(E) < k \/ ~Judged(c, E, k) THEN {}
     ELSE If(EigVals(w, Alphas(E), BetaSq(E), tol), "the Ritz values are the eigenvalues of the projected operator")
          \cup If(~Has(c, "D") \/ (\A i \in 1..k : RLe(RSub(w[i], tol), VMaxOf(c.D)) /\ RLe(VMinOf(c.D), RAdd(w[i], tol))), "the Ritz values lie within the spectrum")
          \cup If(k < Dim(c) \/ \A i \in 1..k : RNear(PowerSum(w, i), MTrace(MPow(c.A, i)), RMul(RMul(i * k, tol), RPow(RMax("1", NormF(c.A)), i - 1))), "at full degree the Ritz values are the spectrum")
          \cup (IF ~Has(e, "Y") THEN {}
                ELSE IF ~IsMat(e.Y, k, k) THEN {"the Ritz vectors are a square matrix"}
                ELSE LET Y == Mat(e.Y)
                         y == Cols2(Y)
                     IN If(Ortho(y, 1..k, RMul(Base(c), 4)), "the eigenvectors of the Jacobi matrix are orthonormal")
                        \cup If(\A j \in 1..k : VNear(MVec(T, y[j]), VScale(e.w.v[j], y[j]), tol), "values and vectors are eigenpairs of the Jacobi matrix")
                        \cup (IF ~Has(e, "Q") THEN {}
                              ELSE LET R == MMul(Mat(e.Q), Y)
                                       r == Cols2(R)
                                   IN If(Ortho(r, 1..k, tq), "the Ritz vectors are orthonormal")
                                      \cup If(\A i \in 1..k : \A j \in 1..k : RNear(RDot(r[i], MVec(c.A, r[j])), IF i = j THEN e.w.v[i] ELSE "0", RMul(NormF(c.A), RMul(k, tq))), "Ritz pairs satisfy the Galerkin condition")))
          \cup (IF ~Has(e, "Q") THEN {} ELSE If(IsMat(e.Q, Dim(c), k) /\ Ortho(Cols2(Mat(e.Q)), 1..k, tq), "the basis is orthonormal"))

Step(s, e) ==
  CASE e.op = "lanczos" -> [st |-> s, bad |-> LanczosStep(s, e)]
    [] e.op = "ritz"    -> [st |-> s, bad |-> RitzStep(s, e)]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
