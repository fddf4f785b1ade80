------------------------------ MODULE Spectrum ------------------------------
(* Spectra of dense symmetric matrices by power sums and by pivots.         *)
EXTENDS LinAlg, SequencesExt

(* traces of the powers 1 .. k *)
PowTraces(A, k) ==
  LET step(a, i) == LET P == MMul(A, a.P) IN TLCEval([P |-> P, t |-> Append(a.t, MTrace(P))])
  IN FoldLeft(step, [P |-> MId(Rows(A)), t |-> << >>], [i \in 1..k |-> i]).t
PowerSums(D, k) == [i \in 1..k |-> RSum([j \in 1..Len(D) |-> RPow(D[j], i)])]
(* the power sums up to the order determine the spectrum with multiplicity *)
HasSpectrum(A, D, eps) ==
  LET n == Len(D)
      r == IF RSign(VMaxAbs(D)) = 0 THEN "1" ELSE VMaxAbs(D)
      t == TLCEval(PowTraces(A, n))
      p == PowerSums(D, n)
  IN \A k \in 1..n : RNear(t[k], p[k], RMul(RMul(64 * n * n * k, eps), RPow(r, k)))

(* all pivots of elimination positive *)
(* one elimination step; a matrix that has lost definiteness stays << >> *)
Schur(a) ==
  LET A == a.A
      n == Rows(A)
  IN IF n = 0 \/ ~a.ok THEN a
     ELSE IF RSign(A[1][1]) # 1 THEN [A |-> << >>, ok |-> FALSE]
     ELSE TLCEval([A |-> [i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> RSub(A[i + 1][j + 1], RDiv(RMul(A[i + 1][1], A[1][j + 1]), A[1][1]))]], ok |-> TRUE])
PosDef(A) == LET step(a, i) == Schur(a) IN FoldLeft(step, [A |-> A, ok |-> TRUE], [i \in 1..Rows(A) |-> i]).ok
Shift(A, s, t) == TLCEval([i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> IF i = j THEN RAdd(RMul(s, A[i][j]), t) ELSE RMul(s, A[i][j])]])
SymPart(A) == MScale("1/2", MAdd(A, MT(A)))
Within(A, lo, hi, tol) == PosDef(Shift(A, "1", RSub(tol, lo))) /\ PosDef(Shift(A, "-1", RAdd(hi, tol)))
(* rotation invariant matrices U D U': mean and second moments of the entries *)
P1(D) == RSum([i \in 1..Len(D) |-> D[i]])
P2(D) == RSum([i \in 1..Len(D) |-> RMul(D[i], D[i])])
HaarMean(D) == RDiv(P1(D), Len(D))
HaarDD(D) == LET n == Len(D) IN RDiv(RAdd(RMul(P1(D), P1(D)), RMul(2, P2(D))), n * (n + 2))                    \* (A_ii)^2
HaarOO(D) == LET n == Len(D) IN RDiv(RSub(RMul(n, P2(D)), RMul(P1(D), P1(D))), (n - 1) * n * (n + 2))           \* (A_ij)^2
Spread(D) == RMul("1/2", RSub(FoldLeft(LAMBDA a, x : RMax(a, x), D[1], D), FoldLeft(LAMBDA a, x : RMin(a, x), D[1], D)))
HaarDE(D) == LET n == Len(D) IN RDiv(RSub(RMul(n + 1, RMul(P1(D), P1(D))), RMul(2, P2(D))), (n - 1) * n * (n + 2)) \* A_ii A_jj
Clip(D) == [i \in DOMAIN D |-> RMax("0", D[i])]
=============================================================================
