------------------------------- MODULE Sturm -------------------------------
(***************************************************************************)
(* Eigenvalues of symmetric tridiagonal matrices by exact counting.        *)
(* d: diagonal, b2: squared off-diagonals (b2[i] couples i and i+1).       *)
(* StCount is the number of eigenvalues below x: the number of negative    *)
(* pivots of T - x; a zero pivot is taken as positive and infinitesimal.   *)
(***************************************************************************)
EXTENDS LinAlg

RECURSIVE StCountR(_, _, _, _, _, _)
StCountR(d, b2, x, i, q, cnt) ==       \* q: previous pivot; "0" stands for an infinitesimal positive one
  IF i > Len(d) THEN cnt
  ELSE LET b  == IF i = 1 THEN "0" ELSE b2[i - 1]
           inf == RSign(b) # 0 /\ q = "0"
           qe == IF inf THEN "-inf" ELSE IF RSign(b) = 0 \/ q = "-inf" THEN RSub(d[i], x) ELSE RSub(RSub(d[i], x), RDiv(b, q))
           qi == IF Len(d) > 12 /\ ~inf THEN RRound(qe, 256) ELSE qe    \* the pivots of a matrix whose entries differ relatively by 2^-255
       IN StCountR(d, b2, x, i + 1, qi, IF inf \/ RSign(qi) < 0 THEN cnt + 1 ELSE cnt)
StCount(d, b2, x) == StCountR(d, b2, x, 1, "1", 0)

(* w (ascending) lists all eigenvalues, with multiplicity, up to tol *)
EigVals(w, d, b2, tol) ==
  /\ Len(w) = Len(d)
  /\ \A i \in 1..Len(w) : RFinite(w[i]) /\ StCount(d, b2, RSub(w[i], tol)) <= i - 1 /\ StCount(d, b2, RAdd(w[i], tol)) >= i
=============================================================================
