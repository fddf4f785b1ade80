------------------------------ MODULE Interval ------------------------------
(* Confidence intervals for the mean of a sample.                           *)
EXTENDS Estimator, Quantiles
Sample(a) == [i \in 1..Len(a) |-> <<a[i]>>]
MeanV(a)  == MeanOf(Sample(a))[1]
SEM(a)    == RSqrt(RDiv(RDiv(ScatterOf(Sample(a))[1][1], Len(a) - 1), Len(a)))
Quant(lev, dist, n) == IF dist = "t" THEN TQ(lev, n - 1) ELSE NQ(lev)
Half(a, lev, dist) == RMul(Quant(lev, dist, Len(a)), SEM(a))
Lo(a, lev, dist) == RSub(MeanV(a), Half(a, lev, dist))
Hi(a, lev, dist) == RAdd(MeanV(a), Half(a, lev, dist))
=============================================================================
