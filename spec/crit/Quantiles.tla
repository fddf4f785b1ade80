----------------------------- MODULE Quantiles -----------------------------
(* Two-sided quantiles of Student's t and of the normal distribution, computed *)
(* to 35 digits from the closed forms of their distribution functions (Rat.java). *)
(* A level is a decimal string and stands for the double nearest to it.      *)
EXTENDS Rat, TLC
TQ(lev, df) == RTQuant(lev, df)
NQ(lev) == RNQuant(lev)
(* A double level p determines (1 + p)/2 only up to rounding: relative accuracy of a quantile computed from it. *)
QRel(lev) == LET p == RLevel(lev) IN RAdd("1/1000000000000", RDiv("1/562949953421312", RMul(p, RSub(1, p))))
=============================================================================
