------------------------------ MODULE Compose -------------------------------
(***************************************************************************)
(* Operators built from operators.  A term describes how an operator was   *)
(* constructed; Denote is the matrix it stands for, Product what applying  *)
(* it does, using nothing of its parts but their products.                 *)
(*   matrix (A)            toeplitz (c, r)        unit (of, a)              *)
(*   fun (of, f, deg), with a spectral decomposition (U, D) of the matrix   *)
(*   of `of` unless f is a polynomial                                       *)
(*   sum (x, y)   times (x, y)   scaled (s, of)   adjoint (of)              *)
(***************************************************************************)
EXTENDS LinAlg

SF == INSTANCE SpectralFun
TZ == INSTANCE Toeplitz
UN == INSTANCE Unit
KR == INSTANCE Krylov

RECURSIVE MPolyR(_, _, _)
MPolyR(c, M, i) == IF i = Len(c) THEN MScale(c[i], MId(Rows(M))) ELSE MAdd(MScale(c[i], MId(Rows(M))), MMul(M, MPolyR(c, M, i + 1)))
MPoly(c, M) == MPolyR(c, M, 1)

RECURSIVE MSpecR(_, _, _, _)
MSpecR(f, U, D, j) ==
  LET u == Col(U, j)
      x == MScale(RDiv(RRound(SF!F(f, D[j]), 160), VNormSq(u)), Outer(u, u))
  IN IF j = Len(D) THEN x ELSE MAdd(x, MSpecR(f, U, D, j + 1))
Decomposed(M, U, D) == /\ MMul(M, U) = [i \in 1..Rows(M) |-> VMulE(U[i], D)]
                       /\ \A i, j \in 1..Len(D) : i < j => RSign(RDot(Col(U, i), Col(U, j))) = 0
                       /\ \A j \in 1..Len(D) : RSign(VNormSq(Col(U, j))) = 1

RECURSIVE Denote(_)
Denote(t) ==
  TLCEval(CASE t.k = "matrix"   -> t.A
            [] t.k = "toeplitz" -> TZ!Dense(t.c, t.r)
            [] t.k = "unit"     -> UN!UnitMat(Denote(t.of), t.a)
            [] t.k = "fun"      -> IF t.f.name = "poly" THEN MPoly(t.f.c, Denote(t.of)) ELSE MSpecR(t.f, t.U, t.D, 1)
            [] t.k = "sum"      -> MAdd(Denote(t.x), Denote(t.y))
            [] t.k = "times"    -> MMul(Denote(t.x), Denote(t.y))
            [] t.k = "scaled"   -> MScale(t.s, Denote(t.of))
            [] t.k = "adjoint"  -> MT(Denote(t.of)))

(* what a description claims about its parts *)
RECURSIVE Sound(_)
Sound(t) ==
  CASE t.k \in {"matrix", "toeplitz"} -> TRUE
    [] t.k = "unit" -> LET M == Denote(t.of) IN Sound(t.of) /\ IsSym(M) /\ Singular(MSub(M, MScale(t.a, MId(Rows(M)))))
    [] t.k = "fun"  -> LET M == Denote(t.of) IN Sound(t.of) /\ IsSym(M) /\ (t.f.name = "poly" \/ Decomposed(M, t.U, t.D))
    [] t.k \in {"sum", "times"} -> Sound(t.x) /\ Sound(t.y)
    [] OTHER -> Sound(t.of)

(* a bound on the numbers that appear when the operator is applied to a unit vector *)
RECURSIVE Magn(_)
Magn(t) ==
  CASE t.k = "matrix"   -> KR!NormF(t.A)
    [] t.k = "toeplitz" -> RMul(Len(t.c), RMax(VNorm(t.c), VNorm(t.r)))
    [] t.k = "unit"     -> RAdd("1", RDiv(Magn(t.of), RAbs(t.a)))
    [] t.k = "fun"      -> LET r == Magn(t.of) IN RRound(RMul(4, RAdd(RMax("1", SF!FSize(t.f, r)), RMul(SF!FSlope(t.f, r), r))), 30)
    [] t.k = "sum"      -> RAdd(Magn(t.x), Magn(t.y))
    [] t.k = "times"    -> RMul(Magn(t.x), Magn(t.y))
    [] t.k = "scaled"   -> RMul(RAbs(t.s), Magn(t.of))
    [] t.k = "adjoint"  -> Magn(t.of)

\* ---- how products are formed
RECURSIVE Product(_, _), Expanded(_, _, _, _, _)
Expanded(t, prev, cur, bs, k) ==         \* the Lanczos expansion, seeing only products
  LET Ac == Product(t, cur)
      nn == VNormSq(cur)
      a  == RDiv(RDot(cur, Ac), nn)
      nx == VSub(VSub(Ac, VScale(a, cur)), VScale(bs, prev))
      e  == TLCEval([p |-> cur, nn |-> nn, a |-> a, next |-> nx, b |-> RDiv(VNormSq(nx), nn)])
  IN IF k = 1 \/ RSign(e.b) = 0 THEN <<e>> ELSE <<e>> \o Expanded(t, cur, e.next, e.b, k - 1)
Product(t, v) ==
  TLCEval(CASE t.k = "matrix"   -> MVec(t.A, v)
            [] t.k = "toeplitz" -> SubSeq(TZ!Convolve(TZ!Symbol(t.c, t.r), v \o VZero(Len(v))), 1, Len(v))
            [] t.k = "unit"     -> VScale(RDiv("1", RMul(2, t.a)), VAdd(Product(t.of, v), VScale(t.a, v)))
            [] t.k = "fun"      -> IF RSign(VNormSq(v)) = 0 THEN v ELSE KR!KrylovApply(Expanded(t.of, VZero(Len(v)), v, "0", t.deg), t.f.c)
            [] t.k = "sum"      -> VAdd(Product(t.x, v), Product(t.y, v))
            [] t.k = "times"    -> Product(t.x, Product(t.y, v))
            [] t.k = "scaled"   -> VScale(t.s, Product(t.of, v))
            [] t.k = "adjoint"  -> Product(t.of, v))           \* all others here are symmetric
(* the quadratic form of a matrix function: Lanczos quadrature *)
Quad(t, v) == KR!KrylovQuad(Expanded(t.of, VZero(Len(v)), v, "0", t.deg), t.f.c)
=============================================================================
