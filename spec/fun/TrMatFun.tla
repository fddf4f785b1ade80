------------------------------ MODULE TrMatFun ------------------------------
(* Recorded applications of a matrix-function operator.  The configuration  *)
(* of a history describes the operators; every application is compared with *)
(* f(A)v, independently of what happened before.                            *)
EXTENDS MatFun, TraceKit

Fresh(cfg) == [c |-> cfg, f |-> cfg.f, seen |-> << >>]

Eps(c) == IF c.prec = 32 THEN "1/8388608" ELSE EPSF
Dim(c) == Len(c.A)
Degree(c) == IF c.deg > Dim(c) THEN Dim(c) ELSE c.deg
Lim(c) == IF c.prec = 32 THEN "1/50" ELSE "1/10000"

Scale(c, f) == LET r == NormF(c.A) IN RAdd(RMax("1", FSize(f, r)), RMul(FSlope(f, r), r))
Tq(c, E) == RMul(RMul(1024 * Dim(c), Eps(c)), Amp(c.A, E, Len(E)))
(* jumps of f must not be where the Ritz values are *)
Clear(f, w) ==
  CASE f.name = "numrank" -> \A i \in DOMAIN w : ~RNear(RAbs(w[i]), f.threshold, RMul(f.threshold, "1/2"))
    [] f.name = "step" -> \A i \in DOMAIN w : ~RNear(IF f.nonneg THEN RAbs(w[i]) ELSE w[i], f.c, "1/1000")
    [] f.name = "abs"  -> TRUE
    [] f.name \in {"sqrt", "log", "inv"} -> \A i \in DOMAIN w : RLe("1/3", RAbs(w[i])) /\ (f.name = "inv" \/ RSign(w[i]) = 1)
    [] OTHER -> TRUE
Defined(c, f) == ~Has(c, "D") \/ Clear(f, c.D)

(* long expansions to the end of the Krylov space, fully re-orthogonalized: only the result is compared *)
Long(c) == Has(c, "tier") /\ c.tier = "long"
FTop(c, f) == TLCEval(VMaxAbs([j \in 1..Len(c.D) |-> F(f, c.D[j])]))
LTol(c, f, v) == RMul("1/100000000", RMul(RMax("1", FTop(c, f)), VNorm(v)))
ApplyLong(c, f, v, y) == If(VNear(y, SpecApply(f, c.U, c.D, v), LTol(c, f, v)), "f(A)v is exact when the Krylov space is exhausted")
QuadLong(c, f, v, y)  == If(RNear(y, RDot(v, SpecApply(f, c.U, c.D, v)), RMul(VNorm(v), LTol(c, f, v))), "v'f(A)v is exact when the Krylov space is exhausted")

(* what application to v must give; y is observed (one column), q: its quadratic form *)
ApplyBad(c, f, v, y) ==
  LET k == Degree(c)
      E == Expand(c.A, v, k)
      w == Ritz(Alphas(E), BetaSq(E))
      tq == Tq(c, E)
      tol == RMul(RMul(tq, Scale(c, f)), VNorm(v))
      poly == f.name = "poly"
  IN IF RSign(VNormSq(v)) = 0 THEN If(\A i \in DOMAIN y : RNear(y[i], "0", "0"), "f(A) maps zero to zero")
     ELSE IF RLt(Lim(c), tq) \/ ~(poly \/ Clear(f, w)) THEN {}
     ELSE If(\A i \in DOMAIN y : RFinite(y[i]), "no entry is nan")
          \cup If(VNear(y, FunApply(f, E, w), tol), "the result is f of the projected operator in the Krylov basis")
          \cup If(~poly \/ (Len(f.c) > k /\ ~Exhausted(E)) \/ VNear(y, PApply(f.c, c.A, v), tol), "polynomials of degree below the Krylov degree are applied exactly")
          \cup If(~Has(c, "U") \/ ~Exhausted(E) \/ ~Defined(c, f) \/ VNear(y, SpecApply(f, c.U, c.D, v), tol), "f(A)v is exact when the Krylov space is exhausted")
QuadBad(c, f, v, y) ==
  LET k == Degree(c)
      E == Expand(c.A, v, k)
      w == Ritz(Alphas(E), BetaSq(E))
      tq == Tq(c, E)
      tol == RMul(RMul(tq, Scale(c, f)), VNormSq(v))
      poly == f.name = "poly"
  IN IF RSign(VNormSq(v)) = 0 THEN If(RNear(y, "0", "0"), "the quadratic form of zero is zero")
     ELSE IF RLt(Lim(c), tq) \/ ~(poly \/ Clear(f, w)) THEN {}
     ELSE If(RFinite(y), "no entry is nan")
          \cup If(RNear(y, FunQuad(f, E, w), tol), "the quadratic form is Lanczos quadrature")
          \cup If(~poly \/ (Len(f.c) > 2 * k /\ ~Exhausted(E)) \/ RNear(y, RDot(v, PApply(f.c, c.A, v)), tol), "quadratic forms of polynomials of degree below twice the Krylov degree are exact")
          \cup If(~Has(c, "U") \/ ~Exhausted(E) \/ ~Defined(c, f) \/ RNear(y, RDot(v, SpecApply(f, c.U, c.D, v)), tol), "v'f(A)v is exact when the Krylov space is exhausted")

Union(S) == UNION S
ShapeOf(e, c) == CASE e.op = "quad" -> <<Len(e.V)>>
                   [] e.many -> <<Dim(c), Len(e.V)>>
                   [] e.column -> <<Dim(c), 1>>
                   [] OTHER -> <<Dim(c)>>
ColObs(o, j, m) == [i \in 1..(Len(o.v) \div m) |-> o.v[(i - 1) * m + j]]
SameObs(a, b, tol) == a.sh = b.sh /\ \A i \in DOMAIN a.v : a.v[i] = b.v[i] \/ RNear(a.v[i], b.v[i], tol)
VMax(e) == VMaxAbs([j \in 1..Len(e.V) |-> VNorm(e.V[j])])

AppStep(s, e) ==
  LET c == s.c
      f == s.f
      m == Len(e.V)
  IN [st |-> IF e.ok THEN [s EXCEPT !.seen = Append(@, e.y)] ELSE s,
      bad |-> IF ~e.ok THEN {"the call succeeds"}
              ELSE IF e.y.sh # ShapeOf(e, c) THEN {"the result has one entry per row and column asked for"}
              ELSE Union({IF Long(c) THEN (IF e.op = "quad" THEN QuadLong(c, f, e.V[j], e.y.v[j]) ELSE ApplyLong(c, f, e.V[j], ColObs(e.y, j, m)))
                          ELSE IF e.op = "quad" THEN QuadBad(c, f, e.V[j], e.y.v[j]) ELSE ApplyBad(c, f, e.V[j], ColObs(e.y, j, m)) : j \in 1..m})
                   \cup If(e.kept, "arguments are left alone")
                   \cup If(~Has(e, "fresh") \/ SameObs(e.y, e.fresh, RMul("1/10000000000", RMul(Scale(c, f), RMul(IF c.prec = 32 THEN "100000" ELSE "1", RMax(VMax(e), RMul(VMax(e), VMax(e))))))), "a fresh operator gives the same result")]

Step(s, e) ==
  CASE e.op \in {"apply", "quad"} -> AppStep(s, e)
    [] e.op = "setfun" -> [st |-> [s EXCEPT !.f = e.f], bad |-> If(e.ok, "the function can be replaced")]
    [] e.op = "reread" -> [st |-> s, bad |-> If(e.ys = s.seen, "earlier results stay as they were")]
    [] e.op = "info"   -> [st |-> s, bad |-> If(e.ok /\ e.degree = Degree(s.c), "the degree is capped by the dimension")
                                              \cup If(e.ok /\ e.shape = <<Dim(s.c), Dim(s.c)>>, "the operator has the shape of A")
                                              \cup (IF Has(s.c, "U") /\ ~Long(s.c) THEN If(Decomposes(s.c.A, s.c.U, s.c.D), "MACHINERY: the spectral decomposition is wrong") ELSE {})]

TInit == TraceStart
TNext == TraceStep(Fresh, Step)
=============================================================================
