------------------------------ MODULE TrCompose ------------------------------
(* Recorded computations with operators built from operators: each must     *)
(* give what it gives for the matrix the operator denotes.                  *)
EXTENDS TraceRun

CM == INSTANCE Compose
EPSC == "1/1099511627776"

Denoted(c) == [A |-> CM!Denote(c.term), magn |-> CM!Magn(c.term), eps |-> EPSC] @@ c

ColOf(o, j) == [i \in 1..o.sh[1] |-> o.v[(i - 1) * o.sh[2] + j]]
Spare(c) == RMul(4096 * Len(c.A), RMul(Eps(c), c.magn))
ApplyBad(c, e) ==
  IF ~e.ok THEN {"the call succeeds"}
  ELSE IF e.y.sh # (IF e.many THEN <<Len(c.A), Len(e.V)>> ELSE <<Len(c.A)>>) THEN {"one entry per row and column"}
  ELSE If(\A j \in DOMAIN e.V : VNear(IF e.many THEN ColOf(e.y, j) ELSE e.y.v, MVec(c.A, e.V[j]), RMul(Spare(c), VNorm(e.V[j]))),
          "applying an operator multiplies by the matrix it denotes")

(* moments: what the Jacobi matrix of k steps shares with the operator and the start vector *)
Jac(e) == LET k == Len(e.a) IN TLCEval([i \in 1..k |-> [j \in 1..k |-> IF i = j THEN e.a[i] ELSE IF i = j + 1 THEN e.b[j] ELSE IF j = i + 1 THEN e.b[i] ELSE "0"]])
Rounded(v) == TLCEval([i \in DOMAIN v |-> RRound(v[i], 200)])
Orbit(M, v, m) == FoldLeft(LAMBDA s, j : TLCEval(Append(s, Rounded(MVec(M, s[Len(s)])))), <<v>>, [j \in 1..m |-> j])
JacobiBad(c, e) ==
  IF ~e.ok THEN {"the call succeeds"}
  ELSE IF Len(e.a) # e.deg \/ Len(e.b) # e.deg - 1 \/ \E x \in Range(e.a) \cup Range(e.b) : ~RFinite(x) THEN {"the expansion has the degree asked for"}
  ELSE LET m == 2 * e.deg - 1
           S == Orbit(Jac(e), VUnit(e.deg, 1), m)
           K == Orbit(c.A, e.v, m)
           nn == VNormSq(e.v)
       IN If(\A j \in 0..m : RNear(S[j + 1][1], RDiv(RDot(e.v, K[j + 1]), nn), RMul("1/1000000000", RPow(RMax("1", c.magn), j))),
             "the expansion has the moments of the operator it was given")

RECURSIVE PowTrace(_, _, _)
PowTrace(A, M, j) == IF j = 0 THEN MTrace(M) ELSE PowTrace(A, TLCEval([i \in 1..Len(A) |-> Rounded(MMul(M, A)[i])]), j - 1)
RitzBad(c, e) ==
  IF ~e.ok THEN {"the call succeeds"}
  ELSE IF Len(e.w) # Len(c.A) \/ \E x \in Range(e.w) : ~RFinite(x) THEN {"as many Ritz values as the degree"}
  ELSE If(\A j \in 1..Len(c.A) : RNear(RSum([i \in DOMAIN e.w |-> RPow(e.w[i], j)]), PowTrace(c.A, MId(Len(c.A)), j), RMul("1/100000000", RPow(RMax("1", c.magn), j))),
          "at full degree the Ritz values are the spectrum of the operator")

StepC(s, e) ==
  CASE e.op = "call" -> LET c == TLCEval(Denoted(e.c))
                            r == Step(s, [op |-> "call", c |-> c])
                        IN [r EXCEPT !.bad = @ \cup If(CM!Sound(e.c.term), "MACHINERY: the description of the operator is wrong")]
    [] e.op = "apply"  -> [st |-> s, bad |-> ApplyBad(s.c, e)]
    [] e.op = "jacobi" -> [st |-> s, bad |-> JacobiBad(s.c, e)]
    [] e.op = "ritz"   -> [st |-> s, bad |-> RitzBad(s.c, e)]
    [] OTHER -> Step(s, e)

TInit == TraceStart
TNext == TraceStep(Fresh, StepC)
=============================================================================
