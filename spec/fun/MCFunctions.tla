---------------------------- MODULE MCFunctions ----------------------------
(* Every built-in function with every parameter choice, at every pair of    *)
(* points of a grid: the laws that make it the function it names.           *)
EXTENDS SpectralFun, TLC, Json

CONSTANTS Grid, Rates, Orders, Thresholds, EMIT
VARIABLES f, x, y

Bounds == {<<"0", "1">>, <<"-1", "3">>, <<"1/4", "1/2">>, <<"2", "2">>, <<"1", "0">>}

Funs == {[name |-> n] : n \in {"identity", "abs", "sqrt", "log", "inv"}}
        \cup {[name |-> "exp", t |-> t] : t \in Rates}
        \cup {[name |-> "smoothstep", a |-> b[1], b |-> b[2]] : b \in Bounds}
        \cup {[name |-> "softsign", q |-> q] : q \in Orders}
        \cup {[name |-> "numrank", threshold |-> t] : t \in Thresholds}
        \cup {[name |-> "step", c |-> t, nonneg |-> n] : t \in Thresholds, n \in BOOLEAN}
Init == f \in Funs /\ x \in Grid /\ y \in Grid
Next == FALSE /\ UNCHANGED <<f, x, y>>

Close(a, b) == RNear(a, b, RMul("1/1000000000000000000000000", RAdd("1", RAdd(RAbs(a), RAbs(b)))))
Neg(a) == RNeg(a)
Is(n) == f.name = n
Pos(a) == RSign(a) = 1

Odd       == (Is("softsign") \/ Is("identity")) => F(f, Neg(x)) = Neg(F(f, x))
Even      == (Is("abs") \/ Is("numrank") \/ (Is("step") /\ f.nonneg)) => F(f, Neg(x)) = F(f, x)
Monotone  == (f.name \in {"identity", "softsign", "log"} \/ (Is("step") /\ ~f.nonneg) \/ (Is("smoothstep") /\ RLe(f.a, f.b)) \/ (Is("exp") /\ RSign(f.t) >= 0))
             => (RLe(x, y) => RLe(F(f, x), F(f, y)))
Unit      == f.name \in {"smoothstep", "numrank", "step"} => RLe("0", F(f, x)) /\ RLe(F(f, x), "1")
SoftUnit  == Is("softsign") => /\ RLe(RAbs(F(f, x)), "1")
                               /\ (RLe("1", x) => F(f, x) = "1")
                               /\ F(f, "0") = "0"
                               \* better with the order, never past the sign
                               /\ (Pos(x) => RLe(F([f EXCEPT !.q = @ + 1], x), "1") /\ RLe(F(f, x), F([f EXCEPT !.q = @ + 1], x)))
SoftFirst == (Is("softsign") /\ f.q = 0) => F(f, x) = Clamp(x, "-1", "1")
Step3     == (Is("smoothstep") /\ f.a # f.b) =>
               /\ F(f, f.a) = "0" /\ F(f, f.b) = "1"
               /\ F(f, RDiv(RAdd(f.a, f.b), 2)) = "1/2"
               /\ RAdd(F(f, x), F(f, RSub(RAdd(f.a, f.b), x))) = "1"
Exp       == Is("exp") => /\ F(f, "0") = "1" /\ Close(F(f, RAdd(x, y)), RMul(F(f, x), F(f, y)))
                          /\ Close(RLog(F(f, x)), RMul(f.t, x))
Log       == (Is("log") /\ Pos(x) /\ Pos(y)) => /\ (RLe(EPSF, x) /\ RLe(EPSF, y) /\ RLe(EPSF, RMul(x, y))) => Close(F(f, RMul(x, y)), RAdd(F(f, x), F(f, y)))
LogGuard  == Is("log") => RFinite(F(f, x)) /\ (RLe(x, "0") => F(f, x) = F(f, EPSF))
Root      == (Is("sqrt") /\ RLe("0", x)) => Close(RMul(F(f, x), F(f, x)), x)
Inv       == (Is("inv") /\ x # "0") => F(f, F(f, x)) = x
Rank      == Is("numrank") => (F(f, x) = "1" <=> RLe(f.threshold, RAbs(x)))
Emit      == EMIT => (x = y => PrintT("@HIST " \o ToJson([f |-> f, x |-> x])))
=============================================================================
