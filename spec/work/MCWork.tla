-------------------------------- MODULE MCWork --------------------------------
(***************************************************************************)
(* The products of each algorithm, one at a time: loops over batches that  *)
(* stop by a criterion, sketches, leave-one-out sketches, expansions that  *)
(* may break down, and functions of operators inside loops.                *)
(* FAULT: "probe" multiplies once when an operator is handed over, "late"  *)
(* goes on after a breakdown, "again" multiplies the last batch again for  *)
(* the result, "eager" multiplies one batch more than it uses.             *)
(***************************************************************************)
EXTENDS Work, FiniteSets, TLC

CONSTANTS Dim, Degs, Budgets, Batches, FAULT
VARIABLES c, b, done, nit, left, inner, over, grade

vars == <<c, b, done, nit, left, inner, over, grade>>
Loops == {"hutch", "diag", "xtrace"}
Algs == Loops \cup {"hutchpp", "xdiag", "lanczos", "ritz", "function", "make"}
Fun(a) == a \in {"hutch", "diag", "hutchpp"}           \* may be handed a matrix function

Init == /\ c \in {[alg |-> a, dim |-> Dim, cost |-> k, m |-> m, deg |-> d, many |-> w] :
                  a \in Algs, k \in {1} \cup Degs, m \in Budgets, d \in Degs, w \in {1, 2}}
        /\ c.cost = 1 \/ (Fun(c.alg) /\ c.cost = Lesser(c.deg, Dim))
        /\ b \in IF c.alg = "diag" THEN {1} ELSE IF c.alg \in Loops THEN Batches ELSE {1}
        /\ grade \in 1..Dim                            \* where the Krylov space of a start vector ends
        /\ done = IF FAULT = "probe" /\ c.alg # "make" THEN 1 ELSE 0
        /\ nit = 0 /\ over = FALSE /\ inner = 0
        /\ left = CASE c.alg \in Loops -> 0
                    [] c.alg = "hutchpp" -> 3 * SketchSize(c)
                    [] c.alg = "xdiag" -> 2 * TestSize(c)
                    [] c.alg \in {"lanczos", "ritz"} -> 1
                    [] c.alg = "function" -> c.many
                    [] OTHER -> 0

(* what one application of the operator handed over costs *)
Reach(k) == IF FAULT = "late" THEN k ELSE Lesser(k, grade)
Cost == IF c.alg \in {"lanczos", "ritz", "function"} THEN Reach(Steps(c)) ELSE IF c.cost = 1 THEN 1 ELSE Reach(c.cost)
(* one vector is begun: inner products follow *)
Begin == /\ left > 0 /\ inner = 0
         /\ inner' = Cost /\ left' = left - 1
         /\ UNCHANGED <<c, b, done, nit, over, grade>>
Product == /\ inner > 0 /\ inner' = inner - 1 /\ done' = done + 1
           /\ UNCHANGED <<c, b, nit, left, over, grade>>
Width == IF c.alg = "xtrace" THEN Lesser(b, Dim - nit) ELSE b
Batch == /\ c.alg \in Loops /\ ~over /\ left = 0 /\ inner = 0 /\ nit < Dim + 1 /\ Width > 0
         /\ nit' = nit + Width
         /\ left' = (IF c.alg = "xtrace" THEN 2 ELSE 1) * Width
         /\ UNCHANGED <<c, b, done, inner, over, grade>>
Stop == /\ ~over /\ left = 0 /\ inner = 0
        /\ over' = TRUE
        /\ done' = CASE FAULT = "again" /\ c.alg \in Loops /\ nit > 0 -> done + 1
                     [] FAULT = "eager" /\ c.alg \in Loops -> done + b
                     [] OTHER -> done
        /\ UNCHANGED <<c, b, nit, left, inner, grade>>
Next == Begin \/ Product \/ Batch \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Product \/ Stop)

Within == done <= Bound(c, nit)
(* an expansion asks for no product once the Krylov space is exhausted *)
Broken == c.alg \in {"lanczos", "ritz"} => done <= grade
Lazy == c.alg = "make" => done = 0
Ends == <>(left = 0 /\ inner = 0)
=============================================================================
