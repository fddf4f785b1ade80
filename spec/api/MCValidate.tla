----------------------------- MODULE MCValidate -----------------------------
(* Every case: all operators with ordinary other arguments, and all other   *)
(* arguments (up to Width of them unusual) with ordinary operators.         *)
EXTENDS Validate, Json

CONSTANTS Width, EMIT
VARIABLES fn, o, a
NoOp == [p |-> "", s |-> "", t |-> ""]
Plain == {[p |-> "array", s |-> "square", t |-> "f64"], [p |-> "sparse", s |-> "square", t |-> "f32"]}
Ordinary(f) == [k \in DOMAIN Attrs(f) |-> Default(f, k)]
(* built attribute by attribute: the product of all classes is too large to filter *)
RECURSIVE Vary(_, _, _)
Vary(f, K, w) == IF K = {} THEN {<< >>}
                 ELSE LET k == CHOOSE x \in K : TRUE
                          A == TLCEval(All(Attrs(f)[k]))
                          d == TLCEval(Default(f, k))
                      IN {(k :> d) @@ r : r \in Vary(f, K \ {k}, w)}
                         \cup (IF w = 0 THEN {} ELSE {(k :> v) @@ r : v \in A \ {d}, r \in Vary(f, K \ {k}, w - 1)})
Init == \/ /\ fn \in WithOperator /\ o \in Operators /\ a = Ordinary(fn)
        \/ /\ fn \in WithOperator /\ o \in Plain /\ a \in Vary(fn, DOMAIN Attrs(fn), Width)
        \/ /\ fn \in WithoutOperator /\ o = NoOp /\ a \in Vary(fn, DOMAIN Attrs(fn), Width)
Next == FALSE /\ UNCHANGED <<fn, o, a>>

V == Verdict(fn, o, a)
(* every refusal has a reason, and putting the reasons right leaves nothing to refuse *)
Repaired == [k \in DOMAIN a |-> IF k \in Reasons(fn, o, a) THEN Default(fn, k) ELSE a[k]]
Fixable == V = "refuse" => Reasons(fn, o, a) # {} /\ Reasons(fn, CHOOSE p \in Plain \cup {NoOp} : fn \notin WithOperator \/ p \in Plain, Repaired) = {}
Classes == \A k \in DOMAIN a : LET d == Attrs(fn)[k] IN d.good \cap d.bad = {} /\ d.open \cap (d.good \cup d.bad) = {}
OrdinaryAnswered == a = Ordinary(fn) /\ (fn \notin WithOperator \/ o \in Plain) => V = "answer"
Agreement == fn = "is_valid_operator" /\ V = "answer" => Linear(o)
Emit == ~EMIT \/ PrintT("@HIST " \o ToJson([fn |-> fn, o |-> o, a |-> a]))
=============================================================================
