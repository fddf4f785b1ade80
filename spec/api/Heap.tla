-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* What calls may write.  The caller sees arrays (what it passed, and what *)
(* calls returned) and objects; each has a content.  A call writes the     *)
(* arrays documented as its outputs and the state of the object it is made *)
(* on, and nothing else; what it returns is new.  When the caller writes   *)
(* one array, no other array and no object changes.                        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

(* the arguments documented as outputs *)
Outputs(fn) == CASE fn = "quadrature"    -> {"nodes", "weights"}
                 [] fn = "lanczos"       -> {"alpha", "beta", "Q"}
                 [] fn = "isotropic_out" -> {"out"}
                 [] OTHER                -> {}
(* may the state of the object the call is made on change? *)
Updates(fn) == fn \in {"update", "make"}

Unchanged(old, new, but) == \A x \in DOMAIN old : x \in but \/ (x \in DOMAIN new /\ new[x] = old[x])
Extend(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
=============================================================================
