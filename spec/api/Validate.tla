------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* Which calls are answered and which are refused.  Arguments are known by *)
(* their class; Verdict(fn, a) is "answer", "refuse", or "either" for the  *)
(* classes about which the library promises nothing.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* ------------------------------------------------------------ operators *)
(* p: how the product is provided; s: the shape; t: the entries.           *)
Products == {"array", "sparse", "linop", "both", "matmul", "matvec", "dot", "bare"}      \* bare: no product at all
Foreign  == {"list", "nothing", "text", "number", "function", "class", "dict"}
Shapes   == {"square", "one", "wide", "tall", "vector", "cube", "scalar", "empty", "emptywide", "int", "null", "absent"}
Types    == {"f64", "f32", "i64", "bool", "c128", "f16", "long", "object", "none"}
OpOk(o) == CASE o.p = "array"  -> o.s \notin {"int", "null", "absent"} /\ o.t # "none"
             [] o.p \in {"sparse", "linop"} -> o.s \in {"square", "one", "wide", "tall", "empty", "emptywide"} /\ o.t \in {"f64", "f32", "i64", "c128"}
             [] o.p \in Products -> o.t \in {"f64", "f32", "i64", "c128", "none"}
             [] OTHER -> o.s = "absent" /\ o.t = "none"
Operators == {o \in [p : Products \cup Foreign, s : Shapes, t : Types] : OpOk(o)}

HasProduct(o) == o.p \in Products \ {"bare"}
Square(o)     == o.s \in {"square", "one", "empty"}
Linear(o)     == HasProduct(o) /\ Square(o)
Full(o)       == o.p \in {"array", "sparse", "linop", "both"}
Float(o)      == o.t \in {"f64", "f32"} \/ (o.t = "none" /\ o.p \in Products)

Good == "good"  Bad == "bad"  Open == "open"
OpVerdict(fn, o) ==
  CASE fn = "is_valid_operator" /\ o.s = "cube" /\ HasProduct(o) /\ Float(o) -> Open      \* stacks of square matrices
    [] fn \in {"hutch", "hutchpp", "diag", "is_valid_operator"} ->
         IF ~Linear(o) \/ ~Float(o) THEN Bad ELSE IF Full(o) THEN Good ELSE Open
    [] fn = "xtrace" -> IF ~Linear(o) THEN Bad ELSE IF Full(o) /\ Float(o) THEN Good ELSE Open
    [] fn = "xdiag"  -> IF ~Linear(o) THEN Bad ELSE IF o.p \in {"array", "sparse"} /\ Float(o) /\ o.s # "empty" THEN Good ELSE Open
    [] fn \in {"lanczos", "rayleigh_ritz"} ->
         IF ~Linear(o) \/ ~Float(o) \/ o.s = "empty" THEN Bad ELSE IF Full(o) THEN Good ELSE Open
    [] fn = "MatrixFunction" -> IF ~Linear(o) THEN Bad ELSE IF Full(o) /\ Float(o) /\ (o.s # "empty" \/ o.p = "array") THEN Good ELSE Open
    [] fn = "normalize_unit" -> IF o.p \in Foreign \cup {"bare"} \/ ~Square(o) THEN Bad ELSE IF o.p \in {"array", "sparse", "linop"} /\ o.s = "square" /\ o.t \in {"f64", "f32"} THEN Good ELSE Open
    [] fn = "is_linear_op" -> Good
    [] OTHER -> Bad

(* ------------------------------------------------------ other arguments *)
D(good, bad, open) == [good |-> good, bad |-> bad, open |-> open]
Pdf  == D({"default", "rademacher", "signs", "normal", "gaussian", "sphere"}, {"x", "Normal", "", "uniform"}, {})
Crit == D({"default", "count", "tolerance", "Count", "object"}, {"x", "", "None", "3"}, {})
Deg  == D({"none", "1", "2", "9"}, {"0", "-1"}, {})
Seed == D({"none", "int", "gen"}, {"text", "negative", "fraction"}, {})
Solver == D({"auto", "mrrr", "tqli"}, {"x", "MRRR", ""}, {})
Off    == D({"n-1", "n"}, {"n+1", "n-2"}, {})
Attrs(fn) ==
  CASE fn = "hutch"    -> [pdf |-> Pdf, crit |-> Crit, batch |-> D({"1", "4"}, {"0", "-1"}, {}), full |-> D({"yes"}, {}, {"no"})]
    [] fn = "hutchpp"  -> [pdf |-> Pdf, m |-> D({"none", "3"}, {}, {}), full |-> D({"yes", "no"}, {}, {})]
    [] fn = "diag"     -> [pdf |-> Pdf, crit |-> Crit, full |-> D({"yes", "no"}, {}, {})]
    [] fn = "xtrace"   -> [pdf |-> Pdf, crit |-> Crit, batch |-> D({"1", "4"}, {"0", "-1"}, {})]
    [] fn = "xdiag"    -> [pdf |-> Pdf, m |-> D({"none", "2", "3", "4"}, {}, {})]
    [] fn = "lanczos"  -> [deg |-> Deg, v0 |-> D({"none", "ok", "list", "column"}, {"short", "long", "row", "matrix"}, {}), dtype |-> D({"none", "f32", "f64"}, {"int", "f16"}, {}),
                           image |-> D({"full"}, {"short", "long"}, {}), outs |-> D({"none", "ok"}, {"short alpha", "long beta", "int alpha", "strided alpha", "Q order", "Q shape", "Q type"}, {})]
    [] fn = "rayleigh_ritz" -> [deg |-> Deg, v0 |-> D({"none", "ok"}, {"short", "long", "matrix"}, {}), method |-> D({"default", "rrr", "RRR", "tqli"}, {"x", "", "qr"}, {"mrrr"}), image |-> D({"full"}, {"short", "long"}, {})]
    [] fn = "MatrixFunction" -> [deg |-> D({"none", "2", "9"}, {"1", "0", "-3"}, {}), fun |-> D({"none", "exp", "callable"}, {"unknown name", "number", "short values", "one value"}, {}),
                           dtype |-> D({"none", "f32", "f64"}, {"int", "complex"}, {}),
                           use |-> D({"construct", "matvec", "quad", "quad of two", "direct"}, {"matvec short", "matvec long", "quad short", "quad long", "quad transposed", "direct short", "direct long", "matvec cut", "quad cut"}, {})]
    [] fn = "quadrature" -> [off |-> Off, first |-> D({"zero"}, {"nonzero"}, {}), quad |-> D({"gw", "golub_welsch", "fttr"}, {"x", "GW", ""}, {}), deg |-> Deg,
                           outs |-> D({"none", "ok"}, {"short", "long", "short weights"}, {})]
    [] fn \in {"eigh_tridiag", "eigvalsh_tridiag"} -> [off |-> Off, method |-> Solver]
    [] fn = "update_trinv" -> [B |-> D({"square", "empty"}, {"wide", "tall", "vector", "cube"}, {}), b |-> D({"ok", "column"}, {"short", "long"}, {}), types |-> D({"same"}, {"mixed"}, {})]
    [] fn = "isotropic" -> [pdf |-> Pdf, out |-> D({"none", "array"}, {"list", "int array"}, {}), seed |-> Seed]
    [] fn = "Isotropic" -> [pdf |-> Pdf, threads |-> D({"1", "3"}, {"0", "-1"}, {}), seed |-> Seed]
    [] fn = "symmetric" -> [dist |-> D({"default", "normal", "uniform"}, {"x", "Normal", ""}, {}), ew |-> D({"none", "ok"}, {"short", "long", "one"}, {}), seed |-> Seed]
    [] fn = "haar" -> [ew |-> D({"none", "ok"}, {"short", "long", "one"}, {}), seed |-> Seed]
    [] fn = "confidence_interval" -> [conf |-> D({"0", "0.5", "1"}, {"1.5", "-0.1", "nan", "text", "None"}, {}), sdist |-> D({"default", "t", "normal"}, {"x", "T", ""}, {})]
    [] fn = "ConfidenceCriterion" -> [conf |-> D({"0.5", "0.95"}, {"0", "1", "-1", "1.5", "nan"}, {})]
    [] fn = "convergence_criterion" -> [crit |-> D({"count", "tolerance", "confidence", "knee", "Tolerance", "object"}, {"x", "", "default", "None", "3"}, {})]
    [] fn = "update" -> [cls |-> D({"Mean", "Covariance", "MeanEstimator", "covariance MeanEstimator", "ControlVariableEstimator"}, {}, {}), data |-> D({"ok", "one sample"}, {"wide", "narrow", "vector"}, {})]
    [] fn = "ControlVariableEstimator" -> [alpha |-> D({"none", "ok"}, {"short", "long"}, {})]
    [] fn = "param_callable" -> [name |-> D({"None", "identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank", "callable"}, {"x", "Exp", "", "sign", "3"}, {})]
    [] fn = "smoothstep" -> [deg |-> D({"1", "3", "5"}, {"0", "2", "4"}, {})]
    [] fn = "Toeplitz" -> [r |-> D({"none", "ok"}, {"short", "long"}, {}), x |-> D({"ok", "column"}, {"short", "long"}, {})]
    [] OTHER -> [none |-> D({"none"}, {}, {})]

WithOperator == {"hutch", "hutchpp", "diag", "xtrace", "xdiag", "lanczos", "rayleigh_ritz", "MatrixFunction", "normalize_unit", "is_linear_op", "is_valid_operator"}
WithoutOperator == {"quadrature", "eigh_tridiag", "eigvalsh_tridiag", "update_trinv", "isotropic", "Isotropic", "symmetric", "haar", "confidence_interval", "ConfidenceCriterion",
                    "convergence_criterion", "update", "ControlVariableEstimator", "param_callable", "smoothstep", "Toeplitz"}

All(d) == d.good \cup d.bad \cup d.open
Default(fn, k) == LET d == Attrs(fn)[k] IN IF "none" \in d.good THEN "none" ELSE IF "default" \in d.good THEN "default" ELSE CHOOSE x \in d.good : TRUE

(* combinations of classes that say nothing about each other alone *)
Excused(fn, o, a) ==
  \/ fn = "lanczos" /\ a.dtype # "none" /\ o.t \notin {"f64", "f32", "none"} /\ Linear(o) /\ o.s # "empty"    \* the requested precision stands in for that of the operator
  \/ fn = "rayleigh_ritz" /\ a.method = "tqli" /\ o.t = "f32"                                            \* not available in single precision
  \/ fn = "hutch" /\ a.full = "no" /\ a.batch \in {"0", "-1"}                                            \* not used
  \/ fn = "quadrature" /\ a.first = "nonzero" /\ a.off # "n"                                             \* no first entry to speak of
  \/ fn = "update_trinv" /\ a.B # "square" /\ a.b \in {"short", "long"} /\ a.B # "empty"
  \/ fn = "isotropic" /\ a.out # "none" /\ FALSE
Reasons(fn, o, a) == {k \in DOMAIN a : a[k] \in Attrs(fn)[k].bad} \cup (IF fn \in WithOperator /\ OpVerdict(fn, o) = Bad THEN {"operator"} ELSE {})
Undecided(fn, o, a) == Excused(fn, o, a) \/ (fn = "xtrace" /\ a.pdf \in {"rademacher", "signs"})      \* few sign vectors of this size: repeats are refused
                       \/ (\E k \in DOMAIN a : a[k] \in Attrs(fn)[k].open) \/ (fn \in WithOperator /\ OpVerdict(fn, o) = Open)
Verdict(fn, o, a) == IF Excused(fn, o, a) THEN "either" ELSE IF Reasons(fn, o, a) # {} THEN "refuse" ELSE IF Undecided(fn, o, a) THEN "either" ELSE "answer"
=============================================================================
