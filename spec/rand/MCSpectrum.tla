----------------------------- MODULE MCSpectrum -----------------------------
(* Every small spectrum in every basis of a few reflections.                *)
EXTENDS Spectrum

CONSTANTS N, Values
VARIABLES D, U, A
Ref(u) == MSub(MId(N), MScale(RDiv("2", VNormSq(u)), Outer(u, u)))
Bases == {MId(N)} \cup {Ref(u) : u \in [1..N -> {"1", "-1"}]} \cup {MMul(Ref(VUnit(N, 1)), Ref([i \in 1..N |-> RNum(i)]))}
Init == D \in [1..N -> Values] /\ U \in Bases /\ A = TLCEval(MMul(MMul(U, [i \in 1..N |-> VScale(D[i], VUnit(N, i))]), MT(U)))
Next == FALSE /\ UNCHANGED <<D, U, A>>
EPS == "1/1000000000000"
MINV == CHOOSE v \in Values : \A w \in Values : RLe(v, w)
MAXV == CHOOSE v \in Values : \A w \in Values : RLe(w, v)
Orthogonal == MMul(U, MT(U)) = MId(N)
Symmetric  == IsSym(A)
Found      == HasSpectrum(A, D, EPS)
(* and no other spectrum of these values is taken for it *)
Others     == \A E \in [1..N -> Values] : HasSpectrum(A, E, EPS) <=> \A v \in Values : Cardinality({i \in 1..N : E[i] = v}) = Cardinality({i \in 1..N : D[i] = v})
Definite   == PosDef(A) <=> \A i \in 1..N : RSign(D[i]) = 1
Inside     == Within(A, MINV, MAXV, EPS) /\ (\A v \in Values : (\E i \in 1..N : RLt(D[i], v)) => ~Within(A, v, MAXV, EPS))
Clipped    == \A i \in 1..N : RSign(Clip(D)[i]) >= 0 /\ (RSign(D[i]) >= 0 => Clip(D)[i] = D[i])
(* trace, Frobenius norm and isotropy determine the moments *)
HaarTrace  == RAdd(RMul(N, HaarDD(D)), RMul(N * (N - 1), HaarDE(D))) = RMul(P1(D), P1(D))
HaarNorm   == RAdd(RMul(N, HaarDD(D)), RMul(N * (N - 1), HaarOO(D))) = P2(D)
HaarTurn   == HaarDD(D) = RAdd(HaarDE(D), RMul(2, HaarOO(D)))
=============================================================================
