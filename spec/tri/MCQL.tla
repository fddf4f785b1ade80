-------------------------------- MODULE MCQL --------------------------------
(***************************************************************************)
(* The QL iteration with implicit shifts as a transition system: at each   *)
(* step one sweep of plane rotations chases the shift from row m down to   *)
(* row l, or row l has converged.  Arithmetic to 200 bits.                 *)
(***************************************************************************)
EXTENDS Jacobi

CONSTANTS N, Diag, Off, MaxIter
VARIABLES d0, b0, d, e, Z, l, it
vars == <<d0, b0, d, e, Z, l, it>>

Rd(x) == RRound(x, 200)
Init == /\ d0 \in [1..N -> Diag] /\ b0 \in [1..(N - 1) -> Off]
        /\ d = d0 /\ e = Append(b0, "0") /\ Z = MId(N) /\ l = 1 /\ it = 0
Small(i) == RLe(RAbs(e[i]), RMul("1/4503599627370496", RAdd(RAbs(d[i]), RAbs(d[i + 1]))))
(* the block that starts at l ends at m *)
BlockEnd == LET S == {i \in l..(N - 1) : Small(i)} IN IF S = {} THEN N ELSE CHOOSE i \in S : \A j \in S : i <= j
Hyp(x, y) == Rd(RSqrt(RAdd(RMul(x, x), RMul(y, y))))
Signed(a, g) == IF RSign(g) >= 0 THEN RAbs(a) ELSE RNeg(RAbs(a))

(* one rotation of a sweep; the sweep is cut short when a rotation has nothing to rotate *)
Rot(s, i) ==
  IF s.cut THEN s
  ELSE LET f == RMul(s.s, s.e[i])
           b == RMul(s.c, s.e[i])
           r == Hyp(f, s.g)
       IN IF RSign(r) = 0
          THEN [s EXCEPT !.d[i + 1] = RSub(@, s.p), !.e[s.m] = "0", !.e[i + 1] = "0", !.cut = TRUE]
          ELSE LET sn == Rd(RDiv(f, r))
                   cs == Rd(RDiv(s.g, r))
                   g  == RSub(s.d[i + 1], s.p)
                   t  == Rd(RAdd(RMul(RSub(s.d[i], g), sn), RMul(2, RMul(cs, b))))
                   p  == Rd(RMul(sn, t))
               IN TLCEval([s EXCEPT !.e[i + 1] = r, !.s = sn, !.c = cs, !.p = p, !.d[i + 1] = Rd(RAdd(g, p)),
                      !.g = Rd(RSub(RMul(cs, t), b)),
                      !.Z = [k \in 1..N |-> [@[k] EXCEPT ![i + 1] = Rd(RAdd(RMul(sn, s.Z[k][i]), RMul(cs, s.Z[k][i + 1]))),
                                                         ![i] = Rd(RSub(RMul(cs, s.Z[k][i]), RMul(sn, s.Z[k][i + 1])))]]])
RECURSIVE SweepR(_, _)
SweepR(s, i) == IF i < l THEN s ELSE SweepR(Rot(s, i), i - 1)
Sweep(m) ==
  LET g0 == RDiv(RSub(d[l + 1], d[l]), RMul(2, e[l]))
      g  == Rd(RAdd(RSub(d[m], d[l]), RDiv(e[l], RAdd(g0, Signed(Hyp(g0, "1"), g0)))))
      s  == SweepR([d |-> d, e |-> e, Z |-> Z, g |-> g, s |-> "1", c |-> "1", p |-> "0", m |-> m, cut |-> FALSE], m - 1)
  IN /\ d' = IF s.cut THEN s.d ELSE [s.d EXCEPT ![l] = RSub(@, s.p)]
     /\ e' = IF s.cut THEN s.e ELSE [s.e EXCEPT ![l] = s.g, ![m] = "0"]
     /\ Z' = s.Z
Next ==
  /\ l <= N
  /\ IF BlockEnd = l \/ it > MaxIter
     THEN l' = l + 1 /\ it' = 0 /\ UNCHANGED <<d, e, Z>>
     ELSE Sweep(BlockEnd) /\ it' = it + 1 /\ UNCHANGED l
  /\ UNCHANGED <<d0, b0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TINY == "1/1000000000000000000000000000000"
OFFS == "1/1000000000000"                \* what a deflated entry may amount to
Orth      == MNear(MMul(MT(Z), Z), MId(N), TINY)
(* every state is an orthogonal similarity of the matrix given, up to deflated entries *)
Similar   == MNear(MMul(TriMat(d0, b0), Z), MMul(Z, TriMat(d, SubSeq(e, 1, N - 1))), OFFS)
Traces    == RNear(RSum(d), RSum(d0), TINY)
Converges == it <= 12
Result    == l > N => EigVals(SortSeq(d, LAMBDA x, y : RLt(x, y)), d0, Sq(b0), OFFS)
Ends      == <>(l > N)
=============================================================================
