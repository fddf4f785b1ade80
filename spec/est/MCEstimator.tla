---------------------------- MODULE MCEstimator ----------------------------
(* Exhaustive exploration of Estimator for two objects and small batches,   *)
(* and generation of behaviours that are stepped through the real classes.  *)
EXTENDS Estimator, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Vals, MaxRows, MaxOps, Objs, Dims, MaxBatch, EMIT

VARIABLES objs, rows, prev, snaps, hist
vars == <<objs, rows, prev, snaps, hist>>
View == <<objs, rows, snaps, Len(hist)>>

Batches(d) == UNION {[1..b -> [1..d -> Vals]] : b \in 1..MaxBatch}
NoObj == [k |-> "none"]

Init == /\ objs = [o \in Objs |-> NoObj]
        /\ rows = [o \in Objs |-> << >>]
        /\ prev = [o \in Objs |-> << >>]
        /\ snaps = << >>
        /\ hist = << >>

Log(e) == hist' = Append(hist, e)
Room == Len(hist) < MaxOps

New(o, k, d, r) ==
  /\ Room /\ objs[o] = NoObj
  /\ (k \in {"mean", "cov"} => ~r)
  /\ objs' = [objs EXCEPT ![o] = NewObj(k, d, r)]
  /\ prev' = [prev EXCEPT ![o] = VZero(d)]
  /\ UNCHANGED <<rows, snaps>>
  /\ Log([op |-> "new", o |-> o, k |-> k, dim |-> d, rec |-> r])

Update(o, B) ==
  /\ Room /\ objs[o] # NoObj /\ RowsOk(objs[o], B)
  /\ Len(rows[o]) + Len(B) <= MaxRows
  /\ objs' = [objs EXCEPT ![o] = Updated(objs[o], B)]
  /\ rows' = [rows EXCEPT ![o] = rows[o] \o B]
  /\ prev' = [prev EXCEPT ![o] = objs[o].acc.mu]
  /\ UNCHANGED snaps
  /\ Log([op |-> "update", o |-> o, rows |-> B])

(* an update with rows of the wrong width is refused and changes nothing *)
BadUpdate(o) ==
  /\ Room /\ objs[o] # NoObj
  /\ UNCHANGED <<objs, rows, prev, snaps>>
  /\ Log([op |-> "badupdate", o |-> o, rows |-> <<[i \in 1..(objs[o].dim + 1) |-> "7"]>>])

(* the caller keeps what the estimator returned, and later overwrites the array it passed in *)
Snap(o) ==
  /\ Room /\ objs[o] # NoObj /\ objs[o].acc.n > 0 /\ Len(snaps) < 2
  /\ snaps' = Append(snaps, objs[o].acc.mu)
  /\ UNCHANGED <<objs, rows, prev>>
  /\ Log([op |-> "snap", o |-> o])
Scribble(o) ==
  /\ Room /\ objs[o] # NoObj /\ objs[o].acc.n > 0
  /\ UNCHANGED <<objs, rows, prev, snaps>>
  /\ Log([op |-> "scribble", o |-> o])

Next == \E o \in Objs :
          \/ \E k \in Kinds, d \in Dims, r \in BOOLEAN : New(o, k, d, r)
          \/ objs[o] # NoObj /\ \E B \in Batches(objs[o].dim) : Update(o, B)
          \/ BadUpdate(o) \/ Snap(o) \/ Scribble(o)
Spec == Init /\ [][Next]_vars

\* ---- properties
Live == {o \in Objs : objs[o] # NoObj}
MomentsExact ==
  \A o \in Live : LET a == objs[o].acc IN
     /\ a.n = Len(rows[o])
     /\ a.n > 0 => /\ a.mu = MeanOf(rows[o])
                   /\ a.S = ScatterOf(rows[o])
                   /\ \A i \in 1..objs[o].dim : RLe(0, a.S[i][i]) /\ \A j \in 1..objs[o].dim :
                        /\ a.S[i][j] = a.S[j][i]
                        /\ RLe(RMul(a.S[i][j], a.S[i][j]), RMul(a.S[i][i], a.S[j][j]))
DeltaIsChange ==
  \A o \in Live : objs[o].acc.n > 0 => objs[o].delta = VSub(objs[o].acc.mu, prev[o])
Recorded == \A o \in Live : objs[o].vals = IF objs[o].rec THEN rows[o] ELSE << >>
Isolation == [][\A o \in Objs : (hist' # hist /\ hist'[Len(hist')].o # o) => objs'[o] = objs[o]]_vars
Stable == [][\A i \in 1..Len(snaps) : snaps'[i] = snaps[i]]_vars
Refused == [][(hist' # hist /\ hist'[Len(hist')].op \in {"badupdate", "scribble", "snap"}) => objs' = objs]_vars

Emit == (EMIT /\ Len(hist) = MaxOps /\ \E i \in 1..Len(hist) : hist[i].op = "update") => PrintT("@HIST " \o ToJson(hist))
=============================================================================
