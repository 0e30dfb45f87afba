------------------------------ MODULE TallyMC -------------------------------
(* The running sums kept by the code refine the definition over what has     *)
(* been scored, for all short sequences of operations.                       *)
EXTENDS Tally
CONSTANT MaxOps
VARIABLES t, sum, sq, cur, w, n, ops
vars == <<t, sum, sq, cur, w, n, ops>>
R == 1..2
Init == /\ t = SpatialNew(2) /\ sum = [i \in R |-> FInt(0)] /\ sq = [i \in R |-> FInt(0)]
        /\ cur = [i \in R |-> FInt(0)] /\ w = FInt(0) /\ n = 0 /\ ops = 0
Score(i, v) == /\ t' = SpatialScore(t, i, v) /\ cur' = [cur EXCEPT ![i] = FAdd(@, v)] /\ UNCHANGED <<sum, sq, w, n>>
Weight(v) == /\ t' = SpatialWeight(t, v) /\ w' = FAdd(w, v) /\ UNCHANGED <<sum, sq, cur, n>>
Commit == /\ FLt(0, w) /\ t' = SpatialCommit(t)
          /\ sum' = [i \in R |-> FAdd(sum[i], FDiv(cur[i], w))]
          /\ sq' = [i \in R |-> FAdd(sq[i], FMul(FDiv(cur[i], w), FDiv(cur[i], w)))]
          /\ cur' = [i \in R |-> FInt(0)] /\ w' = FInt(0) /\ n' = n + 1
Reset == /\ t' = SpatialNew(2) /\ sum' = [i \in R |-> FInt(0)] /\ sq' = sum' /\ cur' = sum' /\ w' = FInt(0) /\ n' = 0
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ (Commit \/ Reset \/ (\E v \in {1, 4} : Weight(v)) \/ \E i \in R : \E v \in {1, 2, 7} : Score(i, v))
Spec == Init /\ [][Next]_vars
Refines == /\ n = Len(t.batches)
           /\ \A i \in R : FEq(cur[i], t.cur[i]) /\ FNear(sum[i], FSum(Values(t, i)), 1, FLit("1e-14"))
           /\ n > 1 => \A i \in R : FLt(0, sum[i]) =>
                LET m == FDiv(sum[i], n)  v == FDiv(FSub(sq[i], FMul(n, FMul(m, m))), n - 1)
                IN FNear(FDiv(v, FMul(m, m)), SpatialDev2(t, i), 1, FLit("1e-12"))
(* what is returned does not depend on the unit of volume                    *)
UnitFree == n > 1 => \A i \in R : FNear(SpatialMean(t, i, 4), FDiv(SpatialMean(t, i, 1), 4), 1, FLit("1e-14"))
=============================================================================
