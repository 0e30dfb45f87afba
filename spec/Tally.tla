------------------------------- MODULE Tally --------------------------------
(* Tallies as what has been scored: a scalar tally is the sequence of scores *)
(* and the weight; a spatial tally is a sequence of batches, each a vector   *)
(* of sums per region divided by the weight of the batch, and the batch      *)
(* being filled.                                                             *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, F64
ScalarNew == [scores |-> <<>>, weight |-> FInt(0)]
ScalarScore(t, v) == [t EXCEPT !.scores = Append(@, v)]
ScalarWeight(t, w) == [t EXCEPT !.weight = FAdd(@, w)]
Sq(s) == [i \in DOMAIN s |-> FMul(s[i], s[i])]
ScalarMean(t) == FDiv(FSum(t.scores), t.weight)
(* square of the relative deviation of the mean                              *)
ScalarDev2(t) == LET m == ScalarMean(t)
                     v == FDiv(FSub(FDiv(FSum(Sq(t.scores)), t.weight), FMul(m, m)), FSub(t.weight, 1))
                 IN FDiv(v, FMul(m, m))
SpatialNew(n) == [batches |-> <<>>, cur |-> [i \in 1..n |-> FInt(0)], weight |-> FInt(0)]
SpatialScore(t, i, v) == [t EXCEPT !.cur[i] = FAdd(@, v)]
SpatialWeight(t, w) == [t EXCEPT !.weight = FAdd(@, w)]
SpatialCommit(t) == [batches |-> Append(t.batches, [i \in DOMAIN t.cur |-> FDiv(t.cur[i], t.weight)]),
                     cur |-> [i \in DOMAIN t.cur |-> FInt(0)], weight |-> FInt(0)]
Values(t, i) == [b \in 1..Len(t.batches) |-> t.batches[b][i]]
SpatialMean(t, i, vol) == FDiv(FDiv(FSum(Values(t, i)), Len(t.batches)), vol)
(* square of the relative standard deviation of the batches                  *)
SpatialDev2(t, i) == LET q == Values(t, i)
                         m == FDiv(FSum(q), Len(q))
                         d == [b \in DOMAIN q |-> FMul(FSub(q[b], m), FSub(q[b], m))]
                     IN FDiv(FDiv(FSum(d), Len(q) - 1), FMul(m, m))
=============================================================================
