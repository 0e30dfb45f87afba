----------------------------- MODULE TallyTrace -----------------------------
EXTENDS TraceCases, Tally
Close(a, b) == FNear(a, b, FLit("1e-290"), FLit("1e-11"))
Dev(d, d2) == FLe(0, d) /\ FNear(FMul(d, d), d2, 1, FLit("1e-11"))
RECURSIVE Scal(_, _, _)
Scal(r, t, k) ==
  IF k > Len(r.in.ops) THEN "" ELSE LET op == r.in.ops[k]  o == r.out.ops[k] IN
  CASE op.k = "score" -> Scal(r, [t EXCEPT !.scores = @ \o op.v], k+1)
    [] op.k = "weight" -> Scal(r, [t EXCEPT !.weight = FAdd(@, FSum(op.v))], k+1)
    [] op.k = "reset" -> Scal(r, ScalarNew, k+1)
    [] op.k = "get" ->
       IF FLe(t.weight, 0) THEN Scal(r, t, k+1)
       ELSE IF ~Close(o.mean, ScalarMean(t)) THEN "mean is not the sum over the weight"
       ELSE IF FLt(1, t.weight) /\ FLt(0, ScalarMean(t)) /\ FLe(FLit("-1e-12"), ScalarDev2(t)) /\ ~Dev(o.dev, FMax(0, ScalarDev2(t)))
            THEN "relative deviation of the mean"
       ELSE Scal(r, t, k+1)
RECURSIVE Put(_, _, _)
Put(t, s, j) == IF j > Len(s) THEN t ELSE Put(SpatialScore(t, s[j].i + 1, s[j].v), s, j+1)
RECURSIVE Spat(_, _, _)
Spat(r, t, k) ==
  IF k > Len(r.in.ops) THEN "" ELSE LET op == r.in.ops[k]  o == r.out.ops[k] IN
  CASE op.k = "score" -> Spat(r, Put(t, op.s, 1), k+1)
    [] op.k = "weight" -> Spat(r, SpatialWeight(t, FSum(op.v)), k+1)
    [] op.k = "reset" -> Spat(r, SpatialNew(Len(r.in.norm)), k+1)
    [] op.k = "commit" -> Spat(r, SpatialCommit(t), k+1)
    [] op.k = "get" ->
       IF Len(o.r) # Len(r.in.norm) THEN "number of regions"
       ELSE IF ~\A i \in 1..Len(o.r) : Close(o.r[i][1], SpatialMean(t, i, r.in.norm[i]))
            THEN "mean is not the batch average per weight and volume"
       ELSE IF Len(t.batches) > 1 /\ ~\A i \in 1..Len(o.r) : FLt(0, o.r[i][1]) => Dev(o.r[i][2], SpatialDev2(t, i))
            THEN "relative deviation of the batches"
       ELSE Spat(r, t, k+1)
TallyVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE IF r.in.op = "scalar" THEN Scal(r, ScalarNew, 1) ELSE Spat(r, SpatialNew(Len(r.in.norm)), 1)
=============================================================================
