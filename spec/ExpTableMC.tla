----------------------------- MODULE ExpTableMC -----------------------------
(* Walk through the table from below its range to above it.                  *)
EXTENDS ExpTable, Json
CONSTANT Sub
VARIABLES t, k
Tables == {[n |-> n, lo |-> r[1], hi |-> r[2]] : n \in {1, 2, 3, 5, 16},
            r \in {<<FInt(-10), FInt(0)>>, <<FLit("-5.3"), FInt(0)>>, <<FInt(0), FInt(3)>>, <<FInt(-1), FLit("0.7")>>}}
X(j) == FAdd(t.lo, FMul(FRat(j, Sub), Width(t)))
Init == t \in Tables /\ k = -Sub
Next == k < (t.n + 1) * Sub /\ k' = k + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, k>>
In == k >= 0 /\ k <= t.n * Sub
Accurate == LET e == FExp(X(k))  d == FSub(Value(t, X(k)), e) IN
            /\ FLe(FMul(-1, FLit("1e-14")), FDiv(d, e))
            /\ FLe(FDiv(d, e), FAdd(MaxError(Width(t)), FLit("1e-13")))
Nodes == In /\ k % Sub = 0 => FNear(Value(t, X(k)), FExp(X(k)), 0, FLit("1e-13"))
Rising == (k >= 0 /\ k < t.n * Sub) => FLt(Value(t, X(k)), Value(t, X(k+1)))
Outside == ~Inside(t, X(k)) => Value(t, X(k)) = FExp(X(k))
Emit == PrintT("GEN " \o ToJson([n |-> t.n, lo |-> t.lo, hi |-> t.hi, v |-> X(k)]))
=============================================================================
