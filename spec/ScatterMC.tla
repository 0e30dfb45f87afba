----------------------------- MODULE ScatterMC ------------------------------
(* Build a matrix entry by entry, pack it, and compare with an earlier one.  *)
EXTENDS Scatter, Json
CONSTANT N
VARIABLES m, k, prev
vars == <<m, k, prev>>
Empty == [to \in 1..N |-> [from \in 1..N |-> FInt(0)]]
Init == m = Empty /\ k = 0 /\ prev = Empty
Cell(i) == <<1 + (i \div N), 1 + (i % N)>>
Put(v) == /\ k < N*N /\ m' = [m EXCEPT ![Cell(k)[1]][Cell(k)[2]] = v] /\ k' = k + 1 /\ prev' = m
Next == Put(FInt(0)) \/ Put(FInt(1))
Spec == Init /\ [][Next]_vars
Lossless == Unpack(Pack(m)) = m
Diagonal == \A g \in 1..N : Pack(m)[g].lo <= g /\ g <= Pack(m)[g].hi
Tight == \A g \in 1..N : LET p == Pack(m)[g] IN (p.lo < g => ~Zero(p.v[1])) /\ (p.hi > g => ~Zero(p.v[Len(p.v)]))
SameIffPack == SameMatrix(m, prev) <=> (Pack(m) = Pack(prev))
Emit == k = N*N => PrintT("GEN " \o ToJson([to \in 1..N |-> [from \in 1..N |-> IF Zero(m[to][from]) THEN 0 ELSE 1]]))
=============================================================================
