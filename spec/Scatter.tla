------------------------------ MODULE Scatter -------------------------------
(* A scattering matrix m[to][from] of doubles, and its packed form: for each *)
(* destination a range of sources holding all its non-zero entries and the   *)
(* diagonal.                                                                 *)
EXTENDS F64, Integers, Sequences, FiniteSets, TLC
Zero(x) == FEq(x, 0)
Ng(m) == Len(m)
Groups(m) == 1..Len(m)
Out(m, from) == FSum([to \in Groups(m) |-> m[to][from]])
Col(m, from) == [to \in Groups(m) |-> m[to][from]]
Cum(m, from, k) == FDiv(FSum([to \in 1..k |-> m[to][from]]), Out(m, from))
Lo(m, to) == CHOOSE g \in 1..to : (\A h \in 1..(g-1) : Zero(m[to][h])) /\ (g = to \/ ~Zero(m[to][g]))
Hi(m, to) == CHOOSE g \in to..Ng(m) : (\A h \in (g+1)..Ng(m) : Zero(m[to][h])) /\ (g = to \/ ~Zero(m[to][g]))
Pack(m) == [to \in Groups(m) |-> [lo |-> Lo(m, to), hi |-> Hi(m, to),
                                  v |-> SubSeq(m[to], Lo(m, to), Hi(m, to))]]
Unpack(p) == [to \in DOMAIN p |-> [from \in DOMAIN p |->
                IF from < p[to].lo \/ from > p[to].hi THEN FInt(0) ELSE p[to].v[from - p[to].lo + 1]]]
SameMatrix(a, b) == Len(a) = Len(b) /\ \A to, from \in Groups(a) : FEq(a[to][from], b[to][from])
=============================================================================
