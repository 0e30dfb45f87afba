------------------------------ MODULE AngQuad -------------------------------
(* Discrete directions: one octant of directions, replicated into eight.     *)
(* Octant o is 0..7; angle a of nd per octant is in octant a \div nd.        *)
EXTENDS F64, Integers, Sequences, FiniteSets, TLC
Sign(o) == << IF o % 4 \in {0, 3} THEN 1 ELSE -1, IF o % 4 \in {0, 1} THEN 1 ELSE -1, IF o < 4 THEN 1 ELSE -1 >>
OctOf(s) == CHOOSE o \in 0..7 : Sign(o) = s
(* what mirroring on an axis and turning round do to a direction             *)
Flip(s, ax) == [i \in 1..3 |-> IF i = ax THEN -s[i] ELSE s[i]]
Opposite(s) == [i \in 1..3 |-> -s[i]]
OppositeUp(s) == <<-s[1], -s[2], 1>>
Oct(a, nd) == a \div nd
Slot(a, nd) == a % nd
Index(o, k, nd) == o * nd + k
Reflect(a, nd, ax) == Index(OctOf(Flip(Sign(Oct(a, nd)), ax)), Slot(a, nd), nd)
Reverse3(a, nd) == Index(OctOf(Opposite(Sign(Oct(a, nd)))), Slot(a, nd), nd)
Reverse2(a, nd) == Index(OctOf(OppositeUp(Sign(Oct(a, nd)))), Slot(a, nd), nd)
(* even powers of a direction cosine averaged over the sphere                *)
Even(k) == FRat(1, 2*k + 1)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN FInt(1) ELSE FMul(x, Pow(x, n - 1))
=============================================================================
