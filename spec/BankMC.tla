------------------------------- MODULE BankMC -------------------------------
(* The resampling procedure of the code meets the specification of resizing  *)
(* for every bank and every outcome of the draws.                            *)
EXTENDS Bank
CONSTANT MaxSites
VARIABLES old, cur, n, n0
vars == <<old, cur, n, n0>>
Init == /\ old \in UNION {[1..m -> 1..3] : m \in 1..MaxSites} /\ cur = old /\ n \in 0..(MaxSites + 2) /\ n0 = Len(old)
Next == \/ /\ Len(cur) < n /\ \E i \in 1..n0 : cur' = Grow(cur, i, n0) /\ UNCHANGED <<old, n, n0>>
        \/ /\ Len(cur) > n /\ \E i \in 1..Len(cur) : cur' = Drop(cur, i) /\ UNCHANGED <<old, n, n0>>
Spec == Init /\ [][Next]_vars
Meets == Len(cur) = n => Resized(old, cur, n)
(* with one site per pin the entropy is the logarithm of the number of pins  *)
Even == \A k \in 1..4 : FNear(Entropy([c \in 1..k |-> 1], k), Log2(k), 1, FLit("1e-12"))
=============================================================================
