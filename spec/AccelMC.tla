------------------------------- MODULE AccelMC ------------------------------
(* Both iterations side by side on all slabs of a small set with thin cells  *)
EXTENDS Accel
CONSTANTS Steps, Inner
R(a, b) == FRat(a, b)
Slabs == [tr : [1..2 -> {R(1,2), R(1,1)}], c : [1..2 -> {R(2,10), R(7,10)}], nf : [1..2 -> {R(1,10), R(3,10)}], left : {"reflect", "vacuum"}]
S(x) == [tr |-> x.tr, sc |-> [i \in 1..2 |-> FMul(x.c[i], x.tr[i])], nf |-> x.nf, h |-> <<R(1,2), R(3,8)>>, left |-> x.left]
VARIABLES s, n, slow, fast
Start == [phi |-> <<FInt(1), FInt(1)>>, k |-> FInt(1), j |-> <<FInt(0), FInt(0), FInt(0)>>]
Init == /\ \E x \in Slabs : s = S(x)
        /\ n = 0 /\ slow = Start /\ fast = Plain(s, Start)
Next == /\ n < Steps /\ n' = n + 1
        /\ slow' = Plain(s, slow) /\ fast' = Quick(s, fast, Inner) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, n, slow, fast>>
(* the coarse system of the plain iteration's limit has that limit as its     *)
(* solution                                                                   *)
Fixed == n = Steps => LET c == Coarse(s, System(s, slow), slow.phi, slow.k, Inner) IN
            SameK(c.k, slow.k, FLit("1e-7")) /\ SameShape(c.phi, slow.phi, FLit("1e-6"))
Same == n = Steps => SameK(slow.k, fast.k, FLit("1e-7")) /\ SameShape(slow.phi, fast.phi, FLit("1e-6"))
Sensible == FLt(0, fast.k) /\ \A i \in 1..2 : FLt(0, fast.phi[i])
=============================================================================
