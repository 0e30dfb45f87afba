----------------------------- MODULE BoundaryMC -----------------------------
(* Two-dimensional problem, one direction per octant: every angle sweeps     *)
(* (producing outgoing flux that depends on what came in), then its outgoing *)
(* flux is exchanged, at once or together with all others.                   *)
EXTENDS Boundary
CONSTANT Rounds
VARIABLES bc, inc, out, round, swept, done, allin
vars == <<bc, inc, out, round, swept, done, allin>>
nd == 1
A == 0..3
Kinds == {"vacuum", "reflect", "prescribed"}
Face(v) == [n \in 1..3 |-> IF n = 3 THEN <<>> ELSE <<v>>]
Given == FInt(7)
Init == /\ bc \in {k \in [1..6 -> Kinds] : k[5] = "vacuum" /\ k[6] = "vacuum"}
        /\ inc = [a1 \in 1..4 |-> [n \in 1..3 |-> IF n = 3 THEN <<>> ELSE
                     IF bc[Entry(a1-1, nd, n)+1] = "prescribed" THEN <<Given>> ELSE <<FInt(0)>>]]
        /\ out = [a1 \in 1..4 |-> Face(FInt(0))]
        /\ round = 0 /\ swept = {} /\ done = {} /\ allin = inc
(* leaving x faces carries what entered on y faces and the other way round   *)
Sweep(a) == /\ a \in A \ swept
            /\ out' = [out EXCEPT ![a+1] = [n \in 1..3 |-> IF n = 3 THEN <<>>
                        ELSE <<FAdd(FInt(10*(round+1) + a), FDiv(inc[a+1][3-n][1], 2))>>]]
            /\ swept' = swept \cup {a} /\ UNCHANGED <<bc, inc, round, done, allin>>
Exchange(a) == /\ swept = A /\ a \in A \ done
               /\ allin' = IF done = {} THEN UpdateAll(bc, nd, inc, out) ELSE allin
               /\ inc' = UpdateAngle(bc, nd, a, inc, out)
               /\ done' = done \cup {a} /\ UNCHANGED <<bc, out, round, swept>>
NextRound == /\ done = A /\ round < Rounds /\ round' = round + 1 /\ swept' = {} /\ done' = {}
             /\ UNCHANGED <<bc, inc, out, allin>>
Next == NextRound \/ \E a \in A : Sweep(a) \/ Exchange(a)
Spec == Init /\ [][Next]_vars
(* one at a time, in any order, comes to the same as all at once             *)
Confluent == done = A => inc = allin
Dark == \A a \in A : \A n \in 1..2 : bc[Entry(a, nd, n)+1] = "vacuum" => inc[a+1][n] = <<FInt(0)>>
Kept == \A a \in A : \A n \in 1..2 : bc[Entry(a, nd, n)+1] = "prescribed" => inc[a+1][n] = <<Given>>
Mirror == done = A => \A a \in A : \A n \in 1..2 : bc[Entry(a, nd, n)+1] = "reflect" =>
             inc[a+1][n] = out[Reflect(a, nd, n)+1][n]
=============================================================================
