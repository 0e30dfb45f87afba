-------------------------------- MODULE McRun -------------------------------
(* A Monte Carlo eigenvalue run: n cycles of np particles, the first ni of   *)
(* them inactive.  Each history takes the next stream that no history of the *)
(* run has used.  Every cycle gives a value of each estimate; the values of  *)
(* all cycles are listed, but only those of active cycles enter results.     *)
EXTENDS Integers, Sequences
Runs == {"inactive", "active"}
Start0(np, ni, n) == [np |-> np, ni |-> ni, n |-> n, all |-> <<>>, kept |-> <<>>, means |-> <<>>, next |-> 0, taken |-> {}, over |-> FALSE]
Phase(s) == IF Len(s.all) < s.ni THEN "inactive" ELSE IF Len(s.all) < s.n THEN "active" ELSE "done"
Stream(s, id) == s.next + id
(* stream of particle number id of cycle c (from 1), without the state       *)
StreamOf(np, c, id) == np * (c - 1) + id
Sum0(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE F[i-1] + q[i] IN F[Len(q)]
(* one cycle that gives value v and leaves m sites                           *)
Cycle(s, v, m) ==
    LET act == Phase(s) = "active"
        kept == IF act THEN Append(s.kept, v) ELSE s.kept
    IN [s EXCEPT !.all = Append(@, v), !.kept = kept,
                 !.means = IF act THEN Append(@, <<Sum0(kept), Len(kept)>>) ELSE @,
                 !.taken = @ \cup {<<Stream(s, i), Len(s.all) + 1, i>> : i \in 0..(s.np-1)},
                 !.next = @ + s.np, !.over = (m = 0)]
=============================================================================
