----------------------------- MODULE AngQuadMC ------------------------------
(* A particle flying along discrete directions, turning at reflecting walls  *)
(* or on the spot; the direction is kept beside the index.                   *)
EXTENDS AngQuad, Json
CONSTANT MaxNd
VARIABLES nd, a, dir, last
vars == <<nd, a, dir, last>>
Init == /\ nd \in 1..MaxNd /\ a \in 0..(8*nd-1) /\ dir = Sign(Oct(a, nd)) /\ last = <<"start", a>>
Mirror(ax) == a' = Reflect(a, nd, ax) /\ dir' = Flip(dir, ax) /\ last' = <<"mirror", ax, a>> /\ UNCHANGED nd
Turn == a' = Reverse3(a, nd) /\ dir' = Opposite(dir) /\ last' = <<"turn", 0, a>> /\ UNCHANGED nd
TurnUp == a' = Reverse2(a, nd) /\ dir' = OppositeUp(dir) /\ last' = <<"turnup", 0, a>> /\ UNCHANGED nd
Next == TurnUp \/ Turn \/ \E ax \in 1..3 : Mirror(ax)
Spec == Init /\ [][Next]_vars
Follows == Sign(Oct(a, nd)) = dir /\ a \in 0..(8*nd-1)
Twice == /\ \A ax \in 1..3 : Reflect(Reflect(a, nd, ax), nd, ax) = a
         /\ Reverse3(Reverse3(a, nd), nd) = a
         /\ a < 4*nd => Reverse2(Reverse2(a, nd), nd) = a
Corner == Reflect(Reflect(a, nd, 1), nd, 2) = Reflect(Reflect(a, nd, 2), nd, 1)
ThreeWalls == Reflect(Reflect(Reflect(a, nd, 1), nd, 2), nd, 3) = Reverse3(a, nd)
=============================================================================
