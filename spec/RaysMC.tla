------------------------------- MODULE RaysMC -------------------------------
(* All small numbers of rays on several rectangles, both octants.            *)
EXTENDS Rays
CONSTANT N
VARIABLES b, o, done
vars == <<b, o, done>>
Boxes == {<<1, 1>>, <<2, 1>>, <<3, 4>>, <<7, 2>>}
Init == /\ \E h \in Boxes, i \in 1..N, j \in 1..N : b = [hx |-> FInt(h[1]), hy |-> FInt(h[2]), nx |-> i, ny |-> j, h |-> h]
        /\ o \in {1, 2} /\ done = {}
Next == \E k \in Slots(b) \ done : done' = done \cup {k} /\ UNCHANGED <<b, o>> /\ (\A m \in done : m < k)
Spec == Init /\ [][Next]_vars
Near(x, y) == FNear(x, y, 1, FLit("1e-12"))
Even == Near(Spacing(b), FMul(Sine(b), StepX(b)))
(* rays end at slots, in the middle, a different one each; no two rays end at*)
(* the same slot                                                             *)
Ends == \A k \in done : EndSlot(b, o, k) \in Slots(b) /\ \A m \in done : m # k => EndSlot(b, o, k) # EndSlot(b, o, m)
Middle == \A k \in done : LET e == Finish(b, o, k)  s == EndSlot(b, o, k) IN
   IF s < b.ny THEN Near(e[2], Centre(s, StepY(b))) /\ Near(e[1], IF o = 1 THEN b.hx ELSE 0)
   ELSE Near(e[1], Centre(s - b.ny, StepX(b))) /\ Near(e[2], b.hy)
(* the two octants are mirror images                                         *)
Mirror == \A k \in done :
   LET m(s) == IF s < b.ny THEN s ELSE b.ny + (b.nx - 1 - (s - b.ny))
   IN EndSlot(b, 3-o, m(k)) = m(EndSlot(b, o, k))
(* the rays cover the rectangle                                              *)
Covered == Cardinality(done) = b.nx + b.ny =>
   /\ {EndSlot(b, o, k) : k \in done} = Slots(b)
   /\ Near(FMul(Spacing(b), FSum([k \in 1..(b.nx+b.ny) |-> Chord(b, o, k-1).len])), FMul(b.hx, b.hy))
=============================================================================
