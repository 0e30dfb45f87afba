------------------------------ MODULE PinMeshMC ------------------------------
(* A particle crosses a pin along a straight line, one segment per step.     *)
(* Checked over a family of pins and lines: the lengths travelled add up,    *)
(* regions are valid, neighbouring segments are in regions that touch, and   *)
(* the same line backwards visits the same regions in reverse.               *)
EXTENDS PinMesh, Json
CONSTANTS Steps
VARIABLES m, a, b, k, gone
vars == <<m, a, b, k, gone>>
Cyl(p, rad, sub, azi) == [id |-> 1, type |-> "cyl", pitch |-> p, radii |-> rad, subr |-> sub, azi |-> azi, subx |-> 1, suby |-> 1]
Rect(p, x, y) == [id |-> 1, type |-> "rect", pitch |-> p, radii |-> <<>>, subr |-> <<>>, azi |-> 1, subx |-> x, suby |-> y]
Pins == {Cyl(FInt(2), <<FRat(7, 10)>>, <<1>>, 4), Cyl(FInt(2), <<FRat(3, 10), FRat(8, 10)>>, <<2, 1>>, 8),
         Cyl(FInt(2), <<FRat(9, 10)>>, <<3>>, 2), Cyl(FInt(2), <<FRat(4, 10), FRat(7, 10)>>, <<1, 2>>, 6),
         Rect(FInt(2), 1, 1), Rect(FInt(2), 3, 2), Rect(FInt(2), 2, 4)}
Off(i) == FSub(FDiv(2*i + 1, Steps), 1)
South(i) == <<Off(i), FInt(-1)>>   North(i) == <<FAdd(Off(i), FLit("0.013")), FInt(1)>>
West(i) == <<FInt(-1), FAdd(Off(i), FLit("0.007"))>>   East(i) == <<FInt(1), FAdd(Off(i), FLit("0.017"))>>
Ix == 0..(Steps-1)
Init == /\ m \in Pins
        /\ \E i, j \in Ix : \/ a = South(i) /\ b = North(j)
                            \/ a = South(i) /\ b \in {West(j), East(j)}
                            \/ a \in {West(i), East(i)} /\ b = North(j)
                            \/ FLt(West(i)[2], East(j)[2]) /\ a = West(i) /\ b = East(j)
                            \/ FLt(East(i)[2], West(j)[2]) /\ a = East(i) /\ b = West(j)
        /\ k = 0 /\ gone = FInt(0)
Segs == Segments(m, a, b)
Fly == /\ k < Len(Segs) /\ k' = k + 1 /\ gone' = FAdd(gone, Segs[k+1].len) /\ UNCHANGED <<m, a, b>>
Next == Fly
Spec == Init /\ [][Next]_vars
Valid == \A i \in 1..Len(Segs) : Segs[i].reg \in 0..(NReg(m)-1) /\ FLt(0, Segs[i].len)
Arrives == k = Len(Segs) => FNear(gone, LenOf(a, b), 1, FLit("1e-12"))
Changes == \A i \in 1..(Len(Segs)-1) : Segs[i].reg # Segs[i+1].reg
Back == k = 0 => LET s == Segs  q == Segments(m, b, a) IN
        Len(s) = Len(q) /\ \A i \in 1..Len(s) : s[i].reg = q[Len(q)+1-i].reg
Emit == k = 0 => PrintT("GEN " \o ToJson([m |-> m, a |-> a, b |-> b]))
=============================================================================
