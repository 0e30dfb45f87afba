------------------------------ MODULE PinFluxMC -----------------------------
(* Five regions in three cells, interleaved; fluxes are imposed again and     *)
(* again, on the cells or on a grouping of them.                              *)
EXTENDS PinFlux, TLC, Json
CONSTANT Depth
Cell == <<1, 2, 1, 3, 2>>
Vol == <<FInt(1), FInt(2), FInt(3), FInt(1), FInt(1)>>
Top == <<1, 1, 2>>
TopOf == [i \in 1..5 |-> Top[Cell[i]]]
Phi0 == <<FInt(3), FInt(1), FInt(5), FInt(2), FInt(7)>>
Vals == {FInt(1), FInt(4)}
VARIABLES phi, last, hist
vars == <<phi, last, hist>>
Init == phi = Phi0 /\ last = [lev |-> 0, want |-> <<>>] /\ hist = <<>>
Cells == \E a, b, c \in Vals : /\ last' = [lev |-> 1, want |-> <<a, b, c>>]
                               /\ phi' = Impose(phi, Vol, Cell, 3, <<a, b, c>>)
                               /\ hist' = Append(hist, 1)
Groups == \E a, b \in Vals : /\ last' = [lev |-> 2, want |-> <<a, b>>]
                             /\ phi' = Impose(phi, Vol, TopOf, 2, <<a, b>>)
                             /\ hist' = Append(hist, 2)
Next == Len(hist) < Depth /\ (Cells \/ Groups)
Spec == Init /\ [][Next]_vars
Near(a, b) == \A i \in 1..Len(a) : FNear(a[i], b[i], FInt(1), FLit("1e-13"))
(* what was imposed is what is seen                                           *)
Kept == last.lev > 0 => Near(last.want, IF last.lev = 1 THEN Average(phi, Vol, Cell, 3) ELSE Average(phi, Vol, TopOf, 2))
(* the shape inside a cell never changes                                      *)
Shape == \A i, j \in 1..5 : Cell[i] = Cell[j] => FNear(FMul(phi[i], Phi0[j]), FMul(phi[j], Phi0[i]), FInt(1), FLit("1e-12"))
(* imposing what is there changes nothing, and reports nothing                *)
(* a cell without flux takes the value imposed on it                          *)
Dead == LET z == [i \in 1..5 |-> IF Cell[i] = 2 THEN FInt(0) ELSE phi[i]]
            w == Impose(z, Vol, Cell, 3, <<FInt(2), FInt(3), FInt(4)>>)
        IN Near(<<FInt(2), FInt(3), FInt(4)>>, Average(w, Vol, Cell, 3)) /\ FEq(w[2], FInt(3)) /\ FEq(w[5], FInt(3))
Idle == LET a == Average(phi, Vol, Cell, 3) IN
        Near(Impose(phi, Vol, Cell, 3, a), phi) /\ FEq(Change(phi, Vol, Cell, 3, a), FInt(0))
(* the group average of the cell averages is the average over the group       *)
Consistent == Near(Gather(Average(phi, Vol, Cell, 3), [c \in 1..3 |-> VolOf(Vol, Regions(Cell, c))], Top, 2), Average(phi, Vol, TopOf, 2))
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
