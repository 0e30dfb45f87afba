------------------------------- MODULE PinFlux ------------------------------
(* Region fluxes of one group, gathered into cells (pins, or pins of a group *)
(* of planes).  cell[i] is the cell of region i, vol[i] its volume.          *)
EXTENDS F64, Integers, Sequences, SequencesExt, FiniteSets
Regions(cell, c) == SelectSeq([i \in 1..Len(cell) |-> i], LAMBDA i : cell[i] = c)
VolOf(vol, rs) == FSum([k \in 1..Len(rs) |-> vol[rs[k]]])
Average(phi, vol, cell, nc) ==
   [c \in 1..nc |-> LET rs == Regions(cell, c)
                    IN FDiv(FSum([k \in 1..Len(rs) |-> FMul(phi[rs[k]], vol[rs[k]])]), VolOf(vol, rs))]
(* imposing cell fluxes scales the regions of each cell; where there is no   *)
(* flux there is no shape to keep                                            *)
Impose(phi, vol, cell, nc, want) ==
   LET have == Average(phi, vol, cell, nc)
   IN [i \in 1..Len(phi) |-> IF FEq(have[cell[i]], 0) THEN want[cell[i]]
                             ELSE FMul(phi[i], FDiv(want[cell[i]], have[cell[i]]))]
Change(phi, vol, cell, nc, want) ==
   LET have == Average(phi, vol, cell, nc)
   IN FSqrt(FSum([c \in 1..nc |-> FMul(FSub(want[c], have[c]), FSub(want[c], have[c]))]))
(* cell fluxes of a finer set of cells, averaged into groups; or the value of*)
(* the group given to each of its members                                    *)
Gather(want, height, group, ng) == Average(want, height, group, ng)
Spread(val, group) == [i \in 1..Len(group) |-> val[group[i]]]
(* values as reported: scaled so that those above zero have mean one         *)
Positive(a) == Cardinality({i \in 1..Len(a) : FLt(0, a[i])})
Normal(a) == LET t == FSum(a)  n == Positive(a) IN [i \in 1..Len(a) |-> FDiv(FMul(a[i], n), t)]
Flat(a) == FoldLeft(LAMBDA x, y : x \o y, <<>>, a)
(* fission power of each region: rates sf[i][g] and fluxes phi[i][g]          *)
Power(phi, vol, sf) == [i \in 1..Len(phi) |-> FMul(vol[i], FDot(phi[i], sf[i]))]
Total(v, cell, nc) == [c \in 1..nc |-> LET rs == Regions(cell, c) IN FSum([k \in 1..Len(rs) |-> v[rs[k]]])]
=============================================================================
