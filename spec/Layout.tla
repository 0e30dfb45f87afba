------------------------------- MODULE Layout -------------------------------
(* What a geometry description means.  A description d lists, exactly as     *)
(* written: meshes [id, type, pitch, radii, subr, azi, subx, suby], pins     *)
(* [id, mesh, mats], lattices [id, nx, ny, pins] with the north row first,   *)
(* assemblies [id, np, hz, groups] with the top plane first, and the core    *)
(* [nx, ny, asy] with the north row first.  Positions count from 0 at the    *)
(* south-west corner and the bottom.                                         *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Functions, F64
ById(list, id) == list[CHOOSE i \in 1..Len(list) : list[i].id = id]
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
FlatSeq(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
(* assembly in column ax and row ay, its lattice in plane iz                 *)
AsyAt(d, ax, ay) == ById(d.asys, d.core.asy[(d.core.ny-1-ay)*d.core.nx + ax + 1])
NZ(d) == AsyAt(d, 0, 0).np
LatAt(d, ax, ay, iz) == ById(d.lats, LET f == FlatSeq(AsyAt(d, ax, ay).groups) IN f[Len(f)-iz])
ColPins(d) == [ax \in 1..d.core.nx |-> LatAt(d, ax-1, 0, 0).nx]
RowPins(d) == [ay \in 1..d.core.ny |-> LatAt(d, 0, ay-1, 0).ny]
NX(d) == SumSeq(ColPins(d))
NY(d) == SumSeq(RowPins(d))
(* column of the assembly that contains pin column ix, and offset in it      *)
Locate(counts, i) ==
    LET before(k) == SumSeq(SubSeq(counts, 1, k-1))
        k == CHOOSE k \in 1..Len(counts) : before(k) <= i /\ i < before(k) + counts[k]
    IN  <<k-1, i - before(k)>>
PinAt(d, ix, iy, iz) ==
    LET x == Locate(ColPins(d), ix)
        y == Locate(RowPins(d), iy)
        lat == LatAt(d, x[1], y[1], iz)
    IN  ById(d.pins, lat.pins[(lat.ny-1-y[2])*lat.nx + x[2] + 1])
MeshOf(d, pin) == ById(d.meshes, pin.mesh)
NReg(m) == IF m.type = "rect" THEN m.subx*m.suby ELSE (SumSeq(m.subr)+1)*m.azi
(* pins are visited plane by plane, lattice by lattice, row by row           *)
PlaneOrder(d) ==
    LET cols == ColPins(d)  rows == RowPins(d)
        cb(a) == SumSeq(SubSeq(cols, 1, a-1))
        rb(a) == SumSeq(SubSeq(rows, 1, a-1))
        lat(ax, ay) == FlatSeq([jy \in 1..rows[ay] |-> [jx \in 1..cols[ax] |-> <<cb(ax)+jx-1, rb(ay)+jy-1>>]])
    IN  FlatSeq([k \in 1..(Len(cols)*Len(rows)) |-> lat(((k-1) % Len(cols)) + 1, ((k-1) \div Len(cols)) + 1)])
(* heights, bottom first, and the groups of planes, bottom first             *)
Heights(d) == Reverse(AsyAt(d, 0, 0).hz)
Groups(d) == Reverse([i \in 1..Len(AsyAt(d, 0, 0).groups) |-> Len(AsyAt(d, 0, 0).groups[i])])
Pitch(d) == d.meshes[1].pitch
(* accumulated boundaries *)
Accum(ws) == FoldLeft(LAMBDA a, w : Append(a, FAdd(a[Len(a)], w)), <<FInt(0)>>, ws)
XLines(d) == Accum([i \in 1..NX(d) |-> Pitch(d)])
YLines(d) == Accum([i \in 1..NY(d) |-> Pitch(d)])
ZLines(d) == Accum(Heights(d))

(* ------------------------------------------------ regions inside a pin -- *)
(* rings: the radii of the equal-area subdivision, inside out                *)
Rings(m) ==
    LET rad(k) == IF k = 0 THEN FInt(0) ELSE m.radii[k]
        sub(k) == [j \in 1..m.subr[k] |->
                     FSqrt(FAdd(FMul(rad(k-1), rad(k-1)),
                       FMul(FRat(j, m.subr[k]), FSub(FMul(rad(k), rad(k)), FMul(rad(k-1), rad(k-1))))))]
    IN  FlatSeq([k \in 1..Len(m.radii) |-> sub(k)])
(* material zone of ring i (1-based; beyond the last ring is the outer zone) *)
ZoneOfRing(m, i) == IF i > SumSeq(m.subr) THEN Len(m.radii) + 1
                    ELSE CHOOSE k \in 1..Len(m.radii) : SumSeq(SubSeq(m.subr, 1, k-1)) < i /\ i <= SumSeq(SubSeq(m.subr, 1, k))
TwoPi == FMul(2, FLit("3.14159265358979323846"))
RingAt(m, x, y) == LET rr == FSqrt(FAdd(FMul(x, x), FMul(y, y)))
                       rs == Rings(m)
                   IN  Cardinality({i \in 1..Len(rs) : FLe(rs[i], rr)}) + 1
SectorAt(m, x, y) == LET a == FAtan2(y, x)
                         b == IF FLt(a, 0) THEN FAdd(a, TwoPi) ELSE a
                         k == FFloor(FDiv(b, FDiv(TwoPi, m.azi)))
                     IN  IF k >= m.azi THEN m.azi - 1 ELSE k
(* region of a point given relative to the pin centre                        *)
RegionAt(m, x, y) ==
    IF m.type = "rect"
    THEN LET h == FDiv(m.pitch, 2)
             clamp(k, n) == IF k < 0 THEN 0 ELSE IF k >= n THEN n-1 ELSE k
             jx == clamp(FFloor(FDiv(FMul(FAdd(x, h), m.subx), m.pitch)), m.subx)
             jy == clamp(FFloor(FDiv(FMul(FAdd(y, h), m.suby), m.pitch)), m.suby)
         IN  jy*m.subx + jx
    ELSE (RingAt(m, x, y)-1)*m.azi + SectorAt(m, x, y)
(* material zone of a region, 1-based position in the pin's material list    *)
ZoneOfRegion(m, ireg) == IF m.type = "rect" THEN ireg + 1 ELSE ZoneOfRing(m, ireg \div m.azi + 1)
Pi == FDiv(TwoPi, 2)
(* area of the sector a..b (angles) of the square of half-width h            *)
SquareSector(h, a, b) ==
    (* integrate by eighths: from the nearest axis 1/2 h^2 tan(t)            *)
    LET prim(t) == LET q == FRound(FDiv(t, FDiv(TwoPi, 4)))
                       rest == FSub(t, FMul(q, FDiv(TwoPi, 4)))
                   IN  FMul(FMul(h, h), FAdd(q, FMul(FRat(1, 2), FTan(rest))))
    IN  FSub(prim(b), prim(a))
RegionArea(m, ireg) ==
    IF m.type = "rect" THEN FDiv(FMul(m.pitch, m.pitch), m.subx*m.suby)
    ELSE LET rs == Rings(m)
             k == ireg \div m.azi + 1
             j == ireg % m.azi
             r2(i) == IF i = 0 THEN FInt(0) ELSE FMul(rs[i], rs[i])
             da == FDiv(TwoPi, m.azi)
         IN  IF k <= Len(rs) THEN FDiv(FMul(Pi, FSub(r2(k), r2(k-1))), m.azi)
             ELSE FSub(SquareSector(FDiv(m.pitch, 2), FMul(j, da), FMul(j+1, da)),
                       FDiv(FMul(Pi, r2(Len(rs))), m.azi))
=============================================================================
