----------------------------- MODULE VolumeTrace -----------------------------
EXTENDS TraceCases, Layout
Tol == FLit("1e-11")
Near(a, b) == FNear(a, b, 0, Tol)
VolumeVerdict(r) ==
 IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "refused a valid geometry" ELSE
 LET d == r.in.d
     o == r.out
     nx == NX(d)  ny == NY(d)  nz == NZ(d)  n2 == nx*ny
     order == PlaneOrder(d)
     hz == Heights(d)
     gs == Groups(d)
     gfirst(g) == SumSeq(SubSeq(gs, 1, g-1))
     gh(g) == FSum([k \in 1..gs[g] |-> hz[gfirst(g)+k]])
     mesh(iz, k) == MeshOf(d, PinAt(d, order[k][1], order[k][2], iz))
     planeAreas(iz) == FlatSeq([k \in 1..n2 |-> [i \in 1..NReg(mesh(iz, k)) |-> RegionArea(mesh(iz, k), i-1)]])
     want(areas, h) == [i \in 1..Len(areas) |-> FMul(areas[i], h)]
     true == FlatSeq([iz \in 1..nz |-> want(planeAreas(iz-1), hz[iz])])
     plane == FlatSeq([g \in 1..Len(gs) |-> want(planeAreas(gfirst(g)), gh(g))])
     a == FMul(Pitch(d), Pitch(d))
     pin == FlatSeq([iz \in 1..nz |-> [k \in 1..n2 |-> FMul(a, hz[iz])]])
     pinp == FlatSeq([g \in 1..Len(gs) |-> [k \in 1..n2 |-> FMul(a, gh(g))]])
     same(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near(u[i], v[i])
     total == FMul(FMul(a, n2), FSum(hz))
 IN First(<<
     <<"a volume is not positive", \A t \in 1..4 : \A i \in 1..Len(o.vol[t]) : FLt(0, o.vol[t][i])>>,
     <<"volumes do not add up to the core", \A t \in 1..4 : FNear(FSum(o.vol[t]), total, 0, Tol)>>,
     <<"number of volumes differs from number of regions", \A t \in 1..4 : Len(o.vol[t]) = o.nreg[t]>>,
     <<"volume of a pin cell", same(o.vol[2], pin)>>,
     <<"volume of a pin and plane-group cell", same(o.vol[4], pinp)>>,
     <<"volumes of full mesh regions", same(o.vol[1], true)>>,
     <<"volumes of plane-group regions", same(o.vol[3], plane)>>,
     <<"pin areas do not add up to the pin", \A i \in 1..Len(o.pinarea) : Near(o.pinarea[i].sum, a) /\ Near(o.pinarea[i].area, a)>>
   >>)
=============================================================================
