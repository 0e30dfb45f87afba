----------------------------- MODULE LayoutTrace -----------------------------
EXTENDS TraceCases, Layout
Near(a, b) == FNear(a, b, FLit("1e-3"), FLit("1e-11"))
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
LayoutVerdict(r) ==
 IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "refused a valid geometry" ELSE
 LET d == r.in.d
     o == r.out
     nx == NX(d)  ny == NY(d)  nz == NZ(d)  n2 == nx*ny
     order == PlaneOrder(d)
     pos == [i \in 0..(n2*nz-1) |-> <<order[(i % n2)+1][1], order[(i % n2)+1][2], i \div n2>>]
     pinat == [p \in (0..(nx-1)) \X (0..(ny-1)) \X (0..(nz-1)) |-> PinAt(d, p[1], p[2], p[3])]
     nreg == [i \in DOMAIN pos |-> NReg(MeshOf(d, pinat[pos[i]]))]
     offs == FoldLeft(LAMBDA a, i : Append(a, a[Len(a)] + nreg[i-1]), <<0>>, [k \in 1..(n2*nz) |-> k])
     index == [p \in DOMAIN pinat |-> CHOOSE i \in DOMAIN pos : pos[i] = p]
     gs == Groups(d)
     gfirst(g) == SumSeq(SubSeq(gs, 1, g-1))
     planeRegs(iz) == SumSeq([k \in 1..n2 |-> nreg[iz*n2 + k - 1]])
     xl == XLines(d) yl == YLines(d) zl == ZLines(d)
     meshes(iz) == [k \in 1..n2 |-> pinat[pos[iz*n2+k-1]].mesh]
 IN IF o.nx # nx \/ o.ny # ny \/ o.nz # nz THEN "numbers of pins and planes" ELSE
    IF ~(SameSeq(o.x, xl) /\ SameSeq(o.y, yl) /\ SameSeq(o.z, zl)) THEN "pin or plane boundaries" ELSE
    IF Len(o.pins) # n2*nz THEN "number of pins" ELSE
    First(<<
     <<"pin order or pin position", \A i \in DOMAIN pos : o.pins[i+1].pos = pos[i]>>,
     <<"pin at a position", \A i \in DOMAIN pos : o.pins[i+1].id = pinat[pos[i]].id>>,
     <<"pin mesh", \A i \in DOMAIN pos : o.pins[i+1].mesh = pinat[pos[i]].mesh>>,
     <<"pin materials", \A i \in DOMAIN pos : o.pins[i+1].mats = pinat[pos[i]].mats>>,
     <<"pin centre", \A i \in DOMAIN pos :
         /\ Near(o.pins[i+1].origin[1], FMul(FRat(1,2), FAdd(xl[pos[i][1]+1], xl[pos[i][1]+2])))
         /\ Near(o.pins[i+1].origin[2], FMul(FRat(1,2), FAdd(yl[pos[i][2]+1], yl[pos[i][2]+2])))>>,
     <<"first region of a plane", \A iz \in 1..nz : o.firstreg[iz] = offs[(iz-1)*n2+1]>>,
     <<"number of regions", o.nreg[1] = offs[n2*nz+1]>>,
     <<"number of pin cells", o.nreg[2] = n2*nz>>,
     <<"number of regions on plane groups", o.nreg[3] = SumSeq([g \in 1..Len(gs) |-> planeRegs(gfirst(g))])>>,
     <<"number of pin and plane-group cells", o.nreg[4] = n2*Len(gs)>>,
     <<"plane groups", o.subplane = gs>>,
     <<"plane group of a plane", \A iz \in 0..(nz-1) : LET g == o.mpindex[iz+1]+1 IN
          g \in 1..Len(gs) /\ gfirst(g) <= iz /\ iz < gfirst(g)+gs[g]>>,
     <<"plane group extent or height", Len(o.mp) = Len(gs) /\ \A g \in 1..Len(gs) :
          /\ o.mp[g].lo = gfirst(g) /\ o.mp[g].hi = gfirst(g)+gs[g]-1
          /\ Near(o.mp[g].h, FSub(zl[gfirst(g)+gs[g]+1], zl[gfirst(g)+1]))
          /\ Near(o.mph[g], FSub(zl[gfirst(g)+gs[g]+1], zl[gfirst(g)+1]))>>,
     <<"pins of a plane group", \A g \in 1..Len(gs) : o.mp[g].pins = [k \in 1..n2 |-> pinat[pos[gfirst(g)*n2+k-1]].id]>>,
     <<"planes said to have equal geometry differ", \A a, b \in 0..(nz-1) :
          o.unique[a+1] = o.unique[b+1] => meshes(a) = meshes(b)>>,
     <<"equal planes are numbered apart or unique planes are not numbered 0..n-1",
          /\ \A a, b \in 0..(nz-1) : meshes(a) = meshes(b) => o.unique[a+1] = o.unique[b+1]
          /\ {o.unique[k] : k \in 1..nz} = 0..(o.nunique-1)>>,
     <<"regions of a unique plane", \A iz \in 0..(nz-1) : o.uniquereg[o.unique[iz+1]+1] = planeRegs(iz)>>
    >> \o [k \in 1..Len(o.pts) |->
     LET q == r.in.pts[k]
         p == o.pts[k]
         c == q.c
         ox == FMul(FRat(1,2), FAdd(xl[c[1]+1], xl[c[1]+2]))
         oy == FMul(FRat(1,2), FAdd(yl[c[2]+1], yl[c[2]+2]))
         m == MeshOf(d, pinat[c])
         want == offs[index[c]+1] + RegionAt(m, q.l[1], q.l[2])
     IN <<"point look-up", /\ p.pos = c /\ p.cell = p.cell2
           /\ p.pm = m.id /\ p.off = offs[index[c]+1]
           /\ Near(p.local[1], q.l[1]) /\ Near(p.local[2], q.l[2])
           /\ p.region = want /\ p.regiondir = want /\ p.regionpt = want
           /\ p.gpos = <<c[1], c[2]>> /\ p.gpm = m.id
           /\ p.goff = offs[index[c]+1] - offs[c[3]*n2+1]
           /\ Near(p.gorigin[1], ox) /\ Near(p.gorigin[2], oy)
           /\ Near(p.box[1], xl[c[1]+1]) /\ Near(p.box[2], yl[c[2]+1]) /\ Near(p.box[3], zl[c[3]+1])
           /\ Near(p.box[4], xl[c[1]+2]) /\ Near(p.box[5], yl[c[2]+2]) /\ Near(p.box[6], zl[c[3]+2])>>])
=============================================================================
