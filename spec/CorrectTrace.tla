---------------------------- MODULE CorrectTrace ----------------------------
(* 2D3D: factors and surface fluxes of a plane sweep, the leakage given to   *)
(* the planes, both fluxes of a flat problem, and factors read from files.   *)
EXTENDS MocSweepTrace, Correct
Nx(r) == r.in.nx
Cells(r) == r.in.nx * r.in.ny
(* a ray through a corner of cells, inside or on the border, may be counted  *)
(* on either of the surfaces meeting there                                   *)
Node(slot, slots, cells) == ((2*slot + 1) * cells) % (2*slots) = 0
EndNode(r, f, b) == IF b < Len(f[1]) THEN Node(b, Len(f[1]), r.in.ny) ELSE Node(b - Len(f[1]), Len(f[2]), r.in.nx)
CornerAt(r, p, a) == \E k \in 1..Len(r.out.rays[p][a]) :
   LET q == r.out.rays[p][a][k]  y == q.i  f == r.out.inc0[1][p][a] IN
   EndNode(r, f, q.b[1]) \/ EndNode(r, f, q.b[2]) \/
   \E j \in 1..(Len(y)-1) : ~Adjacent(Nx(r), r.out.cell[p][y[j]+1], r.out.cell[p][y[j+1]+1])
FirstPlane(r, p) == CHOOSE z \in 1..Len(r.in.hz) : r.in.group[z] = p /\ \A y \in 1..Len(r.in.hz) : r.in.group[y] = p => z <= y
CorrStep(r, s, x, k) ==
   LET op == r.in.ops[k]  o == r.out.ops[k]  g == op.g + 1
       phi == IF k = 1 THEN r.out.phi0 ELSE r.out.ops[k-1].phi
       inc == IF k = 1 THEN r.out.inc0 ELSE r.out.ops[k-1].inc
       A == 2 * r.in.nd
       nr(p) == Len(r.out.cell[p])
       T0 == [p \in 1..Len(s.h) |-> [p |-> p, a |-> [a \in 1..A |-> NoPlane(nr(p), Cells(r))]]]
       Right(a) == IF FLt(s.quad[a+1].o[1], 0) THEN 0 ELSE 1
       Axes(p, a, y) == LET nf == Len(r.out.inc0[1][p][a+1][1]) IN [j \in 1..2 |-> IF y.b[j] < nf THEN 1 ELSE 2]
       TT(t, a, y, f, b) == IF CornerAt(r, t.p, a+1) THEN
              [t EXCEPT !.a[a+1] = TracksOnly(r.out.cell[t.p], FDiv(1, SinT(s.quad[a+1])), y, f, b, t.a[a+1])]
            ELSE [t EXCEPT !.a[a+1] = RayTally(Nx(r), r.out.cell[t.p], FDiv(1, SinT(s.quad[a+1])), Right(a), Axes(t.p, a, y), y, f, b, t.a[a+1])]
       e == Step(r, s, x, phi, inc, k, TT, T0)
       split == IF r.in.split = 1 THEN LeakSplit(o.s, o.tl, phi, g) ELSE <<>>
       Tr(p) == [i \in 1..nr(p) |-> LET j == s.first[p] + i IN IF split = <<>> THEN x[j].tr[g] ELSE FAdd(x[j].tr[g], split[j])]
       True(p) == [i \in 1..nr(p) |-> x[s.first[p] + i].tr[g]]
       Q(p) == [i \in 1..nr(p) |-> e.q[s.first[p] + i]]
       Share(a) == LET q == s.quad[a].o  sn == SinT(s.quad[a]) IN
                   [d \in 1..2 |-> FDiv(FMul(s.space[a], sn), FMul(FAbs(q[d]), r.in.pitch))]
       ang(a, d) == IF d = 1 THEN a ELSE Reverse2(a-1, r.in.nd) + 1
       Good(p, a, d, c) ==
          LET t == e.tal[p].a[a]
              rs == In(r.out.cell[p], c)
              i == (p-1) * Cells(r) + c
              f == o.oth[g][ang(a, d)]
              m == MeanOf(t, d, rs, Q(p), Tr(p))
              w == Share(a)
              xn == o.xsn[(FirstPlane(r, p) - 1) * Cells(r) + c]
          IN First(<< <<"beta times the homogenised total is not the collision rate over the mean flux",
                          Product(FMul(f.b[i], xn), m, CollOf(t, d, rs, Q(p), Tr(p), True(p)), Tiny)>>,
                      <<"alpha times the fluxes of the sides is not the mean flux",
                          CornerAt(r, p, a) \/ \A ax \in 1..2 :
                             LET u == SideSum(t, d, c, ax, w)  v == IF ax = 1 THEN f.x[i] ELSE f.y[i] IN
                             FEq(V(u), 0) \/ Product(v, u, m, Tiny)>> >>)
       bad == {z \in (1..Len(s.h)) \X (1..A) \X (1..2) \X (1..Cells(r)) : Good(z[1], z[2], z[3], z[4]) # ""}
       tw == r.out.twin[k]
       Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FNear(a[i], b[i], FInt(1), FLit("1e-10"))
   IN First(<< <<"flux differs from that of the plain sweep", \A i \in 1..Len(tw.phi) : Same(tw.phi[i], o.phi[i])>>,
               <<"current differs from that of the plain sweep", Same(tw.cur, o.cur)>>,
               <<"surface flux differs from that of the plain sweep", Same(tw.sfx, o.sfx)>>,
               <<"factors of another group were changed", \A h \in 1..r.in.ng : h # g =>
                     IF k = 1 THEN \A a \in 1..(4*r.in.nd) : \A i \in 1..(Cells(r)*Len(s.h)) : o.oth[h][a].x[i] = FRat(1, 2) /\ o.oth[h][a].y[i] = FRat(1, 2) /\ o.oth[h][a].b[i] = FInt(1)
                     ELSE o.oth[h] = r.out.ops[k-1].oth[h]>>,
               <<IF bad = {} THEN "" ELSE LET z == CHOOSE z \in bad : TRUE IN Good(z[1], z[2], z[3], z[4]), bad = {}>> >>)
CorrVerdict(r) ==
   LET x == XsOf(r.out, Len(r.out.phi0), r.in.ng)
       s == Setup(r)
       bad == {k \in 1..Len(r.in.ops) : CorrStep(r, s, x, k) # ""}
   IN IF bad = {} THEN "" ELSE CorrStep(r, s, x, CHOOSE k \in bad : TRUE)
-----------------------------------------------------------------------------
LeakVerdict(r) ==
   LET nc == Cells(r)  np == Len(r.in.h)
       At(z, c) == CHOOSE q \in {r.out.surf[i] : i \in 1..Len(r.out.surf)} : q.p[3] = z - 1 /\ q.p[2] * r.in.nx + q.p[1] + 1 = c
       Lo(p) == FirstPlane(r, p)
       Hi(p) == CHOOSE z \in 1..Len(r.in.hz) : r.in.group[z] = p /\ \A y \in 1..Len(r.in.hz) : r.in.group[y] = p => y <= z
       Was(k, g) == IF k = 1 THEN [i \in 1..(np*nc) |-> FInt(0)] ELSE r.out.ops[k-1].tl[g].v
       Now(k, p) == LET g == r.in.ops[k].g + 1  cur == r.out.ops[k].cur IN
                    Leak(SubSeq(Was(k, g), (p-1)*nc + 1, p*nc), r.in.relax, [c \in 1..nc |-> cur[At(Lo(p), c).b + 1]],
                         [c \in 1..nc |-> cur[At(Hi(p), c).t + 1]], r.in.h[p])
       Ok(k) == LET g == r.in.ops[k].g + 1 IN
                \A h \in 1..r.in.ng :
                  LET v == r.out.ops[k].tl[h] IN
                  /\ v.dims = <<np, r.in.ny, r.in.nx>>
                  /\ IF h # g \/ r.in.tl = 0 THEN \A i \in 1..(np*nc) : FEq(v.v[i], Was(k, h)[i])
                     ELSE \A p \in 1..np : \A c \in 1..nc : FNear(v.v[(p-1)*nc + c], Now(k, p)[c], FInt(1), FLit("1e-12"))
       Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FNear(a[i], b[i], FInt(1), FLit("1e-9"))
   IN First(<< <<"leakage of a plane is not the net axial current over its height, relaxed", \A k \in 1..Len(r.in.ops) : Ok(k)>>,
               <<"flux of the planes is not that of a sweep with this leakage", \A k \in 1..Len(r.in.ops) : Same(r.out.ops[k].phi, r.out.ops[k].twin)>> >>)
-----------------------------------------------------------------------------
Done(r, x) == x.fail = "" /\ Len(x.k) < r.in.max /\ \A i \in 1..Len(x.pin) : FFinite(x.pin[i])
Fine(r, x) == Done(r, x) /\ \A i \in 1..Len(x.pin) : FLt(0, x.pin[i])
Shape(x, g, ng) == LET s == FSum([i \in 1..(Len(x) \div ng) |-> FAbs(x[(i-1)*ng + g])]) IN [i \in 1..(Len(x) \div ng) |-> FDiv(x[(i-1)*ng + g], s)]
AlikePins(a, b, ng, tol) == Len(a) = Len(b) /\
   LET s == FSum([i \in 1..Len(a) |-> FAbs(a[i])])  t == FSum([i \in 1..Len(b) |-> FAbs(b[i])])
   IN \A i \in 1..Len(a) : FNear(FDiv(a[i], s), FDiv(b[i], t), FRat(1, Len(a)), tol)
SolveVerdict(r) ==
   LET a == r.out.runs[1]
       Agree(k) == LET b == r.out.runs[k] IN
                   Fine(r, a) /\ Done(r, b) =>
                      LET slow == IF Len(a.k) < 250 /\ Len(b.k) < 250 THEN 1 ELSE 100 IN
                      /\ FNear(a.k[Len(a.k)], b.k[Len(b.k)], FInt(0), FMul(slow, r.in.runs[k].kt))
                      /\ AlikePins(a.pin, b.pin, r.in.ng, FMul(slow, r.in.runs[k].pt))
       Failed(k) == Fine(r, a) /\ r.in.runs[k].must = 1 /\ ~Done(r, r.out.runs[k])
       bad == {k \in 2..Len(r.in.runs) : ~Agree(k)}
       un == {k \in 2..Len(r.in.runs) : Failed(k)}
   IN IF bad # {} THEN r.in.runs[CHOOSE k \in bad : TRUE].what
      ELSE IF un # {} THEN "no solution: " \o r.in.runs[CHOOSE k \in un : TRUE].what ELSE ""
-----------------------------------------------------------------------------
FileVerdict(r) ==
   LET nc == Cells(r)
       want == Read(r.in.np, r.in.data)
       Val(f, z, c, a, g) == FAdd(FInt(1 + z*nc + c - 1 + 100 * (a-1) + 10000 * (g-1)), FMul(100000, f))
       Pick(p) == IF want[p][1] = 0 THEN <<9, p-1>> ELSE <<r.in.data[want[p][1]].id, want[p][2]>>
       Ok == \A g \in 1..r.in.ng : \A a \in 1..r.in.na : \A p \in 1..r.in.np : \A c \in 1..nc :
               LET v == Val(Pick(p)[1], Pick(p)[2], c, a, g)  d == r.out.data[g][a]  i == (p-1)*nc + c IN
               FEq(d.x[i], v) /\ FEq(d.y[i], FAdd(v, FRat(1, 4))) /\ FEq(d.b[i], FAdd(v, FRat(1, 2)))
   IN IF want = <<>> THEN (IF r.out.refused = 1 THEN "" ELSE "files that do not fit the core were accepted")
      ELSE IF r.out.refused = 1 THEN "files that fit the core were refused"
      ELSE IF Ok THEN "" ELSE "a factor was read into the wrong place"
CorrectVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE CASE r.in.kind = "corr" -> CorrVerdict(r) [] r.in.kind = "leak" -> LeakVerdict(r)
          [] r.in.kind = "file" -> FileVerdict(r) [] OTHER -> SolveVerdict(r)
=============================================================================
