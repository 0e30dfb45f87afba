----------------------------- MODULE MocCurTrace ----------------------------
(* Coarse-mesh currents left by a MoC sweep.  Each ray is walked from cell   *)
(* to cell; t[c][side] collects the flow through the four sides of cell c of *)
(* the plane group, along the axis, as value and bound.                      *)
EXTENDS MocSweepTrace
East == 1  North == 2  West == 3  South == 4
Nx(r) == r.in.nx
Add2(t, c, s, v) == [t EXCEPT ![c][s] = PAdd(@, v, FInt(1))]
(* flow through the border from cell c to cell d                            *)
DX(r, c, d) == ((d-1) % Nx(r)) - ((c-1) % Nx(r))
DY(r, c, d) == ((d-1) \div Nx(r)) - ((c-1) \div Nx(r))
Cross(r, t, c, d, v) ==
   CASE DX(r, c, d) = 1 -> Add2(Add2(t, c, East, v), d, West, v)
     [] DX(r, c, d) = -1 -> Add2(Add2(t, c, West, v), d, East, v)
     [] OTHER -> Add2(Add2(t, c, North, v), d, South, v)
Adjacent(r, c, d) == c = d \/ (DY(r, c, d) = 0 /\ DX(r, c, d) \in {1, -1}) \/ (DX(r, c, d) = 0 /\ DY(r, c, d) = 1)
(* a ray through a corner of cells, inside or on the border, may be counted  *)
(* on either of the surfaces meeting there                                   *)
Node(slot, slots, cells) == ((2*slot + 1) * cells) % (2*slots) = 0
EndNode(r, f, b) == IF b < Len(f[1]) THEN Node(b, Len(f[1]), r.in.ny) ELSE Node(b - Len(f[1]), Len(f[2]), r.in.nx)
Corner(r) == \E p \in 1..Len(r.out.rays) : \E a \in 1..Len(r.out.rays[p]) : \E k \in 1..Len(r.out.rays[p][a]) :
   LET q == r.out.rays[p][a][k]  y == q.i  f == r.out.inc0[1][p][a] IN
   EndNode(r, f, q.b[1]) \/ EndNode(r, f, q.b[2]) \/
   \E j \in 1..(Len(y)-1) : ~Adjacent(r, r.out.cell[p][y[j]+1], r.out.cell[p][y[j+1]+1])
TallyOf(r, s, t, a, y, f, b) ==
   LET n == Len(y.l)
       o == s.quad[a+1].o
       w == FMul(FMul(s.quad[a+1].w, s.space[a+1]), FMul(Pi, SinT(s.quad[a+1])))
       Sg(ax) == IF FLt(o[ax], 0) THEN -1 ELSE 1
       Flow(k, ax) == LET ff == f[k+1]  bb == b[n-k+1]  q == FMul(w, Sg(ax)) IN
                      << FMul(q, FSub(V(ff), V(bb))), FMul(w, FAdd(D(ff), D(bb))) >>
       nf == Len(r.out.inc0[1][1][a+1][1])
       cells == r.out.cell[t.p]
       C(k) == cells[y.i[k]+1]
       inAx == IF y.b[1] < nf THEN 1 ELSE 2
       outAx == IF y.b[2] < nf THEN 1 ELSE 2
       t0 == Add2(t.t, C(1), IF inAx = 2 THEN South ELSE IF Sg(1) = 1 THEN West ELSE East, Flow(0, inAx))
       t1 == FoldLeft(LAMBDA u, k : IF C(k) = C(k+1) THEN u ELSE Cross(r, u, C(k), C(k+1), Flow(k, IF DX(r, C(k), C(k+1)) # 0 THEN 1 ELSE 2)),
                      t0, [k \in 1..(n-1) |-> k])
   IN [t EXCEPT !.t = Add2(t1, C(n), IF outAx = 2 THEN North ELSE IF Sg(1) = 1 THEN East ELSE West, Flow(n, outAx))]
Plane0(r, p) == SubSeq(r.out.cell[p], 1, 1)
Cells(r) == r.in.nx * r.in.ny
(* planes of plane group p                                                   *)
Planes(r, p) == {z \in 1..Len(r.in.hz) : r.in.group[z] = p}
Cur(r, o, z, c, s) == o.cur[r.out.surf[(z-1)*Cells(r) + c][s] + 1]
Width(r) == r.in.pitch

Walk2(r, s, x, phi, inc, k) ==
   LET op == r.in.ops[k]  o == r.out.ops[k]  g == op.g + 1
            Zero == Exact(FInt(0))
            T0 == [p \in 1..Len(s.h) |-> [p |-> p, t |-> [c \in 1..Cells(r) |-> <<Zero, Zero, Zero, Zero>>]]]
            TT(t, a, y, f, b) == TallyOf(r, s, t, a, y, f, b)
            e == Step(r, s, x, phi, inc, k, TT, T0)
            sc == Big(e.phi)
            want(p, c, q) == LET v == e.tal[p].t[c][q] IN <<FDiv(V(v), Width(r)), FDiv(D(v), Width(r))>>
            N == Len(x)
            own(p, i) == r.out.cell[p][i]
            Regs(p) == 1..Len(r.out.cell[p])
            Out(p, z, c) == FMul(FMul(Width(r), r.in.h[p]), FSum(<<Cur(r, o, z, c, East), Cur(r, o, z, c, North), FNeg(Cur(r, o, z, c, West)), FNeg(Cur(r, o, z, c, South))>>))
            tl == IF r.in.split = 1 THEN LeakSource(o.s, o.tl) ELSE Plus(o.s, o.tl)
            Net(p, c) == FSum([i \in Regs(p) |-> IF own(p, i) # c THEN FInt(0) ELSE
                 LET j == s.first[p] + i IN
                 FMul(s.vol[j], FSub(FMul(o.tr[j], o.phi[j][g]), FAdd(tl[j], FMul(x[j].sc[g][g], phi[j][g]))))])
        IN First(<<
             <<"axial currents were touched", \A z \in 1..Len(r.in.hz) : \A c \in 1..Cells(r) : \A q \in {5, 6} :
                  LET u == r.out.surf[(z-1)*Cells(r) + c][q] IN FEq(o.cur[u+1], FAdd(7, FRat(u, 8)))>>,
             <<"planes of a group have different radial currents", \A p \in 1..Len(s.h) : \A z, y \in Planes(r, p) : \A c \in 1..Cells(r) : \A q \in 1..4 :
                  Cur(r, o, z, c, q) = Cur(r, o, y, c, q)>>,
             <<"net outflow and collisions do not balance the emission of a cell",
                  r.in.inners = 1 => \A p \in 1..Len(s.h) : \A z \in Planes(r, p) : \A c \in 1..Cells(r) :
                     FNear(Out(p, z, c), FNeg(Net(p, c)), FMul(sc, FMul(10, FMul(Width(r), r.in.h[p]))), FLit("1e-9"))>>,
             <<"current through a surface", Corner(r) \/ \A p \in 1..Len(s.h) : \A z \in Planes(r, p) : \A c \in 1..Cells(r) : \A q \in 1..4 :
                  Within(Cur(r, o, z, c, q), want(p, c, q), sc)>>,
             <<"currents of another group were touched", o.curx = 1>> >>)
MocCurVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET x == XsOf(r.out, Len(r.out.phi0), r.in.ng)
            W(k) == Walk2(r, Setup(r), x, IF k = 1 THEN r.out.phi0 ELSE r.out.ops[k-1].phi, IF k = 1 THEN r.out.inc0 ELSE r.out.ops[k-1].inc, k)
            bad == {k \in 1..Len(r.in.ops) : W(k) # ""}
        IN IF bad = {} THEN "" ELSE W(CHOOSE k \in bad : TRUE)
=============================================================================
