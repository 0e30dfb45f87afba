------------------------------ MODULE GridTrace ------------------------------
(* Tables of a real mesh are judged by what they say about cells and faces,  *)
(* not by a particular numbering.                                            *)
EXTENDS TraceCases, Grid
Tol == FLit("1e-12")
Near(a, b) == FNear(a, b, 0, Tol)
N(r) == Dims(r.in.g)
Cell(r, i) == r.out.cells[i+1]
IdOf(r, c) == CHOOSE i \in 0..(Len(r.out.cells)-1) : Cell(r, i).pos = c
Tables(r) ==
  LET n == N(r)
      nc == n[1]*n[2]*n[3]
      ids == 0..(nc-1)
      pos == [i \in ids |-> Cell(r, i).pos]
      id == [c \in Cells(n) |-> IF \E i \in ids : pos[i] = c THEN CHOOSE i \in ids : pos[i] = c ELSE -1]
      nbr(i, s) == LET m == Neighbour(pos[i], s) IN IF Inside(n, m) THEN id[m] ELSE -1
      face == [f \in Faces(n) |-> IF Inside(n, HighCell(f))
                                  THEN Cell(r, id[HighCell(f)]).surf[Side(f[1], FALSE)+1]
                                  ELSE Cell(r, id[LowCell(f)]).surf[Side(f[1], TRUE)+1]]
      pb == r.out.planes
  IN IF Len(r.out.cells) # nc THEN "number of cells"
     ELSE IF \E c \in Cells(n) : id[c] = -1 THEN "positions are not all cells of the grid"
     ELSE First(<<
      <<"n_pin is not the number of cells", r.out.npin = nc>>,
      <<"cell of a position is not inverse to position of a cell", \A i \in ids : Cell(r, i).back = i>>,
      <<"cell outside its plane range", \A i \in ids : i >= pb[pos[i][3]+1].c0 /\ i < pb[pos[i][3]+1].c1>>,
      <<"neighbour look-up", \A i \in ids : \A s \in Sides : Cell(r, i).neigh[s+1] = nbr(i, s)>>,
      <<"a cell has fewer than six surfaces", \A i \in ids : Cardinality({Cell(r, i).surf[s+1] : s \in Sides}) = 6>>,
      <<"the two cells of a face disagree on its number", \A i \in ids : \A s \in Sides :
           nbr(i, s) = -1 \/ Cell(r, nbr(i, s)).surf[Opp(s)+1] = Cell(r, i).surf[s+1]>>,
      <<"n_surf is not the number of faces", r.out.nsurf = NFaces(n) /\ Len(r.out.surfs) = NFaces(n)>>,
      <<"surface numbers are not 0..n-1", {face[f] : f \in Faces(n)} = 0..(NFaces(n)-1)>>,
      <<"cells of a surface", \A f \in Faces(n) : LET s == r.out.surfs[face[f]+1] IN
           /\ s.lo = (IF Inside(n, LowCell(f)) THEN id[LowCell(f)] ELSE -1)
           /\ s.hi = (IF Inside(n, HighCell(f)) THEN id[HighCell(f)] ELSE -1)>>,
      <<"surface normal", \A f \in Faces(n) : r.out.surfs[face[f]+1].norm = f[1]-1>>,
      <<"surface area", \A f \in Faces(n) : Near(r.out.surfs[face[f]+1].area,
            Area(r.in.g, f[1], IF Inside(n, HighCell(f)) THEN HighCell(f) ELSE LowCell(f)))>>,
      <<"surface area by cell and side", \A i \in ids : \A s \in Sides :
            Near(Cell(r, i).area[s+1], Area(r.in.g, Axis(s), pos[i]))>>,
      <<"cell volume", \A i \in ids : Near(Cell(r, i).vol, Volume(r.in.g, pos[i]))>>,
      <<"cell width", \A i \in ids : \A a \in 1..3 : Near(Cell(r, i).thick[a], Width(r.in.g, a, pos[i][a]))>>,
      <<"interface of two neighbours", \A i \in ids : \A s \in Sides :
            nbr(i, s) = -1 \/ (Cell(r, i).iface[s+1] = <<Cell(r, i).surf[s+1], s>>)>>,
      <<"surface outside its plane range", \A f \in Faces(n) : f[4] = n[3] \/
            (face[f] >= pb[f[4]+1].s0 /\ face[f] < pb[f[4]+1].s1)>>,
      <<"radial surfaces do not follow plane_surf_xy_begin", \A f \in Faces(n) : f[4] = n[3] \/
            ((face[f] >= pb[f[4]+1].sxy) <=> f[1] # 3)>>,
      <<"grid lines", \A a \in 1..3 : Len(r.out.lines[a]) = Len(r.in.g[a]) /\
            \A k \in 1..Len(r.in.g[a]) : Near(r.out.lines[a][k], r.in.g[a][k])>>
     >>)
(* a point inside a cell *)
Points(r) == First([k \in 1..Len(r.out.pts) |->
   LET q == r.in.pts[k]
       o == r.out.pts[k]
       c == CellAt(r.in.g, q.p)
   IN <<"point look-up", /\ o.cell3 = IdOf(r, c) /\ o.cell2 = IdOf(r, <<c[1], c[2], 0>>)
                          /\ o.plane = c[3] /\ o.planeup = c[3] /\ o.planedn = c[3] /\ o.onface = 0>>])
(* a point on a single vertical face: the face found is the face it is on    *)
FacePts(r) == First([k \in 1..Len(r.out.fpts) |->
   LET q == r.in.fpts[k]
       o == r.out.fpts[k]
       f == <<q.ax, q.c[1], q.c[2], 0>>
       owner == IF Inside(N(r), HighCell(f)) THEN Cell(r, IdOf(r, HighCell(f))).surf[Side(q.ax, FALSE)+1]
                ELSE Cell(r, IdOf(r, LowCell(f))).surf[Side(q.ax, TRUE)+1]
       edge == (q.c[q.ax] = 0) \/ (q.c[q.ax] = N(r)[q.ax])
       (* octants 1 ++, 2 -+, 3 --, 4 +- *)
       goesHigh == IF q.ax = 1 THEN q.oct \in {1, 4} ELSE q.oct \in {1, 2}
       entering == edge /\ (goesHigh <=> (q.c[q.ax] = 0))
       side == Side(q.ax, IF entering THEN ~goesHigh ELSE goesHigh)
   IN <<"face look-up at a point", /\ o.n = 1 /\ o.surf = owner /\ o.nside = 1 /\ o.side = side
         /\ (entering => o.bcell = IdOf(r, IF goesHigh THEN HighCell(f) ELSE LowCell(f)))>>])
(* a point on two vertical faces at once                                     *)
CornerPts(r) == First([k \in 1..Len(r.out.cpts) |->
   LET q == r.in.cpts[k]
       o == r.out.cpts[k]
       n == N(r)
       (* the faces named for each of the four cells around an inner corner lead across it *)
       ids == {<<a, b, 0>> : a \in {q.c[1]-1, q.c[1]}, b \in {q.c[2]-1, q.c[2]}}
       across(i) == LET c == Cell(r, o.around[i].cell).pos
                        sx == Side(1, c[1] < q.c[1])
                        sy == Side(2, c[2] < q.c[2])
                        f(d, s) == Cell(r, IdOf(r, d)).surf[s+1]
                    IN  o.around[i].surf \in {<<f(c, sx), f(Neighbour(c, sx), sy)>>, <<f(c, sy), f(Neighbour(c, sy), sx)>>}
   IN <<"passing a corner", /\ PassOk(n, q.c, q.oct, o.sides)
         /\ (~Inside(n, Behind(q.c, q.oct)) => o.bcell = IdOf(r, Ahead(q.c, q.oct)))
         /\ (~OnEdge(n, q.c) => /\ {Cell(r, o.around[i].cell).pos : i \in 1..Len(o.around)} = ids
                                 /\ \A i \in 1..Len(o.around) : across(i))>>])
(* boundary sides at a point, per axis: corners report every side            *)
Bnd(r) == First([k \in 1..Len(r.out.bpts) |->
   LET q == r.in.bpts[k] IN
   <<"boundary sides at a point", {s \in ToSet(r.out.bpts[k]) : s \in Sides} = {s \in Sides :
        LET a == Axis(s) IN IF High(s) THEN q.at[a] = 1 /\ q.d[a] > 0 ELSE q.at[a] = -1 /\ q.d[a] < 0}>>])
(* plane interfaces with a direction *)
Zs(r) == First([k \in 1..Len(r.out.zpts) |->
   LET q == r.in.zpts[k]  n == N(r)[3] IN
   <<"plane at an interface", r.out.zpts[k] = (IF q.up > 0 THEN (IF q.k = n THEN n-1 ELSE q.k)
                                               ELSE (IF q.k = 0 THEN 0 ELSE q.k-1))>>])
(* a straight line across the grid is cut at every grid line it crosses      *)
TraceOk(r, k) ==
   LET q == r.in.tr[k]
       o == r.out.tr[k]
       t(ax, v) == FDiv(FSub(v, q.a[ax]), FSub(q.b[ax], q.a[ax]))
       inner(ax) == {i \in 2..(Len(r.in.g[ax])-1) :
                       LET lo == FMin(q.a[ax], q.b[ax]) hi == FMax(q.a[ax], q.b[ax]) IN
                       FLt(lo, r.in.g[ax][i]) /\ FLt(r.in.g[ax][i], hi)}
       ts == SetToSeq({t(1, r.in.g[1][i]) : i \in inner(1)} \cup {t(2, r.in.g[2][i]) : i \in inner(2)})
       sorted == SortSeq(ts, LAMBDA x, y : FLt(x, y))
       kept == SelectSeq([i \in 1..Len(sorted) |-> <<i, sorted[i]>>], LAMBDA e : e[1] = 1 \/
                    FLt(FLit("1e-9"), FSub(e[2], sorted[e[1]-1])))
       at(s) == <<FAdd(q.a[1], FMul(s, FSub(q.b[1], q.a[1]))), FAdd(q.a[2], FMul(s, FSub(q.b[2], q.a[2])))>>
       want == <<q.a>> \o [i \in 1..Len(kept) |-> at(kept[i][2])] \o <<q.b>>
   IN  Len(o) = Len(want) /\ \A i \in 1..Len(o) : \A ax \in 1..2 :
            FNear(o[i][ax], want[i][ax], 1, FLit("1e-9"))
Tracks(r) == First([k \in 1..Len(r.out.tr) |-> <<"line across the grid is cut wrongly", TraceOk(r, k)>>])
GridVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "refused a valid mesh"
   ELSE LET a == Tables(r) IN IF a # "" THEN a
   ELSE LET b == Points(r) IN IF b # "" THEN b
   ELSE LET c == FacePts(r) IN IF c # "" THEN c
   ELSE LET f == CornerPts(r) IN IF f # "" THEN f
   ELSE LET d == Bnd(r) IN IF d # "" THEN d
   ELSE LET e == Zs(r) IN IF e # "" THEN e
   ELSE Tracks(r)
=============================================================================
