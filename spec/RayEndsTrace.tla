----------------------------- MODULE RayEndsTrace ---------------------------
(* Boundary slots at which rays end, and the cells and faces of the pin grid *)
(* along a ray in both directions of travel.                                 *)
(* ray: b slots, l lengths, fw/bw crossings <<face, segments before>>, cell  *)
(* and surf the first cell and face forwards and backwards, n segments       *)
EXTENDS TraceCases, Rays, Grid
Box(r, xs, ys, a) == [hx |-> xs[Len(xs)], hy |-> ys[Len(ys)], nx |-> r.out.nx[a], ny |-> r.out.ny[a]]
Octant(r, a) == IF a <= r.out.nd THEN 1 ELSE 2
Angles(r) == 1..(2*r.out.nd)
Tiny == FLit("1e-7")
At(x, y) == FLe(FAbs(FSub(x, y)), Tiny)
(* the slots are shared by an angle and its images in all octants            *)
Shared(r) == \A a \in 1..(4*r.out.nd) : LET b == ((a-1) % r.out.nd) + 1 IN
   r.out.nx[a] = r.out.nx[b] /\ r.out.ny[a] = r.out.ny[b] /\ FEq(r.out.space[a], r.out.space[b])
(* follow the crossings from cell c; len: lengths in the direction of travel *)
(* t: distance travelled, k: segments used                                   *)
OnFace(xs, ys, c, s, p) == CASE s = EAST -> At(p[1], xs[c[1]+2]) [] s = WEST -> At(p[1], xs[c[1]+1])
                             [] s = NORTH -> At(p[2], ys[c[2]+2]) [] s = SOUTH -> At(p[2], ys[c[2]+1]) [] OTHER -> FALSE
Node(xs, ys, p) == (\E i \in 1..Len(xs) : At(p[1], xs[i])) /\ (\E i \in 1..Len(ys) : At(p[2], ys[i]))
RECURSIVE Follow(_, _, _, _, _, _, _, _, _)
Follow(xs, ys, p0, d, ls, cr, i, c, k) ==
   LET n == <<Len(xs)-1, Len(ys)-1, 1>>
       t == FSum(SubSeq(ls, 1, k)) IN
   IF i > Len(cr) THEN (IF k = Len(ls) /\ ~Inside(n, c) THEN "" ELSE "the crossings end before the ray leaves the core")
   ELSE LET s == cr[i][1]  m == cr[i][2]
            t2 == FSum(SubSeq(ls, 1, k+m))
            p == Along(p0, d, t2) IN
        IF k + m > Len(ls) THEN "more segments than the ray has"
        ELSE IF ~Inside(n, c) THEN (IF m = 0 /\ k = Len(ls) /\ (s > 5 \/ Node(xs, ys, p)) THEN Follow(xs, ys, p0, d, ls, cr, i+1, c, k) ELSE "crossings go on outside the core")
        ELSE IF s > 5 THEN "no face"
        ELSE IF m = 0 /\ ~Node(xs, ys, p) THEN "cell without segments"
        ELSE IF ~OnFace(xs, ys, c, s, p) THEN "the ray does not leave the cell through this face here"
        ELSE IF (s = EAST /\ FLt(d[1], 0)) \/ (s = WEST /\ FLt(0, d[1])) \/ (s = NORTH /\ FLt(d[2], 0)) \/ (s = SOUTH /\ FLt(0, d[2])) THEN "crossing against the direction of travel"
        ELSE Follow(xs, ys, p0, d, ls, cr, i+1, Neighbour(c, s), k+m)
(* the first cell touches the start point and the ray goes into it           *)
EntryOk(xs, ys, p, d, cell, surf) ==
   LET n == <<Len(xs)-1, Len(ys)-1, 1>>
       e == FMul(xs[2], FLit("1e-6"))
       q == Along(p, d, e)
       c == <<Cell(xs, q[1]), Cell(ys, q[2]), 0>>
       side == IF At(p[1], 0) /\ FLt(0, d[1]) THEN WEST ELSE IF At(p[1], xs[Len(xs)]) /\ FLt(d[1], 0) THEN EAST
               ELSE IF FLt(0, d[2]) THEN SOUTH ELSE NORTH
   IN cell = CellNo(n, c) /\ surf = FaceNo(n, FaceOf(c, side))
CellOf(xs, id) == <<id % (Len(xs)-1), id \div (Len(xs)-1), 0>>
RayOk(r, xs, ys, a, q) ==
   LET b == Box(r, xs, ys, a)  o == Octant(r, a)  p == Start(b, o, q.b[1])  d == Dir(b, o)
       e == Finish(b, o, q.b[1])
       nd == <<FNeg(d[1]), FNeg(d[2])>>
   IN IF q.b[2] # EndSlot(b, o, q.b[1]) THEN "end slot"
      ELSE IF Len(q.l) # q.n THEN "number of segments"
      ELSE IF ~EntryOk(xs, ys, p, d, q.cell[1], q.surf[1]) THEN "first cell or face, forwards"
      ELSE IF ~EntryOk(xs, ys, e, nd, q.cell[2], q.surf[2]) THEN "first cell or face, backwards"
      ELSE LET f == Follow(xs, ys, p, d, q.l, q.fw, 1, CellOf(xs, q.cell[1]), 0)
               g == Follow(xs, ys, e, nd, Reverse(q.l), q.bw, 1, CellOf(xs, q.cell[2]), 0)
           IN IF f # "" THEN f \o " (forwards)" ELSE IF g # "" THEN g \o " (backwards)" ELSE ""
EndsVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET xs == XLines(r.in.d)  ys == YLines(r.in.d)
            all == FlatSeq([pl \in 1..Len(r.out.plain) |-> FlatSeq([a \in 1..(2*r.out.nd) |-> [k \in 1..Len(r.out.plain[pl][a]) |-> <<pl, a, k>>]])])
            bad == SelectSeq(all, LAMBDA j : RayOk(r, xs, ys, j[2], r.out.plain[j[1]][j[2]][j[3]]) # "")
        IN IF ~Shared(r) THEN "an angle and its reflection have other slots"
           ELSE IF \E pl \in 1..Len(r.out.plain) : \E a \in Angles(r) : \E e \in 1..2 :
                   {r.out.plain[pl][a][k].b[e] : k \in 1..Len(r.out.plain[pl][a])} # Slots(Box(r, xs, ys, a))
                     \/ Len(r.out.plain[pl][a]) # r.out.nx[a] + r.out.ny[a]
                THEN "not one ray for each slot"
           ELSE IF bad # <<>> THEN LET j == bad[1] IN RayOk(r, xs, ys, j[2], r.out.plain[j[1]][j[2]][j[3]])
           ELSE ""
=============================================================================
