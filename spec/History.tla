------------------------------- MODULE History ------------------------------
(* One particle history.  The particle is in pin cell s.c = <<ix, iy, iz>>   *)
(* at point s.p (global) going in direction s.o in group s.g.  A flight goes *)
(* straight to the nearer of a collision and a boundary of the region, pin   *)
(* or plane.                                                                 *)
EXTENDS PinMesh
Tie == FLit("1e-8")
Axes3 == 1..3
Lines(d) == <<XLines(d), YLines(d), ZLines(d)>>
Centre(ls, c) == [k \in 1..2 |-> FMul(FRat(1, 2), FAdd(ls[k][c[k]+1], ls[k][c[k]+2]))]
Go(p, o, t) == [k \in Axes3 |-> FAdd(p[k], FMul(t, o[k]))]
(* distances to the faces of the cell ahead; a direction along a face never  *)
(* meets it                                                                  *)
Ahead(ls, c, p, o) == [k \in Axes3 |->
   IF FLt(0, o[k]) THEN FDiv(FSub(ls[k][c[k]+2], p[k]), o[k])
   ELSE IF FLt(o[k], 0) THEN FDiv(FSub(ls[k][c[k]+1], p[k]), o[k]) ELSE FLit("1e30")]
Least(s) == FoldLeft(FMin, s[1], s)
(* the flight up to the next boundary: how far, through which axis (0 for a  *)
(* boundary inside the pin), in which region of the pin                      *)
NextSurface(ls, mesh, s) ==
   LET f == Ahead(ls, s.c, s.p, s.o)
       dist == FMax(0, Least(f))
       ax == CHOOSE k \in Axes3 : f[k] = Least(f)
       ctr == Centre(ls, s.c)
       a == [k \in 1..2 |-> FSub(s.p[k], ctr[k])]
       e == Go(s.p, s.o, dist)
       b == [k \in 1..2 |-> FSub(e[k], ctr[k])]
       cuts == Cuts(mesh, a, b)
       near == cuts # <<>>
       t == IF near THEN cuts[1] ELSE FInt(1)
       mid == P(a, b, FMul(FRat(1, 2), t))
       away == {FMul(cuts[i], dist) : i \in 1..Len(cuts)} \cup {f[k] : k \in Axes3}
       clear == /\ FLt(Tie, FMul(t, dist))                                            \* does not start at a boundary ahead
                /\ \A x \in away : \A y \in away : x = y \/ FLt(Tie, FAbs(FSub(x, y)))
                /\ Cardinality({k \in Axes3 : f[k] = Least(f)}) = 1
                /\ FLt(Tie, LenOf(a, b))
   IN [d |-> FMul(t, dist), ax |-> IF near THEN 0 ELSE ax, reg |-> RegionAt(mesh, mid[1], mid[2]), clear |-> clear]
(* across a face: out of the core or into the next cell                      *)
Up01(o) == IF FLt(0, o) THEN 1 ELSE -1
FaceOf(ax, o) == IF FLt(0, o) THEN (CASE ax = 1 -> 1 [] ax = 2 -> 2 [] OTHER -> 5) ELSE (CASE ax = 1 -> 3 [] ax = 2 -> 4 [] OTHER -> 6)
Outside(ls, c, ax, o) == IF FLt(0, o) THEN c[ax] + 2 = Len(ls[ax]) ELSE c[ax] = 0
OnFace(ls, c, ax, o) == IF FLt(0, o) THEN ls[ax][c[ax]+2] ELSE ls[ax][c[ax]+1]
(* bc[face], faces east north west south top bottom                          *)
Across(ls, bc, s, ax, d) ==
   LET q == [Go(s.p, s.o, d) EXCEPT ![ax] = OnFace(ls, s.c, ax, s.o[ax])]
       f == FaceOf(ax, s.o[ax])
   IN IF ~Outside(ls, s.c, ax, s.o[ax]) THEN [s EXCEPT !.p = q, !.c[ax] = @ + Up01(s.o[ax])]
      ELSE IF bc[f] = "reflect" THEN [s EXCEPT !.p = q, !.o[ax] = FNeg(@)]
      ELSE [s EXCEPT !.p = q, !.end = "leak"]
(* a flight without collisions: all faces met at once are crossed, or turned *)
(* back from, together                                                       *)
RECURSIVE AcrossAll(_, _, _, _, _)
AcrossAll(ls, bc, s, A, d) == IF A = {} \/ s.end # "" THEN s
   ELSE LET k == CHOOSE k \in A : TRUE  IN AcrossAll(ls, bc, [Across(ls, bc, s, k, d) EXCEPT !.p = s.p], A \ {k}, d)
FreeFlight(ls, bc, s) ==
   LET f == Ahead(ls, s.c, s.p, s.o)
       d == FMax(0, Least(f))
       A == {k \in Axes3 : FLt(FSub(f[k], d), Tie)}
       t == AcrossAll(ls, bc, s, A, d)
   IN [d |-> d, s |-> [t EXCEPT !.p = [i \in Axes3 |-> IF i \in A THEN OnFace(ls, s.c, i, s.o[i]) ELSE Go(s.p, s.o, d)[i]]]]
InCell(ls, s) == \A k \in Axes3 : FLe(FSub(ls[k][s.c[k]+1], FLit("1e-12")), s.p[k]) /\ FLe(s.p[k], FAdd(ls[k][s.c[k]+2], FLit("1e-12")))
Unit3(o) == FNear(FSum([k \in Axes3 |-> FMul(o[k], o[k])]), 1, FInt(0), FLit("1e-12"))
(* direction from two numbers in [0,1)                                       *)
Isotropic(r1, r2) == LET z == FSub(FMul(2, r2), 1)  al == FMul(TwoPi, r1)
                         st == FSqrt(FMax(0, FSub(1, FMul(z, z))))
                     IN <<FMul(st, FCos(al)), FMul(st, FSin(al)), z>>
(* index (from 1) chosen by u from probabilities w, and whether u is clear   *)
(* of the bounds between them                                                *)
Upto(w, i) == FSum(SubSeq(w, 1, i))
Choose(w, u) == LET n == Len(w)  S == {i \in 1..(n-1) : FLe(u, Upto(w, i))} IN
                IF S = {} THEN n ELSE CHOOSE i \in S : \A j \in S : i <= j
ClearOf(w, u) == \A i \in 1..(Len(w)-1) : FLt(FLit("1e-12"), FAbs(FSub(u, Upto(w, i))))
=============================================================================
