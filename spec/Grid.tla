-------------------------------- MODULE Grid --------------------------------
(* A box grid of nx * ny * nz cells.  Cells are triples <<x, y, z>> counted  *)
(* from 0.  A face is <<axis, x, y, z>>: the face of axis 1, 2, 3 on the low *)
(* side of the cell <<x, y, z>>, where the coordinate along the axis may     *)
(* also be the number of cells (the outermost face).                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, F64
(* sides in the order of the program: east north west south top bottom       *)
EAST == 0  NORTH == 1  WEST == 2  SOUTH == 3  TOP == 4  BOTTOM == 5
Sides == 0..5
Axis(s) == CASE s \in {EAST, WEST} -> 1 [] s \in {NORTH, SOUTH} -> 2 [] OTHER -> 3
High(s) == s \in {EAST, NORTH, TOP}
Opp(s) == CASE s = EAST -> WEST [] s = WEST -> EAST [] s = NORTH -> SOUTH
            [] s = SOUTH -> NORTH [] s = TOP -> BOTTOM [] OTHER -> TOP
Side(ax, hi) == CASE ax = 1 -> (IF hi THEN EAST ELSE WEST)
                  [] ax = 2 -> (IF hi THEN NORTH ELSE SOUTH)
                  [] OTHER  -> (IF hi THEN TOP ELSE BOTTOM)

Cells(n) == (0..(n[1]-1)) \X (0..(n[2]-1)) \X (0..(n[3]-1))
Faces(n) == {<<ax, x, y, z>> \in (1..3) \X (0..n[1]) \X (0..n[2]) \X (0..n[3]) :
               /\ (ax = 1 \/ x < n[1]) /\ (ax = 2 \/ y < n[2]) /\ (ax = 3 \/ z < n[3])}
NFaces(n) == (n[1]+1)*n[2]*n[3] + n[1]*(n[2]+1)*n[3] + n[1]*n[2]*(n[3]+1)
Bump(c, ax, k) == [c EXCEPT ![ax] = @ + k]
FaceOf(c, s) == LET d == IF High(s) THEN Bump(c, Axis(s), 1) ELSE c
                IN  <<Axis(s), d[1], d[2], d[3]>>
Inside(n, c) == \A a \in 1..3 : c[a] >= 0 /\ c[a] < n[a]
Neighbour(c, s) == Bump(c, Axis(s), IF High(s) THEN 1 ELSE -1)
HighCell(f) == <<f[2], f[3], f[4]>>
LowCell(f) == Bump(HighCell(f), f[1], -1)

(* Passing an edge where two vertical faces meet, in octant o of the plane (1 *)
(* ++, 2 -+, 3 --, 4 +-): one goes from the cell behind the corner to the one *)
(* ahead of it, through one of the two cells beside it, so that each cell can *)
(* balance what goes in and out.  k = <<i, j>> are the numbers of the lines.  *)
Goes(o, ax) == IF ax = 1 THEN o \in {1, 4} ELSE o \in {1, 2}
Ahead(k, o) == <<IF Goes(o, 1) THEN k[1] ELSE k[1]-1, IF Goes(o, 2) THEN k[2] ELSE k[2]-1, 0>>
Behind(k, o) == <<IF Goes(o, 1) THEN k[1]-1 ELSE k[1], IF Goes(o, 2) THEN k[2]-1 ELSE k[2], 0>>
RECURSIVE Course(_, _)
Course(c, ss) == IF ss = <<>> THEN c ELSE Course(Neighbour(c, Head(ss)), Tail(ss))
OnEdge(n, k) == \E a \in 1..2 : k[a] \in {0, n[a]}
PassOk(n, k, o, ss) ==
    IF Inside(n, Behind(k, o))
    THEN /\ Len(ss) = 2
         /\ Course(Behind(k, o), ss) = Ahead(k, o)
         /\ Inside(n, Neighbour(Behind(k, o), ss[1]))
    ELSE \E a \in 1..2 :          \* into the grid: over the boundary face of the first cell
            /\ k[a] = (IF Goes(o, a) THEN 0 ELSE n[a])
            /\ ss = <<Side(a, ~Goes(o, a))>>

(* the documented numbering: x fastest, then y, then z; faces plane by plane *)
CellNo(n, c) == (c[3]*n[2] + c[2])*n[1] + c[1]
PerPlane(n) == n[1]*n[2] + (n[1]+1)*n[2] + (n[2]+1)*n[1]
FaceNo(n, f) ==
    LET base == f[4]*PerPlane(n) IN
    CASE f[1] = 3 -> base + f[3]*n[1] + f[2]
      [] f[1] = 1 -> base + n[1]*n[2] + f[3]*(n[1]+1) + f[2]
      [] OTHER    -> base + n[1]*n[2] + (n[1]+1)*n[2] + f[2]*(n[2]+1) + f[3]

(* geometry: g[a] is the sequence of grid lines along axis a                 *)
Dims(g) == <<Len(g[1])-1, Len(g[2])-1, Len(g[3])-1>>
Width(g, a, i) == FSub(g[a][i+2], g[a][i+1])
Area(g, ax, c) == CASE ax = 1 -> FMul(Width(g, 2, c[2]), Width(g, 3, c[3]))
                    [] ax = 2 -> FMul(Width(g, 1, c[1]), Width(g, 3, c[3]))
                    [] OTHER  -> FMul(Width(g, 1, c[1]), Width(g, 2, c[2]))
Volume(g, c) == FMul(FMul(Width(g, 1, c[1]), Width(g, 2, c[2])), Width(g, 3, c[3]))
(* index of the interval of the increasing sequence v that contains x        *)
Interval(v, x) == CHOOSE i \in 0..(Len(v)-2) : FLe(v[i+1], x) /\ FLe(x, v[i+2])
CellAt(g, p) == <<Interval(g[1], p[1]), Interval(g[2], p[2]), Interval(g[3], p[3])>>
=============================================================================
