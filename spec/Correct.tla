------------------------------ MODULE Correct -------------------------------
(* What a MoC plane hands to the corrected Sn equations, and the axial       *)
(* leakage it is handed.                                                     *)
(*                                                                           *)
(* For a cell and a direction the corrected equations close each axis with   *)
(*     mean = alpha * beta * (entering + leaving)                            *)
(* and collide with beta * (MoC mean) in a homogenised cross section.  They  *)
(* reproduce the plane if                                                    *)
(*     alpha * (entering + leaving) = MoC mean                               *)
(*     beta * homogenised total * MoC mean = MoC collisions                  *)
EXTENDS MocSweep
East == 1  North == 2  West == 3  South == 4
(* t.len[i] ray length in region i over sine; t.dif[d][i] flux lost there,   *)
(* t.sf[d][c][side] flux through the sides of cell c; d 1 forward, 2 back    *)
NoPlane(nr, nc) ==
   [len |-> [i \in 1..nr |-> FInt(0)], dif |-> [d \in 1..2 |-> [i \in 1..nr |-> Exact(FInt(0))]],
    sf |-> [d \in 1..2 |-> [c \in 1..nc |-> [s \in 1..4 |-> Exact(FInt(0))]]]]
Cols(nx, c) == (c-1) % nx
Rows(nx, c) == (c-1) \div nx
DX(nx, c, d) == Cols(nx, d) - Cols(nx, c)
DY(nx, c, d) == Rows(nx, d) - Rows(nx, c)
Adjacent(nx, c, d) == c = d \/ (DY(nx, c, d) = 0 /\ DX(nx, c, d) \in {1, -1}) \/ (DX(nx, c, d) = 0 /\ DY(nx, c, d) = 1)
Hit(t, c, s, f, b) == [t EXCEPT !.sf[1][c][s] = PAdd(@, f, FInt(1)), !.sf[2][c][s] = PAdd(@, b, FInt(1))]
Border(nx, t, c, d, f, b) ==
   CASE DX(nx, c, d) = 1 -> Hit(Hit(t, c, East, f, b), d, West, f, b)
     [] DX(nx, c, d) = -1 -> Hit(Hit(t, c, West, f, b), d, East, f, b)
     [] OTHER -> Hit(Hit(t, c, North, f, b), d, South, f, b)
(* one ray: f[k+1] and b[n-k+1] are the fluxes after k segments; ax the axes *)
(* of the sides it enters and leaves by, right = 1 if it goes east           *)
RayTally(nx, cells, rs, right, ax, y, f, b, t) ==
   LET n == Len(y.l)
       C(k) == cells[y.i[k]+1]
       F(k) == f[k+1]
       B(k) == b[n-k+1]
       Side(a, in) == IF a = 2 THEN (IF in THEN South ELSE North)
                      ELSE IF in THEN (IF right = 1 THEN West ELSE East) ELSE (IF right = 1 THEN East ELSE West)
       Diff(p, q) == <<FSub(V(p), V(q)), FAdd(D(p), D(q))>>
       t0 == Hit(t, C(1), Side(ax[1], TRUE), F(0), B(0))
       Seg(u, k) ==
          LET i == y.i[k] + 1
              v == [u EXCEPT !.len[i] = FAdd(@, FMul(rs, y.l[k])), !.dif[1][i] = PAdd(@, Diff(F(k-1), F(k)), FInt(1)),
                             !.dif[2][i] = PAdd(@, Diff(B(k), B(k-1)), FInt(1))]
          IN IF k = n THEN Hit(v, C(n), Side(ax[2], FALSE), F(n), B(n))
             ELSE IF C(k) = C(k+1) THEN v ELSE Border(nx, v, C(k), C(k+1), F(k), B(k))
   IN FoldLeft(Seg, t0, [k \in 1..n |-> k])
(* as above without the sides                                               *)
TracksOnly(cells, rs, y, f, b, t) ==
   LET n == Len(y.l)
       F(k) == f[k+1]
       B(k) == b[n-k+1]
       Diff(p, q) == <<FSub(V(p), V(q)), FAdd(D(p), D(q))>>
       Seg(u, k) == LET i == y.i[k] + 1 IN
          [u EXCEPT !.len[i] = FAdd(@, FMul(rs, y.l[k])), !.dif[1][i] = PAdd(@, Diff(F(k-1), F(k)), FInt(1)),
                    !.dif[2][i] = PAdd(@, Diff(B(k), B(k-1)), FInt(1))]
   IN FoldLeft(Seg, t, [k \in 1..n |-> k])
(* cell averages of a direction from the sums of its rays; w[s] the share of *)
(* side s one ray stands for                                                 *)
In(cells, c) == SelectSeq([i \in 1..Len(cells) |-> i], LAMBDA i : cells[i] = c)
Track(t, d, i, q, tr) == << FAdd(FMul(t.len[i], V(q[i])), FDiv(V(t.dif[d][i]), tr[i])),
                            FAdd(FMul(t.len[i], D(q[i])), FDiv(D(t.dif[d][i]), tr[i])) >>
PSum(s) == <<FSum([k \in 1..Len(s) |-> V(s[k])]), FSum([k \in 1..Len(s) |-> D(s[k])])>>
PScale(p, w) == <<FMul(V(p), w), FMul(D(p), w)>>
MeanOf(t, d, rs, q, tr) == PScale(PSum([k \in 1..Len(rs) |-> Track(t, d, rs[k], q, tr)]), FDiv(1, FSum([k \in 1..Len(rs) |-> t.len[rs[k]]])))
CollOf(t, d, rs, q, tr, true) == PScale(PSum([k \in 1..Len(rs) |-> PScale(Track(t, d, rs[k], q, tr), true[rs[k]])]), FDiv(1, FSum([k \in 1..Len(rs) |-> t.len[rs[k]]])))
SideSum(t, d, c, a, w) == IF a = 1 THEN PScale(PAdd(t.sf[d][c][East], t.sf[d][c][West], FInt(1)), w[1])
                          ELSE PScale(PAdd(t.sf[d][c][North], t.sf[d][c][South], FInt(1)), w[2])
(* x * y = z for a pair y and a pair z                                       *)
Product(x, y, z, more) == FLe(FAbs(FSub(FMul(x, V(y)), V(z))),
   FAdd(FMul(FRat(21, 20), FAdd(FMul(FAbs(x), D(y)), D(z))), FMul(more, FMax(FAbs(V(z)), FLit("1e-3")))))
-----------------------------------------------------------------------------
(* leakage of a plane group: currents through its bottom and top, relaxed    *)
Leak(old, relax, jb, jt, h) == [c \in 1..Len(old) |-> FAdd(FMul(old[c], FSub(1, relax)), FMul(relax, FDiv(FSub(jb[c], jt[c]), h)))]
-----------------------------------------------------------------------------
(* files: each names planes lo..hi and holds one plane, or one for each.     *)
(* Result: <<>> if refused, else for every plane <<file, plane of it>> or 0s  *)
Read(np, files) ==
   LET Ok(f) == 0 <= f.lo /\ f.lo <= f.hi /\ f.hi < np /\ (f.n = 1 \/ f.n = f.hi - f.lo + 1)
       Holds(k, p) == files[k].lo <= p /\ p <= files[k].hi
       Of(p) == SelectSeq([k \in 1..Len(files) |-> k], LAMBDA k : Holds(k, p))
   IN IF \E k \in 1..Len(files) : ~Ok(files[k]) THEN <<>>
      ELSE IF \E p \in 0..(np-1) : Len(Of(p)) > 1 THEN <<>>
      ELSE [p \in 1..np |-> IF Of(p-1) = <<>> THEN <<0, 0>>
                            ELSE LET k == Of(p-1)[1] IN <<k, IF files[k].n = 1 THEN 0 ELSE p - 1 - files[k].lo>>]
=============================================================================
