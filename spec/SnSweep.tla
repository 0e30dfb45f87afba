------------------------------ MODULE SnSweep -------------------------------
(* One group of discrete ordinates on a box mesh.                            *)
(*  m      nx, ny, nz, dx, dy, dz and flat (1: two-dimensional)              *)
(*  angle  o = <<ox, oy, oz>> and weight w; nd angles per octant             *)
(*  in     incoming flux <<x faces, y faces, z faces>>; x face of row iy in  *)
(*         plane iz at ny*iz+iy, y face at nx*iz+ix, z face at nx*iy+ix      *)
(* A cell has a mean flux and one flux per axis leaving it.  The scheme      *)
(* closes each axis by  leaving = A * mean + B * entering + C  and the mean  *)
(* follows from balance.                                                     *)
EXTENDS Boundary, Source
One == FInt(1)
Half == FRat(1, 2)
Diamond(g) == <<FDiv(1, g), FInt(-1), FInt(0)>>
Rho(t, tr) == LET tau == FDiv(tr, t) IN FSub(FDiv(1, tau), FDiv(1, FSub(FExp(tau), 1)))
Axial(ax, t, tr, q) ==
   CASE ax = "dd" \/ ax = "dd_ff" -> Diamond(Half)
     [] ax = "sc" -> LET p == Rho(t, tr) IN <<FDiv(1, FSub(1, p)), FNeg(FDiv(p, FSub(1, p))), FInt(0)>>
     [] ax = "fw" -> <<FInt(1), FInt(0), FInt(0)>>
     [] ax = "pmb" -> LET d == FAdd(FMul(2, t), tr) IN <<FDiv(FMul(2, t), d), FInt(0), FDiv(q, d)>>
Mean(t, f, c, q, tr) ==
   FDiv(FAdd(q, FSum([n \in 1..Len(t) |-> FMul(t[n], FSub(FMul(FSub(1, c[n][2]), f[n]), c[n][3]))])),
        FAdd(tr, FSum([n \in 1..Len(t) |-> FMul(t[n], c[n][1])])))
Leave(psi, f, c) == [n \in 1..Len(f) |-> FAdd(FAdd(FMul(c[n][1], psi), FMul(c[n][2], f[n])), c[n][3])]
(* g: the two radial closure factors of the cell for the direction           *)
CellSolve(ax, t, f, q, tr, g) ==
   LET c == IF Len(t) = 2 THEN <<Diamond(g[1]), Diamond(g[2])>>
            ELSE <<Diamond(g[1]), Diamond(g[2]), Axial(ax, t[3], tr, q)>>
       p == Mean(t, f, c, q, tr)
       l == Leave(p, f, c)
   IN IF ax = "dd_ff" /\ Len(t) = 3 /\ FLt(l[3], 0)
      THEN LET z == <<c[1], c[2], <<FInt(0), FInt(0), FInt(0)>>>>
               pz == Mean(t, f, z, q, tr) IN [psi |-> pz, out |-> Leave(pz, f, z)]
      ELSE [psi |-> p, out |-> l]
(* what any solution of a cell satisfies                                     *)
Residual(t, f, s, q, tr) == FSub(FAdd(FSum([n \in 1..Len(t) |-> FMul(t[n], FSub(s.out[n], f[n]))]), FMul(tr, s.psi)), q)
-----------------------------------------------------------------------------
Way(n, s) == [k \in 1..n |-> IF s = 1 THEN k - 1 ELSE n - k]
Order(m, s) == LET X == Way(m.nx, s[1])  Y == Way(m.ny, s[2])  Z == Way(m.nz, s[3]) IN
   [k \in 1..(m.nx*m.ny*m.nz) |-> << X[((k-1) % m.nx) + 1], Y[(((k-1) \div m.nx) % m.ny) + 1], Z[((k-1) \div (m.nx*m.ny)) + 1] >>]
Cell(m, p) == (p[3]*m.ny + p[2])*m.nx + p[1] + 1
FaceX(m, p) == m.ny*p[3] + p[2] + 1
FaceY(m, p) == m.nx*p[3] + p[1] + 1
FaceZ(m, p) == m.nx*p[2] + p[1] + 1
(* G(cell index) gives the radial factors.  Result: faces f, mean psi[i] and *)
(* leaving fluxes out[i] of every cell.                                      *)
AngleSweep(m, ax, a, s, q, tr, in, G(_)) ==
   LET o == [n \in 1..3 |-> FAbs(a.o[n])]
       Do(st, p) ==
         LET i == Cell(m, p)  jx == FaceX(m, p)  jy == FaceY(m, p)  jz == FaceZ(m, p)
             t == IF m.flat = 1 THEN <<FDiv(o[1], m.dx[p[1]+1]), FDiv(o[2], m.dy[p[2]+1])>>
                  ELSE <<FDiv(o[1], m.dx[p[1]+1]), FDiv(o[2], m.dy[p[2]+1]), FDiv(o[3], m.dz[p[3]+1])>>
             f == IF m.flat = 1 THEN <<st.x[jx], st.y[jy]>> ELSE <<st.x[jx], st.y[jy], st.z[jz]>>
             c == CellSolve(ax, t, f, q[i], tr[i], G(i))
         IN [x |-> [st.x EXCEPT ![jx] = c.out[1]], y |-> [st.y EXCEPT ![jy] = c.out[2]],
             z |-> IF m.flat = 1 THEN st.z ELSE [st.z EXCEPT ![jz] = c.out[3]],
             psi |-> [st.psi EXCEPT ![i] = c.psi], out |-> [st.out EXCEPT ![i] = c.out]]
       N == m.nx*m.ny*m.nz
       fin == FoldLeft(Do, [x |-> in[1], y |-> in[2], z |-> in[3], psi |-> [i \in 1..N |-> FInt(0)], out |-> [i \in 1..N |-> <<>>]],
                       Order(m, s))
   IN [f |-> <<fin.x, fin.y, fin.z>>, psi |-> fin.psi, out |-> fin.out]
Angles(m, nd) == IF m.flat = 1 THEN 4*nd ELSE 8*nd
Wt(m, a) == FMul(a.w, FMul(IF m.flat = 1 THEN One ELSE Half, Pi))
(* currents: cur[i][side] through the six sides of cell i, per area, counted *)
(* along the axis; sides as in Boundary (east 0 ...)                         *)
OutSide(s, n) == EntrySide([k \in 1..3 |-> -s[k]], n)
InFace(m, in, p, n) == CASE n = 1 -> in[1][FaceX(m, p)] [] n = 2 -> in[2][FaceY(m, p)] [] n = 3 -> in[3][FaceZ(m, p)]
Edge(m, p, n, s) == p[n] = (IF s[n] = 1 THEN 0 ELSE <<m.nx, m.ny, m.nz>>[n] - 1)
(* flux through side b of cell p for one angle                               *)
SideFlux(m, s, r, in, p, b) ==
   LET n == CASE b \in {0, 2} -> 1 [] b \in {1, 3} -> 2 [] OTHER -> 3
       Up == [p EXCEPT ![n] = @ - s[n]]
   IN IF OutSide(s, n) = b THEN r.out[Cell(m, p)][n]
      ELSE IF Edge(m, p, n, s) THEN InFace(m, in, p, n)
      ELSE r.out[Cell(m, Up)][n]
AxisOf(b) == CASE b \in {0, 2} -> 1 [] b \in {1, 3} -> 2 [] OTHER -> 3
(* One inner iteration.  st: flux (one group), inc (faces of all angles).    *)
(* GG(a, i) radial factors.  want: also collect currents.                    *)
Inner(m, ax, quad, nd, bc, gs, q, tr, inc, GG(_, _), want) ==
   LET N == m.nx*m.ny*m.nz
       Sides == IF m.flat = 1 THEN 4 ELSE 6
       P == [i \in 1..N |-> <<(i-1) % m.nx, ((i-1) \div m.nx) % m.ny, (i-1) \div (m.nx*m.ny)>>]
       Do(st, a) ==
         LET an == quad[a+1]  s == Sign(Oct(a, nd))  in == st.inc[a+1]
             Gi(i) == GG(a, i)
             r == AngleSweep(m, ax, an, s, q, tr, in, Gi)
             w == Wt(m, an)
             out == [b \in DOMAIN inc |-> IF b = a + 1 THEN r.f ELSE st.out[b]]
         IN [flux |-> [i \in 1..N |-> FAdd(st.flux[i], FMul(w, r.psi[i]))],
             inc |-> IF gs THEN UpdateAngle(bc, nd, a, st.inc, out) ELSE st.inc,
             out |-> out,
             cur |-> IF ~want THEN st.cur ELSE
                     [i \in 1..N |-> [b \in 1..Sides |->
                        FAdd(st.cur[i][b], FMul(FMul(w, an.o[AxisOf(b-1)]), SideFlux(m, s, r, in, P[i], b-1)))]]]
       z0 == [flux |-> Empty(N), inc |-> inc, out |-> inc, cur |-> [i \in 1..N |-> [b \in 1..Sides |-> FInt(0)]]]
       e == FoldLeft(Do, z0, [k \in 1..Angles(m, nd) |-> k - 1])
   IN IF gs THEN e ELSE [e EXCEPT !.inc = UpdateAll(bc, nd, inc, e.out)]
Inners(m, ax, quad, nd, bc, gs, x, s, g, phi, inc, GG(_, _), n, want) ==
   LET tr == [i \in 1..Len(x) |-> x[i].tr[g]]
       Do(st, k) ==
         LET q == Emission(x, st.phi, s, g, <<>>)
             e == Inner(m, ax, quad, nd, bc, gs, q, tr, st.inc, GG, want /\ k = n)
         IN [phi |-> [i \in 1..Len(x) |-> [st.phi[i] EXCEPT ![g] = e.flux[i]]], inc |-> e.inc, cur |-> e.cur, q |-> q]
   IN FoldLeft(Do, [phi |-> phi, inc |-> inc, cur |-> <<>>, q |-> <<>>], [k \in 1..n |-> k])
Clean(phi, g) == [i \in 1..Len(phi) |-> [phi[i] EXCEPT ![g] = IF FLt(@, 0) THEN FInt(0) ELSE @]]
=============================================================================
