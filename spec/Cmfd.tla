-------------------------------- MODULE Cmfd --------------------------------
(* Coarse-mesh diffusion built from a transport state.  Fine cells have one   *)
(* axial plane, coarse cells one group of planes.  p gives nx, ny, dx, dy, hz *)
(* (fine heights), grp (coarse plane of each fine plane, from 1), bc (of the  *)
(* sides).  Sides are 1..6 = east north west south top bottom.  A current     *)
(* table j[f][b] is signed along the axis, out of the cell for sides 1, 2, 5. *)
EXTENDS Source
Sides == 1..6
Opp(b) == <<3, 4, 1, 2, 6, 5>>[b]
Sgn(b) == IF b \in {1, 2, 5} THEN 1 ELSE -1
NZ(p) == Len(p.hz)
NM(p) == p.grp[NZ(p)]
At(p, x, y, z) == (z*p.ny + y)*p.nx + x + 1
Xof(p, c) == (c-1) % p.nx
Yof(p, c) == ((c-1) \div p.nx) % p.ny
Zof(p, c) == (c-1) \div (p.nx*p.ny)
FineN(p) == p.nx*p.ny*NZ(p)
CoarseN(p) == p.nx*p.ny*NM(p)
PlanesOf(p, m) == {z \in 1..NZ(p) : p.grp[z] = m}
Lowest(S) == CHOOSE z \in S : \A w \in S : z <= w
Highest(S) == CHOOSE z \in S : \A w \in S : z >= w
Over(S, p) == [i \in 1..NZ(p) |-> IF i \in S THEN p.hz[i] ELSE FInt(0)]
Height(p, m) == FSum(Over(PlanesOf(p, m), p))
Thick(p, c, b) == CASE b \in {1, 3} -> p.dx[Xof(p, c) + 1] [] b \in {2, 4} -> p.dy[Yof(p, c) + 1] [] OTHER -> Height(p, Zof(p, c) + 1)
Vol(p, c) == FMul(FMul(Thick(p, c, 1), Thick(p, c, 2)), Thick(p, c, 5))
Area(p, c, b) == CASE b \in {1, 3} -> FMul(Thick(p, c, 2), Thick(p, c, 5)) [] b \in {2, 4} -> FMul(Thick(p, c, 1), Thick(p, c, 5))
                   [] OTHER -> FMul(Thick(p, c, 1), Thick(p, c, 2))
(* the neighbour across a side, 0 outside                                     *)
Nb(p, c, b) == LET x == Xof(p, c)  y == Yof(p, c)  z == Zof(p, c) IN
   CASE b = 1 -> IF x < p.nx - 1 THEN c + 1 ELSE 0
     [] b = 2 -> IF y < p.ny - 1 THEN c + p.nx ELSE 0
     [] b = 3 -> IF x > 0 THEN c - 1 ELSE 0
     [] b = 4 -> IF y > 0 THEN c - p.nx ELSE 0
     [] b = 5 -> IF z < NM(p) - 1 THEN c + p.nx*p.ny ELSE 0
     [] OTHER -> IF z > 0 THEN c - p.nx*p.ny ELSE 0
(* ---- from the fine to the coarse mesh and back                             *)
Down(p, c) == At(p, Xof(p, c), Yof(p, c), Lowest(PlanesOf(p, Zof(p, c) + 1)) - 1)
Up(p, c) == At(p, Xof(p, c), Yof(p, c), Highest(PlanesOf(p, Zof(p, c) + 1)) - 1)
ToCoarse(p, j) == [c \in 1..CoarseN(p) |-> [b \in Sides |->
   IF b = 5 THEN j[Up(p, c)][5] ELSE IF b = 6 THEN j[Down(p, c)][6]
   ELSE LET S == PlanesOf(p, Zof(p, c) + 1) IN
        FDiv(FSum([z \in 1..NZ(p) |-> IF z \in S THEN FMul(p.hz[z], j[At(p, Xof(p, c), Yof(p, c), z-1)][b]) ELSE FInt(0)]), Height(p, Zof(p, c) + 1))]]
(* ---- coupling.  d[c] is the diffusion coefficient, phi[c] the flux         *)
Side(p, d, c, b) == IF Nb(p, c, b) > 0 THEN LET n == Nb(p, c, b) IN FDiv(d[n], Thick(p, n, b))
                    ELSE IF p.bc[b] = "vacuum" THEN FRat(1, 4) ELSE FInt(0)
Tilde(p, d, c, b) == LET u == FDiv(d[c], Thick(p, c, b))  v == Side(p, d, c, b) IN FDiv(FMul(2, FMul(u, v)), FAdd(u, v))
Beyond(p, phi, c, b) == IF Nb(p, c, b) > 0 THEN phi[Nb(p, c, b)] ELSE FInt(0)
(* outward correction that makes the coupling give the known current          *)
(* (none where there is no flux at all)                                       *)
Hat(t, jout, here, there) == IF FEq(FAdd(here, there), 0) THEN FInt(0) ELSE FDiv(FSub(jout, FMul(t, FSub(here, there))), FAdd(here, there))
Hats(p, d, jc, phi, on) == [c \in 1..CoarseN(p) |-> [b \in Sides |->
   IF on[b] = 0 THEN FInt(0)
   ELSE Hat(Tilde(p, d, c, b), FMul(Sgn(b), jc[c][b]), phi[c], Beyond(p, phi, c, b))]]
(* outward current of the coupled system for a flux                           *)
Outward(p, d, h, phi, c, b) == FAdd(FMul(Tilde(p, d, c, b), FSub(phi[c], Beyond(p, phi, c, b))),
                                    FMul(h[c][b], FAdd(phi[c], Beyond(p, phi, c, b))))
(* ---- the assembled operator                                                *)
Diag(p, d, rm, h, c) == FAdd(FMul(Vol(p, c), rm[c]), FSum([b \in Sides |-> FMul(Area(p, c, b), FAdd(Tilde(p, d, c, b), h[c][b]))]))
Off(p, d, h, c, b) == FMul(Area(p, c, b), FSub(h[c][b], Tilde(p, d, c, b)))
Row(p, d, rm, h, phi, c) == FAdd(FMul(Diag(p, d, rm, h, c), phi[c]),
   FSum([b \in Sides |-> IF Nb(p, c, b) = 0 THEN FInt(0) ELSE FMul(Off(p, d, h, c, b), phi[Nb(p, c, b)])]))
(* losses of a cell with given outward currents                               *)
Losses(p, rm, out, phi, c) == FAdd(FMul(Vol(p, c), FMul(rm[c], phi[c])), FSum([b \in Sides |-> FMul(Area(p, c, b), out[c][b])]))
=============================================================================
