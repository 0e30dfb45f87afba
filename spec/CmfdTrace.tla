----------------------------- MODULE CmfdTrace ------------------------------
(* Solves of the coarse system by the program.                                *)
EXTENDS TraceCases, Cmfd
Tol == FLit("1e-9")
Loose == FLit("1e-5")
(* bc and grouping come from the input, lengths from the mesh                 *)
P(r) == [nx |-> r.out.p.nx, ny |-> r.out.p.ny, dx |-> r.out.p.dx, dy |-> r.out.p.dy, hz |-> r.out.p.hz,
         grp |-> [i \in 1..Len(r.in.mp) |-> r.in.mp[i] + 1], bc |-> r.in.bc]
On(op) == <<op.radial, op.radial, op.radial, op.radial, op.axial, op.axial>>
Col(f, g) == [i \in 1..Len(f) |-> f[i][g]]
Flat2(f) == [k \in 1..(Len(f)*Len(f[1])) |-> f[((k-1) \div Len(f[1])) + 1][((k-1) % Len(f[1])) + 1]]
(* outward currents of the system set up from the state before the solve      *)
Now(p, x, o, on, g) ==
   LET d == [c \in 1..CoarseN(p) |-> FDiv(1, FMul(3, x[c].tr[g]))]
       h == Hats(p, d, ToCoarse(p, o.j0[g]), Col(o.phi0, g), on)
       f == Col(o.phi, g)
   IN [c \in 1..CoarseN(p) |-> [b \in Sides |-> Outward(p, d, h, f, c, b)]]
Rm(x, g) == [c \in 1..Len(x) |-> FSub(x[c].tr[g], x[c].sc[g][g])]
Gains(x, o, c, g) == FAdd(FDiv(FMul(x[c].ch[g], FDot(x[c].nf, o.phi[c])), o.k),
                          FSum([q \in 1..Len(o.phi[c]) |-> IF q = g THEN FInt(0) ELSE FMul(x[c].sc[g][q], o.phi[c][q])]))
Terms(p, x, o, c, g) == FAdd(FMul(Vol(p, c), FMul(x[c].tr[g], o.phi[c][g])),
                             FSum([b \in Sides |-> FMul(Area(p, c, b), o.phi[c][g])]))
BigPhi(o) == FBig(Flat2(o.phi))
SamePhi(o) == \A i \in 1..Len(o.phi) : \A g \in 1..Len(o.phi[i]) : FNear(o.phi[i][g], o.phi0[i][g], FMul(FLit("1e-6"), BigPhi(o)), FLit("1e-4"))
One(r, p, x, k) ==
   LET op == r.in.ops[k]  o == r.out.ops[k]  G == 1..r.in.ng  C == 1..CoarseN(p)
       out == [g \in G |-> Now(p, x, o, On(op), g)]
       st == [g \in G |-> ToCoarse(p, o.j[g])]
       big == FAdd(BigPhi(o), FBig([i \in 1..(CoarseN(p)*6*r.in.ng) |-> out[((i-1) % r.in.ng) + 1][(((i-1) \div r.in.ng) % CoarseN(p)) + 1][((i-1) \div (r.in.ng*CoarseN(p))) + 1]]))
       tame == r.in.tame = 1
       grouped == NM(p) # NZ(p)
   IN First(<<
      <<"flux or k is not a number", FFinite(o.k) /\ \A c \in C : \A g \in G : FFinite(o.phi[c][g])>>,
      <<"flux or k is not positive", tame => FLt(0, o.k) /\ \A c \in C : \A g \in G : FLe(0, o.phi[c][g])>>,
      <<"stored current is not that of the coupled system",
          \A g \in G : \A c \in C : \A b \in Sides : FNear(st[g][c][b], FMul(Sgn(b), out[g][c][b]), big, Tol)>>,
      <<"current inside a group of planes",
          \A g \in G : \A f \in 1..FineN(p) : LET z == Zof(p, f) + 1 IN
             (z < NZ(p) /\ p.grp[z] = p.grp[z+1]) => FEq(o.j[g][f][5], 0)>>,
      <<"planes of a group have different side currents",
          \A g \in G : \A f \in 1..FineN(p) : LET z == Zof(p, f) + 1 IN
             (z < NZ(p) /\ p.grp[z] = p.grp[z+1]) => \A b \in 1..4 : FEq(o.j[g][f][b], o.j[g][f + p.nx*p.ny][b])>>,
      <<"a cell does not balance", tame => \A g \in G : \A c \in C :
          FNear(Losses(p, Rm(x, g), out[g], Col(o.phi, g), c), FMul(Vol(p, c), Gains(x, o, c, g)), FAdd(Terms(p, x, o, c, g), FMul(FLit("1e-6"), FMul(Vol(p, c), BigPhi(o)))), Loose)>>,
      <<"a converged state was changed", (tame /\ op.fixed = 1) => SamePhi(o) /\ FNear(o.k, o.k0, 0, Loose)>>,
      <<"surface flux of an unchanged state", (tame /\ op.fixed = 1 /\ ~grouped) => \A g \in G : \A f \in 1..FineN(p) : \A b \in Sides :
           FEq(o.phi[f][g], 0) \/ FNear(o.s[g][f][b], o.s0[g][f][b], FAdd(FMul(10, o.phi[f][g]), FMul(FLit("1e-3"), BigPhi(o))), FLit("1e-3"))>>,
      <<"partial currents", ~grouped => \A g \in G : \A f \in 1..FineN(p) : \A b \in Sides :
           /\ FNear(FSub(o.pc[g][f][b][1], o.pc[g][f][b][2]), o.j[g][f][b], big, Tol)
           /\ FNear(FMul(2, FAdd(o.pc[g][f][b][1], o.pc[g][f][b][2])), o.s[g][f][b], FAdd(FAbs(o.s[g][f][b]), big), Tol)>> >>)
File(r, p) == LET o == r.out.ops[Len(r.out.ops)] IN
   \A g \in 1..r.in.ng : \A b \in Sides : LET v == r.out.file[g][b] IN
      Len(v) = FineN(p) /\ \A f \in 1..FineN(p) : FNear(v[f], o.j[g][f][b], 0, Tol)
CmfdVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET p == P(r)
            xf == XsOf(r.out, FineN(p), r.in.ng)
            x == [c \in 1..CoarseN(p) |-> xf[Down(p, c)]]
            bad == {k \in 1..Len(r.in.ops) : One(r, p, x, k) # ""}
        IN IF bad # {} THEN One(r, p, x, CHOOSE k \in bad : TRUE)
           ELSE IF r.in.dump = 1 /\ ~File(r, p) THEN "currents in the result file" ELSE ""
=============================================================================
