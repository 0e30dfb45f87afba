------------------------------- MODULE Accel --------------------------------
(* Power iteration with and without the coarse-mesh acceleration, on a slab   *)
(* of two cells seen by two directions (the smallest transport problem with   *)
(* currents that diffusion does not give).  s describes the slab: tr, sc, nf, *)
(* h per cell and left/right condition.                                       *)
EXTENDS Cmfd
Mu == FDiv(1, FSqrt(3))
Ctr(q, t, h, in) == FDiv(FAdd(FMul(q, h), FMul(FMul(2, Mu), in)), FAdd(FMul(t, h), FMul(2, Mu)))
Leave(c, in) == FSub(FMul(2, c), in)
(* one sweep: fluxes and face currents for a given flux and k                 *)
Swept(s, phi, k) ==
   LET q(i) == FDiv(FAdd(FMul(s.sc[i], phi[i]), FDiv(FMul(s.nf[i], phi[i]), k)), 2)
       b2 == Ctr(q(2), s.tr[2], s.h[2], FInt(0))      \* from the right
       m  == Leave(b2, FInt(0))
       b1 == Ctr(q(1), s.tr[1], s.h[1], m)
       l  == Leave(b1, m)
       in == IF s.left = "reflect" THEN l ELSE FInt(0)
       a1 == Ctr(q(1), s.tr[1], s.h[1], in)
       n  == Leave(a1, in)
       a2 == Ctr(q(2), s.tr[2], s.h[2], n)
       o  == Leave(a2, n)
   IN [phi |-> <<FAdd(a1, b1), FAdd(a2, b2)>>, j |-> <<FMul(Mu, FSub(in, l)), FMul(Mu, FSub(n, m)), FMul(Mu, o)>>]
Made(s, phi) == FAdd(FMul(FMul(s.h[1], s.nf[1]), phi[1]), FMul(FMul(s.h[2], s.nf[2]), phi[2]))
Plain(s, st) == LET w == Swept(s, st.phi, st.k)
                IN [phi |-> w.phi, k |-> FMul(st.k, FDiv(Made(s, w.phi), Made(s, st.phi))), j |-> w.j]
(* the coarse problem of a state, solved by power iteration with exact        *)
(* solutions of the two equations                                             *)
Grid2(s) == [nx |-> 2, ny |-> 1, dx |-> s.h, dy |-> <<FInt(1)>>, hz |-> <<FInt(1)>>, grp |-> <<1>>,
             bc |-> <<"vacuum", "reflect", s.left, "reflect", "reflect", "reflect">>]
CurTable(j) == LET z == FInt(0) IN << <<j[2], z, j[1], z, z, z>>, <<j[3], z, j[2], z, z, z>> >>
On6 == <<1, 1, 1, 1, 1, 1>>
System(s, st) ==
   LET p == Grid2(s)
       d == <<FDiv(1, FMul(3, s.tr[1])), FDiv(1, FMul(3, s.tr[2]))>>
       rm == <<FSub(s.tr[1], s.sc[1]), FSub(s.tr[2], s.sc[2])>>
       h == Hats(p, d, ToCoarse(p, CurTable(st.j)), st.phi, On6)
   IN <<Diag(p, d, rm, h, 1), Off(p, d, h, 1, 1), Off(p, d, h, 2, 3), Diag(p, d, rm, h, 2)>>
Solve2(a, r) == LET det == FSub(FMul(a[1], a[4]), FMul(a[2], a[3])) IN
   <<FDiv(FSub(FMul(r[1], a[4]), FMul(a[2], r[2])), det), FDiv(FSub(FMul(a[1], r[2]), FMul(a[3], r[1])), det)>>
RECURSIVE Coarse(_, _, _, _, _)
Coarse(s, a, phi, k, n) ==
   IF n = 0 THEN [phi |-> phi, k |-> k]
   ELSE LET r == <<FDiv(FMul(FMul(s.h[1], s.nf[1]), phi[1]), k), FDiv(FMul(FMul(s.h[2], s.nf[2]), phi[2]), k)>>
            f == Solve2(a, r)
        IN Coarse(s, a, f, FMul(k, FDiv(Made(s, f), Made(s, phi))), n-1)
(* one accelerated iteration: coarse solve, project, sweep                    *)
Quick(s, st, inner) == LET c == Coarse(s, System(s, st), st.phi, st.k, inner) IN Plain(s, [phi |-> c.phi, k |-> c.k, j |-> st.j])
(* ---- agreement of two runs                                                 *)
SameK(a, b, tol) == FNear(a, b, 0, tol)
SameShape(a, b, tol) == Len(a) = Len(b) /\ LET sa == FSum(a)  sb == FSum(b)  big == FBig(a) IN
   \A i \in 1..Len(a) : FNear(FMul(a[i], sb), FMul(b[i], sa), FMul(big, FAbs(sb)), tol)
=============================================================================
