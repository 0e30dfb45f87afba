---------------------------- MODULE SnSweepTrace ----------------------------
(* Sweeps of a real sweeper from an arbitrary starting state; after each the *)
(* flux and the incoming boundary fluxes of all groups are compared with the *)
(* specified sweep.                                                          *)
EXTENDS TraceCases, SnSweep
Big(a) == FoldLeft(LAMBDA m, v : FMax(m, FAbs(v)), FLit("1e-3"), a)
NearSeq(a, b, tol) == Len(a) = Len(b) /\ LET s == Big(b) IN \A i \in 1..Len(a) : FNear(a[i], b[i], s, tol)
Swept(r) == Angles(r.out.m, r.in.nd)
Axes(r) == IF r.out.m.flat = 1 THEN 1..2 ELSE 1..3
NearInc(r, a, b, tol) == \A k \in 1..Swept(r) : \A n \in Axes(r) : NearSeq(a[k][n], b[k][n], tol)
Radial(r, g) == [a \in 0..(8*r.in.nd - 1) |-> [i \in 1..(r.out.m.nx*r.out.m.ny*r.out.m.nz) |->
    IF r.in.eq # "cdd" \/ (r.in.ax = "pmb" /\ r.out.m.flat = 0) THEN <<Half, Half>>
    ELSE LET ps == r.out.m.nx*r.out.m.ny IN
         r.out.corr[g][(a % (4*r.in.nd)) + 1][r.in.mp[((i-1) \div ps) + 1]*ps + ((i-1) % ps) + 1]]]
Step(r, x, phi, inc, op, s, want) ==
   LET g == op.g + 1
       R == Radial(r, g)
       GG(a, i) == R[a][i]
   IN Inners(r.out.m, r.in.ax, r.out.quad, r.in.nd, r.in.bc, r.in.gs = 1, x, s, g, phi, inc[g], GG, r.in.inners, want)
Tol == FLit("1e-9")
RECURSIVE Walk(_, _, _, _, _)
Walk(r, x, phi, inc, k) ==
   IF k > Len(r.in.ops) THEN ""
   ELSE LET op == r.in.ops[k]  o == r.out.ops[k]  g == op.g + 1
            e == Step(r, x, phi, inc, op, o.s, FALSE)
            p == Clean(e.phi, g)
            Col(f, h) == [i \in 1..Len(f) |-> f[i][h]]
        IN IF ~NearSeq(Col(o.phi, g), Col(p, g), Tol) THEN "scalar flux of the swept group"
           ELSE IF \E i \in 1..Len(p) : FLt(o.phi[i][g], 0) THEN "negative scalar flux"
           ELSE IF ~NearInc(r, o.inc[g], e.inc, Tol) THEN "incoming boundary flux after the sweep"
           ELSE IF \E h \in 1..r.in.ng : h # g /\ (Col(o.phi, h) # Col(phi, h) \/ o.inc[h] # inc[h]) THEN "another group was changed"
           ELSE Walk(r, x, o.phi, o.inc, k+1)
SnVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE Walk(r, XsOf(r.out, Len(r.out.phi0), r.in.ng), r.out.phi0, r.out.inc0, 1)
=============================================================================
