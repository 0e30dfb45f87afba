---------------------------- MODULE MocSweepTrace ---------------------------
(* Sweeps of a real MoC sweeper from an arbitrary state.                     *)
EXTENDS TraceCases, MocSweep
Setup(r) == [rays |-> r.out.rays, quad |-> r.out.quad, nd |-> r.in.nd, space |-> r.out.space, h |-> r.in.h, bc |-> r.in.bc,
             gs |-> r.in.gs = 1, first |-> r.out.first, vol |-> r.out.vol]
Faces(f) == [p \in 1..Len(f) |-> [a \in 1..Len(f[p]) |-> [n \in 1..3 |-> [i \in 1..Len(f[p][a][n]) |-> Exact(f[p][a][n][i])]]]]
Tiny == FLit("1e-10")
Big(a) == FoldLeft(LAMBDA m, v : FMax(m, FAbs(V(v))), FLit("1e-3"), a)
Within(x, y, s) == FLe(FAbs(FSub(x, V(y))), FAdd(FMul(D(y), FRat(21, 20)), FMul(Tiny, s)))
WithinSeq(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Within(a[i], b[i], s)
Col(f, h) == [i \in 1..Len(f) |-> f[i][h]]
Step(r, s, x, phi, inc, k, Tally(_, _, _, _, _), tal) ==
   LET op == r.in.ops[k]  o == r.out.ops[k]  g == op.g + 1
       split == IF r.in.split = 1 THEN LeakSplit(o.s, o.tl, phi, g) ELSE <<>>
       src == IF r.in.split = 1 THEN LeakSource(o.s, o.tl) ELSE Plus(o.s, o.tl)
   IN InnersMoc(s, x, src, g, [i \in 1..Len(phi) |-> Exact(phi[i][g])], split, Faces(inc[g]), r.in.inners, Tally, tal)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(r, s, x, phi, inc, k) ==
   IF k > Len(r.in.ops) THEN ""
   ELSE LET op == r.in.ops[k]  o == r.out.ops[k]  g == op.g + 1
            e == Step(r, s, x, phi, inc, k, NoTally, s.h)
            sc == Big(e.phi)
        IN IF ~WithinSeq(Col(o.phi, g), e.phi, sc) THEN "scalar flux of the swept group"
           ELSE IF \E p \in 1..Len(inc[g]) : \E a \in 1..(4*r.in.nd) : \E n \in 1..2 : ~WithinSeq(o.inc[g][p][a][n], e.inc[p][a][n], sc)
                THEN "incoming boundary flux after the sweep"
           ELSE IF \E h \in 1..r.in.ng : h # g /\ (Col(o.phi, h) # Col(phi, h) \/ o.inc[h] # inc[h]) THEN "another group was changed"
           ELSE Walk(r, s, x, o.phi, o.inc, k+1)
(* uniform medium, closed on the sides: flat flux of source over removal     *)
Ihm(r, x) == LET f == r.out.ops[Len(r.out.ops)].phi
                 want == FDiv(r.in.q, FSub(x[1].tr[1], x[1].sc[1][1]))
             IN \A i \in 1..Len(f) : FNear(f[i][1], want, FInt(0), FLit("1e-6"))
MocVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET x == XsOf(r.out, Len(r.out.phi0), r.in.ng) IN
        IF r.in.kind = "ihm" THEN (IF Ihm(r, x) THEN "" ELSE "flux of an infinite medium is not flat or not source over removal")
        ELSE Walk(r, Setup(r), x, r.out.phi0, r.out.inc0, 1)
=============================================================================
