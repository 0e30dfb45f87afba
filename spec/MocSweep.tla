------------------------------ MODULE MocSweep ------------------------------
(* One group of characteristics.  Every number of the solution is a pair     *)
(* <<value, bound>>: the implementation may evaluate the exponential with an *)
(* absolute error of Eps and the bound says how far that can move the value. *)
(*  rays[p][a+1][k]  ray k of angle a in plane group p: l lengths, i regions *)
(*           (from 0 within the group), b the boundary slots of its ends     *)
(*  inc[p][a+1] = <<x faces, y faces, <<>> >>, slots numbered x then y       *)
EXTENDS Boundary, Source
Eps == FLit("1.3e-7")
V(x) == x[1]
D(x) == x[2]
Exact(x) == <<x, FInt(0)>>
(* attenuation of one segment: the flux lost, and the flux left              *)
Lost(p, q, e) == << FMul(FSub(V(p), V(q)), e),
                    FAdd(FMul(FAdd(D(p), D(q)), e), FMul(Eps, FAbs(FSub(V(p), V(q))))) >>
Left(p, q, e) == << FSub(V(p), FMul(FSub(V(p), V(q)), e)),
                    FAdd(FAdd(FMul(D(p), FSub(1, e)), FMul(D(q), e)), FMul(Eps, FAbs(FSub(V(p), V(q))))) >>
Att(tr, len, rs) == FSub(1, FExp(FNeg(FMul(FMul(tr, len), rs))))
PAdd(a, b, w) == <<FAdd(V(a), FMul(w, V(b))), FAdd(D(a), FMul(w, D(b)))>>
(* follow the segments ks of ray r with entering flux p; acc[i] collects the *)
(* weighted losses, keep the flux after each segment                         *)
Follow(r, ks, p0, q, tr, first, rs, w, acc0) ==
   FoldLeft(LAMBDA st, k :
       LET i == r.i[k] + 1 + first  e == Att(tr[i], r.l[k], rs) IN
       [p |-> Left(st.p, q[i], e), acc |-> [st.acc EXCEPT ![i] = PAdd(@, Lost(st.p, q[i], e), w)], psi |-> Append(st.psi, Left(st.p, q[i], e))],
     [p |-> p0, acc |-> acc0, psi |-> <<p0>>], ks)
Up(n) == [k \in 1..n |-> k]
Down(n) == [k \in 1..n |-> n + 1 - k]
GetSlot(f, s) == IF s < Len(f[1]) THEN f[1][s+1] ELSE f[2][s - Len(f[1]) + 1]
PutSlot(f, s, x) == IF s < Len(f[1]) THEN [f EXCEPT ![1][s+1] = x] ELSE [f EXCEPT ![2][s - Len(f[1]) + 1] = x]
SinT(a) == FSqrt(FAdd(FMul(a.o[1], a.o[1]), FMul(a.o[2], a.o[2])))
(* one plane group; tally(st, a, ray, forward psi, backward psi) is folded in *)
PlaneSweep(rays, quad, nd, space, h, bc, gs, q, tr, first, inc, acc, Tally(_, _, _, _, _), tal) ==
   LET OneAngle(st, a) ==
         LET b == Reverse2(a, nd)
             sn == SinT(quad[a+1])  rs == FDiv(1, sn)
             w == FMul(FMul(FMul(quad[a+1].w, space[a+1]), FMul(h, sn)), Pi)
             OneRay(s, r) ==
               LET n == Len(r.l)
                   fw == Follow(r, Up(n), GetSlot(st.inc[a+1], r.b[1]), q, tr, first, rs, w, s.acc)
                   bw == Follow(r, Down(n), GetSlot(st.inc[b+1], r.b[2]), q, tr, first, rs, w, fw.acc)
               IN [acc |-> bw.acc, fo |-> PutSlot(s.fo, r.b[2], fw.p), bo |-> PutSlot(s.bo, r.b[1], bw.p),
                   tal |-> Tally(s.tal, a, r, fw.psi, bw.psi)]
             e == FoldLeft(OneRay, [acc |-> st.acc, fo |-> st.out[a+1], bo |-> st.out[b+1], tal |-> st.tal], rays[a+1])
             out == [st.out EXCEPT ![a+1] = e.fo, ![b+1] = e.bo]
         IN [acc |-> e.acc, out |-> out, tal |-> e.tal,
             inc |-> IF gs THEN UpdateAngle(bc, nd, b, UpdateAngle(bc, nd, a, st.inc, out), out) ELSE st.inc]
       z == FoldLeft(OneAngle, [acc |-> acc, out |-> inc, inc |-> inc, tal |-> tal], [k \in 1..(2*nd) |-> k - 1])
   IN IF gs THEN z ELSE [z EXCEPT !.inc = UpdateAll(bc, nd, inc, z.out)]
(* the whole group: planes one after another.  first[p] is the number of     *)
(* regions below plane group p.                                              *)
SweepGroup(s, Tally(_, _, _, _, _), tal0, q, tr, inc) ==
   LET n == Len(q)
       Do(st, p) ==
         LET e == PlaneSweep(s.rays[p], s.quad, s.nd, s.space, s.h[p], s.bc, s.gs, q, tr, s.first[p], inc[p], st.acc, Tally, tal0[p])
         IN [acc |-> e.acc, inc |-> Append(st.inc, e.inc), tal |-> Append(st.tal, e.tal)]
       z == FoldLeft(Do, [acc |-> [i \in 1..n |-> Exact(FInt(0))], inc |-> <<>>, tal |-> <<>>], [p \in 1..Len(s.h) |-> p])
   IN [phi |-> [i \in 1..n |-> LET d == FMul(tr[i], s.vol[i]) IN
                 << FAdd(FDiv(V(z.acc[i]), d), FMul(FourPi, V(q[i]))), FAdd(FDiv(D(z.acc[i]), d), FMul(FourPi, D(q[i]))) >>],
       inc |-> z.inc, tal |-> z.tal]
NoTally(t, a, r, f, b) == t
(* flat source of group g over the total                                     *)
Flat(x, src, g, phig, tr) == [i \in 1..Len(x) |->
   LET d == FMul(FourPi, tr[i]) IN
   << FDiv(FAdd(src[i], FMul(x[i].sc[g][g], V(phig[i]))), d), FDiv(FMul(FAbs(x[i].sc[g][g]), D(phig[i])), d) >>]
InnersMoc(s, x, src, g, phig, split, inc, n, Tally(_, _, _, _, _), tal0) ==
   LET tr == [i \in 1..Len(x) |-> IF split = <<>> THEN x[i].tr[g] ELSE FAdd(x[i].tr[g], split[i])]
       Do(st, k) == LET q == Flat(x, src, g, st.phi, tr)
                        e == SweepGroup(s, Tally, tal0, q, tr, st.inc)
                    IN [phi |-> e.phi, inc |-> e.inc, tal |-> e.tal, q |-> q]
   IN FoldLeft(Do, [phi |-> phig, inc |-> inc, tal |-> tal0, q |-> <<>>], [k \in 1..n |-> k])
=============================================================================
