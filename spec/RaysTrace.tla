------------------------------ MODULE RaysTrace -----------------------------
(* Rays laid over a real core, without and with volume correction.           *)
(* out.nx, ny, space: per angle; out.plain, out.rays [plane][angle][ray]     *)
(* with b (slots), l (lengths), i (regions); out.rep[plane]: a plane that    *)
(* has this geometry; out.areas[plane]: region areas                         *)
EXTENDS TraceCases, Rays
Tol == FLit("1e-9")
Near(x, y) == FNear(x, y, FLit("1e-3"), Tol)
Box(r, xs, ys, a) == [hx |-> xs[Len(xs)], hy |-> ys[Len(ys)], nx |-> r.out.nx[a], ny |-> r.out.ny[a]]
Oct(r, a) == IF a <= r.out.nd THEN 1 ELSE 2
Base(r, a) == ((a-1) % r.out.nd) + 1
Angles(r) == 1..(2*r.out.nd)
Chain(ray) == [k \in 1..Len(ray.l) |-> [len |-> ray.l[k], reg |-> ray.i[k], alt |-> {ray.i[k]}]]
(* ------------------------------------------------- layout of the rays ---- *)
Counts(r, xs, ys, a) ==
   /\ r.out.nx[a] > 0 /\ r.out.ny[a] > 0
   /\ r.out.nx[a] = r.out.nx[Base(r, a)] /\ r.out.ny[a] = r.out.ny[Base(r, a)]
   /\ r.in.pinmod = 1 => r.out.nx[a] % (Len(xs)-1) = 0 /\ r.out.ny[a] % (Len(ys)-1) = 0
SpaceOk(r, xs, ys, a) == /\ Near(r.out.space[a], Spacing(Box(r, xs, ys, a)))
                         /\ FLe(r.out.space[a], FMul(r.in.space, FAdd(1, FLit("1e-6"))))
(* the direction is that of the rays in all octants; the elevation is kept    *)
DirOk(r, xs, ys, a) == LET q == r.out.quad[a].o  o0 == r.out.quad0[a].o  d == Dir(Box(r, xs, ys, a), Oct(r, a))
                           s == FSqrt(FSub(1, FMul(q[3], q[3]))) IN
   /\ Near(q[1], FMul(s, d[1])) /\ Near(q[2], FMul(s, d[2])) /\ Near(q[3], o0[3])
(* rational modularisation: the slope relative to the diagonal of the module  *)
(* (or its inverse, if steep) is approximated to 0.002                        *)
CloseOk(r, b, a) == LET t(o) == FMul(FDiv(FAbs(o[2]), FAbs(o[1])), IF r.in.pinmod = 1 THEN 1 ELSE FDiv(b.hx, b.hy))
                        u(o) == IF FLt(t(r.out.quad0[a].o), 1) THEN t(o) ELSE FDiv(1, t(o))
                    IN r.in.rational = 1 => FLe(FAbs(FSub(u(r.out.quad[a].o), u(r.out.quad0[a].o))), FMul(r.in.close, FAdd(1, FLit("1e-3"))))
(* ------------------------------------------------------ volume correction -- *)
AreaSeen(rays, nreg) ==       \* per region: summed lengths over the rays of one angle
   FoldLeft(LAMBDA acc, q : FoldLeft(LAMBDA b, k : [b EXCEPT ![q.i[k]+1] = FAdd(@, q.l[k])], acc, [k \in 1..Len(q.l) |-> k]),
            [i \in 1..nreg |-> FInt(0)], rays)
(* lengths in one region are all scaled alike                                 *)
Scaled(r, pl, a, f) == \A k \in 1..Len(r.out.rays[pl][a]) : LET x == r.out.plain[pl][a][k]  y == r.out.rays[pl][a][k] IN
   \A s \in 1..Len(x.l) : FNear(y.l[s], FMul(f[x.i[s]+1], x.l[s]), FLit("1e-6"), Tol)
Corrected(r, pl, nreg) ==
   LET A == r.out.areas[pl]
       seen(a) == LET v == AreaSeen(r.out.plain[pl][a], nreg) IN [i \in 1..nreg |-> FMul(v[i], r.out.space[a])]
       w(a) == FMul(r.out.quad[a].w, Half)
       tot == FoldLeft(LAMBDA acc, a : LET s == seen(a) IN [i \in 1..nreg |-> FAdd(acc[i], FMul(s[i], w(a)))],
                       [i \in 1..nreg |-> FInt(0)], [a \in 1..(2*r.out.nd) |-> a])
       ratio(v) == [i \in 1..nreg |-> IF FLt(0, v[i]) THEN FDiv(A[i], v[i]) ELSE FInt(1)]
   IN CASE r.in.corr = "none" -> \A a \in Angles(r) : Scaled(r, pl, a, [i \in 1..nreg |-> FInt(1)])
        [] r.in.corr = "flat" -> \A a \in Angles(r) : Scaled(r, pl, a, ratio(seen(a)))
        [] OTHER -> LET f == ratio(tot) IN \A a \in Angles(r) : Scaled(r, pl, a, f)
(* ---------------------------------------------------------- one plane ----- *)
PlaneOk(r, pl) ==
   LET d == r.in.d  iz == r.out.rep[pl]
       xs == XLines(d)  ys == YLines(d)
       order == PlaneOrder(d)
       n2 == Len(order)
       pinat == [p \in (0..(NX(d)-1)) \X (0..(NY(d)-1)) |-> MeshOf(d, PinAt(d, p[1], p[2], iz))]
       offs == FoldLeft(LAMBDA a, k : Append(a, a[Len(a)] + NReg(pinat[order[k]])), <<0>>, [k \in 1..n2 |-> k])
       first == [p \in DOMAIN pinat |-> offs[CHOOSE k \in 1..n2 : order[k] = p]]
       MeshAt(x, y) == pinat[<<x, y>>]
       FirstAt(x, y) == first[<<x, y>>]
       ray(a, k) == r.out.plain[pl][a][k]
       want(a, k) == LET b == Box(r, xs, ys, a)  o == Oct(r, a)  s == ray(a, k).b[1] IN
                     Trace2(Start(b, o, s), Dir(b, o), Chord(b, o, s).len, xs, ys, MeshAt, FirstAt)
       all == FlatSeq([a \in 1..(2*r.out.nd) |-> [k \in 1..Len(r.out.plain[pl][a]) |-> <<a, k>>]])
       nreg == offs[n2+1]
   IN First(<< <<"number of rays", \A a \in Angles(r) : /\ Len(r.out.plain[pl][a]) = r.out.nx[a] + r.out.ny[a]
                                                         /\ Len(r.out.rays[pl][a]) = r.out.nx[a] + r.out.ny[a]>>,
              <<"rays start at the wrong slots", \A a \in Angles(r) :
                   {r.out.plain[pl][a][k].b[1] : k \in 1..Len(r.out.plain[pl][a])} = Slots(Box(r, xs, ys, a))>>,
              <<"length of a ray", \A j \in 1..Len(all) : LET a == all[j][1]  q == ray(a, all[j][2])  IN
                   Near(FSum(q.l), Chord(Box(r, xs, ys, a), Oct(r, a), q.b[1]).len)>>,
              <<"segments of a ray", \A j \in 1..Len(all) : LET a == all[j][1]  k == all[j][2]  w == want(a, k)  g == Chain(ray(a, k)) IN
                   SameChain(w, g, FLit("1e-5")) \/ SameChain(w, g, FLit("2e-6"))>>,
              <<"areas of the regions", Len(r.out.areas[pl]) = nreg>>,
              <<"corrected rays cross other regions", \A j \in 1..Len(all) : LET a == all[j][1]  k == all[j][2] IN
                   r.out.rays[pl][a][k].i = ray(a, k).i /\ r.out.rays[pl][a][k].b = ray(a, k).b>>,
              <<"volume correction", Corrected(r, pl, nreg)>> >>)
RaysVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET xs == XLines(r.in.d)  ys == YLines(r.in.d)
            v == First(<< <<"number of rays per side", \A a \in Angles(r) : Counts(r, xs, ys, a)>>,
                          <<"spacing", \A a \in Angles(r) : SpaceOk(r, xs, ys, a)>>,
                          <<"direction of the rays", \A a \in Angles(r) : DirOk(r, xs, ys, a)>>,
                          <<"direction far from the quadrature", \A a \in Angles(r) : CloseOk(r, Box(r, xs, ys, a), a)>> >>)
            RECURSIVE planes(_)
            planes(pl) == IF pl > Len(r.out.rep) THEN "" ELSE LET u == PlaneOk(r, pl) IN IF u # "" THEN u ELSE planes(pl+1)
        IN IF v # "" THEN v ELSE planes(1)
=============================================================================
