----------------------------- MODULE XsMeshTrace ----------------------------
EXTENDS TraceCases, XsMesh
Tol == FLit("1e-12")
Near(a, b) == FNear(a, b, FLit("1e-3"), Tol)
NearSeq(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Near(u[i], v[i])
Ng(r) == Len(r.in.mats[1].ab)
G(r) == 1..Ng(r)
ScOf(x, n) == [to \in 1..n |-> [from \in 1..n |-> x.sc[(to-1)*n + from]]]
(* data of an xs region equal those of the material                          *)
SameData(x, m, n) ==
   /\ NearSeq(x.tr, [g \in 1..n |-> MatTotal(m, g)]) /\ NearSeq(x.nf, m.nf) /\ NearSeq(x.f, m.f)
   /\ NearSeq(x.ch, [g \in 1..n |-> ChiNorm(m, g)])
   /\ \A t \in 1..n : NearSeq(ScOf(x, n)[t], m.sc[t])
(* owner[i]: the xs region that claims mesh region i-1, 0 if not exactly one *)
Claims(xs, n) == LET all == FlatSeq([k \in 1..Len(xs) |-> xs[k].reg])
                 IN Len(all) = n /\ {all[i] : i \in 1..Len(all)} = 0..(n-1)
Removal(x, n) == NearSeq(x.rm, [g \in 1..n |-> FSub(x.tr[g], x.sc[(g-1)*n + g])])
Rates(x, n) ==
   LET sc == ScOf(x, n) IN
   \A g \in 1..n : LET c == x.rcdf[g] IN
      /\ Len(c) = 3 /\ Near(FMul(c[1], x.tr[g]), Out(sc, g)) /\ Near(FMul(FSub(c[2], c[1]), x.tr[g]), x.f[g])
      /\ FEq(c[3], 1) /\ FLe(c[2], FAdd(1, Tol))
ChiCdf(x, n) == \A g \in 1..n : Near(x.ccdf[g], FSum(SubSeq(x.ch, 1, g)))
Level(r, xs, want, nexp) == LET n == Ng(r) IN First(<<
     <<"mesh regions are not each claimed exactly once", Claims(xs, Len(want))>>,
     <<"number of expanded regions", nexp = Len(want)>>,
     <<"data of a region are not those of its material",
         \A k \in 1..Len(xs) : /\ \A j \in 1..Len(xs[k].reg) : want[xs[k].reg[j]+1] = want[xs[k].reg[1]+1]
                               /\ Len(xs[k].reg) > 0
                               /\ SameData(xs[k], Mat(r.in.mats, want[xs[k].reg[1]+1]), n)>>,
     <<"removal is not total minus self-scattering", \A k \in 1..Len(xs) : Removal(xs[k], n)>>,
     <<"fissile exactly if nu-fission is positive", \A k \in 1..Len(xs) : xs[k].fis = IF \E g \in 1..n : FLt(0, xs[k].nf[g]) THEN 1 ELSE 0>>,
     <<"reaction probabilities", \A k \in 1..Len(xs) : Rates(xs[k], n)>>,
     <<"cumulative spectrum", \A k \in 1..Len(xs) : ChiCdf(xs[k], n)>>
   >>)
XsVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET d == r.in.d IN
   IF r.out.ng # Ng(r) THEN "number of groups"
   ELSE IF ~NearSeq(r.out.eub, r.in.bounds) THEN "group bounds"
   ELSE LET a == Level(r, r.out.true, TrueMats(d), r.out.truen) IN IF a # "" THEN "full mesh: " \o a
   ELSE LET b == Level(r, r.out.plane, GroupMats(d), r.out.planen) IN IF b # "" THEN "plane groups: " \o b ELSE ""

(* ------------------------------------------------------ homogenisation -- *)
(* where pin k of group g is: coarse cells of all planes of the group        *)
Cells(d, g, k) == LET p == PlaneOrder(d)[k] IN
   {(GFirst(d, g) + z) * NX(d)*NY(d) + p[2]*NX(d) + p[1] : z \in 0..(Groups(d)[g]-1)}
SameHom(x, h, n) == First(<<
   <<"total", NearSeq(x.tr, h.tr)>>, <<"nu-fission", NearSeq(x.nf, h.nf)>>, <<"fission", NearSeq(x.f, h.f)>>,
   <<"spectrum", NearSeq(x.ch, h.ch)>>, <<"scattering", \A t \in 1..n : NearSeq(ScOf(x, n)[t], h.sc[t])>>,
   <<"removal", Removal(x, n)>> >>)
(* first region number of pin k of group g in the plane-group mesh           *)
PinsOf(d, g) == [k \in 1..Len(PlaneOrder(d)) |-> PinAt(d, PlaneOrder(d)[k][1], PlaneOrder(d)[k][2], GFirst(d, g))]
HomOf(r, d, mats, p, off, flux) ==      \* flux: <<>> for volume weights
   LET m == MeshOf(d, p)
       ms == [i \in 1..NReg(m) |-> Mat(mats, PinMats(d, p)[i])]
       w == [i \in 1..NReg(m) |-> LET a == RegionArea(m, i-1) IN
               [g \in G(r) |-> IF flux = <<>> THEN a ELSE FMul(a, flux[off + i][g])]]
   IN HomPin(ms, w)
AllHom(r, d, mats, flux) ==
   LET step(acc, gk) == LET p == PinsOf(d, gk[1])[gk[2]] IN
            [off |-> acc.off + NReg(MeshOf(d, p)), hs |-> Append(acc.hs, HomOf(r, d, mats, p, acc.off, flux))]
       idx == FlatSeq([g \in 1..Len(Groups(d)) |-> [k \in 1..Len(PlaneOrder(d)) |-> <<g, k>>]])
   IN FoldLeft(step, [off |-> 0, hs |-> <<>>], idx).hs
Compare(xs, hs, n) == IF Len(xs) # Len(hs) THEN "number of pins"
   ELSE LET bad == {k \in 1..Len(xs) : SameHom(xs[k], hs[k], n) # ""} IN
        IF bad = {} THEN "" ELSE SameHom(xs[CHOOSE k \in bad : TRUE], hs[CHOOSE k \in bad : TRUE], n)
RegsOk(d, xs) == \A g \in 1..Len(Groups(d)) : \A k \in 1..Len(PlaneOrder(d)) :
    LET x == xs[(g-1)*Len(PlaneOrder(d)) + k] IN {x.reg[i] : i \in 1..Len(x.reg)} = Cells(d, g, k) /\ Len(x.reg) = Cardinality(Cells(d, g, k))
Pre(s, v) == IF v = "" THEN "" ELSE s \o v
Steps(r) == LET d == r.in.d  n == Ng(r) IN
   LET bad == {j \in 1..Len(r.in.flux) : Compare(r.out.flux[j], AllHom(r, d, r.in.mats, r.in.flux[j]), n) # ""} IN
   IF bad = {} THEN "" ELSE LET j == CHOOSE j \in bad : \A i \in bad : j <= i IN Compare(r.out.flux[j], AllHom(r, d, r.in.mats, r.in.flux[j]), n)
(* data of single planes put into ranges of plane groups                     *)
Part(r) == LET d == r.in.d  n == Ng(r)  np == Len(PlaneOrder(d))
               vol == AllHom(r, d, r.in.mats, <<>>)
               given(g) == {j \in 1..Len(r.in.parts) : r.in.parts[j].bot <= g-1 /\ g-1 <= r.in.parts[j].top}
               src(j) == r.out.single[j]
               want == FlatSeq([g \in 1..Len(Groups(d)) |-> [k \in 1..np |->
                          IF given(g) = {} THEN vol[(g-1)*np + k]
                          ELSE LET x == src(CHOOSE j \in given(g) : TRUE)[k] IN [tr |-> x.tr, nf |-> x.nf, f |-> x.f, ch |-> x.ch, sc |-> ScOf(x, n)]]])
           IN Compare(r.out.part, want, n)
HomVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET d == r.in.d  n == Ng(r)  vol == Compare(r.out.vol, AllHom(r, d, r.in.mats, <<>>), n) IN
   IF ~RegsOk(d, r.out.vol) THEN "pins do not own their coarse cells"
   ELSE IF vol # "" THEN "volume weighting: " \o vol
   ELSE IF Steps(r) # "" THEN "flux weighting: " \o Steps(r)
   ELSE LET back == Compare(r.out.back, [k \in 1..Len(r.out.last) |-> LET x == r.out.last[k] IN
                       [tr |-> x.tr, nf |-> x.nf, f |-> x.f, ch |-> x.ch, sc |-> ScOf(x, n)]], n) IN
   IF back # "" THEN "read back: " \o back
   ELSE IF r.in.parts # <<>> THEN Pre("read back part of the planes: ", Part(r)) ELSE ""
=============================================================================
