------------------------------- MODULE XsMesh -------------------------------
(* Which material fills which mesh region, and the cross sections of pins    *)
(* homogenised over their regions.  Materials are given by their ID with     *)
(* absorption ab, nu-fission nf, fission f, normalised spectrum chi and      *)
(* scattering sc[to][from].                                                  *)
EXTENDS Layout
(* what leaves group g by scattering, to any group                           *)
Out(sc, g) == FSum([t \in DOMAIN sc |-> sc[t][g]])
Mat(mats, id) == ById(mats, id)
MatTotal(m, g) == FAdd(m.ab[g], Out(m.sc, g))
ChiNorm(m, g) == IF \E h \in DOMAIN m.chi : FLt(0, m.chi[h]) THEN FDiv(m.chi[g], FSum(m.chi)) ELSE m.chi[g]
PinMats(d, p) == LET m == MeshOf(d, p) IN [i \in 1..NReg(m) |-> p.mats[ZoneOfRegion(m, i-1)]]
GFirst(d, g) == SumSeq(SubSeq(Groups(d), 1, g-1))        \* first plane of group g
PlaneMats(d, iz) == FlatSeq([k \in 1..Len(PlaneOrder(d)) |-> PinMats(d, PinAt(d, PlaneOrder(d)[k][1], PlaneOrder(d)[k][2], iz))])
(* material of every region, full mesh and one set of regions per group      *)
TrueMats(d) == FlatSeq([iz \in 1..NZ(d) |-> PlaneMats(d, iz-1)])
GroupMats(d) == FlatSeq([g \in 1..Len(Groups(d)) |-> PlaneMats(d, GFirst(d, g))])
(* pin-wise homogenisation: weights w[i][g] are area times flux of region i  *)
HomXs(ms, w, g, val(_, _)) == FDiv(FSum([i \in DOMAIN w |-> FMul(w[i][g], val(ms[i], g))]), FSum([i \in DOMAIN w |-> w[i][g]]))
HomScat(ms, w, to, from) == FDiv(FSum([i \in DOMAIN w |-> FMul(w[i][from], ms[i].sc[to][from])]), FSum([i \in DOMAIN w |-> w[i][from]]))
FisSrc(ms, w, i) == FDot(w[i], ms[i].nf)
HomChi(ms, w, g) == LET tot == FSum([i \in DOMAIN w |-> FisSrc(ms, w, i)])
                    IN IF FLt(0, tot) THEN FDiv(FSum([i \in DOMAIN w |-> FMul(FisSrc(ms, w, i), ChiNorm(ms[i], g))]), tot) ELSE FInt(0)
HomPin(ms, w) == LET G == 1..Len(w[1]) IN
   [tr |-> [g \in G |-> HomXs(ms, w, g, LAMBDA m, h : MatTotal(m, h))],
    nf |-> [g \in G |-> HomXs(ms, w, g, LAMBDA m, h : m.nf[h])],
    f |-> [g \in G |-> HomXs(ms, w, g, LAMBDA m, h : m.f[h])],
    ch |-> [g \in G |-> HomChi(ms, w, g)],
    sc |-> [to \in G |-> [from \in G |-> HomScat(ms, w, to, from)]]]
=============================================================================
