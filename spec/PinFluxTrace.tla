----------------------------- MODULE PinFluxTrace ---------------------------
(* Pin fluxes read from and imposed on a real sweeper.                        *)
(* in.kind  "sn", "moc" or "2d3d" (both, with the same fluxes imposed; the pin *)
(* flux seen is that of the Sn part if in.expose = 1)           *)
(* out.moc, out.sn: region to pin and plane group, region volume, start flux  *)
EXTENDS TraceCases, PinFlux
Tol == FLit("1e-11")
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FNear(a[i], b[i], FInt(1), Tol)
Col(f, g) == [i \in 1..Len(f) |-> f[i][g]]
(* one part of a sweeper: regions know their plane group's pin; Sn regions    *)
(* are the pins themselves                                                    *)
Part(r, w) == IF w = "sn" THEN r.out.sn ELSE r.out.moc
NPin(r) == Len(r.in.pin)
NGrp(r) == r.in.npp
(* pins of the fine planes grouped over the planes                            *)
Fold(r, want) == Gather(want, r.in.hpin, r.in.pin, NGrp(r))
Expect(r, p, w, phi, op) ==
   IF w = "sn" /\ op.t = "pin" THEN op.want
   ELSE Impose(phi, p.vol, p.cell, NGrp(r), IF op.t = "pin" THEN Fold(r, op.want) ELSE op.want)
Diff(r, p, w, phi, op) ==
   IF w = "sn"
   THEN IF op.t = "pin" THEN FSqrt(FSum([i \in 1..Len(phi) |-> FMul(FSub(phi[i], op.want[i]), FSub(phi[i], op.want[i]))]))
        ELSE Change(phi, p.vol, p.cell, NGrp(r), op.want)
   ELSE FDiv(Change(phi, p.vol, p.cell, NGrp(r), IF op.t = "pin" THEN Fold(r, op.want) ELSE op.want), FInt(NGrp(r)))
Seen(r, p, w, phi) == Average(phi, p.vol, p.cell, NGrp(r))
SeenPin(r, p, w, phi) == IF w = "sn" THEN phi ELSE Spread(Seen(r, p, w, phi), r.in.pin)
RECURSIVE Walk(_, _, _, _)
Walk(r, w, f, k) ==
   IF k > Len(r.in.ops) THEN ""
   ELSE LET op == r.in.ops[k]  o == r.out.ops[k]  p == Part(r, w)  n == o[w]  g == op.g + 1
            v == First(<< <<"another group was changed", \A h \in 1..r.in.ng : h # g => Col(n.flux, h) = Col(f, h)>>,
                          <<"region flux after imposing a pin flux", NearSeq(Col(n.flux, g), Expect(r, p, w, Col(f, g), op))>>,
                          <<"pin flux", o.seen = w => \A h \in 1..r.in.ng : NearSeq(o.pin[h], SeenPin(r, p, w, Col(n.flux, h)))>>,
                          <<"pin flux by plane group", o.seen = w => \A h \in 1..r.in.ng : NearSeq(o.plane[h], Seen(r, p, w, Col(n.flux, h)))>>,
                          <<"reported change", w # r.in.rep \/ FNear(o.diff, Diff(r, p, w, Col(f, g), op), FInt(1), Tol)>> >>)
        IN IF v # "" THEN v \o " (" \o w \o ")" ELSE Walk(r, w, n.flux, k+1)
(* the result file describes the final state                                  *)
Loose == FLit("1e-10")
Like(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FNear(a[i], b[i], FInt(1), Loose)
Final(r, w) == r.out.ops[Len(r.out.ops)][w].flux
FluxTold(r, w, f) ==
   LET p == Part(r, w)
       all == [g \in 1..r.in.ng |-> TLCEval(SeenPin(r, p, w, Col(Final(r, w), g)))]
       flat == TLCEval(Normal(Flat(all)))
   IN \A g \in 1..r.in.ng : Like(f.flux[g], SubSeq(flat, (g-1)*NPin(r) + 1, g*NPin(r)))
(* fission cross sections of the regions of the part whose cross sections are known *)
SigF(r, n) == LET own == [i \in 1..n |-> CHOOSE k \in 1..Len(r.out.xs) : \E j \in 1..Len(r.out.xs[k].reg) : r.out.xs[k].reg[j] = i - 1]
              IN [i \in 1..n |-> r.out.xs[own[i]].f]
PinPow(r, w) == LET p == Part(r, w)  f == Final(r, w)  v == TLCEval(Power(f, IF w = "sn" THEN r.in.vol ELSE [i \in 1..Len(p.vol) |-> FMul(p.vol[i], r.in.hgrp[((p.cell[i]-1) \div r.in.npl) + 1])], TLCEval(SigF(r, Len(f)))))
                IN IF w = "sn" THEN v ELSE Total(v, p.cell, NGrp(r))
(* most pins with fission in any plane                                        *)
Fuel(r, sf, cell) ==
   LET hot == {cell[i] : i \in {k \in 1..Len(cell) : FLt(0, FSum(sf[k]))}}
       n == [k \in 1..(NGrp(r) \div r.in.npl) |-> Cardinality({c \in hot : (c-1) \div r.in.npl = k-1})]
   IN CHOOSE m \in {n[k] : k \in DOMAIN n} : \A k \in DOMAIN n : n[k] <= m
PowTold(r, w, f) ==
   LET q == TLCEval(PinPow(r, w))  t == FSum(q) IN
   FEq(t, 0) \/ IF w = "sn" THEN Like(f.pow.v, Normal(q)) /\ Like(f.pow2.v, Normal(Total(q, [i \in 1..Len(q) |-> ((i-1) % r.in.npl) + 1], r.in.npl)))
                ELSE Like(f.pow.v, [i \in 1..Len(q) |-> FDiv(FMul(q[i], Fuel(r, SigF(r, Len(Part(r, w).cell)), Part(r, w).cell)), t)])
Shape(r, n) == <<n, r.in.npy, r.in.npl \div r.in.npy>>
FileTold(r, w, power) ==
   LET f == r.out.file[w] IN
   First(<< <<"shape of the fluxes in the result file", \A g \in 1..r.in.ng : f.dims[g] = Shape(r, NPin(r) \div r.in.npl)>>,
            <<"shape of the powers in the result file", f.pow.dims = Shape(r, IF w = "sn" THEN NPin(r) \div r.in.npl ELSE NGrp(r) \div r.in.npl)>>,
            <<"pin flux in the result file", FluxTold(r, w, f)>>,
            <<"region flux in the result file", (w = "moc" /\ r.in.fsr = 1) => \A g \in 1..r.in.ng : f.fsr[g] = Col(Final(r, w), g)>>,
            <<"pin power in the result file", power => PowTold(r, w, f)>> >>)
Told(r, w, power) == LET v == FileTold(r, w, power) IN IF v = "" THEN "" ELSE v \o " (" \o w \o ")"
PinVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET hs == ~(r.in.kind = "moc" \/ (r.in.kind = "2d3d" /\ r.in.expose = 0))  hm == r.in.kind # "sn"
            a == IF hs THEN Walk(r, "sn", r.out.sn.flux, 1) ELSE ""
            b == IF hm THEN Walk(r, "moc", r.out.moc.flux, 1) ELSE ""
            c == IF hs THEN Told(r, "sn", r.in.kind = "sn") ELSE ""
        IN IF a # "" THEN a ELSE IF b # "" THEN b ELSE IF c # "" THEN c ELSE IF hm THEN Told(r, "moc", TRUE) ELSE ""
=============================================================================
