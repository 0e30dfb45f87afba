------------------------------ MODULE XsMeshMC ------------------------------
(* Homogenisation preserves reaction rates and weights, for small pins with  *)
(* all combinations of weights: rates add up, the result lies between the    *)
(* materials, equal materials give themselves, and only ratios of the flux   *)
(* matter.                                                                   *)
EXTENDS XsMesh
VARIABLES ms, w
M1 == [id |-> 1, ab |-> <<1, 2>>, nf |-> <<3, 1>>, f |-> <<1, 1>>, chi |-> <<3, 1>>, sc |-> <<<<1, 0>>, <<2, 4>>>>]
M2 == [id |-> 2, ab |-> <<5, 1>>, nf |-> <<0, 4>>, f |-> <<0, 2>>, chi |-> <<1, 0>>, sc |-> <<<<0, 3>>, <<1, 1>>>>]
M3 == [id |-> 3, ab |-> <<2, 2>>, nf |-> <<0, 0>>, f |-> <<0, 0>>, chi |-> <<0, 0>>, sc |-> <<<<2, 0>>, <<0, 2>>>>]
W == {<<a, b>> : a, b \in {1, 3, 8}}
Init == ms \in [1..2 -> {M1, M2, M3}] /\ w \in [1..2 -> W]
Next == UNCHANGED <<ms, w>>
Eps == FLit("1e-13")
Eq(a, b) == FNear(a, b, 1, Eps)
h == HomPin(ms, w)
tot(g) == FSum([i \in 1..2 |-> FInt(w[i][g])])
Rates == \A g \in 1..2 : /\ Eq(FMul(tot(g), h.tr[g]), FSum([i \in 1..2 |-> FMul(w[i][g], MatTotal(ms[i], g))]))
                         /\ Eq(FMul(tot(g), h.nf[g]), FSum([i \in 1..2 |-> FMul(w[i][g], ms[i].nf[g])]))
(* absorption is still total minus what scatters out                         *)
Balance == \A g \in 1..2 : Eq(FSub(h.tr[g], Out(h.sc, g)), HomXs(ms, w, g, LAMBDA m, k : m.ab[k]))
SpectrumSums == LET s == FSum(h.ch) IN FEq(s, 0) \/ Eq(s, 1)
(* emitted neutrons in every group are preserved                             *)
Emission == \A g \in 1..2 : Eq(FMul(h.ch[g], FAdd(FMul(tot(1), h.nf[1]), FMul(tot(2), h.nf[2]))),
                               FSum([i \in 1..2 |-> FMul(ChiNorm(ms[i], g), FisSrc(ms, w, i))]))
Same == ms[1] = ms[2] => \A g \in 1..2 : Eq(h.tr[g], MatTotal(ms[1], g)) /\ Eq(h.ch[g], IF FEq(FisSrc(ms, w, 1), 0) THEN 0 ELSE ChiNorm(ms[1], g))
Scaled == LET h2 == HomPin(ms, [i \in 1..2 |-> <<2*w[i][1], 2*w[i][2]>>]) IN \A g \in 1..2 : Eq(h.tr[g], h2.tr[g]) /\ Eq(h.sc[g][1], h2.sc[g][1])
=============================================================================
