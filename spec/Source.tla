------------------------------- MODULE Source -------------------------------
(* The source of one group on a list of regions.  x[i] is the cross-section   *)
(* record of region i: ch[g], nf[g], sc[to][from], tr[g].  phi[i][g] is the   *)
(* flux.  A source is a sequence of one number per region.                    *)
EXTENDS Naturals, Integers, Sequences, F64
Pi == FLit("3.141592653589793")
FourPi == FMul(4, Pi)
(* per-region records from the cross-section regions of a report             *)
XsOf(out, n, ng) ==
   LET own == [i \in 1..n |-> CHOOSE k \in 1..Len(out.xs) : \E j \in 1..Len(out.xs[k].reg) : out.xs[k].reg[j] = i - 1] IN
   [i \in 1..n |-> LET k == own[i] IN [ch |-> out.xs[k].ch, nf |-> out.xs[k].nf, tr |-> out.xs[k].tr,
        sc |-> [t \in 1..ng |-> SubSeq(out.xs[k].sc, (t-1)*ng + 1, t*ng)]]]
Empty(n) == [i \in 1..n |-> FInt(0)]
Plus(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
(* the group-independent fission source                                       *)
FisSource(x, phi, k) == [i \in 1..Len(x) |-> FDiv(FDot(x[i].nf, phi[i]), k)]
Fis(x, fs, g) == [i \in 1..Len(x) |-> FMul(x[i].ch[g], fs[i])]
Others(g, n) == [h \in 1..n |-> IF h = g THEN FInt(0) ELSE FInt(1)]
InScat(x, phi, g) == [i \in 1..Len(x) |->
    FSum([h \in 1..Len(phi[i]) |-> IF h = g THEN FInt(0) ELSE FMul(x[i].sc[g][h], phi[i][h])])]
SelfScat(x, phi, g) == [i \in 1..Len(x) |-> FMul(x[i].sc[g][g], phi[i][g])]
(* what a sweep uses: per unit solid angle, over the total if asked for       *)
Emission(x, phi, s, g, tot) == LET w == SelfScat(x, phi, g) IN
   [i \in 1..Len(x) |-> FDiv(FAdd(s[i], w[i]), IF tot = <<>> THEN FourPi ELSE FMul(FourPi, tot[i]))]
(* fission production                                                         *)
Production(x, phi, vol) == FSum([i \in 1..Len(x) |-> FMul(vol[i], FDot(x[i].nf, phi[i]))])
(* leakage is added to the source; with splitting a negative sum is moved to  *)
(* the left side as an extra cross section instead                            *)
LeakSource(s, tl) == [i \in 1..Len(s) |-> LET v == FAdd(s[i], tl[i]) IN IF FLt(v, 0) THEN FInt(0) ELSE v]
LeakSplit(s, tl, phi, g) == [i \in 1..Len(s) |-> LET v == FAdd(s[i], tl[i]) IN IF FLt(v, 0) THEN FDiv(FNeg(v), phi[i][g]) ELSE FInt(0)]
=============================================================================
