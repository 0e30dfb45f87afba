------------------------------ MODULE PowerIter -----------------------------
(* Outer iterations of the two solvers.                                       *)
(* Eigenvalue: one iteration sweeps the groups 1..ng once, group g with the    *)
(* fission source of the flux and k at the start of the iteration and the      *)
(* in-scattering of the newest flux; then k is multiplied by the ratio of the  *)
(* new to the old fission production.                                          *)
(* Fixed source: the same without fission, with the external source.          *)
EXTENDS Naturals, Integers, Sequences, F64, Source

(* ---- stopping: ok(i) holds if iteration i met the tolerances               *)
Stops(i, ok, min, max) == (ok /\ i >= min) \/ i = max
(* number of iterations done, given which iterations meet the tolerances       *)
RECURSIVE Count(_, _, _, _)
Count(i, ok, min, max) == IF i >= max THEN max
                          ELSE IF Stops(i+1, ok[i+1], min, max) THEN i+1 ELSE Count(i+1, ok, min, max)
Converged(n, ok, min) == n > 0 /\ ok[n] /\ n >= min

(* ---- one eigenvalue iteration                                              *)
NewK(k, fold, fnew) == FDiv(FMul(k, fnew), fold)
(* fission source shape: scaled to sum to the number of its positive entries   *)
Positive(s) == FSum([i \in 1..Len(s) |-> IF FLt(0, s[i]) THEN FInt(1) ELSE FInt(0)])
Shape(s) == LET f == FDiv(Positive(s), FSum(s)) IN [i \in 1..Len(s) |-> FMul(f, s[i])]
Sq(a) == FMul(a, a)
Norm2(a, b) == FSqrt(FSum([i \in 1..Len(a) |-> Sq(FSub(a[i], b[i]))]))
(* root mean square of the change over the nfis fissile regions               *)
ShapeChange(old, new, nfis) == FDiv(Norm2(Shape(old), Shape(new)), FSqrt(nfis))

(* ---- what group g is swept with: newest flux of the groups before g         *)
Mixed(old, new, g) == [i \in 1..Len(old) |-> [h \in 1..Len(old[i]) |-> IF h < g THEN new[i][h] ELSE old[i][h]]]
GroupSource(x, fs, ext, old, new, g) ==
   Plus(Plus(ext, Fis(x, fs, g)), InScat(x, Mixed(old, new, g), g))

(* ---- a uniform medium without leakage                                      *)
MediumFlux(x, k, ext, phi, g) ==
   LET q == FAdd(ext[g], FAdd(FMul(x.ch[g], FDiv(FDot(x.nf, phi), k)),
                 FSum([h \in 1..Len(phi) |-> IF h = g THEN FInt(0) ELSE FMul(x.sc[g][h], phi[h])])))
   IN FDiv(q, FSub(x.tr[g], x.sc[g][g]))
Balanced(x, k, ext, phi, tol) == \A g \in 1..Len(phi) :
   FNear(phi[g], MediumFlux(x, k, ext, phi, g), FSum(phi), tol)
=============================================================================
