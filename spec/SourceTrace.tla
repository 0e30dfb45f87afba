----------------------------- MODULE SourceTrace ----------------------------
EXTENDS TraceCases, Source, SequencesExt
(* Operations on a real source, each followed by a report of the whole group *)
(* source (and of the emission after "self").                                *)
Scale(a) == FAdd(FLit("1e-6"), FoldLeft(LAMBDA m, v : FMax(m, FAbs(v)), FInt(0), a))
NearS(a, b) == Len(a) = Len(b) /\ LET s == Scale(b) IN \A i \in 1..Len(a) : FNear(a[i], b[i], s, FLit("1e-12"))
RECURSIVE Walk(_, _, _, _, _, _)
Walk(r, x, phi, s, old, k) ==
  IF k > Len(r.in.ops) THEN ""
  ELSE LET op == r.in.ops[k]  o == r.out.ops[k]  g == op.g + 1  n == Len(x) IN
  LET nphi == IF op.k = "flux" THEN op.v ELSE phi
      nold == IF op.k = "old" THEN phi ELSE old
      ns == CASE op.k = "init" -> IF r.in.ext = <<>> THEN Empty(n) ELSE r.in.ext[g]
              [] op.k = "fission" -> Plus(s, Fis(x, op.v, g))
              [] op.k = "scatter" -> Plus(s, InScat(x, phi, g))
              [] op.k = "aux" -> Plus(s, op.v)
              [] op.k = "scale" -> [i \in 1..n |-> FMul(s[i], op.v[i])]
              [] op.k = "leak" -> IF r.in.split = 1 THEN LeakSource(s, op.v) ELSE Plus(s, op.v)
              [] OTHER -> s
  IN IF ~NearS(o.src, ns) THEN "group source after " \o op.k
     ELSE IF op.k = "self" /\ ~NearS(o.q, Emission(x, phi, s, g, op.v)) THEN "emission handed to the sweep"
     ELSE IF op.k = "leak" /\ r.in.split = 1 /\ ~NearS(o.split, LeakSplit(s, op.v, phi, g)) THEN "split leakage"
     ELSE IF op.k = "fsrc" /\ ~NearS(o.fs, FisSource(x, phi, op.v)) THEN "fission source of the flux"
     ELSE IF op.k = "fsrc" /\ ~FNear(o.tot, Production(x, phi, r.out.vol), FLit("1e-6"), FLit("1e-11")) THEN "total fission"
     ELSE IF op.k = "fsrc" /\ ~FNear(o.totold, Production(x, old, r.out.vol), FLit("1e-6"), FLit("1e-11")) THEN "total fission of the old flux"
     ELSE Walk(r, x, nphi, ns, nold, k+1)
SrcVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.in.badext = 1 THEN (IF r.out.exc # "" THEN "" ELSE "external source of the wrong shape was accepted")
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE Walk(r, XsOf(r.out, r.in.n, r.in.ng), r.in.phi0, Empty(r.in.n), r.in.phi0, 1)
=============================================================================
