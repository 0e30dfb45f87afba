----------------------------- MODULE AccelTrace -----------------------------
(* The first run of a problem is not accelerated, the others are.             *)
EXTENDS TraceCases, Accel
LastOf(q) == q[Len(q)]
Done(r, i) == r.out.runs[i].fail = "" /\ Len(r.out.runs[i].k) < r.in.max
Runs(r) == 2..Len(r.out.runs)
(* The sweepers replace negative fluxes by zero; where they do, the currents  *)
(* no longer balance the fluxes and there is nothing to agree on.  A problem  *)
(* is a fair one if the plain iteration settles it, with no flux replaced.    *)
Positive(q) == \A i \in 1..Len(q) : FLt(0, q[i])
Fair(r) == Done(r, 1) /\ Positive(r.out.runs[1].flux) /\ Positive(r.out.runs[1].pin)
Swift(r) == Fair(r) /\ Len(r.out.runs[1].k) < 300
AccelVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE First(<<
     <<"the run without acceleration failed", r.out.runs[1].fail = "">>,
     <<"no convergence with thin cells", (r.in.thin = 1 /\ Swift(r)) => \A i \in Runs(r) : Done(r, i)>>,
     <<"stopped without meeting the tolerances", \A i \in 1..Len(r.out.runs) : Done(r, i) =>
          FLe(LastOf(r.out.runs[i].ek), r.in.ktol) /\ FLe(LastOf(r.out.runs[i].ep), r.in.ptol)>>,
     <<"different k", Fair(r) => \A i \in Runs(r) : Done(r, i) => SameK(LastOf(r.out.runs[1].k), LastOf(r.out.runs[i].k), FLit("1e-6"))>>,
     <<"different pin fluxes", Fair(r) => \A i \in Runs(r) : Done(r, i) => SameShape(r.out.runs[1].pin, r.out.runs[i].pin, FLit("2e-5"))>>,
     <<"different region fluxes", Fair(r) => \A i \in Runs(r) : Done(r, i) => SameShape(r.out.runs[1].flux, r.out.runs[i].flux, FLit("2e-5"))>> >>)
=============================================================================
