---------------------------- MODULE ThreadsTrace ----------------------------
(* Runs of the real code under many schedules, against the run with one      *)
(* thread.                                                                   *)
EXTENDS TraceCases, Threads, F64

Tol(r) == IF r.in.mode = "eig" THEN FLit("1e-4") ELSE FLit("1e-10")
Same(r, x, y) ==
    /\ x.n = y.n /\ Len(x.v) = Len(y.v)
    /\ IF x.exact = 1 THEN \A i \in 1..Len(x.v) : x.v[i] = y.v[i]
       ELSE LET big == FBig(x.v) tol == Tol(r)
            IN  \A i \in 1..Len(x.v) : FNear(x.v[i], y.v[i], big, tol) \/ (~FFinite(x.v[i]) /\ ~FFinite(y.v[i]))
Named(a, n) == CHOOSE i \in 1..Len(a) : a[i].n = n
\* the arrays that occurred, each against that of the run with one thread
Wrong(r) == {k \in 1..Len(r.out.pool) : ~Same(r, r.out.base[Named(r.out.base, r.out.pool[k].n)], r.out.pool[k])}
Agree(r, o, wrong) ==
    IF r.out.baseexc # "" THEN o.exc # ""
    ELSE /\ o.exc = "" /\ Len(o.res) = Len(r.out.base)
         /\ \A i \in 1..Len(o.res) : o.res[i] \notin wrong
\* the first outcome that differs, and how
Differs(r) == LET wrong == IF r.out.baseexc = "" THEN Wrong(r) ELSE {}
              IN  {k \in 1..Len(r.out.outcomes) : ~Agree(r, r.out.outcomes[k], wrong)}
Why(r, k) ==
    LET o == r.out.outcomes[k] IN
    IF r.out.baseexc # "" THEN "fails with one thread only"
    ELSE IF o.exc \in {"no end", "deadlock"} THEN "threads wait for each other"
    ELSE IF o.exc # "" THEN "fails with several threads"
    ELSE LET wrong == Wrong(r)
             bad == {i \in 1..Len(o.res) : o.res[i] \in wrong}
             i == CHOOSE x \in bad : \A y \in bad : x <= y
         IN  IF bad = {} THEN "results are missing" ELSE "the " \o r.out.pool[o.res[i]].n \o " depends on the schedule"
\* every clash that was chosen was tried in some run
Tried(r) == \A p \in 1..Len(r.out.pat) :
    LET u == r.out.pat[p].uses IN
    /\ \E i, j \in 1..Len(u) : Clash(u[i], u[j])
    /\ \E k \in 1..Len(r.out.runs) : Len(r.out.runs[k].stop) = 3 /\ r.out.runs[k].stop[1] = p
Verdict0(r) ==
    IF r.out.crash = 1 THEN "harness stopped"
    ELSE IF r.out.exc # "" THEN "harness failed"
    ELSE IF Differs(r) # {} THEN Why(r, CHOOSE k \in Differs(r) : \A j \in Differs(r) : k <= j)
    ELSE IF ~Tried(r) THEN "a clash was not tried" ELSE ""
ThreadsVerdict(r) == Verdict0(r)
=============================================================================
