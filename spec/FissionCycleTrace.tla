------------------------- MODULE FissionCycleTrace -------------------------
(* Monte Carlo runs under many schedules: the cycles of the run with one     *)
(* thread are those of the specification, and all other runs are the same.   *)
EXTENDS ThreadsTrace, FissionCycle

Get(r, n) == r.out.base[Named(r.out.base, n)].v
Cyc(k) == ToString(k)
Sites(v) == [i \in 1..(Len(v) \div 8) |-> SubSeq(v, 8 * i - 7, 8 * i)]
CycleWrong(r, k, last) ==
    LET ids == Get(r, "particle numbers of cycle " \o Cyc(k))
        par == Get(r, "parents of the sites of cycle " \o Cyc(k))
    IN  IF Len(ids) # r.in.np THEN "a cycle has another number of particles"
        ELSE IF ~Numbered(ids) THEN "particles of a cycle are not numbered consecutively"
        ELSE IF \E i \in 1..Len(par) : par[i] < 0 \/ par[i] >= r.in.np THEN "a site has no parent in the cycle"
        ELSE IF k < last /\ ~MadeFrom(Sites(Get(r, "source of cycle " \o Cyc(k + 1))), Sites(Get(r, "sites of cycle " \o Cyc(k))))
             THEN "the source of a cycle is not made from the sites of the one before"
        ELSE ""
CycleVerdict(r) ==
    LET v == Verdict0(r) IN
    IF v # "" THEN v
    ELSE IF r.out.baseexc # "" THEN ""
    ELSE LET n == Get(r, "number of particles")[1]
             bad == {k \in 1..n : CycleWrong(r, k, n) # ""}
         IN  IF bad = {} THEN "" ELSE CycleWrong(r, CHOOSE k \in bad : \A j \in bad : k <= j, n)
=============================================================================
