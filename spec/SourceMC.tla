------------------------------ MODULE SourceMC ------------------------------
(* Two regions, two groups.  The solver's protocol: start the group, add      *)
(* fission, add scattering, add leakage, in any order, then emit, then the    *)
(* next group.  The emitted source is the same whatever the order, contains   *)
(* each contribution once, and is untouched by other groups.                  *)
EXTENDS Source, TLC, Json, FiniteSets
CONSTANTS MaxGroups
X == << [ch |-> <<FInt(1), FInt(0)>>, nf |-> <<FRat(1,2), FInt(2)>>, sc |-> <<<<FInt(1), FRat(1,4)>>, <<FInt(2), FInt(3)>>>>],
        [ch |-> <<FRat(1,2), FRat(1,2)>>, nf |-> <<FInt(0), FInt(1)>>, sc |-> <<<<FInt(5), FInt(0)>>, <<FInt(7), FInt(1)>>>>] >>
Phi == << <<FInt(3), FInt(5)>>, <<FInt(2), FInt(7)>> >>
Tl == <<FInt(1), FInt(-2)>>
Parts == {"fission", "scatter", "leak"}
Part(p, g) == CASE p = "fission" -> Fis(X, FisSource(X, Phi, FInt(1)), g) [] p = "scatter" -> InScat(X, Phi, g) [] p = "leak" -> Tl
VARIABLES g, s, have, done, hist
vars == <<g, s, have, done, hist>>
Init == g = 1 /\ s = Empty(2) /\ have = {} /\ done = <<>> /\ hist = <<>>
Add(p) == p \notin have /\ s' = Plus(s, Part(p, g)) /\ have' = have \cup {p} /\ hist' = Append(hist, [k |-> p, g |-> g-1]) /\ UNCHANGED <<g, done>>
Emit1 == /\ have = Parts /\ done' = Append(done, <<g, Emission(X, Phi, s, g, <<>>)>>) /\ g' = 3 - g /\ s' = Empty(2) /\ have' = {}
         /\ hist' = Append(hist, [k |-> "self", g |-> g-1])
Next == Len(done) < MaxGroups /\ (Emit1 \/ \E p \in Parts : Add(p))
Spec == Init /\ [][Next]_vars
Whole(q) == LET a == Plus(Fis(X, FisSource(X, Phi, FInt(1)), q), Plus(InScat(X, Phi, q), Tl))
                w == SelfScat(X, Phi, q) IN [i \in 1..2 |-> FDiv(FAdd(a[i], w[i]), FourPi)]
Right == \A i \in 1..Len(done) : \A j \in 1..2 : FNear(done[i][2][j], Whole(done[i][1])[j], FInt(1), FLit("1e-14"))
(* splitting moves, it does not lose                                          *)
SplitOk == LET a == LeakSource(<<FInt(1), FInt(1)>>, Tl)  b == LeakSplit(<<FInt(1), FInt(1)>>, Tl, Phi, 1) IN
   \A i \in 1..2 : FNear(FSub(a[i], FMul(b[i], Phi[i][1])), FAdd(1, Tl[i]), FInt(1), FLit("1e-14"))
Emit == Len(done) = MaxGroups => PrintT("GEN " \o ToJson(hist))
=============================================================================
