------------------------------- MODULE McRunMC -------------------------------
EXTENDS McRun, TLC, Json, FiniteSets
VARIABLE s
Init == \E np \in 1..3, n \in 1..5 : \E ni \in 0..n : s = Start0(np, ni, n)
Next == /\ Phase(s) \in Runs /\ ~s.over
        /\ \E v \in 0..2, m \in 0..1 : s' = Cycle(s, v, m)
Spec == Init /\ [][Next]_s
Fresh == /\ Cardinality(s.taken) = s.np * Len(s.all)
         /\ \A a, b \in s.taken : a[1] = b[1] => a = b
         /\ \A a \in s.taken : a[1] = StreamOf(s.np, a[2], a[3])
Counted == Len(s.all) <= s.n /\ Len(s.kept) = (IF Len(s.all) > s.ni THEN Len(s.all) - s.ni ELSE 0)
ActiveOnly == s.kept = SubSeq(s.all, s.ni + 1, Len(s.all)) /\ Len(s.means) = Len(s.kept)
Means == \A j \in 1..Len(s.means) : s.means[j] = <<Sum0(SubSeq(s.all, s.ni + 1, s.ni + j)), j>>
Ends == Phase(s) = "done" => Len(s.all) = s.n /\ Len(s.kept) = s.n - s.ni
Emit == s.all = <<>> => PrintT("GEN " \o ToJson(<<s.np, s.ni, s.n>>))
=============================================================================
