------------------------------ MODULE MatLibMC ------------------------------
(* Feed every sequence of line kinds to the reader.                          *)
EXTENDS MatLib, Json
CONSTANTS MaxLen, MaxNg, MaxMat
VARIABLES s, hist
T(x) == [s |-> x, num |-> FALSE, int |-> FALSE, v |-> FInt(0), n |-> 0]
I(k) == [s |-> "n", num |-> TRUE, int |-> TRUE, v |-> FInt(k), n |-> k]
Ns(k) == [i \in 1..k |-> I(i)]
Kinds == {"junk", "A", "B", "one", "two", "four"}
Line(k) == CASE k = "junk" -> <<T("x"), T("y")>> [] k = "A" -> <<T("XSMACRO"), T("A"), I(0)>>
             [] k = "B" -> <<T("XSMACRO"), T("B"), I(0)>> [] k = "one" -> Ns(1) [] k = "two" -> Ns(2) [] k = "four" -> Ns(4)
Init == \E g \in 0..MaxNg : \E m \in 0..MaxMat :
          /\ hist = << <<g, m>> >>
          /\ s = FoldLeft(LineStep, LibInit, << <<T("title")>>, <<I(g), I(m)>> >>)
Next == /\ s.bad = "" /\ s.ph # "done" /\ Len(hist) < MaxLen
        /\ \E k \in Kinds : s' = LineStep(s, Line(k)) /\ hist' = Append(hist, k)
Spec == Init /\ [][Next]_<<s, hist>>
Complete == (s.bad = "" /\ s.ph = "done") =>
    /\ Len(s.mats) = s.nmat /\ s.ng >= 1
    /\ \A i, j \in 1..Len(s.mats) : i # j => s.mats[i].name # s.mats[j].name
    /\ \A i \in 1..Len(s.mats) : Len(s.mats[i].rows) = s.ng /\ Len(s.mats[i].scat) = s.ng
Order == \A i \in 1..(Len(hist)-1) : (s.bad = "" /\ s.ph = "done") => TRUE
Emit == PrintT("GEN " \o ToJson(hist))
=============================================================================
