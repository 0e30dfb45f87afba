------------------------------ MODULE ExpandMC ------------------------------
(* A store shared by several users remembers the group and the version of    *)
(* the cross sections it holds, to save work; splitting makes it forget.     *)
(* Every sequence of requests and updates gets the right answer.  Emits all  *)
(* short sequences for replay.                                               *)
EXTENDS Expand, TLC, Json
CONSTANTS MaxOps, NG
VARIABLES version, store, holds, hist, last
vars == <<version, store, holds, hist, last>>
Cur(v) == <<[g \in 1..NG |-> FInt(10*g + v)]>>
Init == version = 0 /\ store = <<FInt(-1)>> /\ holds = <<-1, -1>> /\ hist = <<>> /\ last = <<"none">>
Plain(g) == /\ store' = IF holds = <<g, version>> THEN store ELSE Answer(Cur(version), g, <<>>)
            /\ holds' = <<g, version>> /\ last' = <<"e", g>> /\ hist' = Append(hist, [k |-> "e", g |-> g-1])
            /\ UNCHANGED version
Split(g) == /\ store' = Answer(Cur(version), g, <<FRat(1, 2)>>) /\ holds' = <<-1, -1>> /\ last' = <<"s", g>>
            /\ hist' = Append(hist, [k |-> "s", g |-> g-1]) /\ UNCHANGED version
Update == /\ version' = version + 1 /\ last' = <<"u">> /\ hist' = Append(hist, [k |-> "u", g |-> 0]) /\ UNCHANGED <<store, holds>>
Next == Len(hist) < MaxOps /\ (Update \/ \E g \in 1..NG : Plain(g) \/ Split(g))
Spec == Init /\ [][Next]_vars
Right == /\ last[1] = "e" => store = Answer(Cur(version), last[2], <<>>)
         /\ last[1] = "s" => store = Answer(Cur(version), last[2], <<FRat(1, 2)>>)
Emit == Len(hist) = MaxOps => PrintT("GEN " \o ToJson(hist))
=============================================================================
