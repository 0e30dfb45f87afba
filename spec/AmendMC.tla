------------------------------ MODULE AmendMC -------------------------------
(* All command lines of up to MaxWords words over a small tree               *)
EXTENDS Amend, TLC, Json, FiniteSets
CONSTANTS MaxWords
VARIABLES ws
El(n, a, t, k) == [n |-> n, a |-> a, t |-> t, k |-> k]
A(n, v) == [n |-> n, v |-> v]
Tree == El("", <<>>, <<>>, << El("s", <<A("x", "1"), A("y", "2")>>, <<>>, << El("x", <<>>, <<"in">>, <<>>), El("z", <<A("w", "3")>>, <<>>, <<>>),
                                                                       El("z", <<A("w", "4"), A("u", "5")>>, <<"t">>, <<>>) >>),
                               El("case_name", <<>>, <<"c">>, <<>>), El("s", <<A("v", "6")>>, <<>>, <<>>) >>)
Paths == {<<"s", "y">>, <<"s", "x">>, <<"s", "z", "w">>, <<"s", "z", "u">>, <<"s", "v">>, <<"s">>, <<"case_name">>, <<"s", "z">>, <<"x">>, <<"s", "x", "y">>, <<"">>}
M(p, q) == [w |-> "amend", path |-> p, eq |-> q, v |-> "new"]
File == [w |-> "file", dir |-> "", base |-> <<"in", "xml">>]
Vocabulary == {Flag, [w |-> "dash"], File} \cup {M(p, 1) : p \in Paths} \cup {M(<<"s", "y">>, q) : q \in {0, 2}}
Init == ws = <<>>
Next == Len(ws) < MaxWords /\ \E x \in Vocabulary : ws' = Append(ws, x)
(* leaves: every attribute and text with its address                         *)
RECURSIVE Leaves(_, _)
Leaves(e, at) == {<<at, "a", i, e.a[i].v>> : i \in 1..Len(e.a)} \cup {<<at, "t", 1, e.t[i]>> : i \in 1..Len(e.t)}
                 \cup UNION {Leaves(e.k[i], Append(at, i)) : i \in 1..Len(e.k)}
Was == Leaves(Tree, <<>>)
(* an amendment changes one leaf, nothing else                               *)
OneLeaf == \A p \in Paths : LET x == AmendOne(Tree, p, "new") IN x # Refused => Cardinality(Leaves(x, <<>>) \ Was) = 1 /\ Cardinality(Leaves(x, <<>>)) = Cardinality(Was)
(* doing it twice is doing it once; the last value stands; two different     *)
(* ones may come in either order                                             *)
Once == \A p \in Paths : LET x == AmendOne(Tree, p, "new") IN x # Refused => AmendOne(x, p, "new") = x /\ AmendOne(AmendOne(Tree, p, "old"), p, "new") = x
Either == \A p \in Paths : \A q \in Paths : p = q \/ LET x == AmendOne(Tree, p, "1")  y == AmendOne(Tree, q, "2") IN
             x = Refused \/ y = Refused \/ AmendOne(x, q, "2") = AmendOne(y, p, "1")
(* accepted command lines name one file and as many amendments as flags      *)
Sound == LET o == Outcome(Tree, ws) IN o.ok =>
            /\ Len(ws) = 1 + 2*Cardinality({i \in 1..Len(ws) : ws[i].w = "-a"})
            /\ \A i \in 1..Len(ws) : ws[i].w = "-a" => ws[i+1].w = "amend"
            /\ Cardinality({i \in 1..Len(ws) : ws[i].w = "file"}) = 1
            /\ \A i \in 1..Len(ws) : ws[i].w # "dash"
Emit == Len(ws) > 3 \/ PrintT("GEN " \o ToJson([tree |-> Tree, ws |-> ws]))
=============================================================================
