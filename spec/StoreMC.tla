------------------------------- MODULE StoreMC ------------------------------
(* Short histories of operations on one file                                 *)
EXTENDS Store, F64, TLC, Json
CONSTANTS Depth
VARIABLES st, hist, ok
vars == <<st, hist, ok>>
P(a, w) == [abs |-> a, w |-> w]
Paths == {P(FALSE, <<"a">>), P(TRUE, <<"b">>), P(FALSE, <<"a", "b">>), P(TRUE, <<>>)}
Ats == {<<>>, <<"a">>}
W1 == <<FRat(1, 3), FInt(-2)>>
W2 == <<FInt(1), FInt(2), FInt(3), FInt(4), FInt(5), FRat(13, 2)>>
Ev(op, at, p) == [op |-> op, at |-> at, p |-> p, q |-> P(FALSE, <<>>), mode |-> "", v |-> <<>>, dims |-> <<>>, s |-> "", order |-> "c", rank |-> 1, pre |-> <<0>>]
Opens == {[Ev("open", <<>>, P(TRUE, <<>>)) EXCEPT !.mode = m] : m \in {"r", "w", "a"}}
Ops == UNION {UNION {
          {Ev("group", at, p), [Ev("vec", at, p) EXCEPT !.v = W1], [Ev("shaped", at, p) EXCEPT !.v = W2, !.dims = <<2, 3>>],
           [Ev("array", at, p) EXCEPT !.v = W2, !.dims = <<3, 2>>, !.order = "f"], [Ev("int", at, p) EXCEPT !.v = <<FInt(7)>>], [Ev("str", at, p) EXCEPT !.s = "text"],
           [Ev("link", at, p) EXCEPT !.q = P(FALSE, <<"a">>)], [Ev("link", at, p) EXCEPT !.q = P(TRUE, <<"b">>)],
           Ev("dims", at, p), Ev("readvec", at, p), [Ev("readarray", at, p) EXCEPT !.rank = 2, !.pre = <<2, 3>>], Ev("readint", at, p)}
          : p \in Paths} : at \in Ats}
Init == st = Closed /\ hist = <<>> /\ ok = TRUE
Do(e) == LET n == Step(st, e) IN st' = n.st /\ hist' = Append(hist, e) /\ ok' = n.ok
Next == /\ Len(hist) < Depth
        /\ IF st.mode = "" THEN \E e \in Opens : Do(e)
           ELSE \/ \E e \in Ops : Do(e)
                \/ Do(Ev("close", <<>>, P(TRUE, <<>>)))
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist), ok>>
(* only opening for writing anew loses anything, and what fails or reads     *)
(* changes nothing                                                           *)
Kept == [][(hist' # hist /\ hist'[Len(hist')].mode # "w") => Contents(st) \subseteq Contents(st')]_vars
Still == [][(~ok' \/ hist'[Len(hist')].op \notin Writes \cup {"open", "close"} \/ st.mode = "r") => Contents(st') = Contents(st)]_vars
Lone == \A x, y \in Contents(st) : x.p = y.p => x = y
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([steps |-> hist]))
=============================================================================
