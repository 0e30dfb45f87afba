----------------------------- MODULE AmendTrace -----------------------------
(* Command lines given to the program: what it starts from, and for runs,    *)
(* what it leaves                                                            *)
EXTENDS TraceCases, Amend
Refusal(o) == o.status = "exit" /\ o.code # 0
Good(o) == o.status = "exit" /\ o.code = 0
RECURSIVE Written(_)      \* an empty text leaves no trace in the recorded input
Written(e) == [e EXCEPT !.t = IF @ = <<"">> THEN <<>> ELSE @, !.k = [i \in 1..Len(e.k) |-> Written(e.k[i])]]
Plain(n) == IF Len(n) > 2 /\ SubSeq(n, 1, 2) = "./" THEN SubSeq(n, 3, Len(n)) ELSE n      \* a file of the directory itself
AmendVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET w == Outcome(r.in.tree, r.in.ws)  o == r.out IN
   IF ~w.ok THEN First(<< <<"ended otherwise than by refusing", Refusal(o)>>, <<"refused without a message", o.said>>,
                          <<"refused but wrote results", o.files = <<>>>> >>)
   ELSE IF r.in.kind = "parse"
   THEN First(<< <<"refused or crashed", Good(o)>>, <<"tree", o.tree = Written(w.tree)>>, <<"case name", o.name = w.name>> >>)
   ELSE First(<< <<"run refused or crashed", Good(o)>>, <<"recorded input", o.tree = Written(w.tree)>>,
                 <<"names of the results", {o.files[i] : i \in 1..Len(o.files)} = {Plain(w.name) \o ".h5", Plain(w.name) \o ".log"}>>,
                 <<"run of the changed input refused or crashed", Good(o.again)>>,
                 <<"results differ from those of the changed input", o.result = o.again.result>> >>)
=============================================================================
