------------------------------- MODULE Amend --------------------------------
(* The command line and the tree of the input.  An element has a name, its   *)
(* attributes, at most one text, and its elements in order.  The document is *)
(* an element without name.  Amendments are applied one after another; each  *)
(* names one attribute or one text by its path from the top, the first among *)
(* elements of the same name being meant.                                    *)
EXTENDS Integers, Sequences, SequencesExt
Refused == [n |-> "refused", a |-> <<>>, t |-> <<>>, k |-> <<>>]
FirstOf(s, n) == LET S == {i \in 1..Len(s) : s[i].n = n} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE AmendOne(_, _, _)
AmendOne(e, path, v) ==
   LET n == path[1]  i == FirstOf(e.k, n)  j == FirstOf(e.a, n) IN
   IF Len(path) > 1
   THEN IF i = 0 THEN Refused
        ELSE LET x == AmendOne(e.k[i], Tail(path), v) IN IF x = Refused THEN Refused ELSE [e EXCEPT !.k[i] = x]
   ELSE IF (i = 0) = (j = 0) THEN Refused
        ELSE IF j # 0 THEN [e EXCEPT !.a[j].v = v]
        ELSE IF e.k[i].t = <<>> THEN Refused ELSE [e EXCEPT !.k[i].t = <<v>>]
(* an amendment as written: its path, how many equals signs, what follows    *)
Apply(e, m) == IF e = Refused \/ m.eq # 1 THEN Refused ELSE AmendOne(e, m.path, m.v)
RECURSIVE ApplyAll(_, _)
ApplyAll(e, ms) == IF ms = <<>> THEN e ELSE ApplyAll(Apply(e, ms[1]), Tail(ms))
(* The command line: a sequence of words.  A word is the flag, an amendment, *)
(* another word starting like a flag, or the name of a file                  *)
Flag == [w |-> "-a"]
NoEquals == [w |-> "amend", path |-> <<"">>, eq |-> 0, v |-> ""]
RECURSIVE Words(_, _)
Words(ws, r) ==      \* r: files and amendments so far, ok
   IF ws = <<>> \/ ~r.ok THEN r
   ELSE IF ws[1].w = "-a" THEN (IF Len(ws) = 1 THEN [r EXCEPT !.ok = FALSE]
                                ELSE IF ws[2].w \in {"-a", "dash"} THEN [r EXCEPT !.ok = FALSE]
                                ELSE Words(SubSeq(ws, 3, Len(ws)), [r EXCEPT !.ms = Append(@, IF ws[2].w = "amend" THEN ws[2] ELSE NoEquals)]))
   ELSE Words(Tail(ws), [r EXCEPT !.files = Append(@, ws[1])])
Read(ws) == LET r == Words(ws, [files |-> <<>>, ms |-> <<>>, ok |-> TRUE]) IN [r EXCEPT !.ok = @ /\ Len(r.files) = 1]
(* names: directories as they are, the last part without what follows its    *)
(* last dot                                                                  *)
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Stem(f) == f.dir \o (IF Len(f.base) = 1 THEN f.base[1] ELSE Join(SubSeq(f.base, 1, Len(f.base) - 1), "."))
CaseName(e, f) == LET i == FirstOf(e.k, "case_name") IN IF i = 0 THEN Stem(f) ELSE IF e.k[i].t = <<>> THEN "" ELSE e.k[i].t[1]
Emptied(e) == LET i == FirstOf(e.k, "case_name") IN i # 0 /\ (e.k[i].t = <<>> \/ e.k[i].t = <<"">>)
(* what the run starts from: the tree and the case name, or refusal          *)
Outcome(tree, ws) == LET r == Read(ws) IN
   IF ~r.ok THEN [ok |-> FALSE]
   ELSE IF r.files[1].w # "file" THEN [ok |-> FALSE]
   ELSE LET e == ApplyAll(tree, r.ms) IN
        IF e = Refused THEN [ok |-> FALSE] ELSE IF Emptied(e) THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, tree |-> e, name |-> CaseName(e, r.files[1])]
=============================================================================
