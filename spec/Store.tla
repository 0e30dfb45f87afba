-------------------------------- MODULE Store -------------------------------
(* Result files: groups, datasets and links, written and read one operation  *)
(* after another.  A file is a sequence of objects, the first one its root;  *)
(* a group lists its entries, each leading to an object or, for a soft link, *)
(* to whatever is found along a path.  Operations act on a node, which is a  *)
(* group of the file; one that fails leaves the file as it was.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Group == [k |-> "g", kids |-> <<>>, dims |-> <<>>, v |-> <<>>, s |-> ""]
Empty == <<Group>>
Closed == [has |-> FALSE, mode |-> "", o |-> Empty]
Size(dims) == FoldLeft(LAMBDA a, b : a * b, 1, dims)
Kid(g, n) == LET i == {j \in 1..Len(g.kids) : g.kids[j].n = n} IN IF i = {} THEN 0 ELSE CHOOSE j \in i : TRUE
RECURSIVE Go(_, _, _, _)        \* the object found along names from a group, 0 if none
Go(o, g, w, n) ==
   IF w = <<>> THEN g ELSE IF n = 0 \/ o[g].k # "g" THEN 0
   ELSE LET i == Kid(o[g], w[1]) IN
        IF i = 0 THEN 0
        ELSE LET e == o[g].kids[i]
                 t == IF e.to # 0 THEN e.to ELSE Go(o, IF e.abs THEN 1 ELSE g, e.w, n - 1) IN
             IF t = 0 THEN 0 ELSE Go(o, t, Tail(w), n - 1)
Fuel == 30
Node(o, e) == Go(o, 1, e.at, Fuel)
From(o, e, p) == IF p.abs THEN 1 ELSE Node(o, e)
Find(o, e, p) == Go(o, From(o, e, p), p.w, Fuel)
(* putting an entry in place: the group it goes to exists and has none of    *)
(* that name                                                                 *)
Parent(o, e, p) == IF p.w = <<>> THEN 0 ELSE Go(o, From(o, e, p), SubSeq(p.w, 1, Len(p.w) - 1), Fuel)
Free(o, e, p) == LET g == Parent(o, e, p) IN g # 0 /\ o[g].k = "g" /\ Kid(o[g], p.w[Len(p.w)]) = 0
Enter(o, e, p, x) == LET g == Parent(o, e, p) IN [o EXCEPT ![g].kids = Append(@, [x EXCEPT !.n = p.w[Len(p.w)]])]
Entry(to) == [n |-> "", to |-> to, abs |-> FALSE, w |-> <<>>]
Added(o, e, p, obj) == Append(Enter(o, e, p, Entry(Len(o) + 1)), obj)
Fail(st) == [st |-> st, ok |-> FALSE, dims |-> <<>>, v |-> <<>>, free |-> FALSE]
Good(st) == [Fail(st) EXCEPT !.ok = TRUE]
Says(st, d, v) == [Good(st) EXCEPT !.dims = d, !.v = v]
Open(st) == [Fail(st) EXCEPT !.free = TRUE]      \* whether it fails is not said
Numeric(x) == x.k \in {"d", "i"}
Writes == {"group", "vec", "shaped", "reshaped", "iter", "array", "int", "uint", "str", "link", "soft"}
(* an array of so many dimensions, empty or of a shape, to be filled from d  *)
Fits(rank, pre, d) == IF pre = <<>> \/ Size(pre) = 0 THEN rank = 1 \/ rank = Len(d)
                      ELSE IF rank = 1 THEN Size(pre) = Size(d) ELSE pre = d
Step(st, e) ==
   IF e.op = "open" THEN
      IF e.mode = "w" THEN Good([has |-> TRUE, mode |-> "w", o |-> Empty])
      ELSE IF st.has THEN Good([st EXCEPT !.mode = e.mode]) ELSE Fail(st)
   ELSE IF e.op = "close" THEN Good([st EXCEPT !.mode = ""])
   ELSE LET o == st.o  at == Node(o, e) IN
   IF at = 0 \/ (at # 0 /\ o[IF at = 0 THEN 1 ELSE at].k # "g") THEN Fail(st)
   ELSE IF e.op \in Writes THEN
      IF st.mode = "r" \/ ~Free(o, e, e.p) THEN Fail(st)
      ELSE LET Put(obj) == Good([st EXCEPT !.o = Added(o, e, e.p, obj)]) IN
      CASE e.op = "group" -> Put(Group)
        [] e.op = "vec" -> Put([Group EXCEPT !.k = "d", !.dims = <<Len(e.v)>>, !.v = e.v])
        [] e.op \in {"shaped", "reshaped", "iter"} -> IF Size(e.dims) # Len(e.v) THEN Fail(st) ELSE Put([Group EXCEPT !.k = "d", !.dims = e.dims, !.v = e.v])
        [] e.op = "array" -> IF e.order = "part" THEN Fail(st) ELSE Put([Group EXCEPT !.k = "d", !.dims = e.dims, !.v = e.v])
        [] e.op \in {"int", "uint"} -> Put([Group EXCEPT !.k = "i", !.dims = <<1>>, !.v = e.v, !.s = IF e.op = "uint" THEN "u" ELSE ""])
        [] e.op = "str" -> Put([Group EXCEPT !.k = "s", !.s = e.s])
        [] e.op = "link" -> LET t == Find(o, e, e.q) IN IF t = 0 THEN Fail(st) ELSE Good([st EXCEPT !.o = Enter(o, e, e.p, Entry(t))])
        [] e.op = "soft" -> Good([st EXCEPT !.o = Enter(o, e, e.p, [n |-> "", to |-> 0, abs |-> e.q.abs, w |-> e.q.w])])
   ELSE LET t == Find(o, e, e.p) IN
      IF t = 0 THEN Fail(st) ELSE IF o[IF t = 0 THEN 1 ELSE t].k = "g" THEN Fail(st)
      ELSE LET x == o[t] IN
      CASE e.op = "dims" -> Says(st, x.dims, <<>>)
        [] e.op = "readvec" -> IF Numeric(x) /\ Len(x.dims) = 1 /\ (e.pre[1] = 0 \/ e.pre[1] = Size(x.dims)) THEN Says(st, <<Size(x.dims)>>, x.v) ELSE Fail(st)
        [] e.op = "read1d" -> IF Numeric(x) /\ (e.pre[1] = 0 \/ e.pre[1] = Size(x.dims)) THEN Says(st, <<Size(x.dims)>>, x.v) ELSE Fail(st)
        [] e.op = "readarray" -> IF Numeric(x) /\ Fits(e.rank, e.pre, x.dims) THEN Says(st, IF e.rank = 1 THEN <<Size(x.dims)>> ELSE x.dims, x.v) ELSE Fail(st)
        [] e.op = "readint" -> IF Numeric(x) /\ Size(x.dims) = 1 THEN (IF x.k = "i" /\ x.s = "" THEN Says(st, <<>>, x.v) ELSE Open(st)) ELSE Fail(st)
(* everything reachable within so many steps, as {path, kind, shape, values} *)
RECURSIVE List(_, _, _, _)
List(o, g, path, n) ==
   IF o[g].k # "g" \/ n = 0 THEN {}
   ELSE UNION {LET e == o[g].kids[i]  p == path \o "/" \o e.n
                   t == Go(o, g, <<e.n>>, Fuel) IN
               IF t = 0 THEN {[p |-> p, k |-> "none", dims |-> <<>>, v |-> <<>>, s |-> ""]}
               ELSE {[p |-> p, k |-> o[t].k, dims |-> o[t].dims, v |-> o[t].v, s |-> IF o[t].k = "s" THEN o[t].s ELSE ""]} \cup List(o, t, p, n - 1) : i \in 1..Len(o[g].kids)}
Contents(st) == IF st.has THEN List(st.o, 1, "", 4) ELSE {}
=============================================================================
