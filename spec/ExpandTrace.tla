----------------------------- MODULE ExpandTrace ----------------------------
EXTENDS TraceCases, Expand
Step(r, k) == LET op == r.in.ops[k]  o == r.out.ops[k] IN
   IF op.k = "u" THEN TRUE
   ELSE LET want == Answer(o.cur, op.g + 1, op.split) IN
        Len(o.xs) = Len(want) /\ \A i \in 1..Len(want) : FNear(o.xs[i], want[i], FLit("1e-6"), FLit("1e-13"))
(* an update does change the data, otherwise nothing would be tested         *)
Moved(r) == \A k \in 1..Len(r.in.ops) : r.in.ops[k].k = "u" /\ r.in.hom = 1 /\ k > 1 => r.out.ops[k].cur # r.out.ops[k-1].cur
ExpVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE IF ~\A k \in 1..Len(r.in.ops) : Step(r, k) THEN "expanded cross sections do not match the request"
   ELSE ""
=============================================================================
