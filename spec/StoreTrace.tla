----------------------------- MODULE StoreTrace -----------------------------
(* Histories of operations on a result file: each one's outcome, and the     *)
(* contents of the file, read independently, whenever it was closed          *)
EXTENDS TraceCases, Store
RECURSIVE Replay(_, _, _, _)
Replay(st, es, rs, i) ==
   IF i > Len(es) THEN ""
   ELSE LET e == es[i]  n == Step(st, e)  r == rs[i] IN
      IF n.free THEN Replay(n.st, es, rs, i + 1)
      ELSE IF r.ok # n.ok THEN e.op \o (IF n.ok THEN " failed" ELSE " did not fail")
      ELSE IF ~n.ok /\ ~r.kind THEN e.op \o ": failed with something other than an error of the program"
      ELSE IF e.op \in {"dims", "readvec", "read1d", "readarray"} /\ n.ok /\ r.dims # n.dims THEN e.op \o ": shape"
      ELSE IF e.op \in {"readvec", "read1d", "readarray", "readint"} /\ n.ok /\ r.v # n.v THEN e.op \o ": values"
      ELSE IF e.op = "close" /\ {r.list[j] : j \in 1..Len(r.list)} # Contents(n.st) THEN "contents of the file"
      ELSE Replay(n.st, es, rs, i + 1)
StoreVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE Replay(Closed, r.in.steps, r.out.res, 1)
=============================================================================
