----------------------------- MODULE TraceCases -----------------------------
(* Validation of independent records: one step per record.  The importing    *)
(* module defines Verdict(r): "" if the record conforms, else the reason.    *)
EXTENDS TraceBase
CONSTANT Verdict(_)
VARIABLE l

Init == l = 1
Judge(r) == LET v == Verdict(r)
            IN  IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", l, v>>)
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l])
        /\ l' = l + 1
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
