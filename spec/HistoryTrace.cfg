INIT Init
NEXT Next
CONSTANT Verdict <- HistoryVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
