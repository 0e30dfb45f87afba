INIT Init
NEXT Next
CONSTANT Verdict <- SnVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
