INIT Init
NEXT Next
CONSTANT Verdict <- SnCurVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
