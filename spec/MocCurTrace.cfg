INIT Init
NEXT Next
CONSTANT Verdict <- MocCurVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
