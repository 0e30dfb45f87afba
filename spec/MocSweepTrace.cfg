INIT Init
NEXT Next
CONSTANT Verdict <- MocVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
