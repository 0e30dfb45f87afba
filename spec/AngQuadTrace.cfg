INIT Init
NEXT Next
CONSTANT Verdict <- QuadVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
