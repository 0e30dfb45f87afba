INIT Init
NEXT Next
CONSTANT Verdict <- McRunVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
