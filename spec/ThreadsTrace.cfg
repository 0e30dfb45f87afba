INIT Init
NEXT Next
CONSTANT Verdict <- ThreadsVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
