INIT Init
NEXT Next
CONSTANT Verdict <- TextVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
