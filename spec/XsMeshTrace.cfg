INIT Init
NEXT Next
CONSTANT Verdict <- XsVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
