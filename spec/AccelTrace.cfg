INIT Init
NEXT Next
CONSTANT Verdict <- AccelVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
