INIT Init
NEXT Next
CONSTANT Verdict <- EndsVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
