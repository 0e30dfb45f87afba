INIT Init
NEXT Next
CONSTANT Verdict <- HomVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
