INIT Init
NEXT Next
CONSTANT Verdict <- AmendVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
