INIT Init
NEXT Next
CONSTANT Verdict <- InputVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
