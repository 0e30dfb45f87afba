INIT Init
NEXT Next
CONSTANT Verdict <- GridVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
