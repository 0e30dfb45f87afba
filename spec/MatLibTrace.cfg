INIT Init
NEXT Next
CONSTANT Verdict <- LibVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
