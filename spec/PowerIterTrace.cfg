INIT Init
NEXT Next
CONSTANT Verdict <- IterVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
