INIT Init
NEXT Next
CONSTANT Verdict <- CorrectVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
