INIT Init
NEXT Next
CONSTANT Verdict <- TallyVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
