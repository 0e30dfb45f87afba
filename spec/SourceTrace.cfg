INIT Init
NEXT Next
CONSTANT Verdict <- SrcVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
