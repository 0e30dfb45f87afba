INIT Init
NEXT Next
CONSTANT Verdict <- CmfdVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
