INIT Init
NEXT Next
CONSTANT Verdict <- CycleVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
