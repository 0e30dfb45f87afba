INIT Init
NEXT Next
CONSTANT Verdict <- StoreVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
