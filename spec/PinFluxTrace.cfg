INIT Init
NEXT Next
CONSTANT Verdict <- PinVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
