INIT Init
NEXT Next
CONSTANT Verdict <- RaysVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
