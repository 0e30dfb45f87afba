INIT Init
NEXT Next
CONSTANT Verdict <- BndVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
