INIT Init
NEXT Next
CONSTANT Verdict <- ScatVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
