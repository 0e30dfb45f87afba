INIT Init
NEXT Next
CONSTANT Verdict <- ExpVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
