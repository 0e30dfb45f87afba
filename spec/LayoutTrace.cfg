INIT Init
NEXT Next
CONSTANT Verdict <- LayoutVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
