INIT Init
NEXT Next
CONSTANT Verdict <- VolumeVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
