SPECIFICATION Spec
CONSTANT Steps = 11
INVARIANTS Valid Arrives Changes Back Emit
CHECK_DEADLOCK FALSE
