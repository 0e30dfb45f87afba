SPECIFICATION Spec
CONSTANT Steps = 5
INVARIANTS Valid Arrives Changes Back Emit
CHECK_DEADLOCK FALSE
