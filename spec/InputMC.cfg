SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS Sound Missed Emit
CHECK_DEADLOCK FALSE
