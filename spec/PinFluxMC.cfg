CONSTANT Depth = 3
SPECIFICATION Spec
INVARIANTS Kept Shape Idle Dead Consistent Emit
CHECK_DEADLOCK FALSE
