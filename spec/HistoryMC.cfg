SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANTS Stays Ends Leaks Straight Forward
CHECK_DEADLOCK FALSE
