SPECIFICATION Spec
CONSTANT Depth = 9
INVARIANTS Stays Straight Turns Leaks Ahead1 Behind1
CHECK_DEADLOCK FALSE
