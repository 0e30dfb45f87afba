CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS Even Ends Middle Mirror Covered
CHECK_DEADLOCK FALSE
