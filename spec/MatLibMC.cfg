SPECIFICATION Spec
CONSTANTS MaxLen = 12 MaxNg = 2 MaxMat = 2
INVARIANTS Complete Emit
CHECK_DEADLOCK FALSE
