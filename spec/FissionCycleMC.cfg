CONSTANTS N = 4
 T = 3
 Cycles = 3
INIT Init
NEXT Next
INVARIANTS Reproducible SameSites Consecutive
CHECK_DEADLOCK FALSE
