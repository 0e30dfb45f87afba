CONSTANTS MaxLen = 3
 SameLen = 4
 SweepThreads = 3
INIT Init
NEXT Next
INVARIANTS Covered SweepSame Exclusive Emit
CHECK_DEADLOCK FALSE
