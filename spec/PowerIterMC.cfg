CONSTANTS MaxIter = 4 Deep = 200
SPECIFICATION Spec
INVARIANTS Agrees OneEntry Early NotBeyond Enough Emit
CHECK_DEADLOCK FALSE
