SPECIFICATION Spec
CONSTANT MaxCells = 8
INVARIANTS Balanced OrderFree Even2
CHECK_DEADLOCK FALSE
