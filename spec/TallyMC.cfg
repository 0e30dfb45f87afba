SPECIFICATION Spec
CONSTANT MaxOps = 6
INVARIANTS Refines UnitFree
CHECK_DEADLOCK FALSE
