SPECIFICATION Spec
CONSTANT MaxSeg = 3
INVARIANTS Conserved Bounded Kept Cut
CHECK_DEADLOCK FALSE
