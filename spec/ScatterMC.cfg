SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Lossless Diagonal Tight SameIffPack Emit
CHECK_DEADLOCK FALSE
