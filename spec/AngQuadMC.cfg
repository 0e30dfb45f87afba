SPECIFICATION Spec
CONSTANT MaxNd = 4
INVARIANTS Follows Twice Corner ThreeWalls
CHECK_DEADLOCK FALSE
