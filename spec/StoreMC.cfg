SPECIFICATION Spec
CONSTANT Depth = 5
VIEW View
INVARIANTS Lone Emit
PROPERTIES Kept Still
CHECK_DEADLOCK FALSE
