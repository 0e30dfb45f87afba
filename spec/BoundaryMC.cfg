SPECIFICATION Spec
CONSTANT Rounds = 1
INVARIANTS Confluent Dark Kept Mirror
CHECK_DEADLOCK FALSE
