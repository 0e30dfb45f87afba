SPECIFICATION Spec
CONSTANT MaxGroups = 2
INVARIANTS Right SplitOk Emit
CHECK_DEADLOCK FALSE
