SPECIFICATION Spec
CONSTANT Full = 0
INVARIANTS Reproduces OneCurrent RowsBalance GroupKeeps PutKeeps Conserves
CHECK_DEADLOCK FALSE
