INIT Init
NEXT Next
CONSTANT MaxWords = 4
INVARIANTS OneLeaf Once Either Sound Emit
CHECK_DEADLOCK FALSE
