SPECIFICATION Spec
CONSTANT Sub = 4
INVARIANTS Accurate Nodes Rising Outside Emit
CHECK_DEADLOCK FALSE
