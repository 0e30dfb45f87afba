SPECIFICATION Spec
CONSTANTS MaxOps = 4
 NG = 2
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
