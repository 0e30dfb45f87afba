SPECIFICATION Spec
INVARIANTS Fresh Counted ActiveOnly Means Ends Emit
CHECK_DEADLOCK FALSE
