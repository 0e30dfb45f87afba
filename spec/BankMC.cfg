SPECIFICATION Spec
CONSTANT MaxSites = 4
INVARIANTS Meets Even
CHECK_DEADLOCK FALSE
