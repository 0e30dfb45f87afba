SPECIFICATION Spec
CONSTANTS Planes = 3
          MaxFiles = 2
INVARIANTS GivenBack Adds Laid Emit
CHECK_DEADLOCK FALSE
