SPECIFICATION Spec
CONSTANTS Steps = 60
          Inner = 12
INVARIANTS Fixed Same Sensible
CHECK_DEADLOCK FALSE
