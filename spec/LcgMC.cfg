SPECIFICATION Spec
CONSTANTS Bits = 7
 LimbBits = 3
 Mul <- M7
 Add <- A7
 Stride = 8
 Histories = 6
INVARIANTS Plain JumpIsSteps JumpsAdd FullPeriod InUnit Streams
CHECK_DEADLOCK FALSE
