INIT Init
NEXT Next
CONSTANTS Verdict <- LcgVerdict
 Bits = 63
 LimbBits = 15
 Mul <- RealMul
 Add <- RealAdd
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
