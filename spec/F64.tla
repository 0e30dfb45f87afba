-------------------------------- MODULE F64 --------------------------------
(* IEEE-754 doubles for the numerical parts of the specification.          *)
(* A double is the pair <<hi, lo>> of signed 32-bit halves.  The operators *)
(* below are primitive; java/tlc2/module/F64.java gives them to TLC.  An   *)
(* Int may be used wherever a double argument is expected.                 *)
EXTENDS Naturals, Integers, Sequences
FInt(a) == CHOOSE x : TRUE
FRat(n, m) == CHOOSE x : TRUE
FAdd(x, y) == CHOOSE z : TRUE
FSub(x, y) == CHOOSE z : TRUE
FMul(x, y) == CHOOSE z : TRUE
FDiv(x, y) == CHOOSE z : TRUE
FNeg(x) == CHOOSE z : TRUE
FAbs(x) == CHOOSE z : TRUE
FSqrt(x) == CHOOSE z : TRUE
FExp(x) == CHOOSE z : TRUE
FLog(x) == CHOOSE z : TRUE
FSin(x) == CHOOSE z : TRUE
FCos(x) == CHOOSE z : TRUE
FTan(x) == CHOOSE z : TRUE
FAtan2(y, x) == CHOOSE z : TRUE
FPow(x, y) == CHOOSE z : TRUE
FFloor(x) == CHOOSE z \in Int : TRUE
FCeil(x) == CHOOSE z \in Int : TRUE
FRound(x) == CHOOSE z \in Int : TRUE
FLt(x, y) == CHOOSE z \in BOOLEAN : TRUE
FLe(x, y) == CHOOSE z \in BOOLEAN : TRUE
FEq(x, y) == CHOOSE z \in BOOLEAN : TRUE
FMin(x, y) == CHOOSE z : TRUE
FMax(x, y) == CHOOSE z : TRUE
FFinite(x) == CHOOSE z \in BOOLEAN : TRUE
FNear(x, y, scale, tol) == CHOOSE z \in BOOLEAN : TRUE
FSum(s) == CHOOSE z : TRUE
FBig(s) == CHOOSE z : TRUE       \* largest magnitude of the finite entries
FDot(s, t) == CHOOSE z : TRUE
FStr(x) == CHOOSE z \in STRING : TRUE
FParse(s) == CHOOSE z : TRUE
FLit(s) == CHOOSE z : TRUE
=============================================================================
