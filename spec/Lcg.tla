-------------------------------- MODULE Lcg ---------------------------------
(* The random number stream: x' = (Mul * x + Add) mod 2^Bits.  States are    *)
(* numbers given as limbs, least significant first, LimbBits bits each, so   *)
(* that the 63-bit generator and small ones for exhaustive checking are the  *)
(* same definitions.                                                         *)
EXTENDS Naturals, Integers, Sequences, F64
CONSTANTS Bits, LimbBits, Mul, Add    \* Mul, Add: limb sequences
NL == (Bits + LimbBits - 1) \div LimbBits
B == 2^LimbBits
TopBase == 2^(Bits - (NL-1)*LimbBits)
Zero == [i \in 1..NL |-> 0]
One == [i \in 1..NL |-> IF i = 1 THEN 1 ELSE 0]
(* the limb sequence of column sums c, carried and cut to Bits bits; a       *)
(* column may be as large as 2^31 - 2^LimbBits                               *)
RECURSIVE Carry(_, _, _)
Carry(c, i, k) == IF i > NL THEN <<>>
   ELSE LET v == c[i] + k IN <<IF i = NL THEN v % TopBase ELSE v % B>> \o Carry(c, i+1, v \div B)
Plus(x, y) == Carry([i \in 1..NL |-> x[i] + y[i]], 1, 0)
(* high and low parts of a product of two limbs go to separate columns       *)
RECURSIVE ColLow(_, _, _, _)
ColLow(x, y, n, i) == IF i > n THEN 0 ELSE ((x[i] * y[n+1-i]) % B) + ColLow(x, y, n, i+1)
RECURSIVE ColHigh(_, _, _, _)
ColHigh(x, y, n, i) == IF i > n THEN 0 ELSE ((x[i] * y[n+1-i]) \div B) + ColHigh(x, y, n, i+1)
Times(x, y) == Carry([n \in 1..NL |-> ColLow(x, y, n, 1) + (IF n = 1 THEN 0 ELSE ColHigh(x, y, n-1, 1))], 1, 0)
Cut(x) == Carry([i \in 1..NL |-> x[i]], 1, 0)
Step(x) == Plus(Times(Mul, x), Add)
RECURSIVE StepN(_, _)
StepN(x, n) == IF n = 0 THEN x ELSE StepN(Step(x), n-1)
(* n steps at once: n as a limb sequence (of any length).  The affine map of *)
(* n steps is composed from those of the powers of two.                      *)
Bit(n, j) == (n[1 + (j \div LimbBits)] \div 2^(j % LimbBits)) % 2
RECURSIVE Affine(_, _, _, _)
Affine(n, j, pw, acc) ==        \* pw = <<g, c>> of 2^j steps, acc so far
   IF j = Len(n)*LimbBits THEN acc
   ELSE LET acc2 == IF Bit(n, j) = 1 THEN <<Times(pw[1], acc[1]), Plus(Times(pw[1], acc[2]), pw[2])>> ELSE acc
            pw2 == <<Times(pw[1], pw[1]), Plus(Times(pw[1], pw[2]), pw[2])>>
        IN Affine(n, j+1, pw2, acc2)
Jump(x, n) == LET a == Affine(n, 0, <<Cut(Mul), Cut(Add)>>, <<One, Zero>>) IN Plus(Times(a[1], x), a[2])
(* value in [0,1): state / 2^Bits                                            *)
RECURSIVE Val(_, _)
Val(x, i) == IF i > NL THEN FInt(0) ELSE FAdd(x[i], FMul(B, Val(x, i+1)))
Unit(x) == FMul(Val(x, 1), FPow(2, -Bits))
=============================================================================
