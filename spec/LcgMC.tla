------------------------------- MODULE LcgMC --------------------------------
(* Small generators, all seeds: jumping n steps is n single steps, jumps add *)
(* up, the sequence has full period, and the streams of different histories  *)
(* do not share a state before the stride is used up.                        *)
EXTENDS Lcg, FiniteSets
CONSTANTS Stride, Histories
M7 == <<5, 6, 0>>    \* 53
A7 == <<1, 0, 0>>
VARIABLES seed, n, x
vars == <<seed, n, x>>
RECURSIVE Int2L(_, _)
Int2L(v, i) == IF i > NL THEN <<>> ELSE <<v % B>> \o Int2L(v \div B, i+1)
L2Int(q) == LET RECURSIVE S(_)
                S(i) == IF i > NL THEN 0 ELSE q[i] + B * S(i+1) IN S(1)
M == 2^Bits
Init == /\ seed \in 0..(M-1) /\ n = 0 /\ x = Int2L(seed, 1)
Next == /\ n < M /\ n' = n + 1 /\ x' = Step(x) /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars
Plain == LET RECURSIVE P(_, _)
             P(v, k) == IF k = 0 THEN v ELSE P((L2Int(Cut(Mul)) * v + L2Int(Cut(Add))) % M, k-1)
         IN n <= 3 => L2Int(x) = P(seed, n)
JumpIsSteps == x = Jump(Int2L(seed, 1), Int2L(n, 1) \o <<n \div (B^NL)>>)
JumpsAdd == n < 20 => \A m \in {0, 1, 5} : Jump(x, Int2L(m, 1)) = Jump(Int2L(seed, 1), Int2L(m + n, 1))
FullPeriod == n > 0 /\ n < M => L2Int(x) # seed
InUnit == FLe(0, Unit(x)) /\ FLt(Unit(x), 1)
Streams == n = 0 => LET start(h) == Jump(x, Int2L(h * Stride, 1)) IN
   \A h1, h2 \in 0..(Histories-1) : h1 # h2 =>
      {StepN(start(h1), k) : k \in 0..(Stride-1)} \cap {StepN(start(h2), k) : k \in 0..(Stride-1)} = {}
=============================================================================
