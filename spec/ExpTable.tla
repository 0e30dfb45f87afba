------------------------------ MODULE ExpTable ------------------------------
(* A table of exp over [lo, hi] in n equal intervals, linear in between and  *)
(* the true function outside.                                                *)
EXTENDS F64, Integers, Sequences, TLC
Width(t) == FDiv(FSub(t.hi, t.lo), t.n)
Node(t, i) == FAdd(t.lo, FMul(i, Width(t)))
Inside(t, v) == FLe(t.lo, v) /\ FLe(v, t.hi)
(* index of the interval that holds v; the last node belongs to the last one *)
RECURSIVE Find(_, _, _, _)
Find(t, v, a, b) == IF b - a <= 1 THEN a
                    ELSE LET c == (a + b) \div 2 IN IF FLe(Node(t, c), v) THEN Find(t, v, c, b) ELSE Find(t, v, a, c)
Interval(t, v) == Find(t, v, 0, t.n)
Chord(t, i, v) == LET a == FExp(Node(t, i))  b == FExp(Node(t, i+1))
                  IN FAdd(a, FMul(FSub(b, a), FDiv(FSub(v, Node(t, i)), Width(t))))
Value(t, v) == IF Inside(t, v) THEN Chord(t, Interval(t, v), v) ELSE FExp(v)
(* error of a chord of exp relative to exp: at the middle and at its largest *)
MidError(h) == FSub(FMul(FRat(1, 2), FAdd(FExp(FDiv(h, 2)), FExp(FNeg(FDiv(h, 2))))), 1)
MaxError(h) == LET a == FDiv(FSub(FExp(h), 1), h)  s == FSub(1, FDiv(1, a))
               IN  FSub(FMul(FAdd(1, FMul(a, s)), FExp(FNeg(s))), 1)
=============================================================================
