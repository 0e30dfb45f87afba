------------------------------ MODULE LcgTrace ------------------------------
EXTENDS TraceCases, Lcg
(* 2806196910506780709 and 1 in limbs of 15 bits                             *)
RealMul == <<10277, 18716, 29923, 14220, 2>>
RealAdd == <<1, 0, 0, 0, 0>>
RECURSIVE Run(_, _, _)
(* a sequence of operations on one generator; every one uses one number      *)
(* except jump; out gives the produced value                                 *)
Ulp == FPow(2, -52)
Same(v, w) == FNear(v, w, FPow(2, -60), FPow(2, -50))
OpOk(op, o, x) ==      \* x: state after the step
  LET u == Unit(x) IN
  CASE op.k = "next" -> o.state = x
    [] op.k = "unit" -> Same(o.v, u) /\ FLe(0, o.v) /\ FLt(o.v, 1)
    [] op.k = "upto" -> Same(o.v, FMul(u, op.hi)) /\ FLe(0, o.v) /\ FLt(o.v, op.hi)
    [] op.k = "range" -> /\ FNear(o.v, FAdd(op.lo, FMul(u, FSub(op.hi, op.lo))), FMax(FAbs(op.lo), FAbs(op.hi)), FPow(2, -49))
                         /\ FLe(op.lo, o.v) /\ FLt(o.v, op.hi)
    [] op.k = "int" -> /\ 0 <= o.i /\ o.i < op.n
                       /\ LET e == FMul(u, op.n) IN FLe(FSub(e, FAdd(1, FMul(op.n, Ulp))), o.i) /\ FLe(o.i, FAdd(e, FMul(op.n, Ulp)))
    [] op.k = "cdf" -> /\ 0 <= o.i /\ o.i < Len(op.c)
                       \* the chosen interval contains u, up to rounding of the table
                       /\ FLe(u, FAdd(op.c[o.i+1], FPow(2, -44)))
                       /\ o.i > 0 => FLe(FSub(op.c[o.i], FPow(2, -50)), u)
Run(r, x, k) ==
  IF k > Len(r.in.ops) THEN ""
  ELSE LET op == r.in.ops[k]  o == r.out.ops[k] IN
  IF op.k = "jump" THEN Run(r, Jump(x, op.n), k+1)
  ELSE IF op.k = "seed" THEN Run(r, op.s, k+1)
  ELSE LET y == Step(x) IN IF OpOk(op, o, y) THEN Run(r, y, k+1) ELSE "wrong value or outside its range: " \o op.k
(* one-flight histories: the distance flown is minus the logarithm of the    *)
(* first number of the history's own stream, jump of (offset+id)*stride      *)
Stride == <<10000, 0, 0, 0, 0>>
Flight(r, k) == LET h == r.in.hist[k]
                    x == Step(Jump(r.in.seed, Times(h.id, Stride)))
                IN FNear(FExp(FNeg(FMul(r.in.xstr, r.out.d[k]))), Unit(x), 1, FLit("1e-7"))
LcgVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE IF r.in.op = "ops" THEN Run(r, Cut(r.in.seed), 1)
   ELSE IF Len(r.out.d) # Len(r.in.hist) THEN "number of histories"
   ELSE IF \A k \in 1..Len(r.in.hist) : Flight(r, k) THEN "" ELSE "a history does not use its own stream"
=============================================================================
