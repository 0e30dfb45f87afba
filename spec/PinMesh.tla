------------------------------- MODULE PinMesh -------------------------------
(* Straight lines through a pin.  A line runs from a to b (points relative   *)
(* to the pin centre); t in (0,1) measures along it.  Cuts are the t at      *)
(* which it crosses a ring, a sector line or a grid line of the pin.         *)
EXTENDS Layout, TLC
P(a, b, t) == <<FAdd(a[1], FMul(t, FSub(b[1], a[1]))), FAdd(a[2], FMul(t, FSub(b[2], a[2])))>>
LenOf(a, b) == FSqrt(FAdd(FMul(FSub(b[1], a[1]), FSub(b[1], a[1])), FMul(FSub(b[2], a[2]), FSub(b[2], a[2]))))
Open01(S) == {t \in S : FLt(FLit("1e-12"), t) /\ FLt(t, FSub(1, FLit("1e-12")))}
RingCuts(a, b, rad) ==
   LET u == FSub(b[1], a[1])  v == FSub(b[2], a[2])
       qa == FAdd(FMul(u, u), FMul(v, v))
       qb == FAdd(FMul(a[1], u), FMul(a[2], v))
       qc == FSub(FAdd(FMul(a[1], a[1]), FMul(a[2], a[2])), FMul(rad, rad))
       disc == FSub(FMul(qb, qb), FMul(qa, qc))
   IN  IF FLe(disc, 0) THEN {}
       ELSE {FDiv(FSub(FNeg(qb), FSqrt(disc)), qa), FDiv(FAdd(FNeg(qb), FSqrt(disc)), qa)}
SectorCuts(a, b, ang) ==
   LET cx == FCos(ang)  sx == FSin(ang)
       u == FSub(b[1], a[1])  v == FSub(b[2], a[2])
       num == FSub(FMul(a[1], sx), FMul(a[2], cx))
       den == FSub(FMul(v, cx), FMul(u, sx))
   IN  IF FLe(FAbs(den), FLit("1e-13")) THEN {}
       ELSE LET t == FDiv(num, den)  p == P(a, b, t)
            IN  IF FLe(FLit("-1e-12"), FAdd(FMul(p[1], cx), FMul(p[2], sx))) THEN {t} ELSE {}
AxisCuts(a, b, ax, x) == IF FLe(FAbs(FSub(b[ax], a[ax])), FLit("1e-13")) THEN {}
                         ELSE {FDiv(FSub(x, a[ax]), FSub(b[ax], a[ax]))}
Grid1(m, n) == {FSub(FDiv(FMul(m.pitch, k), n), FDiv(m.pitch, 2)) : k \in 1..(n-1)}
AllCuts(m, a, b) ==
   Open01(IF m.type = "rect"
          THEN UNION ({AxisCuts(a, b, 1, x) : x \in Grid1(m, m.subx)} \cup {AxisCuts(a, b, 2, y) : y \in Grid1(m, m.suby)})
          ELSE LET rs == Rings(m) IN
               UNION ({RingCuts(a, b, rs[i]) : i \in 1..Len(rs)}
                      \cup {SectorCuts(a, b, FDiv(FMul(TwoPi, k), m.azi)) : k \in 0..(m.azi-1)}))
(* in order, crossings at the same place counted once                        *)
Cuts(m, a, b) ==
   LET s == SortSeq(SetToSeq(AllCuts(m, a, b)), LAMBDA x, y : FLt(x, y))
       keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = 1 \/ FLt(FLit("1e-9"), FSub(s[i], s[i-1])))
   IN  [i \in 1..Len(keep) |-> s[keep[i]]]
Segments(m, a, b) ==
   LET ts == <<FInt(0)>> \o Cuts(m, a, b) \o <<FInt(1)>>
   IN  [i \in 1..(Len(ts)-1) |->
          LET mid == P(a, b, FMul(FRat(1, 2), FAdd(ts[i], ts[i+1])))
          IN  [len |-> FMul(LenOf(a, b), FSub(ts[i+1], ts[i])), reg |-> RegionAt(m, mid[1], mid[2])]]
=============================================================================
