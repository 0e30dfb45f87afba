-------------------------------- MODULE Rays --------------------------------
(* Characteristic rays over a rectangle hx by hy.  An angle of the first two *)
(* octants has nx rays starting on the south side and ny rays starting on    *)
(* the west side (first octant) or the east side (second octant).  Slots of  *)
(* the sides are numbered 0..ny-1 northwards, then ny..ny+nx-1 eastwards, so *)
(* that a slot is the same pair of opposite boundary points for every angle  *)
(* with the same nx and ny.                                                  *)
EXTENDS PinMesh
Half == FRat(1, 2)
(* box: [hx, hy, nx, ny]                                                     *)
StepX(b) == FDiv(b.hx, b.nx)
StepY(b) == FDiv(b.hy, b.ny)
Slope(b) == FDiv(FMul(b.hy, b.nx), FMul(b.hx, b.ny))
Cosine(b) == FDiv(1, FSqrt(FAdd(1, FMul(Slope(b), Slope(b)))))
Sine(b) == FMul(Slope(b), Cosine(b))
Spacing(b) == FMul(Cosine(b), StepY(b))
Slots(b) == 0..(b.nx + b.ny - 1)
Centre(k, step) == FMul(FAdd(k, Half), step)
(* where the ray of slot k starts, in octant o                               *)
Start(b, o, k) == IF k < b.ny THEN <<IF o = 1 THEN FInt(0) ELSE b.hx, Centre(k, StepY(b))>>
                  ELSE <<Centre(k - b.ny, StepX(b)), FInt(0)>>
Dir(b, o) == <<IF o = 1 THEN Cosine(b) ELSE FNeg(Cosine(b)), Sine(b)>>
Chord(b, o, k) ==
   LET p == Start(b, o, k)
       tx == FDiv(IF o = 1 THEN FSub(b.hx, p[1]) ELSE p[1], Cosine(b))
       ty == FDiv(FSub(b.hy, p[2]), Sine(b))
   IN [len |-> FMin(tx, ty), x |-> FLt(tx, ty)]
Along(p, d, t) == <<FAdd(p[1], FMul(d[1], t)), FAdd(p[2], FMul(d[2], t))>>
Finish(b, o, k) == Along(Start(b, o, k), Dir(b, o), Chord(b, o, k).len)
(* the slot at which the ray of slot k ends                                  *)
EndSlot(b, o, k) == LET e == Finish(b, o, k) IN
   IF Chord(b, o, k).x THEN FFloor(FDiv(e[2], StepY(b))) ELSE b.ny + FFloor(FDiv(e[1], StepX(b)))

(* ------------------------------------------- tracing through the core --- *)
(* d, iz: layout and plane; lengths along the ray at which it crosses lines  *)
LineCuts(p, d, L, xs, ys) ==
   LET all == {FDiv(FSub(xs[i], p[1]), d[1]) : i \in 1..Len(xs)} \cup {FDiv(FSub(ys[i], p[2]), d[2]) : i \in 1..Len(ys)}
       in == {t \in all : FLt(FMul(L, FLit("1e-10")), t) /\ FLt(t, FMul(L, FSub(1, FLit("1e-10"))))}
       s == SortSeq(SetToSeq(in), LAMBDA x, y : FLt(x, y))
       keep == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = 1 \/ FLt(FLit("1e-9"), FSub(s[i], s[i-1])))
   IN [i \in 1..Len(keep) |-> s[keep[i]]]
Cell(xs, x) == CHOOSE i \in 0..(Len(xs)-2) : FLe(xs[i+1], x) /\ FLe(x, xs[i+2])
(* pieces of the ray, pin by pin                                             *)
Pieces(p, d, L, xs, ys) ==
   LET ts == <<FInt(0)>> \o LineCuts(p, d, L, xs, ys) \o <<L>>
   IN [i \in 1..(Len(ts)-1) |->
         LET m == Along(p, d, FMul(Half, FAdd(ts[i], ts[i+1])))
         IN [ix |-> Cell(xs, m[1]), iy |-> Cell(ys, m[2]), a |-> ts[i], b |-> ts[i+1]]]
(* segments of a line in a pin; alt: the regions that touch it where it runs *)
(* along a region boundary                                                   *)
AltSegments(m, a, b) ==
   LET ts == <<FInt(0)>> \o Cuts(m, a, b) \o <<FInt(1)>>
       L == LenOf(a, b)
       e == FMul(m.pitch, FLit("1e-7"))
       px == FMul(e, FDiv(FSub(a[2], b[2]), L))  py == FMul(e, FDiv(FSub(b[1], a[1]), L))
   IN  [i \in 1..(Len(ts)-1) |->
          LET mid == P(a, b, FMul(FRat(1, 2), FAdd(ts[i], ts[i+1])))
              r == RegionAt(m, mid[1], mid[2])
          IN  [len |-> FMul(L, FSub(ts[i+1], ts[i])), reg |-> r,
               alt |-> {r, RegionAt(m, FAdd(mid[1], px), FAdd(mid[2], py)), RegionAt(m, FSub(mid[1], px), FSub(mid[2], py))}]]
(* MeshAt(ix, iy): pin mesh; FirstAt(ix, iy): its first region in the plane  *)
Trace2(p, d, L, xs, ys, MeshAt(_, _), FirstAt(_, _)) ==
   LET ps == Pieces(p, d, L, xs, ys) IN
   FlatSeq([i \in 1..Len(ps) |->
      LET q == ps[i]
          c == <<FMul(Half, FAdd(xs[q.ix+1], xs[q.ix+2])), FMul(Half, FAdd(ys[q.iy+1], ys[q.iy+2]))>>
          A == Along(p, d, q.a)  B == Along(p, d, q.b)
          f == FirstAt(q.ix, q.iy)
          sg == AltSegments(MeshAt(q.ix, q.iy), <<FSub(A[1], c[1]), FSub(A[2], c[2])>>, <<FSub(B[1], c[1]), FSub(B[2], c[2])>>)
      IN [k \in 1..Len(sg) |-> [len |-> sg[k].len, reg |-> sg[k].reg + f, alt |-> {x + f : x \in sg[k].alt}]]])
(* chains compared without very short pieces, equal neighbours joined        *)
Norm(ch, e) == FoldLeft(LAMBDA a, s :
      IF FLt(s.len, e) THEN a
      ELSE IF a # <<>> /\ a[Len(a)].reg = s.reg THEN [a EXCEPT ![Len(a)] = [@ EXCEPT !.len = FAdd(@, s.len)]]
      ELSE Append(a, s), <<>>, ch)
SameChain(want, got, e) == LET a == Norm(want, e)  b == Norm(got, e) IN
   Len(a) = Len(b) /\ \A i \in 1..Len(a) : b[i].reg \in a[i].alt /\ FNear(a[i].len, b[i].len, 1, FMul(4, e))
=============================================================================
