---------------------------- MODULE PinMeshTrace ----------------------------
EXTENDS TraceCases, PinMesh
Near(x, y) == FNear(x, y, 1, FLit("1e-9"))
(* inside points: both look-ups; points outside the pin are in no region     *)
PointOk(r, k) == LET q == r.in.pts[k]  o == r.out.pts[k] IN
    /\ o.reg = RegionAt(r.in.m, q.p[1], q.p[2]) /\ o.regdir = o.reg
OutOk(r, k) == r.out.outs[k] = -1
(* a point on a region boundary belongs to the region it is heading into     *)
OnOk(r, k) == LET q == r.in.ons[k]
                  e == FMul(r.in.m.pitch, FLit("1e-6"))
              IN  r.out.ons[k] = RegionAt(r.in.m, FAdd(q.p[1], FMul(e, q.d[1])), FAdd(q.p[2], FMul(e, q.d[2])))
TrackOk(r, k) == LET q == r.in.trs[k]
                     o == r.out.trs[k]
                     w == Segments(r.in.m, q.a, q.b)
                 IN  /\ o.n = Len(w) /\ Len(o.s) = Len(w) /\ Len(o.r) = Len(w)
                     /\ \A i \in 1..Len(w) : Near(o.s[i], w[i].len) /\ o.r[i] = w[i].reg + q.first
                     /\ FNear(FSum(o.s), LenOf(q.a, q.b), 1, FLit("1e-11"))
(* flight by surface distances: same cuts, each region entered in turn       *)
WalkOk(r, k) == LET q == r.in.walks[k]
                    o == r.out.walks[k]
                    w == Segments(r.in.m, q.a, q.b)
                    (* lengths along the flight direction, which may be tilted *)
                    tilt == FSqrt(FAdd(FMul(q.d[1], q.d[1]), FMul(q.d[2], q.d[2])))
                IN  /\ Len(o.d) = Len(w) - 1
                    /\ \A i \in 1..Len(o.d) : FLe(0, o.d[i]) /\ Near(FMul(tilt, o.d[i]), w[i].len)
                    /\ o.r = [i \in 1..(Len(w)-1) |-> w[i+1].reg]
PinVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "refused a valid pin"
   ELSE First([k \in 1..Len(r.in.pts) |-> <<"region of a point", PointOk(r, k)>>]
          \o [k \in 1..Len(r.in.outs) |-> <<"point outside the pin is given a region", OutOk(r, k)>>]
          \o [k \in 1..Len(r.in.ons) |-> <<"region of a point on a boundary with a direction", OnOk(r, k)>>]
          \o [k \in 1..Len(r.in.trs) |-> <<"segments of a track", TrackOk(r, k)>>]
          \o [k \in 1..Len(r.in.walks) |-> <<"flight by distance to the next surface", WalkOk(r, k)>>])
=============================================================================
