------------------------------ MODULE LayoutMC ------------------------------
(* Building a core from its description, one pin at a time in input order.   *)
(* The writer walks through the core from the top north-west corner; the     *)
(* meaning given by Layout must place every written pin at the position the  *)
(* walk is at.  Checked for all shapes up to the bound.                      *)
EXTENDS Layout, TLC, Json
CONSTANTS MaxPins, MaxAsy, MaxZ
VARIABLES shape, d, walk
vars == <<shape, d, walk>>
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Comps(n-k)} : k \in 1..n}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Shapes == [cols : SeqsUpTo(1..MaxPins, MaxAsy), rows : SeqsUpTo(1..MaxPins, MaxAsy),
           groups : UNION {Comps(n) : n \in 1..MaxZ}]
(* every lattice and every pin distinct: the id encodes the position         *)
PinId(ix, iy, iz) == (iz*100 + iy*10 + ix) + 1
Desc(s) ==
  LET nz == SumSeq(s.groups)
      nax == Len(s.cols)  nay == Len(s.rows)
      xb(ax) == SumSeq(SubSeq(s.cols, 1, ax))   yb(ay) == SumSeq(SubSeq(s.rows, 1, ay))
      lid(ax, ay, iz) == (iz*nay + ay)*nax + ax + 1
      lat(ax, ay, iz) == [id |-> lid(ax, ay, iz), nx |-> s.cols[ax+1], ny |-> s.rows[ay+1],
          pins |-> FlatSeq([k \in 1..s.rows[ay+1] |-> [j \in 1..s.cols[ax+1] |->
                       PinId(xb(ax)+j-1, yb(ay)+s.rows[ay+1]-k, iz)]])]
      lats == FlatSeq(FlatSeq([iz \in 1..nz |-> [ay \in 1..nay |-> [ax \in 1..nax |-> lat(ax-1, ay-1, iz-1)]]]))
      (* planes top first, grouped *)
      top(ax, ay) == [k \in 1..nz |-> lid(ax, ay, nz-k)]
      gr == Reverse(s.groups)
      grp(ax, ay) == [g \in 1..Len(gr) |-> SubSeq(top(ax, ay), SumSeq(SubSeq(gr, 1, g-1))+1, SumSeq(SubSeq(gr, 1, g)))]
      asys == FlatSeq([ay \in 1..nay |-> [ax \in 1..nax |->
                 [id |-> (ay-1)*nax+ax, np |-> nz, hz |-> [k \in 1..nz |-> nz-k+1], groups |-> grp(ax-1, ay-1)]]])
  IN [meshes |-> <<[id |-> 1, type |-> "rect", pitch |-> 1, subx |-> 1, suby |-> 2, radii |-> <<>>, subr |-> <<>>, azi |-> 1]>>,
      pins |-> FlatSeq(FlatSeq([iz \in 1..nz |-> [iy \in 1..SumSeq(s.rows) |-> [ix \in 1..SumSeq(s.cols) |->
                   [id |-> PinId(ix-1, iy-1, iz-1), mesh |-> 1, mats |-> <<1, 1>>]]]])),
      lats |-> lats, asys |-> asys,
      core |-> [nx |-> nax, ny |-> nay, asy |-> [k \in 1..(nax*nay) |->
                   (nay-1-((k-1) \div nax))*nax + ((k-1) % nax) + 1]]]
Init == /\ shape \in Shapes /\ d = Desc(shape) /\ walk = 0
Total == NX(d)*NY(d)*NZ(d)
Next == walk < Total - 1 /\ walk' = walk + 1 /\ UNCHANGED <<shape, d>>
Spec == Init /\ [][Next]_vars
(* the position the walk is at, in the program's pin order *)
Pos == LET o == PlaneOrder(d)[(walk % (NX(d)*NY(d))) + 1] IN <<o[1], o[2], walk \div (NX(d)*NY(d))>>
RightPin == PinAt(d, Pos[1], Pos[2], Pos[3]).id = PinId(Pos[1], Pos[2], Pos[3])
OrderIsPermutation == walk = 0 => {PlaneOrder(d)[k] : k \in 1..(NX(d)*NY(d))} = (0..(NX(d)-1)) \X (0..(NY(d)-1))
GroupsCover == walk = 0 => SumSeq(Groups(d)) = NZ(d) /\ Groups(d) = shape.groups
HeightsUp == walk = 0 => Heights(d) = [k \in 1..NZ(d) |-> k]
Emit == walk = 0 => PrintT("GEN " \o ToJson(shape))
=============================================================================
