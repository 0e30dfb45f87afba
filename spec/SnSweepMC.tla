----------------------------- MODULE SnSweepMC ------------------------------
(* Small meshes, every direction sign, every scheme.  Cells are swept one at *)
(* a time in any order that respects the wind; whatever the order, the       *)
(* result is that of AngleSweep, every cell balances, and a flux that fills  *)
(* space evenly is left alone.                                               *)
EXTENDS SnSweep, Json
CONSTANT MaxCells
Sizes == {z \in {<<1,1,1>>, <<2,1,1>>, <<2,2,1>>, <<1,2,2>>, <<2,2,2>>} : z[1]*z[2]*z[3] <= MaxCells}
Schemes == {"dd", "dd_ff", "sc", "fw", "pmb"}
Mesh(z, fl) == [nx |-> z[1], ny |-> z[2], nz |-> z[3], flat |-> fl,
   dx |-> SubSeq(<<FRat(1,2), FInt(2), FInt(1)>>, 1, z[1]), dy |-> SubSeq(<<FInt(1), FRat(3,2)>>, 1, z[2]), dz |-> SubSeq(<<FInt(3), FRat(1,4)>>, 1, z[3])]
Ang(s) == [o |-> <<FMul(s[1], FRat(1,2)), FMul(s[2], FRat(1,4)), FMul(s[3], FRat(3,4))>>, w |-> FInt(1)]
VARIABLES m, ax, s, done, st
vars == <<m, ax, s, done, st>>
N == m.nx*m.ny*m.nz
Ps == {<<x, y, z>> : x \in 0..(m.nx-1), y \in 0..(m.ny-1), z \in 0..(m.nz-1)}
Q(k) == [i \in 1..k |-> FRat((i * 5) % 7, 3)]
Tr(k) == [i \in 1..k |-> FRat(1 + ((i * 3) % 4), 2)]
In(mm) == << [i \in 1..(mm.ny*mm.nz) |-> FRat(i, 2)], [i \in 1..(mm.nx*mm.nz) |-> FRat(i+1, 3)], [i \in 1..(mm.nx*mm.ny) |-> FRat(i, 1)] >>
G(i) == <<FRat(2, 5), FRat(1, 2)>>
Init == /\ \E z \in Sizes : \E fl \in (IF z[3] = 1 THEN {0, 1} ELSE {0}) : m = Mesh(z, fl)
        /\ ax \in Schemes /\ s \in {Sign(o) : o \in 0..7} /\ done = {}
        /\ st = [f |-> In(m), psi |-> [i \in 1..(m.nx*m.ny*m.nz) |-> FInt(0)], out |-> [i \in 1..(m.nx*m.ny*m.nz) |-> <<>>], res |-> TRUE]
Before(p, n) == [p EXCEPT ![n] = @ - s[n]]
Ready(p) == \A n \in 1..3 : Before(p, n) \in Ps => Before(p, n) \in done
T(p) == LET t == <<FDiv(FAbs(Ang(s).o[1]), m.dx[p[1]+1]), FDiv(FAbs(Ang(s).o[2]), m.dy[p[2]+1]), FDiv(FAbs(Ang(s).o[3]), m.dz[p[3]+1])>>
        IN IF m.flat = 1 THEN SubSeq(t, 1, 2) ELSE t
Step(p) ==
  LET i == Cell(m, p)  t == T(p)
      f == SubSeq(<<st.f[1][FaceX(m, p)], st.f[2][FaceY(m, p)], st.f[3][FaceZ(m, p)]>>, 1, Len(t))
      c == CellSolve(ax, t, f, Q(N)[i], Tr(N)[i], G(i))
  IN /\ p \notin done /\ Ready(p) /\ done' = done \cup {p}
     /\ st' = [f |-> << [st.f[1] EXCEPT ![FaceX(m, p)] = c.out[1]], [st.f[2] EXCEPT ![FaceY(m, p)] = c.out[2]],
                        IF Len(t) = 2 THEN st.f[3] ELSE [st.f[3] EXCEPT ![FaceZ(m, p)] = c.out[3]] >>,
               psi |-> [st.psi EXCEPT ![i] = c.psi], out |-> [st.out EXCEPT ![i] = c.out],
               res |-> st.res /\ FNear(Residual(t, f, c, Q(N)[i], Tr(N)[i]), 0, FInt(1), FLit("1e-13"))]
     /\ UNCHANGED <<m, ax, s>>
Next == \E p \in Ps : Step(p)
Spec == Init /\ [][Next]_vars
Balanced == st.res
OrderFree == done = Ps => LET r == AngleSweep(m, ax, Ang(s), s, Q(N), Tr(N), In(m), G) IN r.f = st.f /\ r.psi = st.psi /\ r.out = st.out
(* an even flux of source over total stays, for plain diamond radial closure *)
Plain(i) == <<Half, Half>>
Even2 == LET E == <<[i \in 1..(m.ny*m.nz) |-> FInt(2)], [i \in 1..(m.nx*m.nz) |-> FInt(2)], [i \in 1..(m.nx*m.ny) |-> FInt(2)]>>
             r == AngleSweep(m, ax, Ang(s), s, [i \in 1..N |-> FMul(2, Tr(N)[i])], Tr(N), E, Plain)
         IN done = {} => \A i \in 1..N : FNear(r.psi[i], 2, FInt(1), FLit("1e-12"))
=============================================================================
