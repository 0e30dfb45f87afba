------------------------------ MODULE HistoryMC -----------------------------
(* Histories in a core of 2 x 1 pins and 2 planes, one pin round and one     *)
(* with a grid, with collision distances, new directions and reactions       *)
(* chosen freely from small sets.                                            *)
EXTENDS History
CONSTANT Depth
VARIABLES s, bc, n, flown, last
vars == <<s, bc, n, flown, last>>
D == [meshes |-> <<[id |-> 1, type |-> "cyl", pitch |-> FInt(1), radii |-> <<FRat(3, 10)>>, subr |-> <<1>>, azi |-> 4, subx |-> 0, suby |-> 0],
                   [id |-> 2, type |-> "rect", pitch |-> FInt(1), radii |-> <<>>, subr |-> <<>>, azi |-> 0, subx |-> 2, suby |-> 1]>>,
      pins |-> <<[id |-> 1, mesh |-> 1, mats |-> <<1, 1>>], [id |-> 2, mesh |-> 2, mats |-> <<1, 1>>]>>,
      lats |-> <<[id |-> 1, nx |-> 2, ny |-> 1, pins |-> <<1, 2>>]>>,
      asys |-> <<[id |-> 1, np |-> 2, hz |-> <<FInt(1), FRat(1, 2)>>, groups |-> <<<<1>>, <<1>>>>]>>,
      core |-> [nx |-> 1, ny |-> 1, asy |-> <<1>>]]
Ls == Lines(D)
Dirs == {<<FRat(3, 5), FRat(16, 25), FRat(12, 25)>>, <<FRat(-4, 5), FRat(9, 25), FRat(12, 25)>>, <<FRat(2, 3), FRat(-1, 3), FRat(-2, 3)>>, <<FInt(1), FInt(0), FInt(0)>>}
Far == {FRat(1, 7), FRat(6, 5), FInt(9)}
Init == /\ s \in {[p |-> <<FRat(1, 5), FRat(9, 20), FRat(1, 3)>>, c |-> <<0, 0, 0>>, o |-> o, end |-> ""] : o \in Dirs}
        /\ bc \in {<<"vacuum", "reflect", "reflect", "reflect", "vacuum", "reflect">>, <<"reflect", "vacuum", "vacuum", "reflect", "reflect", "vacuum">>}
        /\ n = 0 /\ flown = FInt(0) /\ last = <<>>
Mesh == MeshOf(D, PinAt(D, s.c[1], s.c[2], s.c[3]))
Collide(d, o, what) == s' = [s EXCEPT !.p = Go(@, s.o, d), !.o = o, !.end = what]
Next == /\ s.end = "" /\ n < Depth /\ n' = n + 1 /\ UNCHANGED bc
        /\ LET f == NextSurface(Ls, Mesh, s) IN
           \E x \in Far :
             /\ flown' = FAdd(flown, FMin(x, f.d))
             /\ last' = <<s.p, s.c, f, FMin(x, f.d)>>
             /\ IF FLt(x, f.d) THEN \/ \E o \in Dirs : Collide(x, o, "")
                                    \/ Collide(x, s.o, "capture")
                                    \/ Collide(x, s.o, "fission")
                ELSE IF f.ax = 0 THEN s' = [s EXCEPT !.p = Go(@, s.o, f.d)]
                ELSE s' = Across(Ls, bc, s, f.ax, f.d)
Spec == Init /\ [][Next]_vars
Stays == InCell(Ls, s) /\ Unit3(s.o)
Ends == s.end # "" => s.end \in {"leak", "capture", "fission"}
(* a leaking particle is on a vacuum side of the core                        *)
Leaks == s.end = "leak" => \E ax \in Axes3 : bc[FaceOf(ax, s.o[ax])] = "vacuum" /\ Outside(Ls, s.c, ax, s.o[ax]) /\ FEq(s.p[ax], OnFace(Ls, s.c, ax, s.o[ax]))
(* flights are straight and as long as scored, in one region                 *)
Straight == last # <<>> =>
   LET a == last[1]  c == last[2]
       len == FSqrt(FSum([k \in Axes3 |-> LET u == FSub(s.p[k], a[k]) IN FMul(u, u)]))
       m == MeshOf(D, PinAt(D, c[1], c[2], c[3]))
       ctr == Centre(Ls, c)
       At(t) == RegionAt(m, FSub(FAdd(a[1], FMul(t, FSub(s.p[1], a[1]))), ctr[1]), FSub(FAdd(a[2], FMul(t, FSub(s.p[2], a[2]))), ctr[2]))
   IN FNear(len, last[4], FInt(1), FLit("1e-12")) /\ \A i \in 1..9 : last[3].clear => At(FRat(i, 10)) = last[3].reg
Forward == last # <<>> => FLe(0, last[4])
=============================================================================
