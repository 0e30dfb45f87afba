------------------------------ MODULE CornerMC -----------------------------
(* Flights without collisions in a core of 2 x 1 pins and one plane that     *)
(* meet corners of pins and of the core exactly.                             *)
EXTENDS History
CONSTANT Depth
VARIABLES s, bc, n, last
vars == <<s, bc, n, last>>
D == [meshes |-> <<[id |-> 2, type |-> "rect", pitch |-> FInt(1), radii |-> <<>>, subr |-> <<>>, azi |-> 0, subx |-> 2, suby |-> 1]>>,
      pins |-> <<[id |-> 2, mesh |-> 2, mats |-> <<1, 1>>]>>,
      lats |-> <<[id |-> 1, nx |-> 2, ny |-> 1, pins |-> <<2, 2>>]>>,
      asys |-> <<[id |-> 1, np |-> 1, hz |-> <<FInt(1)>>, groups |-> <<<<1>>>>]>>,
      core |-> [nx |-> 1, ny |-> 1, asy |-> <<1>>]]
Ls == Lines(D)
Parts == {FRat(1, 4), FRat(1, 2), FRat(3, 4)}
Unit(a, b, c) == LET len == FSqrt(FInt(a*a + b*b + c*c)) IN <<FDiv(FInt(a), len), FDiv(FInt(b), len), FDiv(FInt(c), len)>>
Dirs == {Unit(a, b, c) : a \in {-2, -1, 1}, b \in {-1, 1, 2}, c \in {0, 1}}
Init == /\ s \in {[p |-> <<x, y, FRat(1, 2)>>, c |-> <<0, 0, 0>>, o |-> o, end |-> ""] : x \in Parts, y \in Parts, o \in Dirs}
        /\ bc \in {<<"vacuum", "reflect", "reflect", "reflect", "reflect", "reflect">>, <<"reflect", "vacuum", "reflect", "reflect", "vacuum", "reflect">>}
        /\ n = 0 /\ last = <<>>
Next == /\ s.end = "" /\ n < Depth /\ n' = n + 1 /\ UNCHANGED bc
        /\ LET f == FreeFlight(Ls, bc, s) IN last' = <<s, f.d>> /\ s' = f.s
Spec == Init /\ [][Next]_vars
Stays == InCell(Ls, s) /\ Unit3(s.o)
(* a flight ends where the distance says and turns only where it hits        *)
Straight == last # <<>> => \A k \in Axes3 : FNear(s.p[k], Go(last[1].p, last[1].o, last[2])[k], FInt(1), FLit("1e-12"))
Turns == last # <<>> => \A k \in Axes3 : \/ s.o[k] = last[1].o[k]
                                         \/ FEq(s.o[k], FNeg(last[1].o[k])) /\ Outside(Ls, last[1].c, k, last[1].o[k])
                                            /\ bc[FaceOf(k, last[1].o[k])] = "reflect" /\ FEq(s.p[k], OnFace(Ls, last[1].c, k, last[1].o[k]))
Leaks == s.end = "leak" => \E k \in Axes3 : bc[FaceOf(k, last[1].o[k])] = "vacuum" /\ Outside(Ls, last[1].c, k, last[1].o[k])
(* the cell is the one ahead of the particle                                 *)
Ahead1 == s.end = "" => \A k \in Axes3 : FLt(0, s.o[k]) => FLt(s.p[k], FSub(Ls[k][s.c[k]+2], FLit("1e-9")))
Behind1 == s.end = "" => \A k \in Axes3 : FLt(s.o[k], 0) => FLt(FAdd(Ls[k][s.c[k]+1], FLit("1e-9")), s.p[k])
=============================================================================
