------------------------------- MODULE CmfdMC -------------------------------
(* Two columns of three planes with every grouping: a transport state gives   *)
(* currents, the coupled system is set up, solved to any flux, and the        *)
(* currents are put back on the fine mesh.                                    *)
EXTENDS Cmfd, TLC
CONSTANTS Full
R(a, b) == FRat(a, b)
Groupings == {<<1,2,3>>, <<1,1,2>>, <<1,2,2>>, <<1,1,1>>}
Bcs == {<<"reflect","reflect","reflect","reflect","vacuum","reflect">>, <<"vacuum","reflect","reflect","vacuum","vacuum","vacuum">>}
Mesh(g, b) == [nx |-> 2, ny |-> 1, dx |-> <<R(1,1), R(3,2)>>, dy |-> <<R(2,1)>>, hz |-> <<R(1,1), R(2,1), R(1,2)>>, grp |-> g, bc |-> b]
Js == IF Full = 1 THEN {R(-1,4), R(0,1), R(1,2)} ELSE {R(-1,4), R(1,2)}
Phis == {R(1,1), R(3,1)}
VARIABLES p, stage, j, phi, jc, h
vars == <<p, stage, j, phi, jc, h>>
D(q) == [c \in 1..CoarseN(q) |-> IF c % 2 = 1 THEN R(1,2) ELSE R(4,5)]
Rm(q) == [c \in 1..CoarseN(q) |-> IF c % 2 = 1 THEN R(1,10) ELSE R(3,10)]
On == <<1,1,1,1,1,1>>
(* currents: one number per internal face of each plane, one per level and    *)
(* column, one for the outer sides                                            *)
Table(q, xs, zs, o) == [f \in 1..6 |->
   LET x == (f-1) % 2  z == (f-1) \div 2 IN
   <<IF x = 0 THEN xs[z+1] ELSE (IF q.bc[1] = "vacuum" THEN o ELSE FInt(0)), FInt(0),
     IF x = 1 THEN xs[z+1] ELSE FInt(0), (IF q.bc[4] = "vacuum" THEN FNeg(o) ELSE FInt(0)),
     IF z = 2 /\ q.bc[5] # "vacuum" THEN FInt(0) ELSE zs[z+2], IF z = 0 /\ q.bc[6] # "vacuum" THEN FInt(0) ELSE zs[z+1]>>]
Init == \E g \in Groupings, b \in Bcs :
   /\ p = Mesh(g, b) /\ stage = "start" /\ j = <<>> /\ phi = <<>> /\ jc = <<>> /\ h = <<>>
Transport == /\ stage = "start" /\ stage' = "transport"
             /\ \E xs \in [1..3 -> Js], zs \in [1..4 -> Js], a \in Phis, c \in (IF Full = 1 THEN Phis ELSE {R(3,1)}) :
                  /\ j' = Table(p, xs, zs, R(1,8))
                  /\ phi' = [i \in 1..CoarseN(p) |-> IF i % 2 = 1 THEN a ELSE c]
             /\ UNCHANGED <<p, jc, h>>
Setup == /\ stage = "transport" /\ stage' = "system"
         /\ jc' = ToCoarse(p, j) /\ h' = Hats(p, D(p), ToCoarse(p, j), phi, On)
         /\ UNCHANGED <<p, j, phi>>
Solve == /\ stage = "system" /\ stage' = "solved"
         /\ \E a \in {R(2,1)}, c \in {1, CoarseN(p)} : phi' = [phi EXCEPT ![c] = a]
         /\ UNCHANGED <<p, j, jc, h>>
(* put back: side currents to each plane of the group, the others to the ends *)
Put(q, out) == [f \in 1..FineN(q) |-> LET z == Zof(q, f) + 1  c == At(q, Xof(q, f), Yof(q, f), q.grp[z] - 1) IN
   [b \in Sides |-> IF b = 5 /\ z # Highest(PlanesOf(q, q.grp[z])) THEN FInt(0)
                    ELSE IF b = 6 /\ z # Lowest(PlanesOf(q, q.grp[z])) THEN FInt(0) ELSE FMul(Sgn(b), out[c][b])]]
Outs == [c \in 1..CoarseN(p) |-> [b \in Sides |-> Outward(p, D(p), h, phi, c, b)]]
Store == /\ stage = "solved" /\ stage' = "stored"
         /\ j' = Put(p, Outs) /\ UNCHANGED <<p, phi, jc, h>>
Again == /\ stage = "stored" /\ stage' = "again"
         /\ jc' = ToCoarse(p, j) /\ h' = Hats(p, D(p), ToCoarse(p, j), phi, On) /\ UNCHANGED <<p, j, phi>>
Next == Transport \/ Setup \/ Solve \/ Store \/ Again
Spec == Init /\ [][Next]_vars
Tol == FLit("1e-12")
N == 1..CoarseN(p)
Built == stage \in {"system", "solved", "stored", "again"}
(* the system reproduces the currents it is built from                        *)
Reproduces == stage \in {"system", "again"} => \A c \in N : \A b \in Sides : FNear(Outward(p, D(p), h, phi, c, b), FMul(Sgn(b), jc[c][b]), 1, Tol)
(* what leaves a cell enters its neighbour                                    *)
OneCurrent == Built => \A c \in N : \A b \in Sides : Nb(p, c, b) > 0 =>
   FNear(Outward(p, D(p), h, phi, c, b), FNeg(Outward(p, D(p), h, phi, Nb(p, c, b), Opp(b))), 1, Tol)
(* a row of the operator is the balance of a cell                             *)
RowsBalance == Built => \A c \in N : FNear(Row(p, D(p), Rm(p), h, phi, c), Losses(p, Rm(p), Outs, phi, c), 1, Tol)
(* grouping keeps the number of neutrons through every coarse face            *)
GroupKeeps == stage = "system" => \A c \in N : \A b \in 1..4 :
   FNear(FMul(Area(p, c, b), jc[c][b]),
         FSum([z \in 1..3 |-> IF z \in PlanesOf(p, Zof(p, c) + 1)
              THEN FMul(FMul(p.hz[z], Thick(p, c, IF b \in {1,3} THEN 2 ELSE 1)), j[At(p, Xof(p, c), Yof(p, c), z-1)][b]) ELSE FInt(0)]), 1, Tol)
(* currents put back and grouped again are those of the solved system         *)
PutKeeps == stage = "again" => \A c \in N : \A b \in Sides : FNear(Outward(p, D(p), h, phi, c, b), FMul(Sgn(b), jc[c][b]), 1, Tol)
(* only the outer sides lose neutrons from the whole                          *)
Conserves == Built => FNear(FSum([c \in N |-> FSum([b \in Sides |-> FMul(Area(p, c, b), Outs[c][b])])]),
                   FSum([c \in N |-> FSum([b \in Sides |-> IF Nb(p, c, b) > 0 THEN FInt(0) ELSE FMul(Area(p, c, b), Outs[c][b])])]), 1, Tol)
=============================================================================
