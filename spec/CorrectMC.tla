------------------------------ MODULE CorrectMC -----------------------------
(* (a) A cell whose means, sides and collisions are those of a plane is      *)
(* given back exactly by the corrected equations with these factors.         *)
(* (b) Leakages of the plane groups add up to the net current through the    *)
(* core, and relaxation tends to the unrelaxed value.                        *)
(* (c) Files laid over the planes one after another; every choice is also    *)
(* given to the real reader.                                                 *)
EXTENDS Correct, TLC, Json
CONSTANTS Planes, MaxFiles
VARIABLES part, cell, tl, k, files
vars == <<part, cell, tl, k, files>>
Nums == {FRat(1, 4), FInt(1), FRat(7, 2)}
Jz == <<FRat(1, 2), FRat(-3, 4), FInt(2), FRat(1, 8)>>
Hs == <<FRat(3, 2), FInt(4), FRat(1, 3)>>
Relax == {FRat(1, 3), FInt(1), FRat(4, 5)}
Range2 == {<<lo, hi>> : lo \in 0..(Planes-1), hi \in 0..Planes}
NoCell == [ix |-> FInt(0), ox |-> FInt(0), iy |-> FInt(0), oy |-> FInt(0), m |-> FInt(0), b |-> FInt(0)]
Init == \/ /\ part = "cell" /\ tl = <<>> /\ k = 0 /\ files = <<>>
           /\ cell \in [ix : Nums, ox : Nums, iy : Nums, oy : Nums, m : Nums, b : {FRat(9, 10), FRat(6, 5)}]
        \/ part = "leak" /\ cell = NoCell /\ files = <<>> /\ k = 0 /\ tl \in {[r |-> r, v |-> [p \in 1..3 |-> FInt(0)]] : r \in Relax}
        \/ part = "file" /\ cell = NoCell /\ files = <<>> /\ k = 0 /\ tl = <<>>
LeakAll(v, r) == [p \in 1..3 |-> Leak(<<v[p]>>, r, <<Jz[p]>>, <<Jz[p+1]>>, Hs[p])[1]]
Next == \/ part = "leak" /\ k < 40 /\ k' = k + 1 /\ tl' = [tl EXCEPT !.v = LeakAll(@, tl.r)] /\ UNCHANGED <<part, cell, files>>
        \/ /\ part = "file" /\ Len(files) < MaxFiles
           /\ \E q \in Range2, n \in 1..Planes : q[1] <= q[2] /\ files' = Append(files, [lo |-> q[1], hi |-> q[2], n |-> n, id |-> Len(files) + 1])
           /\ UNCHANGED <<part, cell, tl, k>>
Spec == Init /\ [][Next]_vars
(* the corrected equations in a plane                                        *)
Tx == FRat(3, 4)  Ty == FRat(5, 4)  Xs == FRat(8, 5)
Cdd(q, ix, iy, ax, ay, b) ==
   LET gx == FMul(ax, b)  gy == FMul(ay, b)
       psi == FDiv(FAdd(q, FMul(2, FAdd(FMul(Tx, ix), FMul(Ty, iy)))), FSum(<<FDiv(Tx, gx), FDiv(Ty, gy), Xs>>))
   IN <<psi, FSub(FDiv(psi, gx), ix), FSub(FDiv(psi, gy), iy)>>
Near(x, y) == FNear(x, y, FInt(1), FLit("1e-11"))
GivenBack == part = "cell" =>
   LET c == cell
       q == FSum(<<FMul(Tx, FSub(c.ox, c.ix)), FMul(Ty, FSub(c.oy, c.iy)), FMul(Xs, FMul(c.b, c.m))>>)
       e == Cdd(q, c.ix, c.iy, FDiv(c.m, FAdd(c.ix, c.ox)), FDiv(c.m, FAdd(c.iy, c.oy)), c.b)
   IN Near(e[1], FMul(c.b, c.m)) /\ Near(e[2], c.ox) /\ Near(e[3], c.oy)
Adds == part = "leak" /\ ((tl.r = FInt(1) /\ k > 0) \/ k = 40) =>
           FNear(FSum([p \in 1..3 |-> FMul(Hs[p], tl.v[p])]), FSub(Jz[1], Jz[4]), FInt(1), IF tl.r = FInt(1) THEN FLit("1e-12") ELSE FLit("1e-6"))
Laid == part = "file" => LET w == Read(Planes, files) IN
   w # <<>> => \A p \in 1..Planes : IF w[p][1] = 0 THEN \A j \in 1..Len(files) : ~(files[j].lo <= p-1 /\ p-1 <= files[j].hi)
                                    ELSE LET f == files[w[p][1]] IN f.lo <= p-1 /\ p-1 <= f.hi /\ w[p][2] \in 0..(f.n-1)
Emit == part = "file" /\ files # <<>> => PrintT("GEN " \o ToJson(files))
=============================================================================
