---------------------------- MODULE BoundaryTrace ---------------------------
(* A record is a sequence of updates with the complete incoming fluxes after *)
(* each; every step must be a step of the specification.                     *)
EXTENDS TraceCases, Boundary
Step(r, cur, k) ==
   LET op == r.in.ops[k]  out == op.out
   IN  [cur EXCEPT ![op.g+1] = IF op.angle < 0 THEN UpdateAll(r.in.bc, r.in.nd, cur[op.g+1], out)
                               ELSE UpdateAngle(r.in.bc, r.in.nd, op.angle, cur[op.g+1], out)]
RECURSIVE Walk(_, _, _)
Walk(r, cur, k) ==
   IF k > Len(r.in.ops) THEN ""
   ELSE LET nxt == Step(r, cur, k) IN
        IF r.out.after[k] = nxt THEN Walk(r, nxt, k+1)
        ELSE LET bad == CHOOSE x \in {<<g, a, n>> : g \in 1..Len(cur), a \in 1..Len(cur[1]), n \in 1..3} :
                          r.out.after[k][x[1]][x[2]][x[3]] # nxt[x[1]][x[2]][x[3]]
             IN IF bad[1] # r.in.ops[k].g + 1 THEN "another group was touched"
                ELSE LET t == r.in.bc[Entry(bad[2]-1, r.in.nd, bad[3])+1] IN
                     IF nxt[bad[1]][bad[2]][bad[3]] = cur[bad[1]][bad[2]][bad[3]]
                     THEN "a face that should keep its flux changed (" \o t \o ")"
                     ELSE "wrong incoming flux on a side with condition " \o t
InitOk(r) ==
  \A g \in 1..Len(r.out.init) : \A a \in 1..Len(r.out.init[1]) : \A n \in 1..3 : \A i \in DOMAIN r.out.init[g][a][n] :
     LET t == r.in.bc[Entry(a-1, r.in.nd, n)+1]  v == r.out.init[g][a][n][i] IN
     CASE t = "vacuum" -> FEq(v, 0)
       [] t = "reflect" -> FEq(v, r.in.val)
       [] OTHER -> FLt(0, v)
BndVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE IF r.out.start # r.in.start THEN "faces are stored over each other"
   ELSE IF r.out.whole # 1 THEN "the faces of an angle are not stored together"
   ELSE LET w == Walk(r, r.in.start, 1) IN
   IF w # "" THEN w ELSE IF InitOk(r) THEN "" ELSE "initial fluxes do not suit the boundary conditions"
=============================================================================
