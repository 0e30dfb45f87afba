------------------------------ MODULE Boundary ------------------------------
(* Exchange of angular flux at the sides of the domain.                      *)
(* size[a+1][n] is the number of slots of angle a on faces normal to n.      *)
(* bc[s+1] is the condition on side s (0 east 1 north 2 west 3 south 4 top   *)
(* 5 bottom): "vacuum", "reflect" or "prescribed".                           *)
(* inc[g][a+1][n][i] is the incoming flux, out[a+1][n][i] the outgoing one.  *)
EXTENDS AngQuad, SequencesExt
(* the side through which a direction enters                                 *)
EntrySide(s, n) == CASE n = 1 -> (IF s[1] = 1 THEN 2 ELSE 0)
                     [] n = 2 -> (IF s[2] = 1 THEN 3 ELSE 1)
                     [] n = 3 -> (IF s[3] = 1 THEN 5 ELSE 4)
Entry(a, nd, n) == EntrySide(Sign(Oct(a, nd)), n)
(* new incoming face of angle b after an update from outgoing angle a        *)
NewFace(bc, nd, b, n, a, old, outf) ==
   IF old = <<>> \/ b # Reflect(a, nd, n) THEN old
   ELSE CASE bc[Entry(b, nd, n)+1] = "vacuum" -> [i \in DOMAIN old |-> FInt(0)]
          [] bc[Entry(b, nd, n)+1] = "reflect" -> outf
          [] OTHER -> old
UpdateAngle(bc, nd, a, incg, out) ==
   [b1 \in DOMAIN incg |-> [n \in 1..3 |-> NewFace(bc, nd, b1-1, n, a, incg[b1][n], out[a+1][n])]]
UpdateAll(bc, nd, incg, out) ==
   [b1 \in DOMAIN incg |-> [n \in 1..3 |-> IF incg[b1][n] = <<>> THEN <<>> ELSE
       LET a == Reflect(b1-1, nd, n) IN NewFace(bc, nd, b1-1, n, a, incg[b1][n], out[a+1][n])]]
=============================================================================
