----------------------------- MODULE PowerIterMC ----------------------------
(* All convergence histories of bounded length, and power iteration on a      *)
(* uniform medium carried along with one of them.                             *)
EXTENDS PowerIter, TLC, Json
CONSTANTS MaxIter, Deep
R(a, b) == FRat(a, b)
X == [tr |-> <<R(5,10), R(9,10)>>, nf |-> <<R(2,100), R(30,100)>>, ch |-> <<R(1,1), R(0,1)>>,
      sc |-> << <<R(40,100), R(1,100)>>, <<R(6,100), R(75,100)>> >>]
None == <<FInt(0), FInt(0)>>
VARIABLES min, max, n, hist, status, k, phi
vars == <<min, max, n, hist, status, k, phi>>
Init == /\ max \in 0..MaxIter /\ min \in 0..max
        /\ n = 0 /\ hist = <<>> /\ status = IF max = 0 THEN "limit" ELSE "run"
        /\ k = FInt(1) /\ phi = <<FInt(1), FInt(1)>>
(* the two sweeps of an iteration use the fission source of its start         *)
Swept == LET fs == FDot(X.nf, phi)
             src(g, p) == FDiv(FAdd(FMul(X.ch[g], FDiv(fs, k)), FMul(X.sc[g][3-g], p[3-g])), FSub(X.tr[g], X.sc[g][g]))
             a == [phi EXCEPT ![1] = src(1, phi)]
         IN [a EXCEPT ![2] = src(2, a)]
Iterate == \E a, b \in {0, 1} :
   LET new == Swept IN
   /\ status = "run" /\ n < max
   /\ n' = n + 1 /\ hist' = Append(hist, <<a, b>>)
   /\ phi' = new /\ k' = NewK(k, FDot(X.nf, phi), FDot(X.nf, new))
   /\ status' = IF a = 1 /\ b = 1 /\ n + 1 >= min THEN "converged"
                ELSE IF n + 1 = max THEN "limit" ELSE "run"
   /\ UNCHANGED <<min, max>>
Next == Iterate
Spec == Init /\ [][Next]_vars
Oks == [i \in 1..Len(hist) |-> hist[i] = <<1, 1>>]
(* the state machine and the closed form of the stopping rule agree            *)
Agrees == status # "run" => /\ n = Count(0, Oks, min, max)
                            /\ (status = "converged") = Converged(n, Oks, min)
OneEntry == Len(hist) = n
Early == status = "run" => \A i \in 1..n : ~(Oks[i] /\ i >= min)
NotBeyond == n <= max
Enough == status # "run" => n >= min
(* power iteration leads to the fundamental mode of the medium                *)
RECURSIVE Power(_, _, _)
Power(j, kk, p) == IF j = 0 THEN <<kk, p>>
   ELSE LET fs == FDot(X.nf, p)
            src(g, q) == FDiv(FAdd(FMul(X.ch[g], FDiv(fs, kk)), FMul(X.sc[g][3-g], q[3-g])), FSub(X.tr[g], X.sc[g][g]))
            a == [p EXCEPT ![1] = src(1, p)]
            b == [a EXCEPT ![2] = src(2, a)]
        IN Power(j-1, NewK(kk, FDot(X.nf, p), FDot(X.nf, b)), b)
ASSUME LET e == Power(Deep, FInt(1), <<FInt(1), FInt(1)>>) IN Balanced(X, e[1], None, e[2], FLit("1e-10"))
ASSUME ~Balanced(X, FInt(1), None, <<FInt(1), FInt(1)>>, FLit("1e-3"))
Emit == status # "run" => PrintT("GEN " \o ToJson(<<min, max, hist>>))
=============================================================================
