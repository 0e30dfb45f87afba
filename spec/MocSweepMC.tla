----------------------------- MODULE MocSweepMC -----------------------------
(* One ray followed segment by segment in both directions, for every choice  *)
(* of up to MaxSeg segments.  Nothing is lost: what enters less what leaves  *)
(* is what the regions took; the flux stays between entering flux and        *)
(* source; a flux equal to the source is left alone; a ray cut in two gives  *)
(* the same as the whole.                                                    *)
EXTENDS MocSweep
CONSTANT MaxSeg
VARIABLES ray, p0, back
vars == <<ray, p0, back>>
Q == <<Exact(FInt(1)), Exact(FRat(1, 3)), Exact(FInt(0))>>
Tr == <<FRat(1, 2), FInt(2), FInt(15)>>
Lens == {FRat(1, 1000), FRat(1, 2), FInt(3)}
Init == ray = [l |-> <<>>, i |-> <<>>, b |-> <<0, 0>>] /\ p0 \in {FInt(0), FInt(1), FRat(5, 2)} /\ back \in BOOLEAN
Next == /\ Len(ray.l) < MaxSeg
        /\ \E l \in Lens, i \in 0..2 : ray' = [ray EXCEPT !.l = Append(@, l), !.i = Append(@, i)]
        /\ UNCHANGED <<p0, back>>
Spec == Init /\ [][Next]_vars
N == Len(ray.l)
Zero == [i \in 1..3 |-> Exact(FInt(0))]
F(r, ks, p) == Follow(r, ks, p, Q, Tr, 0, FRat(5, 4), FInt(1), Zero)
Whole == F(ray, IF back THEN Down(N) ELSE Up(N), Exact(p0))
Near(x, y) == FNear(x, y, FInt(1), FLit("1e-13"))
Conserved == LET w == Whole IN Near(FSub(p0, V(w.p)), FSum([i \in 1..3 |-> V(w.acc[i])]))
Bounded == LET w == Whole
               lo == FMin(p0, FInt(0))  hi == FMax(p0, FInt(1))
           IN FLe(lo, V(w.p)) /\ FLe(V(w.p), hi) /\ FLe(D(w.p), FMul(FMul(Eps, FRat(5, 2)), N))
Kept == \A i \in 1..3 : LET f == Follow([ray EXCEPT !.i = [k \in 1..N |-> i-1]], Up(N), Q[i], Q, Tr, 0, FInt(1), FInt(1), Zero)
                        IN V(f.p) = V(Q[i]) /\ V(f.acc[i]) = FInt(0)
Cut == N >= 2 => LET a == F(ray, Up(N-1), Exact(p0))
                     b == F(ray, <<N>>, a.p) IN Near(V(b.p), V(F(ray, Up(N), Exact(p0)).p))
=============================================================================
