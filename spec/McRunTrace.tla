----------------------------- MODULE McRunTrace -----------------------------
(* Runs of the real solver: every history of every cycle is followed with    *)
(* the stream it has to use, and the result file compared with what they     *)
(* score.  A cycle with a history that cannot be followed (see HistoryTrace) *)
(* is judged only by what does not depend on it.  One cycle more than asked  *)
(* for is a known finding and held against the code in one case only.        *)
EXTENDS HistoryTrace
M == INSTANCE McRun
T == INSTANCE Tally
B == INSTANCE Bank
Limbs(n) == <<n % 32768, n \div 32768, 0, 0, 0>>
Follow(r, w, xs, swap, c) ==
   LET bank == r.out.cyc[c].bank IN
   TLCEval([i \in 1..Len(bank) |-> TLCEval(Run(r, w, xs, swap, Start(r, w, [bank[i] EXCEPT !.id = Limbs(M!StreamOf(r.in.np, c, bank[i].id))])))])
Known(h) == h.clear /\ h.n < MaxFlights
AllKnown(hs) == \A i \in 1..Len(hs) : Known(hs[i])
SitesOf(sites, id) == SelectSeq(sites, LAMBDA x : x.id = id)
SitesRight(r, hs, c) ==
   \A i \in 1..Len(hs) : Known(hs[i]) => SameSites(hs[i], [id |-> r.out.cyc[c].bank[i].id, sites |-> SitesOf(r.out.cyc[c].sites, r.out.cyc[c].bank[i].id)])
(* estimates of a cycle                                                      *)
Wt(hs) == FSum([i \in 1..Len(hs) |-> hs[i].w])
Est(hs, F(_)) == FDiv(FSum([i \in 1..Len(hs) |-> FMul(hs[i].w, F(hs[i]))]), Wt(hs))
Ktl(h) == h.ktl
Kcol(h) == h.kcol
PinOf(w, p) == LET c == CellOf(w.ls, p) IN (c[3]*w.ny + c[2])*w.nx + c[1] + 1
CountPins(w, np, bank) == LET at == [i \in 1..Len(bank) |-> PinOf(w, bank[i].p)] IN [k \in 1..np |-> Cardinality({i \in 1..Len(bank) : at[i] = k})]
Tiny6 == FLit("3e-6")
Same(x, y) == FNear(x, y, FInt(1), Tiny6)
Exactly(x, y) == FNear(x, y, FInt(1), FLit("1e-11"))
SameList(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Exactly(a[i], b[i])
Active(r, q) == SubSeq(q, r.in.ni + 1, Len(q))
Mean(q) == FDiv(FSum(q), Len(q))
RunningMeans(q) == [j \in 1..Len(q) |-> Mean(SubSeq(q, 1, j))]
DevsRight(q, dev) ==
   /\ Len(dev) = Len(q)
   /\ \A j \in 2..Len(q) : LET t == [scores |-> SubSeq(q, 1, j), weight |-> FInt(j)] IN
        (~FEq(T!ScalarMean(t), 0)) => FNear(FMul(dev[j], dev[j]), FMax(0, T!ScalarDev2(t)), FInt(1), FLit("1e-9")) \/ (~FFinite(dev[j]) /\ FLe(T!ScalarDev2(t), FLit("1e-9")))
InBox(r, p) == \A k \in Axes3 : FLe(r.in.box[2*k-1], p[k]) /\ FLe(p[k], r.in.box[2*k])
SourceRight(r, q) == InBox(r, q.p) /\ Unit3(q.o) /\ q.g >= 0 /\ q.g < r.in.ng /\ FEq(q.w, 1)
(* results over the active cycles from the followed histories                *)
PerCycle(as, G(_), i, wts) == [c \in 1..Len(as) |-> FDiv(FSum([k \in 1..Len(as[c]) |-> FMul(as[c][k].w, G(as[c][k])[i])]), wts[c])]
Spatial(as, G(_), vol, mean, dev) ==
   LET wts == [c \in 1..Len(as) |-> Wt(as[c])] IN
   \A i \in 1..Len(vol) :
      LET q == PerCycle(as, G, i, wts)  m == Mean(q)
          t == [batches |-> [c \in 1..Len(as) |-> <<q[c]>>]]
      IN /\ Same(FMul(mean[i], vol[i]), m)
         /\ (Len(as) > 1 /\ FLt(FLit("1e-3"), m)) => FNear(FMul(dev[i], dev[i]), T!SpatialDev2(t, 1), FInt(1), FLit("1e-4"))
Rate(r, xs, phi, N(_)) == FSum([g \in 1..r.in.ng |-> FSum([i \in 1..Len(r.out.vol) |-> FMul(FMul(phi[g][i], r.out.vol[i]), N(xs[i])[g])])])
Nf(x) == x.nf
PinsOf(r, w, f) == \A g \in 1..r.in.ng : \A z \in 1..Len(w.base) : \A y \in 1..w.ny : \A x \in 1..w.nx :
      LET b == w.base[z][y][x]  n == NReg(w.mesh[z][y][x])  i == ((z-1)*w.ny + y-1)*w.nx + x
      IN FNear(FMul(f.flux[g][i], r.out.pvol[i]), FSum([k \in 1..n |-> FMul(f.fsr_flux[g][b+k], r.out.vol[b+k])]), FInt(1), FLit("1e-10"))
PowerOf(r, w, xs, f) == [i \in 1..Len(r.out.pvol) |->
      LET j == i - 1  x == (j % w.nx) + 1  y == ((j \div w.nx) % w.ny) + 1  z == (j \div (w.nx * w.ny)) + 1
          b == w.base[z][y][x]  n == NReg(w.mesh[z][y][x])
      IN FDiv(FSum([g \in 1..r.in.ng |-> FSum([k \in 1..n |-> FMul(FMul(f.fsr_flux[g][b+k], r.out.vol[b+k]), xs[b+k].f[g])])]), r.out.pvol[i])]
PowerRight(r, w, xs, f) ==
   LET p == PowerOf(r, w, xs, f)  t == FSum(p)
       m == Cardinality({i \in 1..Len(p) : FLt(0, p[i])})
   IN FEq(t, 0) \/ (Len(f.pin_power) = Len(p) /\ \A i \in 1..Len(p) : FNear(f.pin_power[i], FMul(FDiv(p[i], t), m), FInt(1), FLit("1e-9")))
FileRight(r, w, xs, f) ==
   LET n == Len(r.out.cyc)
       np == Len(r.out.pvol)
   IN First(<< <<"length of the k histories", Len(f.k_history_tl) = n /\ Len(f.k_history_col) = n /\ Len(f.k_history_analog) = n /\ Len(f.h_history) = n>>,
               <<"analog k", \A c \in 1..n : Exactly(f.k_history_analog[c], FDiv(Len(r.out.cyc[c].sites), r.in.np))>>,
               <<"source entropy", \A c \in 1..n : LET cnt == CountPins(w, np, r.out.cyc[c].bank) IN Exactly(f.h_history[c], B!Entropy(cnt, r.in.np))>>,
               <<"mean k over active cycles", /\ SameList(f.k_mean_history_tl, RunningMeans(Active(r, f.k_history_tl)))
                                              /\ SameList(f.k_mean_history_col, RunningMeans(Active(r, f.k_history_col)))
                                              /\ SameList(f.k_mean_history_analog, RunningMeans(Active(r, f.k_history_analog)))>>,
               <<"deviation of k over active cycles", /\ DevsRight(Active(r, f.k_history_tl), f.k_stdev_history_tl)
                                                      /\ DevsRight(Active(r, f.k_history_col), f.k_stdev_history_col)
                                                      /\ DevsRight(Active(r, f.k_history_analog), f.k_stdev_history_analog)>>,
               <<"groups, their bounds or the seed", FEq(f.ng[1], r.in.ng) /\ SameList(f.eubounds, r.out.eub) /\ FEq(f.seed[1], r.in.seed0) >>,
               <<"track length k is not that of the region fluxes", n > r.in.ni => Exactly(Mean(Active(r, f.k_history_tl)), Rate(r, xs, f.fsr_flux, Nf))>>,
               <<"collision k is not that of the region fluxes", n > r.in.ni => Exactly(Mean(Active(r, f.k_history_col)), Rate(r, xs, f.fsr_flux_col, Nf))>>,
               <<"pin fluxes are not those of their regions", n > r.in.ni => PinsOf(r, w, f)>>,
               <<"pin powers", n > r.in.ni => PowerRight(r, w, xs, f)>> >>)
ScoresRight(r, hs, f) ==
   LET n == Len(hs)
       as == SubSeq(hs, r.in.ni + 1, n)
       known == \A c \in 1..Len(as) : AllKnown(as[c])
   IN First(<< <<"track length k of a cycle", \A c \in 1..n : AllKnown(hs[c]) => Same(f.k_history_tl[c], Est(hs[c], Ktl))>>,
               <<"collision k of a cycle", \A c \in 1..n : AllKnown(hs[c]) => Same(f.k_history_col[c], Est(hs[c], Kcol))>>,
               <<"region fluxes over active cycles", (known /\ as # <<>>) => \A g \in 1..r.in.ng : Spatial(as, LAMBDA h : h.fine[g], r.out.vol, f.fsr_flux[g], f.fsr_flux_stdev[g])>>,
               <<"collision fluxes over active cycles", (known /\ as # <<>>) => \A g \in 1..r.in.ng : Spatial(as, LAMBDA h : h.col[g], r.out.vol, f.fsr_flux_col[g], f.fsr_flux_col_stdev[g])>>,
               <<"pin fluxes over active cycles", (known /\ as # <<>>) => \A g \in 1..r.in.ng : Spatial(as, LAMBDA h : h.pin[g], r.out.pvol, f.flux[g], f.flux_stdev[g])>> >>)
Told2(r, w, xs, swap) ==
   LET n == Len(r.out.cyc)
       hs == TLCEval([c \in 1..n |-> Follow(r, w, xs, swap, c)])
   IN IF \E c \in 1..n : ~SitesRight(r, hs[c], c) THEN "sites of a history are not those of its own stream"
      ELSE IF r.out.ended # "" THEN "" ELSE ScoresRight(r, hs, r.out.file)
McRunVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE IF r.out.ended # "" /\ (r.out.cyc = <<>> \/ r.out.cyc[Len(r.out.cyc)].sites # <<>>) THEN "the run fails"
   ELSE IF r.out.ended = "" /\ r.out.cyc = <<>> /\ r.out.file.k_history_tl # <<>> THEN ""      \* cycles not seen
   ELSE IF r.out.ended = "" /\ ~(Len(r.out.cyc) = r.in.n \/ (r.in.strict = 0 /\ Len(r.out.cyc) = r.in.n + 1)) THEN "number of cycles"
   ELSE LET w == TLCEval(World(r))  xs == TLCEval(XsAt(r))  n == Len(r.out.cyc) IN
        IF \E c \in 1..n : Len(r.out.cyc[c].bank) # r.in.np \/ \E i \in 1..r.in.np : r.out.cyc[c].bank[i].id # i - 1 THEN "particles of a cycle"
        ELSE IF \E i \in 1..r.in.np : ~SourceRight(r, r.out.cyc[1].bank[i]) THEN "initial source"
        ELSE LET v == IF r.out.ended # "" THEN "" ELSE FileRight(r, w, xs, r.out.file) IN
             IF v # "" THEN v
             ELSE LET a == Told2(r, w, xs, TRUE) IN IF a = "" THEN "" ELSE IF Told2(r, w, xs, FALSE) = "" THEN "" ELSE a
=============================================================================
