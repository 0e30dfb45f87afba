---------------------------- MODULE HistoryTrace ----------------------------
(* Histories of the real code, followed step by step with the numbers of     *)
(* their own stream.  Histories that come within rounding of a tie (a corner,*)
(* a boundary at the collision point) are not judged from there on.          *)
EXTENDS TraceCases, History
R == INSTANCE Lcg WITH Bits <- 63, LimbBits <- 15, Mul <- <<10277, 18716, 29923, 14220, 2>>, Add <- <<1, 0, 0, 0, 0>>
Stride == <<10000, 0, 0, 0, 0>>
Draw(x, n) == R!Unit(R!StepN(x, n))
MaxFlights == 400
(* what does not change: lines, meshes and first regions of the cells        *)
World(r) ==
   LET d == r.in.d
       nx == NX(d)  ny == NY(d)
       order == PlaneOrder(d)
       CellMesh == [z \in 1..NZ(d) |-> [y \in 1..ny |-> [x \in 1..nx |-> MeshOf(d, PinAt(d, x-1, y-1, z-1))]]]
       Size(z, i) == NReg(CellMesh[z][order[i][2]+1][order[i][1]+1])
       PlaneSize(z) == SumSeq([i \in 1..Len(order) |-> Size(z, i)])
       Below == [z \in 1..NZ(d) |-> SumSeq([k \in 1..(z-1) |-> PlaneSize(k)])]
       Pos == [y \in 1..ny |-> [x \in 1..nx |-> CHOOSE i \in 1..Len(order) : order[i] = <<x-1, y-1>>]]
   IN [ls |-> Lines(d), mesh |-> CellMesh, nx |-> nx, ny |-> ny,
       base |-> [z \in 1..NZ(d) |-> [y \in 1..ny |-> [x \in 1..nx |-> Below[z] + SumSeq([i \in 1..(Pos[y][x]-1) |-> Size(z, i)])]]]]
XsAt(r) == LET n == Len(r.out.vol)  own == [i \in 1..n |-> CHOOSE k \in 1..Len(r.out.xs) : \E j \in 1..Len(r.out.xs[k].reg) : r.out.xs[k].reg[j] = i - 1]
           IN [i \in 1..n |-> r.out.xs[own[i]]]
CellOf(ls, p) == [k \in Axes3 |-> CHOOSE i \in 0..(Len(ls[k])-2) : FLt(ls[k][i+1], p[k]) /\ FLt(p[k], ls[k][i+2])]
ScOf(x, ng, to, from) == x.sc[(to-1)*ng + from]
Out(x, ng, g) == FSum([h \in 1..ng |-> ScOf(x, ng, h, g)])
Bump(f, i, v) == [f EXCEPT ![i] = FAdd(@, v)]
Two(x, swap) == IF swap THEN Isotropic(Draw(x, 2), Draw(x, 1)) ELSE Isotropic(Draw(x, 1), Draw(x, 2))
RECURSIVE Sites(_, _, _, _, _)
Sites(x, n, w, swap, acc) ==      \* fission neutrons one after another
   IF n = 0 THEN acc
   ELSE LET u == Draw(x, 1) IN
        Sites(R!StepN(x, 3), n-1, w, swap, [acc EXCEPT !.s = Append(@, [g |-> Choose(w, u), o |-> Two(R!Step(x), swap)]), !.clear = @ /\ ClearOf(w, u)])
(* one flight of history h                                                   *)
Flight(r, w, xs, swap, h) ==
   LET s == h.s  ng == r.in.ng
       f == NextSurface(w.ls, w.mesh[s.c[3]+1][s.c[2]+1][s.c[1]+1], s)
       reg == w.base[s.c[3]+1][s.c[2]+1][s.c[1]+1] + f.reg + 1
       pin == (s.c[3]*w.ny + s.c[2])*w.nx + s.c[1] + 1
       x == xs[reg]  g == s.g
       u == Draw(h.x, 1)
       dc == FDiv(FNeg(FLog(u)), x.tr[g])
       tl == FMin(dc, f.d)
       h1 == [h EXCEPT !.n = @ + 1, !.fine[g] = Bump(@, reg, tl), !.pin[g] = Bump(@, pin, tl), !.pow = Bump(@, pin, FMul(tl, x.f[g])),
                       !.ktl = FAdd(@, FMul(tl, x.nf[g])), !.clear = @ /\ f.clear /\ FLt(Tie, FAbs(FSub(dc, f.d)))]
   IN IF ~FLt(dc, f.d)
      THEN [h1 EXCEPT !.x = R!Step(@), !.s = IF f.ax = 0 THEN [s EXCEPT !.p = Go(@, s.o, f.d)] ELSE Across(w.ls, r.in.bc, s, f.ax, f.d)]
      ELSE LET at == Go(s.p, s.o, dc)
               v == Draw(h.x, 2)
               probs == <<FDiv(Out(x, ng, g), x.tr[g]), FDiv(x.f[g], x.tr[g]), FInt(1)>>
               what == Choose(probs, v)
               h2 == [h1 EXCEPT !.kcol = FAdd(@, FDiv(x.nf[g], x.tr[g])), !.col[g] = Bump(@, reg, FDiv(1, x.tr[g])), !.clear = @ /\ ClearOf(probs, v)]
               to == [k \in 1..ng |-> FDiv(ScOf(x, ng, k, g), Out(x, ng, g))]
               v3 == Draw(h.x, 3)
           IN CASE what = 1 -> [h2 EXCEPT !.x = R!StepN(@, 5), !.s = [s EXCEPT !.p = at, !.g = Choose(to, v3), !.o = Two(R!StepN(h.x, 3), swap)],
                                          !.clear = @ /\ ClearOf(to, v3)]
                [] what = 2 -> LET nu == FAdd(FMul(h.w, FDiv(x.nf[g], x.f[g])), v3)
                                   q == Sites(R!StepN(h.x, 3), FFloor(nu), x.ch, swap, [s |-> <<>>, clear |-> FLt(FLit("1e-12"), FAbs(FSub(nu, FRound(nu))))])
                               IN [h2 EXCEPT !.s = [s EXCEPT !.p = at, !.end = "fission"], !.sites = q.s, !.clear = @ /\ q.clear]
                [] OTHER -> [h2 EXCEPT !.s = [s EXCEPT !.p = at, !.end = "capture"]]
RECURSIVE Run(_, _, _, _, _)
Run(r, w, xs, swap, h) == IF h.s.end # "" \/ ~h.clear \/ h.n >= MaxFlights THEN h ELSE Run(r, w, xs, swap, Flight(r, w, xs, swap, h))
Start(r, w, q) ==
   LET n == Len(r.out.vol)  np == Len(r.out.pvol)  ng == r.in.ng
       Nil(m) == [g \in 1..ng |-> [i \in 1..m |-> FInt(0)]]
   IN [s |-> [p |-> q.p, o |-> q.o, c |-> CellOf(w.ls, q.p), g |-> q.g + 1, end |-> ""], x |-> R!Jump(R!Cut(r.in.seed), R!Times(q.id, Stride)), n |-> 0, w |-> q.w,
       fine |-> Nil(n), col |-> Nil(n), pin |-> Nil(np), pow |-> [i \in 1..np |-> FInt(0)], ktl |-> FInt(0), kcol |-> FInt(0), sites |-> <<>>, clear |-> TRUE]
Eps == FLit("2e-6")
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FNear(a[i], b[i], FInt(1), Eps)
PerVol(a, v) == [i \in 1..Len(a) |-> FDiv(a[i], v[i])]
Times2(a, v) == [i \in 1..Len(a) |-> FMul(a[i], v[i])]
SameSites(h, o) == /\ Len(h.sites) = Len(o.sites)
                   /\ \A i \in 1..Len(h.sites) : LET b == o.sites[i] IN
                        b.g + 1 = h.sites[i].g /\ b.id = o.id /\ Close(b.p, h.s.p) /\ Close(b.o, h.sites[i].o)
Scaled(p) == LET t == FSum(p) IN [i \in 1..Len(p) |-> FDiv(p[i], t)]
SamePower(h, o, v) == LET p == PerVol(h.pow, v) IN FEq(FSum(p), 0) \/ Close(Scaled(p), Scaled(o.pow))
Told(r, h, o) ==
   First(<< <<"track lengths of the regions", \A g \in 1..r.in.ng : Close(Times2(o.fine[g], r.out.vol), h.fine[g])>>,
            <<"track lengths of the pins", \A g \in 1..r.in.ng : Close(Times2(o.pin[g], r.out.pvol), h.pin[g])>>,
            <<"collisions of the regions", \A g \in 1..r.in.ng : Close(Times2(o.col[g], r.out.vol), h.col[g])>>,
            <<"pin powers", SamePower(h, o, r.out.pvol)>>,
            <<"track length estimate of k", FNear(o.ktl, h.ktl, FInt(1), Eps)>>,
            <<"collision estimate of k", FNear(o.kcol, h.kcol, FInt(1), Eps)>>,
            <<"fission sites", SameSites(h, o)>> >>)
One(r, w, xs, k, swap) == LET h == Run(r, w, xs, swap, Start(r, w, r.in.hist[k])) IN
                          IF ~h.clear \/ h.n >= MaxFlights THEN "" ELSE Told(r, h, r.out.hist[k])
(* whatever the history: pins get what their regions get                     *)
PinsAgree(r, w, o) ==
   \A g \in 1..r.in.ng : \A z \in 1..Len(w.base) : \A y \in 1..w.ny : \A x \in 1..w.nx :
      LET b == w.base[z][y][x]  n == NReg(w.mesh[z][y][x])  i == ((z-1)*w.ny + y-1)*w.nx + x
      IN FNear(FMul(o.pin[g][i], r.out.pvol[i]), FSum([k \in 1..n |-> FMul(o.fine[g][b+k], r.out.vol[b+k])]), FInt(1), FLit("1e-10"))
(* flights without collisions: track lengths of the pins                     *)
RECURSIVE Free(_, _, _)
Free(r, w, h) == IF h.s.end # "" \/ h.n >= MaxFlights THEN h
   ELSE LET f == FreeFlight(w.ls, r.in.bc, h.s)
            pin == (h.s.c[3]*w.ny + h.s.c[2])*w.nx + h.s.c[1] + 1
        IN Free(r, w, [h EXCEPT !.n = @ + 1, !.s = f.s, !.pin[1] = Bump(@, pin, f.d)])
FreeOk(r, w, k) == LET h == Free(r, w, Start(r, w, r.in.hist[k])) IN
                   h.n >= MaxFlights \/ Close(Times2(r.out.hist[k].pin[1], r.out.pvol), h.pin[1])
HistoryVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE IF r.in.kind = "edge" THEN LET w == World(r) IN
        IF \E k \in 1..Len(r.out.hist) : ~PinsAgree(r, w, r.out.hist[k]) THEN "pins and their regions disagree" ELSE ""
   ELSE IF r.in.kind = "corner" THEN LET w == TLCEval(World(r)) IN
        IF \E k \in 1..Len(r.out.hist) : ~PinsAgree(r, w, r.out.hist[k]) THEN "pins and their regions disagree"
        ELSE IF \E k \in 1..Len(r.out.hist) : ~FreeOk(r, w, k) THEN "track lengths of a flight through corners" ELSE ""
   ELSE LET w == World(r)  xs == XsAt(r)
            Bad(swap) == {k \in 1..Len(r.in.hist) : One(r, w, xs, k, swap) # ""}
            b == Bad(TRUE)
        IN IF b = {} \/ Bad(FALSE) = {} THEN "" ELSE One(r, w, xs, CHOOSE k \in b : \A j \in b : k <= j, TRUE)
=============================================================================
