---------------------------- MODULE PowerIterTrace --------------------------
(* Runs of the real solvers.  With a scripted sweeper (in.real = 0) the flux   *)
(* after every iteration (out.phi, from the start flux on) is known, and so is *)
(* everything the solver must do.  With a real sweeper the answer of a uniform *)
(* medium is known and the result file must show the state of the sweeper.     *)
EXTENDS TraceCases, PowerIter
Tol == FLit("1e-10")
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FNear(a[i], b[i], FLit("1e-12"), Tol)
NReg(r) == Len(r.out.phi[1])
Zero(n) == [i \in 1..n |-> FInt(0)]
Flat(phi) == FoldLeft(LAMBDA a, b : a \o b, <<>>, phi)
(* tolerances are single precision numbers in the program                     *)
Below(e, tol) == FLt(e, tol)
Clear(e, tol) == ~FNear(e, tol, FInt(0), FLit("1e-6"))
(* ---- scripted eigenvalue runs                                              *)
KSeq(r, x) == FoldLeft(LAMBDA acc, i : Append(acc, NewK(acc[Len(acc)], Production(x, r.out.phi[i], r.out.vol), Production(x, r.out.phi[i+1], r.out.vol))),
                       <<FInt(1)>>, [i \in 1..(Len(r.out.phi)-1) |-> i])
NFis(x) == FSum([i \in 1..Len(x) |-> IF \E g \in 1..Len(x[i].nf) : FLt(0, x[i].nf[g]) THEN FInt(1) ELSE FInt(0)])
Fissile(x) == \E i \in 1..Len(x) : \E g \in 1..Len(x[i].nf) : FLt(0, x[i].nf[g])
One(x) == FInt(1)
SourcesRight(r, x, n, ks) == \A i \in 1..n : \A g \in 1..r.in.ng :
   LET s == r.out.sweeps[(i-1)*r.in.ng + g]
       fs == IF r.in.mode = "eig" THEN FisSource(x, r.out.phi[i], ks[i]) ELSE Zero(Len(x))
       ext == IF r.in.mode = "eig" THEN Zero(Len(x)) ELSE r.in.ext[g]
   IN NearSeq(s.q, GroupSource(x, fs, ext, r.out.phi[i], r.out.phi[i+1], g))
InOrder(r) == \A j \in 1..Len(r.out.sweeps) : r.out.sweeps[j].g = ((j-1) % r.in.ng) + 1
DumpRight(r, n, ks) == \A j \in 1..Len(r.out.dump) : LET d == r.out.dump[j] IN
   IF d.n >= 1 /\ d.n <= n
   THEN d.there = 1 /\ NearSeq(d.k, SubSeq(ks, 2, d.n+1)) /\ NearSeq(d.state, Flat(r.out.phi[d.n+1]))
   ELSE d.there = 0
EigVerdict(r) ==
   LET x == XsOf(r.out, NReg(r), r.in.ng) IN
   IF ~Fissile(x) /\ r.in.max > 0
   THEN First(<< <<"no fission: the run must end with an error", r.out.fail = 1>>,
                 <<"no fission: stop after the first iteration", Len(r.out.sweeps) = r.in.ng>> >>)
   ELSE IF r.out.fail = 1 THEN "error"
   ELSE
   LET m == Len(r.out.phi) - 1
       ks == KSeq(r, x)
       fis == [i \in 1..(m+1) |-> FisSource(x, r.out.phi[i], FInt(1))]
       ek == [i \in 1..m |-> FAbs(FSub(ks[i+1], ks[i]))]
       ep == [i \in 1..m |-> ShapeChange(fis[i], fis[i+1], NFis(x))]
       ok == [i \in 1..m |-> Below(ek[i], r.in.ktol) /\ Below(ep[i], r.in.ptol)]
       clear == \A i \in 1..m : Clear(ek[i], r.in.ktol) /\ Clear(ep[i], r.in.ptol)
       n == Count(0, ok, r.in.min, r.in.max)
   IN IF ~clear THEN ""
      ELSE First(<< <<"started more than once", r.out.ninit = 1>>,
                    <<"number of iterations", Len(r.out.sweeps) = n * r.in.ng>>,
                    <<"order of the group sweeps", InOrder(r)>>,
                    <<"source of a group sweep", SourcesRight(r, x, n, ks)>>,
                    <<"one history entry per iteration", Len(r.out.k) = n /\ Len(r.out.ek) = n /\ Len(r.out.ep) = n /\ r.out.nt = n>>,
                    <<"k of an iteration", NearSeq(r.out.k, SubSeq(ks, 2, n+1))>>,
                    <<"change of k", \A i \in 1..n : FNear(r.out.ek[i], ek[i], FInt(1), FLit("1e-12"))>>,
                    <<"change of the fission source", \A i \in 1..n : FNear(r.out.ep[i], ep[i], FInt(1), FLit("1e-11"))>>,
                    <<"state in the result", NearSeq(r.out.state, Flat(r.out.phi[n+1]))>>,
                    <<"state dumps", DumpRight(r, n, ks)>> >>)
(* ---- scripted fixed-source runs                                            *)
FixVerdict(r) ==
   LET x == XsOf(r.out, NReg(r), r.in.ng)
       m == Len(r.out.phi) - 1
       d == [i \in 1..m |-> Norm2(Flat(r.out.phi[i]), Flat(r.out.phi[i+1]))]
       ok == [i \in 1..m |-> Below(d[i], r.in.ptol)]
       n == Count(0, ok, 0, r.in.max)
   IN IF r.out.fail = 1 THEN "error"
      ELSE IF \E i \in 1..m : ~Clear(d[i], r.in.ptol) THEN ""
      ELSE First(<< <<"started more than once", r.out.ninit = 1>>,
                    <<"number of iterations", Len(r.out.sweeps) = n * r.in.ng>>,
                    <<"order of the group sweeps", InOrder(r)>>,
                    <<"source of a group sweep", SourcesRight(r, x, n, <<>>)>>,
                    <<"report of missing convergence", (r.out.said = 1) = ~Converged(n, ok, 0)>>,
                    <<"state in the result", NearSeq(r.out.state, Flat(r.out.phi[n+1]))>> >>)
(* ---- real sweepers                                                         *)
SeqSum(f) == FSum(f)
Proportional(a, b) == Len(a) = Len(b) /\ LET sa == FSum(a)  sb == FSum(b) IN
   \A i \in 1..Len(a) : FNear(FMul(a[i], sb), FMul(b[i], sa), FMul(FLit("1e-6"), FMul(sa, sb)), FLit("1e-9"))
NCells(r) == IF r.in.rep = "moc" THEN Len(r.in.subplane) * r.in.npx * r.in.npy ELSE r.in.nz * r.in.npx * r.in.npy
NPl(r) == IF r.in.rep = "moc" THEN Len(r.in.subplane) ELSE r.in.nz
PowerOf(r, x) == LET own == [c \in 1..NCells(r) |-> SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : r.out.cell[i] = c)] IN
   [c \in 1..NCells(r) |-> FSum([j \in 1..Len(own[c]) |-> LET i == own[c][j] IN
                                  FMul(r.out.vol[i], FDot(x[i].f, r.out.flux[i]))])]
XsF(out, n, ng) ==
   LET own == [i \in 1..n |-> CHOOSE k \in 1..Len(out.xs) : \E j \in 1..Len(out.xs[k].reg) : out.xs[k].reg[j] = i - 1] IN
   [i \in 1..n |-> LET k == own[i] IN [f |-> out.xs[k].f]]
FileRight(r) == \A g \in 1..r.in.ng : r.out.file[g].dims = <<r.in.nz, r.in.npy, r.in.npx>>
Joined(f(_), n) == FoldLeft(LAMBDA a, g : a \o f(g), <<>>, [g \in 1..n |-> g])
FluxRight(r) == LET inf(g) == r.out.file[g].v  ins(g) == r.out.pin[g] IN Proportional(Joined(inf, r.in.ng), Joined(ins, r.in.ng))
RealVerdict(r) ==
   LET n == Len(r.out.flux)
       x == XsOf(r.out, n, r.in.ng)
       xf == XsF(r.out, n, r.in.ng)
       k == IF r.in.mode = "eig" THEN Last(r.out.k) ELSE FInt(1)
       ext(i) == IF r.in.mode = "eig" THEN Zero(r.in.ng) ELSE [g \in 1..r.in.ng |-> r.in.ext[g][i]]
       xm(i) == IF r.in.mode = "eig" THEN x[i] ELSE [x[i] EXCEPT !.ch = Zero(r.in.ng)]
       done == r.in.mode = "eig" => Len(r.out.k) < r.in.max
   IN IF r.out.fail = 1 THEN "error"
      ELSE First(<< <<"history", r.in.mode = "eig" => Len(r.out.k) >= 1 /\ Len(r.out.k) <= r.in.max /\ Len(r.out.ek) = Len(r.out.k) /\ Len(r.out.ep) = Len(r.out.k)>>,
                    <<"stopped without meeting the tolerances", r.in.mode = "eig" /\ Len(r.out.k) < r.in.max =>
                         ~FLt(r.in.ktol, Last(r.out.ek)) /\ ~FLt(r.in.ptol, Last(r.out.ep))>>,
                    <<"went on after meeting the tolerances", r.in.mode = "eig" => \A i \in r.in.min..(Len(r.out.k)-1) :
                         i >= 1 => ~(FLt(r.out.ek[i], FMul(FLit("0.999"), r.in.ktol)) /\ FLt(r.out.ep[i], FMul(FLit("0.999"), r.in.ptol)))>>,
                    <<"known answer of a uniform medium", r.in.uniform = 1 /\ done =>
                         \A i \in 1..n : Balanced(xm(i), k, ext(i), r.out.flux[i], FLit("2e-4"))>>,
                    <<"shape of the flux in the result", FileRight(r)>>,
                    <<"flux in the result", FluxRight(r)>>,
                    <<"shape of the power in the result", r.out.power.dims = <<NPl(r), r.in.npy, r.in.npx>> >>,
                    <<"power in the result", r.in.mode = "eig" => Proportional(r.out.power.v, PowerOf(r, xf))>> >>)
IterVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE IF r.in.real = 1 THEN RealVerdict(r)
   ELSE IF r.in.mode = "eig" THEN EigVerdict(r) ELSE FixVerdict(r)
=============================================================================
