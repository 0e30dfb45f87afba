----------------------------- MODULE SnCurTrace -----------------------------
(* Coarse-mesh currents left by an Sn sweep.                                 *)
EXTENDS SnSweepTrace
Area(m, p, b) == CASE b \in {1, 3} -> FMul(m.dy[p[2]+1], m.dz[p[3]+1]) [] b \in {2, 4} -> FMul(m.dx[p[1]+1], m.dz[p[3]+1])
                   [] OTHER -> FMul(m.dx[p[1]+1], m.dy[p[2]+1])
OutSign(b) == IF b \in {1, 2, 5} THEN 1 ELSE -1
One2(r, x, phi, inc, k) ==
   LET op == r.in.ops[k]  o == r.out.ops[k]  g == op.g + 1  m == r.out.m
       e == Step(r, x, phi, inc, op, o.s, TRUE)
       N == Len(phi)
       P(i) == <<(i-1) % m.nx, ((i-1) \div m.nx) % m.ny, (i-1) \div (m.nx*m.ny)>>
       C(i, b) == o.cur[r.out.surf[i][b] + 1]
       all == [j \in 1..(N*(IF m.flat = 1 THEN 4 ELSE 6)) |-> LET w == IF m.flat = 1 THEN 4 ELSE 6 IN e.cur[((j-1) \div w) + 1][((j-1) % w) + 1]]
       sc == FMax(Big(all), FMul(FourPi, Big(e.q)))
       Out(i) == FSum([b \in 1..6 |-> FMul(OutSign(b), FMul(Area(m, P(i), b), C(i, b)))])
       Net(i) == FMul(r.out.vol[i], FSub(FMul(x[i].tr[g], e.phi[i][g]), FMul(FourPi, e.q[i])))
   IN First(<<
        <<"current through a surface", \A i \in 1..N : \A b \in 1..(IF m.flat = 1 THEN 4 ELSE 6) : FNear(C(i, b), e.cur[i][b], sc, Tol)>>,
        <<"axial current in two dimensions", m.flat = 1 => \A i \in 1..N : \A b \in 5..6 : FEq(C(i, b), 0)>>,
        <<"net outflow and collisions do not balance the emission of a cell",
           \A i \in 1..N : FNear(Out(i), FNeg(Net(i)), FMul(sc, FAdd(r.out.vol[i], FSum([b \in 1..6 |-> Area(m, P(i), b)]))), FLit("1e-8"))>>,
        <<"currents of another group were touched", o.curx = 1>> >>)
SnCurVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET x == XsOf(r.out, Len(r.out.phi0), r.in.ng)
            W(k) == One2(r, x, IF k = 1 THEN r.out.phi0 ELSE r.out.ops[k-1].phi, IF k = 1 THEN r.out.inc0 ELSE r.out.ops[k-1].inc, k)
            bad == {k \in 1..Len(r.in.ops) : W(k) # ""}
        IN IF bad = {} THEN "" ELSE W(CHOOSE k \in bad : TRUE)
=============================================================================
