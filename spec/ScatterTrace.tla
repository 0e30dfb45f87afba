---------------------------- MODULE ScatterTrace ----------------------------
EXTENDS TraceCases, Scatter
Near(a, b) == FNear(a, b, FLit("1e-300"), FLit("1e-13"))
RowsOf(o, m) == \A to \in Groups(m) : LET q == o[to] IN
   /\ q.lo <= to-1 /\ to-1 <= q.hi /\ q.lo >= 0 /\ q.hi < Ng(m) /\ Len(q.v) = q.hi - q.lo + 1
   /\ \A from \in Groups(m) : IF from-1 < q.lo \/ from-1 > q.hi THEN Zero(m[to][from])
                              ELSE FEq(q.v[from - q.lo], m[to][from])
Flat(m) == [i \in 1..(Ng(m)*Ng(m)) |-> m[1 + ((i-1) \div Ng(m))][1 + ((i-1) % Ng(m))]]
SameFlat(v, m) == Len(v) = Ng(m)*Ng(m) /\ \A i \in 1..Len(v) : FEq(v[i], Flat(m)[i])
B(x) == IF x THEN 1 ELSE 0
ScatVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET m == r.in.m  o == r.out IN First(<<
      <<"number of groups", o.ng = Ng(m)>>,
      <<"an entry is lost, moved or the diagonal is not addressable", RowsOf(o.rows, m)>>,
      <<"dense form differs", SameFlat(o.dense, m)>>,
      <<"self-scattering", \A g \in Groups(m) : FEq(o.self[g], m[g][g])>>,
      <<"outgoing total is not the sum over destinations", \A g \in Groups(m) : FNear(o.tot[g], Out(m, g), FLit("1e-3"), FLit("1e-13"))>>,
      <<"cumulative table of destinations", \A g \in Groups(m) : (\A t \in Groups(m) : FLe(0, m[t][g])) /\ FLt(0, Out(m, g)) =>
            \A k \in Groups(m) : FNear(o.cdf[g][k], Cum(m, g, k), 1, FLit("1e-12"))>>,
      <<"copy differs", SameFlat(o.copy, m) /\ RowsOf(o.copyrows, m)>>,
      <<"assigned matrix differs", SameFlat(o.assigned, m)>>,
      <<"other constructor differs", SameFlat(o.array, m)>>,
      <<"equal to itself and its copy", o.eqself = 1>>,
      <<"comparison with another matrix", o.eqother = B(SameMatrix(m, r.in.m2)) /\ o.neother = B(~SameMatrix(m, r.in.m2))>>,
      <<"comparison of rows", \A g \in Groups(m) : o.roweq[g] = B(\A h \in Groups(m) : FEq(m[g][h], r.in.m2[g][h]))>>
   >>)
=============================================================================
