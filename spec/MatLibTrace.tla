----------------------------- MODULE MatLibTrace ----------------------------
EXTENDS TraceCases, MatLib
Near(a, b) == FNear(a, b, FLit("1e-300"), FLit("1e-12"))
One(lib, a, o) ==
   LET m == Named(lib, a.name)  G == 1..lib.ng IN First(<<
     <<"number is not known after assignment", o.has = 1>>,
     <<"absorption", \A g \in G : FEq(o.ab[g], m.rows[g][1])>>,
     <<"nu-fission", \A g \in G : FEq(o.nf[g], m.rows[g][2])>>,
     <<"fission", \A g \in G : FEq(o.f[g], m.rows[g][3])>>,
     <<"spectrum", \A g \in G : Near(o.chi[g], ChiOf(m, g))>>,
     <<"total is not absorption plus outgoing scattering", \A g \in G : FNear(o.tr[g], Total(m, g), FLit("1e-4"), FLit("1e-12"))>>,
     <<"scattering", \A t, f \in G : FEq(o.sc[(t-1)*lib.ng + f], m.scat[t][f])>>,
     <<"fissile flag", (o.fissile = 1) <=> \E g \in G : FLt(0, m.rows[g][2])>>
   >>)
LibVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE LET lib == ReadLib(r.in.lines)
            ok == lib.bad = "" /\ AssignOk(lib, r.in.assign)
            o == r.out
   IN IF ~ok THEN (IF o.exc # "" THEN "" ELSE "accepted although " \o (IF lib.bad # "" THEN "library is malformed: " \o lib.bad ELSE "a reference is unknown or repeated"))
      ELSE IF o.exc # "" THEN "refused a well-formed library"
      ELSE First(<<
        <<"number of groups", o.ng = lib.ng>>,
        <<"group bounds", Len(o.bounds) = lib.ng /\ \A g \in 1..lib.ng : FEq(o.bounds[g], lib.bounds[g])>>,
        <<"number of assigned materials", o.n = Len(r.in.assign) /\ Len(o.mats) = Len(r.in.assign)>>,
        <<"a number never assigned is known", o.hasother = 0>>,
        <<"dense indices are not 0..n-1", {o.mats[i].idx : i \in 1..Len(o.mats)} = 0..(Len(o.mats)-1)>>
        >> \o [i \in 1..Len(r.in.assign) |-> LET v == One(lib, r.in.assign[i], o.mats[i]) IN <<v, v = "">>]
        \o [i \in 1..Len(r.in.assign) |-> LET k == 1 + o.mats[i].idx
                 v == One(lib, r.in.assign[i], o.listed[k]) IN <<"listed material: " \o v, v = "">>])
=============================================================================
