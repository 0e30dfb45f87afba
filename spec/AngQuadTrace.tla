---------------------------- MODULE AngQuadTrace ----------------------------
EXTENDS TraceCases, AngQuad
(* an angle is [d |-> <<ox, oy, oz>>, alpha, theta, rs, w]                    *)
T10 == FLit("1e-10")
Norm2(d) == FAdd(FMul(d[1], d[1]), FAdd(FMul(d[2], d[2]), FMul(d[3], d[3])))
SgnOk(d, s) == \A i \in 1..3 : IF s[i] = 1 THEN FLt(0, d[i]) ELSE FLt(d[i], 0)
Shape(as, nd) == First(<<
   <<"number of angles is not eight per direction of an octant", Len(as) = 8*nd>>,
   <<"direction is not a unit vector", \A i \in 1..Len(as) : FNear(Norm2(as[i].d), 1, 1, T10)>>,
   <<"direction outside its octant", \A i \in 1..Len(as) : SgnOk(as[i].d, Sign(Oct(i-1, nd)))>>,
   <<"octants are not mirror images", \A i \in 1..Len(as) : \A c \in 1..3 :
        FNear(FAbs(as[i].d[c]), FAbs(as[1 + Slot(i-1, nd)].d[c]), 1, FLit("1e-13"))>>,
   <<"weights differ between octants", \A i \in 1..Len(as) : FNear(as[i].w, as[1 + Slot(i-1, nd)].w, 0, FLit("1e-13"))>>,
   <<"weight not positive", \A i \in 1..Len(as) : FLt(0, as[i].w)>>,
   <<"weights of an octant do not add up to one", FNear(FSum([i \in 1..nd |-> as[i].w]), 1, 1, FLit("1e-12"))>>,
   <<"azimuth and polar angle do not belong to the cosines", \A i \in 1..Len(as) : LET q == as[i] IN
        /\ FNear(FMul(FSin(q.theta), FCos(q.alpha)), q.d[1], 1, FLit("1e-9"))
        /\ FNear(FMul(FSin(q.theta), FSin(q.alpha)), q.d[2], 1, FLit("1e-9"))
        /\ FNear(FCos(q.theta), q.d[3], 1, FLit("1e-9"))
        /\ FNear(FMul(q.rs, FSin(q.theta)), 1, 1, FLit("1e-9"))>>
   >>)
Moment(as, nd, c, k) == FSum([i \in 1..nd |-> FMul(as[i].w, Pow(as[i].d[c], 2*k))])
MomentsOk(as, nd, c, n, tol) == \A k \in 1..n : FNear(Moment(as, nd, c, k), Even(k), 0, FLit(tol))
Perm(as, nd) == \A i \in 1..nd : \A p \in {<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>} :
   \E j \in 1..nd : /\ FNear(as[i].w, as[j].w, 0, T10)
                    /\ \A c \in 1..3 : FNear(as[j].d[c], as[i].d[p[c]], 1, FLit("1e-9"))
HalfPi == FLit("1.5707963267948966")
Distinct(as, nd) == \A i, j \in 1..nd : i # j => \E c \in 1..3 : FLt(T10, FAbs(FSub(as[i].d[c], as[j].d[c])))
Ty == << <<"0.166648", "0.046233">>, <<"0.537707", "0.283619">>, <<"0.932954", "0.670148">> >>
Kind(r) ==
  LET q == r.in
      as == r.out.angles
      nd == r.out.nd
      na == q.nazi
      np == q.npol
      azis == \A i \in 1..nd : \E k \in 0..(na-1) : FNear(as[i].alpha, FMul(FRat(2*k+1, 2*na), HalfPi), 1, T10)
      flat == FNear(Moment(as, nd, 1, 1), Moment(as, nd, 2, 1), 0, T10)
  IN CASE q.kind = "ls" -> First(<<
          <<"level-symmetric: number of directions", nd = (q.order * (q.order + 2)) \div 8>>,
          <<"level-symmetric: not symmetric in the three axes", Perm(as, nd) /\ Distinct(as, nd)>>,
          <<"level-symmetric: second moment", \A c \in 1..3 : MomentsOk(as, nd, c, 1, "1e-9")>>,
          <<"level-symmetric: higher moments", \A c \in 1..3 : MomentsOk(as, nd, c, q.order \div 2, IF q.order <= 8 THEN "1e-5" ELSE "5e-2")>> >>)
     [] q.kind = "cg" -> First(<<
          <<"number of directions is not azimuths times polar angles", nd = na * np>>,
          <<"directions repeat", Distinct(as, nd)>>,
          <<"azimuths are not the evenly spaced ones", azis>>,
          <<"second moment", \A c \in 1..3 : MomentsOk(as, nd, c, 1, "1e-10")>>,
          <<"Gauss polar angles do not integrate their powers", MomentsOk(as, nd, 3, 2*np - 1, "1e-9")>>,
          <<"azimuths not weighted alike", flat>> >>)
     [] q.kind = "cy" -> First(<<
          <<"number of directions is not azimuths times polar angles", nd = na * 3>>,
          <<"directions repeat", Distinct(as, nd)>>,
          <<"azimuths are not the evenly spaced ones", azis>>,
          <<"azimuths not weighted alike", flat>>,
          <<"polar angles or weights are not the tabulated ones", \A i \in 1..nd : \E k \in 1..3 :
              /\ FNear(FSin(as[i].theta), FLit(Ty[k][1]), 1, FLit("2e-6"))
              /\ FNear(FMul(as[i].w, na), FLit(Ty[k][2]), 1, FLit("2e-6"))>> >>)
     [] q.kind = "user" -> First(<<
          <<"number of directions given", nd = Len(q.user)>>,
          <<"direction or weight differs from the input", \A i \in 1..nd :
              /\ \A c \in 1..3 : FNear(as[i].d[c], q.user[i].d[c], 1, FLit("1e-12"))
              /\ FNear(as[i].w, q.user[i].w, 0, FLit("1e-12"))>> >>)
Same(a, b) == /\ \A c \in 1..3 : FNear(a.d[c], b.d[c], 1, FLit("1e-14"))
              /\ FNear(a.w, b.w, 0, FLit("1e-14")) /\ FNear(a.alpha, b.alpha, 1, FLit("1e-14"))
              /\ FNear(a.theta, b.theta, 1, FLit("1e-14")) /\ FNear(a.rs, b.rs, 0, FLit("1e-12"))
Mirrors(r) ==
  LET as == r.out.angles  nd == r.out.nd IN First(<<
   <<"reflection index", \A ax \in 1..3 : \A a \in 0..(8*nd-1) : r.out.refl[ax][a+1] = Reflect(a, nd, ax)>>,
   <<"reflection by surface", \A s \in 0..5 : \A a \in 0..(8*nd-1) :
        r.out.refls[s+1][a+1] = Reflect(a, nd, IF s \in {0, 2} THEN 1 ELSE IF s \in {1, 3} THEN 2 ELSE 3)>>,
   <<"reverse index in two dimensions", \A a \in 0..(8*nd-1) : r.out.rev2[a+1] = Reverse2(a, nd)>>,
   <<"reverse index in three dimensions", \A a \in 0..(8*nd-1) : r.out.rev3[a+1] = Reverse3(a, nd)>>,
   <<"upwind surface", \A a \in 0..(8*nd-1) : LET s == Sign(Oct(a, nd)) IN
        r.out.up[a+1] = <<IF s[1] = 1 THEN 2 ELSE 0, IF s[2] = 1 THEN 3 ELSE 1, IF s[3] = 1 THEN 5 ELSE 4>> >>,
   <<"reflected direction", \A a \in 0..(8*nd-1) : \A ax \in 1..3 :
        \A c \in 1..3 : FNear(r.out.refd[a+1][ax][c], IF c = ax THEN FNeg(as[a+1].d[c]) ELSE as[a+1].d[c], 1, FLit("1e-13"))>>,
   <<"written and read back differently", Len(r.out.h5) = Len(as) /\ r.out.h5nd = nd /\ \A i \in 1..Len(as) : Same(as[i], r.out.h5[i])>>,
   <<"read-back set does not compare equal", r.out.h5eq = 1>>
   >>)
(* after moving the azimuths: same polar angles, weights by the arc around   *)
(* each azimuth                                                              *)
Sorted(al) == \A i \in 1..(Len(al)-1) : FLt(al[i], al[i+1])
Arc(al, k) == LET n == Len(al)
                  lo == IF k = 1 THEN FInt(0) ELSE FDiv(FAdd(al[k-1], al[k]), 2)
                  hi == IF k = n THEN HalfPi ELSE FDiv(FAdd(al[k], al[k+1]), 2)
              IN FDiv(FSub(hi, lo), HalfPi)
Moved(r) ==
  LET al == r.in.newalpha
      as == r.out.angles
      ms == r.out.mod
      nd == r.out.nd
      np == nd \div Len(al)
      azi(i) == 1 + ((i-1) \div np)
      chg == r.in.kind \in {"cg", "cy"}
  IN IF Len(al) = 0 THEN ""
     ELSE LET s == Shape(ms, nd) IN IF s # "" THEN "after modification: " \o s ELSE First(<<
       <<"modified direction", \A i \in 1..nd : FNear(ms[i].alpha, al[azi(i)], 1, FLit("1e-12"))
             /\ FNear(ms[i].theta, as[i].theta, 1, FLit("1e-12"))>>,
       <<"weight after modification is not the arc of the azimuth", chg => \A i \in 1..nd :
             FNear(ms[i].w, FMul(FMul(as[i].w, Len(al)), Arc(al, azi(i))), 0, FLit("1e-9"))>>,
       <<"weight changed although the kind fixes its weights", ~chg => \A i \in 1..nd : FNear(ms[i].w, as[i].w, 0, FLit("1e-12"))>>
     >>)
QuadVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang"
   ELSE IF r.in.bad = 1 THEN (IF r.out.exc # "" THEN "" ELSE "invalid quadrature accepted")
   ELSE IF r.out.exc # "" THEN "valid quadrature refused"
   ELSE LET a == Shape(r.out.angles, r.out.nd) IN IF a # "" THEN a
   ELSE LET b == Kind(r) IN IF b # "" THEN b
   ELSE LET c == Mirrors(r) IN IF c # "" THEN c
   ELSE Moved(r)
=============================================================================
