---------------------------- MODULE ExpTableTrace ---------------------------
EXTENDS TraceCases, ExpTable
ExpVerdict(r) ==
   IF r.out.crash # 0 THEN "crash" ELSE IF r.out.exc # "" THEN "exception"
   ELSE LET t == [n |-> r.in.n, lo |-> r.in.lo, hi |-> r.in.hi]
            vs == r.in.vs
            os == r.out.vals
            h == Width(t)
            relerr(i) == FDiv(FAbs(FSub(os[i], FExp(vs[i]))), FExp(vs[i]))
        IN First(<<
      <<"value inside the table is off by more than the interpolation error", \A i \in 1..Len(vs) :
           Inside(t, vs[i]) => FLe(relerr(i), FAdd(MaxError(h), FLit("1e-12")))>>,
      <<"value is not the linear interpolation of its interval", \A i \in 1..Len(vs) :
           Inside(t, vs[i]) => FNear(os[i], Value(t, vs[i]), 0, FLit("1e-11"))>>,
      <<"value outside the table is not the true exponential", \A i \in 1..Len(vs) :
           ~Inside(t, vs[i]) => FNear(os[i], FExp(vs[i]), 0, FLit("1e-14"))>>,
      <<"not monotone", \A i \in 1..(Len(vs)-1) : (FLt(vs[i], vs[i+1]) /\ Inside(t, vs[i]) /\ Inside(t, vs[i+1])) =>
           FLe(os[i], FAdd(os[i+1], FMul(FLit("1e-14"), os[i+1])))>>,
      <<"stated error is not the error at the interval middle", FNear(r.out.maxerr, MidError(h), FLit("1e-6"), FLit("1e-6")) \/
           (FLe(MidError(h), r.out.maxerr) /\ FLe(r.out.maxerr, FMul(FLit("1.01"), MaxError(h))))>>,
      <<"base exponential is not exact", \A i \in 1..Len(vs) : FNear(r.out.base[i], FExp(vs[i]), 0, FLit("1e-14"))>>
     >>)
=============================================================================
