------------------------------ MODULE BankTrace -----------------------------
EXTENDS TraceCases, Bank
(* Two banks a, b.  Every operation is followed by a full report of both.    *)
Put(b, ss) == FoldLeft(LAMBDA x, s : BankPush(x, s), b, ss)
SameBank(o, b) == o.sites = b.sites /\ FNear(o.total, b.total, 1, FLit("1e-12"))
(* pins are counted from the positions the sites were given                  *)
PinCount(r, sites) == [c \in 1..r.in.npin |-> Cardinality({i \in 1..Len(sites) : r.in.pin[sites[i].id] = c - 1})]
Fresh(r, b) == Len(b.sites) > 0
EntOk(r, o) == Len(o.sites) > 0 /\ (\A i \in 1..Len(o.sites) : FEq(o.sites[i].w, 1))
                 => FNear(o.h, Entropy(PinCount(r, o.sites), Len(o.sites)), 1, FLit("1e-11"))
RECURSIVE Walk(_, _, _, _)
Walk(r, a, b, k) ==
  IF k > Len(r.in.ops) THEN ""
  ELSE LET op == r.in.ops[k]  o == r.out.ops[k] IN
  IF op.k = "resize" THEN
     (IF Len(a.sites) = 0 /\ op.n > 0 THEN
        (IF o.refused = 1 THEN Walk(r, a, b, k+1) ELSE "resizing an empty bank was not refused")
      ELSE IF o.refused = 1 THEN "resizing was refused"
      ELSE IF ~Resized(a.sites, o.a.sites, op.n) THEN "resized bank is not a resampling of the old one"
      ELSE IF ~SameBank(o.b, b) THEN "the other bank changed"
      ELSE IF ~FNear(o.a.total, a.total, 1, FLit("1e-12")) THEN "resizing changed the total produced"
      ELSE IF ~EntOk(r, o.a) THEN "entropy" ELSE Walk(r, [a EXCEPT !.sites = o.a.sites], b, k+1))
  ELSE LET na == CASE op.k = "push" -> Put(a, op.s) [] op.k = "clear" -> BankNew [] op.k = "swap" -> b [] OTHER -> a
           nb == CASE op.k = "swap" -> a [] op.k = "pushb" -> Put(b, op.s) [] OTHER -> b
       IN IF ~SameBank(o.a, na) \/ ~SameBank(o.b, nb)
          THEN (IF o.a.sites = na.sites /\ o.b.sites = nb.sites THEN "total produced after " ELSE "contents after ") \o op.k
          ELSE IF ~EntOk(r, o.a) \/ ~EntOk(r, o.b) THEN "entropy" ELSE Walk(r, na, nb, k+1)
(* Each site is kept (shrinking) or drawn again (growing) equally often: the *)
(* counts over many resamplings stay within six standard deviations.         *)
Even(r) == LET n == r.in.trials
               p == IF r.in.n < r.in.m THEN FRat(r.in.n, r.in.m) ELSE FRat(1, r.in.m)
               draws == IF r.in.n < r.in.m THEN n ELSE n * (r.in.n - r.in.m)
               mean == FMul(draws, p)
               sd == FSqrt(FMul(mean, FSub(1, p)))
           IN \A i \in 1..r.in.m : FLe(FAbs(FSub(r.out.count[i], mean)), FAdd(1, FMul(6, sd)))
BankVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception"
   ELSE IF r.in.op = "even" THEN (IF Even(r) THEN "" ELSE "sites are not resampled evenly")
   ELSE IF ~SameBank(r.out.start.a, BankNew) \/ ~SameBank(r.out.start.b, BankNew) THEN "a new bank is not empty"
   ELSE Walk(r, BankNew, BankNew, 1)
=============================================================================
