-------------------------------- MODULE Bank --------------------------------
(* A bank of fission sites: a sequence of sites (only their identity and     *)
(* weight matter here) and the total weight added since it was cleared.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, F64
BankNew == [sites |-> <<>>, total |-> FInt(0)]
BankPush(b, s) == [sites |-> Append(b.sites, s), total |-> FAdd(b.total, s.w)]
Count(q, s) == Cardinality({i \in 1..Len(q) : q[i] = s})
(* after resizing to n: n copies of what was there; growing keeps everything,*)
(* shrinking invents no second copy                                          *)
Resized(old, new, n) ==
   /\ Len(new) = n
   /\ \A i \in 1..Len(new) : \E j \in 1..Len(old) : new[i] = old[j]
   /\ \A s \in {old[j] : j \in 1..Len(old)} :
        /\ n >= Len(old) => Count(new, s) >= Count(old, s)
        /\ n <= Len(old) => Count(new, s) <= Count(old, s)
(* growing by drawing originals, shrinking by overwriting with the last      *)
Grow(q, i, n0) == Append(q, q[i])
Drop(q, i) == SubSeq([q EXCEPT ![i] = q[Len(q)]], 1, Len(q) - 1)
(* entropy of the distribution over pins, in bits                            *)
Log2(x) == FDiv(FLog(x), FLog(2))
Entropy(cnt, n) == FNeg(FSum([c \in 1..Len(cnt) |-> IF cnt[c] = 0 THEN FInt(0)
                                                    ELSE LET p == FRat(cnt[c], n) IN FMul(p, Log2(p))]))
=============================================================================
