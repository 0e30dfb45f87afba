---------------------------- MODULE FissionCycle ----------------------------
(* Cycles of a Monte Carlo eigenvalue calculation.  The particles of a cycle *)
(* are shared out among threads; every history draws from a stream that is   *)
(* given by its number alone, so its offspring are a function of what it is. *)
(* Offspring of all threads go into one bank in the order in which they      *)
(* happen.  Between cycles the bank is put in the order of the parents'      *)
(* numbers (offspring of one parent keep their order), brought to the wanted *)
(* size, and numbered anew.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

(* sites are records with a field p (number of the parent)                   *)
RECURSIVE Ordered(_, _, _)
Ordered(bank, from, to) ==
    IF from > to THEN <<>>
    ELSE SelectSeq(bank, LAMBDA s : s.p = from) \o Ordered(bank, from + 1, to)
(* numbers of a cycle of n particles                                         *)
Numbered(ids) == \A i \in 1..Len(ids) : ids[i] = i - 1
(* a bank of n sites made from the sites of the cycle before: sites are only *)
(* dropped, each at most once, or all are kept and some repeated             *)
RECURSIVE CountIn(_, _, _)
CountIn(q, x, n) == IF n = 0 THEN 0 ELSE (IF q[n] = x THEN 1 ELSE 0) + CountIn(q, x, n - 1)
MadeFrom(new, old) ==
    LET rng == {old[i] : i \in 1..Len(old)} IN
    /\ \A i \in 1..Len(new) : new[i] \in rng
    /\ Len(new) <= Len(old) => \A x \in rng : CountIn(new, x, Len(new)) <= CountIn(old, x, Len(old))
    /\ Len(new) >= Len(old) => \A x \in rng : CountIn(new, x, Len(new)) >= CountIn(old, x, Len(old))
=============================================================================
