------------------------------- MODULE Expand -------------------------------
(* Region-wise cross sections on demand.  A request names a group and        *)
(* possibly a splitting term; the answer is always                           *)
(*    current cross section of the region + splitting term of this request   *)
(* whatever was requested before.                                            *)
EXTENDS Naturals, Integers, Sequences, F64
Answer(cur, g, split) == [i \in 1..Len(cur) |-> IF split = <<>> THEN cur[i][g] ELSE FAdd(cur[i][g], split[i])]
=============================================================================
