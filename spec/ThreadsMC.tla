----------------------------- MODULE ThreadsMC -----------------------------
(* 1. Every small program of two threads (and longer ones in which both do   *)
(*    the same) is a starting state; its result                              *)
(*    depends on the schedule only if one of the two ways of exploring shows *)
(*    it.                                                                    *)
(* 2. The shape of a sweep (private work, barrier, merge in a critical       *)
(*    section, barrier) with three threads gives the same for every          *)
(*    schedule; the choices made on the way are the schedules for the code.  *)
EXTENDS Threads, TLC, Json
CONSTANTS MaxLen, SameLen, SweepThreads
VARIABLES mode, prog, st, run, sched, last

Steps == {"r", "w", "z", "a", "l", "u", "b"}
Code(n) == UNION {[1..k -> Steps] : k \in 1..n}
\* critical sections are entered and left in turn and end before a barrier
Well(q) == /\ \A n \in 1..Len(q) : Count(q, "l", n) - Count(q, "u", n) \in {0, 1}
           /\ Count(q, "l", Len(q)) = Count(q, "u", Len(q))
           /\ \A n \in 1..Len(q) : q[n] = "b" => Count(q, "l", n) = Count(q, "u", n)
           /\ q[Len(q)] /= "b" /\ q[1] /= "b"
Codes == {q \in Code(MaxLen) : Well(q)}
Merge == <<"b", "l", "r", "w", "u", "b">>
Sweep == [t \in 1..SweepThreads |-> Merge]

Init == \/ /\ mode = "any"
           /\ prog \in {P \in Codes \X Codes : Count(P[1], "b", Len(P[1])) = Count(P[2], "b", Len(P[2]))}
           /\ st = Start(prog) /\ run = 0 /\ sched = <<>> /\ last = 1
        \/ /\ mode = "any"
           /\ prog \in {<<q, q>> : q \in {c \in Code(SameLen) : Well(c)}}
           /\ st = Start(prog) /\ run = 0 /\ sched = <<>> /\ last = 1
        \/ /\ mode = "sweep"
           /\ prog = Sweep
           /\ st = Start(prog) /\ run = 0 /\ sched = <<>> /\ last = 1
\* the runtime: a choice among those who can go on, counted from the present one
Index(c, me, t) == LET k(o) == (o - me + Len(prog)) % Len(prog) IN Cardinality({o \in c : k(o) < k(t)})
Next == /\ mode = "sweep"
        /\ ~Ended(prog, st)
        /\ \E c \in FreeNext(prog, <<st, run>>) :
              /\ st' = c[1] /\ run' = c[2]
              /\ last' = IF c[2] = 0 THEN last ELSE c[2]
              /\ sched' = IF run = 0
                          THEN LET can == {t \in 1..Len(prog) : Can(prog, st, t)}
                               IN  IF Cardinality(can) > 1 THEN Append(sched, Index(can, last, c[2])) ELSE sched
                          ELSE sched
        /\ UNCHANGED <<mode, prog>>

Covered == mode = "any" =>
    LET all == Results(prog) IN
    Cardinality(all) > 1 =>
        Cardinality(FreeResults(prog) \cup DirectedResults(prog) \cup {Serial(prog, st)}) > 1
SweepSame == mode = "sweep" /\ Ended(prog, st) => st.mem = SweepThreads
Exclusive == mode = "sweep" => \A t \in 1..Len(prog) : At(prog, st, t) \in {"r", "w", "u"} => st.own = t
Emit == mode = "sweep" /\ Ended(prog, st) => PrintT("GEN " \o ToJson(sched))
=============================================================================
