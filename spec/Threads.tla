------------------------------ MODULE Threads ------------------------------
(* Teams of threads over shared memory, as the parallel regions of the code  *)
(* form them: private work, accesses to a shared cell, critical sections and *)
(* barriers.  What a region computes must not depend on who runs when.       *)
(*                                                                           *)
(* A program is a tuple with one tuple of steps per thread:                  *)
(*   "r"  read the shared cell into the private register                     *)
(*   "w"  write register + 1 to the shared cell                              *)
(*   "z"  write zero to the shared cell                                      *)
(*   "a"  add 1 to the shared cell atomically                                *)
(*   "l" "u"  enter and leave the critical section                           *)
(*   "b"  barrier                                                            *)
(* The same notion of two uses that clash is applied to the accesses that    *)
(* are recorded from the real code; the two ways of exploring schedules that *)
(* are used on the real code are defined here and shown (ThreadsMC) to find  *)
(* every schedule dependence of small programs.                              *)
EXTENDS Integers, Sequences, FiniteSets

NumThr(P) == Len(P)
Start(P) == [pc |-> [t \in 1..Len(P) |-> 1], reg |-> [t \in 1..Len(P) |-> 0],
             mem |-> 0, own |-> 0]
Done(P, s, t) == s.pc[t] > Len(P[t])
Ended(P, s) == \A t \in 1..Len(P) : Done(P, s, t)
At(P, s, t) == IF Done(P, s, t) THEN "" ELSE P[t][s.pc[t]]
Can(P, s, t) ==
    /\ ~Done(P, s, t)
    /\ At(P, s, t) = "l" => s.own = 0
    /\ At(P, s, t) = "b" => \A o \in 1..Len(P) : Done(P, s, o) \/ At(P, s, o) = "b"
Adv(s, t) == [s EXCEPT !.pc[t] = @ + 1]
Step(P, s, t) ==
    LET i == At(P, s, t) IN
    CASE i = "r" -> [Adv(s, t) EXCEPT !.reg[t] = s.mem]
      [] i = "w" -> [Adv(s, t) EXCEPT !.mem = s.reg[t] + 1]
      [] i = "z" -> [Adv(s, t) EXCEPT !.mem = 0]
      [] i = "a" -> [Adv(s, t) EXCEPT !.mem = @ + 1]
      [] i = "l" -> [Adv(s, t) EXCEPT !.own = t]
      [] i = "u" -> [Adv(s, t) EXCEPT !.own = 0]
      [] i = "b" -> [s EXCEPT !.pc = [o \in 1..Len(P) |-> IF Done(P, s, o) THEN @[o] ELSE @[o] + 1]]
      [] OTHER -> Adv(s, t)

(* What one thread after the other gives, and all that can come out          *)
RECURSIVE Serial(_, _)
Serial(P, s) ==
    IF Ended(P, s) THEN s.mem
    ELSE LET can == {t \in 1..Len(P) : Can(P, s, t)} IN
         IF can = {} THEN -1
         ELSE Serial(P, Step(P, s, CHOOSE t \in can : \A o \in can : t <= o))
RECURSIVE Reach(_, _, _)
Reach(P, S, seen) ==
    LET nx == UNION {{Step(P, s, t) : t \in {q \in 1..Len(P) : Can(P, s, q)}} : s \in S}
    IN  IF nx \subseteq seen THEN seen ELSE Reach(P, nx \ seen, seen \cup nx)
Stuck(P, s) == \A t \in 1..Len(P) : ~Can(P, s, t)
Results(P) == {s.mem : s \in {x \in Reach(P, {Start(P)}, {Start(P)}) : Stuck(P, x)}}

----------------------------------------------------------------------------
(* Uses of an address: t thread, e barriers passed, k 0 read 1 write         *)
(* 2 atomic, l locks held                                                    *)
Kinds == [r |-> 0, w |-> 1, z |-> 1, a |-> 2]
Count(q, x, n) == Cardinality({j \in 1..n : q[j] = x})
Use(P, t, j) == [t |-> t, j |-> j, e |-> Count(P[t], "b", j), k |-> Kinds[P[t][j]],
                 l |-> IF Count(P[t], "l", j) > Count(P[t], "u", j) THEN <<1>> ELSE <<>>]
Uses(P) == UNION {{Use(P, t, j) : j \in {n \in 1..Len(P[t]) : P[t][n] \in {"r", "w", "z", "a"}}} : t \in 1..Len(P)}
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Clash(u, v) ==
    /\ u.t /= v.t
    /\ u.e = v.e
    /\ ~(u.k = 0 /\ v.k = 0)
    /\ ~(u.k = 2 /\ v.k = 2)
    /\ SeqSet(u.l) \cap SeqSet(v.l) = {}
Clashes(P) == {p \in Uses(P) \X Uses(P) : Clash(p[1], p[2])}

----------------------------------------------------------------------------
(* Exploring, first way: the present thread goes on until it comes to a      *)
(* critical section, leaves one, waits at a barrier or ends; then any thread *)
(* that can go on may be next.  A configuration is <<state, who runs>>; 0    *)
(* stands for a point of choice.                                             *)
FreeNext(P, c) ==
    LET s == c[1]  me == c[2] IN
    IF me = 0 THEN {<<s, t>> : t \in {q \in 1..Len(P) : Can(P, s, q)}}
    ELSE IF ~Can(P, s, me) THEN {<<s, 0>>}
    ELSE LET n == Step(P, s, me)
             sync == At(P, s, me) \in {"u", "b"} \/ At(P, n, me) \in {"l", "b", ""}
         IN  {<<n, IF sync THEN 0 ELSE me>>}
RECURSIVE FreeReach(_, _, _)
FreeReach(P, S, seen) ==
    LET nx == UNION {FreeNext(P, c) : c \in S}
    IN  IF nx \subseteq seen THEN seen ELSE FreeReach(P, nx \ seen, seen \cup nx)
FreeResults(P) == {c[1].mem : c \in {x \in FreeReach(P, {<<Start(P), 0>>}, {<<Start(P), 0>>}) : Stuck(P, x[1])}}

(* Second way, for two uses that clash: thread a is preferred until it is    *)
(* about to make its use; then thread b goes on to its next point of choice, *)
(* and from there on any thread may be next.                                 *)
RECURSIVE UpTo(_, _, _, _)
UpTo(P, s, me, u) ==
    IF s.pc[u.t] = u.j THEN s
    ELSE LET can == {t \in 1..Len(P) : Can(P, s, t)}
             run == IF u.t \in can THEN u.t ELSE IF me \in can THEN me
                    ELSE CHOOSE t \in can : \A o \in can : t <= o
         IN  IF can = {} THEN s ELSE UpTo(P, Step(P, s, run), run, u)
DirectedResults(P) ==
    LET from == {<<UpTo(P, Start(P), p[1].t, p[1]), p[2].t>> : p \in Clashes(P)}
        all  == FreeReach(P, from, from)
    IN  {c[1].mem : c \in {x \in all : Stuck(P, x[1])}}
=============================================================================
