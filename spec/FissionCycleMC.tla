--------------------------- MODULE FissionCycleMC ---------------------------
(* All interleavings of the histories of a few cycles, for every way of      *)
(* sharing the particles out among the threads.                              *)
EXTENDS FissionCycle, TLC
CONSTANTS N, T, Cycles
VARIABLES cyc, src, owner, state, bank

Ids == 0..(N - 1)
\* what a history makes: depends on the number in the run and on where it starts
Make(c, id, w) == (7 * c + 3 * id + w) % 3
Child(c, id, w, j) == (5 * w + 2 * c + id + 3 * j) % 4
\* bringing the bank to size: depends on the bank alone
RECURSIVE Fit(_, _, _)
Fit(b, n0, c) ==
    IF Len(b) = N THEN b
    ELSE IF Len(b) < N THEN Fit(Append(b, b[((c + Len(b)) % n0) + 1]), n0, c)
    ELSE LET i == ((c + Len(b)) % Len(b)) + 1
         IN  Fit(SubSeq([b EXCEPT ![i] = b[Len(b)]], 1, Len(b) - 1), n0, c)
NextSrc(b, c) ==
    LET s == Ordered(b, 0, N - 1)
        f == IF Len(s) = 0 THEN [i \in 1..N |-> [p |-> 0, w |-> 0]] ELSE Fit(s, Len(s), c)
    IN  [i \in 1..N |-> [id |-> i - 1, w |-> f[i].w]]
First == [i \in 1..N |-> [id |-> i - 1, w |-> i % 4]]
\* histories one after the other
RECURSIVE Alone(_, _, _)
Alone(s, c, i) ==
    IF i > N THEN <<>>
    ELSE [j \in 1..Make(c, s[i].id, s[i].w) |-> [p |-> s[i].id, w |-> Child(c, s[i].id, s[i].w, j)]] \o Alone(s, c, i + 1)
RECURSIVE SerialSrc(_)
SerialSrc(c) == IF c = 1 THEN First ELSE NextSrc(Alone(SerialSrc(c - 1), c - 1, 1), c - 1)

\* state of a history: -1 not begun, otherwise offspring made so far, 99 over
Init == /\ cyc = 1 /\ src = First /\ bank = <<>>
        /\ owner \in [Ids -> 1..T]
        /\ state = [i \in Ids |-> -1]
Running(t) == {i \in Ids : owner[i] = t /\ state[i] \in 0..50}
Begin(t) == /\ Running(t) = {}
            /\ \E i \in Ids : /\ owner[i] = t /\ state[i] = -1
                              /\ \A k \in Ids : owner[k] = t /\ state[k] = -1 => i <= k
                              /\ state' = [state EXCEPT ![i] = 0]
            /\ UNCHANGED <<cyc, src, owner, bank>>
Go(t) == /\ \E i \in Running(t) :
               LET w == src[i + 1].w IN
               IF state[i] < Make(cyc, i, w)
               THEN /\ bank' = Append(bank, [p |-> i, w |-> Child(cyc, i, w, state[i] + 1)])
                    /\ state' = [state EXCEPT ![i] = @ + 1]
               ELSE bank' = bank /\ state' = [state EXCEPT ![i] = 99]
         /\ UNCHANGED <<cyc, src, owner>>
EndCycle == /\ cyc < Cycles
            /\ \A i \in Ids : state[i] = 99
            /\ src' = NextSrc(bank, cyc)
            /\ cyc' = cyc + 1 /\ bank' = <<>>
            /\ state' = [i \in Ids |-> -1]
            /\ UNCHANGED owner
Next == EndCycle \/ \E t \in 1..T : Begin(t) \/ Go(t)

Reproducible == src = SerialSrc(cyc)
SameSites == (\A i \in Ids : state[i] = 99) => Ordered(bank, 0, N - 1) = Alone(src, cyc, 1)
Consecutive == Len(src) = N /\ Numbered([i \in 1..N |-> src[i].id])
=============================================================================
