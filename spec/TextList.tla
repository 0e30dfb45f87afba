------------------------------ MODULE TextList ------------------------------
(* Lists of numbers as written in the input.  A text is a sequence of        *)
(* one-character strings.  Each reader is a deterministic machine consuming  *)
(* one character per step:                                                   *)
(*   BraceStep  grouped lists:  1 2 {3 4} 5   ->  <<1>> <<2>> <<3,4>> <<5>>  *)
(*   IntStep    plain integer lists                                          *)
(* Numbers are kept as digit sequences so that no width limit interferes.    *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, F64

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Blank == {" ", "\t", "\n", "\r", "\f", "v"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9

RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = "0" THEN Strip(Tail(d)) ELSE d

MaxInt == <<"2","1","4","7","4","8","3","6","4","7">>
MinMag == <<"2","1","4","7","4","8","3","6","4","8">>
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE
               ELSE IF DigitVal(a[1]) # DigitVal(b[1]) THEN DigitVal(a[1]) < DigitVal(b[1])
               ELSE LexLe(Tail(a), Tail(b))
Fits(d, neg) == LET s == Strip(d) m == IF neg THEN MinMag ELSE MaxInt
                IN  Len(s) < Len(m) \/ (Len(s) = Len(m) /\ LexLe(s, m))

Num(neg, d) == [neg |-> neg /\ Strip(d) # <<"0">>, mag |-> Strip(d)]

(* ------------------------------------------------------------ grouped lists *)
(* depth: inside braces or not; cur: digits of the number being read;          *)
(* grp: numbers of the open group; out: finished groups; bad: rejected          *)
BraceInit == [depth |-> 0, cur |-> <<>>, grp |-> <<>>, out |-> <<>>, bad |-> FALSE]

EndNum(s) == IF s.cur = <<>> THEN s
             ELSE IF ~Fits(s.cur, FALSE) THEN [s EXCEPT !.bad = TRUE]
             ELSE IF s.depth = 0
                  THEN [s EXCEPT !.out = Append(@, << Num(FALSE, s.cur) >>), !.cur = <<>>]
                  ELSE [s EXCEPT !.grp = Append(@, Num(FALSE, s.cur)), !.cur = <<>>]

BraceStep(s, c) ==
    IF s.bad THEN s
    ELSE IF c \in Digits THEN [s EXCEPT !.cur = Append(@, c)]
    ELSE LET t == EndNum(s) IN
         IF c \in Blank THEN t
         ELSE IF c = "{" THEN
              IF t.depth = 1 THEN [t EXCEPT !.bad = TRUE] ELSE [t EXCEPT !.depth = 1, !.grp = <<>>]
         ELSE IF c = "}" THEN
              IF t.depth = 0 \/ t.grp = <<>> THEN [t EXCEPT !.bad = TRUE]
              ELSE [t EXCEPT !.depth = 0, !.out = Append(@, t.grp), !.grp = <<>>]
         ELSE [t EXCEPT !.bad = TRUE]

BraceEnd(s) == LET t == EndNum(s) IN IF t.depth # 0 THEN [t EXCEPT !.bad = TRUE] ELSE t
ReadBraces(text) == BraceEnd(FoldLeft(BraceStep, BraceInit, text))

(* -------------------------------------------------------------- integer lists *)
IntInit == [cur |-> <<>>, neg |-> FALSE, sign |-> FALSE, out |-> <<>>, bad |-> FALSE]
IntEndNum(s) == IF s.cur = <<>> THEN IF s.sign THEN [s EXCEPT !.bad = TRUE] ELSE s
                ELSE IF ~Fits(s.cur, s.neg) THEN [s EXCEPT !.bad = TRUE]
                ELSE [s EXCEPT !.out = Append(@, Num(s.neg, s.cur)), !.cur = <<>>,
                               !.neg = FALSE, !.sign = FALSE]
IntStep(s, c) ==
    IF s.bad THEN s
    ELSE IF c \in Digits THEN [s EXCEPT !.cur = Append(@, c)]
    ELSE LET t == IntEndNum(s) IN
         IF c \in Blank THEN t
         ELSE IF c \in {"+", "-"} THEN [t EXCEPT !.sign = TRUE, !.neg = (c = "-")]
         ELSE [t EXCEPT !.bad = TRUE]
ReadInts(text) == IntEndNum(FoldLeft(IntStep, IntInit, text))

(* ----------------------------------------------------------------- real lists *)
(* tokens separated by blanks, each a decimal literal                          *)
TokenStep(s, c) == IF c \in Blank
                   THEN IF s.cur = <<>> THEN s ELSE [cur |-> <<>>, out |-> Append(s.out, s.cur)]
                   ELSE [s EXCEPT !.cur = Append(@, c)]
Tokens(text) == LET s == FoldLeft(TokenStep, [cur |-> <<>>, out |-> <<>>], text)
                IN  IF s.cur = <<>> THEN s.out ELSE Append(s.out, s.cur)
(* automaton of a decimal literal *)
LitNext(q, c) ==
    CASE q = "start" -> IF c \in {"+","-"} THEN "sign" ELSE IF c \in Digits THEN "int" ELSE IF c = "." THEN "dot" ELSE "no"
      [] q = "sign"  -> IF c \in Digits THEN "int" ELSE IF c = "." THEN "dot" ELSE "no"
      [] q = "int"   -> IF c \in Digits THEN "int" ELSE IF c = "." THEN "frac" ELSE IF c \in {"e","E"} THEN "e" ELSE "no"
      [] q = "dot"   -> IF c \in Digits THEN "frac" ELSE "no"
      [] q = "frac"  -> IF c \in Digits THEN "frac" ELSE IF c \in {"e","E"} THEN "e" ELSE "no"
      [] q = "e"     -> IF c \in {"+","-"} THEN "es" ELSE IF c \in Digits THEN "exp" ELSE "no"
      [] q = "es"    -> IF c \in Digits THEN "exp" ELSE "no"
      [] q = "exp"   -> IF c \in Digits THEN "exp" ELSE "no"
      [] OTHER       -> "no"
IsLit(tok) == FoldLeft(LitNext, "start", tok) \in {"int", "frac", "exp"}

(* ---------------------------------------------------------------- range text *)
(* "0-2, 5" denotes {0,1,2,5}                                                  *)
RangeInit == [set |-> {}, lo |-> -1, cur |-> -1, bad |-> FALSE]
RangeFlush(s) == IF s.cur = -1 THEN [s EXCEPT !.bad = TRUE]
                 ELSE [set |-> s.set \cup (IF s.lo = -1 THEN {s.cur} ELSE s.lo .. s.cur),
                       lo |-> -1, cur |-> -1, bad |-> s.bad \/ (s.lo > s.cur)]
RangeStep(s, c) == IF c \in Digits THEN [s EXCEPT !.cur = (IF @ = -1 THEN 0 ELSE @ * 10) + DigitVal(c)]
                   ELSE IF c = "-" THEN IF s.cur = -1 \/ s.lo # -1 THEN [s EXCEPT !.bad = TRUE]
                                        ELSE [s EXCEPT !.lo = s.cur, !.cur = -1]
                   ELSE IF c = "," THEN RangeFlush(s)
                   ELSE IF c \in Blank THEN s
                   ELSE [s EXCEPT !.bad = TRUE]
ReadRanges(text) == IF text = <<>> THEN [RangeInit EXCEPT !.set = {}]
                    ELSE RangeFlush(FoldLeft(RangeStep, RangeInit, text))
=============================================================================
