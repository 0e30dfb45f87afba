---------------------------- MODULE TextListTrace ----------------------------
EXTENDS TraceCases, TextList

Rejected(r) == r.out.exc # ""
Numbers(list) == [i \in 1..Len(list) |-> [neg |-> list[i].neg, mag |-> list[i].mag]]
JudgeBraces(r) ==
    LET e == ReadBraces(r.in.text) IN
    IF e.bad THEN IF Rejected(r) THEN "" ELSE "malformed grouped list accepted"
    ELSE IF Rejected(r) THEN "well-formed grouped list refused"
    ELSE IF [i \in 1..Len(r.out.groups) |-> Numbers(r.out.groups[i])] # e.out
         THEN "groups differ from the text" ELSE ""
JudgeInts(r) ==
    LET e == ReadInts(r.in.text) IN
    IF e.bad THEN IF Rejected(r) THEN "" ELSE "malformed integer list accepted"
    ELSE IF Rejected(r) THEN "well-formed integer list refused"
    ELSE IF Numbers(r.out.nums) # e.out THEN "integers differ from the text" ELSE ""
JudgeReals(r) ==
    LET toks == Tokens(r.in.text)
        good == \A i \in 1..Len(toks) : IsLit(toks[i])
    IN  IF ~good THEN IF Rejected(r) THEN "" ELSE "malformed number list accepted"
        ELSE IF Rejected(r) THEN "well-formed number list refused"
        ELSE IF Len(r.out.vals) # Len(toks) THEN "number count differs from the text"
        ELSE IF \E i \in 1..Len(toks) : ~FEq(r.out.vals[i], FParse(toks[i]))
             THEN "numbers differ from the text" ELSE ""
JudgeRange(r) ==
    LET e == ReadRanges(r.out.chars)
        want == {i - 1 : i \in {j \in 1..Len(r.in.bits) : r.in.bits[j] = 1}}
    IN  IF e.bad THEN "range text is malformed"
        ELSE IF e.set # want THEN "range text denotes another set" ELSE ""
TextVerdict(r) ==
    IF r.out.crash # 0 THEN "reader crashed or hung"
    ELSE CASE r.in.op = "braces" -> JudgeBraces(r)
           [] r.in.op = "ints" -> JudgeInts(r)
           [] r.in.op = "reals" -> JudgeReals(r)
           [] r.in.op = "range" -> JudgeRange(r)
=============================================================================
