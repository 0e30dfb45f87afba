------------------------------- MODULE MatLib -------------------------------
(* Reading a cross-section library line by line.  A line is a sequence of    *)
(* tokens [s |-> text, num |-> is a number, int |-> is a whole number,       *)
(* v |-> value, n |-> whole value].  Comments and empty lines are gone.      *)
EXTENDS Scatter, SequencesExt
LibInit == [ph |-> "title", ng |-> 0, nmat |-> 0, name |-> "", rows |-> <<>>, scat |-> <<>>,
            mats |-> <<>>, bounds |-> <<>>, bad |-> ""]
Fail(s, why) == [s EXCEPT !.bad = why]
Nums(line, k) == Len(line) >= k /\ \A i \in 1..k : line[i].num
Values(line) == [i \in 1..Len(line) |-> line[i].v]
AllNums(line, k) == Len(line) = k /\ Nums(line, k)
IsHead(line) == Len(line) = 3 /\ line[1].s = "XSMACRO" /\ line[3].int
HasName(mats, nm) == \E i \in 1..Len(mats) : mats[i].name = nm
NextPh(s) == IF Len(s.mats) = s.nmat THEN "done" ELSE "head"
LineStep(s, line) ==
   IF s.bad # "" THEN s
   ELSE CASE s.ph = "title" -> [s EXCEPT !.ph = "sizes"]
     [] s.ph = "sizes" -> IF Len(line) < 2 \/ ~line[1].int \/ ~line[2].int THEN Fail(s, "sizes")
                          ELSE IF line[1].n < 1 THEN Fail(s, "no groups")
                          ELSE [s EXCEPT !.ph = "bounds", !.ng = line[1].n, !.nmat = line[2].n]
     [] s.ph = "bounds" -> IF ~Nums(line, s.ng) THEN Fail(s, "bounds")
                           ELSE [s EXCEPT !.ph = NextPh(s), !.bounds = SubSeq(Values(line), 1, s.ng)]
     [] s.ph = "head" -> IF ~IsHead(line) THEN Fail(s, "header")
                         ELSE IF HasName(s.mats, line[2].s) THEN Fail(s, "duplicate name")
                         ELSE [s EXCEPT !.ph = "rows", !.name = line[2].s, !.rows = <<>>, !.scat = <<>>]
     [] s.ph = "rows" -> IF ~AllNums(line, 4) THEN Fail(s, "data row")
                         ELSE LET r == Append(s.rows, Values(line))
                              IN [s EXCEPT !.rows = r, !.ph = IF Len(r) = s.ng THEN "scat" ELSE "rows"]
     [] s.ph = "scat" -> IF ~AllNums(line, s.ng) THEN Fail(s, "scattering row")
                         ELSE LET t == Append(s.scat, Values(line))
                                  u == [s EXCEPT !.scat = t]
                                  v == [u EXCEPT !.mats = Append(@, [name |-> s.name, rows |-> s.rows, scat |-> t])]
                              IN IF Len(t) < s.ng THEN u ELSE [v EXCEPT !.ph = NextPh(v)]
     [] s.ph = "done" -> s
LibEnd(s) == IF s.bad = "" /\ s.ph # "done" THEN Fail(s, "incomplete") ELSE s
ReadLib(lines) == LibEnd(FoldLeft(LineStep, LibInit, lines))
(* derived data of a block                                                    *)
Abs(mat, g) == mat.rows[g][1]
ChiSum(mat) == FSum([g \in 1..Len(mat.rows) |-> mat.rows[g][4]])
ChiOf(mat, g) == IF \E h \in 1..Len(mat.rows) : FLt(0, mat.rows[h][4]) THEN FDiv(mat.rows[g][4], ChiSum(mat)) ELSE mat.rows[g][4]
Total(mat, g) == FAdd(Abs(mat, g), Out(mat.scat, g))
(* assignment of numbers to names                                             *)
Known(lib, nm) == HasName(lib.mats, nm)
AssignOk(lib, as) == /\ \A i \in 1..Len(as) : Known(lib, as[i].name)
                     /\ \A i, j \in 1..Len(as) : i # j => as[i].id # as[j].id
Named(lib, nm) == lib.mats[CHOOSE i \in 1..Len(lib.mats) : lib.mats[i].name = nm]
=============================================================================
