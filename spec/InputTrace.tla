----------------------------- MODULE InputTrace -----------------------------
(* A run of the program on an input: carried through and its results written *)
(* if the input is consistent, otherwise refused with a message and no       *)
(* results.                                                                  *)
EXTENDS TraceCases, Input
InputVerdict(r) ==
   IF r.out.crash # 0 THEN "crash or hang" ELSE IF r.out.exc # "" THEN "exception" ELSE
   LET o == r.out  ok == Consistent(r.in)
       res == {i \in 1..Len(o.files) : o.files[i] \notin {"in.log"}} IN
   First(<<
      <<"ended by a signal", o.status = "exit">>,
      <<"consistent input refused", ok => o.code = 0>>,
      <<"no results of a consistent input", ok => res = {i \in 1..Len(o.files) : o.files[i] = "in.h5"} /\ res # {}>>,
      <<"accepted although inconsistent: " \o Rules(r.in), ~ok => o.code # 0>>,
      <<"no message", ~ok => o.said>>,
      <<"results of an inconsistent input", ~ok => res = {}>> >>)
=============================================================================
