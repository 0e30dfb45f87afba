------------------------------ MODULE TraceBase ------------------------------
(* Frame of all conformance specs: the records written by the real code are  *)
(* read from the file named by the environment variable TRACE.               *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* Helpers to write verdicts: "" means accepted, anything else is the reason *)
First(list) == LET bad == SelectSeq(list, LAMBDA c : ~c[2])
               IN  IF Len(bad) = 0 THEN "" ELSE bad[1][1]
=============================================================================
