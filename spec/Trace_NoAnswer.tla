--------------------------- MODULE Trace_NoAnswer ---------------------------
(* Every call of the library ends: an event that says that one did not is   *)
(* not allowed by any specification.                                         *)
EXTENDS TraceKit
Verdict(e) == IF "noanswer" \in DOMAIN e THEN {"no answer"} ELSE {}
Next == Walk(Verdict)
=============================================================================
