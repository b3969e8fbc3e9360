--------------------------- MODULE Trace_EC2_2023 ---------------------------
(* Trace of calls of the functions of EN 1992-1-1:2023. *)
EXTENDS EC2_2023
Verdict(e) ==
  (IF Judge(e) THEN {} ELSE {"value"})
  \cup (IF e.w THEN {"unexpected warning"} ELSE {})
  \cup (IF e.same THEN {} ELSE {"arguments changed"})
Next == Walk(Verdict)
=============================================================================
