---------------------------- MODULE Trace_MC2010 ----------------------------
(* Trace of calls of the functions of fib Model Code 2010. *)
EXTENDS MC2010
Verdict(e) ==
  (IF Judge(e) THEN {} ELSE {"value"})
  \cup (IF e.w = Warned(e) THEN {} ELSE {"warning"})
  \cup (IF e.same THEN {} ELSE {"arguments changed"})
Next == Walk(Verdict)
=============================================================================
