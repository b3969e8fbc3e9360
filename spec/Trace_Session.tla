--------------------------- MODULE Trace_Session ---------------------------
(* Histories recorded from the library, each from a fresh interpreter.  A    *)
(* step is what was asked, what came back, and the global state seen after.  *)
EXTENDS TraceKit, Session
Seen(st, s) == \/ "none" \in DOMAIN st.state   \* not looked at
               \/ (/\ st.state.concrete = Class[s.code].concrete
                   /\ st.state.steel = Class[s.code].steel
                   /\ st.state.annex \in {s.annex, "?"})
RECURSIVE Fold(_, _, _, _)
Fold(steps, i, s, bad) ==
  IF i > Len(steps) THEN bad
  ELSE LET st == steps[i]
           n == Step(s, st.op)
           r == IF st.op[1] = "list" THEN {st.r[j] : j \in DOMAIN st.r} = Codes ELSE st.r = n.r
           b == (IF r THEN {} ELSE {"result of " \o st.op[1]})
                \cup (IF Seen(st, n.s) THEN {} ELSE {"state after " \o st.op[1]})
       IN Fold(steps, i + 1, n.s, bad \cup b)
Verdict(e) == Fold(e.steps, 1, Start, {})
Next == Walk(Verdict)
=============================================================================
