-------------------------- MODULE Trace_Calculator --------------------------
(* Recorded histories of calculations against the model of what is kept.     *)
(* e.fresh: answers of sections that were asked nothing else.                *)
EXTENDS TraceKit, Calculator
Tol(w) == IF w \in Fibres THEN "1e-6" ELSE "1e-8"   \* fibres are turned there and back
SameGroup(a, b, t) == Len(a) = Len(b) /\ LET m == MaxSeq([i \in DOMAIN a |-> Abs(a[i])]) IN
                        \A i \in DOMAIN a : NumTol(a[i], b[i], 0, t ** (IF IsFin(m) THEN m ELSE 1))
SameAnswer(a, b, t) == a.k = b.k /\ Len(a.g) = Len(b.g) /\ \A i \in DOMAIN a.g : SameGroup(a.g[i], b.g[i], t)
StepBad(e, i, s) ==
  LET x == e.steps[i]
      want == e.fresh[x.w \o "." \o x.q]
      \* a calculation that was not reached by the fault is answered as ever
      model == Step(s, <<x.w, x.q, 0>>).a
  IN IF x.fuse THEN (IF x.v.k = "Fault" \/ SameAnswer(want, x.v, Tol(x.w)) THEN {} ELSE {"fault of a law hidden"})
     ELSE IF model.seen # Fresh(x.w, x.q).seen \/ model.out # Fresh(x.w, x.q).out THEN {"the model depends on the history"}
     ELSE IF model.out = "ok" /\ want.k = "Fault" THEN {"fault without a cause"}
     ELSE IF SameAnswer(want, x.v, Tol(x.w)) THEN {} ELSE {"answer depends on the history"}
Refused(e, i) == LET x == e.steps[i] IN
  IF x.q \in {"bendx", "curvex", "mmx", "nmx"} /\ ~x.fuse /\ x.v.k # "ValueError" THEN {"refusal"} ELSE {}
(* the model makes the same step; where a fault struck is not known, the     *)
(* state of a section asked again is the same for every place                *)
Broken(s, x) == LET ks == {k \in Faults[x.q] : Step(s, <<x.w, x.q, k>>).a.out = "fault"} IN
                IF ks = {} THEN s ELSE Step(s, <<x.w, x.q, CHOOSE k \in ks : TRUE>>).s
RECURSIVE Fold(_, _, _)
Fold(e, i, s) ==
  IF i > Len(e.steps) THEN {}
  ELSE LET x == e.steps[i] IN
       StepBad(e, i, s) \cup Refused(e, i) \cup (IF x.kept THEN {} ELSE {"answer changed later"})
       \cup Fold(e, i + 1, IF x.fuse THEN Broken(s, x) ELSE Step(s, <<x.w, x.q, 0>>).s)
Verdict(e) == Fold(e, 1, Start) \cup (IF e.changed = <<>> THEN {} ELSE {"objects changed"})
Next == Walk(Verdict)
=============================================================================
