---------------------------- MODULE Trace_World -----------------------------
(* Recorded histories against the model of what a user holds.  A history is  *)
(* played twice on equal worlds: as it is, and with the makers first and the *)
(* questions afterwards in reverse order; every question about what the      *)
(* world begins with was also asked alone in a world of its own.             *)
EXTENDS TraceKit, World
Fibrous(s, i) == i > 0 /\ i <= Len(s) /\ s[i] = "sec"
SameGroup(a, b, t) == Len(a) = Len(b) /\ LET m == MaxSeq([i \in DOMAIN a |-> Abs(a[i])]) IN
                        \A i \in DOMAIN a : NumTol(a[i], b[i], 0, t ** (IF IsFin(m) THEN m ELSE 1))
SameAnswer(a, b, t) == a.k = b.k /\ Len(a.g) = Len(b.g) /\ \A i \in DOMAIN a.g : SameGroup(a.g[i], b.g[i], t)
(* fibres are turned there and back *)
Tol(s, i) == IF Fibrous(s, i) THEN "1e-6" ELSE "1e-12"
OpOf(x) == <<x.op, x.i, x.n, x.j>>
StepBad(e, k, s) ==
  LET x == e.steps[k] IN
  (IF x.args /\ x.argsother THEN {} ELSE {"argument changed"}) \cup
  (IF x.done = x.doneother THEN {} ELSE {"possible or not depends on the history"}) \cup
  (IF ~x.done THEN {}
   ELSE IF x.op = "make" THEN
        (IF MakeOK(s, OpOf(x)) /\ x.j \in Partner(s, x.i, x.n) /\ x.kind = Makers[s[x.i]][x.n] THEN {} ELSE {"something else made"})
   ELSE (IF AskOK(s, OpOf(x)) THEN {} ELSE {"no such question"}) \cup
        (IF x.kept /\ x.keptother THEN {} ELSE {"answer changed later"}) \cup
        (IF SameAnswer(x.v, x.other, Tol(s, x.i)) THEN {} ELSE {"answer depends on the history"}) \cup
        (IF "first" \notin DOMAIN x \/ SameAnswer(x.first, x.v, Tol(s, x.i)) THEN {} ELSE {"answer differs from that of an untouched object"}) \cup
        (IF \A m \in 1..(k - 1) : (e.steps[m].op = "ask" /\ e.steps[m].done /\ e.steps[m].i = x.i /\ e.steps[m].n = x.n)
                                   => SameAnswer(e.steps[m].v, x.v, Tol(s, x.i)) THEN {} ELSE {"asked twice, answered differently"}))
RECURSIVE Fold(_, _, _)
Fold(e, k, s) ==
  IF k > Len(e.steps) THEN (IF s = e.kinds THEN {} ELSE {"something else held"})
  ELSE LET x == e.steps[k] IN StepBad(e, k, s) \cup Fold(e, k + 1, IF x.op = "make" THEN Step(s, OpOf(x), x.done) ELSE s)
Verdict(e) == Fold(e, 1, Start)
              \cup (IF e.changed = <<>> THEN {} ELSE {"objects changed"})
              \cup (IF e.differ = <<>> THEN {} ELSE {"what is made depends on the questions asked"})
              \cup (IF e.renamed = <<>> THEN {} ELSE {"objects renamed"})
Next == Walk(Verdict)
=============================================================================
