----------------------------- MODULE MC_WorldOps -----------------------------
(* Every operation that the world offers at the beginning, printed for       *)
(* replay, and one more with what a maker made.                              *)
EXTENDS World, TLC, Json
VARIABLES s, ops
Init == s = Start /\ ops = <<>>
Possible(t, I) == {<<"ask", i, q, 0>> : <<i, q>> \in UNION {{i} \X Questions[t[i]] : i \in I}}
                  \cup UNION {UNION {{<<"make", i, m, j>> : j \in Partner(t, i, m)} : m \in DOMAIN Makers[t[i]] \ {"none"}} : i \in I}
Next == /\ Len(ops) < 2
        /\ \E op \in Possible(s, IF ops = <<>> THEN DOMAIN s ELSE {i \in DOMAIN s : i > Len(Base)}) :
             /\ s' = Step(s, op, TRUE) /\ ops' = Append(ops, op)
             /\ (Len(ops') = 1 => PrintT("@O|" \o ToJson(op)))
Kinds == {"law", "mat", "geo", "bar", "sec", "profile"}
Typed == \A i \in DOMAIN s : s[i] \in Kinds
Kept == SubSeq(s, 1, Len(Base)) = Start
Grows == Len(s) = Len(Base) + Cardinality({k \in DOMAIN ops : ops[k][1] = "make"})
(* an operation is one of the two and the model offers it *)
Offered == \A k \in DOMAIN ops : IF ops[k][1] = "ask" THEN ops[k][3] \in Questions[s[ops[k][2]]] ELSE MakeOK(s, ops[k])
=============================================================================
