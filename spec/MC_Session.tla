----------------------------- MODULE MC_Session -----------------------------
(* Complete exploration of the session; every transition is printed for     *)
(* replay on the library.                                                    *)
EXTENDS Session, TLC, Json
CONSTANT MaxObjs
VARIABLES s, valid     \* valid: the last valid selection, kept independently
Init == s = Start /\ valid = "none"
Next == \E op \in Ops(s) :
          LET n == Step(s, op) IN
          /\ Len(n.s.objs) <= MaxObjs
          /\ s' = n.s
          /\ valid' = IF op[1] = "set" /\ n.r = "ok"
                      THEN (IF op[2] \in {"-", "nil"} THEN "none" ELSE Name(op[2])) ELSE valid
          /\ PrintT("@EDGE|" \o ToJson([from |-> s, op |-> op]))
Spec == Init /\ [][Next]_<<s, valid>>
LastValid == s.code = valid
Known == s.code \in Codes \cup DOMAIN Own \cup {"none"}
AnnexLower == s.annex \in {"none", "fi", "no", "de"}
(* materials are only ever added, and of the code in force or named *)
ObjsGrow == [][Len(s'.objs) >= Len(s.objs) /\ SubSeq(s'.objs, 1, Len(s.objs)) = s.objs]_<<s, valid>>
OnlySetSelects == [][(s'.code # s.code) => s'.objs = s.objs /\ s'.annex = s.annex]_<<s, valid>>
=============================================================================
