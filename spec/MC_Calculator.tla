--------------------------- MODULE MC_Calculator ----------------------------
(* All that a section can keep, and every question asked in every such state *)
(* with every way to break off.  The answers refine a section that keeps     *)
(* nothing.                                                                  *)
EXTENDS Calculator, TLC, Json
CONSTANT Some     \* the sections that are asked
VARIABLES s, o, a
vars == <<s, o, a>>
Init == s = Start /\ o = <<"A", "gross", 0>> /\ a = Fresh("A", "gross")
Next == \E p \in {x \in OpsOK : x[1] \in Some} :
          LET n == Step(s, p) IN
          /\ s' = n.s /\ o' = p /\ a' = n.a
          /\ PrintT("@EDGE|" \o ToJson([from |-> s, op |-> p, to |-> n.s, out |-> n.a.out]))
Spec == Init /\ [][Next]_vars
View == s
Aligned == \A w \in Who : s[w].mesh = NoMesh \/ (s[w].mesh.at = 0 /\ s[w].mesh.made = 0)
OwnFibres == \A w \in Who : w \notin Fibres => s[w].mesh = NoMesh
FrameBack == a.frame = 0
(* the answer is that of a section that was never asked before, or the fault *)
Stateless == [][a'.out = "fault" \/ (a'.out = Fresh(o'[1], o'[2]).out /\ a'.seen = Fresh(o'[1], o'[2]).seen)]_vars
OthersKept == [][\A w \in Who : w # o'[1] => s'[w] = s[w]]_vars
=============================================================================
