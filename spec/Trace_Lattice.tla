--------------------------- MODULE Trace_Lattice ----------------------------
(* Histories of the lattice model replayed on the library: what came out is  *)
(* compared with the model cell by cell.                                     *)
EXTENDS Planar, Lattice
Whole1(x) == Close(x, Rint(x), 0, "1e-9")
Straight(e) == Close(e[1][1], e[2][1], 0, "1e-9") \/ Close(e[1][2], e[2][2], 0, "1e-9")
Holds(rings, c) ==
  LET h == Hits(Edges(rings), Num(c[1]) ++ "0.5") IN Odd(CountBelow(h, Num(c[2]) ++ "0.5"))
SameCells(s, o) ==
  /\ \A i \in DOMAIN Points(o.r) : Whole1(Points(o.r)[i][1]) /\ Whole1(Points(o.r)[i][2])
  /\ \A i \in DOMAIN Edges(o.r) : Straight(Edges(o.r)[i])
  /\ \A c \in s.cells : Holds(o.r, c)
  /\ Close(Area(o.r), Cardinality(s.cells), 0, "1e-9")
  /\ Close(o.area, Cardinality(s.cells), 0, "1e-9")
Verdict(e) ==
  LET n == Fold(Base[e.h.start], e.h.ops, 1)  o == e.o IN
  (IF e.r = n.r THEN {} ELSE {"outcome"})
  \cup (IF Len(o.s) = Len(n.g.s) /\ Len(o.b) = Len(n.g.b) THEN {} ELSE {"number of parts"})
  \cup (IF \A i \in 1..MinI(Len(o.s), Len(n.g.s)) : SameCells(n.g.s[i], o.s[i]) THEN {} ELSE {"cells"})
  \cup (IF \A i \in 1..MinI(Len(o.s), Len(n.g.s)) : LET a == n.g.s[i]  b == o.s[i] IN a.m = b.m /\ a.c = b.c /\ a.n = b.n /\ a.g = b.g THEN {} ELSE {"attributes"})
  \cup (IF \A i \in 1..MinI(Len(o.b), Len(n.g.b)) : LET a == n.g.b[i]  b == o.b[i] IN
            /\ a.m = b.m /\ a.n = b.n /\ a.g = b.g /\ Close(b.x, a.x, 0, "1e-9") /\ Close(b.y, a.y, 0, "1e-9") /\ Close(b.d, 16, "1e-12", 0)
        THEN {} ELSE {"bars"})
  \cup (IF e.compound => e.rc = RC(n.g) THEN {} ELSE {"reinforced concrete"})
  \cup (IF e.compound => Close(e.area, Total(n.g, 1), 0, "1e-9") THEN {} ELSE {"area"})
  \cup (IF e.kept THEN {} ELSE {"operand changed"})
Next == Walk(Verdict)
=============================================================================
