------------------------------ MODULE Lattice -------------------------------
(* Geometries on a lattice: a surface is a set of unit cells, named by their *)
(* lower left corner.  Everything is exact, so that all short histories of   *)
(* motions, additions, subtractions and copies can be explored.              *)
EXTENDS Integers, Sequences, FiniteSets
Box(x, y, w, h) == (x..(x + w - 1)) \X (y..(y + h - 1))
Surf(cells, m, c, n, g) == [cells |-> cells, m |-> m, c |-> c, n |-> n, g |-> g]
Bar(x, y, m, n, g) == [x |-> x, y |-> y, m |-> m, n |-> n, g |-> g]
Only(s) == [s |-> <<s>>, b |-> <<>>]
Base == [R |-> Only(Surf(Box(0, 0, 3, 2), "conc", TRUE, "R", "")),
         H |-> Only(Surf(Box(-1, -1, 3, 3) \ {<<0, 0>>}, "elas", FALSE, "H", "ring")),   \* a hole
         L |-> Only(Surf(Box(0, 0, 1, 3) \cup Box(1, 0, 2, 1), "elas", TRUE, "L", "")),   \* concrete by flag
         B |-> [s |-> <<>>, b |-> <<Bar(1, 1, "stee", "B", "low")>>],
         C |-> [s |-> <<Surf(Box(1, 0, 1, 2), "plas", FALSE, "C", "x")>>, b |-> <<Bar(0, 2, "stee", "Cb", "")>>]]
Solid == {"R", "H", "L", "C"}
(* motions: of cells by their lower left corner, of points *)
Motions == {"right", "leftup", "quarter", "back", "half", "mirx", "miry", "diag", "anti"}
Point(m, p) ==
  CASE m = "right" -> <<p[1] + 1, p[2]>>
    [] m = "leftup" -> <<p[1] - 2, p[2] + 1>>
    [] m = "quarter" -> <<-p[2], p[1]>>                          \* about the origin
    [] m = "back" -> <<1 + (p[2] - 2), 2 - (p[1] - 1)>>          \* -90 degrees about (1, 2)
    [] m = "half" -> <<4 - p[1], 2 - p[2]>>                      \* about (2, 1)
    [] m = "mirx" -> <<2 - p[1], p[2]>>                          \* about x = 1
    [] m = "miry" -> <<p[1], -p[2]>>
    [] m = "diag" -> <<p[2] - 1, p[1] + 1>>                      \* about y = x + 1
    [] m = "anti" -> <<-p[2], -p[1]>>                            \* about y = -x
Cell(m, c) == LET a == Point(m, c)  b == Point(m, <<c[1] + 1, c[2] + 1>>)
                  Low(x, y) == IF x < y THEN x ELSE y IN <<Low(a[1], b[1]), Low(a[2], b[2])>>
Moved(g, m) == [s |-> [i \in DOMAIN g.s |-> [g.s[i] EXCEPT !.cells = {Cell(m, c) : c \in @}]],
                b |-> [i \in DOMAIN g.b |-> LET p == Point(m, <<g.b[i].x, g.b[i].y>>) IN [g.b[i] EXCEPT !.x = p[1], !.y = p[2]]]]
Plus(g, h) == [s |-> g.s \o h.s, b |-> g.b \o h.b]
Covered(g) == UNION {g.s[i].cells : i \in DOMAIN g.s}
Minus(g, h) == [g EXCEPT !.s = [i \in DOMAIN @ |-> [@[i] EXCEPT !.cells = @ \ Covered(h)]]]
(* a surface is in one piece: its cells are connected through their sides *)
Beside(c, d) == (c[1] = d[1] /\ c[2] - d[2] \in {-1, 1}) \/ (c[2] = d[2] /\ c[1] - d[1] \in {-1, 1})
RECURSIVE Grow(_, _)
Grow(S, T) == LET U == S \cup {c \in T : \E d \in S : Beside(c, d)} IN IF U = S THEN S ELSE Grow(U, T)
OnePiece(T) == T = {} \/ Grow({CHOOSE c \in T : TRUE}, T) = T
Whole(g) == \A i \in DOMAIN g.s : OnePiece(g.s[i].cells)
Copied(g) == [s |-> [i \in DOMAIN g.s |-> [g.s[i] EXCEPT !.m = "conc", !.c = TRUE]], b |-> [i \in DOMAIN g.b |-> [g.b[i] EXCEPT !.m = "conc"]]]
IsBar(g) == g.s = <<>> /\ Len(g.b) = 1
(* what an operation makes of a geometry: the new geometry and the outcome *)
Ok(g) == [g |-> g, r |-> "ok"]
Step(g, op) ==
  CASE op[1] = "move" -> Ok(Moved(g, op[2]))
    [] op[1] = "plus" -> Ok(Plus(g, Base[op[2]]))
    [] op[1] = "onto" -> Ok(Plus(Base[op[2]], g))
    [] op[1] = "minus" -> LET n == Minus(g, Base[op[2]]) IN IF Whole(n) THEN Ok(n) ELSE [g |-> g, r |-> "TypeError"]
    [] op[1] = "from" -> LET n == Minus(Base[op[2]], g) IN IF Whole(n) THEN Ok(n) ELSE [g |-> g, r |-> "TypeError"]
    [] op[1] = "copy" -> Ok(Copied(g))
Ops == {<<"move", m>> : m \in Motions} \cup {<<k, b>> : k \in {"plus", "onto", "minus"}, b \in DOMAIN Base}
       \cup {<<"from", b>> : b \in Solid} \cup {<<"copy", "-">>}
RECURSIVE Fold(_, _, _)
Fold(g, ops, i) == IF i > Len(ops) THEN Ok(g)
                   ELSE LET n == Step(g, ops[i]) IN IF i = Len(ops) THEN n ELSE Fold(n.g, ops, i + 1)
RECURSIVE Total(_, _)
Total(g, i) == IF i > Len(g.s) THEN 0 ELSE Cardinality(g.s[i].cells) + Total(g, i + 1)
RC(g) == \E i \in DOMAIN g.s : g.s[i].c
=============================================================================
