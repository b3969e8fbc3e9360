----------------------------- MODULE MC_Lattice -----------------------------
(* All histories up to a length, printed for replay on the library.          *)
EXTENDS Lattice, TLC, Json
CONSTANT Depth
VARIABLES start, hist, g, r
vars == <<start, hist, g, r>>
Mirrors == {"mirx", "miry", "diag", "anti"}
Init == \E b \in Solid : start = b /\ hist = <<>> /\ g = Base[b] /\ r = "ok"
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : LET n == Step(g, op) IN
             /\ (op[1] = "copy" => Len(hist) > 0)
             (* mirror images are not exact in floating point, so that the    *)
             (* library may see slivers where edges should coincide           *)
             /\ (op[1] \in {"minus", "from"} => \A i \in DOMAIN hist : ~(hist[i][1] = "move" /\ hist[i][2] \in Mirrors))
             /\ hist' = Append(hist, op) /\ g' = n.g /\ r' = n.r /\ UNCHANGED start
             /\ PrintT("@H|" \o ToJson([start |-> start, ops |-> hist']))
Spec == Init /\ [][Next]_vars
OnePieces == Whole(g)
(* motions keep the areas, the parts and their order, and can be undone *)
Last == hist'[Len(hist')]
Isometry == [][Last[1] = "move" => /\ \A i \in DOMAIN g.s : Cardinality(g'.s[i].cells) = Cardinality(g.s[i].cells)
                                   /\ Len(g'.s) = Len(g.s) /\ Len(g'.b) = Len(g.b)]_vars
Undo == [right |-> <<>>, quarter |-> <<"quarter", "quarter", "quarter">>, back |-> <<"back", "back", "back">>, half |-> <<"half">>,
         mirx |-> <<"mirx">>, miry |-> <<"miry">>, diag |-> <<"diag">>, anti |-> <<"anti">>]
Undone == \A m \in DOMAIN Undo \ {"right"} :
            LET seq == [i \in 1..Len(Undo[m]) |-> <<"move", Undo[m][i]>>] IN Fold(Moved(g, m), seq, 1).g = g
(* inclusion and exclusion; the bars stay; what is taken away is not covered *)
Exact == [][(Last[1] = "minus" /\ r' = "ok") =>
              /\ g'.b = g.b
              /\ Covered(g') = Covered(g) \ Covered(Base[Last[2]])
              /\ \A i \in DOMAIN g.s : Cardinality(g'.s[i].cells) = Cardinality(g.s[i].cells) - Cardinality(g.s[i].cells \cap Covered(Base[Last[2]]))]_vars
Sums == [][Last[1] \in {"plus", "onto"} => Total(g', 1) = Total(g, 1) + Total(Base[Last[2]], 1)]_vars
Flags == [][Last[1] \in {"move", "minus"} => RC(g') = RC(g)]_vars
Refused == [][r' = "TypeError" => g' = g]_vars
=============================================================================
