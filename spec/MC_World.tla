------------------------------ MODULE MC_World -------------------------------
(* Random histories of the world, printed for replay.                        *)
EXTENDS World, TLC, Json
CONSTANT Depth
VARIABLES s, hist, held
vars == <<s, hist, held>>
Init == s = Start /\ hist = <<>> /\ held = Start
Pick(S) == RandomElement(S)
(* mostly about something made or asked lately, so that things interfere *)
Index == LET lately == {hist[k][2] : k \in {k \in DOMAIN hist : k > Len(hist) - 4}} \cup {i \in DOMAIN s : i > Len(Base)}
         IN IF lately # {} /\ Pick(1..3) > 1 THEN Pick(lately) ELSE Pick(DOMAIN s)
Next == /\ Len(hist) < Depth
        /\ \E op \in {LET i == Index IN
                      IF Pick(1..3) = 1 /\ DOMAIN Makers[s[i]] # {"none"}
                      THEN LET m == Pick(DOMAIN Makers[s[i]]) IN <<"make", i, m, Pick(Partner(s, i, m))>>
                      ELSE <<"ask", i, Pick(Questions[s[i]]), 0>>} :
             /\ s' = Step(s, op, TRUE) /\ hist' = Append(hist, op)
             /\ held' = held \o SubSeq(s', Len(held) + 1, Len(s'))
             /\ (Len(hist') = Depth => PrintT("@H|" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
(* what is held stays what it was *)
Kept == SubSeq(s, 1, Len(held)) = held
Sound == \A k \in DOMAIN hist : IF hist[k][1] = "ask" THEN hist[k][3] \in Questions[s[hist[k][2]]] ELSE MakeOK(s, hist[k])
=============================================================================
