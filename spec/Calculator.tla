----------------------------- MODULE Calculator -----------------------------
(* What a section keeps between two calculations, and why it cannot be seen. *)
(* A question is a program of actions.  "turn" and "back" put the section in *)
(* the frame of an inclined neutral axis and back again, with the fibres it  *)
(* already has; "use" integrates and makes the fibres if there are none;     *)
(* "range" finds the extreme axial forces and keeps them; "gross" the same   *)
(* for the properties.  Any action that asks a law may be broken off by an   *)
(* exception of that law.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
(* A, B: on one geometry; C: the same with other fibres; D: on a moved copy  *)
Who == {"A", "B", "C", "D"}
Fibres == {"A", "C", "D"}
Turned == <<"range", "turn", "use", "back">>
Prog == [gross |-> <<"gross">>, cracked |-> <<>>, range |-> <<"range">>, low |-> <<"range">>, top |-> <<"range">>, limit |-> <<"use">>,
         stress |-> <<"use">>, modulus |-> <<"use">>,
         bend |-> Turned, bendn |-> Turned, bendx |-> <<"range", "refuse">>,
         curve |-> Turned, curven |-> Turned, curvex |-> <<"range", "refuse">>, own |-> Turned,
         nm |-> <<"use">>, nmx |-> <<"refuse">>, nmm |-> <<"use">>, mm |-> Turned \o <<"turn", "use", "back">>, mmx |-> <<"range", "refuse">>,
         plan |-> <<"use">>, planx |-> <<"use", "refuse">>]
Asks == {"use", "range", "gross"}
Faults == [q \in DOMAIN Prog |-> {k \in DOMAIN Prog[q] : Prog[q][k] \in Asks}]
(* an operation <<who, question, k>>: k = 0, or the action that is broken off *)
Ops == {<<w, q, k>> : w \in Who, q \in DOMAIN Prog, k \in 0..4}
OpsOK == {o \in Ops : o[3] = 0 \/ o[3] \in Faults[o[2]]}
(* fibres: in which frame they were made, in which frame they lie *)
NoMesh == [made |-> -1, at |-> -1]
New == [mesh |-> NoMesh, range |-> FALSE, gross |-> FALSE]
Start == [w \in Who |-> New]
(* running a program: c what is kept, frame, seen the answer so far *)
Use(r, fib) ==
  LET m == IF fib /\ r.c.mesh = NoMesh THEN [made |-> r.frame, at |-> r.frame] ELSE r.c.mesh IN
  [r EXCEPT !.c.mesh = m, !.safe = IF r.frame = 0 THEN m ELSE @,
            !.seen = Append(@, IF fib THEN <<m.made, m.at - r.frame>> ELSE <<0, 0>>)]
Shift(r, d) == [r EXCEPT !.frame = @ + d, !.c.mesh = IF @ = NoMesh THEN @ ELSE [@ EXCEPT !.at = @ + d]]
Act(r, a, fib) ==
  CASE a = "use" -> Use(r, fib)
    [] a = "range" -> IF r.c.range THEN [r EXCEPT !.seen = Append(@, <<0, 0>>)] ELSE [Use(r, fib) EXCEPT !.c.range = TRUE]
    [] a = "gross" -> [r EXCEPT !.c.gross = TRUE]
    [] a = "turn" -> Shift(r, 1)
    [] a = "back" -> Shift(r, -1)
    [] a = "refuse" -> [r EXCEPT !.out = "refused"]
RECURSIVE Run(_, _, _, _, _)
Run(r, p, i, k, fib) ==
  IF i > Len(p) \/ r.out # "ok" THEN r
  ELSE IF i = k /\ ~(p[i] = "range" /\ r.c.range) /\ ~(p[i] = "gross" /\ r.c.gross) THEN [r EXCEPT !.out = "fault"]
  ELSE Run(Act(r, p[i], fib), p, i + 1, k, fib)
(* a calculation that does not end well leaves the fibres as they were when  *)
(* it left the frame of the section                                          *)
Ask(c, w, q, k) ==
  LET r == Run([c |-> c, frame |-> 0, seen |-> <<>>, safe |-> c.mesh, out |-> "ok"], Prog[q], 1, k, w \in Fibres) IN
  [c |-> IF r.out = "ok" THEN r.c ELSE [r.c EXCEPT !.mesh = r.safe],
   out |-> r.out, seen |-> IF r.out = "ok" THEN r.seen ELSE <<>>, frame |-> IF r.out = "ok" THEN r.frame ELSE 0]
Step(s, o) == LET a == Ask(s[o[1]], o[1], o[2], o[3]) IN [s |-> [s EXCEPT ![o[1]] = a.c], a |-> a]
Fresh(w, q) == Ask(New, w, q, 0)
=============================================================================
