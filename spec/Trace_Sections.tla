--------------------------- MODULE Trace_Sections ---------------------------
(* One event is one section and one calculation with it.                    *)
EXTENDS Domains
Mesh(e) == IF e.fiber THEN MeshOf(e.sec, e.mesh) ELSE <<>>
MeshOK(e) == IF e.fiber THEN MeshBad(e.sec, e.mesh, e.size) ELSE {}
Integrate(e) ==
  LET mesh == Mesh(e)
      one(q) == (IF q.st = <<>> THEN {"no forces"} ELSE ForcesBad(e.sec, mesh, q.pl, q.st, 0))
                \cup (IF q.md = <<>> THEN {"no stiffness"} ELSE StiffBad(e.sec, mesh, q.pl, q.md))
  IN UNION {one(e.q[i]) : i \in DOMAIN e.q}
MomentOf(e) ==
  LET reg == <<e.ring>>
      L == Size(reg)
      s == IF Lt(RingInt(e.ring, O2, IA), 0) THEN FNeg(Num(1)) ELSE Num(1)
      ok(q) == q.v.k = "num" /\ Close(q.v.v, s ** Moment(reg, q.m, q.n), "1e-9", "1e-11" ** Area(reg) ** Power(L, q.m + q.n))
  IN UNION {B(ok(e.q[i]), "moment of area") : i \in DOMAIN e.q}
(* properties are close to others if none differs by more than asked        *)
AlikeBad(q) ==
  LET d == Abs(q.a -- q.b)  tol == Num(q.tol[2]) ++ (q.tol[1] ** Abs(q.b)) IN
  IF ~q.nan /\ Close(d, tol, "1e-6", 0) THEN {} ELSE B(q.r = (IF ~q.nan /\ Le(d, tol) THEN "yes" ELSE "no"), "close to each other")
(* fibres larger than the section or without a size, and other questions    *)
RefuseBad(q) ==
  LET bad == q.ask \notin {"stress", "modulus"} \/ (q.fiber /\ (Le(q.size, 0) \/ Gt(q.size, 1))) IN
  B(q.err = (IF bad THEN "ValueError" ELSE ""), IF bad THEN "accepted" ELSE "rejected")
Verdict(e) ==
  MeshOK(e) \cup
  (CASE e.op = "integrate" -> Integrate(e)
     [] e.op = "gross" -> IF e.v.k # "ok" THEN {"no properties"}
                          ELSE E0Bad(e.sec) \cup GrossBad(e.sec, Mesh(e), e.v.g) \cup PerimeterBad(e.v.g, e.outline)
                               \cup UNION {AlikeBad(e.alike[i]) : i \in DOMAIN e.alike}
     [] e.op = "cracked" -> CrackedBad(e)
     [] e.op = "strength" -> StrengthsBad(e)
     [] e.op = "planes" -> PlanesBad(e)
     [] e.op = "curvature" -> MomentCurvatureBad(e)
     [] e.op = "profile" -> ProfileBad(e)
     [] e.op = "domains" -> DomainsBad(e)
     [] e.op = "refuse" -> UNION {RefuseBad(e.q[i]) : i \in DOMAIN e.q}
     [] e.op = "moment" -> MomentOf(e)
     [] OTHER -> {"unknown operation"})
Next == Walk(Verdict)
=============================================================================
