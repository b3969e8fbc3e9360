--------------------------- MODULE Trace_Materials ---------------------------
(* One event is one material made by the library, and what it answered.     *)
EXTENDS Materials
F(e, n) == n \in DOMAIN e
B(ok, name) == IF ok THEN {} ELSE {name}
(* the law that the material must have, before any initial strain *)
Base(e) ==
  CASE e.given.k = "law" -> e.given.law
    [] e.op = "concrete" -> ConcreteLaw(e.code, e.a, IF e.given.k = "none" THEN "parabolarectangle" ELSE e.given.s)
    [] e.op = "steel" -> SteelLaw(e.code, e.a, IF e.given.k = "none" THEN "elasticplastic" ELSE e.given.s)
LawBad(e) == LET l == Base(e) IN
  \/ l.t = "none" \/ Made(l) # "ok"
  \/ e.op \in {"concrete", "steel"} /\ ~Serves(l, e.op)
(* Popovics' curve needs an initial modulus above the secant modulus; given  *)
(* values that contradict this are not judged                                *)
IllPosed(e) == LET l == Base(e) IN
  l.t = "pop" /\ IF l.Ec = "None" THEN FALSE ELSE Lt(Abs(l.Ec), "1.1" ** (Abs(l.fc) // Abs(l.ec)))
Inconsistent(e) == (e.op = "concrete" /\ ConcreteBad(e.code, e.a)) \/ Both(e.a)
(* a missing law is looked up last, so that l is only asked for if it exists *)
MadeOK(e) ==
  IF Inconsistent(e) \/ LawBad(e) THEN e.made = "ValueError"
  ELSE IF "initial_stress" \notin DOMAIN e.a THEN e.made = "ok"
  ELSE LET l == Base(e)  s == e.a.initial_stress IN
       IF Reached(l, s) THEN e.made = "ok"
       ELSE IF OutOfReach(l, s) THEN e.made \in {"ValueError", "RuntimeError"}
       ELSE e.made \in {"ok", "ValueError", "RuntimeError"}
(* properties *)
PropsOK(e) ==
  CASE e.op = "concrete" -> {n \in Values(e.code) : n \notin DOMAIN e.p \/ ~Match(P(e.code, e.a, n), e.p[n])}
                            \cup B(Is23(e.code) \/ Match(FcdOf(e.code, e.a), e.p.fcd), "fcd")
                            \cup B(~F(e, "fcd23") \/ \A i \in DOMAIN e.fcd23 :
                                     LET q == e.fcd23[i] IN
                                     /\ Match(Fcd23(e.a, q.t_ref, q.t0, q.fck_ref), q.fcd)
                                     /\ Match(Fctd23(e.a, q.t_ref), q.fctd), "fcd, fctd")
    [] e.op = "steel" -> {n \in SteelValues(e.code) : n \notin DOMAIN e.p \/ ~Match(Q(e.code, e.a, n), e.p[n])}
                         \cup (IF ~F(e, "set") THEN {}
                               ELSE LET a == [e.a EXCEPT !.epsuk = e.set.v] IN
                                    {"set " \o n : n \in {m \in {"epsuk", "epsud", "fyd", "epsyk"} : ~Match(Q(e.code, a, m), e.set.p[m])}})
    [] OTHER -> {n \in DOMAIN e.p \ {"density"} : n \in DOMAIN e.a /\ ~Match(NumV(Num(e.a[n])), e.p[n])}
                \cup B(Match(NumV(Abs(e.a.density)), e.p.density), "density")
NameOf(e) ==
  IF "name" \in DOMAIN e.a THEN e.a.name
  ELSE CASE e.op = "concrete" -> "C" \o ToString(ToInt(Rint(e.a.fck)))
         [] e.op = "steel" -> "Reinforcement" \o ToString(ToInt(Rint(e.a.fyk)))
         [] e.op = "elastic" -> "ElasticMaterial" [] e.op = "ep" -> "ElasticPlasticMaterial" [] e.op = "generic" -> "GenericMaterial"
(* initial strain and stress; the strain of a given stress is the one observed, judged by the stress it gives *)
Strain0(e) == IF "initial_strain" \in DOMAIN e.a THEN Num(e.a.initial_strain) ELSE Num(e.e0.v)
InitOK(e) ==
  LET l == Base(e) IN
  CASE "initial_strain" \in DOMAIN e.a ->
         /\ Match(NumV(Num(e.a.initial_strain)), e.e0)
         /\ e.s0.k = "num" /\ StressOK(l, e.a.initial_strain, e.s0.v)
    [] "initial_stress" \in DOMAIN e.a ->
         /\ Match(NumV(Num(e.a.initial_stress)), e.s0)
         /\ e.e0.k = "num" /\ InSet(e.a.initial_stress, Stresses(l, e.e0.v), "1e-6", "1e-9" ** Scale(l))
    [] OTHER -> e.e0.k = "none" /\ e.s0.k = "none"
CompatOK(e) == IF "strain_compatibility" \in DOMAIN e.a THEN e.compat = BoolV(e.a.strain_compatibility) ELSE e.compat.k = "none"
LawOf(e) == IF "initial_strain" \in DOMAIN e.a \/ "initial_stress" \in DOMAIN e.a
            THEN [t |-> "init", law |-> Base(e), e |-> Strain0(e), compat |-> Compat(e.a)] ELSE Base(e)
LimitsOK(o, m) == o.k = "seq" /\ Len(o.v) = 2 /\ \A i \in 1..2 : NumTol(m[i], o.v[i], "1e-9", "1e-15")
LawClauses(e) ==
  LET l == LawOf(e) IN
  {"stress of the law at " \o e.eps[i] : i \in {j \in DOMAIN e.eps : e.stress.k # "seq" \/ ~StressOK(l, e.eps[j], e.stress.v[j])}}
  \cup {"tangent of the law at " \o e.eps[i] : i \in {j \in DOMAIN e.eps : e.tangent.k # "seq" \/ ~TangentOK(l, e.eps[j], e.tangent.v[j])}}
  \cup B(LimitsOK(e.lim, Limits(l, FALSE)), "ultimate strains of the law")
  \cup B(LimitsOK(e.limy, Limits(l, TRUE)), "yield strains of the law")
(* an elastic twin of a material *)
TwinOK(e) == IF e.twin.k = "err" THEN e.twin.v = "ValueError" /\ \E t \in Tangents(LawOf(e), Num(0)) : Le(t, 0)
             ELSE
             /\ e.twinname = e.name \o "_elastic"
             /\ \E t \in Tangents(LawOf(e), Num(0)) : NumTol(t, e.twin.v["E"], "1e-9", "1e-9")
             /\ NumTol(e.p.density.v, e.twin.v.density, "1e-12", 0)
Verdict(e) ==
  IF IllPosed(e) THEN {}
  ELSE IF ~MadeOK(e) THEN {"making the material gives " \o e.made}
  ELSE IF e.made # "ok" THEN {}
  ELSE PropsOK(e)
       \cup B(e.name = NameOf(e), "name")
       \cup B(e.op # "concrete" \/ e.warned = Suspect(e.code, e.a), "warning")
       \cup B(InitOK(e), "initial stress and strain") \cup B(CompatOK(e), "strain compatibility")
       \cup (IF InitOK(e) THEN LawClauses(e) ELSE {})
       \cup (IF F(e, "twin") THEN B(TwinOK(e), "elastic twin") ELSE {})
Next == Walk(Verdict)
=============================================================================
