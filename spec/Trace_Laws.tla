---------------------------- MODULE Trace_Laws ----------------------------
(* One event is one law, made by the library, and what it answered.         *)
EXTENDS Laws
F(e, n) == n \in DOMAIN e
AllOf(e, n, OK(_, _)) ==     \* element-wise judgement of an array of answers
  /\ e[n].k = "seq" /\ Len(e[n].v) = Len(e.eps)
  /\ \A i \in DOMAIN e.eps : OK(e.eps[i], e[n].v[i])
EachOf(e, n, OK(_, _)) ==    \* the same for single strains
  \A i \in DOMAIN e.eps : e[n][i].k = "num" /\ OK(e.eps[i], e[n][i].v)
Agree(e, n, m) == e[n].k = "seq" => \A i \in DOMAIN e.eps :
  e[m][i].k = "num" => NumTol(e[n].v[i], e[m][i].v, "1e-9",
     IF n = "secant_vec" /\ ~Eq(e.eps[i], 0) THEN ("1e-10" ** Scale(e.law)) // Abs(e.eps[i]) ELSE "1e-10" ** Scale(e.law))
LimitsOK(o, m) == o.k = "seq" /\ Len(o.v) = 2 /\ \A i \in 1..2 : NumTol(m[i], o.v[i], "1e-12", "1e-15")
B(ok, name) == IF ok THEN {} ELSE {name}
Group(e, n, OK(_, _)) ==
  B(AllOf(e, n \o "_vec", OK), n \o " of an array")
  \cup B(EachOf(e, n \o "_sc", OK), n \o " of a strain")
  \cup B(Agree(e, n \o "_vec", n \o "_sc"), n \o " of array and strain differ")
At(p, bad) == LET x == CHOOSE x \in bad : TRUE IN " at e=" \o p.es[x] \o " a=" \o p.a \o " b=" \o p.b
PieceClauses(e, p) ==
  LET l == e.law IN
  IF p.st.k = "err" \/ p.tn.k = "err" THEN {"no pieces"}
  ELSE LET bad == {x \in DOMAIN p.es : ~PieceOK(l, p.st, p.a, p.b, p.es[x])}
           badt == {x \in DOMAIN p.es : ~TanPieceOK(l, p.tn, p.a, p.b, p.es[x])}
           drop(q, bs) == {x \in bs : Mixed(l) /\ (DeepMixed(l) \/ ~Inside(q, p.es[x]))}
           b1 == bad \ drop(p.st, bad)  b2 == badt \ drop(p.tn, badt)
       IN (IF drop(p.st, bad) \cup drop(p.tn, badt) = {} THEN {} ELSE {"unlimited part dropped"})
          \cup (IF b1 = {} THEN {} ELSE {"stress of the pieces" \o At(p, b1)})
          \cup (IF b2 = {} THEN {} ELSE {"tangent of the pieces" \o At(p, b2)})
          \cup B(Disjoint(p.st) /\ Disjoint(p.tn), "pieces overlap")
          \cup B(~Approx(l) \/ Eq(p.b, 0) \/ ~Single(l) \/ EndsOK(l, p.st, p.a, p.b), "pieces off the curve")
          \cup B(~Approx(l) \/ Eq(p.b, 0) \/ ~Single(l) \/ SlopesOK(p.st, p.tn, p.b), "slopes of the pieces")
Verdict(e) ==
  IF e.made # Made(e.law) THEN {"making the law gives " \o e.made}
  ELSE IF e.made # "ok" THEN {}
  ELSE LET l == e.law
           S(x, v) == StressOK(l, x, v)
           T(x, v) == TangentOK(l, x, v)
           C(x, v) == SecantOK(l, x, v)
       IN (IF F(e, "stress_vec") THEN Group(e, "stress", S) ELSE {})
          \cup (IF F(e, "tangent_vec") THEN Group(e, "tangent", T) ELSE {})
          \cup (IF F(e, "secant_vec") THEN Group(e, "secant", C) ELSE {})
          \cup (IF F(e, "lim") THEN B(LimitsOK(e.lim, Limits(l, FALSE)), "ultimate strains") ELSE {})
          \cup (IF F(e, "limy") THEN B(LimitsOK(e.limy, Limits(l, TRUE)), "yield strains") ELSE {})
          \cup (IF F(e, "pieces") THEN UNION {PieceClauses(e, e.pieces[i]) : i \in DOMAIN e.pieces} ELSE {})
          \cup B(e.same, "arguments changed")
Next == Walk(Verdict)
=============================================================================
