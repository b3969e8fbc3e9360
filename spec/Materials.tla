------------------------------ MODULE Materials ------------------------------
(* Material objects.  A concrete or a reinforcement is a set of given values *)
(* over a design code; every other property is derived by the functions of   *)
(* that code, and the constitutive law is made of the properties.            *)
EXTENDS Laws
E4 == INSTANCE EC2_2004
E23 == INSTANCE EC2_2023
M10 == INSTANCE MC2010
(* value of a function of the code of practice *)
Fn(code, f, a) ==
  LET e == [f |-> f, a |-> a, vec |-> FALSE, mix |-> FALSE] IN
  CASE code = "EC2_2004" -> E4!Expected(e) [] code = "EC2_2023" -> E23!Expected(e) [] code = "MC2010" -> M10!Expected(e)
(* values that may be errors *)
Bad(x) == x.k = "err"
Fn1(code, f, n, x) == IF Bad(x) THEN x ELSE Fn(code, f, (n :> x.v))
Is04(c) == c = "EC2_2004"
Is23(c) == c = "EC2_2023"
IsM(c) == c = "MC2010"
(* ------------------------------------------------------------- concrete *)
Moduli(c) == IF IsM(c) THEN {"Eci"} ELSE {"Ecm"}
Fractiles(c) == IF IsM(c) THEN {"fctkmin", "fctkmax"} ELSE {"fctk_5", "fctk_95"}
Overridable(c) == {"fcm", "fctm", "eps_c1", "eps_cu1", "k_sargin", "eps_c2", "eps_cu2", "n_parabolic_rectangular"}
                  \cup Moduli(c) \cup Fractiles(c)
                  \cup (IF Is23(c) THEN {} ELSE {"eps_c3", "eps_cu3"}) \cup (IF IsM(c) THEN {"Gf"} ELSE {})
Signed == {"k_sargin", "n_parabolic_rectangular"}   \* every other given value counts with its magnitude
Fck(a) == Abs(a.fck)
GammaC(a) == IF "gamma_c" \in DOMAIN a /\ ~Eq(a.gamma_c, 0) THEN Num(a.gamma_c) ELSE Num("1.5")
AlphaCC(a) == IF "alpha_cc" \in DOMAIN a /\ ~Eq(a.alpha_cc, 0) THEN Num(a.alpha_cc) ELSE Num(1)
DevOf(a) == IF "strength_dev_class" \in DOMAIN a THEN E23!Dev(a.strength_dev_class) ELSE "CN"
KEOf(a) == IF "kE" \in DOMAIN a THEN Num(a.kE) ELSE Num(9500)
RECURSIVE P(_, _, _)
P(c, a, n) ==      \* property n of the concrete given by a under code c
  LET By(f, arg, m) == Fn1(c, f, arg, P(c, a, m)) IN
  IF n \in DOMAIN a /\ n \in Overridable(c) THEN NumV(IF n \in Signed THEN Num(a[n]) ELSE Abs(a[n]))
  ELSE CASE n = "fck" -> NumV(Fck(a))
         [] n \in {"fcm", "fctm", "Gf"} -> By(n, "fck", "fck")
         [] n \in {"fctk_5", "fctk_95", "fctkmin", "fctkmax"} -> By(n, "fctm", "fctm")
         [] n \in {"Ecm", "Eci"} ->
              LET m == P(c, a, "fcm") IN
              IF Is23(c) THEN Fn(c, n, [fcm |-> m.v, kE |-> KEOf(a)]) ELSE Fn1(c, n, "fcm", m)
         [] n = "eps_c1" -> IF IsM(c) THEN By(n, "fck", "fck") ELSE By(n, "fcm", "fcm")
         [] n = "eps_cu1" -> IF Is23(c) THEN By(n, "fcm", "fcm") ELSE By(n, "fck", "fck")
         [] n = "k_sargin" ->
              IF IsM(c) THEN By(n, "fck", "fck")
              ELSE LET E == P(c, a, "Ecm")  m == P(c, a, "fcm")  e1 == P(c, a, "eps_c1") IN
                   IF Bad(E) THEN E ELSE IF Bad(e1) THEN e1
                   ELSE Fn(c, n, [Ecm |-> E.v, fcm |-> m.v, eps_c1 |-> e1.v])
         [] n \in {"eps_c2", "eps_cu2", "n_parabolic_rectangular", "eps_c3", "eps_cu3"} -> By(n, "fck", "fck")
         [] n = "gamma_c" -> NumV(GammaC(a))
         [] n = "alpha_cc" -> NumV(AlphaCC(a))
         [] n = "density" -> NumV(IF "density" \in DOMAIN a THEN Abs(a.density) ELSE Num(2400))
(* design strengths; t: time of reference, age at loading, strength of reference *)
Fcd23(a, tref, t0, fref) ==
  LET eta == Fn("EC2_2023", "eta_cc", [fck |-> Fck(a), fck_ref |-> fref])
      k == Fn("EC2_2023", "k_tc", [t_ref |-> tref, t0 |-> t0, strength_dev_class |-> DevOf(a)])
  IN IF Bad(eta) THEN eta ELSE IF Bad(k) THEN k
     ELSE Fn("EC2_2023", "fcd", [fck |-> Fck(a), eta_cc |-> eta.v, k_tc |-> k.v, gamma_c |-> GammaC(a)])
Fctd23(a, tref) ==
  LET k == Fn("EC2_2023", "k_tt", [t_ref |-> tref, strength_dev_class |-> DevOf(a)])  f5 == P("EC2_2023", a, "fctk_5")
  IN IF Bad(k) THEN k ELSE Fn("EC2_2023", "fctd", [fctk_5 |-> f5.v, k_tt |-> k.v, gamma_c |-> GammaC(a)])
FcdOf(c, a) == IF Is23(c) THEN Fcd23(a, 28, 91, 40)
               ELSE Fn(c, "fcd", [fck |-> Fck(a), alpha_cc |-> AlphaCC(a), gamma_c |-> GammaC(a)])
Values(c) == {"fck", "gamma_c", "density"} \cup Overridable(c) \cup (IF Is23(c) THEN {} ELSE {"alpha_cc"})
(* inconsistent given values *)
ConcreteBad(c, a) ==
  \/ "fcm" \in DOMAIN a /\ Le(Abs(a.fcm), Fck(a))
  \/ \E n \in Signed : n \in DOMAIN a /\ Lt(a[n], 0)
  \/ Is23(c) /\ DevOf(a) = "?"
  \/ Is23(c) /\ "gamma_c" \in DOMAIN a /\ Le(a.gamma_c, 0)
Suspect(c, a) ==     \* values that are reported with a warning
  \/ \E n \in {"eps_c1", "eps_cu1", "eps_c2", "eps_cu2", "eps_c3", "eps_cu3"} \cap Overridable(c) :
        n \in DOMAIN a /\ Ge(Abs(a[n]), "0.1")
  \/ "n_parabolic_rectangular" \in DOMAIN a /\ Ge(a.n_parabolic_rectangular, 5)
  \/ ~Is23(c) /\ "fctm" \in DOMAIN a /\ Gt(Abs(a.fctm), "0.5" ** Fck(a))
  \/ IsM(c) /\ "Eci" \in DOMAIN a /\ (Lt(Abs(a.Eci), 10000) \/ Gt(Abs(a.Eci), 100000))
(* ------------------------------------------------------------ the law *)
Lower(s) == CASE s \in {"elastic", "Elastic", "ELASTIC"} -> "elastic"
              [] s \in {"parabolarectangle", "ParabolaRectangle", "PARABOLARECTANGLE"} -> "parabolarectangle"
              [] s \in {"bilinearcompression", "BilinearCompression"} -> "bilinearcompression"
              [] s \in {"sargin", "Sargin", "SARGIN"} -> "sargin"
              [] s \in {"popovics", "Popovics", "POPOVICS"} -> "popovics"
              [] s \in {"elasticplastic", "ElasticPlastic", "ELASTICPLASTIC"} -> "elasticplastic"
              [] s \in {"elasticperfectlyplastic", "ElasticPerfectlyPlastic"} -> "elasticperfectlyplastic"
              [] OTHER -> "?"
NoLaw == [t |-> "none"]
FirstBad(vs) == \E i \in DOMAIN vs : Bad(vs[i])
(* the law of that name made of the properties, NoLaw if it cannot be made *)
ConcreteLaw(c, a, s) ==
  LET n == Lower(s)
      E == P(c, a, IF IsM(c) THEN "Eci" ELSE "Ecm")
      fd == FcdOf(c, a)  p(x) == P(c, a, x)
      L(vs, F(_)) == IF FirstBad(vs) THEN NoLaw ELSE F([i \in DOMAIN vs |-> vs[i].v])
  IN CASE n = "elastic" -> L(<<E>>, LAMBDA v : [t |-> "elastic", E |-> v[1], eps_u |-> <<>>])
       [] n = "parabolarectangle" -> L(<<fd, p("eps_c2"), p("eps_cu2"), p("n_parabolic_rectangular")>>,
                                       LAMBDA v : [t |-> "pr", fc |-> v[1], e0 |-> v[2], eu |-> v[3], n |-> v[4]])
       [] n = "bilinearcompression" -> IF Is23(c) THEN NoLaw
                                       ELSE L(<<fd, p("eps_c3"), p("eps_cu3")>>,
                                              LAMBDA v : [t |-> "bl", fc |-> v[1], ec |-> v[2], ecu |-> v[3]])
       [] n = "sargin" -> L(<<p("fcm"), p("eps_c1"), p("eps_cu1"), p("k_sargin")>>,
                            LAMBDA v : [t |-> "sargin", fc |-> v[1], e1 |-> v[2], eu |-> v[3], k |-> v[4]])
       [] n = "popovics" -> L(<<fd, p("eps_c1"), p("eps_cu1"), E>>,
                              LAMBDA v : [t |-> "pop", fc |-> v[1], ec |-> v[2], ecu |-> v[3], Ec |-> v[4]])
       [] OTHER -> NoLaw
(* -------------------------------------------------------- reinforcement *)
GammaS(a) == IF "gamma_s" \in DOMAIN a /\ ~Eq(a.gamma_s, 0) THEN Num(a.gamma_s) ELSE Num("1.15")
GammaEps(a) == IF "gamma_eps" \in DOMAIN a /\ ~Eq(a.gamma_eps, 0) THEN Num(a.gamma_eps) ELSE Num("0.9")
Q(c, a, n) ==
  LET fyd(x) == Fn(c, "fyd", [fyk |-> Abs(x), gamma_s |-> GammaS(a)]) IN
  CASE n \in {"fyk", "Es", "ftk", "epsuk"} -> NumV(Abs(a[n]))
    [] n = "epsyk" -> NumV(Abs(a.fyk) // Abs(a["Es"]))
    [] n = "gamma_s" -> NumV(GammaS(a))
    [] n = "gamma_eps" -> NumV(GammaEps(a))
    [] n = "fyd" -> fyd(a.fyk)
    [] n = "ftd" -> fyd(a.ftk)
    [] n = "epsyd" -> LET f == fyd(a.fyk) IN IF Bad(f) THEN f ELSE NumV(f.v // Abs(a["Es"]))
    [] n = "epsud" -> IF Is23(c) THEN Fn(c, "eps_ud", [eps_uk |-> Abs(a.epsuk), gamma_s |-> GammaS(a)])
                      ELSE Fn(c, "epsud", [epsuk |-> Abs(a.epsuk), gamma_eps |-> GammaEps(a)])
    [] n = "density" -> NumV(IF "density" \in DOMAIN a THEN Abs(a.density) ELSE Num(7850))
SteelValues(c) == {"fyk", "Es", "ftk", "epsuk", "epsyk", "gamma_s", "fyd", "ftd", "epsyd", "epsud", "density"}
                  \cup (IF Is23(c) THEN {} ELSE {"gamma_eps"})
SteelLaw(c, a, s) ==
  LET n == Lower(s)  q(x) == Q(c, a, x)
      vs == <<q("Es"), q("fyd"), q("ftd"), q("epsud"), q("epsyd")>>
      v(i) == vs[i].v
  IN IF n = "elastic" THEN [t |-> "elastic", E |-> v(1), eps_u |-> <<>>]
     ELSE IF n \notin {"elasticplastic", "elasticperfectlyplastic"} \/ FirstBad(vs) THEN NoLaw
     ELSE [t |-> "ep", E |-> v(1), fy |-> v(2), su |-> v(4),
           Eh |-> IF n = "elasticplastic" THEN (v(3) -- v(2)) // (v(4) -- v(5)) ELSE Num(0)]
(* materials that a law is meant for *)
RECURSIVE Serves(_, _)
Serves(l, m) == IF l.t = "ep" THEN m = "steel"
                ELSE IF l.t \in {"pr", "bl", "sargin", "pop"} THEN m = "concrete" ELSE TRUE
(* ------------------------------------------------- initial stress or strain *)
(* stresses that the law reaches surely, and surely not, from the origin     *)
Reached(l, s) ==
  CASE l.t = "elastic" -> TRUE
    [] l.t = "ep" -> \/ Le(Abs(s), "0.999" ** l.fy)
                     \/ Gt(l.Eh, 0) /\ Lt(Abs(s), l.fy ++ ("0.98" ** l.Eh ** ((IF l.su = "None" THEN 2 ** EpsSy(l) ELSE Num(l.su)) -- EpsSy(l))))
    [] l.t = "pr" -> Le(s, 0) /\ Ge(s, "-0.9" ** Abs(l.fc)) /\ Gt(Abs(l.eu), Abs(l.e0))
    [] l.t = "bl" -> Le(s, 0) /\ Ge(s, "-0.9" ** Abs(l.fc)) /\ Ge(Abs(l.ecu), Abs(l.ec))
    [] l.t = "sargin" -> Le(s, 0) /\ Ge(s, "-0.9" ** Abs(l.fc)) /\ Gt(l.k, "1.1") /\ Ge(Abs(l.eu), Abs(l.e1))
    [] l.t = "pop" -> Le(s, 0) /\ Ge(s, "-0.9" ** Abs(l.fc)) /\ Gt(PopN(l), "1.1") /\ Lt(PopN(l), 20) /\ Ge(Abs(l.ecu), Abs(l.ec))
    [] OTHER -> FALSE
OutOfReach(l, s) ==
  CASE l.t = "elastic" -> FALSE
    [] l.t = "ep" -> Eq(l.Eh, 0) /\ Gt(Abs(s), "1.0001" ** l.fy)
    [] l.t = "pr" -> Gt(s, "1e-6") \/ Lt(s, "-1.0001" ** Abs(l.fc))
    [] l.t \in {"bl"} -> Gt(s, "1e-6") \/ Lt(s, "-1.0001" ** Abs(l.fc))
    [] l.t = "sargin" -> Gt(s, "1e-6") \/ (Gt(l.k, "1.1") /\ Lt(s, "-1.0001" ** Abs(l.fc)))
    [] l.t = "pop" -> Gt(s, "1e-6") \/ (Gt(PopN(l), "1.1") /\ Lt(s, "-1.0001" ** Abs(l.fc)))
    [] OTHER -> FALSE
Compat(a) == IF "strain_compatibility" \in DOMAIN a THEN a.strain_compatibility ELSE TRUE
Both(a) == "initial_strain" \in DOMAIN a /\ "initial_stress" \in DOMAIN a
=============================================================================
