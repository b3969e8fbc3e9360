------------------------------ MODULE EC2_2023 ------------------------------
(* EN 1992-1-1:2023 as specified: material properties (section 5), crack     *)
(* and deflection control (section 9) and annex B.  Units MPa, mm, days.     *)
EXTENDS FormulaKit

(* ------------------------------------------------- Table 5.1, concrete *)
Fcm23(fck, df) == Abs(fck) ++ Abs(df)
Fctm23(fck0) == LET fck == Abs(fck0) IN
  IF Le(fck, 50) THEN "0.3" ** FPow(fck, FDiv(2, 3)) ELSE "1.1" ** Cube(fck)
Ecm23(fcm, kE) == kE ** Cube(fcm)
Ecm23Bad(fcm, kE) == Lt(fcm, 0) \/ Lt(kE, 5000) \/ Gt(kE, 13000)
AlphaC(fcm) == MaxF(1 // ("0.8" ++ (("0.2" ** fcm) // 88)), 1)
(* ------------------------------------------ Tables 5.2 and 5.3: creep, shrinkage *)
HN == <<100, 200, 500, 1000>>
Atm(s) == CASE s \in {"dry", "DRY", "Dry", " dry", "dry "} -> "dry"
            [] s \in {"humid", "HUMID", "Humid", " humid", "humid "} -> "humid"
            [] OTHER -> "?"
Dev(s) == CASE s \in {"CS", "cs", " CS", "slow", "SLOW", "slow ", "Slow"} -> "CS"
            [] s \in {"CN", "cn", "CN ", "normal", "NORMAL", " normal", "Normal"} -> "CN"
            [] s \in {"CR", "cr", " cr", "rapid", "RAPID", "rapid ", "Rapid"} -> "CR"
            [] OTHER -> "?"
HnBad(h) == Lt(h, 100) \/ Gt(h, 1000)
APhi == [dry |-> <<"0.82", "0.79", "0.75", "0.72">>, humid |-> <<"0.71", "0.68", "0.66", "0.64">>]
T0Ages == [CS |-> <<3, 10, 32, 91, 365>>, CN |-> <<1, 7, 28, 91, 365>>, CR |-> <<1, 3, 23, 91, 365>>]
Phi50 == [dry |-> << <<"4.2", "3.8", "3.4", "3.1">>, <<"3.1", "2.8", "2.5", "2.3">>,
                     <<"2.4", "2.2", "1.9", "1.8">>, <<"1.9", "1.7", "1.5", "1.4">>,
                     <<"1.4", "1.3", "1.1", "1.0">> >>,
          humid |-> << <<"3.0", "2.8", "2.6", "2.5">>, <<"2.2", "2.1", "2.0", "1.9">>,
                       <<"1.7", "1.6", "1.6", "1.5">>, <<"1.4", "1.3", "1.2", "1.2">>,
                       <<"1.0", "0.9", "0.9", "0.8">> >>]
ShrFck == [CS |-> <<20, 35, 50>>, CN |-> <<20, 35, 50, 80>>, CR |-> <<35, 50, 80>>]
Shr50 == [dry |-> [CS |-> << <<"0.57", "0.56", "0.48", "0.36">>, <<"0.53", "0.51", "0.45", "0.35">>,
                             <<"0.49", "0.48", "0.43", "0.35">> >>,
                   CN |-> << <<"0.67", "0.65", "0.56", "0.41">>, <<"0.60", "0.59", "0.51", "0.39">>,
                             <<"0.55", "0.54", "0.48", "0.37">>, <<"0.48", "0.48", "0.43", "0.36">> >>,
                   CR |-> << <<"0.76", "0.74", "0.65", "0.48">>, <<"0.67", "0.66", "0.58", "0.44">>,
                             <<"0.55", "0.54", "0.49", "0.39">> >>],
          humid |-> [CS |-> << <<"0.33", "0.32", "0.28", "0.21">>, <<"0.31", "0.31", "0.27", "0.22">>,
                               <<"0.30", "0.29", "0.27", "0.23">> >>,
                     CN |-> << <<"0.38", "0.37", "0.32", "0.24">>, <<"0.34", "0.34", "0.30", "0.24">>,
                               <<"0.31", "0.31", "0.28", "0.23">>, <<"0.30", "0.30", "0.28", "0.25">> >>,
                     CR |-> << <<"0.42", "0.41", "0.36", "0.28">>, <<"0.36", "0.35", "0.32", "0.26">>,
                               <<"0.31", "0.30", "0.28", "0.25">> >>]]
(* verdicts, because the tables leave a choice *)
TableOK(bad, vals, o) ==
  IF bad \/ vals = {} THEN o = ErrV("ValueError")
  ELSE o.k = "num" /\ \E v \in vals : Close(o.v, v, "1e-8", "1e-10")
Phi50OK(a, o) ==
  LET t == Atm(a.atm_conditions)  d == Dev(a.strength_dev_class)
      bad == Lt(a.t0, 1) \/ t = "?" \/ d = "?" \/ HnBad(a.hn)
  IN TableOK(bad, IF bad THEN {} ELSE GridVals(T0Ages[d], HN, Phi50[t], a.t0, a.hn), o)
Shr50OK(a, o) ==
  LET t == Atm(a.atm_conditions)  d == Dev(a.strength_dev_class)
      bad == Lt(a.fck_28, 20) \/ Gt(a.fck_28, 80) \/ t = "?" \/ d = "?" \/ HnBad(a.hn)
  IN TableOK(bad, IF bad THEN {} ELSE GridVals(ShrFck[d], HN, Shr50[t][d], a.fck_28, a.hn), o)
(* ---------------------------------------------------- design strengths *)
EtaCC(fck, ref) == MinF(Cube(ref // fck), 1)
Early(t, d) == IF d = "CS" THEN Le(t, 56) ELSE Le(t, 28)
KTc(tref, t0, d) == IF Early(tref, d) /\ Gt(t0, 90) THEN Num(1) ELSE Num("0.85")
KTt(tref, d) == IF Early(tref, d) THEN Num("0.8") ELSE Num("0.7")
Eps23C1(fcm) == MinF("0.7" ** Cube(fcm), "2.8") // 1000
Eps23Cu1(fcm) == MinF("2.8" ++ (14 ** Sq(Sq(1 -- (fcm // 108)))), "3.5") // 1000
(* --------------------------------------------------------- 5.2: steel *)
Steel(eps, fy, slope, epsy, E) == IF Le(eps, epsy) THEN eps ** E ELSE fy ++ (slope ** (eps -- epsy))
SigmaSBad(e) == LET a == e.a IN
  \/ Lt(a.eps, 0) \/ Le(a.eps_u, 0) \/ (Gt(a.eps, a.eps_u) /\ Gt(a.k, 1))
  \/ Le(D(e, "Es", 200000), 0) \/ Le(a.fy, 0) \/ Lt(a.k, 1)
SigmaS(e) == LET a == e.a  E == D(e, "Es", 200000)  ey == a.fy // E IN
  Steel(a.eps, a.fy, (a.fy ** (a.k -- 1)) // (a.eps_u -- ey), ey, E)
SigmaPBad(e) == LET a == e.a  eu == D(e, "eps_u", "0.035") IN
  \/ Lt(a.eps, 0) \/ Le(eu, 0) \/ (Lt(eu, a.eps) /\ ~Eq(a.fpy, a.fpu))
  \/ Le(a.fpy, 0) \/ Lt(a.fpu, a.fpy) \/ Le(D(e, "Ep", 190000), 0)
SigmaP(e) == LET a == e.a  E == D(e, "Ep", 190000)  ey == a.fpy // E IN
  Steel(a.eps, a.fpy, (a.fpu -- a.fpy) // (D(e, "eps_u", "0.035") -- ey), ey, E)
PSteel == [W |-> [Y1570 |-> <<1380, 1570>>, Y1670 |-> <<1470, 1670>>, Y1770 |-> <<1550, 1770>>, Y1860 |-> <<1650, 1860>>],
           S |-> [Y1770 |-> <<1560, 1770>>, Y1860 |-> <<1640, 1860>>, Y1960 |-> <<1740, 1960>>, Y2060 |-> <<1830, 2060>>],
           B |-> [Y1030 |-> <<835, 1030>>, Y1050 |-> <<950, 1050>>, Y1100 |-> <<900, 1100>>, Y1230 |-> <<1080, 1230>>]]
PEl(s) == CASE s \in {"W", "w", " w"} -> "W" [] s \in {"S", "s", "S "} -> "S" [] s \in {"B", "b", " B "} -> "B" [] OTHER -> "?"
PSteelOK(a) == LET el == PEl(a.element) IN   \* the recorder gives the class also in capitals without blanks
  IF el = "?" THEN ErrV("ValueError")
  ELSE IF a.CLASS \notin DOMAIN PSteel[el] THEN ErrV("ValueError")
  ELSE SeqV(PSteel[el][a.CLASS])
Duct23(s) == CASE s \in {"A", "a"} -> "A" [] s \in {"B", "b"} -> "B" [] s \in {"C", "c"} -> "C" [] OTHER -> "?"
DuctProps23 == [A |-> [epsuk |-> "0.025", k |-> "1.05"], B |-> [epsuk |-> "0.05", k |-> "1.08"],
                C |-> [epsuk |-> "0.075", k |-> "1.15"]]
(* --------------------------------------------------- 9: serviceability *)
EcEff(fcm, phi, kE) == (AlphaC(fcm) ** kE ** Cube(fcm)) // (1 ++ phi)
Kh(b, h) == Clamp("0.8" -- ("0.6" ** (MinF(b, h) -- "0.3")), "0.5", "0.8")
AsMinY(a) ==
  LET kfa == Kh(a.b, a.h) ** a.fct_eff ** a.b ** a.h
      y1 == MinF(MaxF(((("0.3" ** a.NEd) // 1000) ++ ("0.2" ** kfa)) // a.fyk, 0), ("0.5" ** kfa) // a.fyk) ** 10000
  IN <<y1, MinF(MaxF(((a.NEd // a.fyk) ** 10) -- y1, 0), y1)>>
K1r(h, x, ay) == (h -- x) // (h -- ay -- x)
EpsDiff(s, kt, fct, rho, ae, Es) ==
  MaxF((s -- (((kt ** fct) // rho) ** (1 ++ (ae ** rho)))) // Es, ((1 -- kt) ** s) // Es)
Kfl(h, xg, hc) == MaxF("0.5" ** (1 ++ ((h -- xg -- hc) // (h -- xg))), "0.5")
SrmCal(c, kf, kb, phi, rho, kw, h, x) ==
  MinF(("1.5" ** c) ++ (((kf ** kb) // "7.2") ** (phi // rho)), ("1.3" // kw) ** (h -- x))
WkCal(a) ==
  LET k1 == K1r(a.h, a.x, a.c ++ (a.phi // 2))
      sr == SrmCal(a.c, Kfl(a.h, a.xg, a.hc_eff), a.kb, a.phi, a.rho_eff, a.kw, a.h, a.x)
      ep == EpsDiff(a.sigma_s, a.kt, a.fct_eff, a.rho_eff, a.alphae, a.Es)
  IN <<a.kw ** k1 ** sr ** ep, k1, sr, ep>>
Delta(a) ==
  LET mcr == (Fctm23(a.fck1) ** 1000 ** a.b1 ** Sq(a.h)) // 6
      zeta == 1 -- ("0.5" ** Sq(mcr // a.Mk))
      rho == (a.As1 // (a.b1 ** a.d)) // 10000
      ae == 200000 // EcEff(Fcm23(a.fck1, 8), a.phi1, 9500)
      ig == 1 // ("2.7" ** FPow(ae ** rho, "0.6") ** FPow(a.d // a.h, 3))
      ks == ((455 ** Sq(rho)) -- (35 ** rho)) ++ "1.6"
      ki == (zeta ** ig) ++ (1 -- zeta)
  IN IF Lt(a.Mk, mcr) THEN a.delta_loads ++ a.delta_shr
     ELSE ki ** (a.delta_loads ++ (ks ** a.delta_shr))

Expected(e) ==
  LET a == e.a  f == e.f IN
  CASE f = "fcm" -> NumV(Fcm23(a.fck, D(e, "delta_f", 8)))
    [] f = "fctm" -> NumV(Fctm23(a.fck))
    [] f = "fctk_5" -> NumV("0.7" ** Abs(a.fctm))
    [] f = "fctk_95" -> NumV("1.3" ** Abs(a.fctm))
    [] f = "Ecm" -> OrErr(Ecm23Bad(a.fcm, D(e, "kE", 9500)), NumV(Ecm23(a.fcm, D(e, "kE", 9500))))
    [] f = "hn" -> OrErr(AnyNeg(a, {"Ac", "u"}), NumV((2 ** a.Ac) // a.u))
    [] f = "A_phi_correction_exp" ->
         LET t == Atm(a.atm_conditions) IN
         IF HnBad(a.hn) \/ t = "?" THEN ErrV("ValueError") ELSE NumV(Interp(a.hn, HN, APhi[t]))
    [] f = "phi_correction_factor" ->
         OrErr(Lt(a.fck, 12) \/ Gt(a.fck, 100) \/ Lt(a.A_exponent, "0.64") \/ Gt(a.A_exponent, "0.82"),
               NumV(FPow(35 // a.fck, a.A_exponent)))
    [] f = "eta_cc" -> OrErr(Lt(a.fck, 12) \/ Le(D(e, "fck_ref", 40), 0), NumV(EtaCC(a.fck, D(e, "fck_ref", 40))))
    [] f = "k_tc" -> LET d == Dev(a.strength_dev_class) IN
         OrErr(Lt(a.t_ref, 0) \/ Lt(a.t0, 0) \/ d = "?", NumV(KTc(a.t_ref, a.t0, d)))
    [] f = "fcd" -> OrErr(Lt(a.fck, 12) \/ Lt(a.eta_cc, 0) \/ Gt(a.eta_cc, 1) \/ Lt(a.gamma_c, 1),
                          NumV((a.eta_cc ** a.k_tc ** a.fck) // a.gamma_c))
    [] f = "k_tt" -> LET d == Dev(a.strength_dev_class) IN
         OrErr(Lt(a.t_ref, 0) \/ d = "?", NumV(KTt(a.t_ref, d)))
    [] f = "fctd" -> OrErr(Lt(a.fctk_5, 0) \/ Lt(a.gamma_c, 1), NumV((a.k_tt ** a.fctk_5) // a.gamma_c))
    [] f = "eps_c1" -> OrErr(Lt(a.fcm, 20), NumV(Eps23C1(a.fcm)))
    [] f = "eps_cu1" -> OrErr(Lt(a.fcm, 20), NumV(Eps23Cu1(a.fcm)))
    [] f = "k_sargin" -> OrErr(Le(a.Ecm, 0) \/ Lt(a.fcm, 20) \/ Le(a.eps_c1, 0),
                               NumV(("1.05" ** a.Ecm ** a.eps_c1) // a.fcm))
    [] f = "eps_c2" -> NumV("0.002")
    [] f = "eps_cu2" -> NumV("0.0035")
    [] f = "n_parabolic_rectangular" -> NumV(2)
    [] f = "weight_c" -> CASE a.concrete_type \in {"nc", "NC", " nc"} -> NumV(25)
                           [] a.concrete_type \in {"npc", "NPC", "Npc "} -> NumV(24)
                           [] OTHER -> ErrV("ValueError")
    [] f = "alpha_c_th" -> NumV("1e-5")
    [] f = "alpha_s_th" -> NumV("1e-5")
    [] f = "Es" -> NumV(200000)
    [] f = "weight_s" -> NumV("78.5")
    [] f = "fyd" -> OrErr(Lt(a.fyk, 0) \/ Lt(a.gamma_s, 1), NumV(a.fyk // a.gamma_s))
    [] f = "eps_ud" -> OrErr(Lt(a.eps_uk, 0) \/ Lt(a.gamma_s, 1), NumV(a.eps_uk // a.gamma_s))
    [] f = "sigma_s" -> OrErr(SigmaSBad(e), NumV(SigmaS(e)))
    [] f = "sigma_p" -> OrErr(SigmaPBad(e), NumV(SigmaP(e)))
    [] f = "p_steel_stress_params" -> PSteelOK(a)
    [] f = "fpd" -> OrErr(Lt(a.fp01k, 0) \/ Lt(a.gamma_P, 1), NumV(a.fp01k // a.gamma_P))
    [] f = "reinforcement_duct_props" ->
         LET c == Duct23(a.ductility_class) IN
         IF c = "?" THEN ErrV("ValueError")
         ELSE RecV([epsuk |-> DuctProps23[c].epsuk, ftk |-> DuctProps23[c].k ** a.fyk])
    [] f = "alpha_c" -> NumV(AlphaC(a.fcm_28))
    (* serviceability *)
    [] f = "Ec_eff" -> NumV(EcEff(a.fcm, a.phi, D(e, "kE", 9500)))
    [] f = "As_min_y" -> SeqV(AsMinY(a))
    [] f = "kh" -> NumV(Kh(a.b, a.h))
    [] f = "wk_cal2" -> NumV(a.kw ** a.k_1_r ** a.srm_cal ** a.epssm_epscm)
    [] f = "k_1_r" -> NumV(K1r(a.h, a.x, a.ay))
    [] f = "epssm_epscm" -> NumV(EpsDiff(a.sigma_s, a.kt, a.fct_eff, a.rho_eff, a.alphae, a.Es))
    [] f = "kfl" -> NumV(Kfl(a.h, a.xg, a.hceff))
    [] f = "srm_cal" -> NumV(SrmCal(a.c, a["kfl_"], a.kb, a.phi, a.rho_eff, a.kw, a.h, a.x))
    [] f = "wk_cal" -> SeqV(WkCal(a))
    [] f = "delta_simpl" -> NumV(Delta(a))
Judge(e) == CASE e.f = "phi_50y_t0" -> Phi50OK(e.a, e.o)
              [] e.f = "eps_cs_50y" -> Shr50OK(e.a, e.o)
              [] OTHER -> Match(Expected(e), e.o)
=============================================================================
