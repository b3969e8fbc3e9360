------------------------------ MODULE EC2_2004 ------------------------------
(* EN 1992-1-1:2004 as specified: strength and strain parameters, time       *)
(* development, creep, shrinkage, shear and crack control.  Units MPa, mm.   *)
EXTENDS FormulaKit

(* ---------------------------------------------- Table 3.1 and section 3 *)
Fcm(fck, df) == Abs(fck) ++ Abs(df)
Fctm(fck0) == LET fck == Abs(fck0) IN
  IF Le(fck, 50) THEN "0.3" ** FPow(fck, FDiv(2, 3))
  ELSE "2.12" ** Ln(1 ++ ("0.1" ** (fck ++ 8)))
Fctk5(fctm) == "0.7" ** Abs(fctm)
Fctk95(fctm) == "1.3" ** Abs(fctm)
Ecm(fcm) == 22000 ** FPow(Abs(fcm) // 10, "0.3")
EpsC1(fcm) == MinF("0.7" ** FPow(Abs(fcm), "0.31"), "2.8") // 1000
EpsCu1(fck0) == LET fck == Abs(fck0) IN
  IF Lt(fck, 50) THEN "3.5" // 1000
  ELSE ("2.8" ++ (27 ** P4((98 -- (fck ++ 8)) // 100))) // 1000
KSargin(ecm, fcm, epsc1) == ("1.05" ** ecm ** Abs(epsc1)) // fcm
EpsC2(fck0) == LET fck == Abs(fck0) IN
  IF Le(fck, 50) THEN 2 // 1000
  ELSE (2 ++ ("0.085" ** FPow(fck -- 50, "0.53"))) // 1000
EpsCu2(fck0) == LET fck == Abs(fck0) IN
  IF Le(fck, 50) THEN "3.5" // 1000
  ELSE ("2.6" ++ (35 ** P4((90 -- fck) // 100))) // 1000
NParab(fck0) == LET fck == Abs(fck0) IN
  IF Le(fck, 50) THEN Num(2) ELSE "1.4" ++ ("23.4" ** P4((90 -- fck) // 100))
EpsC3(fck0) == LET fck == Abs(fck0) IN
  IF Le(fck, 50) THEN "1.75" // 1000
  ELSE ("1.75" ++ (("0.55" ** (fck -- 50)) // 40)) // 1000
EpsCu3(fck) == EpsCu2(fck)
Fcd(fck, acc, gc) == (Abs(acc) ** Abs(fck)) // Abs(gc)
BetaCC(t, s) == Exp(s ** (1 -- Sqrt(28 // t)))
BetaCT(t, s) == IF Lt(t, 28) THEN BetaCC(t, s) ELSE FPow(BetaCC(t, s), FDiv(2, 3))
BetaE(t, s) == FPow(BetaCC(t, s), "0.3")
SCement == [R |-> "0.2", N |-> "0.25", S |-> "0.38"]
(* spellings of the cement classes that are accepted: case and, for the     *)
(* development of strength, surrounding blanks do not matter                 *)
Class(s) == CASE s \in {"R", "r", " R", "r "} -> "R"
              [] s \in {"N", "n", " N", "n "} -> "N"
              [] s \in {"S", "s", " S", "s "} -> "S"
              [] OTHER -> "?"
FctmTime(fctm, bcc, alpha) == FPow(bcc, alpha) ** fctm
EcmTime(fcm, fcmt, ecm) == FPow(fcmt // fcm, "0.3") ** ecm

(* ------------------------------------------------------- reinforcement *)
DuctProps == [A |-> [epsuk |-> "0.025", k |-> "1.05"],
              B |-> [epsuk |-> "0.05", k |-> "1.08"],
              C |-> [epsuk |-> "0.075", k |-> "1.15"]]
DClass(s) == CASE s \in {"A", "a"} -> "A" [] s \in {"B", "b"} -> "B"
               [] s \in {"C", "c"} -> "C" [] OTHER -> "?"

(* ----------------------------------------- Annex B and 3.1.4: shrinkage *)
BetaDs(t, ts, h0) == LET d == MaxF(t -- ts, 0) IN d // (d ++ ("0.04" ** FPow(h0, "1.5")))
KH(h0) == Interp(h0, <<100, 200, 300, 500>>, <<1, "0.85", "0.75", "0.7">>)
EpsCd0(a1, a2, fcm, brh, fcm0) ==
  "0.85" ** (220 ++ (110 ** a1)) ** Exp(FNeg((a2 ** fcm) // fcm0)) ** "1e-6" ** brh
AlphaDs1 == [R |-> 6, N |-> 4, S |-> 3]
AlphaDs2 == [R |-> "0.11", N |-> "0.12", S |-> "0.13"]
BetaRH(rh, rh0) == "1.55" ** (1 -- FPow(rh // rh0, 3))
EpsCaInf(fck) == "2.5" ** (fck -- 10) ** "1e-6"
BetaAs(t) == 1 -- Exp("-0.2" ** Sqrt(t))
(* ------------------------------------------------------- Annex B: creep *)
PhiRH(h0, fcm, rh, a1, a2) ==
  LET q == (1 -- (rh // 100)) // ("0.1" ** Cube(h0)) IN
  IF Le(fcm, 35) THEN 1 ++ q ELSE (1 ++ (q ** a1)) ** a2
BetaFcm(fcm) == "16.8" // Sqrt(fcm)
BetaT0(t0) == 1 // ("0.1" ++ FPow(t0, "0.2"))
BetaC(t0, t, bh) == LET d == MaxF(t -- t0, 0) IN FPow(d // (bh ++ d), "0.3")
BetaH(h0, fcm, rh, a3) ==
  LET b == "1.5" ** (1 ++ FPow("0.012" ** rh, 18)) ** h0 IN
  IF Le(fcm, 35) THEN MinF(b ++ 250, 1500)
  ELSE MinF(b ++ (250 ** a3), 1500 ** a3)
AlphaB(fcm, x) == FPow(35 // fcm, x)
AlphaCement == [R |-> 1, N |-> 0, S |-> -1]
T0Adj(t0, a) == MaxF(t0 ** FPow((9 // (2 ++ FPow(t0, "1.2"))) ++ 1, a), "0.5")
TT(temp, dt) == Exp("13.65" -- (4000 // (273 ++ temp))) ** dt

(* --------------------------------------------------------- 6.2: shear *)
KSh(d) == MinF(1 ++ Sqrt(200 // d), 2)
RhoL(asl, bw, d) == MinF(asl // (bw ** d), "0.02")
SigCp(ned, ac, fcd) == MinF(ned // ac, "0.2" ** fcd)
VMin(fck, d) == "0.035" ** FPow(KSh(d), "1.5") ** Sqrt(fck)
Nu(fck) == "0.6" ** (1 -- (fck // 250))
Nu1(fck) == IF Le(fck, 60) THEN Num("0.6") ELSE MaxF("0.9" -- (fck // 200), "0.5")
VRdc(e) ==
  LET a == e.a
      gc == D(e, "gamma_c", "1.5")
      crd == IF Has(e, "CRdc") THEN a.CRdc ELSE "0.18" // gc
      k1 == D(e, "k1", "0.15")
      scp == SigCp(a.NEd, a.Ac, a.fcd)
      v1 == crd ** KSh(a.d) ** Cube(100 ** RhoL(a.Asl, a.bw, a.d) ** a.fck)
  IN MaxF((MaxF(v1, VMin(a.fck, a.d)) ++ (k1 ** scp)) ** a.bw ** a.d, 0)
VRdcPrin(e) ==
  LET a == e.a
      al == IF Has(e, "L_x") /\ Has(e, "L_pt2") THEN MinF(a.L_x // a.L_pt2, 1) ELSE Num(1)
  IN ((a.Iy ** a.bw) // a.S) ** Sqrt((a.fctd ** a.fctd) ++ (al ** (a.NEd // a.Ac) ** a.fctd))
(* strut angle: 1 <= cot(theta) <= 2.5, compared with two decimals *)
BadTheta(theta) == LET c == Rint(100 ** Cot(Radians(theta))) IN Lt(c, 100) \/ Gt(c, 250)
AlphaCwBad(ned, ac, fcd) == Gt(ned // ac, 0) /\ ~Lt(ned // ac, fcd)
AlphaCw(ned, ac, fcd) ==
  LET s == ned // ac IN
  IF Le(s, 0) THEN Num(1)
  ELSE IF Le(s, "0.25" ** fcd) THEN 1 ++ (s // fcd)
  ELSE IF Le(s, "0.5" ** fcd) THEN Num("1.25")
  ELSE "2.5" ** (1 -- (s // fcd))
VRds(e) ==
  LET a == e.a  th == Radians(a.theta)  al == Radians(D(e, "alpha", 90)) IN
  (a.Asw // a.s) ** a.z ** (a.fyk // D(e, "gamma_s", "1.15")) ** (Cot(th) ++ Cot(al)) ** Sin(al)
AswS(e) ==
  LET a == e.a  th == Radians(a.theta)  al == Radians(D(e, "alpha", 90)) IN
  a.Ved // (a.z ** a.fywd ** (Cot(th) ++ Cot(al)) ** Sin(al))
VRdmax(e) ==
  LET a == e.a  th == Radians(a.theta)  al == Radians(D(e, "alpha", 90))
      nu == IF D(e, "limit_fyd", FALSE) THEN Nu1(a.fck) ELSE Nu(a.fck)
  IN (AlphaCw(a.NEd, a.Ac, a.fcd) ** a.bw ** a.z ** nu ** a.fcd ** (Cot(th) ++ Cot(al)))
     // (1 ++ Sq(Cot(th)))
AswMax(e) ==
  LET a == e.a  al == Radians(D(e, "alpha", 90)) IN
  ("0.5" ** AlphaCw(a.NEd, a.Ac, a.fcd) ** Nu(a.fck) ** a.fcd ** a.bw ** a.s)
    // (a.fywd ** Sin(al))

(* -------------------------------------------------- 7.3: crack control *)
ExpClass(s) == CASE s \in {"X0", "x0", " X0 "} -> "X0"
                 [] s \in {"XC1", "xc1", "XC1 "} -> "XC1"
                 [] s \in {"XC2", "XC3", "XC4", "xc2", "xc3", "xc4", " XC4"} -> "XC"
                 [] s \in {"XD1", "XD2", "XS1", "XS2", "XS3", "xd1", "xs3", "xd2", "xs1", "xs2"} -> "XDS"
                 [] OTHER -> "?"
LoadComb(s) == CASE s \in {"f", "F", " f"} -> "f" [] s \in {"qp", "QP", "Qp "} -> "qp" [] OTHER -> "?"
WMax(x, l) ==
  LET c == ExpClass(x)  q == LoadComb(l) IN
  CASE q = "f"  /\ c \in {"X0", "XC1", "XC"} -> NumV("0.2")
    [] q = "qp" /\ c \in {"X0", "XC1"}       -> NumV("0.4")
    [] q = "qp" /\ c \in {"XC", "XDS"}       -> NumV("0.3")
    [] OTHER -> ErrV("ValueError")
KBad(k) == Lt(k, "0.65") \/ Gt(k, 1)
KcBad(kc) == Lt(kc, 0) \/ Gt(kc, 1)
AsMinBad(a) == Le(a.A_ct, 0) \/ Lt(a.sigma_s, 0) \/ KBad(a.k) \/ KcBad(a.kc)
AsMin(a) == (a.kc ** a.k ** Abs(a.fct_eff) ** a.A_ct) // a.sigma_s
KThick(h) == Interp(h, <<300, 800>>, <<1, "0.65">>)
KcRect(h, b, fct, ned) ==
  LET hs == MinF(h, 1000)
      k1 == IF Ge(ned, 0) THEN Num("1.5") ELSE (2 ** hs) // (3 ** h)
      sc == (ned ** 1000) // (b ** h)
  IN Clamp("0.4" ** (1 -- (sc // (k1 ** (h // hs) ** fct))), 0, 1)
KcFlange(fcr, act, fct) == MaxF(("0.9" ** Abs(fcr) ** 1000) // (act ** fct), "0.5")
Xi1Bad(xi, pp, ps) == Le(pp, 0) \/ Lt(ps, 0) \/ Lt(xi, "0.15") \/ Gt(xi, "0.8")
Xi1(xi, pp, ps) == IF Gt(ps, 0) THEN Sqrt((xi ** ps) // pp) ELSE Sqrt(xi)
HcEff(h, d, x) == MinF(MinF("2.5" ** (h -- d), (h -- x) // 3), h // 2)
AsMinP(a) == ((a.kc ** a.k ** Abs(a.fct_eff) ** a.A_ct)
              -- (Xi1(a.xi, a.phi_p, a.phi_s) ** a.Ap ** a.delta_s)) // a.sigma_s
(* Tables 7.2N and 7.3N: rows are steel stresses, columns crack widths.     *)
(* Between the entries the tables are interpolated linearly over one of the *)
(* two triangles that the diagonal of a cell of the table makes.            *)
TabW == <<"0.4", "0.3", "0.2">>
TabS == <<160, 200, 240, 280, 320, 360, 400, 450>>
TabPhi == << <<40, 32, 25>>, <<32, 25, 16>>, <<20, 16, 12>>, <<16, 12, 8>>,
             <<12, 10, 6>>, <<10, 8, 5>>, <<8, 6, 4>>, <<6, 5, "nan">> >>
TabSpa == << <<300, 300, 200>>, <<300, 250, 150>>, <<250, 200, 100>>,
             <<200, 150, 50>>, <<150, 100, "nan">>, <<100, 50, "nan">> >>
(* the set of values that linear interpolation in the table may give *)
TabVals(tab, s, w) ==
  LET n == Len(tab)
      cells == {c \in (1..(n - 1)) \X (1..2) :
                  /\ Ge(s, TabS[c[1]]) /\ Le(s, TabS[c[1] + 1])
                  /\ Le(w, TabW[c[2]]) /\ Ge(w, TabW[c[2] + 1])}
      vals(c) ==
        LET i == c[1]  j == c[2]
            u == (s -- TabS[i]) // (TabS[i + 1] -- TabS[i])
            v == (w -- TabW[j]) // (TabW[j + 1] -- TabW[j])
            f00 == tab[i][j]   f10 == tab[i + 1][j]
            f01 == tab[i][j + 1]   f11 == tab[i + 1][j + 1]
            (* diagonal 00-11 *)
            d1 == IF Ge(u, v) THEN {f00 ++ (u ** (f10 -- f00)) ++ (v ** (f11 -- f10))} ELSE {}
            d2 == IF Le(u, v) THEN {f00 ++ (v ** (f01 -- f00)) ++ (u ** (f11 -- f01))} ELSE {}
            (* diagonal 10-01 *)
            d3 == IF Le(u ++ v, 1) THEN {f00 ++ (u ** (f10 -- f00)) ++ (v ** (f01 -- f00))} ELSE {}
            d4 == IF Ge(u ++ v, 1) THEN {f11 ++ ((1 -- u) ** (f01 -- f11)) ++ ((1 -- v) ** (f10 -- f11))} ELSE {}
        IN d1 \cup d2 \cup d3 \cup d4
  IN UNION {vals(c) : c \in cells}
AsMin2Phi(a, e, p) ==
  IF Has(e, "kc") THEN (p ** (a.fct_eff // "2.9") ** a.kc ** a.h_cr) // (2 ** (a.h -- a.d))
  ELSE (p ** (a.fct_eff // "2.9") ** a.h_cr) // (8 ** (a.h -- a.d))
(* verdict, because the interpolation leaves a choice *)
AsMin2OK(e, o) ==
  LET a == e.a
      s == a.sigma_s -- D(e, "delta_s", 0)
      bad == \/ Lt(a.wk, 0) \/ Lt(a.fct_eff, 0) \/ Lt(a.h_cr, 0) \/ Lt(a.h, 0) \/ Lt(a.d, 0)
             \/ (Has(e, "kc") /\ KcBad(a.kc))
      P == TabVals(TabPhi, s, a.wk)
      S == TabVals(TabSpa, s, a.wk)
      mayErr == P = {} \/ S = {} \/ (\E p \in P : ~IsFin(p)) \/ (\E p \in S : ~IsFin(p))
  IN IF bad THEN o = ErrV("ValueError")
     ELSE IF Le(s, 0) THEN o.k = "seq" /\ Eq(o.v[1], 0) /\ Eq(o.v[2], 0)
     ELSE IF o.k = "err" THEN o.v = "ValueError" /\ mayErr
     ELSE /\ o.k = "seq" /\ Len(o.v) = 2
          /\ \E p \in P : IsFin(p) /\ Close(o.v[1], AsMin2Phi(a, e, p), "1e-7", "1e-9")
          /\ \E q \in S : IsFin(q) /\ Close(o.v[2], q, "1e-7", "1e-9")
EpsSmCm(a) ==
  LET b == ((a.kt ** a.fct_eff) // a.rho_p_eff) ** (1 ++ (a.alpha_e ** a.rho_p_eff))
  IN MaxF((a.sigma_s -- b) // a.Es, ("0.6" ** a.sigma_s) // a.Es)
PhiEq(a) == ((a.n1 ** Sq(a.phi1)) ++ (a.n2 ** Sq(a.phi2))) // ((a.n1 ** a.phi1) ++ (a.n2 ** a.phi2))
SrMaxClose(e) == LET a == e.a IN
  (D(e, "k3", "3.4") ** a.c) ++ ((a.k1 ** a.k2 ** D(e, "k4", "0.425") ** a.phi) // a.rho_p_eff)
SrMaxTheta(y, z, th) == 1 // ((Cos(th) // y) ++ (Sin(th) // z))
EpsRestraint(a) == ("0.5" ** a.alpha_e ** a.kc ** a.k ** a.fct_eff
                    ** (1 ++ (1 // (a.alpha_e ** a.rho_p_eff)))) // a.Es

(* ------------------------------------------------------------ dispatch *)
Expected(e) ==
  LET a == e.a  f == e.f IN
  CASE f = "fcm" -> NumV(Fcm(a.fck, D(e, "delta_f", 8)))
    [] f = "fctm" -> NumV(Fctm(a.fck))
    [] f = "fctk_5" -> NumV(Fctk5(a.fctm))
    [] f = "fctk_95" -> NumV(Fctk95(a.fctm))
    [] f = "Ecm" -> NumV(Ecm(a.fcm))
    [] f = "eps_c1" -> NumV(EpsC1(a.fcm))
    [] f = "eps_cu1" -> NumV(EpsCu1(a.fck))
    [] f = "k_sargin" -> NumV(KSargin(a.Ecm, a.fcm, a.eps_c1))
    [] f = "eps_c2" -> NumV(EpsC2(a.fck))
    [] f = "eps_cu2" -> NumV(EpsCu2(a.fck))
    [] f = "n_parabolic_rectangular" -> NumV(NParab(a.fck))
    [] f = "eps_c3" -> NumV(EpsC3(a.fck))
    [] f = "eps_cu3" -> NumV(EpsCu3(a.fck))
    [] f = "fcd" -> NumV(Fcd(a.fck, a.alpha_cc, a.gamma_c))
    [] f = "beta_cc" -> Vec(e, "t", LAMBDA x : BetaCC(x, a.s))
    [] f = "beta_ct" -> Vec(e, "t", LAMBDA x : BetaCT(x, a.s))
    [] f = "beta_E" -> Vec(e, "t", LAMBDA x : BetaE(x, a.s))
    [] f = "s_time_development" -> ByClass(SCement, Class(a.cement_class))
    [] f = "fcm_time" -> Vec(e, "beta_cc", LAMBDA x : x ** a.fcm)
    [] f = "fctm_time" -> Vec(e, "beta_cc", LAMBDA x : FctmTime(a.fctm, x, a.alpha))
    [] f = "Ecm_time" -> Vec(e, "fcm_time", LAMBDA x : EcmTime(a.fcm, x, a.Ecm))
    [] f = "fyd" -> OrErr(Lt(a.fyk, 0) \/ Lt(a.gamma_s, 1), NumV(a.fyk // a.gamma_s))
    [] f = "epsud" -> OrErr(Lt(a.epsuk, 0) \/ Gt(D(e, "gamma_eps", "0.9"), 1),
                            NumV(a.epsuk ** D(e, "gamma_eps", "0.9")))
    [] f = "reinforcement_duct_props" ->
         LET c == DClass(a.ductility_class) IN
         IF c = "?" THEN ErrV("ValueError")
         ELSE RecV([epsuk |-> DuctProps[c].epsuk, ftk |-> DuctProps[c].k ** a.fyk])
    (* creep and shrinkage *)
    [] f = "eps_cs" -> IF e.vec THEN SeqV([i \in 1..Len(a.eps_cd) |-> a.eps_cd[i] ++ a.eps_ca[i]])
                       ELSE NumV(a.eps_cd ++ a.eps_ca)
    [] f = "eps_cd" -> Vec(e, "beta_ds", LAMBDA x : x ** a.k_h ** a.eps_cd_0)
    [] f = "beta_ds" -> Vec(e, "t", LAMBDA x : BetaDs(x, a.t_s, a.h_0))
    [] f = "k_h" -> NumV(KH(a.h_0))
    [] f = "eps_cd_0" -> NumV(EpsCd0(a.alpha_ds1, a.alpha_ds2, a.fcm, a.beta_RH, D(e, "fcm_0", 10)))
    [] f = "alpha_ds1" -> ByClass(AlphaDs1, Class(a.cement_class))
    [] f = "alpha_ds2" -> ByClass(AlphaDs2, Class(a.cement_class))
    [] f = "beta_RH" -> NumV(BetaRH(a.RH, D(e, "RH_0", 100)))
    [] f = "eps_ca" -> Vec(e, "beta_as", LAMBDA x : x ** a.eps_ca_inf)
    [] f = "eps_ca_inf" -> NumV(EpsCaInf(a.fck))
    [] f = "beta_as" -> Vec(e, "t", BetaAs)
    [] f = "phi" -> Vec(e, "beta_c", LAMBDA x : x ** a.phi_0)
    [] f = "phi_0" -> NumV(a.phi_RH ** a.beta_fcm ** a.beta_t0)
    [] f = "phi_RH" -> NumV(PhiRH(a.h_0, a.fcm, a.RH, a.alpha_1, a.alpha_2))
    [] f = "beta_fcm" -> NumV(BetaFcm(a.fcm))
    [] f = "beta_t0" -> NumV(BetaT0(a.t0))
    [] f = "h_0" -> NumV((2 ** a.Ac) // a.u)
    [] f = "beta_c" -> Vec(e, "t", LAMBDA x : BetaC(a.t0, x, a.beta_H))
    [] f = "beta_H" -> NumV(BetaH(a.h_0, a.fcm, a.RH, a.alpha_3))
    [] f = "alpha_1" -> NumV(AlphaB(a.fcm, "0.7"))
    [] f = "alpha_2" -> NumV(AlphaB(a.fcm, "0.2"))
    [] f = "alpha_3" -> NumV(AlphaB(a.fcm, "0.5"))
    [] f = "t0_adj" -> NumV(T0Adj(a.t0, a.alpha_cement))
    [] f = "t_T" -> IF e.mix THEN ErrV("ValueError")
                    ELSE IF ~e.vec THEN NumV(TT(a.T, a.dt))
                    ELSE IF Len(a.T) # Len(a.dt) THEN ErrV("ValueError")
                    ELSE NumV(SumSeq([i \in 1..Len(a.T) |-> TT(a.T[i], a.dt[i])]))
    [] f = "alpha_cement" -> ByClass(AlphaCement, Class(a.cement_class))
    (* shear *)
    [] f = "VRdc" -> NumV(VRdc(e))
    [] f = "VRdc_prin_stress" -> NumV(VRdcPrin(e))
    [] f = "VEdmax_unreinf" -> NumV("0.5" ** a.bw ** a.d ** Nu(a.fck) ** a.fcd)
    [] f = "VRds" -> OrErr(BadTheta(a.theta), NumV(VRds(e)))
    [] f = "Asw_s_required" -> OrErr(BadTheta(a.theta), NumV(AswS(e)))
    [] f = "VRdmax" -> OrErr(BadTheta(a.theta) \/ AlphaCwBad(a.NEd, a.Ac, a.fcd), NumV(VRdmax(e)))
    [] f = "Asw_max" -> OrErr(AlphaCwBad(a.NEd, a.Ac, a.fcd), NumV(AswMax(e)))
    (* crack control *)
    [] f = "w_max" -> WMax(a.exposure_class, a.load_combination)
    [] f = "As_min" -> OrErr(AsMinBad(a), NumV(AsMin(a)))
    [] f = "k" -> OrErr(Lt(a.h, 0), NumV(KThick(a.h)))
    [] f = "kc_tension" -> NumV(1)
    [] f = "kc_rect_area" -> OrErr(AnyNeg(a, {"h", "b"}), NumV(KcRect(a.h, a.b, a.fct_eff, a.N_ed)))
    [] f = "kc_flanges_area" -> OrErr(Lt(a.A_ct, 0), NumV(KcFlange(a.f_cr, a.A_ct, a.fct_eff)))
    [] f = "xi1" -> OrErr(Xi1Bad(a.xi, a.phi_p, a.phi_s), NumV(Xi1(a.xi, a.phi_p, a.phi_s)))
    [] f = "hc_eff" -> OrErr(AnyNeg(a, {"h", "d", "x"}) \/ Gt(a.d, a.h) \/ Gt(a.x, a.h),
                             NumV(HcEff(a.h, a.d, a.x)))
    [] f = "As_min_p" -> OrErr(AsMinBad(a) \/ AnyNeg(a, {"Ap", "delta_s"})
                               \/ Xi1Bad(a.xi, a.phi_p, a.phi_s), NumV(AsMinP(a)))
    [] f = "alpha_e" -> OrErr(AnyNeg(a, {"Es", "Ecm"}), NumV(a.Es // a.Ecm))
    [] f = "rho_p_eff" -> OrErr(AnyNeg(a, {"As", "xi1", "Ap", "Ac_eff"}),
                                NumV((a.As ++ (Sq(a.xi1) ** a.Ap)) // a.Ac_eff))
    [] f = "kt" -> CASE a.load_type \in {"short", "SHORT", " short"} -> NumV("0.6")
                     [] a.load_type \in {"long", "Long", "long "} -> NumV("0.4")
                     [] OTHER -> ErrV("ValueError")
    [] f = "eps_sm_eps_cm" ->
         OrErr(AnyNeg(a, {"sigma_s", "alpha_e", "rho_p_eff", "fct_eff", "Es"})
               \/ (~Eq(a.kt, "0.6") /\ ~Eq(a.kt, "0.4")), NumV(EpsSmCm(a)))
    [] f = "w_spacing" -> OrErr(AnyNeg(a, {"c", "phi"}), NumV(5 ** (a.c ++ (a.phi // 2))))
    [] f = "phi_eq" -> OrErr(AnyNeg(a, {"n1", "n2", "phi1", "phi2"}), NumV(PhiEq(a)))
    [] f = "k1" -> CASE a.bond_type \in {"bond", "BOND", " bond"} -> NumV("0.8")
                     [] a.bond_type \in {"plain", "Plain", "plain "} -> NumV("1.6")
                     [] OTHER -> ErrV("ValueError")
    [] f = "k2" -> OrErr(Lt(a.eps_r, 0) \/ Gt(a.eps_r, 1), NumV((1 ++ a.eps_r) // 2))
    [] f = "k3" -> NumV("3.4")
    [] f = "k4" -> NumV("0.425")
    [] f = "sr_max_close" ->
         OrErr(AnyNeg(a, {"c", "phi", "rho_p_eff"} \cup ({"k3", "k4"} \cap DOMAIN a))
               \/ (~Eq(a.k1, "0.8") /\ ~Eq(a.k1, "1.6")) \/ Lt(a.k2, "0.5") \/ Gt(a.k2, 1),
               NumV(SrMaxClose(e)))
    [] f = "sr_max_far" -> OrErr(AnyNeg(a, {"h", "x"}) \/ Gt(a.x, a.h), NumV("1.3" ** (a.h -- a.x)))
    [] f = "sr_max_theta" -> OrErr(AnyNeg(a, {"sr_max_y", "sr_max_z"}) \/ Lt(a.theta, 0)
                                   \/ Gt(a.theta, PI // 2),
                                   NumV(SrMaxTheta(a.sr_max_y, a.sr_max_z, a.theta)))
    [] f = "wk" -> OrErr(AnyNeg(a, {"sr_max", "eps_sm_eps_cm"}), NumV(a.sr_max ** a.eps_sm_eps_cm))
    [] f = "eps_sm_eps_cm_restraint_end" -> NumV(EpsRestraint(a))

(* numbers of bars that are not integers, names that are not names *)
Judge(e) == IF e.f = "As_min_2" THEN AsMin2OK(e, e.o)
            ELSE IF "notint" \in DOMAIN e THEN e.o = ErrV("TypeError") \/ (e.f # "phi_eq" /\ e.o = ErrV("ValueError"))
            ELSE Match(Expected(e), e.o)
=============================================================================
