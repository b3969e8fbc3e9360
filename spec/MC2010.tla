------------------------------- MODULE MC2010 -------------------------------
(* fib Model Code 2010 as specified: materials, creep and shrinkage, shear,  *)
(* torsion, punching, interface shear and bond.  Units N, mm, days, degrees. *)
EXTENDS FormulaKit

(* -------------------------------------------------- 5.1: concrete *)
FcmM(fck, df) == Abs(fck) ++ Abs(df)
FctmM(fck) == IF Le(Abs(fck), 50) THEN "0.3" ** FPow(Abs(fck), FDiv(2, 3))
              ELSE "2.12" ** Ln(1 ++ ("0.1" ** FcmM(fck, 8)))
Agg == [basalt |-> "1.2", quartzite |-> "1.0", limestone |-> "0.9", sandstone |-> "0.7"]
AggOf(s) == CASE s \in {"basalt", "Basalt", "BASALT"} -> "basalt"
              [] s \in {"quartzite", "Quartzite", "QUARTZITE"} -> "quartzite"
              [] s \in {"limestone", "Limestone"} -> "limestone"
              [] s \in {"sandstone", "SANDSTONE"} -> "sandstone"
Slow == {"32.5 N", "32.5 n"}
Norm == {"32.5 R", "42.5 N", "32.5 r", "42.5 n"}
Rapid == {"42.5 R", "52.5 N", "52.5 R", "42.5 r", "52.5 n", "52.5 r"}
CemBy(c, s, n, r) == CASE c \in Slow -> s [] c \in Norm -> n [] c \in Rapid -> r
BetaCCM(t, fcm, c) ==
  LET s == IF Gt(fcm, 60) THEN Num("0.2") ELSE CemBy(c, "0.38", "0.25", "0.2")
  IN Exp(s ** (1 -- Sqrt(28 // t)))
Grades == <<12, 16, 20, 25, 30, 35, 40, 45, 50, 55, 60, 70, 80, 90, 100, 110, 120>>
TabC1 == <<"-1.9", "-2.0", "-2.1", "-2.2", "-2.3", "-2.3", "-2.4", "-2.5", "-2.6", "-2.6", "-2.7", "-2.7", "-2.8", "-2.9", "-3.0", "-3.0", "-3.0">>
TabLim == <<"-3.5", "-3.5", "-3.5", "-3.5", "-3.5", "-3.5", "-3.5", "-3.5", "-3.4", "-3.4", "-3.3", "-3.2", "-3.1", "-3.0", "-3.0", "-3.0", "-3.0">>
TabK == <<"2.44", "2.36", "2.28", "2.15", "2.04", "1.92", "1.82", "1.74", "1.66", "1.61", "1.55", "1.47", "1.41", "1.36", "1.32", "1.24", "1.18">>
GradeBad(f) == Lt(f, 12) \/ Gt(f, 120)
High(fck, low, hi) == IF Le(Abs(fck), 50) THEN low ELSE hi
EpsC2M(fck) == High(fck, 2 // 1000, (2 ++ ("0.085" ** FPow(Abs(fck) -- 50, "0.53"))) // 1000)
EpsCu2M(fck) == High(fck, "3.5" // 1000, ("2.6" ++ (35 ** Sq(Sq((90 -- Abs(fck)) // 100)))) // 1000)
NParM(fck) == High(fck, Num(2), "1.4" ++ ("23.4" ** Sq(Sq((90 -- Abs(fck)) // 100))))
EpsC3M(fck) == High(fck, "1.75" // 1000, ("1.75" ++ (("0.55" ** (Abs(fck) -- 50)) // 40)) // 1000)
DuctM == [A |-> [e |-> "0.025", k |-> "1.05"], B |-> [e |-> "0.05", k |-> "1.08"],
          C |-> [e |-> "0.075", k |-> "1.15"], D |-> [e |-> "0.08", k |-> "1.25"]]
DuctOf(s) == CASE s \in {"A", "a"} -> "A" [] s \in {"B", "b"} -> "B" [] s \in {"C", "c"} -> "C"
               [] s \in {"D", "d"} -> "D" [] OTHER -> "?"
(* --------------------------------------- 5.1.9: creep and shrinkage *)
TTM(T, dt) == Exp("13.65" -- (4000 // (273 ++ T))) ** dt
T0AdjM(t, c) == MaxF(t ** FPow((9 // (2 ++ FPow(t, "1.2"))) ++ 1, CemBy(c, "-1", "0", "1")), "0.5")
EpsCds0(fcm, c) == (220 ++ (110 ** CemBy(c, 3, 4, 6))) ** Exp(FNeg(CemBy(c, "0.013", "0.012", "0.012") ** fcm)) ** "1e-6"
BetaDsM(t, ts, h) == LET d == MaxF(t -- ts, 0) IN Sqrt(d // (("0.035" ** Sq(h)) ++ d))
BetaS1(fcm) == MinF(FPow(35 // fcm, "0.1"), 1)
RHBad(rh) == (Lt(rh, "0.4") \/ Gt(rh, 1)) /\ (Lt(rh, 40) \/ Gt(rh, 100))
RH1(rh) == IF Gt(rh, 1) THEN rh // 100 ELSE Num(rh)
BetaRHM(rh0, s1) == LET rh == RH1(rh0) IN
  IF RHBad(rh0) THEN ErrV("ValueError")
  ELSE IF Ge(rh, "0.99" ** s1) THEN NumV("0.25")
  ELSE IF Ge(rh, "0.4" ** s1) THEN NumV(FNeg("1.55" ** (1 -- FPow(rh, 3))))
  ELSE ErrV("ValueError")
EpsCbs0(fcm, c) == LET q == "0.1" ** fcm IN
  FNeg(CemBy(c, 800, 700, 600) ** FPow(q // (6 ++ q), "2.5") ** "1e-6")
BetaBcT(t, t0, ta) == Ln((Sq((30 // ta) ++ "0.035") ** (t -- t0)) ++ 1)
BetaDcT(t, t0, bh, g) == FPow((t -- t0) // (bh ++ (t -- t0)), g)
BetaDcRH(rh, h) == (1 -- RH1(rh)) // Cube(("0.1" ** h) // 100)
KSig(s, fcm) == Abs(s) // fcm
TooHigh(s, fcm) == Gt(Abs(s), "0.6" ** fcm)
PhiF(s, fcm) == LET k == KSig(s, fcm) IN IF Gt(k, "0.4") THEN Exp("1.5" ** (k -- "0.4")) ELSE Num(1)
(* ------------------------------------------------------ 7.3.3: shear *)
Rad(x) == (x ** PI) // 180
CotD(x) == 1 // Tan(Rad(x))
EpsX(a) == MaxF((1 // (2 ** a.E_s ** a.As))
                ** ((Abs(a.loads.Med) // a.z) ++ Abs(a.loads.Ved) ++ (a.loads.Ned ** ("0.5" ++ (a.loads.delta_e // a.z)))), 0)
EtaFc(fck) == MinF(Cube(30 // fck), 1)
FSq(fck) == MinF(Sqrt(fck), 8)
GC(e) == D(e, "gamma_c", "1.5")
AL(e) == D(e, "alpha", 90)
Vc1(e) == LET a == e.a IN ((180 // (1000 ++ ("1.25" ** a.z))) ** FSq(a.fck) ** a.z ** a.bw) // GC(e)
KDg(dg) == MaxF(32 // (16 ++ dg), "0.75")
Vc2(e) == LET a == e.a
              k == KDg(IF Gt(a.fck, 70) THEN 0 ELSE a.dg)
              kv == ("0.4" // (1 ++ (1500 ** EpsX(a)))) ** (1300 // (1000 ++ (k ** a.z)))
          IN (kv ** FSq(a.fck) ** a.z ** a.bw) // GC(e)
Strut(e, th) == (CotD(th) ++ CotD(AL(e))) // (1 ++ Sq(CotD(th)))
KEps(ex, th) == MinF(1 // ("1.2" ++ (55 ** (ex ++ ((ex ++ "0.002") ** Sq(CotD(th)))))), "0.65")
ThMin(a) == 20 ++ (10000 ** EpsX(a))
Vm1(e, th) == LET a == e.a IN "0.55" ** EtaFc(a.fck) ** (a.fck // GC(e)) ** a.bw ** a.z ** Strut(e, th)
Vm2(e, th) == LET a == e.a IN KEps(EpsX(a), th) ** EtaFc(a.fck) ** (a.fck // GC(e)) ** a.bw ** a.z ** Strut(e, th)
Vm3(e) == Vm2(e, ThMin(e.a))
Vm(e, l, th) == CASE Eq(l, 1) -> Vm1(e, th) [] Eq(l, 2) -> Vm2(e, th) [] Eq(l, 3) -> Vm3(e)
Vc3(e) == LET a == e.a
              kv == MaxF(("0.4" // (1 ++ (1500 ** EpsX(a)))) ** (1 -- (a.loads.Ved // Vm3(e))), 0)
          IN (kv ** FSq(a.fck) ** a.z ** a.bw) // GC(e)
Vc(e, l) == CASE Eq(l, 1) -> Vc1(e) [] Eq(l, 2) -> Vc2(e) [] Eq(l, 3) -> Vc3(e)
LvlOK(l) == Eq(l, 1) \/ Eq(l, 2) \/ Eq(l, 3)
Vs(e, th) == LET a == e.a  al == AL(e) IN
  (a.asw // a.sw) ** a.z ** (a.f_ywk // D(e, "gamma_s", "1.15")) ** (CotD(th) ++ CotD(al)) ** Sin(Rad(al))
VRd(e) == LET a == e.a  l == a.approx_lvl IN
  IF ~LvlOK(l) THEN ErrV("ValueError")
  ELSE IF ~a.with_shear_reinforcment THEN NumV(Vc(e, l))
  ELSE IF Eq(l, 3) /\ Lt(Vc3(e) ++ Vs(e, a.theta), Vm3(e)) THEN NumV(Vc3(e) ++ Vs(e, a.theta))
  ELSE NumV(MinF(Vs(e, a.theta), IF Eq(l, 1) THEN Vm1(e, a.theta) ELSE Vm2(e, a.theta)))
(* at the limit between the two level III resistances either may be taken *)
VRdOK(e) == \/ Match(VRd(e), e.o)
            \/ /\ Eq(e.a.approx_lvl, 3) /\ e.a.with_shear_reinforcment
               /\ Close(Vc3(e) ++ Vs(e, e.a.theta), Vm3(e), "1e-9", 0)
               /\ \/ Match(NumV(Vm3(e)), e.o)
                  \/ Match(NumV(MinF(Vs(e, e.a.theta), Vm2(e, e.a.theta))), e.o)
ThWarn(th) == Gt(th, 45) \/ Lt(th, 20)
VRdWarn(e) == LET a == e.a IN
  IF a.with_shear_reinforcment THEN LvlOK(a.approx_lvl) /\ ThWarn(a.theta)
  ELSE ~(Eq(a.approx_lvl, 1) \/ Eq(a.approx_lvl, 2))
AlphaL(a) == a.l_x // ("1.2" ** a.l_bd0)
Ct1(a) == "0.8" ** ((a.i_c ** a.b_w) // a.s_c) ** Sqrt(Sq(a.f_ctd) ++ (AlphaL(a) ** a.sigma_cp ** a.f_ctd))
Ct2(a) ==
  LET sc == ((a.y_c -- a.y) // (a.A_c ** a.i_c)) ** a.f_p_lx
      tau == (1 // a.b_wy) ** ((a.A_cy // a.A_c) -- ((a.S_cy ** (a.y_c -- a.y_pt)) // a.i_c)) ** a.f_p_lx_dx
  IN ((a.i_c ** a.b_wy) // a.S_cy) ** (Sqrt(Sq(a.f_ctd) ++ (AlphaL(a) ** sc ** a.f_ctd)) -- tau)
(* ---------------------------------------------------- 7.3.4: torsion *)
TRdMax(e, fck, gc) == LET a == e.a
      ex == EpsX(a)
      ke == CASE Eq(a.approx_lvl, 1) -> Num("0.55")
              [] Eq(a.approx_lvl, 2) -> KEps(ex, a.theta)
              [] Eq(a.approx_lvl, 3) -> KEps(ex, ThMin(a))
  IN (EtaFc(fck) ** ke ** fck ** (a.d_k // 8) ** 2 ** a.a_k ** Sin(Rad(a.theta)) ** Cos(Rad(a.theta))) // gc
TRdUse(e) == LET a == e.a IN
  Sq(a.t_ed // TRdMax(e, a.fck, GC(e))) ++ Sq(a.loads.Ved // Vm(e, a.approx_lvl, a.theta))
TRdOK(e) == LET u == TRdUse(e) IN
  \/ Close(u, 1, "1e-9", 0) /\ e.o.k = "bool"
  \/ Match(BoolV(Le(u, 1)), e.o)
(* --------------------------------------------------- 7.3.5: punching *)
Med(a) ==
  IF a.inner THEN NumV(a.v_ed ** ("0.125" ++ (Abs(a.e_u) // (2 ** a.b_s))))
  ELSE IF a.edge_par THEN NumV(MaxF(a.v_ed ** ("0.125" ++ (a.e_u // (2 ** a.b_s))), a.v_ed // 4))
  ELSE IF a.edge_per THEN NumV(a.v_ed ** ("0.125" ++ (a.e_u // a.b_s)))
  ELSE IF a.corner THEN NumV(MaxF(a.v_ed ** ("0.125" ++ (a.e_u // a.b_s)), a.v_ed // 2))
  ELSE ErrV("ValueError")
Rs(e) == LET a == e.a
             r == "0.22" ** (IF a.x_direction THEN a.l_x ELSE a.l_y)
         IN IF D(e, "column_edge_or_corner", FALSE) /\ D(e, "is_level_three_approximation", FALSE)
            THEN IF Has(e, "b_sr") /\ a["b_sr"] # "None" THEN NumV(MaxF(r, "0.67" ** a["b_sr"])) ELSE ErrV("ValueError")
            ELSE NumV(r)
Psi1(a) == ("1.5" ** MaxF("0.22" ** a.l_x, "0.22" ** a.l_y) ** a.f_yd) // (a.d_eff ** a.e_s)
Psi2(e) == LET a == e.a  mp == D(e, "m_Pd", 0) IN
  (("1.5" ** a["r_s"] ** a.f_yd) // (a.d_eff ** a.e_s)) ** FPow((a["m_ed"] -- mp) // (a.m_rd -- mp), "1.5")
SigSw(a) == LET al == Rad(a.alpha) IN
  MinF(((a.e_s ** a["psi_punching"]) // 6) ** (Sin(al) ++ Cos(al))
       ** (Sin(al) ++ ((a.f_bd ** a.d_eff) // (a.f_ywd ** a.phi_w))), a.f_ywd)
KE(a) == 1 // (1 ++ (a.e_u // a.b_u))
VsP(a) == a.a_sw ** KE(a) ** a["sigma_swd"] ** Sin(Rad(a.alpha))
VmaxP(e) == LET a == e.a
                ks == IF a.d_head THEN Num("2.8") ELSE IF a.stirrups_compression THEN Num("2.4") ELSE Num(2)
                base == a.b0_val ** a.d_v ** (Sqrt(a.f_ck) // GC(e))
            IN MinF(ks ** a.k_psi_val ** base, base)
(* -------------------------------------------------- 7.3.6: interfaces *)
VI(fck) == MinF("0.55" ** Cube(30 // fck), "0.55")
TauNo(a) == MinF((a.c_a ** a.f_ctd) ++ (a.mu ** a.sigma_n), "0.5" ** VI(a.f_ck) ** a.f_cd)
TauRe(a) == LET al == Rad(a.alpha) IN
  MinF((a.c_r ** Cube(a.f_ck)) ++ (a.mu ** a.sigma_n)
        ++ (a.k1 ** a.ro ** a.f_yd ** ((a.mu ** Sin(al)) ++ Cos(al)))
        ++ (a.k2 ** a.ro ** Sqrt(a.f_yd ** a.f_cd)),
       a.beta_c ** VI(a.f_ck) ** a.f_cd)
(* -------------------------------------------------------- 6.1: bond *)
BondOf(s) == CASE s \in {"good", "Good", "GOOD"} -> "good" [] s \in {"other", "Other", "OTHER"} -> "other" [] OTHER -> "?"
ModeOf(s) == CASE s \in {"PO", "po", "Po"} -> "po" [] s \in {"SP", "sp", "Sp"} -> "sp" [] OTHER -> "?"
ConfOf(s) == CASE s \in {"unconfined", "Unconfined"} -> "unconfined" [] s \in {"stirrups", "STIRRUPS"} -> "stirrups" [] OTHER -> "?"
ByBond(s, g, o) == CASE BondOf(s) = "good" -> NumV(g) [] BondOf(s) = "other" -> NumV(o) [] OTHER -> ErrV("ValueError")
Cover(a, p) == (FPow(a.c_min // a.phi, p) ** FPow(a.c_max // a.c_min, "0.1")) ++ (a.k_m ** a["K_tr"])
Size(a) == FPow(a.f_cm // 25, "0.25") ** FPow(25 // a.phi, "0.2")
S3(a) == LET m == ModeOf(a.failmod)  b == BondOf(a.bond)  c == ConfOf(a.confinement) IN
  IF m = "?" \/ b = "?" THEN ErrV("ValueError")
  ELSE IF m = "po" THEN NumV(a.c_clear)
  ELSE CASE c = "unconfined" -> NumV("1.2" ** a["s_1"]) [] c = "stirrups" -> NumV("0.5" ** a.c_clear)
         [] OTHER -> ErrV("ValueError")
Out(x, lo, hi) == ~(Lt(lo, x) /\ Lt(x, hi))
FstmWarn(a) == Out(a.f_cm, 15, 110) \/ Out(a.c_min // a.phi, "0.5", "3.5") \/ Out(a.c_max // a.c_min, 1, 5) \/ Gt(a["K_tr"], "0.05")

(* ------------------------------------------------------- dispatch *)
Expected(e) ==
  LET a == e.a  f == e.f IN
  CASE f = "fcm" -> NumV(FcmM(a.fck, D(e, "delta_f", 8)))
    [] f = "fctm" -> NumV(FctmM(a.fck))
    [] f = "fctkmin" -> NumV("0.7" ** a.fctm)
    [] f = "fctkmax" -> NumV("1.3" ** a.fctm)
    [] f = "Gf" -> NumV(73 ** FPow(FcmM(a.fck, 8), "0.18"))
    [] f = "Eci" -> NumV(D(e, "EC0", 21500) ** Agg[AggOf(D(e, "agg_type", "quartzite"))] ** Cube(a.fcm // 10))
    [] f = "beta_cc" -> Vec(e, "time", LAMBDA x : BetaCCM(x, a.fcm, a.cem_class))
    [] f = "beta_e" -> Vec(e, "beta_cc", Sqrt)
    [] f = "Eci_t" -> Vec(e, "beta_e", LAMBDA x : x ** a["Eci"])
    [] f = "fcd" -> NumV((Abs(D(e, "alpha_cc", 1)) ** Abs(a.fck)) // Abs(GC(e)))
    [] f = "eps_c1" -> OrErr(GradeBad(a.fck), NumV(Interp(a.fck, Grades, TabC1) // 1000))
    [] f = "eps_cu1" -> OrErr(GradeBad(a.fck), NumV(Interp(a.fck, Grades, TabLim) // 1000))
    [] f = "k_sargin" -> OrErr(GradeBad(a.fck), NumV(Interp(a.fck, Grades, TabK)))
    [] f = "eps_c2" -> NumV(EpsC2M(a.fck))
    [] f = "eps_cu2" -> NumV(EpsCu2M(a.fck))
    [] f = "eps_cu3" -> NumV(EpsCu2M(a.fck))
    [] f = "eps_c3" -> NumV(EpsC3M(a.fck))
    [] f = "n_parabolic_rectangular" -> NumV(NParM(a.fck))
    [] f = "fyd" -> OrErr(Lt(a.fyk, 0) \/ Lt(D(e, "gamma_s", "1.15"), 1), NumV(a.fyk // D(e, "gamma_s", "1.15")))
    [] f = "epsud" -> OrErr(Lt(a.epsuk, 0) \/ Gt(D(e, "gamma_eps", "0.9"), 1), NumV(a.epsuk ** D(e, "gamma_eps", "0.9")))
    [] f = "reinforcement_duct_props" ->
         LET c == DuctOf(a.ductility_class) IN
         IF c = "?" THEN ErrV("ValueError") ELSE RecV([epsuk |-> DuctM[c].e, ftk |-> DuctM[c].k ** a.fyk])
    (* creep and shrinkage *)
    [] f = "t_T" -> IF e.mix THEN ErrV("ValueError")
                    ELSE IF ~e.vec THEN NumV(TTM(a.T_cur, a.dt))
                    ELSE IF Len(a.T_cur) # Len(a.dt) THEN ErrV("ValueError")
                    ELSE NumV(SumSeq([i \in 1..Len(a.dt) |-> TTM(a.T_cur[i], a.dt[i])]))
    [] f = "t0_adj" -> NumV(T0AdjM(a["t_T"], a.cem_class))
    [] f = "eps_cds0" -> NumV(EpsCds0(a.fcm, a.cem_class))
    [] f = "beta_ds" -> Vec(e, "time", LAMBDA x : BetaDsM(x, a.ts, a.notional_size))
    [] f = "beta_s1" -> NumV(BetaS1(a.fcm))
    [] f = "beta_RH" -> BetaRHM(a.rh, a["beta_s1"])
    [] f = "eps_cds" -> Vec(e, "beta_ds", LAMBDA x : a["eps_cds0"] ** a.beta_rh ** x)
    [] f = "eps_cbs0" -> NumV(EpsCbs0(a.fcm, a.cem_class))
    [] f = "beta_bs" -> Vec(e, "time", LAMBDA x : 1 -- Exp("-0.2" ** Sqrt(x)))
    [] f = "eps_cbs" -> Vec(e, "beta_bs", LAMBDA x : a["eps_cbs0"] ** x)
    [] f = "beta_bc_fcm" -> NumV("1.8" // FPow(a.fcm, "0.7"))
    [] f = "beta_bc_t" -> Vec(e, "time", LAMBDA x : BetaBcT(x, a.t0, a["t0_adj"]))
    [] f = "phi_bc" -> Vec(e, "beta_bc_t", LAMBDA x : a["beta_bc_fcm"] ** x)
    [] f = "beta_dc_fcm" -> NumV(412 // FPow(a.fcm, "1.4"))
    [] f = "beta_dc_RH" -> OrErr(RHBad(a.rh), NumV(BetaDcRH(a.rh, a.notional_size)))
    [] f = "beta_dc_t0" -> NumV(1 // ("0.1" ++ FPow(a["t0_adj"], "0.2")))
    [] f = "alpha_fcm" -> NumV(Sqrt(35 // a.fcm))
    [] f = "beta_h" -> NumV(MinF(("1.5" ** a.notional_size) ++ (250 ** a["alpha_fcm"]), 1500 ** a["alpha_fcm"]))
    [] f = "gamma_t0" -> NumV(1 // ("2.3" ++ ("3.5" // Sqrt(a["t0_adj"]))))
    [] f = "beta_dc_t" -> Vec(e, "time", LAMBDA x : BetaDcT(x, a.t0, a["beta_h"], a["gamma_t0"]))
    [] f = "phi_dc" -> Vec(e, "beta_dc_t", LAMBDA x : a["beta_dc_fcm"] ** a["beta_dc_RH"] ** a["beta_dc_t0"] ** x)
    [] f = "k_sigma" -> OrErr(TooHigh(a.sigma, a.fcm), NumV(KSig(a.sigma, a.fcm)))
    [] f = "phi" -> IF TooHigh(a.sigma, a.fcm) THEN ErrV("ValueError")
                    ELSE IF e.vec THEN SeqV([i \in 1..Len(a["phi_bc"]) |-> (a["phi_bc"][i] ++ a["phi_dc"][i]) ** PhiF(a.sigma, a.fcm)])
                    ELSE NumV((a["phi_bc"] ++ a["phi_dc"]) ** PhiF(a.sigma, a.fcm))
    [] f = "calc_J" -> Vec(e, "phi", LAMBDA x : (1 // a.E_ci_t0) ++ (x // a.E_ci))
    (* shear *)
    [] f = "epsilon_x" -> NumV(EpsX(a))
    [] f = "eta_fc" -> NumV(EtaFc(a.fck))
    [] f = "create_load_dict" -> RecV([Med |-> a.Med, Ved |-> a.Ved, Ned |-> a.Ned, delta_e |-> a.delta_e])
    [] f = "v_rdc" -> IF LvlOK(a.approx_lvl) THEN NumV(Vc(e, a.approx_lvl)) ELSE ErrV("ValueError")
    [] f = "v_rdc_approx1" -> NumV(Vc1(e))
    [] f = "v_rdc_approx2" -> NumV(Vc2(e))
    [] f = "v_rdc_approx3" -> NumV(Vc3(e))
    [] f = "v_rds" -> NumV(Vs(e, D(e, "theta", 45)))
    [] f = "v_rd_max" -> IF LvlOK(a.approx_lvl) THEN NumV(Vm(e, a.approx_lvl, a.theta)) ELSE ErrV("ValueError")
    [] f = "v_rd_max_approx1" -> NumV(Vm1(e, a.theta))
    [] f = "v_rd_max_approx2" -> NumV(Vm2(e, a.theta))
    [] f = "v_rd_max_approx3" -> NumV(Vm3(e))
    [] f = "v_rd_ct" -> CASE Eq(a.approx_lvl_h, 1) -> NumV(Ct1(a)) [] Eq(a.approx_lvl_h, 2) -> NumV(Ct2(a)) [] OTHER -> ErrV("ValueError")
    [] f = "v_rd_ct_approx1" -> NumV(Ct1(a))
    [] f = "v_rd_ct_approx2" -> NumV(Ct2(a))
    (* torsion *)
    [] f = "v_ed_ti" -> NumV((a.t_ed ** a.z_i) // (2 ** a.a_k))
    [] f = "t_rd_max" -> NumV(TRdMax(e, a.f_ck, GC(e)))
    (* punching *)
    [] f = "b_0" -> NumV(a.v_ed // a.v_prep_d_max)
    [] f = "b_s" -> NumV(MinF("1.5" ** Sqrt(Sq("0.22") ** a.l_x ** a.l_y), MinF(a.l_x, a.l_y)))
    [] f = "m_ed" -> Med(a)
    [] f = "b_sr" -> NumV(MinF(a.l_x, a.l_y))
    [] f = "r_s" -> Rs(e)
    [] f = "psi_punching_level_one" -> NumV(Psi1(a))
    [] f = "psi_punching_level_two" -> NumV(Psi2(e))
    [] f = "psi_punching_level_three" ->
         NumV(IF D(e, "is_uncracked_model", FALSE) /\ D(e, "is_moment_from_uncracked_model", FALSE)
              THEN "0.8" ** a["psi_punching_level_two"] ELSE a["psi_punching_level_two"])
    [] f = "psi_punching" -> CASE Eq(a.approx_lvl_p, 1) -> NumV(a["psi_punching_level_one"])
                               [] Eq(a.approx_lvl_p, 2) -> NumV(a["psi_punching_level_two"])
                               [] Eq(a.approx_lvl_p, 3) -> NumV(a["psi_punching_level_three"])
                               [] OTHER -> ErrV("ValueError")
    [] f = "k_dg" -> NumV(KDg(a.d_g))
    [] f = "k_psi" -> NumV(MinF(1 // ("1.5" ++ ("0.9" ** a["k_dg"] ** a.d_eff ** a["psi_punching"])), "0.6"))
    [] f = "v_rdc_punching" -> NumV((a.k_psi_val ** a["b_0"] ** a.d_v ** Sqrt(a.f_ck)) // GC(e))
    [] f = "sigma_swd" -> NumV(SigSw(a))
    [] f = "v_rds_punching" -> NumV(VsP(a))
    [] f = "v_rd_max_punching" -> NumV(VmaxP(e))
    [] f = "v_rd_punching" -> NumV(MinF(a.v_rd_c ++ a.v_rd_s, a["v_rd_max"]))
    (* interfaces *)
    [] f = "tau_edi" -> NumV((a.beta ** a.v_ed) // (a.z ** a.b_i))
    [] f = "tau_rdi_without_reinforcement" -> NumV(TauNo(a))
    [] f = "tau_rdi_with_reinforcement" -> NumV(TauRe(a))
    (* bond *)
    [] f = "eta_2" -> ByBond(a.bond, 1, "0.7")
    [] f = "tau_bu_split" -> NumV(a["eta_2"] ** "6.5" ** Size(a) ** Cover(a, "0.33"))
    [] f = "K_tr" -> NumV(MinF((a.n_t ** a.A_st) // (a.n_b ** a.phi ** a.s_t), "0.05"))
    [] f = "tau_bmax" -> ByBond(a.bond, "2.5" ** Sqrt(a.f_cm), "1.25" ** Sqrt(a.f_cm))
    [] f = "s_1" -> ByBond(a.bond, 1, "1.8")
    [] f = "s_2" -> ByBond(a.bond, 2, "3.6")
    [] f = "s_3" -> S3(a)
    [] f = "s_tau_bu_split" -> NumV(FPow(a["tau_bu_split"] // a["tau_bmax"], 1 // a.alpha) ** a["s_1"])
    [] f = "f_stm" -> NumV(54 ** Size(a) ** FPow(a.l_b // a.phi, "0.55") ** Cover(a, "0.25"))
    [] f = "tau_yield" -> NumV((a.f_y ** a.phi) // (4 ** a.l_b))

Judge(e) == CASE e.f = "v_rd" -> VRdOK(e)
              [] e.f = "t_rd" -> TRdOK(e)
              [] OTHER -> Match(Expected(e), e.o)
(* a warning is given exactly where it is documented *)
Warned(e) == LET a == e.a IN
  CASE e.f = "v_rd" -> VRdWarn(e)
    [] e.f = "v_rds" -> ThWarn(D(e, "theta", 45))
    [] e.f = "v_rds_punching" -> Lt(a.a_sw ** KE(a) ** a.f_ywd, "0.5" ** a.v_ed)
    [] e.f = "f_stm" -> FstmWarn(a)
    [] e.f \in {"phi", "k_sigma"} -> ~TooHigh(a.sigma, a.fcm) /\ Gt(Abs(a.sigma), "0.4" ** a.fcm)
    [] OTHER -> FALSE
=============================================================================
