-------------------------------- MODULE Laws --------------------------------
(* Constitutive laws.  A law is a record with its kind t and parameters, or  *)
(* a law with an initial strain, or laws in parallel.  Where the model jumps *)
(* (failure) or has a kink, both one-sided values are allowed within the     *)
(* tolerance of the library (a strain within 1e-6 of an ultimate strain is   *)
(* that ultimate strain), so stresses and tangents are sets of values.       *)
EXTENDS FormulaKit

Kinds == {"elastic", "ep", "pr", "bl", "sargin", "pop", "user", "init", "par"}
NegA(x) == FNeg(Abs(x))
HasRange(l) == l.eps_u # <<>>
(* --------------------------------------------------- parameters in error *)
RangeBad(r) == Len(r) < 2 \/ (Lt(r[1], 0) /\ Lt(r[2], 0)) \/ (Gt(r[1], 0) /\ Gt(r[2], 0))
RECURSIVE Made(_)
Made(l) ==     \* what constructing the law gives
  CASE l.t = "elastic" -> IF Le(l.E, 0) \/ (HasRange(l) /\ RangeBad(l.eps_u)) THEN "ValueError" ELSE "ok"
    [] l.t = "ep" -> IF Le(l.E, 0) THEN "ValueError" ELSE "ok"
    [] l.t = "sargin" -> IF Le(l.k, 0) THEN "ValueError" ELSE "ok"
    [] l.t = "pop" -> IF l.Ec # "None" /\ Le(l.Ec, 0) THEN "ValueError" ELSE "ok"
    [] l.t = "user" -> IF Len(l.x) # Len(l.y) \/ l.flag \notin {0, 1, 2, 3}
                          \/ (HasRange(l) /\ RangeBad(l.eps_u)) THEN "ValueError" ELSE "ok"
    [] l.t = "init" -> Made(l.law)
    [] l.t = "par" -> IF \E i \in DOMAIN l.laws : Made(l.laws[i]) # "ok" THEN "ValueError"
                      ELSE IF l.w # <<>> /\ Len(l.w) # Len(l.laws) THEN "ValueError" ELSE "ok"
    [] l.t = "bad" -> "TypeError"
    [] OTHER -> "ok"
(* ------------------------------------------------- data of a user curve *)
UX(l) == IF \E i \in DOMAIN l.x : Lt(l.x[i], 0) THEN l.x
         ELSE [i \in 1..(2 * Len(l.x) - 1) |->
                 IF i < Len(l.x) THEN FNeg(l.x[Len(l.x) + 1 - i]) ELSE Num(l.x[i - Len(l.x) + 1])]
UY(l) == IF \E i \in DOMAIN l.x : Lt(l.x[i], 0) THEN l.y
         ELSE [i \in 1..(2 * Len(l.x) - 1) |->
                 IF i < Len(l.x) THEN FNeg(l.y[Len(l.x) + 1 - i]) ELSE Num(l.y[i - Len(l.x) + 1])]
Slope(x, y, i) == (y[i + 1] -- y[i]) // (x[i + 1] -- x[i])
(* slope beyond the first and the last point, by the rule of the user *)
OutN(l) == LET x == UX(l) y == UY(l) IN
  CASE l.flag = 1 -> Num(0) [] l.flag = 2 -> Slope(x, y, 1) [] l.flag = 3 -> y[1] // x[1]
OutP(l) == LET x == UX(l) y == UY(l) n == Len(x) IN
  CASE l.flag = 1 -> Num(0) [] l.flag = 2 -> Slope(x, y, n - 1) [] l.flag = 3 -> y[n] // x[n]
Seg(x, e) == CHOOSE j \in 1..(Len(x) - 1) : Ge(e, x[j]) /\ Le(e, x[j + 1])
UserStress(l, e) ==
  LET x == UX(l) y == UY(l) n == Len(x) IN
  IF Lt(e, x[1]) THEN (IF l.flag = 0 \/ Lt(e, 100 ** x[1]) THEN Num(0) ELSE y[1] ++ (OutN(l) ** (e -- x[1])))
  ELSE IF Gt(e, x[n]) THEN (IF l.flag = 0 \/ Gt(e, 100 ** x[n]) THEN Num(0) ELSE y[n] ++ (OutP(l) ** (e -- x[n])))
  ELSE LET i == Seg(x, e) IN y[i] ++ (Slope(x, y, i) ** (e -- x[i]))
UserTangents(l, e) ==
  LET x == UX(l) y == UY(l) n == Len(x)
      near(a) == Close(e, a, "1e-9", "1e-15")
      inner == {Slope(x, y, i) : i \in {j \in 1..(n - 1) : (Ge(e, x[j]) \/ near(x[j])) /\ (Le(e, x[j + 1]) \/ near(x[j + 1]))}}
      low == IF Lt(e, x[1]) \/ near(x[1])
             THEN (IF l.flag = 0 THEN {Num(0)} ELSE IF Lt(e, 100 ** x[1]) THEN {Num(0)} ELSE {OutN(l)}) ELSE {}
      up == IF Gt(e, x[n]) \/ near(x[n])
            THEN (IF l.flag = 0 THEN {Num(0)} ELSE IF Gt(e, 100 ** x[n]) THEN {Num(0)} ELSE {OutP(l)}) ELSE {}
  IN inner \cup low \cup up
(* -------------------------------------------------------- strain limits *)
Sorted2(r) == <<MinF(r[1], r[2]), MaxF(r[1], r[2])>>
EpsSy(l) == l.fy // l.E
RECURSIVE Limits(_, _)
Limits(l, yld) ==
  CASE l.t = "elastic" -> IF HasRange(l) THEN Sorted2(l.eps_u) ELSE <<Num(-100), Num(100)>>
    [] l.t = "ep" -> IF yld THEN <<FNeg(EpsSy(l)), EpsSy(l)>>
                     ELSE IF l.su = "None" THEN <<FNeg(2 ** EpsSy(l)), 2 ** EpsSy(l)>> ELSE <<FNeg(l.su), Num(l.su)>>
    [] l.t = "pr" -> <<NegA(IF yld THEN l.e0 ELSE l.eu), Num(100)>>
    [] l.t \in {"bl", "pop"} -> <<NegA(IF yld THEN l.ec ELSE l.ecu), Num(100)>>
    [] l.t = "sargin" -> <<NegA(IF yld THEN l.e1 ELSE l.eu), Num(100)>>
    [] l.t = "user" -> IF HasRange(l) THEN Sorted2(l.eps_u) ELSE <<Num(UX(l)[1]), Num(UX(l)[Len(UX(l))])>>
    [] l.t = "init" -> LET b == Limits(l.law, yld) IN <<b[1] -- l.e, b[2] -- l.e>>
    [] l.t = "par" -> LET b == [i \in DOMAIN l.laws |-> Limits(l.laws[i], yld)] IN
                      <<MinSeq([i \in DOMAIN b |-> b[i][1]]), MaxSeq([i \in DOMAIN b |-> b[i][2]])>>
(* ----------------------------------------------------------- the models *)
PopN(l) == LET E == IF l.Ec = "None" THEN 5000 ** Sqrt(Abs(l.fc)) ELSE Num(l.Ec) IN
           E // (E -- (Abs(l.fc) // Abs(l.ec)))
(* stress of the basic laws as a function of the strain, failure aside *)
Model(l, e) ==
  CASE l.t = "elastic" -> l.E ** e
    [] l.t = "ep" -> LET s == l.E ** e  d == l.fy ** (1 -- (l.Eh // l.E)) IN
                     IF Gt(s, l.fy) THEN (l.Eh ** e) ++ d
                     ELSE IF Lt(s, FNeg(l.fy)) THEN (l.Eh ** e) -- d ELSE s
    [] l.t = "pr" -> LET q == e // NegA(l.e0) IN
                     IF Gt(e, 0) THEN Num(0) ELSE IF Ge(q, 1) THEN NegA(l.fc)
                     ELSE NegA(l.fc) ** (1 -- FPow(1 -- q, l.n))
    [] l.t = "bl" -> IF Gt(e, 0) THEN Num(0) ELSE MaxF((NegA(l.fc) // NegA(l.ec)) ** e, NegA(l.fc))
    [] l.t = "sargin" -> LET q == e // NegA(l.e1) IN
                         IF Gt(e, 0) THEN Num(0)
                         ELSE (NegA(l.fc) ** ((l.k ** q) -- (q ** q))) // (1 ++ ((l.k -- 2) ** q))
    [] l.t = "pop" -> LET q == e // NegA(l.ec)  n == PopN(l) IN
                      IF Gt(e, 0) THEN Num(0)
                      ELSE (NegA(l.fc) ** q ** n) // ((n -- 1) ++ FPow(q, n))
    [] l.t = "user" -> UserStress(l, e)
(* laws that fail at their ultimate strain *)
Fails(l) == l.t \in {"pr", "bl", "sargin", "pop"} \/ (l.t = "ep" /\ l.su # "None") \/ (l.t = "user" /\ l.flag = 0 /\ ~HasRange(l))
(* tolerance of the library around an ultimate strain *)
Dist(e, a) == Abs(e -- a)
AtLim(e, a) == Le(Dist(e, a), "5e-7")
NearLim(e, a) == Le(Dist(e, a), "1.05e-6" ++ ("1.05e-5" ** Abs(a)))
Beyond(l, e) == LET m == Limits(l, FALSE) IN Lt(e, m[1]) \/ Gt(e, m[2])
Basic(l, e, loose) ==
  LET m == Limits(l, FALSE)
      a == IF Dist(e, m[1]) = Dist(e, m[2]) THEN m[1] ELSE IF Lt(Dist(e, m[1]), Dist(e, m[2])) THEN m[1] ELSE m[2]
      in == {Model(l, e)}  at == {Model(l, a)}
  IN IF loose /\ NearLim(e, a) /\ Fails(l) THEN at \cup in \cup {Num(0)}
     ELSE IF AtLim(e, a) THEN at \cup in
     ELSE IF NearLim(e, a) THEN at \cup (IF Beyond(l, e) /\ Fails(l) THEN {Num(0)} ELSE in)
     ELSE IF Fails(l) /\ Beyond(l, e) THEN {Num(0)} ELSE in
(* loose: the jump of the failure may be taken anywhere in that tolerance *)
RECURSIVE StressesX(_, _, _)
RECURSIVE SumSets(_, _, _)
SumSets(ss, w, i) == IF i > Len(ss) THEN {Num(0)}
                     ELSE {(w[i] ** a) ++ b : a \in ss[i], b \in SumSets(ss, w, i + 1)}
Weights(l) == IF l.w = <<>> THEN [i \in DOMAIN l.laws |-> 1] ELSE l.w
StressesX(l, e, loose) ==
  CASE l.t = "init" -> IF l.compat THEN StressesX(l.law, e ++ l.e, loose) ELSE StressesX(l.law, Num(l.e), loose)
    [] l.t = "par" -> SumSets([i \in DOMAIN l.laws |-> StressesX(l.laws[i], e, loose)], Weights(l), 1)
    [] OTHER -> Basic(l, e, loose)
Stresses(l, e) == StressesX(l, e, FALSE)
(* ------------------------------------------------------------- tangents *)
(* derivative of the model on the branch of e; at a kink both branches      *)
Kink(e, a) == Close(e, a, "1e-9", "1e-15")
BasicTan(l, e) ==
  CASE l.t = "elastic" -> {Num(l.E)}
    [] l.t = "ep" -> LET y == EpsSy(l) IN
                     (IF Le(Abs(e), y) \/ Kink(Abs(e), y) THEN {Num(l.E)} ELSE {})
                     \cup (IF Ge(Abs(e), y) \/ Kink(Abs(e), y) THEN {Num(l.Eh)} ELSE {})
    [] l.t = "pr" -> LET q == e // NegA(l.e0) IN
                     IF Gt(e, 0) \/ (Gt(q, 1) /\ ~Kink(q, 1)) THEN {Num(0)}
                     ELSE LET t == (l.n ** (Abs(l.fc) // Abs(l.e0))) ** FPow(MaxF(1 -- q, 0), l.n -- 1) IN
                          IF Kink(q, 1) THEN {Num(0), t} ELSE {t}
    [] l.t = "bl" -> IF Gt(e, 0) THEN {Num(0)}
                     ELSE (IF Gt(e, NegA(l.ec)) \/ Kink(e, NegA(l.ec)) THEN {Abs(l.fc) // Abs(l.ec)} ELSE {})
                          \cup (IF Le(e, NegA(l.ec)) \/ Kink(e, NegA(l.ec)) THEN {Num(0)} ELSE {})
    [] l.t = "sargin" -> LET q == e // NegA(l.e1) IN
                         IF Gt(e, 0) THEN {Num(0)}
                         ELSE {((Abs(l.fc) // Abs(l.e1)) ** ((((2 -- l.k) ** q ** q) -- (2 ** q)) ++ l.k)) // Sq(1 ++ ((l.k -- 2) ** q))}
    [] l.t = "pop" -> LET q == e // NegA(l.ec)  n == PopN(l) IN
                      IF Gt(e, 0) THEN {Num(0)}
                      ELSE {((1 -- FPow(q, n)) ** n ** (n -- 1) ** (Abs(l.fc) // Abs(l.ec))) // Sq((n -- 1) ++ FPow(q, n))}
    [] l.t = "user" -> UserTangents(l, e)
RECURSIVE Tangents(_, _)
(* a law without compatibility has no stiffness; a tiny one is allowed, so   *)
(* that systems stay solvable                                                *)
Tangents(l, e) ==
  CASE l.t = "init" -> IF l.compat THEN Tangents(l.law, e ++ l.e)
                       ELSE {Num(0)} \cup {"1e-6" ** t : t \in Tangents(l.law, Num(0))}
    [] l.t = "par" -> SumSets([i \in DOMAIN l.laws |-> Tangents(l.laws[i], e)], Weights(l), 1)
    [] OTHER ->
       LET m == Limits(l, FALSE)
           near == NearLim(e, m[1]) \/ NearLim(e, m[2])
           at == UNION {BasicTan(l, m[i]) : i \in {j \in 1..2 : NearLim(e, m[j])}}
           in == BasicTan(l, e)
       IN IF ~Fails(l) THEN in \cup at
          ELSE IF near THEN in \cup at \cup {Num(0)}
          ELSE IF Beyond(l, e) THEN {Num(0)} ELSE in
(* ------------------------------------------------------ scale for tolerances *)
RECURSIVE Scale(_)
Scale(l) ==
  CASE l.t = "elastic" -> l.E ** "1e-3"
    [] l.t = "ep" -> Abs(l.fy)
    [] l.t = "user" -> MaxSeq([i \in DOMAIN l.y |-> Abs(l.y[i])])
    [] l.t = "init" -> Scale(l.law)
    [] l.t = "par" -> SumSeq([i \in DOMAIN l.laws |-> Abs(Weights(l)[i]) ** Scale(l.laws[i])])
    [] OTHER -> Abs(l.fc)
InSet(v, set, rt, at) == \E s \in set : NumTol(s, v, rt, at)
StressOK(l, e, v) == InSet(v, Stresses(l, e), "1e-9", "1e-10" ** Scale(l))
TangentOK(l, e, v) == InSet(v, Tangents(l, e), "1e-9", "1e-7" ** Scale(l))
SecantOK(l, e, v) == IF Eq(e, 0) THEN TangentOK(l, e, v)
                     ELSE InSet(v, {s // e : s \in Stresses(l, e)}, "1e-9", ("1e-10" ** Scale(l)) // Abs(e))
(* ------------------------------------------- pieces for exact integration *)
(* Which laws have no polynomial form and are cut in linear pieces *)
RECURSIVE Approx(_)
Approx(l) == CASE l.t \in {"sargin", "pop"} -> TRUE
               [] l.t = "pr" -> ~Eq(l.n, 2)
               [] l.t = "init" -> Approx(l.law)
               [] l.t = "par" -> \E i \in DOMAIN l.laws : Approx(l.laws[i])
               [] OTHER -> FALSE
RECURSIVE Single(_)
Single(l) == CASE l.t = "init" -> Single(l.law) [] l.t = "par" -> FALSE [] OTHER -> TRUE
(* strains up to which the pieces are meant to represent the law *)
RECURSIVE Valid(_, _)
Valid(l, e) == CASE l.t = "init" -> ~l.compat \/ Valid(l.law, e ++ l.e)
                 [] l.t = "par" -> \A i \in DOMAIN l.laws : Valid(l.laws[i], e)
                 [] l.t = "ep" -> l.su # "None" \/ (Lt(Abs(e), 2 ** EpsSy(l)))
                 [] l.t = "user" -> Ge(e, 50 ** UX(l)[1]) /\ Le(e, 50 ** UX(l)[Len(UX(l))])
                 [] OTHER -> Lt(Abs(e), 90)
(* a part without limits, in parallel with others *)
RECURSIVE Unlimited(_)
Unlimited(l) == CASE l.t = "elastic" -> TRUE
                  [] l.t = "init" -> ~l.compat \/ Unlimited(l.law)
                  [] l.t = "par" -> \A i \in DOMAIN l.laws : Unlimited(l.laws[i])
                  [] OTHER -> FALSE
RECURSIVE Mixed(_)
Mixed(l) == CASE l.t = "par" -> (\E i \in DOMAIN l.laws : Unlimited(l.laws[i]) \/ Mixed(l.laws[i])) /\ ~Unlimited(l)
              [] l.t = "init" -> Mixed(l.law)
              [] OTHER -> FALSE
(* such laws inside another parallel law *)
RECURSIVE DeepMixed(_)
DeepMixed(l) == CASE l.t = "par" -> \E i \in DOMAIN l.laws : Mixed(l.laws[i])
                  [] l.t = "init" -> DeepMixed(l.law)
                  [] OTHER -> FALSE
Poly(c, y) == SumSeq([i \in DOMAIN c |-> c[i] ** FPow(y, i - 1)])
RngIn2(r, e, s) == LET lo == MinF(r[1], r[2]) hi == MaxF(r[1], r[2]) d == s ** ("2e-12" ++ ("2e-12" ** Abs(e)))
                   IN Ge(e, lo -- d) /\ Le(e, hi ++ d)
RngIn(r, e) == RngIn2(r, e, 1)
(* values that the pieces give at strain e, at position y = (e - a) / b *)
PieceVals(p, a, b, e) ==
  LET y == IF Eq(b, 0) THEN Num(0) ELSE (e -- a) // b IN
  IF p.all THEN {Poly(p.coeffs[1], y)}
  ELSE LET at == {i \in DOMAIN p.ranges : RngIn(p.ranges[i], e)}
           sure == {i \in DOMAIN p.ranges : RngIn2(p.ranges[i], e, FNeg(1))}
       IN (IF sure = {} THEN {Num(0)} ELSE {}) \cup {Poly(p.coeffs[i], y) : i \in at}
Inside(p, e) == p.all \/ \E i \in DOMAIN p.ranges : RngIn2(p.ranges[i], e, FNeg(1))
(* no two ranges share more than an end point *)
Disjoint(p) == p.all \/
  \A i, j \in DOMAIN p.ranges : i # j =>
     LET lo(k) == MinF(p.ranges[k][1], p.ranges[k][2])  hi(k) == MaxF(p.ranges[k][1], p.ranges[k][2])
         d == "1e-12" ++ ("1e-12" ** Abs(hi(i)))
     IN Le(hi(i), lo(j) ++ d) \/ Le(hi(j), lo(i) ++ d)
(* tolerance: relative to the strength; a piece that approximates a curve    *)
(* stays within a few percent of it                                          *)
PieceTol(l, a, b, e) ==
  IF Approx(l) THEN "0.12" ** Scale(l)
  ELSE "1e-9" ** (Scale(l) ++ (1000 ** Scale(l) ** (Abs(a) ++ Abs(e))))
PieceOK(l, p, a, b, e) ==
  ~Valid(l, e) \/ \E v \in PieceVals(p, a, b, e) : InSet(v, StressesX(l, e, TRUE), 0, PieceTol(l, a, b, e))
TanPieceOK(l, p, a, b, e) ==
  LET tol == "1e-8" ** (MaxSeq([i \in DOMAIN p.coeffs |-> IF p.coeffs[i] = <<>> THEN Num(0) ELSE Abs(p.coeffs[i][1])]) ++ (1000 ** Scale(l)))
  IN ~Valid(l, e) \/ Approx(l) \/ \E v \in PieceVals(p, a, b, e) : InSet(v, Tangents(l, e), "1e-8", tol)
(* pieces that approximate a curve meet it at their ends *)
EndsOK(l, p, a, b) ==
  p.all \/
  \A i \in DOMAIN p.ranges : \A j \in 1..2 :
     LET e == p.ranges[i][j]  y == (e -- a) // b IN
     InSet(Poly(p.coeffs[i], y), Stresses(l, e), 0, "1e-7" ** Scale(l) ** (1 ++ (1000 ** Abs(a))))
(* the tangent of a linear piece is its slope *)
SlopesOK(p, q, b) ==
  (p.all \/ q.all \/ p.ranges # q.ranges) \/
  \A i \in DOMAIN p.ranges : Len(p.coeffs[i]) < 2 \/ Close(q.coeffs[i][1] ** b, p.coeffs[i][2], "1e-8", "1e-12")
=============================================================================
