------------------------------ MODULE Profiles ------------------------------
(* Steel profiles: the tables of dimensions (profiles.ndjson), the outline   *)
(* each type of profile has, and what is computed from an outline.           *)
EXTENDS Planar
Rows == ndJsonDeserialize("profiles.ndjson")
Families == {Rows[i].fam : i \in DOMAIN Rows}
Tab(f) == LET i == CHOOSE k \in DOMAIN Rows : Rows[k].fam = f IN Rows[i].tab
Type == [IPE |-> "I", HE |-> "I", HD |-> "I", HP |-> "I", UB |-> "I", UC |-> "I", UBP |-> "I", W |-> "I",
         IPN |-> "taperI", U |-> "taperU", UPN |-> "taperU", UPE |-> "U", L |-> "L", LI |-> "L"]
(* ---------------------------------------------------------------- outlines *)
(* counter-clockwise corners with the radius of their rounding *)
C(x, y, r) == [p |-> <<Num(x), Num(y)>>, r |-> Num(r)]
Neg(x) == FNeg(Num(x))
Outline(f, d) ==
  CASE Type[f] = "I" ->
         LET b == d.b // 2  h == d.h // 2  w == d.tw // 2  i == h -- d.tf IN
         << C(Neg(b), Neg(h), 0), C(b, Neg(h), 0), C(b, Neg(i), 0), C(w, Neg(i), d.r), C(w, i, d.r), C(b, i, 0),
            C(b, h, 0), C(Neg(b), h, 0), C(Neg(b), i, 0), C(Neg(w), i, d.r), C(Neg(w), Neg(i), d.r), C(Neg(b), Neg(i), 0) >>
    [] Type[f] = "taperI" ->   \* flange thickness tf at a quarter of the width, slope 14 %
         LET b == d.b // 2  h == d.h // 2  w == d.tw // 2  s == "0.14"
             tip == h -- (d.tf -- ((d.b // 4) ** s))  root == h -- (d.tf ++ (((d.b // 4) -- w) ** s)) IN
         << C(Neg(b), Neg(h), 0), C(b, Neg(h), 0), C(b, Neg(tip), d.r2), C(w, Neg(root), d.r1), C(w, root, d.r1), C(b, tip, d.r2),
            C(b, h, 0), C(Neg(b), h, 0), C(Neg(b), tip, d.r2), C(Neg(w), root, d.r1), C(Neg(w), Neg(root), d.r1), C(Neg(b), Neg(tip), d.r2) >>
    [] Type[f] = "taperU" ->   \* flange thickness tf at u from the tip
         LET small == Le(d.h, 300) \/ f = "U"
             s == IF small THEN "0.08" ELSE "0.05"
             u == IF small THEN d.b // 2 ELSE (d.b -- d.tw) // 2
             tip == d.tf -- (s ** u)  root == d.tf ++ (s ** (d.b -- u -- d.tw)) IN
         << C(0, 0, 0), C(d.b, 0, 0), C(d.b, tip, d.r2), C(d.tw, root, d.r1), C(d.tw, d.h -- root, d.r1), C(d.b, d.h -- tip, d.r2),
            C(d.b, d.h, 0), C(0, d.h, 0) >>
    [] Type[f] = "U" ->
         << C(0, 0, 0), C(d.b, 0, 0), C(d.b, d.tf, 0), C(d.tw, d.tf, d.r), C(d.tw, d.h -- d.tf, d.r), C(d.b, d.h -- d.tf, 0),
            C(d.b, d.h, 0), C(0, d.h, 0) >>
    [] Type[f] = "L" ->
         << C(0, 0, 0), C(d.b, 0, 0), C(d.b, d.t, d.r2), C(d.t, d.t, d.r1), C(d.t, d.h, d.r2), C(0, d.h, 0) >>
Len2(v) == Sqrt(Sq(v[1]) ++ Sq(v[2]))
UnitV(v) == LET n == Len2(v) IN <<v[1] // n, v[2] // n>>
Dot(a, b) == (a[1] ** b[1]) ++ (a[2] ** b[2])
(* corner i: tangent length, centre of the rounding, area it takes away *)
Corner(o, i) ==
  LET n == Len(o)  p == o[i].p  r == o[i].r
      u == UnitV(Rel(o[IF i = 1 THEN n ELSE i - 1].p, p))  w == UnitV(Rel(o[IF i = n THEN 1 ELSE i + 1].p, p))
      s == Sqrt((1 -- Dot(u, w)) // 2)  c == Sqrt((1 ++ Dot(u, w)) // 2)     \* of half the angle
      half == Atan2(s, c)
      m == UnitV(<<u[1] ++ w[1], u[2] ++ w[2]>>)
      convex == Gt(Crs(w, u), 0)
      lost == Sq(r) ** ((c // s) -- ((PI // 2) -- half))
  IN [t |-> (r ** c) // s, c |-> <<p[1] ++ ((r // s) ** m[1]), p[2] ++ ((r // s) ** m[2])>>,
      lost |-> IF convex THEN lost ELSE FNeg(lost)]
OnOutline(o, cs, q, tol) ==
  \E i \in DOMAIN o :
    LET j == IF i = Len(o) THEN 1 ELSE i + 1
        d == UnitV(Rel(o[j].p, o[i].p))  v == Rel(q, o[i].p)
        L == Len2(Rel(o[j].p, o[i].p))  k == Dot(v, d) IN
    \/ Le(Abs(Crs(d, v)), tol) /\ Ge(k, cs[i].t -- tol) /\ Le(k, (L -- cs[j].t) ++ tol)
    \/ Gt(o[i].r, 0) /\ Le(Abs(Len2(Rel(q, cs[i].c)) -- o[i].r), tol) /\ Le(Len2(v), cs[i].t ++ tol)
IdealArea(o, cs) == Area(<<[i \in DOMAIN o |-> o[i].p]>>) -- SumSeq([i \in DOMAIN o |-> cs[i].lost])
MinOf(ps, k) == MinSeq([i \in DOMAIN ps |-> ps[i][k]])
MaxOf(ps, k) == MaxSeq([i \in DOMAIN ps |-> ps[i][k]])
ShapeOf(f, d, ring) ==
  LET o0 == Outline(f, d)
      ps0 == TLCEval([i \in DOMAIN o0 |-> o0[i].p])
      dx == MinOf(ring, 1) -- MinOf(ps0, 1)  dy == MinOf(ring, 2) -- MinOf(ps0, 2)
      o == TLCEval([i \in DOMAIN o0 |-> [o0[i] EXCEPT !.p = Shift(@, <<dx, dy>>)]])
      cs == TLCEval([i \in DOMAIN o |-> Corner(o, i)])
      tol == "1e-6" ** Num(d.h)
      reg == <<ring>>
  IN (IF \A q \in DOMAIN ring : OnOutline(o, cs, ring[q], tol) THEN {} ELSE {"outline"})
     \cup (IF \A i \in DOMAIN o : Gt(o[i].r, 0) \/ \E q \in DOMAIN ring : Near(o[i].p, ring[q], tol) THEN {} ELSE {"corners"})
     \cup (IF Close(Area(reg), IdealArea(o, cs), "1e-6", "0.003" ** SumSeq([i \in DOMAIN o |-> Sq(o[i].r)])) THEN {} ELSE {"area of the outline"})
     \cup (IF Le(Abs(RegInt(reg, O2, IX)), "1e-6" ** Area(reg)) /\ Le(Abs(RegInt(reg, O2, IY)), "1e-6" ** Area(reg)) THEN {} ELSE {"centre"})
(* ---------------------------------------------------- what is computed *)
Above(ring, z, e) == LET s == ClipRing(ring, <<Num(0), z>>, e) IN IF Len(s) < 3 THEN Num(0) ELSE Area(<<s>>)
(* plastic modulus about the axis of direction e through equal areas *)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(ring, half, lo, hi, n) ==
  LET z == (lo ++ hi) // 2 IN
  IF n = 0 THEN z ELSE IF Gt(Above(ring, z, <<1, 0>>), half) THEN Bisect(ring, half, z, hi, n - 1) ELSE Bisect(ring, half, lo, z, n - 1)
Plastic(ring) ==
  LET z == Bisect(ring, Area(<<ring>>) // 2, MinOf(ring, 2), MaxOf(ring, 2), 20)   \* its square is the error of the modulus
      up == ClipRing(ring, <<Num(0), z>>, <<1, 0>>)  o == <<Num(0), z>>
      first(r) == RingInt(r, o, IY)
  IN Abs(first(up)) ++ Abs(first(ring) -- first(up))
Quarter(ring) == TLCEval([i \in DOMAIN ring |-> <<FNeg(Num(ring[i][2])), ring[i][1]>>])
Computed(ring0, v) ==
  LET ring == TLCEval([i \in DOMAIN ring0 |-> <<Num(ring0[i][1]), Num(ring0[i][2])>>])
      reg == <<ring>>
      A == RegInt(reg, O2, IA)  Iy == RegInt(reg, O2, IYY)  Iz == RegInt(reg, O2, IXX)  Iyz == RegInt(reg, O2, IXY)
      far(k) == MaxF(Abs(MinOf(ring, k)), Abs(MaxOf(ring, k)))
      is(n, x, rt) == IF Close(v[n], x, rt, 0) THEN {} ELSE {n}
      dev == Sqrt(Sq((Iy -- Iz) // 2) ++ Sq(Iyz))  mean == (Iy ++ Iz) // 2
      t == v.theta
  IN is("A", A, "1e-9") \cup is("Iy", Iy, "1e-9") \cup is("Iz", Iz, "1e-9")
     \cup (IF Close(v.Iyz, Iyz, "1e-9", "1e-9" ** mean) THEN {} ELSE {"Iyz"})
     \cup is("Icsi", mean ++ dev, "1e-9") \cup is("Ieta", mean -- dev, "1e-8")
     \cup (IF Close((Iy ** Sq(Cos(t))) ++ (Iz ** Sq(Sin(t))) -- (2 ** Iyz ** Sin(t) ** Cos(t)), mean ++ dev, "1e-9", 0)
              /\ Le(Abs(t), (PI // 2) ++ "1e-9") THEN {} ELSE {"theta"})
     \cup is("Wely", Iy // far(2), "1e-9") \cup is("Welz", Iz // far(1), "1e-9")
     \cup is("iy", Sqrt(Iy // A), "1e-9") \cup is("iz", Sqrt(Iz // A), "1e-9")
     \cup is("Wply", Plastic(ring), "1e-6") \cup is("Wplz", Plastic(Quarter(ring)), "1e-6")
Verdict(e) ==
  CASE e.op = "unknown" -> IF e.err = "ValueError" THEN {} ELSE {"accepted"}
    [] e.op = "names" -> IF {e.names[i] : i \in DOMAIN e.names} = DOMAIN Tab(e.fam) /\ Len(e.names) = Cardinality(DOMAIN Tab(e.fam)) THEN {} ELSE {"list of profiles"}
    [] e.op = "profile" ->
         IF e.err # "" THEN {"rejected"}
         ELSE LET d == Tab(e.fam)[e.name] IN
              (IF \A k \in DOMAIN d : k \in DOMAIN e.dims /\ Close(e.dims[k], d[k], "1e-12", 0) THEN {} ELSE {"dimensions"})
              \cup ShapeOf(e.fam, d, e.ring)
              \cup (IF SameRegion(<<e.ring>>, <<e.ring2>>, "1e-9" ** Num(d.h)) THEN {} ELSE {"get_polygon"})
              \cup (IF SameRegion(<<e.ring>>, <<e.ring3>>, "1e-9" ** Num(d.h)) THEN {} ELSE {"polygon changed"})
              \cup Computed(e.ring, e.v)
              \cup (IF e.same THEN {} ELSE {"different when asked again"})
=============================================================================
