------------------------------ MODULE Geometry ------------------------------
(* Geometries as the library's user sees them: a sequence of surfaces (with  *)
(* material, concrete flag, name and group) and a sequence of bars.  Every   *)
(* operation is defined by the geometry it makes of its operands.            *)
EXTENDS Planar

TolOf(n) == "1e-9" ** n
GeoSize(g) == MaxF(IF g.s = <<>> THEN Num(1) ELSE MaxSeq([i \in DOMAIN g.s |-> IF g.s[i].r = <<>> THEN Num(1) ELSE Size(g.s[i].r)]),
                   IF g.b = <<>> THEN Num(1) ELSE MaxSeq([i \in DOMAIN g.b |-> MaxF(Abs(g.b[i].x), Abs(g.b[i].y))]))
(* ------------------------------------------------ what a geometry tells *)
(* rings of the surfaces, bars, area, extents and the concrete flag agree *)
Coherent(g) ==
  LET pts == FlattenSeq([i \in DOMAIN g.s |-> Points(g.s[i].r)])
      sz == GeoSize(g)
      ext(k) == [i \in DOMAIN pts |-> pts[i][k]]
  IN (IF \A i \in DOMAIN g.s : g.s[i].m.concrete => g.s[i].c THEN {} ELSE {"concrete material, not concrete"})
  \cup (IF \A i \in DOMAIN g.s : Close(g.s[i].dens, g.s[i].m.dens, "1e-12", 0) THEN {} ELSE {"density of a surface"})
  \cup (IF \A i \in DOMAIN g.b : Close(g.b[i].dens, g.b[i].m.dens, "1e-12", 0) THEN {} ELSE {"density of a bar"})
  \cup (IF \A i \in DOMAIN g.s : Close(g.s[i].area, Area(g.s[i].r), "1e-9", "1e-12" ** Sq(sz)) THEN {} ELSE {"area of a surface"})
  \cup (IF g.k # "compound" \/ Close(g.area, SumSeq([i \in DOMAIN g.s |-> Area(g.s[i].r)]), "1e-9", "1e-12" ** Sq(sz)) THEN {} ELSE {"area of the compound"})
  \cup (IF g.k # "compound" \/ g.rc = (\E i \in DOMAIN g.s : g.s[i].c) THEN {} ELSE {"reinforced concrete"})
  \cup (IF \A i \in DOMAIN g.b : Close(g.b[i].a, (PI ** Sq(g.b[i].d)) // 4, "1e-9", 0) THEN {} ELSE {"area of a bar"})
  \cup (IF g.ext = <<>> \/ pts = <<>> THEN {}
        ELSE IF /\ Close(g.ext[1], MinSeq(ext(1)), 0, TolOf(sz)) /\ Close(g.ext[2], MaxSeq(ext(1)), 0, TolOf(sz))
                /\ Close(g.ext[3], MinSeq(ext(2)), 0, TolOf(sz)) /\ Close(g.ext[4], MaxSeq(ext(2)), 0, TolOf(sz))
        THEN {} ELSE {"extents"})
  \cup (IF \A i \in DOMAIN g.s : g.s[i].cen = <<>> \/ LET a == Area(g.s[i].r)  o == g.s[i].r[1][1] IN
            /\ Close(g.s[i].cen[1], o[1] ++ (RegInt(g.s[i].r, o, IX) // a), 0, "1e-8" ** sz)
            /\ Close(g.s[i].cen[2], o[2] ++ (RegInt(g.s[i].r, o, IY) // a), 0, "1e-8" ** sz)
        THEN {} ELSE {"centroid of a surface"})
(* ---------------------------------------------------------------- motions *)
MoveGeo(g, F(_)) ==
  [s |-> [i \in DOMAIN g.s |-> [g.s[i] EXCEPT !.r = MapReg(@, F)]],
   b |-> [i \in DOMAIN g.b |-> LET p == F(<<g.b[i].x, g.b[i].y>>) IN [g.b[i] EXCEPT !.x = p[1], !.y = p[2]]]]
SameTags(a, b) == a.m = b.m /\ a.n = b.n /\ a.g = b.g
SameSurf(a, b, tol) == SameTags(a, b) /\ a.c = b.c /\ SameRegion(a.r, b.r, tol)
SameBar(a, b, tol) == SameTags(a, b) /\ Close(a.d, b.d, "1e-12", 0) /\ Close(a.a, b.a, "1e-12", 0)
                      /\ Near(<<a.x, a.y>>, <<b.x, b.y>>, tol)
(* the same parts, each as often *)
SameBag(p, q, Same(_, _)) ==
  /\ Len(p) = Len(q)
  /\ \A i \in DOMAIN p : LET x == Cardinality({j \in DOMAIN p : Same(p[i], p[j])}) IN
                         x > 0 /\ Cardinality({j \in DOMAIN q : Same(p[i], q[j])}) = x
SameGeo(x, o, tol) ==
  (IF SameBag(x.s, o.s, LAMBDA a, b : SameSurf(a, b, tol)) THEN {} ELSE {"surfaces"})
  \cup (IF SameBag(x.b, o.b, LAMBDA a, b : SameBar(a, b, tol)) THEN {} ELSE {"bars"})
Joined(gs) == [s |-> FlattenSeq([i \in DOMAIN gs |-> gs[i].s]), b |-> FlattenSeq([i \in DOMAIN gs |-> gs[i].b])]
(* ------------------------------------------------------------ subtraction *)
Cut(e) ==
  LET a == e.g  b == e.h  o == e.o
      regs == [i \in DOMAIN b.s |-> b.s[i].r]
      sz == MaxF(GeoSize(a), GeoSize(b))
      left(i) == Differ(<<o.s[i].r, a.s[i].r>> \o regs, LAMBDA m : m[1], LAMBDA m : m[2] /\ ~AnyFrom(m, 3, Len(m)))
  IN (IF Len(o.s) = Len(a.s) THEN {} ELSE {"number of surfaces"})
     \cup (IF Len(o.s) = Len(a.s) /\ \A i \in DOMAIN a.s : Le(left(i), "1e-9" ** Sq(sz)) THEN {} ELSE {"what is left"})
     \cup (IF Len(o.s) = Len(a.s) /\ \A i \in DOMAIN a.s : SameTags(a.s[i], o.s[i]) /\ a.s[i].c = o.s[i].c THEN {} ELSE {"material, flag, name or group"})
     \cup (IF SameBag(a.b, o.b, LAMBDA x, y : SameBar(x, y, TolOf(sz))) THEN {} ELSE {"bars"})
(* ------------------------------------------------------------------ split *)
(* the direction of the line of a split: as drawn, or for a point and an     *)
(* angle to the right, and upwards if it is vertical                         *)
DirOf(t) == IF Gt(Abs(Cos(t)), "1e-8") THEN (IF Gt(Cos(t), 0) THEN <<Cos(t), Sin(t)>> ELSE <<FNeg(Cos(t)), FNeg(Sin(t))>>)
            ELSE <<Cos(t) // Sin(t), Num(1)>>
Unit(d) == LET n == Sqrt(Sq(d[1]) ++ Sq(d[2])) IN <<d[1] // n, d[2] // n>>
Split(e) ==
  LET a == e.line.a
      d == Unit(IF e.line.t = "" THEN Rel(e.line.b, a) ELSE DirOf(e.line.t))
      g == e.g.s[1].r
      sz == MaxF(Size(g), MaxF(Abs(a[1]), Abs(a[2])))
      parts == e.above \o e.below
      side(rs, sg) == \A i \in DOMAIN rs : \A j \in DOMAIN Points(rs[i]) : Ge(sg ** Left(Points(rs[i])[j], a, d), "-1e-8" ** sz)
  IN (IF side(e.above, 1) THEN {} ELSE {"above"})
     \cup (IF side(e.below, -1) THEN {} ELSE {"below"})
     \cup (IF Close(SumSeq([i \in DOMAIN parts |-> Area(parts[i])]), Area(g), 0, "1e-9" ** Sq(sz)) THEN {} ELSE {"areas"})
     \cup (IF Le(Differ(<<g>> \o parts, LAMBDA m : m[1], LAMBDA m : AnyFrom(m, 2, Len(m))), "1e-8" ** Sq(sz)) THEN {} ELSE {"partition"})
Band(e) ==
  LET d == Unit(<<Cos(e.t), Sin(e.t)>>)  g == e.g.s[1].r
      sz == MaxF(Size(g), MaxF(MaxF(Abs(e.p[1]), Abs(e.p[2])), MaxF(Abs(e.q[1]), Abs(e.q[2]))))
      L == 10 ** sz
      at(p, k) == <<p[1] ++ (k ** L ** d[1]), p[2] ++ (k ** L ** d[2])>>
      strip == << <<at(e.p, -1), at(e.p, 1), at(e.q, 1), at(e.q, -1)>> >>
  IN (IF Le(Differ(<<g, strip>> \o e.parts, LAMBDA m : m[1] /\ m[2], LAMBDA m : AnyFrom(m, 3, Len(m))), "1e-8" ** Sq(sz))
     THEN {} ELSE {"part between the lines"})
     \cup (IF e.parts # <<>> /\ e.rk # (IF Len(e.parts) = 1 THEN "Polygon" ELSE "MultiPolygon") THEN {"not made of polygons only"} ELSE {})
(* ------------------------------------------------------------------- bars *)
(* Each placement is a set of allowed lists of positions: a quotient that is *)
(* a whole number up to rounding counts as that number; a little further     *)
(* away from it both neighbours are allowed.                                 *)
Reject == <<"ValueError">>
Floors(x) == IF Le(Abs(x -- Rint(x)), "1e-14" ** x) THEN {ToInt(Rint(x))} ELSE {ToInt(Floor(x ** (1 -- "1e-8"))), ToInt(Floor(x ** (1 ++ "1e-8")))}
Fits(room, L, way) == IF Le(room, L ** (1 ++ "1e-14")) THEN {way} ELSE IF Le(room, L ** (1 ++ "1e-8")) THEN {Reject, way} ELSE {Reject}
Some(n, fst, lst) == {k \in 0..(n - 1) : (k > 0 \/ fst) /\ (k < n - 1 \/ lst)}
RECURSIVE SeqFrom(_, _)
SeqFrom(S, k) == IF S = {} THEN <<>> ELSE IF k \in S THEN <<k>> \o SeqFrom(S \ {k}, k + 1) ELSE SeqFrom(S, k + 1)
At(ps) == <<"at", ps>>
AlongLine(p, q, n, s, fst, lst) ==
  LET L == Sqrt(Sq(q[1] -- p[1]) ++ Sq(q[2] -- p[2]))
      at(x) == <<p[1] ++ ((x ** (q[1] -- p[1])) // L), p[2] ++ ((x ** (q[2] -- p[2])) // L)>>
      from(m, x0, st) == LET ks == SeqFrom(Some(m, fst, lst), 0) IN [i \in DOMAIN ks |-> at(x0 ++ (ks[i] ** st))]
      centred(m) == from(m, (L -- ((m - 1) ** s)) // 2, s)
  IN IF n > 0 /\ Gt(s, 0) THEN Fits((n - 1) ** s, L, At(centred(n)))
     ELSE IF n > 0 THEN {At(from(n, Num(0), IF n > 1 THEN L // (n - 1) ELSE Num(0)))}
     ELSE IF Gt(s, 0) THEN {At(centred(m + 1)) : m \in Floors(L // s)}
     ELSE {Reject}
AroundCircle(c, r, n, s, fst, lst, a0, a1) ==
  LET da == a1 -- a0  L == r ** da
      whole == Le(Abs(L -- (2 ** PI ** r)), "1e-4")
      at(a) == <<c[1] ++ (r ** Cos(a)), c[2] ++ (r ** Sin(a))>>
      (* m bars of the chain k |-> x0 + k * st *)
      chain(m, x0, st) == LET ks == SeqFrom(Some(m, fst, lst), 0) IN [i \in DOMAIN ks |-> at(x0 ++ (ks[i] ** st))]
      spaced(m, drop) == chain(IF drop THEN m - 1 ELSE m, a0 ++ ((L -- ((m - 1) ** s)) // (2 ** r)), s // r)
      even(m, drop) == chain(IF drop THEN m - 1 ELSE m, a0, IF m > 1 THEN da // (m - 1) ELSE Num(0))
      np == IF whole THEN n + 1 ELSE n
      room == (np - 1) ** s
  IN IF Le(da, 0) \/ Gt(da, 2 ** PI) THEN {Reject}
     ELSE IF n > 0 /\ Gt(s, 0) THEN Fits(room, L, At(spaced(np, whole)))
     ELSE IF n > 0 THEN {At(even(np, whole))}
     ELSE IF Gt(s, 0) THEN {LET need == m ** s IN At(spaced(m + 1, whole /\ Le(Abs(need -- L), "1e-9" ** MaxF(need, L)))) : m \in Floors(L // s)}
     ELSE {Reject}
Places(e) ==
  CASE e.op = "bar" -> {IF Len(e.p) < 2 THEN Reject ELSE At(<< <<e.p[1], e.p[2]>> >>)}   \* further coordinates are left out
    [] e.op = "line" -> AlongLine(e.p, e.q, e.n, e.s, e.first, e.last)
    [] e.op = "circle" -> AroundCircle(e.c, e.r, e.n, e.s, e.first, e.last, e.a0, e.a1)
Reinforced(e) ==
  LET want == Places(e)
      all == e.o.b  old == e.g.b
      sz == MaxF(GeoSize(e.g), GeoSize(e.o))
      old_(k) == \E i \in DOMAIN old : SameBar(old[i], all[k], 0)
      new == SelectSeq([k \in DOMAIN all |-> all[k]], LAMBDA x : ~\E i \in DOMAIN old : SameBar(old[i], x, 0))
      placed(ps) ==
        /\ Len(new) = Len(ps)
        /\ \A i \in DOMAIN ps : Cardinality({k \in DOMAIN new : Near(ps[i], <<new[k].x, new[k].y>>, "1e-9" ** sz)})
                              = Cardinality({k \in DOMAIN ps : Near(ps[i], ps[k], "1e-9" ** sz)})
  IN IF e.err # "" THEN (IF <<e.err>> \in want THEN {} ELSE {"rejected"})
     ELSE (IF \E w \in want : Len(w) = 2 /\ placed(w[2]) THEN {} ELSE {"positions"})
       \cup (IF Len(all) = Len(old) + Len(new) THEN {} ELSE {"bars that were there"})
       \cup (IF SameBag(e.g.s, e.o.s, LAMBDA a, b : SameSurf(a, b, 0)) THEN {} ELSE {"surfaces"})
       \cup (IF \A k \in DOMAIN new : Close(new[k].d, e.d, "1e-12", 0) /\ new[k].m = e.m /\ new[k].g = e.grp THEN {} ELSE {"diameter, material or group"})
(* ----------------------------------------------------------------- shapes *)
Rect(e) ==
  IF Le(e.w, 0) \/ Le(e.h, 0) \/ Len(e.org) \notin {0, 2} THEN (IF e.err = "ValueError" THEN {} ELSE {"accepted"})
  ELSE IF e.err # "" THEN {"rejected"}
  ELSE LET c == IF e.org = <<>> THEN <<0, 0>> ELSE e.org  w == e.w // 2  h == e.h // 2
           ring == << <<c[1] -- w, c[2] -- h>>, <<c[1] ++ w, c[2] -- h>>, <<c[1] ++ w, c[2] ++ h>>, <<c[1] -- w, c[2] ++ h>> >>
           s == e.o.s[1]
       IN (IF SameRegion(s.r, <<ring>>, TolOf(MaxF(Size(<<ring>>), 1))) THEN {} ELSE {"outline"})
          \cup (IF Close(e.dims[1], e.w, "1e-12", 0) /\ Close(e.dims[2], e.h, "1e-12", 0) THEN {} ELSE {"dimensions"})
          \cup (IF s.m = e.m /\ s.c = (e.c \/ e.m.concrete) /\ (e.n = "" \/ s.n = e.n) /\ s.g = e.grp THEN {} ELSE {"attributes"})
Circle(e) ==
  IF Le(e.dia, 0) \/ Len(e.org) \notin {0, 2} THEN (IF e.err = "ValueError" THEN {} ELSE {"accepted"})
  ELSE IF e.err # "" THEN {"rejected"}
  ELSE LET c == IF e.org = <<>> THEN <<0, 0>> ELSE e.org  r == e.dia // 2
           s == e.o.s[1]  p == Points(s.r)  n == Len(p)
           sz == MaxF(Size(s.r), MaxF(Abs(c[1]), Abs(c[2])))
       IN (IF Len(s.r) = 1 /\ \A i \in DOMAIN p : Close(Sqrt(Sq(p[i][1] -- c[1]) ++ Sq(p[i][2] -- c[2])), r, 0, TolOf(sz)) THEN {} ELSE {"outline"})
          \cup (IF n >= e.n - 2 /\ n <= e.n + 2 THEN {} ELSE {"number of points"})
          \cup (IF Close(Area(s.r), (n ** Sq(r) ** Sin((2 ** PI) // n)) // 2, "1e-9", "1e-11" ** Sq(sz)) THEN {} ELSE {"area"})
          \cup (IF Close(e.dims[1], e.dia, "1e-12", 0) /\ Close(e.dims[2], r, "1e-12", 0) THEN {} ELSE {"dimensions"})
          \cup (IF s.m = e.m /\ s.c = (e.c \/ e.m.concrete) /\ (e.name = "" \/ s.n = e.name) /\ s.g = e.grp THEN {} ELSE {"attributes"})
(* What geometries can be made of: errors for anything else.                 *)
MakeBad(q) ==
  LET type == q.mat # "material"
      want == CASE q.what = "several" -> IF q.n # q.k THEN "ValueError" ELSE IF type THEN "TypeError" ELSE ""
                [] q.what = "bar" -> IF q.shape # "right" THEN "ValueError" ELSE IF type THEN "TypeError" ELSE ""
                [] OTHER -> IF type \/ q.shape # "right" THEN "TypeError" ELSE ""
  IN IF q.err = want THEN {} ELSE {IF want = "" THEN "refused" ELSE "made of something else"}
(* --------------------------------------------------------------- verdicts *)
Angle(e) == IF e.radians THEN e.t ELSE Radians(e.t)
Made(e) ==
  LET sz == MaxF(GeoSize(e.g), IF e.err = "" THEN GeoSize(e.o) ELSE Num(1)) IN
  CASE e.op = "translate" -> SameGeo(MoveGeo(e.g, LAMBDA p : Shift(p, e.d)), e.o, TolOf(MaxF(sz, MaxF(Abs(e.d[1]), Abs(e.d[2])))))
    [] e.op = "rotate" -> SameGeo(MoveGeo(e.g, LAMBDA p : Turn(p, e.p, Angle(e))), e.o, TolOf(MaxF(sz, MaxF(Abs(e.p[1]), Abs(e.p[2])))))
    [] e.op = "mirror" -> SameGeo(MoveGeo(e.g, LAMBDA p : Flip(p, e.p, e.q)), e.o, TolOf(MaxF(sz, MaxF(Abs(e.p[1]), Abs(e.p[2])))))
    [] e.op = "restore" -> SameGeo(e.g, e.o, "1e-8" ** sz)
    [] e.op = "join" -> SameGeo(Joined(e.gs), e.o, 0)
    [] e.op = "copy" -> LET m(x) == IF e.m = <<>> THEN x.m ELSE e.m[1]  same(x, y) == x.n = y.n /\ x.g = y.g IN
                        (IF Len(e.o.s) = Len(e.g.s) /\ \A i \in DOMAIN e.g.s : same(e.g.s[i], e.o.s[i]) /\ SameRegion(e.g.s[i].r, e.o.s[i].r, 0) THEN {} ELSE {"surfaces"})
                        \cup (IF Len(e.o.b) = Len(e.g.b) /\ \A i \in DOMAIN e.g.b : same(e.g.b[i], e.o.b[i]) /\ SameBar([e.g.b[i] EXCEPT !.m = e.o.b[i].m], e.o.b[i], 0) THEN {} ELSE {"bars"})
                        \cup (IF \A x \in {<<e.g.s[i], e.o.s[i]>> : i \in 1..MinI(Len(e.g.s), Len(e.o.s))} \cup {<<e.g.b[i], e.o.b[i]>> : i \in 1..MinI(Len(e.g.b), Len(e.o.b))} :
                                IF e.m # <<>> THEN x[2].m = e.m[1]
                                ELSE x[2].m.cls = "ElasticMaterial" /\ Close(x[2].m.dens, x[1].m.dens, "1e-12", 0) /\ Close(x[2].m.e0, x[1].m.e0, "1e-9", 0)
                              THEN {} ELSE {"material"})
    [] e.op = "sub" -> IF e.pieces > 1 THEN (IF e.err = "TypeError" THEN {} ELSE {"accepted"})
                       ELSE IF e.err # "" THEN {"rejected"} ELSE Cut(e)
Verdict(e) ==
  (IF e.after = e.before THEN {} ELSE {"operand changed"})
  \cup (CASE e.op \in {"bar", "line", "circle"} -> Reinforced(e)
          [] e.op = "rect" -> Rect(e)
          [] e.op = "disc" -> Circle(e)
          [] e.op = "axis" -> IF e.err = "TypeError" THEN {} ELSE {"mirrored about something else than a line"}
          [] e.op = "split" -> IF e.err = "" THEN Split(e) ELSE {"rejected"}
          [] e.op = "band" -> IF e.err = "" THEN Band(e) ELSE {"rejected"}
          [] e.op = "sub" -> Made(e)
          [] e.op = "tell" -> {}
          [] e.op = "make" -> MakeBad(e.q)
          [] OTHER -> IF e.err = "" THEN Made(e) ELSE {"rejected"})
  \cup (IF e.err = "" /\ "o" \in DOMAIN e THEN Coherent(e.o) ELSE {})
=============================================================================
