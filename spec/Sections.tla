------------------------------ MODULE Sections ------------------------------
(* Sections of surfaces and bars under a plane of strains                    *)
(*    eps = pl[1] + pl[2] * z - pl[3] * y.                                   *)
(* A section sec has surfaces sec.s[i] = [r: region, l, conc, rho] and bars  *)
(* sec.b[i] = [x, y, a, l, rho]; l points into sec.laws, a sequence of       *)
(* [law, pieces]: pieces is empty, or the line segments that stand for a     *)
(* curved law when it is integrated exactly.                                 *)
EXTENDS Laws, Planar
Eps(pl, y, z) == pl[1] ++ (pl[2] ** z) -- (pl[3] ** y)
Curv(pl) == Sqrt(Sq(pl[2]) ++ Sq(pl[3]))
(* -------------------------------------------- laws inside a surface *)
RECURSIVE Sig(_, _)
Sig(l, e) ==
  CASE l.t = "init" -> IF l.compat THEN Sig(l.law, e ++ l.e) ELSE Sig(l.law, Num(l.e))
    [] l.t = "par" -> SumSeq([i \in DOMAIN l.laws |-> Weights(l)[i] ** Sig(l.laws[i], e)])
    [] OTHER -> IF Fails(l) /\ Beyond(l, e) THEN Num(0) ELSE Model(l, e)
RECURSIVE Tan1(_, _)
Tan1(l, e) ==
  CASE l.t = "init" -> IF l.compat THEN Tan1(l.law, e ++ l.e) ELSE Num(0)
    [] l.t = "par" -> SumSeq([i \in DOMAIN l.laws |-> Weights(l)[i] ** Tan1(l.laws[i], e)])
    [] OTHER -> IF Fails(l) /\ Beyond(l, e) THEN Num(0) ELSE CHOOSE t \in BasicTan(l, e) : TRUE
PieceAt(p, e) == {i \in DOMAIN p.pieces : Ge(e, p.pieces[i].lo) /\ Le(e, p.pieces[i].hi)}
SigP(p, e) == IF p.pieces = <<>> THEN Sig(p.law, e)
              ELSE LET at == PieceAt(p, e) IN IF at = {} THEN Num(0)
                   ELSE LET i == CHOOSE i \in at : TRUE IN Poly(p.pieces[i].c, e)
TanP(p, e) == IF p.pieces = <<>> THEN Tan1(p.law, e)
              ELSE LET at == PieceAt(p, e) IN IF at = {} THEN Num(0)
                   ELSE LET c == p.pieces[CHOOSE i \in at : TRUE].c IN IF Len(c) < 2 THEN Num(0) ELSE Num(c[2])
(* strains where a law changes its branch *)
RECURSIVE Breaks(_)
Breaks(l) ==
  CASE l.t = "elastic" -> <<>>
    [] l.t = "ep" -> <<EpsSy(l), FNeg(EpsSy(l))>> \o (IF l.su = "None" THEN <<>> ELSE <<Num(l.su), FNeg(l.su)>>)
    [] l.t = "pr" -> <<Num(0), NegA(l.e0), NegA(l.eu)>>
    [] l.t \in {"bl", "pop"} -> <<Num(0), NegA(l.ec), NegA(l.ecu)>>
    [] l.t = "sargin" -> <<Num(0), NegA(l.e1), NegA(l.eu)>>
    [] l.t = "user" -> LET x == UX(l) IN x \o <<100 ** x[1], 100 ** x[Len(x)]>>
    [] l.t = "init" -> IF l.compat THEN LET b == Breaks(l.law) IN [i \in DOMAIN b |-> b[i] -- l.e] ELSE <<>>
    [] l.t = "par" -> FlattenSeq([i \in DOMAIN l.laws |-> Breaks(l.laws[i])])
BreaksP(p) == IF p.pieces = <<>> THEN Breaks(p.law) ELSE FlattenSeq([i \in DOMAIN p.pieces |-> <<Num(p.pieces[i].lo), Num(p.pieces[i].hi)>>])
(* ------------------------------------------------ integrals over a surface *)
(* The plane is described by u along its gradient and v across.  Between     *)
(* two abscissas where the boundary or the law changes, the chord is linear  *)
(* in u and the law at most quadratic, so three Gauss points are exact.      *)
(* Result: integrals of f * <<1, u, v, uu, uv, vv>> and of |f|.              *)
GX == <<"-0.7745966692414834", "0", "0.7745966692414834">>
GW == <<FDiv(5, 18), FDiv(8, 18), FDiv(5, 18)>>
SlabInt(reg, ea, k, g, h, br, F(_)) ==
  LET uv == TLCEval(MapReg(reg, LAMBDA p : <<(p[1] ** g[1]) ++ (p[2] ** g[2]), (p[1] ** h[1]) ++ (p[2] ** h[2])>>))
      es == TLCEval(Edges(uv))
      us == TLCEval(LET ps == Points(uv) IN [i \in DOMAIN ps |-> ps[i][1]])
      lo == MinSeq(us)  hi == MaxSeq(us)
      at == TLCEval([i \in DOMAIN br |-> (br[i] -- ea) // k])
      xs == TLCEval(Sort(us \o SelectSeq(at, LAMBDA x : Gt(x, lo) /\ Lt(x, hi))))
      gauss(c, wt) ==
        LET ys == TLCEval(Sort(Hits(es, c)))
            n == Len(ys) \div 2
            f == TLCEval(F(ea ++ (k ** c)))
            a == f ** wt ** SumSeq([q \in 1..n |-> ys[2 * q] -- ys[(2 * q) - 1]])
            m == f ** wt ** SumSeq([q \in 1..n |-> (Sq(ys[2 * q]) -- Sq(ys[(2 * q) - 1])) // 2])
            t == f ** wt ** SumSeq([q \in 1..n |-> ((ys[2 * q] ^^ 3) -- (ys[(2 * q) - 1] ^^ 3)) // 3])
        IN <<a, a ** c, m, a ** c ** c, m ** c, t, Abs(a)>>
      slab(i) == LET w == xs[i + 1] -- xs[i]  c == (xs[i + 1] ++ xs[i]) // 2 IN
        IF Le(w, 0) THEN <<>> ELSE [j \in 1..3 |-> gauss(c ++ ((GX[j] ** w) // 2), GW[j] ** w)]
      all == TLCEval(FlattenSeq([i \in 1..(Len(xs) - 1) |-> slab(i)]))
  IN [c \in 1..7 |-> SumSeq([i \in DOMAIN all |-> all[i][c]])]
FlatInt(reg, f) ==   \* uniform strain: f is one value; u is y and v is z
  LET i(G(_, _)) == f ** RegInt(reg, O2, G) IN <<i(IA), i(IX), i(IY), i(IXX), i(IXY), i(IYY), Abs(i(IA))>>
(* the same in the axes of the section: f * <<1, y, z, yy, yz, zz>>, |f| *)
SurfaceInt(reg, p, pl, F(_)) ==
  LET k == Curv(pl) IN
  IF Eq(k, 0) THEN TLCEval(FlatInt(reg, F(pl[1])))
  ELSE LET g == <<FNeg(pl[3]) // k, pl[2] // k>>  h == <<g[2], FNeg(g[1])>>
           q == TLCEval(SlabInt(reg, pl[1], k, g, h, TLCEval(BreaksP(p)), F))
           bi(a, b) == (q[4] ** g[a] ** g[b]) ++ (q[5] ** ((g[a] ** h[b]) ++ (g[b] ** h[a]))) ++ (q[6] ** h[a] ** h[b])
       IN <<q[1], (q[2] ** g[1]) ++ (q[3] ** h[1]), (q[2] ** g[2]) ++ (q[3] ** h[2]), bi(1, 1), bi(1, 2), bi(2, 2), q[7]>>
(* --------------------------------------------- bars and fibres: intervals *)
(* the law may leave a choice (failure, kinks), so sums are intervals *)
Lo(set) == LET s == SetToSeq(set) IN MinSeq(s)
Hi(set) == LET s == SetToSeq(set) IN MaxSeq(s)
Times(iv, c) == IF Ge(c, 0) THEN <<iv[1] ** c, iv[2] ** c>> ELSE <<iv[2] ** c, iv[1] ** c>>
SumIv(ss) == <<SumSeq([i \in DOMAIN ss |-> ss[i][1]]), SumSeq([i \in DOMAIN ss |-> ss[i][2]])>>
(* f * <<1, y, z, yy, yz, zz>> as intervals, |f| *)
PointsInt(bs, pl, laws, F(_, _)) ==
  LET v == TLCEval([i \in DOMAIN bs |-> LET set == F(laws[bs[i].l], Eps(pl, bs[i].x, bs[i].y)) IN
                      Times(<<Lo(set), Hi(set)>>, bs[i].a)])
      sum(C(_)) == SumIv(TLCEval([i \in DOMAIN bs |-> Times(v[i], C(bs[i]))]))
  IN <<sum(LAMBDA b : 1), sum(LAMBDA b : b.x), sum(LAMBDA b : b.y), sum(LAMBDA b : b.x ** b.x), sum(LAMBDA b : b.x ** b.y),
       sum(LAMBDA b : b.y ** b.y), SumSeq([i \in DOMAIN bs |-> MaxF(Abs(v[i][1]), Abs(v[i][2]))])>>
Join(ss, pt) ==   \* surfaces and points together
  <<[c \in 1..6 |-> LET t == SumSeq([i \in DOMAIN ss |-> ss[i][c]]) IN <<t ++ pt[c][1], t ++ pt[c][2]>>],
    SumSeq([i \in DOMAIN ss |-> ss[i][7]]) ++ pt[7]>>
(* ------------------------------------------------------------ resultants *)
(* mesh: empty for exact integration, otherwise the fibres of all surfaces *)
Lumps(sec) ==   \* surfaces, each in its centroid
  TLCEval([i \in DOMAIN sec.s |-> LET A == Area(sec.s[i].r) IN
    [x |-> RegInt(sec.s[i].r, O2, IX) // A, y |-> RegInt(sec.s[i].r, O2, IY) // A, a |-> A, l |-> sec.s[i].l]])
FlatVals(p, e) ==
  IF p.pieces = <<>> THEN Stresses(p.law, e)
  ELSE LET b == BreaksP(p) IN {SigP(p, e)} \cup {SigP(p, x) : x \in {y \in {MinSeq(b), MaxSeq(b)} : Le(Abs(e -- y), "1.2e-6")}}
BarStress(p, e) == Stresses(p.law, e)
BarTangent(p, e) == Tangents(p.law, e)
Sum2(a, b) == [i \in 1..7 |-> IF i = 7 THEN a[7] ++ b[7] ELSE <<a[i][1] ++ b[i][1], a[i][2] ++ b[i][2]>>]
Stress(sec, mesh, pl) ==
  IF mesh # <<>> THEN Join(<<>>, PointsInt(mesh \o sec.b, pl, sec.laws, BarStress))
  ELSE IF Eq(Curv(pl), 0) THEN   \* a uniform strain at the end of a law may count as inside or beyond
    Join(<<>>, Sum2(PointsInt(Lumps(sec), pl, sec.laws, FlatVals), PointsInt(sec.b, pl, sec.laws, BarStress)))
  ELSE Join(TLCEval([i \in DOMAIN sec.s |-> LET p == sec.laws[sec.s[i].l] IN SurfaceInt(sec.s[i].r, p, pl, LAMBDA e : SigP(p, e))]),
            PointsInt(sec.b, pl, sec.laws, BarStress))
Modulus(sec, mesh, pl) ==
  IF mesh # <<>> THEN Join(<<>>, PointsInt(mesh \o sec.b, pl, sec.laws, BarTangent))
  ELSE Join(TLCEval([i \in DOMAIN sec.s |-> LET p == sec.laws[sec.s[i].l] IN SurfaceInt(sec.s[i].r, p, pl, LAMBDA e : TanP(p, e))]),
            PointsInt(sec.b, pl, sec.laws, BarTangent))
AllPts(sec) == FlattenSeq([i \in DOMAIN sec.s |-> Points(sec.s[i].r)]) \o [i \in DOMAIN sec.b |-> <<sec.b[i].x, sec.b[i].y>>]
Lever(sec) == MaxAbs(AllPts(sec), 1, Num("1e-9"))
RECURSIVE SumA(_, _, _)
SumA(sec, F(_), i) == IF i = 0 THEN Num(0) ELSE (F(sec.laws[sec.s[i].l]) ** Area(sec.s[i].r)) ++ SumA(sec, F, i - 1)
Capacity(sec) == SumA(sec, LAMBDA p : Scale(p.law), Len(sec.s)) ++ SumSeq([i \in DOMAIN sec.b |-> sec.b[i].a ** Scale(sec.laws[sec.b[i].l].law)])
Along(sec, pl) == LET k == Curv(pl)  ps == AllPts(sec) IN
  [i \in DOMAIN ps |-> ((pl[2] ** ps[i][2]) -- (pl[3] ** ps[i][1])) // k]
Depth(sec, pl) == LET u == TLCEval(Along(sec, pl)) IN MaxF(MaxSeq(u) -- MinSeq(u), "1e-6" ** Lever(sec))
(* relative uncertainty: where a surface is cut by a strain, the position of *)
(* the cut is known up to the rounding of the strain over the curvature; far *)
(* beyond the range of the law its polynomials lose digits, and more so the  *)
(* farther the origin is                                                     *)
Spread(sec) == IF sec.s = <<>> THEN Num(1) ELSE 1 ++ (Sq(Lever(sec)) // SumSeq([i \in DOMAIN sec.s |-> Area(sec.s[i].r)]))
Fuzz(sec, mesh, pl) ==
  LET k == Curv(pl)  L == Lever(sec) IN
  IF mesh # <<>> \/ Eq(k, 0) THEN Num("1e-9")
  ELSE LET e == Abs(pl[1]) ++ (k ** L) IN
       MinF(1, "1e-9" ++ (("1e-15" ** e) // (k ** Depth(sec, pl))) ++ ("2e-16" ** Sq(1000 ** e) ** Spread(sec)))
InIv(iv, v, tol) == Ge(v, iv[1] -- tol) /\ Le(v, iv[2] ++ tol)
Minus(iv) == <<FNeg(iv[2]), FNeg(iv[1])>>
(* axial force and moments o = <<n, my, mz>> of a plane *)
ForcesBad(sec, mesh, pl, o, extra) ==
  LET r == TLCEval(Stress(sec, mesh, pl))
      tol == (Fuzz(sec, mesh, pl) ** (r[2] ++ Capacity(sec))) ++ extra
      L == Lever(sec)
  IN (IF InIv(r[1][1], o[1], tol) THEN {} ELSE {"axial force"})
     \cup (IF InIv(r[1][3], o[2], tol ** L) THEN {} ELSE {"My"})
     \cup (IF InIv(Minus(r[1][2]), o[3], tol ** L) THEN {} ELSE {"Mz"})
(* 3 x 3 stiffness: derivative of <<n, my, mz>> by <<ea, chi_y, chi_z>> *)
Entry == << <<1, 3, 2>>, <<3, 6, 5>>, <<2, 5, 4>> >>
StiffBad(sec, mesh, pl, m) ==
  LET r == TLCEval(Modulus(sec, mesh, pl))
      stiff == SumA(sec, LAMBDA p : MaxF(Abs(TanP(p, 0)), Scale(p.law)), Len(sec.s))
               ++ SumSeq([i \in DOMAIN sec.b |-> sec.b[i].a ** MaxF(Hi(Tangents(sec.laws[sec.b[i].l].law, 0)), Scale(sec.laws[sec.b[i].l].law))])
      tol == MaxF("1e-8", 10 ** Fuzz(sec, mesh, pl)) ** (r[2] ++ stiff)
      L == Lever(sec)
      ok(i, j) == LET v == r[1][Entry[i][j]] IN
        InIv(IF (i = 3) # (j = 3) THEN Minus(v) ELSE v, m[i][j], tol ** (IF i = 1 THEN 1 ELSE L) ** (IF j = 1 THEN 1 ELSE L))
  IN IF Len(m) = 3 /\ \A i \in 1..3 : Len(m[i]) = 3 /\ \A j \in 1..3 : ok(i, j) THEN {} ELSE {"stiffness"}
(* -------------------------------------------------------------- the mesh *)
(* parts: for each surface its fibres [x, y, a] *)
MeshBad(sec, parts, size) ==
  LET reg(i) == sec.s[i].r
      A(i) == Area(reg(i))
      L == Lever(sec)
      sum(i, C(_)) == SumSeq([j \in DOMAIN parts[i] |-> C(parts[i][j])])
      inside(i, es, f) == Odd(CountBelow(Hits(es, Num(f.x)), Num(f.y)))
  IN IF Len(parts) # Len(sec.s) THEN {"mesh of other surfaces"}
     ELSE UNION {
       (IF Close(sum(i, LAMBDA f : f.a), A(i), "1e-9", 0) THEN {} ELSE {"area of the mesh"})
       \cup (IF /\ Close(sum(i, LAMBDA f : f.a ** f.x), RegInt(reg(i), O2, IX), "1e-9", "1e-9" ** A(i) ** L)
                /\ Close(sum(i, LAMBDA f : f.a ** f.y), RegInt(reg(i), O2, IY), "1e-9", "1e-9" ** A(i) ** L) THEN {} ELSE {"centre of the mesh"})
       \cup (IF \A j \in DOMAIN parts[i] : Gt(parts[i][j].a, 0) /\ Le(parts[i][j].a, size ** A(i) ** "1.000001") THEN {} ELSE {"size of the fibres"})
       \cup (LET es == TLCEval(Edges(reg(i))) IN IF \A j \in DOMAIN parts[i] : inside(i, es, parts[i][j]) THEN {} ELSE {"fibre outside"})
       : i \in DOMAIN sec.s}
MeshOf(sec, parts) == TLCEval(FlattenSeq([i \in DOMAIN parts |-> [j \in DOMAIN parts[i] |->
                        [x |-> parts[i][j].x, y |-> parts[i][j].y, a |-> parts[i][j].a, l |-> sec.s[i].l]]]))
(* ------------------------------------------------------- gross properties *)
(* second moments of a mesh fall short of the exact ones by the moments of   *)
(* the fibres about themselves                                               *)
E0(p) == p.e0
E0Bad(sec) == IF \A i \in DOMAIN sec.laws : TangentOK(sec.laws[i].law, Num(0), sec.laws[i].e0) THEN {} ELSE {"tangent at zero"}
(* e0: tangent at zero as the law reports it, judged by itself               *)
WSum(sec, W(_, _), F(_, _), C(_)) ==
  SumSeq([i \in DOMAIN sec.s |-> W(sec.laws[sec.s[i].l], sec.s[i]) ** RegInt(sec.s[i].r, O2, F)])
  ++ SumSeq([i \in DOMAIN sec.b |-> W(sec.laws[sec.b[i].l], sec.b[i]) ** sec.b[i].a ** C(sec.b[i])])
MSum(sec, mesh, W(_, _), C(_)) ==
  SumSeq([i \in DOMAIN mesh |-> W(sec.laws[mesh[i].l], mesh[i]) ** mesh[i].a ** C(mesh[i])])
  ++ SumSeq([i \in DOMAIN sec.b |-> W(sec.laws[sec.b[i].l], sec.b[i]) ** sec.b[i].a ** C(sec.b[i])])
Integrals(sec, W(_, _)) == [a |-> WSum(sec, W, IA, LAMBDA b : 1), y |-> WSum(sec, W, IX, LAMBDA b : b.x), z |-> WSum(sec, W, IY, LAMBDA b : b.y),
  yy |-> WSum(sec, W, IYY, LAMBDA b : Sq(b.y)), zz |-> WSum(sec, W, IXX, LAMBDA b : Sq(b.x)), yz |-> WSum(sec, W, IXY, LAMBDA b : b.x ** b.y)]
(* what the mesh leaves out of yy, zz, yz *)
Lacking(sec, mesh, I, W(_, _)) ==
  IF mesh = <<>> THEN <<Num(0), Num(0), Num(0)>>
  ELSE <<I.yy -- MSum(sec, mesh, W, LAMBDA f : Sq(f.y)), I.zz -- MSum(sec, mesh, W, LAMBDA f : Sq(f.x)), I.yz -- MSum(sec, mesh, W, LAMBDA f : f.x ** f.y)>>
(* about the origin, then about c; v = <<yy, zz, yz>> *)
SecondBad(I, lack, v, L, name) ==
  LET tol == "1e-9" ** Abs(I.a) ** Sq(L) IN
  IF /\ Close(v[1], I.yy -- lack[1], 0, tol) /\ Close(v[2], I.zz -- lack[2], 0, tol) /\ Close(v[3], I.yz -- lack[3], 0, tol)
  THEN {} ELSE {name}
CentralBad(I, lack, c, v, L, name) ==
  LET tol == "1e-9" ** Abs(I.a) ** Sq(L)
      polar == 6 ** (lack[1] ++ lack[2])
      yy == I.yy -- (2 ** c[2] ** I.z) ++ (I.a ** Sq(c[2]))
      zz == I.zz -- (2 ** c[1] ** I.y) ++ (I.a ** Sq(c[1]))
      yz == ((I.yz -- (c[1] ** I.z)) -- (c[2] ** I.y)) ++ (I.a ** c[1] ** c[2])
  IN IF /\ Le(v[1], yy ++ tol) /\ Ge(v[1], (yy -- polar) -- tol) /\ Le(v[2], zz ++ tol) /\ Ge(v[2], (zz -- polar) -- tol)
        /\ Le(Abs(v[3] -- yz), polar ++ tol) THEN {} ELSE {name}
(* principal axes: p = <<i11, i22, theta>> of v = <<yy, zz, yz>> *)
PrincipalBad(v, p, name) ==
  LET tol == "1e-9" ** (Abs(v[1]) ++ Abs(v[2]))
      r == Sqrt(Sq((v[1] -- v[2]) // 2) ++ Sq(v[3]))
      s == Sin(p[3])  c == Cos(p[3])
  IN IF /\ Close(p[1], ((v[1] ++ v[2]) // 2) ++ r, 0, tol) /\ Close(p[2], ((v[1] ++ v[2]) // 2) -- r, 0, tol)
        /\ Le(Abs(p[3]), "1.5707963267948968")
        /\ Close(((v[1] ** Sq(c)) ++ (v[2] ** Sq(s))) -- (2 ** v[3] ** s ** c), p[1], 0, tol ++ ("1e-7" ** r)) THEN {} ELSE {name}
(* g: the properties reported; ring: outline of the union, if it has one *)
GrossBad(sec, mesh, g) ==
  LET L == Lever(sec)
      W(p, x) == Num(1)   X(p, x) == E0(p)
      I == TLCEval(Integrals(sec, W))  J == TLCEval(Integrals(sec, X))
      li == TLCEval(Lacking(sec, mesh, I, W))  lj == TLCEval(Lacking(sec, mesh, J, X))
      same(a, b, t) == Close(a, b, "1e-9", t)
      aS == SumSeq([i \in DOMAIN sec.s |-> Area(sec.s[i].r)])
      aB == SumSeq([i \in DOMAIN sec.b |-> sec.b[i].a])
      m == SumSeq([i \in DOMAIN sec.s |-> Area(sec.s[i].r) ** sec.s[i].rho]) ++ SumSeq([i \in DOMAIN sec.b |-> sec.b[i].a ** sec.b[i].rho])
      c == <<g.cy, g.cz>>
      B(ok, name) == IF ok THEN {} ELSE {name}
  IN B(same(g.area, aS, 0), "area") \cup B(same(g.area_reinforcement, aB, 0), "area of the bars")
     \cup B(same(g.mass, m ** "1e-9", 0), "mass") \cup B(same(g.ea, J.a, 0), "EA")
     \cup B(same(g.sy, I.z, "1e-9" ** I.a ** L) /\ same(g.sz, I.y, "1e-9" ** I.a ** L), "first moments")
     \cup B(same(g.e_sy, J.z, "1e-9" ** Abs(J.a) ** L) /\ same(g.e_sz, J.y, "1e-9" ** Abs(J.a) ** L), "weighted first moments")
     \cup B(same(g.cy ** J.a, J.y, "1e-9" ** Abs(J.a) ** L) /\ same(g.cz ** J.a, J.z, "1e-9" ** Abs(J.a) ** L), "centroid")
     \cup SecondBad(I, li, <<g.iyy, g.izz, g.iyz>>, L, "second moments")
     \cup SecondBad(J, lj, <<g.e_iyy, g.e_izz, g.e_iyz>>, L, "weighted second moments")
     \cup CentralBad(I, li, c, <<g.iyy_c, g.izz_c, g.iyz_c>>, L, "central second moments")
     \cup CentralBad(J, lj, c, <<g.e_iyy_c, g.e_izz_c, g.e_iyz_c>>, L, "weighted central second moments")
     \cup PrincipalBad(<<g.iyy_c, g.izz_c, g.iyz_c>>, <<g.i11, g.i22, g.theta>>, "principal axes")
     \cup PrincipalBad(<<g.e_iyy_c, g.e_izz_c, g.e_iyz_c>>, <<g.e_i11, g.e_i22, g.e_theta>>, "weighted principal axes")
PerimeterBad(g, outline) ==
  IF outline.k = "unclear" THEN {}
  ELSE IF Close(g.perimeter, IF outline.k = "several" THEN 0 ELSE RingLen(outline.r), "1e-9", 0) THEN {} ELSE {"perimeter"}
(* -------------------------------------------------------- cracked section *)
(* th: inclination of the neutral axis; the height of a point above it *)
High(th, y, z) == (z ** Cos(th)) -- (y ** Sin(th))
(* Elastic parts, concrete only above the neutral axis; th: inclination.     *)
HighInt(reg, th) == (Cos(th) ** RegInt(reg, O2, IY)) -- (Sin(th) ** RegInt(reg, O2, IX))
Above(reg, th, h) == Clip(reg, <<FNeg(h ** Sin(th)), h ** Cos(th)>>, <<Cos(th), Sin(th)>>)
CrackedRegs(sec, th, h) == [i \in DOMAIN sec.s |-> IF sec.s[i].conc THEN Above(sec.s[i].r, th, h) ELSE sec.s[i].r]
Heights(sec, th) == LET ps == AllPts(sec) IN [i \in DOMAIN ps |-> High(th, ps[i][1], ps[i][2])]
(* E A and E S of what acts when the neutral axis is at h *)
Acting(sec, th, h) ==
  LET rs == TLCEval(CrackedRegs(sec, th, h))
      E(x) == sec.laws[x.l].e0
  IN <<SumSeq([i \in DOMAIN rs |-> E(sec.s[i]) ** Area(rs[i])]) ++ SumSeq([i \in DOMAIN sec.b |-> E(sec.b[i]) ** sec.b[i].a]),
       SumSeq([i \in DOMAIN rs |-> E(sec.s[i]) ** HighInt(rs[i], th)])
         ++ SumSeq([i \in DOMAIN sec.b |-> E(sec.b[i]) ** sec.b[i].a ** High(th, sec.b[i].x, sec.b[i].y)])>>
(* pure bending: the neutral axis passes the centroid of what acts.  Newton's *)
(* method from below does not overshoot.                                     *)
RECURSIVE NeutralFrom(_, _, _, _)
NeutralFrom(sec, th, h, n) ==
  LET a == TLCEval(Acting(sec, th, h))  g == a[2] // a[1] IN
  IF n = 0 \/ Close(g, h, 0, "1e-12" ** Lever(sec)) THEN h ELSE NeutralFrom(sec, th, g, n - 1)
Neutral(sec, th) == NeutralFrom(sec, th, MinSeq(Heights(sec, th)), 30)
Stiffening(sec) == (\E i \in DOMAIN sec.b : Gt(sec.laws[sec.b[i].l].e0, 0)) \/ \E i \in DOMAIN sec.s : ~sec.s[i].conc
(* cut: the section returned (elastic, with its own moduli); d: uncertainty  *)
(* of the height of the neutral axis                                         *)
CutBad(sec, cut, th, h, d) ==
  LET rs == TLCEval(CrackedRegs(sec, th, h))
      L == Lever(sec)
      was(W(_), F(_, _)) == SumSeq([i \in DOMAIN rs |-> W(sec.s[i]) ** RegInt(rs[i], O2, F)])
      is(W(_), F(_, _)) == SumSeq([i \in DOMAIN cut.s |-> W(cut.s[i]) ** RegInt(cut.s[i].r, O2, F)])
      WA(x) == 1   WE(x) == sec.laws[x.l].e0   WX(x) == cut.laws[x.l].e0   WR(x) == x.rho
      all(W(_)) == SumSeq([i \in DOMAIN sec.s |-> W(sec.s[i]) ** Area(sec.s[i].r)])
      most(W(_)) == MaxSeq([i \in DOMAIN sec.s |-> W(sec.s[i])])
      tol(W(_), k) == (("1e-9" ** all(W)) ++ (6 ** L ** d ** most(W))) ** k
      same(V(_), W(_)) == /\ Close(was(V, IA), is(W, IA), 0, tol(V, 1))
                          /\ Close(was(V, IX), is(W, IX), 0, tol(V, L)) /\ Close(was(V, IY), is(W, IY), 0, tol(V, L))
                          /\ Close(was(V, IXX), is(W, IXX), 0, tol(V, Sq(L))) /\ Close(was(V, IYY), is(W, IYY), 0, tol(V, Sq(L)))
                          /\ Close(was(V, IXY), is(W, IXY), 0, tol(V, Sq(L)))
      bar(b, c) == /\ Close(b.x, c.x, 0, "1e-9" ** L) /\ Close(b.y, c.y, 0, "1e-9" ** L) /\ Close(b.a, c.a, "1e-12", 0)
                   /\ Close(sec.laws[b.l].e0, cut.laws[c.l].e0, "1e-12", 0) /\ Close(b.rho, c.rho, "1e-12", 0)
      B(ok, name) == IF ok THEN {} ELSE {name}
  IN B(same(WA, WA), "parts of the cracked section") \cup B(same(WE, WX), "stiffness of the cracked section")
     \cup B(Close(was(WR, IA), is(WR, IA), 0, tol(WR, 1)), "density of the cracked section")
     \cup B(Len(sec.b) = Len(cut.b) /\ (\A i \in DOMAIN sec.b : \E j \in DOMAIN cut.b : bar(sec.b[i], cut.b[j]))
            /\ (\A j \in DOMAIN cut.b : \E i \in DOMAIN sec.b : bar(sec.b[i], cut.b[j])), "bars of the cracked section")
(* about the axis through the own centroid *)
AboutAxis(g, th) == ((g.e_iyy_c ** Sq(Cos(th))) ++ (g.e_izz_c ** Sq(Sin(th)))) -- (2 ** g.e_iyz_c ** Sin(th) ** Cos(th))
CrackedBad(e) ==
  LET some == \E i \in DOMAIN e.sec.s : e.sec.s[i].conc
      sec == e.sec  th == Num(e.th)
      h == Neutral(sec, th)
      depth == LET hs == Heights(sec, th) IN MaxSeq(hs) -- MinSeq(hs)
      d == IF e.fiber THEN "0.01" ** depth ELSE (("1.2e3" // Acting(sec, th, h)[1]) ++ ("1e-9" ** depth))
      \* hardly any stiffness of the bars: next to no zone in compression, and one
      \* far thinner than the fibres is resolved poorly
      thin == Lt(MaxSeq(Heights(sec, th)) -- h, (IF e.fiber THEN "0.08" ELSE "0.02") ** depth)
  IN IF ~some THEN (IF e.v.k = "none" THEN {} ELSE {"properties without concrete"})
     ELSE IF ~Stiffening(sec) THEN (IF e.v.k # "ok" THEN {} ELSE {"properties without reinforcement"})
     ELSE IF thin THEN {}
     ELSE IF e.v.k # "ok" THEN {"no properties"}
     ELSE E0Bad(sec) \cup CutBad(sec, e.cut, th, h, d)
          \cup GrossBad(e.cut, IF e.fiber THEN MeshOf(e.cut, e.cutmesh) ELSE <<>>, e.v.g)
          \cup (IF e.fiber \/ e.whole.k # "ok" \/ Le(AboutAxis(e.v.g, th), AboutAxis(e.whole.g, th) ** "1.000000001") THEN {} ELSE {"stiffer than uncracked"})
          \cup (IF e.again = e.v THEN {} ELSE {"properties differ with return_cracked_section"})
(* -------------------------------------------------- ultimate strain planes *)
(* the parts with their extreme heights and limits of strain *)
PartsOf(sec, th, yld) ==
  LET s(i) == LET ps == Points(sec.s[i].r)  hs == [j \in DOMAIN ps |-> High(th, ps[j][1], ps[j][2])]
                  l == sec.laws[sec.s[i].l].law
                  ny == yld /\ (~sec.rc \/ sec.s[i].conc) IN
              [lo |-> MinSeq(hs), hi |-> MaxSeq(hs), p |-> Limits(l, yld)[2], n |-> Limits(l, ny)[1]]
      b(i) == LET h == High(th, sec.b[i].x, sec.b[i].y)  l == sec.laws[sec.b[i].l].law IN
              [lo |-> h, hi |-> h, p |-> Limits(l, yld)[2], n |-> Limits(l, yld /\ ~sec.rc)[1]]
  IN TLCEval([i \in DOMAIN sec.s |-> s(i)] \o [i \in DOMAIN sec.b |-> b(i)])
(* balanced failure: the part that reaches its limit in tension and the one  *)
(* that reaches it in compression with the smallest curvature                *)
Pairs(q) == {c \in (DOMAIN q) \X (DOMAIN q) : Lt(q[c[1]].lo, q[c[2]].hi)}
PairCurv(q, c) == (q[c[1]].p -- q[c[2]].n) // (q[c[2]].hi -- q[c[1]].lo)
Balanced(q) == CHOOSE c \in Pairs(q) : \A d \in Pairs(q) : Le(PairCurv(q, c), PairCurv(q, d))
(* all pairs that are as good *)
BalancedAll(q) == LET b == PairCurv(q, Balanced(q)) IN {c \in Pairs(q) : Close(PairCurv(q, c), b, "1e-9", 0)}
TolE == "1e-9"
At(e, lim) == Close(e, lim, "1e-9", "1e-10")
OverP(e, lim) == Gt(e, lim) /\ ~At(e, lim)
OverN(e, lim) == Lt(e, lim) /\ ~At(e, lim)
(* ea, chi: strain at height h is ea + chi h, chi <= 0 *)
UltimateBad(q, ea, chi) ==
  LET eP(i) == ea ++ (chi ** q[i].lo)   eN(i) == ea ++ (chi ** q[i].hi)
      atP == {i \in DOMAIN q : At(eP(i), q[i].p)}  atN == {i \in DOMAIN q : At(eN(i), q[i].n)}
      overP == {i \in DOMAIN q : OverP(eP(i), q[i].p)}  overN == {i \in DOMAIN q : OverN(eN(i), q[i].n)}
      \* the pivot is the right one, but it is not the part with the smallest limit
      smaller == \E c \in BalancedAll(q) : /\ c[1] \in atP \/ c[2] \in atN
                   /\ (\A i \in overP : Lt(q[i].p, q[c[1]].p) /\ ~At(q[i].p, q[c[1]].p))
                   /\ (\A i \in overN : Gt(q[i].n, q[c[2]].n) /\ ~At(q[i].n, q[c[2]].n))
  IN IF atP \cup atN = {} THEN {"no part at its limit"}
     ELSE IF overP \cup overN = {} THEN {}
     ELSE IF smaller THEN {"smaller limit of another part exceeded"} ELSE {"limit exceeded"}
Turned(pl, th) == (pl[2] ** Cos(th)) ++ (pl[3] ** Sin(th))
InclinedBad(pl, th) ==
  IF Le(Abs((pl[2] ** Sin(th)) -- (pl[3] ** Cos(th))), "1e-9" ** Curv(pl)) /\ Le(Turned(pl, th), 0) THEN {} ELSE {"inclination"}
(* least and greatest axial force: all at the limit in compression, or all   *)
(* at the limit in tension, of the balanced failure                          *)
UniformN(sec, mesh, e) == LET r == Stress(sec, mesh, <<Num(e), Num(0), Num(0)>>) IN r[1][1]
RangeOK(sec, mesh, q, lo, hi) ==
  LET tol == "1e-9" ** Capacity(sec) IN
  \E c \in BalancedAll(q) : InIv(UniformN(sec, mesh, q[c[2]].n), lo, tol) /\ InIv(UniformN(sec, mesh, q[c[1]].p), hi, tol)
(* a part with a smaller limit than those of the balanced failure *)
MixedLimits(q) == LET c == Balanced(q) IN \E i \in DOMAIN q : (Lt(q[i].p, q[c[1]].p) /\ ~At(q[i].p, q[c[1]].p)) \/ (Gt(q[i].n, q[c[2]].n) /\ ~At(q[i].n, q[c[2]].n))
(* bending strength r = [n, my, mz, pl] for inclination th and axial force n *)
Unbalance(sec, pl) == "0.0101" ++ (("1e-12" ++ Fuzz(sec, <<>>, pl)) ** Capacity(sec))
StrengthBad(sec, mesh, th, q, n, edge, r) ==
  InclinedBad(r.pl, th)
  \cup (IF Le(Abs(r.n -- n), IF edge THEN "0.02" ++ ("5e-5" ** Capacity(sec)) ELSE Unbalance(sec, r.pl)) THEN {} ELSE {"not in equilibrium"})
  \cup ForcesBad(sec, mesh, r.pl, <<r.n, r.my, r.mz>>, 0)
  \cup UltimateBad(q, Num(r.pl[1]), Turned(r.pl, th))
(* a plane under the axial force n, and its moments m *)
BalanceBad(sec, mesh, pl, n, m) ==
  LET r == TLCEval(Stress(sec, mesh, pl))
      \* curved laws take strains within 1e-6 of an end of their range for the end
      snap == IF Eq(Curv(pl), 0) /\ Le(Abs(pl[1]), "1e-6") THEN r[2] ELSE Num(0)
      tol == (Fuzz(sec, mesh, pl) ** (r[2] ++ Capacity(sec))) ++ snap
      L == Lever(sec)
  IN (IF InIv(r[1][1], n, Unbalance(sec, pl) ++ snap) THEN {} ELSE {"not in equilibrium"})
     \cup (IF InIv(r[1][3], m[1], tol ** L) /\ InIv(Minus(r[1][2]), m[2], tol ** L) THEN {} ELSE {"moments"})
(* n between the axial forces of the two pivots, by a margin *)
Carried(sec, mesh, q, n, margin) ==
  \A c \in BalancedAll(q) : Gt(n, UniformN(sec, mesh, q[c[2]].n)[2] ++ margin) /\ Lt(n, UniformN(sec, mesh, q[c[1]].p)[1] -- margin)
StrengthsBad(e) ==
  LET mesh == IF e.fiber THEN MeshOf(e.sec, e.mesh) ELSE <<>>
      q0 == PartsOf(e.sec, Num(0), FALSE)
      one(x) ==
        LET th == Num(x.th)
            q == PartsOf(e.sec, th, FALSE)
            outside == Lt(x.n, e.nmin) \/ Gt(x.n, e.nmax)
            \* at the ends of the range the curvature vanishes and rounding decides
            edge == ~Carried(e.sec, mesh, q, x.n, "1e-6" ** Capacity(e.sec))
            \* far beyond the range of a law and far from the origin rounding decides
            c == Balanced(q)  k == PairCurv(q, c)
            blurred == Gt(Fuzz(e.sec, mesh, <<q[c[1]].p ++ (k ** q[c[1]].lo), FNeg(k) ** Cos(th), FNeg(k) ** Sin(th)>>), "0.01")
        IN IF outside THEN (IF x.v.k = "ValueError" THEN {} ELSE {"axial force beyond the range accepted"})
           ELSE IF x.v.k = "ValueError" THEN (IF edge \/ MixedLimits(q) \/ blurred THEN {} ELSE {"rejected"})
           ELSE IF x.v.k # "ok" THEN {"rejected"}
           ELSE IF ~Eq(x.v.r.theta, x.th) THEN {"other inclination"} ELSE StrengthBad(e.sec, mesh, Num(x.th), q, x.n, edge, x.v.r)
  IN (IF RangeOK(e.sec, mesh, q0, e.nmin, e.nmax) THEN {} ELSE {"range of the axial force"})
     \cup UNION {one(e.q[i]) : i \in DOMAIN e.q}
PlaneOf(ea, chi, th) == <<ea, chi ** Cos(th), chi ** Sin(th)>>
(* The searches by themselves: the plane of the balanced failure (or yield), *)
(* of a part at its limit, and of a given curvature, in the frame of the     *)
(* neutral axis                                                              *)
PlanesBad(e) ==
  LET mesh == IF e.fiber THEN MeshOf(e.sec, e.mesh) ELSE <<>>
      flat(x) == Len(x.pl) = 3 /\ Eq(x.pl[3], 0)
      same(a, b) == Close(a, b, "1e-9", "1e-9" ** Lever(e.sec))
      ends(q, x) == \E c \in BalancedAll(q) : /\ same(x.yp, q[c[1]].lo) /\ same(x.yn, q[c[2]].hi)
                                              /\ At(x.pl[1] ++ (x.pl[2] ** x.yp), q[c[1]].p) /\ At(x.pl[1] ++ (x.pl[2] ** x.yn), q[c[2]].n)
      one(x) ==
        LET th == Num(x.th)
            q == PartsOf(e.sec, th, x.yld)
            pl == PlaneOf(x.pl[1], x.pl[2], th)
            balance == InIv(Stress(e.sec, mesh, pl)[1][1], x.n, Unbalance(e.sec, pl))
            edge == ~Carried(e.sec, mesh, q, x.n, "1e-6" ** Capacity(e.sec))
            outside == Lt(x.n, e.lo) \/ Gt(x.n, e.hi)
        IN CASE x.of = "check" -> IF x.k = (IF outside THEN "ValueError" ELSE "ok") THEN {} ELSE {"axial force checked"}
             [] x.of = "balanced" -> IF x.k = "ok" /\ flat(x) /\ ends(q, x) THEN {} ELSE {IF x.yld THEN "balanced yield" ELSE "balanced failure"}
             [] x.of = "pivot" ->
                  IF edge THEN {}
                  ELSE IF x.k = "ValueError" THEN (IF MixedLimits(q) THEN {} ELSE {"no plane found"})
                  ELSE IF x.k = "ok" /\ flat(x) /\ balance /\ UltimateBad(q, Num(x.pl[1]), Num(x.pl[2])) \in SUBSET {"smaller limit of another part exceeded"} THEN {}
                  ELSE {"plane about a pivot"}
             [] x.of = "fixed" -> IF x.k = "ValueError" \/ (x.k = "ok" /\ flat(x) /\ Eq(x.pl[2], x.chi) /\ balance) THEN {} ELSE {"plane of a given curvature"}
  IN (IF RangeOK(e.sec, mesh, PartsOf(e.sec, Num(0), FALSE), e.lo, e.hi) THEN {} ELSE {"range of the axial force"})
     \cup UNION {one(e.q[i]) : i \in DOMAIN e.q}
(* --------------------------------------------------- moment and curvature *)
(* plane with curvature chi and a part of the pair c at its limit *)
Touching(q, c, chi) == {q[c[1]].p -- (chi ** q[c[1]].lo), q[c[2]].n -- (chi ** q[c[2]].hi)}
(* chi belongs to first yield under n: some part just yields, no part more   *)
YieldBad(sec, mesh, th, y, n, chi) ==
  LET N(ea) == Stress(sec, mesh, PlaneOf(ea, chi, th))[1][1]
      fine(c) == \E ea \in Touching(y, c, chi) : InIv(N(ea), n, Unbalance(sec, PlaneOf(ea, chi, th))) /\ UltimateBad(y, ea, chi) \in SUBSET {"smaller limit of another part exceeded"}
      never == Gt(chi, "-1e-8") /\ ~Carried(sec, mesh, y, n, "1e-6" ** Capacity(sec))
  IN IF never \/ \E c \in BalancedAll(y) : fine(c) THEN {} ELSE {"yield curvature"}
(* x.q: [auto, first, pre, post, chi] as asked, ult: curvature of the strength *)
Between(a, b, i, n) == a ++ (((b -- a) ** i) // n)
CurvaturesBad(sec, mesh, th, y, x, k) ==
  LET same(a, b) == Close(a, b, "1e-9", "1e-16")
      n == Len(k)
      cy == k[x.pre]
      f0 == IF Lt(x.first ** cy, 0) THEN FNeg(x.first) ELSE Num(x.first)
      first == IF Ge(Abs(f0), Abs(cy)) THEN cy // x.pre ELSE f0
  IN IF ~x.auto THEN (IF n = Len(x.chi) /\ \A i \in 1..n : same(k[i], x.chi[i]) THEN {} ELSE {"other curvatures"})
     ELSE IF n \notin {x.pre, x.pre + x.post} THEN {"number of points"}
     ELSE YieldBad(sec, mesh, th, y, Num(x.n), cy)
          \cup (IF \A i \in 1..x.pre : same(k[i], Between(first, cy, i - 1, x.pre - 1)) THEN {} ELSE {"points before yield"})
          \cup (IF n = x.pre \/ \A i \in x.pre..n : same(k[i], Between(cy, k[n], i - x.pre, x.post)) THEN {} ELSE {"points after yield"})
          \cup (IF x.ult = "none" THEN {}
                ELSE IF n = x.pre THEN (IF x.post = 0 \/ Le(Abs(x.ult), Abs(cy) ++ "1.0001e-8") THEN {} ELSE {"no points after yield"})
                ELSE IF Close(x.ult, k[n], "1e-6", "1e-14") THEN {} ELSE {"ultimate curvature"})
MomentCurvatureBad(e) ==
  LET mesh == IF e.fiber THEN MeshOf(e.sec, e.mesh) ELSE <<>>
      one(x) ==
        LET th == Num(x.th)
            q == PartsOf(e.sec, th, FALSE)  y == PartsOf(e.sec, th, TRUE)
            outside == Lt(x.n, e.nmin) \/ Gt(x.n, e.nmax)
            \* the search goes through the strains at the origin in growing steps
            L == Lever(e.sec)  hs == Heights(e.sec, th)
            inner == /\ e.sec.rc /\ Le(L, "1.5" ** (MaxSeq(hs) -- MinSeq(hs))) /\ Le(Abs(x.n), "0.02" ** Capacity(e.sec))
                     /\ Carried(e.sec, mesh, q, x.n, "0.1" ** Capacity(e.sec))
            r == x.v.r
            k == [i \in DOMAIN r.cy |-> Turned(<<r.ea[i], r.cy[i], r.cz[i]>>, th)]
            pt(i) == LET pl == <<r.ea[i], r.cy[i], r.cz[i]>> IN
              BalanceBad(e.sec, mesh, pl, x.n, <<r.my[i], r.mz[i]>>)
              \cup (IF Le(Abs((pl[2] ** Sin(th)) -- (pl[3] ** Cos(th))), "1e-9" ** Curv(pl)) THEN {} ELSE {"inclination"})
        IN IF outside THEN (IF x.v.k = "ValueError" THEN {} ELSE {"axial force beyond the range accepted"})
           ELSE IF x.v.k = "ValueError" THEN (IF ~inner \/ MixedLimits(q) \/ ~x.auto THEN {} ELSE {"rejected"})
           ELSE IF x.v.k # "ok" THEN {"rejected"}
           ELSE IF ~Eq(r.theta, x.th) \/ ~Eq(r.n, x.n) THEN {"other inclination or axial force"}
           ELSE IF \E s \in {r.ea, r.cz, r.my, r.mz} : Len(s) # Len(r.cy) THEN {"number of points"}
           ELSE CurvaturesBad(e.sec, mesh, th, y, x, k) \cup UNION {pt(i) : i \in DOMAIN k}
  IN UNION {one(e.q[i]) : i \in DOMAIN e.q}
(* ---------------------------------------------------------- strain profile *)
(* The plane found gives the loads back.  Newton's method stops when a step  *)
(* is shorter than tol; what is left of the loads is measured by the step it *)
(* would make with the stiffness at the beginning.                           *)
(* 3 x 3 systems by Cramer's rule; a symmetric, as <<11, 22, 33, 12, 13, 23>> *)
Det3(c1, c2, c3) == ((c1[1] ** ((c2[2] ** c3[3]) -- (c3[2] ** c2[3]))) -- (c2[1] ** ((c1[2] ** c3[3]) -- (c3[2] ** c1[3]))))
                    ++ (c3[1] ** ((c1[2] ** c2[3]) -- (c2[2] ** c1[3])))
Stiff0(sec, mesh) ==
  LET X(p, x) == E0(p)
      J == TLCEval(Integrals(sec, X))  l == TLCEval(Lacking(sec, mesh, J, X)) IN
  [ee |-> J.a, ez |-> J.z, ey |-> FNeg(J.y), zz |-> J.yy -- l[1], yy |-> J.zz -- l[2], zy |-> FNeg(J.yz -- l[3])]
(* the step <<ea, chi_y, chi_z>> for the residual r; lengths in L, so that   *)
(* the system is well scaled                                                 *)
StepFor(K, L, r) ==
  LET c1 == <<K.ee, K.ez // L, K.ey // L>>
      c2 == <<K.ez // L, K.zz // Sq(L), K.zy // Sq(L)>>
      c3 == <<K.ey // L, K.zy // Sq(L), K.yy // Sq(L)>>
      b == <<r[1], r[2] // L, r[3] // L>>
      det == Det3(c1, c2, c3)
  IN [sound |-> Gt(Abs(det), "1e-7" ** Abs(K.ee ^^ 3)), d |-> <<Det3(b, c2, c3) // det, Det3(c1, b, c3) // (det ** L), Det3(c1, c2, b) // (det ** L)>>]
Out(iv, v, tol) == IF Gt(v, iv[2] ++ tol) THEN v -- (iv[2] ++ tol) ELSE IF Lt(v, iv[1] -- tol) THEN v -- (iv[1] -- tol) ELSE Num(0)
Remains(sec, mesh, pl, loads) ==
  LET r == TLCEval(Stress(sec, mesh, pl))
      tol == Fuzz(sec, mesh, pl) ** (r[2] ++ Capacity(sec))
      L == Lever(sec)
  IN <<Out(r[1][1], loads[1], tol), Out(r[1][3], loads[2], tol ** L), Out(Minus(r[1][2]), loads[3], tol ** L)>>
Norm3(v) == Sqrt(Sq(v[1]) ++ Sq(v[2]) ++ Sq(v[3]))
(* strains of all parts under pl stay where the laws are straight lines      *)
RECURSIVE Straight(_, _)
Straight(l, e) == CASE l.t = "elastic" -> Le(Abs(e), "0.9" ** IF HasRange(l) THEN MinF(Abs(Limits(l, FALSE)[1]), Abs(Limits(l, FALSE)[2])) ELSE Num(100))
                    [] l.t = "ep" -> Le(Abs(e), "0.9" ** EpsSy(l))
                    [] OTHER -> FALSE
Linear(sec, pl) ==
  /\ \A i \in DOMAIN sec.s : LET ps == Points(sec.s[i].r) IN \A j \in DOMAIN ps : Straight(sec.laws[sec.s[i].l].law, Eps(pl, ps[j][1], ps[j][2]))
  /\ \A i \in DOMAIN sec.b : Straight(sec.laws[sec.b[i].l].law, Eps(pl, sec.b[i].x, sec.b[i].y))
(* the same with concrete in compression well before its peak               *)
Pressed(l, e) == Straight(l, e) \/ (l.t = "pr" /\ Lt(e, "-1e-6") /\ Gt(e, "0.5" ** NegA(l.e0)))
Compressed(sec, pl) ==
  /\ \A i \in DOMAIN sec.s : LET ps == Points(sec.s[i].r) IN \A j \in DOMAIN ps : Pressed(sec.laws[sec.s[i].l].law, Eps(pl, ps[j][1], ps[j][2]))
  /\ \A i \in DOMAIN sec.b : Straight(sec.laws[sec.b[i].l].law, Eps(pl, sec.b[i].x, sec.b[i].y))
(* x: loads, initial, max, tol; pl0: a plane with these loads, if known      *)
ProfileBad(e) ==
  LET mesh == IF e.fiber THEN MeshOf(e.sec, e.mesh) ELSE <<>>
      K == Stiff0(e.sec, mesh)
      L == Lever(e.sec)
      one(x) ==
        LET known == x.pl0 # <<>>
            none == \A i \in 1..3 : Eq(x.loads[i], 0) /\ Eq(Remains(e.sec, mesh, <<0, 0, 0>>, x.loads)[i], 0)
            sound == StepFor(K, L, <<0, 0, 0>>).sound
            sure == \/ none /\ sound /\ x.max >= 1
                    \/ known /\ sound /\ x.max >= 3 /\ Linear(e.sec, x.pl0)
                    \/ known /\ sound /\ x.max >= (IF x.initial THEN 100 ELSE 10) /\ Compressed(e.sec, x.pl0)
            left == TLCEval(Remains(e.sec, mesh, x.v.r, x.loads))
            step == StepFor(K, L, left)
        IN IF x.v.k # "ok" THEN (IF sure THEN {"no strain profile"} ELSE {})
           ELSE IF x.max < 1 THEN {"strain profile without an iteration"}
           ELSE IF \A i \in 1..3 : Eq(left[i], 0) THEN {}
           ELSE IF Le(x.tol, "1e-6") /\ Gt(Abs(left[1]), "0.5" ** Capacity(e.sec)) THEN {"loads not reproduced"}
           ELSE IF step.sound /\ Gt(Norm3(step.d), 30 ** x.tol) THEN {"loads not reproduced"} ELSE {}
  IN E0Bad(e.sec) \cup UNION {one(e.q[i]) : i \in DOMAIN e.q}
=============================================================================
