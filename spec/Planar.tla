------------------------------- MODULE Planar -------------------------------
(* Plane geometry.  A point is <<x, y>>.  A region is a sequence of rings    *)
(* (exterior and holes), a ring a sequence of points without repetition of   *)
(* the first; a point belongs to a region if it is inside an odd number of   *)
(* rings.                                                                    *)
EXTENDS FormulaKit

Nxt(r, i) == IF i = Len(r) THEN r[1] ELSE r[i + 1]
EdgesOf(r) == [i \in DOMAIN r |-> <<r[i], Nxt(r, i)>>]
Edges(reg) == FlattenSeq([i \in DOMAIN reg |-> EdgesOf(reg[i])])
Points(reg) == FlattenSeq(reg)
(* ------------------------------------------------ integrals over a ring *)
(* Green; signed, positive for a counter-clockwise ring.  The coordinates    *)
(* are taken relative to o.                                                  *)
Rel(p, o) == <<p[1] -- o[1], p[2] -- o[2]>>
RingInt(r, o, F(_, _)) == SumSeq([i \in DOMAIN r |-> F(Rel(r[i], o), Rel(Nxt(r, i), o))])
Crs(p, q) == (p[1] ** q[2]) -- (q[1] ** p[2])
IA(p, q) == Crs(p, q) // 2
IX(p, q) == (Crs(p, q) ** (p[1] ++ q[1])) // 6
IY(p, q) == (Crs(p, q) ** (p[2] ++ q[2])) // 6
IXX(p, q) == (Crs(p, q) ** (Sq(p[1]) ++ (p[1] ** q[1]) ++ Sq(q[1]))) // 12
IYY(p, q) == (Crs(p, q) ** (Sq(p[2]) ++ (p[2] ** q[2]) ++ Sq(q[2]))) // 12
IXY(p, q) == (Crs(p, q) ** ((p[1] ** q[2]) ++ (2 ** p[1] ** p[2]) ++ (2 ** q[1] ** q[2]) ++ (q[1] ** p[2]))) // 24
O2 == <<0, 0>>
(* the first ring counts positive, the others negative *)
RegInt(reg, o, F(_, _)) ==
  LET s(i) == LET a == RingInt(reg[i], o, IA) v == RingInt(reg[i], o, F) IN IF Lt(a, 0) THEN FNeg(v) ELSE v
  IN IF reg = <<>> THEN Num(0) ELSE s(1) -- SumSeq([i \in 1..(Len(reg) - 1) |-> s(i + 1)])
Area(reg) == IF reg = <<>> THEN Num(0) ELSE RegInt(reg, reg[1][1], IA)
RingLen(r) == SumSeq([i \in DOMAIN r |-> Sqrt(Sq(Nxt(r, i)[1] -- r[i][1]) ++ Sq(Nxt(r, i)[2] -- r[i][2]))])
(* ------------------------------------------------------------------ slabs *)
(* where the edges meet the line x = c, c no vertex *)
Hits(es, c) ==
  LET hit(e) == Lt(e[1][1], c) # Lt(e[2][1], c)
      at(e) == e[1][2] ++ (((e[2][2] -- e[1][2]) ** (c -- e[1][1])) // (e[2][1] -- e[1][1]))
      hs == SelectSeq(es, hit)
  IN [i \in DOMAIN hs |-> at(hs[i])]
CountBelow(ys, y) == Cardinality({i \in DOMAIN ys : Lt(ys[i], y)})
Odd(n) == n % 2 = 1
(* abscissa where two edges cross, if they do *)
CrossX(e, f) ==
  LET d1 == Rel(e[2], e[1])  d2 == Rel(f[2], f[1])  den == Crs(d1, d2)  w == Rel(f[1], e[1])
      t == Crs(w, d2) // den  u == Crs(w, d1) // den
  IN IF Eq(den, 0) THEN <<>>
     ELSE IF Ge(t, 0) /\ Le(t, 1) /\ Ge(u, 0) /\ Le(u, 1) THEN <<e[1][1] ++ (t ** d1[1])>> ELSE <<>>
Crossings(es, fs) == FlattenSeq([k \in 1..(Len(es) * Len(fs)) |-> CrossX(es[((k - 1) \div Len(fs)) + 1], fs[((k - 1) % Len(fs)) + 1])])
XsOf(reg) == [i \in DOMAIN Points(reg) |-> Points(reg)[i][1]]
(* measure of the points x where In(<<membership in each region>>) holds;    *)
(* regs: regions, xs: abscissas with every change of topology                *)
Measure(regs, xs0, In(_)) ==
  LET xs == Sort(xs0)
      es == [k \in DOMAIN regs |-> Edges(regs[k])]
      slab(i) ==
        LET w == xs[i + 1] -- xs[i]
            c == (xs[i + 1] ++ xs[i]) // 2
            hs == [k \in DOMAIN regs |-> Hits(es[k], c)]
            ys == Sort(FlattenSeq(hs))
            len(j) == LET y == (ys[j] ++ ys[j + 1]) // 2 IN
                      IF In([k \in DOMAIN regs |-> Odd(CountBelow(hs[k], y))]) THEN ys[j + 1] -- ys[j] ELSE Num(0)
        IN IF Le(w, 0) \/ Len(ys) < 2 THEN Num(0) ELSE w ** SumSeq([j \in 1..(Len(ys) - 1) |-> len(j)])
  IN IF Len(xs) < 2 THEN Num(0) ELSE SumSeq([i \in 1..(Len(xs) - 1) |-> slab(i)])
(* area of the set of points where P and Q of the memberships in regs differ *)
AllXs(regs) ==
  FlattenSeq([k \in DOMAIN regs |-> XsOf(regs[k])])
  \o FlattenSeq([k \in 1..(Len(regs) * Len(regs)) |->
           LET i == ((k - 1) \div Len(regs)) + 1  j == ((k - 1) % Len(regs)) + 1 IN
           IF i < j THEN Crossings(Edges(regs[i]), Edges(regs[j])) ELSE <<>>])
Differ(regs, P(_), Q(_)) == Measure(regs, AllXs(regs), LAMBDA m : P(m) # Q(m))
AnyFrom(m, i, k) == \E q \in i..k : m[q]
(* moment of area  x^m y^n  of a region, m + n <= 6: between vertices it is *)
(* a polynomial of degree m + n + 1 in x, exact with four Gauss points       *)
G4 == << <<"-0.861136311594052575224", "0.347854845137453857373">>, <<"-0.339981043584856264803", "0.652145154862546142627">>,
         <<"0.339981043584856264803", "0.652145154862546142627">>, <<"0.861136311594052575224", "0.347854845137453857373">> >>
Power(x, n) == IF n = 0 THEN Num(1) ELSE x ^^ n
Moment(reg, m, n) ==
  LET es == TLCEval(Edges(reg))  xs == TLCEval(Sort(XsOf(reg)))
      at(c) == LET ys == TLCEval(Sort(Hits(es, c))) IN
               Power(c, m) ** SumSeq([q \in 1..(Len(ys) \div 2) |-> (Power(ys[2 * q], n + 1) -- Power(ys[(2 * q) - 1], n + 1)) // (n + 1)])
      slab(i) == LET w == xs[i + 1] -- xs[i]  c == (xs[i + 1] ++ xs[i]) // 2 IN
                 IF Le(w, 0) THEN Num(0) ELSE SumSeq([j \in 1..4 |-> ((G4[j][2] ** w) // 2) ** at(c ++ ((G4[j][1] ** w) // 2))])
  IN SumSeq([i \in 1..(Len(xs) - 1) |-> slab(i)])
(* signed area of the part of a ring left of the line through a along d, by  *)
(* clipping: what is cut off is replaced by pieces of the line               *)
Left(p, a, d) == Crs(d, Rel(p, a))
ClipRing(r, a, d) ==
  LET u == TLCEval([i \in DOMAIN r |-> Left(r[i], a, d)])
      step(i) ==
        LET p == r[i]  q == Nxt(r, i)  v == u[i]  w == Nxt(u, i)
            x == LET k == v // (v -- w) IN <<p[1] ++ (k ** (q[1] -- p[1])), p[2] ++ (k ** (q[2] -- p[2]))>>
        IN IF Ge(v, 0) THEN (IF Ge(w, 0) THEN <<q>> ELSE <<x>>)
           ELSE (IF Ge(w, 0) THEN <<x, q>> ELSE <<>>)
  IN FlattenSeq([i \in DOMAIN r |-> step(i)])
Clip(reg, a, d) == SelectSeq([i \in DOMAIN reg |-> ClipRing(reg[i], a, d)], LAMBDA r : Len(r) > 2)
(* ------------------------------------------------------------ comparison *)
Near(p, q, tol) == Le(Abs(p[1] -- q[1]), tol) /\ Le(Abs(p[2] -- q[2]), tol)
Covers(ps, qs, tol) == \A i \in DOMAIN ps : \E j \in DOMAIN qs : Near(ps[i], qs[j], tol)
RECURSIVE MaxAbs(_, _, _)
MaxAbs(ps, i, m) == IF i > Len(ps) THEN m ELSE MaxAbs(ps, i + 1, MaxF(m, MaxF(Abs(ps[i][1]), Abs(ps[i][2]))))
Size(reg) == MaxAbs(Points(reg), 1, Num(1))
(* the same region: the same corners and the same integrals *)
SameRegion(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ {Len(a[i]) : i \in DOMAIN a} = {Len(b[i]) : i \in DOMAIN b}
  /\ LET p == Points(a)  q == Points(b)  s == Size(a)
         s2 == Sq(s)  same(F(_, _), t) == Close(RegInt(a, O2, F), RegInt(b, O2, F), 0, t ** tol) IN
     /\ Len(p) = Len(q) /\ Covers(p, q, tol) /\ Covers(q, p, tol)
     /\ (a = <<>> \/ (same(IA, 10 ** s) /\ same(IX, 10 ** s2) /\ same(IY, 10 ** s2)
                      /\ same(IXX, 10 ** s2 ** s) /\ same(IYY, 10 ** s2 ** s) /\ same(IXY, 10 ** s2 ** s)))
(* ---------------------------------------------------------------- motions *)
Shift(p, d) == <<p[1] ++ d[1], p[2] ++ d[2]>>
Turn(p, c, t) == LET q == Rel(p, c) IN
  <<c[1] ++ ((q[1] ** Cos(t)) -- (q[2] ** Sin(t))), c[2] ++ ((q[1] ** Sin(t)) ++ (q[2] ** Cos(t)))>>
Flip(p, a, b) ==   \* mirror image about the line through a and b
  LET d == Rel(b, a)  w == Rel(p, a)  n == Sq(d[1]) ++ Sq(d[2])
      k == ((w[1] ** d[1]) ++ (w[2] ** d[2])) // n
  IN <<(a[1] ++ (2 ** k ** d[1])) -- w[1], (a[2] ++ (2 ** k ** d[2])) -- w[2]>>
MapReg(reg, F(_)) == [i \in DOMAIN reg |-> [j \in DOMAIN reg[i] |-> F(reg[i][j])]]
=============================================================================
