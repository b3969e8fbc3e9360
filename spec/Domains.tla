------------------------------- MODULE Domains -------------------------------
(* Interaction domains: families of ultimate strain planes that turn from   *)
(* tension to compression through six fields, and the resultants of these.   *)
EXTENDS Sections
B(ok, name) == IF ok THEN {} ELSE {name}
(* ------------------------------------------------------ numbers of planes *)
Shares == <<1, 2, 15, 10, 3, 4>>   \* of 35
Counts(x) == [k \in 1..6 |-> IF x.num = <<>> THEN x.nums[k]
                             ELSE LET s == (x.num[1] * Shares[k]) \div 35 IN IF s > x.nums[k] THEN s ELSE x.nums[k]]
RECURSIVE Repeat(_, _)
Repeat(ns, k) == IF k > 6 THEN <<>> ELSE [i \in 1..ns[k] |-> k] \o Repeat(ns, k + 1)
TypesOK(x) == \A k \in 1..6 : x.types[k] \in {"linear", "geometric", "quadratic"}
Possible(x) == TypesOK(x) /\ (\A k \in 1..6 : Counts(x)[k] >= 0) /\ Counts(x)[6] > 0
(* ------------------------------------------------------------- spacings *)
(* v runs from a towards b, which it does not reach                        *)
Same(u, v) == Close(u, v, "1e-9", "1e-10")
SpacedOK(v, a, b, type) ==
  LET n == Len(v)
      up == Ge(b, a)
      within == \A i \in 1..n : (Same(v[i], a) \/ (Gt(v[i], a) = up)) /\ (Same(v[i], b) \/ (Lt(v[i], b) = up))
      ordered == \A i \in 1..(n - 1) : Same(v[i], v[i + 1]) \/ (Lt(v[i], v[i + 1]) = up)
      line(i) == Between(a, b, i - 1, n)
      ratio(i) == a ** ((b // a) ^^ FDiv(i - 1, n))
  IN /\ within /\ ordered
     /\ CASE type = "linear" -> \A i \in 1..n : Same(v[i], line(i))
          [] type = "geometric" /\ Gt(Abs(a), 0) /\ Gt(Abs(b), 0) -> \A i \in 1..n : Same(v[i], ratio(i))
          [] OTHER -> n < 2 \/ Same(v[1], a)
(* ------------------------------------------------------------ the fields *)
(* c: pair that fails in the balanced failure, d: pair that yields; minY:    *)
(* lowest height of the surfaces; pls: planes of one angle, nums as counted  *)
FieldsOK(sec, th, q, y, c, d, minY, ns, types, pls) ==
  LET yp == q[c[1]].lo  yn == q[c[2]].hi
      pb == q[c[1]].p  nb == q[c[2]].n  py == y[d[1]].p  ny == y[d[2]].n
      h == yn -- minY
      lim == (nb ** (h -- (yn -- yp))) // h
      chi(i) == Turned(pls[i], th)
      P(i) == pls[i][1] ++ (chi(i) ** yp)
      N(i) == pls[i][1] ++ (chi(i) ** yn)
      end(k) == ns[1] + (IF k > 1 THEN ns[2] ELSE 0) + (IF k > 2 THEN ns[3] ELSE 0) + (IF k > 3 THEN ns[4] ELSE 0)
                + (IF k > 4 THEN ns[5] ELSE 0) + (IF k > 5 THEN ns[6] ELSE 0)
      F(k) == (end(k) - ns[k] + 1)..end(k)
      run(k, V(_)) == [j \in 1..ns[k] |-> V(end(k) - ns[k] + j)]
      final == IF sec.rc THEN ny ELSE nb
      pivot == yn -- ((1 -- (ny // nb)) ** h)
      stuck == sec.rc /\ Le(Abs(pivot -- yp), "1e-6" ** h)   \* turning leaves the strain there as it is
      six == [j \in 1..(ns[6] - 1) |-> IF stuck THEN N(end(6) - ns[6] + j) ELSE P(end(6) - ns[6] + j)]
  IN /\ \A i \in F(1) \cup F(2) : Same(P(i), pb)
     /\ \A i \in F(3) \cup F(4) \cup F(5) : Same(N(i), nb)
     /\ SpacedOK(run(1, N), pb, Num(0), types[1]) /\ SpacedOK(run(2, N), Num(0), nb, types[2])
     /\ SpacedOK(run(3, P), pb, py, types[3]) /\ SpacedOK(run(4, P), py, Num(0), types[4])
     /\ SpacedOK(run(5, P), Num(0), lim, types[5])
     /\ SpacedOK(six, IF stuck THEN nb ELSE lim, final, types[6]) /\ Same(P(end(6)), final) /\ Same(N(end(6)), final)
     /\ IF sec.rc THEN \A i \in F(6) : Same(pls[i][1] ++ (chi(i) ** pivot), ny)
        ELSE \A i \in F(6) : Same(N(i), nb)
LowestSurface(sec, q) == MinSeq([i \in DOMAIN sec.s |-> q[i].lo])
(* in field 6 of a concrete section the planes turn about an inner point     *)
BeyondBad(q, ea, chi) == UltimateBad(q, ea, chi) \ {"no part at its limit"}
(* field 3 ends at a yield strain that is beyond the ultimate strain it starts from *)
Beyond4(bad, other) == IF other /\ "limit exceeded" \in bad THEN (bad \ {"limit exceeded"}) \cup {"yield strain of another part beyond the limit"} ELSE bad
FamilyBad(sec, th, ns, types, pls) ==
  LET q == PartsOf(sec, th, FALSE)  y == PartsOf(sec, th, TRUE)
      minY == LowestSurface(sec, q)
      six == Len(pls) - ns[6]
      straight(pl) == Le(Abs((pl[2] ** Sin(th)) -- (pl[3] ** Cos(th))), ("1e-9" ** Curv(pl)) ++ ("1e-12" // Lever(sec)))
  IN B(\A i \in DOMAIN pls : straight(pls[i]), "inclination")
     \cup B(\E c \in BalancedAll(q) : \E d \in BalancedAll(y) : FieldsOK(sec, th, q, y, c, d, minY, ns, types, pls), "strain planes of the fields")
     \cup Beyond4(UNION {LET chi == Turned(pls[i], th) IN
                 IF sec.rc /\ i > six THEN BeyondBad(q, Num(pls[i][1]), chi) ELSE UltimateBad(q, Num(pls[i][1]), chi) : i \in DOMAIN pls},
                 \E c \in BalancedAll(q) : \E d \in BalancedAll(y) : Gt(y[d[1]].p, q[c[1]].p) /\ ~At(y[d[1]].p, q[c[1]].p))
ResultantsBad(sec, mesh, pls, fo) ==
  IF Len(fo) # Len(pls) THEN {"number of forces"} ELSE UNION {ForcesBad(sec, mesh, pls[i], fo[i], 0) : i \in DOMAIN pls}
(* the other half of a complete domain is the domain of the opposite angle,   *)
(* which is observed and judged by itself                                     *)
RestBad(sec, o, back) ==
  LET L == Lever(sec)
      same(a, b) == Close(a[1], b[1], "1e-9", "1e-12") /\ Close(a[2], b[2], "1e-9", "1e-12" // L) /\ Close(a[3], b[3], "1e-9", "1e-12" // L)
  IN B(o.k = "ok" /\ \A i \in DOMAIN back : i + 1 <= Len(o.r.st) /\ same(back[i], o.r.st[i + 1]), "other half of the domain")
RECURSIVE Opposite(_, _)
Opposite(s, i) == IF i < 2 THEN <<>> ELSE <<s[i]>> \o Opposite(s, i - 1)   \* without its ends, backwards
NMBad(sec, mesh, x) ==
  LET ns == Counts(x)
      total == ns[1] + ns[2] + ns[3] + ns[4] + ns[5] + ns[6]
      fields == Repeat(ns, 1)
      inner == IF total < 3 THEN 0 ELSE total - 2
      r == x.v.r
      th == Num(x.th)
      back == [i \in 1..inner |-> r.st[total + inner + 1 - i]]   \* planes 2..total-1 of the opposite angle
  IN IF ~Possible(x) THEN B(x.v.k = "ValueError", "impossible domain accepted")
     ELSE IF x.v.k # "ok" THEN {"no domain"}
     ELSE IF Len(r.st) # (IF x.complete THEN total + inner ELSE total) THEN {"number of points"}
     ELSE B(Eq(r.theta, x.th), "other inclination")
          \cup B(r.fn = (IF x.complete THEN fields \o Opposite(fields, total - 1) ELSE fields), "numbers of the fields")
          \cup FamilyBad(sec, th, ns, x.types, SubSeq(r.st, 1, total))
          \cup (IF x.complete THEN RestBad(sec, x.other, back) ELSE {})
          \cup ResultantsBad(sec, mesh, r.st, r.fo)
NMMBad(sec, mesh, x) ==
  LET ns == Counts(x)
      total == ns[1] + ns[2] + ns[3] + ns[4] + ns[5] + ns[6]
      fields == Repeat(ns, 1)
      r == x.v.r
      angle(k) == IF x.angles = 1 THEN Num(0) ELSE (2 ** PI ** (k - 1)) // (x.angles - 1)
      part(s, k) == SubSeq(s, ((k - 1) * total) + 1, k * total)
  IN IF ~Possible(x) THEN B(x.v.k = "ValueError", "impossible domain accepted")
     ELSE IF x.v.k # "ok" THEN {"no domain"}
     ELSE IF Len(r.st) # x.angles * total \/ Len(r.fn) # Len(r.st) THEN {"number of points"}
     ELSE B(r.angles = x.angles, "number of angles")
          \cup UNION {B(part(r.fn, k) = fields, "numbers of the fields") \cup FamilyBad(sec, angle(k), ns, x.types, part(r.st, k)) : k \in 1..x.angles}
          \cup ResultantsBad(sec, mesh, r.st, r.fo)
(* My - Mz under the axial force n: the bending strengths of all angles     *)
MMBad(sec, mesh, nmin, nmax, x) ==
  LET r == x.v.r
      n == Num(x.n)
      outside == Lt(n, nmin) \/ Gt(n, nmax)
      angle(k) == IF x.angles = 1 THEN Num(0) ELSE (2 ** PI ** (k - 1)) // (x.angles - 1)
      q(k) == PartsOf(sec, angle(k), FALSE)
      edge(k) == ~Carried(sec, mesh, q(k), n, "1e-6" ** Capacity(sec))
      point(k) == LET pl == r.st[k]  th == angle(k) IN
        InclinedBad(pl, th) \cup B(Eq(r.fo[k][1], n), "axial force")
        \cup (IF edge(k) THEN {} ELSE BalanceBad(sec, mesh, pl, n, <<r.fo[k][2], r.fo[k][3]>>))
        \cup UltimateBad(q(k), Num(pl[1]), Turned(pl, th))
  IN IF outside THEN B(x.v.k = "ValueError", "axial force beyond the range accepted")
     ELSE IF x.v.k = "ValueError" THEN B(\E k \in 1..x.angles : edge(k) \/ MixedLimits(q(k)), "rejected")
     ELSE IF x.v.k # "ok" THEN {"no domain"}
     ELSE IF Len(r.st) # x.angles \/ Len(r.fo) # x.angles \/ Len(r.theta) # x.angles \/ r.angles # x.angles THEN {"number of points"}
     ELSE B(\A k \in 1..x.angles : Close(r.theta[k], angle(k), "1e-12", "1e-12"), "angles") \cup UNION {point(k) : k \in 1..x.angles}
(* the columns of the results by name                                      *)
ColumnsBad(v) ==
  IF v.k # "ok" THEN {} ELSE
  LET r == v.r
      col(m, k) == [i \in DOMAIN m |-> m[i][k]]
  IN B(r.cols = <<col(r.fo, 1), col(r.fo, 2), col(r.fo, 3), col(r.st, 1), col(r.st, 2), col(r.st, 3)>>, "columns")
DomainsBad(e) ==
  LET mesh == IF e.fiber THEN MeshOf(e.sec, e.mesh) ELSE <<>> IN
  UNION {LET x == e.q[i] IN ColumnsBad(x.v) \cup CASE x.of = "nm" -> NMBad(e.sec, mesh, x) [] x.of = "nmm" -> NMMBad(e.sec, mesh, x)
                               [] x.of = "mm" -> MMBad(e.sec, mesh, e.nmin, e.nmax, x) : i \in DOMAIN e.q}
=============================================================================
