----------------------------- MODULE FormulaKit -----------------------------
(* What the specifications of the design codes share. *)
EXTENDS TraceKit

Interp(x, xs, ys) ==  \* piecewise linear, constant outside
  LET n == Len(xs) IN
  IF Le(x, xs[1]) THEN Num(ys[1])
  ELSE IF Ge(x, xs[n]) THEN Num(ys[n])
  ELSE LET i == CHOOSE j \in 1..(n - 1) : Ge(x, xs[j]) /\ Lt(x, xs[j + 1])
       IN ys[i] ++ (((ys[i + 1] -- ys[i]) ** (x -- xs[i])) // (xs[i + 1] -- xs[i]))
Cube(x) == FPow(x, FDiv(1, 3))
P4(x) == x ** x ** x ** x
Sq(x) == x ** x
Radians(x) == (x ** PI) // 180
Cot(x) == 1 // Tan(x)
OrErr(bad, v) == IF bad THEN ErrV("ValueError") ELSE v
Vec(e, n, F(_)) == IF e.vec THEN SeqV([i \in 1..Len(e.a[n]) |-> F(e.a[n][i])]) ELSE NumV(F(e.a[n]))

ByClass(tab, c) == IF c = "?" THEN ErrV("ValueError") ELSE NumV(tab[c])
AnyNeg(a, names) == \E n \in names : Lt(a[n], 0)
AnyNonPos(a, names) == \E n \in names : Le(a[n], 0)
(* Linear interpolation in a rectangular table leaves a choice: each cell is *)
(* cut in two triangles along one of its diagonals.  The set of all values   *)
(* that this may give; empty outside the table.                              *)
GridVals(xs, ys, tab, x, y) ==
  LET cells == {c \in (1..(Len(xs) - 1)) \X (1..(Len(ys) - 1)) :
                  /\ Ge(x, xs[c[1]]) /\ Le(x, xs[c[1] + 1])
                  /\ Ge(y, ys[c[2]]) /\ Le(y, ys[c[2] + 1])}
      vals(c) ==
        LET i == c[1]  j == c[2]
            u == (x -- xs[i]) // (xs[i + 1] -- xs[i])
            v == (y -- ys[j]) // (ys[j + 1] -- ys[j])
            f00 == tab[i][j]   f10 == tab[i + 1][j]
            f01 == tab[i][j + 1]   f11 == tab[i + 1][j + 1]
            d1 == IF Ge(u, v) THEN {f00 ++ (u ** (f10 -- f00)) ++ (v ** (f11 -- f10))} ELSE {}
            d2 == IF Le(u, v) THEN {f00 ++ (v ** (f01 -- f00)) ++ (u ** (f11 -- f01))} ELSE {}
            d3 == IF Le(u ++ v, 1) THEN {f00 ++ (u ** (f10 -- f00)) ++ (v ** (f01 -- f00))} ELSE {}
            d4 == IF Ge(u ++ v, 1) THEN {f11 ++ ((1 -- u) ** (f01 -- f11)) ++ ((1 -- v) ** (f10 -- f11))} ELSE {}
        IN d1 \cup d2 \cup d3 \cup d4
  IN UNION {vals(c) : c \in cells}
=============================================================================
