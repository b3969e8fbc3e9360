-------------------------------- MODULE Flt --------------------------------
(* Real numbers for TLC.  A number is an integer, a decimal string ("0.35") *)
(* or a double produced by one of these operators.  Every operator below is *)
(* overridden in java/Flt.java by the IEEE operation of the same meaning;   *)
(* nothing about the library under test lives on the Java side.             *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC
LOCAL Undef == Assert(FALSE, "Flt override is not on the class path")
Num(a) == Undef
FAdd(a, b) == Undef
FSub(a, b) == Undef
FMul(a, b) == Undef
FDiv(a, b) == Undef
FPow(a, b) == Undef
FNeg(a) == Undef
Abs(a) == Undef
Sqrt(a) == Undef
Exp(a) == Undef
Ln(a) == Undef
Sin(a) == Undef
Cos(a) == Undef
Tan(a) == Undef
Atan(a) == Undef
Atan2(a, b) == Undef
MinF(a, b) == Undef
MaxF(a, b) == Undef
Lt(a, b) == Undef
Le(a, b) == Undef
Gt(a, b) == Undef
Ge(a, b) == Undef
Eq(a, b) == Undef
IsFin(a) == Undef
IsNum(a) == Undef
Floor(a) == Undef
Rint(a) == Undef
ToInt(a) == Undef
Str(a) == Undef
Close(a, b, rtol, atol) == Undef

a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
a ^^ b == FPow(a, b)

PI == Num("3.141592653589793")
Clamp(x, lo, hi) == MinF(MaxF(x, lo), hi)
SumSeq(s) == Undef    \* sum of a sequence
MaxSeq(s) == Undef    \* largest and smallest member of a sequence
MinSeq(s) == Undef
Sort(s) == Undef      \* the numbers of a sequence in increasing order
=============================================================================
