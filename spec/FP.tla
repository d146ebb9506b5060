--------------------------------- MODULE FP ---------------------------------
(* IEEE-754 double arithmetic as primitive operators.  A double is the pair
   <<high 32 bits, low 32 bits>>; the operators are evaluated by java/FPO.java.
   Everything numerical in the specification is written out in TLA+ on top of
   these primitives. *)
LOCAL INSTANCE Integers
a (+) b == CHOOSE x \in {} : TRUE
a (-) b == CHOOSE x \in {} : TRUE
a (.) b == CHOOSE x \in {} : TRUE
a (/) b == CHOOSE x \in {} : TRUE
a \prec b == CHOOSE x \in {} : TRUE
a \preceq b == CHOOSE x \in {} : TRUE
Neg(a) == CHOOSE x \in {} : TRUE
Abs(a) == CHOOSE x \in {} : TRUE
Sqrt(a) == CHOOSE x \in {} : TRUE
Sin(a) == CHOOSE x \in {} : TRUE
Cos(a) == CHOOSE x \in {} : TRUE
Tan(a) == CHOOSE x \in {} : TRUE
Asin(a) == CHOOSE x \in {} : TRUE
Acos(a) == CHOOSE x \in {} : TRUE
Atan(a) == CHOOSE x \in {} : TRUE
Atan2(a, b) == CHOOSE x \in {} : TRUE
Pow(a, b) == CHOOSE x \in {} : TRUE
FMod(a, b) == CHOOSE x \in {} : TRUE     \* remainder with the sign of a
Floor(a) == CHOOSE x \in {} : TRUE
RTrunc(a) == CHOOSE x \in {} : TRUE      \* toward zero, result a double
Trunc(a) == CHOOSE x \in {} : TRUE       \* toward zero, result an integer
N(i) == CHOOSE x \in {} : TRUE           \* integer to double
IsNaN(a) == CHOOSE x \in {} : TRUE
IsFinite(a) == CHOOSE x \in {} : TRUE
SameBits(a, b) == CHOOSE x \in {} : TRUE
D(s) == CHOOSE x \in {} : TRUE           \* decimal (or hexadecimal) literal
R(s) == CHOOSE x \in {} : TRUE           \* number in a recorded trace
OfText(s) == CHOOSE x \in {} : TRUE        \* decimal numeral, a sequence of bytes
Show(a) == CHOOSE x \in {} : TRUE
Force(a) == CHOOSE x \in {} : TRUE       \* identity; evaluates its argument

Min2(a, b) == IF b \prec a THEN b ELSE a
Max2(a, b) == IF a \prec b THEN b ELSE a
Clamp(x, lo, hi) == IF x \prec lo THEN lo ELSE IF hi \prec x THEN hi ELSE x
Sq(x) == x (.) x
=============================================================================
