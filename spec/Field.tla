------------------------------- MODULE Field -------------------------------
(* Arithmetic modulo a prime p < 2^31 with TLC's 32-bit integers.           *)
(* These are the definitions.  spec/java/Field.java replaces them in TLC by *)
(* 64-bit arithmetic for speed; FieldCheck.tla checks the replacement       *)
(* against these definitions.                                               *)
EXTENDS Integers, Sequences

AddM(a, b, p) == IF b = 0 THEN a ELSE IF a >= p - b THEN a - (p - b) ELSE a + b
SubM(a, b, p) == IF a >= b THEN a - b ELSE a + (p - b)
NegM(a, p) == IF a = 0 THEN 0 ELSE p - a

RECURSIVE MulM(_, _, _)
MulM(a, b, p) ==
    IF b = 0 THEN 0
    ELSE LET h == MulM(a, b \div 2, p)
             d == AddM(h, h, p)
         IN IF b % 2 = 1 THEN AddM(d, a, p) ELSE d

RECURSIVE PowM(_, _, _)
PowM(a, e, p) ==
    IF e = 0 THEN 1
    ELSE LET h == PowM(a, e \div 2, p)
             d == MulM(h, h, p)
         IN IF e % 2 = 1 THEN MulM(d, a, p) ELSE d

\* the inverse of 0 is 0, as everywhere in halo2
InvM(a, p) == PowM(a, p - 2, p)

RECURSIVE DotFrom(_, _, _, _)
DotFrom(s, t, i, p) ==
    IF i > Len(s) THEN 0 ELSE AddM(MulM(s[i], t[i], p), DotFrom(s, t, i + 1, p), p)
DotM(s, t, p) == DotFrom(s, t, 1, p)

\* coefficients c[1] + c[2] x + ... at x
RECURSIVE HornerFrom(_, _, _, _)
HornerFrom(c, x, i, p) ==
    IF i > Len(c) THEN 0 ELSE AddM(c[i], MulM(x, HornerFrom(c, x, i + 1, p), p), p)
EvalM(c, x, p) == HornerFrom(c, x, 1, p)

\* v - c w, elementwise
SubScaledM(v, c, w, p) == [i \in DOMAIN v |-> SubM(v[i], MulM(c, w[i], p), p)]
\* c v
ScaleM(v, c, p) == [i \in DOMAIN v |-> MulM(c, v[i], p)]
=============================================================================
