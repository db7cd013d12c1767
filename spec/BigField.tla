------------------------------ MODULE BigField ------------------------------
(* Numbers too large for TLC's 32-bit integers, as lower-case hexadecimal     *)
(* strings ("0", "2a", ...; a TLC integer is accepted wherever a string is).  *)
(* All operators are provided by spec/java/BigField.java; BigCheck.tla checks *)
(* them against Field's definitions on small primes, and against the field    *)
(* laws on the large ones.                                                    *)
EXTENDS Integers, Sequences
Big(a) == CHOOSE x \in STRING : TRUE                \* canonical string of a
Small(a) == CHOOSE x \in Nat : TRUE                 \* as a TLC integer
AddB(a, b, p) == CHOOSE x \in STRING : TRUE         \* a + b mod p
SubB(a, b, p) == CHOOSE x \in STRING : TRUE
NegB(a, p) == CHOOSE x \in STRING : TRUE
MulB(a, b, p) == CHOOSE x \in STRING : TRUE
PowB(a, e, p) == CHOOSE x \in STRING : TRUE
InvB(a, p) == CHOOSE x \in STRING : TRUE            \* the inverse of 0 is 0
DotB(s, t, p) == CHOOSE x \in STRING : TRUE         \* sum of s[i] t[i] mod p
EvalB(c, x, p) == CHOOSE y \in STRING : TRUE        \* c[1] + c[2] x + ... mod p
IAdd(a, b) == CHOOSE x \in STRING : TRUE            \* integer operations
ISub(a, b) == CHOOSE x \in STRING : TRUE
IMul(a, b) == CHOOSE x \in STRING : TRUE
BitB(a, n) == CHOOSE x \in {0, 1} : TRUE            \* bit n of the integer a
BitLenB(a) == CHOOSE x \in Nat : TRUE
ShrB(a, n) == CHOOSE x \in STRING : TRUE            \* floor(a / 2^n)
ShlB(a, n) == CHOOSE x \in STRING : TRUE
LowB(a, n) == CHOOSE x \in STRING : TRUE            \* a mod 2^n
LtB(a, b) == CHOOSE x \in BOOLEAN : TRUE
=============================================================================
