----------------------------- MODULE FieldCheck -----------------------------
(* The Java overrides of Field agree with its TLA+ definitions (module      *)
(* FieldDef is a copy of Field made by bin/check; TLC has no overrides for  *)
(* it).                                                                     *)
EXTENDS Integers, Sequences, TLC, Field

D == INSTANCE FieldDef
Primes == {97, 7681, 2013265921}
VARIABLES i
Seed(j, p) == (j * 48271 + 11) % p
Ok(j, p) ==
    LET a == D!MulM(Seed(j, p), Seed(3 * j + 1, p), p)
        b == D!MulM(Seed(j + 7, p), Seed(5 * j, p), p)
        s == <<a, b, Seed(j, p), 0, p - 1>>
        t == <<b, 0, p - 1, 1, a>>
    IN /\ AddM(a, b, p) = D!AddM(a, b, p)
       /\ SubM(a, b, p) = D!SubM(a, b, p)
       /\ NegM(a, p) = D!NegM(a, p)
       /\ NegM(0, p) = D!NegM(0, p)
       /\ MulM(a, b, p) = D!MulM(a, b, p)
       /\ MulM(p - 1, p - 1, p) = 1
       /\ PowM(a, j, p) = D!PowM(a, j, p)
       /\ InvM(a, p) = D!InvM(a, p)
       /\ InvM(0, p) = 0
       /\ DotM(s, t, p) = D!DotM(s, t, p)
       /\ EvalM(s, b, p) = D!EvalM(s, b, p)
       /\ SubScaledM(s, a, t, p) = D!SubScaledM(s, a, t, p)
       /\ ScaleM(s, b, p) = D!ScaleM(s, b, p)
Init == i = 0
Next == i < 60 /\ i' = i + 1
Agree == \A p \in Primes : Ok(i, p)
=============================================================================
