------------------------------ MODULE BigCheck ------------------------------
(* BigField's overrides agree with Field's definitions on small primes, and    *)
(* satisfy the field and group laws on the large ones.                         *)
EXTENDS Curve, TLC, FiniteSets
D == INSTANCE Field
Primes == {97, 7681, 2013265921}
VARIABLES i
Seed(j, p) == (j * 48271 + 11) % p
Ok(j, p) ==
    LET a == D!MulM(Seed(j, p), Seed(3 * j + 1, p), p)
        b == D!MulM(Seed(j + 7, p), Seed(5 * j, p), p)
        s == <<a, b, Seed(j, p), 0, p - 1>>
        t == <<b, 0, p - 1, 1, a>>
    IN /\ Small(AddB(a, b, p)) = D!AddM(a, b, p) /\ Small(SubB(a, b, p)) = D!SubM(a, b, p)
       /\ Small(NegB(a, p)) = D!NegM(a, p) /\ Small(MulB(a, b, p)) = D!MulM(a, b, p)
       /\ Small(PowB(a, j, p)) = D!PowM(a, j, p) /\ Small(InvB(a, p)) = D!InvM(a, p) /\ Small(InvB(0, p)) = 0
       /\ Small(DotB(s, t, p)) = D!DotM(s, t, p) /\ Small(EvalB(s, b, p)) = D!EvalM(s, b, p)
       /\ Small(IAdd(a \div 2, b \div 2)) = a \div 2 + b \div 2
       /\ (a >= b => Small(ISub(a, b)) = a - b) /\ LtB(a, b) = (a < b)
       /\ BitB(a, 3) = (a \div 8) % 2 /\ Small(ShrB(a, 5)) = a \div 32 /\ Small(LowB(a, 5)) = a % 32
       /\ Small(ShlB(a % 1000, 7)) = (a % 1000) * 128 /\ Small(IMul(a % 1000, b % 1000)) = (a % 1000) * (b % 1000)
       /\ (a > 0 => 2 ^ (BitLenB(a) - 1) <= a /\ (BitLenB(a) < 31 => a < 2 ^ BitLenB(a)))
\* (-1, 2) lies on y^2 = x^3 + 5
Group(j, p, order) ==
    LET G == <<NegB(1, p), "2">>
        A == MulP(Big(j + 1), G, p)
        B == MulP(MulB(Big(j), "123456789abcdef0123456789abcdef", order), G, p)
    IN /\ OnCurve(G, p) /\ OnCurve(A, p) /\ OnCurve(B, p)
       /\ AddP(A, B, p) = AddP(B, A, p) /\ AddP(AddP(A, B, p), G, p) = AddP(A, AddP(B, G, p), p)
       /\ SubP(A, A, p) = O /\ AddP(A, A, p) = DblP(A, p) /\ MulP(order, A, p) = O
       /\ MsmP(<<"5", "0", "f000000000000000000000000000000000000000000000000000000000000">>, <<A, B, G>>, p)
          = AddP(MulP("5", A, p), MulP("f000000000000000000000000000000000000000000000000000000000000", G, p), p)
Init == i = 0
Next == i < 30 /\ i' = i + 1
Agree == \A p \in Primes : Ok(i, p)
Laws == i % 10 = 1 => (Group(i, PallasP, VestaP) /\ Group(i, VestaP, PallasP))
=============================================================================
