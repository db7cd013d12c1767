------------------------------- MODULE Curve -------------------------------
(* The short Weierstrass curves y^2 = x^3 + 5 over p (Pallas, Vesta), affine: *)
(* a point is <<x, y>>, the identity is <<>>.                                 *)
EXTENDS BigField
PallasP == "40000000000000000000000000000000224698fc094cf91b992d30ed00000001"   \* Pallas base = Vesta scalar
VestaP  == "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"   \* Vesta base = Pallas scalar
O == << >>
OnCurve(P, p) == P = O \/ MulB(P[2], P[2], p) = AddB(PowB(P[1], "3", p), 5, p)
NegP(P, p) == IF P = O THEN O ELSE <<P[1], NegB(P[2], p)>>
\* the third point of the line of slope l through P and (x2, .), negated
Chord(P, x2, l, p) ==
    LET x == SubB(SubB(MulB(l, l, p), P[1], p), x2, p)
    IN <<x, SubB(MulB(l, SubB(P[1], x, p), p), P[2], p)>>
DblP(P, p) ==
    IF P = O \/ P[2] = "0" THEN O
    ELSE Chord(P, P[1], MulB(MulB(3, MulB(P[1], P[1], p), p), InvB(AddB(P[2], P[2], p), p), p), p)
AddP(P, Q, p) ==
    IF P = O THEN Q ELSE IF Q = O THEN P
    ELSE IF P[1] = Q[1] THEN (IF P[2] = Q[2] THEN DblP(P, p) ELSE O)
    ELSE Chord(P, Q[1], MulB(SubB(Q[2], P[2], p), InvB(SubB(Q[1], P[1], p), p), p), p)
SubP(P, Q, p) == AddP(P, NegP(Q, p), p)
\* [n] P, most significant bit first
RECURSIVE MulFrom(_, _, _, _, _)
MulFrom(acc, n, i, P, p) ==
    IF i < 0 THEN acc
    ELSE LET d == DblP(acc, p) IN MulFrom(IF BitB(n, i) = 1 THEN AddP(d, P, p) ELSE d, n, i - 1, P, p)
MulP(n, P, p) == MulFrom(O, n, BitLenB(n) - 1, P, p)
\* sum of [c_i] P_i
RECURSIVE AddBits(_, _, _, _, _, _)
AddBits(acc, cs, Ps, b, i, p) ==
    IF i > Len(cs) THEN acc ELSE AddBits(IF BitB(cs[i], b) = 1 THEN AddP(acc, Ps[i], p) ELSE acc, cs, Ps, b, i + 1, p)
RECURSIVE MsmFrom(_, _, _, _, _)
MsmFrom(acc, cs, Ps, b, p) == IF b < 0 THEN acc ELSE MsmFrom(AddBits(DblP(acc, p), cs, Ps, b, 1, p), cs, Ps, b - 1, p)
MsmP(cs, Ps, p) == MsmFrom(O, cs, Ps, 254, p)
=============================================================================
