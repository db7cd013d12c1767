----------------------------- MODULE Sinsemilla -----------------------------
(* Sinsemilla over Pallas (Zcash protocol specification 5.4.1.9, 5.4.8.4) and *)
(* the Merkle tree hash built from it (5.4.1.3).  The generators S_0..S_1023  *)
(* are given (they are hash-to-curve outputs of the sinsemilla crate).        *)
EXTENDS Integers, Sequences, BigField, Curve, TLC, Json
STab == TLCEval(JsonDeserialize("sinsemilla_s.json"))
Bottom == <<"bottom">>
IncAdd(P, Q) ==
  IF P = Bottom \/ Q = Bottom THEN Bottom
  ELSE IF P = O \/ Q = O \/ P[1] = Q[1] THEN Bottom ELSE AddP(P, Q, PallasP)
Step(acc, m) == IncAdd(IncAdd(acc, STab[m + 1]), acc)
\* n words of 10 bits of the integer v, least significant first
WordsOf(v, n) == [i \in 1..n |-> Small(LowB(ShrB(v, 10 * (i - 1)), 10))]
RECURSIVE HashFrom(_, _, _)
HashFrom(acc, ws, i) == IF i > Len(ws) THEN acc ELSE HashFrom(TLCEval(Step(acc, ws[i])), ws, i + 1)
SinsHash(Q, ws) == HashFrom(Q, ws, 1)
\* the message of a Merkle node at index l above the leaves: 10 + 255 + 255 bits
CrhWords(l, left, right) == WordsOf(IAdd(l, IAdd(ShlB(left, 10), ShlB(right, 265))), 52)
Crh(Q, l, left, right) == LET h == SinsHash(Q, TLCEval(CrhWords(l, left, right))) IN IF h = Bottom THEN "bottom" ELSE h[1]
\* encodings of a field element with 255 bits: it need not be the least one
Encodings(v) == LET w == IAdd(v, PallasP) IN IF BitLenB(w) <= 255 THEN {v, w} ELSE {v}
Crhs(Q, l, left, right) == {Crh(Q, l, a, b) : a \in Encodings(left), b \in Encodings(right)}
=============================================================================
