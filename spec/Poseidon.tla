------------------------------ MODULE Poseidon ------------------------------
(* The Poseidon permutation, its sponge with constant input length, and the   *)
(* Grain generator of its parameters (Grassi et al., ePrint 2019/458).        *)
(* q = [t, rate, rf, rp, rc, mds, p]: width, rate, full and partial rounds,   *)
(* round constants, matrix, field.                                            *)
EXTENDS Integers, Sequences, BigField, TLC

(* ------------------------------------------------ permutation and sponge *)
Pow5(x, p) == LET y == MulB(x, x, p) IN MulB(MulB(y, y, p), x, p)
AddRc(s, r, q) == TLCEval([i \in 1..q.t |-> AddB(s[i], q.rc[r][i], q.p)])
Mix(s, q) == TLCEval([i \in 1..q.t |-> DotB(q.mds[i], s, q.p)])
Full(r, q) == r <= q.rf \div 2 \/ r > q.rf \div 2 + q.rp
Sbox(s, r, q) == TLCEval([i \in 1..q.t |-> IF i = 1 \/ Full(r, q) THEN Pow5(s[i], q.p) ELSE s[i]])
RECURSIVE Rounds(_, _, _)
Rounds(s, r, q) == IF r > q.rf + q.rp THEN s ELSE Rounds(TLCEval(Mix(Sbox(AddRc(s, r, q), r, q), q)), r + 1, q)
Permute(s, q) == Rounds(s, 1, q)

(* message words are added to the first `rate' words of the state, one block at a time *)
AddBlock(s, m, q) == TLCEval([i \in 1..q.t |-> IF i <= Len(m) THEN AddB(s[i], m[i], q.p) ELSE s[i]])
RECURSIVE Absorb(_, _, _)
Absorb(s, m, q) ==
  IF m = <<>> THEN s
  ELSE LET n == IF Len(m) < q.rate THEN Len(m) ELSE q.rate
       IN Absorb(Permute(AddBlock(s, SubSeq(m, 1, n), q), q), SubSeq(m, n + 1, Len(m)), q)
RECURSIVE Squeeze(_, _, _)
Squeeze(s, n, q) == IF n <= q.rate THEN SubSeq(s, 1, n) ELSE SubSeq(s, 1, q.rate) \o Squeeze(Permute(s, q), n - q.rate, q)
(* the capacity element encodes the length: L * 2^64 *)
Start(L, q) == TLCEval([i \in 1..q.t |-> IF i = q.rate + 1 THEN AddB(MulB(Big(L), PowB("2", "40", q.p), q.p), "0", q.p) ELSE "0"])
HashC(m, q) == Squeeze(Absorb(Start(Len(m), q), m, q), 1, q)[1]

(* ------------------------------------------------ Grain *)
RECURSIVE BitsBE(_, _)
BitsBE(v, n) == IF n = 0 THEN <<>> ELSE Append(BitsBE(v \div 2, n - 1), v % 2)
Grain0(nbits, t, rf, rp) == BitsBE(1, 2) \o BitsBE(0, 4) \o BitsBE(nbits, 12) \o BitsBE(t, 12) \o BitsBE(rf, 10) \o BitsBE(rp, 10) \o BitsBE(1073741823, 30)
Clock(s) == Append(Tail(s), (s[63] + s[52] + s[39] + s[24] + s[14] + s[1]) % 2)
RECURSIVE Clocks(_, _)
Clocks(s, n) == IF n = 0 THEN s ELSE Clocks(Clock(s), n - 1)
Grain(nbits, t, rf, rp) == Clocks(Grain0(nbits, t, rf, rp), 160)
(* bits come in pairs: the second is output if the first is 1 *)
RECURSIVE NextBit(_)
NextBit(s) == LET b == Clock(s)  d == Clock(b) IN IF b[80] = 1 THEN d ELSE NextBit(d)
RECURSIVE TakeBits(_, _, _)
TakeBits(s, n, v) == IF n = 0 THEN <<s, v>> ELSE LET d == NextBit(s) IN TakeBits(d, n - 1, IAdd(ShlB(v, 1), d[80]))
(* an element by rejection, or reduced *)
RECURSIVE NextElement(_, _, _)
NextElement(s, nbits, p) == LET x == TakeBits(s, nbits, "0") IN IF LtB(x[2], p) THEN x ELSE NextElement(x[1], nbits, p)
NextReduced(s, nbits, p) == LET x == TakeBits(s, nbits, "0") IN <<x[1], AddB(x[2], "0", p)>>
=============================================================================
