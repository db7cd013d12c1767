----------------------------- MODULE NativeTrace -----------------------------
(* The native helpers of halo2_gadgets::utilities against their definitions.  *)
EXTENDS Integers, Sequences, BigField, Report, Json, TLC
Cases == JsonDeserialize("cases.json")
VARIABLES cid, st
C == Cases[cid]
RECURSIVE BitsFrom(_, _, _)
BitsFrom(v, i, n) == IF i = n THEN <<>> ELSE <<BitB(v, i)>> \o BitsFrom(v, i + 1, n)
Words(v, n, w) ==
  LET x == LowB(v, n)
      m == (n + w - 1) \div w
  IN [i \in 1..m |-> Small(LowB(ShrB(x, w * (i - 1)), w))]
Bits(p) == BitLenB(p)
Want(o, p) ==
  CASE o.op = "bitrange" -> IF o.b > Bits(p) THEN "panic" ELSE LowB(ShrB(Big(o.v), o.a), o.b - o.a)
    [] o.op = "words" -> IF o.w > 8 THEN "panic" ELSE Words(Big(o.v), o.n, o.w)
    [] o.op = "lebs" -> <<BitsFrom(Big(o.v), 0, 64), Big(o.v), LowB(Big(o.v), 10)>>
Panics(o, p) == (o.op = "bitrange" /\ o.b > Bits(p)) \/ (o.op = "words" /\ o.w > 8)
Good(i) ==
  LET o == C.ops[i]  r == C.out[i] IN
  IF Panics(o, C.p) THEN "panic" \in DOMAIN r
  ELSE "ok" \in DOMAIN r /\ r.ok = Want(o, C.p)
Init == cid \in 1..Len(Cases) /\ st = 0
Next ==
  /\ st < Len(C.ops) /\ st' = st + 1 /\ UNCHANGED cid
  /\ IF Good(st + 1) THEN TRUE ELSE Reject(C.id, ToString(st + 1) \o ": " \o ToString(C.ops[st + 1]) \o " gives " \o ToString(C.out[st + 1]))
  /\ IF st + 1 = Len(C.ops) THEN Done(C.id) ELSE TRUE
=============================================================================
