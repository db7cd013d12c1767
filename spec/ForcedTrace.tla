----------------------------- MODULE ForcedTrace -----------------------------
(* What a recorded gadget circuit determines for every witness whatsoever     *)
(* over its own field, however large: given the inputs at the interface every *)
(* output there, and the ranges that range checks are there to enforce.       *)
EXTENDS GadgetRel, Forced, Report, Json
Cases == JsonDeserialize("cases.json")
VARIABLES cid, st
C == Cases[cid]
(* positions of the interface, relative to the operation *)
Given(c, o) ==
  CASE c.g = "swap" -> IF o.op = "swap" THEN {1, 2} ELSE {1, 2, 3}
    [] c.g \in {"range", "range45", "sum"} -> {1}
    [] c.g = "pos" -> 1..PosIn(o)
Want(c, o) ==
  CASE c.g = "swap" -> IF o.op = "swap" THEN {} ELSE {4}
    [] c.g \in {"range", "range45"} -> IF o.op \notin {"copy", "witness"} \/ (o.strict /\ c.w * o.n < BitLenB(c.p)) THEN 1..OpLen(c, o) ELSE {}
    [] c.g = "sum" -> IF o.strict /\ c.w * o.n < BitLenB(c.p) THEN 1..OpLen(c, o) ELSE {}
    [] c.g = "pos" -> 1..OpLen(c, o)
(* pairs << position, bits >>: the value is below 2^bits *)
Bounded(c, o) ==
  CASE c.g = "swap" -> IF o.op = "swap" THEN {} ELSE {<<3, 1>>}
    [] c.g \in {"range", "range45"} ->
         IF o.op \notin {"copy", "witness"} THEN {<<1, o.n>>}
         ELSE IF o.strict /\ c.w * o.n < BitLenB(c.p) THEN {<<i, c.w * (o.n + 1 - i)>> : i \in 1..(o.n + 1)} ELSE {}
    [] c.g = "sum" -> IF o.strict /\ c.w * o.n < BitLenB(c.p) THEN {<<i, c.w * (o.n + 1 - i)>> : i \in 1..(o.n + 1)} ELSE {}
    [] c.g = "pos" -> {}
RECURSIVE Bounds(_, _, _)
Bounds(c, i, from) ==
  IF i > Len(c.ops) THEN {} ELSE {<<from + x[1], x[2]>> : x \in Bounded(c, c.ops[i])} \cup Bounds(c, i + 1, from + OpLen(c, c.ops[i]))
IsVar(i) == C.sys.io[i] <= C.sys.n
MaxAt(m, i) == IF IsVar(i) THEN m[C.sys.io[i]] ELSE C.sys.w[C.sys.io[i]]
Init == cid \in 1..Len(Cases) /\ st = "look"
Next ==
  /\ st = "look" /\ st' = "done" /\ UNCHANGED cid
  /\ \A f \in {ForcedVars(C.sys, {C.sys.io[i] : i \in Shifted(C, Given, 1, 0)}, {})} :
     \A bad \in {{i \in Shifted(C, Want, 1, 0) : IsVar(i) /\ C.sys.io[i] \notin f}} :
       IF bad = {} THEN TRUE ELSE Reject(C.id, "not determined by the inputs: interface positions " \o ToString(bad))
  /\ \A b \in {Bounds(C, 1, 0)} :
       IF b = {} THEN TRUE
       ELSE \A m \in {ForcedMax(C.sys, {}, {})} :
            \A bad \in {{x \in b : ~ Below(MaxAt(m, x[1]), x[2])}} :
              IF bad = {} THEN TRUE ELSE Reject(C.id, "not within its range for every witness: interface positions " \o ToString({x[1] : x \in bad}))
  /\ Done(C.id)
=============================================================================
