------------------------------ MODULE CircCheck ------------------------------
(* Circ's overrides compute its definitions (CircDef is Circ under another    *)
(* name, so that nothing overrides it), on random small systems over F_7.     *)
EXTENDS Circ, TLC, Json
D == INSTANCE CircDef
Data == JsonDeserialize("cases.json")
VARIABLES i
Init == i = 1
Next == i < Len(Data) /\ i' = i + 1
Agree ==
  LET s == Data[i].sys  d == Data[i].dev IN
  /\ \A v \in 1..Len(s.w) : Val(s, d, v) = D!Val(s, d, v)
  /\ \A c \in 1..Len(s.c) : Holds(s, d, c) = D!Holds(s, d, c) /\ LastVar(s, c) = D!LastVar(s, c)
  /\ Violated(s, d) = D!Violated(s, d)
  /\ D!Violated(s, <<>>) = {} =>
        \A pos \in 0..s.n : FirstBad(s, d, pos) = D!FirstBad(s, d, pos)
  /\ \A c \in D!Violated(s, d) :
        LET v == LastVar(s, c) IN
        v > 0 => LET x == Solutions(s, d, c, v, 1000)
                     y == D!Solutions(s, d, c, v, 1000)
                 IN x = y
  /\ \A k \in 1..s.n : Loose(s, {k}) = D!Loose(s, {k}) /\ Loose(s, {}) = D!Loose(s, {})
=============================================================================
