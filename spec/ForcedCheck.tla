----------------------------- MODULE ForcedCheck -----------------------------
(* The rules of spec/java/Forced.java only find variables that are determined *)
(* (ForcedDef is Forced under another name, so that nothing overrides it), on *)
(* random small systems.                                                      *)
EXTENDS Forced, Json
D == INSTANCE ForcedDef
Data == JsonDeserialize("cases.json")
VARIABLES i
S(q) == {q[j] : j \in 1..Len(q)}
Init == i = 1
Next == i < Len(Data) /\ i' = i + 1
Sound ==
  LET x == Data[i]  fix == S(x.fix)
      f == ForcedVars(x.sys, fix, {})  d == D!Determined(x.sys, fix, {})
      m == ForcedMax(x.sys, fix, {})  l == D!Largest(x.sys, fix, {})
      top == Small(x.sys.p) - 1
  IN /\ f \subseteq d
     /\ \A v \in 1..x.sys.n : Small(l[v]) <= Small(m[v])
     /\ PrintT("MAX|" \o ToString(Cardinality({v \in 1..x.sys.n : m[v] = l[v] /\ Small(l[v]) # top})) \o "|" \o ToString(Cardinality({v \in 1..x.sys.n : Small(l[v]) # top})))
     /\ PrintT("FOUND|" \o ToString(Cardinality(f \ fix)) \o "|" \o ToString(Cardinality(d \ fix)))
=============================================================================
