---------------------------- MODULE AssignedTrace ----------------------------
(* Results of the real operators, in every operand form, against the eager     *)
(* field operations; unknown is -1 and spreads through every pairing.          *)
EXTENDS Integers, Sequences, FiniteSets, Field, SequencesExt, Json, Report
Cases == JsonDeserialize("cases.json")
VARIABLES cid, stop
Q == 97
E(a) == CASE a = <<>> -> 0
          [] Len(a) = 1 -> a[1]
          [] OTHER -> MulM(a[1], InvM(a[2], Q), Q)

RECURSIVE T(_)
T(t) == CASE t[1] = "leaf" -> E(t[2])
          [] t[1] = "+" -> AddM(T(t[2]), T(t[3]), Q)
          [] t[1] = "-" -> SubM(T(t[2]), T(t[3]), Q)
          [] t[1] = "*" -> MulM(T(t[2]), T(t[3]), Q)
          [] t[1] = "neg" -> NegM(T(t[2]), Q)
          [] t[1] = "double" -> LET x == T(t[2]) IN AddM(x, x, Q)
          [] t[1] = "square" -> LET x == T(t[2]) IN MulM(x, x, Q)
          [] t[1] = "cube" -> LET x == T(t[2]) IN MulM(x, MulM(x, x, Q), Q)
          [] OTHER -> InvM(T(t[2]), Q)

Unk(j) == j = <<-1>>
B(x) == IF x THEN 1 ELSE 0
Bin(op, x, y) == CASE op = "+" -> AddM(x, y, Q) [] op = "-" -> SubM(x, y, Q) [] OTHER -> MulM(x, y, Q)
Un(op, x) == CASE op = "neg" -> NegM(x, Q)
               [] op = "double" -> AddM(x, x, Q)
               [] op = "square" -> MulM(x, x, Q)
               [] op = "cube" -> MulM(x, MulM(x, x, Q), Q)
               [] op = "invert" -> InvM(x, Q)
               [] OTHER -> x
Want(s) ==
    LET op == s[1]
        a == s[3]
        b == s[4]
    IN CASE op = "tree" -> T(a)
         [] op = "treeeq" -> B(T(a) = T(b))
         [] op = "treezero" -> B(T(a) = 0)
         [] op \in {"+", "-", "*"} -> IF Unk(a) \/ Unk(b) THEN -1 ELSE Bin(op, E(a), E(b))
         [] op = "eq" -> B(E(a) = E(b))
         [] op = "ne" -> B(E(a) # E(b))
         [] op = "zero" -> B(E(a) = 0)
         [] op \in {"neg", "double", "square", "cube", "invert", "id", "parts"} -> IF Unk(a) THEN -1 ELSE Un(op, E(a))
         [] op = "thenunknown" -> -1
         [] op \in {"zip1", "unzip1"} -> IF Unk(a) \/ Unk(b) THEN -1 ELSE E(a)
         [] op \in {"zip2", "unzip2"} -> IF Unk(a) \/ Unk(b) THEN -1 ELSE E(b)
         [] op \in {"tarr", "tvec"} -> IF Unk(a) \/ Unk(b) THEN 0 ELSE 100 * (E(a) + 1) + E(b) + 1
         [] op = "collect" -> IF Unk(a) \/ Unk(b) THEN -1 ELSE 100 * (E(a) + 1) + E(b) + 1
         [] op = "assert" -> B(Unk(a) \/ E(a) = 0)
         [] OTHER -> B(~Unk(a) /\ E(a) = 0)     \* errif

Case == Cases[cid]
Init == cid \in DOMAIN Cases /\ stop = FALSE
Next == /\ ~stop /\ stop' = TRUE /\ cid' = cid
        /\ LET badi == {i \in DOMAIN Case.items : Case.outs[i] # Want(Case.items[i])}
           IN IF badi = {} THEN Done(Case.id)
              ELSE LET i == CHOOSE i \in badi : \A j \in badi : i <= j
                   IN Reject(Case.id, ToString(Case.items[i]) \o " gives " \o ToString(Case.outs[i]) \o ", not " \o ToString(Want(Case.items[i])))
=============================================================================
