------------------------------ MODULE Assigned ------------------------------
(* Values assigned to cells: zero, an integer, or a fraction whose inversion   *)
(* is deferred.  E is what a value denotes when every inversion is done at     *)
(* once (the inverse of zero is zero).  The operators below are the library's  *)
(* rules; Homomorphic says deferring never changes the result.  Checked for    *)
(* all operands over a small prime field.                                      *)
EXTENDS Integers, Sequences, FiniteSets, Field
CONSTANT Q

E(a) == CASE a = <<>> -> 0
          [] Len(a) = 1 -> a[1]
          [] OTHER -> MulM(a[1], InvM(a[2], Q), Q)     \* InvM(0) = 0

AddA(a, b) ==
    CASE a = <<>> -> b
      [] b = <<>> -> a
      [] Len(a) = 2 /\ a[2] = 0 -> b
      [] Len(b) = 2 /\ b[2] = 0 -> a
      [] Len(a) = 1 /\ Len(b) = 1 -> <<AddM(a[1], b[1], Q)>>
      [] Len(a) = 2 /\ Len(b) = 1 -> <<AddM(a[1], MulM(a[2], b[1], Q), Q), a[2]>>
      [] Len(a) = 1 /\ Len(b) = 2 -> <<AddM(b[1], MulM(b[2], a[1], Q), Q), b[2]>>
      [] OTHER -> <<AddM(MulM(a[1], b[2], Q), MulM(a[2], b[1], Q), Q), MulM(a[2], b[2], Q)>>
NegA(a) == CASE a = <<>> -> a [] Len(a) = 1 -> <<NegM(a[1], Q)>> [] OTHER -> <<NegM(a[1], Q), a[2]>>
SubA(a, b) == AddA(a, NegA(b))
MulA(a, b) ==
    CASE a = <<>> \/ b = <<>> -> <<>>
      [] Len(a) = 1 /\ Len(b) = 1 -> <<MulM(a[1], b[1], Q)>>
      [] Len(a) = 2 /\ Len(b) = 1 -> <<MulM(a[1], b[1], Q), a[2]>>
      [] Len(a) = 1 /\ Len(b) = 2 -> <<MulM(b[1], a[1], Q), b[2]>>
      [] OTHER -> <<MulM(a[1], b[1], Q), MulM(a[2], b[2], Q)>>
InvA(a) == CASE a = <<>> -> a [] Len(a) = 1 -> <<1, a[1]>> [] OTHER -> <<a[2], a[1]>>

All == {<<>>} \cup {<<x>> : x \in 0..(Q - 1)} \cup {<<x, y>> : x \in 0..(Q - 1), y \in 0..(Q - 1)}
VARIABLES a, b
Init == a \in All /\ b \in All
Next == UNCHANGED <<a, b>>
Homomorphic ==
    /\ E(AddA(a, b)) = AddM(E(a), E(b), Q)
    /\ E(SubA(a, b)) = SubM(E(a), E(b), Q)
    /\ E(MulA(a, b)) = MulM(E(a), E(b), Q)
    /\ E(NegA(a)) = NegM(E(a), Q)
    /\ E(InvA(a)) = InvM(E(a), Q)
=============================================================================
