------------------------------ MODULE OpenGen ------------------------------
(* All query sets over NP commitments and NX points, in every order, to a     *)
(* bound on their number; a query may be repeated.                            *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS NP, NX, Max
VARIABLE qs
Init == qs = <<>>
\* commitments and points appear in order of first use: renaming is a symmetry
Seen(i) == {qs[j][i] : j \in DOMAIN qs}
Next == /\ Len(qs) < Max
        /\ \E p \in 0..(NP - 1), x \in 0..(NX - 1) :
             /\ p <= Cardinality(Seen(1)) /\ x <= Cardinality(Seen(2))
             /\ qs' = Append(qs, <<p, x>>)
             /\ PrintT("GEN|" \o ToJson(qs'))
=============================================================================
