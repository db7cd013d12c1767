------------------------------- MODULE SelGen -------------------------------
(* Enumerates every activation pattern of NS selectors on NR rows.            *)
EXTENDS Integers, FiniteSets, Sequences, Json, TLC, SequencesExt
CONSTANTS NS, NR
VARIABLE act
All == (0..(NS - 1)) \X (0..(NR - 1))
Init == act \in SUBSET All
Next == /\ PrintT("GEN|" \o ToJson(SetToSeq(act))) /\ UNCHANGED act
=============================================================================
